#include "mulapi_impl.h"
namespace mulapi {
template void MulT<float, float, float, float>(const MulDesc&);
}  // namespace mulapi
