#include "mulapi_impl.h"
namespace mulapi {
template void MulT<double, float, double, float>(const MulDesc&);
template void MulT<float, double, double, double>(const MulDesc&);
}  // namespace mulapi
