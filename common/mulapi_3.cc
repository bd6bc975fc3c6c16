#include "mulapi_impl.h"
namespace mulapi {
template void MulT<int8_t, int8_t, int32_t, int8_t>(const MulDesc&);
template void MulT<int8_t, int8_t, int32_t, uint8_t>(const MulDesc&);
}  // namespace mulapi
