#include "mulapi_impl.h"
namespace mulapi {
template void MulT<uint8_t, uint8_t, int32_t, int32_t>(const MulDesc&);
template void MulT<uint8_t, uint8_t, int32_t, int8_t>(const MulDesc&);
}  // namespace mulapi
