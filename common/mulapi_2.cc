#include "mulapi_impl.h"
namespace mulapi {
template void MulT<uint8_t, uint8_t, int32_t, uint8_t>(const MulDesc&);
template void MulT<uint8_t, uint8_t, int32_t, int16_t>(const MulDesc&);
}  // namespace mulapi
