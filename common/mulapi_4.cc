#include "mulapi_impl.h"
namespace mulapi {
template void MulT<int8_t, int8_t, int32_t, int16_t>(const MulDesc&);
template void MulT<int8_t, int8_t, int32_t, int32_t>(const MulDesc&);
}  // namespace mulapi
