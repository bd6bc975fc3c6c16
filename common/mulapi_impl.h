#ifndef MULAPI_IMPL_H_
#define MULAPI_IMPL_H_
#include "mulapi.h"
#include "ruy/reference_mul.h"
#include "ruy/ruy.h"

namespace mulapi {

template <typename T>
void Fill(const MatDesc& d, ruy::Matrix<T>* m) {
  ruy::MakeSimpleLayout(d.rows, d.cols,
                        d.row_major ? ruy::Order::kRowMajor : ruy::Order::kColMajor,
                        m->mutable_layout());
  if (d.stride) m->mutable_layout()->set_stride(d.stride);
  m->set_data(static_cast<T*>(d.data));
  if (d.zp) m->set_zero_point((T)d.zp);
  switch (d.cache) {
    case 0: m->set_cache_policy(ruy::CachePolicy::kNeverCache); break;
    case 1: m->set_cache_policy(ruy::CachePolicy::kCacheIfLargeSpeedup); break;
    case 2: m->set_cache_policy(ruy::CachePolicy::kCacheIfSignificantSpeedup); break;
    default: m->set_cache_policy(ruy::CachePolicy::kAlwaysCache); break;
  }
}

template <typename P>
void SetMultiplier(const MulDesc& d, P* p, std::true_type) {
  if (d.fixedpoint_pc) {
    p->set_multiplier_fixedpoint_perchannel(d.fixedpoint_pc);
    p->set_multiplier_exponent_perchannel(d.exponent_pc);
  } else if (d.uniform_multiplier) {
    p->set_multiplier_fixedpoint(d.fixedpoint);
    p->set_multiplier_exponent(d.exponent);
  }
}
template <typename P>
void SetMultiplier(const MulDesc&, P*, std::false_type) {}

template <typename D, typename P>
void SetClamp(const MulDesc& d, P* p, std::true_type) {
  if (d.clamp) {
    p->set_clamp_min((D)d.clamp_min);
    p->set_clamp_max((D)d.clamp_max);
  }
}
template <typename D, typename P>
void SetClamp(const MulDesc&, P*, std::false_type) {}

template <typename L, typename R, typename A, typename D>
void MulT(const MulDesc& d) {
  ruy::Matrix<L> l;
  ruy::Matrix<R> r;
  ruy::Matrix<D> o;
  Fill(d.l, &l);
  Fill(d.r, &r);
  Fill(d.d, &o);
  ruy::MulParams<A, D> p;
  if (d.bias) p.set_bias(static_cast<const A*>(d.bias));
  SetMultiplier(d, &p,
                std::integral_constant<bool, std::is_integral<D>::value &&
                                                 !std::is_same<D, int32_t>::value>());
  SetClamp<D>(d, &p, std::integral_constant<bool, !std::is_same<D, int32_t>::value>());
  if (d.channel_is_col) p.set_channel_dimension(ruy::ChannelDimension::kCol);
  if (d.capacity_rounding != 1)
    p.set_perchannel_buffers_capacity_rounding(d.capacity_rounding);
  switch (d.compiled) {
    case kEverything:
      ruy::Mul<ruy::kAllPathsIncludingInternalVariants>(l, r, p, d.ctx, &o);
      break;
    case kDefaultPaths:
      ruy::Mul(l, r, p, d.ctx, &o);
      break;
    case kStandardCppOnly:
      ruy::Mul<ruy::Path::kStandardCpp>(l, r, p, d.ctx, &o);
      break;
    case kReference:
      ruy::ReferenceMul(l, r, p, &o);
      break;
  }
}

}  // namespace mulapi
#endif
