// C02: one multiplication split over several threads, every schedule.
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

#include "mcrt.h"
#include "ruy/ruy.h"
#include "ruy/strategy_controls.h"
#include "ruy/thread_pool.h"

namespace {

using ruy::Path;

struct Case {
  int rows, cols, depth, threads;
  int lhs_cached, rhs_cached;  // cache policies on/off
  int muls;                    // consecutive multiplications on one context
  bool trans_dst;              // row-major destination
  float spin_ms;
};

template <typename T>
T Val(int i, int seed) {
  return static_cast<T>(((i * 7 + seed * 3) % 11) - 5);
}

template <Path P, typename T, typename Acc, typename D>
void Body(const Case& c) {
  ruy::Context ctx;
  ctx.set_runtime_enabled_paths(P);
  ctx.set_max_num_threads(c.threads);
  ctx.set_num_threads_strategy(ruy::NumThreadsStrategy::kForceMaxNumThreads);
  ctx.mutable_thread_pool()->set_spin_milliseconds(c.spin_ms);
  const bool quant = !std::is_floating_point<T>::value;
  std::vector<T> l(c.rows * c.depth), r(c.depth * c.cols);
  for (size_t i = 0; i < l.size(); i++) l[i] = Val<T>(i, 1);
  for (size_t i = 0; i < r.size(); i++) r[i] = Val<T>(i, 2);
  std::vector<Acc> bias(c.rows);
  for (int i = 0; i < c.rows; i++) bias[i] = Val<Acc>(i, 5) * 10;
  const int lzp = quant ? 3 : 0, rzp = quant ? -2 : 0;
  ruy::Matrix<T> lhs, rhs;
  ruy::MakeSimpleLayout(c.rows, c.depth, ruy::Order::kRowMajor,
                        lhs.mutable_layout());
  ruy::MakeSimpleLayout(c.depth, c.cols, ruy::Order::kColMajor,
                        rhs.mutable_layout());
  lhs.set_data(l.data());
  rhs.set_data(r.data());
  lhs.set_zero_point(lzp);
  rhs.set_zero_point(rzp);
  if (c.lhs_cached) lhs.set_cache_policy(ruy::CachePolicy::kAlwaysCache);
  if (c.rhs_cached) rhs.set_cache_policy(ruy::CachePolicy::kAlwaysCache);
  ruy::MulParams<Acc, D> mp;
  mp.set_bias(bias.data());
  for (int m = 0; m < c.muls; m++) {
    std::vector<D> d(c.rows * c.cols, static_cast<D>(77));
    ruy::Matrix<D> dst;
    ruy::MakeSimpleLayout(
        c.rows, c.cols,
        c.trans_dst ? ruy::Order::kRowMajor : ruy::Order::kColMajor,
        dst.mutable_layout());
    dst.set_data(d.data());
    ruy::Mul<ruy::kAllPathsIncludingInternalVariants>(lhs, rhs, mp, &ctx, &dst);
    std::uint64_t h = 0;
    for (int i = 0; i < c.rows; i++)
      for (int j = 0; j < c.cols; j++) {
        Acc acc = bias[i];
        for (int k = 0; k < c.depth; k++)
          acc += (static_cast<Acc>(l[i * c.depth + k]) - lzp) *
                 (static_cast<Acc>(r[k + j * c.depth]) - rzp);
        D got = c.trans_dst ? d[i * c.cols + j] : d[i + j * c.rows];
        if (got != static_cast<D>(acc))
          mc::Fail("multiplication %d: entry (%d,%d) is %g, expected %g", m, i,
                   j, (double)got, (double)acc);
        h = h * 31 + (std::uint64_t)(std::int64_t)got;
      }
    mc::Outcome(h);
  }
  if (ctx.last_used_path() != P) mc::Fail("unexpected path");
}

std::vector<mc::Config> cs;

template <Path P, typename T, typename Acc, typename D>
void Add(const char* pn, const Case& c, mc::Bounds q, mc::Bounds t,
         double weight = 1) {
  mc::Config g;
  g.name = std::string("mul-") + pn + "-" + std::to_string(c.rows) + "x" +
           std::to_string(c.depth) + "x" + std::to_string(c.cols) + "-t" +
           std::to_string(c.threads) + (c.lhs_cached ? "-cl" : "") +
           (c.rhs_cached ? "-cr" : "") + (c.trans_dst ? "-rm" : "") + "-m" +
           std::to_string(c.muls) + (c.spin_ms > 0 ? "-spin" : "");
  g.quick = q;
  g.thorough = t;
  g.weight = weight;
  if (c.spin_ms > 0) g.tick_ns = 700000;
  g.body = [c] { Body<P, T, Acc, D>(c); };
  cs.push_back(g);
}

}  // namespace

int main(int argc, char** argv) {
  using ruy::Path;
  constexpr Path kStd = Path::kStandardCpp;
  constexpr Path kV1 = Path::kInternalStandardCppVariant1;
  constexpr Path kV2 = Path::kInternalStandardCppVariant2;
  constexpr Path kV3 = Path::kInternalStandardCppVariant3;
  using f = float;
  using i8 = std::int8_t;
  using i32 = std::int32_t;
  // rows, cols, depth, threads, lhs cached, rhs cached, muls, row-major, spin
  // bounds: preempt, spurious, stale, timers
  Add<kStd, f, f, f>("f", {2, 2, 1, 2, 0, 0, 1, false, 0}, {5, 0, 1, 0}, {99, 1, 1, 0}, 30);
  Add<kStd, f, f, f>("f", {2, 2, 1, 2, 0, 0, 1, false, 1}, {4, 0, 1, 0}, {6, 0, 1, 0}, 30);
  Add<kStd, i8, i32, i32>("q", {2, 2, 2, 2, 0, 0, 1, true, 0}, {3, 1, 1, 0}, {6, 1, 1, 0}, 30);
  Add<kStd, i8, i32, i32>("q", {2, 2, 2, 2, 1, 0, 2, false, 0}, {3, 0, 1, 0}, {4, 0, 1, 0}, 30);
  Add<kStd, i8, i32, i32>("q", {2, 2, 2, 2, 0, 1, 2, false, 0}, {3, 0, 1, 0}, {4, 0, 1, 0}, 30);
  Add<kStd, f, f, f>("f", {2, 2, 2, 2, 1, 1, 2, false, 0}, {3, 0, 1, 0}, {4, 0, 1, 0}, 30);
  Add<kStd, f, f, f>("f", {2, 2, 1, 2, 0, 0, 2, false, 0}, {3, 0, 1, 0}, {4, 0, 1, 0}, 30);
  Add<kStd, f, f, f>("f", {16, 2, 1, 2, 0, 0, 1, false, 0}, {4, 0, 1, 0}, {5, 0, 1, 0}, 20);
  Add<kStd, f, f, f>("f", {2, 16, 1, 2, 0, 0, 1, false, 0}, {4, 0, 1, 0}, {5, 0, 1, 0}, 20);
  Add<kStd, i8, i32, i32>("q", {8, 4, 3, 2, 0, 0, 1, false, 0}, {4, 0, 1, 0}, {5, 0, 1, 0}, 20);
  Add<kStd, f, f, f>("f", {4, 4, 1, 3, 0, 0, 1, false, 0}, {2, 0, 0, 0}, {3, 0, 0, 0}, 40);
  Add<kStd, f, f, f>("f", {2, 2, 1, 3, 0, 0, 1, false, 0}, {2, 0, 1, 0}, {3, 0, 0, 0}, 40);
  Add<kStd, f, f, f>("f", {2, 2, 1, 3, 1, 0, 2, false, 0}, {1, 0, 1, 0}, {2, 0, 0, 0}, 40);
  Add<kStd, f, f, f>("f", {2, 2, 1, 4, 0, 0, 1, false, 0}, {1, 0, 0, 0}, {2, 0, 0, 0}, 40);
  Add<kStd, i8, i32, i32>("q", {16, 2, 1, 4, 0, 0, 1, false, 0}, {0, 0, 0, 0}, {1, 0, 0, 0}, 40);
  Add<kV1, i8, i32, i32>("v1q", {16, 16, 2, 2, 0, 0, 1, false, 0}, {2, 0, 1, 0}, {4, 0, 1, 0}, 20);
  Add<kV2, i8, i32, i32>("v2q", {16, 16, 4, 2, 0, 0, 1, false, 0}, {2, 0, 1, 0}, {4, 0, 1, 0}, 20);
  Add<kV3, f, f, f>("v3f", {32, 32, 3, 2, 0, 0, 1, true, 0}, {2, 0, 1, 0}, {4, 0, 1, 0}, 20);
#if RUY_PLATFORM_X86
  Add<Path::kAvx2Fma, f, f, f>("avx2f", {16, 15, 2, 2, 0, 0, 1, false, 0}, {2, 0, 1, 0}, {3, 0, 0, 0}, 20);
  Add<Path::kAvx2Fma, i8, i32, i32>("avx2q", {15, 16, 3, 2, 0, 0, 1, false, 0}, {2, 0, 1, 0}, {3, 0, 0, 0}, 20);
  Add<Path::kAvx512, f, f, f>("avx512f", {31, 32, 2, 2, 0, 0, 1, false, 0}, {2, 0, 0, 0}, {2, 0, 0, 0}, 20);
  Add<Path::kAvx, i8, i32, i32>("avxq", {16, 16, 5, 2, 0, 0, 1, true, 0}, {1, 0, 0, 0}, {3, 0, 0, 0}, 20);
#endif
  return mc::Main(argc, argv, cs);
}
