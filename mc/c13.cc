// C13: multiplications on distinct contexts, running concurrently.
#include <cstdint>
#include <functional>
#include <string>
#include <thread>
#include <vector>

#include "mcrt.h"
#include "ruy/context.h"
#include "ruy/ruy.h"
#include "ruy/strategy_controls.h"
#include "ruy/thread_pool.h"

namespace {

using ruy::Path;

// Operands shared by all threads (read only).
struct Shared {
  float lf[6] = {1, -2, 3, 4, 5, -6}, rf[6] = {2, 3, -1, 1, 4, 5};
  std::int8_t l8[6] = {1, -2, 3, 4, 5, -6}, r8[6] = {2, 3, -1, 1, 4, 5};
  float bf[3] = {10, 20, 30};
  std::int32_t b32[3] = {10, 20, 30};
  std::int32_t mul[3] = {1 << 30, 1 << 30, 1 << 30};
  int exp[3] = {1, 1, 0};
};

struct Plan {
  int threads;       // threads of each context
  bool cached;
  int muls;
  bool default_paths;  // exercise run-time detection
  int kind;            // 0 float, 1 int8->int32, 2 int8->int8 per channel
};

// 3x2 (row major) times 2x3 (column major).
template <typename T, typename Acc, typename D>
void OneMul(const T* l, const T* r, const ruy::MulParams<Acc, D>& mp,
            const Plan& p, ruy::Context* ctx, D* d) {
  ruy::Matrix<T> lhs, rhs;
  ruy::Matrix<D> dst;
  ruy::MakeSimpleLayout(3, 2, ruy::Order::kRowMajor, lhs.mutable_layout());
  ruy::MakeSimpleLayout(2, 3, ruy::Order::kColMajor, rhs.mutable_layout());
  ruy::MakeSimpleLayout(3, 3, ruy::Order::kColMajor, dst.mutable_layout());
  lhs.set_data(l);
  rhs.set_data(r);
  dst.set_data(d);
  if (p.cached) {
    lhs.set_cache_policy(ruy::CachePolicy::kAlwaysCache);
    rhs.set_cache_policy(ruy::CachePolicy::kCacheIfLargeSpeedup);
  }
  if (p.default_paths)
    ruy::Mul(lhs, rhs, mp, ctx, &dst);
  else
    ruy::Mul<ruy::kAllPathsIncludingInternalVariants>(lhs, rhs, mp, ctx, &dst);
}

void User(const Shared* s, const Plan& p, int who) {
  ruy::Context ctx;
  if (!p.default_paths) ctx.set_runtime_enabled_paths(Path::kStandardCpp);
  ctx.set_max_num_threads(p.threads);
  if (p.threads > 1)
    ctx.set_num_threads_strategy(ruy::NumThreadsStrategy::kForceMaxNumThreads);
  ctx.mutable_thread_pool()->set_spin_milliseconds(0);
  for (int m = 0; m < p.muls; m++) {
    int want[9];
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
        want[i + 3 * j] = (int)s->lf[2 * i] * (int)s->rf[2 * j] +
                          (int)s->lf[2 * i + 1] * (int)s->rf[2 * j + 1] +
                          10 * (i + 1);
    for (int k = 0; k < 9; k++) {
      if (p.kind == 2 && k % 3 == 2) {
        // multiplier one half, exponent 0: round to nearest, ties up
        int v = want[k];
        want[k] = (v + 1) >> 1;
      }
    }
    double got[9];
    if (p.kind == 0) {
      float d[9];
      ruy::MulParams<float, float> mp;
      mp.set_bias(s->bf);
      OneMul<float, float, float>(s->lf, s->rf, mp, p, &ctx, d);
      for (int k = 0; k < 9; k++) got[k] = d[k];
    } else if (p.kind == 1) {
      std::int32_t d[9];
      ruy::MulParams<std::int32_t, std::int32_t> mp;
      mp.set_bias(s->b32);
      OneMul<std::int8_t, std::int32_t, std::int32_t>(s->l8, s->r8, mp, p, &ctx,
                                                      d);
      for (int k = 0; k < 9; k++) got[k] = d[k];
    } else {
      std::int8_t d[9];
      ruy::MulParams<std::int32_t, std::int8_t> mp;
      mp.set_bias(s->b32);
      mp.set_multiplier_fixedpoint_perchannel(s->mul);
      mp.set_multiplier_exponent_perchannel(s->exp);
      OneMul<std::int8_t, std::int32_t, std::int8_t>(s->l8, s->r8, mp, p, &ctx,
                                                     d);
      for (int k = 0; k < 9; k++) got[k] = d[k];
    }
    for (int k = 0; k < 9; k++)
      if (got[k] != want[k])
        mc::Fail("user %d multiplication %d: entry %d is %g, expected %d", who,
                 m, k, got[k], want[k]);
    if (p.cached && m == 0) ctx.ClearPrepackedCache();
  }
}

void Body(const std::vector<Plan>& plans) {
  Shared s;
  std::vector<std::thread> ts;
  for (size_t i = 1; i < plans.size(); i++)
    ts.emplace_back([&s, &plans, i] { User(&s, plans[i], (int)i); });
  User(&s, plans[0], 0);
  for (auto& t : ts) t.join();
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Config> cs;
  auto add = [&](std::string n, mc::Bounds q, mc::Bounds t, double w,
                 std::vector<Plan> plans) {
    mc::Config c;
    c.name = n;
    c.quick = q;
    c.thorough = t;
    c.weight = w;
    c.body = [plans] { Body(plans); };
    cs.push_back(c);
  };
  // Single-threaded users share no synchronisation operation at all, so one
  // schedule per first-use order decides them: any sharing is a race.
  for (int kind = 0; kind < 3; kind++)
    for (int def = 0; def < 2; def++)
      for (int cached = 0; cached < 2; cached++) {
        Plan a{1, cached != 0, 2, def != 0, kind};
        std::string n = "st-k" + std::to_string(kind) + (def ? "-def" : "") +
                        (cached ? "-cached" : "");
        add(n, {99, 0, 1, 0}, {99, 0, 2, 0}, 1, {a, a});
        add(n + "-3", {99, 0, 1, 0}, {99, 0, 2, 0}, 1, {a, a, a});
      }
  for (int k0 = 0; k0 < 3; k0++)
    for (int k1 = 0; k1 < 3; k1++)
      add("st-mixed-" + std::to_string(k0) + std::to_string(k1), {99, 0, 1, 0},
          {99, 0, 2, 0}, 1, {Plan{1, true, 2, true, k0}, Plan{1, false, 2, true, k1}});
  add("mt-st", {4, 0, 0, 0}, {99, 0, 0, 0}, 20,
      {Plan{2, false, 1, false, 0}, Plan{1, false, 1, false, 0}});
  add("mt-st-cached", {4, 0, 0, 0}, {99, 0, 0, 0}, 20,
      {Plan{2, true, 1, false, 2}, Plan{1, true, 2, false, 2}});
  add("mt-mt", {2, 0, 0, 0}, {3, 0, 0, 0}, 60,
      {Plan{2, false, 1, false, 0}, Plan{2, false, 1, false, 0}});
  add("mt-mt-mixed", {2, 0, 0, 0}, {3, 0, 0, 0}, 60,
      {Plan{2, true, 1, false, 1}, Plan{2, false, 1, false, 2}});
  add("mt-mt-st", {1, 0, 0, 0}, {2, 0, 0, 0}, 60,
      {Plan{2, false, 1, false, 0}, Plan{2, false, 1, false, 1},
       Plan{1, true, 1, true, 2}});
  return mc::Main(argc, argv, cs);
}
