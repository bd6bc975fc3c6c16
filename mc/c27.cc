// C27: one context used by several threads, one after the other.
#include <cstdint>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#include "mcrt.h"
#include "ruy/context.h"
#include "ruy/ruy.h"
#include "ruy/strategy_controls.h"
#include "ruy/thread_pool.h"

namespace {

using ruy::Path;

struct Plan {
  int threads;  // threads of the context
  bool cached;
  bool default_paths;
  int kinds[2];  // what each user multiplies: 0 float, 1 int8 to int32, 2 int8 to int8 per channel
};

struct Shared {
  float lf[6] = {1, -2, 3, 4, 5, -6}, rf[6] = {2, 3, -1, 1, 4, 5};
  std::int8_t l8[6] = {1, -2, 3, 4, 5, -6}, r8[6] = {2, 3, -1, 1, 4, 5};
  float bf[3] = {10, 20, 30};
  std::int32_t b32[3] = {10, 20, 30};
  std::int32_t mul[3] = {1 << 30, 1 << 30, 1 << 30};
  int exp[3] = {1, 1, 0};
};

// 3x2 (row major) times 2x3 (column major).
template <typename T, typename Acc, typename D>
void OneMul(const T* l, const T* r, const ruy::MulParams<Acc, D>& mp, const Plan& p,
            ruy::Context* ctx, D* d) {
  ruy::Matrix<T> lhs, rhs;
  ruy::Matrix<D> dst;
  ruy::MakeSimpleLayout(3, 2, ruy::Order::kRowMajor, lhs.mutable_layout());
  ruy::MakeSimpleLayout(2, 3, ruy::Order::kColMajor, rhs.mutable_layout());
  ruy::MakeSimpleLayout(3, 3, ruy::Order::kColMajor, dst.mutable_layout());
  lhs.set_data(l);
  rhs.set_data(r);
  dst.set_data(d);
  if (p.cached) {
    lhs.set_cache_policy(ruy::CachePolicy::kAlwaysCache);
    rhs.set_cache_policy(ruy::CachePolicy::kAlwaysCache);
  }
  if (p.default_paths)
    ruy::Mul(lhs, rhs, mp, ctx, &dst);
  else
    ruy::Mul<ruy::kAllPathsIncludingInternalVariants>(lhs, rhs, mp, ctx, &dst);
}

void Multiply(const Shared* s, const Plan& p, int who, ruy::Context* ctx) {
  const int kind = p.kinds[who & 1];
  double got[9];
  if (kind == 0) {
    float d[9];
    ruy::MulParams<float, float> mp;
    mp.set_bias(s->bf);
    OneMul<float, float, float>(s->lf, s->rf, mp, p, ctx, d);
    for (int k = 0; k < 9; k++) got[k] = d[k];
  } else if (kind == 1) {
    std::int32_t d[9];
    ruy::MulParams<std::int32_t, std::int32_t> mp;
    mp.set_bias(s->b32);
    OneMul<std::int8_t, std::int32_t, std::int32_t>(s->l8, s->r8, mp, p, ctx, d);
    for (int k = 0; k < 9; k++) got[k] = d[k];
  } else {
    std::int8_t d[9];
    ruy::MulParams<std::int32_t, std::int8_t> mp;
    mp.set_bias(s->b32);
    mp.set_multiplier_fixedpoint_perchannel(s->mul);
    mp.set_multiplier_exponent_perchannel(s->exp);
    OneMul<std::int8_t, std::int32_t, std::int8_t>(s->l8, s->r8, mp, p, ctx, d);
    for (int k = 0; k < 9; k++) got[k] = d[k];
  }
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      int want = (int)s->lf[2 * i] * (int)s->rf[2 * j] +
                 (int)s->lf[2 * i + 1] * (int)s->rf[2 * j + 1] + 10 * (i + 1);
      // multiplier one half: round to nearest, ties up
      if (kind == 2 && i == 2) want = (want + 1) >> 1;
      if (got[i + 3 * j] != want)
        mc::Fail("user %d: entry (%d,%d) is %g, expected %d", who, i, j, got[i + 3 * j], want);
    }
}

std::unique_ptr<ruy::Context> Make(const Plan& p) {
  std::unique_ptr<ruy::Context> ctx(new ruy::Context);
  if (!p.default_paths) ctx->set_runtime_enabled_paths(Path::kStandardCpp);
  ctx->set_max_num_threads(p.threads);
  if (p.threads > 1)
    ctx->set_num_threads_strategy(ruy::NumThreadsStrategy::kForceMaxNumThreads);
  ctx->mutable_thread_pool()->set_spin_milliseconds(0);
  return ctx;
}

// The users share a lock, in every order.
void Turns(const Plan& p, int users, int muls) {
  Shared s;
  std::mutex mu;
  auto ctx = Make(p);
  auto user = [&](int who) {
    for (int i = 0; i < muls; i++) {
      std::lock_guard<std::mutex> l(mu);
      Multiply(&s, p, who, ctx.get());
    }
  };
  std::vector<std::thread> ts;
  for (int i = 1; i < users; i++) ts.emplace_back(user, i);
  user(0);
  for (auto& t : ts) t.join();
}

// Each user ends before the next one begins. The first one makes the context,
// the last one destroys it.
void Chain(const Plan& p, int users) {
  Shared s;
  std::unique_ptr<ruy::Context> ctx;
  for (int i = 0; i < users; i++) {
    std::thread t([&] {
      if (i == 0) ctx = Make(p);
      Multiply(&s, p, i, ctx.get());
      if (i == users - 1) ctx.reset();
    });
    t.join();
  }
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Config> cs;
  auto add = [&](std::string n, mc::Bounds q, mc::Bounds t, double w, std::function<void()> body) {
    mc::Config c;
    c.name = n;
    c.quick = q;
    c.thorough = t;
    c.weight = w;
    c.body = body;
    cs.push_back(c);
  };
  for (int k0 = 0; k0 < 3; k0++)
    for (int k1 = 0; k1 < 3; k1++)
      for (int cached = 0; cached < 2; cached++) {
        const std::string n = "-" + std::to_string(k0) + std::to_string(k1) + (cached ? "-cached" : "");
        const Plan one{1, cached != 0, true, {k0, k1}};
        add("turns-st" + n, {99, 0, 0, 0}, {99, 0, 1, 0}, 1, [=] { Turns(one, 2, 2); });
        add("turns-st3" + n, {4, 0, 0, 0}, {99, 0, 0, 0}, 2, [=] { Turns(one, 3, 1); });
        add("chain-st" + n, {99, 0, 0, 0}, {99, 0, 1, 0}, 1, [=] { Chain(one, 3); });
        const Plan two{2, cached != 0, false, {k0, k1}};
        add("turns-mt" + n, {3, 0, 0, 0}, {3, 0, 1, 0}, 10, [=] { Turns(two, 2, 1); });
        add("chain-mt" + n, {3, 0, 0, 0}, {4, 0, 0, 0}, 5, [=] { Chain(two, 3); });
      }
  return mc::Main(argc, argv, cs);
}
