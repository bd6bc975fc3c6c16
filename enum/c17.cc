// C17: how many threads are created and used.
#include <dlfcn.h>
#include <pthread.h>

#include <atomic>
#include <mutex>
#include <set>

#include "mulproblem.h"
#include "ruy/context_get_ctx.h"
#include "ruy/ctx.h"
#include "ruy/frontend.h"
#include "ruy/mat.h"
#include "ruy/thread_pool.h"
#include "ruy/trmul_params.h"

namespace {
std::atomic<long> g_created{0}, g_ended{0};
}  // namespace

extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*),
                              void* arg) noexcept {
  static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(
      RTLD_NEXT, "pthread_create");
  g_created++;
  return real(t, a, f, arg);
}
extern "C" int pthread_join(pthread_t t, void** r) {
  static auto real = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join");
  const int e = real(t, r);
  if (e == 0) g_ended++;
  return e;
}

namespace {

std::mutex g_mu;
std::set<pthread_t> g_users;
ruy::RunPackFn* g_pack[2];
ruy::RunKernelFn* g_kernel;
void Saw() {
  std::lock_guard<std::mutex> l(g_mu);
  g_users.insert(pthread_self());
}
template <int side>
void Pack(ruy::Tuning t, const ruy::EMat& src, ruy::PEMat* dst, int start, int end) {
  Saw();
  g_pack[side](t, src, dst, start, end);
}
void Kernel(ruy::Tuning t, const ruy::SidePair<ruy::PEMat>& src, const void* params,
            const ruy::SidePair<int>& start, const ruy::SidePair<int>& end, ruy::EMat* dst) {
  Saw();
  g_kernel(t, src, params, start, end, dst);
}

struct Shape {
  int m, k, n;
};
// Tiny; enough for two threads; enough for many; narrow; a single column.
const Shape kShapes[] = {{3, 4, 5}, {48, 32, 48}, {96, 40, 96}, {8, 2000, 9}, {700, 300, 1}, {256, 3, 256}};
const int kNumShapes = 6;

void Multiply(ruy::Context* context, int shape) {
  const Shape& s = kShapes[shape];
  static std::vector<float> l, r, out;
  if (l.empty()) {
    for (int i = 0; i < 300 * 700; i++) l.push_back((i * 7) % 11 - 5);
    for (int i = 0; i < 20000; i++) r.push_back((i * 5) % 13 - 6);
  }
  out.assign(s.m * s.n, 99);
  ruy::Ctx* ctx = ruy::get_ctx(context);
  ruy::Mat<float> lhs, rhs, dst;
  lhs.data.set((const float*)l.data());
  rhs.data.set((const float*)r.data());
  dst.data.set(out.data());
  lhs.layout.rows = s.m;
  lhs.layout.cols = lhs.layout.stride = s.k;
  lhs.layout.order = ruy::Order::kRowMajor;
  rhs.layout.rows = rhs.layout.stride = s.k;
  rhs.layout.cols = s.n;
  dst.layout.rows = dst.layout.stride = s.m;
  dst.layout.cols = s.n;
  ruy::MulParams<float, float> params;
  ruy::TrMulParams tr;
  ctx->clear_performance_advisories();
  ruy::MulFrontEndUpToCreateTrMulParams<ruy::kAllPaths>(lhs, rhs, dst, params, ctx, &tr);
  g_pack[0] = tr.run_pack[ruy::Side::kLhs];
  g_pack[1] = tr.run_pack[ruy::Side::kRhs];
  g_kernel = tr.run_kernel;
  tr.run_pack[ruy::Side::kLhs] = &Pack<0>;
  tr.run_pack[ruy::Side::kRhs] = &Pack<1>;
  tr.run_kernel = &Kernel;
  ruy::MulFrontEndFromTrMulParams(ctx, &tr);
}

struct Op {
  enum Kind { kLimit, kForce, kMul } kind;
  int value;
};
std::string NameOp(const Op& o) {
  switch (o.kind) {
    case Op::kLimit: return vd::Str("limit:%d", o.value);
    case Op::kForce: return vd::Str("strategy:%s", o.value ? "max" : "default");
    default: return vd::Str("mul:%d", o.value);
  }
}

// Threads a call makes a fresh context create.
int Need(int shape, int limit, bool force) {
  static std::map<int, int> all;
  const int key = (shape * 16 + limit) * 2 + force;
  auto it = all.find(key);
  if (it != all.end()) return it->second;
  const long before = g_created;
  ruy::Context ctx;
  ctx.mutable_thread_pool()->set_spin_milliseconds(0);
  ctx.set_max_num_threads(limit);
  if (force) ctx.set_num_threads_strategy(ruy::NumThreadsStrategy::kForceMaxNumThreads);
  Multiply(&ctx, shape);
  return all[key] = g_created - before;
}

void Step(ruy::Context* ctx, int shape, int limit, bool force, long base, int* needed,
          int* largest) {
  *needed = std::max(*needed, Need(shape, limit, force));
  *largest = std::max(*largest, limit);
  const long before = g_created;
  g_users.clear();
  Multiply(ctx, shape);
  const int users = g_users.size();
  const bool caller = g_users.count(pthread_self());
  if (users > limit)
    vd::Violation("used", "shape %d ran on %d threads, the limit is %d", shape, users, limit);
  if (limit == 1 && (g_created != before || users != 1 || !caller))
    vd::Violation("single", "with a limit of one, %ld threads were created and %d used",
                  (long)g_created - before, users);
  if (users > 1 && !caller)
    vd::Violation("caller", "the calling thread took no part");
  if (g_created - base > *largest - 1)
    vd::Violation("created", "%ld threads exist, the largest limit was %d",
                  (long)g_created - base, *largest);
  if (g_created - base > *needed)
    vd::Violation("reuse", "%ld threads were created although no call needed more than %d",
                  (long)g_created - base, *needed);
  vd::Compared(5);
  if (users > 1) vd::NonTrivial();
  vd::Count(vd::Str("ran_on_%d", users).c_str());
  vd::State(vd::mix((shape * 16 + limit) * 2 + force, (users * 16 + (g_created - base))));
}

void Histories(int first) {
  std::vector<Op> ops;
  for (int l : {1, 2, 3, 5}) ops.push_back({Op::kLimit, l});
  ops.push_back({Op::kForce, 0});
  ops.push_back({Op::kForce, 1});
  for (int s = 0; s < 3; s++) ops.push_back({Op::kMul, s});
  const int n = ops.size();
  if (first >= n) return;
  const int depth = vd::Thorough() ? 7 : 6;
  std::vector<int> seq(depth, 0);
  seq[0] = first;
  for (;;) {
    if (ops[seq[depth - 1]].kind == Op::kMul) {
      char text[300];
      int at = snprintf(text, sizeof text, "history");
      for (int i : seq) at += snprintf(text + at, sizeof text - at, " %s", NameOp(ops[i]).c_str());
      if (vd::Begin("%s", text)) {
        // Fill the table of needs outside the accounting.
        for (int s = 0; s < 3; s++)
          for (int l : {1, 2, 3, 5})
            for (int f = 0; f < 2; f++) Need(s, l, f);
        const long base = g_created, ended = g_ended;
        int needed = 0, largest = 1, limit = 1;
        bool force = false;
        {
          ruy::Context ctx;
          ctx.mutable_thread_pool()->set_spin_milliseconds(0);
          for (int i : seq) {
            const Op& o = ops[i];
            const long before = g_created;
            if (o.kind == Op::kLimit) {
              ctx.set_max_num_threads(limit = o.value);
            } else if (o.kind == Op::kForce) {
              force = o.value;
              ctx.set_num_threads_strategy(force ? ruy::NumThreadsStrategy::kForceMaxNumThreads
                                                 : ruy::NumThreadsStrategy::kDefault);
            } else {
              Step(&ctx, o.value, limit, force, base, &needed, &largest);
            }
            if (o.kind != Op::kMul && g_created != before)
              vd::Violation("setter", "changing a setting created a thread");
            vd::Transition();
          }
        }
        if (g_created - base != g_ended - ended)
          vd::Violation("join", "%ld threads were created and %ld joined", (long)g_created - base,
                        (long)g_ended - ended);
        vd::Compared(1);
        if (vd::OutOfTime()) return;
      }
    }
    int i = depth - 1;
    while (i > 0 && ++seq[i] == n) seq[i--] = 0;
    if (i == 0) return;
  }
}

// Every shape with every limit and strategy, followed by a second limit on the
// same context.
void Shapes(int shape) {
  for (int limit = 1; limit <= 9; limit++)
    for (int force = 0; force < 2; force++)
      for (int second = 1; second <= 9; second++) {
        if (!vd::Begin("shape %d limits %d,%d force=%d", shape, limit, second, force)) continue;
        if (vd::OutOfTime()) return;
        // Forcing the maximum takes that many threads where there is work for all of them.
        if (force && kShapes[shape].m >= 96 && kShapes[shape].n >= 96 && limit <= 4 &&
            Need(shape, limit, force) != limit - 1)
          vd::Violation("forced", "with %d threads forced, %d were created", limit, Need(shape, limit, force));
        Need(shape, limit, force);
        Need(shape, second, force);
        const long base = g_created, ended = g_ended;
        int needed = 0, largest = 1;
        {
          ruy::Context ctx;
          ctx.mutable_thread_pool()->set_spin_milliseconds(0);
          if (force) ctx.set_num_threads_strategy(ruy::NumThreadsStrategy::kForceMaxNumThreads);
          ctx.set_max_num_threads(limit);
          Step(&ctx, shape, limit, force, base, &needed, &largest);
          ctx.set_max_num_threads(second);
          Step(&ctx, shape, second, force, base, &needed, &largest);
          Step(&ctx, shape, second, force, base, &needed, &largest);
          vd::Transition(3);
        }
        if (g_created - base != g_ended - ended)
          vd::Violation("join", "%ld threads were created and %ld joined", (long)g_created - base,
                        (long)g_ended - ended);
        vd::Compared(1);
      }
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    for (int i = 0; i < 9; i++) jobs.emplace_back(vd::Str("history-%d", i), [=] { Histories(i); }, 5);
    for (int s = 0; s < kNumShapes; s++)
      jobs.emplace_back(vd::Str("shape-%d", s), [=] { Shapes(s); }, 3);
    return jobs;
  });
}
