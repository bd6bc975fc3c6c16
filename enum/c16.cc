// C16: tuning decisions under a controlled clock and a controlled current core.
#include <cpuinfo.h>
#include <sys/syscall.h>

#include <atomic>
#include <mutex>

#include "mulproblem.h"
#include "ruy/context_get_ctx.h"
#include "ruy/cpuinfo.h"
#include "ruy/ctx.h"
#include "ruy/frontend.h"
#include "ruy/mat.h"
#include "ruy/thread_pool.h"
#include "ruy/trmul_params.h"
#include "ruy/tune.h"

namespace {
std::atomic<bool> g_controlled{false};
std::atomic<long> g_now{0};
std::atomic<int> g_core{0};
}  // namespace

// The environment of the code under test: time, and the kind of core it runs on.
extern "C" int clock_gettime(clockid_t k, struct timespec* ts) noexcept {
  if (!g_controlled.load()) return syscall(SYS_clock_gettime, k, ts);
  ts->tv_sec = g_now.load() / 1000000000;
  ts->tv_nsec = g_now.load() % 1000000000;
  return 0;
}
extern "C" uint32_t cpuinfo_get_current_uarch_index(void) { return g_core.load(); }
extern "C" uint32_t cpuinfo_get_current_uarch_index_with_default(uint32_t) { return g_core.load(); }
extern "C" const struct cpuinfo_uarch_info* cpuinfo_get_uarch(uint32_t i) {
  static struct cpuinfo_uarch_info kinds[6];
  kinds[0].uarch = cpuinfo_uarch_cortex_a76;
  kinds[1].uarch = cpuinfo_uarch_cortex_a53;
  kinds[2].uarch = cpuinfo_uarch_cortex_a55r0;
  kinds[3].uarch = cpuinfo_uarch_cortex_a55;
  kinds[4].uarch = cpuinfo_uarch_cortex_x1;
  kinds[5].uarch = cpuinfo_uarch_unknown;
  return i < 6 ? &kinds[i] : nullptr;
}

namespace {
using ruy::Tuning;

Tuning OfCore(int core) {
  if (core >= 1 && core <= 3) return Tuning::kA55ish;
  if (core == 4) return Tuning::kX1;
  return Tuning::kGeneric;
}
const char* NameOf(Tuning t) {
  switch (t) {
    case Tuning::kAuto: return "auto";
    case Tuning::kGeneric: return "generic";
    case Tuning::kA55ish: return "a55ish";
    default: return "x1";
  }
}

struct Controlled {
  Controlled(long now, int core) {
    g_now = now;
    g_core = core;
    g_controlled = true;
  }
  ~Controlled() { g_controlled = false; }
};

// How long a decision stays valid, observed on a fresh resolver: the largest age
// at which the answer is still the old one is one less.
long Expiry(long start) {
  long lo = 0, hi = 100l * 1000000000;  // valid at lo, expired at hi
  auto valid = [&](long age) {
    Controlled c(start, 0);
    ruy::TuningResolver r;
    ruy::CpuInfo info;
    r.Resolve(&info);
    g_core = 1;
    g_now = start + age;
    return r.Resolve(&info) == Tuning::kGeneric;
  };
  if (valid(hi)) return -1;
  while (hi - lo > 1) {
    const long mid = lo + (hi - lo) / 2;
    (valid(mid) ? lo : hi) = mid;
  }
  return hi;
}

void ExpiryLength() {
  long first = 0;
  for (long start : {1l, 5000000000l, 123456789012345l, 4000000000000000000l}) {
    if (!vd::Begin("expiry start=%ld", start)) continue;
    const long e = Expiry(start);
    vd::Transition(60);
    // A decision must outlive a multiplication and not outlive a second.
    if (e < 1000000 || e > 1000000000)
      vd::Violation("expiry", "a decision stays valid for %ld ns", e);
    if (!first) first = e;
    if (e != first) vd::Violation("expiry", "a decision stays valid for %ld ns or %ld ns", first, e);
    vd::Compared(2);
    vd::State(start);
  }
  for (int core = 0; core < 7; core++) {
    if (!vd::Begin("core %d", core)) continue;
    Controlled c(1000, core);
    ruy::TuningResolver r;
    ruy::CpuInfo info;
    const Tuning t = r.Resolve(&info);
    vd::Transition();
    if (t != OfCore(core))
      vd::Violation("core", "core kind %d is tuned as %s", core, NameOf(t));
    vd::Compared(1);
    vd::State(100 + core);
  }
}

struct Op {
  enum Kind { kResolve, kSet, kCore, kAdvance, kMul, kMulThreads } kind;
  long value;
};
std::string NameOp(const Op& o) {
  switch (o.kind) {
    case Op::kResolve: return "resolve";
    case Op::kSet: return vd::Str("set:%s", NameOf((Tuning)o.value));
    case Op::kCore: return vd::Str("core:%ld", o.value);
    case Op::kAdvance: return vd::Str("advance:%ld", o.value);
    case Op::kMul: return "mul";
    default: return "mul-threads";
  }
}

template <typename F>
void Sequences(const char* what, const std::vector<Op>& ops, int depth, int first, F run) {
  const int n = ops.size();
  if (first >= n) return;
  std::vector<int> seq(depth, 0);
  seq[0] = first;
  for (long count = 0;; count++) {
    const Op& last = ops[seq[depth - 1]];
    if (last.kind == Op::kResolve || last.kind >= Op::kMul) {
      char text[400];
      int at = snprintf(text, sizeof text, "%s", what);
      for (int i : seq) at += snprintf(text + at, sizeof text - at, " %s", NameOp(ops[i]).c_str());
      if (vd::Begin("%s", text)) run(seq);
      if ((count & 255) == 0 && vd::OutOfTime()) return;
    }
    int i = depth - 1;
    while (i > 0 && ++seq[i] == n) seq[i--] = 0;
    if (i == 0) return;
  }
}

void Resolver(int first, long start) {
  const long e = Expiry(start);
  if (e < 0) return;  // reported by ExpiryLength
  const std::vector<Op> ops = {{Op::kResolve, 0},
                               {Op::kSet, (long)Tuning::kAuto},
                               {Op::kSet, (long)Tuning::kGeneric},
                               {Op::kSet, (long)Tuning::kX1},
                               {Op::kCore, 0},
                               {Op::kCore, 3},
                               {Op::kCore, 4},
                               {Op::kAdvance, 1},
                               {Op::kAdvance, e / 2},
                               {Op::kAdvance, e - 1},
                               {Op::kAdvance, e}};
  Sequences(vd::Str("resolver start=%ld", start).c_str(), ops, vd::Thorough() ? 7 : 6, first,
            [&](const std::vector<int>& seq) {
              Controlled c(start, 0);
              ruy::TuningResolver r;
              ruy::CpuInfo info;
              Tuning requested = Tuning::kAuto, decided = Tuning::kAuto;
              long at = 0;
              int step = 0;
              for (int i : seq) {
                const Op& o = ops[i];
                switch (o.kind) {
                  case Op::kSet:
                    r.SetTuning((Tuning)o.value);
                    requested = (Tuning)o.value;
                    break;
                  case Op::kCore: g_core = o.value; break;
                  case Op::kAdvance: g_now += o.value; break;
                  default: {
                    const Tuning got = r.Resolve(&info);
                    Tuning want = requested;
                    if (want == Tuning::kAuto) {
                      if (decided == Tuning::kAuto || g_now - at >= e) {
                        decided = OfCore(g_core);
                        at = g_now;
                      }
                      want = decided;
                    }
                    vd::Compared(1);
                    if (got != want)
                      vd::Violation("resolve", "step %d: resolved to %s, expected %s", step,
                                    NameOf(got), NameOf(want));
                  }
                }
                vd::Transition();
                step++;
                vd::State(vd::mix((int)requested * 64 + (int)decided * 8 + g_core, g_now - at));
              }
              if (decided != Tuning::kAuto) vd::NonTrivial();
            });
}

// ---- which tuning the packing and kernel calls of a multiplication receive ------
std::mutex g_mu;
std::vector<Tuning> g_seen;
ruy::RunPackFn* g_pack[2];
ruy::RunKernelFn* g_kernel;
void Saw(Tuning t) {
  std::lock_guard<std::mutex> l(g_mu);
  g_seen.push_back(t);
}
template <int side>
void Pack(Tuning t, const ruy::EMat& src, ruy::PEMat* dst, int start, int end) {
  Saw(t);
  g_pack[side](t, src, dst, start, end);
}
void Kernel(Tuning t, const ruy::SidePair<ruy::PEMat>& src, const void* params,
            const ruy::SidePair<int>& start, const ruy::SidePair<int>& end, ruy::EMat* dst) {
  Saw(t);
  g_kernel(t, src, params, start, end, dst);
}

const int kM = 48, kK = 3, kN = 40;
template <ruy::Path path>
void Multiply(ruy::Ctx* ctx, std::vector<float>* out) {
  static std::vector<float> l, r;
  if (l.empty()) {
    for (int i = 0; i < kM * kK; i++) l.push_back((i * 7) % 11 - 5);
    for (int i = 0; i < kN * kK; i++) r.push_back((i * 5) % 13 - 6);
  }
  out->assign(kM * kN, 99);
  ruy::Mat<float> lhs, rhs, dst;
  lhs.data.set((const float*)l.data());
  rhs.data.set((const float*)r.data());
  dst.data.set(out->data());
  lhs.layout.rows = kM;
  lhs.layout.cols = lhs.layout.stride = kK;
  lhs.layout.order = ruy::Order::kRowMajor;
  rhs.layout.rows = rhs.layout.stride = kK;
  rhs.layout.cols = kN;
  dst.layout.rows = dst.layout.stride = kM;
  dst.layout.cols = kN;
  ruy::MulParams<float, float> params;
  ruy::TrMulParams tr;
  ctx->clear_performance_advisories();
  ruy::MulFrontEndUpToCreateTrMulParams<path>(lhs, rhs, dst, params, ctx, &tr);
  g_pack[0] = tr.run_pack[ruy::Side::kLhs];
  g_pack[1] = tr.run_pack[ruy::Side::kRhs];
  g_kernel = tr.run_kernel;
  tr.run_pack[ruy::Side::kLhs] = &Pack<0>;
  tr.run_pack[ruy::Side::kRhs] = &Pack<1>;
  tr.run_kernel = &Kernel;
  ruy::MulFrontEndFromTrMulParams(ctx, &tr);
  for (int i = 0; i < kM; i++)
    for (int j = 0; j < kN; j++) {
      float w = 0;
      for (int d = 0; d < kK; d++) w += l[i * kK + d] * r[j * kK + d];
      if ((*out)[i + j * kM] != w)
        vd::Violation("result", "entry (%d,%d) is %g, expected %g", i, j, (*out)[i + j * kM], w);
    }
  vd::Compared(kM * kN);
}

void Contexts(int first, bool vec) {
  const long start = 7000000000l;
  const long e = Expiry(start);
  if (e < 0) return;
  const std::vector<Op> ops = {{Op::kMul, 0},
                               {Op::kMulThreads, 0},
                               {Op::kSet, (long)Tuning::kAuto},
                               {Op::kSet, (long)Tuning::kGeneric},
                               {Op::kSet, (long)Tuning::kA55ish},
                               {Op::kSet, (long)Tuning::kX1},
                               {Op::kCore, 1},
                               {Op::kCore, 4},
                               {Op::kAdvance, e - 1},
                               {Op::kAdvance, e}};
  Sequences(
      vec ? "context-vector" : "context", ops, vd::Thorough() ? 6 : 5, first,
      [&](const std::vector<int>& seq) {
        Controlled c(start, 0);
        ruy::Context context;
        context.set_runtime_enabled_paths(vec ? RunnablePaths().back().path
                                              : ruy::Path::kStandardCpp);
        context.mutable_thread_pool()->set_spin_milliseconds(0);
        context.set_num_threads_strategy(ruy::NumThreadsStrategy::kForceMaxNumThreads);
        Tuning requested = Tuning::kAuto;
        // When each kind of core was last the current one.
        long until[5];
        for (long& u : until) u = -1;
        std::vector<float> out;
        int step = 0;
        for (int i : seq) {
          const Op& o = ops[i];
          switch (o.kind) {
            case Op::kSet:
              context.set_explicit_tuning((Tuning)o.value);
              requested = (Tuning)o.value;
              break;
            case Op::kCore:
              until[(int)OfCore(g_core)] = g_now;
              g_core = o.value;
              break;
            case Op::kAdvance: g_now += o.value; break;
            default: {
              context.set_max_num_threads(o.kind == Op::kMul ? 1 : 3);
              g_seen.clear();
              if (vec)
                Multiply<ruy::kAllPaths>(ruy::get_ctx(&context), &out);
              else
                Multiply<ruy::Path::kStandardCpp>(ruy::get_ctx(&context), &out);
              if (g_seen.empty()) vd::Violation("none", "no packing or kernel call was made");
              for (Tuning t : g_seen) {
                // A decision still valid was taken when that kind of core was current.
                const bool ok =
                    requested != Tuning::kAuto
                        ? t == requested
                        : t == OfCore(g_core) ||
                              (until[(int)t] >= 0 && g_now - until[(int)t] < e);
                if (!ok)
                  vd::Violation("used", "step %d: tuning %s used, %s requested", step, NameOf(t),
                                NameOf(requested));
                vd::State(vd::mix((int)requested * 64 + (int)t * 8 + g_core, o.kind));
              }
              vd::Compared(g_seen.size());
            }
          }
          vd::Transition();
          step++;
        }
        vd::NonTrivial();
      });
}

// Results under every tuning, for all types and paths.
void Results(const PathName& path) {
  InitData();
  static std::vector<char> bl, br;
  for (int ti = 0; ti < kNumTypes; ti++)
    for (int mult : {0, 4})
      for (int k : {1, 3, 8, 19})
        for (int m : {1, 5, 17, 34})
          for (int n : {1, 2, 7, 18}) {
            const Types& t = kTypes[ti];
            Setting s{"", 0, 1, 1, 0, 0, mult, 0};
            if (t.d == I32) s.zp = 0;
            Problem p = MakeProblem(ti, s, m, n, k, path);
            std::vector<char> first;
            for (Tuning tune : {Tuning::kAuto, Tuning::kGeneric, Tuning::kA55ish, Tuning::kX1})
              for (int threads : {1, 2}) {
                if (threads == 2 && (m != 34 || n != 18)) continue;
                if (!vd::Begin("results %s %s mult=%d %dx%dx%d tuning=%s threads=%d", path.name,
                               t.name, mult, m, k, n, NameOf(tune), threads))
                  continue;
                if (vd::OutOfTime()) return;
                MulDesc q;
                q.types = ti;
                LayoutOf(&q.l, m, k, 1, 0);
                LayoutOf(&q.r, k, n, 0, 0);
                LayoutOf(&q.d, m, n, 0, 0);
                FillOperand(t.l, p.z.l, p.lv, k, false, &q.l, &bl);
                FillOperand(t.r, p.z.r, p.rv, k, true, &q.r, &br);
                std::vector<char> dst(q.d.Span() * SizeOf(t.d), 0x3c);
                q.d.data = dst.data();
                q.d.zp = p.z.d;
                ApplySetting(p, &q);
                ruy::Context ctx;
                Setup(&ctx, path, threads);
                ctx.set_explicit_tuning(tune);
                q.ctx = &ctx;
                Mul(q);
                vd::Transition();
                if (first.empty()) first = dst;
                if (first != dst)
                  vd::Violation("results", "the result depends on the tuning or thread count");
                for (int i = 0; i < m; i++)
                  for (int j = 0; j < n; j++)
                    if (std::fabs(Load(t.d, dst.data(), q.d.At(i, j)) -
                                  p.want[(size_t)i * p.N + j]) > p.tol)
                      vd::Violation("result", "entry (%d,%d) is wrong", i, j);
                vd::Compared(m * n + 1);
                vd::State(HashBytes(dst.data(), dst.size()));
              }
          }
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    jobs.emplace_back("expiry", [] { ExpiryLength(); });
    for (int i = 0; i < 11; i++) {
      jobs.emplace_back(vd::Str("resolver-%d", i), [=] { Resolver(i, 5000000000l); }, 2);
      jobs.emplace_back(vd::Str("resolver-early-%d", i), [=] { Resolver(i, 1); }, 2);
      if (i < 10)
        for (int v = 0; v < 2; v++)
          jobs.emplace_back(vd::Str("context-%d-%d", i, v), [=] { Contexts(i, v); }, 5);
    }
    for (auto& p : RunnablePaths())
      jobs.emplace_back(vd::Str("results-%s", p.name), [=] { Results(p); });
    return jobs;
  });
}
