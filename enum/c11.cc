// C11: path selection, and independence of a multiplication from what preceded
// it on the context.
#include "mulproblem.h"
#include "ruy/context_get_ctx.h"
#include "ruy/ctx.h"
#include "ruy/performance_advisory.h"
#include "ruy/tune.h"

namespace {
using ruy::Path;

constexpr int kCpp = 1, kVariants = 0xe, kAvxBit = 0x10, kAvx2Bit = 0x20, kAvx512Bit = 0x40;

int Hardware() {
  int h = kCpp;
  for (auto& p : RunnablePaths())
    if ((int)p.path >= kAvxBit) h |= (int)p.path;
  return h;
}

// The best path of a set, from the documented order of preference.
int Best(int set) {
  for (int p : {kAvx512Bit, kAvx2Bit, kAvxBit, 8, 4, 2, 1})
    if (set & p) return p;
  return 0;
}

// ---- the selection function, for every pair of sets ---------------------------
void Selection() {
  for (int enabled = 0; enabled < 128; enabled++) {
    ruy::Context context;
    for (int compiled = 1; compiled < 128; compiled += 2) {
      if (!vd::Begin("select enabled=0x%x compiled=0x%x", enabled, compiled)) continue;
      context.set_runtime_enabled_paths((Path)enabled);
      const int effective = enabled ? enabled | kCpp : Hardware() | kVariants;
      if (((int)context.get_runtime_enabled_paths() ^ effective) & 0x71)
        vd::Violation("enabled", "enabled paths are 0x%x, expected 0x%x",
                      (int)context.get_runtime_enabled_paths(), effective & 0x71);
      const int got = (int)ruy::get_ctx(&context)->SelectPath((Path)compiled);
      vd::Transition(3);
      if (got != Best(effective & compiled))
        vd::Violation("select", "selected 0x%x, expected 0x%x", got, Best(effective & compiled));
      if ((int)context.last_used_path() != got)
        vd::Violation("last-used", "last used path 0x%x after selecting 0x%x",
                      (int)context.last_used_path(), got);
      vd::Compared(3);
      vd::State(effective * 128 + compiled);
      if (got != 1) vd::NonTrivial();
    }
  }
}

// ---- calls -----------------------------------------------------------------------
struct Call {
  const char* name;
  const char* types;
  int m, k, n;
  int lcache;
  Compiled compiled;
  Setting s;
};
const Call kCalls[] = {
    {"f32", "f32f32f32", 5, 7, 9, 0, kDefaultPaths, {"", 0, 0, 1, 0, 1, 0, 0}},
    {"f32-cached", "f32f32f32", 6, 5, 9, 3, kDefaultPaths, {"", 0, 0, 0, 0, 0, 0, 0}},
    {"i8-perchannel", "i8i8i8", 11, 6, 3, 0, kEverything, {"", 0, 1, 1, 0, 0, 4, 0}},
    {"u8-raw", "u8u8i32", 4, 9, 10, 0, kEverything, {"", 0, 1, 0, 0, 0, 0, 0}},
    {"f32-cpp", "f32f32f32", 5, 3, 4, 0, kStandardCppOnly, {"", 0, 0, 0, 0, 0, 0, 0}},
    {"i8-large", "i8i8i8", 40, 33, 50, 0, kDefaultPaths, {"", 0, 1, 0, 0, 0, 3, 0}},
};
const int kNumCalls = sizeof kCalls / sizeof kCalls[0];

int CompiledSet(Compiled c) {
  const int arch = kAvxBit | kAvx2Bit | kAvx512Bit;
  return c == kEverything ? kCpp | kVariants | arch : c == kDefaultPaths ? kCpp | arch : kCpp;
}

struct Prepared {
  Problem p;
  std::vector<char> l, r;
  MatDesc ld, rd;
};
Prepared& Prep(int call, bool vec) {
  static std::map<int, Prepared> all;
  auto it = all.find(call * 2 + vec);
  if (it != all.end()) return it->second;
  const Call& c = kCalls[call];
  Prepared& q = all[call * 2 + vec];
  const PathName pn{vec ? Path::kAvx : Path::kStandardCpp, ""};
  q.p = MakeProblem(TypesByName(c.types), c.s, c.m, c.n, c.k, pn);
  LayoutOf(&q.ld, c.m, c.k, 1, 0);
  LayoutOf(&q.rd, c.k, c.n, 0, 0);
  const Types& t = kTypes[q.p.types];
  FillOperand(t.l, q.p.z.l, q.p.lv, c.k, false, &q.ld, &q.l);
  FillOperand(t.r, q.p.z.r, q.p.rv, c.k, true, &q.rd, &q.r);
  return q;
}

struct Outcome {
  int path, advisory;
  std::vector<char> dst;
};

// Runs a call; `enabled` is what must be in force. Checks result and path.
Outcome RunCall(int call, ruy::Context* ctx, int enabled) {
  const Call& c = kCalls[call];
  const int want = Best(enabled & CompiledSet(c.compiled));
  Prepared& q = Prep(call, want >= kAvxBit);
  const Types& t = kTypes[q.p.types];
  MulDesc m;
  m.types = q.p.types;
  m.l = q.ld;
  m.r = q.rd;
  m.l.cache = c.lcache;
  LayoutOf(&m.d, c.m, c.n, 0, 0);
  Outcome o;
  o.dst.assign(m.d.Span() * SizeOf(t.d), 0x3c);
  m.d.data = o.dst.data();
  m.d.zp = q.p.z.d;
  ApplySetting(q.p, &m);
  m.compiled = c.compiled;
  m.ctx = ctx;
  Mul(m);
  vd::Transition();
  o.path = (int)ctx->last_used_path();
  o.advisory = ctx->performance_advisory(ruy::PerformanceAdvisory::kReallocatedPerChannelBuffer);
  if (o.path != want)
    vd::Violation("path", "%s used path 0x%x, expected 0x%x", c.name, o.path, want);
  for (int i = 0; i < c.m; i++)
    for (int j = 0; j < c.n; j++) {
      const double g = Load(t.d, o.dst.data(), m.d.At(i, j)),
                   w = q.p.want[(size_t)i * q.p.N + j];
      if (std::fabs(g - w) > q.p.tol)
        vd::Violation("result", "%s entry (%d,%d) is %g, expected %g", c.name, i, j, g, w);
    }
  vd::Compared(c.m * c.n + 1);
  return o;
}

// ---- the environment variable, every value of the bit set ---------------------
void Environment(int form) {
  InitData();
  const int hw = Hardware();
  for (int value = 0; value < 256; value++) {
    if ((value & 0x70) & ~hw) continue;  // asks for what the machine cannot run
    char text[32];
    snprintf(text, sizeof text, form == 0 ? "%x" : form == 1 ? "0x%x" : "0X%02X", value);
    for (int call = 0; call < kNumCalls; call++) {
      if (!vd::Begin("environment %s call=%s", text, kCalls[call].name)) continue;
      setenv("RUY_PATHS", text, 1);
      ruy::Context ctx;
      // Non-architecture paths are always implicitly supported.
      const int enabled = value ? value | kCpp : hw | kVariants;
      Outcome a = RunCall(call, &ctx, enabled);
      if (((int)ctx.get_runtime_enabled_paths() ^ enabled) & 0x71)
        vd::Violation("environment", "enabled paths are 0x%x, expected 0x%x",
                      (int)ctx.get_runtime_enabled_paths(), enabled & 0x71);
      // An explicit set takes precedence, and dropping it returns to the default.
      ctx.set_runtime_enabled_paths(Path::kStandardCpp);
      RunCall(call, &ctx, kCpp);
      ctx.set_runtime_enabled_paths(Path::kNone);
      Outcome b = RunCall(call, &ctx, enabled);
      if (a.dst != b.dst || a.advisory != b.advisory)
        vd::Violation("environment-history", "%s differs after overriding and restoring",
                      kCalls[call].name);
      vd::Compared(2);
      vd::State(vd::mix(enabled, a.path));
      if (a.path != kCpp) vd::NonTrivial();
      unsetenv("RUY_PATHS");
    }
  }
}

// ---- histories on one context -----------------------------------------------------
struct Op {
  enum Kind { kPaths, kThreads, kForce, kTuning, kClear, kCall } kind;
  int value;
};

struct Model {
  int paths = 0;  // 0: default
  int threads = 1, force = 0, tuning = 0;
};

std::vector<Op> Ops() {
  std::vector<Op> v;
  const int hw = Hardware();
  for (int p : {0, kCpp, kAvxBit, kAvx2Bit, kAvx512Bit, 4})
    if (((p & 0x70) & ~hw) == 0) v.push_back({Op::kPaths, p});
  v.push_back({Op::kPaths, hw & (kAvxBit | kAvx512Bit | 1)});
  v.push_back({Op::kThreads, 1});
  v.push_back({Op::kThreads, 3});
  v.push_back({Op::kForce, 1});
  v.push_back({Op::kTuning, (int)ruy::Tuning::kX1});
  v.push_back({Op::kClear, 0});
  for (int c = 0; c < kNumCalls; c++) v.push_back({Op::kCall, c});
  return v;
}

std::string NameOp(const Op& o) {
  switch (o.kind) {
    case Op::kPaths: return vd::Str("paths:%x", o.value);
    case Op::kThreads: return vd::Str("threads:%d", o.value);
    case Op::kForce: return "force";
    case Op::kTuning: return "tuning";
    case Op::kClear: return "clear";
    default: return kCalls[o.value].name;
  }
}

// Outcome of a call on a fresh context with the default thread settings and the
// same enabled paths.
const Outcome& Alone(int call, int paths) {
  static std::map<std::pair<int, int>, Outcome> all;
  auto key = std::make_pair(call, paths);
  auto it = all.find(key);
  if (it != all.end()) return it->second;
  ruy::Context ctx;
  ctx.set_runtime_enabled_paths((Path)paths);
  return all[key] = RunCall(call, &ctx, paths ? paths | kCpp : Hardware() | kVariants);
}

void Histories(int first, bool threads) {
  InitData();
  std::vector<Op> ops;
  for (auto& o : Ops())
    if (threads || (o.kind != Op::kThreads && o.kind != Op::kForce)) ops.push_back(o);
  const int n = ops.size();
  const int depth = vd::Thorough() && !threads ? 6 : 5;
  std::vector<int> seq(depth, 0);
  seq[0] = first;
  if (first >= n) return;
  for (long count = 0;; count++) {
    bool useful = ops[seq[depth - 1]].kind == Op::kCall;  // the last step observes
    if (threads) {
      bool t = false;
      for (int i : seq) t |= ops[i].kind == Op::kThreads;
      useful &= t;
    }
    if (useful) {
      char text[300];
      int at = snprintf(text, sizeof text, "history%s", threads ? "-threads" : "");
      for (int i : seq) at += snprintf(text + at, sizeof text - at, " %s", NameOp(ops[i]).c_str());
      if (vd::Begin("%s", text)) {
        ruy::Context ctx;
        Model m;
        for (int step = 0; step < depth; step++) {
          const Op& o = ops[seq[step]];
          switch (o.kind) {
            case Op::kPaths:
              ctx.set_runtime_enabled_paths((Path)o.value);
              m.paths = o.value;
              break;
            case Op::kThreads:
              ctx.set_max_num_threads(o.value);
              m.threads = o.value;
              break;
            case Op::kForce:
              ctx.set_num_threads_strategy(ruy::NumThreadsStrategy::kForceMaxNumThreads);
              m.force = 1;
              break;
            case Op::kTuning:
              ctx.set_explicit_tuning((ruy::Tuning)o.value);
              m.tuning = o.value;
              break;
            case Op::kClear:
              ctx.ClearPrepackedCache();
              break;
            case Op::kCall: {
              const Outcome& alone = Alone(o.value, m.paths);
              Outcome got =
                  RunCall(o.value, &ctx, m.paths ? m.paths | kCpp : Hardware() | kVariants);
              if (got.dst != alone.dst)
                vd::Violation("history", "step %d (%s): result differs from a fresh context", step,
                              kCalls[o.value].name);
              if (got.advisory != alone.advisory)
                vd::Violation("advisory", "step %d (%s): advisory %d, on a fresh context %d", step,
                              kCalls[o.value].name, got.advisory, alone.advisory);
              break;
            }
          }
          if (o.kind != Op::kCall) vd::Transition();
          const int eff = m.paths ? m.paths | kCpp : Hardware();
          if (((int)ctx.get_runtime_enabled_paths() ^ eff) & 0x71)
            vd::Violation("enabled", "step %d: enabled paths 0x%x, expected 0x%x", step,
                          (int)ctx.get_runtime_enabled_paths(), eff & 0x71);
          if (ctx.max_num_threads() != m.threads ||
              (int)ctx.explicit_tuning() != m.tuning)
            vd::Violation("settings", "step %d: thread limit or tuning changed", step);
          vd::Compared(3);
          vd::State(vd::mix(vd::mix(m.paths * 64 + m.threads * 8 + m.force * 4 + m.tuning,
                                    (int)ctx.last_used_path()),
                            ctx.performance_advisory(
                                ruy::PerformanceAdvisory::kReallocatedPerChannelBuffer) +
                                2 * step));
        }
        vd::NonTrivial();
      }
      if ((count & 255) == 0 && vd::OutOfTime()) return;
    }
    int i = depth - 1;
    while (i > 0 && ++seq[i] == n) seq[i--] = 0;
    if (i == 0) return;
  }
}

}  // namespace

int main(int argc, char** argv) {
  unsetenv("RUY_PATHS");
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    jobs.emplace_back("selection", [] { Selection(); });
    for (int f = 0; f < 3; f++)
      jobs.emplace_back(vd::Str("environment-%d", f), [=] { Environment(f); }, 2);
    const int n = Ops().size();
    for (int i = 0; i < n; i++) {
      jobs.emplace_back(vd::Str("history-%d", i), [=] { Histories(i, false); }, 5);
      jobs.emplace_back(vd::Str("history-threads-%d", i), [=] { Histories(i, true); }, 9);
    }
    return jobs;
  });
}
