// C18: promised capacity of per-channel vectors, and the reallocation advisory.
#include <sys/mman.h>

#include "alloctrack.h"
#include "mulproblem.h"
#include "ruy/performance_advisory.h"

namespace {

// Memory that ends at an unmapped page.
struct Tail {
  char* end = nullptr;
  void Init() {
    char* a = (char*)mmap(nullptr, 3 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(a + 4096, 4096, PROT_READ | PROT_WRITE);
    end = a + 8192;
  }
  // The first n entries of src followed by zeros up to the promised capacity.
  const void* Put(const void* src, int n, int capacity, int size) {
    char* p = end - (size_t)capacity * size;
    memset(end - 4096, 0x55, p - (end - 4096));
    memcpy(p, src, (size_t)n * size);
    memset(p + (size_t)n * size, 0, (size_t)(capacity - n) * size);
    return p;
  }
};
Tail tb, tf, te;
std::vector<char> bl, br, bd;

enum { kBias = 1, kPerChannel = 2 };

struct Case {
  const char* types;
  PathName path;
  int channels, other, rounding;
  bool col, drm;
  int presence;
};

std::string Describe(const Case& c) {
  return vd::Str("%s %s channels=%d other=%d capacity=%d col=%d drm=%d vectors=%s%s", c.types,
                 c.path.name, c.channels, c.other, c.rounding, c.col, c.drm,
                 c.presence & kBias ? "b" : "-", c.presence & kPerChannel ? "m" : "-");
}

struct Outcome {
  bool advisory;
  std::vector<char> dst;
};

bool Quantized(int types) { return !IsFloat(kTypes[types].a) && kTypes[types].d != I32; }

const Problem& ProblemOf(const Case& c) {
  static std::map<std::string, Problem> all;
  const std::string key =
      vd::Str("%s %d %d %d", c.types, c.col, c.presence, Vector(c.path) ? 1 : 0);
  auto it = all.find(key);
  if (it != all.end()) return it->second;
  const int types = TypesByName(c.types);
  Setting s{"", 0, kTypes[types].d == I32 ? 0 : 1, (c.presence & kBias) ? 1 : 0, c.col, 0,
            (c.presence & kPerChannel) ? 4 : 3, 0};
  all[key] = MakeProblem(types, s, 80, 80, 3, c.path);
  return all[key];
}

Outcome Run(const Case& c, ruy::Context* ctx) {
  const Problem& p = ProblemOf(c);
  const Types& t = kTypes[p.types];
  const int m = c.col ? c.other : c.channels, n = c.col ? c.channels : c.other;
  MulDesc q;
  q.types = p.types;
  LayoutOf(&q.l, m, p.k, 1, 0);
  LayoutOf(&q.r, p.k, n, 0, 0);
  LayoutOf(&q.d, m, n, c.drm, 0);
  FillOperand(t.l, p.z.l, p.lv, p.k, false, &q.l, &bl);
  FillOperand(t.r, p.z.r, p.rv, p.k, true, &q.r, &br);
  Outcome o;
  o.dst.assign(q.d.Span() * SizeOf(t.d), 0x3c);
  q.d.data = o.dst.data();
  q.d.zp = p.z.d;
  ApplySetting(p, &q);
  const int cap = (c.channels + c.rounding - 1) / c.rounding * c.rounding;
  q.capacity_rounding = c.rounding;
  if (q.bias) q.bias = tb.Put(q.bias, c.channels, cap, SizeOf(t.a));
  if (q.fixedpoint_pc) {
    q.fixedpoint_pc = (const int32_t*)tf.Put(q.fixedpoint_pc, c.channels, cap, 4);
    q.exponent_pc = (const int*)te.Put(q.exponent_pc, c.channels, cap, 4);
  }
  q.ctx = ctx;
  alloctrack::S().counting = true;
  Mul(q);
  alloctrack::S().counting = false;
  vd::Transition();
  o.advisory = ctx->performance_advisory(ruy::PerformanceAdvisory::kReallocatedPerChannelBuffer);
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) {
      const double g = Load(t.d, o.dst.data(), q.d.At(i, j)), w = p.want[(size_t)i * p.N + j];
      if (std::fabs(g - w) > p.tol)
        vd::Violation("result", "entry (%d,%d) is %g, expected %g", i, j, g, w);
    }
  vd::Compared(m * n);
  return o;
}

void InitAll() {
  static bool done = false;
  if (done) return;
  done = true;
  InitData();
  tb.Init();
  tf.Init();
  te.Init();
  alloctrack::S().guard = false;
}

// How many scratch blocks the multiplication takes on a fresh context.
long Blocks(const Case& c, Outcome* o) {
  ruy::Context ctx;
  Setup(&ctx, c.path);
  const long before = alloctrack::S().aligned_calls;
  *o = Run(c, &ctx);
  return alloctrack::S().aligned_calls - before;
}

void Single(const char* types, const PathName& path) {
  InitAll();
  const int ti = TypesByName(types);
  for (int col = 0; col < 2; col++)
    for (int drm = 0; drm < 2; drm++)
      for (int other : {1, 2, 5, 17})
        for (int channels = 1; channels <= (vd::Thorough() ? 80 : 48); channels++) {
          Outcome plain_o;
          long plain_blocks = -1;
          for (int presence = 0; presence < (Quantized(ti) ? 4 : 2); presence++) {
            bool quiet = false;
            std::vector<char> first;
            for (int rounding : {1, 2, 4, 8, 16, 32, 64}) {
              Case c{types, path, channels, other, rounding, col != 0, drm != 0, presence};
              if (!vd::Begin("%s", Describe(c).c_str())) continue;
              if (plain_blocks < 0) {
                Case none = c;
                none.presence = 0;
                plain_blocks = Blocks(none, &plain_o);
              }
              Outcome o;
              const long blocks = Blocks(c, &o);
              if (o.advisory && blocks <= plain_blocks)
                vd::Violation("advisory-without-copy",
                              "the advisory is raised although no vector was copied");
              if (!o.advisory && blocks > plain_blocks)
                vd::Violation("copy-without-advisory",
                              "a vector was copied although the advisory is not raised");
              if (o.advisory && (quiet || rounding >= 16))
                vd::Violation("advisory-monotone",
                              "the advisory is raised although a smaller capacity sufficed");
              if (!o.advisory) quiet = true;
              if (first.empty()) first = o.dst;
              if (first != o.dst)
                vd::Violation("capacity", "the result differs from that with capacity rounding 1");
              if (o.advisory) vd::NonTrivial();
              vd::Count(o.advisory ? "advisory_raised" : "advisory_absent");
              vd::State(vd::mix(HashBytes(o.dst.data(), o.dst.size()),
                                channels * 1024 + rounding * 8 + presence * 2 + o.advisory));
            }
          }
          if (vd::OutOfTime()) return;
        }
}

// Sequences on one context: the advisory describes the latest call only.
void Sequences(const PathName& a, const PathName& b) {
  InitAll();
  std::vector<Case> ops;
  for (auto& p : {a, b})
    for (const char* t : {"f32f32f32", "i8i8i8", "i8i8i32"})
      for (int presence : {0, 1, 3})
        for (int rounding : {1, 16})
          for (int channels : {3, 16}) {
            if (presence == 3 && !Quantized(TypesByName(t))) continue;
            if (rounding == 16 && (channels == 16 || presence == 0)) continue;
            ops.push_back({t, p, channels, 2, rounding, channels == 3 && presence == 1, false,
                           presence});
          }
  std::vector<Outcome> alone;
  for (auto& c : ops) {
    ruy::Context ctx;
    Setup(&ctx, c.path);
    alone.push_back(Run(c, &ctx));
  }
  const int n = ops.size();
  const int depth = vd::Thorough() ? 4 : 3;
  long total = 1;
  for (int i = 0; i < depth; i++) total *= n;
  for (long x = 0; x < total; x++) {
    int seq[4];
    long y = x;
    for (int i = 0; i < depth; i++) seq[i] = y % n, y /= n;
    if (!vd::Begin("sequence %s %s %d %d %d %d", a.name, b.name, seq[0], seq[1], seq[2],
                   depth > 3 ? seq[3] : -1))
      continue;
    if ((x & 1023) == 0 && vd::OutOfTime()) return;
    ruy::Context ctx;
    for (int i = 0; i < depth; i++) {
      const Case& c = ops[seq[i]];
      Setup(&ctx, c.path);
      Outcome o = Run(c, &ctx);
      if (o.advisory != alone[seq[i]].advisory)
        vd::Violation("advisory-history", "step %d (%s): advisory is %d, alone it is %d", i,
                      Describe(c).c_str(), o.advisory, alone[seq[i]].advisory);
      if (o.dst != alone[seq[i]].dst)
        vd::Violation("history", "step %d (%s): the result differs from the one on a fresh context",
                      i, Describe(c).c_str());
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    auto paths = RunnablePaths();
    for (const char* t : {"f32f32f32", "i8i8i8", "i8i8i32", "u8u8u8", "i8i8i16", "u8u8i8",
                          "f64f32f32", "i8i16i16"})
      for (auto& p : paths)
        jobs.emplace_back(vd::Str("single-%s-%s", t, p.name), [=] { Single(t, p); }, 3);
    for (auto& p : paths)
      jobs.emplace_back(vd::Str("sequences-%s", p.name),
                        [=] { Sequences(p, paths[paths.size() - 1]); }, 10);
    return jobs;
  });
}
