// C25: the result does not depend on how the library was built. The same
// multiplications are run in every build configuration, each compared with the
// definition.
#include "mulproblem.h"
#include "ruy/context_get_ctx.h"
#include "ruy/cpu_cache_params.h"
#include "ruy/cpuinfo.h"
#include "ruy/ctx.h"
#include "ruy/thread_pool.h"

#ifndef BUILD_NAME
#define BUILD_NAME "?"
#endif

namespace {

// Small caches make small multiplications be divided and traversed like large ones.
void SmallCaches(ruy::Context* ctx, int local, int last) {
  auto& c = const_cast<ruy::CpuCacheParams&>(
      ruy::get_ctx(ctx)->mutable_cpuinfo()->CacheParams());
  if (local) c.local_cache_size = local;
  if (last) c.last_level_cache_size = last;
}

// A build without vector code has no vector path to ask for; which path is taken
// when none is asked for is up to the build.
std::vector<PathName> Paths() {
  std::vector<PathName> v;
  for (auto& p : RunnablePaths())
#ifdef BUILD_PORTABLE
    if (!Vector(p))
#endif
      v.push_back(p);
  v.push_back({v.back().path, "auto"});
  return v;
}
void Prepare(ruy::Context* ctx, const PathName& path, int threads) {
  Setup(ctx, path, threads);
  if (!strcmp(path.name, "auto")) ctx->set_runtime_enabled_paths(ruy::Path::kNone);
}

struct Buffers {
  std::vector<char> l, r, d;
};
Buffers B;

void OneCase(const Problem& p, int m, int n, int orders, int cache, int threads, int caches,
             ruy::Context* ctx, const PathName& path) {
  const Types& t = kTypes[p.types];
  if (!vd::Begin("build=%s %s %s m=%d k=%d n=%d orders=%c%c%c setting=%s cache=%d threads=%d caches=%d",
                 BUILD_NAME, t.name, path.name, m, p.k, n, orders & 1 ? 'r' : 'c',
                 orders & 2 ? 'r' : 'c', orders & 4 ? 'r' : 'c', p.s.name, cache, threads, caches))
    return;
  MulDesc q;
  q.types = p.types;
  LayoutOf(&q.l, m, p.k, orders & 1, p.s.pad ? 3 : 0);
  LayoutOf(&q.r, p.k, n, (orders >> 1) & 1, p.s.pad ? 1 : 0);
  LayoutOf(&q.d, m, n, (orders >> 2) & 1, p.s.pad ? 2 : 0);
  FillOperand(t.l, p.z.l, p.lv, p.k, false, &q.l, &B.l);
  FillOperand(t.r, p.z.r, p.rv, p.k, true, &q.r, &B.r);
  q.l.cache = cache & 1 ? 3 : 0;
  q.r.cache = cache & 2 ? 3 : 0;
  const long span = (long)q.d.stride * (q.d.row_major ? m : n);
  q.d.zp = p.z.d;
  ApplySetting(p, &q);
  q.ctx = ctx;
  for (int rep = 0; rep < (cache ? 2 : 1); rep++) {
    B.d.assign(span * SizeOf(t.d) + 64, 0x31);
    q.d.data = B.d.data();
    Mul(q);
    vd::Transition();
    for (int i = 0; i < m; i++)
      for (int j = 0; j < n; j++) {
        const double w = p.want[(size_t)i * p.N + j], g = Load(t.d, B.d.data(), q.d.At(i, j));
        if (!(std::fabs(g - w) <= p.tol))
          vd::Violation("value", "entry (%d,%d) is %.9g, expected %.9g (tolerance %g)", i, j, g, w, p.tol);
      }
    const int inner = q.d.row_major ? n : m, outer = q.d.row_major ? m : n;
    for (int o = 0; o < outer; o++)
      for (long x = (long)o * q.d.stride + inner; x < (o + 1l) * q.d.stride; x++)
        for (int b = 0; b < SizeOf(t.d); b++)
          if (B.d[x * SizeOf(t.d) + b] != 0x31)
            vd::Violation("stray", "storage between the destination's lines was written");
    vd::Compared((unsigned long long)m * n);
  }
  if (cache) ctx->ClearPrepackedCache();
  vd::State(HashBytes(B.d.data(), span * SizeOf(t.d)));
  vd::NonTrivial();
}

const Setting kSettings[] = {
    {"plain", 0, 0, 0, 0, 0, 0, 0},
    {"rowch", 1, 1, 1, 0, 1, 2, 0},
    {"downpc", 1, 4, 1, 1, 0, 4, 1},
};

// Undivided: block residues on all three dimensions.
void Shapes(int types, const PathName& path) {
  InitData();
  ruy::Context ctx;
  Prepare(&ctx, path, 1);
  const bool vec = Vector(path);
  std::vector<int> sizes = vec ? std::vector<int>{1, 2, 3, 7, 8, 9, 15, 16, 17, 33}
                               : std::vector<int>{1, 2, 3, 5, 8, 9, 17};
  std::vector<int> depths = vec ? std::vector<int>{1, 2, 3, 4, 5, 9, 17, 33} : std::vector<int>{1, 3, 4, 9};
#ifdef BUILD_SMALL
  sizes = {1, 2, 9, 17}, depths = {1, 4, 9};
#else
  if (vd::Thorough() && vec) sizes = Range(1, 20, {24, 25, 31, 32, 33, 47, 48, 49}), depths = Range(1, 18, {31, 32, 33, 65});
#endif
  const std::vector<int> orders =
      vd::Thorough() ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7} : std::vector<int>{0, 3, 5, 6};
  for (int k : depths)
    for (auto& s : kSettings) {
      if (IsFloat(kTypes[types].a) && s.mult == 4) continue;
      Problem p = MakeProblem(types, s, sizes.back(), sizes.back(), k, path);
      for (int m : sizes)
        for (int n : sizes) {
          if (vd::OutOfTime()) return;
          for (int o : orders) OneCase(p, m, n, o, 0, 1, 0, &ctx, path);
        }
    }
}

// Divided into blocks in every traversal order, by several threads, with cached operands.
void Divided(int types, const PathName& path, int caches) {
  InitData();
  const std::vector<int> sizes = vd::Thorough() ? std::vector<int>{1, 8, 17, 33, 40, 64, 65, 100, 129}
                                                : std::vector<int>{1, 17, 65, 129};
  for (int k : {9, 70, 1}) {
#ifdef BUILD_SMALL
    if (k != 9) continue;
#endif
    if (k == 1 && !vd::Thorough()) continue;
    Setting s = kSettings[1];
    Problem p = MakeProblem(types, s, sizes.back(), sizes.back(), k, path);
    for (int threads : {1, 3, 2}) {
      if (threads == 2 && !vd::Thorough()) continue;
      ruy::Context ctx;
      Prepare(&ctx, path, threads);
      SmallCaches(&ctx, caches & 1 ? 512 : 1 << 20, caches & 2 ? 2048 : 1 << 22);
      ctx.mutable_thread_pool()->set_spin_milliseconds(0);
      for (int m : sizes)
        for (int n : sizes) {
          if (vd::OutOfTime()) return;
          for (int cache = 0; cache < 4; cache++)
            for (int o : {0, 6}) OneCase(p, m, n, o, cache, threads, caches, &ctx, path);
        }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    for (const char* t : {"f32f32f32", "u8u8u8", "i8i8i32", "i8u8i8", "i16i8i16", "f32f64f64"}) {
      const int ti = TypesByName(t);
      for (auto& p : Paths()) {
        // (The destination zero point of 32-bit destinations is path dependent: see C05.)
        if (!strcmp(p.name, "auto") && kTypes[ti].d == I32) continue;
        const PathName pn = p;
        const bool variant = !Vector(p) && p.path != ruy::Path::kStandardCpp;
        if (!vd::Thorough() && variant && strcmp(p.name, "auto")) continue;
        jobs.emplace_back(vd::Str("%s-shapes-%s-%s", BUILD_NAME, t, p.name), [=] { Shapes(ti, pn); }, 2);
        for (int c = 0; c < 4; c++)
          jobs.emplace_back(vd::Str("%s-divided-%s-%s-%d", BUILD_NAME, t, p.name, c),
                            [=] { Divided(ti, pn, c); }, 3);
      }
    }
    return jobs;
  });
}
