// C05: multiplication equals its definition, for every small shape, layout,
// type, parameter combination and code path.
#include <set>

#include "mulproblem.h"

namespace {

// The evaluation offered for comparison, which knows no code paths.
const char kReferenceName[] = "reference";

struct Buffers {
  std::vector<char> l, r, d;
};
Buffers B;

template <typename T>
void Prefill(const Problem& p, const MatDesc& d, T* out) {
  for (int i = 0; i < d.rows; i++)
    for (int j = 0; j < d.cols; j++) {
      const double e = p.want[(size_t)i * p.N + j];
      out[d.At(i, j)] =
          std::is_floating_point<T>::value
              ? std::numeric_limits<T>::quiet_NaN()
              : (T)(e - 5 >= (double)std::numeric_limits<T>::lowest() ? e - 5 : e + 5);
    }
}

template <typename T>
void Compare(const Problem& p, const MatDesc& d, const T* got, int poison_row,
             int poison_col) {
  const double tol = p.tol;
  for (int i = 0; i < d.rows; i++) {
    if (i == poison_row) continue;
    for (int j = 0; j < d.cols; j++) {
      if (j == poison_col) continue;
      const double e = p.want[(size_t)i * p.N + j];
      const double g = got[d.At(i, j)];
      if (!(std::fabs(g - e) <= tol))
        vd::Violation("value", "entry (%d,%d) is %.9g, expected %.9g (tolerance %g)", i,
                      j, g, e, tol);
    }
  }
}

void OneCase(const Problem& p, int m, int n, int orders, ruy::Context* ctx,
             const PathName& path, int poison_row = -1, int poison_col = -1,
             int threads = 1) {
  const Types& t = kTypes[p.types];
  if (!vd::Begin("%s %s m=%d k=%d n=%d orders=%c%c%c setting=%s pad=%d zp=%d,%d,%d "
                 "bias=%d col=%d clamp=%d mult=%d pattern=%d poison=%d,%d threads=%d",
                 t.name, path.name, m, p.k, n, orders & 1 ? 'r' : 'c',
                 orders & 2 ? 'r' : 'c', orders & 4 ? 'r' : 'c', p.s.name, p.s.pad,
                 p.z.l, p.z.r, p.z.d, p.s.bias, p.s.col, p.s.clamp, p.s.mult,
                 p.s.pattern, poison_row, poison_col, threads))
    return;
  MulDesc q;
  q.types = p.types;
  LayoutOf(&q.l, m, p.k, orders & 1, p.s.pad ? 3 : 0);
  LayoutOf(&q.r, p.k, n, (orders >> 1) & 1, p.s.pad ? 1 : 0);
  LayoutOf(&q.d, m, n, (orders >> 2) & 1, p.s.pad ? 2 : 0);
  FillOperand(t.l, p.z.l, p.lv, p.k, false, &q.l, &B.l);
  FillOperand(t.r, p.z.r, p.rv, p.k, true, &q.r, &B.r);
  if (poison_row >= 0)
    for (int d = 0; d < p.k; d++)
      Store(t.l, B.l.data(), q.l.At(poison_row, d), d & 1 ? HUGE_VAL : std::nan(""));
  if (poison_col >= 0)
    for (int d = 0; d < p.k; d++)
      Store(t.r, B.r.data(), q.r.At(d, poison_col), d & 1 ? std::nan("") : -HUGE_VAL);
  const long span = (long)q.d.stride * (q.d.row_major ? m : n);
  B.d.assign(span * SizeOf(t.d) + 64, 0x31);
  // Every entry starts as something that is not the expected value.
  switch (t.d) {
    case F32: Prefill(p, q.d, (float*)B.d.data()); break;
    case F64: Prefill(p, q.d, (double*)B.d.data()); break;
    case I8: Prefill(p, q.d, (int8_t*)B.d.data()); break;
    case U8: Prefill(p, q.d, (uint8_t*)B.d.data()); break;
    case I16: Prefill(p, q.d, (int16_t*)B.d.data()); break;
    case I32: Prefill(p, q.d, (int32_t*)B.d.data()); break;
  }
  q.d.data = B.d.data();
  q.d.zp = p.z.d;
  ApplySetting(p, &q);
  q.ctx = ctx;
  if (path.name == kReferenceName) q.compiled = kReference;
  Mul(q);
  vd::Transition();
  if (t.d == I32 && p.z.d) {
    // Known: the vector kernels leave the zero point out altogether.
    const int32_t* g = (const int32_t*)B.d.data();
    bool ignored = true;
    for (int i = 0; i < m; i++)
      for (int j = 0; j < n; j++)
        ignored &= g[q.d.At(i, j)] == p.want[(size_t)i * p.N + j] - p.z.d;
    if (ignored && Vector(path)) {
      vd::Violation("i32-destination-zero-point-ignored-by-vector-kernels",
                    "destination of 32-bit integers with zero point %d: the %s path "
                    "does not add it, the portable paths do",
                    p.z.d, path.name);
      return;
    }
  }
  switch (t.d) {
    case F32: Compare(p, q.d, (float*)B.d.data(), poison_row, poison_col); break;
    case F64: Compare(p, q.d, (double*)B.d.data(), poison_row, poison_col); break;
    case I8: Compare(p, q.d, (int8_t*)B.d.data(), poison_row, poison_col); break;
    case U8: Compare(p, q.d, (uint8_t*)B.d.data(), poison_row, poison_col); break;
    case I16: Compare(p, q.d, (int16_t*)B.d.data(), poison_row, poison_col); break;
    case I32: Compare(p, q.d, (int32_t*)B.d.data(), poison_row, poison_col); break;
  }
  vd::Compared((unsigned long long)m * n);
  vd::State(HashBytes(B.d.data(), span * SizeOf(t.d)));
  vd::NonTrivial();
}

const Setting kMain[] = {
    {"plain", 0, 0, 0, 0, 0, 0, 0},   {"rowch", 1, 1, 1, 0, 1, 2, 0},
    {"colch", 0, 2, 1, 1, 0, 2, 0},   {"wide", 1, 3, 1, 1, 1, 0, 1},
    {"down", 0, 1, 1, 0, 0, 3, 1},    {"downpc", 1, 4, 0, 1, 0, 4, 1},
    {"extreme", 0, 2, 0, 0, 0, 3, 2},
};

std::vector<int> Sizes(bool vec) {
  if (vd::Thorough())
    return vec ? Range(1, 50, {63, 64, 65}) : Range(1, 20, {31, 32, 33, 34, 49});
  return vec ? Range(1, 34, {47, 48, 49}) : std::vector<int>{1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33};
}
std::vector<int> Depths(bool vec) {
  if (vd::Thorough())
    return vec ? Range(1, 36, {63, 64, 65, 127, 128, 129}) : Range(1, 10, {16, 17, 33});
  return vec ? Range(1, 17, {31, 32, 33, 64, 65}) : Range(1, 5, {8, 9, 17});
}

// All shapes, all storage orders, representative settings.
void Shapes(int types, const PathName& path) {
  InitData();
  ruy::Context ctx;
  Setup(&ctx, path);
  auto sizes = Sizes(Vector(path));
  const int maxs = sizes.back();
  for (int k : Depths(Vector(path)))
    for (auto& s : kMain) {
      if (IsFloat(kTypes[types].a) && (s.mult == 4 || s.pattern == 2)) continue;
      Problem p = MakeProblem(types, s, maxs, maxs, k, path);
      for (int m : sizes)
        for (int n : sizes) {
          if (vd::OutOfTime()) return;
          for (int o = 0; o < 8; o++) OneCase(p, m, n, o, &ctx, path);
        }
    }
}

// Few shapes, all settings.
void Settings(int types, const PathName& path) {
  InitData();
  ruy::Context ctx;
  Setup(&ctx, path);
  const Types& t = kTypes[types];
  const bool fl = IsFloat(t.a);
  const std::vector<int> sz = vd::Thorough()
                                  ? std::vector<int>{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33}
                                  : std::vector<int>{1, 3, 8, 17};
  for (int k : vd::Thorough() ? std::vector<int>{1, 3, 4, 5, 8, 17} : std::vector<int>{1, 5, 8})
    for (int pattern = 0; pattern < 3; pattern++)
      for (int zp = 0; zp < 6; zp++)
        for (int bias = 0; bias < 2; bias++)
          for (int col = 0; col < 2; col++)
            for (int clamp = 0; clamp < 2; clamp++)
              for (int mult = 0; mult < 5; mult++) {
                if (fl && (mult || zp || pattern == 2)) continue;
                if (t.d == I32 && (mult || clamp)) continue;
                if ((t.l == I16 || t.r == I16) && zp) continue;
                for (int pad = 0; pad < 2; pad++) {
                  Setting s{"all", pad, zp, bias, col, clamp, mult, pattern};
                  Problem p = MakeProblem(types, s, sz.back(), sz.back(), k, path);
                  if (vd::OutOfTime()) return;
                  for (int m : sz)
                    for (int n : sz)
                      for (int o = 0; o < 8; o++) OneCase(p, m, n, o, &ctx, path);
                }
              }
}

// Destinations of raw accumulators with a zero point.
void RawZeroPoint(int types, const PathName& path) {
  InitData();
  ruy::Context ctx;
  Setup(&ctx, path);
  for (int k : {1, 5, 8})
    for (int zp : {10, 11, 14})
      for (int bias = 0; bias < 2; bias++) {
        Setting s{"raw", 1, zp, bias, 0, 0, 0, 1};
        Problem p = MakeProblem(types, s, 20, 20, k, path);
        for (int m : {1, 3, 16, 17, 20})
          for (int n : {1, 5, 16, 20})
            for (int o = 0; o < 8; o++) OneCase(p, m, n, o, &ctx, path);
      }
}

// A non-finite row of one operand must only affect its own row or column.
void Poison(int types, const PathName& path) {
  InitData();
  ruy::Context ctx;
  Setup(&ctx, path);
  const std::vector<int> sz{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17};
  for (int k : {1, 2, 5, 8})
    for (int si : {0, 1}) {
      Problem p = MakeProblem(types, kMain[si], 17, 17, k, path);
      for (int m : sz)
        for (int n : sz) {
          if (vd::OutOfTime()) return;
          for (int o = 0; o < 8; o++) {
            for (int r = 0; r < m; r += (m > 5 ? 3 : 1))
              OneCase(p, m, n, o, &ctx, path, r, -1);
            for (int c = 0; c < n; c += (n > 5 ? 3 : 1))
              OneCase(p, m, n, o, &ctx, path, -1, c);
          }
        }
    }
}

// Shapes large enough to be split into blocks, in cache-aware order or over
// several threads.
void Split(int types, const PathName& path) {
  InitData();
  std::vector<int> sz{1, 17, 40, 64, 130}, depths{3, 300, 1100};
  if (vd::Thorough()) {
    sz = {1, 17, 40, 63, 64, 65, 96, 128, 130};
    depths = {1, 33, 300, 1100, 5000};
  }
  if (!Vector(path)) {
    sz = {1, 17, 40, 65};
    depths = {3, 40};
    if (vd::Thorough()) depths = {1, 33, 300, 600};
  }
  for (int k : depths) {
    Setting s{"split", 1, 1, 1, 0, 0, 2, 0};
    if (!IsFloat(kTypes[types].a)) s.mult = 3, s.pattern = 1, s.zp = 1;
    if (k > 1000) s.pattern = 0;
    for (int col = 0; col < 2; col++) {
      s.col = col;
      Problem p = MakeProblem(types, s, sz.back(), sz.back(), k, path);
      for (int th : {1, 2, 4}) {
        ruy::Context ctx;
        Setup(&ctx, path, th);
        for (int m : sz)
          for (int n : sz) {
            if (vd::OutOfTime()) return;
            for (int o = 0; o < 8; o++) {
              if (!vd::Thorough() && k > 1000 && o != 0 && o != 6 && o != 3) continue;
              OneCase(p, m, n, o, &ctx, path, -1, -1, th);
            }
          }
      }
    }
  }
}

// Depths at which sums of extreme entries outgrow anything narrower than 32 bits.
void Deep(int types, const PathName& path) {
  InitData();
  const Types& t = kTypes[types];
  ruy::Context ctx;
  Setup(&ctx, path);
  std::vector<int> depths{255, 256, 257, 1023, 1024, 1025, 2047, 2048, 2049, 4097, 8200, 11000}, sz{1, 9, 17};
  std::vector<int> orders{0, 1, 2, 3, 4, 5, 6, 7};
  if (!Vector(path)) depths = {257, 1025, 11000}, sz = {1, 5}, orders = {0, 3, 5};
  auto value = [](Scalar s, int c) {
    return c == 0 ? Lowest(s) : c == 1 ? Highest(s) : c == 2 ? Lowest(s) + 28 : Highest(s) - 27;
  };
  auto zero = [](Scalar s, int c) { return c == 0 ? Lowest(s) + 1 : c == 1 ? (Lowest(s) + Highest(s) + 1) / 2 : Highest(s); };
  for (int k : depths)
    for (int pattern = 0; pattern < 2; pattern++)
      for (int zl = 0; zl < 3; zl++)
        for (int zr = 0; zr < 3; zr++) {
          if (vd::OutOfTime()) return;
          // Every row and column is one value, or one value followed by its opposite.
          auto at = [&](Scalar s, int line, int d) { return value(s, (line % 4) ^ (pattern && d >= k / 2)); };
          Problem p;
          p.types = types;
          p.k = k;
          p.s = Setting{"deep", 1, 0, 0, 0, 0, 0, pattern};
          p.z.l = zero(t.l, zl), p.z.r = zero(t.r, zr), p.z.d = 0;
          p.M = p.N = sz.back();
          p.tol = 0;
          long acc[4][4] = {};
          for (int i = 0; i < 4; i++)
            for (int j = 0; j < 4; j++)
              for (int d = 0; d < k; d++) acc[i][j] += (at(t.l, i, d) - p.z.l) * (at(t.r, j, d) - p.z.r);
          for (int i = 0; i < p.M; i++)
            for (int d = 0; d < k; d++) p.lv.push_back(at(t.l, i, d));
          for (int j = 0; j < p.N; j++)
            for (int d = 0; d < k; d++) p.rv.push_back(at(t.r, j, d));
          bool fits = true;
          for (int i = 0; i < p.M; i++)
            for (int j = 0; j < p.N; j++) {
              p.acc.push_back(acc[i % 4][j % 4]);
              p.want.push_back(acc[i % 4][j % 4]);
              fits &= std::abs(acc[i % 4][j % 4]) < 1l << 31;
            }
          if (!fits) vd::Error("products of depth %d do not fit", k);
          for (int m : sz)
            for (int n : sz)
              for (int o : orders) OneCase(p, m, n, o, &ctx, path);
        }
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    for (int t = 0; t < kNumTypes; t++)
      for (auto& p : RunnablePaths()) {
        const Types& ty = kTypes[t];
        const bool same8 = (ty.l == I8 || ty.l == U8) && (ty.r == I8 || ty.r == U8);
        const bool fast = same8 || (ty.l == F32 && ty.r == F32);
        // Other combinations share the portable kernel on every path: the
        // vector paths are still run, on fewer shapes.
        auto nm = [&](const char* k) {
          return vd::Str("%s-%s-%s", k, ty.name, p.name);
        };
        const bool vec = (int)p.path >= (int)ruy::Path::kAvx;
        if (fast || !vec) jobs.emplace_back(nm("shapes"), [=] { Shapes(t, p); }, 10);
        jobs.emplace_back(nm("settings"), [=] { Settings(t, p); }, 8);
        if (ty.d == I32)
          jobs.emplace_back(nm("rawzp"), [=] { RawZeroPoint(t, p); }, 1);
        if (IsFloat(ty.a)) jobs.emplace_back(nm("poison"), [=] { Poison(t, p); }, 3);
        if (same8 && ty.d == I32) jobs.emplace_back(nm("deep"), [=] { Deep(t, p); }, 6);
        jobs.emplace_back(nm("split"), [=] { Split(t, p); }, 12);
        if (p.path != ruy::Path::kStandardCpp) continue;
        const PathName ref{p.path, kReferenceName};
        jobs.emplace_back(vd::Str("reference-shapes-%s", ty.name), [=] { Shapes(t, ref); }, 5);
        if (same8 && ty.d == I32)
          jobs.emplace_back(vd::Str("reference-deep-%s", ty.name), [=] { Deep(t, ref); }, 3);
        jobs.emplace_back(vd::Str("reference-settings-%s", ty.name), [=] { Settings(t, ref); }, 4);
      }
    return jobs;
  });
}
