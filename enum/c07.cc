// C07: requantization of accumulators to narrow destinations.
//
// The accumulator of every destination row (or column) is set through the bias
// while the operands are equal to their zero points.
#include <algorithm>

#include "mulref.h"

namespace {
using namespace mulref;

struct Triple {
  int32_t x, fp;
  int ex;
};

bool InDomain(long x, long fp, int ex) {
  // The accumulator shifted left must fit 32 bits; so must the offset result.
  const long shifted = ex > 0 ? x * (1L << ex) : x;
  if (shifted < -2147483648L || shifted > 2147483647L) return false;
  const long r = Requantize(x, fp, ex);
  return r > -2147483648L + 40000 && r < 2147483647L - 40000;
}

std::vector<int32_t> Multipliers() {
  std::vector<int32_t> v{0, 1, 2, 3, 1 << 15, (1 << 29) + 7, 1 << 30, (1 << 30) + 1,
                         (1 << 30) + 12345, 0x55555555, 0x6aaaaaaa, 0x7fffffff,
                         0x7ffffffe, (1 << 30) + (1 << 29), 0x7f000000, 1518500250};
  if (vd::Thorough())
    for (int b = 3; b < 30; b++) {
      v.push_back((1 << 30) | (1 << b));
      v.push_back(0x7fffffff ^ (1 << b));
    }
  return v;
}

// Accumulators worth trying for one multiplier, in increasing order.
std::vector<int32_t> Accumulators(long fp, int ex, Scalar d) {
  std::vector<long> v;
  const int dense = vd::Thorough() ? 600 : 80;
  for (long i = -dense; i <= dense; i++) v.push_back(i);
  for (int b = 0; b <= 31; b++)
    for (long dd = -2; dd <= 2; dd++) {
      v.push_back((1L << b) + dd);
      v.push_back(-(1L << b) + dd);
      v.push_back((3L << b) / 2 + dd);
    }
  // Around every (sampled for 16-bit) rounding boundary of the results that the
  // destination can tell apart.
  if (fp > 0) {
    const double scale = (double)fp * std::pow(2.0, ex - 31);
    auto around = [&](double r) {
      const double x = (r + 0.5) / scale;
      if (std::fabs(x) > 3e9) return;
      const long c = (long)std::floor(x);
      for (long dd = -2; dd <= 3; dd++) v.push_back(c + dd);
    };
    const int lim = vd::Thorough() ? 540 : 270;
    for (int r = -lim; r <= lim; r += (vd::Thorough() || std::abs(r) < 20) ? 1 : 5)
      around(r);
    if (d == I16)
      for (long r = -65540; r <= 65540; r += vd::Thorough() ? 97 : 997) around(r);
    for (double r : {-32769., -32768., -32767., 32766., 32767., 32768.}) around(r);
  }
  std::vector<int32_t> out;
  for (long x : v)
    if (x >= -2147483648L && x <= 2147483647L && InDomain(x, fp, ex))
      out.push_back((int32_t)x);
  std::sort(out.begin(), out.end());
  out.erase(std::unique(out.begin(), out.end()), out.end());
  return out;
}

struct Mode {
  bool col;        // channels are columns
  bool perchannel;
  int other;       // size of the non-channel dimension
  bool row_major;  // destination order
};
const Mode kModes[] = {
    {false, false, 1, false}, {false, true, 1, false}, {true, false, 1, false},
    {true, true, 1, false},   {false, true, 3, true},  {true, true, 5, true},
    {false, false, 17, false}, {true, true, 2, false},
};

struct Clamp {
  int zp_mode;  // 0 zero, 1 lowest, 2 highest, 3 middle + 3
  int clamp;    // 0 full, 1 narrow, 2 single value
};
const Clamp kClamps[] = {{0, 0}, {1, 0}, {2, 0}, {3, 1}, {0, 2}, {2, 1}};

const int kChunk = 512;
std::vector<char> L, R, D;

void Batch(int types, const PathName& path, ruy::Context* ctx, const std::vector<int32_t>& xs,
           int32_t fp, int ex, size_t from, const Clamp& c, const Mode& mode,
           std::vector<long>* got_out, bool named = true) {
  const Types& t = kTypes[types];
  const size_t n = std::min((size_t)kChunk, xs.size() - from);
  const long lo = Lowest(t.d), hi = Highest(t.d);
  const bool sym = t.l == I16 || t.r == I16;
  long zp = c.zp_mode == 0 ? 0 : c.zp_mode == 1 ? lo : c.zp_mode == 2 ? hi : (lo + hi + 1) / 2 + 3;
  if (sym) zp = 0;
  long cmin = lo, cmax = hi;
  if (c.clamp == 1) cmin = lo + 13, cmax = hi - 22;
  if (c.clamp == 2) cmin = cmax = (lo + hi) / 2 + 1;
  got_out->clear();
  if (named && !vd::Begin("%s %s multiplier=%d*2^%d x=%d..%d zp=%ld clamp=%ld,%ld col=%d "
                 "perchannel=%d other=%d rm=%d",
                 t.name, path.name, fp, ex - 31, xs[from], xs[from + n - 1], zp, cmin, cmax,
                 mode.col, mode.perchannel, mode.other, mode.row_major))
    return;
  MulDesc q;
  q.types = types;
  const int k = 2;
  const int m = mode.col ? mode.other : (int)n, nn = mode.col ? (int)n : mode.other;
  L.assign((size_t)m * k * 2, 0);
  R.assign((size_t)nn * k * 2, 0);
  const int zl = sym ? 0 : 3, zr = sym ? 0 : 5;
  for (int i = 0; i < m * k; i++) Store(t.l, L.data(), i, zl);
  for (int i = 0; i < nn * k; i++) Store(t.r, R.data(), i, zr);
  D.assign((size_t)m * nn * 2, 0x11);
  q.l.rows = m;
  q.l.cols = k;
  q.l.data = L.data();
  q.l.zp = zl;
  q.r.rows = k;
  q.r.cols = nn;
  q.r.data = R.data();
  q.r.zp = zr;
  q.d.rows = m;
  q.d.cols = nn;
  q.d.row_major = mode.row_major;
  q.d.data = D.data();
  q.d.zp = (int)zp;
  q.channel_is_col = mode.col;
  q.bias = &xs[from];
  static std::vector<int32_t> f;
  static std::vector<int> e;
  if (mode.perchannel) {
    f.assign(n, fp);
    e.assign(n, ex);
    q.fixedpoint_pc = f.data();
    q.exponent_pc = e.data();
  } else {
    q.uniform_multiplier = true;
    q.fixedpoint = fp;
    q.exponent = ex;
  }
  if (c.clamp) {
    q.clamp = true;
    q.clamp_min = cmin;
    q.clamp_max = cmax;
  }
  q.ctx = ctx;
  Mul(q);
  vd::Transition();
  const bool vec = (int)path.path >= (int)ruy::Path::kAvx &&
                   SizeOf(t.l) == 1 && SizeOf(t.r) == 1;
  long prev = cmin;
  for (size_t i = 0; i < n; i++) {
    const long x = xs[from + i];
    const long exact = Requantize(x, fp, ex);
    const long want = std::min(std::max(exact + zp, cmin), cmax);
    long first = 0;
    for (int o = 0; o < mode.other; o++) {
      const long g = (long)Load(t.d, D.data(), mode.col ? q.d.At(o, (int)i) : q.d.At((int)i, o));
      if (g < cmin || g > cmax)
        vd::Violation("clamp", "accumulator %ld gives %ld, outside the bounds", x, g);
      if (std::labs(g - want) > (vec ? 1 : 0))
        vd::Violation("value", "accumulator %ld gives %ld, expected %ld (%s path)", x, g, want,
                      path.name);
      if (g != want) vd::Count(vd::Str("one_off_%s", path.name));
      if (o == 0) first = g;
      if (g != first)
        vd::Violation("uniform", "accumulator %ld gives %ld at position %d but %ld at 0", x, g,
                      o, first);
    }
    if (first < prev)
      vd::Violation("monotone", "accumulator %ld gives %ld, a smaller one gave %ld", x, first,
                    prev);
    prev = first;
    got_out->push_back(first);
    vd::State(vd::mix(vd::mix(x, fp), vd::mix(ex * 1000 + path.name[0], first)));
  }
  vd::Compared(n * mode.other);
  vd::NonTrivial();
}

void Run(int types, const PathName& path, int part, int parts) {
  ruy::Context ctx;
  ctx.set_runtime_enabled_paths(path.path);
  ctx.set_max_num_threads(1);
  const Types& t = kTypes[types];
  int counter = 0;
  for (int32_t fp : Multipliers())
    for (int ex = -31; ex <= 7; ex++) {
      if (counter++ % parts != part) continue;
      const std::vector<int32_t> xs = Accumulators(fp, ex, t.d);
      for (size_t from = 0; from < xs.size(); from += kChunk) {
        for (auto& c : kClamps) {
          if (vd::OutOfTime()) return;
          std::vector<long> ref, got;
          for (auto& mode : kModes) {
            Batch(types, path, &ctx, xs, fp, ex, from, c, mode, &got);
            if (got.empty()) continue;
            if (ref.empty() && vd::Replaying())
              Batch(types, path, &ctx, xs, fp, ex, from, c, kModes[0], &ref, false);
            if (ref.empty()) ref = got;
            for (size_t i = 0; i < got.size(); i++)
              if (got[i] != ref[i])
                vd::Violation("modes",
                              "accumulator %d gives %ld here but %ld with a uniform "
                              "multiplier along rows",
                              xs[from + i], got[i], ref[i]);
          }
        }
      }
    }
}

// Different multipliers in one call: each channel must use its own.
void Mixed(int types, const PathName& path) {
  ruy::Context ctx;
  ctx.set_runtime_enabled_paths(path.path);
  ctx.set_max_num_threads(1);
  const Types& t = kTypes[types];
  const bool vec = (int)path.path >= (int)ruy::Path::kAvx &&
                   SizeOf(t.l) == 1 && SizeOf(t.r) == 1;
  const int exps[] = {-8, -3, -1, 0, 1, 2, 4, -20};
  const int32_t fps[] = {1 << 30, 0x7fffffff, 0x5a5a5a5a, 0x40000001, 0};
  // every rotation of a fixed assignment, every channel count up to 40
  for (int channels = 1; channels <= (vd::Thorough() ? 70 : 40); channels++)
    for (int rot = 0; rot < 40; rot++)
      for (int col = 0; col < 2; col++)
        for (int other : {1, 2, 9}) {
          if (!vd::Begin("mixed %s %s channels=%d rot=%d col=%d other=%d", t.name, path.name,
                         channels, rot, col, other))
            continue;
          std::vector<int32_t> f(channels), b(channels);
          std::vector<int> e(channels);
          for (int i = 0; i < channels; i++) {
            e[i] = exps[(i + rot) % 8];
            f[i] = fps[(i * 2 + rot) % 5];
            b[i] = (int)((i * 7919 + rot * 104729) % 5000) - 2500;
            if (e[i] < -5) b[i] *= 1 << (-e[i] - 3);
          }
          const int m = col ? other : channels, n = col ? channels : other;
          L.assign(m * 2, 0);
          R.assign(n * 2, 0);
          D.assign(m * n * 2, 0x11);
          MulDesc q;
          q.types = types;
          q.l.rows = m;
          q.l.cols = 1;
          q.l.data = L.data();
          q.r.rows = 1;
          q.r.cols = n;
          q.r.data = R.data();
          q.d.rows = m;
          q.d.cols = n;
          q.d.data = D.data();
          q.d.row_major = rot & 1;
          q.channel_is_col = col;
          q.bias = b.data();
          q.fixedpoint_pc = f.data();
          q.exponent_pc = e.data();
          q.ctx = &ctx;
          Mul(q);
          vd::Transition();
          for (int i = 0; i < channels; i++)
            for (int o = 0; o < other; o++) {
              const long want = std::min(std::max(Requantize(b[i], f[i], e[i]), Lowest(t.d)),
                                         Highest(t.d));
              const long g =
                  (long)Load(t.d, D.data(), col ? q.d.At(o, i) : q.d.At(i, o));
              if (std::labs(g - want) > (vec ? 1 : 0))
                vd::Violation("value",
                              "channel %d: accumulator %d times %d*2^%d gives %ld, expected %ld",
                              i, b[i], f[i], e[i] - 31, g, want);
            }
          vd::Compared(channels * other);
          vd::State(HashBytes(D.data(), D.size()));
          vd::NonTrivial();
        }
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    for (const char* nm : {"u8u8u8", "u8u8i16", "i8i8i8", "i8i8u8", "i8i8i16", "i8u8i8",
                           "i8i16i16", "i16i8i16", "u8u8i8"})
      for (auto& p : RunnablePaths()) {
        const int t = TypesByName(nm);
        const bool vec = (int)p.path >= (int)ruy::Path::kAvx;
        if (!vec && p.path != ruy::Path::kStandardCpp &&
            p.path != ruy::Path::kInternalStandardCppVariant3)
          continue;  // the portable variants share this code
        if (SizeOf(kTypes[t].l) + SizeOf(kTypes[t].r) > 2 && vec) continue;
        const int parts = vd::Thorough() ? 4 : 1;
        for (int i = 0; i < parts; i++)
          jobs.emplace_back(vd::Str("grid-%s-%s-%d", nm, p.name, i),
                            [=] { Run(t, p, i, parts); }, vec ? 10 : 20);
        jobs.emplace_back(vd::Str("mixed-%s-%s", nm, p.name), [=] { Mixed(t, p); }, 1);
      }
    return jobs;
  });
}
