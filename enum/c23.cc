// C23: non-finite values reach exactly the entries they belong to.
//
// Every position of a special value (and every pair of positions, for small
// shapes) in the operands and the bias vector, against the IEEE definition.
#include <cmath>

#include "mulproblem.h"

namespace {

const float kSpecial[] = {NAN, INFINITY, -INFINITY, 3e38f};
const char* const kSpecialName[] = {"nan", "inf", "-inf", "3e38"};

struct Mode {
  bool col;        // the bias goes along columns
  bool bias;
  int clamp;       // 0 none, 1 finite, 2 above only
  bool lr, rr, dr;  // row-major
  int pad;
};
const Mode kModes[] = {
    {false, false, 0, true, false, false, 0}, {false, true, 0, false, false, false, 1},
    {true, true, 0, true, false, false, 3},   {false, true, 1, true, true, false, 0},
    {true, false, 1, false, true, true, 0},   {true, true, 2, true, false, true, 2},
    {false, true, 2, true, false, true, 0},
};

// Entries: zeros, ones and twos of both signs; a zero meets every special value
// somewhere.
int Small(int i) { return (int[]){1, 0, 2, -1, 4, 1, -2, 0, 3, 1, -4}[i % 11]; }

struct Shape {
  int m, k, n;
};

struct Case {
  Shape s;
  const Types* t;
  int ti;
  const Mode* mode;
  std::vector<double> l, r, b;  // logical contents
  std::vector<char> bl, br, bd, bb;
  ruy::Context* ctx;
};

void Init(Case* c) {
  const Shape& s = c->s;
  c->l.resize(s.m * s.k), c->r.resize(s.k * s.n), c->b.resize(std::max(s.m, s.n));
  for (int i = 0; i < s.m * s.k; i++) c->l[i] = Small(i * 3 + i / s.k);
  for (int i = 0; i < s.k * s.n; i++) c->r[i] = Small(i * 5 + i / s.k + 2);
  for (size_t i = 0; i < c->b.size(); i++) c->b[i] = Small((int)i + 4);
}

double Rounded(Scalar s, double v) { return s == F32 ? (double)(float)v : v; }

void Check(Case* c) {
  const Shape& s = c->s;
  const Types& t = *c->t;
  const Mode& o = *c->mode;
  MulDesc q;
  q.types = c->ti;
  auto lay = [&](MatDesc* d, int rows, int cols, bool rm, std::vector<char>* buf, Scalar sc, double fill) {
    d->rows = rows, d->cols = cols, d->row_major = rm;
    d->stride = (rm ? cols : rows) + o.pad;
    buf->resize((d->Span() + o.pad) * SizeOf(sc));
    // What lies between the entries must not matter.
    for (long i = 0; i < d->Span() + o.pad; i++) Store(sc, buf->data(), i, fill);
    d->data = buf->data();
  };
  lay(&q.l, s.m, s.k, o.lr, &c->bl, t.l, NAN);
  lay(&q.r, s.k, s.n, o.rr, &c->br, t.r, NAN);
  lay(&q.d, s.m, s.n, o.dr, &c->bd, t.d, -77);
  for (int i = 0; i < s.m; i++)
    for (int k = 0; k < s.k; k++) Store(t.l, c->bl.data(), q.l.At(i, k), c->l[i * s.k + k]);
  for (int k = 0; k < s.k; k++)
    for (int j = 0; j < s.n; j++) Store(t.r, c->br.data(), q.r.At(k, j), c->r[j * s.k + k]);
  q.channel_is_col = o.col;
  const int channels = o.col ? s.n : s.m;
  if (o.bias) {
    c->bb.resize(channels * SizeOf(t.a));
    for (int i = 0; i < channels; i++) Store(t.a, c->bb.data(), i, c->b[i]);
    q.bias = c->bb.data();
  }
  const double hi = 9, lo = o.clamp == 1 ? -7 : -INFINITY;
  if (o.clamp) q.clamp = true, q.clamp_min = lo, q.clamp_max = hi;
  q.ctx = c->ctx;
  Mul(q);
  vd::Transition();
  uint64_t h = 0;
  for (int i = 0; i < s.m; i++)
    for (int j = 0; j < s.n; j++) {
      double a = o.bias ? Rounded(t.a, c->b[o.col ? j : i]) : 0;
      for (int k = 0; k < s.k; k++)
        a += Rounded(t.a, Rounded(t.l, c->l[i * s.k + k]) * Rounded(t.r, c->r[j * s.k + k]));
      a = Rounded(t.a, a);
      if (o.clamp && !std::isnan(a)) a = std::min(std::max(a, lo), hi);
      a = Rounded(t.d, a);
      const double g = Load(t.d, c->bd.data(), q.d.At(i, j));
      if (std::isnan(a) != std::isnan(g) || (!std::isnan(a) && a != g))
        vd::Violation("value", "entry (%d,%d) is %g, expected %g", i, j, g, a);
      h = vd::mix(h, std::isnan(g) ? 99 : std::isinf(g) ? 98 + (g > 0) : (long)g);
    }
  vd::Compared(s.m * s.n);
  vd::NonTrivial();
  vd::State(h);
}

// The places of a problem: operands, then bias.
double* Place(Case* c, int p) {
  if (p < (int)c->l.size()) return &c->l[p];
  p -= c->l.size();
  if (p < (int)c->r.size()) return &c->r[p];
  return &c->b[p - c->r.size()];
}

void Run(const char* types, const PathName& path, int first, int pairs) {
  const int th = vd::Thorough();
  const std::vector<int> sizes =
      pairs ? std::vector<int>{1, 2, 3} : th ? Range(1, 18, {31, 33}) : std::vector<int>{1, 2, 3, 7, 8, 9, 15, 16, 17, 20};
  ruy::Context ctx;
  Setup(&ctx, path);
  Case c;
  c.ctx = &ctx;
  c.ti = TypesByName(types);
  c.t = &kTypes[c.ti];
  const std::vector<int> depths = pairs ? std::vector<int>{1, 2, 3} : th ? std::vector<int>{1, 2, 3, 4, 5, 8} : std::vector<int>{1, 2, 3, 5};
  for (int m : sizes) {
    if (!pairs && m % 4 != first) continue;
    for (int n : sizes)
      for (int k : depths)
        for (int mo = 0; mo < (int)(sizeof kModes / sizeof *kModes); mo++) {
          c.s = {m, k, n};
          c.mode = &kModes[mo];
          Init(&c);
          const int places =
              (int)(c.l.size() + c.r.size()) + (c.mode->bias ? (c.mode->col ? n : m) : 0);
          for (int p = 0; p < places; p++)
            for (int v = 0; v < 4; v++) {
              const double keep = *Place(&c, p);
              if (!pairs) {
                *Place(&c, p) = kSpecial[v];
                if (vd::Begin("%s %s %dx%dx%d mode=%d %s at %d", types, path.name, m, k, n, mo, kSpecialName[v], p))
                  Check(&c);
              } else {
                for (int p2 = p + 1; p2 < places; p2++)
                  for (int v2 = 0; v2 < 3; v2++) {
                    if (v == 3) continue;  // sums next to the overflow bound depend on their order
                    const double keep2 = *Place(&c, p2);
                    *Place(&c, p) = kSpecial[v];
                    *Place(&c, p2) = kSpecial[v2];
                    if (vd::Begin("%s %s %dx%dx%d mode=%d %s at %d %s at %d", types, path.name, m, k, n, mo,
                                  kSpecialName[v], p, kSpecialName[v2], p2))
                      Check(&c);
                    *Place(&c, p2) = keep2;
                  }
              }
              *Place(&c, p) = keep;
              if (vd::OutOfTime()) return;
            }
        }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    for (const PathName& path : RunnablePaths())
      for (const char* types : {"f32f32f32", "f64f32f32", "f32f64f64"}) {
        // Other types always take the portable path.
        if (strcmp(types, "f32f32f32") && path.path != ruy::Path::kStandardCpp) continue;
        for (int first = 0; first < 4; first++)
          jobs.emplace_back(vd::Str("single-%s-%s-%d", types, path.name, first), [=] { Run(types, path, first, 0); }, 5);
        jobs.emplace_back(vd::Str("pairs-%s-%s", types, path.name), [=] { Run(types, path, 0, 1); }, 3);
      }
    return jobs;
  });
}
