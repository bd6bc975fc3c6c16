// C12: the caller's floating-point control state, and treatment of denormals.
#include <xmmintrin.h>

#include <array>
#include <cmath>

#include "mulproblem.h"
#include "ruy/ruy.h"
#include "ruy/thread_pool.h"

namespace {

unsigned short X87() {
  unsigned short w;
  asm volatile("fnstcw %0" : "=m"(w));
  return w;
}

// Control states at entry: flush, denormals-are-zero, rounding, and exception
// masks (all masked, or division by zero unmasked).
struct State {
  bool ftz, daz;
  int rounding;
  bool unmasked;
  unsigned Bits() const {
    unsigned m = 0x1f80;
    if (unmasked) m &= ~0x200u;  // divide by zero, which never occurs
    return m | (ftz ? 0x8000 : 0) | (daz ? 0x40 : 0) | rounding << 13;
  }
  std::string Name() const {
    return vd::Str("%s%sr%d%s", ftz ? "F" : "-", daz ? "D" : "-", rounding, unmasked ? "u" : "m");
  }
};
std::vector<State> States(bool masks) {
  std::vector<State> v;
  for (int i = 0; i < (masks ? 32 : 16); i++) v.push_back({(i & 1) != 0, (i & 2) != 0, (i >> 2) & 3, i >= 16});
  return v;
}

const unsigned kControl = 0xffc0;  // everything but the sticky flags

// Operand values: every product and sum is exact, so that the rounding mode has
// no influence; rows and columns select normal, denormal-operand and
// denormal-product entries.
// Kind 0: normal values; 1: a denormal operand on the left; 2: operands whose
// product is denormal; 3: both normal and denormal terms in one sum.
template <typename T>
T LeftValue(int i, int d) {
  const bool dbl = sizeof(T) == 8;
  switch (i % 4) {
    case 0: return (T)(1 + (i + d) % 5);
    case 1: return (T)std::ldexp(1.0, dbl ? -1030 : -130);
    case 2: return (T)std::ldexp(1.0 + (i % 3), dbl ? -540 : -70);
    default: return d % 2 ? (T)3 : (T)std::ldexp(1.0, dbl ? -1030 : -130);
  }
}
template <typename T>
T RightValue(int j, int d) {
  const bool dbl = sizeof(T) == 8;
  switch (j % 3) {
    case 0: return (T)(2 + (j + d) % 3);
    case 1: return (T)std::ldexp(1.0, dbl ? 20 : 20);
    default: return (T)std::ldexp(1.0, dbl ? -540 : -70);
  }
}
// Exact value of one term when denormal operands and results count as zero.
template <typename T>
double Term(T a, T b) {
  const int lowest = sizeof(T) == 8 ? -1022 : -126;
  auto flush = [&](long double v) {
    return std::fabs(v) < ldexpl(1.0L, lowest) ? 0.0L : v;
  };
  return (double)flush(flush((long double)a) * flush((long double)b));
}

struct Shape {
  int m, k, n;
};
const Shape kShapes[] = {{4, 3, 6}, {13, 5, 9}, {33, 4, 40}, {64, 2, 7}, {5, 33, 48}, {1, 9, 24}};

template <typename T>
struct Data {
  std::vector<T> l, r;
  std::vector<double> want;
};

// `want` is computed here, with denormals fully supported by the harness.
template <typename T>
const Data<T>& DataOf(int shape) {
  static std::map<int, Data<T>> all;
  auto it = all.find(shape);
  if (it != all.end()) return it->second;
  const Shape& s = kShapes[shape];
  Data<T>& d = all[shape];
  d.l.resize(s.m * s.k);
  d.r.resize(s.n * s.k);
  d.want.resize(s.m * s.n);
  for (int i = 0; i < s.m; i++)
    for (int x = 0; x < s.k; x++) d.l[i * s.k + x] = LeftValue<T>(i, x);
  for (int j = 0; j < s.n; j++)
    for (int x = 0; x < s.k; x++) d.r[j * s.k + x] = RightValue<T>(j, x);
  for (int i = 0; i < s.m; i++)
    for (int j = 0; j < s.n; j++) {
      double v = 0;
      for (int x = 0; x < s.k; x++) v += Term<T>(d.l[i * s.k + x], d.r[j * s.k + x]);
      d.want[i * s.n + j] = v;
    }
  return d;
}

template <typename T>
void Step(int shape, ruy::Context* ctx, const State& st) {
  const Shape& s = kShapes[shape];
  const Data<T>& data = DataOf<T>(shape);
  static std::vector<T> dst;
  dst.assign(s.m * s.n, (T)77);
  ruy::Matrix<T> lhs, rhs, out;
  ruy::MakeSimpleLayout(s.m, s.k, ruy::Order::kRowMajor, lhs.mutable_layout());
  ruy::MakeSimpleLayout(s.k, s.n, ruy::Order::kColMajor, rhs.mutable_layout());
  ruy::MakeSimpleLayout(s.m, s.n, ruy::Order::kColMajor, out.mutable_layout());
  lhs.set_data(data.l.data());
  rhs.set_data(data.r.data());
  out.set_data(dst.data());
  ruy::MulParams<T, T> params;
  const unsigned saved = _mm_getcsr();
  const unsigned short x87 = X87();
  _mm_setcsr(st.Bits());
  ruy::Mul<ruy::kAllPathsIncludingInternalVariants>(lhs, rhs, params, ctx, &out);
  const unsigned after = _mm_getcsr();
  _mm_setcsr(saved);
  const unsigned short x87_after = X87();
  vd::Transition();
  if ((after ^ st.Bits()) & kControl)
    vd::Violation("control", "control state was 0x%x at entry and is 0x%x on return", st.Bits(),
                  after & kControl);
  if (x87 != x87_after) vd::Violation("x87", "x87 control word 0x%x became 0x%x", x87, x87_after);
  for (int i = 0; i < s.m; i++)
    for (int j = 0; j < s.n; j++) {
      const double g = dst[i + (size_t)j * s.m], w = data.want[i * s.n + j];
      if (g != w)
        vd::Violation("denormals", "entry (%d,%d) is %g, with denormals flushed it is %g", i, j, g,
                      w);
    }
  vd::Compared(s.m * s.n + 2);
  vd::State(vd::mix(HashBytes(dst.data(), dst.size() * sizeof(T)), after & kControl));
}

void Configure(ruy::Context* ctx, int threads, int spin) {
  ctx->set_max_num_threads(threads);
  ctx->mutable_thread_pool()->set_spin_milliseconds(spin);
}

template <typename T>
void Singles(const char* types, const PathName& path) {
  for (int shape = 0; shape < 6; shape++)
    for (auto& st : States(true))
      for (int threads = 1; threads <= 4; threads++)
        for (int spin : {0, 1}) {
          if (spin && threads != 2) continue;
          if (!vd::Begin("%s %s shape=%d state=%s threads=%d spin=%d", types, path.name, shape,
                         st.Name().c_str(), threads, spin))
            continue;
          if (vd::OutOfTime()) return;
          {
            ruy::Context ctx;
            Setup(&ctx, path, threads);
            Configure(&ctx, threads, spin);
            Step<T>(shape, &ctx, st);
            Step<T>(shape, &ctx, st);
            _mm_setcsr(st.Bits());
          }
          const unsigned after = _mm_getcsr();
          _mm_setcsr(0x1f80);
          if ((after ^ st.Bits()) & kControl)
            vd::Violation("control", "control state 0x%x became 0x%x when the context was destroyed",
                          st.Bits(), after & kControl);
          if (st.Bits() != 0x1f80) vd::NonTrivial();
        }
}

// Histories: each step has its own entry state and thread limit.
void Histories(const PathName& path, int part) {
  const auto states = States(false);
  const int depth = vd::Thorough() ? 3 : 2;
  // A step: entry state, thread limit 1, 2 or 3, shape 1 or 2.
  std::vector<std::array<int, 3>> steps;
  for (size_t s = 0; s < states.size(); s++) {
    // All flush combinations with round-to-nearest and one other rounding mode.
    if (states[s].rounding && states[s].rounding != 3) continue;
    for (int t = 1; t <= 3; t++)
      for (int sh : {1, 2}) {
        if (depth > 2 && sh == 2 && t != 3) continue;
        steps.push_back({(int)s, t, sh});
      }
  }
  const long n = steps.size();
  long total = 1;
  for (int i = 0; i < depth; i++) total *= n;
  for (long x = part; x < total; x += 8) {
    long y = x;
    char text[200];
    int at = snprintf(text, sizeof text, "history %s", path.name);
    int seq[3];
    for (int i = 0; i < depth; i++) {
      seq[i] = y % n;
      y /= n;
      auto& s = steps[seq[i]];
      at += snprintf(text + at, sizeof text - at, " %s:%d:%d", states[s[0]].Name().c_str(), s[1],
                     s[2]);
    }
    if (!vd::Begin("%s", text)) continue;
    if (vd::OutOfTime()) return;
    ruy::Context ctx;
    for (int i = 0; i < depth; i++) {
      auto& s = steps[seq[i]];
      Setup(&ctx, path, s[1]);
      Configure(&ctx, s[1], 0);
      Step<float>(s[2], &ctx, states[s[0]]);
    }
    vd::NonTrivial();
  }
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    for (auto& p : RunnablePaths()) {
      jobs.emplace_back(vd::Str("f32-%s", p.name), [=] { Singles<float>("f32f32f32", p); }, 2);
      if (p.path == ruy::Path::kStandardCpp || p.path == ruy::Path::kAvx512)
        jobs.emplace_back(vd::Str("f64-%s", p.name), [=] { Singles<double>("f64f64f64", p); }, 2);
      for (int part = 0; part < 8; part++)
        jobs.emplace_back(vd::Str("history-%s-%d", p.name, part), [=] { Histories(p, part); });
    }
    return jobs;
  });
}
