// A multiplication problem with its exact expected result, independent of the
// storage layout and code path.
#ifndef MULPROBLEM_H_
#define MULPROBLEM_H_
#include "mulref.h"
#include "ruy/strategy_controls.h"

namespace {
using namespace mulref;

// The vector kernels are cheap and have the most residual cases; the portable
// ones are slow.
bool Vector(const PathName& p) { return (int)p.path >= (int)ruy::Path::kAvx; }

struct Setting {
  const char* name;
  int pad;      // 0 tight strides, 1 padded
  int zp;       // zero-point mode 0..3
  int bias;     // 0/1
  int col;      // channel dimension is columns
  int clamp;    // 0/1
  int mult;     // 0 x1, 1 x2, 2 per channel (exact), 3 scaled down, 4 per channel scaled down
  int pattern;  // data pattern
};

struct Zps {
  int l, r, d;
};
Zps ZeroPoints(const Types& t, int mode) {
  Zps z{0, 0, 0};
  if (IsFloat(t.a)) return z;
  if (t.l == I16 || t.r == I16) return z;
  auto mid = [](Scalar s) { return (int)((Lowest(s) + Highest(s) + 1) / 2); };
  switch (mode % 10) {
    case 0:
      break;
    case 1:
      z = {mid(t.l) + 5, mid(t.r) - 9, mid(t.d) + 3};
      break;
    case 2:
      z = {(int)Highest(t.l), (int)Lowest(t.r), mid(t.d) - 7};
      break;
    case 3:
      z = {(int)Lowest(t.l), (int)Highest(t.r), (int)Highest(t.d)};
      break;
    case 4:
      z = {0, mid(t.r) + 1, (int)Lowest(t.d)};
      break;
    case 5:
      z = {mid(t.l) + 1, 0, 0};
      break;
  }
  if (t.d == I32) z.d = mode >= 10 ? 77 : 0;
  return z;
}

const int kMax = 140;
double biasv[kMax];
int32_t bias32[kMax], fp[kMax];
int ex[kMax];
float biasf[kMax];
double biasd[kMax];

struct Problem {  // everything that fixes the mathematical result
  int types, k;
  Setting s;
  Zps z;
  int M, N;
  std::vector<long> acc;  // raw products, M x N
  std::vector<int> lv, rv;  // operand values, M x k and N x k
  std::vector<double> want;  // expected entries
  double tol;
};

double Expected(const Problem& p, bool simd, int i, int j, double* tol);

Problem MakeProblem(int types, const Setting& s, int M, int N, int k,
                    const PathName& path) {
  Problem p;
  p.types = types;
  p.k = k;
  p.s = s;
  p.M = M;
  p.N = N;
  const Types& t = kTypes[types];
  p.z = ZeroPoints(t, s.zp);
  std::vector<int> L((size_t)M * k), R((size_t)N * k);
  for (int i = 0; i < M; i++)
    for (int d = 0; d < k; d++)
      L[(size_t)i * k + d] = Datum(t.l, p.z.l, s.pattern, 1, i, d) - p.z.l;
  for (int j = 0; j < N; j++)
    for (int d = 0; d < k; d++)
      R[(size_t)j * k + d] = Datum(t.r, p.z.r, s.pattern, 2, j, d) - p.z.r;
  p.acc.resize((size_t)M * N);
  for (int i = 0; i < M; i++)
    for (int j = 0; j < N; j++) {
      long a = 0;
      for (int d = 0; d < k; d++)
        a += (long)L[(size_t)i * k + d] * R[(size_t)j * k + d];
      p.acc[(size_t)i * N + j] = a;
    }
  for (auto& v : L) v += p.z.l;
  for (auto& v : R) v += p.z.r;
  p.lv = L;
  p.rv = R;
  p.want.resize((size_t)M * N);
  const bool simd = (int)path.path >= (int)ruy::Path::kAvx;
  for (int i = 0; i < M; i++)
    for (int j = 0; j < N; j++)
      p.want[(size_t)i * N + j] = Expected(p, simd, i, j, &p.tol);
  return p;
}

// Expected value of entry (i,j); tol receives the permitted deviation.
double Expected(const Problem& p, bool simd, int i, int j, double* tol) {
  const Types& t = kTypes[p.types];
  const int ch = p.s.col ? j : i;
  long a = p.acc[(size_t)i * p.N + j];
  *tol = 0;
  if (p.s.bias) a += bias32[ch];
  if (IsFloat(t.a)) {
    double v = a;
    if (p.s.clamp) v = std::min(std::max(v, -40.0), 55.0);
    return v;
  }
  if (t.d == I32) return (double)(a + p.z.d);
  switch (p.s.mult) {
    case 0: break;
    case 1: a *= 2; break;
    case 2: a *= 1 << (ch % 3); break;
    case 3:
      a = Requantize(a, (1 << 30) + (1 << 29) + 12345, -11);
      *tol = simd;
      break;
    case 4:
      a = Requantize(a, fp[ch], ex[ch]);
      *tol = simd;
      break;
  }
  long lo = Lowest(t.d), hi = Highest(t.d);
  if (p.s.clamp) lo += 13, hi -= 22;
  a += p.z.d;
  return (double)std::min(std::max(a, lo), hi);
}

bool LayoutOf(MatDesc* m, int rows, int cols, int rm, int pad) {
  m->rows = rows;
  m->cols = cols;
  m->row_major = rm;
  m->stride = (rm ? cols : rows) + pad;
  return true;
}

template <typename T>
void FillT(const std::vector<int>& v, int k, bool transposed, const MatDesc& m, long span,
           T pad, T* out) {
  const int inner = m.row_major ? m.cols : m.rows;
  const int outer = m.row_major ? m.rows : m.cols;
  // walks storage order; (a, d) index the table: a = row of L / column of R
  const bool contiguous = m.row_major != transposed;
  for (int o = 0; o < outer; o++) {
    T* line = out + (long)o * m.stride;
    if (contiguous)
      for (int x = 0; x < inner; x++) line[x] = (T)v[(size_t)o * k + x];
    else
      for (int x = 0; x < inner; x++) line[x] = (T)v[(size_t)x * k + o];
    for (int x = inner; x < m.stride; x++) line[x] = pad;
  }
  (void)span;
}

// Padding holds values that would show in any result they leak into.
void FillOperand(Scalar s, int zp, const std::vector<int>& v, int k, bool transposed,
                 MatDesc* m, std::vector<char>* buf) {
  const long span = (long)m->stride * (m->row_major ? m->rows : m->cols);
  if (buf->size() < (size_t)span * SizeOf(s) + 64) buf->resize(span * SizeOf(s) + 64);
  void* p = buf->data();
  switch (s) {
    case F32: FillT<float>(v, k, transposed, *m, span, std::nanf(""), (float*)p); break;
    case F64: FillT<double>(v, k, transposed, *m, span, std::nan(""), (double*)p); break;
    case I8: FillT<int8_t>(v, k, transposed, *m, span, 0x7d, (int8_t*)p); break;
    case U8: FillT<uint8_t>(v, k, transposed, *m, span, 0x7d, (uint8_t*)p); break;
    case I16: FillT<int16_t>(v, k, transposed, *m, span, 0x7d7d, (int16_t*)p); break;
    default: vd::Error("operand type");
  }
  m->data = p;
  m->zp = zp;
}

void InitData() {
  for (int i = 0; i < kMax; i++) {
    bias32[i] = (int)((i * 37 + 11) % 41) - 20;
    biasf[i] = bias32[i];
    biasd[i] = bias32[i];
    fp[i] = (1 << 30) + i * 7654321 % (1 << 30);
    ex[i] = -9 - i % 4;
  }
}

std::vector<int> Range(int a, int b, std::vector<int> more) {
  std::vector<int> v;
  for (int i = a; i <= b; i++) v.push_back(i);
  v.insert(v.end(), more.begin(), more.end());
  return v;
}
void Setup(ruy::Context* ctx, const PathName& path, int threads = 1) {
  ctx->set_runtime_enabled_paths(path.path);
  ctx->set_max_num_threads(threads);
  if (threads > 1)
    ctx->set_num_threads_strategy(ruy::NumThreadsStrategy::kForceMaxNumThreads);
}


// Parameters of the call that follow from the setting.
inline void ApplySetting(const Problem& p, MulDesc* qp) {
  MulDesc& q = *qp;
  const Types& t = kTypes[p.types];
  q.channel_is_col = p.s.col;
  if (p.s.bias)
    q.bias = t.a == F32 ? (const void*)biasf
                        : t.a == F64 ? (const void*)biasd : (const void*)bias32;
  if (!IsFloat(t.a) && t.d != I32) {
    static std::vector<int32_t> f(kMax);
    static std::vector<int> e(kMax);
    switch (p.s.mult) {
      case 0:
      case 1:
        q.uniform_multiplier = true;
        q.fixedpoint = 1 << 30;
        q.exponent = 1 + p.s.mult;
        break;
      case 2:
        for (int c = 0; c < kMax; c++) f[c] = 1 << 30, e[c] = 1 + c % 3;
        q.fixedpoint_pc = f.data();
        q.exponent_pc = e.data();
        break;
      case 3:
        q.uniform_multiplier = true;
        q.fixedpoint = (1 << 30) + (1 << 29) + 12345;
        q.exponent = -11;
        break;
      case 4:
        q.fixedpoint_pc = fp;
        q.exponent_pc = ex;
        break;
    }
  }
  if (p.s.clamp && t.d != I32) {
    q.clamp = true;
    if (IsFloat(t.d)) {
      q.clamp_min = -40;
      q.clamp_max = 55;
    } else {
      q.clamp_min = Lowest(t.d) + 13;
      q.clamp_max = Highest(t.d) - 22;
    }
  }
}

}  // namespace
#endif
