// C24: layouts that spread a matrix over a large address range.
//
// One of the three matrices gets a stride around a power of two, so large that
// its entries are up to 2^31 entry positions apart. Only the pages that hold
// entries exist; everything far from the matrix is inaccessible.
#include <sys/mman.h>

#include "mulproblem.h"
#include "ruy/thread_pool.h"

namespace {

const size_t kSpan = ((size_t)1 << 34) + (1 << 20);  // 2^31 entries of 8 bytes
const size_t kMargin = (size_t)1 << 35;  // inaccessible on both sides

char* Arena() {
  static char* base = [] {
    char* p = (char*)mmap(nullptr, kSpan + 2 * kMargin, PROT_NONE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) vd::Error("cannot reserve address space");
    if (mprotect(p + kMargin, kSpan, PROT_READ | PROT_WRITE))
      vd::Error("cannot make the address space accessible");
    madvise(p + kMargin, kSpan, MADV_NOHUGEPAGE);
    return p + kMargin;
  }();
  return base;
}

int Small(int i) {
  static const signed char v[] = {1, 0, 2, -1, 4, 1, -2, 0, 3, 1, -4};
  return v[(unsigned)i % 11];
}

// Two entries of canary around each run of neighbouring entries of a matrix.
template <typename F>
void Runs(const MatDesc& d, F f) {
  const int lines = d.row_major ? d.rows : d.cols, length = d.row_major ? d.cols : d.rows;
  for (int i = 0; i < lines; i++) {
    const long a = (long)i * d.stride;
    for (int e = -2; e < length + 2; e++)
      if (e < 0 || e >= length) f(a + e);
  }
}

void Check(int ti, ruy::Context* ctx, int m, int k, int n, int which, bool rm, int stride,
           bool per_channel) {
  const Types& t = kTypes[ti];
  static std::vector<char> small[3];
  MulDesc q;
  q.types = ti;
  MatDesc* ds[3] = {&q.l, &q.r, &q.d};
  const int rows[3] = {m, k, m}, cols[3] = {k, n, n};
  const Scalar sc[3] = {t.l, t.r, t.d};
  const int zps[3] = {IsFloat(t.l) || t.l == I16 || t.r == I16 ? 0 : 9,
                      IsFloat(t.r) || t.l == I16 || t.r == I16 ? 0 : 7, 0};
  for (int w = 0; w < 3; w++) {
    MatDesc& d = *ds[w];
    d.rows = rows[w], d.cols = cols[w];
    d.zp = zps[w];
    if (w == which) {
      d.row_major = rm;
      d.stride = stride;
      d.data = Arena() + 64;
    } else {
      d.row_major = w == 0;
      d.stride = d.row_major ? d.cols : d.rows;
      small[w].assign(d.Span() * SizeOf(sc[w]), 0);
      d.data = small[w].data();
    }
  }
  for (int i = 0; i < m; i++)
    for (int x = 0; x < k; x++) Store(t.l, q.l.data, q.l.At(i, x), Small(i * 3 + x) + q.l.zp);
  for (int x = 0; x < k; x++)
    for (int j = 0; j < n; j++) Store(t.r, q.r.data, q.r.At(x, j), Small(j * 5 + x + 2) + q.r.zp);
  const int kCanary = 99;
  if (which == 2) {
    Runs(q.d, [&](long p) { Store(t.d, q.d.data, p, kCanary); });
    for (int i = 0; i < m; i++)
      for (int j = 0; j < n; j++) Store(t.d, q.d.data, q.d.At(i, j), kCanary);
  }
  std::vector<double> bd(std::max(m, n));
  std::vector<char> bias(bd.size() * 8);
  if (per_channel) {
    for (size_t i = 0; i < bd.size(); i++) Store(t.a, bias.data(), i, bd[i] = Small((int)i));
    q.bias = bias.data();
  }
  if (!IsFloat(t.a) && t.d != I32)  // times one
    q.uniform_multiplier = true, q.fixedpoint = 1 << 30, q.exponent = 1;
  q.ctx = ctx;
  Mul(q);
  vd::Transition();
  uint64_t h = 0;
  static std::vector<int> lv, rv;
  lv.resize(m * 3 + k), rv.resize(n * 5 + k);
  for (size_t i = 0; i < lv.size(); i++) lv[i] = Small((int)i);
  for (size_t i = 0; i < rv.size(); i++) rv[i] = Small((int)i + 2);
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) {
      int sum = 0;
      for (int x = 0; x < k; x++) sum += lv[i * 3 + x] * rv[j * 5 + x];
      double a = bd[i] + sum;
      if (!IsFloat(t.d)) a = std::min(std::max(a, (double)Lowest(t.d)), (double)Highest(t.d));
      const double g = Load(t.d, q.d.data, q.d.At(i, j));
      if (g != a) vd::Violation("value", "entry (%d,%d) is %g, expected %g", i, j, g, a);
      h = vd::mix(h, (long)g);
    }
  if (which == 2)
    Runs(q.d, [&](long p) {
      if (Load(t.d, q.d.data, p) != kCanary)
        vd::Violation("stray", "position %ld beside the destination's entries was written", p);
    });
  vd::Compared(m * n);
  if (SizeOf(sc[which]) * ds[which]->Span() > 0x7fffffffl) vd::NonTrivial();
  vd::State(vd::mix(vd::mix(h, stride), which * 2 + rm));
}

void Run(const char* types, const PathName& path, int threads, int which) {
  const int ti = TypesByName(types);
  const bool th = vd::Thorough();
  ruy::Context ctx;
  Setup(&ctx, path, threads);
  ctx.mutable_thread_pool()->set_spin_milliseconds(0);
  // Waiting threads are slow.
  const bool few = threads > 1;
  const std::vector<int> lines = few ? std::vector<int>{2, 9, 17, 33}
                                 : th ? Range(2, 18, {31, 32, 33, 47, 65})
                                      : std::vector<int>{2, 3, 7, 8, 9, 16, 17, 33};
  const std::vector<int> lengths = few ? std::vector<int>{1, 17}
                                   : th ? std::vector<int>{1, 2, 3, 7, 8, 9, 15, 16, 17, 33}
                                        : std::vector<int>{1, 3, 8, 17};
  const std::vector<int> others = few ? std::vector<int>{1, 9}
                                  : th ? std::vector<int>{1, 2, 8, 9, 17}
                                       : std::vector<int>{1, 3, 9};
  for (int rm = 0; rm < 2; rm++)
    for (int e = 8; e <= 30; e++)
      for (int d : {-1, 0, 1}) {
        if (vd::OutOfTime()) return;
        const long stride = (1l << e) + d;
        for (int line : lines)
          for (int length : lengths) {
            if (stride < length + 4) continue;
            if ((line - 1) * stride + length + 2 > 0x7fffffffl) continue;
            for (int other : others)
              for (int pc = 0; pc < (few ? 1 : 2); pc++) {
                const int r = rm ? line : length, c = rm ? length : line;
                int m, k, n;
                if (which == 0) m = r, k = c, n = other;
                else if (which == 1) m = other, k = r, n = c;
                else m = r, k = other, n = c;
                if (vd::Begin("%s %s threads=%d %s %s stride=%ld %dx%dx%d bias=%d", types, path.name,
                              threads, which == 0 ? "lhs" : which == 1 ? "rhs" : "dst",
                              rm ? "rm" : "cm", stride, m, k, n, pc))
                  Check(ti, &ctx, m, k, n, which, rm, (int)stride, pc);
              }
          }
        madvise(Arena(), kSpan, MADV_DONTNEED);
      }
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    for (int ti = 0; ti < kNumTypes; ti++)
      for (auto& p : RunnablePaths())
        for (int which = 0; which < 3; which++)
          for (int threads : {1, 3}) {
            const PathName pn = p;
            const char* t = kTypes[ti].name;
            jobs.emplace_back(vd::Str("%s-%s-%d-%d", t, p.name, which, threads),
                              [=] { Run(t, pn, threads, which); });
          }
    return jobs;
  });
}
