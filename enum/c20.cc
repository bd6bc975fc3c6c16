// C20: the packed image of an operand and its column sums.
//
// Every shape, order, stride, column range, zero point and path within the
// bounds is packed by the real code into a buffer of canaries and compared with
// the definition entry by entry.
#include "mulref.h"
#include "ruy/context_get_ctx.h"
#include "ruy/create_trmul_params.h"
#include "ruy/ctx.h"
#include "ruy/mat.h"
#include "ruy/trmul_params.h"

namespace {
using namespace mulref;
using ruy::Side;

constexpr ruy::Path kAllPaths = ruy::kNonArchPathsIncludingInternalVariants | ruy::Path::kAvx |
                                ruy::Path::kAvx2Fma | ruy::Path::kAvx512;

// Position of entry (r, c) of a packed matrix, from the documented layout: blocks
// of kernel rows x kernel cols, block columns contiguous.
long PackedAt(const ruy::PMatLayout& l, int r, int c) {
  const int kr = l.kernel.rows, kc = l.kernel.cols;
  const long block = (long)(c / kc) * kc * l.rows + (long)(r / kr) * kr * kc;
  const int ri = r % kr, ci = c % kc;
  return block + (l.kernel.order == ruy::Order::kColMajor ? ci * kr + ri : ri * kc + ci);
}

template <typename S>
struct Name;
#define N(T, n) \
  template <>   \
  struct Name<T> { static const char* Get() { return n; } };
N(float, "f32")
N(double, "f64")
N(std::int8_t, "i8")
N(std::uint8_t, "u8")
N(std::int16_t, "i16")

// Expected packed value: 8-bit unsigned sources may be stored shifted to signed.
template <typename S, typename P>
P Convert(double v) {
  if (std::is_same<S, std::uint8_t>::value && std::is_same<P, std::int8_t>::value)
    return (P)((int)v - 128);
  return (P)v;
}

template <typename S>
double Value(int pattern, int r, int c) {
  const uint64_t h = vd::mix(r * 1009 + 7, c);
  if (std::is_floating_point<S>::value)
    return pattern == 0 ? (double)(h % 2001) - 1000 : (h & 1 ? 0.5 : -3.25);
  const long lo = (long)std::numeric_limits<S>::lowest(), hi = (long)std::numeric_limits<S>::max();
  if (pattern == 0) return (double)(lo + (long)(h % (uint64_t)(hi - lo + 1)));
  if (pattern == 1) return (double)lo;
  return (double)((h & 3) ? hi : lo);
}

template <typename S>
struct Source {
  std::vector<S> data;
};

template <typename S, typename P>
void Verify(const ruy::TrMulParams& params, Side side, const std::vector<S>& table, int rows,
            int cols, int start, int end, const std::vector<unsigned char>& buf, size_t guard,
            const std::vector<int32_t>* sums, size_t sguard) {
  const ruy::PEMat& m = params.packed_matrix[side];
  const ruy::PMatLayout& l = m.layout;
  const P* p = (const P*)(buf.data() + guard);
  const P zp = (P)m.zero_point;
  // Columns past the operand are alignment filler that no result reads.
  for (int c = start; c < end && c < cols; c++) {
    long sum = 0;
    for (int r = 0; r < l.rows; r++) {
      P want = zp;
      if (r < rows) want = Convert<S, P>((double)table[(size_t)c * rows + r]);
      const P got = p[PackedAt(l, r, c)];
      if (memcmp(&got, &want, sizeof want))
        vd::Violation("image", "packed entry (%d,%d) is %g, expected %g", r, c, (double)got,
                      (double)want);
      sum += (long)want;
    }
    if (sums && (*sums)[sguard + c] != (int32_t)sum)
      vd::Violation("sums", "sum of packed column %d is %d, expected %ld", c, (*sums)[sguard + c],
                    sum);
  }
  vd::Compared((long)(std::min(end, cols) - start) * (l.rows + 1));
  // Outside the requested columns nothing may have been written.
  const size_t line = (size_t)l.rows * sizeof(P);
  const size_t a = guard + start * line, b = guard + end * line;
  for (size_t i = 0; i < buf.size(); i++) {
    if (i == a) i = b;
    if (i < buf.size() && buf[i] != 0xa7)
      vd::Violation("outside", "byte %ld of the packed buffer, outside columns %d..%d, was written",
                    (long)i - (long)guard, start, end);
  }
  if (sums)
    for (size_t i = 0; i < sums->size(); i++) {
      if (i == sguard + start) i = sguard + end;
      if (i < sums->size() && (*sums)[i] != 0x27a7a7a7)
        vd::Violation("outside-sums", "sum %ld, outside columns %d..%d, was written",
                      (long)i - (long)sguard, start, end);
    }
}

template <typename L, typename R, typename A, typename D>
void Run(const PathName& path, Side side, int part, int parts) {
  using S = L;  // both sides are exercised with the element type of interest
  ruy::Context context;
  context.set_runtime_enabled_paths(path.path);
  context.set_max_num_threads(1);
  ruy::Ctx* ctx = ruy::get_ctx(&context);
  std::vector<int> depths;
  for (int i = 1; i <= 70; i++) depths.push_back(i);
  for (int i : {95, 96, 127, 128, 129, 160, 255, 256, 257, 1025}) depths.push_back(i);
  // Deep enough for sums kept in 16 bits to wrap around.
  for (int i : {4101, 70000}) depths.push_back(i);
  if (vd::Thorough()) {
    for (int i = 71; i <= 140; i++) depths.push_back(i);
    for (int i : {2048, 4096, 8190, 16390, 32800, 66000}) depths.push_back(i);
  }
  const bool integer = std::is_integral<S>::value;
  std::vector<long> zps{0};
  if (sizeof(S) == 1)
    zps = {(long)std::numeric_limits<S>::lowest(), 0, 77, (long)std::numeric_limits<S>::max()};
  std::vector<S> src;
  std::vector<S> table;
  std::vector<unsigned char> buf;
  std::vector<int32_t> sums;
  int counter = 0;
  for (int depth : depths)
    for (int cols = 1; cols <= (vd::Thorough() ? 67 : 34); cols++) {
      if (counter++ % parts != part) continue;
      if (depth > 140 && cols > 18 && cols != 33) continue;
      if (depth > 2000 && cols != 3 && cols != 8 && cols != 16) continue;
      if (vd::OutOfTime()) return;
      for (int pattern = 0; pattern < (integer ? 3 : 2); pattern++) {
        table.resize((size_t)depth * cols);
        for (int c = 0; c < cols; c++)
          for (int r = 0; r < depth; r++)
            table[(size_t)c * depth + r] = (S)Value<S>(pattern, r, c);
        for (int order = 0; order < 2; order++)
          for (int pad : {0, 3}) {
            const int stride = (order ? cols : depth) + pad;
            src.assign((size_t)stride * (order ? depth : cols), (S)99);
            for (int c = 0; c < cols; c++)
              for (int r = 0; r < depth; r++)
                src[order ? (size_t)r * stride + c : (size_t)c * stride + r] =
                    table[(size_t)c * depth + r];
            for (long zp : zps) {
              if (pattern == 2 && zp != 77 && integer && zps.size() > 1) continue;
              ruy::Mat<S> mat;
              mat.data.set((const S*)src.data());
              mat.layout.rows = depth;
              mat.layout.cols = cols;
              mat.layout.stride = stride;
              mat.layout.order = order ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
              mat.zero_point = (S)zp;
              static R other_data[80000];
              static D dst_data[128];
              ruy::Mat<R> other;
              other.data.set((const R*)other_data);
              other.layout.rows = depth;
              other.layout.cols = 1;
              other.layout.stride = depth;
              other.zero_point = 0;
              ruy::Mat<D> dst;
              dst.data.set(dst_data);
              dst.layout.order = ruy::Order::kColMajor;
              ruy::MulParams<A, D> mp;
              ruy::TrMulParams params;
              if (side == Side::kLhs) {
                dst.layout.rows = cols;
                dst.layout.cols = 1;
                dst.layout.stride = cols;
                ruy::CreateTrMulParams<kAllPaths>(mat, other, dst, mp, ctx, &params);
              } else {
                dst.layout.rows = 1;
                dst.layout.cols = cols;
                dst.layout.stride = 1;
                ruy::CreateTrMulParams<kAllPaths>(other, mat, dst, mp, ctx, &params);
              }
              ruy::PEMat& m = params.packed_matrix[side];
              const ruy::PMatLayout& l = m.layout;
              const int kc = l.kernel.cols;
              if (l.rows < depth || l.cols < cols || l.cols % kc || l.rows % l.kernel.rows)
                vd::Violation("layout", "packed %dx%d for a %dx%d operand", l.rows, l.cols, depth,
                              cols);
              const size_t guard = 128, sguard = 32;
              for (int start = 0; start < l.cols; start += kc)
                for (int end = start + kc; end <= l.cols; end += kc) {
                  // With narrow kernels only a few of the many ranges.
                  if (l.cols / kc > 5 && !(start == 0 && end == l.cols) &&
                      !(end - start <= 2 * kc && start % (7 * kc) == 0))
                    continue;
                  if (!vd::Begin("%s %s %s depth=%d cols=%d %s stride+%d zp=%ld pattern=%d "
                                 "range=%d..%d",
                                 Name<S>::Get(), path.name, side == Side::kLhs ? "lhs" : "rhs",
                                 depth, cols, order ? "rm" : "cm", pad, zp, pattern, start, end))
                    continue;
                  buf.assign(guard * 2 + (size_t)l.rows * l.cols * m.data_type.size, 0xa7);
                  sums.assign(sguard * 2 + l.cols, 0x27a7a7a7);
                  m.data = buf.data() + guard;
                  m.sums = integer ? sums.data() + sguard : nullptr;
                  params.RunPack(side, ruy::Tuning::kGeneric, start, end);
                  vd::Transition();
                  const std::vector<int32_t>* s = integer ? &sums : nullptr;
                  if (m.data_type.is_floating_point) {
                    Verify<S, S>(params, side, table, depth, cols, start, end, buf, guard, s,
                                 sguard);
                  } else if (m.data_type.size == 1 && m.data_type.is_signed) {
                    if (std::is_same<S, std::uint8_t>::value && m.zero_point != zp - 128)
                      vd::Violation("zero-point", "packed zero point %d for %ld", m.zero_point, zp);
                    Verify<S, std::int8_t>(params, side, table, depth, cols, start, end, buf,
                                           guard, s, sguard);
                  } else {
                    Verify<S, S>(params, side, table, depth, cols, start, end, buf, guard, s,
                                 sguard);
                  }
                  if (depth % l.kernel.rows || cols % kc) vd::NonTrivial();
                  vd::State(vd::mix(HashBytes(buf.data(), buf.size()), start));
                }
            }
          }
      }
    }
}

template <typename L, typename R, typename A, typename D>
void Add(std::vector<vd::Job>* jobs) {
  for (auto& p : RunnablePaths())
    for (int side = 0; side < 2; side++)
      for (int part = 0; part < 4; part++) {
        const PathName pn = p;
        jobs->emplace_back(vd::Str("%s-%s-%s-%d", Name<L>::Get(), p.name, side ? "rhs" : "lhs", part),
                           [=] { Run<L, R, A, D>(pn, side ? Side::kRhs : Side::kLhs, part, 4); });
      }
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    Add<float, float, float, float>(&jobs);
    Add<double, float, double, double>(&jobs);
    Add<std::int8_t, std::int8_t, std::int32_t, std::int8_t>(&jobs);
    Add<std::uint8_t, std::uint8_t, std::int32_t, std::uint8_t>(&jobs);
    Add<std::int16_t, std::int8_t, std::int32_t, std::int16_t>(&jobs);
    return jobs;
  });
}
