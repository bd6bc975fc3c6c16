// C19: settings objects, layouts and rounding helpers.
#include <type_traits>

#include "mulref.h"
#include "ruy/context.h"
#include "ruy/mat.h"
#include "ruy/matrix.h"
#include "ruy/mul_params.h"
#include "ruy/size_util.h"
#include "ruy/strategy_controls.h"
#include "ruy/thread_pool.h"
#include "ruy/tune.h"

namespace {
using mulref::HashBytes;

// Runs every sequence of `depth` operations 0..n-1 that starts with `first`.
// run(seq) -> void; applicable operations are decided inside.
template <typename F>
void Sequences(const char* what, int n, int depth, int first, F run) {
  if (first >= n) return;
  std::vector<int> seq(depth, 0);
  seq[0] = first;
  for (long count = 0;; count++) {
    char text[200];
    int at = snprintf(text, sizeof text, "%s", what);
    for (int i : seq) at += snprintf(text + at, sizeof text - at, " %d", i);
    if (vd::Begin("%s", text)) run(seq);
    if ((count & 1023) == 0 && vd::OutOfTime()) return;
    int i = depth - 1;
    while (i > 0 && ++seq[i] == n) seq[i--] = 0;
    if (i == 0) return;
  }
}

// ---- multiplication parameters ------------------------------------------------------
template <typename A, typename D>
struct ParamsModel {
  const A* bias = nullptr;
  A fixedpoint = 0;
  int exponent = 0;
  const A* fixedpoint_pc = nullptr;
  const int* exponent_pc = nullptr;
  bool perchannel = false;
  D lo, hi;
  ruy::ChannelDimension dim = ruy::ChannelDimension::kRow;
  int rounding = 1;
  ParamsModel() {
    if (std::is_floating_point<D>::value) {
      lo = (D)-std::numeric_limits<double>::infinity();
      hi = (D)std::numeric_limits<double>::infinity();
    } else {
      lo = std::numeric_limits<D>::lowest();
      hi = std::numeric_limits<D>::max();
    }
  }
};

template <typename A, typename D>
void CompareParams(const ruy::MulParams<A, D>& p, const ParamsModel<A, D>& m) {
  if (p.bias() != m.bias) vd::Violation("bias", "bias differs from the one set");
  if (p.clamp_min() != m.lo) vd::Violation("clamp-min", "clamp_min is %g", (double)p.clamp_min());
  if (p.clamp_max() != m.hi) vd::Violation("clamp-max", "clamp_max is %g", (double)p.clamp_max());
  if (p.channel_dimension() != m.dim) vd::Violation("channel", "channel dimension differs");
  if (p.perchannel_buffers_capacity_rounding() != m.rounding)
    vd::Violation("rounding", "capacity rounding is %d, %d was set",
                  p.perchannel_buffers_capacity_rounding(), m.rounding);
  if (p.multiplier_fixedpoint() != (m.perchannel ? 0 : m.fixedpoint) ||
      p.multiplier_exponent() != (m.perchannel ? 0 : m.exponent))
    vd::Violation("multiplier", "uniform multiplier is %g * 2^%d",
                  (double)p.multiplier_fixedpoint(), p.multiplier_exponent());
  if (p.multiplier_fixedpoint_perchannel() != (m.perchannel ? m.fixedpoint_pc : nullptr) ||
      p.multiplier_exponent_perchannel() != (m.perchannel ? m.exponent_pc : nullptr))
    vd::Violation("multiplier-perchannel", "per-channel multiplier differs from the one set");
  vd::Compared(9);
}

// Setters that only some types have.
template <typename A, typename D, bool kMultiplier, bool kClamp>
struct Setters {
  using P = ruy::MulParams<A, D>;
  using M = ParamsModel<A, D>;
  static bool Multiplier(int op, P* p, M* m) {
    static A fp[2];
    static int ex[2];
    const bool uniform_clear = m->fixedpoint == 0 && m->exponent == 0;
    const bool pc_clear = !m->fixedpoint_pc && !m->exponent_pc;
    switch (op) {
      case 0: case 1: case 2:
        if (m->perchannel && !pc_clear) return false;
        m->perchannel = false;
        m->fixedpoint = op == 2 ? std::numeric_limits<A>::lowest() : op * 1234567;
        p->set_multiplier_fixedpoint(m->fixedpoint);
        return true;
      case 3: case 4: case 5:
        if (m->perchannel && !pc_clear) return false;
        m->perchannel = false;
        m->exponent = op == 5 ? -31 : (op - 3) * 7;
        p->set_multiplier_exponent(m->exponent);
        return true;
      case 6: case 7: case 8:
        if (!m->perchannel && !uniform_clear) return false;
        m->perchannel = true;
        m->fixedpoint_pc = op == 6 ? nullptr : &fp[op - 7];
        p->set_multiplier_fixedpoint_perchannel(m->fixedpoint_pc);
        return true;
      default:
        if (!m->perchannel && !uniform_clear) return false;
        m->perchannel = true;
        m->exponent_pc = op == 9 ? nullptr : &ex[op - 10];
        p->set_multiplier_exponent_perchannel(m->exponent_pc);
        return true;
    }
  }
};
template <typename A, typename D, bool kClamp>
struct Setters<A, D, false, kClamp> {
  static bool Multiplier(int, ruy::MulParams<A, D>*, ParamsModel<A, D>*) { return false; }
};
template <typename A, typename D, typename std::enable_if<!std::is_same<D, int32_t>::value, int>::type = 0>
bool Clamp(int op, ruy::MulParams<A, D>* p, ParamsModel<A, D>* m) {
  const D v[3] = {(D)-5, (D)100, std::numeric_limits<D>::lowest()};
  if (op < 3)
    p->set_clamp_min(m->lo = v[op]);
  else
    p->set_clamp_max(m->hi = v[op - 3]);
  return true;
}
template <typename A, typename D, typename std::enable_if<std::is_same<D, int32_t>::value, int>::type = 0>
bool Clamp(int, ruy::MulParams<A, D>*, ParamsModel<A, D>*) {
  return false;
}

template <typename A, typename D, bool kMultiplier>
void Params(const char* name, int first) {
  static A bias[2];
  const int depth = vd::Thorough() ? 5 : 4;
  Sequences(name, 12 + 6 + 3 + 2 + 4 + 1, depth, first, [&](const std::vector<int>& seq) {
    ruy::MulParams<A, D> p, q;
    ParamsModel<A, D> m;
    CompareParams(p, m);
    const ParamsModel<A, D> untouched;
    for (int op : seq) {
      if (op < 12) {
        if (!Setters<A, D, kMultiplier, true>::Multiplier(op, &p, &m)) return;
      } else if (op < 18) {
        if (!Clamp(op - 12, &p, &m)) return;
      } else if (op < 21) {
        m.bias = op == 18 ? nullptr : &bias[op - 19];
        p.set_bias(m.bias);
      } else if (op < 23) {
        m.dim = op == 21 ? ruy::ChannelDimension::kRow : ruy::ChannelDimension::kCol;
        p.set_channel_dimension(m.dim);
      } else if (op < 27) {
        const int v[4] = {1, 8, 64, 1 << 20};
        p.set_perchannel_buffers_capacity_rounding(m.rounding = v[op - 23]);
      } else {
        ruy::MulParams<A, D> copy(p);  // a copy carries everything
        p = copy;
        CompareParams(copy, m);
      }
      vd::Transition();
      CompareParams(p, m);
      vd::State(vd::mix(vd::mix(HashBytes(&m.lo, sizeof m.lo), HashBytes(&m.hi, sizeof m.hi)),
                        vd::mix((m.bias != nullptr) * 2 + (int)m.dim + m.rounding * 4,
                                vd::mix(m.fixedpoint * 64 + m.exponent,
                                        (m.fixedpoint_pc != nullptr) * 4 +
                                            (m.exponent_pc != nullptr) * 2 + m.perchannel))));
    }
    CompareParams(q, untouched);  // another object is unaffected
    vd::NonTrivial();
  });
}

// ---- matrices -----------------------------------------------------------------------
template <typename T>
struct MatrixModel {
  const T* data = nullptr;
  bool mut = true;
  int rows = 0, cols = 0, stride = 0;
  ruy::Order order = ruy::Order::kColMajor;
  T zp = 0;
  ruy::CachePolicy policy = ruy::CachePolicy::kNeverCache;
};
template <typename T>
void CompareMatrix(ruy::Matrix<T>& x, const MatrixModel<T>& m) {
  const ruy::Matrix<T>& c = x;
  if (c.data() != m.data || (m.mut && x.data() != m.data))
    vd::Violation("data", "data pointer differs from the one set");
  if (c.layout().rows() != m.rows || c.layout().cols() != m.cols ||
      c.layout().stride() != m.stride || c.layout().order() != m.order)
    vd::Violation("layout", "layout is %dx%d stride %d", c.layout().rows(), c.layout().cols(),
                  c.layout().stride());
  if (c.zero_point() != m.zp) vd::Violation("zero-point", "zero point is %g", (double)c.zero_point());
  if (c.cache_policy() != m.policy) vd::Violation("policy", "cache policy differs");
  const ruy::Mat<T> i = ruy::ToInternal(c);
  const ruy::EMat e = ruy::EraseType(i);
  const ruy::Mat<T> u = ruy::UneraseType<T>(e);
  for (auto* k : {&i, &u})
    if (k->data.get() != m.data || k->layout.rows != m.rows || k->layout.cols != m.cols ||
        k->layout.stride != m.stride || k->layout.order != m.order || k->zero_point != m.zp ||
        k->cache_policy != m.policy)
      vd::Violation("internal", "the internal form differs from the matrix");
  if (e.zero_point != (int32_t)m.zp || e.data != m.data || e.data_type.size != sizeof(T) ||
      e.data_type.is_signed != std::is_signed<T>::value ||
      e.data_type.is_floating_point != std::is_floating_point<T>::value)
    vd::Violation("erased", "the type-erased form differs from the matrix");
  vd::Compared(8);
}

template <typename T>
void Matrices(const char* name, int first) {
  static T data[2];
  Sequences(name, 24, vd::Thorough() ? 5 : 4, first, [&](const std::vector<int>& seq) {
    ruy::Matrix<T> x;
    MatrixModel<T> m;
    CompareMatrix(x, m);
    for (int op : seq) {
      switch (op) {
        case 0: case 1:
          x.set_data(&data[op]);
          m.data = &data[op];
          m.mut = true;
          break;
        case 2:
          x.set_data((const T*)&data[1]);
          m.data = &data[1];
          m.mut = false;
          break;
        case 3:
          x.set_data(nullptr);
          m.data = nullptr;
          break;
        case 4: case 5: case 6:
          x.mutable_layout()->set_rows(m.rows = (op - 4) * 1000003);
          break;
        case 7: case 8: case 9:
          x.mutable_layout()->set_cols(m.cols = (op - 7) * 70000);
          break;
        case 10: case 11: case 12:
          x.mutable_layout()->set_stride(m.stride = (op - 10) * 66000);
          break;
        case 13: case 14:
          m.order = op == 13 ? ruy::Order::kColMajor : ruy::Order::kRowMajor;
          x.mutable_layout()->set_order(m.order);
          break;
        case 15: case 16: case 17:
          m.zp = op == 15 ? std::numeric_limits<T>::lowest() : op == 16 ? std::numeric_limits<T>::max() : 0;
          if (std::is_floating_point<T>::value) m.zp = op - 15;
          x.set_zero_point(m.zp);
          break;
        case 18: case 19: case 20:
          m.policy = (ruy::CachePolicy)(op - 18 + (op == 20));
          x.set_cache_policy(m.policy);
          break;
        case 21: case 22:
          m.rows = 3;
          m.cols = 5;
          m.order = op == 21 ? ruy::Order::kColMajor : ruy::Order::kRowMajor;
          m.stride = op == 21 ? 3 : 5;
          ruy::MakeSimpleLayout(3, 5, m.order, x.mutable_layout());
          break;
        default: {
          ruy::Matrix<T> copy(x);
          x = copy;
        }
      }
      vd::Transition();
      CompareMatrix(x, m);
      vd::State(vd::mix(vd::mix(m.rows, m.cols),
                        vd::mix(m.stride * 2 + (int)m.order,
                                (m.data ? 1 + (m.data - data) : 0) * 512 + (int)m.policy * 2 +
                                    m.mut + (long)m.zp * 4096)));
    }
    vd::NonTrivial();
  });
}

// ---- context settings ------------------------------------------------------------------
void Contexts(int first) {
  Sequences("context", 14, vd::Thorough() ? 6 : 5, first, [&](const std::vector<int>& seq) {
    ruy::Context ctx, other;
    int threads = 1, tuning = (int)ruy::Tuning::kAuto, force = 0, paths = -1;
    float spin = ctx.thread_pool().spin_milliseconds();
    auto compare = [&] {
      if (ctx.max_num_threads() != threads)
        vd::Violation("threads", "thread limit is %d, %d was set", ctx.max_num_threads(), threads);
      if ((int)ctx.explicit_tuning() != tuning) vd::Violation("tuning", "tuning differs");
      if ((int)ctx.num_threads_strategy() != force) vd::Violation("strategy", "strategy differs");
      if (paths >= 0 && (int)ctx.get_runtime_enabled_paths() != paths)
        vd::Violation("paths", "paths are 0x%x, 0x%x was set", (int)ctx.get_runtime_enabled_paths(),
                      paths);
      if (ctx.thread_pool().spin_milliseconds() != spin)
        vd::Violation("spin", "spin duration is %g, %g was set",
                      ctx.thread_pool().spin_milliseconds(), spin);
      vd::Compared(5);
    };
    compare();
    for (int op : seq) {
      switch (op) {
        case 0: case 1: case 2:
          threads = op == 2 ? 1000 : op + 1;
          ctx.set_max_num_threads(threads);
          break;
        case 3: case 4: case 5: case 6:
          tuning = op - 3;
          ctx.set_explicit_tuning((ruy::Tuning)tuning);
          break;
        case 7: case 8:
          force = op - 7;
          ctx.set_num_threads_strategy((ruy::NumThreadsStrategy)force);
          break;
        case 9: case 10: {
          const int p = op == 9 ? 0x10 : 0x40;
          ctx.set_runtime_enabled_paths((ruy::Path)p);
          paths = p | 1;
          break;
        }
        case 11:
          ctx.ClearPrepackedCache();
          break;
        default:
          spin = op == 12 ? 0 : 7;
          ctx.mutable_thread_pool()->set_spin_milliseconds(spin);
      }
      vd::Transition();
      compare();
      vd::State(vd::mix(threads * 64 + tuning * 8 + force, vd::mix(paths + 1, (long)(spin * 4))));
    }
    if (other.max_num_threads() != 1 || other.explicit_tuning() != ruy::Tuning::kAuto ||
        other.num_threads_strategy() != ruy::NumThreadsStrategy::kDefault)
      vd::Violation("other", "another context was affected");
    vd::NonTrivial();
  });
}

// ---- derived layout facts -----------------------------------------------------------------
void Layouts() {
  std::vector<ruy::MatLayout> all;
  for (int rows = 1; rows <= 7; rows++)
    for (int cols = 1; cols <= 7; cols++)
      for (int order = 0; order < 2; order++)
        for (int pad = 0; pad <= 3; pad++) {
          const ruy::Order o = order ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
          ruy::MatLayout l;
          l.rows = rows;
          l.cols = cols;
          l.stride = (order ? cols : rows) + pad;
          l.order = o;
          all.push_back(l);
          if (!vd::Begin("layout %dx%d %s +%d", rows, cols, order ? "rm" : "cm", pad)) continue;
          static int cells[1000];
          for (int i = 0; i < 1000; i++) cells[i] = i;
          ruy::Matrix<int> mat;
          mat.set_data(cells);
          mat.mutable_layout()->set_rows(rows);
          mat.mutable_layout()->set_cols(cols);
          mat.mutable_layout()->set_stride(l.stride);
          mat.mutable_layout()->set_order(o);
          const ruy::Matrix<int>& cmat = mat;
          ruy::Mat<int> in = ruy::ToInternal(mat);
          const ruy::Mat<int> tr = ruy::Transpose(in);
          long top = 0;
          for (int r = 0; r < rows; r++)
            for (int c = 0; c < cols; c++) {
              const int want = order ? r * l.stride + c : c * l.stride + r;
              top = std::max<long>(top, want);
              if (ruy::Offset(l, r, c) != want || ruy::Offset(mat.layout(), r, c) != want ||
                  ruy::Element(cmat, r, c) != want || ruy::ElementPtr(&mat, r, c) != cells + want ||
                  ruy::ElementPtr(cmat, r, c) != cells + want || ruy::Element(in, r, c) != want ||
                  ruy::ElementPtr(in, r, c) != cells + want)
                vd::Violation("offset", "entry (%d,%d) is not at %d", r, c, want);
              if (ruy::Element(tr, c, r) != want)
                vd::Violation("transpose", "entry (%d,%d) of the transpose differs", c, r);
              vd::Transition(8);
              vd::Compared(8);
            }
          if (ruy::FlatSize(l) <= top || ruy::FlatSize(l) != (long)l.stride * (order ? rows : cols))
            vd::Violation("flat-size", "flat size is %ld", (long)ruy::FlatSize(l));
          if (ruy::IsUnstrided(l) != (pad == 0) || ruy::IsRowMajor(l) != (order == 1) ||
              ruy::IsColMajor(l) != (order == 0))
            vd::Violation("facts", "order or packedness is wrong");
          const ruy::MatLayout tt = ruy::Transpose(ruy::Transpose(l));
          if (!(tt == l) || tr.layout.rows != cols || tr.layout.cols != rows ||
              tr.layout.stride != l.stride || ruy::IsRowMajor(tr.layout) == ruy::IsRowMajor(l))
            vd::Violation("transpose", "transposed layout is wrong");
          ruy::Layout simple;
          ruy::MakeSimpleLayout(rows, cols, o, &simple);
          if (simple.rows() != rows || simple.cols() != cols || simple.order() != o ||
              simple.stride() != (order ? cols : rows))
            vd::Violation("simple", "simple layout is wrong");
          vd::Transition(6);
          vd::Compared(6);
          vd::State(rows * 1000 + cols * 100 + order * 10 + pad);
        }
  // Sizes beyond 32 bits.
  for (int rows : {1, 46341, 65536, 100000, 2147483647})
    for (int cols : {1, 46341, 65536, 100000, 2147483647})
      for (int order = 0; order < 2; order++) {
        if (!vd::Begin("large layout %dx%d order=%d", rows, cols, order)) continue;
        ruy::MatLayout l;
        l.rows = rows;
        l.cols = cols;
        l.order = order ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
        l.stride = order ? cols : rows;
        if (ruy::FlatSize(l) != (long)rows * cols)
          vd::Violation("large-size", "flat size is %ld", (long)ruy::FlatSize(l));
        vd::Transition();
        vd::Compared(1);
        vd::State(vd::mix(vd::mix(rows, cols), order + 77));
      }
  if (vd::Begin("layout equality"))
    for (size_t i = 0; i < all.size(); i++)
      for (size_t j = 0; j < all.size(); j++) {
        if ((all[i] == all[j]) != (i == j))
          vd::Violation("equality", "layouts %d and %d compare wrongly", (int)i, (int)j);
        vd::Transition();
        vd::Compared(1);
      }
}

// Packed layouts: positions are those of the documented four-dimensional array.
void PackedLayouts() {
  std::vector<ruy::PMatLayout> all;
  for (int kr : {1, 2, 4, 8, 16})
    for (int kc : {1, 2, 4, 8, 16})
      for (int korder = 0; korder < 2; korder++)
        for (int order = 0; order < 2; order++)
          for (int br = 1; br <= 3; br++)
            for (int bc = 1; bc <= 3; bc++)
              for (int pad = 0; pad < 2; pad++) {
                ruy::PMatLayout l;
                l.rows = kr * br;
                l.cols = kc * bc;
                l.order = order ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
                l.stride = (order ? l.cols : l.rows) + pad * (order ? kc : kr);
                l.kernel.rows = kr;
                l.kernel.cols = kc;
                l.kernel.order = korder ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
                all.push_back(l);
                if (!vd::Begin("packed %dx%d of %dx%d kernel=%d order=%d pad=%d", l.rows, l.cols,
                               kr, kc, korder, order, pad))
                  continue;
                for (int r = 0; r < l.rows; r++)
                  for (int c = 0; c < l.cols; c++) {
                    const int inner = korder ? r % kr * kc + c % kc : c % kc * kr + r % kr;
                    const int blocks = order ? (r / kr) * (l.stride / kc) + c / kc
                                             : (c / kc) * (l.stride / kr) + r / kr;
                    const int want = blocks * kr * kc + inner;
                    if (ruy::Offset(l, r, c) != want)
                      vd::Violation("packed-offset", "entry (%d,%d) is at %d, expected %d", r, c,
                                    ruy::Offset(l, r, c), want);
                    if (want >= ruy::FlatSize(l))
                      vd::Violation("packed-size", "entry (%d,%d) lies past the flat size", r, c);
                    vd::Transition();
                    vd::Compared(2);
                  }
                if (ruy::IsUnstrided(l) != !pad || ruy::IsRowMajor(l) != (order == 1) ||
                    ruy::IsColMajor(l) != (order == 0) ||
                    ruy::FlatSize(l) != (long)l.stride * (order ? l.rows : l.cols))
                  vd::Violation("packed-facts", "order, packedness or size is wrong");
                ruy::PEMat e;
                e.layout = l;
                e.data_type = ruy::Type::Create<int16_t>();
                e.sums_type = ruy::Type::Create<int32_t>();
                if (ruy::DataBytes(e) != 2 * ruy::FlatSize(l) || ruy::SumsBytes(e) != 4 * l.cols)
                  vd::Violation("packed-bytes", "byte sizes are wrong");
                vd::Transition(6);
                vd::Compared(6);
                vd::State(vd::mix(kr * 64 + kc, vd::mix(br * 8 + bc, korder * 4 + order * 2 + pad)));
              }
  for (int rows : {16, 46352, 65536, 100000, 1 << 30})
    for (int cols : {16, 46352, 65536, 100000, 1 << 28})
      for (int order = 0; order < 2; order++)
        for (int size : {1, 2, 4, 8}) {
          if (!vd::Begin("large packed %dx%d order=%d size=%d", rows, cols, order, size)) continue;
          ruy::PEMat e;
          e.layout.rows = rows;
          e.layout.cols = cols;
          e.layout.order = order ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
          e.layout.stride = order ? cols : rows;
          e.layout.kernel.rows = 4;
          e.layout.kernel.cols = 16;
          e.data_type = size == 1   ? ruy::Type::Create<int8_t>()
                        : size == 2 ? ruy::Type::Create<int16_t>()
                        : size == 4 ? ruy::Type::Create<float>()
                                    : ruy::Type::Create<double>();
          e.sums_type = ruy::Type::Create<int32_t>();
          if (ruy::FlatSize(e.layout) != (long)rows * cols || ruy::DataBytes(e) != (long)rows * cols * size ||
              ruy::SumsBytes(e) != 4L * cols)
            vd::Violation("large-packed", "size %ld, bytes %ld, sums %ld", (long)ruy::FlatSize(e.layout),
                          (long)ruy::DataBytes(e), (long)ruy::SumsBytes(e));
          vd::Transition(3);
          vd::Compared(3);
          vd::State(vd::mix(vd::mix(rows, cols), order * 16 + size + 1000));
        }
  if (vd::Begin("packed equality"))
    for (size_t i = 0; i < all.size(); i++)
      for (size_t j = 0; j < all.size(); j++) {
        // Distinct parameters may describe the same fields.
        const bool same =
            all[i].rows == all[j].rows && all[i].cols == all[j].cols &&
            all[i].stride == all[j].stride && all[i].order == all[j].order &&
            all[i].kernel.rows == all[j].kernel.rows && all[i].kernel.cols == all[j].kernel.cols &&
            all[i].kernel.order == all[j].kernel.order;
        if ((all[i] == all[j]) != same)
          vd::Violation("equality", "packed layouts %d and %d compare wrongly", (int)i, (int)j);
        vd::Transition();
        vd::Compared(1);
      }
  // Large ones: byte sizes beyond 31 bits.
  for (int rows : {1 << 16, 1 << 17})
    for (int cols : {1 << 14, 1 << 16, 1 << 17})
      for (int size : {1, 2, 4, 8}) {
        if (!vd::Begin("packed large %dx%d size=%d", rows, cols, size)) continue;
        ruy::PEMat e;
        e.layout.rows = e.layout.stride = rows;
        e.layout.cols = cols;
        e.data_type.size = size;
        e.sums_type.size = 4;
        if (ruy::DataBytes(e) != (long)rows * cols * size || ruy::SumsBytes(e) != 4l * cols)
          vd::Violation("packed-bytes", "byte size is %ld", (long)ruy::DataBytes(e));
        vd::Transition(2);
        vd::Compared(2);
      }
}

// ---- rounding helpers -----------------------------------------------------------------
// Every positive 32-bit integer.
void Pot32(int part, int parts) {
  const long top = 1l << 31;
  const long from = top / parts * part, to = part == parts - 1 ? top : top / parts * (part + 1);
  if (!vd::Begin("powers of two %ld..%ld", from, to)) return;
  int log = -1;
  for (long n = std::max(from, 1l); n < to; n++) {
    if (log < 0)
      for (log = 0; (2l << log) <= n;) log++;
    else if ((2l << log) <= n)
      log++;
    const int v = (int)n;
    const bool pot = n == 1l << log;
    bool ok = ruy::floor_log2(v) == log && ruy::ceil_log2(v) == log + !pot &&
              ruy::is_pot(v) == pot && ruy::round_down_pot(v) == 1 << log;
    if (pot) ok &= ruy::pot_log2(v) == log;
    if (n <= 1 << 30) ok &= ruy::round_up_pot(v) == 1 << (log + !pot);
    if (!ok) vd::Violation("pot", "power-of-two helper wrong for %d", v);
    if ((n & 0xfffffff) == 0 && vd::OutOfTime()) return;
  }
  vd::Transition(4 * (to - from));
  vd::Compared(4 * (to - from));
  vd::State(from);
  vd::NonTrivial();
}
void Pot64() {
  for (int bit = 0; bit < 63; bit++)
    for (long delta = -600; delta <= 600; delta++) {
      const __int128 w = ((__int128)1 << bit) + delta;
      if (w < 1 || w > (__int128)INT64_MAX) continue;
      const int64_t n = (int64_t)w;
      if (!vd::Begin("powers of two %ld", n)) continue;
      int log = 0;
      while (log < 62 && ((__int128)2 << log) <= w) log++;
      const bool pot = w == (__int128)1 << log;
      bool ok = ruy::floor_log2(n) == log && ruy::ceil_log2(n) == log + !pot &&
                ruy::is_pot(n) == pot && ruy::round_down_pot(n) == (int64_t)1 << log;
      if (pot) ok &= ruy::pot_log2(n) == log;
      if (n <= (int64_t)1 << 62) ok &= ruy::round_up_pot(n) == (int64_t)1 << (log + !pot);
      if (!ok) vd::Violation("pot", "power-of-two helper wrong for %ld", n);
      vd::Transition(5);
      vd::Compared(5);
      vd::State(n);
    }
  for (int v = -3; v <= 0; v++) {
    if (!vd::Begin("is_pot %d", v)) continue;
    if (ruy::is_pot(v) || ruy::is_pot((int64_t)v)) vd::Violation("pot", "%d is no power of two", v);
    vd::Transition(2);
    vd::Compared(2);
  }
  // Rounding to a modulus.
  for (int log = 0; log <= 20; log++)
    for (long v = 0; v <= 5000; v++) {
      const long mod = 1l << log;
      if (!vd::Begin("modulus %ld value %ld", mod, v)) continue;
      const long down = v / mod * mod, up = (v + mod - 1) / mod * mod;
      if (ruy::round_down_pot((int)v, (int)mod) != down || ruy::round_up_pot((int)v, (int)mod) != up ||
          ruy::round_down_pot(v, mod) != down || ruy::round_up_pot(v, mod) != up ||
          ruy::round_down_pot(v, (int)mod) != down || ruy::round_up_pot(v, (int)mod) != up)
        vd::Violation("modulus", "rounding %ld to a multiple of %ld is wrong", v, mod);
      const long big = (5l << 40) + v;
      if (ruy::round_down_pot(big, mod) != big / mod * mod ||
          ruy::round_up_pot(big, mod) != (big + mod - 1) / mod * mod)
        vd::Violation("modulus", "rounding %ld to a multiple of %ld is wrong", big, mod);
      vd::Transition(8);
      vd::Compared(8);
      vd::State(log * 10000 + v);
    }
}

}  // namespace

int main(int argc, char** argv) {
  unsetenv("RUY_PATHS");
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    for (int i = 0; i < 28; i++) {
      jobs.emplace_back(vd::Str("params-i8-%d", i), [=] { Params<int32_t, int8_t, true>("params i8", i); }, 2);
      jobs.emplace_back(vd::Str("params-u8-%d", i), [=] { Params<int32_t, uint8_t, true>("params u8", i); }, 2);
      jobs.emplace_back(vd::Str("params-i16-%d", i), [=] { Params<int32_t, int16_t, true>("params i16", i); }, 2);
      jobs.emplace_back(vd::Str("params-i32-%d", i), [=] { Params<int32_t, int32_t, false>("params i32", i); });
      jobs.emplace_back(vd::Str("params-f32-%d", i), [=] { Params<float, float, false>("params f32", i); });
      jobs.emplace_back(vd::Str("params-f64-%d", i), [=] { Params<double, double, false>("params f64", i); });
      if (i < 24) {
        jobs.emplace_back(vd::Str("matrix-u8-%d", i), [=] { Matrices<uint8_t>("matrix u8", i); });
        jobs.emplace_back(vd::Str("matrix-i16-%d", i), [=] { Matrices<int16_t>("matrix i16", i); });
        jobs.emplace_back(vd::Str("matrix-f32-%d", i), [=] { Matrices<float>("matrix f32", i); });
      }
      if (i < 14) jobs.emplace_back(vd::Str("context-%d", i), [=] { Contexts(i); });
    }
    jobs.emplace_back("layouts", [] { Layouts(); });
    jobs.emplace_back("packed", [] { PackedLayouts(); });
    jobs.emplace_back("pot64", [] { Pot64(); });
    for (int i = 0; i < 16; i++) jobs.emplace_back(vd::Str("pot32-%d", i), [=] { Pot32(i, 16); }, 5);
    return jobs;
  });
}
