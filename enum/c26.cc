// C26: an entry of the destination depends on nothing but its row, its column and
// the parameters. One large multiplication fixes every entry; every part of it,
// computed on its own in every arrangement, must agree in every bit.
#include "mulproblem.h"
#include "ruy/context_get_ctx.h"
#include "ruy/cpu_cache_params.h"
#include "ruy/cpuinfo.h"
#include "ruy/ctx.h"
#include "ruy/thread_pool.h"

namespace {

uint32_t Hash(uint32_t a, uint32_t b, uint32_t c) {
  uint32_t h = a * 2654435761u ^ (b + 0x9e3779b9u) * 40503u ^ (c + 77) * 2246822519u;
  h ^= h >> 15;
  h *= 2246822519u;
  h ^= h >> 13;
  h *= 3266489917u;
  return h ^ h >> 16;
}
// Values whose products and sums are not representable.
double Value(Scalar s, int side, int line, int d) {
  const uint32_t h = Hash(side, line, d);
  if (IsFloat(s)) return ((int)(h % 20001) - 10000) / 997.0 * std::ldexp(1.0, (int)(h >> 20) % 9 - 4);
  return (double)(Lowest(s) + (long)(h % (uint32_t)(Highest(s) - Lowest(s) + 1)));
}

struct How {
  const char* name;
  int bias, col, clamp;
  int mult;  // 0 one factor, 1 per channel
  int zp;
};
const How kHow[] = {
    {"plain", 0, 0, 0, 0, 0}, {"bias", 1, 0, 1, 0, 1}, {"perrow", 1, 0, 0, 1, 4}, {"percol", 1, 1, 0, 1, 1},
};

const int kSize = 80;
int32_t qbias[kSize], qfp[kSize];
int qex[kSize];
float fbias[kSize];
double dbias[kSize];

struct Whole {
  int types, k;
  How how;
  Zps z;
  // kSize x kSize, row by row. Where an operand has 16 bits there are vector kernels
  // for one order of the operands only, and they round differently, so that the
  // destination's storage order makes a difference: one result for each.
  std::vector<char> want[2];
};

std::vector<char> bl, br, bd;

// Rows i0.. and columns j0.. of the product.
void Part(const Whole& w, int i0, int m, int j0, int n, int orders, int pad, int cache, ruy::Context* ctx,
          MulDesc* q) {
  const Types& t = kTypes[w.types];
  q->types = w.types;
  LayoutOf(&q->l, m, w.k, orders & 1, pad ? 3 : 0);
  LayoutOf(&q->r, w.k, n, (orders >> 1) & 1, pad ? 1 : 0);
  LayoutOf(&q->d, m, n, (orders >> 2) & 1, pad ? 2 : 0);
  auto size = [](const MatDesc& x) { return (size_t)x.stride * (x.row_major ? x.rows : x.cols); };
  bl.assign(size(q->l) * SizeOf(t.l) + 64, 0x7d);
  br.assign(size(q->r) * SizeOf(t.r) + 64, 0x7d);
  bd.assign(size(q->d) * SizeOf(t.d) + 64, 0x31);
  for (int d = 0; d < w.k; d++) {
    for (int i = 0; i < m; i++) Store(t.l, bl.data(), q->l.At(i, d), Value(t.l, 1, i0 + i, d));
    for (int j = 0; j < n; j++) Store(t.r, br.data(), q->r.At(d, j), Value(t.r, 2, j0 + j, d));
  }
  q->l.data = bl.data();
  q->r.data = br.data();
  q->d.data = bd.data();
  q->l.zp = w.z.l;
  q->r.zp = w.z.r;
  q->d.zp = w.z.d;
  q->l.cache = cache & 1 ? 3 : 0;
  q->r.cache = cache & 2 ? 3 : 0;
  q->channel_is_col = w.how.col;
  const int c0 = w.how.col ? j0 : i0;
  if (w.how.bias)
    q->bias = t.a == F32 ? (const void*)(fbias + c0)
                         : t.a == F64 ? (const void*)(dbias + c0) : (const void*)(qbias + c0);
  if (!IsFloat(t.a) && t.d != I32) {
    if (w.how.mult) {
      q->fixedpoint_pc = qfp + c0;
      q->exponent_pc = qex + c0;
    } else {
      q->uniform_multiplier = true;
      q->fixedpoint = 1518500249;
      q->exponent = qex[0];
    }
  }
  if (w.how.clamp && t.d != I32) {
    q->clamp = true;
    q->clamp_min = IsFloat(t.d) ? -300.123 : Lowest(t.d) + 13;
    q->clamp_max = IsFloat(t.d) ? 311.7 : Highest(t.d) - 22;
  }
  q->ctx = ctx;
}

Whole Make(int types, int k, const How& how, const PathName& path) {
  Whole w;
  w.types = types;
  w.k = k;
  w.how = how;
  const Types& t = kTypes[types];
  w.z = ZeroPoints(t, how.zp);
  // Scale so that the results cover the destination's range.
  int e = 0;
  if (!IsFloat(t.a)) {
    const double spread = std::sqrt((double)k) * (Highest(t.l) - Lowest(t.l)) / 3.5 * (Highest(t.r) - Lowest(t.r)) / 3.5;
    e = (int)std::floor(std::log2((Highest(t.d) - Lowest(t.d)) / 3.0 / spread));
  }
  for (int c = 0; c < kSize; c++) {
    qbias[c] = (int)(Hash(3, c, 0) % 2001) - 1000;
    fbias[c] = Value(F32, 3, c, 0);
    dbias[c] = Value(F64, 3, c, 0);
    qfp[c] = (1 << 30) + Hash(4, c, 0) % (1u << 30);
    qex[c] = e + c % 3 - 1;
  }
  ruy::Context ctx;
  Setup(&ctx, path);
  const int size = SizeOf(t.d);
  for (int order = 0; order < 2; order++) {
    if (order && t.l != I16 && t.r != I16) {
      w.want[1] = w.want[0];
      continue;
    }
    MulDesc q;
    Part(w, 0, kSize, 0, kSize, order ? 5 : 1, 0, 0, &ctx, &q);
    Mul(q);
    w.want[order].resize((size_t)kSize * kSize * size);
    for (int i = 0; i < kSize; i++)
      for (int j = 0; j < kSize; j++)
        memcpy(&w.want[order][((size_t)i * kSize + j) * size], &bd[q.d.At(i, j) * size], size);
  }
  return w;
}

void OneCase(const Whole& w, int i0, int m, int j0, int n, int orders, int pad, int cache, int threads, int caches,
             ruy::Context* ctx, const PathName& path) {
  const Types& t = kTypes[w.types];
  if (!vd::Begin("%s %s k=%d how=%s rows=%d+%d cols=%d+%d orders=%c%c%c pad=%d cache=%d threads=%d caches=%d", t.name,
                 path.name, w.k, w.how.name, i0, m, j0, n, orders & 1 ? 'r' : 'c', orders & 2 ? 'r' : 'c',
                 orders & 4 ? 'r' : 'c', pad, cache, threads, caches))
    return;
  MulDesc q;
  Part(w, i0, m, j0, n, orders, pad, cache, ctx, &q);
  const int size = SizeOf(t.d);
  const std::vector<char>& want = w.want[orders >> 2];
  for (int rep = 0; rep < (cache ? 2 : 1); rep++) {
    if (rep) std::fill(bd.begin(), bd.end(), 0x31);
    Mul(q);
    vd::Transition();
    for (int i = 0; i < m; i++)
      for (int j = 0; j < n; j++)
        if (memcmp(&bd[q.d.At(i, j) * size], &want[((size_t)(i0 + i) * kSize + j0 + j) * size], size))
          vd::Violation("differs", "entry (%d,%d) is %.17g when computed as part of %dx%d and %.17g as part of %dx%d",
                        i0 + i, j0 + j, Load(t.d, bd.data(), q.d.At(i, j)), m, n,
                        Load(t.d, want.data(), (i0 + i) * kSize + j0 + j), kSize, kSize);
    vd::Compared((unsigned long long)m * n);
  }
  if (cache) ctx->ClearPrepackedCache();
  vd::State(vd::mix(HashBytes(bd.data(), bd.size()), orders));
  vd::NonTrivial();
}

std::vector<int> Depths(const PathName& path) {
  if (!Vector(path)) return {1, 2, 7, 33};
  if (vd::Thorough()) return Range(1, 18, {31, 32, 33, 64, 65, 129});
  return {1, 2, 3, 5, 8, 9, 16, 17, 33, 65};
}

// All small parts at several places.
void Parts(int types, const PathName& path, int h) {
  ruy::Context ctx;
  Setup(&ctx, path);
  const bool vec = Vector(path);
  const std::vector<int> sizes =
      !vec ? std::vector<int>{1, 2, 3, 5, 8, 9, 17}
           : vd::Thorough() ? Range(1, 20, {24, 25, 31, 32, 33, 48, 49})
                            : std::vector<int>{1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33};
  for (int k : Depths(path)) {
    const Whole w = Make(types, k, kHow[h], path);
    for (int m : sizes)
      for (int n : sizes) {
        if (vd::OutOfTime()) return;
        for (int o = 0; o < 8; o++) {
          const int i0 = (o * 5 + m) % (kSize - m), j0 = (o * 7 + n * 3) % (kSize - n);
          OneCase(w, i0, m, j0, n, o, o & 1, 0, 1, 0, &ctx, path);
        }
      }
  }
}

// Larger parts, divided into blocks, by several threads, with cached operands.
void Divided(int types, const PathName& path, int h) {
  const std::vector<int> sizes = vd::Thorough() ? std::vector<int>{1, 9, 17, 33, 40, 63, 64, 65, 79}
                                                : std::vector<int>{1, 17, 40, 79};
  for (int k : {7, 66}) {
    const Whole w = Make(types, k, kHow[h], path);
    for (int caches = 0; caches < 3; caches++)
      for (int threads : {1, 2, 3}) {
        ruy::Context ctx;
        Setup(&ctx, path, threads);
        auto& c = const_cast<ruy::CpuCacheParams&>(ruy::get_ctx(&ctx)->mutable_cpuinfo()->CacheParams());
        c.local_cache_size = caches ? 512 : 1 << 20;
        c.last_level_cache_size = caches == 2 ? 2048 : 1 << 22;
        ctx.mutable_thread_pool()->set_spin_milliseconds(0);
        for (int m : sizes)
          for (int n : sizes) {
            if (vd::OutOfTime()) return;
            for (int cache = 0; cache < 4; cache++)
              for (int o : {0, 6}) OneCase(w, kSize - m, m, 0, n, o, 0, cache, threads, caches, &ctx, path);
          }
      }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    for (int t = 0; t < kNumTypes; t++)
      for (auto& p : RunnablePaths())
        for (int h = 0; h < 4; h++) {
          const PathName pn = p;
          if (IsFloat(kTypes[t].a) && h == 2) continue;
          jobs.emplace_back(vd::Str("parts-%s-%s-%s", kTypes[t].name, p.name, kHow[h].name),
                            [=] { Parts(t, pn, h); }, Vector(p) ? 2 : 1);
          if (h == 1 || h == 3)
            jobs.emplace_back(vd::Str("divided-%s-%s-%s", kTypes[t].name, p.name, kHow[h].name),
                              [=] { Divided(t, pn, h); }, 3);
        }
    return jobs;
  });
}
