// C21: what the hardware reports, and what is made of it.
//
// The library that describes the hardware is replaced by one whose answers are
// enumerated.
#include <cpuinfo.h>
#include <stdlib.h>

#include <algorithm>

#include "mulproblem.h"
#include "ruy/block_map.h"
#include "ruy/context_get_ctx.h"
#include "ruy/cpu_cache_params.h"
#include "ruy/cpuinfo.h"
#include "ruy/ctx.h"

namespace {

const int kMaxProcessors = 6;

// The simulated machine.
struct Machine {
  bool init_ok = true;
  int processors = 1;
  cpuinfo_core cores[kMaxProcessors];
  cpuinfo_processor processor[kMaxProcessors];
  cpuinfo_cache caches[3][kMaxProcessors];
  bool has_uarch = true;
  cpuinfo_uarch uarch = cpuinfo_uarch_unknown;
} g_machine;
long g_init_calls, g_init_ok, g_deinit_calls;

}  // namespace

extern "C" {
struct cpuinfo_x86_isa cpuinfo_isa;
bool cpuinfo_initialize(void) {
  g_init_calls++;
  g_init_ok += g_machine.init_ok;
  return g_machine.init_ok;
}
void cpuinfo_deinitialize(void) { g_deinit_calls++; }
uint32_t cpuinfo_get_processors_count(void) { return g_machine.processors; }
const struct cpuinfo_processor* cpuinfo_get_processor(uint32_t i) {
  return i < (uint32_t)g_machine.processors ? &g_machine.processor[i] : nullptr;
}
const struct cpuinfo_processor* cpuinfo_get_processors(void) { return g_machine.processor; }
uint32_t cpuinfo_get_current_uarch_index(void) { return 0; }
uint32_t cpuinfo_get_current_uarch_index_with_default(uint32_t) { return 0; }
const struct cpuinfo_uarch_info* cpuinfo_get_uarch(uint32_t) {
  static cpuinfo_uarch_info info;
  info.uarch = g_machine.uarch;
  return g_machine.has_uarch ? &info : nullptr;
}
}

namespace {

// ---- machines ---------------------------------------------------------------

// What one level of cache looks like.
enum Level {
  kAbsent,
  kPerCore,       // one for each core
  kShared,        // one for all cores
  kNoProcessors,  // reported without the processors it serves
  kUnknown,       // serves processors that cannot be looked up
  kLevels
};

// Fills in a machine; sizes[level][core].
void MakeMachine(int cores, int smt, const Level* levels, const int sizes[3][3]) {
  Machine& m = g_machine;
  m.init_ok = true;
  m.processors = cores * smt;
  for (int p = 0; p < m.processors; p++) {
    memset(&m.processor[p], 0, sizeof m.processor[p]);
    m.processor[p].core = &m.cores[p / smt];
    for (int l = 0; l < 3; l++) {
      if (levels[l] == kAbsent) continue;
      const int core = p / smt;
      cpuinfo_cache* c = &m.caches[l][levels[l] == kPerCore ? core : 0];
      memset(c, 0, sizeof *c);
      c->size = sizes[l][levels[l] == kPerCore ? core : 0];
      c->processor_start = levels[l] == kPerCore ? core * smt : 0;
      c->processor_count = levels[l] == kPerCore ? smt : m.processors;
      if (levels[l] == kNoProcessors) c->processor_count = 0;
      if (levels[l] == kUnknown) c->processor_start = 1000;
      (l == 0 ? m.processor[p].cache.l1d : l == 1 ? m.processor[p].cache.l2 : m.processor[p].cache.l3) = c;
    }
  }
}

// The documented meaning. Returns false if some core has no usable cache.
bool Expected(int cores, int smt, const Level* levels, const int sizes[3][3], int* local, int* last) {
  *local = *last = 2147483647;
  for (int core = 0; core < cores; core++) {
    int own = 0, any = 0;
    for (int l = 0; l < 3; l++) {
      if (levels[l] != kPerCore && levels[l] != kShared) continue;
      const int size = sizes[l][levels[l] == kPerCore ? core : 0];
      any = size;
      if (levels[l] == kPerCore || cores == 1) own = size;
    }
    if (!any) return false;
    *local = std::min(*local, own ? own : any);
    *last = std::min(*last, any);
  }
  return true;
}

void SetFeatures(unsigned bits) {
  memset(&cpuinfo_isa, 0, sizeof cpuinfo_isa);
  cpuinfo_isa.sse4_2 = true;
  cpuinfo_isa.avx = bits & 1;
  cpuinfo_isa.avx2 = bits & 2;
  cpuinfo_isa.fma3 = bits & 4;
  cpuinfo_isa.avx512f = bits & 8;
  cpuinfo_isa.avx512cd = bits & 16;
  cpuinfo_isa.avx512dq = bits & 32;
  cpuinfo_isa.avx512bw = bits & 64;
  cpuinfo_isa.avx512vl = bits & 128;
  cpuinfo_isa.avx512vnni = bits & 256;
}
// Feature sets that hardware can have: each one requires the ones it builds upon.
bool Possible(unsigned bits) {
  if ((bits & 6) && !(bits & 1)) return false;
  if ((bits & 8) && (bits & 6) != 6) return false;
  if ((bits & ~15u) && !(bits & 8)) return false;
  return true;
}
unsigned HostFeatures() {
  unsigned b = 0;
  if (__builtin_cpu_supports("avx")) b |= 1;
  if (__builtin_cpu_supports("avx2")) b |= 2;
  if (__builtin_cpu_supports("fma")) b |= 4;
  if (__builtin_cpu_supports("avx512f")) b |= 8;
  if (__builtin_cpu_supports("avx512cd")) b |= 16;
  if (__builtin_cpu_supports("avx512dq")) b |= 32;
  if (__builtin_cpu_supports("avx512bw")) b |= 64;
  if (__builtin_cpu_supports("avx512vl")) b |= 128;
  if (__builtin_cpu_supports("avx512vnni")) b |= 256;
  return b;
}
ruy::Path BestPath(unsigned bits) {
  if ((bits & 255) == 255) return ruy::Path::kAvx512;
  if ((bits & 7) == 7) return ruy::Path::kAvx2Fma;
  if (bits & 1) return ruy::Path::kAvx;
  return ruy::Path::kStandardCpp;
}

void PlainMachine() {
  const Level levels[3] = {kPerCore, kPerCore, kShared};
  const int sizes[3][3] = {{32768, 32768, 32768}, {262144, 262144, 262144}, {1 << 21, 1 << 21, 1 << 21}};
  MakeMachine(2, 1, levels, sizes);
  g_machine.has_uarch = true;
  g_machine.uarch = cpuinfo_uarch_unknown;
}

// ---- multiplications -----------------------------------------------------------

const int kSizes[] = {5, 70};
std::vector<float> g_lhs, g_rhs, g_dst, g_want[2];

void MulOn(ruy::Context* ctx, int which, ruy::Path want) {
  const int n = kSizes[which];
  if (g_lhs.empty()) {
    for (int i = 0; i < 70 * 70; i++) g_lhs.push_back((i * 7) % 11 - 5);
    for (int i = 0; i < 70 * 70; i++) g_rhs.push_back((i * 5) % 13 - 6);
  }
  if (g_want[which].empty()) {
    g_want[which].resize(n * n);
    for (int j = 0; j < n; j++)
      for (int i = 0; i < n; i++) {
        float s = 0;
        for (int k = 0; k < n; k++) s += g_lhs[i * n + k] * g_rhs[j * n + k];
        g_want[which][j * n + i] = s;
      }
  }
  g_dst.assign(n * n, 1e9f);
  mulapi::MulDesc d;
  d.types = mulapi::TypesByName("f32f32f32");
  d.l.rows = d.l.cols = d.r.rows = d.r.cols = d.d.rows = d.d.cols = n;
  d.l.row_major = true;
  d.l.data = g_lhs.data();
  d.r.data = g_rhs.data();
  d.d.data = g_dst.data();
  d.compiled = mulapi::kDefaultPaths;
  d.ctx = ctx;
  mulapi::Mul(d);
  vd::Transition();
  for (int i = 0; i < n * n; i++)
    if (g_dst[i] != g_want[which][i])
      vd::Violation("value", "entry %d of a %dx%d product is %g, not %g", i, n, n, g_dst[i],
                    g_want[which][i]);
  vd::Compared(n * n + 1);
  if (want != ruy::Path::kNone && ctx->last_used_path() != want)
    vd::Violation("path", "the path used is %s, not %s", mulapi::NameOf(ctx->last_used_path()),
                  mulapi::NameOf(want));
}

// ---- feature sets ----------------------------------------------------------------

// Every feature set, whichever question is asked first.
void Features(int init_ok) {
  const unsigned host = HostFeatures();
  for (unsigned bits = 0; bits < 512; bits++) {
    if (!Possible(bits) || (bits & ~host)) continue;
    for (int first = 0; first < 5; first++) {
      if (!vd::Begin("features=%03x initialized=%d first=%d", bits, init_ok, first)) continue;
      SetFeatures(bits);
      PlainMachine();
      g_machine.init_ok = init_ok;
      const unsigned seen = init_ok ? bits : 0;
      const long inits = g_init_calls, oks = g_init_ok, deinits = g_deinit_calls;
      {
        ruy::CpuInfo info;
        for (int q = 0; q < 5; q++) {
          bool got = false, want = false;
          const char* what = "";
          switch ((first + q) % 5) {
            case 0: got = info.Avx(), want = seen & 1, what = "AVX"; break;
            case 1: got = info.Avx2Fma(), want = (seen & 6) == 6, what = "AVX2+FMA"; break;
            case 2: got = info.Avx512(), want = (seen & 0xf8) == 0xf8, what = "AVX-512"; break;
            case 3: got = info.CacheParams().local_cache_size > 0, want = true, what = "a cache"; break;
            case 4: got = info.CurrentCpuIsA55ish() || info.CurrentCpuIsX1(), what = "a particular core"; break;
          }
          vd::Transition();
          vd::Compared(1);
          if (got != want)
            vd::Violation("feature", "the machine is said to %shave %s", got ? "" : "not ", what);
        }
        if (g_init_calls - inits > 1)
          vd::Violation("once", "the hardware was queried %ld times", g_init_calls - inits);
      }
      if (g_deinit_calls - deinits > g_init_ok - oks)
        vd::Violation("balance", "released %ld times after %ld initializations",
                      g_deinit_calls - deinits, g_init_ok - oks);
      if (init_ok && g_deinit_calls - deinits != g_init_ok - oks)
        vd::Violation("balance", "initialized %ld times, released %ld times", g_init_ok - oks,
                      g_deinit_calls - deinits);
      // The paths made available, and the one used.
      for (int threads = 1; threads <= 2; threads++) {
        ruy::Context ctx;
        ctx.set_max_num_threads(threads);
        for (int s : {first & 1, 1}) MulOn(&ctx, s, BestPath(seen));
        // A restriction, and back to what the machine has.
        ctx.set_runtime_enabled_paths(ruy::Path::kStandardCpp);
        MulOn(&ctx, 0, ruy::Path::kStandardCpp);
        ctx.set_runtime_enabled_paths(ruy::Path::kNone);
        MulOn(&ctx, 0, BestPath(seen));
      }
      vd::NonTrivial();
      vd::State(vd::mix(bits * 2 + init_ok, first));
      if (vd::OutOfTime()) return;
    }
  }
}

// ---- cores -------------------------------------------------------------------------

void Cores() {
  for (int has = 0; has < 2; has++)
    for (int init_ok = 0; init_ok < 2; init_ok++)
      for (int order = 0; order < 2; order++)
        for (unsigned u = 0; u < 0x00300400; u++) {
          // All kinds of cores that have a name fall in these ranges.
          if ((u & 0xff) > 0x20) {
            u |= 0xff;
            continue;
          }
          if (!vd::Begin("core=%x reported=%d initialized=%d order=%d", u, has, init_ok, order)) continue;
          SetFeatures(0);
          PlainMachine();
          g_machine.init_ok = init_ok;
          g_machine.has_uarch = has;
          g_machine.uarch = (cpuinfo_uarch)u;
          ruy::CpuInfo info;
          bool a55, x1;
          if (order) {
            x1 = info.CurrentCpuIsX1();
            a55 = info.CurrentCpuIsA55ish();
          } else {
            a55 = info.CurrentCpuIsA55ish();
            x1 = info.CurrentCpuIsX1();
          }
          const bool known = has && init_ok;
          const bool want_a55 = known && (u == cpuinfo_uarch_cortex_a53 || u == cpuinfo_uarch_cortex_a55r0 ||
                                          u == cpuinfo_uarch_cortex_a55);
          const bool want_x1 = known && u == cpuinfo_uarch_cortex_x1;
          if (a55 != want_a55 || x1 != want_x1)
            vd::Violation("core", "taken for A55: %d, for X1: %d; expected %d and %d", a55, x1, want_a55,
                          want_x1);
          vd::Transition(2);
          vd::Compared(2);
          if (a55 || x1) vd::NonTrivial();
          vd::State(vd::mix(u, has * 4 + init_ok * 2 + order));
        }
}

// ---- caches ------------------------------------------------------------------------

// How the sizes differ between cores.
enum Spread { kSame, kSmallFirst, kSmallLast, kSmallMiddle, kSpreads };

void Caches(int cores, int smt, Spread spread) {
  static const int kBase[][3] = {{32 << 10, 256 << 10, 2 << 20}, {16 << 10, 16 << 10, 16 << 10},
                                 {1 << 10, 48 << 10, 30 << 20}, {64 << 10, 128 << 10, 1 << 29}};
  for (int l1 = 0; l1 < kLevels; l1++)
    for (int l2 = 0; l2 < kLevels; l2++)
      for (int l3 = 0; l3 < kLevels; l3++)
        for (int b = 0; b < 4; b++)
          for (int init_ok = 0; init_ok < 2; init_ok++) {
            const Level levels[3] = {(Level)l1, (Level)l2, (Level)l3};
            int sizes[3][3];
            for (int l = 0; l < 3; l++)
              for (int c = 0; c < 3; c++) {
                const bool small = (spread == kSmallFirst && c == 0) ||
                                   (spread == kSmallLast && c == cores - 1) ||
                                   (spread == kSmallMiddle && c == cores / 2);
                sizes[l][c] = small ? kBase[b][l] / 2 : kBase[b][l];
              }
            // A core's caches do not shrink with the level.
            bool grows = true;
            for (int c = 0; c < cores; c++) {
              int previous = 0;
              for (int l = 0; l < 3; l++) {
                if (levels[l] != kPerCore && levels[l] != kShared) continue;
                const int s = sizes[l][levels[l] == kPerCore ? c : 0];
                if (s < previous) grows = false;
                previous = s;
              }
            }
            if (!grows) continue;
            if (!vd::Begin("cores=%d smt=%d levels=%d%d%d sizes=%d,%d,%d spread=%d initialized=%d", cores, smt,
                           l1, l2, l3, kBase[b][0], kBase[b][1], kBase[b][2], spread, init_ok))
              continue;
            SetFeatures(0);
            MakeMachine(cores, smt, levels, sizes);
            g_machine.init_ok = init_ok;
            const long inits = g_init_calls;
            ruy::CpuInfo info;
            const ruy::CpuCacheParams first = info.CacheParams();
            const ruy::CpuCacheParams got = info.CacheParams();
            int local, last;
            const bool known = Expected(cores, smt, levels, sizes, &local, &last) && init_ok;
            if (known && (got.local_cache_size != local || got.last_level_cache_size != last))
              vd::Violation("sizes", "cache sizes %d and %d, expected %d and %d", got.local_cache_size,
                            got.last_level_cache_size, local, last);
            if (got.local_cache_size <= 0 || got.last_level_cache_size < got.local_cache_size)
              vd::Violation("usable", "cache sizes %d and %d are unusable", got.local_cache_size,
                            got.last_level_cache_size);
            if (first.local_cache_size != got.local_cache_size ||
                first.last_level_cache_size != got.last_level_cache_size || g_init_calls - inits > 1)
              vd::Violation("stable", "the answer changed, or the hardware was asked again");
            vd::Transition(2);
            vd::Compared(4);
            vd::Count(known ? "caches_known" : "caches_unknown");
            if (known) vd::NonTrivial();
            // Multiplications must work on such a machine.
            for (int threads = 1; threads <= 2; threads++) {
              ruy::Context ctx;
              ctx.set_max_num_threads(threads);
              MulOn(&ctx, threads - 1, ruy::Path::kNone);
            }
            vd::State(vd::mix(vd::mix(((l1 * 5 + l2) * 5 + l3) * 4 + b, spread * 2 + init_ok), cores * 8 + smt));
            if (vd::OutOfTime()) return;
          }
}

}  // namespace

int main(int argc, char** argv) {
  unsetenv("RUY_PATHS");
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    for (int ok = 0; ok < 2; ok++) jobs.emplace_back(vd::Str("features-%d", ok), [=] { Features(ok); }, 3);
    jobs.emplace_back("cores", [] { Cores(); }, 2);
    for (int cores = 1; cores <= 3; cores++)
      for (int smt = 1; smt <= 2; smt++)
        for (int s = 0; s < kSpreads; s++)
          jobs.emplace_back(vd::Str("caches-%d-%d-%d", cores, smt, s), [=] { Caches(cores, smt, (Spread)s); }, 2);
    return jobs;
  });
}
