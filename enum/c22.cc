// C22: requests that cannot be carried out stop, instead of giving a wrong
// result. Every case runs in a process of its own.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <new>
#include <stdexcept>

#include "mulproblem.h"
#include "ruy/mul_params.h"

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace {

// Requests to the system (memory, threads) made while armed are numbered, per
// thread in the order the threads were made; the ones selected fail.
constexpr int kThreads = 8;
std::atomic<bool> g_armed{false};
std::atomic<long> g_requests[kThreads];
std::atomic<int> g_threads{1};
int g_fail_thread = -1;
long g_fail_first = -1, g_fail_last = -1;
thread_local int t_thread = 0;
thread_local bool t_system = false;

bool Fails() {
  if (!g_armed.load() || t_system || t_thread >= kThreads) return false;
  const long i = g_requests[t_thread].fetch_add(1);
  return t_thread == g_fail_thread && i >= g_fail_first && i <= g_fail_last;
}

struct Start {
  void* (*f)(void*);
  void* arg;
  int thread;
};
void* Run(void* v) {
  const Start s = *(Start*)v;
  t_thread = s.thread;
  free(v);
  return s.f(s.arg);
}

}  // namespace

extern "C" {
void* malloc(size_t n) {
  if (Fails()) {
    errno = ENOMEM;
    return nullptr;
  }
  return __libc_malloc(n);
}
void* calloc(size_t n, size_t m) {
  if (Fails()) {
    errno = ENOMEM;
    return nullptr;
  }
  return __libc_calloc(n, m);
}
void* realloc(void* p, size_t n) {
  if (Fails()) {
    errno = ENOMEM;
    return nullptr;
  }
  return __libc_realloc(p, n);
}
void* memalign(size_t a, size_t n) {
  if (Fails()) return nullptr;
  return __libc_memalign(a, n);
}
void* aligned_alloc(size_t a, size_t n) {
  if (Fails()) return nullptr;
  return __libc_memalign(a, n);
}
int posix_memalign(void** p, size_t a, size_t n) {
  if (Fails()) return ENOMEM;
  *p = __libc_memalign(a, n);
  return *p ? 0 : ENOMEM;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) noexcept {
  static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(
      RTLD_NEXT, "pthread_create");
  if (Fails()) return EAGAIN;
  // What the system needs to create a thread is not a request of the code under test.
  t_system = true;
  const int r = real(t, a, Run, new Start{f, arg, g_threads++});
  t_system = false;
  return r;
}
// The library does not use exceptions: one raised for want of memory is a stop,
// not something that is unwound through it.
__attribute__((noreturn)) void __cxa_throw(void* e, void* type, void (*d)(void*)) {
  if (g_armed.load()) _exit(3);
  static auto real = (void (*)(void*, void*, void (*)(void*)))dlsym(RTLD_NEXT, "__cxa_throw");
  real(e, type, d);
  __builtin_unreachable();
}
}

namespace {

enum Outcome { kRight, kWrong, kStopped, kHung };
const char* const kOutcome[] = {"a right result", "a wrong result", "a stop", "a hang"};

struct Shared {
  long requests[kThreads];
  char what[160];
};
Shared* g_shared;

// Runs f in a process of its own. f returns whether the result is right.
template <typename F>
Outcome Isolated(F f) {
  if (!g_shared)
    g_shared = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_shared->what[0] = 0;
  const pid_t pid = fork();
  if (pid < 0) vd::Error("fork");
  if (pid == 0) {
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) signal(s, SIG_DFL);
    const int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    alarm(20);
    int code;
    try {
      code = f() ? 0 : 1;
    } catch (...) {
      code = 2;
    }
    g_armed = false;
    for (int i = 0; i < kThreads; i++) g_shared->requests[i] = g_requests[i];
    _exit(code);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
  }
  vd::Transition();
  vd::Compared(1);
  if (WIFSIGNALED(status)) return WTERMSIG(status) == SIGALRM ? kHung : kStopped;
  const int code = WEXITSTATUS(status);
  return code == 0 ? kRight : code == 1 ? kWrong : kStopped;
}

// ---- exhausted memory ----------------------------------------------------------

struct Scenario {
  const char* types;
  PathName path;
  int m, k, n;
  int threads;
  int cache;    // bit 0: left, bit 1: right
  int mult;     // 3 uniform, 4 per channel
  int calls;    // multiplications before the one with failures
};

bool MulIsRight(const Scenario& s, ruy::Context* ctx, const Problem& p, bool armed) {
  static std::vector<char> bl, br, bd;
  const Types& t = kTypes[p.types];
  MulDesc q;
  q.types = p.types;
  LayoutOf(&q.l, s.m, p.k, 1, 0);
  LayoutOf(&q.r, p.k, s.n, 0, 0);
  LayoutOf(&q.d, s.m, s.n, 0, 0);
  FillOperand(t.l, p.z.l, p.lv, p.k, false, &q.l, &bl);
  FillOperand(t.r, p.z.r, p.rv, p.k, true, &q.r, &br);
  bd.assign(q.d.Span() * SizeOf(t.d), 0x3c);
  q.d.data = bd.data();
  q.d.zp = p.z.d;
  q.l.cache = (s.cache & 1) ? 3 : 0;
  q.r.cache = (s.cache & 2) ? 3 : 0;
  ApplySetting(p, &q);
  q.ctx = ctx;
  g_armed = armed;
  Mul(q);
  g_armed = false;
  for (int i = 0; i < s.m; i++)
    for (int j = 0; j < s.n; j++) {
      const double g = Load(t.d, bd.data(), q.d.At(i, j)), w = p.want[(size_t)i * p.N + j];
      if (!(std::fabs(g - w) <= p.tol)) {
        snprintf(g_shared->what, sizeof g_shared->what, "entry (%d,%d) is %g, expected %g", i, j, g, w);
        return false;
      }
    }
  return true;
}

void Exhausted(const char* types, const PathName& path) {
  InitData();
  const int ti = TypesByName(types);
  const bool quantized = !IsFloat(kTypes[ti].a) && kTypes[ti].d != I32;
  for (int big = 0; big < 2; big++)
    for (int threads = 1; threads <= (vd::Thorough() ? 4 : 3); threads++)
      for (int cache = 0; cache < 4; cache++)
        for (int mult = 3; mult <= (quantized ? 4 : 3); mult++)
          for (int calls = 0; calls < 2; calls++) {
            Scenario s{types, path, big ? 77 : 5, big ? 33 : 3, big ? 65 : 7, threads, cache, mult, calls};
            Setting set{"", 0, 1, 1, 0, 0, mult, 0};
            if (kTypes[ti].d == I32) set.zp = 0;
            const Problem p = MakeProblem(ti, set, s.m, s.n, s.k, path);
            const std::string name = vd::Str("%s %s %dx%dx%d threads=%d cached=%d multipliers=%d before=%d", types,
                                             path.name, s.m, s.k, s.n, threads, cache, mult, calls);
            auto run = [&](int thread, long first, long last) {
              return Isolated([&] {
                g_fail_thread = thread;
                g_fail_first = first;
                g_fail_last = last;
                ruy::Context ctx;
                Setup(&ctx, path, threads);
                for (int c = 0; c < calls; c++)
                  if (!MulIsRight(s, &ctx, p, false)) return false;
                if (!MulIsRight(s, &ctx, p, true)) return false;
                // Whatever failed, what follows works.
                return MulIsRight(s, &ctx, p, false);
              });
            };
            Outcome o = run(-1, -1, -1);
            long requests[kThreads], all = 0;
            for (int i = 0; i < kThreads; i++) all += requests[i] = g_shared->requests[i];
            if (vd::Begin("%s", name.c_str())) {
              if (o != kRight) vd::Violation("plain", "without failures, %s: %s", kOutcome[o], g_shared->what);
              vd::Count("requests", all);
            }
            for (int t = 0; t < kThreads; t++)
              for (long i = 0; i < requests[t]; i++)
                for (int from = 0; from < 2; from++) {
                  if (!vd::Begin("%s failing=%d:%ld%s", name.c_str(), t, i, from ? ".." : "")) continue;
                  o = run(t, i, from ? 1l << 40 : i);
                  if (o == kWrong || o == kHung)
                    vd::Violation("failure", "%s after a failed request to the system: %s", kOutcome[o],
                                  g_shared->what);
                  vd::Count(o == kRight ? "survived" : "stopped");
                  vd::NonTrivial();
                  vd::State(vd::mix(vd::mix(HashBytes(name.data(), name.size()), (i * kThreads + t) * 2 + from), o));
                  if (vd::OutOfTime()) return;
                }
          }
}

// ---- unsupported zero points -------------------------------------------------------

void ZeroPointsOf(const char* types, const PathName& path) {
  InitData();
  const int ti = TypesByName(types);
  const Types& t = kTypes[ti];
  auto values = [](Scalar s) {
    if (IsFloat(s)) return std::vector<int>{0, 1, -1};
    if (s == I32) return std::vector<int>{0};
    std::vector<int> v{(int)Lowest(s), (int)Lowest(s) + 1, 0, 1, (int)Highest(s)};
    if (Lowest(s) < 0) v.push_back(-1);
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
  };
  for (int lz : values(t.l))
    for (int rz : values(t.r))
      for (int dz : values(t.d))
        for (int big = 0; big < 2; big++) {
          if (!vd::Begin("%s %s zero points %d %d %d big=%d", types, path.name, lz, rz, dz, big)) continue;
          bool supported = true;
          for (int i = 0; i < 3; i++) {
            const Scalar s = i == 0 ? t.l : i == 1 ? t.r : t.d;
            if (IsFloat(s) && (i == 0 ? lz : i == 1 ? rz : dz)) supported = false;
          }
          if ((t.l == I16 || t.r == I16) && (lz || rz || dz)) supported = false;
          const bool both_unsigned = t.l == U8 && t.r == U8;
          if (!IsFloat(t.a) && !both_unsigned && lz == Lowest(t.l) && rz == Lowest(t.r)) supported = false;
          const int m = big ? 18 : 2, k = big ? 9 : 3, n = big ? 17 : 2;
          const Outcome o = Isolated([&] {
            // Operands around the zero points, scaled by one.
            std::vector<char> bl(m * k * 8), br(k * n * 8), bd(m * n * 8, 0x3c);
            MulDesc q;
            q.types = ti;
            LayoutOf(&q.l, m, k, 1, 0);
            LayoutOf(&q.r, k, n, 0, 0);
            LayoutOf(&q.d, m, n, 0, 0);
            for (int i = 0; i < m * k; i++) Store(t.l, bl.data(), i, lz + (lz > 0 ? -1 : 1) * (i % 2));
            for (int i = 0; i < n * k; i++) Store(t.r, br.data(), i, rz + (rz > 0 ? -1 : 1) * (i % 3 == 0));
            q.l.data = bl.data(), q.r.data = br.data(), q.d.data = bd.data();
            q.l.zp = lz, q.r.zp = rz, q.d.zp = dz;
            if (!IsFloat(t.a) && t.d != I32) {
              q.uniform_multiplier = true;
              q.fixedpoint = 1 << 30;
              q.exponent = 1;
            }
            ruy::Context ctx;
            Setup(&ctx, path);
            q.ctx = &ctx;
            Mul(q);
            for (int i = 0; i < m; i++)
              for (int j = 0; j < n; j++) {
                double a = 0;
                for (int d = 0; d < k; d++)
                  a += (Load(t.l, bl.data(), q.l.At(i, d)) - lz) * (Load(t.r, br.data(), q.r.At(d, j)) - rz);
                a += dz;
                if (!IsFloat(t.d) && t.d != I32)
                  a = std::min(std::max(a, (double)Lowest(t.d)), (double)Highest(t.d));
                const double g = Load(t.d, bd.data(), q.d.At(i, j));
                if (g != a) {
                  snprintf(g_shared->what, sizeof g_shared->what, "entry (%d,%d) is %g, expected %g", i, j, g, a);
                  return false;
                }
              }
            return true;
          });
          if (supported && o != kRight)
            vd::Violation("supported", "a supported request gave %s %s", kOutcome[o], g_shared->what);
          if (!supported && o != kStopped)
            vd::Violation("unsupported", "an unsupported request gave %s", kOutcome[o]);
          vd::Count(supported ? "supported" : "refused");
          vd::NonTrivial();
          vd::State(vd::mix(vd::mix(HashBytes(types, strlen(types)), ((lz + 500) * 1024 + rz + 500) * 2 + big),
                            dz * 8 + (int)path.path));
          if (vd::OutOfTime()) return;
        }
}

// ---- contradictory parameters ------------------------------------------------------

// Sequences of setters of the parameter object; uniform and per-channel
// multipliers exclude each other.
void Parameters() {
  static const int32_t fixed[4] = {1, 2, 3, 4};
  static const int exps[4] = {1, 2, 3, 4};
  const int kOps = 8;
  const int depth = vd::Thorough() ? 5 : 4;
  std::vector<int> seq(depth, 0);
  for (;;) {
    std::string name;
    for (int o : seq) name += vd::Str(" %d", o);
    if (vd::Begin("parameters%s", name.c_str())) {
      // Model: which multipliers are set at each step.
      int uf = 0, ue = 0;
      bool pf = false, pe = false, per = false, legal = true;
      auto mode = [&](bool want) {
        if (per == want) return;
        if (want ? (uf || ue) : (pf || pe)) legal = false;
        per = want;
      };
      for (int o : seq) {
        if (!legal) break;
        switch (o) {
          case 0: mode(false); uf = 5; break;
          case 1: mode(false); uf = 0; break;
          case 2: mode(false); ue = 2; break;
          case 3: mode(false); ue = 0; break;
          case 4: mode(true); pf = true; break;
          case 5: mode(true); pf = false; break;
          case 6: mode(true); pe = true; break;
          case 7: mode(true); pe = false; break;
        }
      }
      const Outcome got = Isolated([&] {
        ruy::MulParams<std::int32_t, std::int8_t> p;
        for (int o : seq) switch (o) {
            case 0: p.set_multiplier_fixedpoint(5); break;
            case 1: p.set_multiplier_fixedpoint(0); break;
            case 2: p.set_multiplier_exponent(2); break;
            case 3: p.set_multiplier_exponent(0); break;
            case 4: p.set_multiplier_fixedpoint_perchannel(fixed); break;
            case 5: p.set_multiplier_fixedpoint_perchannel(nullptr); break;
            case 6: p.set_multiplier_exponent_perchannel(exps); break;
            case 7: p.set_multiplier_exponent_perchannel(nullptr); break;
          }
        if (per)
          return p.multiplier_fixedpoint_perchannel() == (pf ? fixed : nullptr) &&
                 p.multiplier_exponent_perchannel() == (pe ? exps : nullptr);
        return p.multiplier_fixedpoint() == uf && p.multiplier_exponent() == ue &&
               !p.multiplier_fixedpoint_perchannel() && !p.multiplier_exponent_perchannel();
      });
      if (got != (legal ? kRight : kStopped))
        vd::Violation("parameters", "%s multipliers gave %s", legal ? "consistent" : "contradictory",
                      kOutcome[got]);
      vd::Transition(depth - 1);
      vd::Count(legal ? "supported" : "refused");
      vd::NonTrivial();
      vd::State(vd::mix(uf * 4 + ue, per * 8 + pf * 4 + pe * 2 + legal));
      if (vd::OutOfTime()) return;
    }
    int i = depth - 1;
    while (i >= 0 && ++seq[i] == kOps) seq[i--] = 0;
    if (i < 0) return;
  }
}

// Per-channel exponents missing, and nonzero entries between the number of
// channels and the promised capacity.
void Vectors(const char* types, const PathName& path) {
  InitData();
  const int ti = TypesByName(types);
  const Types& t = kTypes[ti];
  const bool quantized = !IsFloat(t.a) && t.d != I32;
  for (int channels = 1; channels <= 9; channels++)
    for (int rounding : {1, 2, 4, 8, 16})
      for (int vector = 0; vector < (quantized ? 3 : 1); vector++)
        for (int bad = -1; bad < 16; bad++) {
          const int cap = (channels + rounding - 1) / rounding * rounding;
          if (bad >= cap || (bad >= 0 && bad < channels)) continue;
          if (!vd::Begin("%s %s channels=%d rounding=%d vector=%d nonzero=%d", types, path.name, channels, rounding,
                         vector, bad))
            continue;
          const Outcome o = Isolated([&] {
            std::vector<float> bf(32);
            std::vector<double> b64(32);
            std::vector<int32_t> bi(32), f(32);
            std::vector<int> e(32);
            for (int i = 0; i < channels; i++) f[i] = 1 << 30, e[i] = 1;
            if (bad >= 0) {
              if (vector == 0) bf[bad] = 1, bi[bad] = 1, b64[bad] = 1;
              if (vector == 1) f[bad] = 1;
              if (vector == 2) e[bad] = 1;
            }
            const int k = 3, n = 2;
            std::vector<char> bl(channels * k * 8), br(k * n * 8), bd(channels * n * 8, 0x3c);
            MulDesc q;
            q.types = ti;
            LayoutOf(&q.l, channels, k, 1, 0);
            LayoutOf(&q.r, k, n, 0, 0);
            LayoutOf(&q.d, channels, n, 0, 0);
            for (int i = 0; i < channels * k; i++) Store(t.l, bl.data(), i, i % 3);
            for (int i = 0; i < n * k; i++) Store(t.r, br.data(), i, i % 4);
            q.l.data = bl.data(), q.r.data = br.data(), q.d.data = bd.data();
            q.bias = t.a == F32 ? (void*)bf.data() : t.a == F64 ? (void*)b64.data() : (void*)bi.data();
            if (quantized) q.fixedpoint_pc = f.data(), q.exponent_pc = e.data();
            q.capacity_rounding = rounding;
            ruy::Context ctx;
            Setup(&ctx, path);
            q.ctx = &ctx;
            Mul(q);
            for (int i = 0; i < channels; i++)
              for (int j = 0; j < n; j++) {
                double a = 0;
                for (int d = 0; d < k; d++)
                  a += Load(t.l, bl.data(), q.l.At(i, d)) * Load(t.r, br.data(), q.r.At(d, j));
                if (Load(t.d, bd.data(), q.d.At(i, j)) != a) return false;
              }
            return true;
          });
          if (o != (bad < 0 ? kRight : kStopped))
            vd::Violation("capacity", "%s", kOutcome[o]);
          vd::Count(bad < 0 ? "supported" : "refused");
          vd::NonTrivial();
          vd::State(vd::mix(((channels * 32 + rounding) * 4 + vector) * 32 + bad + 1, ti * 256 + (int)path.path));
          if (vd::OutOfTime()) return;
        }
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    for (const PathName& path : RunnablePaths()) {
      for (const char* types : {"f32f32f32", "i8i8i8", "u8u8i32"})
        jobs.emplace_back(vd::Str("exhausted-%s-%s", types, path.name), [=] { Exhausted(types, path); }, 9);
      for (int i = 0; i < kNumTypes; i++)
        jobs.emplace_back(vd::Str("zero-%s-%s", kTypes[i].name, path.name),
                          [=] { ZeroPointsOf(kTypes[i].name, path); }, 3);
      for (const char* types : {"f32f32f32", "f32f64f64", "i8i8i8", "u8u8i32"})
        jobs.emplace_back(vd::Str("vectors-%s-%s", types, path.name), [=] { Vectors(types, path); }, 2);
    }
    jobs.emplace_back("parameters", [] { Parameters(); }, 5);
    return jobs;
  });
}
