// Controlled-scheduler model-checking runtime. Compiled WITHOUT instrumentation.
#include "mcrt.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __data_start[], _end[];
extern void* __dso_handle;
}

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef uintptr_t uptr;

namespace {

constexpr int T = 8;  // max managed threads per execution
constexpr u64 kInit = 0x1234567;

inline u64 mix(u64 a, u64 b) {
  u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull);
  x ^= x >> 32;
  x *= 0xD6E8FEB86659FD93ull;
  x ^= x >> 29;
  x *= 0xA0761D6478BD642Full;
  x ^= x >> 32;
  return x;
}

struct VC {
  u32 c[T];
  void clear() { memset(c, 0, sizeof c); }
  void join(const VC& o) {
    for (int i = 0; i < T; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

enum St { RUN, LOCK, COND, JOIN, SPIN, SLEEP, DONE };
const char* kStName[] = {"runnable", "blocked-on-mutex", "waiting-on-condvar",
                         "joining", "spinning", "sleeping", "finished"};

struct Thread {
  int id;
  St st;
  volatile u32 baton;  // futex
  pthread_t os;
  VC vc, fence_rel, acq_pend;
  void* (*fn)(void*);
  void* arg;
  uptr wobj;    // mutex / cond / thread waited for
  uptr relock;  // mutex to reacquire after COND
  bool timed, woke_by_timeout, detached, joined;
  int64_t deadline;
  u64 hist;
  u32 opidx;
  u32 idle;
  u64 seen_mod;
  uptr spin_a[8];
  u64 spin_id[8];
  u8 spin_n[8];
  int spin_cnt;
  int64_t now;
  const char* lastop;
};

struct Mutex {
  int owner = -1;
  int depth = 0;
  VC vc;
  u64 id = kInit;
  Mutex() { vc.clear(); }
};
struct Cond {
  std::vector<int> waiters;
};

struct StoreRec {
  u64 val[2];
  int tid;  // -1 initial
  u32 clk;
  VC rel;
  u32 rclk[T];
  u64 id;
};
struct Loc {
  int size = 0;
  u64 chain = 0;
  std::vector<StoreRec> hist;  // oldest..newest
};

struct ByteSh {
  u32 w_clk;
  u32 w_tid;  // tid+1, 0 none
  u32 r[T];
  u32 a[T];   // atomic accesses
  u32 aw[T];  // atomic writes
};
struct Cell {
  uptr key;
  u32 gen;
  u8 freed, has_atomic;
  void* last_pc;
  ByteSh b[8];
};
constexpr u32 kCells = 1u << 17;

// Open-addressing hash set/map of 64-bit keys with a small value; far more
// compact than the standard containers, which matters at tens of millions.
struct FlatMap {
  u64* k = nullptr;
  signed char* v = nullptr;
  size_t cap = 0, n = 0;
  static void* map(size_t b) {
    void* p = mmap(nullptr, b, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) abort();
    return p;
  }
  void alloc(size_t c) {
    cap = c;
    k = (u64*)map(c * 8);
    v = (signed char*)map(c);
  }
  void release() {
    if (k) {
      munmap(k, cap * 8);
      munmap(v, cap);
    }
    k = nullptr;
    cap = n = 0;
  }
  void clear() { release(); }
  size_t size() const { return n; }
  // Returns the value slot; *fresh tells whether the key was new.
  signed char* insert(u64 key, int val, bool* fresh) {
    if (key == 0) key = 1;
    if ((n + 1) * 10 > cap * 7) {
      u64* ok = k;
      signed char* ov = v;
      size_t oc = cap;
      alloc(oc ? oc * 2 : 1024);
      for (size_t i = 0; i < oc; i++)
        if (ok[i]) {
          size_t h = ok[i] & (cap - 1);
          while (k[h]) h = (h + 1) & (cap - 1);
          k[h] = ok[i];
          v[h] = ov[i];
        }
      if (ok) {
        munmap(ok, oc * 8);
        munmap(ov, oc);
      }
    }
    size_t h = key & (cap - 1);
    while (k[h] && k[h] != key) h = (h + 1) & (cap - 1);
    *fresh = !k[h];
    if (*fresh) {
      k[h] = key;
      v[h] = (signed char)val;
      n++;
    }
    return &v[h];
  }
};

struct ChoiceRec {
  int n, c;
};

struct State {
  // configuration
  mc::Bounds bounds;
  const mc::Config* cfg;
  long max_steps;
  // per execution
  Thread th[T];
  int nthreads;
  int cur;
  bool running;
  volatile u32 done_futex;
  u64 steps;
  u64 mod;
  u64 memhash;
  int used_preempt, used_spurious, used_stale, used_timers;
  bool nobranch;
  size_t pos;
  std::vector<ChoiceRec> prefix;
  std::vector<ChoiceRec> trace;
  std::map<uptr, Mutex> mutexes;
  std::map<uptr, Cond> conds;
  std::map<uptr, Loc> locs;
  std::map<uptr, VC> guards;
  u64 outcome;
  std::string notes;
  // shadow
  Cell* cells;
  u32 gen;
  u32 used_cells;
  char* stacks;
  // exploration
  FlatMap visited, states;
  std::unordered_map<u64, u64> outcomes;
  u64 execs, transitions, pruned, max_depth, preempt_execs;
  u64 max_threads;
  bool replay;
  int shard, nshards;
  std::string artifact;
  std::string config_name;
  const char* tier;
  bool stateful;
  // data segment snapshot
  char* snap;
  size_t snap_len;
  u64 exec_start_cpu;
  u64 final_hash;
  struct Sample {
    std::vector<ChoiceRec> trace;
    int preempt;
    u64 hash;
  };
  std::vector<Sample> samples;
  u64 sample_step;
};

State* g = nullptr;
__thread Thread* self = nullptr;
__thread int in_rt = 0;
pthread_key_t exit_key;

struct RtScope {
  RtScope() { in_rt++; }
  ~RtScope() { in_rt--; }
};

template <class F>
F real(const char* name) {
  return (F)dlsym(RTLD_NEXT, name);
}
int (*r_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int (*r_join)(pthread_t, void**);
int (*r_detach)(pthread_t);
int (*r_mlock)(pthread_mutex_t*);
int (*r_mtrylock)(pthread_mutex_t*);
int (*r_munlock)(pthread_mutex_t*);
int (*r_cwait)(pthread_cond_t*, pthread_mutex_t*);
int (*r_ctimed)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int (*r_cclock)(pthread_cond_t*, pthread_mutex_t*, clockid_t,
                const struct timespec*);
int (*r_csignal)(pthread_cond_t*);
int (*r_cbroadcast)(pthread_cond_t*);
int (*r_cdestroy)(pthread_cond_t*);
int (*r_clock)(clockid_t, struct timespec*);
int (*r_nanosleep)(const struct timespec*, struct timespec*);
int (*r_clknanosleep)(clockid_t, int, const struct timespec*, struct timespec*);
int (*r_yield)(void);
bool r_init_done = false;

void init_real() {
  if (r_init_done) return;
  r_create = real<decltype(r_create)>("pthread_create");
  r_join = real<decltype(r_join)>("pthread_join");
  r_detach = real<decltype(r_detach)>("pthread_detach");
  r_mlock = real<decltype(r_mlock)>("pthread_mutex_lock");
  r_mtrylock = real<decltype(r_mtrylock)>("pthread_mutex_trylock");
  r_munlock = real<decltype(r_munlock)>("pthread_mutex_unlock");
  r_cwait = real<decltype(r_cwait)>("pthread_cond_wait");
  r_ctimed = real<decltype(r_ctimed)>("pthread_cond_timedwait");
  r_cclock = real<decltype(r_cclock)>("pthread_cond_clockwait");
  r_csignal = real<decltype(r_csignal)>("pthread_cond_signal");
  r_cbroadcast = real<decltype(r_cbroadcast)>("pthread_cond_broadcast");
  r_cdestroy = real<decltype(r_cdestroy)>("pthread_cond_destroy");
  r_clock = real<decltype(r_clock)>("clock_gettime");
  r_nanosleep = real<decltype(r_nanosleep)>("nanosleep");
  r_clknanosleep = real<decltype(r_clknanosleep)>("clock_nanosleep");
  r_yield = real<decltype(r_yield)>("sched_yield");
  r_init_done = true;
}

void futex_wait(volatile u32* p, u32 v) {
  syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
void futex_wake(volatile u32* p) {
  syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

// ---------------------------------------------------------------- reporting

void write_artifact(const char* kind, const char* msg) {
  if (g->artifact.empty()) return;
  FILE* f = fopen(g->artifact.c_str(), "w");
  if (!f) return;
  fprintf(f, "config %s\n", g->config_name.c_str());
  fprintf(f, "bounds %d %d %d %d\n", g->bounds.preempt, g->bounds.spurious,
          g->bounds.stale, g->bounds.timers);
  fprintf(f, "kind %s\n", kind);
  fprintf(f, "message %s\n", msg);
  // Trailing default choices are omitted.
  size_t n = g->trace.size();
  while (n > 0 && g->trace[n - 1].c == 0) n--;
  fprintf(f, "choices %zu", n);
  for (size_t i = 0; i < n; i++)
    fprintf(f, " %d/%d", g->trace[i].c, g->trace[i].n);
  fprintf(f, "\n");
  for (int i = 0; i < g->nthreads; i++)
    fprintf(f, "thread %d %s after %u sync ops, last %s\n", i,
            kStName[g->th[i].st], g->th[i].opidx,
            g->th[i].lastop ? g->th[i].lastop : "-");
  fclose(f);
}

[[noreturn]] void violation(const char* kind, const char* msg) {
  in_rt++;
  write_artifact(kind, msg);
  printf("MCRT-VIOLATION %s: %s (config %s, execution %llu, step %llu)\n", kind,
         msg, g->config_name.c_str(), (unsigned long long)g->execs,
         (unsigned long long)g->steps);
  fflush(stdout);
  _exit(10);
}

[[noreturn]] void rt_error(const char* fmt, ...) {
  in_rt++;
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "MCRT-ERROR ");
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, "\n");
  fflush(stderr);
  _exit(11);
}

void on_signal(int sig, siginfo_t* si, void*) {
  if (g && g->running) {
    char msg[200];
    snprintf(msg, sizeof msg, "signal %d (%s) in thread %d, address %p", sig,
             strsignal(sig), g->cur, sig == SIGSEGV ? si->si_addr : nullptr);
    violation(sig == SIGABRT ? "abort" : sig == SIGPROF ? "hang" : "crash",
              msg);
  }
  _exit(12);
}

void describe_pc(void* pc, char* buf, size_t n) {
  Dl_info di;
  if (dladdr(pc, &di) && di.dli_fname)
    snprintf(buf, n, "%s+0x%lx", di.dli_sname ? di.dli_sname : "?",
             (unsigned long)((uptr)pc - (uptr)di.dli_fbase));
  else
    snprintf(buf, n, "%p", pc);
}

// ------------------------------------------------------------------- shadow

Cell* find_cell(uptr key, bool create) {
  u32 h = (u32)(mix(key, 77) & (kCells - 1));
  for (;;) {
    Cell* c = &g->cells[h];
    if (c->gen != g->gen) {
      if (!create) return nullptr;
      if (++g->used_cells > kCells * 3 / 4) rt_error("shadow table full");
      memset(c, 0, sizeof *c);
      c->gen = g->gen;
      c->key = key;
      return c;
    }
    if (c->key == key) return c;
    h = (h + 1) & (kCells - 1);
  }
}

[[noreturn]] void report_race(const char* what, uptr a, void* pc, int other,
                              void* opc) {
  char p1[256], p2[256], msg[700];
  describe_pc(pc, p1, sizeof p1);
  describe_pc(opc, p2, sizeof p2);
  snprintf(msg, sizeof msg,
           "%s: thread %d at %s, unordered with an access of thread %d "
           "(last toucher of this word %s)",
           what, self->id, p1, other, p2);
  (void)a;
  violation("data-race", msg);
}

void invalidate_loc_word(uptr word);

// Stack and thread-local storage of a finished thread must not be touched.
constexpr size_t kStack = 512 * 1024;
void check_thread_storage(uptr a, const char* what, void* pc) {
  uptr off = a - (uptr)g->stacks;
  if (off < kStack * T) {
    Thread& o = g->th[off / kStack];
    if (&o != self && o.st == DONE) {
      char p1[256], msg[400];
      describe_pc(pc, p1, sizeof p1);
      snprintf(msg, sizeof msg, "thread %d %s storage of finished thread %d at %s",
               self->id, what, o.id, p1);
      violation("use-after-free", msg);
    }
  }
}

void access(uptr addr, size_t size, bool write, bool atomic, void* pc) {
  if (!self || in_rt || !g->running) return;
  Thread* t = self;
  check_thread_storage(addr, write ? "writes" : "reads", pc);
  u32 clk = t->vc.c[t->id];
  uptr a = addr, end = addr + size;
  while (a < end) {
    uptr word = a & ~(uptr)7;
    Cell* c = find_cell(word, true);
    if (c->freed) {
      char p1[256], msg[400];
      describe_pc(pc, p1, sizeof p1);
      snprintf(msg, sizeof msg, "thread %d %s released memory at %s", t->id,
               write ? "writes" : "reads", p1);
      violation("use-after-free", msg);
    }
    uptr lim = std::min(end, word + 8);
    for (; a < lim; a++) {
      ByteSh& b = c->b[a - word];
      if (b.w_tid && (int)b.w_tid - 1 != t->id &&
          b.w_clk > t->vc.c[b.w_tid - 1])
        report_race(atomic ? "atomic access vs plain write"
                           : write ? "write vs write" : "read vs write",
                    a, pc, b.w_tid - 1, c->last_pc);
      if (!atomic) {
        for (int i = 0; i < g->nthreads; i++) {
          if (i == t->id) continue;
          if (write && b.r[i] > t->vc.c[i])
            report_race("write vs read", a, pc, i, c->last_pc);
          if (write && b.a[i] > t->vc.c[i])
            report_race("plain write vs atomic access", a, pc, i, c->last_pc);
          if (!write && b.aw[i] > t->vc.c[i])
            report_race("plain read vs atomic write", a, pc, i, c->last_pc);
        }
        if (write) {
          b.w_tid = t->id + 1;
          b.w_clk = clk;
        } else {
          b.r[t->id] = clk;
        }
      } else {
        b.a[t->id] = clk;
        if (write) b.aw[t->id] = clk;
      }
    }
    c->last_pc = pc;
    if (atomic)
      c->has_atomic = 1;
    else if (write && c->has_atomic) {
      invalidate_loc_word(word);
      c->has_atomic = 0;
    }
  }
}

void invalidate_loc_word(uptr word) {
  RtScope s;
  auto it = g->locs.lower_bound(word);
  while (it != g->locs.end() && it->first < word + 8) {
    g->memhash -= mix(it->second.chain, 99);
    it = g->locs.erase(it);
  }
}

void on_alloc(void* p, size_t n) {
  if (!p || !self || in_rt || !g->running || n > (1u << 20)) return;
  uptr a = (uptr)p & ~(uptr)7, end = (uptr)p + n;
  for (; a < end; a += 8) {
    Cell* c = find_cell(a, false);
    if (c) {
      memset(c->b, 0, sizeof c->b);
      c->freed = c->has_atomic = 0;
    }
  }
}

void on_free(void* p, void* pc) {
  if (!p || !self || in_rt || !g->running) return;
  size_t n = malloc_usable_size(p);
  if (n > (1u << 20)) n = 1u << 20;
  // A release is a write to the whole block.
  uptr a0 = (uptr)p & ~(uptr)7, end = (uptr)p + n;
  for (uptr a = a0; a < end; a += 8) {
    Cell* c = find_cell(a, false);
    if (!c) continue;
    if (c->freed) violation("double-free", "block released twice");
    Thread* t = self;
    for (int k = 0; k < 8; k++) {
      ByteSh& b = c->b[k];
      if (b.w_tid && b.w_clk > t->vc.c[b.w_tid - 1])
        report_race("release of memory vs write", a, pc, b.w_tid - 1,
                    c->last_pc);
      for (int i = 0; i < g->nthreads; i++)
        if (b.r[i] > t->vc.c[i] || b.a[i] > t->vc.c[i])
          report_race("release of memory vs access", a, pc, i, c->last_pc);
    }
  }
  RtScope s;
  for (auto it = g->mutexes.lower_bound((uptr)p);
       it != g->mutexes.end() && it->first < end;) {
    if (it->second.owner >= 0)
      violation("destroyed-locked", "memory of a locked mutex released");
    it = g->mutexes.erase(it);
  }
  for (auto it = g->conds.lower_bound((uptr)p);
       it != g->conds.end() && it->first < end;) {
    if (!it->second.waiters.empty())
      violation("destroyed-waited", "memory of a waited condvar released");
    it = g->conds.erase(it);
  }
  for (uptr a = a0; a < end; a += 8) {
    Cell* c = find_cell(a, false);
    if (!c) continue;
    if (c->has_atomic) invalidate_loc_word(a);
    memset(c->b, 0, sizeof c->b);
    c->has_atomic = 0;
    c->freed = 1;
  }
}

// ---------------------------------------------------------------- scheduler

int choose(int n, bool sched_state, u64 key, int rem) {
  if (n <= 1) return 0;
  int c = 0;
  if (g->pos < g->prefix.size()) {
    if (g->prefix[g->pos].n != n)
      rt_error("schedule divergence at choice %zu: %d alternatives, expected %d",
               g->pos, n, g->prefix[g->pos].n);
    c = g->prefix[g->pos].c;
    g->pos++;
  } else if (!g->nobranch && !g->replay) {
    if (sched_state) {
      bool fresh;
      signed char* best = g->visited.insert(key, rem, &fresh);
      if (!fresh) {
        if (*best >= rem) {
          g->nobranch = true;
          g->pruned++;
        } else {
          *best = (signed char)rem;
        }
      }
    }
    if (!g->nobranch) {
      g->prefix.push_back({n, 0});
      g->pos++;
    }
  }
  g->trace.push_back({n, c});
  return c;
}

bool mutex_free(uptr m) {
  auto it = g->mutexes.find(m);
  return it == g->mutexes.end() || it->second.owner < 0;
}

bool enabled(Thread& t) {
  switch (t.st) {
    case RUN: return true;
    case LOCK: return mutex_free(t.wobj);
    case JOIN: return g->th[t.wobj].st == DONE;
    case SPIN: return g->mod != t.seen_mod;
    default: return false;
  }
}

u64 state_hash() {
  u64 h = g->memhash;
  for (int i = 0; i < g->nthreads; i++) {
    Thread& t = g->th[i];
    h += mix(mix(i, t.hist), t.st * 31 + t.opidx * 1000003ull +
                                 (t.st == SPIN && g->mod != t.seen_mod));
  }
  return h;
}

void unqueue(Thread& t) {
  auto it = g->conds.find(t.wobj);
  if (it != g->conds.end()) {
    auto& w = it->second.waiters;
    w.erase(std::remove(w.begin(), w.end(), t.id), w.end());
  }
}

void make_lock_pending(Thread& t) {
  t.st = LOCK;
  t.wobj = t.relock;
}

[[noreturn]] void deadlock() {
  std::string m = "no thread can make progress:";
  for (int i = 0; i < g->nthreads; i++) {
    m += " t" + std::to_string(i) + "=" + kStName[g->th[i].st];
  }
  violation("deadlock", m.c_str());
}

void finish_execution() {
  g->running = false;
  __atomic_store_n(&g->done_futex, 1, __ATOMIC_SEQ_CST);
  futex_wake(&g->done_futex);
}

void switch_to(int next, bool wait) {
  Thread* me = self;
  g->cur = next;
  Thread& n = g->th[next];
  if (&n == me) return;
  if (wait) __atomic_store_n(&me->baton, 0, __ATOMIC_SEQ_CST);
  __atomic_store_n(&n.baton, 1, __ATOMIC_SEQ_CST);
  futex_wake(&n.baton);
  if (wait)
    while (!__atomic_load_n(&me->baton, __ATOMIC_SEQ_CST))
      futex_wait(&me->baton, 0);
}

// Decides who runs next. Called by the baton holder with its own state already
// set. Returns once the caller has been scheduled again (unless DONE).
void pick() {
  RtScope rs;
  Thread* me = self;
  for (;;) {
    if (++g->steps > (u64)g->max_steps)
      violation("no-termination", "step limit exceeded");
    int opts[3 * T], cost_p[3 * T], cost_s[3 * T], kind[3 * T];
    int n = 0;
    bool me_en = enabled(*me);
    auto add = [&](int id, int k, int p, int s) {
      opts[n] = id;
      kind[n] = k;
      cost_p[n] = p;
      cost_s[n] = s;
      n++;
    };
    if (me_en) add(me->id, 0, 0, 0);
    for (int d = 1; d <= g->nthreads; d++) {
      int i = (me->id + d) % g->nthreads;
      if (i == me->id) continue;
      if (enabled(g->th[i])) {
        if (!me_en || g->used_preempt < g->bounds.preempt)
          add(i, 0, me_en ? 1 : 0, 0);
      }
    }
    if (n == 0) {
      // Spinners wait for a modification that nobody else can make now.
      bool any = false;
      for (int i = 0; i < g->nthreads; i++)
        if (g->th[i].st == SPIN) {
          g->th[i].st = RUN;
          g->th[i].seen_mod = g->mod;
          any = true;
          break;
        }
      if (any) continue;
      // Timers: the earliest deadline fires.
      int best = -1;
      for (int i = 0; i < g->nthreads; i++) {
        Thread& t = g->th[i];
        if ((t.st == SLEEP || (t.st == COND && t.timed)) &&
            (best < 0 || t.deadline < g->th[best].deadline))
          best = i;
      }
      if (best >= 0) {
        Thread& t = g->th[best];
        if (t.now < t.deadline) t.now = t.deadline;
        if (t.st == SLEEP) {
          t.st = RUN;
        } else {
          unqueue(t);
          t.woke_by_timeout = true;
          make_lock_pending(t);
        }
        continue;
      }
      bool all_done = true;
      for (int i = 0; i < g->nthreads; i++)
        if (g->th[i].st != DONE) all_done = false;
      if (!all_done) deadlock();
      finish_execution();
      return;
    }
    // Environment options: timers, spurious wake-ups.
    for (int i = 0; i < g->nthreads; i++) {
      Thread& t = g->th[i];
      if ((t.st == SLEEP || (t.st == COND && t.timed)) &&
          g->used_timers < g->bounds.timers)
        add(i, 1, 0, 0);
      if (t.st == COND && g->used_spurious < g->bounds.spurious)
        add(i, 2, 0, 1);
    }
    int rem = g->bounds.preempt >= 50 ? 100
                                      : g->bounds.preempt - g->used_preempt;
    u64 sh = state_hash();
    u64 key = mix(sh, g->used_spurious * 64 + g->used_stale * 8 +
                          g->used_timers * 4096);
    if (g->bounds.preempt < 50) key = mix(key, me_en ? me->id + 1 : 0);
    bool fresh_state;
    g->states.insert(sh, 0, &fresh_state);
    int c = choose(n, g->stateful, key, rem);
    int id = opts[c];
    Thread& t = g->th[id];
    g->used_preempt += cost_p[c];
    g->used_spurious += cost_s[c];
    if (kind[c] == 1) {
      g->used_timers++;
      if (t.now < t.deadline) t.now = t.deadline;
      if (t.st == SLEEP) {
        t.st = RUN;
      } else {
        unqueue(t);
        t.woke_by_timeout = true;
        make_lock_pending(t);
      }
      t.hist = mix(t.hist, 4242);
      continue;
    }
    if (kind[c] == 2) {
      unqueue(t);
      make_lock_pending(t);
      t.hist = mix(t.hist, 777);
      continue;
    }
    if (t.st == SPIN) {
      t.st = RUN;
      t.idle = 0;
    }
    switch_to(id, me->st != DONE);
    return;
  }
}

void begin_op(const char* name) {
  Thread* t = self;
  t->lastop = name;
  pick();
  t->opidx++;
  g->transitions++;
}

void did_modify() {
  g->mod++;
  self->idle = 0;
  self->spin_cnt = 0;
}

// Called after an operation that changed nothing visible to others. A thread
// that keeps observing the same value of the same object while nobody modifies
// anything is busy waiting: it is suspended until some modification happens.
void did_observe(uptr a, u64 id) {
  Thread* t = self;
  if (t->seen_mod != g->mod) {
    t->seen_mod = g->mod;
    t->idle = 0;
    t->spin_cnt = 0;
  }
  if (++t->idle > 3000)
    violation("livelock", "a thread spins although no other thread can run");
  int k = 0;
  while (k < t->spin_cnt && (t->spin_a[k] != a || t->spin_id[k] != id)) k++;
  if (k == t->spin_cnt) {
    if (k == 8) k = 0; else t->spin_cnt++;
    t->spin_a[k] = a;
    t->spin_id[k] = id;
    t->spin_n[k] = 0;
  }
  if (++t->spin_n[k] >= 3) {
    t->spin_cnt = 0;
    bool other = false;
    for (int i = 0; i < g->nthreads; i++)
      if (i != t->id && enabled(g->th[i])) other = true;
    if (other) t->st = SPIN;
  }
}

u64 my_id() { return mix(self->id * 1000003ull + self->opidx, self->hist); }

// ------------------------------------------------------------------ atomics

bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

Loc& get_loc(uptr a, int size) {
  Loc& l = g->locs[a];
  if (l.hist.empty() || l.size != size) {
    if (!l.hist.empty()) g->memhash -= mix(l.chain, 99);
    l.hist.clear();
    l.size = size;
    StoreRec s;
    memset(&s, 0, sizeof s);
    memcpy(s.val, (void*)a, size);
    s.tid = -1;
    s.id = kInit;
    l.hist.push_back(s);
    l.chain = kInit;
    g->memhash += mix(l.chain, 99);
  }
  // Uninstrumented code may have changed the memory.
  StoreRec& n = l.hist.back();
  if (memcmp(n.val, (void*)a, size) != 0) {
    memcpy(n.val, (void*)a, size);
    if (l.hist.size() > 1) l.hist.erase(l.hist.begin(), l.hist.end() - 1);
  }
  return l;
}

void push_store(Loc& l, uptr a, const void* v, int size, const VC& rel) {
  Thread* t = self;
  memcpy((void*)a, v, size);
  StoreRec s;
  memset(&s, 0, sizeof s);
  memcpy(s.val, v, size);
  s.tid = t->id;
  s.clk = t->vc.c[t->id];
  s.rel = rel;
  s.id = my_id();
  g->memhash -= mix(l.chain, 99);
  l.chain = g->bounds.stale ? mix(l.chain, s.id) : s.id;
  g->memhash += mix(l.chain, 99);
  l.hist.push_back(s);
  if (l.hist.size() > 4) l.hist.erase(l.hist.begin());
}

void read_from(StoreRec& s, int mo) {
  Thread* t = self;
  t->acq_pend.join(s.rel);
  if (is_acq(mo)) t->vc.join(s.rel);
  u32 c = t->vc.c[t->id];
  if (s.rclk[t->id] == 0 || c > s.rclk[t->id]) {
    if (s.rclk[t->id] == 0) s.rclk[t->id] = c;
  }
  t->hist = mix(t->hist, s.id);
}

void tick() { self->vc.c[self->id]++; }

void atomic_load_impl(uptr a, int size, int mo, void* out, void* pc) {
  begin_op("atomic load");
  access(a, size, false, true, pc);
  RtScope rs;
  Thread* t = self;
  Loc& l = get_loc(a, size);
  int newest = (int)l.hist.size() - 1;
  int pickidx = newest;
  if (mo != 5 && g->used_stale < g->bounds.stale) {
    int lo = newest;
    while (lo > 0) {
      StoreRec& s = l.hist[lo];
      bool hb = s.tid < 0 || s.tid == t->id || s.clk <= t->vc.c[s.tid];
      for (int i = 0; i < g->nthreads && !hb; i++)
        if (s.rclk[i] && (i == t->id || s.rclk[i] <= t->vc.c[i])) hb = true;
      if (hb) break;
      lo--;
    }
    int c = choose(newest - lo + 1, false, 0, 0);
    if (c) g->used_stale++;
    pickidx = newest - c;
  }
  StoreRec& s = l.hist[pickidx];
  memcpy(out, s.val, size);
  read_from(s, mo);
  did_observe(a, s.id);
}

void atomic_store_impl(uptr a, int size, int mo, const void* v, void* pc) {
  begin_op("atomic store");
  access(a, size, true, true, pc);
  RtScope rs;
  Thread* t = self;
  Loc& l = get_loc(a, size);
  t->hist = mix(t->hist, 11);
  push_store(l, a, v, size, is_rel(mo) ? t->vc : t->fence_rel);
  tick();
  did_modify();
}

template <class V, class F>
V atomic_rmw(uptr a, int mo, F f, void* pc) {
  begin_op("atomic rmw");
  access(a, sizeof(V), true, true, pc);
  RtScope rs;
  Thread* t = self;
  Loc& l = get_loc(a, sizeof(V));
  StoreRec& s = l.hist.back();
  V old;
  memcpy(&old, s.val, sizeof(V));
  VC rel = s.rel;  // RMWs continue the release sequence
  read_from(s, mo);
  if (is_rel(mo))
    rel.join(t->vc);
  else
    rel.join(t->fence_rel);
  V nv = f(old);
  push_store(l, a, &nv, sizeof(V), rel);
  tick();
  did_modify();
  return old;
}

template <class V>
bool atomic_cas(uptr a, V* expected, V desired, int mo, int fmo, bool weak,
                void* pc) {
  begin_op("atomic cas");
  RtScope rs;
  Thread* t = self;
  bool fail_spuriously = false;
  {
    Loc& l = get_loc(a, sizeof(V));
    StoreRec& s = l.hist.back();
    V old;
    memcpy(&old, s.val, sizeof(V));
    if (weak && old == *expected && g->used_spurious < g->bounds.spurious) {
      if (choose(2, false, 0, 0)) {
        g->used_spurious++;
        fail_spuriously = true;
      }
    }
    if (old != *expected || fail_spuriously) {
      in_rt--;
      access(a, sizeof(V), false, true, pc);
      in_rt++;
      read_from(s, fmo);
      *expected = old;
      did_observe(a, s.id);
      return false;
    }
    in_rt--;
    access(a, sizeof(V), true, true, pc);
    in_rt++;
    VC rel = s.rel;
    read_from(s, mo);
    if (is_rel(mo))
      rel.join(t->vc);
    else
      rel.join(t->fence_rel);
    push_store(l, a, &desired, sizeof(V), rel);
  }
  tick();
  did_modify();
  return true;
}

// ------------------------------------------------------------------ threads

void thread_exit_hook(void* p) {
  Thread* t = (Thread*)p;
  if (self != t) return;
  t->lastop = "thread exit";
  {
    RtScope rs;
    t->opidx++;
    t->hist = mix(t->hist, 5);
  }
  t->st = DONE;
  g->mod++;
  pick();
  self = nullptr;
}

void* trampoline(void* p) {
  Thread* t = (Thread*)p;
  while (!__atomic_load_n(&t->baton, __ATOMIC_SEQ_CST)) futex_wait(&t->baton, 0);
  self = t;
  t->hist = mix(t->hist, 3);  // starting is a step: a started thread is a new state
  pthread_setspecific(exit_key, t);
  return t->fn(t->arg);
}

void init_thread(Thread& t, int id) {
  memset(&t, 0, sizeof t);
  t.id = id;
  t.st = RUN;
  t.vc.c[id] = 1;
  t.hist = mix(id, 0xabc);
  t.now = 1000000000ll;
}

int start_os_thread(Thread& t) {
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, g->stacks + (size_t)t.id * kStack, kStack);
  int r = r_create(&t.os, &at, trampoline, &t);
  pthread_attr_destroy(&at);
  return r;
}

Mutex& get_mutex(uptr m) { return g->mutexes[m]; }

void lock_mutex(uptr m) {
  Thread* t = self;
  check_thread_storage(m, "locks a mutex in", __builtin_return_address(0));
  {
    RtScope rs;
    Mutex& mu = get_mutex(m);
    if (mu.owner == t->id) violation("self-deadlock", "mutex locked twice");
    t->st = LOCK;
    t->wobj = m;
  }
  begin_op("mutex lock");
  RtScope rs;
  t->st = RUN;
  Mutex& mu = get_mutex(m);
  if (mu.owner >= 0) rt_error("scheduled although mutex is owned");
  mu.owner = t->id;
  t->vc.join(mu.vc);
  t->hist = mix(t->hist, mu.id);
  did_modify();
}

void unlock_raw(uptr m) {
  Thread* t = self;
  Mutex& mu = get_mutex(m);
  if (mu.owner != t->id)
    violation("bad-unlock", "mutex unlocked by a thread that does not own it");
  mu.owner = -1;
  mu.vc = t->vc;
  mu.id = my_id();
  tick();
  did_modify();
}

void unlock_mutex(uptr m) {
  begin_op("mutex unlock");
  RtScope rs;
  self->hist = mix(self->hist, 17);
  unlock_raw(m);
}

// Returns true if woken by a timeout.
bool cond_wait_impl(uptr c, uptr m, bool timed, int64_t deadline) {
  begin_op("condvar wait");
  Thread* t = self;
  {
    RtScope rs;
    t->hist = mix(t->hist, 23);
    Mutex& mu = get_mutex(m);
    if (mu.owner != t->id)
      violation("bad-wait", "condvar wait without owning the mutex");
    unlock_raw(m);
    g->conds[c].waiters.push_back(t->id);
    t->st = COND;
    t->wobj = c;
    t->relock = m;
    t->timed = timed;
    t->deadline = deadline;
    t->woke_by_timeout = false;
  }
  pick();
  RtScope rs;
  t->st = RUN;
  Mutex& mu = get_mutex(m);
  if (mu.owner >= 0) rt_error("cond: scheduled although mutex is owned");
  mu.owner = t->id;
  t->vc.join(mu.vc);
  t->hist = mix(t->hist, mu.id);
  t->opidx++;
  g->transitions++;
  did_modify();
  return t->woke_by_timeout;
}

void cond_signal_impl(uptr c, bool all) {
  begin_op(all ? "condvar broadcast" : "condvar signal");
  RtScope rs;
  Thread* t = self;
  t->hist = mix(t->hist, 29);
  auto it = g->conds.find(c);
  if (it == g->conds.end() || it->second.waiters.empty()) {
    did_observe(c, 1);
    return;
  }
  auto& w = it->second.waiters;
  if (all) {
    for (int id : w) {
      make_lock_pending(g->th[id]);
      g->th[id].hist = mix(g->th[id].hist, 31);
    }
    w.clear();
  } else {
    std::sort(w.begin(), w.end());
    int k = choose((int)w.size(), false, 0, 0);
    int id = w[k];
    make_lock_pending(g->th[id]);
    g->th[id].hist = mix(g->th[id].hist, 31);
    w.erase(w.begin() + k);
  }
  t->hist = mix(t->hist, 37);
  did_modify();
}

void sleep_impl(int64_t ns) {
  Thread* t = self;
  t->st = SLEEP;
  t->deadline = t->now + ns;
  t->lastop = "sleep";
  pick();
  t->opidx++;
  g->transitions++;
  t->hist = mix(t->hist, 41);
}

bool managed() { return self && !in_rt && g->running; }

int64_t vclock() {
  self->now += g->cfg->tick_ns;
  return self->now;
}

}  // namespace

// =========================================================== interposed libc

extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t* at,
                   void* (*fn)(void*), void* arg) {
  init_real();
  if (!managed()) return r_create(th, at, fn, arg);
  begin_op("thread create");
  RtScope rs;
  Thread* p = self;
  if (g->nthreads >= T) rt_error("too many threads");
  int id = g->nthreads;
  Thread& t = g->th[id];
  init_thread(t, id);
  t.vc.join(p->vc);
  t.vc.c[id] = 1;
  t.fn = fn;
  t.arg = arg;
  t.now = p->now;
  p->hist = mix(p->hist, 43 + id);
  int r = start_os_thread(t);
  if (r) rt_error("pthread_create failed %d", r);
  g->nthreads++;
  tick();
  *th = t.os;
  did_modify();
  return 0;
}

int pthread_join(pthread_t th, void** ret) {
  init_real();
  if (!managed()) return r_join(th, ret);
  Thread* t = self;
  int target = -1;
  {
    RtScope rs;
    for (int i = 0; i < g->nthreads; i++)
      if (!g->th[i].joined && !g->th[i].detached &&
          pthread_equal(g->th[i].os, th))
        target = i;
    if (target < 0) violation("bad-join", "join of an unknown thread");
    t->st = JOIN;
    t->wobj = target;
  }
  begin_op("thread join");
  RtScope rs;
  t->st = RUN;
  t->vc.join(g->th[target].vc);
  t->hist = mix(t->hist, 47 + target);
  g->th[target].joined = true;
  r_join(th, ret);
  did_modify();
  return 0;
}

int pthread_detach(pthread_t th) {
  init_real();
  if (!managed()) return r_detach(th);
  RtScope rs;
  for (int i = 0; i < g->nthreads; i++)
    if (!g->th[i].joined && pthread_equal(g->th[i].os, th))
      g->th[i].detached = true;
  return 0;
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  init_real();
  if (!managed()) return r_mlock(m);
  lock_mutex((uptr)m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  init_real();
  if (!managed()) return r_mtrylock(m);
  begin_op("mutex trylock");
  RtScope rs;
  Thread* t = self;
  Mutex& mu = get_mutex((uptr)m);
  if (mu.owner >= 0) {
    t->hist = mix(t->hist, 53);
    did_observe((uptr)m, mu.id);
    return EBUSY;
  }
  mu.owner = t->id;
  t->vc.join(mu.vc);
  t->hist = mix(t->hist, mu.id);
  did_modify();
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  init_real();
  if (!managed()) return r_munlock(m);
  unlock_mutex((uptr)m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (managed()) {
    RtScope rs;
    auto it = g->mutexes.find((uptr)m);
    if (it != g->mutexes.end()) {
      if (it->second.owner >= 0)
        violation("destroyed-locked", "locked mutex destroyed");
      g->mutexes.erase(it);
    }
  }
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  init_real();
  if (!managed()) return r_cwait(c, m);
  cond_wait_impl((uptr)c, (uptr)m, false, 0);
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m,
                           const struct timespec* ts) {
  init_real();
  if (!managed()) return r_ctimed(c, m, ts);
  return cond_wait_impl((uptr)c, (uptr)m, true,
                        ts->tv_sec * 1000000000ll + ts->tv_nsec)
             ? ETIMEDOUT
             : 0;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k,
                           const struct timespec* ts) {
  init_real();
  if (!managed()) return r_cclock(c, m, k, ts);
  return cond_wait_impl((uptr)c, (uptr)m, true,
                        ts->tv_sec * 1000000000ll + ts->tv_nsec)
             ? ETIMEDOUT
             : 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
  init_real();
  if (!managed()) return r_csignal(c);
  cond_signal_impl((uptr)c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  init_real();
  if (!managed()) return r_cbroadcast(c);
  cond_signal_impl((uptr)c, true);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  init_real();
  if (!managed()) return r_cdestroy(c);
  RtScope rs;
  auto it = g->conds.find((uptr)c);
  if (it != g->conds.end()) {
    if (!it->second.waiters.empty())
      violation("destroyed-waited", "condvar destroyed while a thread waits");
    g->conds.erase(it);
  }
  return 0;
}
int sched_yield(void) {
  init_real();
  if (!managed()) return r_yield();
  begin_op("yield");
  RtScope rs;
  did_observe(1, 1);
  did_observe(1, 1);
  did_observe(1, 1);
  return 0;
}
int clock_gettime(clockid_t k, struct timespec* ts) {
  init_real();
  if (!managed()) return r_clock(k, ts);
  int64_t v = vclock();
  ts->tv_sec = v / 1000000000ll;
  ts->tv_nsec = v % 1000000000ll;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  init_real();
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  init_real();
  if (!managed()) return r_nanosleep(a, b);
  sleep_impl(a->tv_sec * 1000000000ll + a->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec* a,
                    struct timespec* b) {
  init_real();
  if (!managed()) return r_clknanosleep(k, fl, a, b);
  int64_t ns = a->tv_sec * 1000000000ll + a->tv_nsec;
  sleep_impl(fl ? std::max<int64_t>(0, ns - self->now) : ns);
  return 0;
}
int usleep(useconds_t us) {
  struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}

void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  if (self) on_alloc(p, malloc_usable_size(p));
  return p;
}
void free(void* p) {
  if (self) on_free(p, __builtin_return_address(0));
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  void* p = __libc_calloc(a, b);
  if (self) on_alloc(p, malloc_usable_size(p));
  return p;
}
void* realloc(void* p, size_t n) {
  if (!self || in_rt) return __libc_realloc(p, n);
  if (!p) return malloc(n);
  void* q = __libc_malloc(n);
  memcpy(q, p, std::min(n, malloc_usable_size(p)));
  on_alloc(q, malloc_usable_size(q));
  on_free(p, __builtin_return_address(0));
  __libc_free(p);
  return q;
}
int posix_memalign(void** out, size_t al, size_t n) {
  void* p = __libc_memalign(al, n);
  if (!p) return ENOMEM;
  if (self) on_alloc(p, malloc_usable_size(p));
  *out = p;
  return 0;
}
void* aligned_alloc(size_t al, size_t n) {
  void* p = __libc_memalign(al, n);
  if (self) on_alloc(p, malloc_usable_size(p));
  return p;
}
void* memalign(size_t al, size_t n) { return aligned_alloc(al, n); }

// Function-local statics.
int __cxa_guard_acquire(u64* gd) {
  if (!managed()) {
    if (*(char*)gd) return 0;
    return 1;
  }
  begin_op("static init");
  RtScope rs;
  char* b = (char*)gd;
  for (int spin = 0;; spin++) {
    if (b[0]) {
      self->vc.join(g->guards[(uptr)gd]);
      self->hist = mix(self->hist, 61);
      return 0;
    }
    if (!b[1]) {
      b[1] = 1;
      self->hist = mix(self->hist, 67);
      did_modify();
      return 1;
    }
    self->hist = mix(self->hist, 73);
    did_observe((uptr)gd, 2);
    in_rt--;
    pick();
    in_rt++;
  }
}
void __cxa_guard_release(u64* gd) {
  char* b = (char*)gd;
  if (managed()) {
    RtScope rs;
    g->guards[(uptr)gd] = self->vc;
    tick();
    did_modify();
    // The inlined fast path is an instrumented acquire load of this byte.
    Loc& l = get_loc((uptr)gd, 1);
    char one = 1;
    push_store(l, (uptr)gd, &one, 1, g->guards[(uptr)gd]);
  }
  b[0] = 1;
  b[1] = 0;
}
void __cxa_guard_abort(u64* gd) { ((char*)gd)[1] = 0; }

// ======================================================= compiler callbacks

#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) access((uptr)p, 8, true, false, PC);
}
void __tsan_vptr_read(void** p) { access((uptr)p, 8, false, false, PC); }
#define RW(N)                                                               \
  void __tsan_read##N(void* p) { access((uptr)p, N, false, false, PC); }    \
  void __tsan_write##N(void* p) { access((uptr)p, N, true, false, PC); }    \
  void __tsan_unaligned_read##N(void* p) {                                  \
    access((uptr)p, N, false, false, PC);                                   \
  }                                                                         \
  void __tsan_unaligned_write##N(void* p) {                                 \
    access((uptr)p, N, true, false, PC);                                    \
  }                                                                         \
  void __tsan_volatile_read##N(void* p) {                                   \
    access((uptr)p, N, false, false, PC);                                   \
  }                                                                         \
  void __tsan_volatile_write##N(void* p) {                                  \
    access((uptr)p, N, true, false, PC);                                    \
  }                                                                         \
  void __tsan_unaligned_volatile_read##N(void* p) {                         \
    access((uptr)p, N, false, false, PC);                                   \
  }                                                                         \
  void __tsan_unaligned_volatile_write##N(void* p) {                        \
    access((uptr)p, N, true, false, PC);                                    \
  }                                                                         \
  void __tsan_read_write##N(void* p) { access((uptr)p, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) {
  access((uptr)p, n, false, false, PC);
}
void __tsan_write_range(void* p, size_t n) {
  access((uptr)p, n, true, false, PC);
}

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (self && n) {
    access((uptr)s, n, false, false, PC);
    access((uptr)d, n, true, false, PC);
  }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (self && n) {
    access((uptr)s, n, false, false, PC);
    access((uptr)d, n, true, false, PC);
  }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n) {
  if (self && n) access((uptr)d, n, true, false, PC);
  return __real_memset(d, v, n);
}

void __tsan_atomic_thread_fence(int mo) {
  if (!managed()) {
    __sync_synchronize();
    return;
  }
  begin_op("fence");
  RtScope rs;
  Thread* t = self;
  t->hist = mix(t->hist, 71);
  if (is_acq(mo)) t->vc.join(t->acq_pend);
  if (is_rel(mo)) {
    t->fence_rel = t->vc;
    tick();
  }
}
void __tsan_atomic_signal_fence(int) {}

#define ATOM(BITS, V)                                                          \
  V __tsan_atomic##BITS##_load(const volatile V* a, int mo) {                  \
    if (!managed()) return __atomic_load_n(a, __ATOMIC_SEQ_CST);               \
    V v;                                                                       \
    atomic_load_impl((uptr)a, sizeof(V), mo, &v, PC);                          \
    return v;                                                                  \
  }                                                                            \
  void __tsan_atomic##BITS##_store(volatile V* a, V v, int mo) {               \
    if (!managed()) {                                                          \
      __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                \
      return;                                                                  \
    }                                                                          \
    atomic_store_impl((uptr)a, sizeof(V), mo, &v, PC);                         \
  }                                                                            \
  V __tsan_atomic##BITS##_exchange(volatile V* a, V v, int mo) {               \
    if (!managed()) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);        \
    return atomic_rmw<V>((uptr)a, mo, [=](V) { return v; }, PC);               \
  }                                                                            \
  V __tsan_atomic##BITS##_fetch_add(volatile V* a, V v, int mo) {              \
    if (!managed()) return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);         \
    return atomic_rmw<V>((uptr)a, mo, [=](V o) { return (V)(o + v); }, PC);    \
  }                                                                            \
  V __tsan_atomic##BITS##_fetch_sub(volatile V* a, V v, int mo) {              \
    if (!managed()) return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);         \
    return atomic_rmw<V>((uptr)a, mo, [=](V o) { return (V)(o - v); }, PC);    \
  }                                                                            \
  V __tsan_atomic##BITS##_fetch_and(volatile V* a, V v, int mo) {              \
    if (!managed()) return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);         \
    return atomic_rmw<V>((uptr)a, mo, [=](V o) { return (V)(o & v); }, PC);    \
  }                                                                            \
  V __tsan_atomic##BITS##_fetch_or(volatile V* a, V v, int mo) {               \
    if (!managed()) return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);          \
    return atomic_rmw<V>((uptr)a, mo, [=](V o) { return (V)(o | v); }, PC);    \
  }                                                                            \
  V __tsan_atomic##BITS##_fetch_xor(volatile V* a, V v, int mo) {              \
    if (!managed()) return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);         \
    return atomic_rmw<V>((uptr)a, mo, [=](V o) { return (V)(o ^ v); }, PC);    \
  }                                                                            \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile V* a, V* e, V d,  \
                                                    int mo, int fmo) {         \
    if (!managed())                                                            \
      return __atomic_compare_exchange_n(a, e, d, 0, __ATOMIC_SEQ_CST,         \
                                         __ATOMIC_SEQ_CST);                    \
    return atomic_cas<V>((uptr)a, e, d, mo, fmo, false, PC);                   \
  }                                                                            \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile V* a, V* e, V d,    \
                                                  int mo, int fmo) {           \
    if (!managed())                                                            \
      return __atomic_compare_exchange_n(a, e, d, 0, __ATOMIC_SEQ_CST,         \
                                         __ATOMIC_SEQ_CST);                    \
    return atomic_cas<V>((uptr)a, e, d, mo, fmo, true, PC);                    \
  }                                                                            \
  V __tsan_atomic##BITS##_compare_exchange_val(volatile V* a, V e, V d,        \
                                               int mo, int fmo) {              \
    if (!managed()) {                                                          \
      __atomic_compare_exchange_n(a, &e, d, 0, __ATOMIC_SEQ_CST,               \
                                  __ATOMIC_SEQ_CST);                           \
      return e;                                                                \
    }                                                                          \
    atomic_cas<V>((uptr)a, &e, d, mo, fmo, false, PC);                         \
    return e;                                                                  \
  }
ATOM(8, u8)
ATOM(16, uint16_t)
ATOM(32, u32)
ATOM(64, u64)

}  // extern "C"

// ================================================================= explorer

namespace mc {

void Fail(const char* fmt, ...) {
  char msg[1000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(msg, sizeof msg, fmt, ap);
  va_end(ap);
  violation("property", msg);
}

void Outcome(u64 h) { g->outcome = mix(g->outcome, h); }

int Choose(int n) {
  if (!managed()) return 0;
  RtScope rs;
  int c = choose(n, false, 0, 0);
  self->hist = mix(self->hist, 1000 + c);
  return c;
}
int ThreadId() { return self ? self->id : -1; }
int ThreadsCreated() { return g->nthreads - 1; }
int ThreadsAlive() {
  int n = 0;
  for (int i = 1; i < g->nthreads; i++) n += g->th[i].st != DONE;
  return n;
}
void AdvanceClock(int64_t ns) {
  if (self) self->now += ns;
}

namespace {

void* body_entry(void*) {
  g->cfg->body();
  return nullptr;
}

void run_once() {
  // Fresh per-execution state; statics of the program under test are restored
  // so that first-use initialisation is part of every execution.
  memcpy(__data_start, g->snap, g->snap_len);
  g->nthreads = 0;
  g->steps = 0;
  g->mod = 1;
  g->memhash = 0;
  g->used_preempt = g->used_spurious = g->used_stale = g->used_timers = 0;
  g->nobranch = false;
  g->pos = 0;
  g->trace.clear();
  g->mutexes.clear();
  g->conds.clear();
  g->locs.clear();
  g->guards.clear();
  g->outcome = 0;
  g->gen++;
  g->used_cells = 0;
  g->done_futex = 0;
  Thread& t = g->th[0];
  init_thread(t, 0);
  g->nthreads = 1;
  g->cur = 0;
  t.fn = body_entry;
  t.baton = 1;
  g->running = true;
  struct itimerval it = {{0, 0}, {60, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);  // CPU time, not wall time
  if (start_os_thread(t)) rt_error("cannot start thread 0");
  while (!__atomic_load_n(&g->done_futex, __ATOMIC_SEQ_CST))
    futex_wait(&g->done_futex, 0);
  for (int i = 0; i < g->nthreads; i++)
    if (!g->th[i].joined) {
      r_join(g->th[i].os, nullptr);
      if (i != 0 && !g->th[i].detached) {
        // Program ended without joining: report after all threads are gone.
        g->running = true;
        violation("unjoined-thread", "a thread was never joined");
      }
    }
  if (g->pos < g->prefix.size() && !g->replay)
    rt_error("execution ended before its schedule prefix (%zu of %zu)", g->pos,
             g->prefix.size());
  g->final_hash = mix(state_hash(), g->outcome);
  if (!g->replay && g->execs % g->sample_step == 0) {
    if (g->samples.size() >= 256) {
      g->sample_step *= 2;
      size_t k = 0;
      for (size_t i = 0; i < g->samples.size(); i += 2)
        g->samples[k++] = g->samples[i];
      g->samples.resize(k);
    }
    if (g->execs % g->sample_step == 0)
      g->samples.push_back({g->trace, g->bounds.preempt, g->final_hash});
  }
  g->execs++;
  g->max_threads = std::max<u64>(g->max_threads, g->nthreads);
  g->max_depth = std::max<u64>(g->max_depth, g->trace.size());
  if (g->used_preempt) g->preempt_execs++;
  g->outcomes[g->outcome]++;
}

// Moves to the next unexplored schedule; false when exhausted.
bool backtrack() {
  while (!g->prefix.empty()) {
    ChoiceRec& r = g->prefix.back();
    bool first_dev = true;
    for (size_t i = 0; i + 1 < g->prefix.size(); i++)
      if (g->prefix[i].c) {
        first_dev = false;
        break;
      }
    while (r.c + 1 < r.n) {
      r.c++;
      if (!first_dev || g->nshards <= 1 ||
          (int)((g->prefix.size() * 7 + r.c) % g->nshards) == g->shard)
        return true;
    }
    g->prefix.pop_back();
  }
  return false;
}

double now_s() {
  struct timespec ts;
  r_clock(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

}  // namespace

int Main(int argc, char** argv, const std::vector<Config>& configs) {
  init_real();
  std::string name, out, artifact, replay;
  std::string tier = "quick";
  double seconds = 1e9;
  int shard = 0, nshards = 1, pin = -1;
  Bounds ov;
  bool have_ov = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--list") {
      for (auto& c : configs) printf("%s %g\n", c.name.c_str(), c.weight);
      return 0;
    } else if (a == "--config") name = next();
    else if (a == "--tier") tier = next();
    else if (a == "--out") out = next();
    else if (a == "--artifact") artifact = next();
    else if (a == "--replay") replay = next();
    else if (a == "--seconds") seconds = atof(next().c_str());
    else if (a == "--shard") sscanf(next().c_str(), "%d/%d", &shard, &nshards);
    else if (a == "--pin") pin = atoi(next().c_str());
    else if (a == "--bounds") {
      have_ov = sscanf(next().c_str(), "%d,%d,%d,%d", &ov.preempt, &ov.spurious,
                       &ov.stale, &ov.timers) == 4;
    } else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 2;
    }
  }
  std::vector<ChoiceRec> replay_choices;
  if (!replay.empty()) {
    FILE* f = fopen(replay.c_str(), "r");
    if (!f) return 2;
    char buf[256];
    while (fscanf(f, "%255s", buf) == 1) {
      if (!strcmp(buf, "config")) {
        if (fscanf(f, "%255s", buf) != 1) return 2;
        name = buf;
      } else if (!strcmp(buf, "bounds")) {
        have_ov = fscanf(f, "%d %d %d %d", &ov.preempt, &ov.spurious, &ov.stale,
                         &ov.timers) == 4;
      } else if (!strcmp(buf, "choices")) {
        size_t n;
        if (fscanf(f, "%zu", &n) != 1) return 2;
        for (size_t i = 0; i < n; i++) {
          ChoiceRec r;
          if (fscanf(f, "%d/%d", &r.c, &r.n) != 2) return 2;
          replay_choices.push_back(r);
        }
        break;
      } else {
        int ch;
        while ((ch = fgetc(f)) != EOF && ch != '\n') {
        }
      }
    }
    fclose(f);
  }
  const Config* cfg = nullptr;
  for (auto& c : configs)
    if (c.name == name) cfg = &c;
  if (!cfg) {
    fprintf(stderr, "no such config %s\n", name.c_str());
    return 2;
  }
  // One core: hand-offs between threads stay cheap.
  {
    cpu_set_t allowed, one;
    CPU_ZERO(&allowed);
    sched_getaffinity(0, sizeof allowed, &allowed);
    int n = CPU_COUNT(&allowed), want = pin < 0 ? sched_getcpu() : -1;
    if (pin >= 0) {
      int k = pin % n;
      for (int i = 0; i < CPU_SETSIZE; i++)
        if (CPU_ISSET(i, &allowed) && k-- == 0) want = i;
    }
    CPU_ZERO(&one);
    CPU_SET(want, &one);
    sched_setaffinity(0, sizeof one, &one);
  }
  g = new State();
  g->cfg = cfg;
  g->config_name = name;
  g->artifact = artifact;
  g->shard = shard;
  g->nshards = nshards;
  g->max_steps = 60000;
  g->sample_step = 1;
  g->stateful = !getenv("MCRT_STATELESS");
  Bounds target = tier == "thorough" ? cfg->thorough : cfg->quick;
  if (have_ov) target = ov;
  g->cells = (Cell*)mmap(nullptr, sizeof(Cell) * (size_t)kCells,
                         PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS,
                         -1, 0);
  g->stacks = (char*)mmap(nullptr, kStack * T, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (g->cells == MAP_FAILED || g->stacks == MAP_FAILED) return 2;
  pthread_key_create(&exit_key, thread_exit_hook);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGPROF})
    sigaction(s, &sa, nullptr);
  g->snap_len = _end - __data_start;
  g->snap = (char*)mmap(nullptr, g->snap_len, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  memcpy(g->snap, __data_start, g->snap_len);

  double t0 = now_s();
  if (!replay.empty()) {
    g->bounds = target;
    g->replay = true;
    g->prefix = replay_choices;
    run_once();
    printf("MCRT-REPLAY-OK no violation\n");
    fflush(stdout);
    _exit(0);
  }
  // Iterate the preemption bound so that the simplest schedule is found first.
  std::vector<int> levels;
  for (int k = 0; k <= std::min(target.preempt, 3); k++) levels.push_back(k);
  if (target.preempt > 3) levels.push_back(target.preempt);
  bool complete = true;
  int done_level = -1;
  u64 states = 0;
  std::string per_level;
  for (int k : levels) {
    g->bounds = target;
    g->bounds.preempt = k;
    g->visited.clear();
    g->states.clear();
    g->prefix.clear();
    u64 e0 = g->execs;
    bool ok = true;
    for (;;) {
      run_once();
      if ((g->execs & 15) == 0 && now_s() - t0 > seconds) {
        ok = false;
        break;
      }
      if (g->visited.size() + g->states.size() > 40000000) {
        ok = false;
        break;
      }
      if (!backtrack()) break;
    }
    states = std::max<u64>(states, g->states.size());
    char b[128];
    snprintf(b, sizeof b, "%s{\"preempt\":%d,\"execs\":%llu,\"states\":%zu,"
             "\"complete\":%s}", per_level.empty() ? "" : ",", k,
             (unsigned long long)(g->execs - e0), g->states.size(),
             ok ? "true" : "false");
    per_level += b;
    if (!ok) {
      complete = false;
      break;
    }
    done_level = k;
  }
  // Re-execute recorded schedules: each must reach the same final state.
  u64 n_exec = g->execs, n_trans = g->transitions, n_pre = g->preempt_execs;
  size_t n_out = g->outcomes.size();
  u64 replayed = 0;
  g->replay = true;
  std::string sample;
  for (auto& sm : g->samples) {
    g->bounds = target;
    g->bounds.preempt = sm.preempt;
    g->prefix = sm.trace;
    run_once();
    if (g->final_hash != sm.hash)
      rt_error("schedule %llu did not reproduce its final state",
               (unsigned long long)replayed);
    replayed++;
  }
  if (!g->samples.empty()) {
    auto& sm = g->samples[g->samples.size() / 2];
    for (auto& r : sm.trace) {
      if (sample.size() > 300) break;
      sample += std::to_string(r.c) + "/" + std::to_string(r.n) + " ";
    }
  }
  g->execs = n_exec;
  g->transitions = n_trans;
  g->preempt_execs = n_pre;
  FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(f,
          "{\"config\":\"%s\",\"shard\":\"%d/%d\",\"bounds\":[%d,%d,%d,%d],"
          "\"execs\":%llu,\"states\":%llu,\"transitions\":%llu,\"pruned\":%llu,"
          "\"preempt_execs\":%llu,\"outcomes\":%zu,\"max_choices\":%llu,"
          "\"max_threads\":%llu,\"completed_preempt_bound\":%d,\"complete\":%s,"
          "\"levels\":[%s],\"replayed\":%llu,\"sample\":\"%s\","
          "\"seconds\":%.2f}\n",
          name.c_str(), shard, nshards, target.preempt, target.spurious,
          target.stale, target.timers, (unsigned long long)g->execs,
          (unsigned long long)states, (unsigned long long)g->transitions,
          (unsigned long long)g->pruned, (unsigned long long)g->preempt_execs,
          n_out, (unsigned long long)g->max_depth,
          (unsigned long long)g->max_threads, done_level,
          complete ? "true" : "false", per_level.c_str(),
          (unsigned long long)replayed, sample.c_str(), now_s() - t0);
  fflush(f);
  _exit(0);
}

}  // namespace mc
