// C27: every history of multiplications, cache clearings and thread ends, in which
// several threads use one context in turn.
#include <xmmintrin.h>

#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>

#include "mulproblem.h"
#include "ruy/thread_pool.h"

namespace {

// A thread that does what it is told, one thing at a time.
class Actor {
 public:
  Actor() : t_([this] { Loop(); }) {}
  ~Actor() {
    Do(nullptr);
    t_.join();
  }
  void Do(std::function<void()> f) {
    std::unique_lock<std::mutex> l(mu_);
    what_ = f;
    busy_ = true;
    cv_.notify_all();
    cv_.wait(l, [this] { return !busy_; });
  }

 private:
  void Loop() {
    // Each thread has a rounding state of its own, to be kept.
    _mm_setcsr(0x1f80);
    for (;;) {
      std::unique_lock<std::mutex> l(mu_);
      cv_.wait(l, [this] { return busy_; });
      auto f = what_;
      if (f) f();
      busy_ = false;
      cv_.notify_all();
      if (!f) return;
    }
  }
  std::mutex mu_;
  std::condition_variable cv_;
  std::function<void()> what_;
  bool busy_ = false;
  std::thread t_;
};

struct Item {
  const char* name;
  const char* types;
  int m, k, n, lcache, rcache;
  Setting s;
};
const Item kItems[] = {
    {"f", "f32f32f32", 5, 7, 3, 0, 0, {"f", 1, 0, 1, 0, 0, 0, 0}},
    {"F", "f32f32f32", 70, 20, 66, 3, 0, {"F", 0, 0, 1, 1, 1, 0, 0}},
    {"q", "u8u8u8", 40, 9, 19, 3, 3, {"q", 0, 1, 1, 0, 0, 2, 1}},
};
const int kNumItems = 3, kNumActors = 3;
// A thread multiplies one of the items, clears the cache, or ends and is replaced.
const int kOps = kNumItems + 2;

struct Prepared {
  Problem p;
  std::vector<char> l, r, d;
  MulDesc q;
};
std::vector<std::unique_ptr<Prepared>> prepared;

void Prepare(const PathName& path) {
  InitData();
  prepared.clear();
  for (auto& it : kItems) {
    std::unique_ptr<Prepared> x(new Prepared);
    const int types = TypesByName(it.types);
    x->p = MakeProblem(types, it.s, it.m, it.n, it.k, path);
    x->q.types = types;
    LayoutOf(&x->q.l, it.m, it.k, 1, it.s.pad);
    LayoutOf(&x->q.r, it.k, it.n, 0, it.s.pad);
    LayoutOf(&x->q.d, it.m, it.n, 0, it.s.pad);
    FillOperand(kTypes[types].l, x->p.z.l, x->p.lv, it.k, false, &x->q.l, &x->l);
    FillOperand(kTypes[types].r, x->p.z.r, x->p.rv, it.k, true, &x->q.r, &x->r);
    x->d.resize((size_t)x->q.d.stride * it.n * 4 + 64);
    x->q.d.data = x->d.data();
    x->q.d.zp = x->p.z.d;
    x->q.l.cache = it.lcache;
    x->q.r.cache = it.rcache;
    ApplySetting(x->p, &x->q);
    prepared.push_back(std::move(x));
  }
}

// Multiplies and returns the place of a wrong entry, or -1.
int Multiply(int item, ruy::Context* ctx) {
  Prepared& x = *prepared[item];
  std::fill(x.d.begin(), x.d.end(), 0x31);
  x.q.ctx = ctx;
  Mul(x.q);
  const Types& t = kTypes[x.p.types];
  for (int i = 0; i < x.q.d.rows; i++)
    for (int j = 0; j < x.q.d.cols; j++)
      if (std::fabs(Load(t.d, x.d.data(), x.q.d.At(i, j)) - x.p.want[(size_t)i * x.p.N + j]) > x.p.tol)
        return i * 1000 + j;
  return -1;
}

std::vector<std::unique_ptr<Actor>> actors;

void Histories(const PathName& path, int threads, int creator, int first, int depth) {
  Prepare(path);
  actors.clear();
  for (int a = 0; a < kNumActors; a++) actors.emplace_back(new Actor);
  const int base = kNumActors * kOps;
  int total = 1;
  for (int i = 1; i < depth; i++) total *= base;
  for (int code = 0; code < total; code++) {
    if (vd::OutOfTime()) break;
    int ops[8], c = code;
    ops[0] = first;
    for (int i = 1; i < depth; i++) ops[i] = c % base, c /= base;
    std::string name;
    for (int i = 0; i < depth; i++) {
      const int op = ops[i] % kOps;
      name += vd::Str("%s%d%s", i ? "," : "", ops[i] / kOps,
                      op < kNumItems ? kItems[op].name : op == kNumItems ? "clear" : "end");
    }
    if (!vd::Begin("path=%s threads=%d creator=%d history=%s", path.name, threads, creator, name.c_str())) continue;
    std::unique_ptr<ruy::Context> ctx;
    actors[creator]->Do([&] {
      ctx.reset(new ruy::Context);
      Setup(ctx.get(), path, threads);
      ctx->mutable_thread_pool()->set_spin_milliseconds(0);
    });
    uint64_t state = threads;
    for (int i = 0; i < depth; i++) {
      const int who = ops[i] / kOps, op = ops[i] % kOps;
      if (op == kNumItems + 1) {
        actors[who].reset();
        actors[who].reset(new Actor);
      } else if (op == kNumItems) {
        actors[who]->Do([&] { ctx->ClearPrepackedCache(); });
      } else {
        int wrong = -1;
        unsigned csr = 0;
        actors[who]->Do([&] {
          wrong = Multiply(op, ctx.get());
          csr = _mm_getcsr() & 0xffc0;
        });
        if (wrong >= 0)
          vd::Violation("value", "step %d, thread %d: entry (%d,%d) of %s is wrong", i + 1, who, wrong / 1000,
                        wrong % 1000, kItems[op].name);
        if (csr != 0x1f80) vd::Violation("csr", "step %d leaves control state 0x%x on thread %d", i + 1, csr, who);
        vd::Compared(2);
        state = vd::mix(state, HashBytes(prepared[op]->d.data(), prepared[op]->d.size()));
      }
      state = vd::mix(state, ops[i]);
      vd::State(state);
      vd::Transition();
    }
    // Destroyed by the thread that came last.
    actors[ops[depth - 1] / kOps]->Do([&] { ctx.reset(); });
    vd::NonTrivial();
  }
  actors.clear();
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    for (auto& p : RunnablePaths()) {
      if (p.path != ruy::Path::kStandardCpp && !Vector(p)) continue;
      for (int threads : {1, 3})
        for (int first = 0; first < kNumActors * kOps; first++) {
          const PathName pn = p;
          const bool last = p.path == RunnablePaths().back().path;
          const int depth = last || vd::Thorough() ? 4 : 3;
          jobs.emplace_back(vd::Str("%s-%d-%d", p.name, threads, first),
                            [=] { Histories(pn, threads, first % 2, first, depth); }, threads);
        }
    }
    return jobs;
  });
}
