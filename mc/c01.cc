// C01: thread pool under every schedule.
#include <memory>
#include <string>
#include <vector>

#include "mcrt.h"
#include "ruy/thread_pool.h"

namespace {

struct MyTask final : ruy::Task {
  int input = 0;   // written by the caller before Execute
  int runs = 0;    // plain: any unordered access is a race
  int output = 0;
  int tid = -1;
  void Run() override {
    runs++;
    output = input * 2 + 1;
    tid = mc::ThreadId();
  }
};

void Body(const std::vector<int>& counts, float spin_ms) {
  {
    ruy::ThreadPool pool;
    pool.set_spin_milliseconds(spin_ms);
    int call = 0;
    for (int n : counts) {
      std::unique_ptr<MyTask[]> tasks(new MyTask[n]);
      for (int i = 0; i < n; i++) tasks[i].input = 100 * call + i;
      pool.Execute(n, tasks.get());
      for (int i = 0; i < n; i++) {
        if (tasks[i].runs != 1)
          mc::Fail("call %d: task %d of %d ran %d times before the call returned",
                   call, i, n, tasks[i].runs);
        if (tasks[i].output != (100 * call + i) * 2 + 1)
          mc::Fail("call %d: task %d left a wrong result", call, i);
        mc::Outcome(tasks[i].tid + 1);
      }
      call++;
    }
  }
  if (mc::ThreadsAlive() != 0)
    mc::Fail("%d threads still alive after the pool was destroyed",
             mc::ThreadsAlive());
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Config> cs;
  struct H {
    std::vector<int> counts;
    mc::Bounds q, t;
  };
  // preempt, spurious, stale, timers
  std::vector<H> hs = {
      {{}, {99, 0, 0, 0}, {99, 0, 0, 0}},
      {{1}, {99, 0, 0, 0}, {99, 0, 0, 0}},
      {{2}, {99, 1, 1, 0}, {99, 2, 2, 0}},
      {{2, 2}, {3, 1, 1, 0}, {99, 1, 1, 0}},
      {{2, 1, 2}, {3, 0, 1, 0}, {99, 1, 1, 0}},
      {{3}, {2, 1, 0, 0}, {4, 1, 1, 0}},
      {{2, 3}, {2, 0, 0, 0}, {3, 1, 1, 0}},
      {{3, 2}, {2, 0, 0, 0}, {3, 1, 1, 0}},
      {{3, 3}, {1, 0, 0, 0}, {3, 0, 0, 0}},
      {{2, 2, 2}, {2, 0, 0, 0}, {3, 1, 0, 0}},
      {{4}, {1, 0, 0, 0}, {2, 0, 0, 0}},
      {{2, 4, 3}, {0, 0, 0, 0}, {2, 0, 0, 0}},
  };
  struct S {
    const char* n;
    float ms;
    long tick;
  } spins[] = {{"nospin", 0.f, 1}, {"spin1", 1.f, 670000}, {"spin2", 1.f, 400000}};
  for (auto& h : hs)
    for (auto& s : spins) {
      if (s.ms > 0 && h.counts.empty()) continue;
      std::string name = "pool";
      for (int c : h.counts) name += "-" + std::to_string(c);
      name += std::string("-") + s.n;
      mc::Config c;
      c.name = name;
      c.quick = h.q;
      c.thorough = h.t;
      if (std::string(s.n) == "spin2" && h.counts.size() > 1) {
        c.quick.preempt = std::min(c.quick.preempt, 1);
        c.quick.spurious = 0;
      }
      c.tick_ns = s.tick;
      for (int k : h.counts) c.weight *= k;
      c.weight *= 1 + c.quick.preempt % 50 + 5 * c.quick.spurious;
      c.weight *= 1 + (s.tick > 1) + (s.tick < 500000);
      auto counts = h.counts;
      float ms = s.ms;
      c.body = [counts, ms] { Body(counts, ms); };
      cs.push_back(c);
    }
  return mc::Main(argc, argv, cs);
}
