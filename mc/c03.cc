// C03: Wait() and BlockingCounter under every schedule.
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#include "mcrt.h"
#include "ruy/blocking_counter.h"
#include "ruy/time.h"
#include "ruy/wait.h"

namespace {

ruy::Duration Spin(double ms) { return ruy::DurationFromSeconds(ms * 1e-3); }

// `waiters` threads wait for `value >= target`, `signallers` threads each add
// one. Every signaller publishes a plain payload first.
void FlagBody(int waiters, int signallers, double ms, bool notify_one,
              int steps) {
  struct Shared {
    std::atomic<int> value{0};
    std::condition_variable cv;
    std::mutex mu;
    int payload[4] = {0, 0, 0, 0};
  };
  auto sh = std::unique_ptr<Shared>(new Shared);
  Shared* s = sh.get();
  const int target = signallers * steps;
  auto wait = [s, ms, signallers, target, steps](int goal) {
    bool last = false;
    auto cond = [&] { return last = (s->value.load(std::memory_order_acquire) >= goal); };
    ruy::Wait(cond, Spin(ms), &s->cv, &s->mu);
    if (!last) mc::Fail("wait returned although its condition was last false");
    if (s->value.load(std::memory_order_acquire) < goal)
      mc::Fail("wait returned before the condition was true");
    {
      // Must not be held by us any more.
      std::lock_guard<std::mutex> l(s->mu);
    }
    if (goal == target)
      for (int i = 0; i < signallers; i++)
        if (s->payload[i] != steps)
          mc::Fail("payload of signaller %d not visible", i);
  };
  std::vector<std::thread> ts;
  for (int i = 0; i < signallers; i++)
    ts.emplace_back([s, i, notify_one, steps] {
      for (int k = 0; k < steps; k++) {
        s->payload[i] = k + 1;
        s->value.fetch_add(1, std::memory_order_acq_rel);
        std::lock_guard<std::mutex> l(s->mu);
        if (notify_one)
          s->cv.notify_one();
        else
          s->cv.notify_all();
      }
    });
  for (int i = 1; i < waiters; i++)
    ts.emplace_back([wait, target] { wait(target); });
  // The main waiter also waits for the intermediate values.
  for (int g = (waiters == 1 ? 1 : target); g <= target; g++) wait(g);
  for (auto& t : ts) t.join();
}

void CounterBody(int decrementers, int rounds, double ms, int per_thread) {
  struct Shared {
    ruy::BlockingCounter counter;
    int payload[2][4] = {{0, 0, 0, 0}, {0, 0, 0, 0}};
    std::atomic<int> hits{0};
  };
  auto sh = std::unique_ptr<Shared>(new Shared);
  Shared* s = sh.get();
  std::vector<std::thread> ts;
  for (int r = 0; r < rounds; r++) {
    s->counter.Reset(decrementers * per_thread);
    s->hits.store(0, std::memory_order_relaxed);
    for (int i = 0; i < decrementers; i++)
      ts.emplace_back([s, r, i, per_thread] {
        for (int k = 0; k < per_thread; k++) {
          if (k == per_thread - 1) s->payload[r][i] = 10 * r + i + 1;
          if (s->counter.DecrementCount())
            s->hits.fetch_add(1, std::memory_order_relaxed);
        }
      });
    s->counter.Wait(Spin(ms));
    for (int i = 0; i < decrementers; i++)
      if (s->payload[r][i] != 10 * r + i + 1)
        mc::Fail("round %d: write of decrementer %d not visible after the wait",
                 r, i);
    if (rounds > 1 && r + 1 < rounds) continue;
    for (auto& t : ts) t.join();
    int h = s->hits.load(std::memory_order_relaxed);
    if (rounds == 1 && h != 1)
      mc::Fail("%d decrements reported reaching zero", h);
  }
  s->counter.Wait(Spin(ms));  // count is zero: returns at once
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Config> cs;
  struct S {
    const char* n;
    double ms;
    long tick;
  } spins[] = {{"nospin", 0, 1}, {"spin1", 1, 670000}, {"spin2", 1, 400000}};
  auto add = [&](std::string n, mc::Bounds q, mc::Bounds t, long tick, double w,
                 std::function<void()> b) {
    mc::Config c;
    c.name = n;
    c.quick = q;
    c.thorough = t;
    c.tick_ns = tick;
    c.weight = w;
    c.body = b;
    cs.push_back(c);
  };
  for (auto& s : spins) {
    double ms = s.ms;
    std::string x = std::string("-") + s.n;
    // preempt, spurious, stale, timers
    for (int one = 0; one < 2; one++)
      add(std::string("flag-1w-1s") + (one ? "-one" : "-all") + x, {99, 2, 2, 0},
          {99, 3, 3, 0}, s.tick, 5, [=] { FlagBody(1, 1, ms, one, 1); });
    add("flag-1w-1s-2steps" + x, {99, 1, 1, 0}, {99, 2, 2, 0}, s.tick, 10,
        [=] { FlagBody(1, 1, ms, false, 2); });
    add("flag-1w-2s" + x, {99, 1, 1, 0}, {99, 1, 1, 0}, s.tick, 20,
        [=] { FlagBody(1, 2, ms, false, 1); });
    add("flag-1w-3s" + x, {2, 1, 0, 0}, {3, 1, 1, 0}, s.tick, 20,
        [=] { FlagBody(1, 3, ms, false, 1); });
    add("flag-2w-1s" + x, {5, 1, 1, 0}, {5, 1, 1, 0}, s.tick, 20,
        [=] { FlagBody(2, 1, ms, false, 1); });
    add("flag-2w-2s" + x, {2, 1, 0, 0}, {3, 1, 1, 0}, s.tick, 20,
        [=] { FlagBody(2, 2, ms, false, 1); });
    add("counter-1" + x, {99, 2, 2, 0}, {99, 3, 3, 0}, s.tick, 5,
        [=] { CounterBody(1, 1, ms, 1); });
    add("counter-1x2" + x, {99, 1, 1, 0}, {99, 3, 3, 0}, s.tick, 5,
        [=] { CounterBody(1, 1, ms, 2); });
    add("counter-2" + x, {99, 1, 1, 0}, {99, 2, 2, 0}, s.tick, 20,
        [=] { CounterBody(2, 1, ms, 1); });
    add("counter-3" + x, {4, 1, 0, 0}, {4, 1, 1, 0}, s.tick, 20,
        [=] { CounterBody(3, 1, ms, 1); });
    add("counter-1-reuse" + x, {99, 1, 1, 0}, {99, 2, 2, 0}, s.tick, 20,
        [=] { CounterBody(1, 2, ms, 1); });
    add("counter-2-reuse" + x, {2, 1, 1, 0}, {3, 1, 1, 0}, s.tick, 20,
        [=] { CounterBody(2, 2, ms, 1); });
  }
  return mc::Main(argc, argv, cs);
}
