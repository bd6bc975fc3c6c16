// Controlled-scheduler model-checking runtime.
//
// Code under test is compiled with -fsanitize=thread *instrumentation* and
// linked against mcrt.cc instead of the sanitizer runtime. See DESIGN.md.
#ifndef MCRT_H_
#define MCRT_H_
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Bounds {
  int preempt = 2;    // preemptive context switches; >= 50 means unbounded
  int spurious = 0;   // spurious condvar wake-ups / weak CAS failures
  int stale = 0;      // atomic loads returning an older, still visible value
  int timers = 0;     // sleeping threads woken while others could still run
};

struct Config {
  std::string name;
  Bounds quick, thorough;
  std::function<void()> body;   // runs as managed thread 0
  std::int64_t tick_ns = 1;     // virtual time that passes at each clock read
  double weight = 1;            // rough cost; expensive configs start first
};

// Reports a property violation of the current execution (does not return).
[[noreturn]] void Fail(const char* fmt, ...);
// Registers an observable outcome of the current execution.
void Outcome(std::uint64_t h);
// An environment choice among n alternatives, enumerated exhaustively.
int Choose(int n);
// Id of the calling managed thread (0 = body), -1 outside of an exploration.
int ThreadId();
// Number of managed threads created so far in this execution (without body).
int ThreadsCreated();
// Number of managed threads (other than the body) that have not finished.
int ThreadsAlive();
// Advances the virtual clock of the calling thread.
void AdvanceClock(std::int64_t ns);
int Main(int argc, char** argv, const std::vector<Config>& configs);

}  // namespace mc
#endif
