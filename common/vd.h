// Common protocol of the exhaustive enumeration drivers.
//
//   driver --list --tier T
//   driver --job NAME --tier T --out RESULT.json --artifact FILE [--seconds S]
//          [--known FILE]
//   driver --replay FILE   (the case alone, or all of its job if the file says so)
//
// A driver defines jobs (disjoint parts of the enumerated space). Each case of
// a job has a textual description; `Begin(desc)` starts it. Exit status 0: all
// cases held; 10: violation (artefact written); anything else: harness error.
#ifndef VD_H_
#define VD_H_
#include <execinfo.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vd {

struct Job {
  std::string name;
  std::function<void()> run;
  double weight;  // rough cost, used to start expensive jobs first
  Job(std::string n, std::function<void()> r, double w = 1)
      : name(n), run(r), weight(w) {}
};

struct Ctx {
  std::string job, tier = "quick", out, artifact, replay_case;
  bool replaying = false, matched = false, complete = true;
  double seconds = 1e9, t0 = 0;
  char current[4096] = "";
  std::vector<std::string> known;  // "<key> ..." prefixes for this property
  std::map<std::string, long> known_hits;
  std::map<std::string, std::string> known_msg;
  // measured coverage
  unsigned long long cases = 0, transitions = 0, comparisons = 0, nontrivial = 0;
  std::unordered_set<uint64_t> states;
  std::map<std::string, unsigned long long> counters;
  std::vector<std::string> samples;
  unsigned long long next_sample = 1;
};

inline Ctx& C() {
  static Ctx* c = new Ctx;
  return *c;
}

inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull);
  x ^= x >> 32;
  x *= 0xD6E8FEB86659FD93ull;
  x ^= x >> 29;
  x *= 0xA0761D6478BD642Full;
  return x ^ (x >> 32);
}
inline uint64_t hash_str(const char* s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull;
  return h;
}

inline double Now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline bool Thorough() { return C().tier == "thorough"; }
inline bool Replaying() { return C().replaying; }
inline const std::string& ReplayCase() { return C().replay_case; }

// True when the time budget is used up (the run is then not exhaustive).
inline bool OutOfTime() {
  Ctx& c = C();
  if (c.replaying) return false;
  if (Now() - c.t0 > c.seconds) {
    c.complete = false;
    return true;
  }
  return false;
}

inline std::string Str(const char* fmt, ...) {
  char b[4000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}

// Starts a case. Returns false if it is to be skipped (replay of another case).
inline bool Begin(const char* fmt, ...) {
  Ctx& c = C();
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(c.current, sizeof c.current, fmt, ap);
  va_end(ap);
  if (c.replaying) {
    if (c.replay_case != c.current) {
      c.current[0] = 0;
      return false;
    }
    c.matched = true;
  }
  c.cases++;
  if (c.cases >= c.next_sample && c.samples.size() < 6) {
    c.samples.push_back(c.current);
    c.next_sample *= 40;
  }
  return true;
}

inline void Transition(unsigned long long n = 1) { C().transitions += n; }
inline void Compared(unsigned long long n = 1) { C().comparisons += n; }
inline void NonTrivial() { C().nontrivial++; }
inline bool State(uint64_t h) { return C().states.insert(h).second; }
inline void Count(const std::string& k, unsigned long long n = 1) {
  C().counters[k] += n;
}

inline void WriteArtifact(const char* kind, const char* msg) {
  Ctx& c = C();
  if (c.artifact.empty()) return;
  FILE* f = fopen(c.artifact.c_str(), "w");
  if (!f) return;
  fprintf(f, "job %s\ntier %s\ncase %s\nkind %s\nmessage %s\n", c.job.c_str(),
          c.tier.c_str(), c.current, kind, msg);
  fclose(f);
}

// Reports that the current case violates the property. `key` classifies what
// fails; it returns only if the known-findings file lists this key for this
// specific kind of case.
inline void Violation(const std::string& key, const char* fmt, ...) {
  Ctx& c = C();
  char msg[3000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(msg, sizeof msg, fmt, ap);
  va_end(ap);
  for (auto& k : c.known)
    if (k == key) {
      c.known_hits[key]++;
      c.known_msg[key] = std::string(msg) + " [case " + c.current + "]";
      return;
    }
  WriteArtifact(key.c_str(), msg);
  printf("VD-VIOLATION %s: %s [job %s case %s]\n", key.c_str(), msg,
         c.job.c_str(), c.current);
  fflush(stdout);
  _exit(10);
}

// Harness error.
inline void Error(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "VD-ERROR ");
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, " [case %s]\n", C().current);
  va_end(ap);
  fflush(stderr);
  _exit(11);
}

inline void OnSignal(int sig, siginfo_t* si, void*) {
  Ctx& c = C();
  if (c.current[0]) {
    char msg[300];
    snprintf(msg, sizeof msg, "signal %d (%s) while the case ran, address %p",
             sig, strsignal(sig), sig == SIGSEGV ? si->si_addr : nullptr);
    WriteArtifact("crash", msg);
    printf("VD-VIOLATION crash: %s [job %s case %s]\n", msg, c.job.c_str(),
           c.current);
    fflush(stdout);
    if (getenv("VD_BACKTRACE")) {
      void* bt[40];
      backtrace_symbols_fd(bt, backtrace(bt, 40), 2);
    }
    _exit(10);
  }
  _exit(12);
}

inline std::string Esc(const std::string& s) {
  std::string r;
  for (char ch : s) {
    if (ch == '"' || ch == '\\') r += '\\';
    if ((unsigned char)ch < 32) ch = ' ';
    r += ch;
  }
  return r;
}

inline int Main(int argc, char** argv,
                std::function<std::vector<Job>()> make_jobs) {
  Ctx& c = C();
  bool list = false, whole = false;
  std::string known_file, replay;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--list") list = true;
    else if (a == "--job") c.job = next();
    else if (a == "--tier") c.tier = next();
    else if (a == "--out") c.out = next();
    else if (a == "--artifact") c.artifact = next();
    else if (a == "--seconds") c.seconds = atof(next().c_str());
    else if (a == "--known") c.known.push_back(next());
    else if (a == "--replay") replay = next();
    else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 2;
    }
  }
  if (!replay.empty()) {
    FILE* f = fopen(replay.c_str(), "r");
    if (!f) return 2;
    static char line[8192];
    while (fgets(line, sizeof line, f)) {
      line[strcspn(line, "\n")] = 0;
      if (!strncmp(line, "job ", 4)) c.job = line + 4;
      if (!strncmp(line, "tier ", 5)) c.tier = line + 5;
      if (!strncmp(line, "case ", 5)) c.replay_case = line + 5;
      if (!strcmp(line, "whole job")) whole = true;
    }
    fclose(f);
    c.replaying = !whole;
  }
  std::vector<Job> jobs = make_jobs();
  if (list) {
    for (auto& j : jobs) printf("%s %g\n", j.name.c_str(), j.weight);
    return 0;
  }
  static char altstack[65536];
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = OnSignal;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  c.t0 = Now();
  bool found = false;
  for (auto& j : jobs)
    if (j.name == c.job) {
      found = true;
      j.run();
    }
  if (!found) {
    fprintf(stderr, "no such job %s\n", c.job.c_str());
    return 2;
  }
  c.current[0] = 0;
  if (c.replaying) {
    if (!c.matched) {
      fprintf(stderr, "case not found: %s\n", c.replay_case.c_str());
      return 3;
    }
    printf("VD-REPLAY-OK no violation\n");
    fflush(stdout);
    _exit(0);
  }
  if (whole) {
    printf("VD-REPLAY-OK no violation\n");
    fflush(stdout);
    _exit(0);
  }
  FILE* f = c.out.empty() ? stdout : fopen(c.out.c_str(), "w");
  fprintf(f,
          "{\"job\":\"%s\",\"cases\":%llu,\"states\":%zu,\"transitions\":%llu,"
          "\"comparisons\":%llu,\"nontrivial\":%llu,\"complete\":%s,"
          "\"seconds\":%.2f,\"counters\":{",
          c.job.c_str(), c.cases, c.states.size(), c.transitions, c.comparisons,
          c.nontrivial, c.complete ? "true" : "false", Now() - c.t0);
  const char* sep = "";
  for (auto& k : c.counters) {
    fprintf(f, "%s\"%s\":%llu", sep, Esc(k.first).c_str(), k.second);
    sep = ",";
  }
  fprintf(f, "},\"known\":{");
  sep = "";
  for (auto& k : c.known_hits) {
    fprintf(f, "%s\"%s\":\"%s (%ld cases)\"", sep, Esc(k.first).c_str(),
            Esc(c.known_msg[k.first]).c_str(), k.second);
    sep = ",";
  }
  fprintf(f, "},\"samples\":[");
  sep = "";
  for (auto& s : c.samples) {
    fprintf(f, "%s\"%s\"", sep, Esc(s).c_str());
    sep = ",";
  }
  fprintf(f, "]}\n");
  fflush(f);
  _exit(0);
}

}  // namespace vd
#endif
