// C10: scratch allocations.
//
// Every sequence of operations up to the depth bound on the real allocator,
// against a list of the blocks handed out; every set of up to two failing system
// allocations.
#include <algorithm>

#include "alloctrack.h"
#include "ruy/allocator.h"
#include "vd.h"

namespace {

const int kAlign = 64;

struct Op {
  const char* name;
  int kind;   // 0 raw, 1 typed int32, 2 typed through a pointer (double), 3 avoiding, 4 release
  long n;     // bytes or count
  int avoid;  // low address bits to keep away from
};

const Op kOps[] = {
    {"b1", 0, 1, 0},         {"b64", 0, 64, 0},        {"b65", 0, 65, 0},
    {"b1000", 0, 1000, 0},   {"b20000", 0, 20000, 0},  {"i17", 1, 17, 0},
    {"d9", 2, 9, 0},         {"v100@0", 3, 100, 0},    {"v100@512", 3, 100, 512},
    {"v5000@700", 3, 5000, 700}, {"zero", 0, 0, 0},    {"F", 4, 0, 0},
};
const Op kLarge[] = {
    {"b2^31-1", 0, (1L << 31) - 1, 0}, {"b2^31", 0, 1L << 31, 0},
    {"b2^32+65", 0, (1L << 32) + 65, 0}, {"b64", 0, 64, 0},
    {"i2^30+3", 1, (1L << 30) + 3, 0}, {"v2^31@64", 3, 1L << 31, 64},
    {"F", 4, 0, 0},
};

// System calls are counted (and made to fail) only inside the code under test.
struct Counting {
  Counting() { alloctrack::S().counting = true; }
  ~Counting() { alloctrack::S().counting = false; }
};

struct Block {
  char* p;
  long n;
  int tag;
};

struct Run {
  alignas(64) char storage[sizeof(ruy::Allocator)];
  std::vector<Block> live;
  int tag = 0;
  bool large = false;

  ruy::Allocator* a() { return (ruy::Allocator*)storage; }

  static void Fill(const Block& b) {
    const long e = std::min(b.n, 96L);
    memset(b.p, b.tag, e);
    memset(b.p + b.n - e, b.tag, e);
    if (b.n > 192 && b.n < 100000)
      for (long i = 96; i < b.n; i += 61) b.p[i] = b.tag;
  }
  static bool Intact(const Block& b) {
    const long e = std::min(b.n, 96L);
    for (long i = 0; i < e; i++)
      if (b.p[i] != (char)b.tag || b.p[b.n - 1 - i] != (char)b.tag) return false;
    if (b.n > 192 && b.n < 100000)
      for (long i = 96; i < b.n; i += 61)
        if (b.p[i] != (char)b.tag) return false;
    return true;
  }
  // Is [p, p+n) inside one block currently held from the system?
  static bool Held(const char* p, long n) {
    alloctrack::State& s = alloctrack::S();
    const size_t slot = alloctrack::kSlotBytes + 4096;
    if (p < s.arena || p >= s.arena + slot * alloctrack::kSlots) return false;
    const int i = (p - s.arena) / slot;
    return s.used[i] && p >= s.ptrs[i] && p + n <= s.ptrs[i] + s.sizes[i];
  }

  void CheckAll(const char* when) {
    for (auto& b : live)
      if (!Intact(b))
        vd::Violation("contents", "block of %ld bytes at %p changed %s", b.n, b.p, when);
    vd::Compared(live.size());
  }

  // Returns how many system allocations the operation attempted.
  int Do(const Op& op) {
    const long before = alloctrack::S().aligned_calls, failed_before = failures();
    if (op.kind == 4) {
      const long held = alloctrack::S().aligned_bytes;
      alloctrack::S().largest = 0;
      {
        Counting c;
        a()->FreeAll();
      }
      // What could not be obtained is not asked for again.
      if (alloctrack::S().largest > 2 * held + 4096)
        vd::Violation("asked", "release asks the system for %ld bytes, %ld were held", (long)alloctrack::S().largest,
                      held);
      live.clear();
      vd::Transition();
      return alloctrack::S().aligned_calls - before;
    }
    void* p = nullptr;
    long n = op.n;
    static char page[4096];
    char* base = page + (1024 - ((uintptr_t)page & 1023));
    Counting counting;
    switch (op.kind) {
      case 0: p = a()->AllocateBytes(op.n); break;
      case 1:
        p = a()->Allocate<std::int32_t>(op.n);
        n *= 4;
        break;
      case 2: {
        double* d = (double*)base;
        a()->Allocate(op.n, &d);
        p = d;
        n *= 8;
        break;
      }
      case 3: p = a()->AllocateBytesAvoidingAliasingWith(op.n, base + op.avoid); break;
    }
    alloctrack::S().counting = false;
    vd::Transition();
    const int attempts = alloctrack::S().aligned_calls - before;
    if (n == 0) {
      if (p) vd::Violation("zero", "a request of 0 bytes gives %p", p);
      return attempts;
    }
    if (!p) {
      if (failures() == failed_before)
        vd::Violation("null", "a request of %ld bytes gives null although no system allocation failed",
                      n);
      return attempts;
    }
    Block b{(char*)p, n, 1 + (tag++ % 250)};
    if ((uintptr_t)p % kAlign)
      vd::Violation("alignment", "block of %ld bytes at %p is not aligned to %d", n, p, kAlign);
    for (auto& o : live)
      if (b.p < o.p + o.n && o.p < b.p + b.n)
        vd::Violation("overlap", "block of %ld bytes at %p overlaps the live block of %ld at %p",
                      n, p, o.n, o.p);
    if (!large && !Held(b.p, b.n))
      vd::Violation("invalid", "block of %ld bytes at %p is not inside memory held from the system",
                    n, p);
    Fill(b);
    live.push_back(b);
    return attempts;
  }
  static long failures() {
    alloctrack::State& s = alloctrack::S();
    const int i = std::min(64, s.fail_index.load());
    return i == 0 ? 0 : __builtin_popcountll(s.fail_mask & (i >= 64 ? ~0ull : (1ull << i) - 1));
  }
  uint64_t Hash() {
    uint64_t h = alloctrack::S().aligned_live * 977 + alloctrack::S().aligned_bytes;
    for (auto& b : live) h = vd::mix(h, b.n);
    return h;
  }
};

// Runs one sequence with the given failing system allocations. Returns the
// number of system allocation attempts.
int Sequence(const Op* ops, const std::vector<int>& seq, uint64_t mask, bool large) {
  alloctrack::State& s = alloctrack::S();
  s.fail_mask = mask;
  s.fail_index = 0;
  s.aligned_calls = 0;
  const long live0 = s.live, aligned0 = s.aligned_live;
  static Run r;
  r.live.clear();
  r.tag = 0;
  r.large = large;
  r.live.reserve(64);
  {
    Counting c;
    new (r.storage) ruy::Allocator;
  }
  int attempts = 0;
  for (int o : seq) {
    attempts += r.Do(ops[o]);
    r.CheckAll(ops[o].name);
    vd::State(r.Hash());
  }
  if (mask == 0) {
    // A repetition of the same workload must run on the memory already held.
    r.Do({"F", 4, 0, 0});
    for (int rep = 0; rep < 2; rep++) {
      // Segments between releases, in the same order.
      int calls = 0;
      for (int o : seq) {
        calls += r.Do(ops[o]);
        r.CheckAll(ops[o].name);
      }
      calls += r.Do({"F", 4, 0, 0});
      if (calls)
        vd::Violation("steady", "repetition %d of the same workload made %d system allocations",
                      rep + 1, calls);
    }
    if (seq.size() >= 2) vd::NonTrivial();
  } else {
    // After the failures: a release and a normal request.
    r.Do({"F", 4, 0, 0});
    r.Do({"b300", 0, 300, 0});
    r.Do({"b20000", 0, 20000, 0});
    r.CheckAll("after a failure");
    vd::State(r.Hash());
    if (Run::failures()) vd::Count("failures_hit");
  }
  {
    Counting c;
    r.a()->~Allocator();
  }
  s.fail_mask = 0;
  if (s.aligned_live != aligned0 || s.live != live0)
    vd::Violation("leak", "%ld blocks (%ld aligned) not returned to the system at destruction",
                  s.live - live0, s.aligned_live - aligned0);
  return attempts;
}

void Enumerate(const Op* ops, int nops, int first, int depth, bool large) {
  alloctrack::InitArena();
  alloctrack::S().guard = !large;
  std::vector<int> seq{first};
  // lexicographic enumeration of all sequences of length 1..depth starting with `first`
  std::function<void()> go = [&] {
    if (vd::OutOfTime()) return;
    std::string name;
    for (int o : seq) name += std::string(ops[o].name) + " ";
    int attempts = 0;
    if (vd::Begin("ops %sfail=0", name.c_str()))
      attempts = Sequence(ops, seq, 0, large);
    else
      attempts = 2 * (int)seq.size();
    attempts += 2;  // the ones after the sequence
    for (int i = 0; i < attempts; i++)
      for (int j = i; j < attempts + 1; j++) {
        const uint64_t mask = (1ull << i) | (1ull << j);
        if (j == attempts && i + 1 < attempts) continue;
        if (vd::Begin("ops %sfail=%llx", name.c_str(), (unsigned long long)mask))
          Sequence(ops, seq, mask, large);
      }
    for (int i = 0; i < attempts; i++)
      if (vd::Begin("ops %sfail=from-%d", name.c_str(), i))
        Sequence(ops, seq, ~0ull << i, large);
    if ((int)seq.size() == depth) return;
    for (int o = 0; o < nops; o++) {
      seq.push_back(o);
      go();
      seq.pop_back();
    }
  };
  go();
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    const int n = sizeof(kOps) / sizeof(kOps[0]), nl = sizeof(kLarge) / sizeof(kLarge[0]);
    for (int i = 0; i < n; i++)
      jobs.emplace_back(vd::Str("ops-%s", kOps[i].name),
                        [=] { Enumerate(kOps, n, i, vd::Thorough() ? 6 : 5, false); }, 10);
    for (int i = 0; i < nl; i++)
      jobs.emplace_back(vd::Str("large-%s", kLarge[i].name),
                        [=] { Enumerate(kLarge, nl, i, vd::Thorough() ? 4 : 3, true); }, 1);
    return jobs;
  });
}
