// Interposes the C allocation functions: counts live allocations, can place
// aligned allocations flush against an unmapped page, and can make chosen
// aligned allocations fail. Include in exactly one file of a driver.
#ifndef ALLOCTRACK_H_
#define ALLOCTRACK_H_
#include <errno.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <atomic>
#include <cstdint>
#include <map>
#include <mutex>
#include <vector>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}

namespace alloctrack {

const int kSlots = 256;
const size_t kSlotBytes = 64 * 4096;

struct State {
  std::atomic<long> live{0};          // outstanding blocks of all kinds
  std::atomic<long> aligned_live{0};  // outstanding aligned blocks
  std::atomic<long> aligned_calls{0};
  std::atomic<long> aligned_bytes{0};  // outstanding bytes of aligned blocks
  std::atomic<long> largest{0};        // largest aligned request
  std::atomic<bool> counting{false};   // only blocks obtained while set are counted
  bool guard = false;                 // place aligned blocks against guard pages
  bool poison = false;                // overwrite released guarded blocks
  uint64_t fail_mask = 0;             // bit i: the i-th aligned call fails
  std::atomic<int> fail_index{0};
  char* arena = nullptr;              // kSlots slots, each followed by a guard page
  std::atomic<uint8_t> used[kSlots];
  size_t sizes[kSlots];
  char* ptrs[kSlots];
  std::atomic<bool> poisoned[kSlots];  // released and overwritten
  std::atomic<bool> stale_write{false};  // a released block was written
};
inline State& S() {
  static State s;
  return s;
}

// Blocks are recognised at release through a small open-addressing table of
// counted pointers (entries are never moved; deletion leaves a tombstone).
const size_t kTable = 1 << 16;
struct Entry {
  std::atomic<uintptr_t> p;
  size_t size;
  bool aligned;
};
inline Entry* Table() {
  static Entry t[kTable];
  return t;
}
inline std::mutex& Mu() {
  static std::mutex m;
  return m;
}
inline size_t Hash(uintptr_t p) { return (p >> 4) * 0x9E3779B97F4A7C15ull >> 48; }
inline void Note(void* p, size_t n, bool aligned) {
  State& s = S();
  if (!s.counting || !p) return;
  std::lock_guard<std::mutex> l(Mu());
  for (size_t i = Hash((uintptr_t)p);; i++) {
    Entry& e = Table()[i & (kTable - 1)];
    uintptr_t v = e.p.load(std::memory_order_relaxed);
    if (v == 0 || v == 1) {
      e.size = n;
      e.aligned = aligned;
      e.p.store((uintptr_t)p, std::memory_order_relaxed);
      break;
    }
  }
  s.live++;
  if (aligned) {
    s.aligned_live++;
    s.aligned_bytes += (long)n;
  }
}
inline void Forget(void* p) {
  State& s = S();
  if (!p || s.live.load() == 0) return;
  std::lock_guard<std::mutex> l(Mu());
  for (size_t i = Hash((uintptr_t)p), c = 0; c < kTable; i++, c++) {
    Entry& e = Table()[i & (kTable - 1)];
    uintptr_t v = e.p.load(std::memory_order_relaxed);
    if (v == 0) return;
    if (v == (uintptr_t)p) {
      e.p.store(1, std::memory_order_relaxed);
      s.live--;
      if (e.aligned) {
        s.aligned_live--;
        s.aligned_bytes -= (long)e.size;
      }
      return;
    }
  }
}
// Forgets everything counted so far.
inline void Reset() {
  for (size_t i = 0; i < kTable; i++) Table()[i].p.store(0, std::memory_order_relaxed);
  S().live = 0;
  S().aligned_live = 0;
  S().aligned_bytes = 0;
  S().aligned_calls = 0;
}

inline void InitArena() {
  State& s = S();
  if (s.arena) return;
  const size_t slot = kSlotBytes + 4096;
  char* a = (char*)mmap(nullptr, slot * kSlots + 4096, PROT_NONE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 0; i < kSlots; i++)
    mprotect(a + 4096 + i * slot, kSlotBytes, PROT_READ | PROT_WRITE);
  s.arena = a + 4096;
}
// Notes whether a released block was written since.
inline void Inspect(int i) {
  State& s = S();
  if (!s.poisoned[i]) return;
  const unsigned char* p = (unsigned char*)s.ptrs[i];
  const size_t n = s.sizes[i];
  if (n && (p[0] != 0xd5 || memcmp(p, p + 1, n - 1))) s.stale_write = true;
}
// True if any block was written after its release. Nothing may run meanwhile.
inline bool StaleWrite() {
  for (int i = 0; i < kSlots; i++) Inspect(i);
  return S().stale_write;
}
inline void* GuardAlloc(size_t align, size_t n) {
  State& s = S();
  const size_t slot = kSlotBytes + 4096;
  if (n > kSlotBytes) return __libc_memalign(align, n);
  for (int i = 0; i < kSlots; i++) {
    uint8_t zero = 0;
    if (s.used[i].load() == 0 && s.used[i].compare_exchange_strong(zero, 1)) {
      char* end = s.arena + i * slot + kSlotBytes;
      char* p = (char*)((uintptr_t)(end - n) & ~(uintptr_t)(align - 1));
      Inspect(i);
      s.poisoned[i] = false;
      s.ptrs[i] = p;
      s.sizes[i] = n;
      return p;
    }
  }
  return __libc_memalign(align, n);
}
inline bool GuardFree(void* p) {
  State& s = S();
  const size_t slot = kSlotBytes + 4096;
  if (!s.arena || (char*)p < s.arena || (char*)p >= s.arena + slot * kSlots) return false;
  int i = ((char*)p - s.arena) / slot;
  if (!s.used[i] || s.ptrs[i] != p) {
    fprintf(stderr, "bad release of %p\n", p);
    abort();
  }
  if (s.poison) {
    memset(p, 0xd5, s.sizes[i]);
    s.poisoned[i] = true;
  }
  s.used[i] = 0;
  return true;
}

inline void* Aligned(size_t align, size_t n) {
  State& s = S();
  if (s.counting) {
    s.aligned_calls++;
    if ((long)n > s.largest) s.largest = (long)n;
    int i = s.fail_index.fetch_add(1);
    if (i < 64 && (s.fail_mask >> i & 1)) {
      errno = ENOMEM;
      return nullptr;
    }
  }
  void* p = s.guard && s.counting ? GuardAlloc(align, n) : __libc_memalign(align, n);
  Note(p, n, true);
  return p;
}

}  // namespace alloctrack

extern "C" {
void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  alloctrack::Note(p, n, false);
  return p;
}
void* calloc(size_t a, size_t b) {
  void* p = __libc_calloc(a, b);
  alloctrack::Note(p, a * b, false);
  return p;
}
void* realloc(void* q, size_t n) {
  alloctrack::Forget(q);
  void* p = __libc_realloc(q, n);
  alloctrack::Note(p, n, false);
  return p;
}
void free(void* p) {
  alloctrack::Forget(p);
  if (alloctrack::GuardFree(p)) return;
  __libc_free(p);
}
int posix_memalign(void** out, size_t align, size_t n) {
  void* p = alloctrack::Aligned(align, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
void* memalign(size_t align, size_t n) { return alloctrack::Aligned(align, n); }
void* aligned_alloc(size_t align, size_t n) { return alloctrack::Aligned(align, n); }
}
#endif
