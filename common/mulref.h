// Exact definition of what a multiplication must produce, and enumeration
// helpers shared by the drivers.
#ifndef MULREF_H_
#define MULREF_H_
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <vector>

#include "mulapi.h"
#include "vd.h"

namespace mulref {
using namespace mulapi;

// Round-to-nearest (ties up) of x * m * 2^(exponent-31).
inline long Requantize(long x, long m, int exponent) {
  __int128 p = (__int128)x * m;
  int s = 31 - exponent;  // exponent in -31..7, so s in 24..62
  p += (__int128)1 << (s - 1);
  return (long)(p >> s);
}

inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 99) {
  const unsigned char* b = (const unsigned char*)p;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    uint64_t v;
    memcpy(&v, b + i, 8);
    h = vd::mix(h, v);
  }
  uint64_t v = 0;
  memcpy(&v, b + i, n - i);
  return vd::mix(h, v + n);
}

// Deterministic data: entry (i, k) of an operand of type s around zero point
// zp. Pattern 0: small offsets -3..3 around zp; pattern 1: whole range with
// many extremes; pattern 2: only the extremes.
inline long Datum(Scalar s, int zp, int pattern, int salt, int i, int k) {
  uint64_t h = vd::mix(vd::mix(salt * 7919 + 13, i), k);
  if (IsFloat(s)) {
    if (pattern == 0) return (long)(h % 7) - 3;
    if (pattern == 2) return (h & 1) ? 1000 : -1000;
    return (long)(h % 61) - 30;
  }
  const long lo = Lowest(s), hi = Highest(s);
  if (pattern == 0)
    return std::max(lo, std::min(hi, zp + (long)(h % 7) - 3));
  if (pattern == 2) return (h & 1) ? lo : hi;
  switch (h % 5) {
    case 0: return lo;
    case 1: return hi;
    default: return lo + (long)((h >> 8) % (uint64_t)(hi - lo + 1));
  }
}

}  // namespace mulref
#endif
