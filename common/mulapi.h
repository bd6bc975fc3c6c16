// Type-erased access to ruy::Mul for the enumeration drivers. The templates are
// instantiated once, in mulapi_*.cc, through the public API only.
#ifndef MULAPI_H_
#define MULAPI_H_
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include <vector>

#include "ruy/context.h"
#include "ruy/matrix.h"
#include "ruy/path.h"

namespace mulapi {

enum Scalar { F32, F64, I8, U8, I16, I32 };

struct Types {
  Scalar l, r, a, d;
  const char* name;
};

// All supported combinations that are instantiated.
extern const Types kTypes[];
extern const int kNumTypes;
int TypesByName(const char* name);

inline int SizeOf(Scalar s) {
  switch (s) {
    case F32: case I32: return 4;
    case F64: return 8;
    case I16: return 2;
    default: return 1;
  }
}
inline bool IsFloat(Scalar s) { return s == F32 || s == F64; }
inline long Lowest(Scalar s) {
  switch (s) {
    case I8: return -128;
    case I16: return -32768;
    case I32: return -2147483648l;
    default: return 0;
  }
}
inline long Highest(Scalar s) {
  switch (s) {
    case I8: return 127;
    case U8: return 255;
    case I16: return 32767;
    case I32: return 2147483647l;
    default: return 0;
  }
}
inline void Store(Scalar s, void* p, long i, double v) {
  switch (s) {
    case F32: ((float*)p)[i] = (float)v; break;
    case F64: ((double*)p)[i] = v; break;
    case I8: ((int8_t*)p)[i] = (int8_t)v; break;
    case U8: ((uint8_t*)p)[i] = (uint8_t)v; break;
    case I16: ((int16_t*)p)[i] = (int16_t)v; break;
    case I32: ((int32_t*)p)[i] = (int32_t)v; break;
  }
}
inline double Load(Scalar s, const void* p, long i) {
  switch (s) {
    case F32: return ((const float*)p)[i];
    case F64: return ((const double*)p)[i];
    case I8: return ((const int8_t*)p)[i];
    case U8: return ((const uint8_t*)p)[i];
    case I16: return ((const int16_t*)p)[i];
    default: return ((const int32_t*)p)[i];
  }
}

struct MatDesc {
  int rows = 0, cols = 0;
  bool row_major = false;
  int stride = 0;  // 0: tight
  void* data = nullptr;
  int zp = 0;
  int cache = 0;  // 0 never, 1 if large speedup, 2 if significant, 3 always
  long At(int r, int c) const {
    int s = stride ? stride : (row_major ? cols : rows);
    return row_major ? (long)r * s + c : r + (long)c * s;
  }
  // Entries spanned, from the first to the last one.
  long Span() const {
    if (!rows || !cols) return 0;
    return At(rows - 1, cols - 1) + 1;
  }
};

enum Compiled { kEverything, kDefaultPaths, kStandardCppOnly, kReference };

struct MulDesc {
  int types = 0;  // index into kTypes
  MatDesc l, r, d;
  const void* bias = nullptr;
  bool uniform_multiplier = false;
  int32_t fixedpoint = 0;
  int exponent = 0;
  const int32_t* fixedpoint_pc = nullptr;  // per-channel when non-null
  const int* exponent_pc = nullptr;
  bool clamp = false;
  double clamp_min = 0, clamp_max = 0;
  bool channel_is_col = false;
  int capacity_rounding = 1;
  Compiled compiled = kEverything;
  ruy::Context* ctx = nullptr;
};

void Mul(const MulDesc& m);

// Paths this machine can run, with names.
struct PathName {
  ruy::Path path;
  const char* name;
};
std::vector<PathName> RunnablePaths();
const char* NameOf(ruy::Path p);

}  // namespace mulapi
#endif
