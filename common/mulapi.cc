#include "mulapi.h"

#include <stdio.h>
#include <unistd.h>


namespace mulapi {

template <typename L, typename R, typename A, typename D>
void MulT(const MulDesc& d);


typedef void (*MulFn)(const MulDesc&);
static const MulFn kFns[] = {
    MulT<float, float, float, float>,
    MulT<double, float, double, float>,
    MulT<float, double, double, double>,
    MulT<uint8_t, uint8_t, int32_t, uint8_t>,
    MulT<uint8_t, uint8_t, int32_t, int16_t>,
    MulT<int8_t, int8_t, int32_t, int8_t>,
    MulT<int8_t, int8_t, int32_t, uint8_t>,
    MulT<int8_t, int8_t, int32_t, int16_t>,
    MulT<int8_t, int8_t, int32_t, int32_t>,
    MulT<int8_t, uint8_t, int32_t, int8_t>,
    MulT<uint8_t, int8_t, int32_t, int32_t>,
    MulT<int8_t, int16_t, int32_t, int16_t>,
    MulT<int16_t, int8_t, int32_t, int16_t>,
    MulT<uint8_t, uint8_t, int32_t, int32_t>,
    MulT<uint8_t, uint8_t, int32_t, int8_t>,
};
const Types kTypes[] = {
    {F32, F32, F32, F32, "f32f32f32"},  {F64, F32, F64, F32, "f64f32f32"},
    {F32, F64, F64, F64, "f32f64f64"},  {U8, U8, I32, U8, "u8u8u8"},
    {U8, U8, I32, I16, "u8u8i16"},      {I8, I8, I32, I8, "i8i8i8"},
    {I8, I8, I32, U8, "i8i8u8"},        {I8, I8, I32, I16, "i8i8i16"},
    {I8, I8, I32, I32, "i8i8i32"},      {I8, U8, I32, I8, "i8u8i8"},
    {U8, I8, I32, I32, "u8i8i32"},      {I8, I16, I32, I16, "i8i16i16"},
    {I16, I8, I32, I16, "i16i8i16"},    {U8, U8, I32, I32, "u8u8i32"},
    {U8, U8, I32, I8, "u8u8i8"},
};
const int kNumTypes = sizeof(kTypes) / sizeof(kTypes[0]);
int TypesByName(const char* name) {
  for (int i = 0; i < kNumTypes; i++)
    if (!strcmp(kTypes[i].name, name)) return i;
  fprintf(stderr, "no such types: %s\n", name);
  _exit(3);
}

void Mul(const MulDesc& m) { kFns[m.types](m); }

static const PathName kAll[] = {
    {ruy::Path::kStandardCpp, "cpp"},
    {ruy::Path::kInternalStandardCppVariant1, "cpp1"},
    {ruy::Path::kInternalStandardCppVariant2, "cpp2"},
    {ruy::Path::kInternalStandardCppVariant3, "cpp3"},
    {ruy::Path::kAvx, "avx"},
    {ruy::Path::kAvx2Fma, "avx2"},
    {ruy::Path::kAvx512, "avx512"},
};

std::vector<PathName> RunnablePaths() {
  // The hardware is asked directly, not through the code under test.
  std::vector<PathName> v;
  for (auto& p : kAll) {
    bool ok = true;
    if (p.path == ruy::Path::kAvx) ok = __builtin_cpu_supports("avx");
    if (p.path == ruy::Path::kAvx2Fma)
      ok = __builtin_cpu_supports("avx2") && __builtin_cpu_supports("fma");
    if (p.path == ruy::Path::kAvx512)
      ok = __builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512bw") &&
           __builtin_cpu_supports("avx512dq") && __builtin_cpu_supports("avx512vl");
    if (ok) v.push_back(p);
  }
  return v;
}
const char* NameOf(ruy::Path p) {
  for (auto& x : kAll)
    if (x.path == p) return x.name;
  return "?";
}

}  // namespace mulapi
