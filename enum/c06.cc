// C06: a multiplication stays within the memory it was given.
#include <sys/mman.h>

#include <memory>

#include "alloctrack.h"
#include "mulproblem.h"

namespace {

// A buffer that can be handed out flush against an unmapped page on either
// side. The code under test gets the `user` view, read-only if wanted; the
// harness fills through the `mine` view of the same memory.
struct Zone {
  static const size_t kBytes = 1 << 18;
  char *user = nullptr, *mine = nullptr;
  void Init(bool writable) {
    int fd = memfd_create("zone", 0);
    if (fd < 0 || ftruncate(fd, kBytes)) vd::Error("memfd");
    char* a = (char*)mmap(nullptr, kBytes + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS,
                          -1, 0);
    user = (char*)mmap(a + 4096, kBytes, writable ? PROT_READ | PROT_WRITE : PROT_READ,
                       MAP_SHARED | MAP_FIXED, fd, 0);
    mine = (char*)mmap(nullptr, kBytes, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (user == MAP_FAILED || mine == MAP_FAILED) vd::Error("mmap");
    close(fd);
  }
  // Offset of a block of n bytes: at the very end or at the very start.
  size_t Off(size_t n, bool at_end) const {
    if (n > kBytes) vd::Error("zone too small");
    return at_end ? kBytes - n : 0;
  }
};
Zone ZL, ZR, ZD, ZB, ZF, ZE;
std::vector<char> tl, tr, td;

const char kCanary = 0x6b;

void OneCase(const Problem& p, int m, int n, int orders, const PathName& path, bool at_end,
             int rounding, int threads) {
  const Types& t = kTypes[p.types];
  if (!vd::Begin("%s %s m=%d k=%d n=%d orders=%c%c%c setting=%s pad=%d bias=%d col=%d "
                 "mult=%d place=%s capacity=%d threads=%d",
                 t.name, path.name, m, p.k, n, orders & 1 ? 'r' : 'c',
                 orders & 2 ? 'r' : 'c', orders & 4 ? 'r' : 'c', p.s.name, p.s.pad,
                 p.s.bias, p.s.col, p.s.mult, at_end ? "end" : "start", rounding, threads))
    return;
  MulDesc q;
  q.types = p.types;
  LayoutOf(&q.l, m, p.k, orders & 1, p.s.pad ? 3 : 0);
  LayoutOf(&q.r, p.k, n, (orders >> 1) & 1, p.s.pad ? 1 : 0);
  LayoutOf(&q.d, m, n, (orders >> 2) & 1, p.s.pad ? 2 : 0);
  FillOperand(t.l, p.z.l, p.lv, p.k, false, &q.l, &tl);
  FillOperand(t.r, p.z.r, p.rv, p.k, true, &q.r, &tr);
  auto put = [&](Zone& z, const void* src, size_t bytes) {
    const size_t off = z.Off(bytes, at_end);
    memcpy(z.mine + off, src, bytes);
    return (void*)(z.user + off);
  };
  q.l.data = put(ZL, tl.data(), q.l.Span() * SizeOf(t.l));
  q.r.data = put(ZR, tr.data(), q.r.Span() * SizeOf(t.r));
  const size_t dbytes = q.d.Span() * SizeOf(t.d), doff = ZD.Off(dbytes, at_end);
  // The canary also fills what is mapped next to the destination.
  const size_t c0 = doff > 256 ? doff - 256 : 0,
               c1 = std::min(doff + dbytes + 256, (size_t)Zone::kBytes);
  memset(ZD.mine + c0, kCanary, c1 - c0);
  q.d.data = ZD.user + doff;
  q.d.zp = p.z.d;
  ApplySetting(p, &q);
  const int channels = p.s.col ? n : m;
  const int cap = (channels + rounding - 1) / rounding * rounding;
  q.capacity_rounding = rounding;
  auto vec = [&](Zone& z, const void* src, int size) -> const void* {
    std::vector<char> v((size_t)cap * size, 0);
    memcpy(v.data(), src, (size_t)channels * size);
    return put(z, v.data(), v.size());
  };
  if (q.bias) q.bias = vec(ZB, q.bias, SizeOf(t.a));
  if (q.fixedpoint_pc) {
    q.fixedpoint_pc = (const int32_t*)vec(ZF, q.fixedpoint_pc, 4);
    q.exponent_pc = (const int*)vec(ZE, q.exponent_pc, 4);
  }
  alloctrack::State& a = alloctrack::S();
  long live0 = a.live;
  auto run = [&] {
    a.counting = true;
    {
      ruy::Context ctx;
      Setup(&ctx, path, threads);
      q.ctx = &ctx;
      Mul(q);
    }
    a.counting = false;
    vd::Transition();
  };
  run();
  // The C library keeps a block per cached thread stack; what is leaked by the
  // multiplication grows every time.
  for (int again = 0; threads > 1 && again < 4 && a.live != live0; again++) {
    live0 = a.live;
    run();
  }
  if (a.live != live0)
    vd::Violation("leak", "%ld blocks still allocated after the context was destroyed",
                  a.live - live0);
  if (alloctrack::StaleWrite())
    vd::Violation("released", "a scratch buffer was written after its release");
  // Everything but the entries must be untouched.
  const int inner = q.d.row_major ? n : m, outer = q.d.row_major ? m : n;
  const size_t line = (size_t)q.d.stride * SizeOf(t.d), used = (size_t)inner * SizeOf(t.d);
  auto clean = [&](size_t from, size_t to) {
    for (size_t x = from; x < to; x++)
      if (ZD.mine[x] != kCanary)
        vd::Violation("footprint",
                      "byte %ld relative to the destination was written (destination has "
                      "%d lines of %zu bytes every %zu bytes)",
                      (long)x - (long)doff, outer, used, line);
  };
  clean(c0, doff);
  for (int o = 0; o + 1 < outer; o++) clean(doff + o * line + used, doff + (o + 1) * line);
  clean(doff + dbytes, c1);
  vd::Compared(c1 - c0 - (size_t)outer * used);
  uint64_t h = HashBytes(ZD.mine + doff, dbytes);
  vd::State(h);
  vd::NonTrivial();
}

const Setting kGuard[] = {
    {"plain", 0, 0, 0, 0, 0, 0, 0},
    {"rowch", 1, 1, 1, 0, 1, 4, 1},
    {"colch", 0, 2, 1, 1, 0, 4, 1},
};

void InitAll() {
  InitData();
  ZL.Init(false);
  ZR.Init(false);
  ZD.Init(true);
  ZB.Init(false);
  ZF.Init(false);
  ZE.Init(false);
  {
    // Process-wide hardware detection happens once, with the first context.
    ruy::Context ctx;
    float a = 1, b = 2, c = 0;
    MulDesc q;
    q.l.rows = q.l.cols = q.r.rows = q.r.cols = q.d.rows = q.d.cols = 1;
    q.l.data = &a;
    q.r.data = &b;
    q.d.data = &c;
    q.ctx = &ctx;
    Mul(q);
  }
  alloctrack::InitArena();
  alloctrack::S().guard = true;
  alloctrack::S().poison = true;
}

void Run(int types, const PathName& path) {
  InitAll();
  const bool vec = Vector(path);
  std::vector<int> sizes, depths;
  if (vec) {
    sizes = vd::Thorough() ? Range(1, 34, {47, 48, 49}) : Range(1, 18, {24, 31, 32, 33});
    depths = vd::Thorough() ? Range(1, 18, {31, 32, 33, 65}) : Range(1, 9, {15, 16, 17, 33});
  } else {
    sizes = {1, 2, 3, 4, 5, 8, 9, 16, 17};
    depths = {1, 2, 3, 4, 5, 9};
  }
  for (int k : depths)
    for (auto& s : kGuard) {
      Problem p = MakeProblem(types, s, sizes.back(), sizes.back(), k, path);
      for (int m : sizes)
        for (int n : sizes) {
          if (vd::OutOfTime()) return;
          for (int o = 0; o < 8; o++)
            for (int end = 0; end < 2; end++) OneCase(p, m, n, o, path, end, 1, 1);
        }
    }
}

// Capacity promises of every size.
void Capacity(int types, const PathName& path) {
  InitAll();
  for (int col = 0; col < 2; col++) {
    Setting s{"capacity", 0, 1, 1, col, 0, 4, 1};
    Problem p = MakeProblem(types, s, 40, 40, 3, path);
    for (int ch = 1; ch <= 40; ch++)
      for (int other : {1, 5, 17})
        for (int rounding : {1, 2, 4, 8, 16, 32})
          for (int o : {0, 4})
            for (int end = 0; end < 2; end++)
              OneCase(p, col ? other : ch, col ? ch : other, o, path, end, rounding, 1);
  }
}

// The same with several blocks and threads.
void Threads(int types, const PathName& path) {
  InitAll();
  for (auto& s : kGuard) {
    Problem p = MakeProblem(types, s, 66, 66, 5, path);
    for (int th : {2, 3})
      for (int m : {1, 15, 33, 50, 66})
        for (int n : {1, 15, 33, 50, 66})
          for (int o : {0, 3, 4, 7})
            for (int end = 0; end < 2; end++) OneCase(p, m, n, o, path, end, 1, th);
  }
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    for (int t = 0; t < kNumTypes; t++)
      for (auto& p : RunnablePaths()) {
        const Types& ty = kTypes[t];
        const bool e8 = SizeOf(ty.l) == 1 && SizeOf(ty.r) == 1;
        const bool fast = e8 || (ty.l == F32 && ty.r == F32);
        auto nm = [&](const char* k) { return vd::Str("%s-%s-%s", k, ty.name, p.name); };
        if (fast || !Vector(p)) jobs.emplace_back(nm("shapes"), [=] { Run(t, p); }, 10);
        jobs.emplace_back(nm("capacity"), [=] { Capacity(t, p); }, 1);
        jobs.emplace_back(nm("threads"), [=] { Threads(t, p); }, 3);
      }
    return jobs;
  });
}
