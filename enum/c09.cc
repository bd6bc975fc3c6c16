// C09: accounting and eviction of the prepacked cache.
//
// Every sequence of requests up to the depth bound, for every interesting
// budget, on the real cache against a reference list.
#include "alloctrack.h"
#include "ruy/mat.h"
#include "ruy/prepacked_cache.h"
#include "vd.h"

namespace {
using ruy::PEMat;
using ruy::PrepackedCache;

char src_a[64], src_b[64];

struct Key {
  const char* name;
  const void* src;
  int type;  // 0 float, 1 int8
  int rows, cols, krows, kcols, zp;
  bool kernel_row_major;
};
const Key kKeys[] = {
    {"f8x8", src_a, 0, 8, 8, 1, 8, 0, true},
    {"i8x8", src_b, 1, 8, 8, 4, 8, 0, false},
    {"i8x8z5", src_b, 1, 8, 8, 4, 8, 5, false},
    {"i16x8", src_b, 1, 16, 8, 4, 8, 0, false},
    {"i8x16", src_b, 1, 8, 16, 4, 8, 0, false},
    {"f8x8k4", src_a, 0, 8, 8, 1, 4, 0, true},
    {"i8x8@a+1", src_a + 1, 1, 8, 8, 4, 8, 0, false},
    {"i8x8r", src_b, 1, 8, 8, 4, 8, 0, true},
};
const int kNumKeys = sizeof(kKeys) / sizeof(kKeys[0]);
const int kClear = 100;  // replaces the cache by a new one
const int kAgain = 1000;  // + n: n more requests of what was requested last

PEMat Request(const Key& k) {
  PEMat m;
  if (k.type == 0) {
    m.data_type = ruy::Type::Create<float>();
    m.sums_type = ruy::Type::Create<float>();
  } else {
    m.data_type = ruy::Type::Create<std::int8_t>();
    m.sums_type = ruy::Type::Create<std::int32_t>();
  }
  m.layout.rows = k.rows;
  m.layout.cols = k.cols;
  m.layout.stride = k.rows;
  m.layout.order = ruy::Order::kColMajor;
  m.layout.kernel.rows = k.krows;
  m.layout.kernel.cols = k.kcols;
  m.layout.kernel.order = k.kernel_row_major ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
  m.zero_point = k.zp;
  return m;
}
long DataSize(const Key& k) { return (long)k.rows * k.cols * (k.type == 0 ? 4 : 1); }
long SumsSize(const Key& k) { return k.type == 0 ? 0 : (long)k.cols * 4; }
long Size(const Key& k) { return DataSize(k) + SumsSize(k); }

struct Held {
  int key;
  void *data, *sums;
};

struct Counting {
  Counting() { alloctrack::S().counting = true; }
  ~Counting() { alloctrack::S().counting = false; }
};

void Sequence(const std::vector<int>& seq, long budget) {
  alloctrack::State& s = alloctrack::S();
  const long live0 = s.live;
  if (s.aligned_live != 0) vd::Error("leftover blocks");
  PrepackedCache* cache;
  {
    Counting c;
    cache = new PrepackedCache((int)budget);
  }
  std::vector<Held> held;  // least recently used first
  long bytes = 0;
  for (int o : seq) {
    if (o == kClear) {
      Counting c;
      delete cache;
      cache = new PrepackedCache((int)budget);
      s.counting = false;
      vd::Transition();
      held.clear();
      bytes = 0;
      if (s.aligned_live != 0)
        vd::Violation("leak", "%ld buffers still held after clearing", s.aligned_live.load());
      continue;
    }
    if (o > kAgain) {
      const Held& h = held.back();
      for (int i = 0; i < o - kAgain; i++) {
        PEMat m = Request(kKeys[h.key]);
        const bool hit = cache->Get(kKeys[h.key].src, &m) == PrepackedCache::Action::kGotExistingEntry;
        if (!hit || m.data != h.data)
          vd::Violation("repeat", "repeated request of %s gives %s", kKeys[h.key].name,
                        hit ? "other buffers" : "an insertion");
      }
      vd::Transition(o - kAgain);
      vd::Compared(o - kAgain);
      continue;
    }
    const Key& k = kKeys[o];
    PEMat m = Request(k);
    PrepackedCache::Action action;
    {
      Counting c;
      action = cache->Get(k.src, &m);
    }
    vd::Transition();
    size_t at = 0;
    while (at < held.size() && held[at].key != o) at++;
    const bool expect_hit = at < held.size();
    const bool hit = action == PrepackedCache::Action::kGotExistingEntry;
    if (hit != expect_hit)
      vd::Violation(hit ? "unexpected-hit" : "unexpected-miss",
                    "request of %s is %s, expected a %s", k.name, hit ? "a hit" : "an insertion",
                    expect_hit ? "hit" : "miss");
    if (!m.data || (k.type == 1 && !m.sums))
      vd::Violation("null", "request of %s gives no buffer", k.name);
    if (!(m.layout == Request(k).layout) || m.zero_point != k.zp)
      vd::Violation("metadata", "request of %s gives other metadata", k.name);
    if (expect_hit) {
      Held h = held[at];
      held.erase(held.begin() + at);
      held.push_back(h);
      if (m.data != h.data || (k.type == 1 && m.sums != h.sums))
        vd::Violation("identity", "repeated request of %s gives other buffers", k.name);
      vd::NonTrivial();
    } else {
      while (!held.empty() && bytes + Size(k) > budget) {
        bytes -= Size(kKeys[held[0].key]);
        held.erase(held.begin());
        vd::Count("evictions");
      }
      held.push_back({o, m.data, m.sums});
      bytes += Size(k);
      memset(m.data, o + 1, DataSize(k));
      if (k.type == 1) memset(m.sums, o + 65, SumsSize(k));
    }
    // Everything the reference holds must still be there and intact.
    for (auto& h : held) {
      const Key& hk = kKeys[h.key];
      const char *d = (const char*)h.data, *u = (const char*)h.sums;
      bool ok = d[0] == h.key + 1 && d[DataSize(hk) - 1] == h.key + 1;
      if (hk.type == 1) ok = ok && u[0] == h.key + 65 && u[SumsSize(hk) - 1] == h.key + 65;
      if (!ok) vd::Violation("contents", "stored %s changed after request of %s", hk.name, k.name);
    }
    if (cache->BuffersBytes() != bytes)
      vd::Violation("accounting", "cache reports %ld bytes, holds %ld", (long)cache->BuffersBytes(),
                    bytes);
    if (cache->MatrixCount() != (int)held.size())
      vd::Violation("count", "cache reports %d matrices, expected %zu", cache->MatrixCount(),
                    held.size());
    if (s.aligned_bytes < bytes || s.aligned_bytes > bytes + 256 * (long)held.size())
      vd::Violation("memory", "system memory held is %ld bytes, expected %ld plus rounding",
                    s.aligned_bytes.load(), bytes);
    vd::Compared(4);
    uint64_t h = budget;
    for (auto& x : held) h = vd::mix(h, x.key);
    vd::State(h);
  }
  {
    Counting c;
    delete cache;
  }
  if (s.aligned_live != 0 || s.live != live0)
    vd::Violation("leak", "%ld blocks not returned to the system at destruction",
                  s.live - live0);
}

void Enumerate(long budget, int first, int depth) {
  std::vector<int> seq{first};
  std::function<void()> go = [&] {
    if ((int)seq.size() == depth) {
      std::string name;
      for (int o : seq) name += o == kClear ? " clear" : std::string(" ") + kKeys[o].name;
      if (vd::Begin("budget=%ld:%s", budget, name.c_str())) Sequence(seq, budget);
      return;
    }
    if (vd::OutOfTime()) return;
    for (int o = 0; o <= kNumKeys; o++) {
      seq.push_back(o == kNumKeys ? kClear : o);
      go();
      seq.pop_back();
    }
  };
  go();
}

// Caches that have been in use for long: one entry is requested very often in between.
void LongUse(long budget, int often) {
  const int depth = 5, keys = 4;
  int total = 1;
  for (int i = 0; i < depth; i++) total *= keys;
  for (int x = 0; x < total; x++)
    for (int at = 1; at < depth; at++) {
      std::vector<int> seq;
      std::string name;
      for (int i = 0, y = x; i < depth; i++, y /= keys) {
        if (i == at) seq.push_back(kAgain + often), name += vd::Str(" again*%d", often);
        seq.push_back(y % keys);
        name += std::string(" ") + kKeys[y % keys].name;
      }
      if (vd::OutOfTime()) return;
      if (vd::Begin("budget=%ld:%s", budget, name.c_str())) Sequence(seq, budget);
    }
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    // f8x8 256 bytes, i8x8 96, i16x8 160, i8x16 192
    for (long b : {0, 1, 95, 96, 191, 192, 255, 256, 352, 351, 447, 448, 512, 700, 1000, 1 << 20})
      for (int k = 0; k < kNumKeys; k++)
        jobs.emplace_back(vd::Str("budget-%ld-%s", b, kKeys[k].name),
                          [=] { Enumerate(b, k, vd::Thorough() ? 8 : 7); });
    for (long b : {352, 448})
      for (int n : {127, 128, 253, 254, 255, 256, 257, 32767, 65533, 65534, 65535, 65536, 65537})
        jobs.emplace_back(vd::Str("long-%ld-%d", b, n), [=] { LongUse(b, n); });
    return jobs;
  });
}
