// C04: the work decomposition covers the destination exactly once.
#include <algorithm>
#include <cstring>
#include <map>

#include "vd.h"
#include "ruy/block_map.h"
#include "ruy/cpu_cache_params.h"
#include "ruy/side_pair.h"

namespace {
using ruy::BlockMap;
using ruy::BlockMapTraversalOrder;
using ruy::Side;
using ruy::SidePair;

uint64_t HashMap(const BlockMap& m) {
  uint64_t h = 7;
  const unsigned char* p = reinterpret_cast<const unsigned char*>(&m);
  for (size_t i = 0; i < sizeof m; i++) h = vd::mix(h, p[i]);
  return h;
}

const char* SideName(Side s) { return s == Side::kLhs ? "rows" : "columns"; }

// Checks that the blocks along each side partition it.
void CheckSides(const BlockMap& m, const int want_dims[2], const int kernel[2]) {
  int n[2];
  for (Side s : {Side::kLhs, Side::kRhs}) {
    n[(int)s] = ruy::NumBlocksPerSide(s, m);
    if (n[(int)s] < 1)
      vd::Violation("partition", "%d blocks along %s", n[(int)s], SideName(s));
    int at = 0;
    for (int b = 0; b < n[(int)s]; b++) {
      int st = -1, en = -1;
      ruy::GetBlockMatrixCoords(s, m, b, &st, &en);
      vd::Transition();
      if (st != at || en <= st || st % kernel[(int)s] || en % kernel[(int)s])
        vd::Violation("partition",
                      "block %d along %s is [%d,%d), previous one ended at %d "
                      "(kernel size %d)",
                      b, SideName(s), st, en, at, kernel[(int)s]);
      at = en;
    }
    if (at != want_dims[(int)s])
      vd::Violation("partition", "blocks along %s cover [0,%d) instead of [0,%d)",
                    SideName(s), at, want_dims[(int)s]);
  }
  const long total = ruy::NumBlocks(m);
  if (total != (long)n[0] * n[1])
    vd::Violation("partition", "%ld blocks in all, %d x %d in the grid", total,
                  n[0], n[1]);
}

// Checks that every block of the grid is visited once. Grids of more than 1024
// blocks are expanded once per grid shape and order, smaller ones for every map.
void CheckVisits(const BlockMap& m) {
  const int n[2] = {ruy::NumBlocksPerSide(Side::kLhs, m),
                    ruy::NumBlocksPerSide(Side::kRhs, m)};
  const long total = ruy::NumBlocks(m);
  if (total > 1024) {
    static std::set<std::vector<int>> done;
    if (!done.insert({n[0], n[1], (int)m.traversal_order}).second) {
      vd::Count("large_grids_expanded_before");
      return;
    }
    if (total > (1l << 24)) {
      vd::Count("grids_too_large_for_index_enumeration");
      return;
    }
  }
  std::vector<bool> seen(total);
  SidePair<int> prev{-1, -1};
  for (long i = 0; i < total; i++) {
    SidePair<int> b, st, en;
    ruy::GetBlockByIndex(m, (int)i, &b);
    vd::Transition();
    const int l = b[Side::kLhs], r = b[Side::kRhs];
    if (l < 0 || l >= n[0] || r < 0 || r >= n[1])
      vd::Violation("partition", "index %ld maps to block (%d,%d) outside %dx%d", i,
                    l, r, n[0], n[1]);
    if (seen[(long)l * n[1] + r])
      vd::Violation("partition", "block (%d,%d) is visited twice (again at index %ld)",
                    l, r, i);
    seen[(long)l * n[1] + r] = true;
    if (total <= 4096) {
      ruy::GetBlockMatrixCoords(m, b, &st, &en);
      for (Side s : {Side::kLhs, Side::kRhs}) {
        int st1, en1;
        ruy::GetBlockMatrixCoords(s, m, b[s], &st1, &en1);
        if (st[s] != st1 || en[s] != en1)
          vd::Violation("partition", "coordinates of block (%d,%d) disagree along %s",
                        l, r, SideName(s));
      }
    }
  }
  vd::Compared(total);
  vd::Count("block_indices_checked", total);
}

// Whether the blocks are visited in row-then-column order inside each square.
bool TraversedLinearly(const BlockMap& m) {
  BlockMap lin = m;
  lin.traversal_order = BlockMapTraversalOrder::kLinear;
  const int total = std::min(ruy::NumBlocks(m), 4096);
  for (int i = 0; i < total; i++) {
    SidePair<int> a, b;
    ruy::GetBlockByIndex(m, i, &a);
    ruy::GetBlockByIndex(lin, i, &b);
    if (a[Side::kLhs] != b[Side::kLhs] || a[Side::kRhs] != b[Side::kRhs])
      return false;
  }
  return true;
}

struct Params {
  int rows, cols, depth, kr, kc, ls, rs, threads, local, last;
};

void Check(const Params& p) {
  if (!vd::Begin("rows=%d cols=%d depth=%d kernel=%dx%d sizes=%d,%d threads=%d "
                 "caches=%d,%d",
                 p.rows, p.cols, p.depth, p.kr, p.kc, p.ls, p.rs, p.threads,
                 p.local, p.last))
    return;
  ruy::CpuCacheParams cc;
  cc.local_cache_size = p.local;
  cc.last_level_cache_size = p.last;
  BlockMap m;
  memset((void*)&m, 0x5a, sizeof m);
  ruy::MakeBlockMap(p.rows, p.cols, p.depth, p.kr, p.kc, p.ls, p.rs, p.threads,
                    cc, &m);
  vd::Transition();
  const long total = ruy::NumBlocks(m);
  if (m.thread_count < 1 || m.thread_count > p.threads || m.thread_count > total)
    vd::Violation("threads", "%d threads used, %d requested, %ld blocks",
                  m.thread_count, p.threads, total);
  if (ruy::IsObviouslyLinearTraversal(p.rows, p.cols, p.depth, p.ls, p.rs, cc)) {
    vd::Count("announced_linear");
    if (!TraversedLinearly(m))
      vd::Violation("linear", "announced as linear, traversed in order %d",
                    (int)m.traversal_order);
  }
  vd::Compared(2);
  if (total > 1) vd::NonTrivial();
  const int dims[2] = {p.rows, p.cols}, kernel[2] = {p.kr, p.kc};
  for (auto o : {BlockMapTraversalOrder::kLinear, BlockMapTraversalOrder::kFractalZ,
                 BlockMapTraversalOrder::kFractalU,
                 BlockMapTraversalOrder::kFractalHilbert}) {
    // The order chosen and, since it depends only on cache sizes, all others.
    BlockMap mo = m;
    mo.traversal_order = o;
    mo.thread_count = 1;  // not an input of the functions below
    if (vd::State(HashMap(mo))) {
      if (o == BlockMapTraversalOrder::kLinear) {
        vd::Count("maps");
        CheckSides(mo, dims, kernel);
      }
      CheckVisits(mo);
    }
  }
}

const int kCaches[][2] = {{4096, 4096}, {32 << 10, 256 << 10}, {32 << 10, 8 << 20},
                          {1 << 20, 64 << 20}};
const int kSizes[][2] = {{1, 1}, {2, 2}, {4, 4}, {8, 8}, {1, 2}};

void Small(int kr, int kc) {
  const int n = vd::Thorough() ? 132 : 50;
  for (int rk = 1; rk <= n; rk++)
    for (int ck = 1; ck <= n; ck++) {
      if (vd::OutOfTime()) return;
      for (int depth : {1, 24, 512, 4096})
        for (auto& s : kSizes) {
          if (s[0] == 2 || s[0] == 8) continue;
          for (int th : {1, 2, 3, 4, 5, 8, 64})
            for (auto& c : kCaches) {
              if (depth == 1 && c[1] != 4096) continue;
              Check({rk * kr, ck * kc, depth, kr, kc, s[0], s[1], th, c[0], c[1]});
            }
        }
    }
}

// Sizes around powers of two, as far as the entries of each of the three
// matrices can be numbered by a 32-bit signed integer.
void Large(int kr, int kc) {
  auto dims = [](int k) {
    std::vector<int> v;
    for (int e = 0; e <= 30; e++) {
      if (!vd::Thorough() && e > 12 && e % 5) continue;
      for (long d : {-1L, 0L, 1L}) {
        long x = (((1L << e) + d * k + k - 1) / k) * k;
        if (x >= k && x < (1L << 31) - 64) v.push_back((int)x);
        x = (3L << e) / k * k;
        if (x >= k && x < (1L << 31) - 64) v.push_back((int)x);
      }
    }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
  };
  const long lim = (1L << 31) - 1;
  std::vector<int> R = dims(kr), C = dims(kc), D;
  for (int e = 0; e <= 30; e += vd::Thorough() ? 2 : 3) {
    D.push_back(1 << e);
    if (e > 1) D.push_back((1 << e) - 1);
  }
  for (int r : R)
    for (int c : C) {
      if ((long)r * c > lim) continue;
      if (vd::OutOfTime()) return;
      for (int d : D) {
        if ((long)r * d > lim || (long)c * d > lim) continue;
        for (auto& s : kSizes)
          for (int th : {1, 3, 8, 1000}) {
            auto& cc = kCaches[1 + (s[0] == 1)];
            Check({r, c, d, kr, kc, s[0], s[1], th, cc[0], cc[1]});
          }
      }
    }
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    for (int kr : {1, 2, 4, 8, 16})
      for (int kc : {1, 2, 4, 8, 16}) {
        jobs.emplace_back(vd::Str("small-%dx%d", kr, kc),
                          [=] { Small(kr, kc); }, 10);
        jobs.emplace_back(vd::Str("large-%dx%d", kr, kc),
                          [=] { Large(kr, kc); }, 20);
      }
    return jobs;
  });
}
