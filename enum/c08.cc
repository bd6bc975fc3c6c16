// C08: caching of packed operands is invisible in the results.
//
// Every sequence up to the depth bound of multiplications over shared buffers,
// cache clearing, data modification and path changes on one context; every
// destination is compared with the definition. Released buffers are overwritten,
// so packed data used after its release shows up as a wrong result.
#include "alloctrack.h"
#include "mulref.h"
#include "ruy/context_get_ctx.h"
#include "ruy/ctx_impl.h"
#include "ruy/prepacked_cache.h"

namespace {
using namespace mulref;

const int kEntries = 512;

struct View {
  int buf;  // 0 or 1
  int rows, cols;
  bool rm;
  int stride, offset;
};
struct Op {
  const char* name;
  int kind;  // 0 multiplication, 1 clear, 2 modify, 3 next path
  View l, r;
  int cl, cr;    // cache policies
  int zl, zr;    // zero points, integer types only
  bool drm;
  int buf;
};

const View P8{0, 8, 8, false, 0, 0}, P8r{0, 8, 8, true, 0, 0}, P8s{0, 8, 8, false, 11, 0},
    P7x8{0, 7, 8, false, 8, 0}, P8x7{0, 8, 7, false, 8, 0}, P8o{0, 8, 8, false, 0, 1},
    P8rs{0, 8, 8, true, 11, 0}, P5x8{0, 5, 8, false, 0, 0},
    Q8{1, 8, 8, false, 0, 0}, Q7x8{1, 7, 8, false, 0, 0}, Q8x7{1, 8, 7, false, 0, 0},
    Q8x1{1, 8, 1, false, 0, 0}, Q8x40{1, 8, 40, false, 0, 0}, Q8r{1, 8, 8, true, 0, 0},
    // As wide as the widest kernel, so that rounding gives all paths the same shape.
    P16{0, 16, 16, false, 0, 0}, Q16{1, 16, 16, false, 0, 0};

std::vector<Op> Ops(bool integer, bool small) {
  std::vector<Op> v = {
      {"P.Q", 0, P8, Q8, 3, 0, 0, 0, false, 0},
      {"Pr.Q", 0, P8r, Q8, 3, 0, 0, 0, false, 0},
      {"Ps.Q", 0, P8s, Q8, 3, 0, 0, 0, false, 0},
      {"P7x8.Q", 0, P7x8, Q8, 3, 0, 0, 0, false, 0},
      {"P8x7.Q", 0, P8x7, Q7x8, 3, 0, 0, 0, false, 0},
      {"Q.P", 0, Q8, P8, 0, 3, 0, 0, false, 0},
      {"Q.Pr", 0, Q8, P8r, 0, 3, 0, 0, false, 0},
      {"Q.P7x8", 0, Q8x7, P7x8, 0, 3, 0, 0, false, 0},
      {"Q.P8x7", 0, Q8, P8x7, 0, 3, 0, 0, false, 0},
      {"P.P", 0, P8, P8, 3, 3, 0, 0, false, 0},
      {"P.Qboth", 0, P8, Q8, 3, 3, 0, 0, false, 0},
      {"Q.Pboth", 0, Q8, P8, 3, 3, 0, 0, false, 0},
      {"Plarge.q1", 0, P8, Q8x1, 1, 0, 0, 0, false, 0},
      {"Psig.Q40", 0, P8, Q8x40, 2, 1, 0, 0, false, 0},
      {"P.Qrm", 0, P8, Q8, 3, 0, 0, 0, true, 0},
      {"P.Qnever", 0, P8, Q8, 0, 0, 0, 0, false, 0},
      {"P16.Q", 0, P16, Q16, 3, 0, 0, 0, false, 0},
      {"Q.P16", 0, Q16, P16, 0, 3, 0, 0, false, 0},
      {"clear", 1, P8, P8, 0, 0, 0, 0, false, 0},
      {"modP", 2, P8, P8, 0, 0, 0, 0, false, 0},
      {"path", 3, P8, P8, 0, 0, 0, 0, false, 0},
  };
  if (integer) {
    v.push_back({"Pz5.Q", 0, P8, Q8, 3, 0, 5, 0, false, 0});
    v.push_back({"Q.Pz5", 0, Q8, P8, 0, 3, 0, 5, false, 0});
    v.push_back({"P.Qz5both", 0, P8, Q8, 3, 3, 0, 5, false, 0});
  }
  if (!small) {
    v.push_back({"Po.Q", 0, P8o, Q8, 3, 0, 0, 0, false, 0});
    v.push_back({"Prs.Q", 0, P8rs, Q8, 3, 0, 0, 0, false, 0});
    v.push_back({"P5x8.Q", 0, P5x8, Q8, 3, 0, 0, 0, false, 0});
    v.push_back({"Q.Ps", 0, Q8, P8s, 0, 3, 0, 0, false, 0});
    v.push_back({"Pr.Pr", 0, P8r, P8r, 3, 3, 0, 0, false, 0});
    v.push_back({"P.Prm", 0, P8, P8, 3, 3, 0, 0, true, 0});
    v.push_back({"P.Pr", 0, P8, P8r, 3, 3, 0, 0, false, 0});
    v.push_back({"Qr.P", 0, Q8r, P8, 2, 2, 0, 0, false, 0});
    v.push_back({"modQ", 2, P8, P8, 0, 0, 0, 0, false, 1});
  }
  return v;
}

struct World {
  int types;
  std::vector<PathName> paths;
  std::vector<char> data[2], dst;
  int version[2];
  bool cached[2];
  size_t path_index;
  // memoised expectations: key -> destination bytes
  std::map<std::vector<int>, std::vector<char>> expected;

  void Fill(int b) {
    const Types& t = kTypes[types];
    for (int i = 0; i < kEntries; i++) {
      const uint64_t h = vd::mix(vd::mix(b + 3, version[b]), i);
      long v = (long)(h % 15) - 7;
      if (t.l == U8) v += 128;
      Store(t.l, data[b].data(), i, (double)v);
    }
  }
  void Reset() {
    const Types& t = kTypes[types];
    for (int b = 0; b < 2; b++) {
      data[b].resize(kEntries * SizeOf(t.l));
      if (version[b] != 0 || !filled) {
        version[b] = 0;
        Fill(b);
      }
      cached[b] = false;
    }
    filled = true;
    path_index = 0;
  }
  bool filled = false;

  const std::vector<char>& Expect(int index, const Op& o, const MulDesc& q) {
    std::vector<int> key{index, version[0], version[1]};
    auto it = expected.find(key);
    if (it != expected.end()) return it->second;
    const Types& t = kTypes[types];
    std::vector<char>& e = expected[key];
    e.assign((size_t)q.d.rows * q.d.cols * SizeOf(t.d), 0);
    for (int i = 0; i < q.l.rows; i++)
      for (int j = 0; j < q.r.cols; j++) {
        double acc = 0;
        for (int k = 0; k < q.l.cols; k++)
          acc += (Load(t.l, q.l.data, q.l.At(i, k)) - q.l.zp) *
                 (Load(t.r, q.r.data, q.r.At(k, j)) - q.r.zp);
        Store(t.d, e.data(), q.d.At(i, j), acc);
      }
    return e;
  }

  void Multiply(int index, const Op& o, ruy::Context* ctx) {
    const Types& t = kTypes[types];
    MulDesc q;
    q.types = types;
    auto set = [&](MatDesc* m, const View& v, int cache, int zp) {
      m->rows = v.rows;
      m->cols = v.cols;
      m->row_major = v.rm;
      m->stride = v.stride;
      m->data = data[v.buf].data() + v.offset * SizeOf(t.l);
      m->cache = cache;
      m->zp = IsFloat(t.l) ? 0 : zp + (t.l == U8 ? 128 : 0);
      if (cache) cached[v.buf] = true;
    };
    set(&q.l, o.l, o.cl, o.zl);
    set(&q.r, o.r, o.cr, o.zr);
    q.d.rows = o.l.rows;
    q.d.cols = o.r.cols;
    q.d.row_major = o.drm;
    const size_t bytes = (size_t)q.d.rows * q.d.cols * SizeOf(t.d);
    if (dst.size() < bytes) dst.resize(bytes);
    memset(dst.data(), 0x33, bytes);
    q.d.data = dst.data();
    q.ctx = ctx;
    const std::vector<char>& e = Expect(index, o, q);
    Mul(q);
    vd::Transition();
    vd::Compared(q.d.rows * q.d.cols);
    if (alloctrack::StaleWrite())
      vd::Violation("released", "multiplication %s wrote a buffer that had been released", o.name);
    if (memcmp(dst.data(), e.data(), bytes)) {
      for (size_t i = 0; i < bytes / SizeOf(t.d); i++)
        if (memcmp(dst.data() + i * SizeOf(t.d), e.data() + i * SizeOf(t.d), SizeOf(t.d)))
          vd::Violation("result", "multiplication %s: entry %zu is %g, without caching %g (%s path)",
                        o.name, i, Load(t.d, dst.data(), i), Load(t.d, e.data(), i),
                        paths[path_index].name);
    }
  }
};

// Replaces the cache of a fresh context by one with the given budget. The cache
// object is found through its address, not through the name of a member.
bool SetBudget(ruy::Context* context, int budget) {
  ruy::Ctx* ctx = ruy::get_ctx(context);
  ruy::PrepackedCache* c = ctx->GetPrepackedCache();
  ruy::PrepackedCache* mine = new ruy::PrepackedCache(budget);
  char* base = (char*)ctx;
  for (size_t i = 0; i + sizeof(void*) <= sizeof(ruy::CtxImpl); i += sizeof(void*)) {
    void* v;
    memcpy(&v, base + i, sizeof v);
    if (v == c) {
      memcpy(base + i, &mine, sizeof mine);
      if (ctx->GetPrepackedCache() == mine) {
        delete c;
        return true;
      }
      memcpy(base + i, &v, sizeof v);
    }
  }
  delete mine;
  return false;
}

void Sequence(World* w, const std::vector<Op>& ops, const std::vector<int>& seq, long budget) {
  alloctrack::State& s = alloctrack::S();
  w->Reset();
  ruy::Context ctx;
  ctx.set_max_num_threads(1);
  ctx.set_runtime_enabled_paths(w->paths[0].path);
  s.counting = true;
  auto rebudget = [&] {
    if (budget >= 0 && !SetBudget(&ctx, (int)budget)) vd::Count("budget_not_settable");
  };
  rebudget();
  for (int o : seq) {
    const Op& op = ops[o];
    switch (op.kind) {
      case 0: w->Multiply(o, op, &ctx); break;
      case 1:
        ctx.ClearPrepackedCache();
        w->cached[0] = w->cached[1] = false;
        rebudget();
        vd::Transition();
        break;
      case 2:
        w->version[op.buf]++;
        w->Fill(op.buf);
        if (w->cached[op.buf]) {
          ctx.ClearPrepackedCache();
          w->cached[0] = w->cached[1] = false;
          rebudget();
          vd::Transition();
        }
        break;
      case 3:
        w->path_index = (w->path_index + 1) % w->paths.size();
        ctx.set_runtime_enabled_paths(w->paths[w->path_index].path);
        vd::Transition();
        break;
    }
    ruy::PrepackedCache* c = ruy::get_ctx(&ctx)->GetPrepackedCache();
    vd::State(vd::mix(vd::mix(c->BuffersBytes(), c->MatrixCount()),
                      vd::mix(o * 8 + w->path_index, w->version[0] * 16 + w->version[1])));
  }
  s.counting = false;
}

void Enumerate(const char* types, std::vector<const char*> path_names, int first, int depth,
               long budget, bool small) {
  alloctrack::InitArena();
  alloctrack::S().guard = true;
  alloctrack::S().poison = true;
  World w;
  w.types = TypesByName(types);
  for (auto n : path_names)
    for (auto& p : RunnablePaths())
      if (!strcmp(p.name, n)) w.paths.push_back(p);
  if (w.paths.empty()) return;
  w.version[0] = w.version[1] = 0;
  const std::vector<Op> ops = Ops(!IsFloat(kTypes[w.types].l), small);
  if (first >= (int)ops.size()) return;
  std::vector<int> seq{first};
  std::function<void()> go = [&] {
    if ((int)seq.size() == depth) {
      std::string name;
      for (int o : seq) name += std::string(" ") + ops[o].name;
      if (vd::Begin("%s budget=%ld:%s", types, budget, name.c_str())) {
        Sequence(&w, ops, seq, budget);
        vd::NonTrivial();
      }
      return;
    }
    if (vd::OutOfTime()) return;
    for (int o = 0; o < (int)ops.size(); o++) {
      seq.push_back(o);
      go();
      seq.pop_back();
    }
  };
  go();
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    struct S {
      const char* name;
      std::vector<const char*> paths;
    };
    const std::vector<S> sets = {{"simd", {"avx2", "avx512", "avx"}},
                                 {"mixed", {"avx512", "cpp", "avx2"}},
                                 {"portable", {"cpp", "cpp1", "cpp2", "cpp3"}}};
    for (const char* t : {"f32f32f32", "i8i8i32", "u8u8i32"})
      for (auto& s : sets)
        for (long b : {-1L, 0L, 500L, 1500L})
          for (int f = 0; f < (int)Ops(t[0] != 'f', false).size(); f++) {
            const bool th = vd::Thorough();
            const std::string ts = t;
            const S ss = s;
            const int sm = Ops(t[0] != 'f', true).size();
            jobs.emplace_back(vd::Str("all-%s-%s-%ld-%d", t, s.name, b, f),
                              [=] { Enumerate(ts.c_str(), ss.paths, f, th ? 4 : 3, b, false); },
                              th ? 20 : 1);
            if (f < sm && (b == -1 || b == 500)) {
              const int depth = th && ts[0] != 'u' && !strcmp(ss.name, "simd") ? 5 : 4;
              if (!th || depth == 5)
                jobs.emplace_back(
                    vd::Str("deep-%s-%s-%ld-%d", t, s.name, b, f),
                    [=] { Enumerate(ts.c_str(), ss.paths, f, depth, b, true); }, 5);
            }
          }
    return jobs;
  });
}
