// C15: trees built from profile samples, and collapsing them.
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <memory>

#include "ruy/profiler/instrumentation.h"
#include "ruy/profiler/treeview.h"
#include "vd.h"

namespace {
using namespace ruy::profiler;
using detail::Stack;

// A label as the instrumented code would give it. Labels with the same identity
// have equal format text and equal parameters, whatever the address of the text.
struct L {
  const char* format;
  int nargs;
  int args[4];
  int identity;
};
void Apply(const L& l, Label* out) {
  switch (l.nargs) {
    case 0: out->Set(l.format); break;
    case 1: out->Set(l.format, l.args[0]); break;
    case 2: out->Set(l.format, l.args[0], l.args[1]); break;
    case 3: out->Set(l.format, l.args[0], l.args[1], l.args[2]); break;
    case 4: out->Set(l.format, l.args[0], l.args[1], l.args[2], l.args[3]); break;
  }
}
std::string Text(const L& l) {
  char b[256];
  snprintf(b, sizeof b, l.format, l.args[0], l.args[1], l.args[2], l.args[3]);
  return b;
}

char twin_text[] = "b %d";
char twin_text4[] = "x %d,%d,%d,%d";
const std::vector<std::vector<L>> kSets = {
    {{"a", 0, {}, 0}, {"b %d", 1, {1}, 1}, {"b %d", 1, {2}, 2}},
    {{"b %d", 1, {7}, 0}, {twin_text, 1, {7}, 0}, {"b 7", 0, {}, 1}},
    {{"x %d,%d,%d,%d", 4, {1, 2, 3, 4}, 0},
     {twin_text4, 4, {1, 2, 3, 5}, 1},
     {"x %d,%d,%d,%d", 4, {-1, 2, 3, 4}, 2}},
    {{"y %d,%d", 2, {1, 2}, 0}, {"y %d,%d", 2, {2, 1}, 1}, {"y %d,%d,%d", 3, {1, 2, 0}, 2}},
    {{"ab", 0, {}, 0}, {"abc", 0, {}, 1}, {"", 0, {}, 2}},
};

struct Sample {
  int thread;
  std::vector<int> labels;  // indices into the set
};

std::vector<Sample> Samples(int depth) {
  std::vector<Sample> v;
  for (int t = 0; t < 2; t++)
    for (int d = 1; d <= depth; d++) {
      int n = 1;
      for (int i = 0; i < d; i++) n *= 3;
      for (int x = 0; x < n; x++) {
        Sample s;
        s.thread = t;
        for (int i = 0, y = x; i < d; i++, y /= 3) s.labels.push_back(y % 3);
        v.push_back(s);
      }
    }
  return v;
}

// The expected tree.
struct Ref {
  int identity = -1;  // -1 root, -2 other
  int weight = 0;
  std::vector<Ref> children;
};
void AddRef(const std::vector<L>& set, const Sample& s, size_t level, Ref* r) {
  r->weight++;
  if (level == s.labels.size()) return;
  const int id = set[s.labels[level]].identity;
  for (auto& c : r->children)
    if (c.identity == id) return AddRef(set, s, level + 1, &c);
  r->children.push_back({});
  r->children.back().identity = id;
  AddRef(set, s, level + 1, &r->children.back());
}
void AddMissing(Ref* r) {
  int sum = 0;
  for (auto& c : r->children) AddMissing(&c), sum += c.weight;
  if (!r->children.empty() && sum != r->weight) {
    r->children.push_back({});
    r->children.back().identity = -2;
    r->children.back().weight = r->weight - sum;
  }
}

// Identity of a node's label through the public interface.
int Identify(const std::vector<L>& set, const Label& l) {
  if (!strcmp(l.format(), "[other]")) return -2;
  for (auto& x : set)
    if (!strcmp(x.format, l.format()) && Text(x) == l.Formatted()) return x.identity;
  return -3;
}

void Compare(const std::vector<L>& set, const Ref& want, const TreeView::Node& got, bool root,
             const char* what) {
  if (got.weight != want.weight)
    vd::Violation("weight", "%s: node %s weighs %d, expected %d", what,
                  got.label.Formatted().c_str(), got.weight, want.weight);
  if (!root && Identify(set, got.label) != want.identity)
    vd::Violation("label", "%s: node is %s, expected identity %d", what,
                  got.label.Formatted().c_str(), want.identity);
  if (got.children.size() != want.children.size())
    vd::Violation("children", "%s: node %s has %d children, expected %d", what,
                  got.label.Formatted().c_str(), (int)got.children.size(),
                  (int)want.children.size());
  vd::Compared(3);
  int last = 1 << 30;
  for (auto& c : got.children) {
    if (c->weight > last)
      vd::Violation("order", "%s: children of %s are not in order of decreasing weight", what,
                    got.label.Formatted().c_str());
    last = c->weight;
    const int id = Identify(set, c->label);
    const Ref* match = nullptr;
    for (auto& w : want.children)
      if (w.identity == id) match = &w;
    if (!match)
      vd::Violation("label", "%s: unexpected node %s", what, c->label.Formatted().c_str());
    Compare(set, *match, *c, false, what);
  }
  for (size_t i = 0; i < got.children.size(); i++)
    for (size_t j = 0; j < i; j++)
      if (Identify(set, got.children[i]->label) == Identify(set, got.children[j]->label))
        vd::Violation("label", "%s: the same label appears twice below %s", what,
                      got.label.Formatted().c_str());
}

int RefDepth(const Ref& r) {
  int d = 0;
  for (auto& c : r.children) d = std::max(d, 1 + RefDepth(c));
  return d;
}
int RefWeight(const Ref& r, int mask) {
  int w = r.identity >= 0 && (mask >> r.identity & 1) ? r.weight : 0;
  for (auto& c : r.children) w += RefWeight(c, mask);
  return w;
}
Ref RefTruncate(const Ref& r, int depth) {
  Ref o;
  o.identity = r.identity;
  o.weight = r.weight;
  if (depth > 0)
    for (auto& c : r.children) o.children.push_back(RefTruncate(c, depth - 1));
  return o;
}
Ref RefCollapse(const Ref& r, int mask, int depth) {
  if (r.identity >= 0 && (mask >> r.identity & 1)) return RefTruncate(r, depth);
  Ref o;
  o.identity = r.identity;
  o.weight = r.weight;
  for (auto& c : r.children) o.children.push_back(RefCollapse(c, mask, depth));
  return o;
}
uint64_t HashRef(const Ref& r) {
  uint64_t h = vd::mix(r.identity + 5, r.weight);
  std::vector<uint64_t> k;
  for (auto& c : r.children) k.push_back(HashRef(c));
  std::sort(k.begin(), k.end());
  for (auto x : k) h = vd::mix(h, x);
  return h;
}

void CompareTree(const std::vector<L>& set, const std::map<int, Ref>& want, const TreeView& got,
                 const char* what) {
  if (got.thread_roots().size() != want.size())
    vd::Violation("threads", "%s: %d threads, expected %d", what, (int)got.thread_roots().size(),
                  (int)want.size());
  for (auto& r : got.thread_roots()) {
    auto it = want.find(r.first);
    if (it == want.end()) vd::Violation("threads", "%s: unexpected thread %u", what, r.first);
    Compare(set, it->second, *r.second, true, what);
  }
}

void Record(const std::vector<L>& set, const Sample& s, std::vector<char>* buf) {
  static Stack stack;
  stack.id = s.thread ? 11 : 5;
  stack.size = s.labels.size();
  for (size_t i = 0; i < s.labels.size(); i++) Apply(set[s.labels[i]], &stack.labels[i]);
  const int n = detail::GetBufferSize(stack);
  const size_t at = buf->size();
  buf->resize(at + n);
  detail::CopyToBuffer(stack, buf->data() + at);
}

// What printing a tree writes.
std::string Printed(const TreeView& tree) {
  static const int fd = memfd_create("print", 0);
  fflush(stdout);
  const int saved = dup(1);
  if (fd < 0 || saved < 0 || ftruncate(fd, 0) || lseek(fd, 0, SEEK_SET)) vd::Error("cannot capture the output");
  dup2(fd, 1);
  Print(tree);
  fflush(stdout);
  dup2(saved, 1);
  close(saved);
  std::string s(lseek(fd, 0, SEEK_END), 0);
  if (pread(fd, &s[0], s.size(), 0) != (ssize_t)s.size()) vd::Error("cannot read the output");
  return s;
}
struct Line {
  int level;
  double percent;
  std::string label;
};
void Expected(const TreeView::Node& n, int level, int total, std::vector<Line>* out) {
  for (auto& c : n.children) {
    out->push_back({level, 100.0 * c->weight / total, c->label.Formatted()});
    Expected(*c, level + 1, total, out);
  }
}
// Every node below the roots is reported once, in order, below its parent, with its
// share of its thread's samples; every thread is named with its number of samples.
void CheckPrinted(const TreeView& tree) {
  const std::string text = Printed(tree);
  vd::Transition();
  std::vector<Line> want, got;
  size_t from = 0;
  for (auto& r : tree.thread_roots()) {
    Expected(*r.second, 0, r.second->weight, &want);
    char name[32], count[32];
    snprintf(name, sizeof name, "%x", (unsigned)r.first);
    snprintf(count, sizeof count, "%d", r.second->weight);
    const std::string label = r.second->label.Formatted();
    if (label.find(name) == label.npos || label.find(count) == label.npos)
      vd::Violation("root", "thread %s with %s samples is named \"%s\"", name, count, label.c_str());
    const size_t at = text.find(label, from);
    if (at == text.npos) vd::Violation("print", "thread %s is missing in the report", name);
    from = at + label.size();
  }
  std::vector<int> indents;
  for (size_t at = 0; at < text.size();) {
    size_t end = text.find('\n', at);
    if (end == text.npos) end = text.size();
    size_t i = at;
    while (i < end && text[i] == ' ') i++;
    double percent;
    int used = 0;
    if (i < end && text[i] == '*' && sscanf(text.c_str() + i, "* %lf%%%n", &percent, &used) == 1 && used) {
      if (i + used < end) used++;
      const int indent = i - at;
      while (!indents.empty() && indents.back() >= indent) indents.pop_back();
      got.push_back({(int)indents.size(), percent, text.substr(i + used, end - i - used)});
      indents.push_back(indent);
    } else {
      indents.clear();
    }
    at = end + 1;
  }
  if (got.size() != want.size())
    vd::Violation("print", "%d nodes are reported, expected %d", (int)got.size(), (int)want.size());
  for (size_t i = 0; i < got.size(); i++)
    if (got[i].level != want[i].level || !(std::fabs(got[i].percent - want[i].percent) < 0.011) ||
        got[i].label != want[i].label)
      vd::Violation("print", "node %d is reported as \"%s\" with %.2f%% on level %d, expected \"%s\" with %.2f%% on level %d",
                    (int)i, got[i].label.c_str(), got[i].percent, got[i].level, want[i].label.c_str(),
                    want[i].percent, want[i].level);
  vd::Compared(3 * got.size() + 1);
}

void Case(const std::vector<L>& set, int set_id, const std::vector<Sample>& all,
          const std::vector<int>& pick, bool collapse) {
  char text[200];
  int at = snprintf(text, sizeof text, "set=%d samples", set_id);
  for (int i : pick) at += snprintf(text + at, sizeof text - at, " %d", i);
  if (!vd::Begin("%s", text)) return;
  static std::vector<char> buf;
  buf.clear();
  std::map<int, Ref> want;
  for (int i : pick) {
    Record(set, all[i], &buf);
    AddRef(set, all[i], 0, &want[all[i].thread ? 11 : 5]);
  }
  for (auto& r : want) AddMissing(&r.second);
  TreeView tree;
  tree.Populate(buf);
  vd::Transition();
  CompareTree(set, want, tree, "tree");
  if (collapse) CheckPrinted(tree);
  if (pick.size() > 1) vd::NonTrivial();
  for (auto& r : want) vd::State(vd::mix(set_id * 16 + r.first, HashRef(r.second)));
  if (!collapse) return;
  static TreeView out;  // reused: every collapse must replace what it held
  int identities = 0;
  for (auto& l : set) identities = std::max(identities, l.identity + 1);
  for (auto& r : tree.thread_roots()) {
    const Ref& w = want[r.first];
    if (DepthOfTreeBelow(*r.second) != RefDepth(w))
      vd::Violation("depth", "depth of the tree is %d, expected %d", DepthOfTreeBelow(*r.second),
                    RefDepth(w));
    for (int mask = 0; mask < 1 << identities; mask++) {
      const int got = WeightBelowNodeMatchingFunction(*r.second, [&](const Label& l) {
        const int id = Identify(set, l);
        return id >= 0 && (mask >> id & 1);
      });
      vd::Transition();
      if (got != RefWeight(w, mask))
        vd::Violation("sum", "weight of nodes matching set %d is %d, expected %d", mask, got,
                      RefWeight(w, mask));
    }
    for (auto& l : set) {
      int mask = 0;
      for (auto& o : set)
        if (!strcmp(o.format, l.format)) mask |= 1 << o.identity;
      const int u = WeightBelowNodeMatchingUnformatted(*r.second, l.format);
      if (u != RefWeight(w, mask))
        vd::Violation("sum", "weight of nodes with format \"%s\" is %d, expected %d", l.format, u,
                      RefWeight(w, mask));
      mask = 0;
      for (auto& o : set)
        if (Text(o) == Text(l)) mask |= 1 << o.identity;
      const int f = WeightBelowNodeMatchingFormatted(*r.second, Text(l));
      if (f != RefWeight(w, mask))
        vd::Violation("sum", "weight of nodes reading \"%s\" is %d, expected %d", Text(l).c_str(),
                      f, RefWeight(w, mask));
      vd::Transition(2);
    }
    for (int depth = 0; depth <= 3; depth++) {
      TreeView::Node node;
      node.weight = 1234;
      node.children.emplace_back(new TreeView::Node);
      CollapseNode(*r.second, depth, &node);
      vd::Transition();
      Compare(set, RefTruncate(w, depth), node, true, "truncated tree");
    }
  }
  for (int depth = 0; depth <= 3; depth++) {
    for (int mask = 0; mask < 1 << identities; mask++) {
      CollapseNodesMatchingFunction(
          tree, depth,
          [&](const Label& l) {
            const int id = Identify(set, l);
            return id >= 0 && (mask >> id & 1);
          },
          &out);
      vd::Transition();
      std::map<int, Ref> expect;
      for (auto& r : want) expect[r.first] = RefCollapse(r.second, mask, depth);
      CompareTree(set, expect, out, "collapsed tree");
    }
    for (auto& l : set) {
      int mf = 0, mu = 0;
      for (auto& o : set) {
        if (!strcmp(o.format, l.format)) mu |= 1 << o.identity;
        if (Text(o) == Text(l)) mf |= 1 << o.identity;
      }
      std::map<int, Ref> expect;
      for (auto& r : want) expect[r.first] = RefCollapse(r.second, mu, depth);
      CollapseNodesMatchingUnformatted(tree, depth, l.format, &out);
      CompareTree(set, expect, out, "tree collapsed by format");
      expect.clear();
      for (auto& r : want) expect[r.first] = RefCollapse(r.second, mf, depth);
      CollapseNodesMatchingFormatted(tree, depth, Text(l), &out);
      CompareTree(set, expect, out, "tree collapsed by text");
      vd::Transition(2);
    }
  }
  // The input tree is left alone.
  CompareTree(set, want, tree, "input tree after collapsing");
}

void Trees(int set_id, int part) {
  const auto& set = kSets[set_id];
  const auto all = Samples(3);
  const int n = all.size();
  // Sequences of up to three samples, in every order.
  if (part == 0) Case(set, set_id, all, {}, true);
  for (int a = part; a < n; a += 6) {
    Case(set, set_id, all, {a}, true);
    for (int b = 0; b < n; b++) {
      Case(set, set_id, all, {a, b}, true);
      for (int c = 0; c < n; c++) {
        Case(set, set_id, all, {a, b, c}, b <= c && a <= b);
        if (c <= b && b <= a)
          for (int d = 0; d <= c; d++)
            Case(set, set_id, all, {a, b, c, d}, vd::Thorough());
      }
      if (vd::OutOfTime()) return;
    }
  }
  // Many equal samples next to few others.
  for (int a = part; a < n; a += 6)
    for (int b = 0; b < n; b++)
      for (int many : {5, 20}) {
        std::vector<int> v(many, a);
        v.push_back(b);
        Case(set, set_id, all, v, true);
      }
}

// Many functions below one: as many siblings as given, of given weights.
void Wide(int pattern) {
  const int n_max = vd::Thorough() ? 400 : 130;
  static std::vector<L> set;
  set.clear();
  for (int i = 0; i < n_max; i++) set.push_back({"w %d", 1, {i, 0, 0, 0}, i});
  for (int n = 1; n <= n_max; n++)
    for (int below = 0; below < 2; below++)
      for (int rotate = 0; rotate < std::min(n, 3); rotate++) {
        if (!vd::Begin("wide pattern=%d siblings=%d below=%d rotate=%d", pattern, n, below, rotate)) continue;
        if (vd::OutOfTime()) return;
        auto weight = [&](int i) {
          switch (pattern) {
            case 0: return 1;
            case 1: return 1 + i % 2;
            case 2: return 1 + i / 8;
            case 3: return 1 + (n - 1 - i) / 8;
            default: return 1 + i * 7 % 5;
          }
        };
        std::vector<char> buf;
        std::map<int, Ref> want;
        for (int i = 0; i < n; i++)
          for (int w = 0; w < weight(i); w++) {
            Sample s;
            s.thread = 1;
            if (below) s.labels.push_back(0);
            s.labels.push_back((i + rotate) % n);
            Record(set, s, &buf);
            AddRef(set, s, 0, &want[11]);
          }
        AddMissing(&want[11]);
        TreeView tree;
        tree.Populate(buf);
        vd::Transition();
        CompareTree(set, want, tree, "wide tree");
        CheckPrinted(tree);
        vd::State(vd::mix(pattern * 8 + below, n * 4 + rotate));
        if (n > 1) vd::NonTrivial();
      }
}

int DepthOf(const Ref& r) {
  int d = 0;
  for (auto& c : r.children) d = std::max(d, 1 + DepthOf(c));
  return d;
}

// Two deep stacks sharing their outermost labels, the second one twice as frequent.
void Deep(int part) {
  std::vector<L> set;
  for (int i = 0; i < Stack::kMaxSize; i++) {
    set.push_back({"d %d", 1, {i, 0, 0, 0}, 2 * i});
    set.push_back({"e %d,%d", 2, {i, -i, 0, 0}, 2 * i + 1});
  }
  for (int first = 1 + part; first <= Stack::kMaxSize; first += 4)
    for (int shared = 0; shared <= first; shared++)
      for (int second = std::max(shared, 1); second <= Stack::kMaxSize; second++) {
        if (!vd::Begin("deep first=%d shared=%d second=%d", first, shared, second)) continue;
        if (vd::OutOfTime()) return;
        Sample a, b;
        a.thread = b.thread = 0;
        for (int i = 0; i < first; i++) a.labels.push_back(2 * i);
        for (int i = 0; i < second; i++) b.labels.push_back(2 * i + (i >= shared));
        std::vector<char> buf;
        std::map<int, Ref> want;
        for (const Sample* s : {&a, &b, &b}) {
          Record(set, *s, &buf);
          AddRef(set, *s, 0, &want[5]);
        }
        AddMissing(&want[5]);
        TreeView tree;
        tree.Populate(buf);
        vd::Transition();
        CompareTree(set, want, tree, "deep tree");
        CheckPrinted(tree);
        const int deepest = DepthOfTreeBelow(*tree.thread_roots().begin()->second);
        const int expected = DepthOf(want[5]);
        if (deepest != expected) vd::Violation("depth", "tree is %d deep, expected %d", deepest, expected);
        vd::Compared();
        vd::State(vd::mix(first * 128 + shared, second));
        vd::NonTrivial();
      }
}

// Stacks made by entering and leaving scopes, at every depth.
void Scopes() {
  for (int deepest = 1; deepest <= Stack::kMaxSize; deepest++)
    for (int leave = 0; leave <= deepest; leave++)
      for (int shift = 0; shift < 5; shift++) {
        if (!vd::Begin("scopes deepest=%d leave=%d shift=%d", deepest, leave, shift)) continue;
        auto label = [&](int i, int round) {
          static const char* const kFormat[] = {"s", "s %d", "s %d,%d", "s %d,%d,%d", "s %d,%d,%d,%d"};
          const int n = (i + shift) % 5;
          L l = {kFormat[n], n, {0, 0, 0, 0}, 0};
          for (int q = 0; q < n; q++) l.args[q] = 1000 * round + 10 * i + q;
          return l;
        };
        std::unique_ptr<detail::ThreadStack> stack(new detail::ThreadStack);
        std::vector<L> want;
        auto push = [&](const L& l) {
          switch (l.nargs) {
            case 0: stack->Push(l.format); break;
            case 1: stack->Push(l.format, l.args[0]); break;
            case 2: stack->Push(l.format, l.args[0], l.args[1]); break;
            case 3: stack->Push(l.format, l.args[0], l.args[1], l.args[2]); break;
            default: stack->Push(l.format, l.args[0], l.args[1], l.args[2], l.args[3]);
          }
          want.push_back(l);
          vd::Transition();
        };
        auto check = [&] {
          const Stack& got = stack->stack();
          if (got.size != (int)want.size())
            vd::Violation("scopes", "%d labels on the stack, expected %d", got.size, (int)want.size());
          for (int i = 0; i < got.size; i++)
            if (strcmp(got.labels[i].format(), want[i].format) || got.labels[i].Formatted() != Text(want[i]))
              vd::Violation("scopes", "label %d is %s, expected %s", i, got.labels[i].Formatted().c_str(),
                            Text(want[i]).c_str());
          vd::Compared(got.size + 1);
        };
        for (int i = 0; i < deepest; i++) push(label(i, 1));
        check();
        for (int i = 0; i < leave; i++) stack->Pop(), want.pop_back(), vd::Transition();
        check();
        for (int i = deepest - leave; i < deepest; i++) push(label(i, 2));
        check();
        vd::State(vd::mix(deepest * 128 + leave, shift));
        if (leave) vd::NonTrivial();
      }
}

// Samples survive being copied to and read from a buffer, at every depth.
void RoundTrip() {
  for (size_t set_id = 0; set_id < kSets.size(); set_id++)
    for (int depth = 0; depth <= Stack::kMaxSize; depth++)
      for (unsigned id : {0u, 1u, 0x7fffffffu, 0xffffffffu})
        for (int shift = 0; shift < 3; shift++) {
          if (!vd::Begin("roundtrip set=%d depth=%d id=%x shift=%d", (int)set_id, depth, id, shift))
            continue;
          const auto& set = kSets[set_id];
          static Stack in, out;
          in.id = id;
          in.size = depth;
          for (int i = 0; i < depth; i++) Apply(set[(i + shift) % 3], &in.labels[i]);
          const int n = detail::GetBufferSize(in);
          std::vector<char> buf(n + 32, 0x5e);
          detail::CopyToBuffer(in, buf.data() + 16);
          for (int i = 0; i < 16; i++)
            if (buf[i] != 0x5e || buf[16 + n + i] != 0x5e)
              vd::Violation("roundtrip", "bytes outside the sample were written");
          detail::ReadFromBuffer(buf.data() + 16, &out);
          vd::Transition(3);
          if (out.id != id || out.size != depth || detail::GetBufferSize(out) != n)
            vd::Violation("roundtrip", "thread, depth or size changed");
          for (int i = 0; i < depth; i++)
            if (!(out.labels[i] == in.labels[i]) ||
                Identify(set, out.labels[i]) != set[(i + shift) % 3].identity)
              vd::Violation("roundtrip", "label %d changed", i);
          vd::Compared(depth + 3);
          vd::State(vd::mix(depth * 8 + shift, id + set_id));
          if (depth > 1) vd::NonTrivial();
        }
}

// Label equality and assignment for every pair.
void Labels() {
  std::vector<L> all;
  for (auto& s : kSets)
    for (auto& l : s) all.push_back(l);
  for (size_t i = 0; i < all.size(); i++)
    for (size_t j = 0; j < all.size(); j++)
      for (size_t k = 0; k < all.size(); k++) {
        if (!vd::Begin("labels %d %d %d", (int)i, (int)j, (int)k)) continue;
        Label a, b, c;
        Apply(all[i], &a);
        Apply(all[j], &b);
        Apply(all[k], &c);
        c = b;  // replaces whatever c held
        auto same = [](const L& x, const L& y) {
          if (strcmp(x.format, y.format) || x.nargs != y.nargs) return false;
          for (int q = 0; q < x.nargs; q++)
            if (x.args[q] != y.args[q]) return false;
          return true;
        };
        vd::Transition(3);
        if ((a == b) != same(all[i], all[j]) || (b == a) != same(all[i], all[j]))
          vd::Violation("equality", "equality of %s and %s is wrong", Text(all[i]).c_str(),
                        Text(all[j]).c_str());
        if (!(c == b) || (a == c) != same(all[i], all[j]) || c.Formatted() != Text(all[j]))
          vd::Violation("assignment", "assigning %s over %s gives %s", Text(all[j]).c_str(),
                        Text(all[k]).c_str(), c.Formatted().c_str());
        vd::Compared(5);
        vd::State(vd::mix(i * 64 + j, k));
      }
}

}  // namespace

int main(int argc, char** argv) {
  return vd::Main(argc, argv, [] {
    std::vector<vd::Job> jobs;
    jobs.emplace_back("roundtrip", [] { RoundTrip(); });
    for (int p = 0; p < 5; p++) jobs.emplace_back(vd::Str("wide-%d", p), [=] { Wide(p); }, 3);
    for (int p = 0; p < 4; p++) jobs.emplace_back(vd::Str("deep-%d", p), [=] { Deep(p); }, 4);
    jobs.emplace_back("scopes", [] { Scopes(); });
    jobs.emplace_back("labels", [] { Labels(); });
    for (size_t s = 0; s < kSets.size(); s++)
      for (int part = 0; part < 6; part++)
        jobs.emplace_back(vd::Str("trees-%d-%d", (int)s, part), [=] { Trees(s, part); }, 5);
    return jobs;
  });
}
