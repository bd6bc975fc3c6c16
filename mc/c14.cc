// C14: profiler sampling concurrently with instrumented threads.
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "mcrt.h"
#include "ruy/profiler/instrumentation.h"
#include "ruy/profiler/profiler.h"
#include "ruy/profiler/treeview.h"
#include "ruy/ruy.h"
#include "ruy/strategy_controls.h"
#include "ruy/thread_pool.h"

namespace {

using ruy::profiler::ScopeLabel;
using ruy::profiler::ScopeProfile;
using ruy::profiler::TreeView;

// The stacks a thread can legally have, as "a/b/c" strings.
using Legal = std::set<std::string>;

// Walks one thread's tree; every stack with own weight must be legal.
void Walk(const TreeView::Node& n, const std::string& path, const Legal& legal) {
  int below = 0;
  for (auto& c : n.children) {
    std::string f = c->label.Formatted();
    if (f == "[other]") {
      if (!legal.count(path))
        mc::Fail("a sample shows the stack '%s', which no thread ever had",
                 path.c_str());
      below += c->weight;
      continue;
    }
    if (c->weight <= 0) mc::Fail("node without weight");
    below += c->weight;
    Walk(*c, path.empty() ? f : path + "/" + f, legal);
  }
  if (below > n.weight) mc::Fail("children outweigh their parent");
  if (below < n.weight && !path.empty() && !legal.count(path))
    mc::Fail("a sample shows the stack '%s', which no thread ever had",
             path.c_str());
}

const TreeView::Node* Check(const TreeView& tv, const Legal& legal,
                            const std::string& main_label) {
  const TreeView::Node* main = nullptr;
  int max_other = 0;
  for (auto& r : tv.thread_roots()) {
    const TreeView::Node& root = *r.second;
    if (root.children.empty()) mc::Fail("an empty stack was sampled");
    bool is_main = false;
    std::set<std::string> owners;
    for (auto& c : root.children) {
      const std::string f = c->label.Formatted();
      if (f != "[other]") owners.insert(f.substr(0, f.find(' ')));
    }
    if (owners.size() > 1)
      mc::Fail("the samples of two threads (%s, %s) appear under one thread",
               owners.begin()->c_str(), owners.rbegin()->c_str());
    for (auto& c : root.children)
      if (c->label.Formatted() == main_label) is_main = true;
    if (is_main) {
      if (main) mc::Fail("the samples of one thread appear under two threads");
      main = &root;
    } else {
      max_other = std::max(max_other, root.weight);
    }
    Walk(root, "", legal);
    mc::Outcome(root.weight * 16 + root.children.size());
  }
  // The main thread holds its label in every sampling round.
  if (max_other > (main ? main->weight : 0))
    mc::Fail("a sampling round missed a live stack (%d rounds seen, %d samples "
             "of the main thread)",
             max_other, main ? main->weight : 0);
  return main;
}

void Nested(int who, int depth) {
  ScopeLabel l("w%d level %d", who, depth);
  if (depth > 1) Nested(who, depth - 1);
}

Legal LegalNested(int who, int depth) {
  Legal r;
  std::string p;
  for (int d = depth; d >= 1; d--) {
    std::string s = "w" + std::to_string(who) + " level " + std::to_string(d);
    p = p.empty() ? s : p + "/" + s;
    r.insert(p);
  }
  return r;
}

// Main thread keeps "main" and nests below it; `workers` threads come and go.
void Body(int workers, int depth, int main_depth, bool start_before,
          int profiles) {
  Legal legal;
  legal.insert("main");
  for (auto& s : LegalNested(9, main_depth)) legal.insert("main/" + s);
  for (int i = 0; i < workers; i++)
    for (auto& s : LegalNested(i, depth)) legal.insert(s);
  ScopeLabel outer("main");
  std::vector<std::thread> ts;
  auto start = [&] {
    for (int i = 0; i < workers; i++)
      ts.emplace_back([i, depth] { Nested(i, depth); });
  };
  if (start_before) start();
  for (int p = 0; p < profiles; p++) {
    TreeView tv;
    {
      ScopeProfile prof;
      prof.SetUserTreeView(&tv);
      if (!start_before) start();
      if (main_depth) Nested(9, main_depth);
      if (!start_before) {
        for (auto& t : ts) t.join();
        ts.clear();
      }
    }
    Check(tv, legal, "main");
    if (mc::ThreadsAlive() > (start_before ? workers : 0))
      mc::Fail("the sampling thread outlived the profile");
  }
  if (start_before)
    for (auto& t : ts) t.join();
}

// A thread that begins after another one has ended, while a third one lives on.
void SuccessorBody() {
  Legal legal;
  legal.insert("main");
  for (int i = 0; i < 3; i++)
    for (auto& s : LegalNested(i, 1)) legal.insert(s);
  ScopeLabel outer("main");
  TreeView tv;
  {
    ScopeProfile prof;
    prof.SetUserTreeView(&tv);
    std::thread a([] { Nested(0, 1); });
    std::thread b([] { Nested(1, 1); });
    a.join();
    std::thread c([] { Nested(2, 1); });
    b.join();
    c.join();
  }
  Check(tv, legal, "main");
}

// A multiplication on two threads while being profiled.
void MulBody() {
  ScopeLabel outer("main");
  TreeView tv;
  {
    ScopeProfile prof;
    prof.SetUserTreeView(&tv);
    ruy::Context ctx;
    ctx.set_runtime_enabled_paths(ruy::Path::kStandardCpp);
    ctx.set_max_num_threads(2);
    ctx.set_num_threads_strategy(ruy::NumThreadsStrategy::kForceMaxNumThreads);
    ctx.mutable_thread_pool()->set_spin_milliseconds(0);
    float l[2] = {1, 2}, r[2] = {3, 4}, d[4];
    ruy::Matrix<float> lhs, rhs, dst;
    ruy::MakeSimpleLayout(2, 1, ruy::Order::kRowMajor, lhs.mutable_layout());
    ruy::MakeSimpleLayout(1, 2, ruy::Order::kColMajor, rhs.mutable_layout());
    ruy::MakeSimpleLayout(2, 2, ruy::Order::kColMajor, dst.mutable_layout());
    lhs.set_data(l);
    rhs.set_data(r);
    dst.set_data(d);
    ruy::MulParams<float, float> mp;
    ruy::Mul<ruy::kAllPaths>(lhs, rhs, mp, &ctx, &dst);
    if (d[0] != 3 || d[1] != 6 || d[2] != 4 || d[3] != 8)
      mc::Fail("wrong product while profiling");
  }
  int mains = 0;
  for (auto& r : tv.thread_roots())
    for (auto& c : r.second->children)
      if (c->label.Formatted() == "main") {
        mains++;
        if (c->weight != r.second->weight)
          mc::Fail("main thread sampled outside of its label");
      }
  if (mains > 1) mc::Fail("main thread appears twice");
}

void DisabledBody() {
  TreeView tv;
  {
    ScopeProfile off(false);
    off.SetUserTreeView(&tv);
    std::thread t([] { Nested(0, 2); });
    t.join();
  }
  if (mc::ThreadsCreated() != 1) mc::Fail("a disabled profile started a thread");
  if (!tv.thread_roots().empty()) mc::Fail("a disabled profile has samples");
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Config> cs;
  auto add = [&](std::string n, mc::Bounds q, mc::Bounds t, double w,
                 std::function<void()> b) {
    mc::Config c;
    c.name = n;
    c.quick = q;
    c.thorough = t;
    c.weight = w;
    c.body = b;
    cs.push_back(c);
  };
  // preempt, spurious, stale, timers
  add("main-1", {99, 0, 1, 4}, {99, 0, 1, 4}, 5, [] { Body(0, 0, 1, false, 1); });
  add("main-3", {99, 0, 1, 3}, {99, 0, 1, 4}, 10, [] { Body(0, 0, 3, false, 1); });
  add("worker-1", {99, 0, 0, 2}, {99, 0, 0, 2}, 20, [] { Body(1, 1, 0, false, 1); });
  add("worker-2", {5, 0, 0, 2}, {4, 0, 0, 3}, 20, [] { Body(1, 2, 1, false, 1); });
  add("worker-before", {99, 0, 0, 3}, {5, 0, 0, 3}, 20, [] { Body(1, 1, 0, true, 1); });
  add("two-workers", {2, 0, 0, 2}, {3, 0, 0, 2}, 30, [] { Body(2, 1, 0, false, 1); });
  add("two-workers-before", {2, 0, 0, 2}, {2, 0, 0, 3}, 30, [] { Body(2, 2, 1, true, 1); });
  add("two-profiles", {99, 0, 0, 3}, {4, 0, 0, 3}, 20, [] { Body(0, 0, 1, false, 2); });
  add("two-profiles-worker", {3, 0, 0, 3}, {3, 0, 0, 3}, 20, [] { Body(1, 1, 0, true, 2); });
  add("successor", {2, 0, 0, 2}, {2, 0, 0, 3}, 30, [] { SuccessorBody(); });
  add("mul", {1, 0, 0, 2}, {2, 0, 0, 2}, 30, [] { MulBody(); });
  add("disabled", {99, 0, 0, 0}, {99, 0, 0, 0}, 1, [] { DisabledBody(); });
  return mc::Main(argc, argv, cs);
}
