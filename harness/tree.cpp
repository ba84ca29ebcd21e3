// P34: il::Tree against a reference tree of paths.
#include <il/Tree.h>
#include <map>
#include <string>
#include <vector>
#include "ilmc.h"
using il::int_t;
using mc::Ctx;
using mc::Elem;

struct Node { bool set = false; int val = 0; };
using Model = std::map<std::vector<int>, Node>;  // path from the root -> node
template <typename T, int N>
struct Run {
  using Tr = il::Tree<T, N>;
  static il::spot_t spot(Tr& t, const std::vector<int>& path) { il::spot_t s = t.root(); for (int i : path) s = t.child(s, i); return s; }
  static void verify(Ctx& c, Tr& t, const Model& r, const char* name) {
    size_t depth = 0;
    for (auto& kv : r) {
      const auto& p = kv.first;
      depth = std::max(depth, p.size());
      const il::spot_t s = spot(t, p);
      if (kv.second.set) MC_CHECK(c, mc::get(t.value(s)) == kv.second.val, "%s: a node of depth %zu has value %d, expected %d", name, p.size(), mc::get(t.value(s)), kv.second.val);
      else (void)mc::get(t.value(s));
      MC_CHECK(c, t.isEmpty(s) == !kv.second.set, "%s: a node of depth %zu %s a value but is reported %s", name, p.size(), kv.second.set ? "has" : "does not have", t.isEmpty(s) ? "empty" : "non-empty");
      if (!p.empty()) {
        std::vector<int> up(p.begin(), p.end() - 1);
        MC_CHECK(c, t.parent(s).index == spot(t, up).index, "%s: wrong parent of a node of depth %zu", name, p.size());
      }
      std::vector<int> kids;
      for (int i = 0; i < N; ++i) {
        std::vector<int> q = p; q.push_back(i);
        const bool in = r.count(q) > 0;
        if (in) kids.push_back(i);
        MC_CHECK(c, t.hasChild(s, i) == in, "%s: child %d of a node of depth %zu is reported %s", name, i, p.size(), in ? "absent" : "present although it was never added");
      }
      MC_CHECK(c, t.hasChild(s) == !kids.empty(), "%s: hasChild() is wrong at depth %zu", name, p.size());
      const auto ch = t.children(s);
      MC_CHECK(c, ch.size() == (int_t)kids.size(), "%s: %ld children reported, expected %zu", name, (long)ch.size(), kids.size());
      for (size_t k = 0; k < kids.size(); ++k) MC_CHECK(c, ch[(int_t)k] == kids[k], "%s: wrong list of children", name);
    }
    MC_CHECK(c, t.depth() == (int_t)depth, "%s: depth() is %ld, expected %zu", name, (long)t.depth(), depth);
  }
  static std::string key(const Model& r) {
    std::string s;
    for (auto& kv : r) { for (int i : kv.first) s += (char)('0' + i);  // one character by child
      s += kv.second.set ? "=" + std::to_string(kv.second.val) : std::string("-"); s += ";"; }
    return s;
  }
  static void body(Ctx& c) {
    const int d = c.pick(4);
    Tr t = d == 0 ? Tr() : Tr(d - 1);
    c.log("Tree of reserved depth %d", d - 1);
    Model r;
    r[{}] = Node();
    verify(c, t, r, "t");
    for (int step = 0; step < c.bound; ++step) {
      c.state(std::to_string(d) + key(r), c.bound - step);
      // pick a node
      auto it = r.begin();
      for (int k = c.pick((int)r.size()); k > 0; --k) ++it;
      const std::vector<int> p = it->first;
      const int val = 10 * step + 1;
      switch (c.pick(4)) {
        case 0: {
          const int i = c.pick(N);
          if (p.size() >= (N > 4 ? 2 : 4)) break;
          c.log("AddChild(node of depth %zu, %d)", p.size(), i);
          t.AddChild(spot(t, p), i);
          std::vector<int> q = p; q.push_back(i);
          r[q];
          break;
        }
        case 1: c.log("Set(node of depth %zu, %d)", p.size(), val); t.Set(spot(t, p), T(val)); r[p].set = true; r[p].val = val; break;
        case 2: {
          c.log("u = t, change u, t = u");
          Tr u = t; Model ru = r;
          u.Set(spot(u, p), T(val)); ru[p].set = true; ru[p].val = val;
          u.AddChild(u.root(), N - 1); ru[{N - 1}];
          verify(c, u, ru, "u"); verify(c, t, r, "t");
          t = u; r = ru;
          break;
        }
        case 3: {
          c.log("u = move(t), t = move(u), set a node from the value of the root");
          Tr u = std::move(t); t = std::move(u);
          t.Set(spot(t, p), t.value(t.root()));
          if (r[{}].set) { r[p] = r[{}]; } else { t.Set(spot(t, p), T(3)); r[p].set = true; r[p].val = 3; }
          break;
        }
      }
      verify(c, t, r, "t");
      c.settle();
    }
  }
  // Larger trees: complete ones and long branches
  static void growth(Ctx& c) {
    const int kShape = c.pick(5), reserve = c.pick(3), values = c.pick(3);
    const int deepest = kShape < 2 ? (N == 1 ? 40 : N == 2 ? 6 : N <= 4 ? 4 : N <= 8 ? 3 : 1) : (N == 1 ? 40 : N == 2 ? 12 : N <= 4 ? 6 : N <= 8 ? 5 : N <= 16 ? 4 : 2);
    const int D = 1 + c.pick(c.thorough ? deepest + (kShape < 2) : deepest);
    c.log("shape %d of depth %d, reserved %d, values %d", kShape, D, reserve, values);
    Tr t = reserve == 0 ? Tr() : Tr(reserve == 1 ? D : D / 2);
    Model r;
    r[{}] = Node();
    auto add = [&](const std::vector<int>& q) {
      const std::vector<int> up(q.begin(), q.end() - 1);
      t.AddChild(spot(t, up), q.back());
      r[q] = Node();
      if (values == 0) { const int v = (int)r.size(); t.Set(spot(t, q), T(v)); r[q].set = true; r[q].val = v; }
    };
    if (kShape < 2) {  // complete, level by level; or branch by branch
      if (kShape == 0) {
        std::vector<std::vector<int>> level = {{}};
        for (int d = 0; d < D; ++d) {
          std::vector<std::vector<int>> next;
          for (auto& p : level) for (int i = 0; i < N; ++i) { auto q = p; q.push_back(i); add(q); next.push_back(q); }
          level = next;
        }
      } else {
        std::vector<std::vector<int>> stack = {{}};
        while (!stack.empty()) {
          auto p = stack.back(); stack.pop_back();
          if (!p.empty()) add(p);
          if ((int)p.size() < D) for (int i = 0; i < N; ++i) { auto q = p; q.push_back(i); stack.push_back(q); }
        }
      }
    } else {  // branches: always the first child, always the last one, or alternating
      std::vector<int> q;
      for (int d = 0; d < D; ++d) { q.push_back(kShape == 2 ? 0 : kShape == 3 ? N - 1 : d % N); add(q); }
    }
    if (values == 1) { int k = 0; for (auto& kv : r) if (k++ % 3 == 0) { t.Set(spot(t, kv.first), T(k)); kv.second.set = true; kv.second.val = k; } }
    verify(c, t, r, "t");
    Tr u = t;
    Model ru = r;
    const std::vector<int> last = r.rbegin()->first;
    u.Set(spot(u, last), T(-7)); ru[last].set = true; ru[last].val = -7;
    verify(c, u, ru, "copy");
    verify(c, t, r, "t");
    Tr w = std::move(u);
    verify(c, w, ru, "moved");
    t = w;
    verify(c, t, ru, "assigned");
    Tr small;
    small.AddChild(small.root(), N - 1);
    Model rs; rs[{}]; rs[{N - 1}];
    t = small;
    verify(c, t, rs, "assigned a small tree");
    small = std::move(w);
    verify(c, small, ru, "move-assigned");
  }
};
MC_SUITE("growth of a binary tree", (Run<int, 2>::growth), 1, 1);
MC_SUITE("growth of a binary tree of class values", (Run<Elem, 2>::growth), 1, 1);
MC_SUITE("growth of a ternary tree", (Run<Elem, 3>::growth), 1, 1);
MC_SUITE("growth of a quaternary tree", (Run<int, 4>::growth), 1, 1);
MC_SUITE("growth of a tree with six children", (Run<Elem, 6>::growth), 1, 1);
MC_SUITE("growth of a list", (Run<Elem, 1>::growth), 1, 1);
MC_SUITE("growth of a tree with seven children", (Run<int, 7>::growth), 1, 1);
MC_SUITE("growth of an octree", (Run<Elem, 8>::growth), 1, 1);
MC_SUITE("growth of a tree with fourteen children", (Run<int, 14>::growth), 1, 1);
MC_SUITE("growth of a tree with thirty children", (Run<int, 30>::growth), 1, 1);
MC_SUITE("growth of a tree with sixty-two children", (Run<int, 62>::growth), 1, 1);
MC_SUITE("list", (Run<int, 1>::body), 5, 7);
MC_SUITE("octree", (Run<Elem, 8>::body), 3, 4);
MC_SUITE("tree with thirty-one children", (Run<int, 31>::body), 2, 3);
MC_SUITE("binary tree", (Run<int, 2>::body), 5, 7);
MC_SUITE("binary tree of class values", (Run<Elem, 2>::body), 4, 6);
MC_SUITE("ternary tree", (Run<Elem, 3>::body), 4, 6);
MC_SUITE("quaternary tree", (Run<int, 4>::body), 4, 6);
MC_SUITE("tree with six children", (Run<Elem, 6>::body), 3, 4);
