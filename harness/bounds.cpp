// P08: in every reachable state of every container, every request of a table that
// mixes in-range, just-out-of-range and extreme arguments. An ill-formed request must
// throw il::AbortException and leave the container as it was; a well-formed one must
// succeed. Built in the checked mode only.
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array3C.h>
#include <il/Array3D.h>
#include <il/Array4C.h>
#include <il/Array4D.h>
#include <il/BandArray2C.h>
#include <il/container/deque/Deque.h>
#include <il/LowerArray2D.h>
#include <il/Map.h>
#include <il/MapArray.h>
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <il/String.h>
#include <il/Tree.h>
#include <il/TriDiagonal.h>
#include <il/UTF16String.h>
#include <il/UpperArray2D.h>
#include <il/container/3d/Array3DView.h>
#include <il/math.h>
#include <il/SparseMatrixCSR.h>
#include <algorithm>
#include <climits>
#include <vector>
#include "ilmc.h"

using il::int_t;
using mc::Ctx;
using mc::Elem;
typedef std::vector<int_t> Vals;

static const int_t kMin = std::numeric_limits<int_t>::min(), kMax = std::numeric_limits<int_t>::max();

static Vals uniq(Vals v) {
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
// every interesting index for a dimension of n elements and room for r
static Vals vals(int_t n, int_t r) {
  Vals v{kMin, kMin + 1, kMin + n, -(int_t(1) << 62), -(int_t(1) << 61), -(int_t(1) << 32), -(int_t(1) << 31), -n - 1, -n, -2, -1,
         r - 1, r, r + 1, 2 * n, INT_MAX, int_t(INT_MAX) + 1, (int_t(1) << 32) - 1, int_t(1) << 32, (int_t(1) << 32) + 1,
         int_t(1) << 60, int_t(1) << 61, (int_t(1) << 61) + 1, int_t(1) << 62, kMax - 1, kMax};
  for (int_t i = 0; i <= n + 1; ++i) v.push_back(i);
  return uniq(v);
}
static Vals few(int_t n) { return uniq({-1, 0, n - 1, n, int_t(1) << 32}); }
static Vals ends(int_t n, int_t r) {
  Vals v{kMin, -(int_t(1) << 32), -n, -1, r, r + 1, int_t(1) << 32, int_t(1) << 61, kMax};
  for (int_t i = 0; i <= n + 1; ++i) v.push_back(i);
  return uniq(v);
}
static std::vector<il::Range> ranges(const Vals& v) {
  std::vector<il::Range> r;
  for (int_t b : v) for (int_t e : v) r.push_back(il::Range{b, e});
  return r;
}
// 1: must succeed, 0: must be rejected, -1: an empty range at the very end, either will do
static int legal(il::Range r, int_t n) {
  if (r.begin < 0 || r.end < r.begin || r.end > n) return 0;
  return r.begin < n ? 1 : -1;
}
static int both(int a, int b) { return a == 0 || b == 0 ? 0 : a == 1 && b == 1 ? 1 : -1; }
static bool in(int_t i, int_t n) { return i >= 0 && i < n; }

// One request. Returns true if it was carried out.
template <typename F>
static bool request(Ctx& c, int want, F f, const char* what, int_t a0 = 0, int_t a1 = 0, int_t a2 = 0, int_t a3 = 0) {
  bool done = true;
  try {
    f();
  } catch (il::AbortException&) {
    done = false;
  }
  c.settle();
  if (want == 1) MC_CHECK(c, done, "%s (arguments %ld, %ld, %ld, %ld): a well-formed request was rejected", what, (long)a0, (long)a1, (long)a2, (long)a3);
  if (want == 0) MC_CHECK(c, !done, "%s (arguments %ld, %ld, %ld, %ld): an ill-formed request was not rejected", what, (long)a0, (long)a1, (long)a2, (long)a3);
  return done;
}

// --- one-dimensional views ------------------------------------------------------
template <typename T>
static void views1(Ctx& c, il::ArrayView<T> v, const Vals& vs, const char* what, int depth);
template <typename T>
static void edits1(Ctx& c, il::ArrayEdit<T> v, const Vals& vs, const char* what, int depth) {
  const int_t n = v.size();
  for (int_t i : vs) request(c, in(i, n), [&] { mc::get(v[i]); }, what, i);
  request(c, n > 0, [&] { mc::get(v.Back()); }, "Back() of an editable view", n);
  for (il::Range r : ranges(ends(n, n + 1))) {
    int_t got = -1;
    if (request(c, legal(r, n), [&] { got = v.Edit(r).size(); }, "Edit(range) of an editable view", r.begin, r.end, n)) MC_CHECK(c, got == r.end - r.begin, "Edit(range) has a wrong size");
    if (request(c, legal(r, n), [&] { got = v.view(r).size(); }, "view(range) of an editable view", r.begin, r.end, n)) MC_CHECK(c, got == r.end - r.begin, "view(range) has a wrong size");
    if (depth > 0 && legal(r, n) == 1) {
      edits1<T>(c, v.Edit(r), few(r.end - r.begin), "[] of a nested editable view", depth - 1);
      views1<T>(c, v.view(r), few(r.end - r.begin), "[] of a nested view", depth - 1);
    }
  }
}
template <typename T>
static void views1(Ctx& c, il::ArrayView<T> v, const Vals& vs, const char* what, int depth) {
  const int_t n = v.size();
  for (int_t i : vs) request(c, in(i, n), [&] { mc::get(v[i]); }, what, i);
  request(c, n > 0, [&] { mc::get(v.back()); }, "back() of a view", n);
  for (il::Range r : ranges(ends(n, n + 1))) {
    int_t got = -1;
    if (request(c, legal(r, n), [&] { got = v.view(r).size(); }, "view(range) of a view", r.begin, r.end, n)) MC_CHECK(c, got == r.end - r.begin, "view(range) has a wrong size");
    if (depth > 0 && legal(r, n) == 1) views1<T>(c, v.view(r), few(r.end - r.begin), "[] of a nested view", depth - 1);
  }
}

// --- Array, SmallArray, StaticArray ---------------------------------------------
template <typename T, typename A>
struct Snap1 {
  A& a;
  std::vector<int> m;
  T* p;
  int_t cap;
  void check(Ctx& c, const char* after) {
    MC_CHECK(c, a.size() == (int_t)m.size(), "%s: the size changed from %zu to %ld", after, m.size(), (long)a.size());
    MC_CHECK(c, a.Data() == p, "%s: the storage moved", after);
    for (size_t i = 0; i < m.size(); ++i) MC_CHECK(c, mc::get(a.Data()[i]) == m[i], "%s: element %zu changed", after, i);
  }
};
template <typename T, typename A>
static void requests1(Ctx& c, A& a, int_t cap, bool fixed) {
  const int_t n = a.size();
  Snap1<T, A> s{a, {}, a.Data(), cap};
  for (int_t i = 0; i < n; ++i) {
    a.Data()[i] = T((int)(7 + i));
    s.m.push_back(7 + i);
  }
  const A& k = a;
  const Vals vs = vals(n, cap);
  for (int_t i : vs) {
    request(c, in(i, n), [&] { mc::get(k[i]); }, "[] (const)", i);
    request(c, in(i, n), [&] { a[i] = T((int)(7 + i)); }, "[]", i);
    s.check(c, "after an indexed access");
  }
  if (!fixed) {
    request(c, n > 0, [&] { mc::get(k.back()); }, "back()", n);
    request(c, n > 0, [&] { mc::get(a.Back()); }, "Back()", n);
  }
  for (il::Range r : ranges(ends(n, n + 1))) {
    int_t got = -1;
    if (request(c, legal(r, n), [&] { got = k.view(r).size(); }, "view(range)", r.begin, r.end, n)) MC_CHECK(c, got == r.end - r.begin, "view(range) has a wrong size");
    if (request(c, legal(r, n), [&] { got = a.Edit(r).size(); }, "Edit(range)", r.begin, r.end, n)) MC_CHECK(c, got == r.end - r.begin, "Edit(range) has a wrong size");
  }
  s.check(c, "after views over ranges");
  views1<T>(c, k.view(), vs, "[] of a view", 1);
  edits1<T>(c, a.Edit(), vs, "[] of an editable view", 1);
  s.check(c, "after accesses through views");
}
template <typename T> static void negative1(Ctx& c, il::Array<T>& a) {
  std::vector<int> m;
  for (int_t i = 0; i < a.size(); ++i) m.push_back(mc::get(a[i]));
  Snap1<T, il::Array<T>> s{a, m, a.Data(), a.capacity()};
  const T x(3);
  for (int_t i : vals(0, 0)) {
    if (i >= 0) continue;
    request(c, 0, [&] { a.Resize(i); }, "Resize", i); s.check(c, "after a rejected Resize");
    request(c, 0, [&] { a.Resize(i, x); }, "Resize with a value", i); s.check(c, "after a rejected Resize");
    request(c, 0, [&] { a.Resize(i, il::emplace, 4); }, "Resize with emplace", i); s.check(c, "after a rejected Resize");
    request(c, 0, [&] { a.Reserve(i); }, "Reserve", i); s.check(c, "after a rejected Reserve");
    MC_CHECK(c, a.capacity() == s.cap, "a rejected request changed the capacity");
    request(c, 0, [&] { il::Array<T> b{i}; }, "Array(n)", i);
    request(c, 0, [&] { il::Array<T> b(i, x); }, "Array(n, x)", i);
    request(c, 0, [&] { il::Array<T> b(i, il::emplace, 4); }, "Array(n, emplace)", i);
    request(c, 0, [&] { il::ArrayView<T> b{a.data(), i}; }, "ArrayView(p, n)", i);
    request(c, 0, [&] { il::ArrayEdit<T> b{a.Data(), i}; }, "ArrayEdit(p, n)", i);
    if (il::isTrivial<T>::value) {
      request(c, 0, [&] { il::Array<T> b(i, il::align, 16); }, "Array(n, align)", i);
      request(c, 0, [&] { il::Array<T> b(i, x, il::align, 16); }, "Array(n, x, align)", i);
      request(c, 0, [&] { il::Array<T> b(2, il::align, i); }, "Array(n, align, alignment)", i);
      request(c, 0, [&] { il::Array<T> b(2, x, il::align, 16, i, 16); }, "Array(n, x, align, 16, align_r, 16)", i);
      request(c, 0, [&] { il::ArrayView<T> b(a.data(), i, 16, 0); }, "ArrayView(p, n, align)", i);
    }
  }
}
template <typename T> static void negative1(Ctx& c, il::SmallArray<T, 2>& a) {
  std::vector<int> m;
  for (int_t i = 0; i < a.size(); ++i) m.push_back(mc::get(a[i]));
  Snap1<T, il::SmallArray<T, 2>> s{a, m, a.Data(), a.capacity()};
  const T x(3);
  for (int_t i : vals(0, 0)) {
    if (i >= 0) continue;
    request(c, 0, [&] { a.Resize(i); }, "Resize", i); s.check(c, "after a rejected Resize");
    request(c, 0, [&] { a.Reserve(i); }, "Reserve", i); s.check(c, "after a rejected Reserve");
    MC_CHECK(c, a.capacity() == s.cap, "a rejected request changed the capacity");
    request(c, 0, [&] { il::SmallArray<T, 2> b{i}; }, "SmallArray(n)", i);
    request(c, 0, [&] { il::SmallArray<T, 2> b(i, x); }, "SmallArray(n, x)", i);
  }
}
template <typename T, typename A>
static void growable(Ctx& c) {
  const int N = c.bound + 2;
  A a = c.flip() ? A{} : A(static_cast<int_t>(c.pick(N)));
  for (int step = 0; step <= c.bound; ++step) {
    c.state(std::to_string(a.size()) + "," + std::to_string(a.capacity()), c.bound - step);
    if (step == c.bound) break;
    const int op = c.pick(6);
    c.log("legal operation %d", op);
    if (op == 0) break;
    if (op == 1) { const int n = c.pick(N + 1); c.log("  Resize %d", n); a.Resize(n); }
    if (op == 2) { const int n = c.pick(2 * N); c.log("  Reserve %d", n); a.Reserve(n); }
    if (op == 3) a.Append(T(5));
    if (op == 4) { A b{std::move(a)}; requests1<T, A>(c, a, a.capacity(), false); negative1<T>(c, a); a = A(b); }
    if (op == 5) { A b(static_cast<int_t>(c.pick(N))); a = std::move(b); requests1<T, A>(c, b, b.capacity(), false); }
  }
  requests1<T, A>(c, a, a.capacity(), false);
  negative1<T>(c, a);
}
template <int_t n> static void static1(Ctx& c) {
  il::StaticArray<Elem, n> a{};
  requests1<Elem, il::StaticArray<Elem, n>>(c, a, n, true);
  std::initializer_list<int> l1{1}, l2{1, 2}, l3{1, 2, 3};
  request(c, n == 1, [&] { il::StaticArray<int, n> b{il::value, l1}; }, "StaticArray(value, list of 1)");
  request(c, n == 2, [&] { il::StaticArray<int, n> b{il::value, l2}; }, "StaticArray(value, list of 2)");
  request(c, n == 3, [&] { il::StaticArray<int, n> b{il::value, l3}; }, "StaticArray(value, list of 3)");
}

// --- two- to four-dimensional arrays ---------------------------------------------
template <int D> struct At;
template <> struct At<2> { template <typename A> static auto& of(A& a, const int_t* i) { return a(i[0], i[1]); } };
template <> struct At<3> { template <typename A> static auto& of(A& a, const int_t* i) { return a(i[0], i[1], i[2]); } };
template <> struct At<4> { template <typename A> static auto& of(A& a, const int_t* i) { return a(i[0], i[1], i[2], i[3]); } };

// f(index) for index vectors in which at most one entry is taken from the long list
template <typename F>
static void index_vectors(int dim, const int_t* n, F f) {
  for (int star = 0; star < dim; ++star) {
    Vals l[4];
    for (int d = 0; d < 4; ++d) l[d] = d >= dim ? Vals{0} : d == star ? vals(n[d], n[d] + 1) : dim == 4 ? uniq({-1, n[d] - 1, n[d]}) : few(n[d]);
    for (int_t i0 : l[0]) for (int_t i1 : l[1]) for (int_t i2 : l[2]) for (int_t i3 : l[3]) {
      const int_t i[4]{i0, i1, i2, i3};
      f(i);
    }
  }
}
template <int D> static bool inside(const int_t* i, const int_t* n) {
  for (int d = 0; d < D; ++d) if (!in(i[d], n[d])) return false;
  return true;
}
template <int D, typename A> static void access(Ctx& c, A& a, const int_t* n, const char* what) {
  index_vectors(D, n, [&](const int_t* i) {
    request(c, inside<D>(i, n), [&] { mc::get(At<D>::of(a, i)); }, what, i[0], i[1], i[2], i[3]);
  });
}
#define DIM_QUERY(what, call, D) \
  for (int_t d : vals(D, D)) request(c, in(d, D), [&] { (void)(call); }, what, d)

// range pairs: every range of the long list with a few ranges of the other dimension
template <typename F>
static void range_pairs(int_t n0, int_t n1, F f) {
  for (int star = 0; star < 2; ++star) {
    const std::vector<il::Range> few0{{0, n0}, {0, n0 + 1}, {-1, n0}, {n0 > 1 ? 1 : 0, n0}}, few1{{0, n1}, {0, n1 + 1}, {-1, n1}, {n1 > 1 ? 1 : 0, n1}};
    for (il::Range r0 : star == 0 ? ranges(ends(n0, n0 + 1)) : few0)
      for (il::Range r1 : star == 1 ? ranges(ends(n1, n1 + 1)) : few1) f(r0, r1);
  }
}
template <typename T> static void view2(Ctx& c, il::Array2DView<T> v, int_t n0, int_t n1, int depth) {
  const int_t n[2]{n0, n1};
  MC_CHECK(c, v.size(0) == n0 && v.size(1) == n1, "a view has a wrong size");
  access<2>(c, static_cast<const il::Array2DView<T>&>(v), n, "() of a view");
  if (depth == 0) return;
  DIM_QUERY("size(d) of a view", v.size(d), 2);
  DIM_QUERY("stride(d) of a view", v.stride(d), 2);
  range_pairs(n0, n1, [&](il::Range r0, il::Range r1) {
    const int want = both(legal(r0, n0), legal(r1, n1));
    il::Array2DView<T> w;
    if (request(c, want, [&] { w = v.view(r0, r1); }, "view(range0, range1) of a view", r0.begin, r0.end, r1.begin, r1.end) && want == 1) view2<T>(c, w, r0.end - r0.begin, r1.end - r1.begin, depth - 1);
  });
}
template <typename E> static void edit2(Ctx& c, E v, int_t n0, int_t n1, int depth) {
  const int_t n[2]{n0, n1};
  MC_CHECK(c, v.size(0) == n0 && v.size(1) == n1, "an editable view has a wrong size");
  access<2>(c, v, n, "() of an editable view");
  if (depth == 0) return;
  DIM_QUERY("size(d) of an editable view", v.size(d), 2);
  DIM_QUERY("stride(d) of an editable view", v.stride(d), 2);
  range_pairs(n0, n1, [&](il::Range r0, il::Range r1) {
    const int want = both(legal(r0, n0), legal(r1, n1));
    E w;
    if (request(c, want, [&] { w = v.Edit(r0, r1); }, "Edit(range0, range1) of an editable view", r0.begin, r0.end, r1.begin, r1.end) && want == 1) edit2<E>(c, w, r0.end - r0.begin, r1.end - r1.begin, depth - 1);
  });
}
template <typename T> static void extra(Ctx& c, il::Array2D<T>& a, const int_t* n) {
  const il::Array2D<T>& k = a;
  view2<T>(c, k.view(), n[0], n[1], 1);
  edit2<il::Array2DEdit<T>>(c, a.Edit(), n[0], n[1], 1);
  range_pairs(n[0], n[1], [&](il::Range r0, il::Range r1) {
    const int want = both(legal(r0, n[0]), legal(r1, n[1]));
    il::Array2DView<T> v;
    il::Array2DEdit<T> e;
    if (request(c, want, [&] { v = k.view(r0, r1); }, "view(range0, range1)", r0.begin, r0.end, r1.begin, r1.end) && want == 1) view2<T>(c, v, r0.end - r0.begin, r1.end - r1.begin, 0);
    if (request(c, want, [&] { e = a.Edit(r0, r1); }, "Edit(range0, range1)", r0.begin, r0.end, r1.begin, r1.end) && want == 1) edit2<il::Array2DEdit<T>>(c, e, r0.end - r0.begin, r1.end - r1.begin, 0);
  });
  for (int_t j : vals(n[1], n[1] + 1)) {
    for (il::Range r : ranges(ends(n[0], n[0] + 1))) {
      const int want = both(legal(r, n[0]), in(j, n[1]));
      il::ArrayView<T> v;
      il::ArrayEdit<T> e;
      if (request(c, want, [&] { v = k.view(r, j); }, "view(range0, i1)", r.begin, r.end, j)) views1<T>(c, v, few(v.size()), "[] of a view of a column", 0);
      if (request(c, want, [&] { e = a.Edit(r, j); }, "Edit(range0, i1)", r.begin, r.end, j)) edits1<T>(c, e, few(e.size()), "[] of an editable view of a column", 0);
    }
    request(c, in(j, n[1]), [&] { (void)k.data(j); }, "data(i1)", j);
    request(c, in(j, n[1]), [&] { (void)a.Data(j); }, "Data(i1)", j);
  }
  DIM_QUERY("capacity(d)", k.capacity(d), 2);
  DIM_QUERY("stride(d)", k.stride(d), 2);
}
template <typename T> static void extra(Ctx& c, il::Array2C<T>& a, const int_t* n) {
  const il::Array2C<T>& k = a;
  const il::Array2CView<T> kv = k.view();
  access<2>(c, kv, n, "() of a view");
  edit2<il::Array2CEdit<T>>(c, a.Edit(), n[0], n[1], 1);
  range_pairs(n[0], n[1], [&](il::Range r0, il::Range r1) {
    const int want = both(legal(r0, n[0]), legal(r1, n[1]));
    il::Array2CView<T> v;
    if (request(c, want, [&] { v = k.view(r0, r1); }, "view(range0, range1)", r0.begin, r0.end, r1.begin, r1.end) && want == 1) {
      const int_t m[2]{r0.end - r0.begin, r1.end - r1.begin};
      access<2>(c, v, m, "() of a view of a block");
      DIM_QUERY("size(d) of a view", v.size(d), 2);
      DIM_QUERY("stride(d) of a view", v.stride(d), 2);
    }
  });
  for (int_t i : vals(n[0], n[0] + 1)) {
    for (il::Range r : ranges(ends(n[1], n[1] + 1))) {
      const int want = both(in(i, n[0]), legal(r, n[1]));
      il::ArrayView<T> v;
      if (request(c, want, [&] { v = k.view(i, r); }, "view(i0, range1)", i, r.begin, r.end)) views1<T>(c, v, few(v.size()), "[] of a view of a row", 0);
    }
    request(c, in(i, n[0]), [&] { (void)k.data(i); }, "data(i0)", i);
    request(c, in(i, n[0]), [&] { (void)a.Data(i); }, "Data(i0)", i);
  }
  DIM_QUERY("capacity(d)", k.capacity(d), 2);
  DIM_QUERY("stride(d)", k.stride(d), 2);
}
template <typename A> static void extra3(Ctx& c, A& a, const int_t* n) {
  DIM_QUERY("capacity(d)", a.capacity(d), 3);
  DIM_QUERY("stride(d)", a.stride(d), 3);
}
template <typename T> static void extra(Ctx& c, il::Array3D<T>& a, const int_t* n) {
  extra3(c, a, n);
  il::Array3DView<T> v{a.data(), n[0], n[1], n[2], a.stride(1), a.stride(1) ? a.stride(2) / a.stride(1) : 0};
  access<3>(c, static_cast<const il::Array3DView<T>&>(v), n, "() of a view");
  DIM_QUERY("size(d) of a view", v.size(d), 3);
  il::Array3DEdit<T> e{a.Data(), n[0], n[1], n[2], a.stride(1), a.stride(1) ? a.stride(2) / a.stride(1) : 0};
  access<3>(c, e, n, "() of an editable view");
}
template <typename T> static void extra(Ctx& c, il::Array3C<T>& a, const int_t* n) { extra3(c, a, n); }
template <typename T> static void extra(Ctx& c, il::Array4D<T>& a, const int_t*) { DIM_QUERY("capacity(d)", a.capacity(d), 4); }
template <typename T> static void extra(Ctx& c, il::Array4C<T>& a, const int_t*) { DIM_QUERY("capacity(d)", a.capacity(d), 4); }

template <int D> struct Shape;
#define SHAPE(D, ARGS)                                                                                         \
  template <> struct Shape<D> {                                                                                \
    template <typename A> static A make(const int_t* i) { return A(ARGS); }                                     \
    template <typename A, typename T> static A make(const int_t* i, const T& x) { return A(ARGS, x); }           \
    template <typename A> static A align(const int_t* i) { return A(ARGS, il::align, 16); }                      \
    template <typename A, typename T> static A align(const int_t* i, const T& x) { return A(ARGS, x, il::align, 16); } \
    template <typename A> static void resize(A& a, const int_t* i) { a.Resize(ARGS); }                           \
    template <typename A> static void reserve(A& a, const int_t* i) { a.Reserve(ARGS); }                         \
  };
#define COMMA ,
SHAPE(2, i[0] COMMA i[1])
SHAPE(3, i[0] COMMA i[1] COMMA i[2])
SHAPE(4, i[0] COMMA i[1] COMMA i[2] COMMA i[3])

// every element, in the order of the loops
template <int D, typename A> static std::vector<int> contents(A& a) {
  std::vector<int> r;
  int_t n[4]{1, 1, 1, 1};
  for (int d = 0; d < D; ++d) n[d] = a.size(d);
  for (int_t i0 = 0; i0 < n[0]; ++i0) for (int_t i1 = 0; i1 < n[1]; ++i1) for (int_t i2 = 0; i2 < n[2]; ++i2) for (int_t i3 = 0; i3 < n[3]; ++i3) {
    const int_t i[4]{i0, i1, i2, i3};
    r.push_back(mc::get(At<D>::of(a, i)));
  }
  return r;
}

template <typename A> static void negative_extra(Ctx&, A&, const int_t*) {}
template <typename T> static void negative_extra(Ctx& c, il::Array2D<T>& a, const int_t* i) {
  request(c, 0, [&] { a.Resize(i[0], i[1], T(4)); }, "Resize with a value", i[0], i[1]);
  request(c, 0, [&] { a.Resize(i[0], i[1], il::emplace, 4); }, "Resize with emplace", i[0], i[1]);
  request(c, 0, [&] { il::Array2D<T> b(i[0], i[1], il::emplace, 4); }, "construct with emplace", i[0], i[1]);
  request(c, 0, [&] { il::Array2DView<T> b(a.data(), i[0], i[1], 1); }, "Array2DView(p, n0, n1, stride)", i[0], i[1]);
  request(c, 0, [&] { il::Array2DEdit<T> b(a.Data(), i[0], i[1], 1, 0, 0); }, "Array2DEdit(p, n0, n1, stride)", i[0], i[1]);
}
template <typename A, typename T, int D> static void requests(Ctx& c, A& a) {
  int_t n[4]{0, 0, 0, 0};
  for (int d = 0; d < D; ++d) n[d] = a.size(d);
  int v = 5;
  for (int_t i0 = 0; i0 < n[0]; ++i0) for (int_t i1 = 0; i1 < n[1]; ++i1) for (int_t i2 = 0; i2 < (D > 2 ? n[2] : 1); ++i2) for (int_t i3 = 0; i3 < (D > 3 ? n[3] : 1); ++i3) {
    const int_t i[4]{i0, i1, i2, i3};
    At<D>::of(a, i) = T(v++);
  }
  const std::vector<int> m = contents<D>(a);
  T* const p = a.Data();
  std::vector<int_t> cap;
  for (int d = 0; d < D; ++d) cap.push_back(a.capacity(d));
  auto same = [&](const char* what) {
    for (int d = 0; d < D; ++d) {
      MC_CHECK(c, a.size(d) == n[d], "%s: size(%d) changed from %ld to %ld", what, d, (long)n[d], (long)a.size(d));
      MC_CHECK(c, a.capacity(d) == cap[d], "%s: capacity(%d) changed", what, d);
    }
    MC_CHECK(c, a.Data() == p, "%s: the storage moved", what);
    MC_CHECK(c, contents<D>(a) == m, "%s: an element changed", what);
    c.settle();
  };
  const A& k = a;
  access<D>(c, k, n, "() (const)");
  access<D>(c, a, n, "()");
  for (int_t d : vals(D, D)) request(c, in(d, D), [&] { (void)k.size(d); }, "size(d)", d);
  same("after indexed accesses");
  extra(c, a, n);
  same("after views and queries");
  const T x(3);
  const int_t z[4]{1, 2, 1, 2};
  index_vectors(D, z, [&](const int_t* i) {
    bool neg = false;
    for (int d = 0; d < D; ++d) neg = neg || i[d] < 0;
    if (!neg) return;
    request(c, 0, [&] { Shape<D>::resize(a, i); }, "Resize", i[0], i[1], i[2], i[3]);
    same("after a rejected Resize");
    request(c, 0, [&] { Shape<D>::reserve(a, i); }, "Reserve", i[0], i[1], i[2], i[3]);
    same("after a rejected Reserve");
    negative_extra(c, a, i);
    same("after a rejected request");
    request(c, 0, [&] { A b = Shape<D>::template make<A>(i); }, "construct", i[0], i[1], i[2], i[3]);
    request(c, 0, [&] { A b = Shape<D>::template make<A, T>(i, x); }, "construct with a value", i[0], i[1], i[2], i[3]);
    if constexpr (D < 4 && il::isTrivial<T>::value) {
      request(c, 0, [&] { A b = Shape<D>::template align<A>(i); }, "construct aligned", i[0], i[1], i[2], i[3]);
      request(c, 0, [&] { A b = Shape<D>::template align<A, T>(i, x); }, "construct aligned with a value", i[0], i[1], i[2], i[3]);
    }
  });
}
template <typename A, typename T, int D> static void multi(Ctx& c) {
  const Vals S = D == 2 ? Vals{0, 1, 2, 3} : D == 3 ? Vals{0, 1, 2} : c.thorough ? Vals{0, 1, 2} : Vals{0, 2};
  auto shape = [&](int_t* n, const char* what) {
    for (int d = 0; d < D; ++d) n[d] = c.of(S);
    c.log("%s %ld %ld %ld %ld", what, (long)n[0], (long)n[1], (long)n[2], (long)n[3]);
  };
  int_t n[4]{0, 0, 0, 0};
  A a;
  if (c.flip()) { shape(n, "construct"); a = Shape<D>::template make<A>(n); }
  for (int step = 0; step <= c.bound; ++step) {
    std::string key;
    for (int d = 0; d < D; ++d) key += std::to_string(a.size(d)) + "," + std::to_string(a.capacity(d)) + ",";
    c.state(key, c.bound - step);
    if (step == c.bound) break;
    switch (c.pick(4)) {
      case 0: requests<A, T, D>(c, a); return;
      case 1: shape(n, "Resize"); Shape<D>::resize(a, n); break;
      case 2: shape(n, "Reserve"); Shape<D>::reserve(a, n); break;
      default: { c.log("move"); A b{std::move(a)}; requests<A, T, D>(c, c.flip() ? b : a); a = std::move(b); }
    }
  }
  requests<A, T, D>(c, a);
}

// --- fixed-size, packed and sparse storages ---------------------------------------
template <typename A, int D> static void static_nd(Ctx& c, const int_t* n) {
  A a{};
  const A& k = a;
  access<D>(c, k, n, "() (const)");
  access<D>(c, a, n, "()");
  for (int_t d : vals(D, D)) request(c, in(d, D), [&] { (void)k.size(d); }, "size(d)", d);
}
static void fixed(Ctx& c) {
  switch (c.pick(12)) {
    case 0: static1<1>(c); break;
    case 1: static1<2>(c); break;
    case 2: static1<3>(c); break;
    case 3: { const int_t n[]{1, 3}; static_nd<il::StaticArray2D<int, 1, 3>, 2>(c, n); break; }
    case 4: { const int_t n[]{3, 2}; static_nd<il::StaticArray2D<Elem, 3, 2>, 2>(c, n); break; }
    case 5: { const int_t n[]{3, 2}; static_nd<il::StaticArray2C<Elem, 3, 2>, 2>(c, n); break; }
    case 6: { const int_t n[]{1, 3}; static_nd<il::StaticArray2C<double, 1, 3>, 2>(c, n); break; }
    case 7: { const int_t n[]{1, 2, 3}; static_nd<il::StaticArray3D<int, 1, 2, 3>, 3>(c, n); break; }
    case 8: { const int_t n[]{2, 1, 2}; static_nd<il::StaticArray3D<Elem, 2, 1, 2>, 3>(c, n); break; }
    case 9: { const int_t n[]{2, 1, 2, 3}; static_nd<il::StaticArray4D<int, 2, 1, 2, 3>, 4>(c, n); break; }
    case 10: {
      il::StaticArray2D<int, 2, 2> a{1};
      const int_t n[]{2, 2};
      view2<int>(c, a.view(), 2, 2, 1);
      edit2<il::Array2DEdit<int>>(c, a.Edit(), 2, 2, 1);
      break;
    }
    default: {
      request(c, 0, [&] { il::StaticArray2D<int, 2, 2> b(il::value, {{1, 2}, {3}}); }, "StaticArray2D(value, ragged list)");
      request(c, 0, [&] { il::StaticArray2D<int, 2, 2> b(il::value, {{1, 2}}); }, "StaticArray2D(value, short list)");
      request(c, 0, [&] { il::StaticArray2D<int, 2, 2> b(il::value, {{1, 2}, {1, 2}, {1, 2}}); }, "StaticArray2D(value, long list)");
      request(c, 1, [&] { il::StaticArray2D<int, 2, 2> b(il::value, {{1, 2}, {1, 2}}); }, "StaticArray2D(value, list)");
      request(c, 0, [&] { il::StaticArray2C<int, 2, 2> b(il::value, {{1, 2}, {3}}); }, "StaticArray2C(value, ragged list)");
      request(c, 0, [&] { il::StaticArray2C<int, 2, 2> b(il::value, {{1, 2, 3}, {3, 4}}); }, "StaticArray2C(value, ragged list)");
    }
  }
}
static void packed(Ctx& c) {
  const int_t n = c.pick(5);
  switch (c.pick(4)) {
    case 0: {
      il::LowerArray2D<double> a{n};
      const il::LowerArray2D<double>& k = a;
      for (int_t i : vals(n, n)) for (int_t j : vals(n, n)) {
        const bool ok = in(i, n) && in(j, n) && j <= i;
        request(c, ok, [&] { a(i, j) = 1.0; }, "LowerArray2D ()", i, j);
        request(c, ok, [&] { (void)mc::get(k(i, j)); }, "LowerArray2D () (const)", i, j);
      }
      for (int_t i : vals(0, 0)) if (i < 0) request(c, 0, [&] { il::LowerArray2D<double> b{i}; }, "LowerArray2D(n)", i);
      break;
    }
    case 1: {
      il::UpperArray2D<Elem> a{n};
      const il::UpperArray2D<Elem>& k = a;
      for (int_t i : vals(n, n)) for (int_t j : vals(n, n)) {
        const bool ok = in(i, n) && in(j, n) && j >= i;
        request(c, ok, [&] { a(i, j) = Elem(1); }, "UpperArray2D ()", i, j);
        request(c, ok, [&] { (void)mc::get(k(i, j)); }, "UpperArray2D () (const)", i, j);
      }
      for (int_t i : vals(0, 0)) if (i < 0) request(c, 0, [&] { il::UpperArray2D<double> b{i}; }, "UpperArray2D(n)", i);
      break;
    }
    case 2: {
      il::TriDiagonal<double> a{n};
      const il::TriDiagonal<double>& k = a;
      for (int_t i : vals(n, n)) for (int_t j : vals(2, 2)) {
        // the two corners outside the matrix may or may not be rejected
        const int ok = in(i, n) && j >= -1 && j <= 1 ? (in(i + j, n) ? 1 : -1) : 0;
        request(c, ok, [&] { a(i, j) = 1.0; }, "TriDiagonal ()", i, j);
        request(c, ok, [&] { (void)mc::get(k(i, j)); }, "TriDiagonal () (const)", i, j);
      }
      for (int_t i : vals(0, 0)) if (i < 0) request(c, 0, [&] { il::TriDiagonal<double> b{i}; }, "TriDiagonal(n)", i);
      break;
    }
    default: {
      const int_t m = c.pick(4), wl = c.pick(3), wr = c.pick(3);
      il::BandArray2C<double> a{n, m, wl, wr};
      const il::BandArray2C<double>& k = a;
      Vals ks = vals(m, m);
      for (int_t w : {wl, wr}) for (int_t d = -2; d <= 2; ++d) { ks.push_back(w + d); ks.push_back(-w + d); }
      for (int_t i : vals(n, n)) for (int_t j : uniq(ks)) {
        const bool ok = in(i, n) && j >= -wl && j <= wr && in(i + j, m);
        request(c, ok, [&] { a(i, j) = 1.0; }, "BandArray2C ()", i, j);
        request(c, ok, [&] { (void)mc::get(k(i, j)); }, "BandArray2C () (const)", i, j);
      }
      for (int_t i : {int_t(-1), int_t(-2), int_t(-4)}) {
        request(c, 0, [&] { il::BandArray2C<double> b(i, 2); }, "BandArray2C(n, width) with a negative size", i);
        request(c, 0, [&] { il::BandArray2C<double> b(3, i); }, "BandArray2C(n, width) with a negative width", i);
        request(c, 0, [&] { il::BandArray2C<double> b(i, 2, 1, 1); }, "BandArray2C(n0, n1, ...) with a negative n0", i);
        request(c, 0, [&] { il::BandArray2C<double> b(2, i, 1, 1); }, "BandArray2C(n0, n1, ...) with a negative n1", i);
        request(c, 0, [&] { il::BandArray2C<double> b(2, 2, i, 9); }, "BandArray2C(n0, n1, left, right) with a negative left width", i);
        request(c, 0, [&] { il::BandArray2C<double> b(2, 2, 9, i); }, "BandArray2C(n0, n1, left, right) with a negative right width", i);
      }
    }
  }
}
static void sparse(Ctx& c) {
  const int N = 3;
  // every pattern of a 3x3 matrix whose rows hold the first r[i] columns
  int_t len[N];
  il::Array<int> column{}, row{};
  row.Append(0);
  for (int i = 0; i < N; ++i) {
    len[i] = c.pick(N + 1);
    for (int j = 0; j < len[i]; ++j) column.Append(j);
    row.Append((int)column.size());
  }
  const int_t nnz = column.size();
  il::SparseMatrixCSR<int, double> a{N, N, column, row};
  const il::SparseMatrixCSR<int, double>& k = a;
  for (int_t e : vals(nnz, nnz)) {
    request(c, in(e, nnz), [&] { a[e] = 1.0; }, "SparseMatrixCSR []", e);
    request(c, in(e, nnz), [&] { (void)mc::get(k[e]); }, "SparseMatrixCSR [] (const)", e);
    request(c, in(e, nnz), [&] { (void)k.column(e); }, "SparseMatrixCSR column(k)", e);
    request(c, in(e, nnz), [&] { (void)k.element(e); }, "SparseMatrixCSR element(k)", e);
  }
  for (int_t i : vals(N, N)) {
    request(c, in(i, N + 1), [&] { (void)k.row(i); }, "SparseMatrixCSR row(i)", i);
    for (int_t j : vals(nnz, N)) {
      const bool ok = in(i, N) && in(j, len[i]);
      request(c, ok, [&] { a(i, j) = 1.0; }, "SparseMatrixCSR ()", i, j);
      request(c, ok, [&] { (void)mc::get(k(i, j)); }, "SparseMatrixCSR () (const)", i, j);
    }
  }
  for (int_t d : vals(2, 2)) request(c, in(d, 2), [&] { (void)k.size(d); }, "SparseMatrixCSR size(d)", d);
}

// --- queue, maps, tree ------------------------------------------------------------
static void deque(Ctx& c) {
  const int cap = c.pick(4);
  il::Deque<Elem> q{static_cast<int_t>(cap)};
  std::vector<int> m;
  for (int step = 0; step < c.bound; ++step) {
    std::string key = std::to_string(cap) + ":";
    for (int x : m) key += std::to_string(x) + ",";
    c.state(key + std::to_string(m.empty() ? 0 : &q.front() < &q.back()), c.bound - step);
    const int op = c.pick(4);
    c.log("operation %d", op);
    const bool empty = m.empty(), full = (int)m.size() == cap;
    if (op == 0 && !full) { q.PushBack(Elem(step + 1)); m.push_back(step + 1); }
    if (op == 1 && !full) { q.PushFront(Elem(step + 1)); m.insert(m.begin(), step + 1); }
    if (op == 2) { request(c, !empty, [&] { q.PopFront(); }, "PopFront()"); if (!empty) m.erase(m.begin()); }
    if (op == 3) { request(c, !empty, [&] { q.PopBack(); }, "PopBack()"); if (!empty) m.pop_back(); }
    const il::Deque<Elem>& k = q;
    MC_CHECK(c, k.size() == (int_t)m.size(), "size() is %ld, expected %zu", (long)k.size(), m.size());
    int got = 0;
    if (request(c, !m.empty(), [&] { got = mc::get(k.front()); }, "front()")) MC_CHECK(c, got == m.front(), "front() is wrong");
    if (request(c, !m.empty(), [&] { got = mc::get(k.back()); }, "back()")) MC_CHECK(c, got == m.back(), "back() is wrong");
    if (request(c, !m.empty(), [&] { got = mc::get(q.Front()); }, "Front()")) MC_CHECK(c, got == m.front(), "Front() is wrong");
    if (request(c, !m.empty(), [&] { got = mc::get(q.Back()); }, "Back()")) MC_CHECK(c, got == m.back(), "Back() is wrong");
    if (cap == 0) for (int_t i : vals(0, 0)) if (i < 0) {
      request(c, 0, [&] { q.Reserve(i); }, "Reserve", i);
      MC_CHECK(c, k.capacity() == cap && k.size() == (int_t)m.size(), "a rejected Reserve changed the queue");
    }
  }
  for (int_t i : vals(0, 0)) if (i < 0) request(c, 0, [&] { il::Deque<Elem> b{i}; }, "Deque(n)", i);
}
template <typename M> static void map_requests(Ctx& c, M& a, const std::vector<int>& m) {
  const M& k = a;
  for (int key = 0; key < (int)m.size(); ++key) {
    il::spot_t s = k.search(key);
    const bool present = m[key] >= 0;
    MC_CHECK(c, k.found(s) == present, "key %d is reported %s", key, present ? "absent" : "present");
    int got = -1;
    if (request(c, present, [&] { got = k.value(s); }, "value(spot)", key)) MC_CHECK(c, got == m[key], "value(spot) is wrong");
    if (request(c, present, [&] { got = a.Value(s); }, "Value(spot)", key)) MC_CHECK(c, got == m[key], "Value(spot) is wrong");
    if (request(c, present, [&] { got = k.key(s); }, "key(spot)", key)) MC_CHECK(c, got == key, "key(spot) is wrong");
    for (int_t i : vals(0, 0)) {
      if (i < 0 || i > 1000) {
        il::spot_t t = s;
        t.index = i;
        request(c, 0, [&] { (void)k.value(t); }, "value(spot) with a stray index", i);
        request(c, 0, [&] { (void)k.key(t); }, "key(spot) with a stray index", i);
        request(c, 0, [&] { (void)a.Value(t); }, "Value(spot) with a stray index", i);
      }
    }
  }
  for (int_t i : vals(0, 0)) if (i < 0) request(c, 0, [&] { M b{i}; }, "Map(n)", i);
}
static void map(Ctx& c) {
  il::Map<int, int> a{};
  std::vector<int> m(3, -1);
  if (c.flip()) a = il::Map<int, int>{static_cast<int_t>(c.pick(5))};
  for (int step = 0; step < c.bound; ++step) {
    const int op = c.pick(4), key = c.pick(3);
    if (op == 0) { c.log("Set %d", key); a.Set(key, step); m[key] = step; }
    if (op == 1) {
      il::spot_t s = a.search(key);
      c.log("erase %d", key);
      request(c, m[key] >= 0, [&] { a.erase(s); }, "erase(spot)", key);
      m[key] = -1;
    }
    if (op == 2) {
      il::spot_t s = a.search(key);
      c.log("Set at spot %d", key);
      if (request(c, m[key] < 0, [&] { a.Set(int(key), int(step), il::io, s); }, "Set at the spot of a search", key)) m[key] = step;
    }
    if (op == 3) {
      if (key == 0) a.Clear();
      if (key == 0) m.assign(3, -1);
      if (key == 1) a.Reserve(6);
      if (key == 2) for (int_t i : vals(0, 0)) if (i < 0) request(c, 0, [&] { a.Reserve(i); }, "Reserve", i);
    }
    map_requests(c, a, m);
  }
  map_requests(c, a, m);
}
static void maparray(Ctx& c) {
  il::MapArray<int, int> a{};
  std::vector<int> m(3, -1);
  if (c.flip()) a = il::MapArray<int, int>{static_cast<int_t>(c.pick(5))};
  for (int step = 0; step < c.bound; ++step) {
    const int key = c.pick(3);
    a.Set(key, step); m[key] = step;
    map_requests(c, a, m);
    const int_t n = a.size();
    for (int_t i : vals(n, a.capacity())) {
      il::spot_t s = a.spotBegin();
      s.index = i;
      request(c, in(i, n), [&] { (void)a.value(s); }, "MapArray value(spot)", i);
      request(c, in(i, n), [&] { (void)a.key(s); }, "MapArray key(spot)", i);
    }
  }
}
static void tree(Ctx& c) {
  il::Tree<Elem, 3> a{};
  std::vector<int_t> nodes{0};
  for (int step = 0; step <= c.bound; ++step) {
    int_t size = 0;  // the extent of the storage: one past the largest node ever added
    for (int_t x : nodes) size = std::max(size, x + 1);
    for (int_t s : nodes) {
      const il::spot_t t{s};
      for (int_t i : vals(3, 3)) {
        request(c, in(i, 3), [&] { (void)a.hasChild(t, i); }, "hasChild(s, i)", s, i);
        if (a.hasChild(t)) request(c, in(i, 3), [&] { (void)a.child(t, i); }, "child(s, i)", s, i);
        if (!in(i, 3)) request(c, 0, [&] { a.AddChild(t, i); }, "AddChild(s, i)", s, i);
      }
      if (!a.hasChild(t)) request(c, 0, [&] { (void)a.child(t, 0); }, "child(s, 0) of a leaf", s);
      request(c, s > 0, [&] { (void)a.parent(t); }, "parent(s)", s);
      request(c, 1, [&] { mc::get(a.value(t)); }, "value(s)", s);
    }
    for (int_t s : vals(size, size + 1)) if (s < 0 || s >= size) {
      const il::spot_t t{s};
      request(c, 0, [&] { mc::get(a.value(t)); }, "value(s) of a node outside the tree", s);
      request(c, 0, [&] { a.Set(t, Elem(1)); }, "Set(s, x) of a node outside the tree", s);
      request(c, 0, [&] { (void)a.hasChild(t); }, "hasChild(s) of a node outside the tree", s);
      request(c, 0, [&] { (void)a.isEmpty(t); }, "isEmpty(s) of a node outside the tree", s);
      request(c, 0, [&] { (void)a.children(t); }, "children(s) of a node outside the tree", s);
      request(c, 0, [&] { a.AddChild(t, 0); }, "AddChild(s, 0) of a node outside the tree", s);
      if (s < 0) request(c, 0, [&] { (void)a.parent(t); }, "parent(s) of a node outside the tree", s);
    }
    if (step == c.bound) break;
    const int_t s = nodes[c.pick((int)nodes.size())], i = c.pick(3);
    c.log("AddChild(%ld, %ld)", (long)s, (long)i);
    a.AddChild(il::spot_t{s}, i);
    if (std::find(nodes.begin(), nodes.end(), 3 * s + 1 + i) == nodes.end()) nodes.push_back(3 * s + 1 + i);
  }
}

// --- strings ----------------------------------------------------------------------
static bool boundary(const std::string& s, int_t i) { return i == 0 || i == (int_t)s.size() || (static_cast<unsigned char>(s[i]) & 0xC0) != 0x80; }
static void string(Ctx& c) {
  // ascii and multi-byte texts around the inline limit (22 bytes)
  const int kind = c.pick(2);
  const int_t n = c.of<int_t>({0, 1, 2, 3, 21, 22, 23, 24, 40});
  std::string m;
  while ((int_t)m.size() < n) m += kind == 1 && (int_t)m.size() + 2 <= n ? "\xC3\xA9" : "a";
  il::String s = kind ? il::String(il::StringType::Utf8, m.data(), n) : il::String(il::StringType::Ascii, m.data(), n);
  const int extra = c.pick(3);
  if (extra == 1) s.Reserve(30);
  if (extra == 2) { il::String t{std::move(s)}; s = std::move(t); }
  c.log("%s text of %ld bytes, capacity %ld", kind ? "utf-8" : "ascii", (long)n, (long)s.capacity());
  const il::String& k = s;
  auto same = [&](const char* what) {
    MC_CHECK(c, s.size() == n && memcmp(s.data(), m.data(), n) == 0 && s.data()[n] == 0, "%s: the string changed", what);
  };
  const Vals vs = vals(n, s.capacity());
  for (int_t i : vs) {
    if (i < 0) {
      request(c, 0, [&] { s.Reserve(i); }, "Reserve", i); same("after a rejected Reserve");
      request(c, 0, [&] { s.Append(i, 'x'); }, "Append(n, char)", i); same("after a rejected Append");
      request(c, 0, [&] { s.Append(i, int(0xE9)); }, "Append(n, rune)", i); same("after a rejected Append");
      request(c, 0, [&] { s.Append(il::StringType::Ascii, "abc", i); }, "Append(type, p, n)", i); same("after a rejected Append");
      request(c, 0, [&] { s.Insert(0, i, 'x'); }, "Insert(0, n, char)", i); same("after a rejected Insert");
      request(c, 0, [&] { s.Insert(0, il::StringType::Ascii, "abc", i); }, "Insert(0, type, p, n)", i); same("after a rejected Insert");
      request(c, 0, [&] { il::String t(il::StringType::Ascii, "abc", i); }, "String(type, p, n)", i);
      request(c, 0, [&] { il::StringView t(il::StringType::Ascii, "abc", i); }, "StringView(type, p, n)", i);
    }
    const bool ok = i >= 0 && i <= n;
    request(c, ok, [&] { (void)k.isRuneBoundary(i); }, "isRuneBoundary(i)", i);
    if (!ok) {
      request(c, 0, [&] { s.Insert(i, 'x'); }, "Insert(i, char)", i); same("after a rejected Insert");
      request(c, 0, [&] { s.Insert(i, 2, 'x'); }, "Insert(i, n, char)", i); same("after a rejected Insert");
      request(c, 0, [&] { s.Insert(i, "xy"); }, "Insert(i, literal)", i); same("after a rejected Insert");
      request(c, 0, [&] { s.Insert(i, il::StringType::Ascii, "xy", 2); }, "Insert(i, type, p, n)", i); same("after a rejected Insert");
      request(c, 0, [&] { s.Insert(i, il::String("xy")); }, "Insert(i, String)", i); same("after a rejected Insert");
    } else if (boundary(m, i)) {
      request(c, 1, [&] { il::String t{k}; t.Insert(i, "xy"); }, "Insert(i, literal)", i);
    }
    for (int_t j : vs) {
      const int want = ok && j >= i && j <= n ? (boundary(m, i) && boundary(m, j) ? 1 : -1) : 0;
      int_t got = -1;
      if (request(c, want, [&] { got = k.substring(i, j).size(); }, "substring(i, j)", i, j)) MC_CHECK(c, got == j - i, "substring has a wrong size");
      if (request(c, want, [&] { got = k.subview(i, j).size(); }, "subview(i, j)", i, j)) MC_CHECK(c, got == j - i, "subview has a wrong size");
    }
  }
  same("after rejected requests");
  // views, whole and partial: the bytes around a partial view are out of its bounds
  const int_t b = n >= 3 ? c.pick(2) : 0, e = n - (n >= 3 ? c.pick(2) : 0);
  il::StringView v{il::StringType::Byte, k.data() + b, e - b};
  const int_t w = v.size();
  for (int_t i : vs) {
    request(c, in(i, w), [&] { (void)v[i]; }, "StringView [i]", i);
    request(c, in(i, w), [&] { (void)v.back(i); }, "StringView back(i)", i);
    request(c, in(i, w), [&] { (void)v.hasSpace(i); }, "StringView hasSpace(i)", i);
    request(c, in(i, w), [&] { (void)v.hasDigit(i); }, "StringView hasDigit(i)", i);
    request(c, in(i, w), [&] { (void)v.hasHexaDecimal(i); }, "StringView hasHexaDecimal(i)", i);
    request(c, in(i, w), [&] { (void)v.hasNewLine(i); }, "StringView hasNewLine(i)", i);
    il::StringView p = v, q = v;
    const bool ok = i >= 0 && i <= w;
    if (!request(c, ok, [&] { p.removePrefix(i); }, "StringView removePrefix(i)", i)) MC_CHECK(c, p.size() == w && p.data() == v.data(), "a rejected removePrefix changed the view");
    if (!request(c, ok, [&] { q.removeSuffix(i); }, "StringView removeSuffix(i)", i)) MC_CHECK(c, q.size() == w && q.data() == v.data(), "a rejected removeSuffix changed the view");
    for (int_t j : vs) {
      const int want = ok && j >= i && j <= w;
      int_t got = -1;
      if (request(c, want, [&] { got = v.subview(i, j).size(); }, "StringView subview(i, j)", i, j)) MC_CHECK(c, got == j - i, "subview has a wrong size");
    }
  }
  request(c, w > 0, [&] { (void)v.startsWithDigit(); }, "StringView startsWithDigit()");
  il::UTF16String u{};
  for (int_t i : vs) if (i < 0) {
    request(c, 0, [&] { u.Reserve(i); }, "UTF16String Reserve", i);
    request(c, 0, [&] { u.Append(i, 'x'); }, "UTF16String Append(n, char)", i);
    request(c, 0, [&] { u.Append(i, int(0xE9)); }, "UTF16String Append(n, rune)", i);
    MC_CHECK(c, u.size() == 0, "a rejected request changed a UTF-16 string");
  }
}

#if PART == 0
MC_SUITE("Array<Elem>", (growable<Elem, il::Array<Elem>>), 3, 5);
MC_SUITE("Array<double>", (growable<double, il::Array<double>>), 3, 5);
MC_SUITE("SmallArray<Elem>", (growable<Elem, il::SmallArray<Elem, 2>>), 3, 5);
MC_SUITE("SmallArray<double>", (growable<double, il::SmallArray<double, 2>>), 3, 5);
MC_SUITE("fixed-size arrays", fixed, 1, 1);
MC_SUITE("packed storages", packed, 1, 1);
MC_SUITE("sparse matrix", sparse, 1, 1);
#elif PART == 1
MC_SUITE("Array2D<Elem>", (multi<il::Array2D<Elem>, Elem, 2>), 2, 4);
MC_SUITE("Array2D<double>", (multi<il::Array2D<double>, double, 2>), 2, 4);
MC_SUITE("Array2C<Elem>", (multi<il::Array2C<Elem>, Elem, 2>), 2, 4);
MC_SUITE("Array2C<double>", (multi<il::Array2C<double>, double, 2>), 2, 4);
#elif PART == 2
MC_SUITE("Array3D<Elem>", (multi<il::Array3D<Elem>, Elem, 3>), 1, 2);
MC_SUITE("Array3C<Elem>", (multi<il::Array3C<Elem>, Elem, 3>), 1, 2);
MC_SUITE("Array3D<double>", (multi<il::Array3D<double>, double, 3>), 1, 2);
MC_SUITE("Array3C<double>", (multi<il::Array3C<double>, double, 3>), 1, 2);
#elif PART == 3
MC_SUITE("Array4D<Elem>", (multi<il::Array4D<Elem>, Elem, 4>), 1, 1);
MC_SUITE("Array4C<Elem>", (multi<il::Array4C<Elem>, Elem, 4>), 1, 1);
MC_SUITE("Array4D<double>", (multi<il::Array4D<double>, double, 4>), 1, 1);
MC_SUITE("Array4C<double>", (multi<il::Array4C<double>, double, 4>), 1, 1);
#else
MC_SUITE("queue", deque, 5, 8);
MC_SUITE("map", map, 3, 5);
MC_SUITE("ordered map", maparray, 3, 5);
MC_SUITE("tree", tree, 3, 5);
MC_SUITE("string", string, 1, 1);
#endif
