// P07: every view and nested view of every small container, read and written.
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array3D.h>
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include <il/StaticArray2D.h>
#include <il/container/3d/Array3DView.h>
#include <vector>
#include "ilmc.h"

using mc::Ctx;
using mc::Elem;

// The storage of a container, so that a stray write is seen.
template <typename T>
struct Storage {
  T* p;
  size_t n;
  std::vector<int> m;
  void fill() {
    m.resize(n);
    for (size_t i = 0; i < n; ++i) { m[i] = (int)i + 1; p[i] = T((int)i + 1); }
  }
  void check(Ctx& c, const char* what) {
    for (size_t i = 0; i < n; ++i)
      MC_CHECK(c, mc::get(p[i]) == m[i], "%s: the element at offset %zu of the storage is %d, expected %d", what, i, mc::get(p[i]), m[i]);
    c.settle();
  }
};

static il::Range pick_range(Ctx& c, il::int_t n) {  // 0 <= begin < n, begin <= end <= n
  il::Range r;
  r.begin = c.pick((int)n);
  r.end = r.begin + c.pick((int)(n - r.begin) + 1);
  return r;
}

// The elements denoted by a view: pointers into the storage, in order.
template <typename T> using Seq = std::vector<T*>;
template <typename T>
static Seq<T> sub(const Seq<T>& s, il::Range r) { return Seq<T>(s.begin() + r.begin, s.begin() + r.end); }

template <typename T>
static void same(Ctx& c, const il::ArrayView<T>& v, const Seq<T>& s, const char* what) {
  MC_CHECK(c, v.size() == (il::int_t)s.size(), "%s: size() is %ld, expected %zu", what, (long)v.size(), s.size());
  for (size_t i = 0; i < s.size(); ++i) MC_CHECK(c, &v[i] == s[i], "%s: [%zu] denotes another element", what, i);
  if (!s.empty()) MC_CHECK(c, &v.back() == s.back() && v.data() == s[0], "%s: back() or data() is wrong", what);
}
template <typename T>
static void write_all(Ctx& c, il::ArrayEdit<T> e, const Seq<T>& s, Storage<T>& st, int v) {
  for (size_t i = 0; i < s.size(); ++i) {
    MC_CHECK(c, &e[i] == s[i], "Edit: [%zu] denotes another element", i);
    e[i] = T(v);
    st.m[s[i] - st.p] = v;
    st.check(c, "after writing one element through an editable view");
    ++v;
  }
  if (!s.empty()) {
    e.Back() = T(v);
    st.m[s.back() - st.p] = v;
    MC_CHECK(c, e.Data() == s[0], "Edit: Data() is wrong");
    st.check(c, "after writing through Back()");
  }
}

// nested read-only and editable views of a sequence
template <typename T>
static void nest(Ctx& c, il::ArrayEdit<T> e, Seq<T> s, Storage<T>& st) {
  il::ArrayView<T> v = e;
  for (int d = 0; d < c.bound; ++d) {
    same<T>(c, v, s, "view");
    same<T>(c, e, s, "editable view");
    same<T>(c, v.view(), s, "view.view()");
    same<T>(c, e.view(), s, "edit.view()");
    same<T>(c, e.Edit(), s, "edit.Edit()");
    if (s.empty()) break;
    const il::Range r = pick_range(c, (il::int_t)s.size());
    c.log("  sub-range [%ld,%ld)", (long)r.begin, (long)r.end);
    same<T>(c, e.view(r), sub(s, r), "edit.view(range)");
    v = v.view(r);
    e = e.Edit(r);
    s = sub(s, r);
  }
  same<T>(c, v, s, "view");
  same<T>(c, e, s, "editable view");
  write_all<T>(c, e, s, st, 500);
}

template <typename T, typename C>
static void one(Ctx& c, C& a, il::int_t n, size_t room) {
  Storage<T> st{a.Data(), (size_t)room, {}};
  for (il::int_t i = 0; i < n; ++i) { a[i] = T((int)i + 1); st.m.push_back((int)i + 1); }
  st.n = n;
  (void)room;
  Seq<T> s;
  for (il::int_t i = 0; i < n; ++i) s.push_back(&a[i]);
  const C& k = a;
  same<T>(c, k.view(), s, "view()");
  same<T>(c, a.Edit(), s, "Edit()");
  if (n > 0) {
    const il::Range r = pick_range(c, n);
    c.log("range [%ld,%ld)", (long)r.begin, (long)r.end);
    same<T>(c, k.view(r), sub(s, r), "view(range)");
    nest<T>(c, a.Edit(r), sub(s, r), st);
  }
  st.check(c, "at the end");
}

template <typename T>
static void body1(Ctx& c) {
  switch (c.pick(6)) {
    case 0: { const int n = c.pick(5); c.log("Array of %d", n); il::Array<T> a(n, T(0)); one<T>(c, a, n, n); break; }
    case 1: { const int n = c.pick(5); c.log("Array of %d, capacity 7", n); il::Array<T> a(n, T(0)); a.Reserve(7); one<T>(c, a, n, 7); break; }
    case 2: {
      const int n = c.pick(5);
      c.log("Array of %d, aligned", n);
      if constexpr (il::isTrivial<T>::value) { il::Array<T> a(n, T(0), il::align, 32, 32, 128); one<T>(c, a, n, n); }
      break;
    }
    case 3: { const int n = c.pick(5); c.log("SmallArray<2> of %d", n); il::SmallArray<T, 2> a(n, T(0)); one<T>(c, a, n, n); break; }
    case 4: { c.log("StaticArray<4>"); il::StaticArray<T, 4> a{T(0)}; one<T>(c, a, 4, 4); break; }
    case 5: { c.log("StaticArray<1>"); il::StaticArray<T, 1> a{T(0)}; one<T>(c, a, 1, 1); break; }
  }
}

// --- two dimensions: element (i0, i1) of a view -> pointer into the storage
template <typename T>
struct Grid {
  il::int_t n0, n1;
  std::vector<T*> p;  // p[i0 * n1 + i1]
  T* at(il::int_t i0, il::int_t i1) const { return p[i0 * n1 + i1]; }
  Grid block(il::Range r0, il::Range r1) const {
    Grid g{r0.end - r0.begin, r1.end - r1.begin, {}};
    for (il::int_t i0 = r0.begin; i0 < r0.end; ++i0)
      for (il::int_t i1 = r1.begin; i1 < r1.end; ++i1) g.p.push_back(at(i0, i1));
    return g;
  }
};
template <typename T, typename V>
static void same2(Ctx& c, V&& v, const Grid<T>& g, const char* what) {
  MC_CHECK(c, v.size(0) == g.n0 && v.size(1) == g.n1, "%s: shape %ld x %ld, expected %ld x %ld", what, (long)v.size(0), (long)v.size(1), (long)g.n0, (long)g.n1);
  for (il::int_t i0 = 0; i0 < g.n0; ++i0)
    for (il::int_t i1 = 0; i1 < g.n1; ++i1) {
      MC_CHECK(c, &v(i0, i1) == g.at(i0, i1), "%s: (%ld,%ld) denotes another element", what, (long)i0, (long)i1);
      MC_CHECK(c, v.data() + i0 * v.stride(0) + i1 * v.stride(1) == g.at(i0, i1), "%s: the strides do not give the position of (%ld,%ld)", what, (long)i0, (long)i1);
    }
}
template <typename T, typename E>
static void write2(Ctx& c, E e, const Grid<T>& g, Storage<T>& st, int v) {
  for (il::int_t i0 = 0; i0 < g.n0; ++i0)
    for (il::int_t i1 = 0; i1 < g.n1; ++i1) {
      e(i0, i1) = T(v);
      st.m[g.at(i0, i1) - st.p] = v;
      ++v;
    }
  if (g.n0 > 0 && g.n1 > 0) {
    e.Data()[0] = T(v);
    st.m[g.at(0, 0) - st.p] = v;
  }
  st.check(c, "after writing through an editable view");
}
template <typename A>
static void shape_it(Ctx& c, A& a, int kind, il::int_t n0, il::int_t n1) {
  using T = typename std::remove_cv<typename std::remove_reference<decltype(a(0, 0))>::type>::type;
  if (kind == 0) { a = A(n0, n1, T(0)); }
  else if (kind == 1) { a = A(n0, n1, T(0)); a.Reserve(n0 + 2, n1 + 1); }
  else if (kind == 2) { a = A(n0 + 1, n1 + 2); a.Resize(n0, n1); }
  else if constexpr (il::isTrivial<T>::value) { a = A(n0, n1, T(0), il::align, 32, 32, 64); }
  else { a = A(n0, n1, T(0)); }
  c.log("%ld x %ld, %s", (long)n0, (long)n1, kind == 0 ? "compact" : kind == 1 ? "spare capacity" : kind == 2 ? "shrunk" : "aligned");
}
template <typename T, typename A>
static Grid<T> grid_of(A& a, il::int_t n0, il::int_t n1, Storage<T>& st) {
  // only live elements can be compared for class types
  Grid<T> g{n0, n1, {}};
  for (il::int_t i0 = 0; i0 < n0; ++i0) for (il::int_t i1 = 0; i1 < n1; ++i1) g.p.push_back(&a(i0, i1));
  st.p = a.Data();
  st.n = 0;
  if constexpr (il::isTrivial<T>::value) {
    st.n = a.capacity(0) * a.capacity(1);
    st.fill();
  }
  return g;
}

template <int E>
static void body2d(Ctx& c) {
  using T = int;
  il::Array2D<T> a;
  const int kind = c.pick(4);
  const il::int_t n0 = c.pick(E + 1), n1 = c.pick(E + 1);
  shape_it(c, a, kind, n0, n1);
  Storage<T> st{};
  Grid<T> g = grid_of<T>(a, n0, n1, st);
  const il::Array2D<T>& k = a;
  same2<T>(c, k.view(), g, "view()");
  same2<T>(c, a.Edit(), g, "Edit()");
  if (n0 == 0 || n1 == 0) return;
  if (c.flip()) {  // a part of one column
    const il::Range r = pick_range(c, n0);
    const il::int_t i1 = c.pick((int)n1);
    c.log("column %ld, rows [%ld,%ld)", (long)i1, (long)r.begin, (long)r.end);
    Seq<T> s;
    for (il::int_t i0 = r.begin; i0 < r.end; ++i0) s.push_back(g.at(i0, i1));
    same<T>(c, k.view(r, i1), s, "view(range, i1)");
    nest<T>(c, a.Edit(r, i1), s, st);
    return;
  }
  const il::Range r0 = pick_range(c, n0), r1 = pick_range(c, n1);
  c.log("block [%ld,%ld) x [%ld,%ld)", (long)r0.begin, (long)r0.end, (long)r1.begin, (long)r1.end);
  il::Array2DView<T> v = k.view(r0, r1);
  il::Array2DEdit<T> e = a.Edit(r0, r1);
  Grid<T> b = g.block(r0, r1);
  for (int d = 1;; ++d) {
    same2<T>(c, v, b, "view");
    same2<T>(c, e, b, "editable view");
    if (d >= c.bound || b.n0 == 0 || b.n1 == 0) break;
    const il::Range q0 = pick_range(c, b.n0), q1 = pick_range(c, b.n1);
    c.log("  nested block [%ld,%ld) x [%ld,%ld)", (long)q0.begin, (long)q0.end, (long)q1.begin, (long)q1.end);
    same2<T>(c, e.view(q0, q1), b.block(q0, q1), "edit.view(block)");
    v = v.view(q0, q1);
    e = e.Edit(q0, q1);
    b = b.block(q0, q1);
  }
  write2<T>(c, e, b, st, 500);
  // copying a block into another container changes that block only
  il::Array2D<T> z(b.n0 + 1, b.n1 + 1, 7);
  if (b.n0 > 0 && b.n1 > 0) {
    il::copy(v, il::io, z.Edit(il::Range{1, b.n0 + 1}, il::Range{0, b.n1}));
    for (il::int_t i0 = 0; i0 <= b.n0; ++i0)
      for (il::int_t i1 = 0; i1 <= b.n1; ++i1)
        MC_CHECK(c, z(i0, i1) == (i0 > 0 && i1 < b.n1 ? *b.at(i0 - 1, i1) : 7), "copy(view, edit): (%ld,%ld) is wrong", (long)i0, (long)i1);
  }
  st.check(c, "at the end");
}

template <int E>
static void body2c(Ctx& c) {
  using T = int;
  il::Array2C<T> a;
  const int kind = c.pick(4);
  const il::int_t n0 = c.pick(E + 1), n1 = c.pick(E + 1);
  shape_it(c, a, kind, n0, n1);
  Storage<T> st{};
  Grid<T> g = grid_of<T>(a, n0, n1, st);
  const il::Array2C<T>& k = a;
  same2<T>(c, k.view(), g, "view()");
  same2<T>(c, a.Edit(), g, "Edit()");
  if (n0 == 0 || n1 == 0) return;
  const il::Range r0 = pick_range(c, n0), r1 = pick_range(c, n1);
  c.log("block [%ld,%ld) x [%ld,%ld)", (long)r0.begin, (long)r0.end, (long)r1.begin, (long)r1.end);
  same2<T>(c, k.view(r0, r1), g.block(r0, r1), "view(block)");
  {
    Seq<T> s;
    for (il::int_t i1 = r1.begin; i1 < r1.end; ++i1) s.push_back(g.at(r0.begin, i1));
    same<T>(c, k.view(r0.begin, r1), s, "view(i0, range)");
  }
  il::Array2CEdit<T> e = a.Edit().Edit(r0, r1);
  Grid<T> b = g.block(r0, r1);
  for (int d = 1;; ++d) {
    same2<T>(c, e, b, "editable view");
    if (d >= c.bound || b.n0 == 0 || b.n1 == 0) break;
    const il::Range q0 = pick_range(c, b.n0), q1 = pick_range(c, b.n1);
    c.log("  nested block [%ld,%ld) x [%ld,%ld)", (long)q0.begin, (long)q0.end, (long)q1.begin, (long)q1.end);
    e = e.Edit(q0, q1);
    b = b.block(q0, q1);
  }
  write2<T>(c, e, b, st, 500);
  st.check(c, "at the end");
}

template <int N0, int N1>
static void body_static(Ctx& c) {
  using T = int;
  il::StaticArray2D<T, N0, N1> a{0};
  Storage<T> st{a.Data(), (size_t)(N0 * N1), {}};
  st.fill();
  Grid<T> g{N0, N1, {}};
  for (il::int_t i0 = 0; i0 < N0; ++i0) for (il::int_t i1 = 0; i1 < N1; ++i1) g.p.push_back(&a(i0, i1));
  const auto& k = a;
  same2<T>(c, k.view(), g, "view()");
  const il::Range r0 = pick_range(c, N0), r1 = pick_range(c, N1);
  c.log("StaticArray2D<%d,%d> block [%ld,%ld) x [%ld,%ld)", N0, N1, (long)r0.begin, (long)r0.end, (long)r1.begin, (long)r1.end);
  same2<T>(c, k.view().view(r0, r1), g.block(r0, r1), "view().view(block)");
  il::Array2DEdit<T> e = a.Edit().Edit(r0, r1);
  same2<T>(c, e, g.block(r0, r1), "Edit().Edit(block)");
  write2<T>(c, e, g.block(r0, r1), st, 500);
}

// views of class elements: aliasing and life cycle
static void body_class(Ctx& c) {
  il::Array2D<Elem> a(c.pick(3) + 1, c.pick(3) + 1, Elem(0));
  const il::int_t n0 = a.size(0), n1 = a.size(1);
  if (c.flip()) { a.Reserve(n0 + 2, n1 + 1); }
  int v = 1;
  for (il::int_t i0 = 0; i0 < n0; ++i0) for (il::int_t i1 = 0; i1 < n1; ++i1) a(i0, i1) = Elem(v++);
  const il::Range r0 = pick_range(c, n0), r1 = pick_range(c, n1);
  il::Array2DEdit<Elem> e = a.Edit(r0, r1);
  for (il::int_t i0 = 0; i0 < e.size(0); ++i0) for (il::int_t i1 = 0; i1 < e.size(1); ++i1) e(i0, i1) = Elem(1000 + mc::get(e(i0, i1)));
  v = 1;
  for (il::int_t i0 = 0; i0 < n0; ++i0)
    for (il::int_t i1 = 0; i1 < n1; ++i1, ++v) {
      const bool in = i0 >= r0.begin && i0 < r0.end && i1 >= r1.begin && i1 < r1.end;
      MC_CHECK(c, mc::get(a(i0, i1)) == v + (in ? 1000 : 0), "(%ld,%ld) is %d", (long)i0, (long)i1, mc::get(a(i0, i1)));
    }
  c.settle();
}

// three-dimensional views over raw storage with strides larger than the shape
static void body3(Ctx& c) {
  const il::int_t n0 = c.pick(4), n1 = c.pick(4), n2 = c.pick(4);
  const il::int_t s0 = n0 + c.pick(3), s1 = n1 + c.pick(3);
  c.log("%ld x %ld x %ld, strides %ld %ld", (long)n0, (long)n1, (long)n2, (long)s0, (long)s1);
  std::vector<int> p(s0 * s1 * n2 + 1), m;
  for (size_t i = 0; i < p.size(); ++i) p[i] = (int)i;
  m = p;
  il::Array3DEdit<int> e{p.data(), n0, n1, n2, s0, s1};
  il::Array3DView<int> v{p.data(), n0, n1, n2, s0, s1};
  for (int d = 0; d < 3; ++d) MC_CHECK(c, e.size(d) == (d == 0 ? n0 : d == 1 ? n1 : n2) && v.size(d) == e.size(d), "size(%d)", d);
  MC_CHECK(c, v.stride(0) == s0 && v.stride(1) == s1 && v.data() == p.data() && e.data() == p.data(), "stride() or data()");
  for (il::int_t k = 0; k < n2; ++k)
    for (il::int_t j = 0; j < n1; ++j)
      for (il::int_t i = 0; i < n0; ++i) {
        int* q = p.data() + (k * s1 + j) * s0 + i;
        MC_CHECK(c, &v(i, j, k) == q && &e(i, j, k) == q, "(%ld,%ld,%ld) denotes another element", (long)i, (long)j, (long)k);
        e(i, j, k) = -1;
        m[q - p.data()] = -1;
      }
  MC_CHECK(c, p == m, "writing through the view changed other memory");
}

MC_SUITE("1d<trivial>", body1<int>, 4, 5);
MC_SUITE("1d<class>", body1<Elem>, 4, 5);
MC_SUITE("Array2D", body2d<3>, 3, 4);
MC_SUITE("Array2D-larger", body2d<5>, 2, 2);
MC_SUITE("Array2C", body2c<3>, 3, 4);
MC_SUITE("Array2C-larger", body2c<5>, 2, 2);
MC_SUITE("StaticArray2D", (body_static<3, 2>), 1, 1);
MC_SUITE("StaticArray2D'", (body_static<2, 4>), 1, 1);
MC_SUITE("2d-class", body_class, 1, 1);
MC_SUITE("3d", body3, 1, 1);
