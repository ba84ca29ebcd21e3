// P33: fixed-size arrays, every shape with extents 0..3 (2 in four dimensions).
#include <il/StaticArray.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <memory>
#include <vector>
#include "ilmc.h"
using il::int_t;
using mc::Ctx;
using mc::Elem;

using Pos = std::vector<int>;
// Adapters: extents, access by a position vector, documented storage offset.
template <typename A> struct Tr;
template <typename T, int_t n> struct Tr<il::StaticArray<T, n>> {
  using E = T;
  static std::vector<int> ext() { return {(int)n}; }
  static T& at(il::StaticArray<T, n>& a, const Pos& p) { return a[p[0]]; }
  static const T& at(const il::StaticArray<T, n>& a, const Pos& p) { return a[p[0]]; }
  static bool sizes(const il::StaticArray<T, n>& a) { return a.size() == n; }
  static constexpr bool c_order = false;
};
template <typename T, int_t n0, int_t n1> struct Tr<il::StaticArray2D<T, n0, n1>> {
  using E = T; using A = il::StaticArray2D<T, n0, n1>;
  static std::vector<int> ext() { return {(int)n0, (int)n1}; }
  static T& at(A& a, const Pos& p) { return a(p[0], p[1]); }
  static const T& at(const A& a, const Pos& p) { return a(p[0], p[1]); }
  static bool sizes(const A& a) { return a.size(0) == n0 && a.size(1) == n1; }
  static constexpr bool c_order = false;
};
template <typename T, int_t n0, int_t n1> struct Tr<il::StaticArray2C<T, n0, n1>> {
  using E = T; using A = il::StaticArray2C<T, n0, n1>;
  static std::vector<int> ext() { return {(int)n0, (int)n1}; }
  static T& at(A& a, const Pos& p) { return a(p[0], p[1]); }
  static const T& at(const A& a, const Pos& p) { return a(p[0], p[1]); }
  static bool sizes(const A& a) { return a.size(0) == n0 && a.size(1) == n1; }
  static constexpr bool c_order = true;
};
template <typename T, int_t n0, int_t n1, int_t n2> struct Tr<il::StaticArray3D<T, n0, n1, n2>> {
  using E = T; using A = il::StaticArray3D<T, n0, n1, n2>;
  static std::vector<int> ext() { return {(int)n0, (int)n1, (int)n2}; }
  static T& at(A& a, const Pos& p) { return a(p[0], p[1], p[2]); }
  static const T& at(const A& a, const Pos& p) { return a(p[0], p[1], p[2]); }
  static bool sizes(const A& a) { return a.size(0) == n0 && a.size(1) == n1 && a.size(2) == n2; }
  static constexpr bool c_order = false;
};
template <typename T, int_t n0, int_t n1, int_t n2, int_t n3> struct Tr<il::StaticArray4D<T, n0, n1, n2, n3>> {
  using E = T; using A = il::StaticArray4D<T, n0, n1, n2, n3>;
  static std::vector<int> ext() { return {(int)n0, (int)n1, (int)n2, (int)n3}; }
  static T& at(A& a, const Pos& p) { return a(p[0], p[1], p[2], p[3]); }
  static const T& at(const A& a, const Pos& p) { return a(p[0], p[1], p[2], p[3]); }
  static bool sizes(const A& a) { return a.size(0) == n0 && a.size(1) == n1 && a.size(2) == n2 && a.size(3) == n3; }
  static constexpr bool c_order = false;
};
static std::vector<Pos> positions(const std::vector<int>& e, bool c_order) {  // in storage order
  int n = 1;
  for (int x : e) n *= x;
  std::vector<Pos> r;
  for (int k = 0; k < n; ++k) {
    Pos p(e.size());
    int q = k;
    for (size_t d = 0; d < e.size(); ++d) {
      const size_t dd = c_order ? e.size() - 1 - d : d;
      p[dd] = q % e[dd];
      q /= e[dd];
    }
    r.push_back(p);
  }
  return r;
}
template <typename A>
static void same(Ctx& c, A& a, const std::vector<int>& m, const char* name) {
  using R = Tr<A>;
  const A& k = a;
  const auto ps = positions(R::ext(), R::c_order);
  MC_CHECK(c, R::sizes(k), "%s reports wrong sizes", name);
  MC_CHECK(c, k.data() == a.Data(), "%s: data() and Data() disagree", name);
  MC_CHECK(c, (const char*)k.data() >= (const char*)&a && (const char*)(k.data() + ps.size()) <= (const char*)(&a + 1), "%s: the elements do not lie inside the object", name);
  for (size_t i = 0; i < ps.size(); ++i) {
    MC_CHECK(c, &R::at(k, ps[i]) == k.data() + i && &R::at(a, ps[i]) == a.Data() + i, "%s: position %zu in the documented order is stored at %ld", name, i, (long)(&R::at(k, ps[i]) - k.data()));
    const int x = mc::get(R::at(k, ps[i]));
    MC_CHECK(c, x == m[i], "%s: the element stored at %zu is %d, expected %d", name, i, x, m[i]);
  }
}
template <typename A>
static void history(Ctx& c, A a0, std::vector<int> m0) {
  using R = Tr<A>;
  using T = typename R::E;
  const auto ps = positions(R::ext(), R::c_order);
  A a = a0, b(T(3));
  std::vector<int> ma = m0, mb(ps.size(), 3);
  same(c, a, ma, "a");
  same(c, b, mb, "b (value 3)");
  for (int step = 0; step < c.bound; ++step) {
    switch (c.pick(6)) {
      case 0: if (!ps.empty()) { const int k = c.pick((int)ps.size()); c.log("a at storage position %d = %d", k, 40 + step); R::at(a, ps[k]) = T(40 + step); ma[k] = 40 + step; } break;
      case 1: c.log("a = b"); a = b; ma = mb; break;
      case 2: c.log("b = a"); b = a; mb = ma; break;
      case 3: { c.log("z(a), modify z, a unchanged, b = move(z)"); A z{a}; auto mz = ma; same(c, z, mz, "z"); if (!ps.empty()) { R::at(z, ps.back()) = T(60 + step); mz.back() = 60 + step; } same(c, a, ma, "a"); same(c, z, mz, "z"); b = std::move(z); mb = mz; break; }
      case 4: { c.log("a = a"); A& r = a; a = r; break; }
      case 5: { c.log("Data() writes"); for (size_t k = 0; k < ps.size(); ++k) { a.Data()[k] = T(70 + (int)k + step); ma[k] = 70 + (int)k + step; } break; }
    }
    same(c, a, ma, "a");
    same(c, b, mb, "b");
    c.settle();
  }
}
template <typename A>
static void shape(Ctx& c) {
  using R = Tr<A>;
  using T = typename R::E;
  const int n = (int)positions(R::ext(), R::c_order).size();
  if (c.flip()) {
    A z(T(9));
    c.log("filled with 9");
    history<A>(c, z, std::vector<int>(n, 9));
  } else {
    A z{};
    c.log("default");
    std::vector<int> m(n, Elem::kDefault);
    if (il::isTrivial<T>::value)
      for (int k = 0; k < n; ++k) { z.Data()[k] = T(k + 1); m[k] = k + 1; }
    history<A>(c, z, m);
  }
}
template <typename T, int_t n0>
static void one(Ctx& c) {
  c.log("StaticArray %d", (int)n0);
  shape<il::StaticArray<T, n0>>(c);
}
template <typename T, int_t n0, int_t n1>
static void two(Ctx& c) {
  c.log("2 dimensions %d x %d", (int)n0, (int)n1);
  if (c.flip()) shape<il::StaticArray2D<T, n0, n1>>(c); else shape<il::StaticArray2C<T, n0, n1>>(c);
}
template <typename T, int_t n0, int_t n1>
static void three(Ctx& c) {
  c.log("StaticArray3D %d x %d x ?", (int)n0, (int)n1);
  switch (c.pick(4)) {
    case 0: shape<il::StaticArray3D<T, n0, n1, 0>>(c); break;
    case 1: shape<il::StaticArray3D<T, n0, n1, 1>>(c); break;
    case 2: shape<il::StaticArray3D<T, n0, n1, 2>>(c); break;
    case 3: shape<il::StaticArray3D<T, n0, n1, 3>>(c); break;
  }
}
template <typename T, int_t n0, int_t n1>
static void four(Ctx& c) {
  c.log("StaticArray4D %d x %d x ? x ?", (int)n0, (int)n1);
  switch (c.pick(6)) {
    case 0: shape<il::StaticArray4D<T, n0, n1, 1, 1>>(c); break;
    case 5: shape<il::StaticArray4D<T, n0, n1, 0, 2>>(c); break;
    case 1: shape<il::StaticArray4D<T, n0, n1, 1, 2>>(c); break;
    case 2: shape<il::StaticArray4D<T, n0, n1, 2, 3>>(c); break;
    case 3: shape<il::StaticArray4D<T, n0, n1, 3, 2>>(c); break;
    case 4: shape<il::StaticArray4D<T, n0, n1, 2, 0>>(c); break;
  }
}
template <typename T>
static void all1(Ctx& c) {
  switch (c.pick(4)) { case 0: one<T, 0>(c); break; case 1: one<T, 1>(c); break; case 2: one<T, 2>(c); break; case 3: one<T, 3>(c); break; }
}
#define GRID(F)                                                                                                              \
  switch (c.pick(16)) {                                                                                                      \
    case 0: F<T, 0, 0>(c); break; case 1: F<T, 0, 1>(c); break; case 2: F<T, 0, 2>(c); break; case 3: F<T, 0, 3>(c); break;  \
    case 4: F<T, 1, 0>(c); break; case 5: F<T, 1, 1>(c); break; case 6: F<T, 1, 2>(c); break; case 7: F<T, 1, 3>(c); break;  \
    case 8: F<T, 2, 0>(c); break; case 9: F<T, 2, 1>(c); break; case 10: F<T, 2, 2>(c); break; case 11: F<T, 2, 3>(c); break; \
    case 12: F<T, 3, 0>(c); break; case 13: F<T, 3, 1>(c); break; case 14: F<T, 3, 2>(c); break; case 15: F<T, 3, 3>(c); break; \
  }
template <typename T> static void all2(Ctx& c) { GRID(two) }
template <typename T> static void all3(Ctx& c) { GRID(three) }
template <typename T> static void all4(Ctx& c) { GRID(four) }

// Every list, with distinct values, for the shapes the list constructors accept;
// a list of another shape must be rejected where preconditions are checked.
template <typename F>
static void expect_abort(Ctx& c, bool bad, const char* what, F f) {
#ifdef NDEBUG
  if (bad) return;
  f();
#else
  bool threw = false;
  try { f(); } catch (il::AbortException&) { threw = true; }
  MC_CHECK(c, threw == bad, "%s: %s", what, bad ? "a list of another shape was accepted" : "a list of the right shape was rejected");
#endif
}
template <typename T>
static void lists(Ctx& c) {
  auto v = [](int x) { return T(x); };
  auto chk = [&](auto& a, std::vector<int> m) { same(c, a, m, "a"); history(c, a, m); };
  switch (c.pick(14)) {
    case 0: { il::StaticArray<T, 1> a{il::value, {v(1)}}; chk(a, {1}); break; }
    case 1: { il::StaticArray<T, 3> a{il::value, {v(1), v(2), v(3)}}; chk(a, {1, 2, 3}); break; }
    case 2: { il::StaticArray2D<T, 2, 3> a{il::value, {{v(1), v(2)}, {v(3), v(4)}, {v(5), v(6)}}}; chk(a, {1, 2, 3, 4, 5, 6}); MC_CHECK(c, mc::get(a(1, 0)) == 2 && mc::get(a(0, 2)) == 5, "the list is read by rows"); break; }
    case 3: { il::StaticArray2D<T, 3, 1> a{il::value, {{v(1), v(2), v(3)}}}; chk(a, {1, 2, 3}); break; }
    case 4: { il::StaticArray2C<T, 2, 3> a{il::value, {{v(1), v(2), v(3)}, {v(4), v(5), v(6)}}}; chk(a, {1, 2, 3, 4, 5, 6}); MC_CHECK(c, mc::get(a(1, 0)) == 4 && mc::get(a(0, 2)) == 3, "the list is read by columns"); break; }
    case 5: { il::StaticArray2C<T, 3, 1> a{il::value, {{v(1)}, {v(2)}, {v(3)}}}; chk(a, {1, 2, 3}); break; }
    case 6: { il::StaticArray3D<T, 1, 2, 3> a{il::value, {{{v(1)}, {v(2)}}, {{v(3)}, {v(4)}}, {{v(5)}, {v(6)}}}}; chk(a, {1, 2, 3, 4, 5, 6}); MC_CHECK(c, mc::get(a(0, 1, 2)) == 6 && mc::get(a(0, 1, 0)) == 2, "the list order is wrong"); break; }
    case 7: { il::StaticArray3D<T, 3, 2, 1> a{il::value, {{{v(1), v(2), v(3)}, {v(4), v(5), v(6)}}}}; chk(a, {1, 2, 3, 4, 5, 6}); break; }
    case 8: expect_abort(c, true, "StaticArray<2> of 3", [&] { il::StaticArray<T, 2> a{il::value, {v(1), v(2), v(3)}}; }); break;
    case 9: expect_abort(c, true, "StaticArray<2> of 1", [&] { il::StaticArray<T, 2> a{il::value, {v(1)}}; }); break;
    case 10: expect_abort(c, true, "StaticArray2D<2, 1> of 2 columns", [&] { il::StaticArray2D<T, 2, 1> a{il::value, {{v(1), v(2)}, {v(1), v(2)}}}; }); break;
    case 11: expect_abort(c, true, "StaticArray2D<2, 1> of 1 row", [&] { il::StaticArray2D<T, 2, 1> a{il::value, {{v(1)}}}; }); break;
    case 12: expect_abort(c, true, "StaticArray2C<1, 2> of 1 column", [&] { il::StaticArray2C<T, 1, 2> a{il::value, {{v(1)}}}; }); break;
    case 13: expect_abort(c, true, "StaticArray3D<1, 1, 2> of 1 slice", [&] { il::StaticArray3D<T, 1, 1, 2> a{il::value, {{{v(1)}}}}; }); break;
  }
}
// Larger shapes, from a list, a value and by default.
template <typename T, int_t n, int... k>
static void longList(Ctx& c, std::integer_sequence<int, k...>) {
  c.log("StaticArray %d from a list", (int)n);
  il::StaticArray<T, n> a{il::value, {T(k + 1)...}};
  std::vector<int> m{(k + 1)...};
  same(c, a, m, "a");
  shape<il::StaticArray<T, n>>(c);
}
template <typename T, int_t n> static void longArray(Ctx& c) { longList<T, n>(c, std::make_integer_sequence<int, (int)n>()); }
template <typename A> static void wide(Ctx& c, A a) {
  std::vector<int> m;
  for (size_t k = 0; k < positions(Tr<A>::ext(), Tr<A>::c_order).size(); ++k) m.push_back((int)k + 1);
  same(c, a, m, "a");
  history(c, a, m);
}
template <typename T>
static void large(Ctx& c) {
  auto v = [](int x) { return T(x); };
#define ROW(b, n) ROW##n(b)
#define ROW1(b) {v(b)}
#define ROW2(b) {v(b), v(b + 1)}
#define ROW5(b) {v(b), v(b + 1), v(b + 2), v(b + 3), v(b + 4)}
#define ROW9(b) {v(b), v(b + 1), v(b + 2), v(b + 3), v(b + 4), v(b + 5), v(b + 6), v(b + 7), v(b + 8)}
  switch (c.pick(21)) {
    case 0: longArray<T, 4>(c); break;
    case 1: longArray<T, 5>(c); break;
    case 2: longArray<T, 6>(c); break;
    case 3: longArray<T, 7>(c); break;
    case 4: longArray<T, 8>(c); break;
    case 5: longArray<T, 9>(c); break;
    case 6: longArray<T, 16>(c); break;
    case 7: longArray<T, 17>(c); break;
    case 8: longArray<T, 33>(c); break;
    case 9: wide(c, il::StaticArray2D<T, 9, 1>{il::value, {ROW(1, 9)}}); break;
    case 10: wide(c, il::StaticArray2D<T, 1, 9>{il::value, {ROW(1, 1), ROW(2, 1), ROW(3, 1), ROW(4, 1), ROW(5, 1), ROW(6, 1), ROW(7, 1), ROW(8, 1), ROW(9, 1)}}); break;
    case 11: wide(c, il::StaticArray2D<T, 5, 5>{il::value, {ROW(1, 5), ROW(6, 5), ROW(11, 5), ROW(16, 5), ROW(21, 5)}}); break;
    case 12: wide(c, il::StaticArray2C<T, 1, 9>{il::value, {ROW(1, 9)}}); break;
    case 13: wide(c, il::StaticArray2C<T, 9, 1>{il::value, {ROW(1, 1), ROW(2, 1), ROW(3, 1), ROW(4, 1), ROW(5, 1), ROW(6, 1), ROW(7, 1), ROW(8, 1), ROW(9, 1)}}); break;
    case 14: wide(c, il::StaticArray2C<T, 5, 5>{il::value, {ROW(1, 5), ROW(6, 5), ROW(11, 5), ROW(16, 5), ROW(21, 5)}}); break;
    case 15: wide(c, il::StaticArray3D<T, 5, 2, 5>{il::value, {{ROW(1, 5), ROW(6, 5)}, {ROW(11, 5), ROW(16, 5)}, {ROW(21, 5), ROW(26, 5)}, {ROW(31, 5), ROW(36, 5)}, {ROW(41, 5), ROW(46, 5)}}}); break;
    case 16: wide(c, il::StaticArray3D<T, 2, 5, 1>{il::value, {{ROW(1, 2), ROW(3, 2), ROW(5, 2), ROW(7, 2), ROW(9, 2)}}}); break;
    case 17: shape<il::StaticArray2D<T, 8, 5>>(c); break;
    case 18: shape<il::StaticArray2C<T, 5, 8>>(c); break;
    case 19: shape<il::StaticArray3D<T, 4, 5, 6>>(c); break;
    case 20: shape<il::StaticArray4D<T, 4, 2, 5, 4>>(c); break;
  }
}
// Views of fixed-size arrays denote the array.
template <int_t n0, int_t n1>
static void view2(Ctx& c) {
  il::StaticArray2D<int, n0, n1> a(0);
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) a(i, j) = 10 * i + j;
  il::Array2DView<int> v = a.view();
  il::Array2DEdit<int> e = a.Edit();
  MC_CHECK(c, v.size(0) == n0 && v.size(1) == n1 && e.size(0) == n0 && e.size(1) == n1, "the view has another shape");
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) { MC_CHECK(c, &v(i, j) == &a(i, j) && &e(i, j) == &a(i, j), "view(%d, %d) is another element", i, j); }
}
template <int_t n>
static void view1(Ctx& c) {
  il::StaticArray<int, n> a(0);
  for (int i = 0; i < n; ++i) a[i] = i;
  MC_CHECK(c, a.view().size() == n && a.view().data() == a.data() && a.Edit().size() == n && a.Edit().Data() == a.Data(), "the view is another array");
  for (int b = 0; b < n; ++b)
    for (int e = b; e <= n; ++e) {
      il::ArrayView<int> v = a.view(il::Range{b, e});
      il::ArrayEdit<int> w = a.Edit(il::Range{b, e});
      MC_CHECK(c, v.size() == e - b && w.size() == e - b && v.data() == a.data() + b && w.Data() == a.data() + b, "view(%d, %d) is wrong", b, e);
    }
}
static void views(Ctx& c) {
  switch (c.pick(9)) {
    case 0: view1<0>(c); break; case 1: view1<1>(c); break; case 2: view1<4>(c); break;
    case 3: view2<1, 1>(c); break; case 4: view2<2, 3>(c); break; case 5: view2<3, 2>(c); break; case 6: view2<1, 4>(c); break; case 7: view2<4, 1>(c); break;
    case 8: { il::StaticArray<Elem, 3> a(Elem(1)); a.Back() = Elem(7); const auto& k = a; MC_CHECK(c, mc::get(a[2]) == 7 && &k.back() == &k[2] && mc::get(a[1]) == 1, "Back() is not the last element"); break; }
  }
}
// Shapes which do not fit 8 or 16 bits
template <typename A>
static void vast(Ctx& c) {
  using T = typename Tr<A>::E;
  const int n = (int)positions(Tr<A>::ext(), Tr<A>::c_order).size();
  c.log("%d elements", n);
  std::vector<int> m((size_t)n, 9);
  std::unique_ptr<A> a{c.flip() ? new A(T(9)) : new A{}};
  if (mc::get(a->data()[0]) != 9 || il::isTrivial<T>::value) for (int k = 0; k < n; ++k) { if (mc::get(a->data()[k]) != 9) { m[(size_t)k] = Elem::kDefault; if (il::isTrivial<T>::value) a->Data()[k] = T(9), m[(size_t)k] = 9; } }
  same(c, *a, m, "a");
  std::unique_ptr<A> b{new A(*a)};
  for (int k = 0; k < n; ++k) { a->Data()[k] = T(k); m[(size_t)k] = k; }
  same(c, *a, m, "a");
  if (c.flip()) { c.log("assigned"); *b = *a; }
  else { c.log("assigned a moved copy"); A z{*a}; *b = std::move(z); }
  same(c, *b, m, "b");
  std::unique_ptr<A> d{new A(std::move(*b))};
  same(c, *d, m, "d");
  same(c, *a, m, "a");
}
template <typename T> static void vastAll(Ctx& c) {
  switch (c.pick(14)) {
    case 0: vast<il::StaticArray<T, 129>>(c); break;
    case 1: vast<il::StaticArray<T, 257>>(c); break;
    case 2: vast<il::StaticArray<T, 65537>>(c); break;
    case 3: vast<il::StaticArray2D<T, 257, 256>>(c); break;
    case 4: vast<il::StaticArray2D<T, 1, 65537>>(c); break;
    case 5: vast<il::StaticArray2D<T, 65537, 1>>(c); break;
    case 6: vast<il::StaticArray2C<T, 257, 256>>(c); break;
    case 7: vast<il::StaticArray2C<T, 1, 65537>>(c); break;
    case 8: vast<il::StaticArray2C<T, 65537, 1>>(c); break;
    case 9: vast<il::StaticArray3D<T, 50, 40, 35>>(c); break;
    case 10: vast<il::StaticArray3D<T, 1, 257, 257>>(c); break;
    case 11: vast<il::StaticArray3D<T, 257, 1, 257>>(c); break;
    case 12: vast<il::StaticArray4D<T, 17, 16, 16, 17>>(c); break;
    case 13: vast<il::StaticArray4D<T, 2, 33000, 1, 2>>(c); break;
  }
}
#define ALL(T)                                           \
  MC_SUITE("1 dimension", all1<T>, 3, 5);        \
  MC_SUITE("2 dimensions", all2<T>, 2, 3);       \
  MC_SUITE("3 dimensions", all3<T>, 1, 2);       \
  MC_SUITE("4 dimensions", all4<T>, 1, 2);       \
  MC_SUITE("larger shapes", large<T>, 1, 2, true, 3); \
  MC_SUITE("very large shapes", vastAll<T>, 1, 1); \
  MC_SUITE("lists", lists<T>, 2, 3);
ALL(ELEM)
MC_SUITE("views", views, 1, 1);
