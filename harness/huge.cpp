// Containers, texts and files far larger than the other suites reach, around the
// limits of 8, 15 and 16 bits: nothing may depend on a size that wraps.
// PART is the number of the property.
#include <algorithm>
#include <cstdint>
#include <deque>
#include <string>
#include <vector>
#include "ilmc.h"
using il::int_t;
using mc::Ctx;

static int size(Ctx& c) {
  static const std::vector<int> few{255, 256, 257, 32768, 65535, 65536, 65537, 70001};
  static const std::vector<int> all{127, 128, 129, 254, 255, 256, 257, 258, 1023, 1024, 1025, 4095, 4096, 4097, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 66000, 70001, 98304, 131071, 131072, 131073, 200003};
  return c.of(c.thorough ? all : few);
}
static int val(int_t i) { return (int)(i * 2654435761u >> 3); }

#if PART == 3
#include <il/SmallArray.h>
static void smallArrays(Ctx& c) {
  using A = il::SmallArray<int, 5>;
  const int n = size(c), how = c.pick(5);
  A a = how == 0 ? A{n} : how == 1 ? A{n, 7} : A{};
  c.log("%d elements, operation %d", n, how);
  if (how == 2) { a.Reserve(n); for (int i = 0; i < n; ++i) a.Append(val(i)); }
  else if (how == 3) for (int i = 0; i < n; ++i) a.Append(val(i));
  else if (how == 4) { a.Resize(n); }
  if (how == 1) for (int i = 0; i < n; ++i) MC_CHECK(c, a[i] == 7, "element %d of a filled array is %d", i, a[i]);
  if (how != 2 && how != 3) for (int i = 0; i < n; ++i) a[i] = val(i);
  auto same = [&](const A& x, int m, const char* what) {
    MC_CHECK(c, x.size() == m && x.capacity() >= m, "%s: the size is %td, expected %d", what, x.size(), m);
    for (int i = 0; i < m; ++i) MC_CHECK(c, x[i] == val(i), "%s: element %d is wrong", what, i);
    MC_CHECK(c, m == 0 || x.back() == val(m - 1), "%s: back() is wrong", what);
  };
  same(a, n, "the array");
  A b{a};
  same(b, n, "copy");
  a[n / 2] = -1;
  same(b, n, "untouched copy");
  a = b;
  same(a, n, "assigned");
  A d{std::move(a)};
  same(d, n, "moved");
  a = std::move(d);
  same(a, n, "move-assigned");
  a.Reserve(n + 300);
  same(a, n, "reserved");
  a.Append(val(n));
  same(a, n + 1, "appended");
  a.Resize(n + 256);
  for (int i = n; i < n + 256; ++i) a[i] = val(i);
  same(a, n + 256, "resized");
  a.Resize(n - 1);
  same(a, n - 1, "shrunk");
  a.Resize(3);
  same(a, 3, "shrunk to a few");
}
MC_SUITE("very large small arrays", smallArrays, 1, 1);
#endif

#if PART == 4
#include <il/Deque.h>
static void deques(Ctx& c) {  // a long queue whose front goes round
  const int cap = size(c), full = c.pick(3), start = c.pick(3);
  il::Deque<int> q{};
  if (c.flip()) q = il::Deque<int>{cap}; else q.Reserve(cap);
  std::deque<int> r;
  const int fill = full == 0 ? cap : full == 1 ? cap - 1 : cap / 2;
  c.log("capacity %d, %d elements, start %d", cap, fill, start);
  int k = 0;
  auto ends = [&]() {
    MC_CHECK(c, q.size() == (int_t)r.size() && q.capacity() == cap, "size() is %td of %td, expected %zu of %d", q.size(), q.capacity(), r.size(), cap);
    if (!r.empty()) MC_CHECK(c, q.front() == r.front() && q.back() == r.back(), "front() or back() is wrong with %zu elements", r.size());
  };
  if (start == 2) for (int i = 0; i < 1 + cap / 3; ++i) { q.PushFront(val(k)); r.push_front(val(k++)); ends(); }
  while ((int)r.size() < fill) {
    if (start == 1) { q.PushFront(val(k)); r.push_front(val(k++)); } else { q.PushBack(val(k)); r.push_back(val(k++)); }
    ends();
  }
  for (int i = 0; i < cap + cap / 2; ++i) {  // once and a half round
    if (start == 1) { q.PopBack(); r.pop_back(); q.PushFront(val(k)); r.push_front(val(k++)); }
    else { q.PopFront(); r.pop_front(); q.PushBack(val(k)); r.push_back(val(k++)); }
    ends();
  }
  il::Deque<int> z{q}, y{std::move(q)};
  std::deque<int> s = r;
  q = z;
  ends();
  while (!r.empty()) { q.PopFront(); r.pop_front(); ends(); }
  while (!s.empty()) { MC_CHECK(c, y.size() == (int_t)s.size() && y.back() == s.back() && y.front() == s.front(), "a moved queue is wrong with %zu elements", s.size()); y.PopBack(); s.pop_back(); }
  MC_CHECK(c, y.size() == 0, "an empty queue has %td elements", y.size());
}
MC_SUITE("very long queues", deques, 1, 1);
#endif

#if PART == 5 || PART == 6
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array3C.h>
#include <il/Array3D.h>
#include <il/Array4C.h>
#include <il/Array4D.h>
// One interface for the arrays of 2 to 4 dimensions
struct Shape { int n[4]; };
template <typename A> struct Dim;
template <> struct Dim<il::Array2D<int>> { static const int d = 2; };
template <> struct Dim<il::Array2C<int>> { static const int d = 2; };
template <> struct Dim<il::Array3D<int>> { static const int d = 3; };
template <> struct Dim<il::Array3C<int>> { static const int d = 3; };
template <> struct Dim<il::Array4D<int>> { static const int d = 4; };
template <> struct Dim<il::Array4C<int>> { static const int d = 4; };
template <typename A, int d> struct Api;
template <typename A> struct Api<A, 2> {
  static A make(const Shape& s) { return A(s.n[0], s.n[1]); }
  static void resize(A& a, const Shape& s) { a.Resize(s.n[0], s.n[1]); }
  static void reserve(A& a, const Shape& s) { a.Reserve(s.n[0], s.n[1]); }
  static int& at(A& a, const int* i) { return a(i[0], i[1]); }
};
template <typename A> struct Api<A, 3> {
  static A make(const Shape& s) { return A(s.n[0], s.n[1], s.n[2]); }
  static void resize(A& a, const Shape& s) { a.Resize(s.n[0], s.n[1], s.n[2]); }
  static void reserve(A& a, const Shape& s) { a.Reserve(s.n[0], s.n[1], s.n[2]); }
  static int& at(A& a, const int* i) { return a(i[0], i[1], i[2]); }
};
template <typename A> struct Api<A, 4> {
  static A make(const Shape& s) { return A(s.n[0], s.n[1], s.n[2], s.n[3]); }
  static void resize(A& a, const Shape& s) { a.Resize(s.n[0], s.n[1], s.n[2], s.n[3]); }
  static void reserve(A&, const Shape&) {}
  static int& at(A& a, const int* i) { return a(i[0], i[1], i[2], i[3]); }
};
template <typename A> static void shapes(Ctx& c) {
  const int d = Dim<A>::d;
  using P = Api<A, d>;
  const int n = d == 4 && !c.thorough ? c.of({256, 65536, 65537}) : size(c), axis = c.pick(d), how = d == 3 && !c.thorough ? 1 + c.pick(2) : c.pick(d == 2 || n < 1000 ? 4 : 3);
  Shape s{};
  for (int k = 0; k < d; ++k) s.n[k] = k == axis ? n : how == 3 && n < 1000 && k == (axis + 1) % d ? 300 : 2;
  c.log("%d along dimension %d, operation %d", n, axis, how);
  auto value = [&](const int* i) { int r = 0; for (int k = 0; k < d; ++k) r = r * 31 + val(i[k]) + k; return r; };
  auto each = [&](const Shape& t, auto f) {
    int i[4] = {0, 0, 0, 0};
    for (;;) {
      f(i);
      int k = 0;
      while (k < d && ++i[k] == t.n[k]) i[k++] = 0;
      if (k == d) return;
    }
  };
  auto fill = [&](A& a, const Shape& t) { each(t, [&](const int* i) { P::at(a, i) = value(i); }); };
  auto same = [&](A& a, const Shape& t, const char* what) {
    int_t cap = 1;
    for (int k = 0; k < d; ++k) { MC_CHECK(c, a.size(k) == t.n[k], "%s: size(%d) is %td, expected %d", what, k, a.size(k), t.n[k]); cap *= a.capacity(k); }
    std::vector<bool> used((size_t)cap);
    each(t, [&](const int* i) {
      MC_CHECK(c, P::at(a, i) == value(i), "%s: the entry (%d, %d, %d, %d) is wrong", what, i[0], i[1], i[2], i[3]);
      const int_t off = &P::at(a, i) - a.data();
      MC_CHECK(c, off >= 0 && off < cap && !used[(size_t)off], "%s: the entry (%d, %d, %d, %d) lies outside or shares its storage", what, i[0], i[1], i[2], i[3]);
      used[(size_t)off] = true;
    });
  };
  Shape bigger = s, more = s, less = s;
  bigger.n[axis] += 300;
  more.n[axis] += 1;
  less.n[axis] -= 2;
  A a = P::make(s);
  fill(a, s);
  same(a, s, "the array");
  if (how == 0) { P::reserve(a, bigger); same(a, s, "reserved"); P::resize(a, more); fill(a, more); same(a, more, "resized within its capacity"); }
  if (how == 1) {
    P::resize(a, more);
    each(s, [&](const int* i) { MC_CHECK(c, P::at(a, i) == value(i), "resized: the entry (%d, %d, %d, %d) was lost", i[0], i[1], i[2], i[3]); });
    fill(a, more);
    same(a, more, "resized");
    P::resize(a, less);
    same(a, less, "shrunk");
  }
  if (how == 2) {
    A b{a};
    same(b, s, "copy");
    P::at(a, std::vector<int>(4, 1).data()) = -5;
    same(b, s, "untouched copy");
    A e{std::move(b)};
    same(e, s, "moved");
    a = e;
    same(a, s, "assigned");
    a = std::move(e);
    same(a, s, "move-assigned");
    P::reserve(a, bigger);
    A g{a};
    same(g, s, "copy of a padded array");
    P::resize(a, less);
    a = g;
    same(a, s, "assigned over a padded array");
  }
}
#endif
#if PART == 5
MC_SUITE("very large Array2D", shapes<il::Array2D<int>>, 1, 1);
MC_SUITE("very large Array2C", shapes<il::Array2C<int>>, 1, 1);
#elif PART == 6
MC_SUITE("very large Array3D", shapes<il::Array3D<int>>, 1, 1);
MC_SUITE("very large Array3C", shapes<il::Array3C<int>>, 1, 1);
MC_SUITE("very large Array4D", shapes<il::Array4D<int>>, 1, 1);
MC_SUITE("very large Array4C", shapes<il::Array4C<int>>, 1, 1);
#endif

#if PART == 7
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array3D.h>
#include <il/container/3d/Array3DView.h>
static il::Range range(Ctx& c, int n) {
  if (n < 4) return il::Range{0, n};
  switch (c.pick(4)) {
    case 0: return il::Range{0, n};
    case 1: return il::Range{1, n - 1};
    case 2: return il::Range{n / 2, n};
    default: return il::Range{n - 2, n};
  }
}
static void views1(Ctx& c) {
  const int n = size(c);
  il::Array<int> a{n, 5};
  const il::Range r = range(c, n), q = range(c, (int)(r.end - r.begin));
  c.log("%d elements, [%td, %td) then [%td, %td)", n, r.begin, r.end, q.begin, q.end);
  il::ArrayView<int> v = a.view(r).view(q);
  il::ArrayEdit<int> e = a.Edit(r).Edit(q);
  const int_t m = q.end - q.begin, at = r.begin + q.begin;
  MC_CHECK(c, v.size() == m && e.size() == m, "the size of a view is %td or %td, expected %td", v.size(), e.size(), m);
  for (int_t i = 0; i < m; ++i) MC_CHECK(c, &v[i] == a.data() + at + i && &e[i] == a.data() + at + i, "element %td of a view is another one", i);
  for (int_t i = 0; i < m; ++i) e[i] = val(i);
  for (int_t i = 0; i < n; ++i) MC_CHECK(c, a[i] == (i >= at && i < at + m ? val(i - at) : 5), "writing through a view left %d in element %td", a[i], i);
}
MC_SUITE("views of very large arrays", views1, 1, 1);

template <typename A, bool column_order> static void views2(Ctx& c) {
  const int n = size(c), axis = c.pick(2), other = n < 1000 ? 260 : 3;
  const int n0 = axis == 0 ? n : other, n1 = axis == 0 ? other : n;
  A a(n0, n1);
  if (c.flip()) a.Reserve(n0 + 3, n1 + 1);
  c.log("%d x %d", n0, n1);
  const il::Range r0 = range(c, n0), r1 = range(c, n1);
  for (int j = 0; j < n1; ++j) for (int i = 0; i < n0; ++i) a(i, j) = -1;
  auto check = [&](auto v, auto e, int_t m0, int_t m1, int_t at0, int_t at1, const char* what) {
    MC_CHECK(c, v.size(0) == m0 && v.size(1) == m1 && e.size(0) == m0 && e.size(1) == m1, "%s: %td x %td, expected %td x %td", what, v.size(0), v.size(1), m0, m1);
    for (int_t j = 0; j < m1; ++j)
      for (int_t i = 0; i < m0; ++i) MC_CHECK(c, &v(i, j) == &a(at0 + i, at1 + j) && &e(i, j) == &a(at0 + i, at1 + j), "%s: the element (%td, %td) is another one", what, i, j);
  };
  for (int j = 0; j < n1; ++j) for (int i = 0; i < n0; ++i) MC_CHECK(c, &a(i, j) - a.data() == (column_order ? i + j * a.stride(1) : j + i * a.stride(0)), "the element (%d, %d) lies elsewhere", i, j);
  const int_t m0 = r0.end - r0.begin, m1 = r1.end - r1.begin;
  check(a.view(), a.Edit(), n0, n1, 0, 0, "the whole array");
  check(a.view(r0, r1), a.Edit().Edit(r0, r1), m0, m1, r0.begin, r1.begin, "a block");
  if constexpr (column_order) check(a.view().view(r0, r1), a.Edit().Edit(r0, r1), m0, m1, r0.begin, r1.begin, "a block of a view");
  auto e = a.Edit().Edit(r0, r1);
  for (int_t j = 0; j < m1; ++j) for (int_t i = 0; i < m0; ++i) e(i, j) = val(i + 3 * j) & 0xFFFFFF;
  for (int_t j = 0; j < n1; ++j)
    for (int_t i = 0; i < n0; ++i) {
      const int_t p = i - r0.begin, q = j - r1.begin;
      MC_CHECK(c, a(i, j) == (p >= 0 && p < m0 && q >= 0 && q < m1 ? val(p + 3 * q) & 0xFFFFFF : -1), "writing through a view left %d in (%td, %td)", a(i, j), i, j);
    }
}
MC_SUITE("views of very large Array2D", (views2<il::Array2D<int>, true>), 1, 1);
MC_SUITE("views of very large Array2C", (views2<il::Array2C<int>, false>), 1, 1);

static void lines(Ctx& c) {  // parts of a column of Array2D and of a row of Array2C
  const int n = size(c), other = n < 1000 ? 260 : 3;
  const il::Range r = range(c, n);
  il::Array2D<int> a(n, other);
  il::Array2C<int> b(other, n);
  il::Array2D<int> t(other, n);
  for (int k = 0; k < other; ++k) {
    il::ArrayView<int> v = a.view(r, k);
    il::ArrayEdit<int> e = a.Edit(r, k);
    il::ArrayView<int> w = b.view(k, r);
    MC_CHECK(c, v.size() == r.end - r.begin && e.size() == v.size() && w.size() == v.size(), "a line has %td elements", v.size());
    for (int_t i = 0; i < v.size(); ++i) MC_CHECK(c, &v[i] == &a(r.begin + i, k) && &e[i] == &v[i] && &w[i] == &b(k, r.begin + i), "element %td of a line is another one", i);
  }
  for (int_t j = 0; j < n; ++j) {
    il::ArrayView<int> v = t.view(il::Range{0, other}, j);
    for (int_t i = 0; i < other; ++i) MC_CHECK(c, &v[i] == t.data() + j * t.stride(1) + i, "element %td of column %td is another one", i, j);
  }
}
MC_SUITE("lines of very large matrices", lines, 1, 1);

static void views3(Ctx& c) {
  const int n = size(c), axis = c.pick(3);
  const int s[3] = {axis == 0 ? n : 2, axis == 1 ? n : 3, axis == 2 ? n : 2};
  const int_t s0 = s[0] + c.pick(2), s1 = s[1] + c.pick(2);
  std::vector<int> a((size_t)(s0 * s1 * s[2]));
  il::Array3DView<int> v{a.data(), s[0], s[1], s[2], s0, s1};
  il::Array3DEdit<int> e{a.data(), s[0], s[1], s[2], s0, s1};
  for (int k = 0; k < s[2]; ++k)
    for (int j = 0; j < s[1]; ++j)
      for (int i = 0; i < s[0]; ++i) MC_CHECK(c, &v(i, j, k) == a.data() + i + s0 * (j + s1 * k) && &e(i, j, k) == &v(i, j, k), "the element (%d, %d, %d) is another one", i, j, k);
}
MC_SUITE("views of very large Array3D", views3, 1, 1);
#endif

#if PART == 12
#include <il/String.h>
static std::string enc(int r) {
  std::string s;
  if (r < 0x80) s += (char)r;
  else if (r < 0x800) { s += (char)(0xC0 | r >> 6); s += (char)(0x80 | (r & 63)); }
  else if (r < 0x10000) { s += (char)(0xE0 | r >> 12); s += (char)(0x80 | (r >> 6 & 63)); s += (char)(0x80 | (r & 63)); }
  else { s += (char)(0xF0 | r >> 18); s += (char)(0x80 | (r >> 12 & 63)); s += (char)(0x80 | (r >> 6 & 63)); s += (char)(0x80 | (r & 63)); }
  return s;
}
static void texts(Ctx& c) {
  const int n = size(c), r = c.of({0x61, 0xE9, 0x20AC, 0x1F600}), how = c.pick(5), before = c.of({0, 1, 30});
  const std::string piece = enc(r);
  il::String s(il::StringType::Ascii, std::string(before, '-').data(), before);
  std::string m(before, '-');
  c.log("U+%04X %d times after %d bytes, operation %d", r, n, before, how);
  auto all = [&]() { std::string w; for (int i = 0; i < n; ++i) w += piece; return w; };
  bool wide = r >= 0x80;
  switch (how) {
    case 0: if (r < 0x80) s.Append((int_t)n, (char)r); else s.Append((int_t)n, r); m += all(); break;
    case 1: s.Append((int_t)n, r); m += all(); break;
    case 2: if (n > 1000 && (n != 65536 || before != 0)) return; for (int i = 0; i < n; ++i) { s.Append(r); m += piece; } break;
    case 3: s.Append((int_t)n, 'x'); m += std::string(n, 'x'); s.Append(r); m += piece; s.Append((int_t)3, 'y'); m += "yyy"; break;
    default: {  // one rune far into a text
      const std::string w = std::string(n, 'x') + piece + "z";
      s.Append(wide ? il::StringType::Utf8 : il::StringType::Ascii, w.data(), (int_t)w.size());
      m += w;
      MC_CHECK(c, il::isUtf8(w.data(), (int_t)w.size()) && il::isAscii(w.data(), (int_t)w.size()) == !wide, "a text is misjudged");
      std::string bad = w;
      bad[n] = (char)0xFF;
      MC_CHECK(c, !il::isUtf8(bad.data(), (int_t)bad.size()) && !il::isAscii(bad.data(), (int_t)bad.size()), "a wrong byte at %d is not seen", n);
      bad = w.substr(0, n) + (char)0xC3;
      MC_CHECK(c, !il::isUtf8(bad.data(), (int_t)bad.size()), "a cut code point at %d is not seen", n);
    }
  }
  MC_CHECK(c, s.size() == (int_t)m.size() && memcmp(s.data(), m.data(), m.size()) == 0 && s.asCString()[m.size()] == 0, "the text has %td bytes, expected %zu, or other bytes", s.size(), m.size());
  MC_CHECK(c, s.type() == (wide ? il::StringType::Utf8 : il::StringType::Ascii), "the encoding reported is wrong");
  const il::StringView v = s.view();
  int_t i = 0, k = 0;
  const int_t pieces = before + (how == 3 ? n + 4 : how == 4 ? n + 2 : n);
  while (i < s.size()) {
    const int x = v.rune(i);
    const int expected = k < before ? '-' : how < 3 ? r : k < before + n ? 'x' : k == before + n ? r : how == 3 ? 'y' : 'z';
    MC_CHECK(c, x == expected, "rune %td is U+%04X, expected U+%04X", k, x, expected);
    i = v.nextRune(i);
    ++k;
  }
  MC_CHECK(c, i == s.size() && k == pieces, "%td runes are visited, expected %td", k, pieces);
  const std::string q = m + m;
  s.Append(s);
  MC_CHECK(c, s.size() == (int_t)q.size() && memcmp(s.data(), q.data(), q.size()) == 0, "appending the text to itself is wrong");
}
MC_SUITE("very long texts", texts, 1, 1);
#endif

#if PART == 14
#include <il/UTF16String.h>
#include <il/String.h>
#include <il/unicode.h>
static void texts16(Ctx& c) {
  using S = il::UTF16String;
  const int n = size(c), r = c.of({0x61, 0xE9, 0x20AC, 0x1F600}), how = c.pick(5), before = c.of({0, 1, 20});
  // appending one by one, as the conversions do, takes a time proportional to the square of the length
  if (n > 1000 && ((how == 0 && (r < 0x10000 || n != 65536 || before != 0)) || (how == 2 && (r != 0xE9 || n != 65537 || before != 0)))) return;
  std::u16string m(before, u'-'), unit;
  if (r < 0x10000) unit += (char16_t)r;
  else { unit += (char16_t)(0xD800 + ((r - 0x10000) >> 10)); unit += (char16_t)(0xDC00 + ((r - 0x10000) & 0x3FF)); }
  S s(m.c_str());
  c.log("U+%04X %d times after %d units, operation %d", r, n, before, how);
  auto all = [&]() { std::u16string w; for (int i = 0; i < n; ++i) w += unit; return w; };
  switch (how) {
    case 0: s.Append((int_t)n, r); m += all(); break;
    case 1: if (r < 0x80) s.Append((int_t)n, (char)r); else s.Append(all().c_str()); m += all(); break;
    case 2: for (int i = 0; i < n; ++i) { s.Append(r); m += unit; } break;
    case 3: { S z(all().c_str()); s.Append(z); m += all(); break; }
    default: s.Reserve(n); MC_CHECK(c, s.capacity() >= n, "the capacity is %td", s.capacity()); s.Append((int_t)(n - 1), 'x'); m += std::u16string(n - 1, u'x'); s.Append(r); m += unit; break;
  }
  auto same = [&](const S& x, const std::u16string& w, const char* what) {
    MC_CHECK(c, x.size() == (int_t)w.size() && x.capacity() >= x.size() && memcmp(x.data(), w.data(), 2 * w.size() + 2) == 0, "%s: the text has %td units, expected %zu, or other units", what, x.size(), w.size());
  };
  same(s, m, "the text");
  const bool convert = n < 1000 || (how == 1 && before == 0 && (c.thorough ? n > 65000 && n < 66000 : n == 65536) && (c.thorough || r == 0x61 || r == 0x20AC));
  const il::String t = convert ? il::toUtf8(s) : il::String{};
  if (convert) {
  const S u = il::toUtf16(t);
  same(u, m, "converted and back");
  size_t wide = r < 0x80 ? 1 : r < 0x800 ? 2 : r < 0x10000 ? 3 : 4;
  const size_t expected = before + (how == 4 ? (size_t)n - 1 + wide : (size_t)n * wide);
  MC_CHECK(c, t.size() == (int_t)expected, "the conversion to UTF-8 has %td bytes, expected %zu", t.size(), expected);
  MC_CHECK(c, u == s, "equal texts differ");
  }
  S z{s};
  same(z, m, "copy");
  z.Append('q');
  MC_CHECK(c, !(z == s), "texts of different lengths are equal");
  S y((m.substr(0, m.size() - 1) + u'!').c_str());
  MC_CHECK(c, !(y == s), "texts which differ at the end are equal");
  S x{std::move(z)};
  same(x, m + u'q', "moved");
  z = x;
  same(z, m + u'q', "assigned");
  x = std::move(z);
  same(x, m + u'q', "move-assigned");
  x.Append(x);
  same(x, m + u'q' + m + u'q', "appended to itself");
  int_t i = 0, k = 0;
  while (i < s.size()) {
    const int e = k < before ? '-' : how == 4 && k < before + n - 1 ? 'x' : r;
    MC_CHECK(c, s.rune(i) == e, "rune %td is U+%04X", k, s.rune(i));
    i = s.nextRune(i);
    ++k;
  }
  MC_CHECK(c, k == before + n, "%td runes are visited, expected %d", k, before + n);
}
MC_SUITE("very long texts", texts16, 1, 1);
#endif

#if PART == 16
#include <il/Info.h>
#include <il/Status.h>
static void reports(Ctx& c) {
  const int n = size(c), how = c.pick(4);
  il::Info a{};
  const std::string t(n, 'x'), key(n, 'k');
  c.log("length %d, operation %d", n, how);
  a.Set("first", (int_t)11);
  int_t count = 0;
  switch (how) {
    case 0: a.Set("text", t.c_str()); break;
    case 1: a.Set(key.c_str(), 2.5); break;
    case 2: a.Set(key.c_str(), t.c_str()); break;
    default: for (int i = 0; i < n / 20; ++i) { a.Set(("key" + std::to_string(i)).c_str(), (int_t)i); ++count; } break;
  }
  a.Set("last", (int_t)13);
  auto same = [&](const il::Info& x, int_t last, const char* what) {
    MC_CHECK(c, x.toInteger("first") == 11 && x.toInteger("last") == last, "%s: an entry next to a long one is wrong", what);
    MC_CHECK(c, !x.found(x.search("absent")), "%s: an absent key is found", what);
    if (how == 0) MC_CHECK(c, t == x.asCString("text"), "%s: a text of length %d is wrong", what, n);
    if (how == 1) MC_CHECK(c, x.toDouble(key.c_str()) == 2.5, "%s: the entry of a long key is wrong", what);
    if (how == 2) MC_CHECK(c, t == x.asCString(key.c_str()), "%s: the text of a long key is wrong", what);
    if (how >= 1) MC_CHECK(c, !x.found(x.search(key.substr(0, n - 1).c_str())) && !x.found(x.search((key + "k").c_str())), "%s: the beginning of a key is found", what);
    for (int_t i = 0; i < count; i += 37) MC_CHECK(c, x.toInteger(("key" + std::to_string(i)).c_str()) == i, "%s: entry %td is wrong", what, i);
  };
  same(a, 13, "the report");
  il::Info b{a};
  a.Set("last", (int_t)14);
  same(a, 14, "set again");
  same(b, 13, "copy");
  il::Info d{std::move(a)};
  same(d, 14, "moved");
  a = b;
  same(a, 13, "assigned");
  b = std::move(d);
  same(b, 14, "move-assigned");
  il::Status st{};
  st.SetError(il::Error::ParseString);
  if (how == 0) st.SetInfo("text", t.c_str());
  st.SetInfo("line", (int_t)n);
  il::Status su{std::move(st)};
  MC_CHECK(c, !su.Ok() && su.toInteger("line") == n && (how != 0 || t == su.asCString("text")), "a status has lost a long entry");
}
MC_SUITE("very long reports", reports, 1, 1);
#endif

#if PART == 18
#include <il/algorithmArray.h>
#include <il/algorithmArray2D.h>
static void searches(Ctx& c) {
  const int n = size(c), step = c.pick(3);
  il::Array<int> a{n};
  for (int i = 0; i < n; ++i) a[i] = step == 0 ? i : step == 1 ? 2 * i - n : 4 * (i / 3);
  c.log("%d elements, kind %d", n, step);
  for (int x = a[0] - 2; x <= a[n - 1] + 2; ++x) {
    const int_t p = il::binarySearch(a, x);
    const bool in = std::binary_search(a.data(), a.data() + n, x);
    MC_CHECK(c, in ? p >= 0 && p < n && a[p] == x : p < 0, "binarySearch of %d in %d elements gives %td", x, n, p);
  }
}
MC_SUITE("searches in very large arrays", searches, 1, 1);
static void extrema(Ctx& c) {
  const int n = size(c), at = c.of({0, 1, n / 2, n - 2, n - 1}), from = c.of({0, 1, n / 2, n - 2}), to = c.of({n, n - 1});
  il::Array<int> a{n};
  for (int i = 0; i < n; ++i) a[i] = val(i) % 1000;
  c.log("%d elements, the extremum at %d, range [%d, %d)", n, at, from, to);
  a[at] = 5000;
  const il::Range r{from, to};
  auto first = [&](int sign, int b, int e) { int k = b; for (int i = b; i < e; ++i) if (sign * a[i] > sign * a[k]) k = i; return k; };
  for (int sign = 1; sign >= -1; sign -= 2) {
    a[at] = 5000 * sign;
    if (to > from) {
      MC_CHECK(c, il::max(a, r) == a[first(1, from, to)] && il::min(a, r) == a[first(-1, from, to)], "an extremum of a range is wrong");
      MC_CHECK(c, il::indexMax(a, r) == first(1, from, to) && il::indexMin(a, r) == first(-1, from, to), "the index of an extremum of a range is wrong");
      int m = 0;
      for (int i = from; i < to; ++i) m = std::max(m, std::abs(a[i]));
      MC_CHECK(c, il::maxAbs(a, r) == m, "the largest magnitude of a range is wrong");
    }
    MC_CHECK(c, il::max(a) == a[first(1, 0, n)] && il::min(a) == a[first(-1, 0, n)] && il::maxAbs(a) == 5000, "an extremum is wrong");
    MC_CHECK(c, il::indexMax(a) == first(1, 0, n) && il::indexMin(a) == first(-1, 0, n), "the index of an extremum is wrong");
  }
}
MC_SUITE("extrema of very large arrays", extrema, 1, 1);
static void sorts(Ctx& c) {
  const int n = size(c), kind = c.pick(5);
  il::Array<int> a{n};
  for (int i = 0; i < n; ++i) a[i] = kind == 0 ? val(i) : kind == 1 ? n - i : kind == 2 ? i % 7 : kind == 3 ? (i < n / 2 ? i : n - i) : (i & 1 ? i : n - i);
  std::vector<int> v(a.data(), a.data() + n);
  std::sort(v.begin(), v.end());
  const il::Array<int> b = a;
  const il::Array<int> d = il::sort(b);
  MC_CHECK(c, memcmp(b.data(), a.data(), sizeof(int) * n) == 0, "sorting a copy changed its argument");
  il::sort(il::io, a);
  MC_CHECK(c, a.size() == n && d.size() == n, "sorting changed the size");
  for (int i = 0; i < n; ++i) MC_CHECK(c, a[i] == v[i] && d[i] == v[i], "element %d of %d sorted ones is wrong", i, n);
}
MC_SUITE("sorts of very large arrays", sorts, 1, 1);
#endif

#if PART == 25
#include "memfs.h"
#include <il/File.h>
static void files(Ctx& c) {
  using mc::fs;
  const long n = 300000;
  static const std::string d = [] { std::string s; for (long i = 0; i < n; ++i) s += (char)(val(i) >> 7); return s; }();
  fs() = mc::MemFs();
  fs().files["x"] = d;
  const int buffer = c.of({0, 1, 255, 256, 257, 4096, 32768, 65535, 65536, 65537, 100000});
  const int m = size(c);
  const int s0 = c.of({0, 1, m, 65535, 65536, 65537});
  il::Status st{};
  il::File f{il::String("x"), il::FileMode::Read, buffer, il::io, st};
  if (!st.Ok()) { c.fail("a file could not be opened"); return; }
  std::vector<char> p((size_t)m);
  long pos = 0;
  c.log("buffer of %d bytes, reads of %d bytes after %d", buffer, m, s0);
  bool good = true;
  auto skip = [&](int k) { f.Skip((size_t)k, il::io, st); good = good && (st.Ok() || pos + k > n); pos += k; };
  auto read = [&](int k, int size) {
    if (!good) return;
    const long bytes = (long)k * size;
    memset(p.data(), 0x55, p.size());
    f.Read((int_t)k, (size_t)size, il::io, p.data(), st);
    const bool ok = st.Ok();
    if (ok != (pos + bytes <= n)) { good = false; c.log("reading %ld bytes at %ld: %d", bytes, pos, ok); return; }
    if (ok && memcmp(p.data(), d.data() + pos, (size_t)bytes) != 0) { good = false; c.log("reading %ld bytes at %ld gave other bytes", bytes, pos); return; }
    pos = ok ? pos + bytes : n + 1;
  };
  read(1, 3);
  skip(s0);
  if (pos <= n) read(m, 1);
  if (pos <= n) read(1, 7);
  if (pos <= n) skip(s0);
  if (pos <= n) read(m / 4, 4);
  if (pos <= n) read(1, m);
  if (pos <= n) read(2, 1);
  f.Close(il::io, st);
  const bool closed = st.Ok();
  MC_CHECK(c, good, "a read returned other bytes than those of the file, or the wrong status");
  MC_CHECK(c, closed, "closing failed");
}
MC_SUITE("very long reads and skips", files, 1, 1);
#endif

#if PART == 34
#include <il/Tree.h>
template <int N> static void branches(Ctx& c) {  // long branches of which the nodes have high indices
  const int kind = c.pick(3);
  int depth = 0;
  for (int64_t nodes = 1; nodes < (c.thorough ? 1000000 : 200000); nodes = nodes * N + 1) ++depth;
  const bool reserved = c.flip();
  il::Tree<int, N> t = reserved ? il::Tree<int, N>(depth) : il::Tree<int, N>();
  std::vector<il::spot_t> s{t.root()};
  std::vector<int> at;
  c.log("a branch of depth %d, kind %d", depth, kind);
  t.Set(s[0], -1);
  for (int d = 0; d < depth; ++d) {
    const int i = kind == 0 ? N - 1 : kind == 1 ? d % N : (d * d + 1) % N;
    t.AddChild(s.back(), i);
    at.push_back(i);
    s.push_back(t.child(s.back(), i));
    t.Set(s.back(), d);
  }
  auto same = [&](const il::Tree<int, N>& u, const char* what) {
    il::spot_t p = u.root();
    for (int d = 0; d <= depth; ++d) {
      MC_CHECK(c, p.index == s[d].index && u.value(p) == d - 1 && !u.isEmpty(p), "%s: the node of depth %d has value %d", what, d, u.value(p));
      if (d > 0) MC_CHECK(c, u.parent(p).index == s[d - 1].index, "%s: the parent of the node of depth %d is another one", what, d);
      for (int i = 0; i < N; ++i) MC_CHECK(c, u.hasChild(p, i) == (d < depth && i == at[d]), "%s: the children of the node of depth %d are wrong", what, d);
      if (d < depth) p = u.child(p, at[d]);
    }
    MC_CHECK(c, u.depth() == depth, "%s: depth() is %td, expected %d", what, u.depth(), depth);
  };
  same(t, "the tree");
  il::Tree<int, N> u{t};
  same(u, "copy");
  t = std::move(u);
  same(t, "moved");
}
MC_SUITE("branches of a very large binary tree", branches<2>, 1, 1);
MC_SUITE("branches of a very large ternary tree", branches<3>, 1, 1);
MC_SUITE("branches of a very large tree of eight children", branches<8>, 1, 1);
MC_SUITE("branches of a very large tree of sixty children", branches<60>, 1, 1);
#endif
