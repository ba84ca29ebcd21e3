// P36: elements of a trivial type which nobody has set hold the marker value in a debug
// build. (The arrays with up to four dimensions are driven by multi.cpp.)
#include <il/LowerArray2D.h>
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray2D.h>
#include <il/UpperArray2D.h>
#include <il/Array.h>
#include <complex>
#include <memory>
#include <vector>
#include "ilmc.h"
using il::int_t;
using mc::Ctx;

// --- the markers themselves -----------------------------------------------------
template <typename T> static void marker(Ctx& c, const char* what) {
  c.log("%s", what);
  const T d = il::defaultValue<T>();
  MC_CHECK(c, mc::marked(d), "%s: the marker is not itself", what);
  il::Array<T> a(int_t(3));
  for (int_t i = 0; i < 3; ++i) MC_CHECK(c, mc::marked(a[i]), "%s: an unset element of an array does not hold the marker", what);
  if (std::is_floating_point<T>::value) MC_CHECK(c, d != d, "%s: the marker is a number", what);
  if (std::is_integral<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value) MC_CHECK(c, d != T(0), "%s: the marker is zero", what);
}
static void markers(Ctx& c) {
  switch (c.pick(14)) {
    case 0: marker<bool>(c, "bool"); break;
    case 1: marker<char>(c, "char"); break;
    case 2: marker<signed char>(c, "signed char"); break;
    case 3: marker<unsigned char>(c, "unsigned char"); break;
    case 4: marker<short>(c, "short"); break;
    case 5: marker<unsigned short>(c, "unsigned short"); break;
    case 6: marker<int>(c, "int"); break;
    case 7: marker<unsigned int>(c, "unsigned int"); break;
    case 8: marker<long>(c, "long"); break;
    case 9: marker<unsigned long>(c, "unsigned long"); break;
    case 10: marker<float>(c, "float"); break;
    case 11: marker<double>(c, "double"); break;
    case 12: marker<long double>(c, "long double"); break;
    case 13: { il::Array<int_t> a(int_t(2)); MC_CHECK(c, mc::marked(a[0]) && mc::marked(a[1]), "il::int_t"); break; }
  }
}
MC_SUITE("markers of the types", markers, 1, 1);

// --- SmallArray --------------------------------------------------------------------
template <typename T, int S>
static void small(Ctx& c) {
  using A = il::SmallArray<T, S>;
  const int N = c.thorough ? 6 : 5;
  std::vector<int> m;  // -1: not set by anybody
  A a;
  auto check = [&](const char* what) {
    MC_CHECK(c, a.size() == (int_t)m.size(), "%s: wrong size", what);
    for (int_t i = 0; i < a.size(); ++i) {
      if (m[i] < 0) MC_CHECK(c, mc::marked(a[i]), "%s: the unset element %ld does not hold the marker value", what, (long)i);
      else MC_CHECK(c, a[i] == T(m[i]), "%s: element %ld lost its value", what, (long)i);
    }
  };
  if (c.flip()) { const int n = c.pick(N); c.log("SmallArray(%d)", n); a = A(int_t(n)); m.assign(n, -1); }
  check("constructed");
  for (int step = 0; step < c.bound; ++step) {
    std::string key = std::to_string(a.capacity()) + ":";
    for (int x : m) key += std::to_string(x) + ",";
    c.state(key, c.bound - step);
    switch (c.pick(5)) {
      case 0: { const int n = c.pick(N); c.log("Resize(%d)", n); a.Resize(n); m.resize(n, -1); break; }
      case 1: { const int n = c.pick(N); c.log("Reserve(%d)", n); a.Reserve(n); break; }
      case 2: c.log("Append(9)"); if (m.size() < 5) { a.Append(T(9)); m.push_back(9); } break;
      case 3: { c.log("set all"); for (int_t i = 0; i < a.size(); ++i) { a[i] = T(20 + i); m[i] = (int)(20 + i); } break; }
      case 4: { c.log("copy and move"); A b{a}; a = std::move(b); break; }
    }
    check("afterwards");
  }
}
MC_SUITE("unset elements of SmallArray<int,2>", (small<int, 2>), 3, 5);
MC_SUITE("unset elements of SmallArray<double,3>", (small<double, 3>), 3, 5);
MC_SUITE("unset elements of SmallArray<char,1>", (small<char, 1>), 3, 5);

// --- fixed-size and packed storages --------------------------------------------------
template <typename T, int n> static void st1(Ctx& c) {
  il::StaticArray<T, n> a;
  for (int_t i = 0; i < n; ++i) MC_CHECK(c, mc::marked(a[i]), "StaticArray: the unset element %ld does not hold the marker", (long)i);
}
template <typename A> static void st2(Ctx& c, int n0, int n1, const char* what) {
  c.log("%s %d x %d", what, n0, n1);
  // on memory which held something else
  std::vector<unsigned char> mem(sizeof(A) + 64, (unsigned char)0x5A);
  void* p = mem.data();
  size_t room = mem.size();
  p = std::align(alignof(A), sizeof(A), p, room);
  A* a = new (p) A;
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) MC_CHECK(c, mc::marked((*a)(i, j)), "%s: the unset element (%d, %d) does not hold the marker", what, i, j);
  a->~A();
}
static void fixed(Ctx& c) {
  switch (c.pick(7)) {
    case 0: st1<int, 1>(c); st1<int, 4>(c); break;
    case 1: st1<double, 3>(c); st1<char, 2>(c); break;
    case 2: st2<il::StaticArray2D<int, 2, 3>>(c, 2, 3, "StaticArray2D"); break;
    case 3: st2<il::StaticArray2D<double, 3, 1>>(c, 3, 1, "StaticArray2D"); break;
    case 4: st2<il::StaticArray2C<int, 2, 3>>(c, 2, 3, "StaticArray2C"); break;
    case 5: st2<il::StaticArray2C<double, 1, 3>>(c, 1, 3, "StaticArray2C"); break;
    case 6: {
      const int n = c.pick(6);
      c.log("packed, n = %d", n);
      il::LowerArray2D<double> l{n};
      il::UpperArray2D<double> u{n};
      il::LowerArray2D<int> li{n};
      il::UpperArray2D<int> ui{n};
      for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) {
        MC_CHECK(c, mc::marked(l(i, j)) && mc::marked(li(i, j)), "LowerArray2D: the unset element (%d, %d) does not hold the marker", i, j);
        MC_CHECK(c, mc::marked(u(j, i)) && mc::marked(ui(j, i)), "UpperArray2D: the unset element (%d, %d) does not hold the marker", j, i);
      }
    }
  }
}
MC_SUITE("unset elements of fixed-size and packed storages", fixed, 1, 1);
