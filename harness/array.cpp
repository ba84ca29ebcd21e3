// P01: il::Array against std::vector, every operation sequence up to a depth.
#include <il/Array.h>
#include <vector>
#include "ilmc.h"

extern "C" void* __asan_region_is_poisoned(void* beg, size_t size);

using mc::Ctx;
using mc::Elem;

template <typename T> constexpr bool trivial() { return il::isTrivial<T>::value; }

template <typename T>
struct World {
  il::Array<T> a, b;
  std::vector<int> ma, mb;
};

template <typename T>
static void verify1(Ctx& c, const il::Array<T>& a, const std::vector<int>& m, const char* name) {
  const il::int_t n = static_cast<il::int_t>(m.size());
  MC_CHECK(c, a.size() == n, "%s: size() is %ld, expected %ld", name, (long)a.size(), (long)n);
  MC_CHECK(c, a.capacity() >= a.size(), "%s: capacity() %ld < size() %ld", name, (long)a.capacity(), (long)a.size());
  if (a.capacity() > 0)
    MC_CHECK(c, !__asan_region_is_poisoned((void*)a.data(), a.capacity() * sizeof(T)),
             "%s: the %ld elements of the reported capacity do not lie in memory owned by the array", name, (long)a.capacity());
  const T* p = a.begin();
  MC_CHECK(c, a.end() - p == n && a.cend() - a.cbegin() == n, "%s: begin()/end() do not span the array", name);
  for (il::int_t i = 0; i < n; ++i, ++p) {
    const int x = mc::get(a[i]);
    MC_CHECK(c, x == m[i], "%s[%ld] is %d, expected %d", name, (long)i, x, m[i]);
    MC_CHECK(c, p == &a[i] && a.data() + i == p, "%s: iteration and indexing disagree at %ld", name, (long)i);
  }
  if (n > 0) MC_CHECK(c, mc::get(a.back()) == m[n - 1], "%s.back() is wrong", name);
}

template <typename T>
static void verify(Ctx& c, World<T>& w) {
  verify1(c, w.a, w.ma, "a");
  verify1(c, w.b, w.mb, "b");
  c.settle();
}
template <typename T>
static std::vector<int> contents(const il::Array<T>& a) {
  std::vector<int> m;
  for (il::int_t i = 0; i < a.size(); ++i) m.push_back(mc::get(a[i]));
  return m;
}

// New elements of a Resize(n) have the default value for class types and an
// unspecified one for trivial types: the harness then writes known values.
template <typename T>
static void fresh(Ctx& c, il::Array<T>& a, std::vector<int>& m, il::int_t n, int val) {
  const il::int_t old = static_cast<il::int_t>(m.size());
  MC_CHECK(c, a.size() == n, "size() is %ld after resizing to %ld", (long)a.size(), (long)n);
  m.resize(n, Elem::kDefault);
  if (trivial<T>())
    for (il::int_t i = old; i < n; ++i) {
      a[i] = T(val + static_cast<int>(i));
      m[i] = val + static_cast<int>(i);
    }
}

// Sizes to resize or reserve to, and positions: all the small ones, or the ones that
// matter for a large array.
template <bool L> static int extent(Ctx& c, il::int_t size, il::int_t capacity) {
  if (!L) return c.pick(6);
  const int n = (int)size, k = (int)capacity;
  return c.of({0, 1, n / 2, n > 0 ? n - 1 : 0, n, n + 1, k > 0 ? k - 1 : 0, k, k + 1, 2 * n, 2 * n + 1, 3 * n + 7});
}
template <bool L> static int place(Ctx& c, il::int_t n) {
  return !L ? c.pick((int)n) : n == 1 ? 0 : c.of({0, (int)n / 2, (int)n - 1});
}
template <typename T, bool L = false>
static void body(Ctx& c) {
  World<T> w;
  // --- initial states
  {
    const int k = L ? 10 : c.pick(10);
    switch (k) {
      case 10: {
        static const int size[] = {4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025};
        const int n = size[c.pick(c.thorough ? 23 : 17)];
        const int room = c.of({0, 1, n});
        c.log("a: %d elements, capacity %d", n, n + room);
        w.a = il::Array<T>{n, T(0)};
        w.a.Reserve(n + room);
        for (int i = 0; i < n; ++i) { w.a[i] = T(i + 1); w.ma.push_back(i + 1); }
        break;
      }
      case 0: c.log("a: default"); break;
      case 1: case 2: case 3: {
        c.log("a{%d, 5}", k);
        w.a = il::Array<T>{k, T(5)};
        w.ma.assign(k, 5);
        break;
      }
      case 4: {
        c.log("a{value,{1,2,3}}");
        w.a = il::Array<T>{il::value, {T(1), T(2), T(3)}};
        w.ma = {1, 2, 3};
        break;
      }
      case 5: {
        c.log("a{2, emplace, 8}");
        w.a = il::Array<T>{2, il::emplace, 8};
        w.ma = {8, 8};
        break;
      }
      case 6: {
        c.log("a{3}");
        w.a = il::Array<T>(il::int_t{3});
        fresh(c, w.a, w.ma, 3, 20);
        break;
      }
      case 7: {
        c.log("a from view of {1,2,3}[1,3)");
        il::Array<T> z{il::value, {T(1), T(2), T(3)}};
        w.a = il::Array<T>{z.view(il::Range{1, 3})};
        w.ma = {2, 3};
        break;
      }
      case 8: {
        c.log("a: reserve 4, append 6");
        w.a.Reserve(4);
        w.a.Append(T(6));
        w.ma = {6};
        break;
      }
      case 9: {
        c.log("a{4, 5} resized to 2");
        w.a = il::Array<T>{4, T(5)};
        w.a.Resize(2);
        w.ma = {5, 5};
        break;
      }
    }
    const int kb = L ? c.of({0, 2, 4}) : c.pick(4);
    switch (kb) {
      case 0: break;
      case 1: c.log("b{1, 30}"); w.b = il::Array<T>{1, T(30)}; w.mb = {30}; break;
      case 2: c.log("b{value,{31,32,33,34}}"); w.b = il::Array<T>{il::value, {T(31), T(32), T(33), T(34)}}; w.mb = {31, 32, 33, 34}; break;
      case 3: c.log("b: reserve 3"); w.b.Reserve(3); break;
      case 4: {
        c.log("b: 90 elements");
        w.b.Reserve(100);
        for (int i = 0; i < 90; ++i) { w.b.Append(T(i + 2000)); w.mb.push_back(i + 2000); }
        break;
      }
    }
    verify(c, w);
  }
  for (int step = 0; step < c.bound; ++step) {
    {
      std::string key;
      key.append(reinterpret_cast<const char*>(w.ma.data()), w.ma.size() * sizeof(int));
      key += "|" + std::to_string(w.a.capacity()) + (w.a.data() ? "d" : "n") + "|";
      key.append(reinterpret_cast<const char*>(w.mb.data()), w.mb.size() * sizeof(int));
      key += "|" + std::to_string(w.b.capacity()) + (w.b.data() ? "d" : "n");
      c.state(key, c.bound - step);
    }
    const int val = L ? 5000 + 10000 * step : 100 + 10 * step;
    il::Array<T>& a = w.a;
    std::vector<int>& m = w.ma;
    const il::int_t n = a.size();
    const int op = c.pick(23);
    switch (op) {
      case 0: { c.log("Append(const& %d)", val); const T x(val); a.Append(x); m.push_back(val); break; }
      case 1: { c.log("Append(&& %d)", val); a.Append(T(val)); m.push_back(val); break; }
      case 2: { c.log("Append(emplace, %d)", val); a.Append(il::emplace, val); m.push_back(val); break; }
      case 3: {
        if (n == 0) break;
        const il::int_t i = c.flip() ? n - 1 : 0;
        c.log("Append(a[%ld])", (long)i);
        const T& r = a[i];
        a.Append(r);
        m.push_back(m[i]);
        break;
      }
      case 4: {
        if (n == 0) break;
        c.log("Append(std::move(a[0]))");
        a.Append(std::move(a[0]));
        m.push_back(m[0]);
        if (!trivial<T>()) m[0] = Elem::kMoved;
        break;
      }
      case 5: {
        if (n == 0) break;
        c.log("Append(emplace, a[0])");
        a.Append(il::emplace, const_cast<const il::Array<T>&>(a)[0]);
        m.push_back(m[0]);
        break;
      }
      case 6: { const int k = extent<L>(c, n, a.capacity()); c.log("Resize(%d)", k); a.Resize(k); fresh(c, a, m, k, val); break; }
      case 7: { const int k = extent<L>(c, n, a.capacity()); c.log("Resize(%d, %d)", k, val); a.Resize(k, T(val)); m.resize(k, val); break; }
      case 8: { const int k = extent<L>(c, n, a.capacity()); c.log("Resize(%d, emplace, %d)", k, val); a.Resize(k, il::emplace, val); m.resize(k, val); break; }
      case 9: {
        if (n == 0) break;
        const int k = static_cast<int>(n) + c.pick(3);
        c.log("Resize(%d, a[0])", k);
        const int x = m[0];
        a.Resize(k, a[0]);
        m.resize(k, x);
        break;
      }
      case 10: {
        const int k = extent<L>(c, n, a.capacity());
        c.log("Reserve(%d)", k);
        const il::int_t before = a.capacity();
        a.Reserve(k);
        MC_CHECK(c, a.capacity() >= k && a.capacity() >= before, "capacity() is %ld after Reserve(%d) from %ld", (long)a.capacity(), k, (long)before);
        break;
      }
      case 11: { c.log("Set(%d)", val); a.Set(T(val)); for (auto& x : m) x = val; break; }
      case 12: { if (n == 0) break; c.log("Set(a[last])"); const int x = m[n - 1]; a.Set(a[n - 1]); for (auto& y : m) y = x; break; }
      case 13: { c.log("a = b"); a = w.b; m = w.mb; break; }
      case 14: { c.log("a = a"); il::Array<T>& r = a; a = r; break; }
      case 15: { c.log("a = move(b)"); a = std::move(w.b); m = w.mb; w.mb = contents(w.b); break; }
      case 16: { c.log("a = move(a)"); il::Array<T>& r = a; a = std::move(r); break; }
      case 17: {
        c.log("copy-construct z(a), z.Append, z.Set; discard");
        il::Array<T> z{a};
        std::vector<int> mz = m;
        verify1(c, z, mz, "z");
        z.Append(T(val)); mz.push_back(val);
        verify1(c, z, mz, "z");
        verify1(c, a, m, "a");
        z.Set(T(val + 1)); for (auto& y : mz) y = val + 1;
        verify1(c, z, mz, "z");
        break;
      }
      case 18: {
        c.log("move-construct z(move(a)); a = move(z)");
        il::Array<T> z{std::move(a)};
        std::vector<int> mz = m;
        verify1(c, z, mz, "z");
        m = contents(a);
        a.Append(T(val)); m.push_back(val);
        verify1(c, a, m, "a");
        a = std::move(z);
        m = mz;
        break;
      }
      case 19: {
        if (n == 0) break;
        const il::int_t i = place<L>(c, n);
        c.log("a[%ld] = %d", (long)i, val);
        a[i] = T(val); m[i] = val;
        break;
      }
      case 20: { if (n == 0) break; c.log("Back() = %d", val); a.Back() = T(val); m[n - 1] = val; break; }
      case 21: { c.log("swap a, b"); std::swap(w.a, w.b); std::swap(w.ma, w.mb); break; }
      case 22: {
        c.log("for (x : a) x = ...");
        int k = val;
        for (T& x : a) x = T(k++);
        k = val;
        for (auto& x : m) x = k++;
        il::ArrayView<T> v = a.view();
        MC_CHECK(c, v.size() == a.size(), "view size");
        break;
      }
    }
    verify(c, w);
  }
}

// Every construction of every small size.
template <typename T>
static void constructions(Ctx& c) {
  const int n = c.pick(6), how = c.pick(6);
  c.log("construction %d of size %d", how, n);
  std::vector<int> m;
  auto check = [&](il::Array<T>&& a) {
    if (how == 0 || how == 4) { if (trivial<T>()) for (int i = 0; i < n; ++i) { a[i] = T(3 * i); m.push_back(3 * i); } else m.assign(n, Elem::kDefault); }
    verify1(c, a, m, "a");
    il::Array<T> b(a);
    verify1(c, b, m, "the copy");
    const T x(77);
    a.Append(x);
    std::vector<int> ma = m;
    ma.push_back(77);
    verify1(c, a, ma, "a");
    verify1(c, b, m, "the copy");
    il::Array<T> d(b.view());
    verify1(c, d, m, "the copy of a view");
    c.settle();
  };
  auto iota = [&] { for (int i = 0; i < n; ++i) m.push_back(i + 1); };
  switch (how) {
    case 0: check(il::Array<T>((il::int_t)n)); break;
    case 1: m.assign(n, 5); check(il::Array<T>((il::int_t)n, T(5))); break;
    case 2: m.assign(n, 6); check(il::Array<T>((il::int_t)n, il::emplace, 6)); break;
    case 3:
      iota();
      switch (n) {
        case 0: check(il::Array<T>(il::value, {})); break;
        case 1: check(il::Array<T>(il::value, {T(1)})); break;
        case 2: check(il::Array<T>(il::value, {T(1), T(2)})); break;
        case 3: check(il::Array<T>(il::value, {T(1), T(2), T(3)})); break;
        case 4: check(il::Array<T>(il::value, {T(1), T(2), T(3), T(4)})); break;
        default: check(il::Array<T>(il::value, {T(1), T(2), T(3), T(4), T(5)}));
      }
      break;
    case 4: { il::Array<T> z; z.Resize(n); check(std::move(z)); } break;
    default: {  // from every window of an array
      il::Array<T> z{il::value, {T(1), T(2), T(3), T(4), T(5)}};
      const int k = c.pick(5), e = k + c.pick(6 - k);
      if (e - k != n) return;
      for (int i = k; i < e; ++i) m.push_back(i + 1);
      check(il::Array<T>(z.view(il::Range{k, e})));
    }
  }
}
MC_SUITE("constructions<trivial>", constructions<int>, 1, 1);
MC_SUITE("constructions<class>", constructions<Elem>, 1, 1);
MC_SUITE("array<trivial>", body<int>, 4, 7);
MC_SUITE("array<class>", body<Elem>, 4, 6);
MC_SUITE("larger arrays<trivial>", (body<int, true>), 2, 2, true, 3);
MC_SUITE("larger arrays of double", (body<double, true>), 1, 2, true, 3);
MC_SUITE("larger arrays<class>", (body<Elem, true>), 2, 2, true, 3);

// Sizes beyond 16 bits: one operation, checked element by element.
template <typename T>
static void vast(Ctx& c) {
  const int n = c.of({4096, 32767, 32768, 65535, 65536, 65537, 100000}), how = c.pick(12);
  auto val = [](il::int_t i) { return T((int)(i * 7 % 113)); };
  auto check = [&](const il::Array<T>& a, il::int_t size, il::int_t kept, int rest, const char* what) {
    MC_CHECK(c, a.size() == size && a.capacity() >= size && a.end() - a.begin() == size, "%s: size %ld, capacity %ld, expected a size of %ld", what, (long)a.size(), (long)a.capacity(), (long)size);
    for (il::int_t i = 0; i < size; ++i) {
      const int want = i < kept ? mc::get(val(i)) : rest;
      if (mc::get(a[i]) != want) c.fail("%s: element %ld is %d, expected %d", what, (long)i, mc::get(a[i]), want);
    }
    if (a.capacity() > 0) MC_CHECK(c, !__asan_region_is_poisoned((void*)a.data(), a.capacity() * sizeof(T)), "%s: the capacity is not in memory owned by the array", what);
  };
  c.log("%d elements, operation %d", n, how);
  il::Array<T> a{n, T(5)};
  check(a, n, 0, 5, "constructed");
  for (il::int_t i = 0; i < n; ++i) a[i] = val(i);
  check(a, n, n, 0, "written");
  switch (how) {
    case 0: a.Append(T(9)); check(a, n + 1, n, 9, "one more"); break;
    case 1: a.Append(a[n - 1]); check(a, n + 1, n, mc::get(val(n - 1)), "its own element"); break;
    case 2: a.Resize(n + 3, T(9)); check(a, n + 3, n, 9, "resized"); break;
    case 3: a.Resize(n - 3); check(a, n - 3, n, 0, "shrunk"); a.Append(T(9)); check(a, n - 2, n - 3, 9, "shrunk, one more"); break;
    case 4: a.Reserve(2 * n); check(a, n, n, 0, "reserved"); MC_CHECK(c, a.capacity() >= 2 * n, "capacity %ld", (long)a.capacity()); break;
    case 5: { il::Array<T> b{a}; check(b, n, n, 0, "copied"); b[0] = T(99); check(a, n, n, 0, "the source"); break; }
    case 6: { il::Array<T> b{3, T(1)}; b = a; check(b, n, n, 0, "assigned"); break; }
    case 7: { il::Array<T> b{3, T(1)}; b = std::move(a); check(b, n, n, 0, "moved"); break; }
    case 8: { il::Array<T> b{n + 5, T(1)}; b = a; check(b, n, n, 0, "assigned to a larger one"); break; }
    case 9: a.Set(T(3)); check(a, n, 0, 3, "set"); break;
    case 10: { il::Array<T> b{a.view(il::Range{1, n - 1})}; MC_CHECK(c, b.size() == n - 2, "a copy of a range has %ld elements", (long)b.size()); for (il::int_t i = 0; i < n - 2; ++i) if (mc::get(b[i]) != mc::get(val(i + 1))) c.fail("a copy of a range: element %ld is wrong", (long)i); break; }
    default: { il::Array<T> b; for (il::int_t i = 0; i < n; ++i) b.Append(val(i)); check(b, n, n, 0, "appended"); }
  }
  c.settle();
}
MC_SUITE("very large arrays<int>", vast<int>, 1, 1);
MC_SUITE("very large arrays<char>", vast<signed char>, 1, 1);
MC_SUITE("very large arrays<double>", vast<double>, 1, 1);
MC_SUITE("very large arrays<class>", vast<Elem>, 1, 1);
