// P03: il::SmallArray against a plain sequence, every operation sequence up to a
// depth around the inline-buffer size.
#include <il/SmallArray.h>
#include <vector>
#include "ilmc.h"

extern "C" void* __asan_region_is_poisoned(void* beg, size_t size);

using mc::Ctx;
using mc::Elem;
template <typename T> constexpr bool trivial() { return il::isTrivial<T>::value; }

template <typename T, int S>
static void verify1(Ctx& c, const il::SmallArray<T, S>& a, const std::vector<int>& m, const char* name) {
  const il::int_t n = static_cast<il::int_t>(m.size());
  MC_CHECK(c, a.size() == n, "%s: size() is %ld, expected %ld", name, (long)a.size(), (long)n);
  MC_CHECK(c, a.capacity() >= a.size(), "%s: capacity() %ld < size() %ld", name, (long)a.capacity(), (long)a.size());
  if (a.capacity() > 0)
    MC_CHECK(c, !__asan_region_is_poisoned((void*)a.data(), a.capacity() * sizeof(T)),
             "%s: the %ld elements of the reported capacity do not lie in memory owned by the array", name, (long)a.capacity());
  const char* lo = reinterpret_cast<const char*>(&a);
  const bool in = (const char*)a.data() >= lo && (const char*)a.data() < lo + sizeof a;
  if (in) MC_CHECK(c, a.capacity() <= S, "%s: capacity %ld claimed for an inline buffer of %d", name, (long)a.capacity(), S);
  for (il::int_t i = 0; i < n; ++i) {
    const int x = mc::get(a[i]);
    MC_CHECK(c, x == m[i], "%s[%ld] is %d, expected %d", name, (long)i, x, m[i]);
    MC_CHECK(c, &a[i] == a.data() + i, "%s: data() and indexing disagree at %ld", name, (long)i);
  }
  if (n > 0) MC_CHECK(c, mc::get(a.back()) == m[n - 1], "%s.back() is wrong", name);
  il::ArrayView<T> v = a.view();
  MC_CHECK(c, v.size() == n && v.data() == a.data(), "%s.view() does not denote the array", name);
}
template <typename T, int S>
static std::vector<int> contents(const il::SmallArray<T, S>& a) {
  std::vector<int> m;
  for (il::int_t i = 0; i < a.size(); ++i) m.push_back(mc::get(a[i]));
  return m;
}
template <typename T, int S>
static void fresh(il::SmallArray<T, S>& a, std::vector<int>& m, int n, int val) {
  const int old = (int)m.size();
  m.resize(n, Elem::kDefault);
  if (trivial<T>())
    for (int i = old; i < n; ++i) { a[i] = T(val + i); m[i] = val + i; }
}
template <typename T, int S>
static bool inl(const il::SmallArray<T, S>& a) {
  const char* lo = reinterpret_cast<const char*>(&a);
  return (const char*)a.data() >= lo && (const char*)a.data() < lo + sizeof a;
}
template <typename T, int S>
static std::string key(const il::SmallArray<T, S>& a, const std::vector<int>& m) {
  std::string k = std::to_string(a.capacity()) + (inl<T, S>(a) ? "i" : "h") + ":";
  k.append(reinterpret_cast<const char*>(m.data()), m.size() * sizeof(int));
  return k + "|";
}

// For the larger arrays, only the sizes and positions around the limits
template <int S> static int around(Ctx& c, int size, int capacity, int most) {
  if (S <= 3) return c.pick(most);
  return c.of({0, 1, size, size + 1, S - 1, S, S + 1, capacity, capacity + 1, 2 * S, 2 * S + 1, 5 * S});
}
template <typename T, int S>
static void body(Ctx& c) {
  using A = il::SmallArray<T, S>;
  A a, b;
  std::vector<int> m, mb;
  auto verify = [&]() { verify1<T, S>(c, a, m, "a"); verify1<T, S>(c, b, mb, "b"); c.settle(); };
  auto grow = [&](A& x, std::vector<int>& mx, int n, int v) {
    for (int i = 0; i < n; ++i) { x.Append(T(v + i)); mx.push_back(v + i); }
  };
  switch (c.pick(4)) {
    case 0: { const int k = around<S>(c, 0, 0, S + 3); c.log("a: %d appends", k); grow(a, m, k, 1); break; }
    case 1: {
      const int k = around<S>(c, 0, 0, S + 3);
      c.log("a from {%d, 5}", k);
      A z(k, T(5)); std::vector<int> mz(k, 5);
      verify1<T, S>(c, z, mz, "z");
      for (int i = 0; i < k; ++i) a.Append(z[i]);
      m = mz;
      break;
    }
    case 2: {
      const int k = around<S>(c, 0, 0, S + 3);
      c.log("a from {%d}", k);
      A z(static_cast<il::int_t>(k)); std::vector<int> mz;
      MC_CHECK(c, z.size() == k, "size() is %ld for an array built with %d elements", (long)z.size(), k);
      fresh<T, S>(z, mz, k, 20);
      verify1<T, S>(c, z, mz, "z");
      a = z; m = mz;
      break;
    }
    case 3: {
      c.log("a from {value, {..}}");
      if (c.flip()) { A z{il::value, {T(1), T(2), T(3), T(4)}}; m = {1, 2, 3, 4}; verify1<T, S>(c, z, m, "z"); a = z; }
      else { A z{il::value, {T(1)}}; m = {1}; verify1<T, S>(c, z, m, "z"); a = z; }
      break;
    }
  }
  switch (c.pick(5)) {
    case 0: break;
    case 1: c.log("b: 1 append"); grow(b, mb, 1, 30); break;
    case 2: c.log("b: S appends"); grow(b, mb, S, 30); break;
    case 3: c.log("b: S+2 appends"); grow(b, mb, S + 2, 30); break;
    case 4: c.log("b: S+2 appends, Resize(1)"); grow(b, mb, S + 2, 30); b.Resize(1); mb.resize(1); break;
  }
  verify();
  for (int step = 0; step < c.bound; ++step) {
    c.state(key<T, S>(a, m) + key<T, S>(b, mb), c.bound - step);
    const int val = S <= 3 ? 100 + 10 * step : 2000 + 1000 * step;
    const int n = (int)m.size();
    switch (c.pick(17)) {
      case 0: { c.log("Append(const&)"); const T x(val); a.Append(x); m.push_back(val); break; }
      case 1: { c.log("Append(&&)"); a.Append(T(val)); m.push_back(val); break; }
      case 2: { c.log("Append(args)"); a.Append(val); m.push_back(val); break; }
      case 3: { if (!n) break; const int i = c.pick(2) ? n - 1 : 0; c.log("Append(a[%d]) const", i); const T& r = a[i]; a.Append(r); m.push_back(m[i]); break; }
      case 4: { if (!n) break; c.log("Append(a[0]) non const"); a.Append(a[0]); m.push_back(m[0]); break; }
      case 5: {
        if (!n) break;
        c.log("Append(move(a[0]))");
        a.Append(std::move(a[0]));
        m.push_back(m[0]);
        const int x = mc::get(a[0]);
        if (!trivial<T>() && x == Elem::kMoved) m[0] = x;
        break;
      }
      case 6: {
        const int k = around<S>(c, n, (int)a.capacity(), S + 4);
        c.log("Resize(%d)", k);
        const il::int_t cap = a.capacity();
        const T* p = a.data();
        a.Resize(k);
        MC_CHECK(c, a.size() == k, "size() is %ld after Resize(%d)", (long)a.size(), k);
        if (k <= cap) MC_CHECK(c, a.data() == p && a.capacity() == cap, "reallocated by a Resize within the capacity");
        fresh<T, S>(a, m, k, val);
        break;
      }
      case 7: {
        const int k = around<S>(c, n, (int)a.capacity(), S + 4);
        c.log("Reserve(%d)", k);
        const il::int_t cap = a.capacity();
        a.Reserve(k);
        MC_CHECK(c, a.capacity() >= k && a.capacity() >= cap, "capacity() is %ld after Reserve(%d) from %ld", (long)a.capacity(), k, (long)cap);
        break;
      }
      case 8: { c.log("a = b"); a = b; m = mb; break; }
      case 9: { c.log("a = a"); A& r = a; a = r; break; }
      case 10: { c.log("a = move(b)"); a = std::move(b); m = mb; mb = contents<T, S>(b); break; }
      case 11: { c.log("a = move(a)"); A& r = a; a = std::move(r); break; }
      case 12: {
        c.log("copy z(a); modify z");
        A z{a};
        std::vector<int> mz = m;
        verify1<T, S>(c, z, mz, "z");
        z.Append(T(val)); mz.push_back(val);
        z[0] = T(val + 1); mz[0] = val + 1;
        verify1<T, S>(c, z, mz, "z");
        verify1<T, S>(c, a, m, "a");
        break;
      }
      case 13: {
        c.log("z(move(a)); use a; a = move(z)");
        A z{std::move(a)};
        std::vector<int> mz = m;
        verify1<T, S>(c, z, mz, "z");
        m = contents<T, S>(a);
        a.Append(T(val)); m.push_back(val);
        verify1<T, S>(c, a, m, "a");
        a = std::move(z);
        m = mz;
        break;
      }
      case 14: { if (!n) break; const int i = S <= 3 ? c.pick(n) : n == 1 ? 0 : c.of({0, n / 2, n - 1}); c.log("a[%d] = %d", i, val); a[i] = T(val); m[i] = val; break; }
      case 15: { if (!n) break; c.log("Back() = "); a.Back() = T(val); m[n - 1] = val; break; }
      case 16: { c.log("swap"); std::swap(a, b); std::swap(m, mb); break; }
    }
    verify();
  }
}

// Sizes which do not fit 8 or 16 bits: one operation
template <typename T, int S>
static void vast(Ctx& c) {
  using A = il::SmallArray<T, S>;
  auto verify1 = [&](const A& z, const std::vector<int>& m, const char* name) { ::verify1<T, S>(c, z, m, name); };
  const int n = c.of({127, 128, 129, 255, 256, 257, 4096, 32767, 32768, 65535, 65536, 65537, 70001});
  A a;
  std::vector<int> m;
  c.log("an array of %d elements", n);
  if (c.flip()) { for (int i = 0; i < n; ++i) { a.Append(T(i)); m.push_back(i); } }
  else { a.Resize(n); for (int i = 0; i < n; ++i) { a[i] = T(i); m.push_back(i); } }
  verify1(a, m, "a");
  switch (c.pick(9)) {
    case 0: { c.log("copied"); const A z(a); verify1(z, m, "a copy"); break; }
    case 1: { c.log("assigned"); A z; z.Resize(3); z = a; verify1(z, m, "z"); z.Append(T(1)); verify1(a, m, "a"); break; }
    case 2: { c.log("assigned over more elements"); A z; z.Resize(n + 5); z = a; verify1(z, m, "z"); break; }
    case 3: { c.log("moved"); A z(std::move(a)); verify1(z, m, "z"); a = std::move(z); break; }
    case 4: { c.log("appended to"); for (int i = 0; i < 300; ++i) { a.Append(T(i)); m.push_back(i); } break; }
    case 5: { const int k = c.of({0, 1, S, S + 1, n / 2, n - 1}); if (k > n) break; c.log("Resize(%d) and back", k); a.Resize(k); m.resize((size_t)k); verify1(a, m, "a"); a.Resize(n); for (int i = k; i < n; ++i) { a[i] = T(5 + i); m.push_back(5 + i); } break; }
    case 6: { const int k = c.of({n, n + 1, 2 * n, 70005}); c.log("Reserve(%d)", k); a.Reserve(k); MC_CHECK(c, a.capacity() >= k, "capacity() is %ld after Reserve(%d)", (long)a.capacity(), k); break; }
    case 7: { c.log("Append(own element)"); a.Append(a[n - 1]); m.push_back(n - 1); a.Append(a[0]); m.push_back(0); break; }
    case 8: { c.log("swapped with a small one"); A z; z.Append(T(3)); std::swap(a, z); verify1(z, m, "z"); m = {3}; break; }
  }
  verify1(a, m, "a");
  c.settle();
}
MC_SUITE("very large<trivial,2>", (vast<int, 2>), 1, 1);
MC_SUITE("very large<class,3>", (vast<Elem, 3>), 1, 1);
MC_SUITE("very large<double,200>", (vast<double, 200>), 1, 1);
MC_SUITE("small<trivial,1>", (body<int, 1>), 3, 6);
MC_SUITE("small<trivial,2>", (body<int, 2>), 4, 6);
MC_SUITE("small<class,1>", (body<Elem, 1>), 3, 6);
MC_SUITE("small<class,2>", (body<Elem, 2>), 4, 6);
MC_SUITE("small<class,3>", (body<Elem, 3>), 3, 6);
MC_SUITE("small<double,8>", (body<double, 8>), 2, 3, true, 3);
MC_SUITE("small<trivial,33>", (body<int, 33>), 2, 3, true, 3);
MC_SUITE("small<class,16>", (body<Elem, 16>), 2, 3, true, 3);
