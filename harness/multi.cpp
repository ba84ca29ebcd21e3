// P02/P05/P06: the 1D..4D arrays against a reference shape + values.
// Compiled once per container: -DCLS=Array2D -DDIM=2 -DFAST=0 (first index contiguous) or 1.
#include HDR
#include <complex>
#include <vector>
#include "ilmc.h"

extern "C" void* __asan_region_is_poisoned(void* beg, size_t size);

using mc::Ctx;
using mc::Elem;
constexpr int D = DIM;
#ifdef NOSTRIDE
constexpr bool has_stride = false;
#else
constexpr bool has_stride = true;
#endif
#ifdef NOALIGN
constexpr bool has_align = false;
#else
constexpr bool has_align = true;
#endif

using Cplx = std::complex<double>;    // 16 bytes, alignment 8
using Cplf = std::complex<float>;     // 8 bytes, alignment 4
template <typename T> struct Conv { static T to(int x) { return T(x); } static int from(const T& x) { return mc::get(x); } };
template <> struct Conv<char> { static char to(int x) { return (char)(x & 127); } static int from(char x) { return x; } };
template <typename R> struct Conv<std::complex<R>> {
  static std::complex<R> to(int x) { return std::complex<R>((R)x, -1); }
  static int from(const std::complex<R>& x) { return x.imag() == -1 ? (int)x.real() : -5; }
};

template <typename T> using A_t = il::CLS<T>;
struct Ix { il::int_t i[4]; };

template <typename F>
static void each(const il::int_t* n, F f) {
  Ix x{};
  il::int_t m[4] = {1, 1, 1, 1};
  for (int d = 0; d < D; ++d) m[d] = n[d];
  for (x.i[0] = 0; x.i[0] < m[0]; ++x.i[0])
    for (x.i[1] = 0; x.i[1] < m[1]; ++x.i[1])
      for (x.i[2] = 0; x.i[2] < m[2]; ++x.i[2])
        for (x.i[3] = 0; x.i[3] < m[3]; ++x.i[3]) f(x);
}
template <typename A> static auto& at(A& a, const Ix& x) {
#if DIM == 1
  return a[x.i[0]];
#elif DIM == 2
  return a(x.i[0], x.i[1]);
#elif DIM == 3
  return a(x.i[0], x.i[1], x.i[2]);
#else
  return a(x.i[0], x.i[1], x.i[2], x.i[3]);
#endif
}
template <typename A> static il::int_t size(const A& a, int d) {
#if DIM == 1
  return a.size();
#else
  return a.size(d);
#endif
}
template <typename A> static il::int_t cap(const A& a, int d) {
#if DIM == 1
  return a.capacity();
#else
  return a.capacity(d);
#endif
}
template <typename A> static il::int_t alignment_of(const A& a) {
#ifdef NOALIGN
  return 0;
#else
  return a.alignment();
#endif
}
#if DIM == 1
#define UNPACK(s) s.i[0]
#elif DIM == 2
#define UNPACK(s) s.i[0], s.i[1]
#elif DIM == 3
#define UNPACK(s) s.i[0], s.i[1], s.i[2]
#else
#define UNPACK(s) s.i[0], s.i[1], s.i[2], s.i[3]
#endif

struct Align { int a, r, m; };  // alignment, remainder, modulus; a == 0: none
struct Model {
  il::int_t n[4] = {0, 0, 0, 0};
  std::vector<int> v;
  Align al{0, 0, 0};
  bool padded = false;  // the storage was last allocated for a shape without empty extent
  int lin(const Ix& x) const {
    int l = 0;
    for (int d = 0; d < D; ++d) l = l * (int)n[d] + (int)x.i[d];
    return l;
  }
  int total() const { int t = 1; for (int d = 0; d < D; ++d) t *= (int)n[d]; return t; }
  // entries common to both shapes are kept, the others take the value x
  void resize(const Ix& s, int x) {
    Model o = *this;
    for (int d = 0; d < D; ++d) n[d] = s.i[d];
    v.assign(total(), x);
    il::int_t c[4];
    for (int d = 0; d < D; ++d) c[d] = n[d] < o.n[d] ? n[d] : o.n[d];
    each(c, [&](const Ix& y) { v[lin(y)] = o.v[o.lin(y)]; });
  }
};

template <typename T> constexpr bool trivial() { return il::isTrivial<T>::value; }

// Known finding (see known-findings.txt): the storage is shifted by whole elements, so
// an offset that is not a multiple of the element size cannot be honoured.
template <typename T> static bool misfit(const Align& al) {
  for (int p = 0; p < al.m * 16; p += 16)
    if ((((al.r - p) % al.m + al.m) % al.m) % (int)sizeof(T) != 0) return true;
  return false;
}

template <typename T>
static void verify(Ctx& c, const A_t<T>& a, const Model& m, const char* name) {
  for (int d = 0; d < D; ++d) {
    MC_CHECK(c, size(a, d) == m.n[d], "%s: size(%d) is %ld, expected %ld", name, d, (long)size(a, d), (long)m.n[d]);
    MC_CHECK(c, cap(a, d) >= m.n[d], "%s: capacity(%d) is %ld, below the size %ld", name, d, (long)cap(a, d), (long)m.n[d]);
  }
  size_t room = 1;
  for (int d = 0; d < D; ++d) room *= cap(a, d);
  if (room)
    MC_CHECK(c, !__asan_region_is_poisoned((void*)a.data(), room * sizeof(T)),
             "%s: the %zu elements of the reported capacity do not lie in memory owned by the array", name, room);
  each(m.n, [&](const Ix& x) {
    const T& e = at(a, x);
    const int got = Conv<T>::from(e), want = m.v[m.lin(x)];
    MC_CHECK(c, got == want, "%s(%ld,%ld,%ld,%ld) is %d, expected %d", name, (long)x.i[0], (long)x.i[1], (long)x.i[2], (long)x.i[3], got, want);
    MC_CHECK(c, &e >= a.data() && &e < a.data() + room, "%s: an element lies outside the storage", name);
#if DIM > 1 && !defined(NOSTRIDE)
    il::int_t off = 0;
    for (int d = 0; d < D; ++d) off += x.i[d] * a.stride(d);
    MC_CHECK(c, &e == a.data() + off, "%s: the strides do not give the position of element (%ld,%ld,%ld)", name, (long)x.i[0], (long)x.i[1], (long)x.i[2]);
#endif
  });
  const int fastest = FAST == 0 ? 0 : D - 1;
  if (m.n[fastest] > 1 && m.total() > 0) {
    Ix x{}, y{};
    y.i[fastest] = 1;
    MC_CHECK(c, &at(a, y) == &at(a, x) + 1, "%s: elements along the fast dimension are not contiguous", name);
  }
#if DIM == 2
  for (il::int_t k = 0; k < m.n[1 - FAST]; ++k)
    if (m.n[FAST] > 0) {
      Ix x{};
      x.i[1 - FAST] = k;
      MC_CHECK(c, a.data(k) == &at(a, x), "%s: data(%ld) is not the start of that line", name, (long)k);
    }
#endif
#ifndef NOALIGN
  if (m.al.a != 0 && room) {
    MC_CHECK(c, a.alignment() == m.al.a, "%s: alignment() is %ld, expected %d", name, (long)a.alignment(), m.al.a);
    {
      MC_CHECK(c, reinterpret_cast<size_t>(a.data()) % m.al.m == (size_t)m.al.r, "%s: data() %% %d is %d, expected %d", name, m.al.m,
               (int)(reinterpret_cast<size_t>(a.data()) % m.al.m), m.al.r);
#if DIM == 2
      for (il::int_t k = 0; k < m.n[1 - FAST]; ++k)
        if (m.n[FAST] > 0 && m.padded)
          MC_CHECK(c, reinterpret_cast<size_t>(a.data(k)) % m.al.a == 0, "%s: line %ld is not aligned on %d bytes", name, (long)k, m.al.a);
#endif
    }
  } else if (room) {
    MC_CHECK(c, a.alignment() == 0, "%s: alignment() is %ld for an array built without one", name, (long)a.alignment());
  }
#endif
  c.settle();
}

// Give every entry a distinct known value, and read them back (entries never share storage).
template <typename T>
static void canon(Ctx& c, A_t<T>& a, Model& m, int base, const char* name) {
  int k = base;
  each(m.n, [&](const Ix& x) { at(a, x) = Conv<T>::to(k); m.v[m.lin(x)] = Conv<T>::from(Conv<T>::to(k)); ++k; });
  verify(c, a, m, name);
}

static Ix pick_shape(Ctx& c, int e) {
  // the small extents, or (e < 0) some that are larger
  static const std::vector<int> table = D == 1 ? std::vector<int>{0, 1, 5, 15, 16, 17, 33, 64, 65, 130} : D == 2 ? std::vector<int>{0, 1, 5, 9, 17} : D == 3 ? std::vector<int>{1, 4, 9} : std::vector<int>{1, 5};
  Ix s{};
  for (int d = 0; d < D; ++d) s.i[d] = e < 0 ? table[c.pick((int)table.size())] : c.pick(e + 1);
  return s;
}
static std::string show(const Ix& s) {
  std::string r;
  for (int d = 0; d < D; ++d) r += (d ? "," : "") + std::to_string(s.i[d]);
  return r;
}

template <typename T>
static A_t<T> make(const Ix& s, int x, const Align& al, bool with_value) {
#ifndef NOALIGN
  if (al.a != 0) {
    if (al.r == 0 && al.m == al.a) {
      if (with_value) return A_t<T>(UNPACK(s), Conv<T>::to(x), il::align, al.a);
      return A_t<T>(UNPACK(s), il::align, al.a);
    }
    if (with_value) return A_t<T>(UNPACK(s), Conv<T>::to(x), il::align, al.a, al.r, al.m);
    return A_t<T>(UNPACK(s), il::align, al.a, al.r, al.m);
  }
#endif
  if (with_value) return A_t<T>(UNPACK(s), Conv<T>::to(x));
  return A_t<T>(UNPACK(s));
}

// After a construction or a resize without a value, trivial entries are unspecified.
template <typename T>
static void known(Ctx& c, A_t<T>& a, Model& m, int unspecified) {
  if (!trivial<T>()) return;
  int k = 40;
  each(m.n, [&](const Ix& x) {
    if (m.v[m.lin(x)] == unspecified) {
#ifdef MARKERS
      MC_CHECK(c, mc::marked(at(a, x)), "the unset element (%s) does not hold the marker value", show(x).c_str());
#endif
      at(a, x) = Conv<T>::to(k); m.v[m.lin(x)] = Conv<T>::from(Conv<T>::to(k)); k++; }
  });
}
constexpr int U = -70000;

template <typename T>
static void set_shape(Model& m, const Ix& s, int x) { for (int d = 0; d < D; ++d) m.n[d] = s.i[d]; m.v.assign(m.total(), x); }

template <typename T>
static void check_align_after_empty(const A_t<T>& a, Model& m) {
  // an array without storage may or may not remember the alignment
  if (a.data() == nullptr && alignment_of(a) == 0) m.al = Align{0, 0, 0};
}

template <typename T>
static std::string key_of(const A_t<T>& a, const Model& m) {
  std::string k;
  for (int d = 0; d < D; ++d) { k += (char)('0' + m.n[d]); k += ':'; k += std::to_string(cap(a, d)); k += ','; }
  k += a.data() ? 'd' : 'n';
  k += m.padded ? 'p' : 'q';
  k += std::to_string(m.al.a) + "/" + std::to_string(m.al.r) + "/" + std::to_string(m.al.m);
  return k;
}

template <typename T>
static const std::vector<Align>& aligns() {
  static const int s = alignof(T);
  static std::vector<Align> v;
  if (v.empty())
    for (const Align& al : std::vector<Align>{{0, 0, 0}, {64, 0, 64}, {32, 32, 64}, {16, 16, 128}, {s, 3 * s, 64}, {2 * s, 2 * s, 8 * s}, {s, 0, 4096}})
      if (al.a == 0 || !misfit<T>(al)) v.push_back(al);
  return v;
}

template <typename T, int E, int EB, bool PAIR, bool ALIGN>
static void body(Ctx& c) {
  A_t<T> a, b;
  Model ma, mb;
  {
    Align al{0, 0, 0};
    if (ALIGN) al = aligns<T>()[c.pick((int)aligns<T>().size())];
    const int how = c.pick(3);
    if (how == 0) {
      c.log("a: default");
    } else {
      const Ix s = pick_shape(c, E);
      c.log("a{%s%s align %d %d %d}", show(s).c_str(), how == 1 ? ", x" : "", al.a, al.r, al.m);
      if (al.a == 0 && how == 1) {
        const T x = Conv<T>::to(9);
        a = A_t<T>(UNPACK(s), x);
      } else {
        a = make<T>(s, 9, al, how == 1);
      }
      set_shape<T>(ma, s, how == 1 ? Conv<T>::from(Conv<T>::to(9)) : trivial<T>() ? U : Elem::kDefault);
      ma.al = al;
      check_align_after_empty(a, ma);
      ma.padded = ma.total() > 0;
      if (how == 2) known(c, a, ma, U);
    }
    verify(c, a, ma, "a");
    canon(c, a, ma, 1, "a");
    if (PAIR) {
      Align bl{0, 0, 0};
      if (ALIGN) bl = aligns<T>()[c.pick(3)];
      const Ix s = pick_shape(c, EB);
      c.log("b{%s, x align %d %d %d}", show(s).c_str(), bl.a, bl.r, bl.m);
      b = make<T>(s, 8, bl, true);
      set_shape<T>(mb, s, Conv<T>::from(Conv<T>::to(8)));
      mb.al = bl;
      check_align_after_empty(b, mb);
      mb.padded = mb.total() > 0;
      canon(c, b, mb, 60, "b");
    }
  }
  for (int step = 0; step < c.bound; ++step) {
    c.state(key_of(a, ma) + "|" + key_of(b, mb), c.bound - step);
    const int op = c.pick(PAIR ? 13 : 8);
    bool fits = true;
    const T* p0 = a.data();
    il::int_t cap0[4];
    for (int d = 0; d < D; ++d) cap0[d] = cap(a, d);
    auto within = [&](const Ix& s) { bool f = true; for (int d = 0; d < D; ++d) f = f && s.i[d] <= cap0[d]; return f; };
    auto stable = [&](const Ix& s) {
      if (within(s)) {
        MC_CHECK(c, a.data() == p0, "storage was reallocated by a resize within the capacity");
        for (int d = 0; d < D; ++d) MC_CHECK(c, cap(a, d) == cap0[d], "capacity(%d) changed by a resize within the capacity", d);
      }
    };
    (void)fits;
    switch (op) {
      case 0: {
        const Ix s = pick_shape(c, E);
        c.log("Resize(%s)", show(s).c_str());
        a.Resize(UNPACK(s));
        ma.resize(s, trivial<T>() ? U : Elem::kDefault);
        check_align_after_empty(a, ma);
        for (int d = 0; d < D; ++d) MC_CHECK(c, size(a, d) == ma.n[d], "size(%d) is %ld after Resize", d, (long)size(a, d));
        known(c, a, ma, U);
        stable(s);
        break;
      }
      case 1: {
#ifdef HAS_RESIZE_X
        const Ix s = pick_shape(c, E);
        const bool alias = ma.total() > 0 && c.flip();
        c.log("Resize(%s, %s)", show(s).c_str(), alias ? "first element of a" : "x");
        const Ix z{};
        const int x = alias ? ma.v[0] : Conv<T>::from(Conv<T>::to(7));
        const T y = Conv<T>::to(7);
        bool shrinks_away = false;  // the aliased element itself must survive
        for (int d = 0; d < D; ++d) shrinks_away = shrinks_away || s.i[d] == 0;
        if (alias && !shrinks_away) a.Resize(UNPACK(s), at(a, z));
        else if (alias) { const T w = at(a, z); a.Resize(UNPACK(s), w); }
        else a.Resize(UNPACK(s), y);
        ma.resize(s, x);
        check_align_after_empty(a, ma);
        stable(s);
#endif
        break;
      }
      case 2: {
#ifdef HAS_RESIZE_X
        const Ix s = pick_shape(c, E);
        c.log("Resize(%s, emplace, 6)", show(s).c_str());
        if constexpr (std::is_constructible<T, int>::value && !std::is_same<T, Cplx>::value && !std::is_same<T, Cplf>::value) {
          const int six = 6;
          if constexpr (std::is_same<T, char>::value) a.Resize(UNPACK(s), il::emplace, (char)6);
          else a.Resize(UNPACK(s), il::emplace, six);
          ma.resize(s, 6);
          check_align_after_empty(a, ma);
          stable(s);
        }
#endif
        break;
      }
      case 3: {
        const Ix s = pick_shape(c, E < 0 ? E : E + 1);
        c.log("Reserve(%s)", show(s).c_str());
        a.Reserve(UNPACK(s));
        for (int d = 0; d < D; ++d)
          MC_CHECK(c, cap(a, d) >= s.i[d] && cap(a, d) >= ma.n[d], "capacity(%d) is %ld after Reserve(%s)", d, (long)cap(a, d), show(s).c_str());
        check_align_after_empty(a, ma);
        stable(s);
        break;
      }
      case 4: {
        c.log("z(a) copied, modified");
        A_t<T> z{a};
        Model mz = ma;
        check_align_after_empty(z, mz);
        mz.padded = mz.total() > 0;
        verify(c, z, mz, "z");
        canon(c, z, mz, 30, "z");
        verify(c, a, ma, "a");
        break;
      }
      case 5: {
        c.log("z(move(a)); a = move(z)");
        A_t<T> z{std::move(a)};
        verify(c, z, ma, "z");
        Ix one{};
        for (int d = 0; d < D; ++d) one.i[d] = 1;
        a.Resize(UNPACK(one));
        Ix o{};
        at(a, o) = Conv<T>::to(3);
        MC_CHECK(c, Conv<T>::from(at(a, o)) == Conv<T>::from(Conv<T>::to(3)), "a moved-from array cannot be reused");
        verify(c, z, ma, "z");
        a = std::move(z);
        break;
      }
      case 6: { c.log("a = a"); A_t<T>& r = a; a = r; break; }
      case 7: {
#if DIM == 1
        c.log("Append"); a.Append(Conv<T>::to(5)); Ix s{}; s.i[0] = ma.n[0] + 1; const int most = E < 0 ? 140 : E; if (s.i[0] > most + 2) { a.Resize(most); s.i[0] = most; } ma.resize(s, Conv<T>::from(Conv<T>::to(5)));
#elif defined(HAS_SET)
        c.log("Set(5)"); a.Set(Conv<T>::to(5)); for (auto& y : ma.v) y = Conv<T>::from(Conv<T>::to(5));
#endif
        break;
      }
      case 8: { c.log("a = b"); a = b; const Align al = ma.al; ma = mb; (void)al; check_align_after_empty(a, ma); break; }
      case 9: { c.log("b = a"); b = a; mb = ma; check_align_after_empty(b, mb); break; }
      case 10: {
        c.log("a = move(b)");
        a = std::move(b);
        ma = mb;
        Ix s{};
        b.Resize(UNPACK(s));
        set_shape<T>(mb, s, 0);
        if (alignment_of(b) == 0) mb.al = Align{0, 0, 0};
        break;
      }
      case 11: { c.log("swap"); std::swap(a, b); std::swap(ma, mb); break; }
      case 12: { c.log("a = move(a)"); A_t<T>& r = a; a = std::move(r); break; }
    }
    if (op < 4 || op == 7) {
      bool same = a.data() == p0;
      for (int d = 0; d < D; ++d) same = same && cap(a, d) == cap0[d];
      if (!same) ma.padded = op == 3 ? true : ma.total() > 0;
    } else if (op == 8 || op == 9) {
      // an assignment may keep the storage of the destination
      Model& md = op == 8 ? ma : mb;
      md.padded = false;
    }
    verify(c, a, ma, "a");
    if (PAIR) verify(c, b, mb, "b");
    canon(c, a, ma, 1, "a");
    if (PAIR) canon(c, b, mb, 60, "b");
  }
}

#if DIM > 1 && DIM < 4 && !defined(ALIGN_SUITES)
// Every construction from nested lists: the outermost list runs over the slowest dimension.
#define R0(k) {}
#define R1(k) {Conv<T>::to(k)}
#define R2(k) {Conv<T>::to(k), Conv<T>::to((k) + 1)}
#define R3(k) {Conv<T>::to(k), Conv<T>::to((k) + 1), Conv<T>::to((k) + 2)}
#define ROW(n, k) R##n(k)
#define M1(n, k) {ROW(n, k)}
#define M2(n, k) {ROW(n, k), ROW(n, (k) + n)}
#define M3(n, k) {ROW(n, k), ROW(n, (k) + n), ROW(n, (k) + 2 * n)}
#define PAGE(m, n, k) M##m(n, k)
template <typename T>
static void listed(Ctx& c, A_t<T> a, int outer, int mid, int inner) {
  Model m;
  c.log("list of %d x %d x %d", outer, mid, inner);
  const il::int_t n[3] = {outer, D == 2 ? inner : mid, inner};
  for (int d = 0; d < D; ++d) m.n[d] = FAST == 0 ? n[D - 1 - d] : n[d];
  m.v.assign(m.total(), 0);
  each(m.n, [&](const Ix& x) {
    int k = 0;
    for (int d = 0; d < D; ++d) { const int e = FAST == 0 ? D - 1 - d : d; k = k * (int)m.n[e] + (int)x.i[e]; }
    m.v[m.lin(x)] = 1 + k;
  });
  m.padded = m.total() > 0;
  verify<T>(c, a, m, "a");
  const A_t<T> b(a);
  verify<T>(c, b, m, "the copy");
  canon<T>(c, a, m, 50, "a");
}
template <typename T>
static void lists(Ctx& c) {
#if DIM == 2
#define CASE(i, m, n) case i: listed<T>(c, A_t<T>(il::value, PAGE(m, n, 1)), m, 1, n); break;
  switch (c.pick(13)) {
    CASE(0, 1, 1) CASE(1, 1, 2) CASE(2, 1, 3) CASE(3, 2, 1) CASE(4, 2, 2) CASE(5, 2, 3) CASE(6, 3, 1) CASE(7, 3, 2) CASE(8, 3, 3)
    CASE(9, 2, 0) CASE(10, 3, 0) CASE(11, 1, 0)
    default: { A_t<T> a(il::value, {}); MC_CHECK(c, a.size(0) == 0 && a.size(1) == 0, "an empty list gives an array of %ld x %ld", (long)a.size(0), (long)a.size(1)); }
  }
#else
#define CASE(i, l, m, n) case i: listed<T>(c, A_t<T>(il::value, L##l(m, n)), l, m, n); break;
#define L1(m, n) {PAGE(m, n, 1)}
#define L2(m, n) {PAGE(m, n, 1), PAGE(m, n, 1 + m * n)}
#define L3(m, n) {PAGE(m, n, 1), PAGE(m, n, 1 + m * n), PAGE(m, n, 1 + 2 * m * n)}
  switch (c.pick(21)) {
    CASE(0, 1, 1, 1) CASE(1, 1, 1, 2) CASE(2, 1, 2, 1) CASE(3, 1, 2, 3) CASE(4, 1, 3, 2) CASE(5, 1, 3, 3) CASE(6, 2, 1, 1) CASE(7, 2, 1, 3) CASE(8, 2, 2, 1)
    CASE(9, 2, 2, 2) CASE(10, 2, 2, 3) CASE(11, 2, 3, 1) CASE(12, 2, 3, 2) CASE(13, 3, 1, 1) CASE(14, 3, 1, 2) CASE(15, 3, 2, 1) CASE(16, 3, 2, 2) CASE(17, 3, 3, 3)
    CASE(18, 3, 2, 3) CASE(19, 2, 3, 3)
    default: { A_t<T> a(il::value, {}); MC_CHECK(c, a.size(0) == 0 && a.size(1) == 0 && a.size(2) == 0, "an empty list gives an array which is not empty"); }
  }
#endif
}
MC_SUITE("lists<trivial>", lists<int>, 1, 1);
MC_SUITE("lists<class>", lists<Elem>, 1, 1);
#endif

#if DIM > 1 && !defined(ALIGN_SUITES) && !defined(MARKERS)
// Shapes with more elements, and extents, than 16 bits can count: one operation.
static const std::vector<Ix>& vast() {
#if DIM == 2
  static const std::vector<Ix> v = {{{65, 65}}, {{300, 301}}, {{1, 70000}}, {{70000, 1}}, {{257, 256}}, {{129, 600}}, {{2, 33000}}, {{33000, 2}}};
#elif DIM == 3
  static const std::vector<Ix> v = {{{17, 17, 17}}, {{33, 20, 100}}, {{2, 3, 12000}}, {{12000, 2, 3}}, {{3, 12000, 2}}, {{1, 1, 66000}}, {{66000, 1, 1}}, {{1, 66000, 1}}, {{257, 257, 1}}, {{1, 257, 257}}, {{257, 1, 257}}};
#else
  static const std::vector<Ix> v = {{{9, 9, 9, 9}}, {{17, 5, 17, 50}}, {{2, 3, 2, 6000}}, {{6000, 2, 3, 2}}, {{2, 6000, 3, 2}}, {{3, 2, 6000, 2}}, {{1, 1, 1, 66000}}, {{66000, 1, 1, 1}}, {{257, 1, 1, 257}}, {{1, 257, 257, 1}}};
#endif
  return v;
}
template <typename T>
static void vast_body(Ctx& c) {
  const Ix s = vast()[c.pick((int)vast().size())];
  c.log("an array of shape %s", show(s).c_str());
  A_t<T> a(UNPACK(s), Conv<T>::to(9));
  Model m;
  set_shape<T>(m, s, 9);
  m.padded = true;
  verify(c, a, m, "a");
  canon(c, a, m, 1, "a");
  const int op = c.pick(5 + 2 * D);
  if (op == 0) {
    c.log("copied");
    const A_t<T> z(a);
    canon(c, a, m, 7, "a");
    canon(c, a, m, 1, "a");
    verify(c, z, m, "the copy");
  } else if (op == 1) {
    c.log("assigned");
    A_t<T> z(UNPACK(vast()[0]), Conv<T>::to(4));
    z = a;
    verify(c, z, m, "z");
    A_t<T> y(UNPACK(vast()[1]), Conv<T>::to(4));
    y = a;
    verify(c, y, m, "y");
  } else if (op == 2) {
    c.log("moved");
    A_t<T> z(std::move(a));
    verify(c, z, m, "z");
    a = std::move(z);
  } else if (op == 3) {
    c.log("resized to the first shape and back");
    a.Resize(UNPACK(vast()[0]));
    m.resize(vast()[0], trivial<T>() ? U : Elem::kDefault);
    known(c, a, m, U);
    verify(c, a, m, "a");
    a.Resize(UNPACK(s));
    m.resize(s, trivial<T>() ? U : Elem::kDefault);
    known(c, a, m, U);
  } else if (op == 4) {
#ifdef HAS_SET
    c.log("Set");
    a.Set(Conv<T>::to(5));
    for (auto& y : m.v) y = Conv<T>::from(Conv<T>::to(5));
#endif
  } else {
    const int d = (op - 5) % D;
    Ix r = s;
    const bool reserve = op >= 5 + D;
    r.i[d] += reserve || c.flip() ? 1 : -1;
    if (reserve) {
      c.log("Reserve(%s)", show(r).c_str());
      a.Reserve(UNPACK(r));
      for (int e = 0; e < D; ++e) MC_CHECK(c, cap(a, e) >= r.i[e], "capacity(%d) is %ld after Reserve(%s)", e, (long)cap(a, e), show(r).c_str());
    } else {
      c.log("Resize(%s)", show(r).c_str());
      a.Resize(UNPACK(r));
      m.resize(r, trivial<T>() ? U : Elem::kDefault);
      known(c, a, m, U);
      m.padded = m.total() > 0;
    }
  }
  verify(c, a, m, "a");
}
MC_SUITE("very large<trivial>", vast_body<double>, 1, 1);
MC_SUITE("very large<small>", vast_body<int>, 1, 1);
MC_SUITE("very large<class>", vast_body<Elem>, 1, 1);
#endif

#ifdef ALIGN_SUITES
// The recorded finding: an offset that is not a multiple of the element size.
static void misfit_body(Ctx& c) {
  Ix s{};
  for (int d = 0; d < D; ++d) s.i[d] = 2;
  const Align al{8, 24, 64};
  c.log("complex<double> array with data() = 24 modulo 64");
  A_t<Cplx> a = make<Cplx>(s, 1, al, true);
  MC_CHECK(c, reinterpret_cast<size_t>(a.data()) % 64 == 24, "data() %% 64 is %d, expected 24", (int)(reinterpret_cast<size_t>(a.data()) % 64));
}
MC_SUITE("finding:offset-not-multiple-of-element-size", misfit_body, 1, 1);
MC_SUITE("aligned<int>", (body<int, D == 1 ? 4 : D == 2 ? 2 : 1, 2 - (D == 3), true, true>), 2, 4);
MC_SUITE("aligned<double>", (body<double, D == 1 ? 4 : D == 2 ? 2 : 1, 2 - (D == 3), true, true>), 2, 4);
MC_SUITE("aligned<char>", (body<char, D == 1 ? 4 : D == 2 ? 3 : 2, 1, false, true>), 2, 4);
MC_SUITE("aligned<complex double>", (body<Cplx, D == 1 ? 4 : D == 2 ? 3 : 2, 1, false, true>), 2, 4);
MC_SUITE("aligned<complex float>", (body<Cplf, D == 1 ? 4 : D == 2 ? 3 : 2, 1, false, true>), 2, 4);
MC_SUITE("aligned<long double>", (body<long double, D == 1 ? 4 : D == 2 ? 3 : 2, 1, false, true>), 2, 4);
MC_SUITE("larger aligned<int>", (body<int, -1, -1, false, true>), 1, 2, true, 3);
MC_SUITE("larger aligned<double>", (body<double, -1, D == 1 ? -1 : 1, D < 3, true>), 1, D < 3 ? 1 : 2, true, 3);
MC_SUITE("larger aligned<char>", (body<char, -1, -1, false, true>), 1, 2, true, 3);
#elif defined(MARKERS)
MC_SUITE("larger<int>", (body<int, -1, -1, false, false>), 1, 2, true, 3);
MC_SUITE("unset elements<int>", (body<int, D == 1 ? 5 : D == 2 ? 3 : D == 3 ? 2 : 1, 1, false, D == 2 || D == 3>), D == 4 ? 3 : 2, D == 4 ? 5 : D == 3 ? 3 : 4);
MC_SUITE("unset elements<double>", (body<double, D == 1 ? 5 : D == 2 ? 3 : 2, 1, false, D == 2>), 2, D > 2 ? 3 : 4);
MC_SUITE("unset elements<char>", (body<char, D == 1 ? 5 : D == 2 ? 3 : D == 3 ? 2 : 1, 1, false, false>), 2, D > 2 ? 3 : 4);
#elif DIM == 2
MC_SUITE("larger<trivial>", (body<double, -1, -1, true, false>), 1, 1, true, 3);
MC_SUITE("larger<class>", (body<Elem, -1, -1, false, false>), 1, 2, true, 3);
MC_SUITE("single<trivial>", (body<int, 3, 1, false, true>), 3, 6);
MC_SUITE("single<class>", (body<Elem, 4, 1, false, false>), 3, 6);
MC_SUITE("pair<trivial>", (body<int, 3, 3, true, false>), 2, 4);
MC_SUITE("pair<class>", (body<Elem, 3, 3, true, false>), 2, 4);
#elif DIM == 3
MC_SUITE("larger<trivial>", (body<double, -1, -1, true, false>), 1, 1, true, 3);
MC_SUITE("larger<class>", (body<Elem, -1, -1, false, false>), 1, 2, true, 3);
MC_SUITE("single<trivial>", (body<int, 3, 1, false, false>), 2, 4);
MC_SUITE("single<class>", (body<Elem, 3, 1, false, false>), 2, 4);
MC_SUITE("pair<trivial>", (body<int, 2, 2, true, false>), 1, 3);
MC_SUITE("pair<class>", (body<Elem, 2, 2, true, false>), 1, 3);
#elif DIM == 4
MC_SUITE("larger<trivial>", (body<double, -1, -1, true, false>), 1, 1, true, 3);
MC_SUITE("larger<class>", (body<Elem, -1, -1, false, false>), 1, 2, true, 3);
MC_SUITE("single<trivial>", (body<int, 2, 1, false, false>), 2, 3);
MC_SUITE("single<class>", (body<Elem, 2, 1, false, false>), 2, 3);
MC_SUITE("pair<trivial>", (body<int, 1, 2, true, false>), 1, 3);
MC_SUITE("pair<class>", (body<Elem, 1, 2, true, false>), 1, 3);
#endif
