// P32: triangular, banded, tridiagonal and compressed sparse storage.
#include <il/BandArray2C.h>
#include <il/LowerArray2D.h>
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include <il/math.h>
#include <il/SparseMatrixCSR.h>
#include <il/TriDiagonal.h>
#include <il/UpperArray2D.h>
#include <map>
#include <set>
#include <vector>
#include "ilmc.h"

extern "C" void* __asan_region_is_poisoned(void* beg, size_t size);
using mc::Ctx;
using mc::Elem;
using il::int_t;

// Larger matrices: fewer sizes, and positions at the ends and in the middle only.
static bool kLarge = false;
struct Large { Large() { kLarge = true; } ~Large() { kLarge = false; } };
static int some(Ctx& c, int n) { if (!kLarge || n <= 3) return c.pick(n); const int k = c.pick(3); return k == 0 ? 0 : k == 1 ? n / 2 : n - 1; }
static int size_of(Ctx& c, int n) { return !kLarge ? c.pick(n) : c.thorough ? c.of({0, 3, 5, 6, 8, 9, 16, 17, 33, 40}) : c.of({0, 5, 8, 17, 33}); }

// --- triangular: every operation sequence on two matrices ---------------------
struct Tri { int n = 0; std::vector<int> v; };  // v in packed column-major order (the LAPACK layout)
static int pos(bool lower, int n, int i, int j) {
  int k = 0;
  for (int jj = 0; jj < j; ++jj) k += lower ? n - jj : jj + 1;
  return k + (lower ? i - j : i);
}
template <template <typename> class M, typename T, bool lower>
static void same(Ctx& c, M<T>& a, const Tri& m, const char* name) {
  MC_CHECK(c, a.size() == m.n, "%s.size() is %ld, expected %d", name, (long)a.size(), m.n);
  MC_CHECK(c, a.capacity() >= a.size(), "%s.capacity() < size()", name);
  const M<T>& k = a;
  for (int j = 0; j < m.n; ++j)
    for (int i = 0; i < m.n; ++i) {
      if (lower ? i < j : i > j) continue;
      const int p = pos(lower, m.n, i, j);
      MC_CHECK(c, !__asan_region_is_poisoned((void*)&a(i, j), sizeof(T)), "%s(%d, %d) lies outside the memory owned by the matrix", name, i, j);
      MC_CHECK(c, &a(i, j) == &k(i, j), "%s(%d, %d): the const and the mutable access disagree", name, i, j);
      MC_CHECK(c, &a(i, j) - a.Data() == p, "%s(%d, %d) is stored at %ld, expected packed column-major position %d", name, i, j, (long)(&a(i, j) - a.Data()), p);
      const int x = mc::get(k(i, j));
      MC_CHECK(c, x == m.v[p], "%s(%d, %d) is %d, expected %d", name, i, j, x, m.v[p]);
    }
}
template <template <typename> class M, typename T, bool lower>
static void tri(Ctx& c) {
  using A = M<T>;
  const int N = 4;
  auto build = [&](A& a, Tri& m, int n, int val) {
    a = A(static_cast<int_t>(n));
    m.n = n;
    m.v.assign(n * (n + 1) / 2, Elem::kDefault);
    MC_CHECK(c, a.size() == n, "size() is %ld for a matrix built with %d rows", (long)a.size(), n);
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < n; ++i) {
        if (lower ? i < j : i > j) continue;
        if (!il::isTrivial<T>::value) MC_CHECK(c, mc::get(a(i, j)) == Elem::kDefault, "element (%d, %d) is not default constructed", i, j);
        m.v[pos(lower, n, i, j)] = val + 10 * i + j;
        a(i, j) = T(val + 10 * i + j);
      }
  };
  A a, b;
  Tri ma, mb;
  auto verify = [&]() { same<M, T, lower>(c, a, ma, "a"); same<M, T, lower>(c, b, mb, "b"); c.settle(); };
  const int na = size_of(c, N + 1), nb = size_of(c, N + 1);
  c.log("a: %d rows, b: %d rows", na, nb);
  if (na) build(a, ma, na, 100);
  if (nb) build(b, mb, nb, 200);
  verify();
  for (int step = 0; step < c.bound; ++step) {
    std::string k = std::to_string(a.capacity()) + "," + std::to_string(b.capacity()) + "," + std::to_string(ma.n) + "," + std::to_string(mb.n) + ":";
    for (int x : ma.v) k += std::to_string(x) + ",";
    k += "|";
    for (int x : mb.v) k += std::to_string(x) + ",";
    c.state(k, c.bound - step);
    const int val = 1000 * (step + 1);
    switch (c.pick(9)) {
      case 0: c.log("a = b"); a = b; ma = mb; break;
      case 1: c.log("b = a"); b = a; mb = ma; break;
      case 2: { c.log("a = a"); A& r = a; a = r; break; }
      case 3: {
        c.log("a = move(b)");
        a = std::move(b);
        ma = mb;
        MC_CHECK(c, b.size() == 0, "a moved-from matrix reports size %ld", (long)b.size());
        mb = Tri{};
        break;
      }
      case 4: { c.log("a = move(a)"); A& r = a; a = std::move(r); break; }
      case 5: {
        c.log("copy z(a); modify z");
        A z{a};
        Tri mz = ma;
        same<M, T, lower>(c, z, mz, "z");
        if (ma.n) { const int i = lower ? ma.n - 1 : 0; z(i, i ? 0 : 0) = T(val); mz.v[pos(lower, mz.n, i, 0)] = val; }
        same<M, T, lower>(c, z, mz, "z");
        same<M, T, lower>(c, a, ma, "a");
        a = z; ma = mz;
        break;
      }
      case 6: {
        c.log("z(move(a)); a = z");
        A z{std::move(a)};
        Tri mz = ma;
        same<M, T, lower>(c, z, mz, "z");
        MC_CHECK(c, a.size() == 0, "a moved-from matrix reports size %ld", (long)a.size());
        ma = Tri{};
        a = z; ma = mz;
        break;
      }
      case 7: {
        if (!ma.n) break;
        const int j = some(c, ma.n), i = lower ? j + some(c, ma.n - j) : some(c, j + 1);
        c.log("a(%d, %d) = %d", i, j, val);
        a(i, j) = T(val);
        ma.v[pos(lower, ma.n, i, j)] = val;
        break;
      }
      case 8: { const int n = size_of(c, N + 1); c.log("b: new with %d rows", n); build(b, mb, n, val); break; }
    }
    verify();
  }
}
MC_SUITE("lower<trivial>", (tri<il::LowerArray2D, double, true>), 3, 5);
MC_SUITE("lower<class>", (tri<il::LowerArray2D, Elem, true>), 3, 5);
MC_SUITE("upper<trivial>", (tri<il::UpperArray2D, double, false>), 3, 5);
MC_SUITE("upper<class>", (tri<il::UpperArray2D, Elem, false>), 3, 5);
template <template <typename> class M, typename T, bool lower> static void tri_large(Ctx& c) { Large l; tri<M, T, lower>(c); }
MC_SUITE("lower<trivial>, larger", (tri_large<il::LowerArray2D, double, true>), 2, 2);
MC_SUITE("lower<class>, larger", (tri_large<il::LowerArray2D, Elem, true>), 2, 2);
MC_SUITE("upper<trivial>, larger", (tri_large<il::UpperArray2D, double, false>), 2, 2);
MC_SUITE("upper<class>, larger", (tri_large<il::UpperArray2D, Elem, false>), 2, 2);

// --- tridiagonal and band: every shape, then assignment histories ---------------
// A generic driver: F gives the stored positions of an object and access to them.
template <typename M>
struct Obj {
  M m;
  std::map<std::pair<int, int>, int> v;
};
template <typename M, typename P>
static void same(Ctx& c, Obj<M>& o, P positions, const char* name) {
  const M& k = o.m;
  std::set<const void*> seen;
  for (auto p : positions(o.m)) {
    const int i = p.first, j = p.second;
    MC_CHECK(c, !__asan_region_is_poisoned((void*)&o.m(i, j), sizeof(o.m(i, j))), "%s(%d, %d) lies outside the memory owned by the matrix", name, i, j);
    MC_CHECK(c, &o.m(i, j) == &k(i, j), "%s(%d, %d): the const and the mutable access disagree", name, i, j);
    MC_CHECK(c, seen.insert(&k(i, j)).second, "%s(%d, %d) shares its storage with another position", name, i, j);
    MC_CHECK(c, k(i, j) == o.v[p], "%s(%d, %d) is %g, expected %d", name, i, j, (double)k(i, j), o.v[p]);
  }
}
template <typename M, typename P, typename Mk>
static void history(Ctx& c, P positions, Mk make) {
  std::vector<Obj<M>> o;
  for (int k = 0; k < 2; ++k) {
    o.push_back(Obj<M>{make(c), {}});
    for (auto p : positions(o[k].m)) { const int x = 1000 * (k + 1) + 10 * (p.first + 5) + p.second; o[k].v[p] = x; o[k].m(p.first, p.second) = x; }
  }
  same(c, o[0], positions, "a");
  same(c, o[1], positions, "b");
  for (int step = 0; step < c.bound; ++step) {
    switch (c.pick(6)) {
      case 0: c.log("a = b"); o[0].m = o[1].m; o[0].v = o[1].v; break;
      case 1: c.log("b = copy of a, modified"); { M z{o[0].m}; auto ps = positions(z); if (!ps.empty()) z(ps[0].first, ps[0].second) = -5 - step; same(c, o[0], positions, "a"); o[1].v = o[0].v; if (!ps.empty()) o[1].v[ps[0]] = -5 - step; o[1].m = z; break; }
      case 2: c.log("a = move(b); b = new"); { o[0].m = std::move(o[1].m); o[0].v = o[1].v; Obj<M> n{make(c), {}}; for (auto p : positions(n.m)) { n.v[p] = 7 + p.first; n.m(p.first, p.second) = 7 + p.first; } o[1].m = std::move(n.m); o[1].v = n.v; break; }
      case 3: c.log("a = a"); { M& r = o[0].m; o[0].m = r; break; }
      case 4: c.log("z(move(a)); a = move(z)"); { M z{std::move(o[0].m)}; o[0].m = std::move(z); break; }
      case 5: {
        auto ps = positions(o[0].m);
        if (ps.empty()) break;
        const int k = some(c, (int)ps.size());
        c.log("a(%d, %d) = ", ps[k].first, ps[k].second);
        o[0].m(ps[k].first, ps[k].second) = 50 + step;
        o[0].v[ps[k]] = 50 + step;
        break;
      }
    }
    same(c, o[0], positions, "a");
    same(c, o[1], positions, "b");
  }
}

static void tridiagonal(Ctx& c) {
  using M = il::TriDiagonal<double>;
  auto positions = [](M& m) {
    std::vector<std::pair<int, int>> r;
    for (int i = 0; i < m.size(); ++i)
      for (int k = -1; k <= 1; ++k)
        if (i + k >= 0 && i + k < m.size()) r.push_back({i, k});
    return r;
  };
  auto make = [&](Ctx& c) {
    const int n = size_of(c, 4);
    c.log("n = %d", n);
    M m(n);
    MC_CHECK(c, m.size() == n, "size() is %ld, expected %d", (long)m.size(), n);
    for (int i = 0; i < n; ++i) {
      // the three vectors handed to LAPACK: sub-diagonal, diagonal, super-diagonal
      MC_CHECK(c, &m(i, 0) == m.DiagonalData() + i, "DiagonalData()[%d] is not (%d, 0)", i, i);
      if (i > 0) MC_CHECK(c, &m(i, -1) == m.LowerData() + (i - 1), "LowerData()[%d] is not (%d, -1)", i - 1, i);
      if (i < n - 1) MC_CHECK(c, &m(i, 1) == m.UpperData() + i, "UpperData()[%d] is not (%d, 1)", i, i);
    }
    return m;
  };
  history<M>(c, positions, make);
}
MC_SUITE("tridiagonal", tridiagonal, 3, 5);
static void tridiagonal_large(Ctx& c) { Large l; tridiagonal(c); }
MC_SUITE("tridiagonal, larger", tridiagonal_large, 2, 3);

static void band(Ctx& c) {
  using M = il::BandArray2C<double>;
  auto positions = [](M& m) {
    std::vector<std::pair<int, int>> r;
    for (int i = 0; i < m.size(0); ++i)
      for (int k = -(int)m.widthLeft(); k <= m.widthRight(); ++k)
        if (i + k >= 0 && i + k < m.size(1)) r.push_back({i, k});
    return r;
  };
  auto make = [&](Ctx& c) {
    if (c.flip()) {
      const int n = kLarge ? c.of({5, 17, 33}) : 1 + c.pick(3), w = some(c, n);
      c.log("n = %d, width %d", n, w);
      M m(n, w);
      MC_CHECK(c, m.size(0) == n && m.size(1) == n, "the sizes are %ld x %ld, expected %d", (long)m.size(0), (long)m.size(1), n);
      MC_CHECK(c, m.widthLeft() == w && m.widthRight() == w && m.capacityRight() >= m.widthRight(), "the widths are wrong");
      return m;
    }
    const int n0 = kLarge ? c.of({5, 18}) : 1 + c.pick(3), n1 = kLarge ? c.of({6, 33}) : 1 + c.pick(3), l = kLarge ? c.of({0, 4}) : c.pick(3), r = kLarge ? c.of({0, 5}) : c.pick(3);
    c.log("%d x %d, widths %d, %d", n0, n1, l, r);
    M m(n0, n1, l, r);
    MC_CHECK(c, m.size(0) == n0 && m.size(1) == n1, "the sizes are %ld x %ld, expected %d x %d", (long)m.size(0), (long)m.size(1), n0, n1);
    MC_CHECK(c, m.widthLeft() == l && m.widthRight() == r, "the widths are wrong");
    return m;
  };
  history<M>(c, positions, make);
}
MC_SUITE("band", band, 1, 2);
static void band_large(Ctx& c) { Large l; band(c); }
MC_SUITE("band, larger", band_large, 1, 2);

// --- compressed sparse rows: every pattern of a small matrix --------------------
template <typename Index>
struct Csr {
  using M = il::SparseMatrixCSR<Index, double>;
  static int h, w;
  static M from(Ctx& c, int mask, bool with_elements) {
    il::Array<Index> col{}, row{};
    il::Array<double> el{};
    row.Append(Index(0));
    for (int i = 0; i < h; ++i) {
      for (int j = 0; j < w; ++j)
        if (mask >> (i * w + j) & 1) { col.Append(Index(j)); el.Append(10.0 * i + j + 1); }
      row.Append(Index(col.size()));
    }
    if (with_elements) return M{h, w, col, row, el};
    M m{h, w, col, row};
    for (int k = 0; k < el.size(); ++k) m[k] = el[k];
    return m;
  }
  static void check(Ctx& c, M& m, int mask, double add, const char* name) {
    const M& k = m;
    MC_CHECK(c, m.size(0) == h && m.size(1) == w, "%s: sizes are %ld x %ld, expected %d x %d", name, (long)m.size(0), (long)m.size(1), h, w);
    int n = 0;
    for (int i = 0; i < h; ++i) {
      MC_CHECK(c, m.row(i) == n && m.rowData()[i] == n, "%s: row(%d) is %ld, expected %d", name, i, (long)m.row(i), n);
      int p = 0;
      for (int j = 0; j < w; ++j)
        if (mask >> (i * w + j) & 1) {
          MC_CHECK(c, m.column(n) == j && m.columnData()[n] == j, "%s: column(%d) is wrong", name, n);
          const double x = 10.0 * i + j + 1 + add;
          MC_CHECK(c, k[n] == x && m[n] == x && m.element(n) == x && m.elementData()[n] == x, "%s[%d] is %g, expected %g", name, n, k[n], x);
          MC_CHECK(c, &m(i, p) == &m[n] && &k(i, p) == &k[n] && &m[n] == &k[n] && m.ElementData() + n == &m[n], "%s(%d, %d) is not entry %d", name, i, p, n);
          ++n; ++p;
        }
    }
    MC_CHECK(c, m.row(h) == n && m.nbNonZeros() == n, "%s: the number of entries is %ld, expected %d", name, (long)m.nbNonZeros(), n);
  }
  static void run(Ctx& c) {
    h = 1 + c.pick(2); w = 1 + c.pick(3);
    const int mask = c.pick(1 << (h * w));
    const bool el = c.flip();
    c.log("%d x %d, pattern %x, %s", h, w, mask, el ? "with elements" : "elements set later");
    M m = from(c, mask, el);
    check(c, m, mask, 0, "m");
    for (int k = 0; k < m.nbNonZeros(); ++k) m[k] += 0.5;
    M z{m};
    check(c, z, mask, 0.5, "copy");
    for (int k = 0; k < z.nbNonZeros(); ++k) z[k] += 1;
    check(c, m, mask, 0.5, "source of the copy");
    M t{std::move(z)};
    check(c, t, mask, 1.5, "moved");
    M u{};
    MC_CHECK(c, u.size(0) == 0 && u.size(1) == 0 && u.nbNonZeros() == 0, "a default matrix is not empty");
    u = t;
    check(c, u, mask, 1.5, "assigned");
    u = from(c, 0, false);
    check(c, u, 0, 0, "reassigned");
    u = std::move(t);
    check(c, u, mask, 1.5, "move-assigned");
    u = m;
    check(c, u, mask, 0.5, "assigned within capacity");
  }
};
template <typename I> int Csr<I>::h;
template <typename I> int Csr<I>::w;
MC_SUITE("csr<int>", Csr<int>::run, 1, 1);
MC_SUITE("csr<int_t>", Csr<int_t>::run, 1, 1);
static void csr_rows(Ctx& c) {
  using M = il::SparseMatrixCSR<int_t, double>;
  const int h = kLarge ? c.of({5, 17}) : 1 + c.pick(3), w = kLarge ? c.of({9, 40}) : 3, family = kLarge ? c.pick(16) : 0;
  il::Array<il::SmallArray<int_t, 2>> rows{h};
  std::vector<std::vector<int>> ref(h);
  for (int i = 0; i < h; ++i) {
    const int mask = kLarge ? 0 : c.pick(8);
    for (int j = 0; j < w; ++j)
      if (kLarge ? (i * 7 + j * (family % 4 + 1) + i * j) % 8 < (family < 4 ? 1 : family < 8 ? 3 : family < 12 ? 8 : i % 9) : mask >> j & 1) { rows[i].Append(int_t(j)); ref[i].push_back(j); }
  }
  M m(w, h, rows);  // (width, height, columns of every row)
  MC_CHECK(c, m.size(0) == h && m.size(1) == w, "sizes are %ld x %ld, expected %d x %d", (long)m.size(0), (long)m.size(1), h, w);
  int n = 0;
  for (int i = 0; i < h; ++i) {
    MC_CHECK(c, m.row(i) == n, "row(%d) is %ld, expected %d", i, (long)m.row(i), n);
    for (size_t p = 0; p < ref[i].size(); ++p, ++n) {
      MC_CHECK(c, m.column(n) == ref[i][p], "column(%d) is %ld, expected %d", n, (long)m.column(n), ref[i][p]);
      m(i, p) = n + 0.5;
    }
  }
  MC_CHECK(c, m.row(h) == n && m.nbNonZeros() == n, "the number of entries is %ld, expected %d", (long)m.nbNonZeros(), n);
  for (int k = 0; k < n; ++k) MC_CHECK(c, m[k] == k + 0.5, "entry %d lost its value", k);
}
MC_SUITE("csr from rows", csr_rows, 1, 1);
static void csr_rows_large(Ctx& c) { Large l; csr_rows(c); }
MC_SUITE("csr from rows, larger", csr_rows_large, 1, 1);

// --- very large: the sizes and the positions go past 8 and 16 bits ---------------------
static void huge_tridiagonal(Ctx& c) {
  const int n = c.of({129, 257, 33000, 70001});
  c.log("n = %d", n);
  il::TriDiagonal<double> m(n);
  auto fill = [&](il::TriDiagonal<double>& m, int by) { for (int i = 0; i < n; ++i) for (int k = -1; k <= 1; ++k) if (i + k >= 0 && i + k < n) m(i, k) = by + 3.0 * i + k; };
  auto check = [&](il::TriDiagonal<double>& m, int by, const char* name) {
    MC_CHECK(c, m.size() == n, "%s: size() is %ld, expected %d", name, (long)m.size(), n);
    for (int i = 0; i < n; ++i) for (int k = -1; k <= 1; ++k) if (i + k >= 0 && i + k < n) MC_CHECK(c, m(i, k) == by + 3.0 * i + k, "%s(%d, %d) lost its value", name, i, k);
    MC_CHECK(c, &m(n - 1, 0) == m.DiagonalData() + (n - 1) && &m(n - 1, -1) == m.LowerData() + (n - 2) && &m(n - 2, 1) == m.UpperData() + (n - 2), "%s: the vectors handed to LAPACK are not the entries", name);
  };
  fill(m, 0);
  check(m, 0, "m");
  il::TriDiagonal<double> z{m};
  fill(z, 5);
  check(m, 0, "m");
  m = z;
  fill(z, 9);
  check(m, 5, "m");
  il::TriDiagonal<double> t{std::move(z)};
  check(t, 9, "t");
  m = std::move(t);
  check(m, 9, "m");
}
MC_SUITE("tridiagonal, very large", huge_tridiagonal, 1, 1);

static void huge_band(Ctx& c) {
  using M = il::BandArray2C<double>;
  static const int shape[][4] = {{300, 300, 1, 2}, {400, 400, 130, 140}, {300, 310, 260, 257}, {33000, 33000, 1, 1}, {70001, 70001, 2, 0}, {66000, 66010, 0, 3}};
  const int* s = shape[c.pick(6)];
  const int n0 = s[0], n1 = s[1], l = s[2], r = s[3];
  c.log("%d x %d, widths %d, %d", n0, n1, l, r);
  auto fill = [&](M& m, int by) { for (int i = 0; i < n0; ++i) for (int k = -l; k <= r; ++k) if (i + k >= 0 && i + k < n1) m(i, k) = by + 1000.0 * i + k; };
  auto check = [&](M& m, int by, const char* name) {
    MC_CHECK(c, m.size(0) == n0 && m.size(1) == n1 && m.widthLeft() == l && m.widthRight() == r && m.capacityRight() >= r, "%s is a matrix %ld x %ld, widths %ld, %ld", name, (long)m.size(0), (long)m.size(1), (long)m.widthLeft(), (long)m.widthRight());
    const M& k0 = m;
    for (int i = 0; i < n0; ++i) for (int k = -l; k <= r; ++k) if (i + k >= 0 && i + k < n1) MC_CHECK(c, k0(i, k) == by + 1000.0 * i + k && &k0(i, k) == &m(i, k), "%s(%d, %d) is %g, expected %g", name, i, k, k0(i, k), by + 1000.0 * i + k);
  };
  M m(n0, n1, l, r);
  fill(m, 0);
  check(m, 0, "m");
  M z{m};
  fill(z, 5);
  check(m, 0, "m");
  m = z;
  fill(z, 9);
  check(m, 5, "m");
  M t{std::move(z)};
  check(t, 9, "t");
  m = std::move(t);
  check(m, 9, "m");
}
MC_SUITE("band, very large", huge_band, 1, 1);

template <template <typename> class A, bool lower>
static void huge_triangle(Ctx& c) {
  const int n = c.of({129, 257, 400, 600});
  c.log("n = %d", n);
  using M = A<int>;
  auto fill = [&](M& m, int by) { for (int j = 0; j < n; ++j) for (int i = lower ? j : 0; i < (lower ? n : j + 1); ++i) m(i, j) = by + 1000 * i + j; };
  auto check = [&](M& m, int by, const char* name) {
    MC_CHECK(c, m.size() == n && m.capacity() >= n, "%s has %ld rows, expected %d", name, (long)m.size(), n);
    for (int j = 0; j < n; ++j) for (int i = lower ? j : 0; i < (lower ? n : j + 1); ++i) MC_CHECK(c, m(i, j) == by + 1000 * i + j, "%s(%d, %d) is %d, expected %d", name, i, j, m(i, j), by + 1000 * i + j);
  };
  M m(n);
  fill(m, 0);
  check(m, 0, "m");
  M z{m};
  fill(z, 5);
  check(m, 0, "m");
  m = z;
  fill(z, 9);
  check(m, 5, "m");
  M t{std::move(z)};
  check(t, 9, "t");
  m = std::move(t);
  check(m, 9, "m");
}
MC_SUITE("lower, very large", (huge_triangle<il::LowerArray2D, true>), 1, 1);
MC_SUITE("upper, very large", (huge_triangle<il::UpperArray2D, false>), 1, 1);

template <typename I>
static void huge_csr(Ctx& c) {
  using M = il::SparseMatrixCSR<I, double>;
  static const int shape[][2] = {{3, 70001}, {70001, 3}, {300, 300}, {33000, 40000}};
  const int which = c.pick(4), h = shape[which][0], w = shape[which][1], per = w > h ? 17 : 2;
  c.log("%d x %d, %d entries by row", h, w, per);
  il::Array<I> col{}, row{};
  il::Array<double> el{};
  auto column = [&](int i, int p) { return int(((long)w - 1) * p / (per - 1)) - (p == per - 1 ? 0 : p > 0 ? i % 3 % w : 0); };
  row.Append(I(0));
  for (int i = 0; i < h; ++i) {
    for (int p = 0; p < per; ++p) { col.Append(I(column(i, p))); el.Append(i * 20.0 + p); }
    row.Append(I(col.size()));
  }
  auto check = [&](M& m, const char* name) {
    MC_CHECK(c, m.size(0) == h && m.size(1) == w && m.nbNonZeros() == (long)h * per, "%s is a matrix %ld x %ld with %ld entries", name, (long)m.size(0), (long)m.size(1), (long)m.nbNonZeros());
    for (int i = 0; i < h; ++i) {
      MC_CHECK(c, m.row(i) == i * per, "%s: row(%d) is %ld", name, i, (long)m.row(i));
      for (int p = 0; p < per; ++p) MC_CHECK(c, m.column(i * per + p) == column(i, p) && m(i, p) == i * 20.0 + p && m[i * per + p] == i * 20.0 + p, "%s: entry %d of row %d is wrong", name, p, i);
    }
    MC_CHECK(c, m.row(h) == h * per, "%s: row(%d) is %ld", name, h, (long)m.row(h));
  };
  M m{h, w, col, row, el};
  check(m, "m");
  M z{m};
  check(z, "z");
  M t{std::move(z)};
  check(t, "t");
  M u{};
  u = t;
  check(u, "u");
  u = std::move(t);
  check(u, "u");
  check(m, "m");
}
MC_SUITE("csr<int>, very large", huge_csr<int>, 1, 1);
MC_SUITE("csr<int_t>, very large", huge_csr<int_t>, 1, 1);
