// P30: sparse matrices against the dense matrix they denote.
#include <algorithm>
#include <cmath>
#include <set>
#include <sys/time.h>
#include <utility>
#include <vector>

#include "../lib/ilmc.h"

#include <il/SparseMatrixCSR.h>
#include <il/linearAlgebra/sparse/blas/sparseBlas.h>
#include <il/linearAlgebra/sparse/blas/sparseDot.h>
#if PART >= 1
#include <il/linearAlgebra/sparse/factorization/Pardiso.h>
#include <il/linearAlgebra/sparse/factorization/GmresIlu0.h>
#endif

using mc::Ctx;
typedef std::vector<std::vector<double>> Dense;

template <typename I, typename T> using Csr = il::SparseMatrixCSR<I, T>;

// Larger matrices: their pattern is one of a few families
static bool kLarge = false;
struct Large { Large() { kLarge = true; } ~Large() { kLarge = false; } };
static int kFamily = 0;
static int large_size(Ctx& c) { return c.thorough ? c.of({4, 5, 6, 8, 9, 16, 17, 31, 32, 33, 64, 65}) : c.of({5, 16, 33}); }
static void pick_family(Ctx& c) { if (kLarge) { kFamily = c.pick(6); c.log("family %d", kFamily); } }
static bool member(int i, int j) {
  switch (kFamily) {
    case 0: return std::abs(i - j) <= 1;
    case 1: return (i * 7 + j * 3) % 5 == 0;
    case 2: return true;
    case 3: return i == 0 || j == 0 || i == j;
    case 4: return i % 3 != 1 && (j % 4 == i % 4 || j == i + 1);
    default: return j > i + 2 || (i % 5 == 4 && j == 0);
  }
}

// every entry, through every accessor
template <typename I, typename T>
static void check_csr(Ctx& c, Csr<I, T>& A, const Dense& want, const std::set<std::pair<int, int>>& pattern, const char* when) {
  const int n0 = int(want.size()), n1 = n0 ? int(want[0].size()) : int(A.size(1));
  const Csr<I, T>& K = A;
  if (A.size(0) != n0 || A.size(1) != n1) c.fail("%s: the matrix is %dx%d instead of %dx%d", when, int(A.size(0)), int(A.size(1)), n0, n1);
  if (A.nbNonZeros() != il::int_t(pattern.size())) c.fail("%s: %d stored entries instead of %d", when, int(A.nbNonZeros()), int(pattern.size()));
  if (K.row(0) != 0) c.fail("%s: the first row does not start at 0", when);
  int k = 0;
  for (int i = 0; i < n0; ++i) {
    if (K.rowData()[i] != K.row(i) || A.RowData()[i] != K.row(i)) c.fail("%s: rowData differs from row", when);
    if (int(K.row(i)) != k) c.fail("%s: row %d starts at %d instead of %d", when, i, int(K.row(i)), k);
    int last = -1, p = 0;
    for (auto it = pattern.lower_bound({i, 0}); it != pattern.end() && it->first == i; ++it, ++k, ++p) {
      if (int(K.column(k)) != it->second) c.fail("%s: entry %d is in column %d instead of %d", when, k, int(K.column(k)), it->second);
      if (int(K.column(k)) <= last) c.fail("%s: the columns of row %d are not increasing", when, i);
      last = int(K.column(k));
      if (K.columnData()[k] != K.column(k) || A.ColumnData()[k] != K.column(k)) c.fail("%s: columnData differs from column", when);
      const double w = want[i][it->second];
      if (!(K[k] == T(w)) || !(A[k] == T(w)) || !(K.element(k) == T(w)) || !(K(i, p) == T(w)) || !(A(i, p) == T(w)) || !(K.elementData()[k] == T(w)) || !(A.ElementData()[k] == T(w)))
        c.fail("%s: the entry (%d, %d) is wrong", when, i, it->second);
    }
#ifndef NDEBUG
    bool rej = false;
    try { (void)K(i, p); } catch (il::AbortException&) { rej = true; }
    if (!rej) c.fail("%s: an entry beyond the end of row %d was accepted", when, i);
#endif
  }
  if (int(K.row(n0)) != k) c.fail("%s: the last row ends at %d instead of %d", when, int(K.row(n0)), k);
}

// y <- alpha A x + beta y, and the norm
template <typename I>
static void check_products(Ctx& c, const Csr<I, double>& A, const Dense& d, int n0, int n1) {
  static const double kS[3] = {0, 1, -2};
  for (int ka = 0; ka < 3; ++ka) for (int kb = 0; kb < 3; ++kb) {
    il::Array<double> x{n1}, y{n0};
    for (int j = 0; j < n1; ++j) x[j] = 3 + 4 * j - 9 * (j % 2);
    for (int i = 0; i < n0; ++i) y[i] = 100 + i;
    il::blas(kS[ka], A, x, kS[kb], il::io, y);
    if (y.size() != n0 || x.size() != n1) c.fail("a product changed the size of a vector");
    for (int j = 0; j < n1; ++j) if (x[j] != 3 + 4 * j - 9 * (j % 2)) c.fail("a product modified its operand");
    for (int i = 0; i < n0; ++i) {
      double w = 0;
      for (int j = 0; j < n1; ++j) w += d[i][j] * x[j];
      w = kS[ka] * w + kS[kb] * (100 + i);
      if (y[i] != w) c.fail("element %d of alpha A x + beta y is %g instead of %g", i, y[i], w);
    }
  }
  il::Array<double> beta{n0}, alpha{n1};
  for (int signs = 0; signs < 4; ++signs) {
  for (int i = 0; i < n0; ++i) beta[i] = (i % 2 ? 4 : 0.5) * (signs & 1 && i % 2 == 0 ? -1 : 1);
  for (int j = 0; j < n1; ++j) alpha[j] = (1 + j) * (signs & 2 && j % 2 == 0 ? -1 : 1);
  double w = 0;
  for (int i = 0; i < n0; ++i) {
    double s = 0;
    for (int j = 0; j < n1; ++j) s += std::fabs(d[i][j] * alpha[j] / beta[i]);
    w = std::max(w, s);
  }
  double got = il::norm(A, il::Norm::Linf, beta, alpha);
  if (got != w) c.fail("the scaled infinity norm is %g instead of %g", got, w);
  }
}

template <typename I, typename T>
static void set_values(Csr<I, T>& A, Dense& d, int salt) {
  for (int i = 0, k = 0; i < int(d.size()); ++i)
    for (; k < int(A.row(i + 1)); ++k) {
      double v = (k * 5 + salt) % 11 - 4;
      A[k] = T(v);
      d[i][size_t(A.column(k))] = v;
    }
}

#if PART == 0
// ---- assembly from a list of positions --------------------------------------
template <typename I, typename T>
static void assemble(Ctx& c) {
  std::vector<std::pair<int, int>> given;
  const int n = kLarge ? large_size(c) : c.pick(4);
  pick_family(c);
  if (kLarge) {
    const int order = c.pick(5), twice = c.pick(3);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (member(i, j)) {
      given.push_back({i, j});
      if (twice == 1 && (i + j) % 2 == 0) given.push_back({i, j});
      if (twice == 2) { given.insert(given.begin(), {i, j}); if (i % 2) given.push_back({i, j}); }
    }
    if (order == 1) std::reverse(given.begin(), given.end());
    if (order == 2) std::stable_sort(given.begin(), given.end(), [](const std::pair<int, int>& a, const std::pair<int, int>& b) { return a.second < b.second; });
    if (order == 3) std::stable_sort(given.begin(), given.end(), [](const std::pair<int, int>& a, const std::pair<int, int>& b) { return (a.first * 5 + a.second * 3) % 7 < (b.first * 5 + b.second * 3) % 7; });
    if (order == 4) std::stable_sort(given.begin(), given.end(), [](const std::pair<int, int>& a, const std::pair<int, int>& b) { return a.first > b.first; });
    c.log("%d positions of a matrix of size %d, order %d, duplicates %d", (int)given.size(), n, order, twice);
  }
  const int len = kLarge ? (int)given.size() : n == 0 ? 0 : c.pick(c.bound + 1 - (n == 3 ? 1 : 0));
  il::Array<il::StaticArray<I, 2>> pos{len};
  std::vector<std::pair<int, int>> p;
  std::set<std::pair<int, int>> pattern;
  for (int l = 0; l < len; ++l) {
    int i = kLarge ? given[l].first : c.pick(n), j = kLarge ? given[l].second : c.pick(n);
    pos[l][0] = I(i); pos[l][1] = I(j);
    p.push_back({i, j});
    pattern.insert({i, j});
    if (!kLarge) c.log("position %d: (%d, %d)", l, i, j);
  }
  const int before = c.pick(2);
  il::Array<I> index{before * 3, I(77)};
  Csr<I, T> A{n, pos, il::io, index};
  if (pos.size() != len) c.fail("the list of positions changed");
  for (int l = 0; l < len; ++l) if (pos[l][0] != I(p[l].first) || pos[l][1] != I(p[l].second)) c.fail("the list of positions was modified");
  Dense d(n, std::vector<double>(n, 0.0));
  check_csr<I, T>(c, A, d, pattern, "after the assembly");
  if (index.size() != len) c.fail("%d indices for %d positions", int(index.size()), len);
  for (int l = 0; l < len; ++l) {
    const I k = index[l];
    if (k < 0 || k >= A.nbNonZeros()) c.fail("the index of position %d is outside of the matrix", l);
    if (A.column(k) != I(p[l].second) || A.row(p[l].first) > k || A.row(p[l].first + 1) <= k) c.fail("the index of position %d does not denote (%d, %d)", l, p[l].first, p[l].second);
  }
  // accumulate a value per position, as the assembly of a finite-element matrix does
  for (int l = 0; l < len; ++l) { A[index[l]] += T(1 + l % 99 * (l % 99)); d[p[l].first][p[l].second] += 1 + l % 99 * (l % 99); }
  check_csr<I, T>(c, A, d, pattern, "after the accumulation");

  // copies and moves
  switch (c.pick(5)) {
    case 0: break;
    case 1: {
      Csr<I, T> B{A};
      check_csr<I, T>(c, B, d, pattern, "copy");
      if (B.nbNonZeros()) B[0] += T(5);
      check_csr<I, T>(c, A, d, pattern, "the original after its copy was modified");
      break;
    }
    case 2: {
      Csr<I, T> B{std::move(A)};
      check_csr<I, T>(c, B, d, pattern, "moved");
      A = B;
      check_csr<I, T>(c, A, d, pattern, "assigned to the moved-from matrix");
      break;
    }
    case 3: {
      il::Array<il::StaticArray<I, 2>> one{1};
      one[0][0] = 0; one[0][1] = 1;
      il::Array<I> id{};
      Csr<I, T> B{2, one, il::io, id};
      B = A;
      check_csr<I, T>(c, B, d, pattern, "assigned");
      check_csr<I, T>(c, A, d, pattern, "the source of an assignment");
      Csr<I, T>& self = B;
      B = self;
      check_csr<I, T>(c, B, d, pattern, "assigned to itself");
      break;
    }
    default: {
      Csr<I, T> B{};
      if (B.size(0) != 0 || B.size(1) != 0 || B.nbNonZeros() != 0) c.fail("a default-constructed matrix is not empty");
      B = std::move(A);
      check_csr<I, T>(c, B, d, pattern, "move-assigned");
    }
  }
}

// ---- construction from compressed rows, products ----------------------------
template <typename I>
static void compressed(Ctx& c) {
  const int n0 = kLarge ? large_size(c) : c.pick(c.bound + 1), n1 = kLarge ? large_size(c) : c.pick(c.bound + 1);
  pick_family(c);
  std::set<std::pair<int, int>> pattern;
  std::vector<std::vector<int>> cols(n0);
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) if (kLarge ? member(i, j) : c.flip()) { pattern.insert({i, j}); cols[i].push_back(j); }
  il::Array<I> row{n0 + 1, I(0)}, column{il::int_t(pattern.size())};
  il::Array<double> element{il::int_t(pattern.size()), 0.0};
  int k = 0;
  for (int i = 0; i < n0; ++i) { for (int j : cols[i]) column[k++] = I(j); row[i + 1] = I(k); }
  Dense d(n0, std::vector<double>(n1, 0.0));
  const int how = c.pick(2);
  c.log("%dx%d with %d entries, constructor %d", n0, n1, k, how);
  if (how == 0) {
    Csr<I, double> A{n0, n1, column, row};
    set_values(A, d, 3);
    check_csr<I, double>(c, A, d, pattern, "from rows and columns");
    check_products<I>(c, A, d, n0, n1);
    check_csr<I, double>(c, A, d, pattern, "after products");
  } else if (how == 1) {
    for (int l = 0; l < k; ++l) element[l] = 7 * l - 3;
    int l = 0;
    for (auto& q : pattern) d[q.first][q.second] = 7 * l++ - 3;
    Csr<I, double> A{n0, n1, column, row, element};
    check_csr<I, double>(c, A, d, pattern, "from rows, columns and elements");
    check_products<I>(c, A, d, n0, n1);
  }
}
// the constructor from one list of columns per row
template <typename I>
static void small_rows(Ctx& c) {
  const int n0 = kLarge ? large_size(c) : c.pick(c.bound + 1), n1 = kLarge ? large_size(c) : c.pick(c.bound + 1);
  pick_family(c);
  std::set<std::pair<int, int>> pattern;
  il::Array<il::SmallArray<I, 2>> rows{n0};
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) if (kLarge ? member(i, j) : c.flip()) { pattern.insert({i, j}); rows[i].Append(I(j)); }
  Dense d(n0, std::vector<double>(n1, 0.0));
  c.log("%d rows, %d columns", n0, n1);
  Csr<I, double> A{il::int_t(n1), il::int_t(n0), rows};
  set_values(A, d, 1);
  check_csr<I, double>(c, A, d, pattern, "from lists of columns");
  check_products<I>(c, A, d, n0, n1);
}

// ---- products through MKL handles -------------------------------------------
template <typename T>
static Csr<int, T> build(Ctx& c, int n0, int n1, Dense& d, std::set<std::pair<int, int>>& pattern, int salt) {
  pick_family(c);
  il::Array<int> row{n0 + 1, 0}, column{};
  for (int i = 0; i < n0; ++i) {
    for (int j = 0; j < n1; ++j) if (kLarge ? member(i, j) : c.flip()) { pattern.insert({i, j}); column.Append(j); }
    row[i + 1] = int(column.size());
  }
  Csr<int, T> A{n0, n1, column, row};
  d.assign(n0, std::vector<double>(n1, 0.0));
  set_values(A, d, salt);
  return A;
}
template <typename T>
static void handle_product(Ctx& c) {
  const int n0 = kLarge ? large_size(c) : 1 + c.pick(c.bound), n1 = kLarge ? large_size(c) : 1 + c.pick(c.bound);
  Dense d;
  std::set<std::pair<int, int>> pattern;
  Csr<int, T> A = build<T>(c, n0, n1, d, pattern, 2);
  const int hint = c.pick(2);
  {
    il::SparseMatrixBlas<int, T> H{il::io, A};
    if (hint) H.setNbMatrixVector(10);
    static const double kS[3] = {0, 1, -2};
    for (int ka = 0; ka < 3; ++ka) for (int kb = 0; kb < 3; ++kb) {
      il::Array<T> x{n1}, y{n0};
      for (int j = 0; j < n1; ++j) x[j] = T(3 + 4 * j - 9 * (j % 2));
      for (int i = 0; i < n0; ++i) y[i] = T(100 + i);
      il::blas(T(kS[ka]), H, x, T(kS[kb]), il::io, y);
      for (int i = 0; i < n0; ++i) {
        double w = 0;
        for (int j = 0; j < n1; ++j) w += d[i][j] * double(x[j]);
        w = kS[ka] * w + kS[kb] * (100 + i);
        if (y[i] != T(w)) c.fail("element %d of alpha A x + beta y (through a handle) is %g instead of %g", i, double(y[i]), w);
      }
    }
  }
  check_csr<int, T>(c, A, d, pattern, "after products through a handle");
}
static void sparse_times_sparse(Ctx& c) {
  const int m = kLarge ? large_size(c) : 1 + c.pick(c.bound), k = kLarge ? large_size(c) : 1 + c.pick(c.bound), n = kLarge ? large_size(c) : 1 + c.pick(c.bound);
  if (!kLarge && m * k + k * n > 3 * c.bound) return;
  Dense a, b;
  std::set<std::pair<int, int>> pa, pb;
  Csr<int, double> A = build<double>(c, m, k, a, pa, 2);
  const bool square = m == k && c.flip();
  Csr<int, double> B0;
  if (!square) B0 = build<double>(c, k, n, b, pb, 6); else { b = a; pb = pa; }
  const int bn = square ? k : n;
  Csr<int, double>& B = square ? A : B0;
  Csr<int, double> C = il::dot(il::io, A, B);
  check_csr<int, double>(c, A, a, pa, "left operand");
  check_csr<int, double>(c, B, b, pb, "right operand");
  if (C.size(0) != m || C.size(1) != bn) c.fail("the product has the wrong shape");
  Dense got(m, std::vector<double>(bn, 0.0));
  int last = 0;
  if (C.row(0) != 0) c.fail("the first row of the product does not start at 0");
  for (int i = 0; i < m; ++i) {
    if (C.row(i + 1) < C.row(i)) c.fail("the rows of the product are not ordered");
    for (int e = C.row(i); e < C.row(i + 1); ++e) {
      if (C.column(e) < 0 || C.column(e) >= bn) c.fail("an entry of the product is outside of the matrix");
      got[i][C.column(e)] += C[e];
      last = e + 1;
    }
  }
  if (last > C.nbNonZeros()) c.fail("the product has rows beyond its entries");
  for (int i = 0; i < m; ++i) for (int j = 0; j < bn; ++j) {
    double w = 0;
    for (int l = 0; l < k; ++l) w += a[i][l] * b[l][j];
    if (got[i][j] != w) c.fail("the entry (%d, %d) of the product is %g instead of %g", i, j, got[i][j], w);
  }
}

// ---- very large: sizes and positions beyond 8 and 16 bits --------------------
// entry (i, j) of a matrix whose row i has the columns i - 1, i, i + off, as far as they exist
static double chain(int i, int j, int off) { return j == i ? 4 + i % 7 : j == i + off ? -2.0 - i % 3 : j == i - 1 ? 1.0 + i % 5 : 0; }
template <typename F> static void chain_row(int i, int n1, int off, F f) {
  if (i - 1 >= 0 && i - 1 < n1) f(i - 1);
  if (i < n1) f(i);
  if (i + off < n1) f(i + off);
}
template <typename I>
static void huge(Ctx& c) {
  const int n = c.of({129, 300, 33000, 70001}), off = c.of({1, 100}), how = c.pick(5);
  c.log("%d unknowns, the upper diagonal at %d, construction %d", n, off, how);
  Csr<I, double> A;
  const int n1 = how == 3 || how == 4 ? n + 5 : n;
  if (how < 3) {  // from positions in several orders, every position twice
    std::vector<std::pair<int, int>> p;
    for (int i = 0; i < n; ++i) chain_row(i, n1, off, [&](int j) { p.push_back({i, j}); p.push_back({i, j}); });
    if (how == 1) std::reverse(p.begin(), p.end());
    if (how == 2) std::stable_sort(p.begin(), p.end(), [](const std::pair<int, int>& a, const std::pair<int, int>& b) { return (a.first * 5 + a.second * 3) % 7 < (b.first * 5 + b.second * 3) % 7; });
    il::Array<il::StaticArray<I, 2>> pos{il::int_t(p.size())};
    for (size_t l = 0; l < p.size(); ++l) { pos[l][0] = I(p[l].first); pos[l][1] = I(p[l].second); }
    il::Array<I> index{};
    A = Csr<I, double>{n, pos, il::io, index};
    if (index.size() != il::int_t(p.size())) c.fail("%ld indices for %ld positions", long(index.size()), long(p.size()));
    for (size_t l = 0; l < p.size(); ++l) {
      const I k = index[l];
      if (k < 0 || k >= A.nbNonZeros() || A.column(k) != I(p[l].second) || A.row(p[l].first) > k || A.row(p[l].first + 1) <= k) c.fail("the index of position %ld does not denote (%d, %d)", long(l), p[l].first, p[l].second);
      A[k] += chain(p[l].first, p[l].second, off) / 2;
    }
  } else if (how == 3) {
    il::Array<I> row{n + 1, I(0)}, column{};
    il::Array<double> el{};
    for (int i = 0; i < n; ++i) { chain_row(i, n1, off, [&](int j) { column.Append(I(j)); el.Append(chain(i, j, off)); }); row[i + 1] = I(column.size()); }
    A = Csr<I, double>{n, n1, column, row, el};
  } else {
    il::Array<il::SmallArray<I, 2>> rows{n};
    for (int i = 0; i < n; ++i) chain_row(i, n1, off, [&](int j) { rows[i].Append(I(j)); });
    A = Csr<I, double>{il::int_t(n1), il::int_t(n), rows};
    for (int i = 0; i < n; ++i) for (I k = A.row(i); k < A.row(i + 1); ++k) A[k] = chain(i, int(A.column(k)), off);
  }
  auto check = [&](const Csr<I, double>& M, const char* when) {
    if (M.size(0) != n || M.size(1) != n1) c.fail("%s: the matrix is %ldx%ld instead of %dx%d", when, long(M.size(0)), long(M.size(1)), n, n1);
    long k = 0;
    for (int i = 0; i < n; ++i) {
      if (long(M.row(i)) != k) c.fail("%s: row %d starts at %ld instead of %ld", when, i, long(M.row(i)), k);
      int p = 0;
      chain_row(i, n1, off, [&](int j) {
        if (long(M.column(k)) != j || M[k] != chain(i, j, off) || M(i, p) != chain(i, j, off)) c.fail("%s: entry %ld, which is (%d, %d), is wrong", when, k, i, j);
        ++k; ++p;
      });
    }
    if (long(M.row(n)) != k || long(M.nbNonZeros()) != k) c.fail("%s: %ld entries instead of %ld", when, long(M.nbNonZeros()), k);
  };
  check(A, "built");
  Csr<I, double> B{A};
  check(B, "copy");
  Csr<I, double> D{std::move(B)};
  check(D, "moved");
  B = A;
  check(B, "assigned");
  il::Array<double> x{n1}, y{n}, beta{n, 2.0}, alpha{n1, -1.0};
  for (int j = 0; j < n1; ++j) x[j] = j % 13 - 6;
  for (int i = 0; i < n; ++i) y[i] = i % 17;
  il::blas(3.0, A, x, -2.0, il::io, y);
  double most = 0;
  for (int i = 0; i < n; ++i) {
    double w = 0, s = 0;
    chain_row(i, n1, off, [&](int j) { w += chain(i, j, off) * (j % 13 - 6); s += std::fabs(chain(i, j, off)) / 2; });
    most = std::max(most, s);
    if (y[i] != 3 * w - 2 * (i % 17)) c.fail("element %d of 3 A x - 2 y is %g instead of %g", i, y[i], 3 * w - 2 * (i % 17));
  }
  const double got = il::norm(A, il::Norm::Linf, beta, alpha);
  if (got != most) c.fail("the scaled infinity norm is %g instead of %g", got, most);
  check(A, "after a product");
}
static void huge_handle(Ctx& c) {
  const int n = c.of({129, 300, 33000, 70001}), off = c.of({1, 100});
  c.log("%d unknowns, the upper diagonal at %d", n, off);
  il::Array<int> row{n + 1, 0}, column{};
  il::Array<double> el{};
  for (int i = 0; i < n; ++i) { chain_row(i, n, off, [&](int j) { column.Append(j); el.Append(chain(i, j, off)); }); row[i + 1] = int(column.size()); }
  Csr<int, double> A{n, n, column, row, el};
  {
    il::SparseMatrixBlas<int, double> H{il::io, A};
    il::Array<double> x{n}, y{n};
    for (int j = 0; j < n; ++j) { x[j] = j % 13 - 6; y[j] = j % 17; }
    il::blas(3.0, H, x, -2.0, il::io, y);
    for (int i = 0; i < n; ++i) {
      double w = 0;
      chain_row(i, n, off, [&](int j) { w += chain(i, j, off) * (j % 13 - 6); });
      if (y[i] != 3 * w - 2 * (i % 17)) c.fail("element %d of 3 A x - 2 y (through a handle) is %g instead of %g", i, y[i], 3 * w - 2 * (i % 17));
    }
  }
  Csr<int, double> C = il::dot(il::io, A, A);
  if (C.size(0) != n || C.size(1) != n) c.fail("the product is %ldx%ld", long(C.size(0)), long(C.size(1)));
  std::vector<double> want(n, 0.0), have(n, 0.0);
  for (int i = 0; i < n; ++i) {
    std::vector<int> touched;
    chain_row(i, n, off, [&](int k) { chain_row(k, n, off, [&](int j) { want[j] += chain(i, k, off) * chain(k, j, off); touched.push_back(j); }); });
    for (int e = C.row(i); e < C.row(i + 1); ++e) { have[C.column(e)] += C[e]; touched.push_back(C.column(e)); }
    for (int j : touched) if (have[j] != want[j]) c.fail("the entry (%d, %d) of the product is %g instead of %g", i, j, have[j], want[j]);
    for (int j : touched) have[j] = want[j] = 0;
  }
}
MC_SUITE("very large int", huge<int>, 1, 1);
MC_SUITE("very large il::int_t", huge<il::int_t>, 1, 1);
MC_SUITE("very large, handles and products", huge_handle, 1, 1);
MC_SUITE("assembly int double", (assemble<int, double>), 5, 7);
MC_SUITE("assembly il::int_t double", (assemble<il::int_t, double>), 5, 6);
MC_SUITE("assembly int float", (assemble<int, float>), 4, 5);
MC_SUITE("compressed rows int", compressed<int>, 3, 4);
MC_SUITE("compressed rows il::int_t", compressed<il::int_t>, 3, 4);
MC_SUITE("lists of columns int", small_rows<int>, 3, 4);
MC_SUITE("lists of columns il::int_t", small_rows<il::int_t>, 3, 4);
MC_SUITE("product through a handle double", handle_product<double>, 3, 4);
MC_SUITE("product through a handle float", handle_product<float>, 3, 4);
MC_SUITE("sparse times sparse", sparse_times_sparse, 3, 4);
#define LARGE(name, f, tag) static void tag(Ctx& c) { Large l; f(c); } MC_SUITE(name ", larger", tag, 1, 1);
LARGE("assembly int double", (assemble<int, double>), assemble_int_large)
LARGE("assembly il::int_t double", (assemble<il::int_t, double>), assemble_long_large)
LARGE("compressed rows int", compressed<int>, compressed_int_large)
LARGE("compressed rows il::int_t", compressed<il::int_t>, compressed_long_large)
LARGE("lists of columns int", small_rows<int>, small_rows_large)
LARGE("product through a handle double", handle_product<double>, handle_double_large)
LARGE("product through a handle float", handle_product<float>, handle_float_large)
LARGE("sparse times sparse", sparse_times_sparse, product_large)
#endif

#if PART == 1
static double det(const Dense& a) {
  const int n = int(a.size());
  if (n == 0) return 1;
  if (n == 1) return a[0][0];
  double s = 0;
  for (int j = 0; j < n; ++j) {
    if (a[0][j] == 0) continue;
    Dense m;
    for (int i = 1; i < n; ++i) { std::vector<double> r; for (int k = 0; k < n; ++k) if (k != j) r.push_back(a[i][k]); m.push_back(r); }
    s += (j % 2 ? -1 : 1) * a[0][j] * det(m);
  }
  return s;
}
template <typename I>
static Csr<I, double> compress(const Dense& a, const std::set<std::pair<int, int>>& pattern) {
  const int n = int(a.size());
  il::Array<I> row{n + 1, I(0)}, column{};
  il::Array<double> element{};
  for (int i = 0; i < n; ++i) {
    for (auto it = pattern.lower_bound({i, 0}); it != pattern.end() && it->first == i; ++it) { column.Append(I(it->second)); element.Append(a[i][it->second]); }
    row[i + 1] = I(column.size());
  }
  return Csr<I, double>{I(n), n ? I(a[0].size()) : I(0), column, row, element};
}
static std::vector<double> rhs(int n, int salt) {
  std::vector<double> y(n);
  for (int i = 0; i < n; ++i) y[i] = salt == 0 ? 1 + 3 * i : salt == 1 ? -2 + i * i : 0;
  return y;
}
// |A x - y| against tol (|A| |x| + |y|)
static void check_solution(Ctx& c, const Dense& a, const il::Array<double>& x, const std::vector<double>& y, double tol, const char* what) {
  const int n = int(a.size());
  if (x.size() != n) c.fail("%s: %d unknowns instead of %d", what, int(x.size()), n);
  for (int i = 0; i < n; ++i) {
    double r = -y[i], s = std::fabs(y[i]);
    for (int j = 0; j < n; ++j) { r += a[i][j] * x[j]; s += std::fabs(a[i][j] * x[j]); }
    if (!(std::fabs(r) <= tol * s)) c.fail("%s: equation %d is off by %g (of %g)", what, i, r, s);
  }
}
// the smallest singular value is bounded below for integer matrices with few small entries
static Dense pick_matrix(Ctx& c, int n, int nv, std::set<std::pair<int, int>>& pattern) {
  static const double kV[4] = {0, 2, -1, 3};
  Dense a(n, std::vector<double>(n, 0.0));
  if (kLarge) {  // a dominant diagonal, or a dominant cycle next to it
    pick_family(c);
    const int cycle = c.pick(3);
    for (int i = 0; i < n; ++i) {
      int entries = 0;
      for (int j = 0; j < n; ++j) if (member(i, j) || j == (i + cycle) % n) { pattern.insert({i, j}); a[i][j] = kV[(i * 2 + j) % 4]; ++entries; }
      a[i][(i + cycle) % n] = (i % 2 ? -3.0 : 3.5) * (entries + 1);
    }
    return a;
  }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    const int k = c.pick(nv);
    if (k) { a[i][j] = kV[k]; pattern.insert({i, j}); }
  }
  return a;
}

static void pardiso_all(Ctx& c) {
  const int n = kLarge ? large_size(c) : 1 + c.pick(c.bound > 3 ? 3 : c.bound);
  std::set<std::pair<int, int>> pattern;
  Dense a = pick_matrix(c, n, n < 3 || c.bound > 3 ? 4 : 3, pattern);
  if (!kLarge && det(a) == 0) return;
  Csr<il::int_t, double> A = compress<il::int_t>(a, pattern);
  il::Pardiso solver{};
  solver.SymbolicFactorization(A);
  solver.NumericalFactorization(A);
  for (int s = 0; s < 3; ++s) {
    std::vector<double> y = rhs(n, s);
    il::Array<double> b{n};
    for (int i = 0; i < n; ++i) b[i] = y[i];
    il::Array<double> x = solver.Solve(A, b);
    check_solution(c, a, x, y, 1e-12, "Pardiso");
    for (int i = 0; i < n; ++i) if (b[i] != y[i]) c.fail("the right-hand side was modified");
  }
  check_csr<il::int_t, double>(c, A, a, pattern, "after Pardiso");
}

// The clock of the process is controlled: MKL decides with it whether the iterations of SolveIterative are worth their time.
// It moves by one microsecond at each reading, but at the chosen readings where it does not move, or moves by seven.
static long g_us = 1000000, g_reading = 0;
static std::vector<std::pair<long, long>> g_deviations;
extern "C" int gettimeofday(struct timeval* t, void*) noexcept {
  long delta = 1;
  for (auto& q : g_deviations) if (q.first == g_reading) delta = q.second;
  ++g_reading;
  g_us += delta;
  t->tv_sec = g_us / 1000000;
  t->tv_usec = g_us % 1000000;
  return 0;
}
struct Clock {
  Clock() { g_us = 1000000; g_reading = 0; g_deviations.clear(); }
  ~Clock() { g_deviations.clear(); }
};

static void pardiso_clock(Ctx& c) {
  Clock clock;
  std::set<std::pair<int, int>> pattern[2] = {{{0, 0}, {0, 1}, {1, 0}, {1, 1}}, {{0, 0}, {0, 2}, {1, 1}, {2, 0}, {2, 1}, {2, 2}}};
  Dense d[2] = {{{4, 1}, {2, 3}}, {{5, 0, 2}, {0, 3, 0}, {1, 1, 4}}};
  const int m = c.pick(2), n = m + 2;
  Csr<il::int_t, double> A = compress<il::int_t>(d[m], pattern[m]);
  for (int k = 0, from = 0; k < c.bound && from < 48; ++k) {
    const int at = c.pick(49 - from);
    if (at == 0) break;
    from += at;
    g_deviations.push_back({from - 1, c.flip() ? 0 : 7});
    c.log("reading %d of the clock: %d microseconds after the previous one", from - 1, int(g_deviations.back().second));
  }
  il::Pardiso solver{};
  solver.SymbolicFactorization(A);
  solver.NumericalFactorization(A);
  std::vector<double> y = rhs(n, 0);
  il::Array<double> b{n};
  for (int i = 0; i < n; ++i) b[i] = y[i];
  for (int step = 0; step < 3; ++step) {
    if (step) {
      for (auto& q : pattern[m]) d[m][q.first][q.second] *= (q.first == q.second ? 1.25 : -0.5);
      int k = 0;
      for (auto& q : pattern[m]) A[k++] = d[m][q.first][q.second];
    }
    check_solution(c, d[m], solver.SolveIterative(A, b), y, 1e-5, "Pardiso, iterative");
  }
  solver.NumericalFactorization(A);
  check_solution(c, d[m], solver.Solve(A, b), y, 1e-12, "Pardiso");
}

// histories of one solver used for two matrices whose values change
static void pardiso_history(Ctx& c) {
  std::set<std::pair<int, int>> pattern[2] = {{{0, 0}, {0, 1}, {1, 0}, {1, 1}}, {{0, 0}, {0, 2}, {1, 1}, {2, 0}, {2, 1}, {2, 2}}};
  Dense d[2] = {{{4, 1}, {2, 3}}, {{5, 0, 2}, {0, 3, 0}, {1, 1, 4}}};
  Csr<il::int_t, double> A[2] = {compress<il::int_t>(d[0], pattern[0]), compress<il::int_t>(d[1], pattern[1])};
  il::Pardiso solver{};
  int sym = -1, num = -1;
  Dense factored;
  Clock clock;
  for (int step = 0; step < c.bound; ++step) {
    const int op = c.pick(6);
    if (op == 0) break;
    if (op <= 2) {
      c.log("symbolic factorization of matrix %d", op - 1);
      solver.SymbolicFactorization(A[op - 1]);
      sym = op - 1; num = -1;
    } else if (op == 3) {
      if (sym < 0) {
#ifndef NDEBUG
        bool rej = false;
        try { solver.NumericalFactorization(A[0]); } catch (il::AbortException&) { rej = true; }
        if (!rej) c.fail("a numerical factorization was accepted before a symbolic one");
#endif
        continue;
      }
      c.log("numerical factorization");
      solver.NumericalFactorization(A[sym]);
      num = sym;
      factored = d[sym];
    } else if (op == 4) {
      if (sym < 0) continue;
      c.log("new values");
      for (auto& q : pattern[sym]) d[sym][q.first][q.second] *= (q.first == q.second ? 1.25 : -0.5);
      int k = 0;
      for (auto& q : pattern[sym]) A[sym][k++] = d[sym][q.first][q.second];
    } else {
      if (num < 0) {
#ifndef NDEBUG
        il::Array<double> b{sym < 0 ? 2 : sym + 2, 1.0};
        bool rej = false;
        try { (void)solver.Solve(A[sym < 0 ? 0 : sym], b); } catch (il::AbortException&) { rej = true; }
        if (!rej) c.fail("a system was solved before its factorization");
#endif
        continue;
      }
      const int n = num + 2;
      std::vector<double> y = rhs(n, step % 2);
      il::Array<double> b{n};
      for (int i = 0; i < n; ++i) b[i] = y[i];
      if (factored == d[num]) {
        c.log("solve");
        check_solution(c, d[num], solver.Solve(A[num], b), y, 1e-12, "Pardiso");
      }
      c.log("iterative solve");
      check_solution(c, d[num], solver.SolveIterative(A[num], b), y, 1e-5, "Pardiso, iterative");
      if (factored != d[num]) factored.clear();  // the matrix may or may not have been factorized again
    }
  }
}

static void gmres_all(Ctx& c) {
  const int n = kLarge ? large_size(c) : 1 + c.pick(c.bound > 3 ? 3 : c.bound);
  std::set<std::pair<int, int>> pattern;
  Dense a = pick_matrix(c, n, n < 3 ? 4 : c.bound > 3 ? 3 : 2, pattern);
  for (int i = 0; i < n; ++i) { a[i][i] = (i % 2 ? -8 : 9) * (kLarge ? n : 1); pattern.insert({i, i}); }
  Csr<int, double> A = compress<int>(a, pattern);
  il::GmresIlu0 solver{1.0e-10, 50, 10};
  solver.computePreconditionner(il::io, A);
  check_csr<int, double>(c, A, a, pattern, "after the preconditioner");
  for (int s = 0; s < 3; ++s) {
    std::vector<double> y = rhs(n, s);
    il::Array<double> b{n};
    for (int i = 0; i < n; ++i) b[i] = y[i];
    il::Array<double> x = solver.solve(b, il::io, A);
    check_csr<int, double>(c, A, a, pattern, "after the solution");
    for (int i = 0; i < n; ++i) if (b[i] != y[i]) c.fail("the right-hand side was modified");
    double r2 = 0, y2 = 0;
    if (x.size() != n) c.fail("wrong number of unknowns");
    for (int i = 0; i < n; ++i) {
      double r = -y[i];
      for (int j = 0; j < n; ++j) r += a[i][j] * x[j];
      r2 += r * r; y2 += y[i] * y[i];
    }
    if (!(std::sqrt(r2) <= 1.1e-10 * std::sqrt(y2))) c.fail("the residual %g of GmresIlu0 is above the required precision (right-hand side %g)", std::sqrt(r2), std::sqrt(y2));
    if (solver.nbIterations() < 0 || solver.nbIterations() > 50) c.fail("%d iterations out of at most 50", int(solver.nbIterations()));
  }
}
// operands whose sizes do not fit are refused
#ifndef NDEBUG
template <typename F> static bool refused(F f) { try { f(); } catch (il::AbortException&) { return true; } return false; }
template <typename I> static Csr<I, double> diagonal(int n, int m) {
  Dense a(n, std::vector<double>(m, 0.0));
  std::set<std::pair<int, int>> pattern;
  for (int i = 0; i < n; ++i) { a[i][i % m] = 2 + i; pattern.insert({i, i % m}); }
  return compress<I>(a, pattern);
}
static void refusals(Ctx& c) {
  Clock clock;
  const int n = 1 + c.pick(c.bound), rows = 1 + c.pick(c.bound), cols = 1 + c.pick(c.bound), ny = c.pick(c.bound + 2), what = c.pick(7);
  c.log("operation %d: %d unknowns, a matrix of %d rows and %d columns, a right-hand side of %d", what, n, rows, cols, ny);
  il::Array<double> y{ny, 1.0};
  if (what < 4) {
    Csr<il::int_t, double> A = diagonal<il::int_t>(n, n), B = diagonal<il::int_t>(rows, cols);
    il::Pardiso solver{};
    if (what == 0) {
      const bool r = refused([&] { solver.SymbolicFactorization(B); });
      if (r != (rows != cols)) c.fail("the symbolic factorization is %s", r ? "refused" : "accepted");
      return;
    }
    solver.SymbolicFactorization(A);
    if (what == 1) {
      const bool r = refused([&] { solver.NumericalFactorization(B); });
      if (r != (rows != n || cols != n)) c.fail("the numerical factorization is %s", r ? "refused" : "accepted");
      return;
    }
    solver.NumericalFactorization(A);
    const bool r = refused([&] { if (what == 2) (void)solver.Solve(B, y); else (void)solver.SolveIterative(B, y); });
    if (r != (rows != n || cols != n || ny != n)) c.fail("the solution is %s", r ? "refused" : "accepted");
  } else if (what < 6) {
    Csr<int, double> A = diagonal<int>(n, n), B = diagonal<int>(rows, cols);
    il::GmresIlu0 solver{1.0e-10, 50, 10};
    if (what == 4) {
      const bool r = refused([&] { solver.computePreconditionner(il::io, B); });
      if (r != (rows != cols)) c.fail("the preconditioner is %s", r ? "refused" : "accepted");
      return;
    }
    if (!refused([&] { (void)solver.solve(y, il::io, A); })) c.fail("a system was solved before its preconditioner was computed");
    solver.computePreconditionner(il::io, A);
    const bool r = refused([&] { (void)solver.solve(y, il::io, A); });
    if (r != (ny != n)) c.fail("the solution is %s", r ? "refused" : "accepted");
    // another matrix, whose preconditioner has not been computed
    il::Array<double> z{rows, 1.0};
    if (rows == cols && !refused([&] { (void)solver.solve(z, il::io, B); })) c.fail("a system was solved with the preconditioner of another matrix");
  } else {
    Csr<int, double> A = diagonal<int>(n, ny + 1), B = diagonal<int>(rows, cols);
    const bool r = refused([&] { (void)il::dot(il::io, A, B); });
    if (r != (ny + 1 != rows)) c.fail("the product is %s", r ? "refused" : "accepted");
    il::Array<double> beta{cols + 1, 1.0}, alpha{ny, 1.0};
    const bool q = refused([&] { (void)il::norm(B, il::Norm::Linf, beta, alpha); });
    if (q != (cols + 1 != rows || ny != cols)) c.fail("the norm is %s", q ? "refused" : "accepted");
  }
}
#endif
// too few iterations: the solver stops, and says how many it used
static void gmres_limits(Ctx& c) {
  const int n = 1 + c.pick(6), maxit = 1 + c.pick(c.bound), restart = 1 + c.pick(4), prec = c.pick(3);
  Dense a(n, std::vector<double>(n, 0.0));
  std::set<std::pair<int, int>> pattern;
  const int shape = c.pick(2);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
    if (i == j || (shape ? (i + 2 * j) % 3 == 0 : i == (j + 1) % n || j == (i + 2) % n)) { a[i][j] = i == j ? 2.5 : i < j ? -1 : 1.5; pattern.insert({i, j}); }
  Csr<int, double> A = compress<int>(a, pattern);
  static const double kP[3] = {1e-3, 1e-8, 1e-13};
  il::GmresIlu0 solver{};
  solver.setRelativePrecision(kP[prec]);
  solver.setMaxNbIteration(maxit);
  solver.setRestartIteration(restart);
  solver.computePreconditionner(il::io, A);
  std::vector<double> y = rhs(n, 0);
  il::Array<double> b{n};
  for (int i = 0; i < n; ++i) b[i] = y[i];
  c.log("n %d, at most %d iterations, restart after %d, precision %g, shape %d", n, maxit, restart, kP[prec], shape);
  il::Array<double> x = solver.solve(b, il::io, A);
  check_csr<int, double>(c, A, a, pattern, "after the solution");
  if (solver.nbIterations() > maxit) c.fail("%d iterations instead of at most %d", int(solver.nbIterations()), maxit);
  for (int i = 0; i < n; ++i) if (!(std::fabs(x[i]) < 1e6)) c.fail("an unknown is %g", x[i]);
}

#define LARGE(name, f, tag) static void tag(Ctx& c) { Large l; f(c); } MC_SUITE(name ", larger", tag, 1, 1);
LARGE("Pardiso", pardiso_all, pardiso_large)
LARGE("GmresIlu0", gmres_all, gmres_large)
MC_SUITE("Pardiso on every small matrix", pardiso_all, 3, 4);
MC_SUITE("histories of Pardiso", pardiso_history, 6, 8);
#ifndef NDEBUG
MC_SUITE("operands which do not fit", refusals, 3, 5);
#endif
MC_SUITE("Pardiso and the clock", pardiso_clock, 2, 3);
MC_SUITE("GmresIlu0 on every small matrix", gmres_all, 3, 4);
MC_SUITE("GmresIlu0 with few iterations", gmres_limits, 12, 30);
#endif
