// P28: direct solvers, factorisations, inverses, determinants, condition numbers,
// singular values and eigenvalues of every small matrix over a small alphabet, in
// every storage and padding, against exact integer arithmetic (determinants, adjugates,
// characteristic polynomials) and against residuals.
#include <algorithm>
#include <cmath>
#include <complex>
#include <vector>

#include "../lib/ilmc.h"

#include <il/linearAlgebra/dense/factorization/Cholesky.h>
#include <il/linearAlgebra/dense/factorization/Eigen.h>
#include <il/linearAlgebra/dense/factorization/LU.h>
#include <il/linearAlgebra/dense/factorization/Singular.h>
#include <il/linearAlgebra/dense/factorization/linearSolve.h>
#include <il/linearAlgebra/dense/factorization/luDecomposition.h>
#include <il/linearAlgebra/dense/factorization/qrDecomposition.h>
#include <il/linearAlgebra/dense/blas/solve.h>

using mc::Ctx;
typedef std::complex<double> cd;

template <typename T> using DenseT = std::vector<std::vector<T>>;
typedef DenseT<double> Dense;
typedef DenseT<cd> DenseC;

// Elimination with more digits, for the larger matrices
template <typename T> struct Wide { typedef long double type; };
template <> struct Wide<cd> { typedef std::complex<long double> type; };
static double narrow(long double x, double) { return double(x); }
static cd narrow(std::complex<long double> x, cd) { return cd(double(x.real()), double(x.imag())); }
template <typename T> static T eliminate(const DenseT<T>& a, DenseT<T>* inv) {
  typedef typename Wide<T>::type W;
  const int n = int(a.size());
  std::vector<std::vector<W>> m(n, std::vector<W>(inv ? 2 * n : n, W(0)));
  for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) m[i][j] = W(a[i][j]); if (inv) m[i][n + i] = W(1); }
  const int w = inv ? 2 * n : n;
  W d(1);
  for (int k = 0; k < n; ++k) {
    int p = k;
    for (int i = k + 1; i < n; ++i) if (std::abs(m[i][k]) > std::abs(m[p][k])) p = i;
    if (m[p][k] == W(0)) return T(0);
    if (p != k) { std::swap(m[p], m[k]); d = -d; }
    d *= m[k][k];
    for (int i = inv ? 0 : k + 1; i < n; ++i) if (i != k) {
      const W f = m[i][k] / m[k][k];
      if (f != W(0)) for (int j = k; j < w; ++j) m[i][j] -= f * m[k][j];
    }
  }
  if (inv) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) (*inv)[i][j] = narrow(m[i][n + j] / m[i][i], T());
  return narrow(d, T());
}
template <typename T> static T det(const DenseT<T>& a) {
  const int n = int(a.size());
  if (n > 4) return eliminate(a, static_cast<DenseT<T>*>(nullptr));
  if (n == 0) return T(1);
  T s(0);
  for (int j = 0; j < n; ++j) {
    if (a[0][j] == T(0)) continue;
    DenseT<T> m;
    for (int i = 1; i < n; ++i) { std::vector<T> r; for (int k = 0; k < n; ++k) if (k != j) r.push_back(a[i][k]); m.push_back(r); }
    s += T(j % 2 ? -1 : 1) * a[0][j] * det(m);
  }
  return s;
}
template <typename T> static DenseT<T> inverse(const DenseT<T>& a) {
  const int n = int(a.size());
  DenseT<T> inv(n, std::vector<T>(n));
  if (n > 4) { eliminate(a, &inv); return inv; }
  const T d = det(a);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    DenseT<T> m;
    for (int r = 0; r < n; ++r) if (r != j) { std::vector<T> row; for (int k = 0; k < n; ++k) if (k != i) row.push_back(a[r][k]); m.push_back(row); }
    inv[i][j] = T((i + j) % 2 ? -1 : 1) * det(m) / d;
  }
  return inv;
}
static double norm1(const Dense& a) { double m = 0; for (size_t j = 0; j < a.size(); ++j) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += std::fabs(a[i][j]); m = std::max(m, s); } return m; }
static double normi(const Dense& a) { double m = 0; for (auto& r : a) { double s = 0; for (double x : r) s += std::fabs(x); m = std::max(m, s); } return m; }

template <typename T> static T val(int k);
template <> double val<double>(int k) { static const double v[5] = {0, 1, -2, 3, 4}; return v[k]; }
template <> cd val<cd>(int k) { static const cd v[5] = {0, cd(1, 1), cd(0, -2), cd(-1, 2), 3}; return v[k]; }

// Larger matrices are members of families, well conditioned: the scope of the small ones is all matrices.
static bool kBig = false;
static int big_size(Ctx& c, int least = 0) {
  static const int quick[] = {5, 8, 33, 65}, deep[] = {4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 96, 129};
  return std::max(least, c.thorough ? deep[c.pick(18)] : quick[c.pick(4)]);
}
template <typename T> static T im(int) { return T(0); }
template <> cd im<cd>(int k) { return cd(0, k); }
template <typename T> static DenseT<T> big_matrix(Ctx& c, int n0, int n1) {
  DenseT<T> a(n0, std::vector<T>(n1));
  const int kind = c.pick(4), n = std::max(n0, n1);
  c.log("%d x %d, family %d", n0, n1, kind);
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) {
    // 0: dominant diagonal, 1: the same with the rows in reverse order, 2: rotated, 3: symmetric Toeplitz with exchanged halves
    const int r = kind == 0 ? i : kind == 1 ? n0 - 1 - i : kind == 2 ? (i + 1) % n0 : (i + n0 / 2) % n0;
    const T v = kind == 3 ? T(1.0 / (1 + (r - j) * (r - j))) + im<T>((r + 2 * j) % 3 - 1) * T(0.125 / n) : r == j ? T((i % 2 ? -1 : 1) * (n + j % 3)) : T((r * 7 + j * 3) % 5 - 2) + im<T>((r + 2 * j) % 3 - 1);
    a[i][j] = v;
  }
  return a;
}
template <typename T> static DenseT<T> pick_matrix(Ctx& c, int n0, int n1, int nv) {
  if (kBig) return big_matrix<T>(c, n0, n1);
  DenseT<T> a(n0, std::vector<T>(n1));
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) a[i][j] = val<T>(c.pick(nv));
  return a;
}
template <typename T> static il::Array2D<T> array2d(const DenseT<T>& a, int n1, int pad) {
  const int n0 = int(a.size());
  il::Array2D<T> r{};
  if (pad) r.Reserve(n0 + pad, n1 + 1);
  r.Resize(n0, n1);
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) r(i, j) = a[i][j];
  return r;
}
template <typename T> static il::Array2C<T> array2c(const DenseT<T>& a, int n1, int pad) {
  const int n0 = int(a.size());
  il::Array2C<T> r{};
  if (pad) r.Reserve(n0 + 1, n1 + pad);
  r.Resize(n0, n1);
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) r(i, j) = a[i][j];
  return r;
}
template <typename A, typename T> static void unchanged(Ctx& c, const A& m, const DenseT<T>& a, int n1) {
  if (m.size(0) != il::int_t(a.size()) || m.size(1) != n1) c.fail("the matrix given by value changed its size");
  for (size_t i = 0; i < a.size(); ++i) for (int j = 0; j < n1; ++j) if (m(i, j) != a[i][j]) c.fail("the matrix given by value was modified at (%d, %d)", int(i), j);
}
template <typename T> static std::vector<T> rhs(int n, int salt) {
  std::vector<T> y(n);
  for (int i = 0; i < n; ++i) y[i] = salt < n ? T(salt == i) : salt == n ? T(1 + 3 * i) : T(0);
  return y;
}
static il::Array<double> array1(const std::vector<double>& y) { il::Array<double> b{il::int_t(y.size())}; for (size_t i = 0; i < y.size(); ++i) b[i] = y[i]; return b; }

// |A x - y| <= tol (|A| |x| + |y|) row by row
template <typename T, typename X> static void check_solution(Ctx& c, const DenseT<T>& a, X x, const std::vector<T>& y, const char* what) {
  const int n = int(a.size());
  for (int i = 0; i < n; ++i) {
    T r = -y[i];
    double s = std::abs(y[i]), sx = 0;
    for (int j = 0; j < n; ++j) { r += a[i][j] * x(j); s += std::abs(a[i][j] * x(j)); sx = std::max(sx, std::abs(x(j))); }
    if (!(std::abs(r) <= (kBig ? 1e-11 : 1e-13) * (s + sx))) c.fail("%s: equation %d is off by %g (of %g)", what, i, std::abs(r), s);
  }
}
template <typename T, typename M> static void check_inverse(Ctx& c, const DenseT<T>& a, const M& inv, const char* what) {
  const int n = int(a.size());
  if (inv.size(0) != n || inv.size(1) != n) c.fail("%s: %d x %d", what, int(inv.size(0)), int(inv.size(1)));
  const DenseT<T> e = inverse(a);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
    if (!(std::abs(inv(i, j) - e[i][j]) <= 1e-12 * (1 + std::abs(e[i][j])) * 4)) c.fail("%s: entry (%d, %d) is off by %g", what, i, j, std::abs(inv(i, j) - e[i][j]));
}
template <typename F> static bool rejected(F f) {
  try { f(); } catch (il::AbortException&) { return true; }
  return false;
}
#ifdef NDEBUG
static const bool kChecked = false;
#else
static const bool kChecked = true;
#endif

// Singularity that elimination with partial pivoting finds without rounding: no entry of
// a multiplier is rounded when every pivot divides what is below it to an exact quotient.
static bool exactly_singular(DenseT<double> a) {
  const int n = int(a.size());
  for (int k = 0; k < n; ++k) {
    int p = k;
    for (int i = k + 1; i < n; ++i) if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i;
    if (a[p][k] == 0) return true;
    std::swap(a[p], a[k]);
    for (int i = k + 1; i < n; ++i) {
      double m = a[i][k] / a[k][k];
      if (m * 1024 != std::floor(m * 1024)) return false;
      for (int j = k; j < n; ++j) a[i][j] -= m * a[k][j];
    }
  }
  return false;
}

#if PART == 0
// ---- LU of a matrix ---------------------------------------------------------
static void lu_square(Ctx& c, int n, int pad, int nv) {
  DenseT<double> a = pick_matrix<double>(c, n, n, nv);
  const double d = det(a);
  if (kBig && d == 0) c.fail("a member of the families is singular");
  il::Array2D<double> A = array2d(a, n, pad);
  il::Status status{};
  il::LU<il::Array2D<double>> lu{A, il::io, status};
  unchanged(c, A, a, n);
  const bool ok = status.Ok();
  if (d != 0 && !ok) c.fail("an invertible matrix (determinant %g) was said to be singular", d);
  if (!ok && status.error() != il::Error::MatrixSingular) c.fail("the error is not MatrixSingular");
  if (d == 0 && ok && exactly_singular(a)) c.fail("a singular matrix was factorised without an error");
  if (d == 0) return;
  if (lu.size(0) != n || lu.size(1) != n) c.fail("the size of the factorisation is %d x %d", int(lu.size(0)), int(lu.size(1)));
  double scale = 1;
  for (auto& r : a) { double s = 0; for (double x : r) s += std::fabs(x); scale *= s; }
  if (!(std::fabs(lu.determinant() - d) <= (kBig ? 1e-11 * std::fabs(d) : 1e-13 * scale))) c.fail("the determinant is %.17g instead of %g", lu.determinant(), d);
  for (int s = 0; s <= n + 1; ++s) {
    std::vector<double> y = rhs<double>(n, s);
    il::Array<double> b = array1(y);
    il::Array<double> x = lu.solve(b);
    if (x.size() != n) c.fail("LU: %d unknowns", int(x.size()));
    check_solution(c, a, [&](int i) { return x[i]; }, y, "LU, one right-hand side");
    for (int i = 0; i < n; ++i) if (b[i] != y[i]) c.fail("the right-hand side given by value was modified");
  }
  for (int m = 0; m <= (kBig ? 33 : 2); m += m < 3 ? 1 : 15) for (int ypad = 0; ypad < 2; ++ypad) {
    DenseT<double> y(n, std::vector<double>(m));
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) y[i][j] = 1 + i * i + 2 * j - 3 * i * j;
    il::Array2D<double> B = array2d(y, m, ypad);
    il::Array2D<double> X = lu.solve(B);
    unchanged(c, B, y, m);
    if (X.size(0) != n || X.size(1) != m) c.fail("LU: the solutions are %d x %d", int(X.size(0)), int(X.size(1)));
    for (int j = 0; j < m; ++j) {
      std::vector<double> yj(n);
      for (int i = 0; i < n; ++i) yj[i] = y[i][j];
      check_solution(c, a, [&](int i) { return X(i, j); }, yj, "LU, many right-hand sides");
    }
  }
  check_inverse(c, a, lu.inverse(), "LU::inverse");
  if (n > 0) {
    const DenseT<double> inv = inverse(a);
    const double k1 = norm1(a) * norm1(inv), ki = normi(a) * normi(inv);
    const double e1 = lu.conditionNumber(il::Norm::L1, norm1(a)), ei = lu.conditionNumber(il::Norm::Linf, normi(a));
    if (!(e1 <= k1 * (1 + 1e-10) && e1 >= k1 / (n == 1 ? 1.0000001 : kBig ? 20 : 6))) c.fail("the condition number in the L1 norm is %.17g instead of %.17g", e1, k1);
    if (!(ei <= ki * (1 + 1e-10) && ei >= ki / (n == 1 ? 1.0000001 : kBig ? 20 : 6))) c.fail("the condition number in the Linf norm is %.17g instead of %.17g", ei, ki);
  }
  il::LowerArray2D<double> L = lu.L();
  il::UpperArray2D<double> U = lu.U();
  if (L.size() != n || U.size() != n) c.fail("the factors have size %d and %d", int(L.size()), int(U.size()));
  // the rows of L.U are those of A
  std::vector<bool> used(n, false);
  for (int i = 0; i < n; ++i) {
    if (L(i, i) != 1) c.fail("the diagonal of L is not 1");
    for (int j = 0; j < n; ++j) {
      if (j < i && L(i, j) != lu.L(i, j)) c.fail("L() and L(i, j) differ");
      if (j >= i && U(i, j) != lu.U(i, j)) c.fail("U() and U(i, j) differ");
    }
    int found = -1;
    for (int r = 0; r < n && found < 0; ++r) if (!used[r]) {
      double e = 0;
      for (int j = 0; j < n; ++j) { double s = -a[r][j]; for (int k = 0; k <= i && k <= j; ++k) s += L(i, k) * U(k, j); e = std::max(e, std::fabs(s)); }
      if (e <= 1e-12 * (kBig ? n : 1)) found = r;
    }
    if (found < 0) c.fail("row %d of L.U is not a row of the matrix", i); else used[found] = true;
  }
  if (kChecked) {
    il::Array<double> b{n + 1, 1.0};
    if (!rejected([&] { lu.solve(b); })) c.fail("a right-hand side with an element too many was accepted");
    if (n > 0) { il::Array<double> b2{n - 1, 1.0}; if (!rejected([&] { lu.solve(b2); })) c.fail("a right-hand side with an element too few was accepted"); }
    il::Array2D<double> B{n + 1, 1, 1.0};
    if (!rejected([&] { lu.solve(B); })) c.fail("right-hand sides with a row too many were accepted");
  }
}
static void lu_all(Ctx& c) {
  const int n = kBig ? big_size(c) : c.pick(4), pad = c.pick(3);
  lu_square(c, n, pad, n < 3 ? 5 : c.bound);
}
// permutation matrices times diagonals, and dense ones, of size 4
static void lu_perm(Ctx& c) {
  const int n = 4;
  const int pad = c.pick(2);
  std::vector<int> p = {0, 1, 2, 3};
  for (int k = c.pick(24); k > 0; --k) std::next_permutation(p.begin(), p.end());
  DenseT<double> a(n, std::vector<double>(n, 0.0));
  static const double kD[3] = {1, -2, 3};
  for (int i = 0; i < n; ++i) a[i][p[i]] = kD[c.pick(3)];
  const int fill = c.pick(c.bound);
  if (fill) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (j != p[i]) a[i][j] = ((i + 2 * j + fill) % 5 == 0) ? 0.25 * fill : 0;
  const double d = det(a);
  if (kBig && d == 0) c.fail("a member of the families is singular");
  if (d == 0) return;
  il::Array2D<double> A = array2d(a, n, pad);
  il::Status status{};
  il::LU<il::Array2D<double>> lu{A, il::io, status};
  if (!status.Ok()) c.fail("an invertible matrix was said to be singular");
  if (!(std::fabs(lu.determinant() - d) <= 1e-12 * std::fabs(d) + 1e-12)) c.fail("the determinant is %.17g instead of %g", lu.determinant(), d);
  for (int s = 0; s <= n; ++s) {
    std::vector<double> y = rhs<double>(n, s);
    il::Array<double> x = lu.solve(array1(y));
    check_solution(c, a, [&](int i) { return x[i]; }, y, "LU");
    il::Status st{};
    il::Array<double> x2 = il::linearSolve(A, array1(y), il::io, st);
    if (!st.Ok()) c.fail("an invertible matrix was said to be singular");
    check_solution(c, a, [&](int i) { return x2[i]; }, y, "linearSolve");
  }
  check_inverse(c, a, lu.inverse(), "LU::inverse");
}
// a rectangular matrix: the rows of L.U are those of A
static void lu_rect(Ctx& c) {
  const int n0 = kBig ? big_size(c) : c.pick(4), n1 = kBig ? big_size(c) : c.pick(4), pad = c.pick(2);
  if (n0 == n1) return;
  DenseT<double> a = pick_matrix<double>(c, n0, n1, n0 * n1 <= 3 ? 5 : c.bound);
  il::Array2D<double> A = array2d(a, n1, pad);
  il::Status status{};
  il::LU<il::Array2D<double>> lu{A, il::io, status};
  unchanged(c, A, a, n1);
  if (!status.Ok()) {
    if (status.error() != il::Error::MatrixSingular) c.fail("the error is not MatrixSingular");
    return;
  }
  if (lu.size(0) != n0 || lu.size(1) != n1) c.fail("the size of the factorisation is %d x %d", int(lu.size(0)), int(lu.size(1)));
  std::vector<bool> used(n0, false);
  for (int i = 0; i < n0; ++i) {
    int found = -1;
    for (int r = 0; r < n0 && found < 0; ++r) if (!used[r]) {
      double e = 0;
      for (int j = 0; j < n1; ++j) {
        double s = -a[r][j];
        for (int k = 0; k <= i && k <= j && k < n1; ++k) s += (k == i ? 1.0 : lu.L(i, k)) * lu.U(k, j);
        e = std::max(e, std::fabs(s));
      }
      if (e <= 1e-12 * (kBig ? n0 + n1 : 1)) found = r;
    }
    if (found < 0) c.fail("row %d of L.U is not a row of the matrix", i); else used[found] = true;
  }
  if (kChecked) {
    if (!rejected([&] { lu.determinant(); })) c.fail("the determinant of a rectangular matrix was computed");
    if (!rejected([&] { lu.inverse(); })) c.fail("a rectangular matrix was inverted");
    if (!rejected([&] { lu.solve(il::Array<double>{n0, 1.0}); })) c.fail("a rectangular system was solved");
  }
}
MC_SUITE("LU of every matrix up to 3 x 3", lu_all, 3, 4);
MC_SUITE("LU of 4 x 4 matrices", lu_perm, 3, 6);
MC_SUITE("LU of rectangular matrices", lu_rect, 3, 4);
struct Big { Big() { kBig = true; } ~Big() { kBig = false; } };
static void lu_big(Ctx& c) { Big b; lu_all(c); }
static void lu_rect_big(Ctx& c) { Big b; lu_rect(c); }
MC_SUITE("LU of larger matrices", lu_big, 1, 1);
MC_SUITE("LU of larger rectangular matrices", lu_rect_big, 1, 1);

// ---- static matrices --------------------------------------------------------
template <typename T, int n> static void static_lu(Ctx& c) {
  DenseT<T> a = pick_matrix<T>(c, n, n, c.bound);
  il::StaticArray2D<T, n, n> A{};
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = a[i][j];
  il::Status status{};
  il::LU<il::StaticArray2D<T, n, n>> lu{A, il::io, status};
  unchanged(c, A, a, n);
  const T d = det(a);
  const bool ok = status.Ok();
  if (d != T(0) && !ok) c.fail("an invertible matrix was said to be singular");
  if (!ok && status.error() != il::Error::MatrixSingular) c.fail("the error is not MatrixSingular");
  if (d != T(0)) check_inverse(c, a, lu.inverse(), "static LU::inverse");
  bool zero_column = false;
  for (int j = 0; j < n; ++j) { bool z = true; for (int i = 0; i < n; ++i) z = z && a[i][j] == T(0); zero_column = zero_column || z; }
  if (zero_column && ok) c.fail("a matrix with a zero column was factorised without an error");

  // singular values: roots of det(A* A - s^2) = 0, decreasing, positive
  il::Status st{};
  il::StaticArray<double, n> sv = il::singularValues(A, il::io, st);
  unchanged(c, A, a, n);
  if (!st.Ok()) c.fail("no singular values");
  double fro = 0, prod = 1, sum = 0;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) fro += std::norm(a[i][j]);
  for (int i = 0; i < n; ++i) {
    if (!(sv[i] >= 0)) c.fail("singular value %d is %g", i, sv[i]);
    if (i && !(sv[i] <= sv[i - 1])) c.fail("the singular values are not in decreasing order");
    prod *= sv[i]; sum += sv[i] * sv[i];
  }
  if (!(std::fabs(sum - fro) <= (kBig ? 1e-12 : 1e-13) * (fro + 1))) c.fail("the squares of the singular values add up to %.17g instead of %.17g", sum, fro);
  if (!(std::fabs(prod - std::abs(d)) <= (kBig ? 1e-10 * std::abs(d) : 1e-12 * (1 + std::pow(fro, 0.5 * n))))) c.fail("the product of the singular values is %.17g instead of %.17g", prod, std::abs(d));
  if (n == 3) {  // the second coefficient: the 2 x 2 minors
    double minors = 0;
    for (int i0 = 0; i0 < n; ++i0) for (int i1 = i0 + 1; i1 < n; ++i1) for (int j0 = 0; j0 < n; ++j0) for (int j1 = j0 + 1; j1 < n; ++j1)
      minors += std::norm(a[i0][j0] * a[i1][j1] - a[i0][j1] * a[i1][j0]);
    double e2 = 0;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) e2 += sv[i] * sv[i] * sv[j] * sv[j];
    if (!(std::fabs(e2 - minors) <= 1e-12 * (1 + fro * fro))) c.fail("the singular values do not match the 2 x 2 minors: %.17g instead of %.17g", e2, minors);
  }
}
MC_SUITE("static 1 x 1 double", (static_lu<double, 1>), 5, 5);
MC_SUITE("static 2 x 2 double", (static_lu<double, 2>), 5, 5);
MC_SUITE("static 3 x 3 double", (static_lu<double, 3>), 3, 4);
MC_SUITE("static 1 x 1 complex", (static_lu<cd, 1>), 5, 5);
MC_SUITE("static 2 x 2 complex", (static_lu<cd, 2>), 5, 5);
MC_SUITE("static 3 x 3 complex", (static_lu<cd, 3>), 3, 4);
template <typename T, int n> static void static_big(Ctx& c) { Big b; static_lu<T, n>(c); }
MC_SUITE("static 8 x 8 double", (static_big<double, 8>), 1, 1);
MC_SUITE("static 8 x 8 complex", (static_big<cd, 8>), 1, 1);
MC_SUITE("static 33 x 33 double", (static_big<double, 33>), 1, 1);
MC_SUITE("static 33 x 33 complex", (static_big<cd, 33>), 1, 1);
#endif

#if PART == 1
// ---- linearSolve ------------------------------------------------------------
template <typename A> static void solve_one(Ctx& c, const A& m, const DenseT<double>& a, const char* what, bool square2d) {
  const int n = int(a.size());
  const double d = det(a);
  if (kBig && d == 0) c.fail("a member of the families is singular");
  for (int s = 0; s <= n + 1; ++s) {
    std::vector<double> y = rhs<double>(n, s);
    il::Array<double> b = array1(y);
    il::Status status{};
    il::Array<double> x = il::linearSolve(m, b, il::io, status);
    const bool ok = status.Ok();
    for (int i = 0; i < n; ++i) if (b[i] != y[i]) c.fail("%s: the right-hand side given by value was modified", what);
    if (d != 0 && !ok) c.fail("%s: an invertible matrix was said to be singular", what);
    if (!ok && status.error() != il::Error::MatrixSingular) c.fail("%s: the error is not MatrixSingular", what);
    if (d == 0 && ok && exactly_singular(a)) c.fail("%s: a singular system was solved without an error", what);
    if (d == 0) continue;
    if (x.size() != n) c.fail("%s: %d unknowns", what, int(x.size()));
    check_solution(c, a, [&](int i) { return x[i]; }, y, what);
  }
  if (kChecked) {
    il::Status status{};
    if (!rejected([&] { il::linearSolve(m, il::Array<double>{n + 1, 1.0}, il::io, status); })) c.fail("%s: a right-hand side with an element too many was accepted", what);
    if (n && !rejected([&] { il::linearSolve(m, il::Array<double>{n - 1, 1.0}, il::io, status); })) c.fail("%s: a right-hand side with an element too few was accepted", what);

  }
  (void)square2d;
}
static void solve_dense(Ctx& c) {
  const int n = kBig ? big_size(c) : c.pick(4), pad = c.pick(3);
  DenseT<double> a = pick_matrix<double>(c, n, n, n < 3 ? 5 : c.bound);
  il::Array2D<double> A = array2d(a, n, pad);
  solve_one(c, A, a, "linearSolve with columns", true);
  unchanged(c, A, a, n);
  il::Array2C<double> C = array2c(a, n, pad);
  solve_one(c, C, a, "linearSolve with rows", true);
  unchanged(c, C, a, n);
  if (kChecked) {
    il::Status status{};
    il::Array2D<double> R{n, n + 1, 1.0};
    if (!rejected([&] { il::linearSolve(R, il::Array<double>{n, 1.0}, il::io, status); })) c.fail("a rectangular system was solved");
    il::Array2C<double> S{n + 1, n, 1.0};
    if (!rejected([&] { il::linearSolve(S, il::Array<double>{n, 1.0}, il::io, status); })) c.fail("a rectangular system was solved");

  }
}
static void solve_band(Ctx& c) {
  static const int kWidths[] = {0, 1, 2, 4, 7};
  const int n = kBig ? big_size(c) : c.pick(c.bound), wl = kWidths[c.pick(kBig ? 5 : 3)], wr = kWidths[c.pick(kBig ? 5 : 3)];
  // every band matrix with few values when it has few entries, a fixed pattern of values otherwise
  int entries = 0;
  for (int i = 0; i < n; ++i) for (int k = -wl; k <= wr; ++k) if (i + k >= 0 && i + k < n) ++entries;
  const bool all = !kBig && entries <= c.bound + 4;
  const int salt = all ? 0 : c.pick(kBig ? 6 : 40), nv = entries <= 4 ? 5 : entries <= 7 ? 4 : 3;
  DenseT<double> a(n, std::vector<double>(n, 0.0));
  il::BandArray2C<double> A{n, n, wl, wr};
  int e = 0;
  for (int i = 0; i < n; ++i) for (int k = -wl; k <= wr; ++k) if (i + k >= 0 && i + k < n) {
    a[i][i + k] = all ? val<double>(c.pick(nv)) : kBig ? (k == (salt % 2 && wl && wr && n % 2 == 0 ? (i % 2 ? -1 : 1) : 0) ? 3.0 * (wl + wr + 1) : double((i * 5 + k * 3 + 9 + salt) % 5 - 2)) : double((e * (salt % 7 + 2) + salt * salt + i * k) % 5 - 2);
    A(i, k) = a[i][i + k];
    ++e;
  }
  solve_one(c, A, a, "linearSolve of a band", true);
  for (int i = 0; i < n; ++i) for (int k = -wl; k <= wr; ++k) if (i + k >= 0 && i + k < n && A(i, k) != a[i][i + k]) c.fail("the band matrix given by value was modified");
}
static void solve_tri(Ctx& c) {
  const int n = kBig ? big_size(c) : c.pick(c.bound), salt = kBig ? c.pick(6) : 0;
  DenseT<double> a(n, std::vector<double>(n, 0.0));
  il::TriDiagonal<double> A{n};
  const int nv = n <= 2 ? 5 : n == 3 ? 4 : 2;
  for (int i = 0; i < n; ++i) for (int k = -1; k <= 1; ++k) {
    if (i + k < 0 || i + k >= n) { A(i, k) = 99; continue; }
    a[i][i + k] = kBig ? (k == (salt % 2 && n % 2 == 0 ? (i % 2 ? -1 : 1) : 0) ? 9.0 + i % 2 : double((i * 5 + k * 3 + 3 + salt) % 5 - 2)) : n < 4 ? val<double>(c.pick(nv)) : (c.pick(2) ? double(2 - (i + k * k) % 3 * 2 + (i % 2)) : 0.0);
    A(i, k) = a[i][i + k];
  }
  solve_one(c, A, a, "linearSolve of a tridiagonal matrix", false);
  for (int i = 0; i < n; ++i) for (int k = -1; k <= 1; ++k) if (i + k >= 0 && i + k < n && A(i, k) != a[i][i + k]) c.fail("the tridiagonal matrix given by value was modified");
}
MC_SUITE("linearSolve, both storage orders", solve_dense, 3, 4);
MC_SUITE("linearSolve, band matrices", solve_band, 5, 7);
MC_SUITE("linearSolve, tridiagonal matrices", solve_tri, 5, 6);
struct Big { Big() { kBig = true; } ~Big() { kBig = false; } };
static void solve_dense_big(Ctx& c) { Big b; solve_dense(c); }
static void solve_band_big(Ctx& c) { Big b; solve_band(c); }
static void solve_tri_big(Ctx& c) { Big b; solve_tri(c); }
MC_SUITE("linearSolve, larger matrices", solve_dense_big, 1, 1);
MC_SUITE("linearSolve, larger band matrices", solve_band_big, 1, 1);
MC_SUITE("linearSolve, larger tridiagonal matrices", solve_tri_big, 1, 1);

// ---- eigenvalues ------------------------------------------------------------
static void eigen_all(Ctx& c) {
  const int n = 1 + c.pick(3), pad = c.pick(3);
  DenseT<double> a = pick_matrix<double>(c, n, n, n < 3 ? 5 : c.bound);
  il::Array2D<double> A = array2d(a, n, pad);
  il::Status status{};
  il::Eigen<il::Array2D<double>> eig{A, il::io, status};
  unchanged(c, A, a, n);
  if (!status.Ok()) c.fail("the eigenvalues were not found");
  il::Array<cd> ev = eig.eigenValue();
  if (ev.size() != n) c.fail("%d eigenvalues", int(ev.size()));
  cd s1 = 0, s2 = 0, s3 = 1;
  for (int i = 0; i < n; ++i) { s1 += ev[i]; s3 *= ev[i]; for (int j = i + 1; j < n; ++j) s2 += ev[i] * ev[j]; }
  double t1 = 0, t2 = 0;
  for (int i = 0; i < n; ++i) { t1 += a[i][i]; for (int j = i + 1; j < n; ++j) t2 += a[i][i] * a[j][j] - a[i][j] * a[j][i]; }
  const double m = 1 + normi(a);
  if (!(std::abs(s1 - t1) <= 1e-13 * m)) c.fail("the sum of the eigenvalues is %.17g %+.17gi instead of %g", s1.real(), s1.imag(), t1);
  if (!(std::abs(s2 - t2) <= 1e-12 * m * m)) c.fail("the sum of the products of two eigenvalues is %.17g %+.17gi instead of %g", s2.real(), s2.imag(), t2);
  if (!(std::abs(s3 - det(a)) <= 1e-12 * m * m * m)) c.fail("the product of the eigenvalues is %.17g %+.17gi instead of %g", s3.real(), s3.imag(), det(a));
  if (kChecked) {
    il::Status st{};
    il::Array2D<double> R{n, n + 1, 1.0};
    if (!rejected([&] { il::Eigen<il::Array2D<double>> e{R, il::io, st}; })) c.fail("the eigenvalues of a rectangular matrix were computed");

  }
}
MC_SUITE("eigenvalues", eigen_all, 3, 4);
// Larger matrices whose eigenvalues are known: blocks of size 1 and 2, coupled above, in an exchanged order
static void eigen_big(Ctx& c) {
  const int n = big_size(c), pad = c.pick(3), order = c.pick(3), coupling = c.pick(2);
  std::vector<int> p(n);
  for (int i = 0; i < n; ++i) p[i] = order == 0 ? i : order == 1 ? n - 1 - i : (i * 2) % n + (n % 2 == 0 && i * 2 >= n ? 1 : 0);
  DenseT<double> t(n, std::vector<double>(n, 0.0)), a = t;
  std::vector<cd> want;
  for (int i = 0; i < n;) {
    if (i % 3 == 0 && i + 1 < n) { t[i][i] = t[i + 1][i + 1] = i; t[i][i + 1] = 2; t[i + 1][i] = -0.5; want.push_back(cd(i, 1)); want.push_back(cd(i, -1)); i += 2; }
    else { t[i][i] = -i - 1; want.push_back(-i - 1); ++i; }
  }
  if (coupling) for (int i = 0; i < n; ++i) for (int j = i + 2; j < n && j < i + 4; ++j) t[i][j] += 0.125;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[p[i]][p[j]] = t[i][j];
  il::Array2D<double> A = array2d(a, n, pad);
  il::Status status{};
  il::Eigen<il::Array2D<double>> eig{A, il::io, status};
  unchanged(c, A, a, n);
  if (!status.Ok()) c.fail("the eigenvalues were not found");
  il::Array<cd> ev = eig.eigenValue();
  if (ev.size() != n) c.fail("%d eigenvalues", int(ev.size()));
  for (const cd& w : want) {
    int k = 0;
    while (k < n && !(std::abs(ev[k] - w) <= 1e-8)) ++k;
    if (k == n) c.fail("the eigenvalue %g %+gi was not found", w.real(), w.imag());
    ev[k] = cd(1e9, 0);
  }
}
MC_SUITE("eigenvalues of larger matrices", eigen_big, 1, 1);

// ---- Cholesky ---------------------------------------------------------------
static void cholesky_all(Ctx& c) {
  const int n = kBig ? big_size(c) : c.pick(4), pad = c.pick(2), family = kBig ? c.pick(3) : 0;
  DenseT<double> a(n, std::vector<double>(n));
  static const double kDiag[4] = {1, 2, 5, -1}, kOff[4] = {0, -1, 2, 1};
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) a[i][j] = a[j][i] = kBig ? (family == 0 ? (i == j ? n + i % 3 : double((i * 7 + j * 3) % 5 - 2) / 2) : family == 1 ? 1.0 / (1 + (i - j) * (i - j)) : (i == j ? (i == n - 1 ? -1 : 3) : i == j + 1 ? 1 : 0)) : i == j ? kDiag[c.pick(4)] : kOff[c.pick(c.bound)];
  bool spd = true;
  if (kBig) spd = family < 2;
  else for (int k = 1; k <= n; ++k) { DenseT<double> m(k, std::vector<double>(k)); for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) m[i][j] = a[i][j]; if (det(m) <= 0) spd = false; }
  bool negative = false;  // decided without rounding
  for (int i = 0; i < n; ++i) if (a[i][i] < 0) negative = true;
  il::Array2D<double> A = array2d(a, n, pad);
  il::Status status{};
  il::Cholesky<il::Array2D<double>> ch{A, il::io, status};
  unchanged(c, A, a, n);
  bool ok = status.Ok();
  if (spd && !ok) c.fail("a positive definite matrix was refused");
  if (!spd && ok) {
    const double d = det(a);
    if (negative || d < 0) c.fail("an indefinite matrix was factorised without an error");
  }
  il::LowerArray2D<double> P{n};
  for (int j = 0; j < n; ++j) for (int i = j; i < n; ++i) P(i, j) = a[i][j];
  il::Status st{};
  il::Cholesky<il::LowerArray2D<double>> chp{P, il::io, st};
  const bool okp = st.Ok();
  if (okp != ok && (spd || negative)) c.fail("the packed factorisation %s while the other one %s", okp ? "succeeded" : "failed", ok ? "succeeded" : "failed");
  if (!spd) return;
  if (ch.size(0) != n || ch.size(1) != n) c.fail("the size of the factorisation is wrong");
  for (int s = 0; s <= n + 1; ++s) {
    std::vector<double> y = rhs<double>(n, s);
    il::Array<double> b = array1(y);
    il::Array<double> x = ch.solve(b);
    if (x.size() != n) c.fail("Cholesky: %d unknowns", int(x.size()));
    check_solution(c, a, [&](int i) { return x[i]; }, y, "Cholesky");
    for (int i = 0; i < n; ++i) if (b[i] != y[i]) c.fail("the right-hand side given by value was modified");
  }
  check_inverse(c, a, ch.inverse(), "Cholesky::inverse");
  if (n > 0) {
    const double k1 = norm1(a) * norm1(inverse(a));
    const double e1 = ch.conditionNumber(il::Norm::L1, norm1(a));
    if (!(e1 <= k1 * (1 + 1e-10) && e1 >= k1 / (n == 1 ? 1.0000001 : kBig ? 20 : 6))) c.fail("the condition number is %.17g instead of %.17g", e1, k1);
  }
  if (kChecked) {
    if (!rejected([&] { ch.solve(il::Array<double>{n + 1, 1.0}); })) c.fail("a right-hand side with an element too many was accepted");
    il::Array2D<double> R{n, n + 1, 1.0};
    if (!rejected([&] { il::Status s3{}; il::Cholesky<il::Array2D<double>> e{R, il::io, s3}; })) c.fail("a rectangular matrix was factorised");
  }
}
MC_SUITE("Cholesky", cholesky_all, 4, 4);
static void cholesky_big(Ctx& c) { Big b; cholesky_all(c); }
MC_SUITE("Cholesky of larger matrices", cholesky_big, 1, 1);
#endif

#if PART == 2
// ---- in place: pivots, triangular systems, LU and QR of views ----------------
// A matrix inside a block whose other elements must not change
template <typename T> struct Block {
  int n0, n1, stride;
  std::vector<T> mem, before;
  Block(const DenseT<T>& a, int n1_, int pad) : n0(int(a.size())), n1(n1_), stride(n0 + pad) {
    mem.assign(size_t(stride) * n1 + 4, T(777));
    for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) mem[2 + size_t(j) * stride + i] = a[i][j];
    before = mem;
  }
  il::Array2DView<T> view() const { return il::Array2DView<T>{mem.data() + 2, n0, n1, stride, 0, 0}; }
  il::Array2DEdit<T> edit() { return il::Array2DEdit<T>{mem.data() + 2, n0, n1, stride, 0, 0}; }
  T at(int i, int j) const { return mem[2 + size_t(j) * stride + i]; }
  void around(Ctx& c, const char* what) const {
    std::vector<bool> in(mem.size(), false);
    for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) in[2 + size_t(j) * stride + i] = true;
    for (size_t k = 0; k < mem.size(); ++k) if (!in[k] && mem[k] != before[k]) c.fail("%s: memory outside of the matrix was written", what);
  }
  void same(Ctx& c, const char* what) const { if (mem != before) c.fail("%s: the matrix was modified", what); }
};

template <typename T> static void decompositions(Ctx& c) {
  const int n = kBig ? big_size(c) : 1 + c.pick(3), pad = c.pick(3);
  DenseT<T> a = pick_matrix<T>(c, n, n, n < 3 ? 5 : c.bound);
  if (det(a) == T(0)) { if (kBig) c.fail("a member of the families is singular"); return; }
  Block<T> lu{a, n, pad};
  il::Array<int> pivot{n, -1};
  il::luDecomposition(il::io, pivot.Edit(), lu.edit());
  lu.around(c, "luDecomposition");
  Block<T> flu = lu;  // kept
  flu.before = flu.mem;
  DenseT<T> pa = a;
  for (int i = 0; i < n; ++i) {
    if (pivot[i] < i + 1 || pivot[i] > n) c.fail("luDecomposition: pivot %d is %d", i, pivot[i]);
    std::swap(pa[i], pa[pivot[i] - 1]);
  }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    T s = -pa[i][j];
    for (int k = 0; k <= i && k <= j; ++k) s += (k == i ? T(1) : lu.at(i, k)) * lu.at(k, j);
    if (!(std::abs(s) <= 1e-13 * 20 * (kBig ? n : 1))) c.fail("luDecomposition: L.U is off by %g at (%d, %d)", std::abs(s), i, j);
  }
  // A X = Y, in the three steps and in the combined ones
  const int m = kBig ? c.of({1, 2, 17, 64}) : 2, ypad = c.pick(2);
  DenseT<T> y(n, std::vector<T>(m));
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) y[i][j] = T(1 + i * i + 2 * j - 3 * i * j);
  for (int kind = 0; kind < 2; ++kind) {
    Block<T> Y{y, m, ypad};
    if (kind == 0) {
      il::solve(il::ArrayView<lapack_int>{pivot.data(), n}, il::io, Y.edit());
      for (int i = 0; i < n; ++i) {  // the permuted right-hand sides, exactly
        DenseT<T> py = y;
        for (int k = 0; k < n; ++k) std::swap(py[k], py[pivot[k] - 1]);
        for (int j = 0; j < m; ++j) if (Y.at(i, j) != py[i][j]) c.fail("solve with a permutation: wrong row %d", i);
      }
      il::solve(flu.view(), il::MatrixType::LowerUnit, il::io, Y.edit());
    } else {
      il::solve(il::ArrayView<int>{pivot.data(), n}, flu.view(), il::MatrixType::LowerUnit, il::io, Y.edit());
    }
    il::solve(flu.view(), il::MatrixType::UpperNonUnit, il::io, Y.edit());
    flu.same(c, "solve");
    Y.around(c, "solve");
    for (int j = 0; j < m; ++j) { std::vector<T> yj(n); for (int i = 0; i < n; ++i) yj[i] = y[i][j]; check_solution(c, a, [&](int i) { return Y.at(i, j); }, yj, "solve with a decomposition"); }
  }
  {
    std::vector<T> x(n + 2, T(777)), yj(n);
    for (int i = 0; i < n; ++i) x[i + 1] = yj[i] = y[i][m - 1];
    il::solve(il::ArrayView<int>{pivot.data(), n}, flu.view(), il::MatrixType::LowerUnit, il::io, il::ArrayEdit<T>{x.data() + 1, n});
    il::solve(flu.view(), il::MatrixType::UpperNonUnit, il::io, il::ArrayEdit<T>{x.data() + 1, n});
    if (x[0] != T(777) || x[n + 1] != T(777)) c.fail("solve wrote outside of the vector");
    check_solution(c, a, [&](int i) { return x[i + 1]; }, yj, "solve with a decomposition, one vector");
  }
  flu.same(c, "solve");
}
// Q R = A: R'R = A'A, and R is what A becomes
template <typename T> static void qr(Ctx& c) {
  const int n0 = kBig ? big_size(c) : 1 + c.pick(3), n1 = kBig ? big_size(c) : 1 + c.pick(3), pad = c.pick(3);
  DenseT<T> a = pick_matrix<T>(c, n0, n1, n0 * n1 <= 4 ? 5 : n0 * n1 <= 6 ? 3 : c.bound);
  Block<T> q{a, n1, pad};
  const int r = n0 < n1 ? n0 : n1;
  std::vector<T> tau(r + 2, T(777));
  il::qrDecomposition(il::io, il::ArrayEdit<T>{tau.data() + 1, r}, q.edit());
  q.around(c, "qrDecomposition");
  if (tau[0] != T(777) || tau[r + 1] != T(777)) c.fail("qrDecomposition wrote outside of tau");
  // Q = H(0) H(1) ..., H(k) = I - tau v v*, v(k) = 1: apply it to R
  DenseT<T> b(n0, std::vector<T>(n1, T(0)));
  for (int i = 0; i < n0; ++i) for (int j = i; j < n1; ++j) b[i][j] = q.at(i, j);
  for (int k = r - 1; k >= 0; --k)
    for (int j = 0; j < n1; ++j) {
      T s = b[k][j];
      for (int i = k + 1; i < n0; ++i) { T v = q.at(i, k); s += (sizeof(T) == sizeof(cd) ? T(std::real(v)) - (v - T(std::real(v))) : v) * b[i][j]; }
      s *= tau[k + 1];
      b[k][j] -= s;
      for (int i = k + 1; i < n0; ++i) b[i][j] -= q.at(i, k) * s;
    }
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) if (!(std::abs(b[i][j] - a[i][j]) <= 1e-12 * (kBig ? n0 + n1 : 1))) c.fail("qrDecomposition: Q.R is off by %g at (%d, %d)", std::abs(b[i][j] - a[i][j]), i, j);
  if (kChecked) {
    Block<T> w{a, n1, pad};
    if (!rejected([&] { il::qrDecomposition(il::io, il::ArrayEdit<T>{tau.data() + 1, r - 1}, w.edit()); })) c.fail("a tau which is too small was accepted");
  }
}
// triangular systems with exact answers; what is not part of the triangle must not be read
template <typename T> static void triangles(Ctx& c) {
  const int n = kBig ? big_size(c) : 1 + c.pick(3), m = kBig ? c.of({1, 5, 33}) : 1 + c.pick(2), pad = c.pick(2), xpad = c.pick(2), kind = c.pick(6);
  const bool lower = kind == 0;
  DenseT<T> t(n, std::vector<T>(n, T(0))), full(n, std::vector<T>(n, T(std::nan(""))));
  static const T kDiag[3] = {T(1), T(-2), T(4)};
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    if (lower ? j > i : j < i) continue;
    if (kBig) { if (i != j) full[i][j] = t[i][j] = T(((i * 3 + j * 5) % 5 - 2) / 8.0 / (1 + (i - j) * (i - j))); else if (lower) t[i][j] = T(1); else full[i][j] = t[i][j] = kDiag[i % 3]; }
    else if (i == j) { if (lower) t[i][j] = T(1); else full[i][j] = t[i][j] = kDiag[c.pick(n < 3 ? 3 : 2)]; }
    else full[i][j] = t[i][j] = val<T>(c.pick(n < 3 ? 4 : c.bound));
  }
  Block<T> A{full, n, pad};
  const bool right = kind == 3, vec = kind == 4 || kind == 5;
  if (vec && m != 1) return;
  const int x0 = right ? m : n, x1 = right ? n : m;
  DenseT<T> x(x0, std::vector<T>(x1)), y(x0, std::vector<T>(x1, T(0)));
  for (int i = 0; i < x0; ++i) for (int j = 0; j < x1; ++j) x[i][j] = val<T>((i * 2 + j * 3) % 4 + 1);
  for (int i = 0; i < x0; ++i) for (int j = 0; j < x1; ++j)
    for (int k = 0; k < n; ++k) y[i][j] += kind == 2 ? t[k][i] * x[k][j] : right ? x[i][k] * t[k][j] : t[i][k] * x[k][j];
  Block<T> X{y, x1, xpad};
  const char* what = "";
  std::vector<int> id(n);
  for (int i = 0; i < n; ++i) id[i] = i + 1;
  switch (kind) {
    case 0: what = "solve with LowerUnit"; il::solve(A.view(), il::MatrixType::LowerUnit, il::io, X.edit()); break;
    case 1: what = "solve with UpperNonUnit"; il::solve(A.view(), il::MatrixType::UpperNonUnit, il::io, X.edit()); break;
    case 2: what = "solve with the transpose of UpperNonUnit"; il::solve(A.view(), il::MatrixType::UpperNonUnit, il::Dot::Transpose, il::io, X.edit()); break;
    case 3: what = "solveRight with UpperNonUnit"; il::solveRight(A.view(), il::MatrixType::UpperNonUnit, il::io, X.edit()); break;
    case 4: what = "solve with UpperNonUnit and a vector"; il::solve(A.view(), il::MatrixType::UpperNonUnit, il::io, il::ArrayEdit<T>{X.mem.data() + 2, n}); break;
    default: return;
  }
  if (std::memcmp(A.mem.data(), A.before.data(), A.mem.size() * sizeof(T))) c.fail("%s: the matrix was modified", what);
  X.around(c, what);
  for (int i = 0; i < x0; ++i) for (int j = 0; j < x1; ++j) if (!(kBig ? std::abs(X.at(i, j) - x[i][j]) <= 1e-11 : X.at(i, j) == x[i][j])) c.fail("%s: entry (%d, %d) is wrong", what, i, j);
  if (kChecked && !vec) {
    DenseT<T> yy(x0 + 1, std::vector<T>(x1 + 1, T(1)));
    Block<T> W{yy, x1 + 1, 0};
    bool rej = rejected([&] {
      if (kind == 0) il::solve(A.view(), il::MatrixType::LowerUnit, il::io, W.edit());
      else if (kind == 1) il::solve(A.view(), il::MatrixType::UpperNonUnit, il::io, W.edit());
      else if (kind == 2) il::solve(A.view(), il::MatrixType::UpperNonUnit, il::Dot::Transpose, il::io, W.edit());
      else il::solveRight(A.view(), il::MatrixType::UpperNonUnit, il::io, W.edit());
    });
    if (!rej) c.fail("%s: right-hand sides of another size were accepted", what);
  }
}
MC_SUITE("LU in place double", decompositions<double>, 3, 4);
MC_SUITE("LU in place complex", decompositions<cd>, 2, 3);
MC_SUITE("QR in place double", qr<double>, 2, 3);
MC_SUITE("QR in place complex", qr<cd>, 2, 3);
MC_SUITE("triangular systems double", triangles<double>, 3, 4);
MC_SUITE("triangular systems complex", triangles<cd>, 3, 4);
struct Big { Big() { kBig = true; } ~Big() { kBig = false; } };
template <typename T> static void decompositions_big(Ctx& c) { Big b; decompositions<T>(c); }
template <typename T> static void qr_big(Ctx& c) { Big b; qr<T>(c); }
template <typename T> static void triangles_big(Ctx& c) { Big b; triangles<T>(c); }
MC_SUITE("LU in place double, larger", decompositions_big<double>, 1, 1);
MC_SUITE("LU in place complex, larger", decompositions_big<cd>, 1, 1);
MC_SUITE("QR in place double, larger", qr_big<double>, 1, 1);
MC_SUITE("QR in place complex, larger", qr_big<cd>, 1, 1);
MC_SUITE("triangular systems double, larger", triangles_big<double>, 1, 1);
MC_SUITE("triangular systems complex, larger", triangles_big<cd>, 1, 1);
#endif
