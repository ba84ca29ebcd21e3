// P31: conjugate gradient and GMRES on every small system of enumerated families, given
// as matrix-free operators, with and without preconditioner, for several starting points,
// precisions, iteration limits and restart lengths, against residuals computed here.
#include <cmath>
#include <vector>

#include "../lib/ilmc.h"

#include <il/Cg.h>
#include <il/Gmres.h>

using mc::Ctx;
typedef std::vector<std::vector<double>> Dense;

// A matrix-free operator which checks what it is given
struct Op : il::FunctorArray<double> {
  Dense a;
  mutable long calls = 0;
  mutable const char* wrong = nullptr;
  il::int_t size(il::int_t) const override { return il::int_t(a.size()); }
  void operator()(il::ArrayView<double> x, il::io_t, il::ArrayEdit<double> y) const override {
    const int n = int(a.size());
    ++calls;
    if (x.size() != n || y.size() != n) { wrong = "the operator was given vectors of a wrong size"; return; }
    if (calls > 5000) { wrong = "the operator was applied more than 5000 times"; throw int(1); }
    std::vector<double> r(n, 0.0);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r[i] += a[i][j] * x[j];
    for (int i = 0; i < n; ++i) y[i] = r[i];
  }
};
// A tridiagonal operator of any size
struct Chain : il::FunctorArray<double> {
  int n;
  double low, mid, up;
  Chain(int n, double low, double mid, double up) : n(n), low(low), mid(mid), up(up) {}
  il::int_t size(il::int_t) const override { return n; }
  void operator()(il::ArrayView<double> x, il::io_t, il::ArrayEdit<double> y) const override {
    for (int i = 0; i < n; ++i) y[i] = mid * x[i] + (i > 0 ? low * x[i - 1] : 0) + (i < n - 1 ? up * x[i + 1] : 0);
  }
  template <typename X> double residual(const X& x, const std::vector<double>& b) const {
    double s = 0;
    for (int i = 0; i < n; ++i) { const double r = b[i] - mid * x[i] - (i > 0 ? low * x[i - 1] : 0) - (i < n - 1 ? up * x[i + 1] : 0); s += r * r; }
    return std::sqrt(s);
  }
};
static double norm(const std::vector<double>& v) { double s = 0; for (double x : v) s += x * x; return std::sqrt(s); }
template <typename X> static double residual(const Dense& a, const X& x, const std::vector<double>& y) {
  std::vector<double> r = y;
  for (size_t i = 0; i < y.size(); ++i) for (size_t j = 0; j < y.size(); ++j) r[i] -= a[i][j] * x[j];
  return norm(r);
}
// Larger systems are members of families
static bool kLarge = false;
struct Large { Large() { kLarge = true; } ~Large() { kLarge = false; } };
static std::vector<double> pick_rhs(Ctx& c, const Dense& a) {
  const int n = int(a.size()), k = kLarge ? c.of({0, n / 2, n - 1, n, n + 1, n + 2, n + 3}) : c.pick(n + 4);
  std::vector<double> y(n, 0.0);
  if (k < n) y[k] = 1;
  else if (k == n) for (int i = 0; i < n; ++i) y[i] = 1 + i * i - 3 * i;
  else if (k == n + 1) for (int i = 0; i < n; ++i) y[i] = 1e-7 * (i + 1);
  else if (k == n + 2) for (int i = 0; i < n; ++i) y[i] = 1e6 * (2 - i);
  return y;  // the last one is 0
}
static double det(const Dense& a) {
  const int n = int(a.size());
  if (n == 0) return 1;
  double s = 0;
  for (int j = 0; j < n; ++j) {
    if (a[0][j] == 0) continue;
    Dense m;
    for (int i = 1; i < n; ++i) { std::vector<double> r; for (int k = 0; k < n; ++k) if (k != j) r.push_back(a[i][k]); m.push_back(r); }
    s += (j % 2 ? -1 : 1) * a[0][j] * det(m);
  }
  return s;
}
static int large_size(Ctx& c) { return c.thorough ? c.of({4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 50, 64, 65}) : c.of({5, 8, 17, 33, 65}); }
static Dense spd(Ctx& c, int n) {
  if (kLarge) {
    Dense a(n, std::vector<double>(n, 0.0));
    const int family = c.pick(3);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
      a[i][j] = family == 0 ? (i == j ? 2.0 : std::abs(i - j) == 1 ? -1.0 : 0.0) : family == 1 ? 1.0 / (1 + (i - j) * (i - j)) : i == j ? 1.0 + i : 0.25 / (1 + std::abs(i - j));
    return a;
  }
  Dense a(n, std::vector<double>(n, 0.0));
  static const double kDiag[3] = {4, 1, 9}, kOff[3] = {0, -1, 0.5};
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) a[i][j] = a[j][i] = kOff[c.pick(3)];
  for (int i = 0; i < n; ++i) {
    double s = 0;
    for (int j = 0; j < n; ++j) if (j != i) s += std::fabs(a[i][j]);
    a[i][i] = s + kDiag[c.pick(n < 4 ? 3 : 2)];
  }
  return a;
}
static Dense jacobi(const Dense& a) {
  Dense b(a.size(), std::vector<double>(a.size(), 0.0));
  for (size_t i = 0; i < a.size(); ++i) b[i][i] = 1 / a[i][i];
  return b;
}
static Dense inverse(Dense a) {
  const int n = int(a.size());
  Dense b(n, std::vector<double>(n, 0.0));
  for (int i = 0; i < n; ++i) b[i][i] = 1;
  for (int k = 0; k < n; ++k) {
    int p = k;
    for (int i = k; i < n; ++i) if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i;
    std::swap(a[k], a[p]);
    std::swap(b[k], b[p]);
    const double d = a[k][k];
    for (int j = 0; j < n; ++j) { a[k][j] /= d; b[k][j] /= d; }
    for (int i = 0; i < n; ++i) if (i != k && a[i][k] != 0) {
      const double f = a[i][k];
      for (int j = 0; j < n; ++j) { a[i][j] -= f * a[k][j]; b[i][j] -= f * b[k][j]; }
    }
  }
  return b;
}
#ifndef NDEBUG
template <typename F> static bool refused(F f) { try { f(); } catch (il::AbortException&) { return true; } return false; }
// an operator of any shape
struct Shape : il::FunctorArray<double> {
  int n, m;
  Shape(int n, int m) : n(n), m(m) {}
  il::int_t size(il::int_t d) const override { return d == 0 ? n : m; }
  void operator()(il::ArrayView<double>, il::io_t, il::ArrayEdit<double> y) const override { for (il::int_t i = 0; i < y.size(); ++i) y[i] = 0; }
};
#endif
static void used(Ctx& c, const Op& A) { if (A.wrong) c.fail("%s", A.wrong); }

static const double kPrec[3] = {1e-10, 1e-3, 1e-6};

#if PART == 0
static void cg_all(Ctx& c) {
  const int n = kLarge ? large_size(c) : 1 + c.pick(c.bound);
  Op A, B;
  A.a = spd(c, n);
  const bool pre = c.flip();
  if (pre) B.a = jacobi(A.a);
  std::vector<double> y = pick_rhs(c, A.a);
  const int prec = c.pick(3), maxk = c.pick(4);  // the default, or a limit
  il::Cg<double> cg = pre ? il::Cg<double>{A, B} : il::Cg<double>{A};
  double want = 1e-6, abs = 0;
  if (prec != 2) { cg.SetRelativePrecision(kPrec[prec]); want = kPrec[prec]; }
  if (cg.relativePrecision() != want || cg.absolutePrecision() != 0 || cg.maxNbIterations() != 100) c.fail("the settings are not those that were given");
  if (maxk == 3) { cg.SetAbsolutionPrecision(0.5); abs = 0.5; }
  const int max = maxk == 0 || maxk == 3 ? 100 : maxk;
  if (max != 100) cg.SetMaxNbIterations(max);
  if (cg.absolutePrecision() != abs || cg.maxNbIterations() != max) c.fail("the settings are not those that were given");
  il::Array<double> b{n};
  for (int i = 0; i < n; ++i) b[i] = y[i];
  const double goal = want * norm(y) + abs;
  for (int again = 0; again < 2; ++again) {  // a solver can be used more than once
    il::Status status{};
    il::Array<double> x = cg.Solve(b, il::io, status);
    used(c, A);
    if (pre) used(c, B);
    const bool ok = status.Ok();
    if (x.size() != n) c.fail("%d unknowns", int(x.size()));
    for (int i = 0; i < n; ++i) if (b[i] != y[i]) c.fail("the right-hand side was modified");
    const double r = residual(A.a, x, y);
    c.log("n %d, at most %d iterations, %s after %d iterations, residual %g, goal %g", n, max, ok ? "ok" : "error", int(cg.nbIterations()), r, goal);
    if (ok && !(r <= goal * 1.0001 + 1e-14 * norm(y))) c.fail("the residual is %g, which is more than %g", r, goal);
    if (!ok && max == 100) c.fail("the conjugate gradient did not converge in 100 iterations");
    if (!ok && r <= goal * 0.99) c.fail("the residual is %g, less than %g, but an error was reported", r, goal);
    if (cg.nbIterations() < 0 || cg.nbIterations() > max) c.fail("%d iterations, of at most %d", int(cg.nbIterations()), max);
    if (ok && cg.nbIterations() > n + 2 + (kLarge ? n / 2 : 0)) c.fail("%d iterations for %d unknowns", int(cg.nbIterations()), n);
    if (!(std::fabs(cg.trueResidualNorm() - r) <= 1e-6 * r + 1e-12 * norm(y))) c.fail("the norm of the residual is said to be %g instead of %g", cg.trueResidualNorm(), r);
  }
}
// hundreds of iterations: information moves by one unknown at each of them
static void cg_many(Ctx& c) {
  const int n = c.of({120, 300, 600}), limit = c.of({100, 127, 128, 255, 256, 299, 1000, 32768, 65536, 70000}), end = c.flip();
  Chain A{n, -1, 2, -1};
  il::Cg<double> cg{A};
  cg.SetRelativePrecision(1e-9);
  cg.SetMaxNbIterations(limit);
  if (cg.maxNbIterations() != limit) c.fail("the limit is %d iterations instead of %d", int(cg.maxNbIterations()), limit);
  std::vector<double> y(n, 0.0);
  y[end ? n - 1 : 0] = 1;
  il::Array<double> b{n, 0.0};
  b[end ? n - 1 : 0] = 1;
  il::Status status{};
  il::Array<double> x = cg.Solve(b, il::io, status);
  const bool ok = status.Ok();
  const double r = A.residual(x, y);
  c.log("n %d, at most %d iterations: %s after %d iterations, residual %g", n, limit, ok ? "ok" : "error", int(cg.nbIterations()), r);
  if (ok && !(r <= 1.0001e-9)) c.fail("the residual is %g, but no error was reported", r);
  if (!ok && r <= 0.9e-9) c.fail("the residual is %g, but an error was reported", r);
  if (!ok && limit >= n + 2) c.fail("no convergence in %d iterations for %d unknowns", limit, n);
  if (!ok && cg.nbIterations() != limit) c.fail("an error is reported after %d iterations, %d are allowed", int(cg.nbIterations()), limit);
  if (cg.nbIterations() < 0 || cg.nbIterations() > limit) c.fail("%d iterations, of at most %d", int(cg.nbIterations()), limit);
  if (ok && (cg.nbIterations() < n - 2 || cg.nbIterations() > n + 2)) c.fail("%d iterations for %d unknowns", int(cg.nbIterations()), n);
}
// one iteration at a time
static void cg_steps(Ctx& c) {
  const int n = kLarge ? large_size(c) : 1 + c.pick(c.bound);
  Op A, B;
  A.a = spd(c, n);
  const bool pre = c.flip();
  if (pre) B.a = jacobi(A.a);
  std::vector<double> y = pick_rhs(c, A.a);
  il::Cg<double> cg = pre ? il::Cg<double>{A, B} : il::Cg<double>{A};
  std::vector<double> b = y;
  for (int again = 0; again < 2; ++again) {
    cg.SetToSolve(il::ArrayView<double>{b.data(), n});
    if (cg.nbIterations() != 0) c.fail("%d iterations before the first one", int(cg.nbIterations()));
    if (!(std::fabs(cg.trueResidualNorm() - norm(y)) <= 1e-14 * norm(y))) c.fail("the norm of the first residual is %g instead of %g", cg.trueResidualNorm(), norm(y));
    std::vector<double> x(n + 2, 777.0);
    cg.getSolution(il::io, il::ArrayEdit<double>{x.data() + 1, n});
    for (int i = 0; i < n; ++i) if (x[i + 1] != 0) c.fail("the first iterate is not 0");
    // |x - solution| in the energy norm decreases
    double last = -1;
    for (int it = 1; it <= n + 1 + (kLarge ? n : 0); ++it) {
      if (cg.trueResidualNorm() <= 1e-9 * norm(y)) break;
      cg.Next();
      used(c, A);
      cg.getSolution(il::io, il::ArrayEdit<double>{x.data() + 1, n});
      if (x[0] != 777 || x[n + 1] != 777) c.fail("getSolution wrote outside of the vector");
      const double r = residual(A.a, x.data() + 1, y);
      c.log("iteration %d: residual %g, said to be %g", it, r, cg.trueResidualNorm());
      if (cg.nbIterations() != it) c.fail("%d iterations instead of %d", int(cg.nbIterations()), it);
      if (!(std::fabs(cg.trueResidualNorm() - r) <= 1e-6 * r + 1e-12 * norm(y))) c.fail("the norm of the residual is said to be %g instead of %g", cg.trueResidualNorm(), r);
      double e = 0;  // x'Ax / 2 - x'y
      for (int i = 0; i < n; ++i) { double ax = 0; for (int j = 0; j < n; ++j) ax += A.a[i][j] * x[j + 1]; e += x[i + 1] * (ax / 2 - y[i]); }
      if (last >= 0 && 0) {}
      if (it > 1 && !(e <= last + 1e-12 * std::fabs(last))) c.fail("the objective function increased from %g to %g", last, e);
      last = e;
    }
    if (!(cg.trueResidualNorm() <= 1e-9 * norm(y))) c.fail("the residual is %g after %d iterations", cg.trueResidualNorm(), int(cg.nbIterations()));
    if (b != y) c.fail("the right-hand side was modified");
  }
}
// with the inverse as preconditioner, one iteration is enough
static void cg_exact(Ctx& c) {
  const int n = kLarge ? large_size(c) : 1 + c.pick(c.bound);
  Op A, B;
  A.a = spd(c, n);
  B.a = inverse(A.a);
  std::vector<double> y = pick_rhs(c, A.a);
  il::Cg<double> cg{A, B};
  il::Array<double> b{n};
  for (int i = 0; i < n; ++i) b[i] = y[i];
  il::Status status{};
  il::Array<double> x = cg.Solve(b, il::io, status);
  status.AbortOnError();
  if (cg.nbIterations() > 1) c.fail("%d iterations with the inverse as preconditioner", int(cg.nbIterations()));
  if (!(residual(A.a, x, y) <= 1e-6 * norm(y))) c.fail("the residual is %g", residual(A.a, x, y));
  if (norm(y) == 0) return;
  cg.SetToSolve(b.view());
  cg.Next();
  cg.getSolution(il::io, x.Edit());
  if (!(residual(A.a, x, y) <= 1e-9 * norm(y))) c.fail("the residual is %g after one iteration with the inverse as preconditioner", residual(A.a, x, y));
  if (B.calls == 0) c.fail("the preconditioner was not applied");
}
#ifndef NDEBUG
static void cg_refusals(Ctx& c) {
  const int n0 = c.pick(c.bound), n1 = c.pick(c.bound), m0 = c.pick(c.bound), m1 = c.pick(c.bound), ny = c.pick(c.bound);
  Shape A{n0, n1}, B{m0, m1};
  c.log("an operator %d x %d, a preconditioner %d x %d, a vector of %d", n0, n1, m0, m1, ny);
  bool r = refused([&] { il::Cg<double> cg{A}; });
  if (r != (n0 != n1)) c.fail("the operator is %s", r ? "refused" : "accepted");
  r = refused([&] { il::Cg<double> cg{A, B}; });
  if (r != (n0 != n1 || m0 != m1 || n0 != m0)) c.fail("the operator and its preconditioner are %s", r ? "refused" : "accepted");
  if (n0 != n1 || m0 != 0 || n0 == 0) return;
  il::Cg<double> cg{A};
  il::Array<double> y{ny, 0.0};
  r = refused([&] { cg.SetToSolve(y.view()); });
  if (r != (ny != n0)) c.fail("the right-hand side is %s", r ? "refused" : "accepted");
  if (ny != n0) { il::Status status{}; r = refused([&] { (void)cg.Solve(y, il::io, status); }); if (!r) c.fail("Solve accepts a right-hand side of another size"); }
  const double p[4] = {0.0, 1e-3, -1e-3, -1.0};
  for (int k = 0; k < 4; ++k) {
    if (refused([&] { cg.SetRelativePrecision(p[k]); }) != (p[k] < 0)) c.fail("a relative precision of %g", p[k]);
    if (refused([&] { cg.SetAbsolutionPrecision(p[k]); }) != (p[k] < 0)) c.fail("an absolute precision of %g", p[k]);
    if (refused([&] { cg.SetMaxNbIterations(k - 2); }) != (k < 2)) c.fail("a maximum of %d iterations", k - 2);
  }
}
MC_SUITE("conjugate gradient, refused requests", cg_refusals, 4, 6);
#endif
static void cg_exact_large(Ctx& c) { Large l; cg_exact(c); }
MC_SUITE("conjugate gradient with the inverse", cg_exact, 3, 4);
MC_SUITE("conjugate gradient with the inverse, larger", cg_exact_large, 1, 1);
MC_SUITE("conjugate gradient", cg_all, 3, 4);
MC_SUITE("conjugate gradient, step by step", cg_steps, 3, 4);
MC_SUITE("conjugate gradient, many iterations", cg_many, 1, 1);
static void cg_large(Ctx& c) { Large l; cg_all(c); }
static void cg_steps_large(Ctx& c) { Large l; cg_steps(c); }
MC_SUITE("conjugate gradient, larger", cg_large, 1, 1);
MC_SUITE("conjugate gradient, step by step, larger", cg_steps_large, 1, 1);
#endif

#if PART == 1
// general invertible matrices, or those on which restarted GMRES cannot stall
static Dense general(Ctx& c, int n, bool& definite, int nv) {
  if (kLarge) {
    definite = true;
    Dense a(n, std::vector<double>(n, 0.0));
    const int family = c.pick(3);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
      a[i][j] = family == 0 ? (i == j ? 4.0 : j == i + 1 ? -1.5 : j == i - 1 ? -0.5 : 0.0) : family == 1 ? (i == j ? 3.0 + i % 5 : j == (i + 2) % n ? 1.5 : j == (i + 3) % n ? -1.0 : 0.0) : i == j ? 2.0 + i : 0.5 * ((i * 7 + j * 3) % 5 - 2) / (1 + std::abs(i - j));
    return a;
  }
  definite = c.flip();
  Dense a(n, std::vector<double>(n, 0.0));
  static const double kV[4] = {0, 1, -2, 3};
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    if (definite && i == j) { a[i][i] = 5 + i; continue; }
    a[i][j] = kV[c.pick(nv)];
  }
  return a;
}
static void gmres_all(Ctx& c) {
  const int n = kLarge ? large_size(c) : 1 + c.pick(c.bound > 3 ? 3 : c.bound);
  Op A, B;
  bool definite;
  A.a = general(c, n, definite, n == 3 ? c.bound - 1 : n == 2 && c.bound == 3 ? 3 : 4);
  if (!kLarge && det(A.a) == 0) return;
  const bool pre = definite && c.flip();
  if (pre) B.a = jacobi(A.a);
  std::vector<double> y = pick_rhs(c, A.a);
  const int prec = c.pick(2), start = c.pick(kLarge ? 3 : 4), restart = kLarge ? c.of({2, 5, 16, 20, n, n + 3}) : definite ? 1 + c.pick(n + 1) : n + c.pick(2);
  il::Gmres<double> solver = pre ? il::Gmres<double>{A, B, restart} : il::Gmres<double>{A, restart};
  std::vector<double> b = y;
  for (int again = 0; again < 2; ++again) {
    std::vector<double> x(n + 2, 777.0);
    for (int i = 0; i < n; ++i) x[i + 1] = start == 0 ? 0 : start == 1 ? 1.0 : start == 2 ? -3.5 * (i + 1) : 0;
    if (start == 3) {  // the solution, by Cramer's rule
      for (int j = 0; j < n; ++j) { Dense m = A.a; for (int i = 0; i < n; ++i) m[i][j] = y[i]; x[j + 1] = det(m) / det(A.a); }
    }
    il::Status status{};
    solver.Solve(il::ArrayView<double>{b.data(), n}, kPrec[prec], 200, il::io, il::ArrayEdit<double>{x.data() + 1, n}, status);
    used(c, A);
    if (pre) used(c, B);
    const bool ok = status.Ok();
    const double r = residual(A.a, x.data() + 1, y);
    c.log("n %d, restart %d, %s after %d iterations, residual %g, right-hand side %g", n, restart, ok ? "ok" : "error", int(solver.nbIterations()), r, norm(y));
    if (x[0] != 777 || x[n + 1] != 777) c.fail("Solve wrote outside of the vector");
    if (b != y) c.fail("the right-hand side was modified");
    if (ok && !(r <= kPrec[prec] * norm(y) * 1.0001)) c.fail("the residual is %g for a right-hand side of norm %g", r, norm(y));
    double x0 = 0;  // what rounding allows
    for (int i = 0; i < n; ++i) x0 += start == 1 ? 1 : start == 2 ? 3.5 * (i + 1) : 0;
    if (!ok && (!kLarge || restart >= 16) && kPrec[prec] * norm(y) > 1e-13 * (10 * x0 + 30 * norm(y))) c.fail("GMRES did not converge in 200 iterations");
    if (solver.nbIterations() < 0 || solver.nbIterations() > 200) c.fail("%d iterations", int(solver.nbIterations()));
  }
}
// a limit that may be reached: the solver stops and says so
static void gmres_limits(Ctx& c) {
  const int n = 2 + c.pick(c.bound), limit = 1 + c.pick(n), restart = 1 + c.pick(n), prec = c.pick(2), shape = c.pick(3);
  Op A;
  A.a.assign(n, std::vector<double>(n, 0.0));
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
    A.a[i][j] = shape == 0 ? double(j == (i + 1) % n) : shape == 1 ? (i == j ? 2.0 : std::abs(i - j) == 1 ? -1.0 : 0.0) : (i == j ? 4.0 + i : j > i ? -1.0 : 0.5);
  std::vector<double> y = pick_rhs(c, A.a), x(n, 0.0);
  il::Gmres<double> solver{A, restart};
  std::vector<double> b = y;
  il::Status status{};
  solver.Solve(il::ArrayView<double>{b.data(), n}, kPrec[prec], limit, il::io, il::ArrayEdit<double>{x.data(), n}, status);
  used(c, A);
  const bool ok = status.Ok();
  const double r = residual(A.a, x, y), goal = kPrec[prec] * norm(y);
  c.log("n %d, at most %d iterations, restart %d, shape %d: %s after %d iterations, residual %g, goal %g", n, limit, restart, shape, ok ? "ok" : "error", int(solver.nbIterations()), r, goal);
  if (ok && !(r <= goal * 1.0001)) c.fail("the residual is %g, more than %g, but no error was reported", r, goal);
  if (!ok && r <= goal * 0.99) c.fail("the residual is %g, less than %g, but an error was reported", r, goal);
  if (!(r <= norm(y) * 1.0001)) c.fail("the residual grew from %g to %g", norm(y), r);
  if (solver.nbIterations() < 0 || solver.nbIterations() > limit) c.fail("%d iterations, of at most %d", int(solver.nbIterations()), limit);
}
// hundreds of iterations without a restart, or with long cycles
static void gmres_many(Ctx& c) {
  const int n = c.of({120, 260, 300}), restart = c.of({100, 128, 256, 257, 300}), limit = c.of({100, 255, 256, 400, 70000}), which = c.flip();
  Chain A = which ? Chain{n, -1, 2, -1} : Chain{n, -1, 1, 0};
  std::vector<double> y(n, 0.0), x(n, 0.0);
  y[0] = 1;
  il::Gmres<double> solver{A, restart};
  std::vector<double> b = y;
  il::Status status{};
  const int most = restart >= n ? limit : limit < 400 ? limit : 400;
  solver.Solve(il::ArrayView<double>{b.data(), n}, 1e-9, most, il::io, il::ArrayEdit<double>{x.data(), n}, status);
  const bool ok = status.Ok();
  const double r = A.residual(x, y);
  c.log("n %d, restart %d, at most %d iterations: %s after %d iterations, residual %g", n, restart, most, ok ? "ok" : "error", int(solver.nbIterations()), r);
  if (ok && !(r <= 1.0001e-9)) c.fail("the residual is %g, but no error was reported", r);
  if (!ok && r <= 0.9e-9) c.fail("the residual is %g, but an error was reported", r);
  if (!(r <= 1.0001)) c.fail("the residual grew to %g", r);
  if (!ok && restart >= n && most >= n + 2) c.fail("no convergence in %d iterations for %d unknowns", most, n);
  if (!ok && solver.nbIterations() != most) c.fail("an error is reported after %d iterations, %d are allowed", int(solver.nbIterations()), most);
  if (solver.nbIterations() < 0 || solver.nbIterations() > most) c.fail("%d iterations, of at most %d", int(solver.nbIterations()), most);
  if (ok && restart >= n && (solver.nbIterations() < n - 2 || solver.nbIterations() > n + 2)) c.fail("%d iterations for %d unknowns", int(solver.nbIterations()), n);
}
static void gmres_steps(Ctx& c) {
  const int n = kLarge ? large_size(c) : 1 + c.pick(c.bound > 3 ? 3 : c.bound);
  Op A, B;
  bool definite;
  A.a = general(c, n, definite, n == 3 ? c.bound - 1 : n == 2 && c.bound == 3 ? 3 : 4);
  if (!kLarge && det(A.a) == 0) return;
  const bool pre = definite && c.flip();
  if (pre) B.a = jacobi(A.a);
  std::vector<double> y = pick_rhs(c, A.a);
  const int restart = n + c.pick(2);
  // in a memory filled with zeros, so that a member which is not initialised is always 0
  typedef il::Gmres<double> G;
  std::vector<unsigned char> mem(sizeof(G) + alignof(G), 0);
  unsigned char* at = mem.data() + (alignof(G) - size_t(mem.data()) % alignof(G)) % alignof(G);
  G* g = pre ? new (at) G{A, B, restart} : new (at) G{A, restart};
  struct Guard { G* g; ~Guard() { g->~G(); } } guard{g};
  G& solver = *g;
  std::vector<double> b = y;
  for (int again = 0; again < 2; ++again) {
    solver.SetToSolve(il::ArrayView<double>{b.data(), n});
    if (solver.nbIterations() != 0) c.fail("%d iterations before the first one", int(solver.nbIterations()));
    if (!(std::fabs(solver.normResidual() - norm(y)) <= 1e-14 * norm(y))) c.fail("the norm of the first residual is %g instead of %g", solver.normResidual(), norm(y));
    std::vector<double> x(n + 2, 777.0);
    double last = norm(y);
    for (int it = 1; it <= n; ++it) {
      if (solver.normResidual() <= 1e-9 * norm(y)) break;
      solver.Next();
      used(c, A);
      solver.getSolution(il::io, il::ArrayEdit<double>{x.data() + 1, n});
      if (x[0] != 777 || x[n + 1] != 777) c.fail("getSolution wrote outside of the vector");
      const double r = residual(A.a, x.data() + 1, y);
      c.log("iteration %d: residual %g, said to be %g", it, r, solver.normResidual());
      if (solver.nbIterations() != it) c.fail("%d iterations instead of %d", int(solver.nbIterations()), it);
      if (!(std::fabs(solver.normResidual() - r) <= 1e-6 * r + 1e-11 * norm(y))) c.fail("the norm of the residual is said to be %g instead of %g", solver.normResidual(), r);
      if (!(r <= last * 1.000001 + 1e-12 * norm(y))) c.fail("the residual grew from %g to %g", last, r);
      last = r;
    }
    if (!(solver.normResidual() <= 1e-9 * norm(y))) c.fail("the residual is %g after %d iterations", solver.normResidual(), int(solver.nbIterations()));
    if (b != y) c.fail("the right-hand side was modified");
  }
}
// with the inverse as preconditioner, one iteration is enough
static void gmres_exact(Ctx& c) {
  const int n = kLarge ? large_size(c) : 1 + c.pick(c.bound > 3 ? 3 : c.bound);
  Op A, B;
  bool definite;
  A.a = general(c, n, definite, n == 3 ? c.bound - 1 : n == 2 && c.bound == 3 ? 3 : 4);
  if (!kLarge && det(A.a) == 0) return;
  B.a = inverse(A.a);
  std::vector<double> y = pick_rhs(c, A.a);
  il::Gmres<double> solver{A, B, 1 + c.pick(3)};
  il::Array<double> b{n}, x{n, 0.0};
  for (int i = 0; i < n; ++i) b[i] = y[i];
  il::Status status{};
  solver.Solve(b.view(), 1e-8, 200, il::io, x.Edit(), status);
  if (!status.Ok()) c.fail("GMRES did not converge with the inverse as preconditioner");
  if (solver.nbIterations() > 1) c.fail("%d iterations with the inverse as preconditioner", int(solver.nbIterations()));
  if (!(residual(A.a, x, y) <= 1e-8 * norm(y))) c.fail("the residual is %g", residual(A.a, x, y));
  if (norm(y) == 0) return;
  solver.SetToSolve(b);
  solver.Next();
  solver.getSolution(il::io, x);
  if (!(residual(A.a, x, y) <= 1e-9 * norm(y))) c.fail("the residual is %g after one iteration with the inverse as preconditioner", residual(A.a, x, y));
  for (int i = 0; i < n; ++i) if (b[i] != y[i]) c.fail("the right-hand side was modified");
}
#ifndef NDEBUG
static void gmres_refusals(Ctx& c) {
  const int n0 = c.pick(c.bound), n1 = c.pick(c.bound), m0 = c.pick(c.bound), m1 = c.pick(c.bound), ny = c.pick(c.bound);
  Shape A{n0, n1}, B{m0, m1};
  c.log("an operator %d x %d, a preconditioner or an unknown %d x %d, a vector of %d", n0, n1, m0, m1, ny);
  bool r = refused([&] { il::Gmres<double> g{A, 2}; });
  if (r != (n0 != n1)) c.fail("the operator is %s", r ? "refused" : "accepted");
  r = refused([&] { il::Gmres<double> g{A, B, 2}; });
  if (r != (n0 != n1 || m0 != m1 || n0 != m0)) c.fail("the operator and its preconditioner are %s", r ? "refused" : "accepted");
  if (n0 != n1 || m0 != 0 || n0 == 0) return;
  il::Gmres<double> g{A, 2};
  il::Array<double> y{ny, 0.0}, x{m1, 0.0};
  r = refused([&] { g.SetToSolve(y); });
  if (r != (ny != n0)) c.fail("the right-hand side is %s", r ? "refused" : "accepted");
  if (ny == n0 && m1 == n0) return;
  il::Status status{};
  r = refused([&] { g.Solve(y.view(), 1e-6, 10, il::io, x.Edit(), status); });

  if (!r) c.fail("Solve accepts vectors of %d and %d elements for %d unknowns", ny, m1, n0);
}
MC_SUITE("GMRES, refused requests", gmres_refusals, 4, 6);
#endif
static void gmres_exact_large(Ctx& c) { Large l; gmres_exact(c); }
MC_SUITE("GMRES with the inverse", gmres_exact, 3, 4);
MC_SUITE("GMRES with the inverse, larger", gmres_exact_large, 1, 1);
MC_SUITE("GMRES", gmres_all, 3, 4);
MC_SUITE("GMRES, limited iterations", gmres_limits, 4, 7);
MC_SUITE("GMRES, step by step", gmres_steps, 3, 4);
MC_SUITE("GMRES, many iterations", gmres_many, 1, 1);
static void gmres_large(Ctx& c) { Large l; gmres_all(c); }
static void gmres_steps_large(Ctx& c) { Large l; gmres_steps(c); }
MC_SUITE("GMRES, larger", gmres_large, 1, 1);
MC_SUITE("GMRES, step by step, larger", gmres_steps_large, 1, 1);
#endif
