// P29: norms against their definitions, for all vectors and matrices with entries in
// a small set of exactly representable values.
#include <cmath>
#include <vector>

#include "../lib/ilmc.h"

#include <il/linearAlgebra/dense/norm.h>

using mc::Ctx;

static const double kVal[5] = {-3, 0, 0.5, 2, -0.25};
static const int kInt[4] = {-3, 0, 2, 5};
static const il::Norm kNorm[3] = {il::Norm::L1, il::Norm::L2, il::Norm::Linf};

template <typename T> static T value(Ctx& c, int n) { return T(kVal[c.pick(n)]); }
template <> il::int_t value<il::int_t>(Ctx& c, int n) { return kInt[c.pick(n > 4 ? 4 : n)]; }

static double ref(const std::vector<double>& v, il::Norm k) {
  double s = 0;
  for (double x : v) {
    double a = std::fabs(x);
    if (k == il::Norm::L1) s += a;
    else if (k == il::Norm::L2) s += a * a;
    else if (a > s) s = a;
  }
  return k == il::Norm::L2 ? std::sqrt(s) : s;
}
static void same(Ctx& c, double got, double want, const char* what) {
  if (!(got == want) && !(std::fabs(got - want) <= 1e-14 * want)) c.fail("%s is %.17g instead of %.17g", what, got, want);
}

static void vectors(Ctx& c) {
  int n = c.pick(c.bound + 1), cap = c.pick(2), kn = c.pick(3);
  bool weights = c.flip();
  il::Array<double> v{n}, w{n};
  if (cap) { v.Reserve(n + 3); w.Reserve(n + 1); }
  std::vector<double> r, orig;
  static const double kW[2] = {0.5, 4};
  for (int i = 0; i < n; ++i) {
    v[i] = value<double>(c, weights ? 3 : 5);
    w[i] = weights ? kW[c.pick(2)] : 1;
    orig.push_back(v[i]);
    r.push_back(v[i] / w[i]);
  }
  double got = weights ? il::norm(v, kNorm[kn], w) : il::norm(v, kNorm[kn]);
  same(c, got, ref(r, kNorm[kn]), weights ? "the weighted norm of a vector" : "the norm of a vector");
  if (v.size() != n || w.size() != n) c.fail("the operand changed");
  for (int i = 0; i < n; ++i) if (v[i] != orig[i]) c.fail("the operand was modified");
#ifndef NDEBUG
  if (weights) {
    w.Resize(n + 1);
    bool rej = false;
    try { il::norm(v, kNorm[kn], w); } catch (il::AbortException&) { rej = true; }
    if (!rej) c.fail("weights of another size were accepted");
  }
#endif
}
template <int n> static void statics(Ctx& c) {
  int kn = c.pick(3);
  il::StaticArray<double, n> v;
  std::vector<double> r;
  for (int i = 0; i < n; ++i) { v[i] = value<double>(c, 5); r.push_back(v[i]); }
  same(c, il::norm(v, kNorm[kn]), ref(r, kNorm[kn]), "the norm of a static vector");
  for (int i = 0; i < n; ++i) if (v[i] != r[i]) c.fail("the operand was modified");
}
template <typename T> static void matrices(Ctx& c) {
  int n0 = c.pick(c.bound + 1), n1 = c.pick(c.bound + 1), cap = c.pick(2);
  bool inf = c.flip();
  il::Array2D<T> A{n0, n1};
  if (cap) A.Reserve(n0 + 2, n1 + 1);
  int nv = n0 * n1 > 6 ? 2 : n0 * n1 > 4 ? 3 : 5;
  std::vector<double> rows(n0, 0.0), cols(n1, 0.0);
  std::vector<T> orig;
  for (int j = 0; j < n1; ++j) for (int i = 0; i < n0; ++i) {
    T x = value<T>(c, nv);
    A(i, j) = x;
    orig.push_back(x);
    rows[i] += std::fabs(double(x));
    cols[j] += std::fabs(double(x));
  }
  double got = il::norm(A, inf ? il::Norm::Linf : il::Norm::L1);
  same(c, got, ref(inf ? rows : cols, il::Norm::Linf), inf ? "the infinity norm of a matrix" : "the 1-norm of a matrix");
  for (int j = 0, k = 0; j < n1; ++j) for (int i = 0; i < n0; ++i, ++k) if (A(i, j) != orig[k]) c.fail("the operand was modified");
#ifndef NDEBUG
  bool rej = false;
  try { il::norm(A, il::Norm::L2); } catch (il::AbortException&) { rej = true; }
  if (!rej) c.fail("the 2-norm of a matrix, which is not available, was accepted");
#endif
}
template <typename T> static void tridiagonals(Ctx& c) {
  int n = c.pick(c.bound + 1);
  il::TriDiagonal<T> A{n};
  // what lies outside of the matrix must not matter
  if (n > 0) { A(0, -1) = T(100); A(n - 1, 1) = T(-200); }
  std::vector<double> rows(n, 0.0);
  std::vector<T> orig;
  for (int i = 0; i < n; ++i) for (int k = -1; k <= 1; ++k) {
    if (i + k < 0 || i + k >= n) continue;
    T x = value<T>(c, n > 3 ? 2 : 4);
    A(i, k) = x;
    orig.push_back(x);
    rows[i] += std::fabs(double(x));
  }
  double got = il::norm(A, il::Norm::Linf);
  same(c, got, ref(rows, il::Norm::Linf), "the infinity norm of a tridiagonal matrix");
  size_t p = 0;
  for (int i = 0; i < n; ++i) for (int k = -1; k <= 1; ++k) {
    if (i + k < 0 || i + k >= n) continue;
    if (A(i, k) != orig[p++]) c.fail("the operand was modified");
  }
}
// larger operands: every entry alone, every pair of entries, and filled ones
template <typename T> static void large(Ctx& c) {
  const int n = c.bound;
  const int kind = c.pick(4);
  // 0: Array, 1: matrix, 2: tridiagonal, 3: static vector of 37 elements
  static const int far[] = {31, 32, 33, 63, 65, 127, 129, 257, 513, 1025};  // vectors; a narrow or a wide matrix
  const int nf = kind == 0 || kind == 2 ? 9 + c.thorough : kind == 1 ? 8 : 0, size = kind == 3 ? 0 : c.pick(n + nf), wide = kind == 1 && size >= n ? c.pick(5) : 0;
  int n0 = kind == 3 ? 37 : size < n ? 1 + size : far[size - n], n1 = kind == 1 ? (size < n ? 1 + c.pick(n) : wide < 2 ? 1 : 3) : kind == 2 ? 3 : 1;
  if (wide & 1) std::swap(n0, n1);
  if (wide == 4) { n1 = n0 < 70 ? n0 : 70; }
  const int cap = kind == 2 || kind == 3 ? 0 : c.pick(2);
  c.settle();
  auto in = [&](int k) { return kind != 2 || (k / 3 + k % 3 - 1 >= 0 && k / 3 + k % 3 - 1 < n0); };
  const int total = n0 * n1;
  std::vector<double> v(size_t(total), 0.0);
  auto check = [&](const char* what) {
    il::Norm kinds[3] = {il::Norm::L1, il::Norm::L2, il::Norm::Linf};
    auto at = [&](int i, int j) { return kind == 2 ? v[size_t(i * 3 + j)] : v[size_t(j * n0 + i)]; };
    std::vector<double> rows(size_t(n0), 0.0), cols(size_t(n1), 0.0);
    for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) { rows[size_t(i)] += std::fabs(at(i, j)); cols[size_t(j)] += std::fabs(at(i, j)); }
    if (kind == 0) {
      il::Array<double> a{n0};
      if (cap) a.Reserve(n0 + 5);
      for (int i = 0; i < n0; ++i) a[i] = v[size_t(i)];
      for (int k = 0; k < 3; ++k) same(c, il::norm(a, kinds[k]), ref(v, kinds[k]), what);
    } else if (kind == 1) {
      il::Array2D<T> a{n0, n1};
      if (cap) a.Reserve(n0 + 1, n1 + 2);
      for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) a(i, j) = T(at(i, j));
      same(c, il::norm(a, il::Norm::L1), ref(cols, il::Norm::Linf), what);
      same(c, il::norm(a, il::Norm::Linf), ref(rows, il::Norm::Linf), what);
    } else if (kind == 2) {
      il::TriDiagonal<T> a{n0};
      for (int i = 0; i < n0; ++i) for (int j = 0; j < 3; ++j) if (in(i * 3 + j)) a(i, j - 1) = T(at(i, j));
      same(c, il::norm(a, il::Norm::Linf), ref(rows, il::Norm::Linf), what);
    } else {
      il::StaticArray<double, 37> a;
      for (int i = 0; i < n0; ++i) a[i] = v[size_t(i)];
      for (int k = 0; k < 3; ++k) same(c, il::norm(a, kinds[k]), ref(v, kinds[k]), what);
    }
  };
  const int stride = total > 2000 ? total / 500 | 1 : 1;
  for (int k = 0; k < total; k += stride) if (in(k)) {
    v[size_t(k)] = -3;
    check("the norm of an operand with one entry");
    for (int l = k + 1; l < total; ++l) if (in(l) && (total <= 40 || l < k + 3 || (total <= 400 && l % n0 == k % n0))) {
      v[size_t(l)] = 4;
      check("the norm of an operand with two entries");
      v[size_t(l)] = 0;
    }
    v[size_t(k)] = 0;
  }
  for (int salt = 0; salt < 7; ++salt) {
    for (int k = 0; k < total; ++k) v[size_t(k)] = in(k) ? (k * 5 + salt * k * k + salt) % 13 - 6 : 0;
    check("the norm of a filled operand");
  }
}
MC_SUITE("large operands", large<double>, 14, 24, true, 3);
MC_SUITE("large operands il::int_t", large<il::int_t>, 12, 20, true, 3);
MC_SUITE("vectors", vectors, 5, 6);
MC_SUITE("static vectors 1", statics<1>, 1, 1);
MC_SUITE("static vectors 2", statics<2>, 1, 1);
MC_SUITE("static vectors 3", statics<3>, 1, 1);
MC_SUITE("static vectors 5", statics<5>, 1, 1);
MC_SUITE("matrices double", matrices<double>, 3, 4);
MC_SUITE("matrices float", matrices<float>, 3, 4);
MC_SUITE("tridiagonal il::int_t", tridiagonals<il::int_t>, 4, 6);
MC_SUITE("matrices il::int_t", matrices<il::int_t>, 3, 4);
MC_SUITE("tridiagonal double", tridiagonals<double>, 4, 6);
MC_SUITE("tridiagonal float", tridiagonals<float>, 4, 6);
