// P42: the points of il::sobol.
#include <cmath>
#include <cstring>
#include <vector>
#include "ilmc.h"
#include <il/random/sobol.h>
using il::int_t;
using mc::Ctx;

struct Box { double a, b; };
static const Box kBox[] = {{0, 1}, {-1, 1}, {2, 6}, {0, 1.0 / 1024}, {-8, -4}};  // affine maps without any rounding
static const Box kRough[] = {{0.1, 0.7}, {-1e3, 1e-3}, {3, 3.0000001}};
static std::vector<double> unit(int_t n, int_t dim) {  // points of the unit box, row by row
  std::vector<double> r;
  const il::Array2C<double> A = il::sobol(n, dim, 0.0, 1.0);
  for (int_t i = 0; i < n; ++i) for (int_t k = 0; k < dim; ++k) r.push_back(A(i, k));
  return r;
}
// Every coordinate: with the point 0 which comes first and is not given, the points of an
// aligned block of 2^m points lie in the 2^m intervals of length 2^-m, one in each.
static void oneD(Ctx& c) {
  const int dim = 1 + c.pick(40);
  const int m = 1 + c.pick(c.thorough ? 12 : 8);
  const int n = (1 << (m + 1)) - 1;
  const std::vector<double> u = unit(n, dim);
  c.log("%d points in dimension %d", n, dim);
  for (int k = 0; k < dim; ++k) for (int block = 0; block < 2; ++block) {
    std::vector<char> seen(1 << m, 0);
    for (int i = block << m; i < (block + 1) << m; ++i) {
      const double x = i == 0 ? 0.0 : u[size_t(i - 1) * dim + k];
      MC_CHECK(c, x >= 0.0 && x < 1.0, "coordinate %d of point %d is %g", k, i, x);
      char& s = seen[(int)std::floor(x * (1 << m))];
      MC_CHECK(c, !s, "coordinate %d: two of the points %d to %d lie in the same interval of length 2^-%d", k, block << m, ((block + 1) << m) - 1, m);
      s = 1;
    }
  }
}
// The first two coordinates: one point in every elementary rectangle of area 2^-m.
static void twoD(Ctx& c) {
  const int dim = 2 + c.pick(39);
  const int m = 1 + c.pick(c.thorough ? 10 : 7);
  const int p = c.pick(m + 1);  // 2^p columns, 2^(m - p) rows
  const std::vector<double> u = unit((1 << m) - 1, dim);
  c.log("%d points in dimension %d, rectangles %d x %d", 1 << m, dim, 1 << p, 1 << (m - p));
  std::vector<char> seen(1 << m, 0);
  for (int i = 0; i < 1 << m; ++i) {
    const double x = i == 0 ? 0.0 : u[size_t(i - 1) * dim], y = i == 0 ? 0.0 : u[size_t(i - 1) * dim + 1];
    char& s = seen[(int)std::floor(x * (1 << p)) * (1 << (m - p)) + (int)std::floor(y * (1 << (m - p)))];
    MC_CHECK(c, !s, "two points in the same rectangle");
    s = 1;
  }
}
// The sequence does not depend on how many points are asked for; no two coordinates are the same.
static void prefix(Ctx& c) {
  const int dim = c.pick(41);
  const int n = c.pick(34);
  const il::Array2C<double> A = il::sobol(n, dim, 0.0, 1.0);
  c.log("%d points in dimension %d", n, dim);
  MC_CHECK(c, A.size(0) == n && A.size(1) == dim, "the result is %ld x %ld", (long)A.size(0), (long)A.size(1));
  if (dim == 0) return;
  const std::vector<double> u = unit(64, dim), v = unit(64, 40);
  for (int i = 0; i < n; ++i) for (int k = 0; k < dim; ++k) {
    MC_CHECK(c, A(i, k) == u[size_t(i) * dim + k], "point %d of %d is not the one of a longer sequence", i, n);
    MC_CHECK(c, A(i, k) == v[size_t(i) * 40 + k], "coordinate %d of point %d depends on the dimension", k, i);
  }
  for (int k = 0; k < dim; ++k) for (int l = 0; l < k; ++l) {
    bool same = true;
    for (int i = 0; i < 64; ++i) same = same && u[size_t(i) * dim + k] == u[size_t(i) * dim + l];
    MC_CHECK(c, !same, "coordinates %d and %d are the same", l, k);
  }
}
// The first eight coordinates against the definition of Sobol's sequence: a primitive polynomial
// over GF(2) and the first direction numbers of Bratley and Fox for each of them, Gray code order.
static const struct { int degree; unsigned poly; unsigned m[5]; } kSobol[8] = {
    {0, 0, {}},          {1, 0, {1}},          {2, 1, {1, 1}},       {3, 1, {1, 3, 7}},
    {3, 2, {1, 1, 5}},   {4, 1, {1, 3, 1, 1}}, {4, 4, {1, 1, 3, 7}}, {5, 2, {1, 3, 3, 9, 9}}};
static void definition(Ctx& c) {
  const int dim = 1 + c.pick(40), k = c.pick(dim < 8 ? dim : 8);
  const int n = c.of({1, 2, 3, 31, 64, c.thorough ? 20000 : 2000});
  unsigned v[33] = {};
  const int d = kSobol[k].degree;
  for (int j = 1; j <= 32; ++j) {
    if (d == 0) { v[j] = 1u << (32 - j); continue; }
    if (j <= d) { v[j] = kSobol[k].m[j - 1] << (32 - j); continue; }
    v[j] = v[j - d] ^ (v[j - d] >> d);
    for (int q = 1; q < d; ++q) if ((kSobol[k].poly >> (d - 1 - q)) & 1) v[j] ^= v[j - q];
  }
  c.log("%d points in dimension %d, coordinate %d", n, dim, k);
  const std::vector<double> u = unit(n, dim);
  unsigned x = 0;
  for (int i = 0; i < n; ++i) {
    x ^= v[1 + __builtin_ctz(~(unsigned)i)];
    MC_CHECK(c, u[size_t(i) * dim + k] == x / 4294967296.0, "coordinate %d of point %d is %.12g, expected %.12g", k, i, u[size_t(i) * dim + k], x / 4294967296.0);
  }
}
// Any box: the image of the unit box.
static void box(Ctx& c) {
  const int dim = 1 + c.pick(40), n = c.of({1, 2, 3, 7, 16, 33});
  const int w = c.pick(8);
  const bool exact = w < 5;
  const Box b = exact ? kBox[w] : kRough[w - 5];
  c.log("%d points in dimension %d, box [%g, %g)", n, dim, b.a, b.b);
  const std::vector<double> u = unit(n, dim);
  const il::Array2C<double> A = il::sobol(n, dim, b.a, b.b);
  MC_CHECK(c, A.size(0) == n && A.size(1) == dim, "the result is %ld x %ld", (long)A.size(0), (long)A.size(1));
  for (int i = 0; i < n; ++i) for (int k = 0; k < dim; ++k) {
    const double x = b.a + (b.b - b.a) * u[size_t(i) * dim + k];
    if (exact) MC_CHECK(c, A(i, k) == x, "coordinate %d of point %d is %.17g, expected %.17g", k, i, A(i, k), x);
    else MC_CHECK(c, std::fabs(A(i, k) - x) <= 1e-14 * (std::fabs(b.a) + std::fabs(b.b)) && A(i, k) >= b.a && A(i, k) <= b.b, "coordinate %d of point %d is %.17g, expected about %.17g", k, i, A(i, k), x);
  }
}
MC_SUITE("each coordinate", oneD, 1, 1);
MC_SUITE("first two coordinates", twoD, 1, 1);
MC_SUITE("prefixes and dimensions", prefix, 1, 1);
MC_SUITE("definition", definition, 1, 1);
MC_SUITE("boxes", box, 1, 1);
#ifdef MC_CHECKED
static void refused(Ctx& c) {
  const int_t dim = c.of({(int_t)41, (int_t)42, (int_t)1000, (int_t)-1});
  const int_t n = c.of({1, 4});
  bool thrown = false;
  try { il::sobol(n, dim, 0.0, 1.0); } catch (const il::AbortException&) { thrown = true; }
  MC_CHECK(c, thrown, "%ld dimensions were accepted", (long)dim);
}
MC_SUITE("too many dimensions", refused, 1, 1);
#endif
