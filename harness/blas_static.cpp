// P27: products of arrays of static size, and cross products.
#include <complex>
#include <array>

#include "../lib/ilmc.h"

#include <il/linearAlgebra/dense/blas/blas_static.h>
#include <il/linearAlgebra/dense/blas/cross.h>

using mc::Ctx;
typedef std::complex<double> cd;

template <typename T> static T val(int which, int a, int b = 0, int d = 0, int e = 0) {
  int v = 1 + which * 13 + a * 3 + b * 7 + d * 17 + e * 29;
  if ((a + b + d + e + which) % 3 == 1) v = -v;
  return T(v % 47);
}
template <> cd val<cd>(int which, int a, int b, int d, int e) { return cd(val<double>(which, a, b, d, e), val<double>(which + 1, e, d, b, a)); }

static const double kScale[4] = {0, 1, -2, 3};

template <typename T, int n0> struct V {
  il::StaticArray<T, n0> a;
  V(int w) { for (int i = 0; i < n0; ++i) a[i] = val<T>(w, i); }
};
template <typename T, int n0, int n1> struct M2 {
  il::StaticArray2D<T, n0, n1> a;
  M2(int w) { for (int j = 0; j < n1; ++j) for (int i = 0; i < n0; ++i) a(i, j) = val<T>(w, i, j); }
};
template <typename T, int n0, int n1, int n2> struct M3 {
  il::StaticArray3D<T, n0, n1, n2> a;
  M3(int w) { for (int k = 0; k < n2; ++k) for (int j = 0; j < n1; ++j) for (int i = 0; i < n0; ++i) a(i, j, k) = val<T>(w, i, j, k); }
};
template <typename T, int n0, int n1, int n2, int n3> struct M4 {
  il::StaticArray4D<T, n0, n1, n2, n3> a;
  M4(int w) { for (int l = 0; l < n3; ++l) for (int k = 0; k < n2; ++k) for (int j = 0; j < n1; ++j) for (int i = 0; i < n0; ++i) a(i, j, k, l) = val<T>(w, i, j, k, l); }
};

#define EQ(x, y, what) do { if (!((x) == (y))) c.fail("%s: a wrong element", what); } while (0)

template <typename T, int a, int b, int d>
static void shape(Ctx& c) {
  int what = c.pick(13);
  int ka = 1, kb = 1;
  bool scaled = what >= 9;
  if (scaled) { ka = c.pick(4); kb = c.pick(4); }
  double alpha = kScale[ka], beta = kScale[kb];
  c.log("kernel %d, extents %d %d %d, alpha %g beta %g", what, a, b, d, alpha, beta);
  V<T, a> va(0), wa(1);
  V<T, b> vb(1), wb(2);
  M2<T, a, b> mab(2);
  M2<T, b, d> mbd(3);
  M3<T, b, d, a> tbda(4), ubda(5);
  M3<T, a, d, b> tadb(6);
  M4<T, a, d, 2, b> q(7);
  switch (what) {
    case 0: {
      T r = il::dot(va.a, wa.a), w = T(0);
      for (int i = 0; i < a; ++i) w += va.a[i] * wa.a[i];
      EQ(r, w, "dot(vector, vector)");
      break;
    }
    case 1: {
      il::StaticArray<T, a> r = il::dot(mab.a, vb.a);
      for (int i = 0; i < a; ++i) { T w = T(0); for (int k = 0; k < b; ++k) w += mab.a(i, k) * vb.a[k]; EQ(r[i], w, "dot(matrix, vector)"); }
      break;
    }
    case 2: {
      il::StaticArray<T, b> r = il::dot(mab.a, il::Dot::Transpose, va.a);
      for (int i = 0; i < b; ++i) { T w = T(0); for (int k = 0; k < a; ++k) w += mab.a(k, i) * va.a[k]; EQ(r[i], w, "dot(transposed matrix, vector)"); }
      break;
    }
    case 3: {
      il::StaticArray<T, b> r = il::dot(va.a, mab.a);
      for (int i = 0; i < b; ++i) { T w = T(0); for (int k = 0; k < a; ++k) w += va.a[k] * mab.a(k, i); EQ(r[i], w, "dot(vector, matrix)"); }
      break;
    }
    case 4: {
      il::StaticArray2D<T, a, d> r = il::dot(mab.a, mbd.a);
      for (int i = 0; i < a; ++i) for (int j = 0; j < d; ++j) { T w = T(0); for (int k = 0; k < b; ++k) w += mab.a(i, k) * mbd.a(k, j); EQ(r(i, j), w, "dot(matrix, matrix)"); }
      break;
    }
    case 5: {
      M2<T, a, d> mad(5);
      il::StaticArray2D<T, b, d> r = il::dot(mab.a, il::Dot::Transpose, mad.a);
      for (int i = 0; i < b; ++i) for (int j = 0; j < d; ++j) { T w = T(0); for (int k = 0; k < a; ++k) w += mab.a(k, i) * mad.a(k, j); EQ(r(i, j), w, "dot(transposed matrix, matrix)"); }
      break;
    }
    case 6: {
      il::StaticArray3D<T, a, d, a> r = il::dot(mab.a, tbda.a);
      for (int i = 0; i < a; ++i) for (int j = 0; j < d; ++j) for (int l = 0; l < a; ++l) { T w = T(0); for (int k = 0; k < b; ++k) w += mab.a(i, k) * tbda.a(k, j, l); EQ(r(i, j, l), w, "dot(matrix, 3D array)"); }
      break;
    }
    case 7: {
      il::StaticArray2D<T, a, d> r = il::dot(tadb.a, vb.a);
      for (int i = 0; i < a; ++i) for (int j = 0; j < d; ++j) { T w = T(0); for (int k = 0; k < b; ++k) w += tadb.a(i, j, k) * vb.a[k]; EQ(r(i, j), w, "dot(3D array, vector)"); }
      break;
    }
    case 8: {
      il::StaticArray3D<T, a, d, 2> r = il::dot(q.a, vb.a);
      for (int i = 0; i < a; ++i) for (int j = 0; j < d; ++j) for (int l = 0; l < 2; ++l) { T w = T(0); for (int k = 0; k < b; ++k) w += q.a(i, j, l, k) * vb.a[k]; EQ(r(i, j, l), w, "dot(4D array, vector)"); }
      break;
    }
    case 9: {
      il::StaticArray3D<T, b, d, a> r = ubda.a;
      il::blas(T(alpha), tbda.a, T(beta), il::io, r);
      for (int i = 0; i < b; ++i) for (int j = 0; j < d; ++j) for (int l = 0; l < a; ++l) EQ(r(i, j, l), T(alpha) * tbda.a(i, j, l) + T(beta) * ubda.a(i, j, l), "update of a 3D array");
      break;
    }
    case 10: {
      il::StaticArray<T, a> r = wa.a;
      il::blas(alpha, mab.a, vb.a, beta, il::io, r);
      for (int i = 0; i < a; ++i) { T w = T(beta) * wa.a[i]; for (int k = 0; k < b; ++k) w += T(alpha) * mab.a(i, k) * vb.a[k]; EQ(r[i], w, "scaled matrix*vector"); }
      break;
    }
    case 11: {
      M2<T, a, d> s(8);
      il::StaticArray2D<T, a, d> r = s.a;
      il::blas(alpha, tadb.a, vb.a, beta, il::io, r);
      for (int i = 0; i < a; ++i) for (int j = 0; j < d; ++j) { T w = T(beta) * s.a(i, j); for (int k = 0; k < b; ++k) w += T(alpha) * tadb.a(i, j, k) * vb.a[k]; EQ(r(i, j), w, "scaled 3D array*vector"); }
      break;
    }
    case 12: {
      M3<T, a, d, 2> s(9);
      il::StaticArray3D<T, a, d, 2> r = s.a;
      il::blas(alpha, q.a, vb.a, beta, il::io, r);
      for (int i = 0; i < a; ++i) for (int j = 0; j < d; ++j) for (int l = 0; l < 2; ++l) { T w = T(beta) * s.a(i, j, l); for (int k = 0; k < b; ++k) w += T(alpha) * q.a(i, j, l, k) * vb.a[k]; EQ(r(i, j, l), w, "scaled 4D array*vector"); }
      break;
    }
  }
  // the operands are as they were
  V<T, a> va2(0), wa2(1);
  V<T, b> vb2(1);
  M2<T, a, b> mab2(2);
  for (int i = 0; i < a; ++i) { EQ(va.a[i], va2.a[i], "operand"); EQ(wa.a[i], wa2.a[i], "operand"); for (int j = 0; j < b; ++j) EQ(mab.a(i, j), mab2.a(i, j), "operand"); }
  for (int i = 0; i < b; ++i) EQ(vb.a[i], vb2.a[i], "operand");
}

// cross products over all vectors with small integer coordinates
template <typename T>
static void cross(Ctx& c) {
  int B = c.bound, w = 2 * B + 1;
  int dim = c.flip() ? 3 : 2;
  T x[3] = {0, 0, 0}, y[3] = {0, 0, 0};
  for (int i = 0; i < dim; ++i) x[i] = T(c.pick(w) - B);
  if (dim == 2) {
    il::StaticArray<T, 2> v;
    v[0] = x[0]; v[1] = x[1];
    il::StaticArray<T, 2> r = il::cross(v);
    EQ(r[0], -x[1], "cross(x) in the plane"); EQ(r[1], x[0], "cross(x) in the plane");
    return;
  }
  for (int i = 0; i < dim; ++i) y[i] = T(c.pick(w) - B);
  il::StaticArray<T, 3> u, v;
  for (int i = 0; i < 3; ++i) { u[i] = x[i]; v[i] = y[i]; }
  il::StaticArray<T, 3> r = il::cross(u, v);
  for (int i = 0; i < 3; ++i) {
    int j = (i + 1) % 3, k = (i + 2) % 3;
    EQ(r[i], x[j] * y[k] - x[k] * y[j], "cross(x, y) in space");
    EQ(u[i], x[i], "operand"); EQ(v[i], y[i], "operand");
  }
}

#define SH(T, N, a, b, d) MC_SUITE("static " N " " #a #b #d, (shape<T, a, b, d>), 1, 1);
#define ALL(T, N) SH(T, N, 1, 1, 1) SH(T, N, 1, 2, 3) SH(T, N, 2, 1, 3) SH(T, N, 2, 3, 1) SH(T, N, 3, 2, 2) SH(T, N, 2, 2, 2) SH(T, N, 3, 4, 2) SH(T, N, 4, 3, 3)
ALL(double, "double")
ALL(float, "float")
ALL(int, "int")
MC_SUITE("cross products double", cross<double>, 2, 4);
MC_SUITE("cross products int", cross<int>, 2, 4);
