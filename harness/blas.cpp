// P27: dense linear-algebra kernels against the algebraic definition, on integer
// data where every product is exact, for all shapes up to a bound, both storage
// orders, padded operands, all transpositions and scalings, and for every
// combination of mismatched sizes in checked builds.
#include <complex>
#include <vector>

#include "../lib/ilmc.h"

#include <il/linearAlgebra/dense/blas/blas.h>
#include <il/linearAlgebra/dense/blas/dot.h>

using mc::Ctx;
typedef std::complex<float> cf;
typedef std::complex<double> cd;

#ifdef NDEBUG
static const bool kChecked = false;
#else
static const bool kChecked = true;
#endif

template <typename T> struct Tr { static T mk(int re, int) { return T(re); } static T conj(T x) { return x; } static const bool cplx = false; };
template <typename R> struct Tr<std::complex<R>> {
  typedef std::complex<R> T;
  static T mk(int re, int im) { return T(R(re), R(im)); }
  static T conj(T x) { return std::conj(x); }
  static const bool cplx = true;
};

// the k-th datum of operand `which`: all different, small, signs mixed
template <typename T> static T datum(int which, int k) {
  int v = 1 + which * 17 + 3 * k;
  if ((k + which) % 3 == 1) v = -v;
  int w = 2 + which * 11 + 5 * k;
  if ((k + which) % 2 == 1) w = -w;
  return Tr<T>::mk(v % 41, w % 37);
}

// for real numbers the purely imaginary one comes down to another zero, it is left out
template <typename T> static int scales() { return Tr<T>::cplx ? 6 : 5; }
template <typename T> static T scale(int k) {
  switch (k) {
    case 0: return Tr<T>::mk(0, 0);
    case 1: return Tr<T>::mk(1, 0);
    case 2: return Tr<T>::mk(-2, 1);
    case 3: return Tr<T>::mk(3, -1);
    case 4: return Tr<T>::mk(-1, 0);
    default: return Tr<T>::mk(0, 2);
  }
}

static const char* opname(il::Dot op) { return op == il::Dot::None ? "None" : op == il::Dot::Star ? "Star" : "Transpose"; }
static const il::Dot kOps[3] = {il::Dot::None, il::Dot::Transpose, il::Dot::Star};

// A matrix or a vector inside a block of memory whose other elements must not change.
// The block ends exactly where the last element of the operand is, so that the
// address sanitizer sees any access beyond it.
template <typename T>
struct Mat {
  int n0, n1, stride;
  bool col;
  std::vector<T> before;
  T* mem;
  size_t len;
  T* p;
  int id;
  Mat(int id_, bool col_, int n0_, int n1_, int pad, bool null_if_empty = false) : n0(n0_), n1(n1_), col(col_), id(id_) {
    stride = (col ? n0 : n1) + pad;
    int lines = col ? n1 : n0, inner = col ? n0 : n1;
    size_t used = (lines == 0 || inner == 0) ? 0 : size_t(lines - 1) * stride + inner;
    len = used + 2;
    mem = new T[len];
    for (size_t k = 0; k < len; ++k) mem[k] = Tr<T>::mk(1000 + id, 77);
    p = mem + 2;
    for (int j = 0; j < n1; ++j)
      for (int i = 0; i < n0; ++i) at(i, j) = datum<T>(id, i * 7 + j * 4);
    before.assign(mem, mem + len);
    if (null_if_empty && used == 0) p = nullptr;
  }
  Mat(const Mat&) = delete;
  ~Mat() { delete[] mem; }
  size_t pos(int i, int j) const { return col ? size_t(j) * stride + i : size_t(i) * stride + j; }
  T& at(int i, int j) { return mem[2 + pos(i, j)]; }
  T old(int i, int j) const { return before[2 + pos(i, j)]; }
  T op(il::Dot o, int i, int j) const { return o == il::Dot::None ? old(i, j) : o == il::Dot::Transpose ? old(j, i) : Tr<T>::conj(old(j, i)); }
  void unchanged(Ctx& c, const char* what) const {
    for (size_t k = 0; k < len; ++k)
      if (!(mem[k] == before[k])) c.fail("%s was modified (memory position %d)", what, int(k) - 2);
  }
  // nothing but the elements changed
  void guard(Ctx& c, const char* what) const {
    std::vector<bool> el(len, false);
    for (int j = 0; j < n1; ++j) for (int i = 0; i < n0; ++i) el[2 + pos(i, j)] = true;
    for (size_t k = 0; k < len; ++k)
      if (!el[k] && !(mem[k] == before[k])) c.fail("%s: memory that is not part of the output was written (position %d)", what, int(k) - 2);
  }
  il::Array2DView<T> dview() const { return il::Array2DView<T>{p, n0, n1, stride, 0, 0}; }
  il::Array2DEdit<T> dedit() const { return il::Array2DEdit<T>{p, n0, n1, stride, 0, 0}; }
  il::Array2CView<T> cview() const { return il::Array2CView<T>{p, n0, n1, stride, 0, 0}; }
  il::Array2CEdit<T> cedit() const { return il::Array2CEdit<T>{p, n0, n1, stride, 0, 0}; }
  il::ArrayView<T> view() const { return il::ArrayView<T>{p, n0}; }
  il::ArrayEdit<T> edit() const { return il::ArrayEdit<T>{p, n0}; }
};
template <bool COL, typename T> struct VE;
template <typename T> struct VE<true, T> { static il::Array2DView<T> v(const Mat<T>& m) { return m.dview(); } static il::Array2DEdit<T> e(const Mat<T>& m) { return m.dedit(); } };
template <typename T> struct VE<false, T> { static il::Array2CView<T> v(const Mat<T>& m) { return m.cview(); } static il::Array2CEdit<T> e(const Mat<T>& m) { return m.cedit(); } };

template <typename F> static bool rejects(F f) {
  try { f(); } catch (il::AbortException&) { return true; }
  return false;
}
#define CALL(c, valid, ...)                                                                                  \
  do {                                                                                                        \
    if (valid) { __VA_ARGS__; }                                                                                      \
    else if (!rejects([&]() { __VA_ARGS__; })) c.fail("operands of mismatched sizes were accepted");              \
  } while (0)

// An extent: every one up to the bound, or (kLarge) some that are larger.
static const int kLarge = 1000;
static int ext(Ctx& c, int bound) {
  if (bound == kLarge) return c.of({1, 5, 9, 17, 33});
  if (bound == kLarge + 1) return c.of({1, 7, 8, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129});
  if (bound == kLarge + 2) return c.of({1, 6, 13});
  return c.pick(bound + 1);
}
// The other extent of a request which may be wrong.
static int other(Ctx& c, int bound, int right) { return !kChecked ? right : bound >= kLarge ? right + c.pick(2) : c.pick(bound + 1); }

// ---- level 1 ----------------------------------------------------------------
template <typename T>
static void level1(Ctx& c) {
  int form = c.pick(2);
  int nx = ext(c, c.bound);
  int ny = other(c, c.bound, nx);
  int ka = c.pick(scales<T>()), kb = form == 1 ? c.pick(scales<T>()) : 1;
  bool null_empty = (nx == 0 || ny == 0) && c.flip();
  T alpha = scale<T>(ka), beta = scale<T>(kb);
  Mat<T> x(0, true, nx, 1, 0, null_empty), y(1, true, ny, 1, 0, null_empty);
  c.log("%s with alpha #%d beta #%d, sizes %d and %d", form ? "y = alpha x + beta y" : "y = alpha x + y", ka, kb, nx, ny);
  CALL(c, nx == ny, if (form == 0) il::blas(alpha, x.view(), il::io, y.edit()); else il::blas(alpha, x.view(), beta, il::io, y.edit()));
  x.unchanged(c, "the input vector");
  if (nx != ny) { y.unchanged(c, "the output of a rejected call"); return; }
  y.guard(c, "scaled update");
  for (int i = 0; i < ny; ++i) {
    T want = alpha * x.old(i, 0) + beta * y.old(i, 0);
    if (!(y.at(i, 0) == want)) c.fail("element %d of alpha x + beta y is wrong", i);
  }
}
template <typename T>
static typename std::enable_if<!Tr<T>::cplx, T>::type dotf(int, il::Dot, il::ArrayView<T> x, il::ArrayView<T> y) { return il::dot(x, y); }
template <typename T>
static typename std::enable_if<Tr<T>::cplx, T>::type dotf(int form, il::Dot op, il::ArrayView<T> x, il::ArrayView<T> y) {
  return form == 0 ? il::dot(x, y) : form == 1 ? il::dot(x, op, y) : il::dot(x, y, op);
}
template <typename T>
static typename std::enable_if<!Tr<T>::cplx, T>::type dota(int, il::Dot, const il::Array<T>& x, const il::Array<T>& y) { return il::dot(x, y); }
template <typename T>
static typename std::enable_if<Tr<T>::cplx, T>::type dota(int form, il::Dot op, const il::Array<T>& x, const il::Array<T>& y) {
  return form == 0 ? il::dot(x, y) : form == 1 ? il::dot(x, op, y) : il::dot(x, y, op);
}
template <typename T>
static void scalar_product(Ctx& c) {
  int form = Tr<T>::cplx ? c.pick(3) : 0;
  il::Dot op = form ? kOps[c.pick(3)] : il::Dot::None;
  int nx = ext(c, c.bound);
  int ny = other(c, c.bound, nx);
  bool arrays = c.flip();
  Mat<T> x(0, true, nx, 1, 0), y(1, true, ny, 1, 0);
  c.log("scalar product form %d op %s sizes %d %d %s", form, opname(op), nx, ny, arrays ? "il::Array" : "views");
  T got = T(0);
  if (arrays) {
    il::Array<T> ax{nx}, ay{ny};
    for (int i = 0; i < nx; ++i) ax[i] = x.old(i, 0);
    for (int i = 0; i < ny; ++i) ay[i] = y.old(i, 0);
    CALL(c, nx == ny, got = dota<T>(form, op, ax, ay));
    for (int i = 0; i < nx; ++i) if (!(ax[i] == x.old(i, 0))) c.fail("an operand of a scalar product was modified");
    for (int i = 0; i < ny; ++i) if (!(ay[i] == y.old(i, 0))) c.fail("an operand of a scalar product was modified");
  } else {
    CALL(c, nx == ny, got = dotf<T>(form, op, x.view(), y.view()));
  }
  x.unchanged(c, "an operand of a scalar product");
  y.unchanged(c, "an operand of a scalar product");
  if (nx != ny) return;
  T want = T(0);
  for (int i = 0; i < nx; ++i) {
    T a = x.old(i, 0), b = y.old(i, 0);
    if (op == il::Dot::Star) { if (form == 1) a = Tr<T>::conj(a); else b = Tr<T>::conj(b); }
    want += a * b;
  }
  if (!(got == want)) c.fail("the scalar product (form %d, %s) is wrong", form, opname(op));
}

// ---- matrix update ----------------------------------------------------------
template <typename T>
static void matrix_update(Ctx& c) {
  int B = c.bound;
  int x0 = ext(c, B), x1 = ext(c, B);
  int y0 = other(c, B, x0), y1 = other(c, B, x1);
  bool ok = x0 == y0 && x1 == y1;
  int px = ok ? c.pick(2) : 0, py = ok ? c.pick(2) : 0;
  int ka = c.pick(scales<T>()), kb = c.pick(scales<T>());
  T alpha = scale<T>(ka), beta = scale<T>(kb);
  Mat<T> x(0, true, x0, x1, px), y(1, true, y0, y1, py);
  c.log("Y(%dx%d, padding %d) = alpha #%d X(%dx%d, padding %d) + beta #%d Y", y0, y1, py, ka, x0, x1, px, kb);
  CALL(c, ok, il::blas(alpha, x.dview(), beta, il::io, y.dedit()));
  x.unchanged(c, "the input matrix");
  if (!ok) { y.unchanged(c, "the output of a rejected call"); return; }
  y.guard(c, "matrix update");
  for (int j = 0; j < y1; ++j) for (int i = 0; i < y0; ++i)
    if (!(y.at(i, j) == alpha * x.old(i, j) + beta * y.old(i, j))) c.fail("element (%d, %d) of alpha X + beta Y is wrong", i, j);
}

// ---- matrix times vector ----------------------------------------------------
template <typename T, bool COL>
static void matvec(Ctx& c) {
  int B = c.bound;
  int ko = c.pick(4);  // 3: the overload without an operation
  il::Dot op = ko == 3 ? il::Dot::None : kOps[ko];
  int a0 = ext(c, B), a1 = ext(c, B);
  int rows = op == il::Dot::None ? a0 : a1, cols = op == il::Dot::None ? a1 : a0;
  int nx = other(c, B, cols), ny = other(c, B, rows);
  bool ok = nx == cols && ny == rows;
  int pad = ok ? c.pick(2) : 0;
  int ka = ok ? c.pick(scales<T>()) : 1, kb = ok ? c.pick(scales<T>()) : 1;
  bool null_empty = (a0 == 0 || a1 == 0 || nx == 0 || ny == 0) && c.flip();
  T alpha = scale<T>(ka), beta = scale<T>(kb);
  Mat<T> A(0, COL, a0, a1, pad, null_empty), x(1, true, nx, 1, 0, null_empty), y(2, true, ny, 1, 0, null_empty);
  c.log("y(%d) = alpha #%d A(%dx%d, padding %d)^%s x(%d) + beta #%d y%s", ny, ka, a0, a1, pad, opname(op), nx, kb, null_empty ? ", null pointers for empty operands" : "");
  CALL(c, ok, if (ko == 3) il::blas(alpha, VE<COL, T>::v(A), x.view(), beta, il::io, y.edit()); else il::blas(alpha, VE<COL, T>::v(A), op, x.view(), beta, il::io, y.edit()));
  A.unchanged(c, "the matrix");
  x.unchanged(c, "the input vector");
  if (!ok) { y.unchanged(c, "the output of a rejected call"); return; }
  y.guard(c, "product of a matrix and a vector");
  for (int i = 0; i < ny; ++i) {
    T want = T(0);
    for (int k = 0; k < nx; ++k) want += A.op(op, i, k) * x.old(k, 0);
    want = alpha * want + beta * y.old(i, 0);
    if (!(y.at(i, 0) == want)) c.fail("element %d of alpha op(A) x + beta y is wrong (op %s)", i, opname(op));
  }
}

// ---- matrix times matrix ----------------------------------------------------
template <typename T, bool COL>
static void matmat_go(Ctx& c, int form, il::Dot opa, il::Dot opb, int a0, int a1, int b0, int b1, int c0, int c1, int pads, int ka, int kb, bool null_empty) {
  int m = opa == il::Dot::None ? a0 : a1, k = opa == il::Dot::None ? a1 : a0;
  int k2 = opb == il::Dot::None ? b0 : b1, n = opb == il::Dot::None ? b1 : b0;
  bool ok = k == k2 && c0 == m && c1 == n;
  T alpha = scale<T>(ka), beta = scale<T>(kb);
  Mat<T> A(0, COL, a0, a1, pads & 1, null_empty), B(1, COL, b0, b1, (pads >> 1) & 1, null_empty), C(2, COL, c0, c1, (pads >> 2) & 1, null_empty);
  c.log("C(%dx%d) = alpha #%d A(%dx%d)^%s B(%dx%d)^%s + beta #%d C, paddings %d%s", c0, c1, ka, a0, a1, opname(opa), b0, b1, opname(opb), kb, pads, null_empty ? ", null pointers for empty operands" : "");
  typedef VE<COL, T> V;
  CALL(c, ok, switch (form) {
    case 0: il::blas(alpha, V::v(A), V::v(B), beta, il::io, V::e(C)); break;
    case 1: il::blas(alpha, V::v(A), opa, V::v(B), beta, il::io, V::e(C)); break;
    case 2: il::blas(alpha, V::v(A), V::v(B), opb, beta, il::io, V::e(C)); break;
    default: il::blas(alpha, V::v(A), opa, V::v(B), opb, beta, il::io, V::e(C));
  });
  A.unchanged(c, "the left matrix");
  B.unchanged(c, "the right matrix");
  if (!ok) { C.unchanged(c, "the output of a rejected call"); return; }
  C.guard(c, "product of two matrices");
  for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) {
    T want = T(0);
    for (int l = 0; l < k; ++l) want += A.op(opa, i, l) * B.op(opb, l, j);
    want = alpha * want + beta * C.old(i, j);
    if (!(C.at(i, j) == want)) c.fail("element (%d, %d) of alpha op(A) op(B) + beta C is wrong (ops %s, %s)", i, j, opname(opa), opname(opb));
  }
}
static void ops(Ctx& c, int& form, il::Dot& opa, il::Dot& opb) {
  form = c.pick(4);
  opa = form & 1 ? kOps[c.pick(3)] : il::Dot::None;
  opb = form & 2 ? kOps[c.pick(3)] : il::Dot::None;
}
template <typename T, bool COL>
static void matmat(Ctx& c) {
  int form; il::Dot opa, opb;
  ops(c, form, opa, opb);
  int B = c.bound;
  int m = ext(c, B), k = ext(c, B), n = ext(c, B);
  int pads = c.pick(8), ka = c.pick(scales<T>()), kb = c.pick(scales<T>());
  bool null_empty = (m == 0 || k == 0 || n == 0) && c.flip();
  bool ta = opa != il::Dot::None, tb = opb != il::Dot::None;
  matmat_go<T, COL>(c, form, opa, opb, ta ? k : m, ta ? m : k, tb ? n : k, tb ? k : n, m, n, pads, ka, kb, null_empty);
}
template <typename T, bool COL>
static void matmat_sizes(Ctx& c) {
  if (!kChecked) return;
  int form; il::Dot opa, opb;
  ops(c, form, opa, opb);
  int B = c.bound;
  int d[6];
  for (int i = 0; i < 6; ++i) d[i] = c.pick(B + 1);
  matmat_go<T, COL>(c, form, opa, opb, d[0], d[1], d[2], d[3], d[4], d[5], 0, 1, 1, false);
}

// ---- products that allocate their result ------------------------------------
template <typename M, typename T>
static M make(int id, int n0, int n1, int cap) {
  M A{n0, n1};
  if (cap) A.Reserve(n0 + cap, n1 + cap);
  for (int j = 0; j < n1; ++j) for (int i = 0; i < n0; ++i) A(i, j) = datum<T>(id, i * 7 + j * 4);
  return A;
}
template <typename M, typename T>
static void check_same(Ctx& c, const M& A, int id, int n0, int n1) {
  if (A.size(0) != n0 || A.size(1) != n1) c.fail("an operand changed its shape");
  for (int j = 0; j < n1; ++j) for (int i = 0; i < n0; ++i)
    if (!(A(i, j) == datum<T>(id, i * 7 + j * 4))) c.fail("an operand was modified");
}
template <typename M>
static void dot_vec(Ctx& c) {
  int B = c.bound;
  int n0 = ext(c, B), n1 = ext(c, B), nx = other(c, B, n1), cap = c.pick(3);
  M A = make<M, double>(0, n0, n1, cap);
  il::Array<double> x{nx};
  for (int i = 0; i < nx; ++i) x[i] = datum<double>(1, 7 * i);
  c.log("dot(A(%dx%d, extra capacity %d), x(%d))", n0, n1, cap, nx);
  il::Array<double> y;
  CALL(c, nx == n1, y = il::dot(A, x));
  check_same<M, double>(c, A, 0, n0, n1);
  if (nx != n1) return;
  if (y.size() != n0) c.fail("the product has %d elements instead of %d", int(y.size()), n0);
  for (int i = 0; i < n0; ++i) {
    double want = 0;
    for (int k = 0; k < n1; ++k) want += A(i, k) * x[k];
    if (!(y[i] == want)) c.fail("element %d of A x is %g instead of %g", i, y[i], want);
  }
}
template <typename M, typename T>
static void dot_mat(Ctx& c) {
  int B = c.bound;
  int m = ext(c, B), k = ext(c, B), k2 = other(c, B, k), n = ext(c, B), ca = c.pick(3), cb = c.pick(3);
  M A = make<M, T>(0, m, k, ca), X = make<M, T>(1, k2, n, cb);
  c.log("dot(A(%dx%d, extra capacity %d), B(%dx%d, extra capacity %d))", m, k, ca, k2, n, cb);
  M C;
  CALL(c, k == k2, C = il::dot(A, X));
  check_same<M, T>(c, A, 0, m, k);
  check_same<M, T>(c, X, 1, k2, n);
  if (k != k2) return;
  if (C.size(0) != m || C.size(1) != n) c.fail("the product is %dx%d instead of %dx%d", int(C.size(0)), int(C.size(1)), m, n);
  for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) {
    T want = 0;
    for (int l = 0; l < k; ++l) want += A(i, l) * X(l, j);
    if (!(C(i, j) == want)) c.fail("element (%d, %d) of A B is %g instead of %g", i, j, double(C(i, j)), double(want));
  }
}

#if PART == 0
#define EACH(N, T)                                              \
  MC_SUITE("vector update " N, level1<T>, 5, 9);                 \
  MC_SUITE("scalar product " N, scalar_product<T>, 9, 20);       \
  MC_SUITE("matrix*vector by columns " N, (matvec<T, true>), 4, 6); \
  MC_SUITE("matrix*vector by rows " N, (matvec<T, false>), 4, 6);                \
  MC_SUITE("large vector update " N, level1<T>, kLarge + 1, kLarge + 1);           \
  MC_SUITE("large scalar product " N, scalar_product<T>, kLarge + 1, kLarge + 1); \
  MC_SUITE("large matrix*vector by columns " N, (matvec<T, true>), kLarge, kLarge + 1, true, 3); \
  MC_SUITE("large matrix*vector by rows " N, (matvec<T, false>), kLarge, kLarge + 1, true, 3);
EACH("float", float)
EACH("double", double)
EACH("complex<float>", cf)
EACH("complex<double>", cd)
MC_SUITE("matrix update double", matrix_update<double>, 3, 4);
MC_SUITE("matrix update complex<double>", matrix_update<cd>, 3, 4);
MC_SUITE("il::dot Array2D*Array", dot_vec<il::Array2D<double>>, 4, 7);
MC_SUITE("il::dot Array2C*Array", dot_vec<il::Array2C<double>>, 4, 7);
MC_SUITE("il::dot Array2D*Array2D double", (dot_mat<il::Array2D<double>, double>), 3, 4);
MC_SUITE("il::dot Array2D*Array2D float", (dot_mat<il::Array2D<float>, float>), 3, 4);
MC_SUITE("il::dot Array2C*Array2C double", (dot_mat<il::Array2C<double>, double>), 3, 4);
MC_SUITE("large matrix update double", matrix_update<double>, kLarge, kLarge);
MC_SUITE("large matrix update complex<double>", matrix_update<cd>, kLarge, kLarge);
MC_SUITE("large il::dot Array2D*Array", dot_vec<il::Array2D<double>>, kLarge, kLarge + 1);
MC_SUITE("large il::dot Array2C*Array", dot_vec<il::Array2C<double>>, kLarge, kLarge + 1);
MC_SUITE("large il::dot Array2D*Array2D double", (dot_mat<il::Array2D<double>, double>), kLarge + 2, kLarge);
MC_SUITE("large il::dot Array2C*Array2C double", (dot_mat<il::Array2C<double>, double>), kLarge + 2, kLarge);
#elif PART == 1
#define EACH(N, T)                                                     \
  MC_SUITE("matrix*matrix by columns " N, (matmat<T, true>), 3, 4);     \
  MC_SUITE("matrix*matrix by rows " N, (matmat<T, false>), 3, 4);       \
  MC_SUITE("sizes of matrix*matrix by columns " N, (matmat_sizes<T, true>), 2, 3); \
  MC_SUITE("sizes of matrix*matrix by rows " N, (matmat_sizes<T, false>), 2, 3); \
  MC_SUITE("large matrix*matrix by columns " N, (matmat<T, true>), kLarge + 2, kLarge, true, 4);     \
  MC_SUITE("large matrix*matrix by rows " N, (matmat<T, false>), kLarge + 2, kLarge, true, 4);
EACH("float", float)
EACH("double", double)
EACH("complex<float>", cf)
EACH("complex<double>", cd)
#endif
