// P17: checked integer arithmetic against 128-bit arithmetic.
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array3D.h>
#include <il/core/math/safe_arithmetic.h>
#include <algorithm>
#include <limits>
#include <vector>
#include "ilmc.h"
using il::int_t;
using mc::Ctx;
typedef __int128 W;

template <typename T> static bool fits(W x) { return x >= (W)std::numeric_limits<T>::min() && x <= (W)std::numeric_limits<T>::max(); }
// the exact product may need more than 128 bits for unsigned 64-bit factors: they are at most 2^128 - 2^65 + 1, use unsigned
template <typename T> static bool product(T a, T b, W& r) {
  if (std::is_unsigned<T>::value) { const unsigned __int128 p = (unsigned __int128)a * b; r = (W)(p & 0xFFFFFFFFFFFFFFFFull); return p <= std::numeric_limits<T>::max(); }
  r = (W)a * (W)b;
  return fits<T>(r);
}
template <typename T>
static const std::vector<T>& values(int near) {
  static std::vector<T> v;
  if (v.empty()) {
    const W lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    auto add = [&](W x, int w) { for (int d = -w; d <= w; ++d) if (x + d >= lo && x + d <= hi) v.push_back((T)(x + d)); };
    add(0, 3 * near); add(lo, 2 * near); add(hi, 2 * near);
    for (int k = 3; k < 64; ++k) { add((W)1 << k, k % 8 == 0 || k > 28 ? near : 1); add(-((W)1 << k), k % 8 == 0 || k > 28 ? near : 1); }
    for (int d : {3, 5, 7, 10, 100, 1000, 12345, 65535, 65537, 46340, 46341}) { add(hi / d, near); add(lo / d, near); }
    for (W r : {(W)46340, (W)65535, (W)3037000499ll, (W)4294967295ll}) { add(r, near); add(-r, near); }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
  }
  return v;
}
#define OUTCOME(name, got, err, ok, want, a, b)                                                                                                  \
  do {                                                                                                                                           \
    MC_CHECK(c, (err) == !(ok), "%s(%lld, %lld): error is %d although the exact result is %srepresentable", name, (long long)(a), (long long)(b), (int)(err), (ok) ? "" : "not "); \
    if (ok) MC_CHECK(c, (W)(got) == (W)(want), "%s(%lld, %lld) is %lld", name, (long long)(a), (long long)(b), (long long)(got));                   \
  } while (0)

template <typename T> struct Signed;
template <typename T>
static void pair_signed(Ctx& c, T a, T b) {
  for (int init = 0; init < 2; ++init) {
    bool e = init; W r;
    T x = il::safeSum(a, b, il::io, e); r = (W)a + b; OUTCOME("safeSum", x, e, fits<T>(r), r, a, b);
    e = init; x = il::safeDifference(a, b, il::io, e); r = (W)a - b; OUTCOME("safeDifference", x, e, fits<T>(r), r, a, b);
    e = init; x = il::safeProduct(a, b, il::io, e); const bool ok = product(a, b, r); OUTCOME("safeProduct", x, e, ok, r, a, b);
    e = init; x = il::safeDivision(a, b, il::io, e); const bool div = b != 0 && fits<T>((W)a / (W)b); OUTCOME("safeDivision", x, e, div, b ? (W)a / (W)b : 0, a, b);
    if (a >= 0 && b > 0) { e = init; x = il::safeUpperRound(a, b, il::io, e); r = ((W)a + b - 1) / b * b; OUTCOME("safeUpperRound", x, e, fits<T>(r), r, a, b); }
  }
}
template <typename T>
static void pair_unsigned(Ctx& c, T a, T b) {
  for (int init = 0; init < 2; ++init) {
    bool e = init; W r;
    T x = il::safeSum(a, b, il::io, e); r = (W)a + b; OUTCOME("safeSum", x, e, fits<T>(r), r, a, b);
    e = init; x = il::safeProduct(a, b, il::io, e); const bool ok = product(a, b, r); OUTCOME("safeProduct", x, e, ok, r, a, b);
  }
}
template <typename S, typename U>
static void convert(Ctx& c, S s, U u) {
  bool e = false;
  U x = il::safeConvert<U, S>(s, il::io, e); OUTCOME("safeConvert", x, e, fits<U>((W)s), s, s, 0);
  e = true; x = il::safeConvert<U, S>(s, il::io, e); OUTCOME("safeConvert", x, e, fits<U>((W)s), s, s, 0);
  S y = il::safeConvert<S, U>(u, il::io, e); OUTCOME("safeConvert", y, e, fits<S>((W)u), u, u, 0);
  e = true; y = il::safeConvert<S, U>(u, il::io, e); OUTCOME("safeConvert", y, e, fits<S>((W)u), u, u, 0);
}
template <typename S, typename U>
static void pairs(Ctx& c) {
  const int near = c.bound;
  const auto& v = values<S>(near);
  const auto& w = values<U>(near);
  const int i = c.pick((int)std::max(v.size(), w.size()));
  c.log("first value %lld / %llu", i < (int)v.size() ? (long long)v[i] : 0, i < (int)w.size() ? (unsigned long long)w[i] : 0);
  if (i < (int)v.size()) {
    const S a = v[i];
    for (S b : v) pair_signed<S>(c, a, b);
    // divisors of the limits and their neighbours
    for (W lim : {(W)std::numeric_limits<S>::max(), (W)std::numeric_limits<S>::min()})
      if (a != 0) for (W d = -3; d <= 3; ++d) { const W q = lim / a + d; if (fits<S>(q)) { pair_signed<S>(c, a, (S)q); pair_signed<S>(c, (S)q, a); } const W t = lim - a + d; if (fits<S>(t)) pair_signed<S>(c, a, (S)t); const W s = (W)a - lim + d; if (fits<S>(s)) pair_signed<S>(c, a, (S)s); }
  }
  if (i < (int)w.size()) {
    const U a = w[i];
    for (U b : w) pair_unsigned<U>(c, a, b);
    const W lim = std::numeric_limits<U>::max();
    for (W d = -3; d <= 3; ++d) { if (a != 0) { const W q = lim / a + d; if (fits<U>(q)) { pair_unsigned<U>(c, a, (U)q); pair_unsigned<U>(c, (U)q, a); } } const W t = lim - a + d; if (fits<U>(t)) pair_unsigned<U>(c, a, (U)t); }
  }
  convert<S, U>(c, i < (int)v.size() ? v[i] : 0, i < (int)w.size() ? w[i] : 0);
}
MC_SUITE("int pairs", (pairs<int, unsigned>), 4, 20, true, 1);
MC_SUITE("long pairs", (pairs<long, unsigned long>), 4, 20, true, 1);
MC_SUITE("long long pairs", (pairs<long long, unsigned long long>), 4, 20, true, 1);

// every pair of a block of int around zero
static void dense(Ctx& c) {
  const int a = c.pick(2 * c.bound + 1) - c.bound;
  for (int b = -c.bound; b <= c.bound; ++b) { pair_signed<int>(c, a, b); pair_signed<long>(c, a, b); pair_signed<long long>(c, a, b); }
}
MC_SUITE("dense block", dense, 200, 1000, true, 1);

// products of several factors
template <typename T>
static void products(Ctx& c) {
  const W hi = std::numeric_limits<T>::max(), lo = std::numeric_limits<T>::min();
  std::vector<T> f = {0, 1, -1, 2, -2, 3, -3};
  const int bits = sizeof(T) * 8;
  for (int k : {bits / 4 - 1, bits / 4, bits / 3, bits / 2 - 1, bits / 2, bits - 2}) { const W p = (W)1 << k; for (W d : {(W)-1, (W)0, (W)1}) { f.push_back((T)(p + d)); f.push_back((T)(-p + d)); } }
  for (W x : {hi, lo, lo + 1, hi - 1, hi / 2, hi / 3, lo / 3}) f.push_back((T)x);
  if (c.bound > 1) for (W x : {(W)5, (W)-7, (W)100, hi / 5, hi / 7, lo / 5, (W)12345, (W)-54321}) f.push_back((T)x);
  const T a = f[c.pick((int)f.size())], b = f[c.pick((int)f.size())];
  // every partial product, with saturation
  auto mul = [&](W x, W y) -> W { const __float128 q = (__float128)x * (__float128)y; if (q > 1e30 || q < -1e30) return (W)1 << 110; return x * y; };
  auto in = [&](W x) { return x >= lo && x <= hi; };
  for (T k : f) {
    const W ab = (W)a * b, ac = (W)a * k, bc = (W)b * k, abc = mul(ab, k);
    bool e = false;
    const T r = il::safeProduct(a, b, k, il::io, e);
    MC_CHECK(c, e || (W)r == abc, "safeProduct(%lld, %lld, %lld) is %lld without an error", (long long)a, (long long)b, (long long)k, (long long)r);
    if (in(ab) && in(ac) && in(bc) && in(abc)) MC_CHECK(c, !e, "safeProduct(%lld, %lld, %lld) reports an error", (long long)a, (long long)b, (long long)k);
    for (T d : f) {
      const W cd = (W)k * d, abcd = mul(abc, d);
      bool e4 = true;
      const T r4 = il::safeProduct(a, b, k, d, il::io, e4);
      bool exact = (W)r4 == abcd;
      if (!e4 && !exact && (a == 0 || b == 0 || k == 0 || d == 0)) exact = r4 == 0;
      MC_CHECK(c, e4 || exact, "safeProduct(%lld, %lld, %lld, %lld) is %lld without an error", (long long)a, (long long)b, (long long)k, (long long)d, (long long)r4);
      if (in(ab) && in(ac) && in(bc) && in(abc) && in(cd) && in((W)a * d) && in((W)b * d) && in(mul(ab, d)) && in(mul(ac, d)) && in(mul(bc, d)) && in(abcd))
        MC_CHECK(c, !e4, "safeProduct(%lld, %lld, %lld, %lld) reports an error", (long long)a, (long long)b, (long long)k, (long long)d);
    }
  }
}
MC_SUITE("int products", products<int>, 1, 2);
MC_SUITE("long products", products<long>, 1, 2);
MC_SUITE("long long products", products<long long>, 1, 2);

static void doubling(Ctx& c) {
  const auto& v = values<long>(8);
  const long a = v[c.pick((int)v.size())];
  if (a < 0) return;
  bool e = c.flip();
  const long x = il::safeProduct2Positive(a, il::io, e);
  OUTCOME("safeProduct2Positive", x, e, fits<long>((W)2 * a), (W)2 * a, a, 2);
}
MC_SUITE("doubling", doubling, 1, 1);

// requests that no memory can hold
struct Odd { char x[24]; };
template <typename F> static bool stops(F f) { return mc::aborts([&] { try { f(); } catch (il::AbortException&) { abort(); } }); }
static void oversized(Ctx& c) {
  const int_t huge[] = {(int_t)1 << 62, ((int_t)1 << 62) + 1, ((int_t)1 << 61) - 1, (int_t)1 << 61, ((int_t)1 << 61) + 3, (int_t)1 << 60, ((int_t)1 << 59) + 1, std::numeric_limits<int_t>::max(), std::numeric_limits<int_t>::max() - 7, ((int_t)1 << 60) - 1, (int_t)384307168202282326, (int_t)768614336404564651};
  const int_t n = huge[c.pick(12)];
  c.log("%ld elements", (long)n);
  switch (c.pick(10)) {
    case 0: MC_CHECK(c, stops([&] { il::Array<double> v{n}; }), "an array of %ld elements of 8 bytes was created", (long)n); break;
    case 1: MC_CHECK(c, stops([&] { il::Array<Odd> v{n}; }), "an array of %ld elements of 24 bytes was created", (long)n); break;
    case 2: { il::Array<double> v{3, 1.0}; MC_CHECK(c, stops([&] { v.Reserve(n); }), "Reserve(%ld) succeeded", (long)n); MC_CHECK(c, v.size() == 3 && v[2] == 1.0, "the array changed"); break; }
    case 3: { il::Array<double> v{3, 1.0}; MC_CHECK(c, stops([&] { v.Resize(n); }), "Resize(%ld) succeeded", (long)n); break; }
    case 4: MC_CHECK(c, stops([&] { il::Array<double> v{n, il::align, 64}; }), "an aligned array of %ld elements of 8 bytes was created", (long)n); break;
    case 5: MC_CHECK(c, stops([&] { il::Array2D<double> v{n, 3}; }) && stops([&] { il::Array2D<double> v{3, n}; }) && stops([&] { il::Array2D<double> v{n, n}; }), "a matrix with %ld rows or columns was created", (long)n); break;
    case 6: MC_CHECK(c, stops([&] { il::Array2C<double> v{n, 3}; }) && stops([&] { il::Array2C<double> v{3, n}; }) && stops([&] { il::Array2C<double> v{n, n}; }), "a matrix with %ld rows or columns was created", (long)n); break;
    case 7: MC_CHECK(c, stops([&] { il::Array2D<double> v{(int_t)1 << 31, (int_t)1 << 31}; }) && stops([&] { il::Array2D<double> v{(int_t)1 << 32, (int_t)1 << 32}; }) && stops([&] { il::Array2D<double> v{((int_t)1 << 32) + 1, ((int_t)1 << 32)}; }), "a matrix with 2^62 elements or more was created"); break;
    case 8: MC_CHECK(c, stops([&] { il::Array3D<double> v{(int_t)1 << 21, (int_t)1 << 21, (int_t)1 << 21}; }) && stops([&] { il::Array3D<double> v{(int_t)1 << 22, (int_t)1 << 21, (int_t)1 << 21}; }) && stops([&] { il::Array3D<double> v{n, 2, 2}; }) && stops([&] { il::Array3D<double> v{2, n, 4}; }) && stops([&] { il::Array3D<double> v{2, 2, n}; }), "a three-dimensional array that cannot be held was created"); break;
    case 9: MC_CHECK(c, stops([&] { il::Array2D<double> v{n, 3, il::align, 64}; }) && stops([&] { il::Array2D<double> v{3, n, il::align, 64}; }), "an aligned matrix with %ld rows or columns was created", (long)n); break;
  }
}
MC_SUITE("requests beyond the memory", oversized, 1, 1);
