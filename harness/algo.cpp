// P18: algorithms on arrays against their definition.
#include <il/algorithmArray.h>
#include <il/algorithmArray2D.h>
#include <il/math.h>
#include <algorithm>
#include <limits>
#include <vector>
#include "ilmc.h"
using il::int_t;
using mc::Ctx;
using std::vector;

template <typename T> static T val(int k);
template <> double val<double>(int k) { static const double v[] = {0.25, -1.5, 0.5, -0.25, 3.75, -2.0, 1e300}; return v[k]; }
template <> int val<int>(int k) { static const int v[] = {0, -5, 3, -1, 2147483647, -2147483647, 7}; return v[k]; }
template <> int_t val<int_t>(int k) { static const int_t v[] = {0, -((int_t)1 << 60), 3, -1, ((int_t)1 << 53) + 1, -(((int_t)1 << 62) + 1), 5000000000}; return v[k]; }
template <typename T> static T ab(T x) { return x < 0 ? -x : x; }

template <typename T>
static void sorted_ok(Ctx& c, vector<T> want, const il::Array<T>& got, const char* n) {
  std::sort(want.begin(), want.end());
  MC_CHECK(c, got.size() == (int_t)want.size(), "%s: size %ld, expected %zu", n, (long)got.size(), want.size());
  for (int_t i = 0; i < got.size(); ++i) MC_CHECK(c, got[i] == want[i], "%s: the element %ld is not the one of the ascending order", n, (long)i);
}
template <typename T> static il::Array<T> arr(const vector<T>& v) {
  // with a capacity beyond the size, where other values were
  il::Array<T> a{(int_t)v.size() + 3};
  for (int_t i = 0; i < a.size(); ++i) a[i] = val<T>(i % 2 ? 4 : 5);
  a.Resize((int_t)v.size());
  for (size_t i = 0; i < v.size(); ++i) a[(int_t)i] = v[i];
  return a;
}

template <typename T>
static void sorts(Ctx& c, const vector<T>& v) {
  il::Array<T> a = arr(v);
  const il::Array<T> k = a;
  il::sort(il::io, a);
  sorted_ok(c, v, a, "sort in place");
  il::Array<T> b = arr(v);
  sorted_ok(c, v, il::sort(b), "sort of an array");
  sorted_ok(c, v, il::sort(k), "sort of a constant array");
  for (size_t i = 0; i < v.size(); ++i) MC_CHECK(c, b[i] == v[i] && k[i] == v[i], "sort changed its argument");
}
template <typename T>
static void searches(Ctx& c, vector<T> v) {
  std::sort(v.begin(), v.end());
  const il::Array<T> a = arr(v);
  for (int k = 0; k < 7; ++k) {
    const T x = val<T>(k);
    const int_t i = il::binarySearch(a, x);
    const bool present = std::binary_search(v.begin(), v.end(), x);
    MC_CHECK(c, present ? i >= 0 && i < a.size() && a[i] == x : i < 0, "binarySearch returned %ld for a value that is %s", (long)i, present ? "present" : "absent");
  }
}
template <typename T>
static void extrema(Ctx& c, const vector<T>& v) {
  const il::Array<T> a = arr(v);
  const int n = (int)v.size();
  for (int b = 0; b < n; ++b)
    for (int e = b + 1; e <= n; ++e) {
      const il::Range r{b, e};
      int lo = b, hi = b, big = b;
      for (int i = b; i < e; ++i) { if (v[i] < v[lo]) lo = i; if (v[i] > v[hi]) hi = i; if (ab(v[i]) > ab(v[big])) big = i; }
      MC_CHECK(c, il::min(a, r) == v[lo], "min over [%d, %d) is wrong", b, e);
      MC_CHECK(c, il::max(a, r) == v[hi], "max over [%d, %d) is wrong", b, e);
      MC_CHECK(c, il::maxAbs(a, r) == ab(v[big]), "maxAbs over [%d, %d) is wrong", b, e);
      MC_CHECK(c, il::indexMin(a, r) == lo && il::indexMax(a, r) == hi && il::indexMaxAbs(a, r) == big, "indexMin, indexMax or indexMaxAbs over [%d, %d) is not the first position of the extremum", b, e);
      const auto m = il::minMax(a, r);
      MC_CHECK(c, m.min == v[lo] && m.max == v[hi], "minMax over [%d, %d) is wrong", b, e);
      if (b == 0 && e == n) {
        MC_CHECK(c, il::min(a) == v[lo] && il::max(a) == v[hi] && il::maxAbs(a) == ab(v[big]), "min, max or maxAbs is wrong");
        MC_CHECK(c, il::indexMin(a) == lo && il::indexMax(a) == hi && il::indexMaxAbs(a) == big, "indexMin, indexMax or indexMaxAbs is wrong");
        const auto w = il::minMax(a);
        MC_CHECK(c, w.min == v[lo] && w.max == v[hi], "minMax is wrong");
      }
    }
}
template <typename T>
static void small(Ctx& c) {
  const int n = c.pick(c.bound + 1);
  vector<T> v;
  for (int i = 0; i < n; ++i) v.push_back(val<T>(c.pick(n <= 5 ? 6 : 4)));
  sorts(c, v);
  searches(c, v);
  extrema(c, v);
}
MC_SUITE("small arrays of double", small<double>, 7, 9);
MC_SUITE("small arrays of int", small<int>, 7, 9);
MC_SUITE("small arrays of integer", small<int_t>, 6, 8);

// beyond the insertion sort: every 0/1 array of length 16 to 18
static void binary(Ctx& c) {
  const int n = 15 + c.pick(c.bound);
  const int high = c.pick(1 << (n - 8));
  for (int low = 0; low < 256; ++low) {
    const int bits = high << 8 | low;
    il::Array<int> a{n};
    int ones = 0;
    for (int i = 0; i < n; ++i) { a[i] = bits >> i & 1; ones += a[i]; }
    il::sort(il::io, a);
    for (int i = 0; i < n; ++i) MC_CHECK(c, a[i] == (i >= n - ones), "sort of the bits %x of length %d is wrong", bits, n);
  }
}
MC_SUITE("every 0/1 array", binary, 5, 9, true, 2);

// every arrangement of the pivots and of a few positions on a base pattern
static void patterns(Ctx& c) {
  const int n = c.of({15, 16, 17, 31, 33, 64});
  const int base = c.pick(5);
  vector<int> v(n);
  for (int i = 0; i < n; ++i) v[i] = base == 0 ? i : base == 1 ? n - i : base == 2 ? 7 : base == 3 ? (i * 7) % 11 : (i < n / 2 ? i : n - i);
  const int at[] = {0, n - 1, n / 2, n / 4, n / 2 - 1, 1};
  for (int k = 0; k < c.bound; ++k) v[at[k]] = c.of({-1, 0, 7, n / 2, n + 1});
  sorts(c, v);
  vector<double> w(v.begin(), v.end());
  for (double& x : w) x = x / 4;
  sorts(c, w);
}
MC_SUITE("pivots", patterns, 4, 6);

static void large(Ctx& c) {
  const int n = c.bound * 1000;
  const int kind = c.pick(6);
  vector<int> v(n);
  for (int i = 0; i < n; ++i) v[i] = kind == 0 ? 5 : kind == 1 ? i : kind == 2 ? n - i : kind == 3 ? i & 1 : kind == 4 ? i / 1000 : (int)((i * 2654435761u) >> 8) % 1000;
  il::Array<int> a = arr(v);
  il::sort(il::io, a);
  sorted_ok(c, v, a, "sort of a large array");
  for (int i = 0; i < n; i += 997) { const int_t p = il::binarySearch(a, v[i]); MC_CHECK(c, p >= 0 && a[p] == v[i], "binarySearch misses a present value"); }
}
MC_SUITE("large arrays", large, 300, 1000, true, 1);

template <int n>
static void stat(Ctx& c) {
  il::StaticArray<double, n> a;
  vector<double> v;
  for (int i = 0; i < n; ++i) { a[i] = val<double>(c.pick(6)); v.push_back(a[i]); }
  il::sort(il::io, a);
  std::sort(v.begin(), v.end());
  for (int i = 0; i < n; ++i) MC_CHECK(c, a[i] == v[i], "sort of a static array is wrong");
}
MC_SUITE("static arrays of 1", stat<1>, 1, 1);
MC_SUITE("static arrays of 2", stat<2>, 1, 1);
MC_SUITE("static arrays of 5", stat<5>, 1, 1);

// exact sums: the values are multiples of 1/8 next to an offset
static void moments_of(Ctx& c, const vector<double>& v, double offset) {
  const int n = (int)v.size();
  vector<double> w = v;
  for (double& x : w) x += offset;
  const il::Array<double> a = arr(w);
  long double s = 0, q = 0;
  for (double x : v) s += x;
  const long double m0 = s / n;
  for (double x : v) q += (x - m0) * (x - m0);
  const double m = (double)(m0 + offset);
  auto near = [](double x, double y, double e) { return std::abs(x - y) <= e * (1 + std::abs(y)); };
  auto close = [&](double x, double y) { return near(x, y, 1e-12 * n + (offset == 0 ? 1e-12 : 1e-7)); };
  MC_CHECK(c, near(il::mean(a), m, 1e-13 * n), "mean is %.17g, expected %.17g", il::mean(a), m);
  MC_CHECK(c, close(il::variance(a, il::VarianceKind::Population), q / n), "the population variance is %g, expected %g", il::variance(a, il::VarianceKind::Population), (double)(q / n));
  const auto p = il::meanVariance(a, il::VarianceKind::Population);
  MC_CHECK(c, near(p.mean, m, 1e-13 * n) && close(p.variance, q / n), "meanVariance is wrong");
  if (n > 1) {
    MC_CHECK(c, close(il::variance(a, il::VarianceKind::Sample), q / (n - 1)), "the sample variance is wrong");
    const auto t = il::meanVariance(a, il::VarianceKind::Sample);
    MC_CHECK(c, near(t.mean, m, 1e-13 * n) && close(t.variance, q / (n - 1)), "meanVariance of a sample is wrong");
  }
}
static const vector<double> kOffsets = {0, 1000000, -100000000};
static void moments(Ctx& c) {
  const int n = 1 + c.pick(c.bound);
  vector<double> v;
  for (int i = 0; i < n; ++i) v.push_back(c.of({0.0, 1.0, -3.0, 1024.5, -0.125, 7.0}));
  for (double o : kOffsets) moments_of(c, v, o);
}
static void long_moments(Ctx& c) {
  const int n = c.of({15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4097, 70001});
  const int kind = c.pick(6);
  vector<double> v;
  for (int i = 0; i < n; ++i) v.push_back(kind == 0 ? 5 : kind == 1 ? i : kind == 2 ? (i & 1) * 8 : kind == 3 ? (i * 37 % 101) / 8.0 - 4 : kind == 4 ? (i == n - 1) * 64.0 : (i == 0) * -64.0);
  const double o = c.of(kOffsets);
  moments_of(c, v, o);
}
MC_SUITE("mean and variance of long arrays", long_moments, 1, 1);
MC_SUITE("mean and variance", moments, 6, 7);

template <typename T>
static void columns(Ctx& c) {
  const int n0 = 1 + c.pick(4), n1 = 1 + c.pick(3), j = c.pick(n1);
  il::Array2D<T> A{n0, n1, (T)0};
  const T extreme[] = {std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : (T)4, std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : (T)1, (T)2, (T)0};
  for (int k = 0; k < n1; ++k) for (int i = 0; i < n0; ++i) A(i, k) = k == j ? (T)0 : k < j ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
  for (int i = 0; i < n0; ++i) A(i, j) = extreme[c.pick(6)];
  for (int b = 0; b < n0; ++b)
    for (int e = b + 1; e <= n0; ++e) {
      T lo = A(b, j), hi = A(b, j);
      for (int i = b; i < e; ++i) { lo = std::min(lo, A(i, j)); hi = std::max(hi, A(i, j)); }
      const auto m = il::minMax(A, il::Range{b, e}, j);
      MC_CHECK(c, m.min == lo && m.max == hi, "minMax over the rows [%d, %d) of the column %d is wrong", b, e, j);
    }
}
MC_SUITE("columns of double", columns<double>, 1, 1);
MC_SUITE("columns of int", columns<int>, 1, 1);
MC_SUITE("columns of unsigned char", columns<unsigned char>, 1, 1);

// ---- il/math.h
template <int N> static void power(Ctx& c, double x, double want) {
  MC_CHECK(c, il::ipow<N>(x) == want, "ipow<%d>(%g) is %g, expected %g", N, x, il::ipow<N>(x), want);
}
static void powers(Ctx& c) {
  const double x = c.of({0.0, 1.0, -1.0, 2.0, -2.0, 0.5, 3.0, -0.5});
  double p[21]; p[0] = 1;
  for (int k = 1; k <= 20; ++k) p[k] = p[k - 1] * x;
  for (int k = 0; k <= 20; ++k) {
    MC_CHECK(c, il::ipow(x, (int_t)k) == p[k], "ipow(%g, %d) is %g, expected %g", x, k, il::ipow(x, (int_t)k), p[k]);
    if (x == (int)x) MC_CHECK(c, il::ipow((int_t)x, (int_t)k) == (int_t)p[k], "ipow of the integer %g to the %d is wrong", x, k);
  }
  power<1>(c, x, p[1]); power<2>(c, x, p[2]); power<3>(c, x, p[3]); power<4>(c, x, p[4]); power<5>(c, x, p[5]); power<6>(c, x, p[6]); power<7>(c, x, p[7]); power<8>(c, x, p[8]);
  power<9>(c, x, p[9]); power<11>(c, x, p[11]); power<12>(c, x, p[12]); power<15>(c, x, p[15]); power<16>(c, x, p[16]); power<17>(c, x, p[17]); power<20>(c, x, p[20]);
}
MC_SUITE("powers", powers, 1, 1);

static void bits(Ctx& c) {
  const int k = c.pick(64), s = c.pick(5);
  for (int64_t d = -130; d <= 130; ++d) {
    const uint64_t x = ((uint64_t)1 << k) * (s == 0 ? 1 : 1) + (uint64_t)d + (s ? ((uint64_t)1 << k) / (uint64_t)(s + 1) : 0);
    if (x >= 1) {
      uint64_t prev = (uint64_t)1 << 63;
      while (prev > x) prev >>= 1;
      MC_CHECK(c, il::previous_power_of_2_64(x) == prev, "previous_power_of_2_64(%llu) is wrong", (unsigned long long)x);
      if (x <= (uint64_t)1 << 63) { const uint64_t next = prev == x ? x : 2 * prev; MC_CHECK(c, il::next_power_of_2_64(x) == next, "next_power_of_2_64(%llu) is wrong", (unsigned long long)x); if (x <= (uint64_t)1 << 62) { int l = 0; while ((uint64_t)1 << l < x) ++l; MC_CHECK(c, il::nextLog2(x) == l, "nextLog2(%llu) is wrong", (unsigned long long)x); } }
    }
    const uint32_t y = (uint32_t)x;
    if (y >= 1) {
      uint32_t prev = (uint32_t)1 << 31;
      while (prev > y) prev >>= 1;
      MC_CHECK(c, il::previous_power_of_2_32(y) == prev, "previous_power_of_2_32(%u) is wrong", y);
      if (y <= (uint32_t)1 << 31) { const uint32_t next = prev == y ? y : 2 * prev; MC_CHECK(c, il::next_power_of_2_32(y) == next, "next_power_of_2_32(%u) is wrong", y); int l = 0; while ((uint64_t)1 << l < y) ++l; MC_CHECK(c, il::next_log2_32(y) == l, "next_log2_32(%u) is wrong", y); }
    }
    const int_t n = (int_t)(x >> 1);
    for (int b : {1, 2, 3, 7, 64}) MC_CHECK(c, il::floor(n, b) == n - n % b && il::floor(n, (int_t)b) == n - n % b, "floor(%ld, %d) is wrong", (long)n, b);
  }
}
MC_SUITE("powers of two", bits, 1, 1);

static void order(Ctx& c) {
  double x[6];
  for (double& t : x) t = c.of({-1.0, 0.5, 2.0});
  double hi = x[0], lo = x[0];
  MC_CHECK(c, il::min(x[0], x[1]) == std::min(x[0], x[1]), "min");
  lo = std::min(std::min(x[0], x[1]), std::min(x[2], x[3]));
  MC_CHECK(c, il::min(x[0], x[1], x[2], x[3]) == lo, "min of four values is wrong");
  auto mx = [&](int n) { hi = x[0]; for (int i = 1; i < n; ++i) hi = std::max(hi, x[i]); return hi; };
  MC_CHECK(c, il::max(x[0], x[1]) == mx(2) && il::max(x[0], x[1], x[2]) == mx(3) && il::max(x[0], x[1], x[2], x[3]) == mx(4) && il::max(x[0], x[1], x[2], x[3], x[4]) == mx(5) && il::max(x[0], x[1], x[2], x[3], x[4], x[5]) == mx(6), "max of several values is wrong");
  MC_CHECK(c, il::abs(x[0]) == std::abs(x[0]) && il::abs((float)x[0]) == std::abs((float)x[0]) && il::abs((int)(4 * x[0])) == std::abs((int)(4 * x[0])) && il::abs((int_t)(4 * x[0])) == std::abs((int_t)(4 * x[0])), "abs is wrong");
  MC_CHECK(c, il::floor(x[0]) == (x[0] < 0 ? -1 : (int_t)x[0]) && il::floor(-x[1]) == (int_t)std::floor(-x[1]), "floor is wrong");
}
MC_SUITE("order", order, 1, 1);
