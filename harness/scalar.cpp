// P37: the scalar and integer helpers of il/math.h, il/core/core.h and il/unit/time.h
// against their definitions, over whole ranges of arguments.
#include <il/math.h>
#include <il/unit/time.h>
#include <cmath>
#include <complex>
#include <cstring>
#include <limits>
#include <vector>
#include "ilmc.h"
using il::int_t;
using mc::Ctx;

// --- powers of two and logarithms -------------------------------------------------------
static void one32(Ctx& c, unsigned x) {
  // definitions, by way of the position of the leading bit
  const int lead = x ? 31 - __builtin_clz(x) : -1;
  const unsigned prev = x ? 1u << lead : 0u;
  const unsigned got = il::previous_power_of_2_32(x);
  if (got != prev) c.fail("previous_power_of_2_32(%u) is %u, expected %u", x, got, prev);
  if (x >= 1) {
    const int log = x == prev ? lead : lead + 1;
    if (log <= 31) {
      const unsigned next = il::next_power_of_2_32(x);
      if (next != 1u << log) c.fail("next_power_of_2_32(%u) is %u, expected %u", x, next, 1u << log);
    }
    const int g = il::next_log2_32(x);
    if (g != log) c.fail("next_log2_32(%u) is %d, expected %d", x, g, log);
  }
}
static void one64(Ctx& c, std::uint64_t x) {
  const int lead = x ? 63 - __builtin_clzll(x) : -1;
  const std::uint64_t prev = x ? std::uint64_t(1) << lead : 0;
  MC_CHECK(c, il::previous_power_of_2_64(x) == prev, "previous_power_of_2_64(%lu) is wrong", (unsigned long)x);
  if (x >= 1) {
    const int log = x == prev ? lead : lead + 1;
    if (log <= 63) MC_CHECK(c, il::next_power_of_2_64(x) == std::uint64_t(1) << log, "next_power_of_2_64(%lu) is %lu", (unsigned long)x, (unsigned long)il::next_power_of_2_64(x));
    MC_CHECK(c, il::nextLog2(x) == log, "nextLog2(%lu) is %d, expected %d", (unsigned long)x, il::nextLog2(x), log);
  }
}
static void all32(Ctx& c) {
  const unsigned block = c.pick(4096);  // 2^20 numbers each
  if (!c.thorough && block >= 4 && block != 2047 && block != 2048 && block != 4095) {
    // both ends of the block, and all its numbers whose lower part has at most three bits
    for (unsigned k = 0; k < 2048; ++k) { one32(c, (block << 20) + k); one32(c, (block << 20) + (1u << 20) - 1 - k); }
    for (unsigned i = 0; i <= 20; ++i) for (unsigned j = i; j <= 20; ++j) for (unsigned l = j; l <= 20; ++l) {
      const unsigned k = (1u << i | 1u << j | 1u << l) & ((1u << 20) - 1);
      for (int d = -1; d <= 1; ++d) one32(c, (block << 20) + k + d);
    }
  } else {
    for (unsigned k = 0; k < (1u << 20); ++k) one32(c, (block << 20) + k);
  }
  MC_CHECK(c, true, "block");
}
MC_SUITE("32-bit powers of two", all32, 1, 1);
static void all64(Ctx& c) {
  const int i = c.pick(65), j = c.pick(65);
  const std::uint64_t a = i < 64 ? std::uint64_t(1) << i : 0, b = j < 64 ? std::uint64_t(1) << j : 0;
  for (int k = -70; k <= 70; ++k) { one64(c, a + b + k); one64(c, a - b + k); }
}
MC_SUITE("64-bit powers of two", all64, 1, 1);

// --- integer powers -----------------------------------------------------------------------
template <typename T>
static bool power_fits(T x, int n, T& r) {
  __int128 p = 1;
  for (int k = 0; k < n; ++k) {
    p *= (__int128)x;
    if (p > (__int128)std::numeric_limits<T>::max() || p < (__int128)std::numeric_limits<T>::min()) return false;
  }
  r = (T)p;
  return true;
}
template <int n, typename T>
static void fixed_power(Ctx& c, T x) {
  T r;
  if (power_fits<T>(x, n, r)) MC_CHECK(c, (il::ipow<n, T>(x)) == r, "ipow<%d>(%ld) is wrong", n, (long)x);
  if (std::fabs((double)x) <= 3) {
    double d = 1;
    for (int k = 0; k < n; ++k) d *= (double)x;
    MC_CHECK(c, (il::ipow<n, double>((double)x)) == d, "ipow<%d>(%g) is wrong", n, (double)x);
  }
}
template <typename T>
static void powers(Ctx& c) {
  const T x = (T)(c.pick(81) - 40);
  c.log("x = %ld", (long)x);
  for (int n = 0; n <= 62; ++n) {
    T r;
    if (!power_fits<T>(x, n, r)) break;
    const T got = il::ipow(x, (int_t)n);
    MC_CHECK(c, got == r, "ipow(%ld, %d) is %ld, expected %ld", (long)x, n, (long)got, (long)r);
  }
  fixed_power<1, T>(c, x); fixed_power<2, T>(c, x); fixed_power<3, T>(c, x); fixed_power<4, T>(c, x); fixed_power<5, T>(c, x); fixed_power<6, T>(c, x);
  fixed_power<7, T>(c, x); fixed_power<8, T>(c, x); fixed_power<9, T>(c, x); fixed_power<10, T>(c, x); fixed_power<11, T>(c, x); fixed_power<12, T>(c, x);
  fixed_power<13, T>(c, x); fixed_power<14, T>(c, x); fixed_power<15, T>(c, x); fixed_power<16, T>(c, x); fixed_power<17, T>(c, x); fixed_power<23, T>(c, x); fixed_power<31, T>(c, x);
}
static void powers_real(Ctx& c) {
  static const double xs[] = {0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, 2.0, -2.0, 3.0, 0.25};
  const double x = xs[c.pick(11)];
  for (int n = 0; n <= 30; ++n) {
    double r = 1.0;  // exact: few significant bits
    for (int k = 0; k < n; ++k) r *= x;
    MC_CHECK(c, il::ipow(x, (int_t)n) == r, "ipow(%g, %d) is %.17g, expected %.17g", x, n, il::ipow(x, (int_t)n), r);
    const std::complex<double> z(0.0, x), got = il::ipow(z, (int_t)n);
    const std::complex<double> w = n % 4 == 0 ? std::complex<double>(r, 0) : n % 4 == 1 ? std::complex<double>(0, r) : n % 4 == 2 ? std::complex<double>(-r, 0) : std::complex<double>(0, -r);
    MC_CHECK(c, got == w, "ipow(i %g, %d) is wrong", x, n);
  }
#ifdef IL_UNIT_TEST
  bool rejected = false;
  try { il::ipow(x, (int_t)(-1 - c.pick(3))); } catch (il::AbortException&) { rejected = true; }
  MC_CHECK(c, rejected, "a negative exponent was not rejected");
#endif
}
MC_SUITE("powers of int", powers<int>, 1, 1);
MC_SUITE("powers of il::int_t", powers<int_t>, 1, 1);
MC_SUITE("powers of real and imaginary numbers", powers_real, 1, 1);

// --- floor, abs, conjugate, minimum and maximum ---------------------------------------------
static void floors(Ctx& c) {
  const int e = c.pick(63), s = c.flip() ? -1 : 1;
  const double base = s * std::ldexp(1.0, e);
  std::vector<double> v;
  for (int k = -8; k <= 8; ++k) {
    const double d = base + 0.25 * k;
    v.push_back(d);
    v.push_back(std::nextafter(d, -1e300));
    v.push_back(std::nextafter(d, 1e300));
  }
  v.push_back(0.0); v.push_back(-0.0); v.push_back(std::nextafter(0.0, -1)); v.push_back(std::nextafter(0.0, 1));
  for (double d : v) {
    if (std::fabs(d) >= 9.2e18) continue;
    const int_t f = il::floor(d);
    // the largest integer that is not above d
    MC_CHECK(c, (long double)f <= (long double)d && (long double)f + 1 > (long double)d, "floor(%.17g) is %ld", d, (long)f);
  }
  for (int_t a : {int_t(0), int_t(1), (int_t(1) << e) - 1, int_t(1) << e, (int_t(1) << e) + 1})
    for (int_t b : {int_t(1), int_t(2), int_t(3), int_t(7), int_t(64), int_t(1000003)}) {
      const int_t f = il::floor(a, b), g = il::floor(a, (int)b);
      MC_CHECK(c, f % b == 0 && f <= a && a - f < b, "floor(%ld, %ld) is %ld", (long)a, (long)b, (long)f);
      MC_CHECK(c, f == g, "floor(%ld, %ld) depends on the type of the divisor", (long)a, (long)b);
    }
}
MC_SUITE("floor", floors, 1, 1);
static void values(Ctx& c) {
  const int e = c.pick(31);
  for (int k = -3; k <= 3; ++k) for (int s : {-1, 1}) {
    const int i = s * (int)((e == 30 ? (1u << 30) - 1 : (1u << e))) + k;
    MC_CHECK(c, il::abs(i) == (i < 0 ? -i : i), "abs(int %d)", i);
    const int_t l = ((int_t)i << 30) + k;
    MC_CHECK(c, il::abs(l) == (l < 0 ? -l : l), "abs(il::int_t %ld)", (long)l);
    const double d = i / 8.0;
    const float f = (float)d;
    MC_CHECK(c, il::abs(d) == std::fabs(d) && il::abs(f) == std::fabs(f), "abs(%g)", d);
    MC_CHECK(c, il::real(d) == d && il::real(f) == f && il::conjugate(d) == d, "real or conjugate of %g", d);
    for (double im : {0.0, 1.0, -4.0, 0.125}) {
      const std::complex<double> z(d, im);
      const std::complex<float> y((float)d, (float)im);
      MC_CHECK(c, il::real(z) == d, "real of a complex number");
      MC_CHECK(c, il::conjugate(z) == std::complex<double>(d, -im), "conjugate of a complex number");
      MC_CHECK(c, std::fabs(il::abs(z) - std::abs(z)) <= 4e-16 * std::abs(z), "abs(%g + %g i) is %.17g", d, im, il::abs(z));
      MC_CHECK(c, std::fabs(il::abs(y) - std::abs(y)) <= 4e-7f * std::abs(y), "abs(%g + %g i) is %.9g", d, im, il::abs(y));
      MC_CHECK(c, il::isFinite(z) && il::isFinite(d), "a finite number is reported infinite");
    }
  }
  const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  for (double bad : {inf, -inf, nan}) {
    MC_CHECK(c, !il::isFinite(bad), "isFinite(%g)", bad);
    MC_CHECK(c, !il::isFinite(std::complex<double>(bad, 1.0)) && !il::isFinite(std::complex<double>(1.0, bad)) && !il::isFinite(std::complex<double>(bad, bad)), "isFinite of a complex number with a part %g", bad);
  }
  for (double good : {std::numeric_limits<double>::max(), std::numeric_limits<double>::denorm_min(), -0.0}) MC_CHECK(c, il::isFinite(good) && il::isFinite(std::complex<double>(good, good)), "isFinite(%g)", good);
  // the unit in the last place
  MC_CHECK(c, 1.0 + il::epsilon<double>::value == 1.0 && 1.0 + 2.1 * il::epsilon<double>::value > 1.0, "epsilon<double>");
  MC_CHECK(c, il::pi == M_PI && il::ii * il::ii == std::complex<double>(-1.0, 0.0), "pi or ii");
}
MC_SUITE("abs, real, conjugate, isFinite", values, 1, 1);
template <typename T>
static void extrema(Ctx& c) {
  static const int xs[] = {-2, -1, 0, 1, 3};
  T v[6];
  const int n = 2 + c.pick(5);
  for (int k = 0; k < n; ++k) v[k] = (T)xs[c.pick(n > 4 ? 3 : 5)];
  T hi = v[0], lo = v[0];
  for (int k = 1; k < n; ++k) { if (v[k] > hi) hi = v[k]; if (v[k] < lo) lo = v[k]; }
  T got = hi;
  if (n == 2) got = il::max(v[0], v[1]);
  if (n == 3) got = il::max(v[0], v[1], v[2]);
  if (n == 4) got = il::max(v[0], v[1], v[2], v[3]);
  if (n == 5) got = il::max(v[0], v[1], v[2], v[3], v[4]);
  if (n == 6) got = il::max(v[0], v[1], v[2], v[3], v[4], v[5]);
  MC_CHECK(c, got == hi, "the maximum of %d numbers is %g, expected %g", n, (double)got, (double)hi);
  if (n == 2) {
    MC_CHECK(c, il::min(v[0], v[1]) == lo, "the minimum of 2 numbers is wrong");
    MC_CHECK(c, il::max(v[0], (int)v[1]) == hi && il::max((int)v[0], v[1]) == hi, "the maximum with an int is wrong");
  }
  if (n == 4) MC_CHECK(c, il::min(v[0], v[1], v[2], v[3]) == lo, "the minimum of 4 numbers is wrong");
}
MC_SUITE("minimum and maximum of int", extrema<int>, 1, 1, true, 1);
MC_SUITE("minimum and maximum of il::int_t", extrema<int_t>, 1, 1, true, 1);
MC_SUITE("minimum and maximum of double", extrema<double>, 1, 1, true, 1);

// --- durations as text ------------------------------------------------------------------------
static void durations(Ctx& c) {
  static const double unit[] = {il::nanosecond, il::microsecond, il::millisecond, il::second, il::minute, il::hour, il::day, il::year};
  static const char* name[] = {"nanoseconds", "microseconds", "milliseconds", "seconds", "minutes", "hours", "days", "years"};
  const int u = c.pick(8), k = c.pick(9);
  static const double f[] = {1.0, 1.0000001, 1.5, 2.0, 10.0, 0.999999, 0.5, 100.0, 123.456};
  const double t = f[k] * unit[u];
  // the largest unit which the time holds at least once, and the number of those
  int w = -1;
  for (int q = 0; q < 8; ++q) if (t >= unit[q]) w = q;
  const std::string s = il::time_toString(t);
  char want[64];
  if (w < 0) snprintf(want, sizeof want, "%f seconds", t);
  else snprintf(want, sizeof want, "%f %s", t / unit[w], name[w]);
  MC_CHECK(c, s == want, "%.17g s is printed as \"%s\", expected \"%s\"", t, s.c_str(), want);
  MC_CHECK(c, il::time_toString(0.0) == "0 second", "a null time is printed as \"%s\"", il::time_toString(0.0).c_str());
}
MC_SUITE("durations", durations, 1, 1);
