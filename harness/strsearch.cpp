// P13: comparison, search, slicing and classification of strings against their byte-level definition.
#include <il/String.h>
#include <il/string_util.h>
#include <il/container/string/algorithmString.h>
#include <sstream>
#include <string>
#include <vector>
#include "ilmc.h"
using il::int_t;
using mc::Ctx;
using std::string;
static string show(const string& s) { string r = "\""; for (unsigned char c : s) { char b[8]; if (c >= 32 && c < 127) r += (char)c; else { snprintf(b, 8, "\\x%02x", c); r += b; } } return r + "\""; }
static il::String mk(const string& s) { return il::String(il::StringType::Byte, s.data(), (int_t)s.size()); }
// the bytes, followed by other bytes: what a view of a longer text sees
struct Slice { string all; size_t n; Slice(const string& s, const char* head = "ab", const char* tail = "ab1 ") : all(head + s + tail), n(s.size()) {} il::StringView view() const { return il::StringView(il::StringType::Byte, all.data() + 2, (int_t)n); } };
static string word(Ctx& c, int max, const char* alpha, int na) {
  string s;
  const int n = c.pick(max + 1);
  for (int i = 0; i < n; ++i) s += alpha[c.pick(na)];
  return s;
}
static size_t ref_find(const string& t, const string& p) { return t.find(p); }
static void pair(Ctx& c) {
  static const char alpha[] = {'a', 'b', '\0'};
  const string pad = c.of({0, 1}) ? string(20, 'a') : string();
  const string x = pad + word(c, c.bound, alpha, 3), y = (c.flip() ? pad : string()) + word(c, c.bound, alpha, 3);
  const il::String X = mk(x), Y = mk(y);
  const Slice sx(x), sy(y);
  const string xs = show(x), ys = show(y);
#define EQ(expr, want) MC_CHECK(c, (expr) == (want), "%s is %s for x = %s, y = %s", #expr, (want) ? "false" : "true", xs.c_str(), ys.c_str())
  EQ(X == Y, x == y);
  EQ(X < Y, x < y);
  EQ(X.isEqual(y.data(), (int_t)y.size()), x == y);
  EQ(X.startsWith(Y), x.compare(0, y.size(), y) == 0 && x.size() >= y.size());
  EQ(X.startsWith(sy.view()), x.compare(0, y.size(), y) == 0 && x.size() >= y.size());
  EQ(X.endsWith(Y), x.size() >= y.size() && x.compare(x.size() - y.size(), y.size(), y) == 0);
  EQ(X.endsWith(sy.view()), x.size() >= y.size() && x.compare(x.size() - y.size(), y.size(), y) == 0);
  const bool yz = y.find('\0') == string::npos;  // y as a C string
  if (yz) {
    EQ(X == y.c_str(), x == y);
    EQ(y.c_str() == X, x == y);
    EQ(X != y.c_str(), x != y);
    EQ(y.c_str() != X, x != y);
    EQ(y.c_str() < X, y < x);
    EQ(X.isEqual(y.c_str()), x == y);
    EQ(sx.view() == y.c_str(), x == y);
    EQ(X.view() == y.c_str(), x == y);
  }
  const size_t f = ref_find(x, y);
  const int_t want = f == string::npos ? -1 : (int_t)f;
#define AT(expr, w) MC_CHECK(c, (expr) == (w), "%s is %ld, expected %ld, for x = %s, y = %s", #expr, (long)(expr), (long)(w), xs.c_str(), ys.c_str())
  AT(X.search(Y), want);
  AT(X.search(sy.view()), want);
  EQ(X.found(X.search(Y)), want >= 0);
  AT(il::search(Y, X), want);
  AT(il::search(sy.view(), sx.view()), want);
  if (yz) AT(il::search(y.c_str(), sx.view()), want);
  for (char ch : {'a', 'b', 'c', '\0'}) {
    int_t n = 0;
    for (char q : x) n += q == ch;
    AT(X.count(ch), n);
    AT(il::count(ch, sx.view()), n);
    EQ(X.endsWith(ch), !x.empty() && x.back() == ch);
  }
  std::ostringstream os;
  os << X << '|' << sy.view();
  MC_CHECK(c, os.str() == x + "|" + y, "printing gives %s for x = %s, y = %s", show(os.str()).c_str(), xs.c_str(), ys.c_str());
}
MC_SUITE("pairs", pair, 5, 6, true, 3);

static void literals(Ctx& c) {
  static const char alpha[] = {'a', 'b'};
  const string pad = c.flip() ? string(21, 'a') : string();
  const string x = pad + word(c, 4, alpha, 2);
  const il::String X = mk(x);
  const string xs = show(x), ys = "a literal";
#define L(lit) { const string y = lit; EQ(X == lit, x == y); EQ(lit == X, x == y); EQ(X.startsWith(lit), x.compare(0, y.size(), y) == 0 && x.size() >= y.size()); \
    EQ(X.endsWith(lit), x.size() >= y.size() && x.compare(x.size() - y.size(), y.size(), y) == 0); AT(X.search(lit), (int_t)x.find(y)); AT(il::search(lit, X), (int_t)x.find(y)); }
  L("") L("a") L("b") L("ab") L("ba") L("aba") L("aaaaaaaaaaaaaaaaaaaaa") L("aaaaaaaaaaaaaaaaaaaaab") L("aaaaaaaaaaaaaaaaaaaaaa")
}
MC_SUITE("literals", literals, 1, 1);

// Slicing: every sub-range of every string, for owned strings and views.
static void slices(Ctx& c) {
  static const int lens[] = {0, 1, 2, 3, 5, 21, 22, 23, 24, 25};
  const int n = lens[c.pick(10)];
  string x;
  for (int i = 0; i < n; ++i) x += (char)('A' + i);
  const il::String X = mk(x);
  const Slice sx(x);
  for (int i = 0; i <= n; ++i)
    for (int j = i; j <= n; ++j) {
      const string want = x.substr(i, j - i);
      auto same = [&](const il::StringView& v, const char* what) {
        MC_CHECK(c, string(v.data(), v.size()) == want && v.size() == j - i && v.isEmpty() == want.empty(), "%s of [%d, %d) of %s is %s", what, i, j, show(x).c_str(), show(string(v.data(), v.size())).c_str());
        for (int k = 0; k < j - i; ++k) MC_CHECK(c, v[k] == want[k] && v.back(k) == want[j - i - 1 - k], "%s: element access is wrong", what);
      };
      same(X.subview(i, j), "subview");
      same(X.view().subview(i, j), "view().subview");
      same(sx.view().subview(i, j), "subview of a view");
      const il::String sub = X.substring(i, j);
      same(sub, "substring");
      MC_CHECK(c, sub.data() != X.data() + i || sub.size() == 0, "a substring shares its bytes");
      il::StringView v = sx.view();
      v.removeSuffix(j);
      v.removePrefix(i);
      same(v, "removeSuffix and removePrefix");
      MC_CHECK(c, v.data() == sx.all.data() + 2 + i, "a view does not point into the text");
      if (j - i <= 4)
        for (int p = 0; p <= j - i; ++p)
          for (int q = p; q <= j - i; ++q) {
            const il::StringView w = X.subview(i, j).subview(p, q);
            MC_CHECK(c, string(w.data(), w.size()) == want.substr(p, q - p), "nested subview [%d, %d) of [%d, %d) is wrong", p, q, i, j);
          }
    }
}
MC_SUITE("slices", slices, 1, 1);

// Longer texts: one letter differs at each place.
static void longer(Ctx& c) {
  const int n = c.thorough ? 7 + c.pick(300) : c.of({7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 40, 63, 64, 65, 127, 128, 129, 255, 256, 257});
  const char odd = c.of({'b', '\0', '\xFF'});
  const int cap = c.pick(2);
  c.log("texts of %d letters, one of them %02x", n, (unsigned char)odd);
  const string plain((size_t)n, 'a');
  const il::String P = mk(plain);
  const int step = n > 70 ? 5 : 1;
  for (int at = 0; at < n; at += at < 20 || at > n - 20 ? 1 : step) {
    string x = plain;
    x[(size_t)at] = odd;
    il::String X = mk(x);
    if (cap) X.Reserve(n + 30);
    const string xs = "one odd letter", ys = "the plain text";
    EQ(X == P, false);
    EQ(P == X, false);
    EQ(X == mk(x), true);
    EQ(X < P, x < plain);
    EQ(P < X, plain < x);
    EQ(X.isEqual(x.data(), (int_t)n), true);
    EQ(X.isEqual(plain.data(), (int_t)n), false);
    const il::StringView all = X.view();
    for (int k = 0; k < n; ++k) if (all[k] != x[(size_t)k] || all.back(k) != x[(size_t)(n - 1 - k)]) c.fail("the letter at the place %d is another one", k);
    AT(X.count('a'), n - 1);
    if ((unsigned char)odd < 128) AT(X.count(odd), 1);
    AT(X.search(P), -1);
    for (int k : {1, 2, 3, 8, 16, 17, n / 2, n}) for (int from : {at - k + 1, at - k / 2, at, at - 1, at + 1, n - k, 0}) {
      if (k < 1 || k > n || from < 0 || from + k > n) continue;
      const string y = x.substr((size_t)from, (size_t)k);
      const Slice sy(y);
      AT(X.search(mk(y)), (int_t)x.find(y));
      AT(X.search(sy.view()), (int_t)x.find(y));
      AT(il::search(sy.view(), X.view()), (int_t)x.find(y));
      EQ(X.startsWith(sy.view()), x.compare(0, y.size(), y) == 0);
      EQ(X.endsWith(sy.view()), x.compare(x.size() - y.size(), y.size(), y) == 0);
      const string z = y + "c";
      AT(X.search(mk(z)), -1);
      EQ(X.startsWith(mk(z)), false);
      EQ(X.endsWith(mk("c" + y)), false);
      const il::String sub = X.substring(from, from + k);
      EQ(sub == mk(y), true);
      EQ(X.subview(from, from + k).size() == (int_t)k && string(X.subview(from, from + k).data(), (size_t)k) == y, true);
    }
  }
}
MC_SUITE("longer texts", longer, 1, 1);

// Character classes and scanning.
static void scans(Ctx& c) {
  static const char alpha[] = {' ', '\t', '\n', '\r', '0', '9', 'a', 'F', 'g', '\0', '\f', '\v', '/', ':'};
  const int na = 14;
  const string x = word(c, c.bound, alpha, na);
  const string xs = show(x), ys = "";
  const int n = (int)x.size();
  auto nl = [&](int i) { return x[i] == '\n' || (i + 1 < n && x[i] == '\r' && x[i + 1] == '\n'); };
  // the bytes around the view would go with those which are in it
  static const char* const around[][2] = {{"ab", "1 "}, {"\r\r", "\n1"}, {"1 ", "a1"}, {" \t", " \t"}};
  for (const auto& out : around) {
  const Slice sx(x, out[0], out[1]);
  const il::StringView v = sx.view();
  for (int i = 0; i < n; ++i) {
    EQ(v.hasSpace(i), strchr(" \f\n\r\t\v", x[i]) != nullptr && x[i] != 0);
    EQ(v.hasDigit(i), x[i] >= '0' && x[i] <= '9');
    EQ(v.hasHexaDecimal(i), (x[i] >= '0' && x[i] <= '9') || (x[i] >= 'a' && x[i] <= 'f') || (x[i] >= 'A' && x[i] <= 'F'));
    EQ(v.hasNewLine(i), nl(i));
  }
  for (int i = 0; i <= n; ++i) {
    size_t p = x.find_first_of("0123456789", i);
    AT(v.nextDigit(i), p == string::npos ? -1 : (int_t)p);
    for (char ch : {'a', '\0', '1', ' '}) { p = x.find(ch, i); AT(v.nextChar(i, ch), p == string::npos ? -1 : (int_t)p); }
  }
  EQ(v.startsWithNewLine(), n > 0 && nl(0));
  if (n > 0) EQ(v.startsWithDigit(), x[0] >= '0' && x[0] <= '9');
  size_t t = 0;
  while (t < x.size() && (x[t] == ' ' || x[t] == '\t')) ++t;
  il::StringView w = v;
  w.trimPrefix();
  MC_CHECK(c, string(w.data(), w.size()) == x.substr(t), "trimPrefix of %s gives %s", xs.c_str(), show(string(w.data(), w.size())).c_str());
  w = il::removeWhitespaceLeft(v);
  MC_CHECK(c, string(w.data(), w.size()) == x.substr(t), "removeWhitespaceLeft of %s gives %s", xs.c_str(), show(string(w.data(), w.size())).c_str());
  }
}
MC_SUITE("scans", scans, 4, 6, true, 1);

// Rendering integers.
static void integers(Ctx& c) {
  const int k = c.pick(64), sign = c.pick(2);
  const unsigned long long base = k < 63 ? 1ull << k : 0;
  unsigned long long ten = 1;
  for (int i = 0; i < k && i < 18; ++i) ten *= 10;
  for (unsigned long long b : {base, ten, (unsigned long long)INT64_MAX})
    for (int d = -300; d <= 300; ++d) {
      const __int128 w = (sign ? -(__int128)b : (__int128)b) + d;
      if (w > INT64_MAX || w < INT64_MIN) continue;
      const int_t x = (int_t)w;
      const il::String s = il::toString(x);
      const string want = std::to_string((long long)x);
      MC_CHECK(c, string(s.data(), s.size()) == want && s.asCString()[s.size()] == 0, "toString(%s) is %s", want.c_str(), show(string(s.data(), s.size())).c_str());
      MC_CHECK(c, s.type() == il::StringType::Ascii && s.capacity() >= s.size(), "toString gives an ill-formed string");
    }
}
MC_SUITE("integers", integers, 1, 1);
