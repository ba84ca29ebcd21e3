// P41: formatted text. A second implementation of the format language is compared with il::format.
#include <cmath>
#include <cfloat>
#include <climits>
#include <cstdio>
#include <limits>
#include <string>
#include <vector>
#include "ilmc.h"
#include <il/print.h>
#include <il/String.h>
using il::int_t;
using mc::Ctx;
using std::string;

struct Point { int x, y; };
static std::ostream& operator<<(std::ostream& os, const Point& p) { return os << '(' << p.x << ' ' << p.y << ')'; }

// ---- values
enum Kind { Int, Uint, Bool, Char, Double, LongDouble, CString, String, IlString, Pointer, Custom };
struct Value {
  Kind k = Int;
  int bits = 32;                // width of integers
  long long i = 0;
  unsigned long long u = 0;
  double d = 0;
  long double ld = 0;
  string s;
  bool integer() const { return k == Int || k == Uint; }
  bool numeric() const { return integer() || k == Bool || k == Char || k == Double || k == LongDouble; }
};
static Value V(long long i, int bits) { Value v; v.k = Int; v.bits = bits; v.i = i; return v; }
static Value U(unsigned long long u, int bits) { Value v; v.k = Uint; v.bits = bits; v.u = u; return v; }
static Value D(double d) { Value v; v.k = Double; v.d = d; return v; }
static Value L(long double d) { Value v; v.k = LongDouble; v.ld = d; return v; }
static Value S(const string& s, Kind k = String) { Value v; v.k = k; v.s = s; return v; }
static Value C(char x) { Value v; v.k = Char; v.i = x; return v; }
static Value B(bool x) { Value v; v.k = Bool; v.i = x; return v; }
static Value P(unsigned long long x) { Value v; v.k = Pointer; v.u = x; return v; }
static Value X(int a, int b) { Value v; v.k = Custom; v.s = "(" + std::to_string(a) + " " + std::to_string(b) + ")"; v.i = a; v.u = (unsigned)b; return v; }
static string show(const Value& v) {
  char b[100];
  switch (v.k) {
    case Int: case Bool: case Char: snprintf(b, 100, "%lld (kind %d, %d bits)", v.i, v.k, v.bits); return b;
    case Uint: case Pointer: snprintf(b, 100, "%lluu (%d bits)", v.u, v.bits); return b;
    case Double: snprintf(b, 100, "%a", v.d); return b;
    case LongDouble: snprintf(b, 100, "%LaL", v.ld); return b;
    default: return "'" + v.s + "'";
  }
}
// Calls f with the value as an object of its type
template <typename F> static void with(const Value& v, F f) {
  switch (v.k) {
    case Int:
      if (v.bits == 8) f((signed char)v.i);
      else if (v.bits == 16) f((short)v.i);
      else if (v.bits == 32) f((int)v.i);
      else if (v.bits == 63) f((long long)v.i);
      else f((long)v.i);
      break;
    case Uint:
      if (v.bits == 8) f((unsigned char)v.u);
      else if (v.bits == 16) f((unsigned short)v.u);
      else if (v.bits == 32) f((unsigned)v.u);
      else if (v.bits == 63) f((unsigned long long)v.u);
      else f((unsigned long)v.u);
      break;
    case Bool: f(v.i != 0); break;
    case Char: f((char)v.i); break;
    case Double: if (v.bits == 31) f((float)v.d); else f(v.d); break;
    case LongDouble: f(v.ld); break;
    case CString: f(v.s.c_str()); break;
    case String: f(v.s); break;
    case IlString: f(il::String(il::StringType::Byte, v.s.data(), (int_t)v.s.size())); break;
    case Pointer: f((const void*)(uintptr_t)v.u); break;
    case Custom: f(Point{(int)v.i, (int)v.u}); break;
  }
}

// ---- the reference
enum Verdict { Text, Bad, Either };
struct Result { Verdict v = Text; string s; };
struct Spec { char fill = ' '; char align = 0; char sign = 0; bool hash = false, zero = false; long width = 0; long prec = -1; char type = 0; bool filled = false; };

static string padded(const string& sign_prefix, const string& body, const Spec& f, char standard) {
  const string all = sign_prefix + body;
  if ((long)all.size() >= f.width) return all;
  const size_t n = (size_t)f.width - all.size();
  char align = f.align ? f.align : standard, fill = f.fill;
  if (f.zero) { align = '='; fill = '0'; }
  if (align == '<') return all + string(n, fill);
  if (align == '^') return string(n / 2, fill) + all + string(n - n / 2, fill);
  if (align == '=') return sign_prefix + string(n, fill) + body;
  return string(n, fill) + all;
}
static string digits(unsigned long long u, int base, bool upper) {
  string s;
  do { s.insert(s.begin(), (upper ? "0123456789ABCDEF" : "0123456789abcdef")[u % base]); u /= base; } while (u);
  return s;
}
static Result fail(Verdict v) { Result r; r.v = v; return r; }
static Result formatted(const Value& v, const Spec& f) {
  Result r;
  // what makes no sense for the kind of the value
  const bool numflags = f.align == '=' || f.sign || f.hash || f.zero;
  if (numflags && !v.numeric() ) return fail(v.k == Custom || v.k == IlString ? Bad : Bad);
  if (f.sign && v.k == Uint) return fail(Bad);
  if (f.prec >= 0 && (v.integer() || v.k == Bool || v.k == Char || v.k == Pointer)) return fail(Bad);
  if (f.align && f.zero) return fail(Either);   // two alignments are asked for
  if (f.filled && f.zero) return fail(Either);
  switch (v.k) {
    case Int: case Uint: {
      const bool neg = v.k == Int && v.i < 0;
      const unsigned long long a = v.k == Uint ? v.u : neg ? 0ull - (unsigned long long)v.i : (unsigned long long)v.i;
      string pre = neg ? "-" : f.sign == '+' ? "+" : f.sign == ' ' ? " " : "";
      switch (f.type) {
        case 0: case 'd': r.s = padded(pre, digits(a, 10, false), f, '>'); return r;
        case 'n': r.s = padded(pre, digits(a, 10, false), f, '>'); return r;  // in the C locale nothing separates thousands
        case 'x': case 'X': r.s = padded(pre + (f.hash ? (f.type == 'x' ? "0x" : "0X") : ""), digits(a, 16, f.type == 'X'), f, '>'); return r;
        case 'b': case 'B': r.s = padded(pre + (f.hash ? (f.type == 'b' ? "0b" : "0B") : ""), digits(a, 2, false), f, '>'); return r;
        case 'o': r.s = padded(pre + (f.hash ? "0" : ""), digits(a, 8, false), f, '>'); return r;
        default: return fail(Bad);
      }
    }
    case Bool:
      if (f.type == 0) { if (numflags) return fail(Either); r.s = padded("", v.i ? "true" : "false", f, '<'); return r; }
      if (f.type == 's') return fail(Either);
      { Value w = V(v.i, 32); return formatted(w, f); }
    case Char:
      if (f.type == 0 || f.type == 'c') { if (numflags) return fail(Bad); r.s = padded("", string(1, (char)v.i), f, '<'); return r; }
      { Value w = V(v.i, 32); return formatted(w, f); }
    case CString: case String: case IlString: case Custom: {
      if (v.k == CString && f.type == 'p') return fail(Either);
      if (f.type && f.type != 's') return fail(Bad);
      string t = v.s;
      if (v.k == CString) t = t.c_str();
      if (f.prec >= 0 && (size_t)f.prec < t.size()) t.resize((size_t)f.prec);
      r.s = padded("", t, f, '<');
      return r;
    }
    case Pointer:
      if (f.type && f.type != 'p') return fail(Bad);
      r.s = padded("0x", digits(v.u, 16, false), f, '>');
      return r;
    case Double: case LongDouble: {
      char type = f.type ? f.type : 'g';
      if (!strchr("eEfFgGaA", type)) return fail(Bad);
      const long double x = v.k == Double ? (long double)(v.bits == 31 ? (float)v.d : v.d) : v.ld;
      const bool neg = std::signbit(x);
      const string pre = neg ? "-" : f.sign == '+' ? "+" : f.sign == ' ' ? " " : "";
      if (x != x || std::isinf(x)) {
        const bool upper = type < 'a';
        if (f.zero || f.align == '=') return fail(Either);  // zeros in front of what is not a number
        string t = x != x ? (upper ? "NAN" : "nan") : (upper ? "INF" : "inf");
        // the alignment of what is not a number when none is asked for is not documented
        if (!f.align && f.width > (long)(pre.size() + 3)) return fail(Either);
        r.s = padded("", pre + t, f, '>');
        return r;
      }
      string fmt = "%";
      if (f.hash) fmt += '#';
      if (f.prec >= 0) fmt += "." + std::to_string(f.prec);
      if (v.k == LongDouble) fmt += 'L';
      fmt += type;
      std::vector<char> b(8000);
      const int n = v.k == LongDouble ? snprintf(b.data(), b.size(), fmt.c_str(), std::fabs(x)) : snprintf(b.data(), b.size(), fmt.c_str(), std::fabs((double)x));
      if (n < 0 || n >= 8000) return fail(Either);
      string body(b.data(), (size_t)n), lead = pre;
      if (type == 'a' || type == 'A') { if (f.zero || f.align == '=') return fail(Either); }
      r.s = padded(lead, body, f, '>');
      return r;
    }
  }
  return r;
}

// A whole format string with arguments; the second parser of the language
struct Named { string name; int index; };
struct Parser {
  const string& t; const std::vector<Value>& args; const std::vector<Named>& names;
  size_t p = 0;
  int mode = 0;  // 0: undecided, 1: automatic, 2: manual
  int next = 0;
  Verdict verdict = Text;
  string out;
  Parser(const string& t, const std::vector<Value>& a, const std::vector<Named>& n) : t(t), args(a), names(n) {}
  char at(size_t k) const { return k < t.size() ? t[k] : '\0'; }
  bool bad() { verdict = verdict == Text ? Bad : verdict; return false; }
  static bool digit(char c) { return c >= '0' && c <= '9'; }
  static bool start(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
  bool number(long& n) {
    n = 0;
    const size_t b = p;
    while (digit(at(p))) { if (n < (1L << 40)) n = 10 * n + (at(p) - '0'); ++p; }
    if (n > INT_MAX) return bad();
    return p > b;
  }
  bool argument(Value& v) {
    int i = -1;
    if (start(at(p))) {
      string name;
      while (start(at(p)) || digit(at(p))) name += at(p++);
      if (mode == 1) return bad();
      mode = 2;
      for (const Named& n : names) if (n.name == name) { i = n.index; break; }
      if (i < 0) return bad();
    } else if (digit(at(p))) {
      long n;
      if (!number(n)) return false;
      if (mode == 1) return bad();
      mode = 2;
      if (n >= (long)args.size()) return bad();
      i = (int)n;
    } else {
      if (mode == 2) return bad();
      mode = 1;
      if (next >= (int)args.size()) return bad();
      i = next++;
    }
    for (const Named& n : names) if (n.index == i && false) return bad();
    v = args[i];
    return true;
  }
  bool nested(long& n) {
    Value v;
    if (!argument(v)) return false;
    if (at(p) != '}') return bad();
    ++p;
    if (v.k == Int) { if (v.i < 0 || v.i > INT_MAX) return bad(); n = (long)v.i; return true; }
    if (v.k == Uint) { if (v.u > INT_MAX) return bad(); n = (long)v.u; return true; }
    return bad();
  }
  bool field() {
    Value v;
    if (!argument(v)) return false;
    Spec f;
    if (at(p) == ':') {
      ++p;
      auto align = [](char c) { return c == '<' || c == '>' || c == '=' || c == '^'; };
      if (at(p) && at(p) != '}' && align(at(p + 1))) {
        if (at(p) == '{') return bad();
        f.fill = at(p); f.filled = true; f.align = at(p + 1); p += 2;
      } else if (align(at(p))) f.align = at(p++);
      if (at(p) == '+' || at(p) == '-' || at(p) == ' ') f.sign = at(p++);
      if (at(p) == '#') { f.hash = true; ++p; }
      if (at(p) == '0') { f.zero = true; ++p; }
      if (digit(at(p))) { if (!number(f.width)) return false; }
      else if (at(p) == '{') { ++p; if (!nested(f.width)) return false; }
      if (at(p) == '.') {
        ++p;
        if (digit(at(p))) { if (!number(f.prec)) return false; }
        else if (at(p) == '{') { ++p; if (!nested(f.prec)) return false; }
        else return bad();
      }
      if (at(p) && at(p) != '}') f.type = at(p++);
    }
    if (at(p) != '}') return bad();
    ++p;
    Result r = formatted(v, f);
    if (r.v != Text) { if (verdict == Text || r.v == Either) verdict = r.v; return r.v == Either; }
    out += r.s;
    return true;
  }
  Result run() {
    while (p < t.size()) {
      const char c = t[p];
      if (c == '{' || c == '}') {
        if (at(p + 1) == c) { out += c; p += 2; continue; }
        if (c == '}') { bad(); break; }
        ++p;
        if (!field()) break;
      } else { out += c; ++p; }
    }
    Result r; r.v = verdict; r.s = out;
    return r;
  }
};

// ---- the code under test
static void judge(Ctx& c, const string& format, const Result& want, const string& got, bool thrown, const std::vector<Value>& args) {
  if (want.v == Either) return;
  string a;
  for (const Value& v : args) a += " " + show(v);
  if (want.v == Bad) { MC_CHECK(c, thrown, "the malformed format \"%s\" with%s gives \"%s\"", format.c_str(), a.c_str(), got.c_str()); return; }
  MC_CHECK(c, !thrown, "the format \"%s\" with%s is reported as malformed", format.c_str(), a.c_str());
  MC_CHECK(c, got == want.s, "the format \"%s\" with%s gives \"%s\" (%zu bytes) instead of \"%s\" (%zu bytes)", format.c_str(), a.c_str(), got.c_str(), got.size(), want.s.c_str(), want.s.size());
}
template <typename... A> static bool call(string& got, const string& format, const A&... a) {
  try {
    const il::String s = il::format(format, a...);
    got.assign(s.data(), (size_t)s.size());
    return false;
  } catch (fmt::FormatError&) {
    return true;
  }
}
static void one(Ctx& c, const string& format, const Value& v) {
  const std::vector<Value> args{v};
  static const std::vector<Named> none;
  const Result want = Parser(format, args, none).run();
  with(v, [&](const auto& x) {
    string got;
    const bool thrown = call(got, format, x);
    judge(c, format, want, got, thrown, args);
  });
}

static std::vector<Value> values(bool more) {
  std::vector<Value> v{V(0, 32), V(1, 32), V(-1, 32), V(1234567, 32), V(INT_MIN, 32), V(INT_MAX, 64), V(LLONG_MIN, 64), V(LLONG_MAX, 63), U(0, 32), U(255, 8), U(UINT_MAX, 32), U(ULLONG_MAX, 64),
    C('a'), C('\0'), B(true), B(false), D(0.0), D(-0.0), D(1.0), D(-1.5), D(0.1), D(2.5), D(1e300), D(-1e-300), D(1e6), D(99999.95), D(NAN), D(-NAN), D(INFINITY), D(-INFINITY), D(DBL_MAX), L(1.0L / 3), L(-1e4000L),
    S(""), S("abc"), S("h\xC3\xA9llo"), S(string("a\0b", 3)), S("", CString), S("text", CString), S(string(600, 'z')), S("il", IlString), S(string("a\0b", 3), IlString), P(0), P(0xABCDEF), X(1, -2)};
  if (more) for (const Value& x : {V(-128, 8), V(32767, 16), U(65535, 16), U(ULLONG_MAX, 63), V(9, 32), V(10, 32), V(99, 64), V(100, 64), V(999999999, 32), V(1000000000, 32), C('{'), C('\xE9'), D(123456789), D(0.5), D(9.5), D(1e15), D(1e16), D(DBL_MIN), D(4.9e-324), L(0), L(-0.0L), L(NAN), L(INFINITY), S(string(499, 'y')), S(string(500, 'y')), S(string(501, 'y'), IlString), P(UINTPTR_MAX)}) v.push_back(x);
  { Value f = D(0.1); f.bits = 31; v.push_back(f); }
  return v;
}
static void specs(Ctx& c) {
  static const std::vector<Value> few = values(false), all = values(true);
  const std::vector<Value>& vs = c.thorough ? all : few;
  static const char* const fill[] = {"<", ">", "=", "^", "*<", "*>", "*=", "*^", "0>", "}<", "{<", "<^", " <"};
  static const char* const sign[] = {"+", "-", " "};
  static const char* const width[] = {"1", "2", "5", "12", "70"};
  static const char* const prec[] = {".0", ".1", ".3", ".17", "."};
  static const char types[] = "bBdoxXncseEfFgGaApqi";
  string f = "{:";
  int k;
  if ((k = c.pick(14))) f += fill[k - 1];
  if ((k = c.pick(4))) f += sign[k - 1];
  if (c.flip()) f += '#';
  if (c.flip()) f += '0';
  if ((k = c.pick(6))) f += width[k - 1];
  if ((k = c.pick(6))) f += prec[k - 1];
  if ((k = c.pick((int)strlen(types) + 1))) f += types[k - 1];
  f += '}';
  for (const Value& v : vs) one(c, f, v);
}
MC_SUITE("all specifications", specs, 1, 1, true, 3);

// All format strings over the letters which matter
static void stringsBody(Ctx& c) {
  static const char alpha[] = "{}:01a.<*d s-";
  string f;
  for (int k = 0; k < c.bound; ++k) {
    const int i = c.pick(14);
    if (i == 0) break;
    f += alpha[i - 1];
  }
  for (int set = 0; set < 3; ++set) {
    std::vector<Value> args;
    std::vector<Named> names;
    string got;
    bool thrown;
    if (set == 0) { args = {V(7, 32), S("xy"), D(1.5)}; thrown = call(got, f, 7, string("xy"), 1.5); }
    else if (set == 1) { thrown = call(got, f); }
    else { args = {U(3, 32), V(-42, 64)}; names = {{"a", 1}}; thrown = call(got, f, 3u, fmt::arg("a", -42L)); }
    const Result want = Parser(f, args, names).run();
    judge(c, f, want, got, thrown, args);
  }
}
MC_SUITE("all format strings", stringsBody, 5, 6, true, 3);

// Fields put together from pieces: several fields, nested widths, indices, names
static void piecesBody(Ctx& c) {
  static const char* const piece[] = {"{}", "{0}", "{1}", "{2}", "{3}", "{a}", "{b1}", "{_}", "{:{}}", "{0:{1}}", "{:.{}}", "{2:{1}.{1}f}", "{:{a}}", "{a:{a}}", "{:{", "{:x}", "{{", "}}", "text", "}", "{", "{0", "{:>4}",
    "{99999999999}", "{:2147483648}", "{:99999999999}", "{:5000000000}", "{:.5000000000f}", "{2:.{0}}", "{0:{2}}", "{1:{0}}", "\xC3\xA9", "{ }", "{0 }", "{-1}", "{1.5}", "{10}", "{00}", "{:!}", "{2:08.3f}"};
  const int n = sizeof piece / sizeof *piece;
  string f;
  for (int k = 0; k < c.bound; ++k) {
    const int i = c.pick(n + 1);
    if (i == 0) break;
    f += piece[i - 1];
  }
  const int set = c.pick(3);
  std::vector<Value> args;
  std::vector<Named> names;
  string got;
  bool thrown;
  switch (set) {
    case 0: args = {V(7, 32), V(12, 64), D(-2.75)}; thrown = call(got, f, 7, (int_t)12, -2.75); break;
    case 1: args = {V(-3, 32), U(4, 32), S("word")}; names = {{"a", 1}}; thrown = call(got, f, -3, fmt::arg("a", 4u), string("word")); break;
    default: args = {S("s"), V(9, 32), D(0.5), X(1, 2), V(5, 32), S("last")}; names = {{"a", 1}, {"b1", 4}, {"_", 5}};
             thrown = call(got, f, "s", fmt::arg("a", 9), 0.5, Point{1, 2}, fmt::arg("b1", 5), fmt::arg("_", "last")); break;
  }
  const Result want = Parser(f, args, names).run();
  judge(c, f, want, got, thrown, args);
}
MC_SUITE("several fields", piecesBody, 3, 4, true, 2);

// The position in the output at which the internal buffer is full
static void borders(Ctx& c) {
  static const int len[] = {0, 100, 480, 488, 490, 495, 496, 497, 498, 499, 500, 501, 502, 503, 740, 750, 751, 1000};
  static const char* const field[] = {"{}", "{:12}", "{:<12}", "{:^12}", "{:=12}", "{:+}", "{:+12}", "{:#x}", "{:012}", "{:*^9}", "{:600}", "{:b}", "{:.20f}", "{:+.3f}", "{:<+12.1e}", "{:^+12.1f}", "{:=+12.1f}", "{:700.600f}", "{:.400f}"};
  static const std::vector<Value> vs = values(true);
  const int n = len[c.pick(18)] + c.pick(c.bound);
  const string f = string((size_t)n, '.') + field[c.pick(19)] + (c.flip() ? "|tail" : "");
  for (const Value& v : vs) one(c, f, v);
}
MC_SUITE("borders of the buffer", borders, 1, 12, true, 2);

// The number of arguments
template <size_t... I> static void many(Ctx& c, std::index_sequence<I...>) {
  std::vector<Value> args;
  string f, want, got;
  const int style = c.pick(3);
  const int n = sizeof...(I);
  for (int k = 0; k < n; ++k) args.push_back(k % 3 == 0 ? V(k, 32) : k % 3 == 1 ? V(-k, 64) : V(100 * k, 32));
  for (int k = 0; k < n; ++k) f += style == 0 ? string("{},") : style == 1 ? "{" + std::to_string(k) + "}," : "{" + std::to_string(n - 1 - k) + ":>3},";
  const int extra = c.pick(3);
  if (extra == 1) f += style == 0 ? "{}" : "{" + std::to_string(n) + "}";
  if (extra == 2) f += style == 0 ? "{0}" : "{}";
  static const std::vector<Named> none;
  const Result w = Parser(f, args, none).run();
  const bool thrown = call(got, f, ((int)I % 3 == 0 ? (int)I : (int)I % 3 == 1 ? -(int)I : 100 * (int)I)...);
  judge(c, f, w, got, thrown, args);
}
static void counts(Ctx& c) {
  switch (c.pick(10)) {
    case 0: many(c, std::make_index_sequence<0>()); break;
    case 1: many(c, std::make_index_sequence<1>()); break;
    case 2: many(c, std::make_index_sequence<2>()); break;
    case 3: many(c, std::make_index_sequence<3>()); break;
    case 4: many(c, std::make_index_sequence<8>()); break;
    case 5: many(c, std::make_index_sequence<14>()); break;
    case 6: many(c, std::make_index_sequence<15>()); break;
    case 7: many(c, std::make_index_sequence<16>()); break;
    case 8: many(c, std::make_index_sequence<17>()); break;
    default: many(c, std::make_index_sequence<20>()); break;
  }
}
MC_SUITE("numbers of arguments", counts, 1, 1, true, 1);

// Numbers: every size of the digits
static void numbers(Ctx& c) {
  const int e = c.pick(64), d = c.pick(2 * c.bound + 1) - c.bound, base = c.pick(2);
  unsigned long long u = 1;
  if (base == 0) u <<= e;
  else { if (e > 19) return; for (int k = 0; k < e; ++k) u *= 10; }
  u += (unsigned long long)(long long)d;
  for (const char* f : {"{}", "{:x}", "{:o}", "{:b}", "{:#X}", "{:n}", "{:>30}", "{:<30}", "{:030}"}) {
    one(c, f, U(u, 64)); one(c, f, U(u, 63)); one(c, f, V((long long)u, 64)); one(c, f, V((long long)(0 - u), 63));
    one(c, f, U((unsigned)u, 32)); one(c, f, V((int)u, 32));
  }
}
MC_SUITE("numbers of digits", numbers, 3, 12, true, 2);

// Printing writes the formatted bytes to the standard output
static string printed;
static ssize_t sink(void*, const char* b, size_t n) { printed.append(b, n); return (ssize_t)n; }
static void printing(Ctx& c) {
  static const std::vector<Value> vs = values(true);
  static const char* const format[] = {"{}", "{}\n", "%d {} %s\n", "100%{:>9}", "{:x}", "{{}}{0}{0}", "}", "{:.1f}", "\xC3\xA9{:5}"};
  const string f = format[c.pick(9)];
  const Value& v = vs[(size_t)c.pick((int)vs.size())];
  const int buffer = c.pick(3);
  const std::vector<Value> args{v};
  static const std::vector<Named> none;
  const Result want = Parser(f, args, none).run();
  printed.clear();
  cookie_io_functions_t io{};
  io.write = sink;
  FILE* out = fopencookie(nullptr, "w", io);
  static char small[8];
  setvbuf(out, buffer == 0 ? nullptr : small, buffer == 0 ? _IONBF : buffer == 1 ? _IOLBF : _IOFBF, buffer == 0 ? 0 : 8);
  FILE* const save = stdout;
  bool thrown = false;
  stdout = out;
  with(v, [&](const auto& x) {
    try { il::print(f, x); } catch (fmt::FormatError&) { thrown = true; }
  });
  stdout = save;
  fclose(out);
  if (thrown) MC_CHECK(c, printed.empty(), "something was printed for a malformed format");
  judge(c, f, want, printed, thrown, args);
}
MC_SUITE("printing", printing, 1, 1, true, 2);
