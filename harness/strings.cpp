// P11 (and, with CHECK_TYPE, the history part of P12): il::String against a reference byte string.
#include <il/String.h>
#include <il/container/string/algorithmString.h>
#include <string>
#include <utility>
#include <vector>
#include "ilmc.h"
using il::int_t;
using mc::Ctx;
using S = il::String;
using std::string;

static bool ref_utf8(const string& s) {
  for (size_t i = 0; i < s.size();) {
    const unsigned char a = s[i];
    int n = a < 0x80 ? 1 : a >= 0xC2 && a <= 0xDF ? 2 : a >= 0xE0 && a <= 0xEF ? 3 : a >= 0xF0 && a <= 0xF4 ? 4 : 0;
    if (!n || i + n > s.size()) return false;
    unsigned cp = n == 1 ? a : a & (0x7F >> n);
    for (int k = 1; k < n; ++k) { if (((unsigned char)s[i + k] & 0xC0) != 0x80) return false; cp = cp << 6 | ((unsigned char)s[i + k] & 0x3F); }
    if ((n == 3 && (cp < 0x800 || (cp >= 0xD800 && cp <= 0xDFFF))) || (n == 4 && (cp < 0x10000 || cp > 0x10FFFF))) return false;
    i += n;
  }
  return true;
}
static bool ref_ascii(const string& s) { for (unsigned char c : s) if (c >= 128) return false; return true; }
static string enc(unsigned r) {
  string s;
  if (r < 0x80) s += (char)r;
  else if (r < 0x800) { s += (char)(0xC0 | r >> 6); s += (char)(0x80 | (r & 63)); }
  else if (r < 0x10000) { s += (char)(0xE0 | r >> 12); s += (char)(0x80 | (r >> 6 & 63)); s += (char)(0x80 | (r & 63)); }
  else { s += (char)(0xF0 | r >> 18); s += (char)(0x80 | (r >> 12 & 63)); s += (char)(0x80 | (r >> 6 & 63)); s += (char)(0x80 | (r & 63)); }
  return s;
}
static string show(const string& s) { string r = "\""; for (unsigned char c : s) { char b[8]; if (c >= 32 && c < 127) r += (char)c; else { snprintf(b, 8, "\\x%02x", c); r += b; } } return r + "\""; }

static void verify(Ctx& c, const S& s, const string& r, const char* name) {
  MC_CHECK(c, s.size() == (int_t)r.size(), "%s: size %ld, expected %zu (%s)", name, (long)s.size(), r.size(), show(r).c_str());
  MC_CHECK(c, s.capacity() >= s.size(), "%s: capacity %ld below the size %ld", name, (long)s.capacity(), (long)s.size());
  MC_CHECK(c, s.isEmpty() == r.empty(), "%s: isEmpty() is wrong", name);
  const string got(s.data(), s.size());
  MC_CHECK(c, got == r, "%s: holds %s, expected %s", name, show(got).c_str(), show(r).c_str());
  MC_CHECK(c, s.asCString() == s.data() && s.data()[s.size()] == '\0', "%s: the character after the last one is not the null character", name);
  MC_CHECK(c, s.view().data() == s.data() && s.view().size() == s.size(), "%s: view() is another range", name);
#ifdef CHECK_TYPE
  const il::StringType t = s.type();
  MC_CHECK(c, t == il::StringType::Ascii || t == il::StringType::Utf8 || t == il::StringType::Wtf8 || t == il::StringType::Byte, "%s: no known encoding", name);
  if (t == il::StringType::Ascii) MC_CHECK(c, ref_ascii(r), "%s: reports ASCII but holds %s", name, show(r).c_str());
  if (t == il::StringType::Utf8) MC_CHECK(c, ref_utf8(r), "%s: reports UTF-8 but holds %s", name, show(r).c_str());
  MC_CHECK(c, s.isAscii() == (t == il::StringType::Ascii) && s.isUtf8() == (t == il::StringType::Ascii || t == il::StringType::Utf8), "%s: isAscii/isUtf8 disagree with type()", name);
#endif
}
static const string kAscii = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
struct Piece { string s; il::StringType t; };
static const std::vector<Piece>& pieces() {
  static std::vector<Piece> v;
  if (v.empty()) {
    for (int n : {0, 1, 3, 21, 22, 23, 41}) v.push_back({kAscii.substr(0, n), il::StringType::Ascii});
    string u; for (int i = 0; i < 11; ++i) u += enc(0xE9);
    v.push_back({u, il::StringType::Utf8});                       // 22 bytes
    v.push_back({u + enc(0x20AC), il::StringType::Utf8});         // 25 bytes
    v.push_back({enc(0x1F600), il::StringType::Utf8});
    v.push_back({string("\xFF\x00\x80", 3), il::StringType::Byte});
#ifdef CHECK_TYPE
    v.push_back({"\xED\xA0\x80", il::StringType::Wtf8});
#endif
  }
  return v;
}
static size_t boundary(const string& r, size_t i) { while (i > 0 && i < r.size() && ((unsigned char)r[i] & 0xC0) == 0x80) --i; return i; }
static size_t place(Ctx& c, const string& r) { const int k = c.pick(4); return boundary(r, k == 0 ? 0 : k == 1 ? r.size() / 2 : k == 2 ? r.size() : (r.size() ? 1 : 0)); }
static string key(const S& s) { return std::to_string(s.capacity()) + (s.isSmall() ? "s" : "l") + std::to_string((int)s.type()) + string(s.data(), s.size()) + "|"; }
static const char kLit22[] = "0123456789012345678901", kLit23[] = "01234567890123456789012";
static const int runes[] = {0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF};

static void build(Ctx& c, S& a, string& ra, int kind) {
  auto P = [&](int i) { ra = pieces()[i].s; return S(pieces()[i].t, ra.data(), (int_t)ra.size()); };
  switch (kind) {
    case 0: break;
    case 1: a = P(2); break;
    case 2: a = P(3); break;
    case 3: a = P(4); break;
    case 4: a = P(5); break;
    case 5: a.Reserve(40); a.Append(il::StringType::Ascii, "ab", 2); ra = "ab"; break;
    case 6: a = P(6); a.Clear(); ra.clear(); break;
    case 7: { a = P(6); S z{std::move(a)}; ra.clear(); if (a.size() != 0) ra = string(a.data(), a.size()); break; }
    case 8: a = P(7); break;
    case 9: a = P(8); break;
    case 10: a = kLit23; ra = kLit23; break;
    case 11: { a = S('q'); ra = "q"; break; }
    case 12: { a = S(il::StringType::Ascii, "typed literal"); ra = "typed literal"; break; }
    case 13: { a = P(10); break; }
  }
  c.log("built %s (capacity %ld)", show(ra).c_str(), (long)a.capacity());
}
template <bool full>
static void body(Ctx& c) {
  S a, b;
  string ra, rb;
  c.log("a:"); build(c, a, ra, c.pick(14));
  c.log("b:"); build(c, b, rb, c.of({0, 1, 4, 5, 8}));
  verify(c, a, ra, "a"); verify(c, b, rb, "b");
  for (int step = 0; step < c.bound; ++step) {
    c.state(key(a) + key(b), c.bound - step);
    switch (c.pick(22)) {
      case 0: c.log("Append('x')"); a.Append('x'); ra += 'x'; break;
      case 1: { const int r = runes[c.pick(8)]; c.log("Append(rune %x)", r); a.Append(r); ra += enc(r); break; }
      case 2: { const int_t n = c.of({0, 1, 2, 22}); c.log("Append(%ld, 'y')", (long)n); a.Append(n, 'y'); ra += string(n, 'y'); break; }
      case 3: { const int_t n = c.of({0, 1, 2, 3, 8}); const int r = runes[c.pick(8)]; c.log("Append(%ld, rune %x)", (long)n, r); a.Append(n, r); for (int_t k = 0; k < n; ++k) ra += enc(r); break; }
      case 4: { const int k = c.pick(4); c.log("Append(literal %d)", k); if (k == 0) { a.Append(""); } if (k == 1) { a.Append("lit\xC3\xA9"); ra += "lit\xC3\xA9"; } if (k == 2) { a.Append(kLit23); ra += kLit23; } if (k == 3) { a.Append(il::StringType::Ascii, "typed"); ra += "typed"; } break; }
      case 5: { const Piece& p = c.of(pieces()); c.log("Append(type %d, %s)", (int)p.t, show(p.s).c_str()); a.Append(p.t, p.s.data(), (int_t)p.s.size()); ra += p.s; break; }
      case 6: {
        const size_t i = place(c, ra), j = boundary(ra, c.flip() ? ra.size() : (i + ra.size()) / 2);
        if (j < i) break;
        const int how = c.pick(3);
        c.log("Append(own part [%zu, %zu)) variant %d", i, j, how);
        const string part = ra.substr(i, j - i), old = ra;
        if (how == 0) { a.Append(a.subview(i, j)); ra += part; }
        if (how == 1) { a.Append(a.type(), a.data() + i, j - i); ra += part; }
        if (how == 2) { a.Append(a); ra += old; }
        break;
      }
      case 7: {
        const int how = c.pick(4);
        const string old = ra;
        c.log("Append of several views %d", how);
        if (how == 0) { a.Append(b, a); ra = old + rb + old; }
        if (how == 1) { a.Append(a, b, a); ra = old + old + rb + old; }
        if (how == 2) { a.Append(b, "literal"); ra = old + rb + "literal"; }
        if (how == 3) { a.Append("x", a, b); ra = old + "x" + old + rb; }
        break;
      }
      case 8: { const size_t i = place(c, ra); c.log("Insert(%zu, 'z')", i); a.Insert(i, 'z'); ra.insert(i, 1, 'z'); break; }
      case 9: { const size_t i = place(c, ra); const int_t n = c.of({0, 1, 2, 22}); c.log("Insert(%zu, %ld, 'z')", i, (long)n); a.Insert(i, n, 'z'); ra.insert(i, n, 'z'); break; }
      case 10: { const size_t i = place(c, ra); const int k = c.pick(3); c.log("Insert(%zu, literal %d)", i, k); if (k == 0) a.Insert(i, ""); if (k == 1) { a.Insert(i, "<\xE2\x82\xAC>"); ra.insert(i, "<\xE2\x82\xAC>"); } if (k == 2) { a.Insert(i, kLit22); ra.insert(i, kLit22); } break; }
      case 11: { const size_t i = place(c, ra); const Piece& p = c.of(pieces()); c.log("Insert(%zu, type %d, %s)", i, (int)p.t, show(p.s).c_str()); if (c.flip()) a.Insert(i, p.t, p.s.data(), (int_t)p.s.size()); else a.Insert(i, il::StringView(p.t, p.s.data(), (int_t)p.s.size())); ra.insert(i, p.s); break; }
      case 12: {
        const size_t at = place(c, ra), i = boundary(ra, c.of({0, 1, 2}) * ra.size() / 3), j = boundary(ra, c.flip() ? ra.size() : (i + ra.size() + 1) / 2);
        if (j < i) break;
        c.log("Insert(%zu, own part [%zu, %zu))", at, i, j);
        const string part = ra.substr(i, j - i);
        a.Insert(at, a.subview(i, j));
        ra.insert(at, part);
        break;
      }
      case 13: { const int_t r = c.of({0, 10, 22, 23, 24, 25, 41, 100}); c.log("Reserve(%ld)", (long)r); const int_t old = a.capacity(); a.Reserve(r); MC_CHECK(c, a.capacity() >= r && a.capacity() >= old, "capacity %ld after Reserve(%ld) from %ld", (long)a.capacity(), (long)r, (long)old); break; }
      case 14: c.log("Clear()"); a.Clear(); ra.clear(); break;
      case 15: {
        const int how = c.pick(6);
        c.log("assignment %d", how);
        if (how == 0) { a = b; ra = rb; }
        if (how == 1) { b = a; rb = ra; }
        if (how == 2) { S& r = a; a = r; }
        if (how == 3) { a = std::move(b); ra = rb; b.Append('m'); rb = string(b.data(), b.size()); MC_CHECK(c, !rb.empty() && rb.back() == 'm', "a moved-from string cannot be appended to"); b = S(); rb.clear(); }
        if (how == 4) { S& r = a; a = std::move(r); }
        if (how == 5) { S t{a}; S u{std::move(t)}; verify(c, u, ra, "moved copy"); t = u; verify(c, t, ra, "assigned moved-from"); u.Append('!'); verify(c, t, ra, "copy"); b = std::move(u); rb = ra + "!"; }
        break;
      }
      case 16: { const int k = c.pick(5); c.log("a = literal %d", k); if (k == 0) { a = ""; ra = ""; } if (k == 1) { a = "l\xC3\xA9!"; ra = "l\xC3\xA9!"; } if (k == 2) { a = kLit22; ra = kLit22; } if (k == 3) { a = kLit23; ra = kLit23; } if (k == 4) { a = "a literal longer than all of the capacities that are around"; ra = "a literal longer than all of the capacities that are around"; } break; }
      case 17: {
        const size_t i = place(c, ra), j = boundary(ra, c.flip() ? ra.size() : (i + ra.size()) / 2);
        if (j < i) break;
        const int how = c.pick(3);
        c.log("take [%zu, %zu) variant %d", i, j, how);
        const string part = ra.substr(i, j - i);
        const il::StringView v = a.subview(i, j);
        MC_CHECK(c, string(v.data(), v.size()) == part, "subview(%zu, %zu) is %s, expected %s", i, j, show(string(v.data(), v.size())).c_str(), show(part).c_str());
        if (how == 0) { S s = a.substring(i, j); verify(c, s, part, "substring"); b = s; rb = part; }
        if (how == 1) { a = a.substring(i, j); ra = part; }
        if (how == 2) { a = S(a.subview(i, j)); ra = part; }
        break;
      }
      case 18: {
        const int how = c.pick(5);
        c.log("join variant %d", how);
        if (how == 0) { a = il::join(a, b); ra = ra + rb; }
        if (how == 1) { a = il::join(b, "-", a); ra = rb + "-" + ra; }
        if (how == 2) { a = il::join(a, b, "+", a); ra = ra + rb + "+" + ra; }
        if (how == 3) { a = il::join("[", a, ",", b, "]"); ra = "[" + ra + "," + rb + "]"; }
        if (how == 4) { b = il::join(a, b, "x", "yz", b, a); rb = ra + rb + "xyz" + rb + ra; }
        break;
      }
      case 19: { if (ra.empty() || !ref_ascii(ra)) break; c.log("Data()[last] = '#'"); a.Data()[ra.size() - 1] = '#'; ra.back() = '#'; break; }
      case 20: { const int k = c.pick(2); c.log("toString %d", k); if (k == 0) { a = il::toString(ra); } else if (ra.find('\0') == string::npos) a = il::toString(ra.c_str()); break; }
      case 21: { if (ra.size() > 60) break; c.log("grow by 100 single appends"); for (int k = 0; k < 100; ++k) { a.Append('.'); ra += '.'; } break; }
    }
    verify(c, a, ra, "a"); verify(c, b, rb, "b");
    if (ra.size() > 400 || rb.size() > 400) return;
  }
}
// Every length, from the empty string to what follows two growths
template <size_t N> struct Literal {
  char s[N + 1];
  Literal() { for (size_t i = 0; i < N; ++i) s[i] = char('a' + (i * 7 + N) % 26); s[N] = '\0'; }
};
enum { kConstruct, kConstructTyped, kAssign, kAppend, kAppendTyped, kInsert, kJoin };
template <size_t N> static void literal(S& a, string& ra, int what, size_t i) {
  static const Literal<N> l;
  const string r(l.s);
  switch (what) {
    case kConstruct: { S z(l.s); a = std::move(z); ra = r; break; }
    case kConstructTyped: { S z(il::StringType::Ascii, l.s); a = std::move(z); ra = r; break; }
    case kAssign: a = l.s; ra = r; break;
    case kAppend: a.Append(l.s); ra += r; break;
    case kAppendTyped: a.Append(il::StringType::Ascii, l.s); ra += r; break;
    case kInsert: a.Insert((int_t)i, l.s); ra.insert(i, r); break;
    default: a = il::join(a, l.s, a); ra = ra + r + ra; break;
  }
}
template <size_t... N> static void dispatch(std::index_sequence<N...>, size_t n, S& a, string& ra, int what, size_t i) {
  typedef void (*F)(S&, string&, int, size_t);
  static const F f[] = {literal<N>...};
  f[n](a, ra, what, i);
}
static void lengths(Ctx& c) {
  const int most = c.thorough ? 70 : 48;
  const int n = c.pick(most + 1), k = c.pick(most + 1), first = c.pick(3);
  S a;
  string ra;
  c.log("a string of %d characters, built in way %d, then %d characters", n, first, k);
  if (first == 0) dispatch(std::make_index_sequence<71>(), (size_t)n, a, ra, c.pick(2), 0);
  if (first == 1) { ra = (kAscii + kAscii).substr(3, n); a = S(il::StringType::Ascii, ra.data(), n); }
  if (first == 2) { for (int i = 0; i < n; ++i) { a.Append(char('A' + i % 26)); ra += char('A' + i % 26); } }
  verify(c, a, ra, "a");
  const string piece = (kAscii + kAscii).substr(11, k);
  const S b(il::StringType::Ascii, piece.data(), k);
  verify(c, b, piece, "b");
  const int op = c.pick(15);
  const size_t at = op == 6 || op == 12 || op == 13 || op == 14 ? (size_t)c.of({0, n / 2, n}) : 0;
  c.log("operation %d at %zu", op, at);
  if (op <= 6) dispatch(std::make_index_sequence<71>(), (size_t)k, a, ra, op == 6 ? kInsert : op == 5 ? kJoin : op, 0 + at);
  if (op == 7) { a.Append(il::StringType::Ascii, piece.data(), k); ra += piece; }
  if (op == 8) { a.Append(b); ra += piece; }
  if (op == 9) { a.Append((int_t)k, 'z'); ra += string(k, 'z'); }
  if (op == 10) { a.Append((int_t)k, 0x20AC); for (int i = 0; i < k; ++i) ra += enc(0x20AC); }
  if (op == 11) { a.Append(b, a); ra = ra + piece + ra; }
  if (op == 12) { a.Insert((int_t)at, b); ra.insert(at, piece); }
  if (op == 13) { a.Insert((int_t)at, (int_t)k, 'y'); ra.insert(at, string(k, 'y')); }
  if (op == 14) { a.Insert((int_t)at, il::StringType::Ascii, piece.data(), k); ra.insert(at, piece); }
  verify(c, a, ra, "a");
  S d = a;
  verify(c, d, ra, "a copy");
  d = b;
  verify(c, d, piece, "a copy of b over it");
  d = std::move(a);
  verify(c, d, ra, "a moved");
}
// Lengths beyond what 8 and 16 bits can count
static void very_long(Ctx& c) {
  const std::vector<int> sizes = {0, 5, 127, 128, 255, 256, 257, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 131073};
  const int n = c.of(sizes), k = c.of(sizes);
  auto text = [](int len, int from) { string s; for (int i = 0; i < len; ++i) s += kAscii[(i * 7 + i / 62 + from) % 62]; return s; };
  string ra = text(n, 3);
  const string piece = text(k, 11);
  c.log("a string of %d characters, then %d characters", n, k);
  S a(il::StringType::Ascii, ra.data(), n);
  const S b(il::StringType::Ascii, piece.data(), k);
  verify(c, a, ra, "a");
  verify(c, b, piece, "b");
  const int op = c.pick(16);
  c.log("operation %d", op);
  switch (op) {
    case 0: a.Append(il::StringType::Ascii, piece.data(), k); ra += piece; break;
    case 1: a.Append(b); ra += piece; break;
    case 2: a.Append((int_t)k, 'z'); ra += string(k, 'z'); break;
    case 3: { if (k > 66000) return; a.Append((int_t)k, 0x20AC); for (int i = 0; i < k; ++i) ra += enc(0x20AC); break; }
    case 4: a.Append(b, a); ra = ra + piece + ra; break;
    case 5: a.Insert((int_t)(n / 2), b); ra.insert(n / 2, piece); break;
    case 6: a.Insert(0, (int_t)k, 'y'); ra.insert(0, string(k, 'y')); break;
    case 7: a.Insert((int_t)n, il::StringType::Ascii, piece.data(), k); ra.insert(n, piece); break;
    case 8: a = b; ra = piece; break;
    case 9: a = il::join(b, "-", a); ra = piece + "-" + ra; break;
    case 10: a = il::join(a, b, "x", "yz", b, a); ra = ra + piece + "xyz" + piece + ra; break;
    case 11: a.Reserve(k); MC_CHECK(c, a.capacity() >= k, "capacity %ld after Reserve(%d)", (long)a.capacity(), k); for (int i = 0; i < 3; ++i) { a.Append('r'); ra += 'r'; } break;
    case 12: a.Append(b, a, b); ra = ra + piece + ra + piece; break;
    case 13: { if (k > n) return; a = a.substring(n - k, n); ra = ra.substr(n - k); break; }
    case 14: a = il::toString(piece); ra = piece; break;
    case 15: { if (k != 0) return; for (int i = 0; i < 300; ++i) { a.Append('.'); ra += '.'; } break; }
  }
  verify(c, a, ra, "a");
  S d = a;
  verify(c, d, ra, "a copy");
  d = b;
  verify(c, d, piece, "a copy of b over it");
  d = std::move(a);
  verify(c, d, ra, "a moved");
  d.Append('!'); ra += '!';
  verify(c, d, ra, "one more");
  MC_CHECK(c, d == d && !(d == b), "a long string does not compare equal to itself, or equals another one");
}
MC_SUITE("very long", very_long, 1, 1);
MC_SUITE("every length", lengths, 1, 1);
MC_SUITE("operations", body<true>, 2, 3);
