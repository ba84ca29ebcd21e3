// P14: il::UTF16String against a reference sequence of code units, and the conversions from and to UTF-8.
#include <il/unicode.h>
#include <string>
#include <vector>
#include "ilmc.h"
using il::int_t;
using mc::Ctx;
using S = il::UTF16String;
using std::string;
using std::u16string;

static bool scalar(long r) { return r >= 0 && r <= 0x10FFFF && !(r >= 0xD800 && r <= 0xDFFF); }
static string enc8(unsigned r) {
  string s;
  if (r < 0x80) s += (char)r;
  else if (r < 0x800) { s += (char)(0xC0 | r >> 6); s += (char)(0x80 | (r & 63)); }
  else if (r < 0x10000) { s += (char)(0xE0 | r >> 12); s += (char)(0x80 | (r >> 6 & 63)); s += (char)(0x80 | (r & 63)); }
  else { s += (char)(0xF0 | r >> 18); s += (char)(0x80 | (r >> 12 & 63)); s += (char)(0x80 | (r >> 6 & 63)); s += (char)(0x80 | (r & 63)); }
  return s;
}
static u16string enc16(unsigned r) {
  u16string s;
  if (r < 0x10000) s += (char16_t)r;
  else { s += (char16_t)(0xD800 + ((r - 0x10000) >> 10)); s += (char16_t)(0xDC00 + ((r - 0x10000) & 0x3FF)); }
  return s;
}
static string show(const u16string& s) { string r; char b[8]; for (char16_t u : s) { snprintf(b, 8, "%04X ", u); r += b; } return r; }
static u16string units(const S& s) { u16string r; for (int_t i = 0; i < s.size(); ++i) r += (char16_t)s.data()[i]; return r; }

static void verify(Ctx& c, const S& s, const u16string& r, const char* name) {
  MC_CHECK(c, s.size() == (int_t)r.size(), "%s: size %ld, expected %zu (%s)", name, (long)s.size(), r.size(), show(r).c_str());
  MC_CHECK(c, s.capacity() >= s.size(), "%s: capacity %ld below the size %ld", name, (long)s.capacity(), (long)s.size());
  MC_CHECK(c, s.isEmpty() == r.empty(), "%s: isEmpty() is wrong", name);
  MC_CHECK(c, units(s) == r, "%s: holds %s, expected %s", name, show(units(s)).c_str(), show(r).c_str());
  MC_CHECK(c, (const void*)s.asWString() == (const void*)s.data() && s.data()[s.size()] == 0, "%s: the unit after the last one is not null", name);
  int_t i = 0;
  size_t k = 0;
  while (k < r.size()) {
    unsigned want = r[k];
    size_t w = 1;
    if (want >= 0xD800 && want < 0xDC00) { want = 0x10000 + ((want - 0xD800) << 10) + (r[k + 1] - 0xDC00); w = 2; }
    MC_CHECK(c, i == (int_t)k && s.rune(i) == (int)want, "%s: the rune at %ld is U+%04X, expected U+%04X", name, (long)i, s.rune(i), want);
    i = s.nextRune(i);
    k += w;
  }
  MC_CHECK(c, i == (int_t)r.size(), "%s: stepping does not end at the end", name);
}

static void code_points(Ctx& c) {
  const int block = c.pick(0x1100);
  for (int k = 0; k < 256; ++k) {
    const int r = block * 256 + k;
    if (!scalar(r)) continue;
    const u16string e = enc16(r);
    const string e8 = enc8(r);
    S s;
    s.Append(r);
    MC_CHECK(c, units(s) == e, "Append(U+%04X) does not append its UTF-16 encoding", r);
    S t(u"ab");
    t.Append((int_t)3, r);
    t.Append('c');
    t.Append((int_t)0, r);
    verify(c, t, u"ab" + e + e + e + u"c", "repeated");
    S u(u"0123456789");
    u.Append(r);
    u.Append((int_t)2, r);
    verify(c, u, u"0123456789" + e + e + e, "across the inline limit");
    il::String src;
    src.Append(r);
    verify(c, il::toUtf16(src), e, "toUtf16 of one rune");
    src.Append('z');
    src.Append((int_t)8, r);
    u16string want = e + u"z";
    string want8 = e8 + "z";
    for (int q = 0; q < 8; ++q) { want += e; want8 += e8; }
    const S w = il::toUtf16(src);
    verify(c, w, want, "toUtf16");
    const il::String back = il::toUtf8(w);
    MC_CHECK(c, string(back.data(), back.size()) == want8 && back.asCString()[back.size()] == 0, "toUtf8(toUtf16(text with U+%04X)) is another text", r);
    MC_CHECK(c, back.type() == (r < 128 ? il::StringType::Ascii : il::StringType::Utf8), "wrong encoding reported for U+%04X", r);
  }
}
MC_SUITE("every code point", code_points, 1, 1, true, 1);

static const int R[] = {0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x10FFFF};
static void texts(Ctx& c) {
  const int pad = c.of({0, 9, 10, 11, 20, 21, 22, 23});
  il::String s;
  u16string w;
  string b;
  s.Append((int_t)pad, '.');
  b.append(pad, '.');
  w.append(pad, u'.');
  const int n = c.pick(c.bound + 1);
  for (int k = 0; k < n; ++k) { const int r = R[c.pick(13)]; s.Append(r); w += enc16(r); b += enc8(r); }
  const S u = il::toUtf16(s);
  verify(c, u, w, "toUtf16");
  const il::String t = il::toUtf8(u);
  MC_CHECK(c, string(t.data(), t.size()) == b, "toUtf8 gives another text");
  MC_CHECK(c, t.type() == s.type() && t == s, "the round trip changes the string");
  verify(c, il::toUtf16(t), w, "second toUtf16");
  const il::String t2(il::StringType::Utf8, b.data(), (int_t)b.size());
  verify(c, il::toUtf16(t2), w, "toUtf16 of bytes");
}
MC_SUITE("texts", texts, 3, 5);

static const char16_t* const kLit[] = {u"", u"a", u"0123456789", u"0123456789a", u"0123456789ab", u"\xD83D\xDE00", u"0123456789\xD83D\xDE00", u"a string that is longer than all of the others, by far"};
static string key(const S& s) { const u16string u = units(s); return std::to_string(s.capacity()) + (s.isSmall() ? "s" : "l") + string((const char*)u.data(), 2 * u.size()) + "|"; }
static void build(Ctx& c, S& a, u16string& ra, int kind) {
  switch (kind) {
    case 0: break;
    case 1: case 2: case 3: case 4: case 5: { ra = kLit[kind]; S t(kLit[kind]); a = t; break; }
    case 6: a.Reserve(40); a.Append(u"xy"); ra = u"xy"; break;
    case 7: { S t(kLit[7]); a = t; S z{std::move(a)}; a = S(); break; }
    case 8: { S t(kLit[7]); S z{std::move(t)}; t.Append('m'); ra = units(t); MC_CHECK(c, !ra.empty() && ra.back() == 'm', "a moved-from string cannot be appended to"); a = t; break; }
    case 9: { S t(kLit[7]); a = std::move(t); ra = kLit[7]; break; }
    case 10: { S t; t.Reserve(40); t.Append(u"in the heap"); S u{std::move(t)}; a = std::move(u); ra = u"in the heap"; break; }
  }
  c.log("built %s(capacity %ld)", show(ra).c_str(), (long)a.capacity());
}
static void ops(Ctx& c) {
  S a, b;
  u16string ra, rb;
  c.log("a:"); build(c, a, ra, c.pick(11));
  c.log("b:"); build(c, b, rb, c.of({0, 1, 4, 6}));
  verify(c, a, ra, "a"); verify(c, b, rb, "b");
  for (int step = 0; step < c.bound; ++step) {
    c.state(key(a) + key(b), c.bound - step);
    switch (c.pick(13)) {
      case 0: c.log("Append('x')"); a.Append('x'); ra += u'x'; break;
      case 1: { const int r = R[c.pick(13)]; c.log("Append(U+%04X)", r); a.Append(r); ra += enc16(r); break; }
      case 2: { const int_t n = c.of({0, 1, 2, 11, 12}); c.log("Append(%ld, 'y')", (long)n); a.Append(n, 'y'); ra.append(n, u'y'); break; }
      case 3: { const int_t n = c.of({0, 1, 2, 5, 6}); const int r = c.of({0x41, 0xFFFF, 0x10FFFF}); c.log("Append(%ld, U+%04X)", (long)n, r); a.Append(n, r); for (int_t k = 0; k < n; ++k) ra += enc16(r); break; }
      case 4: { const int k = c.pick(8); c.log("Append(literal %d)", k); a.Append(kLit[k]); ra += kLit[k]; break; }
      case 5: c.log("Append(b)"); a.Append(b); ra += rb; break;
      case 6: c.log("Append(a)"); a.Append(a); ra += u16string(ra); break;
      case 7: { if (ra.find(u'\0') != u16string::npos) break; const size_t i = c.flip() ? ra.size() / 2 : 0; if (i < ra.size() && (ra[i] & 0xFC00) == 0xDC00) break; c.log("Append(a.asWString() + %zu)", i); const u16string t = ra.substr(i); a.Append(a.asWString() + i); ra += t; break; }
      case 8: { const int_t r = c.of({0, 10, 11, 12, 13, 40, 100}); c.log("Reserve(%ld)", (long)r); const int_t old = a.capacity(); a.Reserve(r); MC_CHECK(c, a.capacity() >= r && a.capacity() >= old, "capacity %ld after Reserve(%ld) from %ld", (long)a.capacity(), (long)r, (long)old); break; }
      case 9: {
        const int how = c.pick(6);
        c.log("assignment %d", how);
        if (how == 0) { a = b; ra = rb; }
        if (how == 1) { b = a; rb = ra; }
        if (how == 2) { S& r = a; a = r; }
        if (how == 3) { a = std::move(b); ra = rb; b.Append('m'); rb = units(b); MC_CHECK(c, !rb.empty() && rb.back() == u'm', "a moved-from string cannot be appended to"); b = S(); rb.clear(); }
        if (how == 4) { S& r = a; a = std::move(r); }
        if (how == 5) { S t{a}; S u{std::move(t)}; verify(c, u, ra, "moved copy"); t = u; verify(c, t, ra, "assigned moved-from"); u.Append('!'); verify(c, t, ra, "copy"); b = std::move(u); rb = ra + u"!"; }
        break;
      }
      case 10: { const int k = c.pick(8); c.log("a = literal %d", k); a = S(kLit[k]); ra = kLit[k]; break; }
      case 11: c.log("round trip"); b = il::toUtf16(il::toUtf8(a)); rb = ra; break;
      case 12: { if (ra.size() > 60) break; c.log("grow by 50 single appends"); for (int k = 0; k < 50; ++k) { a.Append('.'); ra += u'.'; } break; }
    }
    verify(c, a, ra, "a"); verify(c, b, rb, "b");
    MC_CHECK(c, (a == b) == (ra == rb) && (b == a) == (ra == rb), "equality is wrong");
    if (ra.size() > 300 || rb.size() > 300) return;
  }
}
MC_SUITE("operations", ops, 3, 4);

// every length of the text and of the piece
static void lengths(Ctx& c) {
  const int max = c.thorough ? 70 : 30;
  const int n = c.pick(c.thorough ? 140 : 60), how = c.pick(9);
  const int wide = c.pick(2);
  c.log("%d units, operation %d, wide %d", n, how, wide);
  auto piece = [&](int m, int salt) { u16string w; while ((int)w.size() < m) { if (wide && (int)w.size() + 2 <= m && w.size() % 3 == 0) w += enc16(0x10000 + 7 * (salt + (int)w.size())); else w += (char16_t)(wide ? 0x100 + salt + (int)w.size() : 'a' + (salt + (int)w.size()) % 26); } return w; };
  auto make = [&](const u16string& w) { S s(w.c_str()); return s; };
  for (int m = 0; m <= max; ++m) {
    const u16string x = piece(n, 0), y = piece(m, 5);
    S a = make(x), b = make(y);
    verify(c, a, x, "the text");
    u16string ra = x, rb = y;
    switch (how) {
      case 0: a.Append(b); ra += y; break;
      case 1: a.Append(y.c_str()); ra += y; break;
      case 2: a = b; ra = rb; a.Append('z'); ra += u'z'; break;
      case 3: a = std::move(b); ra = rb; b = S(); rb.clear(); break;
      case 4: { S z{a}; z = b; verify(c, z, y, "assigned"); S u{std::move(z)}; verify(c, u, y, "moved"); a = std::move(u); ra = y; break; }
      case 5: a.Append((int_t)m, 'q'); ra.append((size_t)m, u'q'); break;
      case 6: a.Append((int_t)m, 0x1F600); for (int k = 0; k < m; ++k) ra += enc16(0x1F600); break;
      case 7: a.Reserve((int_t)m); a.Append(b); ra += y; break;
      default: { const int_t r = a.capacity(); for (int k = 0; k < m; ++k) { a.Append('.'); ra += u'.'; } MC_CHECK(c, a.capacity() >= r, "the capacity decreases"); b = il::toUtf16(il::toUtf8(a)); rb = ra; break; }
    }
    verify(c, a, ra, "a");
    verify(c, b, rb, "b");
    MC_CHECK(c, (a == b) == (ra == rb), "equality is wrong");
  }
}
MC_SUITE("every length", lengths, 1, 1);

// longer texts with one code point at each place: the conversions
static void places(Ctx& c) {
  static const std::vector<int> some{30, 46, 47, 48, 64, 65, 127, 128, 129, 255, 257, 1000};
  const int n = c.thorough ? 30 + c.pick(270) : c.of(some), r = R[c.pick(13)], fill = c.of({0x78, 0xE9, 0x20AC, 0x1F600});
  c.log("U+%04X among %d times U+%04X", r, n, fill);
  for (int at = 0; at <= n; at += n > 300 && at > 40 && at < n - 40 ? 37 : 1) {
    string b;
    u16string w;
    for (int k = 0; k <= n; ++k) { const int q = k == at ? r : fill; b += enc8(q); w += enc16(q); }
    const il::String s(il::StringType::Utf8, b.data(), (int_t)b.size());
    const S u = il::toUtf16(s);
    MC_CHECK(c, units(u) == w && u.data()[u.size()] == 0, "toUtf16 gives another text for the code point at %d", at);
    const il::String t = il::toUtf8(u);
    MC_CHECK(c, string(t.data(), t.size()) == b && t == s, "toUtf8 gives another text for the code point at %d", at);
  }
}
MC_SUITE("every place in longer texts", places, 1, 1);
