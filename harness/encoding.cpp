// P12: UTF-8 encoding, decoding and validity predicates against the Unicode standard's definition.
#include <il/String.h>
#include <il/container/string/algorithmString.h>
#include <string>
#include <vector>
#include "ilmc.h"
using il::int_t;
using mc::Ctx;
using std::string;

static string enc(unsigned r) {
  string s;
  if (r < 0x80) s += (char)r;
  else if (r < 0x800) { s += (char)(0xC0 | r >> 6); s += (char)(0x80 | (r & 63)); }
  else if (r < 0x10000) { s += (char)(0xE0 | r >> 12); s += (char)(0x80 | (r >> 6 & 63)); s += (char)(0x80 | (r & 63)); }
  else { s += (char)(0xF0 | r >> 18); s += (char)(0x80 | (r >> 12 & 63)); s += (char)(0x80 | (r >> 6 & 63)); s += (char)(0x80 | (r & 63)); }
  return s;
}
static bool scalar(long r) { return r >= 0 && r <= 0x10FFFF && !(r >= 0xD800 && r <= 0xDFFF); }
// table 3-7 of the Unicode standard
static bool ref_utf8(const unsigned char* s, size_t n) {
  size_t i = 0;
  auto in = [&](size_t k, int lo, int hi) { return k < n && s[k] >= lo && s[k] <= hi; };
  while (i < n) {
    if (in(i, 0, 0x7F)) { i += 1; continue; }
    if (in(i, 0xC2, 0xDF) && in(i + 1, 0x80, 0xBF)) { i += 2; continue; }
    if (in(i, 0xE0, 0xE0) && in(i + 1, 0xA0, 0xBF) && in(i + 2, 0x80, 0xBF)) { i += 3; continue; }
    if (in(i, 0xE1, 0xEC) && in(i + 1, 0x80, 0xBF) && in(i + 2, 0x80, 0xBF)) { i += 3; continue; }
    if (in(i, 0xED, 0xED) && in(i + 1, 0x80, 0x9F) && in(i + 2, 0x80, 0xBF)) { i += 3; continue; }
    if (in(i, 0xEE, 0xEF) && in(i + 1, 0x80, 0xBF) && in(i + 2, 0x80, 0xBF)) { i += 3; continue; }
    if (in(i, 0xF0, 0xF0) && in(i + 1, 0x90, 0xBF) && in(i + 2, 0x80, 0xBF) && in(i + 3, 0x80, 0xBF)) { i += 4; continue; }
    if (in(i, 0xF1, 0xF3) && in(i + 1, 0x80, 0xBF) && in(i + 2, 0x80, 0xBF) && in(i + 3, 0x80, 0xBF)) { i += 4; continue; }
    if (in(i, 0xF4, 0xF4) && in(i + 1, 0x80, 0x8F) && in(i + 2, 0x80, 0xBF) && in(i + 3, 0x80, 0xBF)) { i += 4; continue; }
    return false;
  }
  return true;
}

static void code_points(Ctx& c) {
  const int block = c.pick(0x1102);  // 256 code points each, two blocks after the last one
  for (int k = 0; k < 256; ++k) {
    const int r = block * 256 + k;
    MC_CHECK(c, il::isRune(r) == scalar(r), "isRune(U+%04X) is %s", r, scalar(r) ? "false" : "true");
    MC_CHECK(c, !il::isRune(-1 - r), "isRune(%d) is true", -1 - r);
    if (!scalar(r)) continue;
    const string e = enc(r);
    il::String s;
    s.Append(r);
    MC_CHECK(c, string(s.data(), s.size()) == e, "Append(U+%04X) does not append its UTF-8 encoding", r);
    MC_CHECK(c, s.type() == (r < 0x80 ? il::StringType::Ascii : il::StringType::Utf8), "U+%04X: wrong encoding reported", r);
    MC_CHECK(c, il::isUtf8(e.data(), (int_t)e.size()) && (r == 0 || il::isUtf8(e.c_str())), "the encoding of U+%04X is not seen as UTF-8", r);
    MC_CHECK(c, il::isAscii(e.data(), (int_t)e.size()) == (r < 128) && il::isAscii(e.c_str()) == (r < 128), "isAscii is wrong for U+%04X", r);
    il::String t(il::StringType::Ascii, "ab", 2);
    t.Append(3, r);
    t.Append('c');
    t.Append(0, r);
    MC_CHECK(c, string(t.data(), t.size()) == "ab" + e + e + e + "c", "Append(3, U+%04X) does not append three times its encoding", r);
    il::String u(il::StringType::Utf8, "0123456789012345678", 19);
    u.Append(r);
    u.Append(2, r);
    MC_CHECK(c, string(u.data(), u.size()) == "0123456789012345678" + e + e + e, "appending U+%04X across the inline limit is wrong", r);
    const il::StringView v = t.view();
    int_t i = 0;
    const int want[] = {'a', 'b', r, r, r, 'c'};
    for (int w : want) {
      MC_CHECK(c, i < v.size() && v.rune(i) == w, "stepping through text with U+%04X gives U+%04X, expected U+%04X", r, i < v.size() ? v.rune(i) : 0, w);
      const int_t j = v.nextRune(i);
      for (int_t k2 = i; k2 <= j; ++k2) MC_CHECK(c, t.isRuneBoundary(k2) == (k2 == i || k2 == j), "isRuneBoundary is wrong around U+%04X", r);
      i = j;
    }
    MC_CHECK(c, i == v.size(), "stepping does not end at the end of the text");
  }
}
MC_SUITE("every code point", code_points, 1, 1, true, 1);

static void far_runes(Ctx& c) {
  const int v[] = {-2147483647 - 1, -2147483647, 0x7fffffff, 0x7ffffffe, 0x10FFFF, 0x110000, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0x40000041, 0x20000000};
  for (int r : v) MC_CHECK(c, il::isRune(r) == scalar(r), "isRune(%d) is wrong", r);
}
MC_SUITE("far integers", far_runes, 1, 1);

static void bytes(Ctx& c) {
  static const unsigned char B[] = {0x00, 0x01, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFF};
  const int nb = sizeof B;
  const int n = c.pick(c.bound + 1);
  unsigned char* z = new unsigned char[n + 1];  // terminated
  unsigned char* e = new unsigned char[n ? n : 1];  // exactly the n bytes
  struct Free { unsigned char *a, *b; ~Free() { delete[] a; delete[] b; } } f{z, e};
  // the last two bytes are enumerated here, so that one execution covers a block
  const int outer = n > 2 ? n - 2 : 0;
  for (int k = 0; k < outer; ++k) z[k] = B[c.pick(nb)];
  const int inner = n - outer;
  const int total = inner == 2 ? nb * nb : inner == 1 ? nb : 1;
  for (int q = 0; q < total; ++q) {
    if (inner >= 1) z[outer] = B[q % nb];
    if (inner == 2) z[outer + 1] = B[q / nb];
    z[n] = 0;
    memcpy(e, z, n);
    const char* ec = (const char*)(n ? e : e + 1);
    bool ascii = true;
    for (int k = 0; k < n; ++k) ascii = ascii && z[k] < 128;
    char hex[64] = "";
    for (int k = 0; k < n; ++k) sprintf(hex + 3 * k, "%02X ", z[k]);
    MC_CHECK(c, il::isUtf8(ec, n) == ref_utf8(z, n), "isUtf8 of the bytes %sis %s", hex, ref_utf8(z, n) ? "false" : "true");
    MC_CHECK(c, il::isAscii(ec, n) == ascii, "isAscii of the bytes %sis wrong", hex);
    const size_t m = strlen((char*)z);
    bool ascii0 = true;
    for (size_t k = 0; k < m; ++k) ascii0 = ascii0 && z[k] < 128;
    MC_CHECK(c, il::isUtf8((const char*)z) == ref_utf8(z, m), "isUtf8 of the C string %sis %s", hex, ref_utf8(z, m) ? "false" : "true");
    MC_CHECK(c, il::isAscii((const char*)z) == ascii0, "isAscii of the C string %sis wrong", hex);
  }
}
MC_SUITE("every boundary byte string", bytes, 4, 6, true, 1);

static void walks(Ctx& c) {
  static const int R[] = {1, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF};
  const int pad = c.of({0, 16, 20, 21, 22, 23});
  il::String s;
  std::vector<int> want(pad, '.');
  if (c.flip()) s.Append((int_t)pad, '.'); else for (int k = 0; k < pad; ++k) s.Append('.');
  bool ascii = true;
  for (int k = 0; k < c.bound; ++k) {
    const int r = R[c.pick(11)];
    const int times = k == 0 ? 1 + c.pick(3) : 1;
    if (times == 1) s.Append(r); else s.Append((int_t)times, r);
    for (int q = 0; q < times; ++q) want.push_back(r);
    ascii = ascii && r < 0x80;
  }
  size_t k = 0;
  const il::StringView v = s.view();
  for (int_t i = 0; i < v.size(); i = v.nextRune(i), ++k) MC_CHECK(c, k < want.size() && v.rune(i) == want[k], "rune number %zu is U+%04X", k, v.rune(i));
  MC_CHECK(c, k == want.size(), "%zu runes visited, expected %zu", k, want.size());
  MC_CHECK(c, s.type() == (ascii ? il::StringType::Ascii : il::StringType::Utf8), "wrong encoding reported");
  MC_CHECK(c, il::isUtf8(s.data(), s.size()) && il::isUtf8(s.asCString()), "appended code points do not form UTF-8");
}
MC_SUITE("stepping", walks, 3, 5);

static void joins(Ctx& c) {
  using T = il::StringType;
  const T t[] = {T::Ascii, T::Utf8, T::Wtf8, T::Byte};
  int x[6]; for (int& k : x) k = c.pick(4);
  auto m = [&](int n) { int r = 0; for (int i = 0; i < n; ++i) r = x[i] > r ? x[i] : r; return t[r]; };
  MC_CHECK(c, il::joinType(t[x[0]], t[x[1]]) == m(2), "joinType of two encodings is wrong");
  MC_CHECK(c, il::joinType(t[x[0]], t[x[1]], t[x[2]]) == m(3), "joinType of three encodings is wrong");
  MC_CHECK(c, il::joinType(t[x[0]], t[x[1]], t[x[2]], t[x[3]]) == m(4), "joinType of four encodings is wrong");
  MC_CHECK(c, il::joinType(t[x[0]], t[x[1]], t[x[2]], t[x[3]], t[x[4]]) == m(5), "joinType of five encodings is wrong");
  MC_CHECK(c, il::joinType(t[x[0]], t[x[1]], t[x[2]], t[x[3]], t[x[4]], t[x[5]]) == m(6), "joinType of six encodings is wrong");
}
MC_SUITE("joined encodings", joins, 1, 1);

// Every operation which puts text together, with operands of every encoding: the encoding which is reported is one
// that the contents satisfy.
static bool satisfies(il::StringType t, const string& s) {
  switch (t) {
    case il::StringType::Ascii:
      for (unsigned char ch : s) if (ch >= 128) return false;
      return true;
    case il::StringType::Utf8: return ref_utf8((const unsigned char*)s.data(), s.size());
    case il::StringType::Wtf8: {  // only surrogates are allowed on top of UTF-8
      string r;
      for (size_t i = 0; i < s.size();) {
        if (i + 2 < s.size() && (unsigned char)s[i] == 0xED && (unsigned char)s[i + 1] >= 0xA0) { i += 3; continue; }
        r += s[i++];
      }
      return ref_utf8((const unsigned char*)r.data(), r.size());
    }
    default: return true;
  }
}
static void flow(Ctx& c) {
  using T = il::StringType;
  static const T types[] = {T::Ascii, T::Utf8, T::Wtf8, T::Byte};
  static const char* const text[] = {"ab", "\xC3\xA9", "\xED\xA0\x80", "\xFF"};
  const int base = c.pick(4);
  const int_t room = c.of({0, 40});
  const int pad = c.of({0, 17, 22});
  string want(pad, '.');
  il::String s{T::Ascii, want.data(), (int_t)want.size()};
  s.Reserve(room);
  s.Append(il::StringView{types[base], text[base], (int_t)strlen(text[base])});
  want += text[base];
  auto view = [&](string& into) {
    const int k = c.pick(4);
    into += text[k];
    return il::StringView{types[k], text[k], (int_t)strlen(text[k])};
  };
  for (int n = 0; n < c.bound; ++n) {
    string add;
    switch (c.pick(17)) {
      case 0: { const il::StringView a = view(add); s.Append(a); want += add; } break;
      case 1: { const il::StringView a = view(add), b = view(add); s.Append(a, b); want += add; } break;
      case 2: { const il::StringView a = view(add), b = view(add), d = view(add); s.Append(a, b, d); want += add; } break;
      case 3: { const il::StringView a = view(add); s.Append(a.type(), a.data(), a.size()); want += add; } break;
      case 4: s.Append("\xC3\xA9"); want += "\xC3\xA9"; break;
      case 5: s.Append(T::Byte, "\xFF"); want += "\xFF"; break;
      case 6: { const il::StringView a = view(add); s.Insert(0, a); want = add + want; } break;
      case 7: { const il::StringView a = view(add); s.Insert(0, a.type(), a.data(), a.size()); want = add + want; } break;
      case 8: s.Insert(0, "\xC3\xA9"); want = "\xC3\xA9" + want; break;
      case 9: { const il::StringView a = view(add); s = il::join(a, s.view()); want = add + want; } break;
      case 10: { const il::StringView a = view(add), b = view(add); s = il::join(a, s.view(), b); want = string(text[0], 0) + add.substr(0, a.size()) + want + add.substr(a.size()); } break;
      case 11: { const il::StringView a = view(add), b = view(add), d = view(add); s = il::join(a, b, d, s.view()); want = add + want; } break;
      case 12: { const il::StringView a = view(add); const il::StringView e{T::Ascii, "x", 1}; s = il::join(s.view(), e, e, e, a); want += "xxx" + add; } break;
      case 13: { const il::StringView a = view(add); const il::StringView e{T::Ascii, "x", 1}; s = il::join(s.view(), e, e, e, e, a); want += "xxxx" + add; } break;
      case 14: { il::String u{"z"}; u = s; s = std::move(u); } break;
      case 15: { il::String u{s}; s.Clear(); s.Append(u.view()); } break;
      default: s = il::String{s.view()}; break;
    }
    MC_CHECK(c, string(s.data(), s.size()) == want, "the contents are wrong");
    MC_CHECK(c, satisfies(s.type(), want), "the string reports the encoding %d, which its contents do not satisfy", (int)s.type());
    MC_CHECK(c, s.view().type() == s.type(), "a view on a string reports another encoding");
  }
}
MC_SUITE("encodings of texts put together", flow, 2, 3, true, 2);
