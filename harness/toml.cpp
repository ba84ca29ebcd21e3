// P19 (PART=19): any bytes; P20 (PART=20): the values, against lib/tomlref.h;
// P21 (PART=21): save and load.
#include <algorithm>
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include "ilmc.h"
#include "memfs.h"
#include "tomlref.h"
#include <il/toml.h>
using il::int_t;
using mc::Ctx;
using mc::fs;
using tomlref::Value;
using Map = il::MapArray<il::String, il::Dynamic>;
static const char kName[] = "x.toml";

static std::string str(const il::String& s) { return std::string(s.data(), s.size()); }
static Value convert(Ctx& c, const il::Dynamic& x);
template <typename M> static Value convertMap(Ctx& c, const M& m) {
  Value v;
  v.k = Value::Tab;
  for (il::spot_t i = m.spotBegin(); i != m.spotEnd(); i = m.next(i)) v.t.emplace_back(str(m.key(i)), convert(c, m.value(i)));
  return v;
}
static Value convert(Ctx& c, const il::Dynamic& x) {
  Value v;
  if (x.is<bool>()) { v.k = Value::Bool; v.b = x.to<bool>(); }
  else if (x.is<int_t>()) { v.k = Value::Int; v.i = x.to<int_t>(); }
  else if (x.is<double>()) { v.k = Value::Dbl; v.d = x.to<double>(); }
  else if (x.is<il::String>()) { v.k = Value::Str; v.s = str(x.as<il::String>()); }
  else if (x.is<il::Array<il::Dynamic>>()) {
    v.k = Value::Arr;
    const il::Array<il::Dynamic>& a = x.as<il::Array<il::Dynamic>>();
    for (int_t i = 0; i < a.size(); ++i) v.a.push_back(convert(c, a[i]));
  } else if (x.is<Map>()) return convertMap(c, x.as<Map>());
  else if (x.is<il::Map<il::String, il::Dynamic>>()) return convertMap(c, x.as<il::Map<il::String, il::Dynamic>>());
  else if (x.is<il::Array<double>>()) {
    v.k = Value::Arr;
    const il::Array<double>& a = x.as<il::Array<double>>();
    for (int_t i = 0; i < a.size(); ++i) { Value e; e.k = Value::Dbl; e.d = a[i]; v.a.push_back(e); }
  } else if (x.is<il::Array2D<double>>()) {
    v.k = Value::Arr;
    const il::Array2D<double>& a = x.as<il::Array2D<double>>();
    for (int_t i = 0; i < a.size(0); ++i) {
      Value r;
      r.k = Value::Arr;
      for (int_t j = 0; j < a.size(1); ++j) { Value e; e.k = Value::Dbl; e.d = a(i, j); r.a.push_back(e); }
      v.a.push_back(r);
    }
  } else c.fail("a value has a type that the format does not know (%d)", (int)x.type());
  return v;
}
static std::string quote(const std::string& s) {
  Value v;
  v.k = Value::Str;
  v.s = s.size() > 300 ? s.substr(0, 300) + "..." : s;
  return tomlref::show(v);
}

static void read(Ctx& c, const std::string& text) {
  fs() = mc::MemFs();
  fs().files[kName] = text;
  fs().read_only.insert(kName);
  if (c.verbose) c.log("text: %s", quote(text).c_str());
  il::Status st{};
  errno = ERANGE;  // what an earlier, unrelated call may have left
  Map m = il::load<Map>(il::String(kName), il::io, st);
  const bool ok = st.Ok();
#if PART == 19
  MC_CHECK(c, fs().open == 0, "%d file handles are left open after reading %s", fs().open, quote(text).c_str());
  MC_CHECK(c, fs().files.size() == 1 && fs().files[kName] == text && !fs().opened_for_writing, "reading changed the file");
  if (!ok) MC_CHECK(c, st.asCString("source_file") != nullptr, "an error without its source");
#else
  const tomlref::Verdict v = tomlref::read(text);
  if (v.kind == tomlref::Verdict::Unusual) { c.log("unusual"); return; }
  if (v.kind == tomlref::Verdict::Bad) {
    MC_CHECK(c, !ok, "a malformed document was read without error: %s", quote(text).c_str());
    const int_t line = st.toInteger("line");
    MC_CHECK(c, v.lo <= line && line <= v.hi, "the error in %s was reported at line %td instead of %d..%d", quote(text).c_str(), line, v.lo, v.hi);
    return;
  }
  MC_CHECK(c, ok, "a well-formed document was not read: %s", quote(text).c_str());
  const Value got = convertMap(c, m);
  MC_CHECK(c, tomlref::same(got, v.root), "the document %s was read as %s instead of %s", quote(text).c_str(), tomlref::show(got).c_str(), tomlref::show(v.root).c_str());
#endif
}
// all sequences of pieces
static std::string sequence(Ctx& c, const std::vector<std::string>& p, int n) {
  std::string r;
  for (int i = 0; i < n; ++i) {
    const int k = c.pick((int)p.size() + 1);
    if (k == 0) break;
    r += p[k - 1];
  }
  return r;
}

#if PART == 19 || PART == 20
static void bytesBody(Ctx& c) {
  static const std::string alphabet("a\"'\\=[]{},.#\n\r -+01e_u\t\0\xC3\xA9" "f", 28);
  std::string t;
  for (int i = 0; i < c.bound; ++i) {
    const int k = c.pick((int)alphabet.size() + 1);
    if (k == 0) break;
    t += alphabet[k - 1];
  }
  read(c, t);
}
MC_SUITE("all byte strings", bytesBody, 4, 5, true, 3);

static void tokensBody(Ctx& c) {
  static const std::vector<std::string> p = {"a", "\"a\"", "'b'", "=", "[", "]", "[[", "]]", "{", "}", ",", ".", "\n", "\r\n", " ", "#", "1", "-1.5e3", "true",
                                             "\\u00e9", "\"", "'", "\xC3\xA9", "\xE9", "0x1F", "1979-05-27", std::string(1, '\0')};
  read(c, (c.flip() ? "a = " : "") + sequence(c, p, c.bound));
}
MC_SUITE("all token sequences", tokensBody, 4, 5, true, 3);

static const std::vector<std::string>& corpus() {
  static const std::vector<std::string> k = {
      "a = 1\nb = \"x\"\n",
      "# c\n[t] # d\n k = [1, 2, ]\n\n[t.u]\nx = -1.5e-3\n",
      "a = [\n  \"p, ]\", # q\n  'r\"'\n]\nb = true\n",
      "[[p]]\nn = 'a'\n[p.q]\nz = {}\n[[p]]\nn = \"\\u00e9\"\n",
      "t = { a = 1_000, \"b c\" = [ [1], ['x'] ] }\r\nu = false\r\n",
      "\"k\\n\" = +0\n'l' = [{x=1}, {y=[]}]\nm=1e2",
      "[a.b.c]\nk=\"\xC3\xA9\"\n[a]\nl=1\n[[a.d]]\n[ e . \"f\" ]\n",
      "i = 9223372036854775807\nj = -9223372036854775808\nk = 9223372036854775808\n"};
  return k;
}
static std::string mutate(Ctx& c, std::string t) {
  static const std::string sub("a\"'\\=[]{},.#\n\r -1_\0\xC3\xFF", 21);
  const int at = c.pick((int)t.size() + 1);
  if (at == (int)t.size()) return t + sub[c.pick((int)sub.size())];
  switch (c.pick(4)) {
    case 0: return t.substr(0, at);
    case 1: t.erase(at, 1); return t;
    case 2: t[at] = sub[c.pick((int)sub.size())]; return t;
    default: t.insert(at, 1, sub[c.pick((int)sub.size())]); return t;
  }
}
static void corpusBody(Ctx& c) {
  std::string t = corpus()[c.pick((int)corpus().size())];
  for (int i = 0; i < c.bound; ++i) t = mutate(c, t);
  read(c, t);
}
MC_SUITE("all single edits (thorough: all pairs of edits) of a corpus", corpusBody, 1, 2, true, 2);

static void spliceBody(Ctx& c) {  // the beginning of a document followed by the end of another one
  const std::string& x = c.of(corpus());
  const std::string& y = c.of(corpus());
  const int i = c.pick((int)x.size() + 1);
  read(c, x.substr(0, i) + y.substr(c.pick((int)y.size() + 1)));
}
MC_SUITE("all splices of two documents of a corpus", spliceBody, 1, 1, true, 2);

static std::string rep(int n, const char* s) {
  std::string r;
  for (int i = 0; i < n; ++i) r += s;
  return r;
}
static void deepBody(Ctx& c) {
#if PART == 19
  const int n = c.of({1, 2, 16, 255, 256, 257, 1000, 100000});
#else
  const int n = c.of({1, 2, 3, 16, 40, 60});
#endif
  const bool close = c.flip();
  switch (c.pick(9)) {
    case 0: read(c, "a = " + rep(n, "[") + (close ? rep(n, "]") : "")); break;
    case 1: read(c, "a = " + rep(n, "{a=") + (close ? "1" + rep(n, "}") : "")); break;
    case 2: read(c, "a = " + rep(n / 2 + 1, "[{a=") + (close ? "1" + rep(n / 2 + 1, "}]") : "")); break;
    case 3: read(c, "[" + rep(n, "a.") + "a" + (close ? "]\nb = 1\n" : "")); break;
    case 4: read(c, "[[" + rep(n, "a.") + "a" + (close ? "]]\nb = 1\n" : "")); break;
    case 5: {  // deeper and deeper tables in arrays of tables
      std::string t, k = "a";
      for (int i = 0; i < std::min(n, 60); ++i, k += ".a") t += "[[" + k + "]]\nx = 1\n";
      read(c, close ? t + t : t);
      break;
    }
    case 6: {
      std::string t, k = "a";
      for (int i = 0; i < std::min(n, 300); ++i, k += ".a") t += "[" + k + "]\n";
      read(c, t + (close ? "a = " + rep(n, "[") + rep(n, "]") : ""));
      break;
    }
    case 7: read(c, "a = [" + rep(n, "\n# c\n") + (close ? "]" : "")); break;
    default: read(c, "a = [" + rep(n, "{}, ") + (close ? "]" : "")); break;
  }
}
MC_SUITE("deep nesting", deepBody, 1, 1);

static void longBody(Ctx& c) {  // lines of every length around the sizes of buffers
  static const std::vector<int> sizes = [] {
    std::vector<int> v;
    for (int k : {0, 128, 200, 256, 400, 512, 1024, 4096, 8192})
      for (int d = -16; d <= 16; ++d) if (k + d >= 0) v.push_back(k + d);
    return v;
  }();
  const int n = c.of(sizes);
  const std::string before = c.flip() ? "z = 1\n" : "", after = c.of({"", "\n", "\r\n", " # c\n", "\ny = 2\n", "\n[t]\nu = 1"});
  std::string t;
  switch (c.pick(12)) {
    case 0: t = "#" + rep(n, "c"); break;
    case 1: t = "a = \"" + rep(n, "x") + "\""; break;
    case 2: t = "a = '" + rep(n, "\xC3\xA9") + "'"; break;
    case 3: t = rep(n, "k") + " = 1"; break;
    case 4: t = "\"" + rep(n, "k") + "\" = 1"; break;
    case 5: t = "a = 1." + rep(n, "0") + "5"; break;
    case 6: t = rep(n, " ") + "a = 1"; break;
    case 7: t = "a = 1" + rep(n, " "); break;
    case 8: t = "a = [" + rep(n / 2, "1,") + "]"; break;
    case 9: t = "a = [\n" + rep(n, " ") + "1 #" + rep(n, "]") + "\n]"; break;
    case 10: t = "[" + rep(n, "k") + "]"; break;
    default: t = "a = {" + rep(n, " ") + "b = 1 }"; break;
  }
  read(c, before + t + after);
}
MC_SUITE("line lengths", longBody, 1, 1);

static void manyBody(Ctx& c) {  // many keys, tables, arrays of tables, entries, lines
  static const std::vector<int> some{8, 12, 13, 24, 25, 48, 49, 64, 96, 97, 128, 192, 193, 256, 257, 400, 513};
  const int n = c.thorough ? 5 + c.pick(600) : c.of(some), kind = c.pick(12), last = c.pick(3);
  std::string t, u;
  for (int i = 0; i < n; ++i) {
    const std::string k = "k" + std::to_string(i * 37 % 1009), v = i % 4 == 0 ? "true" : i % 4 == 1 ? std::to_string(i) : i % 4 == 2 ? "'t" + k + "'" : std::to_string(i) + ".5";
    switch (kind) {
      case 0: t += k + " = " + v + "\n"; break;
      case 1: t += "[" + k + "]\na = " + v + "\n"; break;
      case 2: t += "[[t]]\na = " + v + "\n"; break;
      case 3: t += "[[t]]\n[t." + k + "]\nx = " + v + "\n"; break;
      case 4: t += "[t." + k + "]\nx = " + v + "\n"; break;
      case 5: t += (i ? ", " : "a = {") + k + " = " + v; u = "}\n"; break;
      case 6: t += (i ? ",\n" : "a = [\n") + std::to_string(i); u = "\n]\n"; break;
      case 7: t += (i ? ", " : "a = [") + std::string("['x', \"") + k + "\"]"; u = "]\n"; break;
      case 8: t += (i ? ", " : "a = [") + std::string("{x = ") + v + "}"; u = "]\n"; break;
      case 9: t += "[[" + k + "]]\n[[" + k + "]]\ny = " + v + "\n"; break;
      case 10: t += "# a comment\n\n" + std::string(i % 7 ? "" : k + " = " + v + "\n"); break;
      default: t += "\"" + k + "\\t\" = \"" + k + "\\u00e9\"\n"; break;
    }
  }
  t += u;
  if (last == 1) t += kind == 0 ? "k0 = 1\n" : kind == 1 ? "[k0]\n" : kind == 4 ? "[t.k0]\n" : "a = 1\na = 2\n";  // given before
  if (last == 2) t += "z = ?\n";
  read(c, t);
}
MC_SUITE("many keys, tables and entries", manyBody, 1, 1);
#endif

#if PART == 20
static void linesBody(Ctx& c) {
  static const std::vector<std::string> p = {"a = 1\n", "b = \"x\"\n", "'a' = 2.5\n", "[a]\n", "[b]\n", "[a.b]\n", "[b.a]\n", "[a.b.a]\n", "[[a]]\n", "[[b]]\n", "[[a.b]]\n",
                                             "[[b.a]]\n", "a = {b = 1}\n", "b = [{a = 1}]\n", "a = [[1], ['y']]\n", "\n", "[\"a\"] # c\n", "b = [\n", "true, false\n", "]\n"};
  read(c, sequence(c, p, c.bound));
}
MC_SUITE("all sequences of lines", linesBody, 4, 5, true, 3);

static void headersBody(Ctx& c) {  // longer sequences of headers and keys only
  static const std::vector<std::string> p = {"a=1\n", "b=1\n", "[a]\n", "[a.b]\n", "[b]\n", "[[a]]\n", "[[a.b]]\n", "[a.b.a]\n", "[[b.a]]\n"};
  read(c, sequence(c, p, c.bound));
}
MC_SUITE("all sequences of headers", headersBody, 5, 7, true, 3);

static void numbersBody(Ctx& c) {
  static const std::vector<std::string> p = {"0", "1", "_", "+", "-", ".", "e", "E", "9"};
  const int where = c.pick(4);
  const std::string x = sequence(c, p, c.bound);
  read(c, where == 0 ? "a = " + x : where == 1 ? "a=" + x + "\t# c\r\nb = 2\n" : where == 2 ? "a = [" + x + "," + x + "]\n" : "a = {b=" + x + "}\n");
}
MC_SUITE("all numbers", numbersBody, 5, 7, true, 3);

static void extremesBody(Ctx& c) {
  static const std::vector<std::string> p = {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "+9223372036854775807", "9_223_372_036_854_775_807",
      "99999999999999999999999999", "18446744073709551616", "18446744073709551615", "140737488355327", "140737488355328", "-140737488355329", "2147483648", "4294967296", "281474976710656", "1.7976931348623157e308", "4.9e-324", "2.2250738585072014E-308", "-0.0",
      "0.1", "1e22", "9007199254740993.0", "3.14159265358979323846", "1e-7", "6.02214076e+23", "-1e-400", "123_456.789_012", "1e1_0", "0e0", "-0e5", "+0.0", "00", "-01", "+1_0"};
  const std::string x = c.of(p), y = c.of(p);
  switch (c.pick(3)) {
    case 0: read(c, "a = " + x + "\nb = " + y + "\n"); break;
    case 1: read(c, "a = [" + x + ", " + y + "]"); break;
    default: read(c, "a = { x = " + x + ", y = " + y + " }"); break;
  }
}
MC_SUITE("extreme numbers", extremesBody, 1, 1);

static void stringsBody(Ctx& c) {
  static const std::vector<std::string> p = {"a", " ", "#", "]", "=", ",", ".", "\"", "'", "\\\\", "\\n", "\\\"", "\\u00e9", "\\U0001F600", "\\ud800", "\\u12", "\\x", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\x80", "\xED\xA0\x80", "\t",
                                             "\\u0000", "\\b\\t\\f\\r", "\\U00110000", "\\u007F", "\\u0800"};
  const int where = c.pick(5);
  const std::string q = c.flip() ? "\"" : "'";
  const std::string x = q + sequence(c, p, c.bound) + q;
  read(c, where == 0 ? "a = " + x : where == 1 ? x + " = 1\n" : where == 2 ? "[" + x + "]\nb = 1\n" : where == 3 ? "a = [" + x + " ,\n" + x + "]" : "a = {" + x + " = " + x + "} # " + x);
}
MC_SUITE("all strings", stringsBody, 3, 4, true, 3);

static void stringSizeBody(Ctx& c) {  // every length around the switch from small to large strings
  const int n = c.pick(70), at = c.pick(n + 1);
  const std::string e = c.of({"", "\\n", "\xC3\xA9", "\\u20AC"});
  const std::string x = "\"" + std::string(at, 'x') + e + std::string(n - at, 'y') + "\"";
  read(c, c.flip() ? "a = " + x : "[" + x + "." + x + "]\n" + x + " = " + x);
}
MC_SUITE("string sizes", stringSizeBody, 1, 1);

static void arraysBody(Ctx& c) {
  static const std::vector<std::string> p = {"[", "]", ",", "1", "\"a\"", "true", "{", "}", "b=", "\n", "#c\n", " ", "1.5"};
  read(c, "a = [" + sequence(c, p, c.bound) + (c.flip() ? "]\nz = 1\n" : ""));
}
MC_SUITE("all arrays", arraysBody, 5, 6, true, 3);

static void inlineBody(Ctx& c) {
  static const std::vector<std::string> p = {"{", "}", ",", "a", "b", "'a'", " ", "=", "1", "[", "]", "\n"};
  read(c, "t = {" + sequence(c, p, c.bound) + (c.flip() ? "}\n" : ""));
}
MC_SUITE("all inline tables", inlineBody, 5, 6, true, 3);

static void tableNamesBody(Ctx& c) {
  static const std::vector<std::string> p = {"a", "-b_1", "\"a\"", "'c.d'", ".", " ", "\t", "[", "]", "#", "\"", "\n", "="};
  read(c, (c.flip() ? "[[" : "[") + sequence(c, p, c.bound) + c.of({"", "]", "]]", "]\nk = 1", "]]\nk = 1"}));
}
MC_SUITE("all table names", tableNamesBody, 4, 5, true, 3);

static void spacesBody(Ctx& c) {
  static const std::vector<std::string> w = {"", " ", "\t \t"};
  static const std::vector<std::string> nl = {"\n", "\r\n", "# c\n", "# \"]\r\n", "\n\n"};
  auto s = [&] { return w[c.pick(3)]; };
  std::string t;
  switch (c.pick(5)) {
    case 0: t = s() + "a" + s() + "=" + s() + "1" + s() + c.of(nl) + s() + "b" + s() + "=" + s() + "'x'" + s() + c.of({"", "\n", "#"}); break;
    case 1: t = s() + "[" + s() + "a" + s() + "." + s() + "'b'" + s() + "]" + s() + c.of(nl) + s() + "c = 1"; break;
    case 2: t = s() + "[[" + s() + "a" + s() + "]]" + s() + c.of(nl) + s() + "c = 1"; break;
    case 3: t = "a = [" + s() + c.of(nl) + s() + "1" + s() + c.of(nl) + s() + "," + s() + "2" + s() + (c.flip() ? "," : "") + c.of(nl) + "]" + s() + c.of({"", "\n", "#"}); break;
    default: t = "a = {" + s() + "b" + s() + "=" + s() + "1" + s() + "," + s() + "c = [ ]" + s() + "}" + s() + c.of(nl); break;
  }
  read(c, t);
}
MC_SUITE("spaces and comments", spacesBody, 1, 1, true, 3);
#endif

#if PART == 21
#include "toml_save.inc"
#endif
