// An independent reader of the supported subset of TOML, written from the grammar.
// It classifies a text: Good (with the value it denotes), Bad (with the lines
// between which the error lies) or Unusual (the format or the subset leaves open
// what a reader does with it).
#ifndef VERIF_TOMLREF_H
#define VERIF_TOMLREF_H
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <utility>
#include <vector>

namespace tomlref {
struct Value {
  enum Kind { Bool, Int, Dbl, Str, Arr, Tab } k = Tab;
  bool b = false;
  long long i = 0;
  double d = 0;
  std::string s;
  std::vector<Value> a;
  std::vector<std::pair<std::string, Value>> t;
  // how a table or an array came to be: from a value, or from headers
  enum Origin { Inline, Implicit, Header, HeaderArray } origin = Inline;
  Value* find(const std::string& key) {
    for (auto& e : t) if (e.first == key) return &e.second;
    return nullptr;
  }
};
inline bool same(const Value& x, const Value& y) {
  if (x.k != y.k) return false;
  switch (x.k) {
    case Value::Bool: return x.b == y.b;
    case Value::Int: return x.i == y.i;
    case Value::Dbl: return memcmp(&x.d, &y.d, sizeof(double)) == 0;
    case Value::Str: return x.s == y.s;
    case Value::Arr:
      if (x.a.size() != y.a.size()) return false;
      for (size_t i = 0; i < x.a.size(); ++i) if (!same(x.a[i], y.a[i])) return false;
      return true;
    default:
      if (x.t.size() != y.t.size()) return false;
      for (auto& e : x.t) {
        const Value* o = const_cast<Value&>(y).find(e.first);
        if (!o || !same(e.second, *o)) return false;
      }
      return true;
  }
}
inline std::string show(const Value& v) {
  char b[64];
  switch (v.k) {
    case Value::Bool: return v.b ? "true" : "false";
    case Value::Int: snprintf(b, sizeof b, "%lld", v.i); return b;
    case Value::Dbl: snprintf(b, sizeof b, "%.17g(double)", v.d); return b;
    case Value::Str: {
      std::string r = "\"";
      for (unsigned char ch : v.s) if (ch >= 32 && ch < 127) r += (char)ch; else { snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
      return r + "\"";
    }
    case Value::Arr: {
      std::string r = "[";
      for (auto& e : v.a) r += show(e) + ",";
      return r + "]";
    }
    default: {
      std::string r = "{";
      for (auto& e : v.t) { Value k; k.k = Value::Str; k.s = e.first; r += show(k) + "=" + show(e.second) + ","; }
      return r + "}";
    }
  }
}
struct Bad { int lo, hi; };
struct Unusual {};
struct Verdict {
  enum Kind { Good, Bad, Unusual } kind;
  Value root;
  int lo = 0, hi = 0;
};
// A well-formed UTF-8 sequence at s[i..): its length, or 0.
inline int utf8at(const std::string& s, size_t i) {
  auto at = [&](size_t j) { return j < s.size() ? (unsigned char)s[j] : 0u; };
  const unsigned c = at(i);
  int n = c < 0x80 ? 1 : c >= 0xC2 && c <= 0xDF ? 2 : c >= 0xE0 && c <= 0xEF ? 3 : c >= 0xF0 && c <= 0xF4 ? 4 : 0;
  if (n == 0) return 0;
  unsigned long cp = n == 1 ? c : c & (0xFF >> (n + 1));
  for (int k = 1; k < n; ++k) {
    if ((at(i + k) & 0xC0) != 0x80) return 0;
    cp = cp << 6 | (at(i + k) & 0x3F);
  }
  if (n == 3 && (cp < 0x800 || (cp >= 0xD800 && cp <= 0xDFFF))) return 0;
  if (n == 4 && (cp < 0x10000 || cp > 0x10FFFF)) return 0;
  return n;
}
inline void utf8put(std::string& s, unsigned long cp) {
  if (cp < 0x80) s += (char)cp;
  else if (cp < 0x800) { s += (char)(0xC0 | cp >> 6); s += (char)(0x80 | (cp & 63)); }
  else if (cp < 0x10000) { s += (char)(0xE0 | cp >> 12); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
  else { s += (char)(0xF0 | cp >> 18); s += (char)(0x80 | (cp >> 12 & 63)); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
}

struct Reader {
  const std::string& s;
  size_t p = 0;
  int line = 1;
  int depth = 0;
  explicit Reader(const std::string& text) : s(text) {}
  bool end() const { return p >= s.size(); }
  int cur() const { return end() ? -1 : (unsigned char)s[p]; }
  int peek(size_t k) const { return p + k < s.size() ? (unsigned char)s[p + k] : -1; }
  [[noreturn]] void bad() { throw tomlref::Bad{line, line}; }
  [[noreturn]] void badFrom(int lo) { throw tomlref::Bad{lo, line}; }
  bool atNewline() const { return cur() == '\n' || (cur() == '\r' && peek(1) == '\n'); }
  bool atLineEnd() const { return end() || atNewline(); }
  void ws() { while (cur() == ' ' || cur() == '\t') ++p; }
  void comment() {
    if (cur() != '#') return;
    while (!atLineEnd()) {
      if (cur() == '\r') throw Unusual{};
      ++p;
    }
  }
  // Consumes a newline. At the end of the text, the line number stays the one of the last line.
  void newline() {
    if (end()) return;
    p += cur() == '\r' ? 2 : 1;
    if (!end()) ++line;
  }
  void endOfLine() {
    ws();
    comment();
    if (!atLineEnd()) {
      if (cur() == '\r') throw Unusual{};
      bad();
    }
  }
  // In an array: spaces, comments and newlines.
  void blank(int from) {
    while (true) {
      ws();
      comment();
      if (end()) badFrom(from);
      if (!atNewline()) return;
      newline();
      if (end()) badFrom(from);
    }
  }
  static bool bare(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-'; }
  std::string quoted() {
    const int q = cur();
    if (peek(1) == q && peek(2) == q) throw Unusual{};  // multi-line strings are not part of the subset
    ++p;
    std::string r;
    bool odd = false;
    while (true) {
      if (atLineEnd()) bad();
      const int c = cur();
      if (c == q) { ++p; break; }
      if (q == '"' && c == '\\') {
        ++p;
        const int e = cur();
        ++p;
        switch (e) {
          case 'b': r += '\b'; break;
          case 't': r += '\t'; break;
          case 'n': r += '\n'; break;
          case 'f': r += '\f'; break;
          case 'r': r += '\r'; break;
          case '"': r += '"'; break;
          case '\\': r += '\\'; break;
          case 'u': case 'U': {
            unsigned long cp = 0;
            for (int k = 0; k < (e == 'u' ? 4 : 8); ++k, ++p) {
              const int h = cur();
              if (h >= '0' && h <= '9') cp = cp * 16 + (h - '0');
              else if (h >= 'a' && h <= 'f') cp = cp * 16 + (h - 'a' + 10);
              else if (h >= 'A' && h <= 'F') cp = cp * 16 + (h - 'A' + 10);
              else bad();
            }
            if (cp > 0x10FFFF || (cp >= 0xD800 && cp <= 0xDFFF)) bad();
            utf8put(r, cp);
            break;
          }
          default: bad();
        }
        continue;
      }
      if ((c < 0x20 && c != '\t') || c == 0x7F) { odd = true; r += (char)c; ++p; continue; }
      const int n = utf8at(s, p);
      if (n == 0) bad();
      r.append(s, p, n);
      p += n;
    }
    if (odd) throw Unusual{};  // TOML forbids raw control characters
    return r;
  }
  // A key followed by one of the bytes in 'stop'.
  std::string key(const char* stop) {
    ws();
    if (cur() == '"' || cur() == '\'') {
      std::string r = quoted();
      if (r.empty()) throw Unusual{};
      ws();
      return r;
    }
    size_t q = p;
    while (q < s.size() && s[q] != '\n' && !(s[q] && strchr(stop, s[q]))) ++q;
    size_t e = q;
    const bool stopped = q < s.size() && s[q] != '\n';
    if (!stopped && e > p && s[e - 1] == '\r') --e;
    while (e > p && (s[e - 1] == ' ' || s[e - 1] == '\t')) --e;
    if (e == p) bad();
    bool odd = false;
    for (size_t k = p; k < e; ++k) {
      if (strchr(" \t#[]", s[k]) && s[k]) bad();
      if (!bare((unsigned char)s[k])) odd = true;
    }
    if (odd) throw Unusual{};
    if (!stopped) bad();
    std::string r(s, p, e - p);
    p = q;
    return r;
  }
  size_t digits(size_t q) const {
    auto dig = [&](size_t j) { return j < s.size() && s[j] >= '0' && s[j] <= '9'; };
    while (dig(q)) {
      ++q;
      if (q < s.size() && s[q] == '_' && dig(q + 1)) ++q;
    }
    return q;
  }
  Value number() {
    size_t q = p;
    if (s[q] == '+' || s[q] == '-') ++q;
    const size_t b = q;
    q = digits(q);
    if (q == b) bad();
    if (s[b] == '0' && q > b + 1) bad();
    bool dbl = false;
    auto ch = [&](size_t j) { return j < s.size() ? (unsigned char)s[j] : 0u; };
    if (ch(q) == '.') {
      dbl = true;
      const size_t f = q + 1;
      q = digits(f);
      if (q == f) bad();
    }
    if (ch(q) == 'e' || ch(q) == 'E') {
      dbl = true;
      size_t f = q + 1;
      if (ch(f) == '+' || ch(f) == '-') ++f;
      q = digits(f);
      if (q == f) bad();
    }
    std::string text;
    for (size_t k = p; k < q; ++k) if (s[k] != '_') text += s[k];
    Value v;
    if (dbl) {
      v.k = Value::Dbl;
      v.d = strtod(text.c_str(), nullptr);
      if (v.d - v.d != 0) throw Unusual{};
    } else {
      v.k = Value::Int;
      __int128 n = 0;
      for (char c : text) if (c >= '0' && c <= '9') { n = n * 10 + (c - '0'); if (n > ((__int128)1 << 70)) bad(); }
      if (text[0] == '-') n = -n;
      if (n > INT64_MAX || n < INT64_MIN) bad();
      v.i = (long long)n;
    }
    p = q;
    return v;
  }
  bool word(const char* w) {
    if (s.compare(p, strlen(w), w) != 0) return false;
    p += strlen(w);
    return true;
  }
  Value value() {
    const int c = cur();
    Value v;
    if (c == '"' || c == '\'') { v.k = Value::Str; v.s = quoted(); return v; }
    if (c == '+' || c == '-' || (c >= '0' && c <= '9')) return number();
    v.k = Value::Bool;
    if (c == 't' && word("true")) { v.b = true; return v; }
    if (c == 'f' && word("false")) return v;
    if (c != '[' && c != '{') bad();
    if (++depth > 100) throw Unusual{};
    if (c == '[') {
      v.k = Value::Arr;
      const int from = line;
      ++p;
      blank(from);
      while (cur() != ']') {
        const int at = line;
        try {
          v.a.push_back(value());
        } catch (tomlref::Bad& b) {
          if (v.a.empty()) throw;
          throw tomlref::Bad{at, b.hi};  // it may also be of another type than the first one
        }
        if (v.a.back().k != v.a[0].k) badFrom(at);
        blank(from);
        if (cur() == ']') break;
        if (cur() != ',') { if (cur() == '\r') throw Unusual{}; bad(); }
        ++p;
        blank(from);
      }
      ++p;
    } else {
      v.k = Value::Tab;
      ++p;
      ws();
      if (cur() == '}') ++p;
      else while (true) {
        keyValue(v);
        ws();
        if (cur() == '}') { ++p; break; }
        if (cur() != ',') { if (cur() == '\r' && !atNewline()) throw Unusual{}; bad(); }
        ++p;
      }
    }
    --depth;
    return v;
  }
  void keyValue(Value& table) {
    const std::string k = key("=");
    if (table.find(k)) bad();
    if (cur() != '=') { if (cur() == '.') throw Unusual{}; bad(); }
    ++p;
    ws();
    if (cur() == '\r' && !atNewline()) throw Unusual{};
    Value v = value();
    if (table.find(k)) bad();
    table.t.emplace_back(k, v);
  }
  // Reads the header at the cursor, returns the table it opens.
  Value* header(Value& root) {
    ++p;
    const bool array = cur() == '[';
    if (array) ++p;
    std::vector<std::string> keys;
    while (true) {
      keys.push_back(key(".]"));
      ws();
      if (cur() != '.') break;
      ++p;
    }
    if (cur() != ']') { if (cur() == '\r' && !atNewline()) throw Unusual{}; bad(); }
    ++p;
    if (array) {
      if (cur() != ']') bad();
      ++p;
    }
    if (keys.size() > 100) throw Unusual{};
    Value* t = &root;
    for (size_t k = 0; k < keys.size(); ++k) {
      const bool last = k + 1 == keys.size();
      Value* e = t->find(keys[k]);
      if (!e) {
        t->t.emplace_back(keys[k], Value());
        e = &t->t.back().second;
        e->origin = last ? Value::Header : Value::Implicit;
        if (last && array) {
          e->k = Value::Arr;
          e->origin = Value::HeaderArray;
          e->a.emplace_back();
          e = &e->a.back();
        }
        t = e;
        continue;
      }
      if ((e->k != Value::Tab && e->k != Value::Arr) || e->origin == Value::Inline) bad();
      if (last && array) {
        if (e->origin != Value::HeaderArray) bad();
        e->a.emplace_back();
        t = &e->a.back();
      } else if (last) {
        if (e->origin != Value::Implicit) bad();
        e->origin = Value::Header;
        t = e;
      } else {
        t = e->origin == Value::HeaderArray ? &e->a.back() : e;
      }
    }
    return t;
  }
  void document(Value& root) {
    Value* t = &root;
    while (!end()) {
      ws();
      if (!atLineEnd() && cur() != '#') {
        if (cur() == '\r') throw Unusual{};
        if (cur() == '[') t = header(root);
        else keyValue(*t);
      }
      endOfLine();
      newline();
    }
  }
};
inline Verdict read(const std::string& text) {
  Verdict v;
  Reader r(text);
  try {
    r.document(v.root);
    v.kind = Verdict::Good;
  } catch (Bad& b) {
    v.kind = Verdict::Bad;
    v.lo = b.lo;
    v.hi = b.hi;
  } catch (Unusual&) {
    v.kind = Verdict::Unusual;
  }
  return v;
}
}  // namespace tomlref
#endif
