// The NumPy version 1.0 file format, read independently of the library.
#ifndef VERIF_NPY_H
#define VERIF_NPY_H
#include <stdint.h>
#include <string>
#include <vector>
namespace npy {
enum Verdict { Bad = 0, Good = 1, Unusual = -1 };  // Unusual: a reader may take it or leave it
struct File {
  Verdict v = Bad;
  const char* why = "";
  char endian = 0;
  std::string type;
  bool fortran = false;
  std::vector<uint64_t> shape;
  size_t data = 0;  // offset of the entries
};
struct Reader {
  const std::string& s;
  size_t i, end;
  bool odd = false;
  bool ws() {
    while (i < end && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r' || s[i] == '\f' || s[i] == '\v')) {
      if (s[i] != ' ') odd = true;
      ++i;
    }
    return i < end;
  }
  bool eat(char c) {
    if (!ws() || s[i] != c) return false;
    ++i;
    return true;
  }
  bool str(std::string& out) {
    if (!ws() || (s[i] != '\'' && s[i] != '"')) return false;
    const char q = s[i++];
    out.clear();
    while (i < end && s[i] != q) {
      if (s[i] == '\n') return false;
      out += s[i++];
    }
    if (i == end) return false;
    ++i;
    return true;
  }
  bool word(const char* w) {
    ws();
    const size_t n = strlen(w);
    if (s.compare(i, n, w) != 0 || i + n > end) return false;
    i += n;
    return true;
  }
  bool number(uint64_t& x) {
    if (!ws()) return false;
    if (s[i] == '+') { odd = true; ++i; ws(); }
    if (i == end || s[i] < '0' || s[i] > '9') return false;
    const size_t b = i;
    x = 0;
    while (i < end && ((s[i] >= '0' && s[i] <= '9') || s[i] == '_')) {
      if (s[i] == '_') odd = true;
      else if (x > (UINT64_MAX - 9) / 10) x = UINT64_MAX / 20;  // far too large in any case
      else x = 10 * x + (s[i] - '0');
      ++i;
    }
    if (i - b > 1 && s[b] == '0') odd = true;
    if (i < end && (s[i] == 'L' || s[i] == 'l')) { odd = true; ++i; }
    return true;
  }
};
inline File parse(const std::string& s) {
  File f;
  auto bad = [&](const char* w) { f.v = Bad; f.why = w; return f; };
  if (s.size() < 10) return bad("shorter than the fixed part");
  if (s.compare(0, 6, "\x93NUMPY") != 0) return bad("wrong magic string");
  if (s[6] != 1 || s[7] != 0) return bad("not version 1.0");
  const size_t len = (unsigned char)s[8] + 256u * (unsigned char)s[9];
  if (s.size() < 10 + len) return bad("shorter than the header");
  if (len == 0 || s[10 + len - 1] != '\n') return bad("the header does not end with a new line");
  Reader r{s, 10, 10 + len - 1};
  bool descr = false, order = false, shape = false;
  if (!r.eat('{')) return bad("the header is not a dictionary");
  bool first = true;
  for (;;) {
    if (r.eat('}')) break;
    if (!first) {
      if (!r.eat(',')) return bad("missing comma");
      if (r.eat('}')) break;
    }
    first = false;
    std::string key;
    if (!r.str(key)) return bad("a key is not a string");
    if (!r.eat(':')) return bad("missing colon");
    if (key == "descr") {
      std::string d;
      if (!r.str(d)) return bad("descr is not a string");
      if (descr) r.odd = true;
      descr = true;
      if (d.empty()) return bad("empty descr");
      if (d[0] == '<' || d[0] == '>' || d[0] == '|' || d[0] == '=') { f.endian = d[0]; f.type = d.substr(1); }
      else { f.endian = '='; f.type = d; }
    } else if (key == "fortran_order") {
      if (order) r.odd = true;
      order = true;
      if (r.word("True")) f.fortran = true;
      else if (r.word("False")) f.fortran = false;
      else return bad("fortran_order is not a boolean");
    } else if (key == "shape") {
      if (shape) r.odd = true;
      shape = true;
      f.shape.clear();
      if (!r.eat('(')) return bad("shape is not a tuple");
      bool comma = true;
      while (!r.eat(')')) {
        if (!comma) return bad("missing comma in shape");
        uint64_t x;
        if (!r.number(x)) return bad("shape does not hold numbers");
        f.shape.push_back(x);
        comma = r.eat(',');
      }
      if (f.shape.size() == 1 && !comma) return bad("shape is a number, not a tuple");
    } else {
      return bad("unknown key");
    }
  }
  r.ws();
  if (r.i != r.end) return bad("characters after the dictionary");
  if (!descr || !order || !shape) return bad("a key is missing");
  f.data = 10 + len;
  f.v = r.odd || f.endian == '|' || f.endian == '=' ? Unusual : Good;
  return f;
}
// number of entries, or -1 if they are not all in a file with so many bytes of data
inline int64_t entries(const File& f, size_t item, size_t bytes) {
  for (uint64_t n : f.shape) if (n == 0) return 0;
  uint64_t k = 1;
  for (uint64_t n : f.shape) {
    if (n > (uint64_t)bytes) return -1;
    k *= n;
    if (k * item > bytes) return -1;
  }
  return k * item > bytes ? -1 : (int64_t)k;
}
inline std::string header(const std::string& dict, int align = 64) {
  std::string h = dict;
  while ((10 + h.size() + 1) % align) h += ' ';
  h += '\n';
  std::string s = std::string("\x93NUMPY", 6) + '\x01' + '\0';
  s += (char)(h.size() & 255);
  s += (char)(h.size() >> 8);
  return s + h;
}
inline std::string file(const std::string& descr, bool fortran, const std::vector<long>& shape, const std::string& data, int align = 64) {
  std::string t = "(";
  for (size_t i = 0; i < shape.size(); ++i) t += (i ? ", " : "") + std::to_string(shape[i]);
  t += shape.size() == 1 ? ",)" : ")";
  return header("{'descr': '" + descr + "', 'fortran_order': " + (fortran ? "True" : "False") + ", 'shape': " + t + ", }", align) + data;
}
}  // namespace npy
#endif
