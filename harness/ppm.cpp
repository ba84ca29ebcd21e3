// P38: PPM images, against a reader written from the definition of the format.
#include <string>
#include <vector>
#include "ilmc.h"
#include "memfs.h"
#include <il/io/ppm/ppm.h>
using il::int_t;
using mc::Ctx;
using mc::fs;
using std::string;

struct Ref {
  bool valid = false;
  unsigned long w = 0, h = 0;
  size_t begin = 0, end = 0;  // where the pixels are in the file
};
// Magic number, three numbers (blanks and comments between them), one blank, pixels.
static Ref reference(const string& s) {
  Ref r;
  size_t i = 2;
  if (s.compare(0, 2, "P6") != 0) return r;
  unsigned long v[3];
  for (int k = 0; k < 3; ++k) {
    for (;; ++i) {
      if (i < s.size() && s[i] == '#') { while (i < s.size() && s[i] != '\n') ++i; }
      if (!(i < s.size() && isspace((unsigned char)s[i]))) break;
    }
    if (i < s.size() && s[i] == '+') ++i;
    size_t d = i;
    unsigned long x = 0;
    for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) x = x > 1000000000000ul ? x : 10 * x + (unsigned long)(s[i] - '0');
    if (i == d) return r;
    v[k] = x;
  }
  if (v[2] != 255 || i >= s.size() || !isspace((unsigned char)s[i]) || v[0] == 0 || v[1] == 0) return r;
  r.begin = i + 1;
  if (v[0] > s.size() || v[1] > s.size() || 3 * v[0] * v[1] > s.size() - r.begin) return r;
  r.end = r.begin + 3 * v[0] * v[1];
  r.w = v[0]; r.h = v[1];
  r.valid = true;
  return r;
}
static const char kName[] = "a.ppm";
static string show(const string& s) {
  string r;
  for (unsigned char ch : s.substr(0, 80)) { char b[8]; if (ch >= 32 && ch < 127) r += (char)ch; else { sprintf(b, "\\x%02x", ch); r += b; } }
  return '"' + r + '"';
}
// must: 1 it has to be read, 0 it may be read or not, -1 it must not be read
static void read(Ctx& c, const string& text, int must) {
  fs().files[kName] = text;
  c.log("file: %s", show(text).c_str());
  il::Status st{};
  il::Array2D<il::Pixel> a = il::readPpm(kName, il::io, st);
  const bool ok = st.Ok();
  MC_CHECK(c, fs().open == 0, "reading left %d file handle(s) open", fs().open);
  MC_CHECK(c, !fs().opened_for_writing && (fs().files[kName] == text), "the file was opened for writing");
  const Ref r = reference(text);
  if (must == 1) MC_CHECK(c, ok, "the image %s was not read", show(text).c_str());
  if (must == -1) MC_CHECK(c, !ok, "a failure to read %s was not reported", show(text).c_str());
  if (!ok) return;
  MC_CHECK(c, r.valid, "%s was read as an image of size %td x %td", show(text).c_str(), a.size(0), a.size(1));
  MC_CHECK(c, a.size(0) == (int_t)r.w && a.size(1) == (int_t)r.h, "%s was read as an image of size %td x %td", show(text).c_str(), a.size(0), a.size(1));
  for (int_t y = 0; y < a.size(1); ++y)
    for (int_t x = 0; x < a.size(0); ++x) {
      const size_t k = r.begin + 3 * (size_t)(y * a.size(0) + x);
      MC_CHECK(c, a(x, y).red == (unsigned char)text[k] && a(x, y).green == (unsigned char)text[k + 1] && a(x, y).blue == (unsigned char)text[k + 2],
               "the pixel in column %td and row %td of %s is wrong", x, y, show(text).c_str());
    }
}
static void reset() { fs() = mc::MemFs(); }
static string pixels(int n, int seed) {
  static const unsigned char first[] = {'\n', '#', ' ', '1', 0, 0xFF, 'P', '\r'};
  string s;
  for (int k = 0; k < n; ++k) s += (char)(k == 0 ? first[seed % 8] : (k * 37 + seed * 11) & 0xFF);
  return s;
}
static string num(int n, int style) { return (style == 1 ? "0" : "") + std::to_string(n); }

static void images(Ctx& c) {
  reset();
  const int w = 1 + c.pick(c.bound), h = 1 + c.pick(c.bound);
  static const char* const comment[] = {"", "#\n", "# made by hand\n# 9 9\n"};
  static const char* const blank[] = {" ", "\n", "\t", " \r\n", "\n\n  "};
  static const char* const last[] = {"\n", " ", "\t", "\r"};
  string t = string("P6\n") + comment[c.pick(3)];
  const int style = c.pick(2);
  t += num(w, style); t += blank[c.pick(5)]; t += num(h, style); t += blank[c.pick(5)]; t += "255"; t += last[c.pick(4)];
  t += pixels(3 * w * h, c.pick(8));
  static const char* const more[] = {"", "\n", "P6\n1 1\n255\nabc"};
  t += more[c.pick(3)];
  fs().vbuf = c.of({-1, 0, 7});
  fs().read_chunk = c.of({-1, 1});
  fs().seekable = !c.flip();
  read(c, t, 1);
}

static void large(Ctx& c) {
  reset();
  static const int side[][2] = {{256, 256}, {255, 257}, {1, 70000}, {70000, 1}, {1000, 70}, {23, 4096}, {127, 3}, {128, 3}, {129, 3}, {300, 2}, {2, 300}, {10, 100}, {99, 101}, {32768, 2}, {2, 32769}, {3, 21846}};
  const int k = c.pick(16), w = side[k][0], h = side[k][1];
  const int comment = c.of({0, 100, 70000});
  string t = "P6\n" + (comment ? "#" + string((size_t)comment, '1') + "\n" : string()) + std::to_string(w) + (c.flip() ? " " : "\n") + std::to_string(h) + "\n255\n";
  t += pixels(3 * w * h, c.pick(8));
  const int cut = c.pick(5);
  if (cut == 1) t += string(70000, 'x');
  if (cut > 1) t.resize(t.size() - (size_t)(cut == 2 ? 1 : cut == 3 ? 3 : w));
  fs().vbuf = c.of({-1, 7});
  read(c, t, cut > 1 ? -1 : 1);
}
MC_SUITE("large images", large, 1, 1);
MC_SUITE("well-formed images", images, 3, 5, true, 2);

static void faultsBody(Ctx& c) {
  reset();
  const int w = 1 + c.pick(c.bound), h = 1 + c.pick(c.bound);
  string t = "P6\n# c\n" + num(w, 0) + " " + num(h, 0) + "\n255\n" + pixels(3 * w * h, c.pick(2));
  fs().vbuf = c.of({-1, 0, 7});
  switch (c.pick(5)) {
    case 0: fs().read_fault = c.pick((int)t.size()); fs().seekable = !c.flip(); read(c, t, -1); break;
    case 1: fs().open_errno = c.of({ENOENT, EACCES, EMFILE}); read(c, t, -1); break;
    case 2: fs().opens_left = 0; read(c, t, -1); break;
    case 3: t.resize(c.pick((int)t.size())); fs().seekable = !c.flip(); read(c, t, -1); break;
    default: {
      fs().files["b.ppm"] = t;
      il::Status st{};
      il::Array2D<il::Pixel> a = il::readPpm("c.ppm", il::io, st);
      MC_CHECK(c, !st.Ok() && fs().open == 0, "reading a file which does not exist was reported as a success");
    }
  }
}
MC_SUITE("faults and truncations at every byte", faultsBody, 3, 6, true, 2);

static void bytesBody(Ctx& c) {
  reset();
  static const string alphabet("P6\n# 125-+x\r\t\0\xFF", 15);
  static const char* const prefix[] = {"", "P6\n", "P6\n#", "P6\n1 1\n255", "P6\n1 1\n", "P6\n12 "};
  string t = prefix[c.pick(6)];
  for (int i = 0; i < c.bound; ++i) {
    const int k = c.pick((int)alphabet.size() + 1);
    if (k == 0) break;
    t += alphabet[k - 1];
  }
  read(c, t, 0);
}
MC_SUITE("all byte strings", bytesBody, 4, 5, true, 3);

static void tokensBody(Ctx& c) {
  reset();
  static const std::vector<string> p = {"P6", "\n", " ", "#c\n", "#", "1", "2", "255", "256", "-1", "2147483648", "4294967297", "4294967551", "18446744073709551617", "9223372036854775807", "46341", "2147483647", "\x80\n\x01"};
  string t = c.flip() ? "P6\n" : c.flip() ? "P6\n1 1" : "";
  int n = 0;
  for (; n < c.bound; ++n) {
    const int k = c.pick((int)p.size() + 1);
    if (k == 0) break;
    t += p[k - 1];
  }
  read(c, t, 0);
}
MC_SUITE("all token sequences", tokensBody, 4, 5, true, 3);

static void numbersBody(Ctx& c) {
  reset();
  static const char* const v[] = {"0", "1", "2", "3", "-1", "-3", "+2", "002", "255", "46341", "65536", "715827883", "2147483647", "2147483648", "4294967295", "4294967297", "4294967299", "4294967551",
                                  "6148914691236517206", "9223372036854775807", "9223372036854775808", "18446744073709551617", "18446744073709551871", "99999999999999999999999"};
  const int n = sizeof v / sizeof *v;
  string t = string("P6\n") + v[c.pick(n)] + " " + v[c.pick(n)] + "\n" + v[c.pick(n)] + "\n" + pixels(c.of({0, 1, 3, 6, 12, 18, 27, 300}), 4);
  fs().seekable = true;
  read(c, t, 0);
}
MC_SUITE("all combinations of numbers in the header", numbersBody, 1, 1, true, 2);

static const string& corpus(int k) {
  static const string v[] = {"P6\n2 1\n255\nabcdef", "P6\n# c\n#d\n1 3\n255 \n\n\n\n\n\n\n\n\n", "P6\n10 1\n255\n" + pixels(30, 2), "P6\r\n1 1 255\nabc", "P6 1 1 255 abcdefghi", "P6\n1 # c\n1\n255\nabc"};
  return v[k];
}
static void editsBody(Ctx& c) {
  reset();
  static const string sub("P6\n# 125-\r\0\xFF", 12);
  string t = corpus(c.pick(6));
  for (int i = 0; i < c.bound; ++i) {
    const int at = c.pick((int)t.size() + 1);
    if (at == (int)t.size()) { t += sub[c.pick((int)sub.size())]; continue; }
    switch (c.pick(4)) {
      case 0: t.resize(at); break;
      case 1: t.erase(at, 1); break;
      case 2: t[at] = sub[c.pick((int)sub.size())]; break;
      default: t.insert(at, 1, sub[c.pick((int)sub.size())]);
    }
  }
  read(c, t, 0);
}
MC_SUITE("all edits of a corpus", editsBody, 1, 2, true, 2);
