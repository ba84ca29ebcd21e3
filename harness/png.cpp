// P43: PNG images, against a reader and a writer made from the definition of the format.
#include <zlib.h>
#include <cstdlib>
#include <string>
#include <vector>
#include "ilmc.h"
#include "memfs.h"
#include <il/png.h>
using il::int_t;
using mc::Ctx;
using mc::fs;
using std::string;
using std::vector;
typedef unsigned char byte;

static const char kName[] = "a.png";
static const string kSig("\x89PNG\r\n\x1a\n", 8);

// libpng writes its messages there
struct Quiet {
  FILE* saved = stderr;
  Quiet() { static FILE* null = __real_fopen("/dev/null", "w"); stderr = null; }
  ~Quiet() { stderr = saved; }
};

// ---- the format -------------------------------------------------------------
static string be(unsigned long x) { string s; for (int k = 3; k >= 0; --k) s += (char)(x >> (8 * k)); return s; }
static unsigned long rd(const string& s, size_t p) { unsigned long x = 0; for (size_t k = 0; k < 4; ++k) x = x << 8 | (byte)s[p + k]; return x; }
static unsigned long crc(const string& s) { return crc32(0, (const Bytef*)s.data(), (uInt)s.size()); }
static string chunk(const string& type, const string& data) { return be(data.size()) + type + data + be(crc(type + data)); }
static int channels(int type) { return type == 2 ? 3 : type == 4 ? 2 : type == 6 ? 4 : 1; }
static bool legal(int type, int depth) {
  if (type == 0) return depth == 1 || depth == 2 || depth == 4 || depth == 8 || depth == 16;
  if (type == 3) return depth == 1 || depth == 2 || depth == 4 || depth == 8;
  return (type == 2 || type == 4 || type == 6) && (depth == 8 || depth == 16);
}
struct Pass { int x0, y0, dx, dy; };
static vector<Pass> passes(bool adam7) {
  if (!adam7) return {{0, 0, 1, 1}};
  return {{0, 0, 8, 8}, {4, 0, 8, 8}, {0, 4, 4, 8}, {2, 0, 4, 4}, {0, 2, 2, 4}, {1, 0, 2, 2}, {0, 1, 1, 2}};
}
static int paeth(int a, int b, int c) {
  const int p = a + b - c, pa = abs(p - a), pb = abs(p - b), pc = abs(p - c);
  return pa <= pb && pa <= pc ? a : pb <= pc ? b : c;
}
static int predictor(int f, int a, int b, int c) { return f == 0 ? 0 : f == 1 ? a : f == 2 ? b : f == 3 ? (a + b) / 2 : paeth(a, b, c); }

struct Image {
  int w = 0, h = 0, type = 0, depth = 8;
  bool adam7 = false;
  vector<int> s;  // samples: row, column, channel
  vector<byte> palette, alpha;
  int at(int y, int x, int k) const { return s[(size_t)((y * w + x) * channels(type) + k)]; }
};
// What has to be compressed; filter(row) chooses the filter of each row of each pass.
template <typename F> static string scanlines(const Image& im, F filter) {
  const int ch = channels(im.type), bpp = (ch * im.depth + 7) / 8;
  string r;
  int count = 0;
  for (const Pass& p : passes(im.adam7)) {
    if (im.w <= p.x0 || im.h <= p.y0) continue;
    vector<int> prev;
    for (int y = p.y0; y < im.h; y += p.dy) {
      vector<int> row;
      int acc = 0, bits = 0;
      for (int x = p.x0; x < im.w; x += p.dx) for (int k = 0; k < ch; ++k) {
        const int v = im.at(y, x, k);
        if (im.depth == 16) { row.push_back(v >> 8); row.push_back(v & 255); continue; }
        acc = acc << im.depth | v;
        bits += im.depth;
        if (bits == 8) { row.push_back(acc); acc = bits = 0; }
      }
      if (bits) row.push_back(acc << (8 - bits));
      prev.resize(row.size(), 0);
      const int f = filter(count++);
      r += (char)f;
      for (size_t k = 0; k < row.size(); ++k) {
        const int a = k >= (size_t)bpp ? row[k - bpp] : 0, c = k >= (size_t)bpp ? prev[k - bpp] : 0;
        r += (char)(row[k] - predictor(f, a, prev[k], c));
      }
      prev = row;
    }
  }
  return r;
}
static string deflated(const string& raw, int method) {  // 0: stored, else the level of zlib
  if (method > 0) {
    uLongf n = compressBound((uLong)raw.size());
    string r(n, '\0');
    compress2((Bytef*)&r[0], &n, (const Bytef*)raw.data(), (uLong)raw.size(), method);
    r.resize(n);
    return r;
  }
  string r("\x78\x01", 2);
  size_t p = 0;
  do {
    const size_t n = std::min<size_t>(raw.size() - p, 7);
    r += (char)(p + n == raw.size());
    r += (char)n; r += '\0'; r += (char)~n; r += (char)0xFF;
    r += raw.substr(p, n);
    p += n;
  } while (p < raw.size());
  return r + be(adler32(1, (const Bytef*)raw.data(), (uInt)raw.size()));
}
struct Layout { int method = 6; size_t split = 1u << 30; int extra = 0; };
template <typename F> static string encode(const Image& im, F filter, const Layout& l) {
  string r = kSig + chunk("IHDR", be((unsigned long)im.w) + be((unsigned long)im.h) + (char)im.depth + (char)im.type + '\0' + '\0' + (char)im.adam7);
  if (l.extra) r += chunk("gAMA", be(45455)) + chunk("tEXt", string("Title\0text", 10));
  if (im.type == 3) r += chunk("PLTE", string(im.palette.begin(), im.palette.end()));
  if (!im.alpha.empty()) r += chunk("tRNS", string(im.alpha.begin(), im.alpha.end()));
  const string z = deflated(scanlines(im, filter), l.method);
  for (size_t p = 0; p < z.size(); p += l.split) r += chunk("IDAT", z.substr(p, l.split));
  if (l.extra) r += chunk("tIME", string("\x07\xd0\x01\x01\0\0\0", 7)) + chunk("zzZz", "x");
  return r + chunk("IEND", "");
}
// The reader: only images whose pixels are all there are valid. end: where the pixels end.
struct Decoded { bool valid = false; Image im; size_t end = 0; };
static Decoded decode(const string& s) {
  Decoded d;
  if (s.compare(0, 8, kSig) != 0) return d;
  Image& im = d.im;
  string z;
  bool header = false, palette = false, data = false, after = false;
  size_t p = 8, end = 0;
  while (p + 12 <= s.size()) {
    const unsigned long n = rd(s, p);
    if (n > s.size() - p - 12) return d;
    const string type = s.substr(p + 4, 4), body = s.substr(p + 8, n);
    const bool good = rd(s, p + 8 + n) == crc(type + body);
    p += 12 + n;
    if (header == (type == "IHDR")) return d;
    if (type == "IHDR") {
      if (n != 13 || !good) return d;
      header = true;
      if (rd(body, 0) > 100000 || rd(body, 4) > 100000) return d;
      im.w = (int)rd(body, 0); im.h = (int)rd(body, 4);
      im.depth = (byte)body[8]; im.type = (byte)body[9];
      if (!legal(im.type, im.depth) || body[10] != 0 || body[11] != 0 || (byte)body[12] > 1 || im.w == 0 || im.h == 0) return d;
      im.adam7 = body[12] == 1;
    } else if (type == "PLTE") {
      if (!good || n % 3 || n == 0 || n > 768 || palette || data) return d;
      palette = true;
      im.palette.assign(body.begin(), body.end());
    } else if (type == "IDAT") {
      if (!good || after) return d;
      data = true;
      z += body;
      end = p;
    } else {
      if (data) after = true;
      if (type == "tRNS" && good && palette && !data && n <= im.palette.size() / 3) im.alpha.assign(body.begin(), body.end());
      else if (!(type[0] & 0x20) && type != "IEND") return d;
      if (type == "IEND") break;
    }
  }
  if (!data || (im.type == 3) != (palette && im.type == 3)) return d;
  const int ch = channels(im.type), bpp = (ch * im.depth + 7) / 8;
  size_t need = 0;
  for (const Pass& q : passes(im.adam7)) {
    if (im.w <= q.x0 || im.h <= q.y0) continue;
    const size_t w = (size_t)((im.w - q.x0 + q.dx - 1) / q.dx), h = (size_t)((im.h - q.y0 + q.dy - 1) / q.dy);
    need += h * (1 + (w * (size_t)(ch * im.depth) + 7) / 8);
  }
  if (need > 1000000) return d;
  string raw(need + 1, '\0');
  uLongf got = (uLongf)raw.size();
  if (uncompress((Bytef*)&raw[0], &got, (const Bytef*)z.data(), (uLong)z.size()) != Z_OK || got != need) return d;
  im.s.assign((size_t)(im.w * im.h * ch), 0);
  size_t pos = 0;
  for (const Pass& q : passes(im.adam7)) {
    if (im.w <= q.x0 || im.h <= q.y0) continue;
    const size_t w = (size_t)((im.w - q.x0 + q.dx - 1) / q.dx), len = (w * (size_t)(ch * im.depth) + 7) / 8;
    vector<int> prev(len, 0), row(len, 0);
    for (int y = q.y0; y < im.h; y += q.dy) {
      const int f = (byte)raw[pos++];
      if (f > 4) return d;
      for (size_t k = 0; k < len; ++k) {
        const int a = k >= (size_t)bpp ? row[k - bpp] : 0, c = k >= (size_t)bpp ? prev[k - bpp] : 0;
        row[k] = ((byte)raw[pos++] + predictor(f, a, prev[k], c)) & 255;
      }
      size_t bit = 0;
      for (int x = q.x0; x < im.w; x += q.dx) for (int k = 0; k < ch; ++k) {
        int v;
        if (im.depth == 16) v = row[bit / 8] << 8 | row[bit / 8 + 1];
        else v = row[bit / 8] >> (8 - im.depth - (int)(bit % 8)) & ((1 << im.depth) - 1);
        bit += (size_t)im.depth;
        im.s[(size_t)((y * im.w + x) * ch + k)] = v;
      }
      prev = row;
    }
  }
  d.end = end;
  d.valid = true;
  return d;
}
// What il::loadPng returns for it: samples of 8 bits, the colors of a palette
static bool supported(const Image& im) { return im.depth == 8 || im.type == 3; }
static int outputs(const Image& im) { return im.type == 3 ? (im.alpha.empty() ? 3 : 4) : channels(im.type); }
static int output(const Image& im, int y, int x, int k) {  // -1: not defined
  if (im.type != 3) return im.at(y, x, k);
  const size_t i = (size_t)im.at(y, x, 0);
  if (3 * i + 2 >= im.palette.size()) return -1;
  return k < 3 ? im.palette[3 * i + (size_t)k] : i < im.alpha.size() ? im.alpha[i] : 255;
}

// ---- the checks -------------------------------------------------------------
static void reset() { fs() = mc::MemFs(); }
static string show(const string& s) {
  string r;
  for (byte ch : s.substr(0, 160)) { char b[8]; sprintf(b, "%02x", ch); r += b; }
  return r;
}
static void compare(Ctx& c, const il::Array3C<byte>& a, const Image& im) {
  MC_CHECK(c, a.size(0) == im.h && a.size(1) == im.w && a.size(2) == outputs(im),
           "the image of %d rows, %d columns and %d colors was read as one of %td x %td x %td", im.h, im.w, outputs(im), a.size(0), a.size(1), a.size(2));
  for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) for (int k = 0; k < outputs(im); ++k) {
    const int v = output(im, y, x, k);
    if (v >= 0 && a(y, x, k) != v) c.fail("color %d of the pixel in row %d and column %d is %d instead of %d", k, y, x, a(y, x, k), v);
  }
}
// must: 1 it has to be read, 0 no demand, -1 it must not be read
static bool load(Ctx& c, const string& file, int must, const Image* what = nullptr) {
  fs().files[kName] = file;
  c.log("file (%zu bytes): %s", file.size(), show(file).c_str());
  bool ok;
  {
    il::Status st{};
    il::Array3C<byte> a{};
    {
      Quiet q;
      a = il::loadPng(il::String{kName}, il::io, st);
    }
    ok = st.Ok();
    MC_CHECK(c, fs().open == 0, "reading left %d file handle(s) open", fs().open);
    MC_CHECK(c, !fs().opened_for_writing && fs().files[kName] == file, "the file was opened for writing");
    if (must == 1) MC_CHECK(c, ok, "a valid image was not read");
    if (must == -1) MC_CHECK(c, !ok, "a failure to read the image was not reported");
    if (ok && what) compare(c, a, *what);
    if (!ok) MC_CHECK(c, a.size(0) == 0 && a.size(1) == 0 && a.size(2) == 0, "an image comes with the error");
  }
  return ok;
}
static void judge(Ctx& c, const string& file) {
  const Decoded d = decode(file);
  if (!d.valid) load(c, file, 0);
  else load(c, file, supported(d.im) ? 1 : -1, &d.im);
}
static Image picture(int h, int w, int type, int depth, int seed, bool trns) {
  Image im;
  im.h = h; im.w = w; im.type = type; im.depth = depth;
  const int top = 1 << depth, colors = std::min(top, 5);
  for (int k = 0; k < h * w * channels(type); ++k) {
    const int v = seed == 0 ? k * 37 + 11 : seed == 1 ? (k * k * 13 + k) ^ (k << 3) : seed == 2 ? (k % 3 == 0 ? -1 : 0) : k * 3 + k / 7;
    im.s.push_back(type == 3 ? ((v % colors) + colors) % colors : depth == 16 ? (v * 259) & 0xFFFF : v & (top - 1));
  }
  if (type == 3) {
    for (int k = 0; k < 3 * colors; ++k) im.palette.push_back((byte)(k * 71 + 5));
    if (trns) for (int k = 0; k < colors - 1; ++k) im.alpha.push_back((byte)(200 - k * 60));
  }
  return im;
}
static il::Array3C<byte> tensor(const Image& im) {
  il::Array3C<byte> a{im.h, im.w, channels(im.type)};
  for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) for (int k = 0; k < channels(im.type); ++k) a(y, x, k) = (byte)im.at(y, x, k);
  return a;
}
static void saved(Ctx& c, const Image& im, const il::Array3C<byte>& a, int how) {
  il::Status st{};
  {
    Quiet q;
    if (how == 0) il::savePng(a, il::String{kName}, il::io, st);
    else il::save(a, il::String{kName}, il::io, st);
  }
  const bool ok = st.Ok();
  MC_CHECK(c, ok, "the image was not saved");
  MC_CHECK(c, fs().open == 0, "saving left %d file handle(s) open", fs().open);
  const string file = fs().files[kName];
  const Decoded d = decode(file);
  MC_CHECK(c, d.valid, "what was saved is not a PNG file: %s", show(file).c_str());
  MC_CHECK(c, d.im.w == im.w && d.im.h == im.h && d.im.type == im.type && d.im.depth == 8, "the image saved is %d x %d, of type %d and depth %d", d.im.h, d.im.w, d.im.type, d.im.depth);
  MC_CHECK(c, d.im.s == im.s, "the image saved has other pixels");
  fs().opened_for_writing = false;
  load(c, file, 1, &im);
}
static const int kType[4] = {0, 4, 2, 6};
// all small images
static void small(Ctx& c) {
  reset();
  Image im;
  im.h = 1 + c.pick(3); im.w = 1 + c.pick(3); im.type = kType[c.pick(4)];
  const int n = im.h * im.w * channels(im.type);
  if (n > c.bound) return;
  static const int v[4] = {0, 255, 128, 1};
  for (int k = 0; k < n; ++k) im.s.push_back(v[c.pick(n <= 4 ? 4 : n <= 6 ? 3 : 2)]);
  saved(c, im, tensor(im), 0);
}
static void shapes(Ctx& c) {
  reset();
  const int side = c.bound;
  int h = 1 + c.pick(side), w = 1 + c.pick(side);
  const int big = c.pick(4);  // also images with more than one block of data
  if (big) { if (h > 2 || w > 2) return; (big == 1 ? h : big == 2 ? w : h) += 300; if (big == 3) w += 200; }
  const int type = kType[c.pick(4)];
  const Image im = picture(h, w, type, 8, c.pick(4), false);
  il::Array3C<byte> a = tensor(im);
  saved(c, im, a, c.pick(2));
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int k = 0; k < channels(type); ++k) if (a(y, x, k) != im.at(y, x, k)) c.fail("the image was modified");
}
// images with sides, rows and sizes which do not fit 8 or 16 bits
static void large(Ctx& c) {
  reset();
  static const int side[][2] = {{256, 256}, {255, 257}, {1, 70000}, {70000, 1}, {1000, 70}, {23, 4096}, {32768, 2}, {2, 32769}, {3, 21846}};
  const int w = c.pick(9);
  const int type = kType[c.pick(4)];
  Image im = picture(side[w][0], side[w][1], type, 8, c.pick(4), false);
  c.log("%d rows, %d columns, type %d", im.h, im.w, type);
  if (c.flip()) { saved(c, im, tensor(im), c.pick(2)); return; }
  im.adam7 = c.flip();
  Layout l;
  l.split = c.of({1 << 30, 30000});
  load(c, encode(im, [&](int r) { return r % 5; }, l), 1, &im);
}
// images of one color are written with three equal ones
static void gray(Ctx& c) {
  reset();
  const int h = 1 + c.pick(4), w = 1 + c.pick(4), seed = c.pick(4);
  const Image one = picture(h, w, 0, 8, seed, false);
  Image im = one;
  im.type = 2;
  im.s.clear();
  il::Array2C<byte> a{h, w};
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { a(y, x) = (byte)one.at(y, x, 0); for (int k = 0; k < 3; ++k) im.s.push_back(one.at(y, x, 0)); }
  il::Status st{};
  { Quiet q; il::save(a, il::String{kName}, il::io, st); }
  const bool ok = st.Ok();
  MC_CHECK(c, ok && fs().open == 0, "the image was not saved");
  const string file = fs().files[kName];
  const Decoded d = decode(file);
  MC_CHECK(c, d.valid && d.im.w == w && d.im.h == h, "what was saved is not a PNG file with that image");
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int k = 0; k < channels(d.im.type); ++k)
    if (d.im.at(y, x, k) != one.at(y, x, 0)) c.fail("the image saved has other pixels");
}
// all kinds of files
static const int kKinds[15][2] = {{0, 1}, {0, 2}, {0, 4}, {0, 8}, {0, 16}, {2, 8}, {2, 16}, {3, 1}, {3, 2}, {3, 4}, {3, 8}, {4, 8}, {4, 16}, {6, 8}, {6, 16}};
static void kinds(Ctx& c) {
  reset();
  const int kind = c.pick(15);
  const bool trns = kKinds[kind][0] == 3 && c.flip();
  const int h = 1 + c.pick(c.bound), w = 1 + c.pick(c.bound);
  Image im = picture(h, w, kKinds[kind][0], kKinds[kind][1], c.pick(3), trns);
  im.adam7 = c.flip();
  Layout l;
  l.method = c.of({6, 0});
  l.split = c.of({1 << 30, 1, 9});
  l.extra = c.pick(2);
  const int f = c.pick(6);
  load(c, encode(im, [&](int r) { return f < 5 ? f : (r + 1) % 5; }, l), supported(im) ? 1 : -1, &im);
}
// every choice of the filters of the rows
static void filters(Ctx& c) {
  reset();
  const int type = c.of({2, 0, 4, 6}), h = 1 + c.pick(c.bound), w = 1 + c.pick(3);
  Image im = picture(h, w, type, 8, c.pick(4), false);
  vector<int> f;
  for (int r = 0; r < h; ++r) f.push_back(c.pick(5));
  load(c, encode(im, [&](int r) { return f[(size_t)r]; }, Layout()), 1, &im);
}
// ---- damaged files ----------------------------------------------------------
static Image sample(Ctx& c, bool big) {
  const int kind = c.pick(7);
  static const int type[7] = {2, 0, 4, 6, 3, 3, 2};
  Image im = picture(2 + big, 3, type[kind], 8, 0, kind == 5);
  im.adam7 = kind == 6;
  return im;
}
static void truncated(Ctx& c) {
  reset();
  const Image im = sample(c, c.thorough);
  Layout l;
  l.method = c.of({6, 0});
  l.split = c.of({1 << 30, 5});
  l.extra = c.pick(2);
  const string file = encode(im, [](int r) { return r % 5; }, l);
  const size_t n = (size_t)c.pick((int)file.size() + 1);
  const int fault = c.pick(2);
  if (fault) fs().read_fault = (long)n;
  fs().vbuf = c.of({-1, 0, 5});
  const Decoded d = decode(file);
  if (fault && n == file.size()) fs().read_fault = -1;
  // nothing after the pixels has to be there
  load(c, fault ? file : file.substr(0, n), n == file.size() ? 1 : n < d.end ? -1 : 0, &im);
}
static void corrupted(Ctx& c) {
  reset();
  const Image im = sample(c, c.thorough);
  Layout l;
  l.method = c.of({6, 0});
  const string file = encode(im, [](int r) { return r % 5; }, l);
  const size_t n = (size_t)c.pick((int)file.size());
  const int how = c.pick(c.thorough ? 255 : 11);
  string bad = file;
  bad[n] = (char)(bad[n] ^ (c.thorough ? how + 1 : how < 8 ? 1 << how : how == 8 ? 255 : how == 9 ? 0x20 : 0x7F));
  // a damaged transparency is ignored; every other change is found, or changes nothing
  const size_t t = file.find("tRNS");
  const bool lenient = t != string::npos && n >= t - 4 && n < t + 4 + im.alpha.size() + 4;
  load(c, bad, 0, lenient ? nullptr : &im);
}
// consistent files with another header
static void headers(Ctx& c) {
  reset();
  Image im = picture(3, 4, c.of({2, 0, 4, 6, 3}), 8, 0, false);
  im.adam7 = c.flip();
  string file = encode(im, [](int r) { return r % 5; }, Layout());
  const int field = c.pick(8);
  if (field == 7) {  // the depth and the type together
    file[24] = (char)c.of({1, 2, 4, 8, 16});
    file[25] = (char)c.pick(8);
  } else if (field < 2) file.replace((size_t)(16 + 4 * field), 4, be((unsigned long)c.of({0, 1, 2, 3, 4, 5, 8, 300})));
  else file[(size_t)(16 + 6 + field)] = (char)c.pick(256);
  file.replace(29, 4, be(crc(file.substr(12, 17))));
  judge(c, file);
}
// consistent files with other data
static void contents(Ctx& c) {
  reset();
  const Image im = picture(2, 2, c.of({2, 0, 4, 6, 3}), 8, 0, false);
  string raw = scanlines(im, [](int r) { return r % 5; });
  const int what = c.pick(4);
  if (what == 0) raw.resize((size_t)c.pick((int)raw.size()));
  else if (what == 1) raw[(size_t)c.pick(2) * (raw.size() / 2)] = (char)c.pick(256);
  else if (what == 2) raw += string((size_t)(1 + c.pick(9)), 'x');
  string z = deflated(raw, c.of({0, 6}));
  string file = kSig + chunk("IHDR", be((unsigned long)im.w) + be((unsigned long)im.h) + (char)8 + (char)im.type + string(3, '\0'));
  const string plte = chunk("PLTE", string(im.palette.begin(), im.palette.end()));
  vector<string> parts;
  if (im.type == 3) parts.push_back(plte);
  parts.push_back(chunk("IDAT", z.substr(0, z.size() / 2)));
  parts.push_back(chunk("IDAT", z.substr(z.size() / 2)));
  parts.push_back(chunk("IEND", ""));
  if (what == 3) {  // a part removed, repeated, or exchanged with the next, a foreign one
    const int op = c.pick(5);
    const size_t k = (size_t)c.pick((int)parts.size());
    if (op == 0) parts.erase(parts.begin() + (long)k);
    if (op == 1) parts.insert(parts.begin() + (long)k, parts[k]);
    if (op == 2 && k + 1 < parts.size()) std::swap(parts[k], parts[k + 1]);
    if (op == 3) parts.insert(parts.begin() + (long)k, chunk("ABCD", "critical"));
    if (op == 4) parts.insert(parts.begin() + (long)k, chunk("abCd", ""));
  }
  for (const string& p : parts) file += p;
  const Decoded d = decode(file);
  if (d.valid) judge(c, file);
  else if (what == 0) load(c, file, -1);  // pixels are missing
  else load(c, file, 0);
}
static void shorts(Ctx& c) {
  reset();
  string file;
  const int n = c.pick(c.bound + 1);
  static const char letters[] = {'\x89', 'P', 'N', 'G', '\r', '\n', '\x1a', '\n'};
  for (int k = 0; k < n; ++k) { const int w = c.pick(3); file += w == 0 ? letters[k % 8] : w == 1 ? '\0' : 'x'; }
  const int unread = c.pick(2);
  if (unread) fs().read_chunk = 1;
  load(c, file, -1);
}
static void missing(Ctx& c) {
  reset();
  const int what = c.pick(3);
  const Image im = picture(2, 2, 2, 8, 0, false);
  if (what > 0) fs().files[kName] = encode(im, [](int) { return 0; }, Layout());
  if (what == 1) fs().open_errno = c.of({EACCES, EMFILE, ENOENT, EISDIR});
  if (what == 2) fs().opens_left = 0;
  il::Status st{};
  il::Array3C<byte> a = il::loadPng(il::String{kName}, il::io, st);
  const bool ok = st.Ok();
  MC_CHECK(c, !ok && a.size(0) == 0 && fs().open == 0, "a file that can not be opened was read");
}
// ---- failures when writing --------------------------------------------------
static void writes(Ctx& c) {
  reset();
  const Image im = picture(c.of({2, 3}), c.of({1, 5}), kType[c.pick(4)], 8, 0, false);
  const il::Array3C<byte> a = tensor(im);
  il::Status st0{};
  il::savePng(a, il::String{kName}, il::io, st0);
  if (!st0.Ok()) { c.fail("the image was not saved"); return; }
  const string file = fs().files[kName];
  reset();
  const int what = c.pick(5);
  fs().vbuf = c.of({-1, 0, 7});
  if (what == 0) fs().write_limit = c.pick((int)file.size() + 1);
  if (what == 1) fs().close_fault = true;
  if (what == 2) fs().read_only.insert(kName);
  if (what == 3) fs().open_errno = c.of({EACCES, EMFILE, ENOENT, EISDIR});
  const bool works = what == 4 || (what == 0 && fs().write_limit == (long)file.size());
  il::Status st{};
  { Quiet q; il::savePng(a, il::String{kName}, il::io, st); }
  const bool ok = st.Ok();
  MC_CHECK(c, fs().open == 0, "saving left %d file handle(s) open", fs().open);
  MC_CHECK(c, ok == works, works ? "the image was not saved" : "a failure to write was not reported");
  if (works) MC_CHECK(c, fs().files[kName] == file, "the file is another one");
}
// images that do not exist in this format
static void unsupported(Ctx& c) {
  reset();
  const int h = c.pick(3), w = c.pick(3), k = c.pick(7);
  if (h > 0 && w > 0 && k >= 1 && k <= 4) return;
  if (k < 1 || k > 4) {
#ifdef MC_CHECKED
    fs().files[kName] = "precious";
    bool thrown = false;
    il::Status st{};
    try { Quiet q; il::savePng(il::Array3C<byte>{h, w, k, (byte)7}, il::String{kName}, il::io, st); } catch (const il::AbortException&) { thrown = true; }
    MC_CHECK(c, thrown, "an image of %d colors was accepted", k);
    MC_CHECK(c, fs().files[kName] == "precious" && fs().open == 0, "the file was touched");
#endif
    return;
  }
  il::Status st{};
  { Quiet q; il::savePng(il::Array3C<byte>{h, w, k, (byte)7}, il::String{kName}, il::io, st); }
  const bool ok = st.Ok();
  MC_CHECK(c, !ok && fs().open == 0, "an image without any pixel was saved");
}
MC_SUITE("small images", small, 6, 9);
MC_SUITE("shapes", shapes, 9, 17);
MC_SUITE("large images", large, 1, 1);
MC_SUITE("images of one color", gray, 1, 1);
MC_SUITE("kinds of files", kinds, 5, 10);
MC_SUITE("filters", filters, 4, 5);
MC_SUITE("truncated files", truncated, 1, 1);
MC_SUITE("corrupted files", corrupted, 1, 1);
MC_SUITE("headers", headers, 1, 1);
MC_SUITE("contents", contents, 1, 1);
MC_SUITE("short files", shorts, 8, 9);
MC_SUITE("missing files", missing, 1, 1);
MC_SUITE("failures when writing", writes, 1, 1);
MC_SUITE("unsupported images", unsupported, 1, 1);
