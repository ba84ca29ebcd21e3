// P22/P23: NumPy files, against an independent parser of the format.
#include <algorithm>
#include <cmath>
#include <limits>
#include <vector>
#include "ilmc.h"
#include "memfs.h"
#include "npy.h"
#include <il/Array.h>
#include <il/Array2D.h>
#include <il/numpy.h>
using il::int_t;
using mc::Ctx;
using mc::fs;

template <typename T> struct Ty;
template <> struct Ty<int> {
  static const char* name() { return "i4"; }
  static int at(int k) { static const int p[] = {0x01020304, -1, 0, std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), 10, 0x0a0d1a00}; return p[k % 7]; }
};
template <> struct Ty<double> {
  static const char* name() { return "f8"; }
  static double at(int k) {
    static const uint64_t p[] = {0x0102030405060708ull, 0x8000000000000000ull, 0x7ff8000000000001ull, 0xfff0000000000000ull, 1, 0x3ff0000000000000ull, 0x0a0a0a0a0d0a1a0aull};
    double x; memcpy(&x, &p[k % 7], 8); return x;
  }
};
template <> struct Ty<int_t> {
  static const char* name() { return "i8"; }
  static int_t at(int k) { static const int_t p[] = {0x0102030405060708, -1, 0, std::numeric_limits<int_t>::min(), std::numeric_limits<int_t>::max(), 10, 0x0a0d1a0a}; return p[k % 7]; }
};
template <typename T> bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
static void reset() { fs() = mc::MemFs(); }
static const char kName[] = "a.npy";
template <typename A> static A load(Ctx& c, bool& ok) {
  il::Status st{};
  A a = il::load<A>(il::String(kName), il::io, st);
  ok = st.Ok();
  MC_CHECK(c, fs().open == 0, "loading left %d file handle(s) open", fs().open);
  MC_CHECK(c, !fs().opened_for_writing, "the file was opened for writing by a load");
  return a;
}
// il::load takes an il::String or a std::string
template <typename T> static void expect(Ctx& c, const il::Array<T>& v, const std::vector<T>& want, const char* what) {
  MC_CHECK(c, v.size() == (int_t)want.size(), "%s: size %ld, expected %zu", what, (long)v.size(), want.size());
  c.checks();
  if (!want.empty() && memcmp(v.data(), want.data(), want.size() * sizeof(T)) == 0) return;
  for (size_t i = 0; i < want.size(); ++i) MC_CHECK(c, same(v[(int_t)i], want[i]), "%s: entry %zu differs", what, i);
}
template <typename T> static void expect(Ctx& c, const il::Array2D<T>& v, long n0, long n1, const std::vector<T>& want, const char* what) {
  MC_CHECK(c, v.size(0) == n0 && v.size(1) == n1, "%s: shape %ld x %ld, expected %ld x %ld", what, (long)v.size(0), (long)v.size(1), n0, n1);
  for (long j = 0; j < n1; ++j) for (long i = 0; i < n0; ++i) MC_CHECK(c, same(v(i, j), want[(size_t)(i + n0 * j)]), "%s: entry (%ld, %ld) differs", what, i, j);
}
template <typename T> static void wellFormed(Ctx& c, const std::vector<uint64_t>& shape, const std::vector<T>& want) {
  const std::string& s = fs().files[kName];
  npy::File f = npy::parse(s);
  MC_CHECK(c, f.v == npy::Good, "the file written is not well formed: %s", f.v == npy::Bad ? f.why : "it uses an unusual form");
  MC_CHECK(c, f.endian == '<' && f.type == Ty<T>::name(), "the file written says its type is %c%s", f.endian, f.type.c_str());
  MC_CHECK(c, f.shape == shape, "the file written has a wrong shape");
  MC_CHECK(c, f.fortran || shape.size() == 1, "the file written has a wrong order");
  MC_CHECK(c, f.data % 16 == 0, "the entries of the file written are not aligned");
  MC_CHECK(c, s.size() == f.data + want.size() * sizeof(T), "the file written has %zu bytes of data, expected %zu", s.size() - f.data, want.size() * sizeof(T));
  MC_CHECK(c, want.empty() || memcmp(s.data() + f.data, want.data(), want.size() * sizeof(T)) == 0, "the file written does not hold the entries in order");
}

#if PART == 22
template <typename T> static void vec(Ctx& c) {
  reset();
  static const int big[] = {9, 10, 11, 99, 100, 101, 511, 512, 513, 1000, 4095, 4096, 9999, 10000, 65535, 65536, 99999, 100000};
  const int w = c.pick(5 + (int)(sizeof(big) / sizeof(big[0])));
  const int n = w < 5 ? w : big[w - 5];
  const int shift = w < 5 ? c.pick(7) : 0;
  const int hist = w < 5 ? c.pick(6) : c.pick(2);
  fs().vbuf = c.of({-1, 0, 1, 64});
  if (c.flip()) fs().files[kName] = std::string(c.of({1, 1000000}), 'x');
  il::Array<T> v;
  switch (hist) {
    case 0: v.Resize(n); break;
    case 1: v.Reserve(n + 3); v.Resize(n); break;
    case 2: v.Resize(n + 2); v.Resize(n); break;
    case 3: for (int i = 0; i < n; ++i) v.Append(T(0)); break;
    case 4: v = il::Array<T>{n, il::align, 32}; break;
    default: { il::Array<T> u{n + 1}; u.Resize(n); v = std::move(u); }
  }
  std::vector<T> want;
  for (int i = 0; i < n; ++i) { want.push_back(Ty<T>::at(i + shift)); memcpy(v.Data() + i, &want.back(), sizeof(T)); }
  c.log("vector of %d %s, values from pattern %d, history %d, stdio buffer %d", n, Ty<T>::name(), shift, hist, fs().vbuf);
  il::Status st{};
  il::save(v, il::String(kName), il::io, st);
  MC_CHECK(c, st.Ok(), "saving failed");
  MC_CHECK(c, fs().open == 0, "saving left a file open");
  expect(c, v, want, "the vector saved");
  wellFormed<T>(c, {(uint64_t)n}, want);
  const std::string bytes = fs().files[kName];
  fs().opened_for_writing = false;
  if (c.flip()) fs().read_only.insert(kName);
  bool ok;
  auto u = load<il::Array<T>>(c, ok);
  MC_CHECK(c, ok, "loading the file back failed");
  expect(c, u, want, "the vector loaded");
  MC_CHECK(c, fs().files[kName] == bytes, "loading changed the file");
  if (c.flip()) {  // a name held in a std::string
    il::Status s2{};
    auto x = il::load<il::Array<T>>(std::string(kName), il::io, s2);
    MC_CHECK(c, s2.Ok(), "loading from a std::string name failed");
    expect(c, x, want, "the vector loaded from a std::string name");
  }
}
template <typename T> static void mat(Ctx& c) {
  reset();
  static const int big[][2] = {{1, 10}, {10, 1}, {10, 10}, {100, 3}, {3, 100}, {9, 99}, {512, 2}, {513, 1}, {1, 513}, {1000, 10}, {0, 10}, {10, 0}, {0, 1000}, {1000, 0}, {1, 9999}, {9999, 1}, {1, 10000}, {10000, 1}, {10000, 2}, {2, 12345}, {1, 65536}, {65536, 1}, {1, 100000}, {100000, 1}, {0, 10000}, {0, 1000000}, {1000000, 0}};
  const int w = c.pick(16 + (int)(sizeof(big) / sizeof(big[0])));
  const int n0 = w < 16 ? w / 4 : big[w - 16][0], n1 = w < 16 ? w % 4 : big[w - 16][1];
  const int shift = w < 16 ? c.pick(7) : 0;
  const int hist = c.pick(w < 16 ? 7 : 3);
  fs().vbuf = c.of({-1, 0, 1, 64});
  il::Array2D<T> v;
  switch (hist) {
    case 0: v.Resize(n0, n1); break;
    case 1: v.Reserve(n0 + 2, n1 + 1); v.Resize(n0, n1); break;
    case 2: v.Resize(n0 + 1, n1 + 2); v.Resize(n0, n1); break;
    case 3: v = il::Array2D<T>{n0, n1, il::align, 32}; break;
    case 4: v = il::Array2D<T>{n0, n1, il::align, 8, 8, 64}; break;
    case 5: { il::Array2D<T> u{n0 + 1, n1}; u.Resize(n0, n1); v = std::move(u); break; }
    default: { il::Array2D<T> u{n0 + 1, n1 + 1}; u.Resize(n0, n1); v = u; }
  }
  std::vector<T> want;
  for (int j = 0; j < n1; ++j) for (int i = 0; i < n0; ++i) { want.push_back(Ty<T>::at(i + n0 * j + shift)); memcpy(&v(i, j), &want.back(), sizeof(T)); }
  c.log("matrix %d x %d of %s, values from pattern %d, history %d, stdio buffer %d", n0, n1, Ty<T>::name(), shift, hist, fs().vbuf);
  il::Status st{};
  il::save(v, il::String(kName), il::io, st);
  MC_CHECK(c, st.Ok(), "saving failed");
  MC_CHECK(c, fs().open == 0, "saving left a file open");
  expect(c, v, n0, n1, want, "the matrix saved");
  wellFormed<T>(c, {(uint64_t)n0, (uint64_t)n1}, want);
  fs().opened_for_writing = false;
  bool ok;
  auto u = load<il::Array2D<T>>(c, ok);
  MC_CHECK(c, ok, "loading the file back failed");
  expect(c, u, n0, n1, want, "the matrix loaded");
}
// A file in any form NumPy writes is loaded.
template <typename T> static void foreign(Ctx& c) {
  reset();
  const int rank = 1 + c.pick(2);
  const int n0 = c.pick(4), n1 = rank == 2 ? c.pick(4) : 1;
  std::string part[3];
  const int q = c.pick(2);
  const std::string Q = q ? "\"" : "'", colon = c.of({": ", ":", " : "}), comma = c.of({", ", ",", " ,"});
  part[0] = Q + "descr" + Q + colon + Q + "<" + Ty<T>::name() + Q;
  part[1] = Q + "fortran_order" + Q + colon + (rank == 2 ? "True" : c.of({"False", "True"}));
  part[2] = Q + "shape" + Q + colon + "(" + std::to_string(n0) + (rank == 2 ? comma + std::to_string(n1) + c.of({"", ","}) : ",") + ")";
  int perm[3] = {0, 1, 2};
  for (int k = c.pick(6); k > 0; --k) std::next_permutation(perm, perm + 3);
  const std::string dict = c.of({"{", "{ "}) + part[perm[0]] + comma + part[perm[1]] + comma + part[perm[2]] + c.of({", }", "}", " }"});
  std::vector<T> want;
  for (int i = 0; i < n0 * n1; ++i) want.push_back(Ty<T>::at(i + 1));
  const int align = c.of({16, 64});
  fs().files[kName] = npy::header(dict, align) + std::string((const char*)want.data(), want.size() * sizeof(T));
  c.log("file with header %s", dict.c_str());
  MC_CHECK(c, npy::parse(fs().files[kName]).v == npy::Good, "harness error: not a good file");
  bool ok;
  if (rank == 1) { auto u = load<il::Array<T>>(c, ok); MC_CHECK(c, ok, "a well-formed file was not loaded: %s", dict.c_str()); expect(c, u, want, "the vector loaded"); }
  else { auto u = load<il::Array2D<T>>(c, ok); MC_CHECK(c, ok, "a well-formed file was not loaded: %s", dict.c_str()); expect(c, u, n0, n1, want, "the matrix loaded"); }
}
// Types NumPy files cannot hold here are refused, not written without a type.
static void unsupported(Ctx& c) {
  reset();
  const int n = c.pick(3);
  il::Status st{};
  switch (c.pick(4)) {
    case 0: { il::Array<float> v{n, 1.0f}; il::save(v, il::String(kName), il::io, st); break; }
    case 1: { il::Array<char> v{n, 'a'}; il::save(v, il::String(kName), il::io, st); break; }
    case 2: { il::Array2D<float> v{n, 2, 1.0f}; il::save(v, il::String(kName), il::io, st); break; }
    default: { il::Array<short> v{n, (short)1}; il::save(v, il::String(kName), il::io, st); }
  }
  if (st.Ok()) {  // should it be supported one day, the file must be right
    const npy::File f = npy::parse(fs().files[kName]);
    MC_CHECK(c, f.v == npy::Good || f.endian == '|', "success was reported, but the file written is not well formed: %s", f.why);
  }
  MC_CHECK(c, fs().open == 0, "saving left a file open");
}
// Long headers are legal.
static void longHeader(Ctx& c) {
  reset();
  const int align = c.of({64, 128, 4096, 32768, 65536 - 64});
  std::vector<int> want{1, 2, 3};
  fs().vbuf = c.of({-1, 0, 1});
  fs().files[kName] = npy::file("<i4", false, {3}, std::string((const char*)want.data(), 12), align);
  bool ok;
  auto u = load<il::Array<int>>(c, ok);
  MC_CHECK(c, ok, "a file with a header of about %d bytes was not loaded", align);
  expect(c, u, want, "the vector loaded");
}
MC_SUITE("save and load vectors of int", vec<int>, 1, 1);
MC_SUITE("save and load vectors of double", vec<double>, 1, 1);
MC_SUITE("save and load vectors of il::int_t", vec<int_t>, 1, 1);
MC_SUITE("save and load matrices of int", mat<int>, 1, 1);
MC_SUITE("save and load matrices of double", mat<double>, 1, 1);
MC_SUITE("save and load matrices of il::int_t", mat<int_t>, 1, 1);
MC_SUITE("files of NumPy: int", foreign<int>, 1, 1);
MC_SUITE("files of NumPy: double", foreign<double>, 1, 1);
MC_SUITE("types without a NumPy name", unsupported, 1, 1);
MC_SUITE("long headers", longHeader, 1, 1);
#endif

#if PART == 23
// Loads the file as every supported type and judges each result by the parser.
template <typename T> static void judge(Ctx& c, int rank) {
  const std::string bytes = fs().files[kName];
  const npy::File f = npy::parse(bytes);
  const bool type_ok = f.v != npy::Bad && f.type == Ty<T>::name() && f.endian != '>';
  const int64_t n = f.v == npy::Bad ? -1 : npy::entries(f, sizeof(T), bytes.size() - f.data);
  bool must = f.v == npy::Good && type_ok && (int)f.shape.size() == rank && n >= 0;
  bool may = f.v != npy::Bad && type_ok && (int)f.shape.size() == rank && n >= 0;
  if (rank == 2 && f.v != npy::Bad && !f.fortran) {
    must = false;  // with at most one row or column the order does not matter
    if (may && n > 0 && f.shape[0] > 1 && f.shape[1] > 1) may = false;
  }
  // an empty matrix with an enormous other extent may be refused
  for (uint64_t k : f.shape) if (k > 1000000) must = false;
  bool ok;
  std::vector<T> want((size_t)std::max<int64_t>(n, 0));
  if (n > 0) memcpy(want.data(), bytes.data() + f.data, (size_t)n * sizeof(T));
  if (rank == 1) {
    auto u = load<il::Array<T>>(c, ok);
    MC_CHECK(c, ok || !must, "a well-formed file of the type asked for was not loaded");
    MC_CHECK(c, !ok || may, "a damaged or mismatched file was loaded without an error as a vector of %s (%s)", Ty<T>::name(), f.v == npy::Bad ? f.why : !type_ok ? "the type differs" : n < 0 ? "the data is incomplete" : "the rank differs");
    if (ok) expect(c, u, want, "the vector loaded");
  } else {
    auto u = load<il::Array2D<T>>(c, ok);
    MC_CHECK(c, ok || !must, "a well-formed file of the type asked for was not loaded");
    MC_CHECK(c, !ok || may, "a damaged or mismatched file was loaded without an error as a matrix of %s (%s)", Ty<T>::name(), f.v == npy::Bad ? f.why : !type_ok ? "the type differs" : n < 0 ? "the data is incomplete" : "the rank or the order differs");
    if (ok) expect(c, u, (long)f.shape[0], (long)f.shape[1], want, "the matrix loaded");
  }
  MC_CHECK(c, fs().files[kName] == bytes, "loading changed the file");
}
static void judgeAny(Ctx& c, int w) {
  switch (w) {
    case 0: judge<int>(c, 1); break;
    case 1: judge<double>(c, 1); break;
    case 2: judge<int_t>(c, 1); break;
    case 3: judge<int>(c, 2); break;
    case 4: judge<double>(c, 2); break;
    default: judge<int_t>(c, 2);
  }
}
struct Base { const char* descr; bool fortran; std::vector<long> shape; int align; int bytes; };
static const std::vector<Base>& bases() {
  static const std::vector<Base> b{{"<i4", true, {3}, 64, 12}, {"<f8", true, {2, 3}, 64, 48}, {"<f8", false, {2}, 16, 16}, {"<i8", false, {1}, 64, 8},
                                   {"<i4", true, {0}, 64, 0}, {"<i4", true, {2, 2}, 64, 16}, {"<f8", false, {2, 2}, 64, 32}, {"<i8", true, {0, 2}, 64, 0},
                                   {">i4", true, {2}, 64, 8}, {"<f4", true, {3}, 64, 12}, {"<i4", true, {2, 1, 1}, 64, 8}, {"|i1", true, {4}, 64, 4}, {"<c16", true, {1}, 64, 16}, {"<i4", true, {12}, 64, 48}};
  return b;
}
static std::string baseFile(const Base& b) {
  std::string d;
  for (int i = 0; i < b.bytes; ++i) d += (char)(i * 37 + 1);
  return npy::file(b.descr, b.fortran, b.shape, d, b.align);
}
static int own(const Base& b) {  // the loaders that fit the file best
  const int t = !strcmp(b.descr, "<f8") ? 1 : !strcmp(b.descr, "<i8") ? 2 : 0;
  return t + (b.shape.size() == 2 ? 3 : 0);
}
static void mismatch(Ctx& c) {
  reset();
  const Base& b = c.of(bases());
  fs().files[kName] = baseFile(b);
  const int w = c.pick(6);
  c.log("file %s, %s, rank %zu, asked for as %d", b.descr, b.fortran ? "Fortran" : "C", b.shape.size(), w);
  judgeAny(c, w);
}
static void truncated(Ctx& c) {
  reset();
  const Base& b = c.of(bases());
  std::string s = baseFile(b);
  const int n = c.pick((int)s.size() + 1);
  fs().vbuf = c.of({-1, 0, 7});
  s.resize(n);
  if (c.flip()) s += std::string(c.of({1, 7, 8, 64}), c.of({'\0', '1', '\n'}));
  fs().files[kName] = s;
  c.log("file %s rank %zu cut after %d bytes", b.descr, b.shape.size(), n);
  judgeAny(c, c.thorough ? c.pick(6) : own(b));
}
static void corrupted(Ctx& c) {
  reset();
  const Base& b = c.of(bases());
  std::string s = baseFile(b);
  const npy::File f = npy::parse(s);
  const size_t end = std::min(f.data, s.find_last_of('}', f.data - 1) + 3);
  const size_t k = (size_t)c.pick((int)end + 1);
  const size_t at = k == end ? f.data - 1 : k;
  s[at] = (char)c.pick(256);
  c.log("file %s rank %zu with byte %zu set to %d", b.descr, b.shape.size(), at, (unsigned char)s[at]);
  fs().files[kName] = s;
  judgeAny(c, own(b));
}
// two bytes of the dictionary at once
static void corrupted2(Ctx& c) {
  reset();
  const Base& b = bases()[c.pick(2)];
  std::string s = baseFile(b);
  const npy::File f = npy::parse(s);
  const size_t end = s.find_last_of('}', f.data - 1) + 1;
  const char alphabet[] = "'{}(),: 01<T\n\0-";
  const size_t i = 8 + c.pick((int)end - 8);
  const size_t j = i + 1 + c.pick(c.thorough ? (int)(end - i) : std::min((int)(end - i), 12));
  s[i] = alphabet[c.pick(sizeof alphabet - 1)];
  s[j] = alphabet[c.pick(sizeof alphabet - 1)];
  c.log("file %s rank %zu with byte %zu set to %d and byte %zu set to %d", b.descr, b.shape.size(), i, s[i], j, s[j]);
  fs().files[kName] = s;
  judgeAny(c, own(b));
}
static void deleted(Ctx& c) {
  reset();
  const Base& b = c.of(bases());
  std::string s = baseFile(b);
  const npy::File f = npy::parse(s);
  const size_t end = s.find_last_of('}', f.data - 1) + 2;
  const size_t i = c.pick((int)end);
  switch (c.pick(3)) {
    case 0: s.erase(i, 1 + c.pick(4)); break;
    case 1: s.insert(i, 1, c.of({' ', '\'', ',', '(', ')', '{', '}', '0', '9', '\0', '\n', '-', ':'})); break;
    default: {  // replaced, with the length of the header kept right
      const size_t n = 1 + c.pick(12);
      s.erase(i, n);
      s.insert(f.data - 1 - n, n, ' ');
    }
  }
  c.log("file %s rank %zu edited at byte %zu", b.descr, b.shape.size(), i);
  fs().files[kName] = s;
  judgeAny(c, own(b));
}
static void dictionaries(Ctx& c) {
  reset();
  static const char* d[] = {
      "", "{}", "{", "}", "()", "{'descr': '<i4'}", "{'descr': '<i4', 'fortran_order': True}", "{'descr': '<i4', 'shape': (3,)}", "{'fortran_order': True, 'shape': (3,)}",
      "{'descr': '<i4', 'fortran_order': True, 'shape': (3)}", "{'descr': '<i4', 'fortran_order': True, 'shape': 3}", "{'descr': '<i4', 'fortran_order': True, 'shape': ()}",
      "{'descr': '<i4', 'fortran_order': True, 'shape': (-3,)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (-1, -3)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (3,,)}",
      "{'descr': '<i4', 'fortran_order': True, 'shape': (,3)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (3 1)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (3.0,)}",
      "{'descr': '<i4', 'fortran_order': True, 'shape': (0x3,)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (3e0,)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (3,1)}",
      "{'descr': '<i4', 'fortran_order': True, 'shape': (1,3)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (3,1,1)}", "{'descr': '<i4', 'fortran_order': 1, 'shape': (3,)}",
      "{'descr': '<i4', 'fortran_order': 'True', 'shape': (3,)}", "{'descr': '<i4', 'fortran_order': true, 'shape': (3,)}", "{'descr': '<i4', 'fortran_order': Tru, 'shape': (3,)}",
      "{'descr': '<i4', 'fortran_order': Truex, 'shape': (3,)}", "{'descr': 'i4', 'fortran_order': True, 'shape': (3,)}", "{'descr': '=i4', 'fortran_order': True, 'shape': (3,)}",
      "{'descr': '<', 'fortran_order': True, 'shape': (3,)}", "{'descr': '', 'fortran_order': True, 'shape': (3,)}", "{'descr': '<i44', 'fortran_order': True, 'shape': (3,)}",
      "{'descr': '<i', 'fortran_order': True, 'shape': (3,)}", "{'descr': [('a', '<i4')], 'fortran_order': True, 'shape': (3,)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (3,)} x",
      "{'descr': '<i4', 'fortran_order': True, 'shape': (3,)}}", "{'descr': '<i4', 'fortran_order': True, 'shape': (3,), 'x': 1}", "{'descr': '<i4' 'fortran_order': True, 'shape': (3,)}",
      "{'descr' '<i4', 'fortran_order': True, 'shape': (3,)}", "{'descr': <i4, 'fortran_order': True, 'shape': (3,)}", "{descr: '<i4', fortran_order: True, shape: (3,)}",
      "{'descr': '<i4', 'fortran_order': True, 'shape': (3,", "{'descr': '<i4', 'fortran_order': True, 'shape': (", "{'descr': '<i4", "{'descr': '", "{'descr'", "'descr': '<i4', 'fortran_order': True, 'shape': (3,)",
      "{'descr': '<i4', 'fortran_order': True, 'shape': (4,)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (1000000000000000000,)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (9223372036854775807,)}",
      "{'descr': '<i4', 'fortran_order': True, 'shape': (9223372036854775808,)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (18446744073709551619,)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (99999999999999999999999999999999999999,)}",
      "{'descr': '<i4', 'fortran_order': True, 'shape': (4294967296, 4294967296)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (4611686018427387905, 1)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (2305843009213693952, 8)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (1, 1000000)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (0, 1000000000000000000)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (1000000000000000000, 0)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (0, 20000000000000)}",
     
      "{'descr': '<i4', 'fortran_order': True, 'shape': (0, 9223372036854775807)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (9223372036854775807, 0)}", "{'descr': '<i4', 'fortran_order': True, 'shape': (0, 3)}",
      "{'descr': '<i4', 'fortran_order': True, 'shape': (3, 0)}", "{'descr': '<f8', 'fortran_order': True, 'shape': (1, 1)}", "{'descr': '<f8', 'fortran_order': True, 'shape': (2,)}", "{'descr': '<f8', 'fortran_order': True, 'shape': (1,)}"};
  const int k = c.pick(sizeof d / sizeof *d);
  std::string s = npy::header(d[k], c.of({16, 64})) + std::string(12, '\x11');
  c.log("header %s", d[k]);
  fs().files[kName] = s;
  judgeAny(c, c.pick(6));
}
// The version and the length of the header.
static void fixedPart(Ctx& c) {
  reset();
  const Base& b = c.of(bases());
  std::string s = baseFile(b);
  switch (c.pick(3)) {
    case 0: s[6] = (char)c.pick(4); s[7] = (char)c.pick(3); break;
    case 1: { const int l = c.pick(2200); s[8] = (char)(l & 255); s[9] = (char)(l >> 8); break; }
    default: { const int l = 65535 - c.pick(300); s[8] = (char)(l & 255); s[9] = (char)(l >> 8); if (c.flip()) s += std::string(70000, c.of({' ', '\n', '\xff'})); }
  }
  fs().files[kName] = s;
  judgeAny(c, own(b));
}
// All strings up to a length over significant bytes, as whole file and as header.
static void shortFiles(Ctx& c) {
  reset();
  const char alphabet[] = "\x93N{}'(),:<0\n\0dT";
  const bool whole = c.flip();
  std::string s;
  const int n = c.pick(c.bound + 1);
  for (int i = 0; i < n; ++i) s += alphabet[c.pick(sizeof alphabet - 1)];
  if (!whole) s = std::string("\x93NUMPY\1\0", 8) + (char)s.size() + '\0' + s;
  fs().files[kName] = s;
  judgeAny(c, c.of({0, 4}));
}
static void missing(Ctx& c) {
  reset();
  if (c.flip()) fs().files["b.npy"] = baseFile(bases()[0]);
  bool ok;
  switch (c.pick(3)) {
    case 0: { auto u = load<il::Array<int>>(c, ok); break; }
    case 1: { auto u = load<il::Array2D<double>>(c, ok); break; }
    default: { auto u = load<il::SparseMatrixCSR<int_t, double>>(c, ok); }
  }
  MC_CHECK(c, !ok, "a missing file was loaded without an error");
}
template <typename T> static std::string vecFile(const std::vector<T>& v) {
  return npy::file(std::string("<") + Ty<T>::name(), false, {(long)v.size()}, std::string((const char*)v.data(), v.size() * sizeof(T)));
}
static void sparse(Ctx& c) {
  reset();
  std::vector<int_t> row, col;
  std::vector<double> el;
  const int nr = c.pick(c.thorough ? 5 : 4), nc = c.pick(3), ne = c.pick(3);
  for (int i = 0; i < nr; ++i) row.push_back(c.pick(5) - 1);
  for (int i = 0; i < nc; ++i) col.push_back(c.pick(5) - 1);
  for (int i = 0; i < ne; ++i) el.push_back(10 + i);
  fs().files["a.npy.row"] = vecFile(row);
  fs().files["a.npy.column"] = vecFile(col);
  fs().files["a.npy.element"] = vecFile(el);
  bool good = nr >= 1 && row[0] == 0 && nc == ne && row[nr - 1] == nc;
  const int n = nr - 1;
  for (int i = 0; good && i < n; ++i) good = row[i] <= row[i + 1];
  bool usual = good;
  if (good) for (int i = 0; i < n; ++i) for (int_t k = row[i]; k < row[i + 1]; ++k) {
    if (col[k] < 0 || col[k] >= n) good = usual = false;
    if (k > row[i] && col[k] <= col[k - 1]) usual = false;
  }
  std::string what;
  for (auto x : row) what += " " + std::to_string(x);
  what += " /";
  for (auto x : col) what += " " + std::to_string(x);
  what += " / " + std::to_string(ne) + " elements";
  bool ok;
  auto m = load<il::SparseMatrixCSR<int_t, double>>(c, ok);
  c.log("sparse matrix%s: %s", what.c_str(), ok ? "loaded" : "refused");
  MC_CHECK(c, ok || !usual, "a sparse matrix was not loaded (rows, columns:%s)", what.c_str());
  MC_CHECK(c, !ok || good, "files that do not hold a sparse matrix were loaded as one (rows, columns:%s)", what.c_str());
  if (!ok) return;
  MC_CHECK(c, m.size(0) == n && m.size(1) == n && m.nbNonZeros() == nc, "the sparse matrix has a wrong size");
  for (int i = 0; i <= n && nr > 0; ++i) MC_CHECK(c, m.row(i) == row[i], "the sparse matrix has a wrong row pointer");
  for (int k = 0; k < nc; ++k) MC_CHECK(c, m.column(k) == col[k] && m.element(k) == el[k], "the sparse matrix has a wrong column or element");
}
static void sparseDamaged(Ctx& c) {
  reset();
  const char* name[] = {"a.npy.row", "a.npy.column", "a.npy.element"};
  fs().files[name[0]] = vecFile(std::vector<int_t>{0, 1, 2});
  fs().files[name[1]] = vecFile(std::vector<int_t>{1, 0});
  fs().files[name[2]] = vecFile(std::vector<double>{5, 6});
  const int w = c.pick(3);
  bool good = false;
  switch (c.pick(5)) {
    case 0: fs().files.erase(name[w]); break;
    case 1: { std::string& s = fs().files[name[w]]; s.resize(c.pick((int)s.size())); break; }
    case 2: fs().files[name[w]] = vecFile(std::vector<int>{0, 1, 2}); break;
    case 3: good = true; break;
    default: fs().opens_left = w;
  }
  bool ok;
  auto m = load<il::SparseMatrixCSR<int_t, double>>(c, ok);
  MC_CHECK(c, ok == good, good ? "a sparse matrix was not loaded" : "a damaged sparse matrix was loaded without an error (%s)", name[w]);
}
MC_SUITE("requests that do not match", mismatch, 1, 1);
MC_SUITE("every truncation", truncated, 1, 1);
MC_SUITE("every byte of the header", corrupted, 1, 1);
MC_SUITE("pairs of bytes of the header", corrupted2, 1, 1);
MC_SUITE("edits of the header", deleted, 1, 1);
MC_SUITE("dictionaries", dictionaries, 1, 1);
MC_SUITE("version and header length", fixedPart, 1, 1);
MC_SUITE("short files", shortFiles, 4, 5);
MC_SUITE("missing files", missing, 1, 1);
MC_SUITE("sparse matrices", sparse, 1, 1);
MC_SUITE("damaged sparse matrices", sparseDamaged, 1, 1);
#endif
