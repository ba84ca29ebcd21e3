// P26: binary pack files, against a reference tree of the configuration saved.
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include "ilmc.h"
#include "memfs.h"
#include <il/Array.h>
#include <il/Array2D.h>
#include <il/data.h>
using il::int_t;
using mc::Ctx;
using mc::fs;
using MapA = il::MapArray<il::String, il::Dynamic>;
using MapH = il::Map<il::String, il::Dynamic>;
static const char kName[] = "f.data";

struct V;
using Ref = std::vector<std::pair<std::string, V>>;
struct V {
  enum K { Bool, Int, Float, Double, Str, Vec, Mat, Bytes, IntVec, Sub } k = Bool;
  int_t i = 0;
  double d = 0;
  std::string s;
  int n0 = 0, n1 = 0;
  std::vector<double> v;
  Ref m;
};
static il::String str(const std::string& s) { return il::String(il::StringType::Byte, s.data(), (int_t)s.size()); }
static std::string stdstr(const il::String& s) { return std::string(s.data(), (size_t)s.size()); }
static double dbl(int k) {
  static const uint64_t p[] = {0x0102030405060708ull, 0x8000000000000000ull, 0x7ff8000000000001ull, 0xfff0000000000000ull, 1, 0};
  double x; memcpy(&x, &p[k % 6], 8); return x;
}
static bool sameD(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static bool sameF(float a, float b) { return memcmp(&a, &b, 4) == 0; }

template <typename T> static il::Array<T> vec(const std::vector<double>& w, int history) {
  il::Array<T> a;
  if (history == 1) a.Reserve((int_t)w.size() + 5);
  if (history == 2) a.Resize((int_t)w.size() + 2);
  a.Resize((int_t)w.size());
  for (size_t i = 0; i < w.size(); ++i) a[(int_t)i] = (T)w[i];
  return a;
}
template <typename T> static il::Array2D<T> mat(const V& w, int history) {
  il::Array2D<T> a;
  if (history == 1) a.Reserve(w.n0 + 2, w.n1 + 1);
  if (history == 2) a.Resize(w.n0 + 1, w.n1 + 2);
  a.Resize(w.n0, w.n1);
  for (int j = 0; j < w.n1; ++j) for (int i = 0; i < w.n0; ++i) a(i, j) = (T)w.v[(size_t)(i + w.n0 * j)];
  return a;
}
template <typename M> static M build(const Ref& r, int history);
static il::Dynamic value(const V& w, int history) {
  switch (w.k) {
    case V::Bool: return il::Dynamic(w.i != 0);
    case V::Int: return il::Dynamic(w.i);
    case V::Float: return il::Dynamic((float)w.d);
    case V::Double: return il::Dynamic(w.d);
    case V::Str: return il::Dynamic(str(w.s));
    case V::Vec: return il::Dynamic(vec<double>(w.v, history));
    case V::Mat: return il::Dynamic(mat<double>(w, history));
    case V::Bytes: return il::Dynamic(mat<unsigned char>(w, history));
    case V::IntVec: return il::Dynamic(vec<int>(w.v, history));
    default: return il::Dynamic(build<MapA>(w.m, history));
  }
}
template <typename M> static M build(const Ref& r, int history) {
  M m{};
  if (history == 1) m = M{20};
  if (history == 2) for (auto& e : r) m.Set(str(e.first), il::Dynamic(3.0));
  for (auto& e : r) m.Set(str(e.first), value(e.second, history));
  return m;
}
template <typename M> static void expect(Ctx& c, const M& m, const Ref& r, const std::string& where);
template <typename M> static void expect(Ctx& c, const il::Dynamic& x, const V& w, const std::string& where) {
  const char* p = where.c_str();
  switch (w.k) {
    case V::Bool: MC_CHECK(c, x.is<bool>() && x.to<bool>() == (w.i != 0), "%s is not the boolean saved", p); break;
    case V::Int: MC_CHECK(c, x.is<int_t>() && x.to<int_t>() == w.i, "%s is not the integer saved", p); break;
    case V::Float: MC_CHECK(c, x.is<float>() && sameF(x.to<float>(), (float)w.d), "%s is not the float saved", p); break;
    case V::Double: MC_CHECK(c, x.is<double>() && sameD(x.to<double>(), w.d), "%s is not the double saved", p); break;
    case V::Str: MC_CHECK(c, x.is<il::String>() && stdstr(x.as<il::String>()) == w.s, "%s is not the string saved", p); break;
    case V::Vec: {
      MC_CHECK(c, x.is<il::Array<double>>(), "%s is not a vector", p);
      const auto& a = x.as<il::Array<double>>();
      MC_CHECK(c, a.size() == (int_t)w.v.size(), "%s has %ld entries", p, (long)a.size());
      for (size_t i = 0; i < w.v.size(); ++i) MC_CHECK(c, sameD(a[(int_t)i], w.v[i]), "%s: entry %zu differs", p, i);
    } break;
    case V::IntVec: {
      MC_CHECK(c, x.is<il::Array<int>>(), "%s is not a vector of int", p);
      const auto& a = x.as<il::Array<int>>();
      MC_CHECK(c, a.size() == (int_t)w.v.size(), "%s has %ld entries", p, (long)a.size());
      for (size_t i = 0; i < w.v.size(); ++i) MC_CHECK(c, a[(int_t)i] == (int)w.v[i], "%s: entry %zu differs", p, i);
    } break;
    case V::Mat: {
      MC_CHECK(c, x.is<il::Array2D<double>>(), "%s is not a matrix", p);
      const auto& a = x.as<il::Array2D<double>>();
      MC_CHECK(c, a.size(0) == w.n0 && a.size(1) == w.n1, "%s is %ld x %ld", p, (long)a.size(0), (long)a.size(1));
      for (int j = 0; j < w.n1; ++j) for (int i = 0; i < w.n0; ++i) MC_CHECK(c, sameD(a(i, j), w.v[(size_t)(i + w.n0 * j)]), "%s: entry (%d, %d) differs", p, i, j);
    } break;
    case V::Bytes: {
      MC_CHECK(c, x.is<il::Array2D<unsigned char>>(), "%s is not a matrix of bytes", p);
      const auto& a = x.as<il::Array2D<unsigned char>>();
      MC_CHECK(c, a.size(0) == w.n0 && a.size(1) == w.n1, "%s is %ld x %ld", p, (long)a.size(0), (long)a.size(1));
      for (int j = 0; j < w.n1; ++j) for (int i = 0; i < w.n0; ++i) MC_CHECK(c, a(i, j) == (unsigned char)w.v[(size_t)(i + w.n0 * j)], "%s: entry (%d, %d) differs", p, i, j);
    } break;
    default:
      MC_CHECK(c, x.is<M>(), "%s is not a map", p);
      expect<M>(c, x.as<M>(), w.m, where);
  }
}
static bool ordered(const MapA&) { return true; }
static bool ordered(const MapH&) { return false; }
template <typename M> static void expect(Ctx& c, const M& m, const Ref& r, const std::string& where) {
  MC_CHECK(c, m.nbElements() == (int_t)r.size(), "%s has %ld keys, expected %zu", where.c_str(), (long)m.nbElements(), r.size());
  size_t n = 0;
  if (ordered(m)) {
    for (il::spot_t i = m.spotBegin(); i != m.spotEnd(); i = m.next(i), ++n)
      MC_CHECK(c, n < r.size() && stdstr(m.key(i)) == r[n].first, "%s: key %zu is not the one saved", where.c_str(), n);
  }
  for (auto& e : r) {
    const il::spot_t i = m.search(str(e.first));
    MC_CHECK(c, m.found(i), "%s: key '%.10s' is missing", where.c_str(), e.first.c_str());
    expect<M>(c, m.value(i), e.second, where + "." + e.first.substr(0, 10));
  }
}
static void closed(Ctx& c) { MC_CHECK(c, fs().open == 0, "%d file handle(s) left open", fs().open); c.settle(); }
template <typename M> static M load(Ctx& c, bool& ok) {
  fs().opened_for_writing = false;
  il::Status st{};
  M m = il::load<M>(il::String(kName), il::io, st);
  ok = st.Ok();
  MC_CHECK(c, !fs().opened_for_writing, "loading opened the file for writing");
  closed(c);
  return m;
}
static bool save(Ctx& c, const MapA& m, const std::vector<std::string>* option) {
  il::Status st{};
  if (option) {
    il::Array<il::String> o{};
    for (auto& s : *option) o.Append(str(s));
    il::save(m, o, il::String(kName), il::io, st);
  } else {
    il::save(m, il::String(kName), il::io, st);
  }
  const bool ok = st.Ok();
  closed(c);
  return ok;
}
template <typename M> static void loadsAs(Ctx& c, const Ref& r, const char* what) {
  const std::string before = fs().files[kName];
  bool ok;
  M m = load<M>(c, ok);
  MC_CHECK(c, ok, "loading as %s failed", what);
  expect<M>(c, m, r, "the configuration loaded");
  MC_CHECK(c, fs().files[kName] == before, "loading changed the file");
}

// --- the alphabet
static V leaf(int k) {
  V w;
  auto I = [&](int_t i) { w.k = V::Int; w.i = i; };
  auto S = [&](std::string s) { w.k = V::Str; w.s = s; };
  auto Vn = [&](int n) { w.k = V::Vec; for (int i = 0; i < n; ++i) w.v.push_back(dbl(i)); };
  auto M = [&](V::K kind, int n0, int n1) { w.k = kind; w.n0 = n0; w.n1 = n1; for (int i = 0; i < n0 * n1; ++i) w.v.push_back(kind == V::Mat ? dbl(i) : (double)((250 + 7 * i) % 256)); };
  switch (k) {
    case 0: w.k = V::Bool; w.i = 1; break;
    case 1: I(300); break;
    case 2: w.k = V::Double; w.d = dbl(0); break;
    case 3: S("text"); break;
    case 4: Vn(2); break;
    case 5: M(V::Mat, 2, 3); break;
    case 6: M(V::Bytes, 3, 2); break;
    case 7: w.k = V::Float; w.d = 1.5; break;
    // the other values of each type
    case 8: w.k = V::Bool; w.i = 0; break;
    case 9: I(0); break;
    case 10: I(127); break;
    case 11: I(128); break;
    case 12: I(-1); break;
    case 13: I(std::numeric_limits<int_t>::min()); break;
    case 14: I(std::numeric_limits<int_t>::max()); break;
    case 15: I(16384); break;
    case 16: w.k = V::Float; w.d = -0.0; break;
    case 17: w.k = V::Float; w.d = std::numeric_limits<float>::infinity(); break;
    case 18: w.k = V::Double; w.d = dbl(1); break;
    case 19: w.k = V::Double; w.d = dbl(2); break;
    case 20: w.k = V::Double; w.d = dbl(3); break;
    case 21: S(""); break;
    case 22: S(std::string("a\0b", 3)); break;
    case 23: S("\xc3\xa9\n\""); break;
    case 24: S(std::string(22, 'x')); break;
    case 25: S(std::string(23, 'y')); break;
    case 26: S(std::string(200, 'z')); break;
    case 27: Vn(0); break;
    case 28: Vn(1); break;
    case 29: Vn(600); break;
    case 30: M(V::Mat, 0, 0); break;
    case 31: M(V::Mat, 0, 2); break;
    case 32: M(V::Mat, 2, 0); break;
    case 33: M(V::Mat, 1, 1); break;
    case 34: M(V::Mat, 3, 1); break;
    case 35: M(V::Bytes, 0, 0); break;
    case 36: M(V::Bytes, 0, 3); break;
    case 37: M(V::Bytes, 3, 0); break;
    case 38: M(V::Bytes, 1, 1); break;
    case 39: M(V::Bytes, 1, 9); break;
    default: M(V::Bytes, 17, 1); break;
  }
  return w;
}
static const int kLeaves = 41, kCommon = 8;
static std::string key(int i) {
  static const std::string k[] = {"a", "bb", std::string(130, 'k'), std::string("n\0n", 3), "\xc3\xa9", std::string(127, 'q'), std::string(128, 'r')};
  return k[i];
}
// A map of up to `budget` values over the common leaves, nested in every way.
static Ref tree(Ctx& c, int& budget, int depth) {
  Ref r;
  while (budget > 0) {
    const int k = c.pick(1 + kCommon + (depth > 0 ? 1 : 0));
    if (k == 0) break;
    budget--;
    V w;
    if (k <= kCommon) w = leaf(k - 1);
    else { w.k = V::Sub; w.m = tree(c, budget, depth - 1); }
    r.emplace_back(key((int)r.size()), w);
  }
  return r;
}
static std::string show(const Ref& r) {
  std::string s = "{";
  static const char* n[] = {"bool", "int", "float", "double", "string", "vector", "matrix", "bytes", "ints", ""};
  for (auto& e : r) s += " " + e.first.substr(0, 3) + ":" + (e.second.k == V::Sub ? show(e.second.m) : n[e.second.k]);
  return s + " }";
}
static void reset() { fs() = mc::MemFs(); }

static void leavesBody(Ctx& c) {  // every value under every key, between two other entries
  reset();
  fs().vbuf = c.of({-1, 0, 1, 7});
  Ref r;
  const int n = c.pick(kLeaves), k = c.pick(7), history = c.pick(3), around = c.pick(4);
  if (around & 1) r.emplace_back("before", leaf(1));
  r.emplace_back(key(k), leaf(n));
  if (around & 2) r.emplace_back("after", leaf(3));
  if (c.flip()) { V w; w.k = V::Sub; w.m = r; r = Ref{{"inside", w}, {"last", leaf(2)}}; }
  c.log("value %d, key %d, history %d, %s", n, k, history, show(r).c_str());
  const MapA m = build<MapA>(r, history);
  expect<MapA>(c, m, r, "the configuration built");
  MC_CHECK(c, save(c, m, nullptr), "saving failed");
  expect<MapA>(c, m, r, "the configuration saved");
  loadsAs<MapA>(c, r, "an il::MapArray");
  loadsAs<MapH>(c, r, "an il::Map");
}
MC_SUITE("every value under every key", leavesBody, 1, 1, true, 3);

static void treeBody(Ctx& c) {
  reset();
  int budget = c.bound;
  const Ref r = tree(c, budget, 3);
  c.log("%s", show(r).c_str());
  if (c.flip()) fs().files[kName] = std::string(100000, 'x');
  MC_CHECK(c, save(c, build<MapA>(r, 0), nullptr), "saving failed");
  loadsAs<MapA>(c, r, "an il::MapArray");
  loadsAs<MapH>(c, r, "an il::Map");
}
MC_SUITE("every shape of configuration", treeBody, 3, 4, true, 3);

// An array of structures: a map whose values are vectors of the same length, saved
// by rows. The option is the path of keys to it.
static void structBody(Ctx& c) {
  reset();
  const int members = c.pick(4), n = c.of({0, 1, 2, 5});
  Ref inner;
  int bad = 0;
  for (int i = 0; i < members; ++i) {
    V w;
    w.k = c.flip() ? V::IntVec : V::Vec;
    const int len = n + (i > 0 && c.flip() ? c.of({-1, 1}) : 0);
    if (len < 0) return;
    if (len != n) bad = 1;
    for (int j = 0; j < len; ++j) w.v.push_back(w.k == V::IntVec ? (double)(int)(0x01020304 * (i + 1) - 3 * j) : dbl(i + j));
    inner.emplace_back(i == 2 ? std::string(130, 'k') : std::string(1, (char)('x' + i)), w);
  }
  const int depth = c.pick(3);
  Ref r;
  std::vector<std::string> path{"points"};
  V w;
  w.k = V::Sub;
  w.m = inner;
  r.emplace_back("before", leaf(1));
  r.emplace_back("points", w);
  r.emplace_back("after", leaf(3));
  for (int i = 0; i < depth; ++i) {
    V u;
    u.k = V::Sub;
    u.m = r;
    const std::string name = i == 0 ? "in" : "points";
    r = Ref{{"other", leaf(2)}, {name, u}, {"last", leaf(0)}};
    path.insert(path.begin(), name);
  }
  c.log("%s, %d rows, depth %d", show(r).c_str(), n, depth);
  const MapA m = build<MapA>(r, c.pick(3));
  const bool ok = save(c, m, &path);
  if (bad) { MC_CHECK(c, !ok, "vectors of different lengths were saved as an array of structures"); return; }
  MC_CHECK(c, ok, "saving failed");
  loadsAs<MapA>(c, r, "an il::MapArray");
  loadsAs<MapH>(c, r, "an il::Map");
}
MC_SUITE("arrays of structures", structBody, 1, 1, true, 3);

// Sizes around the borders of the encodings and of the tables: texts, keys, vectors, matrices, numbers of
// entries, depths, structures.
static const std::vector<int>& borders(Ctx& c) {
  static const std::vector<int> q{0, 1, 2, 63, 64, 126, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16382, 16383, 16384, 16385, 32768, 65535, 65536, 70000};
  static const std::vector<int> t = [] { std::vector<int> v; for (int i = 0; i <= 300; ++i) v.push_back(i); for (int p = 512; p <= 1 << 17; p *= 2) for (int d = -5; d <= 5; ++d) v.push_back(p + d); return v; }();
  return c.thorough ? t : q;
}
static void sizesBody(Ctx& c) {
  reset();
  fs().vbuf = c.of({-1, 7});
  const int what = c.pick(8), n = borders(c)[(size_t)c.pick((int)borders(c).size())];
  V w, u;
  auto dense = [&](V::K kind, int n0, int n1) { w.k = kind; w.n0 = n0; w.n1 = n1; for (int i = 0; i < n0 * n1; ++i) w.v.push_back(kind == V::Bytes ? (double)((250 + 7 * i) % 256) : (double)i + 0.25); };
  Ref r{{"before", leaf(1)}};
  c.log("kind %d, size %d", what, n);
  switch (what) {
    case 0: w.k = V::Str; for (int i = 0; i < n; ++i) w.s += (char)('a' + i % 23); break;
    case 1: w = leaf(3); break;
    case 2: w.k = V::Vec; for (int i = 0; i < n && i < 17000; ++i) w.v.push_back((double)i + 0.5); break;
    case 3: if (n > 16384) return; dense(V::Mat, n, 2); break;
    case 4: if (n > 4200) return; dense(V::Mat, 3, n); break;
    case 5: if (n > 70000) return; dense(V::Bytes, c.thorough && n < 600 ? n : 2, n); break;
    case 6:  // many entries
      if (n > 600) return;
      for (int i = 0; i < n; ++i) r.emplace_back("k" + std::to_string(i * 37 % 1009), leaf(i % kCommon));
      w = leaf(1);
      break;
    default:  // many levels
      if (n > 129) return;
      w = leaf(3);
      for (int i = 0; i < n; ++i) { u = V{}; u.k = V::Sub; u.m = Ref{{"a" + std::to_string(i % 3), leaf(i % kCommon)}, {"next", w}}; if (i % 2) u.m.emplace_back("z", leaf(1)); w = u; }
  }
  std::string name = "value";
  if (what == 1) { if (n == 0) return; name = std::string((size_t)n, 'k'); name[0] = 'q'; name[(size_t)n / 2] = 'm'; name[(size_t)n - 1] = 'w'; }
  r.emplace_back(name, w);
  r.emplace_back("after", leaf(2));
  const MapA m = build<MapA>(r, 0);
  MC_CHECK(c, save(c, m, nullptr), "saving failed");
  loadsAs<MapA>(c, r, "an il::MapArray");
  loadsAs<MapH>(c, r, "an il::Map");
}
MC_SUITE("sizes around the borders", sizesBody, 1, 1, true, 3);

// An array of structures of many rows or many members.
static void rowsBody(Ctx& c) {
  reset();
  const bool many = c.flip();
  const int n = borders(c)[(size_t)c.pick((int)borders(c).size())];
  if (n > (many ? 300 : 9000)) return;
  const int members = many ? n : 3, rows = many ? 2 : n;
  Ref inner;
  for (int i = 0; i < members; ++i) {
    V w;
    w.k = i % 2 ? V::IntVec : V::Vec;
    for (int j = 0; j < rows; ++j) w.v.push_back(w.k == V::IntVec ? (double)(1000 * i + j) : i + j / 8.0);
    inner.emplace_back("m" + std::to_string(i), w);
  }
  c.log("%d members, %d rows", members, rows);
  V w;
  w.k = V::Sub;
  w.m = inner;
  const Ref r{{"before", leaf(1)}, {"points", w}, {"after", leaf(3)}};
  const std::vector<std::string> path{"points"};
  MC_CHECK(c, save(c, build<MapA>(r, 0), &path), "saving failed");
  loadsAs<MapA>(c, r, "an il::MapArray");
  loadsAs<MapH>(c, r, "an il::Map");
}
MC_SUITE("arrays of many structures", rowsBody, 1, 1, true, 2);

// What the format can not hold is reported.
static void unsupportedBody(Ctx& c) {
  reset();
  const int depth = c.pick(3);
  MapA m{};
  if (c.flip()) m.Set(il::String("ok"), il::Dynamic(1.0));
  const int k = c.pick(16);
  c.log("unsupported %d at depth %d", k, depth);
  const il::String x("x");
  switch (k) {
    case 0: m.Set(x, il::Dynamic()); break;
    case 1: m.Set(x, il::Dynamic((unsigned char)3)); break;
    case 2: m.Set(x, il::Dynamic((signed char)3)); break;
    case 3: m.Set(x, il::Dynamic((short)3)); break;
    case 4: m.Set(x, il::Dynamic((unsigned short)3)); break;
    case 5: m.Set(x, il::Dynamic(il::Array<il::Dynamic>{2})); break;
    case 6: m.Set(x, il::Dynamic(il::Array<int>{2, 7})); break;
    case 7: m.Set(x, il::Dynamic(il::Array<int_t>{2, 7})); break;
    case 8: m.Set(x, il::Dynamic(il::Array<unsigned char>{2, 7})); break;
    case 9: m.Set(x, il::Dynamic(il::Array<short>{2, 7})); break;
    case 10: m.Set(il::String(""), il::Dynamic(2.0)); break;
    case 11: m.Set(il::String(""), il::Dynamic(MapA{})); break;
    case 12: m.Set(x, il::Dynamic(MapH{})); break;
    case 13: m.Set(x, il::Dynamic(il::Array<il::Dynamic>{})); break;
    case 14: m.Set(x, il::Dynamic(il::Array<int>{})); break;
    default: { MapA s{}; s.Set(il::String("s"), il::Dynamic(1.0)); m.Set(x, il::Dynamic(s)); }
  }
  std::vector<std::string> path{"x"};
  for (int i = 0; i < depth; ++i) {
    MapA u{};
    if (c.flip()) u.Set(il::String("first"), il::Dynamic((int_t)3));
    u.Set(il::String("u"), il::Dynamic(m));
    u.Set(il::String("then"), il::Dynamic((int_t)4));
    m = std::move(u);
    path.insert(path.begin(), "u");
  }
  const bool ok = save(c, m, k == 15 ? &path : nullptr);
  if (ok) {  // a later version may support more, then it has to come back
    bool back;
    MapA u = load<MapA>(c, back);
    MC_CHECK(c, back, "a configuration was saved with success, but can not be loaded");
    MC_CHECK(c, u.nbElements() == m.nbElements(), "a configuration was saved with success, but %ld of its %ld keys come back", (long)u.nbElements(), (long)m.nbElements());
    for (il::spot_t i = m.spotBegin(); i != m.spotEnd(); i = m.next(i)) {
      const il::spot_t j = u.search(m.key(i));
      MC_CHECK(c, u.found(j) && u.value(j).type() == m.value(i).type(), "a configuration was saved with success, but the type of a value does not come back");
    }
  }
}
MC_SUITE("values without a representation", unsupportedBody, 1, 1, true, 2);

// --- files which are not what was saved
static Ref sample(int k) {
  Ref r;
  V sub, deep, aos;
  switch (k) {
    case 0: break;
    case 1: for (int i = 0; i < 8; ++i) r.emplace_back(std::string(1, (char)('a' + i)), leaf(i)); break;
    case 2:
      deep.k = sub.k = V::Sub;
      deep.m = Ref{{"d", leaf(1)}, {"e", leaf(3)}};
      sub.m = Ref{{"s", deep}, {"t", leaf(4)}, {"u", leaf(27)}};
      r = Ref{{"sub", sub}, {"m", leaf(5)}, {"z", leaf(12)}};
      break;
    case 3: {
      aos.k = V::Sub;
      V x, y;
      x.k = V::Vec; x.v = {1, 2, 3};
      y.k = V::IntVec; y.v = {4, 5, 6};
      aos.m = Ref{{"x", x}, {"y", y}};
      r = Ref{{"points", aos}, {"end", leaf(0)}};
    } break;
    default: r = Ref{{key(2), leaf(26)}, {"m", leaf(31)}, {"b", leaf(36)}};
  }
  return r;
}
static std::string saved(Ctx& c, int k) {
  reset();
  std::vector<std::string> path{"points"};
  MC_CHECK(c, save(c, build<MapA>(sample(k), 0), &path), "saving failed");
  return fs().files[kName];
}
static bool loadOk(Ctx& c, bool hash) {
  bool ok;
  if (hash) load<MapH>(c, ok); else load<MapA>(c, ok);
  return ok;
}
static void truncBody(Ctx& c) {
  const int k = c.pick(5);
  const std::string bytes = saved(c, k);
  const bool hash = c.flip();
  fs().vbuf = c.of({-1, 0, 1});
  const int how = c.pick(3);
  const size_t n = (size_t)c.pick((int)bytes.size() + 1);
  c.log("sample %d, %zu of %zu bytes, %s", k, n, bytes.size(), how == 0 ? "truncated" : how == 1 ? "device error" : "truncated, short reads");
  if (how != 1) fs().files[kName] = bytes.substr(0, n);
  else fs().read_fault = (long)n;
  if (how == 2) fs().read_chunk = 1;
  const bool ok = loadOk(c, hash);
  if (n < bytes.size()) MC_CHECK(c, !ok, "a file cut to %zu of its %zu bytes was loaded with success", n, bytes.size());
  // A device error after the last byte need not be noticed, nor is it forbidden
  if (n == bytes.size() && how != 1) MC_CHECK(c, ok, "loading failed");
}
MC_SUITE("every truncation", truncBody, 1, 1, true, 2);

static void corruptBody(Ctx& c) {  // never crashes, never reads memory it does not own
  const int k = c.pick(5);
  std::string bytes = saved(c, k);
  if (bytes.empty()) return;
  const size_t at = (size_t)c.pick((int)bytes.size());
  const unsigned char now = (unsigned char)bytes[at];
  int to;
  if (c.bound == 1) to = c.of({0, 1, 2, 7, 8, 10, 11, 13, 15, 16, 0x7f, 0x80, 0xff, -1, -2});
  else to = c.pick(256);
  bytes[at] = (char)(to == -1 ? now + 1 : to == -2 ? now - 1 : to);
  const int tail = c.pick(3);
  if (tail == 1) bytes += std::string(40, '\0');
  if (tail == 2) bytes = bytes.substr(0, at + 1);
  fs().files[kName] = bytes;
  c.log("sample %d: byte %zu becomes %d, tail %d", k, at, (unsigned char)bytes[at], tail);
  loadOk(c, c.flip());
}
MC_SUITE("every corrupted byte", corruptBody, 1, 2, true, 2);

static void rawBody(Ctx& c) {  // every short sequence of the bytes that matter
  reset();
  std::string bytes;
  const int n = c.bound;
  for (int i = 0; i < n; ++i) {
    const int b = c.pick(12);
    if (b == 0) break;
    static const unsigned char a[] = {0, 0, 1, 2, 8, 10, 11, 13, 15, 16, 0x80, 0xff};
    bytes += (char)a[b];
  }
  const int tail = c.pick(3);
  if (tail == 1) bytes += std::string(24, '\0');
  if (tail == 2) bytes += std::string(24, '\xff');
  fs().files[kName] = bytes;
  std::string hex;
  for (unsigned char b : bytes) { char t[4]; snprintf(t, sizeof t, "%02x ", b); hex += t; }
  c.log("%s", hex.c_str());
  loadOk(c, c.flip());
}
MC_SUITE("every short file", rawBody, 4, 5, true, 2);

static void absentBody(Ctx& c) {
  reset();
  const int k = c.pick(3);
  if (k == 0) c.log("no file");
  if (k == 1) { fs().files[kName] = "x"; fs().opens_left = 0; }
  if (k == 2) { fs().files[kName] = "x"; fs().open_errno = EACCES; }
  MC_CHECK(c, !loadOk(c, c.flip()), "loading a file that can not be opened succeeded");
  il::Status st{};
  MapA m{};
  if (k > 0) {
    std::vector<std::string> path{"p"};
    MC_CHECK(c, !save(c, m, c.flip() ? &path : nullptr), "saving to a file that can not be opened succeeded");
  }
  // other extensions are not pack files
  il::save(m, str(c.of<std::string>({"f", "f.dat", ".datax", "data"})), il::io, st);
  MC_CHECK(c, !st.Ok(), "a file of an unknown type was saved");
}
MC_SUITE("files that can not be opened", absentBody, 1, 1, true, 2);

static void writeFaultBody(Ctx& c) {
  const int k = c.pick(5);
  const std::string bytes = saved(c, k);
  const bool close_fault = c.flip();
  reset();
  fs().vbuf = c.of({-1, 0, 1, 16});
  const size_t n = (size_t)c.pick((int)bytes.size() + 1);
  std::vector<std::string> path{"points"}, none{"none"};
  if (!close_fault) fs().write_limit = (long)n;
  else { if (n > 0) return; fs().close_fault = true; }
  c.log("sample %d, room for %ld of %zu bytes, close fault %d", k, fs().write_limit, bytes.size(), close_fault);
  const bool ok = save(c, build<MapA>(sample(k), 0), k == 3 ? &path : c.flip() ? &none : nullptr);
  if (close_fault || n < bytes.size()) MC_CHECK(c, !ok, "saving to a device that fails was reported as a success");
  else MC_CHECK(c, ok && fs().files[kName] == bytes, "saving failed");
}
MC_SUITE("every write fault", writeFaultBody, 1, 1, true, 2);
