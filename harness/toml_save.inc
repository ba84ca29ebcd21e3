// P21: every configuration up to a size is saved, the file is read with the
// reference reader and with the library, and both must give the configuration.
using HMap = il::Map<il::String, il::Dynamic>;
static il::String ils(const std::string& s) {
  return il::String(il::isAscii(s.data(), (int_t)s.size()) ? il::StringType::Ascii : il::isUtf8(s.data(), (int_t)s.size()) ? il::StringType::Utf8 : il::StringType::Byte, s.data(), (int_t)s.size());
}
enum Expect { MustSave, MayRefuse, MustRefuse };
template <typename M> static void roundTrip(Ctx& c, const M& m, Expect e) {
  fs() = mc::MemFs();
  Value want = convertMap(c, m);
  if (c.verbose) c.log("configuration: %s", tomlref::show(want).c_str());
  il::Status st{};
  il::save(m, il::String(kName), il::io, st);
  const bool ok = st.Ok();
  MC_CHECK(c, fs().open == 0, "saving leaves a file handle open");
  if (!ok) {
    MC_CHECK(c, e != MustSave, "a configuration was not saved: %s", tomlref::show(want).c_str());
    return;
  }
  const std::string text = fs().files[kName];
  if (c.verbose) c.log("saved as: %s", quote(text).c_str());
  const Value after = convertMap(c, m);
  MC_CHECK(c, tomlref::same(after, want), "saving changed the configuration %s", tomlref::show(want).c_str());
  const tomlref::Verdict v = tomlref::read(text);
  MC_CHECK(c, v.kind != tomlref::Verdict::Bad, "the configuration %s was saved as a malformed document: %s", tomlref::show(want).c_str(), quote(text).c_str());
  MC_CHECK(c, v.kind == tomlref::Verdict::Unusual || tomlref::same(v.root, want), "the configuration %s was saved as %s", tomlref::show(want).c_str(), quote(text).c_str());
  il::Status sl{};
  Map back = il::load<Map>(il::String(kName), il::io, sl);
  const bool lok = sl.Ok();
  MC_CHECK(c, lok, "the configuration %s was saved without error as %s and can not be loaded", tomlref::show(want).c_str(), quote(text).c_str());
  const Value got = convertMap(c, back);
  MC_CHECK(c, tomlref::same(got, want), "the configuration %s was loaded as %s", tomlref::show(want).c_str(), tomlref::show(got).c_str());
  MC_CHECK(c, e != MustRefuse, "a configuration that the format can not hold was saved without error");
}
static const std::vector<std::string> kKeys = {"a", "b", "c-d_1", "x.y", "p q", "\xC3\xA9", "q\"\\", "", "[k]", "#", "0", "t\tn\n", "a_key_that_is_too_long_to_be_stored_inline"};
static const std::vector<std::string> kStrings = {"", "a", "\xC3\xA9", "\"", "\\", "\n", "\r\n\t\b\f", std::string("\0z", 2), "\x01\x1F\x7F", "#", "']", "\\u0041", "\xF0\x9F\x98\x80", "exactly 22 characters!", "exactly 23 characters!!", "a string which is too long to be stored inline"};
static const std::vector<int_t> kInts = {0, 1, -1, 42, std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), (int_t)1 << 47, std::numeric_limits<int_t>::max(), std::numeric_limits<int_t>::min(), -(((int_t)1 << 53) + 1)};
static const std::vector<double> kDoubles = {0.0, -0.0, 1.0, 0.1, -1.0 / 3, 1e22, 1e23, 123456.789, 3.0000004, 1e100, -1e-100, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 9007199254740993.0, 1e16, 1.0000000000000002};

static il::Dynamic leaf(Ctx& c) {
  switch (c.pick(6)) {
    case 0: return il::Dynamic{c.flip()};
    case 1: return il::Dynamic{c.of(kInts)};
    case 2: return il::Dynamic{c.of(kDoubles)};
    case 3: return il::Dynamic{ils(c.of(kStrings))};
    case 4: {
      il::Array<double> v{};
      for (int n = c.pick(4), i = 0; i < n; ++i) v.Append(0.1 + i);
      return il::Dynamic{v};
    }
    default: {
      il::Array2D<double> v(c.pick(3), c.pick(3), il::align, 16);
      for (int_t j = 0; j < v.size(1); ++j) for (int_t i = 0; i < v.size(0); ++i) v(i, j) = 0.1 + i + 10.0 * j;
      return il::Dynamic{v};
    }
  }
}
template <typename M> static il::Dynamic table1(const std::string& k, const il::Dynamic& v) {
  M m{};
  m.Set(ils(k), v);
  return il::Dynamic{m};
}
static il::Dynamic array2(const il::Dynamic& x, const il::Dynamic& y) {
  il::Array<il::Dynamic> a{};
  a.Append(x);
  a.Append(y);
  return il::Dynamic{a};
}
// every leaf, under every key, in every kind of container
static void leavesBody(Ctx& c) {
  const il::Dynamic v = leaf(c);
  const std::string k = c.of(kKeys);
  il::Dynamic w;
  switch (c.pick(8)) {
    case 0: w = v; break;
    case 1: w = table1<Map>(k, v); break;
    case 2: w = table1<HMap>(k, v); break;
    case 3: w = array2(v, v); break;
    case 4: w = array2(table1<Map>(k, v), table1<HMap>("z", v)); break;
    case 5: w = array2(array2(v, v), array2(v, v)); break;
    case 6: w = table1<Map>(k, table1<Map>(k, table1<HMap>(k, v))); break;
    default: w = table1<HMap>(k, array2(table1<Map>("z", array2(v, v)), table1<Map>(k, v))); break;
  }
  if (c.flip()) {
    Map m{};
    m.Set(ils(k), w);
    roundTrip(c, m, MustSave);
  } else {
    HMap m{};
    m.Set(ils(k), w);
    roundTrip(c, m, MustSave);
  }
}
MC_SUITE("every value in every place", leavesBody, 1, 1, true, 2);

// every shape with a bounded number of values
static il::Dynamic shape(Ctx& c, int& left, int depth, int kind);
static void fill(Ctx& c, Map& m, int& left, int depth) {
  static const char* names[] = {"a", "b c", "d", "e", "f", "g", "h"};
  // the names are given out from either end, so that the orders differ
  for (int i = 0; left > 0 && c.flip(); ++i) m.Set(ils(names[i % 7]), shape(c, left, depth, c.pick(5)));
}
static il::Dynamic shape(Ctx& c, int& left, int depth, int kind) {
  left--;
  switch (kind) {
    case 0: return il::Dynamic{(int_t)(7 + left)};
    case 1: return il::Dynamic{ils("s\"")};
    case 2: return il::Dynamic{0.1 * left};
    case 3: {
      il::Array<il::Dynamic> a{};
      if (depth > 0 && left > 0) {
        const int k = c.pick(5);
        while (left > 0 && c.flip()) a.Append(shape(c, left, depth - 1, k));
      }
      return il::Dynamic{std::move(a)};
    }
    default: {
      Map m{};
      if (depth > 0) fill(c, m, left, depth - 1);
      if (left > 0 && c.flip()) {  // the same table in the other container
        HMap h{};
        for (il::spot_t i = m.spotBegin(); i != m.spotEnd(); i = m.next(i)) h.Set(m.key(i), m.value(i));
        return il::Dynamic{std::move(h)};
      }
      return il::Dynamic{std::move(m)};
    }
  }
}
static void shapesBody(Ctx& c) {
  Map m{};
  int left = c.bound;
  fill(c, m, left, 3);
  roundTrip(c, m, MustSave);
}
MC_SUITE("every shape up to a number of values", shapesBody, 5, 6, true, 6);

static void stringBody(Ctx& c) {
  static const std::vector<std::string> p = {"a", "\"", "\\", "\n", "\r", "\t", std::string(1, '\0'), "\x7F", "\x1B", "n", "u0041", "\xC3\xA9", "\xE2\x82\xAC", "]", "#", "'", "\x80", " "};
  std::string s;
  bool valid = true;
  for (int i = 0; i < c.bound; ++i) {
    const int k = c.pick((int)p.size() + 1);
    if (k == 0) break;
    s += p[k - 1];
    if (p[k - 1] == "\x80") valid = false;
  }
  Map m{};
  switch (c.pick(3)) {
    case 0: m.Set(ils("k"), il::Dynamic{ils(s)}); break;
    case 1: m.Set(ils(s), il::Dynamic{true}); break;
    default: m.Set(ils(s), table1<Map>(s, array2(il::Dynamic{ils(s)}, il::Dynamic{ils("")}))); break;
  }
  roundTrip(c, m, valid ? MustSave : MayRefuse);
}
MC_SUITE("every string", stringBody, 3, 4, true, 2);

static void sizesBody(Ctx& c) {
  const int n = c.of({0, 1, 20, 21, 22, 23, 24, 25, 63, 64, 127, 128, 180, 199, 200, 201, 255, 256, 1000, 4095, 4096, 4097, 9000});
  const std::string s = c.flip() ? std::string(n, 'x') : std::string(n, '"');
  Map m{};
  switch (c.pick(4)) {
    case 0: m.Set(ils("k"), il::Dynamic{ils(s)}); break;
    case 1: m.Set(ils(s), il::Dynamic{(int_t)1}); break;
    case 2: m.Set(ils(s), table1<Map>(s, il::Dynamic{(int_t)1})); break;
    default: {
      il::Array<il::Dynamic> a{};
      for (int i = 0; i < n; ++i) a.Append(il::Dynamic{(int_t)i});
      m.Set(ils("k"), il::Dynamic{a});
      for (int i = 0; i < std::min(n, 300); ++i) m.Set(ils("key" + std::to_string(i)), il::Dynamic{ils(std::to_string(i))});
      break;
    }
  }
  m.Set(ils("last"), il::Dynamic{0.5});
  roundTrip(c, m, MustSave);
}
MC_SUITE("sizes of strings, arrays and tables", sizesBody, 1, 1);

static void depthBody(Ctx& c) {
  const int n = c.of({1, 2, 10, 60, 200, 254, 255, 256, 257, 300});
  const int kind = c.pick(5);
  il::Dynamic v{(int_t)1};
  for (int i = 0; i < n; ++i) {
    if (kind == 0 || (kind == 3 && i % 2 == 0) || (kind == 4 && i < n / 2)) {
      il::Array<il::Dynamic> a{};
      a.Append(v);
      v = il::Dynamic{a};
    } else v = kind == 1 ? table1<Map>("k", v) : table1<HMap>("k", v);
  }
  Map m{};
  m.Set(ils("k"), v);
  roundTrip(c, m, n <= 60 ? MustSave : MayRefuse);
}
MC_SUITE("nesting", depthBody, 1, 1);

// values that the format has no place for are refused, wherever they are
static void refusedBody(Ctx& c) {
  il::Dynamic bad;
  switch (c.pick(9)) {
    case 0: bad = il::Dynamic{std::numeric_limits<double>::infinity()}; break;
    case 1: bad = il::Dynamic{-std::numeric_limits<double>::infinity()}; break;
    case 2: bad = il::Dynamic{std::numeric_limits<double>::quiet_NaN()}; break;
    case 3: bad = array2(il::Dynamic{true}, il::Dynamic{(int_t)1}); break;
    case 4: bad = array2(il::Dynamic{0.5}, il::Dynamic{(int_t)1}); break;
    case 5: bad = il::Dynamic{ils("\xFF")}; break;
    case 6: bad = table1<Map>("\x80", il::Dynamic{true}); break;
    case 7: { il::Array<double> a{}; a.Append(0.5); a.Append(NAN); bad = il::Dynamic{a}; break; }
    default: bad = array2(array2(il::Dynamic{true}, il::Dynamic{true}), table1<Map>("a", il::Dynamic{true})); break;
  }
  il::Dynamic w;
  switch (c.pick(5)) {
    case 0: w = bad; break;
    case 1: w = table1<Map>("k", bad); break;
    case 2: w = table1<HMap>("k", bad); break;
    case 3: w = array2(bad, bad); break;
    default: w = array2(table1<Map>("k", bad), table1<Map>("l", bad)); break;
  }
  Map m{};
  if (c.flip()) m.Set(ils("first"), il::Dynamic{true});
  m.Set(ils("k"), w);
  if (c.flip()) m.Set(ils("last"), il::Dynamic{true});
  roundTrip(c, m, MustRefuse);
}
MC_SUITE("values that can not be saved", refusedBody, 1, 1);

// values of types that the format does not have
static void foreignBody(Ctx& c) {
  fs() = mc::MemFs();
  il::Dynamic bad;
  switch (c.pick(6)) {
    case 0: bad = il::Dynamic{}; break;
    case 1: bad = il::Dynamic{(unsigned char)7}; break;
    case 2: bad = il::Dynamic{1.5f}; break;
    case 3: bad = il::Dynamic{il::Array<int>{il::value, {1, 2}}}; break;
    case 4: bad = il::Dynamic{il::Array<unsigned char>{il::value, {1, 2}}}; break;
    default: bad = il::Dynamic{il::Array2D<unsigned char>(2, 2, 0)}; break;
  }
  Map m{};
  m.Set(ils("k"), c.flip() ? bad : array2(bad, bad));
  il::Status st{};
  il::save(m, il::String(kName), il::io, st);
  const bool ok = st.Ok();
  MC_CHECK(c, fs().open == 0, "saving leaves a file handle open");
  if (!ok) return;
  const std::string text = fs().files[kName];
  MC_CHECK(c, tomlref::read(text).kind == tomlref::Verdict::Good, "saved without error as %s", quote(text).c_str());
  il::Status sl{};
  Map back = il::load<Map>(il::String(kName), il::io, sl);
  const bool lok = sl.Ok();
  MC_CHECK(c, lok, "saved without error as %s, which can not be loaded", quote(text).c_str());
  MC_CHECK(c, back.nbElements() == 1, "saved without error as %s, which has other keys", quote(text).c_str());
}
MC_SUITE("values of types the format does not have", foreignBody, 1, 1);
