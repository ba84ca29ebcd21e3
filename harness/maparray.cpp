// P10: il::MapArray against a reference insertion-ordered map.
#include <il/MapArray.h>
#include <il/String.h>
#include <string>
#include <vector>
#include "ilmc.h"
using il::int_t;
using mc::Ctx;
using mc::Elem;

struct IntKeys { using K = int; using F = il::HashFunction<int>; static int of(int id) { return id * 7 - 20; } };
struct StringKeys {
  using K = il::String; using F = il::HashFunction<il::String>;
  static il::String of(int id) {
    static const char* t[] = {"", "a", "b", "ab", "ba", "a long key that lives on the heap: 1", "a long key that lives on the heap: 2", "exactly-22-characters!"};
    if (id < 8) return il::String(il::StringType::Byte, t[id], (int_t)strlen(t[id]));
    std::string s = "k" + std::to_string(id) + (id % 2 ? std::string(30, 'x') : "");
    return il::String(il::StringType::Byte, s.data(), (int_t)s.size());
  }
};
template <int mode>
struct BadHash : il::HashFunction<int> {
  static size_t hash(int v, int p) { return mode == 0 ? ((size_t)1 << (p < 62 ? p : 1)) - 1 : (size_t)v & (((size_t)1 << (p < 62 && p > 0 ? p : 1)) - 1); }
};
template <int mode> struct BadKeys { using K = int; using F = BadHash<mode>; static int of(int id) { return id; } };
struct Pair { int id, val; };
using Model = std::vector<Pair>;
static int at(const Model& r, int id) { for (size_t i = 0; i < r.size(); ++i) if (r[i].id == id) return (int)i; return -1; }

template <typename KS, typename V>
struct Run {
  using K = typename KS::K; using F = typename KS::F; using M = il::MapArray<K, V, F>;
  static inline int kIds = 18;
  struct Ids { int old; explicit Ids(int n) : old(kIds) { kIds = n; } ~Ids() { kIds = old; } };
  static void verify(Ctx& c, M& m, const Model& r, const char* name) {
    const M& k = m;
    MC_CHECK(c, m.size() == (int_t)r.size() && m.nbElements() == (int_t)r.size(), "%s: size %ld, expected %zu", name, (long)m.size(), r.size());
    MC_CHECK(c, m.capacity() >= m.size(), "%s: the capacity is below the size", name);
    size_t n = 0;
    for (il::spot_t s = m.spotBegin(); s != m.spotEnd(); s = m.next(s)) {
      MC_CHECK(c, n < r.size(), "%s: the iteration visits too many pairs", name);
      MC_CHECK(c, F::isEqual(k.key(s), KS::of(r[n].id)), "%s: the pair number %zu does not have the key that was set in that order", name, n);
      MC_CHECK(c, mc::get(k.value(s)) == r[n].val && &m.Value(s) == &k.value(s), "%s: the pair number %zu has value %d, expected %d", name, n, mc::get(k.value(s)), r[n].val);
      ++n;
    }
    MC_CHECK(c, n == r.size(), "%s: the iteration visits %zu of %zu pairs", name, n, r.size());
    for (int id = 0; id < kIds; ++id) {
      const il::spot_t s = m.search(KS::of(id));
      const int i = at(r, id);
      MC_CHECK(c, m.found(s) == (i >= 0), "%s: key #%d is %s", name, id, i >= 0 ? "not found" : "found although it was never set");
      if (i < 0) continue;
      MC_CHECK(c, F::isEqual(m.key(s), KS::of(id)) && mc::get(m.value(s)) == r[i].val, "%s: key #%d gives %d, expected %d", name, id, mc::get(m.value(s)), r[i].val);
      MC_CHECK(c, s.index == i, "%s: key #%d is at position %ld, expected %d", name, id, (long)s.index, i);
    }
  }
  static std::string key(M& m, const Model& r) {
    std::string s = std::to_string(m.capacity()) + ":";
    for (int id = 0; id < kIds; ++id) if (at(r, id) < 0) s += std::to_string(m.search(KS::of(id)).index) + ",";
    for (auto& p : r) s += std::to_string(p.id) + "=" + std::to_string(p.val) + ";";
    return s;
  }
  static void put(Model& r, int id, int val) { const int i = at(r, id); if (i >= 0) r[i].val = val; else r.push_back({id, val}); }
  static void set(Ctx& c, M& m, Model& r, int id, int val, int how) {
    const K ck = KS::of(id);
    const V cv(val);
    switch (how) {
      case 0: m.Set(ck, cv); break;
      case 1: m.Set(ck, V(val)); break;
      case 2: m.Set(KS::of(id), cv); break;
      case 3: m.Set(KS::of(id), V(val)); break;
      default: {
        il::spot_t s = m.search(ck);
        if (m.found(s)) { m.Value(s) = V(val); break; }
        if (how == 4) m.Set(ck, cv, il::io, s);
        if (how == 5) m.Set(ck, V(val), il::io, s);
        if (how == 6) m.Set(KS::of(id), cv, il::io, s);
        if (how == 7) m.Set(KS::of(id), V(val), il::io, s);
        MC_CHECK(c, m.found(s) && F::isEqual(m.key(s), ck) && mc::get(m.value(s)) == val, "the spot returned by Set does not denote the pair");
      }
    }
    put(r, id, val);
  }
  static void body(Ctx& c) {
    const int how = c.pick(4);
    M a = how == 1 ? M(c.of({1, 4, 13})) : M();
    M b;
    Model ra, rb;
    static const int fills[] = {0, 1, 2, 3, 6, 7, 12};
    const int fill = fills[c.pick(7)];
    if (how == 2) { const int n = c.of({1, 5}); c.log("a = MapArray(%d)", n); M z(n); a = z; }
    if (how == 3) { c.log("a = move(MapArray(5))"); M z(5); a = std::move(z); }
    c.log("a: %d pairs", fill);
    for (int i = 0; i < fill; ++i) set(c, a, ra, i, i, i % 8);
    verify(c, a, ra, "a");
    if (c.flip()) { c.log("b: keys 17, 1"); set(c, b, rb, 17, 51, 0); set(c, b, rb, 1, 52, 3); }
    for (int step = 0; step < c.bound; ++step) {
      c.state(key(a, ra) + "|" + key(b, rb), c.bound - step);
      const int val = 100 + 10 * step;
      switch (c.pick(9)) {
        case 0: { const int id = c.of({0, 1, 16, 17, fill}); const int h = step == 0 ? c.pick(8) : step == 1 ? 4 * c.pick(2) : 3; c.log("Set(key #%d, %d) variant %d", id, val, h); set(c, a, ra, id, val, h); break; }
        case 1: c.log("a = b"); a = b; ra = rb; break;
        case 2: { c.log("a = a"); M& r = a; a = r; break; }
        case 3: c.log("a = move(b)"); a = std::move(b); ra = rb; b = M(); rb.clear(); break;
        case 4: {
          c.log("copy z(a), modify z, b = z");
          M z{a}; Model rz = ra;
          verify(c, z, rz, "z");
          set(c, z, rz, 15, val, 0);
          set(c, z, rz, 0, val + 1, 1);
          verify(c, z, rz, "z"); verify(c, a, ra, "a");
          b = z; rb = rz;
          break;
        }
        case 5: {
          c.log("z(move(a)), use a, a = move(z)");
          M z{std::move(a)};
          verify(c, z, ra, "z");
          Model re;
          verify(c, a, re, "moved-from a");
          set(c, a, re, 3, val, 0); set(c, a, re, 4, val, 3);
          verify(c, a, re, "moved-from a");
          a = std::move(z);
          break;
        }
        case 6: {
          if (ra.empty()) break;
          const int from = ra.front().id, id = c.of({from, 14, ra.back().id});
          c.log("Set(key #%d, value of key #%d in the map itself)", id, from);
          a.Set(KS::of(id), a.value(a.search(KS::of(from))));
          put(ra, id, ra.front().val);
          break;
        }
        case 7: {
          if (ra.empty()) break;
          c.log("Set(key inside the map, %d)", val);
          const int id = ra.back().id;
          const K& k = a.key(a.search(KS::of(id)));
          a.Set(k, V(val));
          put(ra, id, val);
          break;
        }
        case 8: { if (ra.empty()) break; c.log("Value(first) = %d", val); a.Value(a.spotBegin()) = V(val); ra[0].val = val; break; }
      }
      verify(c, a, ra, "a");
      verify(c, b, rb, "b");
      c.settle();
    }
  }
  // Larger tables: n pairs in several orders, then a history of operations on whole tables.
  static void growth(Ctx& c) {
    static const int some[] = {5, 12, 13, 24, 25, 49, 129, 513}, more[] = {129, 257, 513};
    const int which = c.pick(c.thorough ? 67 : 8);
    const int n = !c.thorough ? some[which] : which < 64 ? 1 + which : more[which - 64];
    const int each = n > 64 ? 128 : 16;
    const int how = c.pick(2), stride = c.of({1, -1, 5}), h = c.of({0, 3, 5});
    Ids ids(n + 8);
    M a = how == 1 ? M(n) : M();
    Model r;
    c.log("%d pairs, stride %d, variant %d%s", n, stride, h, how == 1 ? ", MapArray(n)" : "");
    std::vector<int> order;
    if (stride == 5) { for (int f = 0; f < 5; ++f) for (int i = f; i < n; i += 5) order.push_back(i); }
    else for (int i = 0; i < n; ++i) order.push_back(stride == 1 ? i : n - 1 - i);
    for (int k = 0; k < n; ++k) { set(c, a, r, order[k], k, h); if (k % each == each - 1 || k == n - 1) verify(c, a, r, "a"); }
    M b;
    Model rb;
    const int steps = n > 64 ? 1 : c.bound;
    for (int step = 0; step < steps; ++step) {
      c.state(key(a, r) + "|" + key(b, rb), steps - step);
      switch (c.pick(5)) {
        case 0: c.log("b = a"); b = a; rb = r; break;
        case 1: { c.log("b = move(copy of a)"); M z{a}; b = std::move(z); rb = r; break; }
        case 2: c.log("a = b"); a = b; r = rb; break;
        case 3: { c.log("set every key again, and five more"); for (int i = n + 4; i >= 0; --i) set(c, a, r, i, 1000 + i, h); break; }
        case 4: { c.log("a = a map of two pairs"); M z; Model rz; set(c, z, rz, 1, 5, h); set(c, z, rz, n + 2, 6, h); a = z; r = rz; break; }
      }
      verify(c, a, r, "a");
      verify(c, b, rb, "b");
      c.settle();
    }
  }
  static void lists(Ctx& c) {
    const int n = c.pick(6);
    Model r;
    auto kv = [&](int i, int x = 0) { put(r, i, 10 + i + x); return il::KeyValue<K, V>(KS::of(i), V(10 + i + x)); };
    M* m = nullptr;
    if (n == 0) m = new M{il::value, {}};
    if (n == 1) m = new M{il::value, {kv(5)}};
    if (n == 2) m = new M{il::value, {kv(5), kv(0)}};
    if (n == 3) m = new M{il::value, {kv(5), kv(0), kv(1)}};
    if (n == 4) m = new M{il::value, {kv(5), kv(0), kv(1), kv(6)}};
    if (n == 5) m = new M{il::value, {kv(5), kv(0), kv(5, 7), kv(6), kv(1)}};
    M t(std::move(*m));
    delete m;
    verify(c, t, r, "t");
    set(c, t, r, 7, 1, c.pick(8));
    verify(c, t, r, "t");
    M u = t;
    verify(c, u, r, "u");
  }
};
#define S(name, KS, V, q, t) MC_SUITE(name, (Run<KS, V>::body), q, t); MC_SUITE(name " lists", (Run<KS, V>::lists), 1, 1); MC_SUITE(name " growth", (Run<KS, V>::growth), 2, 3)
S("int keys", IntKeys, int, 3, 5);
S("int keys, class values", IntKeys, Elem, 3, 5);
S("string keys", StringKeys, Elem, 3, 5);
S("hash to the last bucket", BadKeys<0>, int, 3, 5);
S("hash is the low bits", BadKeys<1>, Elem, 3, 5);

// The C-string search agrees with the String search.
static void cstring(Ctx& c) {
  using M = il::MapArray<il::String, int>;
  static const char* words[] = {"", "a", "ab", "b", "toml", "a long key that lives on the heap, really", "twenty-two characters!"};
  M m;
  const int n = c.pick(8);
  for (int i = 0; i < n; ++i) m.Set(il::String(il::StringType::Byte, words[i], (int_t)strlen(words[i])), i);
#define T(i, L) { const il::spot_t s = m.searchCString(L); MC_CHECK(c, m.found(s) == (i < n), "searchCString(\"%s\") is wrong", L); if (m.found(s)) MC_CHECK(c, m.value(s) == i, "searchCString(\"%s\") finds another pair", L); }
  T(0, "") T(1, "a") T(2, "ab") T(3, "b") T(4, "toml") T(5, "a long key that lives on the heap, really") T(6, "twenty-two characters!") T(99, "absent") T(99, "tom")
}
MC_SUITE("C strings", cstring, 1, 1);

// Very large maps: the positions of the pairs go past 16 bits.
static void huge(Ctx& c) {
  using M = il::MapArray<long, long>;
  const int n = c.of({300, 70001}), how = c.pick(2), down = c.flip();
  c.log("%d pairs%s%s", n, how ? ", MapArray(n)" : "", down ? ", largest key first" : "");
  auto order = [&](int k) { return down ? n - 1 - k : k; };
  std::vector<int> v(n), w;
  auto verify = [&](const M& m, const std::vector<int>& r, const char* name) {
    MC_CHECK(c, m.nbElements() == (int_t)r.size() && m.size() == (int_t)r.size(), "%s: %ld elements reported, expected %zu", name, (long)m.nbElements(), r.size());
    int k = 0;
    for (il::spot_t s = m.spotBegin(); s != m.spotEnd(); s = m.next(s), ++k) {
      MC_CHECK(c, k < (int)r.size() && m.key(s) == order(k) * 3L && m.value(s) == r[k], "%s: pair %d of the iteration is (%ld, %ld)", name, k, m.key(s), m.value(s));
      const il::spot_t t = m.search(order(k) * 3L);
      MC_CHECK(c, m.found(t) && t.index == s.index, "%s: search(%ld) does not find pair %d", name, order(k) * 3L, k);
    }
    MC_CHECK(c, k == (int)r.size(), "%s: the iteration gives %d pairs, expected %zu", name, k, r.size());
    for (int i = 0; i < n + 5; ++i) MC_CHECK(c, !m.found(m.search(i * 3L + 1)), "%s: the key %d is found although it was never set", name, i * 3 + 1);
  };
  M a = how == 1 ? M(n) : M();
  for (int k = 0; k < n; ++k) { a.Set(long(order(k) * 3), long(v[k] = k)); }
  verify(a, v, "a");
  M b;
  for (int step = 0; step < c.bound; ++step) {
    const int op = c.pick(4);
    static const char* what[] = {"b = a", "b = move(copy of a)", "set every key again", "a = b, then every key"};
    c.log("%s", what[op]);
    if (op == 0) { b = a; w = v; }
    if (op == 1) { M z{a}; b = std::move(z); w = v; }
    if (op >= 2) {
      if (op == 3) { a = b; v = w; }
      v.resize(n);
      for (int k = 0; k < n; ++k) a.Set(long(order(k) * 3), long(v[k] = 5 * k + step));
    }
    verify(a, v, "a");
    verify(b, w, "b");
  }
  c.settle();
}
MC_SUITE("very large", huge, 2, 3);
