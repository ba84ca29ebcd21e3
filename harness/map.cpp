// P09: il::Map against a reference map.
#include <il/Map.h>
#include <il/String.h>
#include <map>
#include <string>
#include <vector>
#include "ilmc.h"
using il::int_t;
using mc::Ctx;
using mc::Elem;

// Key alphabets. K(id) builds key number id; distinct ids give distinct keys.
struct IntKeys { using K = int; using F = il::HashFunction<int>; static int of(int id) { return id * 7 - 20; } };
struct LongKeys { using K = long; using F = il::HashFunction<long>; static long of(int id) { return id % 2 ? (1L << 40) + id : -id * 1000003L; } };
// keys of the library's own hash function that fall in few buckets of every small table
template <typename T, typename F>
static T colliding(int id, int group) {
  static std::vector<T> pool[3];
  auto& v = pool[group];
  for (T k = v.empty() ? 1 : v.back() + 1; (int)v.size() <= id; ++k)
    if (F::hash(k, 5) % 32 == (size_t)(group == 0 ? 0 : group == 1 ? 31 : 3) || F::hash(k, 5) % 32 == (size_t)(group == 0 ? 1 : group == 1 ? 30 : 3)) v.push_back(k);
  return v[id];
}
struct CollidingKeys { using K = int; using F = il::HashFunction<int>; static int of(int id) { return colliding<int, F>(id, id % 3) ; } };
struct StringKeys {
  using K = il::String; using F = il::HashFunction<il::String>;
  static il::String of(int id) {  // short, empty, long (heap) and almost identical keys
    static const char* t[] = {"", "a", "b", "ab", "ba", "a long key that lives on the heap: 1", "a long key that lives on the heap: 2", "exactly-22-characters!"};
    if (id < 8) return il::String(il::StringType::Byte, t[id], (int_t)strlen(t[id]));
    std::string s = "k" + std::to_string(id) + (id % 2 ? std::string(30, 'x') : "");
    return il::String(il::StringType::Byte, s.data(), (int_t)s.size());
  }
};
// a user-supplied hash that sends everything to one bucket, or to the last one
template <int mode>
struct BadHash : il::HashFunction<int> {
  static size_t hash(int v, int p) { return mode == 0 ? 0 : mode == 1 ? ((size_t)1 << p) - 1 : (size_t)v & (((size_t)1 << p) - 1); }
};
template <int mode> struct BadKeys { using K = int; using F = BadHash<mode>; static int of(int id) { return id; } };

using Model = std::map<int, int>;
template <typename KS, typename V>
struct Run {
  using K = typename KS::K;
  using F = typename KS::F;
  using M = il::Map<K, V, F>;
  static inline int kIds = 18;
  struct Ids { int old; explicit Ids(int n) : old(kIds) { kIds = n; } ~Ids() { kIds = old; } };
  static int guess(const il::String& k) { return k.size() > 1 && k.data()[0] == 'k' ? std::atoi(k.data() + 1) : -1; }
  template <typename X> static int guess(const X&) { return -1; }
  static int id_of(const K& k) { const int g = guess(k); if (g >= 0 && g < kIds && F::isEqual(k, KS::of(g))) return g; for (int i = 0; i < kIds; ++i) if (F::isEqual(k, KS::of(i))) return i; return -1; }
  static void verify(Ctx& c, M& m, const Model& r, const char* name) {
    const M& k = m;
    MC_CHECK(c, m.nbElements() == (int_t)r.size() && m.isEmpty() == r.empty(), "%s: %ld elements reported, expected %zu", name, (long)m.nbElements(), r.size());
    MC_CHECK(c, m.nbBuckets() >= m.nbElements() + (m.nbElements() > 0), "%s: %ld elements in %ld buckets", name, (long)m.nbElements(), (long)m.nbBuckets());
    for (int i = 0; i < kIds; ++i) {
      const K key = KS::of(i);
      const il::spot_t s = m.search(key);
      const bool in = r.count(i) > 0;
      MC_CHECK(c, m.found(s) == in, "%s: key #%d is %s", name, i, in ? "not found" : "found although it was never set or was erased");
      if (!in) continue;
      MC_CHECK(c, F::isEqual(m.key(s), key), "%s: the key at the spot of key #%d is another key", name, i);
      MC_CHECK(c, mc::get(k.value(s)) == r.at(i), "%s: value of key #%d is %d, expected %d", name, i, mc::get(k.value(s)), r.at(i));
      MC_CHECK(c, &m.Value(s) == &k.value(s), "%s: Value and value disagree", name);
      const V dflt(-1);
      MC_CHECK(c, mc::get(k.valueForKey(key)) == r.at(i) && mc::get(k.valueForKey(key, dflt)) == r.at(i), "%s: valueForKey is wrong", name);
    }
    std::map<int, int> seen;
    int steps = 0;
    for (il::spot_t s = k.spotBegin(); s != k.spotEnd(); s = k.next(s)) {
      MC_CHECK(c, ++steps <= 4 * kIds + 2000, "%s: the iteration does not end", name);
      const int i = id_of(k.key(s));
      MC_CHECK(c, i >= 0 && r.count(i), "%s: the iteration visits a key that is not present", name);
      MC_CHECK(c, !seen.count(i), "%s: the iteration visits key #%d twice", name, i);
      MC_CHECK(c, mc::get(k.value(s)) == r.at(i), "%s: the iteration gives a wrong value for key #%d", name, i);
      seen[i] = 1;
    }
    MC_CHECK(c, seen.size() == r.size(), "%s: the iteration visits %zu of %zu pairs", name, seen.size(), r.size());
  }
  static std::string key(M& m, const Model& r) {
    std::string s = std::to_string(m.nbBuckets()) + "/" + std::to_string(m.nbTombstones()) + ":";
    for (int i = 0; i < kIds; ++i) {
      s += std::to_string(m.search(KS::of(i)).index) + ",";
      auto it = r.find(i);
      if (it != r.end()) s += std::to_string(it->second) + ";";
    }
    return s;
  }
  static void set(Ctx& c, M& m, Model& r, int id, int val, int how) {
    const K ck = KS::of(id);
    K k = KS::of(id);
    const V cv(val);
    V v(val);
    switch (how) {
      case 0: m.Set(ck, cv); break;
      case 1: m.Set(ck, V(val)); break;
      case 2: m.Set(KS::of(id), cv); break;
      case 3: m.Set(KS::of(id), V(val)); break;
      default: {
        il::spot_t s = m.search(ck);
        if (m.found(s)) { m.Value(s) = V(val); break; }
        if (how == 4) m.Set(ck, cv, il::io, s);
        if (how == 5) m.Set(ck, V(val), il::io, s);
        if (how == 6) m.Set(KS::of(id), cv, il::io, s);
        if (how == 7) m.Set(KS::of(id), V(val), il::io, s);
        MC_CHECK(c, m.found(s) && F::isEqual(m.key(s), ck) && mc::get(m.value(s)) == val, "the spot returned by Set does not denote the pair");
      }
    }
    r[id] = val;
  }
  static void body(Ctx& c) {
    M a, b;
    Model ra, rb;
    // a: how it is built and how many pairs it holds before the explored history
    static const int fills[] = {0, 1, 2, 3, 6, 7, 12};
    const int how = c.pick(3);
    const int fill = fills[c.pick(c.thorough ? 7 : 6)];
    if (how == 1) { const int n = c.of({1, 4, 13}); c.log("a: Map(%d)", n); M z(n); a = z; }
    if (how == 2) { const int n = c.of({1, 4, 13}); c.log("a: Reserve(%d)", n); a.Reserve(n); }
    c.log("a: %d pairs", fill);
    for (int i = 0; i < fill; ++i) set(c, a, ra, i, i, i % 8);
    verify(c, a, ra, "a");
    switch (c.pick(3)) {
      case 0: break;
      case 1: c.log("b: keys 1, 17"); set(c, b, rb, 1, 51, 0); set(c, b, rb, 17, 52, 0); break;
      case 2: c.log("b: 4 keys, one erased"); for (int i = 0; i < 4; ++i) set(c, b, rb, 2 * i, 50 + i, 3); b.erase(b.search(KS::of(2))); rb.erase(2); break;
    }
    for (int step = 0; step < c.bound; ++step) {
      c.state(key(a, ra) + "|" + key(b, rb), c.bound - step);
      const int val = 100 + 10 * step;
      switch (c.pick(14)) {
        case 0: { const int id = c.of({0, 1, 2, 16, 17, fill}); const int h = step == 0 ? c.pick(8) : step == 1 ? 4 * c.pick(2) : 3; c.log("Set(key #%d, %d) variant %d", id, val, h); set(c, a, ra, id, val, h); break; }
        case 1: {
          const int id = c.of({0, 1, 2, 16, fill - 1});
          if (!ra.count(id)) break;
          c.log("erase(key #%d)", id);
          a.erase(a.search(KS::of(id)));
          ra.erase(id);
          break;
        }
        case 2: c.log("Clear()"); a.Clear(); ra.clear(); break;
        case 3: { const int n = c.of({0, 1, 4, 13, 30}); c.log("Reserve(%d)", n); a.Reserve(n); break; }
        case 4: c.log("Rehash()"); a.Rehash(); break;
        case 5: c.log("a = b"); a = b; ra = rb; break;
        case 6: { c.log("a = a"); M& r = a; a = r; break; }
        case 7: c.log("a = move(b)"); a = std::move(b); ra = rb; rb.clear(); break;
        case 8: { c.log("a = move(a)"); M& r = a; a = std::move(r); break; }
        case 9: {
          c.log("copy z(a), modify z, b = z");
          M z{a};
          Model rz = ra;
          verify(c, z, rz, "z");
          set(c, z, rz, 15, val, 0);
          if (rz.count(0)) { z.erase(z.search(KS::of(0))); rz.erase(0); }
          verify(c, z, rz, "z");
          verify(c, a, ra, "a");
          b = z; rb = rz;
          break;
        }
        case 10: {
          c.log("z(move(a)), use a, a = move(z)");
          M z{std::move(a)};
          verify(c, z, ra, "z");
          Model re;
          verify(c, a, re, "moved-from a");
          set(c, a, re, 3, val, 0);
          verify(c, a, re, "moved-from a");
          a = std::move(z);
          break;
        }
        case 11: {
          if (ra.empty()) break;
          const int from = ra.begin()->first, id = c.of({from, 14, (int)ra.rbegin()->first});
          const int h = c.pick(2);
          c.log("Set(key #%d, value of key #%d in the map itself) variant %d", id, from, h);
          const int x = ra[from];
          il::spot_t s = a.search(KS::of(from));
          if (h == 0) a.Set(KS::of(id), a.value(s));
          else { const K k = KS::of(id); const V& v = a.value(s); a.Set(k, v); }
          ra[id] = x;
          break;
        }
        case 12: {
          if (ra.empty()) break;
          c.log("Set(key inside the map, %d)", val);
          il::spot_t s = a.spotBegin();
          const int id = id_of(a.key(s));
          a.Set(a.key(s), V(val));
          ra[id] = val;
          break;
        }
        case 13: {
          c.log("erase every pair, one by one");
          while (!ra.empty()) { const int id = ra.rbegin()->first; a.erase(a.search(KS::of(id))); ra.erase(id); MC_CHECK(c, a.nbElements() == (int_t)ra.size(), "wrong number of elements after erase"); }
          break;
        }
      }
      verify(c, a, ra, "a");
      verify(c, b, rb, "b");
      c.settle();
    }
  }
  // Larger tables: n pairs in several orders through every table size, then a history of
  // operations on whole tables.
  static void growth(Ctx& c) {
    static const int some[] = {5, 12, 13, 24, 25, 49, 129, 513}, more[] = {129, 257, 513};
    const int which = c.pick(c.thorough ? 67 : 8);
    const int n = !c.thorough ? some[which] : which < 64 ? 1 + which : more[which - 64];
    const int each = n > 64 ? 128 : 16;
    const int how = c.pick(3), stride = c.of({1, -1, 5}), h = c.of({0, 3, 5});
    Ids ids(n + 8);
    M a;
    Model r;
    c.log("%d pairs, stride %d, variant %d%s", n, stride, h, how == 1 ? ", Map(n)" : how == 2 ? ", Reserve(n)" : "");
    if (how == 1) { M z(n); a = std::move(z); }
    if (how == 2) a.Reserve(n);
    const int_t room = a.nbBuckets();
    std::vector<int> order;
    if (stride == 5) { for (int f = 0; f < 5; ++f) for (int i = f; i < n; i += 5) order.push_back(i); }
    else for (int i = 0; i < n; ++i) order.push_back(stride == 1 ? i : n - 1 - i);
    for (int k = 0; k < n; ++k) { set(c, a, r, order[k], k, h); if (k % each == each - 1 || k == n - 1) verify(c, a, r, "a"); }
    if (how > 0) MC_CHECK(c, a.nbBuckets() == room, "the table was resized although the room for the %d pairs was reserved", n);
    M b;
    Model rb;
    const int steps = n > 64 ? 1 : c.bound;
    for (int step = 0; step < steps; ++step) {
      c.state(key(a, r) + "|" + key(b, rb), steps - step);
      switch (c.pick(9)) {
        case 0: c.log("b = a"); b = a; rb = r; break;
        case 1: { c.log("b = move(copy of a)"); M z{a}; b = std::move(z); rb = r; break; }
        case 2: c.log("a = b"); a = b; r = rb; break;
        case 3: { c.log("erase every second pair"); for (int i = 0; i < n; i += 2) if (r.count(i)) { a.erase(a.search(KS::of(i))); r.erase(i); } break; }
        case 4: { c.log("erase the first half"); for (int i = 0; i < n / 2; ++i) if (r.count(i)) { a.erase(a.search(KS::of(i))); r.erase(i); } break; }
        case 5: c.log("Rehash()"); a.Rehash(); break;
        case 6: { const int m = c.of({n, 2 * n, 100}); c.log("Reserve(%d)", m); a.Reserve(m); break; }
        case 7: c.log("Clear()"); a.Clear(); r.clear(); break;
        case 8: { c.log("set every key again, and five more"); for (int i = n + 4; i >= 0; --i) set(c, a, r, i, 1000 + i, h); break; }
      }
      verify(c, a, r, "a");
      verify(c, b, rb, "b");
      c.settle();
    }
  }
  // Initialiser lists, every subset of 4 keys.
  static void lists(Ctx& c) {
    const int n = c.pick(5);
    Model r;
    auto kv = [&](int i) { return il::KeyValue<K, V>(KS::of(i), V(10 + i)); };
    M* m = nullptr;
    if (n == 0) m = new M{il::value, {}};
    if (n == 1) m = new M{il::value, {kv(5)}};
    if (n == 2) m = new M{il::value, {kv(5), kv(0)}};
    if (n == 3) m = new M{il::value, {kv(5), kv(0), kv(1)}};
    if (n == 4) m = new M{il::value, {kv(5), kv(0), kv(1), kv(6)}};
    const int ids[] = {5, 0, 1, 6};
    for (int i = 0; i < n; ++i) r[ids[i]] = 10 + ids[i];
    M t(std::move(*m));
    delete m;
    verify(c, t, r, "t");
    set(c, t, r, 7, 1, c.pick(8));
    verify(c, t, r, "t");
    M u = t;
    verify(c, u, r, "u");
  }
};
#define S(name, KS, V, q, t) MC_SUITE(name, (Run<KS, V>::body), q, t); MC_SUITE(name " lists", (Run<KS, V>::lists), 1, 1); MC_SUITE(name " growth", (Run<KS, V>::growth), 2, 2)
#if PART == 0
S("int keys", IntKeys, int, 2, 4);
S("int keys, class values", IntKeys, Elem, 2, 3);
S("long keys", LongKeys, int, 2, 4);
#elif PART == 1
S("string keys", StringKeys, Elem, 2, 3);
S("colliding int keys", CollidingKeys, Elem, 2, 3);
#else
S("hash to the first bucket", BadKeys<0>, int, 2, 4);
S("hash to the last bucket", BadKeys<1>, int, 2, 4);
S("hash is the low bits", BadKeys<2>, Elem, 2, 4);
#endif

#if PART == 1
// The C-string interface agrees with the String interface.
static void cstring(Ctx& c) {
  using M = il::Map<il::String, int>;
  static const char* words[] = {"", "a", "ab", "b", "toml", "a long key that lives on the heap, really", "twenty-two characters!", "key7", "key8", "key9", "x", "y", "z", "key13"};
  const int nw = 14;
  M m;
  const int pre = c.pick(nw + 1);
  c.log("%d pairs", pre);
  std::map<std::string, int> r;
  for (int i = 0; i < pre; ++i) {
    const int_t n = (int_t)strlen(words[i]);
    il::spot_t s = m.searchCString(words[i], n);
    MC_CHECK(c, !m.found(s), "\"%s\" is found although it was never set", words[i]);
    m.SetCString(words[i], n, i, il::io, s);
    MC_CHECK(c, m.found(s) && m.value(s) == i, "SetCString returned another spot");
    r[words[i]] = i;
  }
#define WITH(L, V0) { const int how = c.pick(4); c.log("\"%s\" variant %d", L, how); \
    if (how == 0) { m.SetCString(L, V0); } \
    if (how == 1) { const int v = V0; m.SetCString(L, v); } \
    if (how == 2) { il::spot_t s = m.searchCString(L); MC_CHECK(c, m.found(s) == (r.count(L) > 0), "searchCString(literal) is wrong"); if (m.found(s)) m.Value(s) = V0; else m.SetCString(L, V0, il::io, s); } \
    if (how == 3) { il::spot_t s = m.searchCString(L, (int_t)strlen(L)); MC_CHECK(c, m.found(s) == (r.count(L) > 0), "searchCString(pointer, n) is wrong"); if (m.found(s)) m.Value(s) = V0; else m.SetCString(L, (int_t)strlen(L), V0, il::io, s); } \
    r[L] = V0; \
    MC_CHECK(c, m.valueForCString(L) == V0 && m.valueForCString(L, -4) == V0, "valueForCString is wrong"); }
  for (int step = 0; step < c.bound; ++step) {
    switch (c.pick(4)) {
      case 0: WITH("ab", 100 + step); break;
      case 1: WITH("a long key that lives on the heap, really", 100 + step); break;
      case 2: WITH("new", 200 + step); break;
      case 3: { il::spot_t s = m.searchCString("a"); if (m.found(s)) { m.erase(s); r.erase("a"); } break; }
    }
    MC_CHECK(c, m.nbElements() == (int_t)r.size(), "%ld elements reported, expected %zu", (long)m.nbElements(), r.size());
    for (auto& kv : r) {
      const il::spot_t s = m.searchCString(kv.first.data(), (int_t)kv.first.size());
      MC_CHECK(c, m.found(s) && m.value(s) == kv.second, "\"%s\" lost its value", kv.first.c_str());
      const il::spot_t t = m.search(il::String(il::StringType::Byte, kv.first.data(), (int_t)kv.first.size()));
      MC_CHECK(c, t.index == s.index, "the C-string search finds another spot");
    }
    for (const char* w : {"absent", "aba", "kex7", "A"}) {
      MC_CHECK(c, !m.found(m.searchCString(w, (int_t)strlen(w))), "\"%s\" is found although it was never set", w);
    }
    MC_CHECK(c, m.valueForCString("absent", -4) == -4 && m.valueForKey(il::String("absent"), -5) == -5, "a missing key does not give the default");
    MC_CHECK(c, m.valueForCString("absent") == 0 && m.valueForKey(il::String("absent")) == 0, "a missing key does not give a default value");
  }
}
MC_SUITE("C strings", cstring, 3, 4);
#endif

#if PART == 0
// Very large tables: the counters of pairs and of erased pairs go past 8 and 16 bits.
template <typename K, typename V>
struct Huge {
  using M = il::Map<K, V>;
  struct Ref { std::vector<int> v; int nb = 0; explicit Ref(int n) : v(n, -1) {} void put(int i, int x) { nb += v[i] < 0; v[i] = x; } void drop(int i) { nb -= v[i] >= 0; v[i] = -1; } };
  static void verify(Ctx& c, const M& m, const Ref& r, const char* name) {
    MC_CHECK(c, m.nbElements() == r.nb, "%s: %ld elements reported, expected %d", name, (long)m.nbElements(), r.nb);
    MC_CHECK(c, m.nbBuckets() >= m.nbElements(), "%s: %ld pairs in %ld buckets", name, (long)m.nbElements(), (long)m.nbBuckets());
    for (int i = 0; i < (int)r.v.size(); ++i) {
      const il::spot_t s = m.search(K(i * 3));
      MC_CHECK(c, m.found(s) == (r.v[i] >= 0), "%s: the key %d is %s", name, i * 3, m.found(s) ? "found although it is not in the map" : "lost");
      if (m.found(s)) MC_CHECK(c, m.key(s) == K(i * 3) && m.value(s) == V(r.v[i]), "%s: the key %d has the value %ld, expected %d", name, i * 3, (long)m.value(s), r.v[i]);
    }
    int_t seen = 0;
    std::vector<char> once(r.v.size());
    for (il::spot_t s = m.spotBegin(); s != m.spotEnd(); s = m.next(s)) {
      const int i = (int)m.key(s) / 3;
      MC_CHECK(c, i >= 0 && i < (int)r.v.size() && r.v[i] >= 0 && !once[i] && m.value(s) == V(r.v[i]), "%s: the iteration gives the key %ld, which it should not", name, (long)m.key(s));
      once[i] = 1;
      ++seen;
    }
    MC_CHECK(c, seen == r.nb, "%s: the iteration gives %ld pairs, expected %d", name, (long)seen, r.nb);
  }
  static void body(Ctx& c) {
    const int n = c.of({300, 70001}), how = c.pick(3), down = c.flip();
    c.log("%d pairs%s%s", n, how == 1 ? ", Map(n)" : how == 2 ? ", Reserve(n)" : "", down ? ", largest key first" : "");
    M a;
    if (how == 1) { M z(n); a = std::move(z); }
    if (how == 2) a.Reserve(n);
    Ref r(n), rb(n);
    for (int k = 0; k < n; ++k) { const int i = down ? n - 1 - k : k; a.Set(K(i * 3), V(i)); r.put(i, i); }
    verify(c, a, r, "a");
    M b;
    for (int step = 0; step < c.bound; ++step) {
      const int op = c.pick(7);
      static const char* what[] = {"erase every pair", "erase every second pair", "b = a", "a = move(copy of a)", "set every key", "Rehash()", "Clear()"};
      c.log("%s", what[op]);
      if (op < 2) for (int i = 0; i < n; i += op + 1) { const il::spot_t s = a.search(K(i * 3)); if (a.found(s)) a.erase(s); r.drop(i); }
      if (op == 2) { b = a; rb = r; }
      if (op == 3) { M z{a}; a = std::move(z); }
      if (op == 4) for (int i = 0; i < n; ++i) {
        if (i & 1) a.Set(K(i * 3), V(n - i)); else { il::spot_t s = a.search(K(i * 3)); if (a.found(s)) a.Value(s) = V(n - i); else a.Set(K(i * 3), V(n - i), il::io, s); }
        r.put(i, n - i);
      }
      if (op == 5) a.Rehash();
      if (op == 6) { a.Clear(); r = Ref(n); }
      verify(c, a, r, "a");
      verify(c, b, rb, "b");
    }
    c.settle();
  }
};
MC_SUITE("very large, int keys", (Huge<int, int>::body), 2, 3);
MC_SUITE("very large, long keys", (Huge<long, long>::body), 1, 3);
#endif
#if PART == 0
// A window of live keys moves over fresh keys: the marks of erased pairs must not fill the table.
static void churn(Ctx& c) {
  const int window = c.of({1, 7, 100, 1500, 5000, 40000}), total = window < 1000 ? 20000 : 6 * window, how = c.pick(3);
  c.log("%d live keys of %d, variant %d", window, total, how);
  il::Map<int, int> a;
  if (how == 1) a.Reserve(window);
  auto name = [&](int k) { return how == 2 ? (k * 40503) & 0x3fffffff : k; };
  for (int k = 0; k < total; ++k) {
    a.Set(name(k), k);
    if (k >= window) {
      const il::spot_t s = a.search(name(k - window));
      MC_CHECK(c, a.found(s) && a.value(s) == k - window, "the key %d lost its value", name(k - window));
      a.erase(s);
    }
    if (k % 1024 == 1023 || k == total - 1) {
      const int live = k + 1 < window ? k + 1 : window;
      MC_CHECK(c, a.nbElements() == live, "%ld elements reported, expected %d", (long)a.nbElements(), live);
      const int ends[] = {k - live, k - live + 1, k - live / 2, k, k + 1};
      for (int i : ends) if (i >= 0) { const il::spot_t s = a.search(name(i)); const bool in = i > k - live && i <= k; MC_CHECK(c, a.found(s) == in && (!in || a.value(s) == i), "the key %d is %s", name(i), in ? "lost" : "found although it was erased"); }
    }
  }
  int seen = 0;
  for (il::spot_t s = a.spotBegin(); s != a.spotEnd(); s = a.next(s), ++seen) MC_CHECK(c, a.value(s) >= total - window && a.key(s) == name(a.value(s)), "the iteration gives an erased key");
  MC_CHECK(c, seen == window, "the iteration gives %d pairs, expected %d", seen, window);
  c.settle();
}
MC_SUITE("fresh keys replace old ones", churn, 1, 1);
#endif
