// P35: il::Set against a reference set.
#include <il/Set.h>
#include <il/String.h>
#include <set>
#include <vector>
#include <string>
#include "ilmc.h"
using il::int_t;
using mc::Ctx;
using mc::Elem;

struct IntKeys { using T = int; using F = il::HashFunction<int>; static int of(int id) { return id * 7 - 20; } };
struct LongKeys { using T = long; using F = il::HashFunction<long>; static long of(int id) { return id % 2 ? (1L << 40) + id : -id * 1000003L; } };
struct StringKeys {
  using T = il::String; using F = il::HashFunction<il::String>;
  static il::String of(int id) {
    static const char* t[] = {"", "a", "b", "ab", "ba", "a long key that lives on the heap: 1", "a long key that lives on the heap: 2", "exactly-22-characters!"};
    if (id < 8) return il::String(il::StringType::Byte, t[id], (int_t)strlen(t[id]));
    std::string s = "k" + std::to_string(id) + (id % 2 ? std::string(30, 'x') : "");
    return il::String(il::StringType::Byte, s.data(), (int_t)s.size());
  }
};
template <int mode>
struct BadHash : il::HashFunction<int> {
  static size_t hash(int v, int p) { return mode == 0 ? 0 : mode == 1 ? ((size_t)1 << p) - 1 : (size_t)v & (((size_t)1 << p) - 1); }
};
template <int mode> struct BadKeys { using T = int; using F = BadHash<mode>; static int of(int id) { return id; } };
// class elements whose every construction and destruction is accounted for
struct Obj {
  int tag;
  Elem e;
  explicit Obj(int id) : tag(id), e(id) {}
};
struct ObjHash {
  static bool isEmpty(const Obj& o) { return o.tag == -1; }
  static bool isTombstone(const Obj& o) { return o.tag == -2; }
  static void constructEmpty(il::io_t, Obj* o) { o->tag = -1; }
  static void constructTombstone(il::io_t, Obj* o) { o->tag = -2; }
  static size_t hash(const Obj& o, int p) { return (size_t)(mc::get(o.e) * 5) & (((size_t)1 << p) - 1); }
  static bool isEqual(const Obj& a, const Obj& b) { return mc::get(a.e) == mc::get(b.e); }
};
struct ObjKeys { using T = Obj; using F = ObjHash; static Obj of(int id) { return Obj(id); } };

using Model = std::set<int>;
template <typename KS>
struct Run {
  using T = typename KS::T;
  using F = typename KS::F;
  using S = il::Set<T, F>;
  static inline int kIds = 20;
  struct Ids { int old; explicit Ids(int n) : old(kIds) { kIds = n; } ~Ids() { kIds = old; } };
  static int guess(const il::String& k) { return k.size() > 1 && k.data()[0] == 'k' ? std::atoi(k.data() + 1) : -1; }
  template <typename X> static int guess(const X&) { return -1; }
  static int id_of(const T& k) { const int g = guess(k); if (g >= 0 && g < kIds && F::isEqual(k, KS::of(g))) return g; for (int i = 0; i < kIds; ++i) if (F::isEqual(k, KS::of(i))) return i; return -1; }
  static void verify(Ctx& c, const S& k, const Model& r, const char* name) {
    MC_CHECK(c, k.nbElements() == (int_t)r.size(), "%s: %ld elements reported, expected %zu", name, (long)k.nbElements(), r.size());
    for (int i = 0; i < kIds; ++i) {
      const T x = KS::of(i);
      const il::spot_t s = k.search(x);
      const bool in = r.count(i) > 0;
      MC_CHECK(c, k.found(s) == in && k.contains(x) == in, "%s: element #%d is %s", name, i, in ? "not found" : "found although it was never added");
      if (in) MC_CHECK(c, F::isEqual(k.element(s), x), "%s: the element at the spot of element #%d is another one", name, i);
    }
    Model seen;
    int steps = 0;
    for (il::spot_t s = k.spotBegin(); s != k.spotEnd(); s = k.next(s)) {
      MC_CHECK(c, ++steps <= 4 * kIds + 200, "%s: the iteration does not end", name);
      const int i = id_of(k.element(s));
      MC_CHECK(c, i >= 0 && r.count(i), "%s: the iteration visits an element that is not present", name);
      MC_CHECK(c, seen.insert(i).second, "%s: the iteration visits element #%d twice", name, i);
    }
    MC_CHECK(c, seen.size() == r.size(), "%s: the iteration visits %zu of %zu elements", name, seen.size(), r.size());
  }
  static std::string key(const S& m, const Model& r) {
    std::string s = std::to_string(m.spotEnd().index) + ":";
    for (int i = 0; i < kIds; ++i) s += std::to_string(m.search(KS::of(i)).index) + ",";
    return s;
  }
  static void add(Ctx& c, S& m, Model& r, int id, int how) {
    const T x = KS::of(id);
    if (how == 0) m.Add(x);
    if (how == 1) m.Add(KS::of(id));
    if (how == 2) {
      il::spot_t s = m.search(x);
      MC_CHECK(c, m.found(s) == (r.count(id) > 0), "found is wrong for element #%d", id);
      if (!m.found(s)) {
        m.Add(x, il::io, s);
        MC_CHECK(c, m.found(s) && F::isEqual(m.element(s), x), "the spot returned by Add does not denote the element");
      }
    }
    if (how == 3 && r.count(id)) { const T& in = m.element(m.search(x)); m.Add(in); }
    if (how == 3 && !r.count(id)) m.Add(x);
    r.insert(id);
  }
  static void body(Ctx& c) {
    S a, b;
    Model ra, rb;
    static const int fills[] = {0, 1, 2, 3, 6, 7, 12};
    const int fill = fills[c.pick(7)];
    c.log("a: %d elements", fill);
    for (int i = 0; i < fill; ++i) { add(c, a, ra, i, i % 3); verify(c, a, ra, "a"); }
    if (c.flip()) { c.log("b: 2 elements"); add(c, b, rb, 1, 0); add(c, b, rb, 17, 2); }
    for (int step = 0; step < c.bound; ++step) {
      c.state(key(a, ra) + "|" + key(b, rb), c.bound - step);
      switch (c.pick(9)) {
        case 0: {
          const int id = c.of({0, 1, 2, 16, 17, fill, fill + 1}), h = c.pick(4);
          c.log("Add(element #%d) variant %d", id, h);
          add(c, a, ra, id, h);
          break;
        }
        case 1: c.log("Clear()"); a.Clear(); ra.clear(); break;
        case 2: c.log("a = b"); a = b; ra = rb; break;
        case 3: { c.log("a = a"); S& r = a; a = r; break; }
        case 4: c.log("a = move(b)"); a = std::move(b); ra = rb; rb.clear(); break;
        case 5: { c.log("a = move(a)"); S& r = a; a = std::move(r); break; }
        case 6: {
          c.log("copy z(a), modify z, b = z");
          S z{a};
          Model rz = ra;
          verify(c, z, rz, "z");
          add(c, z, rz, 15, 0);
          add(c, z, rz, 18, 2);
          verify(c, z, rz, "z");
          verify(c, a, ra, "a");
          b = z; rb = rz;
          break;
        }
        case 7: {
          c.log("z(move(a)), use a, a = move(z)");
          S z{std::move(a)};
          verify(c, z, ra, "z");
          Model re;
          verify(c, a, re, "moved-from a");
          if (c.flip()) { add(c, a, re, 3, c.pick(3)); verify(c, a, re, "moved-from a"); }
          a = std::move(z);
          break;
        }
        case 8: {
          c.log("add the elements of b to a");
          for (il::spot_t s = b.spotBegin(); s != b.spotEnd(); s = b.next(s)) a.Add(b.element(s));
          ra.insert(rb.begin(), rb.end());
          break;
        }
      }
      verify(c, a, ra, "a");
      verify(c, b, rb, "b");
      c.settle();
    }
  }
  // Growth: n elements in every rotation of their order, through all table sizes.
  static void growth(Ctx& c) {
    const int n = 1 + c.pick(kIds), first = c.pick(n), stride = c.of({1, 3, 7}), h = c.pick(3);
    S a;
    Model r;
    c.log("%d elements from #%d with stride %d, variant %d", n, first, stride, h);
    for (int k = 0; k < n; ++k) { add(c, a, r, (first + k * stride) % n, h); if (k % 4 == 3 || k == n - 1) verify(c, a, r, "a"); }
    S z{a};
    verify(c, z, r, "copy");
    a.Clear();
    Model e;
    verify(c, a, e, "cleared");
    verify(c, z, r, "copy");
  }
  // Larger sets
  static void larger(Ctx& c) {
    const int n = c.thorough ? c.of({24, 25, 32, 33, 48, 49, 64, 65, 96, 97, 129, 257, 513}) : c.of({25, 49, 65, 129, 257}), stride = c.of({1, -1, 5}), h = c.pick(4);
    Ids ids(n + 8);
    S a, b;
    Model r, rb;
    c.log("%d elements, stride %d, variant %d", n, stride, h);
    std::vector<int> order;
    if (stride == 5) { for (int f = 0; f < 5; ++f) for (int i = f; i < n; i += 5) order.push_back(i); }
    else for (int i = 0; i < n; ++i) order.push_back(stride == 1 ? i : n - 1 - i);
    for (int k = 0; k < n; ++k) { add(c, a, r, order[k], h); if (k % 64 == 63 || k == n - 1) verify(c, a, r, "a"); }
    const int what = c.pick(6);
    c.log("then operation %d", what);
    if (what == 0) { b = a; rb = r; }
    if (what == 1) { S z{a}; b = std::move(z); rb = r; }
    if (what == 2) { add(c, b, rb, n + 1, 0); add(c, b, rb, 1, 0); a = b; r = rb; }
    if (what == 3) { a.Clear(); r.clear(); for (int i = 0; i < n + 5; i += 2) add(c, a, r, i, h); }
    if (what == 4) { for (int i = 0; i < n + 5; ++i) add(c, a, r, n + 4 - i, h); }
    if (what == 5) { S& z = a; a = z; add(c, b, rb, 2, 0); b = std::move(a); rb = r; r.clear(); }
    verify(c, a, r, "a");
    verify(c, b, rb, "b");
    for (int i = 0; i < n; i += 3) { add(c, b, rb, i, 1); add(c, a, r, n + 7 - i % 8, 1); }
    verify(c, a, r, "a");
    verify(c, b, rb, "b");
    c.settle();
  }
};
#define SUITES(name, KS, q, t) MC_SUITE(name, (Run<KS>::body), q, t); MC_SUITE(name " growth", (Run<KS>::growth), 1, 1); MC_SUITE(name " larger", (Run<KS>::larger), 1, 1)
SUITES("int elements", IntKeys, 4, 6);
SUITES("long elements", LongKeys, 4, 6);
SUITES("string elements", StringKeys, 4, 6);
SUITES("class elements", ObjKeys, 4, 6);
SUITES("hash to the first bucket", BadKeys<0>, 4, 6);
SUITES("hash to the last bucket", BadKeys<1>, 4, 6);
SUITES("hash is the low bits", BadKeys<2>, 4, 6);

// Very large sets: the counter of elements goes past 16 bits.
template <typename K>
static void huge(Ctx& c) {
  using S = il::Set<K>;
  const int n = c.of({300, 70001}), down = c.flip();
  c.log("%d elements%s", n, down ? ", largest first" : "");
  auto verify = [&](const S& s, int size, const char* name) {
    MC_CHECK(c, s.nbElements() == size, "%s: %ld elements reported, expected %d", name, (long)s.nbElements(), size);
    for (int i = 0; i < n + 5; ++i) MC_CHECK(c, s.contains(K(i * 3)) == (i < size), "%s: contains(%d) is %d", name, i * 3, (int)s.contains(K(i * 3)));
    std::vector<char> once(n + 5);
    int seen = 0;
    for (il::spot_t p = s.spotBegin(); p != s.spotEnd(); p = s.next(p), ++seen) {
      const int i = (int)s.element(p) / 3;
      MC_CHECK(c, i >= 0 && i < size && !once[i], "%s: the iteration gives %ld, which it should not", name, (long)s.element(p));
      once[i] = 1;
    }
    MC_CHECK(c, seen == size, "%s: the iteration gives %d elements, expected %d", name, seen, size);
  };
  S a;
  for (int k = 0; k < n; ++k) a.Add(K((down ? n - 1 - k : k) * 3));
  verify(a, n, "a");
  S b;
  int na = n, nb = 0;
  for (int step = 0; step < c.bound; ++step) {
    const int op = c.pick(5);
    static const char* what[] = {"b = a", "b = move(copy of a)", "add every element again", "a = b", "Clear()"};
    c.log("%s", what[op]);
    if (op == 0) { b = a; nb = na; }
    if (op == 1) { S z{a}; b = std::move(z); nb = na; }
    if (op == 2) { for (int i = 0; i < n; ++i) { a.Add(K(i * 3)); a.Add(K(i * 3)); } na = n; }
    if (op == 3) { a = b; na = nb; }
    if (op == 4) { a.Clear(); na = 0; }
    verify(a, na, "a");
    verify(b, nb, "b");
  }
  c.settle();
}
MC_SUITE("very large, int elements", huge<int>, 2, 4);
MC_SUITE("very large, long elements", huge<long>, 1, 4);
