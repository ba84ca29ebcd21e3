// P16: il::Info against a reference map, and il::Status against the machine of its duty to be examined.
#include <il/Status.h>
#include <cmath>
#include <limits>
#include <map>
#include <string>
#include <vector>
#include "ilmc.h"
using il::int_t;
using mc::Ctx;
using std::string;

struct Val { char kind; int_t i; double d; string s; };
using Ref = std::map<string, Val>;
static const char* const kKeys[] = {"a", "ab", "abc", "", "\xC3\xA9", "source_file", "b", "a key of more than twenty-three bytes", "\xFF"};
constexpr int nKeys = 9;
static const int_t kInts[] = {0, -1, std::numeric_limits<int_t>::max(), std::numeric_limits<int_t>::min(), 0x0102030405060708};
static const char* const kStrs[] = {"", "v", "a longer value which never fits inline", "\xE2\x82\xAC"};

static bool same_bits(double x, double y) { return memcmp(&x, &y, 8) == 0; }
static void verify(Ctx& c, const il::Info& f, const Ref& r, const char* n) {
  MC_CHECK(c, f.isEmpty() == r.empty(), "%s: isEmpty() is wrong", n);
  for (int k = 0; k < nKeys; ++k) {
    const auto it = r.find(kKeys[k]);
    const int_t i = f.search(kKeys[k]);
    MC_CHECK(c, f.found(i) == (it != r.end()), "%s: key number %d is reported as %s", n, k, f.found(i) ? "present" : "absent");
    if (it == r.end()) continue;
    const Val& v = it->second;
    MC_CHECK(c, f.isBool(i) == (v.kind == 'b') && f.isInteger(i) == (v.kind == 'i') && f.isDouble(i) == (v.kind == 'd') && f.isString(i) == (v.kind == 's'), "%s: key number %d has another kind", n, k);
    if (v.kind == 'b') MC_CHECK(c, f.toBool(i) == (v.i != 0) && f.toBool(kKeys[k]) == (v.i != 0), "%s: key number %d has another boolean", n, k);
    if (v.kind == 'i') MC_CHECK(c, f.toInteger(i) == v.i && f.toInteger(kKeys[k]) == v.i, "%s: key number %d holds the integer %ld, expected %ld", n, k, (long)f.toInteger(i), (long)v.i);
    if (v.kind == 'd') MC_CHECK(c, same_bits(f.toDouble(i), v.d) && same_bits(f.toDouble(kKeys[k]), v.d), "%s: key number %d holds %g, expected %g", n, k, f.toDouble(i), v.d);
    if (v.kind == 's') MC_CHECK(c, v.s == f.asCString(i) && v.s == f.asCString(kKeys[k]), "%s: key number %d holds \"%s\", expected \"%s\"", n, k, f.asCString(i), v.s.c_str());
  }
}
static string show(const Ref& r) { string s; for (auto& e : r) { s += e.first + "=" + e.second.kind + std::to_string(e.second.i) + string((const char*)&e.second.d, 8) + e.second.s + ";"; } return s; }
template <typename X>
static void set(Ctx& c, X& f, Ref& r, int k, bool all) {
  Val v{};
  switch (c.pick(4)) {
    case 0: { v.kind = 'b'; v.i = c.pick(2); c.log("Set(key %d, bool)", k); f.Set(kKeys[k], v.i == 1); break; }
    case 1: { v.kind = 'i'; const int w = all ? c.pick(6) : c.flip() ? 5 : 4; if (w == 5) { v.i = -123456; c.log("Set(key %d, int)", k); f.Set(kKeys[k], (int)-123456); } else { v.i = kInts[w]; c.log("Set(key %d, integer)", k); f.Set(kKeys[k], v.i); } break; }
    case 2: { v.kind = 'd'; v.d = all ? c.of({-0.0, 1e308, std::numeric_limits<double>::quiet_NaN()}) : 1e308; c.log("Set(key %d, double)", k); f.Set(kKeys[k], v.d); break; }
    case 3: { v.kind = 's'; v.s = kStrs[all ? c.pick(4) : c.pick(3)]; c.log("Set(key %d, string)", k); f.Set(kKeys[k], v.s.c_str()); break; }
  }
  r[kKeys[k]] = v;
}
static void info_ops(Ctx& c) {
  il::Info a, b;
  Ref ra, rb;
  const bool all = c.bound == 1;
  b.Set("ab", 12.5); rb["ab"] = Val{'d', 0, 12.5, ""};
  if (c.flip()) { b.Set("b", kStrs[2]); rb["b"] = Val{'s', 0, 0, kStrs[2]}; }
  for (int step = 0; step < c.bound; ++step) {
    switch (c.pick(8)) {
      case 0: set(c, a, ra, c.pick(nKeys), all); break;
      case 1: { if (ra.empty()) break; Val v{'s', 0, 0, kStrs[2]}; const string k = c.flip() ? ra.begin()->first : ra.rbegin()->first; c.log("set a present key again"); a.Set(k.c_str(), v.s.c_str()); ra[k] = v; break; }
      case 2: c.log("a = b"); a = b; ra = rb; break;
      case 3: c.log("b = a"); b = a; rb = ra; break;
      case 4: { c.log("a = move(b)"); a = std::move(b); ra = rb; b.clear(); rb.clear(); break; }
      case 5: { const int how = c.pick(3); c.log("self or copy %d", how); il::Info& r = a; if (how == 0) a = r; if (how == 1) a = std::move(r); if (how == 2) { il::Info t(a); il::Info u(std::move(t)); verify(c, u, ra, "moved copy"); u.Set("a", kStrs[2]); t = u; Ref rt = ra; rt["a"] = Val{'s', 0, 0, kStrs[2]}; verify(c, t, rt, "reused"); verify(c, u, rt, "moved copy"); } break; }
      case 6: c.log("clear"); a.clear(); ra.clear(); break;
      case 7: set(c, b, rb, c.of({0, 1, 7}), all); break;
    }
    verify(c, a, ra, "a"); verify(c, b, rb, "b");
  }
}
MC_SUITE("reports", info_ops, 3, 4);
MC_SUITE("all values", info_ops, 1, 1);

// lengths around the inline limit
static void lengths(Ctx& c) {
  il::Info a;
  Ref r;
  const int first = c.pick(c.bound), second = c.pick(c.bound);
  const string s1(first, 'x'), s2(second, 'y');
  a.Set("a", s1.c_str()); r["a"] = Val{'s', 0, 0, s1};
  verify(c, a, r, "one entry");
  il::Info b(a);
  b.Set("ab", s2.c_str()); Ref rb = r; rb["ab"] = Val{'s', 0, 0, s2};
  verify(c, b, rb, "two entries"); verify(c, a, r, "source of the copy");
  a = b; verify(c, a, rb, "assigned");
  il::Info d(std::move(b)); verify(c, d, rb, "moved");
  b = a; verify(c, b, rb, "moved-from, assigned");
  d.Set("a", s2.c_str()); rb["a"] = Val{'s', 0, 0, s2}; verify(c, d, rb, "overwritten");
  a = std::move(d); verify(c, a, rb, "move assigned");
}
MC_SUITE("lengths", lengths, 30, 80);

// Many entries: n keys in several orders, each of a kind, some set again with another kind or length, then copies.
static void many(Ctx& c) {
  static const std::vector<int> some{1, 5, 8, 16, 17, 32, 33, 64, 65, 100, 129, 257};
  const int n = c.thorough ? 1 + c.pick(300) : c.of(some), order = c.pick(3), again = c.pick(4), longs = c.pick(n >= 64 ? 4 : 3);
  il::Info a;
  std::map<string, Val> r;
  auto name = [&](int k) { return k % 7 == 3 ? "a much longer name, number " + std::to_string(k) : "k" + std::to_string(k); };
  auto text = [&](int k) { return string((size_t)(longs == 0 ? k % 5 : longs == 1 ? 3 * k % 41 : longs == 2 ? 200 + k : 5000), (char)('a' + k % 20)); };
  auto put = [&](il::Info& f, std::map<string, Val>& m, int k, int kind) {
    Val v{};
    v.kind = "bids"[kind];
    const string key = name(k);
    if (kind == 0) { v.i = k % 2; f.Set(key.c_str(), v.i == 1); }
    if (kind == 1) { v.i = 1000003 * (int_t)k - 7; f.Set(key.c_str(), v.i); }
    if (kind == 2) { v.d = k / 8.0; f.Set(key.c_str(), v.d); }
    if (kind == 3) { v.s = text(k); f.Set(key.c_str(), v.s.c_str()); }
    m[key] = v;
  };
  auto all = [&](const il::Info& f, const std::map<string, Val>& m, const char* what) {
    for (int k = 0; k < n + 2; ++k) {
      const string key = name(k);
      const auto it = m.find(key);
      const int_t i = f.search(key.c_str());
      MC_CHECK(c, f.found(i) == (it != m.end()), "%s: %s is reported as %s", what, key.c_str(), f.found(i) ? "present" : "absent");
      if (it == m.end()) continue;
      const Val& v = it->second;
      MC_CHECK(c, f.isBool(i) == (v.kind == 'b') && f.isInteger(i) == (v.kind == 'i') && f.isDouble(i) == (v.kind == 'd') && f.isString(i) == (v.kind == 's'), "%s: %s has another kind", what, key.c_str());
      MC_CHECK(c, v.kind == 'b' ? f.toBool(i) == (v.i != 0) : v.kind == 'i' ? f.toInteger(i) == v.i : v.kind == 'd' ? same_bits(f.toDouble(i), v.d) : v.s == f.asCString(i), "%s: %s has another value", what, key.c_str());
    }
  };
  c.log("%d entries, order %d, set again %d, texts %d", n, order, again, longs);
  for (int k = 0; k < n; ++k) { const int e = order == 0 ? k : order == 1 ? n - 1 - k : (k % 2 ? k / 2 : n - 1 - k / 2); put(a, r, e, e % 4); if (k % 32 == 31) all(a, r, "while growing"); }
  all(a, r, "the report");
  il::Info b(a);
  std::map<string, Val> rb = r;
  for (int k = again == 1 ? n - 1 : 0; again > 0 && k < n && k >= 0; k += again == 1 ? -3 : again) put(a, r, k, (k + again) % 4);
  all(a, r, "set again");
  all(b, rb, "the copy");
  il::Info d(std::move(a));
  all(d, r, "moved");
  a = b;
  all(a, rb, "assigned");
  b = std::move(d);
  all(b, r, "move assigned");
  put(a, rb, n, 3);
  all(a, rb, "one more");
  all(b, r, "untouched");
}
MC_SUITE("many entries", many, 1, 1);

// ---- Status
#ifdef NDEBUG
constexpr bool kChecked = false;
#else
constexpr bool kChecked = true;
#endif
struct St { bool ok = true, due = false; il::Error e = il::Error::Undefined; Ref info; bool known = true; };
static const il::Error kErr[] = {il::Error::FilesystemFileNotFound, il::Error::BinaryFileWrongRank, il::Error::ParseKey, il::Error::OverflowInteger, il::Error::FloatingPointNegative, il::Error::MatrixSingular, il::Error::Unimplemented, il::Error::Undefined};
static const il::ErrorDomain kDom[] = {il::ErrorDomain::Filesystem, il::ErrorDomain::Binary, il::ErrorDomain::Parse, il::ErrorDomain::Overflow, il::ErrorDomain::FloatingPoint, il::ErrorDomain::Matrix, il::ErrorDomain::Unimplemented, il::ErrorDomain::Undefined};

// runs f, tells whether it was rejected
template <typename F>
static bool rejected(F f) { try { f(); } catch (il::AbortException&) { return true; } return false; }
#define STEP(legal, stmt)                                                                     \
  do {                                                                                        \
    if (!(legal)) { if (!kChecked) return; MC_CHECK(c, rejected([&] { stmt; }), "%s was accepted", #stmt); return; } \
    else MC_CHECK(c, !rejected([&] { stmt; }), "%s was rejected", #stmt);                     \
  } while (0)

static void st_verify(Ctx& c, il::Status& s, const St& r) {
  if (r.due && kChecked) {
    MC_CHECK(c, rejected([&] { (void)s.error(); }), "the error of an unexamined status can be read");
    MC_CHECK(c, rejected([&] { s.SetOk(); }) && rejected([&] { s.SetError(il::Error::Undefined); }) && rejected([&] { s.Rearm(); }) && rejected([&] { s = il::Status(); }), "an unexamined status can be overwritten");
  }
  if (!r.due && kChecked) {
    MC_CHECK(c, rejected([&] { s.SetInfo("z", 1.0); }), "an examined status can receive facts");
    MC_CHECK(c, rejected([&] { s.Ok(); }) && rejected([&] { s.IgnoreError(); }) && rejected([&] { s.AbortOnError(); }), "an examined status can be examined twice");
  }
  if (!r.due && !r.ok) {
    MC_CHECK(c, s.error() == r.e, "the error is %d, expected %d", (int)s.error(), (int)r.e);
    for (int k = 0; k < 8; ++k) if (kErr[k] == r.e) MC_CHECK(c, s.domain() == kDom[k] && il::domain(r.e) == kDom[k], "the domain of the error %d is wrong", (int)r.e);
  }
  if (!r.ok)
    for (const auto& e : r.info) {
      const Val& v = e.second;
      if (v.kind == 'i') MC_CHECK(c, s.toInteger(e.first.c_str()) == v.i, "the integer fact %s is %ld, expected %ld", e.first.c_str(), (long)s.toInteger(e.first.c_str()), (long)v.i);
      if (v.kind == 'd') MC_CHECK(c, s.toDouble(e.first.c_str()) == v.d, "the real fact %s is wrong", e.first.c_str());
      if (v.kind == 's') MC_CHECK(c, v.s == s.asCString(e.first.c_str()), "the textual fact %s is wrong", e.first.c_str());
    }
}
alignas(il::Status) static char room[3][sizeof(il::Status)];
static void st_one(Ctx& c, il::Status& s, St& r, int op) {
  switch (op) {
    case 0: STEP(!r.due, s.SetOk()); r.ok = true; r.due = true; break;
    case 1: { const il::Error e = kErr[c.pick(8)]; STEP(!r.due, s.SetError(e)); r.ok = false; r.due = true; r.e = e; r.info.clear(); break; }
    case 2: { const char* k = c.of({"a", "ab", "source_line"}); const bool legal = r.due && !r.ok; switch (c.pick(4)) {
        case 0: STEP(legal, s.SetInfo(k, 5)); r.info[k] = Val{'i', 5, 0, ""}; break;
        case 1: STEP(legal, s.SetInfo(k, (int_t)-77)); r.info[k] = Val{'i', -77, 0, ""}; break;
        case 2: STEP(legal, s.SetInfo(k, 2.5)); r.info[k] = Val{'d', 0, 2.5, ""}; break;
        case 3: STEP(legal, s.SetInfo(k, kStrs[2])); r.info[k] = Val{'s', 0, 0, kStrs[2]}; break; }
      break; }
    case 3: { const bool legal = r.due && !r.ok; STEP(legal, s.setSource("file.h", 41)); r.info["source_file"] = Val{'s', 0, 0, "file.h"}; r.info["source_line"] = Val{'i', 41, 0, ""}; break; }
    case 4: { bool ok = false; STEP(r.due, ok = s.Ok()); MC_CHECK(c, ok == r.ok, "Ok() returned %d", ok); r.due = false; break; }
    case 5: {
      if (!r.due) { STEP(r.due, s.AbortOnError()); break; }
      const bool a = mc::aborts([&] { s.AbortOnError(); });
      MC_CHECK(c, a == !r.ok, "AbortOnError() %s", a ? "aborts on success" : "does not abort on failure");
      r.due = false;
      break;
    }
    case 6: STEP(r.due, s.IgnoreError()); r.due = false; break;
    case 7: STEP(!r.due, s.Rearm()); r.due = true; break;
  }
}
static void status_ops(Ctx& c) {
  il::Status* s[2];
  St r[2];
  bool alive[2] = {true, true};
  for (int k = 0; k < 2; ++k) s[k] = new (room[k]) il::Status();
  struct Clean { il::Status** s; bool* alive; ~Clean() { for (int k = 0; k < 2; ++k) if (alive[k]) { try { s[k]->IgnoreError(); } catch (il::AbortException&) {} s[k]->~Status(); } } } clean{s, alive};
  for (int step = 0; step < c.bound; ++step) {
    string key;
    for (int k = 0; k < 2; ++k) key += std::to_string(r[k].ok) + std::to_string(r[k].due) + std::to_string((int)r[k].e) + show(r[k].info) + "|";
    c.state(key, c.bound - step);
    const int op = c.pick(11);
    if (op < 8) { c.log("operation %d on the first status", op); st_one(c, *s[0], r[0], op); }
    if (op == 8) {
      c.log("second = move(first)");
      if (r[1].due) {  // it would drop the unexamined outcome of the second one
        if (kChecked) MC_CHECK(c, rejected([&] { *s[1] = std::move(*s[0]); }), "an unexamined status can be overwritten by a move");
      } else {
        MC_CHECK(c, !rejected([&] { *s[1] = std::move(*s[0]); }), "a move was rejected");
        r[1] = r[0];
        r[0].due = false;
      }
    }
    if (op == 9) {
      c.log("third(move(first)); first = move(third)");
      const bool due = r[0].due;
      il::Status* t = new (room[2]) il::Status(std::move(*s[0]));
      r[0].due = false;
      if (kChecked) MC_CHECK(c, rejected([&] { s[0]->Ok(); }), "a moved-from status still has to be examined");
      St q = r[0]; q.due = due;
      bool was = false;
      if (c.flip()) { was = true; st_verify(c, *t, q); }
      *s[0] = std::move(*t);
      r[0] = q;
      (void)was;
      t->~Status();
    }
    if (op == 10) { c.log("swap the roles"); std::swap(s[0], s[1]); std::swap(r[0], r[1]); }
    for (int k = 0; k < 2; ++k) st_verify(c, *s[k], r[k]);
  }
  // dropping them
  for (int k = 0; k < 2; ++k) {
    if (kChecked && r[k].due) {
      MC_CHECK(c, mc::aborts([&] { s[k]->~Status(); }), "an unexamined status can be dropped");
      s[k]->IgnoreError();
    }
    alive[k] = false;
    const bool a = mc::aborts([&] { s[k]->~Status(); });
    MC_CHECK(c, !a || (!kChecked && r[k].due), "dropping an examined status aborts");
  }
}
// a rejected drop ends in std::terminate from a destructor: its exception object stays behind, hence no leak check here
static struct Quiet { Quiet() { std::set_terminate([] { abort(); }); } } quiet;
MC_SUITE("status", status_ops, 4, 6, false);
// ---- every pair of errors
struct Known { il::Error e; il::ErrorDomain d; const char* name; };
static const Known kKnown[] = {
  {il::Error::FilesystemFileNotFound, il::ErrorDomain::Filesystem, "FilesystemFileNotFound"},
  {il::Error::FilesystemDirectoryNotFound, il::ErrorDomain::Filesystem, "FilesystemDirectoryNotFound"},
  {il::Error::FilesystemNoReadAccess, il::ErrorDomain::Filesystem, "FilesystemNoReadAccess"},
  {il::Error::FilesystemNoWriteAccess, il::ErrorDomain::Filesystem, "FilesystemNoWriteAccess"},
  {il::Error::FilesystemCanNotCloseFile, il::ErrorDomain::Filesystem, "FilesystemCanNotCloseFile"},
  {il::Error::FilesystemCanNotWriteToFile, il::ErrorDomain::Filesystem, "FilesystemCanNotWriteToFile"},
  {il::Error::FilesystemFileNotLongEnough, il::ErrorDomain::Filesystem, "FilesystemFileNotLongEnough"},
  {il::Error::BinaryFileWrongFormat, il::ErrorDomain::Binary, "BinaryFileWrongFormat"},
  {il::Error::BinaryFileWrongType, il::ErrorDomain::Binary, "BinaryFileWrongType"},
  {il::Error::BinaryFileWrongRank, il::ErrorDomain::Binary, "BinaryFileWrongRank"},
  {il::Error::BinaryFileWrongEndianness, il::ErrorDomain::Binary, "BinaryFileWrongEndianness"},
  {il::Error::ParseBool, il::ErrorDomain::Parse, "ParseBool"},
  {il::Error::ParseNumber, il::ErrorDomain::Parse, "ParseNumber"},
  {il::Error::ParseInt, il::ErrorDomain::Parse, "ParseInt"},
  {il::Error::ParseIntOverflow, il::ErrorDomain::Parse, "ParseIntOverflow"},
  {il::Error::ParseInteger, il::ErrorDomain::Parse, "ParseInteger"},
  {il::Error::ParseIntegerOverflow, il::ErrorDomain::Parse, "ParseIntegerOverflow"},
  {il::Error::ParseFloat, il::ErrorDomain::Parse, "ParseFloat"},
  {il::Error::ParseDouble, il::ErrorDomain::Parse, "ParseDouble"},
  {il::Error::ParseString, il::ErrorDomain::Parse, "ParseString"},
  {il::Error::ParseUnclosedArray, il::ErrorDomain::Parse, "ParseUnclosedArray"},
  {il::Error::ParseUnidentifiedTrailingCharacter, il::ErrorDomain::Parse, "ParseUnidentifiedTrailingCharacter"},
  {il::Error::ParseCanNotDetermineType, il::ErrorDomain::Parse, "ParseCanNotDetermineType"},
  {il::Error::ParseHeterogeneousArray, il::ErrorDomain::Parse, "ParseHeterogeneousArray"},
  {il::Error::ParseArray, il::ErrorDomain::Parse, "ParseArray"},
  {il::Error::ParseTable, il::ErrorDomain::Parse, "ParseTable"},
  {il::Error::ParseDuplicateKey, il::ErrorDomain::Parse, "ParseDuplicateKey"},
  {il::Error::ParseKey, il::ErrorDomain::Parse, "ParseKey"},
  {il::Error::ParseValue, il::ErrorDomain::Parse, "ParseValue"},
  {il::Error::OverflowInt, il::ErrorDomain::Overflow, "OverflowInt"},
  {il::Error::OverflowInteger, il::ErrorDomain::Overflow, "OverflowInteger"},
  {il::Error::FloatingPointNonNegative, il::ErrorDomain::FloatingPoint, "FloatingPointNonNegative"},
  {il::Error::FloatingPointPositive, il::ErrorDomain::FloatingPoint, "FloatingPointPositive"},
  {il::Error::FloatingPointNonPositive, il::ErrorDomain::FloatingPoint, "FloatingPointNonPositive"},
  {il::Error::FloatingPointNegative, il::ErrorDomain::FloatingPoint, "FloatingPointNegative"},
  {il::Error::MatrixSingular, il::ErrorDomain::Matrix, "MatrixSingular"},
  {il::Error::MatrixEigenValueNoConvergence, il::ErrorDomain::Matrix, "MatrixEigenValueNoConvergence"},
  {il::Error::Unimplemented, il::ErrorDomain::Unimplemented, "Unimplemented"},
  {il::Error::Undefined, il::ErrorDomain::Undefined, "Undefined"},
};
static void every_error(Ctx& c) {
  const int n = (int)(sizeof(kKnown) / sizeof(kKnown[0]));
  const int i = c.pick(n), j = c.pick(n);
  const bool more = c.flip();
  const Known &a = kKnown[i], &b = kKnown[j];
  c.log("%s, then %s", a.name, b.name);
  auto is = [&](il::Status& s, const Known& k) {
    const bool ok = s.Ok();
    MC_CHECK(c, !ok, "%s is taken for a success", k.name);
    MC_CHECK(c, s.error() == k.e, "the error read is not %s", k.name);
    MC_CHECK(c, s.domain() == k.d && il::domain(s.error()) == k.d, "the domain of %s is wrong", k.name);
    for (const Known& o : kKnown) MC_CHECK(c, (s.error() == o.e) == (&o == &k), "%s cannot be told from %s", k.name, o.name);
  };
  il::Status s;
  s.SetError(a.e);
  il::Status t{std::move(s)};
  is(t, a);
  s.SetError(b.e);
  if (more) s.SetInfo("key", 3);
  t = std::move(s);
  is(t, b);
  t.SetOk();
  const bool ok = t.Ok();
  MC_CHECK(c, ok, "a success is taken for the error %s", b.name);
  t.SetError(a.e);
  is(t, a);
}
MC_SUITE("every error", every_error, 1, 1);
