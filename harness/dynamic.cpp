// P15: il::Dynamic against a reference tree of values.
#include <il/Dynamic.h>
#include <string>
#include <vector>
#include <limits>
#include "ilmc.h"
using il::int_t;
using mc::Ctx;
using D = il::Dynamic;
using std::string;
using std::vector;
using AD = il::Array<D>;
using MD = il::Map<il::String, D>;
using MA = il::MapArray<il::String, D>;

// the reference: the type, the bytes of the payload and the children
struct Ref {
  il::Type t = il::Type::Void;
  string bytes;   // scalars, strings and numeric arrays (with the shape first)
  vector<string> keys;
  vector<Ref> kids;
};
template <typename T> static string raw(const T& x) { return string((const char*)&x, sizeof x); }
template <typename T> static string raw(const il::Array<T>& x) { string s; for (int_t i = 0; i < x.size(); ++i) s += raw(x[i]); return s; }
template <typename T> static string raw(const il::Array2D<T>& x) { string s = std::to_string(x.size(0)) + "x" + std::to_string(x.size(1)) + ":"; for (int_t i = 0; i < x.size(0); ++i) for (int_t j = 0; j < x.size(1); ++j) s += raw(x(i, j)); return s; }

static int number_of_types(const D& d) {
  return d.is<bool>() + d.is<unsigned char>() + d.is<signed char>() + d.is<unsigned short>() + d.is<short>() + d.is<int_t>() + d.is<int>() + d.is<float>() + d.is<double>()
       + d.is<il::String>() + d.is<AD>() + d.is<MD>() + d.is<MA>() + d.is<il::Array<unsigned char>>() + d.is<il::Array<signed char>>() + d.is<il::Array<unsigned short>>() + d.is<il::Array<short>>()
       + d.is<il::Array<unsigned int>>() + d.is<il::Array<int>>() + d.is<il::Array<std::size_t>>() + d.is<il::Array<int_t>>() + d.is<il::Array<float>>() + d.is<il::Array<double>>()
       + d.is<il::Array2D<double>>() + d.is<il::Array2D<unsigned char>>() + d.is<il::Array2D<float>>() + d.is<il::Array2D<int>>();
}
template <typename T> static void scalar(Ctx& c, const D& d, const Ref& r, const char* n) {
  MC_CHECK(c, d.is<T>(), "%s: is<the type it was built with>() is false", n);
  MC_CHECK(c, raw(d.to<T>()) == r.bytes, "%s: another value is returned", n);
}
template <typename T> static void big(Ctx& c, const D& d, const Ref& r, const char* n) {
  MC_CHECK(c, d.is<T>(), "%s: is<the type it was built with>() is false", n);
  MC_CHECK(c, raw(d.as<T>()) == r.bytes, "%s: another value is returned", n);
}
static void verify(Ctx& c, const D& d, const Ref& r, const char* n) {
  MC_CHECK(c, d.type() == r.t, "%s: type %d, expected %d", n, (int)d.type(), (int)r.t);
  MC_CHECK(c, number_of_types(d) == (r.t == il::Type::Void ? 0 : 1), "%s: %d of the is<T>() are true", n, number_of_types(d));
  switch (r.t) {
    case il::Type::Void: break;
    case il::Type::Bool: scalar<bool>(c, d, r, n); break;
    case il::Type::UInt8: scalar<unsigned char>(c, d, r, n); break;
    case il::Type::Int8: scalar<signed char>(c, d, r, n); break;
    case il::Type::UInt16: scalar<unsigned short>(c, d, r, n); break;
    case il::Type::Int16: scalar<short>(c, d, r, n); break;
    case il::Type::Integer: scalar<int_t>(c, d, r, n); break;
    case il::Type::Single: scalar<float>(c, d, r, n); break;
    case il::Type::Double: scalar<double>(c, d, r, n); break;
    case il::Type::UnicodeString: {
      MC_CHECK(c, d.is<il::String>(), "%s: is<String>() is false", n);
      const il::String& s = d.as<il::String>();
      MC_CHECK(c, string(s.data(), s.size()) == r.bytes, "%s: another string is returned", n);
      break;
    }
    case il::Type::ArrayOfUInt8: big<il::Array<unsigned char>>(c, d, r, n); break;
    case il::Type::ArrayOfInt8: big<il::Array<signed char>>(c, d, r, n); break;
    case il::Type::ArrayOfUInt16: big<il::Array<unsigned short>>(c, d, r, n); break;
    case il::Type::ArrayOfInt16: big<il::Array<short>>(c, d, r, n); break;
    case il::Type::ArrayOfUInt32: big<il::Array<unsigned int>>(c, d, r, n); break;
    case il::Type::ArrayOfInt32: big<il::Array<int>>(c, d, r, n); break;
    case il::Type::ArrayOfUInt64: big<il::Array<std::size_t>>(c, d, r, n); break;
    case il::Type::ArrayOfInt64: big<il::Array<int_t>>(c, d, r, n); break;
    case il::Type::ArrayOfDouble: big<il::Array<double>>(c, d, r, n); break;
    case il::Type::Array2DOfDouble: big<il::Array2D<double>>(c, d, r, n); break;
    case il::Type::Array2DOfUInt8: big<il::Array2D<unsigned char>>(c, d, r, n); break;
    case il::Type::ArrayOfDynamic: {
      const AD& a = d.as<AD>();
      MC_CHECK(c, a.size() == (int_t)r.kids.size(), "%s: array of %ld values, expected %zu", n, (long)a.size(), r.kids.size());
      for (int_t i = 0; i < a.size(); ++i) verify(c, a[i], r.kids[i], "element of an array");
      break;
    }
    case il::Type::MapStringToDynamic: {
      const MD& m = d.as<MD>();
      MC_CHECK(c, m.nbElements() == (int_t)r.kids.size(), "%s: map of %ld values, expected %zu", n, (long)m.nbElements(), r.kids.size());
      for (size_t i = 0; i < r.kids.size(); ++i) { const il::spot_t s = m.search(il::String(il::StringType::Ascii, r.keys[i].data(), (int_t)r.keys[i].size())); MC_CHECK(c, m.found(s), "%s: a key of a map is lost", n); verify(c, m.value(s), r.kids[i], "value of a map"); }
      break;
    }
    case il::Type::MapArrayStringToDynamic: {
      const MA& m = d.as<MA>();
      MC_CHECK(c, m.nbElements() == (int_t)r.kids.size(), "%s: ordered map of %ld values, expected %zu", n, (long)m.nbElements(), r.kids.size());
      il::spot_t s = m.spotBegin();
      for (size_t i = 0; i < r.kids.size(); ++i, s = m.next(s)) { MC_CHECK(c, string(m.key(s).data(), m.key(s).size()) == r.keys[i], "%s: a key of an ordered map is wrong", n); verify(c, m.value(s), r.kids[i], "value of an ordered map"); }
      break;
    }
    default: c.fail("%s: unknown type", n);
  }
}
template <typename T> static Ref leaf(il::Type t, const T& x) { Ref r; r.t = t; r.bytes = raw(x); return r; }
static Ref str(const string& s) { Ref r; r.t = il::Type::UnicodeString; r.bytes = s; return r; }
static const char kLong[] = "a string that does not fit inline";
static const int_t kMin = std::numeric_limits<int_t>::min();
static void put(Ref& r, const string& k, const Ref& v) { for (size_t i = 0; i < r.keys.size(); ++i) if (r.keys[i] == k) { r.kids[i] = v; return; } r.keys.push_back(k); r.kids.push_back(v); }

constexpr int kKinds = 33;
// kind < 20: leaves; the others nest
static D make(int kind, Ref& r) {
  r = Ref();
  auto num = [&](auto zero, il::Type t, bool mv) { using T = decltype(zero); il::Array<T> a{3, (T)7}; a[1] = std::numeric_limits<T>::max(); a[2] = std::numeric_limits<T>::lowest(); r = leaf(t, a); if (mv) return D(std::move(a)); const il::Array<T>& k = a; return D(k); };
  switch (kind) {
    case 0: return D();
    case 1: r = leaf(il::Type::Bool, true); return D(true);
    case 2: r = leaf(il::Type::UInt8, (unsigned char)255); return D((unsigned char)255);
    case 3: r = leaf(il::Type::Int8, (signed char)-128); return D((signed char)-128);
    case 4: r = leaf(il::Type::UInt16, (unsigned short)65535); return D((unsigned short)65535);
    case 5: r = leaf(il::Type::Int16, (short)-32768); return D((short)-32768);
    case 6: r = leaf(il::Type::Integer, (int_t)-3); return D(-3);
    case 7: r = leaf(il::Type::Integer, kMin); return D(kMin);
    case 8: r = leaf(il::Type::Single, 1.5f); return D(1.5f);
    case 9: r = leaf(il::Type::Double, -0.0); return D(-0.0);
    case 10: r = str("short"); return D("short");
    case 11: r = str(kLong); return D(il::String(kLong));
    case 12: { const il::String s(kLong); r = str(kLong); return D(s); }
    case 13: r = str(string("a\0b", 3)); return D(il::StringType::Ascii, "a\0b", 3);
    case 14: return num((unsigned char)0, il::Type::ArrayOfUInt8, false);
    case 15: return num((signed char)0, il::Type::ArrayOfInt8, true);
    case 16: return num((unsigned short)0, il::Type::ArrayOfUInt16, false);
    case 17: return num((short)0, il::Type::ArrayOfInt16, true);
    case 18: return num((unsigned int)0, il::Type::ArrayOfUInt32, true);
    case 19: return num((int)0, il::Type::ArrayOfInt32, false);
    case 20: return num((std::size_t)0, il::Type::ArrayOfUInt64, true);
    case 21: return num((int_t)0, il::Type::ArrayOfInt64, true);
    case 22: return num((double)0, il::Type::ArrayOfDouble, true);
    case 23: { il::Array2D<double> a{2, 3, 1.25}; a(1, 2) = -4; r = leaf(il::Type::Array2DOfDouble, a); return D(std::move(a)); }
    case 24: { il::Array2D<unsigned char> a{2, 2, 9}; const il::Array2D<unsigned char>& k = a; r = leaf(il::Type::Array2DOfUInt8, a); return D(k); }
    case 25: { r.t = il::Type::ArrayOfDynamic; AD a; return D(a); }
    case 26: { AD a; r.t = il::Type::ArrayOfDynamic; for (int k : {6, 11, 23}) { Ref q; a.Append(make(k, q)); r.kids.push_back(q); } return D(std::move(a)); }
    case 27: { AD a; r.t = il::Type::ArrayOfDynamic; for (int k : {26, 29, 31}) { Ref q; a.Append(make(k, q)); r.kids.push_back(q); } const AD& b = a; return D(b); }
    case 28: { r.t = il::Type::MapStringToDynamic; MD m; return D(std::move(m)); }
    case 29: { r.t = il::Type::MapStringToDynamic; MD m; Ref q; m.Set(il::String("x"), make(11, q)); put(r, "x", q); m.Set(il::String("y"), make(26, q)); put(r, "y", q); return D(m); }
    case 30: { r.t = il::Type::MapArrayStringToDynamic; MA m; return D(m); }
    case 31: { r.t = il::Type::MapArrayStringToDynamic; MA m; Ref q; m.Set(il::String("x"), make(10, q)); put(r, "x", q); m.Set(il::String("a longer key than the inline ones"), make(24, q)); put(r, "a longer key than the inline ones", q); return D(std::move(m)); }
    case 32: { r.t = il::Type::MapArrayStringToDynamic; MA m; Ref q; m.Set(il::String("x"), make(31, q)); put(r, "x", q); m.Set(il::String("y"), make(27, q)); put(r, "y", q); return D(m); }
  }
  abort();
}
static string key(const Ref& r) { string s = "(" + std::to_string((int)r.t) + r.bytes; for (size_t i = 0; i < r.kids.size(); ++i) { if (i < r.keys.size()) s += r.keys[i] + "="; s += key(r.kids[i]); } return s + ")"; }

// one child of d, with its reference
struct Child { D* d; Ref* r; };
static Child child(Ctx& c, D& d, Ref& r) {
  if (r.kids.empty()) return {nullptr, nullptr};
  const int i = c.pick((int)r.kids.size());
  if (r.t == il::Type::ArrayOfDynamic) return {&d.As<AD>()[i], &r.kids[i]};
  if (r.t == il::Type::MapStringToDynamic) { MD& m = d.As<MD>(); return {&m.Value(m.search(il::String(il::StringType::Ascii, r.keys[i].data(), (int_t)r.keys[i].size()))), &r.kids[i]}; }
  MA& m = d.As<MA>();
  return {&m.Value(m.search(il::String(il::StringType::Ascii, r.keys[i].data(), (int_t)r.keys[i].size()))), &r.kids[i]};
}
static size_t weight(const Ref& r) { size_t n = 1; for (const Ref& k : r.kids) n += weight(k); return n; }

// change something inside of d that a shallow copy would share
static void touch(Ctx& c, D& d, Ref& r) {
  switch (r.t) {
    case il::Type::Double: d.As<double>() = 2.5; r.bytes = raw(2.5); break;
    case il::Type::Bool: d.As<bool>() = false; r.bytes = raw(false); break;
    case il::Type::Integer: d.As<int_t>() = 17; r.bytes = raw((int_t)17); break;
    case il::Type::UnicodeString: d.As<il::String>().Append("++"); r.bytes += "++"; break;
    case il::Type::ArrayOfUInt8: d.As<il::Array<unsigned char>>()[0] = 1; r = leaf(r.t, d.as<il::Array<unsigned char>>()); break;
    case il::Type::ArrayOfDouble: d.As<il::Array<double>>().Append(0.5); r = leaf(r.t, d.as<il::Array<double>>()); break;
    case il::Type::Array2DOfDouble: d.As<il::Array2D<double>>()(0, 0) += 1; r = leaf(r.t, d.as<il::Array2D<double>>()); break;
    case il::Type::ArrayOfDynamic: { Ref q; d.As<AD>().Append(make(12, q)); r.kids.push_back(q); break; }
    case il::Type::MapStringToDynamic: { Ref q; d.As<MD>().Set(il::String("new"), make(9, q)); put(r, "new", q); break; }
    case il::Type::MapArrayStringToDynamic: { Ref q; d.As<MA>().Set(il::String("x"), make(26, q)); put(r, "x", q); break; }
    default: break;
  }
  if (!r.kids.empty()) { Child k = child(c, d, r); touch(c, *k.d, *k.r); }
}
static void ops(Ctx& c) {
  Ref ra, rb;
  const int ka = c.pick(kKinds);
  D a{make(ka, ra)};
  const int kb = c.of({0, 7, 11, 24, 27, 29, 32});
  D b = make(kb, rb);
  c.log("a = kind %d, b = kind %d", ka, kb);
  verify(c, a, ra, "a"); verify(c, b, rb, "b");
  for (int step = 0; step < c.bound; ++step) {
    c.state(key(ra) + key(rb), c.bound - step);
    switch (c.pick(14)) {
      case 0: { const int k = c.pick(kKinds); c.log("a = kind %d", k); Ref q; a = make(k, q); ra = q; break; }
      case 1: c.log("a = b"); a = b; ra = rb; break;
      case 2: c.log("b = a"); b = a; rb = ra; break;
      case 3: c.log("a = move(b)"); a = std::move(b); ra = rb; rb = Ref(); MC_CHECK(c, b.type() == il::Type::Void, "a moved-from value still has a type"); break;
      case 4: { c.log("a = a"); D& r = a; a = r; break; }
      case 5: { c.log("a = move(a)"); D& r = a; a = std::move(r); break; }
      case 6: { Child k = child(c, a, ra); if (!k.d) break; const bool deep = c.flip(); if (deep) { Child g = child(c, *k.d, *k.r); if (!g.d) break; k = g; } c.log("a = %s of a", deep ? "grandchild" : "child"); const Ref q = *k.r; a = *k.d; ra = q; break; }
      case 7: { Child k = child(c, a, ra); if (!k.d) break; c.log("a = move(child of a)"); const Ref q = *k.r; a = std::move(*k.d); ra = q; break; }
      case 8: { Child k = child(c, a, ra); if (!k.d) break; const int how = c.pick(3); c.log("child of a = %s", how == 0 ? "a" : how == 1 ? "b" : "move(b)"); if (how == 0) { const Ref q = ra; *k.d = a; *k.r = q; } if (how == 1) { *k.d = b; *k.r = rb; } if (how == 2) { *k.d = std::move(b); *k.r = rb; rb = Ref(); } break; }
      case 9: {
        const int how = c.pick(3);
        if (ra.t == il::Type::ArrayOfDynamic) { c.log("append to a %d", how); if (how == 0) { a.As<AD>().Append(b); ra.kids.push_back(rb); } if (how == 1) { a.As<AD>().Append(std::move(b)); ra.kids.push_back(rb); rb = Ref(); } if (how == 2) { const Ref q = ra; a.As<AD>().Append(a); ra.kids.push_back(q); } }
        if (ra.t == il::Type::MapStringToDynamic) { c.log("set in a %d", how); if (how == 0) { a.As<MD>().Set(il::String("x"), b); put(ra, "x", rb); } if (how == 1) { a.As<MD>().Set(il::String("z"), std::move(b)); put(ra, "z", rb); rb = Ref(); } if (how == 2) { const Ref q = ra; const D t = a; a.As<MD>().Set(il::String("w"), t); put(ra, "w", q); } }
        if (ra.t == il::Type::MapArrayStringToDynamic) { c.log("set in a %d", how); if (how == 0) { a.As<MA>().Set(il::String("x"), b); put(ra, "x", rb); } if (how == 1) { a.As<MA>().Set(il::String("z"), std::move(b)); put(ra, "z", rb); rb = Ref(); } if (how == 2) { const Ref q = ra; const D t = a; a.As<MA>().Set(il::String("w"), t); put(ra, "w", q); } }
        break;
      }
      case 10: {
        const int how = c.pick(11);
        c.log("a = scalar %d", how);
        if (how == 0) { a = false; ra = leaf(il::Type::Bool, false); }
        if (how == 1) { a = (unsigned char)200; ra = leaf(il::Type::UInt8, (unsigned char)200); }
        if (how == 2) { a = (signed char)-5; ra = leaf(il::Type::Int8, (signed char)-5); }
        if (how == 3) { a = (unsigned short)60000; ra = leaf(il::Type::UInt16, (unsigned short)60000); }
        if (how == 4) { a = (short)-300; ra = leaf(il::Type::Int16, (short)-300); }
        if (how == 5) { a = -7; ra = leaf(il::Type::Integer, (int_t)-7); }
        if (how == 6) { a = (int_t)(kMin + 1); ra = leaf(il::Type::Integer, (int_t)(kMin + 1)); }
        if (how == 7) { a = 0.25f; ra = leaf(il::Type::Single, 0.25f); }
        if (how == 8) { a = 1e300; ra = leaf(il::Type::Double, 1e300); }
        if (how == 9) { a = "literal"; ra = str("literal"); }
        if (how == 10) { a = il::Type::Void; ra = Ref(); }
        break;
      }
      case 11: {
        const int how = c.pick(4);
        c.log("a = string %d", how);
        if (how == 0) { const il::String s(kLong); a = s; ra = str(kLong); }
        if (how == 1) { a = il::String("tmp"); ra = str("tmp"); }
        if (how == 2) { if (ra.t == il::Type::UnicodeString) a = a.as<il::String>(); }
        if (how == 3) { if (!ra.kids.empty()) { Child k = child(c, a, ra); if (k.r->t == il::Type::UnicodeString) { const Ref q = *k.r; if (c.flip()) a = k.d->as<il::String>(); else a = std::move(k.d->As<il::String>()); ra = q; } } }
        break;
      }
      case 12: { c.log("change a"); touch(c, a, ra); break; }
      case 13: { c.log("copy, move, change the copy"); D t(a); Ref rt = ra; touch(c, t, rt); D u(std::move(t)); verify(c, u, rt, "moved copy"); t = u; touch(c, u, rt); MC_CHECK(c, u.type() == rt.t, "type"); break; }
    }
    verify(c, a, ra, "a"); verify(c, b, rb, "b");
    if (weight(ra) + weight(rb) > 200) return;
  }
}
MC_SUITE("operations", ops, 2, 3);

template <typename T> static void one(Ctx& c, il::Type t, T x) {
  const Ref r = leaf(t, x);
  D d(x);
  verify(c, d, r, "built");
  D e(d), f;
  verify(c, e, r, "copied");
  f = x;
  verify(c, f, r, "assigned");
  e = 0.5;
  e = d;
  verify(c, e, r, "copy-assigned");
  D g(std::move(d));
  verify(c, g, r, "moved");
}
static void all_small(Ctx& c) {
  const int block = c.pick(256);
  for (int k = 0; k < 256; ++k) {
    one(c, il::Type::UInt16, (unsigned short)(block * 256 + k));
    one(c, il::Type::Int16, (short)(block * 256 + k));
    // floating-point values: every sign and exponent, with a few mantissas
    const uint32_t mant[] = {0, 1, 0x400000, 0x7FFFFF, 0x2AAAAA};
    if (block < 10) { const uint32_t b = (uint32_t)(block & 1) << 31 | (uint32_t)k << 23 | mant[block >> 1]; float x; memcpy(&x, &b, 4); one(c, il::Type::Single, x); }
    const uint64_t mant2[] = {0, 1, 0x8000000000000ull, 0xFFFFFFFFFFFFFull};
    if (block < 64) { const uint64_t b = (uint64_t)(block & 1) << 63 | (uint64_t)(k + 256 * (block >> 3)) << 52 | mant2[block >> 1 & 3]; double x; memcpy(&x, &b, 8); one(c, il::Type::Double, x); }
    if (block < 64) { const int_t x = (int_t)(((uint64_t)1 << block) + (uint64_t)(int64_t)(k - 128)); one(c, il::Type::Integer, x); }
    if (block < 32) { const int x = (int)(((uint32_t)1 << block) + (uint32_t)(k - 128)); D d(x); verify(c, d, leaf(il::Type::Integer, (int_t)x), "int"); D e; e = x; verify(c, e, leaf(il::Type::Integer, (int_t)x), "assigned int"); }
  }
  one(c, il::Type::UInt8, (unsigned char)block);
  one(c, il::Type::Int8, (signed char)block);
  if (block < 2) one(c, il::Type::Bool, block == 1);
  if (block < 13) { D d((il::Type)block); MC_CHECK(c, (int)d.type() == block, "a value built from a type has another type"); D e(d); MC_CHECK(c, (int)e.type() == block, "copy of a value built from a type"); }
}
MC_SUITE("scalars", all_small, 1, 1, true, 1);

static void containers(Ctx& c) {
  const int n = c.pick(c.bound);
  const int which = c.pick(8);
  auto go = [&](auto zero, il::Type t) {
    using T = decltype(zero);
    il::Array<T> v{n};
    for (int i = 0; i < n; ++i) { const uint64_t b = 0x9E3779B97F4A7C15ull * (i + 1); memcpy((void*)&v[i], &b, sizeof(T)); }
    const Ref r = leaf(t, v);
    const il::Array<T>& k = v;
    D d(k);
    verify(c, d, r, "array");
    D e(d);
    d = D(std::move(v));
    verify(c, d, r, "moved array");
    verify(c, e, r, "copied array");
  };
  switch (which) {
    case 0: go((unsigned char)0, il::Type::ArrayOfUInt8); break;
    case 1: go((signed char)0, il::Type::ArrayOfInt8); break;
    case 2: go((unsigned short)0, il::Type::ArrayOfUInt16); break;
    case 3: go((short)0, il::Type::ArrayOfInt16); break;
    case 4: go((unsigned int)0, il::Type::ArrayOfUInt32); break;
    case 5: go((int)0, il::Type::ArrayOfInt32); break;
    case 6: go((std::size_t)0, il::Type::ArrayOfUInt64); go((int_t)0, il::Type::ArrayOfInt64); break;
    case 7: {
      go((double)0, il::Type::ArrayOfDouble);
      for (int m = 0; m < 4; ++m) {
        il::Array2D<double> x{n, m}; il::Array2D<unsigned char> y{n, m};
        for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) { x(i, j) = i + 10 * j + 0.5; y(i, j) = (unsigned char)(3 * i + 50 * j); }
        const Ref rx = leaf(il::Type::Array2DOfDouble, x), ry = leaf(il::Type::Array2DOfUInt8, y);
        D p(x), q(y);
        verify(c, p, rx, "matrix"); verify(c, q, ry, "matrix");
        D p2(p), q2; q2 = q; p = D(); q = D();
        verify(c, p2, rx, "copied matrix"); verify(c, q2, ry, "copied matrix");
        D p3(std::move(x)), q3(std::move(y));
        verify(c, p3, rx, "moved matrix"); verify(c, q3, ry, "moved matrix");
      }
      break;
    }
  }
}
MC_SUITE("numeric arrays", containers, 5, 40);
