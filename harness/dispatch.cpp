// P39: the name of a file decides its format; what is not supported is reported.
#include <string>
#include <vector>
#include "ilmc.h"
#include "memfs.h"
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/data.h>
#include <il/numpy.h>
#include <il/toml.h>
using il::int_t;
using mc::Ctx;
using mc::fs;
using std::string;
using Map = il::MapArray<il::String, il::Dynamic>;
using HMap = il::Map<il::String, il::Dynamic>;

enum Kind { Npy, Toml, Data, Png, None };
static bool ends(const string& s, const char* e) { const size_t n = strlen(e); return s.size() >= n && s.compare(s.size() - n, n, e) == 0; }
static Kind kindOf(const string& s) { return ends(s, ".npy") ? Npy : ends(s, ".toml") ? Toml : ends(s, ".data") ? Data : ends(s, ".png") ? Png : None; }

template <typename T> struct Sub;
template <typename M> struct SubMap {
  static M make() { M m{}; m.Set(il::String("k"), il::Dynamic{(int_t)7}); return m; }
  static bool same(const M& m) { const il::spot_t i = m.search(il::String("k")); return m.nbElements() == 1 && m.found(i) && m.value(i).template is<int_t>() && m.value(i).template to<int_t>() == 7; }
};
template <> struct Sub<Map> : SubMap<Map> { static bool saves(Kind k) { return k == Toml || k == Data; } static bool loads(Kind k) { return k == Toml || k == Data; } };
template <> struct Sub<HMap> : SubMap<HMap> { static bool saves(Kind k) { return k == Toml; } static bool loads(Kind k) { return k == Data; } };
template <typename T> struct Sub<il::Array<T>> {
  static il::Array<T> make() { return il::Array<T>{2, (T)5}; }
  static bool same(const il::Array<T>& v) { return v.size() == 2 && v[0] == (T)5 && v[1] == (T)5; }
  static bool saves(Kind k) { return k == Npy; }
  static bool loads(Kind k) { return k == Npy; }
};
template <typename T> struct Sub<il::Array2D<T>> {
  static il::Array2D<T> make() { return il::Array2D<T>{2, 1, (T)5}; }
  static bool same(const il::Array2D<T>& v) { return v.size(0) == 2 && v.size(1) == 1 && v(0, 0) == (T)5 && v(1, 0) == (T)5; }
  static bool saves(Kind k) { return k == Npy; }
  static bool loads(Kind k) { return k == Npy; }
};
struct Unsupported { static bool saves(Kind) { return false; } static bool loads(Kind) { return false; } };
template <> struct Sub<int> : Unsupported { static int make() { return 3; } static bool same(int) { return true; } };
template <> struct Sub<il::String> : Unsupported { static il::String make() { return il::String("text"); } static bool same(const il::String&) { return true; } };
template <> struct Sub<il::Array2C<double>> : Unsupported { static il::Array2C<double> make() { return il::Array2C<double>{1, 2, 5.0}; } static bool same(const il::Array2C<double>&) { return true; } };

template <typename T> static void subject(Ctx& c, const string& name) {
  const Kind k = kindOf(name);
  const il::String il_name{il::StringType::Byte, name.data(), (int_t)name.size()};
  fs() = mc::MemFs();
  fs().files["other"] = "x";
  // saving
  {
    il::Status st{};
    il::save(Sub<T>::make(), il_name, il::io, st);
    const bool ok = st.Ok();
    MC_CHECK(c, ok == Sub<T>::saves(k), "saving to '%s' %s", name.c_str(), ok ? "is reported as a success" : "is reported as an error");
    MC_CHECK(c, fs().open == 0 && fs().files["other"] == "x", "saving to '%s' left a file open or changed another one", name.c_str());
    if (!ok) MC_CHECK(c, fs().files.size() == 1, "saving what is not supported created a file");
    else {
      MC_CHECK(c, fs().files.size() == 2 && fs().files.count(name) == 1, "saving to '%s' created another file", name.c_str());
      const string& d = fs().files[name];
      MC_CHECK(c, (d.compare(0, 6, "\x93NUMPY") == 0) == (k == Npy), "'%s' was not saved in the format of its name", name.c_str());
      MC_CHECK(c, (d == "k = 7\n") == (k == Toml), "'%s' was not saved in the format of its name", name.c_str());
    }
  }
  // loading, through a name of each type
  for (int how = 0; how < 2; ++how) {
    if (k == Png && Sub<T>::loads(Npy)) continue;  // needs the headers for PNG images
    fs().opens_left = 1;
    // the contents of every format, in turn: only the one of the name is right
    for (int f = 0; f < 3; ++f) {
      fs() = mc::MemFs();
      il::Status st0{};
      Kind saved = None;
      if (f == 0) { il::save(il::Array<double>{2, 5.0}, il::String("t.npy"), il::io, st0); saved = Npy; fs().files[name] = string(fs().files["t.npy"]); }
      if (f == 1) { il::save(Sub<Map>::make(), il::String("t.toml"), il::io, st0); saved = Toml; fs().files[name] = string(fs().files["t.toml"]); }
      if (f == 2) { il::save(Sub<Map>::make(), il::String("t.data"), il::io, st0); saved = Data; fs().files[name] = string(fs().files["t.data"]); }
      MC_CHECK(c, st0.Ok(), "saving failed");
      fs().opened_for_writing = false;
      il::Status st{};
      T x = how == 0 ? il::load<T>(il_name, il::io, st) : il::load<T>(name, il::io, st);
      const bool ok = st.Ok();
      MC_CHECK(c, fs().open == 0 && !fs().opened_for_writing, "loading from '%s' left a file open or opened it for writing", name.c_str());
      if (!Sub<T>::loads(k)) MC_CHECK(c, !ok, "loading from '%s' is reported as a success", name.c_str());
      else if (saved != k) { if (k != Toml || saved != Data) MC_CHECK(c, !ok || !Sub<T>::same(x), "'%s' was read in another format than the one of its name", name.c_str()); }
      else if (k != Npy || std::is_same<T, il::Array<double>>::value) MC_CHECK(c, ok && Sub<T>::same(x), "loading from '%s' failed", name.c_str());
      else MC_CHECK(c, !ok, "an array of another type was loaded");
    }
    // no such file
    fs() = mc::MemFs();
    il::Status st{};
    T x = how == 0 ? il::load<T>(il_name, il::io, st) : il::load<T>(name, il::io, st);
    MC_CHECK(c, !st.Ok() && fs().open == 0, "loading a file which does not exist is reported as a success");
    (void)x;
  }
}
static void names(Ctx& c) {
  static const char* const piece[] = {".npy", ".toml", ".data", ".png", "a", ".", "npy", ".NPY", "toml", ".dat", "/", "\xC3\xA9", " ", ".nump", "data", "png"};
  string name;
  for (int k = 0; k < c.bound; ++k) {
    const int i = c.pick(17);
    if (i == 0) break;
    name += piece[i - 1];
  }
  if (name.empty()) return;
  c.log("name: '%s'", name.c_str());
  switch (c.pick(9)) {
    case 0: subject<Map>(c, name); break;
    case 1: subject<HMap>(c, name); break;
    case 2: subject<il::Array<double>>(c, name); break;
    case 3: subject<il::Array<int>>(c, name); break;
    case 4: subject<il::Array2D<double>>(c, name); break;
    case 5: subject<int>(c, name); break;
    case 6: subject<il::String>(c, name); break;
    case 7: subject<il::Array2C<double>>(c, name); break;
    default: subject<il::Array2D<int>>(c, name); break;
  }
}
MC_SUITE("names and types", names, 3, 4, true, 2);
