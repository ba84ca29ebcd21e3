// P24: a fault at every byte and at every open and close of every save and load.
#include <algorithm>
#include <functional>
#include <string>
#include <vector>
#include "ilmc.h"
#include "memfs.h"
#include <il/Array.h>
#include <il/Array2D.h>
#include <il/File.h>
#include <il/numpy.h>
#include <il/toml.h>
using il::int_t;
using mc::Ctx;
using mc::fs;
using Map = il::MapArray<il::String, il::Dynamic>;
using HMap = il::Map<il::String, il::Dynamic>;
using Files = std::map<std::string, std::string>;

// What a subject saves, and how it is told apart after a load.
struct Subject {
  const char* name;
  bool (*save)();          // returns whether it reported success
  int (*load)();           // -1: it reported an error; 0: success with wrong contents; 1: success
};
static Map config(int n) {
  Map m{};
  m.Set(il::String("b"), il::Dynamic{true});
  m.Set(il::String("s"), il::Dynamic{il::String("text \"\n")});
  m.Set(il::String("d"), il::Dynamic{0.1});
  il::Array<il::Dynamic> a{};
  for (int i = 0; i < n; ++i) a.Append(il::Dynamic{(int_t)(1000 + i)});
  m.Set(il::String("a"), il::Dynamic{a});
  Map t{};
  t.Set(il::String("n"), il::Dynamic{(int_t)-1});
  t.Set(il::String("u"), il::Dynamic{Map{}});
  m.Set(il::String("t"), il::Dynamic{t});
  return m;
}
static bool sameConfig(const Map& m, int n) {
  auto has = [&](const Map& x, const char* k) { return x.found(x.search(il::String(il::StringType::Ascii, k, (int_t)strlen(k)))); };
  auto at = [&](const Map& x, const char* k) -> const il::Dynamic& { return x.value(x.search(il::String(il::StringType::Ascii, k, (int_t)strlen(k)))); };
  if (m.nbElements() != 5 || !has(m, "b") || !has(m, "s") || !has(m, "d") || !has(m, "a") || !has(m, "t")) return false;
  if (!at(m, "b").is<bool>() || !at(m, "d").is<double>() || at(m, "d").to<double>() != 0.1) return false;
  if (!at(m, "s").is<il::String>() || !(at(m, "s").as<il::String>() == "text \"\n")) return false;
  if (!at(m, "a").is<il::Array<il::Dynamic>>() || at(m, "a").as<il::Array<il::Dynamic>>().size() != n) return false;
  for (int i = 0; i < n; ++i) if (!at(m, "a").as<il::Array<il::Dynamic>>()[i].is<int_t>() || at(m, "a").as<il::Array<il::Dynamic>>()[i].to<int_t>() != 1000 + i) return false;
  if (!at(m, "t").is<Map>()) return false;
  const Map& t = at(m, "t").as<Map>();
  return t.nbElements() == 2 && has(t, "n") && at(t, "n").is<int_t>() && has(t, "u") && at(t, "u").is<Map>() && at(t, "u").as<Map>().nbElements() == 0;
}
template <int n> static bool saveToml() { il::Status st{}; il::save(config(n), il::String("f.toml"), il::io, st); return st.Ok(); }
template <int n> static bool saveHToml() {
  Map m = config(n);
  HMap h{};
  for (il::spot_t i = m.spotBegin(); i != m.spotEnd(); i = m.next(i)) h.Set(m.key(i), m.value(i));
  il::Status st{};
  il::save(h, il::String("f.toml"), il::io, st);
  return st.Ok();
}
template <int n> static int loadToml() {
  il::Status st{};
  Map m = il::load<Map>(il::String("f.toml"), il::io, st);
  if (!st.Ok()) return -1;
  return sameConfig(m, n);
}
template <typename T, int n> static bool saveVec() {
  il::Array<T> v{n};
  for (int i = 0; i < n; ++i) v[i] = (T)(i + 1);
  il::Status st{};
  il::save(v, il::String("f.npy"), il::io, st);
  return st.Ok();
}
template <typename T, int n> static int loadVec() {
  il::Status st{};
  il::Array<T> v = il::load<il::Array<T>>(il::String("f.npy"), il::io, st);
  if (!st.Ok()) return -1;
  if (v.size() != n) return 0;
  for (int i = 0; i < n; ++i) if (v[i] != (T)(i + 1)) return 0;
  return 1;
}
template <typename T, int n0, int n1, int pad> static bool saveMat() {
  il::Array2D<T> v(n0, n1);
  v.Reserve(n0 + pad, n1);
  for (int j = 0; j < n1; ++j) for (int i = 0; i < n0; ++i) v(i, j) = (T)(i + 100 * j + 1);
  il::Status st{};
  il::save(v, il::String("f.npy"), il::io, st);
  return st.Ok();
}
template <typename T, int n0, int n1> static int loadMat() {
  il::Status st{};
  il::Array2D<T> v = il::load<il::Array2D<T>>(il::String("f.npy"), il::io, st);
  if (!st.Ok()) return -1;
  if (v.size(0) != n0 || v.size(1) != n1) return 0;
  for (int j = 0; j < n1; ++j) for (int i = 0; i < n0; ++i) if (v(i, j) != (T)(i + 100 * j + 1)) return 0;
  return 1;
}
// three files written by the vector writer, loaded together
static bool saveSparse() {
  auto one = [](auto& a, const char* name) {
    il::Status st{};
    il::save(a, il::String(il::StringType::Ascii, name, (int_t)strlen(name)), il::io, st);
    return st.Ok();
  };
  il::Array<int_t> row{il::value, {0, 1, 3}}, column{il::value, {1, 0, 1}};
  il::Array<double> element{il::value, {0.5, 1.5, -2.5}};
  bool ok = one(row, "row.npy") && one(column, "column.npy") && one(element, "element.npy");
  if (!ok) return false;
  Files& f = fs().files;
  f["m.npy.row"] = f["row.npy"]; f["m.npy.column"] = f["column.npy"]; f["m.npy.element"] = f["element.npy"];
  f.erase("row.npy"); f.erase("column.npy"); f.erase("element.npy");
  return true;
}
static int loadSparse() {
  il::Status st{};
  il::SparseMatrixCSR<int_t, double> a = il::load<il::SparseMatrixCSR<int_t, double>>(il::String("m.npy"), il::io, st);
  if (!st.Ok()) return -1;
  return a.size(0) == 2 && a(0, 0) == 0.5 && a(1, 0) == 1.5 && a(1, 1) == -2.5;
}
// raw files
template <int n> static bool saveRaw() {
  std::vector<int> v(n);
  for (int i = 0; i < n; ++i) v[i] = i * 7 + 1;
  bool ok;
  {
    il::Status st{};
    il::File f{il::String("f.data"), il::FileMode::Write, il::io, st};
    if (!st.Ok()) return false;
    il::Status sw{};
    f.Write(v.data(), n / 2, sizeof(int), il::io, sw);
    ok = sw.Ok();
    if (ok) { f.Write(v.data() + n / 2, n - n / 2, sizeof(int), il::io, sw); ok = sw.Ok(); }
    il::Status sc{};
    f.Close(il::io, sc);
    ok = sc.Ok() && ok;
  }
  return ok;
}
template <int n, int buffer, bool skip> static int loadRaw() {
  std::vector<int> v(n, -1);
  bool ok;
  {
    il::Status st{};
    il::File f{il::String("f.data"), il::FileMode::Read, buffer, il::io, st};
    if (!st.Ok()) return -1;
    il::Status sr{};
    f.Read(1, sizeof(int), il::io, v.data(), sr);
    ok = sr.Ok();
    for (int i = 1; ok && i < n; ++i) {
      if (skip && i == n / 2) { f.Skip(sizeof(int), il::io, sr); v[i] = i * 7 + 1; }
      else f.Read(1, sizeof(int), il::io, &v[i], sr);
      ok = sr.Ok();
    }
    il::Status sc{};
    f.Close(il::io, sc);
    ok = sc.Ok() && ok;
  }
  if (!ok) return -1;
  for (int i = 0; i < n; ++i) if (v[i] != i * 7 + 1) return 0;
  return 1;
}
static const std::vector<Subject>& subjects() {
  static const std::vector<Subject> v = {
      {"small configuration", saveToml<3>, loadToml<3>},
      {"large configuration", saveToml<900>, loadToml<900>},
      {"hashed configuration", saveHToml<3>, loadToml<3>},
      {"empty vector", saveVec<double, 0>, loadVec<double, 0>},
      {"vector", saveVec<double, 3>, loadVec<double, 3>},
      {"large vector", saveVec<int, 1100>, loadVec<int, 1100>},
      {"matrix", saveMat<double, 2, 3, 0>, loadMat<double, 2, 3>},
      {"padded matrix", saveMat<int, 3, 2, 2>, loadMat<int, 3, 2>},
      {"large matrix", saveMat<double, 70, 9, 1>, loadMat<double, 70, 9>},
      {"matrix without rows", saveMat<double, 0, 3, 0>, loadMat<double, 0, 3>},
      {"sparse matrix", saveSparse, loadSparse},
      {"raw file", saveRaw<5>, loadRaw<5, 8, false>},
      {"raw file with a skip", saveRaw<9>, loadRaw<9, 16, true>},
      {"raw file with a small buffer", saveRaw<5>, loadRaw<5, 3, true>},
      {"large raw file", saveRaw<1500>, loadRaw<1500, 4096, false>},
  };
  return v;
}
static const Files& complete(Ctx& c, int k) {
  static std::vector<Files> cache(subjects().size());
  if (cache[k].empty()) {
    fs() = mc::MemFs();
    MC_CHECK(c, subjects()[k].save(), "saving failed without any fault");
    cache[k] = fs().files;
  }
  return cache[k];
}
static void closed(Ctx& c) {
  MC_CHECK(c, fs().open == 0, "%d file handle(s) left open", fs().open);
}
static size_t bytes(const Files& f) {
  size_t n = 0;
  for (auto& e : f) n += e.second.size();
  return n;
}
// Where the fault is: every byte; of a large file, the quick tier takes those around
// its ends and around the multiples of the size of a block.
static size_t place(Ctx& c, size_t total) {
  static std::map<size_t, std::vector<size_t>> cache;
  std::vector<size_t>& v = cache[total];
  if (v.empty())
    for (size_t k = 0; k < total + 3; ++k)
      if (total < 1000 || c.thorough || k < 140 || k + 20 > total || (k + 2) % 512 <= 4) v.push_back(k);
  return c.of(v);
}
static bool large(size_t total) { return total >= 1000; }
static int buffering(Ctx& c, size_t total) { return large(total) ? c.of({-1, 100}) : c.of({-1, 0, 1, 16, 100}); }

static void writeBody(Ctx& c) {
  const int k = c.pick((int)subjects().size());
  const Subject& s = subjects()[k];
  const Files all = complete(c, k);
  const size_t total = bytes(all);
  fs() = mc::MemFs();
  if (c.flip()) for (auto& e : all) if (k != 10) fs().files[e.first] = std::string(e.second.size() + 10, '?');  // an older file is replaced
  fs().vbuf = buffering(c, total);
  const size_t limit = place(c, total);
  fs().write_limit = (long)limit;
  fs().close_fault = c.flip();
  const bool fault = limit < total || fs().close_fault;
  c.log("saving a %s (%zu bytes) to a device that takes %zu bytes, stdio buffer %d%s", s.name, total, limit, fs().vbuf, fs().close_fault ? ", closing fails" : "");
  const bool ok = s.save();
  closed(c);
  if (fault) MC_CHECK(c, !ok, "saving a %s of %zu bytes succeeded although %s", s.name, total, limit < total ? "the device was full" : "closing the file failed");
  else {
    MC_CHECK(c, ok, "saving a %s of %zu bytes failed on a device with room for %zu", s.name, total, limit);
    MC_CHECK(c, fs().files == all, "saving a %s left other contents", s.name);
  }
}
MC_SUITE("saves, every full device", writeBody, 1, 1, true, 2);

static void onceBody(Ctx& c) {  // every system write that fails, the following ones do not
  const int k = c.pick((int)subjects().size());
  const Subject& s = subjects()[k];
  const Files all = complete(c, k);
  const size_t total = bytes(all);
  fs() = mc::MemFs();
  const int b = c.pick(large(total) ? 2 : 8);
  fs().vbuf = large(total) ? (b == 0 ? -1 : c.thorough ? 16 : 100) : b == 7 ? -1 : b == 6 ? 100 : b == 5 ? 16 : b;
  // an upper bound of the number of writes; beyond the last one nothing fails
  const int writes = fs().vbuf < 0 ? (int)(total / 1024) + 8 : fs().vbuf <= 1 ? (int)total + 8 : (int)(2 * total / fs().vbuf) + 8;
  fs().write_once = c.pick(writes);
  c.log("saving a %s (%zu bytes), system write number %d fails, stdio buffer %d", s.name, total, fs().write_once, fs().vbuf);
  const bool ok = s.save();
  closed(c);
  if (fs().failed_once) MC_CHECK(c, !ok, "saving a %s of %zu bytes succeeded although a write failed", s.name, total);
  else MC_CHECK(c, ok && fs().files == all, "saving a %s of %zu bytes failed without a fault", s.name, total);
}
MC_SUITE("saves, every write that fails once", onceBody, 1, 1, true, 2);

static void openBody(Ctx& c) {
  const int k = c.pick((int)subjects().size());
  const Subject& s = subjects()[k];
  const Files all = complete(c, k);
  fs() = mc::MemFs();
  fs().files = all;
  const bool loading = c.flip();
  const int opens = k == 10 ? 3 : 1;
  switch (c.pick(4)) {
    case 0: fs().open_errno = c.of({ENOENT, EACCES, EMFILE, ENFILE, ENOSPC, EROFS, EISDIR, EIO}); break;
    case 1: fs().opens_left = c.pick(opens); break;
    case 2: {  // one of the files is not there, or can not be written
      const int w = c.pick(opens);
      int i = 0;
      if (loading) {
        auto it = fs().files.begin();
        std::advance(it, w);
        fs().files.erase(it);
      } else if (k != 10) for (auto& e : all) { if (i++ == w) fs().read_only.insert(e.first); }
      else fs().read_only.insert(w == 0 ? "row.npy" : w == 1 ? "column.npy" : "element.npy");
      break;
    }
    default:
      if (!loading) { fs().opens_left = opens - 1; break; }
      for (auto& e : all) fs().read_only.insert(e.first);  // a file that can only be read is loaded
      MC_CHECK(c, s.load() == 1, "loading a %s that can not be written failed", s.name);
      closed(c);
      return;
  }
  c.log("%s a %s: open_errno %d, opens left %d", loading ? "loading" : "saving", s.name, fs().open_errno, fs().opens_left);
  if (loading) MC_CHECK(c, s.load() == -1, "loading a %s succeeded although a file could not be opened", s.name);
  else MC_CHECK(c, !s.save(), "saving a %s succeeded although a file could not be opened", s.name);
  closed(c);
  fs().open_errno = 0;
  if (loading) MC_CHECK(c, fs().opened_for_writing == false, "a load opened a file for writing");
}
MC_SUITE("opens that fail", openBody, 1, 1);

static void readBody(Ctx& c) {
  const int k = c.pick((int)subjects().size());
  const Subject& s = subjects()[k];
  const Files all = complete(c, k);
  fs() = mc::MemFs();
  fs().files = all;
  size_t longest = 0;
  for (auto& e : all) longest = std::max(longest, e.second.size());
  fs().vbuf = buffering(c, longest);
  fs().read_chunk = large(longest) ? c.of({-1, 500}) : c.of({-1, 1, 7});
  const size_t at = place(c, longest);
  fs().read_fault = at == longest + 2 ? -1 : (long)at;
  fs().close_fault = c.flip();
  c.log("loading a %s (%zu bytes), reading fails at byte %ld, stdio buffer %d%s", s.name, longest, fs().read_fault, fs().vbuf, fs().close_fault ? ", closing fails" : "");
  const int r = s.load();
  closed(c);
  MC_CHECK(c, r != 0, "loading a %s succeeded with wrong contents", s.name);
  if (at < longest) {
    // the last bytes may be skipped rather than read
    MC_CHECK(c, r == -1, "loading a %s of %zu bytes succeeded although reading byte %zu failed", s.name, longest, at);
  } else if (fs().close_fault) MC_CHECK(c, r == -1, "loading a %s succeeded although closing the file failed", s.name);
  else if (at == longest + 2) MC_CHECK(c, r == 1, "loading a %s failed without any fault", s.name);
  MC_CHECK(c, fs().files == all, "loading changed a file");
}
MC_SUITE("loads, every byte that can not be read", readBody, 1, 1, true, 2);

static void shortBody(Ctx& c) {  // every truncation: an error, or (configurations) the values of what is there
  const int k = c.pick((int)subjects().size());
  const Subject& s = subjects()[k];
  const Files all = complete(c, k);
  fs() = mc::MemFs();
  fs().files = all;
  auto it = fs().files.begin();
  std::advance(it, c.pick((int)all.size()));
  const size_t full = it->second.size();
  const size_t n = std::min(full, place(c, full));
  it->second.resize(n);
  fs().vbuf = c.of({-1, 0, 16});
  c.log("loading a %s cut to %zu of %zu bytes", s.name, n, full);
  const int r = s.load();
  closed(c);
  if (k >= 3 && n < full) MC_CHECK(c, r == -1, "loading a %s cut to %zu of %zu bytes succeeded", s.name, n, full);
  if (n == full) MC_CHECK(c, r == 1, "loading a %s failed", s.name);
}
MC_SUITE("loads, every truncation", shortBody, 1, 1, true, 2);

static void afterBody(Ctx& c) {  // a save or load that failed does not harm the next one
  const int k = c.pick((int)subjects().size());
  const Subject& s = subjects()[k];
  const Files all = complete(c, k);
  fs() = mc::MemFs();
  const size_t total = bytes(all);
  for (int step = 0; step < c.bound; ++step) {
    fs().write_limit = -1;
    fs().read_fault = -1;
    fs().close_fault = false;
    fs().opens_left = -1;
    switch (c.pick(6)) {
      case 0: fs().write_limit = (long)(c.pick(3) * total / 3); c.log("full device"); MC_CHECK(c, !s.save(), "a save to a full device succeeded"); fs().files.clear(); break;
      case 1: fs().close_fault = true; c.log("close fails"); MC_CHECK(c, !s.save(), "a save whose close failed succeeded"); fs().files.clear(); break;
      case 2: fs().opens_left = 0; c.log("no handle"); MC_CHECK(c, !s.save(), "a save without a handle succeeded"); break;
      case 3: fs().files = all; fs().read_fault = c.of({0, 5, 79}); c.log("read fails"); { const int r = s.load(); MC_CHECK(c, r == -1 || fs().read_fault >= 20, "a load that failed succeeded"); } break;
      case 4: c.log("save"); fs().files.clear(); MC_CHECK(c, s.save() && fs().files == all, "saving failed without a fault"); break;
      default: c.log("load"); fs().files = all; MC_CHECK(c, s.load() == 1, "loading failed without a fault"); break;
    }
    closed(c);
  }
}
MC_SUITE("faults followed by other saves and loads", afterBody, 4, 5, true, 2);
