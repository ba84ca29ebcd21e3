// P25: il::File against the bytes of the file.
#include <algorithm>
#include <vector>
#include <limits>
#include "ilmc.h"
#include "memfs.h"
#include <il/File.h>
using il::int_t;
using mc::Ctx;
using mc::fs;
static const char kName[] = "data.bin";
static unsigned char at(size_t i) { return (unsigned char)(17 + 37 * i); }  // distinct for 256 bytes

// A file is closed when a run ends early, as its destructor requires.
struct Closer {
  il::File& f;
  bool open;
  ~Closer() { if (open) (void)close(); }
  bool close() { open = false; il::Status st{}; f.Close(il::io, st); return st.Ok(); }
};
struct Model {
  std::string d;
  long pos = 0;          // may lie past the end after a skip
  bool known = true;     // after an error the position is only known to be at or after pos
  // A successful read of n bytes returned these: were they right?
  void check(Ctx& c, const unsigned char* p, long n) {
    if (n == 0) return;
    if (!known) {
      const size_t k = d.find(std::string((const char*)p, n), pos);
      MC_CHECK(c, k != std::string::npos, "a read after an error returned bytes that are not in the file");
      pos = (long)k;
      known = true;
    }
    MC_CHECK(c, pos + n <= (long)d.size(), "reading %ld bytes at %ld of a file of %zu bytes succeeded", n, pos, d.size());
    MC_CHECK(c, memcmp(p, d.data() + pos, n) == 0, "reading %ld bytes at %ld returned other bytes", n, pos);
    pos += n;
  }
};
// fits: whether it had to succeed
static void settle(Ctx& c, Model& m, bool ok, const unsigned char* p, long n) {
  if (!ok) {
    MC_CHECK(c, n != 0 || !m.known, "reading nothing failed");
    MC_CHECK(c, !m.known || m.pos + n > (long)m.d.size(), "reading %ld bytes at %ld of a file of %zu bytes failed", n, m.pos, m.d.size());
    m.known = false;
    return;
  }
  m.check(c, p, n);
}
template <typename T, int n> static void readT(Ctx& c, il::File& f, Model& m) {
  std::vector<unsigned char> raw;
  T* p = static_cast<T*>(malloc(sizeof(T) * n));
  memset(p, 0xEE, sizeof(T) * n);
  il::Status st{};
  c.log("Read<%d, %zu bytes>", n, sizeof(T));
  f.Read<n, T>(il::io, p, st);
  const bool ok = st.Ok();
  std::vector<unsigned char> b((unsigned char*)p, (unsigned char*)p + sizeof(T) * n);
  free(p);
  settle(c, m, ok, b.data(), (long)b.size());
}
static void read(Ctx& c, il::File& f, Model& m, int objects, int bytes) {
  const size_t n = (size_t)objects * bytes;
  unsigned char* p = static_cast<unsigned char*>(malloc(n));
  if (n) memset(p, 0xEE, n);
  il::Status st{};
  c.log("Read %d x %d", objects, bytes);
  f.Read(objects, bytes, il::io, p, st);
  const bool ok = st.Ok();
  std::vector<unsigned char> b(p, p + n);
  free(p);
  settle(c, m, ok, b.data(), (long)n);
}
static void skip(Ctx& c, il::File& f, Model& m, size_t n) {
  il::Status st{};
  c.log("Skip %zu", n);
  f.Skip(n, il::io, st);
  const bool ok = st.Ok();
  if (!m.known) return;
  const bool fits = n <= m.d.size() && m.pos + (long)n <= (long)m.d.size();
  MC_CHECK(c, ok || !fits, "skipping %zu bytes at %ld of a file of %zu bytes failed", n, m.pos, m.d.size());
  if (ok && (fits || n < 1000)) m.pos += (long)n;  // past the end, nothing can be read
  else m.known = false;
}
static void seqBody(Ctx& c, bool small) {
  fs() = mc::MemFs();
  const int B = small ? c.of({0, 1, 2, 3, 4}) : c.of({0, 5, 8, 16, 4096, 4097});
  const int size = small ? c.pick(2 * B + 4) : c.of({0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 200});
  if (!small) fs().vbuf = c.of({-1, 0, 1, 8});
  Model m;
  for (int i = 0; i < size; ++i) m.d += (char)at(i);
  fs().files[kName] = m.d;
  {
    il::Status st{};
    const bool dflt = B == 0 && c.flip();
    il::File f = dflt ? il::File(il::String(kName), il::FileMode::Read, il::io, st) : il::File(il::String(kName), il::FileMode::Read, B, il::io, st);
    const bool opened = st.Ok();
    Closer closer{f, opened};
    MC_CHECK(c, opened, "opening the file failed");
    c.log("file of %d bytes, buffer of %d", size, B);
    for (int step = 0; step < c.bound; ++step) {
      if (small) switch (c.pick(13)) {
        case 0: read(c, f, m, 1, 1); break;
        case 1: read(c, f, m, 2, 1); break;
        case 2: read(c, f, m, 1, 3); break;
        case 3: read(c, f, m, 2, 2); break;
        case 4: read(c, f, m, 5, 1); break;
        case 5: read(c, f, m, 0, 1); break;
        case 6: readT<unsigned char, 1>(c, f, m); break;
        case 7: readT<unsigned char, 3>(c, f, m); break;
        case 8: readT<short, 1>(c, f, m); break;
        case 9: skip(c, f, m, 1); break;
        case 10: skip(c, f, m, 2); break;
        case 11: skip(c, f, m, 4); break;
        default: step = c.bound;
      } else switch (c.pick(14)) {
        case 0: read(c, f, m, 1, 1); break;
        case 1: read(c, f, m, 1, 4); break;
        case 2: read(c, f, m, 1, 8); break;
        case 3: read(c, f, m, 2, 8); break;
        case 4: read(c, f, m, 17, 1); break;
        case 5: read(c, f, m, 33, 1); break;
        case 6: readT<double, 1>(c, f, m); break;
        case 7: readT<int, 2>(c, f, m); break;
        case 8: readT<double, 2>(c, f, m); break;
        case 9: skip(c, f, m, 0); break;
        case 10: skip(c, f, m, 7); break;
        case 11: skip(c, f, m, c.of({(size_t)17, (size_t)PTRDIFF_MAX, (size_t)PTRDIFF_MAX + 1, SIZE_MAX, SIZE_MAX - 2, (size_t)1 << 40})); break;
        case 12: {  // sizes whose product does not fit in an il::int_t
          unsigned char* p = static_cast<unsigned char*>(malloc(1));
          il::Status s{};
          const int w = c.pick(3);
          c.log("Read of an enormous number of bytes");
          f.Read(w == 0 ? (int_t)1 << 61 : w == 1 ? std::numeric_limits<int_t>::max() : (int_t)1 << 32, w == 0 ? 8 : w == 1 ? 2 : (size_t)1 << 32, il::io, p, s);
          const bool ok = s.Ok();
          free(p);
          MC_CHECK(c, !ok, "reading more bytes than any file has succeeded");
          m.known = false;
          break;
        }
        default: step = c.bound;
      }
    }
    MC_CHECK(c, closer.close(), "closing the file failed");
  }
  MC_CHECK(c, fs().open == 0, "the file is still open");
  MC_CHECK(c, fs().files[kName] == m.d && !fs().wrote, "reading changed the file");
}
static void small(Ctx& c) { seqBody(c, true); }
static void large(Ctx& c) { seqBody(c, false); }
static void write(Ctx& c) {
  fs() = mc::MemFs();
  fs().vbuf = c.of({-1, 0, 1, 3});
  if (c.flip()) fs().files[kName] = "previous contents of the file";
  std::string want;
  {
    il::Status st{};
    il::File f(il::String(kName), il::FileMode::Write, c.of({0, 2}), il::io, st);
    const bool opened = st.Ok();
    Closer closer{f, opened};
    MC_CHECK(c, opened, "opening the file for writing failed");
    for (int step = 0; step < c.bound; ++step) {
      const int w = c.pick(7);
      if (w == 6) break;
      const int objects = w == 0 ? 0 : w == 3 ? 2 : w == 4 ? 3 : 1, bytes = w == 1 ? 1 : w == 5 ? 9 : 2;
      unsigned char* p = static_cast<unsigned char*>(malloc(objects * bytes));
      for (int i = 0; i < objects * bytes; ++i) p[i] = at(want.size() + i);
      want += std::string((char*)p, objects * bytes);
      il::Status s{};
      f.Write(p, objects, bytes, il::io, s);
      const bool ok = s.Ok();
      free(p);
      c.log("Write %d x %d", objects, bytes);
      MC_CHECK(c, ok, "writing failed");
    }
    MC_CHECK(c, closer.close(), "closing the file failed");
  }
  MC_CHECK(c, fs().open == 0, "the file is still open");
  MC_CHECK(c, fs().files[kName] == want, "the file holds %zu bytes that are not the %zu written", fs().files[kName].size(), want.size());
}
static void cannotOpen(Ctx& c) {
  fs() = mc::MemFs();
  switch (c.pick(3)) {
    case 0: break;
    case 1: fs().files[kName] = "x"; fs().read_only.insert(kName); break;
    default: fs().files[kName] = "x"; fs().open_errno = EACCES;
  }
  const bool wr = c.flip();
  const bool good = fs().open_errno == 0 && (wr ? fs().read_only.empty() : fs().files.count(kName));
  // the same memory twice: what is left from an earlier file must not count
  void* mem = ::operator new(sizeof(il::File));
  memset(mem, c.of({0, 1, 255}), sizeof(il::File));
  il::Status st{};
  il::File* f = new (mem) il::File(il::String(kName), wr ? il::FileMode::Write : il::FileMode::Read, 4, il::io, st);
  const bool ok = st.Ok();
  if (ok) { il::Status cl{}; f->Close(il::io, cl); cl.Ok(); }
  f->~File();
  ::operator delete(mem);
  MC_CHECK(c, ok == good, good ? "opening failed" : "opening a file that cannot be opened succeeded");
  MC_CHECK(c, fs().open == 0, "the file is still open");
}
// What a file was not opened for is refused by checked builds, and changes nothing.
static void misuse(Ctx& c) {
  fs() = mc::MemFs();
  fs().vbuf = c.of({-1, 0, 3});
  const bool wr = c.flip();
  const std::string before = "0123456789";
  fs().files[kName] = before;
  std::string want;
  {
    il::Status st{};
    il::File f(il::String(kName), wr ? il::FileMode::Write : il::FileMode::Read, c.of({0, 1, 4, 64}), il::io, st);
    const bool opened = st.Ok();
    Closer closer{f, opened};
    MC_CHECK(c, opened, "opening the file failed");
    Model m;
    m.d = before;
    unsigned char b[16];
    const auto good = [&](int n) {
      if (wr) {
        for (int i = 0; i < n; ++i) b[i] = at(want.size() + i);
        il::Status s{};
        f.Write(b, 1, n, il::io, s);
        MC_CHECK(c, s.Ok(), "writing failed");
        want += std::string((char*)b, n);
      } else {
        read(c, f, m, 1, n);
      }
    };
    if (c.flip()) good(3);
    const bool closed = c.flip();
    if (closed) MC_CHECK(c, closer.close(), "closing the file failed");
    const int w = c.pick(8);
    // with another direction, or once the file is closed
    const bool refused = w == 0 || w == 1 ? closed || wr : w == 2 ? closed || !wr : w == 3 || w == 4 ? closed : true;
    if (w == 3 && wr) return;         // nothing is promised for a skip in a file which is written
    if (w == 4 && !closed) return;    // an ordinary Close
    if (w >= 5 && w <= 6 && wr) return;
    if (!refused) return;
    memset(b, 0x5a, sizeof(b));
    bool thrown = false;
    try {
      il::Status s{};
      switch (w) {
        case 0: f.Read<2, unsigned char>(il::io, b, s); break;
        case 1: f.Read(2, 1, il::io, b, s); break;
        case 2: f.Write(b, 2, 1, il::io, s); break;
        case 3: f.Skip(1, il::io, s); break;
        case 4: f.Close(il::io, s); break;
        case 5: f.Read(2, 0, il::io, b, s); break;
        case 6: f.Read(-1, 1, il::io, b, s); break;
        default: if (wr) f.Write(b, -1, 1, il::io, s); else f.Read(-2, 4, il::io, b, s);
      }
      (void)s.Ok();
    } catch (const il::AbortException&) { thrown = true; }
    static const char* const name[] = {"Read<2>", "Read", "Write", "Skip", "Close", "Read of objects of no bytes", "Read of -1 objects", "a negative number of objects"};
    MC_CHECK(c, thrown, "%s was accepted on a file %s, opened for %s", name[w], closed ? "closed" : "open", wr ? "writing" : "reading");
    for (unsigned char x : b) MC_CHECK(c, x == 0x5a, "a refused %s wrote to the memory of the caller", name[w]);
    if (!closed) {
      good(3);
      MC_CHECK(c, closer.close(), "closing the file failed");
    }
  }
  MC_CHECK(c, fs().open == 0, "the file is still open");
  MC_CHECK(c, fs().files[kName] == (wr ? want : before), "a refused request changed the file");
}
MC_SUITE("sequences with small buffers", small, 4, 6);
MC_SUITE("sequences with larger objects", large, 3, 5);
MC_SUITE("writes", write, 5, 6);
MC_SUITE("files that cannot be opened", cannotOpen, 1, 1);
#if MC_CHECKED
MC_SUITE("refused requests", misuse, 1, 1);
#endif
