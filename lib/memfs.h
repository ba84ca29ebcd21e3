// An in-memory file system behind fopen/fclose (link with -Wl,--wrap=fopen
// -Wl,--wrap=fclose): the real stdio runs on top of it, no file of the machine is
// touched, and a fault can be placed at any byte or at any open or close.
#ifndef VERIF_MEMFS_H
#define VERIF_MEMFS_H
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#define MEMFS_LINK "-Wl,--wrap=fopen", "-Wl,--wrap=fclose"

extern "C" FILE* __real_fopen(const char*, const char*);
extern "C" int __real_fclose(FILE*);

namespace mc {
struct MemFs {
  std::map<std::string, std::string> files;
  std::set<std::string> read_only;    // opening for writing fails with EACCES
  int open_errno = 0;                 // if set, every open fails with it
  int opens_left = -1;                // if >= 0, opens beyond that many fail with EMFILE
  long write_limit = -1;              // total bytes the device still takes
  int write_once = -1;                // that system write fails (EIO), later ones do not
  bool failed_once = false;
  long read_fault = -1;               // reading at or past this offset fails with EIO
  long read_chunk = -1;               // at most that many bytes by a system read
  bool close_fault = false;           // the system close reports an error
  bool seekable = true;
  int vbuf = -1;                      // stdio buffer size (-1: the default)
  int open = 0;                       // handles open now
  bool opened_for_writing = false;
  bool wrote = false;
  std::set<FILE*> handles;
};
inline MemFs& fs() {
  static MemFs f;
  return f;
}
struct Cookie {
  std::string name;
  size_t pos;
  bool can_read, can_write;
};
inline ssize_t memfs_read(void* k, char* buf, size_t n) {
  Cookie* c = static_cast<Cookie*>(k);
  if (!c->can_read) { errno = EBADF; return -1; }
  const std::string& d = fs().files[c->name];
  size_t end = d.size();
  if (fs().read_fault >= 0) {
    if (c->pos >= (size_t)fs().read_fault) { errno = EIO; return -1; }
    end = std::min(end, (size_t)fs().read_fault);
  }
  if (c->pos >= end) return 0;
  n = std::min(n, end - c->pos);
  if (fs().read_chunk > 0) n = std::min(n, (size_t)fs().read_chunk);
  memcpy(buf, d.data() + c->pos, n);
  c->pos += n;
  return (ssize_t)n;
}
inline ssize_t memfs_write(void* k, const char* buf, size_t n) {
  Cookie* c = static_cast<Cookie*>(k);
  if (!c->can_write) { errno = EBADF; return 0; }
  fs().wrote = true;
  if (fs().write_once >= 0 && fs().write_once-- == 0) { fs().failed_once = true; errno = EIO; return 0; }
  size_t take = n;
  if (fs().write_limit >= 0) {
    take = std::min(take, (size_t)fs().write_limit);
    fs().write_limit -= (long)take;
    if (take == 0 && n > 0) { errno = ENOSPC; return 0; }
  }
  std::string& d = fs().files[c->name];
  if (d.size() < c->pos + take) d.resize(c->pos + take, '\0');
  memcpy(&d[c->pos], buf, take);
  c->pos += take;
  return (ssize_t)take;
}
inline int memfs_seek(void* k, off64_t* off, int whence) {
  Cookie* c = static_cast<Cookie*>(k);
  if (!fs().seekable) { errno = ESPIPE; return -1; }
  const off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t)c->pos : (off64_t)fs().files[c->name].size();
  if (base + *off < 0) { errno = EINVAL; return -1; }
  c->pos = (size_t)(base + *off);
  *off = (off64_t)c->pos;
  return 0;
}
inline int memfs_close(void* k) {
  delete static_cast<Cookie*>(k);
  if (fs().close_fault) { errno = EIO; return -1; }
  return 0;
}
}  // namespace mc

extern "C" inline __attribute__((used)) FILE* memfs_fopen(const char* name, const char* mode) {
  mc::MemFs& f = mc::fs();
  if (f.open_errno) { errno = f.open_errno; return nullptr; }
  if (f.opens_left == 0) { errno = EMFILE; return nullptr; }
  const bool plus = strchr(mode, '+') != nullptr;
  const bool wr = mode[0] != 'r' || plus;
  if (wr) f.opened_for_writing = true;
  const bool there = f.files.count(name) != 0;
  if (mode[0] == 'r' && !there) { errno = ENOENT; return nullptr; }
  if (wr && f.read_only.count(name)) { errno = EACCES; return nullptr; }
  if (f.opens_left > 0) f.opens_left--;
  if (mode[0] == 'w') f.files[name] = "";
  mc::Cookie* c = new mc::Cookie{name, 0, mode[0] == 'r' || plus, wr};
  if (mode[0] == 'a') { f.files[name]; c->pos = f.files[name].size(); }
  cookie_io_functions_t io{mc::memfs_read, mc::memfs_write, mc::memfs_seek, mc::memfs_close};
  FILE* h = fopencookie(c, plus ? (mode[0] == 'w' ? "w+" : "r+") : wr ? "w" : "r", io);
  if (h && f.vbuf >= 0) setvbuf(h, nullptr, f.vbuf == 0 ? _IONBF : _IOFBF, (size_t)f.vbuf);
  if (h) { f.open++; f.handles.insert(h); }
  return h;
}
// A harness includes this file exactly once.
// The explorer itself (outside of a suite body) works on real files.
static bool memfs_on() { return mc::G().in_body; }
extern "C" FILE* __wrap_fopen(const char* name, const char* mode) { return memfs_on() ? memfs_fopen(name, mode) : __real_fopen(name, mode); }
extern "C" int __wrap_fclose(FILE* h) {
  mc::MemFs& f = mc::fs();
  if (!f.handles.count(h)) {
    if (!memfs_on() || h == stdout || h == stderr || h == stdin) return __real_fclose(h);
    mc::sticky("fclose of a handle that is not open");
    return EOF;
  }
  f.handles.erase(h);
  f.open--;
  return __real_fclose(h);
}
#endif
