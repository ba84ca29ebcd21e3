// Glue between mc.h and InsideLoop: exception translation and an element type
// that checks the life cycle of every object created by a container.
#ifndef VERIF_ILMC_H
#define VERIF_ILMC_H

#include <il/core.h>

#include "mc.h"

namespace mc {

inline bool il_translate(char* msg, size_t n) {
  try {
    throw;
  } catch (il::AbortException&) {
    snprintf(msg, n, "the library rejected a well-formed request (a precondition or an invariant check failed)");
    return true;
  } catch (...) {
  }
  return false;
}

// An element with an identity. Constructing, destroying, reading or assigning it
// out of order is recorded as a sticky error; copies of the object that were made
// behind its back (memcpy) are recognised because the stamp depends on the address.
struct Life {
  static long& live() { static long n = 0; return n; }
  static long& made() { static long n = 0; return n; }
};

constexpr uint64_t kAlive = 0xA11CE5EED0B0E001ull;
constexpr uint64_t kDead = 0xDEADDEADDEADDEADull;

struct Elem {
  volatile uint64_t stamp;
  int v;
  int* box;  // owned memory, so that the allocator sees every lost destructor
  static constexpr int kDefault = -7;
  static constexpr int kMoved = -99;

  uint64_t good() const { return kAlive ^ reinterpret_cast<uint64_t>(this); }
  bool alive() const { return stamp == good(); }
  void born(int x) {
    if (stamp == good()) sticky("an element was constructed on top of a live element");
    stamp = good();
    v = x;
    box = new int(x);
    Life::live()++;
    Life::made()++;
  }
  void need(const char* what) const {
    if (!alive()) sticky("%s an element that is not alive (%s)", what, stamp == kDead ? "already destroyed" : "never constructed or relocated bitwise");
  }
  Elem() { born(kDefault); }
  explicit Elem(int x) { born(x); }
  Elem(int x, int y) { born(100 * x + y); }
  Elem(const Elem& o) {
    o.need("copied from");
    born(o.alive() ? o.v : -1);
  }
  Elem(Elem&& o) {
    o.need("moved from");
    born(o.alive() ? o.v : -1);
    if (o.alive()) { o.v = kMoved; *o.box = kMoved; }
  }
  Elem& operator=(const Elem& o) {
    need("assigned to");
    o.need("assigned from");
    if (alive() && o.alive()) { v = o.v; *box = o.v; }
    return *this;
  }
  Elem& operator=(Elem&& o) {
    need("assigned to");
    o.need("move-assigned from");
    if (alive() && o.alive() && this != &o) {
      v = o.v; *box = o.v;
      o.v = kMoved; *o.box = kMoved;
    }
    return *this;
  }
  ~Elem() {
    need("destroyed");
    if (alive()) {
      delete box;
      Life::live()--;
    }
    stamp = kDead;
  }
  bool operator==(const Elem& o) const { return v == o.v; }
};
inline int get(const Elem& e) {
  e.need("read");
  if (e.alive() && e.v != *e.box) sticky("element payload is inconsistent");
  return e.alive() ? e.v : -123456;
}
inline int get(int x) { return x; }
inline int get(double x) { return static_cast<int>(x); }
inline int get(long double x) { return static_cast<int>(x); }

// whether x is the value which a debug build gives to elements nobody has set
template <typename T>
inline bool marked(const T& x) {
  const T d = il::defaultValue<T>();
  return x == d || (x != x && d != d);
}

template <typename T> struct Make { static T of(int x) { return T(x); } };

inline void life_before() { Life::live() = 0; }
inline void life_after(Ctx& c) {
  if (Life::live() != 0) c.fail("%ld element(s) constructed but not destroyed exactly once", Life::live());
}

struct Setup {
  Setup() {
    translate_hook() = il_translate;
    before_hook() = life_before;
    after_hook() = life_after;
  }
};
static Setup setup_instance;

}  // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::main_impl(argc, argv); }
#endif

#endif
