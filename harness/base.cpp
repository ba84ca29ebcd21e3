// P02: aligned storage for every base address the allocator may give. malloc and free are
// replaced at link time: the address returned is chosen by the explorer.
#include <climits>
#include <complex>
#include <cstdint>
#include <map>
#include <vector>
#include "ilmc.h"
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array3C.h>
#include <il/Array3D.h>
#include <sanitizer/asan_interface.h>
using il::int_t;
using mc::Ctx;

extern "C" void* __real_malloc(size_t n);
extern "C" void __real_free(void* p);
static bool armed = false;
static size_t kMod = 16, kResidue = 0;                     // what malloc returns is kResidue modulo kMod
struct Block { char* base; size_t size, total; };
static Block blocks[64];
static char* places[64];
static int nb_blocks = 0;
static const char* wrong = nullptr;
extern "C" void* __wrap_malloc(size_t n) {
  if (!armed) return __real_malloc(n);
  armed = false;
  const size_t total = n + 3 * kMod + 64;
  char* base = (char*)__real_malloc(total);
  char* p = base + 32;
  p += (kResidue + kMod - (size_t)p % kMod) % kMod;
  __asan_poison_memory_region(base, p - base);
  __asan_poison_memory_region(p + n, total - (p - base) - n);
  if (nb_blocks < 64) { blocks[nb_blocks] = Block{base, n, total}; places[nb_blocks++] = p; }
  armed = true;
  return p;
}
extern "C" void __wrap_free(void* p) {
  for (int k = 0; k < nb_blocks; ++k)
    if (places[k] == p) {
      __asan_unpoison_memory_region(blocks[k].base, blocks[k].total);
      __real_free(blocks[k].base);
      blocks[k] = blocks[--nb_blocks];
      places[k] = places[nb_blocks];
      return;
    }
  if (p && armed) { wrong = "memory was released which was not allocated"; return; }
  __real_free(p);
}
struct Arm {
  Arm(size_t mod, size_t residue) { kMod = mod; kResidue = residue; nb_blocks = 0; wrong = nullptr; armed = true; }
  ~Arm() { armed = false; }
};
static const char* held(const void* p, size_t n) {  // the n bytes at p lie in memory that is owned
  for (int k = 0; k < nb_blocks; ++k) if ((const char*)p >= places[k] && (const char*)p + n <= places[k] + blocks[k].size) return nullptr;
  return n == 0 || nb_blocks == 0 ? nullptr : "the elements lie outside of the memory which was allocated";
}

// the alignments: modulus, and the step of the remainders and of the base addresses
static size_t pick_mod(Ctx& c, size_t align) {
  if (c.thorough) return c.of({16, 32, 48, 64, 80, 128, 256, 512, 1024, 4096, 16384, 24576, 32704, 32752});
  (void)align;
  return c.of({16, 32, 48, 128, 256, 4096, 16384, 32752});
}
static size_t pick_residue(Ctx& c, size_t mod, size_t step) {
  // every address malloc may return for a small modulus, the extreme ones for a large one
  const size_t n = mod / step;
  if (n <= 64) return step * c.pick((int)n);
  static const int kEnds = 6;
  const int k = c.pick(3 * kEnds);
  return step * (k < kEnds ? k : k < 2 * kEnds ? n / 2 + (k - kEnds) : n - 1 - (k - 2 * kEnds));
}
template <typename T>
static void direct(Ctx& c) {
  const size_t mod = pick_mod(c, alignof(T)), base = pick_residue(c, mod, 16), step = mod <= 64 ? alignof(T) : mod / 8 / 16 * 16;
  const size_t r = step * c.pick((int)((mod + step - 1) / step));
  if (mod % alignof(T) != 0 || r % alignof(T) != 0) return;
  if ((r + mod - base) % sizeof(T) != 0 || mod % sizeof(T) != 0) return;  // the recorded finding
  const int_t n = c.of({0, 1, 2, 7, 100});
  c.log("%ld elements at %zu modulo %zu, malloc returns an address which is %zu", (long)n, r, mod, base);
  Arm arm{mod, base};
  int_t shift = -1;
  T* p = il::allocateArray<T>(n, (int_t)r, (int_t)mod, il::io, shift);
  MC_CHECK(c, (size_t)p % mod == r, "the address is %zu modulo %zu instead of %zu", (size_t)p % mod, mod, r);
  if (n > 0) MC_CHECK(c, shift >= 0, "the shift is %ld", (long)shift);
  const char* h = held(p, n * sizeof(T));
  MC_CHECK(c, h == nullptr, "%s", h);
  memset((void*)p, 5, n * sizeof(T));
  il::deallocate(p - shift);
  MC_CHECK(c, nb_blocks == 0 && wrong == nullptr, "%s", wrong ? wrong : "the memory was not released");
}
// every class, through growth: each new block is at another address
template <typename A> struct Shape;
template <typename T> struct Shape<il::Array<T>> { static il::Array<T> make(int_t n, size_t a, size_t r, size_t m) { return il::Array<T>(n, il::align, (int_t)a, (int_t)r, (int_t)m); } static void grow(il::Array<T>& a, int_t n) { a.Resize(n); } static int_t lines(int_t) { return 1; } static T* line(il::Array<T>& a, int_t) { return a.Data(); } static int_t length(int_t n) { return n; } static il::Array<T> plain(int_t n) { return il::Array<T>(n); } };
template <typename T> struct Shape<il::Array2D<T>> { static il::Array2D<T> make(int_t n, size_t a, size_t r, size_t m) { return il::Array2D<T>(n, 2, il::align, (int_t)a, (int_t)r, (int_t)m); } static void grow(il::Array2D<T>& a, int_t n) { a.Resize(n, 3); } static int_t lines(int_t step) { return step ? 3 : 2; } static T* line(il::Array2D<T>& a, int_t j) { return &a(0, j); } static il::Array2D<T> plain(int_t n) { return il::Array2D<T>(n, 2); } };
template <typename T> struct Shape<il::Array2C<T>> { static il::Array2C<T> make(int_t n, size_t a, size_t r, size_t m) { return il::Array2C<T>(2, n, il::align, (int_t)a, (int_t)r, (int_t)m); } static void grow(il::Array2C<T>& a, int_t n) { a.Resize(3, n); } static int_t lines(int_t step) { return step ? 3 : 2; } static T* line(il::Array2C<T>& a, int_t j) { return &a(j, 0); } static il::Array2C<T> plain(int_t n) { return il::Array2C<T>(2, n); } };
template <typename T> struct Shape<il::Array3D<T>> { static il::Array3D<T> make(int_t n, size_t a, size_t r, size_t m) { return il::Array3D<T>(n, 2, 1, il::align, (int_t)a, (int_t)r, (int_t)m); } static void grow(il::Array3D<T>& a, int_t n) { a.Resize(n, 2, 2); } static int_t lines(int_t step) { return step ? 4 : 2; } static T* line(il::Array3D<T>& a, int_t j) { return &a(0, j % 2, j / 2); } static il::Array3D<T> plain(int_t n) { return il::Array3D<T>(n, 2, 1); } };
template <typename T> struct Shape<il::Array3C<T>> { static il::Array3C<T> make(int_t n, size_t a, size_t r, size_t m) { return il::Array3C<T>(1, 2, n, il::align, (int_t)a, (int_t)r, (int_t)m); } static void grow(il::Array3C<T>& a, int_t n) { a.Resize(2, 2, n); } static int_t lines(int_t step) { return step ? 4 : 2; } static T* line(il::Array3C<T>& a, int_t j) { return &a(j / 2, j % 2, 0); } static il::Array3C<T> plain(int_t n) { return il::Array3C<T>(1, 2, n); } };

template <typename A, typename T>
static void grows(Ctx& c) {
  const size_t mod = pick_mod(c, alignof(T)), base = pick_residue(c, mod, 16), align = mod % 32 == 0 && mod <= 256 ? c.of({(int)sizeof(T), 32, (int)mod}) : c.flip() ? mod : sizeof(T);
  if (mod % align != 0) return;
  const int choices = (int)(mod / align) < 4 ? (int)(mod / align) : 4;
  const int ri = c.pick(choices);
  const size_t r = align * (ri == 3 ? mod / align - 1 : ri);
  const int_t n = c.of({1, 5, 33}), n2 = c.of({2, 40, 300});
  const size_t next = pick_residue(c, mod < 256 ? mod : 64, 16);
  c.log("%ld elements aligned on %zu, at %zu modulo %zu; malloc returns %zu, then %zu; resized to %ld", (long)n, align, r, mod, base, next, (long)n2);
  using S = Shape<A>;
  {
    Arm arm{mod, base};
    {
      A a = S::make(n, align, r, mod);
      auto check = [&](A& a, int_t len, int step, const char* when) {
        MC_CHECK(c, a.alignment() == (int_t)align, "%s: the alignment is %ld instead of %zu", when, (long)a.alignment(), align);
        MC_CHECK(c, (size_t)S::line(a, 0) % mod == r, "%s: the address is %zu modulo %zu instead of %zu", when, (size_t)S::line(a, 0) % mod, mod, r);
        for (int_t j = 0; j < S::lines(step); ++j) {
          T* p = S::line(a, j);
          MC_CHECK(c, (size_t)p % align == 0, "%s: line %ld is not aligned on %zu bytes", when, (long)j, align);
          const char* h = held(p, len * sizeof(T));
          MC_CHECK(c, h == nullptr, "%s: line %ld: %s", when, (long)j, h);
        }
      };
      check(a, n, 0, "constructed");
      for (int_t j = 0; j < S::lines(0); ++j) for (int_t i = 0; i < n; ++i) S::line(a, j)[i] = T(1 + i % 90 + 100 * j);
      kResidue = next;
      S::grow(a, n2);
      const int_t keep = n < n2 ? n : n2;
      check(a, n2, 1, "resized");
      for (int_t j = 0; j < S::lines(0); ++j) for (int_t i = 0; i < keep; ++i) MC_CHECK(c, S::line(a, j)[i] == T(1 + i % 90 + 100 * j), "resized: entry %ld of line %ld lost its value", (long)i, (long)j);
      kResidue = base;
      A b{a};
      check(b, n2, 1, "copied");
      kResidue = next;
      A d = S::plain(3);
      d = a;
      check(d, n2, 1, "assigned");
      for (int_t j = 0; j < S::lines(0); ++j) for (int_t i = 0; i < keep; ++i) MC_CHECK(c, S::line(b, j)[i] == T(1 + i % 90 + 100 * j) && S::line(d, j)[i] == T(1 + i % 90 + 100 * j), "copied: entry %ld of line %ld lost its value", (long)i, (long)j);
      A e{std::move(b)};
      check(e, n2, 1, "moved");
      d = std::move(e);
      check(d, n2, 1, "move-assigned");
    }
    armed = false;
    MC_CHECK(c, nb_blocks == 0 && wrong == nullptr, "%s", wrong ? wrong : "some memory was not released");
  }
}
#define DIRECT(T) MC_SUITE("allocation<" #T ">", direct<T>, 1, 1)
DIRECT(char);
DIRECT(short);
DIRECT(int);
DIRECT(double);
DIRECT(std::complex<float>);
DIRECT(std::complex<double>);
DIRECT(long double);
#define GROWS(A) MC_SUITE(#A "<double>", (grows<il::A<double>, double>), 1, 1); MC_SUITE(#A "<char>", (grows<il::A<char>, char>), 1, 1); MC_SUITE(#A "<float>", (grows<il::A<float>, float>), 1, 1)
GROWS(Array);
GROWS(Array2D);
GROWS(Array2C);
GROWS(Array3D);
GROWS(Array3C);
