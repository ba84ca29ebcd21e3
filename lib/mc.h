// A small explicit-state / stateless model checker that drives the real code.
//
// A harness is one or more *suites*.  A suite body is an ordinary function that
// obtains every nondeterministic decision (configuration, operation, argument,
// fault) from Ctx::pick(n).  The explorer runs the body once for every possible
// sequence of decisions (depth-first, odometer order), so everything the body
// can do within its bound is executed on the real implementation.  A body may
// declare canonical states with Ctx::state(key, remaining); a state that was
// already expanded with at least as many remaining steps is not expanded again.
//
// The exploration is sharded over forked workers.  Each worker keeps its current
// decision sequence in shared memory, so a crash, a sanitizer report or a hang is
// attributed to the exact sequence, which the parent replays in a fresh process
// before it is reported.
#ifndef VERIF_MC_H
#define VERIF_MC_H

#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <exception>
#include <map>
#include <string>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:max_malloc_fill_size=4096:malloc_fill_byte=190:"
         "quarantine_size_mb=8:exitcode=99:allocator_may_return_null=1:"
         "handle_abort=0:detect_stack_use_after_return=0:print_legend=0:"
         "detect_odr_violation=0:alloc_dealloc_mismatch=0";
}
extern "C" const char* __ubsan_default_options() {
  return "halt_on_error=1:exitcode=98:print_stacktrace=0";
}
#endif

namespace mc {

constexpr int kMaxPicks = 4096;
constexpr int kMaxWorkers = 16;

struct Violation {
  char msg[1200];
};
struct Prune {};
struct StopAtShard {};

struct Slot {  // one per worker, in shared memory
  volatile int suite;
  volatile int bound;
  volatile int n;
  volatile int in_body;
  volatile int done;
  volatile int violated;
  volatile uint64_t execs;
  volatile uint64_t edges;
  volatile uint64_t checks;
  volatile uint64_t prunes;
  volatile uint64_t heartbeat;
  int choice[kMaxPicks];
  char msg[1200];
};

struct Shared {
  std::atomic<uint64_t> next_item;
  std::atomic<int> stop;
  std::atomic<uint64_t> states;
  std::atomic<uint64_t> table_full;
  Slot slot[kMaxWorkers + 1];
};

struct Globals {
  Shared* sh = nullptr;
  std::atomic<uint64_t>* table = nullptr;
  uint64_t table_mask = 0;
  bool in_body = false;
  const char* sticky = nullptr;  // error recorded where throwing is impossible
  char sticky_buf[400];
};
inline Globals& G() {
  static Globals g;
  return g;
}

// Record an error from a place that cannot throw (element destructors, ...).
inline void sticky(const char* fmt, ...) {
  if (G().sticky) return;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(G().sticky_buf, sizeof G().sticky_buf, fmt, ap);
  va_end(ap);
  G().sticky = G().sticky_buf;
}

inline uint64_t hash64(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
  const unsigned char* s = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) {
    h ^= s[i];
    h *= 0x100000001b3ull;
  }
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ull;
  h ^= h >> 32;
  h *= 0x94d049bb133111ebull;
  h ^= h >> 29;
  return h;
}

class Ctx {
 public:
  int bound = 0;       // the depth bound of this exploration
  bool verbose = false;
  bool thorough = false;
  int suite_id = 0;

  // --- decisions
  int pick(int n) {
    if (n <= 0) fail("harness error: pick(%d)", n);
    if (pos_ >= shard_stop_) throw StopAtShard{};
    if (pos_ >= kMaxPicks) fail("harness error: too many picks");
    int c;
    if (pos_ < nprefix_) {
      c = prefix_[pos_];
      if (c >= n) fail("harness error: replay diverged (choice %d of %d at %d)", c, n, pos_);
    } else {
      c = 0;
      edges_++;
    }
    slot_->choice[pos_] = c;
    arity_[pos_] = n;
    pos_++;
    slot_->n = pos_;
    return c;
  }
  bool flip() { return pick(2) == 1; }
  template <typename T>
  const T& of(const std::vector<T>& v) { return v[pick(static_cast<int>(v.size()))]; }
  template <typename T>
  T of(std::initializer_list<T> v) { return v.begin()[pick(static_cast<int>(v.size()))]; }

  // --- canonical states
  void state(const std::string& key, int remaining) {
    if (pos_ == prune_at_) throw Prune{};
    if (pos_ < nprefix_ || shard_stop_ < kMaxPicks + 1 || replaying_) return;
    uint64_t h = hash64(key.data(), key.size(), 0xcbf29ce484222325ull + 0x9e3779b97f4a7c15ull * (suite_id * 64 + bound + 1));
    h &= ~0xffull;
    if (h == 0) h = 0x100;
    const uint64_t want = h | static_cast<uint64_t>(remaining & 0x7f) | 0x80;
    uint64_t i = (h >> 13) & G().table_mask;
    for (int probe = 0; probe < 4096; ++probe, i = (i + 1) & G().table_mask) {
      uint64_t cur = G().table[i].load(std::memory_order_relaxed);
      if (cur == 0) {
        if (G().table[i].compare_exchange_strong(cur, want)) {
          G().sh->states.fetch_add(1, std::memory_order_relaxed);
          return;
        }
      }
      while ((cur & ~0xffull) == h) {
        if ((cur & 0x7f) >= static_cast<uint64_t>(remaining & 0x7f)) {
          prunes_++;
          throw Prune{};
        }
        if (G().table[i].compare_exchange_strong(cur, want)) return;
      }
    }
    G().sh->table_full.fetch_add(1, std::memory_order_relaxed);
  }

  // --- reporting
  void log(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (!verbose) return;
    va_list ap;
    va_start(ap, fmt);
    vprintf(fmt, ap);
    va_end(ap);
    printf("\n");
    fflush(stdout);
  }
  [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    Violation v;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(v.msg, sizeof v.msg, fmt, ap);
    va_end(ap);
    throw v;
  }
  void beat() { slot_->heartbeat = slot_->heartbeat + 1; }
  void checks(uint64_t n = 1) { checks_ += n; }
  // Raise an error recorded by mc::sticky.
  void settle() {
    checks_++;
    if (G().sticky) {
      const char* s = G().sticky;
      fail("%s", s);
    }
  }

  // --- used by the engine
  Slot* slot_ = nullptr;
  const int* prefix_ = nullptr;
  int nprefix_ = 0;
  int pos_ = 0;
  int shard_stop_ = kMaxPicks + 1;
  bool replaying_ = false;
  int prune_at_ = -1;  // replay of a run that ended at a known state
  uint64_t edges_ = 0, prunes_ = 0, checks_ = 0;
  int arity_[kMaxPicks];
};

#define MC_CHECK(c, cond, ...)       \
  do {                               \
    (c).checks();                    \
    if (!(cond)) (c).fail(__VA_ARGS__); \
  } while (0)

struct Suite {
  std::string name;
  void (*body)(Ctx&);
  int quick_bound;
  int thorough_bound;
  bool leak_check;
  int shard_depth;
};
inline std::vector<Suite>& suites() {
  static std::vector<Suite> s;
  return s;
}
struct Register {
  Register(const char* name, void (*body)(Ctx&), int q, int t, bool leak = true, int shard = 2) {
    suites().push_back(Suite{name, body, q, t, leak, shard});
  }
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SUITE(name, body, ...) \
  static mc::Register MC_CAT(mc_reg_, __COUNTER__)(name, body, __VA_ARGS__)

// Optional per-execution hooks (reset of global state before, check after).
inline void (*&before_hook())() { static void (*h)() = nullptr; return h; }
inline void (*&after_hook())(Ctx&) { static void (*h)(Ctx&) = nullptr; return h; }
// Exceptions of the library under test are translated here.
inline bool (*&translate_hook())(char*, size_t) {
  static bool (*h)(char*, size_t) = nullptr;
  return h;
}

// Runs f and tells whether it ended in abort(). f must own no resources when it aborts.
inline sigjmp_buf& abort_jump() { static sigjmp_buf b; return b; }
inline void abort_handler(int) { siglongjmp(abort_jump(), 1); }
template <typename F>
inline bool aborts(F f) {
  struct sigaction sa, old;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = abort_handler;
  sigaction(SIGABRT, &sa, &old);
  bool r = false;
  if (sigsetjmp(abort_jump(), 1) == 0) {
    try {
      f();
    } catch (...) {
      sigaction(SIGABRT, &old, nullptr);
      throw;
    }
  } else {
    r = true;
  }
  sigaction(SIGABRT, &old, nullptr);
  return r;
}

enum class Outcome { Ok, Pruned, Violated, Shard };

inline Outcome run_once(Ctx& c, const Suite& s, const int* prefix, int n, char* msg) {
  c.prefix_ = prefix;
  c.nprefix_ = n;
  c.pos_ = 0;
  c.slot_->n = 0;
  G().sticky = nullptr;
  if (n > 0) c.edges_++;
  if (before_hook()) before_hook()();
  Outcome o = Outcome::Ok;
  c.slot_->in_body = 1;
  errno = ERANGE;  // what an earlier, unrelated call may have left
  G().in_body = true;
  try {
    s.body(c);
    if (c.pos_ < n) c.fail("harness error: replay diverged, %d decisions left", n - c.pos_);
    if (after_hook()) after_hook()(c);
    c.settle();
  } catch (Prune&) {
    o = Outcome::Pruned;
    try {  // everything is destroyed by now: the end-of-run checks apply here too
      if (after_hook()) after_hook()(c);
      c.settle();
    } catch (Violation& v) {
      o = Outcome::Violated;
      strcpy(msg, v.msg);
    }
  } catch (StopAtShard&) {
    o = Outcome::Shard;
  } catch (Violation& v) {
    o = Outcome::Violated;
    strcpy(msg, v.msg);
  } catch (std::exception& e) {
    o = Outcome::Violated;
    snprintf(msg, 1200, "unexpected C++ exception: %s", e.what());
  } catch (...) {
    o = Outcome::Violated;
    if (!translate_hook() || !translate_hook()(msg, 1200))
      snprintf(msg, 1200, "unexpected exception");
  }
  c.slot_->in_body = 0;
  G().in_body = false;
  return o;
}

inline size_t heap_now() {
#ifdef MC_ASAN
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

// Runs once with leak detection. msg filled on violation.
inline Outcome run_checked(Ctx& c, const Suite& s, const int* prefix, int n, char* msg) {
  const size_t h0 = heap_now();
  Outcome o = run_once(c, s, prefix, n, msg);
  if ((o != Outcome::Ok && o != Outcome::Pruned) || !s.leak_check) return o;
  const size_t h1 = heap_now();
  if (h1 == h0) return o;
  // One-time initialisations are not leaks: run the same decisions twice more.
  std::vector<int> full(c.slot_->choice, c.slot_->choice + c.pos_);
  std::vector<int> keep_arity(c.arity_, c.arity_ + c.pos_);
  const int saved = static_cast<int>(full.size());
  size_t g[2];
  for (int k = 0; k < 2; ++k) {
    const size_t a = heap_now();
    const bool r = c.replaying_;
    c.replaying_ = true;
    c.prune_at_ = o == Outcome::Pruned ? saved : -1;
    Outcome o2 = run_once(c, s, full.data(), saved, msg);
    c.replaying_ = r;
    c.prune_at_ = -1;
    g[k] = heap_now() - a;
    if (o2 == Outcome::Violated) return o2;
  }
  if (g[0] != 0 && g[1] != 0) {
    snprintf(msg, 1200, "memory leak: the heap balance after the run is %+lld bytes", (long long)g[1]);
    return Outcome::Violated;
  }
  return o;
}

inline double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

inline bool next_prefix(Ctx& c, int base, std::vector<int>& prefix) {
  int i = c.pos_ - 1;
  while (i >= base && c.slot_->choice[i] + 1 >= c.arity_[i]) --i;
  if (i < base) return false;
  prefix.assign(c.slot_->choice, c.slot_->choice + i + 1);
  prefix[i]++;
  return true;
}

struct Item {
  int suite, bound;
  std::vector<int> prefix;
};

struct Found {
  int suite = -1, bound = 0;
  std::vector<int> choices;
  std::string msg;
};

struct SuiteStat {
  uint64_t execs = 0, edges = 0, prunes = 0, checks = 0, states = 0;
  int bound = 0;
  bool complete = false;
  double wall = 0;
};

class Engine {
 public:
  bool thorough = false;
  double budget = 1e18;
  int workers = 8;
  std::string scratch = ".";
  std::string only;
  double hang_s = 30;
  int table_log2 = 23;

  void setup() {
    G().sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    const uint64_t n = 1ull << table_log2;
    G().table = static_cast<std::atomic<uint64_t>*>(
        mmap(nullptr, n * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    G().table_mask = n - 1;
  }

  static int spawn_redirect(const std::string& file) {
    int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) {
      dup2(fd, 2);
      close(fd);
    }
    return fd;
  }
  std::string errfile(int w) const { return scratch + "/stderr." + std::to_string(getpid()) + "." + std::to_string(w); }
  static std::string slurp(const std::string& f, size_t cap) {
    std::string r;
    if (FILE* p = fopen(f.c_str(), "rb")) {
      char b[4096];
      size_t k;
      while ((k = fread(b, 1, sizeof b, p)) > 0 && r.size() < cap) r.append(b, k);
      fclose(p);
    }
    if (r.size() > cap) r.resize(cap);
    return r;
  }

  // One execution takes milliseconds: it is ended after 20 s of computing, or 120 s of waiting.
  static void limit_time() {
    struct itimerval t = {};
    t.it_value.tv_sec = 20;
    setitimer(ITIMER_PROF, &t, nullptr);
    alarm(120);
  }

  // Enumerate decision prefixes of length <= shard_depth, in a child process.
  // Returns false when the child died (found is filled).
  bool shard(int si, int bound, std::vector<Item>& items, Found& found) {
    int fd[2];
    if (pipe(fd)) abort();
    Slot* sl = &G().sh->slot[kMaxWorkers];
    memset((void*)sl, 0, sizeof *sl);
    const std::string ef = errfile(99);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      close(fd[0]);
      spawn_redirect(ef);
      const Suite& s = suites()[si];
      Ctx* c = new Ctx;
      c->slot_ = sl;
      c->bound = bound;
      c->thorough = thorough;
      c->suite_id = si;
      c->replaying_ = true;
      c->shard_stop_ = s.shard_depth;
      char msg[1200];
      std::vector<int> prefix;
      for (;;) {
        limit_time();
        Outcome o = run_once(*c, s, prefix.data(), (int)prefix.size(), msg);
        if (o == Outcome::Violated) {
          strcpy(sl->msg, msg);
          sl->violated = 1;
          _exit(0);
        }
        int n = c->pos_;
        if (write(fd[1], &n, sizeof n) != sizeof n) _exit(3);
        if (n && write(fd[1], sl->choice, n * sizeof(int)) != (ssize_t)(n * sizeof(int))) _exit(3);
        if (!next_prefix(*c, 0, prefix)) break;
      }
      sl->done = 1;
      _exit(0);
    }
    close(fd[1]);
    FILE* f = fdopen(fd[0], "rb");
    int n;
    std::vector<Item> got;
    while (fread(&n, sizeof n, 1, f) == 1) {
      Item it;
      it.suite = si;
      it.bound = bound;
      it.prefix.resize(n);
      if (n && fread(it.prefix.data(), sizeof(int), n, f) != (size_t)n) break;
      got.push_back(it);
    }
    fclose(f);
    int st = 0;
    waitpid(p, &st, 0);
    if (sl->violated || !sl->done) {
      found.suite = si;
      found.bound = bound;
      found.choices.assign(sl->choice, sl->choice + sl->n);
      found.msg = sl->violated ? std::string(sl->msg) : describe(st, slurp(ef, 3000));
      unlink(ef.c_str());
      return false;
    }
    unlink(ef.c_str());
    items.insert(items.end(), got.begin(), got.end());
    return true;
  }

  static std::string describe(int st, const std::string& err) {
    char b[100];
    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "the process was ended by signal %d", WTERMSIG(st));
    else if (WEXITSTATUS(st) == 99) snprintf(b, sizeof b, "memory error reported by AddressSanitizer");
    else if (WEXITSTATUS(st) == 98) snprintf(b, sizeof b, "undefined behaviour reported by UBSan");
    else snprintf(b, sizeof b, "the process exited with status %d", WEXITSTATUS(st));
    // keep the head of a sanitizer report: kind and first frames
    std::string head;
    size_t i = err.find("==ERROR");
    i = i == std::string::npos ? 0 : i;
    int lines = 0;
    while (i < err.size() && lines < 8) {
      size_t j = err.find('\n', i);
      if (j == std::string::npos) j = err.size();
      if (j - i > 0 && err.compare(i, 10, "==========") != 0) { head += "\n  " + err.substr(i, std::min<size_t>(j - i, 240)); lines++; }
      i = j + 1;
    }
    return std::string(b) + head;
  }

  [[noreturn]] void worker(int w, const std::vector<Item>& items) {
    spawn_redirect(errfile(w));
    Slot* sl = &G().sh->slot[w];
    Ctx* c = new Ctx;
    c->slot_ = sl;
    c->thorough = thorough;
    char msg[1200];
    for (;;) {
      if (G().sh->stop.load()) _exit(0);
      const uint64_t k = G().sh->next_item.fetch_add(1);
      if (k >= items.size()) break;
      const Item& it = items[k];
      const Suite& s = suites()[it.suite];
      c->suite_id = it.suite;
      c->bound = it.bound;
      sl->suite = it.suite;
      sl->bound = it.bound;
      std::vector<int> prefix = it.prefix;
      prefix.reserve(kMaxPicks);
      const int base = (int)it.prefix.size();
      for (;;) {
        Outcome o = run_checked(*c, s, prefix.data(), (int)prefix.size(), msg);
        sl->heartbeat = sl->heartbeat + 1;
        sl->execs = sl->execs + 1;
        sl->edges = c->edges_;
        sl->prunes = c->prunes_;
        sl->checks = c->checks_;
        if (o == Outcome::Violated) {
          strcpy(sl->msg, msg);
          sl->violated = 1;
          G().sh->stop.store(1);
          _exit(0);
        }
        if (G().sh->stop.load(std::memory_order_relaxed)) _exit(0);
        if (!next_prefix(*c, base, prefix)) break;
      }
    }
    sl->done = 1;
    _exit(0);
  }

  // Explore one suite at one bound. Returns 0 complete, 1 found, 2 capped.
  int explore(int si, int bound, double deadline, SuiteStat& st, Found& found) {
    const double t0 = now();
    std::vector<Item> items;
    G().sh->states.store(0);
    if (!shard(si, bound, items, found)) return 1;
    memset((void*)G().sh->slot, 0, sizeof G().sh->slot);
    G().sh->next_item.store(0);
    G().sh->stop.store(0);
    const int nw = (int)std::min<size_t>(workers, items.size());
    std::vector<pid_t> pid(nw);
    fflush(stdout);
    for (int w = 0; w < nw; ++w) {
      pid[w] = fork();
      if (pid[w] == 0) worker(w, items);
    }
    int alive = nw, result = 0;
    std::vector<uint64_t> beat(nw, 0);
    std::vector<double> beat_t(nw, now());
    std::vector<int> gone(nw, 0);
    while (alive > 0) {
      bool any = false;
      for (int w = 0; w < nw; ++w) {
        if (gone[w]) continue;
        int s = 0;
        pid_t r = waitpid(pid[w], &s, WNOHANG);
        if (r == pid[w]) {
          any = true;
          gone[w] = 1;
          alive--;
          Slot* sl = &G().sh->slot[w];
          if (sl->violated && result != 1) {
            result = 1;
            found.suite = si;
            found.bound = bound;
            found.choices.assign(sl->choice, sl->choice + sl->n);
            found.msg = sl->msg;
          } else if (!sl->done && !(WIFEXITED(s) && WEXITSTATUS(s) == 0)) {
            G().sh->stop.store(1);
            if (WIFSIGNALED(s) && WTERMSIG(s) == SIGKILL) {
              result = result == 1 ? 1 : 3;
            } else if (result != 1) {
              result = 1;
              found.suite = si;
              found.bound = bound;
              found.choices.assign(sl->choice, sl->choice + sl->n);
              found.msg = describe(s, slurp(errfile(w), 3000));
            }
          }
        } else {
          Slot* sl = &G().sh->slot[w];
          if (sl->heartbeat != beat[w]) {
            beat[w] = sl->heartbeat;
            beat_t[w] = now();
          } else if (now() - beat_t[w] > hang_s) {
            if (result == 0) {
              result = 1;
              found.suite = si;
              found.bound = bound;
              found.choices.assign(sl->choice, sl->choice + sl->n);
              found.msg = "no progress (hang)";
            }
            G().sh->stop.store(1);
            kill(pid[w], SIGKILL);
            waitpid(pid[w], &s, 0);
            gone[w] = 1;
            alive--;
          }
        }
      }
      if (now() > deadline && !G().sh->stop.load()) {
        G().sh->stop.store(1);
        if (result == 0) result = 2;
      }
      if (!any) usleep(2000);
    }
    for (int w = 0; w < nw; ++w) {
      Slot* sl = &G().sh->slot[w];
      st.execs += sl->execs;
      st.edges += sl->edges;
      st.prunes += sl->prunes;
      st.checks += sl->checks;
      unlink(errfile(w).c_str());
    }
    st.states = G().sh->states.load();
    st.bound = bound;
    st.complete = result == 0;
    st.wall = now() - t0;
    return result;
  }

  // Replay in a fresh child; returns true when it fails again.
  bool confirm(const Found& f, std::string& msg, bool verbose) {
    Slot* sl = &G().sh->slot[kMaxWorkers];
    memset((void*)sl, 0, sizeof *sl);
    const std::string ef = errfile(98);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      if (!verbose) spawn_redirect(ef);
      limit_time();
      Ctx* c = new Ctx;
      c->slot_ = sl;
      c->bound = f.bound;
      c->thorough = thorough;
      c->suite_id = f.suite;
      c->verbose = verbose;
      c->replaying_ = true;
      char m[1200];
      std::vector<int> pre = f.choices;
      Outcome o = run_checked(*c, suites()[f.suite], pre.data(), (int)pre.size(), m);
      if (o == Outcome::Violated) {
        strcpy(sl->msg, m);
        sl->violated = 1;
      }
      sl->done = 1;
      _exit(0);
    }
    int s = 0;
    waitpid(p, &s, 0);
    bool bad = false;
    if (sl->violated) {
      msg = sl->msg;
      bad = true;
    } else if (!sl->done) {
      if (WIFSIGNALED(s) && (WTERMSIG(s) == SIGALRM || WTERMSIG(s) == SIGPROF)) msg = "does not terminate (ended after 20 s of computing)";
      else msg = describe(s, verbose ? "" : slurp(ef, 3000));
      bad = !(WIFSIGNALED(s) && WTERMSIG(s) == SIGKILL);
    }
    unlink(ef.c_str());
    return bad;
  }
};

inline std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    char b[8];
    if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
    else if (ch < 0x20 || ch >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
    else r += (char)ch;
  }
  return r + "\"";
}

// Command line:
//   --tier quick|thorough  --out F.json  --scratch DIR [--suite NAME] [--budget S]
//   --replay SUITE BOUND c0,c1,...   (verbose replay; exit 1 if it fails)
inline int main_impl(int argc, char** argv) {
  Engine e;
  std::string out, rs, rc;
  int rb = 0;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--tier") e.thorough = std::string(argv[++i]) == "thorough";
    else if (a == "--out") out = argv[++i];
    else if (a == "--scratch") e.scratch = argv[++i];
    else if (a == "--suite") e.only = argv[++i];
    else if (a == "--budget") e.budget = atof(argv[++i]);
    else if (a == "--workers") e.workers = atoi(argv[++i]);
    else if (a == "--list") list = true;
    else if (a == "--replay") { rs = argv[++i]; rb = atoi(argv[++i]); rc = argv[++i]; }
  }
  if (e.workers > kMaxWorkers) e.workers = kMaxWorkers;
  if (e.thorough) e.table_log2 = 27;
  if (list) {
    for (auto& s : suites()) printf("%s\n", s.name.c_str());
    return 0;
  }
  e.setup();
  if (!rs.empty()) {
    Found f;
    f.bound = rb;
    for (size_t i = 0; i < suites().size(); ++i) if (suites()[i].name == rs) f.suite = (int)i;
    if (f.suite < 0) { fprintf(stderr, "no such suite\n"); return 2; }
    for (const char* p = rc.c_str(); *p && *p != '-';) {
      f.choices.push_back((int)strtol(p, const_cast<char**>(&p), 10));
      if (*p == ',') ++p;
    }
    std::string msg;
    const bool bad = e.confirm(f, msg, true);
    printf("%s%s\n", bad ? "FAILS: " : "passes", bad ? msg.c_str() : "");
    return bad ? 1 : 0;
  }
  std::string js = "{\"suites\":[", findings;
  const double t0 = now();
  const double deadline = t0 + e.budget;
  Found found;
  bool violated = false, error = false;
  std::string errmsg;
  bool first = true;
  for (size_t i = 0; i < suites().size() && !violated && !error; ++i) {
    const Suite& s = suites()[i];
    if (!e.only.empty() && s.name.find(e.only) == std::string::npos) continue;
    // "finding:CASE" suites hold exactly the inputs of one recorded finding
    const bool finding = s.name.compare(0, 8, "finding:") == 0;
    SuiteStat best;
    const int hi = e.thorough ? s.thorough_bound : s.quick_bound;
    // In the thorough tier the bound is deepened one step at a time, so that a
    // bound that was fully covered is known even when the time budget runs out.
    double share = deadline;
    if (e.thorough) {
      size_t left = suites().size() - i;
      share = now() + (deadline - now()) / left;
    }
    uint64_t execs = 0, edges = 0, prunes = 0, checks = 0;
    bool capped = false;
    int capped_bound = 0;
    for (int b = s.quick_bound < hi ? s.quick_bound : hi; b <= hi; ++b) {
      SuiteStat st;
      Found f;
      int r = e.explore((int)i, b, e.thorough ? share : deadline, st, f);
      execs += st.execs; edges += st.edges; prunes += st.prunes; checks += st.checks;
      if (r == 1) {
        std::string m;
        bool again = false;
        for (int k = 0; k < 3 && !again; ++k) again = e.confirm(f, m, false);
        if (again) {
          found = f;
          found.msg = m;
          if (m.find("harness error") != std::string::npos) { error = true; errmsg = m; }
          else if (finding) {
            std::string ch;
            for (size_t k = 0; k < f.choices.size(); ++k) ch += (k ? "," : "") + std::to_string(f.choices[k]);
            findings += (findings.empty() ? "" : ",") + std::string("{\"case\":") + jstr(s.name.substr(8)) + ",\"suite\":" + jstr(s.name) +
                        ",\"bound\":" + std::to_string(f.bound) + ",\"choices\":" + jstr(ch.empty() ? "-" : ch) + ",\"msg\":" + jstr(m) + "}";
            found = Found();
            st.complete = true;
          }
          else violated = true;
        } else {
          error = true;
          errmsg = "a failure did not reproduce on replay: " + f.msg;
        }
        if (best.bound == 0) best = st;
        break;
      }
      if (r == 3) { error = true; errmsg = "a worker was killed"; break; }
      if (r == 2) { capped = true; capped_bound = b; break; }
      best = st;
    }
    fprintf(stderr, "  suite %-34s bound %d execs %llu edges %llu states %llu prunes %llu checks %llu%s\n",
            s.name.c_str(), best.bound, (unsigned long long)execs, (unsigned long long)edges,
            (unsigned long long)best.states, (unsigned long long)prunes, (unsigned long long)checks,
            capped ? " (next bound capped)" : "");
    char b[600];
    snprintf(b, sizeof b,
             "%s{\"name\":%s,\"bound\":%d,\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,"
             "\"prunes\":%llu,\"checks\":%llu,\"complete\":%s,\"capped_at_bound\":%d,\"table_full\":%llu}",
             first ? "" : ",", jstr(s.name).c_str(), best.bound, (unsigned long long)execs,
             (unsigned long long)edges, (unsigned long long)best.states, (unsigned long long)prunes,
             (unsigned long long)checks, best.complete ? "true" : "false", capped_bound,
             (unsigned long long)G().sh->table_full.load());
    js += b;
    first = false;
  }
  js += "],\"findings\":[" + findings + "],\"wall\":" + std::to_string(now() - t0);
  if (violated || error) {
    std::string ch;
    for (size_t k = 0; k < found.choices.size(); ++k) ch += (k ? "," : "") + std::to_string(found.choices[k]);
    if (ch.empty()) ch = "-";
    if (violated)
      js += ",\"violation\":{\"suite\":" + jstr(suites()[found.suite].name) + ",\"bound\":" + std::to_string(found.bound) +
            ",\"choices\":" + jstr(ch) + ",\"msg\":" + jstr(found.msg) + "}";
    else
      js += ",\"error\":" + jstr(errmsg + (found.suite >= 0 ? " [" + suites()[found.suite].name + " " + std::to_string(found.bound) + " " + ch + "]" : ""));
  }
  js += "}\n";
  if (!out.empty()) {
    FILE* f = fopen(out.c_str(), "wb");
    if (!f) return 2;
    fwrite(js.data(), 1, js.size(), f);
    fclose(f);
  } else {
    fputs(js.c_str(), stdout);
  }
  return violated ? 1 : error ? 2 : 0;
}

}  // namespace mc

#endif  // VERIF_MC_H
