// P40: timers and benchmarks report the time during which they were running. The clocks and
// the sleeps of the machine are replaced: time passes only when the explorer says so.
#include <cerrno>
#include <cmath>
#include <chrono>
#include <ctime>
#include <sys/syscall.h>
#include <unistd.h>
#include "ilmc.h"
#include <il/Timer.h>
#include <il/benchmark/tools/timer/Benchmark.h>
using il::int_t;
using mc::Ctx;
typedef long long ns_t;

namespace {
struct World {
  bool on = false;
  ns_t mono = 0, wall = 0;  // what the two clocks show
  ns_t slept = 0;
  int interrupts = 0;       // how many sleeps a signal will interrupt
  void advance(ns_t d) { mono += d; wall += d; }
} w;
const ns_t kWall = 1700000000000000000LL, kMono = 5000000000000LL;
}  // namespace
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  if (w.on) return time_point(duration(w.wall));
  timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
  return time_point(duration(t.tv_sec * 1000000000LL + t.tv_nsec));
}
steady_clock::time_point steady_clock::now() noexcept {
  if (w.on) return time_point(duration(w.mono));
  timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return time_point(duration(t.tv_sec * 1000000000LL + t.tv_nsec));
}
} } }
extern "C" int clock_gettime(clockid_t id, timespec* t) noexcept {
  if (!w.on) return (int)syscall(SYS_clock_gettime, id, t);
  const ns_t v = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? w.wall : w.mono;
  t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
  return 0;
}
static int virtualSleep(ns_t d, timespec* rem) {
  if (w.interrupts > 0) {
    --w.interrupts;
    const ns_t part = d / 3;
    w.advance(part); w.slept += part;
    if (rem) { rem->tv_sec = (d - part) / 1000000000; rem->tv_nsec = (d - part) % 1000000000; }
    return EINTR;
  }
  w.advance(d); w.slept += d;
  return 0;
}
extern "C" int nanosleep(const timespec* req, timespec* rem) {
  if (!w.on) return (int)syscall(SYS_nanosleep, req, rem);
  const int e = virtualSleep(req->tv_sec * 1000000000LL + req->tv_nsec, rem);
  if (e) { errno = e; return -1; }
  return 0;
}
extern "C" int clock_nanosleep(clockid_t id, int flags, const timespec* req, timespec* rem) {
  if (!w.on) return (int)syscall(SYS_clock_nanosleep, id, flags, req, rem);
  ns_t d = req->tv_sec * 1000000000LL + req->tv_nsec;
  if (flags & TIMER_ABSTIME) { d -= id == CLOCK_REALTIME ? w.wall : w.mono; if (d <= 0) return 0; return virtualSleep(d, nullptr); }
  return virtualSleep(d, rem);
}
struct Virtual {
  Virtual() { w = World(); w.on = true; w.mono = kMono; w.wall = kWall; }
  ~Virtual() { w.on = false; }
};
template <typename F> static bool refused(F f) {
#ifdef IL_UNIT_TEST
  try { f(); } catch (il::AbortException&) { return true; }
#else
  (void)f;
#endif
  return false;
}
#ifdef IL_UNIT_TEST
static const bool kChecked = true;
#else
static const bool kChecked = false;
#endif

struct Model {
  bool running = false;
  ns_t begin = 0;
  double sum = 0, mag = 0;
  int n = 0;
  double tol() const { return 3e-16 * (n + 1) * mag; }
};
static void observe(Ctx& c, const il::Timer& t, const Model& m) {
  MC_CHECK(c, std::fabs(t.time() - m.sum) <= m.tol(), "the timer reports %.12g s instead of %.12g s", t.time(), m.sum);
}
static void histories(Ctx& c) {
  Virtual v;
  static const ns_t steps[] = {1, 999999999, 1000000000, 86400LL * 1000000000 + 1};
  static const double targets[] = {0.0, 1e-9, 0.5, 1.0, 1.000000001, 3600.0, -1.0};
  il::Timer t{};
  Model m;
  il::Timer other{};
  Model om;
  for (int k = 0; k < c.bound; ++k) {
    const int op = c.pick(kChecked ? 11 : 9);
    if (op == 0) break;
    if (op <= 4) { w.advance(steps[op - 1]); c.log("%lld ns pass", steps[op - 1]); continue; }
    switch (op) {
      case 5:
        if (m.running) {
          c.log("Stop");
          t.Stop();
          m.running = false;
          const double d = (w.mono - m.begin) * 1e-9;
          m.sum += d; m.mag += m.sum + d; ++m.n;
        } else {
          c.log("Start");
          t.Start();
          m.running = true; m.begin = w.mono;
        }
        break;
      case 6: c.log("Reset"); t.Reset(); m.running = false; m.sum = 0; break;
      case 7: {
        const double target = targets[c.pick(7)];
        if (!m.running) return;
        const int intr = c.pick(3);
        c.log("sleepUntil(%.12g), %d signals", target, intr);
        w.interrupts = intr; w.slept = 0;
        const ns_t before = w.mono;
        t.sleepUntil(target);
        w.interrupts = 0;
        const double left = target - (before - m.begin) * 1e-9;
        const double tol = 2e-9 + 1e-15 * (std::fabs(target) + (before - m.begin) * 1e-9);
        if (left <= 0) MC_CHECK(c, w.slept * 1e-9 <= tol, "slept %lld ns beyond the time", w.slept);
        else {
          MC_CHECK(c, (w.mono - m.begin) * 1e-9 >= target - tol, "woke up %.12g s after the start instead of %.12g s", (w.mono - m.begin) * 1e-9, target);
          MC_CHECK(c, (w.mono - m.begin) * 1e-9 <= target + tol, "woke up %.12g s after the start instead of %.12g s", (w.mono - m.begin) * 1e-9, target);
        }
      } break;
      case 8: {  // the other timer becomes the current one: timers are values
        const bool copy = c.flip();
        c.log("continue with %s", copy ? "a copy" : "the other timer");
        if (copy) { other = t; om = m; }
        else { std::swap(t, other); std::swap(m, om); }
      } break;
      case 9:
        c.log("Start or Stop out of turn");
        if (m.running) MC_CHECK(c, refused([&] { t.Start(); }), "a running timer was started");
        else MC_CHECK(c, refused([&] { t.Stop(); }), "a timer which does not run was stopped");
        break;
      default:
        c.log("sleep of a timer which does not run");
        if (m.running) return;
        MC_CHECK(c, refused([&] { t.sleepUntil(1.0); }), "a timer which does not run slept");
        break;
    }
    observe(c, t, m);
    observe(c, other, om);
  }
  // whatever the history, the timer goes on as the model says
  if (!m.running) { t.Start(); m.running = true; m.begin = w.mono; }
  w.advance(250000000);
  t.Stop();
  const double d = (w.mono - m.begin) * 1e-9;
  m.sum += d; m.mag += m.sum + d; ++m.n;
  observe(c, t, m);
  observe(c, other, om);
}
MC_SUITE("histories of timers", histories, 5, 6, true, 3);

static void sleeps(Ctx& c) {
  Virtual v;
  static const double times[] = {0.0, 1e-9, 3e-9, 1e-3, 0.999999999, 1.0, 1.5, 59.25, 86400.0, 1e7, -1.0, -1e9};
  const double t = times[c.pick(12)];
  w.interrupts = c.pick(4);
  c.log("sleep(%.12g), %d signals", t, w.interrupts);
  il::sleep(t);
  const double want = t > 0 ? t : 0;
  const double got = (w.mono - kMono) * 1e-9;
  MC_CHECK(c, std::fabs(got - want) <= 2e-9 + 1e-15 * want, "slept %.12g s instead of %.12g s", got, want);
}
MC_SUITE("sleeps", sleeps, 1, 1, true, 2);

// The program under measure: what an iteration costs, in the timed and in the paused part
struct Script {
  ns_t setup, iter, paused, teardown;
  int shape;  // 0: nothing paused, 1: paused inside of an iteration, 2: paused at its end, resumed by the loop
  ns_t ramp;  // added to the cost at each call of the program
  // what happened
  int calls = 0;
  ns_t last_n = 0, prev_n = 0, last_timed = 0, last_total = 0;
};
template <typename S> static typename std::enable_if<std::is_same<S, il::BState>::value>::type pausing(S& s, Script& p) {
  if (p.shape == 1) { s.pause_timing(); w.advance(p.paused); s.resume_timing(); }
  if (p.shape == 2) { s.pause_timing(); w.advance(p.paused); }
}
static void pausing(il::BStateShort&, Script&) {}
template <typename S> static void runScript(Ctx& c, S& s, Script& p) {
  const ns_t t0 = w.mono;
  ++p.calls;
  MC_CHECK(c, p.calls <= 40, "the benchmark does not end");
  const ns_t cost = p.iter + p.ramp * (p.calls - 1);
  w.advance(p.setup);
  ns_t n = 0;
  while (s.keep_running()) {
    w.advance(cost / 2);
    pausing(s, p);
    w.advance(p.shape == 2 ? 0 : cost - cost / 2);
    ++n;
    if (n > 20000000) MC_CHECK(c, false, "a run of the benchmark does not end");
  }
  p.prev_n = p.last_n;
  p.last_n = n;
  p.last_timed = n * (p.shape == 2 ? cost / 2 : cost);
  w.advance(p.teardown);
  p.last_total = w.mono - t0;
}
// The value which the recorded finding "benchmark-next-run" gives instead: the time of the last
// run, divided by the number of iterations which were planned for a run after it.
static bool nextRun(double ans, double goal, bool shortened, const Script& p) {
  const double total = shortened ? 1e-9 * (1 + p.last_total) : p.last_n * (1e-9 + p.last_timed * 1e-9 / p.last_n);
  double next = std::floor(goal / (total / p.last_n));
  if (next > 10.0 * p.last_n) next = 10.0 * p.last_n;
  for (double k = next - 1; k <= next + 1; ++k) {
    if (k < 0) continue;
    if (k == 0 ? std::isinf(ans) : std::fabs(ans - total / k) <= 1e-12 * ans) return true;
  }
  return false;
}
static void benchmark_runs(Ctx& c, bool finding) {
  Virtual v;
  const bool shortened = c.flip();
  static const double goals[] = {1.0, 1e-3, 10.0, 1e-6};
  const double goal = goals[c.pick(4)];
  static const double share[] = {1e-6, 3e-5, 1e-3, 0.034, 0.05, 0.0999, 0.1, 0.26, 0.3, 0.5, 0.51, 0.7, 1.0, 1.6, 100.0};
  Script p;
  p.iter = (ns_t)(share[c.pick(15)] * goal * 1e9);
  if (p.iter < 1) p.iter = 1;
  static const ns_t extra[] = {0, 1, 1000, 700000000};
  p.setup = extra[c.pick(4)];
  p.teardown = extra[c.pick(4)];
  p.shape = shortened ? 0 : c.pick(3);
  p.paused = p.shape ? extra[1 + c.pick(3)] : 0;
  if (p.shape == 2 && p.iter < 2) p.iter = 2;
  p.ramp = c.pick(2) ? p.iter : 0;
  c.log("%s, goal %g s, iteration %lld ns (+%lld per run), setup %lld ns, teardown %lld ns, shape %d, paused %lld ns", shortened ? "benchmark_short" : "benchmark",
        goal, p.iter, p.ramp, p.setup, p.teardown, p.shape, p.paused);
  double ans;
  if (shortened) ans = il::benchmark_short([&](il::io_t, il::BStateShort& s) { runScript(c, s, p); }, goal);
  else ans = il::benchmark([&](il::io_t, il::BState& s) { runScript(c, s, p); }, goal);
  MC_CHECK(c, p.calls >= 1 && p.last_n >= 1, "nothing was run");
  const ns_t total = shortened ? p.last_total : p.last_timed;
  const double want = total * 1e-9 / p.last_n;
  // the run which counts is long enough
  MC_CHECK(c, total * 1e-9 + 1.1e-9 * p.last_n >= 0.5 * goal, "the run which counts lasted %.12g s, the goal is %g s", total * 1e-9, goal);
  if (!finding && nextRun(ans, goal, shortened, p)) return;
  MC_CHECK(c, ans >= want * (1 - 1e-12) - 1e-15 && ans <= want * (1 + 1e-12) + 1.000001e-9, "the benchmark reports %.12g s per iteration, the %lld iterations of its last run took %.12g s each", ans, p.last_n, want);
}
static void benchmarks(Ctx& c) { benchmark_runs(c, false); }
static void benchmarks_finding(Ctx& c) { benchmark_runs(c, true); }
MC_SUITE("benchmarks", benchmarks, 1, 1, true, 3);
// The recorded findings
MC_SUITE("finding:benchmark-next-run", benchmarks_finding, 1, 1, true, 3);
static void wallClock(Ctx& c) {
  Virtual v;
  static const ns_t jumps[] = {-3600LL * 1000000000, -1, 3600LL * 1000000000};
  const ns_t j = jumps[c.pick(3)];
  if (c.flip()) {
    il::Timer t{};
    c.log("Start, 1 s passes, the wall clock is set %lld ns ahead, Stop", j);
    t.Start();
    w.advance(1000000000);
    w.wall += j;
    t.Stop();
    MC_CHECK(c, std::fabs(t.time() - 1.0) <= 1e-12, "the timer reports %.12g s instead of 1 s", t.time());
  } else {
    c.log("a benchmark of 10 ms per iteration, the wall clock is set %lld ns ahead", j);
    il::BState s{2};
    while (s.keep_running()) { w.advance(10000000); w.wall += j; }
    MC_CHECK(c, std::fabs(s.time() - 0.01) <= 1e-12, "an iteration took %.12g s instead of 0.01 s", s.time());
  }
}
MC_SUITE("finding:wall-clock", wallClock, 1, 1);

// BState alone: a run is exactly n iterations, and only the time between pauses counts
static void states(Ctx& c) {
  Virtual v;
  const ns_t n = 1 + c.pick(c.bound);
  il::BState s{(int_t)n};
  il::BStateShort q{(int_t)n};
  ns_t timed = 0, k = 0, kq = 0;
  w.advance(5);
  while (kq <= n && q.keep_running()) ++kq;
  MC_CHECK(c, kq == n, "%lld iterations were run instead of %lld", kq, n);
  while (s.keep_running()) {
    ++k;
    MC_CHECK(c, k <= n, "more iterations than requested were run");
    switch (c.pick(5)) {
      case 0: w.advance(3); timed += 3; break;
      case 1: break;
      case 2: s.pause_timing(); w.advance(1000); s.resume_timing(); w.advance(7); timed += 7; break;
      case 3: w.advance(2); timed += 2; s.pause_timing(); w.advance(100000); break;
      default: s.pause_timing(); w.advance(10); s.resume_timing(); w.advance(11); timed += 11; s.pause_timing(); w.advance(13); s.resume_timing(); break;
    }
  }
  MC_CHECK(c, k == n, "%lld iterations were run instead of %lld", k, n);
  w.advance(1000000);
  const double want = timed * 1e-9 / n;
  MC_CHECK(c, std::fabs(s.time() - want) <= 1e-15 * want + 1e-24, "an iteration took %.12g s instead of %.12g s", s.time(), want);
}
MC_SUITE("iterations and pauses", states, 5, 7, true, 2);
