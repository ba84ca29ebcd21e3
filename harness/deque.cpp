// P04: il::Deque against std::deque, every sequence of operations up to a depth.
#include <il/Deque.h>
#include <deque>
#include "ilmc.h"

using mc::Ctx;
using mc::Elem;

template <typename T>
static void verify(Ctx& c, il::Deque<T>& q, const std::deque<int>& m, int cap) {
  const il::Deque<T>& k = q;
  MC_CHECK(c, k.size() == (il::int_t)m.size(), "size() is %ld, expected %zu", (long)k.size(), m.size());
  MC_CHECK(c, k.capacity() == cap, "capacity() is %ld, expected %d", (long)k.capacity(), cap);
  if (!m.empty()) {
    MC_CHECK(c, mc::get(k.front()) == m.front(), "front() is %d, expected %d", mc::get(k.front()), m.front());
    MC_CHECK(c, mc::get(k.back()) == m.back(), "back() is %d, expected %d", mc::get(k.back()), m.back());
    MC_CHECK(c, mc::get(q.Front()) == m.front() && mc::get(q.Back()) == m.back(), "Front()/Back() differ from front()/back()");
  }
  c.settle();
}
// Empties a copy from one end and compares the order of every element.
template <typename T>
static void drain(Ctx& c, const il::Deque<T>& q0, std::deque<int> m, int cap, bool from_back) {
  il::Deque<T> q{q0};
  verify(c, q, m, cap);
  while (!m.empty()) {
    if (from_back) { q.PopBack(); m.pop_back(); } else { q.PopFront(); m.pop_front(); }
    verify(c, q, m, cap);
  }
}

// Where the front lies in the ring (read from the allocator, not from the class).
extern "C" const char* __asan_locate_address(void* addr, char* name, size_t name_size, void** region, size_t* region_size);
template <typename T>
static std::string position(const il::Deque<T>& q, int cap) {
  if (cap == 0) return "-";
  void* base = nullptr;
  size_t n = 0;
  char name[8];
  if (q.size() > 0) {
    __asan_locate_address((void*)&q.front(), name, sizeof name, &base, &n);
    return std::to_string((const char*)&q.front() - (const char*)base);
  }
  il::Deque<T> z{q};
  z.PushBack(T(1));
  __asan_locate_address((void*)&z.front(), name, sizeof name, &base, &n);
  return "e" + std::to_string((const char*)&z.front() - (const char*)base);
}

template <typename T>
static void body(Ctx& c) {
  std::deque<int> m;
  int cap = c.pick(8);
  il::Deque<T> q = c.flip() ? il::Deque<T>(il::int_t{cap}) : il::Deque<T>();
  int turn = 0;  // pushes made from this state on get distinct values
  if (q.capacity() == 0 && cap > 0) {
    c.log("Reserve(%d)", cap);
    q.Reserve(cap);
  }
  c.log("capacity %d", cap);
  verify(c, q, m, cap);
  for (int step = 0; step < c.bound; ++step) {
    {
      // contents are renamed canonically: 1, 2, 3, ... from the front
      int v = 1;
      for (auto& x : m) x = v++;
      il::Deque<T>& r = q;
      std::vector<int> t(m.begin(), m.end());
      // rewrite the values in place through a rotation
      for (size_t i = 0; i < t.size(); ++i) { r.PopFront(); r.PushBack(T(t[i])); }
      verify(c, q, m, cap);
    }
    drain(c, q, m, cap, c.bound & 1);
    drain(c, q, m, cap, !(c.bound & 1));
    c.state(std::to_string(cap) + ":" + std::to_string(m.size()) + ":" + position(q, cap), c.bound - step);
    const bool full = (int)m.size() == cap;
    const int val = 50 + turn++;
    const int op = c.pick(11);
    switch (op) {
      case 0: case 1: case 2: case 3: {
        auto push = [&]() {
          if (op == 0) { const T x(val); q.PushBack(x); }
          else if (op == 1) { q.PushBack(il::emplace, val); }
          else if (op == 2) { const T x(val); q.PushFront(x); }
          else { q.PushFront(il::emplace, val); }
        };
        c.log("%s(%d)", op < 2 ? "PushBack" : "PushFront", val);
        if (full) {
          // only trivially destructible elements can be abandoned by abort()
          if (!std::is_same<T, int>::value) break;
          bool stopped = false;
          try { stopped = mc::aborts(push); } catch (il::AbortException&) { stopped = true; }
          MC_CHECK(c, stopped, "a push on a full deque of capacity %d returned", cap);
          break;
        }
        push();
        if (op < 2) m.push_back(val);
        else m.push_front(val);
        break;
      }
      case 4: { if (m.empty()) break; c.log("PopFront"); q.PopFront(); m.pop_front(); break; }
      case 5: { if (m.empty()) break; c.log("PopBack"); q.PopBack(); m.pop_back(); break; }
      case 6: { if (m.empty()) break; c.log("Front() = "); q.Front() = T(val); m.front() = val; break; }
      case 7: { if (m.empty()) break; c.log("Back() = "); q.Back() = T(val); m.back() = val; break; }
      case 8: {
        c.log("copy, use the copy");
        il::Deque<T> z{q};
        std::deque<int> mz = m;
        if (!full) { z.PushBack(T(val)); mz.push_back(val); } else if (cap) { z.PopFront(); mz.pop_front(); }
        verify(c, z, mz, cap);
        il::Deque<T> w;
        w = q;
        verify(c, w, m, cap);
        break;
      }
      case 9: {
        c.log("move to another deque and back");
        il::Deque<T> z{std::move(q)};
        verify(c, z, m, cap);
        q = std::move(z);
        break;
      }
      case 10: {
        if (m.empty() || full) break;
        c.log("PushBack(front())");
        q.PushBack(q.front());
        m.push_back(m.front());
        break;
      }
    }
    verify(c, q, m, cap);
    drain(c, q, m, cap, false);
  }
}

// Larger deques: every fill and every position of the front in the ring, then one operation
template <typename T>
static void larger(Ctx& c) {
  const int cap = c.thorough ? c.of({8, 9, 15, 16, 17, 31, 33, 64}) : c.of({8, 9, 17, 33});
  const int turn = c.pick(cap + 2), fill = c.pick(cap + 1);
  const bool back = c.flip();
  il::Deque<T> q(il::int_t{cap});
  std::deque<int> m;
  c.log("capacity %d, %d rotations, then %d elements %s", cap, turn, fill, back ? "at the back" : "at the front");
  for (int i = 0; i < turn; ++i) { q.PushBack(T(i)); q.PopFront(); }
  for (int i = 0; i < fill; ++i) { if (back) { q.PushBack(T(i)); m.push_back(i); } else { q.PushFront(il::emplace, i); m.push_front(i); } }
  verify(c, q, m, cap);
  drain(c, q, m, cap, true);
  drain(c, q, m, cap, false);
  switch (c.pick(4)) {
    case 0: { c.log("assign a deque of 3 elements"); il::Deque<T> z(il::int_t{5}); std::deque<int> mz; for (int i = 0; i < 3; ++i) { z.PushFront(T(70 + i)); mz.push_front(70 + i); } q = z; m = mz; verify(c, q, m, (int)q.capacity()); drain(c, q, m, (int)q.capacity(), false); break; }
    case 1: { c.log("a deque of 3 elements takes a copy, then the deque itself"); il::Deque<T> z(il::int_t{5}); z.PushBack(T(1)); z.PushBack(T(2)); z = q; verify(c, z, m, (int)z.capacity()); drain(c, z, m, (int)z.capacity(), true); z = std::move(q); verify(c, z, m, cap); drain(c, z, m, cap, false); break; }
    case 2: { c.log("rotate by popping and pushing"); for (int i = 0; i < cap && !m.empty(); ++i) { const int x = m.front(); q.PopFront(); m.pop_front(); q.PushBack(T(x + 100)); m.push_back(x + 100); verify(c, q, m, cap); } drain(c, q, m, cap, true); break; }
    case 3: { c.log("rotate backwards"); for (int i = 0; i < cap && !m.empty(); ++i) { const int x = m.back(); q.PopBack(); m.pop_back(); q.PushFront(T(x + 100)); m.push_front(x + 100); verify(c, q, m, cap); } drain(c, q, m, cap, false); break; }
  }
}
// Rings whose positions do not fit 8 or 16 bits
template <typename T>
static void vast(Ctx& c) {
  const int cap = c.of({127, 128, 129, 255, 256, 257, 4096, 32767, 32768, 65535, 65536, 65537, 70001});
  const int turn = c.of({0, 1, cap / 2, cap - 1}), fill = c.of({1, cap / 2, cap - 1, cap});
  const bool back = c.flip();
  il::Deque<T> q;
  q.Reserve(cap);
  std::deque<int> m;
  c.log("capacity %d, %d rotations, then %d elements %s", cap, turn, fill, back ? "at the back" : "at the front");
  for (int i = 0; i < turn; ++i) { q.PushBack(T(i)); q.PopFront(); }
  for (int i = 0; i < fill; ++i) { if (back) { q.PushBack(T(i)); m.push_back(i); } else { q.PushFront(il::emplace, i); m.push_front(i); } }
  verify(c, q, m, cap);
  switch (c.pick(4)) {
    case 0: { c.log("a copy, emptied from the front"); drain(c, q, m, cap, false); break; }
    case 1: { c.log("a copy, emptied from the back"); drain(c, q, m, cap, true); break; }
    case 2: { c.log("assigned and moved"); il::Deque<T> z(il::int_t{3}); z.PushBack(T(1)); z = q; drain(c, z, m, cap, true); q = std::move(z); verify(c, q, m, cap); drain(c, q, m, cap, false); break; }
    case 3: { c.log("rotate"); for (int i = 0; i < cap; ++i) { const int x = m.front(); q.PopFront(); m.pop_front(); q.PushBack(T(x + 1)); m.push_back(x + 1); verify(c, q, m, cap); } drain(c, q, m, cap, false); break; }
  }
}
MC_SUITE("very large deque<trivial>", vast<int>, 1, 1);
MC_SUITE("very large deque<class>", vast<Elem>, 1, 1);
MC_SUITE("deque<trivial>", body<int>, 10, 24);
MC_SUITE("deque<class>", body<Elem>, 10, 24);
MC_SUITE("larger deque<trivial>", larger<int>, 1, 1);
MC_SUITE("larger deque<class>", larger<Elem>, 1, 1);
