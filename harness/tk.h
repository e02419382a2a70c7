// Toolkit shared by the harnesses: tracked values, executors, producers, observation helpers.
// Uses only the public headers of the library.
#pragma once
#include <portable_concurrency/execution>
#include <portable_concurrency/functional>
#include <portable_concurrency/future>
#include <portable_concurrency/latch>
#include <portable_concurrency/thread_pool>
#include <portable_concurrency/timed_waiter>

#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <exception>
#include <functional>
#include <future>
#include <iterator>
#include <limits>
#include <map>
#include <new>
#include <numeric>
#include <queue>
#include <set>
#include <system_error>
#include <type_traits>
#include <utility>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <list>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <vector>

#include "../engine/vs.h"

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

namespace tk {
using vs::Rng;

// ---------------------------------------------------------------- lifetimes
extern vs::Cnt g_objs;   // tracked objects alive
extern vs::Cnt g_copies; // copies of tracked values
extern vs::Cnt g_moves;
enum : unsigned { ALIVE = 0x600DF00D, DEAD = 0xDEADBEEF };

struct Life {
  unsigned magic;
  VS_NOSAN Life() : magic(ALIVE) { g_objs.inc(); }
  VS_NOSAN Life(const Life &o) noexcept : magic(ALIVE) { o.check("copied"); g_objs.inc(); }
  VS_NOSAN Life &operator=(const Life &o) { check("assigned"); o.check("copied"); return *this; }
  VS_NOSAN ~Life() {
    if (magic != ALIVE) vs::fail("tracked object destroyed twice (magic %x)", magic);
    magic = DEAD;
    g_objs.inc(-1);
  }
  VS_NOSAN void check(const char *what) const {
    if (magic != ALIVE) vs::fail("object %s outside its lifetime (magic %x)", what, magic);
  }
};

// heap owning value: the payload is plain memory, so the race detector sees publication
struct Val {
  Life l;
  long *p;
  Val() : p(nullptr) {}
  explicit Val(long id) : p(new long(id)) {}
  Val(const Val &o) : l(o.l), p(o.p ? new long(*o.p) : nullptr) { g_copies.inc(); }
  Val(Val &&o) noexcept : l(o.l), p(o.p) { o.p = nullptr; g_moves.inc(); }
  Val &operator=(const Val &o) {
    l = o.l;
    if (this != &o) { delete p; p = o.p ? new long(*o.p) : nullptr; }
    g_copies.inc();
    return *this;
  }
  Val &operator=(Val &&o) noexcept {
    l = o.l;
    if (this != &o) { delete p; p = o.p; o.p = nullptr; }
    g_moves.inc();
    return *this;
  }
  ~Val() { delete p; }
  long id() const {
    l.check("read");
    return p ? *p : -1; // -1: moved from
  }
};
struct MVal { // move only
  Val v;
  MVal() = default;
  explicit MVal(long id) : v(id) {}
  MVal(MVal &&) noexcept = default;
  MVal &operator=(MVal &&) noexcept = default;
  long id() const { return v.id(); }
};
struct Big {
  long pad[12];
  Val v;
  long tail;
  Big() : tail(0) { for (long &x : pad) x = 0; }
  explicit Big(long id) : v(id), tail(~id) { for (int i = 0; i < 12; i++) pad[i] = id + i; }
  long id() const {
    long x = v.id();
    if (x < 0) return x;
    if (tail != ~x) return -2;
    for (int i = 0; i < 12; i++) if (pad[i] != x + i) return -3;
    return x;
  }
};
struct alignas(64) Aligned {
  Val v;
  Aligned() = default;
  explicit Aligned(long id) : v(id) {}
  long id() const {
    if ((reinterpret_cast<uintptr_t>(this) & 63) != 0) vs::fail("over-aligned value stored at misaligned address");
    return v.id();
  }
};

// owner token: the counter says how many owners (not moved from) of some captured state exist
struct Tok {
  Life l;
  vs::Cnt *c;
  explicit Tok(vs::Cnt &k) : c(&k) { k.inc(); }
  Tok(const Tok &o) : l(o.l), c(o.c) { if (c) c->inc(); }
  Tok(Tok &&o) noexcept : l(o.l), c(o.c) { o.c = nullptr; }
  Tok &operator=(Tok o) noexcept { l = o.l; std::swap(c, o.c); return *this; }
  ~Tok() { if (c) c->inc(-1); }
};

constexpr int NREF = 64;
extern long g_refs[NREF];

template <class T> struct VT {
  static T make(long id) { return T(id); }
  static long id(const T &v) { return v.id(); }
  static const char *name() { return "class"; }
};
template <> struct VT<long> {
  static long make(long id) { return id; }
  static long id(const long &v) { return v; }
};
template <> struct VT<std::string> {
  static std::string make(long id) { return "a string long enough to be on the heap " + std::to_string(id); }
  static long id(const std::string &v) { return v.size() < 39 ? -1 : atol(v.c_str() + 38); }
};
template <> struct VT<long &> {
  static long &make(long id) { return g_refs[id % NREF]; }
  static long id(const long &v) {
    if (&v < g_refs || &v >= g_refs + NREF) return -1;
    return &v - g_refs;
  }
};
// ids are kept below NREF so that they survive a round trip through a reference

// ---------------------------------------------------------------- outcomes
enum Kind { V, E_STD, E_CUSTOM, E_NONSTD, E_INT, BROKEN, E_FUTERR, E_OTHER };
struct Err : std::runtime_error {
  long id;
  Life l;
  explicit Err(long i) : std::runtime_error("custom error"), id(i) {}
};
struct NonStd {
  long id;
  Val payload;
  explicit NonStd(long i) : id(i), payload(i) {}
};
struct Out {
  Kind kind = V;
  long id = 0;
  std::exception_ptr ep;
  Out() = default;
  Out(Kind k, long i) : kind(k), id(i) {}
  bool same(const Out &o) const { return kind == o.kind && (kind == BROKEN || id == o.id); }
  const char *str() const {
    static const char *n[] = {"value", "std::exception", "custom exception", "non-std exception", "int exception", "broken_promise", "future_error", "unknown exception"};
    return n[kind];
  }
};
inline std::exception_ptr make_exc(Kind k, long id) {
  switch (k) {
  case E_STD: return std::make_exception_ptr(std::out_of_range(std::to_string(id)));
  case E_CUSTOM: return std::make_exception_ptr(Err(id));
  case E_NONSTD: return std::make_exception_ptr(NonStd(id));
  case E_INT: return std::make_exception_ptr(static_cast<int>(id));
  case E_FUTERR: return std::make_exception_ptr(std::future_error(std::future_errc::no_state));
  default: return std::make_exception_ptr(std::future_error(std::future_errc::broken_promise));
  }
}
[[noreturn]] inline void throw_exc(Kind k, long id) {
  switch (k) {
  case E_STD: throw std::out_of_range(std::to_string(id));
  case E_CUSTOM: throw Err(id);
  case E_NONSTD: throw NonStd(id);
  case E_INT: throw static_cast<int>(id);
  case E_FUTERR: throw std::future_error(std::future_errc::no_state);
  default: throw std::future_error(std::future_errc::broken_promise);
  }
}
// call in a catch handler
inline Out classify() {
  Out o;
  o.ep = std::current_exception();
  try { throw; }
  catch (const Err &e) { e.l.check("caught"); o.kind = E_CUSTOM; o.id = e.id; }
  catch (const NonStd &e) { o.kind = E_NONSTD; o.id = e.id; if (e.payload.id() != e.id) vs::fail("exception payload damaged"); }
  catch (int i) { o.kind = E_INT; o.id = i; }
  catch (const std::future_error &e) {
    if (e.code() == std::future_errc::broken_promise) o.kind = BROKEN;
    else { o.kind = E_FUTERR; o.id = 0; }
  }
  catch (const std::out_of_range &e) { o.kind = E_STD; o.id = atol(e.what()); }
  catch (...) { o.kind = E_OTHER; }
  return o;
}
inline Out classify(const std::exception_ptr &p) {
  try { std::rethrow_exception(p); } catch (...) { return classify(); }
}
inline Kind random_exc(Rng &r) { static const Kind k[] = {E_STD, E_CUSTOM, E_NONSTD, E_INT, E_CUSTOM}; return k[r.below(5)]; }
inline Out random_out(Rng &r, int pct_value = 60, int pct_broken = 12) {
  int x = r.below(100);
  if (x < pct_value) return {V, r.range(0, NREF - 1)};
  if (x < pct_value + pct_broken) return {BROKEN, 0};
  return {random_exc(r), r.range(0, NREF - 1)};
}
// same exception object, or (for exceptions thrown by value) same kind
inline void expect_out(const Out &got, const Out &want, const char *what) {
  if (!got.same(want)) vs::fail("%s: got %s(%ld), expected %s(%ld)", what, got.str(), got.id, want.str(), want.id);
  if (want.ep && got.ep != want.ep && want.kind != BROKEN) vs::fail("%s: a different exception object than the one stored was delivered", what);
}

template <class T> struct Get {
  static Out from(pc::future<T> &f) {
    Out o;
    try { decltype(auto) v = f.get(); o.id = VT<T>::id(v); } catch (...) { o = classify(); }
    return o;
  }
  static Out from(const pc::shared_future<T> &f) {
    Out o;
    try { decltype(auto) v = f.get(); o.id = VT<T>::id(v); } catch (...) { o = classify(); }
    return o;
  }
};
template <> struct Get<void> {
  static Out from(pc::future<void> &f) {
    Out o;
    try { f.get(); } catch (...) { o = classify(); }
    return o;
  }
  static Out from(const pc::shared_future<void> &f) {
    Out o;
    try { f.get(); } catch (...) { o = classify(); }
    return o;
  }
};
template <class T> Out get(pc::future<T> &f) { return Get<T>::from(f); }
template <class T> Out get(pc::future<T> &&f) { return Get<T>::from(f); }
template <class T> Out get(const pc::shared_future<T> &f) { return Get<T>::from(f); }

// value outcome as seen through a void future: id is lost
template <class T> Out norm(Out o) { return o; }
template <> inline Out norm<void>(Out o) { if (o.kind == V) o.id = 0; return o; }

template <class T> struct Put {
  static void value(pc::promise<T> &p, long id) { p.set_value(VT<T>::make(id)); }
  static T produce(const Out &o) { if (o.kind != V) { if (o.ep) std::rethrow_exception(o.ep); throw_exc(o.kind, o.id); } return VT<T>::make(o.id); }
};
template <> struct Put<void> {
  static void value(pc::promise<void> &p, long) { p.set_value(); }
  static void produce(const Out &o) { if (o.kind != V) { if (o.ep) std::rethrow_exception(o.ep); throw_exc(o.kind, o.id); } }
};
// satisfy or abandon
template <class T> void satisfy(pc::promise<T> p, const Out &o) {
  if (o.kind == BROKEN) return; // destroyed
  if (o.kind == V) Put<T>::value(p, o.id);
  else p.set_exception(o.ep ? o.ep : make_exc(o.kind, o.id));
}

// ---------------------------------------------------------------- executors
using Task = pc::unique_function<void()>;
struct ExecImpl {
  vs::Cnt posted;
  virtual void post(Task t) = 0;
  virtual ~ExecImpl() = default;
};
struct Ex {
  ExecImpl *p;
  friend void post(Ex e, Task t) {
    vs::point();
    e.p->posted.inc();
    e.p->post(std::move(t));
  }
};
struct InlineEx : ExecImpl {
  void post(Task t) override { t(); }
};
struct QueueEx : ExecImpl {
  std::mutex m;
  std::deque<Task> q;
  void post(Task t) override {
    std::lock_guard<std::mutex> g(m);
    q.push_back(std::move(t));
  }
  bool run_one() {
    Task t;
    {
      std::lock_guard<std::mutex> g(m);
      if (q.empty()) return false;
      t = std::move(q.front());
      q.pop_front();
    }
    t();
    return true;
  }
  int run_all() { int n = 0; while (run_one()) n++; return n; }
  int drop_all() {
    std::deque<Task> d;
    {
      std::lock_guard<std::mutex> g(m);
      d.swap(q);
    }
    return (int)d.size();
  }
  size_t size() { std::lock_guard<std::mutex> g(m); return q.size(); }
};
struct ThreadEx : ExecImpl {
  std::mutex m;
  std::list<std::thread> ts;
  void post(Task t) override {
    std::lock_guard<std::mutex> g(m);
    ts.emplace_back([t = std::move(t)]() mutable { t(); });
  }
  void join() {
    for (;;) {
      std::thread t;
      {
        std::lock_guard<std::mutex> g(m);
        if (ts.empty()) return;
        t = std::move(ts.front());
        ts.pop_front();
      }
      t.join();
    }
  }
  ~ThreadEx() { join(); }
};
struct PoolEx : ExecImpl {
  struct Load { // tasks accepted and not yet finished or destroyed
    std::mutex m;
    std::condition_variable cv;
    int n = 0;
  };
  struct Slot {
    Load *l;
    explicit Slot(Load &x) : l(&x) { std::lock_guard<std::mutex> g(l->m); l->n++; }
    Slot(Slot &&o) noexcept : l(o.l) { o.l = nullptr; }
    ~Slot() { if (l) { std::lock_guard<std::mutex> g(l->m); if (--l->n == 0) l->cv.notify_all(); } }
  };
  Load load;
  pc::static_thread_pool pool;
  explicit PoolEx(int n) : pool(n) {}
  void post(Task t) override {
    post_to(pool.executor(), Task([s = Slot(load), t = std::move(t)]() mutable { t(); t = Task(); }));
  }
  void idle() { std::unique_lock<std::mutex> l(load.m); load.cv.wait(l, [this] { return load.n == 0; }); }
  template <class E> static void post_to(E e, Task t) { using portable_concurrency::inplace_executor; post_adl(e, std::move(t)); }
  template <class E> static void post_adl(E e, Task t);
};
namespace adl {
template <class E, class F> void do_post(E e, F &&f) { post(e, std::forward<F>(f)); }
} // namespace adl
template <class E> void PoolEx::post_adl(E e, Task t) { adl::do_post(e, std::move(t)); }
struct DropEx : ExecImpl {
  void post(Task) override {}
};

// A set of executors for one execution; finish() lets every accepted task run.
struct Execs {
  InlineEx inl;
  QueueEx queue;
  ThreadEx threads;
  std::unique_ptr<PoolEx> pool;
  Ex any(Rng &r, bool allow_queue = true) {
    switch (r.below(allow_queue ? 5 : 4)) {
    case 0: case 1: return Ex{&inl};
    case 2: return Ex{&threads};
    case 3: if (!pool) pool.reset(new PoolEx(r.range(1, 2))); return Ex{pool.get()};
    default: return Ex{&queue};
    }
  }
  // run until nothing is left; call when no other thread posts from outside any more
  void drain() {
    for (int i = 0; i < 50; i++) {
      queue.run_all();
      threads.join();
      if (queue.size() == 0) break;
    }
  }
  void finish() {
    if (!pool) { drain(); return; }
    for (;;) { // tasks may post to each other's executors: let all of them come to rest before closing the pool
      drain();
      pool->idle();
      std::lock_guard<std::mutex> g(threads.m);
      if (queue.size() == 0 && threads.ts.empty()) break;
    }
    pool->pool.wait();
  }
};

// ---------------------------------------------------------------- epilogue
void prologue();
void epilogue();
} // namespace tk

namespace portable_concurrency {
template <> struct is_executor<tk::Ex> : std::true_type {};
} // namespace portable_concurrency

// scenario with lifetime accounting
#define SCEN_F(name, weight, flags)                                                      \
  static void body_##name(vs::Rng &r);                                                   \
  SCENARIO_F(name, weight, flags) {                                                      \
    tk::prologue();                                                                      \
    body_##name(r);                                                                      \
    tk::epilogue();                                                                      \
  }                                                                                      \
  static void body_##name(vs::Rng &r)
#define SCEN(name, weight) SCEN_F(name, weight, 0)

namespace tk {
#ifdef TK_MAIN
vs::Cnt g_objs, g_copies, g_moves;
long g_refs[NREF];
void prologue() { g_objs.set(0); g_copies.set(0); g_moves.set(0); }
void epilogue() {
  if (g_objs.get() != 0) vs::fail("%ld objects given to the library were not destroyed (leaked or destroyed twice)", g_objs.get());
}
#endif
} // namespace tk
