#define TK_MAIN
#include "prod.h"
using namespace tk;

static thread_local long tl_arena = 0; // blocks the calling thread took from arenas
// bookkeeping of one allocator identity (all copies and rebound copies share it)
struct Arena {
  long id;
  std::mutex m;
  struct Blk { size_t bytes, align; };
  std::vector<std::pair<void *, Blk>> live;
  vs::Cnt allocs, frees, bytes, copies;
  long fail_at = -1; // the n-th next allocation fails (guarded by m)
  explicit Arena(long i) : id(i) { live.reserve(64); }
  ~Arena() {}
  void *get(size_t n, size_t a) {
    std::lock_guard<std::mutex> g(m);
    if (fail_at >= 0 && fail_at-- == 0) { vs::cover("failure injected"); throw std::bad_alloc(); }
    void *p = ::operator new(n);
    live.push_back({p, Blk{n, a}});
    tl_arena++;
    allocs.inc();
    bytes.inc((long)n);
    return p;
  }
  void put(void *p, size_t n, size_t a) {
    std::lock_guard<std::mutex> g(m);
    for (size_t i = 0; i < live.size(); i++)
      if (live[i].first == p) {
        if (live[i].second.bytes != n) vs::fail("block of %zu bytes returned to the allocator as %zu bytes", live[i].second.bytes, n);
        if (live[i].second.align != a) vs::fail("block returned to the allocator with a different type");
        live[i] = live.back();
        live.pop_back();
        frees.inc();
        ::operator delete(p);
        return;
      }
    vs::fail("block returned to an allocator which did not provide it (or returned twice)");
  }
  size_t count() { std::lock_guard<std::mutex> g(m); return live.size(); }
  bool failed() { std::lock_guard<std::mutex> g(m); return fail_at < 0; } // the injected failure was delivered
  void fail_next(long n) { std::lock_guard<std::mutex> g(m); fail_at = n; }
};
template <class T> struct TA {
  using value_type = T;
  Arena *a;
  unsigned magic = ALIVE;
  explicit TA(Arena &x) noexcept : a(&x) {}
  TA(const TA &o) noexcept : a(o.a) { o.chk(); }
  template <class U> TA(const TA<U> &o) noexcept : a(o.a) { o.chk(); }
  TA &operator=(const TA &) = default;
  ~TA() { magic = DEAD; }
  void chk() const { if (magic != ALIVE) vs::fail("allocator used after its destruction"); }
  T *allocate(size_t n) { chk(); return static_cast<T *>(a->get(n * sizeof(T), alignof(T))); }
  void deallocate(T *p, size_t n) noexcept { chk(); a->put(p, n * sizeof(T), alignof(T)); }
  template <class U> bool operator==(const TA<U> &o) const { return a == o.a; }
  template <class U> bool operator!=(const TA<U> &o) const { return a != o.a; }
};
// minimal allocator which hands out over-sized bookkeeping through a shared_ptr (must be kept alive by its copies)
template <class T> struct SA {
  using value_type = T;
  std::shared_ptr<Arena> a;
  explicit SA(std::shared_ptr<Arena> x) : a(std::move(x)) {}
  template <class U> SA(const SA<U> &o) : a(o.a) {}
  T *allocate(size_t n) { return static_cast<T *>(a->get(n * sizeof(T), alignof(T))); }
  void deallocate(T *p, size_t n) { a->put(p, n * sizeof(T), alignof(T)); }
  template <class U> bool operator==(const SA<U> &o) const { return a == o.a; }
  template <class U> bool operator!=(const SA<U> &o) const { return a != o.a; }
};
template <class T, class A> static std::pair<pc::promise<T>, pc::future<T>> open(Rng &r, const A &a) {
  if (r.chance(50)) return pc::make_promise<T>(a);
  pc::promise<T> p(std::allocator_arg, a);
  auto f = p.get_future();
  return {std::move(p), std::move(f)};
}
struct Only { // no allocation of the calling thread outside the arena
  uint64_t n;
  long before;
  Only() : n(vs::new_calls()), before(tl_arena) {}
  void check(const char *what) {
    long mine = tl_arena - before; // each arena allocation is one operator new
    uint64_t d = vs::new_calls() - n;
    VS_CHECK(d <= (uint64_t)mine, "%s allocated %ld blocks not through the promise's allocator", what, (long)d - mine);
  }
};

template <class T> static void lifecycle(Rng &r) {
  Arena ar(1), other(2);
  {
    TA<char> al(ar);
    uint64_t n0 = vs::new_calls();
    auto pf = open<T>(r, al);
    VS_CHECK(ar.allocs.get() >= 1, "promise does not use its allocator");
    VS_CHECK(vs::new_calls() - n0 <= (uint64_t)ar.allocs.get(), "the shared state was not taken from the allocator");
    Out o = with_ep(random_out(r, 65, 15));
    int mode = r.below(3);
    Rng cr = r.fork();
    std::thread t;
    pc::promise<T> p = std::move(pf.first);
    if (mode == 0) satisfy(std::move(p), o);
    else t = std::thread([&, p = std::move(p)]() mutable { vs::point(); satisfy(std::move(p), o); });
    if (r.chance(15)) { vs::point(); pf.second = pc::future<T>(); }
    else expect_out(observe<T>(cr, std::move(pf.second)), norm<T>(o), "promise with an allocator");
    if (t.joinable()) t.join();
  }
  VS_CHECK(ar.count() == 0 && ar.allocs.get() == ar.frees.get(), "%zu blocks not returned to the allocator", ar.count());
}
SCEN(life_val, 4) { lifecycle<Val>(r); }
SCEN(life_void, 2) { lifecycle<void>(r); }
SCEN(life_ref, 2) { lifecycle<long &>(r); }
SCEN(life_big, 2) { lifecycle<Big>(r); }

// waiters and detach use the allocator only
SCEN(waiters, 5) {
  Arena ar(1);
  {
    TA<long> al(ar);
    auto pf = open<Val>(r, al);
    auto s = pf.second.share();
    int n = r.range(1, 4);
    std::vector<std::thread> ts;
    std::vector<int> ks;
    for (int i = 0; i < n; i++) ks.push_back(r.below(4));
    Out o = with_ep(random_out(r, 70, 10));
    for (int i = 0; i < n; i++)
      ts.emplace_back([&, i, c = s]() mutable {
        pc::make_ready_future(1).wait(); // what a thread sets up once does not count
        vs::point();
        Only on;
        switch (ks[i]) {
        case 0: c.wait(); on.check("wait()"); break;
        case 1: { auto d = c.detach(); on.check("detach()"); c = std::move(d); break; }
        case 2: if (o.kind == V) { (void)c.get(); on.check("get()"); } break;
        default: c.wait(); c.wait(); on.check("wait() twice"); break;
        }
        expect_out(get(c), o, "get");
      });
    s = pc::shared_future<Val>();
    vs::point();
    satisfy(std::move(pf.first), o);
    for (auto &t : ts) t.join();
  }
  VS_CHECK(ar.count() == 0 && ar.allocs.get() == ar.frees.get(), "%zu blocks not returned to the allocator", ar.count());
}
// every single allocation fails once
SCEN(failures, 5) {
  auto ar = std::make_shared<Arena>(1);
  {
    SA<int> al(ar);
    std::pair<pc::promise<Val>, pc::future<Val>> pf;
    for (int tries = 0;; tries++) {
      if (r.chance(40)) {
        ar->fail_next(0);
        try { pf = open<Val>(r, al); vs::fail("allocation failure did not reach the caller"); } catch (const std::bad_alloc &) {}
        ar->fail_next(-1);
        VS_CHECK(ar->count() == 0, "blocks left after a failed construction");
      }
      pf = open<Val>(r, al);
      break;
    }
    auto s = pf.second.share();
    vs::Cnt notified;
    s.notify([&] { notified.inc(); });
    Out o = with_ep(random_out(r, 70, 10));
    int n = r.range(0, 4);
    size_t live = ar->count();
    for (int i = 0; i < n; i++) {
      ar->fail_next(0);
      bool threw = false;
      try {
        switch (r.below(3)) {
        case 0: s.wait(); break;
        case 1: { auto d = s.detach(); s = d; break; }
        default: (void)s.get(); break;
        }
      } catch (const std::bad_alloc &) { threw = true; }
      bool hit = ar->failed();
      ar->fail_next(-1);
      VS_CHECK(threw == hit, "allocation failure did not reach the caller");
      VS_CHECK(s.valid() && !s.is_ready(), "future damaged by an allocation failure");
      if (threw) VS_CHECK(ar->count() == live, "blocks kept after a failed operation");
      live = ar->count();
      VS_CHECK(pf.first.is_awaiten(), "promise not awaited after a failed operation");
    }
    std::thread t([&, p = std::move(pf.first)]() mutable { vs::point(); satisfy(std::move(p), o); });
    Rng cr = r.fork();
    int k = cr.below(3);
    if (k == 0) expect_out(get(s), o, "get after failures");
    else if (k == 1) { auto g = s.then([](pc::shared_future<Val> f) { return get(f); }); expect_out(get_out(std::move(g)), o, "then after failures"); }
    else { auto d = s.detach(); expect_out(get(d), o, "detach after failures"); }
    t.join();
    VS_CHECK(notified.get() == 1, "notification lost after allocation failures");
  }
  VS_CHECK(ar->count() == 0 && ar->allocs.get() == ar->frees.get(), "%zu blocks not returned to the allocator", ar->count());
  VS_CHECK(ar.use_count() == 1, "allocator copies leaked");
}
// unique futures
SCEN(failures_unique, 3) {
  Arena ar(1);
  {
    TA<double> al(ar);
    auto pf = open<MVal>(r, al);
    int n = r.range(1, 3);
    for (int i = 0; i < n; i++) {
      ar.fail_next(0);
      bool threw = false;
      try {
        switch (r.below(3)) {
        case 0: pf.second.wait(); break;
        case 1: pf.second = pf.second.detach(); break;
        default: (void)pf.second.get(); break;
        }
      } catch (const std::bad_alloc &) { threw = true; }
      bool hit = ar.failed();
      ar.fail_next(-1);
      VS_CHECK(threw == hit, "allocation failure did not reach the caller");
      VS_CHECK(pf.second.valid() && !pf.second.is_ready(), "future damaged by an allocation failure");
    }
    Out o = with_ep(random_out(r, 70, 10));
    std::thread t([&, p = std::move(pf.first)]() mutable { vs::point(); satisfy(std::move(p), o); });
    Rng cr = r.fork();
    expect_out(observe<MVal>(cr, std::move(pf.second)), o, "future after allocation failures");
    t.join();
  }
  VS_CHECK(ar.count() == 0 && ar.allocs.get() == ar.frees.get(), "%zu blocks not returned", ar.count());
}
// several identities at once, connected by continuations: nothing is mixed up
SCEN(identities, 4) {
  std::deque<Arena> as;
  for (int i = 0; i < 3; i++) as.emplace_back(i);
  {
    std::vector<std::pair<pc::promise<Val>, pc::future<Val>>> pf;
    for (int i = 0; i < 3; i++) pf.push_back(open<Val>(r, TA<char>(as[i])));
    for (auto &a : as) VS_CHECK(a.allocs.get() >= 1, "promise does not use its allocator");
    if (r.chance(50)) std::swap(pf[0], pf[2]);
    std::vector<std::thread> ts;
    Out o[3];
    for (auto &x : o) x = with_ep(random_out(r, 65, 15));
    auto s1 = pf[1].second.share();
    auto chain = pf[0].second.then([s1](pc::future<Val> f) { Out x = get(f); (void)x; return s1; });
    auto d = pf[2].second.detach();
    if (r.chance(50)) d = pc::future<Val>();
    for (int i = 0; i < 3; i++) ts.emplace_back([&, i, p = std::move(pf[i].first)]() mutable { vs::point(); satisfy(std::move(p), o[i]); });
    pf.clear();
    s1.wait();
    expect_out(get(chain), o[1], "chained over allocators");
    expect_out(get(s1), o[1], "shared");
    if (d.valid()) expect_out(get(d), o[2], "detached");
    for (auto &t : ts) t.join();
  }
  for (auto &a : as) VS_CHECK(a.count() == 0 && a.allocs.get() == a.frees.get(), "%zu blocks not returned to their allocator", a.count());
}
// the promise dies first, the futures first, or everything is dropped pending with waiters registered
SCEN_F(drop_orders, 4, vs::SEQ) {
  Arena ar(1);
  {
    TA<char> al(ar);
    std::unique_ptr<pc::promise<Val>> p(new pc::promise<Val>(std::allocator_arg, al));
    bool take = r.chance(80);
    pc::future<Val> f;
    if (take) f = p->get_future();
    pc::shared_future<Val> s;
    std::vector<pc::future<void>> cs;
    int n = r.range(0, 7);
    bool sat = false;
    for (int i = 0; i < n; i++)
      switch (r.below(8)) {
      case 0: if (p && !sat) { p->set_value(Val(4)); sat = true; } break;
      case 1: if (f.valid()) { f = f.detach(); } break;
      case 2: if (f.valid()) s = f.share(); break;
      case 3: if (s.valid()) cs.push_back(s.then([](pc::shared_future<Val>) {})); break;
      case 4: if (s.valid()) { auto c = s; s = c.detach(); } break;
      case 5: if (s.valid()) s.notify([l = Life()] {}); break;
      case 6: if (f.valid()) { pc::timed_waiter w(f); (void)w.wait_for(std::chrono::nanoseconds(0)); } break;
      default: if (r.chance(30)) p.reset(); else if (r.chance(30)) { f = pc::future<Val>(); s = pc::shared_future<Val>(); } break;
      }
    switch (r.below(3)) {
    case 0: p.reset(); f = pc::future<Val>(); s = pc::shared_future<Val>(); cs.clear(); break;
    case 1: f = pc::future<Val>(); s = pc::shared_future<Val>(); cs.clear(); p.reset(); break;
    default: cs.clear(); p.reset(); break;
    }
  }
  VS_CHECK(ar.count() == 0 && ar.allocs.get() == ar.frees.get(), "%zu blocks not returned to the allocator", ar.count());
}
