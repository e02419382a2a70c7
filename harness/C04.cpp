#define TK_MAIN
#include "prod.h"
using namespace tk;

// many waiters of different kinds, every one must be released with the outcome
template <class T> static Out wait_kind(Rng &r, pc::shared_future<T> f, vs::Cnt &fired) {
  using namespace std::chrono;
  int k = r.below(8);
  switch (k) {
  case 0: return get(f);
  case 1: f.wait(); break;
  // under the controlled scheduler hours can pass; giving up is right only then
  case 2: { auto end = steady_clock::now() + hours(1); while (f.wait_for(hours(1)) != pc::future_status::ready) { VS_CHECK(steady_clock::now() >= end, "timed wait gave up early"); end = steady_clock::now() + hours(1); } break; }
  case 3: { pc::timed_waiter w(f); auto end = steady_clock::now() + hours(1); while (w.wait_until(end) != pc::future_status::ready) { VS_CHECK(steady_clock::now() >= end, "timed wait gave up early"); end = steady_clock::now() + hours(1); } break; }
  case 4: { pc::timed_waiter w(f); auto w2 = w; (void)w2.wait_for(milliseconds(1)); f.wait(); break; }
  case 5: { auto g = f.then([](pc::shared_future<T> x) { return x.is_ready(); }); VS_CHECK(g.get(), "unready"); break; }
  case 6: { auto g = pc::when_all(f, f); g.wait(); break; }
  default: { auto never = pc::make_promise<int>(); auto g = pc::when_any(f, std::move(never.second)); g.wait(); break; }
  }
  VS_CHECK(fired.get(), "waiter (kind %d) released before the outcome was produced", k);
  VS_CHECK(f.is_ready(), "waiter (kind %d) released but future not ready", k);
  return get(f);
}
template <class T> static void waiters(Rng &r) {
  Producer<T> p = make_producer<T>(r);
  auto sf = p.fut.share();
  Out o = random_out(r, 50, 25);
  vs::Cnt fired;
  int n = r.range(1, 4);
  std::vector<std::thread> ts;
  for (int i = 0; i < n; i++) ts.emplace_back([&fired, &o, sf, q = r.fork()]() mutable {
    int times = q.range(1, 2);
    for (int k = 0; k < times; k++) expect_out(wait_kind(q, sf, fired), norm<T>(o), "waiter");
  });
  if (r.chance(30)) sf = pc::shared_future<T>();
  if (r.chance(30)) vs::quiesce(); // everybody is blocked already
  fired.set(1);
  p.impl->fire(o);
  for (auto &t : ts) t.join();
}
SCEN(waiters_val, 4) { waiters<Val>(r); }
SCEN(waiters_void, 3) { waiters<void>(r); }

// unique future: waiting twice, timed then untimed
SCEN(unique_waiter, 2) {
  using namespace std::chrono;
  Producer<MVal> p = make_producer<MVal>(r);
  Out o = with_ep(random_out(r, 50, 25));
  std::thread t([&] { vs::point(); p.impl->fire(o); });
  for (int i = r.range(0, 3); i > 0; i--) switch (r.below(4)) {
    case 0: (void)p.fut.wait_for(milliseconds(1)); break;
    case 1: (void)p.fut.wait_until(steady_clock::now() - seconds(1)); break;
    case 2: p.fut.wait(); break;
    default: { pc::timed_waiter w(p.fut); (void)w.wait_for(microseconds(10)); }
  }
  expect_out(get(p.fut), o, p.name);
  t.join();
}

// ---- calls into the library made from places where the library is already active
struct OnDie { // runs an action when the (last) object dies
  Life l;
  std::function<void()> f;
  OnDie() = default;
  explicit OnDie(std::function<void()> g) : f(std::move(g)) {}
  OnDie(OnDie &&o) noexcept : f(std::move(o.f)) { o.f = nullptr; }
  OnDie &operator=(OnDie &&o) noexcept { fire(); f = std::move(o.f); o.f = nullptr; return *this; }
  void fire() { if (f) { auto g = std::move(f); f = nullptr; g(); } }
  ~OnDie() { fire(); }
};

struct World { // objects the nested actions may touch, all finished by the end
  Rng r;
  std::mutex m;
  pc::static_thread_pool pool;
  pc::shared_future<Val> ready, pending;
  pc::promise<Val> pend;
  std::vector<pc::promise<Val>> ps;
  std::vector<pc::shared_future<Val>> fs;
  std::vector<pc::future<void>> keep;
  vs::Cnt actions;
  explicit World(Rng q, int workers) : r(q), pool(workers) {
    ready = pc::make_ready_future(Val(1)).share();
    auto x = pc::make_promise<Val>();
    pend = std::move(x.first);
    pending = x.second.share();
    for (int i = 0; i < 12; i++) { auto y = pc::make_promise<Val>(); ps.push_back(std::move(y.first)); fs.push_back(y.second.share()); }
  }
  // some library call; never waits for anything that is not guaranteed to be produced
  void nested(int what, pc::shared_future<Val> *own) {
    actions.inc();
    switch (what % 11) {
    case 0: { pc::promise<Val> p; { std::lock_guard<std::mutex> g(m); if (ps.empty()) return; p = std::move(ps.back()); ps.pop_back(); } p.set_value(Val(2)); break; }
    case 1: { pc::promise<Val> p; { std::lock_guard<std::mutex> g(m); if (ps.empty()) return; p = std::move(ps.back()); ps.pop_back(); } break; } // abandoned
    case 2: adl::do_post(pool.executor(), [this] { actions.inc(); }); break;
    case 3: adl::do_post(pool.executor(), [d = OnDie([this] { actions.inc(); })] {}); break;
    case 4: VS_CHECK(ready.get().id() == 1, "ready future"); ready.wait(); break;
    case 5: { pc::shared_future<Val> c; { std::lock_guard<std::mutex> g(m); c = pending; } c.notify([this] { actions.inc(); }); break; }
    case 6: { pc::shared_future<Val> f; std::lock_guard<std::mutex> g(m); if (fs.empty()) return; f = std::move(fs.back()); fs.pop_back(); break; } // dropped
    case 7: if (own && own->valid()) { own->wait(); own->notify([this] { actions.inc(); }); (void)own->then([](pc::shared_future<Val> x) { x.wait(); }).detach(); } break;
    case 8: { auto x = pc::make_promise<Val>(); auto g = x.second.next([](Val v) { return v; }); x.first.set_value(Val(3)); VS_CHECK(g.get().id() == 3, "nested"); break; }
    case 9: { auto f = pc::async(pool.executor(), [this] { actions.inc(); }); (void)f.detach(); break; }
    default: { pc::latch l(1); l.count_down(); l.wait(); auto f = pc::when_any(ready, pending); f.wait(); }
    }
  }
  void finish() {
    pend.set_value(Val(4));
    std::vector<pc::promise<Val>> a;
    std::vector<pc::shared_future<Val>> b;
    { std::lock_guard<std::mutex> g(m); a.swap(ps); b.swap(fs); }
    a.clear();
    b.clear();
    pool.wait();
  }
};
SCEN(reentrant, 5) {
  World w(r.fork(), r.range(1, 2));
  auto pf = pc::make_promise<Val>(pc::canceler_arg, [&w, a = r.below(11)] { w.nested(a, nullptr); });
  pc::shared_future<Val> sf = pf.second.share();
  std::vector<pc::future<void>> keep;
  int n = r.range(1, 4);
  for (int i = 0; i < n; i++) {
    int a = r.below(11), b = r.below(11);
    bool die = r.chance(40);
    auto fn = [&w, a, b, d = OnDie(die ? std::function<void()>([&w, b] { w.nested(b, nullptr); }) : nullptr)](pc::shared_future<Val> x) mutable { w.nested(a, &x); };
    switch (r.below(5)) {
    case 0: keep.push_back(sf.then(std::move(fn))); break;
    case 1: keep.push_back(sf.then(w.pool.executor(), std::move(fn))); break;
    case 2: (void)sf.then(std::move(fn)).detach(); break;
    case 3: { auto *c = new pc::shared_future<Val>(sf); sf.notify([&w, a, p = std::shared_ptr<pc::shared_future<Val>>(c)] { auto own = *p; *p = pc::shared_future<Val>(); w.nested(a, &own); }); break; }
    default: keep.push_back(sf.then([&w, a](pc::promise<void> p, pc::shared_future<Val> x) { w.nested(a, &x); p.set_value(); w.nested(a + 1, &x); }));
    }
  }
  std::vector<std::thread> ts;
  ts.emplace_back([&w, a = r.below(11)] { w.nested(a, nullptr); });
  if (r.chance(50)) ts.emplace_back([sf, &w, a = r.below(11)]() mutable { w.nested(a, &w.ready); sf.wait(); sf = pc::shared_future<Val>(); });
  int mode = r.below(4);
  if (mode == 3 && ts.size() == 1) { keep.clear(); sf = pc::shared_future<Val>(); } // everything dropped: cancel action runs nested calls
  else if (mode == 0) { if (r.chance(50)) sf = pc::shared_future<Val>(); pf.first = pc::promise<Val>(); }
  else if (mode == 1) { pf.first.set_exception(make_exc(E_CUSTOM, 1)); }
  else { if (r.chance(50)) keep.clear(); pf.first.set_value(Val(9)); }
  { pc::promise<Val> gone(std::move(pf.first)); }
  for (auto &t : ts) t.join();
  sf = pc::shared_future<Val>();
  w.finish();
  keep.clear();
}

// destructors of stored values and captured state call the library
SCEN(dying_values, 3) {
  World w(r.fork(), 1);
  std::vector<int> a;
  for (int i = 0; i < 4; i++) a.push_back(r.below(11));
  auto pf = pc::make_promise<OnDie>();
  auto act = [&](int i) { return [&w, k = a[i]] { w.nested(k, nullptr); }; };
  pc::future<void> g;
  switch (r.below(6)) {
  case 0: g = pf.second.next([](OnDie) {}); break;
  case 1: g = pf.second.then([](pc::future<OnDie> x) { try { OnDie d = x.get(); } catch (...) {} }); break;
  case 2: g = pf.second.then(w.pool.executor(), [d = OnDie(act(1))](pc::future<OnDie> x) { try { OnDie d2 = x.get(); } catch (...) {} }); break;
  case 3: { auto sf = pf.second.share(); g = sf.next([d = OnDie(act(1))](const OnDie &) {}); break; }
  case 4: { auto sf = pf.second.share(); sf.notify([d = std::make_shared<OnDie>(act(2))] {}); g = sf.then([](auto) {}); break; }
  default: g = pc::when_all(std::move(pf.second)).then([](auto) {});
  }
  std::thread t([&, k = r.below(3)] {
    vs::point();
    pc::promise<OnDie> p(std::move(pf.first));
    if (k == 0) p.set_value(OnDie(act(0)));
    else if (k == 1) p.set_exception(make_exc(E_CUSTOM, 1));
  });
  if (r.chance(50)) g = pc::future<void>();
  else if (r.chance(50)) { try { g.get(); } catch (...) {} }
  t.join();
  g = pc::future<void>();
  w.finish();
}

// tasks whose captured state uses the pool while it is destroyed, workers going idle in between
SCEN(pool_captures, 3) {
  pc::static_thread_pool pool(r.range(1, 2));
  vs::Cnt ran;
  int n = r.range(1, 3);
  long expect = 0;
  auto e = pool.executor();
  pc::promise<Val> pr;
  auto fut = pr.get_future().share();
  for (int i = 0; i < n; i++) {
    int k = r.below(4);
    switch (k) {
    case 0: adl::do_post(e, [&ran, d = OnDie([e, &ran] { adl::do_post(e, [&ran] { ran.inc(); }); })] { ran.inc(); }); expect += 2; break;
    case 1: adl::do_post(e, [&ran, p = std::make_shared<pc::promise<Val>>(std::move(pr))] { ran.inc(); }); expect++; pr = pc::promise<Val>(); break; // the promise dies with the task
    case 2: { auto f = pc::async(e, [&ran, d = OnDie([e, &ran] { adl::do_post(e, [&ran] { ran.inc(); }); })] { ran.inc(); }); expect += 2; f.get(); break; }
    default: adl::do_post(e, [&ran, e] { ran.inc(); adl::do_post(e, [&ran] { ran.inc(); }); }); expect += 2;
    }
    if (r.chance(30)) vs::point();
  }
  pr = pc::promise<Val>();
  Out o = get(fut); // released although the pool never gets another task
  VS_CHECK(o.kind == BROKEN, "unexpected outcome %s", o.str());
  while (ran.get() < expect) std::this_thread::yield();
  pool.wait();
  // offered too late: discarded, and so are the tasks posted by their dying captures
  for (int i = r.below(3); i > 0; i--) adl::do_post(e, [&ran, d = OnDie([e, &ran] { adl::do_post(e, [&ran] { ran.inc(); }); })] { ran.inc(); });
  VS_CHECK(ran.get() == expect, "%ld task bodies ran, expected %ld", ran.get(), expect);
}

// pools waiting for each other's work
SCEN(two_pools, 2) {
  pc::static_thread_pool a(1), b(1);
  auto f = pc::async(a.executor(), [&] { return pc::async(b.executor(), [] { return 5; }).get(); });
  auto g = pc::async(b.executor(), [] { return 1; }).then(a.executor(), [](pc::future<int> x) { return x.get() + 1; });
  VS_CHECK(f.get() == 5 && g.get() == 2, "wrong results");
  if (r.chance(50)) { a.stop(); }
  if (r.chance(50)) { b.wait(); a.wait(); }
}
