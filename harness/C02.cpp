#define TK_MAIN
#include "prod.h"
using namespace tk;

// Plain (unsynchronised) memory written before the outcome is produced and read by the observer:
// only the library can order the accesses.
struct Side {
  long *data;
  long want;
  vs::Cnt reads;
  explicit Side(long w) : data(new long[4]()), want(w) {}
  ~Side() { delete[] data; }
  void write() { for (int i = 0; i < 4; i++) data[i] = want + i; }
  void read(const char *how) {
    for (int i = 0; i < 4; i++) VS_CHECK(data[i] == want + i, "%s: observer saw %ld instead of %ld written before the outcome was produced", how, data[i], want + i);
    reads.inc();
  }
};

template <class T, class F> static pc::future<void> next_void(F &f, Side *s) {
  return NextOut<T>::of(std::move(f)).next([s](Out) { s->read("next"); });
}
static void swallow(pc::future<void> f) { try { f.get(); } catch (...) {} }

// one observation; returns after it was made. `value`: the outcome will be a value
template <class T> static void look(Rng &r, pc::future<T> f, Side *s, Execs &ex, bool value) {
  switch (r.below(14)) {
  case 0: (void)get(f); s->read("get"); break;
  case 1: f.wait(); s->read("wait"); break;
  case 2: while (!f.is_ready()) std::this_thread::yield(); s->read("is_ready"); break;
  case 3: { pc::timed_waiter w(f); while (w.wait_for(std::chrono::milliseconds(1)) != pc::future_status::ready) {} s->read("timed_waiter"); break; }
  case 4: while (f.wait_for(std::chrono::milliseconds(1)) != pc::future_status::ready) {} s->read("wait_for"); break;
  case 5: { vs::Cnt done; f.notify([s, d = &done] { s->read("notify"); d->inc(); }); while (!done.get()) std::this_thread::yield(); f.wait(); break; }
  case 6: swallow(f.then([s](pc::future<T>) { s->read("then"); })); break;
  case 7: swallow(f.then(ex.any(r, false), [s](pc::future<T> x) { s->read("then on executor"); (void)get(x); })); break;
  case 8: { auto g = NextOut<T>::of(std::move(f)).then(ex.any(r, false), [s](pc::future<Out>) { s->read("next then"); }); swallow(std::move(g)); break; }
  case 9: swallow(pc::when_all(std::move(f), pc::make_ready_future(1L)).then([s](auto) { s->read("when_all"); })); break;
  case 10: { std::vector<pc::future<T>> v; v.push_back(std::move(f)); swallow(pc::when_any(std::move(v)).then([s](auto) { s->read("when_any"); })); break; }
  case 11: { auto g = f.then([](pc::future<T> x) { return x; }); while (!g.is_ready()) std::this_thread::yield(); s->read("unwrapped is_ready"); break; }
  case 12: { auto g = pc::make_ready_future().then([&f](pc::future<void>) { return std::move(f); }); g.wait(); s->read("unwrapped wait"); break; }
  default: { vs::Cnt done; f.notify(ex.any(r, false), [s, d = &done] { s->read("notify on executor"); d->inc(); }); while (!done.get()) std::this_thread::yield(); f.wait(); (void)value; break; }
  }
}
template <class T> static void publish(Rng &r) {
  Producer<T> p = make_producer<T>(r);
  Out o = random_out(r, 60, 20);
  Side s(r.range(1, 1000));
  Execs ex;
  Rng cr = r.fork();
  {
    std::thread t([&] { vs::point(); s.write(); p.impl->fire(o); });
    look(cr, std::move(p.fut), &s, ex, o.kind == V);
    t.join();
  }
  ex.finish();
  VS_CHECK(s.reads.get() == 1, "%s: observation did not happen", p.name);
}
SCEN(publish_val, 4) { publish<Val>(r); }
SCEN(publish_void, 3) { publish<void>(r); }

// many observers through their own copies
template <class T> static void look_shared(Rng &r, pc::shared_future<T> f, Side *s, Ex ex) {
  int n = r.range(1, 2);
  for (int i = 0; i < n; i++) {
    switch (r.below(11)) {
    case 0: (void)get(f); s->read("get"); break;
    case 1: f.wait(); s->read("wait"); break;
    case 2: if (f.is_ready()) { s->read("is_ready"); vs::cover("polled-ready"); } break;
    case 3: { pc::timed_waiter w(f); if (w.wait_for(std::chrono::milliseconds(1)) == pc::future_status::ready) s->read("timed_waiter"); break; }
    case 4: if (f.wait_for(std::chrono::seconds(0)) == pc::future_status::ready) { s->read("wait_for(0)"); vs::cover("polled-ready-0"); } break;
    case 5: f.notify([s] { s->read("notify"); }); break;
    case 6: swallow(f.then(ex, [s](pc::shared_future<T> x) { s->read("then"); (void)get(x); })); break;
    case 7: { pc::shared_future<T> c = f; f = c; c = pc::shared_future<T>(); break; }
    case 8: (void)f.then([s](pc::shared_future<T>) { s->read("detached then"); }).detach(); break;
    case 9: f = f.detach(); break;
    default: { auto g = pc::when_any(f, pc::shared_future<T>(f)); swallow(g.then([s](auto) { s->read("when_any"); })); }
    }
  }
}
template <class T> static void publish_shared(Rng &r) {
  auto p = make_producer<T>(r);
  Out o = random_out(r, 60, 20);
  Side s(r.range(1, 1000));
  Execs ex;
  auto sf = p.fut.share();
  int n = r.range(2, 3);
  std::vector<std::thread> ts;
  for (int i = 0; i < n; i++) {
    Rng cr = r.fork();
    Ex e = ex.any(r, false);
    ts.emplace_back([&s, e, sf, cr]() mutable { look_shared(cr, std::move(sf), &s, e); });
  }
  bool drop_early = r.chance(50);
  if (drop_early) sf = pc::shared_future<T>();
  s.write();
  p.impl->fire(o);
  if (!drop_early && r.chance(50)) { if (sf.is_ready()) s.read("producer"); }
  sf = pc::shared_future<T>();
  for (auto &t : ts) t.join();
  ex.finish();
}
SCEN(shared_val, 3) { publish_shared<Val>(r); }
SCEN(shared_void, 2) { publish_shared<void>(r); }

// effects of every stage are visible to all later stages of a chain, whatever runs them
SCEN(chain_hops, 3) {
  auto pf = pc::make_promise<Val>();
  Execs ex;
  std::vector<long> log; // plain
  int n = r.range(2, 4);
  pc::future<Val> f = std::move(pf.second);
  auto stage = [&](int i) { return [&log, i](Val v) { VS_CHECK((int)log.size() == i, "stage %d sees %zu earlier stages", i, log.size()); log.push_back(v.id()); return Val(v.id() + 1); }; };
  Rng ar = r.fork();
  std::thread t([&] { vs::point(); pf.first.set_value(Val(5)); });
  for (int i = 0; i < n; i++) {
    Ex e = ex.any(ar, false);
    switch (ar.below(3)) {
    case 0: f = f.next(e, stage(i)); break;
    case 1: f = f.then(e, [st = stage(i)](pc::future<Val> x) { return st(x.get()); }); break;
    default: f = f.next(stage(i));
    }
  }
  Val v = f.get();
  VS_CHECK((int)log.size() == n && v.id() == 5 + n, "chain result not visible");
  for (int i = 0; i < n; i++) VS_CHECK(log[i] == 5 + i, "stage effects not visible");
  t.join();
  ex.finish();
}

// pool: post -> body -> wait()
SCEN(pool_publish, 4) {
  int workers = r.range(1, 3), posters = r.range(1, 2), per = r.range(1, 3);
  int total = (posters + 1) * per;
  std::vector<long> in(total), out(total);
  bool attach = r.chance(30);
  pc::static_thread_pool pool(workers);
  auto e = pool.executor();
  std::thread at;
  if (attach) at = std::thread([&] { pool.attach(); });
  auto job = [&](int i) { in[i] = i + 100; adl::do_post(e, [&in, &out, i, v = Val(i)] { VS_CHECK(v.id() == i, "capture damaged"); out[i] = in[i] + 1; }); };
  std::vector<std::thread> ts;
  for (int p = 0; p < posters; p++) ts.emplace_back([&, p] { for (int k = 0; k < per; k++) job((p + 1) * per + k); });
  for (int k = 0; k < per; k++) job(k);
  for (auto &t : ts) t.join();
  pool.wait();
  for (int i = 0; i < total; i++) VS_CHECK(out[i] == i + 101, "effect of task %d not visible after wait()", i);
  if (attach) at.join();
}
// one worker: tasks run in order, each sees the effects of the previous one
SCEN(pool_serial, 1) {
  pc::static_thread_pool pool(1);
  auto e = pool.executor();
  long acc = 0; // plain
  int n = r.range(2, 4);
  for (int i = 0; i < n; i++) adl::do_post(e, [&acc, i] { VS_CHECK(acc == i, "task %d sees %ld", i, acc); acc++; });
  pool.wait();
  VS_CHECK(acc == n, "effects of tasks not visible after wait()");
}
// latch: count-downs -> released waiters
SCEN(latch_publish, 3) {
  int parts = r.range(1, 3), waiters = r.range(0, 2);
  pc::latch l(parts);
  std::vector<long> data(parts);
  auto check = [&](const char *how) { for (int i = 0; i < parts; i++) VS_CHECK(data[i] == i + 7, "%s: contribution %d not visible", how, i); };
  std::vector<std::thread> ts;
  for (int i = 0; i < parts; i++) {
    int kind = r.below(3);
    ts.emplace_back([&, i, kind] {
      data[i] = i + 7;
      if (kind == 0) { l.count_down_and_wait(); check("count_down_and_wait"); }
      else { l.count_down(); if (kind == 1 && l.is_ready()) check("is_ready"); }
    });
  }
  for (int i = 0; i < waiters; i++) ts.emplace_back([&] { l.wait(); check("wait"); });
  if (r.chance(50)) { while (!l.is_ready()) std::this_thread::yield(); check("is_ready"); }
  else { l.wait(); check("wait"); }
  for (auto &t : ts) t.join();
}
// whoever drops the last handle destroys the objects: no race with their construction or use
SCEN(drop_race, 3) {
  struct Cap { Val v; long *seen; };
  long seen = 0;
  auto pf = pc::make_promise<Val>();
  int kind = r.below(4);
  Val cap(3);
  pc::future<long> g;
  pc::shared_future<Val> sf;
  switch (kind) {
  case 0: g = pf.second.next([c = std::move(cap)](Val v) { return v.id() + c.id(); }); break;
  case 1: g = pf.second.then([c = std::move(cap)](pc::future<Val> v) { return v.get().id() + c.id(); }); break;
  case 2: sf = pf.second.share(); g = sf.next([c = std::move(cap)](const Val &v) { return v.id() + c.id(); }); break;
  default: sf = pf.second.share(); sf.notify([c = std::make_shared<Val>(4)] { VS_CHECK(c->id() == 4, "capture damaged"); });
  }
  int setter_kind = r.below(3);
  std::thread t([&] {
    vs::point();
    pc::promise<Val> p(std::move(pf.first));
    if (setter_kind == 0) p.set_value(Val(9));
    else if (setter_kind == 1) p.set_exception(make_exc(E_NONSTD, 4));
  });
  std::thread t2;
  if (sf.valid() && r.chance(50)) t2 = std::thread([c = sf]() mutable { vs::point(); c = pc::shared_future<Val>(); });
  g = pc::future<long>();
  sf = pc::shared_future<Val>();
  t.join();
  if (t2.joinable()) t2.join();
  (void)seen;
}
// distinct when_any / when_all inputs completed from different threads
SCEN(combine_publish, 3) {
  int n = r.range(2, 3);
  std::vector<pc::promise<Val>> ps;
  std::vector<pc::future<Val>> fs;
  std::vector<long> data(n);
  for (int i = 0; i < n; i++) { auto x = pc::make_promise<Val>(); ps.push_back(std::move(x.first)); fs.push_back(std::move(x.second)); }
  bool any = r.chance(50);
  vs::Cnt checked;
  pc::future<std::vector<pc::future<Val>>> fa;
  pc::future<pc::when_any_result<std::vector<pc::future<Val>>>> fy;
  if (any) fy = pc::when_any(std::move(fs)); else fa = pc::when_all(std::move(fs));
  std::vector<std::thread> ts;
  std::vector<int> how;
  for (int i = 0; i < n; i++) how.push_back(r.below(3));
  for (int i = 0; i < n; i++) ts.emplace_back([&, i] {
    data[i] = i + 1;
    pc::promise<Val> p(std::move(ps[i]));
    if (how[i] == 0) p.set_value(Val(i)); else if (how[i] == 1) p.set_exception(make_exc(E_CUSTOM, i));
  });
  if (any) {
    if (r.chance(30)) while (!fy.is_ready()) std::this_thread::yield();
    auto res = fy.get();
    VS_CHECK(data[res.index] == (long)res.index + 1, "effects before the winning input not visible");
    for (int i = 0; i < n; i++) if (res.futures[i].is_ready()) VS_CHECK(data[i] == i + 1, "effects before a ready input not visible");
  } else {
    if (r.chance(30)) while (!fa.is_ready()) std::this_thread::yield();
    auto v = fa.get();
    for (int i = 0; i < n; i++) VS_CHECK(data[i] == i + 1, "effects before input %d not visible to the observer of when_all", i);
  }
  for (auto &t : ts) t.join();
}
