#define TK_MAIN
#include "C23.h"
SCEN(val_to_val, 4) { interruptible<Val, Val>(r); }
SCEN(void_to_val, 2) { interruptible<void, Val>(r); }

// the result is available as soon as it is set, even though the continuation is still running
SCEN(early, 4) {
  auto pr = pc::make_promise<Val>();
  pc::latch consumed(1);
  vs::Cnt running, released;
  bool sh = r.chance(40);
  bool exc = r.chance(30);
  auto go = [&](pc::promise<long> p) {
    running.inc();
    if (exc) p.set_exception(make_exc(E_CUSTOM, 4)); else p.set_value(4);
    consumed.wait(); // the consumer gets the result while we are here
    released.inc();
  };
  pc::future<long> f;
  if (sh) { auto s = pr.second.share(); f = s.then([&](pc::promise<long> p, pc::shared_future<Val>) { go(std::move(p)); }); }
  else f = pr.second.then([&](pc::promise<long> p, pc::future<Val>) { go(std::move(p)); });
  std::thread t([&] { vs::point(); satisfy(std::move(pr.first), Out(V, 3)); });
  int how = r.below(4);
  Out o;
  if (how == 0) o = get(f);
  else if (how == 1) { while (!f.is_ready()) std::this_thread::yield(); o = get(f); }
  else if (how == 2) { auto g = f.then([](pc::future<long> x) { return get(x); }); o = get_out(std::move(g)); }
  else { f.wait(); o = get(f); }
  VS_CHECK(released.get() == 0, "result became available only after the continuation returned");
  VS_CHECK(exc ? o.kind == E_CUSTOM : o.kind == V && o.id == 4, "outcome %s", o.str());
  consumed.count_down();
  t.join();
  VS_CHECK(running.get() == 1 && released.get() == 1, "continuation did not run exactly once");
}
// is_awaiten follows the result while the continuation is running
SCEN(notices_drop, 5) {
  auto pr = pc::make_promise<Val>();
  vs::Cnt started, dropped, runs, done;
  pc::latch may_drop(1);
  bool sh = r.chance(40);
  int end = r.below(3);
  auto go = [&](pc::promise<Val> p) {
    if (runs.inc() > 1) vs::fail("ran twice");
    VS_CHECK(p.is_awaiten(), "promise not awaited although the result is still referenced");
    may_drop.count_down();
    bool was = true;
    while (true) {
      bool d = dropped.get() != 0;
      bool a = p.is_awaiten();
      if (d && a) vs::fail("is_awaiten() is true after the result was dropped");
      if (a && !was) vs::fail("is_awaiten() turned back to true");
      was = a;
      if (!a) break;
      std::this_thread::yield();
    }
    // nobody is interested any more: everything is a no-op
    if (end == 0) p.set_value(Val(1));
    if (end == 1) { p.set_exception(make_exc(E_STD, 1)); p.set_value(Val(2)); }
    VS_CHECK(!p.is_awaiten(), "is_awaiten() turned back to true");
    done.inc();
  };
  pc::future<Val> f;
  Execs ex;
  Ex e = ex.any(r, false);
  if (sh) { auto s = pr.second.share(); f = s.then(e, [&](pc::promise<Val> p, pc::shared_future<Val>) { go(std::move(p)); }); }
  else f = pr.second.then(e, [&](pc::promise<Val> p, pc::future<Val>) { go(std::move(p)); });
  std::vector<pc::shared_future<Val>> copies;
  pc::future<void> chain;
  int keep = r.below(3);
  std::thread t([&] { vs::point(); satisfy(std::move(pr.first), Out(V, 3)); });
  may_drop.wait();
  if (keep == 0) f = pc::future<Val>();
  else if (keep == 1) { auto s = f.share(); copies.assign(2, s); s = pc::shared_future<Val>(); copies.clear(); }
  else { chain = f.then([](pc::future<Val>) {}); vs::point(); chain = pc::future<void>(); }
  dropped.set(1);
  t.join();
  ex.finish();
  VS_CHECK(done.get() == 1, "continuation did not finish");
}
// not started when the result is dropped first; promise stored away lives on independently of everything else
SCEN(outlives, 4) {
  IntState st;
  auto box = std::make_shared<Box<Val>>();
  pc::future<Val> f;
  {
    auto pr = pc::make_promise<Val>();
    f = pr.second.then([&st, box, t = Tok(st.fn_alive)](pc::promise<Val> p, pc::future<Val> x) { st.runs.inc(); VS_CHECK(x.get().id() == 3, "parent"); box->put(std::move(p)); });
    std::thread t([&] { vs::point(); satisfy(std::move(pr.first), Out(V, 3)); });
    t.join();
  }
  VS_CHECK(st.runs.get() == 1, "continuation ran %ld times", st.runs.get());
  VS_CHECK(!f.is_ready(), "result ready although its promise is pending");
  Out want = with_ep(random_out(r, 60, 20));
  int how = r.below(3);
  std::thread t2([&] {
    pc::promise<Val> p = box->take();
    VS_CHECK(p.is_awaiten(), "pending result not awaited");
    if (how == 0) { pc::promise<Val> q; q = std::move(p); satisfy(std::move(q), want); }
    else if (how == 1 && want.kind == BROKEN) p = pc::promise<Val>();
    else satisfy(std::move(p), want);
  });
  Rng cr = r.fork();
  Out o = observe<Val>(cr, std::move(f));
  t2.join();
  expect_out(o, want, "result set after the continuation returned");
  VS_CHECK(st.fn_alive.get() == 0, "continuation function alive");
}
SCEN(cancelled_before, 3) {
  IntState st;
  auto pr = pc::make_promise<Val>();
  auto s = pr.second.share();
  QueueEx q;
  bool use_q = r.chance(50);
  auto fn = [&st, t = Tok(st.fn_alive)](pc::promise<Val> p, pc::shared_future<Val> x) { st.runs.inc(); p.set_value(Val(x.get().id())); };
  pc::future<Val> f = use_q ? s.then(Ex{&q}, std::move(fn)) : s.then(std::move(fn));
  if (r.chance(50)) s = pc::shared_future<Val>();
  bool raced = r.chance(50);
  std::thread t([&] { vs::point(); if (!raced) f = pc::future<Val>(); satisfy(std::move(pr.first), Out(V, 3)); });
  if (raced) { vs::point(); f = pc::future<Val>(); }
  t.join();
  q.run_all();
  if (!raced || use_q) VS_CHECK(st.runs.get() == 0, "cancelled interruptible continuation ran");
  VS_CHECK(st.runs.get() <= 1, "ran twice");
  q.drop_all();
  VS_CHECK(st.fn_alive.get() == 0, "continuation function leaked");
}
// dropped by the executor
SCEN(executor_drops, 2) {
  IntState st;
  auto pr = pc::make_promise<Val>();
  QueueEx q;
  pc::future<long &> f = pr.second.then(Ex{&q}, [&st, t = Tok(st.fn_alive)](pc::promise<long &> p, pc::future<Val>) { st.runs.inc(); p.set_value(g_refs[1]); });
  std::thread t([&] { vs::point(); satisfy(std::move(pr.first), Out(V, 3)); q.drop_all(); });
  Out o = get(f);
  t.join();
  VS_CHECK(o.kind == BROKEN && st.runs.get() == 0, "outcome %s, ran %ld times", o.str(), st.runs.get());
  VS_CHECK(st.fn_alive.get() == 0, "continuation function leaked");
}
// a chain of interruptible continuations
SCEN(chain, 3) {
  auto pr = pc::make_promise<long>();
  int n = r.range(1, 4);
  pc::future<long> f = std::move(pr.second);
  Execs ex;
  vs::Cnt runs;
  for (int i = 0; i < n; i++) {
    bool thr = r.chance(30);
    auto fn = [&runs, thr](pc::promise<long> p, pc::future<long> x) {
      runs.inc();
      Out o = get(x);
      if (o.kind == V) o.id++;
      if (thr) { std::thread([p = std::move(p), o]() mutable { vs::point(); set_once(p, o); }).join(); }
      else set_once(p, o);
    };
    if (r.chance(50)) f = f.then(ex.any(r, false), fn); else f = f.then(fn);
    if (r.chance(30)) f = f.next([](long x) { return x; });
  }
  Out o = random_out(r, 70, 0);
  std::thread t([&] { vs::point(); satisfy(std::move(pr.first), o); });
  Out got = get(f);
  t.join();
  ex.finish();
  if (o.kind == V) o.id += n;
  expect_out(got, o, "chain of interruptible continuations");
  VS_CHECK(runs.get() == n, "%ld continuations ran", runs.get());
}
