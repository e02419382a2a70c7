#define TK_MAIN
#include "prod.h"
#include "matscen.h"
using namespace tk;

// every kind of producer disappears, at any moment relative to the consumer
template <class T> static void abandon(Rng &r) {
  Producer<T> p = make_producer<T>(r);
  int mode = r.below(3);
  Rng cr = r.fork();
  Out want{BROKEN, 0}, got;
  vs::Cnt fired;
  if (mode == 0) {
    p.impl->fire(want);
    VS_CHECK(p.fut.is_ready(), "%s: abandoned but the future is not ready", p.name);
    got = observe(cr, std::move(p.fut));
  } else {
    std::thread t([&] { vs::point(); p.impl->fire(want); });
    got = observe(cr, std::move(p.fut));
    t.join();
  }
  expect_out(got, want, p.name);
}
SCEN(abandon_val, 3) { abandon<Val>(r); }
SCEN(abandon_void, 2) { abandon<void>(r); }
SCEN(abandon_ref, 1) { abandon<long &>(r); }

// the outcome was produced, then the producer goes away while consumers look
template <class T> static void produced_then_gone(Rng &r) {
  pc::promise<T> p;
  pc::future<T> f;
  { auto x = pc::make_promise<T>(); p = std::move(x.first); f = std::move(x.second); }
  Out o = with_ep(random_out(r, 60, 0));
  int gone = r.below(5);
  Rng cr = r.fork();
  std::thread t([&] {
    vs::point();
    if (o.kind == V) Put<T>::value(p, o.id); else p.set_exception(o.ep);
    if (gone == 0) { pc::promise<T> q(std::move(p)); }
    else if (gone == 1) { pc::promise<T> q; p = std::move(q); }
    else if (gone == 2) { pc::promise<T> q; q = std::move(p); q = pc::promise<T>(); }
    else if (gone == 3) { auto y = pc::make_promise<T>(); std::swap(p, y.first); }
  });
  Out got = observe(cr, std::move(f));
  t.join();
  expect_out(got, norm<T>(o), "produced before the producer disappeared");
}
SCEN(produced_val, 2) { produced_then_gone<Val>(r); }
SCEN(produced_void, 1) { produced_then_gone<void>(r); }

// moves and assignments: exactly the overwritten producers abandon
SCEN_F(promise_moves, 3, vs::SEQ) {
  constexpr int N = 4;
  std::vector<pc::promise<Val>> ps(N); // each slot holds a promise or nothing
  std::vector<int> holds(N, -1);       // which future the slot feeds
  std::vector<pc::shared_future<Val>> fs;
  std::vector<int> st; // 0 pending 1 value 2 broken
  auto lose = [&](int h) { if (h >= 0 && st[h] == 0) st[h] = 2; };
  for (int step = r.range(4, 14); step > 0; step--) {
    int a = r.below(N), b = r.below(N);
    switch (r.below(6)) {
    case 0: {
      auto x = pc::make_promise<Val>();
      lose(holds[a]);
      ps[a] = std::move(x.first);
      holds[a] = (int)fs.size();
      fs.push_back(x.second.share());
      st.push_back(0);
      break;
    }
    case 1: if (a != b) { lose(holds[a]); ps[a] = std::move(ps[b]); holds[a] = holds[b]; holds[b] = -2; } break;
    case 2: { pc::promise<Val> q(std::move(ps[a])); ps[a] = std::move(q); break; }
    case 3: if (a != b) { std::swap(ps[a], ps[b]); std::swap(holds[a], holds[b]); } break;
    case 4: if (holds[a] >= 0 && st[holds[a]] == 0) { ps[a].set_value(Val(holds[a])); st[holds[a]] = 1; } break;
    default: lose(holds[a]); ps[a] = pc::promise<Val>(); holds[a] = -1; break;
    }
    for (size_t i = 0; i < fs.size(); i++) VS_CHECK(fs[i].is_ready() == (st[i] != 0), "future %zu readiness wrong: a promise that was moved from abandoned it, or an abandoned one did not", i);
  }
  for (int i = 0; i < N; i++) lose(holds[i]);
  ps.clear();
  for (size_t i = 0; i < fs.size(); i++) {
    Out o = get(fs[i]);
    VS_CHECK(st[i] == 1 ? (o.kind == V && o.id == (long)i) : o.kind == BROKEN, "future %zu: got %s", i, o.str());
  }
}
SCEN_F(task_moves, 3, vs::SEQ) {
  constexpr int N = 4;
  using PT = pc::packaged_task<Val(long)>;
  std::vector<PT> ps(N);
  std::vector<int> holds(N, -1);
  std::vector<pc::shared_future<Val>> fs;
  std::vector<int> st;
  std::deque<vs::Cnt> alive, runs;
  auto lose = [&](int h) { if (h >= 0 && st[h] == 0) st[h] = 2; };
  for (int step = r.range(4, 14); step > 0; step--) {
    int a = r.below(N), b = r.below(N);
    switch (r.below(7)) {
    case 0: {
      alive.emplace_back();
      runs.emplace_back();
      PT t([tok = Tok(alive.back()), ru = &runs.back()](long x) { ru->inc(); return Val(x); });
      auto f = t.get_future();
      lose(holds[a]);
      ps[a] = std::move(t);
      holds[a] = (int)fs.size();
      fs.push_back(f.share());
      st.push_back(0);
      break;
    }
    case 1: if (a != b) { lose(holds[a]); ps[a] = std::move(ps[b]); holds[a] = holds[b]; holds[b] = -1; } break;
    case 2: { PT q(std::move(ps[a])); ps[a] = std::move(q); break; }
    case 3: if (a != b) { ps[a].swap(ps[b]); std::swap(holds[a], holds[b]); } break;
    case 4: if (holds[a] >= 0 && st[holds[a]] == 0) { ps[a](holds[a]); st[holds[a]] = 1; } break;
    case 5: if (holds[a] >= 0) { VS_CHECK(ps[a].valid(), "task with state is not valid"); } else VS_CHECK(!ps[a].valid(), "empty task is valid"); break;
    default: lose(holds[a]); ps[a] = PT(); holds[a] = -1; break;
    }
    for (size_t i = 0; i < fs.size(); i++) {
      VS_CHECK(fs[i].is_ready() == (st[i] != 0), "task future %zu readiness wrong (state %d)", i, st[i]);
      VS_CHECK(runs[i].get() == (st[i] == 1), "task %zu ran %ld times (state %d)", i, runs[i].get(), st[i]);
      if (st[i]) VS_CHECK(alive[i].get() == 0, "function of a finished or abandoned task still alive");
    }
  }
  for (int i = 0; i < N; i++) lose(holds[i]);
  ps.clear();
  for (size_t i = 0; i < fs.size(); i++) {
    Out o = get(fs[i]);
    VS_CHECK(st[i] == 1 ? (o.kind == V && o.id == (long)i) : o.kind == BROKEN, "task future %zu: got %s", i, o.str());
  }
}

// the executor loses the task: at once, later, from another thread
SCEN(executor_drops, 4) {
  DropEx drop;
  QueueEx queue;
  Ex e = r.chance(40) ? Ex{&drop} : Ex{&queue};
  auto pf = pc::make_promise<Val>();
  vs::Cnt alive, ran;
  pc::future<long> f;
  auto fn = [tok = Tok(alive), &ran](auto &&...) { ran.inc(); return 1L; };
  int kind = r.below(6);
  bool valueless = r.chance(30); // parent fails: next and then differ
  switch (kind) {
  case 0: f = pc::async(e, std::move(fn)); break;
  case 1: f = pf.second.then(e, [g = std::move(fn)](pc::future<Val>) mutable { return g(); }); break;
  case 2: f = pf.second.next(e, [g = std::move(fn)](Val) mutable { return g(); }); break;
  case 3: { auto s = pf.second.share(); f = s.then(e, [g = std::move(fn)](pc::shared_future<Val>) mutable { return g(); }); break; }
  case 4: { auto s = pf.second.share(); f = s.next(e, [g = std::move(fn)](const Val &) mutable { return g(); }); break; }
  default: f = pf.second.then(e, [g = std::move(fn)](pc::promise<long> p, pc::future<Val>) mutable { p.set_value(g()); });
  }
  { decltype(fn) gone(std::move(fn)); }
  auto s = f.share();
  std::thread w;
  vs::Cnt dropped;
  if (r.chance(50)) w = std::thread([s, &dropped] { Out o = get(s); VS_CHECK(o.kind == BROKEN, "waiter of a dropped task got %s", o.str()); });
  if (kind != 0) { if (valueless) pf.first.set_exception(make_exc(E_CUSTOM, 4)); else pf.first.set_value(Val(1)); }
  if (e.p == &queue) {
    VS_CHECK(!s.is_ready(), "ready before the executor did anything");
    queue.drop_all();
  }
  VS_CHECK(s.is_ready(), "executor dropped the task but its future is not ready (kind %d)", kind);
  VS_CHECK(alive.get() == 0, "dropped function not destroyed (kind %d, %ld alive)", kind, alive.get());
  Out o = get(s);
  VS_CHECK(o.kind == BROKEN, "future of a dropped task got %s (kind %d)", o.str(), kind);
  VS_CHECK(ran.get() == 0, "dropped function ran");
  if (w.joinable()) w.join();
}
// a notification dropped by its executor is simply destroyed
SCEN_F(notification_dropped, 1, vs::SEQ) {
  QueueEx q;
  vs::Cnt alive, ran;
  auto pf = pc::make_promise<Val>();
  pf.second.notify(Ex{&q}, [t = std::make_shared<Tok>(alive), &ran] { ran.inc(); });
  bool set = r.chance(70);
  if (set) { pf.first.set_value(Val(1)); q.drop_all(); } else pf.second = pc::future<Val>();
  VS_CHECK(alive.get() == 0 && ran.get() == 0, "dropped notification: %ld alive, ran %ld", alive.get(), ran.get());
}

// the continuation's own promise is dropped, in the continuation, later, elsewhere
SCEN(interruptible_drop, 3) {
  auto pf = pc::make_promise<Val>();
  Execs ex;
  Ex e = ex.any(r);
  int how = r.below(4);
  pc::promise<long> stash;
  bool shared = r.chance(50);
  vs::Cnt alive;
  auto fn = [&stash, how, tok = Tok(alive)](pc::promise<long> p, bool ready) {
    if (how == 0) return;
    if (how == 1) { stash = std::move(p); return; }
    if (how == 2) { p.set_value(ready ? 5 : 6); return; }
    pc::promise<long> q(std::move(p));
    { pc::promise<long> z(std::move(q)); }
  };
  pc::shared_future<long> f;
  if (shared) { auto s = pf.second.share(); f = s.then(e, [g = std::move(fn)](pc::promise<long> p, pc::shared_future<Val> x) mutable { g(std::move(p), x.is_ready()); }).share(); }
  else f = pf.second.then(e, [g = std::move(fn)](pc::promise<long> p, pc::future<Val> x) mutable { g(std::move(p), x.is_ready()); }).share();
  std::thread w([f, how] { Out o = get(f); VS_CHECK(how == 2 ? o.kind == V && o.id == 5 : o.kind == BROKEN, "interruptible continuation whose promise was dropped: got %s (how %d)", o.str(), how); });
  satisfy(std::move(pf.first), random_out(r));
  ex.finish();
  if (how == 1) { VS_CHECK(!f.is_ready(), "ready although the promise is still alive"); stash = pc::promise<long>(); }
  VS_CHECK(f.is_ready(), "promise gone but future not ready");
  w.join();
}

// broken_promise flows through chains like any other error
SCEN(chain, 2) {
  Producer<Val> p = make_producer<Val>(r);
  Execs ex;
  int n = r.range(1, 3);
  vs::Cnt bad;
  pc::future<Val> f = std::move(p.fut);
  std::thread t([&] { vs::point(); p.impl->fire(Out{BROKEN, 0}); });
  for (int i = 0; i < n; i++) {
    Ex e = ex.any(r, false);
    switch (r.below(4)) {
    case 0: f = f.next(e, [&bad](Val v) { bad.inc(); return v; }); break;
    case 1: f = f.then(e, [](pc::future<Val> x) { VS_CHECK(x.is_ready(), "unready"); return x.get(); }); break;
    case 2: f = f.then(e, [](pc::future<Val> x) { return x; }); break;
    default: { auto s = f.share(); f = s.then(e, [](pc::shared_future<Val> x) { return Val(x.get().id()); }); }
    }
  }
  Out o = get(f);
  VS_CHECK(o.kind == BROKEN, "chain behind an abandoned producer delivered %s", o.str());
  VS_CHECK(bad.get() == 0, "next ran without a value");
  t.join();
  ex.finish();
}

// a pool is stopped and destroyed with tasks queued: started ones complete, the others break
SCEN(pool_destroyed, 4) {
  int n = r.range(2, 5), workers = r.range(1, 2);
  std::vector<vs::Cnt> alive(n), ran(n);
  std::vector<pc::shared_future<long>> fs(n);
  vs::Cnt gate;
  auto pf = pc::make_promise<Val>();
  pc::shared_future<Val> src = pf.second.share();
  std::vector<std::thread> ws;
  {
    pc::static_thread_pool pool(workers);
    int blockers = r.range(0, workers);
    for (int i = 0; i < blockers; i++) adl::do_post(pool.executor(), [&gate] { while (!gate.get()) std::this_thread::yield(); });
    for (int i = 0; i < n; i++) {
      auto fn = [tok = Tok(alive[i]), c = &ran[i], i](auto &&...) { c->inc(); return (long)i; };
      int k = r.below(3);
      if (k == 0) fs[i] = pc::async(pool.executor(), std::move(fn)).share();
      else if (k == 1) fs[i] = src.then(pool.executor(), std::move(fn)).share();
      else fs[i] = src.next(pool.executor(), std::move(fn)).share();
    }
    for (int i = 0; i < n; i++) if (r.chance(30)) ws.emplace_back([f = fs[i], i, &ran] { Out o = get(f); VS_CHECK(o.kind == V ? o.id == i : o.kind == BROKEN, "got %s", o.str()); VS_CHECK((o.kind == V) == (ran[i].get() == 1), "outcome %s but function ran %ld times", o.str(), ran[i].get()); });
    if (r.chance(80)) pf.first.set_value(Val(1));
    else { ws.emplace_back([p = std::move(pf.first)]() mutable { vs::point(); pc::promise<Val> q(std::move(p)); q.set_value(Val(1)); }); ws.back().join(); }
    if (r.chance(70)) pool.stop();
    gate.set(1);
  }
  for (int i = 0; i < n; i++) {
    VS_CHECK(fs[i].is_ready(), "pool destroyed but future %d is not ready", i);
    Out o = get(fs[i]);
    VS_CHECK(ran[i].get() <= 1, "ran twice");
    VS_CHECK(ran[i].get() ? (o.kind == V && o.id == i) : o.kind == BROKEN, "task %d (ran %ld times) delivered %s", i, ran[i].get(), o.str());
    VS_CHECK(alive[i].get() == 0, "function of task %d still alive", i);
    vs::cover(ran[i].get() ? "ran" : "abandoned");
  }
  for (auto &w : ws) if (w.joinable()) w.join();
}

// abandonment of the inner or outer part of an unwrapped future
SCEN(unwrap_abandon, 2) {
  auto out = pc::make_promise<void>();
  auto in = pc::make_promise<Val>();
  auto sin = pc::make_promise<Val>();
  int kind = r.below(3);
  pc::future<Val> f;
  auto inner = std::make_shared<pc::future<Val>>(std::move(in.second));
  if (kind == 0) f = out.second.then([inner](pc::future<void> x) { x.get(); return std::move(*inner); });
  else if (kind == 1) f = out.second.next([inner]() { return std::move(*inner); });
  else { QueueEx q; f = pc::async(Ex{&q}, [inner] { return std::move(*inner); }); q.run_all(); }
  bool out_broken = r.chance(40) && kind != 2;
  int in_how = r.below(3); // value, broken, exception
  inner.reset();
  std::thread t([&] { vs::point(); pc::promise<Val> p(std::move(in.first)); if (in_how == 0) p.set_value(Val(3)); else if (in_how == 2) p.set_exception(make_exc(E_CUSTOM, 8)); });
  std::thread t2([&] { vs::point(); pc::promise<void> p(std::move(out.first)); if (!out_broken) p.set_value(); });
  Out o = observe(r, std::move(f));
  Out want = out_broken ? Out{BROKEN, 0} : in_how == 0 ? Out{V, 3} : in_how == 1 ? Out{BROKEN, 0} : Out{E_CUSTOM, 8};
  expect_out(o, want, "unwrapped");
  t.join();
  t2.join();
}

// executors that keep the raw task objects: dropped by destruction, or by assigning another task over them
struct RawBase { virtual ~RawBase() = default; virtual void run() = 0; };
template <class F> struct RawSlot : RawBase {
  F f;
  explicit RawSlot(F &&x) : f(std::move(x)) {}
  void run() override { f(); }
};
struct RawStore {
  std::unique_ptr<RawBase> last;
  vs::Cnt replaced, posted;
};
struct RawEx {
  RawStore *s;
  template <class F> friend void post(RawEx e, F f) {
    e.s->posted.inc();
    if (auto *p = dynamic_cast<RawSlot<F> *>(e.s->last.get())) { e.s->replaced.inc(); F tmp(std::move(f)); p->f = std::move(tmp); }
    else e.s->last.reset(new RawSlot<F>(std::move(f)));
  }
};
namespace portable_concurrency { template <> struct is_executor<RawEx> : std::true_type {}; }
SCEN_F(raw_tasks_replaced, 2, vs::SEQ) {
  RawStore st;
  RawEx e{&st};
  int n = r.range(1, 4), kind = r.below(5);
  vs::Cnt runs, alive;
  std::vector<pc::future<Val>> fs;
  std::vector<pc::shared_future<Val>> ss;
  for (int i = 0; i < n; i++) {
    auto fn = [&runs, t = Tok(alive)](long v) { runs.inc(); return Val(v); };
    pc::future<Val> f;
    switch (kind) {
    case 0: f = pc::make_ready_future(long(i)).next(e, std::move(fn)); break;
    case 1: f = pc::make_ready_future(long(i)).then(e, [fn = std::move(fn)](pc::future<long> x) mutable { return fn(x.get()); }); break;
    case 2: f = pc::async(e, std::move(fn), long(i)); break;
    case 3: f = pc::make_ready_future(long(i)).share().next(e, std::move(fn)); break;
    default: f = pc::make_ready_future(long(i)).then(e, [fn = std::move(fn)](pc::promise<Val> p, pc::future<long> x) mutable { p.set_value(fn(x.get())); }); break;
    }
    fs.push_back(std::move(f));
  }
  bool run = r.chance(50);
  if (run) st.last->run();
  st.last.reset();
  for (int i = 0; i < n; i++) {
    VS_CHECK(fs[i].is_ready(), "task %d of %d (kind %d) was dropped or run by its executor but its future is not ready", i, n, kind);
    Out o = get(fs[i]);
    if (run && i == n - 1) VS_CHECK(o.kind == V && o.id == i, "task that was run delivered %s(%ld)", o.str(), o.id);
    else VS_CHECK(o.kind == BROKEN, "task dropped by its executor delivered %s", o.str());
  }
  VS_CHECK(runs.get() == (run ? 1 : 0), "%ld functions ran", runs.get());
  VS_CHECK(alive.get() == 0, "dropped functions leaked");
}

// over every way of attaching a function
SCEN(mat_exec_drop, 3) { mat::by_executor(r, true); }
// abandonment travels through long chains; every skipped function is destroyed
SCEN_F(long_chain, 1, vs::SEQ) {
  int n = r.chance(80) ? r.range(1, 30) : r.range(31, 200);
  vs::Cnt ran, alive, saw;
  auto pf = std::make_unique<std::pair<pc::promise<long>, pc::future<long>>>(pc::make_promise<long>());
  QueueEx q;
  Ex e{&q};
  auto f = std::move(pf->second);
  int thens = 0;
  for (int i = 0; i < n; i++) {
    bool ex = r.chance(15);
    if (r.chance(70)) { auto g = [&ran, t = Tok(alive)](long x) { ran.inc(); return x; }; f = ex ? f.next(e, std::move(g)) : f.next(std::move(g)); }
    else { thens++; auto g = [&saw, t = Tok(alive)](pc::future<long> x) { saw.inc(); return x; }; f = ex ? f.then(e, std::move(g)) : f.then(std::move(g)); }
  }
  VS_CHECK(alive.get() == n, "%ld of %d functions alive", alive.get(), n);
  pf.reset();
  q.run_all();
  VS_CHECK(f.is_ready(), "chain of %d links: abandonment did not arrive", n);
  Out o = get(f);
  VS_CHECK(o.kind == BROKEN, "chain of %d links: got %s", n, o.str());
  VS_CHECK(ran.get() == 0 && saw.get() == thens && alive.get() == 0, "next functions ran %ld times, then functions %ld of %d, %ld alive", ran.get(), saw.get(), thens, alive.get());
}
