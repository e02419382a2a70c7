#define TK_MAIN
#include "prod.h"
#include "matscen.h"
using namespace tk;

struct St {
  vs::Cnt alive, runs, in_body;
};
// one link of a chain; the function owns a token
template <class P> static pc::future<Val> add(Rng &r, P f, St &s, Ex e, bool use_exec) {
  St *p = &s;
  auto body = [p, t = Tok(s.alive)](long id) { p->in_body.set(1); p->runs.inc(); vs::point(); p->in_body.set(0); return Val(id + 1); };
  switch (r.below(4)) {
  case 0: { auto g = [b = std::move(body)](const Val &v) mutable { return b(v.id()); }; return use_exec ? f.next(e, std::move(g)) : f.next(std::move(g)); }
  case 1: { auto g = [b = std::move(body)](P x) mutable { return b(x.get().id()); }; return use_exec ? f.then(e, std::move(g)) : f.then(std::move(g)); }
  case 2: { auto g = [b = std::move(body)](pc::promise<Val> q, P x) mutable { Out o = get(x); if (o.kind == V) q.set_value(b(o.id)); }; return use_exec ? f.then(e, std::move(g)) : f.then(std::move(g)); }
  default: { auto g = [b = std::move(body)](P x) mutable { return pc::make_ready_future(b(x.get().id())); }; return use_exec ? f.then(e, std::move(g)) : f.then(std::move(g)); }
  }
}
template <class F> static void drop(Rng &r, F &f) {
  switch (r.below(4)) {
  case 0: f = F(); break;
  case 1: { F g(std::move(f)); break; }
  case 2: { std::unique_ptr<F> g(new F(std::move(f))); g.reset(); break; }
  default: { auto x = pc::make_ready_future(Val(1)); f = F(std::move(x)); }
  }
}

// sources of a chain that have not started
struct Source {
  pc::promise<Val> p;
  pc::packaged_task<Val()> t;
  QueueEx q;
  St st; // function of the source (task, async)
  int kind;
  pc::future<Val> open(Rng &r) {
    kind = r.below(5);
    auto fn = [s = &st, t = Tok(st.alive)] { s->runs.inc(); return Val(7); };
    switch (kind) {
    case 0: { auto x = pc::make_promise<Val>(); p = std::move(x.first); return std::move(x.second); }
    case 1: { p = pc::promise<Val>(); return p.get_future(); }
    case 2: { t = pc::packaged_task<Val()>(std::move(fn)); return t.get_future(); }
    case 3: return pc::async(Ex{&q}, std::move(fn));
    default: { auto x = pc::make_promise<Val>(std::allocator<char>()); p = std::move(x.first); return std::move(x.second); }
    }
  }
  bool has_promise() { return kind == 0 || kind == 1 || kind == 4; }
  void fire(const Out &o) { // must never throw
    try {
      if (kind == 2) t();
      else if (kind == 3) q.run_all();
      else if (o.kind == V) p.set_value(Val(7));
      else if (o.kind == BROKEN) { pc::promise<Val> g(std::move(p)); }
      else p.set_exception(make_exc(o.kind, o.id));
    } catch (...) { vs::fail("producing a result nobody awaits threw an exception"); }
  }
};

// nothing started: the drop destroys everything, later production is a no-op
SCEN_F(drop_before, 4, vs::SEQ) {
  Source s;
  QueueEx q;
  int n = r.range(0, 5);
  std::deque<St> st(n);
  pc::future<Val> f = s.open(r);
  for (int i = 0; i < n; i++) {
    if (r.chance(25)) { auto sf = f.share(); f = add(r, sf, st[i], Ex{&q}, r.chance(40)); if (r.chance(30)) { auto extra = sf; } }
    else f = add(r, std::move(f), st[i], Ex{&q}, r.chance(40));
  }
  if (s.has_promise()) VS_CHECK(s.p.is_awaiten(), "promise of a live chain is not awaited");
  for (int i = 0; i < n; i++) VS_CHECK(st[i].alive.get() >= 1, "function %d not alive exactly once before the drop", i);
  int copies = 0;
  if (r.chance(30)) {
    std::vector<pc::shared_future<Val>> c(3);
    c[0] = f.share();
    c[1] = c[0];
    c[2] = c[1];
    drop(r, c[0]);
    drop(r, c[2]);
    for (int i = 0; i < n; i++) VS_CHECK(st[i].alive.get() >= 1, "function %d cancelled although a copy of the shared_future is left", i);
    drop(r, c[1]);
    copies = 1;
  } else drop(r, f);
  for (int i = 0; i < n; i++) VS_CHECK(st[i].alive.get() == 0, "function %d of %d still alive after the last future was dropped (copies %d)", i, n, copies);
  VS_CHECK(s.st.alive.get() == 0, "function of the producer still alive after the last future was dropped");
  if (s.has_promise()) VS_CHECK(!s.p.is_awaiten(), "promise still awaited after the last future was dropped");
  s.fire(random_out(r, 70));
  q.run_all();
  if (s.has_promise() && r.chance(50)) VS_CHECK(true, "x");
  for (int i = 0; i < n; i++) VS_CHECK(st[i].runs.get() == 0, "cancelled function %d ran", i);
  VS_CHECK(s.st.runs.get() == 0, "function of a task nobody awaits ran");
  // repeated production stays harmless
  if (s.has_promise() && r.chance(50)) { try { s.p.set_value(Val(8)); s.p.set_exception(make_exc(E_INT, 1)); } catch (const std::future_error &e) { VS_CHECK(e.code() == std::future_errc::no_state, "setting a promise nobody awaits threw %s", e.what()); } }
}

// the chain has advanced to a queue executor; dropping cancels the posted but not started function
SCEN_F(drop_posted, 3, vs::SEQ) {
  Source s;
  QueueEx q;
  int n = r.range(1, 5), cut = r.below(n);
  std::deque<St> st(n);
  pc::future<Val> f = s.open(r);
  for (int i = 0; i < n; i++) f = add(r, std::move(f), st[i], Ex{&q}, i == cut || (i > cut && r.chance(40)));
  s.fire(Out{V, 1});
  VS_CHECK(q.size() == 1, "%zu tasks posted, expected 1", q.size());
  for (int i = 0; i < n; i++) VS_CHECK(st[i].runs.get() == (i < cut), "function %d ran %ld times", i, st[i].runs.get());
  drop(r, f);
  for (int i = 0; i < n; i++) VS_CHECK(st[i].alive.get() == 0, "function %d still alive after the drop (cut %d)", i, cut);
  if (r.chance(50)) q.run_all(); else q.drop_all();
  for (int i = 0; i < n; i++) VS_CHECK(st[i].runs.get() == (i < cut), "function %d ran after the drop", i);
}

// drop races with production and execution
static void race(Rng &r, bool pooled) {
  Source s;
  Execs ex;
  int n = r.range(1, 3);
  std::deque<St> st(n);
  pc::future<Val> f = s.open(r);
  std::vector<bool> ue;
  for (int i = 0; i < n; i++) { Ex e = pooled ? ex.any(r, false) : Ex{&ex.inl}; f = add(r, std::move(f), st[i], e, r.chance(60)); }
  vs::Cnt started;
  std::thread t([&] { vs::point(); started.set(1); s.fire(Out{V, 1}); });
  if (r.chance(30)) f.notify([tok = std::make_shared<Val>(3)] { VS_CHECK(tok->id() == 3, "capture"); });
  for (int i = r.below(3); i > 0; i--) vs::point();
  bool before = !started.get();
  drop(r, f);
  if (before && !started.get()) {
    vs::cover("dropped-before-start");
    for (int i = 0; i < n; i++) VS_CHECK(st[i].alive.get() == 0, "function %d still alive after the drop", i);
  }
  bool cut_before = !started.get();
  t.join();
  ex.finish();
  long prev = 1;
  for (int i = 0; i < n; i++) {
    VS_CHECK(st[i].alive.get() == 0, "function %d leaked", i);
    VS_CHECK(st[i].runs.get() <= prev, "function %d ran %ld times after %ld runs of its predecessor", i, st[i].runs.get(), prev);
    if (cut_before) VS_CHECK(st[i].runs.get() == 0, "function %d ran although it was dropped before anything started", i);
    VS_CHECK(st[i].in_body.get() == 0, "function %d did not complete", i);
    prev = st[i].runs.get();
  }
  vs::cover(st[0].runs.get() ? (st[n - 1].runs.get() ? "all-ran" : "some-ran") : "none-ran");
  if (s.has_promise()) VS_CHECK(!s.p.is_awaiten(), "promise still awaited after everything was dropped");
}
SCEN(drop_race, 4) { race(r, false); }
SCEN(drop_race_pool, 4) { race(r, true); }

// shared results: several owners drop concurrently; exactly the last one cancels
SCEN(copies_race, 3) {
  Source s;
  St st;
  pc::shared_future<Val> f = add(r, s.open(r), st, Ex{nullptr}, false).share();
  int n = r.range(2, 3);
  std::vector<std::thread> ts;
  bool keep = r.chance(40);
  for (int i = 0; i < n; i++) ts.emplace_back([f, q = r.fork()]() mutable { vs::point(); auto c = f; drop(q, f); drop(q, c); });
  if (!keep) drop(r, f);
  for (auto &t : ts) t.join();
  if (keep) {
    VS_CHECK(st.alive.get() >= 1, "function cancelled although a copy is left");
    s.fire(Out{V, 1});
    VS_CHECK(f.is_ready() && st.runs.get() == 1, "function did not run although a copy is left");
  } else {
    VS_CHECK(st.alive.get() == 0, "function not destroyed after the last copy was dropped");
    s.fire(Out{V, 1});
    VS_CHECK(st.runs.get() == 0, "cancelled function ran");
  }
}

// branches of a shared future: dropping one leaves the others alone
SCEN(branches, 3) {
  Source s;
  pc::shared_future<Val> root = s.open(r).share();
  int n = r.range(2, 4);
  std::deque<St> st(n);
  std::vector<pc::future<Val>> br;
  Execs ex;
  for (int i = 0; i < n; i++) br.push_back(add(r, pc::shared_future<Val>(root), st[i], ex.any(r, false), r.chance(40)));
  if (r.chance(60)) root = pc::shared_future<Val>();
  std::vector<char> dropped(n);
  int mode = r.below(2);
  std::thread t;
  if (mode) t = std::thread([&] { vs::point(); s.fire(Out{V, 1}); });
  for (int i = 0; i < n; i++) if (r.chance(50)) { drop(r, br[i]); br[i] = pc::future<Val>(); dropped[i] = 1; if (!mode) VS_CHECK(st[i].alive.get() == 0, "dropped branch %d still alive", i); }
  bool any = false;
  for (int i = 0; i < n; i++) any |= !dropped[i];
  if (!mode) {
    for (int i = 0; i < n; i++) if (!dropped[i]) VS_CHECK(st[i].alive.get() >= 1, "branch %d cancelled by dropping another one", i);
    if (s.has_promise() && any) VS_CHECK(s.p.is_awaiten(), "promise not awaited although a branch is alive");
    s.fire(Out{V, 1});
  } else t.join();
  ex.finish();
  for (int i = 0; i < n; i++) {
    if (dropped[i]) { if (!mode) VS_CHECK(st[i].runs.get() == 0, "dropped branch ran"); }
    else { VS_CHECK(br[i].get().id() == 8, "wrong result of the surviving branch"); VS_CHECK(st[i].runs.get() == 1, "surviving branch ran %ld times", st[i].runs.get()); }
    VS_CHECK(st[i].alive.get() == 0, "function leaked");
  }
}

// a function drops the future of its own result while running
SCEN(self_drop, 3) {
  Source s;
  Execs ex;
  struct Box { std::mutex m; pc::future<Val> f; pc::shared_future<Val> sf; } box;
  St st, st2;
  St *p = &st;
  Box *b = &box;
  Ex e = ex.any(r, false);
  bool ue = r.chance(50);
  int shared = r.below(2);
  auto fn = [p, b, t = Tok(st.alive), v = Val(5)](Val x) {
    { std::lock_guard<std::mutex> g(b->m); b->f = pc::future<Val>(); b->sf = pc::shared_future<Val>(); }
    VS_CHECK(v.id() == 5, "captured state of a running function was destroyed");
    p->runs.inc();
    return Val(x.id() + 1);
  };
  pc::future<Val> f = ue ? s.open(r).next(e, std::move(fn)) : s.open(r).next(std::move(fn));
  if (r.chance(50)) f = add(r, std::move(f), st2, e, false);
  { std::lock_guard<std::mutex> g(box.m); if (shared) box.sf = f.share(); else box.f = std::move(f); }
  std::thread t([&] { vs::point(); s.fire(Out{V, 1}); });
  if (r.chance(30)) { std::lock_guard<std::mutex> g(box.m); box.f = pc::future<Val>(); box.sf = pc::shared_future<Val>(); }
  t.join();
  ex.finish();
  VS_CHECK(st.alive.get() == 0 && st2.alive.get() == 0, "function leaked");
  VS_CHECK(st2.runs.get() <= st.runs.get(), "successor ran without its predecessor");
  box.f = pc::future<Val>();
  box.sf = pc::shared_future<Val>();
}

// work that has started completes although its result was dropped
SCEN(started, 3) {
  Execs ex;
  vs::Cnt started, dropped, completed, alive;
  Val payload(9);
  auto pf = pc::make_promise<Val>();
  auto body = [&started, &dropped, &completed, t = Tok(alive), v = Val(4)](auto &&...) {
    started.set(1);
    while (!dropped.get()) std::this_thread::yield();
    VS_CHECK(v.id() == 4, "captured state of a started function was destroyed");
    completed.inc();
    return Val(1);
  };
  pc::future<Val> f;
  ThreadEx te;
  int k = r.below(4);
  switch (k) {
  case 0: f = pc::async(Ex{&te}, std::move(body)); break;
  case 1: f = pf.second.next(Ex{&te}, std::move(body)); break;
  case 2: f = pf.second.then(Ex{&te}, [b = std::move(body)](pc::future<Val> x) mutable { VS_CHECK(x.is_ready(), "unready"); Val r = b(); VS_CHECK(x.get().id() == 2, "parent damaged"); return r; }); break;
  default: f = pf.second.then(Ex{&te}, [b = std::move(body)](pc::promise<Val> p, pc::future<Val> x) mutable { Val r = b(); VS_CHECK(!p.is_awaiten(), "still awaited after the drop"); p.set_value(std::move(r)); VS_CHECK(x.get().id() == 2, "parent damaged"); });
  }
  if (k) pf.first.set_value(Val(2));
  while (!started.get()) std::this_thread::yield();
  drop(r, f);
  dropped.set(1);
  te.join();
  VS_CHECK(completed.get() == 1, "started function did not complete");
  VS_CHECK(alive.get() == 0, "function leaked");
}

// notifications and timed waiters of a dropped future
SCEN(notifications, 2) {
  auto pf = pc::make_promise<Val>();
  int n = r.range(1, 3);
  std::deque<vs::Cnt> alive(n), runs(n);
  pc::shared_future<Val> sf = pf.second.share();
  QueueEx q;
  for (int i = 0; i < n; i++) {
    if (r.chance(70)) sf.notify([t = std::unique_ptr<Tok>(new Tok(alive[i])), c = &runs[i]] { c->inc(); });
    else sf.notify(Ex{&q}, [t = std::unique_ptr<Tok>(new Tok(alive[i])), c = &runs[i]] { c->inc(); });
  }
  pc::timed_waiter w(sf);
  bool conc = r.chance(60);
  vs::Cnt started;
  std::thread t;
  if (conc) t = std::thread([&] { vs::point(); started.set(1); pf.first.set_value(Val(1)); });
  drop(r, sf);
  bool early = !started.get();
  if (early) for (int i = 0; i < n; i++) VS_CHECK(alive[i].get() == 0, "notification alive after the last future was dropped");
  if (conc) t.join(); else pf.first.set_value(Val(1));
  q.run_all();
  for (int i = 0; i < n; i++) { VS_CHECK(alive[i].get() == 0, "notification leaked"); VS_CHECK(runs[i].get() <= (early ? 0 : 1), "notification of a dropped future ran %ld times", runs[i].get()); }
  auto stt = w.wait_for(std::chrono::milliseconds(0));
  if (early) VS_CHECK(stt == pc::future_status::timeout, "waiter of a dropped future reports ready");
}
// a pool with queued tasks whose results are dropped
SCEN(pool_queue, 3) {
  int n = r.range(1, 4);
  std::deque<vs::Cnt> alive(n), runs(n);
  vs::Cnt gate;
  pc::static_thread_pool pool(1);
  adl::do_post(pool.executor(), [&] { while (!gate.get()) std::this_thread::yield(); });
  std::vector<pc::future<Val>> fs;
  for (int i = 0; i < n; i++) fs.push_back(pc::async(pool.executor(), [t = Tok(alive[i]), c = &runs[i], i] { c->inc(); return Val(i); }));
  std::vector<char> gone(n);
  for (int i = 0; i < n; i++) if (r.chance(50)) { fs[i] = pc::future<Val>(); gone[i] = 1; VS_CHECK(alive[i].get() == 0, "queued function alive after its future was dropped"); }
  gate.set(1);
  for (int i = 0; i < n; i++) if (!gone[i]) VS_CHECK(fs[i].get().id() == i, "wrong value");
  pool.wait();
  for (int i = 0; i < n; i++) VS_CHECK(runs[i].get() == !gone[i], "task %d ran %ld times", i, runs[i].get());
}

// over every way of attaching a function
SCEN(mat_drop, 3) { mat::drop_tail(r, false); }
SCEN(mat_drop_t, 3) { mat::drop_tail(r, true); }
SCEN(mat_drop_race, 3) { mat::drop_race(r); }
// dropping the end of a long chain cancels all of it, in any mixture of links
SCEN_F(long_drop, 1, vs::SEQ) {
  int n = r.chance(80) ? r.range(1, 30) : r.range(31, 200);
  vs::Cnt ran, alive;
  auto pf = pc::make_promise<long>();
  QueueEx q;
  Ex e{&q};
  auto f = std::move(pf.second);
  for (int i = 0; i < n; i++) {
    bool ex = r.chance(15);
    auto nx = [&ran, t = Tok(alive)](long x) { ran.inc(); return x; };
    auto th = [&ran, t = Tok(alive)](pc::future<long> x) { ran.inc(); return x; };
    switch (r.below(4)) {
    case 0: f = ex ? f.next(e, std::move(nx)) : f.next(std::move(nx)); break;
    case 1: f = ex ? f.then(e, std::move(th)) : f.then(std::move(th)); break;
    case 2: { auto s = f.share(); f = ex ? s.next(e, std::move(nx)) : s.next(std::move(nx)); break; }
    default: f = f.then([&ran, t = Tok(alive)](pc::promise<long> p, pc::future<long> x) { ran.inc(); p.set_value(x.get()); });
    }
  }
  VS_CHECK(pf.first.is_awaiten(), "not awaited");
  if (r.chance(50)) f = pc::future<long>(); else { auto s = f.share(); auto c = s; s = {}; VS_CHECK(alive.get() == n, "cancelled although a copy is left"); }
  VS_CHECK(alive.get() == 0, "%ld of %d functions still alive after the drop", alive.get(), n);
  VS_CHECK(!pf.first.is_awaiten(), "still awaited after the drop");
  pf.first.set_value(1);
  q.run_all();
  VS_CHECK(ran.get() == 0, "%ld cancelled functions ran", ran.get());
}
