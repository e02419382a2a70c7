#define TK_MAIN
#include "prod.h"
#include "matscen.h"
using namespace tk;

struct St { vs::Cnt alive, runs; };
template <class P> static pc::future<Val> add(Rng &r, P f, St &s, Ex e, bool use_exec, Out *fin = nullptr) {
  St *p = &s;
  (void)fin;
  auto body = [p, t = Tok(s.alive), v = Val(6)](long id) { VS_CHECK(v.id() == 6, "captured state destroyed"); if (p->runs.inc() > 1) vs::fail("ran twice"); return Val(id + 1); };
  switch (r.below(3)) {
  case 0: { auto g = [b = std::move(body)](P x) mutable { Out o = get(x); return b(o.id); }; return use_exec ? f.then(e, std::move(g)) : f.then(std::move(g)); }
  case 1: { auto g = [b = std::move(body)](pc::promise<Val> q, P x) mutable { Out o = get(x); q.set_value(b(o.id)); }; return use_exec ? f.then(e, std::move(g)) : f.then(std::move(g)); }
  default: { auto g = [b = std::move(body)](P x) mutable { Out o = get(x); return pc::make_ready_future(b(o.id)); }; return use_exec ? f.then(e, std::move(g)) : f.then(std::move(g)); }
  }
}
struct Src {
  pc::promise<Val> p;
  pc::packaged_task<Val()> t;
  QueueEx q;
  St st;
  int kind;
  pc::future<Val> open(Rng &r) {
    kind = r.below(6);
    auto fn = [s = &st, t = Tok(st.alive)] { s->runs.inc(); return Val(7); };
    switch (kind) {
    case 0: case 1: { auto x = pc::make_promise<Val>(); p = std::move(x.first); return std::move(x.second); }
    case 2: { t = pc::packaged_task<Val()>(std::move(fn)); return t.get_future(); }
    case 3: return pc::async(Ex{&q}, std::move(fn));
    case 4: { auto x = pc::make_promise<Val>(std::allocator<char>()); p = std::move(x.first); return std::move(x.second); }
    default: { auto x = pc::make_promise<Val>(pc::canceler_arg, [] { vs::fail("cancel action ran although the result was produced or abandoned"); }); p = std::move(x.first); return std::move(x.second); }
    }
  }
  bool prom() const { return kind != 2 && kind != 3; }
  void fire(const Out &o) {
    if (kind == 2) { pc::packaged_task<Val()> g(std::move(t)); if (o.kind != BROKEN) g(); }
    else if (kind == 3) { if (o.kind == BROKEN) q.drop_all(); else q.run_all(); }
    else satisfy(std::move(p), o);
  }
};

// detach, drop everything, produce: every function leading to the future runs exactly once
static void detached(Rng &r, bool threads) {
  Src s;
  Execs ex;
  int n = r.range(0, 4);
  std::deque<St> st(n);
  pc::future<Val> f = s.open(r);
  for (int i = 0; i < n; i++) {
    Ex e = threads ? ex.any(r) : (r.chance(50) ? Ex{&ex.inl} : Ex{&ex.queue});
    if (r.chance(25)) f = add(r, f.share(), st[i], e, r.chance(50));
    else f = add(r, std::move(f), st[i], e, r.chance(50));
  }
  Out o = random_out(r, 60, 20);
  int when = threads ? r.below(3) : r.below(2); // before / after / concurrently
  bool shared = r.chance(40);
  std::thread t;
  if (when == 1) s.fire(o);
  if (when == 2) t = std::thread([&] { vs::point(); s.fire(o); });
  bool keep = r.chance(30);
  pc::future<Val> kf;
  pc::shared_future<Val> ks;
  std::vector<pc::shared_future<Val>> copies;
  {
    int times = r.chance(20) ? 2 : 1;
    if (shared) { ks = f.share(); copies.assign(r.chance(40) ? r.range(1, 8) : 0, ks); for (int i = 0; i < times; i++) { pc::shared_future<Val> c = ks; ks = c.detach(); } VS_CHECK(ks.valid(), "detach returned an invalid shared_future"); }
    else { for (int i = 0; i < times; i++) { kf = f.detach(); VS_CHECK(!f.valid(), "detach left the source valid"); f = std::move(kf); } kf = std::move(f); VS_CHECK(kf.valid(), "detach returned an invalid future"); }
  }
  copies.clear();
  if (!keep) {
    if (threads && r.chance(40)) { std::thread d([a = std::move(kf), b = std::move(ks)]() mutable { vs::point(); a = pc::future<Val>(); b = pc::shared_future<Val>(); }); d.join(); }
    kf = pc::future<Val>();
    ks = pc::shared_future<Val>();
  }
  if (when == 0) {
    if (s.prom()) VS_CHECK(s.p.is_awaiten(), "promise behind a detached future is not awaited");
    for (int i = 0; i < n; i++) VS_CHECK(st[i].alive.get() >= 1, "function %d of a detached chain was destroyed before it ran", i);
    s.fire(o);
  }
  if (t.joinable()) t.join();
  ex.finish();
  if (s.kind == 2 || s.kind == 3) VS_CHECK(s.st.runs.get() == (o.kind == BROKEN ? 0 : 1), "detached task ran %ld times", s.st.runs.get());
  for (int i = 0; i < n; i++) VS_CHECK(st[i].runs.get() == 1, "function %d of a detached chain ran %ld times (when %d)", i, st[i].runs.get(), when);
  for (int i = 0; i < n; i++) VS_CHECK(st[i].alive.get() == 0, "function %d not released after it ran", i);
  VS_CHECK(s.st.alive.get() == 0, "source function not released");
  if (keep) {
    Out got = kf.valid() ? get(kf) : get(ks);
    if (n) VS_CHECK(got.kind == V, "detached future lost its result: %s", got.str());
    else if (s.prom()) expect_out(got, o.kind == V ? Out{V, o.id} : o, "detached future");
  }
}
SCEN_F(detach_seq, 3, vs::SEQ) { detached(r, false); }
SCEN(detach_threads, 5) { detached(r, true); }

// what is attached after the detach can still be cancelled on its own
SCEN(after_detach, 3) {
  Src s;
  Execs ex;
  std::deque<St> before(1), after(2);
  pc::future<Val> f = add(r, s.open(r), before[0], ex.any(r, false), r.chance(50));
  f = f.detach();
  Ex e = ex.any(r, false);
  pc::future<Val> g, h;
  if (r.chance(50)) { auto sf = f.share(); g = add(r, sf, after[0], e, r.chance(50)); h = add(r, sf, after[1], e, r.chance(50)); }
  else { g = add(r, std::move(f), after[0], e, r.chance(50)); }
  bool conc = r.chance(50);
  std::thread t;
  if (conc) t = std::thread([&] { vs::point(); s.fire(Out{V, 1}); });
  g = pc::future<Val>(); // cancels after[0] only
  if (!conc) {
    VS_CHECK(after[0].alive.get() == 0, "continuation attached after detach is not cancelled by dropping its result");
    VS_CHECK(before[0].alive.get() >= 1, "detached function cancelled by dropping a continuation attached later");
    if (s.prom()) VS_CHECK(s.p.is_awaiten(), "promise not awaited although detached");
    s.fire(Out{V, 1});
  } else t.join();
  ex.finish();
  VS_CHECK(before[0].runs.get() == 1, "detached function ran %ld times", before[0].runs.get());
  if (!conc) VS_CHECK(after[0].runs.get() == 0, "cancelled continuation ran");
  if (h.valid()) { VS_CHECK(after[1].runs.get() == 1, "other continuation ran %ld times", after[1].runs.get()); VS_CHECK(h.get().id() >= 0, "result"); }
  for (auto &x : after) VS_CHECK(x.alive.get() == 0, "continuation leaked");
  VS_CHECK(before[0].alive.get() == 0, "detached function leaked");
}

// everything kept alive by the detach is released by production or abandonment, not before
template <class T> static void released(Rng &r) {
  vs::Cnt cap;
  auto pf = pc::make_promise<T>();
  int mode = r.below(3);
  vs::Cnt notified;
  pf.second.notify([t = std::unique_ptr<Tok>(new Tok(cap)), &notified] { notified.inc(); });
  bool shared = r.chance(50);
  pc::promise<T> p = std::move(pf.first);
  if (shared) { auto sf = pf.second.share(); (void)sf.detach(); } else (void)pf.second.detach();
  VS_CHECK(!pf.second.valid(), "detach left the source valid");
  VS_CHECK(p.is_awaiten(), "detached future not awaited");
  VS_CHECK(cap.get() == 1 && notified.get() == 0, "notification of a detached future destroyed early");
  std::thread t([&] {
    if (mode == 0) Put<T>::value(p, 3);
    else if (mode == 1) p.set_exception(make_exc(E_CUSTOM, 1));
    else { pc::promise<T> g(std::move(p)); }
  });
  t.join();
  VS_CHECK(notified.get() == 1, "notification of a detached future ran %ld times", notified.get());
  VS_CHECK(cap.get() == 0, "notification of a detached future not released");
  if (mode != 2) VS_CHECK(!p.is_awaiten(), "still awaited after the outcome of a detached and dropped future was produced");
}
SCEN(released_val, 1) { released<Val>(r); }
SCEN(released_void, 1) { released<void>(r); }

// many detached chains on a pool; wait() finishes them all
SCEN(pool_detached, 3) {
  pc::static_thread_pool pool(r.range(1, 2));
  int n = r.range(1, 4);
  std::deque<St> st(n);
  for (int i = 0; i < n; i++) {
    St *s = &st[i];
    auto f = pc::async(pool.executor(), [s, t = Tok(s->alive)] { s->runs.inc(); return Val(3); });
    if (r.chance(50)) (void)f.next([s](Val v) { VS_CHECK(v.id() == 3, "value"); s->runs.inc(); }).detach();
    else { (void)f.detach(); s->runs.inc(); }
  }
  pool.wait();
  for (int i = 0; i < n; i++) { VS_CHECK(st[i].runs.get() == 2, "detached work ran %ld of 2 functions", st[i].runs.get()); VS_CHECK(st[i].alive.get() == 0, "leaked"); }
}
// copies are detached and dropped concurrently with production
SCEN(detach_race, 4) {
  Src s;
  St st;
  pc::shared_future<Val> f = add(r, s.open(r), st, Ex{nullptr}, false).share();
  int n = r.range(1, 3);
  std::vector<std::thread> ts;
  vs::Cnt fired;
  (void)pc::shared_future<Val>(f).detach();
  for (int i = 0; i < n; i++) ts.emplace_back([f, k = r.below(3)]() mutable { vs::point(); if (k == 0) (void)f.detach(); if (k == 1) { auto g = f.detach(); f = pc::shared_future<Val>(); } f = pc::shared_future<Val>(); });
  f = pc::shared_future<Val>();
  s.fire(random_out(r, 60, 20));
  for (auto &t : ts) t.join();
  VS_CHECK(st.runs.get() == 1, "detached function ran %ld times", st.runs.get());
  VS_CHECK(st.alive.get() == 0, "detached function leaked");
}

// over every way of attaching a function
SCEN(mat_detach, 3) { mat::detached(r, false); }
SCEN(mat_detach_t, 3) { mat::detached(r, true); }
