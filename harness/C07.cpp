#define TK_MAIN
#include "prod.h"
#include "matscen.h"
using namespace tk;

enum Src { S_THEN, S_NEXT, S_TASK, S_ASYNC, S_SHARED_THEN, S_SHARED_NEXT, NSRC };
// something that, when started, calls a function returning F (future<T> or shared_future<T>)
template <class F> struct Outer {
  pc::promise<void> start;
  pc::packaged_task<F()> task;
  QueueEx q;
  int src;
  void fire() {
    switch (src) {
    case S_TASK: { pc::packaged_task<F()> t(std::move(task)); t(); break; }
    case S_ASYNC: q.run_all(); break;
    default: { pc::promise<void> p(std::move(start)); p.set_value(); }
    }
  }
  void abandon() {
    switch (src) {
    case S_TASK: { pc::packaged_task<F()> t(std::move(task)); break; }
    case S_ASYNC: q.drop_all(); break;
    default: { pc::promise<void> p(std::move(start)); }
    }
  }
};
template <class F, class Fn> static auto connect(Outer<F> &o, int s, Fn fn) {
  o.src = s;
  auto pf = pc::make_promise<void>();
  o.start = std::move(pf.first);
  F res; // the unwrapped type: future<T> or shared_future<T>
  switch (s) {
  case S_THEN: res = pf.second.then([g = std::move(fn)](pc::future<void> x) mutable -> F { x.get(); return g(); }); break;
  case S_NEXT: res = pf.second.next([g = std::move(fn)]() mutable -> F { return g(); }); break;
  case S_TASK: { pc::packaged_task<F()> t([g = std::move(fn)]() mutable -> F { return g(); }); res = t.get_future(); o.task = std::move(t); break; }
  case S_ASYNC: res = pc::async(Ex{&o.q}, [g = std::move(fn)]() mutable -> F { return g(); }); break;
  case S_SHARED_THEN: { auto sf = pf.second.share(); res = sf.then([g = std::move(fn)](pc::shared_future<void> x) mutable -> F { x.get(); return g(); }); break; }
  default: { auto sf = pf.second.share(); res = sf.next([g = std::move(fn)]() mutable -> F { return g(); }); }
  }
  return res;
}
template <class T> static Out look(Rng &r, pc::future<T> f) { return observe(r, std::move(f)); }
template <class T> static Out look(Rng &r, pc::shared_future<T> f) {
  switch (r.below(6)) {
  case 0: f.wait(); VS_CHECK(f.is_ready(), "not ready after wait"); return get(f);
  case 1: while (!f.is_ready()) std::this_thread::yield(); return get(f);
  case 2: return f.then([](pc::shared_future<T> x) { VS_CHECK(x.is_ready(), "unready"); return get(x); }).get();
  case 3: return get_out(NextOut<T>::of(f));
  case 4: { pc::timed_waiter w(f); while (w.wait_for(std::chrono::milliseconds(1)) != pc::future_status::ready) {} return get(f); }
  default: return get(f);
  }
}
template <class T, class F> static F to(pc::future<T> f, F *) { return F(std::move(f)); }

// how: 0 inner future resolved later/before; 1 invalid inner; 2 function throws; 3 function abandoned
template <class T, class F> static void unwrap(Rng &r) {
  Outer<F> o;
  Out in = with_ep(random_out(r, 60, 15));
  int how = r.chance(70) ? 0 : r.range(1, 3);
  Producer<T> p = make_producer<T>(r, r.below(6));
  auto inner = std::make_shared<F>(std::move(p.fut));
  F keep;
  bool shared = std::is_same<F, pc::shared_future<T>>::value;
  if (how == 1) *inner = F();
  Out thrown = with_ep({random_exc(r), 5});
  vs::Cnt alive, runs;
  int s = r.below(NSRC);
  auto res = connect(o, s, [inner, how, thrown, tok = Tok(alive), &runs]() -> F {
    runs.inc();
    if (how == 2) std::rethrow_exception(thrown.ep);
    return std::move(*inner);
  });
  Out want = how == 0 ? norm<T>(in) : how == 2 ? thrown : Out{BROKEN, 0};
  int order = r.below(4);
  (void)shared;
  if (how != 0) {
    inner.reset();
    std::thread t([&] { vs::point(); if (how == 3) o.abandon(); else o.fire(); });
    Out got = look(r, std::move(res));
    t.join();
    expect_out(got, want, "unwrapped result");
    VS_CHECK(runs.get() == (how == 3 ? 0 : 1), "function ran %ld times", runs.get());
    VS_CHECK(alive.get() == 0, "function still alive");
    p.impl->fire(in);
    return;
  }
  inner.reset();
  if (order == 0) { // outer first, then inner
    o.fire();
    VS_CHECK(!res.is_ready(), "unwrapped future ready before the inner one (source %d)", s);
    std::thread t([&] { vs::point(); p.impl->fire(in); });
    Out got = look(r, std::move(res));
    t.join();
    expect_out(got, want, "unwrapped result");
  } else if (order == 1) { // inner first
    p.impl->fire(in);
    VS_CHECK(!res.is_ready(), "unwrapped future ready before the outer one");
    std::thread t([&] { vs::point(); o.fire(); });
    Out got = look(r, std::move(res));
    t.join();
    expect_out(got, want, "unwrapped result");
  } else {
    std::thread t([&] { vs::point(); o.fire(); });
    std::thread t2([&] { vs::point(); p.impl->fire(in); });
    Out got = look(r, std::move(res));
    t.join();
    t2.join();
    expect_out(got, want, "unwrapped result");
  }
  VS_CHECK(runs.get() == 1, "function ran %ld times", runs.get());
  VS_CHECK(alive.get() == 0, "function still alive");
}
SCEN(unwrap_val, 3) { unwrap<Val, pc::future<Val>>(r); }
SCEN(unwrap_void, 2) { unwrap<void, pc::future<void>>(r); }
SCEN(unwrap_ref, 2) { unwrap<long &, pc::future<long &>>(r); }
SCEN(unwrap_mval, 1) { unwrap<MVal, pc::future<MVal>>(r); }
SCEN(unwrap_shared_val, 2) { unwrap<Val, pc::shared_future<Val>>(r); }
SCEN(unwrap_shared_void, 1) { unwrap<void, pc::shared_future<void>>(r); }

// nesting: each level returns the future of the next one
struct Lvl {
  pc::promise<void> go;
  pc::future<void> gate;
};
static pc::future<Val> nest(int depth, std::vector<Lvl> &lv, pc::future<Val> &leaf, Rng &r, Execs &ex) {
  if (depth == 0) return std::move(leaf);
  Lvl &l = lv[depth - 1];
  int k = r.below(3);
  Rng q = r.fork();
  Ex e = ex.any(r, false);
  auto body = [depth, &lv, &leaf, q, &ex]() mutable { return nest(depth - 1, lv, leaf, q, ex); };
  if (k == 0) return l.gate.next(std::move(body));
  if (k == 1) return l.gate.then([b = std::move(body)](pc::future<void>) mutable { return b(); });
  (void)e;
  auto sf = l.gate.share();
  return sf.next(std::move(body));
}
SCEN(nesting, 3) {
  int d = r.range(1, 4);
  Execs ex;
  std::vector<Lvl> lv(d);
  for (auto &l : lv) { auto x = pc::make_promise<void>(); l.go = std::move(x.first); l.gate = std::move(x.second); }
  auto leaf = pc::make_promise<Val>();
  Out in = with_ep(random_out(r, 60, 15));
  pc::future<Val> f = nest(d, lv, leaf.second, r, ex);
  // resolve all parts in random order from up to three threads
  std::vector<int> order;
  for (int i = 0; i <= d; i++) order.push_back(i);
  for (int i = d; i > 0; i--) std::swap(order[i], order[r.below(i + 1)]);
  auto part = [&](int i) { if (i == d) satisfy(std::move(leaf.first), in); else { pc::promise<void> p(std::move(lv[i].go)); p.set_value(); } };
  int mode = r.below(3);
  if (mode == 0) {
    for (int i = 0; i <= d; i++) { VS_CHECK(!f.is_ready(), "nested future ready before all levels"); part(order[i]); }
    VS_CHECK(f.is_ready(), "nested future not ready although all levels are");
    expect_out(get(f), in, "nested");
  } else {
    std::thread a([&] { for (int i = 0; i <= d; i += 2) { vs::point(); part(order[i]); } });
    std::thread b([&] { for (int i = 1; i <= d; i += 2) { vs::point(); part(order[i]); } });
    Out got = observe(r, std::move(f));
    a.join();
    b.join();
    expect_out(got, in, "nested");
  }
  ex.finish();
}
// long dynamic chains of unwrapping (asynchronous recursion)
static pc::future<long> countdown(long n, long acc) {
  if (n == 0) return pc::make_ready_future(std::move(acc));
  return pc::make_ready_future().next([n, acc] { return countdown(n - 1, acc + n); });
}
SCEN_F(recursion, 1, vs::SEQ) {
  long n = r.range(1, 60);
  VS_CHECK(countdown(n, 0).get() == n * (n + 1) / 2, "asynchronous recursion gave the wrong result");
}
SCEN(pool_recursion, 1) {
  pc::static_thread_pool pool(2);
  struct L { static pc::future<long> f(pc::static_thread_pool &p, long n) { if (n == 0) return pc::make_ready_future(0L); return pc::async(p.executor(), [&p, n] { return f(p, n - 1); }).next([n](long x) { return x + n; }); } };
  long n = r.range(1, 3);
  VS_CHECK(L::f(pool, n).get() == n * (n + 1) / 2, "recursion over a pool gave the wrong result");
  pool.wait();
}

// dropping the outer future releases the inner one, before or after the function ran
SCEN(drop_outer, 4) {
  using F = pc::future<Val>;
  Outer<F> o;
  auto in = pc::make_promise<Val>();
  vs::Cnt alive, cancelled;
  auto canc = pc::make_promise<Val>(pc::canceler_arg, [&cancelled] { cancelled.inc(); });
  bool use_c = r.chance(50);
  pc::promise<Val> ip = use_c ? std::move(canc.first) : std::move(in.first);
  auto inner = std::make_shared<F>(use_c ? std::move(canc.second) : std::move(in.second));
  auto res = connect(o, r.below(NSRC), [inner, tok = Tok(alive)]() -> F { return std::move(*inner); });
  inner.reset();
  int when = r.below(4);
  VS_CHECK(ip.is_awaiten(), "inner promise not awaited");
  if (when == 0) { // before the function ran
    res = F();
    VS_CHECK(alive.get() == 0, "function alive after the result was dropped");
    VS_CHECK(!ip.is_awaiten(), "inner promise still awaited after the outer future was dropped");
    if (r.chance(50)) o.fire();
  } else if (when == 1) {
    o.fire();
    VS_CHECK(ip.is_awaiten(), "inner promise not awaited although the outer future lives");
    res = F();
    VS_CHECK(!ip.is_awaiten(), "inner promise still awaited after the outer future was dropped");
    ip.set_value(Val(3));
  } else {
    int d = r.below(3);
    std::thread t([&] { vs::point(); o.fire(); });
    std::thread t2([&] { vs::point(); if (d == 0) ip.set_value(Val(4)); });
    if (when == 2) vs::point();
    res = F();
    t.join();
    t2.join();
    VS_CHECK(!ip.is_awaiten(), "inner promise still awaited after the outer future was dropped");
    VS_CHECK(alive.get() == 0, "function alive after the result was dropped");
    if (use_c && d != 0) VS_CHECK(cancelled.get() == 1, "inner cancel action ran %ld times", cancelled.get());
    if (use_c && d == 0) VS_CHECK(cancelled.get() <= 1, "inner cancel action ran %ld times", cancelled.get());
  }
  if (use_c && when < 2) VS_CHECK(cancelled.get() == 1, "inner cancel action ran %ld times", cancelled.get());
}

// a shared inner future stays usable by its other owners, whatever happens to the outer one
SCEN(shared_inner, 3) {
  auto in = pc::make_promise<Val>();
  pc::shared_future<Val> sf = in.second.share();
  Outer<pc::shared_future<Val>> o;
  auto res = connect(o, r.below(NSRC), [sf]() { return sf; });
  Out out = with_ep(random_out(r, 60, 15));
  bool drop = r.chance(40);
  int n = r.range(1, 2);
  std::vector<std::thread> ts;
  for (int i = 0; i < n; i++) ts.emplace_back([sf, &out] { expect_out(get(sf), out, "other owner of the inner shared_future"); });
  ts.emplace_back([&] { vs::point(); o.fire(); });
  ts.emplace_back([&] { vs::point(); satisfy(std::move(in.first), out); });
  if (drop) res = pc::shared_future<Val>();
  else expect_out(look(r, res), out, "unwrapped shared");
  for (auto &t : ts) t.join();
  expect_out(get(sf), out, "inner shared_future afterwards");
}

// over every way of attaching a function
SCEN(mat_unwrap, 3) { mat::unwrapped(r, false); }
SCEN(mat_unwrap_t, 3) { mat::unwrapped(r, true); }
// the inner future comes from when_all / when_any
SCEN(unwrap_combined, 3) {
  int n = r.range(0, 3);
  std::vector<pc::promise<long>> ps;
  std::vector<pc::future<long>> fs;
  for (int i = 0; i < n; i++) { auto p = pc::make_promise<long>(); ps.push_back(std::move(p.first)); fs.push_back(std::move(p.second)); }
  int early = r.below(n + 1);
  for (int i = 0; i < early; i++) ps[i].set_value(i);
  bool any = r.chance(50);
  QueueEx q;
  Ex e{&q};
  auto gate = pc::make_promise<void>();
  bool open_late = r.chance(40);
  vs::Cnt ran;
  using VA = std::vector<pc::future<long>>;
  using VY = pc::when_any_result<VA>;
  pc::future<VA> a;
  pc::future<VY> y;
  int how = r.below(5);
  auto fa = [&ran, fs = &fs] { ran.inc(); return pc::when_all(std::move(*fs)); };
  auto fy = [&ran, fs = &fs] { ran.inc(); return pc::when_any(std::move(*fs)); };
  switch (how) {
  case 0: if (any) y = gate.second.next(fy); else a = gate.second.next(fa); break;
  case 1: if (any) y = gate.second.then(e, [fy](pc::future<void>) { return fy(); }); else a = gate.second.then(e, [fa](pc::future<void>) { return fa(); }); break;
  case 2: if (any) y = gate.second.share().next(fy); else a = gate.second.share().next(fa); break;
  case 3: if (any) y = pc::async(e, fy); else a = pc::async(e, fa); break;
  default: if (any) y = gate.second.next([e, fy] { return pc::async(e, fy); }); else a = gate.second.next([e, fa] { return pc::async(e, fa); });
  }
  auto rdy = [&] { return any ? y.is_ready() : a.is_ready(); };
  std::thread t;
  bool thr = r.chance(40) && n > early;
  auto start = [&] { gate.first.set_value(); if (q.size()) VS_CHECK(!rdy(), "ready before the function ran"); q.run_all(); };
  if (!open_late) start();
  if (thr) t = std::thread([&] { for (int i = early; i < n; i++) { vs::point(); ps[i].set_value(i); } });
  else for (int i = early; i <= n; i++) {
    if (!open_late) { bool want = any ? i > 0 || n == 0 : i == n; VS_CHECK(rdy() == want, "unwrapped %s: is_ready() == %d with %d of %d inputs", any ? "when_any" : "when_all", (int)rdy(), i, n); }
    else VS_CHECK(!rdy(), "ready before the function ran");
    if (i < n) ps[i].set_value(i);
  }
  if (open_late) start();
  if (any) {
    auto res = y.get();
    VS_CHECK(res.futures.size() == (size_t)n && (n == 0 ? res.index == size_t(-1) : res.index < (size_t)n && res.futures[res.index].is_ready()), "index %zu of %d", res.index, n);
    for (int i = 0; i < n; i++) VS_CHECK(res.futures[i].get() == i, "input lost");
  } else {
    auto res = a.get();
    VS_CHECK(res.size() == (size_t)n, "%zu inputs", res.size());
    for (int i = 0; i < n; i++) VS_CHECK(res[i].is_ready() && res[i].get() == i, "input lost");
  }
  if (t.joinable()) t.join();
  VS_CHECK(ran.get() == 1, "function ran %ld times", ran.get());
}

// a task whose function merely refers to a shared_future of the user: it is unwrapped and stays usable
template <class T> static void referred(Rng &r) {
  Producer<T> p = make_producer<T>(r, r.below(2));
  pc::shared_future<T> sf = p.fut.share();
  const pc::shared_future<T> &csf = sf;
  Out o = random_out(r);
  bool before = r.chance(50);
  if (before) p.impl->fire(o);
  pc::shared_future<T> f;
  if (r.chance(50)) {
    pc::packaged_task<pc::shared_future<T>()> t([&]() -> pc::shared_future<T> & { return sf; });
    f = t.get_future();
    t();
  } else {
    pc::packaged_task<pc::shared_future<T>(int)> t([&](int) -> const pc::shared_future<T> & { return csf; });
    f = t.get_future();
    t(1);
  }
  VS_CHECK(sf.valid(), "shared_future returned by reference was moved from");
  VS_CHECK(f.is_ready() == before, "unwrapped result ready: %d", (int)f.is_ready());
  if (!before) { std::thread t([&] { p.impl->fire(o); }); expect_out(get(f), o, "unwrapped result"); t.join(); }
  else expect_out(get(f), o, "unwrapped result");
  VS_CHECK(sf.valid() && sf.is_ready(), "shared_future returned by reference was changed");
}
SCEN(referred_val, 1) { referred<Val>(r); }
