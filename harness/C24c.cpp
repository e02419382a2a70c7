#include "C24.h"
// several awaits in one coroutine, resumed on different threads
static pc::future<long> sum(Co &c, std::vector<pc::future<Val>> in, long *out_thr) {
  Frame fr(c);
  c.started.inc();
  long s = 0;
  for (auto &f : in) {
    bool was_ready = f.is_ready();
    (void)was_ready;
    try {
      Val v = co_await f;
      s = s * 3 + v.id();
    } catch (const Err &e) { s = s * 3 + 100 + e.id; }
    c.resumed.inc();
    VS_CHECK(!f.valid(), "awaited future still valid");
    vs::point();
  }
  c.finished.inc();
  co_return s;
}
SCEN(many_awaits, 4) {
  Co c;
  int n = r.range(0, 5);
  std::vector<pc::promise<Val>> ps;
  std::vector<pc::future<Val>> fs;
  std::vector<Out> os;
  long want = 0;
  for (int i = 0; i < n; i++) {
    auto p = pc::make_promise<Val>();
    ps.push_back(std::move(p.first));
    fs.push_back(std::move(p.second));
    os.push_back(Out(r.chance(75) ? V : E_CUSTOM, r.range(0, 20)));
    want = want * 3 + os[i].id + (os[i].kind == V ? 0 : 100);
  }
  std::vector<std::thread> ts;
  int nt = r.range(1, 3);
  for (int k = 0; k < nt; k++)
    ts.emplace_back([&, k] { for (int i = k; i < n; i += nt) { vs::point(); satisfy(std::move(ps[i]), os[i]); } });
  auto f = sum(c, std::move(fs), nullptr);
  VS_CHECK(f.get() == want, "sum over awaited futures is wrong");
  for (auto &t : ts) t.join();
  VS_CHECK(c.resumed.get() == n && c.finished.get() == 1 && c.frames.get() == 0, "resumed %ld times for %d awaits, %ld frames", c.resumed.get(), n, c.frames.get());
}
// nested coroutines and plain continuations in one chain
static pc::future<Val> nest(Co &c, int depth, pc::future<Val> leaf) {
  Frame fr(c);
  if (depth == 0) { Val v = co_await leaf; co_return Val(v.id() + 1); }
  if (depth % 2) { Val v = co_await nest(c, depth - 1, std::move(leaf)); co_return Val(v.id() + 1); }
  auto f = nest(c, depth - 1, std::move(leaf)).then([](pc::future<Val> x) { return x.get(); });
  auto s = f.share();
  const Val &v = co_await s;
  co_return Val(v.id() + 1);
}
SCEN(nested, 3) {
  Co c;
  auto p = pc::make_promise<Val>();
  int d = r.range(0, 5);
  Out o = random_out(r, 70, 10);
  if (o.kind == V) o.id = 7;
  bool pre = r.chance(30);
  if (pre) satisfy(std::move(p.first), o);
  std::thread t;
  if (!pre) t = std::thread([&] { vs::point(); satisfy(std::move(p.first), o); });
  auto f = nest(c, d, std::move(p.second));
  Rng cr = r.fork();
  Out got = observe<Val>(cr, std::move(f));
  if (t.joinable()) t.join();
  if (o.kind == V) o.id += d + 1;
  expect_out(got, o, "nested coroutines");
  VS_CHECK(c.frames.get() == 0, "coroutine frames leaked (%ld)", c.frames.get());
}
// producing without awaiting
template <class T> static pc::future<T> produce(Co &c, Out o) {
  Frame fr(c);
  if (o.kind != V) throw_exc(o.kind, o.id);
  co_return VT<T>::make(o.id);
}
static pc::future<void> produce_void(Co &c, Out o) {
  Frame fr(c);
  if (o.kind != V) throw_exc(o.kind, o.id);
  co_return;
}
static pc::future<Val> produce_lvalue(Co &c, const Val &keep) {
  Frame fr(c);
  co_return keep;
}
static pc::future<MVal> produce_local(Co &c) {
  Frame fr(c);
  MVal m(6);
  co_return m;
}
SCEN_F(produces, 3, vs::SEQ) {
  Co c;
  Out o = random_out(r, 60, 0);
  switch (r.below(6)) {
  case 0: { auto f = produce<Val>(c, o); VS_CHECK(f.is_ready(), "coroutine without awaits did not finish at once"); expect_out(get(f), o, "coroutine"); break; }
  case 1: { auto f = produce<MVal>(c, o); expect_out(get(f), o, "coroutine"); break; }
  case 2: { auto f = produce<long &>(c, o); expect_out(get(f), o, "coroutine"); break; }
  case 3: { auto f = produce_void(c, o); expect_out(get(f), norm<void>(o), "coroutine"); break; }
  case 4: { Val k(9); auto f = produce_lvalue(c, k); VS_CHECK(f.get().id() == 9 && k.id() == 9, "object returned from a coroutine was moved from"); break; }
  default: { auto f = produce_local(c); VS_CHECK(f.get().id() == 6, "local"); break; }
  }
  VS_CHECK(c.frames.get() == 0, "frame leaked");
}
// many coroutines await copies of one shared_future
static pc::future<long> reader(Co &c, pc::shared_future<Val> s, const void **a) {
  Frame fr(c);
  const Val &v = co_await s;
  *a = &v;
  c.resumed.inc();
  co_return v.id();
}
SCEN(shared_readers, 4) {
  Co c;
  auto p = pc::make_promise<Val>();
  auto s = p.second.share();
  int n = r.range(1, 4);
  std::vector<const void *> as(n);
  std::vector<pc::future<long>> fs(n);
  std::vector<std::thread> ts;
  Out o = random_out(r, 75, 10);
  for (int i = 0; i < n; i++) ts.emplace_back([&, i, s]() mutable { vs::point(); fs[i] = reader(c, std::move(s), &as[i]); });
  vs::point();
  satisfy(std::move(p.first), o);
  for (auto &t : ts) t.join();
  for (int i = 0; i < n; i++) { VS_CHECK(fs[i].is_ready(), "coroutine not finished although the future it awaits is ready"); expect_out(get(fs[i]), o, "coroutine awaiting a shared_future"); }
  if (o.kind == V) { for (auto a : as) VS_CHECK(a == as[0], "coroutines saw different objects"); VS_CHECK(c.resumed.get() == n, "resumed %ld of %d", c.resumed.get(), n); }
  VS_CHECK(c.frames.get() == 0, "frames leaked");
}
// executors, tasks and combinators inside a coroutine
static pc::future<long> mixed(Co &c, Ex e, Ex e2, pc::future<Val> f) {
  Frame fr(c);
  long a = co_await pc::async(e, [l = Life()] { return 5L; });
  auto t = co_await pc::when_all(f.share(), pc::async(e2, [a] { return a + 1; }));
  Val v = std::get<0>(t).get();
  long b = std::get<1>(t).get();
  std::vector<pc::future<long>> any;
  any.push_back(pc::async(e, [] { return 3L; }));
  auto w = co_await pc::when_any(std::move(any));
  long d = co_await w.futures[w.index];
  co_return v.id() * 1000 + a * 100 + b * 10 + d;
}
SCEN(inside_executors, 3) {
  Co c;
  Execs ex;
  auto p = pc::make_promise<Val>();
  Ex e = ex.any(r, false), e2 = ex.any(r, false);
  std::thread t([&] { vs::point(); satisfy(std::move(p.first), Out(V, 2)); });
  auto f = mixed(c, e, e2, std::move(p.second));
  VS_CHECK(f.get() == 2563, "coroutine mixing executors and combinators");
  t.join();
  ex.finish();
  VS_CHECK(c.frames.get() == 0, "frame leaked");
}
// the producer of the awaited future is abandoned
static pc::future<int> waits(Co &c, pc::future<Val> f) {
  Frame fr(c);
  try { (void)co_await f; } catch (const std::future_error &e) { mark_resumed(c); co_return e.code() == std::future_errc::broken_promise ? 1 : 2; }
  co_return 3;
}
SCEN(abandoned, 3) {
  Co c;
  Producer<Val> p = make_producer<Val>(r);
  auto f = waits(c, std::move(p.fut));
  bool drop = r.chance(30);
  std::thread t([&] { vs::point(); p.impl->fire(Out(BROKEN, 0)); });
  if (drop) f = pc::future<int>();
  else VS_CHECK(f.get() == 1, "coroutine awaiting an abandoned future");
  t.join();
  VS_CHECK(c.resumed.get() == 1 && c.frames.get() == 0, "resumed %ld times, %ld frames", c.resumed.get(), c.frames.get());
}
