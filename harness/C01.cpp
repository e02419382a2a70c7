#define TK_MAIN
#include "deliver.h"

SCEN(deliver_void, 2) { deliver<void>(r); }

// a value travelling by move is never copied; a copied-in value leaves the original alone
SCEN_F(no_copies, 2, vs::SEQ) {
  long id = r.range(0, NREF - 1);
  int in = r.below(6), out = r.below(7);
  Val keep(id);
  long base = g_copies.get(), expect = 0;
  pc::future<Val> f;
  auto pf = pc::make_promise<Val>();
  bool late = r.chance(50);
  std::function<void()> fire;
  switch (in) {
  case 0: f = std::move(pf.second); fire = [&] { pf.first.set_value(Val(id)); }; break;
  case 1: f = std::move(pf.second); fire = [&] { pf.first.set_value(keep); }; expect = 1; break;
  case 2: f = pc::make_ready_future(Val(id)); break;
  case 3: f = pc::make_ready_future(keep); expect = 1; break;
  case 4: f = std::move(pf.second); fire = [&] { const Val &c = keep; pf.first.set_value(c); }; expect = 1; break;
  default: {
    static pc::packaged_task<Val(Val)> *t;
    t = new pc::packaged_task<Val(Val)>([](Val v) { return v; });
    f = t->get_future();
    fire = [id] { (*t)(Val(id)); delete t; };
  }
  }
  if (!late && fire) fire();
  long got = -5;
  auto finish = [&] { if (late && fire) fire(); };
  switch (out) {
  case 0: finish(); got = f.get().id(); break;
  case 1: finish(); { Val v = f.get(); got = v.id(); } break;
  case 2: { auto g = f.next([](Val v) { return v; }); finish(); got = g.get().id(); break; }
  case 3: { auto g = f.then([](pc::future<Val> x) { return x.get(); }); finish(); got = g.get().id(); break; }
  case 4: { auto g = f.then([](pc::future<Val> x) { return x; }); finish(); got = g.get().id(); break; }
  case 5: { auto g = pc::when_all(std::move(f)); finish(); got = std::get<0>(g.get()).get().id(); break; }
  default: { auto s = f.share(); finish(); got = s.get().id(); break; }
  }
  VS_CHECK(got == id, "value %ld delivered as %ld (in %d out %d)", id, got, in, out);
  VS_CHECK(keep.id() == id, "the user's own object was moved from (in %d)", in);
  VS_CHECK(g_copies.get() - base == expect, "value copied %ld times, expected %ld (in %d out %d)", g_copies.get() - base, expect, in, out);
}

template <class P> static std::future_errc attempt(P &&p) {
  try { p(); } catch (const std::future_error &e) { return static_cast<std::future_errc>(e.code().value()); }
  return static_cast<std::future_errc>(0);
}
// at most one outcome: later attempts throw promise_already_satisfied and change nothing
template <class T> static void satisfied_once(Rng &r) {
  pc::promise<T> p;
  pc::future<T> f;
  switch (r.below(4)) {
  case 0: { auto x = pc::make_promise<T>(); p = std::move(x.first); f = std::move(x.second); break; }
  case 1: f = p.get_future(); break;
  case 2: { auto x = pc::make_promise<T>(pc::canceler_arg, [] { vs::fail("cancel action of a satisfied promise ran"); }); p = std::move(x.first); f = std::move(x.second); break; }
  default: { auto x = pc::make_promise<T>(std::allocator<int>{}); p = std::move(x.first); f = std::move(x.second); }
  }
  Out first = with_ep(random_out(r, 60, 0));
  int reentrant = r.below(3);
  Rng rr = r.fork();
  vs::Cnt inner;
  auto try_again = [&](Rng &q) {
    Out o = with_ep(random_out(q, 60, 0));
    auto e = attempt([&] { if (o.kind == V) Put<T>::value(p, o.id); else p.set_exception(o.ep); });
    VS_CHECK(e == std::future_errc::promise_already_satisfied, "second satisfaction reported %d instead of promise_already_satisfied", (int)e);
  };
  struct Ctx { decltype(try_again) &f; Rng &q; vs::Cnt &c; } ctx{try_again, rr, inner};
  if (reentrant == 1) f.notify([&ctx] { ctx.f(ctx.q); ctx.c.inc(); });
  if (reentrant == 2) (void)f.then([&ctx](pc::future<T> x) { ctx.f(ctx.q); ctx.c.inc(); return x; }).detach();
  bool moved = reentrant == 2;
  pc::shared_future<T> sf;
  if (!moved && r.chance(30)) { sf = f.share(); }
  if (first.kind == V) Put<T>::value(p, first.id); else p.set_exception(first.ep);
  if (reentrant) VS_CHECK(inner.get() == 1, "continuation did not run during set");
  int n = moved ? 0 : r.range(1, 3);
  for (int i = 0; i < n; i++) try_again(r);
  if (r.chance(50)) { pc::promise<T> gone(std::move(p)); }
  if (!moved) {
    if (sf.valid()) { expect_out(get(sf), norm<T>(first), "shared result after repeated satisfaction"); expect_out(get(sf), norm<T>(first), "second read"); }
    else expect_out(get(f), norm<T>(first), "result after repeated satisfaction");
  }
}
SCEN_F(once_val, 2, vs::SEQ) { satisfied_once<Val>(r); }
SCEN_F(once_void, 1, vs::SEQ) { satisfied_once<void>(r); }
SCEN_F(once_ref, 1, vs::SEQ) { satisfied_once<long &>(r); }

// the losing attempts race with readers of the first result
SCEN(once_race, 2) {
  auto pf = pc::make_promise<Val>();
  pc::shared_future<Val> sf = pf.second.share();
  long id = r.range(0, NREF - 1);
  int readers = r.range(1, 2);
  std::vector<std::thread> ts;
  for (int i = 0; i < readers; i++) ts.emplace_back([sf, id] {
    for (int k = 0; k < 2; k++) VS_CHECK(sf.get().id() == id, "reader saw %ld instead of %ld", sf.get().id(), id);
  });
  pf.first.set_value(Val(id));
  for (int k = 0; k < 2; k++) {
    auto e = attempt([&] { if (k == 0) pf.first.set_value(Val(id + 100)); else pf.first.set_exception(make_exc(E_CUSTOM, 5)); });
    VS_CHECK(e == std::future_errc::promise_already_satisfied, "second satisfaction accepted");
  }
  for (auto &t : ts) t.join();
}

// construction of the stored value throws
struct Thrower {
  Val v;
  int *fuse; // counts down on copy; throws at 0
  Thrower(long id, int *f) : v(id), fuse(f) {}
  Thrower(const Thrower &o) : v(o.v), fuse(o.fuse) { if (fuse && (*fuse)-- == 0) throw Err(77); }
  Thrower(Thrower &&o) : v(std::move(o.v)), fuse(o.fuse) {}
};
SCEN(throwing_ctor, 2) {
  auto pf = pc::make_promise<Thrower>();
  long id = r.range(0, NREF - 1);
  int fuse = r.chance(80) ? 0 : -1;
  Thrower src(id, &fuse);
  bool threaded = r.chance(60);
  vs::Cnt released, allowed, notified;
  bool notify = r.chance(50);
  if (notify) pf.second.notify([&] { notified.inc(); VS_CHECK(allowed.get(), "notified although constructing the value threw"); });
  std::thread waiter;
  pc::shared_future<Thrower> sf = pf.second.share();
  if (threaded) waiter = std::thread([&, sf] { long got = sf.get().v.id(); VS_CHECK(allowed.get(), "waiter released although constructing the value threw"); VS_CHECK(got == id, "wrong value"); released.inc(); });
  bool thrown = false;
  int attempts = 0;
  if (fuse == 0) {
    try { pf.first.set_value(src); } catch (const Err &e) { thrown = e.id == 77; }
    VS_CHECK(thrown, "exception of the value's constructor did not reach the caller of set_value");
    VS_CHECK(!sf.is_ready(), "future ready although constructing the value threw");
    VS_CHECK(pf.first.is_awaiten(), "is_awaiten false after failed set_value");
    vs::cover("ctor-threw");
    attempts++;
  }
  fuse = -1;
  allowed.set(1);
  if (r.chance(70)) pf.first.set_value(src);
  else if (!threaded) { pf.first.set_exception(make_exc(E_CUSTOM, 3)); id = -1; }
  else pf.first.set_value(Thrower(id, nullptr));
  if (threaded) waiter.join();
  VS_CHECK(sf.is_ready(), "promise could not be satisfied after a throwing constructor");
  if (notify) VS_CHECK(notified.get() == 1, "notification ran %ld times", notified.get());
  if (id >= 0) VS_CHECK(sf.get().v.id() == id, "wrong value after throwing constructor");
  else { Out o; try { sf.get(); } catch (...) { o = classify(); } VS_CHECK(o.kind == E_CUSTOM && o.id == 3, "wrong exception"); }
  VS_CHECK(src.v.id() >= 0, "source object changed");
}

// objects returned or passed by reference stay the user's
SCEN_F(user_objects, 1, vs::SEQ) {
  long id = r.range(0, NREF - 1);
  std::string s = VT<std::string>::make(id), copy = s;
  Val v(id);
  switch (r.below(4)) {
  case 0: { pc::packaged_task<std::string()> t([&]() -> std::string & { return s; }); auto f = t.get_future(); t(); VS_CHECK(f.get() == copy, "wrong value"); break; }
  case 1: { pc::packaged_task<Val()> t([&]() -> Val & { return v; }); auto f = t.get_future(); t(); VS_CHECK(f.get().id() == id, "wrong value"); break; }
  case 2: { pc::packaged_task<Val()> t([&]() -> const Val & { return v; }); auto f = t.get_future(); t(); VS_CHECK(f.get().id() == id, "wrong value"); break; }
  default: { pc::packaged_task<Val &()> t([&]() -> Val & { return v; }); auto f = t.get_future(); t(); Val &x = f.get(); VS_CHECK(&x == &v, "different object referenced"); }
  }
  VS_CHECK(s == copy, "a string returned by reference was moved from");
  VS_CHECK(v.id() == id, "an object returned by reference was moved from");
}

SCEN_F(makers, 1, vs::SEQ) {
  long id = r.range(0, NREF - 1);
  switch (r.below(6)) {
  case 0: { auto f = pc::make_ready_future(VT<std::string>::make(id)); VS_CHECK(f.is_ready() && VT<std::string>::id(f.get()) == id, "make_ready_future"); break; }
  case 1: { auto f = pc::make_ready_future(); VS_CHECK(f.valid() && f.is_ready(), "make_ready_future<void>"); f.get(); break; }
  case 2: { auto f = pc::make_ready_future(std::ref(g_refs[id])); VS_CHECK(f.is_ready() && &f.get() == &g_refs[id], "make_ready_future(ref)"); break; }
  case 3: { Out o = with_ep({random_exc(r), id}); auto f = pc::make_exceptional_future<Val>(o.ep); VS_CHECK(f.is_ready(), "not ready"); expect_out(get(f), o, "make_exceptional_future(ptr)"); break; }
  case 4: { auto f = pc::make_exceptional_future<long &>(Err(id)); VS_CHECK(f.is_ready(), "not ready"); expect_out(get(f), Out{E_CUSTOM, id}, "make_exceptional_future(obj)"); break; }
  default: { auto f = pc::make_exceptional_future<void>(NonStd(id)); expect_out(get(f), Out{E_NONSTD, id}, "make_exceptional_future(nonstd)"); }
  }
}
SCEN_F(aligned, 1, vs::SEQ) {
  auto pf = pc::make_promise<Aligned>();
  long id = r.range(0, NREF - 1);
  auto f = r.chance(50) ? pf.second.next([](Aligned a) { return a; }) : std::move(pf.second);
  pf.first.set_value(Aligned(id));
  auto s = f.share();
  VS_CHECK(s.get().id() == id, "aligned value damaged");
}
