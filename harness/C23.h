#pragma once
#include "prod.h"
using namespace tk;

enum Where { INSIDE, INSIDE_LATE, AFTER_MAIN, OTHER_THREAD, DROP_INSIDE, DROP_LATER, TWICE, MOVED, CHAINED, NWHERE };
struct IntState {
  vs::Cnt runs, fn_alive, returned;
};
template <class R> struct Box { // the promise handed out of the continuation
  std::mutex m;
  std::condition_variable cv;
  std::unique_ptr<pc::promise<R>> p;
  void put(pc::promise<R> x) { std::lock_guard<std::mutex> g(m); p.reset(new pc::promise<R>(std::move(x))); cv.notify_all(); }
  pc::promise<R> take() { std::unique_lock<std::mutex> l(m); cv.wait(l, [this] { return !!p; }); pc::promise<R> x(std::move(*p)); p.reset(); return x; }
};
template <class R> static void set_once(pc::promise<R> &p, const Out &o) {
  if (o.kind == V) Put<R>::value(p, o.id);
  else p.set_exception(o.ep ? o.ep : make_exc(o.kind, o.id));
}
// body of the continuation, common to unique and shared parents
template <class R, class F> static void body(IntState &st, Box<R> &box, int where, const Out &want, const Out &parent_want, const char *pname, pc::promise<R> p, F parent) {
  if (st.runs.inc() > 1) vs::fail("interruptible continuation ran twice");
  VS_CHECK(parent.valid() && parent.is_ready(), "interruptible continuation got an invalid or unready parent");
  expect_out(get(parent), parent_want, pname);
  switch (where) {
  case INSIDE: set_once(p, want); break;
  case INSIDE_LATE: { vs::point(); pc::promise<R> q(std::move(p)); vs::point(); set_once(q, want); vs::point(); break; }
  case AFTER_MAIN: case OTHER_THREAD: case DROP_LATER: box.put(std::move(p)); break;
  case DROP_INSIDE: break;
  case TWICE: {
    bool aw = p.is_awaiten();
    try { set_once(p, want); } catch (...) { vs::fail("first set failed"); }
    try { p.set_exception(make_exc(E_INT, 99)); VS_CHECK(!aw || !p.is_awaiten(), "second set of an awaited promise did not fail"); }
    catch (const std::future_error &e) { VS_CHECK(e.code() == std::future_errc::promise_already_satisfied, "wrong error"); }
    break;
  }
  case MOVED: { pc::promise<R> q; q = std::move(p); pc::promise<R> z(std::move(q)); set_once(z, want); break; }
  default: { // completed by another future's continuation
    auto in = pc::make_promise<void>();
    struct Sp { static std::shared_ptr<pc::promise<R>> keep(pc::promise<R> x) { return std::make_shared<pc::promise<R>>(std::move(x)); } };
    auto keep = Sp::keep(std::move(p));
    auto g = in.second.next([keep, want] { set_once(*keep, want); });
    g.detach();
    keep.reset();
    in.first.set_value();
    break;
  }
  }
  vs::point();
  st.returned.inc();
}
template <class T, class R> static void interruptible(Rng &r) {
  IntState st;
  Box<R> box;
  Execs ex;
  Out pw = with_ep(random_out(r, 65, 10));
  Out want = with_ep(random_out(r, 60, 0));
  int where = r.below(NWHERE);
  bool broken = where == DROP_INSIDE || where == DROP_LATER;
  Producer<T> p = make_producer<T>(r);
  bool shared = r.chance(50), with_ex = r.chance(60), drop = r.chance(20);
  Ex e = with_ex ? ex.any(r, false) : Ex{&ex.inl};
  bool pre = r.chance(30);
  const char *pname = p.name;
  if (pre) p.impl->fire(pw);
  std::vector<std::thread> ts;
  if (!pre) ts.emplace_back([&] { vs::point(); p.impl->fire(pw); });
  if (where == OTHER_THREAD || where == DROP_LATER || where == AFTER_MAIN) {
    if (!drop)
      ts.emplace_back([&] {
        pc::promise<R> q = box.take();
        vs::point();
        if (where != DROP_LATER) set_once(q, want);
      });
  }
  pc::future<R> f;
  Out npw = norm<T>(pw);
  if (shared) {
    auto s = p.fut.share();
    auto fn = [&st, &box, where, want, npw, pname, t = Tok(st.fn_alive)](pc::promise<R> q, pc::shared_future<T> x) { body<R>(st, box, where, want, npw, pname, std::move(q), std::move(x)); };
    f = with_ex ? s.then(e, std::move(fn)) : s.then(std::move(fn));
    VS_CHECK(s.valid(), "then() invalidated a shared_future");
  } else {
    auto fn = [&st, &box, where, want, npw, pname, t = Tok(st.fn_alive)](pc::promise<R> q, pc::future<T> x) { body<R>(st, box, where, want, npw, pname, std::move(q), std::move(x)); };
    f = with_ex ? p.fut.then(e, std::move(fn)) : p.fut.then(std::move(fn));
    VS_CHECK(!p.fut.valid(), "then() left a future valid");
  }
  VS_CHECK(f.valid(), "interruptible then() returned an invalid future");
  if (drop) {
    vs::point();
    f = pc::future<R>();
  } else {
    Rng cr = r.fork();
    Out got = observe<R>(cr, std::move(f));
    expect_out(got, broken ? Out(BROKEN, 0) : norm<R>(want), "interruptible continuation");
    VS_CHECK(st.runs.get() == 1, "continuation ran %ld times", st.runs.get());
  }
  for (auto &t : ts) t.join();
  ex.finish();
  VS_CHECK(st.runs.get() <= 1 && st.runs.get() == st.returned.get(), "continuation ran %ld times", st.runs.get());
  if (box.p) { VS_CHECK(!box.p->is_awaiten() || !drop, "promise awaited although the result was dropped"); set_once(*box.p, want); box.p.reset(); }
  p.impl.reset();
  VS_CHECK(st.fn_alive.get() == 0, "continuation function leaked");
}
