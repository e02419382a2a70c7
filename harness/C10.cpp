#define TK_MAIN
#include "prod.h"
using namespace tk;

struct Log {
  vs::Cnt cancels, notified, alive;
};
// cancel actions of several shapes; all count into the log
struct Act {
  Log *l;
  Tok t;
  Val payload;
  explicit Act(Log &x) : l(&x), t(x.alive), payload(21) {}
  void operator()() {
    VS_CHECK(payload.id() == 21, "cancel action invoked after its state was destroyed");
    if (l->cancels.inc() > 1) vs::fail("cancel action invoked twice");
  }
};
struct MAct {
  Log *l;
  std::unique_ptr<Tok> t;
  MVal payload;
  explicit MAct(Log &x) : l(&x), t(new Tok(x.alive)), payload(22) {}
  MAct(MAct &&) = default;
  void operator()() {
    VS_CHECK(t && payload.id() == 22, "cancel action invoked after its state was moved away or destroyed");
    if (l->cancels.inc() > 1) vs::fail("cancel action invoked twice");
  }
};
template <class T> static std::pair<pc::promise<T>, pc::future<T>> open(Rng &r, Log &l) {
  switch (r.below(6)) {
  case 0: return pc::make_promise<T>(pc::canceler_arg, Act(l));
  case 1: { Act a(l); auto x = pc::make_promise<T>(pc::canceler_arg, a); return x; }
  case 2: return pc::make_promise<T>(pc::canceler_arg, MAct(l));
  case 3: { pc::promise<T> p(pc::canceler_arg, MAct(l)); auto f = p.get_future(); return {std::move(p), std::move(f)}; }
  case 4: { const Act a(l); pc::promise<T> p(pc::canceler_arg, a); VS_CHECK(p.is_awaiten(), "promise whose future can still be taken is not awaited"); auto f = p.get_future(); return {std::move(p), std::move(f)}; }
  default: { std::function<void()> fn = Act(l); auto x = pc::make_promise<T>(pc::canceler_arg, std::move(fn)); return x; }
  }
}

// produce / abandon on one thread, drop the last handles on others
template <class T> static void race(Rng &r) {
  Log l;
  int mode;
  {
    auto pf = open<T>(r, l);
    pf.second.notify([&l] { l.notified.inc(); });
    mode = r.below(6);
    int ncopies = r.range(1, 3);
    pc::future<T> uf;
    std::vector<pc::shared_future<T>> copies;
    if (r.chance(40)) uf = std::move(pf.second);
    else { auto s = pf.second.share(); for (int i = 0; i < ncopies; i++) copies.push_back(s); }
    std::vector<std::thread> ts;
    Out o{mode == 1 ? E_CUSTOM : V, 5};
    int polls = r.below(4);
    ts.emplace_back([&, p = std::move(pf.first)]() mutable {
      bool seen_false = false;
      for (int i = 0; i < polls; i++) {
        vs::point();
        bool a = p.is_awaiten();
        if (a && seen_false) vs::fail("is_awaiten() turned back to true");
        if (!a) {
          seen_false = true;
          VS_CHECK(l.notified.get() == 0, "notified although nothing was produced");
        }
      }
      if (mode <= 1) {
        satisfy(std::move(p), o);
      } else if (mode == 2) {
        pc::promise<T> q(std::move(p)); // abandoned
      } else if (mode == 3) {
        p = pc::promise<T>(); // assigned over
      } else if (mode == 4) {
        pc::promise<T> q(std::move(p)), q2;
        q2 = std::move(q);
        Put<T>::value(q2, 5);
        if (seen_false) VS_CHECK(!q2.is_awaiten(), "is_awaiten() turned back to true");
      } else {
        bool dropped = !p.is_awaiten();
        try { Put<T>::value(p, 5); } catch (...) { vs::fail("set_value threw"); }
        bool dropped2 = !p.is_awaiten();
        if (dropped && !dropped2) vs::fail("is_awaiten() turned back to true");
        // the second attempt fails only while somebody awaits
        try { Put<T>::value(p, 6); if (dropped2) {} } catch (const std::future_error &e) {
          VS_CHECK(e.code() == std::future_errc::promise_already_satisfied, "wrong error");
          if (dropped2) vs::fail("setting a dropped promise failed");
        }
      }
    });
    if (uf.valid())
      ts.emplace_back([f = std::move(uf), k = r.below(3)]() mutable {
        vs::point();
        if (k == 0) f = pc::future<T>();
        else if (k == 1) { auto s = f.share(); auto s2 = s; s = pc::shared_future<T>(); }
        else { pc::future<T> g(std::move(f)); }
      });
    for (auto &c : copies)
      ts.emplace_back([f = std::move(c), k = r.below(3)]() mutable {
        vs::point();
        if (k == 1) { auto s2 = f; f = std::move(s2); }
        if (k == 2) (void)f.is_ready();
        f = pc::shared_future<T>();
      });
    copies.clear();
    for (auto &t : ts) t.join();
  }
  long c = l.cancels.get(), n = l.notified.get();
  VS_CHECK(c <= 1, "cancel action ran %ld times", c);
  VS_CHECK(n <= 1, "notified %ld times", n);
  VS_CHECK(c + n == 1, "outcome recorded %ld times and cancel action ran %ld times: exactly one of them must happen", n, c);
  VS_CHECK(l.alive.get() == 0, "cancel action not destroyed");
  vs::cover(c ? "cancelled" : "produced");
}
SCEN(race_val, 4) { race<Val>(r); }
SCEN(race_void, 3) { race<void>(r); }
SCEN(race_ref, 2) { race<long &>(r); }

// random handle graph on one thread against a model of who can still retrieve the result
SCEN_F(model, 5, vs::SEQ) {
  Log l;
  Execs ex;
  auto pf = open<Val>(r, l);
  std::unique_ptr<pc::promise<Val>> p(new pc::promise<Val>(std::move(pf.first)));
  struct H { pc::future<Val> u; pc::shared_future<Val> s; };
  std::vector<H> hs; // every handle depends on the root through links not run yet
  hs.push_back(H{std::move(pf.second), {}});
  bool done = false;
  int n = r.range(1, 12);
  for (int i = 0; i < n && !done; i++) {
    if (!hs.empty()) {
      int k = r.below((int)hs.size());
      H &h = hs[k];
      switch (r.below(10)) {
      case 0: { H d = std::move(h); hs.erase(hs.begin() + k); break; }
      case 1: if (h.u.valid()) h.s = h.u.share(); else { H c; c.s = h.s; hs.push_back(std::move(c)); } break;
      case 2: if (h.u.valid()) h.u = h.u.then([](pc::future<Val> f) { return f.get(); }); else { H c; c.u = h.s.then([](pc::shared_future<Val> f) { return Val(f.get().id()); }); if (r.chance(50)) hs.push_back(std::move(c)); else h = std::move(c); } break;
      case 3: if (h.u.valid()) h.u = h.u.next(Ex{&ex.queue}, [](Val v) { return v; }); else { H c; c.u = h.s.next([](const Val &v) { return Val(v.id()); }); if (r.chance(50)) hs.push_back(std::move(c)); else h = std::move(c); } break;
      case 4: { // unwrapped
        pc::future<Val> out;
        if (h.u.valid()) { auto inner = std::move(h.u); out = pc::make_ready_future().then([f = std::move(inner)](pc::future<void>) mutable { return std::move(f); }); }
        else { auto inner = h.s; out = pc::async(pc::inplace_executor, [f = std::move(inner)]() mutable { return std::move(f); }).then([](pc::shared_future<Val> f) { return Val(f.get().id()); }); }
        H c; c.u = std::move(out);
        h = std::move(c);
        break;
      }
      case 5: if (h.u.valid()) h.u.notify([] {}); else h.s.notify([] {}); break;
      case 6: { H c = std::move(h); h = std::move(c); break; }
      case 7: if (h.u.valid()) h.u = h.u.then([](pc::promise<Val> q, pc::future<Val> f) { Out o = get(f); satisfy(std::move(q), o); }); break;
      case 8: // replaced by an unrelated future
        if (r.chance(30)) { h = H{}; hs.erase(hs.begin() + k); }
        break;
      default: if (r.chance(30)) { pc::promise<Val> q(std::move(*p)); *p = std::move(q); } break;
      }
    }
    bool aw = !hs.empty();
    VS_CHECK(p->is_awaiten() == aw, "is_awaiten() is %d but %zu handles depend on the promise", (int)!aw, hs.size());
    VS_CHECK(l.cancels.get() == (aw ? 0 : 1), "cancel action ran %ld times while %zu handles are alive", l.cancels.get(), hs.size());
    if (!aw) VS_CHECK(l.alive.get() == 0, "cancel action not destroyed after the drop");
    else VS_CHECK(l.alive.get() >= 1, "cancel action destroyed early");
  }
  // finally: produce, abandon or drop
  bool aw = !hs.empty();
  switch (r.below(4)) {
  case 0: try { p->set_value(Val(9)); } catch (...) { vs::fail("set_value threw"); } break;
  case 1: p->set_exception(make_exc(E_STD, 9)); break;
  case 2: p.reset(); break;
  default: hs.clear(); break;
  }
  ex.finish();
  if (r.chance(50)) { p.reset(); hs.clear(); } else { hs.clear(); p.reset(); }
  ex.finish();
  VS_CHECK(l.cancels.get() <= 1, "cancel twice");
  if (!aw) VS_CHECK(l.cancels.get() == 1, "cancel action did not run exactly once");
  VS_CHECK(l.alive.get() == 0, "cancel action leaked");
}
// every ending of one promise, exact expectation
SCEN_F(endings, 3, vs::SEQ) {
  Log l;
  auto pf = open<Val>(r, l);
  std::unique_ptr<pc::promise<Val>> p(new pc::promise<Val>(std::move(pf.first)));
  pc::future<Val> f = std::move(pf.second);
  pc::shared_future<Val> s;
  bool shared = r.chance(40);
  if (shared) s = f.share();
  auto drop = [&] { f = pc::future<Val>(); s = pc::shared_future<Val>(); };
  auto valid = [&] { return f.valid() || s.valid(); };
  int want = 0;
  switch (r.below(9)) {
  case 0: drop(); want = 1; VS_CHECK(!p->is_awaiten(), "awaited after drop"); p->set_value(Val(1)); p.reset(); break;
  case 1: p->set_value(Val(1)); VS_CHECK(p->is_awaiten(), "not awaited although a future exists"); drop(); break;
  case 2: p->set_exception(make_exc(E_INT, 2)); drop(); break;
  case 3: p.reset(); VS_CHECK(valid(), "future invalidated by its producer"); drop(); break;
  case 4: *p = pc::promise<Val>(); drop(); break;
  case 5: { auto g = shared ? pc::future<Val>() : f.detach(); if (shared) { auto d = s.detach(); (void)d; } drop(); g = pc::future<Val>(); VS_CHECK(p->is_awaiten(), "not awaited although detached"); VS_CHECK(l.cancels.get() == 0, "cancel action ran although detached"); if (r.chance(50)) p->set_value(Val(4)); p.reset(); break; }
  case 6: { p->set_value(Val(3)); Out o = shared ? get(s) : get(f); VS_CHECK(o.kind == V && o.id == 3, "value"); drop(); VS_CHECK(!p->is_awaiten(), "awaited after the last future is gone"); break; }
  case 7: { pc::promise<Val> q(std::move(*p)); *p = pc::promise<Val>(); VS_CHECK(q.is_awaiten(), "moved-to promise not awaited"); if (r.chance(50)) { drop(); want = 1; } else { q.set_value(Val(5)); drop(); } break; }
  default: { drop(); want = 1; p.reset(); break; }
  }
  p.reset();
  drop();
  VS_CHECK(l.cancels.get() == want, "cancel action ran %ld times, expected %d", l.cancels.get(), want);
  VS_CHECK(l.alive.get() == 0, "cancel action leaked");
}
// a cancel action may use the promise and other futures
SCEN(action_reenters, 2) {
  Log l;
  vs::Cnt other;
  pc::promise<Val> *pp = nullptr;
  auto side = pc::make_promise<Val>(pc::canceler_arg, [&] { other.inc(); });
  auto pf = pc::make_promise<Val>(pc::canceler_arg, [&l, &pp, t = Tok(l.alive), sf = std::make_shared<pc::future<Val>>(std::move(side.second))]() mutable {
    if (l.cancels.inc() > 1) vs::fail("cancel action invoked twice");
    VS_CHECK(!pp->is_awaiten(), "promise awaited inside its cancel action");
    pp->set_value(Val(1));
    pp->set_exception(make_exc(E_STD, 1));
    *sf = pc::future<Val>();
  });
  pc::promise<Val> p = std::move(pf.first);
  pp = &p;
  std::thread t([f = std::move(pf.second)]() mutable { vs::point(); auto g = f.then([](pc::future<Val>) {}); g = pc::future<void>(); });
  t.join();
  VS_CHECK(l.cancels.get() == 1, "cancel action ran %ld times", l.cancels.get());
  VS_CHECK(other.get() == 1, "dropping a future inside a cancel action ran its action %ld times", other.get());
  VS_CHECK(l.alive.get() == 0, "cancel action leaked");
}
// dropped from a continuation / notification while being satisfied
SCEN(drop_while_set, 3) {
  Log l;
  auto pf = open<Val>(r, l);
  auto hold = std::make_shared<pc::shared_future<Val>>(pf.second.share());
  int k = r.below(3);
  auto holdg = std::make_shared<pc::future<void>>();
  if (k == 0) hold->notify([hold] { *hold = pc::shared_future<Val>(); });
  else *holdg = hold->then([hold, holdg](pc::shared_future<Val>) { *hold = pc::shared_future<Val>(); });
  std::thread t([p = std::move(pf.first), m = r.below(3)]() mutable {
    vs::point();
    if (m == 0) p.set_value(Val(1));
    if (m == 1) p.set_exception(make_exc(E_CUSTOM, 2));
    pc::promise<Val> g(std::move(p));
  });
  t.join();
  VS_CHECK(!hold->valid(), "continuation did not run");
  *holdg = pc::future<void>();
  VS_CHECK(l.cancels.get() == 0, "cancel action ran although the outcome was produced");
  hold.reset(); holdg.reset();
  VS_CHECK(l.alive.get() == 0, "cancel action leaked");
}
// a value that cannot be stored records nothing: dropping afterwards cancels
struct Hostile {
  int k;
  explicit Hostile(int x) : k(x) {}
  Hostile(const Hostile &o) : k(o.k) { if (k == 1) throw Err(3); }
  Hostile(Hostile &&o) : k(o.k) { if (k == 1) throw Err(3); }
};
SCEN(failed_store, 2) {
  Log l;
  vs::Cnt notified;
  {
    auto pf = pc::make_promise<Hostile>(pc::canceler_arg, Act(l));
    pf.second.notify([&] { notified.inc(); });
    std::vector<std::thread> ts;
    bool threw = false;
    ts.emplace_back([&] {
      try { Hostile h(1); pf.first.set_value(h); } catch (const Err &) { threw = true; }
    });
    ts.emplace_back([f = std::move(pf.second)]() mutable { vs::point(); f = pc::future<Hostile>(); });
    for (auto &t : ts) t.join();
    VS_CHECK(!pf.first.is_awaiten(), "awaited although dropped");
    (void)threw;
  }
  VS_CHECK(notified.get() == 0, "notified although nothing could be stored");
  VS_CHECK(l.cancels.get() == 1, "cancel action ran %ld times", l.cancels.get());
  VS_CHECK(l.alive.get() == 0, "cancel action leaked");
}
// continuations, copies and unwrapping on other threads keep the promise awaited
SCEN(awaited_through, 4) {
  Log l;
  Execs ex;
  auto pf = open<Val>(r, l);
  pc::promise<Val> p = std::move(pf.first);
  auto s = pf.second.share();
  int n = r.range(1, 3);
  std::vector<pc::future<Val>> ends(n);
  std::vector<std::thread> ts;
  std::vector<Ex> es;
  std::vector<int> ks;
  for (int i = 0; i < n; i++) { es.push_back(ex.any(r)); ks.push_back(r.below(4)); }
  for (int i = 0; i < n; i++)
    ts.emplace_back([&, i, c = s]() mutable {
      vs::point();
      switch (ks[i]) {
      case 0: ends[i] = c.then(es[i], [](pc::shared_future<Val> f) { return Val(f.get().id()); }); break;
      case 1: ends[i] = c.next([](const Val &v) { return Val(v.id()); }); break;
      case 2: ends[i] = pc::async(pc::inplace_executor, [c] { return c; }).next([](const Val &v) { return Val(v.id()); }); break;
      default: ends[i] = c.next([](const Val &v) { return v.id(); }).next(es[i], [](long v) { return Val(v); }); break;
      }
      c = pc::shared_future<Val>();
    });
  s = pc::shared_future<Val>();
  vs::Cnt stop;
  bool aw_all = true;
  for (int i = 0; i < 3; i++) { vs::point(); (void)p.is_awaiten(); }
  for (auto &t : ts) t.join();
  ts.clear();
  aw_all = p.is_awaiten();
  VS_CHECK(aw_all, "promise not awaited although continuations depend on it");
  VS_CHECK(l.cancels.get() == 0, "cancel action ran although continuations depend on the result");
  int how = r.below(3);
  if (how == 0) {
    for (auto &e : ends) ts.emplace_back([f = std::move(e)]() mutable { vs::point(); f = pc::future<Val>(); });
    ends.clear();
    for (auto &t : ts) t.join();
    VS_CHECK(!p.is_awaiten(), "promise awaited although everything depending on it was dropped");
    VS_CHECK(l.cancels.get() == 1, "cancel action ran %ld times after the last dependent future was dropped", l.cancels.get());
    p.set_value(Val(3));
    ex.finish();
  } else {
    if (how == 1) p.set_value(Val(3)); else { pc::promise<Val> q(std::move(p)); }
    ex.finish();
    for (auto &e : ends) {
      Out o = get(e);
      VS_CHECK(how == 1 ? (o.kind == V && o.id == 3) : o.kind == BROKEN, "outcome of a dependent future: %s", o.str());
    }
    ends.clear();
    VS_CHECK(l.cancels.get() == 0, "cancel action ran although the outcome was recorded");
  }
  VS_CHECK(l.alive.get() == 0, "cancel action leaked");
}
