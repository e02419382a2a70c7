#define TK_MAIN
#include "poolkit.h"

// Memory runs out at a chosen allocation inside one library call. The call either succeeds or throws bad_alloc;
// whatever happened, nothing leaks, the function handed to a failed call never runs, and every other participant
// of the program gets exactly what it would have got.
// Or: copying the user's function (or argument) throws.
static thread_local int t_fuse = -1; // copies of a Bomb until one throws
struct Bomb : Tok {
  using Tok::Tok;
  Bomb(const Bomb &o) : Tok(o) { if (t_fuse >= 0 && t_fuse-- == 0) throw Err(99); }
  Bomb(Bomb &&) noexcept = default;
};
struct Injected { // failure inside [begin, end); n < 10: n-th allocation, otherwise the (n-10)-th copy
  explicit Injected(int n) { if (n < 10) vs::fail_new_after(n); else t_fuse = n - 10; }
  ~Injected() { vs::fail_new_after(-1); t_fuse = -1; }
};
static int any_fault(Rng &r, int allocs) { return r.chance(75) ? r.below(allocs) : 10 + r.below(3); }
template <class B> static bool attempt(int n, const char *what, B body) {
  try {
    Injected i(n);
    body();
  } catch (const std::bad_alloc &) {
    vs::event();
    vs::cover(what);
    return false;
  } catch (const Err &e) {
    vs::event();
    if (e.id != 99 || n < 10) vs::fail("%s: memory ran out, but another exception was thrown", what);
    vs::cover("copy failed");
    return false;
  } catch (...) { Out o = classify(); vs::fail("%s: memory ran out, but %s was thrown", what, o.str()); }
  return true;
}
static bool is_oom(const Out &o) {
  if (o.kind != E_OTHER) return false;
  try { std::rethrow_exception(o.ep); } catch (const std::bad_alloc &) { return true; } catch (...) { return false; }
}
// outcome of something that ran inside an injected call: the memory failure may have hit the user function itself
static void expect_or_oom(const Out &got, const Out &want, const char *what) {
  if (is_oom(got)) { vs::cover("bad_alloc delivered through the future"); return; }
  expect_out(got, want, what);
}
using F = pc::future<Val>;
using S = pc::shared_future<Val>;
struct FixedEx : ExecImpl { // an executor which does not allocate
  std::array<Task, 16> q;
  int n = 0;
  void post(Task t) override { if (n == 16) vs::fail("too many tasks posted"); q[n++] = std::move(t); }
  void run_all() { for (int i = 0; i < n; i++) { Task t = std::move(q[i]); t(); } n = 0; }
  void drop_all() { for (int i = 0; i < n; i++) { Task t = std::move(q[i]); } n = 0; }
};

// attaching to a future or shared_future
SCEN(attach, 6) {
  Out o = with_ep(random_out(r, 65, 15));
  bool shared = r.chance(50), ready = r.chance(40), concurrent = !ready && r.chance(50);
  int n = any_fault(r, 5), what = r.below(8), nother = r.below(3);
  vs::Cnt ran, alive;
  {
    FixedEx q;
    auto pf = pc::make_promise<Val>();
    pc::promise<Val> p = std::move(pf.first);
    F f = std::move(pf.second);
    S s, keep;
    vs::Cnt other;
    std::vector<F> others;
    for (int i = 0; i < nother; i++) f.notify([&] { other.inc(); });
    if (shared) { s = f.share(); keep = s; for (int i = 0; i < nother; i++) { others.push_back(s.next([](const Val &v) { return Val(v.id()); })); others.push_back(s.then([](S x) { return Val(x.get().id()); })); } }
    if (ready) satisfy(std::move(p), o);
    std::thread t;
    if (concurrent) t = std::thread([&] { satisfy(std::move(p), o); });
    F res;
    S sres;
    Bomb tok(alive);
    bool ok = true;
    Ex e{&q};
    vs::Cnt notified;
    auto fn_then = [&ran, tok](auto x) { ran.inc(); return Val(x.get().id()); };
    auto fn_next = [&ran, tok](const Val &v) { ran.inc(); return Val(v.id()); };
    auto un_next = [&ran, tok](const Val &v) { ran.inc(); return pc::make_ready_future(Val(v.id())); };
    auto fn_int = [&ran, tok](pc::promise<Val> pr, auto x) { ran.inc(); Out z = get(x); satisfy(std::move(pr), z); };
    auto fi = [fn_int](pc::promise<Val> pr, F x) mutable { try { fn_int(std::move(pr), std::move(x)); } catch (const std::bad_alloc &) {} };
    auto si = [fn_int](pc::promise<Val> pr, S x) mutable { try { fn_int(std::move(pr), std::move(x)); } catch (const std::bad_alloc &) {} };
    switch (what) {
    case 0: ok = attempt(n, "then", [&] { if (shared) res = s.then(fn_then); else res = f.then(fn_then); }); break;
    case 1: ok = attempt(n, "then on an executor", [&] { if (shared) res = s.then(e, fn_then); else res = f.then(e, fn_then); }); break;
    case 2: ok = attempt(n, "next", [&] { if (shared) res = s.next(fn_next); else res = f.next(fn_next); }); break;
    case 3: ok = attempt(n, "next on an executor", [&] { if (shared) res = s.next(e, fn_next); else res = f.next(e, fn_next); }); break;
    case 4: ok = attempt(n, "unwrapped next", [&] { if (shared) res = s.next(un_next); else res = f.next(un_next); }); break;
    case 5: ok = attempt(n, "interruptible then", [&] { if (shared) res = s.then(e, si); else res = f.then(e, fi); }); break;
    case 6: ok = attempt(n, "notify", [&] { if (shared) s.notify([&notified, tok] { notified.inc(); }); else f.notify([&notified, tok] { notified.inc(); }); }); break;
    default: ok = attempt(n, "detach", [&] { if (shared) sres = s.detach(); else res = f.detach(); }); break;
    }
    if (what == 6 && !ready && !concurrent) VS_CHECK(notified.get() == 0, "notification before readiness");
    if (!ready && !concurrent) VS_CHECK(ran.get() == 0, "function ran before its input was ready");
    if (!ok && !shared && what == 6) VS_CHECK(f.valid(), "a failed notify() invalidated the future");
    if (!ok && shared && what != 7) VS_CHECK(s.valid(), "a failed call invalidated the shared_future");
    if (!ready && !concurrent && r.chance(50)) { q.run_all(); satisfy(std::move(p), o); q.run_all(); }
    else { if (!ready && !concurrent) satisfy(std::move(p), o); if (t.joinable()) t.join(); q.run_all(); }
    // a unique future may have been consumed by the failed call: then nobody awaits the outcome any more
    if (ok || shared || f.valid()) VS_CHECK(other.get() == nother, "memory failure in one call lost a notification of another (%ld of %d)", other.get(), nother);
    for (auto &x : others) { VS_CHECK(x.is_ready(), "memory failure in one call lost another continuation"); expect_or_oom(get(x), o, "another continuation"); }
    if (keep.valid()) { VS_CHECK(keep.is_ready(), "shared_future not ready"); expect_out(get(keep), o, "shared copy"); }
    if (!ok) {
      VS_CHECK(ran.get() == 0 && notified.get() == 0, "the function given to a failed call ran");
      VS_CHECK(!res.valid(), "result of a failed call");
      if (shared && s.valid()) expect_out(get(s), o, "after a failed call");
      if (!shared && f.valid()) { VS_CHECK(f.is_ready(), "future not ready after a failed call"); expect_out(get(f), o, "after a failed call"); }
    } else if (what == 6) {
      VS_CHECK(notified.get() == 1, "notification fired %ld times", notified.get());
      if (shared) expect_out(get(s), o, "notified future"); else expect_out(get(f), o, "notified future");
    } else {
      if (res.valid()) { VS_CHECK(res.is_ready(), "result never becomes ready"); bool inl = ready || concurrent; Out g = get(res); if (what == 5 && g.kind == BROKEN) {} else if (inl) expect_or_oom(g, o, "result"); else expect_out(g, o, "result"); }
      if (sres.valid()) expect_out(get(sres), o, "detached result");
      if (what < 5) VS_CHECK(ran.get() <= 1, "function ran %ld times", ran.get());
    }
  }
  VS_CHECK(alive.get() == 0, "%ld copies of the function alive after everything is gone", alive.get());
}

// creating producers
SCEN_F(create, 3, vs::SEQ) {
  int n = any_fault(r, 4);
  vs::Cnt ran, alive;
  {
    FixedEx q;
    Bomb tok(alive);
    F res;
    bool ok = true;
    Out want{V, 5};
    switch (r.below(8)) {
    case 0: { pc::promise<Val> p; ok = attempt(n, "make_promise", [&] { auto pf = pc::make_promise<Val>(); p = std::move(pf.first); res = std::move(pf.second); }); if (ok) { satisfy(std::move(p), want); ran.inc(); } break; }
    case 1: { std::unique_ptr<pc::promise<Val>> p; ok = attempt(n, "promise", [&] { p.reset(new pc::promise<Val>()); }); if (!ok) break; ok = attempt(n, "get_future", [&] { res = p->get_future(); }); if (!ok) res = p->get_future(); satisfy(std::move(*p), want); ok = true; ran.inc(); break; }
    case 2: { pc::promise<Val> p; ok = attempt(n, "cancelable promise", [&] { auto pf = pc::make_promise<Val>(pc::canceler_arg, [&ran, tok] { ran.inc(); }); p = std::move(pf.first); res = std::move(pf.second); }); if (ok) satisfy(std::move(p), want); VS_CHECK(ran.get() == 0, "cancel action ran"); if (ok) ran.inc(); break; }
    case 3: { pc::packaged_task<Val(int)> t; auto ft = [&ran, tok](int x) { ran.inc(); return Val(x); }; ok = attempt(n, "packaged_task", [&] { t = pc::packaged_task<Val(int)>(ft); res = t.get_future(); }); if (ok) { t(5); } break; }
    case 4: { Val arg(2); auto fa = [&ran, tok](Val v, const Bomb &, int x) { ran.inc(); return Val(v.id() + x); }; ok = attempt(n, "async", [&] { res = pc::async(Ex{&q}, fa, arg, tok, 3); }); VS_CHECK(ok || q.n == 0, "failed async posted its function"); q.run_all(); break; }
    case 5: { ok = attempt(n, "make_ready_future", [&] { res = pc::make_ready_future(Val(5)); }); if (ok) ran.inc(); break; }
    case 6: { ok = attempt(n, "make_exceptional_future", [&] { res = pc::make_exceptional_future<Val>(Err(5)); }); want = Out{E_CUSTOM, 5}; if (ok) ran.inc(); break; }
    default: { // the value itself cannot be copied: the caller learns about it, the promise can be used again
      auto pf = pc::make_promise<Val>();
      Val v(5);
      bool done = attempt(n, "set_value", [&] { pf.first.set_value(v); });
      if (!done) { VS_CHECK(!pf.second.is_ready(), "a failed set_value made the future ready"); pf.first.set_value(v); }
      VS_CHECK(v.id() == 5, "value");
      res = std::move(pf.second);
      ran.inc();
    }
    }
    if (!ok) { VS_CHECK(ran.get() == 0, "function of a failed call ran"); }
    else { VS_CHECK(res.valid() && res.is_ready(), "not ready"); Out g = get(res); if (is_oom(g)) vs::fail("bad_alloc in the result"); else expect_out(g, want, "result"); VS_CHECK(ran.get() == 1, "ran %ld times", ran.get()); }
  }
  VS_CHECK(alive.get() == 0, "%ld copies of the function alive", alive.get());
}

// a function returns a future and memory runs out while its result is being connected to that future
SCEN(unwrapping, 3) {
  Out o = with_ep(random_out(r, 70, 10));
  int n = r.below(4), how = r.below(7), inner = r.below(3); // inner: pending, ready, produced concurrently
  vs::Cnt ran, alive;
  {
    FixedEx q;
    auto in = pc::make_promise<Val>();
    S si = r.chance(30) ? in.second.share() : S();
    if (inner == 1) satisfy(std::move(in.first), o);
    auto pf = pc::make_promise<int>();
    Tok tok(alive);
    auto give = [&] { ran.inc(); return std::move(in.second); };
    auto sgive = [&] { ran.inc(); return si; };
    F res;
    std::unique_ptr<pc::packaged_task<F()>> task;
    std::unique_ptr<pc::packaged_task<S()>> stask;
    S sres;
    bool sh = si.valid();
    std::function<void()> go = [&] { pf.first.set_value(1); };
    switch (how) {
    case 0: if (sh) sres = pf.second.then([sgive, tok](pc::future<int>) { return sgive(); }); else res = pf.second.then([give, tok](pc::future<int>) { return give(); }); break;
    case 1: if (sh) sres = pf.second.next([sgive, tok](int) { return sgive(); }); else res = pf.second.next([give, tok](int) { return give(); }); break;
    case 2: if (sh) sres = pf.second.share().then([sgive, tok](pc::shared_future<int>) { return sgive(); }); else res = pf.second.share().then([give, tok](pc::shared_future<int>) { return give(); }); break;
    case 3: if (sh) sres = pf.second.share().next([sgive, tok](int) { return sgive(); }); else res = pf.second.share().next([give, tok](int) { return give(); }); break;
    case 4: pf.first.set_value(1); if (sh) sres = pf.second.next(Ex{&q}, [sgive, tok](int) { return sgive(); }); else res = pf.second.next(Ex{&q}, [give, tok](int) { return give(); }); go = [&] { q.run_all(); }; break;
    case 5: if (sh) sres = pc::async(Ex{&q}, [sgive, tok] { return sgive(); }); else res = pc::async(Ex{&q}, [give, tok] { return give(); }); go = [&] { q.run_all(); }; break;
    default: if (sh) { stask.reset(new pc::packaged_task<S()>([sgive, tok] { return sgive(); })); sres = stask->get_future(); go = [&] { (*stask)(); }; } else { task.reset(new pc::packaged_task<F()>([give, tok] { return give(); })); res = task->get_future(); go = [&] { (*task)(); }; }
    }
    std::thread t;
    if (inner == 2) t = std::thread([&] { vs::point(); satisfy(std::move(in.first), o); });
    bool ok = attempt(n, "unwrapping", go);
    VS_CHECK(ok || how >= 5, "memory failure while unwrapping left the call that made the parent ready");
    task.reset();
    stask.reset();
    if (!ok) { q.n = 0; vs::cover("thrown to whoever runs the task"); }
    VS_CHECK(ran.get() == 1, "function ran %ld times", ran.get());
    bool rdy = res.valid() ? res.is_ready() : sres.is_ready();
    if (!ok) VS_CHECK(rdy, "the future of a task which failed is not ready after the task is gone");
    if (inner == 0) {
      bool failed = rdy;
      if (failed && !sh) VS_CHECK(!in.first.is_awaiten(), "the returned future is still kept after its unwrapping failed");
      satisfy(std::move(in.first), o);
    }
    if (t.joinable()) t.join();
    VS_CHECK(res.valid() ? res.is_ready() : sres.is_ready(), "result of unwrapping never becomes ready");
    Out g = res.valid() ? get(res) : get(sres);
    if (!ok) VS_CHECK(is_oom(g) || g.kind == BROKEN, "outcome %s of a task which ran out of memory", g.str());
    else expect_or_oom(g, o, "unwrapped");
    if (sh) expect_out(get(si), o, "the returned shared_future");
  }
  VS_CHECK(alive.get() == 0, "%ld copies of the function alive", alive.get());
}

// an executor refuses a continuation when its input becomes ready: whoever made it ready learns about it (or the future
// of that continuation does), and everybody else waiting for the same outcome gets it
struct RefusingEx : ExecImpl { void post(Task) override { throw Err(99); } };
SCEN(post_fails, 2) {
  Out o = with_ep(random_out(r, 70, 0));
  vs::Cnt ran, notified, cont, waited, alive;
  bool shared = r.chance(70);
  int before = r.below(3), after = r.below(3), nwait = shared ? r.below(3) : 0, ncont = 0;
  {
    RefusingEx bad;
    FixedEx q;
    auto pf = pc::make_promise<Val>();
    F f = std::move(pf.second);
    S s;
    Tok tok(alive);
    std::vector<F> others;
    std::deque<std::thread> ts;
    auto extra = [&](int k) {
      while (k-- > 0) {
        if (shared) s.notify([&notified] { notified.inc(); }); else f.notify([&notified] { notified.inc(); });
        if (!shared) continue;
        ncont++;
        if (r.chance(50)) others.push_back(s.then([&cont, tok](S x) { cont.inc(); return Val(x.get().id()); }));
        else others.push_back(s.then(Ex{&q}, [&cont, tok](S x) { cont.inc(); return Val(x.get().id()); }));
      }
    };
    if (shared) s = f.share();
    extra(before);
    for (int i = 0; i < nwait; i++) ts.emplace_back([&waited, s, &o] { expect_out(get(s), o, "waiter"); waited.inc(); });
    F res;
    if (r.chance(50)) res = shared ? s.then(Ex{&bad}, [&ran, tok](S) { ran.inc(); return Val(1); }) : f.then(Ex{&bad}, [&ran, tok](F) { ran.inc(); return Val(1); });
    else res = shared ? s.next(Ex{&bad}, [&ran, tok](const Val &) { ran.inc(); return Val(1); }) : f.next(Ex{&bad}, [&ran, tok](Val) { ran.inc(); return Val(1); });
    if (shared) extra(after);
    bool thrown = false;
    try { if (o.kind == V) pf.first.set_value(Val(o.id)); else pf.first.set_exception(o.ep); }
    catch (const Err &e) { vs::event(); VS_CHECK(e.id == 99, "another exception"); thrown = true; vs::cover("refusal reported to the producer"); }
    catch (...) { Out x = classify(); vs::fail("%s thrown instead of the exception of the executor", x.str()); }
    q.run_all();
    for (auto &t : ts) t.join();
    VS_CHECK(waited.get() == nwait, "waiters");
    VS_CHECK(notified.get() == before + (shared ? after : 0), "a refused continuation lost notifications (%ld of %d)", notified.get(), before + (shared ? after : 0));
    VS_CHECK(cont.get() == ncont, "a refused continuation lost others (%ld of %d)", cont.get(), ncont);
    for (auto &x : others) { VS_CHECK(x.is_ready(), "continuation never becomes ready"); expect_out(get(x), o, "another continuation"); }
    VS_CHECK(ran.get() == 0, "the refused function ran");
    VS_CHECK(res.is_ready(), "the future of the refused continuation never becomes ready");
    Out g = get(res);
    VS_CHECK(g.kind == BROKEN || (!thrown && g.kind != V), "outcome %s of a refused continuation", g.str());
    if (shared) expect_out(get(s), o, "shared future");
  }
  VS_CHECK(alive.get() == 0, "%ld copies of a function alive", alive.get());
}

// combining
SCEN(combine, 3) {
  int k = r.range(1, 3), n = r.below(6), kind = r.below(4);
  bool conc = r.chance(50);
  std::vector<Out> o(k);
  std::vector<pc::promise<Val>> ps;
  std::vector<S> ss, keep;
  for (int i = 0; i < k; i++) { auto pf = pc::make_promise<Val>(); o[i] = with_ep(random_out(r, 65, 15)); ps.push_back(std::move(pf.first)); ss.push_back(pf.second.share()); }
  keep = ss;
  std::vector<char> early(k);
  for (int i = 0; i < k; i++) if ((early[i] = r.chance(30))) satisfy(std::move(ps[i]), o[i]);
  std::thread t;
  auto fire = [&] { for (int i = 0; i < k; i++) if (!early[i]) satisfy(std::move(ps[i]), o[i]); };
  if (conc) t = std::thread(fire);
  pc::future<std::vector<S>> all;
  pc::future<pc::when_any_result<std::vector<S>>> any;
  pc::future<std::tuple<S, S>> tall;
  bool ok = true;
  switch (kind) {
  case 0: ok = attempt(n, "when_all range", [&] { all = pc::when_all(ss.begin(), ss.end()); }); break;
  case 1: { auto v = ss; ok = attempt(n, "when_all vector", [&] { all = pc::when_all(std::move(v)); }); break; }
  case 2: ok = attempt(n, "when_any range", [&] { any = pc::when_any(ss.begin(), ss.end()); }); break;
  default: ok = attempt(n, "when_all", [&] { tall = pc::when_all(ss[0], ss[k - 1]); }); break;
  }
  if (conc) t.join(); else fire();
  for (int i = 0; i < k; i++) { VS_CHECK(keep[i].valid() && keep[i].is_ready(), "input not ready"); expect_out(get(keep[i]), o[i], "input"); }
  VS_CHECK(ok || (!all.valid() && !any.valid() && !tall.valid()), "result of a failed call");
  if (!ok) return;
  if (kind < 2) { VS_CHECK(all.is_ready(), "when_all not ready"); auto v = all.get(); VS_CHECK((int)v.size() == k, "size"); for (int i = 0; i < k; i++) expect_out(get(v[i]), o[i], "when_all"); }
  else if (kind == 2) { VS_CHECK(any.is_ready(), "when_any not ready"); auto v = any.get(); VS_CHECK(v.index < (size_t)k, "index"); for (int i = 0; i < k; i++) expect_out(get(v.futures[i]), o[i], "when_any"); }
  else { VS_CHECK(tall.is_ready(), "when_all not ready"); auto v = tall.get(); expect_out(get(std::get<0>(v)), o[0], "when_all"); }
}

// waiting
SCEN(waiting, 3) {
  Out o = with_ep(random_out(r, 65, 15));
  int n = r.below(3), kind = r.below(5);
  auto pf = pc::make_promise<Val>();
  F f = std::move(pf.second);
  S s;
  bool shared = r.chance(50);
  if (shared) s = f.share();
  std::thread t([&] { vs::point(); satisfy(std::move(pf.first), o); });
  switch (kind) {
  case 0: (void)attempt(n, "wait", [&] { if (shared) s.wait(); else f.wait(); }); break;
  case 1: (void)attempt(n, "wait_for", [&] { if (shared) (void)s.wait_for(std::chrono::milliseconds(2)); else (void)f.wait_for(std::chrono::milliseconds(2)); }); break;
  case 2: { std::unique_ptr<pc::timed_waiter> w; (void)attempt(n, "timed_waiter", [&] { if (shared) w.reset(new pc::timed_waiter(s)); else w.reset(new pc::timed_waiter(f)); (void)w->wait_for(std::chrono::milliseconds(1)); }); break; }
  case 3: (void)attempt(n, "share", [&] { if (shared) { S x = s; (void)x; } else s = f.share(); }); if (s.valid()) shared = true; break;
  default: { // get without memory: either bad_alloc before anything was taken, or the outcome
    bool got = false;
    Out g;
    try { Injected i(n); if (shared) { const Val &v = s.get(); g.id = v.id(); } else { Val v = f.get(); g.id = v.id(); } got = true; } catch (const std::bad_alloc &) {} catch (...) { vs::fail_new_after(-1); g = classify(); got = true; }
    if (got) expect_out(g, o, "get");
    if (got && !shared) { t.join(); return; }
    break;
  }
  }
  t.join();
  if (shared) { VS_CHECK(s.valid() && s.is_ready(), "shared_future damaged by a failed wait"); expect_out(get(s), o, "after a failed wait"); }
  else if (kind != 4 || f.valid()) { VS_CHECK(f.valid() && f.is_ready(), "future damaged by a failed wait"); expect_out(get(f), o, "after a failed wait"); }
}

// the pool: a task that could not be stored is reported to its poster, everything else goes on
SCEN(pool, 3) {
  int nt = r.range(1, 4), bad = r.below(nt), n = any_fault(r, 2);
  std::deque<vs::Cnt> ran(nt);
  std::vector<char> ok(nt, 1);
  vs::Cnt alive;
  {
    pc::static_thread_pool pool(r.range(1, 2));
    Bomb tok(alive);
    bool big = r.chance(60);
    for (int i = 0; i < nt; i++) {
      auto fn = [&ran, i, tok] { ran[i].inc(); };
      auto fat = [fn, pad = std::array<long, 20>{}] { (void)pad; fn(); };
      if (i != bad) post(pool.executor(), fn);
      else ok[i] = attempt(n, "post", [&] { if (big) post(pool.executor(), fat); else post(pool.executor(), fn); });
      vs::point();
    }
    pool.wait();
    for (int i = 0; i < nt; i++) VS_CHECK(ran[i].get() == ok[i], "task %d ran %ld times (accepted: %d)", i, ran[i].get(), (int)ok[i]);
  }
  VS_CHECK(alive.get() == 0, "%ld copies of a task alive", alive.get());
}
// a thread of the pool cannot be created: the constructor reports it and leaves nothing behind
SCEN_F(pool_threads, 1, vs::SCHED_ONLY) {
  int n = r.range(1, 3), at = r.below(n + 1);
  bool memory = r.chance(30), failed = false;
  vs::Cnt ran;
  try {
    if (memory) vs::fail_new_after(r.below(2 * n)); else vs::fail_thread_after(at);
    pc::static_thread_pool pool(n);
    vs::fail_new_after(-1);
    vs::fail_thread_after(-1);
    for (int i = 0; i < 2; i++) pool_post(pool.executor(), [&] { ran.inc(); });
    pool.wait();
  } catch (const std::system_error &) { failed = true; VS_CHECK(!memory && at < n, "unexpected system_error"); vs::cover("thread creation failed"); }
  catch (const std::bad_alloc &) { failed = true; VS_CHECK(memory, "unexpected bad_alloc"); vs::cover("no memory for a thread"); }
  vs::fail_new_after(-1);
  vs::fail_thread_after(-1);
  VS_CHECK(failed || ran.get() == 2, "pool ran %ld of 2 tasks", ran.get());
}
