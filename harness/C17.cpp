#define TK_MAIN
#include "prod.h"
using namespace tk;
using namespace std::chrono;
using FS = pc::future_status;

// a clock of the user's own, ticking in 10 ns units from another epoch
struct MyClock {
  using rep = long long;
  using period = std::ratio<1, 100000000>;
  using duration = std::chrono::duration<rep, period>;
  using time_point = std::chrono::time_point<MyClock>;
  static constexpr bool is_steady = true;
  static time_point now() { return time_point(duration_cast<duration>(steady_clock::now().time_since_epoch()) + duration(12345678)); }
};
// and one that runs at a quarter of the speed (media time, simulated time)
struct SlowClock {
  using duration = nanoseconds;
  using rep = duration::rep;
  using period = duration::period;
  using time_point = std::chrono::time_point<SlowClock>;
  static constexpr bool is_steady = true;
  static time_point now() { return time_point(duration_cast<duration>(steady_clock::now().time_since_epoch()) / 4); }
};
static steady_clock::duration scale(Rng &r, bool small) {
  // under the controlled scheduler time is virtual: any magnitude is free
  if (!vs::sched_mode()) return small ? steady_clock::duration(microseconds(r.range(0, 3000))) : r.chance(50) ? steady_clock::duration(seconds(60)) : steady_clock::duration(hours(24 * 40));
  static const long long us[] = {0, 1, 50, 1000, 20000, 3000000, 3600000000LL, 40 * 24 * 3600000000LL};
  return microseconds(us[small ? r.below(8) : 6 + r.below(2)]);
}
// one timed wait of random form through W (future, shared_future, timed_waiter); checks the timeout arithmetic.
// done: set after the outcome was produced; fired: set before
struct Fl { vs::Cnt fired, done; };
static thread_local steady_clock::duration t_elapsed;
template <class W> static FS timed(Rng &r, W &w, steady_clock::duration d, Fl &fl) {
  bool was_done = fl.done.get();
  int form = r.below(9);
  FS s;
  auto t0 = steady_clock::now();
  steady_clock::time_point end = t0 + d; // timeout is legal only from here on
  switch (form) {
  case 0: s = w.wait_for(d); break;
  case 1: { auto x = duration_cast<microseconds>(d); s = w.wait_for(x); end = t0 + x; break; }
  case 2: { duration<double> x = d; s = w.wait_for(x); end = t0 + d - microseconds(1); break; }
  case 3: s = w.wait_until(end); break;
  case 4: s = w.wait_until(system_clock::now() + duration_cast<system_clock::duration>(d)); break;
  case 5: s = w.wait_until(high_resolution_clock::now() + duration_cast<high_resolution_clock::duration>(d)); break;
  case 6: s = w.wait_until(MyClock::now() + duration_cast<MyClock::duration>(d)); break;
  case 7: {
    SlowClock::time_point tp = SlowClock::now() + duration_cast<nanoseconds>(d) / 4;
    s = w.wait_until(tp);
    end = t0;
    if (s == FS::timeout) VS_CHECK(SlowClock::now() >= tp, "wait_until timed out before the time point of a slow clock");
    break;
  }
  default: { auto x = duration_cast<milliseconds>(d); s = w.wait_for(x); end = t0 + x; break; }
  }
  auto t1 = steady_clock::now();
  t_elapsed = t1 - t0;
  if (!vs::sched_mode() && form == 4) end -= milliseconds(500); // the system clock may be adjusted
  VS_CHECK(s == FS::ready || s == FS::timeout, "unexpected status");
  if (s == FS::ready) VS_CHECK(fl.fired.get(), "timed wait (form %d) reported ready before the outcome was produced", form);
  else {
    VS_CHECK(!was_done, "timed wait (form %d) timed out although the future was ready before", form);
    VS_CHECK(t1 >= end, "timed wait (form %d) timed out %lld ns too early", form, (long long)duration_cast<nanoseconds>(end - t1).count());
  }
  return s;
}
template <class W> static FS poll_past(Rng &r, W &w) {
  switch (r.below(6)) {
  case 0: return w.wait_for(seconds(0));
  case 1: return w.wait_for(seconds(-5));
  case 2: return w.wait_until(steady_clock::now() - hours(1));
  case 3: return w.wait_until(system_clock::now() - milliseconds(1));
  case 4: return w.wait_until(system_clock::time_point());
  default: return w.wait_until(steady_clock::now());
  }
}
// a ready future is ready for any timeout
template <class T> static void already(Rng &r) {
  Producer<T> p = make_producer<T>(r);
  Out o = norm<T>(with_ep(random_out(r, 50, 20)));
  Fl fl;
  bool early = r.chance(50), shared = r.chance(40);
  pc::future<T> f = std::move(p.fut);
  pc::shared_future<T> s;
  if (shared) s = f.share();
  pc::timed_waiter w;
  if (early) w = shared ? pc::timed_waiter(s) : pc::timed_waiter(f);
  if (early && r.chance(50)) VS_CHECK(poll_past(r, w) == FS::timeout, "ready before the outcome was produced");
  fl.fired.set(1);
  if (r.chance(50)) p.impl->fire(o); else { std::thread t([&] { p.impl->fire(o); }); t.join(); }
  fl.done.set(1);
  if (!early) w = shared ? pc::timed_waiter(s) : pc::timed_waiter(f);
  for (int k = r.range(1, 3); k > 0; k--) {
    VS_CHECK(poll_past(r, w) == FS::ready, "ready future not reported ready by timed_waiter with a zero or past timeout");
    VS_CHECK(timed(r, w, scale(r, true), fl) == FS::ready, "ready future not reported ready by timed_waiter");
    if (shared) { VS_CHECK(poll_past(r, s) == FS::ready, "ready shared_future not reported ready with a zero or past timeout"); VS_CHECK(timed(r, s, scale(r, true), fl) == FS::ready, "ready shared_future not reported ready"); }
    else { const auto &cf = f; VS_CHECK(poll_past(r, cf) == FS::ready, "ready future not reported ready with a zero or past timeout"); VS_CHECK(timed(r, cf, scale(r, true), fl) == FS::ready, "ready future not reported ready"); }
  }
  expect_out(shared ? get(s) : get(f), o, "after timed waits");
  if (r.chance(50)) { f = pc::future<T>(); s = pc::shared_future<T>(); VS_CHECK(poll_past(r, w) == FS::ready, "waiter outliving its ready future is not ready"); }
}
SCEN(already_val, 2) { already<Val>(r); }
SCEN(already_void, 2) { already<void>(r); }
SCEN(already_ref, 1) { already<long &>(r); }

// an unready future times out, not before the full timeout, as often as asked, and stays usable
SCEN(times_out, 3) {
  Producer<Val> p = make_producer<Val>(r);
  Fl fl;
  vs::Cnt cont;
  bool shared = r.chance(50);
  pc::future<Val> f = std::move(p.fut);
  pc::shared_future<Val> s;
  pc::future<void> c;
  if (shared) { s = f.share(); c = s.then([&](pc::shared_future<Val>) { cont.inc(); }); }
  else f.notify([&] { cont.inc(); });
  pc::timed_waiter w = shared ? pc::timed_waiter(s) : pc::timed_waiter(f), w2 = w;
  int k = r.range(1, 4);
  std::thread other([&, q = r.fork()]() mutable { for (int i = 0; i < 2; i++) VS_CHECK(timed(q, w2, scale(q, true), fl) == FS::timeout, "ready"); });
  for (int i = 0; i < k; i++) {
    FS x;
    switch (r.below(3)) {
    case 0: x = timed(r, w, scale(r, true), fl); break;
    case 1: x = shared ? timed(r, s, scale(r, true), fl) : timed(r, f, scale(r, true), fl); break;
    default: { pc::timed_waiter t = shared ? pc::timed_waiter(s) : pc::timed_waiter(f); x = timed(r, t, scale(r, true), fl); break; }
    }
    VS_CHECK(x == FS::timeout, "unready future reported ready");
    VS_CHECK(shared ? s.valid() && !s.is_ready() : f.valid() && !f.is_ready(), "timed wait disturbed the future");
  }
  other.join();
  VS_CHECK(cont.get() == 0, "continuation ran early");
  Out o = with_ep(random_out(r));
  fl.fired.set(1);
  p.impl->fire(o);
  fl.done.set(1);
  VS_CHECK(cont.get() == 1, "continuation ran %ld times", cont.get());
  VS_CHECK(poll_past(r, w) == FS::ready && poll_past(r, w2) == FS::ready, "waiter not ready");
  expect_out(shared ? get(s) : get(f), o, "after timeouts");
}
// produced while several waiters wait: each is right about what it reports, nobody disturbs anybody
SCEN(race, 6) {
  Producer<Val> p = make_producer<Val>(r);
  Fl fl;
  Out o = with_ep(random_out(r, 60, 20));
  vs::Cnt cont;
  auto s = p.fut.share();
  auto c = s.then([&](pc::shared_future<Val>) { cont.inc(); });
  pc::timed_waiter w(s);
  int n = r.range(1, 3);
  std::vector<std::thread> ts;
  for (int i = 0; i < n; i++) ts.emplace_back([&fl, &o, w, s, q = r.fork()]() mutable {
    bool was = false;
    for (int k = 0; k < 3; k++) {
      FS x;
      switch (q.below(3)) {
      case 0: x = timed(q, w, scale(q, true), fl); break;
      case 1: x = timed(q, s, scale(q, true), fl); break;
      default: { pc::timed_waiter t(s); x = timed(q, t, scale(q, true), fl); break; }
      }
      // (a waiter notified later than another one may briefly disagree, but never once the production returned)
      if (x == FS::ready) { was = true; VS_CHECK(s.is_ready(), "reported ready but is_ready() is false"); }
      (void)was;
    }
    if (q.chance(50)) expect_out(get(s), o, "waiter");
  });
  std::thread t([&] { vs::point(); fl.fired.set(1); p.impl->fire(o); fl.done.set(1); });
  for (auto &x : ts) x.join();
  t.join();
  VS_CHECK(cont.get() == 1, "continuation ran %ld times", cont.get());
  VS_CHECK(poll_past(r, w) == FS::ready, "waiter not ready in the end");
  expect_out(get(s), o, "after the race");
}
// returned promptly: nobody sleeps through the production
SCEN(prompt, 5) {
  vs::calm_time();
  Producer<Val> p = make_producer<Val>(r);
  Fl fl;
  Out o = with_ep(random_out(r, 60, 20));
  auto s = p.fut.share();
  pc::timed_waiter w(s);
  int n = r.range(1, 3);
  std::vector<std::thread> ts;
  for (int i = 0; i < n; i++) ts.emplace_back([&, w, s, q = r.fork()]() mutable {
    auto d = scale(q, false);
    FS x;
    switch (q.below(3)) {
    case 0: x = timed(q, w, d, fl); break;
    case 1: x = timed(q, s, d, fl); break;
    default: { pc::timed_waiter t(s); auto t2 = std::move(t); x = timed(q, t2, d, fl); break; }
    }
    VS_CHECK(x == FS::ready, "timed out although the outcome was produced long before");
    VS_CHECK(t_elapsed < d / 2, "timed wait slept through the production of the outcome");
  });
  if (r.chance(40) && vs::sched_mode()) { vs::quiesce(); } // everybody waits already
  else vs::point();
  fl.fired.set(1);
  p.impl->fire(o);
  fl.done.set(1);
  for (auto &x : ts) x.join();
  expect_out(get(s), o, "after");
}
// a waiter outlives its future in every way a future can go
SCEN(outlives, 4) {
  Fl fl;
  auto pf = pc::make_promise<Val>();
  pc::timed_waiter w(pf.second), w2 = w;
  pc::promise<Val> p = std::move(pf.first);
  int how = r.below(5);
  std::thread t;
  bool conc = r.chance(50);
  auto fire = [&] { vs::point(); fl.fired.set(1); p.set_value(Val(3)); };
  pc::future<long> g;
  switch (how) {
  case 0: case 1: // dropped unproduced, possibly racing with the production
    if (how == 1) { t = std::thread([f = std::move(pf.second)]() mutable { vs::point(); f = pc::future<Val>(); }); fire(); }
    else { pf.second = pc::future<Val>(); VS_CHECK(timed(r, w, scale(r, true), fl) == FS::timeout, "ready although dropped"); fire(); VS_CHECK(poll_past(r, w) == FS::timeout, "ready although its future was dropped before the production"); }
    break;
  case 2: // consumed by get
    if (conc) { t = std::thread(fire); } else fire();
    VS_CHECK(pf.second.get().id() == 3, "value");
    if (t.joinable()) t.join();
    VS_CHECK(poll_past(r, w) == FS::ready, "waiter not ready although the outcome was produced");
    break;
  case 3: // consumed by a continuation
    g = pf.second.next([](Val v) { return v.id(); });
    if (conc) { t = std::thread(fire); } else fire();
    VS_CHECK(g.get() == 3, "value");
    if (t.joinable()) t.join();
    VS_CHECK(poll_past(r, w) == FS::ready, "waiter not ready although the outcome was produced");
    break;
  default: // abandoned
    { pc::promise<Val> q(std::move(p)); fl.fired.set(1); }
    fl.done.set(1);
    VS_CHECK(poll_past(r, w) == FS::ready, "waiter not ready although the promise was abandoned");
    pf.second = pc::future<Val>();
    VS_CHECK(timed(r, w, scale(r, true), fl) == FS::ready, "waiter not ready");
  }
  FS a = poll_past(r, w), b = poll_past(r, w2);
  if (t.joinable()) t.join();
  (void)a; (void)b;
  VS_CHECK(poll_past(r, w) == poll_past(r, w2), "copies of a waiter disagree");
}
