#define TK_MAIN
#include "poolkit.h"

struct TState {
  TaskRec t;
  pc::future<long> f;
  bool after = false; // posted after stop()/wait() had returned
};
static thread_local long t_after_stop = 0, t_epoch = 0;
static vs::Cnt g_epoch;
// posts task i in one of several ways
template <class Body> static void post_any(Rng &r, pc::static_thread_pool &pool, TState &s, Body body) {
  switch (r.below(4)) {
  case 0: s.f = pc::async(pool.executor(), std::move(body)); break;
  case 1: s.f = pc::make_ready_future().next(pool.executor(), std::move(body)); break;
  case 2: { pc::packaged_task<long()> pt(std::move(body)); s.f = pt.get_future(); pool_post(pool.executor(), std::move(pt)); break; }
  default: { auto pf = pc::make_promise<long>(); s.f = std::move(pf.second); pool_post(pool.executor(), [p = std::move(pf.first), b = std::move(body)]() mutable { p.set_value(b()); }); break; }
  }
}

// posters, stop and destruction in any interleaving
SCEN(stop_race, 7) {
  g_epoch.inc();
  int nw = r.range(0, 3), na = r.below(2);
  int np = r.range(1, 2), per = r.range(1, 4), extra = r.range(0, 2);
  int n = np * per + extra;
  std::deque<TState> ts(n);
  vs::Cnt stopped, destroyed, waited;
  bool do_wait = r.chance(40), do_stop = r.chance(75), stop_twice = r.chance(30), stop_in_task = r.chance(20);
  int stop_task = stop_in_task ? r.below(np * per) : -1;
  long ep = g_epoch.get();
  std::vector<std::thread> at;
  {
    std::unique_ptr<pc::static_thread_pool> pool(new pc::static_thread_pool(nw));
    auto *pp = pool.get();
    auto body = [&, pp](int i) {
      TaskRec *t = &ts[i].t;
      return [&, pp, t, i, tok = Tok(t->alive), v = Val(4)] {
        VS_CHECK(v.id() == 4, "task state damaged");
        VS_CHECK(!ts[i].after, "task posted after stop()/wait() ran");
        VS_CHECK(!destroyed.get(), "task ran after the pool was destroyed");
        VS_CHECK(!waited.get(), "task ran after wait() returned");
        if (t->ran.inc() > 1) vs::fail("task ran twice");
        if (stopped.get()) {
          if (t_epoch != ep) { t_epoch = ep; t_after_stop = 0; }
          if (++t_after_stop > 1) vs::fail("a worker started %ld tasks after stop() had returned", t_after_stop);
        }
        vs::point();
        if (i == stop_task) { pp->stop(); stopped.set(1); }
        vs::point();
        t->done.set(1);
        return long(i);
      };
    };
    for (int k = 0; k < na; k++) at.emplace_back([pp] { pp->attach(); });
    std::vector<std::thread> ps;
    for (int k = 0; k < np; k++) ps.emplace_back([&, k, q = r.fork()]() mutable { for (int i = k * per; i < (k + 1) * per; i++) { vs::point(); post_any(q, *pp, ts[i], body(i)); } });
    auto stop = [&] { pp->stop(); stopped.set(1); };
    std::thread st;
    if (stop_twice) st = std::thread([&] { vs::point(); if (do_stop) stop(); });
    vs::point();
    if (do_stop) stop();
    if (r.chance(50)) for (auto &p : ps) if (p.joinable()) p.join();
    if (st.joinable()) st.join();
    bool closed = do_stop;
    if (do_wait && nw) { // (threads that attach to a pool without workers after wait() are out of scope)
      for (auto &p : ps) if (p.joinable()) p.join();
      pp->wait();
      waited.set(1);
      closed = true;
      for (auto &s : ts) if (s.t.ran.get()) VS_CHECK(s.t.done.get(), "task still running when wait() returned");
    }
    if (closed)
      for (int i = np * per; i < n; i++) { ts[i].after = true; post_any(r, *pp, ts[i], body(i)); }
    for (auto &p : ps) if (p.joinable()) p.join();
    if (na) { pp->stop(); stopped.set(1); for (auto &t : at) t.join(); } // attached threads leave before the pool goes
    if (r.chance(30)) pp->stop();
    pool.reset();
    destroyed.set(1);
  }
  for (int i = 0; i < n; i++) {
    auto &s = ts[i];
    if (!s.f.valid()) continue; // never posted
    VS_CHECK(s.t.alive.get() == 0, "task object not destroyed with the pool");
    VS_CHECK(s.f.is_ready(), "future of a task (ran %ld) not ready after the pool was destroyed", s.t.ran.get());
    Out o = get(s.f);
    if (s.t.ran.get()) { VS_CHECK(o.kind == V && o.id == i && s.t.done.get(), "executed task delivered %s", o.str()); vs::cover("ran"); }
    else { VS_CHECK(o.kind == BROKEN, "unexecuted task delivered %s", o.str()); vs::cover(s.after ? "refused" : "abandoned"); }
  }
}

// each operation returns, in any order, repeated
SCEN(any_order, 5) {
  int nw = r.range(0, 2);
  vs::Cnt ran, done;
  int n = r.range(0, 3);
  std::deque<TaskRec> t(n);
  std::vector<std::thread> at;
  {
    pc::static_thread_pool pool(nw);
    auto *pp = &pool;
    for (int i = 0; i < n; i++) pool_post(pool.executor(), [&, i, tok = Tok(t[i].alive)] { t[i].ran.inc(); vs::point(); t[i].done.inc(); });
    int ops = r.range(1, 5);
    bool closed = false, stopped = false;
    for (int k = 0; k < ops; k++) switch (r.below(5)) {
      case 0: pool.stop(); stopped = closed = true; break;
      case 1: if (nw || closed) { if (nw == 0 || closed || r.chance(50)) { pool.wait(); closed = true; } } break;
      case 2: at.emplace_back([pp] { pp->attach(); }); break;
      case 3: if (closed) { pool.attach(); } break; // returns at once: nothing more to serve
      default: vs::point(); break;
    }
    if (!at.empty()) { // attached threads return once the pool is stopped or waited for
      if (r.chance(50)) pool.stop(); else pool.wait();
      for (auto &x : at) x.join();
    }
    (void)stopped;
  }
  for (int i = 0; i < n; i++) { VS_CHECK(t[i].ran.get() <= 1 && t[i].ran.get() == t[i].done.get(), "task ran %ld times, finished %ld", t[i].ran.get(), t[i].done.get()); VS_CHECK(t[i].alive.get() == 0, "task leaked"); }
}

// with every worker busy, stop() leaves the queued tasks unrun except one per worker
SCEN(stop_busy, 4) {
  int nw = r.range(1, 2), n = r.range(2, 6);
  std::deque<TaskRec> t(n);
  vs::Cnt started, finished;
  std::vector<pc::future<void>> fs;
  {
    pc::static_thread_pool pool(nw);
    auto gate = pc::make_promise<void>();
    auto g = gate.second.share();
    pc::latch in(nw);
    for (int i = 0; i < nw; i++) pool_post(pool.executor(), [&, g] { in.count_down(); g.get(); finished.inc(); });
    in.wait(); // every worker is inside a task
    for (int i = 0; i < n; i++) fs.push_back(pc::async(pool.executor(), [&, i, tok = Tok(t[i].alive)] { t[i].ran.inc(); started.inc(); }));
    bool other = r.chance(50);
    if (other) { std::thread s([&] { pool.stop(); }); s.join(); } else pool.stop();
    for (int i = 0; i < n; i++) VS_CHECK(!t[i].ran.get(), "task ran while every worker is busy");
    gate.first.set_value();
    if (r.chance(50)) { pool.wait(); VS_CHECK(finished.get() == nw, "running tasks did not complete"); }
  }
  VS_CHECK(finished.get() == nw, "running tasks did not complete");
  VS_CHECK(started.get() <= nw, "%ld tasks started after stop() by %d workers", started.get(), nw);
  for (int i = 0; i < n; i++) {
    VS_CHECK(t[i].alive.get() == 0, "task leaked");
    VS_CHECK(fs[i].is_ready(), "future not ready after the pool was destroyed");
    Out o = get(fs[i]);
    VS_CHECK(o.kind == (t[i].ran.get() ? V : BROKEN), "task ran %ld times but delivered %s", t[i].ran.get(), o.str());
  }
}
// destroying a pool stops it: what is still queued behind the running tasks is abandoned, except one task per worker
SCEN_F(destroy_busy, 3, vs::SCHED_ONLY) {
  int nw = r.range(1, 2), n = r.range(3, 6);
  std::deque<TaskRec> t(n);
  vs::Cnt started, finished;
  std::vector<pc::future<void>> fs;
  std::thread opener;
  {
    std::unique_ptr<pc::static_thread_pool> pool(new pc::static_thread_pool(nw));
    auto ex = pool->executor();
    auto gate = pc::make_promise<void>();
    auto g = gate.second.share();
    pc::latch in(nw);
    for (int i = 0; i < nw; i++) pool_post(ex, [&, g] { in.count_down(); g.get(); finished.inc(); });
    in.wait(); // every worker is inside a task
    for (int i = 0; i < n; i++) fs.push_back(pc::async(ex, [&, i, tok = Tok(t[i].alive)] { t[i].ran.inc(); started.inc(); }));
    opener = std::thread([p = std::move(gate.first)]() mutable { vs::quiesce(); p.set_value(); }); // once the destructor waits for the workers
    pool.reset();
  }
  opener.join();
  VS_CHECK(finished.get() == nw, "running tasks did not complete");
  VS_CHECK(started.get() <= nw, "%ld queued tasks were run by a pool of %d workers which is being destroyed", started.get(), nw);
  for (int i = 0; i < n; i++) {
    VS_CHECK(t[i].alive.get() == 0, "task leaked");
    VS_CHECK(fs[i].is_ready(), "future not ready after the pool was destroyed");
    Out o = get(fs[i]);
    VS_CHECK(o.kind == (t[i].ran.get() ? V : BROKEN), "task ran %ld times but delivered %s", t[i].ran.get(), o.str());
  }
}
// abandoned tasks use the pool or other futures while they are destroyed with it
struct OnDie {
  Life l;
  std::function<void()> f;
  explicit OnDie(std::function<void()> g) : f(std::move(g)) {}
  OnDie(OnDie &&o) noexcept : f(std::move(o.f)) { o.f = nullptr; }
  ~OnDie() { if (f) f(); }
};
SCEN(continuations_of_abandoned, 4) {
  int n = r.range(1, 3);
  std::deque<TaskRec> t(n), c(n);
  std::vector<pc::future<long>> fs;
  vs::Cnt died;
  {
    pc::static_thread_pool other(1);
    {
      pc::static_thread_pool pool(r.range(0, 1));
      for (int i = 0; i < n; i++) {
        auto f = pc::async(pool.executor(), [&, i, tok = Tok(t[i].alive), d = OnDie([&] { died.inc(); })] { t[i].ran.inc(); return long(i); });
        // continuation of an abandoned task runs on the other pool
        fs.push_back(f.then(other.executor(), [&, i, tok = Tok(c[i].alive)](pc::future<long> x) { c[i].ran.inc(); Out o = get(x); return o.kind == BROKEN ? -1L : o.id; }));
      }
      if (r.chance(50)) pool.stop();
    }
    for (int i = 0; i < n; i++) VS_CHECK(t[i].alive.get() == 0, "task survived its pool");
    VS_CHECK(died.get() == n, "captures of tasks destroyed %ld times", died.get());
    for (int i = 0; i < n; i++) { long v = fs[i].get(); VS_CHECK(v == (t[i].ran.get() ? i : -1), "continuation saw %ld", v); }
    other.wait();
  }
  for (int i = 0; i < n; i++) VS_CHECK(c[i].ran.get() == 1 && c[i].alive.get() == 0, "continuation ran %ld times", c[i].ran.get());
}
// a pool without any thread only keeps tasks
SCEN(no_workers, 2) {
  int n = r.range(1, 3);
  std::deque<TaskRec> t(n);
  std::vector<pc::future<long>> fs;
  {
    pc::static_thread_pool pool(0);
    for (int i = 0; i < n; i++) fs.push_back(pc::async(pool.executor(), [&, i, tok = Tok(t[i].alive)] { t[i].ran.inc(); return 1L; }));
    for (auto &f : fs) VS_CHECK(!f.is_ready(), "ready without any worker");
    if (r.chance(50)) pool.stop();
    if (r.chance(50)) pool.wait();
    if (r.chance(30)) pool.stop();
  }
  for (int i = 0; i < n; i++) { VS_CHECK(t[i].ran.get() == 0 && t[i].alive.get() == 0, "task ran or leaked"); VS_CHECK(fs[i].is_ready() && get(fs[i]).kind == BROKEN, "not abandoned"); }
}

// tasks offered to a closed pool are discarded; their captures may use the pool (or others) while they are destroyed
SCEN(discarded_captures, 3) {
  int n = r.range(1, 3), np = r.range(0, 1);
  std::deque<TaskRec> t(2 * n);
  vs::Cnt died, stray;
  {
    pc::static_thread_pool pool(r.range(0, 2)), other(1);
    auto e = pool.executor();
    auto o = other.executor();
    if (r.chance(50)) pool.stop(); else pool.wait();
    auto offer = [&](int i, int how) {
      OnDie d([&, i, how] {
        if (how & 1) pool_post(e, [&, tok = Tok(t[n + i].alive)] { t[n + i].ran.inc(); });
        if (how & 2) pool.stop();
        if (how & 4) pool_post(o, [&] { stray.inc(); });
        died.inc();
      });
      auto fn = [&, i, tok = Tok(t[i].alive), d = std::move(d)] { t[i].ran.inc(); return 1L; };
      if (how & 8) { auto f = pc::async(e, std::move(fn)); VS_CHECK(f.is_ready() && get(f).kind == BROKEN, "task offered to a closed pool: its future is not abandoned"); }
      else pool_post(e, std::move(fn));
    };
    std::vector<std::thread> ts;
    std::vector<int> hows;
    for (int i = 0; i < n; i++) hows.push_back(r.below(16));
    if (np) ts.emplace_back([&] { for (int i = 0; i < n; i++) if (i & 1) offer(i, hows[i]); });
    for (int i = 0; i < n; i++) if (!np || !(i & 1)) offer(i, hows[i]);
    for (auto &x : ts) x.join();
    VS_CHECK(died.get() == n, "captures of discarded tasks destroyed %ld times, %d tasks", died.get(), n);
    if (r.chance(50)) pool.wait();
    other.wait();
    long exp = 0;
    for (int h : hows) exp += h & 4 ? 1 : 0;
    VS_CHECK(stray.get() == exp, "tasks posted elsewhere by dying captures: %ld ran, expected %ld", stray.get(), exp);
  }
  for (auto &x : t) VS_CHECK(x.ran.get() == 0 && x.alive.get() == 0, "a task offered to a closed pool ran or survived");
}
