#define TK_MAIN
#include "poolkit.h"

struct PoolMon {
  vs::Cnt running, peak, waited, order, stopped;
  void enter(TaskRec &t, int max_workers) {
    VS_CHECK(t_role != 1, "task ran inside a posting or waiting call");
    VS_CHECK(!waited.get(), "task ran after wait() returned");
    if (t.ran.inc() > 1) vs::fail("task ran twice");
    long n = running.inc();
    if (n > peak.get()) peak.set(n);
    VS_CHECK(n <= max_workers, "%ld tasks at once on %d threads", n, max_workers);
    t.order = order.inc() - 1;
    vs::point();
  }
  void leave(TaskRec &t) { running.inc(-1); t.done.set(1); }
};
struct Attached {
  std::vector<std::thread> ts;
  vs::Cnt entered, left;
  void start(pc::static_thread_pool &p, int n) {
    for (int i = 0; i < n; i++) ts.emplace_back([this, &p] { Role ro(2); entered.inc(); p.attach(); left.inc(); });
  }
  void join() { for (auto &t : ts) t.join(); ts.clear(); }
  ~Attached() { join(); }
};

// concurrent posters, workers and attached threads
SCEN(posters, 6) {
  Role me(1);
  int nw = r.range(0, 3), na = nw == 0 ? r.range(1, 2) : r.below(2);
  pc::static_thread_pool pool(nw);
  Attached at;
  PoolMon mon;
  int np = r.range(1, 3), per = r.range(1, 3), n = np * per;
  std::deque<TaskRec> t(n);
  bool late = r.chance(50);
  if (!late) at.start(pool, na);
  auto post_task = [&](int i, int form) {
    auto body = [&mon, &t, i, mw = nw + na, tok = Tok(t[i].alive), v = Val(i)]() { VS_CHECK(v.id() == i, "task state damaged"); mon.enter(t[i], mw); mon.leave(t[i]); };
    t[i].posted_begin = vs::tick();
    switch (form) {
    case 0: pool_post(pool.executor(), std::move(body)); break;
    case 1: (void)pc::async(pool.executor(), std::move(body)).detach(); break;
    case 2: (void)pc::make_ready_future().next(pool.executor(), std::move(body)).detach(); break;
    case 3: { PEx e = pool.executor(); PEx c = e; pool_post_raw(c, std::move(body)); break; }
    default: pool_post(pool.executor(), std::move(body)); break;
    }
    t[i].posted_end = vs::tick();
  };
  std::vector<std::vector<int>> forms(np);
  for (auto &f : forms) for (int k = 0; k < per; k++) f.push_back(r.below(5));
  std::vector<std::thread> ps;
  for (int k = 1; k < np; k++) ps.emplace_back([&, k] { Role ro(1); for (int i = 0; i < per; i++) post_task(k * per + i, forms[k][i]); });
  for (int i = 0; i < per; i++) post_task(i, forms[0][i]);
  for (auto &p : ps) p.join();
  if (late) { at.start(pool, na); if (nw == 0) while (at.entered.get() < na) std::this_thread::yield(); }
  bool quiet = nw == 0 && late; // nobody but attached threads serves: they must have attached before the pool is closed
  if (quiet || nw == 0) while (true) { long d = 0; for (auto &x : t) d += x.done.get(); if (d == n) break; std::this_thread::yield(); }
  pool.wait();
  mon.waited.set(1);
  for (int i = 0; i < n; i++) VS_CHECK(t[i].ran.get() == 1 && t[i].done.get(), "task %d posted before wait() ran %ld times, finished: %ld", i, t[i].ran.get(), t[i].done.get());
  for (int i = 0; i < n; i++) VS_CHECK(t[i].alive.get() == 0, "executed task object still alive after wait()");
  if (nw + na == 1)
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
      if (t[i].posted_end < t[j].posted_begin) VS_CHECK(t[i].order < t[j].order, "single worker: task %d posted before task %d ran after it", i, j);
  for (int k = 0; k < np; k++) for (int i = 1; i < per; i++) if (nw + na == 1) VS_CHECK(t[k * per + i - 1].order < t[k * per + i].order, "single worker: tasks of one poster reordered");
  at.join();
  // posting to the finished pool runs nothing
  TaskRec x;
  pool_post(pool.executor(), [&x, tok = Tok(x.alive)] { x.ran.inc(); });
  VS_CHECK(x.ran.get() == 0, "task posted after wait() ran");
}

// no task stays unserved while a worker is idle: n tasks which need each other need n workers
SCEN(all_workers_serve, 5) {
  Role me(1);
  int nw = r.range(1, 3), na = r.below(2);
  pc::static_thread_pool pool(nw);
  Attached at;
  int n = nw + na;
  at.start(pool, na);
  if (r.chance(30) && vs::sched_mode()) vs::quiesce(); // everybody sleeps already
  int rounds = r.range(1, 2);
  for (int k = 0; k < rounds; k++) {
    auto l = std::make_shared<pc::latch>(n + 1);
    std::deque<TaskRec> t(n);
    bool two = r.chance(50) && n > 1;
    std::thread other;
    auto post_some = [&](int from, int to) { for (int i = from; i < to; i++) pool_post(pool.executor(), [l, &t, i, tok = Tok(t[i].alive)] { VS_CHECK(t_role != 1, "ran in the poster"); t[i].ran.inc(); l->count_down_and_wait(); t[i].done.set(1); }); };
    if (two) other = std::thread([&] { Role ro(1); post_some(0, n / 2); });
    post_some(two ? n / 2 : 0, n);
    l->count_down_and_wait();
    if (other.joinable()) other.join();
    while (true) { long d = 0; for (auto &x : t) d += x.done.get(); if (d == n) break; std::this_thread::yield(); }
    if (vs::sched_mode()) { vs::quiesce(); for (auto &x : t) VS_CHECK(x.alive.get() == 0, "executed task object kept alive by an idle worker"); }
    for (auto &x : t) VS_CHECK(x.ran.get() == 1, "task ran %ld times", x.ran.get());
    if (!vs::sched_mode()) { while (true) { long a = 0; for (auto &x : t) a += x.alive.get(); if (!a) break; std::this_thread::yield(); } }
  }
  pool.wait();
  at.join();
}

// tasks, their destructors and captures use the pool
struct PostOnDie {
  Life l;
  std::function<void()> f;
  explicit PostOnDie(std::function<void()> g) : f(std::move(g)) {}
  PostOnDie(PostOnDie &&o) noexcept : f(std::move(o.f)) { o.f = nullptr; }
  ~PostOnDie() { if (f) f(); }
};
SCEN(tasks_use_pool, 5) {
  Role me(1);
  pc::static_thread_pool pool(r.range(1, 2));
  int n = r.range(1, 3);
  std::deque<TaskRec> t(n), child(n), grand(n);
  pc::latch l(n);
  for (int i = 0; i < n; i++) {
    PEx e = pool.executor();
    int form = r.below(3);
    auto last = [&, i] { grand[i].ran.inc(); l.count_down(); };
    auto mid = [&, i, e, last, form] {
      child[i].ran.inc();
      if (form == 0) pool_post(e, last);
      else if (form == 1) (void)pc::async(e, last).detach();
      else (void)pc::make_ready_future().next(e, last).detach();
    };
    if (r.chance(50)) pool_post(e, [&, i, e, mid] { t[i].ran.inc(); pool_post(e, mid); });
    else pool_post(e, [&, i, d = PostOnDie([e, mid] { pool_post(e, mid); })] { t[i].ran.inc(); });
  }
  l.wait();
  for (int i = 0; i < n; i++) VS_CHECK(t[i].ran.get() == 1 && child[i].ran.get() == 1 && grand[i].ran.get() == 1, "task %ld, child %ld, grandchild %ld", t[i].ran.get(), child[i].ran.get(), grand[i].ran.get());
  pool.wait();
}

// one worker: strictly one at a time and first in first out, also for tasks posted by tasks
SCEN(fifo, 4) {
  Role me(1);
  pc::static_thread_pool pool(1);
  PoolMon mon;
  int n = r.range(2, 5);
  std::deque<TaskRec> t(n), c(n);
  vs::Cnt left;
  left.set(0);
  std::vector<bool> spawn(n);
  for (int i = 0; i < n; i++) { spawn[i] = r.chance(40); left.inc(spawn[i] ? 2 : 1); }
  PEx e = pool.executor();
  pc::latch l(left.get());
  for (int i = 0; i < n; i++) {
    t[i].posted_begin = vs::tick();
    pool_post(e, [&, i] {
      mon.enter(t[i], 1);
      if (spawn[i]) { c[i].posted_begin = vs::tick(); pool_post(e, [&, i] { mon.enter(c[i], 1); mon.leave(c[i]); l.count_down(); }); c[i].posted_end = vs::tick(); }
      mon.leave(t[i]);
      l.count_down();
    });
    t[i].posted_end = vs::tick();
  }
  l.wait();
  pool.wait();
  std::vector<TaskRec *> all;
  for (auto &x : t) all.push_back(&x);
  for (int i = 0; i < n; i++) if (spawn[i]) all.push_back(&c[i]);
  for (auto *a : all) for (auto *b : all) if (a->posted_end < b->posted_begin) VS_CHECK(a->order < b->order, "single worker ran tasks out of the order they were posted in");
}

// wait() returns only when everything accepted has finished, including the task objects' destruction effects
SCEN(wait_finishes, 4) {
  Role me(1);
  int nw = r.range(1, 3);
  pc::static_thread_pool pool(nw);
  Attached at;
  if (r.chance(40)) at.start(pool, 1);
  int n = r.range(1, 5);
  std::vector<long> data(n, 0); // plain memory: the race detector checks that wait() orders it
  std::deque<TaskRec> t(n);
  for (int i = 0; i < n; i++) pool_post(pool.executor(), [&, i, tok = Tok(t[i].alive)] { vs::point(); data[i] = i + 1; vs::point(); t[i].done.set(1); });
  pool.wait();
  for (int i = 0; i < n; i++) { VS_CHECK(t[i].done.get() && data[i] == i + 1, "task %d not finished when wait() returned", i); VS_CHECK(t[i].alive.get() == 0, "task object %d alive after wait()", i); }
  pool.wait(); // harmless
  at.join();
}
// futures scheduled on the pool, several producers, everything consumed
SCEN(futures, 3) {
  Role me(1);
  pc::static_thread_pool pool(r.range(1, 3));
  int n = r.range(1, 3);
  std::vector<pc::future<long>> fs;
  for (int i = 0; i < n; i++) fs.push_back(pc::async(pool.executor(), [i] { return long(i); }).next(pool.executor(), [](long x) { return x * 2; }).then(pool.executor(), [](pc::future<long> f) { return f.get() + 1; }));
  auto all = pc::when_all(std::move(fs)).get();
  for (int i = 0; i < n; i++) VS_CHECK(all[i].get() == 2 * i + 1, "wrong value");
  pool.wait();
}
// a long backlog
SCEN(backlog, 1) {
  Role me(1);
  int nw = r.range(1, 2), n = r.chance(3) ? r.range(4000, 6000) : r.range(100, 700);
  std::deque<vs::Cnt> ran(n);
  std::vector<int> order;
  vs::Cnt alive;
  {
    pc::static_thread_pool pool(nw);
    pc::latch gate(1);
    for (int i = 0; i < nw; i++) pool_post(pool.executor(), [&] { gate.wait(); });
    for (int i = 0; i < n; i++) pool_post(pool.executor(), [&, i, nw, tok = Tok(alive)] { VS_CHECK(t_role != 1, "task ran inside a posting or waiting call"); ran[i].inc(); if (nw == 1) order.push_back(i); });
    VS_CHECK(alive.get() == n, "%ld of %d queued tasks alive", alive.get(), n);
    gate.count_down();
    pool.wait();
    for (int i = 0; i < n; i++) VS_CHECK(ran[i].get() == 1, "task %d of %d ran %ld times", i, n, ran[i].get());
    for (int i = 0; i < (int)order.size(); i++) VS_CHECK(order[i] == i, "single worker ran task %d as number %d", order[i], i);
  }
  VS_CHECK(alive.get() == 0, "task objects left");
}
// pools with more workers than processors
SCEN_F(wide, 1, vs::SCHED_ONLY) {
  Role me(1);
  int nw = r.range(4, r.chance(20) ? 36 : 14);
  pc::static_thread_pool pool(nw);
  pc::latch l(nw + 1);
  std::deque<TaskRec> t(nw);
  if (r.chance(30)) vs::quiesce();
  for (int i = 0; i < nw; i++) pool_post(pool.executor(), [&, i, tok = Tok(t[i].alive)] { t[i].ran.inc(); l.count_down_and_wait(); t[i].done.set(1); });
  l.count_down_and_wait(); // needs all workers at once
  pool.wait();
  for (auto &x : t) VS_CHECK(x.ran.get() == 1 && x.done.get() && x.alive.get() == 0, "task of a wide pool ran %ld times", x.ran.get());
}
