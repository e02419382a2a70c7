#define TK_MAIN
#include "C19.h"
#include "matscen.h"
SCEN(solo, 3) { program(r, 1, r.range(4, 30), r.chance(50)); }
SCEN(duo, 5) { program(r, 2, r.range(3, 14), r.chance(50)); }
SCEN(trio, 4) { program(r, 3, r.range(2, 10), r.chance(50)); }
SCEN(drop_all, 2) { program(r, 2, r.range(3, 12), false); }

// threads blocked in get / wait / timed waits while the producers are being resolved by others
SCEN(waiting, 5) {
  Execs ex;
  Mail mail;
  std::deque<Actor> as;
  int na = r.range(1, 2);
  for (int i = 0; i < na; i++) { as.emplace_back(r.fork(), ex, mail); as[i].run(r.range(1, 6)); }
  if (as[0].fs.empty()) as[0].make();
  std::vector<std::thread> th;
  for (int i = r.range(1, 3); i > 0; i--) {
    Rng rr = r.fork();
    Actor &a = as[r.below(na)];
    if (!a.fs.empty() && rr.chance(60)) {
      Fut f = a.pick(a.fs);
      th.emplace_back([f = std::move(f), rr]() mutable {
        int k = rr.below(4);
        if (k == 0) f.wait();
        if (k == 1) { f.wait(); f.wait(); }
        if (k == 2) while (f.wait_for(std::chrono::seconds(rr.range(1, 100))) != pc::future_status::ready) std::this_thread::yield();
        (void)get(f);
      });
    } else {
      Sh s = a.a_shared();
      for (int n = rr.range(1, 2); n > 0; n--) th.emplace_back([s, rr]() mutable {
        if (rr.chance(30)) s.wait();
        if (rr.chance(20)) { pc::timed_waiter w(s); (void)w.wait_for(std::chrono::milliseconds(rr.range(0, 5))); }
        (void)get(s);
        if (rr.chance(30)) (void)get(s);
      });
    }
  }
  std::thread other;
  if (na > 1) other = std::thread([&as] { as[1].let_go(); });
  as[0].let_go();
  for (;;) { // producers hidden in functions and mail boxes are resolved by the executors and here
    Prom p;
    Tsk t;
    if (mail.take(&Mail::ps, p)) { satisfy(std::move(p), Out(V, 1)); continue; }
    if (mail.take(&Mail::ts, t)) { t(); continue; }
    break;
  }
  if (na > 1) other.join();
  ex.finish();
  for (auto &t : th) t.join();
}
// a pool with queued work destroyed, stopped or waited for; futures of its tasks outlive it or not
SCEN(pooled, 2) {
  std::vector<Fut> keep;
  std::vector<std::thread> th;
  {
    pc::static_thread_pool pool(r.range(0, 2));
    bool att = r.chance(25);
    auto latch = std::make_unique<pc::latch>(1);
    if (att) th.emplace_back([&pool, l = latch.get()] { l->count_down(); pool.attach(); });
    for (int i = r.range(0, 4); i > 0; i--) {
      switch (r.below(4)) {
      case 0: post(pool.executor(), [l = Life(), v = Val(9)] { VS_CHECK(v.id() == 9, "task state destroyed"); }); break;
      case 1: keep.push_back(pc::async(pool.executor(), [l = Life()](Val v) { return v; }, Val(2))); break;
      case 2: keep.push_back(pc::async(pool.executor(), [l = Life()] { return Val(1); }).next(pool.executor(), [l = Life()](Val v) { return v; })); break;
      default: { auto p = pc::make_promise<Val>(); keep.push_back(p.second.next(pool.executor(), [l = Life()](Val v) { return v; })); post(pool.executor(), [p = std::move(p.first)]() mutable { p.set_value(Val(3)); }); }
      }
      if (r.chance(20)) keep.clear();
    }
    if (r.chance(30)) pool.stop();
    if (att) { latch->wait(); if (!r.chance(50)) latch.reset(); pool.wait(); for (auto &t : th) t.join(); }
    else if (r.chance(30)) pool.wait();
  }
  for (auto &f : keep) { VS_CHECK(f.is_ready(), "future of a pool task not ready although the pool is gone"); (void)get(f); }
}
// a latch deleted by whoever is first to see it open
SCEN(latched, 2) {
  int n = r.range(1, 3);
  auto *l = new pc::latch(n);
  std::vector<std::thread> th;
  for (int i = 0; i < n; i++) { bool w = r.chance(40); th.emplace_back([l, w] { if (w) l->count_down_and_wait(); else l->count_down(); }); }
  l->wait();
  delete l;
  for (auto &t : th) t.join();
}
// wrappers moved around in containers and across threads
struct BigFn { Life l; Val v; long pad[12]; BigFn(int i) : v(i) {} int operator()(int x) const { return v.id() + x; } };
struct SmallFn { Life l; int i; SmallFn(int x) : i(x) {} int operator()(int x) const { return i + x; } };
SCEN(functions, 1) {
  using F = pc::unique_function<int(int)>;
  std::vector<std::pair<int, F>> v;
  for (int i = r.range(1, 12); i > 0; i--) {
    int id = r.below(NREF);
    switch (r.below(6)) {
    case 0: v.emplace_back(id, BigFn(id)); break;
    case 1: v.emplace_back(id, SmallFn(id)); break;
    case 2: if (v.size() > 1) { int a = r.below((int)v.size()), b = r.below((int)v.size()); std::swap(v[a], v[b]); } break;
    case 3: if (!v.empty()) { int a = r.below((int)v.size()); v[a] = std::make_pair(id, r.chance(50) ? F(BigFn(id)) : F(SmallFn(id))); } break;
    case 4: if (!v.empty()) v.erase(v.begin() + r.below((int)v.size())); break;
    default: if (!v.empty()) { int a = r.below((int)v.size()); auto x = std::move(v[a]); VS_CHECK(x.second(1) == x.first + 1, "wrong callable called"); v[a] = std::move(x); }
    }
  }
  std::thread t([v = std::move(v)] { for (auto &x : v) VS_CHECK(x.second(2) == x.first + 2, "wrong callable called"); });
  t.join();
}

// over every way of attaching a function
SCEN(mat_tree, 3) { mat::tree(r, true, 5); }
SCEN(mat_drop, 2) { mat::drop_tail(r, true); }
