#pragma once
#include "prod.h"
using namespace tk;

// Random programs over the whole API. Producers are all resolved in the end, so every future has to become
// ready and every object given to the library has to be destroyed exactly once.
using Fut = pc::future<Val>;
using Sh = pc::shared_future<Val>;
using Prom = pc::promise<Val>;
using Tsk = pc::packaged_task<Val()>;
using UTsk = pc::packaged_task<Fut()>;

struct Mail { // handles passed between threads
  std::mutex m;
  std::deque<Fut> fs;
  std::deque<Sh> ss;
  std::deque<Prom> ps;
  std::deque<Tsk> ts;
  template <class Q, class X> void put(Q Mail::*q, X &x) { std::lock_guard<std::mutex> g(m); (this->*q).push_back(std::move(x)); }
  template <class Q, class X> bool take(Q Mail::*q, X &x) {
    std::lock_guard<std::mutex> g(m);
    if ((this->*q).empty()) return false;
    x = std::move((this->*q).front());
    (this->*q).pop_front();
    return true;
  }
};
struct Reenter { // captured object whose destructor uses the library
  std::unique_ptr<Prom> p;
  Life l;
  int how;
  Reenter(Prom x, int h) : p(new Prom(std::move(x))), how(h) {}
  Reenter(Reenter &&) = default;
  ~Reenter() {
    if (!p) return;
    if (how == 0) p->set_value(Val(11));
    else if (how == 1) p->set_exception(make_exc(E_CUSTOM, 11));
    else if (how == 2) (void)p->is_awaiten();
  }
};
struct Actor {
  Rng r;
  Execs &ex;
  Mail &mail;
  std::vector<Ex> es;
  std::vector<Fut> fs;
  std::vector<Sh> ss;
  std::vector<Prom> ps;
  std::vector<Tsk> ts;
  std::vector<UTsk> us;
  Actor(Rng x, Execs &e, Mail &m) : r(x), ex(e), mail(m) { for (int i = 0; i < 4; i++) es.push_back(ex.any(r)); }
  Ex any() { return es[r.below((int)es.size())]; }
  template <class X> X pick(std::vector<X> &v) {
    int i = r.below((int)v.size());
    X x = std::move(v[i]);
    v.erase(v.begin() + i);
    return x;
  }
  Out out() { return random_out(r, 70, 0); }
  Fut a_future() { // some future to work on, possibly fresh
    if (!fs.empty() && r.chance(85)) return pick(fs);
    Fut f;
    if (r.chance(30) && mail.take(&Mail::fs, f)) return f;
    make();
    return pick(fs);
  }
  Sh a_shared() {
    if (!ss.empty() && r.chance(80)) return ss[r.below((int)ss.size())];
    Sh s;
    if (r.chance(30) && mail.take(&Mail::ss, s)) return s;
    s = a_future().share();
    if (r.chance(70)) ss.push_back(s);
    return s;
  }
  void make() {
    switch (r.below(9)) {
    case 0: { auto p = pc::make_promise<Val>(); ps.push_back(std::move(p.first)); fs.push_back(std::move(p.second)); break; }
    case 1: { auto p = pc::make_promise<Val>(pc::canceler_arg, [l = Life(), v = Val(3)] { VS_CHECK(v.id() == 3, "cancel action destroyed"); }); ps.push_back(std::move(p.first)); fs.push_back(std::move(p.second)); break; }
    case 2: { auto p = pc::make_promise<Val>(std::allocator<char>()); ps.push_back(std::move(p.first)); fs.push_back(std::move(p.second)); break; }
    case 3: { Tsk t([l = Life(), o = out()] { return Put<Val>::produce(o); }); fs.push_back(t.get_future()); ts.push_back(std::move(t)); break; }
    case 4: { Out o = out(); fs.push_back(pc::async(any(), [l = Life(), o](Val v) { VS_CHECK(v.id() == 4, "argument"); return Put<Val>::produce(o); }, Val(4))); break; }
    case 5: fs.push_back(r.chance(70) ? pc::make_ready_future(Val(r.below(NREF))) : pc::make_exceptional_future<Val>(make_exc(random_exc(r), 3))); break;
    case 6: if (!fs.empty()) { auto in = pick(fs); UTsk u([l = Life(), f = std::move(in)]() mutable { return std::move(f); }); fs.push_back(u.get_future()); us.push_back(std::move(u)); } else { auto p = pc::make_promise<Val>(); ps.push_back(std::move(p.first)); fs.push_back(std::move(p.second)); } break;
    case 7: { Sh s = a_shared(); fs.push_back(s.next([l = Life()](const Val &v) { return Val(v.id()); })); break; }
    default: { Prom p; fs.push_back(p.get_future()); ps.push_back(std::move(p)); break; }
    }
  }
  void step() {
    if (fs.size() + ss.size() < 2) make();
    switch (r.below(30)) {
    case 0: case 1: make(); break;
    case 2: { bool in = r.chance(50); auto fn = [l = Life(), k = r.below(4), o = out()](Fut f) { VS_CHECK(f.is_ready(), "unready"); if (k == 0) return Put<Val>::produce(o); return f.get(); }; Fut f = a_future(); fs.push_back(in ? f.then(fn) : f.then(any(), std::move(fn))); break; }
    case 3: { bool in = r.chance(50); auto fn = [l = Life(), k = r.below(4), o = out()](Val v) { if (k == 0) return Put<Val>::produce(o); return v; }; Fut f = a_future(); fs.push_back(in ? f.next(fn) : f.next(any(), std::move(fn))); break; }
    case 4: { Fut f = a_future(); fs.push_back(f.then(any(), [l = Life(), k = r.below(4)](Prom p, Fut x) { if (k == 0) return; Out o = get(x); if (k == 1) { Prom q(std::move(p)); satisfy(std::move(q), o); } else satisfy(std::move(p), o); })); break; }
    case 5: { Sh s = a_shared(); fs.push_back(s.then(any(), [l = Life()](Sh x) { return Val(x.get().id()); })); break; }
    case 6: { Sh s = a_shared(); fs.push_back(s.then([l = Life()](Prom p, Sh x) { Out o = get(x); satisfy(std::move(p), o); })); break; }
    case 7: { Sh s = a_shared(); ss.push_back(s.then([l = Life(), s](Sh) { return s; })); break; }
    case 8: { Fut in = a_future(), f = a_future(); fs.push_back(f.then(any(), [l = Life(), in = std::move(in)](Fut) mutable { return std::move(in); })); break; }
    case 9: { Fut in = a_future(), f = a_future(); fs.push_back(f.next([l = Life(), in = std::move(in)](Val) mutable { return std::move(in); })); break; }
    case 10: { Fut in = a_future(); fs.push_back(pc::async(any(), [l = Life(), in = std::move(in)]() mutable { return std::move(in); })); break; }
    case 11: { Fut a = a_future(); Sh b = a_shared(); fs.push_back(pc::when_all(std::move(a), std::move(b)).next([l = Life()](std::tuple<Fut, Sh> t) { Out x = get(std::get<0>(t)), y = get(std::get<1>(t)); return Val((x.id + y.id) % NREF); })); break; }
    case 12: { std::vector<Fut> v; for (int i = r.range(0, 3); i > 0; i--) v.push_back(a_future()); fs.push_back(pc::when_all(std::move(v)).next(any(), [l = Life()](std::vector<Fut> x) { for (auto &f : x) (void)get(f); return Val(1); })); break; }
    case 13: { std::vector<Fut> v; for (int i = r.range(1, 3); i > 0; i--) v.push_back(a_future()); fs.push_back(pc::when_any(std::move(v)).next([l = Life()](pc::when_any_result<std::vector<Fut>> x) { return std::move(x.futures.at(x.index)); })); break; }
    case 14: { Fut a = a_future(), b = a_future(); fs.push_back(pc::when_any(std::move(a), a_shared(), std::move(b)).then([l = Life()](pc::future<pc::when_any_result<std::tuple<Fut, Sh, Fut>>> f) { auto x = f.get(); VS_CHECK(x.index < 3, "index"); return std::move(std::get<2>(x.futures)); })); break; }
    case 15: { std::vector<Sh> v; for (int i = r.range(0, 3); i > 0; i--) v.push_back(a_shared()); fs.push_back(pc::when_all(v.begin(), v.end()).next([l = Life()](std::vector<Sh>) { return Val(2); })); break; }
    case 16: { auto d = a_future().detach(); if (r.chance(40)) fs.push_back(std::move(d)); break; }
    case 17: { Sh s = a_shared(); auto d = s.detach(); if (r.chance(40)) ss.push_back(d); break; }
    case 18: { if (fs.empty()) break; fs[r.below((int)fs.size())].notify([l = Life()] {}); break; }
    case 19: { Sh s = a_shared(); s.notify(any(), [l = Life(), v = Val(5)] { VS_CHECK(v.id() == 5, "notification state destroyed"); }); break; }
    case 20: { if (fs.empty()) break; Fut &f = fs[r.below((int)fs.size())]; if (r.chance(50)) { pc::timed_waiter w(f); (void)w.wait_for(std::chrono::nanoseconds(0)); } else (void)f.wait_for(std::chrono::milliseconds(1)); break; }
    case 21: if (!fs.empty() && r.chance(60)) { Fut f = pick(fs); if (f.is_ready()) (void)get(f); } break;
    case 22: if (!ss.empty()) { Sh s = pick(ss); if (s.is_ready()) (void)get(s); } break;
    case 23: if (!ps.empty()) { Prom p = pick(ps); if (r.chance(20)) { Prom q(std::move(p)); p = std::move(q); } if (r.chance(80)) satisfy(std::move(p), random_out(r, 65, 15)); else mail.put(&Mail::ps, p); } break;
    case 24: if (!ts.empty()) { Tsk t = pick(ts); if (r.chance(70)) { t(); } else if (r.chance(50)) mail.put(&Mail::ts, t); } break;
    case 25: if (!us.empty()) { UTsk u = pick(us); if (r.chance(70) && u.valid()) u(); if (r.chance(30)) us.push_back(UTsk()); } break;
    case 26: { Prom p; if (mail.take(&Mail::ps, p)) ps.push_back(std::move(p)); Tsk t; if (mail.take(&Mail::ts, t)) ts.push_back(std::move(t)); break; }
    case 27: if (!fs.empty() && r.chance(50)) { Fut f = pick(fs); mail.put(&Mail::fs, f); } else if (!ss.empty()) { Sh s = ss[r.below((int)ss.size())]; mail.put(&Mail::ss, s); } break;
    case 28: { // captured state with a destructor that completes another promise
      auto pr = pc::make_promise<Val>();
      Fut f = a_future();
      fs.push_back(f.then(any(), [l = Life(), g = Reenter(std::move(pr.first), r.below(3))](Fut x) { return x.get(); }));
      fs.push_back(std::move(pr.second));
      break;
    }
    default: { // other value types in the middle of a chain
      Fut f = a_future();
      int k = r.below(4);
      if (k == 0) fs.push_back(f.next([l = Life()](Val) {}).next(any(), [l = Life()] { return Val(6); }));
      else if (k == 1) fs.push_back(f.next([](Val v) -> long & { return g_refs[v.id() % NREF]; }).next([](long &x) { return Val(VT<long &>::id(x)); }));
      else if (k == 2) fs.push_back(f.next(any(), [](Val v) { return MVal(v.id()); }).share().next([](const MVal &m) { return Val(m.id()); }));
      else fs.push_back(f.then([](Fut x) { return Big(get(x).id); }).then(any(), [](pc::future<Big> x) { return Val(x.get().id()); }));
    }
    }
  }
  void run(int n) { for (int i = 0; i < n; i++) step(); }
  void let_go() { // resolve what is left
    while (!ps.empty()) { Prom p = pick(ps); if (r.chance(50)) satisfy(std::move(p), out()); }
    while (!ts.empty()) { Tsk t = pick(ts); if (r.chance(50)) t(); }
    while (!us.empty()) { UTsk u = pick(us); if (r.chance(50) && u.valid()) u(); }
  }
};
static void program(Rng &r, int nthreads, int steps, bool keep_futures) {
  Execs ex;
  Mail mail;
  {
    std::deque<Actor> as;
    for (int i = 0; i < nthreads; i++) as.emplace_back(r.fork(), ex, mail);
    std::vector<std::thread> th;
    for (int i = 1; i < nthreads; i++) th.emplace_back([&as, i, steps] { as[i].run(steps); as[i].let_go(); });
    as[0].run(steps);
    as[0].let_go();
    for (auto &t : th) t.join();
    { // undelivered producers
      Prom p;
      while (mail.take(&Mail::ps, p)) satisfy(std::move(p), Out(V, 1));
      Tsk t;
      while (mail.take(&Mail::ts, t)) t();
      t = Tsk();
    }
    if (!keep_futures) { for (auto &a : as) { a.fs.clear(); a.ss.clear(); } }
    ex.finish();
    // a task taken from the mailbox late may have been posted by the loop above
    for (auto &a : as) {
      for (auto &f : a.fs) { VS_CHECK(f.is_ready(), "future not ready although every producer is resolved"); if (r.chance(50)) (void)get(f); }
      for (auto &s : a.ss) { VS_CHECK(s.is_ready(), "shared_future not ready although every producer is resolved"); (void)get(s); }
    }
    { Fut f; while (mail.take(&Mail::fs, f)) VS_CHECK(f.is_ready(), "future not ready although every producer is resolved"); }
    { Sh s; while (mail.take(&Mail::ss, s)) VS_CHECK(s.is_ready(), "shared_future not ready although every producer is resolved"); }
  }
}
