// Scenarios over the attach matrix, shared by several checks.
#pragma once
#include "mat.h"
#include <algorithm>
namespace mat {
struct Node {
  AFp f;
  Out exp;
};
inline Out typed(int t, Out o) { o.id = norm_id(t, o); return o; }
inline Node root(Rng &r, Src &s, const Out &o, bool ready) {
  int t = r.below(NT);
  Node n;
  n.exp = typed(t, o);
  s = source(r, t, ready ? &o : nullptr);
  n.f = std::move(s.f);
  return n;
}
// grow a link; a shared parent stays
inline Node grow(World &w, Rng &r, Node &n, const Ex *ex, bool allow_late = true, Probe **out = nullptr, int pct_value = 70) {
  Probe &p = w.link(r, n.exp, pct_value, allow_late);
  p.exec = ex ? ex->p : nullptr;
  Node res;
  res.f = n.f->attach(p, ex);
  res.exp = p.out;
  if (out) *out = &p;
  return res;
}
inline void maybe_share(Rng &r, Node &n, int pct) { if (!n.f->shared && r.chance(pct)) n.f = n.f->share(); }
inline Probe &note(World &w, Rng &r, Node &n, const Ex *ex) {
  w.ps.emplace_back();
  Probe &p = w.ps.back();
  p.op = THEN;
  n.f->notify(p, ex);
  return p;
}
inline void runs_ok(World &w) {
  for (auto &p : w.ps) if (p.runs.get() != (p.want_run ? 1 : 0)) vs::fail("%s: function ran %ld times, expected %d (parent %s)", p.str(), p.runs.get(), (int)p.want_run, p.in.str());
}
inline void released(World &w) {
  for (auto &p : w.ps) if (p.alive.get() != 0) vs::fail("%s: function still alive after its result was produced", p.str());
}

// a tree of links with its sequential evaluation
inline void tree(Rng &r, bool threads, int maxlinks) {
  World w;
  Src s;
  std::vector<Node> open;
  Out o = random_result(r, 75, 8);
  int when = r.below(threads ? 4 : 3); // 0 ready, 1 in the middle, 2 at the end, 3 other thread
  open.push_back(root(r, s, o, when == 0));
  maybe_share(r, open[0], 40);
  std::thread ft, lt;
  vs::Cnt done;
  if (when == 3) ft = std::thread([&] { vs::point(); s.fire->fire(o); });
  if (threads) lt = std::thread([&] { while (!done.get()) if (!w.late.resolve()) std::this_thread::yield(); });
  int n = r.range(1, maxlinks);
  for (int i = 0; i < n; i++) {
    int k = r.below((int)open.size());
    if (!open[k].f->valid()) continue;
    Ex e = threads ? w.ex.any(r) : Ex{r.chance(50) ? (ExecImpl *)&w.ex.queue : &w.ex.inl};
    if (r.chance(15)) note(w, r, open[k], r.chance(50) ? &e : nullptr);
    bool sh = open[k].f->shared;
    Node c = grow(w, r, open[k], r.chance(50) ? &e : nullptr);
    maybe_share(r, c, 25);
    if (sh) open.push_back(std::move(c)); else open[k] = std::move(c);
    if (when == 1 && i == n / 2) s.fire->fire(o);
    if (!threads && r.chance(30)) w.late.resolve();
  }
  if (when == 2 || (when == 1 && n / 2 >= n)) s.fire->fire(o);
  if (ft.joinable()) ft.join();
  if (threads && r.chance(50)) { // results collected while the executors are still working
    bool qdone = false;
    std::thread qt([&] { while (!done.get()) { if (!w.ex.queue.run_one()) std::this_thread::yield(); } });
    for (auto &x : open) { if (r.chance(40)) x.f->wait(); Out g = x.f->get(); expect_out(g, x.exp, "result of a chain"); }
    done.set(1);
    qt.join();
    (void)qdone;
  }
  done.set(1);
  if (lt.joinable()) lt.join();
  w.settle();
  for (auto &x : open) if (x.f->valid()) { VS_CHECK(x.f->ready(), "result not ready although all inputs are"); Out g = x.f->get(); expect_out(g, x.exp, "result of a chain"); }
  runs_ok(w);
  open.clear();
  w.ex.finish();
  released(w);
}

// in-place functions have run when the call that made their input ready returns
inline void inplace_timing(Rng &r) {
  World w;
  Src s;
  Out o = random_result(r, 75, 8);
  bool ready = r.chance(40);
  Node cur = root(r, s, o, ready);
  std::vector<Node> keep;
  int n = r.range(1, 4);
  bool fired = ready;
  int at = r.range(0, n);
  for (int i = 0; i < n; i++) {
    if (!fired && i == at) { s.fire->fire(o); fired = true; runs_ok(w); }
    Ex e{&w.ex.inl};
    maybe_share(r, cur, 30);
    if (r.chance(30)) { Probe &p = note(w, r, cur, r.chance(50) ? &e : nullptr); VS_CHECK(p.runs.get() == fired, fired ? "notification of a ready future did not run inside notify" : "notification ran before the future was ready"); }
    Probe *p;
    Node c = grow(w, r, cur, r.chance(30) ? &e : nullptr, false, &p);
    if (fired) VS_CHECK(p->runs.get() == p->want_run, "%s: function attached to a ready future has run %ld times when the call returns", p->str(), p->runs.get());
    else VS_CHECK(p->runs.get() == 0, "%s: function ran before its input was ready", p->str());
    if (cur.f->shared) keep.push_back(std::move(cur));
    cur = std::move(c);
  }
  if (!fired) s.fire->fire(o);
  runs_ok(w);
  VS_CHECK(cur.f->ready(), "chain of in-place functions not ready when the satisfying call returns");
  expect_out(cur.f->get(), cur.exp, "result of a chain");
}
// threads attaching to copies of one shared future while it becomes ready
inline void attach_race(Rng &r) {
  World w;
  Src s;
  Out o = random_result(r, 75, 8);
  Node top = root(r, s, o, false);
  top.f = top.f->share();
  int n = r.range(1, 3);
  struct Job { AFp src; std::vector<Probe *> ps; AFp res; std::vector<Probe *> notes; };
  std::deque<Job> jobs(n);
  for (auto &j : jobs) {
    j.src = top.f->dup();
    int len = r.range(1, 2);
    Out in = top.exp;
    for (int i = 0; i < len; i++) { Probe &p = w.link(r, in, 70, false); in = p.out; j.ps.push_back(&p); }
    for (int i = r.range(0, 2); i > 0; i--) { w.ps.emplace_back(); w.ps.back().op = THEN; j.notes.push_back(&w.ps.back()); }
  }
  std::vector<std::thread> th;
  for (int i = 0; i < n; i++) th.emplace_back([&w, j = &jobs[i]] {
    Ex e{&w.ex.inl};
    for (size_t k = 0; k < j->notes.size(); k++) j->src->notify(*j->notes[k], k % 2 ? &e : nullptr);
    AFp f = j->src->dup();
    for (auto *p : j->ps) f = f->attach(*p, p->rt % 2 ? &e : nullptr);
    j->res = std::move(f);
  });
  if (r.chance(50)) top.f.reset();
  s.fire->fire(o);
  for (auto &t : th) t.join();
  for (auto &j : jobs) { VS_CHECK(j.res->ready(), "result not ready"); expect_out(j.res->get(), j.ps.back()->out, "result of a racing attachment"); }
  runs_ok(w);
}

// executors: posted once, to the right one, when the input is ready; run only there
inline void by_executor(Rng &r, bool drops) {
  World w;
  Src s;
  std::deque<QueueEx> qs;
  Out o = random_result(r, 80, 8);
  bool ready = r.chance(30);
  Node cur = root(r, s, o, ready);
  struct Step { Probe *p; QueueEx *q; AFp shared_parent; bool drop; };
  std::vector<Step> steps;
  auto only_gated = [](Probe *p) { if (!p->gate.get()) vs::fail("%s: function ran outside of its executor", p->str()); };
  int n = r.range(1, 4);
  for (int i = 0; i < n; i++) {
    maybe_share(r, cur, 30);
    bool ue = r.chance(75);
    Probe &p = w.link(r, cur.exp);
    Step st{&p, nullptr, nullptr, false};
    Ex e{nullptr};
    if (ue) { qs.emplace_back(); st.q = &qs.back(); e.p = st.q; p.on_run = only_gated; p.exec = st.q; }
    if (ue && drops && p.want_run && r.chance(50)) { st.drop = true; p.want_run = false; p.out = Out(BROKEN, 0); }
    Node c;
    c.f = cur.f->attach(p, ue ? &e : nullptr);
    c.exp = p.out;
    if (cur.f->shared) st.shared_parent = std::move(cur.f);
    steps.push_back(std::move(st));
    cur = std::move(c);
  }
  if (!ready) {
    for (auto &st : steps) { VS_CHECK(st.p->runs.get() == 0, "%s: function ran before its input was ready", st.p->str()); if (st.q) VS_CHECK(st.q->posted.get() == 0, "%s: posted before its input was ready", st.p->str()); }
    s.fire->fire(o);
  }
  for (size_t i = 0; i < steps.size(); i++) {
    auto &st = steps[i];
    if (st.q) {
      long posted = st.q->posted.get();
      VS_CHECK(posted <= 1 && (posted == 1 || (!st.p->want_run && !st.drop)), "%s: posted %ld times", st.p->str(), posted);
      VS_CHECK(st.p->runs.get() == 0, "%s: ran although its executor did not run it", st.p->str());
      if (st.drop) { st.q->drop_all(); VS_CHECK(st.p->alive.get() == 0, "%s: function of a task dropped by its executor is still alive", st.p->str()); }
      else { st.p->gate.set(1); st.q->run_all(); st.p->gate.set(0); }
    }
    VS_CHECK(st.p->runs.get() == st.p->want_run, "%s: function ran %ld times, expected %d", st.p->str(), st.p->runs.get(), (int)st.p->want_run);
    bool pending = st.p->want_run && st.p->how == 1 && (st.p->op == INTR || st.p->rk) && !(st.p->pass && st.p->in.kind != V);
    for (size_t k = i + 1; pending && k < steps.size(); k++) { VS_CHECK(steps[k].p->runs.get() == 0, "%s: ran before its input was ready", steps[k].p->str()); if (steps[k].q) VS_CHECK(steps[k].q->posted.get() == 0, "%s: posted before its input was ready", steps[k].p->str()); }
    if (pending) w.late.resolve(); // one link at a time is pending in a chain
  }
  VS_CHECK(cur.f->ready(), "chain not ready although every executor ran its tasks");
  expect_out(cur.f->get(), cur.exp, "result of a chain over executors");
  for (auto &st : steps) if (st.q) VS_CHECK(st.q->posted.get() <= 1 && st.q->size() == 0, "%s: posted again", st.p->str());
  runs_ok(w);
}

// dropping the end of a chain that has not started
inline void drop_tail(Rng &r, bool threads) {
  World w;
  Src s;
  Out o = random_result(r, 80, 8);
  Node cur = root(r, s, o, false);
  Node other; // another branch which has to survive
  std::deque<QueueEx> qs;
  size_t first_own = 0;
  int n = r.range(0, 4);
  int fork = r.chance(30) ? r.below(n + 1) : -1;
  for (int i = 0; i <= n; i++) {
    maybe_share(r, cur, 30);
    if (fork == i) {
      if (!cur.f->shared) cur.f = cur.f->share();
      first_own = w.ps.size();
      Node c;
      c.f = cur.f->dup();
      c.exp = cur.exp;
      other = std::move(c);
    }
    Ex e{&w.ex.inl};
    if (r.chance(25)) note(w, r, cur, r.chance(50) ? &e : nullptr);
    if (r.chance(15)) VS_CHECK(cur.f->wait_for_ms(0, r.chance(50)) == 1, "pending future reported ready");
    if (i == n) break;
    bool ue = r.chance(50);
    if (ue && r.chance(50)) { qs.emplace_back(); e.p = &qs.back(); }
    Node c = grow(w, r, cur, ue ? &e : nullptr);
    cur = std::move(c); // a shared parent is only kept by the link
  }
  // probes attached to the shared node itself stay as long as the other branch keeps it
  size_t kept = w.ps.size();
  if (other.f) { kept = first_own; }
  std::vector<Probe *> gone, rest;
  for (size_t i = 0; i < w.ps.size(); i++) (other.f && i < kept ? rest : gone).push_back(&w.ps[i]);
  if (other.f) // notifications made on the forked node itself belong to the survivor
    for (size_t i = first_own; i < w.ps.size(); i++) if (w.ps[i].late == nullptr) { gone.erase(std::remove(gone.begin(), gone.end(), &w.ps[i]), gone.end()); }
  cur.f.reset();
  for (auto *p : gone) VS_CHECK(p->alive.get() == 0 || (other.f && p->late == nullptr), "%s: function alive after the last future depending on it was dropped", p->late ? p->str() : "notification");
  std::thread t;
  auto fire = [&] { try { s.fire->fire(o); } catch (...) { vs::fail("producing a result nobody awaits threw an exception"); } };
  if (threads) t = std::thread(fire); else fire();
  if (t.joinable()) t.join();
  for (int i = 0; i < 6; i++) { for (auto &q : qs) q.run_all(); w.late.resolve(); }
  for (auto *p : gone) VS_CHECK(p->runs.get() == 0, "%s: function of a dropped future was run", p->late ? p->str() : "notification");
  if (!other.f) { if (s.runs) VS_CHECK(s.runs->get() == 0, "function of the producer ran although nobody awaits its result"); }
  else {
    w.settle();
    VS_CHECK(other.f->ready(), "surviving branch not ready");
    expect_out(other.f->get(), other.exp, "surviving branch");
    for (auto *p : rest) VS_CHECK(p->runs.get() == p->want_run, "%s: function another live future depends on ran %ld times", p->str(), p->runs.get());
  }
}
// concurrent drop and production: a function either completes or never runs, and everything is released
inline void drop_race(Rng &r) {
  World w;
  Src s;
  Out o = random_result(r, 85, 5);
  Node cur = root(r, s, o, false);
  int n = r.range(1, 3);
  for (int i = 0; i < n; i++) { maybe_share(r, cur, 30); Ex e = w.ex.any(r); if (r.chance(30)) note(w, r, cur, r.chance(50) ? &e : nullptr); cur = grow(w, r, cur, r.chance(50) ? &e : nullptr); }
  std::thread d([f = std::move(cur.f)]() mutable { vs::point(); f.reset(); });
  try { s.fire->fire(o); } catch (...) { vs::fail("satisfying while the future is dropped threw an exception"); }
  d.join();
  w.settle();
  w.ex.finish();
  for (auto &p : w.ps) {
    VS_CHECK(p.runs.get() <= 1, "%s: function ran %ld times", p.str(), p.runs.get());
    VS_CHECK(p.alive.get() == 0, "%s: function alive after everything was dropped", p.str());
  }
}

// detached chains are completed
inline void detached(Rng &r, bool threads) {
  World w;
  Src s;
  Out o = random_result(r, 80, 8);
  int when = r.below(threads ? 3 : 2); // 0 ready, 1 later, 2 concurrently
  Node cur = root(r, s, o, when == 0);
  std::thread ft, lt;
  vs::Cnt done;
  if (when == 2) ft = std::thread([&] { s.fire->fire(o); });
  int n = r.range(0, 3);
  std::vector<Node> keep;
  for (int i = 0; i < n; i++) {
    maybe_share(r, cur, 35);
    Ex e = threads ? w.ex.any(r) : Ex{r.chance(50) ? (ExecImpl *)&w.ex.queue : &w.ex.inl};
    Node c = grow(w, r, cur, r.chance(50) ? &e : nullptr);
    if (cur.f->shared && r.chance(40)) keep.push_back(std::move(cur));
    cur = std::move(c);
  }
  maybe_share(r, cur, 35);
  AFp copy;
  if (cur.f->shared && r.chance(40)) copy = cur.f->dup();
  int copies = r.range(1, 2);
  Node d;
  d.exp = cur.exp;
  d.f = cur.f->detach();
  VS_CHECK(!cur.f->valid(), "detach left its future valid");
  VS_CHECK(d.f->valid(), "detach returned an invalid future");
  for (int i = 1; i < copies; i++) { AFp x = d.f->detach(); d.f = std::move(x); }
  size_t must = w.ps.size();
  Probe *after = nullptr;
  if (r.chance(40)) { // attached after the detach: cancelable
    Ex e{&w.ex.queue};
    Node c = grow(w, r, d, &e, true, &after);
    if (!d.f->shared) d.f.reset();
  }
  if (d.f && r.chance(70)) d.f.reset();
  copy.reset();
  keep.clear();
  if (when == 1) s.fire->fire(o);
  if (ft.joinable()) ft.join();
  w.settle();
  for (size_t i = 0; i < must; i++) { Probe &p = w.ps[i]; VS_CHECK(p.runs.get() == p.want_run, "%s: function behind a detached future ran %ld times, expected %d", p.str(), p.runs.get(), (int)p.want_run); }
  if (after) VS_CHECK(after->runs.get() == 0, "continuation attached to a detached future and dropped was run");
  if (d.f) { VS_CHECK(d.f->ready(), "detached future not ready"); expect_out(d.f->get(), d.exp, "detached future"); d.f.reset(); }
  w.ex.finish();
  for (auto &p : w.ps) VS_CHECK(p.alive.get() == 0, "%s: function kept alive by a detach although the outcome was produced", p.str());
}

// copies of a shared future: the value stays put whatever is attached
inline void shared_value(Rng &r, bool threads) {
  World w;
  Src s;
  Out o = random_result(r, 85, 5);
  bool ready = r.chance(40);
  Node top = root(r, s, o, ready);
  top.f = top.f->share();
  int n = threads ? r.range(1, 3) : 1;
  struct Job { AFp f; std::vector<Probe *> ps; std::vector<AFp> res; const void *addr = nullptr; bool keep; int first; };
  std::deque<Job> jobs(n);
  for (auto &j : jobs) {
    j.f = top.f->dup();
    for (int i = r.range(1, 4); i > 0; i--) j.ps.push_back(&w.link(r, top.exp));
    j.keep = r.chance(50);
    j.first = r.below(3);
  }
  auto work = [&w, &top](Job &j) {
    Ex e{&w.ex.inl};
    if (j.first == 0) expect_out(j.f->get(), top.exp, "copy of a shared_future");
    for (auto *p : j.ps) { j.res.push_back(j.f->attach(*p, p->no % 2 ? &e : nullptr)); if (j.first == 1) { j.f->wait(); expect_out(j.f->get(), top.exp, "copy of a shared_future after attaching"); } }
    expect_out(j.f->get(), top.exp, "copy of a shared_future");
    if (top.exp.kind == V) j.addr = j.f->addr();
    if (!j.keep) j.f.reset();
  };
  if (!threads && !ready) { Rng q = r.fork(); std::thread t([&] { vs::point(); s.fire->fire(o); }); work(jobs[0]); t.join(); }
  else {
    std::vector<std::thread> th;
    for (int i = 1; i < n; i++) th.emplace_back([&, i] { work(jobs[i]); });
    std::thread t;
    if (!ready) t = std::thread([&] { vs::point(); s.fire->fire(o); });
    work(jobs[0]);
    for (auto &x : th) x.join();
    if (t.joinable()) t.join();
  }
  w.settle();
  for (auto &j : jobs) {
    for (size_t i = 0; i < j.ps.size(); i++) { VS_CHECK(j.res[i]->ready(), "result not ready"); expect_out(j.res[i]->get(), j.ps[i]->out, "continuation of a shared_future"); }
    if (top.exp.kind == V) { VS_CHECK(j.addr == jobs[0].addr, "copies of a shared_future refer to different objects"); VS_CHECK(top.f->addr() == j.addr, "the shared value moved"); }
  }
  expect_out(top.f->get(), top.exp, "shared value after all continuations ran");
  runs_ok(w);
}

// functions returning futures
inline void unwrapped(Rng &r, bool threads) {
  World w;
  Src s;
  Out o = random_result(r, 85, 5);
  int when = r.below(threads ? 3 : 2);
  Node cur = root(r, s, o, when == 0);
  std::thread ft, lt;
  vs::Cnt done;
  int n = r.range(1, 3);
  std::vector<Probe *> ps;
  bool fired = when == 0;
  if (when == 2) ft = std::thread([&] { s.fire->fire(o); });
  if (threads) lt = std::thread([&] { while (!done.get()) if (!w.late.resolve()) std::this_thread::yield(); });
  std::vector<Node> keep;
  for (int i = 0; i < n; i++) {
    maybe_share(r, cur, 30);
    Probe &p = w.link(r, cur.exp);
    if (p.op == INTR) { p.op = r.chance(50) ? NEXT : THEN; p.want_run = p.op != NEXT || p.in.kind == V; p.pass = false; p.out = p.want_run ? p.what : p.in; p.out.id = norm_id(p.rt, p.out); }
    if (p.rk == 0) { p.rk = 1 + r.below(2); p.how = r.below(2); }
    Ex e = threads ? w.ex.any(r, false) : Ex{&w.ex.inl};
    Node c;
    c.f = cur.f->attach(p, r.chance(50) ? &e : nullptr);
    c.exp = p.out;
    ps.push_back(&p);
    if (cur.f->shared && r.chance(50)) keep.push_back(std::move(cur));
    cur = std::move(c);
  }
  if (when == 1) { s.fire->fire(o); fired = true; }
  if (!threads) {
    for (auto *p : ps) {
      bool pending = p->want_run && p->how == 1 && !(p->pass && p->in.kind != V);
      if (pending) {
        VS_CHECK(!cur.f->ready(), "outer future ready although the inner one is pending");
        VS_CHECK(cur.f->wait_for_ms(0, true) == 1, "outer future reported ready although the inner one is pending");
        w.late.resolve();
      }
    }
    VS_CHECK(cur.f->ready(), "outer future not ready although the inner one is");
  }
  Out g;
  if (r.chance(60)) { if (!cur.f->shared && r.chance(40)) cur.f = cur.f->share(); cur.f->wait(); g = cur.f->get(); expect_out(g, cur.exp, "unwrapped future"); if (cur.f->shared) expect_out(cur.f->get(), cur.exp, "unwrapped future read again"); }
  else { cur.f->wait(); Node c = grow(w, r, cur, nullptr, false); VS_CHECK(c.f->ready(), "continuation of a ready unwrapped future did not run"); expect_out(c.f->get(), c.exp, "continuation of an unwrapped future"); }
  done.set(1);
  if (ft.joinable()) ft.join();
  if (lt.joinable()) lt.join();
  w.settle();
  runs_ok(w);
  w.ex.finish();
  (void)fired;
}
} // namespace mat
