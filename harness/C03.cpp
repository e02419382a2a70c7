#define TK_MAIN
#include "prod.h"
#include "matscen.h"
using namespace tk;

struct Slot {
  vs::Cnt runs, attached, inl, may_skip;
};
struct Ctx {
  vs::Cnt set_begin;
  std::vector<Slot> slots;
  explicit Ctx(size_t n) : slots(n) {}
  void fire(size_t i) {
    if (slots[i].runs.inc() != 1) vs::fail("continuation %zu ran twice", i);
    if (!set_begin.get()) vs::fail("continuation ran before the outcome was produced");
  }
  void check_attached(size_t i, bool was_ready, bool inl) {
    Slot &s = slots[i];
    if (inl) s.inl.set(1);
    if (was_ready && inl && s.runs.get() != 1) vs::fail("in-place continuation attached to a ready future had not run when the attaching call returned");
    if (was_ready) vs::cover("attach-after-ready");
    else if (set_begin.get()) vs::cover("attach-overlapped-set");
    s.attached.set(1);
  }
};

// what is attached; the returned handles keep the results alive
template <class T> static void attach(Rng &r, Ctx &c, size_t i, pc::shared_future<T> &sf, const Out &o, Ex e, std::vector<pc::future<void>> &keep) {
  bool was_ready = sf.is_ready(), inl = false;
  bool einl = dynamic_cast<InlineEx *>(e.p) != nullptr;
  Ctx *p = &c;
  switch (r.below(12)) {
  case 0: sf.notify([p, i] { p->fire(i); }); inl = true; break;
  case 1: sf.notify(e, [p, i] { p->fire(i); }); inl = einl; break;
  case 2: keep.push_back(sf.then([p, i](pc::shared_future<T> f) { VS_CHECK(f.is_ready(), "then got an unready future"); p->fire(i); })); inl = true; break;
  case 3: keep.push_back(sf.then(e, [p, i, v = Val(3)](pc::shared_future<T> f) { VS_CHECK(f.is_ready(), "then got an unready future"); VS_CHECK(v.id() == 3, "capture damaged"); p->fire(i); })); inl = einl; break;
  case 4: (void)sf.then([p, i](pc::shared_future<T> f) { VS_CHECK(f.is_ready(), "then got an unready future"); p->fire(i); }).detach(); inl = true; break;
  case 5: keep.push_back(sf.then([p, i](pc::promise<void> q, pc::shared_future<T> f) { VS_CHECK(f.is_ready(), "then got an unready future"); p->fire(i); q.set_value(); })); inl = true; break;
  case 6: keep.push_back(sf.then(e, [p, i](pc::promise<void> q, pc::shared_future<T> f) { VS_CHECK(f.is_ready(), "then got an unready future"); p->fire(i); q.set_value(); })); inl = einl; break;
  case 7: case 8: {
    bool wexec = r.chance(50);
    if (o.kind == V) {
      auto g = [p, i](auto &&...) { p->fire(i); };
      if (wexec) keep.push_back(sf.next(e, g)); else keep.push_back(sf.next(g));
      inl = !wexec || einl;
    } else {
      auto g = [](auto &&...) { vs::fail("next ran its function for a failed future"); };
      if (wexec) (void)sf.next(e, g).detach(); else (void)sf.next(g).detach();
      c.slots[i].may_skip.set(1);
    }
    break;
  }
  case 9: { // a chain: the last link fires
    keep.push_back(sf.then([](pc::shared_future<T> f) { return f.is_ready(); }).next([p, i](bool ok) { VS_CHECK(ok, "then got an unready future"); p->fire(i); }));
    inl = true;
    break;
  }
  case 10: { // attach again from inside a continuation
    auto *again = new pc::shared_future<T>(sf);
    keep.push_back(sf.then([p, i, again](pc::shared_future<T> f) mutable {
      std::unique_ptr<pc::shared_future<T>> own(again);
      long before = p->slots[i].runs.get();
      f.notify([p, i] { p->fire(i); });
      VS_CHECK(p->slots[i].runs.get() == before + 1, "notification attached to a ready future inside a continuation did not run at once");
    }));
    inl = true;
    break;
  }
  default: keep.push_back(pc::when_all(sf, pc::make_ready_future()).then([p, i](auto) { p->fire(i); })); inl = true;
  }
  c.check_attached(i, was_ready, inl);
}

template <class T> static void attach_race(Rng &r) {
  Producer<T> p = make_producer<T>(r, r.chance(60) ? r.below(4) : -1);
  pc::shared_future<T> sf = p.fut.share();
  Execs ex;
  Out o = random_out(r);
  int nthreads = r.range(1, 3), per = r.range(1, 3);
  if (r.chance(5)) per = 9;
  int pre = r.range(0, 2);
  Ctx c(nthreads * per + pre);
  std::vector<std::vector<pc::future<void>>> keep(nthreads + 1);
  std::vector<std::thread> ts;
  for (int i = 0; i < pre; i++) attach(r, c, nthreads * per + i, sf, o, ex.any(r), keep[nthreads]);
  for (int t = 0; t < nthreads; t++) {
    std::vector<Ex> exs;
    for (int i = 0; i < per; i++) exs.push_back(ex.any(r));
    ts.emplace_back([&, t, exs, sf, q = r.fork()]() mutable { for (int i = 0; i < per; i++) attach(q, c, t * per + i, sf, o, exs[i], keep[t]); });
  }
  {
    std::vector<char> before(c.slots.size());
    for (size_t i = 0; i < c.slots.size(); i++) before[i] = c.slots[i].attached.get() && c.slots[i].inl.get() && !c.slots[i].may_skip.get();
    c.set_begin.set(1);
    p.impl->fire(o);
    for (size_t i = 0; i < c.slots.size(); i++) if (before[i] && c.slots[i].runs.get() != 1) vs::fail("in-place continuation attached before the outcome was produced had run %ld times when the producing call returned", c.slots[i].runs.get());
  }
  VS_CHECK(sf.is_ready(), "not ready after the outcome was produced");
  if (r.chance(50)) sf = pc::shared_future<T>();
  for (auto &t : ts) t.join();
  sf = pc::shared_future<T>();
  ex.finish();
  for (size_t i = 0; i < c.slots.size(); i++)
    if (!c.slots[i].may_skip.get() && c.slots[i].runs.get() != 1) vs::fail("continuation %zu ran %ld times", i, c.slots[i].runs.get());
  for (auto &k : keep) for (auto &f : k) VS_CHECK(f.is_ready(), "result of a continuation that ran is not ready");
}
SCEN(attach_race_val, 4) { attach_race<Val>(r); }
SCEN(attach_race_void, 3) { attach_race<void>(r); }
SCEN(attach_race_ref, 1) { attach_race<long &>(r); }

// many threads attaching to one future at the same moment
SCEN(crowd, 1) {
  int n = r.range(5, 9), per = r.range(1, 4);
  bool late = r.chance(50);
  auto pf = pc::make_promise<int>();
  pc::shared_future<int> sf = pf.second.share();
  Ctx c(n * per);
  if (late) c.set_begin.set(0);
  std::vector<std::thread> ts;
  for (int t = 0; t < n; t++) ts.emplace_back([&c, sf, t, per]() mutable {
    for (int i = 0; i < per; i++) { Ctx *p = &c; size_t k = t * per + i; sf.notify([p, k] { p->fire(k); }); }
  });
  if (late) for (auto &t : ts) t.join();
  c.set_begin.set(1);
  pf.first.set_value(7);
  if (!late) for (auto &t : ts) t.join();
  for (size_t i = 0; i < c.slots.size(); i++)
    if (c.slots[i].runs.get() != 1) vs::fail("notification %zu of %d ran %ld times", i, n * per, c.slots[i].runs.get());
}

// the single continuation of a unique future races with the producer
template <class T> static void unique_race(Rng &r) {
  Producer<T> p = make_producer<T>(r);
  Execs ex;
  Out o = random_out(r, 70);
  Ex e = ex.any(r);
  bool einl = dynamic_cast<InlineEx *>(e.p) != nullptr;
  int kind = r.below(9), pre = r.range(0, 2);
  Ctx c(1 + pre + 1);
  Ctx *q = &c;
  for (int i = 0; i < pre; i++) { p.fut.notify([q, i] { q->fire(1 + i); }); c.check_attached(1 + i, false, true); }
  std::thread t([&] {
    vs::point();
    bool pre_attached = c.slots[0].attached.get() && c.slots[0].inl.get();
    c.set_begin.set(1);
    p.impl->fire(o);
    if (pre_attached) { vs::cover("attached-before-set"); VS_CHECK(c.slots[0].runs.get() == 1, "in-place continuation attached before the outcome had not run when the producing call returned"); }
  });
  if (r.chance(40)) { p.fut.notify([q, pre] { q->fire(1 + pre); }); c.check_attached(1 + pre, false, true); }
  else if (r.chance(50)) { p.fut.notify(e, [q, pre] { q->fire(1 + pre); }); c.check_attached(1 + pre, false, einl); }
  else c.slots[1 + pre].may_skip.set(1);
  bool was_ready = p.fut.is_ready(), inl = false;
  pc::future<void> res;
  pc::future<T> resT;
  switch (kind) {
  case 0: res = p.fut.then([q](pc::future<T> f) { VS_CHECK(f.is_ready(), "unready"); q->fire(0); }); inl = true; break;
  case 1: res = p.fut.then(e, [q](pc::future<T> f) { VS_CHECK(f.is_ready(), "unready"); q->fire(0); }); inl = einl; break;
  case 2: (void)p.fut.then(e, [q](pc::future<T> f) { VS_CHECK(f.is_ready(), "unready"); q->fire(0); }).detach(); inl = einl; break;
  case 3: res = p.fut.then([q](pc::promise<void> w, pc::future<T> f) { VS_CHECK(f.is_ready(), "unready"); q->fire(0); w.set_value(); }); inl = true; break;
  case 4: resT = p.fut.then(e, [q](pc::future<T> f) { VS_CHECK(f.is_ready(), "unready"); q->fire(0); return f; }); inl = einl; break;
  case 5: { auto d = p.fut.detach(); res = d.then(e, [q](pc::future<T> f) { VS_CHECK(f.is_ready(), "unready"); q->fire(0); }); inl = einl; break; }
  case 6: { std::vector<pc::future<T>> v; v.push_back(std::move(p.fut)); res = pc::when_any(std::move(v)).then(e, [q](auto) { q->fire(0); }); inl = einl; break; }
  default:
    if (o.kind == V) { res = kind == 7 ? p.fut.next([q](auto &&...) { q->fire(0); }) : p.fut.next(e, [q](auto &&...) { q->fire(0); }); inl = kind == 7 || einl; }
    else { res = p.fut.next(e, [](auto &&...) { vs::fail("next ran for a failed future"); }); c.slots[0].may_skip.set(1); }
  }
  if (!c.slots[0].may_skip.get()) c.check_attached(0, was_ready, inl);
  t.join();
  ex.finish();
  for (size_t i = 0; i < c.slots.size(); i++)
    if (!c.slots[i].may_skip.get() && c.slots[i].runs.get() != 1) vs::fail("continuation %zu (kind %d) of %s ran %ld times", i, kind, p.name, c.slots[i].runs.get());
  if (res.valid()) VS_CHECK(res.is_ready(), "result of a continuation that ran is not ready");
  if (resT.valid()) VS_CHECK(resT.is_ready(), "result of a continuation that ran is not ready");
}
SCEN(unique_race_val, 3) { unique_race<Val>(r); }
SCEN(unique_race_void, 2) { unique_race<void>(r); }

// a long list of continuations
SCEN_F(many, 1, vs::SEQ) {
  auto pf = pc::make_promise<Val>();
  auto sf = pf.second.share();
  int n = r.below(400) == 0 && vs::sched_mode() ? 66000 : r.range(10, 300);
  Ctx c(n);
  Ctx *q = &c;
  std::vector<pc::future<void>> keep;
  for (int i = 0; i < n; i++) {
    if (r.chance(50)) sf.notify([q, i] { q->fire(i); });
    else keep.push_back(sf.next([q, i](const Val &) { q->fire(i); }));
  }
  c.set_begin.set(1);
  pf.first.set_value(Val(1));
  for (int i = 0; i < n; i++) VS_CHECK(c.slots[i].runs.get() == 1, "continuation %d of %d ran %ld times", i, n, c.slots[i].runs.get());
}

// over every way of attaching a function
SCEN(mat_inplace, 3) { mat::inplace_timing(r); }
SCEN(mat_attach_race, 3) { mat::attach_race(r); }
// continuations which satisfy further promises, deeply nested: each has run when the call satisfying its input returns
SCEN_F(nested_sets, 2, vs::SEQ) {
  int n = r.chance(80) ? r.range(1, 20) : r.range(21, 120);
  std::deque<vs::Cnt> ran(n);
  std::vector<pc::promise<long>> ps;
  std::vector<pc::future<long>> keep;
  std::vector<pc::future<long>> fs;
  for (int i = 0; i < n; i++) { auto p = pc::make_promise<long>(); ps.push_back(std::move(p.first)); fs.push_back(std::move(p.second)); }
  auto go = [&](int i) {
    ran[i].inc();
    if (i + 1 < n) { VS_CHECK(ran[i + 1].get() == 0, "ran early"); ps[i + 1].set_value(i + 1); VS_CHECK(ran[i + 1].get() == 1, "continuation nested %d levels deep ran %ld times when the satisfying call returned", i + 1, ran[i + 1].get()); }
  };
  for (int i = 0; i < n; i++) switch (r.below(4)) {
    case 0: keep.push_back(fs[i].next([&go, i](long x) { go(i); return x; })); break;
    case 1: keep.push_back(fs[i].then([&go, i](pc::future<long> x) { go(i); return x.get(); })); break;
    case 2: fs[i].notify([&go, i] { go(i); }); break;
    default: keep.push_back(fs[i].share().next(pc::inplace_executor, [&go, i](long x) { go(i); return x; }));
  }
  ps[0].set_value(0);
  for (int i = 0; i < n; i++) VS_CHECK(ran[i].get() == 1, "continuation %d of %d ran %ld times", i, n, ran[i].get());
  for (auto &f : keep) VS_CHECK(f.is_ready(), "result of a continuation not ready");
}

// attaching to ready futures from inside continuations attached to ready futures, to any depth
static void nest(Rng &r, int d, int n, std::deque<vs::Cnt> &ran, std::vector<pc::future<long>> &keep) {
  pc::future<long> f;
  pc::promise<long> p;
  switch (r.below(4)) {
  case 0: f = pc::make_ready_future(long(d)); break;
  case 1: f = pc::make_exceptional_future<long>(std::logic_error("x")); break;
  case 2: { pc::packaged_task<long()> t([d] { return long(d); }); f = t.get_future(); t(); break; }
  default: { auto pf = pc::make_promise<long>(); pf.first.set_value(d); f = std::move(pf.second); }
  }
  auto go = [&] {
    ran[d].inc();
    if (d + 1 < n) { nest(r, d + 1, n, ran, keep); }
    if (r.chance(20)) { pc::make_ready_future(1).wait(); VS_CHECK(pc::make_ready_future(2).get() == 2, "get inside continuations"); }
  };
  switch (r.below(5)) {
  case 0: keep.push_back(f.then([&](pc::future<long>) { go(); return 1L; })); break;
  case 1: keep.push_back(f.then(pc::inplace_executor, [&](pc::future<long>) { go(); return pc::make_ready_future(1L); })); break;
  case 2: f.notify([&go] { go(); }); break;
  case 3: { auto sf = f.share(); sf.notify(pc::inplace_executor, [&go] { go(); }); break; }
  default: keep.push_back(f.share().then([&](pc::promise<long> q, pc::shared_future<long>) { go(); q.set_value(1); }));
  }
  VS_CHECK(ran[d].get() == 1, "continuation attached to a ready future at depth %d ran %ld times when the attaching call returned", d, ran[d].get());
}
SCEN_F(nested_attach, 2, vs::SEQ) {
  int n = r.chance(80) ? r.range(1, 20) : r.range(21, 120);
  std::deque<vs::Cnt> ran(n);
  std::vector<pc::future<long>> keep;
  nest(r, 0, n, ran, keep);
  for (auto &f : keep) VS_CHECK(f.is_ready(), "result of a continuation not ready");
}
