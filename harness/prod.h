// Random producers and consumers of futures.
#pragma once
#include "tk.h"
namespace tk {

inline Out with_ep(Out o) { // fix the identity of the exception object
  if (o.kind != V && o.kind != BROKEN) o.ep = make_exc(o.kind, o.id);
  return o;
}

struct FireImpl {
  virtual void fire(const Out &o) = 0; // produce the outcome; the producer is gone afterwards
  virtual ~FireImpl() = default;
};
template <class T> struct Producer {
  std::unique_ptr<FireImpl> impl;
  pc::future<T> fut;
  const char *name;
  vs::Cnt *runs; // how often the user function of the producer ran (null: no function)
};

struct Fn { // tracked user function state
  Life l;
  std::shared_ptr<Out> slot;
  vs::Cnt *runs;
};

template <class T> struct PromFire : FireImpl {
  pc::promise<T> p;
  explicit PromFire(pc::promise<T> q) : p(std::move(q)) {}
  void fire(const Out &o) override { satisfy(std::move(p), o); }
};
template <class T> struct TaskFire : FireImpl {
  pc::packaged_task<T()> t;
  std::shared_ptr<Out> slot = std::make_shared<Out>();
  vs::Cnt runs;
  TaskFire() {
    t = pc::packaged_task<T()>([fn = Fn{{}, slot, &runs}]() -> T {
      fn.runs->inc();
      return Put<T>::produce(*fn.slot);
    });
  }
  void fire(const Out &o) override {
    if (o.kind == BROKEN) { pc::packaged_task<T()> gone(std::move(t)); return; }
    *slot = o;
    t();
  }
};
template <class T> struct UnwrapTaskFire : FireImpl {
  pc::packaged_task<pc::future<T>()> t;
  std::pair<pc::promise<T>, pc::future<T>> in = pc::make_promise<T>();
  vs::Cnt runs;
  int order;
  explicit UnwrapTaskFire(int ord) : order(ord) {
    t = pc::packaged_task<pc::future<T>()>([this, l = Life()]() { runs.inc(); return std::move(in.second); });
  }
  void fire(const Out &o) override {
    if (order == 0) { t(); satisfy(std::move(in.first), o); }
    else if (order == 1) { satisfy(std::move(in.first), o); t(); }
    else if (o.kind == BROKEN) { pc::packaged_task<pc::future<T>()> gone(std::move(t)); }
    else { t(); { pc::packaged_task<pc::future<T>()> gone(std::move(t)); } satisfy(std::move(in.first), o); }
  }
};
template <class T> struct QueueFire : FireImpl { // async / then / next through a queue executor
  QueueEx q;
  std::shared_ptr<Out> slot = std::make_shared<Out>();
  vs::Cnt runs;
  std::unique_ptr<pc::promise<void>> start;
  bool drop_before = false;
  void fire(const Out &o) override {
    *slot = o;
    if (start) { pc::promise<void> p(std::move(*start)); start.reset(); p.set_value(); }
    if (o.kind == BROKEN) q.drop_all();
    else q.run_all();
  }
};
template <class T> struct StartFire : FireImpl { // in-place continuation of a void promise
  pc::promise<void> start;
  std::shared_ptr<Out> slot = std::make_shared<Out>();
  vs::Cnt runs;
  pc::promise<T> inner;
  pc::future<T> inner_f;
  bool inner_first = false, use_inner = false;
  void fire(const Out &o) override {
    *slot = o;
    if (use_inner && inner_first) { satisfy(std::move(inner), o); start.set_value(); }
    else if (use_inner) { start.set_value(); satisfy(std::move(inner), o); }
    else start.set_value();
  }
};
template <class T> struct PassNext {
  static pc::future<T> of(pc::future<T> f) { return f.next([l = Life()](auto &&v) -> T { return std::forward<decltype(v)>(v); }); }
};
template <> struct PassNext<void> {
  static pc::future<void> of(pc::future<void> f) { return f.next([l = Life()] {}); }
};

enum { NPROD = 13 };
template <class T> Producer<T> make_producer(Rng &r, int kind = -1) {
  if (kind < 0) kind = r.below(NPROD);
  switch (kind) {
  case 0: {
    auto p = pc::make_promise<T>();
    return {std::unique_ptr<FireImpl>(new PromFire<T>(std::move(p.first))), std::move(p.second), "make_promise", nullptr};
  }
  case 1: {
    pc::promise<T> p;
    auto f = p.get_future();
    return {std::unique_ptr<FireImpl>(new PromFire<T>(std::move(p))), std::move(f), "promise", nullptr};
  }
  case 2: {
    auto p = pc::make_promise<T>(pc::canceler_arg, [l = Life()] {});
    return {std::unique_ptr<FireImpl>(new PromFire<T>(std::move(p.first))), std::move(p.second), "cancelable promise", nullptr};
  }
  case 3: {
    auto p = pc::make_promise<T>(std::allocator<char>{});
    return {std::unique_ptr<FireImpl>(new PromFire<T>(std::move(p.first))), std::move(p.second), "allocated promise", nullptr};
  }
  case 4: {
    auto *t = new TaskFire<T>;
    std::unique_ptr<FireImpl> u(t);
    auto f = t->t.get_future();
    return {std::move(u), std::move(f), "packaged_task", &t->runs};
  }
  case 5: {
    auto *t = new UnwrapTaskFire<T>(r.below(3));
    std::unique_ptr<FireImpl> u(t);
    auto f = t->t.get_future();
    return {std::move(u), std::move(f), "unwrapped packaged_task", nullptr};
  }
  case 6: {
    auto *q = new QueueFire<T>;
    std::unique_ptr<FireImpl> u(q);
    auto f = pc::async(Ex{&q->q}, [fn = Fn{{}, q->slot, &q->runs}]() -> T { fn.runs->inc(); return Put<T>::produce(*fn.slot); });
    return {std::move(u), std::move(f), "async", &q->runs};
  }
  case 7: case 8: {
    auto *q = new QueueFire<T>;
    std::unique_ptr<FireImpl> u(q);
    auto p = pc::make_promise<void>();
    pc::future<T> f;
    Fn fn{{}, q->slot, &q->runs};
    if (kind == 7) f = p.second.then(Ex{&q->q}, [fn](pc::future<void> x) -> T { fn.runs->inc(); if (!x.is_ready()) vs::fail("unready parent"); return Put<T>::produce(*fn.slot); });
    else f = p.second.next(Ex{&q->q}, [fn]() -> T { fn.runs->inc(); return Put<T>::produce(*fn.slot); });
    q->start.reset(new pc::promise<void>(std::move(p.first)));
    return {std::move(u), std::move(f), kind == 7 ? "then on queue" : "next on queue", &q->runs};
  }
  case 9: {
    auto *s = new StartFire<T>;
    std::unique_ptr<FireImpl> u(s);
    auto p = pc::make_promise<void>();
    Fn fn{{}, s->slot, &s->runs};
    pc::future<T> f = p.second.then([fn](pc::promise<T> q, pc::future<void>) { fn.runs->inc(); satisfy(std::move(q), *fn.slot); });
    s->start = std::move(p.first);
    return {std::move(u), std::move(f), "interruptible then", nullptr};
  }
  case 10: {
    auto *s = new StartFire<T>;
    std::unique_ptr<FireImpl> u(s);
    auto p = pc::make_promise<void>();
    auto in = pc::make_promise<T>();
    s->inner = std::move(in.first);
    s->inner_f = std::move(in.second);
    s->use_inner = true;
    s->inner_first = r.chance(50);
    pc::future<T> f = p.second.then([s, l = Life()](pc::future<void>) { s->runs.inc(); return std::move(s->inner_f); });
    s->start = std::move(p.first);
    return {std::move(u), std::move(f), "unwrapped then", nullptr};
  }
  case 11: {
    auto *s = new StartFire<T>;
    std::unique_ptr<FireImpl> u(s);
    auto p = pc::make_promise<void>();
    auto in = pc::make_promise<T>();
    s->inner = std::move(in.first);
    s->inner_f = std::move(in.second);
    s->use_inner = true;
    s->inner_first = r.chance(50);
    pc::future<T> f = p.second.next([s, l = Life()]() { s->runs.inc(); return std::move(s->inner_f); });
    s->start = std::move(p.first);
    return {std::move(u), std::move(f), "unwrapped next", nullptr};
  }
  default: {
    auto p = pc::make_promise<T>();
    auto f = PassNext<T>::of(std::move(p.second));
    return {std::unique_ptr<FireImpl>(new PromFire<T>(std::move(p.first))), std::move(f), "next of promise", nullptr};
  }
  }
}

// ---------------------------------------------------------------- consumers
template <class T> struct NextOut {
  static pc::future<Out> of(pc::future<T> f) { return f.next([](auto &&v) { Out o; o.id = VT<T>::id(v); return o; }); }
  static pc::future<Out> of(const pc::shared_future<T> &f) { return f.next([](auto &&v) { Out o; o.id = VT<T>::id(v); return o; }); }
};
template <> struct NextOut<void> {
  static pc::future<Out> of(pc::future<void> f) { return f.next([] { return Out(); }); }
  static pc::future<Out> of(const pc::shared_future<void> &f) { return f.next([] { return Out(); }); }
};
inline Out get_out(pc::future<Out> f) {
  try { return f.get(); } catch (...) { return classify(); }
}
// through the algorithm adapters future_get and future_ready
template <class T> struct Adapted {
  template <class F> static Out from(F &f) {
    Out o;
    try { decltype(auto) v = pc::future_get(f); o.id = VT<T>::id(v); } catch (...) { o = classify(); }
    return o;
  }
};
template <> struct Adapted<void> {
  template <class F> static Out from(F &f) {
    Out o;
    try { pc::future_get(f); } catch (...) { o = classify(); }
    return o;
  }
};
enum { NCONS = 17 };
// blocks until the outcome is observed
template <class T> Out observe(Rng &r, pc::future<T> f, int kind = -1) {
  if (kind < 0) kind = r.below(NCONS);
  switch (kind) {
  case 0: return get(f);
  case 1: f.wait(); VS_CHECK(f.is_ready(), "not ready after wait"); return get(f);
  case 2: while (!f.is_ready()) std::this_thread::yield(); return get(f);
  case 3: {
    pc::timed_waiter w(f);
    while (w.wait_for(std::chrono::milliseconds(1)) != pc::future_status::ready) {}
    VS_CHECK(f.is_ready(), "timed_waiter reported ready for an unready future");
    return get(f);
  }
  case 4: while (f.wait_for(std::chrono::milliseconds(2)) != pc::future_status::ready) {} return get(f);
  case 5: { auto s = f.share(); return get(s); }
  case 6: return get_out(f.then([](pc::future<T> x) { VS_CHECK(x.is_ready(), "then got an unready future"); return get(x); }));
  case 7: return get_out(NextOut<T>::of(std::move(f)));
  case 8: {
    pc::latch l(1);
    f.notify([&l] { l.count_down(); });
    l.wait();
    VS_CHECK(f.is_ready(), "notified but not ready");
    return get(f);
  }
  case 9: {
    auto t = pc::when_all(std::move(f)).get();
    VS_CHECK(std::get<0>(t).is_ready(), "when_all returned an unready input");
    return get(std::get<0>(t));
  }
  case 10: {
    std::vector<pc::future<T>> v;
    v.push_back(std::move(f));
    auto t = pc::when_any(std::move(v)).get();
    VS_CHECK(t.index == 0 && t.futures.at(0).is_ready(), "when_any returned an unready input");
    return get(t.futures[0]);
  }
  case 11: return get(f.then([](pc::future<T> x) { return x; }));
  case 12: {
    pc::future<Out> g = f.then([](pc::promise<Out> p, pc::future<T> x) { VS_CHECK(x.is_ready(), "then got an unready future"); p.set_value(get(x)); });
    return get_out(std::move(g));
  }
  case 13: { auto s = f.share(); auto c = s; Out a = get_out(NextOut<T>::of(s)); Out b = get(c); VS_CHECK(a.same(b), "shared copies disagree"); return b; }
  case 14: { auto d = f.detach(); return get(d); }
  case 15: {
    while (!pc::future_ready(f)) std::this_thread::yield();
    VS_CHECK(f.is_ready(), "future_ready reported ready for an unready future");
    Out o = Adapted<T>::from(f);
    VS_CHECK(!f.valid(), "future_get left a unique future valid");
    return o;
  }
  default: {
    const pc::shared_future<T> s = f.share();
    while (!pc::future_ready(s)) std::this_thread::yield();
    Out o = Adapted<T>::from(s), b = get(s);
    VS_CHECK(o.same(b) && s.valid(), "future_get disturbed a shared future");
    return o;
  }
  }
}
} // namespace tk
