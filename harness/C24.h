#pragma once
#include "prod.h"
#if !defined(PC_HAS_COROUTINES)
#error "coroutine support of the library is not available"
#endif
using namespace tk;

struct Co { // what a coroutine did
  vs::Cnt frames, started, resumed, finished;
};
struct Frame { // lives in the coroutine frame
  Life l;
  Co *c;
  explicit Frame(Co &x) : c(&x) { x.frames.inc(); }
  Frame(const Frame &) = delete;
  ~Frame() { c->frames.inc(-1); }
};
static void mark_resumed(Co &c) { if (c.resumed.inc() > 1) vs::fail("coroutine resumed twice after one co_await"); }

template <class T> struct Coro { // awaits a future of T and returns its value
  static pc::future<T> pass(Co &c, pc::future<T> f) {
    Frame fr(c);
    c.started.inc();
    T v = co_await f;
    mark_resumed(c);
    VS_CHECK(!f.valid(), "awaited future is still valid");
    c.finished.inc();
    co_return std::move(v);
  }
  static pc::future<T> pass_tmp(Co &c, pc::future<T> f) {
    Frame fr(c);
    c.started.inc();
    T v = co_await std::move(f);
    mark_resumed(c);
    c.finished.inc();
    co_return v;
  }
  static pc::future<long> id_shared(Co &c, pc::shared_future<T> f) {
    Frame fr(c);
    c.started.inc();
    const T &v = co_await f;
    mark_resumed(c);
    VS_CHECK(f.valid() && f.is_ready(), "awaited shared_future became invalid");
    VS_CHECK(&v == &f.get(), "co_await on a shared_future does not yield the stored object");
    c.finished.inc();
    co_return VT<T>::id(v);
  }
  static pc::shared_future<T> to_shared(Co &c, pc::future<T> f) {
    Frame fr(c);
    c.started.inc();
    T v = co_await f;
    mark_resumed(c);
    c.finished.inc();
    co_return std::move(v);
  }
  static pc::future<T> handled(Co &c, pc::future<T> f, Out *seen) { // catches what co_await throws, rethrows
    Frame fr(c);
    c.started.inc();
    std::exception_ptr e;
    try {
      T v = co_await f;
      mark_resumed(c);
      seen->id = VT<T>::id(v);
      c.finished.inc();
      co_return std::move(v);
    } catch (...) {
      mark_resumed(c);
      *seen = classify();
      e = std::current_exception();
    }
    c.finished.inc();
    std::rethrow_exception(e);
  }
};
template <> struct Coro<void> {
  static pc::future<void> pass(Co &c, pc::future<void> f) {
    Frame fr(c);
    c.started.inc();
    co_await f;
    mark_resumed(c);
    VS_CHECK(!f.valid(), "awaited future is still valid");
    c.finished.inc();
  }
  static pc::future<void> pass_tmp(Co &c, pc::future<void> f) {
    Frame fr(c);
    c.started.inc();
    co_await std::move(f);
    mark_resumed(c);
    c.finished.inc();
    co_return;
  }
  static pc::future<long> id_shared(Co &c, pc::shared_future<void> f) {
    Frame fr(c);
    c.started.inc();
    co_await f;
    mark_resumed(c);
    VS_CHECK(f.valid() && f.is_ready(), "awaited shared_future became invalid");
    c.finished.inc();
    co_return 0;
  }
  static pc::shared_future<void> to_shared(Co &c, pc::future<void> f) {
    Frame fr(c);
    c.started.inc();
    co_await f;
    mark_resumed(c);
    c.finished.inc();
  }
  static pc::future<void> handled(Co &c, pc::future<void> f, Out *seen) {
    Frame fr(c);
    c.started.inc();
    std::exception_ptr e;
    try { co_await f; mark_resumed(c); *seen = Out(); c.finished.inc(); co_return; } catch (...) { mark_resumed(c); *seen = classify(); e = std::current_exception(); }
    c.finished.inc();
    std::rethrow_exception(e);
  }
};
template <> struct Coro<long &> {
  static pc::future<long &> pass(Co &c, pc::future<long &> f) {
    Frame fr(c);
    c.started.inc();
    long &v = co_await f;
    mark_resumed(c);
    VS_CHECK(!f.valid(), "awaited future is still valid");
    c.finished.inc();
    co_return v;
  }
  static pc::future<long &> pass_tmp(Co &c, pc::future<long &> f) { return pass(c, std::move(f)); }
  static pc::future<long> id_shared(Co &c, pc::shared_future<long &> f) {
    Frame fr(c);
    c.started.inc();
    long &v = co_await f;
    mark_resumed(c);
    VS_CHECK(&v == &f.get(), "different object");
    c.finished.inc();
    co_return VT<long &>::id(v);
  }
  static pc::shared_future<long &> to_shared(Co &c, pc::future<long &> f) {
    Frame fr(c);
    c.started.inc();
    long &v = co_await f;
    mark_resumed(c);
    c.finished.inc();
    co_return v;
  }
  static pc::future<long &> handled(Co &c, pc::future<long &> f, Out *seen) {
    Frame fr(c);
    c.started.inc();
    std::exception_ptr e;
    try { long &v = co_await f; mark_resumed(c); seen->id = VT<long &>::id(v); c.finished.inc(); co_return v; } catch (...) { mark_resumed(c); *seen = classify(); e = std::current_exception(); }
    c.finished.inc();
    std::rethrow_exception(e);
  }
};

template <class T> static void await_one(Rng &r) {
  Co c;
  Out seen;
  {
    Producer<T> p = make_producer<T>(r);
    Out o = with_ep(random_out(r, 65, 10));
    int mode = r.below(3), kind = r.below(5);
    bool drop = r.chance(15);
    if (mode == 0) p.impl->fire(o);
    std::thread t;
    if (mode == 1) t = std::thread([&] { vs::point(); p.impl->fire(o); });
    Rng cr = r.fork();
    Out got;
    bool have = true;
    if (kind == 2) {
      auto s = p.fut.share();
      if (drop) { { auto f = Coro<T>::id_shared(c, s); } have = false; s = pc::shared_future<T>(); }
      else {
        auto f = Coro<T>::id_shared(c, std::move(s));
        if (mode == 0) VS_CHECK(f.is_ready(), "coroutine awaiting a ready future did not run to its end");
        if (mode == 2) { VS_CHECK(!f.is_ready(), "coroutine went on before the awaited future was ready"); t = std::thread([&] { vs::point(); p.impl->fire(o); }); }
        got = observe<long>(cr, std::move(f));
      }
    } else if (kind == 3) {
      auto f = Coro<T>::to_shared(c, std::move(p.fut));
      if (mode == 2) { VS_CHECK(!f.is_ready(), "coroutine went on before the awaited future was ready"); t = std::thread([&] { vs::point(); p.impl->fire(o); }); }
      if (drop) { f = pc::shared_future<T>(); have = false; } else { auto f2 = f; got = get(f2); }
    } else {
      auto f = kind == 0 ? Coro<T>::pass(c, std::move(p.fut)) : kind == 1 ? Coro<T>::pass_tmp(c, std::move(p.fut)) : Coro<T>::handled(c, std::move(p.fut), &seen);
      if (mode == 0) VS_CHECK(f.is_ready(), "coroutine awaiting a ready future did not run to its end");
      if (mode == 2) { VS_CHECK(!f.is_ready(), "coroutine went on before the awaited future was ready"); t = std::thread([&] { vs::point(); p.impl->fire(o); }); }
      if (drop) { f = pc::future<T>(); have = false; } else got = observe<T>(cr, std::move(f));
    }
    if (mode == 2 && !t.joinable()) t = std::thread([&] { vs::point(); p.impl->fire(o); });
    if (t.joinable()) t.join();
    if (have) {
      // the exception object is the one stored
      expect_out(got, norm<T>(o), p.name);
      if (kind == 4) expect_out(seen, norm<T>(o), "exception seen inside the coroutine");
    }
    bool value = o.kind == V || kind == 4;
    // nothing cancels a coroutine: it runs to its end even if its result was dropped
    VS_CHECK(c.started.get() == 1 && c.resumed.get() == (value ? 1 : 0) && c.finished.get() == (value ? 1 : 0), "coroutine started %ld, resumed %ld, finished %ld times", c.started.get(), c.resumed.get(), c.finished.get());
    vs::cover(o.kind == V ? "value" : "exception");
  }
  VS_CHECK(c.frames.get() == 0, "coroutine frame leaked or destroyed twice (%ld)", c.frames.get());
}
