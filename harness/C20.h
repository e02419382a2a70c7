#pragma once
#include "prod.h"
using namespace tk;

template <class T> struct Addr {
  static const void *of(const pc::shared_future<T> &f) {
    static_assert(std::is_same<decltype(f.get()), const T &>::value, "shared_future::get must return a const reference");
    static_assert(std::is_same<decltype(pc::future_get(f)), const T &>::value, "future_get must return a const reference");
    VS_CHECK(&f.get() == &pc::future_get(f), "future_get refers to a different object");
    return &f.get();
  }
};
template <class T> struct Addr<T &> {
  static const void *of(const pc::shared_future<T &> &f) { VS_CHECK(&f.get() == &pc::future_get(f), "future_get refers to a different object"); return &f.get(); }
};
template <> struct Addr<void> {
  static const void *of(const pc::shared_future<void> &f) { f.get(); return nullptr; }
};
template <class T> struct SharedNext {
  // takes the value by const reference
  static pc::future<Out> cref(const pc::shared_future<T> &f, const void **a) {
    return f.next([a](auto &&v) {
      VS_CHECK(std::is_lvalue_reference<decltype(v)>::value, "shared value not passed by lvalue reference");
      VS_CHECK(std::is_reference<T>::value || std::is_const<std::remove_reference_t<decltype(v)>>::value, "shared value not passed as const");
      *a = &v;
      Out o;
      o.id = VT<T>::id(v);
      return o;
    });
  }
};
template <> struct SharedNext<void> {
  static pc::future<Out> cref(const pc::shared_future<void> &f, const void **) { return f.next([] { return Out(); }); }
};
template <class T, bool = std::is_copy_constructible<T>::value && !std::is_reference<T>::value> struct ByValue {
  static pc::future<Out> next(const pc::shared_future<T> &f) {
    return f.next([](T v) { T w(std::move(v)); Out o; o.id = VT<T>::id(w); return o; });
  }
  static pc::future<Out> then(const pc::shared_future<T> &f) {
    return f.then([](pc::shared_future<T> x) { T w(x.get()); return w; }).then([](pc::future<T> x) { return get(x); });
  }
};
template <class T> struct ByValue<T, false> {
  static pc::future<Out> next(const pc::shared_future<T> &f) { const void *a; static thread_local const void *sink; (void)a; return SharedNext<T>::cref(f, &sink); }
  static pc::future<Out> then(const pc::shared_future<T> &f) { return f.then([](pc::shared_future<T> x) { return get(x); }); }
};
template <> struct ByValue<void, false> {
  static pc::future<Out> next(const pc::shared_future<void> &f) { return f.next([] { return Out(); }); }
  static pc::future<Out> then(const pc::shared_future<void> &f) { return f.then([](pc::shared_future<void> x) { return get(x); }); }
};

template <class T> struct Seen {
  Out want;
  std::mutex m;
  const void *addr = nullptr;
  std::exception_ptr ep;
  void address(const void *a) {
    if (want.kind != V) vs::fail("a value was delivered although the outcome is %s", want.str());
    std::lock_guard<std::mutex> g(m);
    if (!a) return;
    if (!addr) addr = a;
    if (addr != a) vs::fail("copies of a shared_future refer to different objects");
  }
  void outcome(Out o, const char *what) {
    expect_out(o, norm<T>(want), what);
    if (o.kind == V) return;
    std::lock_guard<std::mutex> g(m);
    if (!ep) ep = o.ep;
    if (ep != o.ep) vs::fail("%s: copies of a shared_future rethrow different exception objects", what);
  }
};
template <class T> static void read(Seen<T> &s, const pc::shared_future<T> &f, const char *what) {
  Out o = get(f);
  s.outcome(o, what);
  VS_CHECK(f.valid(), "get() invalidated a shared_future");
  VS_CHECK(f.is_ready(), "not ready after get()");
  if (o.kind == V) s.address(Addr<T>::of(f));
}
enum { NUSE = 16 };
// one consumer working through its own copy
template <class T> static void use(Rng &r, Seen<T> &s, pc::shared_future<T> c, pc::latch *hold) {
  int n = r.range(1, 4);
  for (int i = 0; i < n; i++) {
    int k = r.below(NUSE);
    switch (k) {
    case 0: read(s, c, "get"); break;
    case 1: c.wait(); VS_CHECK(c.is_ready(), "not ready after wait"); break;
    case 2: { auto d = c; read(s, d, "get through a copy"); d = pc::shared_future<T>(); break; }
    case 3: { auto d = c; auto e = std::move(d); c = std::move(e); break; }
    case 4: {
      const void *a = nullptr;
      auto g = SharedNext<T>::cref(c, &a);
      VS_CHECK(c.valid(), "next() invalidated a shared_future");
      s.outcome(get_out(std::move(g)), "next");
      if (a) s.address(a);
      break;
    }
    case 5: {
      auto g = c.then([&s](pc::shared_future<T> x) { VS_CHECK(x.is_ready(), "unready"); read(s, x, "get in then"); return 1; });
      VS_CHECK(c.valid(), "then() invalidated a shared_future");
      VS_CHECK(g.get() == 1, "then result");
      break;
    }
    case 6: {
      pc::future<Out> g = c.then([&s](pc::promise<Out> p, pc::shared_future<T> x) { read(s, x, "get in interruptible then"); p.set_value(get(x)); });
      VS_CHECK(c.valid(), "then() invalidated a shared_future");
      s.outcome(get_out(std::move(g)), "interruptible then");
      break;
    }
    case 7: s.outcome(get_out(ByValue<T>::next(c)), "next by value"); break;
    case 8: s.outcome(get_out(ByValue<T>::then(c)), "then copying"); break;
    case 9: {
      auto d = std::make_shared<pc::shared_future<T>>(c);
      c.notify([&s, d] { read(s, *d, "get in notification"); });
      VS_CHECK(c.valid(), "notify() invalidated a shared_future");
      if (r.chance(50)) d.reset(); else c.wait();
      break;
    }
    case 10: { // unwrapped
      auto g = pc::async(pc::inplace_executor, [c] { return c; });
      s.outcome(get(g), "unwrapped copy");
      break;
    }
    case 11: {
      auto t = pc::when_all(c, pc::make_ready_future()).get();
      VS_CHECK(c.valid(), "when_all invalidated a shared_future");
      read(s, std::get<0>(t), "get after when_all");
      break;
    }
    case 12: {
      std::vector<pc::shared_future<T>> v(2, c);
      auto t = pc::when_any(v.begin(), v.end()).get();
      VS_CHECK(c.valid() && v[0].valid() && v[1].valid(), "when_any invalidated a shared_future");
      read(s, t.futures[t.index], "get after when_any");
      break;
    }
    case 13: { (void)c.wait_for(std::chrono::milliseconds(1)); pc::timed_waiter w(c); (void)w.wait_for(std::chrono::milliseconds(0)); VS_CHECK(c.valid(), "timed wait invalidated a shared_future"); break; }
    case 14: { auto d = c; auto e = d.detach(); read(s, e, "get after detach"); break; }
    default: { auto g = c.then([](pc::shared_future<T>) {}); vs::point(); g = pc::future<void>(); VS_CHECK(c.valid(), "dropping a continuation invalidated a shared_future"); break; }
    }
  }
  read(s, c, "last get");
  if (s.want.kind == V && !std::is_void<T>::value && hold) {
    const void *a = Addr<T>::of(c);
    hold->count_down_and_wait(); // everybody has read; other copies are being dropped now
    vs::point();
    read(s, c, "get after other copies were dropped");
    s.address(a);
  }
}
template <class T> static void copies(Rng &r) {
  Seen<T> s;
  s.want = with_ep(random_out(r, 65, 10));
  {
    Producer<T> p = make_producer<T>(r);
    auto root = p.fut.share();
    VS_CHECK(!p.fut.valid() && root.valid(), "share()");
    int n = r.range(1, 4);
    bool keep = r.chance(50);
    pc::latch done(n);
    std::vector<std::thread> ts;
    std::vector<Rng> rs;
    for (int i = 0; i < n; i++) rs.push_back(r.fork());
    std::vector<pc::shared_future<T>> cs;
    for (int i = 0; i < n; i++) cs.push_back(root);
    int when = r.below(3);
    if (when == 0) p.impl->fire(s.want);
    for (int i = 0; i < n; i++)
      ts.emplace_back([&, i, c = std::move(cs[i])]() mutable { vs::point(); use<T>(rs[i], s, std::move(c), &done); });
    if (when == 1) ts.emplace_back([&] { vs::point(); p.impl->fire(s.want); });
    if (!keep) root = pc::shared_future<T>();
    if (when == 2) { vs::point(); p.impl->fire(s.want); }
    for (auto &t : ts) t.join();
    if (keep) { p.impl.reset(); read(s, root, "get from the last copy after the producer is gone"); }
  }
}
