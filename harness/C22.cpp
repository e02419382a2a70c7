#define TK_MAIN
#include "prod.h"
using namespace tk;

struct Base { long b; explicit Base(long x = 0) : b(x) {} virtual ~Base() = default; virtual long id() const { return b; } };
struct Derived : Base { long d; explicit Derived(long x = 0) : Base(x), d(x + 1) {} long id() const override { return d; } };
struct FromLong { long v; FromLong(long x) : v(x) {} };
struct Wit { // counts what happens to the function object
  vs::Cnt runs, alive;
};
template <class F> struct Tracked { // function object with an owner token
  Wit *w;
  Tok t;
  F f;
  bool *gone_check = nullptr;
  Tracked(Wit &x, F g) : w(&x), t(x.alive), f(std::move(g)) {}
  template <class... A> decltype(auto) operator()(A &&...a) {
    t.l.check("called");
    VS_CHECK(t.c, "moved from function called");
    if (w->runs.inc() > 1) vs::fail("function run twice");
    return f(std::forward<A>(a)...);
  }
};
template <class F> static Tracked<F> tracked(Wit &w, F f) { return Tracked<F>(w, std::move(f)); }

// ---------------------------------------------------------------- arguments of packaged tasks
SCEN_F(task_args, 4, vs::SEQ) {
  Wit w;
  long x = 7;
  Val v(5);
  const Val cv(6);
  switch (r.below(12)) {
  case 0: {
    pc::packaged_task<long(Val)> t(tracked(w, [](Val a) { return a.id(); }));
    auto f = t.get_future();
    if (r.chance(50)) { t(v); VS_CHECK(v.id() == 5, "lvalue argument damaged"); } else { t(std::move(v)); VS_CHECK(v.id() == -1, "rvalue argument copied"); }
    VS_CHECK(f.get() == 5, "argument by value");
    break;
  }
  case 1: {
    Val *addr = nullptr;
    pc::packaged_task<void(Val &)> t(tracked(w, [&](Val &a) { addr = &a; a = Val(8); }));
    auto f = t.get_future();
    t(v);
    f.get();
    VS_CHECK(addr == &v && v.id() == 8, "reference argument is not the same object");
    break;
  }
  case 2: {
    const Val *addr = nullptr;
    pc::packaged_task<long(const Val &)> t(tracked(w, [&](const Val &a) { addr = &a; return a.id(); }));
    auto f = t.get_future();
    t(cv);
    VS_CHECK(f.get() == 6 && addr == &cv, "const reference argument is not the same object");
    break;
  }
  case 3: {
    Val *addr = nullptr;
    pc::packaged_task<long(Val &&)> t(tracked(w, [&](Val &&a) { addr = &a; Val b(std::move(a)); return b.id(); }));
    auto f = t.get_future();
    t(std::move(v));
    VS_CHECK(f.get() == 5 && addr == &v && v.id() == -1, "rvalue reference argument");
    VS_CHECK(g_copies.get() == 0, "rvalue argument copied");
    break;
  }
  case 4: {
    pc::packaged_task<long(MVal, std::unique_ptr<long>)> t(tracked(w, [](MVal a, std::unique_ptr<long> b) { return a.id() * 100 + *b; }));
    auto f = t.get_future();
    t(MVal(3), std::unique_ptr<long>(new long(9)));
    VS_CHECK(f.get() == 309, "move-only arguments");
    break;
  }
  case 5: {
    pc::packaged_task<long &(long &, int)> t(tracked(w, [](long &a, int b) -> long & { a += b; return a; }));
    auto f = t.get_future();
    t(x, 4);
    VS_CHECK(&f.get() == &x && x == 11, "reference result is not the same object");
    break;
  }
  case 6: {
    pc::packaged_task<MVal(MVal)> t(tracked(w, [](MVal a) { return a; }));
    auto f = t.get_future();
    t(MVal(4));
    VS_CHECK(f.get().id() == 4, "move-only result");
    break;
  }
  case 7: {
    pc::packaged_task<long(int, double, std::string)> t(tracked(w, [](long a, float b, const std::string &c) { return a + (long)b + (long)c.size(); }));
    auto f = t.get_future();
    t(1, 2.0, "four");
    VS_CHECK(f.get() == 7, "converted arguments");
    break;
  }
  case 8: {
    Derived d(3);
    pc::packaged_task<long(Base &)> t(&Base::id);
    auto f = t.get_future();
    t(d);
    VS_CHECK(f.get() == 4, "member function pointer");
    break;
  }
  case 9: {
    Derived d(3);
    auto sp = std::make_shared<Derived>(7);
    pc::packaged_task<long(std::shared_ptr<Base>)> t(&Base::id);
    auto f = t.get_future();
    t(sp);
    VS_CHECK(f.get() == 8 && sp.use_count() == 1, "member function pointer on shared_ptr");
    pc::packaged_task<long &(Base &)> t2(&Base::b);
    auto f2 = t2.get_future();
    t2(d);
    VS_CHECK(&f2.get() == &d.b, "data member is not the same object");
    break;
  }
  case 10: {
    struct Q { static long twice(long a) { return a * 2; } };
    pc::packaged_task<long(long)> t(&Q::twice), t2(Q::twice);
    auto f = t.get_future();
    auto f2 = t2.get_future();
    t(4); t2(5);
    VS_CHECK(f.get() == 8 && f2.get() == 10, "function pointer");
    break;
  }
  default: {
    auto fn = tracked(w, [](long a) { return a + 1; });
    pc::packaged_task<long(long)> t(std::ref(fn));
    auto f = t.get_future();
    t(4);
    VS_CHECK(f.get() == 5 && w.runs.get() == 1, "reference wrapper");
  }
  }
  VS_CHECK(w.alive.get() == 0, "function object not destroyed");
}
// ---------------------------------------------------------------- results and conversions
template <class R, class F, class C> static void conv(Rng &r, F fn, C check) {
  Wit w;
  pc::packaged_task<R()> t(tracked(w, std::move(fn)));
  bool before = r.chance(50);
  pc::future<R> f;
  if (before) f = t.get_future();
  bool mv = r.chance(30);
  pc::packaged_task<R()> u;
  if (mv) { u = std::move(t); VS_CHECK(!t.valid() && u.valid(), "moved task"); u(); } else t();
  VS_CHECK(w.runs.get() == 1, "function did not run exactly once");
  VS_CHECK(w.alive.get() == 0, "function object alive after the task ran");
  if (!before) f = mv ? u.get_future() : t.get_future();
  VS_CHECK(f.is_ready(), "future not ready after the task ran");
  check(f);
}
static Val *g_sv;
static const Val *g_scv;
static long sl = 3;
static Derived sd(4);
SCEN_F(results, 4, vs::SEQ) {
  Val sv_(5);
  const Val scv_(6);
  g_sv = &sv_;
  g_scv = &scv_;
  switch (r.below(17)) {
  case 0: conv<Val>(r, []() -> Val & { return (*g_sv); }, [](auto &f) { VS_CHECK(f.get().id() == 5 && (*g_sv).id() == 5, "object returned by reference was moved from"); }); break;
  case 1: conv<Val>(r, []() -> const Val & { return (*g_scv); }, [](auto &f) { VS_CHECK(f.get().id() == 6 && (*g_scv).id() == 6, "const object"); }); break;
  case 2: conv<Val>(r, []() -> Val && { return std::move((*g_sv)); }, [](auto &f) { VS_CHECK(f.get().id() == 5, "value"); }); break;
  case 3: conv<long>(r, []() -> int { return 4; }, [](auto &f) { VS_CHECK(f.get() == 4, "int to long"); }); break;
  case 4: conv<std::string>(r, []() -> const char * { return "abc"; }, [](auto &f) { VS_CHECK(f.get() == "abc", "const char* to string"); }); break;
  case 5: conv<FromLong>(r, []() -> long { return 9; }, [](auto &f) { VS_CHECK(f.get().v == 9, "implicit conversion"); }); break;
  case 6: conv<Base *>(r, []() -> Derived * { return &sd; }, [](auto &f) { VS_CHECK(f.get() == &sd, "pointer conversion"); }); break;
  case 7: conv<std::unique_ptr<Base>>(r, [] { return std::unique_ptr<Derived>(new Derived(1)); }, [](auto &f) { VS_CHECK(f.get()->id() == 2, "unique_ptr conversion"); }); break;
  case 8: conv<Base &>(r, []() -> Derived & { return sd; }, [](auto &f) { VS_CHECK(&f.get() == &sd, "reference conversion"); }); break;
  case 9: conv<long &>(r, []() -> long & { return sl; }, [](auto &f) { VS_CHECK(&f.get() == &sl, "reference"); }); break;
  case 10: conv<const long &>(r, []() -> const long & { return sl; }, [](auto &f) { VS_CHECK(&f.get() == &sl, "const reference"); }); break;
  case 11: conv<void>(r, [] {}, [](auto &f) { f.get(); }); break;
  case 12: conv<MVal>(r, [] { return MVal(2); }, [](auto &f) { VS_CHECK(f.get().id() == 2, "move-only"); }); break;
  case 13: { Kind k = random_exc(r); conv<Val>(r, [k]() -> Val { throw_exc(k, 7); }, [k](auto &f) { expect_out(get(f), Out(k, 7), "thrown"); }); break; }
  case 14: { Kind k = random_exc(r); conv<void>(r, [k] { throw_exc(k, 7); }, [k](auto &f) { expect_out(get(f), Out(k, 7), "thrown"); }); break; }
  case 15: { Kind k = random_exc(r); conv<long &>(r, [k]() -> long & { throw_exc(k, 7); }, [k](auto &f) { expect_out(get(f), Out(k, 7), "thrown"); }); break; }
  default: conv<std::function<long()>>(r, [] { return [] { return 5L; }; }, [](auto &f) { VS_CHECK(f.get()() == 5, "lambda to std::function"); }); break;
  }
}
// ---------------------------------------------------------------- arguments of async
struct MoveOnlyFn {
  MVal v;
  Tok t;
  explicit MoveOnlyFn(Wit &w, long id) : v(id), t(w.alive) {}
  MoveOnlyFn(MoveOnlyFn &&) = default;
  long operator()(MVal m) && { return v.id() * 100 + m.id(); }
};
struct Both {
  Tok t;
  vs::Cnt *runs;
  long operator()() & { runs->inc(); return 1; }
  long operator()() && { runs->inc(); return 2; }
};
SCEN_F(async_args, 5, vs::SEQ) {
  Wit w;
  QueueEx q;
  bool now = r.chance(25);
  Ex ex = Ex{&q};
  InlineEx inl;
  if (now) ex = Ex{&inl};
  auto settle = [&] { VS_CHECK(now || q.size() == 1, "posted %zu tasks", q.size()); q.run_all(); };
  switch (r.below(15)) {
  case 0: { // lvalues are copied when async is called
    Val v(5);
    std::string s = "a rather long string which needs the heap";
    auto f = pc::async(ex, tracked(w, [](Val a, std::string b) { return a.id() + (long)b.size(); }), v, s);
    v = Val(9); s = "x";
    settle();
    VS_CHECK(f.get() == 46, "argument not copied when async was called");
    break;
  }
  case 1: {
    Val v(5);
    auto f = pc::async(ex, tracked(w, [](Val a) { return a.id(); }), std::move(v));
    VS_CHECK(v.id() == -1, "rvalue argument not moved");
    settle();
    VS_CHECK(f.get() == 5 && g_copies.get() == 0, "rvalue argument copied %ld times", g_copies.get());
    break;
  }
  case 2: {
    auto f = pc::async(ex, tracked(w, [](MVal a, std::unique_ptr<long> b) { return a.id() * 100 + *b; }), MVal(3), std::unique_ptr<long>(new long(8)));
    settle();
    VS_CHECK(f.get() == 308, "move-only arguments");
    break;
  }
  case 3: {
    long x = 3;
    auto f = pc::async(ex, tracked(w, [](long &a) -> long & { a++; return a; }), std::ref(x));
    settle();
    VS_CHECK(&f.get() == &x && x == 4, "std::ref argument is not the same object");
    break;
  }
  case 4: {
    char buf[8] = "abc";
    auto f = pc::async(ex, tracked(w, [](const char *p) { return std::string(p); }), "literal");
    auto g = pc::async(Ex{&inl}, [](char *p) { return p; }, buf);
    VS_CHECK(g.get() == buf, "array did not decay to a pointer to itself");
    settle();
    VS_CHECK(f.get() == "literal", "array argument");
    break;
  }
  case 5: {
    MoveOnlyFn fn(w, 4);
    auto f = pc::async(ex, std::move(fn), MVal(7));
    settle();
    VS_CHECK(f.get() == 407, "move-only callable");
    break;
  }
  case 6: {
    Derived d(3);
    auto f = pc::async(ex, &Base::id, &d);
    settle();
    VS_CHECK(f.get() == 4, "member function on pointer");
    break;
  }
  case 7: {
    Derived d(3);
    auto f = pc::async(ex, &Derived::d, std::ref(d));
    settle();
    VS_CHECK(&f.get() == &d.d, "data member on reference wrapper");
    break;
  }
  case 8: {
    auto sp = std::make_shared<Derived>(5);
    std::weak_ptr<Derived> wp = sp;
    auto f = pc::async(ex, &Derived::id, sp);
    sp.reset();
    VS_CHECK(now || !wp.expired(), "argument copy not kept");
    settle();
    VS_CHECK(f.get() == 6, "member function on shared_ptr");
    f = pc::future<long>();
    VS_CHECK(wp.expired(), "argument not released after the call");
    break;
  }
  case 9: { // functions
    struct Q { static long add(long a, long b) { return a * 10 + b; } };
    auto f = pc::async(ex, Q::add, 1, 2);
    settle();
    VS_CHECK(f.get() == 12, "function");
    break;
  }
  case 10: { // callable is copied when async is called
    long k = 1;
    auto fn = [k, t = Tok(w.alive)]() mutable { return k; };
    auto f = pc::async(ex, fn);
    settle();
    VS_CHECK(f.get() == 1, "callable lvalue");
    break;
  }
  case 11: {
    Both b{Tok(w.alive), &w.runs};
    auto f = pc::async(ex, b);
    settle();
    (void)f.get();
    VS_CHECK(w.runs.get() == 1, "callable run %ld times", w.runs.get());
    break;
  }
  case 12: {
    Kind k = random_exc(r);
    auto f = pc::async(ex, tracked(w, [k](Val) -> Val { throw_exc(k, 3); }), Val(1));
    settle();
    expect_out(get(f), Out(k, 3), "thrown by an async function");
    break;
  }
  case 13: { // argument of rvalue reference parameter
    auto f = pc::async(ex, tracked(w, [](Val &&a, const Val &b) { Val c(std::move(a)); return c.id() * 100 + b.id(); }), Val(2), Val(3));
    settle();
    VS_CHECK(f.get() == 203 && g_copies.get() == 0, "rvalue arguments");
    break;
  }
  default: { // order and number of many arguments
    auto f = pc::async(ex, tracked(w, [](int a, char b, long c, const Val &d, std::string e, Big g) { return a == 1 && b == 'b' && c == 3 && d.id() == 4 && e == "five" && g.id() == 6; }), 1, 'b', 3L, Val(4), std::string("five"), Big(6));
    settle();
    VS_CHECK(f.get(), "arguments mixed up");
    break;
  }
  }
  VS_CHECK(w.alive.get() == 0, "function object not destroyed (%ld)", w.alive.get());
  VS_CHECK(w.runs.get() <= 1, "function run %ld times", w.runs.get());
}
// an lvalue function object is copied when the call is made: the original stays intact and later changes to it
// (or its destruction) have no effect; an rvalue one is moved
struct Movable {
  Val v;
  long k;
  Tok t;
  vs::Cnt *runs;
  long operator()(long a) { t.l.check("called"); VS_CHECK(t.c, "moved from function called"); runs->inc(); return v.id() * 1000 + k * 100 + a; }
};
SCEN_F(own_copy, 3, vs::SEQ) {
  Wit w;
  QueueEx q;
  Ex ex{&q};
  int how = r.below(7);
  bool cst = r.chance(30);
  pc::future<long> f;
  pc::packaged_task<long(long)> t;
  {
    std::unique_ptr<Movable> fn(new Movable{Val(4), 2, Tok(w.alive), &w.runs});
    long arg = 7;
    Val varg(3);
    long copies = g_copies.get();
    bool moved = false;
    switch (how) {
    case 0: if (cst) { arg = 7; f = pc::async(ex, *fn, (const long &)arg); } else f = pc::async(ex, *fn, arg); break;
    case 1: f = pc::async(ex, std::move(*fn), arg); moved = true; VS_CHECK(g_copies.get() == copies, "rvalue function object copied"); break;
    case 2: t = pc::packaged_task<long(long)>(*fn); f = t.get_future(); break;
    case 3: t = pc::packaged_task<long(long)>(std::move(*fn)); f = t.get_future(); moved = true; VS_CHECK(g_copies.get() == copies, "rvalue function object copied"); break;
    case 4: { auto g = [fn = *fn](const Val &a, long b) mutable { return fn(b) + a.id() - 3; }; f = pc::async(ex, g, varg, arg); VS_CHECK(g.operator()(varg, 7) == 4207, "original function object was moved from"); w.runs.set(0); break; }
    case 5: { Movable *raw = fn.get(); f = pc::async(ex, [raw_copy = *raw](const long &x) mutable { return raw_copy(x); }, arg); break; }
    default: { const Movable c = *fn; f = pc::async(ex, [c](long x) { Movable d(c); return d(x); }, arg); VS_CHECK(c.v.id() == 4, "const function object was moved from"); }
    }
    if (!moved) { VS_CHECK(fn->t.c && fn->v.id() == 4, "lvalue function object was moved from"); }
    VS_CHECK(varg.id() == 3 && arg == 7, "lvalue argument changed");
    fn->k = 9;
    fn->v = Val(8);
    arg = 1;
    varg = Val(6);
    if (r.chance(50)) fn.reset(); // the original may die first
    if (how == 2 || how == 3) t(7); else { VS_CHECK(q.size() == 1, "posted %zu tasks", q.size()); q.run_all(); }
  }
  VS_CHECK(w.runs.get() == 1, "function ran %ld times", w.runs.get());
  VS_CHECK(f.is_ready(), "future not ready after the task ran");
  long got = f.get();
  VS_CHECK(got == 4207, "the function or its arguments are not those given to the call: %ld", got);
  VS_CHECK(w.alive.get() == 0, "function object not destroyed");
}
// ---------------------------------------------------------------- at most once, under threads
template <class T> static void once(Rng &r) {
  Wit w;
  Out o = random_out(r, 70, 0);
  pc::packaged_task<T()> t(tracked(w, [o]() -> T { vs::point(); return Put<T>::produce(o); }));
  auto f = t.get_future();
  int mode = r.below(5);
  int calls = r.range(1, 3);
  bool done = false;
  std::thread runner([&, t = std::move(t)]() mutable {
    vs::point();
    for (int i = 0; i < calls; i++) {
      try {
        t();
        if (i && mode <= 1) vs::fail("second call of an awaited task did not fail");
      } catch (const std::future_error &e) {
        VS_CHECK(i > 0, "first call failed");
        VS_CHECK(e.code() == std::future_errc::promise_already_satisfied, "wrong error");
      }
      if (mode != 2 && mode != 3) VS_CHECK(w.alive.get() == 0, "function object alive although the task ran");
      if (r.chance(30)) { pc::packaged_task<T()> u(std::move(t)); t = std::move(u); }
    }
    done = true;
  });
  auto keep = f.valid();
  (void)keep;
  pc::shared_future<T> s;
  if (mode == 0) { s = f.share(); expect_out(get(s), norm<T>(o), "result"); VS_CHECK(w.runs.get() == 1, "ran %ld times", w.runs.get()); }
  else if (mode == 1) { f.wait(); runner.join(); expect_out(get(f), norm<T>(o), "result"); VS_CHECK(w.runs.get() == 1, "ran %ld times", w.runs.get()); }
  else if (mode == 2) { f = pc::future<T>(); }
  else if (mode == 3) { auto g = f.then([](pc::future<T>) {}); vs::point(); g = pc::future<void>(); }
  else { expect_out(get(f), norm<T>(o), "result"); }
  if (runner.joinable()) runner.join();
  VS_CHECK(w.runs.get() <= 1, "function run twice");
  VS_CHECK(w.alive.get() == 0, "function object leaked");
}
SCEN(once_val, 4) { once<Val>(r); }
SCEN(once_void, 2) { once<void>(r); }
SCEN(once_ref, 2) { once<long &>(r); }

// async from several threads on real executors: each call runs once with its own arguments
SCEN(async_threads, 4) {
  Execs ex;
  int n = r.range(1, 4);
  std::deque<Wit> ws(n);
  std::vector<Ex> es;
  std::vector<int> kinds;
  for (int i = 0; i < n; i++) { es.push_back(ex.any(r, false)); kinds.push_back(r.below(4)); }
  std::vector<std::thread> ts;
  std::vector<pc::future<long>> fs(n);
  for (int i = 0; i < n; i++)
    ts.emplace_back([&, i] {
      MVal m(i);
      Val v(i + 10);
      fs[i] = pc::async(es[i], tracked(ws[i], [](MVal a, Val b, long c) { vs::point(); return a.id() * 10000 + b.id() * 100 + c; }), std::move(m), v, (long)i);
      v = Val(0);
      if (kinds[i] == 0) { VS_CHECK(fs[i].get() == i * 10000 + (i + 10) * 100 + i, "wrong arguments"); }
      if (kinds[i] == 1) fs[i] = pc::future<long>();
    });
  for (auto &t : ts) t.join();
  ex.finish();
  for (int i = 0; i < n; i++) {
    if (kinds[i] >= 2) VS_CHECK(fs[i].get() == i * 10000 + (i + 10) * 100 + i, "wrong arguments or result");
    VS_CHECK(ws[i].runs.get() <= 1 && (kinds[i] == 1 || ws[i].runs.get() == 1), "function run %ld times", ws[i].runs.get());
    VS_CHECK(ws[i].alive.get() == 0, "function object alive after it ran");
  }
}
// the task is shared between a runner and an owner which retrieves, replaces or drops
SCEN_F(histories, 4, vs::SEQ) {
  Wit w[2];
  for (int round = 0; round < 2; round++) {
    Wit &x = w[round];
    pc::packaged_task<Val(Val)> t, u;
    t = pc::packaged_task<Val(Val)>(tracked(x, [](Val v) { return v; }));
    bool retrieved = false, ran = false, moved = false, dropped = false;
    pc::future<Val> f;
    int n = r.range(2, 8);
    for (int i = 0; i < n; i++) {
      auto &cur = moved ? u : t;
      auto &oth = moved ? t : u;
      switch (r.below(7)) {
      case 0: if (!retrieved) { f = cur.get_future(); retrieved = true; VS_CHECK(f.valid() && f.is_ready() == ran, "future of a task"); } break;
      case 1: case 2: {
        long before = x.runs.get();
        try { cur(Val(5)); VS_CHECK(!ran || dropped, "second call did not fail"); if (!dropped) { VS_CHECK(x.runs.get() == before + 1, "function not run"); ran = true; } else VS_CHECK(x.runs.get() == before, "cancelled function run"); }
        catch (const std::future_error &e) { VS_CHECK(ran && e.code() == std::future_errc::promise_already_satisfied, "unexpected failure: %s", e.what()); VS_CHECK(x.runs.get() == before, "function run twice"); }
        VS_CHECK(x.alive.get() == 0, "function object alive after it ran or was cancelled");
        break;
      }
      case 3: oth = std::move(cur); moved = !moved; VS_CHECK(!cur.valid() && oth.valid(), "moved task"); break;
      case 4: cur.swap(oth); moved = !moved; break;
      case 5: if (retrieved && r.chance(30)) { f = pc::future<Val>(); dropped = true; VS_CHECK(x.alive.get() == 0, "function object alive although nobody awaits it"); } break;
      default: VS_CHECK(x.alive.get() >= (ran || dropped ? 0 : 1), "function object destroyed early"); break;
      }
      if (f.valid()) VS_CHECK(f.is_ready() == ran, "ready %d, ran %d", (int)f.is_ready(), (int)ran);
    }
    t = pc::packaged_task<Val(Val)>();
    u = pc::packaged_task<Val(Val)>();
    if (f.valid()) { Out o = get(f); VS_CHECK(ran ? (o.kind == V && o.id == 5) : o.kind == BROKEN, "outcome %s", o.str()); }
    VS_CHECK(x.alive.get() == 0, "function object leaked");
    VS_CHECK(x.runs.get() == (ran ? 1 : 0), "function run %ld times", x.runs.get());
  }
}
