// One parent type of the matrix: instantiated once per value type (mat0..mat3.cpp).
#pragma once
#include "mat.h"
namespace mat {
template <class T> struct Idx;
template <> struct Idx<void> { enum { v = T_VOID }; };
template <> struct Idx<Val> { enum { v = T_VAL }; };
template <> struct Idx<MVal> { enum { v = T_MOVE }; };
template <> struct Idx<long &> { enum { v = T_REF }; };

template <class R> struct Later : Act {
  pc::promise<R> p;
  Out o;
  Later(pc::promise<R> q, const Out &x) : p(std::move(q)), o(x) {}
  void go() override { satisfy(std::move(p), o); }
};
struct NoMember {
  NoMember(std::nullptr_t) {}
};
template <bool MO> struct FnBase {
  Probe *p;
  Tok t;
  bool poisoned = false;
  std::conditional_t<MO, std::unique_ptr<long>, NoMember> only_move;
  explicit FnBase(Probe &q) : p(&q), t(q.alive), only_move(nullptr) {}
  FnBase(const FnBase &) = default;
  FnBase(FnBase &&) noexcept = default;
  void enter() {
    t.l.check("called");
    if (poisoned) vs::fail("%s: the caller's function object was called, not a copy made when attaching", p->str());
    if (!t.c) vs::fail("%s: a moved-from function object was called", p->str());
    if (p->runs.inc() > 1) vs::fail("%s: function ran twice", p->str());
    if (!p->want_run) vs::fail("%s: function ran although its parent holds %s", p->str(), p->in.str());
    if (p->on_run) p->on_run(p);
  }
};
template <class R, int RK> struct Ret { using type = R; };
template <class R> struct Ret<R, 1> { using type = pc::future<R>; };
template <class R> struct Ret<R, 2> { using type = pc::shared_future<R>; };
template <class R, int RK> struct Make {
  static typename Ret<R, RK>::type of(Probe *p) {
    if (p->how == 2) return {};
    if (p->how == 3) raise(p->what);
    auto pf = pc::make_promise<R>();
    if (p->how == 1) p->late->add(std::unique_ptr<Act>(new Later<R>(std::move(pf.first), p->what)));
    else satisfy(std::move(pf.first), p->what);
    return std::move(pf.second);
  }
};
template <class R> struct Make<R, 0> {
  static R of(Probe *p) { return Put<R>::produce(p->what); }
};
inline void arg_id(Probe *p, long id) {
  if (p->in.kind != V || id != p->in.id) vs::fail("%s: function received %ld, parent holds %s(%ld)", p->str(), id, p->in.str(), p->in.id);
}
template <class T, class R, int RK, class Arg, bool MO> struct NextFn : FnBase<MO> {
  using FnBase<MO>::FnBase;
  typename Ret<R, RK>::type operator()(Arg a) {
    this->enter();
    arg_id(this->p, VT<T>::id(a));
    return Make<R, RK>::of(this->p);
  }
};
template <class R, int RK, class Arg, bool MO> struct NextFn<void, R, RK, Arg, MO> : FnBase<MO> {
  using FnBase<MO>::FnBase;
  typename Ret<R, RK>::type operator()() {
    this->enter();
    if (this->p->in.kind != V) vs::fail("next ran although the parent failed");
    return Make<R, RK>::of(this->p);
  }
};
template <class P> Out check_parent(Probe *p, P &f) {
  VS_CHECK(f.valid() && f.is_ready(), "%s: function received an unready or invalid parent", p->str());
  Out o = get(f);
  expect_out(o, p->in, "parent passed to the function");
  return o;
}
template <class P, class R, int RK, class Arg, bool MO> struct ThenFn : FnBase<MO> {
  using FnBase<MO>::FnBase;
  typename Ret<R, RK>::type operator()(Arg a) {
    this->enter();
    Out o = check_parent(this->p, a);
    if (this->p->pass && o.kind != V) raise(o);
    return Make<R, RK>::of(this->p);
  }
};
template <class P, class R, bool MO> struct IntrFn : FnBase<MO> {
  using FnBase<MO>::FnBase;
  void operator()(pc::promise<R> pr, P a) {
    this->enter();
    (void)check_parent(this->p, a);
    if (this->p->how == 1) this->p->late->add(std::unique_ptr<Act>(new Later<R>(std::move(pr), this->p->what)));
    else satisfy(std::move(pr), this->p->what);
  }
};
template <bool MO> struct NoteFn { // one pointer wide: notifications have to fit in a small buffer
  struct Body { Probe *p; Tok t; explicit Body(Probe &q) : p(&q), t(q.alive) {} };
  std::unique_ptr<Body> b;
  explicit NoteFn(Probe &q) : b(new Body(q)) {}
  void operator()() {
    VS_CHECK(b, "a moved-from notification was called");
    b->t.l.check("called");
    Probe *p = b->p;
    if (p->runs.inc() > 1) vs::fail("notification ran twice");
    if (p->on_run) p->on_run(p);
  }
};
template <class T> struct ByVal { using type = T; };
template <class T, bool Shared, bool REF> struct NextArg { using type = std::conditional_t<REF, std::conditional_t<Shared, const T &, T &&>, T>; };
template <bool Shared, bool REF> struct NextArg<MVal, Shared, REF> { using type = std::conditional_t<Shared, const MVal &, std::conditional_t<REF, const MVal &, MVal>>; };
template <bool Shared, bool REF> struct NextArg<long &, Shared, REF> { using type = long &; };
template <bool Shared, bool REF> struct NextArg<void, Shared, REF> { using type = void; };

// call with an lvalue callable (copied: the original is left alone and may change) or with a move-only rvalue
template <bool LVALUE, class Fn, class Call> AFp pass(Probe &p, Call call) {
  Fn fn(p);
  if constexpr (LVALUE) {
    auto res = call(fn);
    VS_CHECK(fn.t.c == &p.alive, "%s: the function object given as an lvalue was moved from", p.str());
    fn.poisoned = true;
    return wrap(std::move(res));
  } else return wrap(call(std::move(fn)));
}
template <class T, class P, class R, int OP, int RK> AFp att(P &f, Probe &p, const Ex *ex) {
  constexpr bool SH = std::is_same<P, pc::shared_future<T>>::value;
  constexpr int h = int(Idx<T>::v) + int(Idx<R>::v) + OP + RK + SH; // spreads the styles over the matrix
  constexpr bool REF = (int(Idx<R>::v) / 2 + RK + OP) % 2;
  if constexpr (OP == NEXT) {
    using Arg = typename NextArg<T, SH, REF>::type;
    if (ex) return pass<h % 2 == 0, NextFn<T, R, RK, Arg, h % 2 != 0>>(p, [&](auto &&fn) { return f.next(*ex, std::forward<decltype(fn)>(fn)); });
    return pass<h % 2 != 0, NextFn<T, R, RK, Arg, h % 2 == 0>>(p, [&](auto &&fn) { return f.next(std::forward<decltype(fn)>(fn)); });
  } else if constexpr (OP == THEN) {
    using Arg = std::conditional_t<REF, std::conditional_t<SH, const P &, P &&>, P>;
    if (ex) return pass<h % 2 == 0, ThenFn<P, R, RK, Arg, h % 2 != 0>>(p, [&](auto &&fn) { return f.then(Ex(*ex), std::forward<decltype(fn)>(fn)); });
    return pass<h % 2 != 0, ThenFn<P, R, RK, Arg, h % 2 == 0>>(p, [&](auto &&fn) { return f.then(std::forward<decltype(fn)>(fn)); });
  } else {
    if (ex) return pass<h % 2 == 0, IntrFn<P, R, h % 2 != 0>>(p, [&](auto &&fn) { return f.then(*ex, std::forward<decltype(fn)>(fn)); });
    return pass<h % 2 != 0, IntrFn<P, R, h % 2 == 0>>(p, [&](auto &&fn) { return f.then(std::forward<decltype(fn)>(fn)); });
  }
}
template <class T, class P, class R> AFp att_r(P &f, Probe &p, const Ex *ex) {
  if (p.op == INTR) return att<T, P, R, INTR, 0>(f, p, ex);
  switch (p.op * 3 + p.rk) {
  case 0: return att<T, P, R, NEXT, 0>(f, p, ex);
  case 1: return att<T, P, R, NEXT, 1>(f, p, ex);
  case 2: return att<T, P, R, NEXT, 2>(f, p, ex);
  case 3: return att<T, P, R, THEN, 0>(f, p, ex);
  case 4: return att<T, P, R, THEN, 1>(f, p, ex);
  default: return att<T, P, R, THEN, 2>(f, p, ex);
  }
}
template <class T, class P> struct AFT : AF {
  P f;
  static constexpr bool SH = std::is_same<P, pc::shared_future<T>>::value;
  explicit AFT(P x) : f(std::move(x)) { t = Idx<T>::v; shared = SH; }
  bool valid() override { return f.valid(); }
  bool ready() override { return f.is_ready(); }
  void wait() override { f.wait(); }
  int wait_for_ms(int ms, bool waiter) override {
    pc::future_status s;
    if (waiter) { pc::timed_waiter w(f); s = w.wait_for(std::chrono::milliseconds(ms)); }
    else s = f.wait_for(std::chrono::milliseconds(ms));
    return s == pc::future_status::ready ? 0 : 1;
  }
  Out get() override { return tk::get(f); }
  const void *addr() override {
    if constexpr (SH && !std::is_void<T>::value) return &f.get();
    else return nullptr;
  }
  AFp share() override {
    if constexpr (SH) return wrap(f);
    else return wrap(f.share());
  }
  AFp dup() override {
    if constexpr (SH) return wrap(f);
    else { vs::fail("harness: copy of a unique future"); }
  }
  AFp detach() override { return wrap(f.detach()); }
  AFp attach(Probe &p, const Ex *ex) override {
    AFp res;
    switch (p.rt) {
    case T_VOID: res = att_r<T, P, void>(f, p, ex); break;
    case T_VAL: res = att_r<T, P, Val>(f, p, ex); break;
    case T_MOVE: res = att_r<T, P, MVal>(f, p, ex); break;
    default: res = att_r<T, P, long &>(f, p, ex);
    }
    VS_CHECK(res->valid(), "%s returned an invalid future", p.str());
    VS_CHECK(f.valid() == SH, SH ? "%s invalidated a shared_future" : "%s left its future valid", p.str());
    return res;
  }
  void notify(Probe &p, const Ex *ex) override {
    if (ex) f.notify(*ex, NoteFn<true>(p));
    else f.notify(NoteFn<false>(p));
    VS_CHECK(f.valid(), "notify invalidated the future");
  }
};
template <class T> Src make_src(Rng &r, const Out *ready) {
  Src s;
  Producer<T> p = make_producer<T>(r);
  if (ready) p.impl->fire(*ready);
  s.f = wrap(std::move(p.fut));
  if (!ready) { s.fire = std::move(p.impl); s.runs = p.runs; }
  return s;
}
#define MAT_TYPE(T)                                                          \
  AFp wrap(pc::future<T> f) { return AFp(new AFT<T, pc::future<T>>(std::move(f))); }        \
  AFp wrap(pc::shared_future<T> f) { return AFp(new AFT<T, pc::shared_future<T>>(std::move(f))); }
} // namespace mat
