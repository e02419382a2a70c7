#define TK_MAIN
#include "prod.h"
#include "matscen.h"
using namespace tk;

// What the current thread is doing: executor running a task, an attaching call or a producing call.
static thread_local const void *t_ctx = nullptr;
static thread_local int t_post = 0; // inside post() of some executor
struct Ctx {
  const void *old;
  explicit Ctx(const void *c) : old(t_ctx) { t_ctx = c; }
  ~Ctx() { t_ctx = old; }
};

// One recording executor per attached function.
struct Rec {
  vs::Cnt posted, ran, executed, dropped;
  vs::Cnt *input = nullptr;   // set when the input of the function is produced
  int policy = 0;             // 0 inline, 1 queue (run by a runner thread / driver)
  std::mutex m;
  std::deque<Task> q;
  bool run_one() {
    Task t;
    {
      std::lock_guard<std::mutex> g(m);
      if (q.empty()) return false;
      t = std::move(q.front());
      q.pop_front();
    }
    Ctx c(this);
    executed.inc();
    t();
    return true;
  }
};
// executor with tracked state: copies stay usable after the original died
struct RX {
  Rec *p;
  Life l;
  Val tag;
  explicit RX(Rec &r) : p(&r), tag(31) {}
  void kill() { p = nullptr; }
  friend void post(RX e, Task t) {
    e.l.check("used as executor");
    VS_CHECK(e.p && e.tag.id() == 31, "post() called with a modified or moved-from executor");
    e.p->posted.inc();
    if (e.p->input) VS_CHECK(e.p->input->get(), "function handed to its executor before its input was produced");
    vs::point();
    if (e.p->policy == 0) { Ctx c(e.p); e.p->executed.inc(); t(); }
    else { std::lock_guard<std::mutex> g(e.p->m); e.p->q.push_back(std::move(t)); }
  }
};
struct SX { // small: fits into a notification
  Rec *p;
  Life l;
  explicit SX(Rec &r) : p(&r) {}
  void kill() { p = nullptr; }
  friend void post(SX e, Task t) { e.l.check("used as executor"); VS_CHECK(e.p, "post() called with a modified executor"); post(RX(*e.p), std::move(t)); }
};
struct MX { // move-only executor
  Rec *p;
  std::unique_ptr<int> id;
  explicit MX(Rec &r) : p(&r), id(new int(9)) {}
  friend void post(const MX &e, Task t) {
    VS_CHECK(e.id && *e.id == 9, "post() called with a moved-from executor");
    post(RX(*e.p), std::move(t));
  }
};
struct VX { // copyable, a move leaves the source empty; post takes it by value
  std::shared_ptr<Rec *> p;
  explicit VX(Rec &r) : p(std::make_shared<Rec *>(&r)) {}
  friend void post(VX e, Task t) { VS_CHECK(e.p && *e.p, "post() called with a moved-from executor"); post(RX(**e.p), std::move(t)); }
};
namespace portable_concurrency {
template <> struct is_executor<VX> : std::true_type {};
template <> struct is_executor<RX> : std::true_type {};
template <> struct is_executor<SX> : std::true_type {};
template <> struct is_executor<MX> : std::true_type {};
} // namespace portable_concurrency

// a function state that knows where it must run
struct FnS {
  Rec *rec;               // null: no executor given
  vs::Cnt *out;           // marks the output as produced
  Life l;
  Val tag{17};
  void enter(const char *what) const {
    l.check("called");
    VS_CHECK(tag.id() == 17, "%s: function state modified or moved from", what);
    if (rec) {
      VS_CHECK(t_ctx == rec, "%s ran outside the executor it was given", what);
      if (rec->ran.inc() > 1) vs::fail("%s ran twice", what);
    } else VS_CHECK(t_ctx != nullptr, "%s (no executor) ran outside of the calls which attach it or make its input ready", what);
  }
};
struct Stage {
  Rec rec;
  vs::Cnt out, ran;
  bool exec = false, fails = false, may_skip = false;
};
// attach one of the forms to f; R = Val
template <class F> static pc::future<Val> link(Rng &r, F f, Stage &s, bool next_ok) {
  const void *attach_ctx = &s;
  Ctx c(attach_ctx);
  FnS st{s.exec ? &s.rec : nullptr, &s.out, {}, Val(17)};
  Stage *ps = &s;
  auto fin = [ps](FnS &st, const char *w) { st.enter(w); if (ps->ran.inc() > 1) vs::fail("%s ran twice", w); ps->out.set(1); if (ps->fails) throw Err(5); return Val(3); };
  int k = r.below(next_ok ? 5 : 3);
  int ek = r.below(4);
  auto go = [&](auto fn) -> pc::future<Val> {
    // (attach with / without executor; executors as rvalue, lvalue destroyed afterwards, move-only)
    constexpr bool is_next = std::is_same<decltype(fn.tag_type()), std::true_type>::value;
    auto at = [&](auto &&e) -> pc::future<Val> { if constexpr (is_next) return f.next(std::forward<decltype(e)>(e), std::move(fn)); else return f.then(std::forward<decltype(e)>(e), std::move(fn)); };
    if (!s.exec) { if (ek == 0) return at(pc::inplace_executor); if constexpr (is_next) return f.next(std::move(fn)); else return f.then(std::move(fn)); }
    if (ek == 0) { RX e(s.rec); auto g = at(e); VS_CHECK(e.tag.id() == 31, "lvalue executor was moved from"); e.kill(); return g; }
    if (ek == 1) { const RX e(s.rec); return at(e); }
    if (ek == 2) return at(MX(s.rec));
    return at(RX(s.rec));
  };
  switch (k) {
  case 0: { struct L { FnS st; decltype(fin) fn; std::false_type tag_type() const; Val operator()(F x) { VS_CHECK(x.is_ready(), "unready input"); return fn(st, "then"); } }; return go(L{st, fin}); }
  case 1: { struct L { FnS st; decltype(fin) fn; std::false_type tag_type() const; void operator()(pc::promise<Val> p, F x) { VS_CHECK(x.is_ready(), "unready input"); try { p.set_value(fn(st, "interruptible then")); } catch (...) { p.set_exception(std::current_exception()); } } }; return go(L{st, fin}); }
  case 2: { struct L { FnS st; decltype(fin) fn; std::false_type tag_type() const; pc::future<Val> operator()(F x) { VS_CHECK(x.is_ready(), "unready input"); return pc::make_ready_future(fn(st, "unwrapped then")); } }; return go(L{st, fin}); }
  case 3: { s.may_skip = true; struct L { FnS st; decltype(fin) fn; std::true_type tag_type() const; Val operator()(const Val &) { return fn(st, "next"); } }; return go(L{st, fin}); }
  default: { s.may_skip = true; struct L { FnS st; decltype(fin) fn; std::true_type tag_type() const; pc::shared_future<Val> operator()(const Val &) { return pc::make_ready_future(fn(st, "unwrapped next")).share(); } }; 
    struct L2 { FnS st; decltype(fin) fn; std::true_type tag_type() const; pc::future<Val> operator()(const Val &) { return pc::make_ready_future(fn(st, "unwrapped next")); } }; return go(L2{st, fin}); }
  }
}

static void routes(Rng &r, bool threads) {
  int n = r.range(1, 4);
  std::deque<Stage> st(n);
  vs::Cnt root;
  auto pf = pc::make_promise<Val>();
  pc::promise<Val> p = std::move(pf.first);
  pc::future<Val> f = std::move(pf.second);
  Out o = random_out(r, 70, 10);
  int when = threads ? r.below(3) : r.below(2); // before, after, concurrently with attaching
  auto fire = [&] { static int mark; Ctx c(&mark); root.set(1); satisfy(std::move(p), o); };
  for (int i = 0; i < n; i++) {
    st[i].exec = r.chance(70);
    st[i].rec.policy = r.below(2);
    st[i].rec.input = i ? &st[i - 1].out : &root;
    st[i].fails = r.chance(20);
  }
  vs::Cnt stop;
  std::vector<std::thread> runners;
  if (threads) for (int k = 0; k < 2; k++) runners.emplace_back([&st, &stop, k, n] {
    while (!stop.get()) { for (int i = k; i < n; i += 2) st[i].rec.run_one(); std::this_thread::yield(); }
    for (int i = k; i < n; i += 2) while (st[i].rec.run_one()) {}
  });
  std::thread ft;
  if (when == 0) fire();
  if (when == 2) ft = std::thread([&] { vs::point(); fire(); });
  // an output that can fail also feeds later stages: mark skipped stages as produced when they are posted
  bool fail_before = o.kind != V;
  std::vector<bool> skip_ok(n);
  for (int i = 0; i < n; i++) {
    bool shared = r.chance(30);
    if (shared) f = link(r, f.share(), st[i], true);
    else f = link(r, std::move(f), st[i], true);
    bool skipped = fail_before && st[i].may_skip;
    skip_ok[i] = skipped;
    if (skipped && i + 1 < n) st[i + 1].rec.input = st[i].rec.input; // readiness flows through a skipped function
    fail_before = fail_before ? (st[i].may_skip ? true : st[i].fails) : st[i].fails;
  }
  if (when == 1) fire();
  if (ft.joinable()) ft.join();
  if (threads) { Out res = get(f); (void)res; stop.set(1); for (auto &t : runners) t.join(); }
  else {
    for (int k = 0; k < n; k++) for (auto &s : st) while (s.rec.run_one()) {}
    VS_CHECK(f.is_ready(), "chain not finished although every executor ran its tasks");
  }
  for (int i = 0; i < n; i++) {
    auto &s = st[i];
    VS_CHECK(s.ran.get() == (skip_ok[i] ? 0 : 1), "function %d ran %ld times", i, s.ran.get());
    if (s.exec) {
      VS_CHECK(skip_ok[i] ? s.rec.posted.get() <= 1 : s.rec.posted.get() == 1, "function %d was posted %ld times to its executor", i, s.rec.posted.get());
      VS_CHECK(s.rec.executed.get() <= 1, "executor ran %ld tasks", s.rec.executed.get());
    } else VS_CHECK(s.rec.posted.get() == 0, "posted to an executor that was not given");
  }
}
SCEN_F(routes_seq, 4, vs::SEQ) { routes(r, false); }
SCEN(routes_threads, 5) { routes(r, true); }

// nothing runs until the executor runs it; nothing runs in the posting thread
SCEN_F(when_executor_decides, 3, vs::SEQ) {
  Rec a, b, c, d;
  a.policy = b.policy = c.policy = d.policy = 1;
  vs::Cnt ra, rb, rc, rd;
  auto pf = pc::make_promise<Val>();
  bool before = r.chance(50);
  if (before) pf.first.set_value(Val(1));
  auto s = pf.second.share();
  s.notify(SX(d), [&d, &rd] { VS_CHECK(t_ctx == &d, "notification ran outside its executor"); rd.inc(); });
  auto f1 = s.then(RX(a), [&](pc::shared_future<Val>) { VS_CHECK(t_ctx == &a, "ran outside its executor"); ra.inc(); });
  auto f2 = f1.next(RX(b), [&] { VS_CHECK(t_ctx == &b, "ran outside its executor"); rb.inc(); });
  auto f3 = pc::async(RX(c), [&] { VS_CHECK(t_ctx == &c, "ran outside its executor"); rc.inc(); });
  if (!before) { VS_CHECK(a.posted.get() == 0 && d.posted.get() == 0, "posted before the input is ready"); pf.first.set_value(Val(1)); }
  VS_CHECK(a.posted.get() == 1 && d.posted.get() == 1 && c.posted.get() == 1 && b.posted.get() == 0, "posted %ld %ld %ld %ld", a.posted.get(), b.posted.get(), c.posted.get(), d.posted.get());
  VS_CHECK(!ra.get() && !rb.get() && !rc.get() && !rd.get() && !f1.valid() && !f2.is_ready() && !f3.is_ready(), "ran before the executor ran it");
  if (r.chance(50)) { c.run_one(); VS_CHECK(f3.is_ready() && rc.get() == 1, "async task not run"); }
  a.run_one();
  VS_CHECK(ra.get() == 1 && b.posted.get() == 1 && rb.get() == 0, "next function not handed to its executor");
  b.run_one();
  VS_CHECK(rb.get() == 1 && f2.is_ready(), "not run");
  d.run_one();
  c.run_one();
  VS_CHECK(rd.get() == 1 && rc.get() == 1, "not run");
  VS_CHECK(!a.run_one() && !b.run_one() && !c.run_one() && !d.run_one(), "extra tasks posted");
}
// the same through a unique future
SCEN_F(when_executor_decides_unique, 3, vs::SEQ) {
  Rec a, d;
  a.policy = d.policy = 1;
  vs::Cnt ra, rd;
  auto pf = pc::make_promise<Val>();
  bool before = r.chance(50), next = r.chance(50);
  if (before) pf.first.set_value(Val(1));
  auto f = std::move(pf.second);
  { std::unique_ptr<SX> e(new SX(d));
    if (r.chance(50)) f.notify(*e, [&d, &rd] { VS_CHECK(t_ctx == &d, "notification ran outside its executor"); rd.inc(); });
    else f.notify(std::move(*e), [&d, &rd] { VS_CHECK(t_ctx == &d, "notification ran outside its executor"); rd.inc(); });
    e->kill(); }
  pc::future<void> g = next ? f.next(RX(a), [&](Val) { VS_CHECK(t_ctx == &a, "ran outside its executor"); ra.inc(); })
                            : f.then(RX(a), [&](pc::future<Val>) { VS_CHECK(t_ctx == &a, "ran outside its executor"); ra.inc(); });
  if (!before) { VS_CHECK(a.posted.get() == 0 && d.posted.get() == 0, "posted before the input is ready"); pf.first.set_value(Val(1)); }
  VS_CHECK(a.posted.get() == 1 && d.posted.get() == 1, "posted %ld %ld", a.posted.get(), d.posted.get());
  VS_CHECK(!ra.get() && !rd.get() && !g.is_ready(), "ran before the executor ran it");
  a.run_one();
  d.run_one();
  VS_CHECK(ra.get() == 1 && rd.get() == 1 && g.is_ready(), "not run");
  VS_CHECK(!a.run_one() && !d.run_one(), "extra tasks posted");
}

// an executor passed as lvalue stays usable: one object serves many calls
SCEN_F(executor_reused, 3, vs::SEQ) {
  Rec a;
  a.policy = r.below(2);
  vs::Cnt ran;
  VX e(a);
  auto pf = pc::make_promise<Val>();
  auto s = pf.second.share();
  bool before = r.chance(50);
  if (before) pf.first.set_value(Val(1));
  std::deque<pc::future<void>> keep;
  int n = r.range(2, 6);
  for (int i = 0; i < n; i++) {
    auto fn = [&] { VS_CHECK(t_ctx == &a, "ran outside its executor"); ran.inc(); };
    auto u = [&] { return r.chance(50) ? pc::make_ready_future(Val(2)) : s.next([](const Val &v) { return v; }); };
    const VX &ce = e;
    switch (r.below(12)) {
    case 0: keep.push_back(pc::async(e, fn)); break;
    case 1: keep.push_back(pc::async(ce, fn)); break;
    case 2: keep.push_back(s.next(e, [fn](const Val &) { fn(); })); break;
    case 3: keep.push_back(s.then(e, [fn](pc::shared_future<Val>) { fn(); })); break;
    case 4: keep.push_back(s.then(e, [fn](pc::promise<void> p, pc::shared_future<Val>) { fn(); p.set_value(); })); break;
    case 5: s.notify(e, fn); break;
    case 6: keep.push_back(u().next(e, [fn](Val) { fn(); })); break;
    case 7: keep.push_back(u().then(e, [fn](pc::future<Val>) { fn(); })); break;
    case 8: keep.push_back(u().then(e, [fn](pc::promise<void> p, pc::future<Val>) { fn(); p.set_value(); })); break;
    case 9: keep.push_back(s.next([](const Val &) {}).next(ce, fn)); break;
    case 10: keep.push_back(s.next([](const Val &) {}).share().next(e, fn)); break;
    default: { auto f = pc::make_ready_future(Val(2)); f.notify(e, fn); }
    }
    VS_CHECK(e.p && *e.p == &a, "the caller's executor was moved from");
  }
  if (!before) pf.first.set_value(Val(1));
  while (a.run_one()) {}
  VS_CHECK(ran.get() == n && a.posted.get() == n, "%d functions posted %ld times, ran %ld times", n, a.posted.get(), ran.get());
}

// decay copies: the originals die or change right after the attaching call
static long free_fn(Val v) { return v.id(); }
SCEN_F(decay, 4, vs::SEQ) {
  QueueEx q;
  struct F {
    Val v;
    Life l;
    long operator()(const Val &a) const { l.check("called"); return v.id() * 100 + a.id(); }
    long operator()(pc::future<Val> a) const { l.check("called"); return v.id() * 100 + a.get().id(); }
    long operator()(pc::shared_future<Val> a) const { l.check("called"); return v.id() * 100 + a.get().id(); }
  };
  pc::future<long> res;
  long want = 504;
  std::unique_ptr<F> orig(new F{Val(5), {}});
  std::unique_ptr<Val> arg(new Val(4));
  auto pf = pc::make_promise<Val>();
  bool usep = false;
  switch (r.below(9)) {
  case 0: res = pc::async(Ex{&q}, *orig, *arg); break;
  case 1: res = pc::async(Ex{&q}, static_cast<const F &>(*orig), static_cast<const Val &>(*arg)); break;
  case 2: res = pc::async(Ex{&q}, std::move(*orig), std::move(*arg)); orig->v = Val(9); break;
  case 3: res = pf.second.next(Ex{&q}, *orig); usep = true; break;
  case 4: res = pf.second.then(Ex{&q}, [o = *orig](pc::future<Val> x) { return o(std::move(x)); }); usep = true; break;
  case 5: { auto s = pf.second.share(); res = s.next(Ex{&q}, static_cast<const F &>(*orig)); usep = true; break; }
  case 6: { res = pc::async(Ex{&q}, free_fn, *arg); want = 4; break; }
  case 7: { char buf[8] = "abc"; res = pc::async(Ex{&q}, [](std::string s) { return s == "abc" ? 504L : -1L; }, std::string(buf)); buf[0] = 'x'; break; }
  default: { // reference_wrapper really refers
    static long target;
    target = 1;
    res = pc::async(Ex{&q}, [](long &t) { t = 504; return t; }, std::ref(target));
    VS_CHECK(target == 1, "ran early");
    q.run_all();
    VS_CHECK(target == 504, "std::ref argument was copied");
    break;
  }
  }
  if (orig->v.p) { VS_CHECK(orig->v.id() == 5 || orig->v.id() == 9, "lvalue function was modified"); orig->v = Val(8); }
  if (arg->p) { VS_CHECK(arg->id() == 4, "lvalue argument was modified"); *arg = Val(7); }
  orig.reset();
  if (usep) pf.first.set_value(std::move(*arg).id() == 7 ? Val(4) : Val(4));
  arg.reset();
  q.run_all();
  long got = res.get();
  VS_CHECK(got == want, "got %ld, expected %ld: changes to the originals reached the function", got, want);
}
// notify with an executor: posted exactly once, to that executor, from whatever thread completes the future
template <class S> static void notify_routes_on(Rng &r, S s, pc::promise<Val> p) {
  Rec a, b;
  a.policy = 1;
  b.policy = 0;
  vs::Cnt input, ra, rb, rc;
  a.input = b.input = &input;
  Out o = random_out(r);
  std::thread t([&] { static int mark; vs::point(); Ctx c(&mark); input.set(1); satisfy(std::move(p), o); });
  { Ctx c(&s);
    s.notify(SX(a), [&a, &ra] { VS_CHECK(t_ctx == &a, "notification ran outside its executor"); ra.inc(); });
    if (r.chance(50)) { SX e(b); s.notify(e, [&b, &rb, u = std::unique_ptr<int>(new int(4))] { VS_CHECK(t_ctx == &b && *u == 4, "notification ran outside its executor"); rb.inc(); }); e.kill(); }
    else s.notify(MX(b), [&b, &rb] { VS_CHECK(t_ctx == &b, "notification ran outside its executor"); rb.inc(); });
    s.notify([&] { VS_CHECK(t_ctx != nullptr, "notification ran outside of the producing and attaching calls"); rc.inc(); });
  }
  s.wait();
  t.join();
  VS_CHECK(a.posted.get() == 1 && b.posted.get() == 1 && rb.get() == 1 && rc.get() == 1 && ra.get() == 0, "notifications posted %ld/%ld times, ran %ld/%ld/%ld times", a.posted.get(), b.posted.get(), ra.get(), rb.get(), rc.get());
  a.run_one();
  VS_CHECK(ra.get() == 1 && !a.run_one(), "posted twice");
}
SCEN(notify_routes, 3) {
  auto pf = pc::make_promise<Val>();
  if (r.chance(50)) notify_routes_on(r, pf.second.share(), std::move(pf.first));
  else notify_routes_on(r, std::move(pf.second), std::move(pf.first));
}
// concurrent async calls on several executors
SCEN(async_routes, 3) {
  int n = r.range(1, 3);
  std::deque<Rec> rec(n);
  std::deque<vs::Cnt> ran(n);
  std::vector<pc::future<long>> fs(n);
  std::vector<std::thread> ts;
  for (int i = 0; i < n; i++) { rec[i].policy = r.below(2);
    ts.emplace_back([&, i] {
      fs[i] = pc::async(RX(rec[i]), [&, i, st = FnS{&rec[i], nullptr, {}, Val(17)}](MVal m) { st.enter("async"); ran[i].inc(); return m.id(); }, MVal(i));
      rec[i].run_one();
    });
  }
  for (auto &t : ts) t.join();
  for (int i = 0; i < n; i++) { VS_CHECK(rec[i].posted.get() == 1 && ran[i].get() == 1, "async posted %ld times, ran %ld times", rec[i].posted.get(), ran[i].get()); VS_CHECK(fs[i].get() == i, "wrong result"); }
}
// the result is dropped while the function is being handed to its executor, by the executor itself or by another
// thread: the executor used for posting stays intact, the function runs at most once, and only there
struct KX { // refers to itself all along post(), move-only
  Rec *p;
  std::unique_ptr<long> id;
  std::function<void()> *on_post;
  KX(Rec &r, std::function<void()> *f) : p(&r), id(new long(77)), on_post(f) {}
  friend void post(KX &e, Task t) {
    VS_CHECK(e.id && *e.id == 77, "post() called with a moved-from executor");
    if (*e.on_post) (*e.on_post)();
    vs::point();
    VS_CHECK(*e.id == 77, "executor damaged while it was given a function");
    Rec *p = e.p;
    VS_CHECK(*e.id == 77, "executor damaged while it was given a function");
    post(RX(*p), std::move(t));
    VS_CHECK(*e.id == 77, "executor damaged while it was given a function");
  }
};
namespace portable_concurrency { template <> struct is_executor<KX> : std::true_type {}; }
SCEN(dropped_while_posted, 4) {
  Rec a;
  a.policy = r.below(2);
  vs::Cnt input, ran;
  a.input = &input;
  bool self = r.chance(40);
  auto pf = pc::make_promise<Val>();
  pc::future<Val> res;
  std::function<void()> on_post;
  auto body = [&a, &ran, st = FnS{&a, nullptr, {}, Val(17)}] { st.enter("continuation"); ran.inc(); };
  switch (r.below(5)) {
  case 0: res = pf.second.then(KX(a, &on_post), [body](pc::future<Val> x) { body(); return x; }); break;
  case 1: res = pf.second.next(KX(a, &on_post), [body](Val x) { body(); return x; }); break;
  case 2: res = pf.second.share().then(KX(a, &on_post), [body](pc::shared_future<Val> x) { body(); return Val(x.get().id()); }); break;
  case 3: res = pf.second.share().next(KX(a, &on_post), [body](const Val &x) { body(); return Val(x.id()); }); break;
  default: res = pf.second.then(KX(a, &on_post), [body](pc::promise<Val> p, pc::future<Val> x) { body(); p.set_value(x.get()); }); break;
  }
  if (self) { on_post = [&] { res = pc::future<Val>(); }; Ctx c(&res); input.set(1); pf.first.set_value(Val(3)); }
  else {
    std::thread d([&] { vs::point(); res = pc::future<Val>(); });
    { Ctx c(&res); input.set(1); vs::point(); pf.first.set_value(Val(3)); }
    d.join();
  }
  a.run_one();
  VS_CHECK(a.posted.get() <= 1 && a.posted.get() >= ran.get() && ran.get() <= 1, "posted %ld times, ran %ld times", a.posted.get(), ran.get());
  if (self) VS_CHECK(ran.get() == 0, "function of a dropped result ran");
}
// a skipped function runs nowhere, even when the executor would run whatever it gets
SCEN_F(skipped, 2, vs::SEQ) {
  Rec a;
  a.policy = r.below(2);
  auto pf = pc::make_promise<Val>();
  vs::Cnt ran;
  Out o{r.chance(50) ? BROKEN : random_exc(r), 3};
  bool before = r.chance(50);
  if (before) satisfy(std::move(pf.first), o);
  pc::future<Val> f;
  switch (r.below(3)) {
  case 0: f = pf.second.next(RX(a), [&](Val v) { ran.inc(); return v; }); break;
  case 1: f = pf.second.share().next(RX(a), [&](const Val &v) { ran.inc(); return Val(v.id()); }); break;
  default: f = pf.second.next(RX(a), [&](Val v) { ran.inc(); return pc::make_ready_future(std::move(v)); }); break;
  }
  if (!before) satisfy(std::move(pf.first), o);
  while (a.run_one()) {}
  VS_CHECK(ran.get() == 0, "skipped function ran");
  VS_CHECK(a.posted.get() <= 1, "posted %ld times", a.posted.get());
  VS_CHECK(f.is_ready(), "not ready");
  expect_out(get(f), o, "skipped");
}

// over every way of attaching a function
SCEN(mat_exec, 3) { mat::by_executor(r, false); }
