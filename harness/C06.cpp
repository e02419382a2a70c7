#define TK_MAIN
#include "prod.h"
#include "matscen.h"
using namespace tk;

// A chain is generated together with its sequential evaluation: `in` is the outcome entering a
// link, `out` the one leaving it, `runs` how often its function has to run.
struct Link {
  int op;
  Out in, out;
  int want_runs;
  vs::Cnt runs;
  long c;
  Out err; // what the function throws / the returned future holds
  Tok tok;
  vs::Cnt *alive;
  Link(int o, Out i, long k, Out e, vs::Cnt &a) : op(o), in(i), want_runs(0), c(k), err(e), tok(a), alive(&a) {}
};
static long step_id(long id, long c) { return (id * 7 + c) % NREF; }
[[noreturn]] static void raise(const Out &o) {
  if (o.ep) std::rethrow_exception(o.ep);
  throw_exc(o.kind, o.id);
}
static void entered(Link *l) {
  if (l->runs.inc() > 1) vs::fail("function of link (op %d) ran twice", l->op);
  if (!l->want_runs) vs::fail("function of link (op %d) ran although its parent holds %s", l->op, l->in.str());
}
static void got_value(Link *l, long id) {
  if (l->in.kind != V || id != l->in.id) vs::fail("next received %ld, parent holds %s(%ld)", id, l->in.str(), l->in.id);
}
template <class F> static Out parent_outcome(Link *l, F &x) {
  VS_CHECK(x.valid() && x.is_ready(), "then received an unready or invalid parent");
  Out o = get(x);
  expect_out(o, l->in, "parent passed to then");
  return o;
}
struct Late { // inner futures resolved later
  std::mutex m;
  std::vector<std::pair<pc::promise<Val>, Out>> v;
  void add(pc::promise<Val> p, Out o) { std::lock_guard<std::mutex> g(m); v.emplace_back(std::move(p), std::move(o)); }
  bool resolve() {
    std::vector<std::pair<pc::promise<Val>, Out>> w;
    { std::lock_guard<std::mutex> g(m); w.swap(v); }
    for (auto &x : w) satisfy(std::move(x.first), x.second);
    return !w.empty();
  }
};
static pc::future<Val> inner(Link *l, Late *late, int how) { // a future carrying l->out
  const Out &o = l->out;
  if (how == 0 && o.kind == BROKEN) return {};
  auto pf = pc::make_promise<Val>();
  if (how == 1) late->add(std::move(pf.first), o);
  else satisfy(std::move(pf.first), o);
  return std::move(pf.second);
}

enum { NEXT, NEXT_THROW, THEN_PASS, THEN_RECOVER, THEN_THROW, NEXT_FUT, THEN_FUT, INTERRUPT, VOID_HOP, REF_HOP, UNWRAP_PASS, NOPS };

static void reference(Rng &r, Link &l) {
  Out cur = l.in;
  bool v = cur.kind == V;
  switch (l.op) {
  case NEXT: case VOID_HOP: case REF_HOP: l.want_runs = v; l.out = v ? Out{V, step_id(cur.id, l.c)} : cur; break;
  case NEXT_THROW: l.want_runs = v; l.out = v ? l.err : cur; break;
  case THEN_PASS: case UNWRAP_PASS: case INTERRUPT: l.want_runs = 1; l.out = v ? Out{V, step_id(cur.id, l.c)} : cur; if (l.op == UNWRAP_PASS) l.out = cur; break;
  case THEN_RECOVER: l.want_runs = 1; l.out = Out{V, step_id(l.c, 3)}; break;
  case THEN_THROW: l.want_runs = 1; l.out = l.err; break;
  case NEXT_FUT: l.want_runs = v; l.out = v ? (r.chance(60) ? Out{V, step_id(cur.id, l.c)} : l.err) : cur; break;
  case THEN_FUT: l.want_runs = 1; l.out = r.chance(60) ? Out{V, l.c} : l.err; break;
  }
}

// attach link `l` behind f (P = future<Val> or shared_future<Val>)
template <class P> static pc::future<Val> link_up(Rng &r, P f, Link *l, Ex e, bool use_exec, Late *late) {
  auto attach_next = [&](auto g) { return use_exec ? f.next(e, std::move(g)) : f.next(std::move(g)); };
  auto attach_then = [&](auto g) { return use_exec ? f.then(e, std::move(g)) : f.then(std::move(g)); };
  int how = r.below(3);
  switch (l->op) {
  case NEXT: return attach_next([l, t = l->tok](const Val &v) { entered(l); got_value(l, v.id()); return Val(l->out.id); });
  case NEXT_THROW: return attach_next([l, t = l->tok](const Val &v) -> Val { entered(l); got_value(l, v.id()); raise(l->err); });
  case THEN_PASS: return attach_then([l, t = l->tok](P x) -> Val { entered(l); Out o = parent_outcome(l, x); if (o.kind != V) raise(o); return Val(l->out.id); });
  case THEN_RECOVER: return attach_then([l, t = l->tok](P x) { entered(l); (void)parent_outcome(l, x); return Val(l->out.id); });
  case THEN_THROW: return attach_then([l, t = l->tok](P x) -> Val { entered(l); (void)parent_outcome(l, x); raise(l->err); });
  case NEXT_FUT: return attach_next([l, late, how, t = l->tok](const Val &v) -> pc::future<Val> { entered(l); got_value(l, v.id()); if (how == 2 && l->out.kind > BROKEN) raise(l->out); return inner(l, late, how); });
  case THEN_FUT: return attach_then([l, late, how, t = l->tok](P x) -> pc::future<Val> { entered(l); (void)parent_outcome(l, x); return inner(l, late, how); });
  case INTERRUPT: return attach_then([l, t = l->tok](pc::promise<Val> p, P x) { entered(l); (void)parent_outcome(l, x); satisfy(std::move(p), l->out); });
  case VOID_HOP: return attach_next([l, t = l->tok](const Val &v) { entered(l); got_value(l, v.id()); }).next([l] { return Val(l->out.id); });
  case REF_HOP: return attach_next([l, t = l->tok](const Val &v) -> long & { entered(l); got_value(l, v.id()); return g_refs[l->out.id]; }).next([](long &x) { return Val(VT<long &>::id(x)); });
  default: return attach_then([l, t = l->tok](P x) { entered(l); VS_CHECK(x.is_ready(), "unready"); return std::move(x); }).then([](P x) -> Val { return Val(x.get().id()); });
  }
}

static void chain(Rng &r, int maxlen, bool threads) {
  Execs ex;
  Late late;
  vs::Cnt alive;
  int n = r.range(1, maxlen);
  std::deque<Link> links;
  Out cur = with_ep(random_out(r, 70, 10));
  Out first = cur;
  Rng br = r.fork();
  for (int i = 0; i < n; i++) {
    links.emplace_back(r.below(NOPS), cur, (long)r.below(NREF), with_ep({random_exc(r), r.range(0, NREF - 1)}), alive);
    reference(br, links.back());
    cur = links.back().out;
  }
  auto pf = pc::make_promise<Val>();
  std::thread t;
  int when = threads ? r.below(4) : (r.chance(50) ? 0 : 2);
  if (when == 0) satisfy(std::move(pf.first), first);
  else if (when == 1 || when == 3) t = std::thread([&] { vs::point(); satisfy(std::move(pf.first), first); });
  pc::future<Val> f = std::move(pf.second);
  for (int i = 0; i < n; i++) {
    Ex e = threads ? ex.any(r, false) : Ex{&ex.inl};
    bool ue = r.chance(50);
    if (r.chance(30)) f = link_up(r, f.share(), &links[i], e, ue, &late);
    else f = link_up(r, std::move(f), &links[i], e, ue, &late);
    if (when == 2 && i == n / 2) satisfy(std::move(pf.first), first);
  }
  vs::Cnt done;
  std::thread lt;
  if (threads) lt = std::thread([&] { while (!done.get()) { if (!late.resolve()) std::this_thread::yield(); } });
  else while (late.resolve()) {}
  Out got;
  if (threads) got = observe(r, std::move(f)); else got = get(f);
  done.set(1);
  if (t.joinable()) t.join();
  if (lt.joinable()) lt.join();
  ex.finish();
  expect_out(got, cur, "result of the chain");
  for (auto &l : links) VS_CHECK(l.runs.get() == l.want_runs, "function of link (op %d) ran %ld times, expected %d", l.op, l.runs.get(), l.want_runs);
  long left = alive.get() - n; // the links' own tokens
  VS_CHECK(left == 0, "%ld functions of a finished chain are still alive", left);
}
SCEN_F(seq_chain, 3, vs::SEQ) { chain(r, 7, false); }
SCEN(chain_threads, 6) { chain(r, 5, true); }

// every copy of a shared parent feeds its own branch; branches do not influence each other
SCEN(branches, 3) {
  Execs ex;
  auto pf = pc::make_promise<Val>();
  auto sf = pf.second.share();
  Out first = with_ep(random_out(r, 70, 10));
  int n = r.range(2, 4);
  std::deque<vs::Cnt> alive(1);
  std::deque<Link> links;
  Late late;
  std::vector<pc::future<Val>> fs;
  std::thread t([&] { vs::point(); satisfy(std::move(pf.first), first); });
  for (int i = 0; i < n; i++) {
    links.emplace_back(r.below(NOPS), first, (long)r.below(NREF), with_ep({random_exc(r), r.range(0, NREF - 1)}), alive[0]);
    reference(r, links.back());
    fs.push_back(link_up(r, pc::shared_future<Val>(sf), &links.back(), ex.any(r, false), r.chance(50), &late));
  }
  vs::Cnt done;
  std::thread lt([&] { while (!done.get()) { if (!late.resolve()) std::this_thread::yield(); } });
  for (int i = 0; i < n; i++) { Out g = get(fs[i]); expect_out(g, links[i].out, "branch"); }
  expect_out(get(sf), first, "shared parent after its branches ran");
  done.set(1);
  t.join();
  lt.join();
  ex.finish();
  for (auto &l : links) VS_CHECK(l.runs.get() == l.want_runs, "function of branch (op %d) ran %ld times, expected %d", l.op, l.runs.get(), l.want_runs);
}

// move-only and void values through next/then
SCEN(typed_chain, 2) {
  Execs ex;
  auto pf = pc::make_promise<MVal>();
  Out o = with_ep(random_out(r, 70, 10));
  std::thread t([&] { vs::point(); satisfy(std::move(pf.first), o); });
  vs::Cnt runs;
  auto f = pf.second.next(ex.any(r, false), [&](MVal v) { runs.inc(); return v; })
               .next([&](MVal v) { runs.inc(); return std::unique_ptr<long>(new long(v.id())); })
               .next(ex.any(r, false), [&](std::unique_ptr<long> p) -> long & { runs.inc(); return g_refs[*p]; })
               .next([&](long &x) { runs.inc(); return std::make_pair(VT<long &>::id(x), Val(1)); })
               .then(ex.any(r, false), [&](pc::future<std::pair<long, Val>> x) { auto p = x.get(); runs.inc(); return std::string(1, (char)('0' + p.second.id())) + std::to_string(p.first); });
  Out got;
  try { std::string s = f.get(); VS_CHECK(s[0] == '1', "pair damaged"); got = Out{V, atol(s.c_str() + 1)}; } catch (...) { got = classify(); }
  t.join();
  ex.finish();
  expect_out(got, o, "typed chain");
  VS_CHECK(runs.get() == (o.kind == V ? 5 : 0), "%ld functions ran for %s", runs.get(), o.str());
}

// over every way of attaching a function
SCEN_F(mat_seq, 3, vs::SEQ) { mat::tree(r, false, 6); }
SCEN(mat_tree, 3) { mat::tree(r, true, 5); }
// the kind of callable does not matter: function, member, data member pointer, bind, wrapper, const or stateful object
namespace kinds {
struct Obj {
  Val v;
  long field = 0;
  explicit Obj(long i) : v(i), field(i) {}
  long get() const { return v.id(); }
  long bump() { return v.id() + 1000; }
  long add(long n) const noexcept { return v.id() + n; }
};
static long fn_obj(Obj o) { return o.get(); }
static long fn_cref(const Obj &o) noexcept { return o.get(); }
static long fn_fut(pc::future<Obj> f) { return f.get().get(); }
static long fn_sfut(pc::shared_future<Obj> f) { return f.get().get(); }
static long fn_thr(const Obj &) { throw Err(7); }
static void fn_int(pc::promise<long> p, pc::future<Obj> f) { p.set_value(f.get().get()); }
struct CFn {
  Life l;
  long operator()(const Obj &o) const { l.check("called"); return o.get(); }
};
struct Stateful {
  Life l;
  long calls = 0;
  long operator()(const Obj &o) { l.check("called"); return ++calls * 10000 + o.get(); }
};
} // namespace kinds
SCEN_F(callable_kinds, 3, vs::SEQ) {
  using namespace kinds;
  long id = r.range(1, 900);
  QueueEx q;
  Ex e{&q};
  auto pf = pc::make_promise<Obj>();
  bool before = r.chance(50), ex = r.chance(50);
  if (before) pf.first.set_value(Obj(id));
  auto f = std::move(pf.second);
  pc::shared_future<Obj> s;
  pc::future<long> g;
  long want = id;
  bool err = false;
#define NX(u, ...) (ex ? u.next(e, __VA_ARGS__) : u.next(__VA_ARGS__))
#define TH(u, ...) (ex ? u.then(e, __VA_ARGS__) : u.then(__VA_ARGS__))
  const CFn cfn{};
  Stateful st;
  int k = r.below(22);
  if (k >= 11 && k < 20) s = f.share();
  switch (k) {
  case 0: g = NX(f, &fn_obj); break;
  case 1: g = NX(f, fn_cref); break;
  case 2: g = TH(f, fn_fut); break;
  case 3: g = NX(f, &Obj::get); break;
  case 5:
  case 4: g = NX(f, &Obj::bump); want = id + 1000; break;
  case 6: g = NX(f, std::bind(&Obj::add, std::placeholders::_1, 5)); want = id + 5; break;
  case 7: g = NX(f, std::function<long(Obj)>(fn_obj)); break;
  case 8: g = NX(f, pc::unique_function<long(Obj)>(fn_obj)); break;
  case 9: g = NX(f, cfn); break;
  case 10: g = NX(f, std::ref(st)); want = 10000 + id; break;
  case 11: g = NX(s, &fn_obj); break;
  case 12: g = NX(s, fn_cref); break;
  case 13: g = TH(s, fn_sfut); break;
  case 15:
  case 14: g = NX(s, &Obj::get); break;
  case 16: g = NX(s, std::bind(&Obj::add, std::placeholders::_1, 5)); want = id + 5; break;
  case 17: g = NX(s, std::function<long(const Obj &)>(fn_cref)); break;
  case 18: g = NX(s, std::ref(st)); want = 10000 + id; break;
  case 19: g = NX(s, &fn_thr); err = true; break;
  case 20: g = NX(f, &fn_thr); err = true; break;
  default: g = TH(f, &fn_int);
  }
  if (!before) pf.first.set_value(Obj(id));
  q.run_all();
  VS_CHECK(g.is_ready(), "continuation of kind %d did not run", k);
  try { long got = g.get(); VS_CHECK(!err && got == want, "kind %d: got %ld, expected %ld", k, got, want); }
  catch (const Err &x) { VS_CHECK(err && x.id == 7, "kind %d threw", k); }
  VS_CHECK(st.calls == (k == 10 || k == 18 ? 1 : 0), "std::ref callable: %ld calls reached the original", st.calls);
  if (s.valid()) VS_CHECK(s.get().get() == id, "shared value changed");
}
// chains much longer than anybody would recurse by hand
SCEN_F(long_chain, 1, vs::SEQ) {
  int n = r.chance(80) ? r.range(1, 40) : r.range(41, 300);
  auto pf = pc::make_promise<long>();
  QueueEx q;
  Ex e{&q};
  bool before = r.chance(50), err = false;
  if (before) pf.first.set_value(0);
  pc::future<long> f = std::move(pf.second);
  long want = 0, runs = 0;
  vs::Cnt ran;
  for (int i = 0; i < n; i++) {
    int k = r.below(12);
    bool ex = r.chance(20);
    auto plus = [&ran](long x) { ran.inc(); return x + 1; };
    auto tplus = [&ran](pc::future<long> x) { ran.inc(); return x.get() + 1; };
    auto uplus = [&ran](long x) { ran.inc(); return pc::make_ready_future(x + 1); };
    auto splus = [&ran](const long &x) { ran.inc(); return x + 1; };
    auto boom = [&ran](long) -> long { ran.inc(); throw Err(3); };
    auto fix = [&ran](pc::future<long> x) { ran.inc(); try { return x.get(); } catch (const Err &) { return -5L; } };
    if (k < 4) { f = ex ? f.next(e, plus) : f.next(plus); if (!err) { want++; runs++; } }
    else if (k < 7) { f = ex ? f.then(e, tplus) : f.then(tplus); runs++; if (!err) want++; }
    else if (k == 7) { f = ex ? f.next(e, uplus) : f.next(uplus); if (!err) { want++; runs++; } }
    else if (k == 8) { auto s = f.share(); f = ex ? s.next(e, splus) : s.next(splus); if (!err) { want++; runs++; } }
    else if (k == 9) { f = ex ? f.next(e, boom) : f.next(boom); if (!err) { runs++; err = true; } }
    else { f = ex ? f.then(e, fix) : f.then(fix); runs++; if (err) { err = false; want = -5; } }
  }
  if (!before) { VS_CHECK(ran.get() == 0, "ran early"); pf.first.set_value(0); }
  q.run_all();
  VS_CHECK(f.is_ready(), "chain of %d links not completed", n);
  VS_CHECK(ran.get() == runs, "%ld functions of a chain of %d ran, expected %ld", ran.get(), n, runs);
  try { long v = f.get(); VS_CHECK(!err && v == want, "chain of %d: %ld, expected %ld", n, v, want); } catch (const Err &x) { VS_CHECK(err && x.id == 3, "chain of %d threw", n); }
}
