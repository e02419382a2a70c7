#define TK_MAIN
#include "C11.h"
vs::Cnt g_alloc_blocks;
template <class V> struct Proxy { // lets inputs of different types be fired alike
  std::function<void()> fire;
  int when, thread;
};
// heterogeneous arguments
static void tup(Rng &r, bool seq) {
  In<Val> a;
  In<void> b;
  In<long &> c;
  In<MVal> d;
  open(r, a, true, seq);
  open(r, b, r.chance(50), seq);
  open(r, c, false, seq);
  open(r, d, false, seq);
  std::deque<Proxy<int>> px;
  px.push_back({[&] { a.fire(); }, a.when, a.thread});
  px.push_back({[&] { b.fire(); }, b.when, b.thread});
  px.push_back({[&] { c.fire(); }, c.when, c.thread});
  px.push_back({[&] { d.fire(); }, d.when, d.thread});
  std::vector<std::thread> ts;
  fire_when(px, 1, &ts, r);
  auto run = [&](auto f, auto verify) {
    using Seq = decltype(f.get());
    VS_CHECK(f.valid(), "invalid future from when_all");
    if (seq) {
      fire_when(px, 2, nullptr, r);
      VS_CHECK(f.is_ready(), "not ready although every input is");
    } else if (r.chance(40)) {
      fire_when(px, 2, &ts, r);
      for (auto &t : ts) t.join();
      ts.clear();
      VS_CHECK(f.is_ready(), "not ready although every input is");
    } else fire_when(px, 2, &ts, r);
    consume(r, std::move(f), [&](Seq &s) { verify(s); });
  };
  auto chk = [&](auto &f, auto &in, const char *w) {
    VS_CHECK(in.fired.get(), "%s: when_all ready before this input", w);
    VS_CHECK(f.valid() && f.is_ready(), "%s: invalid or unready in the result", w);
    expect_out(get(f), in.o, w);
  };
  if (b.s.valid()) {
    if (r.chance(50)) {
      const pc::shared_future<Val> cs = a.s;
      run(pc::when_all(cs, b.s, std::move(c.u), std::move(d.u)), [&](auto &t) { chk(std::get<0>(t), a, "arg 0"); chk(std::get<1>(t), b, "arg 1"); chk(std::get<2>(t), c, "arg 2"); chk(std::get<3>(t), d, "arg 3"); });
    } else
      run(pc::when_all(std::move(d.u), a.s, std::move(c.u), a.s, b.s), [&](auto &t) { chk(std::get<0>(t), d, "arg 0"); chk(std::get<1>(t), a, "arg 1"); chk(std::get<2>(t), c, "arg 2"); chk(std::get<3>(t), a, "arg 3"); chk(std::get<4>(t), b, "arg 4"); });
    VS_CHECK(a.s.valid() && b.s.valid(), "shared input passed as an lvalue was consumed");
  } else
    run(pc::when_all(std::move(c.u), std::move(b.u), std::move(d.u), a.s), [&](auto &t) { chk(std::get<0>(t), c, "arg 0"); chk(std::get<1>(t), b, "arg 1"); chk(std::get<2>(t), d, "arg 2"); chk(std::get<3>(t), a, "arg 3"); });
  VS_CHECK(!c.u.valid() && !d.u.valid(), "unique input not consumed");
  for (auto &t : ts) t.join();
  expect_out(get(a.mine), a.o, "shared input after when_all");
  if (b.mine.valid()) expect_out(get(b.mine), b.o, "shared input after when_all");
}
SCEN_F(seq_tuple, 2, vs::SEQ) { tup(r, true); }
SCEN(tuple, 4) { tup(r, false); }
SCEN_F(empty, 1, vs::SEQ) {
  auto f = pc::when_all();
  VS_CHECK(f.valid() && f.is_ready(), "when_all() not ready");
  (void)f.get();
  std::vector<pc::future<Val>> v;
  auto g = r.chance(50) ? pc::when_all(v.begin(), v.end()) : pc::when_all(std::move(v));
  VS_CHECK(g.valid() && g.is_ready() && g.get().empty(), "when_all of an empty sequence");
  std::vector<pc::shared_future<Val>> s;
  auto h = r.chance(50) ? pc::when_all(s.begin(), s.end()) : pc::when_all(std::move(s));
  VS_CHECK(h.valid() && h.is_ready() && h.get().empty(), "when_all of an empty sequence");
}
// nested combinations, the inputs complete from different threads, results keep the identity of their inputs
SCEN(nested, 3) {
  int n = r.range(2, 4);
  std::deque<In<Val>> ins(n);
  for (auto &i : ins) open(r, i, false, false);
  std::vector<std::thread> ts;
  fire_when(ins, 1, &ts, r);
  fire_when(ins, 2, &ts, r);
  std::vector<pc::future<std::tuple<pc::future<Val>>>> lvl;
  for (auto &i : ins) lvl.push_back(pc::when_all(std::move(i.u)));
  auto all = pc::when_all(std::move(lvl)).next([](std::vector<pc::future<std::tuple<pc::future<Val>>>> v) {
    std::vector<pc::future<Val>> out;
    for (auto &f : v) { VS_CHECK(f.is_ready(), "inner when_all not ready"); out.push_back(std::move(std::get<0>(f.get()))); }
    return out;
  });
  auto v = all.get();
  verify_seq(v, ins, "nested when_all");
  for (auto &t : ts) t.join();
}
// many inputs completing at the same moment from several threads; exactly one completion
SCEN(burst, 4) {
  int n = r.range(2, 6), nt = r.range(2, 3);
  std::vector<pc::promise<long>> ps;
  std::vector<pc::future<long>> fs;
  for (int i = 0; i < n; i++) { auto p = pc::make_promise<long>(); ps.push_back(std::move(p.first)); fs.push_back(std::move(p.second)); }
  vs::Cnt ran, fired;
  std::vector<long> side(n); // written by the producers, plain memory
  std::vector<std::thread> ts;
  bool attach_late = r.chance(50);
  pc::future<std::vector<pc::future<long>>> all;
  pc::future<long> sum;
  auto attach = [&] {
    sum = pc::when_all(std::move(fs)).then([&](pc::future<std::vector<pc::future<long>>> f) {
      if (ran.inc() > 1) vs::fail("continuation of when_all ran twice");
      VS_CHECK(fired.get() == n, "continuation of when_all ran when %ld of %d inputs were produced", fired.get(), n);
      for (int i = 0; i < n; i++) VS_CHECK(side[i] == i + 10, "effects of producer %d not visible in the continuation of when_all", i);
      long s = 0;
      for (auto &x : f.get()) s = s * 7 + x.get();
      return s;
    });
  };
  if (!attach_late) attach();
  for (int k = 0; k < nt; k++) ts.emplace_back([&, k] { for (int i = k; i < n; i += nt) { side[i] = i + 10; fired.inc(); ps[i].set_value(i); } });
  if (attach_late) attach();
  long want = 0;
  for (int i = 0; i < n; i++) want = want * 7 + i;
  VS_CHECK(sum.get() == want, "inputs lost or reordered");
  for (auto &t : ts) t.join();
  VS_CHECK(ran.get() == 1, "continuation ran %ld times", ran.get());
}
// many inputs
SCEN_F(scale, 1, vs::SEQ) {
  static const int sizes[] = {127, 128, 255, 256, 257, 300, 511, 513};
  int n = r.below(300) == 0 ? 65537 : r.chance(60) ? r.range(1, 40) : sizes[r.below(8)];
  if (!vs::sched_mode() && n > 1000) n = 1000;
  bool sh = n < 1000 && r.chance(30);
  std::vector<pc::promise<long>> ps;
  std::vector<pc::future<long>> fs;
  std::vector<pc::shared_future<long>> ss;
  for (int i = 0; i < n; i++) { auto p = pc::make_promise<long>(); ps.push_back(std::move(p.first)); if (sh) ss.push_back(p.second.share()); else fs.push_back(std::move(p.second)); }
  int early = r.below(n), last = r.range(early, n - 1);
  for (int i = 0; i < early; i++) ps[i].set_value(i);
  pc::future<std::vector<pc::future<long>>> f;
  pc::future<std::vector<pc::shared_future<long>>> g;
  if (sh) g = pc::when_all(ss.begin(), ss.end()); else f = r.chance(50) ? pc::when_all(std::move(fs)) : pc::when_all(fs.begin(), fs.end());
  auto rdy = [&] { return sh ? g.is_ready() : f.is_ready(); };
  for (int i = early; i < n; i++) if (i != last) { ps[i].set_value(i); if (i % 64 == 0) VS_CHECK(!rdy(), "ready with %d inputs missing", n - i); }
  VS_CHECK(!rdy(), "ready before the last of %d inputs", n);
  ps[last].set_value(last);
  VS_CHECK(rdy(), "not ready although all %d inputs are", n);
  if (sh) { auto v = g.get(); VS_CHECK((int)v.size() == n, "size"); for (int i = 0; i < n; i++) VS_CHECK(v[i].get() == i, "order"); }
  else { auto v = f.get(); VS_CHECK((int)v.size() == n, "size"); for (int i = 0; i < n; i++) VS_CHECK(v[i].get() == i, "order"); }
}
// the same shared_future given several times: each occurrence is an input of its own
SCEN(repeated, 2) {
  int m = r.range(1, 3), n = r.range(2, 7);
  std::vector<pc::promise<Val>> ps(m);
  std::vector<pc::shared_future<Val>> ss;
  for (auto &p : ps) ss.push_back(p.get_future().share());
  std::vector<Out> want;
  for (int j = 0; j < m; j++) want.push_back(with_ep(random_out(r, 60, 0)));
  std::deque<vs::Cnt> fired(m);
  std::vector<int> pick;
  for (int i = 0; i < n; i++) pick.push_back(r.below(m));
  auto fire = [&](int j) { fired[j].set(1); if (want[j].kind == V) ps[j].set_value(Val(want[j].id)); else ps[j].set_exception(want[j].ep); };
  int early = r.below(m + 1);
  for (int j = 0; j < early; j++) fire(j);
  bool thr = r.chance(40);
  auto check = [&](auto f, auto nth, size_t cnt) {
    std::thread t;
    if (thr) t = std::thread([&] { for (int j = early; j < m; j++) { vs::point(); fire(j); } });
    else for (int j = early; j <= m; j++) {
      bool all = true;
      for (size_t i = 0; i < cnt; i++) all &= pick[i] < j;
      VS_CHECK(f.is_ready() == all, "when_all of repeated inputs: is_ready() == %d", (int)f.is_ready());
      if (j < m) fire(j);
    }
    auto res = f.get();
    for (size_t i = 0; i < cnt; i++) {
      VS_CHECK(fired[pick[i]].get(), "ready early");
      pc::shared_future<Val> &x = nth(res, i);
      VS_CHECK(x.valid() && x.is_ready(), "input %zu not ready in the result", i);
      expect_out(get(x), want[pick[i]], "repeated input");
    }
    if (t.joinable()) t.join();
  };
  std::vector<pc::shared_future<Val>> in;
  for (int i : pick) in.push_back(ss[i]);
  auto vn = [](auto &v, size_t i) -> pc::shared_future<Val> & { return v[i]; };
  switch (r.below(3)) {
  case 0: check(pc::when_all(in.begin(), in.end()), vn, n); break;
  case 1: check(pc::when_all(std::move(in)), vn, n); break;
  default: {
    pick.resize(3, pick[0]);
    if (n < 3) in.push_back(ss[pick[2]]);
    check(pc::when_all(in[0], in[1], in[2]), [](auto &t, size_t i) -> pc::shared_future<Val> & { return i == 0 ? std::get<0>(t) : i == 1 ? std::get<1>(t) : std::get<2>(t); }, 3);
  }
  }
  for (int j = 0; j < m; j++) { VS_CHECK(ss[j].valid() && ss[j].is_ready(), "input consumed"); expect_out(get(ss[j]), want[j], "input after when_all"); }
}
