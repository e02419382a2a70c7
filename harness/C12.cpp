#define TK_MAIN
#include "C12.h"
vs::Cnt g_alloc_blocks;

// heterogeneous arguments
SCEN(tuple, 4) {
  In<Val> a;
  In<void> b;
  In<long &> c;
  In<MVal> d;
  open(r, a, true, false);
  open(r, b, false, false);
  open(r, c, false, false);
  open(r, d, false, false);
  struct Px { std::function<void()> fire; int when, thread; };
  std::deque<Px> px;
  px.push_back({[&] { a.fire(); }, a.when, a.thread});
  px.push_back({[&] { b.fire(); }, b.when, b.thread});
  px.push_back({[&] { c.fire(); }, c.when, c.thread});
  px.push_back({[&] { d.fire(); }, d.when, d.thread});
  std::vector<std::thread> ts;
  fire_when(px, 1, &ts, r);
  bool ready = a.when == 0 || b.when == 0 || c.when == 0 || d.when == 0;
  bool conc = a.when == 1 || b.when == 1 || c.when == 1 || d.when == 1;
  auto f = pc::when_any(std::move(c.u), a.s, std::move(b.u), std::move(d.u), a.s);
  VS_CHECK(f.valid(), "invalid");
  if (ready && !conc) VS_CHECK(f.is_ready(), "when_any not ready although an input was ready before the call");
  bool late_after = (ready || conc) && r.chance(50);
  if (!late_after) fire_when(px, 2, &ts, r);
  auto res = take(r, std::move(f));
  long fired[5] = {c.fired.get(), a.fired.get(), b.fired.get(), d.fired.get(), a.fired.get()};
  VS_CHECK(res.index < 5, "index out of range");
  VS_CHECK(fired[res.index], "index %zu names an input which was not produced", res.index);
  auto &t = res.futures;
  VS_CHECK(std::get<0>(t).valid() && std::get<1>(t).valid() && std::get<2>(t).valid() && std::get<3>(t).valid() && std::get<4>(t).valid(), "input invalid in the result");
  bool rd[5] = {std::get<0>(t).is_ready(), std::get<1>(t).is_ready(), std::get<2>(t).is_ready(), std::get<3>(t).is_ready(), std::get<4>(t).is_ready()};
  VS_CHECK(rd[res.index], "index %zu names an unready input", res.index);
  if (late_after) {
    if (c.when == 2) VS_CHECK(!rd[0], "loser ready");
    if (a.when == 2) VS_CHECK(!rd[1] && !rd[4], "loser ready");
    if (b.when == 2) VS_CHECK(!rd[2], "loser ready");
    if (d.when == 2) VS_CHECK(!rd[3], "loser ready");
    fire_when(px, 2, nullptr, r);
  }
  expect_out(get(std::get<0>(t)), c.o, "arg 0");
  expect_out(get(std::get<1>(t)), a.o, "arg 1");
  expect_out(get(std::get<2>(t)), b.o, "arg 2");
  expect_out(get(std::get<3>(t)), d.o, "arg 3");
  expect_out(get(std::get<4>(t)), a.o, "arg 4");
  for (auto &x : ts) x.join();
  VS_CHECK(a.s.valid(), "shared lvalue input consumed");
  expect_out(get(a.mine), a.o, "shared input after when_any");
}
SCEN_F(empty, 1, vs::SEQ) {
  auto f = pc::when_any();
  VS_CHECK(f.valid() && f.is_ready() && f.get().index == size_t(-1), "when_any()");
  std::vector<pc::future<Val>> v;
  auto g = r.chance(50) ? pc::when_any(v.begin(), v.end()) : pc::when_any(std::move(v));
  VS_CHECK(g.valid() && g.is_ready(), "when_any of an empty sequence not ready");
  auto x = g.get();
  VS_CHECK(x.index == size_t(-1) && x.futures.empty(), "when_any of an empty sequence");
  std::vector<pc::shared_future<Val>> s;
  auto h = r.chance(50) ? pc::when_any(s.begin(), s.end()) : pc::when_any(std::move(s));
  VS_CHECK(h.valid() && h.is_ready(), "when_any of an empty sequence not ready");
  auto y = h.get();
  VS_CHECK(y.index == size_t(-1) && y.futures.empty(), "when_any of an empty sequence");
}
// simultaneous completion: one notification, consistent index, losers keep their values
SCEN(burst, 5) {
  int n = r.range(2, 5), nt = r.range(2, 3);
  std::vector<pc::promise<long>> ps;
  std::vector<pc::future<long>> fs;
  for (int i = 0; i < n; i++) { auto p = pc::make_promise<long>(); ps.push_back(std::move(p.first)); fs.push_back(std::move(p.second)); }
  vs::Cnt ran;
  std::deque<vs::Cnt> fired(n);
  std::vector<long> side(n); // written by the producers, plain memory
  std::vector<std::thread> ts;
  using Res = pc::when_any_result<std::vector<pc::future<long>>>;
  pc::future<long> idx;
  std::vector<pc::future<long>> losers;
  size_t won = 99;
  auto attach = [&] {
    idx = pc::when_any(std::move(fs)).then([&](pc::future<Res> f) {
      if (ran.inc() > 1) vs::fail("continuation of when_any ran twice");
      Res x = f.get();
      VS_CHECK(x.index < (size_t)n && fired[x.index].get(), "index %zu names an input that was not produced", x.index);
      won = x.index;
      VS_CHECK(side[won] == (long)won + 10, "effects of the winning producer not visible in the continuation of when_any");
      losers = std::move(x.futures);
      return losers[won].get();
    });
  };
  bool late = r.chance(50);
  if (!late) attach();
  for (int k = 0; k < nt; k++) ts.emplace_back([&, k] { for (int i = k; i < n; i += nt) { side[i] = i + 10; fired[i].set(1); ps[i].set_value(i); } });
  if (late) attach();
  long v = idx.get();
  VS_CHECK((size_t)v == won, "winner carries the value of another input");
  for (int i = 0; i < n; i++) if (i != v) VS_CHECK(losers[i].get() == i, "loser %d lost its value", i);
  for (auto &t : ts) t.join();
  VS_CHECK(ran.get() == 1, "continuation ran %ld times", ran.get());
}
// a loser is combined again (README pattern: take the fastest until all are consumed)
SCEN(rounds, 3) {
  int n = r.range(2, 4);
  std::vector<pc::promise<long>> ps;
  std::vector<pc::future<long>> fs;
  for (int i = 0; i < n; i++) { auto p = pc::make_promise<long>(); ps.push_back(std::move(p.first)); fs.push_back(std::move(p.second)); }
  std::vector<std::thread> ts;
  for (int k = 0; k < 2; k++) ts.emplace_back([&, k] { for (int i = k; i < n; i += 2) { vs::point(); ps[i].set_value(1L << i); } });
  long mask = 0;
  while (!fs.empty()) {
    auto x = pc::when_any(std::move(fs)).get();
    long v = x.futures[x.index].get();
    VS_CHECK(!(mask & v), "input delivered twice");
    mask |= v;
    fs = std::move(x.futures);
    fs.erase(fs.begin() + x.index);
  }
  VS_CHECK(mask == (1L << n) - 1, "inputs lost");
  for (auto &t : ts) t.join();
}
// many inputs
SCEN_F(scale, 1, vs::SEQ) {
  static const int sizes[] = {127, 128, 129, 255, 256, 257, 300, 513};
  int n = r.below(300) == 0 ? 65600 : r.chance(60) ? r.range(4, 40) : sizes[r.below(8)];
  if (!vs::sched_mode() && n > 1000) n = 1000;
  std::vector<pc::promise<long>> ps;
  std::vector<pc::future<long>> fs;
  for (int i = 0; i < n; i++) { auto p = pc::make_promise<long>(); ps.push_back(std::move(p.first)); fs.push_back(std::move(p.second)); }
  int win = r.chance(50) ? n - 1 - r.below(3) : r.below(n), second = r.below(n);
  bool before = r.chance(30);
  if (before) ps[win].set_value(win);
  auto f = r.chance(50) ? pc::when_any(std::move(fs)) : pc::when_any(fs.begin(), fs.end());
  VS_CHECK(f.is_ready() == before, "when_any of %d inputs %sready", n, before ? "not " : "");
  if (!before) ps[win].set_value(win);
  VS_CHECK(f.is_ready(), "when_any not ready");
  if (second != win) ps[second].set_value(second);
  auto x = f.get();
  VS_CHECK(x.index == (size_t)win, "index %zu of the result, %d became ready first", x.index, win);
  VS_CHECK((int)x.futures.size() == n, "size");
  for (int i = 0; i < n; i++) VS_CHECK(x.futures[i].valid() && x.futures[i].is_ready() == (i == win || i == second), "input %d changed", i);
  VS_CHECK(x.futures[win].get() == win, "winner");
}
// the same shared_future given several times
SCEN(repeated, 2) {
  int m = r.range(1, 3), n = r.range(2, 6);
  std::vector<pc::promise<Val>> ps(m);
  std::vector<pc::shared_future<Val>> ss, in;
  for (auto &p : ps) ss.push_back(p.get_future().share());
  std::deque<vs::Cnt> fired(m);
  std::vector<int> pick;
  for (int i = 0; i < n; i++) { pick.push_back(r.below(m)); in.push_back(ss[pick[i]]); }
  auto fire = [&](int j) { fired[j].set(1); ps[j].set_value(Val(j)); };
  int early = r.chance(30) ? r.below(m) : -1;
  if (early >= 0) fire(early);
  auto used = [&](int j) { for (int x : pick) if (x == j) return true; return false; };
  auto f = r.chance(50) ? pc::when_any(in.begin(), in.end()) : pc::when_any(in);
  bool is = early >= 0 && used(early);
  VS_CHECK(f.is_ready() == is, "is_ready() == %d", (int)f.is_ready());
  if (r.chance(40)) {
    std::thread t([&] { for (int j = 0; j < m; j++) if (j != early) { vs::point(); fire(j); } });
    auto res = f.get();
    VS_CHECK(res.index < (size_t)n && fired[pick[res.index]].get() && res.futures[res.index].is_ready(), "index %zu", res.index);
    for (int i = 0; i < n; i++) VS_CHECK(res.futures[i].get().id() == pick[i], "input %d", i);
    t.join();
  } else {
    int first = is ? early : -1;
    for (int j = m - 1; j >= 0; j--) if (j != early) { fire(j); if (first < 0 && used(j)) first = j; VS_CHECK(f.is_ready() == (first >= 0), "is_ready() == %d", (int)f.is_ready()); }
    auto res = f.get();
    VS_CHECK(res.index < (size_t)n && pick[res.index] == first, "index %zu does not name the input which became ready first", res.index);
    for (int i = 0; i < n; i++) VS_CHECK(res.futures[i].valid() && res.futures[i].get().id() == pick[i], "input %d", i);
  }
}
