#pragma once
#include "comb.h"

// checks a delivered result; only inputs known to be fired may be the winner
template <class R, class V> static void verify_any(R &res, V &ins, const char *what) {
  VS_CHECK(res.futures.size() == ins.size(), "%s: result holds %zu of %zu inputs", what, res.futures.size(), ins.size());
  if (ins.empty()) { VS_CHECK(res.index == size_t(-1), "%s: index %zu for no inputs", what, res.index); return; }
  VS_CHECK(res.index < ins.size(), "%s: index %zu out of range", what, res.index);
  VS_CHECK(ins[res.index].fired.get(), "%s: index %zu names an input which was not produced", what, res.index);
  for (size_t i = 0; i < ins.size(); i++) VS_CHECK(res.futures[i].valid(), "%s: input %zu invalid in the result", what, i);
  VS_CHECK(res.futures[res.index].is_ready(), "%s: index %zu names an unready input", what, res.index);
  for (size_t i = 0; i < ins.size(); i++) if (!ins[i].fired.get()) VS_CHECK(!res.futures[i].is_ready() || ins[i].fired.get(), "%s: loser %zu ready", what, i);
}
template <class R, class V> static void outcomes(R &res, V &ins, const char *what) {
  for (size_t i = 0; i < ins.size(); i++) expect_out(get(res.futures[i]), ins[i].o, what);
}
template <class Res> static Res take(Rng &r, pc::future<Res> f) {
  switch (r.below(6)) {
  case 0: return f.get();
  case 1: f.wait(); VS_CHECK(f.is_ready(), "not ready after wait"); return f.get();
  case 2: { vs::Cnt n; auto g = f.next([&](Res x) { if (n.inc() > 1) vs::fail("ran twice"); return x; }); return g.get(); }
  case 3: { auto g = f.then([](pc::future<Res> x) { VS_CHECK(x.is_ready(), "unready"); return x.get(); }); return g.get(); }
  case 4: { pc::latch l(1); vs::Cnt n; f.notify([&] { if (n.inc() > 1) vs::fail("notified twice"); l.count_down(); }); l.wait(); return f.get(); }
  default: while (!f.is_ready()) std::this_thread::yield(); return f.get();
  }
}
template <class F> static void vec(Rng &r, bool seq) {
  using X = FutT<F>;
  using T = typename X::type;
  int n = r.range(0, 4);
  std::deque<In<T>> ins(n);
  for (auto &i : ins) open(r, i, X::shared, seq);
  std::vector<std::thread> ts;
  fire_when(ins, 1, &ts, r);
  auto run = [&](auto f) {
    using Res = decltype(f.get());
    VS_CHECK(f.valid(), "invalid future from when_any");
    int ready = 0, conc = 0;
    for (auto &i : ins) { ready += i.when == 0; conc += i.when == 1; }
    // (an input completing right now may have won and be about to make the result ready)
    if ((ready && !conc) || n == 0) VS_CHECK(f.is_ready(), "when_any not ready although %d of %d inputs were ready before the call", ready, n);
    if (seq) {
      vs::Cnt ran;
      size_t first = size_t(-1);
      int how = r.below(3);
      pc::future<Res> g;
      if (how == 1) g = f.then([&](pc::future<Res> x) { ran.inc(); return x; });
      if (how == 2) f.notify([&] { ran.inc(); });
      bool is = ready || n == 0;
      if (how == 0) VS_CHECK(f.is_ready() == is, "is_ready() wrong"); else VS_CHECK(ran.get() == is, "continuation ran %ld times", ran.get());
      std::vector<int> ord;
      for (int i = 0; i < n; i++) if (ins[i].when == 2) ord.push_back(i);
      for (int i = (int)ord.size() - 1; i > 0; i--) std::swap(ord[i], ord[r.below(i + 1)]);
      int now = n && !is ? r.range(1, (int)ord.size()) : r.below((int)ord.size() + 1); // how many are fired before the result is taken
      for (int k = 0; k < now; k++) {
        ins[ord[k]].fire();
        if (!is) { is = true; first = ord[k]; }
        if (how == 0) VS_CHECK(f.is_ready(), "not ready although an input is"); else VS_CHECK(ran.get() == 1, "continuation ran %ld times", ran.get());
      }
      if (how == 1) f = std::move(g);
      Res res = take(r, std::move(f));
      verify_any(res, ins, "when_any sequence");
      if (first != size_t(-1)) VS_CHECK(res.index == first, "index %zu, but input %zu became ready first", res.index, first);
      for (int i = 0; i < n; i++) VS_CHECK(res.futures[i].is_ready() == (ins[i].fired.get() != 0), "input %d: readiness changed by when_any", i);
      size_t idx = res.index;
      for (int k = now; k < (int)ord.size(); k++) { ins[ord[k]].fire(); VS_CHECK(res.futures[ord[k]].is_ready(), "loser disturbed"); }
      VS_CHECK(res.index == idx, "index changed");
      outcomes(res, ins, "input returned by when_any");
      return;
    }
    if (r.chance(12)) { // dropped
      std::thread d([g = std::move(f)]() mutable { vs::point(); g = decltype(g)(); });
      fire_when(ins, 2, nullptr, r);
      d.join();
      return;
    }
    bool others = ready || n == 0;
    for (auto &i : ins) others |= i.when == 1;
    // the late ones are produced concurrently, or only once the result was taken (if somebody else makes it ready)
    bool late_after = others && r.chance(40);
    if (r.chance(25)) { // the shared result is read by several threads while losers become ready
      auto s = f.share();
      std::vector<size_t> seen(2, 77);
      if (!late_after) fire_when(ins, 2, &ts, r);
      std::vector<std::thread> rd;
      for (int k = 0; k < 2; k++) rd.emplace_back([&, k, s] { const Res &x = s.get(); seen[k] = x.index; verify_any(x, ins, "shared when_any result"); VS_CHECK(s.get().index == seen[k], "index changed"); });
      for (auto &t : rd) t.join();
      if (late_after) fire_when(ins, 2, nullptr, r);
      for (auto &t : ts) t.join();
      ts.clear();
      VS_CHECK(seen[0] == seen[1] && s.get().index == seen[0], "readers saw different indices");
      return;
    }
    if (!late_after) fire_when(ins, 2, &ts, r);
    Res res = take(r, std::move(f));
    verify_any(res, ins, "when_any sequence");
    size_t idx = res.index;
    if (late_after) fire_when(ins, 2, nullptr, r);
    outcomes(res, ins, "input returned by when_any"); // blocks until the losers are produced
    VS_CHECK(res.index == idx, "index changed");
  };
  int form = r.below(8);
  if (form == 0) { std::vector<F> v; for (auto &i : ins) v.push_back(X::take(i)); run(pc::when_any(v.begin(), v.end())); if (!X::shared) for (auto &f : v) VS_CHECK(!f.valid(), "unique input not consumed"); else for (auto &f : v) VS_CHECK(f.valid(), "shared input consumed"); }
  else if (form == 1) { std::list<F> v; for (auto &i : ins) v.push_back(X::take(i)); run(pc::when_any(v.begin(), v.end())); }
  else if (form == 2) { std::vector<F> v; for (auto &i : ins) v.push_back(X::take(i)); run(pc::when_any(std::move(v))); }
  else if (form == 3) { std::vector<F, CountAlloc<F>> v; for (auto &i : ins) v.push_back(X::take(i)); run(pc::when_any(std::move(v))); }
  else if (form == 5) { std::vector<F> v; for (auto &i : ins) v.push_back(X::take(i)); run(pc::when_any(Once<F>(v), Once<F>())); }
  else if (form == 6) { std::vector<F> v; for (auto &i : ins) v.push_back(X::take(i)); run(pc::when_any(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()))); }
  else { std::unique_ptr<F[]> v(new F[n]); for (int i = 0; i < n; i++) v[i] = X::take(ins[i]); run(pc::when_any(v.get(), v.get() + n)); }
  for (auto &t : ts) t.join();
  if (X::shared) for (auto &i : ins) { VS_CHECK(i.mine.valid() && i.mine.is_ready(), "shared input no longer usable"); expect_out(get(i.mine), i.o, "shared input after when_any"); }
}
static void clean() { VS_CHECK(g_alloc_blocks.get() == 0, "%ld vector blocks leaked", g_alloc_blocks.get()); }
