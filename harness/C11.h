#pragma once
#include "comb.h"

template <class Seq, class V> static void verify_seq(Seq &res, V &ins, const char *what) {
  VS_CHECK(res.size() == ins.size(), "%s: result holds %zu of %zu inputs", what, res.size(), ins.size());
  for (size_t i = 0; i < ins.size(); i++) {
    VS_CHECK(ins[i].fired.get(), "%s: ready before input %zu", what, i);
    VS_CHECK(res[i].valid(), "%s: input %zu invalid in the result", what, i);
    VS_CHECK(res[i].is_ready(), "%s: input %zu not ready in the result", what, i);
    expect_out(get(res[i]), ins[i].o, what);
  }
}
// consume the combined future in several ways; `verify` is called exactly once with the sequence
template <class Seq, class Vf> static void consume(Rng &r, pc::future<Seq> f, Vf verify) {
  vs::Cnt n;
  switch (r.below(6)) {
  case 0: { Seq s = f.get(); n.inc(); verify(s); break; }
  case 1: f.wait(); { VS_CHECK(f.is_ready(), "not ready after wait"); Seq s = f.get(); n.inc(); verify(s); } break;
  case 2: f.next([&](Seq s) { n.inc(); verify(s); }).get(); break;
  case 3: f.then([&](pc::future<Seq> g) { Seq s = g.get(); n.inc(); verify(s); }).get(); break;
  case 4: { pc::latch l(1); f.notify([&] { l.count_down(); }); l.wait(); Seq s = f.get(); n.inc(); verify(s); break; }
  default: { while (!f.is_ready()) std::this_thread::yield(); Seq s = f.get(); n.inc(); verify(s); break; }
  }
  VS_CHECK(n.get() == 1, "result delivered %ld times", n.get());
}

template <class F> static void vec(Rng &r, bool seq) {
  using X = FutT<F>;
  using T = typename X::type;
  int n = r.range(0, 4);
  std::deque<In<T>> ins(n);
  for (auto &i : ins) open(r, i, X::shared, seq);
  std::vector<std::thread> ts;
  fire_when(ins, 1, &ts, r);
  bool late_after = seq; // fire the late ones here, or from threads
  auto run = [&](auto f) {
    using Seq = decltype(f.get());
    VS_CHECK(f.valid(), "invalid future from when_all");
    if (seq) {
      int left = 0;
      for (auto &i : ins) left += i.when == 2;
      VS_CHECK(f.is_ready() == (left == 0), "when_all of %d inputs, %d of them pending: is_ready() == %d", n, left, (int)f.is_ready());
      int how = r.below(3);
      vs::Cnt ran;
      pc::future<Seq> g;
      if (how == 1) g = f.then([&](pc::future<Seq> x) { ran.inc(); return x; });
      if (how == 2) f.notify([&] { ran.inc(); });
      for (auto &i : ins) if (i.when == 2) {
        if (how == 0) VS_CHECK(!f.is_ready(), "ready early");
        else VS_CHECK(ran.get() == 0, "continuation ran early");
        i.fire();
        left--;
        if (how == 0) VS_CHECK(f.is_ready() == (left == 0), "%d inputs pending: is_ready() == %d", left, (int)f.is_ready());
        else VS_CHECK(ran.get() == (left == 0), "%d inputs pending: continuation ran %ld times", left, ran.get());
      }
      if (how == 1) f = std::move(g);
      VS_CHECK(f.is_ready(), "not ready although every input is");
      consume(r, std::move(f), [&](Seq &s) { verify_seq(s, ins, "when_all sequence"); });
    } else {
      if (n == 0) VS_CHECK(f.is_ready(), "when_all of nothing not ready");
      if (r.chance(15)) { // dropped
        std::thread d([g = std::move(f)]() mutable { vs::point(); g = decltype(g)(); });
        fire_when(ins, 2, nullptr, r);
        d.join();
      } else if (r.chance(40)) { // everything is ready before looking: must be ready without waiting
        fire_when(ins, 2, &ts, r);
        for (auto &t : ts) t.join();
        ts.clear();
        VS_CHECK(f.is_ready(), "not ready although every input is");
        consume(r, std::move(f), [&](Seq &s) { verify_seq(s, ins, "when_all sequence"); });
      } else {
        fire_when(ins, 2, &ts, r);
        consume(r, std::move(f), [&](Seq &s) { verify_seq(s, ins, "when_all sequence"); });
      }
    }
  };
  (void)late_after;
  int form = r.below(8);
  if (form == 0) { std::vector<F> v; for (auto &i : ins) v.push_back(X::take(i)); run(pc::when_all(v.begin(), v.end())); if (!X::shared) for (auto &f : v) VS_CHECK(!f.valid(), "unique input not consumed"); else for (auto &f : v) VS_CHECK(f.valid(), "shared input consumed"); }
  else if (form == 1) { std::list<F> v; for (auto &i : ins) v.push_back(X::take(i)); run(pc::when_all(v.begin(), v.end())); }
  else if (form == 2) { std::vector<F> v; for (auto &i : ins) v.push_back(X::take(i)); run(pc::when_all(std::move(v))); }
  else if (form == 3) { std::vector<F, CountAlloc<F>> v; for (auto &i : ins) v.push_back(X::take(i)); run(pc::when_all(std::move(v))); }
  else if (form == 5) { std::vector<F> v; for (auto &i : ins) v.push_back(X::take(i)); run(pc::when_all(Once<F>(v), Once<F>())); }
  else if (form == 6) { std::vector<F> v; for (auto &i : ins) v.push_back(X::take(i)); run(pc::when_all(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()))); }
  else { std::unique_ptr<F[]> v(new F[n]); for (int i = 0; i < n; i++) v[i] = X::take(ins[i]); run(pc::when_all(v.get(), v.get() + n)); }
  for (auto &t : ts) t.join();
  if (X::shared) for (auto &i : ins) { VS_CHECK(i.mine.valid() && i.mine.is_ready(), "shared input no longer usable"); expect_out(get(i.mine), i.o, "shared input after when_all"); }
}
static void clean() { VS_CHECK(g_alloc_blocks.get() == 0, "%ld vector blocks leaked", g_alloc_blocks.get()); }
