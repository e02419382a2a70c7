#include "prod.h"
using namespace tk;
// is_ready never reverts and readiness is permanent for every observer
template <class T> static void monotone(Rng &r) {
  Producer<T> p = make_producer<T>(r);
  Out o = with_ep(random_out(r, 65, 10));
  auto s = p.fut.share();
  int n = r.range(1, 3);
  std::vector<std::thread> ts;
  vs::Cnt known; // some thread saw it ready (its tick)
  for (int i = 0; i < n; i++)
    ts.emplace_back([&, c = s] {
      bool seen = false;
      for (int k = 0; k < 6; k++) {
        bool was = known.get() != 0;
        bool a = c.is_ready();
        if (seen && !a) vs::fail("is_ready() reverted to false");
        if (was && !a) vs::fail("is_ready() is false although another copy was ready before");
        if (a) { seen = true; known.set(1); }
        VS_CHECK(c.valid(), "copy invalid");
        vs::point();
      }
      expect_out(get(c), norm<T>(o), "get");
      VS_CHECK(c.is_ready(), "is_ready() reverted to false");
    });
  ts.emplace_back([&] { vs::point(); p.impl->fire(o); known.set(1); });
  for (auto &t : ts) t.join();
  VS_CHECK(s.is_ready(), "not ready after the outcome was produced");
}
SCEN(monotone_val, 2) { monotone<Val>(r); }
SCEN(monotone_void, 1) { monotone<void>(r); }

// failing and succeeding attempts to satisfy one promise from several threads one after another
SCEN(handed_over, 2) {
  auto pr = pc::make_promise<Val>();
  auto s = pr.second.share();
  std::mutex m;
  pc::promise<Val> p = std::move(pr.first);
  vs::Cnt ok, bad;
  int n = r.range(2, 4);
  std::vector<std::thread> ts;
  std::vector<int> what;
  for (int i = 0; i < n; i++) what.push_back(r.below(4));
  for (int i = 0; i < n; i++)
    ts.emplace_back([&, i] {
      std::lock_guard<std::mutex> g(m);
      try {
        if (what[i] == 0) p.set_exception(make_exc(E_CUSTOM, i));
        else if (what[i] == 1) { pc::promise<Val> q(std::move(p)); try { q.set_value(Val(i)); } catch (...) { p = std::move(q); throw; } p = std::move(q); }
        else p.set_value(Val(i));
        ok.inc();
      } catch (const std::future_error &e) { VS_CHECK(e.code() == std::future_errc::promise_already_satisfied, "wrong error code"); bad.inc(); }
    });
  Out first = get(s);
  for (auto &t : ts) t.join();
  VS_CHECK(ok.get() == 1 && bad.get() == n - 1, "%ld attempts succeeded, %ld failed", ok.get(), bad.get());
  Out again = get(s);
  VS_CHECK(first.same(again), "the stored outcome changed");
}
