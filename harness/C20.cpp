#define TK_MAIN
#include "C20.h"
#include "matscen.h"
SCEN(copies_val, 4) { copies<Val>(r); }
SCEN(copies_void, 2) { copies<void>(r); }

// concurrent copying, assigning and dropping of copies from one source (read only access to the source)
SCEN(copy_storm, 4) {
  auto p = pc::make_promise<Val>();
  const pc::shared_future<Val> root = p.second.share();
  int n = r.range(2, 4);
  Out o = with_ep(random_out(r, 70, 10));
  std::vector<std::thread> ts;
  std::vector<Rng> rs;
  for (int i = 0; i < n; i++) rs.push_back(r.fork());
  for (int i = 0; i < n; i++)
    ts.emplace_back([&, i] {
      Rng &q = rs[i];
      pc::shared_future<Val> a, b(root);
      for (int k = q.range(1, 5); k > 0; k--) {
        switch (q.below(8)) {
        case 0: a = root; break;
        case 1: b = a; break;
        case 2: a = std::move(b); VS_CHECK(!b.valid(), "moved from shared_future is valid"); break;
        case 3: { auto &ref = a; a = ref; break; }
        case 4: if (root.is_ready()) { Out x = get(root); expect_out(x, o, "get through the common object"); } break;
        case 5: { auto g = root.then([](pc::shared_future<Val> f) { return get(f); }); if (q.chance(50)) { Out x = get_out(std::move(g)); expect_out(x, o, "then"); } break; }
        case 6: std::swap(a, b); break;
        default: { Out x = get(root); expect_out(x, o, "get through the common object"); break; }
        }
      }
      if (a.valid()) expect_out(get(a), o, "get through a copy");
    });
  vs::point();
  satisfy(std::move(p.first), o);
  for (auto &t : ts) t.join();
  expect_out(get(root), o, "get");
}
// the value is neither moved nor modified by any chain of consumers, whatever the consumers do with what they got
SCEN_F(untouched, 4, vs::SEQ) {
  auto pr = pc::make_promise<Val>();
  auto s = pr.second.share();
  std::vector<pc::shared_future<Val>> keep(r.range(0, 2), s);
  std::vector<pc::future<long>> outs;
  bool set = false;
  int n = r.range(1, 8);
  const Val *addr = nullptr;
  std::vector<QueueEx> q(1);
  for (int i = 0; i < n; i++) {
    if (!set && r.chance(25)) { pr.first.set_value(Val(17)); set = true; addr = &s.get(); }
    switch (r.below(9)) {
    case 0: outs.push_back(s.next([](Val v) { long x = v.id(); v = Val(0); return x; })); break;
    case 1: outs.push_back(s.next(Ex{&q[0]}, [](auto &&v) { Val w(std::forward<decltype(v)>(v)); return w.id(); })); break;
    case 2: outs.push_back(s.then([](pc::shared_future<Val> f) { Val w(std::move(f.get())); return w.id(); })); break;
    case 3: outs.push_back(s.then([](pc::shared_future<Val> f) { return f.get(); }).next([](Val v) { return v.id(); })); break;
    case 4: outs.push_back(s.next([](const Val &v) { return v; }).next([](Val v) { Val w(std::move(v)); return w.id(); })); break;
    case 5: outs.push_back(s.then([](pc::shared_future<Val> f) { return f; }).next([](auto &&v) { Val w(std::forward<decltype(v)>(v)); return w.id(); })); break;
    case 6: outs.push_back(s.then([](pc::promise<long> p, pc::shared_future<Val> f) { Val w(std::move(f.get())); p.set_value(w.id()); })); break;
    case 7: { auto g = pc::when_all(s, s).next([](std::tuple<pc::shared_future<Val>, pc::shared_future<Val>> t) { Val w(std::get<0>(std::move(t)).get()); return w.id(); }); outs.push_back(std::move(g)); break; }
    default: outs.push_back(pc::async(Ex{&q[0]}, [s]() mutable { return std::move(s); }).next([](auto &&v) { Val w(std::forward<decltype(v)>(v)); return w.id(); })); break;
    }
    VS_CHECK(s.valid(), "attaching invalidated a shared_future");
    q[0].run_all();
  }
  if (!set) { pr.first.set_value(Val(17)); addr = &s.get(); }
  q[0].run_all();
  VS_CHECK(s.get().id() == 17 && &s.get() == addr, "stored value damaged by its consumers");
  for (auto &f : outs) { q[0].run_all(); VS_CHECK(f.get() == 17, "consumer got a damaged value"); }
  VS_CHECK(s.get().id() == 17 && &s.get() == addr, "stored value damaged by its consumers");
  for (auto &k : keep) VS_CHECK(&k.get() == addr && k.get().id() == 17, "copies disagree");
}
// a shared result produced by unwrapping leaves the inner shared_future intact
SCEN(unwrap_inner, 3) {
  auto pr = pc::make_promise<Val>();
  auto s = pr.second.share();
  auto t0 = pc::make_promise<void>();
  int k = r.below(3);
  pc::shared_future<Val> out;
  pc::future<Val> uout;
  if (k == 0) out = t0.second.then([s](pc::future<void>) { return s; });
  else if (k == 1) out = t0.second.next([s] { return s; });
  else out = pc::packaged_task<pc::shared_future<Val>()>([s] { return s; }).get_future(); // abandoned at once
  std::vector<std::thread> ts;
  ts.emplace_back([&] { vs::point(); t0.first.set_value(); });
  ts.emplace_back([&] { vs::point(); pr.first.set_value(Val(8)); });
  ts.emplace_back([&, c = s]() mutable { VS_CHECK(c.get().id() == 8, "inner value damaged"); c = pc::shared_future<Val>(); });
  Out o = get(out);
  if (k == 2) VS_CHECK(o.kind == BROKEN, "abandoned"); else VS_CHECK(o.kind == V && o.id == 8, "unwrapped value");
  if (k != 2) { auto c = out; Val w(std::move(c.get())); VS_CHECK(w.id() == 8, "unwrapped"); }
  for (auto &t : ts) t.join();
  VS_CHECK(s.get().id() == 8, "value of the inner shared_future damaged by unwrapping");
}

// over every way of attaching a function
SCEN(mat_shared, 3) { mat::shared_value(r, false); }
SCEN(mat_shared_t, 3) { mat::shared_value(r, true); }
