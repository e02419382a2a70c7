#pragma once
#include "prod.h"
using namespace tk;

template <class T> static void deliver(Rng &r) {
  Producer<T> p = make_producer<T>(r);
  Out o = with_ep(random_out(r, 65, 10));
  int mode = r.below(3); // fired before / concurrently with / after the consumer attached
  Rng cr = r.fork();
  Out got;
  if (mode == 0) {
    p.impl->fire(o);
    VS_CHECK(p.fut.is_ready(), "%s: future not ready after the outcome was produced", p.name);
    got = observe(cr, std::move(p.fut));
  } else {
    std::thread t([&] { vs::point(); p.impl->fire(o); });
    got = observe(cr, std::move(p.fut));
    t.join();
  }
  expect_out(got, norm<T>(o), p.name);
}
