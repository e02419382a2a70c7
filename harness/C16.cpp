#define TK_MAIN
#include "prod.h"
using namespace tk;

struct LM { // monitor of one latch
  long total = 0;
  vs::Cnt counted;   // what count_down calls have begun to count
  vs::Cnt completed; // what count_down calls have returned
  vs::Cnt seen_open;
  void open_seen(const char *who) {
    VS_CHECK(counted.get() >= total, "%s observed the latch open after only %ld of %ld count-downs were made", who, counted.get(), total);
    seen_open.set(1);
  }
};
// random participants; the latch outlives everybody
SCEN(random_use, 5) {
  LM m;
  int n = r.range(1, 4), extra = r.range(0, 2);
  std::vector<int> kind(n), amount(n);
  for (int i = 0; i < n; i++) {
    kind[i] = r.below(4); // 0,1 count_down(k); 2 count_down_and_wait; 3 several count_downs then wait
    amount[i] = kind[i] == 2 ? 1 : r.range(1, 3);
    m.total += amount[i];
  }
  std::vector<long> data(n, 0); // plain memory published through the latch
  pc::latch l(m.total);
  VS_CHECK(!l.is_ready(), "latch(%ld) open from the beginning", m.total);
  std::vector<std::thread> ts;
  auto after = [&](const char *who) {
    m.open_seen(who);
    VS_CHECK(l.is_ready(), "%s returned but is_ready() is false", who);
    for (int i = 0; i < n; i++) VS_CHECK(data[i] == i + 1, "effects before a count-down are not visible after the wait");
  };
  for (int i = 0; i < n; i++) ts.emplace_back([&, i, q = r.fork()]() mutable {
    vs::point();
    data[i] = i + 1;
    if (kind[i] == 2) { m.counted.inc(); l.count_down_and_wait(); after("count_down_and_wait"); return; }
    if (kind[i] == 3) {
      for (int k = 0; k < amount[i]; k++) { m.counted.inc(); l.count_down(); }
      l.wait();
      after("wait");
    } else if (q.chance(20)) { l.count_down(0); m.counted.inc(amount[i]); l.count_down(amount[i]); }
    else { m.counted.inc(amount[i]); l.count_down(amount[i]); }
    m.completed.inc(amount[i]);
  });
  for (int i = 0; i < extra; i++) ts.emplace_back([&, k = r.below(3)] {
    if (k == 0) { l.wait(); after("wait"); }
    else if (k == 1) { bool was = false; for (int j = 0; j < 4; j++) { bool o = l.is_ready(); VS_CHECK(o || !was, "is_ready() turned back to false"); if (o) { m.open_seen("is_ready"); was = true; } vs::point(); } }
    else { while (!l.is_ready()) std::this_thread::yield(); after("is_ready"); l.wait(); }
  });
  if (r.chance(50)) { l.wait(); after("wait"); }
  for (auto &t : ts) t.join();
  VS_CHECK(l.is_ready(), "latch closed although counted down to zero");
  l.wait();
}
// as soon as it is open any participant destroys it
SCEN(destroyed_by_participant, 6) {
  int n = r.range(1, 4);           // they all count down and wait
  int c = r.below(2);              // plain counters
  int destroyer = r.below(n + c);
  auto *l = new pc::latch(n + c);
  vs::Cnt counted, destroyed;
  std::vector<std::thread> ts;
  for (int i = 0; i < n + c; i++) ts.emplace_back([&, i, cnt_only = i >= n] {
    vs::point();
    counted.inc();
    if (!cnt_only) {
      l->count_down_and_wait();
      VS_CHECK(counted.get() == n + c, "released early");
      if (i == destroyer) { delete l; destroyed.set(1); }
    } else if (i == destroyer) {
      // counts itself, then learns that the latch is open, then destroys it
      l->count_down();
      l->wait();
      VS_CHECK(counted.get() == n + c, "released early");
      delete l;
      destroyed.set(1);
    } else l->count_down();
  });
  for (auto &t : ts) t.join();
  VS_CHECK(destroyed.get(), "not destroyed");
}
// the thread whose count-down opened the latch destroys it right away; waiters registered before
SCEN_F(destroyed_by_opener, 4, vs::SCHED_ONLY) {
  int n = r.range(1, 3), k = r.range(1, 3);
  auto *l = new pc::latch(k);
  vs::Cnt opened, released;
  std::vector<std::thread> ts;
  for (int i = 0; i < n; i++) ts.emplace_back([&] { l->wait(); VS_CHECK(opened.get() == 1, "released early"); released.inc(); });
  vs::quiesce(); // all of them wait now
  VS_CHECK(released.get() == 0, "waiters released before the count-down");
  VS_CHECK(!l->is_ready(), "open early");
  for (int i = 0; i + 1 < k; i++) { l->count_down(); VS_CHECK(!l->is_ready(), "open early"); }
  if (r.chance(50)) vs::quiesce();
  VS_CHECK(released.get() == 0, "waiters released before the last count-down");
  opened.set(1);
  if (r.chance(50)) l->count_down(); else l->count_down_and_wait();
  delete l;
  for (auto &t : ts) t.join();
  VS_CHECK(released.get() == n, "waiters lost");
}
// a waiter destroys it while the opener is still inside count_down
SCEN(destroyed_by_waiter, 5) {
  int n = r.range(1, 3);
  auto *l = new pc::latch(n);
  vs::Cnt counted;
  std::vector<std::thread> ts;
  bool bulk = r.chance(30);
  if (bulk) ts.emplace_back([&] { vs::point(); counted.inc(n); l->count_down(n); });
  else for (int i = 0; i < n; i++) ts.emplace_back([&] { vs::point(); counted.inc(); l->count_down(); });
  if (r.chance(70)) l->wait(); else while (!l->is_ready()) std::this_thread::yield();
  VS_CHECK(counted.get() == n, "open early");
  delete l;
  for (auto &t : ts) t.join();
}
// local latch on the stack of a waiter, the usual pattern
SCEN(stack_latch, 3) {
  pc::static_thread_pool pool(r.range(1, 2));
  for (int k = r.range(1, 2); k > 0; k--) {
    int n = r.range(1, 3);
    long sum[3] = {0, 0, 0};
    pc::latch l(n);
    for (int i = 0; i < n; i++) (void)pc::async(pool.executor(), [&, i] { sum[i] = i + 1; l.count_down(); }).detach();
    l.wait();
    for (int i = 0; i < n; i++) VS_CHECK(sum[i] == i + 1, "released early");
  }
  pool.wait();
}
// count_down never waits for anybody
SCEN_F(never_blocks, 3, vs::SCHED_ONLY) {
  pc::latch l(5);
  vs::Cnt done;
  std::thread w([&] { l.wait(); VS_CHECK(done.get() == 3, "released early"); });
  if (r.chance(50)) vs::quiesce();
  std::thread t([&] { l.count_down(r.range(1, 2)); done.inc(); });
  vs::quiesce();
  VS_CHECK(done.get() == 1, "count_down blocked");
  t.join();
  l.count_down(0);
  VS_CHECK(!l.is_ready(), "open early");
  l.count_down();
  done.inc();
  vs::quiesce();
  done.inc();
  while (!l.is_ready()) l.count_down();
  w.join();
}
SCEN_F(zero, 1, vs::SEQ) {
  pc::latch l(0);
  VS_CHECK(l.is_ready(), "latch(0) not open");
  l.wait();
  if (r.chance(50)) l.count_down(0);
  VS_CHECK(l.is_ready(), "closed again");
}
// the counter is a ptrdiff_t: any magnitude counts exactly
SCEN_F(big_counter, 1, vs::SEQ) {
  static const long base[] = {127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 2147483647L, 2147483648L, 4294967295L, 4294967296L, 4294967297L, 1L << 40, (1L << 62) + 5};
  long left = base[r.below(17)];
  pc::latch l(left);
  VS_CHECK(!l.is_ready(), "latch(%ld) is open", left);
  for (int k = r.below(4); k > 0 && left > 1; k--) {
    long n = r.chance(50) ? left / 2 : r.range(0, 100);
    if (n >= left) n = left - 1;
    l.count_down(n);
    left -= n;
    VS_CHECK(!l.is_ready(), "open with %ld left", left);
  }
  if (r.chance(50)) { l.count_down(left - 1); VS_CHECK(!l.is_ready(), "open with 1 left"); if (r.chance(50)) l.count_down(); else l.count_down_and_wait(); }
  else l.count_down(left);
  VS_CHECK(l.is_ready(), "not open");
  l.wait();
}
