#define TK_MAIN
#include "poolkit.h"
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <exception>

// ---------------------------------------------------------------- exceptions without a future: fatal, never lost
// Run body in a forked child. Exit codes: 43 std::terminate was called, 50 the exception reached a caller,
// 0 the program went on as if nothing had happened, others: the engine found something else wrong.
enum { TERMINATED = 43, ESCAPED = 50, SWALLOWED = 0 };
static void die() { _exit(TERMINATED); }
template <class B> static void must_terminate(const char *what, B body) {
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) return; // cannot fork here: nothing observed
  if (pid == 0) {
    alarm(20);
    std::set_terminate(&die);
    try { body(); } catch (...) { _exit(ESCAPED); }
    _exit(SWALLOWED);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  vs::event();
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) return;
  if (WIFEXITED(st) && WEXITSTATUS(st) == TERMINATED) { vs::cover(what); return; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == SWALLOWED) vs::fail("%s: the exception was swallowed, the program went on", what);
  if (WIFEXITED(st) && WEXITSTATUS(st) == ESCAPED) vs::fail("%s: the exception was thrown into the caller of the library", what);
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) return; // machine too slow or out of memory: nothing observed
  vs::fail("%s: child ended with status %x", what, st);
}
SCEN_F(fatal, 1, vs::SCHED_ONLY) {
  Kind k = random_exc(r);
  int n = r.below(3); // harmless tasks around
  switch (r.below(3)) {
  case 0: {
    int nw = r.range(1, 2);
    must_terminate("task of a pool worker", [&] {
      pc::static_thread_pool pool(nw);
      for (int i = 0; i < n; i++) pool_post(pool.executor(), [] {});
      pool_post(pool.executor(), [k] { throw_exc(k, 1); });
      for (int i = 0; i < n; i++) pool_post(pool.executor(), [] {});
      pool.wait();
    });
    break;
  }
  case 1: {
    must_terminate("task run by an attached thread", [&] {
      pc::static_thread_pool pool(0);
      for (int i = 0; i < n; i++) pool_post(pool.executor(), [] {});
      pool_post(pool.executor(), [k] { throw_exc(k, 1); });
      pool_post(pool.executor(), [&] { pool.stop(); });
      pool.attach();
    });
    break;
  }
  default: { // interruptible continuations
    bool shared = r.chance(50), before = r.chance(50), set = r.chance(30);
    int where = r.below(4);
    int when = r.below(3);
    must_terminate("interruptible continuation", [&] {
      pc::static_thread_pool pool(1);
      QueueEx q;
      auto pf = pc::make_promise<Val>();
      std::thread t;
      if (before) pf.first.set_value(Val(1));
      auto fn = [=](pc::promise<long> p) { if (set) p.set_value(3); throw_exc(k, 2); };
      pc::future<long> res;
      auto attach = [&](auto f) {
        using F = decltype(f);
        auto g = [fn](pc::promise<long> p, F) { fn(std::move(p)); };
        switch (where) {
        case 0: res = f.then(g); break;
        case 1: res = f.then(Ex{&q}, g); break;
        case 2: res = f.then(pool.executor(), g); break;
        default: res = f.then(pc::inplace_executor, g); break;
        }
      };
      if (shared) attach(pf.second.share()); else attach(std::move(pf.second));
      if (!before) { if (when == 0) { t = std::thread([&] { try { pf.first.set_value(Val(1)); } catch (...) { _exit(ESCAPED); } }); t.join(); } else pf.first.set_value(Val(1)); }
      q.run_all();
      pool.wait();
    });
  }
  }
}

// ---------------------------------------------------------------- exceptions with a future: delivered, nothing else is disturbed
SCEN(delivered, 20) {
  int nw = r.range(0, 2), na = r.range(nw ? 0 : 1, 1), n = r.range(1, 5);
  std::deque<vs::Cnt> ran(n);
  std::vector<Out> want(n);
  std::vector<pc::future<long>> fs(n);
  vs::Cnt plain, attached;
  {
    pc::static_thread_pool pool(nw);
    QueueEx q;
    InlineEx in;
    std::vector<std::thread> ts;
    for (int i = 0; i < na; i++) ts.emplace_back([&] { try { pool.attach(); } catch (...) { vs::fail("an exception of a function whose result has a future left attach()"); } attached.inc(); });
    int np = 0;
    for (int i = 0; i < n; i++) {
      Out o = r.chance(75) ? Out{random_exc(r), r.range(0, 5)} : Out{V, 7};
      want[i] = o;
      auto fn = [&ran, i, o] { ran[i].inc(); vs::point(); if (o.kind != V) throw_exc(o.kind, o.id); return 7L; };
      try {
        switch (r.below(10)) {
        case 0: fs[i] = pc::async(pool.executor(), fn); break;
        case 1: { pc::packaged_task<long()> t(fn); fs[i] = t.get_future(); post(pool.executor(), std::move(t)); break; }
        case 2: { pc::packaged_task<long()> t(fn); fs[i] = t.get_future(); t(); break; }
        case 3: fs[i] = pc::make_ready_future(3L).next(pool.executor(), [fn](long) { return fn(); }); break;
        case 4: fs[i] = pc::make_ready_future(3L).then([fn](pc::future<long>) { return fn(); }); break;
        case 5: { auto pf = pc::make_promise<long>(); fs[i] = pf.second.share().next([fn](long) { return fn(); }); pf.first.set_value(2); break; }
        case 6: { auto pf = pc::make_promise<void>(); fs[i] = pf.second.then(Ex{&in}, [fn](pc::future<void>) { return fn(); }); pf.first.set_value(); break; }
        case 7: fs[i] = pc::async(Ex{&q}, fn); break;
        case 8: fs[i] = pc::async(pool.executor(), [] { return 4; }).next([fn](int) { return fn(); }); break;
        default: fs[i] = pc::async(pool.executor(), [fn] { return pc::make_ready_future().next(fn); }); break; // unwrapped
        }
        if (r.chance(30)) { pool_post(pool.executor(), [&] { plain.inc(); }); np++; }
        if (r.chance(50)) q.run_all();
      } catch (...) { Out g = classify(); vs::fail("the exception of a function with a future left the library call: %s", g.str()); }
    }
    try { q.run_all(); } catch (...) { vs::fail("the exception of a function with a future reached its executor"); }
    try { for (auto &f : fs) f.wait(); pool.wait(); } catch (...) { vs::fail("wait() threw"); }
    for (auto &t : ts) t.join();
    VS_CHECK(plain.get() == np, "pool ran %ld of %d other tasks after a failing one", plain.get(), np);
    VS_CHECK(attached.get() == na, "attached thread lost");
  }
  for (int i = 0; i < n; i++) { VS_CHECK(ran[i].get() == 1, "function ran %ld times", ran[i].get()); expect_out(get(fs[i]), want[i], "failing function"); }
}

// every result category of the failing function, every way to run it
static void fire(pc::promise<long> &p) { p.set_value(3); }
static void fire(pc::promise<void> &p) { p.set_value(); }
template <class R> static void failing(Rng &r, const char *type) {
  Out o{random_exc(r), r.range(0, 5)};
  vs::Cnt ran;
  auto boom = [&ran, o]() -> R { ran.inc(); throw_exc(o.kind, o.id); std::abort(); };
  QueueEx q;
  bool before = r.chance(50), ex = r.chance(50);
  int mode = r.below(9);
  auto settle = [&](auto g) {
    VS_CHECK(g.valid() && g.is_ready(), "%s mode %d: not delivered", type, mode);
    VS_CHECK(ran.get() == 1, "%s mode %d: ran %ld times", type, mode, ran.get());
    try { (void)g.get(); vs::fail("%s mode %d: no exception", type, mode); } catch (...) { expect_out(classify(), o, "failing function"); }
  };
  auto run = [&](auto attach, auto pf) {
    if (before) fire(pf.first);
    auto g = attach(std::move(pf.second));
    if (!before) fire(pf.first);
    q.run_all();
    settle(std::move(g));
  };
  try {
    switch (mode) {
    case 0: { pc::packaged_task<R()> t(boom); auto f = t.get_future(); t(); settle(std::move(f)); break; }
    case 1: { auto f = pc::async(Ex{&q}, boom); q.run_all(); settle(std::move(f)); break; }
    case 2: run([&](pc::future<long> f) { auto fn = [boom](pc::future<long>) -> R { return boom(); }; return ex ? f.then(Ex{&q}, fn) : f.then(fn); }, pc::make_promise<long>()); break;
    case 3: run([&](pc::future<long> f) { auto fn = [boom](pc::shared_future<long>) -> R { return boom(); }; auto s = f.share(); return ex ? s.then(Ex{&q}, fn) : s.then(fn); }, pc::make_promise<long>()); break;
    case 4: run([&](pc::future<long> f) { auto fn = [boom](long) -> R { return boom(); }; return ex ? f.next(Ex{&q}, fn) : f.next(fn); }, pc::make_promise<long>()); break;
    case 5: run([&](pc::future<long> f) { auto fn = [boom](const long &) -> R { return boom(); }; auto s = f.share(); return ex ? s.next(Ex{&q}, fn) : s.next(fn); }, pc::make_promise<long>()); break;
    case 6: run([&](pc::future<void> f) { return ex ? f.next(Ex{&q}, boom) : f.next(boom); }, pc::make_promise<void>()); break;
    case 7: run([&](pc::future<void> f) { auto s = f.share(); return ex ? s.next(Ex{&q}, boom) : s.next(boom); }, pc::make_promise<void>()); break;
    default: run([&](pc::future<void> f) { auto fn = [boom](pc::future<void>) -> R { return boom(); }; return ex ? f.then(Ex{&q}, fn) : f.then(fn); }, pc::make_promise<void>()); break;
    }
  } catch (...) { vs::fail("%s mode %d: the exception left the library call", type, mode); }
}
SCEN_F(result_types, 5, vs::SEQ) {
  switch (r.below(9)) {
  case 0: failing<void>(r, "void"); break;
  case 1: failing<Val>(r, "Val"); break;
  case 2: failing<long &>(r, "long &"); break;
  case 3: failing<const std::string &>(r, "const std::string &"); break;
  case 4: failing<pc::future<void>>(r, "future<void>"); break;
  case 5: failing<pc::future<Val>>(r, "future<Val>"); break;
  case 6: failing<pc::future<long &>>(r, "future<long &>"); break;
  case 7: failing<pc::shared_future<void>>(r, "shared_future<void>"); break;
  default: failing<pc::shared_future<long>>(r, "shared_future<long>"); break;
  }
}
