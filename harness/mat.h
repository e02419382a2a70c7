// The attach matrix: every way of attaching a function (unique or shared parent; next, then, interruptible
// then; with or without executor; plain, void, reference, move-only, future or shared_future result; argument
// taken by value or by reference; callable given as an lvalue or as a move-only rvalue) behind a type erased
// handle, together with the sequential reference evaluation of each link.
#pragma once
#include "prod.h"
namespace mat {
using namespace tk;
enum { NEXT, THEN, INTR };
enum { T_VOID, T_VAL, T_MOVE, T_REF, NT };
inline long norm_id(int t, const Out &o) { return o.kind == V && t == T_VOID ? 0 : o.id; }

struct Act {
  virtual void go() = 0;
  virtual ~Act() = default;
};
struct Late { // inner futures and kept promises resolved later
  std::mutex m;
  std::deque<std::unique_ptr<Act>> v;
  void add(std::unique_ptr<Act> a) { std::lock_guard<std::mutex> g(m); v.push_back(std::move(a)); }
  bool empty() { std::lock_guard<std::mutex> g(m); return v.empty(); }
  bool resolve() {
    std::deque<std::unique_ptr<Act>> w;
    { std::lock_guard<std::mutex> g(m); w.swap(v); }
    bool any = !w.empty();
    for (auto &a : w) { a->go(); a.reset(); }
    return any;
  }
};
struct Probe {
  int op = 0, rk = 0, rt = 0, how = 0, no = 0;
  bool want_run = true, pass = false;
  Out in, what, out; // entering the link, produced by the function, leaving the link
  vs::Cnt runs, alive;
  Late *late = nullptr;
  void (*on_run)(Probe *) = nullptr;
  vs::Cnt gate; // for the users of the matrix
  ExecImpl *exec = nullptr;
  int owner = -1;
  const char *str() const {
    static const char *n[3][3] = {{"next", "next->future", "next->shared_future"}, {"then", "then->future", "then->shared_future"}, {"interruptible then", "", ""}};
    return n[op][rk];
  }
};
[[noreturn]] inline void raise(const Out &o) {
  if (o.ep) std::rethrow_exception(o.ep);
  throw_exc(o.kind, o.id);
}
struct AF;
using AFp = std::unique_ptr<AF>;
struct AF { // some future<T> or shared_future<T>
  int t = 0;
  bool shared = false;
  virtual ~AF() = default;
  virtual bool valid() = 0;
  virtual bool ready() = 0;
  virtual void wait() = 0;
  virtual int wait_for_ms(int ms, bool waiter) = 0; // 0 ready, 1 timeout
  virtual Out get() = 0;
  virtual const void *addr() = 0;                   // shared, ready with a value: address of the result
  virtual AFp share() = 0;                          // consumes a unique one
  virtual AFp dup() = 0;                            // shared only
  virtual AFp detach() = 0;
  virtual AFp attach(Probe &p, const Ex *ex) = 0;   // consumes a unique one; uses p.op, p.rt, p.rk
  virtual void notify(Probe &p, const Ex *ex) = 0;  // p.runs counts
};
struct Src {
  AFp f;
  std::unique_ptr<FireImpl> fire;
  vs::Cnt *runs = nullptr; // of the producer's own function, valid while `fire` lives
};
Src source(Rng &r, int t, const Out *ready); // ready: make an already satisfied one
AFp wrap(pc::future<void> f);
AFp wrap(pc::future<Val> f);
AFp wrap(pc::future<MVal> f);
AFp wrap(pc::future<long &> f);
AFp wrap(pc::shared_future<void> f);
AFp wrap(pc::shared_future<Val> f);
AFp wrap(pc::shared_future<MVal> f);
AFp wrap(pc::shared_future<long &> f);

inline Out random_result(Rng &r, int pct_value, int pct_broken) { return with_ep(random_out(r, pct_value, pct_broken)); }
// choose a link for a parent with outcome `in`
inline void plan(Rng &r, Probe &p, const Out &in, Late *late, int pct_value = 70, bool allow_late = true) {
  p.in = in;
  p.late = late;
  int k = r.below(10);
  p.op = k < 5 ? NEXT : k < 8 ? THEN : INTR;
  p.rt = r.below(NT);
  p.rk = p.op == INTR ? 0 : r.below(3);
  p.pass = p.op == THEN && r.chance(30);
  p.want_run = p.op != NEXT || in.kind == V;
  p.what = random_result(r, pct_value, p.op == INTR || p.rk ? 8 : 0);
  p.how = r.below(allow_late ? 2 : 1);
  if (p.rk && p.what.kind == BROKEN && r.chance(50)) p.how = 2;
  if (p.rk && p.what.kind != V && p.what.kind != BROKEN && r.chance(50)) p.how = 3;
  p.out = !p.want_run ? in : p.pass && in.kind != V ? in : p.what;
  p.out.id = norm_id(p.rt, p.out);
}
struct World {
  Late late;
  std::deque<Probe> ps;
  Execs ex;
  Probe &link(Rng &r, const Out &in, int pct_value = 70, bool allow_late = true) {
    ps.emplace_back();
    ps.back().no = (int)ps.size() - 1;
    plan(r, ps.back(), in, &late, pct_value, allow_late);
    return ps.back();
  }
  // nothing else is posting or resolving any more: let everything come to rest
  void settle() {
    for (;;) {
      bool a = late.resolve();
      ex.drain();
      if (ex.pool) ex.pool->idle();
      std::lock_guard<std::mutex> g(ex.threads.m);
      if (!a && late.empty() && ex.queue.size() == 0 && ex.threads.ts.empty()) break;
    }
  }
};
} // namespace mat
