#pragma once
#include "prod.h"
using namespace tk;

// Reference model: cells are results, handles are the objects of the user.
// Continuations are identities, so a cell attached to another one has its outcome.
struct Cell {
  bool ready = false;
  Out out;
  int handles = 0;          // futures and shared_futures referring to it
  bool detached = false;    // kept alive until ready
  std::vector<int> children; // cells computed from this one, not ready yet
};
enum PState { P_NONE, P_FRESH, P_TAKEN }; // moved from / future not taken / future taken
template <class T> struct World {
  Rng &r;
  std::vector<Cell> cells;
  static const int N = 3;
  struct P { std::unique_ptr<pc::promise<T>> o; PState st = P_NONE; int cell = -1; } ps[N];
  struct K { std::unique_ptr<pc::packaged_task<T()>> o; PState st = P_NONE; int cell = -1; bool ran = false; std::shared_ptr<Out> slot; } ks[N];
  struct F { pc::future<T> o; int cell = -1; } fs[N];
  struct S { pc::shared_future<T> o; int cell = -1; } ss[N];
  vs::Cnt runs;
  long expected_runs = 0;
  explicit World(Rng &x) : r(x) { for (auto &p : ps) reset_promise(p, 1); for (auto &k : ks) k.o.reset(new pc::packaged_task<T()>()); }

  int new_cell() { cells.emplace_back(); return (int)cells.size() - 1; }
  // is there any way to obtain the result: 1 yes, 0 no, -1 implementation defined (a finished continuation may still hold it)
  int awaited(int c) {
    Cell &x = cells[c];
    if (x.handles) return 1;
    if (x.detached && !x.ready) return 1;
    bool maybe = false;
    for (int k : x.children) {
      int a = awaited(k);
      if (a == 1 && !x.ready) return 1;
      if (a != 0) maybe = true;
    }
    return maybe ? -1 : 0;
  }
  void resolve(int c, const Out &o) {
    if (cells[c].ready) return;
    cells[c].ready = true;
    cells[c].out = o;
    auto kids = cells[c].children;
    for (int k : kids) resolve(k, o);
  }
  int child(int c) {
    int k = new_cell();
    if (cells[c].ready) { cells[k].ready = true; cells[k].out = cells[c].out; }
    cells[c].children.push_back(k);
    return k;
  }
  void hold(int &slot, int c) { if (slot >= 0) cells[slot].handles--; slot = c; if (c >= 0) cells[c].handles++; }
  template <class Fn> void throws(std::future_errc code, const char *what, Fn &&fn) {
    try { fn(); } catch (const std::future_error &e) {
      if (e.code() != code) vs::fail("%s failed with '%s'", what, e.what());
      vs::cover("expected error");
      return;
    } catch (...) { vs::fail("%s failed with a wrong exception", what); }
    vs::fail("%s did not fail", what);
  }
  template <class Fn> void works(const char *what, Fn &&fn) {
    try { fn(); } catch (const std::exception &e) { vs::fail("%s failed with '%s'", what, e.what()); }
  }
  // ------------------------------------------------------------ promises
  void abandon_promise(P &p) { if (p.st == P_TAKEN && p.cell >= 0) resolve(p.cell, Out(BROKEN, 0)); p.st = P_NONE; p.cell = -1; }
  void reset_promise(P &p, int how) {
    if (p.o) { p.o.reset(); abandon_promise(p); }
    switch (how) {
    case 0: p.o.reset(new pc::promise<T>()); break;
    case 1: p.o.reset(new pc::promise<T>(std::allocator_arg, std::allocator<int>())); break;
    default: p.o.reset(new pc::promise<T>()); break;
    }
    p.st = P_FRESH;
    p.cell = new_cell();
  }
  void op_promise() {
    P &p = ps[r.below(N)];
    switch (r.below(9)) {
    case 0: reset_promise(p, r.below(3)); break;
    case 1: { // both ends at once
      F &f = fs[r.below(N)];
      int how = r.below(3);
      auto pr = how == 0 ? pc::make_promise<T>() : how == 1 ? pc::make_promise<T>(std::allocator<int>()) : pc::make_promise<T>(pc::canceler_arg, [] {});
      *p.o = std::move(pr.first);
      abandon_promise(p);
      p.st = P_TAKEN;
      p.cell = new_cell();
      f.o = std::move(pr.second);
      hold(f.cell, p.cell);
      break;
    }
    case 2: { // get_future
      F &f = fs[r.below(N)];
      if (p.st == P_NONE) throws(std::future_errc::no_state, "get_future of a moved from promise", [&] { f.o = p.o->get_future(); });
      else if (p.st == P_TAKEN) throws(std::future_errc::future_already_retrieved, "second get_future", [&] { f.o = p.o->get_future(); });
      else {
        works("get_future", [&] { f.o = p.o->get_future(); });
        p.st = P_TAKEN;
        hold(f.cell, p.cell);
      }
      break;
    }
    case 3: case 4: case 5: { // satisfy
      Out o = random_out(r, 60, 0);
      auto act = [&] { if (o.kind == V) Put<T>::value(*p.o, o.id); else p.o->set_exception(make_exc(o.kind, o.id)); };
      if (p.st == P_NONE) { throws(std::future_errc::no_state, "satisfying a moved from promise", act); break; }
      int aw = p.st == P_FRESH ? 1 : awaited(p.cell);
      if (aw == 0) { works("satisfying a promise nobody awaits", act); break; }
      if (cells[p.cell].ready) {
        if (aw == 1) throws(std::future_errc::promise_already_satisfied, "second satisfaction", act);
        else { try { act(); } catch (const std::future_error &e) { VS_CHECK(e.code() == std::future_errc::promise_already_satisfied, "wrong error"); } }
        break;
      }
      works("satisfying a promise", act);
      if (aw == 1) resolve(p.cell, norm<T>(o));
      break;
    }
    case 6: { // move construction
      std::unique_ptr<pc::promise<T>> q(new pc::promise<T>(std::move(*p.o)));
      P &d = ps[r.below(N)];
      if (&d != &p) {
        d.o.reset();
        abandon_promise(d);
        d.o = std::move(q);
        d.st = p.st; d.cell = p.cell;
        p.st = P_NONE; p.cell = -1;
      } else {
        *p.o = std::move(*q);
      }
      break;
    }
    case 7: { // move assignment
      P &d = ps[r.below(N)];
      if (&d == &p) break;
      *d.o = std::move(*p.o);
      abandon_promise(d);
      d.st = p.st; d.cell = p.cell;
      p.st = P_NONE; p.cell = -1;
      break;
    }
    default: {
      if (p.st == P_NONE) throws(std::future_errc::no_state, "is_awaiten of a moved from promise", [&] { (void)p.o->is_awaiten(); });
      else {
        int aw = p.st == P_FRESH ? 1 : awaited(p.cell);
        bool a = p.o->is_awaiten();
        if (aw >= 0) VS_CHECK(a == (aw == 1), "is_awaiten() is %d", (int)a);
      }
    }
    }
  }
  // ------------------------------------------------------------ packaged tasks
  void abandon_task(K &k) { if (k.st == P_TAKEN && k.cell >= 0) resolve(k.cell, Out(BROKEN, 0)); k.st = P_NONE; k.cell = -1; k.slot.reset(); k.ran = false; }
  void move_task(K &d, K &s) { d.st = s.st; d.cell = s.cell; d.ran = s.ran; d.slot = s.slot; s.st = P_NONE; s.cell = -1; s.slot.reset(); s.ran = false; }
  void op_task() {
    K &k = ks[r.below(N)];
    switch (r.below(8)) {
    case 0: case 1: {
      auto slot = std::make_shared<Out>(random_out(r, 60, 0));
      pc::packaged_task<T()> t([this, slot, l = Life()]() -> T { runs.inc(); return Put<T>::produce(*slot); });
      VS_CHECK(t.valid(), "new task is not valid");
      if (r.chance(50)) *k.o = std::move(t); else k.o.reset(new pc::packaged_task<T()>(std::move(t)));
      abandon_task(k);
      k.st = P_FRESH; k.cell = new_cell(); k.slot = slot; k.ran = false;
      break;
    }
    case 2: {
      F &f = fs[r.below(N)];
      if (k.st == P_NONE) throws(std::future_errc::no_state, "get_future of an empty task", [&] { f.o = k.o->get_future(); });
      else if (k.st == P_TAKEN) throws(std::future_errc::future_already_retrieved, "second get_future of a task", [&] { f.o = k.o->get_future(); });
      else { works("get_future", [&] { f.o = k.o->get_future(); }); k.st = P_TAKEN; hold(f.cell, k.cell); }
      break;
    }
    case 3: case 4: {
      if (k.st == P_NONE) { throws(std::future_errc::no_state, "calling an empty task", [&] { (*k.o)(); }); break; }
      int aw = k.st == P_FRESH ? 1 : awaited(k.cell);
      long before = runs.get();
      if (aw == 0) { works("running a task nobody awaits", [&] { (*k.o)(); }); VS_CHECK(runs.get() == before, "task nobody awaits was run"); break; }
      if (k.ran) {
        if (aw == 1) throws(std::future_errc::promise_already_satisfied, "second call of a task", [&] { (*k.o)(); });
        else { try { (*k.o)(); } catch (const std::future_error &e) { VS_CHECK(e.code() == std::future_errc::promise_already_satisfied, "wrong error"); } }
        VS_CHECK(runs.get() == before, "task was run twice");
        break;
      }
      works("running a task", [&] { (*k.o)(); });
      VS_CHECK(runs.get() == before + 1, "task ran %ld times", runs.get() - before);
      k.ran = true;
      resolve(k.cell, norm<T>(*k.slot));
      break;
    }
    case 5: {
      K &d = ks[r.below(N)];
      if (&d == &k) break;
      if (r.chance(50)) *d.o = std::move(*k.o);
      else { std::unique_ptr<pc::packaged_task<T()>> n(new pc::packaged_task<T()>(std::move(*k.o))); d.o = std::move(n); }
      abandon_task(d);
      move_task(d, k);
      break;
    }
    case 6: {
      K &d = ks[r.below(N)];
      if (&d == &k) break;
      k.o->swap(*d.o);
      std::swap(k.st, d.st); std::swap(k.cell, d.cell); std::swap(k.ran, d.ran); std::swap(k.slot, d.slot);
      break;
    }
    default: *k.o = pc::packaged_task<T()>(); abandon_task(k); break;
    }
  }
  // ------------------------------------------------------------ futures
  void got(const Out &o, int c, const char *what) { expect_out(o, norm<T>(cells[c].out), what); }
  void op_future() {
    F &f = fs[r.below(N)];
    int k = r.below(17);
    if (f.cell < 0) {
      const char *w = "operation on an invalid future";
      auto E = std::future_errc::no_state;
      switch (k) {
      case 0: throws(E, w, [&] { f.o.get(); }); break;
      case 1: throws(E, w, [&] { f.o.wait(); }); break;
      case 2: throws(E, w, [&] { (void)f.o.is_ready(); }); break;
      case 3: throws(E, w, [&] { auto g = f.o.then([](pc::future<T>) {}); }); break;
      case 4: throws(E, w, [&] { auto g = f.o.then(pc::inplace_executor, [](pc::future<T>) {}); }); break;
      case 5: throws(E, w, [&] { auto g = nextv(f.o); }); break;
      case 6: throws(E, w, [&] { f.o.notify([] {}); }); break;
      case 7: throws(E, w, [&] { f.o.notify(pc::inplace_executor, [] {}); }); break;
      case 8: throws(E, w, [&] { auto g = f.o.detach(); }); break;
      case 9: throws(E, w, [&] { (void)f.o.wait_for(std::chrono::milliseconds(0)); }); break;
      case 10: throws(E, w, [&] { (void)f.o.wait_until(std::chrono::steady_clock::now()); }); break;
      case 11: throws(E, w, [&] { pc::future<int> g = f.o.then([](pc::promise<int>, pc::future<T>) {}); }); break;
      case 12: { S &s = ss[r.below(N)]; works("share", [&] { s.o = f.o.share(); }); hold(s.cell, -1); break; }
      case 13: { F &d = fs[r.below(N)]; if (&d != &f) { d.o = std::move(f.o); hold(d.cell, -1); } break; }
      case 14: throws(E, w, [&] { pc::timed_waiter tw(f.o); }); break;
      case 15: throws(E, w, [&] { pc::future<int> g = f.o.then(pc::inplace_executor, [](pc::promise<int>, pc::future<T>) {}); }); break;
      default: throws(E, w, [&] { auto g = nextv(f.o); }); break;
      }
      VS_CHECK(!f.o.valid(), "invalid future became valid");
      return;
    }
    int c = f.cell;
    switch (k) {
    case 0: case 1: if (cells[c].ready) { Out o = get(f.o); VS_CHECK(!f.o.valid(), "future is valid after get()"); hold(f.cell, -1); got(o, c, "get"); } break;
    case 2: if (cells[c].ready) f.o.wait(); break;
    case 3: case 4: {
      pc::future<T> g = f.o.then([](pc::future<T> x) -> T { VS_CHECK(x.valid() && x.is_ready(), "continuation got an invalid or unready future"); return x.get(); });
      VS_CHECK(!f.o.valid(), "future is valid after then()");
      int n = child(c);
      hold(f.cell, n);
      f.o = std::move(g);
      break;
    }
    case 5: {
      pc::future<T> g = passv(f.o);
      VS_CHECK(!f.o.valid(), "future is valid after next()");
      int n = child(c);
      hold(f.cell, n);
      f.o = std::move(g);
      break;
    }
    case 6: f.o.notify([] {}); break;
    case 7: f.o.notify(pc::inplace_executor, [l = Life()] {}); break;
    case 8: { pc::future<T> g = f.o.detach(); VS_CHECK(!f.o.valid(), "future is valid after detach()"); if (!cells[c].ready) cells[c].detached = true; f.o = std::move(g); break; }
    case 9: { auto st = f.o.wait_for(std::chrono::nanoseconds(0)); VS_CHECK(st == (cells[c].ready ? pc::future_status::ready : pc::future_status::timeout), "wait_for"); break; }
    case 10: { pc::timed_waiter tw(f.o); auto st = tw.wait_for(std::chrono::nanoseconds(0)); VS_CHECK(st == (cells[c].ready ? pc::future_status::ready : pc::future_status::timeout), "timed_waiter"); break; }
    case 11: {
      pc::future<T> g = f.o.then([](pc::promise<T> p, pc::future<T> x) { VS_CHECK(x.valid() && x.is_ready(), "continuation got an invalid or unready future"); Out o = get(x); satisfy(std::move(p), o); });
      VS_CHECK(!f.o.valid(), "future is valid after interruptible then()");
      int n = child(c);
      hold(f.cell, n);
      f.o = std::move(g);
      break;
    }
    case 12: { S &s = ss[r.below(N)]; s.o = f.o.share(); VS_CHECK(!f.o.valid(), "future is valid after share()"); hold(s.cell, c); hold(f.cell, -1); break; }
    case 13: { F &d = fs[r.below(N)]; if (&d == &f) break; d.o = std::move(f.o); VS_CHECK(!f.o.valid(), "moved from future is valid"); hold(d.cell, c); hold(f.cell, -1); break; }
    case 14: { pc::future<T> g(std::move(f.o)); VS_CHECK(!f.o.valid() && g.valid(), "move construction"); if (r.chance(50)) { f.o = std::move(g); } else hold(f.cell, -1); break; }
    case 15: { S &s = ss[r.below(N)]; s.o = pc::shared_future<T>(std::move(f.o)); VS_CHECK(!f.o.valid(), "future is valid after conversion to shared_future"); hold(s.cell, c); hold(f.cell, -1); break; }
    default: if (r.chance(40)) { f.o = pc::future<T>(); hold(f.cell, -1); } break;
    }
  }
  static pc::future<T> passv(pc::future<T> &f) { return pass(f, std::is_void<T>()); }
  static pc::future<T> pass(pc::future<T> &f, std::false_type) { return f.next([](T v) -> T { return std::forward<T>(v); }); }
  static pc::future<T> pass(pc::future<T> &f, std::true_type) { return f.next([] {}); }
  static pc::future<T> nextv(pc::future<T> &f) { return pass(f, std::is_void<T>()); }
  static pc::future<T> spass(pc::shared_future<T> &f, std::false_type) { return f.next([](auto &&v) -> T { return VT<T>::make(VT<T>::id(v)); }); }
  static pc::future<T> spass(pc::shared_future<T> &f, std::true_type) { return f.next([] {}); }
  static T reget(const pc::shared_future<T> &f, std::false_type) { auto &&v = f.get(); return VT<T>::make(VT<T>::id(v)); }
  static void reget(const pc::shared_future<T> &f, std::true_type) { f.get(); }
  void op_shared() {
    S &s = ss[r.below(N)];
    int k = r.below(17);
    if (s.cell < 0) {
      const char *w = "operation on an invalid shared_future";
      auto E = std::future_errc::no_state;
      switch (k) {
      case 0: throws(E, w, [&] { s.o.get(); }); break;
      case 1: throws(E, w, [&] { s.o.wait(); }); break;
      case 2: throws(E, w, [&] { (void)s.o.is_ready(); }); break;
      case 3: throws(E, w, [&] { auto g = s.o.then([](pc::shared_future<T>) {}); }); break;
      case 4: throws(E, w, [&] { auto g = s.o.then(pc::inplace_executor, [](pc::shared_future<T>) {}); }); break;
      case 5: throws(E, w, [&] { auto g = spass(s.o, std::is_void<T>()); }); break;
      case 6: throws(E, w, [&] { s.o.notify([] {}); }); break;
      case 7: throws(E, w, [&] { s.o.notify(pc::inplace_executor, [] {}); }); break;
      case 8: throws(E, w, [&] { auto g = s.o.detach(); }); break;
      case 9: throws(E, w, [&] { (void)s.o.wait_for(std::chrono::milliseconds(0)); }); break;
      case 10: throws(E, w, [&] { (void)s.o.wait_until(std::chrono::steady_clock::now()); }); break;
      case 11: throws(E, w, [&] { pc::future<int> g = s.o.then([](pc::promise<int>, pc::shared_future<T>) {}); }); break;
      case 12: throws(E, w, [&] { pc::timed_waiter tw(s.o); }); break;
      case 13: { S &d = ss[r.below(N)]; if (&d != &s) { if (r.chance(50)) d.o = std::move(s.o); else d.o = s.o; hold(d.cell, -1); } break; }
      default: { pc::shared_future<T> c(s.o); VS_CHECK(!c.valid(), "copy of an invalid shared_future is valid"); break; }
      }
      VS_CHECK(!s.o.valid(), "invalid shared_future became valid");
      return;
    }
    int c = s.cell;
    switch (k) {
    case 0: case 1: if (cells[c].ready) { got(get(s.o), c, "shared get"); VS_CHECK(s.o.valid(), "shared_future is invalid after get()"); } break;
    case 2: if (cells[c].ready) s.o.wait(); break;
    case 3: case 4: {
      pc::future<T> g = s.o.then([](pc::shared_future<T> x) -> T { VS_CHECK(x.valid() && x.is_ready(), "continuation got an invalid or unready future"); return reget(x, std::is_void<T>()); });
      F &f = fs[r.below(N)];
      f.o = std::move(g);
      hold(f.cell, child(c));
      break;
    }
    case 5: { pc::future<T> g = spass(s.o, std::is_void<T>()); F &f = fs[r.below(N)]; f.o = std::move(g); hold(f.cell, child(c)); break; }
    case 6: s.o.notify([] {}); break;
    case 7: s.o.notify(pc::inplace_executor, [l = Life()] {}); break;
    case 8: { pc::shared_future<T> g = s.o.detach(); VS_CHECK(!s.o.valid(), "shared_future is valid after detach()"); if (!cells[c].ready) cells[c].detached = true; s.o = std::move(g); break; }
    case 9: { auto st = s.o.wait_for(std::chrono::nanoseconds(0)); VS_CHECK(st == (cells[c].ready ? pc::future_status::ready : pc::future_status::timeout), "wait_for"); break; }
    case 10: { pc::timed_waiter tw(s.o); auto st = tw.wait_for(std::chrono::nanoseconds(0)); VS_CHECK(st == (cells[c].ready ? pc::future_status::ready : pc::future_status::timeout), "timed_waiter"); break; }
    case 11: {
      pc::future<T> g = s.o.then([](pc::promise<T> p, pc::shared_future<T> x) { VS_CHECK(x.valid() && x.is_ready(), "continuation got an invalid or unready future"); Out o = get(x); satisfy(std::move(p), o); });
      F &f = fs[r.below(N)];
      f.o = std::move(g);
      hold(f.cell, child(c));
      break;
    }
    case 12: case 13: { S &d = ss[r.below(N)]; if (&d == &s) { auto &x = d; s.o = x.o; break; } d.o = s.o; hold(d.cell, c); break; }
    case 14: { S &d = ss[r.below(N)]; if (&d == &s) break; d.o = std::move(s.o); VS_CHECK(!s.o.valid(), "moved from shared_future is valid"); hold(d.cell, c); hold(s.cell, -1); break; }
    case 15: { pc::shared_future<T> g(std::move(s.o)); VS_CHECK(!s.o.valid() && g.valid(), "move construction"); if (r.chance(50)) s.o = std::move(g); else hold(s.cell, -1); break; }
    default: if (r.chance(40)) { s.o = pc::shared_future<T>(); hold(s.cell, -1); } break;
    }
  }
  void invariants() {
    for (auto &f : fs) {
      VS_CHECK(f.o.valid() == (f.cell >= 0), "future: valid() is %d", (int)f.o.valid());
      if (f.cell >= 0) VS_CHECK(f.o.is_ready() == cells[f.cell].ready && pc::future_ready(f.o) == cells[f.cell].ready, "future: is_ready() is %d", (int)f.o.is_ready());
    }
    for (auto &s : ss) {
      VS_CHECK(s.o.valid() == (s.cell >= 0), "shared_future: valid() is %d", (int)s.o.valid());
      if (s.cell >= 0) VS_CHECK(s.o.is_ready() == cells[s.cell].ready && pc::future_ready(s.o) == cells[s.cell].ready, "shared_future: is_ready() is %d", (int)s.o.is_ready());
    }
    for (auto &k : ks) VS_CHECK(k.o->valid() == (k.st != P_NONE), "task: valid() is %d", (int)k.o->valid());
    for (auto &p : ps)
      if (p.st != P_NONE) {
        int aw = p.st == P_FRESH ? 1 : awaited(p.cell);
        if (aw >= 0) VS_CHECK(p.o->is_awaiten() == (aw == 1), "is_awaiten() is %d", (int)(aw == 0));
      }
  }
  void run(int steps) {
    for (int i = 0; i < steps; i++) {
      switch (r.below(10)) {
      case 0: case 1: op_promise(); break;
      case 2: case 3: op_task(); break;
      case 4: case 5: case 6: op_future(); break;
      default: op_shared(); break;
      }
      invariants();
    }
    for (auto &p : ps) { p.o.reset(); abandon_promise(p); invariants_f(); }
    for (auto &k : ks) { k.o.reset(); abandon_task(k); invariants_f(); }
    for (auto &f : fs) if (f.cell >= 0) { VS_CHECK(f.o.is_ready(), "future unready although its producer is gone"); got(get(f.o), f.cell, "final get"); }
    for (auto &s : ss) if (s.cell >= 0) { VS_CHECK(s.o.is_ready(), "shared_future unready although its producer is gone"); got(get(s.o), s.cell, "final get"); }
  }
  void invariants_f() {
    for (auto &f : fs) if (f.cell >= 0) VS_CHECK(f.o.is_ready() == cells[f.cell].ready && pc::future_ready(f.o) == cells[f.cell].ready, "future: is_ready() is %d", (int)f.o.is_ready());
    for (auto &s : ss) if (s.cell >= 0) VS_CHECK(s.o.is_ready() == cells[s.cell].ready && pc::future_ready(s.o) == cells[s.cell].ready, "shared_future: is_ready() is %d", (int)s.o.is_ready());
  }
};
