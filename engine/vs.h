// API shared by the harnesses and the two runtimes:
//   vs_runtime.cpp - controlled scheduler + race/lifetime/deadlock monitors ("sched")
//   vs_free.cpp    - free running threads with random jitter (asan/ubsan, tsan builds)
#pragma once
#include <cstddef>
#include <cstdint>

#define VS_NOSAN __attribute__((no_sanitize("thread"), noinline))

namespace vs {

// Deterministic random source. Every drawn choice is folded into the signature of the execution.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  VS_NOSAN uint64_t next();
  VS_NOSAN int below(int n);            // 0..n-1
  VS_NOSAN int range(int lo, int hi);   // lo..hi inclusive
  VS_NOSAN bool chance(int pct);        // true with pct percent
  VS_NOSAN Rng fork();
};

using scen_fn = void (*)(Rng &);
struct Scenario {
  const char *name;
  scen_fn fn;
  int weight;       // relative share of the execution budget
  unsigned flags;   // see below
  Scenario *next;
};
enum : unsigned {
  SCHED_ONLY = 1, // needs virtual time / quiescence of the controlled scheduler
  FREE_ONLY = 2,
  SEQ = 4,        // single threaded scenario (interleavings not counted)
};
void reg(Scenario *);
struct Reg {
  Scenario s;
  Reg(const char *n, scen_fn f, int w, unsigned fl) : s{n, f, w, fl, nullptr} { reg(&s); }
};
#define SCENARIO_F(name, weight, flags)                                                  \
  static void scen_##name(vs::Rng &r);                                                   \
  static vs::Reg reg_##name(#name, scen_##name, weight, flags);                          \
  static void scen_##name(vs::Rng &r)
#define SCENARIO(name, weight) SCENARIO_F(name, weight, 0)

// --- monitors -----------------------------------------------------------------------
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define VS_CHECK(c, ...)                                                                 \
  do {                                                                                   \
    if (!(c))                                                                            \
      ::vs::fail(__VA_ARGS__);                                                           \
  } while (0)

uint64_t tick();              // global logical clock; adds no happens-before edge, no schedule point
void point();                 // schedule point (sched) / random jitter (free)
bool sched_mode();            // running under the controlled scheduler
void quiesce();               // sched only: returns once every other thread is blocked or finished
bool others_blocked();        // sched only
void cover(const char *name); // reach mark (string literal)
void sig(uint64_t x);         // fold into the signature of the execution
int self();                   // small id of the calling logical thread
void *untracked_alloc(size_t);  // memory outside the leak monitor
void untracked_free(void *);
uint64_t new_calls();         // operator new calls made by the calling thread so far
void fail_new_after(long n);  // the n-th next operator new of the calling thread throws (n<0: off)
void fail_thread_after(long n); // sched only: the n-th next thread creation of the calling thread fails (n<0: off)
void event();                 // count one monitored event
uint64_t live_blocks();       // sched: tracked heap blocks alive
void no_leak_check();         // this execution intentionally leaves blocks behind
void calm_time();              // sched: virtual time jumps ahead only when nothing else can run

// counter usable from any thread without adding synchronisation visible to the race detector
struct Cnt {
  long v = 0;
  VS_NOSAN long inc(long d = 1) { event(); return __atomic_add_fetch(&v, d, __ATOMIC_RELAXED); }
  VS_NOSAN long get() const { return __atomic_load_n(&v, __ATOMIC_RELAXED); }
  VS_NOSAN void set(long x) { __atomic_store_n(&v, x, __ATOMIC_RELAXED); }
  VS_NOSAN bool claim() { event(); long e = 0; return __atomic_compare_exchange_n(&v, &e, 1, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED); }
  VS_NOSAN Cnt() = default;
  Cnt(const Cnt &) = delete;
  Cnt &operator=(const Cnt &) = delete;
};

} // namespace vs
