// Controlled-scheduler runtime. Linked instead of libtsan with code compiled by
// gcc -fsanitize=thread. Everything here is compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vs.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <initializer_list>
#include <link.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

// ------------------------------------------------------------------ raw system calls
static inline long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static void fwait(int *w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
    raw_syscall(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
static void fpost(int *w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  raw_syscall(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1);
}

template <class F> static F next_sym(const char *name) {
  void *p = dlsym(RTLD_NEXT, name);
  if (!p) {
    dprintf(2, "vs: cannot resolve %s\n", name);
    _exit(70);
  }
  return (F)p;
}
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_detach)(pthread_t);
static int (*real_clock_gettime)(clockid_t, struct timespec *);

// ------------------------------------------------------------------ small containers
static u64 mix(u64 x) {
  x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
  return x;
}
static u32 g_epoch = 0; // execution number (never 0 while running)

// open addressing map keyed by address, emptied by bumping g_epoch
template <class V> struct EMap {
  struct S { u64 key; u32 epoch; u8 dead; V v; };
  S *tab = nullptr;
  size_t cap = 0, used = 0;
  u32 ep = 0;
  void grow() {
    size_t ncap = cap ? cap * 2 : 256;
    S *n = (S *)calloc(ncap, sizeof(S));
    for (size_t i = 0; i < cap; i++)
      if (tab[i].epoch == g_epoch && !tab[i].dead) {
        size_t j = mix(tab[i].key) & (ncap - 1);
        while (n[j].epoch == g_epoch) j = (j + 1) & (ncap - 1);
        n[j] = tab[i];
      }
    free(tab);
    tab = n;
    cap = ncap;
    used = 0;
    for (size_t i = 0; i < cap; i++) used += tab[i].epoch == g_epoch;
  }
  V *find(const void *p) {
    if (!cap) return nullptr;
    u64 k = (u64)p;
    for (size_t j = mix(k) & (cap - 1);; j = (j + 1) & (cap - 1)) {
      if (tab[j].epoch != g_epoch) return nullptr;
      if (tab[j].key == k && !tab[j].dead) return &tab[j].v;
    }
  }
  V &get(const void *p) {
    if (ep != g_epoch) { ep = g_epoch; used = 0; }
    if (V *v = find(p)) return *v;
    if ((used + 1) * 2 > cap) grow();
    u64 k = (u64)p;
    size_t j = mix(k) & (cap - 1);
    while (tab[j].epoch == g_epoch) j = (j + 1) & (cap - 1);
    used++;
    tab[j].key = k;
    tab[j].epoch = g_epoch;
    tab[j].dead = 0;
    memset((void *)&tab[j].v, 0, sizeof(V));
    return tab[j].v;
  }
  void erase(const void *p) {
    if (!cap) return;
    u64 k = (u64)p;
    for (size_t j = mix(k) & (cap - 1);; j = (j + 1) & (cap - 1)) {
      if (tab[j].epoch != g_epoch) return;
      if (tab[j].key == k && !tab[j].dead) { tab[j].dead = 1; return; }
    }
  }
  template <class F> void each(F f) {
    for (size_t i = 0; i < cap; i++)
      if (tab[i].epoch == g_epoch && !tab[i].dead) f((void *)tab[i].key, tab[i].v);
  }
};

// ------------------------------------------------------------------ state
enum { MAXT = 48 };
struct VC {
  u32 c[MAXT];
};
static int g_nthreads; // logical threads created in this execution
static void vc_join(VC &a, const VC &b) {
  for (int i = 0; i < g_nthreads; i++)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}

enum State { RUNNABLE, BLOCKED, FINISHED };
enum { STK = 512 };
struct Thread {
  int id;
  State st;
  int run;       // futex word
  pthread_t real;
  bool real_alive;
  void *(*fn)(void *);
  void *arg;
  void *ret;
  bool detached;
  VC vc, acq, rel;
  const void *blk;     // object the thread is blocked on
  const char *blkwhy;
  u64 deadline;        // virtual ns, 0 = none
  bool timed_out, woken;
  int prio;
  int streak;          // schedule points since the last switch
  u32 stack[STK];
  int sp;
  u64 news;
  long fail_new, fail_thr;
  int ignore;          // nested: no monitoring
  bool quiescing;
};
static Thread g_thr[MAXT];
static Thread *g_cur;
static bool g_active;
static int g_in; // inside runtime / untracked section (single token, so plain int)

static const char *g_scen = "?";
static u64 g_seed, g_index;
static u64 g_prng;
static u64 prnd() { g_prng += 0x9e3779b97f4a7c15ULL; return mix(g_prng); }
static u64 g_steps, g_switches;
static u64 g_vtime; // virtual ns
static u64 g_hash;
static u64 g_ticket;
static bool g_noleak;
// strategy of this execution
static int g_pct;       // number of change points, 0 = random walk
static u64 g_cps[8];
static int g_cpi;
static u32 g_pswitch;   // of 1<<16
static u32 g_pplain;    // of 1<<16
static u32 g_pspur;     // of 1<<16
static u32 g_ptime;     // of 1<<16
static int g_spurleft;
static int g_lowprio;
static int g_victim;    // slowed down thread, -1 = none: the others make a few steps between any two of its operations
static int g_vburst, g_vhold;
static bool g_fair;     // livelock rescue phase
static const u64 STEP_LIMIT = 150000, FAIR_LIMIT = 1500000;

// totals for evidence
static u64 T_exec, T_steps, T_switch, T_plain, T_atomic, T_mutex, T_cond, T_new, T_events, T_threads, T_spur, T_tmo, T_multi;

struct Ev { u64 step; const void *addr; u32 pc; int tid; const char *what; };
enum { EVN = 4096 };
static Ev g_ev[EVN];
static u64 g_evn;
static void ev(const char *w, const void *a, u32 pc) {
  Ev &e = g_ev[g_evn++ % EVN];
  e.step = g_steps; e.addr = a; e.pc = pc; e.tid = g_cur ? g_cur->id : -1; e.what = w;
}

[[noreturn]] static void report(const char *kind, const char *fmt, ...) {
  static int once;
  if (__atomic_exchange_n(&once, 1, __ATOMIC_SEQ_CST)) for (;;) raw_syscall(SYS_pause);
  char buf[1500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  for (char *p = buf; *p; p++) if (*p == '\n') *p = ' ';
  dprintf(1, "VSVIOL scen=%s seed=%lu index=%lu kind=%s msg=%s\n", g_scen, (unsigned long)g_seed, (unsigned long)g_index, kind, buf);
  if (g_cur) {
    dprintf(1, "VSSTACK");
    for (int i = g_cur->sp - 1, n = 0; i >= 0 && n < 24; i--, n++) if (i < STK) dprintf(1, " %x", g_cur->stack[i]);
    dprintf(1, "\n");
  }
  for (int i = 0; i < g_nthreads; i++) {
    Thread &t = g_thr[i];
    dprintf(1, "VSTHREAD %d %s %s %p\n", t.id, t.st == RUNNABLE ? "runnable" : t.st == BLOCKED ? "blocked" : "finished", t.st == BLOCKED ? t.blkwhy : "", t.st == BLOCKED ? t.blk : nullptr);
    if (t.st == BLOCKED) {
      dprintf(1, "VSSTACK");
      for (int k = t.sp - 1, n = 0; k >= 0 && n < 24; k--, n++) if (k < STK) dprintf(1, " %x", t.stack[k]);
      dprintf(1, "\n");
    }
  }
  u64 from = g_evn > 160 ? g_evn - 160 : 0;
  for (u64 i = from; i < g_evn; i++) {
    Ev &e = g_ev[i % EVN];
    dprintf(1, "VSEV %lu t%d %s %p pc=%x\n", (unsigned long)e.step, e.tid, e.what, e.addr, e.pc);
  }
  raw_syscall(SYS_exit_group, 2);
  for (;;) ;
}

// ------------------------------------------------------------------ scheduling
static void resume(Thread *t) { fpost(&t->run); }

static void switch_to(Thread *n) {
  Thread *me = g_cur;
  if (n == me) return;
  g_switches++;
  g_hash = mix(g_hash ^ (u64)(n->id + 1) * 0x9e3779b97f4a7c15ULL ^ g_steps);
  me->streak = 0;
  n->streak = 0;
  g_cur = n;
  resume(n);
  fwait(&me->run);
}

static bool eligible(const Thread &t) { return t.st == RUNNABLE && !t.quiescing; }

// choose the next thread; cur_ok: the current thread may continue
static Thread *pick(bool cur_ok, bool force) {
  Thread *c[MAXT];
  int n = 0;
  for (int i = 0; i < g_nthreads; i++)
    if (eligible(g_thr[i]) && (&g_thr[i] != g_cur || (cur_ok && !force))) c[n++] = &g_thr[i];
  if (n == 0) {
    if (cur_ok && eligible(*g_cur)) return g_cur;
    return nullptr;
  }
  if (g_victim >= 0 && !g_fair && n > 1) {
    for (int i = 0; i < n; i++)
      if (c[i]->id == g_victim) {
        if (g_vhold <= 0) return c[i];
        c[i] = c[--n];
        break;
      }
  }
  if (g_pct && !g_fair) {
    if (force && cur_ok) g_cur->prio = --g_lowprio;
    Thread *b = c[0];
    for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i];
    return b;
  }
  return c[prnd() % n];
}

static void wake(Thread *t) {
  if (t->st == BLOCKED) { t->st = RUNNABLE; t->blk = nullptr; }
}

// nothing is runnable: quiescing threads first, then time, else deadlock
static Thread *rescue() {
  for (int i = 0; i < g_nthreads; i++)
    if (g_thr[i].st == RUNNABLE && g_thr[i].quiescing) { g_thr[i].quiescing = false; return &g_thr[i]; }
  Thread *b = nullptr;
  for (int i = 0; i < g_nthreads; i++)
    if (g_thr[i].st == BLOCKED && g_thr[i].deadline && (!b || g_thr[i].deadline < b->deadline)) b = &g_thr[i];
  if (b) {
    if (b->deadline > g_vtime) g_vtime = b->deadline;
    b->timed_out = true;
    T_tmo++;
    wake(b);
    return b;
  }
  return nullptr;
}

static void chaos() {
  // spurious wake-ups of condition waiters and early passing of time
  if (g_pspur && g_spurleft > 0 && (prnd() & 0xffff) < g_pspur) {
    Thread *c[MAXT]; int n = 0;
    for (int i = 0; i < g_nthreads; i++)
      if (g_thr[i].st == BLOCKED && g_thr[i].blkwhy[0] == 'c') c[n++] = &g_thr[i];
    if (n) { Thread *t = c[prnd() % n]; g_spurleft--; T_spur++; ev("spurious-wake", t->blk, t->id); wake(t); }
  }
  if (g_ptime && (prnd() & 0xffff) < g_ptime) {
    Thread *b = nullptr;
    for (int i = 0; i < g_nthreads; i++)
      if (g_thr[i].st == BLOCKED && g_thr[i].deadline && (!b || g_thr[i].deadline < b->deadline)) b = &g_thr[i];
    if (b) {
      if (b->deadline > g_vtime) g_vtime = b->deadline;
      b->timed_out = true; T_tmo++; ev("time-passes", b->blk, b->id); wake(b);
    }
  }
}

static void step() {
  g_steps++;
  g_vtime += 200;
  if (g_steps == STEP_LIMIT) { g_fair = true; g_pspur = 0; g_pswitch = 0x8000; }
  if (g_steps >= FAIR_LIMIT && (g_nthreads > 1 || g_steps >= FAIR_LIMIT * 40)) report("livelock", "no progress after %lu scheduling steps under a fair random schedule", (unsigned long)g_steps);
}

static void sched_point(bool force = false) {
  if (!g_active || g_in) return;
  step();
  Thread *me = g_cur;
  if (g_nthreads == 1) return;
  chaos();
  bool sw;
  if (g_pct && !g_fair) {
    if (g_cpi < g_pct && g_steps >= g_cps[g_cpi]) { g_cpi++; me->prio = --g_lowprio; }
    sw = true;
  } else
    sw = (prnd() & 0xffff) < g_pswitch;
  if (g_victim >= 0 && !g_fair) {
    if (me->id == g_victim) { g_vhold = 1 + prnd() % g_vburst; sw = true; }
    else if (--g_vhold <= 0) sw = true;
  }
  if (++me->streak > 2000) { sw = true; force = true; }
  if (!sw && !force) return;
  Thread *n = pick(true, force);
  if (n && n != me) switch_to(n);
}

static void block(const void *obj, const char *why, u64 deadline) {
  Thread *me = g_cur;
  me->st = BLOCKED;
  me->blk = obj;
  me->blkwhy = why;
  me->deadline = deadline;
  me->timed_out = false;
  step();
  chaos();
  Thread *n = me->st == RUNNABLE && g_nthreads == 1 ? me : pick(true, false);
  if (!n) n = rescue();
  if (!n) {
    char b[400]; int o = 0; b[0] = 0;
    for (int i = 0; i < g_nthreads && o < 350; i++)
      if (g_thr[i].st == BLOCKED) o += snprintf(b + o, sizeof b - o, " t%d:%s", i, g_thr[i].blkwhy);
    report("deadlock", "all threads blocked:%s", b);
  }
  if (n != me) switch_to(n);
  me->deadline = 0;
}

// ------------------------------------------------------------------ shadow memory
enum { NSLOT = 5 };
enum : u8 { F_W = 1, F_AT = 2 };
struct Slot { u32 clk, pc; u8 tid, mask, fl; };
struct Cell { u32 epoch; u8 n, freed, ign, ftid; u32 fpc, apc; Slot s[NSLOT]; };
struct Page { u64 pn; Page *next; Cell cells[512]; };
enum { PH = 1 << 14 };
static Page *g_pages[PH];
static Page *g_pc_last;
static Cell &cell_of(u64 a) {
  u64 pn = a >> 12;
  if (!g_pc_last || g_pc_last->pn != pn) {
    u64 h = mix(pn) & (PH - 1);
    Page *p = g_pages[h];
    while (p && p->pn != pn) p = p->next;
    if (!p) {
      p = (Page *)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      p->pn = pn;
      p->next = g_pages[h];
      g_pages[h] = p;
    }
    g_pc_last = p;
  }
  Cell &c = g_pc_last->cells[(a >> 3) & 511];
  if (c.epoch != g_epoch) { c.epoch = g_epoch; c.n = 0; c.freed = 0; c.ign = 0; }
  return c;
}
static u32 top_pc() { return g_cur->sp > 0 && g_cur->sp <= STK ? g_cur->stack[g_cur->sp - 1] : 0; }

static void access1(u64 a, unsigned off, unsigned len, u8 fl, u32 pc) {
  Cell &c = cell_of(a);
  Thread *t = g_cur;
  if (c.freed)
    report("use-after-free", "%s of freed memory %p (pc=%x) freed at pc=%x by t%d", fl & F_W ? "write" : "read", (void *)(a + off), pc, c.fpc, c.ftid);
  if (c.ign) return;
  u8 mask = (u8)(((1u << len) - 1) << off);
  int mine = -1, old = -1;
  for (int i = 0; i < c.n; i++) {
    Slot &s = c.s[i];
    if (s.tid == t->id) {
      if (s.mask == mask && (s.fl | fl) == fl) mine = i; // superseded by this access
      else if (s.mask == mask && (s.fl & F_W) && !(fl & F_W) && s.clk == t->vc.c[t->id] && !(s.fl & F_AT)) return; // already covered
      continue;
    }
    bool hb = s.clk <= t->vc.c[s.tid];
    if (hb) { if ((fl & F_W) && (s.mask & ~mask) == 0 && !(fl & F_AT)) old = i; continue; }
    if ((s.mask & mask) && ((s.fl | fl) & F_W) && !((s.fl & fl) & F_AT)) {
      report("data-race", "%s%s of %u bytes at %p by t%d (pc=%x) unordered with %s%s by t%d (pc=%x)", fl & F_AT ? "atomic " : "", fl & F_W ? "write" : "read", len, (void *)(a + off), t->id, pc,
             s.fl & F_AT ? "atomic " : "", s.fl & F_W ? "write" : "read", s.tid, s.pc);
    }
  }
  int w = mine >= 0 ? mine : old;
  if (w < 0) {
    if (c.n < NSLOT) w = c.n++;
    else {
      for (int i = 0; i < c.n && w < 0; i++) if (c.s[i].tid != t->id && c.s[i].clk <= t->vc.c[c.s[i].tid]) w = i;
      if (w < 0) for (int i = 0; i < c.n && w < 0; i++) if (c.s[i].tid == t->id) w = i;
      if (w < 0) w = prnd() % NSLOT;
    }
  }
  Slot &s = c.s[w];
  s.tid = t->id; s.mask = mask; s.fl = fl; s.clk = t->vc.c[t->id]; s.pc = pc;
}
static void access_range(const void *p, size_t n, u8 fl, u32 pc) {
  if (!g_active || g_in || g_cur->ignore) return;
  u64 a = (u64)p;
  while (n) {
    unsigned off = a & 7, len = 8 - off;
    if (len > n) len = n;
    access1(a & ~7ULL, off, len, fl, pc);
    a += len;
    n -= len;
  }
}
static inline void plain(const void *p, size_t n, u8 fl, u32 pc) {
  if (!g_active || g_in) return;
  T_plain++;
  access_range(p, n, fl, pc);
  if (g_pplain && g_nthreads > 1 && (prnd() & 0xffff) < g_pplain) {
    ev("preempt", p, pc);
    sched_point(true);
    if (!g_in) access_range(p, n, fl, pc); // re-validate: memory may have been freed while preempted
  }
}
static void check_alive(const void *p, const char *what, u32 pc) {
  Cell &c = cell_of((u64)p & ~7ULL);
  if (c.freed) report("use-after-free", "%s on freed memory %p (pc=%x) freed at pc=%x by t%d", what, p, pc, c.fpc, c.ftid);
}
static void shadow_clear(const void *p, size_t n) {
  u64 a = (u64)p & ~7ULL, e = (u64)p + n;
  for (; a < e; a += 8) { Cell &c = cell_of(a); c.n = 0; c.freed = 0; c.ign = 0; }
}

// ------------------------------------------------------------------ synchronisation clocks
struct Sync { VC vc; int owner1; };
static EMap<Sync> g_sync;
static void inc_clock() { g_cur->vc.c[g_cur->id]++; }
static void acquire(const void *p) {
  if (Sync *s = g_sync.find(p)) vc_join(g_cur->vc, s->vc);
}
static void release_join(const void *p) {
  Sync &s = g_sync.get(p);
  vc_join(s.vc, g_cur->vc);
  s.owner1 = g_cur->id + 1;
  inc_clock();
}

struct Mtx { int owner1; int count; };
struct Cond { int nw; u8 w[MAXT]; };
static EMap<Mtx> g_mtx;
static EMap<Cond> g_cond;

// ------------------------------------------------------------------ heap
struct Blk { size_t size; u32 apc, apc2; u8 state; u8 tid; size_t align; u8 kind; }; // state 1 live 2 freed
static EMap<Blk> g_blk;
static void **g_quar; static size_t g_nquar, g_capquar;
static size_t g_quarbytes;
static u64 g_live;

static void *track_new(size_t n, size_t align, u8 kind, u32 pc) {
  if (g_active && !g_in) {
    Thread *t = g_cur;
    t->news++;
    if (t->fail_new >= 0 && t->fail_new-- == 0) { t->fail_new = -1; return nullptr; }
  }
  void *p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
  if (!p) return nullptr;
  if (g_active && !g_in) {
    T_new++;
    shadow_clear(p, n); // may be recycled from memory the monitor does not own (exception objects)
    memset(p, 0xA5, n);
    Blk &b = g_blk.get(p);
    b.size = n; b.apc = pc; b.apc2 = top_pc(); b.state = 1; b.tid = g_cur->id; b.align = align; b.kind = kind;
    g_live++;
  }
  return p;
}
static void track_delete(void *p, size_t n, bool sized, size_t align, u8 kind, u32 pc) {
  if (!p) return;
  if (!g_active) { free(p); return; }
  Blk *b = g_blk.find(p);
  if (!b) { if (!g_in && g_cur) {} free(p); return; }
  if (g_in) { b->state = 2; g_live--; g_blk.erase(p); free(p); return; }
  if (b->state == 2) report("double-free", "block %p of %zu bytes allocated at pc=%x freed twice (pc=%x)", p, b->size, b->apc2, pc);
  if (sized && n != b->size) report("bad-free", "sized delete of %p with size %zu, allocated %zu (pc=%x)", p, n, b->size, pc);
  if (kind != b->kind) report("bad-free", "new/delete kind mismatch for %p (pc=%x)", p, pc);
  if ((align > 16 || b->align > 16) && align != b->align) report("bad-free", "aligned delete mismatch of %p: %zu vs %zu (pc=%x)", p, align, b->align, pc);
  access_range(p, b->size, F_W, pc);
  u64 a = (u64)p & ~7ULL, e = (u64)p + b->size;
  for (; a < e; a += 8) {
    Cell &c = cell_of(a);
    c.freed = 1; c.fpc = top_pc(); c.ftid = g_cur->id; c.n = 0;
  }
  // a mutex that is still owned or a condition variable with waiters must not be freed
  for (u64 q = (u64)p & ~7ULL; q < e; q += 8) {
    Mtx *m = g_mtx.find((void *)q);
    if (m && m->owner1) report("bad-free", "memory of a locked mutex %p (owner t%d) freed (pc=%x)", (void *)q, m->owner1 - 1, top_pc());
    Cond *cv = g_cond.find((void *)q);
    if (cv && cv->nw) report("bad-free", "memory of a condition variable %p with %d waiters freed (pc=%x)", (void *)q, cv->nw, top_pc());
  }
  memset(p, 0xDD, b->size);
  b->state = 2;
  g_live--;
  if (g_nquar == g_capquar) { g_capquar = g_capquar ? g_capquar * 2 : 1024; g_quar = (void **)realloc(g_quar, g_capquar * sizeof(void *)); }
  g_quar[g_nquar++] = p;
  g_quarbytes += b->size;
}
#define PC ((u32)(u64)__builtin_return_address(0))
static void *new_or_throw(size_t n, size_t al, u8 k, u32 pc) {
  void *p = track_new(n, al, k, pc);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n) { return new_or_throw(n, 0, 0, PC); }
void *operator new[](size_t n) { return new_or_throw(n, 0, 1, PC); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return track_new(n, 0, 0, PC); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return track_new(n, 0, 1, PC); }
void *operator new(size_t n, std::align_val_t a) { return new_or_throw(n, (size_t)a, 0, PC); }
void *operator new[](size_t n, std::align_val_t a) { return new_or_throw(n, (size_t)a, 1, PC); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return track_new(n, (size_t)a, 0, PC); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return track_new(n, (size_t)a, 1, PC); }
void operator delete(void *p) noexcept { track_delete(p, 0, false, 0, 0, PC); }
void operator delete[](void *p) noexcept { track_delete(p, 0, false, 0, 1, PC); }
void operator delete(void *p, size_t n) noexcept { track_delete(p, n, true, 0, 0, PC); }
void operator delete[](void *p, size_t) noexcept { track_delete(p, 0, false, 0, 1, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { track_delete(p, 0, false, 0, 0, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { track_delete(p, 0, false, 0, 1, PC); }
void operator delete(void *p, std::align_val_t a) noexcept { track_delete(p, 0, false, (size_t)a, 0, PC); }
void operator delete[](void *p, std::align_val_t a) noexcept { track_delete(p, 0, false, (size_t)a, 1, PC); }
void operator delete(void *p, size_t n, std::align_val_t a) noexcept { track_delete(p, n, true, (size_t)a, 0, PC); }
void operator delete[](void *p, size_t, std::align_val_t a) noexcept { track_delete(p, 0, false, (size_t)a, 1, PC); }

// ------------------------------------------------------------------ instrumentation entry points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) {
  if (!g_active || g_in) return;
  Thread *t = g_cur;
  if (t->sp < STK) t->stack[t->sp] = (u32)(u64)pc;
  t->sp++;
}
void __tsan_func_exit() {
  if (!g_active || g_in) return;
  if (g_cur->sp > 0) g_cur->sp--;
}
#define RW(n)                                                                            \
  void __tsan_read##n(void *p) { plain(p, n, 0, PC); }                                   \
  void __tsan_write##n(void *p) { plain(p, n, F_W, PC); }                                \
  void __tsan_read##n##_pc(void *p, void *pc) { plain(p, n, 0, (u32)(u64)pc); }          \
  void __tsan_write##n##_pc(void *p, void *pc) { plain(p, n, F_W, (u32)(u64)pc); }       \
  void __tsan_volatile_read##n(void *p) { plain(p, n, 0, PC); }                          \
  void __tsan_volatile_write##n(void *p) { plain(p, n, F_W, PC); }                       \
  void __tsan_unaligned_read##n(void *p) { plain(p, n, 0, PC); }                         \
  void __tsan_unaligned_write##n(void *p) { plain(p, n, F_W, PC); }                      \
  void __tsan_unaligned_volatile_read##n(void *p) { plain(p, n, 0, PC); }                \
  void __tsan_unaligned_volatile_write##n(void *p) { plain(p, n, F_W, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { plain(p, n, 0, PC); }
void __tsan_write_range(void *p, unsigned long n) { plain(p, n, F_W, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) plain(p, 8, F_W, PC); else plain(p, 8, 0, PC); }
void __tsan_vptr_read(void **p) { plain(p, 8, 0, PC); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_begin(const char *w, const volatile void *p, size_t n, u8 fl, u32 pc) {
  T_atomic++;
  sched_point();
  ev(w, (const void *)p, pc);
  g_hash = mix(g_hash ^ (u64)(g_cur->id * 4 + (fl & F_W)));
  access_range((const void *)p, n, fl | F_AT, pc);
}
static void at_load(const volatile void *p, int mo) {
  Sync *s = g_sync.find((const void *)p);
  if (!s) return;
  if (is_acq(mo)) vc_join(g_cur->vc, s->vc);
  else vc_join(g_cur->acq, s->vc);
}
static void at_store(const volatile void *p, int mo, bool rmw) {
  Thread *t = g_cur;
  Sync &s = g_sync.get((const void *)p);
  if (!rmw && s.owner1 && s.owner1 != t->id + 1) memset(&s.vc, 0, sizeof s.vc); // a plain store heads a new release sequence
  vc_join(s.vc, is_rel(mo) ? t->vc : t->rel);
  if (!rmw) s.owner1 = t->id + 1;
  inc_clock();
}
#define ATOMICS(B, T)                                                                                   \
  T __tsan_atomic##B##_load(const volatile T *p, int mo) {                                              \
    if (g_active && !g_in) { at_begin("atomic-load", p, sizeof(T), 0, PC); at_load(p, mo); }            \
    return *p;                                                                                          \
  }                                                                                                     \
  void __tsan_atomic##B##_store(volatile T *p, T v, int mo) {                                           \
    if (g_active && !g_in) { at_begin("atomic-store", p, sizeof(T), F_W, PC); at_store(p, mo, false); } \
    *p = v;                                                                                             \
  }                                                                                                     \
  ATRMW(B, T, exchange, v)                                                                              \
  ATRMW(B, T, fetch_add, o + v)                                                                         \
  ATRMW(B, T, fetch_sub, o - v)                                                                         \
  ATRMW(B, T, fetch_and, o &v)                                                                          \
  ATRMW(B, T, fetch_or, o | v)                                                                          \
  ATRMW(B, T, fetch_xor, o ^ v)                                                                         \
  ATRMW(B, T, fetch_nand, ~(o & v))                                                                     \
  static int cas##B(volatile T *p, T *e, T v, int mo, int fmo, bool weak, u32 pc) {                     \
    bool on = g_active && !g_in;                                                                        \
    if (on) at_begin("atomic-cas", p, sizeof(T), F_W, pc);                                              \
    T o = *p;                                                                                           \
    if (o == *e && !(on && weak && g_pspur && (prnd() & 7) == 0)) {                                     \
      if (on) { at_load(p, mo); at_store(p, mo, true); }                                                \
      *p = v;                                                                                           \
      return 1;                                                                                         \
    }                                                                                                   \
    if (on) at_load(p, fmo);                                                                            \
    *e = o;                                                                                             \
    return 0;                                                                                           \
  }                                                                                                     \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) {           \
    return cas##B(p, e, v, mo, fmo, false, PC);                                                         \
  }                                                                                                     \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) {             \
    return cas##B(p, e, v, mo, fmo, true, PC);                                                          \
  }                                                                                                     \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) {                 \
    cas##B(p, &e, v, mo, fmo, false, PC);                                                               \
    return e;                                                                                           \
  }
#define ATRMW(B, T, name, expr)                                                                         \
  T __tsan_atomic##B##_##name(volatile T *p, T v, int mo) {                                             \
    if (g_active && !g_in) { at_begin("atomic-" #name, p, sizeof(T), F_W, PC); at_load(p, mo); at_store(p, mo, true); } \
    T o = *p;                                                                                           \
    *p = (T)(expr);                                                                                     \
    return o;                                                                                           \
  }
ATOMICS(8, u8)
ATOMICS(16, uint16_t)
ATOMICS(32, u32)
ATOMICS(64, u64)
ATOMICS(128, unsigned __int128)
void __tsan_atomic_thread_fence(int mo) {
  if (!g_active || g_in) return;
  if (is_acq(mo)) vc_join(g_cur->vc, g_cur->acq);
  if (is_rel(mo)) { g_cur->rel = g_cur->vc; inc_clock(); }
}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ threads
// User code may call the library at any moment: also from a destructor while an exception unwinds the stack, and from
// a handler. A part of the main and thread functions is executed in such a context.
extern "C++" {
template <class B> struct RunInDtor { B &b; ~RunInDtor() { b(); } };
template <class B> static void in_context(unsigned k, B b) {
  if (k == 1) { try { RunInDtor<B> d{b}; throw 1; } catch (int) {} }
  else if (k == 2) { try { throw 1; } catch (int) { b(); } }
  else b();
}
}
// Logical threads (and executions, for the main thread) start with fresh thread_local variables and destroy them at
// their end, although the underlying threads are reused.
struct TlsDtor { void (*fn)(void *); void *obj; };
extern "C++" struct TlsList { TlsDtor *v; size_t n, cap; };
static TlsList g_tls[MAXT];
int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *) {
  TlsList &l = g_tls[g_active && g_cur ? g_cur->id : 0];
  if (l.n == l.cap) { l.cap = l.cap ? l.cap * 2 : 8; l.v = (TlsDtor *)realloc(l.v, l.cap * sizeof(TlsDtor)); }
  l.v[l.n++] = TlsDtor{fn, obj};
  return 0;
}
static int tls_reset_cb(struct dl_phdr_info *i, size_t, void *) {
  if (i->dlpi_tls_data)
    for (int k = 0; k < i->dlpi_phnum; k++)
      if (i->dlpi_phdr[k].p_type == PT_TLS) {
        const ElfW(Phdr) &h = i->dlpi_phdr[k];
        memcpy(i->dlpi_tls_data, (const void *)(i->dlpi_addr + h.p_vaddr), h.p_filesz);
        memset((char *)i->dlpi_tls_data + h.p_filesz, 0, h.p_memsz - h.p_filesz);
      }
  return 1; // the first object is the executable
}
static bool g_hastls; // the executable has thread_local variables
static void tls_end(int id) {
  TlsList &l = g_tls[id];
  while (l.n) { TlsDtor d = l.v[--l.n]; d.fn(d.obj); }
  if (!g_hastls) return;
  g_in++;
  dl_iterate_phdr(tls_reset_cb, nullptr);
  g_in--;
}
static void *pool_main(void *a) {
  Thread *t = (Thread *)a;
  stack_t ss = {};
  ss.ss_size = 1 << 16;
  ss.ss_sp = malloc(ss.ss_size);
  sigaltstack(&ss, nullptr);
  for (;;) {
    fwait(&t->run);
    // scheduled for the first time in this execution
    in_context(prnd() & 15, [t] { t->ret = t->fn(t->arg); });
    tls_end(t->id);
    // finished
    sched_point();
    t->st = FINISHED;
    inc_clock();
    for (int i = 0; i < g_nthreads; i++)
      if (g_thr[i].st == BLOCKED && g_thr[i].blk == t) wake(&g_thr[i]);
    Thread *n = pick(false, false);
    if (!n) n = rescue();
    if (!n) {
      if (true) report("deadlock", "thread t%d finished and every remaining thread is blocked", t->id);
    }
    g_switches++;
    g_cur = n;
    resume(n);
  }
  return nullptr;
}

int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!g_active) {
    if (!real_pthread_create) real_pthread_create = next_sym<decltype(real_pthread_create)>("pthread_create");
    return real_pthread_create(out, at, fn, arg);
  }
  if (g_cur->fail_thr >= 0 && g_cur->fail_thr-- == 0) { g_cur->fail_thr = -1; return EAGAIN; }
  sched_point();
  if (g_nthreads >= MAXT) { dprintf(1, "VSINCON too many threads\n"); _exit(3); }
  int id = g_nthreads++;
  Thread *t = &g_thr[id];
  if (!t->real_alive) {
    g_in++;
    if (real_pthread_create(&t->real, nullptr, pool_main, t)) { dprintf(1, "VSINCON pthread_create failed\n"); _exit(3); }
    g_in--;
    t->real_alive = true;
  }
  t->id = id;
  t->fn = fn;
  t->arg = arg;
  t->ret = nullptr;
  t->detached = false;
  memset(&t->vc, 0, sizeof t->vc);
  memset(&t->acq, 0, sizeof t->acq);
  memset(&t->rel, 0, sizeof t->rel);
  vc_join(t->vc, g_cur->vc);
  t->vc.c[id] = 1;
  inc_clock();
  t->sp = 0;
  t->st = RUNNABLE;
  t->blk = nullptr;
  t->deadline = 0;
  t->prio = 1000 + (int)(prnd() % 1000);
  t->streak = 0;
  t->ignore = 0;
  t->news = 0;
  t->fail_new = t->fail_thr = -1;
  t->quiescing = false;
  *out = t->real;
  T_threads++;
  ev("thread-create", t, PC);
  sched_point();
  return 0;
}
static Thread *by_real(pthread_t p) {
  for (int i = 0; i < g_nthreads; i++) if (i && pthread_equal(g_thr[i].real, p)) return &g_thr[i];
  return nullptr;
}
int pthread_join(pthread_t p, void **ret) {
  static int (*real)(pthread_t, void **);
  if (!g_active) {
    if (!real) real = next_sym<decltype(real)>("pthread_join");
    return real(p, ret);
  }
  sched_point();
  Thread *t = by_real(p);
  if (!t) return ESRCH;
  ev("thread-join", t, PC);
  if (t == g_cur) return EDEADLK;
  while (t->st != FINISHED) block(t, "join", 0);
  vc_join(g_cur->vc, t->vc);
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t p) {
  if (!g_active) {
    if (!real_pthread_detach) real_pthread_detach = next_sym<decltype(real_pthread_detach)>("pthread_detach");
    return real_pthread_detach(p);
  }
  Thread *t = by_real(p);
  if (t) t->detached = true;
  return 0;
}

// ------------------------------------------------------------------ mutexes
static void mtx_touch(pthread_mutex_t *m, const char *w, u32 pc) {
  T_mutex++;
  ev(w, m, pc);
  g_hash = mix(g_hash ^ (u64)(g_cur->id * 8 + 3));
  check_alive(m, w, pc);
  access_range(m, 8, F_W | F_AT, pc);
}
static void mtx_wake(const void *m) {
  for (int i = 0; i < g_nthreads; i++)
    if (g_thr[i].st == BLOCKED && g_thr[i].blk == m && g_thr[i].blkwhy[0] == 'm') wake(&g_thr[i]);
}
static int mtx_lock(pthread_mutex_t *m, u64 deadline, bool tryonly, u32 pc, const char *w) {
  mtx_touch(m, w, pc);
  bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  for (;;) {
    Mtx &x = g_mtx.get(m);
    if (!x.owner1) { x.owner1 = g_cur->id + 1; x.count = 1; break; }
    if (x.owner1 == g_cur->id + 1) {
      if (rec) { x.count++; return 0; }
      if (tryonly) return EBUSY;
      if (!deadline) report("deadlock", "t%d locks a mutex %p it already owns (pc=%x)", g_cur->id, (void *)m, pc);
    }
    if (tryonly) return EBUSY;
    block(m, deadline ? "mutex(timed)" : "mutex", deadline);
    if (g_cur->timed_out) { g_cur->timed_out = false; if (g_mtx.get(m).owner1) return ETIMEDOUT; }
    check_alive(m, "mutex wake-up", pc);
  }
  access_range(m, 8, F_W | F_AT, pc);
  acquire(m);
  return 0;
}
static void mtx_unlock(pthread_mutex_t *m, u32 pc, const char *w) {
  mtx_touch(m, w, pc);
  Mtx &x = g_mtx.get(m);
  if (x.owner1 != g_cur->id + 1) report("bad-unlock", "t%d unlocks mutex %p owned by t%d (pc=%x)", g_cur->id, (void *)m, x.owner1 - 1, pc);
  if (--x.count > 0) return;
  release_join(m);
  x.owner1 = 0;
  mtx_wake(m);
}
static u64 to_ns(const struct timespec *t) {
  if (t->tv_sec < 0) return 1;
  unsigned __int128 v = (unsigned __int128)t->tv_sec * 1000000000u + t->tv_nsec;
  return v > (u64)-2 ? (u64)-2 : (u64)v;
}
static const u64 REAL_BASE = 1700000000ULL * 1000000000ULL;
static const u64 MONO_BASE = 5000ULL * 1000000000ULL;
static u64 abs_deadline(clockid_t c, const struct timespec *t) {
  u64 n = to_ns(t);
  u64 base = c == CLOCK_REALTIME ? REAL_BASE : MONO_BASE;
  n = n > base ? n - base : 1;
  return n ? n : 1;
}
#define PASS(name, type, ...)                                                            \
  if (!g_active || g_in) {                                                               \
    using fn_t = type;                                                                   \
    static fn_t real;                                                                    \
    if (!real) real = next_sym<fn_t>(#name);                                             \
    return real(__VA_ARGS__);                                                            \
  }
int pthread_mutex_lock(pthread_mutex_t *m) {
  PASS(pthread_mutex_lock, int (*)(pthread_mutex_t *), m)
  sched_point();
  return mtx_lock(m, 0, false, PC, "mutex-lock");
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  PASS(pthread_mutex_trylock, int (*)(pthread_mutex_t *), m)
  sched_point();
  return mtx_lock(m, 0, true, PC, "mutex-trylock");
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) {
  PASS(pthread_mutex_timedlock, int (*)(pthread_mutex_t *, const struct timespec *), m, t)
  sched_point();
  return mtx_lock(m, abs_deadline(CLOCK_REALTIME, t), false, PC, "mutex-timedlock");
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *t) {
  PASS(pthread_mutex_clocklock, int (*)(pthread_mutex_t *, clockid_t, const struct timespec *), m, c, t)
  sched_point();
  return mtx_lock(m, abs_deadline(c, t), false, PC, "mutex-clocklock");
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  PASS(pthread_mutex_unlock, int (*)(pthread_mutex_t *), m)
  mtx_unlock(m, PC, "mutex-unlock");
  sched_point();
  return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  static int (*real)(pthread_mutex_t *, const pthread_mutexattr_t *);
  if (!real) real = next_sym<decltype(real)>("pthread_mutex_init");
  if (g_active && !g_in) g_mtx.erase(m);
  return real(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  PASS(pthread_mutex_destroy, int (*)(pthread_mutex_t *), m)
  check_alive(m, "mutex-destroy", PC);
  Mtx *x = g_mtx.find(m);
  if (x && x->owner1) report("bad-destroy", "locked mutex %p destroyed (pc=%x)", (void *)m, PC);
  access_range(m, 8, F_W, PC);
  g_mtx.erase(m);
  return 0;
}

// ------------------------------------------------------------------ condition variables
static int cond_wait_impl(pthread_cond_t *c, pthread_mutex_t *m, u64 deadline, u32 pc) {
  T_cond++;
  sched_point();
  ev("cond-wait", c, pc);
  check_alive(c, "cond-wait", pc);
  access_range(c, 8, F_W | F_AT, pc);
  Cond &k = g_cond.get(c);
  k.w[k.nw++] = (u8)g_cur->id;
  int me = g_cur->id;
  mtx_unlock(m, pc, "cond-wait-unlock");
  int rc = 0;
  block(c, deadline ? "cond(timed)" : "cond", deadline);
  if (g_cur->timed_out) { rc = ETIMEDOUT; g_cur->timed_out = false; }
  // leave the queue if a signal did not remove us (spurious wake-up or timeout)
  if (Cond *q = g_cond.find(c))
    for (int i = 0; i < q->nw; i++)
      if (q->w[i] == me) { memmove(q->w + i, q->w + i + 1, q->nw - i - 1); q->nw--; break; }
  check_alive(c, "cond-wait return", pc);
  check_alive(m, "mutex re-lock in cond-wait", pc);
  mtx_lock(m, 0, false, pc, "cond-wait-relock");
  ev("cond-woken", c, pc);
  return rc;
}
static void cond_signal_impl(pthread_cond_t *c, bool all, u32 pc) {
  T_cond++;
  sched_point();
  ev(all ? "cond-broadcast" : "cond-signal", c, pc);
  g_hash = mix(g_hash ^ (u64)(g_cur->id * 8 + 5));
  check_alive(c, "cond-signal", pc);
  access_range(c, 8, F_W | F_AT, pc);
  Cond *k = g_cond.find(c);
  if (!k) return;
  if (all) {
    for (int i = 0; i < k->nw; i++) wake(&g_thr[k->w[i]]);
    k->nw = 0;
  } else if (k->nw) {
    int i = prnd() % k->nw;
    wake(&g_thr[k->w[i]]);
    memmove(k->w + i, k->w + i + 1, k->nw - i - 1);
    k->nw--;
  }
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
  static int (*real)(pthread_cond_t *, const pthread_condattr_t *);
  if (!real) real = next_sym<decltype(real)>("pthread_cond_init");
  if (g_active && !g_in) g_cond.erase(c);
  return real(c, a);
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  PASS(pthread_cond_wait, int (*)(pthread_cond_t *, pthread_mutex_t *), c, m)
  return cond_wait_impl(c, m, 0, PC);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
  PASS(pthread_cond_timedwait, int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *), c, m, t)
  return cond_wait_impl(c, m, abs_deadline(CLOCK_REALTIME, t), PC);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
  PASS(pthread_cond_clockwait, int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *), c, m, k, t)
  return cond_wait_impl(c, m, abs_deadline(k, t), PC);
}
int pthread_cond_signal(pthread_cond_t *c) {
  PASS(pthread_cond_signal, int (*)(pthread_cond_t *), c)
  cond_signal_impl(c, false, PC);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  PASS(pthread_cond_broadcast, int (*)(pthread_cond_t *), c)
  cond_signal_impl(c, true, PC);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) {
  PASS(pthread_cond_destroy, int (*)(pthread_cond_t *), c)
  ev("cond-destroy", c, PC);
  check_alive(c, "cond-destroy", PC);
  Cond *k = g_cond.find(c);
  if (k && k->nw) report("bad-destroy", "condition variable %p destroyed with %d waiters (pc=%x)", (void *)c, k->nw, PC);
  access_range(c, 8, F_W, PC);
  g_cond.erase(c);
  return 0;
}

// ------------------------------------------------------------------ rwlock, once, guards, sem, futex
struct Rw { int writer1; int readers; u8 r[MAXT]; };
static EMap<Rw> g_rw;
static int rw_lock(pthread_rwlock_t *l, bool wr, bool tr, u64 dl, u32 pc) {
  sched_point();
  check_alive(l, "rwlock", pc);
  for (;;) {
    Rw &x = g_rw.get(l);
    if (!x.writer1 && (!wr || !x.readers)) { if (wr) x.writer1 = g_cur->id + 1; else { x.readers++; x.r[g_cur->id]++; } break; }
    if (tr) return EBUSY;
    block(l, "mutex(rw)", dl);
    if (g_cur->timed_out) { g_cur->timed_out = false; return ETIMEDOUT; }
  }
  acquire(l);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { PASS(pthread_rwlock_rdlock, int (*)(pthread_rwlock_t *), l) return rw_lock(l, false, false, 0, PC); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { PASS(pthread_rwlock_wrlock, int (*)(pthread_rwlock_t *), l) return rw_lock(l, true, false, 0, PC); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { PASS(pthread_rwlock_tryrdlock, int (*)(pthread_rwlock_t *), l) return rw_lock(l, false, true, 0, PC); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { PASS(pthread_rwlock_trywrlock, int (*)(pthread_rwlock_t *), l) return rw_lock(l, true, true, 0, PC); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  PASS(pthread_rwlock_unlock, int (*)(pthread_rwlock_t *), l)
  check_alive(l, "rwlock-unlock", PC);
  Rw &x = g_rw.get(l);
  release_join(l);
  if (x.writer1 == g_cur->id + 1) x.writer1 = 0;
  else if (x.readers) { x.readers--; if (x.r[g_cur->id]) x.r[g_cur->id]--; }
  mtx_wake(l);
  sched_point();
  return 0;
}
struct Once { int st; };
static EMap<Once> g_once;
static int once_impl(pthread_once_t *o, void (*f)(void)) {
  sched_point();
  if (*o == 2) { acquire(o); return 0; }
  for (;;) {
    Once &x = g_once.get(o);
    if (*o == 2) { acquire(o); return 0; }
    if (!x.st) { x.st = 1; break; }
    block(o, "mutex(once)", 0);
  }
  try { f(); } catch (...) { g_once.get(o).st = 0; mtx_wake(o); throw; }
  *o = 2;
  release_join(o);
  mtx_wake(o);
  return 0;
}
int pthread_once(pthread_once_t *o, void (*f)(void)) { PASS(pthread_once, int (*)(pthread_once_t *, void (*)(void)), o, f) return once_impl(o, f); }

int __cxa_guard_acquire(u64 *g) {
  u8 *b = (u8 *)g;
  if (!g_active || g_in) { if (b[0]) return 0; b[1] = 1; return 1; }
  sched_point();
  for (;;) {
    if (b[0]) { acquire(g); return 0; }
    if (!b[1]) { b[1] = (u8)(g_cur->id + 1); return 1; }
    if (b[1] == g_cur->id + 1) report("deadlock", "recursive initialisation of a local static (pc=%x)", PC);
    block(g, "mutex(guard)", 0);
  }
}
void __cxa_guard_release(u64 *g) {
  u8 *b = (u8 *)g;
  b[0] = 1;
  b[1] = 0;
  if (g_active && !g_in) { release_join(g); mtx_wake(g); }
}
void __cxa_guard_abort(u64 *g) {
  ((u8 *)g)[1] = 0;
  if (g_active && !g_in) mtx_wake(g);
}

// C++20 atomics waiting / std::future: futex
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && g_active && !g_in) {
    int op = (int)b & 127;
    sched_point();
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; }
      u64 dl = 0;
      if (d) {
        const struct timespec *ts = (const struct timespec *)d;
        if (op == FUTEX_WAIT) dl = g_vtime + to_ns(ts) + 1;
        else dl = abs_deadline(b & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
      }
      block((void *)a, "futex", dl);
      if (g_cur->timed_out) { g_cur->timed_out = false; errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      int k = 0;
      for (int i = 0; i < g_nthreads && k < (int)c; i++)
        if (g_thr[i].st == BLOCKED && g_thr[i].blk == (void *)a && g_thr[i].blkwhy[0] == 'f') { wake(&g_thr[i]); k++; }
      return k;
    }
  }
  long r = raw_syscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// semaphores
static EMap<Once> g_semx;
int sem_wait(sem_t *s) {
  PASS(sem_wait, int (*)(sem_t *), s)
  sched_point();
  int *v = (int *)s;
  while (*v <= 0) block(s, "mutex(sem)", 0);
  (*v)--;
  acquire(s);
  return 0;
}
int sem_post(sem_t *s) {
  PASS(sem_post, int (*)(sem_t *), s)
  sched_point();
  (*(int *)s)++;
  release_join(s);
  mtx_wake(s);
  return 0;
}

// ------------------------------------------------------------------ time
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!g_active || g_in) {
    if (!real_clock_gettime) real_clock_gettime = next_sym<decltype(real_clock_gettime)>("clock_gettime");
    return real_clock_gettime(c, t);
  }
  g_vtime += 1;
  u64 n = g_vtime + (c == CLOCK_REALTIME ? REAL_BASE : MONO_BASE);
  t->tv_sec = n / 1000000000ULL;
  t->tv_nsec = n % 1000000000ULL;
  return 0;
}
int gettimeofday(struct timeval *t, void *) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
static void vsleep(u64 ns) {
  u64 dl = g_vtime + ns + 1;
  while (g_vtime < dl) block(&g_vtime, "sleep", dl);
  g_cur->timed_out = false;
}
int nanosleep(const struct timespec *t, struct timespec *) {
  if (!g_active || g_in) return (int)raw_syscall(SYS_nanosleep, (long)t, 0);
  vsleep(to_ns(t));
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *) {
  if (!g_active || g_in) return (int)-raw_syscall(SYS_clock_nanosleep, c, fl, (long)t, 0);
  if (fl & TIMER_ABSTIME) {
    u64 d = abs_deadline(c, t);
    if (d > g_vtime) vsleep(d - g_vtime);
  } else
    vsleep(to_ns(t));
  return 0;
}
int usleep(useconds_t u) {
  struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
int sched_yield() {
  if (!g_active || g_in) return (int)raw_syscall(SYS_sched_yield);
  sched_point(true);
  return 0;
}

// ------------------------------------------------------------------ exceptions
void *__cxa_allocate_exception(size_t n) noexcept {
  static void *(*real)(size_t);
  if (!real) real = next_sym<decltype(real)>("__cxa_allocate_exception");
  void *p = real(n);
  if (g_active && !g_in) { shadow_clear(p, n); g_sync.erase(p); }
  return p;
}
// reference counts of exception objects live in libstdc++.so (not instrumented): model their
// synchronisation here.
static void eo_sync(void *obj) {
  if (!obj || !g_active || g_in) return;
  acquire(obj);
  release_join(obj);
}
void _ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void **self) {
  static void (*real)(void **);
  if (!real) real = next_sym<decltype(real)>("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv");
  real(self);
}
void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void **self) {
  static void (*real)(void **);
  if (!real) real = next_sym<decltype(real)>("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
  eo_sync(*self);
  real(self);
}


void __cxa_end_catch() {
  static void (*real)();
  if (!real) real = next_sym<decltype(real)>("__cxa_end_catch");
  if (g_active && !g_in) {
    std::exception_ptr e = std::current_exception();
    void *obj = *(void **)&e;
    eo_sync(obj);
    // drop our reference through libstdc++ directly
    static void (*r)(void **);
    if (!r) r = next_sym<decltype(r)>("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
    r((void **)&e);
    *(void **)&e = nullptr;
  }
  real();
}
} // extern "C"

// ------------------------------------------------------------------ harness API
namespace vs {
static Scenario *g_list;
void reg(Scenario *s) {
  Scenario **p = &g_list;
  while (*p) p = &(*p)->next;
  *p = s;
}
uint64_t Rng::next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
int Rng::below(int n) { if (n <= 1) return 0; int v = (int)(next() % (uint64_t)n); ::g_hash = mix(::g_hash ^ (u64)(v + 77)); return v; }
int Rng::range(int lo, int hi) { return lo + below(hi - lo + 1); }
bool Rng::chance(int pct) { return below(100) < pct; }
Rng Rng::fork() { return Rng(next()); }

void fail(const char *fmt, ...) {
  char buf[1200];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  report("oracle", "%s", buf);
}
uint64_t tick() { T_events++; return ++g_ticket; }
void event() { T_events++; }
void point() { sched_point(); }
bool sched_mode() { return true; }
void quiesce() {
  if (g_nthreads == 1) return;
  g_cur->quiescing = true;
  step();
  Thread *n = pick(false, false);
  if (!n) { g_cur->quiescing = false; return; }
  switch_to(n);
  g_cur->quiescing = false;
}
bool others_blocked() {
  for (int i = 0; i < g_nthreads; i++) if (&g_thr[i] != g_cur && g_thr[i].st == RUNNABLE) return false;
  return true;
}
struct Cov { const char *name; u64 n; };
static Cov g_cov[512];
static int g_ncov;
void cover(const char *name) {
  for (int i = 0; i < g_ncov; i++)
    if (g_cov[i].name == name || !strcmp(g_cov[i].name, name)) { g_cov[i].n++; return; }
  if (g_ncov < 512) { g_cov[g_ncov].name = name; g_cov[g_ncov++].n = 1; }
}
void sig(uint64_t x) { g_hash = mix(g_hash ^ x); }
int self() { return g_cur ? g_cur->id : 0; }
void *untracked_alloc(size_t n) { return malloc(n); }
void untracked_free(void *p) { free(p); }
uint64_t new_calls() { return g_cur->news; }
void fail_new_after(long n) { g_cur->fail_new = n; }
void fail_thread_after(long n) { g_cur->fail_thr = n; }
uint64_t live_blocks() { return g_live; }
void no_leak_check() { g_noleak = true; }
void calm_time() { g_ptime = 0; }
} // namespace vs

// distinct execution signatures
static u64 *g_sigs; static size_t g_nsig, g_capsig;
static u64 *g_sigtab; static size_t g_sigtabcap, g_sigtabn;
static bool sig_insert(u64 h) {
  if (!h) h = 1;
  if ((g_sigtabn + 1) * 2 > g_sigtabcap) {
    size_t nc = g_sigtabcap ? g_sigtabcap * 2 : 4096;
    u64 *n = (u64 *)calloc(nc, 8);
    for (size_t i = 0; i < g_sigtabcap; i++) if (g_sigtab[i]) { size_t j = g_sigtab[i] & (nc - 1); while (n[j]) j = (j + 1) & (nc - 1); n[j] = g_sigtab[i]; }
    free(g_sigtab); g_sigtab = n; g_sigtabcap = nc;
  }
  size_t j = h & (g_sigtabcap - 1);
  while (g_sigtab[j]) { if (g_sigtab[j] == h) return false; j = (j + 1) & (g_sigtabcap - 1); }
  g_sigtab[j] = h; g_sigtabn++;
  return true;
}

// returns true if blocks were left behind and the execution is to be repeated: what a local static or another cache filled
// by the first execution keeps is not left behind again by the next one
static bool run_one(vs::Scenario *s, u64 seed, u64 index, bool last_try) {
  g_epoch++;
  g_scen = s->name;
  g_seed = seed;
  g_index = index;
  u64 nh = 1469598103934665603ULL;
  for (const char *p = s->name; *p; p++) nh = (nh ^ (u8)*p) * 1099511628211ULL;
  u64 base = mix(mix(seed * 0x9E3779B97F4A7C15ULL + nh) + index * 0xD1B54A32D192ED03ULL);
  g_prng = mix(base ^ 0x5bd1e995);
  vs::Rng r(mix(base ^ 0x1234567));
  g_hash = nh;
  g_steps = g_switches = 0;
  g_vtime = 1000000000ULL;
  g_ticket = 0;
  g_evn = 0;
  g_noleak = false;
  g_fair = false;
  g_lowprio = 0;
  g_live = 0;
  // strategy
  g_pct = 0; g_cpi = 0; g_pplain = 0; g_pspur = 0; g_ptime = 0; g_spurleft = 0;
  g_victim = -1; g_vhold = 0;
  u64 k = prnd() % 100;
  if (k < 55) {
    static const u32 ps[] = {0x300, 0x1000, 0x2800, 0x5000, 0x8000, 0xffff};
    g_pswitch = ps[prnd() % 6];
    if (k >= 40) { g_victim = prnd() % 6; g_vburst = 1 << (1 + prnd() % 5); }
  } else {
    g_pct = 1 + prnd() % 5;
    // change points over a log-uniform horizon
    u64 hor = 8ULL << (prnd() % 8);
    for (int i = 0; i < g_pct; i++) g_cps[i] = 1 + prnd() % hor;
    for (int i = 0; i < g_pct; i++) for (int j = i + 1; j < g_pct; j++) if (g_cps[j] < g_cps[i]) { u64 x = g_cps[i]; g_cps[i] = g_cps[j]; g_cps[j] = x; }
    g_pswitch = 0x4000;
  }
  if (prnd() % 4 == 0) g_pplain = prnd() % 2 ? 0x80 : 0x600;
  if (prnd() % 4 == 0) { g_pspur = 0x600; g_spurleft = 1 + prnd() % 6; }
  if (prnd() % 2 == 0) g_ptime = prnd() % 2 ? 0x200 : 0x1000;

  Thread *m = &g_thr[0];
  g_nthreads = 1;
  m->id = 0;
  m->st = RUNNABLE;
  memset(&m->vc, 0, sizeof m->vc); memset(&m->acq, 0, sizeof m->acq); memset(&m->rel, 0, sizeof m->rel);
  m->vc.c[0] = 1;
  m->sp = 0;
  m->deadline = 0;
  m->prio = 1000 + (int)(prnd() % 1000);
  m->streak = 0;
  m->ignore = 0;
  m->news = 0;
  m->fail_new = m->fail_thr = -1;
  m->quiescing = false;
  g_cur = m;
  in_context(prnd() & 15, [&] {
    g_active = true;
    s->fn(r);
    // drain: every thread must be able to finish
    for (int i = 1; i < g_nthreads; i++)
      while (g_thr[i].st != FINISHED) block(&g_thr[i], "end-of-execution", 0);
    tls_end(0);
    g_active = false;
  });
  bool left = false;
  if (!g_noleak && g_live) {
    const void *p = nullptr; Blk bb; int n = 0;
    g_blk.each([&](void *q, Blk &b) { if (b.state == 1) { n++; if (!p || b.size < bb.size) { p = q; bb = b; } } });
    if (n && !last_try) left = true;
    else if (n) { g_active = true; report("leak", "%d heap blocks leaked; e.g. %p of %zu bytes allocated by t%d at pc=%x (in function entered from pc=%x)", n, p, bb.size, bb.tid, bb.apc, bb.apc2); }
  }
  for (size_t i = 0; i < g_nquar; i++) free(g_quar[i]);
  g_nquar = 0;
  g_quarbytes = 0;
  T_exec++;
  T_steps += g_steps;
  T_switch += g_switches;
  if (g_nthreads > 1 && g_switches) T_multi++;
  if (sig_insert(g_hash)) {
    if (g_nsig == g_capsig) { g_capsig = g_capsig ? g_capsig * 2 : 4096; g_sigs = (u64 *)realloc(g_sigs, g_capsig * 8); }
    g_sigs[g_nsig++] = g_hash;
  }
  return left;
}

static void on_signal(int sig) { report("crash", "signal %d (%s)", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT/abort/assert" : "fault"); }
static void on_terminate() {
  const char *w = "std::terminate";
  char buf[300];
  if (std::exception_ptr e = std::current_exception()) {
    try { std::rethrow_exception(e); }
    catch (const std::exception &x) { snprintf(buf, sizeof buf, "std::terminate, uncaught exception: %s", x.what()); w = buf; }
    catch (...) { w = "std::terminate, uncaught exception"; }
  }
  report("terminate", "%s", w);
}

int main(int argc, char **argv) {
  const char *scen = nullptr, *sigout = nullptr;
  u64 seed = 1, from = 0, count = 100;
  double maxsec = 1e9;
  bool dump = false;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--dump")) { dump = true; continue; }
    if (!strcmp(argv[i], "--list")) {
      for (vs::Scenario *s = vs::g_list; s; s = s->next) if (!(s->flags & vs::FREE_ONLY)) printf("%s %d %u\n", s->name, s->weight, s->flags);
      return 0;
    }
    if (i + 1 >= argc) break;
    if (!strcmp(argv[i], "--scen")) scen = argv[++i];
    else if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], nullptr, 10);
    else if (!strcmp(argv[i], "--from")) from = strtoull(argv[++i], nullptr, 10);
    else if (!strcmp(argv[i], "--count")) count = strtoull(argv[++i], nullptr, 10);
    else if (!strcmp(argv[i], "--sigs")) sigout = argv[++i];
    else if (!strcmp(argv[i], "--cpu")) {
      cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(atoi(argv[++i]), &cs); sched_setaffinity(0, sizeof cs, &cs);
    } else if (!strcmp(argv[i], "--maxsec")) maxsec = atof(argv[++i]);
  }
  real_pthread_create = next_sym<decltype(real_pthread_create)>("pthread_create");
  real_clock_gettime = next_sym<decltype(real_clock_gettime)>("clock_gettime");
  dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) {
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_phdr[k].p_memsz) g_hastls = true;
    return 1;
  }, nullptr);
  // make libstdc++ use atomic reference counts from the start
  pthread_t d;
  g_thr[MAXT - 1].id = MAXT - 1;
  real_pthread_create(&d, nullptr, [](void *) -> void * { return nullptr; }, nullptr);
  next_sym<int (*)(pthread_t, void **)>("pthread_join")(d, nullptr);
  static char altstack[1 << 16];
  stack_t ss = {}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
  struct sigaction sa = {}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  vs::Scenario *s = vs::g_list;
  while (s && strcmp(s->name, scen ? scen : "")) s = s->next;
  if (!s) { fprintf(stderr, "no scenario %s\n", scen ? scen : "(none)"); return 64; }
  struct timespec t0, t1;
  real_clock_gettime(CLOCK_MONOTONIC, &t0);
  for (u64 i = from; i < from + count; i++) {
    for (int k = 0; run_one(s, seed, i, k == 2); k++) {}
    if (dump) {
      printf("VSDUMP scen=%s seed=%lu index=%lu threads=%d steps=%lu switches=%lu strategy=%s trace:", s->name, seed, i, g_nthreads, g_steps, g_switches, g_pct ? "pct" : g_victim >= 0 ? "slow-thread" : "random-walk");
      for (u64 k = 0; k < g_evn && k < 60; k++) printf(" t%d:%s", g_ev[k % EVN].tid, g_ev[k % EVN].what);
      printf("%s\n", g_evn > 60 ? " ..." : "");
    }
    if ((i & 63) == 0) {
      real_clock_gettime(CLOCK_MONOTONIC, &t1);
      if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9 > maxsec) break;
    }
  }
  real_clock_gettime(CLOCK_MONOTONIC, &t1);
  printf("VSSTAT {\"scen\":\"%s\",\"engine\":\"sched\",\"exec\":%lu,\"distinct\":%zu,\"multi\":%lu,\"steps\":%lu,\"switches\":%lu,\"plain\":%lu,\"atomic\":%lu,\"mutex\":%lu,\"cond\":%lu,\"allocs\":%lu,\"threads\":%lu,\"spurious\":%lu,\"timeouts\":%lu,\"events\":%lu,\"sec\":%.3f,\"cover\":{",
         s->name, T_exec, g_nsig, T_multi, T_steps, T_switch, T_plain, T_atomic, T_mutex, T_cond, T_new, T_threads, T_spur, T_tmo, T_events,
         (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9);
  for (int i = 0; i < vs::g_ncov; i++) printf("%s\"%s\":%lu", i ? "," : "", vs::g_cov[i].name, vs::g_cov[i].n);
  printf("}}\n");
  fflush(stdout);
  if (sigout) {
    int fd = open(sigout, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { if (write(fd, g_sigs, g_nsig * 8) < 0) {} close(fd); }
  }
  _exit(0);
}
