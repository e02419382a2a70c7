// Free running runtime: real threads, random jitter. Used with -fsanitize=address,undefined,
// -fsanitize=thread or no sanitizer at all. Must itself be compiled without instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vs.h"
#include <atomic>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

typedef uint64_t u64;
static u64 mix(u64 x) {
  x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
  return x;
}
static const char *g_scen = "?";
static u64 g_seed, g_index, g_hash, g_ticket, T_events, T_exec, T_threads;
static u64 g_jit; // jitter seed of this execution
static int g_jlevel;
static u64 g_started; // seconds, for the watchdog
static std::atomic<int> g_reported;

static thread_local int tl_id = -1;
static thread_local u64 tl_rng = 0;
static thread_local long tl_failnew = -1;
static thread_local u64 tl_news = 0;
static int g_tid;

static void fin(const char *kind, const char *msg, int code) {
  if (g_reported.exchange(1)) for (;;) pause();
  char b[2000];
  int n = snprintf(b, sizeof b, "%s scen=%s seed=%lu index=%lu kind=%s msg=%s\n", code == 2 ? "VSVIOL" : "VSHANG", g_scen, (unsigned long)g_seed, (unsigned long)g_index, kind, msg);
  for (int i = 0; i < n - 1; i++) if (b[i] == '\n') b[i] = ' ';
  if (write(1, b, n) < 0) {}
  _exit(code);
}
namespace vs {
static Scenario *g_list;
void reg(Scenario *s) { Scenario **p = &g_list; while (*p) p = &(*p)->next; *p = s; }
uint64_t Rng::next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
int Rng::below(int n) { if (n <= 1) return 0; int v = (int)(next() % (uint64_t)n); __atomic_fetch_add(&g_hash, mix((u64)(v + 77) ^ s), __ATOMIC_RELAXED); return v; }
int Rng::range(int lo, int hi) { return lo + below(hi - lo + 1); }
bool Rng::chance(int pct) { return below(100) < pct; }
Rng Rng::fork() { return Rng(next()); }
void fail(const char *fmt, ...) {
  char buf[1200];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  fin("oracle", buf, 2);
  abort();
}
uint64_t tick() { __atomic_fetch_add(&T_events, 1, __ATOMIC_RELAXED); return __atomic_add_fetch(&g_ticket, 1, __ATOMIC_SEQ_CST); }
void event() { __atomic_fetch_add(&T_events, 1, __ATOMIC_RELAXED); }
int self() { if (tl_id < 0) tl_id = __atomic_fetch_add(&g_tid, 1, __ATOMIC_RELAXED); return tl_id; }
void point() {
  if (!g_jlevel) return;
  if (!tl_rng) tl_rng = mix(g_jit + (u64)self() * 77777);
  tl_rng += 0x9e3779b97f4a7c15ULL;
  u64 x = mix(tl_rng);
  int k = x % 100;
  if (k < 55) return;
  if (k < 80) { for (volatile int i = 0, n = (int)((x >> 8) % 400); i < n; i = i + 1) {} return; }
  if (k < 97 || g_jlevel < 2) { sched_yield(); return; }
  struct timespec t = {0, (long)((x >> 8) % 60000)};
  nanosleep(&t, nullptr);
}
bool sched_mode() { return false; }
void quiesce() {}
bool others_blocked() { return true; }
struct Cov { const char *name; u64 n; };
static Cov g_cov[512];
static int g_ncov;
static std::atomic_flag g_covl = ATOMIC_FLAG_INIT;
void cover(const char *name) {
  while (g_covl.test_and_set()) {}
  int i = 0;
  for (; i < g_ncov; i++) if (!strcmp(g_cov[i].name, name)) { g_cov[i].n++; break; }
  if (i == g_ncov && g_ncov < 512) { g_cov[g_ncov].name = name; g_cov[g_ncov++].n = 1; }
  g_covl.clear();
}
void sig(uint64_t x) { __atomic_fetch_add(&g_hash, mix(x), __ATOMIC_RELAXED); }
void *untracked_alloc(size_t n) { return malloc(n); }
void untracked_free(void *p) { free(p); }
uint64_t new_calls() { return tl_news; }
void fail_new_after(long n) { tl_failnew = n; }
void fail_thread_after(long) {}
uint64_t live_blocks() { return 0; }
void no_leak_check() {}
void calm_time() {}
} // namespace vs
#ifdef VS_COUNT_NEW
#endif

static u64 *g_sigs; static size_t g_nsig, g_capsig;
static void *watchdog(void *arg) {
  unsigned lim = (unsigned)(size_t)arg;
  for (;;) {
    sleep(1);
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    u64 st = __atomic_load_n(&g_started, __ATOMIC_RELAXED);
    if (st && (u64)t.tv_sec > st + lim) fin("hang", "execution did not finish (watchdog)", 4);
  }
  return nullptr;
}
static void on_terminate() {
  static char buf[400];
  snprintf(buf, sizeof buf, "std::terminate");
  if (std::exception_ptr e = std::current_exception()) {
    try { std::rethrow_exception(e); }
    catch (const std::exception &x) { snprintf(buf, sizeof buf, "std::terminate, uncaught exception: %s", x.what()); }
    catch (...) { snprintf(buf, sizeof buf, "std::terminate, uncaught exception"); }
  }
  fin("terminate", buf, 2);
}
static int cmp64(const void *a, const void *b) { u64 x = *(u64 *)a, y = *(u64 *)b; return x < y ? -1 : x > y; }
// called by the sanitizer runtimes before they die: name the execution
extern "C" void vs_death() {
  char b[400];
  int n = snprintf(b, sizeof b, "VSVIOL scen=%s seed=%lu index=%lu kind=sanitizer msg=sanitizer report (see log)\n", g_scen, (unsigned long)g_seed, (unsigned long)g_index);
  if (write(1, b, n) < 0) {}
}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_abrt(int) { fin("crash", "SIGABRT (abort/assert)", 2); }

// a part of the executions happens in a destructor during stack unwinding, or in a handler
struct InDtor { vs::Scenario *s; vs::Rng &r; ~InDtor() { s->fn(r); } };

int main(int argc, char **argv) {
  const char *scen = nullptr, *sigout = nullptr;
  u64 seed = 1, from = 0, count = 100, wd = 60;
  double maxsec = 1e9;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--list")) {
      for (vs::Scenario *s = vs::g_list; s; s = s->next) if (!(s->flags & vs::SCHED_ONLY)) printf("%s %d %u\n", s->name, s->weight, s->flags);
      return 0;
    }
    if (i + 1 >= argc) break;
    if (!strcmp(argv[i], "--scen")) scen = argv[++i];
    else if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], nullptr, 10);
    else if (!strcmp(argv[i], "--from")) from = strtoull(argv[++i], nullptr, 10);
    else if (!strcmp(argv[i], "--count")) count = strtoull(argv[++i], nullptr, 10);
    else if (!strcmp(argv[i], "--sigs")) sigout = argv[++i];
    else if (!strcmp(argv[i], "--cpu")) ++i;
    else if (!strcmp(argv[i], "--maxsec")) maxsec = atof(argv[++i]);
    else if (!strcmp(argv[i], "--watchdog")) wd = strtoull(argv[++i], nullptr, 10);
  }
  vs::Scenario *s = vs::g_list;
  while (s && strcmp(s->name, scen ? scen : "")) s = s->next;
  if (!s) { fprintf(stderr, "no scenario %s\n", scen ? scen : "(none)"); return 64; }
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(vs_death);
  signal(SIGABRT, on_abrt);
  std::set_terminate(on_terminate);
  pthread_t w;
  pthread_create(&w, nullptr, watchdog, (void *)(size_t)wd);
  struct timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  for (u64 i = from; i < from + count; i++) {
    u64 nh = 1469598103934665603ULL;
    for (const char *p = s->name; *p; p++) nh = (nh ^ (unsigned char)*p) * 1099511628211ULL;
    u64 base = mix(mix(seed * 0x9E3779B97F4A7C15ULL + nh) + i * 0xD1B54A32D192ED03ULL);
    g_jit = mix(base ^ 0x5bd1e995);
    g_jlevel = g_jit % 3;
    tl_rng = 0; tl_id = 0; tl_failnew = -1; g_tid = 1;
    g_scen = s->name; g_seed = seed; g_index = i; g_hash = nh; g_ticket = 0;
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9 > maxsec) break;
    __atomic_store_n(&g_started, (u64)t1.tv_sec, __ATOMIC_RELAXED);
    vs::Rng r(mix(base ^ 0x1234567));
    switch (mix(base ^ 0x77) & 15) {
    case 1: try { InDtor d{s, r}; throw 1; } catch (int) {} break;
    case 2: try { throw 1; } catch (int) { s->fn(r); } break;
    default: s->fn(r);
    }
    __atomic_store_n(&g_started, 0, __ATOMIC_RELAXED);
    T_exec++;
    if (g_nsig == g_capsig) { g_capsig = g_capsig ? g_capsig * 2 : 4096; g_sigs = (u64 *)realloc(g_sigs, g_capsig * 8); }
    g_sigs[g_nsig++] = g_hash;
  }
  clock_gettime(CLOCK_MONOTONIC, &t1);
  qsort(g_sigs, g_nsig, 8, cmp64);
  size_t d = 0;
  for (size_t i = 0; i < g_nsig; i++) if (!i || g_sigs[i] != g_sigs[i - 1]) g_sigs[d++] = g_sigs[i];
  printf("VSSTAT {\"scen\":\"%s\",\"engine\":\"free\",\"exec\":%lu,\"distinct\":%zu,\"events\":%lu,\"sec\":%.3f,\"cover\":{", s->name, T_exec, d, T_events, (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9);
  for (int i = 0; i < vs::g_ncov; i++) printf("%s\"%s\":%lu", i ? "," : "", vs::g_cov[i].name, vs::g_cov[i].n);
  printf("}}\n");
  fflush(stdout);
  if (sigout) { int fd = open(sigout, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) { if (write(fd, g_sigs, d * 8) < 0) {} close(fd); } }
  // normal exit: lets LeakSanitizer inspect the heap
  free(g_sigs);
  fflush(stdout);
  g_scen = "exit";
  return 0;
}
