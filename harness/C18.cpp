#define TK_MAIN
#include "prod.h"
using namespace tk;

using UF = pc::unique_function<long(long &, MVal, const Val &)>;
struct CallRec { int id = -1; long *ref = nullptr; const Val *cref = nullptr; long mv = 0; int n = 0; };
static CallRec g_call;
static long called(int id, long &a, MVal m, const Val &c) {
  g_call.id = id; g_call.ref = &a; g_call.cref = &c; g_call.mv = m.id(); g_call.n++;
  a += 1;
  return id * 10 + a;
}
// how often the callable is owned right now, per id
constexpr int MAXID = 64;
static vs::Cnt g_own[MAXID];
struct Own {
  Life l;
  int id;
  vs::Cnt *c;
  explicit Own(int i) : id(i), c(&g_own[i]) { c->inc(); }
  Own(const Own &o) noexcept : l(o.l), id(o.id), c(o.c) { if (c) c->inc(); }
  Own(Own &&o) noexcept : l(o.l), id(o.id), c(o.c) { o.c = nullptr; }
  Own &operator=(const Own &) = delete;
  ~Own() { if (c) c->inc(-1); }
  void use() const { l.check("called"); VS_CHECK(c, "a moved-from callable was called"); }
};
struct Small { Own o; long operator()(long &a, MVal m, const Val &c) { o.use(); return called(o.id, a, std::move(m), c); } };
struct SmallConst { Own o; long operator()(long &a, MVal m, const Val &c) const { o.use(); return called(o.id, a, std::move(m), c); } };
struct MoveOnly { Own o; std::unique_ptr<int> p; long operator()(long &a, MVal m, const Val &c) { o.use(); VS_CHECK(p && *p == 5, "callable state damaged"); return called(o.id, a, std::move(m), c); } };
struct Large { Own o; long pad[20]; long operator()(long &a, MVal m, const Val &c) { o.use(); for (long x : pad) VS_CHECK(x == o.id, "callable state damaged"); return called(o.id, a, std::move(m), c); } };
struct LargeMove { Own o; long pad[20]; std::unique_ptr<int> p; long operator()(long &a, MVal m, const Val &c) { o.use(); VS_CHECK(p && *p == 6, "callable state damaged"); return called(o.id, a, std::move(m), c); } };
struct alignas(64) Over { Own o; long operator()(long &a, MVal m, const Val &c) { o.use(); VS_CHECK(((uintptr_t)this & 63) == 0, "over-aligned callable misplaced"); return called(o.id, a, std::move(m), c); } };
template <int A> struct alignas(A) AlignedTo { Own o; long operator()(long &a, MVal m, const Val &c) { o.use(); VS_CHECK(((uintptr_t)this & (A - 1)) == 0, "callable with alignment %d misplaced", A); return called(o.id, a, std::move(m), c); } };
struct LongDouble { long double d; int id; long operator()(long &a, MVal m, const Val &c) { VS_CHECK(((uintptr_t)this & 15) == 0 && d == 2.5L, "callable with alignment 16 misplaced"); return called(id, a, std::move(m), c); } };
static bool g_sealed = false; // no callable may be relocated by throwing moves now: moving a wrapper is noexcept
struct ThrowingMove { // small, but moving may throw: must be kept where it is
  Own o;
  static void sealed() { if (g_sealed) vs::fail("moving a wrapper moved a callable whose move may throw"); }
  explicit ThrowingMove(int i) : o(i) {}
  ThrowingMove(const ThrowingMove &x) noexcept(false) : o((sealed(), x.o)) {}
  ThrowingMove(ThrowingMove &&x) noexcept(false) : o((sealed(), std::move(x.o))) {}
  long operator()(long &a, MVal m, const Val &c) { o.use(); return called(o.id, a, std::move(m), c); }
};
struct ExactFit { Own o; char pad[40 - sizeof(Own)]; long operator()(long &a, MVal m, const Val &c) { o.use(); return called(o.id, a, std::move(m), c); } };
struct OneOver { Own o; char pad[41 - sizeof(Own)]; long operator()(long &a, MVal m, const Val &c) { o.use(); return called(o.id, a, std::move(m), c); } };
// callables of every size around the size of the embedded buffer, all bytes significant
template <int N> struct Sized {
  Own o;
  unsigned char pad[N];
  explicit Sized(int i) : o(i) { for (int k = 0; k < N; k++) pad[k] = (unsigned char)(i * 31 + k + 1); }
  long operator()(long &a, MVal m, const Val &c) { o.use(); for (int k = 0; k < N; k++) VS_CHECK(pad[k] == (unsigned char)(o.id * 31 + k + 1), "state of a callable of %zu bytes damaged", sizeof(*this)); return called(o.id, a, std::move(m), c); }
};
static UF make_sized(int k, int id) {
  switch (k) {
  case 0: return UF(Sized<1>(id)); case 1: return UF(Sized<8>(id)); case 2: return UF(Sized<12>(id)); case 3: return UF(Sized<16>(id)); case 4: return UF(Sized<20>(id));
  case 5: return UF(Sized<24>(id)); case 6: return UF(Sized<28>(id)); case 7: return UF(Sized<32>(id)); case 8: return UF(Sized<40>(id)); case 9: return UF(Sized<48>(id));
  default: return UF(Sized<64>(id));
  }
}
// called as an lvalue, any number of times, never as a temporary
template <int N> struct RefQual {
  Own o;
  unsigned char pad[N];
  explicit RefQual(int i) : o(i), pad() {}
  long operator()(long &a, MVal m, const Val &c) & { o.use(); return called(o.id, a, std::move(m), c); }
  long operator()(long &, MVal, const Val &) && { vs::fail("stored callable was called as an rvalue"); return 0; }
};
// comparable with nullptr, like std::function, of any size
template <int N> struct Nullable {
  Own o;
  unsigned char pad[N];
  bool null;
  Nullable(int i, bool n) : o(i), pad(), null(n) {}
  friend bool operator==(const Nullable &x, std::nullptr_t) { return x.null; }
  friend bool operator!=(const Nullable &x, std::nullptr_t) { return !x.null; }
  long operator()(long &a, MVal m, const Val &c) { o.use(); VS_CHECK(!null, "null callable called"); return called(o.id, a, std::move(m), c); }
};
template <int I> static long fp(long &a, MVal m, const Val &c) { return called(I, a, std::move(m), c); }

static UF make(Rng &r, int id) {
  switch (r.below(20)) {
  case 14: case 15: case 16: return make_sized(r.below(11), id);
  case 17: return r.chance(50) ? UF(RefQual<1>(id)) : UF(RefQual<80>(id));
  case 18: return r.chance(50) ? UF(Nullable<1>(id, false)) : UF(Nullable<80>(id, false));
  case 19: return UF(ThrowingMove(id));
  case 12: return UF(AlignedTo<16>{Own(id)});
  case 13: return UF(AlignedTo<32>{Own(id)});
  case 0: return UF(Small{Own(id)});
  case 1: { Small s{Own(id)}; UF f(s); VS_CHECK(s.o.c, "lvalue callable was moved from"); return f; }
  case 2: { const SmallConst s{Own(id)}; return UF(s); }
  case 3: return UF(MoveOnly{Own(id), std::unique_ptr<int>(new int(5))});
  case 4: { Large l{Own(id), {}}; for (long &x : l.pad) x = id; UF f(l); VS_CHECK(l.o.c, "lvalue callable was moved from"); return f; }
  case 5: { Large l{Own(id), {}}; for (long &x : l.pad) x = id; return UF(std::move(l)); }
  case 6: return UF(LargeMove{Own(id), {}, std::unique_ptr<int>(new int(6))});
  case 7: return UF(Over{Own(id)});
  case 8: return UF(ThrowingMove(id));
  case 9: return UF(ExactFit{Own(id), {}});
  case 10: return UF(OneOver{Own(id), {}});
  default: { std::function<long(long &, MVal, const Val &)> f = Small{Own(id)}; return UF(std::move(f)); }
  }
}
static void no_new(uint64_t before, const char *what) { VS_CHECK(vs::new_calls() == before, "%s allocated memory", what); }

struct Slot { // -1 empty, -2 moved from (unspecified), >=0 owned id; >=100 function pointer id
  UF f;
  int id = -1;
};
static void check_call(Slot &s, Rng &r) {
  long x = r.range(0, 9), x0 = x;
  Val v(3);
  g_call = CallRec();
  long copies = g_copies.get();
  if (s.id == -1) {
    VS_CHECK(!s.f, "empty wrapper tests true");
    VS_CHECK(s.f == nullptr, "empty wrapper != nullptr");
    try { s.f(x, MVal(7), v); vs::fail("call of an empty wrapper returned"); } catch (const std::bad_function_call &) {}
    VS_CHECK(g_call.n == 0, "something was called");
    return;
  }
  VS_CHECK(s.f && !(s.f == nullptr), "wrapper with a callable tests false");
  const UF &cf = s.f;
  long res = r.chance(50) ? s.f(x, MVal(7), v) : cf(x, MVal(7), v);
  VS_CHECK(g_call.n == 1, "callable called %d times", g_call.n);
  VS_CHECK(g_call.id == s.id, "callable %d called instead of %d", g_call.id, s.id);
  VS_CHECK(g_call.ref == &x && x == x0 + 1, "reference argument not forwarded as the same object");
  VS_CHECK(g_call.cref == &v, "const reference argument was copied");
  VS_CHECK(g_call.mv == 7, "moved argument damaged");
  VS_CHECK(g_copies.get() == copies, "arguments were copied");
  VS_CHECK(res == s.id * 10 + x0 + 1, "wrong result");
}
SCEN_F(random_ops, 8, vs::SEQ) {
  g_sealed = false;
  for (auto &c : g_own) c.set(0);
  int next = 0;
  std::deque<Slot> s(r.range(2, 4));
  int n = r.range(3, 25);
  auto audit = [&] {
    int cnt[MAXID] = {0};
    for (auto &x : s) if (x.id >= 0 && x.id < 100) cnt[x.id]++;
    for (int i = 0; i < next; i++) VS_CHECK(g_own[i].get() == cnt[i], "callable %d is owned %ld times, expected %d", i, g_own[i].get(), cnt[i]);
  };
  for (int k = 0; k < n; k++) {
    int i = r.below((int)s.size()), j = r.below((int)s.size());
    int op = r.below(12);
    g_sealed = op >= 2 && op <= 4;
    switch (op) {
    case 0: case 1: if (next < MAXID) { int id = next++; UF t = make(r, id); g_sealed = true; s[i].f = std::move(t); s[i].id = id; } break;
    case 11: { // callables comparable with nullptr
      auto null = [&](auto x) { UF t(std::move(x)); VS_CHECK(!t && t == nullptr, "wrapper built from a null callable is not empty"); s[i].f = std::move(t); s[i].id = -1; };
      if (r.chance(50)) null(Nullable<1>(MAXID - 1, true)); else null(Nullable<80>(MAXID - 1, true));
      break;
    }
    case 2: { // move assignment, also onto itself
      UF &a = s[i].f; UF &b = s[j].f;
      a = std::move(b);
      if (i != j) { s[i].id = s[j].id; if (s[j].id != -1) s[j].id = -2; }
      break;
    }
    case 3: { UF t(std::move(s[i].f)); int id = s[i].id; if (id != -1) s[i].id = -2; Slot tmp; tmp.f = std::move(t); tmp.id = id; if (r.chance(50)) { if (id != -2) check_call(tmp, r); s[j].f = std::move(tmp.f); s[j].id = id; if (id != -1 && i != j) {} } else { /* destroyed */ } break; }
    case 4: if (s[i].id != -2 && s[j].id != -2) { std::swap(s[i].f, s[j].f); std::swap(s[i].id, s[j].id); } break;
    case 5: if (s[i].id != -2) check_call(s[i], r); break;
    case 6: { // function pointer
      bool null = r.chance(20);
      long (*p)(long &, MVal, const Val &) = null ? nullptr : r.chance(50) ? &fp<101> : &fp<102>;
      uint64_t b = vs::new_calls();
      UF t(p);
      no_new(b, "storing a function pointer");
      b = vs::new_calls();
      UF t2(std::move(t));
      no_new(b, "moving a function pointer");
      s[i].f = std::move(t2);
      s[i].id = null ? -1 : p == &fp<101> ? 101 : 102;
      break;
    }
    case 7: s[i].f = r.chance(50) ? UF(nullptr) : UF(); s[i].id = -1; break;
    case 8: { std::function<long(long &, MVal, const Val &)> e; s[i].f = UF(std::move(e)); s[i].id = -1; break; }
    case 9: if (r.chance(50)) { s[i].f = UF(LongDouble{2.5L, 104}); s[i].id = 104; break; } s[i].f = UF(fp<103>); s[i].id = 103; break; // function reference
    default: { // reference_wrapper: the referred object is called, not owned
      static Small *target;
      (void)target;
      Small obj{Own(MAXID - 1)};
      uint64_t b = vs::new_calls();
      UF t{std::ref(obj)};
      no_new(b, "storing a reference_wrapper");
      Slot q; q.f = std::move(t); q.id = MAXID - 1;
      check_call(q, r);
      VS_CHECK(g_own[MAXID - 1].get() == 1, "referred object was copied");
      break;
    }
    }
    g_sealed = false;
    if (next >= MAXID - 1) break;
    for (auto &x : s) if (x.id == -1) VS_CHECK(!x.f && x.f == nullptr, "wrapper without callable tests true"); else if (x.id >= 0) VS_CHECK((bool)x.f, "wrapper with callable tests false");
    audit();
  }
  for (auto &x : s) if (x.id != -2) check_call(x, r);
  s.clear();
  for (int i = 0; i < next; i++) VS_CHECK(g_own[i].get() == 0, "callable %d not destroyed", i);
}

// results: values, references, move-only, void, conversions, exceptions
static long g_cell;
struct Base { long a = 1; virtual ~Base() = default; };
struct Derived : Base { long b = 2; };
static Derived g_derived;
template <int N> struct Pad { long p[N]; };
template <int N> static void results(Rng &) { // N: size of the callable (small or on the heap)
  Pad<N> pad{};
  { pc::unique_function<long &()> f([pad]() -> long & { (void)pad; return g_cell; }); VS_CHECK(&f() == &g_cell, "returned reference changed"); f() = 5; VS_CHECK(g_cell == 5, "returned reference is a copy"); }
  { pc::unique_function<const long &()> f([pad]() -> long & { (void)pad; return g_cell; }); VS_CHECK(&f() == &g_cell, "returned reference changed"); }
  { pc::unique_function<Base &()> f([pad]() -> Derived & { (void)pad; return g_derived; }); VS_CHECK(&f() == static_cast<Base *>(&g_derived), "returned reference changed"); }
  { pc::unique_function<MVal()> f([pad] { (void)pad; return MVal(8); }); VS_CHECK(f().id() == 8, "move-only result"); }
  { pc::unique_function<void()> f([pad] { (void)pad; g_cell = 6; return 3; }); f(); VS_CHECK(g_cell == 6, "not called"); }
  { pc::unique_function<long()> f([pad] { (void)pad; return (short)7; }); VS_CHECK(f() == 7, "converted result"); }
  { pc::unique_function<std::string()> f([pad] { (void)pad; return "text"; }); VS_CHECK(f() == "text", "converted result"); }
  { Val keep(4); pc::unique_function<Val()> f([pad, &keep]() -> Val & { (void)pad; return keep; }); Val got = f(); VS_CHECK(got.id() == 4 && keep.id() == 4, "object returned by reference was moved from"); }
  { pc::unique_function<MVal && (MVal &&)> f([pad](MVal &&m) -> MVal && { (void)pad; return std::move(m); }); MVal m(3); MVal &&ref = f(std::move(m)); VS_CHECK(&ref == &m && m.id() == 3, "rvalue reference not passed through"); }
  for (Kind k : {E_STD, E_CUSTOM, E_NONSTD, E_INT}) {
    pc::unique_function<long(int)> f([pad, k](int x) -> long { (void)pad; throw_exc(k, x); });
    try { f(9); vs::fail("exception swallowed"); } catch (...) { Out o = classify(); VS_CHECK(o.kind == k && o.id == 9, "exception changed"); }
    VS_CHECK((bool)f, "throwing callable lost");
  }
  { // arguments
    Val v(5); long copies = g_copies.get();
    pc::unique_function<const Val *(const Val &)> f([pad](const Val &x) { (void)pad; return &x; }); VS_CHECK(f(v) == &v && g_copies.get() == copies, "const reference argument copied");
    pc::unique_function<long(Val)> g([pad](Val x) { (void)pad; return x.id(); }); VS_CHECK(g(Val(6)) == 6 && g_copies.get() == copies, "rvalue argument was copied"); VS_CHECK(g(v) == 5 && v.id() == 5, "lvalue argument was moved from"); VS_CHECK(g_copies.get() == copies + 1, "lvalue argument copied %ld times", g_copies.get() - copies);
    pc::unique_function<long(std::unique_ptr<long>)> h([pad](std::unique_ptr<long> p) { (void)pad; return *p; }); VS_CHECK(h(std::unique_ptr<long>(new long(4))) == 4, "move-only argument");
    pc::unique_function<void(Val &)> m([pad](Val &x) { (void)pad; x = Val(9); }); m(v); VS_CHECK(v.id() == 9, "reference argument was copied");
    pc::unique_function<long(int, double, char)> c([pad](long a, long b, long d) { (void)pad; return a * 100 + b * 10 + d; }); VS_CHECK(c(1, 2.5, 3) == 123, "converted arguments");
  }
}
SCEN_F(results_small, 1, vs::SEQ) { results<1>(r); (void)r.below(1000); }
SCEN_F(results_large, 1, vs::SEQ) { results<12>(r); (void)r.below(1000); }

// member pointers in every form; no heap
struct Obj {
  Val v{11};
  long field = 3;
  long get(long x) { return v.id() + x; }
  long cget(long x) const { return v.id() - x; }
  long rget(long x) && { return v.id() * x; }
  virtual long virt(long) { return 1; }
  virtual ~Obj() = default;
};
struct Obj2 : Obj { long virt(long x) override { return 2 + x; } };
SCEN_F(member_pointers, 2, vs::SEQ) {
  Obj2 o;
  auto u = std::unique_ptr<Obj>(new Obj2);
  auto sp = std::make_shared<Obj2>();
  uint64_t b = vs::new_calls();
  switch (r.below(10)) {
  case 0: { pc::unique_function<long(Obj &, long)> f(&Obj::get); no_new(b, "storing a member pointer"); VS_CHECK(f(o, 1) == 12, "member function"); break; }
  case 1: { pc::unique_function<long(Obj *, long)> f(&Obj::cget); no_new(b, "storing a member pointer"); VS_CHECK(f(&o, 1) == 10, "member function"); break; }
  case 2: { pc::unique_function<long(std::unique_ptr<Obj> &, long)> f(&Obj::virt); no_new(b, "storing a member pointer"); VS_CHECK(f(u, 1) == 3, "virtual member function"); break; }
  case 3: { pc::unique_function<long(std::shared_ptr<Obj2>, long)> f(&Obj::virt); no_new(b, "storing a member pointer"); VS_CHECK(f(sp, 2) == 4, "virtual member function"); break; }
  case 4: { pc::unique_function<long(std::reference_wrapper<Obj2>, long)> f(&Obj::get); no_new(b, "storing a member pointer"); VS_CHECK(f(std::ref(o), 2) == 13, "member function through reference_wrapper"); break; }
  case 5: { pc::unique_function<long &(Obj2 &)> f(&Obj2::field); no_new(b, "storing a member pointer"); VS_CHECK(&f(o) == &o.field, "data member is not the same object"); break; }
  case 6: { pc::unique_function<long(Obj2 *)> f(&Obj2::field); VS_CHECK(f(&o) == 3, "data member"); break; }
  case 7: { pc::unique_function<long &(std::reference_wrapper<Obj2>)> f(&Obj2::field); VS_CHECK(&f(std::ref(o)) == &o.field, "data member is not the same object"); break; }
  case 8: { long (Obj::*p)(long) = nullptr; pc::unique_function<long(Obj &, long)> f(p); VS_CHECK(!f, "null member function pointer is not empty"); try { f(o, 1); vs::fail("called"); } catch (const std::bad_function_call &) {} break; }
  default: { long Obj::*p = nullptr; pc::unique_function<long(Obj &)> f(p); VS_CHECK(!f, "null data member pointer is not empty"); try { f(o); vs::fail("called"); } catch (const std::bad_function_call &) {} break; }
  }
}
// constructing from a callable which cannot be copied right now
struct BadCopy {
  Own o;
  int *fuse;
  Pad<10> big;
  BadCopy(int id, int *f) : o(id), fuse(f) {}
  BadCopy(const BadCopy &x) : o((x.boom(), x.o)), fuse(x.fuse) {}
  void boom() const { if (--*fuse < 0) throw Err(1); }
  long operator()() { return 1; }
};
SCEN_F(construction_fails, 1, vs::SEQ) {
  for (auto &c : g_own) c.set(0);
  {
    int fuse = r.range(0, 2);
    BadCopy b(1, &fuse);
    try { pc::unique_function<long()> f(b); VS_CHECK(f() == 1, "wrong result"); } catch (const Err &) {}
    if (r.chance(50)) { Own o(2); vs::fail_new_after(0); try { pc::unique_function<long()> f([o, p = Pad<10>{}] { (void)p; return (long)o.id; }); } catch (const std::bad_alloc &) {} vs::fail_new_after(-1); }
  }
  VS_CHECK(g_own[1].get() == 0 && g_own[2].get() == 0, "callable leaked by a failed construction");
}
// tasks handed to executors and packaged tasks fit without heap allocation
struct NoHeapEx {
  template <class F> friend void post(NoHeapEx, F f) {
    uint64_t b = vs::new_calls();
    pc::unique_function<void()> u(std::move(f));
    pc::unique_function<void()> w(std::move(u));
    no_new(b, "wrapping a task given to an executor");
    w();
  }
};
namespace portable_concurrency { template <> struct is_executor<NoHeapEx> : std::true_type {}; }
SCEN_F(tasks_fit, 2, vs::SEQ) {
  Pad<30> pad{};
  Big big(3);
  switch (r.below(5)) {
  case 0: { auto f = pc::async(NoHeapEx{}, [pad, big](Big b) { (void)pad; return b.id() + big.id(); }, Big(4)); VS_CHECK(f.get() == 7, "result"); break; }
  case 1: { auto f = pc::make_ready_future(Big(2)).next(NoHeapEx{}, [pad](Big b) { (void)pad; return b.id(); }); VS_CHECK(f.get() == 2, "result"); break; }
  case 2: { auto f = pc::make_ready_future(Big(2)).share().then(NoHeapEx{}, [pad](pc::shared_future<Big> b) { (void)pad; return b.get().id(); }); VS_CHECK(f.get() == 2, "result"); break; }
  case 3: { auto f = pc::make_ready_future(Big(2)).then(NoHeapEx{}, [pad](pc::promise<long> p, pc::future<Big> b) { (void)pad; p.set_value(b.get().id()); }); VS_CHECK(f.get() == 2, "result"); break; }
  default: { pc::packaged_task<long()> t([pad, big] { (void)pad; return big.id(); }); auto f = t.get_future(); post(NoHeapEx{}, std::move(t)); VS_CHECK(f.get() == 3, "result"); break; }
  }
}
