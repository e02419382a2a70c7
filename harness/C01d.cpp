// values of many ordinary and odd types: whatever the type, the object delivered equals the object stored
#include "deliver.h"
#include <array>
#include <cmath>
#include <cstring>
namespace {
struct Amp { // unusual operators
  long id;
  explicit Amp(long i) : id(i) {}
  template <class U> friend int operator,(const Amp &, U &&) { vs::fail("operator, of the value used"); }
  template <class U> friend int operator,(U &&, const Amp &) { vs::fail("operator, of the value used"); }
};
struct alignas(128) Wide { long id; char pad[130]; };
struct Node { long id; std::unique_ptr<Node> next; };
enum class En : unsigned char { A = 200 };
struct Empty {};
using UF = pc::unique_function<long()>;
using FP = long (*)(long);
static long twice(long x) { return 2 * x; }
struct NoDefault { const long id; explicit NoDefault(long i) : id(i) {} };

template <class T> struct Kit;
template <> struct Kit<bool> { static bool make(long i) { return i & 1; } static bool same(bool &v, long i) { return v == bool(i & 1); } };
template <> struct Kit<double> { static double make(long i) { return i == 1 ? NAN : i == 2 ? -0.0 : i / 3.0; } static bool same(double &v, long i) { return i == 1 ? std::isnan(v) : i == 2 ? v == 0 && std::signbit(v) : v == i / 3.0; } };
template <> struct Kit<std::string> { static std::string make(long i) { return std::string(i * 7 % 40, 'x'); } static bool same(std::string &v, long i) { return v == make(i); } };
template <> struct Kit<Node> { static Node make(long i) { return {i, std::unique_ptr<Node>(new Node{i + 1, nullptr})}; } static bool same(Node &v, long i) { return v.id == i && v.next && v.next->id == i + 1; } };
template <> struct Kit<std::vector<bool>> { static std::vector<bool> make(long i) { return std::vector<bool>(i % 70, i & 1); } static bool same(std::vector<bool> &v, long i) { return v == make(i); } };
template <> struct Kit<Amp> { static Amp make(long i) { return Amp(i); } static bool same(Amp &v, long i) { return v.id == i; } };
template <> struct Kit<UF> { static UF make(long i) { return UF([i, l = Life()] { l.check("called"); return i; }); } static bool same(UF &v, long i) { return v && v() == i; } };
template <> struct Kit<FP> { static FP make(long i) { return i & 1 ? &twice : nullptr; } static bool same(FP &v, long i) { return v == make(i) && (!v || v(4) == 8); } };
template <> struct Kit<void *> { static void *make(long i) { return i ? reinterpret_cast<void *>(i * 16) : nullptr; } static bool same(void *&v, long i) { return v == make(i); } };
template <> struct Kit<std::nullptr_t> { static std::nullptr_t make(long) { return nullptr; } static bool same(std::nullptr_t &v, long) { return v == nullptr; } };
template <> struct Kit<std::pair<std::unique_ptr<long>, std::string>> { using P = std::pair<std::unique_ptr<long>, std::string>; static P make(long i) { return P(new long(i), "p"); } static bool same(P &v, long i) { return v.first && *v.first == i && v.second == "p"; } };
template <> struct Kit<std::tuple<>> { static std::tuple<> make(long) { return {}; } static bool same(std::tuple<> &, long) { return true; } };
template <> struct Kit<std::array<long, 40>> { using A = std::array<long, 40>; static A make(long i) { A a; for (auto &x : a) x = i++; return a; } static bool same(A &v, long i) { return v == make(i); } };
template <> struct Kit<En> { static En make(long i) { return En(200 + i % 50); } static bool same(En &v, long i) { return v == make(i); } };
template <> struct Kit<Wide> { static Wide make(long i) { Wide w; w.id = i; memset(w.pad, (int)i, sizeof w.pad); return w; } static bool same(Wide &v, long i) { return v.id == i && reinterpret_cast<uintptr_t>(&v) % 128 == 0 && v.pad[129] == (char)i && v.pad[0] == (char)i; } };
template <> struct Kit<Empty> { static Empty make(long) { return {}; } static bool same(Empty &, long) { return true; } };
template <> struct Kit<NoDefault> { static NoDefault make(long i) { return NoDefault(i); } static bool same(NoDefault &v, long i) { return v.id == i; } };
template <> struct Kit<pc::promise<long>> { // a producer travelling as a value
  static pc::future<long> f;
  static pc::promise<long> make(long) { auto pf = pc::make_promise<long>(); f = std::move(pf.second); return std::move(pf.first); }
  static bool same(pc::promise<long> &p, long i) { if (f.is_ready() || !p.is_awaiten()) return false; p.set_value(i); return f.get() == i; }
};
pc::future<long> Kit<pc::promise<long>>::f;

template <class T> static void travel(Rng &r, const char *name) {
  using K = Kit<T>;
  long id = r.range(0, 99);
  int in = r.below(6), out = r.below(8);
  pc::future<T> f;
  auto pf = pc::make_promise<T>();
  std::unique_ptr<pc::packaged_task<T()>> task;
  QueueEx q;
  std::function<void()> fire = [] {};
  switch (in) {
  case 0: f = std::move(pf.second); fire = [&] { pf.first.set_value(K::make(id)); }; break;
  case 1: f = pc::make_ready_future(K::make(id)); break;
  case 2: task.reset(new pc::packaged_task<T()>([id] { return K::make(id); })); f = task->get_future(); fire = [&] { (*task)(); task.reset(); }; break;
  case 3: f = pc::async(Ex{&q}, [](long i, Empty) { return K::make(i); }, id, Empty{}); fire = [&] { q.run_all(); }; break;
  case 4: f = pc::make_ready_future(id).next([](long i) { return K::make(i); }); break;
  default: f = pf.second.then([id](pc::future<T> x) { pc::future<T> y = std::move(x); (void)id; return y; }); fire = [&] { pf.first.set_value(K::make(id)); };
  }
  bool early = r.chance(50);
  if (early) fire();
  auto go = [&] { if (!early) fire(); };
  bool ok = false;
  vs::Cnt ran;
  switch (out) {
  case 0: { go(); T v = f.get(); ok = K::same(v, id); break; }
  case 1: { auto s = f.share(); go(); ok = K::same(const_cast<T &>(s.get()), id); VS_CHECK(std::addressof(s.get()) == std::addressof(s.get()), "two objects"); break; }
  case 2: { auto g = f.next([&](T v) { ran.inc(); ok = K::same(v, id); }); go(); g.get(); break; }
  case 3: { auto g = f.next([&](T &&v) { ran.inc(); T w(std::move(v)); return w; }); go(); T v = g.get(); ok = K::same(v, id); break; }
  case 4: { auto g = f.then([&](pc::future<T> x) { ran.inc(); return x.get(); }); go(); T v = g.get(); ok = K::same(v, id); break; }
  case 5: { auto s = f.share(); auto g = s.next([&](const T &v) { ran.inc(); ok = K::same(const_cast<T &>(v), id); }); go(); g.get(); break; }
  case 6: { auto g = pc::when_all(std::move(f), pc::make_ready_future()); go(); auto t = g.get(); T v = std::get<0>(t).get(); ok = K::same(v, id); break; }
  default: { auto g = f.then([&](pc::promise<T> p, pc::future<T> x) { ran.inc(); p.set_value(x.get()); }); go(); T v = g.get(); ok = K::same(v, id); }
  }
  VS_CHECK(ok, "%s: the value delivered differs from the one stored (in %d out %d)", name, in, out);
}
} // namespace
#define T1(t) case __COUNTER__ - base: travel<t>(r, #t); break
SCEN_F(odd_types, 3, vs::SEQ) {
  using P = std::pair<std::unique_ptr<long>, std::string>;
  using A40 = std::array<long, 40>;
  enum { base = __COUNTER__ + 1 };
  switch (r.below(18)) {
    T1(bool); T1(double); T1(std::string); T1(Node); T1(std::vector<bool>); T1(Amp); T1(UF); T1(FP);
    T1(void *); T1(std::nullptr_t); T1(P); T1(std::tuple<>); T1(A40); T1(En); T1(Wide); T1(Empty); T1(NoDefault); T1(pc::promise<long>);
  }
}

// references to const objects
SCEN_F(const_refs, 1, vs::SEQ) {
  long id = r.range(0, 99);
  auto pf = pc::make_promise<const Val &>();
  const Val obj(id);
  bool first = r.chance(50);
  if (first) pf.first.set_value(obj);
  auto go = [&] { if (!first) pf.first.set_value(obj); };
  const Val *got = nullptr;
  switch (r.below(4)) {
  case 0: { auto g = pf.second.next([](const Val &v) { return &v; }); go(); got = g.get(); break; }
  case 1: { auto g = pf.second.share(); go(); got = &g.get(); break; }
  case 2: { auto g = pf.second.then([](pc::future<const Val &> f) { return &f.get(); }); go(); got = g.get(); break; }
  default: go(); got = &pf.second.get();
  }
  VS_CHECK(got == &obj && obj.id() == id, "reference to const changed");
}
