// Inputs for when_all / when_any.
#pragma once
#include "prod.h"
#include <forward_list>
#include <set>
using namespace tk;

template <class T> struct In {
  Producer<T> p;
  Out o;
  vs::Cnt fired; // set right before the outcome is produced
  int when = 0;  // 0 before combining, 1 concurrently, 2 afterwards
  int thread = 0;
  pc::future<T> u;
  pc::shared_future<T> s, mine;
  void fire() { fired.set(1); p.impl->fire(o); }
};
template <class T> static void open(Rng &r, In<T> &in, bool shared, bool seq) {
  in.p = make_producer<T>(r);
  in.o = norm<T>(with_ep(random_out(r, 60, 15)));
  in.when = seq ? r.below(2) * 2 : r.below(3);
  in.thread = r.below(2);
  if (shared) { in.s = in.p.fut.share(); in.mine = in.s; }
  else in.u = std::move(in.p.fut);
  if (in.when == 0) in.fire();
}
template <class F> struct FutT;
template <class T> struct FutT<pc::future<T>> { using type = T; static pc::future<T> take(In<T> &i) { return std::move(i.u); } static constexpr bool shared = false; };
template <class T> struct FutT<pc::shared_future<T>> { using type = T; static pc::shared_future<T> take(In<T> &i) { return i.s; } static constexpr bool shared = true; };

// allocator which is not std::allocator, counts blocks
extern vs::Cnt g_alloc_blocks;
template <class T> struct CountAlloc {
  using value_type = T;
  CountAlloc() = default;
  template <class U> CountAlloc(const CountAlloc<U> &) {}
  T *allocate(size_t n) { g_alloc_blocks.inc(); return static_cast<T *>(::operator new(n * sizeof(T))); }
  void deallocate(T *p, size_t) { g_alloc_blocks.inc(-1); ::operator delete(p); }
  friend bool operator==(CountAlloc, CountAlloc) { return true; }
  friend bool operator!=(CountAlloc, CountAlloc) { return false; }
};

// single pass iterator: all copies share one position, each element may be passed by once
template <class F> struct Once {
  using iterator_category = std::input_iterator_tag;
  using value_type = F;
  using difference_type = std::ptrdiff_t;
  using pointer = F *;
  using reference = F &;
  struct Pos { std::vector<F> *v; size_t i; };
  std::shared_ptr<Pos> p; // null: past the end
  Once() = default;
  explicit Once(std::vector<F> &v) : p(new Pos{&v, 0}) {}
  bool end() const { return !p || p->i >= p->v->size(); }
  F &operator*() const { VS_CHECK(!end(), "iterator dereferenced past the end of the range"); return (*p->v)[p->i]; }
  F *operator->() const { return &**this; }
  Once &operator++() { VS_CHECK(!end(), "iterator moved past the end of the range"); p->i++; return *this; }
  Once operator++(int) { Once c(*this); ++*this; return c; }
  friend bool operator==(const Once &a, const Once &b) { return a.end() == b.end(); }
  friend bool operator!=(const Once &a, const Once &b) { return !(a == b); }
};

// fires the inputs due at time `when` from up to two threads (started now)
template <class V> static void fire_when(V &ins, int when, std::vector<std::thread> *ts, Rng &r) {
  std::vector<int> ord;
  for (int i = 0; i < (int)ins.size(); i++) if (ins[i].when == when) ord.push_back(i);
  for (int i = (int)ord.size() - 1; i > 0; i--) std::swap(ord[i], ord[r.below(i + 1)]);
  if (!ts) { for (int i : ord) ins[i].fire(); return; }
  for (int k = 0; k < 2; k++) {
    std::vector<int> mine;
    for (int i : ord) if (ins[i].thread == k) mine.push_back(i);
    if (!mine.empty()) ts->emplace_back([&ins, mine] { for (int i : mine) { vs::point(); ins[i].fire(); } });
  }
}
