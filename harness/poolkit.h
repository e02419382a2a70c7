#pragma once
#include "prod.h"
using namespace tk;
using PEx = pc::static_thread_pool::executor_type;
template <class F> static void pool_post(PEx e, F f) { post(e, Task(std::move(f))); }
template <class F> static void pool_post_raw(PEx e, F f) { post(e, std::move(f)); }

static thread_local int t_role = 0; // 0 worker (unknown to the harness), 1 main/poster/waiter, 2 attached
struct Role {
  int old;
  explicit Role(int r) : old(t_role) { t_role = r; }
  ~Role() { t_role = old; }
};
struct TaskRec {
  vs::Cnt ran, done, alive;
  uint64_t posted_begin = 0, posted_end = 0;
  long order = -1;
};
