From a2c3dc2e5be99c6ba0593ba18f20de7cd0c8d092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:26 +0000
Subject: [PATCH 01/12] fix: destroy thread pool task as soon as it is executed

The worker kept the executed task until the next one was popped: everything
captured by it stayed alive while the pool was idle and was then destroyed
inside closable_queue::pop with the queue mutex locked, so a destructor
posting to the same pool deadlocked.
---
 portable_concurrency/bits/portable_concurrency.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 7d12602..160dfb9 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -89,8 +89,12 @@ void process_queue(
   const std::atomic<bool> &stopped
 ) noexcept {
   unique_function<void()> task;
-  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task))
+  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task)) {
     task();
+    // Destroy executed task right away. Otherwise it would be kept alive for as
+    // long as the queue is empty and then destroyed with the queue mutex locked.
+    task = unique_function<void()>{};
+  }
 }
 
 } // namespace
-- 
2.43.0


From 162d0f0a7d02a9adeb83e77e58a1a9c9b680d7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:26 +0000
Subject: [PATCH 02/12] fix: do not touch latch after count_down made it ready

count_down notified the condition variable after unlocking the mutex while a
released waiter was already allowed to destroy the latch.
---
 .../bits/portable_concurrency.cpp                | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 160dfb9..7dfc19e 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -121,14 +121,14 @@ void latch::count_down_and_wait() {
 }
 
 void latch::count_down(ptrdiff_t n) {
-  {
-    std::lock_guard<std::mutex> lock{mutex_};
-    assert(counter_ >= n);
-    assert(n >= 0);
-    counter_ -= n;
-    if (counter_ > 0)
-      return;
-  }
+  // Notification must be sent with the mutex locked: once it is unlocked with
+  // zero counter the latch can be destroyed by any other thread.
+  std::lock_guard<std::mutex> lock{mutex_};
+  assert(counter_ >= n);
+  assert(n >= 0);
+  counter_ -= n;
+  if (counter_ > 0)
+    return;
   cv_.notify_all();
 }
 
-- 
2.43.0


From c9fa6a75bb28705315c710f4797ac946d15cf9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:26 +0000
Subject: [PATCH 03/12] fix: return references unchanged from big callables in
 unique_function

The wrapper of a heap allocated callable decayed its result, so a
unique_function returning a reference returned a dangling one.
---
 portable_concurrency/bits/unique_function.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/unique_function.hpp b/portable_concurrency/bits/unique_function.hpp
index 9933172..df98fdd 100644
--- a/portable_concurrency/bits/unique_function.hpp
+++ b/portable_concurrency/bits/unique_function.hpp
@@ -33,7 +33,9 @@ unique_function<R(A...)>::unique_function(F &&f, std::false_type) {
   if (detail::is_null(f))
     return;
   func_ = [func = std::make_unique<std::decay_t<F>>(std::forward<F>(f))](
-              A... a) { return detail::invoke(*func, std::forward<A>(a)...); };
+              A... a) -> decltype(auto) {
+    return detail::invoke(*func, std::forward<A>(a)...);
+  };
 }
 
 template <typename R, typename... A>
-- 
2.43.0


From ec9bb534c61c1b693e7cf23efda5d4e149d67c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:26 +0000
Subject: [PATCH 04/12] fix: self move assignment of unique_function

The stored callable was destroyed and then moved from.
---
 portable_concurrency/bits/small_unique_function.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portable_concurrency/bits/small_unique_function.hpp b/portable_concurrency/bits/small_unique_function.hpp
index 0aadd0a..a302af3 100644
--- a/portable_concurrency/bits/small_unique_function.hpp
+++ b/portable_concurrency/bits/small_unique_function.hpp
@@ -123,6 +123,8 @@ small_unique_function<R(A...)>::small_unique_function(
 template <typename R, typename... A>
 small_unique_function<R(A...)> &small_unique_function<R(A...)>::operator=(
     small_unique_function<R(A...)> &&rhs) noexcept {
+  if (this == &rhs)
+    return *this;
   if (vtbl_)
     vtbl_->destroy(buffer_);
   if (rhs.vtbl_)
-- 
2.43.0


From f3dd9cdb20cf76d3950f217b566959bc71f85051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:26 +0000
Subject: [PATCH 05/12] fix: do not move from objects returned by reference in
 packaged_task

packaged_task<R(A...)> built from a function returning R& moved the referenced
object, which still belongs to the user, into the shared state.
---
 portable_concurrency/bits/shared_state.h | 8 +++++++-
 portable_concurrency/bits/utils.h        | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/shared_state.h b/portable_concurrency/bits/shared_state.h
index 78707eb..a972691 100644
--- a/portable_concurrency/bits/shared_state.h
+++ b/portable_concurrency/bits/shared_state.h
@@ -115,9 +115,15 @@ public:
     unwrap(self, state_of(std::move(val)));
   }
 
+  static void unwrap(std::shared_ptr<shared_state> &self,
+                     const shared_future<T> &val) {
+    unwrap(self, shared_future<T>{val});
+  }
+
   template <typename U>
   static std::enable_if_t<
-      !std::is_same<std::decay_t<U>, std::shared_ptr<future_state<T>>>::value>
+      !std::is_same<std::decay_t<U>, std::shared_ptr<future_state<T>>>::value &&
+      !is_future<std::decay_t<U>>::value>
   unwrap(std::shared_ptr<shared_state> &self, U &&val) {
     self->emplace(std::forward<U>(val));
   }
diff --git a/portable_concurrency/bits/utils.h b/portable_concurrency/bits/utils.h
index 6df231f..daa9e48 100644
--- a/portable_concurrency/bits/utils.h
+++ b/portable_concurrency/bits/utils.h
@@ -17,7 +17,7 @@ void set_state_value(std::shared_ptr<shared_state<R>> &state, F &&f, A &&...a) {
     auto &&res = ::portable_concurrency::cxx14_v1::detail::invoke(
         std::forward<F>(f), std::forward<A>(a)...);
     executed = true;
-    shared_state<R>::unwrap(state, std::move(res));
+    shared_state<R>::unwrap(state, std::forward<decltype(res)>(res));
   } catch (...) {
     if (executed)
       throw;
-- 
2.43.0


From b25e31254f2db70161d0ce6d92ebf91036d2458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:26 +0000
Subject: [PATCH 06/12] fix: keep shared_future valid after attaching
 interruptible continuation

Unlike every other continuation of shared_future the interruptible one moved
the state out of the shared_future it was attached to.
---
 portable_concurrency/bits/shared_future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/shared_future.hpp b/portable_concurrency/bits/shared_future.hpp
index 069745d..0fe53ff 100644
--- a/portable_concurrency/bits/shared_future.hpp
+++ b/portable_concurrency/bits/shared_future.hpp
@@ -191,7 +191,7 @@ shared_future<T>::then(E &&exec, F &&f) {
   detail::continuations_stack &subscriptions = state_->continuations();
   return detail::make_then_state<result_type>(
       subscriptions, std::forward<E>(exec),
-      [f = std::forward<F>(f), parent = std::move(state_)](
+      [f = std::forward<F>(f), parent = state_](
           std::shared_ptr<detail::shared_state<result_type>>
               state) mutable noexcept {
         promise<result_type> p{std::exchange(state, nullptr)};
-- 
2.43.0


From 6d84677052c20f92477970d3421fab5e70702c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:02 +0000
Subject: [PATCH 07/12] fix: let async accept functions returning references

detail::task decayed the result of the stored function, so async with a
function returning T& declared future<T&> but failed to compile.
---
 portable_concurrency/bits/async.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/async.h b/portable_concurrency/bits/async.h
index 1097b4c..27d9736 100644
--- a/portable_concurrency/bits/async.h
+++ b/portable_concurrency/bits/async.h
@@ -24,10 +24,12 @@ public:
   task(F &&f, A &&...a)
       : func_(std::forward<F>(f)), args_(std::forward<A>(a)...) {}
 
-  auto operator()() { return run(std::make_index_sequence<sizeof...(A)>()); }
+  decltype(auto) operator()() {
+    return run(std::make_index_sequence<sizeof...(A)>());
+  }
 
 private:
-  template <size_t... I> auto run(std::index_sequence<I...>) {
+  template <size_t... I> decltype(auto) run(std::index_sequence<I...>) {
     return this_ns::invoke(std::move(func_), std::move(std::get<I>(args_))...);
   }
 
-- 
2.43.0


From e1b53c66c137f2fd81b3ea9b2fb2513b871ad1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:01 +0000
Subject: [PATCH 08/12] fix: wait for attached threads in
 static_thread_pool::wait

Threads attached to a pool without own threads were not awaited, so wait
could return while they were still executing tasks.
---
 portable_concurrency/bits/portable_concurrency.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 7dfc19e..d046eb9 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -211,6 +211,9 @@ void static_thread_pool::wait() {
       thread.join();
   }
   threads_.clear();
+  // There can be no own threads to wait for attached ones
+  std::unique_lock<std::mutex> lock{mutex_};
+  cv_.wait(lock, [&] { return attached_threads_ == 0; });
 }
 
 } // namespace cxx14_v1
-- 
2.43.0


From 9f08c4c37779e830da8743c5b9e4f0a4f9c38a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:08 +0000
Subject: [PATCH 09/12] fix: abandon continuation replaced by move assignment
 of its action

---
 portable_concurrency/bits/then.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/then.hpp b/portable_concurrency/bits/then.hpp
index bca2740..87612c3 100644
--- a/portable_concurrency/bits/then.hpp
+++ b/portable_concurrency/bits/then.hpp
@@ -184,7 +184,9 @@ template <typename CntState> struct cnt_action {
   cnt_action(std::weak_ptr<CntState> wdata) : wdata(std::move(wdata)) {}
   cnt_action(cnt_action &&rhs) noexcept : wdata(std::move(rhs.wdata)) {}
   cnt_action &operator=(cnt_action &&rhs) noexcept {
-    wdata = std::move(rhs.wdata);
+    // Replaced action is abandoned by the temporary object destructor
+    cnt_action tmp{std::move(rhs)};
+    wdata.swap(tmp.wdata);
     return *this;
   }
 
-- 
2.43.0


From f1a9017c75e55caf7bdac462f827b312059103c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:37 +0000
Subject: [PATCH 10/12] fix: static_thread_pool constructor terminates the
 program when a thread can't be created

Threads started before the failure were destroyed joinable. Stop and join
them and let the exception reach the caller.
---
 portable_concurrency/bits/portable_concurrency.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index d046eb9..6669165 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -176,8 +176,15 @@ future<when_any_result<std::tuple<>>> when_any() {
 
 static_thread_pool::static_thread_pool(std::size_t num_threads) {
   threads_.reserve(num_threads);
-  while (num_threads-- > 0)
-    threads_.push_back(std::thread{&static_thread_pool::attach, this});
+  try {
+    while (num_threads-- > 0)
+      threads_.push_back(std::thread{&static_thread_pool::attach, this});
+  } catch (...) {
+    // Threads already running must be joined before they are destroyed
+    stop();
+    wait();
+    throw;
+  }
 }
 
 static_thread_pool::~static_thread_pool() {
-- 
2.43.0


From 5b37f8eff182dfa8f90f755e4bfe030644cec492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:44 +0000
Subject: [PATCH 11/12] fix: deliver failure to subscribe while unwrapping
 instead of losing the result

---
 portable_concurrency/bits/shared_state.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/shared_state.h b/portable_concurrency/bits/shared_state.h
index a972691..7892395 100644
--- a/portable_concurrency/bits/shared_state.h
+++ b/portable_concurrency/bits/shared_state.h
@@ -93,7 +93,7 @@ public:
   continuations_stack &continuations() final { return continuations_; }
 
   static void unwrap(std::shared_ptr<shared_state> &self,
-                     const std::shared_ptr<future_state<T>> &val) {
+                     const std::shared_ptr<future_state<T>> &val) try {
     assert(self);
     if (!val) {
       self->set_exception(make_broken_promise());
@@ -104,6 +104,11 @@ public:
       if (auto self = wself.lock())
         self->continuations().execute();
     });
+  } catch (...) {
+    // Failed to subscribe: nobody is going to make this state ready later
+    if (self->storage_.state() == 2 && !self->continuations().executed())
+      self->storage_.clean();
+    throw;
   }
 
   static void unwrap(std::shared_ptr<shared_state> &self, future<T> &&val) {
-- 
2.43.0


From 12a7985375e6e878506eed1bcd4425e1d7b7f013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:44 +0000
Subject: [PATCH 12/12] fix: execute remaining continuations when one of them
 fails

---
 portable_concurrency/bits/portable_concurrency.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 6669165..2519442 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -34,8 +34,16 @@ void continuations_stack::push(continuation &&cnt) {
 
 void continuations_stack::execute() {
   auto continuations = stack_.consume();
-  for (auto &cnt : continuations)
+  // Failure of one continuation must not affect the others
+  std::exception_ptr error;
+  for (auto &cnt : continuations) try {
     cnt();
+  } catch (...) {
+    if (!error)
+      error = std::current_exception();
+  }
+  if (error)
+    std::rethrow_exception(error);
 }
 
 bool continuations_stack::executed() const { return stack_.is_consumed(); }
-- 
2.43.0

