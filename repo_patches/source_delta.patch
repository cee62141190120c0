From a08207831c5a557fde504d825a1e5bfe4e76fa71 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 01/19] fix: destroy_and_transfer_control_to reads destroyed
 frame when inlined (clang)

---
 include/kelcoro/common.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/common.hpp b/include/kelcoro/common.hpp
index db6b327..0646e7d 100644
--- a/include/kelcoro/common.hpp
+++ b/include/kelcoro/common.hpp
@@ -259,7 +259,8 @@ struct [[nodiscard("co_await it!")]] destroy_and_transfer_control_to {
   static bool await_ready() noexcept {
     return false;
   }
-  KELCORO_ASSUME_NOONE_SEES std::coroutine_handle<> await_suspend(std::coroutine_handle<> self) noexcept {
+  // must not be inlined into coroutine body: local variable may be placed on destroyed coroutine frame
+  std::coroutine_handle<> await_suspend(std::coroutine_handle<> self) noexcept {
     // move it to stack memory to save from destruction
     auto w = who_waits;
     self.destroy();
-- 
2.43.0


From 323bd4cf2148d8ed6b926d58e1210f3ae8c9144e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 02/19] fix: fixed_array forgets memory resource passed to
 constructor

---
 include/kelcoro/noexport/fixed_array.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/noexport/fixed_array.hpp b/include/kelcoro/noexport/fixed_array.hpp
index 5641054..94b7cb9 100644
--- a/include/kelcoro/noexport/fixed_array.hpp
+++ b/include/kelcoro/noexport/fixed_array.hpp
@@ -27,10 +27,11 @@ struct fixed_array {
     std::swap(resource, rhs.resource);
     return *this;
   }
-  fixed_array(size_t n, std::pmr::memory_resource& resource = *std::pmr::new_delete_resource()) : n(n) {
+  fixed_array(size_t n, std::pmr::memory_resource& r = *std::pmr::new_delete_resource())
+      : n(n), resource(&r) {
     if (n == 0)
       return;
-    arr = (T*)resource.allocate(sizeof(T) * n, alignof(T));
+    arr = (T*)resource->allocate(sizeof(T) * n, alignof(T));
     std::uninitialized_default_construct_n(arr, n);
   }
 
-- 
2.43.0


From 1283c10c7c24aff1cc5e1320bebc347ce6af675b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 03/19] fix: ~thread_pool after request_stop links one pill
 into several queues and loses tasks

---
 include/kelcoro/thread_pool.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/thread_pool.hpp b/include/kelcoro/thread_pool.hpp
index 859facb..a6dd8d2 100644
--- a/include/kelcoro/thread_pool.hpp
+++ b/include/kelcoro/thread_pool.hpp
@@ -278,11 +278,14 @@ struct thread_pool {
     // You can't just reset it because the queue is inside the worker,
     // and in that case, while the stop was
     // going on, someone could push into the dead queue.
-    task_node pill = task_node::deadpill();
     for (size_t i = 0; i < threads.size(); i++) {
       if (threads[i].joinable()) {
+        task_node pill = task_node::deadpill();
         queues[i].push(&pill);
         threads[i].join();
+        // if worker was already stopped (request_stop), no one popped 'pill',
+        // it must not stay in the queue (or be pushed into another one)
+        noexport::cancel_tasks(queues[i].pop_all());
       }
     }
     for (auto& q : queues)
-- 
2.43.0


From c3caf8650c6c33aec856a581e2e84e2d4bb49173 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 04/19] fix: when_any(event...) reads its awaiter after waiting
 coroutine may be resumed

---
 include/kelcoro/events.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/events.hpp b/include/kelcoro/events.hpp
index 5691981..dfd2c26 100644
--- a/include/kelcoro/events.hpp
+++ b/include/kelcoro/events.hpp
@@ -182,6 +182,8 @@ KELCORO_CO_AWAIT_REQUIRED constexpr auto when_any(event<Inputs>&... events) {
       return false;
     }
     void await_suspend(std::coroutine_handle<void> handle) {
+      // coroutine may be resumed and destroyed with this awaiter while subscribing
+      std::tuple<event<Inputs>&...> events = events_;
       // need to allocate, because after coro resuming awaiter will die(with flag in it)
       auto count_ptr = std::make_shared<std::atomic<uint8_t>>(0);
       const auto create_cb_for = [&]<typename Input, size_t EventIndex>(
@@ -206,7 +208,7 @@ KELCORO_CO_AWAIT_REQUIRED constexpr auto when_any(event<Inputs>&... events) {
         }
       };
       [&]<size_t... Is>(std::index_sequence<Is...>) {
-        (std::get<Is>(events_).set_callback(
+        (std::get<Is>(events).set_callback(
              create_cb_for(std::type_identity<Inputs>{}, std::integral_constant<size_t, Is>{})),
          ...);
       }  // INVOKED HERE
-- 
2.43.0


From ffe741518bd42a0031d8b5c1df42e65b308841af Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 05/19] fix: event::notify_all loses waiters when copy of input
 throws

---
 include/kelcoro/events.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/events.hpp b/include/kelcoro/events.hpp
index dfd2c26..6fb6704 100644
--- a/include/kelcoro/events.hpp
+++ b/include/kelcoro/events.hpp
@@ -83,9 +83,15 @@ struct event {
     task_node* top = subscribers.try_pop_all();
     if (!top)
       return false;
-    // TODO not ignore exception from attach/copy construct
+    try {
+      for (task_node* node = top; node; node = node->next)
+        static_cast<subscribe*>(node)->input = input;
+    } catch (...) {
+      subscribers.push_stack(top);
+      throw;
+    }
+    // TODO not ignore exception from attach
     while (top) {
-      static_cast<subscribe*>(top)->input = input;
       task_node* next = top->next;
       exe.attach(top);
       top = next;
-- 
2.43.0


From 6b9a71a66e25ff3e3ffe87edd09a5d102641b87e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 06/19] fix: empty generator<nothing_t> dereferences null
 handle

---
 include/kelcoro/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index 4ae3185..3a31069 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -177,7 +177,7 @@ struct generator_iterator {
     if constexpr (!std::is_same_v<nothing_t, Yield>) {
       return self->current_result == nullptr;
     } else {
-      return self->top.done();
+      return self->empty();
     }
   }
   constexpr reference operator*() const noexcept {
-- 
2.43.0


From 515bc38a240afdfc5252ef2bf2acaedc13e4169d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 07/19] fix: cleared/released generator keeps dangling result,
 reset does not bind consumer

---
 include/kelcoro/generator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index 3a31069..3befa8c 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -304,11 +304,14 @@ struct generator : enable_resource_deduction {
   constexpr void reset(handle_type handle) noexcept {
     clear();
     top = handle;
+    if (top)
+      prepare_to_start();
   }
 
   // postcondition: .empty()
   // its caller responsibility to correctly destroy handle
   [[nodiscard]] constexpr handle_type release() noexcept {
+    current_result = nullptr;
     return std::exchange(top, nullptr);
   }
   [[nodiscard]] constexpr handle_type raw_handle() const noexcept {
@@ -318,6 +321,7 @@ struct generator : enable_resource_deduction {
   // postcondition: .empty()
   constexpr void clear() noexcept {
     if (top) {
+      current_result = nullptr;
       top.destroy();
       top = nullptr;
     }
-- 
2.43.0


From 5ad2e957b8757fd4ccf85632d3d4a9e844e3aef0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 08/19] fix: cleared/released channel keeps dangling result

---
 include/kelcoro/channel.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 0dcb699..8b0eea7 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -250,6 +250,7 @@ struct channel : enable_resource_deduction {
   // postcondition: .empty()
   // after this method its caller responsibility to correctly destroy 'handle'
   [[nodiscard]] constexpr handle_type release() noexcept {
+    current_result = nullptr;
     return std::exchange(top, nullptr);
   }
   [[nodiscard]] constexpr handle_type raw_handle() const noexcept {
@@ -259,6 +260,7 @@ struct channel : enable_resource_deduction {
   // postcondition: .empty()
   constexpr void clear() noexcept {
     if (top) {
+      current_result = nullptr;
       top.destroy();
       top = nullptr;
     }
-- 
2.43.0


From e0721c91fc3497179325544c8022b503bee4f60a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 09/19] fix: channel swap/move leaves coroutine bound to the
 old channel object

---
 include/kelcoro/channel.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 8b0eea7..de8c283 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -238,6 +238,10 @@ struct channel : enable_resource_deduction {
     std::swap(handle, other.handle);
     std::swap(top, other.top);
     std::swap(exception, other.exception);
+    if (top)
+      top.promise()._consumer = this;
+    if (other.top)
+      other.top.promise()._consumer = std::addressof(other);
   }
   friend void swap(channel& a, channel& b) noexcept {
     a.swap(b);
-- 
2.43.0


From 8769dec7ae2764e3024eed8b9c9d3e2c8ec43ae9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 10/19] fix: channel_iterator equivalent() always false,
 owner() ill-formed

---
 include/kelcoro/channel.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index de8c283..7a3e823 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -155,10 +155,10 @@ struct channel_iterator {
 
   // return true if they are attached to same 'channel' object
   constexpr bool equivalent(const channel_iterator& other) const noexcept {
-    return std::addressof(chan) == std::addressof(other.chan);
+    return chan == other.chan;
   }
   channel<Yield>& owner() const noexcept {
-    return chan;
+    return *chan;
   }
 
   constexpr bool operator==(std::default_sentinel_t) const noexcept {
-- 
2.43.0


From 974fc649463eefdd942c05a2b229322ce33c67a7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 11/19] fix: expected::error() ill-formed

---
 include/kelcoro/noexport/expected.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/noexport/expected.hpp b/include/kelcoro/noexport/expected.hpp
index dd4410d..b972d9f 100644
--- a/include/kelcoro/noexport/expected.hpp
+++ b/include/kelcoro/noexport/expected.hpp
@@ -56,12 +56,12 @@ struct expected {
   // precondition: !has_value()
   E& error() noexcept {
     assert(!has_value());
-    return std::get_if<1>(&data);
+    return *std::get_if<1>(&data);
   }
   // precondition: !has_value()
   const E& error() const noexcept {
     assert(!has_value());
-    return std::get_if<1>(&data);
+    return *std::get_if<1>(&data);
   }
 };
 
-- 
2.43.0


From 458c0f2942658c3aa7787d1246f94b6e671b34f6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 12/19] fix: stack_resource::reuse_memory does not reclaim
 initial buffer

---
 include/kelcoro/stack_memory_resource.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kelcoro/stack_memory_resource.hpp b/include/kelcoro/stack_memory_resource.hpp
index 37f23e3..3b4435b 100644
--- a/include/kelcoro/stack_memory_resource.hpp
+++ b/include/kelcoro/stack_memory_resource.hpp
@@ -179,6 +179,7 @@ struct stack_resource {
       m = b;
       drop_cur_chunk();
     }
+    m = b;
   }
 };
 
-- 
2.43.0


From e9d50c56d44954ad22d5d8fc37681147a813b33f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 13/19] fix: latch waiters use awaiter and latch after they may
 be resumed and destroyed

---
 include/kelcoro/latch.hpp | 60 ++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/include/kelcoro/latch.hpp b/include/kelcoro/latch.hpp
index 8d5e25c..1374c9a 100644
--- a/include/kelcoro/latch.hpp
+++ b/include/kelcoro/latch.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
-#include "nonowner_lockfree_stack.hpp"
+#include <atomic>
+#include <limits>
+
 #include "executor_interface.hpp"
 #include "common.hpp"
 
@@ -10,10 +12,26 @@ namespace dd {
 // when completed, starts all waiters on passed executor
 struct latch {
  private:
-  nonowner_lockfree_stack<task_node> stack;
+  // marks that latch is completed, no one waits and no one will wait
+  static inline task_node completed;
+
+  // stack of waiters or &completed
+  std::atomic<task_node*> waiters;
   any_executor_ref exe;
   std::atomic_ptrdiff_t counter;
 
+  // returns false if latch is completed already, then 'node' is not pushed
+  [[nodiscard]] bool try_push(task_node* node) noexcept {
+    task_node* top = waiters.load(std::memory_order::acquire);
+    do {
+      if (top == &completed)
+        return false;
+      node->next = top;
+    } while (
+        !waiters.compare_exchange_weak(top, node, std::memory_order::acq_rel, std::memory_order::acquire));
+    return true;
+  }
+
   struct wait_awaiter {
     latch& l;
     task_node node;
@@ -21,12 +39,11 @@ struct latch {
     bool await_ready() const noexcept {
       return l.ready();
     }
-    void await_suspend(std::coroutine_handle<> handle) noexcept {
+    bool await_suspend(std::coroutine_handle<> handle) noexcept {
       node.task = handle;
-      l.stack.push(&node);
-      // in case if 'ready' changed from 'false' to 'true' wakeup all who call 'wait'
-      if (l.ready())
-        l.wakeup_all();
+      // after successfull push coroutine may be resumed by other thread,
+      // so neither awaiter nor latch may be accessed
+      return l.try_push(&node);
     }
     static void await_resume() noexcept {
     }
@@ -46,10 +63,17 @@ struct latch {
       // do not check here for preventing data race (counter == 0, but no task in queue)
       return false;
     }
-    void await_suspend(std::coroutine_handle<> handle) noexcept {
+    bool await_suspend(std::coroutine_handle<> handle) noexcept {
       node.task = handle;
-      l.stack.push(&node);
-      l.count_down(n);
+      latch& l_ = l;
+      const ptrdiff_t n_ = n;
+      if (!l_.try_push(&node))
+        return false;
+      // if n_ == 0, then same as 'wait', coroutine may be already resumed,
+      // otherwise latch can't be completed until this count_down
+      if (n_ != 0)
+        l_.count_down(n_);
+      return true;
     }
     static void await_resume() noexcept {
     }
@@ -57,7 +81,8 @@ struct latch {
 
  public:
   // precondition: count >= 0 and <= max, task will be executed on 'e'
-  constexpr explicit latch(ptrdiff_t count, any_executor_ref e) noexcept : counter(count), exe(e) {
+  constexpr explicit latch(ptrdiff_t count, any_executor_ref e) noexcept
+      : waiters(count == 0 ? &completed : nullptr), exe(e), counter(count) {
     assert(count >= 0 && count <= max());
   }
   latch(latch&&) = delete;
@@ -80,7 +105,9 @@ struct latch {
   // returns true if the internal counter has reached zero
   // never blocks, 'try_wait' in std::latch
   [[nodiscard]] bool ready() const noexcept {
-    return counter.load(std::memory_order::acquire) == 0;
+    // not a counter, because latch may be destroyed when it is ready,
+    // but count_down which made it ready still needs 'waiters'
+    return waiters.load(std::memory_order::acquire) == &completed;
   }
 
   // suspends the calling coroutine until the internal counter reaches ​0​.
@@ -102,8 +129,13 @@ struct latch {
 
  private:
   void wakeup_all() noexcept {
-    task_node* top = stack.try_pop_all();
-    attach_list(exe, top);
+    any_executor_ref e = exe;
+    task_node* top = waiters.exchange(&completed, std::memory_order::acq_rel);
+    // count_down(0) for completed latch
+    if (top == &completed)
+      return;
+    // *this may be already destroyed by one of those who waited
+    attach_list(e, top);
   }
 };
 
-- 
2.43.0


From b13a217bd8ecb1d5c44ba6a7c150c39ff14bd711 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 14/19] fix: pmr::set_default_resource has no effect on
 coroutine allocations

---
 include/kelcoro/memory_support.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/memory_support.hpp b/include/kelcoro/memory_support.hpp
index 7e2de52..9748b7b 100644
--- a/include/kelcoro/memory_support.hpp
+++ b/include/kelcoro/memory_support.hpp
@@ -126,7 +126,7 @@ struct polymorphic_resource {
  public:
   polymorphic_resource() noexcept : passed(std::exchange(passed_resource(), nullptr)) {
     if (!passed)
-      passed = std::pmr::get_default_resource();
+      passed = default_resource().load(std::memory_order_acquire);
     assert(passed != nullptr);
   }
   polymorphic_resource(std::pmr::memory_resource& m) noexcept : passed(&m) {
-- 
2.43.0


From 3493a68a8c0ff561b9ec7c05a372e236274c7c31 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 15/19] fix: async_task with memory resource is ill-formed

---
 include/kelcoro/async_task.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/async_task.hpp b/include/kelcoro/async_task.hpp
index e5bccae..eb44643 100644
--- a/include/kelcoro/async_task.hpp
+++ b/include/kelcoro/async_task.hpp
@@ -33,8 +33,10 @@ struct async_task_promise : return_block<Result> {
     static bool await_ready() noexcept {
       return false;
     }
-    bool await_suspend(std::coroutine_handle<async_task_promise> handle) const noexcept {
-      auto& p = handle.promise();
+    // template, because promise may be derived (resourced_promise)
+    template <std::derived_from<async_task_promise> P>
+    bool await_suspend(std::coroutine_handle<P> handle) const noexcept {
+      async_task_promise& p = handle.promise();
       p.ready.exchange(true, std::memory_order::acq_rel);
       p.ready.notify_one();
       // continue and destroy if ref count == 0
-- 
2.43.0


From 1dc6f63966ba7b0e05a8ca791d321107ddf6f34f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 16/19] fix: this_coro::handle and stop_token are ill-formed in
 coroutines with memory resource

---
 include/kelcoro/common.hpp         | 6 ++++--
 include/kelcoro/logical_thread.hpp | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/kelcoro/common.hpp b/include/kelcoro/common.hpp
index 0646e7d..ac5706d 100644
--- a/include/kelcoro/common.hpp
+++ b/include/kelcoro/common.hpp
@@ -202,8 +202,10 @@ struct KELCORO_CO_AWAIT_REQUIRED get_handle_t {
     static constexpr bool await_ready() noexcept {
       return false;
     }
-    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<PromiseType> handle) noexcept {
-      handle_ = handle;
+    // template, because promise may be derived (resourced_promise). Assume addresses are same
+    template <typename P>
+    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<P> handle) noexcept {
+      handle_ = std::coroutine_handle<PromiseType>::from_address(handle.address());
       return false;
     }
     [[nodiscard]] std::coroutine_handle<PromiseType> await_resume() const noexcept {
diff --git a/include/kelcoro/logical_thread.hpp b/include/kelcoro/logical_thread.hpp
index 7749945..1c32d47 100644
--- a/include/kelcoro/logical_thread.hpp
+++ b/include/kelcoro/logical_thread.hpp
@@ -98,8 +98,9 @@ struct logical_thread_promise {
     static bool await_ready() noexcept {
       return false;
     }
-    KELCORO_ASSUME_NOONE_SEES bool await_suspend(
-        std::coroutine_handle<logical_thread_promise> handle) noexcept {
+    // template, because promise may be derived (resourced_promise)
+    template <std::derived_from<logical_thread_promise> P>
+    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<P> handle) noexcept {
       stop_state = &handle.promise().stop_requested_;
       return false;  // never suspend rly
     }
-- 
2.43.0


From 2ffcc15d5182e66158a131bf059fbc2dc69a0dbf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 17/19] fix: when_all/when_any of finished tasks grow the call
 stack

The waiting coroutine was resumed from inside of the start of its tasks, so
each wait whose tasks finish at once used call stack until the first real
suspension. Now it continues after the starter returned.
---
 include/kelcoro/algorithm.hpp | 42 +++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/include/kelcoro/algorithm.hpp b/include/kelcoro/algorithm.hpp
index deb9111..5a2fbbb 100644
--- a/include/kelcoro/algorithm.hpp
+++ b/include/kelcoro/algorithm.hpp
@@ -32,7 +32,10 @@ struct when_any_state {
   std::mutex mtx;
   std::variant<std::monostate, expected<Ts, std::exception_ptr>...> result;
   size_t count_waiters = 0;
+  // nullptr after result is chosen
   std::coroutine_handle<> owner = nullptr;
+  // false while tasks are starting, owner is not suspended yet and must not be resumed
+  bool suspended = false;
 
   explicit when_any_state(size_t count_waiters, std::coroutine_handle<> owner) noexcept
       : count_waiters(count_waiters), owner(owner) {
@@ -46,8 +49,8 @@ struct when_any_state {
       return nullptr;
     result.template emplace<I>(unexpected(std::move(p)));
     --count_waiters;
-    // returns true only if all tasks ended with exception
-    return count_waiters == 0 ? owner : nullptr;
+    // returns owner only if all tasks ended with exception
+    return count_waiters == 0 ? choose_result() : nullptr;
   }
   // returns owner if caller must resume it
   template <size_t I, typename... Args>
@@ -57,7 +60,23 @@ struct when_any_state {
     if (!owner)
       return nullptr;
     result.template emplace<I>(std::forward<Args>(args)...);
-    return std::exchange(owner, nullptr);
+    return choose_result();
+  }
+  [[nodiscard]] bool result_chosen() noexcept {
+    std::lock_guard l(mtx);
+    return !owner;
+  }
+  // returns false if owner must not be suspended, because result is chosen already
+  [[nodiscard]] bool suspend_owner() noexcept {
+    std::lock_guard l(mtx);
+    suspended = true;
+    return !!owner;
+  }
+
+ private:
+  [[nodiscard]] std::coroutine_handle<> choose_result() noexcept {
+    std::coroutine_handle<> h = std::exchange(owner, nullptr);
+    return suspended ? h : nullptr;
   }
 };
 
@@ -65,7 +84,7 @@ template <size_t I, typename T, typename Ctx, typename... Ts>
 job job_for_when_any(task<T, Ctx> child, std::weak_ptr<when_any_state<Ts...>> state) {
   // stop at entry and give when_any do its preparations
   co_await std::suspend_always{};
-  if (state.expired()) {
+  if (std::shared_ptr s = state.lock(); !s || s->result_chosen()) {
     // someone sets result while we was starting without awaiting
     co_return;
   }
@@ -98,7 +117,8 @@ auto when_all(task<Ts, Ctx>... tasks) -> task<std::tuple<expected<Ts, std::excep
   assert((tasks && ...));
   if constexpr (sizeof...(tasks) == 0)
     co_return {};
-  std::atomic<size_t> count = sizeof...(tasks);
+  // + 1 for starter: owner must not be resumed while tasks are starting (call stack would grow)
+  std::atomic<size_t> count = sizeof...(tasks) + 1;
   std::tuple<expected<Ts, std::exception_ptr>...> results;
 
   co_await this_coro::suspend_and([&](auto when_all_handle) {
@@ -106,6 +126,8 @@ auto when_all(task<Ts, Ctx>... tasks) -> task<std::tuple<expected<Ts, std::excep
       (noexport::job_for_when_all(tasks, when_all_handle, vals, count), ...);
     };
     std::apply(starter, results);
+    // false if all tasks are done already
+    return count.fetch_sub(1, std::memory_order_acq_rel) != 1;
   });
   co_return results;
 }
@@ -116,13 +138,16 @@ auto when_all(std::vector<task<T, Ctx>> tasks) -> task<std::vector<expected<T, s
   assert(std::ranges::find_if(tasks, [](auto& t) { return t.empty(); }) == tasks.end());
   if (tasks.empty())
     co_return {};
-  std::atomic<size_t> count = tasks.size();
+  // + 1 for starter: owner must not be resumed while tasks are starting (call stack would grow)
+  std::atomic<size_t> count = tasks.size() + 1;
   std::vector<expected<T, std::exception_ptr>> results(tasks.size());
 
   co_await this_coro::suspend_and([&](auto when_all_handle) {
     size_t i = 0;
     for (auto& task : tasks)
       noexport::job_for_when_all(task, when_all_handle, results[i++], count);
+    // false if all tasks are done already
+    return count.fetch_sub(1, std::memory_order_acq_rel) != 1;
   });
   co_return results;
 }
@@ -145,7 +170,7 @@ auto when_any(task<Ts, Ctx>... tasks)
       std::make_shared<noexport::when_any_state<Ts...>>(sizeof...(tasks), co_await this_coro::handle);
 
   co_await this_coro::suspend_and([&](std::coroutine_handle<>) {
-    [&]<size_t... Is>(std::index_sequence<Is...>) {
+    return [&]<size_t... Is>(std::index_sequence<Is...>) {
       // guard for case when someone destroys 'when_all' while we are starting
       // (return result and ends coroutine)
       std::weak_ptr guard = state;
@@ -155,6 +180,9 @@ auto when_any(task<Ts, Ctx>... tasks)
       // must not throw
       for (job& j : jobs)
         j.handle.resume();
+      // if state is dead, then this coroutine is dead too
+      std::shared_ptr alive = guard.lock();
+      return !alive || alive->suspend_owner();
     }(std::index_sequence_for<Ts...>{});
   });
 
-- 
2.43.0


From 737b4b83da40a3849f0a765deaf6d575711c4971 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 18/19] fix: stack_resource::allocate of huge sizes overflows
 and hands out a too small block

---
 include/kelcoro/stack_memory_resource.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kelcoro/stack_memory_resource.hpp b/include/kelcoro/stack_memory_resource.hpp
index 3b4435b..a93a5f8 100644
--- a/include/kelcoro/stack_memory_resource.hpp
+++ b/include/kelcoro/stack_memory_resource.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <new>
 #include <span>
 #include <utility>
 
@@ -138,6 +139,9 @@ struct stack_resource {
   }
 
   [[nodiscard]] void* allocate(size_t len) {
+    // there is no so much memory, sizes calculated below must not overflow
+    if (len > size_t(-1) / 8) [[unlikely]]
+      throw std::bad_alloc();
     len = aligned(len);
     if (e - m >= len)
       return std::exchange(m, m + len);
-- 
2.43.0


From bc5f723def8889c931104e744f483c5c600a16e7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:30 +0000
Subject: [PATCH 19/19] fix: coroutine moves the memory resource out of the
 caller's with_resource taken by reference

---
 include/kelcoro/memory_support.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/memory_support.hpp b/include/kelcoro/memory_support.hpp
index 9748b7b..cb02af2 100644
--- a/include/kelcoro/memory_support.hpp
+++ b/include/kelcoro/memory_support.hpp
@@ -235,7 +235,14 @@ struct overload_new_delete {
     // return do_allocate(frame_sz, (args...[sizeof...(Args) - 1]).resource);
     auto voidify = [](auto& x) { return const_cast<void*>((const void volatile*)std::addressof(x)); };
     void* p = (voidify(args), ...);
-    return do_allocate(frame_sz, static_cast<with_resource<R>*>(p)->resource);
+    R& r = static_cast<with_resource<R>*>(p)->resource;
+    if constexpr (!std::is_empty_v<R> && std::is_copy_constructible_v<R>) {
+      // parameter may be a (const) reference, resource of the caller must not be moved out
+      R copy(std::as_const(r));
+      return do_allocate(frame_sz, copy);
+    } else {
+      return do_allocate(frame_sz, r);
+    }
   }
   static void operator delete(void* ptr, std::size_t frame_sz) noexcept {
     if constexpr (std::is_empty_v<R>) {
-- 
2.43.0

