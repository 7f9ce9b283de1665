From 7d8bc641a2a84578bc90c81d7cdea11cc0eead96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 01/15] fix: fixed_array remembers the memory resource it was
 given

The parameter shadowed the member, which stayed new_delete_resource, so a
thread_pool's storage was returned to the wrong resource.
---
 include/kelcoro/noexport/fixed_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/noexport/fixed_array.hpp b/include/kelcoro/noexport/fixed_array.hpp
index 5641054..5241f2d 100644
--- a/include/kelcoro/noexport/fixed_array.hpp
+++ b/include/kelcoro/noexport/fixed_array.hpp
@@ -27,7 +27,7 @@ struct fixed_array {
     std::swap(resource, rhs.resource);
     return *this;
   }
-  fixed_array(size_t n, std::pmr::memory_resource& resource = *std::pmr::new_delete_resource()) : n(n) {
+  fixed_array(size_t n, std::pmr::memory_resource& resource = *std::pmr::new_delete_resource()) : n(n), resource(std::addressof(resource)) {
     if (n == 0)
       return;
     arr = (T*)resource.allocate(sizeof(T) * n, alignof(T));
-- 
2.43.0


From 59a39d596fb1bd2fdc1cf349005efe188668b018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 02/15] fix: stack_resource::reuse_memory reclaims the initial
 buffer too

---
 include/kelcoro/stack_memory_resource.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kelcoro/stack_memory_resource.hpp b/include/kelcoro/stack_memory_resource.hpp
index 37f23e3..0417940 100644
--- a/include/kelcoro/stack_memory_resource.hpp
+++ b/include/kelcoro/stack_memory_resource.hpp
@@ -179,6 +179,8 @@ struct stack_resource {
       m = b;
       drop_cur_chunk();
     }
+    // initial buffer is reused too
+    m = b;
   }
 };
 
-- 
2.43.0


From 81f527eb20d3f41517d08bfb8d3638b5a3d2151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 03/15] fix: polymorphic_resource uses the default set by
 dd::pmr::set_default_resource

---
 include/kelcoro/memory_support.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/memory_support.hpp b/include/kelcoro/memory_support.hpp
index 7e2de52..9748b7b 100644
--- a/include/kelcoro/memory_support.hpp
+++ b/include/kelcoro/memory_support.hpp
@@ -126,7 +126,7 @@ struct polymorphic_resource {
  public:
   polymorphic_resource() noexcept : passed(std::exchange(passed_resource(), nullptr)) {
     if (!passed)
-      passed = std::pmr::get_default_resource();
+      passed = default_resource().load(std::memory_order_acquire);
     assert(passed != nullptr);
   }
   polymorphic_resource(std::pmr::memory_resource& m) noexcept : passed(&m) {
-- 
2.43.0


From 459bde52c4a4ada60df1e924b760125413385222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 04/15] fix: cleared or released generator/channel has no
 current value

current_result kept pointing into the destroyed (or given away) frame, so
begin() != end() for an empty generator or channel.
---
 include/kelcoro/channel.hpp   | 2 ++
 include/kelcoro/generator.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 0dcb699..709171d 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -250,6 +250,7 @@ struct channel : enable_resource_deduction {
   // postcondition: .empty()
   // after this method its caller responsibility to correctly destroy 'handle'
   [[nodiscard]] constexpr handle_type release() noexcept {
+    current_result = nullptr;
     return std::exchange(top, nullptr);
   }
   [[nodiscard]] constexpr handle_type raw_handle() const noexcept {
@@ -262,6 +263,7 @@ struct channel : enable_resource_deduction {
       top.destroy();
       top = nullptr;
     }
+    current_result = nullptr;
   }
   ~channel() {
     clear();
diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index 4ae3185..53a7eb0 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -309,6 +309,7 @@ struct generator : enable_resource_deduction {
   // postcondition: .empty()
   // its caller responsibility to correctly destroy handle
   [[nodiscard]] constexpr handle_type release() noexcept {
+    current_result = nullptr;
     return std::exchange(top, nullptr);
   }
   [[nodiscard]] constexpr handle_type raw_handle() const noexcept {
@@ -321,6 +322,7 @@ struct generator : enable_resource_deduction {
       top.destroy();
       top = nullptr;
     }
+    current_result = nullptr;
   }
   constexpr ~generator() {
     clear();
-- 
2.43.0


From 9a0a582eb6e2deb3e6c761a244ce90d06d485a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 05/15] fix: generator::reset makes this generator the consumer
 of the new handle

The frame kept delivering its values to the generator it was released from.
---
 include/kelcoro/generator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index 53a7eb0..241ce7a 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -304,6 +304,8 @@ struct generator : enable_resource_deduction {
   constexpr void reset(handle_type handle) noexcept {
     clear();
     top = handle;
+    if (top)
+      prepare_to_start();
   }
 
   // postcondition: .empty()
-- 
2.43.0


From f0d0aa5366416ed250a862d8b8554940374a3ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 06/15] fix: iterator of an empty generator<nothing_t> does not
 use a null handle

---
 include/kelcoro/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index 241ce7a..e603041 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -177,7 +177,7 @@ struct generator_iterator {
     if constexpr (!std::is_same_v<nothing_t, Yield>) {
       return self->current_result == nullptr;
     } else {
-      return self->top.done();
+      return self->empty();
     }
   }
   constexpr reference operator*() const noexcept {
-- 
2.43.0


From 3a0bbe1dc252409bcfe962a2277d8268ba5f35b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 07/15] fix: channel::swap redirects the frames to their new
 owners

Stepping an iterator after a swap (or move) delivered the value to the old
channel object.
---
 include/kelcoro/channel.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 709171d..d271363 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -238,6 +238,10 @@ struct channel : enable_resource_deduction {
     std::swap(handle, other.handle);
     std::swap(top, other.top);
     std::swap(exception, other.exception);
+    if (top)
+      top.promise()._consumer = this;
+    if (other.top)
+      other.top.promise()._consumer = std::addressof(other);
   }
   friend void swap(channel& a, channel& b) noexcept {
     a.swap(b);
-- 
2.43.0


From 6aa0bbe3dd8e1628dc56cce34986843f7abe1fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 08/15] fix: channel_iterator::owner and equivalent

owner() did not compile, equivalent() compared addresses of the iterators'
own members.
---
 include/kelcoro/channel.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index d271363..4d05598 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -155,10 +155,10 @@ struct channel_iterator {
 
   // return true if they are attached to same 'channel' object
   constexpr bool equivalent(const channel_iterator& other) const noexcept {
-    return std::addressof(chan) == std::addressof(other.chan);
+    return chan == other.chan;
   }
   channel<Yield>& owner() const noexcept {
-    return chan;
+    return *chan;
   }
 
   constexpr bool operator==(std::default_sentinel_t) const noexcept {
-- 
2.43.0


From 183a8c3a65c9e50c463f51051bc9e1ba8df96e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 09/15] fix: expected::error did not compile when used

---
 include/kelcoro/noexport/expected.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/noexport/expected.hpp b/include/kelcoro/noexport/expected.hpp
index dd4410d..b972d9f 100644
--- a/include/kelcoro/noexport/expected.hpp
+++ b/include/kelcoro/noexport/expected.hpp
@@ -56,12 +56,12 @@ struct expected {
   // precondition: !has_value()
   E& error() noexcept {
     assert(!has_value());
-    return std::get_if<1>(&data);
+    return *std::get_if<1>(&data);
   }
   // precondition: !has_value()
   const E& error() const noexcept {
     assert(!has_value());
-    return std::get_if<1>(&data);
+    return *std::get_if<1>(&data);
   }
 };
 
-- 
2.43.0


From eeccfee596c3d6705b488c8abae9f9a957521377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 10/15] fix: latch awaiters do not touch themselves after they
 are pushed

Once the node is in the stack another thread may resume the coroutine and
destroy the awaiter.
---
 include/kelcoro/latch.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/kelcoro/latch.hpp b/include/kelcoro/latch.hpp
index 8d5e25c..f7906f0 100644
--- a/include/kelcoro/latch.hpp
+++ b/include/kelcoro/latch.hpp
@@ -23,10 +23,12 @@ struct latch {
     }
     void await_suspend(std::coroutine_handle<> handle) noexcept {
       node.task = handle;
-      l.stack.push(&node);
+      // after push this awaiter may be already destroyed (coroutine resumed by other thread)
+      latch& latch_ = l;
+      latch_.stack.push(&node);
       // in case if 'ready' changed from 'false' to 'true' wakeup all who call 'wait'
-      if (l.ready())
-        l.wakeup_all();
+      if (latch_.ready())
+        latch_.wakeup_all();
     }
     static void await_resume() noexcept {
     }
@@ -48,8 +50,11 @@ struct latch {
     }
     void await_suspend(std::coroutine_handle<> handle) noexcept {
       node.task = handle;
-      l.stack.push(&node);
-      l.count_down(n);
+      // after push this awaiter may be already destroyed (coroutine resumed by other thread)
+      latch& latch_ = l;
+      const ptrdiff_t n_ = n;
+      latch_.stack.push(&node);
+      latch_.count_down(n_);
     }
     static void await_resume() noexcept {
     }
-- 
2.43.0


From 1fbf7343752549b83b026e91894428b68c006c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 11/15] fix: when_any of events does not touch its awaiter
 after first subscription

Any already subscribed event may resume the waiting coroutine and destroy
the awaiter while it subscribes to the remaining events.
---
 include/kelcoro/events.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/events.hpp b/include/kelcoro/events.hpp
index 5691981..512cead 100644
--- a/include/kelcoro/events.hpp
+++ b/include/kelcoro/events.hpp
@@ -205,8 +205,10 @@ KELCORO_CO_AWAIT_REQUIRED constexpr auto when_any(event<Inputs>&... events) {
           };
         }
       };
+      // copy, because after first subscription awaiter may be already destroyed
+      auto events_copy = events_;
       [&]<size_t... Is>(std::index_sequence<Is...>) {
-        (std::get<Is>(events_).set_callback(
+        (std::get<Is>(events_copy).set_callback(
              create_cb_for(std::type_identity<Inputs>{}, std::integral_constant<size_t, Is>{})),
          ...);
       }  // INVOKED HERE
-- 
2.43.0


From 82c47144737c38983423d2d068e3db8d0a0f7e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 12/15] fix: ~thread_pool does not put one deadpill into
 several queues

If workers were already stopped by request_stop, the pill stayed in the
first queue while it was pushed into the next ones; tasks pushed behind it
were lost.
---
 include/kelcoro/thread_pool.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kelcoro/thread_pool.hpp b/include/kelcoro/thread_pool.hpp
index 859facb..8c0b963 100644
--- a/include/kelcoro/thread_pool.hpp
+++ b/include/kelcoro/thread_pool.hpp
@@ -283,6 +283,8 @@ struct thread_pool {
       if (threads[i].joinable()) {
         queues[i].push(&pill);
         threads[i].join();
+        // worker may be already stopped and not take the pill, take it back before reusing
+        noexport::cancel_tasks(queues[i].pop_all());
       }
     }
     for (auto& q : queues)
-- 
2.43.0


From b48fcd3757cccc258d33cd1c77cf7000f69b08b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 13/15] fix: async_task, logical_thread and this_coro::handle
 with a memory resource

Their awaiters accepted only the handle of the promise without a resource and
did not compile for a coroutine with a memory resource.
---
 include/kelcoro/async_task.hpp     | 5 ++++-
 include/kelcoro/common.hpp         | 7 +++++--
 include/kelcoro/logical_thread.hpp | 5 +++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/kelcoro/async_task.hpp b/include/kelcoro/async_task.hpp
index e5bccae..f9ad611 100644
--- a/include/kelcoro/async_task.hpp
+++ b/include/kelcoro/async_task.hpp
@@ -33,7 +33,10 @@ struct async_task_promise : return_block<Result> {
     static bool await_ready() noexcept {
       return false;
     }
-    bool await_suspend(std::coroutine_handle<async_task_promise> handle) const noexcept {
+    // template, because promise may be resourced_promise<async_task_promise, R>
+    template <typename P>
+    bool await_suspend(std::coroutine_handle<P> handle) const noexcept {
+      static_assert(std::is_base_of_v<async_task_promise, P>);
       auto& p = handle.promise();
       p.ready.exchange(true, std::memory_order::acq_rel);
       p.ready.notify_one();
diff --git a/include/kelcoro/common.hpp b/include/kelcoro/common.hpp
index db6b327..57f0416 100644
--- a/include/kelcoro/common.hpp
+++ b/include/kelcoro/common.hpp
@@ -202,8 +202,11 @@ struct KELCORO_CO_AWAIT_REQUIRED get_handle_t {
     static constexpr bool await_ready() noexcept {
       return false;
     }
-    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<PromiseType> handle) noexcept {
-      handle_ = handle;
+    // template, because promise may be resourced_promise<PromiseType, R>,
+    // assume addresses are same
+    template <typename P>
+    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<P> handle) noexcept {
+      handle_ = std::coroutine_handle<PromiseType>::from_address(handle.address());
       return false;
     }
     [[nodiscard]] std::coroutine_handle<PromiseType> await_resume() const noexcept {
diff --git a/include/kelcoro/logical_thread.hpp b/include/kelcoro/logical_thread.hpp
index 7749945..17bf979 100644
--- a/include/kelcoro/logical_thread.hpp
+++ b/include/kelcoro/logical_thread.hpp
@@ -98,8 +98,9 @@ struct logical_thread_promise {
     static bool await_ready() noexcept {
       return false;
     }
-    KELCORO_ASSUME_NOONE_SEES bool await_suspend(
-        std::coroutine_handle<logical_thread_promise> handle) noexcept {
+    // template, because promise may be resourced_promise<logical_thread_promise, R>
+    template <typename P>
+    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<P> handle) noexcept {
       stop_state = &handle.promise().stop_requested_;
       return false;  // never suspend rly
     }
-- 
2.43.0


From 54541d7192e3dbc2b1fee82126ffa30eba2fe4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:55 +0000
Subject: [PATCH 14/15] fix: co_await this_coro::operation_hash did not compile
 The awaiter was the constant itself, whose await_suspend is not const.

---
 include/kelcoro/operation_hash.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/operation_hash.hpp b/include/kelcoro/operation_hash.hpp
index e71bc98..a689deb 100644
--- a/include/kelcoro/operation_hash.hpp
+++ b/include/kelcoro/operation_hash.hpp
@@ -33,7 +33,7 @@ static size_t do_hash(const void* ptr) noexcept {
   return val;
 }
 
-struct KELCORO_CO_AWAIT_REQUIRED op_hash_t {
+struct op_hash_awaiter {
   operation_hash_t hash;
 
   static constexpr bool await_ready() noexcept {
@@ -49,6 +49,12 @@ struct KELCORO_CO_AWAIT_REQUIRED op_hash_t {
   }
 };
 
+struct KELCORO_CO_AWAIT_REQUIRED op_hash_t {
+  constexpr op_hash_awaiter operator co_await() const noexcept {
+    return {};
+  }
+};
+
 }  // namespace noexport
 
 // precondition: operation can be executed
-- 
2.43.0


From a945cdf6a14db0feb710f77ae300504e190c2814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:55 +0000
Subject: [PATCH 15/15] fix: operation_hash of a channel's handle did not
 compile It used the private root of the promise.

---
 include/kelcoro/channel.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 4d05598..46d032c 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -18,6 +18,7 @@ struct channel_promise : not_movable {
   friend channel_iterator<Yield>;
   friend noexport::attach_leaf<channel<Yield>>;
   friend noexport::hold_value_until_resume<Yield>;
+  friend operation_hash<handle_type>;
 
   // invariant: root != nullptr
   channel_promise* root = this;
-- 
2.43.0

