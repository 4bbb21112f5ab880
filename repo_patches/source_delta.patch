From e578356c0ca6b33de8fd49a6a983299cc5efb9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 01/33] fix: a fiber notified before its deadline must not
 treat the wakeup as a timeout

A timed waiter that had been notified but was resumed after its deadline
reported a timeout and dropped the notification: the mutex, condition
variable or channel stayed free/signaled while other waiters blocked.
wait_until() now reports whether the deadline resumed the fiber, and timed
mutexes try to acquire a free mutex before looking at the deadline.
---
 include/boost/fiber/context.hpp |  1 +
 src/recursive_timed_mutex.cpp   |  8 +++++---
 src/scheduler.cpp               | 21 ++++++++++++++++-----
 src/timed_mutex.cpp             |  8 +++++---
 4 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/boost/fiber/context.hpp b/include/boost/fiber/context.hpp
index 82d8484..8ced15f 100644
--- a/include/boost/fiber/context.hpp
+++ b/include/boost/fiber/context.hpp
@@ -155,6 +155,7 @@ private:
     fss_data_t                                          fss_data_{};
     detail::sleep_hook                                  sleep_hook_{};
     waker                                               sleep_waker_{};
+    bool                                                timed_out_{ false };
     detail::ready_hook                                  ready_hook_{};
     detail::terminated_hook                             terminated_hook_{};
     detail::worker_hook                                 worker_hook_{};
diff --git a/src/recursive_timed_mutex.cpp b/src/recursive_timed_mutex.cpp
index 5958c72..4d6a594 100644
--- a/src/recursive_timed_mutex.cpp
+++ b/src/recursive_timed_mutex.cpp
@@ -22,9 +22,6 @@ namespace fibers {
 bool
 recursive_timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point const& timeout_time) noexcept {
     while ( true) {
-        if ( std::chrono::steady_clock::now() > timeout_time) {
-            return false;
-        }
         context * active_ctx = context::active();
         // store this fiber in order to be notified later
         detail::spinlock_lock lk{ wait_queue_splk_ };
@@ -37,6 +34,11 @@ recursive_timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point co
             count_ = 1;
             return true;
         }
+        // a mutex that is not owned is acquired even if the deadline has passed,
+        // a notification would get lost otherwise
+        if ( std::chrono::steady_clock::now() > timeout_time) {
+            return false;
+        }
         if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {
             return false;
         }
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 69ae61c..4b95e5a 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -86,7 +86,12 @@ scheduler::sleep2ready_() noexcept {
             i = sleep_queue_.erase( i);
             // reset sleep-tp
             ctx->tp_ = (std::chrono::steady_clock::time_point::max)();
-            ctx->sleep_waker_.wake();
+            // must be set before wake(), after that ctx might already be running
+            ctx->timed_out_ = true;
+            if ( ! ctx->sleep_waker_.wake() ) {
+                // ctx has already been signaled, e.g. it did not run into the timeout
+                ctx->timed_out_ = false;
+            }
         } else {
             break; // first context with now < deadline
         }
@@ -268,12 +273,15 @@ scheduler::wait_until( context * ctx,
     BOOST_ASSERT( ! ctx->terminated_is_linked() );
     ctx->sleep_waker_ = ctx->create_waker();
     ctx->tp_ = sleep_tp;
+    ctx->timed_out_ = false;
     ctx->sleep_link( sleep_queue_);
     // resume another context
     algo_->pick_next()->resume();
     // context has been resumed
-    // check if deadline has reached
-    return std::chrono::steady_clock::now() < sleep_tp;
+    // check if it was resumed because the deadline has been reached;
+    // comparing the clock with the deadline would swallow the notification
+    // if ctx has been notified but resumed after its deadline
+    return ! ctx->timed_out_;
 }
 
 bool
@@ -293,12 +301,15 @@ scheduler::wait_until( context * ctx,
     // push active context to sleep-queue
     ctx->sleep_waker_ = std::move( w);
     ctx->tp_ = sleep_tp;
+    ctx->timed_out_ = false;
     ctx->sleep_link( sleep_queue_);
     // resume another context
     algo_->pick_next()->resume( lk);
     // context has been resumed
-    // check if deadline has reached
-    return std::chrono::steady_clock::now() < sleep_tp;
+    // check if it was resumed because the deadline has been reached;
+    // comparing the clock with the deadline would swallow the notification
+    // if ctx has been notified but resumed after its deadline
+    return ! ctx->timed_out_;
 }
 
 void
diff --git a/src/timed_mutex.cpp b/src/timed_mutex.cpp
index d0482c5..59d5857 100644
--- a/src/timed_mutex.cpp
+++ b/src/timed_mutex.cpp
@@ -22,15 +22,17 @@ namespace fibers {
 bool
 timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point const& timeout_time) noexcept {
     while ( true) {
-        if ( std::chrono::steady_clock::now() > timeout_time) {
-            return false;
-        }
         context * active_ctx = context::active();
         detail::spinlock_lock lk{ wait_queue_splk_ };
         if ( nullptr == owner_) {
             owner_ = active_ctx;
             return true;
         }
+        // a mutex that is not owned is acquired even if the deadline has passed,
+        // a notification would get lost otherwise
+        if ( std::chrono::steady_clock::now() > timeout_time) {
+            return false;
+        }
         if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {
             return false;
         }
-- 
2.43.0


From 6457d5e36804f461b06fbe27dccb0adeb97116b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 02/33] fix: unbuffered_channel hand-over races with close()
 and timed push

close() left the slot of a blocked producer in the channel (dangling once
the producer returned) and made push() report closed for a value that had
been consumed; a push() racing with close() slept forever; a timed push
whose value was being taken returned timeout and destroyed the slot under
the consumer, and did not let the next producer proceed. The slot is now
set, discarded and released under splk_producers_ and carries its outcome.
---
 include/boost/fiber/unbuffered_channel.hpp | 146 ++++++++++-----------
 1 file changed, 67 insertions(+), 79 deletions(-)

diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 4b8c807..c36a36a 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -40,9 +40,17 @@ public:
     using value_type = typename std::remove_reference<T>::type;
 
 private:
+    enum class slot_state {
+        pending,
+        consumed,
+        discarded
+    };
+
     struct slot {
         value_type  value;
         waker       w;
+        // protected by splk_producers_
+        slot_state  state{ slot_state::pending };
 
         slot( value_type const& value_, waker && w) :
             value{ value_ },
@@ -94,6 +102,40 @@ private:
         }
     }
 
+    // called by a consumer after it has taken slot and value
+    void consumed_( slot * s) noexcept {
+        // the producer destroys the slot not before splk_producers_ was released
+        detail::spinlock_lock lk{ splk_producers_ };
+        s->state = slot_state::consumed;
+        // notify context
+        s->w.wake();
+    }
+
+    // called by a producer that was resumed after its slot was set
+    channel_op_status wait_released_( context * active_ctx, slot & s, bool timed_out) noexcept {
+        for (;;) {
+            detail::spinlock_lock lk{ splk_producers_ };
+            if ( slot_state::pending != s.state) {
+                return slot_state::consumed == s.state
+                    ? channel_op_status::success
+                    // channel was closed before value was consumed
+                    : channel_op_status::closed;
+            }
+            if ( timed_out) {
+                slot * nil_slot = nullptr, * own_slot = & s;
+                // clear slot
+                if ( slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel) ) {
+                    // value has not been consumed, let the next producer set its slot
+                    waiting_producers_.notify_one();
+                    return channel_op_status::timeout;
+                }
+            }
+            // a consumer is taking the value
+            lk.unlock();
+            active_ctx->yield();
+        }
+    }
+
 public:
     unbuffered_channel() = default;
 
@@ -111,13 +153,14 @@ public:
     void close() noexcept {
         // set flag
         if ( ! closed_.exchange( true, std::memory_order_acquire) ) {
-            // notify current waiting  
-            slot * s = slot_.load( std::memory_order_acquire);
+            detail::spinlock_lock lk1{ splk_producers_ };
+            // discard value that has not been consumed
+            slot * s = try_pop_();
             if ( nullptr != s) {
+                s->state = slot_state::discarded;
                 // notify context
                 s->w.wake();
             }
-            detail::spinlock_lock lk1{ splk_producers_ };
             waiting_producers_.notify_all();
 
             detail::spinlock_lock lk2{ splk_consumers_ };
@@ -129,29 +172,19 @@ public:
         context * active_ctx = context::active();
         slot s{ value, {} };
         for (;;) {
+            detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
                 return channel_op_status::closed;
             }
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
-                detail::spinlock_lock lk{ splk_consumers_ };
+                lk.unlock();
+                lk = detail::spinlock_lock{ splk_consumers_ };
                 waiting_consumers_.notify_one();
                 // suspend till value has been consumed
                 active_ctx->suspend( lk);
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
-            }
-            detail::spinlock_lock lk{ splk_producers_ };
-            if ( BOOST_UNLIKELY( is_closed() ) ) {
-                return channel_op_status::closed;
-            }
-            if ( is_empty_() ) {
-                continue;
+                return wait_released_( active_ctx, s, false);
             }
 
             waiting_producers_.suspend_and_wait( lk, active_ctx);
@@ -163,29 +196,19 @@ public:
         context * active_ctx = context::active();
         slot s{ std::move( value), {} };
         for (;;) {
+            detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
                 return channel_op_status::closed;
             }
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
-                detail::spinlock_lock lk{ splk_consumers_ };
+                lk.unlock();
+                lk = detail::spinlock_lock{ splk_consumers_ };
                 waiting_consumers_.notify_one();
                 // suspend till value has been consumed
                 active_ctx->suspend( lk);
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
-            }
-            detail::spinlock_lock lk{ splk_producers_ };
-            if ( BOOST_UNLIKELY( is_closed() ) ) {
-                return channel_op_status::closed;
-            }
-            if ( is_empty_() ) {
-                continue;
+                return wait_released_( active_ctx, s, false);
             }
             waiting_producers_.suspend_and_wait( lk, active_ctx);
             // resumed, slot mabye free
@@ -213,35 +236,19 @@ public:
         slot s{ value, {} };
         std::chrono::steady_clock::time_point timeout_time = detail::convert( timeout_time_);
         for (;;) {
+            detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
                 return channel_op_status::closed;
             }
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
-                detail::spinlock_lock lk{ splk_consumers_ };
+                lk.unlock();
+                lk = detail::spinlock_lock{ splk_consumers_ };
                 waiting_consumers_.notify_one();
                 // suspend this producer
-                if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w))) {
-                    // clear slot
-                    slot * nil_slot = nullptr, * own_slot = & s;
-                    slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel);
-                    // resumed, value has not been consumed
-                    return channel_op_status::timeout;
-                }
+                bool timed_out = ! active_ctx->wait_until( timeout_time, lk, waker(s.w));
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
-            }
-            detail::spinlock_lock lk{ splk_producers_ };
-            if ( BOOST_UNLIKELY( is_closed() ) ) {
-                return channel_op_status::closed;
-            }
-            if ( is_empty_() ) {
-                continue;
+                return wait_released_( active_ctx, s, timed_out);
             }
 
             if (! waiting_producers_.suspend_and_wait_until( lk, active_ctx, timeout_time))
@@ -259,35 +266,19 @@ public:
         slot s{ std::move( value), {} };
         std::chrono::steady_clock::time_point timeout_time = detail::convert( timeout_time_);
         for (;;) {
+            detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
                 return channel_op_status::closed;
             }
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
-                detail::spinlock_lock lk{ splk_consumers_ };
+                lk.unlock();
+                lk = detail::spinlock_lock{ splk_consumers_ };
                 waiting_consumers_.notify_one();
                 // suspend this producer
-                if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w))) {
-                    // clear slot
-                    slot * nil_slot = nullptr, * own_slot = & s;
-                    slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel);
-                    // resumed, value has not been consumed
-                    return channel_op_status::timeout;
-                }
+                bool timed_out = ! active_ctx->wait_until( timeout_time, lk, waker(s.w));
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
-            }
-            detail::spinlock_lock lk{ splk_producers_ };
-            if ( BOOST_UNLIKELY( is_closed() ) ) {
-                return channel_op_status::closed;
-            }
-            if ( is_empty_() ) {
-                continue;
+                return wait_released_( active_ctx, s, timed_out);
             }
             if (! waiting_producers_.suspend_and_wait_until( lk, active_ctx, timeout_time))
             {
@@ -307,8 +298,7 @@ public:
                     waiting_producers_.notify_one();
                 }
                 value = std::move( s->value);
-                // notify context
-                s->w.wake();
+                consumed_( s);
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
@@ -334,8 +324,7 @@ public:
                 }
                 // consume value
                 value_type value = std::move( s->value);
-                // notify context
-                s->w.wake();
+                consumed_( s);
                 return std::move( value);
             }
             detail::spinlock_lock lk{ splk_consumers_ };
@@ -373,8 +362,7 @@ public:
                 }
                 // consume value
                 value = std::move( s->value);
-                // notify context
-                s->w.wake();
+                consumed_( s);
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
-- 
2.43.0


From a70ffdad3bacaf8e7f8ed8fe97f6bbe7ac45ed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 03/33] fix: unbuffered_channel releases the producer if moving
 the value throws

pop() had already taken the slot, the producer was blocked forever.
---
 include/boost/fiber/unbuffered_channel.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index c36a36a..5235829 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -111,6 +111,16 @@ private:
         s->w.wake();
     }
 
+    // releases the producer, also if moving the value throws
+    struct consumed_guard {
+        unbuffered_channel  *   chan;
+        slot                *   s;
+
+        ~consumed_guard() {
+            chan->consumed_( s);
+        }
+    };
+
     // called by a producer that was resumed after its slot was set
     channel_op_status wait_released_( context * active_ctx, slot & s, bool timed_out) noexcept {
         for (;;) {
@@ -297,8 +307,8 @@ public:
                     detail::spinlock_lock lk{ splk_producers_ };
                     waiting_producers_.notify_one();
                 }
+                consumed_guard guard{ this, s };
                 value = std::move( s->value);
-                consumed_( s);
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
@@ -323,9 +333,8 @@ public:
                     waiting_producers_.notify_one();
                 }
                 // consume value
-                value_type value = std::move( s->value);
-                consumed_( s);
-                return std::move( value);
+                consumed_guard guard{ this, s };
+                return std::move( s->value);
             }
             detail::spinlock_lock lk{ splk_consumers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
@@ -361,8 +370,8 @@ public:
                     waiting_producers_.notify_one();
                 }
                 // consume value
+                consumed_guard guard{ this, s };
                 value = std::move( s->value);
-                consumed_( s);
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
-- 
2.43.0


From b033faecaaf926c361f26655ddac011796621fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 04/33] fix: channel iterators destroy each received value
 exactly once

operator++ destroyed the value twice, and the last value was never
destroyed if the loop was left early.
---
 include/boost/fiber/buffered_channel.hpp   | 23 ++++++++++++++++------
 include/boost/fiber/unbuffered_channel.hpp | 23 ++++++++++++++++------
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/include/boost/fiber/buffered_channel.hpp b/include/boost/fiber/buffered_channel.hpp
index 492486d..e2013a6 100644
--- a/include/boost/fiber/buffered_channel.hpp
+++ b/include/boost/fiber/buffered_channel.hpp
@@ -360,14 +360,22 @@ public:
 
         buffered_channel    *   chan_{ nullptr };
         storage_type            storage_;
+        // storage_ contains a value
+        bool                    constructed_{ false };
 
-        void increment_( bool initial = false) {
+        void destroy_() noexcept {
+            if ( constructed_) {
+                constructed_ = false;
+                reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
+            }
+        }
+
+        void increment_() {
             BOOST_ASSERT( nullptr != chan_);
             try {
-                if ( ! initial) {
-                    reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
-                }
+                destroy_();
                 ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan_->value_pop() };
+                constructed_ = true;
             } catch ( fiber_error const&) {
                 chan_ = nullptr;
             }
@@ -386,7 +394,11 @@ public:
 
         explicit iterator( buffered_channel< T > * chan) noexcept :
             chan_{ chan } {
-            increment_( true);
+            increment_();
+        }
+
+        ~iterator() {
+            destroy_();
         }
 
         iterator( iterator const& other) noexcept :
@@ -409,7 +421,6 @@ public:
         }
 
         iterator & operator++() {
-            reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
             increment_();
             return * this;
         }
diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 5235829..4110105 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -393,14 +393,22 @@ public:
 
         unbuffered_channel  *   chan_{ nullptr };
         storage_type            storage_;
+        // storage_ contains a value
+        bool                    constructed_{ false };
 
-        void increment_( bool initial = false) {
+        void destroy_() noexcept {
+            if ( constructed_) {
+                constructed_ = false;
+                reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
+            }
+        }
+
+        void increment_() {
             BOOST_ASSERT( nullptr != chan_);
             try {
-                if ( ! initial) {
-                    reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
-                }
+                destroy_();
                 ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan_->value_pop() };
+                constructed_ = true;
             } catch ( fiber_error const&) {
                 chan_ = nullptr;
             }
@@ -419,7 +427,11 @@ public:
 
         explicit iterator( unbuffered_channel< T > * chan) noexcept :
             chan_{ chan } {
-            increment_( true);
+            increment_();
+        }
+
+        ~iterator() {
+            destroy_();
         }
 
         iterator( iterator const& other) noexcept :
@@ -441,7 +453,6 @@ public:
         }
 
         iterator & operator++() {
-            reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
             increment_();
             return * this;
         }
-- 
2.43.0


From d285b98c2c5e4f983086793e544536bd4ab99309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 05/33] fix: packaged_task::reset() abandons the previous
 shared state

A future obtained before reset() never became ready, its waiters hung
instead of getting broken_promise.
---
 include/boost/fiber/future/packaged_task.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/fiber/future/packaged_task.hpp b/include/boost/fiber/future/packaged_task.hpp
index 10cef3c..4bf8c0f 100644
--- a/include/boost/fiber/future/packaged_task.hpp
+++ b/include/boost/fiber/future/packaged_task.hpp
@@ -128,6 +128,8 @@ public:
         packaged_task tmp;
         tmp.task_ = task_;
         task_ = tmp.task_->reset();
+        // abandon the previous shared state
+        tmp.obtained_ = obtained_;
         obtained_ = false;
     }
 };
-- 
2.43.0


From ef403ea862e748b256a062782918abe5bfd371bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 06/33] fix: schedule_from_remote() must not access the
 scheduler after unlocking

The woken fiber may let its thread terminate, the notifying thread then
called notify() through a destroyed scheduler.
---
 src/scheduler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 4b95e5a..0c47ab8 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -213,9 +213,12 @@ scheduler::schedule_from_remote( context * ctx) noexcept {
     BOOST_ASSERT( nullptr != dispatcher_ctx_.get() );
     // push new context to remote ready-queue
     ctx->remote_ready_link( remote_ready_queue_);
+    // this scheduler might be destroyed as soon as the lock is released,
+    // because ctx could be the one its thread is waiting for
+    algo::algorithm::ptr_t algo{ algo_ };
     lk.unlock();
     // notify scheduler
-    algo_->notify();
+    algo->notify();
 }
 #endif
 
-- 
2.43.0


From c3acb4b65469b5f7ab81b2ee739b0f560b58fb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 07/33] fix: work_stealing does not hang if there is no other
 scheduler to steal from

With one thread (or one logical cpu on the NUMA node) pick_next() looped
forever looking for an id different from its own.
---
 src/algo/work_stealing.cpp      | 2 +-
 src/numa/algo/work_stealing.cpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/algo/work_stealing.cpp b/src/algo/work_stealing.cpp
index ae9ece8..75e4d33 100644
--- a/src/algo/work_stealing.cpp
+++ b/src/algo/work_stealing.cpp
@@ -62,7 +62,7 @@ work_stealing::pick_next() noexcept {
         if ( ! victim->is_context( type::pinned_context) ) {
             context::active()->attach( victim);
         }
-    } else {
+    } else if ( 1 < thread_count_) {
         std::uint32_t id = 0;
         std::size_t count = 0, size = schedulers_.size();
         static thread_local std::minstd_rand generator{ std::random_device{}() };
diff --git a/src/numa/algo/work_stealing.cpp b/src/numa/algo/work_stealing.cpp
index d3653d6..6041090 100644
--- a/src/numa/algo/work_stealing.cpp
+++ b/src/numa/algo/work_stealing.cpp
@@ -112,7 +112,8 @@ work_stealing::pick_next() noexcept {
             0, static_cast< std::uint32_t >( local_cpus_.size() - 1) };
         std::uniform_int_distribution< std::uint32_t > remote_distribution{
             0, static_cast< std::uint32_t >( remote_cpus_.size() - 1) };
-        do {
+        // no other scheduler if the NUMA node has only one logical cpu
+        while ( 1 < size && nullptr == victim && count < size) {
             do {
                 ++count;
                 // random selection of one logical cpu
@@ -124,7 +125,7 @@ work_stealing::pick_next() noexcept {
             // schedulers_[cpu_id] should never contain a nullptr
             BOOST_ASSERT( nullptr != schedulers_[cpu_id]);
             victim = schedulers_[cpu_id]->steal();
-        } while ( nullptr == victim && count < size);
+        }
         if ( nullptr != victim) {
             boost::context::detail::prefetch_range( victim, sizeof( context) );
             BOOST_ASSERT( ! victim->is_context( type::pinned_context) );
-- 
2.43.0


From 2eec9b78d81dbbc37cf8c3b6d26907004929cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 08/33] fix: fiber-specific data: do not call the cleanup
 function with null

release(), or destroying a fiber_specific_ptr, in a fiber that has no value
stored inserted an entry holding nullptr, which was passed to the cleanup
function at the end of the fiber.
---
 src/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 97a45a5..474a495 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -363,7 +363,7 @@ context::set_fss_data( void const * vp,
         } else {
             fss_data_.erase( i);
         }
-    } else {
+    } else if ( nullptr != data) {
         fss_data_.insert(
             std::make_pair(
                 key,
-- 
2.43.0


From 51c9be1f53e1c9a5787d259cbc46eaefd2131278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 09/33] fix: fiber-specific data: cleanup functions may use
 fiber-specific data

At the end of a fiber a cleanup function that read another
fiber_specific_ptr could get a pointer to an object already cleaned up (and
resetting it cleaned it up twice); one that suspended the fiber did so
holding the spinlock of the context.
---
 include/boost/fiber/context.hpp |  2 ++
 src/context.cpp                 | 20 +++++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/boost/fiber/context.hpp b/include/boost/fiber/context.hpp
index 8ced15f..7f2e8b8 100644
--- a/include/boost/fiber/context.hpp
+++ b/include/boost/fiber/context.hpp
@@ -305,6 +305,8 @@ public:
         void * data,
         bool cleanup_existing);
 
+    void cleanup_fss_data();
+
     void set_properties( fiber_properties * props) noexcept;
 
     fiber_properties * get_properties() const noexcept {
diff --git a/src/context.cpp b/src/context.cpp
index 474a495..a3cd346 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -263,6 +263,9 @@ context::suspend_with_cc() noexcept {
 
 boost::context::fiber
 context::terminate() noexcept {
+    // release fiber-specific-data; user code might access fiber-specific-data
+    // or suspend, thus no lock must be held
+    cleanup_fss_data();
     // protect for concurrent access
     std::unique_lock< detail::spinlock > lk{ splk_ };
     // mark as terminated
@@ -270,11 +273,6 @@ context::terminate() noexcept {
     // notify all waiting fibers
     wait_queue_.notify_all();
     BOOST_ASSERT( wait_queue_.empty() );
-    // release fiber-specific-data
-    for ( fss_data_t::value_type & data : fss_data_) {
-        data.second.do_cleanup();
-    }
-    fss_data_.clear();
     // switch to another context
     return get_scheduler()->terminate( lk, this);
 }
@@ -371,6 +369,18 @@ context::set_fss_data( void const * vp,
     }
 }
 
+void
+context::cleanup_fss_data() {
+    // remove the entry before its cleanup function is called, the cleanup
+    // function might access fiber-specific-data of this fiber
+    while ( ! fss_data_.empty() ) {
+        fss_data_t::iterator i = fss_data_.begin();
+        fss_data data{ std::move( i->second) };
+        fss_data_.erase( i);
+        data.do_cleanup();
+    }
+}
+
 void
 context::set_properties( fiber_properties * props) noexcept {
     delete properties_;
-- 
2.43.0


From 9b53fb6998aaa1793c99b4ff8b46ee78c76732b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 10/33] fix: fiber-specific data: clean up values of main
 fibers

Values stored by the main fiber of a thread were never passed to their
cleanup function.
---
 src/context.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/context.cpp b/src/context.cpp
index a3cd346..09814cc 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -110,6 +110,8 @@ struct context_initializer {
     {
         context * main_ctx = active_;
         BOOST_ASSERT( main_ctx->is_context( type::main_context) );
+        // the main fiber ends with its thread
+        main_ctx->cleanup_fss_data();
         scheduler * sched = main_ctx->get_scheduler();
         delete sched;
         delete main_ctx;
-- 
2.43.0


From 496243725ce3c5ecb0a690f89ae0d57b9c5be5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:15 +0000
Subject: [PATCH 11/33] fix: release the stack if constructing the fiber's
 function or arguments throws

---
 include/boost/fiber/context.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/boost/fiber/context.hpp b/include/boost/fiber/context.hpp
index 7f2e8b8..ef3eaf7 100644
--- a/include/boost/fiber/context.hpp
+++ b/include/boost/fiber/context.hpp
@@ -502,15 +502,21 @@ static intrusive_ptr< context > make_worker_context_with_properties( launch poli
     void * stack_bottom = reinterpret_cast< void * >(
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     const std::size_t size = reinterpret_cast< uintptr_t >( storage) - reinterpret_cast< uintptr_t >( stack_bottom);
-    // placement new of context on top of fiber's stack
-    return intrusive_ptr< context >{ 
-            new ( storage) context_t{
-                policy,
-                properties,
-                boost::context::preallocated{ storage, size, sctx },
-                std::forward< StackAlloc >( salloc),
-                std::forward< Fn >( fn),
-                std::forward< Arg >( arg) ... } };
+    try {
+        // placement new of context on top of fiber's stack
+        return intrusive_ptr< context >{ 
+                new ( storage) context_t{
+                    policy,
+                    properties,
+                    boost::context::preallocated{ storage, size, sctx },
+                    std::forward< StackAlloc >( salloc),
+                    std::forward< Fn >( fn),
+                    std::forward< Arg >( arg) ... } };
+    } catch (...) {
+        // copying/moving function or arguments failed
+        salloc.deallocate( sctx);
+        throw;
+    }
 }
 
 template< typename StackAlloc, typename Fn, typename ... Arg >
-- 
2.43.0


From 1862974f6de80123d64e00762ffaa97f55beaf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 12/33] fix: buffered_channel passes a wakeup on if moving the
 value throws

---
 include/boost/fiber/buffered_channel.hpp | 26 ++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/boost/fiber/buffered_channel.hpp b/include/boost/fiber/buffered_channel.hpp
index e2013a6..55481db 100644
--- a/include/boost/fiber/buffered_channel.hpp
+++ b/include/boost/fiber/buffered_channel.hpp
@@ -61,6 +61,18 @@ private:
         return closed_;
     }
 
+    // if copying/moving the value throws, the wakeup of this
+    // fiber is passed on to the next waiting fiber
+    struct pass_on_guard {
+        wait_queue  *   waiting;
+
+        ~pass_on_guard() {
+            if ( nullptr != waiting) {
+                waiting->notify_one();
+            }
+        }
+    };
+
 public:
     explicit buffered_channel( std::size_t capacity) :
             capacity_{ capacity } {
@@ -156,7 +168,9 @@ public:
             if ( is_full_() ) {
                 waiting_producers_.suspend_and_wait( lk, active_ctx);
             } else {
+                pass_on_guard guard{ & waiting_producers_ };
                 slots_[pidx_] = value;
+                guard.waiting = nullptr;
                 pidx_ = (pidx_ + 1) % capacity_;
                 waiting_consumers_.notify_one();
                 return channel_op_status::success;
@@ -178,7 +192,9 @@ public:
             if ( is_full_() ) {
                 waiting_producers_.suspend_and_wait( lk, active_ctx);
             } else {
+                pass_on_guard guard{ & waiting_producers_ };
                 slots_[pidx_] = std::move( value);
+                guard.waiting = nullptr;
                 pidx_ = (pidx_ + 1) % capacity_;
 
                 waiting_consumers_.notify_one();
@@ -220,7 +236,9 @@ public:
                     return channel_op_status::timeout;
                 }
             } else {
+                pass_on_guard guard{ & waiting_producers_ };
                 slots_[pidx_] = value;
+                guard.waiting = nullptr;
                 pidx_ = (pidx_ + 1) % capacity_;
                 waiting_consumers_.notify_one();
                 return channel_op_status::success;
@@ -247,7 +265,9 @@ public:
                     return channel_op_status::timeout;
                 }
             } else {
+                pass_on_guard guard{ & waiting_producers_ };
                 slots_[pidx_] = std::move( value);
+                guard.waiting = nullptr;
                 pidx_ = (pidx_ + 1) % capacity_;
                 // notify one waiting consumer
                 waiting_consumers_.notify_one();
@@ -288,7 +308,9 @@ public:
                 }
                 waiting_consumers_.suspend_and_wait( lk, active_ctx);
             } else {
+                pass_on_guard guard{ & waiting_consumers_ };
                 value = std::move( slots_[cidx_]);
+                guard.waiting = nullptr;
                 cidx_ = (cidx_ + 1) % capacity_;
                 waiting_producers_.notify_one();
                 return channel_op_status::success;
@@ -312,7 +334,9 @@ public:
                 }
                 waiting_consumers_.suspend_and_wait( lk, active_ctx);
             } else {
+                pass_on_guard guard{ & waiting_consumers_ };
                 value_type value = std::move( slots_[cidx_]);
+                guard.waiting = nullptr;
                 cidx_ = (cidx_ + 1) % capacity_;
                 waiting_producers_.notify_one();
                 return value;
@@ -346,7 +370,9 @@ public:
                     return channel_op_status::timeout;
                 }
             } else {
+                pass_on_guard guard{ & waiting_consumers_ };
                 value = std::move( slots_[cidx_]);
+                guard.waiting = nullptr;
                 cidx_ = (cidx_ + 1) % capacity_;
                 waiting_producers_.notify_one();
                 return channel_op_status::success;
-- 
2.43.0


From 373c431827471e04ad97924e0669fb7589f7ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:17 +0000
Subject: [PATCH 13/33] fix: shared_work does not starve the main and the
 dispatcher fiber

---
 include/boost/fiber/algo/shared_work.hpp | 2 ++
 src/algo/shared_work.cpp                 | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/algo/shared_work.hpp b/include/boost/fiber/algo/shared_work.hpp
index cba7e87..de02eb3 100644
--- a/include/boost/fiber/algo/shared_work.hpp
+++ b/include/boost/fiber/algo/shared_work.hpp
@@ -45,6 +45,8 @@ private:
     std::condition_variable cnd_{};
     bool                    flag_{ false };
     bool                    suspend_{ false };
+    // fibers taken from rqueue_ since a fiber of lqueue_ was taken
+    std::size_t             shared_picks_{ 0 };
 
 public:
     shared_work() = default;
diff --git a/src/algo/shared_work.cpp b/src/algo/shared_work.cpp
index a055c1e..4082a4d 100644
--- a/src/algo/shared_work.cpp
+++ b/src/algo/shared_work.cpp
@@ -42,9 +42,11 @@ context *
 shared_work::pick_next() noexcept {
     context * ctx = nullptr;
     std::unique_lock< std::mutex > lk{ rqueue_mtx_ };
-    if ( ! rqueue_.empty() ) { /*<
-            pop an item from the ready queue
+    if ( ! rqueue_.empty() && ( lqueue_.empty() || 32 > shared_picks_) ) { /*<
+            pop an item from the ready queue; fibers that are always ready
+            must not starve the main and the dispatcher fiber
         >*/
+        ++shared_picks_;
         ctx = rqueue_.front();
         rqueue_.pop_front();
         lk.unlock();
@@ -55,6 +57,7 @@ shared_work::pick_next() noexcept {
         >*/
     } else {
         lk.unlock();
+        shared_picks_ = 0;
         if ( ! lqueue_.empty() ) { /*<
                 nothing in the ready queue, return main or dispatcher fiber
             >*/
-- 
2.43.0


From 3942e0f3d2f92e7409e45e2abcb805faab4642cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:38 +0000
Subject: [PATCH 14/33] fix: futex-based spinlocks release on unlock

unlock() decremented the lock word with memory_order_acquire, so an
uncontended unlock did not publish the critical section to the next owner.
---
 include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp | 2 +-
 include/boost/fiber/detail/spinlock_ttas_futex.hpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
index 172b2b4..1628a8c 100644
--- a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
@@ -125,7 +125,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( 1 != value_.fetch_sub( 1, std::memory_order_acquire) ) {
+        if ( 1 != value_.fetch_sub( 1, std::memory_order_release) ) {
             value_.store( 0, std::memory_order_release);
             futex_wake( & value_);
         }
diff --git a/include/boost/fiber/detail/spinlock_ttas_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
index f7a2f68..3aefdc1 100644
--- a/include/boost/fiber/detail/spinlock_ttas_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
@@ -116,7 +116,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( 1 != value_.fetch_sub( 1, std::memory_order_acquire) ) {
+        if ( 1 != value_.fetch_sub( 1, std::memory_order_release) ) {
             value_.store( 0, std::memory_order_release);
             futex_wake( & value_);
         }
-- 
2.43.0


From c9d369dcf5852a706aded6c4ddc6267642ef32ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 15/33] fix: context_spmc_queue::pop() on a never used queue
 underflowed its index

---
 include/boost/fiber/detail/context_spmc_queue.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index 5f906cf..9d720e3 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -90,8 +90,9 @@ private:
         }
     };
 
-    std::atomic< std::size_t >     top_{ 0 };
-    std::atomic< std::size_t >     bottom_{ 0 };
+    // start at 1: pop() decrements `bottom_` even if the queue is empty
+    std::atomic< std::size_t >     top_{ 1 };
+    std::atomic< std::size_t >     bottom_{ 1 };
     std::atomic< array * >         array_;
     std::vector< array * >                                  old_arrays_{};
     char                                                    padding_[cacheline_length];
-- 
2.43.0


From ba32b8f3f2fa248ec3685a06db8efefa57b19fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 16/33] fix: context_spmc_queue::steal() accessed contexts it
 does not own

The owner of the queue might have popped, resumed and destroyed the context
in the meantime. Keep the information if the context is pinned in the slot.
---
 .../boost/fiber/detail/context_spmc_queue.hpp | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index 9d720e3..76b9741 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -43,7 +43,7 @@ class context_spmc_queue {
 private:
     class array {
     private:
-        typedef std::atomic< context * >                atomic_type;
+        typedef std::atomic< std::uintptr_t >           atomic_type;
         typedef atomic_type                             storage_type; 
 
         std::size_t         capacity_;
@@ -54,7 +54,7 @@ private:
             capacity_{ capacity },
             storage_{ new storage_type[capacity_] } {
             for ( std::size_t i = 0; i < capacity_; ++i) {
-                ::new ( static_cast< void * >( std::addressof( storage_[i]) ) ) atomic_type{ nullptr };
+                ::new ( static_cast< void * >( std::addressof( storage_[i]) ) ) atomic_type{ 0 };
             }
         }
 
@@ -69,13 +69,16 @@ private:
             return capacity_;
         }
 
-        void push( std::size_t bottom, context * ctx) noexcept {
+        // a slot is the address of the context, with the lowest bit set if the context is pinned:
+        // a thief must not access a context before it has got it (the owner of the queue
+        // might have taken it, resumed it and let it terminate in the meantime)
+        void push( std::size_t bottom, std::uintptr_t slot) noexcept {
             reinterpret_cast< atomic_type * >(
                 std::addressof( storage_[bottom % capacity_]) )
-                    ->store( ctx, std::memory_order_relaxed);
+                    ->store( slot, std::memory_order_relaxed);
         }
 
-        context * pop( std::size_t top) noexcept {
+        std::uintptr_t pop( std::size_t top) noexcept {
             return reinterpret_cast< atomic_type * >(
                 std::addressof( storage_[top % capacity_]) )
                     ->load( std::memory_order_relaxed);
@@ -90,6 +93,18 @@ private:
         }
     };
 
+    static std::uintptr_t to_slot( context * ctx) noexcept {
+        return reinterpret_cast< std::uintptr_t >( ctx) | (ctx->is_context( type::pinned_context) ? 1 : 0);
+    }
+
+    static context * to_context( std::uintptr_t slot) noexcept {
+        return reinterpret_cast< context * >( slot & ~static_cast< std::uintptr_t >( 1) );
+    }
+
+    static bool is_pinned( std::uintptr_t slot) noexcept {
+        return 0 != (slot & 1);
+    }
+
     // start at 1: pop() decrements `bottom_` even if the queue is empty
     std::atomic< std::size_t >     top_{ 1 };
     std::atomic< std::size_t >     bottom_{ 1 };
@@ -131,7 +146,7 @@ public:
             std::swap( a, tmp);
             array_.store( a, std::memory_order_relaxed);
         }
-        a->push( bottom, ctx);
+        a->push( bottom, to_slot( ctx) );
         std::atomic_thread_fence( std::memory_order_release);
         bottom_.store( bottom + 1, std::memory_order_relaxed);
     }
@@ -145,7 +160,7 @@ public:
         context * ctx = nullptr;
         if ( top <= bottom) {
             // queue is not empty
-            ctx = a->pop( bottom);
+            ctx = to_context( a->pop( bottom) );
             BOOST_ASSERT( nullptr != ctx);
             if ( top == bottom) {
                 // last element dequeued
@@ -172,10 +187,10 @@ public:
         if ( top < bottom) {
             // queue is not empty
             array * a = array_.load( std::memory_order_consume);
-            ctx = a->pop( top);
-            BOOST_ASSERT( nullptr != ctx);
+            const std::uintptr_t slot = a->pop( top);
+            BOOST_ASSERT( 0 != slot);
             // do not steal pinned context (e.g. main-/dispatcher-context)
-            if ( ctx->is_context( type::pinned_context) ) {
+            if ( is_pinned( slot) ) {
                 return nullptr;
             }
             if ( ! top_.compare_exchange_strong( top, top + 1,
@@ -184,6 +199,7 @@ public:
                 // lose the race
                 return nullptr;
             }
+            ctx = to_context( slot);
         }
         return ctx;
     }
-- 
2.43.0


From 031df169bd5b33414a53335e263e89dbacf9169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 17/33] fix: context_spmc_queue publishes a grown array with
 release semantics

A thief that still sees the old bottom index might otherwise read the new
array before its slots have been filled.
---
 include/boost/fiber/detail/context_spmc_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index 76b9741..f10df52 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -144,7 +144,7 @@ public:
             array * tmp = a->resize( bottom, top);
             old_arrays_.push_back( a);
             std::swap( a, tmp);
-            array_.store( a, std::memory_order_relaxed);
+            array_.store( a, std::memory_order_release);
         }
         a->push( bottom, to_slot( ctx) );
         std::atomic_thread_fence( std::memory_order_release);
-- 
2.43.0


From 2474d81f5d11fbfa42033970e0baa4a6b66f18f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 18/33] fix: context_spmc_queue::pop() takes the oldest context

Taking the newest one resumes a fiber that yields again and again and starves
all other fibers of the thread, the dispatcher included.
---
 .../boost/fiber/detail/context_spmc_queue.hpp | 45 ++++++++-----------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index f10df52..93d4823 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -105,9 +105,8 @@ private:
         return 0 != (slot & 1);
     }
 
-    // start at 1: pop() decrements `bottom_` even if the queue is empty
-    std::atomic< std::size_t >     top_{ 1 };
-    std::atomic< std::size_t >     bottom_{ 1 };
+    std::atomic< std::size_t >     top_{ 0 };
+    std::atomic< std::size_t >     bottom_{ 0 };
     std::atomic< array * >         array_;
     std::vector< array * >                                  old_arrays_{};
     char                                                    padding_[cacheline_length];
@@ -151,32 +150,26 @@ public:
         bottom_.store( bottom + 1, std::memory_order_relaxed);
     }
 
+    // takes the oldest context, as steal() does: would the owner take the newest one,
+    // a fiber that yields were resumed again and again, while the others starve
     context * pop() {
-        std::size_t bottom = bottom_.load( std::memory_order_relaxed) - 1;
-        array * a = array_.load( std::memory_order_relaxed);
-        bottom_.store( bottom, std::memory_order_relaxed);
-        std::atomic_thread_fence( std::memory_order_seq_cst);
-        std::size_t top = top_.load( std::memory_order_relaxed);
-        context * ctx = nullptr;
-        if ( top <= bottom) {
-            // queue is not empty
-            ctx = to_context( a->pop( bottom) );
-            BOOST_ASSERT( nullptr != ctx);
-            if ( top == bottom) {
-                // last element dequeued
-                if ( ! top_.compare_exchange_strong( top, top + 1,
-                                                     std::memory_order_seq_cst,
-                                                     std::memory_order_relaxed) ) {
-                    // lose the race
-                    ctx = nullptr;
-                }
-                bottom_.store( bottom + 1, std::memory_order_relaxed);
+        for (;;) {
+            std::size_t top = top_.load( std::memory_order_acquire);
+            // only the owner of the queue modifies bottom_ and array_
+            std::size_t bottom = bottom_.load( std::memory_order_relaxed);
+            if ( bottom <= top) {
+                // queue is empty
+                return nullptr;
             }
-        } else {
-            // queue is empty
-            bottom_.store( bottom + 1, std::memory_order_relaxed);
+            const std::uintptr_t slot = array_.load( std::memory_order_relaxed)->pop( top);
+            if ( top_.compare_exchange_strong( top, top + 1,
+                                               std::memory_order_seq_cst,
+                                               std::memory_order_relaxed) ) {
+                BOOST_ASSERT( 0 != slot);
+                return to_context( slot);
+            }
+            // lose the race against a thief
         }
-        return ctx;
     }
 
     context * steal() {
-- 
2.43.0


From 3455b4b78b49f558efb26b1421426327f46ca65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:57 +0000
Subject: [PATCH 19/33] fix: fibers launched with launch::dispatch have
 properties from the start

fiber::properties() dereferenced a null pointer if the fiber was launched
with launch::dispatch and has not been passed to awakened() yet.
---
 include/boost/fiber/algo/algorithm.hpp | 22 +++++++++++++++++++---
 include/boost/fiber/scheduler.hpp      |  2 ++
 src/fiber.cpp                          |  1 +
 src/scheduler.cpp                      |  6 ++++++
 4 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/include/boost/fiber/algo/algorithm.hpp b/include/boost/fiber/algo/algorithm.hpp
index cedefdb..33b9ecd 100644
--- a/include/boost/fiber/algo/algorithm.hpp
+++ b/include/boost/fiber/algo/algorithm.hpp
@@ -47,6 +47,11 @@ public:
 
     virtual void notify() noexcept = 0;
 
+    // called for a fiber launched with launch::dispatch, which is resumed
+    // without having been passed to awakened() -- don't directly call
+    virtual void dispatched_( context *) noexcept {
+    }
+
     #if !defined(BOOST_EMBTC)
       
     friend void intrusive_ptr_add_ref( algorithm * algo) noexcept {
@@ -107,6 +112,19 @@ struct algorithm_with_properties : public algorithm_with_properties_base {
     // you'd have to remember to start every subclass awakened() override
     // with: algorithm_with_properties<PROPS>::awakened(fb);
     void awakened( context * ctx) noexcept final {
+        attach_properties_( ctx);
+
+        // Okay, now forward the call to subclass override.
+        awakened( ctx, properties( ctx) );
+    }
+
+    // a dispatched fiber has properties too, even if not awakened yet
+    void dispatched_( context * ctx) noexcept final {
+        attach_properties_( ctx);
+    }
+
+private:
+    void attach_properties_( context * ctx) noexcept {
         fiber_properties * props = super::get_properties( ctx);
         if ( BOOST_LIKELY( nullptr == props) ) {
             // TODO: would be great if PROPS could be allocated on the new
@@ -123,11 +141,9 @@ struct algorithm_with_properties : public algorithm_with_properties_base {
         // handles the case of a fiber migrating to a new thread with a new
         // algorithm subclass instance.
         props->set_algorithm( this);
-
-        // Okay, now forward the call to subclass override.
-        awakened( ctx, properties( ctx) );
     }
 
+public:
     // subclasses override this method instead of the original awakened()
     virtual void awakened( context *, PROPS &) noexcept = 0;
 
diff --git a/include/boost/fiber/scheduler.hpp b/include/boost/fiber/scheduler.hpp
index 36a378e..354a895 100644
--- a/include/boost/fiber/scheduler.hpp
+++ b/include/boost/fiber/scheduler.hpp
@@ -141,6 +141,8 @@ public:
 
     bool has_ready_fibers() const noexcept;
 
+    void dispatched( context *) noexcept;
+
     void set_algo( algo::algorithm::ptr_t) noexcept;
 
     void attach_main_context( context *) noexcept;
diff --git a/src/fiber.cpp b/src/fiber.cpp
index d360812..383be3f 100644
--- a/src/fiber.cpp
+++ b/src/fiber.cpp
@@ -33,6 +33,7 @@ fiber::start_() noexcept {
     case launch::dispatch:
         // resume new fiber and push current fiber
         // to ready-queue
+        ctx->get_scheduler()->dispatched( impl_.get() );
         impl_->resume( ctx);
         break;
     default:
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 0c47ab8..6beeab8 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -332,6 +332,12 @@ scheduler::has_ready_fibers() const noexcept {
     return algo_->has_ready_fibers();
 }
 
+void
+scheduler::dispatched( context * ctx) noexcept {
+    BOOST_ASSERT( nullptr != ctx);
+    algo_->dispatched_( ctx);
+}
+
 void
 scheduler::set_algo( algo::algorithm::ptr_t algo) noexcept {
     // move remaining context in current scheduler to new one
-- 
2.43.0


From 715b858e0bfbf5b9fd450ea16275527c5fc27db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 20/33] fix: fibers may be signaled while their thread shuts
 down

A thread that ends waits for its detached fibers, thus another thread might
signal one of them in the meantime; the assertion aborted debug builds.
(and read shutdown_ without synchronization)
---
 src/scheduler.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 6beeab8..7e5d50f 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -208,7 +208,6 @@ scheduler::schedule_from_remote( context * ctx) noexcept {
     BOOST_ASSERT( ! ctx->terminated_is_linked() );
     // protect for concurrent access
     detail::spinlock_lock lk{ remote_ready_splk_ };
-    BOOST_ASSERT( ! shutdown_);
     BOOST_ASSERT( nullptr != main_ctx_);
     BOOST_ASSERT( nullptr != dispatcher_ctx_.get() );
     // push new context to remote ready-queue
-- 
2.43.0


From 13eaadcdc8906c83b6e8c39b92e6d10c41a07f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 21/33] fix: a fiber might be signaled before it suspends in a
 timed wait

unbuffered_channel publishes the waker with the slot, a consumer on another
thread might signal the producer before it suspends; the assertion aborted
debug builds.
---
 src/scheduler.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 7e5d50f..797c159 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -295,9 +295,8 @@ scheduler::wait_until( context * ctx,
     BOOST_ASSERT( context::active() == ctx);
     BOOST_ASSERT( ctx->is_context( type::worker_context) || ctx->is_context( type::main_context) );
     BOOST_ASSERT( ! ctx->ready_is_linked() );
-#if ! defined(BOOST_FIBERS_NO_ATOMICS)
-    BOOST_ASSERT( ! ctx->remote_ready_is_linked() );
-#endif
+    // remote_ready_hook_ can be linked at that point if ctx has been signaled
+    // by another thread after its waker was published
     BOOST_ASSERT( ! ctx->sleep_is_linked() );
     BOOST_ASSERT( ! ctx->terminated_is_linked() );
     // push active context to sleep-queue
-- 
2.43.0


From a0a35c02289c321a0900573b4b92ccd0a1569a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 22/33] fix: topology() ended in std::invalid_argument or an
 assertion if a file was unreadable or a CPU unplugged

---
 src/numa/linux/topology.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/numa/linux/topology.cpp b/src/numa/linux/topology.cpp
index 8555afb..ca3cb7a 100644
--- a/src/numa/linux/topology.cpp
+++ b/src/numa/linux/topology.cpp
@@ -104,6 +104,10 @@ std::set< std::uint32_t > ids_from_line( std::string const& content) {
     al::split( v1, content, al::is_any_of(",") );
     for ( std::string entry : v1) {
         al::trim( entry);
+        if ( entry.empty() ) {
+            // nothing could be read
+            continue;
+        }
         std::vector< std::string > v2;
         al::split( v2, entry, al::is_any_of("-") );
         BOOST_ASSERT( ! v2.empty() );
@@ -128,7 +132,10 @@ std::vector< std::uint32_t > distance_from_line( std::string const& content) {
     al::split( v1, content, al::is_any_of(" ") );
     for ( std::string entry : v1) {
         al::trim( entry);
-        BOOST_ASSERT( ! entry.empty() );
+        if ( entry.empty() ) {
+            // nothing could be read
+            continue;
+        }
         distance.push_back( std::stoul( entry) );
     }
     return distance;
@@ -158,7 +165,6 @@ std::vector< node > topology() {
         fs::path cpu_path{
             boost::str(
                 boost::format("/sys/devices/system/cpu/cpu%d/") % cpu_id) };
-        BOOST_ASSERT( fs::exists( cpu_path) );
         // 2. to witch NUMA node the CPU belongs to
         directory_iterator e;
         for ( directory_iterator i{ cpu_path, "^node([0-9]+)$" };
@@ -188,12 +194,12 @@ std::vector< node > topology() {
             std::string content;
             std::getline( fs_distance, content);
             entry.second.distance = distance_from_line( content);
-            topo.push_back( entry.second);
-        } else {
+        }
+        if ( entry.second.distance.empty() ) {
             // fake NUMA distance
             entry.second.distance.push_back( 10);
-            topo.push_back( entry.second);
         }
+        topo.push_back( entry.second);
     }
     return topo;
 }
-- 
2.43.0


From 749398e722ef306d24f112ed3940847429439c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 23/33] fix: completion callback of a GPU stream touched the
 rendezvous after the waiter had destroyed it

---
 include/boost/fiber/cuda/waitfor.hpp | 6 ++++--
 include/boost/fiber/hip/waitfor.hpp  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/fiber/cuda/waitfor.hpp b/include/boost/fiber/cuda/waitfor.hpp
index 262efd9..9593daa 100644
--- a/include/boost/fiber/cuda/waitfor.hpp
+++ b/include/boost/fiber/cuda/waitfor.hpp
@@ -56,7 +56,8 @@ public:
         st_ = st;
         status_ = status;
         done_ = true;
-        lk.unlock();
+        // notify while the lock is held: the waiter destroys
+        // `this` as soon as it gets hold of the mutex
         cv_.notify_one();
     }
 
@@ -95,7 +96,8 @@ public:
         stx_.erase( st);
         results_.push_back( std::make_tuple( st, status) );
         if ( stx_.empty() ) {
-            lk.unlock();
+            // notify while the lock is held: the waiter destroys
+            // `this` as soon as it gets hold of the mutex
             cv_.notify_one();
         }
     }
diff --git a/include/boost/fiber/hip/waitfor.hpp b/include/boost/fiber/hip/waitfor.hpp
index e05099e..9dd28c7 100644
--- a/include/boost/fiber/hip/waitfor.hpp
+++ b/include/boost/fiber/hip/waitfor.hpp
@@ -56,7 +56,8 @@ public:
         st_ = st;
         status_ = status;
         done_ = true;
-        lk.unlock();
+        // notify while the lock is held: the waiter destroys
+        // `this` as soon as it gets hold of the mutex
         cv_.notify_one();
     }
 
@@ -95,7 +96,8 @@ public:
         stx_.erase( st);
         results_.push_back( std::make_tuple( st, status) );
         if ( stx_.empty() ) {
-            lk.unlock();
+            // notify while the lock is held: the waiter destroys
+            // `this` as soon as it gets hold of the mutex
             cv_.notify_one();
         }
     }
-- 
2.43.0


From af30cbbebd22674cc977ef5c283fac28193b47d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 24/33] fix: registration loop for GPU streams iterated over
 the set its callbacks erase from

---
 include/boost/fiber/cuda/waitfor.hpp | 5 ++++-
 include/boost/fiber/hip/waitfor.hpp  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/cuda/waitfor.hpp b/include/boost/fiber/cuda/waitfor.hpp
index 9593daa..2388a12 100644
--- a/include/boost/fiber/cuda/waitfor.hpp
+++ b/include/boost/fiber/cuda/waitfor.hpp
@@ -80,7 +80,10 @@ public:
     many_streams_rendezvous( std::initializer_list< cudaStream_t > l) :
             stx_{ l } {
         results_.reserve( stx_.size() );
-        for ( cudaStream_t st : stx_) {
+        // callbacks might already be invoked, and modify `stx_`,
+        // while the remaining callbacks are registered
+        const std::set< cudaStream_t > stx{ stx_ };
+        for ( cudaStream_t st : stx) {
             unsigned int flags = 0;
             cudaError_t status = ::cudaStreamAddCallback( st, trampoline< many_streams_rendezvous >, this, flags);
             if ( cudaSuccess != status) {
diff --git a/include/boost/fiber/hip/waitfor.hpp b/include/boost/fiber/hip/waitfor.hpp
index 9dd28c7..ae36ed2 100644
--- a/include/boost/fiber/hip/waitfor.hpp
+++ b/include/boost/fiber/hip/waitfor.hpp
@@ -80,7 +80,10 @@ public:
     many_streams_rendezvous( std::initializer_list< hipStream_t > l) :
             stx_{ l } {
         results_.reserve( stx_.size() );
-        for ( hipStream_t st : stx_) {
+        // callbacks might already be invoked, and modify `stx_`,
+        // while the remaining callbacks are registered
+        const std::set< hipStream_t > stx{ stx_ };
+        for ( hipStream_t st : stx) {
             unsigned int flags = 0;
             hipError_t status = ::hipStreamAddCallback( st, trampoline< many_streams_rendezvous >, this, flags);
             if ( hipSuccess != status) {
-- 
2.43.0


From 0b7c77ed22c7146552517e4a78fb00d72ae21e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 25/33] fix: hip/waitfor.hpp declared everything in namespace
 cuda and with the include guard of cuda/waitfor.hpp

---
 include/boost/fiber/hip/waitfor.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/fiber/hip/waitfor.hpp b/include/boost/fiber/hip/waitfor.hpp
index ae36ed2..18307ba 100644
--- a/include/boost/fiber/hip/waitfor.hpp
+++ b/include/boost/fiber/hip/waitfor.hpp
@@ -4,8 +4,8 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          http://www.boost.org/LICENSE_1_0.txt)
 
-#ifndef BOOST_FIBERS_CUDA_WAITFOR_H
-#define BOOST_FIBERS_CUDA_WAITFOR_H
+#ifndef BOOST_FIBERS_HIP_WAITFOR_H
+#define BOOST_FIBERS_HIP_WAITFOR_H
 
 #include <initializer_list>
 #include <mutex>
@@ -30,7 +30,7 @@
 
 namespace boost {
 namespace fibers {
-namespace cuda {
+namespace hip {
 namespace detail {
 
 template< typename Rendezvous >
@@ -141,4 +141,4 @@ std::vector< std::tuple< hipStream_t, hipError_t > > waitfor_all( hipStream_t st
 #  include BOOST_ABI_SUFFIX
 #endif
 
-#endif // BOOST_FIBERS_CUDA_WAITFOR_H
+#endif // BOOST_FIBERS_HIP_WAITFOR_H
-- 
2.43.0


From 70a07ba3a980e5153588b52f9c72abf33362d682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 26/33] fix: mutex try_lock() read the owner without holding
 the spinlock

After releasing the spinlock and yielding, try_lock() of all four mutexes
compared owner_ with the calling fiber; another thread may write owner_
(unlock() or a successful lock) at that moment, which is a data race. Take
the result while the spinlock is held.
---
 src/mutex.cpp                 | 3 ++-
 src/recursive_mutex.cpp       | 3 ++-
 src/recursive_timed_mutex.cpp | 3 ++-
 src/timed_mutex.cpp           | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mutex.cpp b/src/mutex.cpp
index 7b06451..98f9b29 100644
--- a/src/mutex.cpp
+++ b/src/mutex.cpp
@@ -53,10 +53,11 @@ mutex::try_lock() {
     if ( nullptr == owner_) {
         owner_ = active_ctx;
     }
+    bool const locked = active_ctx == owner_;
     lk.unlock();
     // let other fiber release the lock
     active_ctx->yield();
-    return active_ctx == owner_;
+    return locked;
 }
 
 void
diff --git a/src/recursive_mutex.cpp b/src/recursive_mutex.cpp
index 9358066..8cd24c0 100644
--- a/src/recursive_mutex.cpp
+++ b/src/recursive_mutex.cpp
@@ -49,10 +49,11 @@ recursive_mutex::try_lock() noexcept {
     } else if ( active_ctx == owner_) {
         ++count_;
     }
+    bool const locked = active_ctx == owner_;
     lk.unlock();
     // let other fiber release the lock
     context::active()->yield();
-    return active_ctx == owner_;
+    return locked;
 }
 
 void
diff --git a/src/recursive_timed_mutex.cpp b/src/recursive_timed_mutex.cpp
index 4d6a594..32628a2 100644
--- a/src/recursive_timed_mutex.cpp
+++ b/src/recursive_timed_mutex.cpp
@@ -74,10 +74,11 @@ recursive_timed_mutex::try_lock() noexcept {
     } else if ( active_ctx == owner_) {
         ++count_;
     }
+    bool const locked = active_ctx == owner_;
     lk.unlock();
     // let other fiber release the lock
     active_ctx->yield();
-    return active_ctx == owner_;
+    return locked;
 }
 
 void
diff --git a/src/timed_mutex.cpp b/src/timed_mutex.cpp
index 59d5857..55d3ca8 100644
--- a/src/timed_mutex.cpp
+++ b/src/timed_mutex.cpp
@@ -70,10 +70,11 @@ timed_mutex::try_lock() {
     if ( nullptr == owner_) {
         owner_ = active_ctx;
     }
+    bool const locked = active_ctx == owner_;
     lk.unlock();
     // let other fiber release the lock
     active_ctx->yield();
-    return active_ctx == owner_;
+    return locked;
 }
 
 void
-- 
2.43.0


From 8ad670dbe5c12ac26a346a2dbfaaba95e3276340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:54 +0000
Subject: [PATCH 27/33] fix: compile with BOOST_FIBERS_NO_ATOMICS

The documented configuration without cross-thread synchronisation did not
compile: the waker epoch and the reference count were used as atomics, the
spinlock stand-in had neither try_lock() nor the std::unique_lock interface
used throughout, and the remote ready-queue was referred to although it does
not exist in this configuration.
---
 include/boost/fiber/context.hpp         | 18 ++++++++++++++++++
 include/boost/fiber/detail/spinlock.hpp | 12 ++++--------
 include/boost/fiber/scheduler.hpp       |  2 +-
 src/context.cpp                         | 16 ++++++++++++++++
 4 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/include/boost/fiber/context.hpp b/include/boost/fiber/context.hpp
index ef3eaf7..385c3db 100644
--- a/include/boost/fiber/context.hpp
+++ b/include/boost/fiber/context.hpp
@@ -149,6 +149,8 @@ private:
 public:
 #if ! defined(BOOST_FIBERS_NO_ATOMICS)
     std::atomic<size_t>                                 waker_epoch_{ 0 };
+#else
+    size_t                                              waker_epoch_{ 0 };
 #endif
 private:
     scheduler                                       *   scheduler_{ nullptr };
@@ -376,13 +378,21 @@ public:
       
     friend void intrusive_ptr_add_ref( context * ctx) noexcept {
         BOOST_ASSERT( nullptr != ctx);
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
         ctx->use_count_.fetch_add( 1, std::memory_order_relaxed);
+#else
+        ++ctx->use_count_;
+#endif
     }
 
     friend void intrusive_ptr_release( context * ctx) noexcept {
         BOOST_ASSERT( nullptr != ctx);
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
         if ( 1 == ctx->use_count_.fetch_sub( 1, std::memory_order_release) ) {
             std::atomic_thread_fence( std::memory_order_acquire);
+#else
+        if ( 0 == --ctx->use_count_) {
+#endif
             boost::context::fiber c = std::move( ctx->c_);
             // destruct context
             ctx->~context();
@@ -409,13 +419,21 @@ public:
 
     inline void intrusive_ptr_add_ref( context * ctx) noexcept {
         BOOST_ASSERT( nullptr != ctx);
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
         ctx->use_count_.fetch_add( 1, std::memory_order_relaxed);
+#else
+        ++ctx->use_count_;
+#endif
     }
 
     inline void intrusive_ptr_release( context * ctx) noexcept {
         BOOST_ASSERT( nullptr != ctx);
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
         if ( 1 == ctx->use_count_.fetch_sub( 1, std::memory_order_release) ) {
             std::atomic_thread_fence( std::memory_order_acquire);
+#else
+        if ( 0 == --ctx->use_count_) {
+#endif
             boost::context::fiber c = std::move( ctx->c_);
             // destruct context
             ctx->~context();
diff --git a/include/boost/fiber/detail/spinlock.hpp b/include/boost/fiber/detail/spinlock.hpp
index 59d2a5c..9663db8 100644
--- a/include/boost/fiber/detail/spinlock.hpp
+++ b/include/boost/fiber/detail/spinlock.hpp
@@ -11,8 +11,9 @@
 
 #include <boost/fiber/detail/config.hpp>
 
+#include <mutex>
+
 #if !defined(BOOST_FIBERS_NO_ATOMICS) 
-# include <mutex>
 # include <boost/fiber/detail/spinlock_ttas_adaptive.hpp>
 # include <boost/fiber/detail/spinlock_ttas.hpp>
 # if defined(BOOST_FIBERS_HAS_FUTEX)
@@ -36,12 +37,7 @@ namespace detail {
 struct spinlock {
     constexpr spinlock() noexcept {}
     void lock() noexcept {}
-    void unlock() noexcept {}
-};
-
-struct spinlock_lock {
-    constexpr spinlock_lock( spinlock &) noexcept {}
-    void lock() noexcept {}
+    bool try_lock() noexcept { return true; }
     void unlock() noexcept {}
 };
 #else
@@ -72,8 +68,8 @@ using spinlock = spinlock_rtm< spinlock_ttas >;
 using spinlock = spinlock_ttas;
 #  endif
 # endif
-using spinlock_lock = std::unique_lock< spinlock >;
 #endif
+using spinlock_lock = std::unique_lock< spinlock >;
 
 }}}
 
diff --git a/include/boost/fiber/scheduler.hpp b/include/boost/fiber/scheduler.hpp
index 354a895..b3ea6f0 100644
--- a/include/boost/fiber/scheduler.hpp
+++ b/include/boost/fiber/scheduler.hpp
@@ -72,6 +72,7 @@ private:
                 intrusive::linear< true >,
                 intrusive::cache_last< true >
             >                                               terminated_queue_type;
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
     typedef intrusive::slist<
                 context,
                 intrusive::member_hook<
@@ -80,7 +81,6 @@ private:
                 intrusive::cache_last< true >
             >                                               remote_ready_queue_type;
 
-#if ! defined(BOOST_FIBERS_NO_ATOMICS)
     // remote ready-queue contains context' signaled by schedulers
     // running in other threads
     detail::spinlock                                            remote_ready_splk_{};
diff --git a/src/context.cpp b/src/context.cpp
index 09814cc..de044b9 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -298,8 +298,15 @@ context::wait_until( std::chrono::steady_clock::time_point const& tp,
 
 bool context::wake(const size_t epoch) noexcept
 {
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
     size_t expected = epoch;
     bool is_last_waker = waker_epoch_.compare_exchange_strong(expected, epoch + 1, std::memory_order_acq_rel);
+#else
+    bool is_last_waker = waker_epoch_ == epoch;
+    if ( is_last_waker) {
+        waker_epoch_ = epoch + 1;
+    }
+#endif
     if ( ! is_last_waker) {
         // waker_epoch_ has been incremented before, so consider this wake
         // operation as outdated and do nothing
@@ -307,11 +314,16 @@ bool context::wake(const size_t epoch) noexcept
     }
 
     BOOST_ASSERT( context::active() != this);
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
     if ( context::active()->get_scheduler() == get_scheduler()) {
         get_scheduler()->schedule( this);
     } else {
         get_scheduler()->schedule_from_remote( this);
     }
+#else
+    BOOST_ASSERT( context::active()->get_scheduler() == get_scheduler() );
+    get_scheduler()->schedule( this);
+#endif
     return true;
 }
 
@@ -401,7 +413,11 @@ context::ready_is_linked() const noexcept {
 
 bool
 context::remote_ready_is_linked() const noexcept {
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
     return remote_ready_hook_.is_linked();
+#else
+    return false;
+#endif
 }
 
 bool
-- 
2.43.0


From c7e2e059e0660928763f6f30e193926a8303d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:41 +0000
Subject: [PATCH 28/33] fix: converting a deadline of another clock could end a
 wait early

The order in which the two clocks were read was unspecified.
---
 include/boost/fiber/detail/convert.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/fiber/detail/convert.hpp b/include/boost/fiber/detail/convert.hpp
index ba3bbbd..c11aaab 100644
--- a/include/boost/fiber/detail/convert.hpp
+++ b/include/boost/fiber/detail/convert.hpp
@@ -31,7 +31,10 @@ std::chrono::steady_clock::time_point convert(
 template< typename Clock, typename Duration >
 std::chrono::steady_clock::time_point convert(
         std::chrono::time_point< Clock, Duration > const& timeout_time) {
-    return std::chrono::steady_clock::now() + ( timeout_time - Clock::now() );
+    // the clocks must be read in this order: otherwise the time between both
+    // reads would be missing and the wait could end before timeout_time
+    auto const remaining = timeout_time - Clock::now();
+    return std::chrono::steady_clock::now() + remaining;
 }
 
 }}}
-- 
2.43.0


From eaa2d5fd958f6cb1f482f1d56a4a0936b37ee5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:41 +0000
Subject: [PATCH 29/33] fix: context::active() must not be inlined

A compiler may keep the address of the thread-local pointer across a fiber
switch, after which the fiber may run on another thread.
---
 src/context.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/context.cpp b/src/context.cpp
index de044b9..3bac108 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -146,6 +146,9 @@ bool context::initialize_thread(algo::algorithm::ptr_t algo, stack_allocator_wra
     }
 }
 
+// must not be inlined: a fiber might be resumed by another thread, an address
+// of a thread-local variable computed before it was suspended is outdated then
+BOOST_NOINLINE
 context *
 context::active() noexcept {
     // initialized the first time control passes; per thread
-- 
2.43.0


From 94ea29e4d510faed1121e580e676196635405d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:41 +0000
Subject: [PATCH 30/33] fix: a failing task satisfied its promise inside the
 catch handler

set_exception() may suspend the fiber; the fiber that runs next found itself
in the handler of another fiber's exception, which was leaked or rethrown there.
---
 .../boost/fiber/future/detail/task_object.hpp    | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/future/detail/task_object.hpp b/include/boost/fiber/future/detail/task_object.hpp
index 47bbf3c..0b3f552 100644
--- a/include/boost/fiber/future/detail/task_object.hpp
+++ b/include/boost/fiber/future/detail/task_object.hpp
@@ -54,6 +54,7 @@ public:
     }
 
     void run( Args && ... args) override final {
+        std::exception_ptr except;
         try {
             this->set_value(
 #if defined(BOOST_NO_CXX17_STD_APPLY)
@@ -69,7 +70,12 @@ public:
             throw;
 #endif
         } catch (...) {
-            this->set_exception( std::current_exception() );
+            except = std::current_exception();
+        }
+        // set_exception() might suspend this fiber, and the exceptions being
+        // handled belong to the thread: do not call it inside of the handler
+        if ( except) {
+            this->set_exception( except);
         }
     }
 
@@ -129,6 +135,7 @@ public:
     }
 
     void run( Args && ... args) override final {
+        std::exception_ptr except;
         try {
 #if defined(BOOST_NO_CXX17_STD_APPLY)
             boost::context::detail::apply(
@@ -143,7 +150,12 @@ public:
             throw;
 #endif
         } catch (...) {
-            this->set_exception( std::current_exception() );
+            except = std::current_exception();
+        }
+        // set_exception() might suspend this fiber, and the exceptions being
+        // handled belong to the thread: do not call it inside of the handler
+        if ( except) {
+            this->set_exception( except);
         }
     }
 
-- 
2.43.0


From afcae643e1ecd3204cecbb8d82c55a1825a53dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:41 +0000
Subject: [PATCH 31/33] fix: context_spmc_queue::steal() asserted on a slot it
 had not won

With an outdated top the slot may already be empty; the CAS rejects it.
---
 include/boost/fiber/detail/context_spmc_queue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index 93d4823..13996bd 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -180,8 +180,8 @@ public:
         if ( top < bottom) {
             // queue is not empty
             array * a = array_.load( std::memory_order_consume);
+            // top might be outdated, in which case slot is any value
             const std::uintptr_t slot = a->pop( top);
-            BOOST_ASSERT( 0 != slot);
             // do not steal pinned context (e.g. main-/dispatcher-context)
             if ( is_pinned( slot) ) {
                 return nullptr;
@@ -192,6 +192,7 @@ public:
                 // lose the race
                 return nullptr;
             }
+            BOOST_ASSERT( 0 != slot);
             ctx = to_context( slot);
         }
         return ctx;
-- 
2.43.0


From 9df539c15d4810c08288f14f2e23dbace5218485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:41 +0000
Subject: [PATCH 32/33] fix: spinlock_rtm::try_lock() had no fallback

On processors where transactions always abort it never succeeded, and
buffered_channel::push()/pop() looped for ever.
---
 include/boost/fiber/detail/spinlock_rtm.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/fiber/detail/spinlock_rtm.hpp b/include/boost/fiber/detail/spinlock_rtm.hpp
index a38f4e7..ba6c35b 100644
--- a/include/boost/fiber/detail/spinlock_rtm.hpp
+++ b/include/boost/fiber/detail/spinlock_rtm.hpp
@@ -101,7 +101,9 @@ public:
 
     bool try_lock() noexcept {
         if ( rtm_status::success != rtm_begin() ) {
-            return false;
+            // transaction aborted; there is no guarantee that it ever commits
+            // -> use fallback path
+            return splk_.try_lock();
         }
 
         // add lock to read-set
-- 
2.43.0


From 5bfff44424927b190aaaae95572fcd9983df12a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:41 +0000
Subject: [PATCH 33/33] fix: compile with BOOST_USE_TSX and the futex based
 spinlocks

spinlock_rtm accessed a member the futex variants do not have.
---
 include/boost/fiber/detail/spinlock_rtm.hpp               | 8 ++++----
 include/boost/fiber/detail/spinlock_ttas.hpp              | 4 ++++
 include/boost/fiber/detail/spinlock_ttas_adaptive.hpp     | 4 ++++
 .../boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp   | 4 ++++
 include/boost/fiber/detail/spinlock_ttas_futex.hpp        | 4 ++++
 5 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/boost/fiber/detail/spinlock_rtm.hpp b/include/boost/fiber/detail/spinlock_rtm.hpp
index ba6c35b..197bd2f 100644
--- a/include/boost/fiber/detail/spinlock_rtm.hpp
+++ b/include/boost/fiber/detail/spinlock_rtm.hpp
@@ -41,7 +41,7 @@ public:
             std::uint32_t status;
             if ( rtm_status::success == ( status = rtm_begin() ) ) {
                 // add lock to read-set
-                if ( spinlock_status::unlocked == splk_.state_.load( std::memory_order_relaxed) ) {
+                if ( splk_.is_unlocked_( std::memory_order_relaxed) ) {
                     // lock is free, enter critical section
                     return;
                 }
@@ -71,7 +71,7 @@ public:
                 // abort was not caused by a nested transaction
                 // wait till lock becomes free again
                 std::size_t count = 0;
-                while ( spinlock_status::locked == splk_.state_.load( std::memory_order_relaxed) ) {
+                while ( ! splk_.is_unlocked_( std::memory_order_relaxed) ) {
                     if ( BOOST_FIBERS_SPIN_BEFORE_SLEEP0 > count) {
                         ++count;
                         cpu_relax();
@@ -107,7 +107,7 @@ public:
         }
 
         // add lock to read-set
-        if ( spinlock_status::unlocked != splk_.state_.load( std::memory_order_relaxed) ) {
+        if ( ! splk_.is_unlocked_( std::memory_order_relaxed) ) {
             // lock was acquired by another thread
             // explicit abort of transaction with abort argument 'lock not free'
             rtm_abort_lock_not_free();
@@ -116,7 +116,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( spinlock_status::unlocked == splk_.state_.load( std::memory_order_acquire) ) {
+        if ( splk_.is_unlocked_( std::memory_order_acquire) ) {
             rtm_end();
         } else {
             splk_.unlock();
diff --git a/include/boost/fiber/detail/spinlock_ttas.hpp b/include/boost/fiber/detail/spinlock_ttas.hpp
index cb89e91..b58295d 100644
--- a/include/boost/fiber/detail/spinlock_ttas.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas.hpp
@@ -33,6 +33,10 @@ private:
 
     std::atomic< spinlock_status >              state_{ spinlock_status::unlocked };
 
+    bool is_unlocked_( std::memory_order mo) const noexcept {
+        return spinlock_status::unlocked == state_.load( mo);
+    }
+
 public:
     spinlock_ttas() = default;
 
diff --git a/include/boost/fiber/detail/spinlock_ttas_adaptive.hpp b/include/boost/fiber/detail/spinlock_ttas_adaptive.hpp
index 4ebf1e2..d194075 100644
--- a/include/boost/fiber/detail/spinlock_ttas_adaptive.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_adaptive.hpp
@@ -34,6 +34,10 @@ private:
     std::atomic< spinlock_status >              state_{ spinlock_status::unlocked };
     std::atomic< std::size_t >                  retries_{ 0 };
 
+    bool is_unlocked_( std::memory_order mo) const noexcept {
+        return spinlock_status::unlocked == state_.load( mo);
+    }
+
 public:
     spinlock_ttas_adaptive() = default;
 
diff --git a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
index 1628a8c..9d77b71 100644
--- a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
@@ -33,6 +33,10 @@ private:
     std::atomic< std::int32_t >                 value_{ 0 };
     std::atomic< std::int32_t >                 retries_{ 0 };
 
+    bool is_unlocked_( std::memory_order mo) const noexcept {
+        return 0 == value_.load( mo);
+    }
+
 public:
     spinlock_ttas_adaptive_futex() = default;
 
diff --git a/include/boost/fiber/detail/spinlock_ttas_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
index 3aefdc1..b9051b6 100644
--- a/include/boost/fiber/detail/spinlock_ttas_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
@@ -32,6 +32,10 @@ private:
 
     std::atomic< std::int32_t >                 value_{ 0 };
 
+    bool is_unlocked_( std::memory_order mo) const noexcept {
+        return 0 == value_.load( mo);
+    }
+
 public:
     spinlock_ttas_futex() = default;
 
-- 
2.43.0

