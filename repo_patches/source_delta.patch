From 878cf545554116c81126c33fc509d99ff21abc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 01/45] fix: BytesMut refuses sizes that overflow instead of
 wrapping (commit_write, reserve)

---
 kio/core/bytes_mut.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kio/core/bytes_mut.h b/kio/core/bytes_mut.h
index 5ace5fa..6d8288a 100644
--- a/kio/core/bytes_mut.h
+++ b/kio/core/bytes_mut.h
@@ -64,6 +64,10 @@ namespace kio
 
             const size_t data_len = remaining();
             const size_t available_total = buffer_.capacity();
+            if (additional > buffer_.max_size() - data_len)
+            {
+                throw std::length_error("BytesMut::reserve() exceeds maximum size");
+            }
 
             // Strategy 1: Compact in place if it fits
             if (available_total >= data_len + additional) {
@@ -151,7 +155,7 @@ namespace kio
          */
         void commit_write(const size_t n)
         {
-            if (write_pos_ + n > buffer_.size())
+            if (n > writable())
             {
                 throw std::out_of_range("BytesMut::commit_write() beyond buffer size");
             }
-- 
2.43.0


From 224521639886d0cf88f4bf7fdfad67d871816800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 02/45] fix: RESP bulk frames must end with CRLF

---
 kio/resp/parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kio/resp/parser.cpp b/kio/resp/parser.cpp
index 2e5901f..013610a 100644
--- a/kio/resp/parser.cpp
+++ b/kio/resp/parser.cpp
@@ -132,6 +132,9 @@ namespace kio::resp
         const auto total = header_len + payload_len + 2;
         if (data.size() < total) return std::unexpected(ParseError::NeedMoreData);
 
+        // The payload must be terminated by CRLF
+        if (data[total - 2] != '\r' || data[total - 1] != '\n') return std::unexpected(ParseError::MalformedFrame);
+
         return FrameHeader{type, data.data(), total, 0};
     }
 
-- 
2.43.0


From 6946d651447b24fea0b112b2a93a14da36109849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 03/45] fix: file id generator never repeats ids after a
 sequence overflow

---
 bitcask/include/file_id.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitcask/include/file_id.h b/bitcask/include/file_id.h
index 71384b5..cf8abaf 100644
--- a/bitcask/include/file_id.h
+++ b/bitcask/include/file_id.h
@@ -84,6 +84,8 @@ namespace bitcask
                 {
                     // This is a rare edge case: generating >65k files in 1 second.
                     ALOG_WARN("FileIdGenerator: sequence overflow for partition {}", partition_id_);
+                    // Borrow the next second so that the ID stays unique and increasing.
+                    now = ++last_timestamp_;
                     sequence_ = 0;
                 }
                 else
-- 
2.43.0


From 936ac59b3ad091f704e03197ccbeb196b15e9363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 04/45] fix: dropping a finished DetachedTask no longer
 destroys a freed frame

---
 kio/core/coro.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/kio/core/coro.h b/kio/core/coro.h
index 2059348..c72af14 100644
--- a/kio/core/coro.h
+++ b/kio/core/coro.h
@@ -1,6 +1,7 @@
 #ifndef CORO_H
 #define CORO_H
 
+#include <atomic>
 #include <coroutine>
 #include <exception>
 #include <format>
@@ -213,8 +214,22 @@ namespace kio
         {
             DetachedTask get_return_object() noexcept { return DetachedTask{std::coroutine_handle<promise_type>::from_promise(*this)}; }
 
+            // Set by the first of two events: the owner detaches, the coroutine finishes.
+            // The second one frees the frame.
+            std::atomic<bool> released_{false};
+
+            struct final_awaiter
+            {
+                bool await_ready() noexcept { return false; }
+                void await_suspend(std::coroutine_handle<promise_type> h) noexcept
+                {
+                    if (h.promise().released_.exchange(true, std::memory_order_acq_rel)) h.destroy();
+                }
+                void await_resume() noexcept {}
+            };
+
             std::suspend_never initial_suspend() noexcept { return {}; }
-            std::suspend_never final_suspend() noexcept { return {}; }
+            final_awaiter final_suspend() noexcept { return {}; }
 
             void return_void() noexcept {}
 
@@ -251,7 +266,8 @@ namespace kio
         void detach() && noexcept
         {
             // Forget the handle → let coroutine run to completion
-            coro = {};
+            const auto h = std::exchange(coro, {});
+            if (h && h.promise().released_.exchange(true, std::memory_order_acq_rel)) h.destroy();
         }
     };
 }  // namespace kio
-- 
2.43.0


From a5037462307d5ecc20223400f1373220b97f6d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 05/45] fix: MPSCQueue of capacity 1 no longer accepts a push
 while full

---
 kio/sync/mpsc_queue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kio/sync/mpsc_queue.h b/kio/sync/mpsc_queue.h
index b174d12..35829ee 100644
--- a/kio/sync/mpsc_queue.h
+++ b/kio/sync/mpsc_queue.h
@@ -53,13 +53,14 @@ namespace kio
         };
 
     public:
-        explicit MPSCQueue(size_t capacity) : buffer_(capacity), mask_(capacity - 1)
+        // A single slot cannot tell "full" from "empty" by its sequence number: use at least two
+        explicit MPSCQueue(size_t capacity) : buffer_(capacity < 2 ? 2 : capacity), mask_(buffer_.size() - 1)
         {
             // Capacity must be power of 2
             assert(capacity > 0 && (capacity & (capacity - 1)) == 0 && "Capacity must be a power of 2");
 
             // Initialize sequence numbers for each slot (no T construction)
-            for (size_t i = 0; i < capacity; ++i)
+            for (size_t i = 0; i < buffer_.size(); ++i)
             {
                 buffer_[i].sequence.store(i, std::memory_order_relaxed);
             }
-- 
2.43.0


From a917b2ca599b03b2ee446ebd61335ff797c2f780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:38 +0000
Subject: [PATCH 06/45] fix: Worker's op slot pool always grows by at least one
 slot

---
 kio/core/worker.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 6ae1476..4c27a7f 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -72,7 +72,9 @@ namespace kio::io
         }
 
         const auto cur_size = op_data_pool_.size();
-        size_t new_size = std::min(static_cast<size_t>(static_cast<float>(cur_size) * config_.op_slots_growth_factor), config_.max_op_slots);
+        // grow by at least one slot, whatever the rounding
+        const auto grown = static_cast<size_t>(static_cast<float>(cur_size) * config_.op_slots_growth_factor);
+        size_t new_size = std::min(std::max(grown, cur_size + 1), config_.max_op_slots);
         ALOG_DEBUG("Growing op_data_pool_ from {} to {}", cur_size, new_size);
         op_data_pool_.resize(new_size);
         for (size_t i = cur_size; i < new_size; ++i)
-- 
2.43.0


From 0fcb76d10fd2f8f6a6a4d7de583779f4d8a152cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 07/45] fix: an I/O operation that finds no free op slot no
 longer submits a stale SQE

---
 kio/core/uring_awaitable.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kio/core/uring_awaitable.h b/kio/core/uring_awaitable.h
index 42e96bb..0d3df7d 100644
--- a/kio/core/uring_awaitable.h
+++ b/kio/core/uring_awaitable.h
@@ -39,16 +39,19 @@ namespace kio::io
                    "kio::async_* operation was called from the wrong thread. "
                    "You must co_await SwitchToWorker(worker) at the start of your task.");
 
+            // allocate the op id first: it may throw, and an SQE cannot be given back once taken
+            op_id_ = internal::WorkerAccess::get_op_id(worker_);
+
             sqe_ = io_uring_get_sqe(&internal::WorkerAccess::get_ring(worker_));
             if (sqe_ == nullptr)
             {
                 // no SQE available right now; return error immediately
+                internal::WorkerAccess::release_op_id(worker_, op_id_);
                 immediate_result_ = -EAGAIN;
                 return false;
             }
 
-            // allocate an op id and record the coroutine handle
-            op_id_ = internal::WorkerAccess::get_op_id(worker_);
+            // record the coroutine handle
             internal::WorkerAccess::init_op_slot(worker_, op_id_, h);
 
             // Call prep sqe
-- 
2.43.0


From e253def0900d0f4d940457ccf08a184b74fa5646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 08/45] fix: reads and writes of 4 GiB and more are no longer
 truncated modulo 2^32

---
 kio/core/worker.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 4c27a7f..0c5ec22 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -14,6 +14,10 @@
 
 namespace kio::io
 {
+    // A request length is 32 bits wide: longer buffers are moved in several transfers (this is also the kernel's own
+    // per-call limit). Truncating the size instead would turn a 4 GiB buffer into an empty one.
+    static unsigned clamp_transfer_size(const size_t len) { return static_cast<unsigned>(std::min<size_t>(len, 0x7ffff000)); }
+
     void Worker::check_kernel_version()
     {
         utsname buf{};
@@ -407,7 +411,7 @@ namespace kio::io
 
     Task<Result<int>> Worker::async_read_at(const int client_fd, std::span<char> buf, const uint64_t offset)
     {
-        auto prep = [](io_uring_sqe *sqe, const int fd, char *b, const size_t len, const uint64_t off) { io_uring_prep_read(sqe, fd, b, static_cast<int>(len), off); };
+        auto prep = [](io_uring_sqe *sqe, const int fd, char *b, const size_t len, const uint64_t off) { io_uring_prep_read(sqe, fd, b, clamp_transfer_size(len), off); };
         int ret = co_await make_uring_awaitable(*this, prep, client_fd, buf.data(), buf.size(), offset);
         if (ret < 0)
         {
@@ -464,7 +468,7 @@ namespace kio::io
 
     Task<Result<int>> Worker::async_write_at(const int client_fd, std::span<const char> buf, const uint64_t offset)
     {
-        auto prep = [](io_uring_sqe *sqe, const int fd, const char *b, const size_t len, const uint64_t off) { io_uring_prep_write(sqe, fd, b, static_cast<int>(len), off); };
+        auto prep = [](io_uring_sqe *sqe, const int fd, const char *b, const size_t len, const uint64_t off) { io_uring_prep_write(sqe, fd, b, clamp_transfer_size(len), off); };
         int ret = co_await make_uring_awaitable(*this, prep, client_fd, buf.data(), buf.size(), offset);
         if (ret < 0)
         {
-- 
2.43.0


From 724f0a7eb14d5091ffa100f02eea847b8c96e193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 09/45] fix: failed I/O operations are counted in
 io_errors_total

---
 kio/core/worker.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 0c5ec22..1d1c071 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -275,6 +275,9 @@ namespace kio::io
                 continue;
             }
 
+            // an expired timer (-ETIME) is not an error
+            if (cqe->res < 0 && cqe->res != -ETIME) stats_.io_errors_total++;
+
             set_op_result(op_id, cqe->res);
             resume_coro_by_id(op_id);
             release_op_id(op_id);
-- 
2.43.0


From 3b268d4c2369052b84eda84e602333d9a140bbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 10/45] fix: Worker's constructor no longer leaks its eventfd
 when pre-allocation fails

---
 kio/core/worker.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 1d1c071..4a39c8d 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -111,12 +111,6 @@ namespace kio::io
     {
         config_.check();
 
-        wakeup_fd_ = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
-        if (wakeup_fd_ < 0)
-        {
-            throw std::system_error(errno, std::system_category(), "failed to create eventfd");
-        }
-
         // pre-allocate
         op_data_pool_.resize(config_.default_op_slots);
         free_op_ids.reserve(config_.default_op_slots);
@@ -124,6 +118,13 @@ namespace kio::io
         {
             free_op_ids.push_back(i);
         }
+
+        // last, as nothing would close it if the constructor failed afterwards
+        wakeup_fd_ = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
+        if (wakeup_fd_ < 0)
+        {
+            throw std::system_error(errno, std::system_category(), "failed to create eventfd");
+        }
     }
 
     void Worker::initialize()
-- 
2.43.0


From 029e2796ebc1f65760a08f250104f8d104dbe327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 11/45] fix: a Worker whose ring was never set up no longer
 closes descriptor 0

---
 kio/core/worker.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 4a39c8d..bff1963 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -111,6 +111,9 @@ namespace kio::io
     {
         config_.check();
 
+        // no ring yet: the destructor must not tear down (and close descriptor 0 of) a ring that was never set up
+        ring_.ring_fd = -1;
+
         // pre-allocate
         op_data_pool_.resize(config_.default_op_slots);
         free_op_ids.reserve(config_.default_op_slots);
@@ -134,6 +137,7 @@ namespace kio::io
 
         if (const int ret = io_uring_queue_init_params(static_cast<int>(config_.uring_queue_depth), &ring_, &params); ret < 0)
         {
+            ring_.ring_fd = -1;
             throw std::system_error(-ret, std::system_category(), "io_uring_queue_init failed");
         }
 
-- 
2.43.0


From e1a1e8f0784106c002624e471611af1994d47e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 12/45] fix: a worker failing after start-up no longer counts
 its ready latch down twice

---
 kio/core/worker.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker.h b/kio/core/worker.h
index c5ab448..7ae3b93 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -155,6 +155,8 @@ namespace kio::io
 
         std::latch init_latch_{1};
         std::latch shutdown_latch_{1};
+        std::atomic<bool> init_signaled_{false};
+        std::atomic<bool> shutdown_signaled_{false};
         std::stop_source stop_source_;
         // updated by all run method
         std::stop_token stop_token_;
@@ -201,8 +203,15 @@ namespace kio::io
          * @return bool
          */
         [[nodiscard]] bool is_on_worker_thread() const;
-        void signal_init_complete() { init_latch_.count_down(); }
-        void signal_shutdown_complete() { shutdown_latch_.count_down(); }
+        // Both are signalled again when the worker fails after start-up; a latch must be counted down only once.
+        void signal_init_complete()
+        {
+            if (!init_signaled_.exchange(true)) init_latch_.count_down();
+        }
+        void signal_shutdown_complete()
+        {
+            if (!shutdown_signaled_.exchange(true)) shutdown_latch_.count_down();
+        }
 
         /**
          *@brief Gets a std::jthread stop token linked to the worker thread
-- 
2.43.0


From 775950bc3fe8c8ebb16b75e8ec7e5a8360021906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 13/45] fix: a worker no longer touches itself after announcing
 its shutdown

---
 kio/core/worker.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index bff1963..3c2134d 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -192,9 +192,11 @@ namespace kio::io
             process_completions();
         }
 
+        drain_completions();
+
         ALOG_INFO("Worker {} loop shut down completed", this->id_);
 
-        // signal shutdown for anyone waiting
+        // signal shutdown for anyone waiting: from here on the worker may be destroyed at any time
         signal_shutdown_complete();
     }
 
@@ -225,10 +227,6 @@ namespace kio::io
             ALOG_INFO("Worker {} starting event loop", id_);
 
             loop();
-
-            ALOG_INFO("Worker {} exited event loop", id_);
-
-            drain_completions();
         }
         catch (const std::exception &e)
         {
-- 
2.43.0


From e189bb0cac581d5202de9cc4c35081bd2723adff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 14/45] fix: an invalid worker configuration is refused before
 it reaches the task queue's assertion

---
 kio/core/worker.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 3c2134d..b3f4e90 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -107,10 +107,8 @@ namespace kio::io
     }
 
     Worker::Worker(const size_t id, const WorkerConfig &config, std::function<void(Worker &)> worker_init_callback) :
-        config_(config), id_(id), task_queue_(config.task_queue_capacity), worker_init_callback_(std::move(worker_init_callback))
+        config_((config.check(), config)), id_(id), task_queue_(config.task_queue_capacity), worker_init_callback_(std::move(worker_init_callback))
     {
-        config_.check();
-
         // no ring yet: the destructor must not tear down (and close descriptor 0 of) a ring that was never set up
         ring_.ring_fd = -1;
 
-- 
2.43.0


From b53cf971b379c70f934517ec5df44623355bf67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 15/45] fix: IOPool no longer hangs when a worker thread cannot
 be started

---
 kio/core/worker_pool.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker_pool.cpp b/kio/core/worker_pool.cpp
index 1fcac47..5d97600 100644
--- a/kio/core/worker_pool.cpp
+++ b/kio/core/worker_pool.cpp
@@ -23,9 +23,21 @@ namespace kio::io
         }
 
         // Start threads after all workers are created
-        for (const auto &worker: workers_)
+        try
         {
-            worker_threads_.emplace_back([&w = *worker] { w.loop_forever(); });
+            for (const auto &worker: workers_)
+            {
+                worker_threads_.emplace_back([&w = *worker] { w.loop_forever(); });
+            }
+        }
+        catch (...)
+        {
+            // the threads already running are joined on the way out: they have to be told to stop
+            for (size_t i = 0; i < worker_threads_.size(); ++i)
+            {
+                (void) workers_[i]->request_stop();
+            }
+            throw;
         }
 
         // Wait for all workers to be fully initialized
-- 
2.43.0


From a2c080ca1c381b44d3f2b24676c91bbf1c1e54f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 16/45] fix: AsyncEvent schedules its waiters through
 WorkerAccess

---
 kio/sync/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/sync/event.h b/kio/sync/event.h
index a52631f..fc94999 100644
--- a/kio/sync/event.h
+++ b/kio/sync/event.h
@@ -112,7 +112,7 @@ namespace kio::sync
                 if (hptr)
                 {
                     std::coroutine_handle<> h = std::coroutine_handle<>::from_address(hptr);
-                    owner_.post(h);
+                    io::internal::WorkerAccess::post(owner_, h);
                 }
 
                 curr = next;
-- 
2.43.0


From d8ae9c5df9447a4a332b38ef0096b468cb3c2d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 17/45] fix: when_any wakes its waiter when a task ends with an
 exception

---
 kio/sync/when_any.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/kio/sync/when_any.h b/kio/sync/when_any.h
index 9596563..def578b 100644
--- a/kio/sync/when_any.h
+++ b/kio/sync/when_any.h
@@ -43,16 +43,25 @@ namespace kio::sync
         template<size_t Index, size_t N, typename Task>
         DetachedTask run_and_notify(std::shared_ptr<WhenAnyState<N>> state, Task task)
         {
+            // Runs when the task ends, with a value or with an exception
+            struct Finish
+            {
+                WhenAnyState<N>& state;
+
+                ~Finish()
+                {
+                    // Try to win the race
+                    if (state.try_win(Index))
+                    {
+                        // We won! Notify the waiter
+                        state.done.notify();
+                    }
+                    // If we didn't win, someone else already did - do nothing
+                }
+            } finish{*state};
+
             // Run the task
             co_await task;
-
-            // Try to win the race
-            if (state->try_win(Index))
-            {
-                // We won! Notify the waiter
-                state->done.notify();
-            }
-            // If we didn't win, someone else already did - do nothing
         }
 
         /**
-- 
2.43.0


From d55c5c53e1f5b785c9b2817d781f1ec117870894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 18/45] fix: when_any owns its tasks until it is awaited

---
 kio/sync/when_any.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kio/sync/when_any.h b/kio/sync/when_any.h
index def578b..1ae1b70 100644
--- a/kio/sync/when_any.h
+++ b/kio/sync/when_any.h
@@ -81,10 +81,11 @@ namespace kio::sync
      *
      * Returns the index of the first task that completes.
      * All other tasks continue running in the background.
+     * The tasks are held by the returned task, which may be awaited later.
      *
      **/
     template<typename... Tasks>
-    Task<size_t> when_any(io::Worker& worker, Tasks&&... tasks)
+    Task<size_t> when_any(io::Worker& worker, Tasks... tasks)
     {
         constexpr size_t N = sizeof...(Tasks);
         static_assert(N > 0, "when_any requires at least one task");
@@ -93,7 +94,7 @@ namespace kio::sync
         auto state = std::make_shared<detail::WhenAnyState<N>>(worker);
 
         // Spawn all tasks
-        detail::spawn_tasks_impl(state, std::index_sequence_for<Tasks...>{}, std::forward<Tasks>(tasks)...);
+        detail::spawn_tasks_impl(state, std::index_sequence_for<Tasks...>{}, std::move(tasks)...);
 
         // Wait for first completion
         co_await state->done.wait();
-- 
2.43.0


From 675489d1560f4eddacb8828a9eae07b8b450c2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 19/45] fix: a timed wait on a baton resumes its waiter exactly
 once

---
 kio/sync/baton.h | 180 ++++++++++++++---------------------------------
 1 file changed, 54 insertions(+), 126 deletions(-)

diff --git a/kio/sync/baton.h b/kio/sync/baton.h
index eb03e29..4975b68 100644
--- a/kio/sync/baton.h
+++ b/kio/sync/baton.h
@@ -10,6 +10,7 @@
 #include <chrono>
 #include <coroutine>
 #include <liburing.h>
+#include <memory>
 
 #include "kio/core/coro.h"
 #include "kio/core/worker.h"
@@ -123,136 +124,22 @@ namespace kio::sync
         {
             co_await io::SwitchToWorker(owner_);
 
-            struct TimeoutState
+            if (ready())
             {
-                AsyncBaton& baton;
-                std::chrono::nanoseconds duration;
-
-                uint64_t timer_op_id = static_cast<uint64_t>(-1);
-                __kernel_timespec ts{};
-                bool timer_submitted = false;
-                bool baton_signaled = false;
-                std::atomic<bool> resumed{false};
-
-                bool await_ready() noexcept
-                {
-                    if (baton.state_.load(std::memory_order_acquire) == SET)
-                    {
-                        baton_signaled = true;
-                        return true;
-                    }
-                    return false;
-                }
-
-                bool await_suspend(std::coroutine_handle<> h) noexcept
-                {
-                    // Step 1: Register with baton FIRST
-                    baton.waiter_.store(h, std::memory_order_relaxed);
-                    std::atomic_thread_fence(std::memory_order_release);
-
-                    if (uint8_t expected = NOT_SET; !baton.state_.compare_exchange_strong(expected, WAITING, std::memory_order_acq_rel, std::memory_order_acquire))
-                    {
-                        // Baton already SET - no timeout needed
-                        baton_signaled = true;
-                        return false;
-                    }
-
-                    // Set up the timer (baton is now in WAITING state)
-                    timer_op_id = io::internal::WorkerAccess::get_op_id(baton.owner_);
-                    io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, h);
-
-                    ts.tv_sec = std::chrono::duration_cast<std::chrono::seconds>(duration).count();
-                    ts.tv_nsec = (duration % std::chrono::seconds(1)).count();
-
-                    io_uring_sqe* sqe = io_uring_get_sqe(&io::internal::WorkerAccess::get_ring(baton.owner_));
-                    if (!sqe)
-                    {
-                        // Failed to get SQE - must unregister from baton
-                        io::internal::WorkerAccess::release_op_id(baton.owner_, timer_op_id);
-                        timer_op_id = static_cast<uint64_t>(-1);
-
-                        if (uint8_t state = WAITING; baton.state_.compare_exchange_strong(state, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire))
-                        {
-                            // Successfully unregistered - immediate timeout
-                            baton_signaled = false;
-                            return false;
-                        }
-
-                        // Baton was signaled while we were cleaning up
-                        baton_signaled = true;
-                        return false;
-                    }
-
-                    io_uring_prep_timeout(sqe, &ts, 0, 0);
-                    io_uring_sqe_set_data64(sqe, timer_op_id);
-                    timer_submitted = true;
-
-                    return true;
-                }
-
-                void await_resume()
-                {
-                    // Protect against double-resume
-                    if (resumed.exchange(true, std::memory_order_acq_rel))
-                    {
-                        // Already resumed once, this is a spurious resume
-                        return;
-                    }
-
-                    // Check if result was already determined in await_suspend
-                    if (!timer_submitted)
-                    {
-                        return;
-                    }
-
-                    // Determine who resumed us by checking baton state
-
-                    if (baton.state_.load(std::memory_order_acquire) == SET)
-                    {
-                        // Baton signaled us
-                        baton_signaled = true;
-
-                        // We cannot safely cancel the timer because:
-                        // The timer CQE might already be in the completion queue
-                        // io_uring_prep_timeout_remove creates a NEW CQE with different op_id
-                        // The original timer CQE will still arrive with timer_op_id
-                        //
-                        // Solution: Let the timer complete naturally and ignore its CQE
-                        // by replacing the handler with noop_coroutine()
-                        io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, std::noop_coroutine());
-
-                        // DO NOT attempt to cancel - just let it timeout naturally
-                        // The noop handler will safely consume the CQE when it arrives
-                    }
-                    else
-                    {
-                        // We were resumed by timer CQE
-                        // Try to unregister from baton
-                        if (uint8_t expected = WAITING; baton.state_.compare_exchange_strong(expected, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire))
-                        {
-                            // Successfully unregistered - pure timeout
-                            baton_signaled = false;
-                        }
-                        else
-                        {
-                            // CAS failed - baton was SET concurrently
-                            // Report timeout (we're processing timer CQE)
-                            // Second resume from the task queue will be caught by double-resume check
-                            baton_signaled = false;
-                        }
-                        // worker will release timer_op_id when processing the CQE
-                    }
+                co_return true;
+            }
 
-                    // Mark the timer as no longer active
-                    timer_submitted = false;
-                }
+            const auto timed = std::make_shared<TimedWait>(this);
+            expire_after(owner_, timed, timeout).detach();
 
-                [[nodiscard]] bool was_signaled() const noexcept { return baton_signaled; }
-            };
+            if (!timed->expired)
+            {
+                co_await wait();
+            }
 
-            TimeoutState state{*this, timeout};
-            co_await state;
-            co_return state.was_signaled();
+            // The timer may still be running: it has nothing left to do.
+            timed->baton = nullptr;
+            co_return !timed->expired || ready();
         }
 
     private:
@@ -267,6 +154,47 @@ namespace kio::sync
         std::atomic<uint8_t> state_{NOT_SET};
         std::atomic<std::coroutine_handle<>> waiter_{nullptr};
 
+        // Shared by a timed wait and its timer, whichever ends last. Only used on the owner Worker thread.
+        struct TimedWait
+        {
+            AsyncBaton* baton;
+            bool expired{false};
+
+            explicit TimedWait(AsyncBaton* b) : baton(b) {}
+        };
+
+        static DetachedTask expire_after(io::Worker& owner, std::shared_ptr<TimedWait> timed, std::chrono::nanoseconds timeout)
+        {
+            try
+            {
+                // An error means that there is no timer: that is an immediate timeout.
+                (void) co_await owner.async_sleep(timeout);
+            }
+            catch (const std::exception& e)
+            {
+                ALOG_ERROR("Baton timer failed: {}", e.what());
+            }
+
+            if (!timed->baton)
+            {
+                co_return;
+            }
+
+            uint8_t state = WAITING;
+            if (timed->baton->state_.compare_exchange_strong(state, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire))
+            {
+                // No notifier can wake the waiter any more
+                timed->expired = true;
+                timed->baton->waiter_.load(std::memory_order_relaxed).resume();
+            }
+            else if (state == NOT_SET)
+            {
+                // The timer could not be started, the waiter has not suspended yet
+                timed->expired = true;
+            }
+            // Otherwise, notify() has won and schedules the waiter
+        }
+
         struct TimeoutAwaiter
         {
             AsyncBaton& baton;
-- 
2.43.0


From 3719bd6d8ece8dcecf764ebfbaba5ed74b516a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 20/45] fix: coroutine promises are no longer initialised from
 the coroutine's parameters

---
 kio/core/coro.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kio/core/coro.h b/kio/core/coro.h
index c72af14..88e9430 100644
--- a/kio/core/coro.h
+++ b/kio/core/coro.h
@@ -52,6 +52,9 @@ namespace kio
             std::variant<std::monostate, T, std::exception_ptr> result_;
             std::coroutine_handle<> continuation_;
 
+            // Not an aggregate: compilers initialise an aggregate promise from the coroutine's parameters
+            promise_type() = default;
+
             [[nodiscard]]
             Task get_return_object() noexcept
             {
@@ -158,6 +161,8 @@ namespace kio
             std::variant<std::monostate, std::exception_ptr> result_;
             std::coroutine_handle<> continuation_;
 
+            promise_type() = default;
+
             [[nodiscard]]
             Task get_return_object() noexcept
             {
@@ -212,6 +217,8 @@ namespace kio
     {
         struct promise_type
         {
+            promise_type() = default;
+
             DetachedTask get_return_object() noexcept { return DetachedTask{std::coroutine_handle<promise_type>::from_promise(*this)}; }
 
             // Set by the first of two events: the owner detaches, the coroutine finishes.
-- 
2.43.0


From db9340fe18062b0d47b2d2ce58ea116f5d411c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 21/45] fix: accept into a SocketAddress gives the kernel room
 for the address

---
 kio/core/worker.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kio/core/worker.h b/kio/core/worker.h
index 7ae3b93..631da7b 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -271,7 +271,12 @@ namespace kio::io
         // Io methods
         //=========================================================
         Task<Result<int>> async_accept(int server_fd, sockaddr* addr, socklen_t* addrlen);
-        Task<Result<int>> async_accept(const net::Socket& socket, net::SocketAddress& addr) { return async_accept(socket.get(), reinterpret_cast<sockaddr*>(&addr.addr), &addr.addrlen); }
+        Task<Result<int>> async_accept(const net::Socket& socket, net::SocketAddress& addr)
+        {
+            // On input the length tells the kernel how much room there is for the peer's address.
+            addr.addrlen = sizeof(addr.addr);
+            return async_accept(socket.get(), reinterpret_cast<sockaddr*>(&addr.addr), &addr.addrlen);
+        }
         /**
          * @brief Asynchronously reads data from a streaming file descriptor (e.g., socket, pipe).
          *
-- 
2.43.0


From eb38a95ffbf566af12c53ffffb082598dde916a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 22/45] fix: MetricSnapshot::BuildFamily returns the existing
 family of the same name and stable references

---
 kio/metrics/model.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kio/metrics/model.h b/kio/metrics/model.h
index a6fc510..f67210c 100644
--- a/kio/metrics/model.h
+++ b/kio/metrics/model.h
@@ -4,6 +4,8 @@
 
 #ifndef KIO_MODEL_H
 #define KIO_MODEL_H
+#include <algorithm>
+#include <deque>
 #include <map>
 #include <string>
 #include <vector>
@@ -65,22 +67,25 @@ namespace kio
          * @param help The help string.
          * @param type The metric type (Counter or Gauge).
          * @param max_samples The maximum number of samples for a metric
-         * @return A reference to the new family, to which samples can be added.
+         * @return A reference to the family of that name, to which samples can be added.
          */
         MetricFamily& BuildFamily(std::string name, std::string help, const MetricType type, const size_t max_samples = kMetricsMaxSamples)
         {
+            // A family is exported once, however many collectors contribute samples to it
+            if (const auto it = std::ranges::find(families_, name, &MetricFamily::name); it != families_.end()) return *it;
             families_.emplace_back(MetricFamily{max_samples, std::move(name), std::move(help), type, {}});
             return families_.back();
         }
 
         [[nodiscard]]
-        const std::vector<MetricFamily>& GetFamilies() const
+        const std::deque<MetricFamily>& GetFamilies() const
         {
             return families_;
         }
 
     private:
-        std::vector<MetricFamily> families_;
+        // deque: references handed out by BuildFamily stay valid
+        std::deque<MetricFamily> families_;
     };
 
 }  // namespace kio
-- 
2.43.0


From 1d9969cce32e53d794935d33f58a47fa4595b3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 23/45] fix: metric values are exported exactly

---
 kio/metrics/serializer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kio/metrics/serializer.cpp b/kio/metrics/serializer.cpp
index ca5e09b..b8be34d 100644
--- a/kio/metrics/serializer.cpp
+++ b/kio/metrics/serializer.cpp
@@ -3,6 +3,7 @@
 //
 #include "kio/metrics/serializer.h"
 
+#include <charconv>
 #include <sstream>
 
 #include "kio/metrics/utils.h"
@@ -32,7 +33,10 @@ namespace kio
                     }
                     ss << "}";
                 }
-                ss << " " << sample.value << "\n";
+                // Shortest text that reads back as exactly this value
+                char value[64];
+                const auto end = std::to_chars(value, value + sizeof(value), sample.value).ptr;
+                ss << " " << std::string_view(value, end) << "\n";
             }
             // Extra newline between families
             ss << "\n";
-- 
2.43.0


From 821be336dcd3bebfde913ddd811cdb5a8f9e358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 24/45] fix: metric help text is escaped

---
 kio/metrics/serializer.cpp |  2 +-
 kio/metrics/utils.h        | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/kio/metrics/serializer.cpp b/kio/metrics/serializer.cpp
index b8be34d..136a8f7 100644
--- a/kio/metrics/serializer.cpp
+++ b/kio/metrics/serializer.cpp
@@ -15,7 +15,7 @@ namespace kio
         std::ostringstream ss;
         for (const auto& family: snapshot.GetFamilies())
         {
-            ss << "# HELP " << family.name << " " << family.help << "\n";
+            ss << "# HELP " << family.name << " " << SanitizeHelpText(family.help) << "\n";
             ss << "# TYPE " << family.name << " " << ToString(family.type) << "\n";
 
             for (const auto& sample: family.samples)
diff --git a/kio/metrics/utils.h b/kio/metrics/utils.h
index d67ed29..b9b655e 100644
--- a/kio/metrics/utils.h
+++ b/kio/metrics/utils.h
@@ -56,6 +56,22 @@ namespace kio
         return out;
     }
 
+    // Help text escapes backslashes and line feeds only
+    inline std::string SanitizeHelpText(const std::string& help)
+    {
+        std::string out;
+        for (const char c: help)
+        {
+            if (c == '\\')
+                out += "\\\\";
+            else if (c == '\n')
+                out += "\\n";
+            else
+                out += c;
+        }
+        return out;
+    }
+
     inline std::string SanitizeLabelKey(const std::string& key)
     {
         std::string out;
-- 
2.43.0


From 4571aeed8a4860f07b59a37816829ccb0e70e231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 25/45] fix: a MetricsServer that was never started can be
 stopped and destroyed

---
 kio/metrics/server.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/kio/metrics/server.cpp b/kio/metrics/server.cpp
index 5af7d8b..d468687 100644
--- a/kio/metrics/server.cpp
+++ b/kio/metrics/server.cpp
@@ -109,6 +109,17 @@ namespace kio
             return;
         }
 
+        // Never started: there is no event loop to wait for
+        if (!ev_thread_.joinable())
+        {
+            if (server_fd_ >= 0)
+            {
+                ::close(server_fd_);
+                server_fd_ = -1;
+            }
+            return;
+        }
+
         ALOG_INFO("Stopping MetricsServer...");
 
         // Stop worker
-- 
2.43.0


From ff34cd7a7813067e55b59fa7548b7cbc9d200995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 26/45] fix: Logger::flush() no longer races with the consumer
 thread

---
 kio/core/async_logger.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kio/core/async_logger.h b/kio/core/async_logger.h
index 45f6113..265c990 100644
--- a/kio/core/async_logger.h
+++ b/kio/core/async_logger.h
@@ -11,6 +11,7 @@
 #include <functional>
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <source_location>
 #include <span>
 #include <string>
@@ -182,6 +183,8 @@ namespace kio {
         }
 
         void flush() {
+            // The queue has a single consumer; records leave in order
+            const std::lock_guard lock(flush_mutex_);
             LogMessage entry;
             while (queue_.try_pop(entry)) {
                 write(entry);
@@ -314,6 +317,7 @@ namespace kio {
         }
 
         MPSCQueue<LogMessage> queue_;
+        std::mutex flush_mutex_;
         std::atomic<LogLevel> level_;
         std::jthread consumer_thread_;
         int wakeup_fd_{-1};
-- 
2.43.0


From c56a6c45438539784a83ac9b309c4d4e24be0e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:11 +0000
Subject: [PATCH 27/45] fix: an absurd entry size no longer reads past the
 buffer

---
 bitcask/src/entry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcask/src/entry.cpp b/bitcask/src/entry.cpp
index 5f86e63..b73707a 100644
--- a/bitcask/src/entry.cpp
+++ b/bitcask/src/entry.cpp
@@ -67,7 +67,7 @@ namespace bitcask
         const auto crc = read_le<uint32_t>(buffer.data());
         const auto size = read_le<uint64_t>(buffer.data() + 4);
 
-        if (buffer.size() < kEntryFixedHeaderSize + size)
+        if (buffer.size() - kEntryFixedHeaderSize < size)
         {
             return std::unexpected(Error{ErrorCategory::Serialization, kIoNeedMoreData});
         }
-- 
2.43.0


From 8e295cec81c726de6343b2598b085e3a80761e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 28/45] fix: concurrent writes of a partition no longer take
 the same place in the file

---
 bitcask/include/partition.h  |  4 ++
 bitcask/include/write_lock.h | 86 ++++++++++++++++++++++++++++++++++++
 bitcask/src/partition.cpp    | 14 ++++++
 3 files changed, 104 insertions(+)
 create mode 100644 bitcask/include/write_lock.h

diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index 4e0a8f3..8fd6bd7 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -11,6 +11,7 @@
 #include "entry.h"
 #include "fd_cache.h"
 #include "file_id.h"
+#include "write_lock.h"
 
 namespace bitcask
 {
@@ -41,6 +42,9 @@ namespace bitcask
         compactor::CompactionLimits compaction_limits_{};
         std::atomic<bool> shutting_down_{false};
 
+        // Held by whoever appends to, replaces or seals the active file
+        WriteLock write_lock_;
+
         // Helper methods
         kio::Task<kio::Result<DataEntry>> async_read_entry(int fd, uint64_t offset, uint32_t size) const;
         kio::Task<kio::Result<void>> rotate_active_file();
diff --git a/bitcask/include/write_lock.h b/bitcask/include/write_lock.h
new file mode 100644
index 0000000..0caf5b5
--- /dev/null
+++ b/bitcask/include/write_lock.h
@@ -0,0 +1,86 @@
+//
+// Serialises the writers of a partition.
+//
+
+#ifndef KIO_BITCASK_WRITE_LOCK_H
+#define KIO_BITCASK_WRITE_LOCK_H
+
+#include <coroutine>
+#include <deque>
+#include <utility>
+
+namespace bitcask
+{
+    /**
+     * @brief A mutex for coroutines that all run on the same worker.
+     *
+     * A coroutine that finds the lock taken is suspended and resumed, in order of arrival, once the lock is free.
+     */
+    class WriteLock
+    {
+    public:
+        WriteLock() = default;
+        WriteLock(const WriteLock&) = delete;
+        WriteLock& operator=(const WriteLock&) = delete;
+
+        class [[nodiscard]] Guard
+        {
+        public:
+            explicit Guard(WriteLock& lock) : lock_(&lock) {}
+            Guard(Guard&& other) noexcept : lock_(std::exchange(other.lock_, nullptr)) {}
+            Guard(const Guard&) = delete;
+            Guard& operator=(const Guard&) = delete;
+            Guard& operator=(Guard&&) = delete;
+
+            ~Guard()
+            {
+                if (lock_ != nullptr) lock_->release();
+            }
+
+        private:
+            WriteLock* lock_;
+        };
+
+        auto acquire()
+        {
+            struct Awaiter
+            {
+                WriteLock& lock;
+
+                [[nodiscard]] bool await_ready() const noexcept
+                {
+                    if (lock.held_) return false;
+                    lock.held_ = true;
+                    return true;
+                }
+                void await_suspend(std::coroutine_handle<> h) const { lock.waiters_.push_back(h); }
+                [[nodiscard]] Guard await_resume() const noexcept { return Guard(lock); }
+            };
+            return Awaiter{*this};
+        }
+
+    private:
+        bool held_{false};
+        bool handing_over_{false};
+        std::deque<std::coroutine_handle<>> waiters_;
+
+        void release()
+        {
+            held_ = false;
+            // A waiter that finishes at once releases the lock again while it is being resumed: the loop below goes on.
+            if (handing_over_) return;
+
+            handing_over_ = true;
+            while (!held_ && !waiters_.empty())
+            {
+                const auto next = waiters_.front();
+                waiters_.pop_front();
+                held_ = true;
+                next.resume();
+            }
+            handing_over_ = false;
+        }
+    };
+}  // namespace bitcask
+
+#endif  // KIO_BITCASK_WRITE_LOCK_H
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 013ab3a..12c7ed3 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -17,6 +17,13 @@ Task<Result<void>> Partition::put(std::string&& key, std::vector<char>&& value)
 
     co_await SwitchToWorker(worker_);
 
+    // One writer at a time: the offset of an entry is the size of the file when its write starts
+    const auto guard = co_await write_lock_.acquire();
+    if (active_file_ == nullptr)
+    {
+        co_return std::unexpected(Error{ErrorCategory::Application, kAppUnknown});  // closed meanwhile
+    }
+
     if (active_file_->should_rotate(config_.max_file_size))
     {
         KIO_TRY(co_await rotate_active_file());
@@ -92,6 +99,12 @@ Task<Result<void>> Partition::del(const std::string& key)
 
     co_await SwitchToWorker(worker_);
 
+    const auto guard = co_await write_lock_.acquire();
+    if (active_file_ == nullptr)
+    {
+        co_return std::unexpected(Error{ErrorCategory::Application, kAppUnknown});  // closed meanwhile
+    }
+
     stats_.deletes_total++;
 
     const auto it = keydir_.find(key);
@@ -557,6 +570,7 @@ Task<Result<std::unique_ptr<Partition>>> Partition::open(const BitcaskConfig& co
 Task<Result<void>> Partition::seal_active_file()
 {
     co_await SwitchToWorker(worker_);
+    const auto guard = co_await write_lock_.acquire();
 
     // Check if there is an active file to seal and if it has content
     if (active_file_ == nullptr)
-- 
2.43.0


From b3a5add270b308a2ede7e15dc9f0e8f97d6925e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:37 +0000
Subject: [PATCH 29/45] fix: a read keeps its own copy of the entry's location
 while it is suspended

---
 bitcask/include/partition.h |  1 +
 bitcask/src/partition.cpp   | 48 +++++++++++++++++++++++++------------
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index 8fd6bd7..d4c57d9 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -46,6 +46,7 @@ namespace bitcask
         WriteLock write_lock_;
 
         // Helper methods
+        kio::Task<kio::Result<DataEntry>> read_location(ValueLocation loc);
         kio::Task<kio::Result<DataEntry>> async_read_entry(int fd, uint64_t offset, uint32_t size) const;
         kio::Task<kio::Result<void>> rotate_active_file();
         kio::Task<kio::Result<int>> find_fd(uint64_t file_id);
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 12c7ed3..305c886 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -69,26 +69,36 @@ Task<Result<std::optional<std::vector<char>>>> Partition::get(const std::string&
     co_await SwitchToWorker(worker_);
     stats_.gets_total++;
 
-    const auto it = keydir_.find(key);
-    if (it == keydir_.end())
+    for (;;)
     {
-        stats_.gets_miss_total++;
-        co_return std::nullopt;
-    }
+        const auto it = keydir_.find(key);
+        if (it == keydir_.end())
+        {
+            stats_.gets_miss_total++;
+            co_return std::nullopt;
+        }
 
-    const auto& loc = it->second;
-    const int fd = KIO_TRY(co_await find_fd(loc.file_id));
+        // A copy: the keydir may change while the entry is being read
+        const auto loc = it->second;
+        auto entry = co_await read_location(loc);
+        if (!entry.has_value())
+        {
+            // Compaction may have moved the entry and removed its file meanwhile
+            if (const auto now = keydir_.find(key); now == keydir_.end() || now->second.file_id != loc.file_id || now->second.offset != loc.offset)
+            {
+                continue;
+            }
+            co_return std::unexpected(entry.error());
+        }
 
-    ALOG_TRACE("Reading entry from file {} at offset {} with size {}", loc.file_id, loc.offset, loc.total_size);
-    DataEntry entry = KIO_TRY(co_await async_read_entry(fd, loc.offset, loc.total_size));
+        if (entry->is_tombstone())
+        {
+            stats_.gets_miss_total++;
+            co_return std::nullopt;
+        }
 
-    if (entry.is_tombstone())
-    {
-        stats_.gets_miss_total++;
-        co_return std::nullopt;
+        co_return std::move(entry->value);
     }
-
-    co_return entry.value;
 }
 
 
@@ -153,6 +163,14 @@ Task<Result<int>> Partition::find_fd(const uint64_t file_id)
     co_return co_await fd_cache_.get_or_open(file_id, path);
 }
 
+Task<Result<DataEntry>> Partition::read_location(const ValueLocation loc)
+{
+    const int fd = KIO_TRY(co_await find_fd(loc.file_id));
+
+    ALOG_TRACE("Reading entry from file {} at offset {} with size {}", loc.file_id, loc.offset, loc.total_size);
+    co_return co_await async_read_entry(fd, loc.offset, loc.total_size);
+}
+
 Task<Result<DataEntry>> Partition::async_read_entry(const int fd, const uint64_t offset, const uint32_t size) const
 {
     ALOG_TRACE("Reading entry from file {} at offset {} with size {}", fd, offset, size);
-- 
2.43.0


From 496c52507dcdcba37385939439a755618ec4541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:09 +0000
Subject: [PATCH 30/45] fix: rotation keeps the old active file until the new
 one exists, sealing never removes it

---
 bitcask/include/partition.h |  1 +
 bitcask/src/partition.cpp   | 32 ++++++++++++++++----------------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index d4c57d9..e02b896 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -83,6 +83,7 @@ namespace bitcask
         kio::Task<kio::Result<void>> recover();
         kio::Task<bool> try_recover_from_hint(uint64_t file_id);
         kio::Task<kio::Result<void>> create_and_set_active_file();
+        kio::Task<kio::Result<std::unique_ptr<DataFile>>> create_data_file();
         /**
          * Seal the active file, truncate it to the actual db size.
          * This method invalidates the active file.
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 305c886..61641e2 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -197,31 +197,40 @@ Task<Result<void>> Partition::rotate_active_file()
     // truncate to the actual used space
     KIO_TRY(co_await worker_.async_ftruncate(active_fd, static_cast<off_t>(actual_size)));
 
+    // Create a new active file. It takes the place of the old one before that is closed: reads may need the active
+    // file at any time, and if it cannot be created the old one stays in use
+    auto new_file = KIO_TRY(co_await create_data_file());
+    std::swap(active_file_, new_file);
+
     // close
-    KIO_TRY(co_await active_file_->async_close());
+    KIO_TRY(co_await new_file->async_close());
 
     // No need to add to FD cache as it will be done when needed
 
-    // Create a new active file
-    KIO_TRY(co_await create_and_set_active_file());
-
     stats_.file_rotations_total++;
 
     co_return {};
 }
 
 Task<Result<void>> Partition::create_and_set_active_file()
+{
+    active_file_ = KIO_TRY(co_await create_data_file());
+
+    co_return {};
+}
+
+Task<Result<std::unique_ptr<DataFile>>> Partition::create_data_file()
 {
     uint64_t new_id = file_id_gen_.next();
     int new_fd = KIO_TRY(co_await worker_.async_openat(get_data_file_path(new_id), config_.write_flags, config_.file_mode));
 
-    active_file_ = std::make_unique<DataFile>(new_fd, new_id, worker_, config_);
+    auto file = std::make_unique<DataFile>(new_fd, new_id, worker_, config_);
 
     // Pre-allocate
     // TODO: remove to fix test for now
     co_await worker_.async_fallocate(new_fd, 0, static_cast<off_t>(config_.max_file_size));
 
-    co_return {};
+    co_return std::move(file);
 }
 
 bool Partition::should_compact_file(const uint64_t file_id) const
@@ -598,9 +607,8 @@ Task<Result<void>> Partition::seal_active_file()
 
     const uint64_t actual_size = active_file_->size();
     const int active_fd = active_file_->handle().get();
-    uint64_t actual_file_id = active_file_id();
 
-    if (active_fd > 0)
+    if (active_fd >= 0)
     {
         KIO_TRY(co_await worker_.async_fsync(active_fd));
 
@@ -608,14 +616,6 @@ Task<Result<void>> Partition::seal_active_file()
 
         KIO_TRY(co_await active_file_->async_close());
     }
-    else
-    {
-        // close and remove as this active file was never used
-        ALOG_DEBUG("The active file is empty, we will remove it, file_id {}", actual_file_id);
-        KIO_TRY(co_await active_file_->async_close());
-        const auto path = config_.directory / std::format("partition_{}/data_{}.db", partition_id_, actual_file_id);
-        KIO_TRY(co_await worker_.async_unlink_at(active_fd, path, config_.file_mode));
-    }
 
     // Remove pointer to prevent double-closing in dtor
     active_file_.reset();
-- 
2.43.0


From 5698838ea2f4b7bbf50b0beba149d3646e780f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:50 +0000
Subject: [PATCH 31/45] fix: a deletion that fails leaves the key in place

---
 bitcask/src/partition.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 61641e2..88ec9e4 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -117,12 +117,23 @@ Task<Result<void>> Partition::del(const std::string& key)
 
     stats_.deletes_total++;
 
-    const auto it = keydir_.find(key);
+    auto it = keydir_.find(key);
     if (it == keydir_.end())
     {
         co_return {};
     }
 
+    // Write tombstone first: if that fails the key is still there, now and after a restart
+    const DataEntry tombstone(std::string(key), std::vector<char>{}, kFlagTombstone);
+    auto [_, size] = KIO_TRY(co_await active_file_->async_write(tombstone));
+
+    // Update active file stats (tombstone adds to total_bytes)
+    auto& active_stats = stats_.data_files[active_file_->file_id()];
+    active_stats.total_bytes += size;
+
+    // Only compaction may have changed the keydir meanwhile: it moves entries but removes none
+    it = keydir_.find(key);
+
     // Update stats for old location
     auto& old_stats = stats_.data_files[it->second.file_id];
     old_stats.live_bytes -= it->second.total_size;
@@ -130,17 +141,9 @@ Task<Result<void>> Partition::del(const std::string& key)
 
     const uint64_t old_file_id = it->second.file_id;
 
-    // Remove from KeyDir first as it's our source of truth
+    // Remove from KeyDir
     keydir_.erase(it);
 
-    // Write tombstone
-    const DataEntry tombstone(std::string(key), std::vector<char>{}, kFlagTombstone);
-    auto [_, size] = KIO_TRY(co_await active_file_->async_write(tombstone));
-
-    // Update active file stats (tombstone adds to total_bytes)
-    auto& active_stats = stats_.data_files[active_file_->file_id()];
-    active_stats.total_bytes += size;
-
     // Check if a file needs compaction
     if (should_compact_file(old_file_id))
     {
-- 
2.43.0


From fb53154542e3cceb6a9dd5a99a710aae0120bddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:49 +0000
Subject: [PATCH 32/45] fix: a reopened partition never reuses the name of an
 existing file

---
 bitcask/include/file_id.h | 13 +++++++++++++
 bitcask/src/partition.cpp |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/bitcask/include/file_id.h b/bitcask/include/file_id.h
index cf8abaf..d8194bd 100644
--- a/bitcask/include/file_id.h
+++ b/bitcask/include/file_id.h
@@ -97,6 +97,19 @@ namespace bitcask
             return FileID{partition_id_, now, sequence_}.encode();
         }
 
+        /**
+         * @brief Make sure that every further file ID is above an existing one
+         */
+        void skip_past(const uint64_t existing_id)
+        {
+            const auto existing = FileID::decode(existing_id);
+            if (existing.timestamp_sec > last_timestamp_ || (existing.timestamp_sec == last_timestamp_ && existing.sequence > sequence_))
+            {
+                last_timestamp_ = existing.timestamp_sec;
+                sequence_ = existing.sequence;
+            }
+        }
+
         [[nodiscard]] uint32_t current_timestamp() const { return last_timestamp_; }
 
         [[nodiscard]] uint16_t partition_id() const { return partition_id_; }
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 88ec9e4..7e9a3b5 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -514,6 +514,8 @@ Task<Result<void>> Partition::recover()
     for (auto file_id: files)
     {
         stats_.data_files[file_id].total_bytes = std::filesystem::file_size(get_data_file_path(file_id));
+        // The clock may not have moved on since the last run: never use the ID of an existing file again
+        file_id_gen_.skip_past(file_id);
     }
 
     // Recover each file
-- 
2.43.0


From fe1a345324d69c4b6681373139f1f4acbd290dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:03 +0000
Subject: [PATCH 33/45] fix: compaction closes the data file when the hint file
 cannot be opened

---
 bitcask/src/compactor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index 9b57872..5d7331c 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -27,9 +27,8 @@ namespace bitcask::compactor
         const auto hint_path = detail::get_hint_file_path(ctx, ctx.dst_file_id);
 
         const int data_fd = KIO_TRY(co_await ctx.io_worker.async_openat(data_path, ctx.config.write_flags, ctx.config.file_mode));
-        const int hint_fd = KIO_TRY(co_await ctx.io_worker.async_openat(hint_path, ctx.config.write_flags, ctx.config.file_mode));
-
         FileHandle data_handle(data_fd);
+        const int hint_fd = KIO_TRY(co_await ctx.io_worker.async_openat(hint_path, ctx.config.write_flags, ctx.config.file_mode));
         FileHandle hint_handle(hint_fd);
 
         // Pre-allocate
-- 
2.43.0


From b13e67887f0fa02b21bec08b51526cfd16ee6387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:03 +0000
Subject: [PATCH 34/45] fix: compaction keeps a source file whose entries it
 could not all copy

---
 bitcask/include/compactor.h |  9 +++++++--
 bitcask/src/compactor.cpp   | 35 +++++++++++++++++++++++++----------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/bitcask/include/compactor.h b/bitcask/include/compactor.h
index a883da1..8968a35 100644
--- a/bitcask/include/compactor.h
+++ b/bitcask/include/compactor.h
@@ -69,6 +69,7 @@ namespace bitcask::compactor
 
     // main public apis
     kio::Task<kio::Result<void>> compact_files(CompactionContext& ctx);
+    /// The source file is removed only if everything of it that is still needed has been copied
     kio::Task<kio::Result<void>> compact_one_file(CompactionContext& ctx, uint64_t src_file_id, int dst_data_fd, int dst_hint_fd);
 
     // Implementation helpers
@@ -76,9 +77,11 @@ namespace bitcask::compactor
     {
         kio::Task<kio::Result<std::pair<int, uint64_t>>> open_source_file(const CompactionContext& ctx, uint64_t src_file_id);
 
-        kio::Task<kio::Result<void>> stream_and_compact_file(CompactionContext& ctx, int src_fd, int dst_data_fd, int dst_hint_fd, uint64_t src_file_id);
+        /// False if the file ended, or could not be decoded any further, before its last byte
+        kio::Task<kio::Result<bool>> stream_and_compact_file(CompactionContext& ctx, int src_fd, int dst_data_fd, int dst_hint_fd, uint64_t src_file_id);
 
-        kio::Task<kio::Result<void>> parse_entries_from_buffer(CompactionContext& ctx, uint64_t file_read_pos, uint64_t src_file_id, int dst_data_fd, int dst_hint_fd);
+        /// False if the buffer holds something that is not an entry
+        kio::Task<kio::Result<bool>> parse_entries_from_buffer(CompactionContext& ctx, uint64_t file_read_pos, uint64_t src_file_id, int dst_data_fd, int dst_hint_fd);
 
         void process_parsed_entry(CompactionContext& ctx, const DataEntry& data_entry, uint64_t decoded_size, uint64_t entry_offset, uint64_t src_file_id, std::span<const char> readable_data);
 
@@ -89,6 +92,8 @@ namespace bitcask::compactor
 
         kio::Task<kio::Result<void>> cleanup_source_files(const CompactionContext& ctx, uint64_t src_file_id);
 
+        bool has_live_entries(const CompactionContext& ctx, uint64_t file_id);
+
         bool is_live_entry(const CompactionContext& ctx, const DataEntry& entry, uint64_t old_offset, uint64_t old_file_id);
 
         bool update_keydir_if_matches(const CompactionContext& ctx, const std::string& key, const ValueLocation& new_loc, uint64_t expected_file_id, uint64_t expected_offset);
diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index 5d7331c..d0edec9 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -5,6 +5,7 @@
 
 #include "bitcask/include/compactor.h"
 
+#include <algorithm>
 #include <format>
 #include <ylt/struct_pack.hpp>
 
@@ -70,10 +71,16 @@ namespace bitcask::compactor
         FileHandle src_handle(src_fd);
         ctx.bytes_read += file_size;
 
-        KIO_TRY(co_await detail::stream_and_compact_file(ctx, src_fd, dst_data_fd, dst_hint_fd, src_file_id));
+        const bool complete = KIO_TRY(co_await detail::stream_and_compact_file(ctx, src_fd, dst_data_fd, dst_hint_fd, src_file_id));
 
         KIO_TRY(co_await detail::commit_batch(ctx, dst_data_fd, dst_hint_fd));
 
+        // What could not be decoded may be garbage, or damage in front of entries that can still be read
+        if (!complete && detail::has_live_entries(ctx, src_file_id))
+        {
+            co_return std::unexpected(Error{ErrorCategory::Serialization, kIoDataCorrupted});
+        }
+
         // Update stats: a source file is gone
         if (const auto it = ctx.stats.data_files.find(src_file_id); it != ctx.stats.data_files.end())
         {
@@ -106,9 +113,10 @@ namespace bitcask::compactor
         }
 
 
-        Task<Result<void>> stream_and_compact_file(CompactionContext& ctx, const int src_fd, const int dst_data_fd, const int dst_hint_fd, uint64_t src_file_id)
+        Task<Result<bool>> stream_and_compact_file(CompactionContext& ctx, const int src_fd, const int dst_data_fd, const int dst_hint_fd, uint64_t src_file_id)
         {
             uint64_t file_read_pos = 0;
+            bool complete = true;
 
             for (;;)
             {
@@ -125,6 +133,7 @@ namespace bitcask::compactor
                 {
                     if (!ctx.decode_buffer.is_empty())
                     {
+                        complete = false;
                         // Changed from ERROR to WARN: This is a recoverable state (unsealed tail)
                         ALOG_WARN("File {}: {} bytes of incomplete data at EOF", src_file_id, ctx.decode_buffer.remaining());
                     }
@@ -139,15 +148,16 @@ namespace bitcask::compactor
                     co_return std::unexpected(Error{ErrorCategory::Application, kIoDataCorrupted});
                 }
 
-                // FIX: Check the result of parsing. If it fails, assume we hit the unsealed tail.
-                auto parse_result = co_await parse_entries_from_buffer(ctx, file_read_pos, src_file_id, dst_data_fd, dst_hint_fd);
+                // An I/O error while copying is not the end of the file
+                const bool decodable = KIO_TRY(co_await parse_entries_from_buffer(ctx, file_read_pos, src_file_id, dst_data_fd, dst_hint_fd));
 
-                if (!parse_result.has_value())
+                if (!decodable)
                 {
                     // Logic: If we encounter a deserialization error, it likely means we hit the zero-filled
                     // or garbage tail of an unsealed file. We stop processing this file but DO NOT return an error.
                     // This allows the compaction to proceed with the valid entries we've found so far.
-                    ALOG_WARN("Compaction of file {} stopped early due to data end/corruption: {}", src_file_id, parse_result.error());
+                    ALOG_WARN("Compaction of file {} stopped early due to data end/corruption", src_file_id);
+                    complete = false;
                     break;
                 }
 
@@ -157,10 +167,10 @@ namespace bitcask::compactor
                 }
             }
 
-            co_return {};
+            co_return complete;
         }
 
-        Task<Result<void>> parse_entries_from_buffer(CompactionContext& ctx, const uint64_t file_read_pos, const uint64_t src_file_id, const int dst_data_fd, const int dst_hint_fd)
+        Task<Result<bool>> parse_entries_from_buffer(CompactionContext& ctx, const uint64_t file_read_pos, const uint64_t src_file_id, const int dst_data_fd, const int dst_hint_fd)
         {
             while (true)
             {
@@ -170,7 +180,7 @@ namespace bitcask::compactor
                 if (!entry_result.has_value())
                 {
                     if (entry_result.error().value == kIoNeedMoreData) break;
-                    co_return std::unexpected(entry_result.error());
+                    co_return false;
                 }
 
                 const auto& [data_entry, decoded_size] = entry_result.value();
@@ -188,7 +198,7 @@ namespace bitcask::compactor
                 }
             }
 
-            co_return {};
+            co_return true;
         }
 
         void process_parsed_entry(CompactionContext& ctx, const DataEntry& data_entry, const uint64_t decoded_size, uint64_t entry_offset, uint64_t src_file_id, std::span<const char> readable_data)
@@ -262,6 +272,11 @@ namespace bitcask::compactor
             co_return {};
         }
 
+        bool has_live_entries(const CompactionContext& ctx, const uint64_t file_id)
+        {
+            return std::ranges::any_of(ctx.keydir, [file_id](const auto& item) { return item.second.file_id == file_id; });
+        }
+
         bool is_live_entry(const CompactionContext& ctx, const DataEntry& entry, const uint64_t old_offset, const uint64_t old_file_id)
         {
             const auto it = ctx.keydir.find(entry.key);
-- 
2.43.0


From e8395466428def3ed58e0994e19a026a3992b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 35/45] fix: compaction syncs the copies before the hints and
 before the source is removed

---
 bitcask/include/compactor.h |  3 +++
 bitcask/src/compactor.cpp   | 39 ++++++++++++++++++++++++++++---------
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/bitcask/include/compactor.h b/bitcask/include/compactor.h
index 8968a35..583f49a 100644
--- a/bitcask/include/compactor.h
+++ b/bitcask/include/compactor.h
@@ -85,6 +85,9 @@ namespace bitcask::compactor
 
         void process_parsed_entry(CompactionContext& ctx, const DataEntry& data_entry, uint64_t decoded_size, uint64_t entry_offset, uint64_t src_file_id, std::span<const char> readable_data);
 
+        kio::Task<kio::Result<void>> flush_data(CompactionContext& ctx, int dst_data_fd);
+
+        /// Writes what is batched: the data, then (once that is on disk) the hints, and lets the keydir refer to it
         kio::Task<kio::Result<void>> commit_batch(CompactionContext& ctx, int dst_data_fd, int dst_hint_fd);
 
         bool should_flush_batch(const CompactionContext& ctx);
diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index d0edec9..6554c65 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -81,6 +81,12 @@ namespace bitcask::compactor
             co_return std::unexpected(Error{ErrorCategory::Serialization, kIoDataCorrupted});
         }
 
+        // The copies and their hints must be on disk before the source goes
+        KIO_TRY(co_await ctx.io_worker.async_fsync(dst_data_fd));
+        KIO_TRY(co_await ctx.io_worker.async_fsync(dst_hint_fd));
+
+        KIO_TRY(co_await detail::cleanup_source_files(ctx, src_file_id));
+
         // Update stats: a source file is gone
         if (const auto it = ctx.stats.data_files.find(src_file_id); it != ctx.stats.data_files.end())
         {
@@ -90,8 +96,6 @@ namespace bitcask::compactor
 
         ctx.stats.files_compacted_total++;
 
-        KIO_TRY(co_await detail::cleanup_source_files(ctx, src_file_id));
-
         co_return {};
     }
 
@@ -192,6 +196,11 @@ namespace bitcask::compactor
 
                 ctx.decode_buffer.advance(decoded_size);
 
+                if (ctx.data_batch.size() >= ctx.config.write_buffer_size)
+                {
+                    KIO_TRY(co_await flush_data(ctx, dst_data_fd));
+                }
+
                 if (should_flush_batch(ctx))
                 {
                     KIO_TRY(co_await commit_batch(ctx, dst_data_fd, dst_hint_fd));
@@ -222,18 +231,31 @@ namespace bitcask::compactor
             ctx.keydir_batch.emplace_back(std::string(data_entry.key), new_loc, src_file_id, entry_offset);
         }
 
-        Task<Result<void>> commit_batch(CompactionContext& ctx, const int dst_data_fd, const int dst_hint_fd)
+        Task<Result<void>> flush_data(CompactionContext& ctx, const int dst_data_fd)
         {
             if (ctx.data_batch.empty()) co_return {};
 
             KIO_TRY(co_await ctx.io_worker.async_write_exact(dst_data_fd, std::span(ctx.data_batch)));
-            KIO_TRY(co_await ctx.io_worker.async_write_exact(dst_hint_fd, std::span(ctx.hint_batch)));
 
             ctx.bytes_written += ctx.data_batch.size();
+            ctx.stats.data_files[ctx.dst_file_id].total_bytes += ctx.data_batch.size();
+            ctx.current_data_offset += ctx.data_batch.size();
+            ctx.data_batch.clear();
+            co_return {};
+        }
+
+        Task<Result<void>> commit_batch(CompactionContext& ctx, const int dst_data_fd, const int dst_hint_fd)
+        {
+            KIO_TRY(co_await flush_data(ctx, dst_data_fd));
+
+            if (ctx.hint_batch.empty()) co_return {};
+
+            // A hint must not reach the disk before the entry it points to
+            KIO_TRY(co_await ctx.io_worker.async_fdatasync(dst_data_fd));
+            KIO_TRY(co_await ctx.io_worker.async_write_exact(dst_hint_fd, std::span(ctx.hint_batch)));
 
             auto& dst_stats = ctx.stats.data_files[ctx.dst_file_id];
-            dst_stats.total_bytes += ctx.data_batch.size();
-            dst_stats.live_bytes += ctx.data_batch.size();
+            for (const auto& update: ctx.keydir_batch) dst_stats.live_bytes += update.new_loc.total_size;
             dst_stats.live_entries += ctx.keydir_batch.size();
 
             // Update KeyDir with CAS, adjust stats if CAS fails
@@ -246,7 +268,6 @@ namespace bitcask::compactor
                 }
             }
 
-            ctx.current_data_offset += ctx.data_batch.size();
             ctx.current_hint_offset += ctx.hint_batch.size();
 
             reset_batches(ctx);
@@ -255,7 +276,7 @@ namespace bitcask::compactor
 
         bool should_flush_batch(const CompactionContext& ctx)
         {
-            return ctx.data_batch.size() >= ctx.config.write_buffer_size || ctx.hint_batch.size() >= ctx.limits.max_hint_batch || ctx.keydir_batch.size() >= ctx.limits.max_keydir_batch;
+            return ctx.hint_batch.size() >= ctx.limits.max_hint_batch || ctx.keydir_batch.size() >= ctx.limits.max_keydir_batch;
         }
 
         void reset_batches(CompactionContext& ctx)
@@ -267,7 +288,7 @@ namespace bitcask::compactor
 
         Task<Result<void>> cleanup_source_files(const CompactionContext& ctx, const uint64_t src_file_id)
         {
-            co_await ctx.io_worker.async_unlink_at(AT_FDCWD, get_data_file_path(ctx, src_file_id), 0);
+            KIO_TRY(co_await ctx.io_worker.async_unlink_at(AT_FDCWD, get_data_file_path(ctx, src_file_id), 0));
             co_await ctx.io_worker.async_unlink_at(AT_FDCWD, get_hint_file_path(ctx, src_file_id), 0);
             co_return {};
         }
-- 
2.43.0


From f58940292d5b771a0b200247146a6e83a21233f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 36/45] fix: compaction keeps the deletions of entries that
 older files may still hold

---
 bitcask/include/compactor.h |  2 ++
 bitcask/src/compactor.cpp   | 20 ++++++++++++++++++++
 bitcask/src/partition.cpp   | 10 +++++++++-
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/bitcask/include/compactor.h b/bitcask/include/compactor.h
index 583f49a..7305010 100644
--- a/bitcask/include/compactor.h
+++ b/bitcask/include/compactor.h
@@ -95,6 +95,8 @@ namespace bitcask::compactor
 
         kio::Task<kio::Result<void>> cleanup_source_files(const CompactionContext& ctx, uint64_t src_file_id);
 
+        bool is_tombstone_needed(const CompactionContext& ctx, const DataEntry& entry, uint64_t file_id);
+
         bool has_live_entries(const CompactionContext& ctx, uint64_t file_id);
 
         bool is_live_entry(const CompactionContext& ctx, const DataEntry& entry, uint64_t old_offset, uint64_t old_file_id);
diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index 6554c65..6a0a709 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -212,6 +212,19 @@ namespace bitcask::compactor
 
         void process_parsed_entry(CompactionContext& ctx, const DataEntry& data_entry, const uint64_t decoded_size, uint64_t entry_offset, uint64_t src_file_id, std::span<const char> readable_data)
         {
+            if (data_entry.is_tombstone() && is_tombstone_needed(ctx, data_entry, src_file_id))
+            {
+                // In a hint, no entry has the size zero
+                const HintEntry hint{data_entry.timestamp_ns, ctx.current_data_offset + ctx.data_batch.size(), 0, std::string(data_entry.key)};
+                const auto raw = readable_data.subspan(0, decoded_size);
+
+                ctx.data_batch.insert(ctx.data_batch.end(), raw.begin(), raw.end());
+                struct_pack::serialize_to(ctx.hint_batch, hint);
+                // Still of use, so not reclaimable
+                ctx.stats.data_files[ctx.dst_file_id].live_bytes += decoded_size;
+                return;
+            }
+
             if (!is_live_entry(ctx, data_entry, entry_offset, src_file_id))
             {
                 ctx.entries_discarded++;
@@ -298,6 +311,13 @@ namespace bitcask::compactor
             return std::ranges::any_of(ctx.keydir, [file_id](const auto& item) { return item.second.file_id == file_id; });
         }
 
+        bool is_tombstone_needed(const CompactionContext& ctx, const DataEntry& entry, const uint64_t file_id)
+        {
+            // An older file may still hold the deleted entry, which would come back on the next start
+            if (ctx.keydir.contains(entry.key)) return false;
+            return std::ranges::any_of(ctx.stats.data_files, [file_id](const auto& file) { return file.first < file_id; });
+        }
+
         bool is_live_entry(const CompactionContext& ctx, const DataEntry& entry, const uint64_t old_offset, const uint64_t old_file_id)
         {
             const auto it = ctx.keydir.find(entry.key);
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 7e9a3b5..25cf662 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -389,7 +389,15 @@ Task<Result<void>> Partition::recover_from_hint_file(const FileHandle& fh, const
         const auto& entry = res.value();
         const size_t bytes_this_entry = struct_pack::get_needed_size(entry);
 
-        keydir_[std::string(entry.key)] = ValueLocation{file_id, entry.entry_pos, entry.total_sz, entry.timestamp_ns};
+        if (entry.total_sz == 0)
+        {
+            // a deletion
+            keydir_.erase(entry.key);
+        }
+        else
+        {
+            keydir_[std::string(entry.key)] = ValueLocation{file_id, entry.entry_pos, entry.total_sz, entry.timestamp_ns};
+        }
         buf_span = buf_span.subspan(bytes_this_entry);
     }
 
-- 
2.43.0


From ddca71a3d685d0858913cb0ff225be2f42690c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 37/45] fix: what is written during or after a compaction wins
 over its result on the next start

---
 bitcask/include/partition.h |  2 ++
 bitcask/src/partition.cpp   | 35 ++++++++++++++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index e02b896..cb2e791 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -55,6 +55,8 @@ namespace bitcask
         kio::DetachedTask compaction_loop();
         // background sync job for the active file, in case sync_on_write is not set
         kio::DetachedTask background_sync();
+        // Reserves the ID of a compaction's destination
+        kio::Task<kio::Result<uint64_t>> prepare_compaction();
         void signal_compaction(uint64_t file_id);
         bool should_compact_file(uint64_t file_id) const;
         std::vector<uint64_t> find_fragmented_files() const;
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 25cf662..e197e82 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -659,6 +659,14 @@ Task<Result<void>> Partition::async_close()
 
 Task<Result<void>> Partition::compact()
 {
+    co_await SwitchToWorker(worker_);
+
+    // One compaction at a time
+    if (stats_.compaction_running || active_file_ == nullptr)
+    {
+        co_return {};
+    }
+
     auto fragmented_files = find_fragmented_files();
 
     if (fragmented_files.empty())
@@ -672,8 +680,17 @@ Task<Result<void>> Partition::compact()
 
     stats_.compaction_running = true;
 
+    // Oldest first, so that deletions are dropped as early as possible
+    std::ranges::sort(fragmented_files);
+
     // Generate destination file ID
-    const uint64_t dst_file_id = file_id_gen_.next();
+    const auto dst = co_await prepare_compaction();
+    if (!dst.has_value())
+    {
+        stats_.compaction_running = false;
+        co_return std::unexpected(dst.error());
+    }
+    const uint64_t dst_file_id = dst.value();
 
     // Create compaction context
     compactor::CompactionContext ctx(worker_, config_, keydir_, stats_, partition_id_, dst_file_id, std::move(fragmented_files), compaction_limits_);
@@ -695,9 +712,25 @@ Task<Result<void>> Partition::compact()
         }
     }
 
+    stats_.compaction_running = false;
     co_return {};
 }
 
+Task<Result<uint64_t>> Partition::prepare_compaction()
+{
+    const auto guard = co_await write_lock_.acquire();
+    if (active_file_ == nullptr)
+    {
+        co_return std::unexpected(Error{ErrorCategory::Application, kAppUnknown});  // closed meanwhile
+    }
+
+    // Recovery lets the higher file ID win: whatever is written from now on must go to a file above the destination
+    const uint64_t dst_file_id = file_id_gen_.next();
+    KIO_TRY(co_await rotate_active_file());
+
+    co_return dst_file_id;
+}
+
 Task<Result<void>> Partition::sync()
 {
     co_await SwitchToWorker(worker_);
-- 
2.43.0


From 0c7543df9b5aa7462f0aefc0d3163395f0e69639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:35 +0000
Subject: [PATCH 38/45] fix: a cached file stays open while it is read, and is
 opened once

---
 bitcask/include/fd_cache.h  |  9 ++++++---
 bitcask/include/partition.h |  2 +-
 bitcask/src/fd_cache.cpp    | 24 ++++++++++++++++--------
 bitcask/src/partition.cpp   |  6 +++---
 4 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/bitcask/include/fd_cache.h b/bitcask/include/fd_cache.h
index 72e2c7a..dd63257 100644
--- a/bitcask/include/fd_cache.h
+++ b/bitcask/include/fd_cache.h
@@ -5,6 +5,7 @@
 #ifndef KIO_FD_CACHE_H
 #define KIO_FD_CACHE_H
 #include <list>
+#include <memory>
 
 #include "kio/core/worker.h"
 #include "file_handle.h"
@@ -25,9 +26,11 @@ namespace bitcask
         explicit FDCache(kio::io::Worker& worker, size_t max_files = 100) : worker_(worker), max_open_files_(max_files) {}
 
         /**
-         * @brief Get FD for file_id, opening if not cached
+         * @brief Get the open file for file_id, opening if not cached
+         *
+         * The file stays open as long as the result is held, even if it leaves the cache meanwhile.
          */
-        kio::Task<kio::Result<int>> get_or_open(uint64_t file_id, const std::filesystem::path& path);
+        kio::Task<kio::Result<std::shared_ptr<const FileHandle>>> get_or_open(uint64_t file_id, const std::filesystem::path& path);
         /**
          * @brief Remove file from cache (e.g., after compaction)
          */
@@ -56,7 +59,7 @@ namespace bitcask
     private:
         struct CacheEntry
         {
-            FileHandle handle;
+            std::shared_ptr<const FileHandle> handle;
             std::filesystem::path path;
             std::list<uint64_t>::iterator lru_iter;
         };
diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index cb2e791..ce9150d 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -49,7 +49,7 @@ namespace bitcask
         kio::Task<kio::Result<DataEntry>> read_location(ValueLocation loc);
         kio::Task<kio::Result<DataEntry>> async_read_entry(int fd, uint64_t offset, uint32_t size) const;
         kio::Task<kio::Result<void>> rotate_active_file();
-        kio::Task<kio::Result<int>> find_fd(uint64_t file_id);
+        kio::Task<kio::Result<std::shared_ptr<const FileHandle>>> find_fd(uint64_t file_id);
 
         // Start the loop in the background if a compaction flag is set
         kio::DetachedTask compaction_loop();
diff --git a/bitcask/src/fd_cache.cpp b/bitcask/src/fd_cache.cpp
index 2040b43..5d8f011 100644
--- a/bitcask/src/fd_cache.cpp
+++ b/bitcask/src/fd_cache.cpp
@@ -6,35 +6,43 @@
 
 namespace bitcask
 {
-    kio::Task<kio::Result<int>> FDCache::get_or_open(uint64_t file_id, const std::filesystem::path& path)
+    kio::Task<kio::Result<std::shared_ptr<const FileHandle>>> FDCache::get_or_open(uint64_t file_id, const std::filesystem::path& path)
     {
         // Cache hit
         if (const auto it = cache_.find(file_id); it != cache_.end())
         {
             stats_.hits++;
             touch(file_id);
-            co_return it->second.handle.get();
+            co_return it->second.handle;
         }
 
         // Cache miss
         stats_.misses++;
 
+        // Open file
+        int fd = KIO_TRY(co_await worker_.async_openat(path, O_RDONLY, 0));
+        auto handle = std::make_shared<const FileHandle>(fd);
+
+        // Another lookup may have opened it meanwhile
+        if (const auto it = cache_.find(file_id); it != cache_.end())
+        {
+            touch(file_id);
+            co_return it->second.handle;
+        }
+
         // Evict if at capacity
-        if (cache_.size() >= max_open_files_)
+        while (!cache_.empty() && cache_.size() >= max_open_files_)
         {
             evict_oldest();
         }
 
-        // Open file
-        int fd = KIO_TRY(co_await worker_.async_openat(path, O_RDONLY, 0));
-
         // Add to cache
         lru_list_.push_front(file_id);
-        cache_[file_id] = CacheEntry{FileHandle(fd), path, lru_list_.begin()};
+        cache_[file_id] = CacheEntry{handle, path, lru_list_.begin()};
 
         ALOG_DEBUG("FdCache: Opened file {} (cache size: {})", file_id, cache_.size());
 
-        co_return fd;
+        co_return handle;
     }
 
     void FDCache::remove(uint64_t file_id)
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index e197e82..b4535eb 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -154,7 +154,7 @@ Task<Result<void>> Partition::del(const std::string& key)
 }
 
 
-Task<Result<int>> Partition::find_fd(const uint64_t file_id)
+Task<Result<std::shared_ptr<const FileHandle>>> Partition::find_fd(const uint64_t file_id)
 {
     // if file id is the active one, flush first
     if (file_id == active_file_->file_id())
@@ -168,10 +168,10 @@ Task<Result<int>> Partition::find_fd(const uint64_t file_id)
 
 Task<Result<DataEntry>> Partition::read_location(const ValueLocation loc)
 {
-    const int fd = KIO_TRY(co_await find_fd(loc.file_id));
+    const auto file = KIO_TRY(co_await find_fd(loc.file_id));
 
     ALOG_TRACE("Reading entry from file {} at offset {} with size {}", loc.file_id, loc.offset, loc.total_size);
-    co_return co_await async_read_entry(fd, loc.offset, loc.total_size);
+    co_return co_await async_read_entry(file->get(), loc.offset, loc.total_size);
 }
 
 Task<Result<DataEntry>> Partition::async_read_entry(const int fd, const uint64_t offset, const uint32_t size) const
-- 
2.43.0


From c52fbf96a6e92a18c2f054804c89f6500fd21f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:09 +0000
Subject: [PATCH 39/45] fix: a store with another partition count is refused
 before directories are added to it

---
 bitcask/include/bitcask.h |  5 +++++
 bitcask/src/bitcask.cpp   | 24 ++++++++++++++++++------
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/bitcask/include/bitcask.h b/bitcask/include/bitcask.h
index 6e2a281..e1c6b2a 100644
--- a/bitcask/include/bitcask.h
+++ b/bitcask/include/bitcask.h
@@ -133,6 +133,11 @@ namespace bitcask
 
         static kio::DetachedTask initialize_partition(BitKV& db, kio::io::Worker&, InitState& state);
 
+        /**
+         * @brief Ensure the store's own directory exists
+         */
+        void ensure_base_directory() const;
+
         /**
          * @brief Ensure directory structure exists
          * Creates: data/partition_0/, data/partition_1/, etc.
diff --git a/bitcask/src/bitcask.cpp b/bitcask/src/bitcask.cpp
index 8e268b7..d899578 100644
--- a/bitcask/src/bitcask.cpp
+++ b/bitcask/src/bitcask.cpp
@@ -22,10 +22,11 @@ Task<Result<std::unique_ptr<BitKV>>> BitKV::open(const BitcaskConfig& config, co
 
     try
     {
+        db->ensure_base_directory();
+        // ensure the manifest is valid, before anything is added to a store with another partition count
+        db->check_or_create_manifest();
         // ensure dirs are created
         db->ensure_directories();
-        // ensure the manifest is valid (must happen after ensure_directories)
-        db->check_or_create_manifest();
     }
     catch (const std::exception& e)
     {
@@ -52,19 +53,30 @@ Task<Result<std::unique_ptr<BitKV>>> BitKV::open(const BitcaskConfig& config, co
     co_return std::move(db);
 }
 
-void BitKV::ensure_directories() const
+void BitKV::ensure_base_directory() const
 {
-    const auto perms = static_cast<std::filesystem::perms>(db_config_.dir_mode);
-
     try
     {
         // Create a base directory
         if (!std::filesystem::exists(db_config_.directory))
         {
             std::filesystem::create_directories(db_config_.directory);
-            std::filesystem::permissions(db_config_.directory, perms);
+            std::filesystem::permissions(db_config_.directory, static_cast<std::filesystem::perms>(db_config_.dir_mode));
         }
+    }
+    catch (const std::filesystem::filesystem_error& e)
+    {
+        ALOG_ERROR("Failed to create directories: {}", e.what());
+        throw;
+    }
+}
 
+void BitKV::ensure_directories() const
+{
+    const auto perms = static_cast<std::filesystem::perms>(db_config_.dir_mode);
+
+    try
+    {
         // Create partition directories
         for (size_t i = 0; i < partition_count_; ++i)
         {
-- 
2.43.0


From 5a3475850cfa6cefb2771af01bc02b72384dade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:15 +0000
Subject: [PATCH 40/45] fix: a moved TLS stream keeps the address of its peer

---
 kio/tls/stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index ae280c9..043386b 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -35,7 +35,7 @@ namespace kio::tls
 
     TlsStream::TlsStream(TlsStream&& other) noexcept :
         worker_(other.worker_), ctx_(other.ctx_), socket_(std::move(other.socket_)), ssl_(std::exchange(other.ssl_, nullptr)), role_(other.role_), server_name_(std::exchange(other.server_name_, "")),
-        handshake_done_(other.handshake_done_), ktls_active_(other.ktls_active_)
+        peer_addr_(std::move(other.peer_addr_)), handshake_done_(other.handshake_done_), ktls_active_(other.ktls_active_)
     {
         other.handshake_done_ = false;
         other.ktls_active_ = false;
-- 
2.43.0


From f6ba47886ef13f1a1742cee246aad0c77e0f6ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:15 +0000
Subject: [PATCH 41/45] fix: a TLS handshake cut short by a stop request is
 reported as failed

---
 kio/tls/stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 043386b..0e1c40d 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -81,7 +81,8 @@ namespace kio::tls
             }
         }
 
-        co_return {};
+        ALOG_DEBUG("TLS handshake interrupted by a stop request");
+        co_return std::unexpected(Error{ErrorCategory::Tls, kTlsHandshakeFailed});
     }
 
     Task<Result<void>> TlsStream::async_handshake(std::string_view hostname)
-- 
2.43.0


From 3541744c70634fbc4de3ccdf1c373e3f526f4d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:15 +0000
Subject: [PATCH 42/45] fix: a TLS handshake asked for again does not hide that
 offload is missing

---
 kio/tls/stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 0e1c40d..0811a4d 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -87,7 +87,7 @@ namespace kio::tls
 
     Task<Result<void>> TlsStream::async_handshake(std::string_view hostname)
     {
-        if (handshake_done_) co_return {};
+        if (handshake_done_) co_return enable_ktls();
 
         if (role_ == TlsRole::Client && !hostname.empty())
         {
-- 
2.43.0


From 8fb70a5620c24b65a8cbea0c2f1e06aaf4b3ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:15 +0000
Subject: [PATCH 43/45] fix: a TLS handshake fails when the host name cannot be
 set up for verification

---
 kio/tls/stream.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 0811a4d..0810c2c 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -92,8 +92,11 @@ namespace kio::tls
         if (role_ == TlsRole::Client && !hostname.empty())
         {
             server_name_ = std::string(hostname);
-            SSL_set_tlsext_host_name(ssl_, server_name_.c_str());
-            SSL_set1_host(ssl_, server_name_.c_str());
+            if (SSL_set_tlsext_host_name(ssl_, server_name_.c_str()) != 1 || SSL_set1_host(ssl_, server_name_.c_str()) != 1)
+            {
+                ALOG_ERROR("TLS handshake: host name refused: {}", detail::get_openssl_error());
+                co_return std::unexpected(Error{ErrorCategory::Tls, kTlsHandshakeFailed});
+            }
         }
 
         ALOG_DEBUG("Starting TLS handshake for fd={}", socket_.get());
-- 
2.43.0


From 5950423677feb9990e706854daedcc0b51ae5f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:15 +0000
Subject: [PATCH 44/45] fix: a closed TLS stream is not shut down again on a
 stale descriptor

---
 kio/tls/stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 0810c2c..b914361 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -221,7 +221,7 @@ namespace kio::tls
 
     Task<Result<void>> TlsStream::async_shutdown()
     {
-        if (!ssl_ || !handshake_done_) co_return {};
+        if (!ssl_ || !handshake_done_ || !socket_.is_valid()) co_return {};
         ALOG_DEBUG("TLS shutdown initiated for fd={}", socket_.get());
         co_return co_await do_shutdown_step();
     }
-- 
2.43.0


From 151edd9999365c1ac4fecf42f366cf2c5f220bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:15 +0000
Subject: [PATCH 45/45] fix: a TLS stream refuses application data before its
 handshake is complete

---
 kio/tls/stream.cpp | 17 +++++++++++++++++
 kio/tls/stream.h   |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index b914361..8b04b8f 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -15,6 +15,13 @@ namespace kio::tls
         co_return result;
     }
 
+    // Helper coroutine: application data is refused until the kernel encrypts it
+    template<typename T>
+    static Task<Result<T>> not_connected_task()
+    {
+        co_return std::unexpected(Error{ErrorCategory::Tls, kTlsNotConnected});
+    }
+
     TlsStream::TlsStream(io::Worker& worker, net::Socket socket, TlsContext& context, const TlsRole role) : worker_(worker), ctx_(context), socket_(std::move(socket)), role_(role)
     {
         ssl_ = SSL_new(ctx_.get());
@@ -146,6 +153,8 @@ namespace kio::tls
 
     Task<Result<int>> TlsStream::async_read(std::span<char> buf)
     {
+        if (!ktls_active_) return not_connected_task<int>();
+
         // Drain OpenSSL buffer if needed (rare path)
         if (ssl_ && SSL_pending(ssl_) > 0)
         {
@@ -164,14 +173,22 @@ namespace kio::tls
 
     Task<Result<int>> TlsStream::async_write(std::span<const char> buf)
     {
+        if (!ktls_active_) return not_connected_task<int>();
         return worker_.async_write(socket_.get(), buf);
     }
 
     Task<Result<void>> TlsStream::async_write_exact(std::span<const char> buf)
     {
+        if (!ktls_active_) return not_connected_task<void>();
         return worker_.async_write_exact(socket_.get(), buf);
     }
 
+    Task<Result<void>> TlsStream::async_sendfile(const int in_fd, const off_t offset, const size_t count)
+    {
+        if (!ktls_active_) return not_connected_task<void>();
+        return worker_.async_sendfile(socket_.get(), in_fd, offset, count);
+    }
+
     Task<Result<void>> TlsStream::do_shutdown_step()
     {
         const auto st = worker_.get_stop_token();
diff --git a/kio/tls/stream.h b/kio/tls/stream.h
index 4f2b24c..b9eabca 100644
--- a/kio/tls/stream.h
+++ b/kio/tls/stream.h
@@ -117,7 +117,7 @@ namespace kio::tls
          * @param count Number of bytes to send
          * @return void on success, error on failure
          */
-        Task<Result<void>> async_sendfile(const int in_fd, const off_t offset, const size_t count) { return worker_.async_sendfile(socket_.get(), in_fd, offset, count); }
+        Task<Result<void>> async_sendfile(const int in_fd, const off_t offset, const size_t count);
 
         /**
          * @brief Perform clean TLS shutdown (sends close_notify)
-- 
2.43.0

