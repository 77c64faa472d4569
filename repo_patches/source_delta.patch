From 14ff86309652a2b8abc2d7421f49aed60d6be784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:51 +0000
Subject: [PATCH 01/46] fix: publish the polling coroutine to the event loop
 atomically

poll_info::m_awaiting_coroutine was a plain handle written by the polling
coroutine and spun upon by the event loop, a data race.
---
 include/coro/detail/poll_info.hpp |  6 +++---
 src/scheduler.cpp                 | 27 +++++++++++++++------------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/coro/detail/poll_info.hpp b/include/coro/detail/poll_info.hpp
index 7992ff9..ae37449 100644
--- a/include/coro/detail/poll_info.hpp
+++ b/include/coro/detail/poll_info.hpp
@@ -53,8 +53,8 @@ struct poll_info
         auto await_ready() const noexcept -> bool { return false; }
         auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
         {
-            m_pi.m_awaiting_coroutine = awaiting_coroutine;
-            std::atomic_thread_fence(std::memory_order::release);
+            // This publishes the coroutine to the event loop, which can resume it at any point after this store.
+            m_pi.m_awaiting_coroutine.store(awaiting_coroutine, std::memory_order::release);
         }
         auto await_resume() noexcept -> coro::poll_status { return m_pi.m_poll_status; }
 
@@ -73,7 +73,7 @@ struct poll_info
     /// the timeout within epoll.
     std::optional<timed_events::iterator> m_timer_pos{std::nullopt};
     /// The awaiting coroutine for this poll info to resume upon event or timeout.
-    std::coroutine_handle<> m_awaiting_coroutine;
+    std::atomic<std::coroutine_handle<>> m_awaiting_coroutine{nullptr};
     /// The status of the poll operation.
     coro::poll_status m_poll_status{coro::poll_status::error};
     /// Did the timeout and event trigger at the same time on the same epoll_wait call?
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 07b6f8e..f9513d7 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -23,6 +23,19 @@ static auto
     co_return;
 }
 
+/**
+ * The event or timeout can trigger before the polling coroutine has finished suspending, wait for it to do so.
+ */
+static auto wait_for_awaiting_coroutine(const poll_info& pi) -> std::coroutine_handle<>
+{
+    auto handle = pi.m_awaiting_coroutine.load(std::memory_order::acquire);
+    while (handle == nullptr)
+    {
+        handle = pi.m_awaiting_coroutine.load(std::memory_order::acquire);
+    }
+    return handle;
+}
+
 } // namespace detail
 
 scheduler::scheduler(options&& opts, private_constructor)
@@ -405,12 +418,7 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
 
         pi->m_poll_status = status;
 
-        while (pi->m_awaiting_coroutine == nullptr)
-        {
-            std::atomic_thread_fence(std::memory_order::acquire);
-        }
-
-        m_handles_to_resume.emplace_back(pi->m_awaiting_coroutine);
+        m_handles_to_resume.emplace_back(detail::wait_for_awaiting_coroutine(*pi));
     }
 }
 
@@ -452,12 +460,7 @@ auto scheduler::process_timeout_execute() -> void
                 m_io_notifier.unwatch(*pi);
             }
 
-            while (pi->m_awaiting_coroutine == nullptr)
-            {
-                std::atomic_thread_fence(std::memory_order::acquire);
-            }
-
-            m_handles_to_resume.emplace_back(pi->m_awaiting_coroutine);
+            m_handles_to_resume.emplace_back(detail::wait_for_awaiting_coroutine(*pi));
             pi->m_poll_status = coro::poll_status::timeout;
         }
     }
-- 
2.43.0


From d46a68623919056e2c6d3c9dd5839260b01bc666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:12 +0000
Subject: [PATCH 02/46] fix: close the scheduler's timerfd

timer_handle never closed the descriptor it creates, every scheduler leaked one.
---
 include/coro/detail/timer_handle.hpp |  6 ++++++
 src/detail/timer_handle.cpp          | 14 ++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/coro/detail/timer_handle.hpp b/include/coro/detail/timer_handle.hpp
index 4d97d0f..aed29de 100644
--- a/include/coro/detail/timer_handle.hpp
+++ b/include/coro/detail/timer_handle.hpp
@@ -16,6 +16,12 @@ class timer_handle
 
 public:
     timer_handle(const void* timer_handle_ptr, io_notifier& notifier);
+    ~timer_handle();
+
+    timer_handle(const timer_handle&)                    = delete;
+    timer_handle(timer_handle&&)                         = delete;
+    auto operator=(const timer_handle&) -> timer_handle& = delete;
+    auto operator=(timer_handle&&) -> timer_handle&      = delete;
 
     coro::fd_t get_fd() const { return m_fd; }
 
diff --git a/src/detail/timer_handle.cpp b/src/detail/timer_handle.cpp
index 81c2cc0..e32fee6 100644
--- a/src/detail/timer_handle.cpp
+++ b/src/detail/timer_handle.cpp
@@ -2,6 +2,8 @@
 
 #include "coro/io_notifier.hpp"
 
+#include <unistd.h>
+
 namespace coro::detail
 {
 
@@ -16,6 +18,9 @@ timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
     (void)notifier;
 }
 
+// kqueue timers are identifiers, not file descriptors, there is nothing to close.
+timer_handle::~timer_handle() = default;
+
 #elif defined(__linux__)
 
 timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
@@ -25,6 +30,15 @@ timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
     notifier.watch(m_fd, poll_op::read, const_cast<void*>(m_timer_handle_ptr), true);
 }
 
+timer_handle::~timer_handle()
+{
+    if (m_fd != -1)
+    {
+        ::close(m_fd);
+        m_fd = -1;
+    }
+}
+
 #endif
 
 } // namespace coro::detail
-- 
2.43.0


From 7a0c524d42ec05e4e55ac3ea9bc4917aa004a0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:12 +0000
Subject: [PATCH 03/46] fix: hold the timer mutex while re-arming the timer
 after timeouts

process_timeout_execute() read m_timed_events without the mutex, racing with
add_timer_token()/remove_timer_token() and re-arming with a stale deadline.
---
 src/scheduler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index f9513d7..dcb65db 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -467,6 +467,7 @@ auto scheduler::process_timeout_execute() -> void
 
     // Update the time to the next smallest time point, re-take the current now time
     // since updating and resuming tasks could shift the time.
+    std::scoped_lock lk{m_timed_events_mutex};
     update_timeout(clock::now());
 }
 
-- 
2.43.0


From 9c21e3a6f059c29ced94ca51542d636ee0612a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:18 +0000
Subject: [PATCH 04/46] fix: never lose work submitted while the thread pool
 shuts down

The shutdown check and the enqueue were separate steps (and missing for a
range of handles), work could be accepted after the executors had exited and
was then never resumed. Check and enqueue under the queue's mutex.
---
 include/coro/thread_pool.hpp | 23 +++++++++++----
 src/thread_pool.cpp          | 54 ++++++++++++++++++++++++++----------
 2 files changed, 57 insertions(+), 20 deletions(-)

diff --git a/include/coro/thread_pool.hpp b/include/coro/thread_pool.hpp
index 4853654..9048b63 100644
--- a/include/coro/thread_pool.hpp
+++ b/include/coro/thread_pool.hpp
@@ -54,19 +54,23 @@ public:
         auto await_ready() noexcept -> bool { return false; }
 
         /**
-         * Suspending always returns to the caller (using void return of await_suspend()) and
-         * stores the coroutine internally for the executing thread to resume from.
+         * Suspending returns to the caller and stores the coroutine internally for the executing thread to resume
+         * from, unless the thread pool has been shutdown since this operation was created.
+         * @return False if the thread pool has been shutdown and cannot execute the coroutine.
          */
-        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void;
+        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool;
 
         /**
-         * no-op as this is the function called first by the thread pool's executing thread.
+         * This is the function called first by the thread pool's executing thread.
+         * @throw std::runtime_error If the thread pool was shutdown before the coroutine could be scheduled.
          */
-        auto await_resume() noexcept -> void {}
+        auto await_resume() -> void;
 
     private:
         /// @brief The thread pool that this schedule operation will execute on.
         thread_pool& m_thread_pool;
+        /// @brief Set if the thread pool was shutdown before the coroutine could be scheduled.
+        bool m_refused{false};
     };
 
     struct options
@@ -184,6 +188,12 @@ public:
 
         {
             std::scoped_lock lk{m_wait_mutex};
+            if (m_shutdown_requested.load(std::memory_order::acquire))
+            {
+                m_size.fetch_sub(std::size(handles), std::memory_order::release);
+                return 0;
+            }
+
             for (const auto& handle : handles)
             {
                 if (handle != nullptr) [[likely]]
@@ -278,8 +288,9 @@ private:
     auto executor(std::size_t idx) -> void;
     /**
      * @param handle Schedules the given coroutine to be executed upon the first available thread.
+     * @return False if the thread pool has been shutdown, the executor threads will not execute the coroutine.
      */
-    auto schedule_impl(std::coroutine_handle<> handle) noexcept -> void;
+    auto schedule_impl(std::coroutine_handle<> handle) noexcept -> bool;
 
     /// The number of tasks in the queue + currently executing.
     std::atomic<std::size_t> m_size{0};
diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 5310c84..ec6d8dc 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -19,9 +19,25 @@ thread_pool::schedule_operation::schedule_operation(thread_pool& tp) noexcept :
 {
 }
 
-auto thread_pool::schedule_operation::await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
+auto thread_pool::schedule_operation::await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
 {
-    m_thread_pool.schedule_impl(awaiting_coroutine);
+    // Once scheduled this operation can be resumed and destroyed on an executor thread.
+    if (m_thread_pool.schedule_impl(awaiting_coroutine))
+    {
+        return true;
+    }
+
+    m_thread_pool.m_size.fetch_sub(1, std::memory_order::release);
+    m_refused = true;
+    return false;
+}
+
+auto thread_pool::schedule_operation::await_resume() -> void
+{
+    if (m_refused)
+    {
+        throw std::runtime_error("coro::thread_pool is shutting down, unable to schedule new tasks.");
+    }
 }
 
 thread_pool::thread_pool(options&& opts, private_constructor) : m_opts(opts)
@@ -84,28 +100,34 @@ auto thread_pool::resume(std::coroutine_handle<> handle) noexcept -> bool
     }
 
     m_size.fetch_add(1, std::memory_order::release);
-    if (m_shutdown_requested.load(std::memory_order::acquire))
+    if (!schedule_impl(handle))
     {
         m_size.fetch_sub(1, std::memory_order::release);
         return false;
     }
 
-    schedule_impl(handle);
     return true;
 }
 
 auto thread_pool::shutdown() noexcept -> void
 {
-    // Only allow shutdown to occur once.
-    if (m_shutdown_requested.exchange(true, std::memory_order::acq_rel) == false)
+    bool already_requested{true};
     {
+        // There is a race condition if we are not holding the lock with the executors
+        // to always receive this.  std::jthread stop token works without this properly.
+        // The lock also guarantees that everything queued up to now is seen by the executors and that nothing
+        // can be queued after they have stopped.
+        std::unique_lock<std::mutex> lk{m_wait_mutex};
+        already_requested = m_shutdown_requested.exchange(true, std::memory_order::acq_rel);
+        if (!already_requested)
         {
-            // There is a race condition if we are not holding the lock with the executors
-            // to always receive this.  std::jthread stop token works without this properly.
-            std::unique_lock<std::mutex> lk{m_wait_mutex};
             m_wait_cv.notify_all();
         }
+    }
 
+    // Only allow shutdown to occur once.
+    if (!already_requested)
+    {
         for (auto& thread : m_threads)
         {
             if (thread.joinable())
@@ -169,18 +191,22 @@ auto thread_pool::executor(std::size_t idx) -> void
     }
 }
 
-auto thread_pool::schedule_impl(std::coroutine_handle<> handle) noexcept -> void
+auto thread_pool::schedule_impl(std::coroutine_handle<> handle) noexcept -> bool
 {
     if (handle == nullptr || handle.done())
     {
-        return;
+        return false;
     }
 
+    std::scoped_lock lk{m_wait_mutex};
+    if (m_shutdown_requested.load(std::memory_order::acquire))
     {
-        std::scoped_lock lk{m_wait_mutex};
-        m_queue.emplace_back(handle);
-        m_wait_cv.notify_one();
+        return false;
     }
+
+    m_queue.emplace_back(handle);
+    m_wait_cv.notify_one();
+    return true;
 }
 
 } // namespace coro
-- 
2.43.0


From 0d8f8f745702f11062e02da9a861b8cd3d7bce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:18 +0000
Subject: [PATCH 05/46] fix: release detached and group tasks an executor
 refuses

A refused task's frame was leaked and, for spawn_detached(), its executor's
size never returned to zero, which also kept a scheduler from shutting down.
---
 include/coro/task_group.hpp | 2 ++
 src/scheduler.cpp           | 9 ++++++++-
 src/thread_pool.cpp         | 9 ++++++++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index 14a9ae1..1c5dc30 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -105,6 +105,8 @@ public:
         // Kick it.
         if (!m_executor->resume(wrapper_task.handle()))
         {
+            // It will never run to delete itself.
+            wrapper_task.handle().destroy();
             count_down();
             return false;
         }
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index dcb65db..ebba0ab 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -100,7 +100,14 @@ auto scheduler::spawn_detached(coro::task<void>&& task) -> bool
     m_size.fetch_add(1, std::memory_order::release);
     auto wrapper_task = detail::make_task_self_deleting(std::move(task));
     wrapper_task.promise().user_final_suspend([this]() -> void { m_size.fetch_sub(1, std::memory_order::release); });
-    return resume(wrapper_task.handle());
+    if (!resume(wrapper_task.handle()))
+    {
+        // It will never run to delete itself.
+        wrapper_task.handle().destroy();
+        m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
+    return true;
 }
 
 auto scheduler::spawn_joinable(coro::task<void>&& task) -> coro::task<void>
diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index ec6d8dc..fac8013 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -83,7 +83,14 @@ auto thread_pool::spawn_detached(coro::task<void>&& task) noexcept -> bool
     m_size.fetch_add(1, std::memory_order::release);
     auto wrapper_task = detail::make_task_self_deleting(std::move(task));
     wrapper_task.promise().user_final_suspend([this]() -> void { m_size.fetch_sub(1, std::memory_order::release); });
-    return resume(wrapper_task.handle());
+    if (!resume(wrapper_task.handle()))
+    {
+        // It will never run to delete itself.
+        wrapper_task.handle().destroy();
+        m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
+    return true;
 }
 
 auto thread_pool::spawn_joinable(coro::task<void>&& task) noexcept -> coro::task<void>
-- 
2.43.0


From d4f7f6da93c936944a51dad56d7b1c140f8fda79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:33 +0000
Subject: [PATCH 06/46] fix: join a task group only when it really is empty

start() re-armed the group's event before incrementing the size and a finishing
task decremented the size before setting the event, so the two could interleave
into a set event with tasks still running. The destructor only looked at the
size, freeing the group while the last task was still about to use it.

Keep size and waiters consistent under a mutex.
---
 include/coro/task_group.hpp | 75 +++++++++++++++++++++++++++++++++----
 1 file changed, 67 insertions(+), 8 deletions(-)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index 1c5dc30..81bab62 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -7,8 +7,11 @@
 #include "coro/task.hpp"
 
 #include <atomic>
+#include <coroutine>
 #include <memory>
+#include <mutex>
 #include <thread>
+#include <utility>
 
 namespace coro
 {
@@ -17,6 +20,41 @@ template<concepts::executor executor_type>
 class task_group
 {
 public:
+    struct awaiter
+    {
+        explicit awaiter(const task_group& group) noexcept : m_group(group) {}
+
+        /**
+         * @return True if there are no active tasks in the group, otherwise false to suspend.
+         */
+        auto await_ready() const noexcept -> bool { return m_group.empty(); }
+
+        /**
+         * @return False if the group became empty while suspending, otherwise true.
+         */
+        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
+        {
+            std::scoped_lock lk{m_group.m_mutex};
+            if (m_group.empty())
+            {
+                return false;
+            }
+
+            m_awaiting_coroutine = awaiting_coroutine;
+            m_next               = std::exchange(m_group.m_waiters, this);
+            return true;
+        }
+
+        auto await_resume() noexcept -> void {}
+
+        /// @brief The next awaiter in line for this group, nullptr if this is the end.
+        awaiter* m_next{nullptr};
+        /// @brief The awaiting continuation coroutine handle.
+        std::coroutine_handle<> m_awaiting_coroutine{nullptr};
+        /// @brief The group that this awaiter is waiting on.
+        const task_group& m_group;
+    };
+
     /**
      * Creates a task group to run the tasks on the given executor, use start(task) to add tasks to the group.
      * @param executor The executor to run the tasks on.
@@ -81,8 +119,17 @@ public:
      */
     ~task_group()
     {
-        while (!empty())
+        while (true)
         {
+            {
+                // The lock guarantees the task that dropped the size to zero is not using the group anymore.
+                std::scoped_lock lk{m_mutex};
+                if (empty())
+                {
+                    return;
+                }
+            }
+
             // Sleep a bit so the cpu doesn't totally churn.
             std::this_thread::sleep_for(std::chrono::milliseconds{10});
         }
@@ -96,8 +143,6 @@ public:
      */
     [[nodiscard]] auto start(coro::task<void>&& task) -> bool
     {
-        // Make sure the event isn't triggered, or can trigger again.
-        m_on_empty_event.reset();
         m_size.fetch_add(1, std::memory_order::release);
         auto wrapper_task = detail::make_task_self_deleting(std::move(task));
         wrapper_task.promise().user_final_suspend([this]() -> void { count_down(); });
@@ -129,20 +174,34 @@ public:
      * for the task count to drop to zero and then increase again. It is advisable to not
      * await this method on the task group until you know all tasks in the group have started.
      */
-    auto operator co_await() const noexcept -> event::awaiter { return m_on_empty_event.operator co_await(); }
+    auto operator co_await() const noexcept -> awaiter { return awaiter{*this}; }
 
 private:
     executor_type* m_executor{nullptr};
     /// The number of alive tasks.
     std::atomic<uint64_t> m_size{};
-    /// Event to trigger if m_size goes to zero.
-    coro::event m_on_empty_event{true};
+    /// Makes dropping the size to zero and collecting or adding waiters a single step.
+    mutable std::mutex m_mutex{};
+    /// The awaiters to resume when m_size goes to zero.
+    mutable awaiter* m_waiters{nullptr};
 
     auto count_down() -> void
     {
-        if (m_size.fetch_sub(1, std::memory_order::acq_rel) == 1)
+        awaiter* waiters{nullptr};
+        {
+            std::scoped_lock lk{m_mutex};
+            if (m_size.fetch_sub(1, std::memory_order::acq_rel) == 1)
+            {
+                waiters = std::exchange(m_waiters, nullptr);
+            }
+        }
+
+        // The group can be destructed from here on.
+        while (waiters != nullptr)
         {
-            m_on_empty_event.set();
+            auto* next = waiters->m_next;
+            waiters->m_awaiting_coroutine.resume();
+            waiters = next;
         }
     }
 };
-- 
2.43.0


From c561c81107d60c7ded0f8b1acb924e797d30d702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:42 +0000
Subject: [PATCH 07/46] fix: do not use a schedule operation after handing it
 to the event loop

The event loop can resume the coroutine, destroying the operation (or delete an
allocated one), while await_suspend() still read it. The scheduler itself could
be destroyed too once that coroutine had finished.
---
 include/coro/scheduler.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 25e16f7..64f9331 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -146,19 +146,22 @@ public:
          */
         auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
         {
-            if (m_scheduler.m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
+            // Once this operation is pushed the event loop can resume the coroutine, and with that destroy this
+            // operation, at any point. The second count keeps the scheduler alive until this function is done with it.
+            auto& scheduler = m_scheduler;
+            if (scheduler.m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
             {
-                m_scheduler.m_size.fetch_add(1, std::memory_order::release);
+                scheduler.m_size.fetch_add(2, std::memory_order::release);
                 m_awaiting_coroutine = awaiting_coroutine;
-                detail::awaiter_list_push(m_scheduler.m_scheduled_ops, this);
+                detail::awaiter_list_push(scheduler.m_scheduled_ops, this);
 
                 // Trigger the event to wake-up the scheduler if this event isn't currently triggered.
                 bool expected{false};
-                if (m_scheduler.m_schedule_pipe_triggered.compare_exchange_strong(
+                if (scheduler.m_schedule_pipe_triggered.compare_exchange_strong(
                         expected, true, std::memory_order::release, std::memory_order::relaxed))
                 {
                     constexpr int control = 1;
-                    ssize_t       written = m_scheduler.m_schedule_pipe.write(&control, sizeof(control));
+                    ssize_t       written = scheduler.m_schedule_pipe.write(&control, sizeof(control));
                     if (written != sizeof(control))
                     {
                         std::cerr
@@ -166,10 +169,11 @@ public:
                             << written << "\n";
                     }
                 }
+                scheduler.m_size.fetch_sub(1, std::memory_order::release);
             }
             else
             {
-                m_scheduler.m_thread_pool->resume(awaiting_coroutine);
+                scheduler.m_thread_pool->resume(awaiting_coroutine);
             }
         }
 
-- 
2.43.0


From 76770b8f1a48074c41bf057304a144995fb81bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:30 +0000
Subject: [PATCH 08/46] fix: never lose work submitted while the scheduler
 shuts down

schedule(), yield(), the timed yields and poll() queued work on an event loop
that had already stopped, the coroutine was then never resumed. The loop could
also stop while work was moving from the thread pool to a timer or poll, since
size() read the two counters in the wrong order.

Once the event loop has stopped work is refused, schedule() and friends throw
like the thread pool's schedule() does.
---
 include/coro/scheduler.hpp | 61 ++++++++++++++++++++++++++++++++------
 src/scheduler.cpp          | 45 +++++++++++++++++++++++-----
 2 files changed, 90 insertions(+), 16 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 64f9331..33651b0 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -19,6 +19,7 @@
 #include <map>
 #include <memory>
 #include <optional>
+#include <stdexcept>
 #include <stop_token>
 #include <thread>
 #include <type_traits>
@@ -141,17 +142,23 @@ public:
         auto await_ready() noexcept -> bool { return false; }
 
         /**
-         * Suspending always returns to the caller (using void return of await_suspend()) and
-         * stores the coroutine internally for the executing thread to resume from.
+         * Suspending returns to the caller and stores the coroutine internally for the executing thread to resume
+         * from, unless the scheduler has been shutdown and stopped processing.
+         * @return False if the scheduler has been shutdown and cannot execute the coroutine.
          */
-        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
+        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
         {
             // Once this operation is pushed the event loop can resume the coroutine, and with that destroy this
             // operation, at any point. The second count keeps the scheduler alive until this function is done with it.
             auto& scheduler = m_scheduler;
+            if (!scheduler.try_add_size(2))
+            {
+                m_refused = true;
+                return false;
+            }
+
             if (scheduler.m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
             {
-                scheduler.m_size.fetch_add(2, std::memory_order::release);
                 m_awaiting_coroutine = awaiting_coroutine;
                 detail::awaiter_list_push(scheduler.m_scheduled_ops, this);
 
@@ -170,17 +177,30 @@ public:
                     }
                 }
                 scheduler.m_size.fetch_sub(1, std::memory_order::release);
+                return true;
             }
-            else
+
+            // The thread pool does its own accounting for the coroutine.
+            auto resumed = scheduler.m_thread_pool->resume(awaiting_coroutine);
+            if (!resumed)
             {
-                scheduler.m_thread_pool->resume(awaiting_coroutine);
+                m_refused = true;
             }
+            scheduler.m_size.fetch_sub(2, std::memory_order::release);
+            return resumed;
         }
 
         /**
-         * no-op as this is the function called first by the thread pool's executing thread.
+         * This is the function called first by the executing thread.
+         * @throw std::runtime_error If the scheduler was shutdown before the coroutine could be scheduled.
          */
-        auto await_resume() noexcept -> void {}
+        auto await_resume() -> void
+        {
+            if (m_refused)
+            {
+                throw std::runtime_error{"coro::scheduler is shutdown, unable to schedule new tasks."};
+            }
+        }
 
         std::coroutine_handle<> m_awaiting_coroutine;
         schedule_operation*     m_next{nullptr};
@@ -189,6 +209,8 @@ public:
     private:
         /// The thread pool that this operation will execute on.
         scheduler& m_scheduler;
+        /// Set if the scheduler was shutdown before the coroutine could be scheduled.
+        bool m_refused{false};
     };
 
     /**
@@ -442,7 +464,10 @@ public:
         }
         else
         {
-            return m_size.load(std::memory_order::acquire) + m_thread_pool->size();
+            // Work moves from the thread pool to the event loop, and only the event loop moves it back, so by reading
+            // in this order work that is moving is never missed by the event loop.
+            auto pool_size = m_thread_pool->size();
+            return m_size.load(std::memory_order::acquire) + pool_size;
         }
     }
 
@@ -494,6 +519,24 @@ private:
     /// Has the scheduler been requested to shut down?
     std::atomic<bool> m_shutdown_requested{false};
 
+    /// Has the event loop stopped for good?
+    std::atomic<bool> m_stopped{false};
+
+    /**
+     * Accounts for new work, this fails if the event loop has stopped and nothing would execute the work anymore.
+     * Pairs with the event loop's stop: either the event loop sees the new size or the new work sees the stop.
+     */
+    auto try_add_size(std::size_t n) noexcept -> bool
+    {
+        m_size.fetch_add(n, std::memory_order::seq_cst);
+        if (m_stopped.load(std::memory_order::seq_cst))
+        {
+            m_size.fetch_sub(n, std::memory_order::release);
+            return false;
+        }
+        return true;
+    }
+
     auto yield_for_internal(std::chrono::nanoseconds amount) -> coro::task<void>;
 
     std::atomic<bool> m_io_processing{false};
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index ebba0ab..224ebfc 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -132,7 +132,10 @@ auto scheduler::yield_until(time_point time) -> coro::task<void>
     }
     else
     {
-        m_size.fetch_add(1, std::memory_order::release);
+        if (!try_add_size(1))
+        {
+            throw std::runtime_error{"coro::scheduler is shutdown, unable to schedule new tasks."};
+        }
 
         auto amount = std::chrono::duration_cast<std::chrono::milliseconds>(time - now);
 
@@ -151,7 +154,10 @@ auto scheduler::poll(
 {
     // Because the size will drop when this coroutine suspends every poll needs to undo the subtraction
     // on the number of active tasks in the scheduler.  When this task is resumed by the event loop.
-    m_size.fetch_add(1, std::memory_order::release);
+    if (!try_add_size(1))
+    {
+        throw std::runtime_error{"coro::scheduler is shutdown, unable to schedule new tasks."};
+    }
 
     // Setup two events, a timeout event and the actual poll for op event.
     // Whichever triggers first will delete the other to guarantee only one wins.
@@ -192,14 +198,26 @@ auto scheduler::resume(std::coroutine_handle<> handle) -> bool
 
     if (m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
     {
-        auto* schedule_op        = new schedule_operation{*this};
+        auto schedule_op         = std::unique_ptr<schedule_operation>{new schedule_operation{*this}};
         schedule_op->m_allocated = true;
-        schedule_op->await_suspend(handle);
+        if (!schedule_op->await_suspend(handle))
+        {
+            return false;
+        }
+        // The event loop owns it now.
+        (void)schedule_op.release();
         return true;
     }
     else
     {
-        return m_thread_pool->resume(handle);
+        // The thread pool does its own accounting for the coroutine.
+        if (!try_add_size(1))
+        {
+            return false;
+        }
+        auto resumed = m_thread_pool->resume(handle);
+        m_size.fetch_sub(1, std::memory_order::release);
+        return resumed;
     }
 }
 
@@ -240,7 +258,10 @@ auto scheduler::yield_for_internal(std::chrono::nanoseconds amount) -> coro::tas
         // Yield/timeout tasks are considered live in the scheduler and must be accounted for. Note
         // that if the user gives an invalid amount and schedule() is directly called it will account
         // for the scheduled task there.
-        m_size.fetch_add(1, std::memory_order::release);
+        if (!try_add_size(1))
+        {
+            throw std::runtime_error{"coro::scheduler is shutdown, unable to schedule new tasks."};
+        }
 
         // Yielding does not require setting the timer position on the poll info since
         // it doesn't have a corresponding 'event' that can trigger, it always waits for
@@ -272,8 +293,18 @@ auto scheduler::process_events_dedicated_thread() -> void
 
     m_io_processing.exchange(true, std::memory_order::release);
     // Execute tasks until stopped or there are no more tasks to complete.
-    while (!m_shutdown_requested.load(std::memory_order::acquire) || size() > 0)
+    while (true)
     {
+        if (m_shutdown_requested.load(std::memory_order::acquire) && size() == 0)
+        {
+            // Refuse new work, unless some was added before it could see that it is refused.
+            m_stopped.store(true, std::memory_order::seq_cst);
+            if (m_size.load(std::memory_order::seq_cst) == 0 && size() == 0)
+            {
+                break;
+            }
+            m_stopped.store(false, std::memory_order::seq_cst);
+        }
         process_events_execute(m_default_timeout);
     }
     m_io_processing.exchange(false, std::memory_order::release);
-- 
2.43.0


From 185e45f613a5aad90fac723eb5b9591b5d1d562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:12 +0000
Subject: [PATCH 09/46] fix: order consecutive manual event processing by
 different threads

process_events() hands the event loop from one thread to the next with
m_io_processing, but the thread taking over did not acquire what the previous
one released, so its view of the event loop's state could be stale.
---
 src/scheduler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 224ebfc..bab7984 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -277,7 +277,7 @@ auto scheduler::yield_for_internal(std::chrono::nanoseconds amount) -> coro::tas
 auto scheduler::process_events_manual(std::chrono::milliseconds timeout) -> void
 {
     bool expected{false};
-    if (m_io_processing.compare_exchange_strong(expected, true, std::memory_order::release, std::memory_order::relaxed))
+    if (m_io_processing.compare_exchange_strong(expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
     {
         process_events_execute(timeout);
         m_io_processing.exchange(false, std::memory_order::release);
@@ -291,7 +291,7 @@ auto scheduler::process_events_dedicated_thread() -> void
         m_opts.on_io_thread_start_functor();
     }
 
-    m_io_processing.exchange(true, std::memory_order::release);
+    m_io_processing.exchange(true, std::memory_order::acq_rel);
     // Execute tasks until stopped or there are no more tasks to complete.
     while (true)
     {
-- 
2.43.0


From 15662892a75f8d8adf6e7e3e89f26a807f4ef263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:12 +0000
Subject: [PATCH 10/46] fix: do not resume yield_until() and schedule_at()
 before the requested time

The waiting time was truncated to whole milliseconds.
---
 src/scheduler.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index bab7984..d0eb152 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -137,10 +137,8 @@ auto scheduler::yield_until(time_point time) -> coro::task<void>
             throw std::runtime_error{"coro::scheduler is shutdown, unable to schedule new tasks."};
         }
 
-        auto amount = std::chrono::duration_cast<std::chrono::milliseconds>(time - now);
-
         detail::poll_info pi{};
-        add_timer_token(now + amount, pi);
+        add_timer_token(time, pi);
         co_await pi;
     }
     co_return;
-- 
2.43.0


From f6d6a641fc8f5db7940e7e87bdea3df9227ce109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:06 +0000
Subject: [PATCH 11/46] fix: set up and tear down both events of a poll before
 anyone else acts on it

The event loop could act on a poll's timeout, event or cancellation while
poll() was still registering the others, leaving the descriptor registered with
a pointer to a coroutine frame that is gone. The cancellation descriptor stayed
registered after a timeout, event_loop data that is no poll_info was accessed
as one, and a poll whose registration failed, e.g. because another poll uses
the same descriptor or stop token, was never resumed or never cancelled.
---
 include/coro/detail/io_notifier_epoll.hpp |  8 +++
 include/coro/detail/poll_info.hpp         |  7 +++
 src/detail/io_notifier_epoll.cpp          | 77 +++++++++++++++++++----
 src/scheduler.cpp                         | 29 ++++++---
 4 files changed, 99 insertions(+), 22 deletions(-)

diff --git a/include/coro/detail/io_notifier_epoll.hpp b/include/coro/detail/io_notifier_epoll.hpp
index 4d949cc..d149405 100644
--- a/include/coro/detail/io_notifier_epoll.hpp
+++ b/include/coro/detail/io_notifier_epoll.hpp
@@ -30,6 +30,14 @@ class io_notifier_epoll
 
     static auto event_to_poll_status(const event_t& event) -> poll_status;
 
+    /**
+     * Watches the file descriptor, or a duplicate of it if it is already being watched for another poll operation.
+     * @return The file descriptor that is being watched, or -1 if it cannot be watched.
+     */
+    auto watch_shared(fd_t fd, poll_op op, poll_info& pi, bool is_cancel_event) -> fd_t;
+
+    auto unwatch_shared(fd_t fd, poll_op op, fd_t& watched_fd) -> bool;
+
 public:
     io_notifier_epoll();
 
diff --git a/include/coro/detail/poll_info.hpp b/include/coro/detail/poll_info.hpp
index ae37449..74112e6 100644
--- a/include/coro/detail/poll_info.hpp
+++ b/include/coro/detail/poll_info.hpp
@@ -81,6 +81,13 @@ struct poll_info
     bool m_processed{false};
     /// Cancellation receiver of this poll operation.
     std::optional<poll_stop_token> m_cancel_trigger = std::nullopt;
+    /// The file descriptor that is registered with the io notifier for m_fd, if any. It is a duplicate of m_fd if
+    /// another poll operation has m_fd registered.
+    fd_t m_watched_fd{-1};
+    /// The file descriptor that is registered with the io notifier for m_cancel_trigger, if any.
+    fd_t m_watched_cancel_fd{-1};
+    /// Was it impossible to watch for the events of this poll operation?
+    bool m_watch_failed{false};
 };
 
 } // namespace coro::detail
diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 4723aa5..794fea2 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -1,7 +1,9 @@
 #include "coro/detail/io_notifier_epoll.hpp"
 
+#include <cerrno>
 #include <chrono>
 #include <cstdint>
+#include <fcntl.h>
 #include <stdexcept>
 
 #include "coro/detail/poll_info.hpp"
@@ -101,16 +103,65 @@ auto io_notifier_epoll::watch(fd_t fd, poll_op op, void* data, bool keep, bool i
 
 auto io_notifier_epoll::watch(poll_info& pi) -> bool
 {
-    watch(pi.m_fd, pi.m_op, static_cast<void*>(&pi), false, false);
+    pi.m_watched_fd = watch_shared(pi.m_fd, pi.m_op, pi, false);
+    if (pi.m_watched_fd == -1)
+    {
+        return false;
+    }
 
     if (pi.m_cancel_trigger.has_value())
     {
-        watch(pi.m_cancel_trigger.value().native_handle(), poll_op::read, static_cast<void*>(&pi), false, true);
+        pi.m_watched_cancel_fd =
+            watch_shared(pi.m_cancel_trigger.value().native_handle(), poll_op::read, pi, true);
+        if (pi.m_watched_cancel_fd == -1)
+        {
+            return false;
+        }
     }
 
     return true;
 }
 
+auto io_notifier_epoll::watch_shared(fd_t fd, poll_op op, poll_info& pi, bool is_cancel_event) -> fd_t
+{
+    if (watch(fd, op, static_cast<void*>(&pi), false, is_cancel_event))
+    {
+        return fd;
+    }
+
+    // A file descriptor can only be registered once.
+    if (errno == EEXIST)
+    {
+        fd_t duplicate = ::fcntl(fd, F_DUPFD_CLOEXEC, 0);
+        if (duplicate != -1)
+        {
+            if (watch(duplicate, op, static_cast<void*>(&pi), false, is_cancel_event))
+            {
+                return duplicate;
+            }
+            ::close(duplicate);
+        }
+    }
+
+    return -1;
+}
+
+auto io_notifier_epoll::unwatch_shared(fd_t fd, poll_op op, fd_t& watched_fd) -> bool
+{
+    if (watched_fd == -1)
+    {
+        return false;
+    }
+
+    auto removed = unwatch(watched_fd, op);
+    if (watched_fd != fd)
+    {
+        ::close(watched_fd);
+    }
+    watched_fd = -1;
+    return removed;
+}
+
 auto io_notifier_epoll::unwatch(fd_t fd, poll_op) -> bool
 {
     return ::epoll_ctl(m_fd, EPOLL_CTL_DEL, fd, nullptr) != -1;
@@ -118,7 +169,12 @@ auto io_notifier_epoll::unwatch(fd_t fd, poll_op) -> bool
 
 auto io_notifier_epoll::unwatch(poll_info& pi) -> bool
 {
-    return unwatch(pi.m_fd, pi.m_op);
+    auto removed = unwatch_shared(pi.m_fd, pi.m_op, pi.m_watched_fd);
+    if (pi.m_cancel_trigger.has_value())
+    {
+        unwatch_shared(pi.m_cancel_trigger.value().native_handle(), poll_op::read, pi.m_watched_cancel_fd);
+    }
+    return removed;
 }
 
 auto io_notifier_epoll::unwatch_timer(const timer_handle& timer) -> bool
@@ -137,26 +193,21 @@ auto io_notifier_epoll::next_events(
     int  num_ready = ::epoll_wait(m_fd, ready_set.data(), ready_set.size(), timeout.count());
     for (int i = 0; i < num_ready; ++i)
     {
-        auto [keep_registered, is_cancel_event, udata] = decode_udata(ready_set[i].data.u64);
-        auto* pi                                       = static_cast<poll_info*>(udata);
+        [[maybe_unused]] auto [keep_registered, is_cancel_event, udata] = decode_udata(ready_set[i].data.u64);
+        auto* pi                                                        = static_cast<poll_info*>(udata);
 
         // If the event issuing fd is the same as the fd of the cancellation trigger of the registered poll_info we
         // this operation was cancelled by the user.
+        //
+        // The poll_info is not accessed here, the coroutine that owns it might not have suspended yet. Whoever
+        // processes the event is responsible for unwatching it.
         if (is_cancel_event)
         {
             ready_events.emplace_back(pi, poll_status::cancelled);
-            if (!keep_registered)
-            {
-                unwatch(*pi);
-            }
         }
         else
         {
             ready_events.emplace_back(pi, io_notifier_epoll::event_to_poll_status(ready_set[i]));
-            if (pi->m_cancel_trigger.has_value() && !keep_registered)
-            {
-                unwatch(pi->m_cancel_trigger.value().native_handle(), poll_op::read);
-            }
         }
     }
 }
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index d0eb152..7eb6ca9 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -165,14 +165,20 @@ auto scheduler::poll(
 
     auto pi = detail::poll_info{fd, op, cancel_trigger};
 
-    if (timeout_requested)
+    auto deadline = clock::now() + timeout;
+    if (!m_io_notifier.watch(pi))
     {
-        pi.m_timer_pos = add_timer_token(clock::now() + timeout, pi);
+        std::cerr << "Failed to add " << fd << " to watch list\n";
+
+        // The event loop might already be waiting for this coroutine to suspend, let it report the failure.
+        pi.m_watch_failed = true;
+        deadline          = clock::now();
+        timeout_requested = true;
     }
 
-    if (!m_io_notifier.watch(pi))
+    if (timeout_requested)
     {
-        std::cerr << "Failed to add " << fd << " to watch list\n";
+        pi.m_timer_pos = add_timer_token(deadline, pi);
     }
 
     // The event loop will 'clean-up' whichever event didn't win since the coroutine is scheduled
@@ -433,9 +439,11 @@ auto scheduler::process_scheduled_execute_inline() -> void
 
 auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status) -> void
 {
+    // The event can trigger while the coroutine is still setting up the poll, only look at it once that is complete.
+    auto handle = detail::wait_for_awaiting_coroutine(*pi);
+
     if (!pi->m_processed)
     {
-        std::atomic_thread_fence(std::memory_order::acquire);
         // Its possible the event and the timeout occurred in the same epoll, make sure only one
         // is ever processed, the other is discarded.
         pi->m_processed = true;
@@ -452,9 +460,9 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
             remove_timer_token(pi->m_timer_pos.value());
         }
 
-        pi->m_poll_status = status;
+        pi->m_poll_status = pi->m_watch_failed ? poll_status::error : status;
 
-        m_handles_to_resume.emplace_back(detail::wait_for_awaiting_coroutine(*pi));
+        m_handles_to_resume.emplace_back(handle);
     }
 }
 
@@ -484,6 +492,9 @@ auto scheduler::process_timeout_execute() -> void
 
     for (auto pi : poll_infos)
     {
+        // The timeout can trigger while the coroutine is still setting up the poll.
+        auto handle = detail::wait_for_awaiting_coroutine(*pi);
+
         if (!pi->m_processed)
         {
             // Its possible the event and the timeout occurred in the same epoll, make sure only one
@@ -496,8 +507,8 @@ auto scheduler::process_timeout_execute() -> void
                 m_io_notifier.unwatch(*pi);
             }
 
-            m_handles_to_resume.emplace_back(detail::wait_for_awaiting_coroutine(*pi));
-            pi->m_poll_status = coro::poll_status::timeout;
+            pi->m_poll_status = pi->m_watch_failed ? poll_status::error : poll_status::timeout;
+            m_handles_to_resume.emplace_back(handle);
         }
     }
 
-- 
2.43.0


From f1f70530ee41bef3e8f3628bf0776d59d4b974f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:15 +0000
Subject: [PATCH 12/46] fix: do not report an empty scheduler while the event
 loop hands work to the thread pool

size() reads the thread pool's size and the scheduler's own count one after the
other, work moved between the two reads was missed.
---
 include/coro/scheduler.hpp | 19 +++++++++++++++----
 src/scheduler.cpp          |  1 +
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 33651b0..9a5d1cc 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -464,10 +464,18 @@ public:
         }
         else
         {
-            // Work moves from the thread pool to the event loop, and only the event loop moves it back, so by reading
-            // in this order work that is moving is never missed by the event loop.
-            auto pool_size = m_thread_pool->size();
-            return m_size.load(std::memory_order::acquire) + pool_size;
+            // Work moves from the thread pool to the event loop, by reading in this order it is not missed. Only the
+            // event loop moves it back, try again if it did.
+            while (true)
+            {
+                auto moved     = m_moved_to_pool.load(std::memory_order::acquire);
+                auto pool_size = m_thread_pool->size();
+                auto size      = m_size.load(std::memory_order::acquire);
+                if (moved == m_moved_to_pool.load(std::memory_order::acquire))
+                {
+                    return size + pool_size;
+                }
+            }
         }
     }
 
@@ -506,6 +514,9 @@ private:
     /// The number of tasks executing or awaiting events in this io scheduler.
     std::atomic<std::size_t> m_size{0};
 
+    /// How often the event loop has moved coroutines to the thread pool.
+    std::atomic<std::size_t> m_moved_to_pool{0};
+
     /// The background io worker threads.
     std::thread m_io_thread;
     /// Thread pool for executing tasks when not in inline mode.
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 7eb6ca9..ef67425 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -372,6 +372,7 @@ auto scheduler::process_events_execute(std::chrono::milliseconds timeout) -> voi
         else
         {
             m_thread_pool->resume(m_handles_to_resume);
+            m_moved_to_pool.fetch_add(1, std::memory_order::acq_rel);
             m_size.fetch_sub(m_handles_to_resume.size(), std::memory_order::release);
         }
 
-- 
2.43.0


From c219caa7fb5a472edae728745178c2f04e28f62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:06 +0000
Subject: [PATCH 13/46] fix: deliver exceptions through when_any

An awaitable that threw was ignored, the awaiter waited for another one to
return or, if all of them threw, for ever. scheduler::schedule() with a timeout
reported a timeout, after the full timeout, for a task that had thrown.
---
 include/coro/when_any.hpp | 176 +++++++++++++++++++++++++++++---------
 1 file changed, 136 insertions(+), 40 deletions(-)

diff --git a/include/coro/when_any.hpp b/include/coro/when_any.hpp
index ba73d79..cef0ec6 100644
--- a/include/coro/when_any.hpp
+++ b/include/coro/when_any.hpp
@@ -14,6 +14,7 @@
     #include <atomic>
     #include <cassert>
     #include <coroutine>
+    #include <exception>
     #include <optional>
     #include <stop_token>
     #include <utility>
@@ -37,32 +38,59 @@ struct when_any_variant_traits<void>
     using type = std::monostate;
 };
 
+/**
+ * @return True for the first task that completes, with a value or an exception.
+ */
+inline auto when_any_is_first(std::atomic<bool>& first_completed) noexcept -> bool
+{
+    auto expected = false;
+    return first_completed.compare_exchange_strong(
+        expected, true, std::memory_order::acq_rel, std::memory_order::relaxed);
+}
+
 template<size_t index, typename return_type, concepts::awaitable awaitable>
 auto make_when_any_tuple_task(
-    std::atomic<bool>& first_completed, coro::event& notify, std::optional<return_type>& return_value, awaitable a)
-    -> coro::task<void>
+    std::atomic<bool>&          first_completed,
+    coro::event&                notify,
+    std::optional<return_type>& return_value,
+    std::exception_ptr&         exception,
+    awaitable                   a) -> coro::task<void>
 {
-    auto expected = false;
-    if constexpr (concepts::awaitable_void<awaitable>)
+    auto is_first = false;
+    try
     {
-        co_await static_cast<awaitable&&>(a);
-        if (first_completed.compare_exchange_strong(
-                expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
+        if constexpr (concepts::awaitable_void<awaitable>)
+        {
+            co_await static_cast<awaitable&&>(a);
+            is_first = when_any_is_first(first_completed);
+            if (is_first)
+            {
+                return_value.emplace(std::in_place_index<index>, std::monostate{});
+            }
+        }
+        else
         {
-            return_value.emplace(std::in_place_index<index>, std::monostate{});
-            notify.set();
+            auto result = co_await static_cast<awaitable&&>(a);
+            is_first    = when_any_is_first(first_completed);
+            if (is_first)
+            {
+                return_value.emplace(std::in_place_index<index>, std::move(result));
+            }
         }
     }
-    else
+    catch (...)
     {
-        auto result = co_await static_cast<awaitable&&>(a);
-        if (first_completed.compare_exchange_strong(
-                expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
+        if (is_first || when_any_is_first(first_completed))
         {
-            return_value.emplace(std::in_place_index<index>, std::move(result));
-            notify.set();
+            is_first  = true;
+            exception = std::current_exception();
         }
     }
+
+    if (is_first)
+    {
+        notify.set();
+    }
     co_return;
 }
 
@@ -71,21 +99,37 @@ template<typename return_type, concepts::awaitable... awaitable_type, size_t...
     std::index_sequence<indices...>,
     coro::event&                notify,
     std::optional<return_type>& return_value,
+    std::exception_ptr&         exception,
     awaitable_type... awaitables) -> coro::detail::task_self_deleting
 {
     std::atomic<bool> first_completed{false};
     co_await coro::when_all(
-        make_when_any_tuple_task<indices>(first_completed, notify, return_value, std::move(awaitables))...);
+        make_when_any_tuple_task<indices>(
+        first_completed, notify, return_value, exception, std::move(awaitables))...);
     co_return;
 }
 
 template<concepts::awaitable awaitable>
-static auto make_when_any_task_return_void(awaitable a, std::atomic<bool>& first_completed, coro::event& notify)
+static auto make_when_any_task_return_void(
+    awaitable a, std::atomic<bool>& first_completed, coro::event& notify, std::exception_ptr& exception)
     -> coro::task<void>
 {
-    co_await static_cast<awaitable&&>(a);
-    auto expected = false;
-    if (first_completed.compare_exchange_strong(expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
+    auto is_first = false;
+    try
+    {
+        co_await static_cast<awaitable&&>(a);
+        is_first = when_any_is_first(first_completed);
+    }
+    catch (...)
+    {
+        is_first = when_any_is_first(first_completed);
+        if (is_first)
+        {
+            exception = std::current_exception();
+        }
+    }
+
+    if (is_first)
     {
         notify.set(); // This will trigger the controller task to wake up exactly once.
     }
@@ -94,16 +138,35 @@ static auto make_when_any_task_return_void(awaitable a, std::atomic<bool>& first
 
 template<concepts::awaitable awaitable, typename return_type>
 static auto make_when_any_task(
-    awaitable a, std::atomic<bool>& first_completed, coro::event& notify, std::optional<return_type>& return_value)
-    -> coro::task<void>
+    awaitable                   a,
+    std::atomic<bool>&          first_completed,
+    coro::event&                notify,
+    std::optional<return_type>& return_value,
+    std::exception_ptr&         exception) -> coro::task<void>
 {
-    auto expected = false;
-    auto result   = co_await static_cast<awaitable&&>(a);
-    // Its important to only touch return_value and notify once since their lifetimes will be destroyed
+    // Its important to only touch return_value, exception and notify once since their lifetimes will be destroyed
     // after being set and notified the first time.
-    if (first_completed.compare_exchange_strong(expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
+    auto is_first = false;
+    try
+    {
+        auto result = co_await static_cast<awaitable&&>(a);
+        is_first    = when_any_is_first(first_completed);
+        if (is_first)
+        {
+            return_value = std::move(result);
+        }
+    }
+    catch (...)
+    {
+        if (is_first || when_any_is_first(first_completed))
+        {
+            is_first  = true;
+            exception = std::current_exception();
+        }
+    }
+
+    if (is_first)
     {
-        return_value = std::move(result);
         notify.set();
     }
 
@@ -111,8 +174,8 @@ static auto make_when_any_task(
 }
 
 template<std::ranges::range range_type, concepts::awaitable awaitable_type = std::ranges::range_value_t<range_type>>
-static auto make_when_any_controller_task_return_void(range_type awaitables, coro::event& notify)
-    -> coro::detail::task_self_deleting
+static auto make_when_any_controller_task_return_void(
+    range_type awaitables, coro::event& notify, std::exception_ptr& exception) -> coro::detail::task_self_deleting
 {
     std::atomic<bool>             first_completed{false};
     std::vector<coro::task<void>> tasks{};
@@ -124,7 +187,8 @@ static auto make_when_any_controller_task_return_void(range_type awaitables, cor
 
     for (auto&& a : awaitables)
     {
-        tasks.emplace_back(make_when_any_task_return_void<awaitable_type>(std::move(a), first_completed, notify));
+        tasks.emplace_back(
+            make_when_any_task_return_void<awaitable_type>(std::move(a), first_completed, notify, exception));
     }
 
     co_await coro::when_all(std::move(tasks));
@@ -137,8 +201,10 @@ template<
     typename return_type               = typename concepts::awaitable_traits<awaitable_type>::awaiter_return_type,
     typename return_type_base          = std::remove_reference_t<return_type>>
 static auto make_when_any_controller_task(
-    range_type awaitables, coro::event& notify, std::optional<return_type_base>& return_value)
-    -> coro::detail::task_self_deleting
+    range_type                       awaitables,
+    coro::event&                     notify,
+    std::optional<return_type_base>& return_value,
+    std::exception_ptr&              exception) -> coro::detail::task_self_deleting
 {
     // This must live for as long as the longest running when_any task since each task tries to see
     // if it was the first to complete. Only the very first task to complete will set the return_value
@@ -155,8 +221,8 @@ static auto make_when_any_controller_task(
 
     for (auto&& a : awaitables)
     {
-        tasks.emplace_back(
-            make_when_any_task<awaitable_type, return_type_base>(std::move(a), first_completed, notify, return_value));
+        tasks.emplace_back(make_when_any_task<awaitable_type, return_type_base>(
+            std::move(a), first_completed, notify, return_value, exception));
     }
 
     co_await coro::when_all(std::move(tasks));
@@ -175,16 +241,22 @@ template<concepts::awaitable... awaitable_type>
 
     coro::event                notify{};
     std::optional<return_type> return_value{std::nullopt};
+    std::exception_ptr         exception{nullptr};
 
     auto controller_task = detail::make_when_any_tuple_controller_task(
         std::index_sequence_for<awaitable_type...>{},
         notify,
         return_value,
+        exception,
         std::forward<awaitable_type>(awaitables)...);
     controller_task.handle().resume();
 
     co_await notify;
     stop_source.request_stop();
+    if (exception)
+    {
+        std::rethrow_exception(exception);
+    }
     co_return std::move(return_value.value());
 }
 
@@ -198,15 +270,21 @@ template<concepts::awaitable... awaitable_type>
 
     coro::event                notify{};
     std::optional<return_type> return_value{std::nullopt};
+    std::exception_ptr         exception{nullptr};
 
     auto controller_task = detail::make_when_any_tuple_controller_task(
         std::index_sequence_for<awaitable_type...>{},
         notify,
         return_value,
+        exception,
         std::forward<awaitable_type>(awaitables)...);
     controller_task.handle().resume();
 
     co_await notify;
+    if (exception)
+    {
+        std::rethrow_exception(exception);
+    }
     co_return std::move(return_value.value());
 }
 
@@ -217,16 +295,21 @@ template<
     typename return_type_base          = std::remove_reference_t<return_type>>
 [[nodiscard]] auto when_any(std::stop_source stop_source, range_type awaitables) -> coro::task<return_type_base>
 {
-    coro::event notify{};
+    coro::event        notify{};
+    std::exception_ptr exception{nullptr};
 
     if constexpr (std::is_void_v<return_type_base>)
     {
         auto controller_task =
-            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify);
+            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify, exception);
         controller_task.handle().resume();
 
         co_await notify;
         stop_source.request_stop();
+        if (exception)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
     else
@@ -235,11 +318,15 @@ template<
         std::optional<return_type_base> return_value{std::nullopt};
 
         auto controller_task =
-            detail::make_when_any_controller_task(std::forward<range_type>(awaitables), notify, return_value);
+            detail::make_when_any_controller_task(std::forward<range_type>(awaitables), notify, return_value, exception);
         controller_task.handle().resume();
 
         co_await notify;
         stop_source.request_stop();
+        if (exception)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return std::move(return_value.value());
     }
 }
@@ -251,15 +338,20 @@ template<
     typename return_type_base          = std::remove_reference_t<return_type>>
 [[nodiscard]] auto when_any(range_type awaitables) -> coro::task<return_type_base>
 {
-    coro::event notify{};
+    coro::event        notify{};
+    std::exception_ptr exception{nullptr};
 
     if constexpr (std::is_void_v<return_type_base>)
     {
         auto controller_task =
-            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify);
+            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify, exception);
         controller_task.handle().resume();
 
         co_await notify;
+        if (exception)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
     else
@@ -267,10 +359,14 @@ template<
         std::optional<return_type_base> return_value{std::nullopt};
 
         auto controller_task =
-            detail::make_when_any_controller_task(std::forward<range_type>(awaitables), notify, return_value);
+            detail::make_when_any_controller_task(std::forward<range_type>(awaitables), notify, return_value, exception);
         controller_task.handle().resume();
 
         co_await notify;
+        if (exception)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return std::move(return_value.value());
     }
 }
-- 
2.43.0


From 747365d193efe742d9d44459ebed7737c57c95c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:49 +0000
Subject: [PATCH 14/46] fix: do not time out scheduled tasks early by rounding
 the timeout down

A timeout of less than a millisecond was even treated as no timeout.
---
 include/coro/scheduler.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 9a5d1cc..b3a4cda 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -271,8 +271,8 @@ public:
     {
         using namespace std::chrono_literals;
 
-        // If negative or 0 timeout, just schedule the task as normal.
-        auto timeout_ms = std::max(std::chrono::duration_cast<std::chrono::milliseconds>(timeout), 0ms);
+        // If negative or 0 timeout, just schedule the task as normal. Round up, the task must not be timed out early.
+        auto timeout_ms = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), 0ms);
         if (timeout_ms == 0ms)
         {
             if constexpr (std::is_void_v<return_type>)
@@ -323,8 +323,8 @@ public:
     {
         using namespace std::chrono_literals;
 
-        // If negative or 0 timeout, just schedule the task as normal.
-        auto timeout_ms = std::max(std::chrono::duration_cast<std::chrono::milliseconds>(timeout), 0ms);
+        // If negative or 0 timeout, just schedule the task as normal. Round up, the task must not be timed out early.
+        auto timeout_ms = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), 0ms);
         if (timeout_ms == 0ms)
         {
             if constexpr (std::is_void_v<return_type>)
-- 
2.43.0


From 42fcad64605c6f014a3e6aba477f5b516ca9ae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:25 +0000
Subject: [PATCH 15/46] fix: start tasks scheduled with a timeout on the
 scheduler

---
 include/coro/scheduler.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index b3a4cda..b6b0034 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -286,7 +286,7 @@ public:
             }
         }
 
-        auto result = co_await when_any(std::move(task), make_timeout_task(timeout_ms));
+        auto result = co_await when_any(schedule(std::move(task)), make_timeout_task(timeout_ms));
         if (!std::holds_alternative<timeout_status>(result))
         {
             if constexpr (std::is_void_v<return_type>)
@@ -338,7 +338,8 @@ public:
             }
         }
 
-        auto result = co_await when_any(std::move(stop_source), std::move(task), make_timeout_task(timeout_ms));
+        auto result = co_await when_any(
+            std::move(stop_source), schedule(std::move(task)), make_timeout_task(timeout_ms));
         if (!std::holds_alternative<timeout_status>(result))
         {
             if constexpr (std::is_void_v<return_type>)
-- 
2.43.0


From 3468b62d069c046e8c76bcf319b1f29767f32046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:21 +0000
Subject: [PATCH 16/46] fix: unlock the held mutex when a scoped_lock is move
 assigned

---
 include/coro/mutex.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/coro/mutex.hpp b/include/coro/mutex.hpp
index 7fe1c05..56ab134 100644
--- a/include/coro/mutex.hpp
+++ b/include/coro/mutex.hpp
@@ -99,7 +99,10 @@ public:
     {
         if (std::addressof(other) != this)
         {
-            m_mutex = std::exchange(other.m_mutex, nullptr);
+            auto* m = std::exchange(other.m_mutex, nullptr);
+            // Release the mutex this lock currently holds, if any, it would never be unlocked otherwise.
+            unlock();
+            m_mutex = m;
         }
         return *this;
     }
-- 
2.43.0


From 4231b196d73e3185682c6c06c2280509884f8888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:47 +0000
Subject: [PATCH 17/46] fix: release the shared_mutex when a scoped task throws

---
 include/coro/shared_mutex.hpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/coro/shared_mutex.hpp b/include/coro/shared_mutex.hpp
index f9af741..bec17df 100644
--- a/include/coro/shared_mutex.hpp
+++ b/include/coro/shared_mutex.hpp
@@ -6,6 +6,7 @@
 
 #include <atomic>
 #include <coroutine>
+#include <exception>
 
 namespace coro
 {
@@ -125,8 +126,21 @@ public:
     {
         co_await m_mutex.lock();
         co_await detail::shared_lock_operation<executor_type>{*this, false};
-        co_await scoped_task;
+        // Unlocking is a task and cannot be awaited in a catch block, the lock must be released if the task throws.
+        std::exception_ptr exception{nullptr};
+        try
+        {
+            co_await scoped_task;
+        }
+        catch (...)
+        {
+            exception = std::current_exception();
+        }
         co_await unlock_shared();
+        if (exception)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
 
@@ -140,8 +154,21 @@ public:
     {
         co_await m_mutex.lock();
         co_await detail::shared_lock_operation<executor_type>{*this, true};
-        co_await scoped_task;
+        // Unlocking is a task and cannot be awaited in a catch block, the lock must be released if the task throws.
+        std::exception_ptr exception{nullptr};
+        try
+        {
+            co_await scoped_task;
+        }
+        catch (...)
+        {
+            exception = std::current_exception();
+        }
         co_await unlock();
+        if (exception)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
 
-- 
2.43.0


From f4278de1b7ae3c9dcc7670201a1fc377637b23a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:17 +0000
Subject: [PATCH 18/46] fix: fail semaphore::try_acquire() after shutdown

---
 include/coro/semaphore.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/coro/semaphore.hpp b/include/coro/semaphore.hpp
index ee362e0..fcadb7a 100644
--- a/include/coro/semaphore.hpp
+++ b/include/coro/semaphore.hpp
@@ -142,6 +142,12 @@ public:
      */
     auto try_acquire() -> bool
     {
+        // All operations fail once the semaphore has been shutdown.
+        if (is_shutdown())
+        {
+            return false;
+        }
+
         auto expected = m_counter.load(std::memory_order::acquire);
         do
         {
-- 
2.43.0


From f5e5c7409c7572a947ce5fdec8da0dec229bd43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:53 +0000
Subject: [PATCH 19/46] fix: report stopped to producers woken up by
 ring_buffer::shutdown_drain()

---
 include/coro/ring_buffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/coro/ring_buffer.hpp b/include/coro/ring_buffer.hpp
index 0aeae52..4d69e2c 100644
--- a/include/coro/ring_buffer.hpp
+++ b/include/coro/ring_buffer.hpp
@@ -375,6 +375,7 @@ public:
         while (produce_waiters != nullptr)
         {
             auto* next = produce_waiters->m_next;
+            produce_waiters->m_result = ring_buffer_result::produce::stopped;
             produce_waiters->m_awaiting_coroutine.resume();
             produce_waiters = next;
         }
-- 
2.43.0


From ee5194e126909a5e35f8af3518148c647ad923fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:25 +0000
Subject: [PATCH 20/46] fix: do not lose a ring_buffer::shutdown() that races
 with shutdown_drain()

---
 include/coro/ring_buffer.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/coro/ring_buffer.hpp b/include/coro/ring_buffer.hpp
index 4d69e2c..534dbda 100644
--- a/include/coro/ring_buffer.hpp
+++ b/include/coro/ring_buffer.hpp
@@ -320,15 +320,14 @@ public:
     auto shutdown() -> coro::task<void>
     {
         // Only wake up waiters once.
-        auto expected = m_running_state.load(std::memory_order::acquire);
-        if (expected == running_state_t::stopped)
+        if (m_running_state.load(std::memory_order::acquire) == running_state_t::stopped)
         {
             co_return;
         }
 
         auto lk = co_await m_mutex.scoped_lock();
         // Only let one caller do the wake-ups, this can go from running or draining to stopped
-        if (!m_running_state.compare_exchange_strong(expected, running_state_t::stopped, std::memory_order::acq_rel, std::memory_order::relaxed))
+        if (m_running_state.exchange(running_state_t::stopped, std::memory_order::acq_rel) == running_state_t::stopped)
         {
             co_return;
         }
-- 
2.43.0


From 694d6248010be5f2f95ad79d588f118c6be01216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:35 +0000
Subject: [PATCH 21/46] fix: do not read the queue's elements without holding
 its mutex

---
 include/coro/queue.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/coro/queue.hpp b/include/coro/queue.hpp
index 4402748..2a78d46 100644
--- a/include/coro/queue.hpp
+++ b/include/coro/queue.hpp
@@ -88,6 +88,7 @@ public:
                 }
 
                 m_queue.m_elements.pop();
+                m_queue.m_size.fetch_sub(1, std::memory_order::release);
                 m_queue.m_mutex.unlock();
                 return true;
             }
@@ -159,8 +160,8 @@ public:
      */
     auto size() const -> std::size_t
     {
-        std::atomic_thread_fence(std::memory_order::acquire);
-        return m_elements.size();
+        // m_elements cannot be read here, the caller does not hold the mutex.
+        return m_size.load(std::memory_order::acquire);
     }
 
     /**
@@ -195,6 +196,7 @@ public:
         else
         {
             m_elements.push(element);
+            m_size.fetch_add(1, std::memory_order::release);
         }
 
         co_return queue_produce_result::produced;
@@ -229,6 +231,7 @@ public:
         else
         {
             m_elements.push(std::move(element));
+            m_size.fetch_add(1, std::memory_order::release);
         }
 
         co_return queue_produce_result::produced;
@@ -262,6 +265,7 @@ public:
         else
         {
             m_elements.emplace(std::forward<args_type>(args)...);
+            m_size.fetch_add(1, std::memory_order::release);
         }
 
         co_return queue_produce_result::produced;
@@ -320,6 +324,7 @@ public:
             }
 
             m_elements.pop();
+            m_size.fetch_sub(1, std::memory_order::release);
             return value;
         }
 
@@ -401,6 +406,8 @@ private:
     coro::mutex m_mutex{};
     /// @brief The underlying queue data structure.
     std::queue<element_type> m_elements{};
+    /// @brief The number of elements in m_elements, can be read without holding the mutex.
+    std::atomic<std::size_t> m_size{0};
     /// @brief The current running state of the queue.
     std::atomic<running_state_t> m_running_state{running_state_t::running};
 };
-- 
2.43.0


From 6bf746ce68d862cda6d18d3d388bfb306872e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:52 +0000
Subject: [PATCH 22/46] fix: do not lose a queue::shutdown() that races with
 shutdown_drain()

---
 include/coro/queue.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/coro/queue.hpp b/include/coro/queue.hpp
index 2a78d46..682aa3d 100644
--- a/include/coro/queue.hpp
+++ b/include/coro/queue.hpp
@@ -338,16 +338,14 @@ public:
      */
     auto shutdown() -> coro::task<void>
     {
-        auto expected = m_running_state.load(std::memory_order::acquire);
-        if (expected == running_state_t::stopped)
+        if (m_running_state.load(std::memory_order::acquire) == running_state_t::stopped)
         {
             co_return;
         }
 
         // We use the lock to guarantee the m_running_state has propagated.
         auto lk = co_await m_mutex.scoped_lock();
-        if (!m_running_state.compare_exchange_strong(
-                expected, running_state_t::stopped, std::memory_order::acq_rel, std::memory_order::relaxed))
+        if (m_running_state.exchange(running_state_t::stopped, std::memory_order::acq_rel) == running_state_t::stopped)
         {
             co_return;
         }
-- 
2.43.0


From 8bf89671fbb96b5d525247edf1f7e53ee5128821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:16 +0000
Subject: [PATCH 23/46] fix: do not lose condition_variable notifications and
 do not use notified waiters

Concurrent notifiers popped from a lock free list whose entries are destroyed as soon as they are
notified, reading freed memory or corrupting the list. A waiter whose predicate was false was
enqueued again only after its lock was released, so a notify in between was lost.
---
 include/coro/condition_variable.hpp | 33 +++++++------
 src/condition_variable.cpp          | 72 ++++++++++++++++++++---------
 2 files changed, 65 insertions(+), 40 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index 654bca5..4bf8188 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -1,7 +1,6 @@
 #pragma once
 
 #include "coro/concepts/executor.hpp"
-#include "coro/detail/awaiter_list.hpp"
 #include "coro/detail/task_self_deleting.hpp"
 #include "coro/event.hpp"
 #include "coro/mutex.hpp"
@@ -12,6 +11,7 @@
 #include <chrono>
 #include <condition_variable>
 #include <functional>
+#include <mutex>
 #include <optional>
 
 #ifdef LIBCORO_FEATURE_NETWORKING
@@ -63,7 +63,8 @@ private:
         /// @brief The lock that the wait() was called with.
         coro::scoped_lock& m_lock;
 
-        /// @brief Each awaiter type defines its own notify behavior.
+        /// @brief Each awaiter type defines its own notify behavior. An awaiter that is not ready has to be enqueued
+        /// again before its lock is released, otherwise a notify in between would not reach it.
         /// @return The status of if the waiter's notify result.
         virtual auto on_notify() -> coro::task<notify_status_t> = 0;
     };
@@ -279,7 +280,7 @@ private:
             // We enqueue the hook_task since we can make it live until the notify occurs and will properly resume the
             // actual coroutine only once.
             awaiter_with_wait_hook hook_task{m_condition_variable, m_lock, data};
-            detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(&hook_task));
+            m_condition_variable.enqueue(&hook_task);
             m_lock.m_mutex->unlock(); // Unlock the actual lock now that we are setup, not the fake hook task.
 
             co_await coro::when_all(make_on_notify_callback_task(data), make_timeout_task(data));
@@ -387,7 +388,7 @@ public:
     template<coro::concepts::executor executor_type>
     auto notify_all(std::unique_ptr<executor_type>& executor) -> void
     {
-        auto* waiter = detail::awaiter_list_pop_all(m_awaiters);
+        auto* waiter = dequeue_all();
 
         while (waiter != nullptr)
         {
@@ -528,22 +529,20 @@ public:
 #endif
 
 private:
-    /// @brief The list of waiters.
-    std::atomic<awaiter_base*> m_awaiters{nullptr};
+    /// @brief The list of waiters, any number of notifiers can take waiters at the same time and a waiter is gone as soon
+    /// as it is notified, so it cannot be a lock free list.
+    awaiter_base* m_awaiters{nullptr};
+    /// @brief Mutual exclusion for the list of waiters.
+    std::mutex m_awaiters_mutex{};
+
+    auto enqueue(awaiter_base* waiter) -> void;
+    auto dequeue() -> awaiter_base*;
+    auto dequeue_all() -> awaiter_base*;
 
     auto make_notify_all_executor_individual_task(awaiter_base* waiter) -> coro::task<void>
     {
-        switch (co_await waiter->on_notify())
-        {
-            case notify_status_t::not_ready:
-                // Re-enqueue since the predicate isn't ready and return since the notify has been satisfied.
-                detail::awaiter_list_push(m_awaiters, waiter);
-                break;
-            case notify_status_t::ready:
-            case notify_status_t::awaiter_dead:
-                // Don't re-enqueue any awaiters that are ready or dead.
-                break;
-        }
+        // An awaiter that isn't ready has enqueued itself again.
+        co_await waiter->on_notify();
     }
 };
 
diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index aa641d4..7d89cab 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -30,8 +30,10 @@ auto condition_variable::awaiter::await_ready() const noexcept -> bool
 auto condition_variable::awaiter::await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
 {
     m_awaiting_coroutine = awaiting_coroutine;
-    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
-    m_lock.m_mutex->unlock();
+    // Once enqueued and unlocked this awaiter can be notified and destroyed.
+    auto* mutex = m_lock.m_mutex;
+    m_condition_variable.enqueue(this);
+    mutex->unlock();
     return true;
 }
 
@@ -60,8 +62,10 @@ auto condition_variable::awaiter_with_predicate::await_ready() const noexcept ->
 auto condition_variable::awaiter_with_predicate::await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
 {
     m_awaiting_coroutine = awaiting_coroutine;
-    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
-    m_lock.m_mutex->unlock();
+    // Once enqueued and unlocked this awaiter can be notified and destroyed.
+    auto* mutex = m_lock.m_mutex;
+    m_condition_variable.enqueue(this);
+    mutex->unlock();
     return true;
 }
 
@@ -74,7 +78,9 @@ auto condition_variable::awaiter_with_predicate::on_notify() -> coro::task<condi
         co_return notify_status_t::ready;
     }
 
-    m_lock.m_mutex->unlock();
+    auto* mutex = m_lock.m_mutex;
+    m_condition_variable.enqueue(this);
+    mutex->unlock();
     co_return notify_status_t::not_ready;
 }
 
@@ -102,8 +108,10 @@ auto condition_variable::awaiter_with_predicate_stop_token::await_ready() noexce
 auto condition_variable::awaiter_with_predicate_stop_token::await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
 {
     m_awaiting_coroutine = awaiting_coroutine;
-    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
-    m_lock.m_mutex->unlock();
+    // Once enqueued and unlocked this awaiter can be notified and destroyed.
+    auto* mutex = m_lock.m_mutex;
+    m_condition_variable.enqueue(this);
+    mutex->unlock();
     return true;
 }
 
@@ -119,7 +127,9 @@ auto condition_variable::awaiter_with_predicate_stop_token::on_notify() -> coro:
         co_return notify_status_t::ready;
     }
 
-    m_lock.m_mutex->unlock();
+    auto* mutex = m_lock.m_mutex;
+    m_condition_variable.enqueue(this);
+    mutex->unlock();
     co_return notify_status_t::not_ready;
 }
 
@@ -190,6 +200,8 @@ auto condition_variable::awaiter_with_wait_hook::on_notify() -> coro::task<condi
         co_return notify_status_t::ready;
     }
 
+    m_condition_variable.enqueue(this);
+    event_lock.unlock();
     waiter_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
@@ -201,7 +213,7 @@ auto condition_variable::notify_one() -> coro::task<void>
     // The loop is here in case there are *dead* awaiter_hook_tasks that need to be skipped.
     while (true)
     {
-        auto* waiter = detail::awaiter_list_pop(m_awaiters);
+        auto* waiter = dequeue();
         if (waiter == nullptr)
         {
             co_return; // There is nobody to currently notify.
@@ -213,8 +225,7 @@ auto condition_variable::notify_one() -> coro::task<void>
                 // The predicate was ready and the awaiter is resumed.
                 co_return;
             case notify_status_t::not_ready:
-                // Re-enqueue since the predicate isn't ready and return since the notify has been satisfied.
-                coro::detail::awaiter_list_push(m_awaiters, waiter);
+                // The awaiter has enqueued itself again since the predicate isn't ready, the notify has been satisfied.
                 co_return;
             case notify_status_t::awaiter_dead:
                 // This is an awaiter_with_wait_hook that timed out, try the next awaiter.
@@ -225,24 +236,15 @@ auto condition_variable::notify_one() -> coro::task<void>
 
 auto condition_variable::notify_all() -> coro::task<void>
 {
-    auto* waiter = detail::awaiter_list_pop_all(m_awaiters);
+    auto* waiter = dequeue_all();
 
     while (waiter != nullptr)
     {
         // Need to grab next before notifying since the notifier will self destruct after completing.
         awaiter_base* next = waiter->m_next;
 
-        switch (co_await waiter->on_notify())
-        {
-            case notify_status_t::not_ready:
-                // Re-enqueue since the predicate isn't ready and return since the notify has been satisfied.
-                coro::detail::awaiter_list_push(m_awaiters, waiter);
-                break;
-            case notify_status_t::ready:
-            case notify_status_t::awaiter_dead:
-                // Don't re-enqueue any awaiters that are ready or dead.
-                break;
-        }
+        // An awaiter that isn't ready has enqueued itself again.
+        co_await waiter->on_notify();
 
         waiter = next;
     }
@@ -276,4 +278,28 @@ auto condition_variable::wait(
 
 #endif
 
+auto condition_variable::enqueue(awaiter_base* waiter) -> void
+{
+    std::scoped_lock lk{m_awaiters_mutex};
+    waiter->m_next = m_awaiters;
+    m_awaiters     = waiter;
+}
+
+auto condition_variable::dequeue() -> awaiter_base*
+{
+    std::scoped_lock lk{m_awaiters_mutex};
+    auto*            waiter = m_awaiters;
+    if (waiter != nullptr)
+    {
+        m_awaiters = waiter->m_next;
+    }
+    return waiter;
+}
+
+auto condition_variable::dequeue_all() -> awaiter_base*
+{
+    std::scoped_lock lk{m_awaiters_mutex};
+    return std::exchange(m_awaiters, nullptr);
+}
+
 } // namespace coro
-- 
2.43.0


From 5a5321ff911c316239069d0bd3d572772c26d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:41 +0000
Subject: [PATCH 24/46] fix: do not use condition_variable timed waiters after
 they have been resumed

After a timeout the next notify read the status of a waiter that no longer existed, and a notify
that came before the timeout was started read the executor and the duration from it.
---
 include/coro/condition_variable.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index 4bf8188..b5611b0 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -158,6 +158,8 @@ private:
         coro::event m_notify_callback{};
         /// @brief Flag to notify if the awaiter has completed via no_timeout or timeout.
         std::atomic<bool> m_awaiter_completed{false};
+        /// @brief Flag if the awaiter has completed via timeout, the awaiter might not exist anymore if it is set.
+        bool m_timed_out{false};
         /// @brief The status of the wait() call, this is _ONLY_ valid if the m_awaiter_completed flag was obtained,
         /// otherwise its a dangling reference.
         std::optional<std::cv_status>& m_status;
@@ -225,8 +227,9 @@ private:
         {
             co_await data.m_notify_callback;
 
-            // If this is the condition and not a timeout resume from this task.
-            if (m_status.value() == std::cv_status::no_timeout)
+            // If this is the condition and not a timeout resume from this task. The awaiter must not be used if it
+            // was a timeout since it has been resumed and could be destroyed.
+            if (!data.m_timed_out)
             {
                 // The condition coroutine is resumed from here instead of the awaiter hook task to
                 // guarantee the controller is still alive until the caller's coroutine is completed.
@@ -241,17 +244,22 @@ private:
          * @brief Task to handle the timeout case, this will always wait the duration of the timeout before exiting.
          *
          * @param data The controller task data.
+         * @param executor The executor to wait on, the awaiter could already be notified and destroyed.
+         * @param wait_for The duration of the timeout.
          * @return coro::task<void>
          */
-        auto make_timeout_task(controller_data& data) -> coro::task<void>
+        auto make_timeout_task(
+            controller_data& data, io_executor_type* executor, const std::chrono::nanoseconds wait_for)
+            -> coro::task<void>
         {
-            co_await m_executor->schedule_after(m_wait_for);
+            co_await executor->schedule_after(wait_for);
             auto lock = co_await data.m_event_mutex.scoped_lock();
             bool expected{false};
             if (data.m_awaiter_completed.compare_exchange_strong(
                     expected, true, std::memory_order::release, std::memory_order::relaxed))
             {
-                m_status = {std::cv_status::timeout};
+                m_status         = {std::cv_status::timeout};
+                data.m_timed_out = true;
                 lock.unlock();
 
                 // This means the timeout has occurred first. Before resuming the wait_[for|until]() caller the lock
@@ -283,7 +291,8 @@ private:
             m_condition_variable.enqueue(&hook_task);
             m_lock.m_mutex->unlock(); // Unlock the actual lock now that we are setup, not the fake hook task.
 
-            co_await coro::when_all(make_on_notify_callback_task(data), make_timeout_task(data));
+            co_await coro::when_all(
+                make_on_notify_callback_task(data), make_timeout_task(data, m_executor.get(), m_wait_for));
             co_return;
         }
 
-- 
2.43.0


From 54cb08addb7d3180e6b5e6bd3a8e285e5ac5b4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:01 +0000
Subject: [PATCH 25/46] fix: remove timed out waiters from the
 condition_variable

A wait that timed out stayed in the list with its controller task until the next notify, or leaked if there was none.
---
 include/coro/condition_variable.hpp | 22 +++++++++++++++++-----
 src/condition_variable.cpp          | 14 ++++++++++++++
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index b5611b0..52d8547 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -179,8 +179,8 @@ private:
      * This class mimics the awaiter_base class so it can silently sit in the coro:condition_variable.m_awaiters to look
      * like its the actual awaiter, but just proxies to the real awaiter when appropriate.
      *
-     * If the wait_[for|until] does timeout, then this will do nothing except delete itself from the list on a
-     * notify_[one|all] call.
+     * If the wait_[for|until] does timeout, then this is removed from the list. If a notify_[one|all] call has already
+     * taken it from the list then this will do nothing except let the controller task know that it is done with it.
      */
     struct awaiter_with_wait_hook : public awaiter_base
     {
@@ -244,13 +244,16 @@ private:
          * @brief Task to handle the timeout case, this will always wait the duration of the timeout before exiting.
          *
          * @param data The controller task data.
+         * @param hook The hook to remove from the list of waiters upon timeout.
          * @param executor The executor to wait on, the awaiter could already be notified and destroyed.
          * @param wait_for The duration of the timeout.
          * @return coro::task<void>
          */
         auto make_timeout_task(
-            controller_data& data, io_executor_type* executor, const std::chrono::nanoseconds wait_for)
-            -> coro::task<void>
+            controller_data&               data,
+            awaiter_with_wait_hook&        hook,
+            io_executor_type*              executor,
+            const std::chrono::nanoseconds wait_for) -> coro::task<void>
         {
             co_await executor->schedule_after(wait_for);
             auto lock = co_await data.m_event_mutex.scoped_lock();
@@ -260,7 +263,13 @@ private:
             {
                 m_status         = {std::cv_status::timeout};
                 data.m_timed_out = true;
+                // Nobody will notify the hook if it is still in the list, do not leave it and the controller task behind.
+                auto removed = m_condition_variable.remove(&hook);
                 lock.unlock();
+                if (removed)
+                {
+                    data.m_notify_callback.set();
+                }
 
                 // This means the timeout has occurred first. Before resuming the wait_[for|until]() caller the lock
                 // must be re-acquired.
@@ -292,7 +301,8 @@ private:
             m_lock.m_mutex->unlock(); // Unlock the actual lock now that we are setup, not the fake hook task.
 
             co_await coro::when_all(
-                make_on_notify_callback_task(data), make_timeout_task(data, m_executor.get(), m_wait_for));
+                make_on_notify_callback_task(data),
+                make_timeout_task(data, hook_task, m_executor.get(), m_wait_for));
             co_return;
         }
 
@@ -547,6 +557,8 @@ private:
     auto enqueue(awaiter_base* waiter) -> void;
     auto dequeue() -> awaiter_base*;
     auto dequeue_all() -> awaiter_base*;
+    /// @return True if the waiter was in the list.
+    auto remove(awaiter_base* waiter) -> bool;
 
     auto make_notify_all_executor_individual_task(awaiter_base* waiter) -> coro::task<void>
     {
diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index 7d89cab..666e5f8 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -302,4 +302,18 @@ auto condition_variable::dequeue_all() -> awaiter_base*
     return std::exchange(m_awaiters, nullptr);
 }
 
+auto condition_variable::remove(awaiter_base* waiter) -> bool
+{
+    std::scoped_lock lk{m_awaiters_mutex};
+    for (auto** current = &m_awaiters; *current != nullptr; current = &(*current)->m_next)
+    {
+        if (*current == waiter)
+        {
+            *current = waiter->m_next;
+            return true;
+        }
+    }
+    return false;
+}
+
 } // namespace coro
-- 
2.43.0


From 2b7f5a088f16451df4b3884ef23366ae8566f12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:18 +0000
Subject: [PATCH 26/46] fix: do not use the condition_variable controller task
 after it deleted itself

---
 include/coro/condition_variable.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index 52d8547..de23197 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -327,8 +327,9 @@ private:
             m_awaiting_coroutine = awaiting_coroutine; // This is the real coroutine to resume.
 
             // Make the background controller which proxies between the notify task and the timeout task.
+            // It deletes itself and can be gone as soon as it is resumed.
             auto controller = make_controller_task();
-            controller.resume();
+            controller.handle().resume();
             return true;
         }
 
-- 
2.43.0


From 8314960e46a98f4d96e06037aecf6ae9adbf3b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:24 +0000
Subject: [PATCH 27/46] fix: coro::invoke must not start the user's task before
 it is awaited

---
 include/coro/invoke.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/coro/invoke.hpp b/include/coro/invoke.hpp
index 1111888..3f15b6c 100644
--- a/include/coro/invoke.hpp
+++ b/include/coro/invoke.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <coroutine>
 #include <utility>
 
 namespace coro
@@ -12,6 +13,10 @@ template<typename functor_type, typename... args_types>
 auto make_invoker_task(functor_type functor, args_types&&... args) -> decltype(functor(std::forward<args_types>(args)...))
 {
     auto user_task = functor(std::forward<args_types>(args)...);
+    // The arguments are consumed by now, give control back to coro::invoke() and run the user's task when
+    // this task is awaited. Running it from coro::invoke() would resume a user task that is suspended on
+    // something else a second time as soon as this task is awaited.
+    co_await std::suspend_always{};
     co_return co_await user_task;
 }
 
-- 
2.43.0


From e7d7095216de4a14ff4ffd7b74c77db59be7db5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:41 +0000
Subject: [PATCH 28/46] fix: a peer that half closed must not fail polling for
 write

---
 src/detail/io_notifier_epoll.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 794fea2..53515ee 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -84,9 +84,15 @@ auto io_notifier_epoll::watch_timer(const timer_handle& timer, std::chrono::nano
 auto io_notifier_epoll::watch(fd_t fd, poll_op op, void* data, bool keep, bool is_cancel_event) -> bool
 {
     auto event_data     = event_t{};
-    event_data.events   = static_cast<uint32_t>(op) | EPOLLRDHUP;
+    event_data.events   = static_cast<uint32_t>(op);
     event_data.data.u64 = encode_udata(keep, is_cancel_event, data);
 
+    // The peer closing its writing half ends reading but it can still be written to.
+    if (poll_op_readable(op))
+    {
+        event_data.events |= EPOLLRDHUP;
+    }
+
     if (!keep)
     {
         event_data.events |= EPOLLONESHOT;
-- 
2.43.0


From 8bd96f5cff88f3799a44c51b9ef6c80591d8f177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:41 +0000
Subject: [PATCH 29/46] fix: writing to a closed tcp connection must not raise
 SIGPIPE

---
 include/coro/net/tcp/client.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/coro/net/tcp/client.hpp b/include/coro/net/tcp/client.hpp
index 642a66c..b1711c7 100644
--- a/include/coro/net/tcp/client.hpp
+++ b/include/coro/net/tcp/client.hpp
@@ -398,7 +398,13 @@ private:
         typename element_type = typename concepts::const_buffer_traits<buffer_type>::element_type>
     auto send(const buffer_type& buffer) -> std::pair<io_status, std::span<element_type>>
     {
-        auto bytes_sent = ::send(m_socket.native_handle(), buffer.data(), buffer.size(), 0);
+        // A peer that closed the connection must be reported as an error and not raise SIGPIPE.
+#if defined(MSG_NOSIGNAL)
+        constexpr int flags = MSG_NOSIGNAL;
+#else
+        constexpr int flags = 0;
+#endif
+        auto bytes_sent = ::send(m_socket.native_handle(), buffer.data(), buffer.size(), flags);
         if (bytes_sent >= 0)
         {
             // Some or all of the bytes were written.
-- 
2.43.0


From d65c6b798e4d4ebd080cd3439171c946ced2b350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 30/46] fix: tls recv must not wait for data that was already
 received, tls recv and send must not spin on renegotiation or report unsent
 bytes as sent

---
 include/coro/net/tls/client.hpp | 207 ++++++++++++++------------------
 1 file changed, 93 insertions(+), 114 deletions(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 8bca125..3393516 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -77,40 +77,44 @@ public:
             co_return {recv_status::buffer_is_empty, std::span<element_type>{}};
         }
 
-        auto* tls = m_tls_info.m_tls_ptr.get();
-
-        auto op = poll_op::read;
-
-        auto                                  first = true;
-        std::chrono::steady_clock::time_point start;
-        std::chrono::steady_clock::time_point stop;
+        auto*      tls      = m_tls_info.m_tls_ptr.get();
+        const auto deadline = deadline_for(timeout);
 
         while (true)
         {
-            if (timeout.has_value())
+            // Always try to read before polling, data that has already been received by the tls connection doesn't
+            // make the socket readable again.
+            size_t bytes_recv{0};
+            ERR_clear_error();
+            int r = SSL_read_ex(tls, buffer.data(), buffer.size(), &bytes_recv);
+            if (r > 0)
+            {
+                co_return {recv_status::ok, std::span<element_type>{buffer.data(), static_cast<size_t>(bytes_recv)}};
+            }
+
+            poll_op op{poll_op::read};
+            int     err = SSL_get_error(tls, r);
+            if (err == SSL_ERROR_WANT_WRITE)
             {
-                auto& t = timeout.value();
-                if (!first)
-                {
-                    auto duration = std::chrono::duration_cast<std::chrono::milliseconds>(stop - start);
-                    t -= duration;
-                    if (t <= std::chrono::microseconds{0})
-                    {
-                        co_return {recv_status::timeout, std::span<element_type>{}};
-                    }
-                }
-
-                first = false;
-                start = std::chrono::steady_clock::now();
+                op = poll_op::write;
+            }
+            else if (err != SSL_ERROR_WANT_READ)
+            {
+                co_return {static_cast<recv_status>(err), std::span<element_type>{}};
+            }
+
+            const auto remaining = remaining_until(deadline);
+            if (!remaining.has_value())
+            {
+                co_return {recv_status::timeout, std::span<element_type>{}};
             }
 
-            auto pstatus = co_await poll(op, timeout.value_or(std::chrono::milliseconds{0}));
+            auto pstatus = co_await poll(op, remaining.value());
             switch (pstatus)
             {
                 case poll_status::read:
-                    break;
                 case poll_status::write:
-                    continue;
+                    break;
                 case poll_status::timeout:
                     co_return {recv_status::timeout, std::span<element_type>{}};
                 case poll_status::error:
@@ -120,36 +124,6 @@ public:
                 case poll_status::cancelled:
                     co_return {recv_status::cancelled, std::span<element_type>{}};
             }
-
-            size_t bytes_recv{0};
-            ERR_clear_error();
-            int r = SSL_read_ex(tls, buffer.data(), buffer.size(), &bytes_recv);
-            if (timeout.has_value())
-            {
-                stop = std::chrono::steady_clock::now();
-            }
-            if (r <= 0)
-            {
-                int err = SSL_get_error(tls, r);
-                if (err == SSL_ERROR_WANT_READ)
-                {
-                    op = poll_op::read;
-                    continue;
-                }
-                else if (err == SSL_ERROR_WANT_WRITE)
-                {
-                    op = poll_op::write;
-                    continue;
-                }
-                else
-                {
-                    co_return {static_cast<recv_status>(err), std::span<element_type>{}};
-                }
-            }
-            else
-            {
-                co_return {recv_status::ok, std::span<element_type>{buffer.data(), static_cast<size_t>(bytes_recv)}};
-            }
         }
     }
 
@@ -173,80 +147,51 @@ public:
             co_return {send_status::buffer_is_empty, std::span<element_type>{buffer.data(), buffer.size()}};
         }
 
-        auto* tls = m_tls_info.m_tls_ptr.get();
-
-        auto op = poll_op::write;
-
-        auto                                  first = true;
-        std::chrono::steady_clock::time_point start;
-        std::chrono::steady_clock::time_point stop;
+        auto*      tls      = m_tls_info.m_tls_ptr.get();
+        const auto deadline = deadline_for(timeout);
+        const auto unsent   = std::span<element_type>{buffer.data(), buffer.size()};
 
         while (true)
         {
-            if (timeout.has_value())
+            size_t bytes_sent{0};
+            ERR_clear_error();
+            int r = SSL_write_ex(tls, buffer.data(), buffer.size(), &bytes_sent);
+            if (r > 0)
+            {
+                co_return {send_status::ok, unsent.subspan(bytes_sent)};
+            }
+
+            poll_op op{poll_op::write};
+            int     err = SSL_get_error(tls, r);
+            if (err == SSL_ERROR_WANT_READ)
             {
-                auto& t = timeout.value();
-                if (!first)
-                {
-                    auto duration = std::chrono::duration_cast<std::chrono::milliseconds>(stop - start);
-                    t -= duration;
-                    if (t <= std::chrono::microseconds{0})
-                    {
-                        co_return {send_status::timeout, std::span<element_type>{}};
-                    }
-                }
-
-                first = false;
-                start = std::chrono::steady_clock::now();
+                op = poll_op::read;
+            }
+            else if (err != SSL_ERROR_WANT_WRITE)
+            {
+                co_return {static_cast<send_status>(err), unsent};
+            }
+
+            const auto remaining = remaining_until(deadline);
+            if (!remaining.has_value())
+            {
+                co_return {send_status::timeout, unsent};
             }
 
-            auto pstatus = co_await poll(op, timeout.value_or(std::chrono::milliseconds{0}));
+            auto pstatus = co_await poll(op, remaining.value());
             switch (pstatus)
             {
                 case poll_status::write:
-                    break;
                 case poll_status::read:
-                    continue;
+                    break;
                 case poll_status::timeout:
-                    co_return {send_status::timeout, std::span<element_type>{}};
+                    co_return {send_status::timeout, unsent};
                 case poll_status::error:
-                    co_return {send_status::error, std::span<element_type>{}};
+                    co_return {send_status::error, unsent};
                 case poll_status::closed:
-                    co_return {send_status::closed, std::span<element_type>{}};
+                    co_return {send_status::closed, unsent};
                 case poll_status::cancelled:
-                    co_return {send_status::cancelled, std::span<element_type>{}};
-            }
-
-            size_t bytes_sent{0};
-            ERR_clear_error();
-            int r = SSL_write_ex(tls, buffer.data(), buffer.size(), &bytes_sent);
-            if (timeout.has_value())
-            {
-                stop = std::chrono::steady_clock::now();
-            }
-            if (r <= 0)
-            {
-                int err = SSL_get_error(tls, r);
-
-                if (err == SSL_ERROR_WANT_WRITE)
-                {
-                    op = poll_op::write;
-                    continue;
-                }
-                else if (err == SSL_ERROR_WANT_READ)
-                {
-                    op = poll_op::read;
-                    continue;
-                }
-                else
-                {
-                    co_return {static_cast<send_status>(err), std::span<element_type>{}};
-                }
-            }
-            else
-            {
-                co_return {
-                    send_status::ok, std::span<element_type>{buffer.data() + bytes_sent, buffer.size() - bytes_sent}};
+                    co_return {send_status::cancelled, unsent};
             }
         }
     }
@@ -282,6 +227,40 @@ public:
     }
 
 private:
+    using deadline_t = std::optional<std::chrono::steady_clock::time_point>;
+
+    /**
+     * @param timeout The timeout of an operation, none or zero never times out.
+     * @return The time the operation must be completed by.
+     */
+    static auto deadline_for(std::optional<std::chrono::milliseconds> timeout) -> deadline_t
+    {
+        if (timeout.has_value() && timeout.value() > std::chrono::milliseconds{0})
+        {
+            return std::chrono::steady_clock::now() + timeout.value();
+        }
+        return std::nullopt;
+    }
+
+    /**
+     * @return The time left to poll for, zero if there is no limit, or nothing if the deadline has passed.
+     */
+    static auto remaining_until(const deadline_t& deadline) -> std::optional<std::chrono::milliseconds>
+    {
+        if (!deadline.has_value())
+        {
+            return std::chrono::milliseconds{0};
+        }
+
+        auto remaining =
+            std::chrono::ceil<std::chrono::milliseconds>(deadline.value() - std::chrono::steady_clock::now());
+        if (remaining <= std::chrono::milliseconds{0})
+        {
+            return std::nullopt;
+        }
+        return remaining;
+    }
+
     /**
      * @param timeout How long to allow for the tls handshake to successfully complete?
      * @return The result of the tls handshake.
-- 
2.43.0


From b79435a3da9fd50e0b462badf789cf2649906af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 31/46] fix: the tls connect and handshake time-out must bound
 the whole operation

---
 src/net/tls/client.cpp | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index 90c6cb6..3eef6cd 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -98,6 +98,8 @@ auto client::connect(std::chrono::milliseconds timeout) -> coro::task<connection
         return s;
     };
 
+    const auto deadline = deadline_for(timeout);
+
     auto [addr, len] = m_endpoint.data();
 
     auto cret = ::connect(m_socket.native_handle(), addr, len);
@@ -123,8 +125,12 @@ auto client::connect(std::chrono::milliseconds timeout) -> coro::task<connection
 
                 if (result == 0)
                 {
-                    // TODO: delta the already used time and remove from the handshake timeout.
-                    co_return return_value(co_await handshake(timeout));
+                    const auto remaining = remaining_until(deadline);
+                    if (!remaining.has_value())
+                    {
+                        co_return return_value(connection_status::timeout);
+                    }
+                    co_return return_value(co_await handshake(remaining.value()));
                 }
             }
             else if (pstatus == poll_status::timeout)
@@ -161,10 +167,19 @@ auto client::handshake(std::chrono::milliseconds timeout) -> coro::task<connecti
         SSL_set_accept_state(tls);
     }
 
-    int r{0};
-    ERR_clear_error();
-    while ((r = SSL_connect(tls)) != 1)
+    const auto deadline = deadline_for(timeout);
+
+    while (true)
     {
+        // The error queue belongs to the thread, other connections could have left errors on the thread this
+        // coroutine is currently running on.
+        ERR_clear_error();
+        int r = SSL_connect(tls);
+        if (r == 1)
+        {
+            break;
+        }
+
         poll_op op{poll_op::read_write};
         int     err = SSL_get_error(tls, r);
         if (err == SSL_ERROR_WANT_WRITE)
@@ -183,8 +198,13 @@ auto client::handshake(std::chrono::milliseconds timeout) -> coro::task<connecti
             co_return connection_status::handshake_failed;
         }
 
-        // TODO: adjust timeout based on elapsed time so far.
-        auto pstatus = co_await m_scheduler->poll(m_socket, op, timeout);
+        const auto remaining = remaining_until(deadline);
+        if (!remaining.has_value())
+        {
+            co_return connection_status::timeout;
+        }
+
+        auto pstatus = co_await m_scheduler->poll(m_socket, op, remaining.value());
         switch (pstatus)
         {
             case poll_status::timeout:
-- 
2.43.0


From d143d9f32de134233004e0119c576e12c959e51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 32/46] fix: tls shutdown must send close notify when the
 socket's send buffer is full

---
 include/coro/net/tls/client.hpp |  5 +--
 src/net/tls/client.cpp          | 69 ++++++++++++++++-----------------
 2 files changed, 36 insertions(+), 38 deletions(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 3393516..6e6ed78 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -200,9 +200,8 @@ public:
      * Shuts down the tls client with a 30 second timeout.
      *
      * IMPORTANT:
-     * This is very important to call manually for each client as the client's destructor will synchronously wait
-     * to shutdown if this isn't called before the client is destructed, possibly hanging the thread of execution
-     * until it completes.
+     * This is very important to call manually for each client as the client's destructor will only make a single
+     * attempt to notify the peer of the shutdown, it never waits for the socket to become ready.
      * @return Task.
      */
     auto shutdown() -> coro::task<void>
diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index 3eef6cd..89539ed 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -1,7 +1,6 @@
 #ifdef LIBCORO_FEATURE_TLS
 
     #include "coro/net/tls/client.hpp"
-    #include "coro/sync_wait.hpp"
 
 namespace coro::net::tls
 {
@@ -55,10 +54,13 @@ client::client(client&& other) noexcept
 
 client::~client()
 {
-    // If the user didn't shutdown the client block on shutting down to clean up resources.
-    if (!m_shutdown.load(std::memory_order::acquire))
+    // If the user didn't shutdown the client try to notify the peer, without waiting since the thread running this
+    // could be the one that is needed to drive the scheduler.
+    if (!m_shutdown.load(std::memory_order::acquire) && m_tls_info.m_tls_ptr != nullptr && !m_tls_info.m_tls_error)
     {
-        coro::sync_wait(shutdown(std::chrono::seconds{30}));
+        ERR_clear_error();
+        SSL_shutdown(m_tls_info.m_tls_ptr.get());
+        ERR_clear_error();
     }
 }
 
@@ -226,50 +228,47 @@ auto client::handshake(std::chrono::milliseconds timeout) -> coro::task<connecti
 
 auto client::tls_shutdown_and_free(std::chrono::milliseconds timeout) -> coro::task<void>
 {
-    auto* tls_ptr = m_tls_info.m_tls_ptr.get();
+    auto*      tls_ptr  = m_tls_info.m_tls_ptr.get();
+    const auto deadline = deadline_for(timeout);
 
     while (true)
     {
         ERR_clear_error();
         auto r = SSL_shutdown(tls_ptr);
-        if (r == 1) // shutdown complete
+        if (r >= 0) // close notify has been sent, there is no need to wait for the peer's.
         {
             co_return;
         }
-        else if (r == 0) // shutdown in progress
-        {
-            coro::poll_op op{coro::poll_op::read_write};
-            auto          err = SSL_get_error(tls_ptr, r);
-            if (err == SSL_ERROR_WANT_WRITE)
-            {
-                op = coro::poll_op::write;
-            }
-            else if (err == SSL_ERROR_WANT_READ)
-            {
-                op = coro::poll_op::read;
-            }
-            else
-            {
-                co_return;
-            }
 
-            auto pstatus = co_await m_scheduler->poll(m_socket, op, timeout);
-            switch (pstatus)
-            {
-                case poll_status::timeout:
-                case poll_status::error:
-                case poll_status::closed:
-                case poll_status::cancelled:
-                    co_return;
-                default:
-                    // continue shutdown.
-                    break;
-            }
+        coro::poll_op op{coro::poll_op::write};
+        auto          err = SSL_get_error(tls_ptr, r);
+        if (err == SSL_ERROR_WANT_READ)
+        {
+            op = coro::poll_op::read;
+        }
+        else if (err != SSL_ERROR_WANT_WRITE)
+        {
+            co_return;
         }
-        else // r < 0 error
+
+        const auto remaining = remaining_until(deadline);
+        if (!remaining.has_value())
         {
             co_return;
         }
+
+        auto pstatus = co_await m_scheduler->poll(m_socket, op, remaining.value());
+        switch (pstatus)
+        {
+            case poll_status::timeout:
+            case poll_status::error:
+            case poll_status::closed:
+            case poll_status::cancelled:
+                co_return;
+            default:
+                // continue shutdown.
+                break;
+        }
     }
 }
 
-- 
2.43.0


From 5cfc40a638b914d059761842f11364b1f73dc79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 33/46] fix: tls accept must report a failed handshake with an
 invalid socket

---
 src/net/tls/server.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/net/tls/server.cpp b/src/net/tls/server.cpp
index 171b788..f2aa614 100644
--- a/src/net/tls/server.cpp
+++ b/src/net/tls/server.cpp
@@ -58,8 +58,20 @@ auto server::accept(std::chrono::milliseconds timeout) -> coro::task<coro::net::
 
     auto tls_client = tls::client{m_scheduler, m_tls_ctx, std::move(s), client_endpoint};
 
-    auto hstatus = co_await tls_client.handshake(timeout);
-    (void)hstatus; // user must check result.
+    auto hstatus = connection_status::error;
+    if (tls_client.m_socket.is_ok())
+    {
+        hstatus = co_await tls_client.handshake(timeout);
+    }
+
+    tls_client.m_connect_status = hstatus;
+    if (hstatus != connection_status::connected)
+    {
+        // The user is told about the failure by the socket being invalid.
+        tls_client.m_tls_info.m_tls_ptr.reset();
+        tls_client.m_socket.close();
+    }
+
     co_return std::move(tls_client);
 };
 
-- 
2.43.0


From c4ce86651ed6d352ab483127040d1ac0f95aa560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:14 +0000
Subject: [PATCH 34/46] fix: dns poll tasks must be synchronised, must not
 outlive the resolver's state and must not lose failures

- The active sockets were accessed from several threads without synchronisation.
- Poll tasks used the resolver after it was destroyed.
- Poll tasks kept polling file descriptors that c-ares had closed, possibly re-used by something else.
- A poll error was not reported to c-ares, the lookup was never completed.
- c-ares timeouts were only processed when the user's timeout expired.
---
 include/coro/net/dns/resolver.hpp | 176 ++++++++++++++++++++++--------
 1 file changed, 133 insertions(+), 43 deletions(-)

diff --git a/include/coro/net/dns/resolver.hpp b/include/coro/net/dns/resolver.hpp
index f9e9570..336f23e 100644
--- a/include/coro/net/dns/resolver.hpp
+++ b/include/coro/net/dns/resolver.hpp
@@ -5,19 +5,23 @@
 #include "coro/fd.hpp"
 #include "coro/net/hostname.hpp"
 #include "coro/net/ip_address.hpp"
+#include "coro/net/socket.hpp"
 #include "coro/poll.hpp"
 #include "coro/task.hpp"
 
 #include <ares.h>
 #include <arpa/inet.h>
 #include <netdb.h>
+#include <unistd.h>
 
+#include <algorithm>
 #include <array>
 #include <chrono>
 #include <functional>
 #include <memory>
 #include <mutex>
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 namespace coro::net::dns
@@ -80,7 +84,7 @@ class resolver
 public:
     explicit resolver(std::unique_ptr<executor_type>& executor, std::chrono::milliseconds timeout)
         : m_executor(executor),
-          m_timeout(timeout)
+          m_state(std::make_shared<state>(executor.get(), timeout))
     {
         if (m_executor == nullptr)
         {
@@ -104,7 +108,7 @@ public:
         options.sock_state_cb      = resolver::ares_socket_state_callback;
         options.sock_state_cb_data = this;
 
-        auto channel_init_status = ares_init_options(&m_ares_channel, &options, ARES_OPT_SOCK_STATE_CB);
+        auto channel_init_status = ares_init_options(&m_state->m_ares_channel, &options, ARES_OPT_SOCK_STATE_CB);
         if (channel_init_status != ARES_SUCCESS)
         {
             throw std::runtime_error{ares_strerror(channel_init_status)};
@@ -118,10 +122,15 @@ public:
 
     ~resolver()
     {
-        if (m_ares_channel != nullptr)
         {
-            ares_destroy(m_ares_channel);
-            m_ares_channel = nullptr;
+            // This completes any pending lookup with an error and stops every active poll task, the poll tasks share
+            // the ownership of the state and can complete after this resolver is gone.
+            std::scoped_lock lk{m_state->m_mutex};
+            if (m_state->m_ares_channel != nullptr)
+            {
+                ares_destroy(m_state->m_ares_channel);
+                m_state->m_ares_channel = nullptr;
+            }
         }
 
         {
@@ -145,13 +154,16 @@ public:
         ares_addrinfo_hints hints{};
         hints.ai_family = AF_UNSPEC; // Request both IPv4 and IPv6
 
-        ares_getaddrinfo(
-            m_ares_channel,
-            hn.data().data(),
-            nullptr, // service name (port number or NULL)
-            &hints,
-            ares_dns_callback,
-            result_ptr.get());
+        {
+            std::scoped_lock lk{m_state->m_mutex};
+            ares_getaddrinfo(
+                m_state->m_ares_channel,
+                hn.data().data(),
+                nullptr, // service name (port number or NULL)
+                &hints,
+                ares_dns_callback,
+                result_ptr.get());
+        }
 
         // Suspend until this specific result is completed by ares.
         co_await resume_event;
@@ -159,48 +171,116 @@ public:
     }
 
 private:
-    /// The executor to drive the events for dns lookups.
-    std::unique_ptr<executor_type>& m_executor;
+    /// A socket c-ares is using for dns lookups.
+    struct active_socket
+    {
+        active_socket(fd_t fd, poll_op ops) : m_socket(::dup(fd)), m_ops(ops) {}
+
+        /// c-ares closes its sockets at any time, polling on a duplicate makes sure the file descriptor being polled
+        /// isn't re-used for something else while it is being polled.
+        net::socket m_socket;
+        /// The operations c-ares wants to know about.
+        poll_op m_ops;
+        /// Has c-ares closed this socket?
+        bool m_closed{false};
+    };
+
+    /// State shared with the poll tasks, these can outlive the resolver.
+    struct state
+    {
+        state(executor_type* executor, std::chrono::milliseconds timeout) : m_executor(executor), m_timeout(timeout) {}
+
+        /// The executor to drive the events for dns lookups.
+        executor_type* m_executor;
+        /// The global timeout per dns lookup request.
+        std::chrono::milliseconds m_timeout;
+        /// Guards the members below, recursive since c-ares calls back into the resolver.
+        std::recursive_mutex m_mutex{};
+        /// The libc-ares channel for looking up dns entries.
+        ares_channel m_ares_channel{nullptr};
+        /// This is the map of sockets that are currently being actively polled so multiple poll tasks
+        /// are not setup when socket state is changed.
+        std::unordered_map<fd_t, std::shared_ptr<active_socket>> m_active_sockets{};
+
+        /**
+         * @return The amount of time to poll for before c-ares needs to process its timeouts.
+         */
+        auto poll_timeout() -> std::chrono::milliseconds
+        {
+            timeval  tv{};
+            timeval* next = ares_timeout(m_ares_channel, nullptr, &tv);
+            if (next == nullptr)
+            {
+                return m_timeout;
+            }
 
-    /// The global timeout per dns lookup request.
-    std::chrono::milliseconds m_timeout{0};
+            auto timeout =
+                std::chrono::ceil<std::chrono::milliseconds>(
+                    std::chrono::seconds{next->tv_sec} + std::chrono::microseconds{next->tv_usec}) +
+                std::chrono::milliseconds{1};
+            return m_timeout > std::chrono::milliseconds{0} ? std::min(m_timeout, timeout) : timeout;
+        }
+    };
 
-    /// The libc-ares channel for looking up dns entries.
-    ares_channel m_ares_channel{nullptr};
+    /// The executor to drive the events for dns lookups.
+    std::unique_ptr<executor_type>& m_executor;
 
-    /// This is the map of sockets that are currently being actively polled so multiple poll tasks
-    /// are not setup when socket state is changed.
-    std::unordered_map<fd_t, poll_op> m_active_sockets{};
+    /// The state shared with the poll tasks.
+    std::shared_ptr<state> m_state;
 
-    auto make_poll_task(fd_t fd) -> coro::task<void>
+    static auto make_poll_task(std::shared_ptr<state> s, std::shared_ptr<active_socket> socket, fd_t fd)
+        -> coro::task<void>
     {
+        bool failed{false};
+
         // The loop ensures non-blocking polling until the socket is closed by c-ares.
-        while (m_active_sockets.contains(fd))
+        while (true)
         {
-            auto ops    = m_active_sockets[fd];
-            auto result = co_await m_executor->poll(fd, ops, m_timeout);
+            poll_op                   ops{poll_op::read};
+            std::chrono::milliseconds timeout{0};
+            {
+                std::scoped_lock lk{s->m_mutex};
+                if (socket->m_closed)
+                {
+                    break;
+                }
+                ops     = socket->m_ops;
+                timeout = s->poll_timeout();
+            }
+
+            auto result = co_await s->m_executor->poll(socket->m_socket.native_handle(), ops, timeout);
+
+            std::scoped_lock lk{s->m_mutex};
+            if (socket->m_closed)
+            {
+                break;
+            }
+
             switch (result)
             {
                 case poll_status::read:
-                    ares_process_fd(m_ares_channel, fd, ARES_SOCKET_BAD);
+                    ares_process_fd(s->m_ares_channel, fd, ARES_SOCKET_BAD);
+                    failed = false;
                     break;
                 case poll_status::write:
-                    ares_process_fd(m_ares_channel, ARES_SOCKET_BAD, fd);
+                    ares_process_fd(s->m_ares_channel, ARES_SOCKET_BAD, fd);
+                    failed = false;
                     break;
-
                 case poll_status::timeout:
-                    ares_process_fd(m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);
+                    ares_process_fd(s->m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);
+                    failed = false;
                     break;
                 case poll_status::closed:
-                    // might need to do something like call with two ARES_SOCKET_BAD?
-                    m_active_sockets.erase(fd);
-                    break;
                 case poll_status::error:
-                    // might need to do something like call with two ARES_SOCKET_BAD?
-                    m_active_sockets.erase(fd);
-                    break;
                 case poll_status::cancelled:
-                    m_active_sockets.erase(fd);
+                    // Let c-ares discover what is wrong with the socket so it can move on to its next attempt. If it
+                    // doesn't see anything wrong the socket cannot be polled, fail the lookups.
+                    ares_process_fd(s->m_ares_channel, fd, fd);
+                    if (!socket->m_closed && std::exchange(failed, true))
+                    {
+                        ares_cancel(s->m_ares_channel);
+                        failed = false;
+                    }
                     break;
             }
         }
@@ -222,19 +302,29 @@ private:
             ops |= static_cast<uint64_t>(poll_op::write);
         }
 
-        auto fd       = static_cast<fd_t>(socket_fd);
-        auto poll_ops = static_cast<poll_op>(ops);
+        auto  fd       = static_cast<fd_t>(socket_fd);
+        auto  poll_ops = static_cast<poll_op>(ops);
+        auto& sockets  = self->m_state->m_active_sockets;
+        auto  found    = sockets.find(fd);
         if (ops != 0)
         {
-            auto [it, inserted] = self->m_active_sockets.insert_or_assign(fd, poll_ops);
-            if (inserted)
+            if (found != sockets.end())
             {
-                self->m_executor->spawn_detached(self->make_poll_task(fd));
+                found->second->m_ops = poll_ops;
+            }
+            else
+            {
+                auto socket = std::make_shared<active_socket>(fd, poll_ops);
+                sockets.emplace(fd, socket);
+                self->m_executor->spawn_detached(make_poll_task(self->m_state, std::move(socket), fd));
             }
         }
-        else
+        else if (found != sockets.end())
         {
-            self->m_active_sockets.erase(fd);
+            // c-ares is about to close this socket, wake up its poll task.
+            found->second->m_closed = true;
+            found->second->m_socket.shutdown(poll_op::read_write);
+            sockets.erase(found);
         }
     }
 
-- 
2.43.0


From 22982025a985d20077a57682b9c12cb251f12903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:28 +0000
Subject: [PATCH 35/46] fix: moving or assigning a pipe must not close
 descriptor 0 or leak descriptors

---
 include/coro/detail/pipe.hpp | 2 +-
 include/coro/poll.hpp        | 2 +-
 src/detail/pipe.cpp          | 6 ++++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/coro/detail/pipe.hpp b/include/coro/detail/pipe.hpp
index 8da95a0..0559797 100644
--- a/include/coro/detail/pipe.hpp
+++ b/include/coro/detail/pipe.hpp
@@ -28,7 +28,7 @@ public:
     auto close() -> void;
 
 private:
-    std::array<fd_t, 2> m_fds{-1};
+    std::array<fd_t, 2> m_fds{-1, -1};
 };
 
 } // namespace coro::detail
diff --git a/include/coro/poll.hpp b/include/coro/poll.hpp
index 22aca81..116cfbe 100644
--- a/include/coro/poll.hpp
+++ b/include/coro/poll.hpp
@@ -88,7 +88,7 @@ public:
     poll_stop_source() = default;
 
     poll_stop_source(const poll_stop_source&) = delete;
-    poll_stop_source(poll_stop_source&& other) { *this = std::move(other); }
+    poll_stop_source(poll_stop_source&& other) noexcept : m_pipe(std::move(other.m_pipe)) {}
 
     poll_stop_source& operator=(const poll_stop_source&) = delete;
     poll_stop_source& operator=(poll_stop_source&& other)
diff --git a/src/detail/pipe.cpp b/src/detail/pipe.cpp
index 281d9ba..b05629b 100644
--- a/src/detail/pipe.cpp
+++ b/src/detail/pipe.cpp
@@ -42,13 +42,14 @@ pipe_t::pipe_t(const pipe_t& other)
 
 pipe_t::pipe_t(pipe_t&& other) noexcept
 {
-    m_fds = std::exchange(other.m_fds, {-1});
+    m_fds = std::exchange(other.m_fds, {-1, -1});
 }
 
 auto pipe_t::operator=(const pipe_t& other) -> pipe_t&
 {
     if (std::addressof(other) != this)
     {
+        close();
         m_fds[0] = dup(other.m_fds[0]);
         m_fds[1] = dup(other.m_fds[1]);
     }
@@ -60,7 +61,8 @@ auto pipe_t::operator=(pipe_t&& other) noexcept -> pipe_t&
 {
     if (std::addressof(other) != this)
     {
-        m_fds = std::exchange(other.m_fds, {-1});
+        close();
+        m_fds = std::exchange(other.m_fds, {-1, -1});
     }
 
     return *this;
-- 
2.43.0


From cb54c24655fb1b09fa1c896afff6555a76bd07fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:28 +0000
Subject: [PATCH 36/46] fix: assigning a socket must close the socket it
 replaces and must survive self assignment

---
 src/net/socket.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/net/socket.cpp b/src/net/socket.cpp
index ed593e0..53318e1 100644
--- a/src/net/socket.cpp
+++ b/src/net/socket.cpp
@@ -19,8 +19,11 @@ auto socket::type_to_os(type_t type) -> int
 
 auto socket::operator=(const socket& other) noexcept -> socket&
 {
-    this->close();
-    this->m_fd = dup(other.m_fd);
+    if (std::addressof(other) != this)
+    {
+        this->close();
+        this->m_fd = dup(other.m_fd);
+    }
     return *this;
 }
 
@@ -28,6 +31,7 @@ auto socket::operator=(socket&& other) noexcept -> socket&
 {
     if (std::addressof(other) != this)
     {
+        this->close();
         m_fd = std::exchange(other.m_fd, -1);
     }
 
-- 
2.43.0


From c10a36d594fb3b5bd5a0412f8725ff91005804d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:51 +0000
Subject: [PATCH 37/46] fix: moving a tls client must carry its shutdown state
 and end the connection it replaces

---
 include/coro/net/tls/client.hpp |  2 ++
 src/net/tls/client.cpp          | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 6e6ed78..7ad3e36 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -351,6 +351,8 @@ private:
     /// Flag to signal if this tls client has already been shutdown or not.
     std::atomic<bool> m_shutdown{false};
 
+    /// Makes a single attempt to notify the peer that the connection ends if it wasn't shutdown.
+    auto notify_peer() noexcept -> void;
     auto tls_shutdown_and_free(std::chrono::milliseconds timeout = std::chrono::milliseconds{0}) -> coro::task<void>;
 };
 
diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index 89539ed..815584e 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -48,11 +48,17 @@ client::client(client&& other) noexcept
       m_endpoint(std::move(other.m_endpoint)),
       m_socket(std::move(other.m_socket)),
       m_connect_status(std::exchange(other.m_connect_status, std::nullopt)),
-      m_tls_info(std::move(other.m_tls_info))
+      m_tls_info(std::move(other.m_tls_info)),
+      m_shutdown(other.m_shutdown.exchange(false, std::memory_order::acq_rel))
 {
 }
 
 client::~client()
+{
+    notify_peer();
+}
+
+auto client::notify_peer() noexcept -> void
 {
     // If the user didn't shutdown the client try to notify the peer, without waiting since the thread running this
     // could be the one that is needed to drive the scheduler.
@@ -68,12 +74,17 @@ auto client::operator=(client&& other) noexcept -> client&
 {
     if (std::addressof(other) != this)
     {
+        // The connection this client held until now ends here.
+        notify_peer();
+
         m_scheduler   = std::exchange(other.m_scheduler, nullptr);
         m_tls_ctx        = std::move(other.m_tls_ctx);
         m_endpoint       = std::move(other.m_endpoint);
         m_socket         = std::move(other.m_socket);
         m_connect_status = std::exchange(other.m_connect_status, std::nullopt);
         m_tls_info       = std::move(other.m_tls_info);
+        m_shutdown.store(
+            other.m_shutdown.exchange(false, std::memory_order::acq_rel), std::memory_order::release);
     }
     return *this;
 }
-- 
2.43.0


From ea6c47d22bdf169475123477000045eede8042aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 38/46] fix: a failed allocation while starting a task must not
 leave the task counted

---
 include/coro/task_group.hpp | 21 +++++++++++++++++----
 src/scheduler.cpp           | 19 ++++++++++++++++---
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index 81bab62..f032203 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -143,17 +143,30 @@ public:
      */
     [[nodiscard]] auto start(coro::task<void>&& task) -> bool
     {
-        m_size.fetch_add(1, std::memory_order::release);
         auto wrapper_task = detail::make_task_self_deleting(std::move(task));
+        m_size.fetch_add(1, std::memory_order::release);
         wrapper_task.promise().user_final_suspend([this]() -> void { count_down(); });
 
-        // Kick it.
-        if (!m_executor->resume(wrapper_task.handle()))
+        auto abandon = [&]() -> void
         {
             // It will never run to delete itself.
             wrapper_task.handle().destroy();
             count_down();
-            return false;
+        };
+
+        // Kick it.
+        try
+        {
+            if (!m_executor->resume(wrapper_task.handle()))
+            {
+                abandon();
+                return false;
+            }
+        }
+        catch (...)
+        {
+            abandon();
+            throw;
         }
         return true;
     }
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index ef67425..51c2ce6 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -97,15 +97,28 @@ auto scheduler::process_events(std::chrono::milliseconds timeout) -> std::size_t
 
 auto scheduler::spawn_detached(coro::task<void>&& task) -> bool
 {
-    m_size.fetch_add(1, std::memory_order::release);
     auto wrapper_task = detail::make_task_self_deleting(std::move(task));
+    m_size.fetch_add(1, std::memory_order::release);
     wrapper_task.promise().user_final_suspend([this]() -> void { m_size.fetch_sub(1, std::memory_order::release); });
-    if (!resume(wrapper_task.handle()))
+    auto abandon = [&]() -> void
     {
         // It will never run to delete itself.
         wrapper_task.handle().destroy();
         m_size.fetch_sub(1, std::memory_order::release);
-        return false;
+    };
+
+    try
+    {
+        if (!resume(wrapper_task.handle()))
+        {
+            abandon();
+            return false;
+        }
+    }
+    catch (...)
+    {
+        abandon();
+        throw;
     }
     return true;
 }
-- 
2.43.0


From 8a2b3d6ff12dbf5b0898f581e62bf6a75e5571db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 39/46] fix: a failed allocation while setting up a time-out
 must not leave the operation counted or the descriptor watched

---
 include/coro/scheduler.hpp |  4 +++-
 src/scheduler.cpp          | 35 ++++++++++++++++++++++++-----------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index b6b0034..29c8bc4 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -577,7 +577,9 @@ private:
     auto process_event_execute(detail::poll_info* pi, poll_status status) -> void;
     auto process_timeout_execute() -> void;
 
-    auto add_timer_token(time_point tp, detail::poll_info& pi) -> timed_events::iterator;
+    /// Allocates what is needed to wait for the time, this is the only part of setting up a timeout that can fail.
+    static auto make_timer_token(time_point tp, detail::poll_info& pi) -> timed_events::node_type;
+    auto add_timer_token(timed_events::node_type&& token) -> timed_events::iterator;
     auto remove_timer_token(timed_events::iterator pos) -> void;
     auto update_timeout(time_point now) -> void;
 
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 51c2ce6..8f01473 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -145,13 +145,15 @@ auto scheduler::yield_until(time_point time) -> coro::task<void>
     }
     else
     {
+        detail::poll_info pi{};
+        auto              token = make_timer_token(time, pi);
+
         if (!try_add_size(1))
         {
             throw std::runtime_error{"coro::scheduler is shutdown, unable to schedule new tasks."};
         }
 
-        detail::poll_info pi{};
-        add_timer_token(time, pi);
+        add_timer_token(std::move(token));
         co_await pi;
     }
     co_return;
@@ -163,6 +165,12 @@ auto scheduler::poll(
     std::chrono::milliseconds      timeout,
     std::optional<poll_stop_token> cancel_trigger) -> coro::task<poll_status>
 {
+    auto pi = detail::poll_info{fd, op, cancel_trigger};
+
+    // Once the file descriptor is watched nothing is allowed to fail anymore, the event loop might already be waiting
+    // for this coroutine to suspend.
+    auto token = make_timer_token(clock::now() + timeout, pi);
+
     // Because the size will drop when this coroutine suspends every poll needs to undo the subtraction
     // on the number of active tasks in the scheduler.  When this task is resumed by the event loop.
     if (!try_add_size(1))
@@ -176,22 +184,19 @@ auto scheduler::poll(
 
     bool timeout_requested = (timeout > 0ms);
 
-    auto pi = detail::poll_info{fd, op, cancel_trigger};
-
-    auto deadline = clock::now() + timeout;
     if (!m_io_notifier.watch(pi))
     {
         std::cerr << "Failed to add " << fd << " to watch list\n";
 
         // The event loop might already be waiting for this coroutine to suspend, let it report the failure.
         pi.m_watch_failed = true;
-        deadline          = clock::now();
+        token.key()       = clock::now();
         timeout_requested = true;
     }
 
     if (timeout_requested)
     {
-        pi.m_timer_pos = add_timer_token(deadline, pi);
+        pi.m_timer_pos = add_timer_token(std::move(token));
     }
 
     // The event loop will 'clean-up' whichever event didn't win since the coroutine is scheduled
@@ -272,6 +277,9 @@ auto scheduler::yield_for_internal(std::chrono::nanoseconds amount) -> coro::tas
     }
     else
     {
+        detail::poll_info pi{};
+        auto              token = make_timer_token(clock::now() + amount, pi);
+
         // Yield/timeout tasks are considered live in the scheduler and must be accounted for. Note
         // that if the user gives an invalid amount and schedule() is directly called it will account
         // for the scheduled task there.
@@ -284,8 +292,7 @@ auto scheduler::yield_for_internal(std::chrono::nanoseconds amount) -> coro::tas
         // it doesn't have a corresponding 'event' that can trigger, it always waits for
         // the timeout to occur before resuming.
 
-        detail::poll_info pi{};
-        add_timer_token(clock::now() + amount, pi);
+        add_timer_token(std::move(token));
         co_await pi;
     }
     co_return;
@@ -532,10 +539,16 @@ auto scheduler::process_timeout_execute() -> void
     update_timeout(clock::now());
 }
 
-auto scheduler::add_timer_token(time_point tp, detail::poll_info& pi) -> timed_events::iterator
+auto scheduler::make_timer_token(time_point tp, detail::poll_info& pi) -> timed_events::node_type
+{
+    timed_events token{};
+    return token.extract(token.emplace(tp, &pi));
+}
+
+auto scheduler::add_timer_token(timed_events::node_type&& token) -> timed_events::iterator
 {
     std::scoped_lock lk{m_timed_events_mutex};
-    auto             pos = m_timed_events.emplace(tp, &pi);
+    auto             pos = m_timed_events.insert(std::move(token));
 
     // If this item was inserted as the smallest time point, update the timeout.
     if (pos == m_timed_events.begin())
-- 
2.43.0


From 583f92d5ca76c0f13606f4b44355875e73c517d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 40/46] fix: creating a scheduler must fail if its epoll or
 timer cannot be created

---
 src/detail/io_notifier_epoll.cpp |  6 ++++++
 src/detail/timer_handle.cpp      | 17 ++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 53515ee..518e9ad 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -3,8 +3,10 @@
 #include <cerrno>
 #include <chrono>
 #include <cstdint>
+#include <cstring>
 #include <fcntl.h>
 #include <stdexcept>
+#include <string>
 
 #include "coro/detail/poll_info.hpp"
 #include "coro/detail/timer_handle.hpp"
@@ -46,6 +48,10 @@ auto decode_udata(uint64_t encoded) -> std::tuple<bool, bool, void*>
 
 io_notifier_epoll::io_notifier_epoll() : m_fd{::epoll_create1(EPOLL_CLOEXEC)}
 {
+    if (m_fd == -1)
+    {
+        throw std::runtime_error{"Failed to create epoll, errno=[" + std::string{std::strerror(errno)} + "]"};
+    }
 }
 
 io_notifier_epoll::~io_notifier_epoll()
diff --git a/src/detail/timer_handle.cpp b/src/detail/timer_handle.cpp
index e32fee6..b16ea06 100644
--- a/src/detail/timer_handle.cpp
+++ b/src/detail/timer_handle.cpp
@@ -2,6 +2,10 @@
 
 #include "coro/io_notifier.hpp"
 
+#include <cerrno>
+#include <cstring>
+#include <stdexcept>
+#include <string>
 #include <unistd.h>
 
 namespace coro::detail
@@ -27,7 +31,18 @@ timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
     : m_fd(::timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK | TFD_CLOEXEC)),
       m_timer_handle_ptr(timer_handle_ptr)
 {
-    notifier.watch(m_fd, poll_op::read, const_cast<void*>(m_timer_handle_ptr), true);
+    if (m_fd == -1)
+    {
+        throw std::runtime_error{"Failed to create timerfd, errno=[" + std::string{std::strerror(errno)} + "]"};
+    }
+
+    if (!notifier.watch(m_fd, poll_op::read, const_cast<void*>(m_timer_handle_ptr), true))
+    {
+        const auto error = errno;
+        ::close(m_fd);
+        m_fd = -1;
+        throw std::runtime_error{"Failed to watch timerfd, errno=[" + std::string{std::strerror(error)} + "]"};
+    }
 }
 
 timer_handle::~timer_handle()
-- 
2.43.0


From c515507ae0d8705381a1e73a8b99872db0ca0941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 41/46] fix: when_any must report that its tasks could not be
 started

---
 include/coro/when_any.hpp | 88 +++++++++++++++++++++++++++++++--------
 1 file changed, 71 insertions(+), 17 deletions(-)

diff --git a/include/coro/when_any.hpp b/include/coro/when_any.hpp
index cef0ec6..84a8c6f 100644
--- a/include/coro/when_any.hpp
+++ b/include/coro/when_any.hpp
@@ -103,9 +103,27 @@ template<typename return_type, concepts::awaitable... awaitable_type, size_t...
     awaitable_type... awaitables) -> coro::detail::task_self_deleting
 {
     std::atomic<bool> first_completed{false};
-    co_await coro::when_all(
-        make_when_any_tuple_task<indices>(
-        first_completed, notify, return_value, exception, std::move(awaitables))...);
+    auto              failed = false;
+    try
+    {
+        co_await coro::when_all(
+            make_when_any_tuple_task<indices>(
+            first_completed, notify, return_value, exception, std::move(awaitables))...);
+    }
+    catch (...)
+    {
+        // The tasks could not be started.
+        failed = when_any_is_first(first_completed);
+        if (failed)
+        {
+            exception = std::current_exception();
+        }
+    }
+
+    if (failed)
+    {
+        notify.set();
+    }
     co_return;
 }
 
@@ -180,18 +198,36 @@ static auto make_when_any_controller_task_return_void(
     std::atomic<bool>             first_completed{false};
     std::vector<coro::task<void>> tasks{};
 
-    if constexpr (std::ranges::sized_range<range_type>)
+    auto failed = false;
+    try
     {
-        tasks.reserve(std::size(awaitables));
-    }
+        if constexpr (std::ranges::sized_range<range_type>)
+        {
+            tasks.reserve(std::size(awaitables));
+        }
 
-    for (auto&& a : awaitables)
+        for (auto&& a : awaitables)
+        {
+            tasks.emplace_back(
+                make_when_any_task_return_void<awaitable_type>(std::move(a), first_completed, notify, exception));
+        }
+
+        co_await coro::when_all(std::move(tasks));
+    }
+    catch (...)
     {
-        tasks.emplace_back(
-            make_when_any_task_return_void<awaitable_type>(std::move(a), first_completed, notify, exception));
+        // The tasks could not be started.
+        failed = when_any_is_first(first_completed);
+        if (failed)
+        {
+            exception = std::current_exception();
+        }
     }
 
-    co_await coro::when_all(std::move(tasks));
+    if (failed)
+    {
+        notify.set();
+    }
     co_return;
 }
 
@@ -214,18 +250,36 @@ static auto make_when_any_controller_task(
     // This detatched task will maintain the lifetime of all the when_any tasks.
     std::vector<coro::task<void>> tasks{};
 
-    if constexpr (std::ranges::sized_range<range_type>)
+    auto failed = false;
+    try
     {
-        tasks.reserve(std::size(awaitables));
-    }
+        if constexpr (std::ranges::sized_range<range_type>)
+        {
+            tasks.reserve(std::size(awaitables));
+        }
 
-    for (auto&& a : awaitables)
+        for (auto&& a : awaitables)
+        {
+            tasks.emplace_back(make_when_any_task<awaitable_type, return_type_base>(
+                std::move(a), first_completed, notify, return_value, exception));
+        }
+
+        co_await coro::when_all(std::move(tasks));
+    }
+    catch (...)
     {
-        tasks.emplace_back(make_when_any_task<awaitable_type, return_type_base>(
-            std::move(a), first_completed, notify, return_value, exception));
+        // The tasks could not be started.
+        failed = when_any_is_first(first_completed);
+        if (failed)
+        {
+            exception = std::current_exception();
+        }
     }
 
-    co_await coro::when_all(std::move(tasks));
+    if (failed)
+    {
+        notify.set();
+    }
     co_return;
 }
 
-- 
2.43.0


From e75a01ef95d67034a893a85edaff5c86189f4149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:45 +0000
Subject: [PATCH 42/46] fix: a default executor that could not be created must
 be created by a later call

---
 src/default_executor.cpp | 54 ++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/default_executor.cpp b/src/default_executor.cpp
index acb1ca5..6ae8610 100644
--- a/src/default_executor.cpp
+++ b/src/default_executor.cpp
@@ -23,16 +23,27 @@ void coro::default_executor::set_executor_options(thread_pool::options thread_po
 
 std::unique_ptr<coro::thread_pool>& coro::default_executor::executor()
 {
-    // If we're the first one here create the default executor.
-    if (s_default_executor_init.exchange(true) == false)
-    {
-        s_default_executor = coro::thread_pool::make_unique(s_default_executor_options);
-        s_default_executor_ptr.store(s_default_executor.get(), std::memory_order::release);
-    }
-
     while (s_default_executor_ptr.load(std::memory_order::acquire) == nullptr)
     {
-        std::this_thread::sleep_for(s_initialization_check_interval);
+        // If we're the first one here create the default executor.
+        if (s_default_executor_init.exchange(true) == false)
+        {
+            try
+            {
+                s_default_executor = coro::thread_pool::make_unique(s_default_executor_options);
+            }
+            catch (...)
+            {
+                // Let somebody else try, nobody can wait for an executor that will never be created.
+                s_default_executor_init.store(false);
+                throw;
+            }
+            s_default_executor_ptr.store(s_default_executor.get(), std::memory_order::release);
+        }
+        else
+        {
+            std::this_thread::sleep_for(s_initialization_check_interval);
+        }
     }
 
     return s_default_executor;
@@ -46,16 +57,27 @@ void coro::default_executor::set_io_executor_options(scheduler::options schedule
 
 std::unique_ptr<coro::scheduler>& coro::default_executor::io_executor()
 {
-    // If we're the first one here create the default executor.
-    if (s_default_io_executor_init.exchange(true) == false)
-    {
-        s_default_io_executor = coro::scheduler::make_unique(s_default_io_executor_options);
-        s_default_io_executor_ptr.store(s_default_io_executor.get(), std::memory_order::release);
-    }
-
     while (s_default_io_executor_ptr.load(std::memory_order::acquire) == nullptr)
     {
-        std::this_thread::sleep_for(s_initialization_check_interval);
+        // If we're the first one here create the default executor.
+        if (s_default_io_executor_init.exchange(true) == false)
+        {
+            try
+            {
+                s_default_io_executor = coro::scheduler::make_unique(s_default_io_executor_options);
+            }
+            catch (...)
+            {
+                // Let somebody else try, nobody can wait for an executor that will never be created.
+                s_default_io_executor_init.store(false);
+                throw;
+            }
+            s_default_io_executor_ptr.store(s_default_io_executor.get(), std::memory_order::release);
+        }
+        else
+        {
+            std::this_thread::sleep_for(s_initialization_check_interval);
+        }
     }
 
     return s_default_io_executor;
-- 
2.43.0


From 3d9ca98c2e01f57a8b9e79c5bf94dbdab664a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:25 +0000
Subject: [PATCH 43/46] fix: thread_pool::queue_size() must not read the queue
 without its lock

---
 include/coro/thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coro/thread_pool.hpp b/include/coro/thread_pool.hpp
index 9048b63..ee350d6 100644
--- a/include/coro/thread_pool.hpp
+++ b/include/coro/thread_pool.hpp
@@ -260,7 +260,7 @@ public:
      */
     auto queue_size() const noexcept -> std::size_t
     {
-        std::atomic_thread_fence(std::memory_order::acquire);
+        std::scoped_lock lk{m_wait_mutex};
         return m_queue.size();
     }
 
@@ -275,7 +275,7 @@ private:
     /// The background executor threads.
     std::vector<std::thread> m_threads;
     /// Mutex for executor threads to sleep on the condition variable.
-    std::mutex m_wait_mutex;
+    mutable std::mutex m_wait_mutex;
     /// Condition variable for each executor thread to wait on when no tasks are available.
     std::condition_variable_any m_wait_cv;
     /// FIFO queue of tasks waiting to be executed.
-- 
2.43.0


From dadfeeb4a6ea45108ec14bdafc048b7589c59a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:26 +0000
Subject: [PATCH 44/46] fix: parsing an ip address must not read beyond the
 given string_view

---
 include/coro/net/ip_address.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/coro/net/ip_address.hpp b/include/coro/net/ip_address.hpp
index c8b6866..7cf66e5 100644
--- a/include/coro/net/ip_address.hpp
+++ b/include/coro/net/ip_address.hpp
@@ -62,8 +62,10 @@ public:
         ip_address addr{};
         addr.m_domain = domain;
 
-        auto success = inet_pton(static_cast<int>(addr.m_domain), address.data(), addr.m_data.data());
-        if (success != 1)
+        // The view is neither required to be null terminated nor to end at the first null.
+        const std::string text{address};
+        auto success = inet_pton(static_cast<int>(addr.m_domain), text.c_str(), addr.m_data.data());
+        if (success != 1 || text.find('\0') != std::string::npos)
         {
             throw std::runtime_error{"coro::net::ip_address faild to convert from string"};
         }
-- 
2.43.0


From 52966527ea96ab809db4dd810b07fb384b6bc53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:17 +0000
Subject: [PATCH 45/46] fix: connect must not report success if the socket's
 error cannot be read

---
 src/net/tcp/client.cpp | 1 +
 src/net/tls/client.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/net/tcp/client.cpp b/src/net/tcp/client.cpp
index b0e0cef..94363de 100644
--- a/src/net/tcp/client.cpp
+++ b/src/net/tcp/client.cpp
@@ -111,6 +111,7 @@ auto client::connect(std::chrono::milliseconds timeout) -> coro::task<connect_st
                 if (getsockopt(m_socket.native_handle(), SOL_SOCKET, SO_ERROR, &result, &result_length) < 0)
                 {
                     std::cerr << "connect failed to getsockopt after write poll event\n";
+                    co_return return_value(connect_status::error);
                 }
 
                 if (result == 0)
diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index 815584e..1d430b9 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -134,6 +134,7 @@ auto client::connect(std::chrono::milliseconds timeout) -> coro::task<connection
                 if (getsockopt(m_socket.native_handle(), SOL_SOCKET, SO_ERROR, &result, &result_length) < 0)
                 {
                     std::cerr << "connect failed to getsockopt after write poll event\n";
+                    co_return return_value(connection_status::error);
                 }
 
                 if (result == 0)
-- 
2.43.0


From 20d21a48e479c0cb94fb10388017ce6157ca457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:41 +0000
Subject: [PATCH 46/46] fix: a very long timeout must not overflow into the
 past

clock::now() + timeout overflowed for e.g. milliseconds::max(): a poll, a yield, a task with a time limit or a
condition variable wait timed out at once.
---
 include/coro/condition_variable.hpp |  7 ++---
 include/coro/net/tls/client.hpp     |  5 ++--
 include/coro/scheduler.hpp          |  9 ++++---
 include/coro/time.hpp               | 40 +++++++++++++++++++++++++++++
 src/scheduler.cpp                   |  4 +--
 5 files changed, 54 insertions(+), 11 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index de23197..2d79173 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -5,6 +5,7 @@
 #include "coro/event.hpp"
 #include "coro/mutex.hpp"
 #include "coro/task.hpp"
+#include "coro/time.hpp"
 #include "coro/when_any.hpp"
 
 #include <atomic>
@@ -463,7 +464,7 @@ public:
         -> awaiter_with_wait<io_executor_type, std::cv_status>
     {
         return awaiter_with_wait<io_executor_type, std::cv_status>{
-            executor, *this, lock, std::chrono::duration_cast<std::chrono::nanoseconds>(wait_for)};
+            executor, *this, lock, detail::to_nanoseconds(wait_for)};
     }
 
     template<concepts::io_executor io_executor_type, class rep_type, class period_type>
@@ -477,7 +478,7 @@ public:
             executor,
             *this,
             lock,
-            std::chrono::duration_cast<std::chrono::nanoseconds>(wait_for),
+            detail::to_nanoseconds(wait_for),
             std::move(predicate)};
     }
 
@@ -493,7 +494,7 @@ public:
             executor,
             *this,
             lock,
-            std::chrono::duration_cast<std::chrono::nanoseconds>(wait_for),
+            detail::to_nanoseconds(wait_for),
             std::move(predicate),
             std::move(stop_token)};
     }
diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 7ad3e36..368c1cd 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -221,7 +221,8 @@ public:
         // If the client exists and it didn't have an error.
         if (m_tls_info.m_tls_ptr != nullptr && !m_tls_info.m_tls_error)
         {
-            co_await tls_shutdown_and_free(std::chrono::duration_cast<std::chrono::milliseconds>(timeout));
+            co_await tls_shutdown_and_free(
+                std::chrono::duration_cast<std::chrono::milliseconds>(detail::to_nanoseconds(timeout)));
         }
     }
 
@@ -236,7 +237,7 @@ private:
     {
         if (timeout.has_value() && timeout.value() > std::chrono::milliseconds{0})
         {
-            return std::chrono::steady_clock::now() + timeout.value();
+            return detail::time_after(std::chrono::steady_clock::now(), timeout.value());
         }
         return std::nullopt;
     }
diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 29c8bc4..59d7038 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -9,6 +9,7 @@
 #include "coro/io_notifier.hpp"
 #include "coro/poll.hpp"
 #include "coro/thread_pool.hpp"
+#include "coro/time.hpp"
 
 #ifdef LIBCORO_FEATURE_NETWORKING
     #include "coro/net/socket.hpp"
@@ -272,7 +273,7 @@ public:
         using namespace std::chrono_literals;
 
         // If negative or 0 timeout, just schedule the task as normal. Round up, the task must not be timed out early.
-        auto timeout_ms = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), 0ms);
+        auto timeout_ms = std::max(std::chrono::ceil<std::chrono::milliseconds>(detail::to_nanoseconds(timeout)), 0ms);
         if (timeout_ms == 0ms)
         {
             if constexpr (std::is_void_v<return_type>)
@@ -324,7 +325,7 @@ public:
         using namespace std::chrono_literals;
 
         // If negative or 0 timeout, just schedule the task as normal. Round up, the task must not be timed out early.
-        auto timeout_ms = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), 0ms);
+        auto timeout_ms = std::max(std::chrono::ceil<std::chrono::milliseconds>(detail::to_nanoseconds(timeout)), 0ms);
         if (timeout_ms == 0ms)
         {
             if constexpr (std::is_void_v<return_type>)
@@ -366,7 +367,7 @@ public:
     template<class rep_type, class period_type>
     [[nodiscard]] auto schedule_after(std::chrono::duration<rep_type, period_type> amount) -> coro::task<void>
     {
-        return yield_for_internal(std::chrono::duration_cast<std::chrono::nanoseconds>(amount));
+        return yield_for_internal(detail::to_nanoseconds(amount));
     }
 
     /**
@@ -389,7 +390,7 @@ public:
     template<class rep_type, class period_type>
     [[nodiscard]] auto yield_for(std::chrono::duration<rep_type, period_type> amount) -> coro::task<void>
     {
-        return yield_for_internal(std::chrono::duration_cast<std::chrono::nanoseconds>(amount));
+        return yield_for_internal(detail::to_nanoseconds(amount));
     }
 
     /**
diff --git a/include/coro/time.hpp b/include/coro/time.hpp
index 7411f3d..1a708a6 100644
--- a/include/coro/time.hpp
+++ b/include/coro/time.hpp
@@ -6,4 +6,44 @@ namespace coro
 {
 using clock      = std::chrono::steady_clock;
 using time_point = clock::time_point;
+
+namespace detail
+{
+/**
+ * @param amount Any duration, e.g. std::chrono::hours::max() to never time out.
+ * @return The duration in nanoseconds, rounded up and limited to the longest (or shortest) that can be expressed in nanoseconds.
+ */
+template<typename rep_type, typename period_type>
+constexpr auto to_nanoseconds(std::chrono::duration<rep_type, period_type> amount) -> std::chrono::nanoseconds
+{
+    using wide_nanoseconds = std::chrono::duration<long double, std::nano>;
+
+    const auto wide = wide_nanoseconds{amount};
+    if (wide >= wide_nanoseconds{std::chrono::nanoseconds::max()})
+    {
+        return std::chrono::nanoseconds::max();
+    }
+    if (wide <= wide_nanoseconds{std::chrono::nanoseconds::min()})
+    {
+        return std::chrono::nanoseconds::min();
+    }
+    return std::chrono::ceil<std::chrono::nanoseconds>(amount);
+}
+
+/**
+ * @param now The current time.
+ * @param amount The duration to add to it.
+ * @return The time after the given amount, limited to the last time the clock can express.
+ */
+template<typename rep_type, typename period_type>
+auto time_after(time_point now, std::chrono::duration<rep_type, period_type> amount) -> time_point
+{
+    const auto amount_ns = to_nanoseconds(amount);
+    if (amount_ns >= time_point::max() - now)
+    {
+        return time_point::max();
+    }
+    return now + std::chrono::duration_cast<time_point::duration>(amount_ns);
+}
+} // namespace detail
 } // namespace coro
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 8f01473..a6da1d0 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -169,7 +169,7 @@ auto scheduler::poll(
 
     // Once the file descriptor is watched nothing is allowed to fail anymore, the event loop might already be waiting
     // for this coroutine to suspend.
-    auto token = make_timer_token(clock::now() + timeout, pi);
+    auto token = make_timer_token(detail::time_after(clock::now(), timeout), pi);
 
     // Because the size will drop when this coroutine suspends every poll needs to undo the subtraction
     // on the number of active tasks in the scheduler.  When this task is resumed by the event loop.
@@ -278,7 +278,7 @@ auto scheduler::yield_for_internal(std::chrono::nanoseconds amount) -> coro::tas
     else
     {
         detail::poll_info pi{};
-        auto              token = make_timer_token(clock::now() + amount, pi);
+        auto              token = make_timer_token(detail::time_after(clock::now(), amount), pi);
 
         // Yield/timeout tasks are considered live in the scheduler and must be accounted for. Note
         // that if the user gives an invalid amount and schedule() is directly called it will account
-- 
2.43.0

