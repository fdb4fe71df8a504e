From 69de64f1510c6d7920990736560e3c8f35bcb39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:18 +0000
Subject: [PATCH 01/70] fix: size doubly mapped buffers to a multiple of the
 element size

For element sizes that do not divide the page size the buffer wrapped at
capacity*sizeof(T), short of the end of the mapping, so views across the
wrap returned bytes from the unused tail.
---
 include/cler_spsc-queue.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cler_spsc-queue.hpp b/include/cler_spsc-queue.hpp
index d4604a1..33cae33 100644
--- a/include/cler_spsc-queue.hpp
+++ b/include/cler_spsc-queue.hpp
@@ -19,6 +19,7 @@
 #include <limits>      // for numeric_limits
 #include <new>         // for std::hardware_destructive_interference_size
 #include <memory>      // for std::allocator_traits
+#include <numeric>     // for std::lcm
 #include <type_traits> // for std::is_default_constructible
 #include <utility>     // for forward
 #include <cstring>     // for std::memcpy
@@ -96,7 +97,10 @@ public:
           if (cler::platform::supports_doubly_mapped_buffers() && 
               buffer_bytes >= DOUBLY_MAPPED_MIN_SIZE) {
             const std::size_t page_size = cler::platform::get_page_size();
-            const std::size_t aligned_bytes = ((buffer_bytes + page_size - 1) / page_size) * page_size;
+            // The mapping repeats after a whole number of pages, so the capacity must fill it
+            // exactly: round up to a multiple of both the page size and the element size.
+            const std::size_t granule = std::lcm(page_size, sizeof(T));
+            const std::size_t aligned_bytes = ((buffer_bytes + granule - 1) / granule) * granule;
             return aligned_bytes / sizeof(T);  // Return page-aligned capacity
           }
           return requested_capacity;  // Return regular capacity
-- 
2.43.0


From 0b756f27bb55ffc144b5eb3abd231089fdc178b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:18 +0000
Subject: [PATCH 02/70] fix: refresh the cached write index in commit_read

Committing elements counted with size() left the cached index behind the
read index, after which pop()/try_pop() returned stale elements from an
empty queue.
---
 include/cler_spsc-queue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cler_spsc-queue.hpp b/include/cler_spsc-queue.hpp
index 33cae33..150b387 100644
--- a/include/cler_spsc-queue.hpp
+++ b/include/cler_spsc-queue.hpp
@@ -558,6 +558,9 @@ public:
     const auto capacity = base_type::capacity_;
     const auto readIndex = reader_.readIndex_.load(std::memory_order_relaxed);
     const auto nextReadIndex = (readIndex + count) % capacity;
+    // The caller may know about `count` elements from size() alone; without a refresh
+    // pop()/try_pop() would take the stale cached index for unread elements.
+    reader_.writeIndexCache_ = writer_.writeIndex_.load(std::memory_order_acquire);
     reader_.readIndex_.store(nextReadIndex, std::memory_order_release);
   }
 
-- 
2.43.0


From 3f2e45186c108ad95578391c7009a46c4793e466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:23 +0000
Subject: [PATCH 03/70] fix: keep doubly mapped buffers adjacent above the huge
 page size

Rounding the mapping up to the huge page size moved the second copy past the
end of the requested buffer, so views across the wrap of any buffer larger than
2 MB that is not a multiple of it did not see the start of the buffer.
---
 include/virtual_memory/cler_vmem_posix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/virtual_memory/cler_vmem_posix.hpp b/include/virtual_memory/cler_vmem_posix.hpp
index d344238..23997fb 100644
--- a/include/virtual_memory/cler_vmem_posix.hpp
+++ b/include/virtual_memory/cler_vmem_posix.hpp
@@ -80,16 +80,16 @@ public:
         
         // Get page sizes
         const std::size_t page_size = cler::platform::get_page_size();
-        std::size_t aligned_size = ((size + page_size - 1) / page_size) * page_size;
+        const std::size_t aligned_size = ((size + page_size - 1) / page_size) * page_size;
         
         // Determine if we should try huge pages
         bool use_huge_pages = false;
         
         #ifdef MAP_HUGETLB
         const std::size_t huge_page_size = get_huge_page_size();
-        if (huge_page_size > 0 && aligned_size >= huge_page_size) {
-            // Align to huge page boundary
-            aligned_size = ((size + huge_page_size - 1) / huge_page_size) * huge_page_size;
+        // Only when the size already is a multiple of the huge page size: growing the mapping
+        // would put the second copy beyond the end of the requested buffer.
+        if (huge_page_size > 0 && aligned_size >= huge_page_size && aligned_size % huge_page_size == 0) {
             use_huge_pages = true;
         }
         #endif
-- 
2.43.0


From 906c41fe7c05852ad851ff94da753a7f2242ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 04/70] fix: make the doubly mapped buffer probe thread-safe

Threads creating their first channel concurrently saw 'tested' set before
'supported' was known and silently got an ordinary buffer (and raced).
---
 include/cler_platform.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/cler_platform.hpp b/include/cler_platform.hpp
index 6ac191d..16dce69 100644
--- a/include/cler_platform.hpp
+++ b/include/cler_platform.hpp
@@ -124,16 +124,12 @@ namespace cler {
             return ps;
         }
 
-        // Runtime capability check with caching
-        inline bool supports_doubly_mapped_buffers() {
+        // Runtime capability probe
+        inline bool probe_doubly_mapped_buffers() {
             #if !defined(__linux__) && !defined(__APPLE__) && !defined(__FreeBSD__)
                 return false;
             #else
-                static bool tested = false;
-                static bool supported = false;
-                
-                if (tested) return supported;
-                tested = true;
+                bool supported = false;
                 
                 #if CLER_HAS_MMAP_H
                     // Try to create a small test mapping
@@ -211,6 +207,12 @@ namespace cler {
             #endif
         }
 
+        // Runtime capability check with caching (thread-safe: other threads wait for the probe)
+        inline bool supports_doubly_mapped_buffers() {
+            static const bool supported = probe_doubly_mapped_buffers();
+            return supported;
+        }
+
         // ============= Platform-Specific Performance Helpers =============
         // These are actually used by the desktop task policy
         
-- 
2.43.0


From 4566c1c9e2f7b6a8267c52f1ec641d0d856ea571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 05/70] fix: never use more fixed pool workers than the
 scheduler has queues

---
 include/cler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index 91f22ad..2b116ff 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -587,6 +587,8 @@ namespace cler {
                 run_thread_per_block(config);
             } else {
                 // Fewer workers than blocks - use fixed thread pool scheduler
+                // The scheduler has room for DEFAULT_MAX_WORKERS queues; blocks are shared among those
+                num_workers = std::min<size_t>(num_workers, DEFAULT_MAX_WORKERS);
                 // Initialize with contiguous block grouping (keeps producer->consumer chains together)
                 fixed_thread_pool_scheduler.initialize(_N, num_workers);
                 
-- 
2.43.0


From 334622e9bf37025cf74aa08f06a18efffba8924c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 06/70] fix: report a block's stats when it ends a
 thread-per-block run with a fatal error

---
 include/cler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 2b116ff..dfefc3d 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -393,7 +393,7 @@ namespace cler {
                             if (_on_err_terminate_cb) {
                                 _on_err_terminate_cb(_on_err_terminate_context);
                             }
-                            return;
+                            break;  // Stop flag is set: leave both loops and report the stats
                         }
 
                         if (err == Error::NotEnoughSpaceOrSamples || err == Error::NotEnoughSamples || err == Error::NotEnoughSpace) {
-- 
2.43.0


From 180633d9a4630acdb4df10c9a00e4ad864518f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 07/70] fix: start every run with fresh block stats and sleep
 state

---
 include/cler.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index dfefc3d..209cc01 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -475,8 +475,17 @@ namespace cler {
         std::array<std::chrono::high_resolution_clock::time_point, _N> _block_start_times;
         size_t _active_task_count{0};  // Track actual created tasks to fix stop() hang
         
-        // Initialize block stats with names (only if detailed stats enabled)
+        // Initialize block stats: every run starts from zero, names only if detailed stats enabled
         void initialize_block_stats() {
+            for (auto& stats : _stats) {
+                stats.successful_procedures = 0;
+                stats.failed_procedures = 0;
+                stats.total_dead_time_s = 0.0;
+                stats.total_runtime_s = 0.0;
+                stats.final_adaptive_sleep_us = 0.0;
+                stats.current_adaptive_sleep_us.store(0.0);
+                stats.consecutive_fails.store(0);
+            }
             if (_config.collect_detailed_stats) {
                 init_stats_impl(std::make_index_sequence<_N>{});
             }
-- 
2.43.0


From 017bf3ffbf9b55ab1f82c7ce64fdcd7eeb3c2c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 08/70] fix: count only starved calls after the last success
 towards adaptive sleep

---
 include/cler.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 209cc01..c2803b0 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -400,6 +400,10 @@ namespace cler {
                             if (config.collect_detailed_stats) {
                                 total_dead_time_s += dt.count();
                             }
+                            if (did_work_in_batch) {
+                                handle_adaptive_sleep(I, true);  // The work came first: it ended any earlier starvation
+                                did_work_in_batch = false;
+                            }
                             handle_adaptive_sleep(I, false);
                             break;  // Exit micro-batch loop
                         } else {
@@ -681,6 +685,7 @@ namespace cler {
             auto& stats = _stats[I];
             
             bool did_work = false;
+            bool work_handled = false;
             
             // Micro-batching: run block multiple times if it's making progress
             for (size_t c = 0; c < config.max_calls_per_tick && !_stop_flag; ++c) {
@@ -706,6 +711,10 @@ namespace cler {
                     // No progress - leave the burst early to let others run
                     if (err == Error::NotEnoughSamples || err == Error::NotEnoughSpace ||
                         err == Error::NotEnoughSpaceOrSamples) {
+                        if (did_work) {
+                            handle_adaptive_sleep(I, true);  // The work came first: it ended any earlier starvation
+                            work_handled = true;
+                        }
                         handle_adaptive_sleep(I, false);
                         break;  // Exit micro-batch loop
                     } else {
@@ -722,7 +731,7 @@ namespace cler {
                 }
             }
             
-            if (did_work) {
+            if (did_work && !work_handled) {
                 handle_adaptive_sleep(I, true);
             }
             
-- 
2.43.0


From e24123e5950f6a8d3a4308436c93b17cba8cf48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 09/70] fix: keep ThreadX kernel objects at a stable address

---
 .../task_policies/cler_threadx_tpolicy.hpp    | 53 ++++++++-----------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/include/task_policies/cler_threadx_tpolicy.hpp b/include/task_policies/cler_threadx_tpolicy.hpp
index b35cd7b..019dcef 100644
--- a/include/task_policies/cler_threadx_tpolicy.hpp
+++ b/include/task_policies/cler_threadx_tpolicy.hpp
@@ -27,20 +27,19 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
     using TaskPolicyBase<ThreadXTaskPolicy>::relax;
     using TaskPolicyBase<ThreadXTaskPolicy>::pin_to_core;
     
-    // Structure to hold task data
+    // Structure to hold task data. The kernel objects live here, at a stable heap address:
+    // the kernel links them by address, so they must not move with the wrapper.
     struct TaskData {
         void* callable;
         void (*invoke)(void*);
         void (*destroy)(void*);
-        TX_SEMAPHORE* completion_sem;
-        volatile bool task_completed;
+        TX_THREAD thread;
+        TX_SEMAPHORE completion_sem;
+        UCHAR* stack_memory;
     };
     
     struct TaskWrapper {
-        TX_THREAD thread;
-        TX_SEMAPHORE completion_sem;
         TaskData* task_data;
-        UCHAR* stack_memory;
         volatile bool task_completed;
         bool is_valid;
     };
@@ -66,43 +65,38 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
         wrapper.task_completed = false;
         wrapper.task_data = nullptr;
         
-        // Allocate stack memory
-        wrapper.stack_memory = new UCHAR[CLER_THREADX_STACK_SIZE];
-        if (!wrapper.stack_memory) {
-            return wrapper; // Failed allocation
-        }
+        // Allocate task data (value-initialized: control blocks start zeroed)
+        auto* task_data = new TaskData();
         
         // Create completion semaphore
         static char sem_name[] = "ClerCompletionSem";
         UINT status = tx_semaphore_create(
-            &wrapper.completion_sem,
+            &task_data->completion_sem,
             sem_name,
             0  // Initial count
         );
         
         if (status != TX_SUCCESS) {
-            delete[] wrapper.stack_memory;
+            delete task_data;
             return wrapper;
         }
         
-        // Allocate task data
+        // Allocate stack memory
+        task_data->stack_memory = new UCHAR[CLER_THREADX_STACK_SIZE];
+        
         using FuncType = typename std::decay<Func>::type;
-        auto* task_data = new TaskData;
         task_data->callable = new FuncType(std::forward<Func>(f));
         task_data->invoke = &TaskHelper<FuncType>::invoke;
         task_data->destroy = &TaskHelper<FuncType>::destroy;
-        task_data->completion_sem = &wrapper.completion_sem;
-        task_data->task_completed = false;
-        wrapper.task_data = task_data;
         
         // Create ThreadX thread
         static char thread_name[] = "ClerThread";
         status = tx_thread_create(
-            &wrapper.thread,                    // Thread control block
+            &task_data->thread,                 // Thread control block
             thread_name,                        // Thread name
             thread_entry_point,                 // Thread entry function
             (ULONG)task_data,                  // Thread input
-            wrapper.stack_memory,               // Stack start
+            task_data->stack_memory,            // Stack start
             CLER_THREADX_STACK_SIZE,           // Stack size
             CLER_THREADX_PRIORITY,             // Priority
             CLER_THREADX_PREEMPT_THRESHOLD,    // Preemption threshold
@@ -111,14 +105,14 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
         );
         
         if (status != TX_SUCCESS) {
-            tx_semaphore_delete(&wrapper.completion_sem);
+            tx_semaphore_delete(&task_data->completion_sem);
             task_data->destroy(task_data->callable);
+            delete[] task_data->stack_memory;
             delete task_data;
-            delete[] wrapper.stack_memory;
-            wrapper.task_data = nullptr;
             return wrapper;
         }
         
+        wrapper.task_data = task_data;
         wrapper.is_valid = true;
         return wrapper;
     }
@@ -126,20 +120,19 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
     static void join_task(task_type& wrapper) {
         if (wrapper.is_valid && wrapper.task_data && !wrapper.task_completed) {
             // Wait for thread completion
-            tx_semaphore_get(&wrapper.completion_sem, TX_WAIT_FOREVER);
+            tx_semaphore_get(&wrapper.task_data->completion_sem, TX_WAIT_FOREVER);
             
             // Clean up thread
-            tx_thread_terminate(&wrapper.thread);
-            tx_thread_delete(&wrapper.thread);
-            tx_semaphore_delete(&wrapper.completion_sem);
+            tx_thread_terminate(&wrapper.task_data->thread);
+            tx_thread_delete(&wrapper.task_data->thread);
+            tx_semaphore_delete(&wrapper.task_data->completion_sem);
             
             // Clean up memory
             wrapper.task_data->destroy(wrapper.task_data->callable);
+            delete[] wrapper.task_data->stack_memory;
             delete wrapper.task_data;
-            delete[] wrapper.stack_memory;
             
             wrapper.task_data = nullptr;
-            wrapper.stack_memory = nullptr;
             wrapper.is_valid = false;
             wrapper.task_completed = true;
         }
@@ -168,7 +161,7 @@ private:
         }
         
         // Signal completion
-        tx_semaphore_put(data->completion_sem);
+        tx_semaphore_put(&data->completion_sem);
         
         // Thread will be cleaned up by join_task
     }
-- 
2.43.0


From fc0576f88ad74fa3a280d04ce17e75e2e34da499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 10/70] fix: keep Zephyr kernel objects at a stable address

---
 include/task_policies/cler_zephyr_tpolicy.hpp | 40 +++++++++----------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/include/task_policies/cler_zephyr_tpolicy.hpp b/include/task_policies/cler_zephyr_tpolicy.hpp
index 5961011..eceb478 100644
--- a/include/task_policies/cler_zephyr_tpolicy.hpp
+++ b/include/task_policies/cler_zephyr_tpolicy.hpp
@@ -19,18 +19,19 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
     using TaskPolicyBase<ZephyrTaskPolicy>::relax;
     using TaskPolicyBase<ZephyrTaskPolicy>::pin_to_core;
     
+    // The kernel objects live here, at a stable heap address: the kernel links them
+    // by address, so they must not move with the wrapper.
     struct TaskData {
         void* callable;
         void (*invoke)(void*);
         void (*destroy)(void*);
-        struct k_sem* completion_sem;
+        struct k_thread thread_data;
+        struct k_sem completion_sem;
+        k_thread_stack_t* stack_mem;
     };
 
     struct TaskWrapper {
-        struct k_thread thread_data;
-        k_thread_stack_t* stack_mem;
-        struct k_sem completion_sem;
-        TaskData* task_data;
+        TaskData* task_data = nullptr;
         bool task_completed = false;
     };
 
@@ -51,23 +52,19 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
     static task_type create_task(Func&& f) {
         task_type wrapper;
 
-        wrapper.stack_mem = new k_thread_stack_t[CLER_ZEPHYR_STACK_SIZE];
-        if (!wrapper.stack_mem) return wrapper;
-
-        k_sem_init(&wrapper.completion_sem, 0, 1);
-
         using FuncType = typename std::decay<Func>::type;
-        auto* task_data = new TaskData{
-            new FuncType(std::forward<Func>(f)),
-            &TaskHelper<FuncType>::invoke,
-            &TaskHelper<FuncType>::destroy,
-            &wrapper.completion_sem
-        };
+        auto* task_data = new TaskData();
+        task_data->callable = new FuncType(std::forward<Func>(f));
+        task_data->invoke = &TaskHelper<FuncType>::invoke;
+        task_data->destroy = &TaskHelper<FuncType>::destroy;
+        task_data->stack_mem = new k_thread_stack_t[CLER_ZEPHYR_STACK_SIZE];
+
+        k_sem_init(&task_data->completion_sem, 0, 1);
 
         wrapper.task_data = task_data;
 
-        k_thread_create(&wrapper.thread_data,
-                        wrapper.stack_mem,
+        k_thread_create(&task_data->thread_data,
+                        task_data->stack_mem,
                         CLER_ZEPHYR_STACK_SIZE,
                         thread_entry_point,
                         task_data, nullptr, nullptr,
@@ -79,11 +76,12 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
 
     static void join_task(task_type& wrapper) {
         if (!wrapper.task_completed && wrapper.task_data) {
-            k_sem_take(&wrapper.completion_sem, K_FOREVER);
+            k_sem_take(&wrapper.task_data->completion_sem, K_FOREVER);
 
             wrapper.task_data->destroy(wrapper.task_data->callable);
+            delete[] wrapper.task_data->stack_mem;
             delete wrapper.task_data;
-            delete[] wrapper.stack_mem;
+            wrapper.task_data = nullptr;
             wrapper.task_completed = true;
         }
     }
@@ -101,7 +99,7 @@ private:
         auto* data = static_cast<TaskData*>(p1);
         if (data && data->callable && data->invoke) {
             data->invoke(data->callable);
-            k_sem_give(data->completion_sem);
+            k_sem_give(&data->completion_sem);
         }
     }
 };
-- 
2.43.0


From 7317e33042b881e9890fd344cc4a9b88f64a0a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:44 +0000
Subject: [PATCH 11/70] fix: free a Zephyr task's stack only after its thread
 is gone

---
 .../zephyr_examples/mock_environment/zephyr/kernel.h        | 6 ++++++
 include/task_policies/cler_zephyr_tpolicy.hpp               | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h b/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h
index 43d3987..e0e4d49 100644
--- a/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h
+++ b/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h
@@ -150,6 +150,12 @@ static inline void k_thread_join_and_destroy(k_thread_t* thread) {
     thread->entry_func = nullptr;
 }
 
+static inline int k_thread_join(k_thread_t* thread, int32_t timeout) {
+    (void)timeout;  // Mock: only K_FOREVER is supported
+    k_thread_join_and_destroy(thread);
+    return 0;
+}
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/include/task_policies/cler_zephyr_tpolicy.hpp b/include/task_policies/cler_zephyr_tpolicy.hpp
index eceb478..5c106f3 100644
--- a/include/task_policies/cler_zephyr_tpolicy.hpp
+++ b/include/task_policies/cler_zephyr_tpolicy.hpp
@@ -78,6 +78,9 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
         if (!wrapper.task_completed && wrapper.task_data) {
             k_sem_take(&wrapper.task_data->completion_sem, K_FOREVER);
 
+            // The thread still runs on its stack after signalling: wait until it is gone
+            k_thread_join(&wrapper.task_data->thread_data, K_FOREVER);
+
             wrapper.task_data->destroy(wrapper.task_data->callable);
             delete[] wrapper.task_data->stack_mem;
             delete wrapper.task_data;
-- 
2.43.0


From 3ec15950534efbdd62db98b61dc00fa126801fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 12/70] fix: report a failed read of SourceFileBlock as an I/O
 error, not as the end of the file

---
 desktop_blocks/sources/source_file.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/desktop_blocks/sources/source_file.hpp b/desktop_blocks/sources/source_file.hpp
index d3b2a99..8f1f8b2 100644
--- a/desktop_blocks/sources/source_file.hpp
+++ b/desktop_blocks/sources/source_file.hpp
@@ -43,6 +43,9 @@ struct SourceFileBlock : public cler::BlockBase {
         size_t samples_read = _file.gcount() / sizeof(T);
         
         if (samples_read == 0) {
+            if (_file.bad()) {
+                return cler::Error::TERM_IOError; // a failed read is not the end of the file
+            }
             if (_file.eof() && _repeat) {
                 _file.clear(); // Clear EOF flag
                 _file.seekg(0, std::ios::beg);
-- 
2.43.0


From 4131ed2cdac8b84dd27a0072ccd0a0ef0f662e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 13/70] fix: keep resampled samples that do not fit the output
 instead of dropping them

---
 .../resamplers/multistage_resampler.hpp       | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/desktop_blocks/resamplers/multistage_resampler.hpp b/desktop_blocks/resamplers/multistage_resampler.hpp
index 906f368..3cc8978 100644
--- a/desktop_blocks/resamplers/multistage_resampler.hpp
+++ b/desktop_blocks/resamplers/multistage_resampler.hpp
@@ -56,7 +56,8 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
         }
         
         // Allocate output buffer (sized for maximum expansion case)
-        size_t output_buffer_size = static_cast<size_t>(_buffer_size * _ratio + 100); // Extra space for safety
+        // The resampler can emit a few more than n * ratio samples, in bursts of up to about 2 * ratio
+        size_t output_buffer_size = static_cast<size_t>(_buffer_size * _ratio + 4.0f * _ratio + 100); // Extra space for safety
         _output_buffer = new T[output_buffer_size];
         if (!_output_buffer) {
             delete[] _input_buffer;
@@ -91,7 +92,7 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
         size_t available_input = in.size();
         size_t available_output = out->space();
         
-        if (available_input == 0) {
+        if (available_input == 0 && _pending_count == 0) {
             return cler::Error::NotEnoughSamples;
         }
         
@@ -99,11 +100,19 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
             return cler::Error::NotEnoughSpace;
         }
         
+        // First hand over what did not fit last time
+        if (_pending_count > 0) {
+            size_t written = out->writeN(_output_buffer + _pending_start, std::min(_pending_count, available_output));
+            _pending_start += written;
+            _pending_count -= written;
+            return cler::Empty{};
+        }
+        
         // Calculate max input samples we can process given output space and buffer size
         // For downsample (ratio < 1), we need more input samples than output space
         // For upsample (ratio > 1), we need fewer input samples than output space
         size_t max_input_by_output = static_cast<size_t>(available_output / _ratio);
-        size_t max_input = std::min({available_input, max_input_by_output, _buffer_size});
+        size_t max_input = std::min({available_input, std::max<size_t>(max_input_by_output, 1), _buffer_size});
         
         // Read input samples
         in.readN(_input_buffer, max_input);
@@ -128,8 +137,10 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
             );
         }
         
-        // Write resampled output
-        out->writeN(_output_buffer, n_resampled);
+        // Write resampled output and keep what does not fit for the next call
+        size_t written = out->writeN(_output_buffer, std::min<size_t>(n_resampled, available_output));
+        _pending_start = written;
+        _pending_count = n_resampled - written;
 
         return cler::Empty{};
     }
@@ -138,6 +149,8 @@ private:
     float _ratio;
     size_t _buffer_size;
     size_t _output_buffer_size;
+    size_t _pending_start = 0; // samples of _output_buffer not yet handed over
+    size_t _pending_count = 0;
     
     T* _input_buffer = nullptr;
     T* _output_buffer = nullptr;
-- 
2.43.0


From d509e495cd2e9dd50024fd9ce19afec23c8d4b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 14/70] fix: return blob slots also without assertions, and
 from more than one thread

---
 desktop_blocks/blob.cpp | 6 +++++-
 desktop_blocks/blob.hpp | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/blob.cpp b/desktop_blocks/blob.cpp
index 9ff587e..e8fe5d4 100644
--- a/desktop_blocks/blob.cpp
+++ b/desktop_blocks/blob.cpp
@@ -31,5 +31,9 @@ cler::Result<Blob, cler::Error> Slab::take_slot() {
 }
 
 void Slab::release_slot(size_t slot_idx) {
-    assert(_free_slots.try_push(slot_idx));
+    // Slots come back from whichever thread drops a blob, and the free list takes one producer at a time
+    std::lock_guard<std::mutex> lock(_release_mutex);
+    bool released = _free_slots.try_push(slot_idx);
+    assert(released && "BUG: more slots released than taken");
+    (void)released;
 }
\ No newline at end of file
diff --git a/desktop_blocks/blob.hpp b/desktop_blocks/blob.hpp
index 453abfa..3035a0d 100644
--- a/desktop_blocks/blob.hpp
+++ b/desktop_blocks/blob.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "cler.hpp"
 #include <memory>
+#include <mutex>
 
 struct Slab;
 
@@ -30,4 +31,5 @@ private:
     size_t _max_blob_size;
     std::unique_ptr<uint8_t[]> _data;
     cler::Channel<size_t> _free_slots;
+    std::mutex _release_mutex;
 };
\ No newline at end of file
-- 
2.43.0


From 75329085879f08690574b8508b3ffc7cb4c00334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 15/70] fix: keep the elements behind a failed send in the UDP
 sink's input

---
 desktop_blocks/udp/sink_udp.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/desktop_blocks/udp/sink_udp.hpp b/desktop_blocks/udp/sink_udp.hpp
index 068e424..437f436 100644
--- a/desktop_blocks/udp/sink_udp.hpp
+++ b/desktop_blocks/udp/sink_udp.hpp
@@ -33,24 +33,23 @@ struct SinkUDPSocketBlock : public cler::BlockBase {
             return cler::Empty{};
         }
 
-        T buffer[available];
-        in.readN(buffer, available);
-
         for (size_t i = 0; i < available; ++i) {
             ssize_t bytes;
+            T item;
+            in.pop(item); // one by one, so that an error leaves the rest in the channel
 
             if constexpr (IS_BLOB) {
                 // Blob-specific: send blob data and release slot
-                bytes = _socket.send(buffer[i].data, buffer[i].len);
+                bytes = _socket.send(item.data, item.len);
                 if (_callback) {
-                    _callback(buffer[i], _callback_context);
+                    _callback(item, _callback_context);
                 }
-                buffer[i].release();
+                item.release();
             } else {
                 // Generic fixed-size
-                bytes = _socket.send(reinterpret_cast<const uint8_t*>(&buffer[i]), sizeof(T));
+                bytes = _socket.send(reinterpret_cast<const uint8_t*>(&item), sizeof(T));
                 if (_callback) {
-                    _callback(buffer[i], _callback_context);
+                    _callback(item, _callback_context);
                 }
             }
 
-- 
2.43.0


From 02d2e9cd2e567025de2038fc98425988809f3731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 16/70] fix: deliver every datagram a UDP source has received,
 in the call that received it

---
 desktop_blocks/udp/source_udp.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/desktop_blocks/udp/source_udp.hpp b/desktop_blocks/udp/source_udp.hpp
index ae9cb41..b982995 100644
--- a/desktop_blocks/udp/source_udp.hpp
+++ b/desktop_blocks/udp/source_udp.hpp
@@ -38,17 +38,18 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
             return cler::Error::NotEnoughSpace;
         }
 
-        T buffer[available];
-        size_t count = 0;
+        size_t count = 0; // elements delivered in this call
 
         for (size_t i = 0; i < available; ++i) {
+            // Wait for the first datagram only: what has been received must not be held up
+            const int flags = count > 0 ? MSG_DONTWAIT : 0;
             if constexpr (IS_BLOB) {
                 // Blob-specific: slab pooling
                 auto result = _slab.take_slot();
                 if (result.is_err()) break;
 
                 Blob blob = result.unwrap();
-                ssize_t bytes = _socket.recv(blob.data, blob.len);
+                ssize_t bytes = _socket.recv(blob.data, blob.len, flags);
 
                 if (bytes == 0) {
                     blob.release();
@@ -87,28 +88,27 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
                     _callback(blob, _callback_context);
                 }
 
-                buffer[count++] = blob;
+                out->push(blob);
+                count++;
             } else {
                 // Generic fixed-size
-                ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&buffer[i]), sizeof(T));
+                T item{};
+                ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&item), sizeof(T), flags);
                 if (bytes <= 0) break;
 
-                if (_validate && !_validate(buffer[i], _validate_context)) {
+                if (_validate && !_validate(item, _validate_context)) {
                     continue;
                 }
 
                 if (_callback) {
-                    _callback(buffer[i], _callback_context);
+                    _callback(item, _callback_context);
                 }
 
+                out->push(item);
                 count++;
             }
         }
 
-        if (count > 0) {
-            out->writeN(buffer, count);
-        }
-
         return cler::Empty{};
     }
 
-- 
2.43.0


From 18659ebbd90d2080e6e171598c5b6b8863ca60f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 17/70] fix: bound the time a UDP source waits for data, so
 that a flowgraph can be stopped

---
 desktop_blocks/udp/shared.hpp     | 1 +
 desktop_blocks/udp/source_udp.hpp | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/udp/shared.hpp b/desktop_blocks/udp/shared.hpp
index 522ea32..f5a5cd6 100644
--- a/desktop_blocks/udp/shared.hpp
+++ b/desktop_blocks/udp/shared.hpp
@@ -3,6 +3,7 @@
 #include <stdexcept>
 #include <cstring>
 #include <cerrno>
+#include <chrono>
 
 #include <sys/socket.h>
 #include <arpa/inet.h>
diff --git a/desktop_blocks/udp/source_udp.hpp b/desktop_blocks/udp/source_udp.hpp
index b982995..bf893ef 100644
--- a/desktop_blocks/udp/source_udp.hpp
+++ b/desktop_blocks/udp/source_udp.hpp
@@ -26,7 +26,11 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
           _validate(validate),
           _validate_context(callback_context),
           _callback(callback),
-          _callback_context(callback_context) {}
+          _callback_context(callback_context)
+    {
+        // A call may wait for data, but not so long that the flowgraph cannot be stopped
+        _socket.set_receive_timeout(std::chrono::milliseconds(100));
+    }
 
     cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<T>* out) {
         if (!_socket.is_valid()) {
-- 
2.43.0


From 0a7487abfdbf4f284a01799794e5863ea2085546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 18/70] fix: reject UDP ports with anything but digits

---
 desktop_blocks/udp/shared.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/desktop_blocks/udp/shared.cpp b/desktop_blocks/udp/shared.cpp
index c8a68cd..3f1afc1 100644
--- a/desktop_blocks/udp/shared.cpp
+++ b/desktop_blocks/udp/shared.cpp
@@ -22,6 +22,10 @@ ParsedAddress parse_address_string(SocketType type, const std::string& addr_str)
     result.address = addr_str.substr(0, colon_pos);
     std::string port_str = addr_str.substr(colon_pos + 1);
     
+    if (port_str.empty() || port_str.find_first_not_of("0123456789") != std::string::npos) {
+        throw std::runtime_error("Invalid port number: " + port_str);
+    }
+
     try {
         int port_int = std::stoi(port_str);
         if (port_int < 0 || port_int > 65535) {
-- 
2.43.0


From 282de351f7f9890ba76b7a7fdaec828dbee2cc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 19/70] fix: bind UDP receivers to the address they are given

---
 desktop_blocks/udp/shared.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/desktop_blocks/udp/shared.cpp b/desktop_blocks/udp/shared.cpp
index 3f1afc1..206f3d0 100644
--- a/desktop_blocks/udp/shared.cpp
+++ b/desktop_blocks/udp/shared.cpp
@@ -134,6 +134,9 @@ void GenericDatagramSocket::bind(const std::string& bind_addr_or_path, uint16_t
         local_addr.sin_family = AF_INET;
         local_addr.sin_port = htons(port);
         local_addr.sin_addr.s_addr = INADDR_ANY;
+        if (!bind_addr_or_path.empty() && inet_pton(AF_INET, bind_addr_or_path.c_str(), &local_addr.sin_addr) <= 0) {
+            throw std::runtime_error("GenericDatagramSocket: invalid IPv4 address: " + bind_addr_or_path);
+        }
 
         // Enable address reuse for quick rebinding
         int opt = 1;
@@ -150,6 +153,9 @@ void GenericDatagramSocket::bind(const std::string& bind_addr_or_path, uint16_t
         local_addr6.sin6_family = AF_INET6;
         local_addr6.sin6_port = htons(port);
         local_addr6.sin6_addr = in6addr_any;
+        if (!bind_addr_or_path.empty() && inet_pton(AF_INET6, bind_addr_or_path.c_str(), &local_addr6.sin6_addr) <= 0) {
+            throw std::runtime_error("GenericDatagramSocket: invalid IPv6 address: " + bind_addr_or_path);
+        }
 
         int opt = 1;
         if (setsockopt(_sockfd, SOL_SOCKET, SO_REUSEADDR, &opt, sizeof(opt)) < 0) {
-- 
2.43.0


From 22880c3746dad2ebbb6b5b41457d61a41053dc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:31 +0000
Subject: [PATCH 20/70] fix: ADS-B detectors no longer scan past buffers
 shorter than one message

---
 desktop_blocks/adsb/modes.c      | 2 +-
 desktop_blocks/adsb/modes_2400.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index e7d52e3..3a8afbe 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -859,7 +859,7 @@ void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callba
 	// 8   --
 	// 9   -------------------
 
-	for (j = 0; j < maglen - MODE_S_FULL_LEN*2; j++)
+	for (j = 0; j + MODE_S_FULL_LEN*2 <= maglen; j++)
 	{
 		int low, high, delta, i, errors;
 		int good_message = 0;
diff --git a/desktop_blocks/adsb/modes_2400.c b/desktop_blocks/adsb/modes_2400.c
index bee74fe..6b7831d 100644
--- a/desktop_blocks/adsb/modes_2400.c
+++ b/desktop_blocks/adsb/modes_2400.c
@@ -28,7 +28,7 @@ void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_c
 
     msg = msg1;
 
-    for (j = 0; j < maglen - 300; j++) {
+    for (j = 0; j + 300 <= maglen; j++) {
         uint16_t *preamble = &mag[j];
         int high;
         uint32_t base_signal, base_noise;
-- 
2.43.0


From aaadf6b5b4336418a0a36757d4ab5ed19f22156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:31 +0000
Subject: [PATCH 21/70] fix: ADS-B detectors resume right behind a decoded
 message

---
 desktop_blocks/adsb/modes.c      | 3 ++-
 desktop_blocks/adsb/modes_2400.c | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index 3a8afbe..e3fcae9 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -1023,7 +1023,8 @@ void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callba
 			// Skip this message if we are sure it's fine.
 			if (mm.crcok) 
 			{
-				j += (MODE_S_PREAMBLE_US+(msglen*8))*2;
+				// (the loop itself adds the last sample)
+				j += (MODE_S_PREAMBLE_US+(msglen*8))*2 - 1;
 				good_message = 1;
 				if (use_correction)
 				mm.phase_corrected = 1;
diff --git a/desktop_blocks/adsb/modes_2400.c b/desktop_blocks/adsb/modes_2400.c
index 6b7831d..37c0525 100644
--- a/desktop_blocks/adsb/modes_2400.c
+++ b/desktop_blocks/adsb/modes_2400.c
@@ -208,6 +208,10 @@ void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_c
             mode_s_decode(self, &mm, bestmsg);
             if (mm.crcok) {
                 cb(self, &mm, cb_context);
+
+                // Resume behind this message (2.4 samples per us, 8 us of preamble),
+                // the loop itself adds the last sample
+                j += (8 + mm.msgbits) * 12 / 5 - 1;
             }
         }
     }
-- 
2.43.0


From def39a60f073450672ef05663c7288222ea7b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:31 +0000
Subject: [PATCH 22/70] fix: decoded Mode S messages carry no stale or
 uninitialised fields

---
 desktop_blocks/adsb/modes.c      | 7 +++++--
 desktop_blocks/adsb/modes_2400.c | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index e3fcae9..b0cbd7e 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -564,8 +564,11 @@ void mode_s_decode(mode_s_t *self, struct mode_s_msg *mm, unsigned char *msg)
 {
 	uint32_t crc2; // Computed CRC, used to verify the message CRC.
 
-	// Work on our local copy
-	memcpy(mm->msg, msg, MODE_S_LONG_MSG_BYTES);
+	// Work on our local copy. Fields that this message does not carry are zero.
+	unsigned char copy[MODE_S_LONG_MSG_BYTES];
+	memcpy(copy, msg, MODE_S_LONG_MSG_BYTES);
+	memset(mm, 0, sizeof(*mm));
+	memcpy(mm->msg, copy, MODE_S_LONG_MSG_BYTES);
 	msg = mm->msg;
 
 	// Get the message type ASAP as other operations depend on this
diff --git a/desktop_blocks/adsb/modes_2400.c b/desktop_blocks/adsb/modes_2400.c
index 37c0525..6a8ba80 100644
--- a/desktop_blocks/adsb/modes_2400.c
+++ b/desktop_blocks/adsb/modes_2400.c
@@ -22,7 +22,7 @@ static inline int slice_phase4(uint16_t *m) {
 
 void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context) {
     uint32_t j;
-    unsigned char msg1[14], msg2[14], *msg;
+    unsigned char msg1[14] = {0}, msg2[14] = {0}, *msg;
     unsigned char *bestmsg;
     int bestscore;
 
-- 
2.43.0


From ede29da9e648fabcb051fea4dc86cfb8596d50f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:31 +0000
Subject: [PATCH 23/70] fix: Mode S error correction leaves the downlink format
 alone

---
 desktop_blocks/adsb/modes.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index b0cbd7e..92367d0 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -326,7 +326,8 @@ int fix_single_bit_errors(unsigned char *msg, int bits)
 	int j;
 	unsigned char aux[MODE_S_LONG_MSG_BITS/8];
 
-	for (j = 0; j < bits; j++) 
+	// The type (bits 0-4) is not repaired, it was used to get here
+	for (j = 5; j < bits; j++) 
 	{
 		int byte = j/8;
 		int bitmask = 1 << (7-(j%8));
@@ -360,7 +361,8 @@ int fix_two_bits_errors(unsigned char *msg, int bits)
 	int j, i;
 	unsigned char aux[MODE_S_LONG_MSG_BITS/8];
 
-	for (j = 0; j < bits; j++) 
+	// The type (bits 0-4) is not repaired, it was used to get here
+	for (j = 5; j < bits; j++) 
 	{
 		int byte1 = j/8;
 		int bitmask1 = 1 << (7-(j%8));
-- 
2.43.0


From 3676d997d70b298b6b445129c029b1ae9bfd21c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:31 +0000
Subject: [PATCH 24/70] fix: Mode S phase correction saturates instead of
 wrapping around

---
 desktop_blocks/adsb/modes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index 92367d0..22dfbf5 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -818,7 +818,8 @@ void apply_phase_correction(uint16_t *mag)
 		if (mag[j] > mag[j+1])
 		{
 			// One
-			mag[j+2] = (mag[j+2] * 5) / 4;
+			int amplified = (mag[j+2] * 5) / 4;
+			mag[j+2] = amplified > UINT16_MAX ? UINT16_MAX : amplified;
 		}
 		else
 		{
-- 
2.43.0


From cf9d6b8c7128e4b5260481f327c881040eb9cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:31 +0000
Subject: [PATCH 25/70] fix: ground speed and track from the encoded velocity
 components

---
 desktop_blocks/adsb/modes.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index 22dfbf5..14a2567 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -731,13 +731,19 @@ void mode_s_decode(mode_s_t *self, struct mode_s_msg *mm, unsigned char *msg)
 				mm->vert_rate = ((msg[8]&7) << 6) | ((msg[9]&0xfc) >> 2);
 
 				// Compute velocity and angle from the two speed components
-				mm->velocity = sqrt(mm->ns_velocity*mm->ns_velocity+
-									mm->ew_velocity*mm->ew_velocity);
+				// The fields hold speed+1 (0: not available), in units of 4 knots
+				// for the supersonic subtype
+				int ewv = 0, nsv = 0;
+				if (mm->ew_velocity && mm->ns_velocity)
+				{
+					int unit = (mm->mesub == 2) ? 4 : 1;
+					ewv = (mm->ew_velocity-1)*unit;
+					nsv = (mm->ns_velocity-1)*unit;
+				}
+				mm->velocity = sqrt(nsv*nsv + ewv*ewv);
 				
 				if (mm->velocity) 
 				{
-					int ewv = mm->ew_velocity;
-					int nsv = mm->ns_velocity;
 					double heading;
 
 					if (mm->ew_dir) ewv *= -1;
-- 
2.43.0


From 77f346fd1920bf5b75598e054cc3558845ad6dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:24 +0000
Subject: [PATCH 26/70] fix: ADSBDecoderBlock keeps samples that may begin a
 message and drops none for a full output

---
 desktop_blocks/adsb/adsb_decoder.hpp | 29 ++++++++++++++--------------
 desktop_blocks/adsb/modes.c          |  6 +++++-
 desktop_blocks/adsb/modes.h          |  2 +-
 desktop_blocks/adsb/modes_2400.c     |  3 ++-
 desktop_blocks/adsb/modes_2400.h     |  2 +-
 5 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_decoder.hpp b/desktop_blocks/adsb/adsb_decoder.hpp
index d8d485a..5b1aaef 100644
--- a/desktop_blocks/adsb/adsb_decoder.hpp
+++ b/desktop_blocks/adsb/adsb_decoder.hpp
@@ -37,15 +37,12 @@ struct ADSBDecoderBlock : public cler::BlockBase {
     }
 
     cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<mode_s_msg>* out) {
-        static size_t call_count = 0;
-        static size_t total_samples = 0;
-
         auto [read_ptr, read_size] = in.read_dbf();
 
-        // Mode S detection requires at least MODES_LONG_MSG_SAMPLES samples
-        // (preamble + longest message at 2 samples per bit)
-        constexpr size_t MODES_LONG_MSG_SAMPLES = 240;  // 16 preamble + 112*2 bits
-        if (read_size < MODES_LONG_MSG_SAMPLES) {
+        // Mode S detection requires the samples of a whole long message:
+        // 16 preamble + 112*2 bits at 2 MHz, what modes_2400.c looks at otherwise
+        const size_t min_samples = (_mode == SampleRateMode::RATE_2MHZ) ? 240 : 300;
+        if (read_size < min_samples) {
             return cler::Error::NotEnoughSamples;
         }
 
@@ -54,24 +51,25 @@ struct ADSBDecoderBlock : public cler::BlockBase {
             return cler::Error::NotEnoughSpace;
         }
 
-        // Limit to buffer size to prevent overflow
+        // Limit to buffer size to prevent overflow, and to what cannot hold more
+        // messages than the output takes
         size_t to_process = std::min(read_size, BUFFER_ELEMENTS);
+        to_process = std::min(to_process, write_space * MIN_MESSAGE_SAMPLES + min_samples - 1);
 
         memcpy(_tmp_buffer, read_ptr, to_process * sizeof(uint16_t));
-        in.commit_read(to_process);
-
-        total_samples += to_process;
-        call_count++;
 
         CallbackContext ctx;
         ctx.out_channel = out;
         ctx.df_filter = _df_filter;
 
+        // The samples behind the last complete window stay, a message may begin there
+        size_t done;
         if (_mode == SampleRateMode::RATE_2MHZ) {
-            mode_s_detect(&_decoder_state, _tmp_buffer, to_process, on_message_detected, &ctx);
+            done = mode_s_detect(&_decoder_state, _tmp_buffer, to_process, on_message_detected, &ctx);
         } else {
-            mode_s_detect_2400(&_decoder_state, _tmp_buffer, to_process, on_message_detected, &ctx);
+            done = mode_s_detect_2400(&_decoder_state, _tmp_buffer, to_process, on_message_detected, &ctx);
         }
+        in.commit_read(done);
 
         return cler::Empty{};
     }
@@ -82,6 +80,9 @@ struct ADSBDecoderBlock : public cler::BlockBase {
     }
 
 private:
+    // Samples that the detectors skip for a short message (8+56 us at 2 MHz)
+    constexpr static size_t MIN_MESSAGE_SAMPLES = 128;
+
     mode_s_t _decoder_state;
     SampleRateMode _mode;
     uint32_t _df_filter;
diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index 14a2567..6cee797 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -839,7 +839,10 @@ void apply_phase_correction(uint16_t *mag)
 // Detect a Mode S messages inside the magnitude buffer pointed by 'mag' and of
 // size 'maglen' bytes. Every detected Mode S message is convert it into a
 // stream of bits and passed to the function to display it.
-void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context)
+//
+// Returns the number of samples it is done with: a message may still begin in
+// those behind them, which have to be passed again once more samples follow.
+uint32_t mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context)
 {
 	//printf("[MODES] Starting Mode S message detection on %u samples\n", maglen);
 	unsigned char bits[MODE_S_LONG_MSG_BITS];
@@ -1063,4 +1066,5 @@ void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callba
 		}
         
 	}
+	return j;
 }
diff --git a/desktop_blocks/adsb/modes.h b/desktop_blocks/adsb/modes.h
index 606c5b3..78b43ba 100644
--- a/desktop_blocks/adsb/modes.h
+++ b/desktop_blocks/adsb/modes.h
@@ -85,7 +85,7 @@ struct mode_s_msg
 typedef void (*mode_s_callback_t)(mode_s_t *self, struct mode_s_msg *mm, void *context);
 
 void mode_s_init(mode_s_t *self);
-void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *context);
+uint32_t mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *context);
 void mode_s_decode(mode_s_t *self, struct mode_s_msg *mm, unsigned char *msg);
 void mode_s_display_message(struct mode_s_msg *mm);
 
diff --git a/desktop_blocks/adsb/modes_2400.c b/desktop_blocks/adsb/modes_2400.c
index 6a8ba80..ccbdf22 100644
--- a/desktop_blocks/adsb/modes_2400.c
+++ b/desktop_blocks/adsb/modes_2400.c
@@ -20,7 +20,7 @@ static inline int slice_phase4(uint16_t *m) {
     return m[0] + 5 * m[1] - 5 * m[2] - m[3];
 }
 
-void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context) {
+uint32_t mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context) {
     uint32_t j;
     unsigned char msg1[14] = {0}, msg2[14] = {0}, *msg;
     unsigned char *bestmsg;
@@ -215,4 +215,5 @@ void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_c
             }
         }
     }
+    return j;
 }
diff --git a/desktop_blocks/adsb/modes_2400.h b/desktop_blocks/adsb/modes_2400.h
index 00925ea..6d8ffc3 100644
--- a/desktop_blocks/adsb/modes_2400.h
+++ b/desktop_blocks/adsb/modes_2400.h
@@ -9,7 +9,7 @@ extern "C" {
 
 // 2.4 MSPS Mode S detector
 // Uses the same callback interface as modes.h but with 2.4MHz sampling
-void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context);
+uint32_t mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context);
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From f0dbdc2e32310188779b1be6b349e955fadd03ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:24 +0000
Subject: [PATCH 27/70] fix: ADSBDecoderBlock shares no counters between
 blocks, filter is atomic

---
 desktop_blocks/adsb/adsb_decoder.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_decoder.hpp b/desktop_blocks/adsb/adsb_decoder.hpp
index 5b1aaef..635472d 100644
--- a/desktop_blocks/adsb/adsb_decoder.hpp
+++ b/desktop_blocks/adsb/adsb_decoder.hpp
@@ -3,6 +3,7 @@
 #include "cler.hpp"
 #include "desktop_blocks/adsb/modes.h"
 #include "desktop_blocks/adsb/modes_2400.h"
+#include <atomic>
 #include <cstring>
 #include <algorithm>
 
@@ -85,7 +86,7 @@ private:
 
     mode_s_t _decoder_state;
     SampleRateMode _mode;
-    uint32_t _df_filter;
+    std::atomic<uint32_t> _df_filter;
     uint16_t* _tmp_buffer = nullptr;
 
     // Context for callback
@@ -95,14 +96,6 @@ private:
     };
 
     static void on_message_detected(mode_s_t* self, struct mode_s_msg* mm, void* context) {
-        static size_t total_messages = 0;
-        static size_t good_crc_messages = 0;
-
-        total_messages++;
-        if (mm->crcok) {
-            good_crc_messages++;
-        }
-
         (void)self;
         CallbackContext* ctx = static_cast<CallbackContext*>(context);
 
-- 
2.43.0


From 44790d9995e0de0251f2ec4019317687c7357ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:24 +0000
Subject: [PATCH 28/70] fix: vertical rate in ft/min with its sign, no track
 from messages without one

---
 desktop_blocks/adsb/adsb_aggregate.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index 5893455..2bc7733 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -84,15 +84,17 @@ struct ADSBAggregateBlock : public cler::BlockBase {
                         state_changed = true;
                     }
                 }
-                if (msg.heading >= 0 && msg.heading <= 360) {
+                if (msg.velocity > 0 || msg.heading_is_valid) {
                     if (static_cast<int>(state.track) != msg.heading) {
                         state.track = static_cast<float>(msg.heading);
                         state_changed = true;
                     }
                 }
                 if (msg.vert_rate != 0) {
-                    if (state.vertical_rate != msg.vert_rate) {
-                        state.vertical_rate = msg.vert_rate;
+                    // The field holds the rate in steps of 64 ft/min, plus one
+                    int vertical_rate = (msg.vert_rate - 1) * (msg.vert_rate_sign ? -64 : 64);
+                    if (state.vertical_rate != vertical_rate) {
+                        state.vertical_rate = vertical_rate;
                         state_changed = true;
                     }
                 }
-- 
2.43.0


From c4b147544c3a4a7e07e5fc292296f9e852de7724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:24 +0000
Subject: [PATCH 29/70] fix: guard the aircraft table against the window's
 thread

---
 desktop_blocks/adsb/adsb_aggregate.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index 2bc7733..2aac54c 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -6,6 +6,7 @@
 #include "modes.h"
 #include "cpr.h"
 #include <unordered_map>
+#include <mutex>
 #include <imgui.h>
 #include <cmath>
 
@@ -47,6 +48,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
 
             // Get or create aircraft state for this ICAO
             uint32_t icao = (msg.aa1 << 16) | (msg.aa2 << 8) | msg.aa3;
+            std::unique_lock<std::mutex> lock(_aircraft_mutex);
             ADSBState& state = _aircraft[icao];
 
             if (state.icao == 0) {
@@ -144,7 +146,10 @@ struct ADSBAggregateBlock : public cler::BlockBase {
 
             // Fire callback if state changed
             if (state_changed && _callback) {
-                _callback(state, _callback_context);
+                // The callback may read the table itself
+                const ADSBState updated = state;
+                lock.unlock();
+                _callback(updated, _callback_context);
             }
         }
 
@@ -152,6 +157,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
     }
 
     size_t get_aircrafts(ADSBState* buf, size_t max_count) const {
+        std::lock_guard<std::mutex> lock(_aircraft_mutex);
         size_t count = 0;
         for (const auto& pair : _aircraft) {
             if (count >= max_count) break;
@@ -161,6 +167,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
     }
 
     size_t aircraft_count() const {
+        std::lock_guard<std::mutex> lock(_aircraft_mutex);
         return _aircraft.size();
     }
 
@@ -198,7 +205,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
         // Draw info text
         ImGui::SetCursorScreenPos(ImVec2(canvas_pos.x + INFO_TEXT_OFFSET_X, canvas_p1.y - INFO_TEXT_OFFSET_Y));
         ImGui::Text("Aircraft: %zu | Center: %.2f°N, %.2f°W | Zoom: %.1fx",
-                    _aircraft.size(), _map_center_lat, -_map_center_lon, _map_zoom);
+                    aircraft_count(), _map_center_lat, -_map_center_lon, _map_zoom);
 
         // Handle mouse interactions
         handle_map_interaction(canvas_pos, canvas_size);
@@ -236,6 +243,8 @@ private:
     static constexpr float INITIAL_WINDOW_SIZE_X = 1400.0f;
     static constexpr float INITIAL_WINDOW_SIZE_Y = 800.0f;
 
+    // The table is filled by the flowgraph and read by the window's thread
+    mutable std::mutex _aircraft_mutex;
     std::unordered_map<uint32_t, ADSBState> _aircraft;
     OnAircraftUpdateCallback _callback;
     void* _callback_context;
@@ -330,6 +339,7 @@ private:
     }
 
     void draw_aircraft(ImDrawList* draw_list, ImVec2 canvas_pos, ImVec2 canvas_size) {
+        std::lock_guard<std::mutex> lock(_aircraft_mutex);
         for (const auto& pair : _aircraft) {
             const ADSBState& state = pair.second;
 
-- 
2.43.0


From bdebce00aa469438dbb7637dee4316f726fc04e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:09 +0000
Subject: [PATCH 30/70] fix: coastline loader trusts no lengths or counts in
 the file

---
 desktop_blocks/adsb/adsb_coastline_loader.hpp | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_coastline_loader.hpp b/desktop_blocks/adsb/adsb_coastline_loader.hpp
index 9a397a8..75d076e 100644
--- a/desktop_blocks/adsb/adsb_coastline_loader.hpp
+++ b/desktop_blocks/adsb/adsb_coastline_loader.hpp
@@ -51,17 +51,17 @@ struct CoastlineData {
             file.read(reinterpret_cast<char*>(&record_len_be), 4);
 
             // Convert from big-endian (shapefile uses big-endian)
-            uint32_t record_len = swap_endian(record_len_be) * 2;  // Length in 16-bit words, convert to bytes
+            uint64_t record_len = uint64_t(swap_endian(record_len_be)) * 2;  // Length in 16-bit words, convert to bytes
 
             if (offset + 8 + record_len > static_cast<size_t>(file_size)) break;
 
             // Read shape type (4 bytes, little-endian)
-            uint32_t shape_type_le;
+            uint32_t shape_type_le = 0;
             file.read(reinterpret_cast<char*>(&shape_type_le), 4);
             uint32_t shape_type = shape_type_le;  // Already little-endian in file for shape data
 
             // Type 3 = PolyLine
-            if (shape_type == 3) {
+            if (shape_type == 3 && record_len >= POLYLINE_HEADER_BYTES) {
                 parse_polyline(file, record_len);
             }
 
@@ -73,6 +73,9 @@ struct CoastlineData {
     }
 
 private:
+    // Shape type, bounding box, number of parts, number of points
+    static constexpr uint64_t POLYLINE_HEADER_BYTES = 4 + 4 * 8 + 4 + 4;
+
     // Swap endianness (big-endian to little-endian)
     static uint32_t swap_endian(uint32_t val) {
         return ((val & 0x000000FFU) << 24) |
@@ -101,7 +104,7 @@ private:
                ((val & 0xFF00000000000000ULL) >> 56);
     }
 
-    void parse_polyline(std::ifstream& file, uint32_t record_len) {
+    void parse_polyline(std::ifstream& file, uint64_t record_len) {
         // After shape type (4 bytes already read)
 
         // Bounding box (32 bytes: xmin, ymin, xmax, ymax as doubles)
@@ -121,10 +124,22 @@ private:
             return;
         }
 
+        // The record must hold what it claims to
+        if (POLYLINE_HEADER_BYTES + uint64_t(num_parts) * 4 + uint64_t(num_points) * 16 > record_len) {
+            return;
+        }
+
         // Read part indices (each part is a uint32)
         std::vector<uint32_t> part_indices(num_parts);
         file.read(reinterpret_cast<char*>(part_indices.data()), num_parts * 4);
 
+        // The parts follow each other and cover all points
+        if (part_indices.front() != 0) return;
+        for (uint32_t i = 0; i < num_parts; ++i) {
+            uint32_t next = (i + 1 < num_parts) ? part_indices[i + 1] : num_points;
+            if (part_indices[i] > next) return;
+        }
+
         // Read all points and organize by parts
         for (uint32_t part_idx = 0; part_idx < num_parts; ++part_idx) {
             uint32_t start_point = part_indices[part_idx];
-- 
2.43.0


From 1ea058fe57462b7cc7f0bf2be1e03c4216478c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:24 +0000
Subject: [PATCH 31/70] fix: texts of the OK and TERMINATE_FLOWGRAPH error
 codes

---
 include/cler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index c2803b0..65dfd45 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -50,12 +50,14 @@ namespace cler {
 
     inline const char* to_str(Error error) {
         switch (error) {
+            case Error::OK: return "OK";
             case Error::Unknown: return "Unknown error";
             case Error::NotEnoughSpace: return "Not enough space in output buffers";
             case Error::NotEnoughSamples: return "Not enough samples in input buffers";
             case Error::NotEnoughSpaceOrSamples: return "Not enough space or samples in buffers";
             case Error::ProcedureError: return "Procedure error";
             case Error::BadData: return "Bad data received";
+            case Error::TERMINATE_FLOWGRAPH: return "Flowgraph terminated";
             case Error::TERM_InvalidChannelIndex: return "TERM: Invalid channel index";
             case Error::TERM_ProcedureError: return "TERM: Procedure error";
             case Error::TERM_IOError: return "TERM: IO error";
-- 
2.43.0


From 7862d50a85353279e4aa42dab443571d4ea2fa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:01 +0000
Subject: [PATCH 32/70] fix: reset_logfile looks at the logger's state under
 its lock

---
 desktop_logger/desktop_logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_logger/desktop_logger.cpp b/desktop_logger/desktop_logger.cpp
index 23ad671..ce71569 100644
--- a/desktop_logger/desktop_logger.cpp
+++ b/desktop_logger/desktop_logger.cpp
@@ -92,9 +92,9 @@ namespace cler {
 
 logger_retval_enum reset_logfile(const char *log_filepath) noexcept {
     if (!log_filepath) return cler::LOGGER_FILEPATH_EMPTY;
-    if (!_logger_started) return cler::LOGGER_NOT_STARTED;
 
     std::lock_guard<std::mutex> lock(log_mutex);
+    if (!_logger_started) return cler::LOGGER_NOT_STARTED;
     _unguarded_close_log_file();
 
     _log_filepath = log_filepath;
-- 
2.43.0


From 645e6b4c5d311dfe7376871ad952a0c49f461ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:56 +0000
Subject: [PATCH 33/70] fix: mermaid: escape block names and types in node
 labels

---
 tools/mermaid/src/mermaid_renderer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/mermaid/src/mermaid_renderer.cpp b/tools/mermaid/src/mermaid_renderer.cpp
index 72448c3..9b92592 100644
--- a/tools/mermaid/src/mermaid_renderer.cpp
+++ b/tools/mermaid/src/mermaid_renderer.cpp
@@ -94,7 +94,7 @@ std::string MermaidRenderer::html_escape(const std::string& text) {
 }
 
 std::string MermaidRenderer::create_node_label(const Block& block) const {
-    std::string label = block.name;
+    std::string label = html_escape(block.name);
 
     // Add type (remove 'Block' suffix for cleaner display)
     std::string clean_type = block.type;
@@ -102,7 +102,7 @@ std::string MermaidRenderer::create_node_label(const Block& block) const {
     if (pos != std::string::npos) {
         clean_type.erase(pos, 5);
     }
-    label += "<br/>(" + clean_type + ")";
+    label += "<br/>(" + html_escape(clean_type) + ")";
 
     // Show template parameters with safe HTML escaping
     if (!block.template_params.empty()) {
-- 
2.43.0


From 9602506dc549e72defd29bdf7922adc8f21fa318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:56 +0000
Subject: [PATCH 34/70] fix: mermaid: blocks with similar names get different
 identifiers

---
 tools/mermaid/src/mermaid_renderer.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tools/mermaid/src/mermaid_renderer.cpp b/tools/mermaid/src/mermaid_renderer.cpp
index 9b92592..a2f2b2e 100644
--- a/tools/mermaid/src/mermaid_renderer.cpp
+++ b/tools/mermaid/src/mermaid_renderer.cpp
@@ -2,6 +2,7 @@
 #include <fstream>
 #include <sstream>
 #include <algorithm>
+#include <cctype>
 
 namespace cler {
 
@@ -69,9 +70,15 @@ std::string MermaidRenderer::get_node_id(const std::string& block_name) {
         // Create valid Mermaid ID
         std::string clean_name;
         for (char c : block_name) {
-            clean_name += std::isalnum(c) ? c : '_';
+            clean_name += std::isalnum(static_cast<unsigned char>(c)) ? c : '_';
         }
-        node_map_[block_name] = "node_" + clean_name;
+        // Different names may look the same once cleaned
+        std::string id = "node_" + clean_name;
+        while (std::any_of(node_map_.begin(), node_map_.end(),
+                           [&](const auto& entry) { return entry.second == id; })) {
+            id += '_';
+        }
+        node_map_[block_name] = id;
     }
     return node_map_[block_name];
 }
-- 
2.43.0


From 4058f79735118d9de61bfe82cc5c1aa82f446dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:11 +0000
Subject: [PATCH 35/70] fix: plots take no more samples at once than their
 buffers hold

---
 desktop_blocks/plots/plot_cspectrum.cpp  | 3 +++
 desktop_blocks/plots/plot_timeseries.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/desktop_blocks/plots/plot_cspectrum.cpp b/desktop_blocks/plots/plot_cspectrum.cpp
index 870c003..cbf31b9 100644
--- a/desktop_blocks/plots/plot_cspectrum.cpp
+++ b/desktop_blocks/plots/plot_cspectrum.cpp
@@ -1,6 +1,7 @@
 #include "plot_cspectrum.hpp"
 #include "implot.h"
 
+#include <algorithm>
 #include <cstring>
 #include <stdexcept>
 #include <cassert>
@@ -137,6 +138,8 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrumBlock::procedure() {
     if (work_size == 0) {
         return cler::Error::NotEnoughSamples;
     }
+    // The channels may hold more than they were asked for
+    work_size = std::min(work_size, _buffer_size);
 
     for (size_t i = 0; i < _num_inputs; ++i) {
         size_t commit_size = (_signal_channels[i].size() + work_size > _buffer_size)
diff --git a/desktop_blocks/plots/plot_timeseries.cpp b/desktop_blocks/plots/plot_timeseries.cpp
index 33f6d8d..4a2946e 100644
--- a/desktop_blocks/plots/plot_timeseries.cpp
+++ b/desktop_blocks/plots/plot_timeseries.cpp
@@ -1,5 +1,6 @@
 #include "plot_timeseries.hpp"
 #include "implot.h"
+#include <algorithm>
 #include <cstring>
 #include <stdexcept>
 
@@ -91,6 +92,8 @@ cler::Result<cler::Empty, cler::Error> PlotTimeSeriesBlock::procedure() {
     if (work_size == 0) {
         return cler::Error::NotEnoughSamples;
     }
+    // The channels may hold more than they were asked for
+    work_size = std::min(work_size, _buffer_size);
 
     size_t commit_read_size = (_x_channel->size() + work_size > _buffer_size)
         ? (_x_channel->size() + work_size - _buffer_size) : 0;
-- 
2.43.0


From 80cbd8c587390c97a0de9a952475af0e33c5cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:11 +0000
Subject: [PATCH 36/70] fix: plots do not change their buffers while render()
 copies them

---
 desktop_blocks/plots/plot_cspectrum.cpp  | 3 +++
 desktop_blocks/plots/plot_timeseries.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/desktop_blocks/plots/plot_cspectrum.cpp b/desktop_blocks/plots/plot_cspectrum.cpp
index cbf31b9..bc9afc0 100644
--- a/desktop_blocks/plots/plot_cspectrum.cpp
+++ b/desktop_blocks/plots/plot_cspectrum.cpp
@@ -141,6 +141,9 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrumBlock::procedure() {
     // The channels may hold more than they were asked for
     work_size = std::min(work_size, _buffer_size);
 
+    // render() copies from the buffers that are updated here
+    std::lock_guard<std::mutex> lock(_snapshot_mutex);
+
     for (size_t i = 0; i < _num_inputs; ++i) {
         size_t commit_size = (_signal_channels[i].size() + work_size > _buffer_size)
             ? (_signal_channels[i].size() + work_size - _buffer_size) : 0;
diff --git a/desktop_blocks/plots/plot_timeseries.cpp b/desktop_blocks/plots/plot_timeseries.cpp
index 4a2946e..bf6fe70 100644
--- a/desktop_blocks/plots/plot_timeseries.cpp
+++ b/desktop_blocks/plots/plot_timeseries.cpp
@@ -95,6 +95,9 @@ cler::Result<cler::Empty, cler::Error> PlotTimeSeriesBlock::procedure() {
     // The channels may hold more than they were asked for
     work_size = std::min(work_size, _buffer_size);
 
+    // render() copies from the buffers that are updated here
+    std::lock_guard<std::mutex> lock(_snapshot_mutex);
+
     size_t commit_read_size = (_x_channel->size() + work_size > _buffer_size)
         ? (_x_channel->size() + work_size - _buffer_size) : 0;
 
-- 
2.43.0


From 0cb57b36073487e716c3c4a1a5ad255c97b50a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:11 +0000
Subject: [PATCH 37/70] fix: time series plot copies nothing from a null
 pointer

---
 desktop_blocks/plots/plot_timeseries.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/plots/plot_timeseries.cpp b/desktop_blocks/plots/plot_timeseries.cpp
index bf6fe70..61f8448 100644
--- a/desktop_blocks/plots/plot_timeseries.cpp
+++ b/desktop_blocks/plots/plot_timeseries.cpp
@@ -167,12 +167,12 @@ void PlotTimeSeriesBlock::render() {
         if (available > 0) {
             _x_channel->peek_read(ptr1, size1, ptr2, size2);
             memcpy(_snapshot_x_buffer, ptr1, size1 * sizeof(float));
-            memcpy(_snapshot_x_buffer + size1, ptr2, size2 * sizeof(float));
+            if (size2 > 0) memcpy(_snapshot_x_buffer + size1, ptr2, size2 * sizeof(float));
 
             for (size_t i = 0; i < _num_inputs; ++i) {
                 _y_channels[i].peek_read(ptr1, size1, ptr2, size2);
                 memcpy(_snapshot_y_buffers[i], ptr1, size1 * sizeof(float));
-                memcpy(_snapshot_y_buffers[i] + size1, ptr2, size2 * sizeof(float));
+                if (size2 > 0) memcpy(_snapshot_y_buffers[i] + size1, ptr2, size2 * sizeof(float));
             }
 
             _snapshot_ready_size = available;
-- 
2.43.0


From adf37d24699e629d3078a4fe6a39e22f416233bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 38/70] fix: plots keep the input and output of their
 transforms apart

---
 desktop_blocks/plots/plot_cspectrogram.cpp | 20 +++++++++++---------
 desktop_blocks/plots/plot_cspectrogram.hpp |  3 ++-
 desktop_blocks/plots/plot_cspectrum.cpp    | 20 +++++++++++---------
 desktop_blocks/plots/plot_cspectrum.hpp    |  3 ++-
 4 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/desktop_blocks/plots/plot_cspectrogram.cpp b/desktop_blocks/plots/plot_cspectrogram.cpp
index 11515e0..a1bea75 100644
--- a/desktop_blocks/plots/plot_cspectrogram.cpp
+++ b/desktop_blocks/plots/plot_cspectrogram.cpp
@@ -47,7 +47,8 @@ PlotCSpectrogramBlock::PlotCSpectrogramBlock(const char*name,
         new (&in[i]) cler::Channel<std::complex<float>>(buffer_size);
     }
 
-    _liquid_inout = new std::complex<float>[_n_fft_samples];
+    _liquid_in = new std::complex<float>[_n_fft_samples];
+    _liquid_out = new std::complex<float>[_n_fft_samples];
     _tmp_y_buffer = new std::complex<float>[_n_fft_samples];
     _tmp_mag_buffer = new float[_n_fft_samples];
 
@@ -63,8 +64,8 @@ PlotCSpectrogramBlock::PlotCSpectrogramBlock(const char*name,
     }
 
     _fftplan = fft_create_plan(_n_fft_samples,
-        reinterpret_cast<liquid_float_complex*>(_liquid_inout),
-        reinterpret_cast<liquid_float_complex*>(_liquid_inout),
+        reinterpret_cast<liquid_float_complex*>(_liquid_in),
+        reinterpret_cast<liquid_float_complex*>(_liquid_out),
         LIQUID_FFT_FORWARD, 0);
 }
 
@@ -75,7 +76,8 @@ PlotCSpectrogramBlock::~PlotCSpectrogramBlock() {
     }
     ::operator delete[](in);
 
-    delete[] _liquid_inout;
+    delete[] _liquid_in;
+    delete[] _liquid_out;
     delete[] _tmp_y_buffer;
     delete[] _tmp_mag_buffer;
 
@@ -108,19 +110,19 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrogramBlock::procedure() {
         auto [read_ptr, read_size] = in[i].read_dbf();
         if (read_ptr && read_size >= _n_fft_samples) {
             // FAST PATH: Copy directly from doubly-mapped buffer
-            memcpy(_liquid_inout, read_ptr, _n_fft_samples * sizeof(std::complex<float>));
+            memcpy(_liquid_in, read_ptr, _n_fft_samples * sizeof(std::complex<float>));
             in[i].commit_read(_n_fft_samples);
         } else {
             // Fall back to standard approach
             in[i].readN(_tmp_y_buffer, _n_fft_samples);
-            memcpy(_liquid_inout, _tmp_y_buffer, _n_fft_samples * sizeof(std::complex<float>));
+            memcpy(_liquid_in, _tmp_y_buffer, _n_fft_samples * sizeof(std::complex<float>));
         }
 
         float coherent_gain = 0.0f;
         for (size_t n = 0; n < _n_fft_samples; ++n) {
             float w = spectral_window_function(_window_type, n / static_cast<float>(_n_fft_samples - 1));
             coherent_gain += w;
-            _liquid_inout[n] *= w * ((n % 2 == 0) ? 1.0f : -1.0f);
+            _liquid_in[n] *= w * ((n % 2 == 0) ? 1.0f : -1.0f);
         }
         coherent_gain /= static_cast<float>(_n_fft_samples);
 
@@ -130,8 +132,8 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrogramBlock::procedure() {
         float scale2 = scale * scale;
 
         for (size_t j = 0; j < _n_fft_samples; ++j) {
-            float re = _liquid_inout[j].real();
-            float im = _liquid_inout[j].imag();
+            float re = _liquid_out[j].real();
+            float im = _liquid_out[j].imag();
             float power = (re * re + im * im) / scale2;
             _tmp_mag_buffer[j] = 10.0f * log10f(power + 1e-20f);
         }
diff --git a/desktop_blocks/plots/plot_cspectrogram.hpp b/desktop_blocks/plots/plot_cspectrogram.hpp
index b54dece..0e44b78 100644
--- a/desktop_blocks/plots/plot_cspectrogram.hpp
+++ b/desktop_blocks/plots/plot_cspectrogram.hpp
@@ -35,7 +35,8 @@ private:
     size_t _tall;
     SpectralWindow _window_type;
 
-    std::complex<float>* _liquid_inout;
+    std::complex<float>* _liquid_in;
+    std::complex<float>* _liquid_out; // apart, as small transforms do not work in place
     std::complex<float>* _tmp_y_buffer;
     float* _tmp_mag_buffer;
 
diff --git a/desktop_blocks/plots/plot_cspectrum.cpp b/desktop_blocks/plots/plot_cspectrum.cpp
index bc9afc0..a07403d 100644
--- a/desktop_blocks/plots/plot_cspectrum.cpp
+++ b/desktop_blocks/plots/plot_cspectrum.cpp
@@ -73,7 +73,8 @@ PlotCSpectrumBlock::PlotCSpectrumBlock(const char* name,
 
     _tmp_buffer = new std::complex<float>[_buffer_size];
 
-    _liquid_inout = new std::complex<float>[_n_fft_samples];
+    _liquid_in = new std::complex<float>[_n_fft_samples];
+    _liquid_out = new std::complex<float>[_n_fft_samples];
     _tmp_mag_buffer = new float[_n_fft_samples];
     _freq_bins = new float[_n_fft_samples];
     for (size_t i = 0; i < _n_fft_samples; ++i) {
@@ -89,8 +90,8 @@ PlotCSpectrumBlock::PlotCSpectrumBlock(const char* name,
     }
 
     _fftplan = fft_create_plan(_n_fft_samples,
-        reinterpret_cast<liquid_float_complex*>(_liquid_inout),
-        reinterpret_cast<liquid_float_complex*>(_liquid_inout),
+        reinterpret_cast<liquid_float_complex*>(_liquid_in),
+        reinterpret_cast<liquid_float_complex*>(_liquid_out),
         LIQUID_FFT_FORWARD, 0);
 }
 
@@ -109,7 +110,8 @@ PlotCSpectrumBlock::~PlotCSpectrumBlock() {
     delete[] _snapshot_buffers;
 
     delete[] _tmp_buffer;
-    delete[] _liquid_inout;
+    delete[] _liquid_in;
+    delete[] _liquid_out;
     delete[] _tmp_mag_buffer;
     delete[] _freq_bins;
     
@@ -235,7 +237,7 @@ void PlotCSpectrumBlock::render() {
         ImPlot::SetupAxes("Frequency [Hz]", "Magnitude [dB]");
 
         for (size_t i = 0; i < _num_inputs; ++i) {
-            memcpy(_liquid_inout,
+            memcpy(_liquid_in,
                    _snapshot_buffers[i],
                    _n_fft_samples * sizeof(std::complex<float>));
 
@@ -243,19 +245,19 @@ void PlotCSpectrumBlock::render() {
             for (size_t n = 0; n < _n_fft_samples; ++n) {
                 float w = spectral_window_function(_window_type, n / static_cast<float>(_n_fft_samples - 1));
                 coherent_gain += w;
-                _liquid_inout[n] *= w;
+                _liquid_in[n] *= w;
             }
             coherent_gain /= static_cast<float>(_n_fft_samples);
 
             fft_execute(_fftplan);
-            fft_shift(_liquid_inout, _n_fft_samples);
+            fft_shift(_liquid_out, _n_fft_samples);
 
             float scale = static_cast<float>(_n_fft_samples) * coherent_gain;
             float scale2 = scale * scale;
 
             for (size_t j = 0; j < _n_fft_samples; ++j) {
-                float re = _liquid_inout[j].real();
-                float im = _liquid_inout[j].imag();
+                float re = _liquid_out[j].real();
+                float im = _liquid_out[j].imag();
                 float power = (re * re + im * im) / scale2;
                 _tmp_mag_buffer[j] = 10.0f * log10f(power + 1e-20f);
             }
diff --git a/desktop_blocks/plots/plot_cspectrum.hpp b/desktop_blocks/plots/plot_cspectrum.hpp
index dbe72a4..a0bf31c 100644
--- a/desktop_blocks/plots/plot_cspectrum.hpp
+++ b/desktop_blocks/plots/plot_cspectrum.hpp
@@ -40,7 +40,8 @@ private:
     std::complex<float>** _snapshot_buffers = nullptr;
     std::complex<float>* _tmp_buffer = nullptr;
 
-    std::complex<float>* _liquid_inout = nullptr;
+    std::complex<float>* _liquid_in = nullptr;
+    std::complex<float>* _liquid_out = nullptr; // apart, as small transforms do not work in place
     float* _freq_bins = nullptr;
     float* _tmp_mag_buffer = nullptr;
     float** _spectrum_avg = nullptr;  // Averaged spectrum for each input
-- 
2.43.0


From 973221730f4c576b59ac02849c386e6da9b67b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 39/70] fix: reject zero channels and semilength in the
 channelizer before using them

---
 .../channelizers/polyphase_channelizer.hpp       | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/desktop_blocks/channelizers/polyphase_channelizer.hpp b/desktop_blocks/channelizers/polyphase_channelizer.hpp
index 978fdb9..81f232a 100644
--- a/desktop_blocks/channelizers/polyphase_channelizer.hpp
+++ b/desktop_blocks/channelizers/polyphase_channelizer.hpp
@@ -17,10 +17,17 @@ struct PolyphaseChannelizerBlock : public cler::BlockBase {
                               size_t kaiser_filter_semilength,
                               size_t in_buffer_size = 0)
         : cler::BlockBase(std::move(name)),
-          in(in_buffer_size == 0 ? cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(std::complex<float>) * num_channels
+          in(in_buffer_size == 0 ? cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(std::complex<float>) * std::max<size_t>(num_channels, 1)
                                  : in_buffer_size),
           _num_channels(num_channels)
     {
+        if (_num_channels == 0) {
+            throw std::invalid_argument("Number of channels must be positive");
+        }
+        if (kaiser_filter_semilength == 0) {
+            throw std::invalid_argument("Filter semilength must be positive");
+        }
+
         // Validate buffer size if provided
         if (in_buffer_size > 0) {
             const size_t min_elems = cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(std::complex<float>);
@@ -31,8 +38,8 @@ struct PolyphaseChannelizerBlock : public cler::BlockBase {
             }
         }
 
-        assert(_num_channels > 0 && "Number of channels must be positive");
-        assert(kaiser_filter_semilength > 0 && "Filter semilength must be positive");
+        // Pre-allocate temporary output buffer
+        _tmp_out.resize(_num_channels);
 
         _pfch = firpfbch_crcf_create_kaiser(
             LIQUID_ANALYZER,
@@ -43,9 +50,6 @@ struct PolyphaseChannelizerBlock : public cler::BlockBase {
         if (!_pfch) {
             throw std::runtime_error("Failed to create polyphase channelizer");
         }
-
-        // Pre-allocate temporary output buffer
-        _tmp_out.resize(_num_channels);
     }
 
     ~PolyphaseChannelizerBlock() {
-- 
2.43.0


From 730b57bfd20bec38c789fda565b33099820e5106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 40/70] fix: report unusable fanout and ADS-B decoder
 parameters with exceptions

---
 desktop_blocks/adsb/adsb_decoder.hpp | 8 +++++---
 desktop_blocks/utils/fanout.hpp      | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_decoder.hpp b/desktop_blocks/adsb/adsb_decoder.hpp
index 635472d..4ae84d1 100644
--- a/desktop_blocks/adsb/adsb_decoder.hpp
+++ b/desktop_blocks/adsb/adsb_decoder.hpp
@@ -24,10 +24,12 @@ struct ADSBDecoderBlock : public cler::BlockBase {
         : BlockBase(name),
         in(cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(uint16_t)),
         _mode(mode),
-        _df_filter(df_filter),
-        _tmp_buffer(new uint16_t[BUFFER_ELEMENTS]) {
+        _df_filter(df_filter) {
         // Validate filter: 0 is ambiguous, must use 0xFFFFFFFFU for "allow all messages"
-        assert(_df_filter != 0 && "df_filter=0 is invalid. Use 0xFFFFFFFFU to allow all message types.");
+        if (df_filter == 0) {
+            throw std::invalid_argument("df_filter=0 is invalid. Use 0xFFFFFFFFU to allow all message types.");
+        }
+        _tmp_buffer = new uint16_t[BUFFER_ELEMENTS];
         mode_s_init(&_decoder_state);
     }
 
diff --git a/desktop_blocks/utils/fanout.hpp b/desktop_blocks/utils/fanout.hpp
index 1bd4415..9acc0b8 100644
--- a/desktop_blocks/utils/fanout.hpp
+++ b/desktop_blocks/utils/fanout.hpp
@@ -17,7 +17,9 @@ struct FanoutBlock : public cler::BlockBase {
                 std::to_string(cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T)) + " elements of type T");
         }
 
-        assert(num_outputs > 0 && "Number of outputs must be greater than zero");
+        if (num_outputs == 0) {
+            throw std::invalid_argument("Number of outputs must be greater than zero");
+        }
     }
 
     ~FanoutBlock() = default;
-- 
2.43.0


From 164440f0da6cad6cc7be4b5a6d4abbb9ca33fcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 41/70] fix: reject non-finite resampler parameters and release
 everything when memory is short

---
 desktop_blocks/resamplers/multistage_resampler.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/desktop_blocks/resamplers/multistage_resampler.hpp b/desktop_blocks/resamplers/multistage_resampler.hpp
index 3cc8978..cdbd2a7 100644
--- a/desktop_blocks/resamplers/multistage_resampler.hpp
+++ b/desktop_blocks/resamplers/multistage_resampler.hpp
@@ -2,6 +2,8 @@
 
 #include "liquid.h"
 #include "cler.hpp"
+#include <cmath>
+#include <new>
 #include <type_traits>
 
 template <typename>
@@ -20,10 +22,10 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
             throw std::invalid_argument("Buffer size too small for doubly-mapped buffers. Need at least " + 
                 std::to_string(cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T)) + " elements of type T");
         }
-        if (ratio <= 0.0f) {
+        if (!(ratio > 0.0f) || std::isinf(ratio)) {
             throw std::invalid_argument("Ratio must be greater than zero.");
         }
-        if (attenuation < 0.0f) {
+        if (!(attenuation >= 0.0f)) {
             throw std::invalid_argument("Attenuation must be non-negative.");
         }
 
@@ -44,7 +46,7 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
         _buffer_size = buffer_size == 0 ? cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T) : buffer_size;
         
         // Allocate input buffer
-        _input_buffer = new T[_buffer_size];
+        _input_buffer = new (std::nothrow) T[_buffer_size];
         if (!_input_buffer) {
             // Clean up resampler
             if constexpr (std::is_same_v<T, float>) {
@@ -58,7 +60,7 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
         // Allocate output buffer (sized for maximum expansion case)
         // The resampler can emit a few more than n * ratio samples, in bursts of up to about 2 * ratio
         size_t output_buffer_size = static_cast<size_t>(_buffer_size * _ratio + 4.0f * _ratio + 100); // Extra space for safety
-        _output_buffer = new T[output_buffer_size];
+        _output_buffer = new (std::nothrow) T[output_buffer_size];
         if (!_output_buffer) {
             delete[] _input_buffer;
             // Clean up resampler
-- 
2.43.0


From 324f18d8bf5e63dc16b32efcf525873e65ee10ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 42/70] fix: reject not-a-number and oversized Kaiser filter
 designs

---
 desktop_blocks/filters/kaiser_lpf.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/desktop_blocks/filters/kaiser_lpf.hpp b/desktop_blocks/filters/kaiser_lpf.hpp
index 5be174a..9025d90 100644
--- a/desktop_blocks/filters/kaiser_lpf.hpp
+++ b/desktop_blocks/filters/kaiser_lpf.hpp
@@ -4,6 +4,7 @@
 #include "liquid.h"
 #include <type_traits>
 #include <cmath>
+#include <limits>
 
 template <typename T>
 struct KaiserLPFBlock : public cler::BlockBase {
@@ -35,16 +36,16 @@ struct KaiserLPFBlock : public cler::BlockBase {
         }
 
         // Validate parameters
-        if (sample_rate <= 0.0) {
+        if (!(sample_rate > 0.0)) {
             throw std::invalid_argument("Sample rate must be positive");
         }
-        if (cutoff_freq <= 0.0 || cutoff_freq >= sample_rate / 2.0) {
+        if (!(cutoff_freq > 0.0 && cutoff_freq < sample_rate / 2.0)) {
             throw std::invalid_argument("Cutoff frequency must be between 0 and Nyquist");
         }
-        if (transition_bw <= 0.0) {
+        if (!(transition_bw > 0.0)) {
             throw std::invalid_argument("Transition bandwidth must be positive");
         }
-        if (attenuation_db <= 0.0) {
+        if (!(attenuation_db > 0.0)) {
             throw std::invalid_argument("Attenuation must be positive");
         }
 
@@ -57,8 +58,12 @@ struct KaiserLPFBlock : public cler::BlockBase {
         // Calculate filter order based on transition bandwidth and attenuation
         // liquid-dsp uses: order = ceil(attenuation / (22.0 * transition_bw_normalized))
         float transition_bw_normalized = static_cast<float>(transition_bw / sample_rate);
-        unsigned int filter_order = static_cast<unsigned int>(
-            std::ceil(attenuation_db / (22.0f * transition_bw_normalized)));
+        double wanted_order = std::ceil(attenuation_db / (22.0f * transition_bw_normalized));
+        if (!(wanted_order < static_cast<double>(std::numeric_limits<int>::max()))) {
+            throw std::invalid_argument(
+                "Filter order too large. Increase transition_bw or decrease attenuation_db");
+        }
+        unsigned int filter_order = static_cast<unsigned int>(wanted_order);
 
         if (filter_order < 5) {
             throw std::invalid_argument(
-- 
2.43.0


From bd383a35eb18e77322a91f169f7df2b39ab77f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 43/70] fix: reject not-a-number parameters of FM demodulator
 and chirp source

---
 desktop_blocks/fm/fm_demod.hpp          | 4 ++--
 desktop_blocks/sources/source_chirp.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/desktop_blocks/fm/fm_demod.hpp b/desktop_blocks/fm/fm_demod.hpp
index 01057f5..bb41b7d 100644
--- a/desktop_blocks/fm/fm_demod.hpp
+++ b/desktop_blocks/fm/fm_demod.hpp
@@ -28,11 +28,11 @@ struct FMDemodBlock : public cler::BlockBase {
                 " complex<float> elements");
         }
 
-        if (sample_rate <= 0.0) {
+        if (!(sample_rate > 0.0)) {
             throw std::invalid_argument("Sample rate must be positive");
         }
 
-        if (freq_deviation <= 0.0) {
+        if (!(freq_deviation > 0.0)) {
             throw std::invalid_argument("Frequency deviation must be positive");
         }
 
diff --git a/desktop_blocks/sources/source_chirp.hpp b/desktop_blocks/sources/source_chirp.hpp
index 5546d8a..8e9dbde 100644
--- a/desktop_blocks/sources/source_chirp.hpp
+++ b/desktop_blocks/sources/source_chirp.hpp
@@ -23,7 +23,7 @@ struct SourceChirpBlock : public cler::BlockBase {
           _chirp_duration_s(chirp_duration_s)
     {
         if (_sps == 0) throw std::invalid_argument("Sample rate must be greater than zero.");
-        if (_chirp_duration_s <= 0) throw std::invalid_argument("Chirp duration must be positive.");
+        if (!(_chirp_duration_s > 0)) throw std::invalid_argument("Chirp duration must be positive.");
 
         _n_samples_before_reset = static_cast<size_t>(_chirp_duration_s * _sps);
         _k = (_f1_hz - _f0_hz) / _chirp_duration_s; // Hz/s
-- 
2.43.0


From 787a6a0e484fc14de57486d46a81071030fc68b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 44/70] fix: release what a failed plot construction allocated,
 reject a not-a-number duration

---
 desktop_blocks/plots/plot_cspectrogram.cpp | 25 +++++++++++++++---
 desktop_blocks/plots/plot_cspectrogram.hpp | 20 +++++++++------
 desktop_blocks/plots/plot_cspectrum.cpp    | 30 ++++++++++++++++++----
 desktop_blocks/plots/plot_cspectrum.hpp    | 11 +++++---
 desktop_blocks/plots/plot_timeseries.cpp   | 26 ++++++++++++++++---
 desktop_blocks/plots/plot_timeseries.hpp   | 11 +++++---
 6 files changed, 96 insertions(+), 27 deletions(-)

diff --git a/desktop_blocks/plots/plot_cspectrogram.cpp b/desktop_blocks/plots/plot_cspectrogram.cpp
index a1bea75..bbc0b89 100644
--- a/desktop_blocks/plots/plot_cspectrogram.cpp
+++ b/desktop_blocks/plots/plot_cspectrogram.cpp
@@ -20,6 +20,15 @@ PlotCSpectrogramBlock::PlotCSpectrogramBlock(const char*name,
     if (_n_fft_samples <= 2 || _n_fft_samples % 2 != 0) throw std::invalid_argument("FFT size must be even and > 2");
     if (_tall < 1) throw std::invalid_argument("Tall must be > 0");
 
+    try {
+        allocate();
+    } catch (...) {
+        release();
+        throw;
+    }
+}
+
+void PlotCSpectrogramBlock::allocate() {
     in = static_cast<cler::Channel<std::complex<float>>*>(
         ::operator new[](_num_inputs * sizeof(cler::Channel<std::complex<float>>))
     );
@@ -45,6 +54,7 @@ PlotCSpectrogramBlock::PlotCSpectrogramBlock(const char*name,
     
     for (size_t i = 0; i < _num_inputs; ++i) {
         new (&in[i]) cler::Channel<std::complex<float>>(buffer_size);
+        ++_in_constructed;
     }
 
     _liquid_in = new std::complex<float>[_n_fft_samples];
@@ -52,7 +62,7 @@ PlotCSpectrogramBlock::PlotCSpectrogramBlock(const char*name,
     _tmp_y_buffer = new std::complex<float>[_n_fft_samples];
     _tmp_mag_buffer = new float[_n_fft_samples];
 
-    _spectrograms = new float*[_num_inputs];
+    _spectrograms = new float*[_num_inputs]();
     for (size_t i = 0; i < _num_inputs; ++i) {
         _spectrograms[i] = new float[_tall * _n_fft_samples]();
         std::fill_n(_spectrograms[i], _tall * _n_fft_samples, -147.0f);
@@ -70,8 +80,13 @@ PlotCSpectrogramBlock::PlotCSpectrogramBlock(const char*name,
 }
 
 PlotCSpectrogramBlock::~PlotCSpectrogramBlock() {
+    release();
+}
+
+// Also releases what a failed construction leaves
+void PlotCSpectrogramBlock::release() {
     using ComplexChannel = cler::Channel<std::complex<float>>;
-    for (size_t i = 0; i < _num_inputs; ++i) {
+    for (size_t i = 0; i < _in_constructed; ++i) {
         in[i].~ComplexChannel();
     }
     ::operator delete[](in);
@@ -81,13 +96,15 @@ PlotCSpectrogramBlock::~PlotCSpectrogramBlock() {
     delete[] _tmp_y_buffer;
     delete[] _tmp_mag_buffer;
 
-    for (size_t i = 0; i < _num_inputs; ++i) {
+    for (size_t i = 0; _spectrograms && i < _num_inputs; ++i) {
         delete[] _spectrograms[i];
     }
     delete[] _spectrograms;
 
     delete[] _freq_bins;
-    fft_destroy_plan(_fftplan);
+    if (_fftplan) {
+        fft_destroy_plan(_fftplan);
+    }
 }
 
 cler::Result<cler::Empty, cler::Error> PlotCSpectrogramBlock::procedure() {
diff --git a/desktop_blocks/plots/plot_cspectrogram.hpp b/desktop_blocks/plots/plot_cspectrogram.hpp
index 0e44b78..e5e0789 100644
--- a/desktop_blocks/plots/plot_cspectrogram.hpp
+++ b/desktop_blocks/plots/plot_cspectrogram.hpp
@@ -11,7 +11,7 @@
 struct PlotCSpectrogramBlock : public cler::BlockBase {
     const size_t BUFFER_SIZE_MULTIPLIER = 3;
 
-    cler::Channel<std::complex<float>>* in;
+    cler::Channel<std::complex<float>>* in = nullptr;
 
     PlotCSpectrogramBlock(const char* name,
                           const std::vector<std::string> signal_labels,
@@ -27,6 +27,10 @@ struct PlotCSpectrogramBlock : public cler::BlockBase {
     void set_initial_window(float x, float y, float w, float h);
 
 private:
+    void allocate();
+    void release();
+
+    size_t _in_constructed = 0;
     size_t _num_inputs;
     std::vector<std::string> _signal_labels;
 
@@ -35,16 +39,16 @@ private:
     size_t _tall;
     SpectralWindow _window_type;
 
-    std::complex<float>* _liquid_in;
-    std::complex<float>* _liquid_out; // apart, as small transforms do not work in place
-    std::complex<float>* _tmp_y_buffer;
-    float* _tmp_mag_buffer;
+    std::complex<float>* _liquid_in = nullptr;
+    std::complex<float>* _liquid_out = nullptr; // apart, as small transforms do not work in place
+    std::complex<float>* _tmp_y_buffer = nullptr;
+    float* _tmp_mag_buffer = nullptr;
 
-    float** _spectrograms; // [num_inputs][tall * n_fft_samples]
+    float** _spectrograms = nullptr; // [num_inputs][tall * n_fft_samples]
 
-    float* _freq_bins;
+    float* _freq_bins = nullptr;
 
-    fftplan _fftplan;
+    fftplan _fftplan = nullptr;
 
     std::mutex _spectrogram_mutex;
 
diff --git a/desktop_blocks/plots/plot_cspectrum.cpp b/desktop_blocks/plots/plot_cspectrum.cpp
index a07403d..70497e4 100644
--- a/desktop_blocks/plots/plot_cspectrum.cpp
+++ b/desktop_blocks/plots/plot_cspectrum.cpp
@@ -49,12 +49,22 @@ PlotCSpectrumBlock::PlotCSpectrumBlock(const char* name,
         _buffer_size = min_buffer_size;
     }
 
+    try {
+        allocate();
+    } catch (...) {
+        release();
+        throw;
+    }
+}
+
+void PlotCSpectrumBlock::allocate() {
     // Input channels with proper buffer size
     in = static_cast<cler::Channel<std::complex<float>>*>(
         ::operator new[](_num_inputs * sizeof(cler::Channel<std::complex<float>>))
     );
     for (size_t i = 0; i < _num_inputs; ++i) {
         new (&in[i]) cler::Channel<std::complex<float>>(_buffer_size);
+        ++_in_constructed;
     }
 
     // Plot ring buffers with same size as input channels
@@ -63,10 +73,11 @@ PlotCSpectrumBlock::PlotCSpectrumBlock(const char* name,
     );
     for (size_t i = 0; i < _num_inputs; ++i) {
         new (&_signal_channels[i]) cler::Channel<std::complex<float>>(_buffer_size);
+        ++_signal_constructed;
     }
 
     // Snapshot buffers - only need FFT size, not full buffer size
-    _snapshot_buffers = new std::complex<float>*[_num_inputs];
+    _snapshot_buffers = new std::complex<float>*[_num_inputs]();
     for (size_t i = 0; i < _num_inputs; ++i) {
         _snapshot_buffers[i] = new std::complex<float>[_n_fft_samples];
     }
@@ -83,7 +94,7 @@ PlotCSpectrumBlock::PlotCSpectrumBlock(const char* name,
     }
     
     // Allocate averaged spectrum buffers for each input
-    _spectrum_avg = new float*[_num_inputs];
+    _spectrum_avg = new float*[_num_inputs]();
     for (size_t i = 0; i < _num_inputs; ++i) {
         _spectrum_avg[i] = new float[_n_fft_samples];
         std::memset(_spectrum_avg[i], 0, _n_fft_samples * sizeof(float));
@@ -96,15 +107,22 @@ PlotCSpectrumBlock::PlotCSpectrumBlock(const char* name,
 }
 
 PlotCSpectrumBlock::~PlotCSpectrumBlock() {
+    release();
+}
+
+// Also releases what a failed construction leaves
+void PlotCSpectrumBlock::release() {
     using ComplexChannel = cler::Channel<std::complex<float>>;
-    for (size_t i = 0; i < _num_inputs; ++i) {
+    for (size_t i = 0; i < _in_constructed; ++i) {
         in[i].~ComplexChannel();
+    }
+    for (size_t i = 0; i < _signal_constructed; ++i) {
         _signal_channels[i].~ComplexChannel();
     }
     ::operator delete[](in);
     ::operator delete[](_signal_channels);
 
-    for (size_t i = 0; i < _num_inputs; ++i) {
+    for (size_t i = 0; _snapshot_buffers && i < _num_inputs; ++i) {
         delete[] _snapshot_buffers[i];
     }
     delete[] _snapshot_buffers;
@@ -123,7 +141,9 @@ PlotCSpectrumBlock::~PlotCSpectrumBlock() {
         delete[] _spectrum_avg;
     }
     
-    fft_destroy_plan(_fftplan);
+    if (_fftplan) {
+        fft_destroy_plan(_fftplan);
+    }
 }
 
 cler::Result<cler::Empty, cler::Error> PlotCSpectrumBlock::procedure() {
diff --git a/desktop_blocks/plots/plot_cspectrum.hpp b/desktop_blocks/plots/plot_cspectrum.hpp
index a0bf31c..f748521 100644
--- a/desktop_blocks/plots/plot_cspectrum.hpp
+++ b/desktop_blocks/plots/plot_cspectrum.hpp
@@ -11,7 +11,7 @@
 struct PlotCSpectrumBlock : public cler::BlockBase {
     const size_t BUFFER_SIZE_MULTIPLIER = 3;
 
-    cler::Channel<std::complex<float>>* in;
+    cler::Channel<std::complex<float>>* in = nullptr;
 
     PlotCSpectrumBlock(const char* name,
                        const std::vector<std::string>& signal_labels,
@@ -26,6 +26,9 @@ struct PlotCSpectrumBlock : public cler::BlockBase {
     void set_initial_window(float x, float y, float w, float h);
 
 private:
+    void allocate();
+    void release();
+
     size_t _samples_counter = 0;
 
     size_t _num_inputs;
@@ -35,7 +38,9 @@ private:
     size_t _buffer_size;
     SpectralWindow _window_type;
 
-    cler::Channel<std::complex<float>>* _signal_channels;
+    size_t _in_constructed = 0;
+    size_t _signal_constructed = 0;
+    cler::Channel<std::complex<float>>* _signal_channels = nullptr;
 
     std::complex<float>** _snapshot_buffers = nullptr;
     std::complex<float>* _tmp_buffer = nullptr;
@@ -48,7 +53,7 @@ private:
     float _avg_alpha = 0.7f;          // Exponential averaging factor (0=frozen, 1=no averaging)
     bool _first_spectrum = true;      // First spectrum frame flag
 
-    fftplan _fftplan;
+    fftplan _fftplan = nullptr;
 
     ImVec2 _initial_window_position {0.0f, 0.0f};
     ImVec2 _initial_window_size {600.0f, 300.0f};
diff --git a/desktop_blocks/plots/plot_timeseries.cpp b/desktop_blocks/plots/plot_timeseries.cpp
index 61f8448..451a01e 100644
--- a/desktop_blocks/plots/plot_timeseries.cpp
+++ b/desktop_blocks/plots/plot_timeseries.cpp
@@ -16,7 +16,7 @@ PlotTimeSeriesBlock::PlotTimeSeriesBlock(const char* name,
     if (_num_inputs < 1) {
         throw std::invalid_argument("PlotTimeSeriesBlock requires at least one input channel");
     }
-    if (duration_s <= 0) {
+    if (!(duration_s > 0)) {
         throw std::invalid_argument("Duration must be greater than zero.");
     }
 
@@ -28,12 +28,22 @@ PlotTimeSeriesBlock::PlotTimeSeriesBlock(const char* name,
         _buffer_size = min_buffer_size;
     }
 
+    try {
+        allocate();
+    } catch (...) {
+        release();
+        throw;
+    }
+}
+
+void PlotTimeSeriesBlock::allocate() {
     // Input channels
     in = static_cast<cler::Channel<float>*>(
         ::operator new[](_num_inputs * sizeof(cler::Channel<float>))
     );
     for (size_t i = 0; i < _num_inputs; ++i) {
         new (&in[i]) cler::Channel<float>(_buffer_size);
+        ++_in_constructed;
     }
 
     // Output ring buffers for Y and X
@@ -42,13 +52,14 @@ PlotTimeSeriesBlock::PlotTimeSeriesBlock(const char* name,
     );
     for (size_t i = 0; i < _num_inputs; ++i) {
         new (&_y_channels[i]) cler::Channel<float>(_buffer_size);
+        ++_y_constructed;
     }
 
     _x_channel = new cler::Channel<float>(_buffer_size);
 
     // Snapshots
     _snapshot_x_buffer = new float[_buffer_size];
-    _snapshot_y_buffers = new float*[_num_inputs];
+    _snapshot_y_buffers = new float*[_num_inputs]();
     for (size_t i = 0; i < _num_inputs; ++i) {
         _snapshot_y_buffers[i] = new float[_buffer_size];
     }
@@ -59,9 +70,16 @@ PlotTimeSeriesBlock::PlotTimeSeriesBlock(const char* name,
 }
 
 PlotTimeSeriesBlock::~PlotTimeSeriesBlock() {
+    release();
+}
+
+// Also releases what a failed construction leaves
+void PlotTimeSeriesBlock::release() {
     using FloatChannel = cler::Channel<float>;
-    for (size_t i = 0; i < _num_inputs; ++i) {
+    for (size_t i = 0; i < _in_constructed; ++i) {
         in[i].~FloatChannel();
+    }
+    for (size_t i = 0; i < _y_constructed; ++i) {
         _y_channels[i].~FloatChannel();
     }
     ::operator delete[](in);
@@ -69,7 +87,7 @@ PlotTimeSeriesBlock::~PlotTimeSeriesBlock() {
     delete _x_channel;
 
     delete[] _snapshot_x_buffer;
-    for (size_t i = 0; i < _num_inputs; ++i) {
+    for (size_t i = 0; _snapshot_y_buffers && i < _num_inputs; ++i) {
         delete[] _snapshot_y_buffers[i];
     }
     delete[] _snapshot_y_buffers;
diff --git a/desktop_blocks/plots/plot_timeseries.hpp b/desktop_blocks/plots/plot_timeseries.hpp
index 18503c9..d960007 100644
--- a/desktop_blocks/plots/plot_timeseries.hpp
+++ b/desktop_blocks/plots/plot_timeseries.hpp
@@ -6,7 +6,7 @@
 #include "imgui.h"
 
 struct PlotTimeSeriesBlock : public cler::BlockBase {
-    cler::Channel<float>* in;
+    cler::Channel<float>* in = nullptr;
 
     PlotTimeSeriesBlock(const char* name,
         const std::vector<std::string> signal_labels,
@@ -19,6 +19,9 @@ struct PlotTimeSeriesBlock : public cler::BlockBase {
     void set_initial_window(float x, float y, float w, float h);
 
 private:
+    void allocate();
+    void release();
+
     size_t _samples_counter = 0;
 
     size_t _num_inputs;
@@ -26,8 +29,10 @@ private:
     size_t _sps;
     size_t _buffer_size;
 
-    cler::Channel<float>* _y_channels;   // ring buffers for each signal
-    cler::Channel<float>* _x_channel;    // ring buffer for timestamps
+    size_t _in_constructed = 0;
+    size_t _y_constructed = 0;
+    cler::Channel<float>* _y_channels = nullptr;   // ring buffers for each signal
+    cler::Channel<float>* _x_channel = nullptr;    // ring buffer for timestamps
 
     float* _snapshot_x_buffer = nullptr; // holds last good snapshot
     float** _snapshot_y_buffers = nullptr;
-- 
2.43.0


From 6af4e23b3810fde132f1908f177c1e3c55460d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 45/70] fix: SoapySDR blocks release the device when its
 configuration fails, reject a not-a-number gain

---
 desktop_blocks/sinks/sink_soapysdr.hpp     | 34 ++++++++++++++++------
 desktop_blocks/sources/source_soapysdr.hpp | 34 ++++++++++++++++------
 2 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/desktop_blocks/sinks/sink_soapysdr.hpp b/desktop_blocks/sinks/sink_soapysdr.hpp
index 2ea09b3..5443fee 100644
--- a/desktop_blocks/sinks/sink_soapysdr.hpp
+++ b/desktop_blocks/sinks/sink_soapysdr.hpp
@@ -69,6 +69,20 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             throw std::runtime_error("SinkSoapySDRBlock: Failed to create SoapySDR device with args: " + device_args);
         }
         
+        try {
+            setup();
+        } catch (...) {
+            release();
+            throw;
+        }
+    }
+    
+    ~SinkSoapySDRBlock() {
+        release();
+    }
+    
+private:
+    void setup() {
         // Validate and set sample rate
         auto sample_rates = device->getSampleRateRange(SOAPY_SDR_TX, channel_idx);
         bool rate_valid = false;
@@ -84,7 +98,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : sample_rates) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MSPS ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setSampleRate(SOAPY_SDR_TX, channel_idx, sample_rate);
@@ -104,18 +117,16 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : freq_ranges) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MHz ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setFrequency(SOAPY_SDR_TX, channel_idx, center_freq);
         
         // Validate and set gain
         auto gain_range = device->getGainRange(SOAPY_SDR_TX, channel_idx);
-        if (gain_db < gain_range.minimum() || gain_db > gain_range.maximum()) {
+        if (!(gain_db >= gain_range.minimum() && gain_db <= gain_range.maximum())) {
             std::stringstream ss;
             ss << "Gain " << gain_db << " dB not supported. Supported range: "
                << gain_range.minimum() << "-" << gain_range.maximum() << " dB";
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         if (device->hasGainMode(SOAPY_SDR_TX, channel_idx)) {
@@ -134,7 +145,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
         
         stream = device->setupStream(SOAPY_SDR_TX, format, channels);
         if (!stream) {
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SinkSoapySDRBlock: Failed to setup TX stream");
         }
         
@@ -145,11 +155,11 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
         // Activate stream
         int ret = device->activateStream(stream);
         if (ret != 0) {
-            device->closeStream(stream);
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SinkSoapySDRBlock: Failed to activate stream: " + std::string(SoapySDR::errToStr(ret)));
         }
         
+        active = true;
+        
         // Print device info
         std::cout << "SinkSoapySDRBlock: Initialized " << device->getDriverKey() 
                   << " (" << device->getHardwareKey() << ")"
@@ -169,9 +179,12 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
         }
     }
     
-    ~SinkSoapySDRBlock() {
+    // Also releases what a failed construction leaves
+    void release() {
         if (stream && device) {
-            device->deactivateStream(stream);
+            if (active) {
+                device->deactivateStream(stream);
+            }
             device->closeStream(stream);
         }
         if (device) {
@@ -179,6 +192,8 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
         }
     }
     
+public:
+    
     cler::Result<cler::Empty, cler::Error> procedure() {
         // Use DBF for zero-copy read
         auto [read_ptr, read_size] = in.read_dbf();
@@ -314,6 +329,7 @@ private:
     // SoapySDR objects
     SoapySDR::Device* device;
     SoapySDR::Stream* stream;
+    bool active = false;
     
     // Buffer
     std::vector<T> buffer;
diff --git a/desktop_blocks/sources/source_soapysdr.hpp b/desktop_blocks/sources/source_soapysdr.hpp
index 9617328..d0fdda4 100644
--- a/desktop_blocks/sources/source_soapysdr.hpp
+++ b/desktop_blocks/sources/source_soapysdr.hpp
@@ -59,6 +59,20 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
             throw std::runtime_error("SourceSoapySDRBlock: Failed to create SoapySDR device with args: " + device_args);
         }
         
+        try {
+            setup();
+        } catch (...) {
+            release();
+            throw;
+        }
+    }
+    
+    ~SourceSoapySDRBlock() {
+        release();
+    }
+    
+private:
+    void setup() {
         // Validate and set sample rate
         auto sample_rates = device->getSampleRateRange(SOAPY_SDR_RX, channel_idx);
         bool rate_valid = false;
@@ -74,7 +88,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : sample_rates) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MSPS ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setSampleRate(SOAPY_SDR_RX, channel_idx, sample_rate);
@@ -94,18 +107,16 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : freq_ranges) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MHz ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setFrequency(SOAPY_SDR_RX, channel_idx, center_freq);
         
         // Validate and set gain
         auto gain_range = device->getGainRange(SOAPY_SDR_RX, channel_idx);
-        if (gain_db < gain_range.minimum() || gain_db > gain_range.maximum()) {
+        if (!(gain_db >= gain_range.minimum() && gain_db <= gain_range.maximum())) {
             std::stringstream ss;
             ss << "Gain " << gain_db << " dB not supported. Supported range: "
                << gain_range.minimum() << "-" << gain_range.maximum() << " dB";
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         if (device->hasGainMode(SOAPY_SDR_RX, channel_idx)) {
@@ -124,7 +135,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
         
         stream = device->setupStream(SOAPY_SDR_RX, format, channels);
         if (!stream) {
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SourceSoapySDRBlock: Failed to setup RX stream");
         }
         
@@ -134,11 +144,11 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
         // Activate stream
         int ret = device->activateStream(stream);
         if (ret != 0) {
-            device->closeStream(stream);
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SourceSoapySDRBlock: Failed to activate stream: " + std::string(SoapySDR::errToStr(ret)));
         }
         
+        active = true;
+        
         // Print device info
         std::cout << "SourceSoapySDRBlock: Initialized " << device->getDriverKey() 
                   << " (" << device->getHardwareKey() << ")"
@@ -158,9 +168,12 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
         }
     }
     
-    ~SourceSoapySDRBlock() {
+    // Also releases what a failed construction leaves
+    void release() {
         if (stream && device) {
-            device->deactivateStream(stream);
+            if (active) {
+                device->deactivateStream(stream);
+            }
             device->closeStream(stream);
         }
         if (device) {
@@ -168,6 +181,8 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
         }
     }
     
+public:
+    
     cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<T>* out) {
         // Get output buffer using DBF
         auto [write_ptr, write_size] = out->write_dbf();
@@ -299,6 +314,7 @@ private:
     // SoapySDR objects
     SoapySDR::Device* device;
     SoapySDR::Stream* stream;
+    bool active = false;
     
     // Streaming
     size_t mtu;
-- 
2.43.0


From 382b3905578bd450f87e5d9184eef33d73cf7875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 46/70] fix: audio sink terminates PortAudio as often as it
 initialised it, rejects a not-a-number rate

---
 desktop_blocks/sinks/sink_audio.hpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/desktop_blocks/sinks/sink_audio.hpp b/desktop_blocks/sinks/sink_audio.hpp
index ebe2def..c42da3e 100644
--- a/desktop_blocks/sinks/sink_audio.hpp
+++ b/desktop_blocks/sinks/sink_audio.hpp
@@ -39,7 +39,7 @@ struct SinkAudioBlock : public cler::BlockBase {
           _device_index(device_index),
           _stream(nullptr)
     {
-        if (sample_rate <= 0.0 || sample_rate > 1e6) {
+        if (!(sample_rate > 0.0 && sample_rate <= 1e6)) {
             throw std::invalid_argument("Invalid sample rate: must be > 0 and <= 1MHz");
         }
 
@@ -53,20 +53,27 @@ struct SinkAudioBlock : public cler::BlockBase {
         PaError err = Pa_Initialize();
         pa_check(err);
 
-        // Validate device index if specified
-        if (device_index != paNoDevice) {
-            int num_devices = Pa_GetDeviceCount();
-            if (num_devices < 0 || device_index >= num_devices) {
-                throw std::invalid_argument("Invalid device index: " + std::to_string(device_index));
+        // Every successful initialization needs its termination
+        try {
+            // Validate device index if specified
+            if (device_index != paNoDevice) {
+                int num_devices = Pa_GetDeviceCount();
+                if (num_devices < 0 || device_index >= num_devices) {
+                    throw std::invalid_argument("Invalid device index: " + std::to_string(device_index));
+                }
             }
-        }
 
-        // Open the audio stream
-        _open_stream();
+            // Open the audio stream
+            _open_stream();
+        } catch (...) {
+            Pa_Terminate();
+            throw;
+        }
     }
 
     ~SinkAudioBlock() {
         _close_stream();
+        Pa_Terminate();
     }
 
     cler::Result<cler::Empty, cler::Error> procedure() {
@@ -105,6 +112,7 @@ struct SinkAudioBlock : public cler::BlockBase {
 
         int num_devices = Pa_GetDeviceCount();
         if (num_devices < 0) {
+            Pa_Terminate();
             throw std::runtime_error("Pa_GetDeviceCount() failed");
         }
 
@@ -119,6 +127,7 @@ struct SinkAudioBlock : public cler::BlockBase {
                        info->defaultHighOutputLatency * 1000.0);
             }
         }
+        Pa_Terminate();
     }
 
 private:
-- 
2.43.0


From 57ac81b84cf857fe1838ba1718e527b33c39bfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 47/70] fix: UHD sink without an initial configuration
 dereferences no null pointer

---
 desktop_blocks/sinks/sink_uhd.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/desktop_blocks/sinks/sink_uhd.hpp b/desktop_blocks/sinks/sink_uhd.hpp
index 028d846..39baa42 100644
--- a/desktop_blocks/sinks/sink_uhd.hpp
+++ b/desktop_blocks/sinks/sink_uhd.hpp
@@ -101,10 +101,6 @@ struct SinkUHDBlock : public cler::BlockBase {
                 throw std::runtime_error("SinkUHDBlock: Failed to setup TX stream");
             }
 
-            for (size_t channel = 0; channel < _num_channels; ++channel) {
-                configure(*initial_config, channel);
-            }
-
             // Allocate UHD buffer pointer array (vector auto-manages)
             _uhd_buffs.resize(_num_channels);
             _read_ptrs.resize(_num_channels);
-- 
2.43.0


From ca27298202776d23d6a755f35677b218df51d796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 48/70] fix: UHD sink sends all its channels together and takes
 from each what was sent

---
 desktop_blocks/sinks/sink_uhd.hpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/desktop_blocks/sinks/sink_uhd.hpp b/desktop_blocks/sinks/sink_uhd.hpp
index 39baa42..8a8fc6f 100644
--- a/desktop_blocks/sinks/sink_uhd.hpp
+++ b/desktop_blocks/sinks/sink_uhd.hpp
@@ -20,6 +20,8 @@
 #include <iostream>
 #include <sstream>
 #include <numeric>
+#include <algorithm>
+#include <limits>
 
 struct AsyncTxEvent {
     bool event_occurred = false;
@@ -195,24 +197,30 @@ struct SinkUHDBlock : public cler::BlockBase {
         if (_configuring.load(std::memory_order_acquire)) {
             return cler::Empty{};  // Skip this iteration
         }
+        // The streamer takes the samples of all channels together
+        size_t to_send = std::numeric_limits<size_t>::max();
         for (size_t i = 0; i < _num_channels; ++i) {
             auto [ptr, size] = in[i].read_dbf();
             _read_ptrs[i] = ptr;
             _read_sizes[i] = size;
+            to_send = std::min(to_send, size);
 
             if (_read_sizes[i] < (cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T)) / 4) {
                 return cler::Error::NotEnoughSamples;
             }
-            uhd::tx_metadata_t md;
-            md.start_of_burst = false;
-            md.end_of_burst = false;
-            md.has_time_spec = false;               
-
-            size_t sent = _tx_stream->send(_read_ptrs[i],
-                            _read_sizes[i],
-                            md,
-                            0.1);  // 100ms timeout
-            in->commit_read(sent);
+        }
+
+        uhd::tx_metadata_t md;
+        md.start_of_burst = false;
+        md.end_of_burst = false;
+        md.has_time_spec = false;
+
+        size_t sent = _tx_stream->send(_read_ptrs,
+                        to_send,
+                        md,
+                        0.1);  // 100ms timeout
+        for (size_t i = 0; i < _num_channels; ++i) {
+            in[i].commit_read(sent);
         }
 
         handle_async_events();
-- 
2.43.0


From a1240f918b8cd8075f2e42e3e8e550533fdb637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 49/70] fix: UHD source receives all its channels together and
 reports errors that come without samples

---
 desktop_blocks/sources/source_uhd.hpp | 62 ++++++++++++---------------
 1 file changed, 27 insertions(+), 35 deletions(-)

diff --git a/desktop_blocks/sources/source_uhd.hpp b/desktop_blocks/sources/source_uhd.hpp
index 7ef4278..be0584b 100644
--- a/desktop_blocks/sources/source_uhd.hpp
+++ b/desktop_blocks/sources/source_uhd.hpp
@@ -18,6 +18,8 @@
 #include <string>
 #include <iostream>
 #include <numeric>
+#include <algorithm>
+#include <limits>
 
 template<typename T>
 struct SourceUHDBlock : public cler::BlockBase {
@@ -132,44 +134,34 @@ struct SourceUHDBlock : public cler::BlockBase {
             return cler::Empty{};  // Skip this iteration
         }
 
-        uhd::rx_metadata_t md;
-        cler::Error result_error = cler::Error::OK;
-        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
-            ([&](OChannels* out) {
-
-                if (result_error != cler::Error::OK) {
-                    return;
-                }
-                auto [write_ptr, write_size] = out->write_dbf();
-                if (!write_ptr || write_size == 0) {
-                    result_error = cler::Error::NotEnoughSpace;
-                    return;
-                }
-                size_t num_rx = rx_stream->recv(write_ptr, write_size, md, 0.1);
-                if (num_rx == 0) {
-                    return;
-                }
-                if (md.error_code == uhd::rx_metadata_t::ERROR_CODE_OVERFLOW) {
-                    overflow_count++;
-                } else if (md.error_code != uhd::rx_metadata_t::ERROR_CODE_NONE &&
-                            md.error_code != uhd::rx_metadata_t::ERROR_CODE_TIMEOUT) {
-                    std::cerr << "SourceUHDBlock: " << md.strerror() << std::endl;
-                    result_error = cler::Error::TERM_ProcedureError;
-                    return;
-                }
-
-                out->commit_write(num_rx);
-            }(outs), ...);
-        }(std::make_index_sequence<num_outs>{});
-
-
-
-        if (result_error != cler::Error::OK) {
-            return result_error;
+        // The streamer hands over the samples of all channels together
+        std::vector<void*> write_ptrs;
+        write_ptrs.reserve(num_outs);
+        size_t to_receive = std::numeric_limits<size_t>::max();
+        ([&](OChannels* out) {
+            auto [write_ptr, write_size] = out->write_dbf();
+            write_ptrs.push_back(write_ptr);
+            to_receive = std::min(to_receive, write_ptr ? write_size : 0);
+        }(outs), ...);
+        if (to_receive == 0) {
+            return cler::Error::NotEnoughSpace;
         }
-        return cler::Empty{};
 
+        uhd::rx_metadata_t md;
+        size_t num_rx = rx_stream->recv(write_ptrs, to_receive, md, 0.1);
+        if (num_rx > 0) {
+            (outs->commit_write(num_rx), ...);
+        }
 
+        // Errors come without samples
+        if (md.error_code == uhd::rx_metadata_t::ERROR_CODE_OVERFLOW) {
+            overflow_count++;
+        } else if (md.error_code != uhd::rx_metadata_t::ERROR_CODE_NONE &&
+                    md.error_code != uhd::rx_metadata_t::ERROR_CODE_TIMEOUT) {
+            std::cerr << "SourceUHDBlock: " << md.strerror() << std::endl;
+            return cler::Error::TERM_ProcedureError;
+        }
+        return cler::Empty{};
     }
     size_t get_overflow_count() const { return overflow_count; }
 
-- 
2.43.0


From 05baac929131b53dcbd8665f25952ea32aac82ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 50/70] fix: GMSK modulator compares the room for a frame in
 samples, not bytes

---
 desktop_blocks/ezgmsk/ezgmsk_mod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_blocks/ezgmsk/ezgmsk_mod.hpp b/desktop_blocks/ezgmsk/ezgmsk_mod.hpp
index bf79ef2..2330fc1 100644
--- a/desktop_blocks/ezgmsk/ezgmsk_mod.hpp
+++ b/desktop_blocks/ezgmsk/ezgmsk_mod.hpp
@@ -53,7 +53,7 @@ struct EZGmskModBlock : public cler::BlockBase {
             unsigned int frame_len = ezgmsk::ezgmsk_mod_get_frame_len(_mod);
             auto [write_ptr, write_space] = out->write_dbf();
 
-            if (write_space < frame_len * sizeof(liquid_float_complex)) {
+            if (write_space < frame_len) {
                 break;
             }
 
-- 
2.43.0


From cda6c5e1f5afe6fccc97dca74d17b1134b80462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 51/70] fix: GMSK modulator sends the whole tail of an empty
 frame

---
 desktop_blocks/ezgmsk/_ezgmsk_mod.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_blocks/ezgmsk/_ezgmsk_mod.c b/desktop_blocks/ezgmsk/_ezgmsk_mod.c
index 927c819..202210b 100644
--- a/desktop_blocks/ezgmsk/_ezgmsk_mod.c
+++ b/desktop_blocks/ezgmsk/_ezgmsk_mod.c
@@ -264,7 +264,7 @@ int ezgmsk_mod_write_data(ezgmsk_mod _q)
     if (_q->data_len == 0) {
         // skip data if length is zero
         _q->state = EZGMSK_MOD_STATE_TAIL;
-        return LIQUID_OK;
+        return ezgmsk_mod_write_tail(_q);
     }
 
     // determine byte and bit indices
-- 
2.43.0


From 06b0dd5f800346e8897ef425e8adcc4bb1318f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 52/70] fix: GMSK blocks refuse unusable parameters instead of
 using null objects

---
 desktop_blocks/ezgmsk/_ezgmsk_demod.c  | 13 +++++++++++--
 desktop_blocks/ezgmsk/_ezgmsk_mod.c    |  9 ++++++++-
 desktop_blocks/ezgmsk/ezgmsk_demod.hpp |  4 ++++
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/desktop_blocks/ezgmsk/_ezgmsk_demod.c b/desktop_blocks/ezgmsk/_ezgmsk_demod.c
index 0679163..35dd335 100644
--- a/desktop_blocks/ezgmsk/_ezgmsk_demod.c
+++ b/desktop_blocks/ezgmsk/_ezgmsk_demod.c
@@ -151,6 +151,17 @@ ezgmsk_demod ezgmsk_demod_create_set(unsigned int          _k,
 {
     assert(_callback != NULL);
 
+    // the preamble has to cover the filters' delay, the detector checks its parameters only in part
+    gmskmod mod = NULL;
+    if (_preamble_symbols_len > 0 && _preamble_symbols_len >= _m && _header_byte_len > 0 &&
+        _BT > 0.0f && _detector_threshold > 0.0f && _detector_dphi_max >= 0.0f && _detector_dphi_max <= (float)M_PI) {
+        mod = gmskmod_create(_k, _m, _BT);
+    }
+    if (mod == NULL) {
+        liquid_error(LIQUID_EICONFIG,"ezgmsk_demod_create_set(), invalid parameters");
+        return NULL;
+    }
+
     ezgmsk_demod q = (ezgmsk_demod) malloc(sizeof(struct ezgmsk_demod_s));
     q->sample_counter = 0;
     q->callback = _callback;
@@ -172,8 +183,6 @@ ezgmsk_demod ezgmsk_demod_create_set(unsigned int          _k,
     q->preamble_rx = (float*)malloc(q->preamble_len*sizeof(float));
     float complex preamble_samples[q->preamble_len*q->k];
 
-    gmskmod mod = gmskmod_create(q->k, q->m, q->BT);
-
     unsigned int sample_idx = 0;
     for (i = 0; i < q->preamble_len + q->m; i++) {
         unsigned int bit = i % 2;
diff --git a/desktop_blocks/ezgmsk/_ezgmsk_mod.c b/desktop_blocks/ezgmsk/_ezgmsk_mod.c
index 202210b..2aae542 100644
--- a/desktop_blocks/ezgmsk/_ezgmsk_mod.c
+++ b/desktop_blocks/ezgmsk/_ezgmsk_mod.c
@@ -56,6 +56,13 @@ ezgmsk_mod ezgmsk_mod_create_set(unsigned int _k,
                                  float        _BT,
                                  unsigned int _preamble_symbols_len)
 {
+    // the modulator checks the rest itself, but lets a not-a-number through
+    gmskmod mod = (_preamble_symbols_len > 0 && _BT > 0.0f) ? gmskmod_create(_k, _m, _BT) : NULL;
+    if (mod == NULL) {
+        liquid_error(LIQUID_EICONFIG,"ezgmsk_mod_create_set(), invalid parameters");
+        return NULL;
+    }
+
     ezgmsk_mod q = (ezgmsk_mod) malloc(sizeof(struct ezgmsk_mod_s));
 
     // set internal properties
@@ -64,7 +71,7 @@ ezgmsk_mod ezgmsk_mod_create_set(unsigned int _k,
     q->BT = _BT;    // filter bandwidth-time product
 
     // create modulator
-    q->mod = gmskmod_create(q->k, q->m, q->BT);
+    q->mod = mod;
 
     // set frame parameters
     q->preamble_len = _preamble_symbols_len;
diff --git a/desktop_blocks/ezgmsk/ezgmsk_demod.hpp b/desktop_blocks/ezgmsk/ezgmsk_demod.hpp
index 038c231..657dd36 100644
--- a/desktop_blocks/ezgmsk/ezgmsk_demod.hpp
+++ b/desktop_blocks/ezgmsk/ezgmsk_demod.hpp
@@ -45,6 +45,10 @@ struct EZGmskDemodBlock : public cler::BlockBase {
             callback,
             callback_context
         );
+
+        if (!_demod) {
+            throw std::runtime_error("Failed to create EZGMSK demodulator");
+        }
     }
 
     ~EZGmskDemodBlock() {
-- 
2.43.0


From 1b59234f9e1b6eba0830ab43dbc175193e2fe109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 53/70] fix: GMSK demodulator survives samples that are no
 usable numbers

---
 desktop_blocks/ezgmsk/_ezgmsk_demod.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/desktop_blocks/ezgmsk/_ezgmsk_demod.c b/desktop_blocks/ezgmsk/_ezgmsk_demod.c
index 35dd335..efe1f8b 100644
--- a/desktop_blocks/ezgmsk/_ezgmsk_demod.c
+++ b/desktop_blocks/ezgmsk/_ezgmsk_demod.c
@@ -349,6 +349,11 @@ int ezgmsk_demod_execute(ezgmsk_demod   _q,
 #else
         xf = _x[i];
 #endif
+        // a sample that is not a number, or too large to be squared, would stay in detector, filters and timing loop
+        float power = crealf(xf)*crealf(xf) + cimagf(xf)*cimagf(xf);
+        if (!(power < 1e30f))
+            xf = 0.0f;
+
         _q->sample_counter++;
         ezgmsk_demod_execute_sample(_q, xf);
     }
-- 
2.43.0


From 1550d6dd187a64897b76adc136e7c6ad9fef9048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 54/70] fix: GMSK demodulator limits its timing estimate
 instead of asserting it

---
 desktop_blocks/ezgmsk/_ezgmsk_demod.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/ezgmsk/_ezgmsk_demod.c b/desktop_blocks/ezgmsk/_ezgmsk_demod.c
index efe1f8b..5261ae9 100644
--- a/desktop_blocks/ezgmsk/_ezgmsk_demod.c
+++ b/desktop_blocks/ezgmsk/_ezgmsk_demod.c
@@ -442,7 +442,12 @@ int ezgmsk_demod_finalize_preamble_detection(ezgmsk_demod _q)
     // compute delay and filterbank index
     //  tau_hat < 0 :   delay = 2*k*m-1, index = round(   tau_hat *npfb), flag = 0
     //  tau_hat > 0 :   delay = 2*k*m-2, index = round((1-tau_hat)*npfb), flag = 0
-    assert(_q->tau_hat < 0.5f && _q->tau_hat > -0.5f);
+    // the estimate comes from interpolation and may leave (-0.5,0.5) for signals that are no preamble
+    if (!(_q->tau_hat < 0.5f)) {
+        _q->tau_hat = 0.5f;
+    } else if (!(_q->tau_hat > -0.5f)) {
+        _q->tau_hat = -0.5f;
+    }
     unsigned int delay = 2*_q->k*_q->m - 1; // samples to buffer before computing output
     _q->pfb_soft       = -_q->tau_hat*_q->npfb;
     _q->pfb_index      = (int) roundf(_q->pfb_soft);
-- 
2.43.0


From f0c96de0401ec3590a2fe8e56f782b4b51d9af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:54 +0000
Subject: [PATCH 55/70] fix: audio file source kept decoding into the resampler
 while its output was full

Samples beyond the room in the output stayed in the resampler, a further packet
was read for every call: memory grew without bound when the consumer was slower
than the decoder, and all of it was lost at the end of the file. Packets with
several frames ended in TERM_IOError once the decoder refused the next one.
---
 desktop_blocks/sources/source_audio_file.hpp | 65 ++++++++++++--------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 2b8cb72..2d46f4e 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -4,6 +4,8 @@
 #include <stdexcept>
 #include <string>
 #include <cstring>
+#include <algorithm>
+#include <vector>
 
 #ifdef __has_include
     #if __has_include(<libavformat/avformat.h>)
@@ -76,6 +78,26 @@ struct SourceAudioFileBlock : public cler::BlockBase {
         int ret = 0;
 
         while (samples_written < write_size) {
+            // What was decoded before and did not fit comes first
+            if (_pending_pos < _pending.size()) {
+                size_t n = std::min(_pending.size() - _pending_pos, write_size - samples_written);
+                std::copy_n(_pending.begin() + _pending_pos, n, write_ptr + samples_written);
+                _pending_pos += n;
+                samples_written += n;
+                continue;
+            }
+
+            // A packet may hold several frames
+            ret = avcodec_receive_frame(_codec_ctx, _frame);
+            if (ret == 0) {
+                if (!_resample_frame()) {
+                    return cler::Error::TERM_IOError;
+                }
+                continue;
+            } else if (ret != AVERROR(EAGAIN)) {
+                return cler::Error::TERM_IOError;
+            }
+
             ret = av_read_frame(_format_ctx, &_packet);
 
             if (ret == AVERROR_EOF) {
@@ -106,31 +128,6 @@ struct SourceAudioFileBlock : public cler::BlockBase {
             if (ret < 0) {
                 return cler::Error::TERM_IOError;
             }
-
-            while (avcodec_receive_frame(_codec_ctx, _frame) == 0) {
-                // Resample to desired format and sample rate
-                // Prepare output buffer pointer (advance by already-written samples)
-                uint8_t* out_buf = reinterpret_cast<uint8_t*>(write_ptr) + samples_written * sizeof(T);
-                uint8_t* out_bufs[] = {out_buf};
-
-                int frame_count = swr_convert(
-                    _resampler,
-                    out_bufs,
-                    write_size - samples_written,
-                    (const uint8_t**)_frame->data,
-                    _frame->nb_samples
-                );
-
-                if (frame_count < 0) {
-                    return cler::Error::TERM_IOError;
-                }
-
-                samples_written += frame_count;
-
-                if (samples_written >= write_size) {
-                    break;
-                }
-            }
         }
 
         if (samples_written > 0) {
@@ -156,6 +153,24 @@ private:
     AVPacket _packet = {};  // Zero-init (no av_init_packet needed)
     int _audio_stream_idx;
     bool _eof_reached;
+    std::vector<float> _pending;  // decoded and resampled, but not delivered yet
+    size_t _pending_pos = 0;
+
+    // Resample the frame to the output format into _pending, which has been delivered
+    bool _resample_frame() {
+        int max_samples = swr_get_out_samples(_resampler, _frame->nb_samples);
+        if (max_samples < 0) {
+            return false;
+        }
+        _pending.resize(max_samples);
+        _pending_pos = 0;
+
+        uint8_t* out_bufs[] = {reinterpret_cast<uint8_t*>(_pending.data())};
+        int count = swr_convert(_resampler, out_bufs, max_samples,
+                                (const uint8_t**)_frame->data, _frame->nb_samples);
+        _pending.resize(std::max(count, 0));
+        return count >= 0;
+    }
 
     void _open_audio_file() {
         // Open input file
-- 
2.43.0


From d62f07bd20845306668a702f0edd370cf8dd3294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 56/70] fix: audio file source lost the end of the file and
 reported it again and again

Neither decoder nor resampler was drained at the end of the file, so that the
frames they held back were lost, and the end was reported on every call.
---
 desktop_blocks/sources/source_audio_file.hpp | 60 ++++++++++++--------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 2d46f4e..8e4660b 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -87,32 +87,49 @@ struct SourceAudioFileBlock : public cler::BlockBase {
                 continue;
             }
 
+            if (_eof_reached) {
+                break;
+            }
+
+            // The decoder is empty, the resampler may hold something back
+            if (_draining) {
+                if (!_resample(nullptr, 0)) {
+                    return cler::Error::TERM_IOError;
+                }
+                if (_pending.empty()) {
+                    _eof_reached = true;
+                    if (_callback) {
+                        _callback(_filename);
+                    }
+                }
+                continue;
+            }
+
             // A packet may hold several frames
             ret = avcodec_receive_frame(_codec_ctx, _frame);
             if (ret == 0) {
-                if (!_resample_frame()) {
+                if (!_resample((const uint8_t**)_frame->data, _frame->nb_samples)) {
                     return cler::Error::TERM_IOError;
                 }
                 continue;
-            } else if (ret != AVERROR(EAGAIN)) {
-                return cler::Error::TERM_IOError;
-            }
-
-            ret = av_read_frame(_format_ctx, &_packet);
-
-            if (ret == AVERROR_EOF) {
+            } else if (ret == AVERROR_EOF) {
+                // All frames of the file are out
                 if (_repeat) {
                     // Seek to beginning and retry
                     av_seek_frame(_format_ctx, _audio_stream_idx, 0, AVSEEK_FLAG_BACKWARD);
                     avcodec_flush_buffers(_codec_ctx);
-                    continue;
                 } else {
-                    _eof_reached = true;
-                    if (_callback) {
-                        _callback(_filename);
-                    }
-                    break;
+                    _draining = true;
                 }
+                continue;
+            }
+
+            ret = av_read_frame(_format_ctx, &_packet);
+
+            if (ret == AVERROR_EOF) {
+                // The decoder may hold frames back until it knows that nothing follows
+                avcodec_send_packet(_codec_ctx, nullptr);
+                continue;
             } else if (ret < 0) {
                 return cler::Error::TERM_IOError;
             }
@@ -134,10 +151,6 @@ struct SourceAudioFileBlock : public cler::BlockBase {
             out->commit_write(samples_written);
         }
 
-        if (_eof_reached && samples_written == 0) {
-            return cler::Empty{};
-        }
-
         return cler::Empty{};
     }
 
@@ -152,22 +165,23 @@ private:
     AVFrame* _frame;
     AVPacket _packet = {};  // Zero-init (no av_init_packet needed)
     int _audio_stream_idx;
+    bool _draining = false;
     bool _eof_reached;
     std::vector<float> _pending;  // decoded and resampled, but not delivered yet
     size_t _pending_pos = 0;
 
-    // Resample the frame to the output format into _pending, which has been delivered
-    bool _resample_frame() {
-        int max_samples = swr_get_out_samples(_resampler, _frame->nb_samples);
+    // Resample to the output format into _pending, which has been delivered. Without data: what the resampler held back
+    bool _resample(const uint8_t** data, int nb_samples) {
+        int max_samples = swr_get_out_samples(_resampler, nb_samples);
         if (max_samples < 0) {
             return false;
         }
+        max_samples = std::max(max_samples, 256);
         _pending.resize(max_samples);
         _pending_pos = 0;
 
         uint8_t* out_bufs[] = {reinterpret_cast<uint8_t*>(_pending.data())};
-        int count = swr_convert(_resampler, out_bufs, max_samples,
-                                (const uint8_t**)_frame->data, _frame->nb_samples);
+        int count = swr_convert(_resampler, out_bufs, max_samples, data, nb_samples);
         _pending.resize(std::max(count, 0));
         return count >= 0;
     }
-- 
2.43.0


From 856f51e910bcb49f1562832036c4b013247c0030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 57/70] fix: repeating audio file source hung on a file without
 samples or without seeking

It seeks back forever, inside one call of its procedure.
---
 desktop_blocks/sources/source_audio_file.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 8e4660b..6c7bbb8 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -108,6 +108,7 @@ struct SourceAudioFileBlock : public cler::BlockBase {
             // A packet may hold several frames
             ret = avcodec_receive_frame(_codec_ctx, _frame);
             if (ret == 0) {
+                _samples_decoded = _samples_decoded || _frame->nb_samples > 0;
                 if (!_resample((const uint8_t**)_frame->data, _frame->nb_samples)) {
                     return cler::Error::TERM_IOError;
                 }
@@ -116,7 +117,13 @@ struct SourceAudioFileBlock : public cler::BlockBase {
                 // All frames of the file are out
                 if (_repeat) {
                     // Seek to beginning and retry
-                    av_seek_frame(_format_ctx, _audio_stream_idx, 0, AVSEEK_FLAG_BACKWARD);
+                    if (!_samples_decoded) {
+                        return cler::Error::TERM_EOFReached;  // nothing to repeat
+                    }
+                    _samples_decoded = false;
+                    if (av_seek_frame(_format_ctx, _audio_stream_idx, 0, AVSEEK_FLAG_BACKWARD) < 0) {
+                        return cler::Error::TERM_IOError;
+                    }
                     avcodec_flush_buffers(_codec_ctx);
                 } else {
                     _draining = true;
@@ -165,6 +172,7 @@ private:
     AVFrame* _frame;
     AVPacket _packet = {};  // Zero-init (no av_init_packet needed)
     int _audio_stream_idx;
+    bool _samples_decoded = false;
     bool _draining = false;
     bool _eof_reached;
     std::vector<float> _pending;  // decoded and resampled, but not delivered yet
-- 
2.43.0


From eff4d6a58c264fc06d1930e58d5a83fa3d86ee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 58/70] fix: audio file source leaked what it had opened when
 its construction failed

---
 desktop_blocks/sources/source_audio_file.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 6c7bbb8..bf632a1 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -57,7 +57,12 @@ struct SourceAudioFileBlock : public cler::BlockBase {
           _audio_stream_idx(-1),
           _eof_reached(false)
     {
-        _open_audio_file();
+        try {
+            _open_audio_file();
+        } catch (...) {
+            _close_audio_file();
+            throw;
+        }
     }
 
     ~SourceAudioFileBlock() {
@@ -221,7 +226,8 @@ private:
             throw std::runtime_error("Failed to allocate codec context");
         }
 
-        avcodec_parameters_to_context(_codec_ctx, stream->codecpar);
+        ret = avcodec_parameters_to_context(_codec_ctx, stream->codecpar);
+        ffmpeg_check(ret, "Failed to set codec parameters");
         ret = avcodec_open2(_codec_ctx, codec, nullptr);
         ffmpeg_check(ret, "Failed to open codec");
 
-- 
2.43.0


From ed2b8ced201e7b44aa2f471165d6d41dbd6322ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 59/70] fix: audio file source took every file with more than
 two channels for stereo

---
 desktop_blocks/sources/source_audio_file.hpp | 54 +++++++++++++-------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index bf632a1..9e04203 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -235,31 +235,49 @@ private:
         // FFmpeg version compatibility: handle channel layout API changes
         #if LIBAVCODEC_VERSION_MAJOR >= 59
             // FFmpeg 5.0+ (libavcodec 59+): New AVChannelLayout API
-            int64_t input_ch_layout = _codec_ctx->ch_layout.nb_channels > 1
-                ? AV_CH_LAYOUT_STEREO
-                : AV_CH_LAYOUT_MONO;
+            AVChannelLayout output_ch_layout = {};
+            av_channel_layout_default(&output_ch_layout, 1);
+            AVChannelLayout input_ch_layout = {};
+            if (_codec_ctx->ch_layout.order == AV_CHANNEL_ORDER_UNSPEC) {
+                av_channel_layout_default(&input_ch_layout, _codec_ctx->ch_layout.nb_channels);
+            } else {
+                ret = av_channel_layout_copy(&input_ch_layout, &_codec_ctx->ch_layout);
+                ffmpeg_check(ret, "Failed to copy channel layout");
+            }
+
+            ret = swr_alloc_set_opts2(
+                &_resampler,
+                &output_ch_layout,           // output: mono
+                AV_SAMPLE_FMT_FLT,           // output: float32
+                _output_sample_rate,          // output: target sample rate
+                &input_ch_layout,             // input: auto-detected channel layout
+                _codec_ctx->sample_fmt,       // input: original format
+                _codec_ctx->sample_rate,      // input: original sample rate
+                0,
+                nullptr
+            );
+            av_channel_layout_uninit(&input_ch_layout);
+            ffmpeg_check(ret, "Failed to allocate resampler");
         #else
             // FFmpeg 4.x (libavcodec 58): Legacy channel_layout/channels fields
             int64_t input_ch_layout = _codec_ctx->channel_layout;
             if (input_ch_layout == 0) {
                 // channel_layout not set, derive from channel count
-                input_ch_layout = _codec_ctx->channels > 1
-                    ? AV_CH_LAYOUT_STEREO
-                    : AV_CH_LAYOUT_MONO;
+                input_ch_layout = av_get_default_channel_layout(_codec_ctx->channels);
             }
-        #endif
 
-        _resampler = swr_alloc_set_opts(
-            nullptr,
-            AV_CH_LAYOUT_MONO,           // output: mono
-            AV_SAMPLE_FMT_FLT,           // output: float32
-            _output_sample_rate,          // output: target sample rate
-            input_ch_layout,              // input: auto-detected channel layout
-            _codec_ctx->sample_fmt,       // input: original format
-            _codec_ctx->sample_rate,      // input: original sample rate
-            0,
-            nullptr
-        );
+            _resampler = swr_alloc_set_opts(
+                nullptr,
+                AV_CH_LAYOUT_MONO,           // output: mono
+                AV_SAMPLE_FMT_FLT,           // output: float32
+                _output_sample_rate,          // output: target sample rate
+                input_ch_layout,              // input: auto-detected channel layout
+                _codec_ctx->sample_fmt,       // input: original format
+                _codec_ctx->sample_rate,      // input: original sample rate
+                0,
+                nullptr
+            );
+        #endif
 
         if (!_resampler) {
             throw std::runtime_error("Failed to allocate resampler");
-- 
2.43.0


From 4d43b1b21e59ac29e93523b8f66b8a882cc6e174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 60/70] fix: time runs and statistics with a clock that is
 never set

run_for() and the execution statistics used high_resolution_clock, which is
the wall clock in libstdc++. When the system time is set during a run (NTP, a
user, a board getting its time after boot), a timed run ended early or lasted
by as much longer, and runtimes and dead times came out negative or longer
than the run.
---
 include/cler.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 65dfd45..ae60f41 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -256,7 +256,7 @@ namespace cler {
         template<typename Rep, typename Period>
         void run_for(const std::chrono::duration<Rep, Period>& duration, const FlowGraphConfig& config = FlowGraphConfig{}) {
             // Start the flowgraph
-            auto start_time = std::chrono::high_resolution_clock::now();
+            auto start_time = std::chrono::steady_clock::now();
             run(config);
             
             // For longer durations, use sleep_us to avoid busy waiting
@@ -270,7 +270,7 @@ namespace cler {
             }
             
             // Use relax for the remaining time for precise timing
-            while (std::chrono::high_resolution_clock::now() - start_time < duration) {
+            while (std::chrono::steady_clock::now() - start_time < duration) {
                 TaskPolicy::relax();
             }
             
@@ -360,12 +360,12 @@ namespace cler {
             }
 
             // Only declare timing variables if needed
-            std::chrono::high_resolution_clock::time_point t_start, t_last;
+            std::chrono::steady_clock::time_point t_start, t_last;
             size_t successful = 0, failed = 0;
             double total_dead_time_s = 0.0;
 
             if (config.collect_detailed_stats) {
-                t_start = t_last = std::chrono::high_resolution_clock::now();
+                t_start = t_last = std::chrono::steady_clock::now();
             }
 
             while (!_stop_flag) {
@@ -375,7 +375,7 @@ namespace cler {
                 for (size_t c = 0; c < config.max_calls_per_tick && !_stop_flag; ++c) {
                     std::chrono::duration<double> dt{};
                     if (config.collect_detailed_stats) {
-                        auto t_now = std::chrono::high_resolution_clock::now();
+                        auto t_now = std::chrono::steady_clock::now();
                         dt = t_now - t_last;
                         t_last = t_now;
                     }
@@ -428,7 +428,7 @@ namespace cler {
             }
 
             if (config.collect_detailed_stats) {
-                auto t_end = std::chrono::high_resolution_clock::now();
+                auto t_end = std::chrono::steady_clock::now();
                 std::chrono::duration<double> total_runtime_s = t_end - t_start;
 
                 stats.successful_procedures = successful;
@@ -478,7 +478,7 @@ namespace cler {
         std::array<BlockExecutionStats, _N> _stats;
         OnErrTerminateCallback _on_err_terminate_cb = nullptr;
         void* _on_err_terminate_context = nullptr;
-        std::array<std::chrono::high_resolution_clock::time_point, _N> _block_start_times;
+        std::array<std::chrono::steady_clock::time_point, _N> _block_start_times;
         size_t _active_task_count{0};  // Track actual created tasks to fix stop() hang
         
         // Initialize block stats: every run starts from zero, names only if detailed stats enabled
@@ -499,8 +499,8 @@ namespace cler {
         
         // Helper for conditional timing
         auto get_time_if_needed(bool collect_stats) {
-            return collect_stats ? std::chrono::high_resolution_clock::now() : 
-                                 std::chrono::high_resolution_clock::time_point{};
+            return collect_stats ? std::chrono::steady_clock::now() : 
+                                 std::chrono::steady_clock::time_point{};
         }
         
         
@@ -609,7 +609,7 @@ namespace cler {
                 
                 // Record start time for all blocks (only if detailed stats enabled)
                 if (config.collect_detailed_stats) {
-                    auto start_time = std::chrono::high_resolution_clock::now();
+                    auto start_time = std::chrono::steady_clock::now();
                     for (size_t i = 0; i < _N; ++i) {
                         _block_start_times[i] = start_time;
                     }
@@ -648,7 +648,7 @@ namespace cler {
                     
                     // Update dead time if block failed to process
                     if (!block_did_work && config.collect_detailed_stats) {
-                        auto t_after = std::chrono::high_resolution_clock::now();
+                        auto t_after = std::chrono::steady_clock::now();
                         std::chrono::duration<double> dt = t_after - t_before;
                         _stats[block_idx].total_dead_time_s += dt.count();
                     }
@@ -664,7 +664,7 @@ namespace cler {
             
             // Finalize stats when worker exits (only if detailed stats enabled)
             if (config.collect_detailed_stats) {
-                auto end_time = std::chrono::high_resolution_clock::now();
+                auto end_time = std::chrono::steady_clock::now();
                 // IMPORTANT: In this scheduler each block is executed only by its owning worker.
                 // Stats writes are safe because there's no work-stealing or migration.
                 // If work-stealing is added later, _stats writes must be made thread-safe or owner-only.
-- 
2.43.0


From 6977ff749da4b3a77b0875c92d3ce739dfa3a606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 61/70] fix: let ThrottleBlock keep its rate when the wall
 clock is set

The next tick was kept in wall-clock time: setting the clock back made the
block sleep for as long as it was set back, setting it on let samples through
faster than the configured rate.
---
 desktop_blocks/utils/throttle.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/desktop_blocks/utils/throttle.hpp b/desktop_blocks/utils/throttle.hpp
index 9ce7ba9..321e049 100644
--- a/desktop_blocks/utils/throttle.hpp
+++ b/desktop_blocks/utils/throttle.hpp
@@ -11,7 +11,7 @@ struct ThrottleBlock : public cler::BlockBase {
           in(buffer_size),
           _sps(sps),
           _interval(1.0 / static_cast<double>(sps)),
-          _next_tick(std::chrono::high_resolution_clock::now())
+          _next_tick(std::chrono::steady_clock::now())
     {
         if (_sps == 0) {
             throw std::invalid_argument("Sample rate must be greater than zero.");
@@ -34,10 +34,10 @@ struct ThrottleBlock : public cler::BlockBase {
         out->push(sample);
 
         // Compute target time for the next sample
-        _next_tick += std::chrono::duration_cast<std::chrono::high_resolution_clock::duration>(
+        _next_tick += std::chrono::duration_cast<std::chrono::steady_clock::duration>(
             std::chrono::duration<double>(_interval));
 
-        auto now = std::chrono::high_resolution_clock::now();
+        auto now = std::chrono::steady_clock::now();
         if (now < _next_tick) {
             auto sleep_duration = _next_tick - now;
             std::this_thread::sleep_for(sleep_duration);
@@ -52,5 +52,5 @@ struct ThrottleBlock : public cler::BlockBase {
 private:
     size_t _sps;
     double _interval;  // interval between samples in seconds
-    std::chrono::high_resolution_clock::time_point _next_tick;
+    std::chrono::steady_clock::time_point _next_tick;
 };
-- 
2.43.0


From b8c0fdc7c5e66e4e60eebecd46e3f0f79e8a4165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 62/70] fix: measure ThroughputBlock's elapsed time with a
 steady clock

Setting the wall clock while samples pass falsified the reported throughput,
even to a negative one.
---
 desktop_blocks/utils/throughput.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/desktop_blocks/utils/throughput.hpp b/desktop_blocks/utils/throughput.hpp
index 61f08ea..7527d09 100644
--- a/desktop_blocks/utils/throughput.hpp
+++ b/desktop_blocks/utils/throughput.hpp
@@ -10,7 +10,7 @@ struct ThroughputBlock : public cler::BlockBase {
     ThroughputBlock(std::string name, size_t buffer_size = 0)
         : cler::BlockBase(std::move(name)),
           in(buffer_size == 0 ? cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T) : buffer_size),
-          _start_time(std::chrono::high_resolution_clock::now())
+          _start_time(std::chrono::steady_clock::now())
     {
         // If user provided a non-zero buffer size, validate it's sufficient
         if (buffer_size > 0 && buffer_size * sizeof(T) < cler::DOUBLY_MAPPED_MIN_SIZE) {
@@ -37,7 +37,7 @@ struct ThroughputBlock : public cler::BlockBase {
     }
 
     void report() {
-        auto end_time = std::chrono::high_resolution_clock::now();
+        auto end_time = std::chrono::steady_clock::now();
         std::chrono::duration<double> elapsed = end_time - _start_time;
 
         double seconds = elapsed.count();
@@ -55,5 +55,5 @@ struct ThroughputBlock : public cler::BlockBase {
 
 private:
     size_t _samples_passed = 0;
-    std::chrono::high_resolution_clock::time_point _start_time;
+    std::chrono::steady_clock::time_point _start_time;
 };
-- 
2.43.0


From c8ecd81e3753615f3d5bbb9cd7cc4f4a2a1f923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 63/70] fix: hand GuiManager's window title to GLFW as a
 terminated string

---
 desktop_blocks/gui/gui_manager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/gui/gui_manager.cpp b/desktop_blocks/gui/gui_manager.cpp
index ee55a24..641267b 100644
--- a/desktop_blocks/gui/gui_manager.cpp
+++ b/desktop_blocks/gui/gui_manager.cpp
@@ -3,6 +3,7 @@
 #include <GLFW/glfw3.h>
 #include "imgui_impl_glfw.h"
 #include "imgui_impl_opengl3.h"
+#include <string>
 
 namespace cler {
 
@@ -16,7 +17,7 @@ GuiManager::GuiManager(int width, int height, const std::string_view title) {
     glfwWindowHint(GLFW_OPENGL_PROFILE, GLFW_OPENGL_CORE_PROFILE);
     glfwWindowHint(GLFW_SAMPLES, 4);
 
-    window = glfwCreateWindow(width, height, title.data(), nullptr, nullptr);
+    window = glfwCreateWindow(width, height, std::string(title).c_str(), nullptr, nullptr);
     if (!window) {
         throw std::runtime_error("Failed to create GLFW window");
     }
-- 
2.43.0


From 7554c2fa958e932ba5352ea914a62169ffe27fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 64/70] fix: shut GLFW down when GuiManager's window cannot be
 created

---
 desktop_blocks/gui/gui_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/desktop_blocks/gui/gui_manager.cpp b/desktop_blocks/gui/gui_manager.cpp
index 641267b..8f49df9 100644
--- a/desktop_blocks/gui/gui_manager.cpp
+++ b/desktop_blocks/gui/gui_manager.cpp
@@ -19,6 +19,7 @@ GuiManager::GuiManager(int width, int height, const std::string_view title) {
 
     window = glfwCreateWindow(width, height, std::string(title).c_str(), nullptr, nullptr);
     if (!window) {
+        glfwTerminate();
         throw std::runtime_error("Failed to create GLFW window");
     }
     glfwMakeContextCurrent(window);
-- 
2.43.0


From dfb00aca87b785cc5eacf16eace839c5ca1f1334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 65/70] fix: do not combine even and odd ADS-B position frames
 received minutes apart

---
 desktop_blocks/adsb/adsb_aggregate.hpp | 11 +++++++++--
 desktop_blocks/adsb/adsb_types.hpp     |  3 +++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index 2aac54c..e57967d 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -110,14 +110,20 @@ struct ADSBAggregateBlock : public cler::BlockBase {
                     state.last_even_cprlat = msg.raw_latitude;
                     state.last_even_cprlon = msg.raw_longitude;
                     state.has_even_position = true;
+                    state.last_even_time = now;
                 } else {  // Odd frame (fflag == 1)
                     state.last_odd_cprlat = msg.raw_latitude;
                     state.last_odd_cprlon = msg.raw_longitude;
                     state.has_odd_position = true;
+                    state.last_odd_time = now;
                 }
 
-                // Try to decode position if we have both even and odd frames
-                if (state.has_even_position && state.has_odd_position) {
+                // Try to decode position if we have both even and odd frames, close enough in time:
+                // a pair is ambiguous once the aircraft has moved about 3 NM between them
+                const uint32_t pair_age = state.last_even_time > state.last_odd_time
+                    ? state.last_even_time - state.last_odd_time
+                    : state.last_odd_time - state.last_even_time;
+                if (state.has_even_position && state.has_odd_position && pair_age <= MAX_POSITION_PAIR_AGE_S) {
                     double lat, lon;
                     int result = decodeCPRairborne(
                         state.last_even_cprlat, state.last_even_cprlon,
@@ -261,6 +267,7 @@ private:
     CoastlineData _coastline_data;
     bool _coastlines_loaded;
 
+    static constexpr uint32_t MAX_POSITION_PAIR_AGE_S = 10;
     static constexpr size_t MESSAGE_BUFFER_SIZE = 1024;
     mode_s_msg _msg_buffer[MESSAGE_BUFFER_SIZE];
 
diff --git a/desktop_blocks/adsb/adsb_types.hpp b/desktop_blocks/adsb/adsb_types.hpp
index 13d3f37..a10c10c 100644
--- a/desktop_blocks/adsb/adsb_types.hpp
+++ b/desktop_blocks/adsb/adsb_types.hpp
@@ -24,6 +24,8 @@ struct ADSBState {
     int last_odd_cprlon;            // Last odd frame longitude (17 bits)
     bool has_even_position;         // True if we have a valid even position
     bool has_odd_position;          // True if we have a valid odd position
+    uint32_t last_even_time;        // Timestamp of last even frame
+    uint32_t last_odd_time;         // Timestamp of last odd frame
 
     // Altitude and speed (most recent)
     int altitude;                   // Altitude (feet)
@@ -41,6 +43,7 @@ struct ADSBState {
           last_even_cprlat(0), last_even_cprlon(0),
           last_odd_cprlat(0), last_odd_cprlon(0),
           has_even_position(false), has_odd_position(false),
+          last_even_time(0), last_odd_time(0),
           altitude(0), groundspeed(0.0f), track(0.0f), vertical_rate(0),
           last_update_time(0), message_count(0) {
         callsign[0] = '\0';
-- 
2.43.0


From 07638f2e07344df66e8408cb54872a27b2ecd79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 66/70] fix: skip comments between a BlockRunner's arguments in
 the diagram tool

---
 tools/mermaid/src/cpp_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/mermaid/src/cpp_parser.cpp b/tools/mermaid/src/cpp_parser.cpp
index a9d61ae..76e0ab4 100644
--- a/tools/mermaid/src/cpp_parser.cpp
+++ b/tools/mermaid/src/cpp_parser.cpp
@@ -280,7 +280,8 @@ void CppParser::extract_single_blockrunner(TSNode node, const std::string&) {
         const char* child_type = ts_node_type(child);
         if (strcmp(child_type, ",") != 0 &&
             strcmp(child_type, "(") != 0 &&
-            strcmp(child_type, ")") != 0) {
+            strcmp(child_type, ")") != 0 &&
+            strcmp(child_type, "comment") != 0) {
             std::string arg_text = get_node_text(child);
             if (!arg_text.empty() && arg_text[0] == '&') {
                 arg_text = arg_text.substr(1);
-- 
2.43.0


From 8d3b7bd3b34d8af6c2eaebe4b1d04f5d33530b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 67/70] fix: name the diagram of a file in the current
 directory without its extension

---
 tools/mermaid/src/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/mermaid/src/main.cpp b/tools/mermaid/src/main.cpp
index 4b1cefd..29970b4 100644
--- a/tools/mermaid/src/main.cpp
+++ b/tools/mermaid/src/main.cpp
@@ -133,7 +133,8 @@ int main(int argc, char* argv[]) {
                     base_name = input_file;
                 }
 
-                if (last_dot != std::string::npos && last_dot > last_slash) {
+                if (last_dot != std::string::npos &&
+                    (last_slash == std::string::npos || last_dot > last_slash)) {
                     base_name = base_name.substr(0, last_dot - (last_slash == std::string::npos ? 0 : last_slash + 1));
                 }
 
-- 
2.43.0


From 681da75efbc3a35b21ce105ea32f7c4a8343d1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 68/70] fix: report a diagram that cannot be written

---
 tools/mermaid/src/mermaid_renderer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/mermaid/src/mermaid_renderer.cpp b/tools/mermaid/src/mermaid_renderer.cpp
index a2f2b2e..b9da664 100644
--- a/tools/mermaid/src/mermaid_renderer.cpp
+++ b/tools/mermaid/src/mermaid_renderer.cpp
@@ -3,6 +3,7 @@
 #include <sstream>
 #include <algorithm>
 #include <cctype>
+#include <stdexcept>
 
 namespace cler {
 
@@ -19,6 +20,10 @@ void MermaidRenderer::render_to_file(const FlowGraph& flowgraph,
     std::string content = generate_mermaid(flowgraph);
     std::ofstream file(output_path + ".md");
     file << content;
+    file.close();
+    if (!file) {
+        throw std::runtime_error("Cannot write file: " + output_path + ".md");
+    }
 }
 
 std::string MermaidRenderer::generate_mermaid(const FlowGraph& flowgraph) {
-- 
2.43.0


From 1d0b3be31d93c3ebfaa2976489cb983a1f9033dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:32 +0000
Subject: [PATCH 69/70] fix: ZF_LOGV_MEM_AUX writes through the given log
 instance (it did not compile where verbose logging is enabled)

---
 desktop_logger/zf_log/zf_log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_logger/zf_log/zf_log.h b/desktop_logger/zf_log/zf_log.h
index 9e5de62..cae4a4c 100644
--- a/desktop_logger/zf_log/zf_log.h
+++ b/desktop_logger/zf_log/zf_log.h
@@ -809,7 +809,7 @@ static _ZF_LOG_INLINE void _zf_log_unused(const int dummy, ...) {(void)dummy;}
 	#define ZF_LOGV_MEM(d, d_sz, ...) \
 			ZF_LOG_WRITE_MEM(ZF_LOG_VERBOSE, _ZF_LOG_TAG, d, d_sz, __VA_ARGS__)
 	#define ZF_LOGV_MEM_AUX(log, d, d_sz, ...) \
-			ZF_LOG_WRITE_MEM(log, ZF_LOG_VERBOSE, _ZF_LOG_TAG, d, d_sz, __VA_ARGS__)
+			ZF_LOG_WRITE_MEM_AUX(log, ZF_LOG_VERBOSE, _ZF_LOG_TAG, d, d_sz, __VA_ARGS__)
 #else
 	#define ZF_LOGV(...) _ZF_LOG_UNUSED(__VA_ARGS__)
 	#define ZF_LOGV_AUX(...) _ZF_LOG_UNUSED(__VA_ARGS__)
-- 
2.43.0


From 723b11854691d2253bc9c27e738b2e53e1ee3a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:01 +0000
Subject: [PATCH 70/70] fix: the diagram tool finds blocks and channels
 whatever stands between the tokens of an argument

---
 tools/mermaid/src/cpp_parser.cpp | 17 ++++++++++++++++-
 tools/mermaid/src/cpp_parser.h   |  2 ++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/tools/mermaid/src/cpp_parser.cpp b/tools/mermaid/src/cpp_parser.cpp
index 76e0ab4..1ae0863 100644
--- a/tools/mermaid/src/cpp_parser.cpp
+++ b/tools/mermaid/src/cpp_parser.cpp
@@ -121,6 +121,21 @@ std::string CppParser::get_node_text(TSNode node) const {
     return std::string(source_code_ + start, end - start);
 }
 
+std::string CppParser::get_code_text(TSNode node) const {
+    if (strcmp(ts_node_type(node), "comment") == 0) {
+        return "";
+    }
+    uint32_t child_count = ts_node_child_count(node);
+    if (child_count == 0) {
+        return get_node_text(node);
+    }
+    std::string text;
+    for (uint32_t i = 0; i < child_count; i++) {
+        text += get_code_text(ts_node_child(node, i));
+    }
+    return text;
+}
+
 TSNode CppParser::find_child_by_type(TSNode node, const char* type) const {
     uint32_t child_count = ts_node_child_count(node);
     for (uint32_t i = 0; i < child_count; i++) {
@@ -282,7 +297,7 @@ void CppParser::extract_single_blockrunner(TSNode node, const std::string&) {
             strcmp(child_type, "(") != 0 &&
             strcmp(child_type, ")") != 0 &&
             strcmp(child_type, "comment") != 0) {
-            std::string arg_text = get_node_text(child);
+            std::string arg_text = get_code_text(child);
             if (!arg_text.empty() && arg_text[0] == '&') {
                 arg_text = arg_text.substr(1);
             }
diff --git a/tools/mermaid/src/cpp_parser.h b/tools/mermaid/src/cpp_parser.h
index d0da96a..f4a282e 100644
--- a/tools/mermaid/src/cpp_parser.h
+++ b/tools/mermaid/src/cpp_parser.h
@@ -58,6 +58,8 @@ private:
     void infer_channel_directions();
 
     std::string get_node_text(TSNode node) const;
+    // The text without comments and white space between the tokens
+    std::string get_code_text(TSNode node) const;
     TSNode find_child_by_type(TSNode node, const char* type) const;
     std::string get_function_name(TSNode node) const;
     void walk_ast(TSNode node, void (CppParser::*visitor)(TSNode, const std::string&));
-- 
2.43.0

