From 179c9801dae1256aacd03133ce7c5896688fb528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:10 +0000
Subject: [PATCH 01/80] fix: ThreadPool reads and writes the task exception
 without synchronisation

Workers stored std::current_exception() in a shared std::exception_ptr while
other workers, block() and checkForException() read or stored it: a data race
on a reference counted pointer. Guard it with its own mutex.
---
 .../AlexandriaKernel/ThreadPool.h             |  1 +
 AlexandriaKernel/src/lib/ThreadPool.cpp       | 25 ++++++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/AlexandriaKernel/AlexandriaKernel/ThreadPool.h b/AlexandriaKernel/AlexandriaKernel/ThreadPool.h
index acf4889..6d00e8d 100644
--- a/AlexandriaKernel/AlexandriaKernel/ThreadPool.h
+++ b/AlexandriaKernel/AlexandriaKernel/ThreadPool.h
@@ -112,6 +112,7 @@ private:
   std::vector<std::thread>       m_workers;
   std::deque<Task>               m_queue;
   unsigned int                   m_empty_queue_wait_time;
+  std::mutex                     m_exception_mutex;
   std::exception_ptr             m_exception_ptr;
 
 }; /* End of ThreadPool class */
diff --git a/AlexandriaKernel/src/lib/ThreadPool.cpp b/AlexandriaKernel/src/lib/ThreadPool.cpp
index e1fe626..4f084fd 100644
--- a/AlexandriaKernel/src/lib/ThreadPool.cpp
+++ b/AlexandriaKernel/src/lib/ThreadPool.cpp
@@ -36,17 +36,18 @@ class Worker {
 public:
   Worker(std::mutex& queue_mutex, std::deque<ThreadPool::Task>& queue, std::atomic<bool>& run_flag,
          std::atomic<bool>& sleeping_flag, std::atomic<bool>& done_flag, unsigned int empty_queue_wait_time,
-         std::exception_ptr& exception_ptr)
+         std::mutex& exception_mutex, std::exception_ptr& exception_ptr)
       : m_queue_mutex(queue_mutex)
       , m_queue(queue)
       , m_run_flag(run_flag)
       , m_sleeping_flag(sleeping_flag)
       , m_done_flag(done_flag)
       , m_empty_queue_wait_time(empty_queue_wait_time)
+      , m_exception_mutex(exception_mutex)
       , m_exception_ptr(exception_ptr) {}
 
   void operator()() {
-    while (m_run_flag.get() && m_exception_ptr == nullptr) {
+    while (m_run_flag.get() && !hasException()) {
       // Check if there is anything it the queue to be done and get it
       std::unique_ptr<ThreadPool::Task> task_ptr = nullptr;
       std::unique_lock<std::mutex>      lock{m_queue_mutex.get()};
@@ -61,6 +62,7 @@ public:
         try {
           (*task_ptr)();
         } catch (...) {
+          std::lock_guard<std::mutex> exception_lock{m_exception_mutex.get()};
           m_exception_ptr.get() = std::current_exception();
         }
       } else {
@@ -76,12 +78,18 @@ public:
   }
 
 private:
+  bool hasException() const {
+    std::lock_guard<std::mutex> exception_lock{m_exception_mutex.get()};
+    return m_exception_ptr.get() != nullptr;
+  }
+
   std::reference_wrapper<std::mutex>                   m_queue_mutex;
   std::reference_wrapper<std::deque<ThreadPool::Task>> m_queue;
   std::reference_wrapper<std::atomic<bool>>            m_run_flag;
   std::reference_wrapper<std::atomic<bool>>            m_sleeping_flag;
   std::reference_wrapper<std::atomic<bool>>            m_done_flag;
   unsigned int                                         m_empty_queue_wait_time;
+  std::reference_wrapper<std::mutex>                   m_exception_mutex;
   std::reference_wrapper<std::exception_ptr>           m_exception_ptr;
 };
 
@@ -97,7 +105,7 @@ ThreadPool::ThreadPool(unsigned int thread_count, unsigned int empty_queue_wait_
     m_worker_sleeping_flags.at(i) = false;
     m_worker_done_flags.at(i)     = false;
     m_workers.emplace_back(Worker{m_queue_mutex, m_queue, m_worker_run_flags.at(i), m_worker_sleeping_flags.at(i),
-                                  m_worker_done_flags.at(i), m_empty_queue_wait_time, m_exception_ptr});
+                                  m_worker_done_flags.at(i), m_empty_queue_wait_time, m_exception_mutex, m_exception_ptr});
   }
 }
 
@@ -115,9 +123,14 @@ void waitWorkers(std::vector<std::atomic<bool>>& worker_flags, unsigned int wait
 }  // namespace
 
 bool ThreadPool::checkForException(bool rethrow) {
-  if (m_exception_ptr) {
+  std::exception_ptr exception;
+  {
+    std::lock_guard<std::mutex> lock{m_exception_mutex};
+    exception = m_exception_ptr;
+  }
+  if (exception) {
     if (rethrow) {
-      std::rethrow_exception(m_exception_ptr);
+      std::rethrow_exception(exception);
     } else {
       return true;
     }
@@ -144,7 +157,7 @@ size_t ThreadPool::activeThreads() const {
 void ThreadPool::block() {
   // Wait for the queue to be empty
   bool queue_is_empty = false;
-  while (!queue_is_empty && m_exception_ptr == nullptr) {
+  while (!queue_is_empty && !checkForException()) {
     std::unique_lock<std::mutex> lock{m_queue_mutex};
     queue_is_empty = m_queue.empty();
     lock.unlock();
-- 
2.43.0


From 698caecaa9a416b6c0fe8102700e842a27c3b0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:10 +0000
Subject: [PATCH 02/80] fix: ThreadPool worker terminates the process when
 copying a queued task throws

The worker copied the task out of the queue (two allocations and the copy
constructor of the callable) outside of its try block. Move it instead.
---
 AlexandriaKernel/src/lib/ThreadPool.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/AlexandriaKernel/src/lib/ThreadPool.cpp b/AlexandriaKernel/src/lib/ThreadPool.cpp
index 4f084fd..9004f38 100644
--- a/AlexandriaKernel/src/lib/ThreadPool.cpp
+++ b/AlexandriaKernel/src/lib/ThreadPool.cpp
@@ -49,18 +49,21 @@ public:
   void operator()() {
     while (m_run_flag.get() && !hasException()) {
       // Check if there is anything it the queue to be done and get it
-      std::unique_ptr<ThreadPool::Task> task_ptr = nullptr;
-      std::unique_lock<std::mutex>      lock{m_queue_mutex.get()};
+      ThreadPool::Task             task;
+      bool                         has_task = false;
+      std::unique_lock<std::mutex> lock{m_queue_mutex.get()};
       if (!m_queue.get().empty()) {
-        task_ptr = Euclid::make_unique<ThreadPool::Task>(m_queue.get().front());
+        // Moved, not copied: copying a task can throw, and nothing would catch it in this thread
+        task     = std::move(m_queue.get().front());
+        has_task = true;
         m_queue.get().pop_front();
       }
       lock.unlock();
 
       // If we have some work to do, do it. Otherwise sleep for some time.
-      if (task_ptr) {
+      if (has_task) {
         try {
-          (*task_ptr)();
+          task();
         } catch (...) {
           std::lock_guard<std::mutex> exception_lock{m_exception_mutex.get()};
           m_exception_ptr.get() = std::current_exception();
-- 
2.43.0


From 41516746d10641f60bcc3546abeece8b575a697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:10 +0000
Subject: [PATCH 03/80] fix: ThreadPool construction terminates the process
 when a thread cannot be started

If starting a thread failed, the exception destroyed the joinable threads
already created (std::terminate). Stop and join them and let the exception out.
---
 AlexandriaKernel/src/lib/ThreadPool.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/AlexandriaKernel/src/lib/ThreadPool.cpp b/AlexandriaKernel/src/lib/ThreadPool.cpp
index 9004f38..1af45ab 100644
--- a/AlexandriaKernel/src/lib/ThreadPool.cpp
+++ b/AlexandriaKernel/src/lib/ThreadPool.cpp
@@ -103,12 +103,21 @@ ThreadPool::ThreadPool(unsigned int thread_count, unsigned int empty_queue_wait_
     , m_worker_sleeping_flags(thread_count)
     , m_worker_done_flags(thread_count)
     , m_empty_queue_wait_time(empty_queue_wait_time) {
-  for (unsigned int i = 0; i < thread_count; ++i) {
-    m_worker_run_flags.at(i)      = true;
-    m_worker_sleeping_flags.at(i) = false;
-    m_worker_done_flags.at(i)     = false;
-    m_workers.emplace_back(Worker{m_queue_mutex, m_queue, m_worker_run_flags.at(i), m_worker_sleeping_flags.at(i),
-                                  m_worker_done_flags.at(i), m_empty_queue_wait_time, m_exception_mutex, m_exception_ptr});
+  try {
+    for (unsigned int i = 0; i < thread_count; ++i) {
+      m_worker_run_flags.at(i)      = true;
+      m_worker_sleeping_flags.at(i) = false;
+      m_worker_done_flags.at(i)     = false;
+      m_workers.emplace_back(Worker{m_queue_mutex, m_queue, m_worker_run_flags.at(i), m_worker_sleeping_flags.at(i),
+                                    m_worker_done_flags.at(i), m_empty_queue_wait_time, m_exception_mutex, m_exception_ptr});
+    }
+  } catch (...) {
+    // The threads already started must be stopped and joined before the exception leaves
+    std::fill(m_worker_run_flags.begin(), m_worker_run_flags.end(), false);
+    for (auto& worker : m_workers) {
+      worker.join();
+    }
+    throw;
   }
 }
 
-- 
2.43.0


From f950f8fd2a1c06e5566dc5366491d26d98326948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:10 +0000
Subject: [PATCH 04/80] fix: ThreadPool without threads deadlocks when a task
 uses the pool

submit() ran the task with the queue mutex locked, so a task that submits
another one or asks for queued() locked it again.
---
 AlexandriaKernel/src/lib/ThreadPool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/AlexandriaKernel/src/lib/ThreadPool.cpp b/AlexandriaKernel/src/lib/ThreadPool.cpp
index 1af45ab..2fe1beb 100644
--- a/AlexandriaKernel/src/lib/ThreadPool.cpp
+++ b/AlexandriaKernel/src/lib/ThreadPool.cpp
@@ -195,10 +195,11 @@ ThreadPool::~ThreadPool() {
 }
 
 void ThreadPool::submit(Task task) {
-  std::lock_guard<std::mutex> lock{m_queue_mutex};
+  // Without workers the task runs here, and not under the lock: it may use the pool itself
   if (m_worker_run_flags.empty()) {
     task();
   } else {
+    std::lock_guard<std::mutex> lock{m_queue_mutex};
     m_queue.emplace_back(std::move(task));
   }
 }
-- 
2.43.0


From c29a209cad7d728fd49f0551e6b5129e9c909fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:59 +0000
Subject: [PATCH 05/80] fix: FileHandler throws for kTryRead/kTryWrite when the
 lock is available

A successful try_lock fell through to lock(), which throws
boost::lock_error since the lock is already owned, so the try modes
never produced an accessor.
---
 FilePool/FilePool/_impl/FileHandler.icpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index 8e7324c..c2531eb 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -29,8 +29,10 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
   assert(manager);
 
   UniqueLock unique_lock(m_file_mutex, boost::defer_lock);
-  if (try_lock && !unique_lock.try_lock()) {
-    return nullptr;
+  if (try_lock) {
+    if (!unique_lock.try_lock()) {
+      return nullptr;
+    }
   } else {
     unique_lock.lock();
   }
@@ -87,8 +89,10 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
   assert(manager);
 
   SharedLock shared_lock(m_file_mutex, boost::defer_lock);
-  if (try_lock && !shared_lock.try_lock()) {
-    return nullptr;
+  if (try_lock) {
+    if (!shared_lock.try_lock()) {
+      return nullptr;
+    }
   } else {
     shared_lock.lock();
   }
-- 
2.43.0


From 24c162ce7fa1669c7cce0c366fc9e61f5d0a3ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:59 +0000
Subject: [PATCH 06/80] fix: FileHandler drops a writable descriptor of another
 type without closing it

The descriptor was destroyed but never closed nor unregistered, so it
was leaked and counted against the limit of the manager forever.
---
 FilePool/FilePool/_impl/FileHandler.icpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index c2531eb..b64cf12 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -54,6 +54,7 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
   if (!m_available_fd.empty()) {
     auto typed_ptr = dynamic_cast<TypedFdWrapper<TFD>*>(m_available_fd.begin()->second.get());
     if (!typed_ptr) {
+      m_available_fd.begin()->second->close();
       m_available_fd.clear();
     }
   }
-- 
2.43.0


From bfd890a0d5c8854e0b3b4be03219abf6019f4900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:16 +0000
Subject: [PATCH 07/80] fix: FileHandler deadlocks when opening a file requires
 closing another

The handler mutex was held while the manager opened the file. At the
limit the manager asks handlers to close a descriptor, which needs
their mutex: a handler with an idle descriptor deadlocks with itself,
and two handlers opening concurrently deadlock with each other.
---
 FilePool/FilePool/_impl/FileHandler.icpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index b64cf12..dc3f4cf 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -37,7 +37,7 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
     unique_lock.lock();
   }
 
-  std::lock_guard<std::mutex> this_lock(m_handler_mutex);
+  std::unique_lock<std::mutex> this_lock(m_handler_mutex);
 
   // If we have changed mode, we need to close all existing fd
   if (m_is_readonly) {
@@ -61,7 +61,10 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
 
   // Open one file if we need
   if (m_available_fd.empty()) {
+    // The manager may need to close descriptors (of this handler too), so do not hold the mutex meanwhile
+    this_lock.unlock();
     auto fd = manager->open<TFD>(m_path, true, [this](FileManager::FileId id) { return this->close(id); });
+    this_lock.lock();
     m_available_fd[fd.first] =
         std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(fd.first, std::move(fd.second), manager.get()));
   }
@@ -98,7 +101,7 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
     shared_lock.lock();
   }
 
-  std::lock_guard<std::mutex> this_lock(m_handler_mutex);
+  std::unique_lock<std::mutex> this_lock(m_handler_mutex);
 
   // If we have changed mode, we need to close all existing fd
   if (!m_is_readonly) {
@@ -119,7 +122,10 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
 
   // Open one file if we need
   if (!typed_ptr) {
-    auto fd   = manager->open<TFD>(m_path, false, [this](FileManager::FileId id) { return this->close(id); });
+    // The manager may need to close descriptors (of this handler too), so do not hold the mutex meanwhile
+    this_lock.unlock();
+    auto fd = manager->open<TFD>(m_path, false, [this](FileManager::FileId id) { return this->close(id); });
+    this_lock.lock();
     typed_ptr = new TypedFdWrapper<TFD>(fd.first, std::move(fd.second), manager.get());
     avail_i   = m_available_fd.emplace(fd.first, std::unique_ptr<TypedFdWrapper<TFD>>(typed_ptr)).first;
   }
-- 
2.43.0


From 8451a4f4db73a94654375a5755fa907bd4d4f8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:16 +0000
Subject: [PATCH 08/80] fix: releasing a FileHandler can unregister a newer
 handler of the same file

If the file is requested again between the last reference being dropped
and the deleter taking the mutex, the deleter removed the new handler
from the map. A third request then got another handler for a file
already in use, without any read/write protection between the two.
---
 FilePool/src/lib/FileManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FilePool/src/lib/FileManager.cpp b/FilePool/src/lib/FileManager.cpp
index 461b6d1..5ac68e4 100644
--- a/FilePool/src/lib/FileManager.cpp
+++ b/FilePool/src/lib/FileManager.cpp
@@ -106,7 +106,11 @@ std::shared_ptr<FileHandler> FileManager::getFileHandler(const boost::filesystem
         auto this_shared = this_weak.lock();
         if (this_shared) {
           std::lock_guard<std::mutex> manager_lock(this_shared->m_mutex);
-          this_shared->m_handlers.erase(canonical);
+          // There could be already a new handler for the same path
+          auto iter = this_shared->m_handlers.find(canonical);
+          if (iter != this_shared->m_handlers.end() && iter->second.expired()) {
+            this_shared->m_handlers.erase(iter);
+          }
         }
       }
       delete obj;
-- 
2.43.0


From bee65ace5481e7940e16054732a2c661742c6625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:57 +0000
Subject: [PATCH 09/80] fix: FileManager asks already destroyed handlers and
 descriptors to close

The manager calls the close requests without holding its mutex, so by
then another thread may have released the handler the callback refers
to, or closed the file the metadata belongs to.
---
 FilePool/FilePool/FileHandler.h          |  3 ++-
 FilePool/FilePool/_impl/FileHandler.icpp | 12 +++++++++--
 FilePool/src/lib/FileManager.cpp         | 27 ++++++++++++------------
 3 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/FilePool/FilePool/FileHandler.h b/FilePool/FilePool/FileHandler.h
index 00a5dd7..5b1c41b 100644
--- a/FilePool/FilePool/FileHandler.h
+++ b/FilePool/FilePool/FileHandler.h
@@ -23,6 +23,7 @@
 #include "FileManager.h"
 #include <boost/filesystem/path.hpp>
 #include <list>
+#include <memory>
 
 namespace Euclid {
 namespace FilePool {
@@ -36,7 +37,7 @@ namespace FilePool {
  * not* close a file being accessed, so it should just refuse to do so and let the FileManager
  * figure it out.
  */
-class FileHandler {
+class FileHandler : public std::enable_shared_from_this<FileHandler> {
 public:
   /// Open modes
   enum Mode { kRead = 0, kWrite = 1, kTry = 2, kTryRead = kTry, kTryWrite = kTry | kWrite };
diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index dc3f4cf..02b1cb8 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -63,7 +63,11 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
   if (m_available_fd.empty()) {
     // The manager may need to close descriptors (of this handler too), so do not hold the mutex meanwhile
     this_lock.unlock();
-    auto fd = manager->open<TFD>(m_path, true, [this](FileManager::FileId id) { return this->close(id); });
+    std::weak_ptr<FileHandler> this_weak = shared_from_this();
+    auto fd = manager->open<TFD>(m_path, true, [this_weak](FileManager::FileId id) {
+      auto this_shared = this_weak.lock();
+      return this_shared && this_shared->close(id);
+    });
     this_lock.lock();
     m_available_fd[fd.first] =
         std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(fd.first, std::move(fd.second), manager.get()));
@@ -124,7 +128,11 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
   if (!typed_ptr) {
     // The manager may need to close descriptors (of this handler too), so do not hold the mutex meanwhile
     this_lock.unlock();
-    auto fd = manager->open<TFD>(m_path, false, [this](FileManager::FileId id) { return this->close(id); });
+    std::weak_ptr<FileHandler> this_weak = shared_from_this();
+    auto fd = manager->open<TFD>(m_path, false, [this_weak](FileManager::FileId id) {
+      auto this_shared = this_weak.lock();
+      return this_shared && this_shared->close(id);
+    });
     this_lock.lock();
     typed_ptr = new TypedFdWrapper<TFD>(fd.first, std::move(fd.second), manager.get());
     avail_i   = m_available_fd.emplace(fd.first, std::unique_ptr<TypedFdWrapper<TFD>>(typed_ptr)).first;
diff --git a/FilePool/src/lib/FileManager.cpp b/FilePool/src/lib/FileManager.cpp
index 5ac68e4..291a036 100644
--- a/FilePool/src/lib/FileManager.cpp
+++ b/FilePool/src/lib/FileManager.cpp
@@ -73,18 +73,18 @@ void FileManager::notifyUsed(FileId id) {
 }
 
 void FileManager::closeAll() {
-  std::vector<FileMetadata*> to_be_closed;
+  std::vector<std::function<bool(void)>> to_be_closed;
 
-  // To avoid deadlocks on the callback, we get the pointers first
+  // To avoid deadlocks on the callback, we get a copy of them first
   {
     std::unique_lock<std::mutex> lock(m_mutex);
     std::transform(m_files.begin(), m_files.end(), std::back_inserter(to_be_closed),
-                   [](std::pair<FileId const, std::unique_ptr<FileMetadata>>& entry) { return entry.second.get(); });
+                   [](std::pair<FileId const, std::unique_ptr<FileMetadata>>& entry) { return entry.second->m_request_close; });
   }
 
   // And request the closing after
-  for (auto& fd : to_be_closed) {
-    fd->m_request_close();
+  for (auto& request_close : to_be_closed) {
+    request_close();
   }
 }
 
@@ -102,15 +102,14 @@ std::shared_ptr<FileHandler> FileManager::getFileHandler(const boost::filesystem
   if (!handler_ptr) {
     std::weak_ptr<FileManager> this_weak = shared_from_this();
     handler_ptr = std::shared_ptr<FileHandler>(new FileHandler(canonical, this_weak), [this_weak, canonical](FileHandler* obj) {
-      {
-        auto this_shared = this_weak.lock();
-        if (this_shared) {
-          std::lock_guard<std::mutex> manager_lock(this_shared->m_mutex);
-          // There could be already a new handler for the same path
-          auto iter = this_shared->m_handlers.find(canonical);
-          if (iter != this_shared->m_handlers.end() && iter->second.expired()) {
-            this_shared->m_handlers.erase(iter);
-          }
+      // Must outlive the handler, which still has to close its descriptors
+      auto this_shared = this_weak.lock();
+      if (this_shared) {
+        std::lock_guard<std::mutex> manager_lock(this_shared->m_mutex);
+        // There could be already a new handler for the same path
+        auto iter = this_shared->m_handlers.find(canonical);
+        if (iter != this_shared->m_handlers.end() && iter->second.expired()) {
+          this_shared->m_handlers.erase(iter);
         }
       }
       delete obj;
-- 
2.43.0


From c9d383b4289c524bfb38bcdc59ca55ee4865cd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:57 +0000
Subject: [PATCH 10/80] fix: FileAccessor uses a destroyed FileHandler when it
 outlives it

manager->getFileHandler(path)->getAccessor<TFD>() destroys the handler
right away, while the accessor holds a lock on its mutex and returns
the descriptor to it.
---
 FilePool/FilePool/_impl/FileHandler.icpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index 02b1cb8..583c259 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -81,7 +81,9 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
   auto id        = typed_ptr->m_id;
   m_available_fd.clear();
 
-  auto return_callback = [this, id, manager](TFD&& returned_fd) {
+  // The accessor keeps the handler alive: it owns the mutex, and gets the descriptor back
+  auto this_shared     = shared_from_this();
+  auto return_callback = [this, this_shared, id, manager](TFD&& returned_fd) {
     std::lock_guard<std::mutex> lambda_this_lock(m_handler_mutex);
     m_available_fd[id] = std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(id, std::move(returned_fd), manager.get()));
   };
@@ -145,7 +147,9 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
   auto id = typed_ptr->m_id;
   m_available_fd.erase(avail_i);
 
-  auto return_callback = [this, id, manager](TFD&& returned_fd) {
+  // The accessor keeps the handler alive: it owns the mutex, and gets the descriptor back
+  auto this_shared     = shared_from_this();
+  auto return_callback = [this, this_shared, id, manager](TFD&& returned_fd) {
     std::lock_guard<std::mutex> lambda_this_lock(m_handler_mutex);
     m_available_fd[id] = std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(id, std::move(returned_fd), manager.get()));
   };
-- 
2.43.0


From 3df0b6482efd93a0cc1d8c3ed26aa268a817e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:14 +0000
Subject: [PATCH 11/80] fix: LRUFileManager iterates over a list that other
 threads modify

While a close request runs the mutex is not held, so other threads can
open, use and close files: the iterator on the list may be invalidated,
and m_files[id] inserts (and dereferences) a null entry if the file has
been closed meanwhile.
---
 FilePool/src/lib/LRUFileManager.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/FilePool/src/lib/LRUFileManager.cpp b/FilePool/src/lib/LRUFileManager.cpp
index 611bc3f..f9562b9 100644
--- a/FilePool/src/lib/LRUFileManager.cpp
+++ b/FilePool/src/lib/LRUFileManager.cpp
@@ -41,17 +41,20 @@ void LRUFileManager::notifyIntentToOpen(bool /*write*/) {
 
   while (m_files.size() >= m_limit) {
     bool closed = false;
-    for (auto& id : m_sorted_ids) {
-      auto& meta       = m_files[id];
-      auto  close_call = meta->m_request_close;
+    // The list may change while the mutex is not held
+    std::vector<FileId> candidates(m_sorted_ids.begin(), m_sorted_ids.end());
+    for (auto& id : candidates) {
+      auto iter = m_files.find(id);
+      if (iter == m_files.end())
+        continue;
+      auto close_call = iter->second->m_request_close;
       lock.unlock();
       closed = close_call();
       lock.lock();
-      // If the file was closed, the iterator on m_sorted_ids has been invalidated!
       if (closed)
         break;
     }
-    if (!closed) {
+    if (!closed && m_files.size() >= m_limit) {
       throw Elements::Exception() << "Limit reached and failed to close any existing file descriptor";
     }
   }
-- 
2.43.0


From f9eaeb428c28664bebfb6799d47f62a6bca2d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:32 +0000
Subject: [PATCH 12/80] fix: LRUFileManager exceeds its limit when files are
 opened concurrently

The limit was checked before opening, but the file only counted once it
was open: any number of threads could pass the check meanwhile. Count
also the files being opened.
---
 FilePool/FilePool/FileManager.h          |  3 +++
 FilePool/FilePool/LRUFileManager.h       |  3 +++
 FilePool/FilePool/_impl/FileManager.icpp |  5 +++++
 FilePool/src/lib/LRUFileManager.cpp      | 13 ++++++++++---
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/FilePool/FilePool/FileManager.h b/FilePool/FilePool/FileManager.h
index 4e3f8fe..f8acbb7 100644
--- a/FilePool/FilePool/FileManager.h
+++ b/FilePool/FilePool/FileManager.h
@@ -174,6 +174,9 @@ protected:
   virtual void notifyIntentToOpen(bool write) = 0;
   virtual void notifyOpenedFile(FileId)       = 0;
   virtual void notifyClosedFile(FileId)       = 0;
+
+  /// The opening announced by notifyIntentToOpen failed, so there will be no call to notifyOpenedFile
+  virtual void notifyOpenFailed() {}
 };
 
 }  // end of namespace FilePool
diff --git a/FilePool/FilePool/LRUFileManager.h b/FilePool/FilePool/LRUFileManager.h
index b6f49c0..2988897 100644
--- a/FilePool/FilePool/LRUFileManager.h
+++ b/FilePool/FilePool/LRUFileManager.h
@@ -45,11 +45,14 @@ public:
 
 protected:
   void notifyIntentToOpen(bool write) override;
+  void notifyOpenFailed() override;
   void notifyOpenedFile(FileId id) override;
   void notifyClosedFile(FileId id) override;
 
 private:
   unsigned m_limit;
+  /// Number of files being opened
+  unsigned m_pending;
   /// Sorted from less to more recent
   std::list<FileId>                             m_sorted_ids;
   std::map<FileId, std::list<FileId>::iterator> m_current_pos;
diff --git a/FilePool/FilePool/_impl/FileManager.icpp b/FilePool/FilePool/_impl/FileManager.icpp
index 7705ab3..18f9cb5 100644
--- a/FilePool/FilePool/_impl/FileManager.icpp
+++ b/FilePool/FilePool/_impl/FileManager.icpp
@@ -43,6 +43,10 @@ auto FileManager::open(const boost::filesystem::path& path, bool write, std::fun
     -> std::pair<FileId, TFD> {
   notifyIntentToOpen(write);
 
+  // Withdraw the intent if the file can not be opened
+  auto withdraw = [](FileManager* manager) { manager->notifyOpenFailed(); };
+  std::unique_ptr<FileManager, decltype(withdraw)> intent(this, withdraw);
+
   auto   meta           = Euclid::make_unique<FileMetadata>(path, write);
   FileId id             = meta.get();
   meta->m_request_close = [id, request_close]() -> bool { return request_close(id); };
@@ -54,6 +58,7 @@ auto FileManager::open(const boost::filesystem::path& path, bool write, std::fun
     m_files[id] = std::move(meta);
   }
 
+  intent.release();
   notifyOpenedFile(id);
   return std::make_pair(id, std::move(fd));
 }
diff --git a/FilePool/src/lib/LRUFileManager.cpp b/FilePool/src/lib/LRUFileManager.cpp
index f9562b9..eee8102 100644
--- a/FilePool/src/lib/LRUFileManager.cpp
+++ b/FilePool/src/lib/LRUFileManager.cpp
@@ -23,7 +23,7 @@
 namespace Euclid {
 namespace FilePool {
 
-LRUFileManager::LRUFileManager(unsigned limit) : m_limit(limit) {
+LRUFileManager::LRUFileManager(unsigned limit) : m_limit(limit), m_pending(0) {
   if (m_limit == 0) {
     struct rlimit rlim;
     getrlimit(RLIMIT_NOFILE, &rlim);
@@ -39,7 +39,7 @@ LRUFileManager::~LRUFileManager() {
 void LRUFileManager::notifyIntentToOpen(bool /*write*/) {
   std::unique_lock<std::mutex> lock(m_mutex);
 
-  while (m_files.size() >= m_limit) {
+  while (m_sorted_ids.size() + m_pending >= m_limit) {
     bool closed = false;
     // The list may change while the mutex is not held
     std::vector<FileId> candidates(m_sorted_ids.begin(), m_sorted_ids.end());
@@ -54,10 +54,16 @@ void LRUFileManager::notifyIntentToOpen(bool /*write*/) {
       if (closed)
         break;
     }
-    if (!closed && m_files.size() >= m_limit) {
+    if (!closed && m_sorted_ids.size() + m_pending >= m_limit) {
       throw Elements::Exception() << "Limit reached and failed to close any existing file descriptor";
     }
   }
+  ++m_pending;
+}
+
+void LRUFileManager::notifyOpenFailed() {
+  std::lock_guard<std::mutex> lock(m_mutex);
+  --m_pending;
 }
 
 void LRUFileManager::notifyOpenedFile(FileManager::FileId id) {
@@ -65,6 +71,7 @@ void LRUFileManager::notifyOpenedFile(FileManager::FileId id) {
   m_sorted_ids.emplace_back(id);
   m_current_pos[id] = m_sorted_ids.end();
   --m_current_pos[id];
+  --m_pending;
 }
 
 void LRUFileManager::notifyClosedFile(FileManager::FileId id) {
-- 
2.43.0


From d4f1fad79283292aaa7565b4887367cbe6dcca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:32 +0000
Subject: [PATCH 13/80] fix: FilePool getters read the state without
 synchronisation

---
 FilePool/FilePool/FileHandler.h     | 2 +-
 FilePool/src/lib/FileHandler.cpp    | 1 +
 FilePool/src/lib/LRUFileManager.cpp | 2 ++
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/FilePool/FilePool/FileHandler.h b/FilePool/FilePool/FileHandler.h
index 5b1c41b..5cc61c7 100644
--- a/FilePool/FilePool/FileHandler.h
+++ b/FilePool/FilePool/FileHandler.h
@@ -87,7 +87,7 @@ private:
     }
   };
 
-  std::mutex                                                m_handler_mutex;
+  mutable std::mutex                                        m_handler_mutex;
   boost::filesystem::path                                   m_path;
   std::weak_ptr<FileManager>                                m_file_manager;
   SharedMutex                                               m_file_mutex;
diff --git a/FilePool/src/lib/FileHandler.cpp b/FilePool/src/lib/FileHandler.cpp
index 7f121da..bc4166f 100644
--- a/FilePool/src/lib/FileHandler.cpp
+++ b/FilePool/src/lib/FileHandler.cpp
@@ -31,6 +31,7 @@ FileHandler::~FileHandler() {
 }
 
 bool FileHandler::isReadOnly() const {
+  std::lock_guard<std::mutex> this_lock(m_handler_mutex);
   return m_is_readonly;
 }
 
diff --git a/FilePool/src/lib/LRUFileManager.cpp b/FilePool/src/lib/LRUFileManager.cpp
index eee8102..327c508 100644
--- a/FilePool/src/lib/LRUFileManager.cpp
+++ b/FilePool/src/lib/LRUFileManager.cpp
@@ -101,10 +101,12 @@ unsigned int LRUFileManager::getLimit() const {
 }
 
 unsigned int LRUFileManager::getUsed() const {
+  std::lock_guard<std::mutex> lock(m_mutex);
   return m_sorted_ids.size();
 }
 
 unsigned int LRUFileManager::getAvailable() const {
+  std::lock_guard<std::mutex> lock(m_mutex);
   return m_limit - m_sorted_ids.size();
 }
 
-- 
2.43.0


From f892733f8520d29c92f998132ebc55ebf78f6003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:47 +0000
Subject: [PATCH 14/80] fix: a moved FileReadAccessor releases its descriptor
 twice

The base class had no move constructor, so moving copied the callback,
and both instances returned the descriptor.
---
 FilePool/FilePool/FileAccessor.h          | 1 +
 FilePool/FilePool/_impl/FileAccessor.icpp | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/FilePool/FilePool/FileAccessor.h b/FilePool/FilePool/FileAccessor.h
index 5fd5e65..51b58af 100644
--- a/FilePool/FilePool/FileAccessor.h
+++ b/FilePool/FilePool/FileAccessor.h
@@ -63,6 +63,7 @@ public:
 
 protected:
   FileAccessor(TFD&& fd, ReleaseDescriptorCallback release_callback);
+  FileAccessor(FileAccessor&&) = default;
 
   ReleaseDescriptorCallback m_release_callback;
 };
diff --git a/FilePool/FilePool/_impl/FileAccessor.icpp b/FilePool/FilePool/_impl/FileAccessor.icpp
index 0d1a268..e9415a8 100644
--- a/FilePool/FilePool/_impl/FileAccessor.icpp
+++ b/FilePool/FilePool/_impl/FileAccessor.icpp
@@ -33,7 +33,9 @@ FileReadAccessor<TFD>::FileReadAccessor(TFD&& fd, ReleaseDescriptorCallback rele
 
 template <typename TFD>
 FileReadAccessor<TFD>::~FileReadAccessor() {
-  FileAccessor<TFD>::m_release_callback(std::move(FileAccessor<TFD>::m_fd));
+  // Empty if it has been moved
+  if (FileAccessor<TFD>::m_release_callback)
+    FileAccessor<TFD>::m_release_callback(std::move(FileAccessor<TFD>::m_fd));
 }
 
 template <typename TFD>
-- 
2.43.0


From baf949d702604b3da0bca9001ca60376324bd08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:04 +0000
Subject: [PATCH 15/80] fix: readNpy returns an array although the stream ended
 or failed before its end

---
 NdArray/NdArray/io/_impl/NpyCommon.h    | 12 +++++++++++-
 NdArray/NdArray/io/_impl/NpyReader.icpp |  5 ++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 43f176d..3adeb93 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -205,7 +205,7 @@ inline void readNpyHeader(std::istream& input, std::string& dtype, std::vector<s
   // Magic
   char magic[6];
   input.read(magic, sizeof(magic));
-  if (std::memcmp(magic, NPY_MAGIC, sizeof(NPY_MAGIC)) != 0) {
+  if (!input || std::memcmp(magic, NPY_MAGIC, sizeof(NPY_MAGIC)) != 0) {
     throw Elements::Exception() << "Unexpected magic sequence";
   }
 
@@ -213,6 +213,9 @@ inline void readNpyHeader(std::istream& input, std::string& dtype, std::vector<s
   little_uint32_t header_len;
   little_uint16_t version;
   input.read(reinterpret_cast<char*>(&version), sizeof(version));
+  if (!input) {
+    throw Elements::Exception() << "Failed to read the NPY version";
+  }
   if (version > 30) {
     throw Elements::Exception() << "Only numpy arrays with version 3 or less are supported";
   } else if (version.data()[0] == 1) {
@@ -225,9 +228,16 @@ inline void readNpyHeader(std::istream& input, std::string& dtype, std::vector<s
     input.read(reinterpret_cast<char*>(&header_len), sizeof(header_len));
   }
 
+  if (!input) {
+    throw Elements::Exception() << "Failed to read the NPY header";
+  }
+
   // Read header
   std::string header(header_len, '\0');
   input.read(&header[0], header_len);
+  if (!input) {
+    throw Elements::Exception() << "Failed to read the NPY header";
+  }
 
   // Parse header
   bool fortran_order, big_endian;
diff --git a/NdArray/NdArray/io/_impl/NpyReader.icpp b/NdArray/NdArray/io/_impl/NpyReader.icpp
index b76c2e0..b46a374 100644
--- a/NdArray/NdArray/io/_impl/NpyReader.icpp
+++ b/NdArray/NdArray/io/_impl/NpyReader.icpp
@@ -46,7 +46,10 @@ NdArray<T> readNpy(std::istream& input) {
   }
 
   std::vector<T> data(n_elements);
-  input.read(reinterpret_cast<char*>(&data[0]), sizeof(T) * data.size());
+  input.read(reinterpret_cast<char*>(data.data()), sizeof(T) * data.size());
+  if (!input) {
+    throw Elements::Exception() << "Failed to read the " << n_elements << " elements of the NPY array";
+  }
   return {shape, attr_names, std::move(data)};
 }
 
-- 
2.43.0


From 26f498f8d65051f943afe958c386dafc2e0158ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:48 +0000
Subject: [PATCH 16/80] fix: malformed NPY headers are read out of bounds

---
 NdArray/NdArray/io/_impl/NpyCommon.h | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 3adeb93..c276c80 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -107,6 +107,8 @@ struct NpyDtype<double> {
  * Parse a single dtype description (i.e. '<f8')
  */
 inline void parseSingleValue(const std::string& descr, bool& big_endian, std::string& dtype) {
+  if (descr.empty())
+    throw Elements::Exception() << "Empty type description";
   big_endian = (descr.front() == '>');
   dtype      = descr.substr(1);
 }
@@ -162,10 +164,18 @@ inline void parseFieldValues(const std::string& descr, bool& big_endian, std::ve
  */
 inline void parseNpyDict(const std::string& header, bool& fortran_order, bool& big_endian, std::string& dtype,
                          std::vector<size_t>& shape, std::vector<std::string>& attrs, size_t& n_elements) {
-  auto loc      = header.find("fortran_order") + 16;
+  // Position of the value that follows a key
+  auto find_value = [&header](const std::string& key, size_t skip) {
+    auto pos = header.find(key);
+    if (pos == std::string::npos || pos + skip >= header.size())
+      throw Elements::Exception() << "Failed to find " << key << " in the array description: " << header;
+    return pos + skip;
+  };
+
+  auto loc      = find_value("fortran_order", 16);
   fortran_order = (header.substr(loc, 4) == "True");
 
-  loc = header.find("descr") + 8;
+  loc = find_value("descr", 8);
 
   if (header[loc] == '\'') {
     auto end = header.find('\'', loc + 1);
@@ -176,11 +186,15 @@ inline void parseNpyDict(const std::string& header, bool& fortran_order, bool& b
   } else {
     throw Elements::Exception() << "Failed to parse the array description: " << header;
   }
+  if (dtype.empty())
+    throw Elements::Exception() << "Failed to parse the array description: " << header;
 
-  loc            = header.find("shape") + 9;
-  auto loc2      = header.find(')', loc);
+  loc       = find_value("shape", 9);
+  auto loc2 = header.find(')', loc);
+  if (loc2 == std::string::npos)
+    throw Elements::Exception() << "Failed to parse the array shape: " << header;
   auto shape_str = header.substr(loc, loc2 - loc);
-  if (shape_str.back() == ',')
+  if (!shape_str.empty() && shape_str.back() == ',')
     shape_str.resize(shape_str.size() - 1);
   shape      = stringToVector<size_t>(shape_str);
   n_elements = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<size_t>());
-- 
2.43.0


From 043a98f8e400af191547f8fcc024630ee1652ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:48 +0000
Subject: [PATCH 17/80] fix: the number of elements of an NdArray is computed
 with 32 bits

---
 NdArray/NdArray/NdArray.h             |  2 +-
 NdArray/NdArray/_impl/NdArray.icpp    | 16 ++++++++--------
 NdArray/NdArray/io/_impl/NpyCommon.h  |  4 ++--
 NdArray/NdArray/io/_impl/NpyMmap.icpp |  2 +-
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/NdArray/NdArray/NdArray.h b/NdArray/NdArray/NdArray.h
index 911444c..baee815 100644
--- a/NdArray/NdArray/NdArray.h
+++ b/NdArray/NdArray/NdArray.h
@@ -521,7 +521,7 @@ private:
 
     template <typename T2>
     auto resizeImpl(const std::vector<size_t>& shape) -> decltype((void)std::declval<Container<T2>>().resize(size_t{}), void()) {
-      auto new_size = std::accumulate(shape.begin(), shape.end(), 1u, std::multiplies<size_t>());
+      auto new_size = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
       m_container.resize(new_size);
     }
 
diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index 31ae36f..1f90682 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -30,7 +30,7 @@ NdArray<T>::Iterator<Const>::Iterator(ContainerInterface* container_ptr, size_t
                                       const std::vector<size_t>& strides, size_t start)
     : m_container_ptr(container_ptr)
     , m_offset(offset)
-    , m_row_size(std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<size_t>()))
+    , m_row_size(std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>()))
     , m_stride{strides.back()}
     , m_i{start} {}
 
@@ -151,7 +151,7 @@ template <typename T>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container(new ContainerWrapper<std::vector>(m_size)) {
   update_strides();
 }
@@ -161,7 +161,7 @@ template <template <class...> class Container>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_, const Container<T>& data)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container{new ContainerWrapper<Container>(data)} {
   if (m_size != m_container->size()) {
     throw std::invalid_argument("Data size does not match the shape");
@@ -174,7 +174,7 @@ template <template <class...> class Container>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_, Container<T>&& data)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container{new ContainerWrapper<Container>(std::move(data))} {
   if (m_size != m_container->size()) {
     throw std::invalid_argument("Data size does not match the shape");
@@ -187,7 +187,7 @@ template <typename II>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_, II ibegin, II iend)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container{new ContainerWrapper<std::vector>(ibegin, iend)} {
   if (m_size != m_container->size()) {
     throw std::invalid_argument("Data size does not match the shape");
@@ -200,7 +200,7 @@ NdArray<T>::NdArray(const self_type* other)
     : m_offset{0}
     , m_shape{other->m_shape}
     , m_attr_names{other->m_attr_names}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container{other->m_container->copy()} {
   update_strides();
 }
@@ -223,7 +223,7 @@ auto NdArray<T>::reshape(const std::vector<size_t> new_shape) -> self_type& {
   if (!m_attr_names.empty())
     throw std::invalid_argument("Can not reshape arrays with attribute names");
 
-  size_t new_size = std::accumulate(new_shape.begin(), new_shape.end(), 1, std::multiplies<size_t>());
+  size_t new_size = std::accumulate(new_shape.begin(), new_shape.end(), size_t{1}, std::multiplies<size_t>());
   if (new_size != m_size) {
     throw std::range_error("New shape does not match the number of contained elements");
   }
@@ -353,7 +353,7 @@ template <typename T>
 NdArray<T>::NdArray(std::shared_ptr<ContainerInterface> container, size_t offset, std::vector<size_t> shape_,
                     std::vector<size_t> stride, std::vector<std::string> attr_names)
     : m_offset{offset}, m_shape{shape_}, m_stride_size{stride}, m_attr_names{attr_names}, m_container{container} {
-  m_size = std::accumulate(m_shape.begin(), m_shape.end(), 1, std::multiplies<size_t>());
+  m_size = std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>());
 }
 
 template <typename T>
diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index c276c80..77a3696 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -197,7 +197,7 @@ inline void parseNpyDict(const std::string& header, bool& fortran_order, bool& b
   if (!shape_str.empty() && shape_str.back() == ',')
     shape_str.resize(shape_str.size() - 1);
   shape      = stringToVector<size_t>(shape_str);
-  n_elements = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<size_t>());
+  n_elements = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
 }
 
 /**
@@ -377,7 +377,7 @@ public:
                                      "The new header length must match the allocated space.";
     }
 
-    m_n_elements    = std::accumulate(shape.begin(), shape.end(), 1u, std::multiplies<size_t>());
+    m_n_elements    = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
     size_t new_size = header_size + sizeof(T) * m_n_elements;
     if (new_size > m_max_size) {
       throw Elements::Exception() << "resize request bigger than maximum allocated size: " << new_size << " > " << m_max_size;
diff --git a/NdArray/NdArray/io/_impl/NpyMmap.icpp b/NdArray/NdArray/io/_impl/NpyMmap.icpp
index c7b34dc..e46a4a8 100644
--- a/NdArray/NdArray/io/_impl/NpyMmap.icpp
+++ b/NdArray/NdArray/io/_impl/NpyMmap.icpp
@@ -70,7 +70,7 @@ NdArray<T> createMmapNpy(const boost::filesystem::path& path, const std::vector<
   assert(header_size % 64 == 0);
 
   // Compute file expected size
-  size_t n_elements = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<size_t>());
+  size_t n_elements = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
   if (!attrs.empty())
     n_elements *= attrs.size();
   size_t data_size  = n_elements * sizeof(T);
-- 
2.43.0


From 0b49490d0443aa0a1602208bc0afaaba8c1b9c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:48 +0000
Subject: [PATCH 18/80] fix: writeNpy does not report that the file could not
 be written

---
 NdArray/NdArray/io/Npy.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/NdArray/NdArray/io/Npy.h b/NdArray/NdArray/io/Npy.h
index d21fcf6..4fbf461 100644
--- a/NdArray/NdArray/io/Npy.h
+++ b/NdArray/NdArray/io/Npy.h
@@ -20,6 +20,7 @@
 #define ALEXANDRIA_NDARRAY_NPY_H
 
 #include "NdArray/NdArray.h"
+#include <ElementsKernel/Exception.h>
 #include <boost/filesystem/path.hpp>
 #include <fstream>
 
@@ -74,6 +75,10 @@ template <typename T>
 void writeNpy(const boost::filesystem::path& path, const NdArray<T>& array) {
   std::ofstream output(path.native(), std::ios_base::out | std::ios_base::binary);
   writeNpy(output, array);
+  output.close();
+  if (!output) {
+    throw Elements::Exception() << "Failed to write " << path.native();
+  }
 }
 
 /**
-- 
2.43.0


From 2dd723f0ca383bc67a3d7a776499ec6cb90c8b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:48 +0000
Subject: [PATCH 19/80] fix: mmapNpy maps an array that does not fit in the
 file

---
 NdArray/NdArray/io/_impl/NpyMmap.icpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/NdArray/NdArray/io/_impl/NpyMmap.icpp b/NdArray/NdArray/io/_impl/NpyMmap.icpp
index e46a4a8..8a94957 100644
--- a/NdArray/NdArray/io/_impl/NpyMmap.icpp
+++ b/NdArray/NdArray/io/_impl/NpyMmap.icpp
@@ -55,7 +55,14 @@ NdArray<T> mmapNpy(const boost::filesystem::path& path, boost::iostreams::mapped
     n_elements *= attrs.size();
   }
 
-  return {shape, attrs, std::move(MappedContainer<T>(path, stream.tellg(), n_elements, attrs, std::move(input), max_size))};
+  // Accessing a mapping beyond the end of the file kills the process
+  size_t data_offset = stream.tellg();
+  size_t available   = std::min<size_t>(boost::filesystem::file_size(path), input.size());
+  if (available < data_offset || (available - data_offset) / sizeof(T) < n_elements) {
+    throw Elements::Exception() << path.native() << " is too short for an array of " << n_elements << " elements";
+  }
+
+  return {shape, attrs, std::move(MappedContainer<T>(path, data_offset, n_elements, attrs, std::move(input), max_size))};
 }
 
 template <typename T>
-- 
2.43.0


From 33b7ee233589f83a3f8c592024a49005dc4be55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:48 +0000
Subject: [PATCH 20/80] fix: a failed resize of a memory mapped array changes
 its size

---
 NdArray/NdArray/io/_impl/NpyCommon.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 77a3696..4a0532b 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -377,12 +377,13 @@ public:
                                      "The new header length must match the allocated space.";
     }
 
-    m_n_elements    = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
-    size_t new_size = header_size + sizeof(T) * m_n_elements;
+    size_t n_elements = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
+    size_t new_size   = header_size + sizeof(T) * n_elements;
     if (new_size > m_max_size) {
       throw Elements::Exception() << "resize request bigger than maximum allocated size: " << new_size << " > " << m_max_size;
     }
     boost::filesystem::resize_file(m_path, new_size);
+    m_n_elements = n_elements;
     std::copy(header_str.begin(), header_str.end(), m_mapped.data());
   }
 
-- 
2.43.0


From aac594db87804c47fe426e6a2ef64bce5e53a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:48 +0000
Subject: [PATCH 21/80] fix: mmapNpy in read-only mode gives an array without
 data

---
 NdArray/NdArray/io/_impl/NpyCommon.h  | 2 +-
 NdArray/NdArray/io/_impl/NpyMmap.icpp | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 4a0532b..60583c1 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -355,7 +355,7 @@ public:
       , m_max_size(max_size)
       , m_attr_names(attr_names)
       , m_mapped(std::move(input))
-      , m_data(reinterpret_cast<T*>(m_mapped.data() + data_offset)) {}
+      , m_data(reinterpret_cast<T*>(const_cast<char*>(m_mapped.const_data()) + data_offset)) {}
 
   size_t size() const {
     return m_n_elements;
diff --git a/NdArray/NdArray/io/_impl/NpyMmap.icpp b/NdArray/NdArray/io/_impl/NpyMmap.icpp
index 8a94957..3d7262c 100644
--- a/NdArray/NdArray/io/_impl/NpyMmap.icpp
+++ b/NdArray/NdArray/io/_impl/NpyMmap.icpp
@@ -20,13 +20,14 @@
 
 #include "NpyCommon.h"
 #include <boost/filesystem/path.hpp>
+#include <boost/iostreams/device/array.hpp>
 #include <boost/iostreams/stream.hpp>
 #include <numeric>
 
 namespace Euclid {
 namespace NdArray {
 
-typedef boost::iostreams::stream<boost::iostreams::mapped_file> MappedStream;
+typedef boost::iostreams::stream<boost::iostreams::array_source> MappedStream;
 
 template <typename T>
 NdArray<T> mmapNpy(const boost::filesystem::path& path, boost::iostreams::mapped_file_base::mapmode mode, size_t max_size) {
@@ -44,8 +45,9 @@ NdArray<T> mmapNpy(const boost::filesystem::path& path, boost::iostreams::mapped
     max_size = boost::filesystem::file_size(path);
 
   boost::iostreams::mapped_file input(map_params);
-  MappedStream                  stream(input);
-  stream.set_auto_close(false);
+  // Only what is in the file can be accessed, and only as constant in read-only mode
+  size_t       available = std::min<size_t>(boost::filesystem::file_size(path), input.size());
+  MappedStream stream(input.const_data(), available);
   readNpyHeader(stream, dtype, shape, attrs, n_elements);
 
   if (dtype != NpyDtype<T>::str)
@@ -57,7 +59,6 @@ NdArray<T> mmapNpy(const boost::filesystem::path& path, boost::iostreams::mapped
 
   // Accessing a mapping beyond the end of the file kills the process
   size_t data_offset = stream.tellg();
-  size_t available   = std::min<size_t>(boost::filesystem::file_size(path), input.size());
   if (available < data_offset || (available - data_offset) / sizeof(T) < n_elements) {
     throw Elements::Exception() << path.native() << " is too short for an array of " << n_elements << " elements";
   }
-- 
2.43.0


From cddf36965f478ef9c2b001969f25e0e1b5b11624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:48 +0000
Subject: [PATCH 22/80] fix: the copy of a slice has the wrong elements, that
 of a mapped array is not a copy

---
 NdArray/NdArray/_impl/NdArray.icpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index 1f90682..beae1af 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -201,7 +201,7 @@ NdArray<T>::NdArray(const self_type* other)
     , m_shape{other->m_shape}
     , m_attr_names{other->m_attr_names}
     , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
-    , m_container{other->m_container->copy()} {
+    , m_container{new ContainerWrapper<std::vector>(other->begin(), other->begin() + m_size)} {
   update_strides();
 }
 
-- 
2.43.0


From bdeb1a835736e5ed53034669e70d6d44a60ed638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:57 +0000
Subject: [PATCH 23/80] fix: the post-increment of NdArray iterators does not
 move the iterator

---
 NdArray/NdArray/_impl/NdArray.icpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index beae1af..ccdbe99 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -59,7 +59,7 @@ auto NdArray<T>::Iterator<Const>::operator++() -> Iterator& {
 template <typename T>
 template <bool Const>
 auto NdArray<T>::Iterator<Const>::operator++(int) -> Iterator {
-  return Iterator{m_container_ptr, m_offset, m_row_size, m_stride, m_i + 1};
+  return Iterator{m_container_ptr, m_offset, m_row_size, m_stride, m_i++};
 }
 
 template <typename T>
-- 
2.43.0


From cfa42e29ad47dcf901ea3da7c29d816646f8eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:57 +0000
Subject: [PATCH 24/80] fix: slices of an NdArray have the wrong attribute
 names

---
 NdArray/NdArray/_impl/NdArray.icpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index ccdbe99..3e5a362 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -364,11 +364,8 @@ auto NdArray<T>::slice(size_t i) -> self_type {
   if (i >= m_shape[0]) {
     throw std::out_of_range("Axis 0 out of range");
   }
-  std::vector<std::string> attrs;
-  if (!m_attr_names.empty()) {
-    attrs.resize(m_attr_names.size() - 1);
-    std::copy(m_attr_names.begin() + 1, m_attr_names.end(), attrs.begin());
-  }
+  // The attributes name the last axis, which is kept
+  auto                attrs  = m_attr_names;
   auto                offset = m_offset + i * m_stride_size[0];
   std::vector<size_t> stride_(m_stride_size.begin() + 1, m_stride_size.end());
   std::vector<size_t> shape_(m_shape.begin() + 1, m_shape.end());
@@ -388,11 +385,8 @@ auto NdArray<T>::rslice(size_t i) -> self_type {
   if (i >= m_shape.back()) {
     throw std::out_of_range("Axis -1 out of range");
   }
+  // The attributes name the last axis, which is gone
   std::vector<std::string> attrs;
-  if (!m_attr_names.empty()) {
-    attrs.resize(m_attr_names.size() - 1);
-    std::copy(m_attr_names.begin(), m_attr_names.end() - 1, attrs.begin());
-  }
   auto                offset = m_offset + i * m_stride_size.back();
   std::vector<size_t> strides_(m_stride_size.begin(), m_stride_size.end() - 1);
   std::vector<size_t> shape_(m_shape.begin(), m_shape.end() - 1);
-- 
2.43.0


From d2ab8846927ad2ace06571875a6aa1fd4b42bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:14 +0000
Subject: [PATCH 25/80] fix: reshaping a slice mixes up its elements, and a
 failed reshape corrupts the array

---
 NdArray/NdArray/_impl/NdArray.icpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index 3e5a362..f263e3d 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -227,8 +227,17 @@ auto NdArray<T>::reshape(const std::vector<size_t> new_shape) -> self_type& {
   if (new_size != m_size) {
     throw std::range_error("New shape does not match the number of contained elements");
   }
-  m_shape = new_shape;
-  update_strides();
+  // The elements of a slice can be apart from each other
+  size_t              acc    = m_stride_size.back();
+  std::vector<size_t> shape_ = new_shape;
+  std::vector<size_t> stride_(new_shape.size());
+  for (size_t i = stride_.size(); i > 0; --i) {
+    stride_[i - 1] = acc;
+    acc *= new_shape[i - 1];
+  }
+  // Both or none
+  m_shape.swap(shape_);
+  m_stride_size.swap(stride_);
   return *this;
 }
 
-- 
2.43.0


From 41cd3f140d46a156c57ccf42fcf22cfc131dad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:14 +0000
Subject: [PATCH 26/80] fix: concatenating to a slice writes out of bounds

---
 NdArray/NdArray/_impl/NdArray.icpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index f263e3d..2d258f7 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -343,8 +343,13 @@ auto NdArray<T>::concatenate(const self_type& other) -> self_type& {
       throw std::length_error("The size of all axis except for the first one must match");
   }
 
+  // The container can only grow for the array that has all of it
+  auto old_size = m_container->size();
+  if (m_offset != 0 || old_size != std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())) {
+    throw std::length_error("Can not concatenate to an array that is part of another one");
+  }
+
   // New shape
-  auto old_size  = m_container->size();
   auto new_shape = m_shape;
   new_shape[0] += other.m_shape[0];
 
-- 
2.43.0


From 9af746b7bf44c336d0cf01a232a873606e8eb211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:54 +0000
Subject: [PATCH 27/80] fix: printing an empty vector cell runs past its end

---
 Table/src/lib/Row.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Table/src/lib/Row.cpp b/Table/src/lib/Row.cpp
index ae37622..2f529b7 100644
--- a/Table/src/lib/Row.cpp
+++ b/Table/src/lib/Row.cpp
@@ -46,9 +46,10 @@ namespace std {
 template <typename T>
 std::ostream& operator<<(std::ostream& s, const std::vector<T>& v) {
   auto it = v.begin();
-  if (it != v.end()) {
-    s << *it;
+  if (it == v.end()) {
+    return s;
   }
+  s << *it;
   while (++it != v.end()) {
     s << ',' << *it;
   }
-- 
2.43.0


From 783bc27ef41c7fb43926b1e154158d1b9c0318ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:54 +0000
Subject: [PATCH 28/80] fix: AsciiReader does not read quoted strings in the
 first column

---
 Table/src/lib/AsciiReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Table/src/lib/AsciiReader.cpp b/Table/src/lib/AsciiReader.cpp
index 667e023..d7728a1 100644
--- a/Table/src/lib/AsciiReader.cpp
+++ b/Table/src/lib/AsciiReader.cpp
@@ -214,7 +214,7 @@ Table AsciiReader::readImpl(long rows) {
       size_t                      count{0};
       std::vector<Row::cell_type> values{};
       std::string                 token;
-      line_stream >> token;
+      line_stream >> boost::io::quoted(token);
       while (line_stream) {
         if (count >= m_column_info->size()) {
           throw Elements::Exception() << "Line with wrong number of cells: " << line;
-- 
2.43.0


From e41dd126f2bd31f6225c97eae460fc5ac1a0ff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:22 +0000
Subject: [PATCH 29/80] fix: StreamRewinder terminates with streams that throw,
 and cuts the position to 32 bits

---
 Table/src/lib/AsciiReaderHelper.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/Table/src/lib/AsciiReaderHelper.h b/Table/src/lib/AsciiReaderHelper.h
index f02e67b..5a30e26 100644
--- a/Table/src/lib/AsciiReaderHelper.h
+++ b/Table/src/lib/AsciiReaderHelper.h
@@ -46,17 +46,21 @@ namespace Table {
  */
 class StreamRewinder {
 public:
-  explicit StreamRewinder(std::istream& stream) : m_stream(stream), m_state(stream.exceptions()), m_position(stream.tellg()) {}
+  explicit StreamRewinder(std::istream& stream) : m_stream(stream), m_state(stream.rdstate()), m_position(stream.tellg()) {}
   ~StreamRewinder() {
-    m_stream.clear();
-    m_stream.seekg(m_position);
-    m_stream.setstate(m_state);
+    try {
+      m_stream.clear();
+      m_stream.seekg(m_position);
+      m_stream.setstate(m_state);
+    } catch (const std::exception&) {
+      // The stream is configured to throw, its state is set nevertheless
+    }
   }
 
 private:
-  std::istream&     m_stream;
-  std::ios::iostate m_state;
-  int               m_position;
+  std::istream&          m_stream;
+  std::ios::iostate      m_state;
+  std::istream::pos_type m_position;
 };
 
 /**
-- 
2.43.0


From a85d0a0b97bc7909e343e0ba684053e6628665b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:22 +0000
Subject: [PATCH 30/80] fix: AsciiReader takes an error of the stream for the
 end of the table

---
 Table/src/lib/AsciiReader.cpp       | 14 +++++++++-----
 Table/src/lib/AsciiReaderHelper.cpp | 17 ++++++++++++-----
 Table/src/lib/AsciiReaderHelper.h   | 12 ++++++++++++
 3 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/Table/src/lib/AsciiReader.cpp b/Table/src/lib/AsciiReader.cpp
index d7728a1..fa9498f 100644
--- a/Table/src/lib/AsciiReader.cpp
+++ b/Table/src/lib/AsciiReader.cpp
@@ -50,7 +50,11 @@ namespace Table {
 
 AsciiReader::AsciiReader(std::istream& stream) : AsciiReader(InstOrRefHolder<std::istream>::create(stream)) {}
 
-AsciiReader::AsciiReader(const std::string& filename) : AsciiReader(create<std::ifstream>(filename)) {}
+AsciiReader::AsciiReader(const std::string& filename) : AsciiReader(create<std::ifstream>(filename)) {
+  if (!m_stream_holder->ref()) {
+    throw Elements::Exception() << "Failed to open the file " << filename;
+  }
+}
 
 AsciiReader::AsciiReader(std::unique_ptr<InstOrRefHolder<std::istream>> stream_holder)
     : m_stream_holder(std::move(stream_holder)) {}
@@ -172,7 +176,7 @@ const ColumnInfo& AsciiReader::getInfo() {
 static std::string _peekLine(std::istream& in) {
   std::string line;
   auto        pos = in.tellg();
-  getline(in, line);
+  getLine(in, line);
   in.seekg(pos);
   return line;
 }
@@ -184,7 +188,7 @@ std::string AsciiReader::getComment() {
   auto& in          = m_stream_holder->ref();
   while (in && _peekLine(in).compare(0, m_comment.size(), m_comment) == 0) {
     std::string line;
-    getline(in, line);
+    getLine(in, line);
     line = line.substr(m_comment.size());
     boost::trim(line);
     comment << line << '\n';
@@ -202,7 +206,7 @@ Table AsciiReader::readImpl(long rows) {
   std::vector<Row> row_list;
   while (in && rows != 0) {
     std::string line;
-    getline(in, line);
+    getLine(in, line);
     size_t comment_pos = line.find(m_comment);
     if (comment_pos != std::string::npos) {
       line = line.substr(0, comment_pos);
@@ -239,7 +243,7 @@ void AsciiReader::skip(long rows) {
 
   while (in && rows != 0) {
     std::string line;
-    getline(in, line);
+    getLine(in, line);
     size_t comment_pos = line.find(m_comment);
     if (comment_pos != std::string::npos) {
       line = line.substr(0, comment_pos);
diff --git a/Table/src/lib/AsciiReaderHelper.cpp b/Table/src/lib/AsciiReaderHelper.cpp
index d8f0b4f..4cd8cf1 100644
--- a/Table/src/lib/AsciiReaderHelper.cpp
+++ b/Table/src/lib/AsciiReaderHelper.cpp
@@ -39,13 +39,20 @@ using NdArray::NdArray;
 
 static Elements::Logging logger = Elements::Logging::getLogger("AsciiReader");
 
+void getLine(std::istream& in, std::string& line) {
+  getline(in, line);
+  if (in.bad()) {
+    throw Elements::Exception() << "Failed to read from the table stream";
+  }
+}
+
 size_t countColumns(std::istream& in, const std::string& comment) {
   StreamRewinder rewinder{in};
   size_t         count = 0;
 
   while (in) {
     std::string line;
-    getline(in, line);
+    getLine(in, line);
     // Remove any comments
     size_t comment_pos = line.find(comment);
     if (comment_pos != std::string::npos) {
@@ -109,7 +116,7 @@ std::map<std::string, ColumnDescription> autoDetectColumnDescriptions(std::istre
   std::map<std::string, ColumnDescription> descriptions;
   while (in) {
     std::string line;
-    getline(in, line);
+    getLine(in, line);
     boost::trim(line);
     if (line.empty()) {
       continue;  // We skip empty lines
@@ -178,7 +185,7 @@ std::vector<std::string> autoDetectColumnNames(std::istream& in, const std::stri
   std::vector<std::string> desc_names{};
   while (in) {
     std::string line;
-    getline(in, line);
+    getLine(in, line);
     boost::trim(line);
     if (line.empty()) {
       continue;  // We skip empty lines
@@ -329,7 +336,7 @@ bool hasNextRow(std::istream& in, const std::string& comment) {
   StreamRewinder rewinder{in};
   while (in) {
     std::string line;
-    getline(in, line);
+    getLine(in, line);
     size_t comment_pos = line.find(comment);
     if (comment_pos != std::string::npos) {
       line = line.substr(0, comment_pos);
@@ -347,7 +354,7 @@ std::size_t countRemainingRows(std::istream& in, const std::string& comment) {
   std::size_t    count = 0;
   while (in) {
     std::string line;
-    getline(in, line);
+    getLine(in, line);
     size_t comment_pos = line.find(comment);
     if (comment_pos != std::string::npos) {
       line = line.substr(0, comment_pos);
diff --git a/Table/src/lib/AsciiReaderHelper.h b/Table/src/lib/AsciiReaderHelper.h
index 5a30e26..28fd4ef 100644
--- a/Table/src/lib/AsciiReaderHelper.h
+++ b/Table/src/lib/AsciiReaderHelper.h
@@ -63,6 +63,18 @@ private:
   std::istream::pos_type m_position;
 };
 
+/**
+ * @brief
+ * Reads the next line of the stream, as std::getline, but does not take an error of
+ * the stream for its end
+ *
+ * @param in The stream to read from
+ * @param line The line read
+ * @throws Elements::Exception
+ *    if the stream fails
+ */
+ELEMENTS_API void getLine(std::istream& in, std::string& line);
+
 /**
  * @brief
  * Returns the number of whitespace separated tokens of the first non commented
-- 
2.43.0


From 0c55cead056e805b27018135cb8d58e62f9abf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:22 +0000
Subject: [PATCH 31/80] fix: AsciiReader::getComment consumes the column
 descriptions

---
 Table/src/lib/AsciiReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Table/src/lib/AsciiReader.cpp b/Table/src/lib/AsciiReader.cpp
index fa9498f..7b85e18 100644
--- a/Table/src/lib/AsciiReader.cpp
+++ b/Table/src/lib/AsciiReader.cpp
@@ -186,6 +186,8 @@ std::string AsciiReader::getComment() {
 
   m_reading_started = true;
   auto& in          = m_stream_holder->ref();
+  // The column descriptions can be part of what is read here, so they must stay readable
+  StreamRewinder rewinder{in};
   while (in && _peekLine(in).compare(0, m_comment.size(), m_comment) == 0) {
     std::string line;
     getLine(in, line);
-- 
2.43.0


From 96956327914f5a40346b7e7109fc750fa671ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:52 +0000
Subject: [PATCH 32/80] fix: AsciiWriter neither flushes the data nor reports
 that they could not be written

---
 Table/Table/AsciiWriter.h     |  3 +++
 Table/src/lib/AsciiWriter.cpp | 31 +++++++++++++++++++++----------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/Table/Table/AsciiWriter.h b/Table/Table/AsciiWriter.h
index 2e03c75..8034d64 100644
--- a/Table/Table/AsciiWriter.h
+++ b/Table/Table/AsciiWriter.h
@@ -177,6 +177,9 @@ protected:
 private:
   AsciiWriter(std::unique_ptr<InstOrRefHolder<std::ostream>> stream_holder);
 
+  /// Writes the text and makes sure it reached the stream
+  void write(const std::string& text);
+
   std::unique_ptr<InstOrRefHolder<std::ostream>> m_stream_holder;
   bool                                           m_writing_started  = false;
   bool                                           m_initialized      = false;
diff --git a/Table/src/lib/AsciiWriter.cpp b/Table/src/lib/AsciiWriter.cpp
index 50cd6a4..2064034 100644
--- a/Table/src/lib/AsciiWriter.cpp
+++ b/Table/src/lib/AsciiWriter.cpp
@@ -39,6 +39,14 @@ AsciiWriter::AsciiWriter(const std::string& filename) : AsciiWriter(create<std::
 AsciiWriter::AsciiWriter(std::unique_ptr<InstOrRefHolder<std::ostream>> stream_holder)
     : m_stream_holder(std::move(stream_holder)) {}
 
+void AsciiWriter::write(const std::string& text) {
+  auto& out = m_stream_holder->ref();
+  out << text << std::flush;
+  if (!out) {
+    throw Elements::Exception() << "Failed to write to the table stream";
+  }
+}
+
 AsciiWriter& AsciiWriter::setCommentIndicator(const std::string& indicator) {
   if (m_writing_started) {
     throw Elements::Exception() << "Changing comment indicator after writing "
@@ -65,25 +73,24 @@ void AsciiWriter::addComment(const std::string& message) {
     throw Elements::Exception() << "Adding comments after writing data in ASCII "
                                 << "format is not allowed";
   }
-  m_writing_started = true;
 
-  std::stringstream message_stream{message};
+  std::ostringstream out;
+  std::stringstream  message_stream{message};
   while (!message_stream.eof()) {
     std::string line;
     std::getline(message_stream, line);
-    m_stream_holder->ref() << m_comment << ' ' << line << '\n';
+    out << m_comment << ' ' << line << '\n';
   }
+  write(out.str());
+  m_writing_started = true;
 }
 
 void AsciiWriter::init(const Table& table) {
-  m_initialized = true;
+  std::ostringstream out;
   // If we have already written anything we leave an empty line
   if (m_writing_started) {
-    m_stream_holder->ref() << '\n';
+    out << '\n';
   }
-  m_writing_started = true;
-
-  auto& out = m_stream_holder->ref();
 
   // Write the column descriptions
   auto& info = *table.getColumnInfo();
@@ -110,11 +117,14 @@ void AsciiWriter::init(const Table& table) {
     out << std::setw(column_lengths[i]) << quoted(info.getDescription(i).name);
   }
   out << "\n\n";
+  write(out.str());
+  m_writing_started = true;
+  m_initialized     = true;
 }
 
 void AsciiWriter::append(const Table& table) {
-  auto& out            = m_stream_holder->ref();
-  auto  column_lengths = calculateColumnLengths(table);
+  std::ostringstream out;
+  auto               column_lengths = calculateColumnLengths(table);
   // The data lines are not prefixed with the comment string, so we need to fix
   // the length of the first column to get the alignment correctly
   column_lengths[0] = column_lengths[0] + m_comment.size();
@@ -124,6 +134,7 @@ void AsciiWriter::append(const Table& table) {
     }
     out << "\n";
   }
+  write(out.str());
 }
 
 }  // namespace Table
-- 
2.43.0


From 13a5760d21a8c4fbef66d0c8ec31d57017c7b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:52 +0000
Subject: [PATCH 33/80] fix: a TableWriter whose initialisation failed writes
 data without header

---
 Table/src/lib/TableWriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Table/src/lib/TableWriter.cpp b/Table/src/lib/TableWriter.cpp
index a4d6aeb..b41b029 100644
--- a/Table/src/lib/TableWriter.cpp
+++ b/Table/src/lib/TableWriter.cpp
@@ -31,8 +31,9 @@ namespace Table {
 void TableWriter::addData(const Table& table) {
   auto& info = *table.getColumnInfo();
   if (m_column_info == nullptr) {
-    m_column_info.reset(new ColumnInfo(info));
+    std::unique_ptr<ColumnInfo> column_info{new ColumnInfo(info)};
     init(table);
+    m_column_info = std::move(column_info);
   } else if (*m_column_info != info) {
     throw Elements::Exception() << "Cannot append table with different columns";
   }
-- 
2.43.0


From 7692ffbdce3ce7fabef760cd699a6e937cd0fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:25 +0000
Subject: [PATCH 34/80] fix: AsciiReader does not unquote the column names of
 the descriptions

---
 Table/src/lib/AsciiReaderHelper.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Table/src/lib/AsciiReaderHelper.cpp b/Table/src/lib/AsciiReaderHelper.cpp
index 4cd8cf1..e4793b6 100644
--- a/Table/src/lib/AsciiReaderHelper.cpp
+++ b/Table/src/lib/AsciiReaderHelper.cpp
@@ -202,11 +202,10 @@ std::vector<std::string> autoDetectColumnNames(std::istream& in, const std::stri
         std::string temp = line;
         temp.erase(0, 7);
         boost::trim(temp);
-        auto space_i = temp.find(' ');
-        if (space_i > 0) {
-          temp = temp.substr(0, space_i);
-        }
-        desc_names.emplace_back(std::move(temp));
+        std::stringstream name_stream(temp);
+        std::string       name;
+        name_stream >> boost::io::quoted(name);
+        desc_names.emplace_back(std::move(name));
       }
     } else {
       break;  // here we reached the first data line
-- 
2.43.0


From ee87aea6dceed87717f5f78063776a418da43f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:25 +0000
Subject: [PATCH 35/80] fix: AsciiReader takes the description of a column for
 the names of the columns

---
 Table/src/lib/AsciiReaderHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Table/src/lib/AsciiReaderHelper.cpp b/Table/src/lib/AsciiReaderHelper.cpp
index e4793b6..6ab1597 100644
--- a/Table/src/lib/AsciiReaderHelper.cpp
+++ b/Table/src/lib/AsciiReaderHelper.cpp
@@ -213,7 +213,7 @@ std::vector<std::string> autoDetectColumnNames(std::istream& in, const std::stri
   }
 
   // Check if the last comment line contains the names of the columns
-  if (!last_comment.empty()) {
+  if (!last_comment.empty() && !boost::starts_with(last_comment, "Column:")) {
     std::stringstream line_stream(last_comment);
     std::string       token;
     line_stream >> boost::io::quoted(token);
-- 
2.43.0


From 5c2e41fea07bec94d9fd976d1b7076578b027196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:25 +0000
Subject: [PATCH 36/80] fix: AsciiParser takes an error of the file for its end

---
 XYDataset/src/lib/AsciiParser.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/XYDataset/src/lib/AsciiParser.cpp b/XYDataset/src/lib/AsciiParser.cpp
index e3a3dd6..a640860 100644
--- a/XYDataset/src/lib/AsciiParser.cpp
+++ b/XYDataset/src/lib/AsciiParser.cpp
@@ -52,12 +52,18 @@ std::string AsciiParser::getName(const std::string& file) {
   if (dataset_name == "") {
     // IF not present chack the first non-empty line (Backward comatibility)
     std::ifstream sfile(file);
+    if (!sfile) {
+      throw Elements::Exception() << "Failed to open the file : " << file;
+    }
     std::string line{};
     // Check dataset name is in the file
     // Convention: read until found first non empty line, removing empty lines.
     while (line.empty() && sfile.good()) {
       std::getline(sfile, line);
     }
+    if (sfile.bad()) {
+      throw Elements::Exception() << "Failed to read the file : " << file;
+    }
 
     boost::regex  expression(m_regex_name);
     boost::smatch s_match;
@@ -99,6 +105,9 @@ std::string AsciiParser::getParameter(const std::string& file, const std::string
 
     }
   }
+  if (sfile.bad()) {
+    throw Elements::Exception() << "Failed to read the file : " << file;
+  }
   return value;
 }
 
@@ -137,6 +146,9 @@ bool AsciiParser::isDatasetFile(const std::string& file) {
     while ((line.empty() || boost::regex_match(line, s_match, expression)) && sfile.good()) {
       std::getline(sfile, line);
     }
+    if (sfile.bad()) {
+      throw Elements::Exception() << "Failed to read the file : " << file;
+    }
     if (sfile.good()) {
       // We should have 2 double values only on one line
       try {
-- 
2.43.0


From 8e06069cf6c6385d7ffab48d598f8d55d86e6832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:27 +0000
Subject: [PATCH 37/80] fix: AsciiParser takes a file that can not be opened
 for a missing one

---
 XYDataset/src/lib/AsciiParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/XYDataset/src/lib/AsciiParser.cpp b/XYDataset/src/lib/AsciiParser.cpp
index a640860..476d253 100644
--- a/XYDataset/src/lib/AsciiParser.cpp
+++ b/XYDataset/src/lib/AsciiParser.cpp
@@ -24,6 +24,7 @@
  */
 
 #include <boost/algorithm/string.hpp>
+#include <boost/filesystem.hpp>
 #include <boost/regex.hpp>
 #include <fstream>
 #include <iostream>
@@ -128,6 +129,8 @@ std::unique_ptr<XYDataset> AsciiParser::getDataset(const std::string& file) {
       vector_pair.push_back(std::make_pair(boost::get<double>(row[0]), boost::get<double>(row[1])));
     }
     dataset_ptr = std::unique_ptr<XYDataset>{new XYDataset(vector_pair)};
+  } else if (boost::filesystem::exists(file)) {
+    throw Elements::Exception() << "Failed to open the file : " << file;
   }
 
   return dataset_ptr;
-- 
2.43.0


From 2588bd440874d420e9984f4c675afafb4e1504bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:58 +0000
Subject: [PATCH 38/80] fix: AsciiParser ignores datasets of one line without
 newline

---
 XYDataset/src/lib/AsciiParser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/XYDataset/src/lib/AsciiParser.cpp b/XYDataset/src/lib/AsciiParser.cpp
index 476d253..03f3f09 100644
--- a/XYDataset/src/lib/AsciiParser.cpp
+++ b/XYDataset/src/lib/AsciiParser.cpp
@@ -152,7 +152,8 @@ bool AsciiParser::isDatasetFile(const std::string& file) {
     if (sfile.bad()) {
       throw Elements::Exception() << "Failed to read the file : " << file;
     }
-    if (sfile.good()) {
+    // The last line may end with the file instead of a newline
+    if (!line.empty()) {
       // We should have 2 double values only on one line
       try {
         std::stringstream ss(line);
@@ -169,7 +170,7 @@ bool AsciiParser::isDatasetFile(const std::string& file) {
       } catch (...) {
         is_a_dataset_file = false;
       }
-    }  // Eof sfile.good()
+    }  // Eof !line.empty()
   }    // Eof sfile
   return is_a_dataset_file;
 }
-- 
2.43.0


From 1bfbf8d28c16663e712e4c87e0e89f7117583b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:58 +0000
Subject: [PATCH 39/80] fix: FileSystemProvider ignores the errors of order.txt

---
 XYDataset/src/lib/FileSystemProvider.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/XYDataset/src/lib/FileSystemProvider.cpp b/XYDataset/src/lib/FileSystemProvider.cpp
index 2cb0dc5..03f38e7 100644
--- a/XYDataset/src/lib/FileSystemProvider.cpp
+++ b/XYDataset/src/lib/FileSystemProvider.cpp
@@ -57,6 +57,9 @@ static std::vector<fs::path> getOrder(const fs::path& dir) {
   std::unordered_set<std::string> ordered_names{};
   if (fs::exists(order_file)) {
     std::ifstream in{order_file.c_str()};
+    if (!in) {
+      throw Elements::Exception() << "Failed to open " << order_file;
+    }
     while (in) {
       std::string line;
       getline(in, line);
@@ -75,6 +78,9 @@ static std::vector<fs::path> getOrder(const fs::path& dir) {
         }
       }
     }
+    if (in.bad()) {
+      throw Elements::Exception() << "Failed to read " << order_file;
+    }
   }
 
   // Now we add any other files in the directory, which were not in the order.txt
-- 
2.43.0


From b8f344a57ea998963c8810913b384e421052a42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:48 +0000
Subject: [PATCH 40/80] fix: getUniqueManagerId repeats IDs when the clock is
 set back or used from several threads

---
 Configuration/src/lib/Utils.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Configuration/src/lib/Utils.cpp b/Configuration/src/lib/Utils.cpp
index 4aa12e9..d1c6449 100644
--- a/Configuration/src/lib/Utils.cpp
+++ b/Configuration/src/lib/Utils.cpp
@@ -23,18 +23,21 @@
  */
 
 #include "Configuration/Utils.h"
+#include <algorithm>
 #include <chrono>
+#include <mutex>
 
 namespace Euclid {
 namespace Configuration {
 
-static long last_manager_id = 0;
+static std::mutex manager_id_mutex;
+static long       last_manager_id = 0;
 
 long getUniqueManagerId() {
-  long id = last_manager_id;
-  while (id == last_manager_id) {
-    id = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
-  }
+  std::lock_guard<std::mutex> lock{manager_id_mutex};
+  // The clock can be set back, so it does not guarantee that the ID has not been used already
+  long id = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
+  id      = std::max(id, last_manager_id + 1);
   last_manager_id = id;
   return id;
 }
-- 
2.43.0


From d362d2ac41468dda30771803bad2fde89a2ba69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:48 +0000
Subject: [PATCH 41/80] fix: ConfigManager::getInstance modifies the map of
 managers without synchronisation

---
 Configuration/src/lib/ConfigManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Configuration/src/lib/ConfigManager.cpp b/Configuration/src/lib/ConfigManager.cpp
index d86b658..9b735ce 100644
--- a/Configuration/src/lib/ConfigManager.cpp
+++ b/Configuration/src/lib/ConfigManager.cpp
@@ -19,6 +19,7 @@
  * @author nikoapos
  */
 
+#include <mutex>
 #include "Configuration/ConfigManager.h"
 #include "Configuration/Configuration.h"
 #include "ElementsKernel/Exception.h"
@@ -32,7 +33,9 @@ namespace Configuration {
 static Elements::Logging logger = Elements::Logging::getLogger("ConfigManager");
 
 ConfigManager& ConfigManager::getInstance(long id) {
+  static std::mutex                                     manager_map_mutex{};
   static std::map<long, std::unique_ptr<ConfigManager>> manager_map{};
+  std::lock_guard<std::mutex>                           lock{manager_map_mutex};
   auto&                                                 manager_ptr = manager_map[id];
   if (manager_ptr == nullptr) {
     manager_ptr.reset(new ConfigManager{id});
-- 
2.43.0


From d98c5e6004adf7097fbac966ba9eb2a9d9f14feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:48 +0000
Subject: [PATCH 42/80] fix: a configuration whose constructor throws leaves a
 null pointer in the ConfigManager

---
 Configuration/Configuration/_impl/ConfigManager.icpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Configuration/Configuration/_impl/ConfigManager.icpp b/Configuration/Configuration/_impl/ConfigManager.icpp
index 9287239..06d3908 100644
--- a/Configuration/Configuration/_impl/ConfigManager.icpp
+++ b/Configuration/Configuration/_impl/ConfigManager.icpp
@@ -33,8 +33,9 @@ void ConfigManager::registerConfiguration() {
                                 << "for configuration registration";
   }
   // If the configuration is already registered we do nothing
-  if (m_config_dictionary[{typeid(T)}] == nullptr) {
-    m_config_dictionary[{typeid(T)}].reset(new T{m_id});
+  if (m_config_dictionary.find({typeid(T)}) == m_config_dictionary.end()) {
+    std::unique_ptr<Configuration> config{new T{m_id}};
+    m_config_dictionary[{typeid(T)}] = std::move(config);
   }
 }
 
-- 
2.43.0


From 8c516884d5d328a9f86723cc3849f464dcad9f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:48 +0000
Subject: [PATCH 43/80] fix: a ConfigManager whose initialization failed gives
 access to its configurations

---
 Configuration/src/lib/ConfigManager.cpp | 33 +++++++++++++++----------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/Configuration/src/lib/ConfigManager.cpp b/Configuration/src/lib/ConfigManager.cpp
index 9b735ce..3ec28b5 100644
--- a/Configuration/src/lib/ConfigManager.cpp
+++ b/Configuration/src/lib/ConfigManager.cpp
@@ -155,20 +155,27 @@ static void recursiveInitialization(const std::map<std::type_index, std::unique_
 }
 
 void ConfigManager::initialize(const std::map<std::string, po::variable_value>& user_values) {
+  auto previous_state = m_state;
+  // The configurations get their dependencies during the initialization
   m_state = State::INITIALIZED;
-  for (auto& pair : m_config_dictionary) {
-    logger.debug() << "Pre-Initializing configuration :" << pair.first.name();
-    pair.second->preInitialize(user_values);
-    pair.second->getCurrentState() = Configuration::State::PRE_INITIALIZED;
-  }
-  for (auto& pair : m_config_dictionary) {
-    logger.debug() << "Initializing configuration :" << pair.first.name();
-    recursiveInitialization(m_config_dictionary, m_dependency_map, user_values, pair.first);
-  }
-  for (auto& pair : m_config_dictionary) {
-    logger.debug() << "Post-Initializing configuration :" << pair.first.name();
-    pair.second->postInitialize(user_values);
-    pair.second->getCurrentState() = Configuration::State::FINAL;
+  try {
+    for (auto& pair : m_config_dictionary) {
+      logger.debug() << "Pre-Initializing configuration :" << pair.first.name();
+      pair.second->preInitialize(user_values);
+      pair.second->getCurrentState() = Configuration::State::PRE_INITIALIZED;
+    }
+    for (auto& pair : m_config_dictionary) {
+      logger.debug() << "Initializing configuration :" << pair.first.name();
+      recursiveInitialization(m_config_dictionary, m_dependency_map, user_values, pair.first);
+    }
+    for (auto& pair : m_config_dictionary) {
+      logger.debug() << "Post-Initializing configuration :" << pair.first.name();
+      pair.second->postInitialize(user_values);
+      pair.second->getCurrentState() = Configuration::State::FINAL;
+    }
+  } catch (...) {
+    m_state = previous_state;
+    throw;
   }
 }
 
-- 
2.43.0


From b2dfb47a18664257f44a6bb0127b0e34196c3283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:48 +0000
Subject: [PATCH 44/80] fix: ConfigManager overflows the stack with a circular
 dependency of other configurations

---
 Configuration/src/lib/ConfigManager.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Configuration/src/lib/ConfigManager.cpp b/Configuration/src/lib/ConfigManager.cpp
index 3ec28b5..cee2ac0 100644
--- a/Configuration/src/lib/ConfigManager.cpp
+++ b/Configuration/src/lib/ConfigManager.cpp
@@ -47,13 +47,17 @@ ConfigManager::ConfigManager(long id) : m_id{id} {}
 
 std::vector<std::type_index>
 hasCircularDependencies(const std::map<std::type_index, std::set<std::type_index>>& dependency_map, const std::type_index& root,
-                        const std::pair<const std::type_index, std::set<std::type_index>>& config_pair) {
+                        const std::pair<const std::type_index, std::set<std::type_index>>& config_pair,
+                        std::set<std::type_index>&                                         visited) {
 
   if (config_pair.second.find(root) != config_pair.second.end()) {
     return {root};
   }
   for (auto& config : config_pair.second) {
-    auto found = hasCircularDependencies(dependency_map, root, *dependency_map.find(config));
+    if (!visited.insert(config).second) {
+      continue;
+    }
+    auto found = hasCircularDependencies(dependency_map, root, *dependency_map.find(config), visited);
     if (!found.empty()) {
       std::vector<std::type_index> result{config};
       for (auto& type : found) {
@@ -106,7 +110,8 @@ po::options_description ConfigManager::closeRegistration() {
 
   // Check for circular dependencies
   for (auto& pair : m_config_dictionary) {
-    auto found = hasCircularDependencies(m_dependency_map, pair.first, *m_dependency_map.find(pair.first));
+    std::set<std::type_index> visited{};
+    auto                      found = hasCircularDependencies(m_dependency_map, pair.first, *m_dependency_map.find(pair.first), visited);
     if (!found.empty()) {
       logger.error() << "Found circular dependency between configurations:";
       int count = 0;
-- 
2.43.0


From 44ab83c8eda3e111f97b586535f26de73a7933f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:27 +0000
Subject: [PATCH 45/80] fix: threads sharing a QualifiedName race for its hash

---
 XYDataset/XYDataset/QualifiedName.h | 2 +-
 XYDataset/src/lib/QualifiedName.cpp | 5 +----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/XYDataset/XYDataset/QualifiedName.h b/XYDataset/XYDataset/QualifiedName.h
index bc7bf37..fada45d 100644
--- a/XYDataset/XYDataset/QualifiedName.h
+++ b/XYDataset/XYDataset/QualifiedName.h
@@ -198,7 +198,7 @@ private:
   std::vector<std::string> m_groups;
   std::string              m_dataset_name;
   std::string              m_qualified_name;
-  mutable size_t           m_hash{0};
+  size_t                   m_hash{0};
 
 };  // class QualifiedName
 
diff --git a/XYDataset/src/lib/QualifiedName.cpp b/XYDataset/src/lib/QualifiedName.cpp
index 7b76646..3b219ac 100644
--- a/XYDataset/src/lib/QualifiedName.cpp
+++ b/XYDataset/src/lib/QualifiedName.cpp
@@ -43,6 +43,7 @@ QualifiedName::QualifiedName(std::vector<std::string> groups_, std::string name)
     throw Elements::Exception() << "Invalid name : \"" << m_qualified_name.append(m_dataset_name) << "\"";
   }
   m_qualified_name.append(m_dataset_name);
+  m_hash = std::hash<std::string>{}(m_qualified_name);
 }
 
 std::vector<std::string> getGroups(const std::string& qualified_name) {
@@ -83,10 +84,6 @@ bool QualifiedName::belongsInGroup(const QualifiedName& group) const {
 }
 
 size_t QualifiedName::hash() const {
-  if (m_hash == 0) {
-    std::hash<std::string> stringHash;
-    m_hash = stringHash(qualifiedName());
-  }
   return m_hash;
 }
 
-- 
2.43.0


From 78234c03293804a54b85d1b8b5839ae616e0cfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:27 +0000
Subject: [PATCH 46/80] fix: threads sharing a Polynomial race for its
 derivative and integral

---
 MathUtils/src/lib/function/Polynomial.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/MathUtils/src/lib/function/Polynomial.cpp b/MathUtils/src/lib/function/Polynomial.cpp
index 932420f..f7290a1 100644
--- a/MathUtils/src/lib/function/Polynomial.cpp
+++ b/MathUtils/src/lib/function/Polynomial.cpp
@@ -51,26 +51,30 @@ std::unique_ptr<Function> Polynomial::clone() const {
 }
 
 std::shared_ptr<Function> Polynomial::derivative() const {
-  if (!m_derivative) {
+  auto derivative = std::atomic_load(&m_derivative);
+  if (!derivative) {
     std::vector<double> derivCoef{};
     for (size_t i = 1; i < m_coef.size(); i++) {
       derivCoef.push_back(i * this->m_coef[i]);
     }
-    m_derivative.reset(new Polynomial{std::move(derivCoef)});
+    derivative = std::make_shared<Polynomial>(std::move(derivCoef));
+    std::atomic_store(&m_derivative, derivative);
   }
-  return m_derivative;
+  return derivative;
 }
 
 std::shared_ptr<Function> Polynomial::indefiniteIntegral() const {
-  if (!m_indefIntegral) {
+  auto indefIntegral = std::atomic_load(&m_indefIntegral);
+  if (!indefIntegral) {
     std::vector<double> indefIntegCoef{};
     indefIntegCoef.push_back(0.);
     for (size_t i = 0; i < m_coef.size(); i++) {
       indefIntegCoef.push_back(m_coef[i] / (i + 1));
     }
-    m_indefIntegral.reset(new Polynomial{std::move(indefIntegCoef)});
+    indefIntegral = std::make_shared<Polynomial>(std::move(indefIntegCoef));
+    std::atomic_store(&m_indefIntegral, indefIntegral);
   }
-  return m_indefIntegral;
+  return indefIntegral;
 }
 
 }  // namespace MathUtils
-- 
2.43.0


From b86c4426060bf801fc1305d6ae1ded1e3fc55a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:17 +0000
Subject: [PATCH 47/80] fix: a slice of a GridContainer slice forgets the axes
 fixed before

---
 GridContainer/GridContainer/_impl/GridContainer.icpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/GridContainer/GridContainer/_impl/GridContainer.icpp b/GridContainer/GridContainer/_impl/GridContainer.icpp
index 2c8e7ca..ba86885 100644
--- a/GridContainer/GridContainer/_impl/GridContainer.icpp
+++ b/GridContainer/GridContainer/_impl/GridContainer.icpp
@@ -36,9 +36,13 @@ GridContainer<GridCellManager, AxesTypes...>::GridContainer(std::tuple<GridAxis<
     : m_axes{std::move(axes_tuple)} {}
 
 template <typename... AxesTypes>
-std::tuple<GridAxis<AxesTypes>...> fixAxis(const std::tuple<GridAxis<AxesTypes>...>& original, size_t axis, size_t index) {
+std::tuple<GridAxis<AxesTypes>...> fixAxis(const std::tuple<GridAxis<AxesTypes>...>& original,
+                                           std::map<size_t, size_t> fixed_indices, size_t axis, size_t index) {
   std::tuple<GridAxis<AxesTypes>...> result{original};
-  GridConstructionHelper<AxesTypes...>::template findAndFixAxis(result, axis, index, TemplateLoopCounter<0>{});
+  fixed_indices.emplace(axis, index);
+  for (auto& pair : fixed_indices) {
+    GridConstructionHelper<AxesTypes...>::template findAndFixAxis(result, pair.first, pair.second, TemplateLoopCounter<0>{});
+  }
   return result;
 }
 
@@ -46,7 +50,7 @@ template <typename GridCellManager, typename... AxesTypes>
 GridContainer<GridCellManager, AxesTypes...>::GridContainer(const GridContainer<GridCellManager, AxesTypes...>& other, size_t axis,
                                                             size_t index)
     : m_axes{other.m_axes}
-    , m_axes_fixed{fixAxis(other.m_axes, axis, index)}
+    , m_axes_fixed{fixAxis(other.m_axes, other.m_fixed_indices, axis, index)}
     , m_fixed_indices{other.m_fixed_indices}
     , m_cell_manager{other.m_cell_manager} {
   // Update the fixed indices
-- 
2.43.0


From cd923c5ee1e33688312cf1b9fe4ea91f4ef340ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:17 +0000
Subject: [PATCH 48/80] fix: GridContainer::infimum() of a slice returns
 indices of the original grid

---
 GridContainer/GridContainer/_impl/GridContainer.icpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GridContainer/GridContainer/_impl/GridContainer.icpp b/GridContainer/GridContainer/_impl/GridContainer.icpp
index ba86885..2ac1d24 100644
--- a/GridContainer/GridContainer/_impl/GridContainer.icpp
+++ b/GridContainer/GridContainer/_impl/GridContainer.icpp
@@ -209,7 +209,7 @@ auto GridContainer<GridCellManager, AxesTypes...>::infimum(const AxesTypes... co
 template <typename GridCellManager, typename... AxesTypes>
 auto GridContainer<GridCellManager, AxesTypes...>::infimum(const std::tuple<AxesTypes...>& coords) const
     -> std::tuple<decltype(std::declval<GridAxis<AxesTypes>>().size())...> {
-  return InfimumHelper<sizeof...(AxesTypes) - 1>::getIndex(coords, m_axes);
+  return InfimumHelper<sizeof...(AxesTypes) - 1>::getIndex(coords, m_axes_fixed);
 }
 
 template <typename GridCellManager, typename... AxesTypes>
-- 
2.43.0


From 1426b9075e41c9c66e0497e5d5c18c895e21b9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:17 +0000
Subject: [PATCH 49/80] fix: an iterator of a GridContainer fixed half way
 skips cells or passes the end

---
 GridContainer/GridContainer/GridContainer.h   |  1 +
 .../GridContainer/_impl/GridIterator.icpp     | 36 ++++++++++++-------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/GridContainer/GridContainer/GridContainer.h b/GridContainer/GridContainer/GridContainer.h
index 37a2ff2..6620535 100644
--- a/GridContainer/GridContainer/GridContainer.h
+++ b/GridContainer/GridContainer/GridContainer.h
@@ -499,6 +499,7 @@ private:
   cell_manager_iter_type                              m_data_iter;
   std::map<size_t, size_t>                            m_fixed_indices;
   void                                                forwardToIndex(size_t axis, size_t fixed_index);
+  void forwardToFixedIndices();
 
 };  // end of class iter
 
diff --git a/GridContainer/GridContainer/_impl/GridIterator.icpp b/GridContainer/GridContainer/_impl/GridIterator.icpp
index 81f6717..3eeaa91 100644
--- a/GridContainer/GridContainer/_impl/GridIterator.icpp
+++ b/GridContainer/GridContainer/_impl/GridIterator.icpp
@@ -48,17 +48,7 @@ template <typename CellType>
 auto GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::operator++() -> iter& {
   ++m_data_iter;
   if (!m_fixed_indices.empty()) {
-    for (auto& fixed_index_pair : m_fixed_indices) {
-      size_t axis        = fixed_index_pair.first;
-      size_t fixed_index = fixed_index_pair.second;
-      forwardToIndex(axis, fixed_index);
-    }
-    // Because we make big steps there is the possibility we went after the end.
-    // In this case we set the iterator to the end.
-    auto end_iter = GridCellManagerTraits<GridCellManager>::end(*(m_owner.m_cell_manager));
-    if (m_data_iter > end_iter) {
-      m_data_iter = end_iter;
-    }
+    forwardToFixedIndices();
   }
   return *this;
 }
@@ -128,7 +118,13 @@ auto GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::fixAxisByInde
                                 << m_owner.getOriginalAxis<I>().size() << ")";
   }
   m_fixed_indices[I] = index;
-  forwardToIndex(I, index);
+  if (axisIndex<I>() != index) {
+    // The first of the following cells with the given index has the axes which vary faster at their beginning
+    size_t current_size = m_data_iter - GridCellManagerTraits<GridCellManager>::begin(*(m_owner.m_cell_manager));
+    m_data_iter -= current_size % m_owner.m_index_helper.m_axes_index_factors[I];
+    forwardToIndex(I, index);
+    forwardToFixedIndices();
+  }
   return *this;
 }
 
@@ -158,6 +154,22 @@ void GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::forwardToInde
   }
 }
 
+template <typename GridCellManager, typename... AxesTypes>
+template <typename CellType>
+void GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::forwardToFixedIndices() {
+  for (auto& fixed_index_pair : m_fixed_indices) {
+    size_t axis        = fixed_index_pair.first;
+    size_t fixed_index = fixed_index_pair.second;
+    forwardToIndex(axis, fixed_index);
+  }
+  // Because we make big steps there is the possibility we went after the end.
+  // In this case we set the iterator to the end.
+  auto end_iter = GridCellManagerTraits<GridCellManager>::end(*(m_owner.m_cell_manager));
+  if (m_data_iter > end_iter) {
+    m_data_iter = end_iter;
+  }
+}
+
 template <typename IterFrom, typename IterTo, int I>
 static void fixSameAxes(IterFrom& from, IterTo& to, const TemplateLoopCounter<I>&) {
   to.template fixAxisByValue<I>(from.template axisValue<I>());
-- 
2.43.0


From eacac313e48c228c0895e38a810e578a2fb86d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:17 +0000
Subject: [PATCH 50/80] fix: grids saved in the same archive are loaded with
 the axes of each other

---
 GridContainer/GridContainer/serialization/GridContainer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GridContainer/GridContainer/serialization/GridContainer.h b/GridContainer/GridContainer/serialization/GridContainer.h
index 1e7b9a5..6fe85cf 100644
--- a/GridContainer/GridContainer/serialization/GridContainer.h
+++ b/GridContainer/GridContainer/serialization/GridContainer.h
@@ -108,7 +108,8 @@ void serialize(Archive& ar, Euclid::GridContainer::GridContainer<GridCellManager
 template <class Archive, typename GridCellManager, typename... AxesTypes>
 void save_construct_data(Archive& ar, const Euclid::GridContainer::GridContainer<GridCellManager, AxesTypes...>* t,
                          const unsigned int) {
-  std::tuple<Euclid::GridContainer::GridAxis<AxesTypes>...> axes_tuple = t->getAxesTuple();
+  // Not a copy: the archive identifies the axes by their address
+  const std::tuple<Euclid::GridContainer::GridAxis<AxesTypes>...>& axes_tuple = t->getAxesTuple();
   ar << axes_tuple;
 }
 
-- 
2.43.0


From 71ad75355dc1bcf1a67de5b2587103ffac2b7109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:17 +0000
Subject: [PATCH 51/80] fix: linearUnitDisk leaves out the cells after the best
 matching unit

---
 SOM/src/lib/NeihbourhoodFunc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SOM/src/lib/NeihbourhoodFunc.cpp b/SOM/src/lib/NeihbourhoodFunc.cpp
index f18e643..91dc232 100644
--- a/SOM/src/lib/NeihbourhoodFunc.cpp
+++ b/SOM/src/lib/NeihbourhoodFunc.cpp
@@ -29,8 +29,8 @@ Signature linearUnitDisk(double initial_radius) {
                     std::size_t total_iterations) -> double {
     double iter_factor = 1.0 * (total_iterations - iteration) / total_iterations;
     iter_factor        = iter_factor * iter_factor;  // We compare the squared distances
-    double x           = bmu.first - cell.first;
-    double y           = bmu.second - cell.second;
+    double x           = static_cast<double>(bmu.first) - cell.first;
+    double y           = static_cast<double>(bmu.second) - cell.second;
     double dist_square = x * x + y * y;
     if (dist_square < r_square * iter_factor) {
       return 1.;
-- 
2.43.0


From 8909bb7dc3076f9d19df3cdf30533bae03ba1ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:17 +0000
Subject: [PATCH 52/80] fix: the SOM sampling policies read an element of an
 empty sample

---
 SOM/SOM/SamplingPolicy.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SOM/SOM/SamplingPolicy.h b/SOM/SOM/SamplingPolicy.h
index 7daf2c8..54db7a6 100644
--- a/SOM/SOM/SamplingPolicy.h
+++ b/SOM/SOM/SamplingPolicy.h
@@ -63,6 +63,11 @@ public:
 
     m_end = end;
 
+    // There is nothing to choose from
+    if (begin == end) {
+      return end;
+    }
+
     std::random_device              rd;
     std::mt19937                    gen(rd());
     std::uniform_int_distribution<> dis(0, std::distance(begin, end) - 1);
@@ -126,7 +131,7 @@ public:
     // Set the current iterator at the beginning of the vector and return it
     m_current        = 0;
     m_iter_list_size = m_iter_list.size();
-    return m_iter_list[m_current];
+    return m_iter_list.empty() ? end : m_iter_list[m_current];
   }
 
   IterType next(IterType) const override {
-- 
2.43.0


From 67854e926bc929a501ee1ccb1ed6fc27d10e1c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:40 +0000
Subject: [PATCH 53/80] fix: the detection of the catalog format reads past its
 buffer

---
 Configuration/src/lib/CatalogConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Configuration/src/lib/CatalogConfig.cpp b/Configuration/src/lib/CatalogConfig.cpp
index cbf6c6b..27ec16f 100644
--- a/Configuration/src/lib/CatalogConfig.cpp
+++ b/Configuration/src/lib/CatalogConfig.cpp
@@ -98,8 +98,8 @@ FormatType autoDetectFormatType(fs::path file) {
     std::ifstream        in{file.string()};
     std::array<char, 80> first_header_array;
     in.read(first_header_array.data(), 80);
+    std::string first_header_str(first_header_array.data(), in.gcount());
     in.close();
-    std::string first_header_str{first_header_array.data()};
     if (first_header_str.compare(0, 9, "SIMPLE  =") == 0) {
       result = FormatType::FITS;
     }
-- 
2.43.0


From a414729651c120e1b4eee6c5886db9974c37a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:58 +0000
Subject: [PATCH 54/80] fix: a photometry mapping file that can not be read is
 taken for its end

---
 Configuration/src/lib/PhotometricBandMappingConfig.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Configuration/src/lib/PhotometricBandMappingConfig.cpp b/Configuration/src/lib/PhotometricBandMappingConfig.cpp
index 4a5f689..170832d 100644
--- a/Configuration/src/lib/PhotometricBandMappingConfig.cpp
+++ b/Configuration/src/lib/PhotometricBandMappingConfig.cpp
@@ -77,6 +77,9 @@ parseFile(fs::path filename) {
   PhotometricBandMappingConfig::UpperLimitThresholdMap threshold_mapping{};
   PhotometricBandMappingConfig::ConvertFromMagMap      convert_from_mag_mapping{};
   std::ifstream                                        in{filename.string()};
+  if (!in) {
+    throw Elements::Exception() << "Failed to open the photometry mapping file " << filename;
+  }
   std::string                                          line;
   regex                                                expr{"\\s*([^\\s#]+)\\s+([^\\s#]+)\\s+([^\\s#]+)(\\s+[^\\s#]+)?(\\s+[^\\s#]+\\s*$)?"};
   while (std::getline(in, line)) {
@@ -108,6 +111,9 @@ parseFile(fs::path filename) {
     }
 
   }
+  if (in.bad()) {
+    throw Elements::Exception() << "Failed to read the photometry mapping file " << filename;
+  }
   return std::make_tuple(filter_name_mapping, threshold_mapping, convert_from_mag_mapping);
 }
 
-- 
2.43.0


From 55fc57b19c99d8084d80fbcd48f44bcb3fa94d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:50 +0000
Subject: [PATCH 55/80] fix: InverseCumulative returns values outside of the
 knots

The CDF was inverted with the coefficients of the parabola relative to the
origin, choosing the solution with an absolute tolerance of 1e-8. With knots
closer than that the wrong solution was returned, and with knots far from the
origin the cancellation gave results outside of the segment, or NaN. Solve it
relative to the beginning of the segment.
---
 .../helpers/_impl/InverseCumulative.icpp      | 39 +++++--------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
index ffc9e8c..8aabe93 100644
--- a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
+++ b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
@@ -18,9 +18,8 @@
 
 #ifdef INVERSE_CUMULATIVE_IMPL
 
-#include "MathUtils/helpers/Solvers.h"
 #include <algorithm>
-#include <cassert>
+#include <cmath>
 
 namespace Euclid {
 namespace MathUtils {
@@ -78,7 +77,7 @@ public:
     // If p0 == p1 we are on a uniform area
     if (p0 == p1) {
       double interval_p = (unnormed_p - cdf0) / (cdf1 - cdf0);
-      return (x1 - x0) * interval_p + x0;
+      return std::min((x1 - x0) * interval_p + x0, x1);
     }
 
     // If both cdf are the same, then the interval has 0 probability.
@@ -88,36 +87,16 @@ public:
       return x0;
     }
 
-    // Since we assume a linear interpolation, we know that
-    // p0 = a * x0 + b
-    // p1 = a * x1 + b
-    // So we can solve for a and b
+    // Since we assume a linear interpolation, at a distance t of x0 the PDF has a value of p0 + a * t
     const double a = (p1 - p0) / (x1 - x0);
-    const double b = p0 - a * x0;
 
-    assert(std::abs(a * x0 + b - p0) < 1e-8);
-    assert(std::abs(a * x1 + b - p1) < 1e-8);
+    // The CDF is the integral, so we need to solve a/2 * t^2 + p0 * t = unnormed_p - cdf0
+    // Of the two solutions this is the one within [0, x1 - x0], written without cancellation, so it is valid for any
+    // scale of the knots and of the PDF
+    const double d = unnormed_p - cdf0;
+    const double t = 2. * d / (p0 + std::sqrt(std::max(p0 * p0 + 2. * a * d, 0.)));
 
-    // The CDF is the integral, so we also know that
-    // cdf0 = a/2 * x0^2 + b * x0 + c
-    // cdf1 = a/2 * x1^2 + b * x1 + c
-    // We already know a and b, so it is easy to solve for c
-    const double c = cdf0 - (a / 2.) * (x0 * x0) - b * x0;
-
-    // Double check that the equation passes through the CDF at the limits
-    // assert(std::abs((a / 2.) * (x0 * x0) + b * x0 + c - cdf0) < 1e-4);
-    // assert(std::abs((a / 2.) * (x1 * x1) + b * x1 + c - cdf1) < 1e-4);
-
-    // We have the equation, so we now need to solve x for p
-    double s0, s1;
-    std::tie(s0, s1) = solveSquare(a / 2, b, c, unnormed_p);
-
-    // Pick the possible result that lies within [x0, x1]
-    if (s0 >= x0 - 1e-8 && s0 <= x1 + 1e-8) {
-      return s0;
-    }
-    assert(s1 >= x0 - 1e-8 && s1 <= x1 + 1e-8);
-    return s1;
+    return std::min(x0 + t, x1);
   }
 
 private:
-- 
2.43.0


From 6359da21704ee6a8d89031caf0d1a61fd20d2af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:50 +0000
Subject: [PATCH 56/80] fix: InverseCumulative accepts a PDF with another size
 than its knots

The size of the knots was compared with itself, so a PDF with more values than
knots was read past the end of the knots.
---
 MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
index 8aabe93..a1bebb7 100644
--- a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
+++ b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
@@ -32,8 +32,8 @@ class InverseCumulative<TKnot, typename std::enable_if<std::is_floating_point<TK
 public:
   InverseCumulative(std::vector<TKnot> knots, std::vector<double> pdf)
       : m_knots(std::move(knots)), m_pdf(std::move(pdf)), m_cdf(m_pdf.size()) {
-    if (m_knots.size() != m_knots.size()) {
-      throw Elements::Exception() << "PDF and knots dimensionality do not match: " << m_knots.size() << " != " << knots.size();
+    if (m_knots.size() != m_pdf.size() || m_pdf.empty()) {
+      throw Elements::Exception() << "PDF and knots dimensionality do not match: " << m_knots.size() << " != " << m_pdf.size();
     }
     if (!std::is_sorted(m_knots.begin(), m_knots.end())) {
       throw Elements::Exception() << "Knots must be sorted";
@@ -112,6 +112,9 @@ template <typename TKnot>
 class InverseCumulative<TKnot, typename std::enable_if<!std::is_floating_point<TKnot>::value>::type> {
 public:
   InverseCumulative(std::vector<TKnot> knots, std::vector<double> pdf) : m_knots(std::move(knots)), m_cdf(std::move(pdf)) {
+    if (m_knots.size() != m_cdf.size() || m_cdf.empty()) {
+      throw Elements::Exception() << "PDF and knots dimensionality do not match: " << m_knots.size() << " != " << m_cdf.size();
+    }
     // Compute cumulative and normalize
     for (std::size_t i = 1; i < m_cdf.size(); ++i) {
       m_cdf[i] += m_cdf[i - 1];
-- 
2.43.0


From 0193362bc15025a78e8b8d2da6c0628e61da2003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:50 +0000
Subject: [PATCH 57/80] fix: InterpN reads past the knots of a discrete axis
 for an unknown value

The result of std::find was compared by dereferencing it, also when it is the
end.
---
 .../MathUtils/interpolation/_impl/GridInterpolation.icpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp b/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
index 5b69f94..e822fc4 100644
--- a/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
+++ b/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
@@ -61,7 +61,7 @@ template <typename T>
 struct InterpolationImpl<T, typename std::enable_if<!std::is_floating_point<T>::value>::type> {
   static double interpolate(const T x, const std::vector<T>& knots, const std::vector<double>& values, bool /*extrapolate*/) {
     std::size_t i = std::find(knots.begin(), knots.end(), x) - knots.begin();
-    if (knots[i] != x)
+    if (i == knots.size())
       return 0.;
     return values[i];
   }
@@ -70,7 +70,7 @@ struct InterpolationImpl<T, typename std::enable_if<!std::is_floating_point<T>::
   static double interpolate(const T x, const std::vector<T>& knots,
                             const std::vector<std::unique_ptr<InterpN<Rest...>>>& interpolators, bool, const Rest... rest) {
     std::size_t i = std::find(knots.begin(), knots.end(), x) - knots.begin();
-    if (knots[i] != x)
+    if (i == knots.size())
       return 0.;
     return (*interpolators[i])(rest...);
   }
-- 
2.43.0


From 62f583642c3273171bb1bf4ea02e37be952f3eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:16 +0000
Subject: [PATCH 58/80] fix: InverseCumulative loses the shape of narrow
 distributions

The CDF of a continuous distribution started at the density of the first knot
instead of zero. When the knots are so close that their probability is small
compared to that, the precision was lost, down to always returning the first
knot.
---
 MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
index a1bebb7..1fc1167 100644
--- a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
+++ b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
@@ -39,7 +39,7 @@ public:
       throw Elements::Exception() << "Knots must be sorted";
     }
 
-    m_cdf[0] = m_pdf[0];
+    m_cdf[0] = 0.;
     for (std::size_t i = 1; i < m_cdf.size(); ++i) {
       m_cdf[i] = (m_knots[i] - m_knots[i - 1]) * (m_pdf[i] + m_pdf[i - 1]) / 2.;
       m_cdf[i] += m_cdf[i - 1];
-- 
2.43.0


From 53fab10369b7f269d6e97a263e0c664671e827aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:16 +0000
Subject: [PATCH 59/80] fix: simple_interpolation mixes coordinate and value at
 a discontinuity

With two knots at the same coordinate the result was the mean of the coordinate
and the value, instead of the mean of the two values.
---
 MathUtils/src/lib/interpolation/interpolation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MathUtils/src/lib/interpolation/interpolation.cpp b/MathUtils/src/lib/interpolation/interpolation.cpp
index ad5a4f7..6f1d99d 100644
--- a/MathUtils/src/lib/interpolation/interpolation.cpp
+++ b/MathUtils/src/lib/interpolation/interpolation.cpp
@@ -122,7 +122,7 @@ double simple_interpolation(double x, const std::vector<double>& xp, const std::
   double y1 = yp[i], y0 = yp[i - 1];
 
   if (x1 == x0) {
-    return (x1 + y1) / 2.;
+    return (y0 + y1) / 2.;
   }
 
   double coef1 = (y1 - y0) / (x1 - x0);
-- 
2.43.0


From 49d647429693a140728465025bed2bcc7b9ca67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:33 +0000
Subject: [PATCH 60/80] fix: a circular dependency declared by the
 configurations never ends their registration instead of being reported

---
 Configuration/Configuration/_impl/ConfigManager.icpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Configuration/Configuration/_impl/ConfigManager.icpp b/Configuration/Configuration/_impl/ConfigManager.icpp
index 06d3908..f432252 100644
--- a/Configuration/Configuration/_impl/ConfigManager.icpp
+++ b/Configuration/Configuration/_impl/ConfigManager.icpp
@@ -34,8 +34,16 @@ void ConfigManager::registerConfiguration() {
   }
   // If the configuration is already registered we do nothing
   if (m_config_dictionary.find({typeid(T)}) == m_config_dictionary.end()) {
-    std::unique_ptr<Configuration> config{new T{m_id}};
-    m_config_dictionary[{typeid(T)}] = std::move(config);
+    // The constructor registers the dependencies, so the entry must be there already: otherwise a configuration which is
+    // part of a circular dependency would be constructed again and again
+    m_config_dictionary[{typeid(T)}] = nullptr;
+    try {
+      std::unique_ptr<Configuration> config{new T{m_id}};
+      m_config_dictionary[{typeid(T)}] = std::move(config);
+    } catch (...) {
+      m_config_dictionary.erase(std::type_index{typeid(T)});
+      throw;
+    }
   }
 }
 
-- 
2.43.0


From e192f8223a6af586ab1f7f706e806ee1b7b49b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:55 +0000
Subject: [PATCH 61/80] fix: GridContainer::infimum() does not compile for
 grids of one axis

---
 GridContainer/GridContainer/_impl/GridContainer.icpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GridContainer/GridContainer/_impl/GridContainer.icpp b/GridContainer/GridContainer/_impl/GridContainer.icpp
index 2ac1d24..4feb259 100644
--- a/GridContainer/GridContainer/_impl/GridContainer.icpp
+++ b/GridContainer/GridContainer/_impl/GridContainer.icpp
@@ -188,8 +188,8 @@ struct InfimumHelper<0> {
 
   template <typename... AxesType>
   static std::tuple<std::size_t> getIndex(const std::tuple<AxesType...>& coords, const std::tuple<GridAxis<AxesType>...>& axes) {
-    auto i0 = std::get<0>(axes).infimum(std::get<0>(coords));
-    return std::make_tuple(i0);
+    auto& ax0 = std::get<0>(axes);
+    return std::make_tuple(static_cast<std::size_t>(ax0.infimum(std::get<0>(coords)) - ax0.begin()));
   }
 
   template <typename IndexTuple, typename... AxesType>
-- 
2.43.0


From ed0d5de466117af8d03cf50a3510f4af9c8946cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:55 +0000
Subject: [PATCH 62/80] fix: the U-matrix of a SOM with one cell reads the
 minimum of an empty list

---
 SOM/SOM/_impl/UMatrix.icpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SOM/SOM/_impl/UMatrix.icpp b/SOM/SOM/_impl/UMatrix.icpp
index bc4341e..19f5eb1 100644
--- a/SOM/SOM/_impl/UMatrix.icpp
+++ b/SOM/SOM/_impl/UMatrix.icpp
@@ -23,6 +23,7 @@
 
 #include "SOM/ImplTools.h"
 #include <algorithm>
+#include <limits>
 #include <map>
 #include <numeric>
 
@@ -73,8 +74,8 @@ UMatrix computeUMatrix(const SOM<ND, DistFunc>& som, UMatrixType type) {
         }
       }
 
-      // Populate the u-matrix cell
-      result(x, y) = type_func(dist_list);
+      // Populate the u-matrix cell. The only cell of a SOM has no neighbors.
+      result(x, y) = dist_list.empty() ? std::numeric_limits<double>::quiet_NaN() : type_func(dist_list);
     }
   }
 
-- 
2.43.0


From 1bc839339e4983bfc0d3999464a484373b393620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:55 +0000
Subject: [PATCH 63/80] fix: InverseCumulative returns a knot without
 probability for a cumulative of zero

---
 .../helpers/_impl/InverseCumulative.icpp         | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
index 1fc1167..fd9383f 100644
--- a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
+++ b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
@@ -20,6 +20,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <cstddef>
 
 namespace Euclid {
 namespace MathUtils {
@@ -51,6 +52,15 @@ public:
       m_knots.pop_back();
     }
 
+    // Remove leading knots with no probability
+    std::size_t first = 0;
+    while (first + 1 < m_cdf.size() && m_cdf[first + 1] == m_cdf.front()) {
+      ++first;
+    }
+    m_cdf.erase(m_cdf.begin(), m_cdf.begin() + first);
+    m_pdf.erase(m_pdf.begin(), m_pdf.begin() + first);
+    m_knots.erase(m_knots.begin(), m_knots.begin() + first);
+
     m_min   = m_cdf.front();
     m_range = m_cdf.back() - m_min;
   }
@@ -122,6 +132,12 @@ public:
     for (auto& v : m_cdf) {
       v /= m_cdf.back();
     }
+    // Remove leading knots with no probability
+    auto first = std::find_if(m_cdf.begin(), m_cdf.end(), [](double v) { return v > 0.; }) - m_cdf.begin();
+    if (first < static_cast<std::ptrdiff_t>(m_cdf.size())) {
+      m_cdf.erase(m_cdf.begin(), m_cdf.begin() + first);
+      m_knots.erase(m_knots.begin(), m_knots.begin() + first);
+    }
   }
 
   TKnot operator()(double p) const {
-- 
2.43.0


From f9778e70dd44d4050b3d01cf0f04e61758608982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:58 +0000
Subject: [PATCH 64/80] fix: fixing an axis of an iterator of a grid without
 cells divides by zero

---
 GridContainer/GridContainer/_impl/GridIterator.icpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GridContainer/GridContainer/_impl/GridIterator.icpp b/GridContainer/GridContainer/_impl/GridIterator.icpp
index 3eeaa91..38b72bf 100644
--- a/GridContainer/GridContainer/_impl/GridIterator.icpp
+++ b/GridContainer/GridContainer/_impl/GridIterator.icpp
@@ -118,7 +118,9 @@ auto GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::fixAxisByInde
                                 << m_owner.getOriginalAxis<I>().size() << ")";
   }
   m_fixed_indices[I] = index;
-  if (axisIndex<I>() != index) {
+  // There is nothing to move to after the last cell (and no axis index, when another axis has no knots)
+  auto end_iter = GridCellManagerTraits<GridCellManager>::end(*(m_owner.m_cell_manager));
+  if (m_data_iter != end_iter && axisIndex<I>() != index) {
     // The first of the following cells with the given index has the axes which vary faster at their beginning
     size_t current_size = m_data_iter - GridCellManagerTraits<GridCellManager>::begin(*(m_owner.m_cell_manager));
     m_data_iter -= current_size % m_owner.m_index_helper.m_axes_index_factors[I];
-- 
2.43.0


From 94661b6b6cc539ae9b1fc69381c244dce23c9e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:26 +0000
Subject: [PATCH 65/80] fix: interpolate() reads from empty lists and gives
 zero for one point given twice

---
 MathUtils/src/lib/interpolation/interpolation.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/MathUtils/src/lib/interpolation/interpolation.cpp b/MathUtils/src/lib/interpolation/interpolation.cpp
index 6f1d99d..8b31164 100644
--- a/MathUtils/src/lib/interpolation/interpolation.cpp
+++ b/MathUtils/src/lib/interpolation/interpolation.cpp
@@ -45,9 +45,8 @@ std::unique_ptr<Function> interpolate(const std::vector<double>& x, const std::v
                                    << "size: X=" << x.size() << ", Y=" << y.size();
   }
 
-  if (x.size() == 1 && extrapolate) {
-    auto c = y.front();
-    return make_unique<FunctionAdapter>([c](double) { return c; });
+  if (x.empty()) {
+    throw InterpolationException() << "Can not interpolate an empty list of values";
   }
 
   // We remove any duplicate lines and we check that we have only increasing
@@ -75,6 +74,11 @@ std::unique_ptr<Function> interpolate(const std::vector<double>& x, const std::v
     final_y.emplace_back(y[i]);
   }
 
+  if (final_x.size() == 1 && extrapolate) {
+    auto c = final_y.front();
+    return make_unique<FunctionAdapter>([c](double) { return c; });
+  }
+
   switch (type) {
   case InterpolationType::LINEAR:
     return linearInterpolation(final_x, final_y, extrapolate);
-- 
2.43.0


From e8c2ad360606dcffed6ec4c38ec7aee54d97ae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:26 +0000
Subject: [PATCH 66/80] fix: the integral of a linear interpolation over a step
 is NaN

---
 MathUtils/src/lib/interpolation/linear.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MathUtils/src/lib/interpolation/linear.cpp b/MathUtils/src/lib/interpolation/linear.cpp
index 9943615..e10e65c 100644
--- a/MathUtils/src/lib/interpolation/linear.cpp
+++ b/MathUtils/src/lib/interpolation/linear.cpp
@@ -34,7 +34,8 @@ namespace MathUtils {
 std::unique_ptr<Function> linearInterpolation(const std::vector<double>& x, const std::vector<double>& y, bool extrapolate) {
   std::vector<std::unique_ptr<Function>> functions{};
   for (size_t i = 0; i < x.size() - 1; i++) {
-    double coef1 = (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
+    // A step has no slope, so its piece of zero length is constant
+    double coef1 = (x[i + 1] == x[i]) ? 0. : (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
     double coef0 = y[i] - coef1 * x[i];
     functions.push_back(std::unique_ptr<Function>(new Polynomial{{coef0, coef1}}));
   }
-- 
2.43.0


From d721df2d5f0c9d65c16aee1c27da4a53acec27c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:26 +0000
Subject: [PATCH 67/80] fix: the cubic spline of a step function is NaN
 everywhere instead of an exception

---
 MathUtils/src/lib/interpolation/interpolation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MathUtils/src/lib/interpolation/interpolation.cpp b/MathUtils/src/lib/interpolation/interpolation.cpp
index 8b31164..61fee98 100644
--- a/MathUtils/src/lib/interpolation/interpolation.cpp
+++ b/MathUtils/src/lib/interpolation/interpolation.cpp
@@ -70,6 +70,10 @@ std::unique_ptr<Function> interpolate(const std::vector<double>& x, const std::v
       throw InterpolationException() << "Only increasing X values are supported "
                                      << "but found " << x[i] << " after " << x[i - 1];
     }
+    if (type == InterpolationType::CUBIC_SPLINE && x[i] == x[i - 1]) {
+      throw InterpolationException() << "Step functions can not be interpolated with a cubic spline but found two values for "
+                                     << x[i];
+    }
     final_x.emplace_back(x[i]);
     final_y.emplace_back(y[i]);
   }
-- 
2.43.0


From 4f41ed0ac021b87fce6dabb1340df5d6f05a6239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:26 +0000
Subject: [PATCH 68/80] fix: multiplying piecewise functions that do not
 overlap reads past their knots

---
 MathUtils/src/lib/function/multiplication.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MathUtils/src/lib/function/multiplication.cpp b/MathUtils/src/lib/function/multiplication.cpp
index 33fd76c..275cd8b 100644
--- a/MathUtils/src/lib/function/multiplication.cpp
+++ b/MathUtils/src/lib/function/multiplication.cpp
@@ -67,11 +67,13 @@ std::vector<double> overlappingKnots(const std::vector<double>& knots1, const st
   while (p1Iter != knots1.end() && p2Iter != knots2.end()) {
     if (!started) {
       if (*p1Iter < *p2Iter) {
-        if (*(++p1Iter) > *p2Iter) {
+        ++p1Iter;
+        if (p1Iter != knots1.end() && *p1Iter > *p2Iter) {
           started = true;
         }
       } else {
-        if (*p1Iter < *(++p2Iter)) {
+        ++p2Iter;
+        if (p2Iter != knots2.end() && *p1Iter < *p2Iter) {
           started = true;
         }
       }
-- 
2.43.0


From 4cbb770cfbdcdd1a3aac2c24e1a31035f2110801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:26 +0000
Subject: [PATCH 69/80] fix: multiplying two polynomials without coefficients
 fails

---
 MathUtils/src/lib/function/multiplication.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MathUtils/src/lib/function/multiplication.cpp b/MathUtils/src/lib/function/multiplication.cpp
index 275cd8b..0f08690 100644
--- a/MathUtils/src/lib/function/multiplication.cpp
+++ b/MathUtils/src/lib/function/multiplication.cpp
@@ -40,6 +40,9 @@ std::unique_ptr<Function> multiplyPolynomials(const Function& f1, const Function
   const Polynomial&   p2 = dynamic_cast<const Polynomial&>(f2);
   std::vector<double> c1 = p1.getCoefficients();
   std::vector<double> c2 = p2.getCoefficients();
+  if (c1.empty() || c2.empty()) {
+    return std::unique_ptr<Polynomial>(new Polynomial{{0.}});
+  }
   std::vector<double> resultCoef(c1.size() + c2.size() - 1, 0.);
   for (size_t i = 0; i < c1.size(); ++i)
     for (size_t j = 0; j < c2.size(); ++j)
-- 
2.43.0


From 405393b2fc913548778a00dc9fc4534bc5dee7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:26 +0000
Subject: [PATCH 70/80] fix: the value of a piecewise function with one knot is
 read from an empty list

---
 MathUtils/src/lib/function/Piecewise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MathUtils/src/lib/function/Piecewise.cpp b/MathUtils/src/lib/function/Piecewise.cpp
index f53b2e9..de3c84d 100644
--- a/MathUtils/src/lib/function/Piecewise.cpp
+++ b/MathUtils/src/lib/function/Piecewise.cpp
@@ -70,7 +70,7 @@ const std::vector<std::unique_ptr<Function>>& Piecewise::getFunctions() const {
 
 double Piecewise::operator()(const double x) const {
   auto knotsBegin = m_knots.begin();
-  if (x < *knotsBegin) {
+  if (m_functions.empty() || x < *knotsBegin) {
     return 0;
   }
   if (x == *knotsBegin) {
-- 
2.43.0


From 8a0970988dba41f95a5333ec01c38a89d137fea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:39 +0000
Subject: [PATCH 71/80] fix: the median of a histogram uses the edges and
 counts of the wrong bin

---
 Histogram/Histogram/_impl/ComputationImpl.icpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/Histogram/Histogram/_impl/ComputationImpl.icpp b/Histogram/Histogram/_impl/ComputationImpl.icpp
index 2af6c21..57493dd 100644
--- a/Histogram/Histogram/_impl/ComputationImpl.icpp
+++ b/Histogram/Histogram/_impl/ComputationImpl.icpp
@@ -51,14 +51,18 @@ std::tuple<VarType, VarType, VarType> Histogram<VarType, WeightType>::Computatio
 
   assert(low_sum + high_sum == total_count);
 
+  // low_i is now high_i + 1: the median is inside the bin that tipped the balance, interpolated with its own content
   VarType median;
-  if (high_i >= 0) {
-    auto edges      = m_binning.getBinEdges(high_i + 1);
-    auto bin_width  = (edges.second - edges.first);
-    auto max_counts = std::max((*m_counts)[low_i], (*m_counts)[high_i]);
-    median          = edges.first + bin_width * (high_sum - low_sum) / (2.0 * max_counts);
+  if (high_i < m_clip_left) {
+    median = m_binning.getBin(low_i);
+  } else if (low_sum > high_sum) {
+    auto edges = m_binning.getBinEdges(high_i);
+    median     = edges.second - (edges.second - edges.first) * (low_sum - high_sum) / (2.0 * (*m_counts)[high_i]);
   } else {
-    median = m_binning.getBin(0);
+    auto edges = m_binning.getBinEdges(low_i);
+    median     = edges.first;
+    if (high_sum > low_sum)
+      median += (edges.second - edges.first) * (high_sum - low_sum) / (2.0 * (*m_counts)[low_i]);
   }
 
   return std::make_tuple(mean, median, sigma);
-- 
2.43.0


From 4b28faf3560066377dd73fec6b840a54ce92ae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:39 +0000
Subject: [PATCH 72/80] fix: a histogram loses a value just below the end of
 its range

---
 Histogram/Histogram/Binning/Scott.h | 6 +++++-
 Histogram/Histogram/Binning/Sqrt.h  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/Histogram/Histogram/Binning/Scott.h b/Histogram/Histogram/Binning/Scott.h
index e3b53d8..e5cb471 100644
--- a/Histogram/Histogram/Binning/Scott.h
+++ b/Histogram/Histogram/Binning/Scott.h
@@ -85,7 +85,11 @@ public:
   ssize_t getBinIndex(VarType value) const final {
     if (value == m_end)
       return m_nbins - 1;
-    return (value - m_start) / m_step;
+    ssize_t bin = (value - m_start) / m_step;
+    // The division may round up to the next integer just before the end of the range
+    if (value < m_end && bin >= static_cast<ssize_t>(m_nbins))
+      bin = m_nbins - 1;
+    return bin;
   }
 
   std::pair<VarType, VarType> getBinEdges(size_t i) const final {
diff --git a/Histogram/Histogram/Binning/Sqrt.h b/Histogram/Histogram/Binning/Sqrt.h
index f707e96..f8c0be9 100644
--- a/Histogram/Histogram/Binning/Sqrt.h
+++ b/Histogram/Histogram/Binning/Sqrt.h
@@ -54,7 +54,11 @@ public:
   ssize_t getBinIndex(VarType value) const final {
     if (value == m_end)
       return m_nbins - 1;
-    return (value - m_start) / m_step;
+    ssize_t bin = (value - m_start) / m_step;
+    // The division may round up to the next integer just before the end of the range
+    if (value < m_end && bin >= static_cast<ssize_t>(m_nbins))
+      bin = m_nbins - 1;
+    return bin;
   }
 
   std::pair<VarType, VarType> getBinEdges(size_t i) const final {
-- 
2.43.0


From 25311c21ae2d140377a14ea00212c35e1ebddaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:00 +0000
Subject: [PATCH 73/80] fix: the modes of a density leave out its first and
 last samples, and with two samples read past the end

---
 MathUtils/src/lib/PDF/PdfModeExtraction.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/MathUtils/src/lib/PDF/PdfModeExtraction.cpp b/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
index 81689d8..9959b7d 100644
--- a/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
+++ b/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
@@ -71,7 +71,11 @@ std::pair<size_t, size_t> catchPeak(const std::vector<double>& pdf, size_t cente
 
   for (size_t index = 0; index <= center_index; ++index) {
     size_t position = center_index - index;
-    if (position == 0 || pdf[position] == 0) {
+    if (pdf[position] == 0) {
+      break;
+    }
+    if (position == 0) {
+      min_x = 0;
       break;
     }
     if ((pdf[position] < threshold && pdf[position - 1] >= pdf[position])) {
@@ -82,7 +86,11 @@ std::pair<size_t, size_t> catchPeak(const std::vector<double>& pdf, size_t cente
   }
 
   for (size_t position = center_index; position <= pdf.size(); ++position) {
-    if (position == pdf.size() - 1 || pdf[position] == 0) {
+    if (pdf[position] == 0) {
+      break;
+    }
+    if (position == pdf.size() - 1) {
+      max_x = position;
       break;
     }
     if ((pdf[position] < threshold && pdf[position + 1] >= pdf[position])) {
@@ -127,6 +135,10 @@ double getInterpolationAround(const std::pair<std::vector<double>, std::vector<d
   if (x_index >= pdf.first.size()) {
     throw Elements::Exception("getInterpolationAround: x_index out of range.");
   }
+  // a parabola needs three points
+  if (pdf.first.size() < 3) {
+    return pdf.first[x_index];
+  }
 
   // ensure we are not on the border
   if (x_index == 0) {
-- 
2.43.0


From 5a8d354bb25c957ac7494a5eb0b4ed1d4764e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:00 +0000
Subject: [PATCH 74/80] fix: a histogram of equal values may have no bins

---
 Histogram/Histogram/Binning/Scott.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Histogram/Histogram/Binning/Scott.h b/Histogram/Histogram/Binning/Scott.h
index e5cb471..b001cd0 100644
--- a/Histogram/Histogram/Binning/Scott.h
+++ b/Histogram/Histogram/Binning/Scott.h
@@ -67,7 +67,8 @@ public:
     VarType vmin  = min(acc);
     VarType vmax  = max(acc);
 
-    if (sigma == 0) {
+    // For equal values, sigma may differ from 0 by rounding
+    if (sigma == 0 || vmin == vmax) {
       vmax += 0.5;
       vmin -= 0.5;
       h = 1;
@@ -75,7 +76,7 @@ public:
 
     VarType range = vmax - vmin;
 
-    m_nbins = std::ceil(range / h);
+    m_nbins = std::max<size_t>(1, std::ceil(range / h));
 
     m_step  = range / m_nbins;
     m_start = vmin;
-- 
2.43.0


From 9207b20105423c9ea07c87d7c6b919f0477c6d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:00 +0000
Subject: [PATCH 75/80] fix: more modes than asked for are returned

---
 MathUtils/src/lib/PDF/PdfModeExtraction.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MathUtils/src/lib/PDF/PdfModeExtraction.cpp b/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
index 9959b7d..c72d69e 100644
--- a/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
+++ b/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
@@ -213,7 +213,7 @@ std::vector<ModeInfo> extractNBigestModes(std::vector<double>& x_sampling, std::
 
   std::vector<ModeInfo> result{};
 
-  bool   out  = false;
+  bool   out  = n == 0;
   size_t loop = 0;
   while (!out) {
 
@@ -234,6 +234,9 @@ std::vector<ModeInfo> extractNBigestModes(std::vector<double>& x_sampling, std::
 
     if (iter_mode != result.end()) {
       result.insert(iter_mode, new_mode);
+      if (result.size() > n) {
+        result.pop_back();
+      }
     } else if (result.size() < n) {
       result.push_back(new_mode);
     }
-- 
2.43.0


From c0da818ccf63ab4ba3c01bbd1d95f8087b7b0e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:07 +0000
Subject: [PATCH 76/80] fix: a value below the range of a histogram is taken as
 one of its first bin

---
 Histogram/Histogram/Binning/Scott.h | 3 +++
 Histogram/Histogram/Binning/Sqrt.h  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/Histogram/Histogram/Binning/Scott.h b/Histogram/Histogram/Binning/Scott.h
index b001cd0..6963162 100644
--- a/Histogram/Histogram/Binning/Scott.h
+++ b/Histogram/Histogram/Binning/Scott.h
@@ -86,6 +86,9 @@ public:
   ssize_t getBinIndex(VarType value) const final {
     if (value == m_end)
       return m_nbins - 1;
+    // The conversion to integer rounds towards 0
+    if (value < m_start)
+      return -1;
     ssize_t bin = (value - m_start) / m_step;
     // The division may round up to the next integer just before the end of the range
     if (value < m_end && bin >= static_cast<ssize_t>(m_nbins))
diff --git a/Histogram/Histogram/Binning/Sqrt.h b/Histogram/Histogram/Binning/Sqrt.h
index f8c0be9..3d6ca07 100644
--- a/Histogram/Histogram/Binning/Sqrt.h
+++ b/Histogram/Histogram/Binning/Sqrt.h
@@ -54,6 +54,9 @@ public:
   ssize_t getBinIndex(VarType value) const final {
     if (value == m_end)
       return m_nbins - 1;
+    // The conversion to integer rounds towards 0
+    if (value < m_start)
+      return -1;
     ssize_t bin = (value - m_start) / m_step;
     // The division may round up to the next integer just before the end of the range
     if (value < m_end && bin >= static_cast<ssize_t>(m_nbins))
-- 
2.43.0


From e4347993b79ee317be2f093db2c2237af6229ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:28 +0000
Subject: [PATCH 77/80] fix: a string too large for a 64 bit integer is read as
 the largest one

---
 Table/Table/CastVisitor.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Table/Table/CastVisitor.h b/Table/Table/CastVisitor.h
index a3eba6d..fdc59f0 100644
--- a/Table/Table/CastVisitor.h
+++ b/Table/Table/CastVisitor.h
@@ -28,7 +28,9 @@
 #include "ElementsKernel/Exception.h"
 #include <boost/tokenizer.hpp>
 #include <boost/variant/static_visitor.hpp>
+#include <cerrno>
 #include <cmath>
+#include <cstdlib>
 #include <sstream>
 #include <type_traits>
 #include <typeinfo>
@@ -150,10 +152,14 @@ public:
 
   int64_t operator()(const std::string& from) const {
     char*   endptr = nullptr;
+    errno          = 0;
     int64_t value  = std::strtoll(from.c_str(), &endptr, 10);
     if (endptr == from.c_str()) {
       throw Elements::Exception() << "CastVisitor cannot convert the string '" << from << "' to " << typeid(int64_t).name();
     }
+    if (errno == ERANGE) {
+      throw Elements::Exception() << "CastVisitor overflows converting the string '" << from << "' to " << typeid(int64_t).name();
+    }
     return value;
   }
 };
-- 
2.43.0


From 99054278da9bb10a601de718e1dc0746ee43da01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:15 +0000
Subject: [PATCH 78/80] fix: the last axis of a grid to interpolate was not
 checked to be sorted

---
 MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp b/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
index e822fc4..6fdc042 100644
--- a/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
+++ b/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
@@ -103,6 +103,7 @@ public:
       throw InterpolationException() << "The size of the grid and the size of the values do not match: " << m_knots.size()
                                      << " != " << m_values.size();
     }
+    InterpolationImpl<T>::checkOrder(m_knots);
   }
 
   /**
-- 
2.43.0


From f4265796c31455292c346fba80ce369d8ffbfc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:15 +0000
Subject: [PATCH 79/80] fix: interpolating on an axis without knots read past
 its end

---
 MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp b/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
index 6fdc042..f8944d1 100644
--- a/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
+++ b/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
@@ -24,6 +24,9 @@ struct InterpolationImpl<T, typename std::enable_if<std::is_floating_point<T>::v
   static double interpolate(const T x, const std::vector<T>& knots,
                             const std::vector<std::unique_ptr<InterpN<Rest...>>>& interpolators, bool extrapolate,
                             const Rest... rest) {
+    if (knots.empty()) {
+      throw InterpolationException() << "Can not interpolate an empty list of values";
+    }
     // If no extrapolation, and the value if out-of-bounds, just clip at 0
     if ((x < knots.front() || x > knots.back()) && !extrapolate) {
       return 0.;
-- 
2.43.0


From ab51860b546783b13ff9314912eadebf7bf7a874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:20 +0000
Subject: [PATCH 80/80] fix: names of attributes of NPY arrays were taken for
 keys or cut at brackets, and fields skipped

---
 NdArray/NdArray/io/_impl/NpyCommon.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 60583c1..6f8891e 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -122,13 +122,13 @@ inline void parseSingleValue(const std::string& descr, bool& big_endian, std::st
  *  npy file
  */
 inline void parseFieldValues(const std::string& descr, bool& big_endian, std::vector<std::string>& attrs, std::string& dtype) {
-  static const boost::regex field_expr("\\('([^']*)',\\s*'([^']*)'\\)");
+  static const boost::regex field_expr("[\\s,]*\\('([^']*)',\\s*'([^']*)'\\)");
 
   boost::match_results<std::string::const_iterator> match;
   auto                                              start = descr.begin();
   auto                                              end   = descr.end();
 
-  while (boost::regex_search(start, end, match, field_expr)) {
+  while (boost::regex_search(start, end, match, field_expr, boost::regex_constants::match_continuous)) {
     bool        endian_aux;
     std::string dtype_aux;
 
@@ -143,6 +143,9 @@ inline void parseFieldValues(const std::string& descr, bool& big_endian, std::ve
 
     start = match[0].second;
   }
+  // Fields that are not understood must not be skipped, as they are part of the data
+  if (std::string(start, end).find_first_not_of(" ,") != std::string::npos)
+    throw Elements::Exception() << "Failed to parse the attributes of the array: " << descr;
 }
 
 /**
@@ -164,9 +167,9 @@ inline void parseFieldValues(const std::string& descr, bool& big_endian, std::ve
  */
 inline void parseNpyDict(const std::string& header, bool& fortran_order, bool& big_endian, std::string& dtype,
                          std::vector<size_t>& shape, std::vector<std::string>& attrs, size_t& n_elements) {
-  // Position of the value that follows a key
+  // Position of the value that follows a key, which could be the name of an attribute too
   auto find_value = [&header](const std::string& key, size_t skip) {
-    auto pos = header.find(key);
+    auto pos = header.find(key + "':");
     if (pos == std::string::npos || pos + skip >= header.size())
       throw Elements::Exception() << "Failed to find " << key << " in the array description: " << header;
     return pos + skip;
@@ -181,7 +184,13 @@ inline void parseNpyDict(const std::string& header, bool& fortran_order, bool& b
     auto end = header.find('\'', loc + 1);
     parseSingleValue(header.substr(loc + 1, end - loc - 1), big_endian, dtype);
   } else if (header[loc] == '[') {
-    auto end = header.find(']', loc + 1);
+    // The names of the attributes may contain brackets
+    auto end    = loc + 1;
+    bool quoted = false;
+    for (; end < header.size() && (quoted || header[end] != ']'); ++end) {
+      if (header[end] == '\'')
+        quoted = !quoted;
+    }
     parseFieldValues(header.substr(loc + 1, end - loc - 1), big_endian, attrs, dtype);
   } else {
     throw Elements::Exception() << "Failed to parse the array description: " << header;
@@ -291,6 +300,8 @@ inline std::string typeDescription(const std::string& type, const std::vector<st
   } else {
     dtype << '[';
     for (auto& attr : attrs) {
+      if (attr.find_first_of("'\\\n") != std::string::npos)
+        throw std::invalid_argument("Attribute name not supported by the NPY format: " + attr);
       dtype << "('" << attr << "', '" << ENDIAN_MARKER << type << "'), ";
     }
     dtype << ']';
-- 
2.43.0

