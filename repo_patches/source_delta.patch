From fee3d8c0c1286614439ae91467261dbe0070f383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 01/35] fix: parallel_do does not move from its argument
 repeatedly

---
 SeQuant/core/runtime.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/runtime.hpp b/SeQuant/core/runtime.hpp
index f3d62e1..d7ae6d0 100644
--- a/SeQuant/core/runtime.hpp
+++ b/SeQuant/core/runtime.hpp
@@ -65,9 +65,11 @@ void parallel_do(Lambda&& lambda) {
   const auto nthreads = num_threads();
   for (int thread_id = 0; thread_id != nthreads; ++thread_id) {
     if (thread_id != nthreads - 1)
-      threads.push_back(std::thread(std::forward<Lambda>(lambda), thread_id));
+      // each thread gets its own copy, N.B. forwarding an rvalue here would move
+      // from lambda more than once
+      threads.push_back(std::thread(lambda, thread_id));
     else
-      std::forward<Lambda>(lambda)(thread_id);
+      lambda(thread_id);
   }  // threads_id
   for (int thread_id = 0; thread_id < nthreads - 1; ++thread_id)
     threads[thread_id].join();
-- 
2.43.0


From e429efb8a9de2f8b1bbe886ce0c5907b2ef6dc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 02/35] fix: exceptions in parallel work reach the caller
 instead of terminating

---
 SeQuant/core/runtime.hpp | 76 +++++++++++++++++++++++++++++++---------
 1 file changed, 60 insertions(+), 16 deletions(-)

diff --git a/SeQuant/core/runtime.hpp b/SeQuant/core/runtime.hpp
index d7ae6d0..cb52b68 100644
--- a/SeQuant/core/runtime.hpp
+++ b/SeQuant/core/runtime.hpp
@@ -6,7 +6,9 @@
 #define SEQUANT_RUNTIME_HPP
 
 #include <cstdlib>
+#include <exception>
 #include <memory>
+#include <mutex>
 #include <thread>
 #include <utility>
 #include <vector>
@@ -19,7 +21,6 @@
 #include <execution>
 #else
 #include <atomic>
-#include <mutex>
 #endif
 
 namespace sequant {
@@ -37,6 +38,50 @@ inline int& nthreads_accessor() {
   static int nthreads = init_nthreads();
   return nthreads;
 }
+
+/// A group of threads that are always joined, and whose failures are reported
+/// to the thread that waits for them
+class ThreadGroup {
+ public:
+  ThreadGroup() = default;
+  ThreadGroup(const ThreadGroup&) = delete;
+  ThreadGroup& operator=(const ThreadGroup&) = delete;
+  ~ThreadGroup() { join(); }
+
+  /// runs `task()` in a new thread
+  template <typename Task>
+  void spawn(Task task) {
+    threads_.emplace_back(
+        [this, task = std::move(task)]() mutable { run(task); });
+  }
+
+  /// runs `task()` in this thread
+  template <typename Task>
+  void run(Task&& task) noexcept {
+    try {
+      task();
+    } catch (...) {
+      std::scoped_lock<std::mutex> lock(mtx_);
+      if (!exception_) exception_ = std::current_exception();
+    }
+  }
+
+  /// waits for all threads, then rethrows the first exception thrown by a task
+  void wait() {
+    join();
+    if (exception_) std::rethrow_exception(exception_);
+  }
+
+ private:
+  std::vector<std::thread> threads_;
+  std::mutex mtx_;
+  std::exception_ptr exception_;
+
+  void join() {
+    for (auto& thread : threads_) thread.join();
+    threads_.clear();
+  }
+};
 }  // namespace detail
 
 /// sets the number of threads to use for concurrent work
@@ -58,21 +103,22 @@ inline int num_threads() { return detail::nthreads_accessor(); }
 /// @param lambda the function object to execute, each will be invoked as @c
 /// lambda(thread_id) where @c thread_id is an integer in
 ///        @c [0,nthreads) .
+/// @throw the first exception thrown by any of the instances, after all of them
+/// have finished
 /// @sa get_num_threads()
 template <typename Lambda>
 void parallel_do(Lambda&& lambda) {
-  std::vector<std::thread> threads;
+  detail::ThreadGroup threads;
   const auto nthreads = num_threads();
   for (int thread_id = 0; thread_id != nthreads; ++thread_id) {
     if (thread_id != nthreads - 1)
       // each thread gets its own copy, N.B. forwarding an rvalue here would move
       // from lambda more than once
-      threads.push_back(std::thread(lambda, thread_id));
+      threads.spawn([lambda, thread_id]() mutable { lambda(thread_id); });
     else
-      lambda(thread_id);
+      threads.run([&]() { lambda(thread_id); });
   }  // threads_id
-  for (int thread_id = 0; thread_id < nthreads - 1; ++thread_id)
-    threads[thread_id].join();
+  threads.wait();
 }
 
 /// Parallel version of std::for_each , using either parallel C++ algorithms
@@ -109,15 +155,14 @@ void for_each(SizedRange& rng, const UnaryOp& op) {
   };
 
   const auto nthreads = num_threads();
-  std::vector<std::thread> threads;
+  detail::ThreadGroup threads;
   for (int thread_id = 0; thread_id != nthreads; ++thread_id) {
     if (thread_id != nthreads - 1)
-      threads.push_back(std::thread(task));
+      threads.spawn(task);
     else
-      task();
+      threads.run(task);
   }  // threads_id
-  for (int thread_id = 0; thread_id < nthreads - 1; ++thread_id)
-    threads[thread_id].join();
+  threads.wait();
 #endif
 }
 
@@ -163,15 +208,14 @@ T transform_reduce(SizedRange&& rng, T init, const BinaryReductionOp& reduce,
   };
 
   const auto nthreads = num_threads();
-  std::vector<std::thread> threads;
+  detail::ThreadGroup threads;
   for (int thread_id = 0; thread_id != nthreads; ++thread_id) {
     if (thread_id != nthreads - 1)
-      threads.push_back(std::thread(task));
+      threads.spawn(task);
     else
-      task();
+      threads.run(task);
   }  // threads_id
-  for (int thread_id = 0; thread_id < nthreads - 1; ++thread_id)
-    threads[thread_id].join();
+  threads.wait();
 
   return result;
 #endif
-- 
2.43.0


From 7862d96f3ce071f0f83d33cd8f44f67cec555b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 03/35] fix: references returned by memoize() survive insertion
 of other keys

---
 SeQuant/core/utility/memoize.hpp            | 11 ++++++-----
 SeQuant/domain/mbpt/biorthogonalization.cpp |  4 ++--
 SeQuant/domain/mbpt/biorthogonalization.hpp |  3 ++-
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/SeQuant/core/utility/memoize.hpp b/SeQuant/core/utility/memoize.hpp
index 38a80d0..b5261ab 100644
--- a/SeQuant/core/utility/memoize.hpp
+++ b/SeQuant/core/utility/memoize.hpp
@@ -1,11 +1,11 @@
 #ifndef SEQUANT_CORE_UTILITY_MEMOIZE_HPP
 #define SEQUANT_CORE_UTILITY_MEMOIZE_HPP
 
-#include <SeQuant/core/container.hpp>
-
 #include <condition_variable>
+#include <map>
 #include <mutex>
 #include <optional>
+#include <tuple>
 #include <utility>
 
 namespace sequant::detail {
@@ -16,19 +16,20 @@ namespace sequant::detail {
 /// @tparam Key The cache key type
 /// @tparam Value The cached value type
 /// @tparam ComputeFn Callable returning Value
-/// @param cache The cache map (must use std::optional<Value> as values)
+/// @param cache The cache map (must use std::optional<Value> as values); its
+///   elements must not move on insertion since references to them are returned
 /// @param mutex The mutex protecting the cache
 /// @param cv The condition variable for waiting
 /// @param key The key to look up/store
 /// @param compute_fn A callable that computes the value if not cached
 /// @return Reference to the cached value
 template <typename Key, typename Value, typename ComputeFn>
-const Value& memoize(container::map<Key, std::optional<Value>>& cache,
+const Value& memoize(std::map<Key, std::optional<Value>>& cache,
                      std::mutex& mutex, std::condition_variable& cv,
                      const Key& key, ComputeFn&& compute_fn) {
   {
     std::unique_lock<std::mutex> lock(mutex);
-    using cache_t = container::map<Key, std::optional<Value>>;
+    using cache_t = std::map<Key, std::optional<Value>>;
     typename cache_t::iterator it;
     bool inserted;
     // N.B. Use std::tie instead of structured binding to allow lambda capture
diff --git a/SeQuant/domain/mbpt/biorthogonalization.cpp b/SeQuant/domain/mbpt/biorthogonalization.cpp
index e68850e..ddc60bc 100644
--- a/SeQuant/domain/mbpt/biorthogonalization.cpp
+++ b/SeQuant/domain/mbpt/biorthogonalization.cpp
@@ -488,9 +488,9 @@ void biorthogonal_transform(container::svector<ResultExpr>& result_exprs,
 
   static std::mutex cache_mutex;
   static std::condition_variable cache_cv;
-  static container::map<CacheKey, std::optional<HardcodedMatrix>>
+  static std::map<CacheKey, std::optional<HardcodedMatrix>>
       hardcoded_cache;
-  static container::map<CacheKey, std::optional<ComputedMatrix>> computed_cache;
+  static std::map<CacheKey, std::optional<ComputedMatrix>> computed_cache;
 
   constexpr std::size_t max_rank_hardcoded_biorthogonalizer_matrix = 5;
   CacheKey key{n_particles, threshold};
diff --git a/SeQuant/domain/mbpt/biorthogonalization.hpp b/SeQuant/domain/mbpt/biorthogonalization.hpp
index c5d0c5f..57cd192 100644
--- a/SeQuant/domain/mbpt/biorthogonalization.hpp
+++ b/SeQuant/domain/mbpt/biorthogonalization.hpp
@@ -26,6 +26,7 @@
 #include <concepts>
 #include <condition_variable>
 #include <cstddef>
+#include <map>
 #include <mutex>
 #include <optional>
 #include <vector>
@@ -231,7 +232,7 @@ template <typename T>
 
   static std::mutex cache_mutex;
   static std::condition_variable cache_cv;
-  static container::map<CacheKey, std::optional<std::vector<T>>> cache;
+  static std::map<CacheKey, std::optional<std::vector<T>>> cache;
 
   CacheKey key{n_particles, pseudoinverse_threshold};
 
-- 
2.43.0


From 79452d6f5f2e8fa55ed7dcff83203fe70ea8ba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 04/35] fix: memoize() recovers from a failed computation

---
 SeQuant/core/utility/memoize.hpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/SeQuant/core/utility/memoize.hpp b/SeQuant/core/utility/memoize.hpp
index b5261ab..cdaba60 100644
--- a/SeQuant/core/utility/memoize.hpp
+++ b/SeQuant/core/utility/memoize.hpp
@@ -23,6 +23,7 @@ namespace sequant::detail {
 /// @param key The key to look up/store
 /// @param compute_fn A callable that computes the value if not cached
 /// @return Reference to the cached value
+/// @throw whatever @p compute_fn throws; nothing is cached in that case
 template <typename Key, typename Value, typename ComputeFn>
 const Value& memoize(std::map<Key, std::optional<Value>>& cache,
                      std::mutex& mutex, std::condition_variable& cv,
@@ -32,16 +33,27 @@ const Value& memoize(std::map<Key, std::optional<Value>>& cache,
     using cache_t = std::map<Key, std::optional<Value>>;
     typename cache_t::iterator it;
     bool inserted;
-    // N.B. Use std::tie instead of structured binding to allow lambda capture
-    // (C++17 does not support capturing structured bindings in lambdas)
-    std::tie(it, inserted) = cache.try_emplace(key, std::nullopt);
-    if (!inserted) {
-      cv.wait(lock, [&it] { return it->second.has_value(); });
-      return it->second.value();
+    // N.B. if the thread that was computing the value failed its placeholder is
+    // gone, hence have to try again
+    while (std::tie(it, inserted) = cache.try_emplace(key, std::nullopt),
+           !inserted) {
+      if (it->second.has_value()) return it->second.value();
+      cv.wait(lock);
     }
   }
 
-  Value result = compute_fn();
+  // N.B. if computing fails must let others try
+  auto compute = [&]() -> Value {
+    try {
+      return compute_fn();
+    } catch (...) {
+      std::lock_guard<std::mutex> lock(mutex);
+      cache.erase(key);
+      cv.notify_all();
+      throw;
+    }
+  };
+  Value result = compute();
 
   {
     std::lock_guard<std::mutex> lock(mutex);
-- 
2.43.0


From b18a11ef2e0b8373a3133e96a824da199f143ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 05/35] fix: Singleton::instance_ptr() of default-constructible
 types compiles

---
 SeQuant/core/utility/singleton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/utility/singleton.hpp b/SeQuant/core/utility/singleton.hpp
index 306641e..0c3929a 100644
--- a/SeQuant/core/utility/singleton.hpp
+++ b/SeQuant/core/utility/singleton.hpp
@@ -74,7 +74,7 @@ class Singleton {
     const auto& result_ptr = instance_accessor();
     if (result_ptr != nullptr) return result_ptr.get();
     if constexpr (derived_is_default_constructible) {
-      return set_default_instance();
+      return &set_default_instance();
     } else
       return nullptr;
   }
-- 
2.43.0


From 9c88f7fdb8e5810a77f603d2addb18d04385a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 06/35] fix: Singleton::instance() does not race with the
 construction of the instance

---
 SeQuant/core/utility/singleton.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/utility/singleton.hpp b/SeQuant/core/utility/singleton.hpp
index 0c3929a..7d44dd1 100644
--- a/SeQuant/core/utility/singleton.hpp
+++ b/SeQuant/core/utility/singleton.hpp
@@ -6,6 +6,7 @@
 #define SEQUANT_CORE_UTILITY_SINGLETON_HPP
 
 #include <SeQuant/core/utility/exception.hpp>
+#include <atomic>
 #include <cassert>
 #include <memory>
 #include <mutex>
@@ -56,7 +57,7 @@ class Singleton {
   /// Derived is not default-constructible and set_instance() had not been
   /// called)
   static Derived& instance() {
-    const auto& result_ptr = instance_accessor();
+    auto* result_ptr = published_instance().load(std::memory_order_acquire);
     if (result_ptr != nullptr) return *result_ptr;
     if constexpr (derived_is_default_constructible) {
       return set_default_instance();
@@ -71,8 +72,8 @@ class Singleton {
   /// @return pointer to the instance, or nullptr if it has not yet been
   /// constructed
   static Derived* instance_ptr() {
-    const auto& result_ptr = instance_accessor();
-    if (result_ptr != nullptr) return result_ptr.get();
+    auto* result_ptr = published_instance().load(std::memory_order_acquire);
+    if (result_ptr != nullptr) return result_ptr;
     if constexpr (derived_is_default_constructible) {
       return &set_default_instance();
     } else
@@ -98,6 +99,8 @@ class Singleton {
           "constructed");
     instance_accessor() = std::move(
         std::unique_ptr<Derived>(new Derived(std::forward<Args>(args)...)));
+    published_instance().store(instance_accessor().get(),
+                               std::memory_order_release);
     return *instance_accessor();
   }
 
@@ -114,6 +117,11 @@ class Singleton {
     static std::mutex mtx;
     return mtx;
   }
+  // mirrors instance_accessor(), can be read without locking instance_mutex()
+  static auto& published_instance() {
+    static std::atomic<Derived*> instance = nullptr;
+    return instance;
+  }
 
  private:
   /// Constructs a default-constructed instance. If called from multiple threads
@@ -122,6 +130,8 @@ class Singleton {
     std::scoped_lock lock(instance_mutex());
     if (!instance_accessor()) {
       instance_accessor() = std::move(std::unique_ptr<Derived>(new Derived));
+      published_instance().store(instance_accessor().get(),
+                                 std::memory_order_release);
     }
     return *instance_accessor();
   }
-- 
2.43.0


From 33a8a4d375577a984e7d4fa960d02a101e84dfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 07/35] fix: concurrent use of a const IndexSpaceRegistry does
 not race on its memoized data

---
 SeQuant/core/index_space_registry.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index a55593e..6d7e4d7 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -826,17 +826,15 @@ class IndexSpaceRegistry {
   /// @return (memoized) set of base IndexSpace::Type objects, sorted in
   /// increasing order
   const std::vector<IndexSpace::Type>& base_space_types() const {
+    std::scoped_lock guard{mtx_memoized_};
     if (!base_space_types_) {
       auto types = *spaces_ | ranges::views::transform([](const auto& s) {
         return s.type();
       }) | ranges::views::filter([](const auto& t) { return is_base(t); }) |
                    ranges::views::unique | ranges::to_vector;
       ranges::sort(types, [](auto t1, auto t2) { return t1 < t2; });
-      std::scoped_lock guard{mtx_memoized_};
-      if (!base_space_types_) {
-        base_space_types_ =
-            std::make_shared<std::vector<IndexSpace::Type>>(std::move(types));
-      }
+      base_space_types_ =
+          std::make_shared<std::vector<IndexSpace::Type>>(std::move(types));
     }
     return *base_space_types_;
   }
@@ -848,6 +846,7 @@ class IndexSpaceRegistry {
   /// @return (memoized) set of base IndexSpace objects, sorted in the order of
   /// increasing type()
   const std::vector<IndexSpace>& base_spaces() const {
+    std::scoped_lock guard{mtx_memoized_};
     if (!base_spaces_) {
       auto spaces = *spaces_ | ranges::views::filter([this](const auto& s) {
         return this->is_base(s);
@@ -855,11 +854,8 @@ class IndexSpaceRegistry {
                     ranges::to_vector;
       ranges::sort(spaces,
                    [](auto s1, auto s2) { return s1.type() < s2.type(); });
-      std::scoped_lock guard{mtx_memoized_};
-      if (!base_spaces_) {
-        base_spaces_ =
-            std::make_shared<std::vector<IndexSpace>>(std::move(spaces));
-      }
+      base_spaces_ =
+          std::make_shared<std::vector<IndexSpace>>(std::move(spaces));
     }
     return *base_spaces_;
   }
-- 
2.43.0


From 00ef452c536279626a4346e60c6c8320ab2ace3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 08/35] fix: IndexSpaceRegistry::base_space_types() does not
 contain duplicates

---
 SeQuant/core/index_space_registry.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 6d7e4d7..b0a32ae 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -21,6 +21,7 @@
 #include <boost/hana.hpp>
 #include <boost/hana/ext/std/integral_constant.hpp>
 
+#include <algorithm>
 #include <mutex>
 #include <ranges>
 
@@ -831,8 +832,10 @@ class IndexSpaceRegistry {
       auto types = *spaces_ | ranges::views::transform([](const auto& s) {
         return s.type();
       }) | ranges::views::filter([](const auto& t) { return is_base(t); }) |
-                   ranges::views::unique | ranges::to_vector;
+                   ranges::to_vector;
       ranges::sort(types, [](auto t1, auto t2) { return t1 < t2; });
+      // spaces that differ in quantum numbers only share the type
+      types.erase(std::unique(types.begin(), types.end()), types.end());
       base_space_types_ =
           std::make_shared<std::vector<IndexSpace::Type>>(std::move(types));
     }
-- 
2.43.0


From d3b6cad772318fe3c1e148b505b843ead54fa9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 09/35] fix: IndexSpaceRegistry accepts the maps of quantum
 numbers to types that its setters document

---
 SeQuant/core/index_space_registry.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index b0a32ae..3be675e 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -1427,8 +1427,9 @@ class IndexSpaceRegistry {
     for (auto&& space : *spaces_) {
       for (auto&& [qn, t] : qn2type) {
         if (space.type() == t && space.qns() == qn) {
-          [[maybe_unused]] auto [it, found] = qn2type_found.try_emplace(qn, t);
-          SEQUANT_ASSERT(!found);
+          [[maybe_unused]] auto [it, inserted] =
+              qn2type_found.try_emplace(qn, t);
+          SEQUANT_ASSERT(inserted);
           // found all? return
           if (qn2type_found.size() == qn2type.size()) {
             return;
-- 
2.43.0


From 8a2786e5da174c30a7336d413a3785058be4b92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 10/35] fix: IndexSpaceRegistry::base_spaces() follows
 assignment, mask changes and changes made via registries that share the
 spaces

---
 SeQuant/core/index_space_registry.hpp | 28 +++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 3be675e..15deb4d 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -828,7 +828,7 @@ class IndexSpaceRegistry {
   /// increasing order
   const std::vector<IndexSpace::Type>& base_space_types() const {
     std::scoped_lock guard{mtx_memoized_};
-    if (!base_space_types_) {
+    if (!memoized_data_is_valid() || !base_space_types_) {
       auto types = *spaces_ | ranges::views::transform([](const auto& s) {
         return s.type();
       }) | ranges::views::filter([](const auto& t) { return is_base(t); }) |
@@ -850,7 +850,7 @@ class IndexSpaceRegistry {
   /// increasing type()
   const std::vector<IndexSpace>& base_spaces() const {
     std::scoped_lock guard{mtx_memoized_};
-    if (!base_spaces_) {
+    if (!memoized_data_is_valid() || !base_spaces_) {
       auto spaces = *spaces_ | ranges::views::filter([this](const auto& s) {
         return this->is_base(s);
       }) | ranges::views::unique |
@@ -1372,6 +1372,30 @@ class IndexSpaceRegistry {
   mutable std::shared_ptr<std::vector<IndexSpace>> base_spaces_;
   mutable std::recursive_mutex
       mtx_memoized_;  // used to update the memoized data
+  // what the memoized data was computed from. N.B. memoized data may be out of
+  // date even if this object was not modified: spaces_ may be shared with, and
+  // modified by, other registries
+  mutable std::vector<IndexSpace> memoized_spaces_;
+  mutable bitset_t memoized_mask_ = bitset::null;
+
+  /// drops memoized data if it does not correspond to the current state of this
+  /// @pre mtx_memoized_ is locked
+  /// @return true if the memoized data was valid
+  bool memoized_data_is_valid() const {
+    auto identical = [](const IndexSpace& s1, const IndexSpace& s2) {
+      return s1 == s2 && s1.approximate_size() == s2.approximate_size() &&
+             s1.field() == s2.field();
+    };
+    if (memoized_mask_ == physical_particle_attribute_mask_ &&
+        std::ranges::equal(memoized_spaces_, *spaces_, identical))
+      return true;
+    base_space_types_.reset();
+    base_spaces_.reset();
+    memoized_spaces_.assign(spaces_->begin(), spaces_->end());
+    memoized_mask_ = physical_particle_attribute_mask_;
+    return false;
+  }
+
   IndexSpaceRegistry& clear_memoized_data_and_return_this() {
     std::scoped_lock guard{mtx_memoized_};
     base_space_types_.reset();
-- 
2.43.0


From f861b8cac9c477cc3709fc2f8ef79518dcd8171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 11/35] fix: IndexSpaceRegistry::replace() does not lose the
 space if the replacement is refused

---
 SeQuant/core/index_space_registry.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 15deb4d..e8a6344 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -554,9 +554,22 @@ class IndexSpaceRegistry {
   ///        with @p IS
   /// @param IS an IndexSpace
   /// @return reference to `this`
+  /// @throw Exception if `IS.attr()` matches a registered IndexSpace with
+  /// different base key; `*this` is not modified in that case
   IndexSpaceRegistry& replace(const IndexSpace& IS) {
-    this->remove(IS);
-    return this->add(IS);
+    auto it = spaces_->find(IS.base_key());
+    if (it == spaces_->end()) return this->add(IS);
+    if (ranges::any_of(*spaces_, [&IS](auto&& is) {
+          return IS.attr() == is.attr() && IS.base_key() != is.base_key();
+        })) {
+      throw Exception(
+          std::string("IndexSpaceRegistry::replace(index_space): space with "
+                      "index_space.attr()=") +
+          to_string(IS.attr()) + " already in the registry");
+    }
+    IndexSpace replacement(IS);
+    *it = std::move(replacement);
+    return clear_memoized_data_and_return_this();
   }
 
   /// @brief clear the contents of *this
-- 
2.43.0


From cd01069405741a4c92c54d0da9aae7a8108973ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 12/35] fix: contexts without an index space registry can be
 compared

---
 SeQuant/core/context.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/context.cpp b/SeQuant/core/context.cpp
index c7f63c6..768f84a 100644
--- a/SeQuant/core/context.cpp
+++ b/SeQuant/core/context.cpp
@@ -19,19 +19,23 @@ bool default_context_manipulation_threadsafe() {
 bool operator==(const Context& ctx1, const Context& ctx2) {
   if (&ctx1 == &ctx2)
     return true;
-  else
+  else {
+    const auto isr1 = ctx1.index_space_registry();
+    const auto isr2 = ctx2.index_space_registry();
+    // N.B. context may have no registry
+    if (!isr1 != !isr2) return false;
     return ctx1.vacuum() == ctx2.vacuum() && ctx1.metric() == ctx2.metric() &&
            ctx1.assert_strict_braket_symmetry() ==
                ctx2.assert_strict_braket_symmetry() &&
            ctx1.spbasis() == ctx2.spbasis() &&
            ctx1.first_dummy_index_ordinal() ==
                ctx2.first_dummy_index_ordinal() &&
-           ctx1.index_space_registry()->spaces() ==
-               ctx2.index_space_registry()->spaces() &&
+           (!isr1 || isr1->spaces() == isr2->spaces()) &&
            ctx1.canonicalization_options() == ctx2.canonicalization_options() &&
            ctx1.braket_typesetting() == ctx2.braket_typesetting() &&
            ctx1.braket_slot_typesetting() == ctx2.braket_slot_typesetting() &&
-           *ctx1.index_space_registry() == *ctx2.index_space_registry();
+           (!isr1 || *isr1 == *isr2);
+  }
 }
 
 bool operator!=(const Context& ctx1, const Context& ctx2) {
-- 
2.43.0


From 056375006792df6f210d37bf2845be1d219e45f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 13/35] fix: leaving the scope of a scoped context always
 restores the previous context

---
 SeQuant/core/utility/context.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/SeQuant/core/utility/context.hpp b/SeQuant/core/utility/context.hpp
index 23f2ea4..a8b40d9 100644
--- a/SeQuant/core/utility/context.hpp
+++ b/SeQuant/core/utility/context.hpp
@@ -2,6 +2,7 @@
 #define SEQUANT_CORE_UTILITY_CONTEXT_HPP
 
 #include <optional>
+#include <utility>
 
 /// \name reusable components for manipulation of global contexts
 
@@ -34,10 +35,11 @@ void reset_implicit_context() {
 template <typename Ctx>
 struct ImplicitContextResetter {
   ImplicitContextResetter() = default;
-  ImplicitContextResetter(const Ctx& previous_ctx) noexcept
-      : previous_ctx_(previous_ctx) {}
+  ImplicitContextResetter(Ctx previous_ctx) noexcept
+      : previous_ctx_(std::move(previous_ctx)) {}
   ~ImplicitContextResetter() noexcept {
-    if (previous_ctx_) set_implicit_context<Ctx>(*previous_ctx_);
+    if (previous_ctx_)
+      implicit_context_instance<Ctx>() = std::move(*previous_ctx_);
   }
 
   // ContextResetter is move-only
@@ -50,12 +52,12 @@ struct ImplicitContextResetter {
 
 template <typename Ctx>
 ImplicitContextResetter<Ctx> set_scoped_implicit_context(const Ctx& ctx) {
-  if (get_implicit_context<Ctx>() != ctx) {
-    auto previous_ctx = get_implicit_context<Ctx>();
-    set_implicit_context(ctx);
-    return previous_ctx;
-  } else
-    return {};
+  // N.B. must restore even if ctx compares equal to the current context: the
+  // latter can change before the end of the scope, and contexts that compare
+  // equal can refer to different objects
+  auto previous_ctx = get_implicit_context<Ctx>();
+  set_implicit_context(ctx);
+  return ImplicitContextResetter<Ctx>(std::move(previous_ctx));
 }
 
 }  // namespace sequant::detail
-- 
2.43.0


From 89b84b2dca2d665f76f768c5bc0126afffc0329c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 14/35] fix: scoped changes of the default contexts are
 synchronised like all other changes

---
 SeQuant/core/context.cpp         | 16 ++++++++--------
 SeQuant/core/utility/context.hpp | 23 ++++++++++++++++++-----
 SeQuant/domain/mbpt/context.cpp  | 10 ++++------
 3 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/SeQuant/core/context.cpp b/SeQuant/core/context.cpp
index 768f84a..6b4937b 100644
--- a/SeQuant/core/context.cpp
+++ b/SeQuant/core/context.cpp
@@ -2,9 +2,7 @@
 #include <SeQuant/core/context.hpp>
 #include <SeQuant/core/utility/context.hpp>
 
-#ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
 #include <mutex>
-#endif
 
 namespace sequant {
 
@@ -44,6 +42,9 @@ bool operator!=(const Context& ctx1, const Context& ctx2) {
 
 #ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
 static std::recursive_mutex ctx_mtx;  // used to protect the context
+static std::recursive_mutex* const ctx_mtx_ptr = &ctx_mtx;
+#else
+static std::recursive_mutex* const ctx_mtx_ptr = nullptr;
 #endif
 
 const Context& get_default_context(Statistics s) {
@@ -99,10 +100,7 @@ void reset_default_context() {
 [[nodiscard]] detail::ImplicitContextResetter<
     container::map<Statistics, Context>>
 set_scoped_default_context(const container::map<Statistics, Context>& ctx) {
-#ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
-  std::scoped_lock lock(ctx_mtx);
-#endif
-  return detail::set_scoped_implicit_context(ctx);
+  return detail::set_scoped_implicit_context(ctx, ctx_mtx_ptr);
 }
 
 [[nodiscard]] detail::ImplicitContextResetter<
@@ -110,7 +108,8 @@ set_scoped_default_context(const container::map<Statistics, Context>& ctx) {
 set_scoped_default_context(Context ctx) {
   return detail::set_scoped_implicit_context(
       container::map<Statistics, Context>{
-          {Statistics::Arbitrary, std::move(ctx)}});
+          {Statistics::Arbitrary, std::move(ctx)}},
+      ctx_mtx_ptr);
 }
 
 [[nodiscard]] detail::ImplicitContextResetter<
@@ -118,7 +117,8 @@ set_scoped_default_context(Context ctx) {
 set_scoped_default_context(Context::Options ctx_options) {
   return detail::set_scoped_implicit_context(
       container::map<Statistics, Context>{
-          {Statistics::Arbitrary, Context(std::move(ctx_options))}});
+          {Statistics::Arbitrary, Context(std::move(ctx_options))}},
+      ctx_mtx_ptr);
 }
 
 Context::Context(Options options)
diff --git a/SeQuant/core/utility/context.hpp b/SeQuant/core/utility/context.hpp
index a8b40d9..c117f86 100644
--- a/SeQuant/core/utility/context.hpp
+++ b/SeQuant/core/utility/context.hpp
@@ -1,6 +1,7 @@
 #ifndef SEQUANT_CORE_UTILITY_CONTEXT_HPP
 #define SEQUANT_CORE_UTILITY_CONTEXT_HPP
 
+#include <mutex>
 #include <optional>
 #include <utility>
 
@@ -35,11 +36,17 @@ void reset_implicit_context() {
 template <typename Ctx>
 struct ImplicitContextResetter {
   ImplicitContextResetter() = default;
-  ImplicitContextResetter(Ctx previous_ctx) noexcept
-      : previous_ctx_(std::move(previous_ctx)) {}
+  /// @param previous_ctx the context to restore
+  /// @param mtx the mutex protecting the implicit context, if any
+  ImplicitContextResetter(Ctx previous_ctx,
+                          std::recursive_mutex* mtx = nullptr) noexcept
+      : previous_ctx_(std::move(previous_ctx)), mtx_(mtx) {}
   ~ImplicitContextResetter() noexcept {
-    if (previous_ctx_)
+    if (previous_ctx_) {
+      std::unique_lock<std::recursive_mutex> lock;
+      if (mtx_) lock = std::unique_lock(*mtx_);
       implicit_context_instance<Ctx>() = std::move(*previous_ctx_);
+    }
   }
 
   // ContextResetter is move-only
@@ -48,16 +55,22 @@ struct ImplicitContextResetter {
 
  private:
   std::optional<Ctx> previous_ctx_;
+  std::recursive_mutex* mtx_ = nullptr;
 };
 
+/// @param ctx the new context
+/// @param mtx the mutex protecting the implicit context, if any
 template <typename Ctx>
-ImplicitContextResetter<Ctx> set_scoped_implicit_context(const Ctx& ctx) {
+ImplicitContextResetter<Ctx> set_scoped_implicit_context(
+    const Ctx& ctx, std::recursive_mutex* mtx = nullptr) {
+  std::unique_lock<std::recursive_mutex> lock;
+  if (mtx) lock = std::unique_lock(*mtx);
   // N.B. must restore even if ctx compares equal to the current context: the
   // latter can change before the end of the scope, and contexts that compare
   // equal can refer to different objects
   auto previous_ctx = get_implicit_context<Ctx>();
   set_implicit_context(ctx);
-  return ImplicitContextResetter<Ctx>(std::move(previous_ctx));
+  return ImplicitContextResetter<Ctx>(std::move(previous_ctx), mtx);
 }
 
 }  // namespace sequant::detail
diff --git a/SeQuant/domain/mbpt/context.cpp b/SeQuant/domain/mbpt/context.cpp
index 8f032db..b14b530 100644
--- a/SeQuant/domain/mbpt/context.cpp
+++ b/SeQuant/domain/mbpt/context.cpp
@@ -3,14 +3,15 @@
 
 #include <range/v3/algorithm/contains.hpp>
 
-#ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
 #include <mutex>
-#endif
 
 namespace sequant::mbpt {
 
 #ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
 static std::recursive_mutex mbpt_ctx_mtx;  // used to protect the MBPT context
+static std::recursive_mutex* const mbpt_ctx_mtx_ptr = &mbpt_ctx_mtx;
+#else
+static std::recursive_mutex* const mbpt_ctx_mtx_ptr = nullptr;
 #endif
 
 Context::Context(Options options)
@@ -98,10 +99,7 @@ void reset_default_mbpt_context() {
 
 [[nodiscard]] sequant::detail::ImplicitContextResetter<Context>
 set_scoped_default_mbpt_context(const Context& f) {
-#ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
-  std::scoped_lock lock(mbpt_ctx_mtx);
-#endif
-  return sequant::detail::set_scoped_implicit_context(f);
+  return sequant::detail::set_scoped_implicit_context(f, mbpt_ctx_mtx_ptr);
 }
 
 [[nodiscard]] sequant::detail::ImplicitContextResetter<Context>
-- 
2.43.0


From 6ee40768403be13b522691247ce87822356d2411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 15/35] fix: canonicalizing a product always invalidates its
 memoized hash

Product::canonicalize_impl reset the memoized hash only if all factors are
tensors; canonicalizing a product with a sum or another non-tensor among its
factors left the stale hash behind, so equal terms were not collected
(or an assertion failed).
---
 SeQuant/core/expressions/expr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index a8ce238..a74a9bf 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -239,6 +239,8 @@ ExprPtr Product::canonicalize_impl(CanonicalizeOptions opts) {
       this->scalar_ *= std::static_pointer_cast<Constant>(bp)->value();
     }
   });
+  // factors may have changed, and may be reordered below
+  this->reset_hash_value();
 
   if (Logger::instance().canonicalize) {
     std::wcout << "Product canonicalization(" << to_wstring(opts.method)
-- 
2.43.0


From c3d290c64b9bc0708caa8d31ba87bceae93d1b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 16/35] fix: summands of equal hash are put in an order that
 does not depend on addresses

Sorting the summands of a canonicalized sum compared pointers when hashes
were equal (e.g. t{;p} and t{p}), so the result depended on where the
summands happened to be allocated, hence on thread scheduling; Products with
equal hashes were not ordered at all.
---
 SeQuant/core/expressions/expr.cpp    |  2 +-
 SeQuant/core/expressions/product.hpp | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index a74a9bf..a547691 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -543,7 +543,7 @@ SumPtr HashingAccumulator::make_sum_impl(bool canonicalize) {
   if (canonicalize) {
     ranges::sort(summands, [](const auto &e1, const auto &e2) {
       if (e1->hash_value() == e2->hash_value()) {
-        return e1 < e2;
+        return *e1 < *e2;
       } else {
         return e1->hash_value() < e2->hash_value();
       }
diff --git a/SeQuant/core/expressions/product.hpp b/SeQuant/core/expressions/product.hpp
index 8d9e1a6..49a5a9d 100644
--- a/SeQuant/core/expressions/product.hpp
+++ b/SeQuant/core/expressions/product.hpp
@@ -469,6 +469,16 @@ class Product : public Expr {
     } else
       return false;
   }
+
+  bool static_less_than(const Expr &that) const override {
+    if (this->hash_value() != that.hash_value())
+      return this->hash_value() < that.hash_value();
+    // different Products can have same hash, compare factors then
+    return std::lexicographical_compare(
+        begin_subexpr(), end_subexpr(), that.begin_subexpr(),
+        that.end_subexpr(),
+        [](const ExprPtr &a, const ExprPtr &b) { return *a < *b; });
+  }
 };  // class Product
 
 class CProduct : public Product {
-- 
2.43.0


From d407f048214b478800cd942c37c1e41b116122a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 17/35] fix: WickTheorem leaves canonicalizers of normal
 operators registered by others alone

compute() deregistered the canonicalizers for the labels of normal operators
even if they had been registered by the user, and the end of one computation
re-enabled canonicalization for all others in progress.
---
 SeQuant/core/wick.impl.hpp | 75 ++++++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 23 deletions(-)

diff --git a/SeQuant/core/wick.impl.hpp b/SeQuant/core/wick.impl.hpp
index 89042c6..f1a127e 100644
--- a/SeQuant/core/wick.impl.hpp
+++ b/SeQuant/core/wick.impl.hpp
@@ -25,6 +25,10 @@
 #include <range/v3/view/filter.hpp>
 #include <range/v3/view/transform.hpp>
 
+#include <array>
+#include <mutex>
+#include <optional>
+
 #ifdef SEQUANT_HAS_EXECUTION_HEADER
 #include <execution>
 #endif
@@ -648,12 +652,51 @@ bool reduce_wick_impl(std::shared_ptr<Product> &expr,
   return true;
 }
 
+/// RAII: keeps canonicalization of normal operators disabled while any object
+/// of this type exists; the canonicalizers registered by others are left alone
 template <Statistics S>
-struct NullNormalOperatorCanonicalizerDeregister {
-  void operator()(void *) {
-    const auto nop_labels = NormalOperator<S>::labels();
-    TensorCanonicalizer::deregister_instance(nop_labels[0]);
-    TensorCanonicalizer::deregister_instance(nop_labels[1]);
+class NullNormalOperatorCanonicalizerRegistration {
+ public:
+  NullNormalOperatorCanonicalizerRegistration() {
+    std::scoped_lock lock(mtx_);
+    if (nusers_ == 0) {
+      try {
+        const auto &nop_labels = NormalOperator<S>::labels();
+        SEQUANT_ASSERT(nop_labels.size() == registered_.size());
+        for (std::size_t i = 0; i != registered_.size(); ++i)
+          registered_[i] = TensorCanonicalizer::try_register_instance(
+              std::make_shared<NullTensorCanonicalizer>(), nop_labels[i]);
+      } catch (...) {
+        deregister();
+        throw;
+      }
+    }
+    ++nusers_;
+  }
+
+  ~NullNormalOperatorCanonicalizerRegistration() {
+    std::scoped_lock lock(mtx_);
+    if (--nusers_ == 0) deregister();
+  }
+
+  NullNormalOperatorCanonicalizerRegistration(
+      const NullNormalOperatorCanonicalizerRegistration &) = delete;
+  NullNormalOperatorCanonicalizerRegistration &operator=(
+      const NullNormalOperatorCanonicalizerRegistration &) = delete;
+
+ private:
+  static inline std::mutex mtx_;
+  static inline std::size_t nusers_ = 0;
+  static inline std::array<bool, 2> registered_ = {false, false};
+
+  // deregisters only what was registered by this
+  static void deregister() {
+    const auto &nop_labels = NormalOperator<S>::labels();
+    for (std::size_t i = 0; i != registered_.size(); ++i) {
+      if (registered_[i])
+        TensorCanonicalizer::deregister_instance(nop_labels[i]);
+      registered_[i] = false;
+    }
   }
 };
 
@@ -704,26 +747,12 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
                                 const bool skip_input_canonicalization) {
   // need to avoid recanonicalization of operators produced by WickTheorem
   // by rapid canonicalization to avoid undoing all the good
-  // the NormalOperator<S>::normalize did ... use RAII
-  // 1. detail::NullNormalOperatorCanonicalizerDeregister<S> will restore state
-  // of tensor canonicalizer
-  // 2. this is the RAII object whose destruction will restore state of
-  // the tensor canonicalizer
-  std::unique_ptr<void, detail::NullNormalOperatorCanonicalizerDeregister<S>>
+  // the NormalOperator<S>::normalize did ... use RAII; only to be engaged
+  // after initial canonicalization
+  std::optional<detail::NullNormalOperatorCanonicalizerRegistration<S>>
       raii_null_nop_canonicalizer;
-  // 3. this makes the RAII object  ... NOT reentrant, only to be called in
-  // top-level WickTheorem after initial canonicalization
   auto disable_nop_canonicalization = [&raii_null_nop_canonicalizer]() {
-    if (!raii_null_nop_canonicalizer) {
-      const auto nop_labels = NormalOperator<S>::labels();
-      SEQUANT_ASSERT(nop_labels.size() == 2);
-      TensorCanonicalizer::try_register_instance(
-          std::make_shared<NullTensorCanonicalizer>(), nop_labels[0]);
-      TensorCanonicalizer::try_register_instance(
-          std::make_shared<NullTensorCanonicalizer>(), nop_labels[1]);
-      raii_null_nop_canonicalizer = decltype(raii_null_nop_canonicalizer)(
-          (void *)&raii_null_nop_canonicalizer, {});
-    }
+    if (!raii_null_nop_canonicalizer) raii_null_nop_canonicalizer.emplace();
   };
 
   // have an Expr as input? Apply recursively ...
-- 
2.43.0


From c6f325ce8fd3c30152ec2a37789d603daf1aef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 18/35] fix: concurrent reference expectation values do not
 share a temporarily replaced index comparer

---
 SeQuant/core/expressions/expr.cpp     |  6 +++-
 SeQuant/core/tensor_canonicalizer.cpp |  4 +--
 SeQuant/core/tensor_canonicalizer.hpp | 30 ++++++++++++++++-
 SeQuant/domain/mbpt/op.cpp            | 47 ++++++++++++++-------------
 4 files changed, 61 insertions(+), 26 deletions(-)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index a547691..2d7dc78 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -449,7 +449,11 @@ ExprPtr Sum::canonicalize_impl(bool multipass, CanonicalizeOptions opts) {
 
     // recursively canonicalize summands ...
     // using for_each and direct access to summands
-    sequant::for_each(summands_, [pass, &opts_copy, &rapid](ExprPtr &summand) {
+    // N.B. the index comparer installed in this thread applies to all summands
+    auto *index_comparer = TensorCanonicalizer::ScopedIndexComparer::current();
+    sequant::for_each(summands_, [pass, &opts_copy, &rapid,
+                                  index_comparer](ExprPtr &summand) {
+      TensorCanonicalizer::ScopedIndexComparer scoped_comparer(index_comparer);
       ExprPtr bp;
       if (rapid) {
         bp = summand->rapid_canonicalize(opts_copy);
diff --git a/SeQuant/core/tensor_canonicalizer.cpp b/SeQuant/core/tensor_canonicalizer.cpp
index b83e3f6..6f02cbe 100644
--- a/SeQuant/core/tensor_canonicalizer.cpp
+++ b/SeQuant/core/tensor_canonicalizer.cpp
@@ -289,7 +289,7 @@ TensorCanonicalizer::index_pair_comparer_t
 
 const TensorCanonicalizer::index_comparer_t&
 TensorCanonicalizer::index_comparer() {
-  return index_comparer_;
+  return scoped_index_comparer_ ? *scoped_index_comparer_ : index_comparer_;
 }
 
 void TensorCanonicalizer::index_comparer(index_comparer_t comparer) {
@@ -321,7 +321,7 @@ ExprPtr DefaultTensorCanonicalizer::apply(AbstractTensor& t) const {
   tag_indices(t);
 
   auto result =
-      this->apply(t, this->index_comparer_, this->index_pair_comparer_);
+      this->apply(t, this->index_comparer(), this->index_pair_comparer_);
 
   reset_tags(t);
 
diff --git a/SeQuant/core/tensor_canonicalizer.hpp b/SeQuant/core/tensor_canonicalizer.hpp
index 7c88d34..ca8cf08 100644
--- a/SeQuant/core/tensor_canonicalizer.hpp
+++ b/SeQuant/core/tensor_canonicalizer.hpp
@@ -102,9 +102,34 @@ class TensorCanonicalizer {
   // TODO generalize for complex tensors
   virtual ExprPtr apply(AbstractTensor&) const = 0;
 
-  /// @return reference to the object used to compare Index objects
+  /// @return reference to the object used by the calling thread to compare
+  /// Index objects: the one installed by the innermost ScopedIndexComparer
+  /// alive in this thread, if any, else the one set via
+  /// `index_comparer(comparer)`
   static const index_comparer_t& index_comparer();
 
+  /// Makes the calling thread, and the threads that process the summands of the
+  /// sums it canonicalizes, compare Index objects by the given object while in
+  /// scope. Unlike `index_comparer(comparer)` does not affect other threads.
+  class ScopedIndexComparer {
+   public:
+    /// @param comparer the object to use while `*this` exists; not owned, must
+    /// outlive `*this`; if null, will use the process-wide object
+    explicit ScopedIndexComparer(const index_comparer_t* comparer)
+        : previous_(scoped_index_comparer_) {
+      scoped_index_comparer_ = comparer;
+    }
+    ~ScopedIndexComparer() { scoped_index_comparer_ = previous_; }
+    ScopedIndexComparer(const ScopedIndexComparer&) = delete;
+    ScopedIndexComparer& operator=(const ScopedIndexComparer&) = delete;
+
+    /// @return the object installed in the calling thread, null if none
+    static const index_comparer_t* current() { return scoped_index_comparer_; }
+
+   private:
+    const index_comparer_t* previous_;
+  };
+
   /// @param comparer the compare object to be used by this
   static void index_comparer(index_comparer_t comparer);
 
@@ -127,6 +152,9 @@ class TensorCanonicalizer {
 
   /// the object used to compare indices
   static index_comparer_t index_comparer_;
+  /// if non-null, overrides index_comparer_ in this thread
+  inline static thread_local const index_comparer_t* scoped_index_comparer_ =
+      nullptr;
   /// the object used to compare pairs of indices
   static index_pair_comparer_t index_pair_comparer_;
 
diff --git a/SeQuant/domain/mbpt/op.cpp b/SeQuant/domain/mbpt/op.cpp
index 50f7b29..a3417fa 100644
--- a/SeQuant/domain/mbpt/op.cpp
+++ b/SeQuant/domain/mbpt/op.cpp
@@ -1543,29 +1543,32 @@ ExprPtr expectation_value_impl(ExprPtr expr, OpConnections<int> connect,
 
     // TensorCanonicalizer is given a custom comparer that moves active
     // indices to the front external-vs-internal trait still takes precedence
-    auto current_index_comparer =
-        TensorCanonicalizer::instance()->index_comparer();
-    TensorCanonicalizer::instance()->index_comparer(
+    // N.B. comparer is only installed for this computation: it can be one of
+    // several running concurrently
+    const auto& current_index_comparer = TensorCanonicalizer::index_comparer();
+    const TensorCanonicalizer::index_comparer_t active_first_comparer =
         [&](const Index& idx1, const Index& idx2) -> bool {
-          auto active_space = isr->intersection(isr->particle_space(Spin::any),
-                                                isr->hole_space(Spin::any));
-          const auto idx1_active = idx1.space().type() == active_space.type();
-          const auto idx2_active = idx2.space().type() == active_space.type();
-          if (idx1_active) {
-            if (idx2_active)
-              return current_index_comparer(idx1, idx2);
-            else
-              return true;
-          } else {
-            if (idx2_active)
-              return false;
-            else
-              return current_index_comparer(idx1, idx2);
-          }
-        });
-    simplify(result);
-    TensorCanonicalizer::instance()->index_comparer(
-        std::move(current_index_comparer));
+      auto active_space = isr->intersection(isr->particle_space(Spin::any),
+                                            isr->hole_space(Spin::any));
+      const auto idx1_active = idx1.space().type() == active_space.type();
+      const auto idx2_active = idx2.space().type() == active_space.type();
+      if (idx1_active) {
+        if (idx2_active)
+          return current_index_comparer(idx1, idx2);
+        else
+          return true;
+      } else {
+        if (idx2_active)
+          return false;
+        else
+          return current_index_comparer(idx1, idx2);
+      }
+    };
+    {
+      TensorCanonicalizer::ScopedIndexComparer scoped_comparer(
+          &active_first_comparer);
+      simplify(result);
+    }
 
     if (Logger::instance().wick_stats) {
       std::wcout << "WickTheorem stats: # of contractions attempted = "
-- 
2.43.0


From bd58c4bf63489b0bc4db0f54d67e1815c948a078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 19/35] fix: mbpt operators of general type are not treated as
 commuting

---
 SeQuant/domain/mbpt/op.ipp | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/SeQuant/domain/mbpt/op.ipp b/SeQuant/domain/mbpt/op.ipp
index 8f28062..ef86139 100644
--- a/SeQuant/domain/mbpt/op.ipp
+++ b/SeQuant/domain/mbpt/op.ipp
@@ -12,6 +12,10 @@
 #include <range/v3/algorithm/is_sorted.hpp>
 #include <range/v3/view/iota.hpp>
 
+#include <algorithm>
+#include <array>
+#include <cstddef>
+
 namespace sequant {
 namespace mbpt {
 
@@ -129,13 +133,38 @@ bool Operator<QuantumNumbers, S>::commutes_with_atom(const Expr& that) const {
 
     // if this has annihilators/creators in same space as that has
     // creator/annihilators return false
+    // N.B. this cannot be deduced by comparing the (intervals of) quantum
+    // numbers of this*that and that*this: these can be same even if the
+    // operators do not commute, e.g. for 2 operators of general type
+
+    const auto delta_this = (*this)();
+    const auto delta_that = (that_op)();
+
+    SEQUANT_ASSERT(delta_this.size() % 2 == 0 &&
+                   delta_that.size() == delta_this.size());
 
-    auto delta_this = (*this)();
-    auto delta_that = (that_op)();
+    // max # of creators and annihilators
+    // N.B. if they can be in several spaces all have the same upper bound
+    std::array<std::size_t, 2> n_this{0, 0}, n_that{0, 0};
+    for (std::size_t cre = 0; cre != delta_this.size(); cre += 2) {
+      const auto ann = cre + 1;
+      if ((delta_this[cre].upper() > 0 && delta_that[ann].upper() > 0) ||
+          (delta_this[ann].upper() > 0 && delta_that[cre].upper() > 0))
+        return false;
+      for (std::size_t i = 0; i != 2; ++i) {
+        n_this[i] = std::max<std::size_t>(n_this[i], delta_this[cre + i].upper());
+        n_that[i] = std::max<std::size_t>(n_that[i], delta_that[cre + i].upper());
+      }
+    }
 
-    SEQUANT_ASSERT(this->size() % 2 == 0 && that.size() == this->size());
+    // without common modes 2 products of odd # of fermionic creators and
+    // annihilators anticommute
+    if constexpr (S == Statistics::FermiDirac) {
+      const auto is_odd = [](const auto& n) { return (n[0] + n[1]) % 2 == 1; };
+      if (is_odd(n_this) && is_odd(n_that)) return false;
+    }
 
-    return combine(delta_this, delta_that) == combine(delta_that, delta_this);
+    return true;
   }
 }
 
-- 
2.43.0


From e9b6639f499cae7da75c345f35336dd61f02de98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 20/35] fix: reference expectation value of a lone operator is
 not assumed to be zero

---
 SeQuant/domain/mbpt/vac_av.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/SeQuant/domain/mbpt/vac_av.cpp b/SeQuant/domain/mbpt/vac_av.cpp
index 834da84..9caf415 100644
--- a/SeQuant/domain/mbpt/vac_av.cpp
+++ b/SeQuant/domain/mbpt/vac_av.cpp
@@ -147,8 +147,12 @@ ExprPtr expectation_value_impl(ExprPtr expr,
     simplify(result);  // combine possible equivalent summands
     return result;
   } else if (expr.is<op_t>()) {
-    return ex<Constant>(
-        0);  // expectation value of a normal-ordered operator is 0
+    if (full_contractions)
+      return ex<Constant>(
+          0);  // expectation value of a normal-ordered operator is 0
+    // N.B. if normal order is not relative to the reference it can have nonzero
+    // reference expectation value
+    return vac_av_product(ex<Product>(ExprPtrList{expr}));
   } else if (expr->is_scalar()) {
     return expr;  // vacuum is normalized
   }
-- 
2.43.0


From 2b3139671005ad97abd616ca4c182279f77dd098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 21/35] fix: multireference expectation values can be zero or a
 single tensor

---
 SeQuant/domain/mbpt/op.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/op.cpp b/SeQuant/domain/mbpt/op.cpp
index a3417fa..d6a7c19 100644
--- a/SeQuant/domain/mbpt/op.cpp
+++ b/SeQuant/domain/mbpt/op.cpp
@@ -1516,8 +1516,14 @@ ExprPtr expectation_value_impl(ExprPtr expr, OpConnections<int> connect,
         auto product_ptr = exptr.template as_shared_ptr<Product>();
         impl_for_single_tn(product_ptr);
         exptr = product_ptr;
+      } else if (exptr->is_scalar()) {
+        // e.g. the expectation value is zero, nothing to do
+      } else if (!exptr.template is<Sum>()) {
+        // result collapsed to a single factor, see below
+        auto product_ptr = std::make_shared<Product>(ExprPtrList{exptr});
+        impl_for_single_tn(product_ptr);
+        exptr = product_ptr;
       } else {
-        SEQUANT_ASSERT(exptr.template is<Sum>());
         auto result = std::make_shared<Sum>();
         for (auto& summand : exptr.template as<Sum>().summands()) {
           // a summand may collapse to a single factor rather than a Product
-- 
2.43.0


From 9993875315a0253e39763e92c376f84b92f50b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:23 +0000
Subject: [PATCH 22/35] fix: mbpt operators that differ in normalization are
 not equal

---
 SeQuant/domain/mbpt/op.cpp | 30 ++++++++++++++++++++++++++----
 SeQuant/domain/mbpt/op.hpp | 14 +++++++++++++-
 SeQuant/domain/mbpt/op.ipp | 23 +++++++++++++++++------
 3 files changed, 56 insertions(+), 11 deletions(-)

diff --git a/SeQuant/domain/mbpt/op.cpp b/SeQuant/domain/mbpt/op.cpp
index d6a7c19..4f715e0 100644
--- a/SeQuant/domain/mbpt/op.cpp
+++ b/SeQuant/domain/mbpt/op.cpp
@@ -1055,6 +1055,20 @@ ExprPtr F(bool use_f_tensor, const IndexSpace& occupied_density) {
   }
 }
 
+namespace {
+/// @return @p norm if it makes the tensor form of an operator with @p nc
+/// creators and @p na annihilators differ from that with normalization @p
+/// intrinsic
+std::optional<Normalization> distinct_normalization(std::size_t nc,
+                                                    std::size_t na,
+                                                    Normalization norm,
+                                                    Normalization intrinsic) {
+  return norm == intrinsic || (nc < 2 && na < 2)
+             ? std::nullopt
+             : std::optional<Normalization>(norm);
+}
+}  // namespace
+
 ExprPtr A(nₚ np, nₕ nh, std::optional<Normalization> norm) {
   SEQUANT_ASSERT(!(nh == 0 && np == 0));
   // if one of them is not zero, nh and np should have the same sign
@@ -1081,7 +1095,10 @@ ExprPtr A(nₚ np, nₕ nh, std::optional<Normalization> norm) {
                                                   particle_space, hole_space);
           qns = combine(op_qnc_t, qns);
         }
-      });
+      },
+      distinct_normalization(std::abs(np), std::abs(nh),
+                             norm.value_or(Normalization::Implicit),
+                             Normalization::Implicit));
 }
 
 ExprPtr S(std::int64_t K, std::optional<Normalization> norm) {
@@ -1097,7 +1114,10 @@ ExprPtr S(std::int64_t K, std::optional<Normalization> norm) {
                       qnc_t op_qnc_t = excitation_type_qns(abs_K);
                       qns = combine(op_qnc_t, qns);
                     }
-                  });
+                  },
+                  distinct_normalization(std::abs(K), std::abs(K),
+                                         norm.value_or(Normalization::Implicit),
+                                         Normalization::Implicit));
 }
 
 ExprPtr P(nₚ np, nₕ nh, std::optional<Normalization> norm) {
@@ -1184,7 +1204,8 @@ ExprPtr r(nann na, ncre nc, const cre<IndexSpace>& cre_space,
                                                          /*hole_rank*/ na,
                                                          cre_space, ann_space),
                                   qns);
-                  });
+                  },
+                  distinct_normalization(nc, na, norm, Normalization::Default));
 }
 
 ExprPtr r(nₚ np, nₕ nh, Normalization norm) {
@@ -1206,7 +1227,8 @@ ExprPtr l(nann na, ncre nc, const cre<IndexSpace>& cre_space,
                                       /*particle_rank*/ na, /*hole_rank*/ nc,
                                       ann_space, cre_space),
                                   qns);
-                  });
+                  },
+                  distinct_normalization(nc, na, norm, Normalization::Default));
 }
 
 ExprPtr l(nₚ np, nₕ nh, Normalization norm) {
diff --git a/SeQuant/domain/mbpt/op.hpp b/SeQuant/domain/mbpt/op.hpp
index 658e1ba..9835165 100644
--- a/SeQuant/domain/mbpt/op.hpp
+++ b/SeQuant/domain/mbpt/op.hpp
@@ -899,9 +899,13 @@ class Operator : public Operator<void, S> {
   /// @param tensor_form_generator a function that generates the tensor form of
   /// the operator
   /// @param qn_action a function that modifies the quantum numbers
+  /// @param normalization if given, how the tensor form is normalized; should
+  /// be given if this affects the tensor form and differs from the intrinsic
+  /// normalization of operators with this label; such operators are not equal
   Operator(std::function<std::wstring_view()> label_generator,
            std::function<ExprPtr()> tensor_form_generator,
-           std::function<void(QuantumNumbers&)> qn_action);
+           std::function<void(QuantumNumbers&)> qn_action,
+           std::optional<Normalization> normalization = std::nullopt);
 
   Operator(std::function<std::wstring_view()> label_generator,
            std::function<ExprPtr()> tensor_form_generator,
@@ -950,9 +954,17 @@ class Operator : public Operator<void, S> {
   /// @brief returns the perturbation order of this operator
   [[nodiscard]] size_t order() const { return order_; }
 
+  /// @brief returns the normalization of the tensor form of this operator, if
+  /// not intrinsic
+  [[nodiscard]] std::optional<Normalization> normalization() const {
+    return normalization_;
+  }
+
  private:
   std::function<void(QuantumNumbers&)> qn_action_;
 
+  std::optional<Normalization> normalization_ = std::nullopt;
+
   bool is_adjoint_ = false;
 
   std::optional<container::svector<std::size_t>> batch_ordinals_ = std::nullopt;
diff --git a/SeQuant/domain/mbpt/op.ipp b/SeQuant/domain/mbpt/op.ipp
index ef86139..60fb7a7 100644
--- a/SeQuant/domain/mbpt/op.ipp
+++ b/SeQuant/domain/mbpt/op.ipp
@@ -26,9 +26,11 @@ template <typename QuantumNumbers, Statistics S>
 Operator<QuantumNumbers, S>::Operator(
     std::function<std::wstring_view()> label_generator,
     std::function<ExprPtr()> tensor_form_generator,
-    std::function<void(QuantumNumbers&)> qn_action)
+    std::function<void(QuantumNumbers&)> qn_action,
+    std::optional<Normalization> normalization)
     : base_type(std::move(label_generator), std::move(tensor_form_generator)),
-      qn_action_(std::move(qn_action)) {}
+      qn_action_(std::move(qn_action)),
+      normalization_(normalization) {}
 
 template <typename QuantumNumbers, Statistics S>
 Operator<QuantumNumbers, S>::Operator(
@@ -152,8 +154,10 @@ bool Operator<QuantumNumbers, S>::commutes_with_atom(const Expr& that) const {
           (delta_this[ann].upper() > 0 && delta_that[cre].upper() > 0))
         return false;
       for (std::size_t i = 0; i != 2; ++i) {
-        n_this[i] = std::max<std::size_t>(n_this[i], delta_this[cre + i].upper());
-        n_that[i] = std::max<std::size_t>(n_that[i], delta_that[cre + i].upper());
+        n_this[i] =
+            std::max<std::size_t>(n_this[i], delta_this[cre + i].upper());
+        n_that[i] =
+            std::max<std::size_t>(n_that[i], delta_that[cre + i].upper());
       }
     }
 
@@ -201,7 +205,8 @@ void Operator<QuantumNumbers, S>::adjoint() {
       [=](qnc_t& qn) {
         qn += sequant::adjoint(dN);
         return qn;  // qn_action
-      }};
+      },
+      this->normalization_};
   this->is_adjoint_ = !this->is_adjoint_;  // toggle adjoint flag
 
   // restore original order and batch_ordinals
@@ -212,7 +217,10 @@ void Operator<QuantumNumbers, S>::adjoint() {
 template <typename QuantumNumbers, Statistics S>
 bool Operator<QuantumNumbers, S>::less_than_rank_of(
     const this_type& that) const {
-  return (*this)(QuantumNumbers{}) < that(QuantumNumbers{});
+  const auto this_qns = (*this)(QuantumNumbers{});
+  const auto that_qns = that(QuantumNumbers{});
+  if (this_qns == that_qns) return normalization_ < that.normalization_;
+  return this_qns < that_qns;
 }
 
 template <typename QuantumNumbers, Statistics S>
@@ -255,6 +263,8 @@ Expr::hash_type Operator<QuantumNumbers, S>::memoizing_hash() const {
       const auto ordinals = batch_ordinals().value();
       sequant::hash::range(val, begin(ordinals), end(ordinals));
     }
+    if (normalization_)
+      sequant::hash::combine(val, static_cast<int>(*normalization_));
     return val;
   };
   if (!this->hash_value_) {
@@ -272,6 +282,7 @@ bool Operator<QuantumNumbers, S>::static_equal(const Expr& other_expr) const {
   return this->label() == other.label() &&
          (*this)(QuantumNumbers{}) == other(QuantumNumbers{}) &&
          this->batch_ordinals() == other.batch_ordinals() &&
+         this->normalization() == other.normalization() &&
          this->order() == other.order();
 }
 
-- 
2.43.0


From 578cb57454da458ef647ffcb08a43988c1b8cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 23/35] fix: changing a Constant or conjugating a Variable
 resets its memoized hash

---
 SeQuant/core/expressions/constant.hpp | 3 +++
 SeQuant/core/expressions/expr.cpp     | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/expressions/constant.hpp b/SeQuant/core/expressions/constant.hpp
index 9ae67a9..3b16f56 100644
--- a/SeQuant/core/expressions/constant.hpp
+++ b/SeQuant/core/expressions/constant.hpp
@@ -83,6 +83,7 @@ class Constant : public Expr {
   virtual Expr &operator*=(const Expr &that) override {
     if (that.is<Constant>()) {
       value_ *= that.as<Constant>().value();
+      reset_hash_value();
     } else {
       throw Exception("Constant::operator*=(that): not valid for that");
     }
@@ -92,6 +93,7 @@ class Constant : public Expr {
   virtual Expr &operator+=(const Expr &that) override {
     if (that.is<Constant>()) {
       value_ += that.as<Constant>().value();
+      reset_hash_value();
     } else {
       throw Exception("Constant::operator+=(that): not valid for that");
     }
@@ -101,6 +103,7 @@ class Constant : public Expr {
   virtual Expr &operator-=(const Expr &that) override {
     if (that.is<Constant>()) {
       value_ -= that.as<Constant>().value();
+      reset_hash_value();
     } else {
       throw Exception("Constant::operator-=(that): not valid for that");
     }
diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index 2d7dc78..6987764 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -201,7 +201,10 @@ void Variable::set_label(std::wstring label) {
   reset_hash_value();
 }
 
-void Variable::conjugate() { conjugated_ = !conjugated_; }
+void Variable::conjugate() {
+  conjugated_ = !conjugated_;
+  reset_hash_value();
+}
 
 bool Variable::conjugated() const { return conjugated_; }
 
-- 
2.43.0


From 781e367f7d31277adba233273b42b1024a657c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 24/35] fix: accumulating several constants in a sum adds them
 up

---
 SeQuant/core/expressions/expr.cpp |  6 ++++++
 SeQuant/core/expressions/sum.hpp  | 27 ++++++++++++++++++++-------
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index 6987764..2c9ed92 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -525,6 +525,12 @@ HashingAccumulator &HashingAccumulator::append(ExprPtr summand, bool flatten) {
     } else {
       if (existing_summand.is<Product>()) {
         existing_summand.as<Product>().add_identical(summand);
+      } else if (summand.is<Constant>()) {
+        // constants add up to a constant, which may match another term
+        summands_.erase(it);
+        this->append(ex<Constant>(existing_summand.as<Constant>().value() +
+                                  summand.as<Constant>().value()),
+                     flatten);
       } else {
         // neither is a product - create new product
         auto product_form = std::make_shared<Product>();
diff --git a/SeQuant/core/expressions/sum.hpp b/SeQuant/core/expressions/sum.hpp
index 4cfcda2..460e99f 100644
--- a/SeQuant/core/expressions/sum.hpp
+++ b/SeQuant/core/expressions/sum.hpp
@@ -96,7 +96,7 @@ class Sum : public Expr {
   explicit Sum(summands_type &&summands, move_only_tag)
       : summands_(std::move(summands)) {
     std::size_t pos = 0;
-    for (auto it = summands_.begin(); it != summands_.end(); ++it) {
+    for (auto it = summands_.begin(); it != summands_.end();) {
       auto &summand = *it;
       bool do_erase = false;
       if (summand->is_zero()) {
@@ -105,7 +105,10 @@ class Sum : public Expr {
         auto summand_constant = summand.as_shared_ptr<Constant>();
         if (constant_summand_idx_) {  // add up to the existing constant ...
           SEQUANT_ASSERT(summands_.at(*constant_summand_idx_)->is<Constant>());
-          *summands_[*constant_summand_idx_] += *summand_constant;
+          // N.B. the summands may be shared, do not mutate them
+          summands_[*constant_summand_idx_] = ex<Constant>(
+              summands_[*constant_summand_idx_]->as<Constant>().value() +
+              summand_constant->value());
           do_erase = true;
         } else {  // or memorize the position of the constant
           constant_summand_idx_ = pos;
@@ -114,11 +117,11 @@ class Sum : public Expr {
 
       // erase if needed
       if (do_erase) {
-        summands_.erase(it);
-        it = summands_.begin();
-        std::advance(it, pos);
-      } else
+        it = summands_.erase(it);
+      } else {
+        ++it;
         ++pos;
+      }
     }
   }
 
@@ -387,7 +390,17 @@ class HashingAccumulator {
   /// @param canonicalize if true, sort the summands by hash value
   SumPtr make_sum_impl(bool canonicalize);
 
-  container::unordered_set<ExprPtr, sequant::hash::_<ExprPtr>, proportional_to>
+  /// proportional_to made consistent with the hash: e.g. different Constants
+  /// are proportional to each other but have different hash values, hence must
+  /// not compare equal even if they end up in the same bucket
+  struct equal_summands {
+    bool operator()(const ExprPtr &expr1, const ExprPtr &expr2) const {
+      return expr1->hash_value() == expr2->hash_value() &&
+             proportional_to{}(expr1, expr2);
+    }
+  };
+
+  container::unordered_set<ExprPtr, sequant::hash::_<ExprPtr>, equal_summands>
       summands_;
 };
 
-- 
2.43.0


From aeb8545d38fd00f0664a46c046719bc99d03f6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 25/35] fix: evaluation of an antisymmetric tensor does not
 lose the sign of reordering its slots

---
 SeQuant/core/eval/eval_expr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/eval/eval_expr.cpp b/SeQuant/core/eval/eval_expr.cpp
index bf77ec1..92930ba 100644
--- a/SeQuant/core/eval/eval_expr.cpp
+++ b/SeQuant/core/eval/eval_expr.cpp
@@ -155,7 +155,9 @@ EvalExpr::EvalExpr(Tensor const& tnsr)
     // that equivalent half-tensor forms (e.g. X{a;;x} and X{;a;x}) fold.
     auto& t = expr_->as<Tensor>();
     auto phase = TensorBlockCanonicalizer{}.apply(t);
-    canon_phase_ = phase ? -1 : 1;
+    // A leaf is evaluated to the tensor it holds, thus there is no way to make
+    // up for a sign: leave the tensor as is if reordering its slots costs one.
+    if (phase) t = tnsr;
     hash_value_ = hash_terminal_tensor(t);
     canon_indices_ = t.const_indices() | ranges::to<index_vector>;
   }
-- 
2.43.0


From 1f67b9c398a7dbd60d952c3f6d5545ef87bd4c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 26/35] fix: adding up evaluated terms does not change cached
 results

---
 SeQuant/core/eval/eval.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/SeQuant/core/eval/eval.hpp b/SeQuant/core/eval/eval.hpp
index 96e3ffb..7a71377 100644
--- a/SeQuant/core/eval/eval.hpp
+++ b/SeQuant/core/eval/eval.hpp
@@ -859,12 +859,21 @@ ResultPtr evaluate(Nodes const& nodes,  //
   // unchanged — i.e. node cached, phase == 1, AND no permute happened.
   bool const layout_is_default = (layout == decltype(layout){});
 
+  // the same holds for the accumulator, which must not be written to while it
+  // is (or may be) shared with the cache or with the leaf evaluator
+  bool result_shared = layout_is_default;
+
   for (auto&& n : nodes) {
     if (!result) {
       result = evaluate<EvalTrace>(n, layout, le, cache);
       continue;
     }
 
+    if (result_shared) {
+      result = result->mult_by_phase(1);
+      result_shared = false;
+    }
+
     ResultPtr pre = evaluate<EvalTrace>(n, layout, le, cache);
     auto time =
         detail::timed_eval_inplace([&]() { result->add_inplace(*pre); });
-- 
2.43.0


From 9213b7579c424fa27bd8864ef8cdae7ee22c19d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 27/35] fix: converting an evaluation tree to an expression
 copes with products of constants and of nested sums and products

---
 SeQuant/core/eval/eval_expr.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.hpp b/SeQuant/core/eval/eval_expr.hpp
index 779bb0b..cfb1bb1 100644
--- a/SeQuant/core/eval/eval_expr.hpp
+++ b/SeQuant/core/eval/eval_expr.hpp
@@ -513,11 +513,14 @@ ExprPtr to_expr(meta::eval_node auto const& node) {
     prod.append(1, lexpr, Product::Flatten::No);
     prod.append(1, rexpr, Product::Flatten::No);
 
-    SEQUANT_ASSERT(!prod.empty());
-
-    if (prod.size() == 1 && !prod.factor(0)->is<Tensor>()) {
-      return ex<Product>(Product{prod.scalar(), prod.factor(0)->begin(),
-                                 prod.factor(0)->end(), Product::Flatten::No});
+    if (prod.empty()) {
+      // both factors are constants
+      return ex<Constant>(prod.scalar());
+    } else if (prod.size() == 1 && prod.factor(0)->is<Product>()) {
+      auto const& factor = prod.factor(0)->as<Product>();
+      return ex<Product>(Product{prod.scalar() * factor.scalar(),
+                                 factor.begin(), factor.end(),
+                                 Product::Flatten::No});
     } else {
       return ex<Product>(std::move(prod));
     }
-- 
2.43.0


From c6fcc68431fe2a155da05352364ddaa452de9d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 28/35] fix: evaluation trees are equal only if operands enter
 their results in the same way

---
 SeQuant/core/eval/eval_node_compare.hpp | 40 +++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/SeQuant/core/eval/eval_node_compare.hpp b/SeQuant/core/eval/eval_node_compare.hpp
index 5ac2ae8..9051d04 100644
--- a/SeQuant/core/eval/eval_node_compare.hpp
+++ b/SeQuant/core/eval/eval_node_compare.hpp
@@ -6,8 +6,10 @@
 #include <SeQuant/core/utility/tensor.hpp>
 #include <SeQuant/external/bliss/graph.hh>
 
+#include <algorithm>
 #include <cstddef>
 #include <unordered_map>
+#include <vector>
 
 namespace sequant {
 
@@ -110,6 +112,13 @@ struct TreeNodeEqualityComparator {
     }
 
     if (!lhs.leaf()) {
+      // The operands are compared below only up to the names of their indices
+      // and up to their phases. How these enter the result is part of the
+      // connectivity graph, if there is one.
+      if (!lhs->has_connectivity_graph() && !same_composition(lhs, rhs)) {
+        return false;
+      }
+
       // Note: We're assuming that the assignment of a subtree into left and
       // right is made consistently (canonical) and hence we don't compare
       // left with right
@@ -126,6 +135,37 @@ struct TreeNodeEqualityComparator {
 
  private:
   IndexSpecificTensorBlockEqualComparator block_comparator_;
+
+  /// @return whether the indices and phases of the operands of @p lhs enter the
+  /// result in the same way as those of @p rhs
+  static bool same_composition(const TreeNode &lhs, const TreeNode &rhs) {
+    // where the indices of the operands are found in the result
+    auto positions = [](const TreeNode &node) {
+      auto const &result = node->canon_indices();
+      std::vector<std::size_t> pos;
+      for (const TreeNode *operand : {&node.left(), &node.right()}) {
+        for (const Index &idx : (*operand)->canon_indices()) {
+          pos.push_back(std::ranges::distance(
+              result.begin(), std::ranges::find(result, idx)));
+        }
+      }
+      return pos;
+    };
+    if (positions(lhs) != positions(rhs)) {
+      return false;
+    }
+
+    if (lhs->is_sum()) {
+      return lhs.left()->canon_phase() == rhs.left()->canon_phase() &&
+             lhs.right()->canon_phase() == rhs.right()->canon_phase();
+    }
+
+    auto phase = [](const TreeNode &node) {
+      return node->canon_phase() * node.left()->canon_phase() *
+             node.right()->canon_phase();
+    };
+    return phase(lhs) == phase(rhs);
+  }
 };
 
 /// A map between (sub)tree hashes and how often they have been found
-- 
2.43.0


From 9f4e93df583d682ef39e06fabbd09cefe390b6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 29/35] fix: sums within evaluated products are told apart and
 can be contracted regardless of the orientation of their summands

---
 SeQuant/core/eval/eval_expr.cpp | 42 ++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.cpp b/SeQuant/core/eval/eval_expr.cpp
index 92930ba..4e97ee1 100644
--- a/SeQuant/core/eval/eval_expr.cpp
+++ b/SeQuant/core/eval/eval_expr.cpp
@@ -340,6 +340,8 @@ auto imed_hashes(Rng const& rng) {
 struct ExprWithHash {
   ExprPtr expr;
   size_t hash;
+  /// what represents the factor in the tensor network of the product
+  ExprPtr network_expr;
 };
 
 void all_indices(IndexSet& result, ExprPtr const& expr) {
@@ -369,13 +371,27 @@ void collect_tensor_factors(EvalExprNode const& node,  //
 
   if (auto op = node->op_type();
       node->is_tensor() &&
-      (!op || *op == EvalOp::Sum || *op == EvalOp::Adjoint))
+      (!op || *op == EvalOp::Sum || *op == EvalOp::Adjoint)) {
     // Treat Adjoint the same as Sum here: it produces a tensor result that
     // enters a parent Product as a single factor — the parent shouldn't
     // try to recurse past the Adjoint boundary, just collect the adjointed
     // tensor (held in node->expr()) and move on.
-    collect.emplace_back(
-        ExprWithHash{.expr = node->expr(), .hash = node->hash_value()});
+    auto network_expr = node->expr();
+    if (op == EvalOp::Sum) {
+      // All sums share the same label, the order of their slots is that of the
+      // labels of the indices, and their bra and ket follow the first summand
+      // (a braket-symmetric tensor may have been reoriented). Hence, identify
+      // the sum by its hash and its slots by the canonical order of its indices
+      network_expr = ex<Tensor>(
+          std::wstring(detail::label_tensor) +
+              std::to_wstring(node->hash_value()),
+          bra<IndexVec>{}, ket<IndexVec>{}, aux(IndexVec(node->canon_indices())),
+          Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm);
+    }
+    collect.emplace_back(ExprWithHash{.expr = node->expr(),
+                                      .hash = node->hash_value(),
+                                      .network_expr = network_expr});
+  }
   else if (node->op_type() == EvalOp::Product && !node.leaf()) {
     collect_tensor_factors(node.left(), collect);
     collect_tensor_factors(node.right(), collect);
@@ -453,9 +469,20 @@ EvalExprNode binarize(Sum const& sum, IndexSet const& uncontract,
 
   auto make_sum = [i = 0,                    //
                    hs = imed_hashes(hvals),  //
-                   all_tensors, &opts](EvalExpr const& left,
-                                       EvalExpr const&) mutable -> EvalExpr {
+                   rel = size_t{0},         // relation between the summands
+                   all_tensors,
+                   &opts](EvalExpr const& left,
+                          EvalExpr const& right) mutable -> EvalExpr {
     auto h = ranges::at(hs, ++i);
+    // summands are identified only up to the phase and the order of their
+    // indices, hence both are relevant for the identity of the sum
+    hash::combine(rel, left.canon_phase());
+    hash::combine(rel, right.canon_phase());
+    for (auto const& idx : right.canon_indices())
+      hash::combine(rel, std::distance(
+                             left.canon_indices().begin(),
+                             ranges::find(left.canon_indices(), idx)));
+    hash::combine(h, rel);
     if (all_tensors) {
       auto const& t = left.as_tensor();
       return {
@@ -542,6 +569,9 @@ EvalExprNode binarize(Product const& prod, IndexSet const& uncontract,
       collect_tensor_factors(left, subfacs);
       collect_tensor_factors(right, subfacs);
       auto ts = subfacs | transform([](auto&& t) { return t.expr; });
+      // what the network consists of
+      auto tn_tensors =
+          subfacs | transform([](auto&& t) { return t.network_expr; });
       IndexGroups<IndexVec> const target_indices = [prod = ex<Product>(ts),
                                                     &uncontracted_idxs]() {
         // route each surviving hyperindex to its correct slot
@@ -561,7 +591,7 @@ EvalExprNode binarize(Product const& prod, IndexSet const& uncontract,
         return result;
       }();
 
-      auto tn = TensorNetwork(ts);
+      auto tn = TensorNetwork(tn_tensors);
       auto named_indices = tn.ext_indices();
       for (auto&& ix : uncontracted_idxs) named_indices.emplace(ix);
 
-- 
2.43.0


From cb273ad6929069d864a0cf73edb190c99370dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:00 +0000
Subject: [PATCH 30/35] fix: appending a sum or product to itself, and
 prepending products, give the right result

---
 SeQuant/core/expressions/product.hpp | 13 ++++++++++---
 SeQuant/core/expressions/sum.hpp     |  4 ++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/expressions/product.hpp b/SeQuant/core/expressions/product.hpp
index 49a5a9d..98ad68f 100644
--- a/SeQuant/core/expressions/product.hpp
+++ b/SeQuant/core/expressions/product.hpp
@@ -14,6 +14,7 @@
 #include <range/v3/algorithm/equal.hpp>
 #include <range/v3/algorithm/for_each.hpp>
 #include <range/v3/view/filter.hpp>
+#include <range/v3/view/reverse.hpp>
 #include <range/v3/view/transform.hpp>
 
 #include <string>
@@ -152,6 +153,8 @@ class Product : public Expr {
   Product &append(T scalar, ExprPtr factor,
                   Flatten flatten_tag = Flatten::Yes) {
     SEQUANT_ASSERT(factor);
+    // if multiplying by itself make sure the factor is not mutated
+    if (factor.get() == this) factor = factor->clone();
     scalar_ *= scalar;
     if (!factor->is<Product>()) {
       if (factor->is<Constant>()) {  // factor in Constant
@@ -225,6 +228,8 @@ class Product : public Expr {
   Product &prepend(T scalar, ExprPtr factor,
                    Flatten flatten_tag = Flatten::Yes) {
     SEQUANT_ASSERT(factor);
+    // if multiplying by itself make sure the factor is not mutated
+    if (factor.get() == this) factor = factor->clone();
     scalar_ *= scalar;
     if (!factor->is<Product>()) {
       if (factor->is<Constant>()) {  // factor in Constant
@@ -236,10 +241,12 @@ class Product : public Expr {
         reset_hash_value();
       }
     } else {  // factor is a product also  ... flatten recursively
-      const auto &factor_product = factor->as<Product>();
-      scalar_ *= factor_product.scalar_;
       if (flatten_tag != Flatten::No) {  // flatten, once or recursively
-        for (auto &&subfactor : factor_product)
+        const auto &factor_product = factor->as<Product>();
+        scalar_ *= factor_product.scalar_;
+        // N.B. prepend in reverse to preserve the order of factors
+        for (auto &&subfactor :
+             factor_product.factors() | ranges::views::reverse)
           this->prepend(1, subfactor,
                         flatten_tag == Flatten::Once ? Flatten::No
                                                      : Flatten::Recursively);
diff --git a/SeQuant/core/expressions/sum.hpp b/SeQuant/core/expressions/sum.hpp
index 460e99f..6daa644 100644
--- a/SeQuant/core/expressions/sum.hpp
+++ b/SeQuant/core/expressions/sum.hpp
@@ -148,6 +148,8 @@ class Sum : public Expr {
         reset_hash_value();
       }
     } else {  // this recursively flattens Sum summands
+      // if appending to itself make sure the source is not mutated
+      if (summand.get() == this) summand = summand->clone();
       for (auto &subsummand : *summand) this->append(subsummand);
     }
     return *this;
@@ -179,6 +181,8 @@ class Sum : public Expr {
         reset_hash_value();
       }
     } else {  // this recursively flattens Sum summands
+      // if prepending to itself make sure the source is not mutated
+      if (summand.get() == this) summand = summand->clone();
       for (auto &subsummand : *summand) this->prepend(subsummand);
     }
     return *this;
-- 
2.43.0


From 88654bafdf31031f81d42abfbcb9c1f238072254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:00 +0000
Subject: [PATCH 31/35] fix: typesetting of normal-ordered operators that do
 not conserve the number of particles

---
 SeQuant/core/expressions/abstract_tensor.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/SeQuant/core/expressions/abstract_tensor.hpp b/SeQuant/core/expressions/abstract_tensor.hpp
index c70256a..57c6a96 100644
--- a/SeQuant/core/expressions/abstract_tensor.hpp
+++ b/SeQuant/core/expressions/abstract_tensor.hpp
@@ -444,9 +444,8 @@ inline std::wstring to_latex_tensor(
 
   // loop over left-aligned unpaired slots, if left_align==false
   if (!left_align && num_unpaired) {
-    auto* unpaired_indices = unpaired_type == SlotType::Bra
-                                 ? &bra[0]
-                                 : &ket[0];  // bra/ket are contiguous
+    // N.B. bra/ket are not necessarily contiguous
+    auto& unpaired_indices = unpaired_type == SlotType::Bra ? bra : ket;
     for (; col != num_unpaired; ++col) {
       result += L"*^";
       if ((bkt == BraKetTypesetting::BraSuper &&
@@ -486,9 +485,8 @@ inline std::wstring to_latex_tensor(
 
   // loop over right-aligned unpaired slots, if left_align==true
   if (left_align && num_unpaired) {
-    auto* unpaired_indices = unpaired_type == SlotType::Bra
-                                 ? &bra[0]
-                                 : &ket[0];  // bra/ket are contiguous
+    // N.B. bra/ket are not necessarily contiguous
+    auto& unpaired_indices = unpaired_type == SlotType::Bra ? bra : ket;
     for (; col != braket_rank_max; ++col) {
       result += L"*^";
       if ((bkt == BraKetTypesetting::BraSuper &&
-- 
2.43.0


From 2725da6de051ac2cb992b4e1a1b626f90484b449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:00 +0000
Subject: [PATCH 32/35] fix: inserting into or erasing from a normal-ordered
 operator resets its memoized hash

---
 SeQuant/core/op.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeQuant/core/op.hpp b/SeQuant/core/op.hpp
index 5225429..4ef57ba 100644
--- a/SeQuant/core/op.hpp
+++ b/SeQuant/core/op.hpp
@@ -695,6 +695,7 @@ class NormalOperator : public Operator<S>,
   iterator erase(const_iterator it) {
     if (it->action() == Action::Create) --ncreators_;
     if (hug_) hug_->erase(it - begin(), *it);
+    this->reset_hash_value();
     return Operator<S>::erase(it);
   }
 
@@ -702,6 +703,7 @@ class NormalOperator : public Operator<S>,
   template <typename T>
   iterator insert(const_iterator it, T &&value) {
     if (value.action() == Action::Create) ++ncreators_;
+    this->reset_hash_value();
     auto result = Operator<S>::insert(it, std::forward<T>(value));
     if (hug_) hug_->insert(result - begin(), *result);
     return result;
-- 
2.43.0


From 24fc4384fdbf0026a27eea6cf377ae20af558748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:31 +0000
Subject: [PATCH 33/35] fix: adding a constant to a sum copes with replaced
 summands and does not change the sums it was copied from

---
 SeQuant/core/expressions/sum.hpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/SeQuant/core/expressions/sum.hpp b/SeQuant/core/expressions/sum.hpp
index 6daa644..47d23e7 100644
--- a/SeQuant/core/expressions/sum.hpp
+++ b/SeQuant/core/expressions/sum.hpp
@@ -134,10 +134,8 @@ class Sum : public Expr {
         if (summand->is<Constant>()) {  // add up constants
           // immediately, if possible
           auto summand_constant = summand.as_shared_ptr<Constant>();
-          if (constant_summand_idx_) {
-            SEQUANT_ASSERT(
-                summands_.at(*constant_summand_idx_)->is<Constant>());
-            *(summands_[*constant_summand_idx_]) += *summand;
+          if (have_constant_summand()) {
+            add_to_constant_summand(*summand_constant);
           } else {
             summands_.push_back(summand->clone());
             constant_summand_idx_ = summands_.size() - 1;
@@ -164,10 +162,8 @@ class Sum : public Expr {
         // exclude zeros
         if (summand->is<Constant>()) {
           auto summand_constant = summand.as_shared_ptr<Constant>();
-          if (constant_summand_idx_) {  // add up to the existing constant ...
-            SEQUANT_ASSERT(
-                summands_.at(*constant_summand_idx_)->is<Constant>());
-            *summands_[*constant_summand_idx_] += *summand_constant;
+          if (have_constant_summand()) {  // add up to the existing constant ...
+            add_to_constant_summand(*summand_constant);
           } else {  // or include the nonzero constant and update
             // constant_summand_idx_
             summands_.insert(summands_.begin(), summand->clone());
@@ -308,6 +304,26 @@ class Sum : public Expr {
       constant_summand_idx_{};  // points to the constant summand, if any; used
                                 // to sum up constants in append/prepend
 
+  /// @return true if constant_summand_idx_ points to a Constant summand
+  /// @note the summand may have been replaced since constant_summand_idx_ was
+  /// set, e.g., via a (mutable) iterator
+  bool have_constant_summand() {
+    if (constant_summand_idx_ &&
+        (*constant_summand_idx_ >= summands_.size() ||
+         !summands_[*constant_summand_idx_]->is<Constant>()))
+      constant_summand_idx_.reset();
+    return constant_summand_idx_.has_value();
+  }
+
+  /// adds @p c to the existing Constant summand
+  /// @pre `have_constant_summand()==true`
+  /// @note the existing summand may be shared (e.g., with a copy of this), hence
+  /// is replaced rather than mutated
+  void add_to_constant_summand(const Constant &c) {
+    auto &summand = summands_.at(*constant_summand_idx_);
+    summand = ex<Constant>(summand->as<Constant>().value() + c.value());
+  }
+
   /// @return the hash of this object
   /// @note this ensures that hash of a Sum of a single summand is
   /// identical to the hash of the summand itself.
-- 
2.43.0


From 93c6299cec2e7383fdd8133c9dc990ef1e90beee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:13 +0000
Subject: [PATCH 34/35] fix: replacing bra or ket indices of a tensor updates
 its net ranks

---
 SeQuant/core/expressions/tensor.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SeQuant/core/expressions/tensor.hpp b/SeQuant/core/expressions/tensor.hpp
index 07b3b7d..0a96cc9 100644
--- a/SeQuant/core/expressions/tensor.hpp
+++ b/SeQuant/core/expressions/tensor.hpp
@@ -552,12 +552,16 @@ class Tensor : public Expr, public AbstractTensor, public MutatableLabeled {
   const auto &bra() const { return bra_; }
   void set_bra(index_container_type indices) {
     bra_ = sequant::bra(std::move(indices));
+    bra_net_rank_ = ranges::count_if(
+        bra_, [](const Index &idx) { return static_cast<bool>(idx); });
     reset_hash_value();
   }
   /// @return the ket slot range (empty slots are occupied by null indices)
   const auto &ket() const { return ket_; }
   void set_ket(index_container_type indices) {
     ket_ = sequant::ket(std::move(indices));
+    ket_net_rank_ = ranges::count_if(
+        ket_, [](const Index &idx) { return static_cast<bool>(idx); });
     reset_hash_value();
   }
   /// @return the aux slot range (empty slots are occupied by null indices)
-- 
2.43.0


From be5dd1db8355780378be043c2819d5e6eb5b46f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 35/35] fix: commutativity of normal-ordered operators accounts
 for contractions in both orders and for anticommutation

NormalOperator::commutes_with_atom() looked only for contractions of *this
with the argument in the given order, so canonicalization of products swapped
operators whose contractions appear in the opposite order only, and ignored
the sign of swapping operators of odd numbers of fermions.
Product::is_commutative() compares each pair of factors once, and no factor
with itself.
---
 SeQuant/core/expressions/expr.cpp | 2 +-
 SeQuant/core/op.hpp               | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index 2c9ed92..3854074 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -222,7 +222,7 @@ bool Product::is_commutative() const {
   bool result = true;
   const auto nfactors = size();
   for (size_t f = 0; f != nfactors; ++f) {
-    for (size_t s = 1; result && s != nfactors; ++s) {
+    for (size_t s = f + 1; result && s != nfactors; ++s) {
       result &= factors_[f]->commutes_with(*factors_[s]);
     }
   }
diff --git a/SeQuant/core/op.hpp b/SeQuant/core/op.hpp
index 4ef57ba..5e7501b 100644
--- a/SeQuant/core/op.hpp
+++ b/SeQuant/core/op.hpp
@@ -826,11 +826,18 @@ class NormalOperator : public Operator<S>,
           op_that.vacuum()) {  // can only check commutativity for same vacua
         for (auto &&op_l : *this) {
           for (auto &&op_r : op_that) {
-            if (can_contract(op_l, op_r)) {
+            // both orders matter: the difference between the 2 products consists
+            // of the contractions possible in either of them
+            if (can_contract(op_l, op_r) || can_contract(op_r, op_l)) {
               return false;
             }
           }
         }
+        // operators each composed of an odd number of fermionic operators
+        // anticommute
+        if (S == Statistics::FermiDirac && this->size() % 2 == 1 &&
+            op_that.size() % 2 == 1)
+          result = false;
       } else {  // NormalOperators for different vacua do not commute
         result = false;
       }
-- 
2.43.0

