From 55259dce53539ddc3718c99908b84614889f5be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 01/53] fix: reserve alignment padding when an over-aligned
 request takes a new block

---
 arena/arena.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index d3ba154..188c2ca 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -139,7 +139,8 @@ void Arena::Block::Reset() noexcept {
 auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char* {
     uint64_t needed = align_size(bytes);
     if (need_create_new_block(needed, alignment)) [[unlikely]] {
-        Block* curr = newBlock(needed, _last_block);
+        // an over-aligned request may need padding in front, reserve it in the new block.
+        Block* curr = newBlock(needed + (alignment - kByteSize), _last_block);
         if (curr != nullptr) [[likely]] {
             _last_block = curr;
         } else {
-- 
2.43.0


From ddea6c1792291c840b4095ab97f54d38de280fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 02/53] fix: return nullptr for arena requests whose size
 overflows uint64_t

---
 arena/arena.cc  | 5 +++++
 arena/arena.hpp | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index 188c2ca..d6cb45b 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -66,6 +66,7 @@ auto Arena::newBlock(uint64_t min_bytes, Block* prev_block) noexcept -> Arena::B
         auto output_message = fmt::format(
           "newBlock need too many min_bytes : {}, it add kBlockHeaderSize more than uint64_t max.", min_bytes);
         _options.logger_func(output_message);
+        return nullptr;
     }
 
     // it was not called in the Arena's first chance.
@@ -137,6 +138,10 @@ void Arena::Block::Reset() noexcept {
  * if return nullptr means failure
  */
 auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char* {
+    // no block can hold it, and the calculations below would overflow.
+    if (bytes > std::numeric_limits<uint64_t>::max() - kBlockHeaderSize - kByteSize - alignment) [[unlikely]] {
+        return nullptr;
+    }
     uint64_t needed = align_size(bytes);
     if (need_create_new_block(needed, alignment)) [[unlikely]] {
         // an over-aligned request may need padding in front, reserve it in the new block.
diff --git a/arena/arena.hpp b/arena/arena.hpp
index d4e12e6..dd5c130 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -290,7 +290,8 @@ class Arena
             auto [_, alignment_waste] = AlignPos(Pos(), alignment);
             // the size is no need to align, because the AlignPos has done the ptr alignment, and _limit is aligned
             // to 16.
-            return _pos + alignment_waste + size <= _limit;
+            // written without adding size, which may be close to the uint64_t max.
+            return _pos + alignment_waste <= _limit && size <= _limit - _pos - alignment_waste;
         }
 
         void run_cleanups() noexcept {
@@ -458,6 +459,7 @@ class Arena
               "is {}, sizeof T is {}",
               num, TYPENAME(T), sizeof(T));
             _options.logger_func(output_message);
+            return nullptr;
         }
         const uint64_t size = sizeof(T) * num;
         char* ptr = allocateAligned(size);
-- 
2.43.0


From 7d78a7de6e00ad6ea38a4ba930e6c30f1a419fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 03/53] fix: Arena::Create and CreateArray respect the
 alignment of the created type

---
 arena/arena.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index dd5c130..c6ae626 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -429,7 +429,7 @@ class Arena
      */
     template <Creatable T, typename... Args>
     [[nodiscard]] auto Create(Args&&... args) noexcept -> T* {
-        char* ptr = allocateAligned(sizeof(T));
+        char* ptr = allocateAligned(sizeof(T), std::max<uint64_t>(kByteSize, alignof(T)));
         if (ptr != nullptr) [[likely]] {
             Construct<T>(ptr, *this, std::forward<Args>(args)...);
             T* result = reinterpret_cast<T*>(ptr);
@@ -462,7 +462,7 @@ class Arena
             return nullptr;
         }
         const uint64_t size = sizeof(T) * num;
-        char* ptr = allocateAligned(size);
+        char* ptr = allocateAligned(size, std::max<uint64_t>(kByteSize, alignof(T)));
         if (ptr != nullptr) [[likely]] {
             T* curr = reinterpret_cast<T*>(ptr);
             for (uint64_t i = 0; i < num; ++i) {
-- 
2.43.0


From 4ab033ccbb36eb93bfa3a575493036bb690d8fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 04/53] fix: Reset and SpaceRemains of an arena that has no
 block yet

---
 arena/arena.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index c6ae626..4e3338c 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -395,6 +395,13 @@ class Arena
      * After Reset, Arena can be used as the new Arena Object.
      */
     inline auto Reset() noexcept -> uint64_t {
+        // nothing was allocated yet
+        if (_last_block == nullptr) [[unlikely]] {
+            if (_options.on_arena_reset != nullptr) {
+                _options.on_arena_reset(this, _cookie, _space_allocated, 0);
+            }
+            return 0;
+        }
         // free all blocks except the first block
         uint64_t all_waste_space = free_blocks_except_head();
         if (_options.on_arena_reset != nullptr) [[likely]] {
@@ -419,7 +426,7 @@ class Arena
      * caller can use is function to test whether the Arena will allocate a new block.
      */
     [[nodiscard, gnu::always_inline]] inline auto SpaceRemains() const noexcept -> uint64_t {
-        return _last_block->remain();
+        return _last_block == nullptr ? 0 : _last_block->remain();
     }
 
     /*
-- 
2.43.0


From cdc33cf8a183bc2efa5b9d19dc13998aca1e238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 05/53] fix: moving an arena rebinds its memory resource and
 silences the moved-from arena

---
 arena/arena.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 4e3338c..55a1609 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -159,7 +159,14 @@ class Arena
           _last_block(std::exchange(other._last_block, nullptr)),
           _resource(std::exchange(other._resource, nullptr)),
           _cookie(std::exchange(other._cookie, nullptr)),
-          _space_allocated(std::exchange(other._space_allocated, 0)) {}
+          _space_allocated(std::exchange(other._space_allocated, 0)) {
+        // the resource serves the new arena from now on
+        if (_resource != nullptr) [[likely]] {
+            _resource->_arena = this;
+        }
+        // the cookie is gone, so the moved-from arena should not report its destruction.
+        other._options.on_arena_destruction = nullptr;
+    }
     auto operator=(Arena&&) noexcept -> Arena& = delete;
 
     /*
@@ -345,6 +352,7 @@ class Arena
         }
 
        private:
+        friend class Arena;
         Arena* _arena;
     };
 
-- 
2.43.0


From a095fef5d4464f515f86f5cbc37f6f9334097583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 06/53] fix: Arena::Create destroys the object when its cleanup
 can not be registered

---
 arena/arena.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 55a1609..ab9b17c 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -449,6 +449,7 @@ class Arena
             Construct<T>(ptr, *this, std::forward<Args>(args)...);
             T* result = reinterpret_cast<T*>(ptr);
             if (!RegisterDestructor<T>(result)) [[unlikely]] {
+                arena_destruct_object<T>(result);
                 return nullptr;
             }
             if (_options.on_arena_allocation != nullptr) [[likely]] {
-- 
2.43.0


From 18b15f4896a3d0c278a04b459142eafa23cb9db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 07/53] fix: run all arena cleanups before any block is freed

---
 arena/arena.hpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index ab9b17c..1228404 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -313,6 +313,9 @@ class Arena
             }
         }
 
+        // the cleanups have run, forget them
+        [[gnu::always_inline]] inline void forget_cleanups() noexcept { _limit = _size; }
+
         [[nodiscard, gnu::always_inline]] inline auto cleanups() const noexcept -> uint64_t {
             uint64_t space = _size - _limit;
             Assert(space % kCleanupNodeSize == 0, "cleanups space should aligned to sizeof (CleanupNode)");  // NOLINT
@@ -628,6 +631,16 @@ class Arena
         return addCleanup(ptr, &arena_destruct_object<T>);
     }
 
+    /*
+     * run the cleanups of all blocks, newest first.
+     * a cleanup may refer to memory in any block, so no block can be freed before all of them have run.
+     */
+    void run_all_cleanups() noexcept {
+        for (Block* blk = _last_block; blk != nullptr; blk = blk->prev()) {
+            blk->run_cleanups();
+        }
+    }
+
     /*
      * free all blocks and return all remains size of all blocks that was freed.
      */
@@ -636,12 +649,13 @@ class Arena
         Block* prev = nullptr;
         uint64_t remain_size = 0;
 
+        // run all cleanups first
+        run_all_cleanups();
+
         while (curr != nullptr) {
             prev = curr->prev();
             // add the size of curr blk.
             remain_size += curr->remain();
-            // run all cleanups first
-            curr->run_cleanups();
             _options.block_dealloc(curr);
             curr = prev;
         }
@@ -657,18 +671,21 @@ class Arena
         Block* prev = nullptr;
         uint64_t remain_size = 0;
 
+        // run all cleanups first
+        run_all_cleanups();
+
         while (curr != nullptr && curr->prev() != nullptr) {
             prev = curr->prev();
             // add the size of curr blk.
             remain_size += curr->remain();
-            // run all cleanups first
-            curr->run_cleanups();
             _options.block_dealloc(curr);
             curr = prev;
         }
         Assert(curr != nullptr, "curr should not be nullptr");
         // add the curr blk remain to result
         remain_size += curr->remain();
+        // the cleanups of the first block have run already
+        curr->forget_cleanups();
         // reset the last_block_ to the first block
         _last_block = curr;
         return remain_size;
-- 
2.43.0


From d947b35cba5bc04d08d8c11f8d01cbe69e8b21f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 08/53] fix: padding of an under-aligned request is zero

---
 arena/arena.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index d6cb45b..a15f3ee 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -145,7 +145,7 @@ auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char
     uint64_t needed = align_size(bytes);
     if (need_create_new_block(needed, alignment)) [[unlikely]] {
         // an over-aligned request may need padding in front, reserve it in the new block.
-        Block* curr = newBlock(needed + (alignment - kByteSize), _last_block);
+        Block* curr = newBlock(needed + std::max(alignment, kByteSize) - kByteSize, _last_block);
         if (curr != nullptr) [[likely]] {
             _last_block = curr;
         } else {
-- 
2.43.0


From b109ced2edac75192ff0c53ecbf7ba93d5325eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 09/53] fix: the arena memory resource throws bad_alloc instead
 of returning nullptr

---
 arena/arena.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 1228404..12c6534 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -338,8 +338,13 @@ class Arena
         [[nodiscard]] auto get_arena() const -> Arena* { return _arena; }
 
        protected:
-        auto do_allocate(size_t bytes, size_t alignment) noexcept -> void* override {
-            return reinterpret_cast<char*>(_arena->allocateAligned(bytes, std::max(kByteSize, alignment)));
+        auto do_allocate(size_t bytes, size_t alignment) -> void* override {
+            char* ptr = _arena->allocateAligned(bytes, std::max(kByteSize, alignment));
+            // a memory_resource is not allowed to return nullptr
+            if (ptr == nullptr) [[unlikely]] {
+                throw std::bad_alloc{};
+            }
+            return ptr;
         }
 
         void do_deallocate([[maybe_unused]] void* /*unused*/, [[maybe_unused]] size_t /*unused*/,
-- 
2.43.0


From 0517b5cbc2a27e051ebcc16bafe557efff767625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 10/53] fix: render the metrics text while nothing was counted
 yet

---
 arena/metrics.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arena/metrics.hpp b/arena/metrics.hpp
index 2a66f49..67208c2 100644
--- a/arena/metrics.hpp
+++ b/arena/metrics.hpp
@@ -34,6 +34,7 @@
 
 #include <fmt/core.h>  // for format
 
+#include <algorithm>  // for max
 #include <array>   // for array, array<>::value_type
 #include <atomic>  // for atomic, memory_order, memory...
 #include <boost/assert/source_location.hpp>
@@ -146,14 +147,15 @@ struct GlobalArenaMetrics
         for (uint64_t i = 0, count = 0; i < kAllocBucketSize; i++) {
             count += alloc_size_bucket_counter.at(i);
             // count < alloc_count
-            str += fmt::format("\n  le={}: {}%", alloc_size_bucket.at(i), count * kPercentMagic / alloc_count);
+            str += fmt::format("\n  le={}: {}%", alloc_size_bucket.at(i), 
+                               count * kPercentMagic / std::max<uint64_t>(alloc_count, 1));
         }
 
         str += "\nLifetime distribution:";
         for (uint64_t i = 0, count = 0; i < kLifetimeBucketSize; i++) {
             count += destruct_lifetime_bucket_counter.at(i);
             str += fmt::format("\n  le={}ms: {}", destruct_lifetime_bucket.at(i).count(),
-                               (count * kPercentMagic) / destruct_count);
+                               (count * kPercentMagic) / std::max<uint64_t>(destruct_count, 1));
         }
 
         str += "\nArena Location/AllocSize:";  // TODO(longqimin): re-evaluate str.reserve size
-- 
2.43.0


From 2bc2f7f2bbbc144c539ce2569c436a11f534bcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 11/53] fix: concurrent reports race on the per-location map of
 the global metrics

---
 arena/metrics.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arena/metrics.hpp b/arena/metrics.hpp
index 67208c2..8689144 100644
--- a/arena/metrics.hpp
+++ b/arena/metrics.hpp
@@ -42,6 +42,7 @@
 #include <compare>        // for operator<=, strong_ordering
 #include <cstdint>        // for uint64_t, uint32_t
 #include <memory>         // for allocator, unique_ptr
+#include <mutex>          // for mutex, lock_guard
 #include <string>         // for string, char_traits, hash
 #include <typeinfo>       // for type_info
 #include <unordered_map>  // for unordered_map, operator==
@@ -104,6 +105,7 @@ struct GlobalArenaMetrics
     // atomic<uint64_t> destruct_lifetime_bucket_counter[kLifetimeBucketSize] = {0};
     std::array<atomic<uint64_t>, kLifetimeBucketSize> destruct_lifetime_bucket_counter{0};
     std::unordered_map<std::string, atomic<uint64_t>> arena_alloc_counter = {};  // arena identified by init() location
+    mutable std::mutex arena_alloc_mutex;  // guards the structure of arena_alloc_counter
 
     void reset() {  // lockless and races for metric-data is acceptable
         init_count.store(0, std::memory_order::relaxed);
@@ -121,6 +123,7 @@ struct GlobalArenaMetrics
         for (auto& counter : destruct_lifetime_bucket_counter) {
             counter.store(0, std::memory_order::relaxed);
         }
+        const std::lock_guard<std::mutex> guard(arena_alloc_mutex);
         for (auto& [key, counter] : arena_alloc_counter) {
             counter.store(0, std::memory_order::relaxed);
         }
@@ -159,6 +162,7 @@ struct GlobalArenaMetrics
         }
 
         str += "\nArena Location/AllocSize:";  // TODO(longqimin): re-evaluate str.reserve size
+        const std::lock_guard<std::mutex> guard(arena_alloc_mutex);
         for (const auto& [loc, counter] : arena_alloc_counter) {
             str += fmt::format("\n  {}: {}", loc, counter);
         }
@@ -251,6 +255,7 @@ struct LocalArenaMetrics
             global_arena_metrics.destruct_lifetime_bucket_counter.at(i).fetch_add(
               destruct_lifetime_bucket_counter.at(i), std::memory_order::relaxed);
         }
+        const std::lock_guard<std::mutex> guard(global_arena_metrics.arena_alloc_mutex);
         for (const auto& [loc, count] : arena_alloc_counter) {
             global_arena_metrics.arena_alloc_counter[loc].fetch_add(count, std::memory_order::relaxed);
         }
-- 
2.43.0


From 926e96273c2e959116d5c1ecc00d4c7560493c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:37 +0000
Subject: [PATCH 12/53] fix: copying or un-sharing a string throws bad_alloc
 instead of terminating

---
 string/string.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index c15d40f..a6aa293 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -330,7 +330,7 @@ class string_core
 
     explicit string_core(const std::allocator<Char>& /*noused*/) noexcept { reset(); }
 
-    string_core(const string_core& rhs) noexcept {
+    string_core(const string_core& rhs) {
         Assert(&rhs != this, "self copy is not allowed");
         // make sure all copy occur in same thread, or from a unshared string
         // if rhs is a unshared string, set the cpu_ to current thread_id
@@ -443,7 +443,7 @@ class string_core
 
     [[nodiscard]] auto data() noexcept -> Char* { return c_str(); }
 
-    auto mutableData() noexcept -> Char* {
+    auto mutableData() -> Char* {
         switch (category()) {
             case Category::isSmall:
                 return small_;
@@ -708,7 +708,7 @@ class string_core
     }
 
     void copySmall(const string_core& /*rhs*/) noexcept;
-    void copyMedium(const string_core& /*rhs*/) noexcept;
+    void copyMedium(const string_core& /*rhs*/);
     void copyLarge(const string_core& /*rhs*/) noexcept;
 
     void initSmall(const Char* data, size_t size) noexcept;
@@ -744,7 +744,7 @@ inline void string_core<Char>::copySmall(const string_core& rhs) noexcept {
 }
 
 template <class Char>
-void string_core<Char>::copyMedium(const string_core& rhs) noexcept {
+void string_core<Char>::copyMedium(const string_core& rhs) {
     // Medium strings are copied eagerly. Don't forget to allocate
     // one extra Char for the null terminator.
     //    auto const allocSize = goodMallocSize((1 + rhs.ml_.size_) * sizeof(Char));
@@ -1219,25 +1219,25 @@ class basic_string
     operator std::basic_string_view<value_type, traits_type>() const noexcept { return {data(), size()}; }
 
     // C++11 21.4.3 iterators:
-    auto begin() noexcept -> iterator { return store_.mutableData(); }
+    auto begin() -> iterator { return store_.mutableData(); }
 
     [[nodiscard]] auto begin() const noexcept -> const_iterator { return store_.data(); }
 
     [[nodiscard]] auto cbegin() const noexcept -> const_iterator { return begin(); }
 
-    auto end() noexcept -> iterator { return store_.mutableData() + store_.size(); }
+    auto end() -> iterator { return store_.mutableData() + store_.size(); }
 
     [[nodiscard]] auto end() const noexcept -> const_iterator { return store_.data() + store_.size(); }
 
     [[nodiscard]] auto cend() const noexcept -> const_iterator { return end(); }
 
-    auto rbegin() noexcept -> reverse_iterator { return reverse_iterator(end()); }
+    auto rbegin() -> reverse_iterator { return reverse_iterator(end()); }
 
     [[nodiscard]] auto rbegin() const noexcept -> const_reverse_iterator { return const_reverse_iterator(end()); }
 
     [[nodiscard]] auto crbegin() const noexcept -> const_reverse_iterator { return rbegin(); }
 
-    auto rend() noexcept -> reverse_iterator { return reverse_iterator(begin()); }
+    auto rend() -> reverse_iterator { return reverse_iterator(begin()); }
 
     [[nodiscard]] auto rend() const noexcept -> const_reverse_iterator { return const_reverse_iterator(begin()); }
 
@@ -1251,13 +1251,13 @@ class basic_string
         // Should be begin()[size() - 1], but that branches twice
         return *(end() - 1);
     }
-    auto front() noexcept -> value_type& { return *begin(); }
-    auto back() noexcept -> value_type& {
+    auto front() -> value_type& { return *begin(); }
+    auto back() -> value_type& {
         Assert(!empty(), "back() called on empty string");
         // Should be begin()[size() - 1], but that branches twice
         return *(end() - 1);
     }
-    void pop_back() noexcept {
+    void pop_back() {
         Assert(!empty(), "pop_back() called on empty string");
         store_.shrink(1);
     }
@@ -1296,7 +1296,7 @@ class basic_string
     // C++11 21.4.5 element access:
     auto operator[](size_type pos) const noexcept -> const_reference { return *(begin() + pos); }
 
-    auto operator[](size_type pos) noexcept -> reference { return *(begin() + pos); }
+    auto operator[](size_type pos) -> reference { return *(begin() + pos); }
 
     [[nodiscard]] auto at(size_type n) const -> const_reference {
         enforce<std::out_of_range>(n < size(), "");
-- 
2.43.0


From 2c83cb692340b29bcfd70567ef4196fb8bbfcff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:37 +0000
Subject: [PATCH 13/53] fix: a failed string reallocation keeps the old buffer
 its owner still refers to

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index a6aa293..b40eb77 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -103,7 +103,7 @@ inline auto checkedMalloc(size_t size) -> void* {
 inline auto checkedRealloc(void* ptr, size_t size) -> void* {
     auto* new_ptr = realloc(ptr, size);
     if (new_ptr == nullptr) {
-        free(ptr);
+        // ptr stays valid, and its owner still refers to it
         throw std::bad_alloc();
     }
     return new_ptr;
-- 
2.43.0


From d17bd2685a329df729ce0075202bd8092225d5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 14/53] fix: growing a string past SIZE_MAX throws length_error
 instead of wrapping around

---
 string/arena_string.hpp | 3 +++
 string/string.hpp       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index 011e18b..a8c089a 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -790,6 +790,9 @@ inline auto arena_string_core<Char>::expandNoinit(const size_t delta, bool expGr
     Assert(capacity() >= size(), "arena_string_core expandNoinit failed, capacity should ge than size");
     size_t oldSz = 0;
     size_t newSz = 0;
+    if (delta > std::numeric_limits<size_t>::max() - size()) [[unlikely]] {
+        throw std::length_error("");
+    }
     if (category() == Category::isSmall) {
         oldSz = smallSize();
         newSz = oldSz + delta;
diff --git a/string/string.hpp b/string/string.hpp
index b40eb77..890aace 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -953,6 +953,9 @@ inline auto string_core<Char>::expandNoinit(const size_t delta, bool expGrowth,
     Assert(capacity() >= size(), "expandNoinit should make sure new capacity >= size()");
     size_t oldSz = 0;
     size_t newSz = 0;
+    if (delta > std::numeric_limits<size_t>::max() - size()) [[unlikely]] {
+        throw std::length_error("");
+    }
     if (category() == Category::isSmall) {
         oldSz = smallSize();
         newSz = oldSz + delta;
-- 
2.43.0


From 98a8fe577c2a7379a2cb6c683c3a2c25a25d4942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 15/53] fix: inserting or replacing from iterators into the
 same string

---
 string/string.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/string/string.hpp b/string/string.hpp
index 890aace..6f10f9b 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2046,6 +2046,22 @@ inline auto basic_string<E, T, A, S>::insertImpl(const_iterator i, FwdIterator s
     Invariant checker(*this);
 
     Assert(i >= cbegin() && i <= cend(), "insertImpl()'s input iterator is out of range");
+    // A source that lies in this string is moved, or freed, before it is copied: take it aside first.
+    if constexpr (std::is_same_v<FwdIterator, iterator> || std::is_same_v<FwdIterator, const_iterator>) {
+        std::less_equal<const value_type*> le{};
+        if (s1 != s2 && le(cbegin(), s1) && le(s1, cend())) {
+            const basic_string temp(const_iterator(s1), const_iterator(s2), get_allocator());
+            return insertImpl(i, temp.cbegin(), temp.cend(), std::forward_iterator_tag());
+        }
+    } else if constexpr (!std::is_pointer_v<FwdIterator>) {
+        // e.g. a reverse iterator into this string
+        basic_string temp(get_allocator());
+        temp.reserve(size_t(std::distance(s1, s2)));
+        for (; s1 != s2; ++s1) {
+            temp.push_back(value_type(*s1));
+        }
+        return insertImpl(i, temp.cbegin(), temp.cend(), std::forward_iterator_tag());
+    }
     const size_type pos = size_t(i - cbegin());
     auto n = std::distance(s1, s2);
     Assert(n >= 0, "insert input range is invalid");
@@ -2139,6 +2155,15 @@ inline void basic_string<E, T, A, S>::replaceImpl(iterator i1, iterator i2, FwdI
     if (replaceAliased(i1, i2, s1, s2, Sel())) {
         return;
     }
+    if constexpr (!std::is_pointer_v<FwdIterator>) {
+        // e.g. a reverse iterator into this string
+        basic_string temp(get_allocator());
+        temp.reserve(size_t(std::distance(s1, s2)));
+        for (; s1 != s2; ++s1) {
+            temp.push_back(value_type(*s1));
+        }
+        return replaceImpl(i1, i2, temp.cbegin(), temp.cend(), std::forward_iterator_tag());
+    }
 
     auto const n1 = i2 - i1;
     Assert(n1 >= 0, "replaceImpl() failed, the origin range is invalid, first <= last promise was broken");
-- 
2.43.0


From 9154074085b15ec8798cfeb802f51622c477b0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 16/53] fix: contains(string_view) searches for the whole view,
 not up to its first zero

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index 6f10f9b..4c84c11 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1610,7 +1610,7 @@ class basic_string
     }
 
     [[nodiscard]] auto contains(std::basic_string_view<value_type> str) const noexcept -> bool {
-        return find(str.data()) != basic_string::npos;
+        return find(str.data(), 0, str.size()) != basic_string::npos;
     }
 
     [[nodiscard]] auto contains(const basic_string& str) const noexcept -> bool {
-- 
2.43.0


From 41aff37de57988fe2ad28a5c70f75fdc989e65e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 17/53] fix: operator>> of strings classifies blanks with the
 stream's locale and always resets the width

---
 string/string.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 4c84c11..1c63c7a 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -33,6 +33,7 @@
 #include <initializer_list>  // for initializer_list
 #include <iosfwd>            // for basic_istream
 #include <istream>           // for basic_istream, basic_ostream, __ost...
+#include <locale>            // for ctype, use_facet
 #include <iterator>          // for forward_iterator_tag, input_iterato...
 #include <limits>            // for numeric_limits
 #include <memory>            // for allocator_traits
@@ -2539,23 +2540,24 @@ inline auto operator>>(
     size_t extracted = 0;
     typename _istream_type::iostate err = _istream_type::goodbit;
     if (sentry) {
+        const auto& ctype = std::use_facet<std::ctype<E>>(is.getloc());
         int64_t n = is.width();
         if (n <= 0) {
             n = int64_t(str.max_size());
         }
         str.erase();
         for (auto got = is.rdbuf()->sgetc(); extracted != static_cast<size_t>(n); ++extracted) {
-            if (got == T::eof()) {
+            if (T::eq_int_type(got, T::eof())) {
                 err |= _istream_type::eofbit;
-                is.width(0);
                 break;
             }
-            if (isspace(got)) {
+            if (ctype.is(std::ctype_base::space, T::to_char_type(got))) {
                 break;
             }
-            str.push_back(got);
+            str.push_back(T::to_char_type(got));
             got = is.rdbuf()->snextc();
         }
+        is.width(0);
     }
     if (!extracted) {
         err |= _istream_type::failbit;
-- 
2.43.0


From ce6ef38436944c48a1bd3d7bc49ffeabfc75ce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 18/53] fix: getline into a string leaves a failed stream
 failed instead of clearing its state

---
 string/string.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/string/string.hpp b/string/string.hpp
index 1c63c7a..e008859 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1923,6 +1923,10 @@ inline auto basic_string<E, T, A, S>::getlineImpl(istream_type& is, value_type d
   typename basic_string<E, T, A, S>::istream_type& {
     Invariant checker(*this);
 
+    // A stream that is not good yields nothing: it gets failbit and the string stays as it is.
+    if (typename istream_type::sentry guard(is, true); !guard) {
+        return is;
+    }
     clear();
     size_t size = 0;
     while (true) {
-- 
2.43.0


From 474d2d464bc1a6e970abe2029c06552ff01df218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 19/53] fix: std::to_string of a string keeps characters behind
 an embedded zero

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index e008859..9dc04e9 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2805,7 +2805,7 @@ struct formatter<stdb::memory::string> : formatter<string_view>
 namespace std {
 
 [[gnu::always_inline, nodiscard]] inline auto to_string(const ::stdb::memory::string& str) noexcept -> std::string {
-    return {str.data()};
+    return {str.data(), str.size()};
 }
 
 }  // namespace std
-- 
2.43.0


From 9259787524279852aa65c562b3b5c7269a7c6a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 20/53] fix: operator<< writes strings longer than 2 GiB
 instead of a negative length

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index 9dc04e9..9f49798 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2599,7 +2599,7 @@ inline auto operator<<(
     // MSVC doesn't define __ostream_insert
     os.write(str.data(), static_cast<streamsize>(str.size()));
 #else
-    std::__ostream_insert(os, str.data(), int32_t(str.size()));
+    std::__ostream_insert(os, str.data(), static_cast<std::streamsize>(str.size()));
 #endif
     return os;
 }
-- 
2.43.0


From fca121bc371e7a620daf15bcfd237ca539bcae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:17 +0000
Subject: [PATCH 21/53] fix: getline into a string raises only for the final
 state of the stream

---
 string/string.hpp | 49 ++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 9f49798..cc2bd54 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1929,29 +1929,38 @@ inline auto basic_string<E, T, A, S>::getlineImpl(istream_type& is, value_type d
     }
     clear();
     size_t size = 0;
-    while (true) {
-        size_t avail = capacity() - size;
-        // string has 1 byte extra capacity for the null terminator,
-        // and getline null-terminates the read string.
-        is.getline(store_.expandNoinit(avail), avail + 1, delim);
-        size += is.gcount();
-
-        if (is.bad() || is.eof() || !is.fail()) {
-            // Done by either failure, end of file, or normal read.
-            if (!is.bad() && !is.eof()) {
-                --size;  // gcount() also accounts for the delimiter.
+    // The failures of the partial reads below are not the caller's business: only the final state may raise.
+    const auto raising = is.exceptions();
+    is.exceptions(istream_type::goodbit);
+    try {
+        while (true) {
+            size_t avail = capacity() - size;
+            // string has 1 byte extra capacity for the null terminator,
+            // and getline null-terminates the read string.
+            is.getline(store_.expandNoinit(avail), avail + 1, delim);
+            size += is.gcount();
+
+            if (is.bad() || is.eof() || !is.fail()) {
+                // Done by either failure, end of file, or normal read.
+                if (!is.bad() && !is.eof()) {
+                    --size;  // gcount() also accounts for the delimiter.
+                }
+                resize(size);
+                break;
             }
-            resize(size);
-            break;
-        }
 
-        Assert(size == this->size(), "getlineImpl() failed to walk through the total str size");
-        Assert(size == capacity(), "getlineImpl() failed to walk through the total capacity");
-        // Start at minimum allocation 63 + terminator = 64.
-        reserve(std::max<size_t>(63, 3 * size / 2));
-        // Clear the error so we can continue reading.
-        is.clear();
+            Assert(size == this->size(), "getlineImpl() failed to walk through the total str size");
+            Assert(size == capacity(), "getlineImpl() failed to walk through the total capacity");
+            // Clear the error so we can continue reading.
+            is.clear();
+            // Start at minimum allocation 63 + terminator = 64.
+            reserve(std::max<size_t>(63, 3 * size / 2));
+        }
+    } catch (...) {
+        is.exceptions(raising);
+        throw;
     }
+    is.exceptions(raising);
     return is;
 }
 
-- 
2.43.0


From c8a69c0bbff4daa874a05a8648e283902fb9b435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 22/53] fix: replacing from an arena string's own iterators
 stays in its arena

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index cc2bd54..b5db21d 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2150,7 +2150,7 @@ inline auto basic_string<E, T, A, S>::replaceAliased(iterator i1, iterator i2, F
         return false;
     }
     // Aliased replace, copy to new string
-    basic_string temp;
+    basic_string temp(get_allocator());
     temp.reserve(size() - size_t(i2 - i1) + size_t(std::distance(s1, s2)));
     temp.append(begin(), i1).append(s1, s2).append(i2, end());
     swap(temp);
-- 
2.43.0


From db5972a6e68e5b093a0acc53bf7959a135922e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 23/53] fix: assigning a character to a shared arena string
 stays in its arena

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index b5db21d..96794c2 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1802,7 +1802,7 @@ inline auto basic_string<E, T, A, S>::operator=(value_type c) -> basic_string<E,
     if (empty()) {
         store_.expandNoinit(1);
     } else if (store_.isShared()) {
-        basic_string(1, c).swap(*this);
+        basic_string(1, c, get_allocator()).swap(*this);
         return *this;
     } else {
         store_.shrink(size() - 1);
-- 
2.43.0


From f0453454f31119d9518d458ba82053b80b9e5369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 24/53] fix: swapping strings of two arenas swaps their arenas
 too

---
 string/arena_string.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index a8c089a..411702f 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -187,6 +187,12 @@ class arena_string_core
         auto const t = ml_;  // NOLINT
         ml_ = rhs.ml_;       // NOLINT
         rhs.ml_ = t;         // NOLINT
+        if (allocator_ != rhs.allocator_) [[unlikely]] {
+            // The storage stays in its arena, so the arenas change hands too.
+            auto const allocator = allocator_;
+            std::construct_at(&allocator_, rhs.allocator_);
+            std::construct_at(&rhs.allocator_, allocator);
+        }
 #if not defined(NDEBUG) && defined(CROSS_THREAD_CHECKING)
         std::swap(cpu_, rhs.cpu_);
 #endif
-- 
2.43.0


From 705dfb3c6273fe16eb5ccef90be479e1942b5629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:36 +0000
Subject: [PATCH 25/53] fix: appending a view to an arena string stays in its
 arena

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index 96794c2..cb646d7 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1315,7 +1315,7 @@ class basic_string
     // C++11 21.4.6 modifiers:
     auto operator+=(const basic_string& str) -> basic_string& { return append(str); }
 
-    auto operator+=(std::basic_string_view<value_type> str) -> basic_string& { return append(str); }
+    auto operator+=(std::basic_string_view<value_type> str) -> basic_string& { return append(str.data(), str.size()); }
 
     auto operator+=(const value_type* s) -> basic_string& { return append(s); }
 
-- 
2.43.0


From 79af3d15884d818341352d229230cb6c830a5740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 26/53] fix: vector copies a range byte-wise only when it is an
 array of its elements

Any random-access range was copied with memcpy from the address of its first
element, so ranges from deques, reverse iterators or of another value type
gave wrong elements; forward and input ranges did not compile.
---
 container/stdb_vector.hpp | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 072e086..16a991a 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -40,6 +40,7 @@
 #include <cstring>
 #include <iterator>
 #include <limits>
+#include <memory>
 #include <new>
 #include <span>
 #include <stdexcept>
@@ -161,18 +162,22 @@ template <typename T>
     }
 }
 
+// the elements of [first, last) are adjacent objects of type T, so they can be copied as bytes.
+template <typename It, typename T>
+concept PointerCompatibleIterator =
+  std::contiguous_iterator<It> and std::is_same_v<std::remove_cv_t<std::iter_value_t<It>>, T>;
+
+// the size of [first, last) can be computed and the range still be walked afterwards.
 template <typename It>
-concept PointerCompatibleIterator = std::is_pointer_v<It> or std::random_access_iterator<It>;
+concept MultiPassIterator = std::forward_iterator<It> or std::sized_sentinel_for<It, It>;
 
 template <typename T, typename Iterator>
 [[gnu::always_inline]] inline void copy_from_iterator(T* __restrict__ dst, Iterator first, Iterator last) {
     Assert(dst != nullptr, "copy_from_iterator dst can not be nullptr");
     Assert(first != last, "copy_from_iterator first can not accept empty range means (first == last)");
 
-    if constexpr (IsRelocatable<T> and PointerCompatibleIterator<Iterator>) {
-        if (get_ptr_from_iter(first) < get_ptr_from_iter(last)) [[likely]] {
-            std::memcpy(dst, get_ptr_from_iter(first), static_cast<size_t>(last - first) * sizeof(T));
-        }
+    if constexpr (IsRelocatable<T> and PointerCompatibleIterator<Iterator, T>) {
+        std::memcpy(dst, std::to_address(first), static_cast<size_t>(last - first) * sizeof(T));
     } else {
         for (; first != last; ++first, ++dst) {
             new (dst) T(*first);
@@ -558,7 +563,7 @@ class stdb_vector : public core<T>
 
     template <std::forward_iterator InputIt>
     constexpr stdb_vector(InputIt first, InputIt last) : core<T>() {
-        int64_t size = last - first;
+        int64_t size = std::distance(first, last);
         // if size == 0, then do nothing.and just for caller convenience.
         Assert(size >= 0, "stdb_vector should be constructed with non-negative size");
         Assert((size_type)size <= this->max_size(), "stdb_vector size should be smaller than max_size");
@@ -1280,10 +1285,26 @@ class stdb_vector : public core<T>
         return iterator(pos_ptr);
     }
 
+    // a range which can be walked only once is collected first, because its size is needed.
+    template <Safety safety = Safety::Safe, class InputIt>
+        requires std::input_iterator<InputIt> && (!MultiPassIterator<InputIt>)
+    constexpr auto insert(const_iterator pos, InputIt first, InputIt last) -> iterator {
+        stdb_vector collected;
+        for (; first != last; ++first) {
+            collected.emplace_back(*first);
+        }
+        if constexpr (std::is_move_constructible_v<T>) {
+            return insert<safety>(pos, std::make_move_iterator(collected.begin()),
+                                  std::make_move_iterator(collected.end()));
+        } else {
+            return insert<safety>(pos, collected.begin(), collected.end());
+        }
+    }
+
     template <Safety safety = Safety::Safe, class InputIt>
-        requires std::input_iterator<InputIt>
+        requires std::input_iterator<InputIt> && MultiPassIterator<InputIt>
     constexpr auto insert(const_iterator pos, InputIt first, InputIt last) -> iterator {
-        int64_t count = last - first;
+        int64_t count = std::distance(first, last);
         if (count == 0) [[unlikely]] {
             return iterator((T*)get_ptr_from_iter(pos));  // NOLINT
         }
-- 
2.43.0


From ef9598bdda7fa2fc1413179e0f99c0b7d9fca8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 27/53] fix: vector copies relocatable elements with their copy
 constructor

A type may be relocatable (moved by memcpy) and still own something: copying
it by memcpy or assigning it to raw memory or to a destroyed element made two
elements own the same thing.
---
 container/stdb_vector.hpp | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 16a991a..c988822 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -127,7 +127,8 @@ template <typename T>
     Assert(dst != src, "copy_range should not be called with same dst and src");
     Assert(src < src_end, "src should always before src_end");
     // if is trivial_copyable, use memcpy is faster.
-    if constexpr (IsRelocatable<T>) {
+    // a relocatable type may be moved by memcpy, but its copies have to be made by its copy constructor.
+    if constexpr (std::is_trivially_copyable_v<T>) {
         std::memcpy(dst, src, (size_t)(src_end - src) * sizeof(T));  // NOLINT
         return dst + (src_end - src);
     } else {
@@ -142,24 +143,17 @@ template <typename T>
     requires std::is_trivially_copyable_v<T> or std::is_nothrow_move_constructible_v<T>
 [[gnu::always_inline]] inline void copy_value(T* __restrict__ dst, T value) {
     Assert(dst != nullptr, "dst can not be nullptr");
-    if constexpr (IsRelocatable<T>) {
-        *dst = value;
-    } else {
-        static_assert(std::is_nothrow_move_constructible_v<T>);
-        new (dst) T(std::move(value));
-    }
+    // dst is raw memory, there is no object to be assigned.
+    new (dst) T(std::move(value));
 }
 
 template <typename T>
     requires std::is_object_v<T>
 [[gnu::always_inline]] inline void copy_cref(T* __restrict__ dst, const T& value) {
     Assert(dst != nullptr, "dst can not be nullptr");
-    if constexpr (IsRelocatable<T>) {
-        *dst = value;
-    } else {
-        static_assert(std::is_copy_constructible_v<T>);
-        new (dst) T(value);
-    }
+    // dst is raw memory, there is no object to be assigned.
+    static_assert(std::is_copy_constructible_v<T>);
+    new (dst) T(value);
 }
 
 // the elements of [first, last) are adjacent objects of type T, so they can be copied as bytes.
@@ -176,7 +170,7 @@ template <typename T, typename Iterator>
     Assert(dst != nullptr, "copy_from_iterator dst can not be nullptr");
     Assert(first != last, "copy_from_iterator first can not accept empty range means (first == last)");
 
-    if constexpr (IsRelocatable<T> and PointerCompatibleIterator<Iterator, T>) {
+    if constexpr (std::is_trivially_copyable_v<T> and PointerCompatibleIterator<Iterator, T>) {
         std::memcpy(dst, std::to_address(first), static_cast<size_t>(last - first) * sizeof(T));
     } else {
         for (; first != last; ++first, ++dst) {
@@ -493,12 +487,10 @@ class core
         // if dst == src, no need to move
         Assert(dst != src, "move_backward should not be called with same dst and src");
 
-        T* dst_end = dst + (_finish - 1 - src);
+        [[maybe_unused]] T* dst_end = dst + (_finish - 1 - src);
         if constexpr (IsRelocatable<T>) {
             // trivially backward move
-            for (T* src_end = _finish - 1; src_end >= src;) [[likely]] {
-                *(dst_end--) = *(src_end--);
-            }
+            std::memmove(static_cast<void*>(dst), src, static_cast<size_t>(_finish - src) * sizeof(T));
         } else if constexpr (std::is_move_constructible_v<T>) {
             // do not support throwable move constructor.
             static_assert(std::is_nothrow_move_constructible_v<T>);
@@ -1028,13 +1020,14 @@ class stdb_vector : public core<T>
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (*src != value) {
                     if (dst != src) {
-                        *dst = *src;
+                        std::memcpy(static_cast<void*>(dst), src, sizeof(T));
                     }
                     ++dst;
                 }
                 // if the *src is equal to the value we want to erase, move forward src only
                 else {
                     ++erased;
+                    destroy_ptr(src);
                 }
                 ++src;
             }
@@ -1098,13 +1091,14 @@ class stdb_vector : public core<T>
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (!pred(*src)) {
                     if (dst != src) {
-                        *dst = *src;
+                        std::memcpy(static_cast<void*>(dst), src, sizeof(T));
                     }
                     ++dst;
                 }
                 // if the *src is equal to the value we want to erase, move forward src only
                 else {
                     ++erased;
+                    destroy_ptr(src);
                 }
                 ++src;
             }
-- 
2.43.0


From 121cc868d2231b02d04cb29b0d8c2e2d104b20b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 28/53] fix: vector assigns and inserts nothing when asked for
 zero elements

assign with an empty range left the old size over destroyed elements, and
assign(0, value) and insert(pos, 0, value) failed an assertion.
---
 container/stdb_vector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index c988822..d1a2e26 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -602,7 +602,9 @@ class stdb_vector : public core<T>
         }
         this->_finish = this->_start + count;
         // construct data with value
-        construct_range_with_cref(this->_start, this->_finish, value);
+        if (count > 0) [[likely]] {
+            construct_range_with_cref(this->_start, this->_finish, value);
+        }
     }
 
     template <std::forward_iterator Iterator>
@@ -622,8 +624,8 @@ class stdb_vector : public core<T>
             this->destroy();
             if (count > 0) [[likely]] {
                 copy_from_iterator(this->_start, first, last);
-                this->_finish = this->_start + count;
             }
+            this->_finish = this->_start + count;
         }
     }
 
@@ -1255,10 +1257,12 @@ class stdb_vector : public core<T>
 
     template <Safety safety = Safety::Safe>
     constexpr auto insert(const_iterator pos, size_type count, const_reference value) -> iterator {
-        Assert(count > 0, "count should be larger than 0");
         Assert(pos >= cbegin() && pos <= cend(), "pos should be in [begin(), end())");
         auto size = this->size();
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
+        if (count == 0) [[unlikely]] {
+            return iterator(pos_ptr);
+        }
         if constexpr (safety == Safety::Safe) {
             if (size + count > this->capacity()) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
-- 
2.43.0


From fc35fca300204a34feb8566dd1becea93db1d720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 29/53] fix: vector write buffers have room behind the existing
 elements

get_writebuffer reallocated to the size of the buffer alone, so the buffer
reached beyond the allocation (or the elements did not fit).
---
 container/stdb_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index d1a2e26..347e4f0 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -905,8 +905,8 @@ class stdb_vector : public core<T>
     template <Safety safety = Safety::Safe>
     [[nodiscard, gnu::always_inline]] auto get_writebuffer(size_type buf_size) -> std::span<T> {
         if constexpr (safety == Safety::Safe) {
-            if (buf_size + this->_finish > this->_edge) {
-                this->realloc_with_old_data(compute_new_capacity(buf_size));
+            if (buf_size > this->capacity() - this->size()) {
+                this->realloc_with_old_data(compute_new_capacity(buf_size + this->size()));
             }
         }
         auto buf = std::span<T>(this->_finish, buf_size);
-- 
2.43.0


From e4bc7bec8df84cde0848d1fde42757ea9e4b4081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 30/53] fix: vector of very large elements can grow from empty

For elements of more than 128 KiB the first capacity was computed as zero.
---
 container/stdb_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 347e4f0..a99b97f 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -1406,7 +1406,7 @@ class stdb_vector : public core<T>
         // the capacity is larger than a page,
         // so we can just double it to use whole pages.
         // NOLINTNEXTLINE
-        if (cap >= 4096 * 32 / sizeof(T)) [[likely]] {
+        if (cap >= 4096 * 32 / sizeof(T) and cap > 0) [[likely]] {
             return cap * 2;
         }
         return core<T>::kFastVectorInitCapacity;
-- 
2.43.0


From 5cd5b6354409e938213c7e3895093faffb28da94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 31/53] fix: vector keeps its elements when memory can not be
 allocated

Several paths did not check malloc, others had already forgotten or destroyed
the elements when it failed, and byte counts of impossible sizes overflowed.
---
 container/stdb_vector.hpp | 84 +++++++++++++++++++++++----------------
 1 file changed, 50 insertions(+), 34 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index a99b97f..31735df 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -254,6 +254,21 @@ template <typename T>
     }
 }
 
+/*
+ * allocate memory for count elements, throw std::bad_alloc if failed or if there can not be so many.
+ */
+template <typename T>
+[[nodiscard, gnu::always_inline]] inline auto allocate_memory(std::size_t count) -> T* {
+    if (count > kFastVectorMaxSize / sizeof(T)) [[unlikely]] {
+        throw std::bad_alloc();
+    }
+    auto* ptr = static_cast<T*>(std::malloc(count * sizeof(T)));
+    if (ptr == nullptr) [[unlikely]] {
+        throw std::bad_alloc();
+    }
+    return ptr;
+}
+
 /*
  * realloc memory, if failed, throw std::bad_alloc, then move the old memory to new memory.
  * if new_size < old_size, the extra elements will be destroyed.
@@ -266,13 +281,10 @@ auto realloc_with_move(T*& __restrict__ ptr, std::size_t old_size, std::size_t n
     // after shrink_to_fit with zero size, the ptr may be nullptr.
     if (ptr == nullptr) {
         Assert(old_size == 0, "ptr is nullptr, but old_size is not zero");
-        return ptr = static_cast<T*>(std::malloc(new_size * sizeof(T)));
+        return ptr = allocate_memory<T>(new_size);
     }
     Assert(new_size > 0, "new_size should be larger than zero");
-    auto new_ptr = static_cast<T*>(std::malloc(new_size * sizeof(T)));
-    if (new_ptr == nullptr) [[unlikely]] {
-        throw std::bad_alloc();
-    }
+    auto new_ptr = allocate_memory<T>(new_size);
     T* new_finish = move_range_without_overlap(new_ptr, ptr, ptr + std::min(old_size, new_size));
     std::free(ptr);
     ptr = new_ptr;
@@ -302,11 +314,10 @@ class core
    public:
     [[gnu::always_inline]] void allocate(size_type cap) {
         Assert(cap > 0, "allocate cap should be larger than zero");
-        if (_start = static_cast<T*>(std::malloc(cap * sizeof(T))); _start != nullptr) [[likely]] {
-            _edge = _start + cap;
-        } else {
-            throw std::bad_alloc();
-        }
+        // nothing is changed if there is no memory.
+        _start = allocate_memory<T>(cap);
+        _finish = _start;
+        _edge = _start + cap;
     }
 
     core() : _start(nullptr), _finish(nullptr), _edge(nullptr) {}
@@ -346,14 +357,9 @@ class core
         auto new_size = other.size();
         if (new_size > capacity()) {
             // if other's size is larger than current capacity, we need to reallocate memory
-            // destroy old data
-            destroy_range(_start, _finish);
-            // free old memory
-            std::free(_start);
-            // allocate new memory
-            allocate(new_size);
-            // copy data
-            _finish = copy_range(_start, other._start, other._finish);
+            // the old data is kept until the copy is complete.
+            core copied(other);
+            this->swap(copied);
         } else {
             // if other's size is smaller than current capacity, we can just copy data
             // destroy old data
@@ -433,24 +439,27 @@ class core
         // no check new_cap because it will be checked in caller.
         auto old_size = size();
         Assert(new_cap > old_size, "new_cap should be larger than old_size, or it will cause data loss");
-        // backup old _start, _finish, _edge
-        auto* old_start = _start;
-        auto* old_finish = _finish;
-        allocate(new_cap);
-        // copy old data
-        _finish = _start + old_size;
-        new (_finish++) T(std::forward<Args>(args)...);
+        auto* new_start = allocate_memory<T>(new_cap);
+        // args may refer to the old data, so construct the new element first.
+        new (new_start + old_size) T(std::forward<Args>(args)...);
         if (old_size > 0) {
-            (void)move_range_without_overlap(_start, old_start, old_finish);
+            (void)move_range_without_overlap(new_start, _start, _finish);
         }
         // free the original buffer finally.
-        std::free(old_start);
+        std::free(_start);
+        _start = new_start;
+        _finish = _start + old_size + 1;
+        _edge = _start + new_cap;
         return;
     }
 
     [[gnu::always_inline]] auto realloc_drop_old_data(size_type new_cap) -> T* {
-        this->~core();
-        allocate(new_cap);
+        // the old data is dropped only if there is memory for the new.
+        auto* new_start = allocate_memory<T>(new_cap);
+        destroy_range(_start, _finish);
+        std::free(_start);
+        _start = _finish = new_start;
+        _edge = _start + new_cap;
         return _start;
     }
 
@@ -890,8 +899,8 @@ class stdb_vector : public core<T>
     void fill(size_type (*filler)(T*)) {
         if constexpr (safety == Safety::Safe) {
             auto to_fill = filler(nullptr);
-            if (to_fill + this->size() > this->capacity()) [[unlikely]] {
-                this->realloc_with_old_data(compute_new_capacity(to_fill + size()));
+            if (to_fill > this->capacity() - this->size()) [[unlikely]] {
+                this->realloc_with_old_data(compute_new_capacity(size_with(to_fill)));
             }
             this->_finish += filler(this->_finish);
         } else {
@@ -906,7 +915,7 @@ class stdb_vector : public core<T>
     [[nodiscard, gnu::always_inline]] auto get_writebuffer(size_type buf_size) -> std::span<T> {
         if constexpr (safety == Safety::Safe) {
             if (buf_size > this->capacity() - this->size()) {
-                this->realloc_with_old_data(compute_new_capacity(buf_size + this->size()));
+                this->realloc_with_old_data(compute_new_capacity(size_with(buf_size)));
             }
         }
         auto buf = std::span<T>(this->_finish, buf_size);
@@ -1264,9 +1273,9 @@ class stdb_vector : public core<T>
             return iterator(pos_ptr);
         }
         if constexpr (safety == Safety::Safe) {
-            if (size + count > this->capacity()) [[unlikely]] {
+            if (count > this->capacity() - size) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
-                reserve(compute_new_capacity(size + count));
+                reserve(compute_new_capacity(size_with(count)));
                 pos_ptr = this->_start + pos_index;
             }
         }
@@ -1388,6 +1397,13 @@ class stdb_vector : public core<T>
     }
 
    private:
+    // the size with extra more elements, throw std::bad_alloc if there can not be so many.
+    [[nodiscard, gnu::always_inline]] inline auto size_with(size_type extra) const -> size_type {
+        if (extra > max_size() - size()) [[unlikely]] {
+            throw std::bad_alloc();
+        }
+        return size() + extra;
+    }
     [[nodiscard, gnu::always_inline]] inline auto compute_new_capacity(size_type new_size) const -> size_type {
         Assert(new_size > capacity(), "new_size should larger than old cap, or no need to compute new cap");
         if (auto next_capacity = compute_next_capacity(); next_capacity > new_size) {
-- 
2.43.0


From b3a2f81d94b825bddb8eb5e37be40beb9109f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 32/53] fix: vector stays valid when an element can not be
 constructed

The end was advanced before construction, so an element constructor which
threw (a string copy without memory) left a dead element inside the vector,
and elements constructed before it, or moved aside for it, were lost.
---
 container/stdb_vector.hpp | 179 +++++++++++++++++++++++++++-----------
 1 file changed, 127 insertions(+), 52 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 31735df..6524ff7 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -90,6 +90,32 @@ template <typename Iterator>
     }
 }
 
+template <typename T>
+[[gnu::always_inline]] inline void destroy_range(T* __restrict__ begin, T* __restrict__ end) noexcept;
+
+/*
+ * destroys the elements of [first, current) if an exception leaves the scope before release.
+ */
+template <typename T>
+class construct_guard
+{
+   private:
+    T* _first;
+    T* const& _current;
+    bool _released = false;
+
+   public:
+    [[gnu::always_inline]] construct_guard(T* first, T* const& current) : _first(first), _current(current) {}
+    construct_guard(const construct_guard&) = delete;
+    auto operator=(const construct_guard&) -> construct_guard& = delete;
+    [[gnu::always_inline]] ~construct_guard() {
+        if (not _released) {
+            destroy_range(_first, _current);
+        }
+    }
+    [[gnu::always_inline]] void release() { _released = true; }
+};
+
 template <typename T>
 [[gnu::always_inline]] inline void construct_range(T* __restrict__ first, T* __restrict__ last) {
     Assert(first != nullptr and last != nullptr, "first and last can not be nullptr");
@@ -98,9 +124,12 @@ template <typename T>
         // set zero to all bytes.
         std::memset(first, 0, static_cast<size_t>(last - first) * sizeof(T));
     } else {
-        for (; first != last; ++first) {
-            new (first) T();
+        T* current = first;
+        construct_guard<T> guard(first, current);
+        for (; current != last; ++current) {
+            new (current) T();
         }
+        guard.release();
     }
 }
 
@@ -114,9 +143,12 @@ template <typename T>
     if constexpr (sizeof(T) == sizeof(char)) {
         std::memset(first, static_cast<int>(value), static_cast<size_t>(last - first) * sizeof(T));
     } else {
-        for (; first != last; ++first) {
-            new (first) T(value);
+        T* current = first;
+        construct_guard<T> guard(first, current);
+        for (; current != last; ++current) {
+            new (current) T(value);
         }
+        guard.release();
     }
 }
 
@@ -132,10 +164,13 @@ template <typename T>
         std::memcpy(dst, src, (size_t)(src_end - src) * sizeof(T));  // NOLINT
         return dst + (src_end - src);
     } else {
-        for (; src != src_end; ++src, ++dst) {
-            new (dst) T(*src);
+        T* current = dst;
+        construct_guard<T> guard(dst, current);
+        for (; src != src_end; ++src, ++current) {
+            new (current) T(*src);
         }
-        return dst;
+        guard.release();
+        return current;
     }
 }
 
@@ -173,9 +208,12 @@ template <typename T, typename Iterator>
     if constexpr (std::is_trivially_copyable_v<T> and PointerCompatibleIterator<Iterator, T>) {
         std::memcpy(dst, std::to_address(first), static_cast<size_t>(last - first) * sizeof(T));
     } else {
-        for (; first != last; ++first, ++dst) {
-            new (dst) T(*first);
+        T* current = dst;
+        construct_guard<T> guard(dst, current);
+        for (; first != last; ++first, ++current) {
+            new (current) T(*first);
         }
+        guard.release();
     }
 }
 
@@ -333,14 +371,10 @@ class core
         }
     }
 
-    core(const core& rhs) {
+    core(const core& rhs) : core() {
         if (rhs.size() > 0) [[likely]] {
             allocate(rhs.size());
-            auto size = rhs.size();
-            copy_range(_start, rhs._start, rhs._finish);
-            _finish = _start + size;
-        } else {
-            _start = _finish = _edge = nullptr;
+            _finish = copy_range(_start, rhs._start, rhs._finish);
         }
     }
 
@@ -364,11 +398,10 @@ class core
             // if other's size is smaller than current capacity, we can just copy data
             // destroy old data
             destroy_range(_start, _finish);
+            _finish = _start;
             // copy data
             if (new_size > 0) [[likely]] {
                 _finish = copy_range(_start, other._start, other._finish);
-            } else {
-                _finish = _start;
             }
             // _edge is not changed
         }
@@ -439,17 +472,16 @@ class core
         // no check new_cap because it will be checked in caller.
         auto old_size = size();
         Assert(new_cap > old_size, "new_cap should be larger than old_size, or it will cause data loss");
-        auto* new_start = allocate_memory<T>(new_cap);
+        core grown(0, new_cap);
         // args may refer to the old data, so construct the new element first.
-        new (new_start + old_size) T(std::forward<Args>(args)...);
+        new (grown._start + old_size) T(std::forward<Args>(args)...);
         if (old_size > 0) {
-            (void)move_range_without_overlap(new_start, _start, _finish);
+            (void)move_range_without_overlap(grown._start, _start, _finish);
         }
-        // free the original buffer finally.
-        std::free(_start);
-        _start = new_start;
-        _finish = _start + old_size + 1;
-        _edge = _start + new_cap;
+        grown._finish = grown._start + old_size + 1;
+        // the original buffer is freed finally, nothing is left in it.
+        _finish = _start;
+        this->swap(grown);
         return;
     }
 
@@ -550,15 +582,17 @@ class stdb_vector : public core<T>
     /*
      * constructor with capacity
      */
-    constexpr explicit stdb_vector(std::size_t size) : core<T>(size, size) {
+    constexpr explicit stdb_vector(std::size_t size) : core<T>(0, size) {
         if (size > 0) {
-            construct_range(this->_start, this->_finish);
+            construct_range(this->_start, this->_edge);
+            this->_finish = this->_edge;
         }
     }
 
-    constexpr stdb_vector(std::size_t size, const T& value) : core<T>(size, size) {
+    constexpr stdb_vector(std::size_t size, const T& value) : core<T>(0, size) {
         if (size > 0) {
-            construct_range_with_cref(this->_start, this->_finish, value);
+            construct_range_with_cref(this->_start, this->_edge, value);
+            this->_finish = this->_edge;
         }
     }
 
@@ -607,13 +641,13 @@ class stdb_vector : public core<T>
         } else {
             // if count is smaller than current capacity, we can just copy data
             // clear old data
-            this->destroy();
+            this->clear();
         }
-        this->_finish = this->_start + count;
         // construct data with value
         if (count > 0) [[likely]] {
-            construct_range_with_cref(this->_start, this->_finish, value);
+            construct_range_with_cref(this->_start, this->_start + count, value);
         }
+        this->_finish = this->_start + count;
     }
 
     template <std::forward_iterator Iterator>
@@ -630,7 +664,7 @@ class stdb_vector : public core<T>
         } else {
             // if count is smaller than current capacity, we can just copy data
             // clear old data
-            this->destroy();
+            this->clear();
             if (count > 0) [[likely]] {
                 copy_from_iterator(this->_start, first, last);
             }
@@ -931,13 +965,15 @@ class stdb_vector : public core<T>
     void push_back(const value_type& value) {
         if constexpr (safety == Safety::Safe) {
             if (!this->full()) [[likely]] {
-                copy_cref(this->_finish++, std::forward<const value_type&>(value));
+                copy_cref(this->_finish, std::forward<const value_type&>(value));
+                ++this->_finish;
             } else {
                 this->realloc_and_emplace_back(compute_next_capacity(), std::forward<const_reference>(value));
             }
         } else {
             Assert(not this->full(), "push_back should not be called with full vector");
-            copy_cref(this->_finish++, std::forward<const_reference&>(value));
+            copy_cref(this->_finish, std::forward<const_reference&>(value));
+            ++this->_finish;
         }
     }
 
@@ -946,13 +982,15 @@ class stdb_vector : public core<T>
     void push_back(value_type&& value) {
         if constexpr (safety == Safety::Safe) {
             if (!this->full()) [[likely]] {
-                copy_value(this->_finish++, std::forward<value_type&&>(value));
+                copy_value(this->_finish, std::forward<value_type&&>(value));
+                ++this->_finish;
             } else {
                 this->realloc_and_emplace_back(compute_next_capacity(), std::forward<rvalue_reference>(value));
             }
         } else {
             Assert(not this->full(), "push_back should not be called with full vector");
-            copy_value(this->_finish++, std::forward<rvalue_reference>(value));
+            copy_value(this->_finish, std::forward<rvalue_reference>(value));
+            ++this->_finish;
         }
     }
 
@@ -960,14 +998,16 @@ class stdb_vector : public core<T>
     auto emplace_back(Args&&... args) -> iterator {
         if constexpr (safety == Safety::Safe) {
             if (!this->full()) [[likely]] {
-                this->construct_at(this->_finish++, std::forward<Args>(args)...);
+                this->construct_at(this->_finish, std::forward<Args>(args)...);
+                ++this->_finish;
             } else {
                 this->realloc_and_emplace_back(compute_next_capacity(), std::forward<Args>(args)...);
             }
             return iterator{this->_finish - 1};
         } else {
             Assert(not this->full(), "emplace_back should not be called with full vector");
-            this->construct_at(this->_finish++, std::forward<Args>(args)...);
+            this->construct_at(this->_finish, std::forward<Args>(args)...);
+            ++this->_finish;
             return iterator{this->_finish - 1};
         }
     }
@@ -1173,12 +1213,9 @@ class stdb_vector : public core<T>
             }
             if constexpr (safety == Safety::Safe) {
                 // construct the new elements
-                auto* old_end = this->_finish;
-                this->_finish = this->_start + count;
-                construct_range(old_end, this->_finish);
-            } else {
-                this->_finish = this->_start + count;
+                construct_range(this->_finish, this->_start + count);
             }
+            this->_finish = this->_start + count;
 
         } else {
             // destroy the elements that are not needed anymore
@@ -1194,10 +1231,8 @@ class stdb_vector : public core<T>
             if (count > this->capacity()) {
                 this->realloc_with_old_data(count);
             }
-            // destroy the elements that are not needed anymore
-            auto* old_end = this->_finish;
+            construct_range_with_cref(this->_finish, this->_start + count, value);
             this->_finish = this->_start + count;
-            construct_range_with_cref(old_end, this->_finish, value);
         } else {
             // destroy the elements that are not needed anymore
             auto* old_end = this->_finish;
@@ -1222,7 +1257,8 @@ class stdb_vector : public core<T>
         Assert(not this->full(), "insert should not be called with full vector");
         // insert value to the end pos
         if (pos_ptr == this->_finish) [[unlikely]] {
-            copy_cref(this->_finish++, value);
+            copy_cref(this->_finish, value);
+            ++this->_finish;
             return iterator(pos_ptr);
         }
         // move all elements after pos to the right, with backward direction, because have overlap
@@ -1231,7 +1267,9 @@ class stdb_vector : public core<T>
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
+        gap_guard gap(*this, pos_ptr, 1);
         copy_cref(pos_ptr, value);
+        gap.release();
         ++this->_finish;
         return iterator(pos_ptr);
     }
@@ -1250,7 +1288,8 @@ class stdb_vector : public core<T>
         Assert(not this->full(), "insert should not be called with full vector, it should be reserve first");
         // insert value to the end pos
         if (pos_ptr == this->_finish) [[unlikely]] {
-            copy_value(this->_finish++, std::move(value));
+            copy_value(this->_finish, std::move(value));
+            ++this->_finish;
             return iterator((T*)(pos_ptr));  // NOLINT
         }
         if (pos_ptr < this->_finish - 1) [[likely]] {
@@ -1259,8 +1298,10 @@ class stdb_vector : public core<T>
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
-        ++this->_finish;
+        gap_guard gap(*this, pos_ptr, 1);
         copy_value(pos_ptr, std::move(value));
+        gap.release();
+        ++this->_finish;
         return iterator(pos_ptr);
     }
 
@@ -1287,7 +1328,9 @@ class stdb_vector : public core<T>
         } else {
             this->move_backward(pos_ptr + count, pos_ptr);
         }
+        gap_guard gap(*this, pos_ptr, count);
         construct_range_with_cref(pos_ptr, pos_ptr + count, value);
+        gap.release();
         this->_finish += count;
         return iterator(pos_ptr);
     }
@@ -1335,7 +1378,9 @@ class stdb_vector : public core<T>
         } else {
             this->move_backward(pos_ptr + count, pos_ptr);
         }
+        gap_guard gap(*this, pos_ptr, size_to_insert);
         copy_from_iterator(pos_ptr, first, last);
+        gap.release();
         this->_finish += size_to_insert;
         return iterator(pos_ptr);
     }
@@ -1359,7 +1404,8 @@ class stdb_vector : public core<T>
         }
         Assert(not this->full(), "emplace should not be called with full vector");
         if (pos_ptr == this->_finish) [[unlikely]] {
-            new (this->_finish++) T(std::forward<Args>(args)...);
+            new (this->_finish) T(std::forward<Args>(args)...);
+            ++this->_finish;
             return iterator(pos_ptr);
         }
         if (pos_ptr < this->_finish - 1) [[likely]] {
@@ -1367,7 +1413,9 @@ class stdb_vector : public core<T>
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
+        gap_guard gap(*this, pos_ptr, 1);
         new (pos_ptr) T(std::forward<Args>(args)...);
+        gap.release();
         ++this->_finish;
         return iterator(pos_ptr);
     }
@@ -1383,7 +1431,8 @@ class stdb_vector : public core<T>
         T* pos_ptr = this->_start + pos;
 
         if (pos_ptr == this->_finish) [[unlikely]] {
-            new (this->_finish++) T(std::forward<Args>(args)...);
+            new (this->_finish) T(std::forward<Args>(args)...);
+            ++this->_finish;
             return iterator(pos_ptr);
         }
         if (pos_ptr < this->_finish - 1) [[likely]] {
@@ -1391,12 +1440,38 @@ class stdb_vector : public core<T>
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
+        gap_guard gap(*this, pos_ptr, 1);
         new (pos_ptr) T(std::forward<Args>(args)...);
+        gap.release();
         ++this->_finish;
         return iterator(pos_ptr);
     }
 
    private:
+    /*
+     * [pos, end()) was moved by count elements to make room, if the room can not be filled because an exception leaves
+     * the scope before release, it is moved back.
+     */
+    class gap_guard
+    {
+       private:
+        stdb_vector& _vec;
+        T* _pos;
+        size_type _count;
+        bool _released = false;
+
+       public:
+        gap_guard(stdb_vector& vec, T* pos, size_type count) : _vec(vec), _pos(pos), _count(count) {}
+        gap_guard(const gap_guard&) = delete;
+        auto operator=(const gap_guard&) -> gap_guard& = delete;
+        ~gap_guard() {
+            if (not _released) {
+                move_range_forward(_pos, _pos + _count, _vec._finish + _count);
+            }
+        }
+        void release() { _released = true; }
+    };
+
     // the size with extra more elements, throw std::bad_alloc if there can not be so many.
     [[nodiscard, gnu::always_inline]] inline auto size_with(size_type extra) const -> size_type {
         if (extra > max_size() - size()) [[unlikely]] {
-- 
2.43.0


From 837d60da263d691481cbf2e609122fbea4e703e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 33/53] fix: vector operations accept values which are elements
 of the vector

insert, emplace, assign, resize and erase by value read the value after its
element was moved, overwritten, destroyed or its buffer freed.
---
 container/stdb_vector.hpp | 83 ++++++++++++++++++++++++++-------------
 1 file changed, 56 insertions(+), 27 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 6524ff7..d7954e6 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -38,6 +38,7 @@
 #include <cstdint>
 #include <cstdlib>
 #include <cstring>
+#include <functional>
 #include <iterator>
 #include <limits>
 #include <memory>
@@ -634,6 +635,12 @@ class stdb_vector : public core<T>
     ~stdb_vector() = default;
 
     constexpr void assign(std::size_t count, const T& value) {
+        if (count > 0 and this->owns(value)) [[unlikely]] {
+            // value lives in the old data, keep it.
+            const T kept(value);
+            assign(count, kept);
+            return;
+        }
         // cleanup old data
         if (count > this->capacity()) {
             // if count is larger than current capacity, we need to reallocate memory
@@ -1065,6 +1072,12 @@ class stdb_vector : public core<T>
     }
 
     auto erase(const value_type& value) -> size_type {  // NOLINT
+        if (this->owns(value)) [[unlikely]] {
+            // value is going to be destroyed or overwritten on the way, keep it.
+            const T* value_ptr = std::addressof(value);
+            const T kept = copy_or_take(value);
+            return erase_if([&](const T& elem) { return std::addressof(elem) == value_ptr || !(elem != kept); });
+        }
         if constexpr (IsRelocatable<T>) {
             size_t erased = 0;
             for (auto *src = this->_start, *dst = this->_start; src != this->_finish;) {
@@ -1229,6 +1242,11 @@ class stdb_vector : public core<T>
         // no checking count == _size, because very unlikely, and it's not a big deal
         if (count > this->size()) {
             if (count > this->capacity()) {
+                if (this->owns(value)) [[unlikely]] {
+                    // value lives in the old data, keep it.
+                    const T kept(value);
+                    return resize(count, kept);
+                }
                 this->realloc_with_old_data(count);
             }
             construct_range_with_cref(this->_finish, this->_start + count, value);
@@ -1246,6 +1264,11 @@ class stdb_vector : public core<T>
     template <Safety safety = Safety::Safe>
     constexpr auto insert(const_iterator pos, const_reference value) -> iterator {
         Assert(pos >= cbegin() && pos <= cend(), "pos should be in [begin(), end())");
+        if (this->owns(value)) [[unlikely]] {
+            // value is going to be moved, keep it.
+            const T kept(value);
+            return insert<safety>(pos, kept);
+        }
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
@@ -1277,6 +1300,11 @@ class stdb_vector : public core<T>
     template <Safety safety = Safety::Safe>
     constexpr auto insert(const_iterator pos, rvalue_reference value) -> iterator {
         Assert((pos >= cbegin()) && (pos <= cend()), "pos should be in [begin(), end())");
+        if (this->owns(value)) [[unlikely]] {
+            // value is going to be moved, keep it.
+            T kept(std::move(value));
+            return insert<safety>(pos, std::move(kept));
+        }
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
@@ -1313,6 +1341,11 @@ class stdb_vector : public core<T>
         if (count == 0) [[unlikely]] {
             return iterator(pos_ptr);
         }
+        if (this->owns(value)) [[unlikely]] {
+            // value is going to be moved, keep it.
+            const T kept(value);
+            return insert<safety>(pos, count, kept);
+        }
         if constexpr (safety == Safety::Safe) {
             if (count > this->capacity() - size) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
@@ -1394,6 +1427,11 @@ class stdb_vector : public core<T>
     template <Safety safety = Safety::Safe, typename... Args>
     constexpr auto emplace(iterator pos, Args&&... args) -> iterator {
         T* pos_ptr = get_ptr_from_iter(pos);
+        if (pos_ptr == this->_finish) [[unlikely]] {
+            return emplace_back<safety>(std::forward<Args>(args)...);
+        }
+        // args may refer to elements which are going to be moved, so construct the new element first.
+        T made(std::forward<Args>(args)...);
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
                 difference_type pos_offset = pos_ptr - this->_start;
@@ -1403,18 +1441,17 @@ class stdb_vector : public core<T>
             }
         }
         Assert(not this->full(), "emplace should not be called with full vector");
-        if (pos_ptr == this->_finish) [[unlikely]] {
-            new (this->_finish) T(std::forward<Args>(args)...);
-            ++this->_finish;
-            return iterator(pos_ptr);
-        }
         if (pos_ptr < this->_finish - 1) [[likely]] {
             this->move_backward(pos_ptr + 1, pos_ptr);
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
         gap_guard gap(*this, pos_ptr, 1);
-        new (pos_ptr) T(std::forward<Args>(args)...);
+        if constexpr (std::is_move_constructible_v<T>) {
+            new (pos_ptr) T(std::move(made));
+        } else {
+            new (pos_ptr) T(made);
+        }
         gap.release();
         ++this->_finish;
         return iterator(pos_ptr);
@@ -1422,32 +1459,24 @@ class stdb_vector : public core<T>
 
     template <Safety safety = Safety::Safe, typename... Args>
     constexpr auto emplace(size_type pos, Args&&... args) -> iterator {
-        if constexpr (safety == Safety::Safe) {
-            if (this->full()) [[unlikely]] {
-                reserve(compute_next_capacity());
-            }
-        }
-        Assert(not this->full(), "emplace should not be called with full vector");
-        T* pos_ptr = this->_start + pos;
+        return emplace<safety>(iterator(this->_start + pos), std::forward<Args>(args)...);
+    }
 
-        if (pos_ptr == this->_finish) [[unlikely]] {
-            new (this->_finish) T(std::forward<Args>(args)...);
-            ++this->_finish;
-            return iterator(pos_ptr);
-        }
-        if (pos_ptr < this->_finish - 1) [[likely]] {
-            this->move_backward(pos_ptr + 1, pos_ptr);
+   private:
+    // is value an element of this vector?
+    [[nodiscard, gnu::always_inline]] inline auto owns(const T& value) const -> bool {
+        const T* ptr = std::addressof(value);
+        return not std::less<const T*>()(ptr, this->_start) and std::less<const T*>()(ptr, this->_finish);
+    }
+
+    [[nodiscard]] static auto copy_or_take(const T& value) -> T {
+        if constexpr (std::is_copy_constructible_v<T>) {
+            return T(value);
         } else {
-            this->move_forward(pos_ptr + 1, pos_ptr);
+            return T(std::move(const_cast<T&>(value)));  // NOLINT
         }
-        gap_guard gap(*this, pos_ptr, 1);
-        new (pos_ptr) T(std::forward<Args>(args)...);
-        gap.release();
-        ++this->_finish;
-        return iterator(pos_ptr);
     }
 
-   private:
     /*
      * [pos, end()) was moved by count elements to make room, if the room can not be filled because an exception leaves
      * the scope before release, it is moved back.
-- 
2.43.0


From c5e53d2f7c571bd98833589afae2401d077427da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 34/53] fix: vector destroys elements it has moved from

Elements moved to another place were never destroyed, so whatever a type still
owns after being moved (or copied, if it has no move constructor) leaked.
---
 container/stdb_vector.hpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index d7954e6..1bc9dbb 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -91,6 +91,15 @@ template <typename Iterator>
     }
 }
 
+template <typename T>
+[[gnu::always_inline]] inline void destroy_ptr(T* __restrict__ ptr) noexcept {
+    if constexpr (std::is_trivially_destructible_v<T>) {
+        // do nothing.
+    } else {
+        ptr->~T();
+    }
+}
+
 template <typename T>
 [[gnu::always_inline]] inline void destroy_range(T* __restrict__ begin, T* __restrict__ end) noexcept;
 
@@ -218,15 +227,6 @@ template <typename T, typename Iterator>
     }
 }
 
-template <typename T>
-[[gnu::always_inline]] inline void destroy_ptr(T* __restrict__ ptr) noexcept {
-    if constexpr (std::is_trivially_destructible_v<T>) {
-        // do nothing.
-    } else {
-        ptr->~T();
-    }
-}
-
 template <typename T>
 [[gnu::always_inline]] inline void destroy_range(T* __restrict__ begin, T* __restrict__ end) noexcept {
     if constexpr (std::is_trivially_destructible_v<T>) {
@@ -253,6 +253,7 @@ template <typename T>
     } else if constexpr (std::is_move_constructible_v<T>) {
         for (; src != src_end; ++src, ++dst) {
             new (dst) T(std::move(*src));
+            destroy_ptr(src);
         }
         return dst;
     } else {
@@ -281,6 +282,7 @@ template <typename T>
         // call move constructor
         for (; src != src_end; ++src, ++dst) {
             new (dst) T(std::move(*src));
+            destroy_ptr(src);
         }
 
     } else {
@@ -537,8 +539,9 @@ class core
             // do not support throwable move constructor.
             static_assert(std::is_nothrow_move_constructible_v<T>);
             // backward move
-            for (T* src_end = _finish - 1; src_end >= src;) [[likely]] {
-                new (dst_end--) T(std::move(*(src_end--)));
+            for (T* src_end = _finish - 1; src_end >= src; --dst_end, --src_end) [[likely]] {
+                new (dst_end) T(std::move(*src_end));
+                destroy_ptr(src_end);
             }
         } else {
             // backward copy
@@ -1105,6 +1108,7 @@ class stdb_vector : public core<T>
                 if (*src != value) {
                     if (dst != src) {
                         new (dst) T(std::move(*src));
+                        destroy_ptr(src);
                     }
                     ++dst;
                 }
@@ -1176,6 +1180,7 @@ class stdb_vector : public core<T>
                 if (!pred(*src)) {
                     if (dst != src) {
                         new (dst) T(std::move(*src));
+                        destroy_ptr(src);
                     }
                     ++dst;
                 }
-- 
2.43.0


From 10647bdd53a3ccac43547ef2cad92cd5ba3ed081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 35/53] fix: vector fills with one-byte classes by copying them

A class of one byte was converted to int and its number used as the byte to
fill with; classes without such a conversion did not compile.
---
 container/stdb_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 1bc9dbb..e53e526 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -150,7 +150,7 @@ template <typename T>
     Assert(first != nullptr and last != nullptr, "first and last can not be nullptr");
     Assert(first < last, "first should always before last");
     static_assert(std::is_copy_constructible_v<T>);
-    if constexpr (sizeof(T) == sizeof(char)) {
+    if constexpr (sizeof(T) == sizeof(char) and std::is_scalar_v<T>) {
         std::memset(first, static_cast<int>(value), static_cast<size_t>(last - first) * sizeof(T));
     } else {
         T* current = first;
-- 
2.43.0


From 896bdfdd10b8f7b5967fd382ab64f6aeae37bab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 36/53] fix: vector iterators take negative offsets in
 operator[]

---
 container/stdb_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index e53e526..ed96fd9 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -862,7 +862,7 @@ class stdb_vector : public core<T>
 
         [[nodiscard, gnu::always_inline]] constexpr inline auto operator->() const noexcept -> pointer { return _ptr; }
 
-        [[nodiscard, gnu::always_inline]] constexpr inline auto operator[](std::size_t pos) const noexcept
+        [[nodiscard, gnu::always_inline]] constexpr inline auto operator[](difference_type pos) const noexcept
           -> reference {
             return *(_ptr + pos);
         }
-- 
2.43.0


From 5e2e75f0c7b973ab5902bc8dbfb38defbcc11347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 37/53] fix: vector initialises pointers to members to null

The null pointer to a data member is not represented by zero bytes.
---
 container/stdb_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index ed96fd9..461181a 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -70,7 +70,8 @@ concept IsRelocatable =
 
 template <typename T>
 concept IsZeroInitable =
-  std::is_trivially_default_constructible_v<T> || not std::is_class<T>::value || ZeroInitable<T>::value;
+  (std::is_trivially_default_constructible_v<T> || not std::is_class<T>::value || ZeroInitable<T>::value) &&
+  not std::is_member_pointer_v<T>;
 
 enum class Safety : bool
 {
-- 
2.43.0


From e2a690bc84c89ddb68dcc393585ebe84bb4be004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 38/53] fix: vectors are ordered as their elements are

Vectors which differ at an element that is not a number compared as equal by
<=> (so <= and >= held) although they were different by ==.
---
 container/stdb_vector.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 461181a..19460ef 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -34,6 +34,8 @@
 #include <fmt/format.h>
 #include <fmt/ranges.h>
 
+#include <algorithm>
+#include <compare>
 #include <concepts>
 #include <cstdint>
 #include <cstdlib>
@@ -1552,6 +1554,14 @@ auto operator==(const stdb_vector<T>& lhs, const stdb_vector<T>& rhs) -> bool {
     return true;
 }
 
+// elements which have an order of their own keep it, they may even be unordered (not a number).
+template <typename T>
+    requires std::three_way_comparable<T>
+auto operator<=>(const stdb_vector<T>& lhs, const stdb_vector<T>& rhs) -> std::compare_three_way_result_t<T> {
+    return std::lexicographical_compare_three_way(lhs.data(), lhs.data() + lhs.size(), rhs.data(),
+                                                  rhs.data() + rhs.size());
+}
+
 template <typename T>
 auto operator<=>(const stdb_vector<T>& lhs, const stdb_vector<T>& rhs) -> std::strong_ordering {
     for (std::size_t i = 0; i < std::min(lhs.size(), rhs.size()); ++i) {
-- 
2.43.0


From a3a5517813f94af0207984d7b23c6879d1b988c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 39/53] fix: vector does not declare the overlapping ranges it
 shifts as restrict

With both pointers restrict the compiler may turn memmove into memcpy, which
corrupts elements when an insertion or erasure shifts them by less than their
length.
---
 container/stdb_vector.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 19460ef..a9fe8e3 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -270,8 +270,7 @@ template <typename T>
 }
 
 template <typename T>
-[[gnu::always_inline]] inline void move_range_forward(T* __restrict__ dst, T* __restrict__ src,
-                                                      T* __restrict__ src_end) {
+[[gnu::always_inline]] inline void move_range_forward(T* dst, T* src, T* src_end) {
     Assert(src != nullptr and dst != nullptr, "src and dst can not be nullptr");
     // src == src_end means no data to move
     // it will occur in erase the whole vector.
@@ -515,19 +514,19 @@ class core
     }
 
     // move [src, end()) to dst start range from front to end
-    [[gnu::always_inline]] void move_forward(T* __restrict__ dst, T* __restrict__ src) {
+    [[gnu::always_inline]] void move_forward(T* dst, T* src) {
         Assert(dst != src, "move_forward should not be called with same dst and src");
         move_range_forward(dst, src, _finish);
     }
 
     // move [src, end()) to dst start range from front to end
-    [[gnu::always_inline]] void move_forward(const T* __restrict__ dst, const T* __restrict__ src) {
+    [[gnu::always_inline]] void move_forward(const T* dst, const T* src) {
         Assert(dst != src, "move_forward should not be called with same dst and src");
         move_range_forward(const_cast<T*>(dst), const_cast<T*>(src), _finish);  // NOLINT
     }
 
     // move [src, end()) to dst start range from end to front
-    void move_backward(T* __restrict__ dst, T* __restrict__ src) {
+    void move_backward(T* dst, T* src) {
         Assert(dst != nullptr && src != nullptr, "dst and src can not be nullptr");
         // if src == _finish or src == _finish -1, just use move_forward
         Assert(src < (_finish - 1), "src should always before _finish - 1, or can not move backward");
-- 
2.43.0


From 70e959be343189124211add213e45870bab5cabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 40/53] fix: an option value which is blank is zero instead of
 indeterminate

---
 optparse/optparse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 1437a65..307dba9 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -275,7 +275,7 @@ concept OptValue = std::is_same_v<T, bool> or std::is_same_v<T, int32_t> or std:
 
 template <OptValue T>
 auto parse_string(const string& str) -> T {
-    T val;
+    T val{};  // stays zero if there is nothing to read
     std::stringstream sst(str.data());
     sst >> val;
     return val;
-- 
2.43.0


From 5b563ec5d467f20fdb9c45aad55aea52476bd9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 41/53] fix: option parsers with a conflict handler check their
 prefix and use it for long names

---
 optparse/optparse.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 307dba9..e70f8e0 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -98,8 +98,9 @@ OptionParser::OptionParser(char prefix) : _prefix(prefix) {
 
 OptionParser::OptionParser(stdb::optparse::ConflictHandler handler) : _conflict_handler(handler) {}
 
-OptionParser::OptionParser(char prefix, stdb::optparse::ConflictHandler handler)
-    : _prefix{prefix}, _conflict_handler{handler} {}
+OptionParser::OptionParser(char prefix, stdb::optparse::ConflictHandler handler) : OptionParser(prefix) {
+    _conflict_handler = handler;
+}
 
 auto OptionParser::extract_option_type(const string& opt) const -> OptionType {
     if (opt.size() > 2 and opt.substr(0, 2) == _long_prefix) {
-- 
2.43.0


From 5f240de9e7cd0fad2681bf831d5c35702c73d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 42/53] fix: a refused option registration leaves the option
 parser as it was

---
 optparse/optparse.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index e70f8e0..26a6f43 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -125,26 +125,33 @@ auto OptionParser::extract_arg_type(const string& arg) const -> OptionType {
 }
 
 auto OptionParser::add_option(stdb::optparse::Option option) -> Option& {
-    _options.emplace_back(std::move(option));
-    // register all names for the option.
-    for (const auto& name : _options.back().names()) {
+    if (option.names().empty()) {
+        throw std::logic_error("an option needs a name");
+    }
+    // register all names for the option, in copies: if one of them is refused, nothing is registered.
+    auto short_option_map = _short_option_map;
+    auto long_option_map = _long_option_map;
+    for (const auto& name : option.names()) {
         auto type = extract_option_type(name);
         if (type == OptionType::ShortOpt) {
-            if (_conflict_handler == ConflictHandler::Error and _short_option_map.contains(name)) {
+            if (_conflict_handler == ConflictHandler::Error and short_option_map.contains(name)) {
                 throw std::logic_error(fmt::format("Short option {} is already registered", name));
             }
             // if the ConflictHandler is Replace, we will replace the old option with the new one.
-            _short_option_map[name] = _options.size() - 1;
+            short_option_map[name] = _options.size();
         } else if (type == OptionType::LongOpt) {
-            if (_conflict_handler == ConflictHandler::Error and _long_option_map.contains(name)) {
+            if (_conflict_handler == ConflictHandler::Error and long_option_map.contains(name)) {
                 throw std::logic_error(fmt::format("Long option {} is already registered", name));
             }
             // if the ConflictHandler is Replace, we will replace the old option with the new one.
-            _long_option_map[name] = _options.size() - 1;
+            long_option_map[name] = _options.size();
         } else {
             throw std::logic_error(fmt::format("Invalid option name: {}", name));
         }
     }
+    _options.emplace_back(std::move(option));
+    _short_option_map.swap(short_option_map);
+    _long_option_map.swap(long_option_map);
 
     return _options.back();
 }
-- 
2.43.0


From 228e3c5e6e1bc06c1491e1b9617590f63677a441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 43/53] fix: parsing keeps the version text set by the caller

---
 optparse/optparse.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 26a6f43..c55e9a5 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -193,7 +193,9 @@ auto OptionParser::add_usage_option(string usage_msg) -> void {
 }
 
 auto OptionParser::add_version_option(stdb::optparse::string version_msg) -> void {
-    _version = std::move(version_msg);
+    if (not version_msg.empty()) {
+        _version = std::move(version_msg);
+    }
     auto short_version_name = fmt::format("{}v", _prefix);
     auto long_version_name = fmt::format("{}version", _long_prefix);
     if (not _short_option_map.contains(short_version_name) and not _long_option_map.contains(long_version_name)) {
-- 
2.43.0


From 62e2d9c0e9628bacb9e7f207ee8f5183f2e52110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 44/53] fix: a counted option which was given does not count
 its default and environment too

---
 optparse/optparse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optparse/optparse.hpp b/optparse/optparse.hpp
index c5f3533..a90ba7d 100644
--- a/optparse/optparse.hpp
+++ b/optparse/optparse.hpp
@@ -105,6 +105,7 @@ class ValueStore
         } else {
             _values[key] = std::get<int>(vit->second) + 1;
         }
+        _usr_set.insert(key);
     }
 
     template <typename T>
-- 
2.43.0


From f2f1fbab4a21fe842045816a9890d0f143b9bed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 45/53] fix: usage and version texts follow options and program
 names set after they were first asked for

---
 optparse/optparse.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index c55e9a5..8787331 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -565,27 +565,28 @@ auto to_upper(string& input) -> void {
 
 auto OptionParser::format_usage() -> string {
     if (_usage.empty()) {
-        // enrich the _usage message.
-        _usage = fmt::format("usage: {}", _program);
+        // generated every time, the options and the program may change.
+        auto usage_msg = fmt::format("usage: {}", _program);
         for (auto& opt : _options) {
             if (opt.type() == Type::Bool) {
                 auto upper_dest = opt.dest();
                 to_upper(upper_dest);
                 auto opt_msg = fmt::format(" [{} {}]", opt.names().front(), upper_dest);
-                _usage += std::string_view{opt_msg};
+                usage_msg += std::string_view{opt_msg};
             } else {
                 auto opt_msg = fmt::format(" [{}]", opt.names().front());
-                _usage += std::string_view{opt_msg};
+                usage_msg += std::string_view{opt_msg};
             }
         }
-        _usage += "\n";
+        usage_msg += "\n";
+        return usage_msg;
     }
     return _usage;
 }
 
 auto OptionParser::format_verison() -> string {
     if (_version.empty()) {
-        _version = fmt::format("{} : {}", _program, "0.0.0");
+        return fmt::format("{} : {}", _program, "0.0.0");
     }
     return _version;
 }
-- 
2.43.0


From 4b835d0dab114a145a23cde5510af260d06a5343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 46/53] fix: help text of a parser without options

---
 optparse/optparse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 8787331..0e47792 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -619,7 +619,7 @@ auto OptionParser::format_help() -> string {
       std::max_element(line_and_helps.begin(), line_and_helps.end(),
                        [](auto& lhs, auto& rhs) -> bool { return rhs.first.size() > lhs.first.size(); });
 
-    const auto align_size = max_line->first.size() + 1;
+    const auto align_size = max_line == line_and_helps.end() ? 0 : max_line->first.size() + 1;
     auto content = fmt::format("{} \n options: \n", format_usage());
     for (const auto& [line, help] : line_and_helps) {
         const int space_width = align_size - line.size();
-- 
2.43.0


From 9e66d311c2d45d4f1c4650535cc31d19d0e3cb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 47/53] fix: options of a copied or moved parser do not look at
 the parser they were created by

---
 optparse/optparse.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 0e47792..964b0ef 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -76,7 +76,8 @@ auto Option::validate() -> bool {
     // if _dest is empty, we will use the first long option name as the _dest.
     if (_dest.empty()) {
         for (const auto& nnn : _names) {
-            if (_parser.extract_option_type(nnn) == OptionType::LongOpt) {
+            // like OptionParser::extract_option_type, but the parser may have been copied or moved since.
+            if (nnn.size() > 2 and nnn[0] == nnn[1]) {
                 _dest = nnn.substr(2);
                 break;
             }
-- 
2.43.0


From 94cf145e76251d705bf2f1d821f7729ade53af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 48/53] fix: parsing a list of strings remembers the argument
 vector they come from

---
 optparse/optparse.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 964b0ef..954fbba 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -221,14 +221,14 @@ auto OptionParser::parse_args(int argc, const char** argv) -> ValueStore {
     if (_program.empty()) {
         _program.assign(argv[0]);  // NOLINT(cppcoreguidelines-pro-bounds-pointer-arithmetic)
     }
-    _argc = argc;
-    _argv = argv;
     return parse_args({&argv[1], &argv[argc]}, argv);  // NOLINT(cppcoreguidelines-pro-bounds-pointer-arithmetic)
 }
 
 auto OptionParser::parse_args(vector<stdb::optparse::string> args, const char** argv) -> ValueStore {
     // once parse args, clear all invalid_args
     _invalid_args.clear();
+    _argc = static_cast<int>(args.size()) + 1;
+    _argv = argv;
     for (auto& opt : _options) {
         if (not opt.validate()) {
             throw std::logic_error(fmt::format("incomplete option: {}", opt.names().front()));
-- 
2.43.0


From 654aaff709b48f59ebbee34f566315633285b6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 49/53] fix: an option named by two prefix characters is found

---
 optparse/optparse.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 954fbba..0d98ee4 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -426,7 +426,8 @@ auto OptionParser::has_value_to_process(string current_arg, const ArgList& args)
 }
 
 auto OptionParser::find_opt(string opt_name) -> Option* {
-    if (opt_name.starts_with(_long_prefix)) {
+    // names are told apart as they are when they are registered
+    if (extract_option_type(opt_name) == OptionType::LongOpt) {
         if (auto opt_it = _long_option_map.find(opt_name); opt_it != _long_option_map.end()) [[likely]] {
             return &_options[opt_it->second];
         }
-- 
2.43.0


From edb0bcd04aa78cba208711f4e1bf78e47b1ee6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:27 +0000
Subject: [PATCH 50/53] fix: vector closes the gap when a predicate or
 comparison throws while erasing

---
 container/stdb_vector.hpp | 69 ++++++++++++++++++++++++++++++++-------
 1 file changed, 57 insertions(+), 12 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index a9fe8e3..6014454 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -1085,7 +1085,10 @@ class stdb_vector : public core<T>
         }
         if constexpr (IsRelocatable<T>) {
             size_t erased = 0;
-            for (auto *src = this->_start, *dst = this->_start; src != this->_finish;) {
+            T* src = this->_start;
+            T* dst = this->_start;
+            const erase_guard guard(*this, dst, src);
+            while (src != this->_finish) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (*src != value) {
                     if (dst != src) {
@@ -1100,12 +1103,13 @@ class stdb_vector : public core<T>
                 }
                 ++src;
             }
-            this->_finish -= erased;
             return erased;
         } else if constexpr (std::is_move_constructible_v<T>) {
             size_t erased = 0;
+            T* src = this->_start;
             T* dst = this->_start;
-            for (T* src = this->_start; src != this->_finish;) {
+            const erase_guard guard(*this, dst, src);
+            while (src != this->_finish) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (*src != value) {
                     if (dst != src) {
@@ -1121,13 +1125,14 @@ class stdb_vector : public core<T>
                 }
                 ++src;
             }
-            this->_finish -= erased;
             return erased;
         } else {
             static_assert(std::is_copy_constructible_v<T>, "Cannot erase from a vector of non-copyable types");
             size_t erased = 0;
+            T* src = this->_start;
             T* dst = this->_start;
-            for (T* src = this->_start; src != this->_finish;) {
+            const erase_guard guard(*this, dst, src);
+            while (src != this->_finish) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (*src != value) {
                     if (dst != src) {
@@ -1144,7 +1149,6 @@ class stdb_vector : public core<T>
                 }
                 ++src;
             }
-            this->_finish -= erased;
             return erased;
         }
     }
@@ -1157,7 +1161,10 @@ class stdb_vector : public core<T>
     auto erase_if(Pred pred) -> size_type {  // NOLINT
         if constexpr (IsRelocatable<T>) {
             size_t erased = 0;
-            for (auto *src = this->_start, *dst = this->_start; src != this->_finish;) {
+            T* src = this->_start;
+            T* dst = this->_start;
+            const erase_guard guard(*this, dst, src);
+            while (src != this->_finish) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (!pred(*src)) {
                     if (dst != src) {
@@ -1172,12 +1179,13 @@ class stdb_vector : public core<T>
                 }
                 ++src;
             }
-            this->_finish -= erased;
             return erased;
         } else if constexpr (std::is_move_constructible_v<T>) {
             size_t erased = 0;
+            T* src = this->_start;
             T* dst = this->_start;
-            for (T* src = this->_start; src != this->_finish;) {
+            const erase_guard guard(*this, dst, src);
+            while (src != this->_finish) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (!pred(*src)) {
                     if (dst != src) {
@@ -1193,13 +1201,14 @@ class stdb_vector : public core<T>
                 }
                 ++src;
             }
-            this->_finish -= erased;
             return erased;
         } else {
             static_assert(std::is_copy_constructible_v<T>, "Cannot erase from a vector of non-copyable types");
             size_t erased = 0;
+            T* src = this->_start;
             T* dst = this->_start;
-            for (T* src = this->_start; src != this->_finish;) {
+            const erase_guard guard(*this, dst, src);
+            while (src != this->_finish) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (!pred(*src)) {
                     if (dst != src) {
@@ -1215,7 +1224,6 @@ class stdb_vector : public core<T>
                 }
                 ++src;
             }
-            this->_finish -= erased;
             return erased;
         }
     }
@@ -1508,6 +1516,43 @@ class stdb_vector : public core<T>
         void release() { _released = true; }
     };
 
+    /*
+     * The elements of [dst, src) were erased or moved away, the vector ends at dst when the scope is left. If an
+     * exception leaves it before src reaches the end, the elements which were not looked at follow.
+     */
+    class erase_guard
+    {
+       private:
+        stdb_vector& _vec;
+        T*& _dst;
+        T*& _src;
+
+       public:
+        erase_guard(stdb_vector& vec, T*& dst, T*& src) : _vec(vec), _dst(dst), _src(src) {}
+        erase_guard(const erase_guard&) = delete;
+        auto operator=(const erase_guard&) -> erase_guard& = delete;
+        ~erase_guard() {
+            if (_dst == _src) {
+                return;
+            }
+            if constexpr (IsRelocatable<T>) {
+                const auto rest = static_cast<size_type>(_vec._finish - _src);
+                std::memmove(static_cast<void*>(_dst), _src, rest * sizeof(T));
+                _dst += rest;
+            } else {
+                for (; _src != _vec._finish; ++_src, ++_dst) {
+                    if constexpr (std::is_move_constructible_v<T>) {
+                        new (_dst) T(std::move(*_src));
+                    } else {
+                        new (_dst) T(*_src);
+                    }
+                    destroy_ptr(_src);
+                }
+            }
+            _vec._finish = _dst;
+        }
+    };
+
     // the size with extra more elements, throw std::bad_alloc if there can not be so many.
     [[nodiscard, gnu::always_inline]] inline auto size_with(size_type extra) const -> size_type {
         if (extra > max_size() - size()) [[unlikely]] {
-- 
2.43.0


From 407e64a1ec2fd3aca079797e072f81157825d6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:18 +0000
Subject: [PATCH 51/53] fix: an arena without a logger survives impossible
 sizes, which are all reported to one

The logger is null by default, but was called unconditionally.
---
 arena/arena.cc  |  3 ++-
 arena/arena.hpp | 13 +++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index a15f3ee..3f94068 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -65,7 +65,7 @@ auto Arena::newBlock(uint64_t min_bytes, Block* prev_block) noexcept -> Arena::B
     if (min_bytes > std::numeric_limits<uint64_t>::max() - kBlockHeaderSize) {
         auto output_message = fmt::format(
           "newBlock need too many min_bytes : {}, it add kBlockHeaderSize more than uint64_t max.", min_bytes);
-        _options.logger_func(output_message);
+        log(output_message);
         return nullptr;
     }
 
@@ -140,6 +140,7 @@ void Arena::Block::Reset() noexcept {
 auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char* {
     // no block can hold it, and the calculations below would overflow.
     if (bytes > std::numeric_limits<uint64_t>::max() - kBlockHeaderSize - kByteSize - alignment) [[unlikely]] {
+        log(fmt::format("allocateAligned need too many bytes : {}, no block can hold them.", bytes));
         return nullptr;
     }
     uint64_t needed = align_size(bytes);
diff --git a/arena/arena.hpp b/arena/arena.hpp
index 12c6534..e2b0ed3 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -482,7 +482,7 @@ class Arena
               "CreateArray need too many memory, that more than max of uint64_t, the num of array is {}, and the Type "
               "is {}, sizeof T is {}",
               num, TYPENAME(T), sizeof(T));
-            _options.logger_func(output_message);
+            log(output_message);
             return nullptr;
         }
         const uint64_t size = sizeof(T) * num;
@@ -568,13 +568,22 @@ class Arena
             _resource = new memory_resource{this};
         } catch (std::bad_alloc& ex) {
             _resource = nullptr;
-            _options.logger_func("new memory resource failed while Arena::init");
+            log("new memory resource failed while Arena::init");
         }
         if (_options.on_arena_init != nullptr) [[likely]] {
             _cookie = _options.on_arena_init(this, loc);
         }
     }
 
+    /*
+     * report a failure, the logger may be absent.
+     */
+    inline void log(const std::string& message) const noexcept {
+        if (_options.logger_func != nullptr) {
+            _options.logger_func(message);
+        }
+    }
+
     /*
      * new a block within the arena.
      * New Block while current Block has not enough memory.
-- 
2.43.0


From aa12b9f1e4bf95a32535b25d27ac3b3c8ceb0f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 52/53] fix: reporting a failure without memory for the message
 drops it instead of terminating

---
 arena/arena.cc  |  6 ++----
 arena/arena.hpp | 12 ++++++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index 3f94068..c96cae6 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -63,9 +63,7 @@ auto Arena::newBlock(uint64_t min_bytes, Block* prev_block) noexcept -> Arena::B
     uint64_t size = 0;
 
     if (min_bytes > std::numeric_limits<uint64_t>::max() - kBlockHeaderSize) {
-        auto output_message = fmt::format(
-          "newBlock need too many min_bytes : {}, it add kBlockHeaderSize more than uint64_t max.", min_bytes);
-        log(output_message);
+        log("newBlock need too many min_bytes : {}, it add kBlockHeaderSize more than uint64_t max.", min_bytes);
         return nullptr;
     }
 
@@ -140,7 +138,7 @@ void Arena::Block::Reset() noexcept {
 auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char* {
     // no block can hold it, and the calculations below would overflow.
     if (bytes > std::numeric_limits<uint64_t>::max() - kBlockHeaderSize - kByteSize - alignment) [[unlikely]] {
-        log(fmt::format("allocateAligned need too many bytes : {}, no block can hold them.", bytes));
+        log("allocateAligned need too many bytes : {}, no block can hold them.", bytes);
         return nullptr;
     }
     uint64_t needed = align_size(bytes);
diff --git a/arena/arena.hpp b/arena/arena.hpp
index e2b0ed3..5324b08 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -478,11 +478,10 @@ class Arena
         requires TriviallyDestructible<T>
     {
         if (num > std::numeric_limits<uint64_t>::max() / sizeof(T)) {
-            auto output_message = fmt::format(
+            log(
               "CreateArray need too many memory, that more than max of uint64_t, the num of array is {}, and the Type "
               "is {}, sizeof T is {}",
               num, TYPENAME(T), sizeof(T));
-            log(output_message);
             return nullptr;
         }
         const uint64_t size = sizeof(T) * num;
@@ -577,10 +576,15 @@ class Arena
 
     /*
      * report a failure, the logger may be absent.
+     * there may be no memory left for the message, it is dropped then.
      */
-    inline void log(const std::string& message) const noexcept {
+    template <typename... Args>
+    inline void log(fmt::format_string<Args...> format, Args&&... args) const noexcept {
         if (_options.logger_func != nullptr) {
-            _options.logger_func(message);
+            try {
+                _options.logger_func(fmt::format(format, std::forward<Args>(args)...));
+            } catch (const std::bad_alloc&) {  // NOLINT(bugprone-empty-catch)
+            }
         }
     }
 
-- 
2.43.0


From 23dde8909470aecc72276cbf13490db653252deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:58 +0000
Subject: [PATCH 53/53] fix: count arena lifetimes between two bounds above the
 lower one

A lifetime of 1.5ms was truncated to 1ms and counted as 'le=1ms', and one of
1000.5ms as 'le=1000ms'.
---
 arena/metrics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arena/metrics.hpp b/arena/metrics.hpp
index 8689144..75fd34a 100644
--- a/arena/metrics.hpp
+++ b/arena/metrics.hpp
@@ -310,7 +310,7 @@ struct ArenaMetricsCookie
 
     std::unique_ptr<ArenaMetricsCookie> ck_unique_ptr(static_cast<ArenaMetricsCookie*>(cookie));
     auto destruct_lifetime = steady_clock::now() - ck_unique_ptr->init_time_point;
-    local_arena_metrics.increase_destruct_lifetime_counter(std::chrono::duration_cast<milliseconds>(destruct_lifetime));
+    local_arena_metrics.increase_destruct_lifetime_counter(std::chrono::ceil<milliseconds>(destruct_lifetime));
     return nullptr;
 }
 
-- 
2.43.0

