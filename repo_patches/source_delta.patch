From 5899ec41bfa8c8ac1603b902effb304a0365c122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 01/49] fix: monotonic_pool: respect alignment and bounds of
 the stack block

The free space was checked before the write head had been aligned, so that an aligned allocation could end beyond the
stack block, and alignment was computed relative to the block's beginning, which is only aligned to max_align_t.
---
 include/types/pmr/monotonic_pool.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index 5bc8286..86618be 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -207,12 +207,12 @@ namespace chdr {
                 // Attempt to allocate from the stack block:
                 if (m_stack_write < StackSize) {
 
-                    if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
-                        aligned_bytes < MaxStackAllocationSize &&
-                        m_stack_write + aligned_bytes <= s_stack_block_size
-                    ) {
-                        aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
-                        m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
+                    void*  raw_ptr = m_stack_block + m_stack_write;
+                    size_t space   = s_stack_block_size - m_stack_write;
+
+                    if (_bytes < MaxStackAllocationSize && std::align(_alignment, _bytes, raw_ptr, space) != nullptr) {
+                        aligned_ptr = static_cast<uint8_t*>(raw_ptr);
+                        m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + _bytes;
                     }
                 }
 
-- 
2.43.0


From 71d979453ac954a6e2567401bc90b921038a37ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 02/49] fix: monotonic_pool: stay consistent when a block
 cannot be allocated

A failure to allocate a block, or to record it, removed an unrelated block from the list (or popped an empty one), and
the write head was moved by arithmetic on a null pointer before std::bad_alloc was thrown.
---
 include/types/pmr/monotonic_pool.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index 86618be..ba76376 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -115,19 +115,21 @@ namespace chdr {
                 }
                 else { // Allocate a new, larger block:
 
-                    m_block_width = utils::max(
+                    const auto width = utils::max(
                         m_initial_block_width,
                         utils::max(utils::min((m_block_width * 3U) / 2U, s_max_heap_block_size), _bytes)
                     );
 
-                    result = static_cast<uint8_t*>(operator new(m_block_width, static_cast<std::align_val_t>(_alignment)));
+                    result = static_cast<uint8_t*>(operator new(width, static_cast<std::align_val_t>(_alignment)));
 
                     m_blocks.emplace_back(
-                        m_block_width,
+                        width,
                         _alignment,
                         result
                     );
 
+                    m_block_width = width;
+
                     m_active_block_index = m_blocks.size() - 1U;
                 }
 
@@ -142,8 +144,6 @@ namespace chdr {
                     // ReSharper disable once CppDFAUnreachableCode
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
                     result = nullptr;
-
-                    m_blocks.pop_back();
                 }
             }
 
@@ -239,7 +239,9 @@ namespace chdr {
                     }
 
                     // Update write position.
-                    m_block_write += static_cast<size_t>(aligned_ptr + _bytes - (m_blocks[m_active_block_index].data + m_block_write));
+                    if (LIKELY(aligned_ptr != nullptr)) {
+                        m_block_write += static_cast<size_t>(aligned_ptr + _bytes - (m_blocks[m_active_block_index].data + m_block_write));
+                    }
                 }
 
                 // ReSharper disable once CppDFAConstantConditions
-- 
2.43.0


From 2d4b56c1dd7d0bdf29df1ac1e4770570515a40c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 03/49] fix: homogeneous_pool: respect alignment and bounds of
 the stack block

---
 include/types/pmr/homogeneous_pool.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index bbe3c76..ffa466a 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -18,6 +18,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <limits>
+#include <memory>
 #include <new>
 #include <utility>
 #include <vector>
@@ -226,11 +227,12 @@ namespace chdr {
                 // Attempt to allocate from the stack block:
                 if (m_stack_write < StackSize) {
 
-                    if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
-                        aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size
-                    ) {
-                        aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
-                        m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
+                    void*  raw_ptr = m_stack_block + m_stack_write;
+                    size_t space   = s_stack_block_size - m_stack_write;
+
+                    if (_bytes < MaxStackAllocationSize && std::align(_alignment, _bytes, raw_ptr, space) != nullptr) {
+                        aligned_ptr = static_cast<uint8_t*>(raw_ptr);
+                        m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + _bytes;
                     }
                 }
 
-- 
2.43.0


From 84cfc570d92a8e214f413c93a8c1f3b4709adf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 04/49] fix: homogeneous_pool: survive failing allocations of
 blocks and bookkeeping

---
 include/types/pmr/homogeneous_pool.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index ffa466a..64305fa 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -149,10 +149,12 @@ namespace chdr {
                 // ReSharper disable once CppDFAConstantConditions
                 if (result != nullptr) {
                     // ReSharper disable once CppDFAUnreachableCode
+                    if (!m_blocks.empty() && m_blocks.back().data == result) {
+                        m_blocks.pop_back();
+                    }
+
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
                     result = nullptr;
-
-                    m_blocks.pop_back();
                 }
             }
 
@@ -303,7 +305,12 @@ namespace chdr {
             }
             else {
 
-                m_free.push_back(static_cast<uint8_t*>(_p));
+                try {
+                    m_free.push_back(static_cast<uint8_t*>(_p));
+                }
+                catch (...) {
+                    // The chunk remains unavailable until the pool is reset or released.
+                }
 
 #if CHDR_DIAGNOSTICS == 1
 
@@ -348,7 +355,7 @@ namespace chdr {
          * @param _capacity Specifies the number of blocks the pool should initially reserve.
          *                  (optional, default value is `32U`).
          */
-        explicit homogeneous_pool(size_t _initial_block_width = s_default_heap_block_size, size_t _capacity = 32U) noexcept :
+        explicit homogeneous_pool(size_t _initial_block_width = s_default_heap_block_size, size_t _capacity = 32U) :
             m_stack_block        (),
             m_alignment          (0U),
             m_stack_write        (0U),
-- 
2.43.0


From c6b5ceb1d6e8c9e876b7fd42ea923e2d50dcbd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 05/49] fix: homogeneous_pool: reset() keeps block size,
 alignment and ownership

---
 include/types/pmr/homogeneous_pool.hpp | 69 ++++++++++++--------------
 1 file changed, 31 insertions(+), 38 deletions(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 64305fa..d5f5746 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -100,6 +100,8 @@ namespace chdr {
         size_t m_initial_block_width; // Width of the first allocated block.
         size_t m_block_width;         // Size of the current block.
 
+        size_t m_next_block;          // Index of the first block retained by reset() that is not in use.
+
         std::vector<block> m_blocks;
         std::vector<uint8_t*> m_free;
 
@@ -112,14 +114,23 @@ namespace chdr {
             uint8_t* result { nullptr };
 
             try {
-                const auto allocate_bytes = utils::max(m_block_width, utils::max(_bytes, _alignment));
+                if (m_next_block == m_blocks.size()) { // Allocate a new block:
+
+                    const auto width = utils::max(m_block_width, utils::max(_bytes, _alignment));
+
+                    result = static_cast<uint8_t*>(operator new(width, static_cast<std::align_val_t>(_alignment)));
+
+                    m_blocks.emplace_back(
+                        width,
+                        result
+                    );
+
+                    m_block_width = utils::min((m_block_width * 3U) / 2U, s_max_heap_block_size);
+                }
 
-                result = static_cast<uint8_t*>(operator new(allocate_bytes, static_cast<std::align_val_t>(_alignment)));
+                const auto allocate_bytes = m_blocks[m_next_block].size;
 
-                m_blocks.emplace_back(
-                    allocate_bytes,
-                    result
-                );
+                result = m_blocks[m_next_block].data;
 
                 const auto result_num = reinterpret_cast<uintptr_t>(result);
 
@@ -140,22 +151,17 @@ namespace chdr {
                     }
                 }
 
-                m_block_width = utils::min((m_block_width * 3U) / 2U, s_max_heap_block_size);
+                ++m_next_block;
             }
             catch (...) {
 
                 /* Catch any errors that occur during allocation. */
 
-                // ReSharper disable once CppDFAConstantConditions
-                if (result != nullptr) {
-                    // ReSharper disable once CppDFAUnreachableCode
-                    if (!m_blocks.empty() && m_blocks.back().data == result) {
-                        m_blocks.pop_back();
-                    }
-
+                // A block that has been recorded is retained for the next attempt; free it otherwise.
+                if (m_next_block == m_blocks.size()) {
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
-                    result = nullptr;
                 }
+                result = nullptr;
             }
 
             return result;
@@ -360,7 +366,8 @@ namespace chdr {
             m_alignment          (0U),
             m_stack_write        (0U),
             m_initial_block_width(utils::min(_initial_block_width, s_max_heap_block_size)),
-            m_block_width        (m_initial_block_width)
+            m_block_width        (m_initial_block_width),
+            m_next_block         (0U)
         {
             assert(_initial_block_width >= 2U && "Initial block width must be at least 2.");
 
@@ -397,10 +404,12 @@ namespace chdr {
             m_stack_write        (_other.m_stack_write        ),
             m_initial_block_width(_other.m_initial_block_width),
             m_block_width        (_other.m_block_width        ),
+            m_next_block         (_other.m_next_block         ),
             m_blocks             (std::move(_other.m_blocks)  ),
             m_free               (std::move(_other.m_free  )  )
         {
             _other.m_stack_write = 0U;
+            _other.m_next_block  = 0U;
             _other.m_blocks.clear();
             _other.m_free.clear();
         }
@@ -418,10 +427,12 @@ namespace chdr {
                 m_stack_write         = _other.m_stack_write;
                 m_initial_block_width = _other.m_initial_block_width;
                 m_block_width         = _other.m_block_width;
+                m_next_block          = _other.m_next_block;
                 m_blocks              = std::move(_other.m_blocks);
                 m_free                = std::move(_other.m_free  );
 
                 _other.m_stack_write = 0U;
+                _other.m_next_block  = 0U;
                 _other.m_blocks.clear();
                 _other.m_free.clear();
             }
@@ -453,28 +464,9 @@ namespace chdr {
             m_stack_write = 0U;
             m_block_width = m_initial_block_width;
 
-            try {
-                m_free.clear();
-
-                // Reuse memory from existing blocks to repopulate `free`:
-                for (auto& [size, data] : m_blocks) {
-
-                    // Divide the block into chunks; all chunks are guaranteed aligned.
-                    const auto chunk_size = size / m_block_width;
-
-                    const auto current_size = m_free.size();
-                    m_free.resize(current_size + chunk_size);
-
-                    IVDEP
-                    for (size_t j = 0U; j < chunk_size; ++j) {
-                        m_free[j + current_size] = data + j * m_block_width;
-                    }
-                }
-            }
-            catch (...) {
-                m_blocks.clear();
-                  m_free.clear();
-            }
+            // Retained blocks are divided again, one at a time, as they are needed.
+            m_next_block = 0U;
+            m_free.clear();
 
 #if CHDR_DIAGNOSTICS == 1
             __diagnostic_data. num_allocated = 0U;
@@ -501,6 +493,7 @@ namespace chdr {
 
             m_stack_write = 0U;
             m_block_width = m_initial_block_width;
+            m_next_block  = 0U;
 
             {
                 cleanup();
-- 
2.43.0


From 5fce6f06a92a719f920069c62c61f915419a9fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 06/49] fix: homogeneous_pool: do not adopt chunks of the
 moved-from pool's stack block

---
 include/types/pmr/homogeneous_pool.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index d5f5746..5cd4d3e 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -17,6 +17,7 @@
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
+#include <functional>
 #include <limits>
 #include <memory>
 #include <new>
@@ -185,6 +186,19 @@ namespace chdr {
             }
         }
 
+        /**
+         * @brief Removes the free chunks that lie in the stack block of another pool.
+         * @param [in] _other The pool this pool's contents were moved from.
+         */
+        void discard_chunks_of(const homogeneous_pool& _other) noexcept {
+            m_free.erase(
+                std::remove_if(m_free.begin(), m_free.end(), [&_other](const uint8_t* _p) {
+                    return std::greater_equal<>()(_p, _other.m_stack_block) && std::less<>()(_p, _other.m_stack_block + s_stack_block_size);
+                }),
+                m_free.end()
+            );
+        }
+
     protected:
 
         /**
@@ -408,6 +422,8 @@ namespace chdr {
             m_blocks             (std::move(_other.m_blocks)  ),
             m_free               (std::move(_other.m_free  )  )
         {
+            discard_chunks_of(_other);
+
             _other.m_stack_write = 0U;
             _other.m_next_block  = 0U;
             _other.m_blocks.clear();
@@ -431,6 +447,8 @@ namespace chdr {
                 m_blocks              = std::move(_other.m_blocks);
                 m_free                = std::move(_other.m_free  );
 
+                discard_chunks_of(_other);
+
                 _other.m_stack_write = 0U;
                 _other.m_next_block  = 0U;
                 _other.m_blocks.clear();
-- 
2.43.0


From c09dbb527cabb5b42ea62ef38126c2589c1331b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 07/49] fix: heterogeneous_pool: respect alignment and bounds,
 and keep blocks of equal size

---
 include/types/pmr/heterogeneous_pool.hpp | 73 +++++++++++-------------
 1 file changed, 33 insertions(+), 40 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 94b075b..66ac74c 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -18,6 +18,7 @@
 #include <cstdint>
 #include <limits>
 #include <map>
+#include <memory>
 #include <new>
 #include <utility>
 #include <vector>
@@ -104,7 +105,7 @@ namespace chdr {
         size_t m_block_width;         // Size of the current block.
 
         std::vector<block> m_blocks;
-        std::map<size_t, block> m_free;
+        std::multimap<size_t, block> m_free;
 
         HOT uint8_t* expand(size_t _bytes, size_t _alignment) noexcept {
 
@@ -128,24 +129,7 @@ namespace chdr {
                 if (const size_t remaining_size = allocate_size - _bytes;
                     remaining_size != 0U
                 ) {
-
-                    /*
-                     * Attempt to insert new block into free list.
-                     * Repeat with a smaller key upon collision.
-                     * If insertion is impossible, throw.
-                     */
-                    bool success = false;
-                    for (size_t i = 0U; i < remaining_size; ++i) {
-
-                        if (m_free.try_emplace(remaining_size - i, remaining_size, _alignment, result + utils::max(_bytes, _alignment)).second) {
-                            success = true;
-                            break;
-                        }
-                    }
-
-                    if (UNLIKELY(!success)) {
-                        throw std::bad_alloc();
-                    }
+                    m_free.emplace(remaining_size, block(remaining_size, _alignment, result + _bytes));
                 }
 
                 m_block_width = utils::min((m_block_width * 3U) / 2U, s_max_heap_block_size);
@@ -166,32 +150,38 @@ namespace chdr {
             return result;
         }
 
-        HOT uint8_t* allocate_from_free(size_t _bytes) {
+        HOT uint8_t* allocate_from_free(size_t _bytes, size_t _alignment) {
 
             assert(_bytes > 0U && "Allocation size must be greater than zero.");
 
             uint8_t* result = nullptr;
 
             // Find the smallest free block that fits:
-            auto it = m_free.lower_bound(_bytes);
+            for (auto it = m_free.lower_bound(_bytes); it != m_free.end(); ++it) {
+
+                void*  raw_ptr = it->second.data;
+                size_t space   = it->second.size;
 
-            if (it != m_free.end() && it->second.size >= _bytes) {
+                if (std::align(_alignment, _bytes, raw_ptr, space) != nullptr) {
 
-                // Extract the matching block without performing a full tree rebalance:
-                typename std::map<size_t, block>::node_type node = m_free.extract(it);
+                    // Extract the matching block without performing a full tree rebalance:
+                    auto node = m_free.extract(it);
 
-                result = node.mapped().data;
+                    result = static_cast<uint8_t*>(raw_ptr);
 
-                // Consume block or adjust the remaining size:
-                size_t remaining_size = node.mapped().size - _bytes;
-                if (remaining_size != 0U) {
+                    // Consume block or adjust the remaining size:
+                    const size_t remaining_size = space - _bytes;
+                    if (remaining_size != 0U) {
 
-                    // Update with adjusted size:
-                    node.key() = remaining_size;
-                    node.mapped().size = remaining_size;
-                    node.mapped().data += utils::max(_bytes, node.mapped().alignment);
+                        // Update with adjusted size:
+                        node.key() = remaining_size;
+                        node.mapped().size = remaining_size;
+                        node.mapped().data = result + _bytes;
 
-                    m_free.insert(std::move(node)); // Reinsert (node is consumed otherwise).
+                        m_free.insert(std::move(node)); // Reinsert (node is consumed otherwise).
+                    }
+
+                    break;
                 }
             }
 
@@ -252,21 +242,24 @@ namespace chdr {
                 return nullptr; // No-op. (See C++17 standard.)
             }
             else {
-                const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
-
                 uint8_t* aligned_ptr { nullptr };
 
                 // Attempt to allocate from the stack block:
-                if (aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size) {
+                if (_bytes < MaxStackAllocationSize) {
 
-                    aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
-                    m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
+                    void*  raw_ptr = m_stack_block + m_stack_write;
+                    size_t space   = s_stack_block_size - m_stack_write;
+
+                    if (std::align(_alignment, _bytes, raw_ptr, space) != nullptr) {
+                        aligned_ptr = static_cast<uint8_t*>(raw_ptr);
+                        m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + _bytes;
+                    }
                 }
 
                 if (aligned_ptr == nullptr) {
 
                     // Attempt to find a free block, or create one otherwise:
-                    aligned_ptr = allocate_from_free(aligned_bytes);
+                    aligned_ptr = allocate_from_free(_bytes, _alignment);
                     if (UNLIKELY(aligned_ptr == nullptr)) {
                         aligned_ptr = expand(_bytes, _alignment);
                     }
@@ -351,7 +344,7 @@ namespace chdr {
                         }
                     }
 
-                    m_free.try_emplace(_bytes, _bytes, _alignment, static_cast<uint8_t*>(_p));
+                    m_free.emplace(_bytes, block(_bytes, _alignment, static_cast<uint8_t*>(_p)));
                 }
 
 #if CHDR_DIAGNOSTICS == 1
-- 
2.43.0


From e44a6eaaf35112b3042b72eff0b047782084e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 08/49] fix: heterogeneous_pool: survive failing allocations of
 blocks and bookkeeping

---
 include/types/pmr/heterogeneous_pool.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 66ac74c..039dc67 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -141,10 +141,12 @@ namespace chdr {
                 // ReSharper disable once CppDFAConstantConditions
                 if (result != nullptr) {
                     // ReSharper disable once CppDFAUnreachableCode
+                    if (!m_blocks.empty() && m_blocks.back().data == result) {
+                        m_blocks.pop_back();
+                    }
+
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
                     result = nullptr;
-
-                    m_blocks.pop_back();
                 }
             }
             return result;
@@ -389,7 +391,7 @@ namespace chdr {
          * @param _capacity Specifies the number of blocks the pool should initially reserve.
          *                  (optional, default value is `32U`).
          */
-        explicit heterogeneous_pool(size_t _initial_block_width = s_default_heap_block_size, size_t _capacity = 32U) noexcept :
+        explicit heterogeneous_pool(size_t _initial_block_width = s_default_heap_block_size, size_t _capacity = 32U) :
             m_stack_block        (),
             m_stack_write        (0U),
             m_initial_block_width(utils::min(_initial_block_width, s_max_heap_block_size)),
@@ -486,6 +488,7 @@ namespace chdr {
                 }
             }
             catch (...) {
+                cleanup();
                   m_free.clear();
                 m_blocks.clear();
             }
-- 
2.43.0


From 0c3bf49ebc376373951e5b631a7e1ce88b01d790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 09/49] fix: heterogeneous_pool: recycle deallocated memory

---
 include/types/pmr/heterogeneous_pool.hpp | 42 +++++++++++++-----------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 039dc67..fb9b26a 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -314,40 +314,42 @@ namespace chdr {
             assert(_bytes > 0U && "Allocation size must be greater than zero.");
             assert((_alignment & (_alignment - 1U)) == 0U && "Alignment must be a power of two.");
 
-            if (_bytes != 0U) {
+            if (_bytes == 0U) {
                 // No-op. (See C++17 standard.)
             }
             else {
-                if (((m_stack_write + (_bytes + _alignment - 1U)) & ~(_alignment - 1U)) > s_stack_block_size) {
+                if constexpr (Coalescing) {
 
-                    if constexpr (Coalescing) {
+                    auto it = m_free.lower_bound(_bytes);
 
-                        auto it = m_free.lower_bound(_bytes);
+                    // Merge with next block if adjacent:
+                    if (it != m_free.end() && _bytes + static_cast<uint8_t*>(_p) == it->second.data) {
+                        _bytes    += it->second.size;
+                        _alignment = utils::max(it->second.alignment, _alignment);
 
-                        // Merge with next block if adjacent:
-                        if (it != m_free.end() && _bytes + static_cast<uint8_t*>(_p) == it->second.data) {
-                            _bytes    += it->second.size;
-                            _alignment = utils::max(it->second.alignment, _alignment);
-
-                            it = m_free.erase(it);
-                        }
+                        it = m_free.erase(it);
+                    }
 
-                        // Merge with previous block if adjacent:
-                        if (it != m_free.begin()) {
-                            --it;
+                    // Merge with previous block if adjacent:
+                    if (it != m_free.begin()) {
+                        --it;
 
-                            if (it->second.data + it->second.size == _p) {
-                                _p         = it->second.data;
-                                _bytes    += it->second.size;
-                                _alignment = utils::max(it->second.alignment, _alignment);
+                        if (it->second.data + it->second.size == _p) {
+                            _p         = it->second.data;
+                            _bytes    += it->second.size;
+                            _alignment = utils::max(it->second.alignment, _alignment);
 
-                                m_free.erase(it);
-                            }
+                            m_free.erase(it);
                         }
                     }
+                }
 
+                try {
                     m_free.emplace(_bytes, block(_bytes, _alignment, static_cast<uint8_t*>(_p)));
                 }
+                catch (...) {
+                    // The memory remains unavailable until the pool is reset or released.
+                }
 
 #if CHDR_DIAGNOSTICS == 1
 
-- 
2.43.0


From 6b048b2fac268045fa9fe03a4cbe265a855a9a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 10/49] fix: heterogeneous_pool: do not adopt chunks of the
 moved-from pool's stack block

---
 include/types/pmr/heterogeneous_pool.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index fb9b26a..d042e10 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -16,6 +16,7 @@
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
+#include <functional>
 #include <limits>
 #include <map>
 #include <memory>
@@ -208,6 +209,24 @@ namespace chdr {
             }
         }
 
+        /**
+         * @brief Removes the free blocks that lie in the stack block of another pool.
+         * @param [in] _other The pool this pool's contents were moved from.
+         */
+        void discard_chunks_of(const heterogeneous_pool& _other) noexcept {
+            for (auto it = m_free.begin(); it != m_free.end();) {
+
+                const auto* const p = it->second.data;
+
+                if (std::greater_equal<>()(p, _other.m_stack_block) && std::less<>()(p, _other.m_stack_block + s_stack_block_size)) {
+                    it = m_free.erase(it);
+                }
+                else {
+                    ++it;
+                }
+            }
+        }
+
     protected:
 
         /**
@@ -435,6 +454,7 @@ namespace chdr {
             m_blocks             (std::move(_other.m_blocks)  ),
             m_free               (std::move(_other.m_free  )  )
         {
+            discard_chunks_of(_other);
             _other.release();
         }
 
@@ -453,6 +473,7 @@ namespace chdr {
                 m_blocks              = std::move(_other.m_blocks);
                 m_free                = std::move(_other.m_free  );
 
+                discard_chunks_of(_other);
                 _other.release();
             }
             return *this;
-- 
2.43.0


From d7b50b1786e1ade2e716a49567927ad090222f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:00 +0000
Subject: [PATCH 11/49] fix: to_nd: invert to_1d in three and four dimensions
 for sizes that differ

---
 include/utils/utils.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 55350c9..cab6c37 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -216,19 +216,19 @@ namespace chdr {
                 const auto w2 = _index % w1;
 
                 result = {
-                    w2 % _sizes[1U],
-                    w2 / _sizes[1U],
+                    w2 % _sizes[0U],
+                    w2 / _sizes[0U],
                     _index / w1
                 };
             }
             else if constexpr (Kd == 4U) {
-                const auto w1 = _sizes[2U] * _sizes[1U];
-                const auto w2 = w1 * _sizes[0U];
+                const auto w1 = _sizes[0U] * _sizes[1U];
+                const auto w2 = w1 * _sizes[2U];
                 const auto w3 = _index % w2;
 
                 result = {
-                    (w3 % w1) % _sizes[2U],
-                    (w3 % w1) / _sizes[2U],
+                    (w3 % w1) % _sizes[0U],
+                    (w3 % w1) / _sizes[0U],
                      w3 / w1,
                     _index / w2,
                 };
-- 
2.43.0


From e37076019fa3935e59d7ef3760a0ef4a4ad21f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:39 +0000
Subject: [PATCH 12/49] fix: rbacktrack: list as many nodes as the path has,
 whatever it costs

---
 include/solvers/base/solver.hpp | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 0218432..8224127 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -608,23 +608,16 @@ namespace chdr::solvers {
              *                   where nodes possess a parent pointer (`m_parent`) for traversal.
              * @param [in] _size The coordinate dimensions, used to convert an index to n-dimensional coordinates.
              *
-             * @param _depth The depth of the hierarchy, which determines the length of the resulting vector.
+             * @param _depth A hint of the depth of the hierarchy. The length of the resulting vector is that of the hierarchy itself.
              *
              * @return A vector of n-dimensional coordinates representing the path from the root node
              *         to the provided `_node`.
              */
             template<typename node_t, typename coord_t>
-            static constexpr auto rbacktrack(const node_t& _node, const coord_t& _size, size_t _depth) {
+            static constexpr auto rbacktrack(const node_t& _node, const coord_t& _size, [[maybe_unused]] size_t _depth) {
 
-                std::vector<coord_t> result(_depth);
-
-                size_t i = 0U;
-                for (const auto* RESTRICT t = &_node; t->m_parent != nullptr; t = static_cast<const node_t*>(t->m_parent)) {
-                    result[(result.size() - 1U) - i] = utils::to_nd(static_cast<typename coord_t::value_type>(t->m_index), _size);
-                    ++i;
-                }
-
-                return result;
+                // A cost is not a number of nodes: weighted connections and jumps advance it by more than one per node.
+                return rbacktrack(_node, _size);
             }
 
             /**
@@ -639,21 +632,14 @@ namespace chdr::solvers {
              *                   where nodes possess a parent pointer (`m_parent`) for traversal.
              * @param [in] _size The coordinate dimensions, used to convert an index to n-dimensional coordinates.
             *
-             * @param _depth The depth of the hierarchy, which determines the length of the resulting vector.
+             * @param _depth A hint of the depth of the hierarchy. The length of the resulting vector is that of the hierarchy itself.
              *
              * @return A vector of n-dimensional coordinates representing the path from the root node
              *         to the provided `_node`.
              */
             template<typename node_t, typename coord_t>
-            static constexpr auto rbacktrack_noreverse(const node_t& _node, const coord_t& _size, size_t _depth) {
-
-                std::vector<coord_t> result(_depth);
-
-                for (const auto* RESTRICT t = &_node; t->m_parent != nullptr; t = static_cast<const node_t*>(t->m_parent)) {
-                    result.emplace_back(utils::to_nd(static_cast<typename coord_t::value_type>(t->m_index), _size));
-                }
-
-                return result;
+            static constexpr auto rbacktrack_noreverse(const node_t& _node, const coord_t& _size, [[maybe_unused]] size_t _depth) {
+                return rbacktrack_noreverse(_node, _size);
             }
 
             /**
-- 
2.43.0


From 540b967d042b0302de57abfe353efbb2d76e7c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 13/49] fix: managed_node: count more than 255 successors, as
 graphs have hubs

---
 include/solvers/base/managed_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/base/managed_node.hpp b/include/solvers/base/managed_node.hpp
index a1ccda5..7c48747 100644
--- a/include/solvers/base/managed_node.hpp
+++ b/include/solvers/base/managed_node.hpp
@@ -48,7 +48,7 @@ namespace chdr::solvers {
     private:
 
         using  node_t = std::conditional_t<std::is_void_v<derived>, managed_node<index_t>, derived>;
-        using count_t = uint8_t;
+        using count_t = uint32_t;
 
     public:
 
-- 
2.43.0


From e246d71359cfff317ff79e829beff19f511d51ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 14/49] fix: astar: aim at the end, and close nodes when they
 are expanded

---
 include/solvers/astar.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/solvers/astar.hpp b/include/solvers/astar.hpp
index 7c113bd..d1c808f 100644
--- a/include/solvers/astar.hpp
+++ b/include/solvers/astar.hpp
@@ -119,16 +119,13 @@ namespace chdr::solvers {
         template <typename open_set_t, typename closed_set_t>
         [[nodiscard]] HOT static constexpr auto solve_internal(open_set_t& _open, closed_set_t& _closed, size_t _capacity, const params_t& _params) {
 
-            constexpr bool do_reverse = !solver_t::solver_utils::template is_graph_v<decltype(_params.maze)> && params_t::reverse_equivalence::value;
+            const auto&   end = _params.end;
+            const auto& start = _params.start;
 
-            const auto&   end = do_reverse ? _params.start : _params.end;
-            const auto& start = do_reverse ? _params.end   : _params.start;
-
-            const auto s = utils::to_1d(_params.start, _params.size);
-            const auto e = utils::to_1d(_params.end,   _params.size);
+            const auto s = utils::to_1d(start, _params.size);
+            const auto e = utils::to_1d(end,   _params.size);
 
               _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-            _closed.emplace(s);
 
             // Main loop:
             while (LIKELY(!_open.empty())) {
@@ -138,6 +135,10 @@ namespace chdr::solvers {
 
                 if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                    // A node may be open more than once. Only its best entry, which comes first, is expanded:
+                    if (_closed.contains(curr.m_index)) { continue; }
+                    solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                     node* RESTRICT curr_ptr(nullptr);
 
                     for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
@@ -146,7 +147,6 @@ namespace chdr::solvers {
 
                             // Check if node is not already visited:
                             if (!_closed.contains(n.index)) {
-                                solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
 
                                 if (curr_ptr == nullptr) {
                                     curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
-- 
2.43.0


From fea88910b7fd036d16b0bc4af610c5902ff22b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 15/49] fix: gstar: close nodes when they are expanded

---
 include/solvers/gstar.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/solvers/gstar.hpp b/include/solvers/gstar.hpp
index cbdc538..bf34f7a 100644
--- a/include/solvers/gstar.hpp
+++ b/include/solvers/gstar.hpp
@@ -126,7 +126,6 @@ namespace chdr::solvers {
             const auto e = utils::to_1d(end,   _params.size);
 
               _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-            _closed.emplace(s);
 
             // Main loop:
             while (LIKELY(!_open.empty())) {
@@ -136,6 +135,13 @@ namespace chdr::solvers {
 
                 if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                    // A node may be open more than once. Only its best entry, which comes first, is expanded:
+                    if (_closed.contains(curr.m_index)) {
+                        curr.expunge(_params.homogeneous_pmr);
+                        continue;
+                    }
+                    solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                     node* RESTRICT curr_ptr(nullptr);
 
                     for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
@@ -144,7 +150,6 @@ namespace chdr::solvers {
 
                             // Check if node is not already visited:
                             if (!_closed.contains(n.index)) {
-                                solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
 
                                 if (curr_ptr == nullptr) {
                                     curr_ptr = new (_params.homogeneous_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
-- 
2.43.0


From d66c4dc39f17f6f94d5c9594470982f6f00cf4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 16/49] fix: fringe: keep the nodes beyond the threshold, and
 stop when none remain

---
 include/solvers/fringe.hpp | 95 ++++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 44 deletions(-)

diff --git a/include/solvers/fringe.hpp b/include/solvers/fringe.hpp
index ee0cb5c..835994e 100644
--- a/include/solvers/fringe.hpp
+++ b/include/solvers/fringe.hpp
@@ -129,61 +129,69 @@ namespace chdr::solvers {
             auto max_threshold = _params.h(start, end) * _params.weight;
 
               _open.emplace_back(s, static_cast<scalar_t>(0), max_threshold);
-            _closed.emplace(s);
 
             // Main loop:
             while (LIKELY(!_open.empty())) {
 
                 auto next_threshold = std::numeric_limits<scalar_t>::max();
 
+                const auto emplace_next = [&_next, &next_threshold](node&& _node) ALWAYS_INLINE {
+
+                    next_threshold = utils::min(next_threshold, _node.m_fScore);
+
+                    if constexpr (params_t::lazy_sorting::value) {
+                        _next.emplace_back(std::move(_node));
+                    }
+                    else {
+
+                        /* SORTED INSERTION */
+                        _next.insert(
+                            std::partition_point(
+                                _next.begin(),
+                                _next.end(),
+                                [&_node](const node& _other) ALWAYS_INLINE {
+                                    return _node.m_fScore == _other.m_fScore ?
+                                           _node.m_gScore >  _other.m_gScore :
+                                           _node.m_fScore >  _other.m_fScore;
+                                }
+                            ),
+                            std::move(_node)
+                        );
+                    }
+                };
+
                 for (auto& curr : _open) {
 
+                    // A node may be open more than once, but is expanded only once:
+                    if (_closed.contains(curr.m_index)) { continue; }
+
+                    // Nodes beyond the threshold are kept for later:
+                    if (curr.m_fScore > max_threshold) {
+                        emplace_next(std::move(curr));
+                        continue;
+                    }
+
                     if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                        solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                         node* RESTRICT curr_ptr(nullptr);
 
                         for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
 
                             if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
 
-                                const auto g = curr.m_gScore + n.distance;
-                                const auto f = g + (_params.h(n.coord, end) * _params.weight);
-
-                                if (f <= max_threshold) {
-
-                                    // Check if node is not already visited:
-                                    if (!_closed.contains(n.index)) {
-
-                                        solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
-
-                                        if (curr_ptr == nullptr) {
-                                            curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
-                                        }
-
-                                        if constexpr (params_t::lazy_sorting::value) {
-                                            _next.emplace_back(n.index, g, f, curr_ptr);
-                                        }
-                                        else {
-
-                                            /* SORTED INSERTION */
-                                            _next.insert(
-                                                std::partition_point(
-                                                    _next.begin(),
-                                                    _next.end(),
-                                                    [&f, &g](const node& _other) ALWAYS_INLINE {
-                                                        return f == _other.m_fScore ?
-                                                               g >  _other.m_gScore :
-                                                               f >  _other.m_fScore;
-                                                    }
-                                                ),
-                                                node (n.index, g, f, curr_ptr)
-                                            );
-                                        }
+                                // Check if node is not already visited:
+                                if (!_closed.contains(n.index)) {
+
+                                    if (curr_ptr == nullptr) {
+                                        curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
                                     }
-                                }
-                                else {
-                                    next_threshold = utils::min(next_threshold, f);
-                                    break;
+
+                                    const auto g = curr_ptr->m_gScore + n.distance;
+                                    const auto f = g + (_params.h(n.coord, end) * _params.weight);
+
+                                    emplace_next({ n.index, g, f, curr_ptr });
                                 }
                             }
                         }
@@ -202,12 +210,11 @@ namespace chdr::solvers {
                     }
                 }
 
-                if (!_next.empty()) {
-                    std::swap(_open, _next);
-                    _next.clear();
-                }
+                std::swap(_open, _next);
+                _next.clear();
 
-                max_threshold = next_threshold;
+                // The threshold is raised once nothing within it remains:
+                max_threshold = utils::max(max_threshold, next_threshold);
             }
 
             return std::vector<coord_t>{};
@@ -228,7 +235,7 @@ namespace chdr::solvers {
 
             std::pmr::vector<node> next(_params.heterogeneous_pmr);
             try {
-                open.reserve(capacity / 8U);
+                next.reserve(capacity / 8U);
             }
             catch (...) {} // NOLINT(*-empty-catch)
 
-- 
2.43.0


From cd3332bdf7b01f3dcfd6a94f97e0a431855b0735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 17/49] fix: dijkstra: expand a node again only if that
 improves on it

---
 include/solvers/dijkstra.hpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/include/solvers/dijkstra.hpp b/include/solvers/dijkstra.hpp
index a6e9610..1b614a3 100644
--- a/include/solvers/dijkstra.hpp
+++ b/include/solvers/dijkstra.hpp
@@ -172,7 +172,15 @@ namespace chdr::solvers {
                 auto _ = std::move(_open.top());
                 _open.pop();
 
-                auto& curr = result.m_data.emplace(_.m_index, std::move(_)).first->second;
+                auto [entry, is_new] = result.m_data.emplace(_.m_index, _);
+                auto& curr = entry->second;
+
+                // A node may be open more than once. It is expanded again only if that improves on it:
+                if (!is_new) {
+                    if (!(_.m_gScore < curr.m_gScore)) { continue; }
+                    curr.m_gScore = _.m_gScore;
+                    curr.m_parent = _.m_parent;
+                }
 
                 for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
 
@@ -180,22 +188,8 @@ namespace chdr::solvers {
 
                         auto g = curr.m_gScore + n.distance;
 
-                        if (const auto search = result.m_data.find(n.index); search != result.m_data.end()) {
-
-                            if (auto& child = search->second; g < child.m_gScore) {
-
-                                child.m_gScore = g;
-                                child.m_parent = &curr;
+                        if (const auto search = result.m_data.find(n.index); search == result.m_data.end() || g < search->second.m_gScore) {
 
-                                if constexpr (params_t::lazy_sorting::value) {
-                                    _open.emplace_nosort(child);
-                                }
-                                else {
-                                    _open.emplace(child);
-                                }
-                            }
-                        }
-                        else {
                             if constexpr (params_t::lazy_sorting::value) {
                                 _open.emplace_nosort(n.index, g, &curr);
                             }
-- 
2.43.0


From e7bc97a93d64ccc45e9acf754666021bc30eba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 18/49] fix: idbest_first: keep the start open between bounds

---
 include/solvers/idbest_first.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/solvers/idbest_first.hpp b/include/solvers/idbest_first.hpp
index eb853d3..29850e1 100644
--- a/include/solvers/idbest_first.hpp
+++ b/include/solvers/idbest_first.hpp
@@ -172,13 +172,17 @@ namespace chdr::solvers {
                             }
                         }
                         else {
-                            _open.pop_back();
+                            if (_open.size() > 1U) {
+                                _open.pop_back();
+                            }
                             stack.pop();
                         }
                     }
                     else {
                         min = utils::min(min, curr.m_hScore);
-                        _open.pop_back();
+                        if (_open.size() > 1U) {
+                            _open.pop_back();
+                        }
                         stack.pop();
                     }
                 }
-- 
2.43.0


From cf0a2a5e89b226f7ca48da656642fcbedbb124b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 19/49] fix: idastar: accept the end only within the bound

---
 include/solvers/idastar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/idastar.hpp b/include/solvers/idastar.hpp
index 9432266..5db6286 100644
--- a/include/solvers/idastar.hpp
+++ b/include/solvers/idastar.hpp
@@ -167,7 +167,7 @@ namespace chdr::solvers {
 
                                     _open.emplace_back(n.index, g, f);
 
-                                    if (n.index != e) { // SEARCH FOR SOLUTION...
+                                    if (n.index != e || f > bound) { // SEARCH FOR SOLUTION...
                                         stack.emplace(_open.back(), _params);
                                     }
                                     else { // SOLUTION REACHED...
-- 
2.43.0


From 9fec8cda062b64caa58cb2f15cfbf676be4bb7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 20/49] fix: eidastar: accept the end only within the bound

---
 include/solvers/eidastar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/eidastar.hpp b/include/solvers/eidastar.hpp
index 4973aff..97f5531 100644
--- a/include/solvers/eidastar.hpp
+++ b/include/solvers/eidastar.hpp
@@ -176,7 +176,7 @@ namespace chdr::solvers {
 
                                     _open.emplace_back(n.index, g, f);
 
-                                    if (n.index != e) { // SEARCH FOR SOLUTION...
+                                    if (n.index != e || f > bound) { // SEARCH FOR SOLUTION...
                                         stack.emplace(_open.back(), _params);
                                     }
                                     else { // SOLUTION REACHED...
-- 
2.43.0


From cd510a93662f7bbd1fb31c3899956f0bc986c77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 21/49] fix: iddfs: end the stack before its memory is reset,
 and stop when nothing was cut off

---
 include/solvers/iddfs.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/solvers/iddfs.hpp b/include/solvers/iddfs.hpp
index bbde518..f5ed11d 100644
--- a/include/solvers/iddfs.hpp
+++ b/include/solvers/iddfs.hpp
@@ -128,10 +128,14 @@ namespace chdr::solvers {
 
             _open.emplace_back(s, 0U);
 
-            stack<state<neighbours_t>> stack(_params.monotonic_pmr);
+            bool cutoff = true; // Whether the previous bound kept any part of the maze from being searched.
+            for (size_t bound = 0U; cutoff && bound < std::numeric_limits<size_t>::max(); ++bound) {
 
-            for (size_t bound = 0U; bound < std::numeric_limits<size_t>::max(); ++bound) {
+                cutoff = false;
 
+                // The stack must be gone before its memory resource is reset.
+                {
+                stack<state<neighbours_t>> stack(_params.monotonic_pmr);
                 stack.emplace(_open.back(), _params);
 
                 // Main loop:
@@ -158,14 +162,17 @@ namespace chdr::solvers {
                         }
                     }
                     else {
+                        cutoff |= curr.m_depth > bound;
+
                         if (_open.size() > 1U) {
                             _open.pop_back();
                         }
                         stack.pop();
                     }
                 }
+                }
 
-                if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
+                if constexpr (!params_t::no_cleanup::value && solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
                     _params.monotonic_pmr->reset();
                 }
             }
-- 
2.43.0


From 00d743ae60d6dcdb3c66f4d59472060396a216bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 22/49] fix: eiddfs: end the stack before its memory is reset,
 and stop when nothing was cut off

---
 include/solvers/eiddfs.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index 831296d..932b6f8 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -127,10 +127,14 @@ namespace chdr::solvers {
 
             _open.emplace_back(s, 0U);
 
-            stack<state<neighbours_t>> stack(_params.monotonic_pmr);
+            bool cutoff = true; // Whether the previous bound kept any part of the maze from being searched.
+            for (size_t bound = 0U; cutoff && bound < std::numeric_limits<size_t>::max(); ++bound) {
 
-            for (size_t bound = 0U; bound < std::numeric_limits<size_t>::max(); ++bound) {
+                cutoff = false;
 
+                // The stack must be gone before its memory resource is reset.
+                {
+                stack<state<neighbours_t>> stack(_params.monotonic_pmr);
                 stack.emplace(_open.back(), _params);
 
                 // Main loop:
@@ -161,15 +165,18 @@ namespace chdr::solvers {
                         }
                     }
                     else {
+                        cutoff |= curr.m_depth > bound;
+
+                        _closed.erase(curr.m_index);
                         if (_open.size() > 1U) {
                             _open.pop_back();
                         }
                         stack.pop();
-                        _closed.erase(curr.m_index);
                     }
                 }
+                }
 
-                if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
+                if constexpr (!params_t::no_cleanup::value && solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
                     _params.monotonic_pmr->reset();
                 }
             }
-- 
2.43.0


From 70f8f6e8106e36da424fd157d7ba9a1f1d919ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 23/49] fix: octile_distance: straight and diagonal extents, in
 every direction

---
 include/utils/heuristics.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/utils/heuristics.hpp b/include/utils/heuristics.hpp
index 9798c0c..5b72ea7 100644
--- a/include/utils/heuristics.hpp
+++ b/include/utils/heuristics.hpp
@@ -97,22 +97,25 @@ namespace chdr {
 
             constexpr auto Kd = std::tuple_size_v<std::decay_t<coord_t>>;
 
-            scalar_t result = chebyshev_distance<scalar_t, coord_t>(_a, _b);
+            // The greatest extents of any two dimensions: moves along both at once, then along the greater alone.
+            scalar_t result{0};
+            scalar_t diagonal{0};
 
-            bool straight = false;
             for (size_t i = 0U; i < Kd; ++i) {
 
-                if (_a[0] == _b[0]) {
-                    straight = true;
+                const auto val = static_cast<scalar_t>(utils::abs(static_cast<signed>(_b[i]) - static_cast<signed>(_a[i])));
 
-                    if constexpr (Kd > 4U) { break; }
+                if (val > result) {
+                    diagonal = result;
+                    result   = val;
+                }
+                else if (val > diagonal) {
+                    diagonal = val;
                 }
             }
 
-            if (!straight) {
-                constexpr auto sqrt2 = utils::sqrt<scalar_t>(2.0);
-                result *= sqrt2;
-            }
+            constexpr auto sqrt2 = utils::sqrt<scalar_t>(2.0);
+            result += diagonal * (sqrt2 - static_cast<scalar_t>(1));
 
             return result;
         }
-- 
2.43.0


From 9389575bad9a2c22acc886faa34287de7cb695ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 24/49] fix: jps: close nodes when they are expanded, and never
 squeeze through to the end

---
 include/solvers/jps.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/solvers/jps.hpp b/include/solvers/jps.hpp
index ec4f83a..17bbafe 100644
--- a/include/solvers/jps.hpp
+++ b/include/solvers/jps.hpp
@@ -272,14 +272,15 @@ namespace chdr::solvers {
         template <typename maze_t>
         [[nodiscard]] static constexpr neighbour_t jump(const maze_t& _maze, const coord_t& _current, const direction_t& _direction, const coord_t& _end) {
 
-            if (UNLIKELY(_current == _end)) { // SOLUTION REACHED...
+            const auto& neighbours = _maze.template get_neighbours<true>(_current);
+            const auto& map = s_lookup[static_cast<size_t>(_direction)];
+
+            // A diagonal move is blocked if both of the cells it passes between are, even if it is the last one:
+            if (UNLIKELY(_current == _end) && (is_straight(_direction) || neighbours[map[TM]].first || neighbours[map[ML]].first)) { // SOLUTION REACHED...
                 return { true, _current };
             }
             else { // SEARCH FOR SOLUTION...
 
-                const auto& neighbours = _maze.template get_neighbours<true>(_current);
-                const auto& map = s_lookup[static_cast<size_t>(_direction)];
-
                 const auto check_forced = [&neighbours, &map](const size_t _a, const size_t _b) ALWAYS_INLINE {
                     return neighbours[map[_a]].first && !neighbours[map[_b]].first;
                 };
@@ -336,7 +337,6 @@ namespace chdr::solvers {
                 const auto e = utils::to_1d(end,   _params.size);
 
                   _open.emplace_nosort(s, ZZ, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-                _closed.emplace(s);
 
                 // Main loop:
                 while (LIKELY(!_open.empty())) {
@@ -346,6 +346,10 @@ namespace chdr::solvers {
 
                     if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                        // A node may be open more than once. Only its best entry, which comes first, is expanded:
+                        if (_closed.contains(curr.m_index)) { continue; }
+                        solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                         node* RESTRICT curr_ptr(nullptr);
 
                         const auto coord = utils::to_nd(curr.m_index, _params.size);
@@ -359,8 +363,6 @@ namespace chdr::solvers {
                                 const scalar_t nDistance = heuristics::octile_distance<scalar_t>(coord, nCoord);
 
                                 if (!_closed.contains(n)) {
-                                    solver_t::solver_utils::preallocate_emplace(_closed, n, _capacity, _params.maze.count());
-
                                     if (curr_ptr == nullptr) {
                                         curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
                                     }
-- 
2.43.0


From 264d6887c06da49a5f41bd53630ba4951d9057da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 25/49] fix: gjps: use one resource for nodes, close them when
 expanded, never squeeze through to the end

---
 include/solvers/gjps.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index c9cceee..ab2d3f2 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -252,14 +252,15 @@ namespace chdr::solvers {
         template <typename maze_t>
         [[nodiscard]] static constexpr neighbour_t jump(const maze_t& _maze, const coord_t& _current, const direction_t& _direction, const coord_t& _end) {
 
-            if (UNLIKELY(_current == _end)) { // SOLUTION REACHED...
+            const auto& neighbours = _maze.template get_neighbours<true>(_current);
+            const auto& map = s_lookup[static_cast<size_t>(_direction)];
+
+            // A diagonal move is blocked if both of the cells it passes between are, even if it is the last one:
+            if (UNLIKELY(_current == _end) && (is_straight(_direction) || neighbours[map[TM]].first || neighbours[map[ML]].first)) { // SOLUTION REACHED...
                 return { true, _current };
             }
             else { // SEARCH FOR SOLUTION...
 
-                const auto& neighbours = _maze.template get_neighbours<true>(_current);
-                const auto& map = s_lookup[static_cast<size_t>(_direction)];
-
                 const auto check_forced = [&neighbours, &map](const size_t _a, const size_t _b) ALWAYS_INLINE {
                     return neighbours[map[_a]].first && !neighbours[map[_b]].first;
                 };
@@ -316,7 +317,6 @@ namespace chdr::solvers {
                 const auto e = utils::to_1d(end,   _params.size);
 
                   _open.emplace_nosort(s, ZZ, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-                _closed.emplace(s);
 
                 // Main loop:
                 while (LIKELY(!_open.empty())) {
@@ -326,6 +326,13 @@ namespace chdr::solvers {
 
                     if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                        // A node may be open more than once. Only its best entry, which comes first, is expanded:
+                        if (_closed.contains(curr.m_index)) {
+                            curr.expunge(_params.homogeneous_pmr);
+                            continue;
+                        }
+                        solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                         node* RESTRICT curr_ptr(nullptr);
 
                         const auto coord = utils::to_nd(curr.m_index, _params.size);
@@ -339,10 +346,8 @@ namespace chdr::solvers {
                                 const scalar_t nDistance = heuristics::octile_distance<scalar_t>(coord, nCoord);
 
                                 if (!_closed.contains(n)) {
-                                    solver_t::solver_utils::preallocate_emplace(_closed, n, _capacity, _params.maze.count());
-
                                     if (curr_ptr == nullptr) {
-                                        curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
+                                        curr_ptr = new (_params.homogeneous_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
                                     }
 
                                     if constexpr (params_t::lazy_sorting::value) {
-- 
2.43.0


From b3b3bdf3a1a8685b85921218eab1fc2469bc33a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 26/49] fix: osmastar: remove only leaves and exact entries,
 and stay within the memory limit

---
 include/solvers/osmastar.hpp | 76 ++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 20 deletions(-)

diff --git a/include/solvers/osmastar.hpp b/include/solvers/osmastar.hpp
index d61b899..1a79e34 100644
--- a/include/solvers/osmastar.hpp
+++ b/include/solvers/osmastar.hpp
@@ -127,11 +127,47 @@ namespace chdr::solvers {
             }
         };
 
+        template<typename open_set_t>
+        HOT static bool erase_open(open_set_t& _open, const node& _node) noexcept {
+
+            // Other nodes may have the same scores.
+            const auto [first, last] = _open.equal_range(_node);
+
+            for (auto it = first; it != last; ++it) {
+                if (it->m_index == _node.m_index) {
+                    _open.erase(it);
+                    return true;
+                }
+            }
+
+            return false;
+        }
+
+        template<typename all_nodes_t>
+        [[nodiscard]] HOT static bool has_children(const node& _node, const all_nodes_t& _all_nodes, const params_t& _params) noexcept {
+
+            for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(_node.m_index)) {
+                if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
+                    if (const auto search = _all_nodes.find(n.index); search != _all_nodes.end() && search->second.m_parent == _node.m_index) {
+                        return true;
+                    }
+                }
+            }
+
+            return false;
+        }
+
         template<typename open_set_t, typename all_nodes_t>
         HOT static void remove_worst(open_set_t& _open, all_nodes_t& _all_nodes, const params_t& _params) noexcept {
             assert(!_open.empty() && "_open cannot be empty.");
 
+            // Only leaves may be removed, as other nodes are needed for the paths which lead through them.
             auto worst_node = std::prev(_open.end());
+            while (has_children(*worst_node, _all_nodes, _params)) {
+                if (worst_node == _open.begin()) { return; }
+                --worst_node;
+            }
+
             backup_f_values(*worst_node, _all_nodes, _params);
             _all_nodes.erase(worst_node->m_index);
                  _open.erase(worst_node);
@@ -186,27 +222,17 @@ namespace chdr::solvers {
 
             /*
              * Determine the size of the final path prior to backtracking.
-             * If the maze is a graph, then the size must be determined through recursion.
              */
 
-            if constexpr (solver_t::solver_utils::template is_graph_v<decltype(_params.maze)>) { // GRAPH...
-
-                // Solution depth calculated using recursion...
-                size_t depth = 0U;
-                for (auto p = _curr.m_parent; p != null_v; ++depth) {
+            size_t depth = 0U;
+            for (auto p = _curr.m_parent; p != null_v; ++depth) {
 
-                    auto p_itr = _all_nodes.find(p);
-                    assert(p_itr != _all_nodes.end() && "Out of bounds access during SMA* path reconstruction.");
-                    p = p_itr->second.m_parent;
-                }
-
-                result.resize(depth);
+                auto p_itr = _all_nodes.find(p);
+                assert(p_itr != _all_nodes.end() && "Out of bounds access during SMA* path reconstruction.");
+                p = p_itr->second.m_parent;
             }
-            else { // GRID...
 
-                // Uniform space; solution depth obtained from g-score.
-                result.resize(static_cast<size_t>(_curr.m_gScore));
-            }
+            result.resize(depth);
 
             size_t i = 0U;
             for (auto p = _curr.m_parent; p != null_v; ++i) {
@@ -254,6 +280,9 @@ namespace chdr::solvers {
 
                 auto curr(_open.extract(_open.begin()).value());
 
+                // Skip entries which have since been improved upon, or whose node was removed:
+                if (const auto search = all_nodes.find(curr.m_index); search == all_nodes.end() || search->second.m_gScore != curr.m_gScore) { continue; }
+
                 if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
                     bool complete = true;
@@ -271,8 +300,15 @@ namespace chdr::solvers {
                                         if (const auto g = curr.m_gScore + n.distance; g < search->second.m_gScore) {
                                             const auto h = _params.h(n.coord, _params.end) * _params.weight;
 
-                                            _open.erase(search->second);
-                                            _open.emplace(all_nodes[n.index] = node(n.index, g, g + h, curr.m_index));
+                                            const bool was_open = erase_open(_open, search->second);
+
+                                            if (!was_open && !_open.empty() && memory_usage() >= _params.memory_limit) {
+                                                remove_worst(_open, all_nodes, _params);
+                                            }
+
+                                            if (was_open || memory_usage() < _params.memory_limit) {
+                                                _open.emplace(all_nodes[n.index] = node(n.index, g, g + h, curr.m_index));
+                                            }
 
                                             complete = false;
                                         }
@@ -282,12 +318,12 @@ namespace chdr::solvers {
                                     complete = false;
 
                                     // Attempt to clear space for a new node:
-                                    if (!_open.empty() && memory_usage() >= _params.memory_limit - 1U) {
+                                    if (!_open.empty() && memory_usage() + 2U > _params.memory_limit) {
                                         remove_worst(_open, all_nodes, _params);
                                     }
 
                                     // Only instantiate if there is room in memory. Otherwise, break.
-                                    if (memory_usage() < _params.memory_limit) {
+                                    if (memory_usage() + 2U <= _params.memory_limit) {
                                         const auto g = curr.m_gScore + n.distance;
                                         const auto h = _params.h(n.coord, _params.end) * _params.weight;
 
-- 
2.43.0


From a437cda9a9a708c7ecad2a9e8d4c79c64b51d07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 27/49] fix: smastar: remove only leaves and exact entries, and
 stay within the memory limit

---
 include/solvers/smastar.hpp | 76 +++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 20 deletions(-)

diff --git a/include/solvers/smastar.hpp b/include/solvers/smastar.hpp
index 8bffa96..331e820 100644
--- a/include/solvers/smastar.hpp
+++ b/include/solvers/smastar.hpp
@@ -130,11 +130,47 @@ namespace chdr::solvers {
             }
         };
 
+        template<typename open_set_t>
+        HOT static bool erase_open(open_set_t& _open, const node& _node) noexcept {
+
+            // Other nodes may have the same scores.
+            const auto [first, last] = _open.equal_range(_node);
+
+            for (auto it = first; it != last; ++it) {
+                if (it->m_index == _node.m_index) {
+                    _open.erase(it);
+                    return true;
+                }
+            }
+
+            return false;
+        }
+
+        template<typename all_nodes_t>
+        [[nodiscard]] HOT static bool has_children(const node& _node, const all_nodes_t& _all_nodes, const params_t& _params) noexcept {
+
+            for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(_node.m_index)) {
+                if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
+                    if (const auto search = _all_nodes.find(n.index); search != _all_nodes.end() && search->second.m_parent == _node.m_index) {
+                        return true;
+                    }
+                }
+            }
+
+            return false;
+        }
+
         template<typename open_set_t, typename all_nodes_t>
         HOT static void remove_worst(open_set_t& _open, all_nodes_t& _all_nodes, const params_t& _params) noexcept {
             assert(!_open.empty() && "_open cannot be empty.");
 
+            // Only leaves may be removed, as other nodes are needed for the paths which lead through them.
             auto worst_node = std::prev(_open.end());
+            while (has_children(*worst_node, _all_nodes, _params)) {
+                if (worst_node == _open.begin()) { return; }
+                --worst_node;
+            }
+
             backup_f_values(*worst_node, _all_nodes, _params);
             _all_nodes.erase(worst_node->m_index);
                  _open.erase(worst_node);
@@ -189,27 +225,17 @@ namespace chdr::solvers {
 
             /*
              * Determine the size of the final path prior to backtracking.
-             * If the maze is a graph, then the size must be determined through recursion.
              */
 
-            if constexpr (solver_t::solver_utils::template is_graph_v<decltype(_params.maze)>) { // GRAPH...
-
-                // Solution depth calculated using recursion...
-                size_t depth = 0U;
-                for (auto p = _curr.m_parent; p != null_v; ++depth) {
+            size_t depth = 0U;
+            for (auto p = _curr.m_parent; p != null_v; ++depth) {
 
-                    auto p_itr = _all_nodes.find(p);
-                    assert(p_itr != _all_nodes.end() && "Out of bounds access during SMA* path reconstruction.");
-                    p = p_itr->second.m_parent;
-                }
-
-                result.resize(depth);
+                auto p_itr = _all_nodes.find(p);
+                assert(p_itr != _all_nodes.end() && "Out of bounds access during SMA* path reconstruction.");
+                p = p_itr->second.m_parent;
             }
-            else { // GRID...
 
-                // Uniform space; solution depth obtained from g-score.
-                result.resize(static_cast<size_t>(_curr.m_gScore));
-            }
+            result.resize(depth);
 
             size_t i = 0U;
             for (auto p = _curr.m_parent; p != null_v; ++i) {
@@ -255,6 +281,9 @@ namespace chdr::solvers {
 
                 auto curr(_open.extract(_open.begin()).value());
 
+                // Skip entries which have since been improved upon, or whose node was removed:
+                if (const auto search = all_nodes.find(curr.m_index); search == all_nodes.end() || search->second.m_gScore != curr.m_gScore) { continue; }
+
                 if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
                     bool complete = true;
@@ -272,8 +301,15 @@ namespace chdr::solvers {
                                         if (const auto g = curr.m_gScore + n.distance; g < search->second.m_gScore) {
                                             const auto h = _params.h(n.coord, _params.end) * _params.weight;
 
-                                            _open.erase(search->second);
-                                            _open.emplace(all_nodes[n.index] = node(n.index, g, g + h, curr.m_index));
+                                            const bool was_open = erase_open(_open, search->second);
+
+                                            if (!was_open && !_open.empty() && memory_usage() >= _params.memory_limit) {
+                                                remove_worst(_open, all_nodes, _params);
+                                            }
+
+                                            if (was_open || memory_usage() < _params.memory_limit) {
+                                                _open.emplace(all_nodes[n.index] = node(n.index, g, g + h, curr.m_index));
+                                            }
 
                                             complete = false;
                                         }
@@ -283,12 +319,12 @@ namespace chdr::solvers {
                                     complete = false;
 
                                     // Attempt to clear space for a new node:
-                                    if (!_open.empty() && memory_usage() >= _params.memory_limit - 1U) {
+                                    if (!_open.empty() && memory_usage() + 2U > _params.memory_limit) {
                                         remove_worst(_open, all_nodes, _params);
                                     }
 
                                     // Only instantiate if there is room in memory. Otherwise, break.
-                                    if (memory_usage() < _params.memory_limit) {
+                                    if (memory_usage() + 2U <= _params.memory_limit) {
                                         const auto g = curr.m_gScore + n.distance;
                                         const auto h = _params.h(n.coord, _params.end) * _params.weight;
 
-- 
2.43.0


From 640a7584efef1047cbb2656faa7a2d6f3eba46b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 28/49] fix: mgstar: make room before a node is added, for all
 it adds

---
 include/solvers/mgstar.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/solvers/mgstar.hpp b/include/solvers/mgstar.hpp
index 8eb3964..7390af7 100644
--- a/include/solvers/mgstar.hpp
+++ b/include/solvers/mgstar.hpp
@@ -229,8 +229,10 @@ namespace chdr::solvers {
                                 if (!_closed.contains(n.index)) {
 
                                     // Attempt to resolve the issue of memory saturation.
-                                    bool full = memory_usage() >= _params.memory_limit;
-                                    if (full) {
+                                    const size_t need = curr_ptr == nullptr ? 2U : 1U;
+
+                                    bool full = false;
+                                    while (!full && memory_usage() + need > _params.memory_limit) {
                                         full = desaturate(_open, _closed, expunct, dynamic_allocations, _params);
                                     }
 
-- 
2.43.0


From b1e6680e6825851b5b1823ee66270886367f7eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:27 +0000
Subject: [PATCH 29/49] fix: solver: an endpoint outside the maze is no cell of
 it, whatever its linear index

---
 include/solvers/base/solver.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 8224127..baa500f 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -783,6 +783,23 @@ namespace chdr::solvers {
             }
         }
 
+        /**
+         * @brief Determines whether a coordinate lies within the extents of the search space.
+         *
+         * @details A coordinate beyond the extents may share its linear index with one that lies within them.
+         */
+        [[nodiscard]] static constexpr bool within(const typename params_t::coord_type& _coord, const typename params_t::coord_type& _size) noexcept {
+
+            using value_t = std::decay_t<decltype(_coord[0U])>;
+
+            bool result = true;
+            for (size_t i = 0U; i != std::tuple_size_v<typename params_t::coord_type>; ++i) {
+                result = result && !(_coord[i] < static_cast<value_t>(0)) && _coord[i] < _size[i];
+            }
+
+            return result;
+        }
+
     public:
 
         /**
@@ -833,7 +850,7 @@ namespace chdr::solvers {
         constexpr
 #endif // __cplusplus >= 202003L
         static auto solve(Args&&... _args) {
-            return solve(std::forward<Args>(_args)...);
+            return solve(static_cast<const params_t&>(params_t { std::forward<Args>(_args)... }));
         }
 
         /**
-- 
2.43.0


From 57442db7d221cc4b94b61ec6b982ca42186a9c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:27 +0000
Subject: [PATCH 30/49] fix: solver: solve from arguments makes parameters of
 them

---
 include/solvers/base/solver.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index baa500f..ad33f76 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -887,8 +887,8 @@ namespace chdr::solvers {
                 const auto s = static_cast<typename params_t::index_type>(utils::to_1d(_params.start, _params.size));
                 const auto e = static_cast<typename params_t::index_type>(utils::to_1d(_params.end,   _params.size));
 
-                if (_params.maze.contains(s) && _params.maze[s].is_active() &&
-                    _params.maze.contains(e) && _params.maze[e].is_active()
+                if (within(_params.start, _params.size) && _params.maze.contains(s) && _params.maze[s].is_active() &&
+                    within(_params.end,   _params.size) && _params.maze.contains(e) && _params.maze[e].is_active()
                 ) {
                     result = s != e ?
                         solver_t<params_t>::invoke(_params) :
@@ -945,7 +945,7 @@ namespace chdr::solvers {
         constexpr
 #endif // __cplusplus >= 202003L
         auto operator()(Args&&... _args) {
-            return operator()({ std::forward<Args>(_args)... });
+            return solve(static_cast<const params_t&>(params_t { std::forward<Args>(_args)... }));
         }
 
         /**
-- 
2.43.0


From a96e3ffdd3d524553cba88b89a8a02ed2d052cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 31/49] fix: dijkstra: follow one-way connections of a graph
 from start to end

---
 include/solvers/dijkstra.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/solvers/dijkstra.hpp b/include/solvers/dijkstra.hpp
index 1b614a3..07f3ff0 100644
--- a/include/solvers/dijkstra.hpp
+++ b/include/solvers/dijkstra.hpp
@@ -13,6 +13,7 @@
  * @file dijkstra.hpp
  */
 
+#include <algorithm>
 #include <iostream>
 #include <vector>
 
@@ -160,9 +161,12 @@ namespace chdr::solvers {
         template <typename open_set_t>
         [[nodiscard]] HOT static constexpr auto solve_internal(open_set_t& _open, const params_t& _params) {
 
-            const auto e = utils::to_1d(_params.end, _params.size);
+            // The connections of a graph may be one-way, so it is searched from its start:
+            constexpr bool do_reverse = !solver_t::solver_utils::template is_graph_v<decltype(_params.maze)>;
 
-            _open.emplace_nosort(e, static_cast<scalar_t>(0));
+            const auto s = utils::to_1d(do_reverse ? _params.end : _params.start, _params.size);
+
+            _open.emplace_nosort(s, static_cast<scalar_t>(0));
 
             multi_result result(_params.size, _params.capacity);
 
@@ -202,7 +206,13 @@ namespace chdr::solvers {
             }
 
             // TODO: return multi_result instead of std::vector<coord_t>.
-            return result.get(_params.start);
+            auto path = result.get(do_reverse ? _params.start : _params.end);
+
+            if constexpr (!do_reverse) {
+                std::reverse(path.begin(), path.end());
+            }
+
+            return path;
         }
 
         [[maybe_unused, nodiscard]] static auto invoke(const params_t& _params) {
-- 
2.43.0


From 9869d8568312e9d9a7ccbaa8353ee14f18477572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 32/49] fix: queue, stack: push onto the containers they have

---
 include/types/containers/queue.hpp | 4 ++--
 include/types/containers/stack.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/queue.hpp b/include/types/containers/queue.hpp
index fbfac29..61ead62 100644
--- a/include/types/containers/queue.hpp
+++ b/include/types/containers/queue.hpp
@@ -203,13 +203,13 @@ namespace chdr {
          * @brief Adds an element to the queue.
          * @param [in] _value  A constant reference to the value to add to the queue.
          */
-        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push(_value); }
+        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push_back(_value); }
 
         /**
          * @brief Adds an element to the queue, using move semantics.
          * @param [in] _value  A constant reference to the value to add to the queue.
          */
-        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push(std::move(_value)); }
+        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push_back(std::move(_value)); }
 
         /**
          * @brief Constructs an element in place, adding it to the queue.
diff --git a/include/types/containers/stack.hpp b/include/types/containers/stack.hpp
index 6db33cb..e4df76e 100644
--- a/include/types/containers/stack.hpp
+++ b/include/types/containers/stack.hpp
@@ -213,13 +213,13 @@ namespace chdr {
          * @brief Adds an element to the stack.
          * @param [in] _value  A constant reference to the value to add to the stack.
          */
-        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push(_value); }
+        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push_back(_value); }
 
         /**
          * @brief Adds an element to the stack, using move semantics.
          * @param [in] _value  A constant reference to the value to add to the stack.
          */
-        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push(std::move(_value)); }
+        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push_back(std::move(_value)); }
 
         /**
          * @brief Constructs an element in place, adding it to the stack.
-- 
2.43.0


From 155f9c7b104778d3287e0c8d171749d8e173303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 33/49] fix: heap: top and back are its elements, also if these
 are pointers

---
 include/types/containers/heap.hpp | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index a715c37..c327786 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -267,12 +267,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(begin().base());
-            }
-            else {
-                return *begin();
-            }
+            return *begin();
         }
 
         /**
@@ -284,12 +279,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(begin().base());
-            }
-            else {
-                return *begin();
-            }
+            return *begin();
         }
 
         /**
@@ -301,12 +291,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(end().base());
-            }
-            else {
-                return *end();
-            }
+            return c.back();
         }
 
         /**
@@ -318,12 +303,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(end().base());
-            }
-            else {
-                return *end();
-            }
+            return c.back();
         }
 
         /**
-- 
2.43.0


From 40e6fb506e89f9cda6d8221c9195cc91938eb38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 34/49] fix: existence_set: iterate with the iterators of the
 container it has

---
 include/types/containers/existence_set.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/existence_set.hpp b/include/types/containers/existence_set.hpp
index eb4d009..447f95b 100644
--- a/include/types/containers/existence_set.hpp
+++ b/include/types/containers/existence_set.hpp
@@ -410,10 +410,10 @@ namespace chdr {
          */
         [[maybe_unused, nodiscard]] constexpr auto capacity() const noexcept { return c.capacity(); }
 
-        using iterator_t               = typename std::vector<width_t>::              iterator;
-        using const_iterator_t         = typename std::vector<width_t>::        const_iterator;
-        using reverse_iterator_t       = typename std::vector<width_t>::      reverse_iterator;
-        using const_reverse_iterator_t = typename std::vector<width_t>::const_reverse_iterator;
+        using iterator_t               = typename decltype(c)::              iterator;
+        using const_iterator_t         = typename decltype(c)::        const_iterator;
+        using reverse_iterator_t       = typename decltype(c)::      reverse_iterator;
+        using const_reverse_iterator_t = typename decltype(c)::const_reverse_iterator;
 
         [[maybe_unused, nodiscard]] constexpr       iterator_t  begin()       noexcept { return c.begin();  }
         [[maybe_unused, nodiscard]] constexpr const_iterator_t  begin() const noexcept { return c.begin();  }
-- 
2.43.0


From ea4f05efebcc592474c95dcfd2c62f6bf2819651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 35/49] fix: existence_set: refuse the largest hash instead of
 writing past the end

---
 include/types/containers/existence_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/types/containers/existence_set.hpp b/include/types/containers/existence_set.hpp
index 447f95b..5a12379 100644
--- a/include/types/containers/existence_set.hpp
+++ b/include/types/containers/existence_set.hpp
@@ -110,7 +110,7 @@ namespace chdr {
         constexpr void enable(size_t _hash) {
 
             if (_hash >= c.size()) {
-                resize(_hash + 1U);
+                resize(utils::max(_hash, _hash + 1U)); // (Exceeds the maximum size if the latter overflows.)
             }
 
             /*
-- 
2.43.0


From 0ee34221c6ef3f6e479034c0a1b13a7e1e6de504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 36/49] fix: containers, graph: let a move report that it could
 not allocate

---
 include/mazes/graph.hpp                    | 2 +-
 include/types/containers/existence_set.hpp | 2 +-
 include/types/containers/heap.hpp          | 2 +-
 include/types/containers/queue.hpp         | 5 +++--
 include/types/containers/stack.hpp         | 5 +++--
 5 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index a9f83a0..7a3aa43 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -278,7 +278,7 @@ namespace chdr::mazes {
 #if __cplusplus > 202302L
         constexpr
 #endif
-        graph& operator=(graph&&) noexcept = default;
+        graph& operator=(graph&&) noexcept(std::is_nothrow_move_assignable_v<adjacency_set_t>) = default;
 
         /**
          * @brief Adds a new vertex to the graph with the specified identifier.
diff --git a/include/types/containers/existence_set.hpp b/include/types/containers/existence_set.hpp
index 5a12379..eacaac3 100644
--- a/include/types/containers/existence_set.hpp
+++ b/include/types/containers/existence_set.hpp
@@ -221,7 +221,7 @@ namespace chdr {
          * @param _other The existence_set to move from.
          * @return Reference to this existence_set after the assignment.
          */
-        existence_set& operator=(existence_set&& _other) noexcept {
+        existence_set& operator=(existence_set&& _other) noexcept(std::is_nothrow_move_assignable_v<std::pmr::vector<width_t>>) {
             if (this != &_other) {
                 c = std::move(_other.c);
             }
diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index c327786..d04190c 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -164,7 +164,7 @@ namespace chdr {
          * @param _other The heap to move from.
          * @return Reference to this heap after the assignment.
          */
-        heap& operator=(heap&& _other) noexcept {
+        heap& operator=(heap&& _other) noexcept(std::is_nothrow_move_assignable_v<Container>) {
             if (this != &_other) {
                 c    = std::move(_other.c);
                 comp = std::move(_other.comp);
diff --git a/include/types/containers/queue.hpp b/include/types/containers/queue.hpp
index 61ead62..b08e260 100644
--- a/include/types/containers/queue.hpp
+++ b/include/types/containers/queue.hpp
@@ -16,6 +16,7 @@
 #include <cstddef>
 #include <deque>
 #include <memory_resource>
+#include <type_traits>
 
 // ReSharper disable once CppUnusedIncludeDirective
 #include "../../utils/intrinsics.hpp" // NOLINT(*-include-cleaner)
@@ -97,7 +98,7 @@ namespace chdr {
          *
          * @param [in] _other The queue to move from.
          */
-        constexpr queue(queue&& _other) noexcept : c(std::move(_other.c)) {}
+        constexpr queue(queue&& _other) noexcept(std::is_nothrow_move_constructible_v<queue_t>) : c(std::move(_other.c)) {}
 
         /**
          * @brief Move assignment operator.
@@ -108,7 +109,7 @@ namespace chdr {
          * @param [in] _other The queue to move from.
          * @return Reference to this queue after assignment.
          */
-        constexpr queue& operator=(queue&& _other) noexcept {
+        constexpr queue& operator=(queue&& _other) noexcept(std::is_nothrow_move_assignable_v<queue_t>) {
             if (this != &_other) {
                 c = std::move(_other.c);
             }
diff --git a/include/types/containers/stack.hpp b/include/types/containers/stack.hpp
index e4df76e..243e54a 100644
--- a/include/types/containers/stack.hpp
+++ b/include/types/containers/stack.hpp
@@ -15,6 +15,7 @@
 
 #include <cstddef>
 #include <memory_resource>
+#include <type_traits>
 #include <vector>
 
 // ReSharper disable once CppUnusedIncludeDirective
@@ -111,7 +112,7 @@ namespace chdr {
          *
          * @param [in] _other The stack to move from.
          */
-        constexpr stack(stack&& _other) noexcept : c(std::move(_other.c)) {}
+        constexpr stack(stack&& _other) noexcept(std::is_nothrow_move_constructible_v<stack_t>) : c(std::move(_other.c)) {}
 
         /**
          * @brief Move assignment operator.
@@ -122,7 +123,7 @@ namespace chdr {
          * @param [in] _other The stack to move from.
          * @return Reference to this stack after assignment.
          */
-        constexpr stack& operator=(stack&& _other) noexcept {
+        constexpr stack& operator=(stack&& _other) noexcept(std::is_nothrow_move_assignable_v<stack_t>) {
             if (this != &_other) {
                 c = std::move(_other.c);
             }
-- 
2.43.0


From d5f73adbd3290679128ddc7f8009e9a4f53fe4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 37/49] fix: queue: clear without a container of another memory
 resource

---
 include/types/containers/queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/types/containers/queue.hpp b/include/types/containers/queue.hpp
index b08e260..0db7963 100644
--- a/include/types/containers/queue.hpp
+++ b/include/types/containers/queue.hpp
@@ -253,7 +253,7 @@ namespace chdr {
          *          be valid after the queue is cleared.
          */
         [[maybe_unused]] constexpr void clear() {
-            c = std::move(decltype(c){});
+            c.clear();
         }
 
         using               iterator_t = typename decltype(c)::              iterator;
-- 
2.43.0


From e98cfc510c7ab0c44289ebe3f93241e0c38acc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 38/49] fix: heap: find parents and children also if there are
 more than two

---
 include/types/containers/heap.hpp | 38 ++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index d04190c..cf7c005 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -74,6 +74,22 @@ namespace chdr {
             return static_cast<size_t>(&(_item) - &(c[0U]));
         }
 
+        /**
+         * @brief Calculates the index of the parent of the element at the given index, which must not be the root.
+         * @param _index [in] Index within the container, where the root is at 1.
+         */
+        [[nodiscard]] HOT static constexpr size_t parent_of(size_t _index) noexcept {
+            return ((_index - 2U) / Kd) + 1U;
+        }
+
+        /**
+         * @brief Calculates the index of the first child of the element at the given index.
+         * @param _index [in] Index within the container, where the root is at 1.
+         */
+        [[nodiscard]] HOT static constexpr size_t first_child_of(size_t _index) noexcept {
+            return ((_index - 1U) * Kd) + 2U;
+        }
+
     public:
 
         /**
@@ -190,8 +206,8 @@ namespace chdr {
                 _container.end()
             );
 
-            if (!empty()) {
-                for (size_t i = size() / Kd; i >= 1U; --i) {
+            if (size() > 1U) {
+                for (size_t i = parent_of(size()); i >= 1U; --i) {
                     sort_down(c[i]);
                 }
             }
@@ -215,8 +231,8 @@ namespace chdr {
                 std::make_move_iterator(_container.end())
             );
 
-            if (!empty()) {
-                for (size_t i = size() / Kd; i >= 1U; --i) {
+            if (size() > 1U) {
+                for (size_t i = parent_of(size()); i >= 1U; --i) {
                     sort_down(c[i]);
                 }
             }
@@ -421,7 +437,7 @@ namespace chdr {
                     // Restore heap property:
                     if (size() > 1U) {
 
-                        if (i > 1U && comp(c[i], c[i / Kd])) {
+                        if (i > 1U && comp(c[i], c[parent_of(i)])) {
                             sort_up(c[i]);
                         }
                         else {
@@ -518,7 +534,7 @@ namespace chdr {
                 auto value_to_insert = std::move(c[i]);
 
                 while (i > 1U) {
-                    const auto p = i / Kd;
+                    const auto p = parent_of(i);
 
                     if (comp(c[p], value_to_insert)) {
                         c[i] = std::move(c[p]);
@@ -553,8 +569,8 @@ namespace chdr {
 
                 while (true) {
 
-                    const size_t c0 = i * Kd;         // First child index
-                    const size_t cn = c0 + (Kd - 1U); // Last child index in range
+                    const size_t c0 = first_child_of(i); // First child index
+                    const size_t cn = c0 + (Kd - 1U);    // Last child index in range
 
                     if (c0 < c.size()) {
 
@@ -737,7 +753,7 @@ namespace chdr {
                     }
 
                     // Iterate through child nodes based on the Kd dimension.
-                    const size_t child_start = i * Kd;
+                    const size_t child_start = first_child_of(i);
                     const size_t child_end   = std::min(child_start + Kd, c.size());
 
                     bool traversed = false;
@@ -782,7 +798,7 @@ namespace chdr {
                     }
 
                     // Iterate through child nodes based on the Kd dimension.
-                    const size_t child_start = i * Kd;
+                    const size_t child_start = first_child_of(i);
                     const size_t child_end   = std::min(child_start + Kd, c.size());
 
                     bool traversed = false;
@@ -852,7 +868,7 @@ namespace chdr {
                     c[distance_from_start] = std::move(c.back());
                     c.pop_back();
                     if (size_before > 1U) {
-                        if (distance_from_start > 1U && comp(c[distance_from_start], c[distance_from_start / Kd])) {
+                        if (distance_from_start > 1U && comp(c[distance_from_start], c[parent_of(distance_from_start)])) {
                             sort_up(c[distance_from_start]);
                         }
                         else {
-- 
2.43.0


From 7aea6ba742f89b2e2162d03baaf17fec8ea6b362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 39/49] fix: heap: erase the elements asked for, and keep the
 order

---
 include/types/containers/heap.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index cf7c005..ae750fb 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -425,9 +425,9 @@ namespace chdr {
 
             assert(i < c.size() && "(Out of Bounds) Item does not exist in Heap.");
 
-            if (i < size()) {
+            if (i <= size()) {
 
-                if (i == size() - 1U) {
+                if (i == size()) {
                     c.pop_back(); // If the item to remove is the last item, just remove it.
                 }
                 else {
@@ -437,7 +437,7 @@ namespace chdr {
                     // Restore heap property:
                     if (size() > 1U) {
 
-                        if (i > 1U && comp(c[i], c[parent_of(i)])) {
+                        if (i > 1U && comp(c[parent_of(i)], c[i])) {
                             sort_up(c[i]);
                         }
                         else {
@@ -868,7 +868,7 @@ namespace chdr {
                     c[distance_from_start] = std::move(c.back());
                     c.pop_back();
                     if (size_before > 1U) {
-                        if (distance_from_start > 1U && comp(c[distance_from_start], c[parent_of(distance_from_start)])) {
+                        if (distance_from_start > 1U && comp(c[parent_of(distance_from_start)], c[distance_from_start])) {
                             sort_up(c[distance_from_start]);
                         }
                         else {
@@ -903,8 +903,12 @@ namespace chdr {
          * @param _last Iterator to the element past the last one to erase.
          */
         constexpr void erase(iterator_t _first, iterator_t _last) {
-            for (auto it = _first; it != _last;) {
-                it = erase(it); // Keep erasing until the last element is removed.
+            c.erase(_first, _last);
+
+            if (size() > 1U) {
+                for (size_t i = parent_of(size()); i >= 1U; --i) {
+                    sort_down(c[i]);
+                }
             }
         }
 
-- 
2.43.0


From c7802b443eb72dcbdf121b8259a26aada929080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 40/49] fix: heap: dequeue the only element

---
 include/types/containers/heap.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index ae750fb..9734f6b 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -466,12 +466,7 @@ namespace chdr {
 
             T result(std::move(top()));
 
-            if (size() > 0U) {
-                c[1U] = std::move(c.back());
-            }
-            c.pop_back();
-
-            sort_down(c[1U]);
+            pop();
 
             return result;
         }
-- 
2.43.0


From d237d823f43bd8b90f92fe5befbe855eaf6aba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 41/49] fix: heap: insert where the order calls for it, and
 return where that is

---
 include/types/containers/heap.hpp | 63 +++++++++++++++++--------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 9734f6b..ba96629 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -90,6 +90,34 @@ namespace chdr {
             return ((_index - 1U) * Kd) + 2U;
         }
 
+        /**
+         * @brief Moves the element at the given index upwards to where it belongs.
+         * @param i [in] Index of the element within the container.
+         * @return Index of the element afterwards.
+         */
+        HOT constexpr size_t sift_up(size_t i) noexcept {
+
+            assert(i < c.size() && "(Out of Bounds) Item does not exist in Heap.");
+
+            auto value_to_insert = std::move(c[i]);
+
+            while (i > 1U) {
+                const auto p = parent_of(i);
+
+                if (comp(c[p], value_to_insert)) {
+                    c[i] = std::move(c[p]);
+                    i = p;
+                }
+                else {
+                    break;
+                }
+            }
+
+            c[i] = std::move(value_to_insert);
+
+            return i;
+        }
+
     public:
 
         /**
@@ -521,26 +549,7 @@ namespace chdr {
         HOT constexpr void sort_up(const T& _item) noexcept {
 
             if (size() > 1U) {
-
-                auto i = index_of(_item);
-
-                assert(i < c.size() && "(Out of Bounds) Item does not exist in Heap.");
-
-                auto value_to_insert = std::move(c[i]);
-
-                while (i > 1U) {
-                    const auto p = parent_of(i);
-
-                    if (comp(c[p], value_to_insert)) {
-                        c[i] = std::move(c[p]);
-                        i = p;
-                    }
-                    else {
-                        break;
-                    }
-                }
-
-                c[i] = std::move(value_to_insert);
+                sift_up(index_of(_item));
             }
         }
 
@@ -822,10 +831,9 @@ namespace chdr {
          * @return iterator_t An iterator pointing to the inserted element.
          */
         constexpr iterator_t insert(iterator_t _position, const T& _value) {
-            auto distance_from_start = std::distance(c.begin(), _position) - 1U; // Adjust for super element.
-            c.insert(_position, _value);
-            sort_up(c[distance_from_start]);
-            return c.begin() + distance_from_start + 1U; // Return iterator to inserted element
+            (void)_position; // The order of the heap decides where the element belongs.
+            c.push_back(_value);
+            return c.begin() + sift_up(size()); // Return iterator to inserted element
         }
 
         /**
@@ -836,10 +844,9 @@ namespace chdr {
          * @return iterator_t An iterator pointing to the inserted element.
          */
         constexpr iterator_t insert(iterator_t _position, T&& _value) {
-            auto distance_from_start = std::distance(c.begin(), _position) - 1U; // Adjust for super element.
-            c.insert(_position, std::move(_value));
-            sort_up(c[distance_from_start]);
-            return c.begin() + distance_from_start + 1U; // Return iterator to inserted element
+            (void)_position; // The order of the heap decides where the element belongs.
+            c.push_back(std::move(_value));
+            return c.begin() + sift_up(size()); // Return iterator to inserted element
         }
 
         /**
-- 
2.43.0


From f48817c988984267b2eae51bb404aeeac9d85690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 42/49] fix: heap: end the reverse iteration before the super
 element

---
 include/types/containers/heap.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index ba96629..e632235 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -17,6 +17,9 @@
 
 #include <cstddef>
 #include <functional>
+#include <iterator>
+#include <limits>
+#include <type_traits>
 #include <vector>
 
 // ReSharper disable once CppUnusedIncludeDirective
@@ -933,9 +936,9 @@ namespace chdr {
         [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rbegin() const noexcept { return c.rbegin();  }
         [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crbegin() const noexcept { return c.crbegin(); }
 
-        [[maybe_unused, nodiscard]] constexpr reverse_iterator_t        rend()       noexcept { return c.rend();  }
-        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rend() const noexcept { return c.rend();  }
-        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crend() const noexcept { return c.crend(); }
+        [[maybe_unused, nodiscard]] constexpr reverse_iterator_t        rend()       noexcept { return std::prev(c.rend());  }
+        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rend() const noexcept { return std::prev(c.rend());  }
+        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crend() const noexcept { return std::prev(c.crend()); }
 
     };
 
-- 
2.43.0


From 3903667db8e8d7848cf97c799b2343a766c87be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 43/49] fix: heap: be usable after a move from it

---
 include/types/containers/heap.hpp | 34 ++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index e632235..d6c2bd9 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -17,7 +17,6 @@
 
 #include <cstddef>
 #include <functional>
-#include <iterator>
 #include <limits>
 #include <type_traits>
 #include <vector>
@@ -93,6 +92,15 @@ namespace chdr {
             return ((_index - 1U) * Kd) + 2U;
         }
 
+        /**
+         * @brief Adds the super element if there is none, as in a heap which was moved from.
+         */
+        HOT constexpr void anchor() {
+            if (c.empty()) {
+                c.emplace_back();
+            }
+        }
+
         /**
          * @brief Moves the element at the given index upwards to where it belongs.
          * @param i [in] Index of the element within the container.
@@ -373,6 +381,7 @@ namespace chdr {
          * @param [in] _item Item to add to the heap.
          */
         [[maybe_unused]] HOT constexpr void push(const T& _item) {
+            anchor();
             c.push_back(_item);
             sort_up(c.back());
         }
@@ -382,6 +391,7 @@ namespace chdr {
          * @param [in] _item Item to move into the heap.
          */
         [[maybe_unused]] HOT constexpr void push(T&& _item) {
+            anchor();
             c.push_back(std::move(_item));
             sort_up(c.back());
         }
@@ -394,6 +404,7 @@ namespace chdr {
          */
         template <class... Args>
         [[maybe_unused]] HOT constexpr void emplace(Args&&... _args) {
+            anchor();
             c.emplace_back(std::forward<Args>(_args)...);
             sort_up(c.back());
         }
@@ -420,14 +431,14 @@ namespace chdr {
          * @param [in] _item Item to add to the heap.
          * @warning Not sorting the heap may violate the heap property.
          */
-        [[maybe_unused]] HOT constexpr void push_nosort(const T& _item) { c.push_back(_item); }
+        [[maybe_unused]] HOT constexpr void push_nosort(const T& _item) { anchor(); c.push_back(_item); }
 
         /**
          * @brief Adds a new element to the heap container using move semantics.
          * @param [in] _item Item to move into the heap.
          * @warning Not sorting the heap may violate the heap property.
          */
-        [[maybe_unused]] HOT constexpr void push_nosort(T&& _item) { c.push_back(std::move(_item)); }
+        [[maybe_unused]] HOT constexpr void push_nosort(T&& _item) { anchor(); c.push_back(std::move(_item)); }
 
         /**
          * @brief Adds a new element to the heap container using perfect forwarding. Does not sort the heap.
@@ -437,7 +448,7 @@ namespace chdr {
          * @warning Not sorting the heap may violate the heap property.
          */
         template <class... Args>
-        [[maybe_unused]] HOT constexpr void emplace_nosort(Args&&... _args) { c.emplace_back(std::forward<Args>(_args)...); }
+        [[maybe_unused]] HOT constexpr void emplace_nosort(Args&&... _args) { anchor(); c.emplace_back(std::forward<Args>(_args)...); }
 
         /**
          * @brief Removes a specified item from the heap, restoring the heap property after removal.
@@ -835,6 +846,7 @@ namespace chdr {
          */
         constexpr iterator_t insert(iterator_t _position, const T& _value) {
             (void)_position; // The order of the heap decides where the element belongs.
+            anchor();
             c.push_back(_value);
             return c.begin() + sift_up(size()); // Return iterator to inserted element
         }
@@ -848,6 +860,7 @@ namespace chdr {
          */
         constexpr iterator_t insert(iterator_t _position, T&& _value) {
             (void)_position; // The order of the heap decides where the element belongs.
+            anchor();
             c.push_back(std::move(_value));
             return c.begin() + sift_up(size()); // Return iterator to inserted element
         }
@@ -895,6 +908,7 @@ namespace chdr {
          */
         template <typename InputIt>
         constexpr void insert(InputIt _first, InputIt _last) {
+            anchor();
             for (InputIt it = _first; it != _last; ++it) {
                 c.push_back(*it);
                 sort_up(c.back());
@@ -924,9 +938,9 @@ namespace chdr {
             return c;
         }
 
-        [[maybe_unused, nodiscard]] constexpr iterator_t        begin()       noexcept { return c.begin()  + 1U; }
-        [[maybe_unused, nodiscard]] constexpr const_iterator_t  begin() const noexcept { return c.begin()  + 1U; }
-        [[maybe_unused, nodiscard]] constexpr const_iterator_t cbegin() const noexcept { return c.cbegin() + 1U; }
+        [[maybe_unused, nodiscard]] constexpr iterator_t        begin()       noexcept { return c.begin()  + (c.empty() ? 0 : 1); }
+        [[maybe_unused, nodiscard]] constexpr const_iterator_t  begin() const noexcept { return c.begin()  + (c.empty() ? 0 : 1); }
+        [[maybe_unused, nodiscard]] constexpr const_iterator_t cbegin() const noexcept { return c.cbegin() + (c.empty() ? 0 : 1); }
 
         [[maybe_unused, nodiscard]] constexpr iterator_t        end()       noexcept { return c.end();  }
         [[maybe_unused, nodiscard]] constexpr const_iterator_t  end() const noexcept { return c.end();  }
@@ -936,9 +950,9 @@ namespace chdr {
         [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rbegin() const noexcept { return c.rbegin();  }
         [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crbegin() const noexcept { return c.crbegin(); }
 
-        [[maybe_unused, nodiscard]] constexpr reverse_iterator_t        rend()       noexcept { return std::prev(c.rend());  }
-        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rend() const noexcept { return std::prev(c.rend());  }
-        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crend() const noexcept { return std::prev(c.crend()); }
+        [[maybe_unused, nodiscard]] constexpr reverse_iterator_t        rend()       noexcept { return c.rend()  - (c.empty() ? 0 : 1); }
+        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rend() const noexcept { return c.rend()  - (c.empty() ? 0 : 1); }
+        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crend() const noexcept { return c.crend() - (c.empty() ? 0 : 1); }
 
     };
 
-- 
2.43.0


From 6ebdbf47bcd080cc609d020e4102f38585de7fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 44/49] fix: heap: count the super element as none of the
 capacity

---
 include/types/containers/heap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index d6c2bd9..f298896 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -297,7 +297,7 @@ namespace chdr {
          * @brief Retrieves the maximum number of elements that can be held by the container without reallocating memory.
          * @return size_t The maximum number of elements that the container can accommodate without reallocating.
          */
-        [[maybe_unused, nodiscard]] constexpr size_t capacity() const noexcept { return c.capacity(); }
+        [[maybe_unused, nodiscard]] constexpr size_t capacity() const noexcept { return utils::max(c.capacity(), static_cast<size_t>(1U)) - static_cast<size_t>(1U); }
 
         /**
          * @brief Retrieves a reference to the front element of the heap.
@@ -647,7 +647,7 @@ namespace chdr {
          * @param _capacity The minimum number of elements the container should be able to hold.
          */
         [[maybe_unused]] constexpr void reserve(size_t _capacity) {
-            c.reserve(_capacity);
+            c.reserve(utils::min(_capacity, std::numeric_limits<size_t>::max() - 1U) + 1U); // (With the super element.)
         }
 
         /**
-- 
2.43.0


From 10b7f22454cd5f8903687abfd5cf4e2079fedb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 45/49] fix: graph: keep a node without edges when no edge of
 it is removed

---
 include/mazes/graph.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 7a3aa43..99b1cb4 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -13,6 +13,7 @@
  * @file graph.hpp
  */
 
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <cstddef>
@@ -324,10 +325,13 @@ namespace chdr::mazes {
             if (contains(_from_id)) {
 
                 auto& bucket = m_entries[_from_id];
-                bucket.erase(std::remove(bucket.begin(), bucket.end(), _edge), bucket.end());
 
-                if (bucket.empty()) {
-                    m_entries.erase(_from_id);
+                if (const auto removed = std::remove(bucket.begin(), bucket.end(), _edge); removed != bucket.end()) {
+                    bucket.erase(removed, bucket.end());
+
+                    if (bucket.empty()) {
+                        m_entries.erase(_from_id);
+                    }
                 }
             }
         }
-- 
2.43.0


From 690089dd82f3ec52cf49c445c740fb43659f4735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 46/49] fix: graph: prune without leaving connections to
 removed nodes

---
 include/mazes/graph.hpp | 90 ++++++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 41 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 99b1cb4..9b96dfb 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -19,6 +19,7 @@
 #include <cstddef>
 #include <future>
 #include <initializer_list>
+#include <iterator>
 #include <mutex>
 #include <thread>
 #include <unordered_map>
@@ -365,71 +366,78 @@ namespace chdr::mazes {
 
             // TODO: Extend support for pruning directed graphs.
 
-            std::vector<index_t> nodesToRemove;
+            // Finds the only edge of an entry which leads to the given node, provided that it has the given cost:
+            const auto find_back = [](neighbours_t& _edges, const index_t& _node, const scalar_t& _cost) {
+
+                const auto leads = [&_node](const edge_t& _edge) { return _edge.first == _node; };
+
+                auto it = std::find_if(_edges.begin(), _edges.end(), leads);
+
+                if (it != _edges.end() && (it->second != _cost || std::find_if(std::next(it), _edges.end(), leads) != _edges.end())) {
+                    it = _edges.end();
+                }
+
+                return it;
+            };
+
+            // Lets an edge lead past a pruned node, unless there is such an edge already:
+            const auto redirect = [](neighbours_t& _edges, typename neighbours_t::iterator _it, const edge_t& _edge) {
+
+                if (std::find(_edges.begin(), _edges.end(), _edge) == _edges.end()) {
+                    *_it = _edge;
+                }
+                else {
+                    _edges.erase(_it);
+                }
+            };
 
             bool dirty = false;
+            bool pruned;
 
             do {
-                nodesToRemove.clear();
-
-                for (const auto& entry : m_entries) {
+                pruned = false;
 
-                    if (m_entries.size() > 2U) {
+                for (auto entry = m_entries.begin(); entry != m_entries.end() && m_entries.size() > 2U;) {
 
-                        if (auto& [node, neighbours] = entry; neighbours.size() == 2U) {
+                    const auto& [node, neighbours] = *entry;
 
-                            dirty = ConsolidateAfterPrune;
+                    if (neighbours.size() == 2U) {
 
-                            auto it = neighbours.begin();
+                        const auto [n1_id, n1_cost] = neighbours[0U];
+                        const auto [n2_id, n2_cost] = neighbours[1U];
 
-                            auto& [n1_id, n1_cost] = *it;
-                            auto& [n2_id, n2_cost] = *(++it);
+                        if (n1_id != n2_id && n1_id != node && n2_id != node) {
 
                             auto s1 = m_entries.find(n1_id);
                             auto s2 = m_entries.find(n2_id);
 
-                            // Merge the connections from the current node with its neighbours:
+                            if (s1 != m_entries.end() && s2 != m_entries.end()) {
 
-                            if (s1 != m_entries.end() && n1_id != n2_id) {
-                                auto& set = s1->second;
-                                auto  sn  = std::find(set.begin(), set.end(), std::make_pair(node, n1_cost));
+                                auto b1 = find_back(s1->second, node, n1_cost);
+                                auto b2 = find_back(s2->second, node, n2_cost);
 
-                                if (sn != set.end()) {
+                                if (b1 != s1->second.end() && b2 != s2->second.end()) {
 
-                                    if (neighbour_t new_vertex { n2_id, sn->second + n2_cost };
-                                        std::find(set.begin(), set.end(), new_vertex) == set.end()
-                                    ) {
-                                        set.emplace_back(new_vertex);
-                                    }
-                                }
-                            }
+                                    // Merge the connections from the current node with its neighbours:
+                                    redirect(s1->second, b1, { n2_id, n1_cost + n2_cost });
+                                    redirect(s2->second, b2, { n1_id, n1_cost + n2_cost });
 
-                            if (s2 != m_entries.end() && n1_id != n2_id) {
-                                auto& set = s2->second;
-                                auto  sn  = std::find(set.begin(), set.end(), std::make_pair(node, n2_cost));
+                                    // Remove the current node from the graph.
+                                    entry = m_entries.erase(entry);
 
-                                if (sn != set.end()) {
-                                    neighbour_t new_vertex{n1_id, sn->second + n1_cost};
-                                    set.erase(sn);
-                                    if (std::find(set.begin(), set.end(), new_vertex) == set.end()) {
-                                        set.emplace_back(new_vertex);
-                                    }
+                                    dirty  = ConsolidateAfterPrune;
+                                    pruned = true;
+
+                                    continue;
                                 }
                             }
-
-                            // Remove the current node from the graph.
-                            nodesToRemove.emplace_back(node);
                         }
                     }
-                    else {
-                        break;
-                    }
-                }
-                for (const auto& node : nodesToRemove) {
-                    m_entries.erase(node);
+
+                    ++entry;
                 }
             }
-            while (!nodesToRemove.empty() && m_entries.size() > 2U);
+            while (pruned);
 
             if (dirty) {
                 chdr::malloc_consolidate();
-- 
2.43.0


From 0e4b40c4ccfbd096426a53a07f851766fc1100b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 47/49] fix: graph: connect what a passage of the grid
 connects, on any schedule

---
 include/mazes/graph.hpp | 70 +++++++++++++----------------------------
 1 file changed, 22 insertions(+), 48 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 9b96dfb..101d73e 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -20,17 +20,14 @@
 #include <future>
 #include <initializer_list>
 #include <iterator>
-#include <mutex>
 #include <thread>
 #include <unordered_map>
-#include <unordered_set>
 #include <utility>
 #include <vector>
 
 // ReSharper disable once CppUnusedIncludeDirective
 #include <memory_resource> // NOLINT(*-include-cleaner)
 
-#include "../types/containers/stack.hpp"
 #include "../utils/utils.hpp"
 #include "grid.hpp"
 #include "nodes/id_node.hpp"
@@ -167,25 +164,14 @@ namespace chdr::mazes {
             else {
 
                 // TODO: Add support for directed graphs.
-                std::mutex mtx;
-
                 const auto worker = [&](index_t _start, index_t _end) ALWAYS_INLINE {
 
-                    std::pmr::unsynchronized_pool_resource pool;
-                    stack<edge_t> stack(&pool);
-
-                    std::pmr::unordered_set<index_t> global_closed(&pool);
-                    std::pmr::unordered_set<index_t> local_closed(&pool);
-
-                    std::pmr::unordered_map<index_t, neighbours_t> thread_connections(&pool);
+                    std::vector<std::pair<index_t, edge_t>> connections;
 
                     for (auto index = _start; index < _end; ++index) {
 
                         if (const auto& element = _grid[index]; element.is_active()) {
 
-                            global_closed.clear();
-                            global_closed.insert(index);
-
                             if (const auto& neighbours = _grid.get_neighbours(index); !_grid.is_transitory(neighbours)) {
 
                                 for (const auto& n1 : neighbours) {
@@ -194,52 +180,37 @@ namespace chdr::mazes {
 
                                         const auto nIdx1 = static_cast<index_t>(utils::to_1d(nCoord1, size));
 
-                                        local_closed.clear();
-                                        stack.emplace(std::make_pair(nIdx1, static_cast<scalar_t>(1)));
-
-                                        while (!stack.empty()) {
-
-                                            const auto [currIdx, currDistance] = std::move(stack.top());
-                                            stack.pop();
+                                        // Follow the passage through transitory nodes to where it ends or branches:
+                                        auto prevIdx = index;
+                                        auto currIdx = nIdx1;
+                                        auto distance = static_cast<scalar_t>(1);
 
-                                            if (local_closed.find(currIdx) == local_closed.end()) {
+                                        while (currIdx != index && _grid.is_transitory(currIdx)) {
 
-                                                 local_closed.insert(currIdx);
-                                                global_closed.insert(currIdx);
+                                            for (const auto& n2 : _grid.get_neighbours(currIdx)) {
 
-                                                for (const auto& n3 : _grid.get_neighbours(currIdx)) {
+                                                if (const auto& [nActive2, nCoord2] = n2; nActive2) {
 
-                                                    if (const auto& [sActive3, sCoord3] = n3; sActive3) {
-
-                                                        if (const auto s = static_cast<index_t>(utils::to_1d(sCoord3, size));
-                                                            global_closed.find(s) == global_closed.end()
-                                                        ) {
-
-                                                            const edge_t next = std::make_pair(s, currDistance + static_cast<scalar_t>(1));
-
-                                                            if (_grid.is_transitory(s)) {
-                                                                stack.emplace(std::move(next));
-                                                            }
-                                                            else {
-                                                                thread_connections[nIdx1].emplace_back(std::move(next));
-                                                                stack.clear();
-                                                                break;
-                                                            }
-                                                        }
+                                                    if (const auto nIdx2 = static_cast<index_t>(utils::to_1d(nCoord2, size)); nIdx2 != prevIdx) {
+                                                        prevIdx = currIdx;
+                                                        currIdx = nIdx2;
+                                                        distance += static_cast<scalar_t>(1);
+                                                        break;
                                                     }
                                                 }
                                             }
                                         }
 
-                                        for (const auto& item : thread_connections[nIdx1]) {
-                                            const std::lock_guard lock(mtx);
-                                            add(index, item);
+                                        if (currIdx != index) {
+                                            connections.emplace_back(index, std::make_pair(currIdx, distance));
                                         }
                                     }
                                 }
                             }
                         }
                     }
+
+                    return connections;
                 };
 
                 // Create a thread pool to perform work in parallel:
@@ -248,7 +219,7 @@ namespace chdr::mazes {
 
                 const auto chunkSize = static_cast<index_t>((count + numThreads - 1U) / numThreads);
 
-                std::array<std::future<void>, 6U> futures;
+                std::array<std::future<std::vector<std::pair<index_t, edge_t>>>, 6U> futures;
 
                 for (size_t i = 0U; i < numThreads; ++i) {
                     assert(i < numThreads && "Error: Index 'i' exceeds the number of initialised threads.");
@@ -262,7 +233,10 @@ namespace chdr::mazes {
                 for (size_t i = 0U; i < numThreads; ++i) {
                     assert(i < numThreads && "Error: Index 'i' exceeds the number of initialised threads.");
 
-                    futures[i].get();
+                    // Connections are added in the order of the grid, whichever thread was the first to finish.
+                    for (const auto& [index, connection] : futures[i].get()) {
+                        add(index, connection);
+                    }
                 }
 
                 // Finalise the pruning process on a single thread.
-- 
2.43.0


From 571ed74202474c011176e36852dabc01aaa55032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 48/49] fix: let a grid tell whether it contains a coordinate

---
 include/mazes/grid.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/mazes/grid.hpp b/include/mazes/grid.hpp
index 7eba226..7e81132 100644
--- a/include/mazes/grid.hpp
+++ b/include/mazes/grid.hpp
@@ -298,7 +298,15 @@ namespace chdr::mazes {
          * @return `true` if the provided coordinate lies within the bounds of the grid. Otherwise, `false`.
          */
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
-            return std::all_of(0U, s_rank, [&](size_t _i) noexcept { return _id[_i] < m_size[_i]; });
+
+            for (size_t i = 0U; i < s_rank; ++i) {
+
+                if (_id[i] >= m_size[i]) {
+                    return false;
+                }
+            }
+
+            return true;
         }
 
         /**
@@ -759,7 +767,15 @@ namespace chdr::mazes {
          * @return `true` if the provided coordinate lies within the bounds of the grid. Otherwise, `false`.
          */
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
-            return std::all_of(0U, s_rank, [&](size_t _i) noexcept { return _id[_i] < m_size[_i]; });
+
+            for (size_t i = 0U; i < s_rank; ++i) {
+
+                if (_id[i] >= m_size[i]) {
+                    return false;
+                }
+            }
+
+            return true;
         }
 
         /**
-- 
2.43.0


From b601559f68ef1674d9737039e33fb243ab1275c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:32 +0000
Subject: [PATCH 49/49] fix: mgstar: close nodes when they are expanded

---
 include/solvers/mgstar.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/solvers/mgstar.hpp b/include/solvers/mgstar.hpp
index 7390af7..ffad6e6 100644
--- a/include/solvers/mgstar.hpp
+++ b/include/solvers/mgstar.hpp
@@ -172,9 +172,10 @@ namespace chdr::solvers {
             else if (!_open.empty()) { // LOSSY:
 
                 auto worst_node = std::prev(_open.end());
-                bitwise_regression(worst_node->m_parent, _closed);
-                _closed.erase(worst_node->m_index);
-                  _open.erase(worst_node);
+                if (!_closed.contains(worst_node->m_index)) {
+                    bitwise_regression(worst_node->m_parent, _closed);
+                }
+                _open.erase(worst_node);
             }
             else {
                 result = true;
@@ -196,7 +197,6 @@ namespace chdr::solvers {
             const auto e = utils::to_1d(end,   _params.size);
 
               _open.emplace(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-            _closed.emplace(s);
 
             size_t dynamic_allocations(0U);
             size_t  closed_allocations(1U);
@@ -219,7 +219,10 @@ namespace chdr::solvers {
 
                     node* RESTRICT curr_ptr(nullptr);
 
-                    if (!best_solution.has_value() || curr.m_gScore < best_solution->m_gScore) {
+                    // A node may be open more than once. Only its best entry, which comes first, is expanded:
+                    if (!_closed.contains(curr.m_index) && (!best_solution.has_value() || curr.m_gScore < best_solution->m_gScore)) {
+
+                        solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
 
                         for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
 
@@ -237,7 +240,6 @@ namespace chdr::solvers {
                                     }
 
                                     if (!full) {
-                                        solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
 
                                         if (curr_ptr == nullptr) {
                                             curr_ptr = new (_params.homogeneous_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr)); dynamic_allocations++;
@@ -277,7 +279,8 @@ namespace chdr::solvers {
                             }
 
                             if (!full) {
-                                _open.emplace(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
+                                _closed.erase(s);
+                                  _open.emplace(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
                             }
                         }
                     }
-- 
2.43.0

