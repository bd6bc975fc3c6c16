From 5fd32fbbc3cb2c5decd8460d69f0da866ffb9ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:09 +0000
Subject: [PATCH 01/11] fix: compute block map working-set sizes in 64 bits

The sizes of the operands and of the per-block reads were computed in
32 bits. Operands adding up to 2^31 bytes or more made the value negative,
which aborts in builds with debug checks and picks the wrong traversal
order otherwise.
---
 ruy/block_map.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ruy/block_map.cc b/ruy/block_map.cc
index e04e7af..be70695 100644
--- a/ruy/block_map.cc
+++ b/ruy/block_map.cc
@@ -136,9 +136,12 @@ BlockMapTraversalOrder GetTraversalOrder(
     int rhs_scalar_size, const CpuCacheParams& cpu_cache_params) {
   static constexpr bool kAnyFractal =
       RUY_OPT(FRACTAL_Z) | RUY_OPT(FRACTAL_U) | RUY_OPT(FRACTAL_HILBERT);
-  const int working_set_size =
-      (lhs_scalar_size * rows_after_rectangularness_division +
-       rhs_scalar_size * cols_after_rectangularness_division) *
+  // The operands may add up to 2^31 bytes or more.
+  const std::int64_t working_set_size =
+      (static_cast<std::int64_t>(lhs_scalar_size) *
+           rows_after_rectangularness_division +
+       static_cast<std::int64_t>(rhs_scalar_size) *
+           cols_after_rectangularness_division) *
       depth;
   if (kAnyFractal && (working_set_size > cpu_cache_params.local_cache_size)) {
     if (RUY_OPT(FRACTAL_HILBERT) &&
@@ -258,8 +261,11 @@ int GetCacheLocalityScore(int block_size_log2, int rows, int cols, int depth,
   }
   const int block_rows = std::min(1 << block_size_log2, rows);
   const int block_cols = std::min(1 << block_size_log2, cols);
-  const int total_read_bytes =
-      (lhs_scalar_size * block_rows + rhs_scalar_size * block_cols) * depth;
+  // Like the working set size above, this may be 2^31 or more.
+  const std::int64_t total_read_bytes =
+      (static_cast<std::int64_t>(lhs_scalar_size) * block_rows +
+       static_cast<std::int64_t>(rhs_scalar_size) * block_cols) *
+      depth;
   const int total_read_bytes_log2 = ceil_log2(total_read_bytes);
   const int nonlocality_log2 =
       total_read_bytes_log2 - floor_log2(cpu_cache_params.local_cache_size);
-- 
2.43.0


From b20acf65943bb221ffa0929598f08bba78bd1cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:11:47 +0000
Subject: [PATCH 02/11] fix: do not hand out memory from a buffer that could
 not be reallocated

---
 ruy/allocator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruy/allocator.cc b/ruy/allocator.cc
index a8699b8..87134b4 100644
--- a/ruy/allocator.cc
+++ b/ruy/allocator.cc
@@ -125,7 +125,8 @@ void Allocator::FreeAll() {
   // of iterations.
   std::ptrdiff_t new_size = size_ + fallback_blocks_total_size_;
   ptr_ = detail::SystemAlignedAlloc(new_size);
-  size_ = new_size;
+  // If that failed, there is no buffer to serve AllocateFast from.
+  size_ = ptr_ == nullptr ? 0 : new_size;
 
   fallback_blocks_.clear();
   fallback_blocks_total_size_ = 0;
-- 
2.43.0


From d2dacfd97c134ef0cbadff04ecaca8b0b667c68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:13:13 +0000
Subject: [PATCH 03/11] fix: keep prepacked cache byte count exact when
 evicting float matrices

---
 ruy/prepacked_cache.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index 5080ca9..f52aa2c 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -38,6 +38,13 @@ std::ptrdiff_t AllocateBuffers(PEMat* packed_matrix) {
   return data_bytes + sums_bytes;
 }
 
+// Returns the total size of the buffers that AllocateBuffers allocates.
+std::ptrdiff_t AllocatedBytes(const PEMat& packed_matrix) {
+  return DataBytes(packed_matrix) +
+         (packed_matrix.sums_type.is_floating_point ? 0
+                                                    : SumsBytes(packed_matrix));
+}
+
 // Frees the `data` and `sums` buffers held by a PEMat.
 void FreeBuffers(const PEMat& packed_matrix) {
   detail::SystemAlignedFree(packed_matrix.data);
@@ -121,7 +128,7 @@ void PrepackedCache::EjectOne() {
     }
   }
   const PEMat& packed_matrix = oldest->second.packed_matrix;
-  buffers_bytes_ -= DataBytes(packed_matrix) + SumsBytes(packed_matrix);
+  buffers_bytes_ -= AllocatedBytes(packed_matrix);
   FreeBuffers(packed_matrix);
   cache_.erase(oldest);
 }
-- 
2.43.0


From 5c7449f59fc6d06c13128874733a44bf9c1b78c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:15:43 +0000
Subject: [PATCH 04/11] fix: tell apart source layouts in the prepacked cache
 key

---
 ruy/mat.h                      |  5 +++++
 ruy/prepacked_cache.cc         |  4 +++-
 ruy/prepacked_cache.h          | 29 +++++++++++++++++++----------
 ruy/prepare_packed_matrices.cc |  3 ++-
 4 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/ruy/mat.h b/ruy/mat.h
index bf02c66..13d8216 100644
--- a/ruy/mat.h
+++ b/ruy/mat.h
@@ -111,6 +111,11 @@ struct MatLayout final {
   Order order = Order::kColMajor;
 };
 
+inline bool operator==(const MatLayout& a, const MatLayout& b) {
+  return a.rows == b.rows && a.cols == b.cols && a.stride == b.stride &&
+         a.order == b.order;
+}
+
 inline MatLayout ToInternal(const Layout& src) {
   MatLayout ret;
   ret.rows = src.rows();
diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index f52aa2c..3aae3e3 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -84,10 +84,12 @@ PrepackedCache::~PrepackedCache() {
 }
 
 PrepackedCache::Action PrepackedCache::Get(const void* src_data,
-                                           PEMat* packed_matrix) {
+                                           PEMat* packed_matrix,
+                                           const MatLayout& src_layout) {
   // Construct a Key and look up the cache.
   Key key;
   key.src_data = src_data;
+  key.src_layout = src_layout;
   key.packed_layout = packed_matrix->layout;
   key.zero_point = packed_matrix->zero_point;
   const auto& itr = cache_.find(key);
diff --git a/ruy/prepacked_cache.h b/ruy/prepacked_cache.h
index c58593e..2a3039a 100644
--- a/ruy/prepacked_cache.h
+++ b/ruy/prepacked_cache.h
@@ -52,10 +52,14 @@ class PrepackedCache final {
   // (since they are used to determine whether to allocate a new buffer).
   // So they instead use the source matrix's data pointer. On the other hand,
   // the packed matrix's layout structure is already available by the time we
-  // need to handle Keys, and that's fortunate because it is more specific
-  // than the source matrix's layout: it also encodes details about the kernel's
-  // small-scale block layout. In the past, we made the kernel function pointer
-  // part of the cache key, but all that is relevant here is the packed layout.
+  // need to handle Keys. It encodes details about the kernel's small-scale block
+  // layout. In the past, we made the kernel function pointer part of the cache
+  // key, but all that is relevant here is the packed layout.
+  //
+  // The packed layout does not determine the source matrix's layout: it does not
+  // depend on the source's storage order and stride (so also not on whether the
+  // source is transposed because it is used as LHS), and its shape is the
+  // source's shape rounded up. So the source layout is part of the key too.
   //
   // The only other field that needs to be involved is the zero_point, for
   // quantized matrices, although it seems far-fetched that the same matrix
@@ -68,6 +72,8 @@ class PrepackedCache final {
   struct Key {
     // The source matrix's data pointer.
     const void* src_data;
+    // The source matrix's layout, see EMat::layout.
+    MatLayout src_layout;
     // The packed matrix's layout, see PEMat::layout.
     PMatLayout packed_layout;
     // The packed matrix's zero point (for integer-quantized matrices only).
@@ -75,8 +81,8 @@ class PrepackedCache final {
   };
 
   friend bool operator==(const Key& a, const Key& b) {
-    return a.src_data == b.src_data && a.packed_layout == b.packed_layout &&
-           a.zero_point == b.zero_point;
+    return a.src_data == b.src_data && a.src_layout == b.src_layout &&
+           a.packed_layout == b.packed_layout && a.zero_point == b.zero_point;
   }
 
   struct KeyHash {
@@ -108,14 +114,16 @@ class PrepackedCache final {
 
   // This is the method by which new matrices are cached, and existing cache
   // entries are queried.
-  // `src_data` is the source matrix data pointer.
+  // `src_data` is the source matrix data pointer, and `src_layout` is the source
+  // matrix layout.
   // `packed_matrix` is a packed matrix structure where all fields have already
   // been populated, except for the `data` and `sums` pointers which have not
   // yet been allocated.
   //
   // This method:
-  // 1. Queries the cache for an entry matching the given `src_data` pointer and
-  //    the relevant fields of `packed_matrix`, particularly its `layout`.
+  // 1. Queries the cache for an entry matching the given `src_data` pointer,
+  //    the given `src_layout` and the relevant fields of `packed_matrix`,
+  //    particularly its `layout`.
   // 2. If a matching cache entry does not exist, it is created and inserted
   //    into the cache, and its `data` and `sums` buffers are allocated.
   // 3. The `packed_matrix` has its `data` and `sums` pointers set to point
@@ -124,7 +132,8 @@ class PrepackedCache final {
   //    entry.
   // 5. The return value is Action::kInsertedNewEntry if at step 2 a new
   //    entry was created. Otherwise it is Action::kGotExistingEntry.
-  Action Get(const void* src_data, PEMat* packed_matrix);
+  Action Get(const void* src_data, PEMat* packed_matrix,
+             const MatLayout& src_layout = MatLayout());
 
  private:
   void EjectOne();
diff --git a/ruy/prepare_packed_matrices.cc b/ruy/prepare_packed_matrices.cc
index 095b5e0..8b5fd4b 100644
--- a/ruy/prepare_packed_matrices.cc
+++ b/ruy/prepare_packed_matrices.cc
@@ -74,7 +74,8 @@ void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
     if (ShouldCache(*params, side)) {
       // Use a cached packed matrix (possibly packing and caching now).
       auto* cache = ctx->GetPrepackedCache();
-      auto action = cache->Get(params->src[side].data, &packed_matrix);
+      auto action = cache->Get(params->src[side].data, &packed_matrix,
+                               params->src[side].layout);
       RUY_TRACE_INFO(PREPARE_PACKED_MATRICES_SHOULD_CACHE);
       if (action == PrepackedCache::Action::kInsertedNewEntry) {
         params->RunPack(side, ctx->GetMainThreadTuning(), 0,
-- 
2.43.0


From 2dbf99267c2b31de59d0dadaf51ea98209721e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:19 +0000
Subject: [PATCH 05/11] fix: never evict the other operand's packed matrix
 during a multiplication

---
 ruy/prepacked_cache.cc         | 35 ++++++++++++++++++++--------------
 ruy/prepacked_cache.h          | 11 ++++++++---
 ruy/prepare_packed_matrices.cc |  8 +++++++-
 3 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index 3aae3e3..2cc01dd 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -85,7 +85,8 @@ PrepackedCache::~PrepackedCache() {
 
 PrepackedCache::Action PrepackedCache::Get(const void* src_data,
                                            PEMat* packed_matrix,
-                                           const MatLayout& src_layout) {
+                                           const MatLayout& src_layout,
+                                           const void* in_use_data) {
   // Construct a Key and look up the cache.
   Key key;
   key.src_data = src_data;
@@ -103,36 +104,42 @@ PrepackedCache::Action PrepackedCache::Get(const void* src_data,
 
   // No existing entry found. Allocate new buffers now and insert in the cache.
   const std::ptrdiff_t new_bytes = AllocateBuffers(packed_matrix);
-  EjectUntilRoomFor(new_bytes);
+  EjectUntilRoomFor(new_bytes, in_use_data);
   Entry entry{*packed_matrix, timestamp_++};
   cache_.emplace(key, entry);
   buffers_bytes_ += new_bytes;
   return Action::kInsertedNewEntry;
 }
 
-void PrepackedCache::EjectUntilRoomFor(std::ptrdiff_t new_bytes) {
+void PrepackedCache::EjectUntilRoomFor(std::ptrdiff_t new_bytes,
+                                       const void* in_use_data) {
   profiler::ScopeLabel label("PrepackedCacheEjection");
   // While we are above the threshold of ejection, eject the LRU entry.
-  while (!cache_.empty() && buffers_bytes_ + new_bytes > max_buffers_bytes_) {
-    EjectOne();
+  while (buffers_bytes_ + new_bytes > max_buffers_bytes_ &&
+         EjectOne(in_use_data)) {
   }
 }
 
-void PrepackedCache::EjectOne() {
-  auto oldest = cache_.begin();
-  Timestamp oldest_timestamp = oldest->second.timestamp;
-  {
-    for (auto itr = cache_.begin(); itr != cache_.end(); ++itr) {
-      if (itr->second.timestamp < oldest_timestamp) {
-        oldest = itr;
-        oldest_timestamp = itr->second.timestamp;
-      }
+bool PrepackedCache::EjectOne(const void* in_use_data) {
+  auto oldest = cache_.end();
+  for (auto itr = cache_.begin(); itr != cache_.end(); ++itr) {
+    if (in_use_data != nullptr &&
+        itr->second.packed_matrix.data == in_use_data) {
+      continue;
     }
+    if (oldest == cache_.end() ||
+        itr->second.timestamp < oldest->second.timestamp) {
+      oldest = itr;
+    }
+  }
+  if (oldest == cache_.end()) {
+    return false;
   }
   const PEMat& packed_matrix = oldest->second.packed_matrix;
   buffers_bytes_ -= AllocatedBytes(packed_matrix);
   FreeBuffers(packed_matrix);
   cache_.erase(oldest);
+  return true;
 }
 
 }  // namespace ruy
diff --git a/ruy/prepacked_cache.h b/ruy/prepacked_cache.h
index 2a3039a..2bc2bcb 100644
--- a/ruy/prepacked_cache.h
+++ b/ruy/prepacked_cache.h
@@ -132,12 +132,17 @@ class PrepackedCache final {
   //    entry.
   // 5. The return value is Action::kInsertedNewEntry if at step 2 a new
   //    entry was created. Otherwise it is Action::kGotExistingEntry.
+  //
+  // Creating a new entry may eject other entries, but never the one whose
+  // packed matrix has the given `in_use_data` as its `data`.
   Action Get(const void* src_data, PEMat* packed_matrix,
-             const MatLayout& src_layout = MatLayout());
+             const MatLayout& src_layout = MatLayout(),
+             const void* in_use_data = nullptr);
 
  private:
-  void EjectOne();
-  void EjectUntilRoomFor(std::ptrdiff_t new_bytes);
+  // Ejects the oldest entry not in use. Returns false if there is none.
+  bool EjectOne(const void* in_use_data);
+  void EjectUntilRoomFor(std::ptrdiff_t new_bytes, const void* in_use_data);
 
   std::unordered_map<Key, Entry, KeyHash> cache_;
   const std::ptrdiff_t max_buffers_bytes_;
diff --git a/ruy/prepare_packed_matrices.cc b/ruy/prepare_packed_matrices.cc
index 8b5fd4b..6a405e9 100644
--- a/ruy/prepare_packed_matrices.cc
+++ b/ruy/prepare_packed_matrices.cc
@@ -74,8 +74,14 @@ void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
     if (ShouldCache(*params, side)) {
       // Use a cached packed matrix (possibly packing and caching now).
       auto* cache = ctx->GetPrepackedCache();
+      // The other side's packed matrix, if it came from the cache just before,
+      // must not be ejected: this multiplication is going to use it.
+      const Side other_side = OtherSide(side);
+      const void* in_use_data = params->is_prepacked[other_side]
+                                    ? params->packed_matrix[other_side].data
+                                    : nullptr;
       auto action = cache->Get(params->src[side].data, &packed_matrix,
-                               params->src[side].layout);
+                               params->src[side].layout, in_use_data);
       RUY_TRACE_INFO(PREPARE_PACKED_MATRICES_SHOULD_CACHE);
       if (action == PrepackedCache::Action::kInsertedNewEntry) {
         params->RunPack(side, ctx->GetMainThreadTuning(), 0,
-- 
2.43.0


From 92ab0d087f9a241fd3835875ab080c7a5afce720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:21:45 +0000
Subject: [PATCH 06/11] fix: raise the reallocation advisory only when a
 per-channel buffer is copied

---
 ruy/create_trmul_params.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ruy/create_trmul_params.h b/ruy/create_trmul_params.h
index 531e066..f87193e 100644
--- a/ruy/create_trmul_params.h
+++ b/ruy/create_trmul_params.h
@@ -366,6 +366,11 @@ void EnsurePerChannelBuffersLargeEnough(
   if (required_capacity <= user_capacity) {
     return;
   }
+  // Without per-channel buffers, there is nothing to reallocate.
+  if (!mul_params->bias() && !mul_params->multiplier_fixedpoint_perchannel() &&
+      !mul_params->multiplier_exponent_perchannel()) {
+    return;
+  }
   ctx->set_performance_advisory(
       PerformanceAdvisory::kReallocatedPerChannelBuffer);
   EnsurePerChannelBuffersLargeEnoughImpl<AccumScalar, DstScalar>::Run(
-- 
2.43.0


From ba366dd4f262538457d28ff43573038a9f91a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:40 +0000
Subject: [PATCH 07/11] fix: keep fallback paths enabled when RUY_PATHS
 overrides detection

---
 ruy/ctx.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ruy/ctx.cc b/ruy/ctx.cc
index 5d6afd4..97baed4 100644
--- a/ruy/ctx.cc
+++ b/ruy/ctx.cc
@@ -162,7 +162,9 @@ Path Ctx::GetRuntimeEnabledPaths() {
   // User may have set path explicitly in env var.
   Path paths_bitfield = static_cast<Path>(GetHexIntEnvVarOrZero("RUY_PATHS"));
   if (paths_bitfield != Path::kNone) {
-    *paths = paths_bitfield;
+    // As in SetRuntimeEnabledPaths, ensure that non-arch are always enabled
+    // (needed for fallbacks).
+    *paths = paths_bitfield | kNonArchPaths;
     RUY_TRACE_INFO(GET_RUNTIME_ENABLED_PATHS_USING_ENV_VAR);
     return *paths;
   }
-- 
2.43.0


From 46ff7d17d3706afcb98a62e2f62d5982f055b9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:07:46 +0000
Subject: [PATCH 08/11] fix: stop when memory for a cached packed matrix cannot
 be obtained

A failed allocation of the sums buffer of a cached packed matrix was not
noticed: the sums were then left out and the result was silently wrong. The
buffers of matrices that are not cached were already checked.
---
 ruy/prepare_packed_matrices.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ruy/prepare_packed_matrices.cc b/ruy/prepare_packed_matrices.cc
index 6a405e9..0ea1dbd 100644
--- a/ruy/prepare_packed_matrices.cc
+++ b/ruy/prepare_packed_matrices.cc
@@ -83,6 +83,9 @@ void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
       auto action = cache->Get(params->src[side].data, &packed_matrix,
                                params->src[side].layout, in_use_data);
       RUY_TRACE_INFO(PREPARE_PACKED_MATRICES_SHOULD_CACHE);
+      RUY_CHECK(packed_matrix.data != nullptr);
+      RUY_CHECK(packed_matrix.sums_type.is_floating_point ||
+                packed_matrix.sums != nullptr);
       if (action == PrepackedCache::Action::kInsertedNewEntry) {
         params->RunPack(side, ctx->GetMainThreadTuning(), 0,
                         packed_matrix.layout.cols);
-- 
2.43.0


From 01eda0091a6c76de80f66a410ff43bce858f55e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:28:32 +0000
Subject: [PATCH 09/11] fix: keep a NaN result when clamping in the x86 float
 kernels

The minimum and maximum instructions return their second operand when an
operand is a NaN. With the clamp bound in that place a NaN accumulator became
the upper bound, plus infinity by default. The bound now comes first, so that
the NaN is kept, as in the portable code.
---
 ruy/kernel_avx512.cc | 84 ++++++++++++++++++++++----------------------
 ruy/kernel_x86.h     | 20 +++++------
 2 files changed, 52 insertions(+), 52 deletions(-)

diff --git a/ruy/kernel_avx512.cc b/ruy/kernel_avx512.cc
index 654ba27..5e00240 100644
--- a/ruy/kernel_avx512.cc
+++ b/ruy/kernel_avx512.cc
@@ -991,29 +991,29 @@ void KernelFloatAvx512(const KernelParamsFloat<16, 16>& params) {
                                           accum_data_v7);
           {
             float* block_ptr = dst_ptr + (mmm * 8 + 0) * dst_stride;
-            accum_data_v0 = _mm512_min_ps(accum_data_v0, clamp_max_v);
-            accum_data_v0 = _mm512_max_ps(accum_data_v0, clamp_min_v);
+            accum_data_v0 = _mm512_min_ps(clamp_max_v, accum_data_v0);
+            accum_data_v0 = _mm512_max_ps(clamp_min_v, accum_data_v0);
             _mm512_storeu_ps(block_ptr + 0 * dst_stride, accum_data_v0);
-            accum_data_v1 = _mm512_min_ps(accum_data_v1, clamp_max_v);
-            accum_data_v1 = _mm512_max_ps(accum_data_v1, clamp_min_v);
+            accum_data_v1 = _mm512_min_ps(clamp_max_v, accum_data_v1);
+            accum_data_v1 = _mm512_max_ps(clamp_min_v, accum_data_v1);
             _mm512_storeu_ps(block_ptr + 1 * dst_stride, accum_data_v1);
-            accum_data_v2 = _mm512_min_ps(accum_data_v2, clamp_max_v);
-            accum_data_v2 = _mm512_max_ps(accum_data_v2, clamp_min_v);
+            accum_data_v2 = _mm512_min_ps(clamp_max_v, accum_data_v2);
+            accum_data_v2 = _mm512_max_ps(clamp_min_v, accum_data_v2);
             _mm512_storeu_ps(block_ptr + 2 * dst_stride, accum_data_v2);
-            accum_data_v3 = _mm512_min_ps(accum_data_v3, clamp_max_v);
-            accum_data_v3 = _mm512_max_ps(accum_data_v3, clamp_min_v);
+            accum_data_v3 = _mm512_min_ps(clamp_max_v, accum_data_v3);
+            accum_data_v3 = _mm512_max_ps(clamp_min_v, accum_data_v3);
             _mm512_storeu_ps(block_ptr + 3 * dst_stride, accum_data_v3);
-            accum_data_v4 = _mm512_min_ps(accum_data_v4, clamp_max_v);
-            accum_data_v4 = _mm512_max_ps(accum_data_v4, clamp_min_v);
+            accum_data_v4 = _mm512_min_ps(clamp_max_v, accum_data_v4);
+            accum_data_v4 = _mm512_max_ps(clamp_min_v, accum_data_v4);
             _mm512_storeu_ps(block_ptr + 4 * dst_stride, accum_data_v4);
-            accum_data_v5 = _mm512_min_ps(accum_data_v5, clamp_max_v);
-            accum_data_v5 = _mm512_max_ps(accum_data_v5, clamp_min_v);
+            accum_data_v5 = _mm512_min_ps(clamp_max_v, accum_data_v5);
+            accum_data_v5 = _mm512_max_ps(clamp_min_v, accum_data_v5);
             _mm512_storeu_ps(block_ptr + 5 * dst_stride, accum_data_v5);
-            accum_data_v6 = _mm512_min_ps(accum_data_v6, clamp_max_v);
-            accum_data_v6 = _mm512_max_ps(accum_data_v6, clamp_min_v);
+            accum_data_v6 = _mm512_min_ps(clamp_max_v, accum_data_v6);
+            accum_data_v6 = _mm512_max_ps(clamp_min_v, accum_data_v6);
             _mm512_storeu_ps(block_ptr + 6 * dst_stride, accum_data_v6);
-            accum_data_v7 = _mm512_min_ps(accum_data_v7, clamp_max_v);
-            accum_data_v7 = _mm512_max_ps(accum_data_v7, clamp_min_v);
+            accum_data_v7 = _mm512_min_ps(clamp_max_v, accum_data_v7);
+            accum_data_v7 = _mm512_max_ps(clamp_min_v, accum_data_v7);
             _mm512_storeu_ps(block_ptr + 7 * dst_stride, accum_data_v7);
           }
         }
@@ -1116,36 +1116,36 @@ void KernelFloatAvx512(const KernelParamsFloat<16, 16>& params) {
                                           accum_data_v7);
           {
             float* block_ptr = dst_ptr + (mmm * 8 + 0) * dst_stride;
-            accum_data_v0 = _mm512_min_ps(accum_data_v0, clamp_max_v);
-            accum_data_v0 = _mm512_max_ps(accum_data_v0, clamp_min_v);
+            accum_data_v0 = _mm512_min_ps(clamp_max_v, accum_data_v0);
+            accum_data_v0 = _mm512_max_ps(clamp_min_v, accum_data_v0);
             _mm512_mask_storeu_ps(block_ptr + 0 * dst_stride, row_mask,
                                   accum_data_v0);
-            accum_data_v1 = _mm512_min_ps(accum_data_v1, clamp_max_v);
-            accum_data_v1 = _mm512_max_ps(accum_data_v1, clamp_min_v);
+            accum_data_v1 = _mm512_min_ps(clamp_max_v, accum_data_v1);
+            accum_data_v1 = _mm512_max_ps(clamp_min_v, accum_data_v1);
             _mm512_mask_storeu_ps(block_ptr + 1 * dst_stride, row_mask,
                                   accum_data_v1);
-            accum_data_v2 = _mm512_min_ps(accum_data_v2, clamp_max_v);
-            accum_data_v2 = _mm512_max_ps(accum_data_v2, clamp_min_v);
+            accum_data_v2 = _mm512_min_ps(clamp_max_v, accum_data_v2);
+            accum_data_v2 = _mm512_max_ps(clamp_min_v, accum_data_v2);
             _mm512_mask_storeu_ps(block_ptr + 2 * dst_stride, row_mask,
                                   accum_data_v2);
-            accum_data_v3 = _mm512_min_ps(accum_data_v3, clamp_max_v);
-            accum_data_v3 = _mm512_max_ps(accum_data_v3, clamp_min_v);
+            accum_data_v3 = _mm512_min_ps(clamp_max_v, accum_data_v3);
+            accum_data_v3 = _mm512_max_ps(clamp_min_v, accum_data_v3);
             _mm512_mask_storeu_ps(block_ptr + 3 * dst_stride, row_mask,
                                   accum_data_v3);
-            accum_data_v4 = _mm512_min_ps(accum_data_v4, clamp_max_v);
-            accum_data_v4 = _mm512_max_ps(accum_data_v4, clamp_min_v);
+            accum_data_v4 = _mm512_min_ps(clamp_max_v, accum_data_v4);
+            accum_data_v4 = _mm512_max_ps(clamp_min_v, accum_data_v4);
             _mm512_mask_storeu_ps(block_ptr + 4 * dst_stride, row_mask,
                                   accum_data_v4);
-            accum_data_v5 = _mm512_min_ps(accum_data_v5, clamp_max_v);
-            accum_data_v5 = _mm512_max_ps(accum_data_v5, clamp_min_v);
+            accum_data_v5 = _mm512_min_ps(clamp_max_v, accum_data_v5);
+            accum_data_v5 = _mm512_max_ps(clamp_min_v, accum_data_v5);
             _mm512_mask_storeu_ps(block_ptr + 5 * dst_stride, row_mask,
                                   accum_data_v5);
-            accum_data_v6 = _mm512_min_ps(accum_data_v6, clamp_max_v);
-            accum_data_v6 = _mm512_max_ps(accum_data_v6, clamp_min_v);
+            accum_data_v6 = _mm512_min_ps(clamp_max_v, accum_data_v6);
+            accum_data_v6 = _mm512_max_ps(clamp_min_v, accum_data_v6);
             _mm512_mask_storeu_ps(block_ptr + 6 * dst_stride, row_mask,
                                   accum_data_v6);
-            accum_data_v7 = _mm512_min_ps(accum_data_v7, clamp_max_v);
-            accum_data_v7 = _mm512_max_ps(accum_data_v7, clamp_min_v);
+            accum_data_v7 = _mm512_min_ps(clamp_max_v, accum_data_v7);
+            accum_data_v7 = _mm512_max_ps(clamp_min_v, accum_data_v7);
             _mm512_mask_storeu_ps(block_ptr + 7 * dst_stride, row_mask,
                                   accum_data_v7);
           }
@@ -1210,23 +1210,23 @@ void KernelFloatAvx512(const KernelParamsFloat<16, 16>& params) {
           if (residual_cols == 8) {
             for (int j = 0; j < 8; ++j) {
               float* block_ptr = dst_ptr + (mmm * 8 + j) * dst_stride;
-              accum_data_v[j] = _mm512_min_ps(accum_data_v[j], clamp_max_v);
-              accum_data_v[j] = _mm512_max_ps(accum_data_v[j], clamp_min_v);
+              accum_data_v[j] = _mm512_min_ps(clamp_max_v, accum_data_v[j]);
+              accum_data_v[j] = _mm512_max_ps(clamp_min_v, accum_data_v[j]);
               _mm512_storeu_ps(block_ptr, accum_data_v[j]);
             }
           } else {
             for (int j = 0; j < residual_cols; ++j) {
               float* block_ptr = dst_ptr + (mmm * 8 + j) * dst_stride;
-              accum_data_v[j] = _mm512_min_ps(accum_data_v[j], clamp_max_v);
-              accum_data_v[j] = _mm512_max_ps(accum_data_v[j], clamp_min_v);
+              accum_data_v[j] = _mm512_min_ps(clamp_max_v, accum_data_v[j]);
+              accum_data_v[j] = _mm512_max_ps(clamp_min_v, accum_data_v[j]);
               _mm512_storeu_ps(block_ptr, accum_data_v[j]);
             }
           }
         } else {
           for (int j = 0; j < residual_cols; ++j) {
             float* block_ptr = dst_ptr + (mmm * 8 + j) * dst_stride;
-            accum_data_v[j] = _mm512_min_ps(accum_data_v[j], clamp_max_v);
-            accum_data_v[j] = _mm512_max_ps(accum_data_v[j], clamp_min_v);
+            accum_data_v[j] = _mm512_min_ps(clamp_max_v, accum_data_v[j]);
+            accum_data_v[j] = _mm512_max_ps(clamp_min_v, accum_data_v[j]);
             _mm512_mask_storeu_ps(block_ptr, row_mask, accum_data_v[j]);
           }
         }
@@ -1282,8 +1282,8 @@ void KernelFloatAvx512SingleCol(const KernelParamsFloat<16, 16>& params) {
       rhs_ptr += 16;
     }
 
-    accum_data_v = _mm512_min_ps(accum_data_v, clamp_max_v);
-    accum_data_v = _mm512_max_ps(accum_data_v, clamp_min_v);
+    accum_data_v = _mm512_min_ps(clamp_max_v, accum_data_v);
+    accum_data_v = _mm512_max_ps(clamp_min_v, accum_data_v);
     _mm512_storeu_ps(dst_ptr, accum_data_v);
   }  // End row-block loop.
 
@@ -1313,8 +1313,8 @@ void KernelFloatAvx512SingleCol(const KernelParamsFloat<16, 16>& params) {
       rhs_ptr += 16;
     }
 
-    accum_data_v = _mm512_min_ps(accum_data_v, clamp_max_v);
-    accum_data_v = _mm512_max_ps(accum_data_v, clamp_min_v);
+    accum_data_v = _mm512_min_ps(clamp_max_v, accum_data_v);
+    accum_data_v = _mm512_max_ps(clamp_min_v, accum_data_v);
     _mm512_mask_storeu_ps(dst_ptr, row_mask, accum_data_v);
   }  // End handling of residual rows.
 }
diff --git a/ruy/kernel_x86.h b/ruy/kernel_x86.h
index 51787b9..7f6cb9b 100644
--- a/ruy/kernel_x86.h
+++ b/ruy/kernel_x86.h
@@ -699,15 +699,15 @@ inline void KernelFloatAvxCommon(const KernelParamsFloat<8, 8>& params) {
       if (residual_rows == 8) {
         for (int j = 0; j < 8; ++j) {
           float* block_ptr = dst_ptr + j * dst_stride;
-          accum_data_v[j] = _mm256_min_ps(accum_data_v[j], clamp_max_v);
-          accum_data_v[j] = _mm256_max_ps(accum_data_v[j], clamp_min_v);
+          accum_data_v[j] = _mm256_min_ps(clamp_max_v, accum_data_v[j]);
+          accum_data_v[j] = _mm256_max_ps(clamp_min_v, accum_data_v[j]);
           _mm256_storeu_ps(block_ptr, accum_data_v[j]);
         }
       } else {
         for (int j = 0; j < 8; ++j) {
           float* block_ptr = dst_ptr + j * dst_stride;
-          accum_data_v[j] = _mm256_min_ps(accum_data_v[j], clamp_max_v);
-          accum_data_v[j] = _mm256_max_ps(accum_data_v[j], clamp_min_v);
+          accum_data_v[j] = _mm256_min_ps(clamp_max_v, accum_data_v[j]);
+          accum_data_v[j] = _mm256_max_ps(clamp_min_v, accum_data_v[j]);
           intrin_utils::mm256_n_storeu_ps<path>(block_ptr, residual_rows,
                                                 accum_data_v[j]);
         }
@@ -795,8 +795,8 @@ inline void KernelFloatAvxCommon(const KernelParamsFloat<8, 8>& params) {
 
       for (int j = 0; j < residual_cols; ++j) {
         float* block_ptr = dst_ptr + j * dst_stride;
-        accum_data_v[j] = _mm256_min_ps(accum_data_v[j], clamp_max_v);
-        accum_data_v[j] = _mm256_max_ps(accum_data_v[j], clamp_min_v);
+        accum_data_v[j] = _mm256_min_ps(clamp_max_v, accum_data_v[j]);
+        accum_data_v[j] = _mm256_max_ps(clamp_min_v, accum_data_v[j]);
         intrin_utils::mm256_n_storeu_ps<path>(block_ptr, residual_rows,
                                               accum_data_v[j]);
       }
@@ -875,8 +875,8 @@ inline void KernelFloatAvxCommonSingleCol(
       rhs_ptr += 8;
     }
 
-    accum_data_v = _mm256_min_ps(accum_data_v, clamp_max_v);
-    accum_data_v = _mm256_max_ps(accum_data_v, clamp_min_v);
+    accum_data_v = _mm256_min_ps(clamp_max_v, accum_data_v);
+    accum_data_v = _mm256_max_ps(clamp_min_v, accum_data_v);
     _mm256_storeu_ps(dst_ptr, accum_data_v);
   }  // End row-block loop.
 
@@ -905,8 +905,8 @@ inline void KernelFloatAvxCommonSingleCol(
       rhs_ptr += 8;
     }
 
-    accum_data_v = _mm256_min_ps(accum_data_v, clamp_max_v);
-    accum_data_v = _mm256_max_ps(accum_data_v, clamp_min_v);
+    accum_data_v = _mm256_min_ps(clamp_max_v, accum_data_v);
+    accum_data_v = _mm256_max_ps(clamp_min_v, accum_data_v);
     intrin_utils::mm256_n_storeu_ps<path>(dst_ptr, residual_rows, accum_data_v);
   }  // End handling of residual rows.
 }
-- 
2.43.0


From a990316848035d323fee8fd7da594aafabb405f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:11:25 +0000
Subject: [PATCH 10/11] fix: keep destination strides of 2^28 bytes and more in
 the x86 kernels

The destination stride, in bytes, and its product with the number of columns in
a kernel block were 32-bit values. They overflowed although every entry
position fits in 31 bits, and the kernels wrote outside of the destination.
---
 ruy/kernel_common.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ruy/kernel_common.h b/ruy/kernel_common.h
index 69e819b..e9a5703 100644
--- a/ruy/kernel_common.h
+++ b/ruy/kernel_common.h
@@ -116,7 +116,13 @@ struct KernelParams8bit {
   std::int32_t dst_cols;
   std::int32_t lhs_stride;
   std::int32_t rhs_stride;
+#if RUY_PLATFORM_X86
+  // In bytes, like the other strides. May be 2^31 or more.
+  std::int64_t dst_stride;
+#else
+  // The ARM kernels load this as a 32-bit value.
   std::int32_t dst_stride;
+#endif
   std::int32_t depth;
   std::int32_t clamp_min;
   std::int32_t clamp_max;
@@ -226,7 +232,13 @@ struct KernelParamsFloat {
   std::int32_t dst_cols;
   std::int32_t lhs_stride;
   std::int32_t rhs_stride;
+#if RUY_PLATFORM_X86
+  // In bytes, like the other strides. May be 2^31 or more.
+  std::int64_t dst_stride;
+#else
+  // The ARM kernels load this as a 32-bit value.
   std::int32_t dst_stride;
+#endif
   std::int32_t depth;
   float clamp_min;
   float clamp_max;
-- 
2.43.0


From ed1eb2b173d2cf92e41e608ff9f428dc7648681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:57:21 +0000
Subject: [PATCH 11/11] fix: include the header trace.h needs to compile

Building with RUY_TRACE defined failed: trace.h uses strlen and strcmp without
including <cstring>.
---
 ruy/trace.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruy/trace.h b/ruy/trace.h
index 4f5059e..0caafb5 100644
--- a/ruy/trace.h
+++ b/ruy/trace.h
@@ -21,6 +21,7 @@ limitations under the License.
 #include <algorithm>
 #include <cstdio>
 #include <cstdlib>
+#include <cstring>
 #include <memory>
 #include <mutex>
 #include <string>
-- 
2.43.0

