From 1d70562588f7a46aef82d30d8b745ae39df31d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:04 +0000
Subject: [PATCH 1/9] fix: CanBeHashedInto computes the bias for hash lengths
 below 128 bits

The largest hash value was computed as 2^(128-h)-1 instead of 2^h-1, and a
modulus of 2^128 was accepted for any hash length.
---
 distributed_vector_ole/internal/scalar_helpers.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/distributed_vector_ole/internal/scalar_helpers.h b/distributed_vector_ole/internal/scalar_helpers.h
index 897b3de..dec0c67 100644
--- a/distributed_vector_ole/internal/scalar_helpers.h
+++ b/distributed_vector_ole/internal/scalar_helpers.h
@@ -127,11 +127,11 @@ struct ScalarHelperImpl<NTL::ZZ_p> {
     uint64_t modulus_high = NTL::conv<uint64_t>(NTL::ZZ_p::modulus() >> 64);
     absl::uint128 modulus = absl::MakeUint128(modulus_high, modulus_low);
     if (modulus == 0) {  // Modulus is a multiple of 2**128
-      return true;
+      return hash_bits >= 128;
     }
     absl::uint128 max_value = absl::Uint128Max();
     if (hash_bits < 128) {
-      max_value /= (absl::uint128(1) << hash_bits);
+      max_value = (absl::uint128(1) << hash_bits) - 1;
     }
     absl::uint128 rem = ((max_value % modulus) + 1) % modulus;
     return hash_bits - std::log2(double(rem)) > statistical_security;
@@ -157,7 +157,7 @@ struct ScalarHelperImpl<NTL::zz_p> {
                                           // to fit in a long.
     absl::uint128 max_value = absl::Uint128Max();
     if (hash_bits < 128) {
-      max_value /= (absl::uint128(1) << hash_bits);
+      max_value = (absl::uint128(1) << hash_bits) - 1;
     }
     absl::uint128 rem = ((max_value % modulus) + 1) % modulus;
     return hash_bits - std::log2(double(rem)) > statistical_security;
-- 
2.43.0


From 140e37e54d1707b240fb41cdbd8f10d164933587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:33 +0000
Subject: [PATCH 2/9] fix: AESUniformBitGenerator rounds odd buffer sizes up to
 whole AES blocks

---
 distributed_vector_ole/aes_uniform_bit_generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index a937610..7eb4c8a 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -20,6 +20,8 @@ mpc_utils::StatusOr<AESUniformBitGenerator> AESUniformBitGenerator::Create(
   if (buffer_size < 2) {
     buffer_size = 2;
   }
+  // Each AES call fills two elements, so the buffer size has to be even.
+  buffer_size += buffer_size % 2;
   AESUniformBitGenerator result(buffer_size);
   RETURN_IF_ERROR(result.seed(seed));
   return result;
-- 
2.43.0


From 10a585a479469839d7c73693b8262dd7001af775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:55 +0000
Subject: [PATCH 3/9] fix: AESUniformBitGenerator keeps refusing output once
 the reseed interval is exhausted

---
 .../aes_uniform_bit_generator.cpp                | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index 7eb4c8a..ebc6fe0 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -51,6 +51,14 @@ AESUniformBitGenerator::result_type AESUniformBitGenerator::operator()() {
     // separate vector for the nonces which allows the CPU to pipeline calls to
     // AES_encrypt.
     int64_t num_blocks = buffer_size / 2;
+    // Check if this exceeds the reseed interval. Since the return type of
+    // operator() is required to be result_type, we have to throw an exception
+    // here. Nothing has been changed yet, so further calls throw as well.
+    if (counter_ + num_blocks > kReseedInterval) {
+      throw std::runtime_error(
+          absl::StrCat("`seed()` must be called every ", 2 * kReseedInterval,
+                       " calls to this AESUniformBitGenerator"));
+    }
     std::vector<absl::uint128> nonces(num_blocks);
     for (int64_t i = 0; i < num_blocks; i++) {
       nonces[i] = nonce_;
@@ -62,14 +70,6 @@ AESUniformBitGenerator::result_type AESUniformBitGenerator::operator()() {
     }
     elements_used_ = 0;
     counter_ += num_blocks;
-    // Check if we exceeded the reseed interval. Since the return type of
-    // operator() is required to be result_type, we have to throw an exception
-    // here.
-    if (counter_ > kReseedInterval) {
-      throw std::runtime_error(
-          absl::StrCat("`seed()` must be called every ", 2 * kReseedInterval,
-                       " calls to this AESUniformBitGenerator"));
-    }
   }
   result_type result = buffer_[elements_used_];
   elements_used_++;
-- 
2.43.0


From dae869fecd3e35f08fe6256914272e12837b4a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:14 +0000
Subject: [PATCH 4/9] fix: GGMTree rejects arguments it cannot build a tree
 from

---
 distributed_vector_ole/ggm_tree.cpp | 14 +++++++++++++-
 distributed_vector_ole/ggm_tree.h   |  4 ++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/distributed_vector_ole/ggm_tree.cpp b/distributed_vector_ole/ggm_tree.cpp
index 210eab5..a456ed2 100644
--- a/distributed_vector_ole/ggm_tree.cpp
+++ b/distributed_vector_ole/ggm_tree.cpp
@@ -130,6 +130,10 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
   if (num_leaves <= 0) {
     return mpc_utils::InvalidArgumentError("`num_leaves` must be positive");
   }
+  if (missing_index < 0) {
+    return mpc_utils::InvalidArgumentError(
+        "`missing_index` must not be negative");
+  }
   if (missing_index >= num_leaves) {
     return mpc_utils::InvalidArgumentError(
         "`missing_index` must be smaller than `num_leaves`");
@@ -148,6 +152,10 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
   if (keys.empty()) {
     return mpc_utils::InvalidArgumentError("`keys` must not be empty");
   }
+  if (static_cast<int>(keys.size()) != arity) {
+    return mpc_utils::InvalidArgumentError(
+        "`keys` must have length `arity`");
+  }
 
   // Construct path to `missing_index`.
   std::vector<int64_t> missing_path(num_levels);
@@ -166,9 +174,13 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
     }
   }
   ASSIGN_OR_RETURN(auto levels, AllocateLevels(arity, num_leaves));
+  if (static_cast<int>(levels.size()) != num_levels) {
+    return mpc_utils::InvalidArgumentError(
+        "Number of elements of `sibling_wise_xors` does not match "
+        "`num_leaves`");
+  }
   std::unique_ptr<GGMTree> tree = absl::WrapUnique(new GGMTree(
       std::move(levels), std::move(keys_copy), std::move(expanded_keys)));
-  assert(tree->num_levels() == num_levels);
 
   // Expand tree from the root. At each level, use sibling_wise_xors together
   // with already computed subtrees to compute all missing seeds but one, and
diff --git a/distributed_vector_ole/ggm_tree.h b/distributed_vector_ole/ggm_tree.h
index 288b263..ba22af4 100644
--- a/distributed_vector_ole/ggm_tree.h
+++ b/distributed_vector_ole/ggm_tree.h
@@ -40,6 +40,7 @@
 
 #include "absl/numeric/int128.h"
 #include "absl/types/span.h"
+#include "mpc_utils/canonical_errors.h"
 #include "mpc_utils/statusor.h"
 #include "openssl/aes.h"
 #include "openssl/rand.h"
@@ -60,6 +61,9 @@ class GGMTree {
   // Constructs a GGMTree from a single seed.
   static mpc_utils::StatusOr<std::unique_ptr<GGMTree>> Create(
       int arity, int64_t num_leaves, Block seed) {
+    if (arity < 2) {
+      return mpc_utils::InvalidArgumentError("arity must be at least 2");
+    }
     std::vector<Block> keys(arity);
     for (int i = 0; i < arity; i++) {
       RAND_bytes(reinterpret_cast<uint8_t *>(&keys[i]), kBlockSize);
-- 
2.43.0


From 80d0041054fbe3a8a2d4c3698cc61f1e65e63274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:07 +0000
Subject: [PATCH 5/9] fix: MPFSSKnownIndices rejects negative indices and
 indices equal to the output size

---
 distributed_vector_ole/mpfss_known_indices.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index a6e4ac1..5bb59b5 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -190,7 +190,8 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
         "`y` and `indices` must not be empty");
   }
   for (int i = 0; i < static_cast<int>(indices.size()); i++) {
-    if (indices[i] > static_cast<int64_t>(output.size())) {
+    if (indices[i] < 0 ||
+        indices[i] >= static_cast<int64_t>(output.size())) {
       return mpc_utils::InvalidArgumentError(
           absl::StrCat("`indices[", i, "`] out of range"));
     }
-- 
2.43.0


From 8b8a08d017eed237e37a59b8724322c7ca0a1cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:40 +0000
Subject: [PATCH 6/9] fix: MPFSSKnownIndices rejects correlations of the wrong
 size

---
 distributed_vector_ole/mpfss_known_indices.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index 5bb59b5..0e7b490 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -145,6 +145,10 @@ mpc_utils::Status MPFSSKnownIndices::RunValueProviderVectorOLE(
   }
   RETURN_IF_ERROR(UpdateBuckets(output.size(), y_len));
   int num_buckets = buckets_.size();
+  if (static_cast<int>(w.size()) != num_buckets) {
+    return mpc_utils::InvalidArgumentError(
+        "`w` must have size NumBuckets(y_len)");
+  }
 
   // Receive masked and permuted y from other party and compute our share of xy
   // as (u+y)x-w.
@@ -211,6 +215,11 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
     }
   }
   ASSIGN_OR_RETURN(auto hashed_inputs, std::move(status));
+  if (static_cast<int>(u.size()) != num_buckets ||
+      static_cast<int>(v.size()) != num_buckets) {
+    return mpc_utils::InvalidArgumentError(
+        "`u` and `v` must have size NumBuckets(y.size())");
+  }
 
   // y padded with zeros and permuted according to hashed_inputs:
   // y_permuted[i] = y[j] if hashed_inputs[i] == j, and 0 if hashed_inputs[i] ==
-- 
2.43.0


From 16bd6dae4e564180ceb170904e914eb638930cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:40 +0000
Subject: [PATCH 7/9] fix: reject negative sizes in DistributedVectorOLE and
 SPFSSKnownIndex

---
 distributed_vector_ole/distributed_vector_ole.h | 6 ++++++
 distributed_vector_ole/spfss_known_index.h      | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index c1bc688..128b815 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -541,6 +541,9 @@ DistributedVectorOLE<T>::RunSender(int64_t size) {
   if (!sender_precomputation_done_) {
     RETURN_IF_ERROR(PrecomputeSender(size));
   }
+  if (size < 0) {
+    return mpc_utils::InvalidArgumentError("`size` must not be negative");
+  }
 
   // Check if we have enough elements cached.
   {
@@ -589,6 +592,9 @@ DistributedVectorOLE<T>::RunReceiver(int64_t size) {
   if (!receiver_precomputation_done_) {
     RETURN_IF_ERROR(PrecomputeReceiver(size));
   }
+  if (size < 0) {
+    return mpc_utils::InvalidArgumentError("`size` must not be negative");
+  }
 
   // Check if we have enough elements cached.
   {
diff --git a/distributed_vector_ole/spfss_known_index.h b/distributed_vector_ole/spfss_known_index.h
index 5765c66..c49b28e 100644
--- a/distributed_vector_ole/spfss_known_index.h
+++ b/distributed_vector_ole/spfss_known_index.h
@@ -60,6 +60,9 @@ class SPFSSKnownIndex {
   template <typename T>
   mpc_utils::StatusOr<std::vector<T>> RunValueProvider(T val_share,
                                                        int64_t size) {
+    if (size < 0) {
+      return mpc_utils::InvalidArgumentError("`size` must not be negative");
+    }
     std::vector<T> output(size);
     RETURN_IF_ERROR(RunValueProvider<T>(val_share, absl::MakeSpan(output)));
     return output;
@@ -82,6 +85,9 @@ class SPFSSKnownIndex {
   mpc_utils::StatusOr<std::vector<T>> RunIndexProvider(T val_share,
                                                        int64_t index,
                                                        int64_t size) {
+    if (size < 0) {
+      return mpc_utils::InvalidArgumentError("`size` must not be negative");
+    }
     std::vector<T> output(size);
     RETURN_IF_ERROR(
         RunIndexProvider<T>(val_share, index, absl::MakeSpan(output)));
-- 
2.43.0


From 8a30916864fb2e4734a94264bc05ff34d39aa614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:40 +0000
Subject: [PATCH 8/9] fix: PrecomputeSender and PrecomputeReceiver do not
 overflow for huge batch sizes

---
 distributed_vector_ole/distributed_vector_ole.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index 128b815..38229db 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -262,8 +262,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeSender(
   // Iteratively expand seeds until we have the desired batch size.
   for (int i = 0; i < static_cast<int>(VOLEParameters::seed_size.size()) - 1;
        i++) {
-    if (VOLEParameters::output_size[i] >=
-        batch_size + mpfss_seed_size_ + vole_seed_size_) {
+    if (VOLEParameters::output_size[i] - mpfss_seed_size_ - vole_seed_size_ >=
+        batch_size) {
       // Exit early if the current output size is enough for the given batch
       // size and seed sizes.
       break;
@@ -323,8 +323,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeReceiver(
   // Iteratively expand seeds until we have the desired batch size.
   for (int i = 0; i < static_cast<int>(VOLEParameters::seed_size.size()) - 1;
        i++) {
-    if (VOLEParameters::output_size[i] >=
-        batch_size + vole_seed_size_ + mpfss_seed_size_) {
+    if (VOLEParameters::output_size[i] - vole_seed_size_ - mpfss_seed_size_ >=
+        batch_size) {
       // Exit early if the current output size is enough for the given batch
       // size and seed sizes.
       break;
-- 
2.43.0


From 4e2f9e286cfa053ce88a5d3b192313e21e90b6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:42 +0000
Subject: [PATCH 9/9] fix: MPFSSKnownIndices::UpdateBuckets rejects negative
 output sizes

---
 distributed_vector_ole/mpfss_known_indices.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/mpfss_known_indices.cpp b/distributed_vector_ole/mpfss_known_indices.cpp
index d7d6cbc..9fe4d76 100644
--- a/distributed_vector_ole/mpfss_known_indices.cpp
+++ b/distributed_vector_ole/mpfss_known_indices.cpp
@@ -67,6 +67,10 @@ MPFSSKnownIndices::Create(mpc_utils::comm_channel* channel,
 
 mpc_utils::Status MPFSSKnownIndices::UpdateBuckets(int64_t output_size,
                                                    int num_indices) {
+  if (output_size < 0) {
+    return mpc_utils::InvalidArgumentError(
+        "`output_size` must not be negative");
+  }
   bool needs_update =
       !cached_output_size_ || *cached_output_size_ != output_size ||
       !cached_num_indices_ || *cached_num_indices_ != num_indices;
-- 
2.43.0

