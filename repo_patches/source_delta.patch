From c7925f71cf5970536769a5f25ad6ed7366117b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 01/29] fix: EvaluateAndApply must not abort on an empty batch
 of keys

Allocating zero aligned elements aborts the process in Highway. EvaluateAt
already treats an empty list of evaluation points as nothing to do.
---
 dpf/distributed_point_function.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 6cd1c56..a1c9ffc 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -1091,6 +1091,9 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
     absl::Status status = proto_validator_->ValidateDpfKey(keys[i]);
     if (!status.ok()) return status;
   }
+  if (keys.size() == 0) {
+    return absl::OkStatus();  // Nothing to do.
+  }
 
   const int64_t num_keys = keys.size();
   const int num_hierarchy_levels = parameters_.size();
-- 
2.43.0


From 12a85aba74484a834098ecdafb121299c8a2f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 02/29] fix: request enough pseudorandom bits for tuples mixing
 IntModN with other types

BitsNeeded indexed the tuple by the number of non-IntModN elements instead of
iterating over those elements, and did not count the bytes that
SampleAndUpdateBytes consumes after an IntModN that is not the last leaf. Key
generation for e.g. Tuple<IntModN, Tuple<uint128, uint128>> crashed.
---
 dpf/internal/value_type_helpers.cc | 61 +++++++++++++++++++++++++-----
 1 file changed, 52 insertions(+), 9 deletions(-)

diff --git a/dpf/internal/value_type_helpers.cc b/dpf/internal/value_type_helpers.cc
index 0704cce..0294133 100644
--- a/dpf/internal/value_type_helpers.cc
+++ b/dpf/internal/value_type_helpers.cc
@@ -16,6 +16,7 @@
 
 #include <stdint.h>
 
+#include <algorithm>
 #include <cmath>
 #include <string>
 
@@ -68,6 +69,47 @@ absl::StatusOr<bool> ValueTypesAreEqual(const ValueType& lhs,
   return false;
 }
 
+namespace {
+
+// The total bit size of a type, the bit size of its last leaf, and whether it
+// contains an integer mod N.
+struct LeafSizes {
+  int total = 0;
+  int last = 0;
+  bool has_int_mod_n = false;
+};
+
+LeafSizes GetLeafSizes(const ValueType& value_type) {
+  LeafSizes result;
+  if (value_type.type_case() == ValueType::kInteger) {
+    result.total = result.last = value_type.integer().bitsize();
+  } else if (value_type.type_case() == ValueType::kXorWrapper) {
+    result.total = result.last = value_type.xor_wrapper().bitsize();
+  } else if (value_type.type_case() == ValueType::kIntModN) {
+    result.total = result.last =
+        value_type.int_mod_n().base_integer().bitsize();
+    result.has_int_mod_n = true;
+  } else if (value_type.type_case() == ValueType::kTuple) {
+    for (const ValueType& el : value_type.tuple().elements()) {
+      LeafSizes sizes = GetLeafSizes(el);
+      result.total += sizes.total;
+      result.last = sizes.last;
+      result.has_int_mod_n |= sizes.has_int_mod_n;
+    }
+  }
+  return result;
+}
+
+// Returns the number of bits consumed when converting bytes to a `value_type`:
+// Types containing integers mod N start with a 128-bit block, which is filled
+// up after each leaf but the last (see `SampleAndUpdateBytes`).
+int BitsConsumed(const ValueType& value_type) {
+  LeafSizes sizes = GetLeafSizes(value_type);
+  return sizes.has_int_mod_n ? 128 + sizes.total - sizes.last : sizes.total;
+}
+
+}  // namespace
+
 absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
                                double security_parameter) {
   if (value_type.type_case() == ValueType::kInteger) {
@@ -102,15 +144,15 @@ absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
         ++num_other;
       }
     }
-    if (num_other > 0) {
-      for (int i = 0; i < num_other; ++i) {
-        double per_element_security_parameter =
-            security_parameter + std::log2(static_cast<double>(num_other));
-        DPF_ASSIGN_OR_RETURN(int el_bitsize,
-                             BitsNeeded(value_type.tuple().elements(i),
-                                        per_element_security_parameter));
-        bitsize_other += el_bitsize;
+    for (const ValueType& el : value_type.tuple().elements()) {
+      if (el.type_case() == ValueType::kIntModN) {
+        continue;
       }
+      double per_element_security_parameter =
+          security_parameter + std::log2(static_cast<double>(num_other));
+      DPF_ASSIGN_OR_RETURN(int el_bitsize,
+                           BitsNeeded(el, per_element_security_parameter));
+      bitsize_other += el_bitsize;
     }
     if (num_ints_mod_n > 0) {
       DPF_ASSIGN_OR_RETURN(
@@ -123,7 +165,8 @@ absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
               modulus, security_parameter));
       bitsize_ints_mod_n = bytes_needed_ints_mod_n * 8;
     }
-    return bitsize_ints_mod_n + bitsize_other;
+    return std::max(bitsize_ints_mod_n + bitsize_other,
+                    BitsConsumed(value_type));
   } else if (value_type.type_case() == ValueType::kIntModN) {
     DPF_ASSIGN_OR_RETURN(
         absl::uint128 modulus,
-- 
2.43.0


From bf6e3b1ee69b73efde8facc2e76a6f40dd047391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 03/29] fix: refuse integer Values whose high 64 bits do not
 fit the type

Uint128To checked only the low 64 bits, so e.g. 2^64 decoded as a uint16_t
gave 0 instead of an error.
---
 dpf/internal/value_type_helpers.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dpf/internal/value_type_helpers.h b/dpf/internal/value_type_helpers.h
index 1e28348..23bd345 100644
--- a/dpf/internal/value_type_helpers.h
+++ b/dpf/internal/value_type_helpers.h
@@ -168,12 +168,11 @@ Value::Integer Uint128ToValueInteger(absl::uint128 input);
 template <typename T, typename = absl::enable_if_t<is_unsigned_integer_v<T>>>
 absl::StatusOr<T> Uint128To(absl::uint128 in) {
   // Check whether value is in range if it's smaller than 128 bits.
-  if (!std::is_same<T, absl::uint128>::value &&
-      absl::Uint128Low64(in) >
-          static_cast<uint64_t>(std::numeric_limits<T>::max())) {
-    return absl::InvalidArgumentError(absl::StrCat(
-        "Value (= ", absl::Uint128Low64(in),
-        ") too large for the given type T (size ", sizeof(T), ")"));
+  if (sizeof(T) < sizeof(absl::uint128) &&
+      in > absl::uint128{std::numeric_limits<T>::max()}) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "Value (= %d) too large for the given type T (size %d)", in,
+        sizeof(T)));
   }
   return static_cast<T>(in);
 }
-- 
2.43.0


From e76da55f53d754870bb1c0012521899d53626ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 04/29] fix: replace the block when sampling integers mod N
 with a 128-bit base

UnsafeSampleFromBytes ORed the fresh bytes into the previous quotient, which
biases all samples but the first. ValueTypeHelper::SampleAndUpdateBytes already
clears the block.
---
 dpf/int_mod_n.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dpf/int_mod_n.h b/dpf/int_mod_n.h
index 0f61ed0..c6b2013 100644
--- a/dpf/int_mod_n.h
+++ b/dpf/int_mod_n.h
@@ -175,6 +175,8 @@ class IntModNImpl : public IntModNBase {
         r /= kModulus;
         if (sizeof(BaseInteger) < sizeof(absl::uint128)) {
           r <<= (sizeof(BaseInteger) * 8);
+        } else {
+          r = 0;
         }
         r |= randomness[i];
       }
-- 
2.43.0


From dfbaaaaf9c951e406e10115c8091fbc7528fca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 05/29] fix: EvaluateSeedsHwy must compile for the scalar
 Highway target

---
 dpf/internal/evaluate_prg_hwy.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dpf/internal/evaluate_prg_hwy.cc b/dpf/internal/evaluate_prg_hwy.cc
index f1e9ced..7beaa89 100644
--- a/dpf/internal/evaluate_prg_hwy.cc
+++ b/dpf/internal/evaluate_prg_hwy.cc
@@ -50,16 +50,18 @@ namespace hn = hwy::HWY_NAMESPACE;
 #if HWY_TARGET == HWY_SCALAR
 
 absl::Status EvaluateSeedsHwy(
-    int64_t num_seeds, int num_levels, const absl::uint128* seeds_in,
-    const bool* control_bits_in, const absl::uint128* paths,
+    int64_t num_seeds, int num_levels, int num_correction_words,
+    const absl::uint128* seeds_in, const bool* control_bits_in,
+    const absl::uint128* paths, int paths_rightshift,
     const absl::uint128* correction_seeds, const bool* correction_controls_left,
     const bool* correction_controls_right, const Aes128FixedKeyHash& prg_left,
     const Aes128FixedKeyHash& prg_right, absl::uint128* seeds_out,
     bool* control_bits_out) {
-  return EvaluateSeedsNoHwy(num_seeds, num_levels, seeds_in, control_bits_in,
-                            paths, correction_seeds, correction_controls_left,
-                            correction_controls_right, prg_left, prg_right,
-                            seeds_out, control_bits_out);
+  return EvaluateSeedsNoHwy(
+      num_seeds, num_levels, num_correction_words, seeds_in, control_bits_in,
+      paths, paths_rightshift, correction_seeds, correction_controls_left,
+      correction_controls_right, prg_left, prg_right, seeds_out,
+      control_bits_out);
 }
 
 #else
-- 
2.43.0


From 407d25ea7326da72efde1b8236173ec1a58adb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 06/29] fix: fixed-key hash must not overwrite unread input
 when buffers overlap

---
 dpf/aes_128_fixed_key_hash.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dpf/aes_128_fixed_key_hash.cc b/dpf/aes_128_fixed_key_hash.cc
index f7df231..32c6899 100644
--- a/dpf/aes_128_fixed_key_hash.cc
+++ b/dpf/aes_128_fixed_key_hash.cc
@@ -20,6 +20,7 @@
 
 #include <algorithm>
 #include <array>
+#include <functional>
 #include <string>
 #include <utility>
 
@@ -70,8 +71,14 @@ absl::Status Aes128FixedKeyHash::Evaluate(absl::Span<const absl::uint128> in,
   // at a time.
   auto in_size = static_cast<int64_t>(in.size());
   std::array<absl::uint128, kBatchSize> sigma_in;
-  for (int64_t start_block = 0; start_block < in_size;
-       start_block += kBatchSize) {
+  // If `out` begins inside `in`, work from the last batch to the first, so that
+  // no batch overwrites input that has not been read yet.
+  const int64_t num_batches = (in_size + kBatchSize - 1) / kBatchSize;
+  const bool reverse =
+      std::less<const absl::uint128*>()(in.data(), out.data());
+  for (int64_t batch = 0; batch < num_batches; ++batch) {
+    const int64_t start_block =
+        (reverse ? num_batches - 1 - batch : batch) * kBatchSize;
     int64_t batch_size = std::min<int64_t>(in_size - start_block, kBatchSize);
     for (int i = 0; i < batch_size; ++i) {
       sigma_in[i] =
-- 
2.43.0


From 404e56817d871a60048463dbbf53efaf541ba7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 07/29] fix: refuse DPF keys whose party is neither 0 nor 1

---
 dpf/internal/proto_validator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index 678b3de..a38ea54 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -207,6 +207,9 @@ absl::Status ProtoValidator::ValidateDpfKey(const DpfKey& key) const {
   if (!key.has_seed()) {
     return absl::InvalidArgumentError("key.seed must be present");
   }
+  if (key.party() != 0 && key.party() != 1) {
+    return absl::InvalidArgumentError("key.party must be 0 or 1");
+  }
   if (key.last_level_value_correction().empty()) {
     return absl::InvalidArgumentError(
         "key.last_level_value_correction must be present");
-- 
2.43.0


From ca9c3e3c6cfbc61d2a8c33fc8e91f06fb6d0fe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 08/29] fix: refuse value types without any elements

---
 dpf/internal/proto_validator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index a38ea54..97ba0de 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -135,6 +135,9 @@ absl::StatusOr<std::unique_ptr<ProtoValidator>> ProtoValidator::Create(
     DPF_ASSIGN_OR_RETURN(int bits_needed,
                          BitsNeeded(parameters[i].value_type(),
                                     parameters[i].security_parameter()));
+    if (bits_needed <= 0) {
+      return absl::InvalidArgumentError("`value_type` must not be empty");
+    }
     log_bits_needed = static_cast<int>(std::ceil(std::log2(bits_needed)));
 
     // The tree level depends on the domain size and the element size. A single
-- 
2.43.0


From 3a61044389142e3af93f8e443c9ba2e5d0a11343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 09/29] fix: refuse integers modulo zero

---
 dpf/internal/proto_validator.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index 97ba0de..6856704 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -284,6 +284,12 @@ absl::Status ProtoValidator::ValidateValueType(const ValueType& value_type) {
     const ValueType::Integer& base_integer =
         value_type.int_mod_n().base_integer();
     DPF_RETURN_IF_ERROR(ValidateIntegerType(base_integer));
+    DPF_ASSIGN_OR_RETURN(
+        absl::uint128 modulus,
+        ValueIntegerToUint128(value_type.int_mod_n().modulus()));
+    if (modulus == 0) {
+      return absl::InvalidArgumentError("`modulus` must be positive");
+    }
     return ValidateIntegerValue(value_type.int_mod_n().modulus(), base_integer);
   } else if (value_type.type_case() == ValueType::kXorWrapper) {
     return ValidateIntegerType(value_type.xor_wrapper());
-- 
2.43.0


From e96af9c8fb940b5290ab149b094061733a78caa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 10/29] fix: refuse evaluation contexts with out-of-range
 hierarchy levels

---
 dpf/distributed_point_function.cc |  6 +++++-
 dpf/distributed_point_function.h  |  5 +++++
 dpf/internal/proto_validator.cc   | 22 ++++++++++++++++------
 dpf/internal/proto_validator.h    |  5 ++++-
 4 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/dpf/distributed_point_function.cc b/dpf/distributed_point_function.cc
index a3c42d0..39c3ec7 100644
--- a/dpf/distributed_point_function.cc
+++ b/dpf/distributed_point_function.cc
@@ -381,7 +381,11 @@ DistributedPointFunction::ComputePartialEvaluations(
   int64_t num_prefixes = static_cast<int64_t>(prefixes.size());
 
   DpfExpansion partial_evaluations;
-  int start_level = hierarchy_to_tree_[ctx.partial_evaluations_level()];
+  // `ctx.partial_evaluations_level()` is ignored if there are none.
+  int start_level = 0;
+  if (ctx.partial_evaluations_size() > 0) {
+    start_level = hierarchy_to_tree_[ctx.partial_evaluations_level()];
+  }
   int stop_level = hierarchy_to_tree_[hierarchy_level];
   if (ctx.partial_evaluations_size() > 0 && start_level <= stop_level) {
     // We have partial evaluations from a tree level before the current one.
diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index a1c9ffc..52312c1 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -929,6 +929,11 @@ absl::StatusOr<std::vector<T>> DistributedPointFunction::EvaluateAtImpl(
       return absl::InvalidArgumentError(
           "`key` and `ctx->key()` must refer to the same object");
     }
+    absl::Status ctx_status = proto_validator_->ValidateEvaluationContext(
+        *ctx, /*allow_fully_evaluated=*/true);
+    if (!ctx_status.ok()) {
+      return ctx_status;
+    }
   }
   if (hierarchy_level < 0) {
     return absl::InvalidArgumentError("`hierarchy_level` must be non-negative");
diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index 6856704..edd23c5 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -242,7 +242,7 @@ absl::Status ProtoValidator::ValidateDpfKey(const DpfKey& key) const {
 }
 
 absl::Status ProtoValidator::ValidateEvaluationContext(
-    const EvaluationContext& ctx) const {
+    const EvaluationContext& ctx, bool allow_fully_evaluated) const {
   if (ctx.parameters_size() != static_cast<int>(parameters_.size())) {
     return absl::InvalidArgumentError(
         "Number of parameters in `ctx` doesn't match");
@@ -259,15 +259,25 @@ absl::Status ProtoValidator::ValidateEvaluationContext(
     return absl::InvalidArgumentError("ctx.key must be present");
   }
   DPF_RETURN_IF_ERROR(ValidateDpfKey(ctx.key()));
-  if (ctx.previous_hierarchy_level() >= ctx.parameters_size() - 1) {
+  if (!allow_fully_evaluated &&
+      ctx.previous_hierarchy_level() >= ctx.parameters_size() - 1) {
     return absl::InvalidArgumentError(
         "This context has already been fully evaluated");
   }
-  if (!ctx.partial_evaluations().empty() &&
-      ctx.partial_evaluations_level() > ctx.previous_hierarchy_level()) {
+  if (ctx.previous_hierarchy_level() >= ctx.parameters_size()) {
     return absl::InvalidArgumentError(
-        "ctx.partial_evaluations_level must be less than or equal to "
-        "ctx.previous_hierarchy_level");
+        "ctx.previous_hierarchy_level is out of range");
+  }
+  if (!ctx.partial_evaluations().empty()) {
+    if (ctx.partial_evaluations_level() < 0) {
+      return absl::InvalidArgumentError(
+          "ctx.partial_evaluations_level must be non-negative");
+    }
+    if (ctx.partial_evaluations_level() > ctx.previous_hierarchy_level()) {
+      return absl::InvalidArgumentError(
+          "ctx.partial_evaluations_level must be less than or equal to "
+          "ctx.previous_hierarchy_level");
+    }
   }
   return absl::OkStatus();
 }
diff --git a/dpf/internal/proto_validator.h b/dpf/internal/proto_validator.h
index e6e63dd..a767b7b 100644
--- a/dpf/internal/proto_validator.h
+++ b/dpf/internal/proto_validator.h
@@ -59,8 +59,11 @@ class ProtoValidator {
   absl::Status ValidateDpfKey(const DpfKey& key) const;
 
   // Checks that `ctx` is valid for the `parameters` passed at construction.
+  // A context that has been evaluated on its last hierarchy level is only valid
+  // if `allow_fully_evaluated` is true.
   // Returns OK on success, and INVALID_ARGUMENT otherwise.
-  absl::Status ValidateEvaluationContext(const EvaluationContext& ctx) const;
+  absl::Status ValidateEvaluationContext(
+      const EvaluationContext& ctx, bool allow_fully_evaluated = false) const;
 
   // Checks that the given ValueType is valid.
   // Returns OK on success and INVALID_ARGUMENT otherwise.
-- 
2.43.0


From db13835edd6664f3986882c147c7d857d0af94d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 11/29] fix: point evaluation must check the value type

---
 dpf/distributed_point_function.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 52312c1..c903912 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -943,6 +943,14 @@ absl::StatusOr<std::vector<T>> DistributedPointFunction::EvaluateAtImpl(
         "`hierarchy_level` must be less than the number of parameters passed "
         "at construction");
   }
+  absl::StatusOr<bool> types_are_equal = dpf_internal::ValueTypesAreEqual(
+      ToValueType<T>(), parameters_[hierarchy_level].value_type());
+  if (!types_are_equal.ok()) {
+    return types_are_equal.status();
+  } else if (!*types_are_equal) {
+    return absl::InvalidArgumentError(
+        "Value type T doesn't match parameters at `hierarchy_level`");
+  }
   const auto num_evaluation_points =
       static_cast<int64_t>(evaluation_points.size());
   const int log_domain_size = parameters_[hierarchy_level].log_domain_size();
@@ -1120,6 +1128,7 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
     control_bits[i] = keys[i].party();
   }
 
+  const ValueType value_type = ToValueType<T>();
   int start_level = 0;
   int stop_level = hierarchy_to_tree_[0];
   for (int hierarchy_level = 0; hierarchy_level < num_hierarchy_levels;
@@ -1129,6 +1138,17 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
       stop_level = hierarchy_to_tree_[hierarchy_level];
     }
 
+    // Check that `T` is the value type of the current level.
+    absl::StatusOr<bool> types_are_equal = dpf_internal::ValueTypesAreEqual(
+        value_type, parameters_[hierarchy_level].value_type());
+    if (!types_are_equal.ok()) {
+      return types_are_equal.status();
+    } else if (!*types_are_equal) {
+      return absl::InvalidArgumentError(absl::StrCat(
+          "Value type T doesn't match parameters at hierarchy level ",
+          hierarchy_level));
+    }
+
     // Compute index shifts for the current level.
     const int domain_index_rightshift =
         evaluation_points_rightshift + parameters_.back().log_domain_size() -
-- 
2.43.0


From 0360ab06f4bfb01c602bccb1ece887cc5ec7c4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 12/29] fix: EvaluateAndApply must refuse points outside the
 domain

---
 dpf/distributed_point_function.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index c903912..5446b72 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -1104,6 +1104,20 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
     absl::Status status = proto_validator_->ValidateDpfKey(keys[i]);
     if (!status.ok()) return status;
   }
+  if (evaluation_points_rightshift < 0) {
+    return absl::InvalidArgumentError(
+        "`evaluation_points_rightshift` must be non-negative");
+  }
+  const int point_bits = evaluation_points_rightshift < 128
+                             ? parameters_.back().log_domain_size() +
+                                   evaluation_points_rightshift
+                             : 128;
+  for (size_t i = 0; point_bits < 128 && i < evaluation_points.size(); ++i) {
+    if (evaluation_points[i] >> point_bits != 0) {
+      return absl::InvalidArgumentError(absl::StrCat(
+          "`evaluation_points[", i, "]` larger than the domain size"));
+    }
+  }
   if (keys.size() == 0) {
     return absl::OkStatus();  // Nothing to do.
   }
-- 
2.43.0


From 8c2dcd9feb7046dbeff2b4d7f26592a13f0fb6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 13/29] fix: right shifts in EvaluateAndApply must not overflow

---
 dpf/distributed_point_function.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 5446b72..7a6680d 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -1108,6 +1108,8 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
     return absl::InvalidArgumentError(
         "`evaluation_points_rightshift` must be non-negative");
   }
+  // Shifting by more than the 128 bits of a point always yields zero.
+  evaluation_points_rightshift = std::min(evaluation_points_rightshift, 128);
   const int point_bits = evaluation_points_rightshift < 128
                              ? parameters_.back().log_domain_size() +
                                    evaluation_points_rightshift
-- 
2.43.0


From fde595a5bc87cebe7887cd9185e76d312afa1090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 14/29] fix: distributed comparison functions with XorWrapper
 values

---
 dcf/distributed_comparison_function.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index 40f9c36..db0250b 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -34,6 +34,8 @@ void SetToZero(Value& value) {
     value.mutable_integer()->set_value_uint64(0);
   } else if (value.value_case() == Value::kIntModN) {
     value.mutable_int_mod_n()->set_value_uint64(0);
+  } else if (value.value_case() == Value::kXorWrapper) {
+    value.mutable_xor_wrapper()->set_value_uint64(0);
   } else if (value.value_case() == Value::kTuple) {
     for (int i = 0; i < value.tuple().elements_size(); ++i) {
       SetToZero(*(value.mutable_tuple()->mutable_elements(i)));
-- 
2.43.0


From 7cec6b89dc5cade60b1411b724435e60a86d38cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 15/29] fix: distributed comparison functions must honour the
 security parameter

---
 dcf/distributed_comparison_function.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index db0250b..d99eca2 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -63,6 +63,8 @@ DistributedComparisonFunction::Create(const DcfParameters& parameters) {
     dpf_parameters[i].set_log_domain_size(i);
     *(dpf_parameters[i].mutable_value_type()) =
         parameters.parameters().value_type();
+    dpf_parameters[i].set_security_parameter(
+        parameters.parameters().security_parameter());
   }
 
   // Check that parameters are valid. We can use the DPF proto validator
-- 
2.43.0


From 47438264fef45fbec87548a1db883850953b1d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 16/29] fix: distributed comparison functions must refuse
 domains above 128 bits

---
 dcf/distributed_comparison_function.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index d99eca2..c7174c1 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -55,6 +55,10 @@ DistributedComparisonFunction::Create(const DcfParameters& parameters) {
   if (parameters.parameters().log_domain_size() < 1) {
     return absl::InvalidArgumentError("A DCF must have log_domain_size >= 1");
   }
+  if (parameters.parameters().log_domain_size() > 128) {
+    return absl::InvalidArgumentError(
+        "A DCF must have log_domain_size <= 128");
+  }
 
   // Create parameter vector for the incremental DPF.
   std::vector<DpfParameters> dpf_parameters(
-- 
2.43.0


From 55b97a45c1a2a1edd55a1928d2baea7e925b61dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 17/29] fix: interval bounds given as 64-bit integers were read
 as zero

---
 .../multiple_interval_containment.cc          | 37 ++++++++++---------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 174d546..c591184 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -29,6 +29,7 @@
 #include "dcf/fss_gates/prng/basic_rng.h"
 #include "dpf/distributed_point_function.pb.h"
 #include "dpf/internal/maybe_deref_span.h"
+#include "dpf/internal/value_type_helpers.h"
 #include "dpf/status_macros.h"
 
 namespace distributed_point_functions {
@@ -56,13 +57,13 @@ MultipleIntervalContainmentGate::Create(const MicParameters& mic_parameters) {
       return absl::InvalidArgumentError("Intervals should be non-empty");
     }
 
-    absl::uint128 p = absl::MakeUint128(
-        mic_parameters.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters.intervals(i).lower_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 p,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters.intervals(i).lower_bound()));
 
-    absl::uint128 q = absl::MakeUint128(
-        mic_parameters.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters.intervals(i).upper_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 q,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters.intervals(i).upper_bound()));
 
     // Return error if the intervals are not valid group elements.
     if (p < 0 || p >= N) {
@@ -154,13 +155,13 @@ absl::StatusOr<std::pair<MicKey, MicKey>> MultipleIntervalContainmentGate::Gen(
 
   // Line 3
   for (int i = 0; i < mic_parameters_.intervals_size(); i++) {
-    absl::uint128 p = absl::MakeUint128(
-        mic_parameters_.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).lower_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 p,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).lower_bound()));
 
-    absl::uint128 q = absl::MakeUint128(
-        mic_parameters_.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).upper_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 q,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).upper_bound()));
 
     // Line 4
     absl::uint128 q_prime = (q + 1) % N;
@@ -243,13 +244,13 @@ MultipleIntervalContainmentGate::BatchEval(
   // https://eprint.iacr.org/2020/1392 Fig. 14 Eval procedure.
   for (int i = 0; i < num_intervals; ++i) {
     // Line 2
-    p[i] = absl::MakeUint128(
-        mic_parameters_.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).lower_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(p[i],
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).lower_bound()));
 
-    q[i] = absl::MakeUint128(
-        mic_parameters_.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).upper_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(q[i],
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).upper_bound()));
 
     // Line 3
     q_prime[i] = (q[i] + 1) % N;
-- 
2.43.0


From f774e1f35ce05e742fa299fc4b39e19020e92c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 18/29] fix: the interval gate must not abort on an empty batch
 or without intervals

---
 dcf/fss_gates/multiple_interval_containment.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index c591184..7426584 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -230,6 +230,9 @@ MultipleIntervalContainmentGate::BatchEval(
   }
 
   int num_intervals = mic_parameters_.intervals_size();
+  if (keys.size() == 0 || num_intervals == 0) {
+    return std::vector<absl::uint128>();  // Nothing to do.
+  }
   std::vector<absl::uint128> p(num_intervals), q(num_intervals),
       q_prime(num_intervals), s_p(keys.size() * num_intervals),
       s_q_prime(keys.size() * num_intervals);
-- 
2.43.0


From 8604803ccccb7d453c7c1bab19f74168a7b9e105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 19/29] fix: interval gate keys without one valid mask share
 per interval must be refused

---
 dcf/fss_gates/multiple_interval_containment.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 7426584..db9a1eb 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -233,6 +233,15 @@ MultipleIntervalContainmentGate::BatchEval(
   if (keys.size() == 0 || num_intervals == 0) {
     return std::vector<absl::uint128>();  // Nothing to do.
   }
+  // Checking whether each key has an output mask share for each interval.
+  for (int i = 0; i < keys.size(); ++i) {
+    if (keys[i].output_mask_share_size() != num_intervals) {
+      return absl::InvalidArgumentError(
+          "Count of output mask shares should be equal to the number of "
+          "intervals");
+    }
+  }
+
   std::vector<absl::uint128> p(num_intervals), q(num_intervals),
       q_prime(num_intervals), s_p(keys.size() * num_intervals),
       s_q_prime(keys.size() * num_intervals);
@@ -297,9 +306,8 @@ MultipleIntervalContainmentGate::BatchEval(
       s_q_prime[index] = s_q_prime[index] % N;
 
       // Line 7
-      absl::uint128 z =
-          absl::MakeUint128(k.output_mask_share(j).value_uint128().high(),
-                            k.output_mask_share(j).value_uint128().low());
+      DPF_ASSIGN_OR_RETURN(absl::uint128 z, dpf_internal::ValueIntegerToUint128(
+                                                k.output_mask_share(j)));
       absl::uint128 y = (k.dcfkey().key().party()
                              ? ((x > p[j] ? 1 : 0) - (x > q_prime[j] ? 1 : 0))
                              : 0) -
-- 
2.43.0


From 3126a83b00896664ce9cf04f089de3239c133c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:38 +0000
Subject: [PATCH 20/29] fix: count an element's own copies against
 SimpleHashTable's maximum bucket size

If two hash functions map an element to the same bucket, Insert appended it
twice after checking for a single free slot, exceeding max_bucket_size.
---
 pir/hashing/simple_hash_table.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pir/hashing/simple_hash_table.cc b/pir/hashing/simple_hash_table.cc
index b03c19e..bca4ef0 100644
--- a/pir/hashing/simple_hash_table.cc
+++ b/pir/hashing/simple_hash_table.cc
@@ -14,6 +14,8 @@
 
 #include "pir/hashing/simple_hash_table.h"
 
+#include <algorithm>
+#include <cstdint>
 #include <memory>
 #include <string>
 #include <utility>
@@ -56,7 +58,12 @@ absl::Status SimpleHashTable::Insert(absl::string_view input) {
   std::vector<int> hashes(hash_functions_.size());
   for (int i = 0; i < hash_functions_.size(); i++) {
     hashes[i] = hash_functions_[i](input, num_buckets_);
-    if (max_bucket_size_ && table_[hashes[i]].size() >= *max_bucket_size_) {
+    // Also count the copies of `input` that previous hash functions put into
+    // the same bucket.
+    const int64_t new_copies =
+        std::count(hashes.begin(), hashes.begin() + i, hashes[i]);
+    if (max_bucket_size_ &&
+        table_[hashes[i]].size() + new_copies >= *max_bucket_size_) {
       return absl::InternalError(
           "Cannot insert element: maximum bucket size reached");
     }
-- 
2.43.0


From 558bdbac8eef0c5d6700cb5407af9752ca904d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:38 +0000
Subject: [PATCH 21/29] fix: use a free bucket in CuckooHashTable::Insert if
 there is one

Insert looked at one random bucket per step and evicted its element even if
another bucket of the inserted element was free, contrary to the header. With
max_relocations = 0, it never used the table at all.
---
 pir/hashing/cuckoo_hash_table.cc | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pir/hashing/cuckoo_hash_table.cc b/pir/hashing/cuckoo_hash_table.cc
index 4a81655..5536d40 100644
--- a/pir/hashing/cuckoo_hash_table.cc
+++ b/pir/hashing/cuckoo_hash_table.cc
@@ -66,17 +66,21 @@ absl::StatusOr<std::unique_ptr<CuckooHashTable>> CuckooHashTable::Create(
 
 absl::Status CuckooHashTable::Insert(absl::string_view input) {
   std::string current_element(input);
-  for (int i = 0; i < max_relocations_; i++) {
-    // Choose a random hash function and hash the current element.
-    int hash = hash_functions_[random_hash_function_(rng_)](current_element,
-                                                            num_buckets_);
-    if (table_[hash]) {
-      // If bucket is full, evict element and re-insert it recursively.
-      std::swap(current_element, *table_[hash]);
-    } else {
-      // Otherwise just insert our current element and return.
-      table_[hash] = std::move(current_element);
-      return absl::OkStatus();
+  std::vector<int> hashes(hash_functions_.size());
+  for (int i = 0; i <= max_relocations_; i++) {
+    // If one of the buckets for the current element is free, insert it there
+    // and return.
+    for (int j = 0; j < hash_functions_.size(); j++) {
+      hashes[j] = hash_functions_[j](current_element, num_buckets_);
+      if (!table_[hashes[j]]) {
+        table_[hashes[j]] = std::move(current_element);
+        return absl::OkStatus();
+      }
+    }
+    if (i < max_relocations_) {
+      // All buckets are full. Evict a random element and re-insert it
+      // recursively.
+      std::swap(current_element, *table_[hashes[random_hash_function_(rng_)]]);
     }
   }
   // If we're still here after max_relocations_, put current_element on the
-- 
2.43.0


From f3f953c934351bbe578bd00da3700434694560a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:38 +0000
Subject: [PATCH 22/29] fix: keep all elements if CuckooHashTable::Insert fails

When the stash was full, the element evicted last was dropped although it had
been inserted successfully before.
---
 pir/hashing/cuckoo_hash_table.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pir/hashing/cuckoo_hash_table.cc b/pir/hashing/cuckoo_hash_table.cc
index 5536d40..7ee559c 100644
--- a/pir/hashing/cuckoo_hash_table.cc
+++ b/pir/hashing/cuckoo_hash_table.cc
@@ -67,6 +67,7 @@ absl::StatusOr<std::unique_ptr<CuckooHashTable>> CuckooHashTable::Create(
 absl::Status CuckooHashTable::Insert(absl::string_view input) {
   std::string current_element(input);
   std::vector<int> hashes(hash_functions_.size());
+  std::vector<int> evicted_from;
   for (int i = 0; i <= max_relocations_; i++) {
     // If one of the buckets for the current element is free, insert it there
     // and return.
@@ -80,12 +81,17 @@ absl::Status CuckooHashTable::Insert(absl::string_view input) {
     if (i < max_relocations_) {
       // All buckets are full. Evict a random element and re-insert it
       // recursively.
-      std::swap(current_element, *table_[hashes[random_hash_function_(rng_)]]);
+      evicted_from.push_back(hashes[random_hash_function_(rng_)]);
+      std::swap(current_element, *table_[evicted_from.back()]);
     }
   }
   // If we're still here after max_relocations_, put current_element on the
   // stash.
   if (max_stash_size_ && stash_.size() >= *max_stash_size_) {
+    // Undo all evictions, so that no element inserted previously is lost.
+    for (auto it = evicted_from.rbegin(); it != evicted_from.rend(); ++it) {
+      std::swap(current_element, *table_[*it]);
+    }
     return absl::InternalError("Cannot insert element: stash is full");
   } else {
     stash_.push_back(std::move(current_element));
-- 
2.43.0


From ae0925ef09c367bd62462236d2ddfa91ae4a30fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 23/29] fix: cuckoo client must not report keys that are not
 stored

A query longer than every stored key was accepted as soon as a stored key was
a prefix of it, and the empty query matched every empty bucket.
---
 pir/cuckoo_hashing_sparse_dpf_pir_client.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
index 9ed0d3b..4f79084 100644
--- a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
+++ b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
@@ -44,6 +44,7 @@ namespace {
 // zero bytes.
 bool IsPrefixPaddedWithZeros(absl::string_view input,
                              absl::string_view prefix) {
+  if (input.size() < prefix.size()) return false;
   for (int i = 0; i < input.size(); ++i) {
     if (i < prefix.size()) {
       if (input[i] != prefix[i]) return false;
@@ -204,12 +205,13 @@ CuckooHashingSparseDpfPirClient::HandleResponse(
   for (int i = 0; i < result.size(); ++i) {
     for (int j = 0; j < hash_functions_.size(); ++j) {
       int raw_index = 2 * (hash_functions_.size() * i + j);
-      if (!result[i].has_value() &&
-          IsPrefixPaddedWithZeros(
-              raw_responses[raw_index],
-              request_client_state
-                  .cuckoo_hashing_sparse_dpf_pir_request_client_state()
-                  .query_strings(i))) {
+      const std::string& query_string =
+          request_client_state
+              .cuckoo_hashing_sparse_dpf_pir_request_client_state()
+              .query_strings(i);
+      // Keys are never empty, so an empty query must not match empty buckets.
+      if (!result[i].has_value() && !query_string.empty() &&
+          IsPrefixPaddedWithZeros(raw_responses[raw_index], query_string)) {
         result[i] = raw_responses[raw_index + 1];
       }
     }
-- 
2.43.0


From ae9ae05e2cda6c544996431199ed268ec32d9853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 24/29] fix: cuckoo-hashed database must not drop records
 silently

Keys that end up in the hash table's stash are not part of the database. Fail
instead of building a database in which they cannot be found.
---
 pir/cuckoo_hashed_dpf_pir_database.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pir/cuckoo_hashed_dpf_pir_database.cc b/pir/cuckoo_hashed_dpf_pir_database.cc
index 8331377..17545ef 100644
--- a/pir/cuckoo_hashed_dpf_pir_database.cc
+++ b/pir/cuckoo_hashed_dpf_pir_database.cc
@@ -148,6 +148,12 @@ CuckooHashedDpfPirDatabase::Builder::Build() {
     }
     DPF_RETURN_IF_ERROR(cuckoo_hasher->Insert(key));
   }
+  if (!cuckoo_hasher->GetStash().empty()) {
+    // Elements in the stash cannot be retrieved.
+    return absl::InternalError(
+        "Not all keys could be placed in the hash table. Please use more "
+        "buckets or a different seed.");
+  }
 
   // For each key in the cuckoo hash table, insert it into key_database_ and
   // the corresponding value into value_database_.
-- 
2.43.0


From 1c21ecc32ec2f0606714033c06a92f0cb8ef95c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 25/29] fix: simple hashing client must refuse malformed
 buckets

A bucket with more keys than values led to an out-of-bounds read, and parse
errors were reported as missing keys.
---
 pir/simple_hashing_sparse_dpf_pir_client.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pir/simple_hashing_sparse_dpf_pir_client.cc b/pir/simple_hashing_sparse_dpf_pir_client.cc
index 33f571c..3295d62 100644
--- a/pir/simple_hashing_sparse_dpf_pir_client.cc
+++ b/pir/simple_hashing_sparse_dpf_pir_client.cc
@@ -197,7 +197,11 @@ SimpleHashingSparseDpfPirClient::HandleResponse(
     ::google::protobuf::io::CodedInputStream coded_stream(
         reinterpret_cast<const uint8_t*>(raw_responses[i].data()),
         raw_responses[i].size());
-    bucket.ParseFromCodedStream(&coded_stream);
+    if (!bucket.ParseFromCodedStream(&coded_stream) ||
+        bucket.keys_size() != bucket.values_size()) {
+      return absl::InvalidArgumentError(
+          "`pir_response` does not contain a valid HashedPirDatabaseBucket");
+    }
     absl::string_view query =
         request_client_state
             .simple_hashing_sparse_dpf_pir_request_client_state()
-- 
2.43.0


From 480d7267abccac19dd491c3623432d6b6749a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 26/29] fix: helper must own its encryption context info

The string passed to MakeHelper was kept as a view and may no longer exist when
a request arrives.
---
 pir/dpf_pir_server.cc | 3 ++-
 pir/dpf_pir_server.h  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pir/dpf_pir_server.cc b/pir/dpf_pir_server.cc
index e3c13dd..7169623 100644
--- a/pir/dpf_pir_server.cc
+++ b/pir/dpf_pir_server.cc
@@ -47,7 +47,8 @@ absl::Status DpfPirServer::MakeHelper(
   if (decrypter == nullptr) {
     return absl::InvalidArgumentError("`decrypter` may not be null");
   }
-  role_storage_ = DpfPirHelper{std::move(decrypter), encryption_context_info};
+  role_storage_ = DpfPirHelper{std::move(decrypter),
+                               std::string(encryption_context_info)};
   role_ = Role::kHelper;
   return absl::OkStatus();
 }
diff --git a/pir/dpf_pir_server.h b/pir/dpf_pir_server.h
index 7904246..3ce17db 100644
--- a/pir/dpf_pir_server.h
+++ b/pir/dpf_pir_server.h
@@ -160,7 +160,7 @@ class DpfPirServer : public PirServer {
   };
   struct DpfPirHelper {
     DecryptHelperRequestFn decrypter;
-    absl::string_view encryption_context_info;
+    std::string encryption_context_info;
   };
 
   virtual absl::StatusOr<PirResponse> HandleLeaderRequest(
-- 
2.43.0


From 9b57c2251372e028d393be03efa0271bebaafe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 27/29] fix: dense client must not truncate the database size

With 2^31 or more elements, valid indices were refused or invalid ones accepted.
---
 pir/dense_dpf_pir_client.cc | 2 +-
 pir/dense_dpf_pir_client.h  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pir/dense_dpf_pir_client.cc b/pir/dense_dpf_pir_client.cc
index 12cdb08..7708d12 100644
--- a/pir/dense_dpf_pir_client.cc
+++ b/pir/dense_dpf_pir_client.cc
@@ -42,7 +42,7 @@ namespace distributed_point_functions {
 DenseDpfPirClient::DenseDpfPirClient(
     std::unique_ptr<DistributedPointFunction> dpf,
     EncryptHelperRequestFn encrypter, std::string encryption_context_info,
-    int database_size)
+    int64_t database_size)
     : DpfPirClient(std::move(encrypter), std::move(encryption_context_info)),
       dpf_(std::move(dpf)),
       database_size_(database_size) {}
diff --git a/pir/dense_dpf_pir_client.h b/pir/dense_dpf_pir_client.h
index 3ee4dec..423dc37 100644
--- a/pir/dense_dpf_pir_client.h
+++ b/pir/dense_dpf_pir_client.h
@@ -17,6 +17,7 @@
 #ifndef DISTRIBUTED_POINT_FUNCTIONS_PIR_DENSE_DPF_PIR_CLIENT_H_
 #define DISTRIBUTED_POINT_FUNCTIONS_PIR_DENSE_DPF_PIR_CLIENT_H_
 
+#include <cstdint>
 #include <memory>
 #include <string>
 #include <tuple>
@@ -78,10 +79,10 @@ class DenseDpfPirClient
 
   DenseDpfPirClient(std::unique_ptr<DistributedPointFunction> dpf,
                     EncryptHelperRequestFn encrypter,
-                    std::string encryption_context_info, int database_size);
+                    std::string encryption_context_info, int64_t database_size);
 
   std::unique_ptr<DistributedPointFunction> dpf_;
-  int database_size_;
+  int64_t database_size_;
 };
 
 }  // namespace distributed_point_functions
-- 
2.43.0


From aaf81cdc83897b08938921d2dedc1028d1a14431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 28/29] fix: refuse more buckets than hash functions can
 address

Numbers of buckets above the range of int were truncated when hashing, which
led to databases and clients using a different number of buckets than their
parameters say, or to a division by zero.
---
 pir/cuckoo_hashed_dpf_pir_database.cc       | 4 ++++
 pir/cuckoo_hashing_sparse_dpf_pir_client.cc | 4 ++++
 pir/cuckoo_hashing_sparse_dpf_pir_server.cc | 4 ++++
 pir/simple_hashed_dpf_pir_database.cc       | 7 ++++++-
 pir/simple_hashing_sparse_dpf_pir_client.cc | 4 ++++
 5 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/pir/cuckoo_hashed_dpf_pir_database.cc b/pir/cuckoo_hashed_dpf_pir_database.cc
index 17545ef..8aab046 100644
--- a/pir/cuckoo_hashed_dpf_pir_database.cc
+++ b/pir/cuckoo_hashed_dpf_pir_database.cc
@@ -17,6 +17,7 @@
 #include <stdint.h>
 
 #include <cstddef>
+#include <limits>
 #include <memory>
 #include <string>
 #include <utility>
@@ -121,6 +122,9 @@ CuckooHashedDpfPirDatabase::Builder::Build() {
   if (params_.num_buckets() <= 0) {
     return absl::InvalidArgumentError("`num_buckets` must be positive");
   }
+  if (params_.num_buckets() > std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_buckets` is too large");
+  }
   if (params_.num_hash_functions() <= 0) {
     return absl::InvalidArgumentError("`num_hash_functions` must be positive");
   }
diff --git a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
index 4f79084..aefd5bc 100644
--- a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
+++ b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
@@ -93,6 +93,10 @@ CuckooHashingSparseDpfPirClient::Create(
   if (params.cuckoo_hashing_sparse_dpf_pir_server_params().num_buckets() <= 0) {
     return absl::InvalidArgumentError("`num_buckets` must be positive");
   }
+  if (params.cuckoo_hashing_sparse_dpf_pir_server_params().num_buckets() >
+      std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_buckets` is too large");
+  }
   if (params.cuckoo_hashing_sparse_dpf_pir_server_params()
           .num_hash_functions() <= 0) {
     return absl::InvalidArgumentError("`num_hash_functions` must be positive");
diff --git a/pir/cuckoo_hashing_sparse_dpf_pir_server.cc b/pir/cuckoo_hashing_sparse_dpf_pir_server.cc
index f0de5ff..79d9b42 100644
--- a/pir/cuckoo_hashing_sparse_dpf_pir_server.cc
+++ b/pir/cuckoo_hashing_sparse_dpf_pir_server.cc
@@ -57,6 +57,10 @@ CuckooHashingSparseDpfPirServer::GenerateParams(const PirConfig& config) {
   if (config.cuckoo_hashing_sparse_dpf_pir_config().num_elements() <= 0) {
     return absl::InvalidArgumentError("`num_elements` must be positive");
   }
+  if (config.cuckoo_hashing_sparse_dpf_pir_config().num_elements() >
+      std::numeric_limits<int>::max() / kBucketsPerElement) {
+    return absl::InvalidArgumentError("`num_elements` is too large");
+  }
   if (config.cuckoo_hashing_sparse_dpf_pir_config().hash_family() ==
       HashFamilyConfig::HASH_FAMILY_UNSPECIFIED) {
     return absl::InvalidArgumentError("`hash_family` must be set");
diff --git a/pir/simple_hashed_dpf_pir_database.cc b/pir/simple_hashed_dpf_pir_database.cc
index 903801c..a38084a 100644
--- a/pir/simple_hashed_dpf_pir_database.cc
+++ b/pir/simple_hashed_dpf_pir_database.cc
@@ -15,6 +15,8 @@
 #include "pir/simple_hashed_dpf_pir_database.h"
 
 #include <cstddef>
+#include <cstdint>
+#include <limits>
 #include <memory>
 #include <string>
 #include <utility>
@@ -94,12 +96,15 @@ absl::StatusOr<std::unique_ptr<SimpleHashedDpfPirDatabase::Interface>>
 SimpleHashedDpfPirDatabase::Builder::Build() {
   DPF_RETURN_IF_ERROR(CheckHasNotBeenBuilt(has_been_built_));
   has_been_built_ = true;
-  int num_buckets = params_.num_buckets();
+  int64_t num_buckets = params_.num_buckets();
   int num_records = records_.size();
 
   if (num_buckets <= 0) {
     return absl::InvalidArgumentError("`num_buckets` must be positive");
   }
+  if (params_.num_buckets() > std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_buckets` is too large");
+  }
   DPF_ASSIGN_OR_RETURN(
       HashFamily hash_family,
       CreateHashFamilyFromConfig(params_.hash_family_config()));
diff --git a/pir/simple_hashing_sparse_dpf_pir_client.cc b/pir/simple_hashing_sparse_dpf_pir_client.cc
index 3295d62..2d4e38c 100644
--- a/pir/simple_hashing_sparse_dpf_pir_client.cc
+++ b/pir/simple_hashing_sparse_dpf_pir_client.cc
@@ -93,6 +93,10 @@ SimpleHashingSparseDpfPirClient::Create(
   if (params.simple_hashing_sparse_dpf_pir_server_params().num_buckets() <= 0) {
     return absl::InvalidArgumentError("`num_buckets` must be positive");
   }
+  if (params.simple_hashing_sparse_dpf_pir_server_params().num_buckets() >
+      std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_buckets` is too large");
+  }
 
   DPF_ASSIGN_OR_RETURN(HashFamily hash_family,
                        CreateHashFamilyFromConfig(
-- 
2.43.0


From a0588e550e6602418d6db1c3bb8a608ca749982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 29/29] fix: concurrent requests of one client must not write
 the registry of value types

DenseDpfPirClient::CreatePlainRequests is const, but registered the value type
of its DPF on every call, so two calls at the same time wrote (and, the first
time, resized) one hash map. Register the type when the client is created, and
leave the registry alone if a type is already in it.
---
 dpf/distributed_point_function.h | 6 ++++--
 pir/dense_dpf_pir_client.cc      | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 7a6680d..faeb462 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -655,8 +655,10 @@ absl::Status DistributedPointFunction::RegisterValueTypeImpl(
   if (!serialized_value_type.ok()) {
     return serialized_value_type.status();
   }
-  value_correction_functions[*serialized_value_type] =
-      dpf_internal::ComputeValueCorrectionFor<T>;
+  // Does not write if the type is already registered.
+  value_correction_functions.try_emplace(
+      *std::move(serialized_value_type),
+      dpf_internal::ComputeValueCorrectionFor<T>);
   return absl::OkStatus();
 }
 
diff --git a/pir/dense_dpf_pir_client.cc b/pir/dense_dpf_pir_client.cc
index 7708d12..3a3dda3 100644
--- a/pir/dense_dpf_pir_client.cc
+++ b/pir/dense_dpf_pir_client.cc
@@ -67,6 +67,9 @@ absl::StatusOr<std::unique_ptr<DenseDpfPirClient>> DenseDpfPirClient::Create(
   parameters.mutable_value_type()->mutable_xor_wrapper()->set_bitsize(
       kBitsPerBlock);
   DPF_ASSIGN_OR_RETURN(auto dpf, DistributedPointFunction::Create(parameters));
+  // Register the value type now, so that concurrent calls to
+  // CreatePlainRequests don't.
+  DPF_RETURN_IF_ERROR(dpf->RegisterValueType<XorWrapper<absl::uint128>>());
 
   return absl::WrapUnique(
       new DenseDpfPirClient(std::move(dpf), std::move(encrypter),
-- 
2.43.0

