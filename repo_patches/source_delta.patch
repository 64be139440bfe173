From 231f840842916ece086575895e7820958c3af52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:30 +0000
Subject: [PATCH 001/129] fix: DelayLine::Resize must grow beyond the requested
 latency

When the latency equals the (power of two) size of the delay line,
bit_ceil(latency) does not grow the delay line, so wrapped entries were moved
out of bounds and new entries landed in the current slot.
---
 mpact/sim/generic/delay_line.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/delay_line.h b/mpact/sim/generic/delay_line.h
index ceaf6d7..f81ae4e 100644
--- a/mpact/sim/generic/delay_line.h
+++ b/mpact/sim/generic/delay_line.h
@@ -118,7 +118,7 @@ class DelayLine : public DelayLineInterface {
   // resized so the latency is covered.
   void Resize(
       uint32_t min_size) /*ABSL_EXCLUSIVE_LOCKS_REQUIRED(delay_line_lock_)*/ {
-    // Compute a new size that's >= min_size and is a power of 2
+    // Compute a new size that's > min_size and is a power of 2
     // Given that the initial size is a power of two, multiplying the
     // current size by two until it's greater or equal to min_size is
     // sufficient.
@@ -128,7 +128,10 @@ class DelayLine : public DelayLineInterface {
       return;
     }
 
-    uint32_t new_size = absl::bit_ceil(min_size);
+    // The size has to be strictly greater than the latency (min_size), otherwise
+    // an entry would map onto the current slot and entries that have wrapped
+    // around could not be moved past the previous end.
+    uint32_t new_size = absl::bit_ceil(min_size + 1);
 
     mask_ = new_size - 1;
     delay_line_.resize(new_size);
-- 
2.43.0


From c23eab8ef1c4bac41704382ed92598f98e1a60b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:15 +0000
Subject: [PATCH 002/129] fix: DataBufferFactory::Clear must empty the free
 lists of large buffers

The loop iterated over copies of the map entries, so the free list kept
dangling pointers after Clear().
---
 mpact/sim/generic/data_buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/data_buffer.cc b/mpact/sim/generic/data_buffer.cc
index 5482a56..a6c0207 100644
--- a/mpact/sim/generic/data_buffer.cc
+++ b/mpact/sim/generic/data_buffer.cc
@@ -30,7 +30,7 @@ void DataBufferFactory::Clear() {
     }
     short_free_list_[i].clear();
   }
-  for (auto bucket : free_list_) {
+  for (auto& bucket : free_list_) {
     for (auto db : bucket.second) {
       delete db;
     }
-- 
2.43.0


From f4b90c616ce810c7adf10796c41c965e7ee4ee8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 003/129] fix: StatusRegister::SetDataBuffer must not release
 its caller's reference

---
 mpact/sim/generic/status_register.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/status_register.h b/mpact/sim/generic/status_register.h
index e607e95..8763e53 100644
--- a/mpact/sim/generic/status_register.h
+++ b/mpact/sim/generic/status_register.h
@@ -60,8 +60,8 @@ class StatusRegisterBase : public StateItemBase {
   T Read(T mask);
 
   void SetDataBuffer(DataBuffer* db) override {
-    // Read only state item, so just decrement the ref count and ignore.
-    db->DecRef();
+    // Read only state item, so ignore the data buffer. The caller still owns its
+    // reference to it, and releases it after the call.
   }
 
   void SetEvaluateFunction(int position, Evaluate eval) {
-- 
2.43.0


From 881aee9fafdf821c34f8e5e9e75e64e9952424f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:38 +0000
Subject: [PATCH 004/129] fix: FPTypeInfo of 64 bit integers must describe
 double precision

---
 mpact/sim/generic/type_helpers.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/generic/type_helpers.h b/mpact/sim/generic/type_helpers.h
index bd5ec36..ae269d6 100644
--- a/mpact/sim/generic/type_helpers.h
+++ b/mpact/sim/generic/type_helpers.h
@@ -367,14 +367,14 @@ struct FPTypeInfo<uint64_t> {
   using T = uint64_t;
   using UIntType = uint64_t;
   using IntType = std::make_signed<UIntType>::type;
-  static constexpr int kBitSize = sizeof(float) << 3;
-  static constexpr int kExpSize = 8;
-  static constexpr int kExpBias = 127;
+  static constexpr int kBitSize = sizeof(double) << 3;
+  static constexpr int kExpSize = 11;
+  static constexpr int kExpBias = 1023;
   static constexpr int kSigSize = kBitSize - kExpSize - /*sign*/ 1;
   static constexpr UIntType kInfMask = (1ULL << (kBitSize - 1)) - 1;
   static constexpr UIntType kExpMask = ((1ULL << kExpSize) - 1) << kSigSize;
   static constexpr UIntType kSigMask = (1ULL << kSigSize) - 1;
-  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'1ULL
+  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'111'1ULL
                                             << (kSigSize - 1);
   static constexpr UIntType kPosInf = kExpMask;
   static constexpr UIntType kNegInf = kExpMask | (1ULL << (kBitSize - 1));
@@ -396,14 +396,14 @@ struct FPTypeInfo<int64_t> {
   using T = int64_t;
   using UIntType = uint64_t;
   using IntType = std::make_signed<UIntType>::type;
-  static constexpr int kBitSize = sizeof(float) << 3;
-  static constexpr int kExpSize = 8;
-  static constexpr int kExpBias = 127;
+  static constexpr int kBitSize = sizeof(double) << 3;
+  static constexpr int kExpSize = 11;
+  static constexpr int kExpBias = 1023;
   static constexpr int kSigSize = kBitSize - kExpSize - /*sign*/ 1;
   static constexpr UIntType kInfMask = (1ULL << (kBitSize - 1)) - 1;
   static constexpr UIntType kExpMask = ((1ULL << kExpSize) - 1) << kSigSize;
   static constexpr UIntType kSigMask = (1ULL << kSigSize) - 1;
-  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'1ULL
+  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'111'1ULL
                                             << (kSigSize - 1);
   static constexpr UIntType kPosInf = kExpMask;
   static constexpr UIntType kNegInf = kExpMask | (1ULL << (kBitSize - 1));
-- 
2.43.0


From b8b9c1cd4f31783e780cc673f850c6d45faf74c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:38 +0000
Subject: [PATCH 005/129] fix: FPTypeInfo::SignBit of signed integer types was
 never true

---
 mpact/sim/generic/type_helpers.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/type_helpers.h b/mpact/sim/generic/type_helpers.h
index ae269d6..7e13221 100644
--- a/mpact/sim/generic/type_helpers.h
+++ b/mpact/sim/generic/type_helpers.h
@@ -301,7 +301,9 @@ struct FPTypeInfo<int16_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1 << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) {
+    return 1 == (static_cast<UIntType>(value) >> (kBitSize - 1));
+  }
 };
 
 template <>
@@ -359,7 +361,9 @@ struct FPTypeInfo<int32_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1ULL << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) {
+    return 1 == (static_cast<UIntType>(value) >> (kBitSize - 1));
+  }
 };
 
 template <>
@@ -417,7 +421,9 @@ struct FPTypeInfo<int64_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1ULL << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) {
+    return 1 == (static_cast<UIntType>(value) >> (kBitSize - 1));
+  }
 };
 
 inline float ConvertHalfToSingle(HalfFP half) {
-- 
2.43.0


From 3c423379f1b1c7bfa4138d0b02c1b1c160cdd4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:07 +0000
Subject: [PATCH 006/129] fix: division of the smallest int by -1 in a template
 expression must not trap

---
 mpact/sim/decoder/template_expression.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpact/sim/decoder/template_expression.cc b/mpact/sim/decoder/template_expression.cc
index 8d88e7c..62d2cb6 100644
--- a/mpact/sim/decoder/template_expression.cc
+++ b/mpact/sim/decoder/template_expression.cc
@@ -15,6 +15,7 @@
 #include "mpact/sim/decoder/template_expression.h"
 
 #include <functional>
+#include <limits>
 #include <variant>
 
 #include "absl/status/status.h"
@@ -100,6 +101,9 @@ static absl::StatusOr<TemplateValue> operator/(
       lhs, rhs,
       [](int lhs_value, int rhs_value) -> absl::StatusOr<TemplateValue> {
         if (rhs_value == 0) return absl::InternalError("Divide by zero");
+        if (rhs_value == -1 && lhs_value == std::numeric_limits<int>::min()) {
+          return absl::InternalError("Integer overflow in division");
+        }
         return lhs_value / rhs_value;
       });
 }
-- 
2.43.0


From 04be82885ec0dcd01a724472a39ede9d80e045c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:07 +0000
Subject: [PATCH 007/129] fix: TemplateNegate::Evaluate must report the failure
 of its operand

---
 mpact/sim/decoder/template_expression.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/decoder/template_expression.cc b/mpact/sim/decoder/template_expression.cc
index 62d2cb6..93e85ae 100644
--- a/mpact/sim/decoder/template_expression.cc
+++ b/mpact/sim/decoder/template_expression.cc
@@ -180,12 +180,9 @@ absl::StatusOr<TemplateExpression*> TemplateNegate::Evaluate(
   // If expression is constant then can return a constant node.
   if (expr.value()->IsConstant()) {
     auto result = -expr.value()->GetValue();
-    if (result.ok()) {
-      delete expr.value();
-      return new TemplateConstant(result.value());
-    } else {
-      return expr.status();
-    }
+    delete expr.value();
+    if (!result.ok()) return result.status();
+    return new TemplateConstant(result.value());
   } else {
     return new TemplateNegate(expr.value());
   }
-- 
2.43.0


From 9e24285c1e62fcc06f614f40cd68c41d679acb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:48 +0000
Subject: [PATCH 008/129] fix: ResourceBitSet::Set must grow the set to include
 the position

---
 mpact/sim/generic/resource_bitset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/resource_bitset.cc b/mpact/sim/generic/resource_bitset.cc
index 41986ac..aba21b5 100644
--- a/mpact/sim/generic/resource_bitset.cc
+++ b/mpact/sim/generic/resource_bitset.cc
@@ -58,7 +58,7 @@ ResourceBitSet::~ResourceBitSet() {
 void ResourceBitSet::Set(int position) {
   auto word = position / kBitsInUint;
   auto bit = position % kBitsInUint;
-  if (word > size_) Resize(position);
+  if (word >= size_) Resize(position + 1);
   bits_[word] |= static_cast<UInt>(1) << bit;
 }
 
-- 
2.43.0


From 6e7ce856ec5ba75f0782286968d5fcb3cd46a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:48 +0000
Subject: [PATCH 009/129] fix: ResourceBitSet self assignment must keep the
 contents

---
 mpact/sim/generic/resource_bitset.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/generic/resource_bitset.cc b/mpact/sim/generic/resource_bitset.cc
index aba21b5..5d42bec 100644
--- a/mpact/sim/generic/resource_bitset.cc
+++ b/mpact/sim/generic/resource_bitset.cc
@@ -43,6 +43,7 @@ ResourceBitSet::ResourceBitSet(ResourceBitSet&& rhs) {
 }
 
 ResourceBitSet& ResourceBitSet::operator=(const ResourceBitSet& rhs) {
+  if (this == &rhs) return *this;
   delete[] bits_;
   size_ = rhs.size_;
   bits_ = new UInt[size_];
-- 
2.43.0


From 2811067e5e14462350b7d873a63ddcd7e6613d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:48 +0000
Subject: [PATCH 010/129] fix: ResourceBitSet::Resize to a smaller size must
 only clear the bits past the end

---
 mpact/sim/generic/resource_bitset.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/resource_bitset.cc b/mpact/sim/generic/resource_bitset.cc
index 5d42bec..3022f36 100644
--- a/mpact/sim/generic/resource_bitset.cc
+++ b/mpact/sim/generic/resource_bitset.cc
@@ -127,9 +127,10 @@ void ResourceBitSet::Resize(int bit_size) {
   // If the size is the same, or smaller, zero out the high order bits.
   if (new_size <= size_) {
     int bit_offset = bit_size % kBitsInUint;
+    // Mask of the bits to keep in the word that contains the new end.
     UInt mask = ~(std::numeric_limits<UInt>::max() << bit_offset);
-    for (int i = new_size; i < size_; ++i) {
-      bits_[i] = bits_[i] & ~mask;
+    for (int i = bit_size / kBitsInUint; i < size_; ++i) {
+      bits_[i] = bits_[i] & mask;
       mask = 0;
     }
     return;
-- 
2.43.0


From bb88136713600c841d876fb29c9a78fe6893e427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:18 +0000
Subject: [PATCH 011/129] fix: SimpleResourceOperand::Acquire with latency 0
 must release immediately

---
 mpact/sim/generic/simple_resource_operand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/simple_resource_operand.h b/mpact/sim/generic/simple_resource_operand.h
index 9b6f9b9..cba3f98 100644
--- a/mpact/sim/generic/simple_resource_operand.h
+++ b/mpact/sim/generic/simple_resource_operand.h
@@ -81,7 +81,7 @@ class SimpleResourceOperand : public ResourceOperandInterface {
   void Acquire() override {
     resource_set_->Acquire();
     // Schedule release
-    delay_line_->Add(latency_, resource_set_);
+    Release();
   }
 
   std::string AsString() const override { return resource_set_->AsString(); }
-- 
2.43.0


From 97d19902d102cc872d3c5f70ba6c161092c1da1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:01 +0000
Subject: [PATCH 012/129] fix: ComplexResourceOperand::SetCycleMask sizes and
 validates the mask at word boundaries

---
 mpact/sim/generic/complex_resource_operand.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/generic/complex_resource_operand.cc b/mpact/sim/generic/complex_resource_operand.cc
index a2413e4..182f8d7 100644
--- a/mpact/sim/generic/complex_resource_operand.cc
+++ b/mpact/sim/generic/complex_resource_operand.cc
@@ -47,7 +47,7 @@ absl::Status ComplexResourceOperand::SetCycleMask(size_t begin, size_t end) {
         end, ") is greater than cycle depth (", resource_->cycle_depth()));
   }
   // Compute the size of the array needed.
-  span_size_ = (end + 63) / 64;
+  span_size_ = end / 64 + 1;
   // Delete any previous allocation.
   delete[] bit_array_;
   // Allocate the array and clear the bytes.
@@ -73,10 +73,12 @@ absl::Status ComplexResourceOperand::SetCycleMask(
     return absl::InvalidArgumentError("Span too long for cycle mask");
   }
 
-  span_size_ = span.size();
-  // See if there are any bits set beyond the cycle depth of the resource.
+  // See if there are any bits set beyond the cycle depth of the resource. This
+  // can only be the case in the last word of the resource, and then only if it
+  // is not fully used.
   size_t mod = resource_->cycle_depth() & 0x3f;
-  if (span[span_size_ - 1] >> mod) {
+  if ((mod != 0) && (span.size() == resource_->bit_array().size()) &&
+      (span.back() >> mod)) {
     return absl::InvalidArgumentError(
         absl::StrCat("Bits set beyond the cycle depth of resource '",
                      resource_->name(), "'"));
@@ -92,6 +94,7 @@ absl::Status ComplexResourceOperand::SetCycleMask(
   // Delete any previous allocation.
   delete[] bit_array_;
   // Allocate the array and copy the span.
+  span_size_ = span.size();
   bit_array_ = new uint64_t[span_size_];
   for (int i = 0; i < span_size_; i++) {
     bit_array_[i] = span[i];
-- 
2.43.0


From f847222215b52672ba60d55193019cec6c233a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:30 +0000
Subject: [PATCH 013/129] fix: RegisterBase::SetDataBuffer must keep a buffer
 that it already holds

---
 mpact/sim/generic/register.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/register.cc b/mpact/sim/generic/register.cc
index bf7c79a..7fed761 100644
--- a/mpact/sim/generic/register.cc
+++ b/mpact/sim/generic/register.cc
@@ -49,10 +49,11 @@ RegisterBase::~RegisterBase() {
 void RegisterBase::SetDataBuffer(DataBuffer* db) {
   // For now, ignore if the sizes don't match.
   // ABSL_HARDENING_ASSERT(db->size<uint8_t>() == size());
+  // Take the new reference first, in case db is the current data buffer.
+  db->IncRef();
   if (nullptr != data_buffer_) {
     data_buffer_->DecRef();
   }
-  db->IncRef();
   data_buffer_ = db;
 }
 
-- 
2.43.0


From 7ba68c85d675b28c87289d1f4d0c1d050ed843d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:10 +0000
Subject: [PATCH 014/129] fix: TokenFifo must acquire and release tokens only
 for elements pushed and popped

---
 mpact/sim/generic/token_fifo.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/token_fifo.cc b/mpact/sim/generic/token_fifo.cc
index 978d62d..9b4d817 100644
--- a/mpact/sim/generic/token_fifo.cc
+++ b/mpact/sim/generic/token_fifo.cc
@@ -67,7 +67,8 @@ bool TokenFifoBase::Push(DataBuffer* db) {
     }
     return false;
   }
-  FifoBase::Push(db);
+  // Don't use up a token if the element was not accepted.
+  if (!FifoBase::Push(db)) return false;
   // Acquire a token. There is an error if the fifo is not full but a token
   // cannot be acquired.
   if (!token_store_->Acquire().ok()) {
@@ -81,7 +82,8 @@ bool TokenFifoBase::Push(DataBuffer* db) {
 }
 
 void TokenFifoBase::Pop() {
-  if (IsEmpty()) {
+  // The fifo may have reserved slots, but no element to pop.
+  if (Available() == 0) {
     if (underflow_program_error() != nullptr) {
       underflow_program_error()->Raise("Underflow in " + name());
     }
-- 
2.43.0


From c1fb8ea00b96888cbadedb4350a526d915ebb7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:10 +0000
Subject: [PATCH 015/129] fix: FifoWithNotify must notify only on transitions
 from and to empty

---
 mpact/sim/generic/fifo_with_notify.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/fifo_with_notify.cc b/mpact/sim/generic/fifo_with_notify.cc
index a4e1db6..9958092 100644
--- a/mpact/sim/generic/fifo_with_notify.cc
+++ b/mpact/sim/generic/fifo_with_notify.cc
@@ -29,15 +29,16 @@ bool FifoWithNotifyBase::Push(DataBuffer* db) {
   if (!IsEmpty()) return FifoBase::Push(db);
 
   auto res = FifoBase::Push(db);
-  if (on_not_empty_) on_not_empty_(this);
+  if (res && on_not_empty_) on_not_empty_(this);
   return res;
 }
 
 // Call base class Pop. Only call the on_empty callback if the fifo is empty
 // after the pop.
 void FifoWithNotifyBase::Pop() {
+  bool was_empty = IsEmpty();
   FifoBase::Pop();
-  if (IsEmpty() && on_empty_) on_empty_(this);
+  if (!was_empty && IsEmpty() && on_empty_) on_empty_(this);
 }
 
 void FifoWithNotifyBase::SetOnNotEmpty(OnEventCallback callback) {
-- 
2.43.0


From 75b1cf4f0caa3ccf3130bd1fd498b9bd4913cb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:00 +0000
Subject: [PATCH 016/129] fix: DecodeCache::Create must not crash for an
 increment that is not a power of two

---
 mpact/sim/generic/decode_cache.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index bbb9a6e..d50237a 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -110,6 +110,7 @@ void DecodeCache::InvalidateRange(uint64_t start_address,
 }
 
 void DecodeCache::InvalidateAll() {
+  if (nullptr == instruction_cache_) return;
   for (int entry = 0; entry < num_entries_; ++entry) {
     if (instruction_cache_[entry] != nullptr) {
       instruction_cache_[entry]->DecRef();
-- 
2.43.0


From 6e7914001dfdf8d708ebdd198f6fec700b16034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:00 +0000
Subject: [PATCH 017/129] fix: DecodeCache address mask must be computed in 64
 bits

---
 mpact/sim/generic/decode_cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index d50237a..583ea74 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -36,7 +36,7 @@ DecodeCache::DecodeCache(const DecodeCacheProperties& props,
     instruction_cache_ = nullptr;
     return;
   }
-  address_mask_ = (num_entries_ - 1) << address_shift_;
+  address_mask_ = static_cast<uint64_t>(num_entries_ - 1) << address_shift_;
 
   instruction_cache_ = new Instruction*[num_entries_];
   if (nullptr == instruction_cache_) {
-- 
2.43.0


From 841ac1503516bce9e434b95c163af7150bf3d77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:00 +0000
Subject: [PATCH 018/129] fix: DecodeCache::InvalidateRange must drop every
 instruction in the range and terminate

---
 mpact/sim/generic/decode_cache.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index 583ea74..8fc4715 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -14,6 +14,7 @@
 
 #include "mpact/sim/generic/decode_cache.h"
 
+#include <algorithm>
 #include <cstdint>
 
 #include "absl/numeric/bits.h"
@@ -104,8 +105,19 @@ void DecodeCache::Invalidate(uint64_t address) {
 
 void DecodeCache::InvalidateRange(uint64_t start_address,
                                   uint64_t end_address) {
-  for (auto loc = start_address; loc < end_address; loc += address_inc_) {
-    Invalidate(loc);
+  if (start_address >= end_address) return;
+  uint64_t first = start_address >> address_shift_;
+  uint64_t last = (end_address - 1) >> address_shift_;
+  uint64_t index_mask = num_entries_ - 1;
+  // There is no need to visit an entry more than once.
+  uint64_t count = std::min(last - first, index_mask);
+  for (uint64_t i = 0; i <= count; ++i) {
+    Instruction*& inst = instruction_cache_[(first + i) & index_mask];
+    if ((nullptr != inst) && (inst->address() >= start_address) &&
+        (inst->address() < end_address)) {
+      inst->DecRef();
+      inst = nullptr;
+    }
   }
 }
 
-- 
2.43.0


From d0238a832bdca01a9fd5126227234014d8ecafb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:17 +0000
Subject: [PATCH 019/129] fix: Instruction::SetAttributes must use delete[] for
 the attribute array

---
 mpact/sim/generic/instruction.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/instruction.cc b/mpact/sim/generic/instruction.cc
index 6ba87f4..885d24e 100644
--- a/mpact/sim/generic/instruction.cc
+++ b/mpact/sim/generic/instruction.cc
@@ -112,7 +112,7 @@ Instruction::~Instruction() {
 std::string Instruction::AsString() const { return disasm_string_; }
 
 void Instruction::SetAttributes(absl::Span<const int> attributes) {
-  delete attribute_array_;
+  delete[] attribute_array_;
   attribute_array_ = new int[attributes.size()];
   std::memcpy(attribute_array_, attributes.data(),
               attributes.size() * sizeof(int));
-- 
2.43.0


From fa8fb767cc8f7b3856f1ea4f046f2c9a68f59015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:17 +0000
Subject: [PATCH 020/129] fix: ~Instruction must clear the parent of all of its
 children

---
 mpact/sim/generic/instruction.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/instruction.cc b/mpact/sim/generic/instruction.cc
index 885d24e..04fb189 100644
--- a/mpact/sim/generic/instruction.cc
+++ b/mpact/sim/generic/instruction.cc
@@ -94,7 +94,7 @@ Instruction::~Instruction() {
     delete op;
   }
   resource_acquire_.clear();
-  if (parent_ != nullptr) {
+  if ((parent_ != nullptr) && (parent_->child_ == this)) {
     // remove reference to this from the parent
     parent_->child_ = nullptr;
   }
@@ -103,7 +103,10 @@ Instruction::~Instruction() {
     next_ = nullptr;
   }
   if (child_ != nullptr) {
-    child_->parent_ = nullptr;
+    // Children may outlive this instance.
+    for (auto* inst = child_; inst != nullptr; inst = inst->next_) {
+      if (inst->parent_ == this) inst->parent_ = nullptr;
+    }
     child_->DecRef();
     child_ = nullptr;
   }
-- 
2.43.0


From dcf3d48ad2671e4868d39b31c5a5f9968e774804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:17 +0000
Subject: [PATCH 021/129] fix: GetInstructionSource of vector elements must
 support half precision and 128 bit types

---
 mpact/sim/generic/instruction.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mpact/sim/generic/instruction.h b/mpact/sim/generic/instruction.h
index 12b66b6..16cae7d 100644
--- a/mpact/sim/generic/instruction.h
+++ b/mpact/sim/generic/instruction.h
@@ -346,6 +346,12 @@ inline int16_t GetInstructionSource<int16_t>(const Instruction* inst, int index,
   return inst->Source(index)->AsInt16(element);
 }
 template <>
+inline HalfFP GetInstructionSource<HalfFP>(const Instruction* inst, int index,
+                                           int element) {
+  auto value = inst->Source(index)->AsUint16(element);
+  return HalfFP{.value = value};
+}
+template <>
 inline uint32_t GetInstructionSource<uint32_t>(const Instruction* inst,
                                                int index, int element) {
   return inst->Source(index)->AsUint32(element);
@@ -377,6 +383,16 @@ inline double GetInstructionSource<double>(const Instruction* inst, int index,
   auto value = inst->Source(index)->AsUint64(element);
   return *reinterpret_cast<double*>(&value);
 }
+template <>
+inline absl::uint128 GetInstructionSource<absl::uint128>(
+    const Instruction* inst, int index, int element) {
+  return static_cast<absl::uint128>(inst->Source(index)->AsUint64(element));
+}
+template <>
+inline absl::int128 GetInstructionSource<absl::int128>(const Instruction* inst,
+                                                       int index, int element) {
+  return static_cast<absl::int128>(inst->Source(index)->AsInt64(element));
+}
 
 }  // namespace generic
 }  // namespace sim
-- 
2.43.0


From b7b11e454f9fc36926d25047f2541472f7703a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:03 +0000
Subject: [PATCH 022/129] fix: FlatDemandMemory with a base address and no size
 limit must accept accesses above it

---
 mpact/sim/util/memory/flat_demand_memory.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/flat_demand_memory.cc b/mpact/sim/util/memory/flat_demand_memory.cc
index 841d85f..6ff3e27 100644
--- a/mpact/sim/util/memory/flat_demand_memory.cc
+++ b/mpact/sim/util/memory/flat_demand_memory.cc
@@ -32,7 +32,10 @@ FlatDemandMemory::FlatDemandMemory(uint64_t memory_size_in_units,
                                    uint64_t base_address,
                                    unsigned addressable_unit_size, uint8_t fill)
     : base_address_(base_address),
-      max_address_(base_address + memory_size_in_units),
+      // Saturate if the end of the memory exceeds the 64 bit address space.
+      max_address_(base_address + memory_size_in_units < base_address
+                       ? 0xffff'ffff'ffff'ffffULL
+                       : base_address + memory_size_in_units),
       fill_value_(fill),
       allocation_byte_size_(kAllocationSize * addressable_unit_size) {
   // Compute the addressable unit shift.
-- 
2.43.0


From 7596675739a1816eb831fc6e4206ae877c4f4fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:03 +0000
Subject: [PATCH 023/129] fix: unit stride vector accesses must advance by
 addressable units

---
 mpact/sim/util/memory/flat_demand_memory.cc | 4 ++--
 mpact/sim/util/memory/flat_memory.h         | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/flat_demand_memory.cc b/mpact/sim/util/memory/flat_demand_memory.cc
index 6ff3e27..af41d55 100644
--- a/mpact/sim/util/memory/flat_demand_memory.cc
+++ b/mpact/sim/util/memory/flat_demand_memory.cc
@@ -100,7 +100,7 @@ void FlatDemandMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
   bool gather = address_span.size() > 1;
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
-    uint64_t address = gather ? address_span[i] : address_span[0] + i * el_size;
+    uint64_t address = gather ? address_span[i] : address_span[0] + i * size_in_units;
     uint64_t high = address + size_in_units;
     if (address < base_address_ || high > max_address_) [[unlikely]] {
       LOG(ERROR) << absl::StrFormat(
@@ -163,7 +163,7 @@ void FlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
     uint64_t address =
-        scatter ? address_span[i] : address_span[0] + i * el_size;
+        scatter ? address_span[i] : address_span[0] + i * size_in_units;
     uint64_t high = address + size_in_units;
     if (address < base_address_ || high > max_address_) [[unlikely]] {
       LOG(ERROR) << absl::StrFormat(
diff --git a/mpact/sim/util/memory/flat_memory.h b/mpact/sim/util/memory/flat_memory.h
index b51c3d8..6479cf3 100644
--- a/mpact/sim/util/memory/flat_memory.h
+++ b/mpact/sim/util/memory/flat_memory.h
@@ -112,7 +112,8 @@ class FlatMemory : public MemoryInterface {
     for (int entry = 0; entry < max; entry++) {
       if (masks[entry]) {
         uint64_t address =
-            gather ? addresses[entry] : addresses[0] + entry * sizeof(T);
+            gather ? addresses[entry]
+                   : addresses[0] + ((entry * sizeof(T)) >> shift_);
         ABSL_HARDENING_ASSERT(address >= base_);
         uint64_t offset = (address - base_) << shift_;
         ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);
@@ -132,7 +133,8 @@ class FlatMemory : public MemoryInterface {
     for (int entry = 0; entry < max; entry++) {
       if (masks[entry]) {
         uint64_t address =
-            gather ? addresses[entry] : addresses[0] + entry * sizeof(T);
+            gather ? addresses[entry]
+                   : addresses[0] + ((entry * sizeof(T)) >> shift_);
         ABSL_HARDENING_ASSERT(address >= base_);
         uint64_t offset = (address - base_) << shift_;
         ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);
-- 
2.43.0


From 15f9426c108f25ad5ecda95b8603ffca3c431650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:03 +0000
Subject: [PATCH 024/129] fix: FlatMemory must keep the instruction of a
 delayed load alive

---
 mpact/sim/util/memory/flat_memory.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/flat_memory.cc b/mpact/sim/util/memory/flat_memory.cc
index a3ceee6..7e5b022 100644
--- a/mpact/sim/util/memory/flat_memory.cc
+++ b/mpact/sim/util/memory/flat_memory.cc
@@ -33,14 +33,16 @@ void FlatMemory::Load(uint64_t address, DataBuffer* db, Instruction* inst,
   db->CopyFrom(ptr);
   if (nullptr != inst) {
     if (db->latency() > 0) {
-      // If the context is non-null, need to IncRef it before storing it in the
-      // lambda.
+      // Need to IncRef inst and, if non-null, context before storing them in
+      // the lambda.
+      inst->IncRef();
       if (context != nullptr) context->IncRef();
       inst->state()->function_delay_line()->Add(db->latency(),
                                                 [inst, context]() {
                                                   inst->Execute(context);
                                                   if (context != nullptr)
                                                     context->DecRef();
+                                                  inst->DecRef();
                                                 });
     } else {
       inst->Execute(context);
@@ -72,14 +74,16 @@ void FlatMemory::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
   }
   if (nullptr != inst) {
     if (db->latency() > 0) {
-      // If the context is non-null, need to IncRef it before storing it in the
-      // lambda.
+      // Need to IncRef inst and, if non-null, context before storing them in
+      // the lambda.
+      inst->IncRef();
       if (context != nullptr) context->IncRef();
       inst->state()->function_delay_line()->Add(db->latency(),
                                                 [inst, context]() {
                                                   inst->Execute(context);
                                                   if (context != nullptr)
                                                     context->DecRef();
+                                                  inst->DecRef();
                                                 });
     } else {
       inst->Execute(context);
-- 
2.43.0


From e28d8449a0d70c820b5a49e606a294ff1a3d8933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:56 +0000
Subject: [PATCH 025/129] fix: untagged vector stores must clear the tags of
 exactly the stored elements

---
 mpact/sim/util/memory/tagged_flat_demand_memory.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index 2537544..0c7f6a0 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -106,19 +106,21 @@ void TaggedFlatDemandMemory::Store(uint64_t address, DataBuffer* db) {
 // Untagged vector store.
 void TaggedFlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                    int el_size, DataBuffer* db) {
-  unsigned num_stores = address_db->size<uint64_t>();
-  if (num_stores == 0) return;
-  unsigned store_size = db->size<uint8_t>() / num_stores;
+  auto address_span = address_db->Get<uint64_t>();
+  if (address_span.empty()) return;
   auto mask_span = mask_db->Get<bool>();
   // Perform stores.
   data_memory_->Store(address_db, mask_db, el_size, db);
   // With no tag data supplied, clear the tags, however, since this is a non
   // tagged store, we are not guaranteed to have proper alignment. Use the 64
   // bit address version of the Store() call for each set of tags.
-  unsigned index = 0;
-  for (auto address : address_db->Get<uint64_t>()) {
+  // As for the data, a single address means a unit stride store.
+  bool scatter = address_span.size() > 1;
+  for (unsigned i = 0; i < mask_span.size(); i++) {
     // Clear any affected tags.
-    if (mask_span[index++]) ClearTags(address, store_size);
+    if (!mask_span[i]) continue;
+    ClearTags(scatter ? address_span[i] : address_span[0] + i * el_size,
+              el_size);
   }
 }
 
-- 
2.43.0


From 2d67c277925563d02df8d821e84fb12f51baf363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:56 +0000
Subject: [PATCH 026/129] fix: TaggedFlatDemandMemory must hold the tags of
 partial granules at its ends

---
 mpact/sim/util/memory/tagged_flat_demand_memory.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index 0c7f6a0..261e3f6 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -46,8 +46,13 @@ TaggedFlatDemandMemory::TaggedFlatDemandMemory(uint64_t memory_size_in_units,
                                       addressable_unit_size, fill);
   // 8 tags per byte, so shift by log2(granule).
   tag_granule_shift_ = absl::bit_width(tag_granule_) - 1;
-  tag_memory_ = new FlatDemandMemory(memory_size_in_units >> tag_granule_shift_,
-                                     base_address >> tag_granule_shift_, 1, 0);
+  // Include the tags of partial granules at either end of the memory.
+  uint64_t partial = base_address & (tag_granule_ - 1);
+  uint64_t num_tags = memory_size_in_units >> tag_granule_shift_;
+  partial += memory_size_in_units & (tag_granule_ - 1);
+  num_tags += (partial + tag_granule_ - 1) >> tag_granule_shift_;
+  tag_memory_ = new FlatDemandMemory(
+      num_tags, base_address >> tag_granule_shift_, 1, 0);
   db_factory_ = new DataBufferFactory();
 }
 
-- 
2.43.0


From 00d174216cf94bf6eca5fef5609c6d4c50cd5d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:56 +0000
Subject: [PATCH 027/129] fix: TaggedToUntaggedMemoryTransactor must execute
 the instruction of a load of tags

---
 .../tagged_to_untagged_memory_transactor.cc   | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc b/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
index ed08831..4291b40 100644
--- a/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
+++ b/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
@@ -61,8 +61,23 @@ void TaggedToUntaggedMemoryTransactor::Load(uint64_t address, DataBuffer* db,
                                             DataBuffer* tags, Instruction* inst,
                                             ReferenceCount* context) {
   std::memset(tags->raw_ptr(), 0, tags->size<uint8_t>());
-  if (db == nullptr) return;
-  target_mem_->Load(address, db, inst, context);
+  if (db != nullptr) {
+    target_mem_->Load(address, db, inst, context);
+    return;
+  }
+  // This is a load of tags only. Execute the instruction to process them.
+  if (inst == nullptr) return;
+  if (tags->latency() == 0) {
+    inst->Execute(context);
+    return;
+  }
+  inst->IncRef();
+  if (context != nullptr) context->IncRef();
+  inst->state()->function_delay_line()->Add(tags->latency(), [inst, context]() {
+    inst->Execute(context);
+    if (context != nullptr) context->DecRef();
+    inst->DecRef();
+  });
 }
 
 // For tagged stores, ignore the tags. just forward to the target mem interface.
-- 
2.43.0


From 14d47f41b6d06e88088d1d5fe4332a9440263666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:37 +0000
Subject: [PATCH 028/129] fix: AtomicTaggedMemory tagged stores must store the
 tags

---
 mpact/sim/util/memory/atomic_tagged_memory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 9d43890..7357a06 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -146,7 +146,7 @@ void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db,
   if (ptr != ll_tag_set_.end()) {
     ll_tag_set_.erase(ptr);
   }
-  tagged_memory_->Store(address, db);
+  tagged_memory_->Store(address, db, tag_db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
-- 
2.43.0


From 7c1420598918014e8930595ba0238445db7e1734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:37 +0000
Subject: [PATCH 029/129] fix: any store to a linked location must make the
 store conditional fail

---
 mpact/sim/util/memory/atomic_memory.cc        | 32 +++++++++------
 mpact/sim/util/memory/atomic_memory.h         |  2 +
 mpact/sim/util/memory/atomic_tagged_memory.cc | 39 +++++++++++--------
 mpact/sim/util/memory/atomic_tagged_memory.h  |  2 +
 4 files changed, 48 insertions(+), 27 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index b121477..ebf1d9e 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -132,23 +132,22 @@ void AtomicMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicMemory::Store(uint64_t address, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  // Remove any tags that match the addresses stored to.
+  ClearLinks(address, db->size<uint8_t>());
   memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                          int el_size, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  for (uint64_t address : address_db->Get<uint64_t>()) {
-    auto ptr = ll_tag_set_.find(address >> kTagShift);
-    if (ptr != ll_tag_set_.end()) {
-      ll_tag_set_.erase(ptr);
-    }
+  // Remove any tags that match the addresses stored to. If there is only one
+  // address, this is a unit stride store.
+  auto addresses = address_db->Get<uint64_t>();
+  auto masks = mask_db->Get<bool>();
+  bool scatter = addresses.size() > 1;
+  for (unsigned i = 0; i < masks.size(); i++) {
+    if (!masks[i]) continue;
+    ClearLinks(scatter ? addresses[i] : addresses[0] + i * el_size, el_size);
   }
   memory_->Store(address_db, mask_db, el_size, db);
 }
@@ -185,6 +184,9 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
     return absl::OkStatus();
   }
 
+  // The other operations store to memory, so remove any matching tags.
+  ClearLinks(address, el_size);
+
   // Load the data from memory.
   auto* tmp_db = GetDb(el_size);
   if (tmp_db == nullptr)
@@ -261,6 +263,14 @@ void AtomicMemory::WriteBack(Instruction* inst, ReferenceCount* context,
   }
 }
 
+void AtomicMemory::ClearLinks(uint64_t address, int size) {
+  if (ll_tag_set_.empty() || size <= 0) return;
+  uint64_t last = (address + size - 1) >> kTagShift;
+  for (uint64_t tag = address >> kTagShift; tag <= last; ++tag) {
+    ll_tag_set_.erase(tag);
+  }
+}
+
 DataBuffer* AtomicMemory::GetDb(int size) const {
   switch (size) {
     case 1:
diff --git a/mpact/sim/util/memory/atomic_memory.h b/mpact/sim/util/memory/atomic_memory.h
index 1864787..6d38a6b 100644
--- a/mpact/sim/util/memory/atomic_memory.h
+++ b/mpact/sim/util/memory/atomic_memory.h
@@ -76,6 +76,8 @@ class AtomicMemory : public MemoryInterface, public AtomicMemoryOpInterface {
   static constexpr int kTagShift = 3;
   // Write back the result.
   void WriteBack(Instruction* inst, ReferenceCount* context, DataBuffer* db);
+  // Removes the load linked tags of all the addresses in the given range.
+  void ClearLinks(uint64_t address, int size);
   // Returns the db of the given size.
   DataBuffer* GetDb(int size) const;
   MemoryInterface* memory_ = nullptr;
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 7357a06..c330c2b 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -141,33 +141,29 @@ void AtomicTaggedMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db,
                                DataBuffer* tag_db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  // Remove any tags that match the addresses stored to.
+  ClearLinks(address, db->size<uint8_t>());
   tagged_memory_->Store(address, db, tag_db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  // Remove any tags that match the addresses stored to.
+  ClearLinks(address, db->size<uint8_t>());
   tagged_memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                int el_size, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  for (uint64_t address : address_db->Get<uint64_t>()) {
-    auto ptr = ll_tag_set_.find(address >> kTagShift);
-    if (ptr != ll_tag_set_.end()) {
-      ll_tag_set_.erase(ptr);
-    }
+  // Remove any tags that match the addresses stored to. If there is only one
+  // address, this is a unit stride store.
+  auto addresses = address_db->Get<uint64_t>();
+  auto masks = mask_db->Get<bool>();
+  bool scatter = addresses.size() > 1;
+  for (unsigned i = 0; i < masks.size(); i++) {
+    if (!masks[i]) continue;
+    ClearLinks(scatter ? addresses[i] : addresses[0] + i * el_size, el_size);
   }
   tagged_memory_->Store(address_db, mask_db, el_size, db);
 }
@@ -205,6 +201,9 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
     return absl::OkStatus();
   }
 
+  // The other operations store to memory, so remove any matching tags.
+  ClearLinks(address, el_size);
+
   // Load the data from memory.
   auto* tmp_db = GetDb(el_size);
   if (tmp_db == nullptr)
@@ -281,6 +280,14 @@ void AtomicTaggedMemory::WriteBack(Instruction* inst, ReferenceCount* context,
   }
 }
 
+void AtomicTaggedMemory::ClearLinks(uint64_t address, int size) {
+  if (ll_tag_set_.empty() || size <= 0) return;
+  uint64_t last = (address + size - 1) >> kTagShift;
+  for (uint64_t tag = address >> kTagShift; tag <= last; ++tag) {
+    ll_tag_set_.erase(tag);
+  }
+}
+
 DataBuffer* AtomicTaggedMemory::GetDb(int size) const {
   switch (size) {
     case 1:
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.h b/mpact/sim/util/memory/atomic_tagged_memory.h
index 5090bf2..8617eab 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.h
+++ b/mpact/sim/util/memory/atomic_tagged_memory.h
@@ -82,6 +82,8 @@ class AtomicTaggedMemory : public TaggedMemoryInterface,
   static constexpr int kTagShift = 3;
   // Write back the result.
   void WriteBack(Instruction* inst, ReferenceCount* context, DataBuffer* db);
+  // Removes the load linked tags of all the addresses in the given range.
+  void ClearLinks(uint64_t address, int size);
   // Returns the db of the given size.
   DataBuffer* GetDb(int size) const;
   TaggedMemoryInterface* tagged_memory_ = nullptr;
-- 
2.43.0


From 1ddeb106b0cd6e2b22522f941901be271076ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:21 +0000
Subject: [PATCH 030/129] fix: SingleInitiatorRouter must look up exactly the
 bytes of a scalar access

---
 mpact/sim/util/memory/single_initiator_router.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index d07b461..342d44a 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -142,7 +142,7 @@ void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
   // Since the plain memory load can occur in both MemoryInterface and
   // TaggedMemoryInterface, we need to check the tagged memory interface map
   // too.
-  auto tagged_it = tagged_targets_.find({address, address});
+  auto tagged_it = tagged_targets_.find({address, address + size - 1});
   if (tagged_it != tagged_targets_.end()) {
     auto& range = tagged_it->first;
     if ((range.base <= address) && (range.top >= address + size - 1)) {
@@ -265,7 +265,7 @@ void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
 // Plain memory store.
 void SingleInitiatorRouter::Store(uint64_t address, DataBuffer* db) {
   int size = db->size<uint8_t>();
-  auto it = memory_targets_.find({address, address + size});
+  auto it = memory_targets_.find({address, address + size - 1});
   if (it != memory_targets_.end()) {
     auto& range = it->first;
     if ((range.base <= address) && (range.top >= address + size - 1)) {
@@ -279,7 +279,7 @@ void SingleInitiatorRouter::Store(uint64_t address, DataBuffer* db) {
   // Since the plain memory store can occur in both MemoryInterface and
   // TaggedMemoryInterface, we need to check the tagged memory interface map
   // too.
-  auto tagged_it = tagged_targets_.find({address, address});
+  auto tagged_it = tagged_targets_.find({address, address + size - 1});
   if (tagged_it != tagged_targets_.end()) {
     auto& range = tagged_it->first;
     if ((range.base <= address) && (range.top >= address + size - 1)) {
-- 
2.43.0


From 12754697ae45b7ec521364c006c4f00365b191ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:21 +0000
Subject: [PATCH 031/129] fix: SingleInitiatorRouter must route a vector access
 only to a target covering all its elements

---
 .../util/memory/single_initiator_router.cc    | 162 +++++-------------
 1 file changed, 47 insertions(+), 115 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index 342d44a..6d3d5a0 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -67,6 +67,45 @@ static absl::Status AddTargetPrivate(
 }
 
 // Template specializations of the AddTarget method.
+// Returns the target of a vector access, that is, the single target that covers
+// every element that is not masked off (or the default target, if no target
+// overlaps any of them). If there is no such target, returns nullptr.
+template <typename Interface>
+static Interface* FindVectorTarget(
+    const SingleInitiatorRouter::InterfaceMap<Interface>& map,
+    Interface* default_target, DataBuffer* address_db, DataBuffer* mask_db,
+    int el_size) {
+  auto addresses = address_db->Get<uint64_t>();
+  auto masks = mask_db->Get<uint8_t>();
+  // If there is only one address, this is a unit stride access.
+  bool unit_stride = addresses.size() == 1;
+  Interface* target = nullptr;
+  for (unsigned i = 0; i < masks.size(); i++) {
+    // If the mask is true, check this address.
+    if (!masks[i]) continue;
+    uint64_t address = unit_stride ? addresses[0] + i * el_size : addresses[i];
+    auto it = map.find({address, address + el_size - 1});
+    // If there are no overlapping targets, use the default, if it is set.
+    Interface* tmp_target = default_target;
+    if (it != map.end()) {
+      auto& range = it->first;
+      // There is no proper target if the range doesn't cover the element. We
+      // are not splitting the memory access across multiple targets.
+      if ((range.base > address) || (range.top < address + el_size - 1)) {
+        return nullptr;
+      }
+      tmp_target = it->second;
+    }
+    if (tmp_target == nullptr) return nullptr;
+    if ((target != nullptr) && (tmp_target != target)) {
+      LOG(ERROR) << "Multiple targets found for vector access";
+      return nullptr;
+    }
+    target = tmp_target;
+  }
+  return target;
+}
+
 template <>
 absl::Status SingleInitiatorRouter::AddTarget<MemoryInterface>(
     MemoryInterface* memory, uint64_t base, uint64_t top) {
@@ -164,70 +203,16 @@ void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
                                  ReferenceCount* context) {
   // This is a vector load, so check each address that is not masked off.
   // Vector memory loads will not be split across multiple targets.
-  int count = address_db->size<uint64_t>();
-  MemoryInterface* memory = nullptr;
-  for (int i = 0; i < count; i++) {
-    // If the mask is true, check this address.
-    if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
-      auto it = memory_targets_.find({address, address + el_size - 1});
-      MemoryInterface* tmp_memory = nullptr;
-      if (it == memory_targets_.end()) {
-        // If there are no overlapping targets, use the default, if it is set.
-        if (default_memory_target_ == nullptr) break;
-        tmp_memory = default_memory_target_;
-      } else {
-        auto& range = it->first;
-        // If there is no proper overlap, just break out of the loop. We are
-        // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
-          break;
-        tmp_memory = it->second;
-      }
-      if (memory != nullptr) {
-        if (tmp_memory != memory) {
-          LOG(ERROR) << "Multiple targets found for address vector load";
-          return;
-        }
-      } else {
-        memory = tmp_memory;
-      }
-    }
-  }
+  auto* memory = FindVectorTarget<MemoryInterface>(
+      memory_targets_, default_memory_target_, address_db, mask_db, el_size);
   if (memory != nullptr) {
     return memory->Load(address_db, mask_db, el_size, db, inst, context);
   }
   // Since the vector memory load can occur in both MemoryInterface and
   // TaggedMemoryInterface, we need to check the tagged memory interface map
   // too.
-  TaggedMemoryInterface* tagged_memory = nullptr;
-  for (int i = 0; i < count; i++) {
-    if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
-      auto it = tagged_targets_.find({address, address + el_size - 1});
-      TaggedMemoryInterface* tmp_memory = nullptr;
-      if (it == tagged_targets_.end()) {
-        // If there are no overlapping targets, use the default, if it is set.
-        if (default_tagged_target_ == nullptr) break;
-        tmp_memory = default_tagged_target_;
-      } else {
-        auto& range = it->first;
-        // If there is no proper overlap, just break out of the loop. We are
-        // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
-          break;
-        tmp_memory = it->second;
-      }
-      if (tagged_memory != nullptr) {
-        if (tmp_memory != tagged_memory) {
-          LOG(ERROR) << "Multiple targets found for address vector load";
-          return;
-        }
-      } else {
-        tagged_memory = tmp_memory;
-      }
-    }
-  }
+  auto* tagged_memory = FindVectorTarget<TaggedMemoryInterface>(
+      tagged_targets_, default_tagged_target_, address_db, mask_db, el_size);
   if (tagged_memory != nullptr) {
     return tagged_memory->Load(address_db, mask_db, el_size, db, inst, context);
   }
@@ -300,69 +285,16 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                   int el_size, DataBuffer* db) {
   // This is a vector store, so check each address that is not masked off.
   // Vector memory stores will not be split across multiple targets.
-  int count = address_db->size<uint64_t>();
-  MemoryInterface* memory = nullptr;
-  for (int i = 0; i < count; i++) {
-    // If the mask is true, check this address.
-    if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
-      auto it = memory_targets_.find({address, address + el_size - 1});
-      MemoryInterface* tmp_memory = nullptr;
-      if (it == memory_targets_.end()) {
-        // If there are no overlapping targets, use the default, if it is set.
-        if (default_memory_target_ == nullptr) break;
-        tmp_memory = default_memory_target_;
-      } else {
-        auto& range = it->first;
-        // If there is no proper overlap, just break out of the loop. We are
-        // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
-          break;
-        tmp_memory = it->second;
-      }
-      if (memory != nullptr) {
-        if (tmp_memory != memory) {
-          LOG(ERROR) << "Multiple targets found for address vector load";
-          return;
-        }
-      } else {
-        memory = tmp_memory;
-      }
-    }
-  }
+  auto* memory = FindVectorTarget<MemoryInterface>(
+      memory_targets_, default_memory_target_, address_db, mask_db, el_size);
   if (memory != nullptr) {
     return memory->Store(address_db, mask_db, el_size, db);
   }
   // Since the vector memory store can occur in both MemoryInterface and
   // TaggedMemoryInterface, we need to check the tagged memory interface map
   // too.
-  TaggedMemoryInterface* tagged_memory = nullptr;
-  for (int i = 0; i < count; i++) {
-    if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
-      auto it = tagged_targets_.find({address, address + el_size});
-      TaggedMemoryInterface* tmp_memory = nullptr;
-      if (it == tagged_targets_.end()) {
-        // If there are no overlapping targets, use the default, if it is set.
-        if (default_tagged_target_ == nullptr) break;
-        tmp_memory = default_tagged_target_;
-      } else {
-        auto& range = it->first;
-        // If there is no proper overlap, just break out of the loop. We are
-        // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size)) break;
-        tmp_memory = it->second;
-      }
-      if (tagged_memory != nullptr) {
-        if (tmp_memory != tagged_memory) {
-          LOG(ERROR) << "Multiple targets found for address vector load";
-          return;
-        }
-      } else {
-        tagged_memory = tmp_memory;
-      }
-    }
-  }
+  auto* tagged_memory = FindVectorTarget<TaggedMemoryInterface>(
+      tagged_targets_, default_tagged_target_, address_db, mask_db, el_size);
   if (tagged_memory != nullptr) {
     return tagged_memory->Store(address_db, mask_db, el_size, db);
   }
-- 
2.43.0


From 8cbc1dc50b6b236cea7df5570e8ad6428e55123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:46 +0000
Subject: [PATCH 032/129] fix: watch every element of unit stride accesses

---
 mpact/sim/util/memory/memory_watcher.cc        | 8 ++++++--
 mpact/sim/util/memory/tagged_memory_watcher.cc | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/memory_watcher.cc b/mpact/sim/util/memory/memory_watcher.cc
index 34b7fe5..a2dfb14 100644
--- a/mpact/sim/util/memory/memory_watcher.cc
+++ b/mpact/sim/util/memory/memory_watcher.cc
@@ -114,7 +114,9 @@ void MemoryWatcher::Load(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // A single address indicates a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = ld_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
@@ -150,7 +152,9 @@ void MemoryWatcher::Store(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // A single address indicates a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = st_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
diff --git a/mpact/sim/util/memory/tagged_memory_watcher.cc b/mpact/sim/util/memory/tagged_memory_watcher.cc
index 2e72efd..258adbc 100644
--- a/mpact/sim/util/memory/tagged_memory_watcher.cc
+++ b/mpact/sim/util/memory/tagged_memory_watcher.cc
@@ -115,7 +115,9 @@ void TaggedMemoryWatcher::Load(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // A single address indicates a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = ld_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
@@ -166,7 +168,9 @@ void TaggedMemoryWatcher::Store(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // A single address indicates a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = st_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
-- 
2.43.0


From 42b4c4288b365c9e27075ef3b61fe308f7d1751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:12 +0000
Subject: [PATCH 033/129] fix: initialize all counters of a Cache of tagged
 memory

---
 mpact/sim/util/memory/cache.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 8f36b63..3ced6bf 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -76,6 +76,8 @@ Cache::Cache(std::string name, Component* parent,
       dirty_line_writeback_counter_("dirty_line_writeback", 0ULL),
       read_around_counter_("read_around", 0ULL),
       write_around_counter_("write_around", 0ULL),
+      read_non_cacheable_counter_("read_non_cacheable", 0ULL),
+      write_non_cacheable_counter_("write_non_cacheable", 0ULL),
       memory_(tagged_memory),
       tagged_memory_(tagged_memory) {
   // Register the counters.
-- 
2.43.0


From 0b80d3db0334b67f6400caa90091d45cecd39029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:12 +0000
Subject: [PATCH 034/129] fix: a line allocated by a write is dirty

---
 mpact/sim/util/memory/cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 3ced6bf..6db2aaa 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -469,7 +469,7 @@ void Cache::ReplaceBlock(uint64_t block, bool is_read) {
   line.valid = true;
   line.tag = block;
   line.pinned = false;
-  line.dirty = false;
+  line.dirty = !is_read;
   line.lru = cycle_counter_->GetValue();
 }
 
-- 
2.43.0


From 654ff5abf3357442c11e690b922e7065a182f21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:12 +0000
Subject: [PATCH 035/129] fix: Cache must look up every element of unit stride
 accesses

---
 mpact/sim/util/memory/cache.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 6db2aaa..6866ba2 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -260,9 +260,13 @@ void Cache::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
                  DataBuffer* db, Instruction* inst, ReferenceCount* context) {
   auto address_span = address_db->Get<uint64_t>();
   auto mask_span = mask_db->Get<bool>();
-  for (int i = 0; i < address_db->size<uint64_t>(); i++) {
+  // A single address indicates a unit stride access.
+  bool unit_stride = address_span.size() == 1;
+  for (int i = 0; i < mask_span.size(); i++) {
     if (mask_span[i]) {
-      (void)CacheLookup(address_span[i], el_size, /*is_read=*/true);
+      uint64_t address =
+          unit_stride ? address_span[0] + i * el_size : address_span[i];
+      (void)CacheLookup(address, el_size, /*is_read=*/true);
     }
   }
   if (memory_ == nullptr) return;
@@ -320,9 +324,13 @@ void Cache::Store(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
                   DataBuffer* db) {
   auto address_span = address_db->Get<uint64_t>();
   auto mask_span = mask_db->Get<bool>();
-  for (int i = 0; i < address_db->size<uint64_t>(); i++) {
+  // A single address indicates a unit stride access.
+  bool unit_stride = address_span.size() == 1;
+  for (int i = 0; i < mask_span.size(); i++) {
     if (mask_span[i]) {
-      (void)CacheLookup(address_span[i], el_size, /*is_read=*/false);
+      uint64_t address =
+          unit_stride ? address_span[0] + i * el_size : address_span[i];
+      (void)CacheLookup(address, el_size, /*is_read=*/false);
     }
   }
   if (memory_ == nullptr) return;
-- 
2.43.0


From a70272c6aa701587868eddaff1252bc357f51209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:12 +0000
Subject: [PATCH 036/129] fix: Cache must support tag only loads with latency

---
 mpact/sim/util/memory/cache.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 6866ba2..a6eaf0b 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -308,6 +308,9 @@ void Cache::Load(uint64_t address, DataBuffer* db, DataBuffer* tags,
   if (db) {
     db->set_latency(0);
     db->IncRef();
+  } else {
+    // The latency of a tag only load is that of the tags.
+    tags->set_latency(0);
   }
   tagged_memory_->Load(address, db, tags, cache_inst_, cache_context);
   cache_context->DecRef();
@@ -358,7 +361,7 @@ void Cache::LoadChild(const Instruction* inst) {
     if (cache_context->latency > 0) {
       if (db != nullptr) db->set_latency(cache_context->latency);
       og_inst->state()->function_delay_line()->Add(
-          db->latency(), [og_inst, og_context]() {
+          cache_context->latency, [og_inst, og_context]() {
             og_inst->Execute(og_context);
             if (og_context != nullptr) og_context->DecRef();
             og_inst->DecRef();
-- 
2.43.0


From 5d76418dc9202f07f1181f50192bd5ddf489e0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:12 +0000
Subject: [PATCH 037/129] fix: Cache must release the context of a load without
 instruction

---
 mpact/sim/util/memory/cache.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index a6eaf0b..b2d88ad 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -371,6 +371,8 @@ void Cache::LoadChild(const Instruction* inst) {
       if (og_context != nullptr) og_context->DecRef();
       og_inst->DecRef();
     }
+  } else if (og_context != nullptr) {
+    og_context->DecRef();
   }
   if (db) db->DecRef();
 }
-- 
2.43.0


From d2f0a772306a31de90e918f411cf3aac01d0e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:34 +0000
Subject: [PATCH 038/129] fix: a removed child component has no parent

---
 mpact/sim/generic/component.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/generic/component.cc b/mpact/sim/generic/component.cc
index a4aa0f7..c921b5c 100644
--- a/mpact/sim/generic/component.cc
+++ b/mpact/sim/generic/component.cc
@@ -96,6 +96,7 @@ absl::Status Component::RemoveChildComponent(absl::string_view name) {
   if (iter == child_map_.end())
     return absl::NotFoundError(
         absl::StrCat("No such child component '", name, "'"));
+  if (iter->second->parent() == this) iter->second->SetParent(nullptr);
   child_map_.erase(iter);
   return absl::OkStatus();
 }
-- 
2.43.0


From b1b1699053f767b3b9af89a26d33b8fd106561b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:07 +0000
Subject: [PATCH 039/129] fix: PerformActions does nothing at an address
 without action point

---
 mpact/sim/generic/action_point_manager_base.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index ea53a81..f5b0360 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -190,6 +190,7 @@ void ActionPointManagerBase::PerformActions(uint64_t address) {
   if (it == action_point_map_.end()) {
     LOG(ERROR) << absl::StrCat("No action point found at: ",
                                absl::Hex(address));
+    return;
   }
 
   for (auto& [id, action_ptr] : it->second->action_map) {
-- 
2.43.0


From cd71c180fde8123a1c4ec8a2d29275ba46411303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:07 +0000
Subject: [PATCH 040/129] fix: an action point operation that fails to write
 memory must not change its state

---
 .../sim/generic/action_point_manager_base.cc  | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index f5b0360..9f3c0a6 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -86,16 +86,17 @@ absl::Status ActionPointManagerBase::ClearAction(uint64_t address, int id) {
     return absl::NotFoundError(
         absl::StrCat("No action ", id, "found at: ", absl::Hex(address)));
   }
-  // Remove the action.
   auto* action_info = action_it->second;
-  ap->action_map.erase(action_it);
-  ap->num_active -= action_info->is_enabled ? 1 : 0;
-  delete action_info;
+  int num_active = ap->num_active - (action_info->is_enabled ? 1 : 0);
   // If there are no other active actions, write back the original instruction.
-  if (ap->num_active == 0) {
+  if (num_active == 0) {
     auto status = ap_memory_interface_->WriteOriginalInstruction(address);
     if (!status.ok()) return status;
   }
+  // Remove the action.
+  ap->action_map.erase(action_it);
+  ap->num_active = num_active;
+  delete action_info;
   return absl::OkStatus();
 }
 
@@ -115,13 +116,13 @@ absl::Status ActionPointManagerBase::EnableAction(uint64_t address, int id) {
   }
   // If it is already enabled, return ok.
   if (action_it->second->is_enabled) return absl::OkStatus();
-  action_it->second->is_enabled = true;
-  ap->num_active++;
-  // If there is only one active action (this), write a breakpoint instruction.
-  if (ap->num_active == 1) {
+  // If there are no other active actions, write a breakpoint instruction.
+  if (ap->num_active == 0) {
     auto status = ap_memory_interface_->WriteBreakpointInstruction(address);
     if (!status.ok()) return status;
   }
+  action_it->second->is_enabled = true;
+  ap->num_active++;
   return absl::OkStatus();
 }
 
@@ -141,14 +142,14 @@ absl::Status ActionPointManagerBase::DisableAction(uint64_t address, int id) {
   }
   // If it is already disabled, return ok.
   if (!action_it->second->is_enabled) return absl::OkStatus();
-  // Disable the action.
-  action_it->second->is_enabled = false;
-  ap->num_active--;
-  // If there are no active actions, write back the original instruction.
-  if (ap->num_active == 0) {
+  // If there are no other active actions, write back the original instruction.
+  if (ap->num_active == 1) {
     auto status = ap_memory_interface_->WriteOriginalInstruction(address);
     if (!status.ok()) return status;
   }
+  // Disable the action.
+  action_it->second->is_enabled = false;
+  ap->num_active--;
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 54c9b035c83302fb389747a4fabf78880d754584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:07 +0000
Subject: [PATCH 041/129] fix: MemoryUseTracker must mark every word of an
 access in the segment it belongs to

---
 mpact/sim/util/memory/memory_use_profiler.cc | 33 +++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index 35ef4ed..852129f 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -40,30 +40,41 @@ MemoryUseTracker::~MemoryUseTracker() {
 }
 
 // Static helper function.
-static inline void MarkUsedBits(uint64_t byte_offset, int mask, uint8_t* bits) {
+static inline void MarkUsedBits(uint64_t byte_offset, uint8_t* bits) {
   // Shift right by two, so that every byte offset becomes a word offset.
   uint64_t word_offset = byte_offset >> 2;
   // Byte offs
   uint64_t byte_index = word_offset >> 3;
   int bit_index = word_offset & 0b111;
 
-  bits[byte_index] |= (mask << bit_index);
+  bits[byte_index] |= (1 << bit_index);
 }
 
 void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
-  // The profiling is done on a word boundary, so word or smaller is marked by
-  // a single bit, double words by 2 bits.
+  // The profiling is done on a word boundary: every word an access touches is
+  // marked by a bit.
   if (size > 8) {
     LOG(INFO) << "MemoryUseTracker::MarkUsed: not profiling accesses > 8 bytes";
     return;
   }
-  size = std::min(size, 4);
-  uint8_t mask = size > 4 ? 0b11 : 0b1;
-  if ((address >= last_start_) && (address + size - 1 <= last_end_)) {
-    return MarkUsedBits(address - last_start_, mask, last_used_);
+  if (size <= 0) return;
+  // Mark each word the access touches, as they may be in different segments.
+  uint64_t last_word = (address + size - 1) & ~(kGranularity - 1ULL);
+  address &= ~(kGranularity - 1ULL);
+  if (address != last_word) {
+    MarkUsed(address, kGranularity);
+    MarkUsed(last_word, kGranularity);
+    // An unaligned access of more than a word may touch three words.
+    if (last_word - address > kGranularity) {
+      MarkUsed(address + kGranularity, kGranularity);
+    }
+    return;
+  }
+  if ((last_used_ != nullptr) && (address >= last_start_) &&
+      (address <= last_end_)) {
+    return MarkUsedBits(address - last_start_, last_used_);
   }
-  auto it = memory_use_map_.find(
-      MemoryWatcher::AddressRange{address, address + size - 1});
+  auto it = memory_use_map_.find(MemoryWatcher::AddressRange{address});
   if (it == memory_use_map_.end()) {
     // Compute new base and top addresses.
     uint64_t start = address & ~kBaseMask;
@@ -79,7 +90,7 @@ void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
   last_start_ = it->first.start;
   last_end_ = it->first.end;
   last_used_ = it->second;
-  MarkUsedBits(address - last_start_, mask, it->second);
+  MarkUsedBits(address - last_start_, it->second);
 }
 
 // Write out ranges of words that have been used.
-- 
2.43.0


From 063534a539f22505bed7337e81181ebb50f9e8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:07 +0000
Subject: [PATCH 042/129] fix: the memory use profile must end ranges at the
 end of a segment

---
 mpact/sim/util/memory/memory_use_profiler.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index 852129f..48a0dd9 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -93,14 +93,29 @@ void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
   MarkUsedBits(address - last_start_, it->second);
 }
 
+// Static helper function.
+static inline void WriteRange(std::ostream& os, uint64_t start, uint64_t end) {
+  os << absl::StrFormat("0x%llx,0x%llx,%llu\n", start, end,
+                        end - start + MemoryUseTracker::kGranularity);
+}
+
 // Write out ranges of words that have been used.
 void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
   // Current range info.
   uint64_t range_start = 0;
   uint64_t range_end = 0;
   bool range_started = false;
+  // Address following the previous segment.
+  uint64_t segment_end = 0;
   for (auto const& [range, bits] : memory_use_map_) {
     auto base = range.start;
+    // A range that reaches the end of the previous segment ends there, unless
+    // this segment follows it immediately.
+    if (range_started && (base != segment_end)) {
+      WriteRange(os, range_start, segment_end - kGranularity);
+      range_started = false;
+    }
+    segment_end = range.end + 1;
     int byte_index = 0;
     uint8_t byte = bits[byte_index];
     while (byte_index < kBitsSize) {
@@ -117,8 +132,7 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
         int bit_indx = absl::countr_one(byte) - 1;
         range_end = base + (byte_index * 8 + bit_indx) * kGranularity;
         // Output range.
-        os << absl::StrFormat("0x%llx,0x%llx,%llu\n", range_start, range_end,
-                              range_end - range_start + 4);
+        WriteRange(os, range_start, range_end);
         // Clear those bits from the current byte, then we start looking for
         // a new range.
         byte &= ~((1 << (bit_indx + 1)) - 1);
@@ -139,6 +153,8 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
       range_started = true;
     }
   }
+  // A range may reach the end of the last segment.
+  if (range_started) WriteRange(os, range_start, segment_end - kGranularity);
 }
 
 }  // namespace internal
-- 
2.43.0


From 95eca93f5290cb4880e251573e2d525634c17749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:07 +0000
Subject: [PATCH 043/129] fix: profile every element of unit stride accesses

---
 mpact/sim/util/memory/memory_use_profiler.cc | 37 +++++++++-----------
 mpact/sim/util/memory/memory_use_profiler.h  |  3 ++
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index 48a0dd9..49f1ece 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -93,6 +93,19 @@ void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
   MarkUsedBits(address - last_start_, it->second);
 }
 
+void MemoryUseTracker::MarkUsed(const DataBuffer* address_db,
+                                const DataBuffer* mask_db, int el_size) {
+  // A single address indicates a unit stride access.
+  bool unit_stride = address_db->size<uint64_t>() == 1;
+  for (int i = 0; i < mask_db->size<uint8_t>(); ++i) {
+    if (!mask_db->Get<uint8_t>(i)) continue;
+    uint64_t address = unit_stride
+                           ? address_db->Get<uint64_t>(0) + i * el_size
+                           : address_db->Get<uint64_t>(i);
+    MarkUsed(address, el_size);
+  }
+}
+
 // Static helper function.
 static inline void WriteRange(std::ostream& os, uint64_t start, uint64_t end) {
   os << absl::StrFormat("0x%llx,0x%llx,%llu\n", start, end,
@@ -174,11 +187,7 @@ void MemoryUseProfiler::Load(DataBuffer* address_db, DataBuffer* mask_db,
                              int el_size, DataBuffer* db, Instruction* inst,
                              ReferenceCount* context) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
+    tracker_.MarkUsed(address_db, mask_db, el_size);
   }
   if (memory_) memory_->Load(address_db, mask_db, el_size, db, inst, context);
 }
@@ -191,11 +200,7 @@ void MemoryUseProfiler::Store(uint64_t address, DataBuffer* db) {
 void MemoryUseProfiler::Store(DataBuffer* address_db, DataBuffer* mask_db,
                               int el_size, DataBuffer* db) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
+    tracker_.MarkUsed(address_db, mask_db, el_size);
   }
   if (memory_) memory_->Store(address_db, mask_db, el_size, db);
 }
@@ -217,11 +222,7 @@ void TaggedMemoryUseProfiler::Load(DataBuffer* address_db, DataBuffer* mask_db,
                                    int el_size, DataBuffer* db,
                                    Instruction* inst, ReferenceCount* context) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
+    tracker_.MarkUsed(address_db, mask_db, el_size);
   }
   if (tagged_memory_)
     tagged_memory_->Load(address_db, mask_db, el_size, db, inst, context);
@@ -243,11 +244,7 @@ void TaggedMemoryUseProfiler::Store(uint64_t address, DataBuffer* db) {
 void TaggedMemoryUseProfiler::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                     int el_size, DataBuffer* db) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
+    tracker_.MarkUsed(address_db, mask_db, el_size);
   }
   if (tagged_memory_) tagged_memory_->Store(address_db, mask_db, el_size, db);
 }
diff --git a/mpact/sim/util/memory/memory_use_profiler.h b/mpact/sim/util/memory/memory_use_profiler.h
index bd24ae1..9784862 100644
--- a/mpact/sim/util/memory/memory_use_profiler.h
+++ b/mpact/sim/util/memory/memory_use_profiler.h
@@ -54,6 +54,9 @@ class MemoryUseTracker {
   // Size of each 'use' bit store.
   static constexpr int kBitsSize = kSegmentSize / (kGranularity * 8);
   void MarkUsed(uint64_t address, int size);
+  // Mark each unmasked element of a vector access.
+  void MarkUsed(const DataBuffer* address_db, const DataBuffer* mask_db,
+                int el_size);
   void WriteUseProfile(std::ostream& os) const;
 
  private:
-- 
2.43.0


From ef7f40ff3fa414cdbf6ad1b7e541bc49f0657b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:17 +0000
Subject: [PATCH 044/129] fix: bit masks of 64-bit wide fields and overlay
 components

(1ULL << 64) - 1 is undefined and evaluates to 0, so the generated extractors
and inserters of fields that span a whole 64-bit format masked everything off.
---
 mpact/sim/decoder/format.cc  | 21 +++++++++++++++------
 mpact/sim/decoder/overlay.cc | 17 +++++++++++++----
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 1a23903..85e02f4 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -35,6 +35,15 @@ namespace bin_format {
 
 using ::mpact::sim::machine_description::instruction_set::ToSnakeCase;
 
+namespace {
+
+// Returns a mask of the low 'width' bits (0 <= width <= 64).
+uint64_t LowBits(int width) {
+  return width >= 64 ? ~0ULL : (1ULL << width) - 1;
+}
+
+}  // namespace
+
 FieldOrFormat::~FieldOrFormat() {
   if (is_field_) {
     delete field_;
@@ -397,7 +406,7 @@ std::string Format::GenerateFieldExtractor(const Field* field) const {
   // <= 128 bits. For larger formats use the templated extract helper function.
   std::string expr;
   if (declared_width_ <= 64) {
-    uint64_t mask = (1ULL << field->width) - 1;
+    uint64_t mask = LowBits(field->width);
     if (field->low == 0) {
       expr = absl::StrCat("value & 0x", absl::Hex(mask));
     } else {
@@ -499,7 +508,7 @@ std::string Format::GenerateFieldInserter(const Field* field) const {
                   ToPascalCase(field->name), "(", field_type_name, " value, ",
                   inst_word_type_name, " inst_word) {\n");
   if (declared_width_ <= 64) {
-    uint64_t mask = ((1ULL << field->width) - 1) << field->low;
+    uint64_t mask = LowBits(field->width) << field->low;
     std::string shift;
     if (field->low != 0) {
       shift = absl::StrCat(" << ", field->low);
@@ -598,7 +607,7 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
                       width, ") - 1;\n");
       absl::StrAppend(&h_output, "  tmp = (value ", shift, ") & mask;\n");
     } else {
-      uint64_t mask = ((1ULL << width) - 1);
+      uint64_t mask = LowBits(width);
       // Extract the bits from the overlay value for the current component.
       absl::StrAppend(&h_output, "  tmp = (value ", shift, ") & 0x",
                       absl::Hex(mask), "ULL;\n");
@@ -692,7 +701,7 @@ std::string Format::GenerateReplicatedFormatInserter(
   int width = format->declared_width();
   int low = high - width + 1;
   if (declared_width_ <= 64) {
-    uint64_t mask = (1ULL << width) - 1;
+    uint64_t mask = LowBits(width);
     absl::StrAppend(&h_output, "  int low = ", low, " - (index * ", width,
                     ");\n"
                     "  return (inst_word & (~0x",
@@ -748,7 +757,7 @@ std::string Format::GenerateSingleFormatInserter(std::string_view format_alias,
     shift = absl::StrCat(" << ", low);
   }
   if (declared_width_ <= 64) {
-    uint64_t mask = ((1ULL << width) - 1) << low;
+    uint64_t mask = LowBits(width) << low;
     absl::StrAppend(&h_output, "  return (inst_word & (~0x", absl::Hex(mask),
                     "ULL))", " | ((value ", shift, ") & 0x", absl::Hex(mask),
                     "ULL);\n}\n");
@@ -843,7 +852,7 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
       shift = absl::StrCat(low);
     }
     if (declared_width_ <= 64) {
-      uint64_t mask = (1ULL << width) - 1;
+      uint64_t mask = LowBits(width);
       expr =
           absl::StrCat("(value >> ", shift, ") & 0x", absl::Hex(mask), ";\n");
       absl::StrAppend(&h_output, "  return ", expr, ";\n}\n\n");
diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 71e9f89..2f4f2cf 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -36,6 +36,15 @@ namespace bin_format {
 using ::mpact::sim::machine_description::instruction_set::ToPascalCase;
 using ::mpact::sim::machine_description::instruction_set::ToSnakeCase;
 
+namespace {
+
+// Returns a mask of the low 'width' bits (0 <= width <= 64).
+uint64_t LowBits(int width) {
+  return width >= 64 ? ~0ULL : (1ULL << width) - 1;
+}
+
+}  // namespace
+
 BitsOrField::BitsOrField(Field* field, int high, int low, int width)
     : field_(field), high_(high), low_(low), width_(width), position_(-1) {}
 
@@ -159,7 +168,7 @@ absl::Status Overlay::ComputeHighLow() {
         component->set_high(component->high() + component->field()->low);
         component->set_low(component->low() + component->field()->low);
       }
-      mask_ |= ((1LLU << component->width()) - 1) << component->low();
+      mask_ |= LowBits(component->width()) << component->low();
     }
     position -= component->width();
   }
@@ -182,7 +191,7 @@ absl::StatusOr<uint64_t> Overlay::GetValue(uint64_t input) const {
       int shift = component->position() - bin_num.width + 1;
       value |= bin_num.value << shift;
     } else {
-      uint64_t mask = ((1ULL << component->width()) - 1) << component->low();
+      uint64_t mask = LowBits(component->width()) << component->low();
       int diff = component->high() - component->position();
       auto tmp = (input & mask);
       tmp = (diff < 0) ? tmp << -diff : tmp >> diff;
@@ -197,7 +206,7 @@ absl::StatusOr<uint64_t> Overlay::GetBitField(uint64_t input) {
   for (auto* component : component_vec_) {
     // Constant bits do not map to the instruction word.
     if (component->high() < 0) continue;
-    uint64_t mask = ((1ULL << component->width()) - 1);
+    uint64_t mask = LowBits(component->width());
     int shift = component->position() - component->width() + 1;
     uint64_t bits = ((input >> shift) & mask);
     bitfield |= bits << component->low();
@@ -240,7 +249,7 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
       absl::StrAppend(&output, ";\n");
     } else {
       // Field or format references are added.
-      uint64_t mask = ((1ULL << component->width()) - 1) << component->low();
+      uint64_t mask = LowBits(component->width()) << component->low();
       absl::StrAppend(&output, "  ", result, assign, "(", value, " & 0x",
                       absl::Hex(mask), ")");
       int diff = component->high() - component->position();
-- 
2.43.0


From 53c0c27083f61b5725b1b6f5761f873f046366d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:47 +0000
Subject: [PATCH 045/129] fix: sign extension in extractors of wide and
 odd-width formats

Signed fields of 65 to 128 bit wide formats got code that does not compile
(absl::uint128 does not convert implicitly), and the uint8_t * variants emitted
for formats whose width is not a power of two did not sign-extend.
---
 mpact/sim/decoder/format.cc | 41 ++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 85e02f4..9f6b70a 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -429,23 +429,24 @@ std::string Format::GenerateFieldExtractor(const Field* field) const {
                         byte_size, ", ", field->high, ", ", field->width, ")");
   }
 
-  // Add sign-extension if the field is signed.
-  std::string sign_extension;
-  if (field->is_signed) {
-    int shift = return_width - field->width;
-    sign_extension =
-        absl::StrCat("  ", result_type_name, " result = (", expr, ") << ",
-                     shift, ";\n  result = result >> ", shift, ";\n");
-    expr = "result";
-  }
-  if (declared_width_ <= 64) {
-    absl::StrAppend(&h_output, sign_extension, "  return ", expr, ";\n}\n\n");
-  } else if ((declared_width_ <= 128) && (return_width <= 64)) {
-    absl::StrAppend(&h_output, sign_extension, "  return absl::Uint128Low64(",
-                    expr, ");\n}\n\n");
-  } else {
-    absl::StrAppend(&h_output, sign_extension, "  return ", expr, ";\n}\n\n");
+  // Narrow the result of a 128 bit wide expression to the result type.
+  if ((declared_width_ > 64) && (declared_width_ <= 128)) {
+    if (return_width <= 64) {
+      expr = absl::StrCat("absl::Uint128Low64(", expr, ")");
+    } else {
+      expr = absl::StrCat("static_cast<", result_type_name, ">(", expr, ")");
+    }
   }
+
+  // Generates the return statement. Adds sign-extension if the field is signed.
+  auto return_stmt = [&](absl::string_view expr) -> std::string {
+    if (!field->is_signed) return absl::StrCat("  return ", expr, ";\n}\n\n");
+    int shift = return_width - field->width;
+    return absl::StrCat("  ", result_type_name, " result = (", expr, ") << ",
+                        shift, ";\n  result = result >> ", shift,
+                        ";\n  return result;\n}\n\n");
+  };
+  absl::StrAppend(&h_output, return_stmt(expr));
   // If the parent format size is not a power of two, also create an extractor
   // that takes a uint8_t * parameter.
   if ((declared_width_ <= 128) &&
@@ -453,9 +454,11 @@ std::string Format::GenerateFieldExtractor(const Field* field) const {
     absl::StrAppend(&h_output, "inline ", result_type_name, " Extract",
                     ToPascalCase(field->name), "(const uint8_t *value) {\n");
     int byte_size = (declared_width_ + 7) / 8;
-    absl::StrAppend(&h_output, "  return internal::ExtractBits<",
-                    result_type_name, ">(value, ", byte_size, ", ", field->high,
-                    ", ", field->width, ");\n}\n\n");
+    absl::StrAppend(
+        &h_output,
+        return_stmt(absl::StrCat("internal::ExtractBits<", result_type_name,
+                                 ">(value, ", byte_size, ", ", field->high,
+                                 ", ", field->width, ")")));
   }
   return h_output;
 }
-- 
2.43.0


From df9dca9054aeb6897e10449dbee3766cedad858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:47 +0000
Subject: [PATCH 046/129] fix: field inserters of 65 to 128 bit wide formats

The value was masked in place instead of being shifted to the field's
position.
---
 mpact/sim/decoder/format.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 9f6b70a..19cfaa6 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -527,11 +527,14 @@ std::string Format::GenerateFieldInserter(const Field* field) const {
                     "  absl::uint128 mask = 1;\n"
                     "  mask = (mask << ",
                     field->width, ") - 1;\n");
+    std::string shift;
     if (field->low != 0) {
       absl::StrAppend(&h_output, "  mask = mask << ", field->low, ";\n");
+      shift = absl::StrCat(" << ", field->low);
     }
-    absl::StrAppend(&h_output,
-                    "  inst_word = (inst_word & ~mask) | (value & mask);\n"
+    absl::StrAppend(&h_output, "  inst_word = (inst_word & ~mask) | ((value",
+                    shift,
+                    ") & mask);\n"
                     "  return inst_word;\n"
                     "}\n");
   } else if (field->width <= 128) {
-- 
2.43.0


From 6c9032c13f6b9097ec9921b3345f89a47e4a6343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 047/129] fix: inserters of replicated formats clear the bits
 below the instance

~mask << low also cleared every bit to the right of the inserted instance.
---
 mpact/sim/decoder/format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 19cfaa6..a3e4db5 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -710,7 +710,7 @@ std::string Format::GenerateReplicatedFormatInserter(
     uint64_t mask = LowBits(width);
     absl::StrAppend(&h_output, "  int low = ", low, " - (index * ", width,
                     ");\n"
-                    "  return (inst_word & (~0x",
+                    "  return (inst_word & ~(0x",
                     absl::Hex(mask), "ULL << low))", " | ((value << low) & (0x",
                     absl::Hex(mask), "ULL << low));\n}\n");
   } else if (declared_width_ <= 128) {
-- 
2.43.0


From d7ecd0ef22a058834aab0be1cf090f69ce7ea1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 048/129] fix: extractors of replicated formats select the
 wrong instance

For formats of up to 128 bits the instance was located at low + (index - 1) *
width, while instances are laid out left to right (as the inserters and the
byte vector extractors have it), and the uint8_t * variant lacked the index
parameter its body uses.
---
 mpact/sim/decoder/format.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index a3e4db5..c00de7e 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -853,7 +853,8 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
     int low = high - width + 1;
     std::string shift;
     if (size > 1) {
-      shift = absl::StrCat("(", low, " + (index - 1) * ", width, ")");
+      // Instances are ordered left to right, starting with instance 0.
+      shift = absl::StrCat("(", low, " - (index * ", width, "))");
     } else {
       shift = absl::StrCat(low);
     }
@@ -891,7 +892,8 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
   if ((declared_width_ <= 128) &&
       (absl::popcount(static_cast<unsigned>(declared_width_)) > 1)) {
     absl::StrAppend(&h_output, "inline ", return_type, " Extract",
-                    ToPascalCase(format_alias), "(const uint8_t *value) {\n");
+                    ToPascalCase(format_alias), "(const uint8_t *value",
+                    size > 1 ? ", int index" : "", ") {\n");
     int byte_size = (declared_width_ + 7) / 8;
     expr = absl::StrCat("internal::ExtractBits<", return_type, ">(value, ",
                         byte_size, ", ", high);
-- 
2.43.0


From c7e6668d31877a02ec87cf489c77246eb0f4f910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:15 +0000
Subject: [PATCH 049/129] fix: overlay inserters do not replace the bits of the
 overlay

The components were or'ed into the instruction word, so inserting an overlay
value over a previous one, unlike inserting a field, left the union of both.
---
 mpact/sim/decoder/format.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index c00de7e..08137d2 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -623,7 +623,15 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
       shift = absl::StrCat(" << ", bits_or_field->low());
     }
     if (declared_width_ <= 128) {
-      absl::StrAppend(&h_output, "  inst_word |= (tmp ", shift, ");\n");
+      // Replace the bits of the component in the instruction word.
+      std::string mask =
+          use_mask_variable
+              ? absl::StrCat("(mask", shift, ")")
+              : absl::StrCat(
+                    "0x",
+                    absl::Hex(LowBits(width) << bits_or_field->low()), "ULL");
+      absl::StrAppend(&h_output, "  inst_word = (inst_word & ~", mask,
+                      ") | (tmp", shift, ");\n");
     } else {
       absl::StrAppend(&h_output, "  internal::InsertBits(inst_word, ",
                       byte_size, ", ", bits_or_field->high(), ", ", width,
-- 
2.43.0


From c2e10a6506fcb4bdc26d88a68bd0dbd2225640bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:37 +0000
Subject: [PATCH 050/129] fix: masks of 128-bit wide fields and formats in
 generated code

1 << 128 is undefined; derive the mask from Uint128Max() instead.
---
 mpact/sim/decoder/format.cc | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 08137d2..11b9899 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -414,9 +414,8 @@ std::string Format::GenerateFieldExtractor(const Field* field) const {
     }
   } else if (declared_width_ <= 128) {
     absl::StrAppend(&h_output,
-                    "  absl::uint128 mask = 1;\n"
-                    "  mask = (mask << ",
-                    field->width, ") - 1;\n");
+                    "  absl::uint128 mask = absl::Uint128Max() >> (128 - ",
+                    field->width, ");\n");
     if (field->low == 0) {
       expr = absl::StrCat("value & mask");
     } else {
@@ -524,9 +523,8 @@ std::string Format::GenerateFieldInserter(const Field* field) const {
                     "}\n");
   } else if (declared_width_ <= 128) {
     absl::StrAppend(&h_output,
-                    "  absl::uint128 mask = 1;\n"
-                    "  mask = (mask << ",
-                    field->width, ") - 1;\n");
+                    "  absl::uint128 mask = absl::Uint128Max() >> (128 - ",
+                    field->width, ");\n");
     std::string shift;
     if (field->low != 0) {
       absl::StrAppend(&h_output, "  mask = mask << ", field->low, ";\n");
@@ -607,10 +605,8 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
       shift = absl::StrCat(" >> ", remaining - width);
     }
     if (use_mask_variable) {
-      absl::StrAppend(&h_output,
-                      "  mask = 1;\n"
-                      "  mask = (mask << ",
-                      width, ") - 1;\n");
+      absl::StrAppend(&h_output, "  mask = absl::Uint128Max() >> (128 - ",
+                      width, ");\n");
       absl::StrAppend(&h_output, "  tmp = (value ", shift, ") & mask;\n");
     } else {
       uint64_t mask = LowBits(width);
@@ -725,10 +721,9 @@ std::string Format::GenerateReplicatedFormatInserter(
     absl::StrAppend(
         &h_output, "  int low = ", low, " - (index * ", width,
         ");\n"
-        "  absl::uint128 mask = 1;\n"
-        "  mask = (mask << ",
+        "  absl::uint128 mask = absl::Uint128Max() >> (128 - ",
         width,
-        ") - 1;\n"
+        ");\n"
         "  mask <<= low;\n"
         "  return (inst_word & ~mask) | (value << low) & mask;\n}\n");
   } else {
@@ -777,9 +772,8 @@ std::string Format::GenerateSingleFormatInserter(std::string_view format_alias,
                     "ULL);\n}\n");
   } else if (declared_width_ <= 128) {
     absl::StrAppend(&h_output,
-                    "  absl::uint128 mask = 1;\n"
-                    "  mask = (mask << ",
-                    width, ") - 1;\n");
+                    "  absl::uint128 mask = absl::Uint128Max() >> (128 - ",
+                    width, ");\n");
     if (low > 0) {
       absl::StrAppend(&h_output, "  mask = mask << ", low, ";\n");
     }
@@ -873,9 +867,8 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
       absl::StrAppend(&h_output, "  return ", expr, ";\n}\n\n");
     } else {
       absl::StrAppend(&h_output,
-                      "  absl::uint128 mask = 1;\n"
-                      "  mask = (mask << ",
-                      width, ") - 1;\n");
+                      "  absl::uint128 mask = absl::Uint128Max() >> (128 - ",
+                      width, ");\n");
       expr = absl::StrCat("(value >> ", shift, ") & mask");
       if (width <= 64) {
         absl::StrAppend(&h_output, "  return absl::Uint128Low64(", expr,
-- 
2.43.0


From baa5a74069ef796621a651d03cc4ebd3cff17f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:37 +0000
Subject: [PATCH 051/129] fix: packed struct extractors of 64-bit wide formats

They took a pointer but reinterpreted the pointer variable itself. Formats of
exactly 64 bits are passed by value, as in the inserters.
---
 mpact/sim/decoder/format.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 11b9899..33a52dd 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -368,7 +368,7 @@ std::string Format::GeneratePackedStructFieldExtractor(
   std::string return_type = GetUIntType(width);
   std::string signature = absl::StrCat("inline ", return_type, " Extract",
                                        ToPascalCase(field->name), "(");
-  if (declared_width_ < 64) {
+  if (declared_width_ <= 64) {
     absl::StrAppend(&signature, GetUIntType(declared_width_), " value) {\n");
   } else {
     absl::StrAppend(&signature, "const uint8_t *value) {\n");
@@ -797,7 +797,7 @@ std::string Format::GeneratePackedStructFormatExtractor(
   std::string return_type = GetUIntType(width);
   std::string signature = absl::StrCat("inline ", return_type, " Extract",
                                        ToPascalCase(format_alias), "(");
-  if (declared_width_ < 64) {
+  if (declared_width_ <= 64) {
     absl::StrAppend(&signature, GetUIntType(declared_width_), " value) {\n");
   } else {
     absl::StrAppend(&signature, "const uint8_t *value) {\n");
-- 
2.43.0


From d9a43310c6a1aafaad30c388aac665e476286ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:37 +0000
Subject: [PATCH 052/129] fix: packed struct extractors of signed fields return
 a signed type

The sign extended value was converted to an unsigned type.
---
 mpact/sim/decoder/format.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 33a52dd..dc77482 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -365,7 +365,8 @@ std::string Format::GeneratePackedStructFieldExtractor(
     const Field* field) const {
   std::string h_output;
   int width = field->width;
-  std::string return_type = GetUIntType(width);
+  std::string return_type =
+      field->is_signed ? GetIntType(width) : GetUIntType(width);
   std::string signature = absl::StrCat("inline ", return_type, " Extract",
                                        ToPascalCase(field->name), "(");
   if (declared_width_ <= 64) {
-- 
2.43.0


From 136bd1473004c1d18f750158ae9984432440da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:02 +0000
Subject: [PATCH 053/129] fix: overlay extractors shift overlays wider than int
 and zero-only overlays

Constants and bits of formats of up to 32 bits were shifted as int, losing (or
sign extending) the bits at positions 31 and up, and an overlay of only zero
bits returned an uninitialized value.
---
 mpact/sim/decoder/overlay.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 2f4f2cf..7161d49 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -242,7 +242,8 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
       if (bin_num.value == 0) continue;
 
       int shift = component->position() - bin_num.width + 1;
-      absl::StrAppend(&output, "  ", result, assign, bin_num.value);
+      absl::StrAppend(&output, "  ", result, assign, bin_num.value,
+                      component->position() >= 31 ? "ULL" : "");
       if (shift > 0) {
         absl::StrAppend(&output, " << ", shift);
       }
@@ -250,7 +251,11 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
     } else {
       // Field or format references are added.
       uint64_t mask = LowBits(component->width()) << component->low();
-      absl::StrAppend(&output, "  ", result, assign, "(", value, " & 0x",
+      // Widen the value if the bits are shifted beyond those of an int.
+      bool widen =
+          (format_->declared_width() <= 32) && (component->position() >= 31);
+      absl::StrAppend(&output, "  ", result, assign,
+                      widen ? "static_cast<uint64_t>" : "", "(", value, " & 0x",
                       absl::Hex(mask), ")");
       int diff = component->high() - component->position();
       if (diff < 0) {
@@ -262,6 +267,8 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
     }
     assign = " |= ";
   }
+  // If there are only zero bits, nothing has been assigned yet.
+  if (assign == " = ") absl::StrAppend(&output, "  ", result, " = 0;\n");
   return output;
 }
 
-- 
2.43.0


From 11dedf37154e5d990c255ee886790517c2d13612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:35 +0000
Subject: [PATCH 054/129] fix: packed struct overlay extractors use the wrong
 bits and positions

---
 mpact/sim/decoder/format.cc  |  2 +-
 mpact/sim/decoder/overlay.cc | 26 ++++++++++++++++++++------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index dc77482..f26e7fb 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -912,7 +912,7 @@ std::string Format::GeneratePackedStructOverlayExtractor(
     Overlay* overlay) const {
   std::string h_output;
   std::string arg_type;
-  if (declared_width_ > 128) {
+  if (declared_width_ > 64) {
     arg_type = "const uint8_t *";
   } else {
     arg_type = GetUIntType(declared_width_);
diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 7161d49..8a83857 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -313,20 +313,34 @@ std::string Overlay::WritePackedStructValueExtractor(
       if (bin_num.value == 0) continue;
 
       int shift = component->position() - bin_num.width + 1;
-      absl::StrAppend(&output, "  ", result, assign, bin_num.value);
+      absl::StrAppend(&output, "  ", result, assign, "static_cast<",
+                      result_type, ">(", bin_num.value, ")");
       if (shift > 0) {
         absl::StrAppend(&output, " << ", shift);
       }
       absl::StrAppend(&output, ";\n");
     } else {
-      // Field or format references are added.
-      absl::StrAppend(
-          &output, "  ", result, assign, "static_cast<", result_type,
-          ">(packed_union->", ToSnakeCase(format_->name()), ".",
-          component->field()->name, ") << ", component->position(), ";\n");
+      // Field or format references are added. Select the bits of the
+      // component and move them to their position in the overlay.
+      int shift = component->position() - component->width() + 1;
+      std::string source;
+      int low = component->low();
+      if (component->field() != nullptr) {
+        source = absl::StrCat(ToSnakeCase(format_->name()), ".",
+                              component->field()->name);
+        low -= component->field()->low;
+      } else {
+        source = "value";
+      }
+      absl::StrAppend(&output, "  ", result, assign, "static_cast<",
+                      result_type, ">((packed_union->", source, " >> ", low,
+                      ") & 0x", absl::Hex(LowBits(component->width())), ") << ",
+                      shift, ";\n");
     }
     assign = " |= ";
   }
+  // If there are only zero bits, nothing has been assigned yet.
+  if (assign == " = ") absl::StrAppend(&output, "  ", result, " = 0;\n");
   return output;
 }
 
-- 
2.43.0


From 5f57020fc5c3f07f659d5e76a30ff40dcacd90a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:51 +0000
Subject: [PATCH 055/129] fix: ExtractBits/InsertBits templates for fields
 wider than an int

---
 mpact/sim/decoder/bin_format_visitor.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index 03729b6..b1903b8 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -78,7 +78,7 @@ static inline T ExtractBits(const uint8_t *data, int data_size, int msb,
   while (bits_left > 0) {
     int bwidth = std::min(8 - blsb, bits_left);
     uint8_t bmask = ((1 << bwidth) - 1) << blsb;
-    val |= ((data[byte_low] & bmask) >> blsb) << bits_extracted;
+    val |= static_cast<T>((data[byte_low] & bmask) >> blsb) << bits_extracted;
     blsb = 0;
     bits_left -= bwidth;
     bits_extracted += bwidth;
@@ -108,8 +108,8 @@ static inline void InsertBits(uint8_t *data, int data_size, int msb, int width,
   int blsb = lsb & 0x7;
   while (width > 0) {
     int bwidth = std::min(8 - blsb, width);
-    T bmask = (1 << bwidth) - 1;
-    uint8_t bval = (val & bmask);
+    uint8_t bmask = (1 << bwidth) - 1;
+    uint8_t bval = static_cast<uint8_t>(val & bmask);
     bmask <<= blsb;
     bval <<= blsb;
     val >>= bwidth;
-- 
2.43.0


From 1892a0de2484b904f965601cd5be7a03b6a2addb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:03 +0000
Subject: [PATCH 056/129] fix: extractors promoted to a base format must agree
 with all derived formats

---
 mpact/sim/decoder/format.cc  | 83 +++++++++++++++++++++++-------------
 mpact/sim/decoder/format.h   |  7 +++
 mpact/sim/decoder/overlay.cc |  2 +
 3 files changed, 62 insertions(+), 30 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index f26e7fb..6d207f4 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -57,10 +57,13 @@ FieldOrFormat::~FieldOrFormat() {
 bool FieldOrFormat::operator==(const FieldOrFormat& rhs) const {
   if (is_field_ != rhs.is_field_) return false;
   if (is_field_) {
-    if (high_ != rhs.high_) return false;
-    if (size_ != rhs.size_) return false;
+    if (field_->high != rhs.field_->high) return false;
+    if (field_->width != rhs.field_->width) return false;
+    if (field_->is_signed != rhs.field_->is_signed) return false;
   } else {
     if (format_ != rhs.format_) return false;
+    if (high_ != rhs.high_) return false;
+    if (size_ != rhs.size_) return false;
   }
   return true;
 }
@@ -244,6 +247,20 @@ absl::Status Format::ComputeAndCheckFormatWidth() {
   return absl::OkStatus();
 }
 
+// Return true if the format itself (as opposed to a format derived from it)
+// defines a field, format reference or overlay with the given name.
+bool Format::DefinesName(absl::string_view name) const {
+  if (overlay_map_.find(name) != overlay_map_.end()) return true;
+  for (auto const* field_or_format : field_vec_) {
+    if (name == (field_or_format->is_field()
+                     ? absl::string_view(field_or_format->field()->name)
+                     : field_or_format->format_alias())) {
+      return true;
+    }
+  }
+  return false;
+}
+
 // The extractor functions in the generated code are all generated within a
 // namespace specific to the format they're associated with. However, extractors
 // that don't conflict in the bits they select may be promoted to be generated
@@ -254,41 +271,47 @@ void Format::PropagateExtractorsUp() {
     fmt->PropagateExtractorsUp();
   }
   if (base_format_ != nullptr) {
-    // Try to propagate extractors up the inheritance tree.
+    // Try to propagate extractors up the inheritance tree. Those that have a
+    // nullptr have already failed to be promoted, and those that differ from
+    // the definition in a derived format cannot be promoted either.
     for (auto const& [name, field_or_format_ptr] : extractors_) {
-      // Ignore those that have a nullptr, they have already failed to be
-      // promoted.
-      if (field_or_format_ptr == nullptr) continue;
+      bool promote = (field_or_format_ptr != nullptr) &&
+                     (not_promoted_.find(name) == not_promoted_.end());
       auto iter = base_format_->extractors_.find(name);
-      // If it isn't in the parent, add it.
-      if (iter == base_format_->extractors_.end()) {
+      bool found = iter != base_format_->extractors_.end();
+      bool same = promote && found && (iter->second != nullptr) &&
+                  (*field_or_format_ptr == *(iter->second));
+      if (base_format_->DefinesName(name)) {
+        // The base format keeps its own extractor.
+        if (!same) base_format_->not_promoted_.insert(name);
+      } else if (!found) {
+        // If it isn't in the parent, add it.
         base_format_->extractors_.insert(
-            std::make_pair(name, field_or_format_ptr));
-      } else if (iter->second == nullptr) {
-        // Can't promote it, a previous attempt failed.
-        continue;
-      } else if (*field_or_format_ptr != *(iter->second)) {
+            std::make_pair(name, promote ? field_or_format_ptr : nullptr));
+      } else if (!same) {
         // If the base extractor refers to a different object, fail the
         // promotion.
-        base_format_->extractors_[name] = nullptr;
+        iter->second = nullptr;
       }
     }
     for (auto const& [name, overlay_ptr] : overlay_extractors_) {
-      // Ignore those that have a nullptr, they have already failed to be
-      // promoted.
-      if (overlay_ptr == nullptr) continue;
+      bool promote = (overlay_ptr != nullptr) &&
+                     (not_promoted_.find(name) == not_promoted_.end());
       auto iter = base_format_->overlay_extractors_.find(name);
-      // If it isn't in the parent, add it.
-      if (iter == base_format_->overlay_extractors_.end()) {
+      bool found = iter != base_format_->overlay_extractors_.end();
+      bool same = promote && found && (iter->second != nullptr) &&
+                  (*overlay_ptr == *(iter->second));
+      if (base_format_->DefinesName(name)) {
+        // The base format keeps its own extractor.
+        if (!same) base_format_->not_promoted_.insert(name);
+      } else if (!found) {
+        // If it isn't in the parent, add it.
         base_format_->overlay_extractors_.insert(
-            std::make_pair(name, overlay_ptr));
-      } else if (iter->second == nullptr) {
-        // Previous attempt fail, don't promote.
-        continue;
-      } else if (*overlay_ptr != *(iter->second)) {
+            std::make_pair(name, promote ? overlay_ptr : nullptr));
+      } else if (!same) {
         // If the base format extractor refers to a different overlay type,
         // fail the promotion.
-        base_format_->overlay_extractors_[name] = nullptr;
+        iter->second = nullptr;
       }
     }
   }
@@ -304,17 +327,17 @@ void Format::PropagateExtractorsDown() {
   auto e_iter = extractors_.begin();
   while (e_iter != extractors_.end()) {
     auto cur = e_iter++;
-    // Failed promotion from derived format extractors.
-    if (cur->second == nullptr) {
-      extractors_.erase(cur);
-      continue;
-    }
     // If the name exists in overlay extractors, erase both.
     if (overlay_extractors_.find(cur->first) != overlay_extractors_.end()) {
       overlay_extractors_.erase(cur->first);
       extractors_.erase(cur);
       continue;
     }
+    // Failed promotion from derived format extractors.
+    if (cur->second == nullptr) {
+      extractors_.erase(cur);
+      continue;
+    }
   }
   // Remove the overlay extractor entries with null ptrs.
   auto o_iter = overlay_extractors_.begin();
diff --git a/mpact/sim/decoder/format.h b/mpact/sim/decoder/format.h
index 36081f5..1213572 100644
--- a/mpact/sim/decoder/format.h
+++ b/mpact/sim/decoder/format.h
@@ -16,6 +16,7 @@
 // limitations under the License.
 
 #include <map>
+#include <set>
 #include <string>
 #include <vector>
 
@@ -175,6 +176,9 @@ class Format {
  private:
   bool HasExtract(const std::string& name) const;
   bool HasOverlayExtract(const std::string& name) const;
+  // True if the format itself defines a field, format reference or overlay
+  // with the given name.
+  bool DefinesName(absl::string_view name) const;
 
   // Extractor generators.
   std::string GeneratePackedStructTypes() const;
@@ -227,6 +231,9 @@ class Format {
   // when elements are erased.
   std::map<std::string, FieldOrFormat*> extractors_;
   std::map<std::string, Overlay*> overlay_extractors_;
+  // Names defined in this format that differ from the definition of the same
+  // name in a derived format.
+  std::set<std::string> not_promoted_;
 };
 
 }  // namespace bin_format
diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 8a83857..0d66252 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -215,6 +215,8 @@ absl::StatusOr<uint64_t> Overlay::GetBitField(uint64_t input) {
 }
 
 bool Overlay::operator==(const Overlay& rhs) const {
+  if (is_signed_ != rhs.is_signed_) return false;
+  if (declared_width_ != rhs.declared_width_) return false;
   if (declared_width_ > 64) {
     return WriteComplexValueExtractor("value", "result", "") ==
            rhs.WriteComplexValueExtractor("value", "result", "");
-- 
2.43.0


From 1474e23868c0e257cf78573b1f8d9b9b56a0daf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:38 +0000
Subject: [PATCH 057/129] fix: value ranges of constraints on fields and
 overlays wider than an int

---
 mpact/sim/decoder/instruction_encoding.cc | 33 +++++++++++++++--------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/mpact/sim/decoder/instruction_encoding.cc b/mpact/sim/decoder/instruction_encoding.cc
index 4940273..f5af759 100644
--- a/mpact/sim/decoder/instruction_encoding.cc
+++ b/mpact/sim/decoder/instruction_encoding.cc
@@ -29,6 +29,18 @@ namespace sim {
 namespace decoder {
 namespace bin_format {
 
+// Helper functions for the range of values of fields and overlays of the given
+// width in bits.
+static uint64_t MaxUnsignedValue(int width) {
+  return width >= 64 ? ~0ULL : (1ULL << width) - 1;
+}
+
+static int64_t MaxSignedValue(int width) {
+  return static_cast<int64_t>(MaxUnsignedValue(width) >> 1);
+}
+
+static int64_t MinSignedValue(int width) { return -MaxSignedValue(width) - 1; }
+
 InstructionEncoding::InstructionEncoding(std::string name, Format* format,
                                          bool is_duplicate)
     : name_(name), format_(format), is_duplicate_(is_duplicate) {
@@ -137,7 +149,8 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
     }
     bool is_signed = field->is_signed;
     if (!is_signed) {
-      if ((value < 0) || (value >= (1ULL << field->width))) {
+      if ((value < 0) ||
+          (static_cast<uint64_t>(value) > MaxUnsignedValue(field->width))) {
         return absl::OutOfRangeError(absl::StrCat(
             "Constraint value (", value, ") out of range for unsigned field '",
             field_name, "'"));
@@ -151,21 +164,20 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
       }
       // Check that the value is in range.
       if (value < 0) {
-        int64_t min_value = -(1 << (field->width - 1));
-        if (value < min_value) {
+        if (value < MinSignedValue(field->width)) {
           return absl::OutOfRangeError(absl::StrCat(
               "Constraint value (", value, ") out of range for signed field '",
               field_name, "'"));
         }
       } else {
-        if (value >= (1 << (field->width - 1))) {
+        if (value > MaxSignedValue(field->width)) {
           return absl::OutOfRangeError(absl::StrCat(
               "Constraint value (", value, ") out of range for signed field '",
               field_name, "'"));
         }
       }
     }
-    value &= (1 << field->width) - 1;
+    value &= MaxUnsignedValue(field->width);
     auto* constraint = new Constraint();
     constraint->type = type;
     constraint->field = field;
@@ -183,7 +195,8 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
   int width = overlay->computed_width();
   bool is_signed = overlay->is_signed();
   if (!is_signed) {
-    if ((value >= (1 << width)) || (value < 0)) {
+    if ((value < 0) ||
+        (static_cast<uint64_t>(value) > MaxUnsignedValue(width))) {
       return absl::OutOfRangeError(absl::StrCat(
           "Constraint value exceeds field width for field '", field_name, "'"));
     }
@@ -194,22 +207,20 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
                        field_name));
     }  // Check that the value is in range.
     if (value < 0) {
-      int64_t min_value = -(1 << (width - 1));
-      if (value < min_value) {
+      if (value < MinSignedValue(width)) {
         return absl::OutOfRangeError(absl::StrCat(
             "Constraint value (", value, ") out of range for signed overlay '",
             field_name, "'"));
       }
-      value = value & ((1 << width) - 1);
     } else {
-      if (value >= (1 << (width - 1))) {
+      if (value > MaxSignedValue(width)) {
         return absl::OutOfRangeError(absl::StrCat(
             "Constraint value (", value, ") out of range for signed overlay '",
             field_name, "'"));
       }
     }
   }
-  value &= (1 << width) - 1;
+  value &= MaxUnsignedValue(width);
   auto* constraint = new Constraint();
   constraint->type = type;
   constraint->overlay = overlay;
-- 
2.43.0


From 3fd3c2e8b97ec474b6f32c369af2ec7d039680e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 058/129] fix: decoders of instruction groups with several
 encoding groups do not compile

---
 mpact/sim/decoder/instruction_group.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/instruction_group.cc b/mpact/sim/decoder/instruction_group.cc
index e3684ea..bc3ca9f 100644
--- a/mpact/sim/decoder/instruction_group.cc
+++ b/mpact/sim/decoder/instruction_group.cc
@@ -215,10 +215,12 @@ std::tuple<std::string, std::string> InstructionGroup::EmitDecoderCode() {
     std::string name = absl::StrCat(this->name(), "_", absl::Hex(i));
     grp->EmitInitializers(name, &initializers, opcode_enum_);
     grp->EmitDecoders(name, &declarations, &definitions, opcode_enum_);
-    absl::StrAppend(&top_level_decoder, "  auto opcode = Decode", name,
+    // The result variables are declared at the first encoding group.
+    absl::string_view decl = (i == 0) ? "auto " : "";
+    absl::StrAppend(&top_level_decoder, "  ", decl, "opcode = Decode", name,
                     "(inst_word).first;\n");
-    absl::StrAppend(&w_format_top_level_decoder,
-                    "  auto opcode_format = Decode", name, "(inst_word);\n");
+    absl::StrAppend(&w_format_top_level_decoder, "  ", decl,
+                    "opcode_format = Decode", name, "(inst_word);\n");
     if (encoding_group_vec_.size() > 1) {
       absl::StrAppend(&top_level_decoder, "  if (opcode != ", opcode_enum_,
                       "::kNone) return opcode;\n");
-- 
2.43.0


From 7b09d8024f386cfc3d9bb00ac5d9ba64c72076d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:50 +0000
Subject: [PATCH 059/129] fix: specializations are lost or break the code of
 generated decoders

---
 mpact/sim/decoder/encoding_group.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/decoder/encoding_group.cc b/mpact/sim/decoder/encoding_group.cc
index 33cd871..42d0241 100644
--- a/mpact/sim/decoder/encoding_group.cc
+++ b/mpact/sim/decoder/encoding_group.cc
@@ -118,7 +118,9 @@ bool EncodingGroup::IsSimpleDecode() {
   for (auto* enc : encoding_vec_) {
     if (!enc->other_constraints().empty()) return false;
     if (!enc->equal_extracted_constraints().empty()) return false;
-    if (!enc->HasSpecialization()) return false;
+    if (enc->HasSpecialization()) return false;
+    // The table lookup only considers the bits in the mask of the group.
+    if ((enc->GetMask() & ~(mask_ | ignore_)) != 0) return false;
   }
   return discriminator_ == varying_;
 }
@@ -561,7 +563,6 @@ int EncodingGroup::EmitEncodingIfStatement(
       if (spec_count > 1) {
         absl::StrAppend(definitions_ptr, indent_str, if_str, "(",
                         spec_condition, ") {\n");
-        indent_str.append("  ");
       } else if (spec_count == 1) {
         absl::StrAppend(definitions_ptr, indent_str, if_str, spec_condition,
                         " {\n");
@@ -583,8 +584,11 @@ int EncodingGroup::EmitEncodingIfStatement(
     // Close the if statements.
     indent_str = indent_str.substr(2);
     absl::StrAppend(definitions_ptr, indent_str, "}\n");
-    indent_str = indent_str.substr(2);
-    absl::StrAppend(definitions_ptr, indent_str, "}\n");
+    // There is only an outer if statement if there are conditions.
+    if (count > 0) {
+      indent_str = indent_str.substr(2);
+      absl::StrAppend(definitions_ptr, indent_str, "}\n");
+    }
   }
   return count != 0 ? 1 : 0;
 }
-- 
2.43.0


From a5a5da15af17def285ff41f4647577afce264c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:39 +0000
Subject: [PATCH 060/129] fix: decoders mix up fields that have the same name
 in different formats

---
 mpact/sim/decoder/encoding_group.cc | 41 ++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/mpact/sim/decoder/encoding_group.cc b/mpact/sim/decoder/encoding_group.cc
index 42d0241..bac5a6d 100644
--- a/mpact/sim/decoder/encoding_group.cc
+++ b/mpact/sim/decoder/encoding_group.cc
@@ -59,6 +59,18 @@ static bool EncodingLess(uint64_t mask, InstructionEncoding* lhs,
   return lhs_val < rhs_val;
 }
 
+// Helper functions that return the name of the variable that holds the value of
+// a field or an overlay. Different formats may use the same name for different
+// bits, so the name of the format is part of the variable name.
+static std::string ValueName(const Field* field) {
+  return absl::StrCat(field->format->name(), "_", field->name, "_value");
+}
+
+static std::string ValueName(const Overlay* overlay) {
+  return absl::StrCat(overlay->format()->name(), "_", overlay->name(),
+                      "_value");
+}
+
 EncodingGroup::EncodingGroup(InstructionGroup* inst_group, uint64_t ignore)
     : EncodingGroup(nullptr, inst_group, ignore) {}
 
@@ -463,7 +475,7 @@ void EncodingGroup::ProcessConstraint(
   if (constraint->field != nullptr) {
     // Field constraint.
     Field* field = constraint->field;
-    std::string name = absl::StrCat(field->name, "_value");
+    std::string name = ValueName(field);
     if (extracted.contains(name)) return;
     uint64_t mask = ((1ULL << field->width) - 1);
     // If the bits in the field are already handled by a parent or
@@ -477,7 +489,7 @@ void EncodingGroup::ProcessConstraint(
 
   // It's an overlay constraint.
   Overlay* overlay = constraint->overlay;
-  std::string name = absl::StrCat(overlay->name(), "_value");
+  std::string name = ValueName(overlay);
   uint64_t mask = 0;
   // Get the bits that correspond to the overlay.
   auto result = overlay->GetBitField((1 << overlay->declared_width()) - 1);
@@ -597,7 +609,7 @@ void EncodingGroup::EmitFieldExtraction(
     const Field* field, const std::string& indent_str,
     absl::flat_hash_set<std::string>& extracted,
     std::string* definitions_ptr) const {
-  std::string name = absl::StrCat(field->name, "_value");
+  std::string name = ValueName(field);
   if (!extracted.contains(name)) {
     std::string data_type;
     if (field->width > inst_group_->width()) {
@@ -627,7 +639,7 @@ void EncodingGroup::EmitOverlayExtraction(
     const Overlay* overlay, const std::string& indent_str,
     absl::flat_hash_set<std::string>& extracted,
     std::string* definitions_ptr) const {
-  std::string name = absl::StrCat(overlay->name(), "_value");
+  std::string name = ValueName(overlay);
   if (!extracted.contains(name)) {
     auto ovl_width = overlay->declared_width();
     std::string data_type;
@@ -689,17 +701,15 @@ int EncodingGroup::EmitOtherConstraintConditions(
     if (constraint->can_ignore) continue;
 
     std::string comparison(kComparison[static_cast<int>(constraint->type)]);
-    std::string lhs_name = absl::StrCat((constraint->field != nullptr)
-                                            ? constraint->field->name
-                                            : constraint->overlay->name(),
-                                        "_value");
+    std::string lhs_name = (constraint->field != nullptr)
+                               ? ValueName(constraint->field)
+                               : ValueName(constraint->overlay);
     std::string rhs;
     if ((constraint->rhs_field != nullptr) ||
         (constraint->rhs_overlay != nullptr)) {
-      rhs = absl::StrCat((constraint->rhs_field != nullptr)
-                             ? constraint->rhs_field->name
-                             : constraint->rhs_overlay->name(),
-                         "_value");
+      rhs = (constraint->rhs_field != nullptr)
+                ? ValueName(constraint->rhs_field)
+                : ValueName(constraint->rhs_overlay);
     } else {
       rhs = absl::StrCat("0x", absl::Hex(constraint->value));
     }
@@ -719,10 +729,9 @@ int EncodingGroup::EmitConstraintConditions(
   for (auto const* constraint : constraints) {
     std::string comparison(kComparison[static_cast<int>(constraint->type)]);
     if (constraint->can_ignore) continue;
-    std::string name = absl::StrCat((constraint->field != nullptr)
-                                        ? constraint->field->name
-                                        : constraint->overlay->name(),
-                                    "_value");
+    std::string name = (constraint->field != nullptr)
+                           ? ValueName(constraint->field)
+                           : ValueName(constraint->overlay);
     absl::StrAppend(condition, connector, "(", name, " ", comparison, " 0x",
                     absl::Hex(constraint->value), ")");
     connector = " &&\n          ";
-- 
2.43.0


From 0e2b026120ecebb76a485648e483c7b9dbf3a786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:54 +0000
Subject: [PATCH 061/129] fix: decoders ignore constraints on overlays of 32 or
 more bits

---
 mpact/sim/decoder/encoding_group.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/encoding_group.cc b/mpact/sim/decoder/encoding_group.cc
index bac5a6d..2a6a1d7 100644
--- a/mpact/sim/decoder/encoding_group.cc
+++ b/mpact/sim/decoder/encoding_group.cc
@@ -492,7 +492,7 @@ void EncodingGroup::ProcessConstraint(
   std::string name = ValueName(overlay);
   uint64_t mask = 0;
   // Get the bits that correspond to the overlay.
-  auto result = overlay->GetBitField((1 << overlay->declared_width()) - 1);
+  auto result = overlay->GetBitField(~0ULL);
   if (result.ok()) {
     mask = result.value();
   } else {
-- 
2.43.0


From e6bbc2980029c2a755b19dc2fbb28e8bc6ab700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:25 +0000
Subject: [PATCH 062/129] fix: stale masks and values of instruction encodings

---
 mpact/sim/decoder/instruction_encoding.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/instruction_encoding.cc b/mpact/sim/decoder/instruction_encoding.cc
index f5af759..8d24626 100644
--- a/mpact/sim/decoder/instruction_encoding.cc
+++ b/mpact/sim/decoder/instruction_encoding.cc
@@ -252,6 +252,8 @@ absl::Status InstructionEncoding::AddEqualConstraint(std::string field_name,
 absl::Status InstructionEncoding::AddOtherConstraint(ConstraintType type,
                                                      std::string field_name,
                                                      int64_t value) {
+  // Invalidate the computed masks and values when a new constraint is added.
+  mask_set_ = false;
   auto res = CreateConstraint(type, field_name, value);
   if (!res.ok()) return res.status();
   auto* constraint = res.value();
@@ -262,6 +264,8 @@ absl::Status InstructionEncoding::AddOtherConstraint(ConstraintType type,
 absl::Status InstructionEncoding::AddOtherConstraint(
     ConstraintType type, const std::string& lhs_name,
     const std::string& rhs_name) {
+  // Invalidate the computed masks and values when a new constraint is added.
+  mask_set_ = false;
   auto res = CreateConstraint(type, lhs_name, rhs_name);
   if (!res.ok()) return res.status();
   auto* constraint = res.value();
@@ -272,6 +276,7 @@ absl::Status InstructionEncoding::AddOtherConstraint(
 absl::Status InstructionEncoding::ComputeMaskAndValue() {
   // First consider equal constraints.
   mask_ = 0;
+  value_ = 0;
   for (auto* constraint : equal_constraints_) {
     uint64_t mask = 0;
     uint64_t value = 0;
@@ -320,13 +325,12 @@ absl::Status InstructionEncoding::ComputeMaskAndValue() {
     // If the rhs is a field or overlay, add to the mask.
     if (constraint->rhs_field != nullptr) {
       int width = constraint->rhs_field->width;
-      mask &= (1LLU << width) - 1;
+      mask = (1LLU << width) - 1;
       int shift = constraint->rhs_field->low;
       mask <<= shift;
       other_mask_ |= mask;
     } else if (constraint->rhs_overlay != nullptr) {
-      mask &= constraint->rhs_overlay->mask();
-      other_mask_ |= mask;
+      other_mask_ |= constraint->rhs_overlay->mask();
     }
   }
   mask_set_ = true;
-- 
2.43.0


From 7ec7fc3ccd4c1c854fbaf28e62594d45b7794ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:58 +0000
Subject: [PATCH 063/129] fix: make DataBuffer::Get<N>() compile when it is
 used

The dependent type name was missing typename, so any instantiation of the
element-size span accessor was ill-formed.
---
 mpact/sim/generic/data_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/data_buffer.h b/mpact/sim/generic/data_buffer.h
index e06dcf4..16af9dc 100644
--- a/mpact/sim/generic/data_buffer.h
+++ b/mpact/sim/generic/data_buffer.h
@@ -196,7 +196,7 @@ class DataBuffer : public ReferenceCount {
   template <int N>
   inline absl::Span<typename internal::ElementTypeSelector<N>::type> Get()
       const {
-    return Get<internal::ElementTypeSelector<N>::type>();
+    return Get<typename internal::ElementTypeSelector<N>::type>();
   }
 
   // Return the data buffer as a span of elements of type ElementType.
-- 
2.43.0


From dd325792d32d3b7f6c125a047440506874e58385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:45 +0000
Subject: [PATCH 064/129] fix: intersection of half open constraint ranges

Whether the common end point of two ranges is included was decided from the
lower bound of the left range only: [5,5] and (5,10] were found to intersect,
(1,10] and [5,5] were not.
---
 mpact/sim/decoder/proto_constraint_value_set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/proto_constraint_value_set.cc b/mpact/sim/decoder/proto_constraint_value_set.cc
index 27e1910..b231986 100644
--- a/mpact/sim/decoder/proto_constraint_value_set.cc
+++ b/mpact/sim/decoder/proto_constraint_value_set.cc
@@ -249,7 +249,7 @@ ProtoConstraintValueSet::SubRange ProtoConstraintValueSet::IntersectSubrange(
   }
   // Check for a null set if max == min, but either endpoint is not included.
   if ((min_value == max_value) &&
-      !(subrange.max_included && lhs_subrange.min_included)) {
+      !(subrange.max_included && subrange.min_included)) {
     delete subrange.min;
     delete subrange.max;
     return {nullptr, false, nullptr, false};
-- 
2.43.0


From c5aa4cc8a07ba876f35c63b2d996111615c8a533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:45 +0000
Subject: [PATCH 065/129] fix: report an ordering constraint on a string
 instead of crashing

Such a set has no lower bound expression to take the type from.
---
 mpact/sim/decoder/proto_constraint_value_set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/proto_constraint_value_set.cc b/mpact/sim/decoder/proto_constraint_value_set.cc
index b231986..c67fae9 100644
--- a/mpact/sim/decoder/proto_constraint_value_set.cc
+++ b/mpact/sim/decoder/proto_constraint_value_set.cc
@@ -299,7 +299,7 @@ absl::Status ProtoConstraintValueSet::IntersectWith(
         "ProtoConstraintValueSet::IntersectWith: type error");
   }
   // Perform the intersections.
-  switch (subranges_.back().min->variant_type()) {
+  switch (lhs_expr->variant_type()) {
     case *ProtoValueIndex::kInt32:
       IntersectSubranges<int32_t>(subranges_, rhs.subranges_, new_subranges);
       break;
-- 
2.43.0


From 4dee83280966c296bbdbd7ace7f85fa7df4041d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:44 +0000
Subject: [PATCH 066/129] fix: global constants can be used in instruction
 expressions

---
 mpact/sim/decoder/instruction_set_visitor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index d6a0b21..5e6e6ec 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1060,6 +1060,9 @@ TemplateExpression* InstructionSetVisitor::VisitExpression(ExpressionCtx* ctx,
     if (inst != nullptr) {
       auto* op = inst->GetDestOp(ident);
       if (op == nullptr) {
+        auto* expr = GetConstExpression(ident);
+        if (expr != nullptr) return expr->DeepCopy();
+
         error_listener()->semanticError(
             file_names_[context_file_map_.at(ctx)], ctx->start,
             absl::StrCat("'", ident,
-- 
2.43.0


From f34f299a94f382c30fd2df7ecafbd673f2f7cc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:44 +0000
Subject: [PATCH 067/129] fix: binary numbers and digit separators in
 instruction set descriptions

---
 mpact/sim/decoder/instruction_set_visitor.cc | 24 +++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 5e6e6ec..2258a8e 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -34,6 +34,7 @@
 #include "absl/flags/flag.h"
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
+#include "absl/strings/match.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/string_view.h"
 #include "antlr4-runtime/ParserRuleContext.h"
@@ -57,6 +58,15 @@ namespace sim {
 namespace machine_description {
 namespace instruction_set {
 
+// Converts the text of a NUMBER token, i.e., a hexadecimal, octal, decimal or
+// binary number with optional digit separators.
+static int ParseNumber(std::string text) {
+  text.erase(std::remove(text.begin(), text.end(), '\''), text.end());
+  if (absl::StartsWith(text, "0b"))
+    return std::stoi(text.substr(2), nullptr, 2);
+  return std::stoi(text, nullptr, 0);
+}
+
 static absl::StatusOr<TemplateValue> AbsoluteValueTemplateFunc(
     TemplateInstantiationArgs* args) {
   if (args->size() != 1) {
@@ -504,9 +514,9 @@ std::vector<int> InstructionSetVisitor::VisitArraySpec(ArraySpecCtx* ctx) {
     // indices to the instances vector.
     int range_start;
     int range_end;
-    range_end = range_start = std::stoi(range_spec->range_start->getText());
+    range_end = range_start = ParseNumber(range_spec->range_start->getText());
     if (range_spec->range_end != nullptr) {
-      range_end = std::stoi(range_spec->range_end->getText());
+      range_end = ParseNumber(range_spec->range_end->getText());
     }
     for (int instance = range_start; instance <= range_end; instance++) {
       instances.push_back(instance);
@@ -779,7 +789,7 @@ void InstructionSetVisitor::VisitSlotDeclaration(
   }
   // Set the size if it is replicated.
   if (ctx->size_spec() != nullptr) {
-    int size = std::stoi(ctx->size_spec()->NUMBER()->getText(), nullptr, 0);
+    int size = ParseNumber(ctx->size_spec()->NUMBER()->getText());
     slot->set_size(size);
   }
   // Add the slot to the ISA.
@@ -833,7 +843,7 @@ void InstructionSetVisitor::VisitConstAndDefaultDecls(ConstAndDefaultCtx* ctx,
     return;
   }
   if (ctx->SIZE() != nullptr) {  // Default size.
-    int value = std::stoi(ctx->NUMBER()->getText(), nullptr, 0);
+    int value = ParseNumber(ctx->NUMBER()->getText());
     slot->set_default_instruction_size(value);
     return;
   }
@@ -1036,8 +1046,7 @@ TemplateExpression* InstructionSetVisitor::VisitExpression(ExpressionCtx* ctx,
   }
 
   if (ctx->NUMBER() != nullptr) {
-    auto* expr =
-        new TemplateConstant(std::stoi(ctx->NUMBER()->getText(), nullptr, 0));
+    auto* expr = new TemplateConstant(ParseNumber(ctx->NUMBER()->getText()));
     return expr;
   }
 
@@ -1651,8 +1660,7 @@ void InstructionSetVisitor::ProcessOpcodeSpec(
 
   // Get the size of the instruction if specified, otherwise use default size.
   if (opcode_ctx->size_spec() != nullptr) {
-    int size =
-        std::stoi(opcode_ctx->size_spec()->NUMBER()->getText(), nullptr, 0);
+    int size = ParseNumber(opcode_ctx->size_spec()->NUMBER()->getText());
     top->set_instruction_size(size);
   } else {
     top->set_instruction_size(slot->default_instruction_size());
-- 
2.43.0


From a2639f8a68a6ec9851808066378afefa0be19f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:44 +0000
Subject: [PATCH 068/129] fix: an instruction attribute without a value is set
 to 1

---
 mpact/sim/decoder/instruction_set_visitor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 2258a8e..95230d2 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1334,7 +1334,7 @@ void InstructionSetVisitor::VisitInstructionAttributeList(
       attributes.emplace(name, expr);
       continue;
     }
-    attributes.emplace(name, new TemplateConstant(0));
+    attributes.emplace(name, new TemplateConstant(1));
   }
   // Are we parsing attributes for an instruction?
   if (inst != nullptr) {
-- 
2.43.0


From 07390eb63f6c491e6aee2889dc84edae03645659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:45 +0000
Subject: [PATCH 069/129] fix: perform opcode overrides once all base slots
 have been inherited

---
 mpact/sim/decoder/instruction_set_visitor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 95230d2..91efde2 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1195,9 +1195,9 @@ void InstructionSetVisitor::VisitOpcodeList(OpcodeListCtx* ctx, Slot* slot) {
         }
       }
     }
-    // Perform the overrides.
-    PerformOpcodeOverrides(overridden_ops_set, slot);
   }
+  // Perform the overrides.
+  PerformOpcodeOverrides(overridden_ops_set, slot);
   // Add the declared opcodes.
   for (auto* inst : instruction_vec) {
     absl::Status status = slot->AppendInstruction(inst);
-- 
2.43.0


From e48493dbc4da9551d0d0704f0221d7e4d322d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:45 +0000
Subject: [PATCH 070/129] fix: resource expressions of templated slots cannot
 be evaluated

---
 mpact/sim/decoder/instruction_set.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set.cc b/mpact/sim/decoder/instruction_set.cc
index 796cc74..bdc4b85 100644
--- a/mpact/sim/decoder/instruction_set.cc
+++ b/mpact/sim/decoder/instruction_set.cc
@@ -105,6 +105,8 @@ Slot* InstructionSet::GetSlot(absl::string_view slot_name) const {
 
 absl::Status InstructionSet::AnalyzeResourceUse() {
   for (auto const* slot : slot_order_) {
+    // The expressions of templated slots may depend on the template formals.
+    if (slot->is_templated()) continue;
     for (auto& [unused, inst_ptr] : slot->instruction_map()) {
       for (auto const* def : inst_ptr->resource_acquire_vec()) {
         if (def->begin_expression != nullptr) {
-- 
2.43.0


From 7233a3326263c5db5a02aa3f06245bacbb566ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:45 +0000
Subject: [PATCH 071/129] fix: decode call generated for slot instances

---
 mpact/sim/decoder/instruction_set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/instruction_set.cc b/mpact/sim/decoder/instruction_set.cc
index bdc4b85..4da5b4e 100644
--- a/mpact/sim/decoder/instruction_set.cc
+++ b/mpact/sim/decoder/instruction_set.cc
@@ -428,7 +428,7 @@ std::string InstructionSet::GenerateClassDefinitions(
     } else {
       for (auto const index : instance_vec) {
         absl::StrAppend(&output, "  tmp_inst = ", slot_name,
-                        "_decoder_->Decode(address, encoding, , ", enum_name,
+                        "_decoder_->Decode(address, encoding, ", enum_name,
                         ", ", index,
                         ");\n"
                         "  if (tmp_inst != nullptr) size += tmp_inst->size();\n"
-- 
2.43.0


From c930e453142f23061c9892d53da538ec520bfbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:45 +0000
Subject: [PATCH 072/129] fix: code generated for arrays of complex resources

---
 mpact/sim/decoder/instruction_set_visitor.cc |  2 +-
 mpact/sim/decoder/slot.cc                    | 30 +++++++++-----------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 91efde2..d675a79 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -2374,7 +2374,7 @@ std::string InstructionSetVisitor::GenerateHdrFileProlog(
       "  virtual std::vector<ResourceOperandInterface *> "
       "GetComplexResourceOperands",
       "(", optional_instruction,
-      "SlotEnum slot, int entry, OpcodeEnum opcode, ComplexResourceEnum "
+      "SlotEnum slot, int entry, OpcodeEnum opcode, ListComplexResourceEnum "
       "resource_op, int begin, int end) { return {}; }\n");
   // For each operand type, declare the pure virtual method that returns the
   // given operand.
diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 85756e4..4d9e884 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -972,14 +972,13 @@ std::string Slot::GenerateResourceSetterFcn(
     }
     if (complex->is_array) {
       absl::StrAppend(
-          &output, "  auto res_op_vec = enc->GetComplexResourceOperands(",
+          &output, "  for (auto *op : enc->GetComplexResourceOperands(",
           optional_inst, "slot, entry, ", opcode_enum,
           ", ListComplexResourceEnum::k", complex->resource->pascal_name(),
-          *begin, ", ", *end, ");\n");
-      absl::StrAppend(&output,
-                      "  for (auto res_op : res_op_vec) {\n"
-                      "    inst->AppendResourceHold(res_op);\n"
-                      "  }\n");
+          ", ", *begin, ", ", *end,
+          ")) {\n"
+          "    inst->AppendResourceHold(op);\n"
+          "  }\n");
     } else {
       absl::StrAppend(&output, "  res_op = enc->GetComplexResourceOperand(",
                       optional_inst, "slot, entry, ", opcode_enum,
@@ -1077,17 +1076,14 @@ std::string Slot::GenerateResourceSetterFcn(
       int* begin = std::get_if<int>(&begin_value.value());
       int* end = std::get_if<int>(&end_value.value());
       if (complex->is_array) {
-        absl::StrAppend(&output,
-                        "  auto res_op_vec = "
-                        "enc->GetComplexResourceOperands(",
-                        optional_inst, "slot, entry, ", opcode_enum,
-                        ", ListComplexResourceEnum::k",
-                        complex->resource->pascal_name(), *begin, ", ", *end,
-                        ");\n");
-        absl::StrAppend(&output,
-                        "  for (auto res_op : res_op_vec) {\n"
-                        "    inst->AppendResourceHold(res_op);\n"
-                        "  }\n");
+        absl::StrAppend(
+            &output, "  for (auto *op : enc->GetComplexResourceOperands(",
+            optional_inst, "slot, entry, ", opcode_enum,
+            ", ListComplexResourceEnum::k", complex->resource->pascal_name(),
+            ", ", *begin, ", ", *end,
+            ")) {\n"
+            "    inst->AppendResourceHold(op);\n"
+            "  }\n");
       } else {
         absl::StrAppend(&output, "    res_op = enc->GetComplexResourceOperand(",
                         optional_inst, "slot, entry, ", opcode_enum,
-- 
2.43.0


From 4d13b509c97d8d551585d8720fb0efed9fef0f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:45 +0000
Subject: [PATCH 073/129] fix: latency of array operands in version 2 of the
 generated code

---
 mpact/sim/decoder/instruction_set_visitor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index d675a79..89346ec 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -2418,8 +2418,8 @@ std::string InstructionSetVisitor::GenerateHdrFileProlog(
       &output, "  virtual int GetLatency(", optional_instruction,
       "SlotEnum slot, int entry, OpcodeEnum "
       "opcode, DestOpEnum dest_op, int dest_no) { return 0; };\n",
-      "  virtual std::vector<int> GetLatency(SlotEnum slot, int entry, "
-      "OpcodeEnum "
+      "  virtual std::vector<int> GetLatency(", optional_instruction,
+      "SlotEnum slot, int entry, OpcodeEnum "
       "opcode, ListDestOpEnum dest_op, int dest_no) { return {0}; }\n");
 
   absl::StrAppend(&output, "};\n\n");
-- 
2.43.0


From 91a7bf10a198db1676d4e1b6356c2a4e40c3a9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:45 +0000
Subject: [PATCH 074/129] fix: acquired complex resources are acquired

---
 mpact/sim/decoder/slot.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 4d9e884..11b79d9 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -1082,7 +1082,7 @@ std::string Slot::GenerateResourceSetterFcn(
             ", ListComplexResourceEnum::k", complex->resource->pascal_name(),
             ", ", *begin, ", ", *end,
             ")) {\n"
-            "    inst->AppendResourceHold(op);\n"
+            "    inst->AppendResourceAcquire(op);\n"
             "  }\n");
       } else {
         absl::StrAppend(&output, "    res_op = enc->GetComplexResourceOperand(",
@@ -1092,7 +1092,7 @@ std::string Slot::GenerateResourceSetterFcn(
         absl::StrAppend(&output, *begin, ", ", *end, ");\n");
         absl::StrAppend(&output,
                         "  if (res_op != nullptr) {\n"
-                        "    inst->AppendResourceHold(res_op);\n"
+                        "    inst->AppendResourceAcquire(res_op);\n"
                         "  }\n");
       }
     }
-- 
2.43.0


From 3ff9150de144f774efe6ff05dc2bab4a016a7c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:45 +0000
Subject: [PATCH 075/129] fix: resource setters are shared only by instructions
 with the same resources

---
 mpact/sim/decoder/slot.cc | 72 +++------------------------------------
 mpact/sim/decoder/slot.h  |  2 --
 2 files changed, 4 insertions(+), 70 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 11b79d9..4273e39 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -814,77 +814,13 @@ std::string Slot::GenerateAssemblerFcn(const Instruction* inst,
   return output;
 }
 
-// Generate a string that is a unique identifier from the resources to
-// determine which instructions can share resource setter functions.
-std::string Slot::CreateResourceKey(
-    const std::vector<const ResourceReference*>& refs) const {
-  std::string key;
-  std::vector<const ResourceReference*> complex_refs;
-  std::vector<const ResourceReference*> simple_refs;
-  absl::btree_set<std::string> names;
-  // Iterate over use resources.
-  for (auto const* ref : refs) {
-    if (!ref->resource->is_simple()) {
-      complex_refs.push_back(ref);
-    } else {
-      simple_refs.push_back(ref);
-    }
-  }
-  // Simple use resources.
-  for (auto const* ref : simple_refs) {
-    std::string name = "S$";
-    if (ref->is_array) {
-      absl::StrAppend(&name, "[", ref->resource->pascal_name(), "]");
-    } else {
-      absl::StrAppend(&name, ref->resource->pascal_name());
-    }
-    names.insert(name);
-  }
-  std::string sep = "";
-  for (auto const& name : names) {
-    absl::StrAppend(&key, sep, name);
-    sep = "/";
-  }
-  names.clear();
-  absl::StrAppend(&key, ":");
-
-  // Complex use resources.
-  for (auto const* ref : complex_refs) {
-    std::string name = "C$";
-    if (ref->is_array) {
-      absl::StrAppend(&name, "[", ref->resource->pascal_name(), "]");
-    } else {
-      absl::StrAppend(&name, ref->resource->pascal_name());
-    }
-    auto begin_value = ref->begin_expression->GetValue();
-    if (!begin_value.ok()) {
-      absl::StrAppend(&name, "(?)");
-    } else {
-      absl::StrAppend(&name, *std::get_if<int>(&begin_value.value()));
-    }
-    auto end_value = ref->end_expression->GetValue();
-    if (!end_value.ok()) {
-      absl::StrAppend(&name, "(?)");
-    } else {
-      absl::StrAppend(&name, *std::get_if<int>(&end_value.value()));
-    }
-    names.insert(name);
-  }
-  sep = "";
-  for (auto const& name : names) {
-    absl::StrAppend(&key, sep, name);
-    sep = "/";
-  }
-  return key;
-}
-
 // Generate a resource setter function call for the resource "key" of the
 // given instruction. If a matching one does not exist, call to create such a
 // function.
 std::string Slot::GenerateResourceSetter(const Instruction* inst,
                                          absl::string_view encoding_type) {
-  std::string key = CreateResourceKey(inst->resource_use_vec());
-  absl::StrAppend(&key, ":", CreateResourceKey(inst->resource_acquire_vec()));
+  // Instructions can share a setter function only if it is identical.
+  std::string key = GenerateResourceSetterFcn("", inst, encoding_type);
   auto iter = resource_setter_name_map_->find(key);
   if (iter == resource_setter_name_map_->end()) {
     auto index = resource_setter_name_map_->size();
@@ -905,8 +841,8 @@ std::string Slot::GenerateResourceSetterFcn(
   std::string output;
   absl::StrAppend(&output, "void ", name, "(Instruction *inst, ", encoding_type,
                   " *enc, SlotEnum slot, int entry) {\n");
-  std::string opcode_name = inst->opcode()->pascal_name();
-  std::string opcode_enum = absl::StrCat("OpcodeEnum::k", opcode_name);
+  // The function may be shared by instructions with different opcodes.
+  std::string opcode_enum = "static_cast<OpcodeEnum>(inst->opcode())";
   if (!inst->resource_use_vec().empty() ||
       !inst->resource_acquire_vec().empty()) {
     absl::StrAppend(&output, "  ResourceOperandInterface *res_op;\n");
diff --git a/mpact/sim/decoder/slot.h b/mpact/sim/decoder/slot.h
index 640ff0c..b5b577e 100644
--- a/mpact/sim/decoder/slot.h
+++ b/mpact/sim/decoder/slot.h
@@ -181,8 +181,6 @@ class Slot {
                                        const Opcode* opcode) const;
   // These functions generate the functions that are called by the decoder to
   // set the instruction resources.
-  std::string CreateResourceKey(
-      const std::vector<const ResourceReference*>& refs) const;
   std::string GenerateResourceSetter(const Instruction* inst,
                                      absl::string_view encoding_type);
   std::string GenerateResourceSetterFcn(absl::string_view name,
-- 
2.43.0


From b9938fe52d6aa5fd1ce4a9ca8b7323875c0b6bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:45 +0000
Subject: [PATCH 076/129] fix: disassembly setters are shared only by
 instructions with the same format

---
 mpact/sim/decoder/slot.cc | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 4273e39..2edd66e 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -744,15 +744,8 @@ std::string Slot::GenerateDisasmSetterFcn(absl::string_view name,
 // given instruction. If a matching one does not exist, call to create such a
 // function.
 std::string Slot::GenerateDisassemblySetter(const Instruction* inst) {
-  std::string key;
-  // First combine the disassembly fragments.
-  for (auto const* format : inst->disasm_format_vec()) {
-    for (auto const& frag : format->format_fragment_vec) {
-      absl::StrAppend(&key, frag);
-    }
-  }
-  // Then add the resources.
-  absl::StrAppend(&key, ":", CreateOperandLookupKey(inst->opcode()));
+  // Instructions can share a setter function only if it is identical.
+  std::string key = GenerateDisasmSetterFcn("", inst);
   std::string func_name = absl::StrCat(
       pascal_name(), "Slot", inst->opcode()->pascal_name(), "SetDisasm");
   auto iter = disasm_setter_name_map_->find(key);
-- 
2.43.0


From 9a29a9fdc7b2cd40b58fe8b07e939829a7ce19af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:46 +0000
Subject: [PATCH 077/129] fix: attribute setters are shared only by
 instructions with the same attributes

---
 mpact/sim/decoder/slot.cc | 29 ++---------------------------
 mpact/sim/decoder/slot.h  |  1 -
 2 files changed, 2 insertions(+), 28 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 2edd66e..1c26554 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -226,32 +226,6 @@ bool Slot::HasInstruction(const std::string& opcode_name) const {
 
 static std::string indent_string(int n) { return std::string(n, ' '); }
 
-// Generates a string that is a unique key for the attributes to determine which
-// instructions can share attribute setter functions.
-std::string Slot::CreateAttributeLookupKey(const Instruction* inst) const {
-  std::string key;
-  int count = attribute_names_.size();
-  for (auto const& [name, expr] : inst->attribute_map()) {
-    count--;
-    std::string value;
-    auto result = expr->GetValue();
-    if (!result.ok()) {
-      absl::StrAppend(&key, name, "[e1]:");
-      continue;
-    }
-    auto* value_ptr = std::get_if<int>(&result.value());
-    if (value_ptr == nullptr) {
-      absl::StrAppend(&key, name, "[e2]:");
-      continue;
-    }
-    absl::StrAppend(&key, name, "[", *value_ptr, "]:");
-  }
-  for (int i = 0; i < count; ++i) {
-    absl::StrAppend(&key, "[]:");
-  }
-  return key;
-}
-
 // Generate the attribute setter function that matches the "key" of the given
 // instruction.
 std::string Slot::GenerateAttributeSetterFcn(absl::string_view name,
@@ -291,7 +265,8 @@ std::string Slot::GenerateAttributeSetterFcn(absl::string_view name,
 // Return a function call string that will set the attributes for the given
 // instruction. If no such appropriate function exists, create one.
 std::string Slot::GenerateAttributeSetter(const Instruction* inst) {
-  auto key = CreateAttributeLookupKey(inst);
+  // Instructions can share a setter function only if it is identical.
+  std::string key = GenerateAttributeSetterFcn("", inst);
   auto iter = attribute_setter_name_map_->find(key);
   if (iter == attribute_setter_name_map_->end()) {
     auto index = attribute_setter_name_map_->size();
diff --git a/mpact/sim/decoder/slot.h b/mpact/sim/decoder/slot.h
index b5b577e..1c071fe 100644
--- a/mpact/sim/decoder/slot.h
+++ b/mpact/sim/decoder/slot.h
@@ -196,7 +196,6 @@ class Slot {
   std::string GenerateAttributeSetter(const Instruction* inst);
   std::string GenerateAttributeSetterFcn(absl::string_view name,
                                          const Instruction* inst) const;
-  std::string CreateAttributeLookupKey(const Instruction* inst) const;
   // Generates a string that defines a global constexpr array of instruction
   // opcodes and instruction info structs. Also populates the setter function
   // string 'setter_functions_' with the setters.
-- 
2.43.0


From 235d0889835f1eda9789aca3ea3c3c0704145e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:46 +0000
Subject: [PATCH 078/129] fix: the array of attribute values is not leaked

---
 mpact/sim/decoder/slot.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 1c26554..4e58154 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -234,8 +234,8 @@ std::string Slot::GenerateAttributeSetterFcn(absl::string_view name,
   absl::StrAppend(&output, "void ", name, "(Instruction *inst) {\n");
   int size = attribute_names_.size();
   if (size > 0) {
-    // Allocate the array and initialize to zero.
-    absl::StrAppend(&output, "  int *attrs = new int[", size, "]{");
+    // The attribute values are copied by the instruction.
+    absl::StrAppend(&output, "  int attrs[", size, "] = {");
     for (auto const& attribute_name : attribute_names_) {
       auto it = inst->attribute_map().find(attribute_name);
       if (it == inst->attribute_map().end()) {
-- 
2.43.0


From 0d28072df20aecb2ee19e80c101d2a76a16b3966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:46 +0000
Subject: [PATCH 079/129] fix: disassembly of operands of the second child
 instruction

---
 mpact/sim/decoder/slot.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 4e58154..e0941f6 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -64,12 +64,10 @@ static absl::StatusOr<std::string> TranslateLocator(
     const OperandLocator& locator) {
   std::string code;
   absl::StrAppend(&code, "inst->");
-  if (locator.op_spec_number > 0) {
+  // Each child instruction is the child of the previous one.
+  for (int i = 0; i < locator.op_spec_number; i++) {
     absl::StrAppend(&code, "child()->");
   }
-  for (int i = 1; i < locator.op_spec_number; i++) {
-    absl::StrAppend(&code, "next()->");
-  }
   if (locator.type == 'p') {
     absl::StrAppend(&code, "Predicate()");
   } else if (locator.type == 's' || locator.type == 't') {
-- 
2.43.0


From 092b3a471a3690cde5a8355c023d98e8020710aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:46 +0000
Subject: [PATCH 080/129] fix: operands are numbered by their position

---
 mpact/sim/decoder/slot.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index e0941f6..3b108a3 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -1095,7 +1095,7 @@ std::string Slot::GenerateOperandSetterFcn(absl::string_view getter_name,
                       "  {\n"
                       "    auto vec = enc->GetSources",
                       "(", optional_inst, "slot, entry, opcode, ", src_op_enum,
-                      ", ", source_no,
+                      ", ", source_no++,
                       ");\n"
                       "    for (auto *op : vec) inst->AppendSource(op);\n"
                       "  }\n");
@@ -1149,7 +1149,6 @@ std::string Slot::GenerateOperandSetterFcn(absl::string_view getter_name,
       absl::StrAppend(&output, "  inst->AppendDestination(enc->GetDestination(",
                       optional_inst, "slot, entry, opcode, ", dest_op_enum,
                       ", ", dest_no, ", ", latency, "));\n");
-      dest_no++;
     }
     dest_no++;
   }
-- 
2.43.0


From 586f388b9f3fae6d1296150a17b668ef7e8118fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:46 +0000
Subject: [PATCH 081/129] fix: size of an instruction that cannot be decoded

---
 mpact/sim/decoder/opcode.h | 2 +-
 mpact/sim/decoder/slot.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/opcode.h b/mpact/sim/decoder/opcode.h
index ca04563..ba09c73 100644
--- a/mpact/sim/decoder/opcode.h
+++ b/mpact/sim/decoder/opcode.h
@@ -264,7 +264,7 @@ class Opcode {
 
  private:
   Opcode(absl::string_view name, int value);
-  int instruction_size_;
+  int instruction_size_ = 1;
   Opcode* child_ = nullptr;
   Opcode* parent_ = nullptr;
   std::string predicate_op_name_;
diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 3b108a3..2d7a958 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -1179,7 +1179,7 @@ std::string Slot::CreateFuncGetterGlobalArray(absl::string_view encoding_type) {
       GenerateResourceSetter(default_instruction_, encoding_type), ",\n",
       "    ", GenerateAttributeSetter(default_instruction_), ",\n",
       "    SemFuncSetter{", default_instruction_->semfunc_code_string(), "}, ",
-      default_instruction_->opcode()->instruction_size(), "}),\n");
+      default_instruction_size(), "}),\n");
   for (auto const& [unused, inst_ptr] : instruction_map_) {
     auto* instruction = inst_ptr;
     std::string opcode_name = instruction->opcode()->pascal_name();
-- 
2.43.0


From 66ee4104fc77453845d5c096f21d5b1aa81ad8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:46 +0000
Subject: [PATCH 082/129] fix: crash on resources or attributes of the default
 opcode

---
 mpact/sim/decoder/instruction_set_visitor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 89346ec..5c20733 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -912,6 +912,12 @@ void InstructionSetVisitor::VisitConstAndDefaultDecls(ConstAndDefaultCtx* ctx,
         continue;
       }
       // Semfunc spec.
+      if (attribute->semfunc_spec() == nullptr) {
+        error_listener()->semanticError(
+            file_names_[context_file_map_.at(ctx)], attribute->start,
+            "Only disasm and semfunc can be specified for the default opcode");
+        continue;
+      }
       // If a semfunc has already been declared, signal an error.
       if (has_semfunc) {
         error_listener()->semanticError(file_names_[context_file_map_.at(ctx)],
-- 
2.43.0


From e829c5e56851589d2c3a30470531548f718b9cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:59 +0000
Subject: [PATCH 083/129] fix: crash on a disassembly format with only the
 instruction address

---
 mpact/sim/decoder/slot.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 2d7a958..cb10144 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -409,8 +409,13 @@ std::tuple<std::string, std::vector<OperandLocator>> Slot::GenerateRegEx(
           absl::StrAppend(&output, "(?:");
         }
         std::string op_name = (*format_iter)->op_name;
-        absl::StrAppend(&output, "(\\S*?)");
-        opnd_locators.push_back(inst->opcode()->op_locator_map().at(op_name));
+        if (op_name.empty()) {
+          // The address only, there is no operand to capture.
+          absl::StrAppend(&output, "\\S*?");
+        } else {
+          absl::StrAppend(&output, "(\\S*?)");
+          opnd_locators.push_back(inst->opcode()->op_locator_map().at(op_name));
+        }
         if ((fragment_iter != fragment_end) && (!(*fragment_iter).empty())) {
           char c = (*fragment_iter)[0];
           // If the next fragment is not alnum or underscore, add a space
-- 
2.43.0


From 51512f0e10190ce73fb4e5224cb56d13671430dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:00 +0000
Subject: [PATCH 084/129] fix: keep adjacent tokens of generated opcodes apart
 and report syntax errors

---
 mpact/sim/decoder/instruction_set_visitor.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 5c20733..f25a0ec 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1881,7 +1881,11 @@ absl::Status InstructionSetVisitor::ProcessOpcodeGenerator(
     }
   }
   // Check that all binding variable references are valid.
-  std::string input_text = ctx->generator_opcode_spec_list()->getText();
+  // Use the source text, getText() leaves out the white space between tokens.
+  auto* spec_list = ctx->generator_opcode_spec_list();
+  std::string input_text =
+      spec_list->start->getInputStream()->getText(antlr4::misc::Interval(
+          spec_list->start->getStartIndex(), spec_list->stop->getStopIndex()));
   std::string::size_type start_pos = 0;
   auto pos = input_text.find_first_of('$', start_pos);
   while (pos != std::string::npos) {
@@ -1910,6 +1914,8 @@ absl::Status InstructionSetVisitor::ProcessOpcodeGenerator(
   // Parse and process the generated text.
   auto* parser = new IsaAntlrParserWrapper(generated_text);
   antlr_parser_wrappers_.push_back(parser);
+  parser->parser()->removeErrorListeners();
+  parser->parser()->addErrorListener(error_listener());
   // Parse the text starting at the opcode_spec_list rule.
   auto opcode_spec_vec = parser->parser()->opcode_spec_list()->opcode_spec();
   // Process the opcode spec.
-- 
2.43.0


From 531e8c45ca0b57c65133e0620e417b6c0eaece41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:17 +0000
Subject: [PATCH 085/129] fix: crash on an error in the cycles of a resource

---
 mpact/sim/decoder/instruction_set_visitor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index f25a0ec..e35156d 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1503,6 +1503,12 @@ InstructionSetVisitor::ProcessResourceReference(
         {resource_item->end_cycle, context_file_map_.at(slot->ctx())});
     end_expr = VisitExpression(resource_item->end_cycle, slot, inst);
   }
+  // Any error in the expressions has been reported already.
+  if ((begin_expr == nullptr) || (end_expr == nullptr)) {
+    delete begin_expr;
+    delete end_expr;
+    return return_value;
+  }
   auto* ref =
       new ResourceReference(resource, is_array, dest_op, begin_expr, end_expr);
   return std::optional<ResourceReference*>(ref);
-- 
2.43.0


From cb3546cfb2cc47519ea8db01ac8ea393dba30873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:43 +0000
Subject: [PATCH 086/129] fix: read digit separators and 64 bit values of
 numbers in binary format files

---
 mpact/sim/decoder/bin_format_visitor.cc | 45 +++++++++++++++++++++----
 mpact/sim/decoder/bin_format_visitor.h  |  1 +
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index b1903b8..7399e94 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -15,12 +15,15 @@
 #include "mpact/sim/decoder/bin_format_visitor.h"
 
 #include <algorithm>
+#include <cerrno>
 #include <cstdint>
+#include <cstdlib>
 #include <deque>
 #include <filesystem>  // NOLINT: third party.
 #include <fstream>
 #include <iostream>
 #include <istream>
+#include <limits>
 #include <list>
 #include <memory>
 #include <string>
@@ -507,19 +510,47 @@ BinaryNum BinFormatVisitor::ParseBinaryNum(TerminalNode* node) {
     value |= d - '0';
     width++;
   }
+  if (width > 64) {
+    error_listener_->semanticError(node->getSymbol(),
+                                   "Binary number string exceeds 64 bits");
+    return BinaryNum{/*value=*/0, /*width=*/-1};
+  }
   return BinaryNum{value, width};
 }
 
-// Parse a number string and return the value.
-int BinFormatVisitor::ConvertToInt(NumberCtx* ctx) {
+// Parse a number string and return the value. Report an error if it cannot be
+// represented.
+int64_t BinFormatVisitor::ConvertToInt64(NumberCtx* ctx) {
+  uint64_t value = 0;
   // Binary has to be handled separately.
   auto bin_number = ctx->BIN_NUMBER();
   if (bin_number != nullptr) {
-    return static_cast<int>(ParseBinaryNum(bin_number).value);
+    value = static_cast<uint64_t>(ParseBinaryNum(bin_number).value);
+  } else {
+    // Hex, octal and decimal. Digit separators are ignored.
+    std::string text = ctx->getText();
+    text.erase(std::remove(text.begin(), text.end(), '\''), text.end());
+    errno = 0;
+    value = std::strtoull(text.c_str(), nullptr, 0);
+    if (errno == ERANGE) value = std::numeric_limits<uint64_t>::max();
+  }
+  if (value > static_cast<uint64_t>(std::numeric_limits<int64_t>::max())) {
+    error_listener_->semanticError(
+        ctx->start, absl::StrCat("Number '", ctx->getText(), "' out of range"));
+    return 0;
+  }
+  return static_cast<int64_t>(value);
+}
+
+// Parse a number string, such as a width or a bit index, and return the value.
+int BinFormatVisitor::ConvertToInt(NumberCtx* ctx) {
+  int64_t value = ConvertToInt64(ctx);
+  if (value > std::numeric_limits<int>::max()) {
+    error_listener_->semanticError(
+        ctx->start, absl::StrCat("Number '", ctx->getText(), "' out of range"));
+    return 0;
   }
-  // Hex, octal and decimal.
-  int ret_val = std::stoi(ctx->getText(), nullptr, 0);
-  return ret_val;
+  return static_cast<int>(value);
 }
 
 std::unique_ptr<BinEncodingInfo> BinFormatVisitor::ProcessTopLevel(
@@ -1249,7 +1280,7 @@ void BinFormatVisitor::VisitConstraint(Format* format, FieldConstraintCtx* ctx,
         }
       }
     }
-    int value = ConvertToInt(ctx->number());
+    int64_t value = ConvertToInt64(ctx->number());
     if (constraint_type == ConstraintType::kEq) {
       status = inst_encoding->AddEqualConstraint(field_name, value);
     } else {
diff --git a/mpact/sim/decoder/bin_format_visitor.h b/mpact/sim/decoder/bin_format_visitor.h
index e1ba70f..7751059 100644
--- a/mpact/sim/decoder/bin_format_visitor.h
+++ b/mpact/sim/decoder/bin_format_visitor.h
@@ -118,6 +118,7 @@ class BinFormatVisitor {
   // Utility methods to parse certain nodes.
   BinaryNum ParseBinaryNum(TerminalNode* node);
   BitRange GetBitIndexRange(BitIndexRangeCtx* ctx);
+  int64_t ConvertToInt64(NumberCtx* ctx);
   int ConvertToInt(NumberCtx* ctx);
   // Methods that visit the nodes of the parse tree.
   std::unique_ptr<BinEncodingInfo> ProcessTopLevel(
-- 
2.43.0


From 8f288a12e19d9f5aa43cd5b3ef1da15d719a8d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:08 +0000
Subject: [PATCH 087/129] fix: report circular inheritance of formats

---
 mpact/sim/decoder/bin_format_visitor.cc | 8 ++++++++
 mpact/sim/decoder/bin_format_visitor.h  | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index 7399e94..4e3f21a 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -770,7 +770,15 @@ void BinFormatVisitor::VisitFormatDef(FormatDefCtx* ctx,
     if (parent_format == nullptr) {
       auto iter = format_decl_map_.find(parent_name);
       if (iter != format_decl_map_.end()) {
+        if (!inheriting_formats_.insert(ctx).second) {
+          error_listener_->semanticError(
+              file_names_[context_file_map_.at(ctx)],
+              ctx->inherits_from()->start,
+              absl::StrCat("Format '", format_name, "' inherits from itself"));
+          return;
+        }
         VisitFormatDef(iter->second, encoding_info);
+        inheriting_formats_.erase(ctx);
       }
       parent_format = encoding_info->GetFormat(parent_name);
     }
diff --git a/mpact/sim/decoder/bin_format_visitor.h b/mpact/sim/decoder/bin_format_visitor.h
index 7751059..ae5713f 100644
--- a/mpact/sim/decoder/bin_format_visitor.h
+++ b/mpact/sim/decoder/bin_format_visitor.h
@@ -176,6 +176,8 @@ class BinFormatVisitor {
   std::string decoder_name_;
   // Maps from identifiers to declaration contexts.
   absl::flat_hash_map<std::string, FormatDefCtx*> format_decl_map_;
+  // Formats whose parent format is being visited.
+  absl::flat_hash_set<const FormatDefCtx*> inheriting_formats_;
   absl::flat_hash_map<std::string, InstructionGroupDefCtx*> group_decl_map_;
   absl::flat_hash_map<std::string, DecoderDefCtx*> decoder_decl_map_;
   // AntlrParserWrapper vector.
-- 
2.43.0


From 049e79f0c9a8fee8efc713776c842555336b797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:08 +0000
Subject: [PATCH 088/129] fix: crash on an instruction group that uses an
 invalid format

---
 mpact/sim/decoder/bin_format_visitor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index 4e3f21a..1fb0b2b 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -998,6 +998,8 @@ InstructionGroup* BinFormatVisitor::VisitInstructionGroupDef(
     } else {
       VisitFormatDef(iter->second, encoding_info);
       auto* format = encoding_info->GetFormat(format_name);
+      // The errors in the format have already been reported.
+      if (format == nullptr) return nullptr;
       // Verify that the format width = declared width and also <= 64 bits wide.
       if (format->declared_width() != width) {
         error_listener_->semanticError(
-- 
2.43.0


From 3b2d6752d0b2f642b0c6f244514cf2b9dc9a304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:08 +0000
Subject: [PATCH 089/129] fix: crash on references to undefined formats and to
 wide formats in packed structs

---
 mpact/sim/decoder/bin_format_visitor.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index 1fb0b2b..52cc7b1 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -880,10 +880,16 @@ void BinFormatVisitor::VisitFieldDef(FieldDefCtx* ctx, Format* format,
     }
     format_ref = encoding_info->GetFormat(format_ref_name);
   }
+  if (format_ref == nullptr) {
+    error_listener_->semanticError(
+        file_names_[context_file_map_.at(ctx)], ctx->start,
+        absl::StrCat("Format '", format_ref_name, "' not defined"));
+    return;
+  }
   int width = format_ref->declared_width();
   if ((format->layout() == Format::Layout::kPackedStruct) && (width > 64)) {
     error_listener_->semanticError(
-        file_names_[context_file_map_.at(ctx)], ctx->index()->number()->start,
+        file_names_[context_file_map_.at(ctx)], ctx->start,
         "Formats used in packed struct layouts can not be > 64 bits");
     return;
   }
-- 
2.43.0


From 91665257c80222f405e4a502e007a98192460dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:49 +0000
Subject: [PATCH 090/129] fix: report syntax errors in generated instruction
 definitions

---
 mpact/sim/decoder/bin_format_visitor.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index 52cc7b1..b8e682f 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -1211,9 +1211,21 @@ void BinFormatVisitor::ProcessInstructionDefGenerator(
   // Parse and process the generated text.
   auto* parser = new BinFmtAntlrParserWrapper(generated_text);
   antlr_parser_wrappers_.push_back(parser);
+  parser->parser()->removeErrorListeners();
+  parser->parser()->addErrorListener(error_listener());
   // Parse the text starting at the opcode_spec_list rule.
   auto instruction_defs =
       parser->parser()->instruction_def_list()->instruction_def();
+  // All of the text has to be instruction definitions.
+  if (parser->parser()->getCurrentToken()->getText() != "<EOF>") {
+    error_listener()->semanticError(
+        file_names_[file_index], ctx->generator_instruction_def_list()->start,
+        "Generated text is not a list of instruction definitions");
+  }
+  if (error_listener()->HasError()) {
+    for (auto* info : range_info_vec) delete info;
+    return;
+  }
   // Process the opcode spec.
   for (auto* inst_def : instruction_defs) {
     context_file_map_.insert({inst_def, file_index});
-- 
2.43.0


From 3100ef540c14210b9b5fea5093f34ba2841c740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:12 +0000
Subject: [PATCH 091/129] fix: report generated text that is not a list of
 opcode specifications

---
 mpact/sim/decoder/instruction_set_visitor.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index e35156d..f96828a 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1924,6 +1924,13 @@ absl::Status InstructionSetVisitor::ProcessOpcodeGenerator(
   parser->parser()->addErrorListener(error_listener());
   // Parse the text starting at the opcode_spec_list rule.
   auto opcode_spec_vec = parser->parser()->opcode_spec_list()->opcode_spec();
+  // All of the text has to be opcode specifications.
+  if ((error_listener()->syntax_error_count() > 0) ||
+      (parser->parser()->getCurrentToken()->getText() != "<EOF>")) {
+    for (auto* info : range_info_vec) delete info;
+    return absl::InternalError(
+        "Generated text is not a list of opcode specifications");
+  }
   // Process the opcode spec.
   for (auto* opcode_spec : opcode_spec_vec) {
     ProcessOpcodeSpec(opcode_spec, slot, instruction_vec, deleted_ops_set,
-- 
2.43.0


From 6ca55a1146cde993337dbc58147144b80f4a1359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:14 +0000
Subject: [PATCH 092/129] fix: add specializations to every group they apply to

---
 mpact/sim/decoder/bin_format_visitor.cc | 62 +++++++++++++++++--------
 mpact/sim/decoder/bin_format_visitor.h  |  6 ++-
 2 files changed, 48 insertions(+), 20 deletions(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index b8e682f..c032671 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -1062,7 +1062,7 @@ void BinFormatVisitor::VisitInstructionDef(InstructionDefCtx* ctx,
   // for later processing when all the instructions have been processed.
   int file_index = context_file_map_.at(ctx);
   if (ctx->parent != nullptr) {
-    specializations_.push_back(ctx);
+    specializations_.emplace_back(ctx, inst_group);
     context_file_map_.insert({ctx, file_index});
     return;
   }
@@ -1510,6 +1510,7 @@ InstructionGroup* BinFormatVisitor::VisitInstructionGroupNameList(
   }
   auto parent_group = res.value();
   for (auto* child_group : child_groups) {
+    merged_groups_[child_group].push_back(parent_group);
     for (auto* encoding : child_group->encoding_vec()) {
       parent_group->AddInstructionEncoding(new InstructionEncoding(*encoding));
     }
@@ -1518,28 +1519,51 @@ InstructionGroup* BinFormatVisitor::VisitInstructionGroupNameList(
 }
 
 void BinFormatVisitor::ProcessSpecializations(BinEncodingInfo* encoding_info) {
-  for (auto* ctx : specializations_) {
+  for (auto& [ctx, inst_group] : specializations_) {
     auto file_index = context_file_map_.at(ctx);
     std::string name = ctx->name->getText();
     std::string parent_name = ctx->parent->getText();
-    for (auto& [unused, grp_ptr] : encoding_info->instruction_group_map()) {
-      auto iter = grp_ptr->encoding_name_map().find(parent_name);
-      if (iter != grp_ptr->encoding_name_map().end()) {
-        auto* parent_encoding = iter->second;
-        auto* format = parent_encoding->format();
-        auto* inst_encoding =
-            new InstructionEncoding(name, format, /*is_duplicate=*/false);
-        for (auto* constraint :
-             ctx->field_constraint_list()->field_constraint()) {
-          context_file_map_.insert({constraint, file_index});
-          VisitConstraint(format, constraint, inst_encoding);
-        }
-        if (!grp_ptr->AddSpecialization(name, parent_name, inst_encoding)
-                 .ok()) {
-          delete inst_encoding;
-          continue;
+    // The specialization applies to the parent in the group it is defined in,
+    // and in all the groups that group is merged into.
+    std::vector<InstructionGroup*> groups;
+    std::vector<InstructionGroup*> candidates = {inst_group};
+    for (size_t i = 0; i < candidates.size(); ++i) {
+      if (candidates[i]->encoding_name_map().contains(parent_name)) {
+        groups.push_back(candidates[i]);
+      }
+      auto iter = merged_groups_.find(candidates[i]);
+      if (iter == merged_groups_.end()) continue;
+      for (auto* merged_group : iter->second) {
+        candidates.push_back(merged_group);
+      }
+    }
+    // Otherwise look for the parent in the other groups.
+    if (groups.empty()) {
+      for (auto& [unused, grp_ptr] : encoding_info->instruction_group_map()) {
+        if (grp_ptr->encoding_name_map().contains(parent_name)) {
+          groups.push_back(grp_ptr);
+          break;
         }
-        break;
+      }
+    }
+    if (groups.empty()) {
+      error_listener_->semanticError(
+          file_names_[file_index], ctx->start,
+          absl::StrCat("Instruction '", parent_name, "' specialized by '", name,
+                       "' not defined"));
+      continue;
+    }
+    for (auto* group : groups) {
+      auto* format = group->encoding_name_map().at(parent_name)->format();
+      auto* inst_encoding =
+          new InstructionEncoding(name, format, /*is_duplicate=*/false);
+      for (auto* constraint :
+           ctx->field_constraint_list()->field_constraint()) {
+        context_file_map_.insert({constraint, file_index});
+        VisitConstraint(format, constraint, inst_encoding);
+      }
+      if (!group->AddSpecialization(name, parent_name, inst_encoding).ok()) {
+        delete inst_encoding;
       }
     }
   }
diff --git a/mpact/sim/decoder/bin_format_visitor.h b/mpact/sim/decoder/bin_format_visitor.h
index ae5713f..caad909 100644
--- a/mpact/sim/decoder/bin_format_visitor.h
+++ b/mpact/sim/decoder/bin_format_visitor.h
@@ -187,7 +187,11 @@ class BinFormatVisitor {
   // Set of include files marked as once.
   absl::flat_hash_set<std::string> once_include_files_;
   // Specializations to process after all instructions have been processed.
-  std::vector<InstructionDefCtx*> specializations_;
+  std::vector<std::pair<InstructionDefCtx*, InstructionGroup*>>
+      specializations_;
+  // Maps from an instruction group to the groups it has been merged into.
+  absl::flat_hash_map<InstructionGroup*, std::vector<InstructionGroup*>>
+      merged_groups_;
 };
 
 }  // namespace bin_format
-- 
2.43.0


From a24cc9d5a64e6630c18b22aeb133631d5f1d0618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:22 +0000
Subject: [PATCH 093/129] fix: specializations of instructions that are decoded
 by table lookup were lost

---
 mpact/sim/decoder/bin_format_visitor.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index c032671..b9ffd2b 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -215,13 +215,18 @@ absl::Status BinFormatVisitor::Process(
     LOG(ERROR) << "No encoding specified";
     return absl::InternalError("No encoding specified");
   }
-  PerformEncodingChecks(encoding_info.get());
   // Fail if there are errors.
   if (error_listener_->HasError() > 0) {
     return absl::InternalError("Errors encountered - terminating.");
   }
-  // Process specializations.
+  // Process specializations. This has to be done before the encodings are
+  // grouped, as that depends on which encodings have specializations.
   ProcessSpecializations(encoding_info.get());
+  int error_count = error_listener_->semantic_error_count();
+  PerformEncodingChecks(encoding_info.get());
+  if (error_listener_->semantic_error_count() > error_count) {
+    return absl::InternalError("Errors encountered - terminating.");
+  }
 
   // Create output streams for .h and .cc files.
   std::string dec_dot_h_name = absl::StrCat(prefix, "_bin_decoder.h");
-- 
2.43.0


From 69f22b1e520453c983661aaa4af70a009f6aee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:09 +0000
Subject: [PATCH 094/129] fix: report failed reads and writes of sockets, and
 complete partial writes

---
 mpact/sim/util/renode/socket_streambuf.h | 36 ++++++++++++++++++------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/util/renode/socket_streambuf.h b/mpact/sim/util/renode/socket_streambuf.h
index 5408563..ced1e2c 100644
--- a/mpact/sim/util/renode/socket_streambuf.h
+++ b/mpact/sim/util/renode/socket_streambuf.h
@@ -16,6 +16,7 @@
 
 #include <unistd.h>
 
+#include <cerrno>
 #include <cstdio>
 #include <streambuf>
 
@@ -40,26 +41,45 @@ class SocketStreambuf : public std::streambuf {
       return c;
     }
     if (c == '\xa') {
-      write(fd_, "\r\n", 2);
-      return c;
+      return Write("\r\n", 2) ? c : EOF;
     }
-    write(fd_, &c, 1);
-    return c;
+    char ch = static_cast<char>(c);
+    return Write(&ch, 1) ? c : EOF;
   }
 
   // On underflow read character from the socket fd.
   std::streambuf::int_type underflow() override {
-    int count = read(fd_, &ch_, 1);
-    if (count == 0) return traits_type::eof();
+    if (!Read()) return traits_type::eof();
     if (ch_ == '\r') {
-      count = read(fd_, &ch_, 1);
-      if (count == 0) return traits_type::eof();
+      if (!Read()) return traits_type::eof();
     }
     setg(&ch_, &ch_, &ch_ + 1);
     return traits_type::to_int_type(ch_);
   }
 
  private:
+  // Write all the characters to the socket fd. Returns false if that fails.
+  bool Write(const char* data, int size) {
+    while (size > 0) {
+      int count = write(fd_, data, size);
+      if ((count < 0) && (errno == EINTR)) continue;
+      if (count <= 0) return false;
+      data += count;
+      size -= count;
+    }
+    return true;
+  }
+
+  // Read the next character from the socket fd. Returns false at the end of the
+  // input, or if the read fails.
+  bool Read() {
+    int count;
+    do {
+      count = read(fd_, &ch_, 1);
+    } while ((count < 0) && (errno == EINTR));
+    return count == 1;
+  }
+
   char ch_;
   int fd_;
 };
-- 
2.43.0


From 266b74807fecf89de82c79ce8228b203b02e6e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:31 +0000
Subject: [PATCH 095/129] fix: close the sockets of the gdb server once, and
 report failed reads and writes

---
 mpact/sim/util/gdbserver/gdbserver.cc |  2 ++
 mpact/sim/util/gdbserver/gdbserver.h  | 28 +++++++++++++++++----------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 7325d9b..13c5d31 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -248,6 +248,7 @@ void GdbServer::Terminate() {
       (void)shutdown(cli_fd_, SHUT_RDWR);
       (void)close(cli_fd_);
     }
+    cli_fd_ = -1;
   }
   if (server_socket_ != -1) {
     int res = shutdown(server_socket_, SHUT_RDWR);
@@ -255,6 +256,7 @@ void GdbServer::Terminate() {
     if (res >= 0) {
       (void)close(server_socket_);
     }
+    server_socket_ = -1;
   }
   good_ = false;
 }
diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index c1e3b4d..9957669 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -19,6 +19,9 @@
 #ifndef MPACT_SIM_UTIL_GDBSERVER_GDBSERVER_H_
 #define MPACT_SIM_UTIL_GDBSERVER_GDBSERVER_H_
 
+#include <unistd.h>
+
+#include <cerrno>
 #include <cstdint>
 #include <cstdio>
 #include <istream>
@@ -42,26 +45,31 @@ using ::mpact::sim::generic::DebugInfo;
 // descriptor, so that it can be used to access a socket as an istream/ostream.
 // The overflow and underflow methods are the bare minimum that's required to
 // implement to make this happen. No buffering is performed. This streambuf
-// does not expand \n to \r\n or vice versa.
+// does not expand \n to \r\n or vice versa. The file descriptor is not owned by
+// the streambuf.
 class GdbSocketStreambuf : public std::streambuf {
  public:
   explicit GdbSocketStreambuf(int fd) : fd_(fd) {}
-  ~GdbSocketStreambuf() override { close(fd_); }
+  ~GdbSocketStreambuf() override = default;
 
   // On overflow write character to the socket fd.
   int overflow(int c) override {
-    if (c == EOF) {
-      close(fd_);
-      return c;
-    }
-    write(fd_, &c, 1);
-    return c;
+    if (c == EOF) return c;
+    char ch = static_cast<char>(c);
+    int count;
+    do {
+      count = write(fd_, &ch, 1);
+    } while ((count < 0) && (errno == EINTR));
+    return count == 1 ? c : EOF;
   }
 
   // On underflow read character from the socket fd.
   std::streambuf::int_type underflow() override {
-    int count = read(fd_, &ch_, 1);
-    if (count == 0) return traits_type::eof();
+    int count;
+    do {
+      count = read(fd_, &ch_, 1);
+    } while ((count < 0) && (errno == EINTR));
+    if (count != 1) return traits_type::eof();
     setg(&ch_, &ch_, &ch_ + 1);
     return traits_type::to_int_type(ch_);
   }
-- 
2.43.0


From 3d25d334a3145b78112a844efffac0dd1c6518cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:31 +0000
Subject: [PATCH 096/129] fix: do not write packets that are too long past the
 end of the buffer

---
 mpact/sim/util/gdbserver/gdbserver.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 13c5d31..c1e5ac0 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -212,8 +212,13 @@ bool GdbServer::Connect(int port) {
       return false;
     }
     buffer_[buffer_pos++] = val;
-    // Next read the command until we see a '#'.
+    // Next read the command until we see a '#'. Leave room for the checksum.
     do {
+      if (buffer_pos + 3 > sizeof(buffer_)) {
+        LOG(ERROR) << absl::StrFormat("Command too long on port %d", port);
+        Terminate();
+        return false;
+      }
       val = is_->get();
       if (!is_->good()) {
         LOG(ERROR) << absl::StrFormat(
-- 
2.43.0


From 55bd4589d922320ab12c683a7f16a067fc2113f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:31 +0000
Subject: [PATCH 097/129] fix: an escaped byte in a gdb packet stands for a
 single byte

---
 mpact/sim/util/gdbserver/gdbserver.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index c1e5ac0..baf24bb 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -58,8 +58,9 @@ std::string UnescapeCommand(std::string_view escaped_command) {
   for (int i = 0; i < escaped_command.size(); ++i) {
     char c = escaped_command[i];
     if (c == 0x7d) {
-      c = escaped_command[++i] ^ 0x20;
-      command.push_back(c);
+      // Ignore an escape character with nothing to escape.
+      if (++i == escaped_command.size()) break;
+      c = escaped_command[i] ^ 0x20;
     }
     command.push_back(c);
   }
-- 
2.43.0


From 00a97dfdd9da587b785cbbfb10d3ed3bd380427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:31 +0000
Subject: [PATCH 098/129] fix: report the end of the program as a valid exit
 packet

---
 mpact/sim/util/gdbserver/gdbserver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index baf24bb..77ebaf2 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -594,8 +594,8 @@ std::string GdbServer::GetHaltReason(int thread_id) {
       break;
     case *HaltReason::kProgramDone:
     case *HaltReason::kSemihostHaltRequest:
-      halt_reason_str = "W00thread:1;";
-      break;
+      // The exit packet does not have any other fields.
+      return "W00";
   }
   return absl::StrCat(halt_reason_str, encoded_pc);
 }
-- 
2.43.0


From c3a3e1f3f4caabac76927b0ef1c55d8c495fa2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:31 +0000
Subject: [PATCH 099/129] fix: send the address of the access in watchpoint
 stop replies

---
 mpact/sim/util/gdbserver/gdbserver.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 77ebaf2..dee2ec9 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -780,17 +780,20 @@ void GdbServer::GdbVContinue(std::string_view command) {
       return Respond("T05thread:1;hwbreak:;");
     case *HaltReason::kDataWatchPoint: {
       core_debug_interfaces_[0]->GetWatchpointInfo(address, access_type);
-      std::string encoded_address =
-          HexEncodeNumberInTargetEndianness(debug_info_.GetGprWidth(), address);
+      // The address is sent as a number, most significant digit first.
+      std::string encoded_address = absl::StrCat(absl::Hex(address));
       // Need to differentiate between write (watch), read (rwatch), and
       // read/write (awatch) watch points.
       switch (access_type) {
         case generic::AccessType::kLoad:
-          return Respond(absl::StrCat("T05thread:1;rwatch:;", encoded_pc));
+          return Respond(absl::StrCat("T05thread:1;rwatch:", encoded_address,
+                                      ";", encoded_pc));
         case generic::AccessType::kStore:
-          return Respond(absl::StrCat("T05thread:1;watch:;", encoded_pc));
+          return Respond(absl::StrCat("T05thread:1;watch:", encoded_address,
+                                      ";", encoded_pc));
         case generic::AccessType::kLoadStore:
-          return Respond(absl::StrCat("T05thread:1;awatch:;", encoded_pc));
+          return Respond(absl::StrCat("T05thread:1;awatch:", encoded_address,
+                                      ";", encoded_pc));
         default:
           LOG(ERROR) << "Invalid access type: "
                      << static_cast<int>(access_type);
-- 
2.43.0


From 4d986533713e4ebbf007b5f8f5a5242bdc5028ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:30 +0000
Subject: [PATCH 100/129] fix: refuse gdb commands for threads that do not
 exist

---
 mpact/sim/util/gdbserver/gdbserver.cc | 16 ++++++++++++++--
 mpact/sim/util/gdbserver/gdbserver.h  |  3 +++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index dee2ec9..e35c369 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -316,15 +316,19 @@ int GdbServer::GetThreadId(char command_type, std::string_view command) {
       bool success = absl::SimpleAtoi(thread_id_str, &thread_id);
       if (!success) {
         LOG(ERROR) << absl::StrFormat("Invalid thread id: '%s'", thread_id_str);
-        return 1;
+        return 0;
       }
       return thread_id;
     }
     LOG(ERROR) << absl::StrFormat("Invalid thread id: '%s'", command);
-    return 1;
+    return 0;
   }
 }
 
+bool GdbServer::IsValidThreadId(int thread_id) const {
+  return (thread_id >= 1) && (thread_id <= core_debug_interfaces_.size());
+}
+
 void GdbServer::AcceptGdbCommand(std::string_view command) {
   if (log_packets_) {
     LOG(INFO) << absl::StrFormat("Received: '%s'", command);
@@ -603,6 +607,7 @@ std::string GdbServer::GetHaltReason(int thread_id) {
 void GdbServer::GdbHaltReason() { Respond(GetHaltReason(0)); }
 
 void GdbServer::GdbContinue(int thread_id, std::string_view command) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   // If the core is halted due to program done, then just respond with W00.
   if (halt_reasons_[thread_index] == *HaltReason::kProgramDone) {
@@ -818,6 +823,7 @@ void GdbServer::GdbDetach() {
 
 void GdbServer::GdbSelectThread(std::string_view command) {
   int thread_id;
+  if (command.empty()) return SendError("invalid thread id");
   char op = command.front();
   command.remove_prefix(1);
   if (command == "-1") {
@@ -829,6 +835,7 @@ void GdbServer::GdbSelectThread(std::string_view command) {
     }
   }
   if (thread_id == 0) thread_id = 1;
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   thread_select_[op] = thread_id;
   Respond("OK");
 }
@@ -949,6 +956,7 @@ void GdbServer::GdbWriteMemory(std::string_view address_str,
 }
 
 void GdbServer::GdbReadGprRegisters(int thread_id) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   std::string response;
   for (int i = debug_info_.GetFirstGpr(); i <= debug_info_.GetLastGpr(); ++i) {
@@ -971,6 +979,7 @@ void GdbServer::GdbReadGprRegisters(int thread_id) {
 }
 
 void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   for (int i = debug_info_.GetFirstGpr(); i <= debug_info_.GetLastGpr(); ++i) {
     auto it = debug_info_.debug_register_map().find(i);
@@ -998,6 +1007,7 @@ void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
 
 void GdbServer::GdbReadRegister(int thread_id,
                                 std::string_view register_number_str) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   uint64_t register_number;
   bool success = absl::SimpleHexAtoi(register_number_str, &register_number);
@@ -1054,6 +1064,7 @@ void GdbServer::GdbReadRegister(int thread_id,
 void GdbServer::GdbWriteRegister(int thread_id,
                                  std::string_view register_number_str,
                                  std::string_view register_value_str) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   uint64_t register_number;
   bool success = absl::SimpleHexAtoi(register_number_str, &register_number);
@@ -1168,6 +1179,7 @@ void GdbServer::GdbSet(std::string_view command) {
 }
 
 void GdbServer::GdbStep(int thread_id) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   auto result = core_debug_interfaces_[thread_index]->Step(1);
   if (!result.ok()) {
diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index 9957669..b1255ab 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -109,7 +109,10 @@ class GdbServer {
   // Sends the given error message to the GDB client in an error packet.
   void SendError(std::string_view error);
 
+  // Returns the id of the thread the command applies to. The id has to be
+  // checked with IsValidThreadId before it is used.
   int GetThreadId(char command_type, std::string_view command);
+  bool IsValidThreadId(int thread_id) const;
   // Takes a GDB command string, verifies the checksum, and if it is valid,
   // then submits the command to be parsed.
   void AcceptGdbCommand(std::string_view command);
-- 
2.43.0


From 9b634f8f75406d6e3fc859d037439c3ddf271571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:30 +0000
Subject: [PATCH 101/129] fix: vCont actions without a thread id apply to all
 other threads

---
 mpact/sim/util/gdbserver/gdbserver.cc | 47 ++++++++++++++-------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index e35c369..e7707d1 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -700,39 +700,42 @@ void GdbServer::GdbVContinue(std::string_view command) {
   if (command == "?") {
     return Respond("vCont;c;s;");
   }
-  if (command.front() != ';') {
+  if (!absl::StartsWith(command, ";")) {
     return SendError("invalid vCont command");
   }
   command.remove_prefix(1);
+  // Determine the action for each thread before starting any of them. An action
+  // without a thread id, or with the thread id -1, applies to all threads. If
+  // there is more than one action for a thread, the first one is used.
+  std::vector<char> actions(core_debug_interfaces_.size(), '\0');
   std::vector<std::string> parts = absl::StrSplit(command, ';');
   for (std::string& part : parts) {
     std::string_view part_view = part;
     std::string_view action = part_view.substr(0, 1);
-    // Get the thread id.
-    std::string_view tid_str = part_view.substr(part.find(':') + 1);
-    // If the tread id is -1, then apply the action to all threads.
-    if (tid_str == "-1") {  // all threads
-      if (action == "c") {  // continue
-        for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
-          ContinueThread(tid);
-        }
-      } else if (action == "s") {  // step
-        for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
-          StepThread(tid);
-        }
+    if ((action != "c") && (action != "s")) {
+      return SendError("invalid vCont action");
+    }
+    std::string_view tid_str = part_view.substr(1);
+    int first_tid = 1;
+    int last_tid = core_debug_interfaces_.size();
+    if (!tid_str.empty() && (tid_str != ":-1")) {
+      int tid;
+      if ((tid_str.front() != ':') ||
+          !absl::SimpleHexAtoi(tid_str.substr(1), &tid) ||
+          !IsValidThreadId(tid)) {
+        return SendError("invalid thread id");
       }
-      continue;
+      first_tid = tid;
+      last_tid = tid;
     }
-    // Otherwise, apply the action to the specified thread.
-    int tid;
-    bool success = absl::SimpleHexAtoi(tid_str, &tid);
-    if (!success || (tid > core_debug_interfaces_.size())) {
-      SendError("invalid thread id");
-      return;
+    for (int tid = first_tid; tid <= last_tid; ++tid) {
+      if (actions[tid - 1] == '\0') actions[tid - 1] = action.front();
     }
-    if (action == "c") {
+  }
+  for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
+    if (actions[tid - 1] == 'c') {
       ContinueThread(tid);
-    } else if (action == "s") {
+    } else if (actions[tid - 1] == 's') {
       StepThread(tid);
     }
   }
-- 
2.43.0


From 14761e087575566d90098ab420411a406b09bffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:30 +0000
Subject: [PATCH 102/129] fix: refuse malformed hexadecimal data in gdb
 commands

---
 mpact/sim/util/gdbserver/gdbserver.cc | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index e7707d1..92700cf 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -33,6 +33,7 @@
 #include "absl/flags/flag.h"
 #include "absl/log/log.h"
 #include "absl/status/status.h"
+#include "absl/strings/ascii.h"
 #include "absl/strings/match.h"
 #include "absl/strings/numbers.h"
 #include "absl/strings/str_cat.h"
@@ -67,6 +68,16 @@ std::string UnescapeCommand(std::string_view escaped_command) {
   return command;
 }
 
+// Returns true if the data consists of bytes that are encoded as pairs of
+// hexadecimal digits.
+bool IsHexEncoded(std::string_view data) {
+  if (data.size() % 2 != 0) return false;
+  for (char c : data) {
+    if (!absl::ascii_isxdigit(static_cast<unsigned char>(c))) return false;
+  }
+  return true;
+}
+
 }  // namespace
 
 namespace mpact::sim::util::gdbserver {
@@ -922,6 +933,13 @@ void GdbServer::GdbWriteMemory(std::string_view address_str,
     }
     return Respond("E01");
   }
+  if (!IsHexEncoded(data)) {
+    LOG(ERROR) << "Invalid memory write data";
+    if (error_message_supported_) {
+      return SendError("invalid memory write data");
+    }
+    return Respond("E01");
+  }
   int num_bytes = 0;
   for (int i = 0; (i < length) && (data.size() >= 2); ++i) {
     num_bytes++;
@@ -984,6 +1002,10 @@ void GdbServer::GdbReadGprRegisters(int thread_id) {
 void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
   if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
+  if (!IsHexEncoded(data)) {
+    LOG(ERROR) << "Invalid data format";
+    return SendError("Invalid data format");
+  }
   for (int i = debug_info_.GetFirstGpr(); i <= debug_info_.GetLastGpr(); ++i) {
     auto it = debug_info_.debug_register_map().find(i);
     if (it == debug_info_.debug_register_map().end()) {
@@ -1069,6 +1091,10 @@ void GdbServer::GdbWriteRegister(int thread_id,
                                  std::string_view register_value_str) {
   if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
+  if (!IsHexEncoded(register_value_str)) {
+    LOG(ERROR) << "Invalid register value: " << register_value_str;
+    return SendError("invalid register value");
+  }
   uint64_t register_number;
   bool success = absl::SimpleHexAtoi(register_number_str, &register_number);
   if (!success) {
-- 
2.43.0


From b52c905fc7cff7bc4d10e4026612aa119f763002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:30 +0000
Subject: [PATCH 103/129] fix: writing all registers skips gaps, and reports
 registers that fail

---
 mpact/sim/util/gdbserver/gdbserver.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 92700cf..90856d9 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -1008,13 +1008,16 @@ void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
   }
   for (int i = debug_info_.GetFirstGpr(); i <= debug_info_.GetLastGpr(); ++i) {
     auto it = debug_info_.debug_register_map().find(i);
-    if (it == debug_info_.debug_register_map().end()) {
-      LOG(ERROR) << "Internal error - failed to find register";
-      return SendError("Internal error - failed to find register");
-    }
+    // If the register is not found, go to the next one (assume there is a
+    // gap in the register numbers).
+    if (it == debug_info_.debug_register_map().end()) continue;
     const std::string& register_name = it->second;
     auto result = core_debug_interfaces_[thread_index]->GetRegisterDataBuffer(
         register_name);
+    if (!result.ok()) {
+      LOG(ERROR) << "Failed to write register: " << result.status().message();
+      return SendError(result.status().message());
+    }
     for (auto& byte : result.value()->Get<uint8_t>()) {
       if (data.empty()) {
         LOG(ERROR) << "Invalid data format";
-- 
2.43.0


From b7a6ef27eebf2d6c7b0e4d553dde550ae7c457b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:12 +0000
Subject: [PATCH 104/129] fix: escape the special characters in gdb replies

---
 mpact/sim/util/gdbserver/gdbserver.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 90856d9..d416054 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -278,7 +278,16 @@ void GdbServer::Terminate() {
   good_ = false;
 }
 
-void GdbServer::Respond(std::string_view response) {
+void GdbServer::Respond(std::string_view unescaped_response) {
+  // Escape the characters that have a special meaning in packets.
+  std::string response;
+  for (char c : unescaped_response) {
+    if ((c == '#') || (c == '$') || (c == '*') || (c == '}')) {
+      response.push_back(0x7d);
+      c ^= 0x20;
+    }
+    response.push_back(c);
+  }
   // Compute the checksum of the response.
   uint8_t checksum = 0;
   for (char c : response) {
-- 
2.43.0


From f8effe4060996821cce58b770a581f340b33d78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:34 +0000
Subject: [PATCH 105/129] fix: the scratch register of the uart was not
 initialised

---
 mpact/sim/util/other/simple_uart.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/other/simple_uart.h b/mpact/sim/util/other/simple_uart.h
index 3cff450..2dd4bb9 100644
--- a/mpact/sim/util/other/simple_uart.h
+++ b/mpact/sim/util/other/simple_uart.h
@@ -64,7 +64,7 @@ class SimpleUart : public MemoryInterface {
   uint32_t divisor_high_byte_ = 0;
   uint32_t divisor_low_byte_ = 0;
   uint32_t interrupt_enable_ = 0;
-  uint32_t scratch_;
+  uint32_t scratch_ = 0;
   std::ostream* output_;
 };
 
-- 
2.43.0


From 8c5f49e239a434f928d79a1b50f0e405e48263e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:28 +0000
Subject: [PATCH 106/129] fix: instruction profiles include the last
 instructions of each range

---
 mpact/sim/util/other/instruction_profiler.cc | 26 +++++++++++---------
 mpact/sim/util/other/instruction_profiler.h  |  2 +-
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/mpact/sim/util/other/instruction_profiler.cc b/mpact/sim/util/other/instruction_profiler.cc
index 966dea3..1d5204d 100644
--- a/mpact/sim/util/other/instruction_profiler.cc
+++ b/mpact/sim/util/other/instruction_profiler.cc
@@ -75,8 +75,9 @@ void InstructionProfiler::AddSampleInternal(uint64_t sample) {
 void InstructionProfiler::WriteProfile(std::ostream& os) {
   os << "Address,Count" << "\n";
   for (auto const& [range, counters] : profile_ranges_) {
-    uint64_t size = range.end - range.start;
-    for (auto i = 0; i < size; ++i) {
+    // The end of the range is inclusive.
+    uint64_t size = range.end - range.start + 1;
+    for (uint64_t i = 0; i < size; ++i) {
       if (counters[i] == 0) continue;
       os << absl::StrFormat("0x%llx,%llu\n", (range.start + i) << shift_,
                             counters[i]);
@@ -96,35 +97,38 @@ void InstructionProfiler::SetElfLoader(ElfProgramLoader* elf_loader) {
     // Only consider segments that are loaded, executable, and with size > 0.
     if (segment->get_type() != ELFIO::PT_LOAD) continue;
     if ((segment->get_flags() & ELFIO::PF_X) == 0) continue;
-    uint64_t size = segment->get_memory_size() >> shift_;
+    uint64_t size = segment->get_memory_size();
     if (size == 0) continue;
 
-    uint64_t vaddr_begin = segment->get_virtual_address() >> shift_;
+    // Include the buckets that are only partially covered by the segment.
+    uint64_t vaddr = segment->get_virtual_address();
+    uint64_t vaddr_begin = vaddr >> shift_;
+    uint64_t vaddr_end = ((vaddr + size - 1) >> shift_) + 1;
     // If it's the first time we see a segment, just get the start and end
     // values.
     if (begin == 0 && end == 0) {
       begin = vaddr_begin;
-      end = vaddr_begin + size;
+      end = vaddr_end;
       continue;
     };
     // If the segment is close enough to the current, just coalesce.
-    if (vaddr_begin - end < 0x1000) {
-      end = vaddr_begin + size;
+    if (vaddr_begin < end + 0x1000) {
+      end = vaddr_end;
       continue;
     }
     // Otherwise, create a entry from the previously accumulated ranges, and
     // start a new range.
-    size = end - begin - 1;
+    size = end - begin;
     uint64_t* counters = new uint64_t[size];
     ::memset(counters, 0, size * sizeof(uint64_t));
     profile_ranges_.insert(
-        std::make_pair(MemoryWatcher::AddressRange{begin, end}, counters));
+        std::make_pair(MemoryWatcher::AddressRange{begin, end - 1}, counters));
     begin = vaddr_begin;
-    end = vaddr_begin + size;
+    end = vaddr_end;
   }
   // Make the last entry.
   if (begin != 0 || end != 0) {
-    uint64_t size = end - begin - 1;
+    uint64_t size = end - begin;
     uint64_t* counters = new uint64_t[size];
     ::memset(counters, 0, size * sizeof(uint64_t));
     profile_ranges_.insert(
diff --git a/mpact/sim/util/other/instruction_profiler.h b/mpact/sim/util/other/instruction_profiler.h
index 35fbf35..76aae26 100644
--- a/mpact/sim/util/other/instruction_profiler.h
+++ b/mpact/sim/util/other/instruction_profiler.h
@@ -75,7 +75,7 @@ class InstructionProfiler : public CounterValueSetInterface<uint64_t> {
                   MemoryWatcher::AddressRangeLess>
       profile_ranges_;
   uint64_t last_start_ = 0xffff'ffff'ffff'ffffULL;
-  uint64_t last_end_ = 0xffff'ffff'ffff'ffffULL;
+  uint64_t last_end_ = 0;
   uint64_t* last_profile_range_ = nullptr;
 };
 
-- 
2.43.0


From b507b67710e8470532fec590189d5b31c37bf8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:28 +0000
Subject: [PATCH 107/129] fix: function symbols without a size hid other
 functions

---
 mpact/sim/util/program_loader/elf_program_loader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/program_loader/elf_program_loader.cc b/mpact/sim/util/program_loader/elf_program_loader.cc
index 6ebb974..8e1e8ca 100644
--- a/mpact/sim/util/program_loader/elf_program_loader.cc
+++ b/mpact/sim/util/program_loader/elf_program_loader.cc
@@ -99,6 +99,8 @@ absl::StatusOr<uint64_t> ElfProgramLoader::LoadSymbols(
                          other);
       if (type == ELFIO::STT_FUNC) {
         fcn_symbol_map_.emplace(value, name);
+        // Functions without a size do not cover any addresses.
+        if (size / text_size_scale_ == 0) continue;
         function_range_map_.insert(
             std::make_pair(AddressRange(value, size / text_size_scale_), name));
       }
-- 
2.43.0


From c450405f2c859e5e6f96bf2bd3eadfad116d967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:41 +0000
Subject: [PATCH 108/129] fix: register the depth configuration entry of a fifo

---
 mpact/sim/generic/fifo.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/fifo.cc b/mpact/sim/generic/fifo.cc
index b0e5d39..351b535 100644
--- a/mpact/sim/generic/fifo.cc
+++ b/mpact/sim/generic/fifo.cc
@@ -39,7 +39,9 @@ FifoBase::FifoBase(class ArchState* arch_state, absl::string_view name,
       name_(name),
       capacity_(default_capacity),
       reserved_(0) {
-  // empty
+  // Register the configuration entry so that an imported depth takes effect. It
+  // cannot fail, as no other configuration entry has been added yet.
+  AddConfig(&depth_).IgnoreError();
 }
 
 FifoBase::~FifoBase() {
-- 
2.43.0


From 4900cb2f0f939f6985fb0e6fe2c775bd166447d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:41 +0000
Subject: [PATCH 109/129] fix: renode step reports more than 2^32 executed
 instructions

---
 mpact/sim/util/renode/renode_mpact.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 0b96319..08df908 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -393,7 +393,7 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
     return 0;
   }
   // Perform the stepping.
-  uint32_t total_executed = 0;
+  uint64_t total_executed = 0;
   while (num_to_step > 0) {
     // Check how far to step, and make multiple calls if the number
     // is greater than <int>::max();
-- 
2.43.0


From f359a040f8bedc44a837d456eae4e6de9780b9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:41 +0000
Subject: [PATCH 110/129] fix: renode step does not write to a null status
 pointer

---
 mpact/sim/util/renode/renode_mpact.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 08df908..266b1e3 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -371,7 +371,9 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
   }
 
   if (num_to_step == 0) {
-    *status = static_cast<int32_t>(ExecutionResult::kOk);
+    if (status != nullptr) {
+      *status = static_cast<int32_t>(ExecutionResult::kOk);
+    }
     return 0;
   }
 
@@ -389,7 +391,9 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
   // code.
   if (halt_res.value() ==
       *RenodeDebugInterface::HaltReason::kSemihostHaltRequest) {
-    *status = static_cast<int32_t>(ExecutionResult::kAborted);
+    if (status != nullptr) {
+      *status = static_cast<int32_t>(ExecutionResult::kAborted);
+    }
     return 0;
   }
   // Perform the stepping.
-- 
2.43.0


From 3ee106fb36d2535040dd63c3a378bcbcca201f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:41 +0000
Subject: [PATCH 111/129] fix: renode forgets the name length of a destroyed
 instance

---
 mpact/sim/util/renode/renode_mpact.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 266b1e3..5943a32 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -204,6 +204,8 @@ void RenodeAgent::Destroy(int32_t id) {
 
   delete dbg_iter->second;
   core_dbg_instances_.erase(dbg_iter);
+  // The id may be used again with a different name length.
+  name_length_map_.erase(id);
 
   // Delete the memory access shim.
   auto mem_iter = renode_memory_access_.find(id);
-- 
2.43.0


From 879a7ba423a8664199b2dd5386c52d0c2ea23c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:41 +0000
Subject: [PATCH 112/129] fix: renode names a constructed instance by the id it
 gets

---
 mpact/sim/util/renode/renode_mpact.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 5943a32..6bb94f1 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -142,6 +142,11 @@ int32_t RenodeAgent::Construct(char* cpu_type, int32_t max_name_length,
                                                         int32_t),
                                int32_t (*write_callback)(uint64_t, char*,
                                                          int32_t)) {
+  // Make sure that we don't reuse an instance number that may have been created
+  // through Connect.
+  while (core_dbg_instances_.contains(RenodeAgent::count_)) {
+    RenodeAgent::count_++;
+  }
   std::string name = absl::StrCat("renode", count_);
   auto* memory_access = new RenodeMemoryAccess(read_callback, write_callback);
   auto* dbg = CreateMpactSim(name, cpu_type, memory_access);
@@ -149,11 +154,6 @@ int32_t RenodeAgent::Construct(char* cpu_type, int32_t max_name_length,
     delete memory_access;
     return -1;
   }
-  // Make sure that we don't reuse an instance number that may have been created
-  // through Connect.
-  while (core_dbg_instances_.contains(RenodeAgent::count_)) {
-    RenodeAgent::count_++;
-  }
   core_dbg_instances_.emplace(RenodeAgent::count_, dbg);
   name_length_map_.emplace(RenodeAgent::count_, max_name_length);
   renode_memory_access_.emplace(RenodeAgent::count_, memory_access);
-- 
2.43.0


From c0ab4362f11ce5b9c553ddcff6e1bf5fda78d14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:05 +0000
Subject: [PATCH 113/129] fix: a breakpoint hit by renode does not mark the
 program as done

---
 mpact/sim/util/renode/renode_cli_top.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mpact/sim/util/renode/renode_cli_top.cc b/mpact/sim/util/renode/renode_cli_top.cc
index 6292c2b..2916445 100644
--- a/mpact/sim/util/renode/renode_cli_top.cc
+++ b/mpact/sim/util/renode/renode_cli_top.cc
@@ -88,7 +88,6 @@ absl::StatusOr<int> RenodeCLITop::RenodeStep(int num) {
       if ((halt_reason != *HaltReason::kProgramDone) &&
           (halt_reason != *HaltReason::kNone)) {
         cli_status_ = RunStatus::kHalted;
-        program_done_ = true;
         continue;
       }
       // ProgramHalted request halts the simulation. So transfer control and
-- 
2.43.0


From cd47b288174d0e70fd9910c044f44d8077a11428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 114/129] fix: the assembler fills the space and padding of
 sections with contents

---
 mpact/sim/util/asm/simple_assembler.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 9419fc4..99197c6 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -811,6 +811,8 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     }
     uint64_t address = section_address_map_[section];
     size = ((address + align - 1) & ~(align - 1)) - address;
+    // The padding is part of the contents, except in bss, which has none.
+    if (section != bss_section_) byte_values.resize(size);
   } else if (match == "bss") {
     // .bss
     SetBssSection(".bss");
@@ -873,6 +875,8 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     auto res = SimpleTextToInt<uint64_t>(remainder);
     if (!res.ok()) return res.status();
     size = res.value();
+    // The space is part of the contents, except in bss, which has none.
+    if (section != bss_section_) byte_values.resize(size);
   } else if (match == "string") {
     // .string
     auto res = GetValues<std::string>(remainder);
-- 
2.43.0


From d286aba452b7bd146b42a6ad206f7ead01e307d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 115/129] fix: the assembler treats an alignment of zero as no
 alignment

---
 mpact/sim/util/asm/simple_assembler.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 99197c6..7289e92 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -804,6 +804,8 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     auto res = SimpleTextToInt<uint64_t>(remainder);
     if (!res.ok()) return res.status();
     uint64_t align = res.value();
+    // An alignment of zero is no alignment.
+    if (align == 0) align = 1;
     // Verify that the alignment is a power of two.
     if ((align & (align - 1)) != 0) {
       return absl::InvalidArgumentError(
-- 
2.43.0


From 317a3ffa001274482cf4947d5101f78677ae0133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 116/129] fix: a section is at least as aligned as the
 alignments in it

---
 mpact/sim/util/asm/simple_assembler.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 7289e92..ee87c02 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -811,6 +811,8 @@ absl::Status SimpleAssembler::ParseAsmDirective(
       return absl::InvalidArgumentError(
           absl::StrCat("Invalid alignment: '", directive, "'"));
     }
+    // The padding is computed from the start of the section.
+    if (align > section->get_addr_align()) section->set_addr_align(align);
     uint64_t address = section_address_map_[section];
     size = ((address + align - 1) & ~(align - 1)) - address;
     // The padding is part of the contents, except in bss, which has none.
-- 
2.43.0


From c564fbc3c1c95732c23915c1b4de9dcb5385c129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 117/129] fix: a relocation section names the section it
 applies to

---
 mpact/sim/util/asm/simple_assembler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index ee87c02..568df75 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -703,7 +703,7 @@ absl::Status SimpleAssembler::CreateRelocatable(
                                        ? sizeof(ELFIO::Elf64_Rela)
                                        : sizeof(ELFIO::Elf32_Rela));
       rela_section->set_link(symtab_->get_index());
-      rela_section->set_info(text_section_->get_index());
+      rela_section->set_info(section_index);
       rela_section->set_addr_align(8);
       // Process the relocation vector entries.
       absl::Status status;
-- 
2.43.0


From 4c2f3acbfd1bc54811adc4968d733a75438910da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 118/129] fix: errors in the second pass of the assembler are
 reported

---
 mpact/sim/util/asm/simple_assembler.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 568df75..1aa05df 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -740,11 +740,11 @@ absl::Status SimpleAssembler::ParsePassTwo(
     auto relo_size = relo_vector.size();
     auto address = section_address_map_[section];
     if (line[0] == '.') {
-      auto status = ParseAsmDirective(line, address, symbol_resolver,
-                                      byte_vector, relo_vector);
+      status = ParseAsmDirective(line, address, symbol_resolver, byte_vector,
+                                 relo_vector);
     } else {
-      auto status = ParseAsmStatement(line, address, symbol_resolver,
-                                      byte_vector, relo_vector);
+      status = ParseAsmStatement(line, address, symbol_resolver, byte_vector,
+                                 relo_vector);
     }
     if (!status.ok()) return status;
     // Update section information in the relocation vector.
-- 
2.43.0


From 0bfede5a4cad0d535d6da7dec7eb2d5e4bd9b363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 119/129] fix: the second pass of the assembler starts outside
 of any section

---
 mpact/sim/util/asm/simple_assembler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 1aa05df..3021aec 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -732,7 +732,8 @@ absl::Status SimpleAssembler::ParsePassTwo(
     std::vector<RelocationInfo>& relo_vector,
     ResolverInterface* symbol_resolver) {
   // Now fill in the sections. Parse each of the lines saved in the first
-  // pass.
+  // pass. As in the first pass, there is no current section at first.
+  current_section_ = nullptr;
   for (auto const& line : lines_) {
     std::vector<uint8_t> byte_vector;
     absl::Status status;
-- 
2.43.0


From 1cf5d2f3632d47832521d0c54bd2374d1e6e1f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 120/129] fix: an executable with undefined symbols is refused

---
 mpact/sim/util/asm/simple_assembler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 3021aec..f054509 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -388,6 +388,8 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
 
   // Add undefined symbols to the symbol table.
   for (auto const& symbol : undefined_symbols_) {
+    // Already added by a previous call.
+    if (symbol_indices_.contains(symbol)) continue;
     auto status = AddSymbol(symbol, 0, 0, ELFIO::STT_NOTYPE, 0, 0, nullptr);
     if (!status.ok()) {
       cleanup();
@@ -395,7 +397,6 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
           "Failed to add undefined symbol '", symbol, "': ", status.message()));
     }
   }
-  undefined_symbols_.clear();
 
   if (bss_section_ != nullptr) {
     bss_section_->set_size(section_address_map_[bss_section_]);
-- 
2.43.0


From 77e7c9354503aab1266fdebbc8919b690fe48256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 121/129] fix: labels of directives are reported when defined
 twice, and count in address units

---
 mpact/sim/util/asm/simple_assembler.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index f054509..41b2e16 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -950,8 +950,13 @@ absl::Status SimpleAssembler::ParseAsmDirective(
       return absl::InvalidArgumentError(
           absl::StrCat("Label: '", label, "' defined outside of a section"));
     }
-    auto status = AddSymbol(label, address, size, ELFIO::STT_NOTYPE,
+    uint64_t symbol_address = address;
+    if ((section == data_section_) || (section == bss_section_)) {
+      symbol_address = address / data_address_unit_;
+    }
+    auto status = AddSymbol(label, symbol_address, size, ELFIO::STT_NOTYPE,
                             ELFIO::STB_LOCAL, 0, section);
+    if (!status.ok()) return status;
   }
   return absl::OkStatus();
 }
-- 
2.43.0


From 3712ebb02c5f7f38e4d2c60c05ad767112e9b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 122/129] fix: arguments of directives that are not understood
 are reported

---
 mpact/sim/util/asm/simple_assembler.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 41b2e16..54ef239 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -184,6 +184,10 @@ absl::StatusOr<std::vector<T>> GetValues(
     T value = static_cast<T>(result.value());
     values.push_back(value);
   }
+  if (!RE2::FullMatch(remainder, "\\s*")) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Invalid argument: '", remainder, "'"));
+  }
   return values;
 }
 
@@ -201,6 +205,10 @@ absl::StatusOr<std::vector<char>> GetValues<char>(absl::string_view remainder,
           absl::StrCat("Invalid character: '", match, "'"));
     values.push_back(expanded[0]);
   }
+  if (!RE2::FullMatch(remainder, "\\s*")) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Invalid argument: '", remainder, "'"));
+  }
   return values;
 }
 
@@ -214,6 +222,10 @@ absl::StatusOr<std::vector<std::string>> GetValues<std::string>(
   while (RE2::Consume(&remainder, value_re, &match)) {
     values.push_back(ExpandEscapes(match));
   }
+  if (!RE2::FullMatch(remainder, "\\s*")) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Invalid argument: '", remainder, "'"));
+  }
   return values;
 }
 
@@ -227,6 +239,10 @@ absl::StatusOr<std::vector<std::string>> GetLabels(
   while (RE2::Consume(&remainder, label_re, &match)) {
     values.push_back(match);
   }
+  if (!RE2::FullMatch(remainder, "\\s*")) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Invalid argument: '", remainder, "'"));
+  }
   return values;
 }
 
-- 
2.43.0


From fc9462e9fc10379075f246ca1ee5c4746cfdbf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 123/129] fix: strings in assembly may contain escaped quotes

---
 mpact/sim/util/asm/simple_assembler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 54ef239..1cc4566 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -218,7 +218,8 @@ absl::StatusOr<std::vector<std::string>> GetValues<std::string>(
     absl::string_view remainder, ResolverInterface* resolver) {
   std::vector<std::string> values;
   std::string match;
-  static RE2 value_re("\\s*\"([^\"]*)\"\\s*(?:,|$)");
+  static RE2 value_re(
+      "\\s*\"((?:[^\"\\\\]|\\\\.)*)\"\\s*(?:,|$)");
   while (RE2::Consume(&remainder, value_re, &match)) {
     values.push_back(ExpandEscapes(match));
   }
-- 
2.43.0


From 285ca6907055d24ac2fbf3870385cbc2f66fc33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 124/129] fix: the assembler joins continued lines

---
 mpact/sim/util/asm/simple_assembler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 1cc4566..6df1651 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -348,8 +348,8 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
       // If there is an escaped newline then append the line, up to the  '\',
       // and continue.
       if ((len >= 1) && (tmp[len - 1] == '\\')) {
-        // Insert the escaped newline that getline removed.
-        absl::StrAppend(&line, tmp, "\n");
+        tmp.pop_back();
+        absl::StrAppend(&line, tmp);
         continue;
       }
       absl::StrAppend(&line, tmp);
-- 
2.43.0


From 4fb1108219ff28b8b264be41c6aed68deea32649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 125/129] fix: a label on its own outside of a section is
 reported

---
 mpact/sim/util/asm/simple_assembler.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 6df1651..42d60bd 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -382,6 +382,11 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
         lines_.push_back(statement);
       } else if (!label.empty()) {
         // This is just a single label definition. Add it to the symbol table.
+        if (current_section_ == nullptr) {
+          cleanup();
+          return absl::InvalidArgumentError(absl::StrCat(
+              "Label: '", label, "' defined outside of a section"));
+        }
         uint64_t symbol_address = address;
         if ((current_section_ == data_section_) ||
             (current_section_ == bss_section_)) {
-- 
2.43.0


From a34c0d2f8751d401c238f18cf32a4c54c3ddcd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 126/129] fix: the resolver of the assembler is deleted when
 parsing fails

---
 mpact/sim/util/asm/simple_assembler.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 42d60bd..cb6e000 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -341,6 +341,7 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
       std::string suffix;
       // Remove comments from the input line.
       if (!RE2::FullMatch(tmp, comment_re_, &prefix, &suffix)) {
+        cleanup();
         return absl::InternalError("Failed to parse comment");
       }
       tmp = absl::StrCat(prefix, suffix);
@@ -376,7 +377,10 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
           status = ParseAsmStatement(line, address, zero_resolver, byte_vector,
                                      relo_vector);
         }
-        if (!status.ok()) return status;
+        if (!status.ok()) {
+          cleanup();
+          return status;
+        }
         // Save the statements for processing in pass two (labels are all
         // processed in pass one).
         lines_.push_back(statement);
@@ -394,7 +398,10 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
         }
         auto status = AddSymbolToCurrentSection(label, symbol_address, 0,
                                                 ELFIO::STT_NOTYPE, 0, 0);
-        if (!status.ok()) return status;
+        if (!status.ok()) {
+          cleanup();
+          return status;
+        }
       }
       continue;
     }
-- 
2.43.0


From 501cc2f5ccb1c0ebe3186ba7cf18d409bd01374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 127/129] fix: gdbserver: write no register when a G packet has
 too few values

---
 mpact/sim/util/gdbserver/gdbserver.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index d416054..3b425b2 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -1015,6 +1015,9 @@ void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
     LOG(ERROR) << "Invalid data format";
     return SendError("Invalid data format");
   }
+  // No register is written unless there is a value for every one of them.
+  std::vector<absl::Span<uint8_t>> registers;
+  size_t num_bytes = 0;
   for (int i = debug_info_.GetFirstGpr(); i <= debug_info_.GetLastGpr(); ++i) {
     auto it = debug_info_.debug_register_map().find(i);
     // If the register is not found, go to the next one (assume there is a
@@ -1027,11 +1030,15 @@ void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
       LOG(ERROR) << "Failed to write register: " << result.status().message();
       return SendError(result.status().message());
     }
-    for (auto& byte : result.value()->Get<uint8_t>()) {
-      if (data.empty()) {
-        LOG(ERROR) << "Invalid data format";
-        return SendError("Invalid data format");
-      }
+    registers.push_back(result.value()->Get<uint8_t>());
+    num_bytes += registers.back().size();
+  }
+  if (data.size() < 2 * num_bytes) {
+    LOG(ERROR) << "Invalid data format";
+    return SendError("Invalid data format");
+  }
+  for (auto& bytes : registers) {
+    for (auto& byte : bytes) {
       std::string_view byte_str = data.substr(0, 2);
       data.remove_prefix(2);
       uint32_t byte_value_tmp;
-- 
2.43.0


From 4eab15fce409cda7f3b08a5ac819bb27dce73794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:51 +0000
Subject: [PATCH 128/129] fix: gdbserver: answer a continue request when the
 core already runs

---
 mpact/sim/util/gdbserver/gdbserver.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 3b425b2..31a7988 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -661,15 +661,15 @@ void GdbServer::GdbContinue(int thread_id, std::string_view command) {
       LOG(ERROR) << "Failed to run core: " << status.message();
       return SendError(status.message());
     }
-    // Now wait for the core to halt.
-    status = core_debug_interfaces_[thread_index]->Wait();
-    if (!status.ok()) {
-      LOG(ERROR) << "Failed to wait for core to halt: " << status.message();
-      return SendError(status.message());
-    }
-    // Get the halt reason.
-    Respond(GetHaltReason(thread_index));
   }
+  // Now wait for the core to halt, even if it was already running.
+  auto status = core_debug_interfaces_[thread_index]->Wait();
+  if (!status.ok()) {
+    LOG(ERROR) << "Failed to wait for core to halt: " << status.message();
+    return SendError(status.message());
+  }
+  // Get the halt reason.
+  Respond(GetHaltReason(thread_index));
 }
 
 void GdbServer::ContinueThread(int thread_id) {
-- 
2.43.0


From 8222a97a558e78a7ad8156f967b341ff1d0e066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:46 +0000
Subject: [PATCH 129/129] fix: gdbserver: refuse a memory write with more data
 than its length

---
 mpact/sim/util/gdbserver/gdbserver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 31a7988..a1d2d12 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -959,7 +959,7 @@ void GdbServer::GdbWriteMemory(std::string_view address_str,
     uint8_t value = static_cast<uint8_t>(value_tmp);
     buffer_[i] = value;
   }
-  if (num_bytes != length) {
+  if ((num_bytes != length) || !data.empty()) {
     LOG(ERROR) << "Length does not match data size";
     if (error_message_supported_) {
       return SendError("length does not match data size");
-- 
2.43.0

