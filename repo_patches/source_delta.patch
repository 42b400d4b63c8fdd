From a988cd72261203b6fac4894ed09948e3420e9e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 01/73] fix: wake other threads waiting for a loop when
 wait_for(task) completes it

---
 slinky/base/thread_pool_impl.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slinky/base/thread_pool_impl.cc b/slinky/base/thread_pool_impl.cc
index 3b6fdf1..b22a5f6 100644
--- a/slinky/base/thread_pool_impl.cc
+++ b/slinky/base/thread_pool_impl.cc
@@ -241,6 +241,11 @@ ref_count<thread_pool::task> thread_pool_impl::enqueue(std::size_t n, task_body
 void thread_pool_impl::wait_for(task* t) {
   task_impl* task = reinterpret_cast<task_impl*>(t);
   bool completed = work_on_task(task);
+  if (completed) {
+    // We completed the loop, notify the helper CV in case another thread is also waiting for this loop to complete.
+    std::unique_lock l(mutex_);
+    cv_helper_.notify_all();
+  }
   if (!completed || !task->done()) {
     // We want to spin a few times before letting the OS take over. This spinning is especially useful because we don't
     // need to lock the mutex.
-- 
2.43.0


From 1670c426ae5c7b751db0f5fe7710796abc58708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 02/73] fix: don't crash on the remainder of the minimum
 integer by -1, make gcd non-negative

---
 slinky/base/arithmetic.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/slinky/base/arithmetic.h b/slinky/base/arithmetic.h
index fe9ac1b..d9c8b12 100644
--- a/slinky/base/arithmetic.h
+++ b/slinky/base/arithmetic.h
@@ -32,6 +32,9 @@ template <typename T>
 T euclidean_mod(T a, T b, T define_b_zero = 0) {
   if (b == 0) {
     return define_b_zero;
+  } else if (a == std::numeric_limits<T>::min() && b == static_cast<T>(-1)) {
+    // The remainder is 0, but computing it overflows.
+    return 0;
   }
   T r = a % b;
   return r >= 0 ? r : (b < 0 ? r - b : r + b);
@@ -195,10 +198,11 @@ T gcd(T a, T b) {
   }
   while (b != 0) {
     T tmp = b;
-    b = a % b;
+    b = euclidean_mod(a, b);
     a = tmp;
   }
-  return a;
+  // The minimum value is the only one that cannot be negated.
+  return a < 0 && a != std::numeric_limits<T>::min() ? -a : a;
 }
 
 template <typename T>
-- 
2.43.0


From 70a573144f7fd44f955266945cf5073f55592b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 03/73] fix: handle overflow in modulus_remainder operators /
 and &

---
 slinky/base/modulus_remainder.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/slinky/base/modulus_remainder.h b/slinky/base/modulus_remainder.h
index 797f608..93f837b 100644
--- a/slinky/base/modulus_remainder.h
+++ b/slinky/base/modulus_remainder.h
@@ -104,7 +104,10 @@ modulus_remainder<T> operator/(const modulus_remainder<T>& a, const modulus_rema
   // (m1 / r2) * x + floor(r1 / r2)
   // E.g. (8x + 3) / 2 -> (4x + 1)
 
-  if (b.modulus == 0 && b.remainder != 0) {
+  if (b.modulus == 0 && b.remainder == -1) {
+    // This is negation. Dividing by -1 would overflow if the dividend is the minimum value.
+    return modulus_remainder<T>(0, 0) - a;
+  } else if (b.modulus == 0 && b.remainder != 0) {
     if ((euclidean_mod(a.modulus, b.remainder, a.modulus)) == 0) {
       T m = a.modulus / b.remainder;
       T r = euclidean_div(a.remainder, b.remainder);
@@ -155,7 +158,12 @@ template <typename T>
 modulus_remainder<T> operator&(const modulus_remainder<T>& a, const modulus_remainder<T>& b) {
   if (a.modulus == 0) return a;
   if (b.modulus == 0) return b;
-  if (a.remainder == 0 && b.remainder == 0) return {lcm(a.modulus, b.modulus), 0};
+  if (a.remainder == 0 && b.remainder == 0) {
+    T m;
+    if (!mul_with_overflow(a.modulus / gcd(a.modulus, b.modulus), b.modulus, m)) {
+      return {m, 0};
+    }
+  }
   // We have x == ma * y + ra == mb * z + rb
 
   // We want to synthesize these two facts into one modulus
-- 
2.43.0


From d72176a4744a2370942f5fdf17afa5890af2b4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 04/73] fix: handle overflow and truncation of large constants
 in staircase_sum_bounds

---
 slinky/base/arithmetic.cc | 25 +++++++++++++++++--------
 slinky/base/arithmetic.h  |  3 ++-
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/slinky/base/arithmetic.cc b/slinky/base/arithmetic.cc
index b4063d0..ee2ed30 100644
--- a/slinky/base/arithmetic.cc
+++ b/slinky/base/arithmetic.cc
@@ -1,11 +1,19 @@
 #include <algorithm>
+#include <cstdint>
+#include <cstdlib>
 #include <limits>
 
 #include "slinky/base/arithmetic.h"
 
 namespace slinky {
 
-interval<int> staircase_sum_bounds(int a1, int b1, int c1, int a2, int b2, int c2) {
+interval<int> staircase_sum_bounds(int64_t a1, int64_t b1, int64_t c1, int64_t a2, int64_t b2, int64_t c2) {
+  // If these constants get so big, we need to revisit this algorithm.
+  constexpr int64_t limit = std::numeric_limits<int>::max() / 2;
+  for (int64_t i : {a1, b1, c1, a2, b2, c2}) {
+    if (i < -limit || i > limit) return {};
+  }
+
   if (b1 == 0 && b2 == 0) {
     return {0, 0};
   } else if (c1 * b2 != -c2 * b1) {
@@ -17,18 +25,19 @@ interval<int> staircase_sum_bounds(int a1, int b1, int c1, int a2, int b2, int c
   // The ratios of the two sides are equal. The value of this expression is a periodic pattern.
   // We need to search the period for the min and max.
   // If these constants get so big, we need to revisit this algorithm.
-  if (abs(b1) > 1024 || abs(b2) > 1024) {
+  if (std::abs(b1) > 1024 || std::abs(b2) > 1024) {
     return {};
   }
-  int min = std::numeric_limits<int>::max();
-  int max = std::numeric_limits<int>::min();
-  const int period = lcm(abs(b1), abs(b2));
-  for (int x = 0; x < period; ++x) {
-    const int y = euclidean_div(x + a1, b1) * c1 + euclidean_div(x + a2, b2) * c2;
+  int64_t min = std::numeric_limits<int64_t>::max();
+  int64_t max = std::numeric_limits<int64_t>::min();
+  const int64_t period = lcm(std::abs(b1), std::abs(b2));
+  for (int64_t x = 0; x < period; ++x) {
+    const int64_t y = euclidean_div(x + a1, b1) * c1 + euclidean_div(x + a2, b2) * c2;
     min = std::min(min, y);
     max = std::max(max, y);
   }
-  return {min, max};
+  if (min < -limit || max > limit) return {};
+  return {static_cast<int>(min), static_cast<int>(max)};
 }
 
 }  // namespace slinky
diff --git a/slinky/base/arithmetic.h b/slinky/base/arithmetic.h
index d9c8b12..d2098c7 100644
--- a/slinky/base/arithmetic.h
+++ b/slinky/base/arithmetic.h
@@ -4,6 +4,7 @@
 #include <cassert>
 #include <cmath>
 #include <cstddef>
+#include <cstdint>
 #include <limits>
 #include <optional>
 #include <utility>
@@ -241,7 +242,7 @@ struct interval {
 
 // Returns the [min, max] interval over all x of ((x + a1)/b1)*c1 + ((x + a2)/b2)*c2
 // Returns std::nullopt if unbounded.
-interval<int> staircase_sum_bounds(int a1, int b1, int c1, int a2, int b2, int c2);
+interval<int> staircase_sum_bounds(int64_t a1, int64_t b1, int64_t c1, int64_t a2, int64_t b2, int64_t c2);
 
 }  // namespace slinky
 
-- 
2.43.0


From 3da15260ffd24947f65fb42955aafd58b345e631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 05/73] fix: copying to a buffer with an empty outer dimension
 hit an assertion

---
 slinky/runtime/buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index 872279d..2a3a325 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -336,7 +336,7 @@ void copy_impl(raw_buffer& src, raw_buffer& dst) {
   const slinky::dim& dst_dim0 = dst.dim(0);
   const slinky::dim& src_dim0 = src.dim(0);
 
-  if (dst_dim0.empty()) {
+  if (dst.elem_count() == 0) {
     // Empty destination, nothing to do.
   } else if (dst_dim0.fold_factor() > 0 || src_dim0.fold_factor() > 0 || dst_dim0.stride() != elem_size ||
              (src_dim0.stride() != 0 && src_dim0.stride() != elem_size)) {
-- 
2.43.0


From 0fda2c6e36b4031e76e659dd04f5b3566892ad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 06/73] fix: padded copy from a higher rank source that does
 not contain the destination crashed

---
 slinky/runtime/buffer.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index 2a3a325..1b1b669 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -444,6 +444,14 @@ SLINKY_NO_STACK_PROTECTOR void copy(const raw_buffer& src, const raw_buffer& dst
 
     optimize_dims(dst_opt, src_opt, pad_opt);
 
+    for (std::size_t d = dst_opt.rank; d < src_opt.rank; ++d) {
+      if (!src_opt.dims[d].contains(0)) {
+        // dst is out of bounds of src in an implicit broadcast dimension, the result is entirely padding.
+        copy_impl(pad_opt, dst_opt);
+        return;
+      }
+    }
+
     // Implement the padding in all but the first dimension.
     pad_impl(src_opt, dst_opt, pad_opt);
     if (src_opt.base == dst_opt.base) {
-- 
2.43.0


From 0c7afd57399281e5acd288924bb2c4c3f9d7cc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 07/73] fix: pad() mistook the bounds [0, 0] for a broadcast

---
 slinky/runtime/buffer.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index 1b1b669..ae3362a 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -477,7 +477,12 @@ void pad(const dim* in_bounds, const raw_buffer& dst, const raw_buffer& pad) {
 
   raw_buffer src = {nullptr, dst.elem_size, dst.rank, SLINKY_ALLOCA(dim, dst.rank)};
   for (std::size_t d = 0; d < dst.rank; ++d) {
-    src.dims[d] = {in_bounds[d].min(), in_bounds[d].max(), 0, in_bounds[d].fold_factor()};
+    if (in_bounds[d].is_broadcast()) {
+      src.dims[d] = dim::broadcast();
+    } else {
+      // Use the strides of dst, so these bounds can be fused when dst can be, and are not mistaken for a broadcast.
+      src.dims[d] = {in_bounds[d].min(), in_bounds[d].max(), dst.dims[d].stride()};
+    }
   }
 
   raw_buffer pad_opt = pad;
-- 
2.43.0


From d006bbde622d0e9173a7dbf0bb53f347f8d71b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 08/73] fix: fusing a bounded broadcast with an implicit
 broadcast kept the bounds of the inner dimension

---
 slinky/runtime/buffer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slinky/runtime/buffer.h b/slinky/runtime/buffer.h
index dd35b07..8268423 100644
--- a/slinky/runtime/buffer.h
+++ b/slinky/runtime/buffer.h
@@ -800,8 +800,11 @@ enum class fuse_type {
 template <fuse_type type>
 inline void fuse(index_t inner, index_t outer, raw_buffer& buf) {
   if (outer >= static_cast<index_t>(buf.rank)) {
-    // Fusing an implicit broadcast, nothing to do.
-    assert(inner >= static_cast<index_t>(buf.rank) || can_fuse(buf.dim(inner), dim::broadcast()));
+    // Fusing an implicit broadcast, the result is a broadcast (without bounds) too.
+    if (inner < static_cast<index_t>(buf.rank)) {
+      dim& id = buf.dims[inner];
+      id = fuse(id, dim::broadcast());
+    }
   } else if (inner >= static_cast<index_t>(buf.rank)) {
     // The inner dimension is an implicit broadcast.
     dim& od = buf.dims[outer];
-- 
2.43.0


From 7668f87cf04e5438a17a84acb7cf5b6b1f1985fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 09/73] fix: init_strides asserted instead of reporting
 overflow when no stride is possible

---
 slinky/runtime/buffer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index ae3362a..0a39ff7 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -238,6 +238,7 @@ std::optional<std::size_t> raw_buffer::init_strides_impl(index_t alignment) {
         break;
       }
     }
+    if (overflow) return std::nullopt;
     assert(dim_i.stride() != dim::auto_stride);
   }
 
-- 
2.43.0


From 092143787f877854a0fc44f6b5db80a8e8b74003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 10/73] fix: buffers with negative strides were allocated below
 the beginning of their memory

---
 slinky/runtime/buffer.cc   | 12 ++++++++++--
 slinky/runtime/buffer.h    |  4 ++++
 slinky/runtime/evaluate.cc |  3 ++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index 0a39ff7..023533c 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -80,6 +80,12 @@ std::size_t alloc_size(std::size_t rank, std::size_t elem_size, const dim* dims)
 
 std::size_t raw_buffer::size_bytes() const { return alloc_size(rank, elem_size, dims); }
 
+std::ptrdiff_t raw_buffer::min_offset_bytes() const {
+  index_t flat_min = 0;
+  index_t flat_max = 0;
+  return calculate_flat_bounds(rank, dims, flat_min, flat_max) ? flat_min : 0;
+}
+
 std::size_t raw_buffer::elem_count() const {
   std::size_t result = 1;
   for (std::size_t i = 0; i < rank; ++i) {
@@ -105,7 +111,8 @@ raw_buffer_ptr raw_buffer::make(std::size_t rank, std::size_t elem_size, const c
   } else {
     new (buf->dims) slinky::dim[buf->rank];
   }
-  buf->base = data_size > 0 ? mem : nullptr;
+  // If there are negative strides, the base is not at the beginning of the memory.
+  buf->base = data_size > 0 ? mem - buf->min_offset_bytes() : nullptr;
   buf->base = align_up(buf->base, alignment);
   return raw_buffer_ptr(buf, free);
 }
@@ -255,7 +262,8 @@ void* raw_buffer::allocate(index_t base_alignment, index_t stride_alignment) {
   std::optional<std::size_t> size = init_strides(stride_alignment);
   if (!size) return nullptr;
   void* allocation = malloc(*size + base_alignment - 1);
-  base = align_up(allocation, base_alignment);
+  // If there are negative strides, the base is not at the beginning of the allocation.
+  base = align_up(offset_bytes(allocation, -min_offset_bytes()), base_alignment);
   return allocation;
 }
 
diff --git a/slinky/runtime/buffer.h b/slinky/runtime/buffer.h
index 8268423..1e02294 100644
--- a/slinky/runtime/buffer.h
+++ b/slinky/runtime/buffer.h
@@ -417,6 +417,10 @@ public:
 
   std::size_t size_bytes() const;
 
+  // Returns the offset in bytes of the lowest address in the buffer relative to `base`. This is 0 unless the buffer has
+  // negative strides.
+  std::ptrdiff_t min_offset_bytes() const;
+
   std::size_t elem_count() const;
 
   // If any strides are `auto_stride`, replace them with automatically determined strides.
diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index e66e759..907638c 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -623,7 +623,8 @@ public:
       if (op->storage == memory_type::stack || *size <= context.config->auto_stack_threshold) {
         std::size_t alignment = context.config->base_alignment;
         buffer.base = SLINKY_ALLOCA(char, *size + alignment - 1);
-        buffer.base = align_up(buffer.base, alignment);
+        // If there are negative strides, the base is not at the beginning of the allocation.
+        buffer.base = align_up(offset_bytes_non_null(buffer.base, -buffer.min_offset_bytes()), alignment);
         buffer.allocation = nullptr;
       } else {
         buffer.allocation = context.config->allocate(op->sym, &buffer);
-- 
2.43.0


From 36788febde629291a5e0b17cf8bcff7423895e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 11/73] fix: dimensions with more elements than an index can
 count were laid out as if they were small

---
 slinky/runtime/buffer.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index 023533c..d2f6043 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -16,12 +16,20 @@ namespace slinky {
 
 namespace {
 
+// An extent that is too big to be represented.
+constexpr index_t overflow_extent = std::numeric_limits<index_t>::max();
+
 index_t alloc_extent(const dim& dim) {
   if (dim.fold_factor() > 0) {
     // TODO: We can do better than this if the dim doesn't cross a fold boundary.
     return dim.fold_factor();
+  } else if (dim.empty()) {
+    return 0;
   } else {
-    return dim.extent();
+    index_t extent;
+    if (sub_with_overflow(dim.max(), dim.min(), extent)) return overflow_extent;
+    if (add_with_overflow(extent, static_cast<index_t>(1), extent)) return overflow_extent;
+    return extent;
   }
 }
 
@@ -42,6 +50,7 @@ bool calculate_flat_bounds(std::size_t rank, const dim* dims, index_t& flat_min,
 
     index_t stride = dims[i].stride();
     overflow |= (stride == dim::auto_stride && extent > 1);
+    overflow |= extent == overflow_extent;
 
     index_t extent_minus_1;
     index_t term_min;
@@ -200,6 +209,7 @@ std::optional<std::size_t> raw_buffer::init_strides_impl(index_t alignment) {
     if (dim_i.stride() == 0) continue;
 
     index_t alloc_extent_i = alloc_extent(dim_i);
+    overflow |= alloc_extent_i == overflow_extent;
     if (alloc_extent_i <= 1) {
       // The buffer is empty or has extent 1, we don't care about the stride.
       if (dim_i.stride() == dim::auto_stride) dim_i.set_stride(elem_size);
-- 
2.43.0


From 4d8115628d9790bbb2c80ef73d37466b47185b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 12/73] fix: fusing dimensions with a folded or broadcast
 dimension of extent 1 changed the addresses or bounds

---
 slinky/runtime/buffer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/buffer.h b/slinky/runtime/buffer.h
index 1e02294..a5aaf2d 100644
--- a/slinky/runtime/buffer.h
+++ b/slinky/runtime/buffer.h
@@ -767,7 +767,11 @@ bool validate_buffer(const raw_buffer& buf);
 // Returns true if the two dimensions can be fused.
 inline bool can_fuse(const dim& inner, const dim& outer) {
   if (inner.empty()) return false;
-  if (outer.min() == outer.max() && outer.stride() != 0) return true;
+  if (outer.min() == outer.max() && outer.stride() != 0) {
+    // The stride of outer does not matter, unless it is needed to find the position in a fold, or the stride of inner
+    // does not distinguish an index in bounds of outer from one that is not.
+    if (inner.stride() != 0 && inner.fold_factor() == dim::unfolded && outer.fold_factor() == dim::unfolded) return true;
+  }
 
   index_t next_stride = inner.stride() * (inner.max() - inner.min() + 1);
   if (next_stride != outer.stride()) return false;
-- 
2.43.0


From f51e86431a1ff0d2f524309c25bcdc75e154c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 13/73] fix: don't learn that a condition is 1 if its value can
 be anything that is not 0

The simplifier learned {c, true} from any condition c that is neither a constant nor a variable. If c is not a boolean, a
use of c in the value guarded by the condition was replaced with 1.
---
 slinky/builder/simplify.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index b906da2..c1c7183 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -210,6 +210,11 @@ public:
   void visit(const call*) override { set_result(expr()); }
 };
 
+// Returns true if the value of `x` can only be 0 or 1.
+bool is_boolean_value(const expr& x) {
+  return is_boolean(x) || as_intrinsic(x, intrinsic::and_then) || as_intrinsic(x, intrinsic::or_else);
+}
+
 expr add_constant(const expr& a, index_t b) {
   if (b == 0) return a;
   return constant_adder(b).mutate(a);
@@ -672,9 +677,9 @@ public:
         learn_from_less_equal(lt->a, lt->b);
       } else if (const equal* eq = c.as<equal>()) {
         learn_from_equal(eq->a, eq->b);
-      } else if (!as_constant(c) && !as_variable(c)) {
-        // We couldn't learn anything, just add the whole expression as a fact, if it isn't a constant or variable,
-        // which could rewrite the value from any x not zero to 1.
+      } else if (!as_constant(c) && is_boolean_value(c)) {
+        // We couldn't learn anything, just add the whole expression as a fact, if its value can only be 0 or 1.
+        // Otherwise, we could rewrite the value from any x not zero to 1.
         facts.push_back({c, expr(true)});
       }
     }
-- 
2.43.0


From 58fa39b08bf4bd34d5f57697555e3b591aa772fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 14/73] fix: constant bounds of conditions whose value is not a
 boolean

The bounds of an operand of a logical operator or the condition of a select are not bounds of whether it is true, if
its value can be anything but 0 or 1.
---
 slinky/builder/simplify.cc        | 25 +++++++++++++++++++------
 slinky/builder/simplify_bounds.cc |  2 +-
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index c1c7183..ddbb9e6 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2534,6 +2534,19 @@ public:
     return result;
   }
 
+  // Mutate `x` interpreted as a boolean, i.e. `x != 0`.
+  expr mutate_boolean(const expr& x, int sign) {
+    if (sign != 0 && !is_boolean_value(x)) {
+      // A bound of x is not a bound of x != 0.
+      auto lower = as_constant(mutate(x, -1));
+      auto upper = as_constant(mutate(x, 1));
+      if ((lower && *lower > 0) || (upper && *upper < 0)) return expr(true);
+      if (lower && upper && *lower == 0 && *upper == 0) return expr(false);
+      sign = 0;
+    }
+    return strip_boolean(mutate(x, sign));
+  }
+
   void visit(const variable* op) override { set_result(constant_required ? expr() : expr(op)); }
 
   template <typename T>
@@ -2671,8 +2684,8 @@ public:
 
   template <typename T>
   void visit_logical_and_or(const T* op, int new_sign) {
-    expr a = strip_boolean(mutate(op->a, new_sign));
-    expr b = strip_boolean(mutate(op->b, new_sign));
+    expr a = mutate_boolean(op->a, new_sign);
+    expr b = mutate_boolean(op->b, new_sign);
 
     if (as_constant(b)) std::swap(a, b);
 
@@ -2702,7 +2715,7 @@ public:
   void visit(const logical_or* op) override { visit_logical_and_or(op, std::max(sign, 0)); }
 
   void visit(const logical_not* op) override {
-    expr a = strip_boolean(mutate(op->a, -sign));
+    expr a = mutate_boolean(op->a, -sign);
     if (auto ca = as_constant(a)) {
       set_result(*ca != 0 ? 0 : 1);
     } else if (sign != 0) {
@@ -2716,7 +2729,7 @@ public:
     }
   }
   void visit(const class select* op) override {
-    expr c = strip_boolean(mutate(op->condition, 0));
+    expr c = mutate_boolean(op->condition, 0);
     if (auto cc = as_constant(c)) {
       set_result(mutate(*cc ? op->true_value : op->false_value));
       return;
@@ -2755,8 +2768,8 @@ public:
       // - We're constant folding.
       const bool is_and = op->intrinsic == intrinsic::and_then;
       const int new_sign = is_and ? std::min(sign, 0) : std::max(sign, 0);
-      expr a = strip_boolean(mutate(op->args[0], new_sign));
-      expr b = strip_boolean(mutate(op->args[1], new_sign));
+      expr a = mutate_boolean(op->args[0], new_sign);
+      expr b = mutate_boolean(op->args[1], new_sign);
 
       if (auto ca = as_constant(a)) {
         if (*ca) {
diff --git a/slinky/builder/simplify_bounds.cc b/slinky/builder/simplify_bounds.cc
index 8b3ae2b..3ea14a0 100644
--- a/slinky/builder/simplify_bounds.cc
+++ b/slinky/builder/simplify_bounds.cc
@@ -367,7 +367,7 @@ interval_expr bounds_of(const class select* op, interval_expr c, interval_expr t
     }
   } else if (is_true(c.min)) {
     return t;
-  } else if (is_false(c.max)) {
+  } else if (is_false(c.max) && is_non_negative(c.min)) {
     return f;
   } else if (c.is_point()) {
     return select(c.min, std::move(t), std::move(f));
-- 
2.43.0


From 7b1512432696dba6e58f5623179403a85d0c5683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 15/73] fix: constant bounds of let

The values of the lets were replaced by bounds of them in the direction of the bound of the whole let, however the body
depends on them.
---
 slinky/builder/simplify.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index ddbb9e6..b6ff663 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2549,6 +2549,18 @@ public:
 
   void visit(const variable* op) override { set_result(constant_required ? expr() : expr(op)); }
 
+  void visit(const let* op) override {
+    // The body can depend on the values of the lets in any way, so we can't replace the values with bounds of them.
+    expr body = mutate(op->body);
+    if (!body.defined() || as_constant(body)) {
+      set_result(std::move(body));
+    } else if (body.same_as(op->body)) {
+      set_result(op);
+    } else {
+      set_result(let::make(op->lets, std::move(body)));
+    }
+  }
+
   template <typename T>
   void visit_min_max(const T* op, bool take_constant) {
     expr a = mutate(op->a);
-- 
2.43.0


From a8922603fb28b9ee7c28b2533318a89c2fad616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 16/73] fix: rewrites of constants that overflow repeat forever

Rules that move constants together applied again to their own result, if folding the constants overflows. A rewrite
predicate that overflows also does not mean that it is false.
---
 slinky/builder/rewrite.h        | 8 ++++++--
 slinky/builder/simplify_rules.h | 6 +++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/slinky/builder/rewrite.h b/slinky/builder/rewrite.h
index c5c9c73..8ab9e92 100644
--- a/slinky/builder/rewrite.h
+++ b/slinky/builder/rewrite.h
@@ -873,9 +873,13 @@ class base_rewriter {
     static_assert(!pattern_info<Pattern>::is_boolean || pattern_info<Replacement>::is_boolean);
 
     bool overflowed = false;
-    if (substitute(pr, ctx, overflowed) && !overflowed) {
+    bool use_r = substitute(pr, ctx, overflowed);
+    // If the predicate overflowed, we don't know if the predicate is true, and the next replacements may rely on it
+    // being false.
+    if (overflowed) return false;
+    if (use_r) {
       result = substitute(r, ctx, overflowed);
-      if (!overflowed) return true;
+      return !overflowed;
     }
     // Try the next replacement
     return find_replacement<Pattern>(ctx, r_pr...);
diff --git a/slinky/builder/simplify_rules.h b/slinky/builder/simplify_rules.h
index 826d78d..50c24d5 100644
--- a/slinky/builder/simplify_rules.h
+++ b/slinky/builder/simplify_rules.h
@@ -293,8 +293,8 @@ bool apply_add_rules(Fn&& apply) {
       apply((x - y) + (x - z), x*2 - (y + z)) ||
       apply((y - x) + (z - x), (y + z) + x*-2) ||
 
-      apply(x + (c0 - y), (x - y) + c0) ||
-      apply((x + may_be<0>(c0)) + (y + may_be<0>(c1)), (x + y) + eval(c0 + c1), c0 != 0 || c1 != 0) ||
+      apply(x + (c0 - y), (x - y) + c0, !is_constant(x)) ||
+      apply((x + may_be<0>(c0)) + (y + may_be<0>(c1)), (x + y) + eval(c0 + c1), (c0 != 0 || c1 != 0) && !is_constant(x) && !is_constant(y)) ||
 
       apply(staircase(x, c0, c1, c2) + c3, ((x + eval((c3/c2)*c1 + c0))/c1)*c2, c0 != 0 && c1 != 0 && c2 != 0 && c3%c2 == 0) ||
       apply(staircase(x, 0, c0, c0) + x%c0, x, c0 != 0) ||
@@ -391,7 +391,7 @@ bool apply_mul_rules(Fn&& apply) {
       apply((x*c0)*c1, x*eval(c0*c1)) ||
       apply((x + c0)*c1, x*c1 + eval(c0*c1)) ||
       apply((c0 - x)*c1, x*eval(-c1) + eval(c0*c1)) ||
-      apply(y*(x*c0), (x*y)*c0) ||
+      apply(y*(x*c0), (x*y)*c0, !is_constant(y)) ||
 
       apply(select(x, c0, c1)*c2, select(x, eval(c0*c2), eval(c1*c2))) ||
       apply(select(x, y, c1)*c2, select(x, y*c2, eval(c1*c2))) ||
-- 
2.43.0


From 0e337c969462a3dbf824febfe4e4a58ad80a0ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 17/73] fix: overflow of constants when simplifying

INT64_MIN / -1 raised SIGFPE when folded or added to a multiplication, and the negation of a constant could overflow.
---
 slinky/builder/rewrite.h         | 3 ++-
 slinky/builder/simplify.cc       | 7 ++++++-
 slinky/builder/simplify_exprs.cc | 2 +-
 slinky/runtime/expr.h            | 2 ++
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/slinky/builder/rewrite.h b/slinky/builder/rewrite.h
index 8ab9e92..f3722c3 100644
--- a/slinky/builder/rewrite.h
+++ b/slinky/builder/rewrite.h
@@ -558,7 +558,8 @@ SLINKY_UNIQUE bool match(const pattern_staircase<X, A, B, C>& p, expr_ref x, mat
     // We might have ((a - x)/b)*c. x - a should have been canonicalized to x + -a.
     // We need to rewrite (a - x)/b to (x + (b - 1) - a)/(-b).
     if (auto ac = as_constant(sa->a)) {
-      index_t a = std::abs(b) - 1 - *ac;
+      index_t a;
+      if (mul_overflows<index_t>(b, -1) || sub_with_overflow<index_t>(std::abs(b) - 1, *ac, a)) return false;
       return match<matched_c>(p.b, -b, ctx) && match<matched_cb>(p.x, sa->b, ctx) && match<matched_cbx>(p.a, a, ctx);
     }
   } else {
diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index b6ff663..e8b0a2a 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -127,6 +127,11 @@ public:
 
   template <typename T>
   void visit_add_sub(const T* op, int sign_b) {
+    if (mul_overflows<index_t>(c, -1)) {
+      // We can't represent -c.
+      set_result(expr());
+      return;
+    }
     if (is_constant(op->b, c * -sign_b)) {
       set_result(op->a);
       cancelled++;
@@ -186,7 +191,7 @@ public:
   void visit(const mul* op) override {
     if (auto b = as_constant(op->b)) {
       // a*b + c == (a + c/b)*b if c%b == 0
-      if (*b != 0 && euclidean_mod(c, *b) == 0) {
+      if (*b != 0 && !binary_overflows<slinky::div>(c, *b) && euclidean_mod(c, *b) == 0) {
         c = euclidean_div(c, *b);
         expr a = mutate(op->a);
         c *= *b;
diff --git a/slinky/builder/simplify_exprs.cc b/slinky/builder/simplify_exprs.cc
index 853b310..f67c63a 100644
--- a/slinky/builder/simplify_exprs.cc
+++ b/slinky/builder/simplify_exprs.cc
@@ -145,7 +145,7 @@ expr simplify(const mul* op, expr a, expr b) {
 expr simplify(const div* op, expr a, expr b) {
   auto ca = as_constant(a);
   auto cb = as_constant(b);
-  if (ca && cb) {
+  if (ca && cb && !binary_overflows<div>(*ca, *cb)) {
     return euclidean_div(*ca, *cb);
   }
 
diff --git a/slinky/runtime/expr.h b/slinky/runtime/expr.h
index 9a127c5..736e9e9 100644
--- a/slinky/runtime/expr.h
+++ b/slinky/runtime/expr.h
@@ -5,6 +5,7 @@
 #include <cstdlib>
 #include <functional>
 #include <initializer_list>
+#include <limits>
 #include <map>
 #include <memory>
 #include <optional>
@@ -479,6 +480,7 @@ template <typename T> SLINKY_INLINE bool binary_overflows(index_t a, index_t b)
 template <> SLINKY_INLINE bool binary_overflows<add>(index_t a, index_t b) { return add_overflows(a, b); }
 template <> SLINKY_INLINE bool binary_overflows<sub>(index_t a, index_t b) { return sub_overflows(a, b); }
 template <> SLINKY_INLINE bool binary_overflows<mul>(index_t a, index_t b) { return mul_overflows(a, b); }
+template <> SLINKY_INLINE bool binary_overflows<div>(index_t a, index_t b) { return a == std::numeric_limits<index_t>::min() && b == -1; }
 // clang-format on
 
 template <typename T>
-- 
2.43.0


From 3159fe6fdb99561f4eeec2ca21c33012331486e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 18/73] fix: structural comparison ignores the workers of a
 loop, the storage of an allocation and closures

---
 slinky/builder/substitute.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index 0a02551..8276f0a 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -253,7 +253,12 @@ public:
     }
   }
 
-  void visit(const let_stmt* op) override { visit_let(static_cast<const let_stmt*>(op)); }
+  void visit(const let_stmt* op) override {
+    const let_stmt* ls = static_cast<const let_stmt*>(self);
+
+    if (!try_match(ls->is_closure, op->is_closure)) return;
+    visit_let(op);
+  }
 
   void visit(const block* op) override {
     const block* bs = static_cast<const block*>(self);
@@ -265,6 +270,7 @@ public:
     const loop* ls = static_cast<const loop*>(self);
 
     if (!try_match(ls->sym, op->sym)) return;
+    if (!try_match(ls->max_workers, op->max_workers)) return;
     if (!try_match(ls->bounds, op->bounds)) return;
     if (!try_match(ls->step, op->step)) return;
     if (!try_match(ls->body, op->body)) return;
@@ -308,6 +314,7 @@ public:
     assert(as);
 
     if (!try_match(as->sym, op->sym)) return;
+    if (!try_match(as->storage, op->storage)) return;
     if (!try_match(as->elem_size, op->elem_size)) return;
     if (!try_match(as->dims, op->dims)) return;
     if (!try_match(as->body, op->body)) return;
-- 
2.43.0


From 893bd86d3f8ed6c3eb169c814a3e8d530208fb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 19/73] fix: simplify assumes a loop variable is aligned to its
 step when the loop starts anywhere

---
 slinky/builder/simplify.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index e8b0a2a..2fba043 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1421,8 +1421,9 @@ public:
       if (i) ++i->loop_depth;
     }
     alignment_type alignment;
-    if (auto cstep = as_constant(step)) alignment.modulus = *cstep;
-    if (auto cmin = as_constant(bounds.min)) alignment.remainder = *cmin;
+    auto cstep = as_constant(step);
+    auto cmin = as_constant(bounds.min);
+    if (cstep && cmin && *cstep > 0) alignment = {*cstep, euclidean_mod_positive_modulus(*cmin, *cstep)};
     // If we're in the body of the loop, then we know that bounds.max >= bounds.min.
     stmt body = mutate_with_bounds(op->body, op->sym, {bounds.min, mutate(max(bounds.min, bounds.max))}, alignment);
     for (auto& i : buffers) {
-- 
2.43.0


From 8a8ea65fc2686b823c5d456f8268e787579bc09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 20/73] fix: sliding assumes a loop variable is aligned to its
 step when the loop starts anywhere

---
 slinky/builder/slide_and_fold_storage.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index c47b021..9524e61 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -719,8 +719,13 @@ public:
 
       auto maybe_min = as_constant(loop_bounds.min);
       auto maybe_step = as_constant(op->step);
-      index_t modulus = maybe_step ? *maybe_step : 1;
-      index_t remainder = (maybe_min && maybe_step) ? *maybe_min % *maybe_step : 0;
+      index_t modulus = 1;
+      index_t remainder = 0;
+      if (maybe_min && maybe_step && *maybe_step > 0) {
+        // We only know the alignment of the loop variable if we know where the loop starts.
+        modulus = *maybe_step;
+        remainder = euclidean_mod_positive_modulus(*maybe_min, *maybe_step);
+      }
 
       auto set_expr_alignment = set_value_in_scope(expr_alignment, op->sym, {modulus, remainder});
       body = mutate(op->body);
-- 
2.43.0


From a7f6efdf3bf1ff066a15a50e6b9e47109e7e68d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 21/73] fix: sliding leaves an unchanged loop on its stack of
 loops

---
 slinky/builder/slide_and_fold_storage.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 9524e61..1e804dc 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -736,6 +736,7 @@ public:
     loop_bounds.min = loops.back().bounds.min;
     if (body.same_as(op->body) && loop_bounds.min.same_as(op->bounds.min) && loop_bounds.max.same_as(op->bounds.max)) {
       set_result(op);
+      loops.pop_back();
       return;
     }
 
-- 
2.43.0


From 30f06c7bc45b46244cdfbc8333cf04604ed9ecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 22/73] fix: folding storage in an inner loop overwrites data
 an outer loop re-uses

---
 slinky/builder/slide_and_fold_storage.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 1e804dc..024d3c2 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -386,7 +386,9 @@ public:
       interval_expr overlap = prev_bounds_d & cur_bounds_d;
       if (prove_true(overlap.empty(), expr_bounds, expr_alignment)) {
         // The bounds of each loop iteration do not overlap. We can't re-use work between loop iterations, but we
-        // can fold the storage.
+        // can fold the storage. However, if an outer loop is re-using data from its previous iterations, that includes
+        // data produced by previous iterations of this loop too, so we can't overwrite it.
+        if (did_overlapped_fold) continue;
         expr fold_factor = constant_fold_factor(bounds_of(cur_bounds_d.extent(), expr_bounds).max, loop);
         if (fold_factor.defined()) {
           vector_at(fold_factors[output], d) = {fold_factor, fold_factor, loop.loop_id};
-- 
2.43.0


From aa16f6d38944f6b6e386a7b242df59c0efbcf070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 23/73] fix: sliding misses the dependence on a loop of bounds
 of buffers that are not allocated yet

---
 slinky/builder/slide_and_fold_storage.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 024d3c2..465612f 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -247,6 +247,8 @@ public:
 
   symbol_map<var> aliases;
   symbol_map<box_expr> buffer_bounds;
+  // The bounds of buffers that have not been allocated yet, which the bounds of other buffers may be written in terms of.
+  symbol_map<box_expr> placeholder_bounds;
   symbol_map<interval_expr> expr_bounds;
   symbol_map<modulus_remainder<index_t>> expr_alignment;
 
@@ -374,6 +376,10 @@ public:
         continue;
       }
 
+      // Find all of the dependence of these bounds on the loop variable before computing the bounds of the previous
+      // iteration below.
+      substitute_bounds(cur_bounds_d, placeholder_bounds);
+
       // Some expressions which involve loop bounds are difficult to simplify, so let's try to do that using the latest
       // loop bounds.;
       cur_bounds_d = simplify(cur_bounds_d, expr_bounds, expr_alignment);
@@ -539,6 +545,19 @@ public:
     substitute_bounds(buffer_bounds, sym, bounds);
   }
 
+  void visit(const make_buffer* op) override {
+    // The bounds of this buffer can depend on the loops we are in.
+    box_expr bounds;
+    bounds.reserve(op->dims.size());
+    for (const dim_expr& d : op->dims) {
+      bounds.push_back(d.bounds);
+    }
+    substitute_bounds(bounds, placeholder_bounds);
+    substitute_bounds(bounds, buffer_bounds);
+    auto set_bounds = set_value_in_scope(placeholder_bounds, op->sym, std::move(bounds));
+    stmt_mutator::visit(op);
+  }
+
   void visit(const crop_buffer* op) override {
     // We write to more than just op->sym in this map, so save the whole thing and restore it after we're done.
     symbol_map<box_expr> saved_buffer_bounds = buffer_bounds;
-- 
2.43.0


From f74273defd4f9f0a031ce0435583728c02b7a72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 24/73] fix: sliding re-uses data the previous iteration did
 not produce if another dimension moves too

---
 slinky/builder/slide_and_fold_storage.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 465612f..5a02c44 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -376,6 +376,16 @@ public:
         continue;
       }
 
+      // We can only re-use the overlap with the previous iteration if the previous iteration produced all of it. If the
+      // bounds of another dimension depend on the loop too, it did not.
+      bool slides_other_dim = false;
+      for (int i = 0; i < static_cast<int>(bounds->size()); ++i) {
+        if (i == d) continue;
+        interval_expr bounds_i = (*bounds)[i];
+        substitute_bounds(bounds_i, placeholder_bounds);
+        slides_other_dim = slides_other_dim || depends_on(bounds_i, loop.sym).any();
+      }
+
       // Find all of the dependence of these bounds on the loop variable before computing the bounds of the previous
       // iteration below.
       substitute_bounds(cur_bounds_d, placeholder_bounds);
@@ -401,6 +411,7 @@ public:
         }
         continue;
       }
+      if (slides_other_dim) continue;
 
       // Allowing the leading edge to not change means that some calls may ask for empty buffers.
       expr is_monotonic_increasing = prev_bounds_d.min <= cur_bounds_d.min && prev_bounds_d.max <= cur_bounds_d.max;
-- 
2.43.0


From 9a2f4c0087e64a77ea1558553bf7a0359e5c3852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 25/73] fix: copies address a folded source with the
 coordinates of the destination

---
 slinky/builder/optimizations.cc          |  4 +++-
 slinky/builder/slide_and_fold_storage.cc | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 209e2fc..a52abfc 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1345,7 +1345,9 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
     if (is_copy(op, src_d, dst_d, at, src_dim)) {
       src_dims.push_back(src_dim);
       if (at.defined()) {
-        src_x[src_d] = at;
+        // If the dimension is the same as the dimension of the source, the base does not move. We can't express this as
+        // the address of the min, because the source might be folded.
+        src_x[src_d] = match(op->src_x[src_d], op->dst_x[dst_d]) ? expr() : at;
       }
       dst_x[dst_d] = var();
     }
diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 5a02c44..4473e23 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -1,5 +1,6 @@
 #include "slinky/builder/slide_and_fold_storage.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 #include <cstdlib>
@@ -529,6 +530,20 @@ public:
     }
   }
 
+  // Remove the folding of a buffer we decided to fold, and of any buffer it is an alias of.
+  void remove_folding(var a) {
+    while (true) {
+      if (fold_factors[a]) {
+        for (dim_fold_info& i : *fold_factors[a]) {
+          if (i.loop_id >= 0) i = dim_fold_info();
+        }
+      }
+      std::optional<var> next_a = aliases[a];
+      if (!next_a || *next_a == a) break;
+      a = *next_a;
+    }
+  }
+
   void visit(const call_stmt* op) override {
     set_result(op);
     visit_call_or_copy(op->inputs, op->outputs);
@@ -536,6 +551,11 @@ public:
   void visit(const copy_stmt* op) override {
     set_result(op);
     visit_call_or_copy({&op->src, 1}, {&op->dst, 1});
+    // A copy addresses its source with the coordinates of its destination, so the source can only be folded if they are
+    // the same.
+    if (!std::all_of(op->src_x.begin(), op->src_x.end(), [](const expr& i) { return as_variable(i); })) {
+      remove_folding(op->src);
+    }
   }
 
   // Resolve `bounds` (the merged required region for `sym`) against the currently-tracked buffer
-- 
2.43.0


From 564ac3f05435c6a35e082775f813a44b04639590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 26/73] fix: copies that mix loops assume the index of the loop
 is the min of the destination

---
 slinky/builder/optimizations.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index a52abfc..721a58d 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1353,6 +1353,14 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
     }
   }
 
+  // Where `is_copy` assumed that the other dimensions are at their min, use the index of the loop instead, if there is one.
+  for (int d = 0; d < static_cast<int>(dst_x.size()); ++d) {
+    if (!dst_x[d].defined()) continue;
+    for (expr& i : src_x) {
+      if (i.defined()) i = substitute(i, buffer_min(op->dst, d), dst_x[d]);
+    }
+  }
+
   // TODO: Try to optimize reshapes, where the index of the input is an "unpacking" of a flat index of the output.
   // This will require the simplifier to understand the constraints implied by the checks on the buffer metadata
   // at the beginning of the pipeline, e.g. that
-- 
2.43.0


From 5cd7c20160724018a5990c3971944a61765fb208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 27/73] fix: copies to a destination sliced out of bounds

---
 slinky/builder/optimizations.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 721a58d..2e33898 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1323,6 +1323,8 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
         assert(src_buf);
         assert(dst_buf);
         assert(pad_buf);
+        // If the dst was sliced out of bounds, there is nothing to copy to.
+        if (!dst_buf->base) return 0;
         impl(*src_buf, *dst_buf, *pad_buf);
         return 0;
       },
-- 
2.43.0


From f274ba25933267f8461c71d845192f727cb76a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 28/73] fix: aliasing a copy to its destination ignores the
 scale of the source coordinates

---
 slinky/builder/optimizations.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 2e33898..538d33a 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -730,7 +730,10 @@ public:
       }
 
       if (at.defined()) {
-        a.at[src_d] = at - src_dim.bounds.min + buffer_min(op->dst, dst_d);
+        // The alias starts at the src coordinate of the min of the dst.
+        for (int i = 0; i < static_cast<int>(op->dst_x.size()); ++i) {
+          a.at[src_d] = substitute(a.at[src_d], op->dst_x[i], buffer_min(op->dst, i));
+        }
       }
 
       if (dst_d >= static_cast<int>(a.dims.size())) {
-- 
2.43.0


From 3e9e71da354e5b686082646ac991bce6f2efbe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 29/73] fix: sliding in an outer loop misses that a loop inside
 it moves several dimensions

---
 slinky/builder/slide_and_fold_storage.cc | 34 ++++++++++++++++++++----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 4473e23..21afb7f 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -145,6 +145,28 @@ bool is_produced_by(var v, const stmt& body) {
   return f.found;
 }
 
+// Find all the dimensions of buffers that an expression uses the bounds of.
+class find_buffer_dims : public recursive_node_visitor {
+public:
+  std::vector<std::pair<var, int>> dims;
+
+  void visit(const variable* op) override {
+    if (op->field == buffer_field::min || op->field == buffer_field::max) dims.emplace_back(op->sym, op->dim);
+  }
+};
+
+// Check if two bounds use the bounds of the same dimension of the same buffer.
+bool shares_buffer_dim(const interval_expr& a, const interval_expr& b) {
+  find_buffer_dims find_a, find_b;
+  if (a.min.defined()) a.min.accept(&find_a);
+  if (a.max.defined()) a.max.accept(&find_a);
+  if (b.min.defined()) b.min.accept(&find_b);
+  if (b.max.defined()) b.max.accept(&find_b);
+  return std::any_of(find_a.dims.begin(), find_a.dims.end(), [&](const std::pair<var, int>& i) {
+    return std::find(find_b.dims.begin(), find_b.dims.end(), i) != find_b.dims.end();
+  });
+}
+
 // Find a maximum value of x which makes `condition` expression true. The search goes
 // backwards from initial_guess up to some fixed depth.
 expr where_true_upper_bound(const expr& condition, var x, const expr& initial_guess, const bounds_map& expr_bounds,
@@ -377,20 +399,22 @@ public:
         continue;
       }
 
+      // Find all of the dependence of these bounds on the loop variable before computing the bounds of the previous
+      // iteration below.
+      substitute_bounds(cur_bounds_d, placeholder_bounds);
+
       // We can only re-use the overlap with the previous iteration if the previous iteration produced all of it. If the
-      // bounds of another dimension depend on the loop too, it did not.
+      // bounds of another dimension depend on the loop too, it did not. If the bounds of another dimension depend on the
+      // same dimension of a buffer, a loop over that dimension inside this loop will not produce all of it either.
       bool slides_other_dim = false;
       for (int i = 0; i < static_cast<int>(bounds->size()); ++i) {
         if (i == d) continue;
         interval_expr bounds_i = (*bounds)[i];
         substitute_bounds(bounds_i, placeholder_bounds);
         slides_other_dim = slides_other_dim || depends_on(bounds_i, loop.sym).any();
+        slides_other_dim = slides_other_dim || shares_buffer_dim(cur_bounds_d, bounds_i);
       }
 
-      // Find all of the dependence of these bounds on the loop variable before computing the bounds of the previous
-      // iteration below.
-      substitute_bounds(cur_bounds_d, placeholder_bounds);
-
       // Some expressions which involve loop bounds are difficult to simplify, so let's try to do that using the latest
       // loop bounds.;
       cur_bounds_d = simplify(cur_bounds_d, expr_bounds, expr_alignment);
-- 
2.43.0


From bab7e70706f0cf2ecda6a99e322bc65f0a2eda49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:38 +0000
Subject: [PATCH 30/73] fix: simplify of sums of constants with min, max and
 select repeats forever

---
 slinky/builder/simplify.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 2fba043..76c74ea 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -107,6 +107,15 @@ public:
 
   constant_adder(index_t c) : c(c) {}
 
+  expr mutate(const expr& e) override {
+    int old_cancelled = cancelled;
+    expr result = node_mutator::mutate(e);
+    // If we couldn't add the constant to e, we didn't cancel anything in it either.
+    if (!result.defined()) cancelled = old_cancelled;
+    return result;
+  }
+  using node_mutator::mutate;
+
   void visit(const constant* op) override {
     if (!add_overflows(op->value, c)) {
       set_result(op->value + c);
-- 
2.43.0


From 65cacb8d6753a4590171534a310e59189d5c0ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 31/73] fix: allocations that share their memory with a shifted
 copy are too small

---
 slinky/builder/optimizations.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 538d33a..a6dfc11 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -557,7 +557,7 @@ public:
             // starts.
             int target_d = alias.permutation[d];
             if (target_d < static_cast<int>(target_info->dims.size())) {
-              target_info->dims[target_d].bounds |= alias.at[target_d] + min_extent(0, alias.dims[d].bounds.extent());
+              target_info->dims[target_d].bounds |= alias.at[target_d] + min_extent(0, info.dims[d].bounds.extent());
             }
           }
         } else if (!any_stride_defined(target_info->dims) && !alias.is_contiguous_copy) {
-- 
2.43.0


From c0cccb7a87e1cec5abfbdd3eeb43c921822fd5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 32/73] fix: the size of an allocation aliased in a loop
 depends on the variable of the loop

---
 slinky/builder/optimizations.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index a6dfc11..3b1097a 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -651,7 +651,8 @@ public:
     for (std::optional<buffer_info>& i : buffers) {
       if (!i) continue;
       for (dim_expr& d : i->dims) {
-        if (depends_on(d.bounds, op->sym).any()) {
+        // The bounds of correlated expressions can depend on the loop variable too, but they get simpler every time.
+        while (depends_on(d.bounds, op->sym).any()) {
           d.bounds = bounds_of(d.bounds, loop_bounds);
         }
       }
-- 
2.43.0


From 82d30d36b5fb384ec5fc2d6323b8e59b79a691f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:06 +0000
Subject: [PATCH 33/73] fix: loops of intermediate stages run past the end of
 what is computed

---
 slinky/builder/slide_and_fold_storage.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 21afb7f..e3c7e98 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -809,6 +809,10 @@ public:
 
     scoped_trace trace("visit(const loop*)");
 
+    if (loops.back().bounds.min.same_as(loop_bounds.min)) {
+      // Nothing slides in this loop, it should not run outside the actual bounds.
+      loop_bounds.max = op->bounds.max;
+    }
     loop_bounds.min = loops.back().bounds.min;
     if (body.same_as(op->body) && loop_bounds.min.same_as(op->bounds.min) && loop_bounds.max.same_as(op->bounds.max)) {
       set_result(op);
-- 
2.43.0


From a87076b77a0dbd969644832f6b6795934e7b835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:21 +0000
Subject: [PATCH 34/73] fix: a failing stage of a pipelined loop makes the loop
 wait forever

---
 slinky/runtime/evaluate.cc | 54 +++++++++++++++++++++++++++-----------
 slinky/runtime/evaluate.h  |  6 +++++
 2 files changed, 44 insertions(+), 16 deletions(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 907638c..f73b21f 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -22,6 +22,25 @@
 
 namespace slinky {
 
+struct parallel_loop_state {
+  const eval_context& context;
+  index_t step;
+  index_t min;
+  var sym;
+  stmt body;
+  const let_stmt* closure;
+  // The state of the next parallel loop outside this one, if any.
+  const parallel_loop_state* parent;
+  std::atomic<index_t> result{0};
+
+  static bool any_failed(const parallel_loop_state* i) {
+    for (; i; i = i->parent) {
+      if (i->result) return true;
+    }
+    return false;
+  }
+};
+
 void dump_context_for_expr(
     std::ostream& s, const eval_context& ctx, const expr& deps_of, const node_context* symbols = nullptr) {
   for (std::size_t i = 0; i < ctx.size(); ++i) {
@@ -258,7 +277,14 @@ public:
       sems[i] = reinterpret_cast<index_t*>(eval(op->args[i * 2 + 0]));
       counts[i] = eval(op->args[i * 2 + 1], 1);
     }
-    context.config->thread_pool->wait_for([=]() {
+    const parallel_loop_state* loop = context.parallel_loop;
+    bool failed = false;
+    context.config->thread_pool->wait_for([=, &failed]() {
+      // If an iteration of a loop we are in failed, the semaphores it did not reach will never be signaled.
+      if (parallel_loop_state::any_failed(loop)) {
+        failed = true;
+        return true;
+      }
       // Check we can acquire all of the semaphores before acquiring any of them.
       for (std::size_t i = 0; i < sem_count; ++i) {
         if (*sems[i] < counts[i]) return false;
@@ -269,7 +295,7 @@ public:
       }
       return true;
     });
-    return 1;
+    return failed ? 0 : 1;
   }
 
   index_t eval_trace_begin(const call* op) {
@@ -427,6 +453,7 @@ public:
       // The body is a closure, so we know exactly which symbols we need to copy to the new local context.
       context.reserve(parent_context.size());
       context.config = parent_context.config;
+      context.parallel_loop = parent_context.parallel_loop;
 
       // Assume that this let_stmt is a closure for this loop. We'll evaluate the values using the parent
       // context, but assign them to our local context.
@@ -462,37 +489,30 @@ public:
       thread_pool* pool = context.config->thread_pool;
       assert(pool);
 
-      // Make a struct of the shared state that doesn't need to be captured by value.
-      struct shared_state {
-        const eval_context& context;
-        index_t step;
-        index_t min;
-        var sym;
-        stmt body;
-        const let_stmt* closure;
-        std::atomic<index_t> result{0};
-      };
-
       stmt body = op->body;
       const let_stmt* closure = as_closure(body);
       if (closure) {
         body = closure->body;
       }
-      shared_state state = {context, step, bounds.min, op->sym, body, closure};
+      parallel_loop_state state = {context, step, bounds.min, op->sym, body, closure, context.parallel_loop};
 
       auto task = [&state, context = eval_context()](index_t i) mutable {
         if (context.size() == 0) {
           // We store the context in the lambda so we can initialize it once per worker. This assumes that the thread
           // pool makes a copy of the worker function, which is perhaps sketchy, but it does do that.
           init_context(context, state.context, state.closure, state.sym);
+          context.parallel_loop = &state;
         }
 
         context.set(state.sym, i * state.step + state.min);
         // Evaluate the parallel loop body with our copy of the context.
         index_t result_i = evaluate(state.body, context);
         if (result_i != 0) {
-          index_t zero = 0;
-          state.result.compare_exchange_strong(zero, result_i);
+          // Iterations that are waiting need to learn about this.
+          context.config->thread_pool->atomic_call([&]() {
+            index_t zero = 0;
+            state.result.compare_exchange_strong(zero, result_i);
+          });
         }
       };
 
@@ -906,6 +926,8 @@ public:
 
   index_t eval(const check* op) {
     if (!eval(op->condition)) {
+      // Waiting for a semaphore only fails because of another failure, which was already reported.
+      if (as_intrinsic(op->condition, intrinsic::semaphore_wait)) return -1;
       return check_failed(op);
     } else {
       return 0;
diff --git a/slinky/runtime/evaluate.h b/slinky/runtime/evaluate.h
index a18ac71..dc5a8d3 100644
--- a/slinky/runtime/evaluate.h
+++ b/slinky/runtime/evaluate.h
@@ -43,6 +43,9 @@ struct eval_config {
   std::size_t auto_stack_threshold = 4 * 1024;
 };
 
+// The state of a parallel loop that the iterations of the loop share.
+struct parallel_loop_state;
+
 class eval_context {
   // Leave uninitialized to avoid overhead and to detect uninitialized memory access via msan.
   std::vector<index_t, uninitialized_allocator<index_t>> values_;
@@ -84,6 +87,9 @@ public:
   std::size_t size() const { return values_.size(); }
 
   const eval_config* config;
+
+  // The innermost parallel loop that is being evaluated, if any.
+  const parallel_loop_state* parallel_loop = nullptr;
 };
 
 index_t evaluate(const expr& e, eval_context& context);
-- 
2.43.0


From 05c6c40581813155d4f18967669e8ff84bc20e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:21 +0000
Subject: [PATCH 35/73] fix: parallel loops that are empty by more than one
 iteration run forever

---
 slinky/runtime/evaluate.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index f73b21f..be4cdb3 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -477,7 +477,7 @@ public:
     interval bounds = eval(op->bounds);
     index_t step = eval(op->step, 1);
     assert(step != 0);
-    std::size_t n = ceil_div(bounds.max - bounds.min + 1, step);
+    std::size_t n = bounds.max < bounds.min ? 0 : ceil_div(bounds.max - bounds.min + 1, step);
 
     if (n == 0) {
       return 0;
-- 
2.43.0


From 5d8b34cc965ff6eb69ab1950e0f1b67ecbebb0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:31 +0000
Subject: [PATCH 36/73] fix: stages of pipelined loops that are not
 synchronized race with later iterations

A loop limited to n workers only synchronized its first n - 1 stages. An iteration in a later stage could still be reading
storage that other iterations, which are not held back by anything any more, overwrite.
---
 slinky/builder/slide_and_fold_storage.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index e3c7e98..0139a51 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -246,9 +246,8 @@ public:
     int loop_id = -1;
 
     bool add_synchronization() {
-      if (prove_true(sync_stages + 1 >= max_workers)) {
-        // It's pointless to add more stages to the loop, because we can't run then in parallel anyways, it would just
-        // add more synchronization overhead.
+      if (prove_true(max_workers <= loop::serial)) {
+        // A serial loop does not need synchronization.
         return false;
       }
 
@@ -822,7 +821,11 @@ public:
 
     const loop_info& l = loops.back();
     const int stage_count = l.sync_stages;
-    expr max_workers = l.data_parallel ? op->max_workers : std::max(1, stage_count);
+    // Every stage that needs it is synchronized, even if there are not enough workers to run all of them at the same
+    // time: an iteration that is not synchronized until its end could still be using storage that later iterations,
+    // which have caught up with it, overwrite.
+    expr max_workers = op->max_workers;
+    if (!l.data_parallel) max_workers = simplify(max(1, min(max_workers, stage_count)));
     stmt result = loop::make(op->sym, max_workers, loop_bounds, op->step, std::move(body));
 
     result = resolve_worker_count(l, max_workers, std::move(result));
-- 
2.43.0


From cbfd5f746b534bfb77d5154e4e47b58294675b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:42 +0000
Subject: [PATCH 37/73] fix: traces of events with long names or names that
 need escaping are not valid JSON

---
 slinky/base/chrome_trace.cc | 38 +++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/slinky/base/chrome_trace.cc b/slinky/base/chrome_trace.cc
index fb9c606..b458c24 100644
--- a/slinky/base/chrome_trace.cc
+++ b/slinky/base/chrome_trace.cc
@@ -3,8 +3,10 @@
 #include <atomic>
 #include <chrono>
 #include <cstdint>
+#include <cstdio>
 #include <fstream>
 #include <memory>
+#include <string>
 
 namespace slinky {
 
@@ -22,17 +24,34 @@ std::clock_t clock_per_thread_us() {
 #endif
 }
 
-const char* message_format =
-    "%s{\"name\":\"%s\",\"cat\":\"%s\",\"ph\":\"%c\",\"pid\":0,\"tid\":%d,\"ts\":%ld,\"tts\":%ld}";
+// Write one event, where `name` can be any string.
+std::string format_event(
+    const char* prefix, const char* name, const char* cat, char type, int tid, long ts, long cpu_ts) {
+  std::string result(prefix);
+  result += "{\"name\":\"";
+  for (; *name; ++name) {
+    if (*name == '"' || *name == '\\') {
+      result += '\\';
+      result += *name;
+    } else if (static_cast<unsigned char>(*name) < 0x20) {
+      char escaped[8];
+      snprintf(escaped, sizeof(escaped), "\\u%04x", *name);
+      result += escaped;
+    } else {
+      result += *name;
+    }
+  }
+  char buffer[256];
+  snprintf(buffer, sizeof(buffer), "\",\"cat\":\"%s\",\"ph\":\"%c\",\"pid\":0,\"tid\":%d,\"ts\":%ld,\"tts\":%ld}", cat, type,
+      tid, ts, cpu_ts);
+  return result + buffer;
+}
 
 }  // namespace
 
 chrome_trace::chrome_trace(std::ostream& os) : os_(os) {
-  char buffer[1024];
-  int size = snprintf(buffer, sizeof(buffer), message_format, "[", "chrome_trace", "slinky", 'B', 0, 0, 0);
-  os_.write(buffer, size);
-  size = snprintf(buffer, sizeof(buffer), message_format, ",\n", "chrome_trace", "slinky", 'E', 0, 0, 0);
-  os_.write(buffer, size);
+  os_ << format_event("[", "chrome_trace", "slinky", 'B', 0, 0, 0);
+  os_ << format_event(",\n", "chrome_trace", "slinky", 'E', 0, 0, 0);
   t0_ = std::chrono::high_resolution_clock::now();
   cpu_t0_ = clock_per_thread_us();
 }
@@ -48,14 +67,13 @@ void chrome_trace::write_event(const char* name, const char* cat, char type) {
   static std::atomic<int> next_thread_id = 0;
   thread_local int tid = next_thread_id++;
 
-  char buffer[1024];
   // It would be an error to put a comma here as the first item in the output, but we put a dummy {} object at the
   // beginning of the array.
-  int size = snprintf(buffer, sizeof(buffer), message_format, ",\n", name, cat, type, tid, ts, cpu_ts);
+  std::string event = format_event(",\n", name, cat, type, tid, ts, cpu_ts);
 
   // Flush our buffer.
   std::unique_lock l(mtx_);
-  os_.write(buffer, size);
+  os_.write(event.data(), event.size());
 }
 
 void chrome_trace::begin(const char* name) { write_event(name, "slinky", 'B'); }
-- 
2.43.0


From 63efdd421b90fe1e0f7fbceca7b4a858fff5b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:42 +0000
Subject: [PATCH 38/73] fix: the traces of a stage that fails, and of all that
 contain it, never end

---
 slinky/runtime/evaluate.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index be4cdb3..5e4bdd6 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -442,7 +442,12 @@ public:
   index_t eval(const block* op) {
     for (const auto& s : op->stmts) {
       index_t result = eval(s);
-      if (result) return result;
+      if (result) {
+        // The trace of something that failed ends too.
+        const check* last = op->stmts.back().as<check>();
+        if (last && as_intrinsic(last->condition, intrinsic::trace_end)) eval(last);
+        return result;
+      }
     }
     return 0;
   }
-- 
2.43.0


From c878632a74af462da4c5f4cd99d5c9f864d56703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:16 +0000
Subject: [PATCH 39/73] fix: bounds of an in-place crop_buffer see dimensions
 that are already cropped

---
 slinky/runtime/evaluate.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 5e4bdd6..de9bc8a 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -733,17 +733,18 @@ public:
 
     std::size_t crop_rank = std::min(op->bounds.size(), buffer->rank);
     interval* old_bounds = SLINKY_ALLOCA(interval, crop_rank);
+    interval* new_bounds = SLINKY_ALLOCA(interval, crop_rank);
+
+    // The bounds may depend on any dimension of the buffer, so evaluate all of them before cropping any dimension.
+    for (std::size_t d = 0; d < crop_rank; ++d) {
+      const slinky::dim& dim = buffer->dims[d];
+      old_bounds[d] = {dim.min(), dim.max()};
+      new_bounds[d] = eval(op->bounds[d], old_bounds[d]);
+    }
 
     void* old_base = buffer->base;
     for (std::size_t d = 0; d < crop_rank; ++d) {
-      slinky::dim& dim = buffer->dims[d];
-      index_t old_min = dim.min();
-      index_t old_max = dim.max();
-      old_bounds[d].min = old_min;
-      old_bounds[d].max = old_max;
-
-      interval bounds = eval(op->bounds[d], {old_min, old_max});
-      buffer->crop(d, bounds.min, bounds.max);
+      buffer->crop(d, new_bounds[d].min, new_bounds[d].max);
     }
 
     index_t result = eval(op->body);
-- 
2.43.0


From 07a2256f301d12ab37286fd93cda7174272f3c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:16 +0000
Subject: [PATCH 40/73] fix: symbols defined more than once in a let are not
 restored

---
 slinky/runtime/evaluate.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index de9bc8a..a3d77db 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -194,7 +194,8 @@ public:
       old_values[i] = context.set(let.first, eval(let.second));
     }
     index_t result = eval(op->body);
-    for (size_t i = 0; i < size; ++i) {
+    // Restore in reverse, in case the same symbol is defined more than once.
+    for (size_t i = size; i-- > 0;) {
       context.set(op->lets[i].first, old_values[i]);
     }
     return result;
@@ -432,7 +433,8 @@ public:
       old_values[i] = context.set(let.first, eval(let.second));
     }
     index_t result = eval(op->body);
-    for (size_t i = 0; i < size; ++i) {
+    // Restore in reverse, in case the same symbol is defined more than once.
+    for (size_t i = size; i-- > 0;) {
       const auto& let = op->lets[i];
       context.set(let.first, old_values[i]);
     }
-- 
2.43.0


From 7b38f47bc461b8fac62a623ec1b19544d8a5b2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:17 +0000
Subject: [PATCH 41/73] fix: an in-place truncate to more dimensions than a
 buffer has reads beyond its dimensions

---
 slinky/runtime/evaluate.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index a3d77db..8706d8a 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -894,7 +894,7 @@ public:
 
       // In-place truncate, all we need to do is set the rank (and restore it).
       std::size_t old_rank = src_buf->rank;
-      src_buf->rank = op->dims.size();
+      src_buf->rank = std::min(op->dims.size(), old_rank);
       index_t result = eval(op->body);
       src_buf->rank = old_rank;
       return result;
-- 
2.43.0


From 4ca428254e5aa2f3073690f7da5fddad15234bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:17 +0000
Subject: [PATCH 42/73] fix: async tasks use the context of their parent while
 it changes

---
 slinky/runtime/evaluate.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 8706d8a..4351aad 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -557,18 +557,19 @@ public:
     }
   }
 
-  index_t eval_with_new_context(stmt task) {
-    eval_context context;
-    const let_stmt* closure = as_closure(task);
-    if (closure) task = closure->body;
-    init_context(context, this->context, closure);
-
-    return evaluate(task, context);
+  // Make a new context to evaluate `s` with, and return the stmt to evaluate.
+  stmt make_new_context(const stmt& s, eval_context& new_context) {
+    const let_stmt* closure = as_closure(s);
+    init_context(new_context, context, closure);
+    return closure ? closure->body : s;
   }
 
   SLINKY_NO_INLINE index_t eval(const async* op) {
     index_t task_result = 0;
-    auto task_body = [&]() { task_result = eval_with_new_context(op->task); };
+    // The task must not use our context: it doesn't see `op->sym`, and may run at the same time as we modify it below.
+    eval_context task_context;
+    stmt task_stmt = make_new_context(op->task, task_context);
+    auto task_body = [&]() { task_result = evaluate(task_stmt, task_context); };
     ref_count<thread_pool::task> task;
     thread_pool* pool = context.config->thread_pool;
     if (pool) {
@@ -579,9 +580,11 @@ public:
 
     context.reserve(op->sym.id + 1);
     index_t old_sym = 0;
-    if (op->sym.defined()) context.set(op->sym, reinterpret_cast<index_t>(&*task));
+    if (op->sym.defined()) old_sym = context.set(op->sym, reinterpret_cast<index_t>(&*task));
 
-    index_t result = eval_with_new_context(op->body);
+    eval_context body_context;
+    stmt body = make_new_context(op->body, body_context);
+    index_t result = evaluate(body, body_context);
 
     if (op->sym.defined()) context.set(op->sym, old_sym);
 
-- 
2.43.0


From fdb232913cd77d1b3ed7e5a603a4e53daa729038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:17 +0000
Subject: [PATCH 43/73] fix: evaluating in-place operations on a constant
 buffer modifies the constant

---
 slinky/runtime/evaluate.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 4351aad..c5387c0 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -718,7 +718,11 @@ public:
   }
 
   SLINKY_NO_STACK_PROTECTOR index_t eval(const constant_buffer* op) {
-    return eval_with_value(op->body, op->sym, reinterpret_cast<index_t>(&*op->value));
+    // The constant is shared, make a copy of it that the body can modify in place.
+    raw_buffer buffer = *op->value;
+    buffer.dims = SLINKY_ALLOCA(dim, op->value->rank);
+    internal::copy_small_n(op->value->dims, op->value->rank, buffer.dims);
+    return eval_with_value(op->body, op->sym, reinterpret_cast<index_t>(&buffer));
   }
 
   index_t eval(const clone_buffer* op) {
-- 
2.43.0


From ec4c1585e2207f88c962f5d5566dba3b2f1b7b96 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:49:06 +0000
Subject: [PATCH 44/73] fix: dependences through a let that renames a buffer
 are lost

---
 slinky/runtime/depends_on.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/depends_on.cc b/slinky/runtime/depends_on.cc
index 5918f40..1210dbe 100644
--- a/slinky/runtime/depends_on.cc
+++ b/slinky/runtime/depends_on.cc
@@ -108,7 +108,12 @@ public:
     size_t var_deps_count = var_deps.size();
     for (const auto& p : op->lets) {
       p.second.accept(this);
-      if (decl_needs_shadow(p.first)) {
+      auto alias = as_variable(p.second);
+      depends_on_result* value_deps = alias ? no_dummy(find_deps(*alias)) : nullptr;
+      if (value_deps) {
+        // This let is another name for a symbol we want the dependencies of.
+        var_deps.push_back({p.first, value_deps});
+      } else if (decl_needs_shadow(p.first)) {
         var_deps.push_back({p.first, &dummy_deps});
       }
     }
-- 
2.43.0


From 6c8878478036e26a01c71b8e33ef8bd3518bbab4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:49:06 +0000
Subject: [PATCH 45/73] fix: substituting into a let leaves declarations too
 early and turns closures into lets

---
 slinky/builder/substitute.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index 8276f0a..4c74f18 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -1,5 +1,6 @@
 #include "slinky/builder/substitute.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 #include <cstring>
@@ -445,6 +446,16 @@ int compare(stmt_ref a, stmt_ref b) {
 
 namespace {
 
+expr make_let(const let*, std::vector<std::pair<var, expr>> lets, expr body) {
+  return let::make(std::move(lets), std::move(body));
+}
+stmt make_let(const let_stmt* op, std::vector<std::pair<var, expr>> lets, stmt body) {
+  // A closure can only have variables for values.
+  const bool is_closure =
+      op->is_closure && std::all_of(lets.begin(), lets.end(), [](const auto& i) { return as_variable(i.second); });
+  return let_stmt::make(std::move(lets), std::move(body), is_closure);
+}
+
 template <typename T>
 auto mutate_let(substitutor* this_, const T* op) {
   std::vector<std::pair<var, expr>> lets = op->lets;
@@ -455,10 +466,7 @@ auto mutate_let(substitutor* this_, const T* op) {
     changed = changed || !value.same_as(s.second);
     s.second = std::move(value);
     var decl = this_->enter_decl(s.first);
-    if (!decl.defined()) {
-      this_->exit_decls(decls_entered);
-      break;
-    }
+    if (!decl.defined()) break;
     changed = changed || decl != s.first;
     s.first = decl;
     ++decls_entered;
@@ -470,7 +478,7 @@ auto mutate_let(substitutor* this_, const T* op) {
   if (!changed) {
     return decltype(op->body){op};
   } else {
-    return T::make(std::move(lets), std::move(body));
+    return make_let(op, std::move(lets), std::move(body));
   }
 }
 
-- 
2.43.0


From 09763618e0a6c0921b749795a25daf970b8f51a7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:49:06 +0000
Subject: [PATCH 46/73] fix: substitute does not replace uses in max_workers of
 a loop

---
 slinky/builder/substitute.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index 4c74f18..c286a21 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -504,13 +504,15 @@ void substitutor::visit(const let_stmt* op) { set_result(mutate_let(this, op));
 void substitutor::visit(const loop* op) {
   interval_expr bounds = mutate(op->bounds);
   expr step = mutate(op->step);
+  expr max_workers = mutate(op->max_workers);
   var sym = enter_decl(op->sym);
   stmt body = sym.defined() ? mutate(op->body) : op->body;
   sym = sym.defined() ? sym : op->sym;
-  if (sym == op->sym && bounds.same_as(op->bounds) && step.same_as(op->step) && body.same_as(op->body)) {
+  if (sym == op->sym && bounds.same_as(op->bounds) && step.same_as(op->step) &&
+      max_workers.same_as(op->max_workers) && body.same_as(op->body)) {
     set_result(op);
   } else {
-    set_result(loop::make(sym, op->max_workers, std::move(bounds), std::move(step), std::move(body)));
+    set_result(loop::make(sym, std::move(max_workers), std::move(bounds), std::move(step), std::move(body)));
   }
   exit_decls();
 }
-- 
2.43.0


From 071c0f18542722f8dfd41c1219da3f575c43f8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:49:06 +0000
Subject: [PATCH 47/73] fix: substituting into async treats its task as in the
 scope of its symbol

---
 slinky/builder/substitute.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index c286a21..1fba467 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -668,8 +668,9 @@ void substitutor::visit(const crop_dim* op) {
 }
 
 void substitutor::visit(const async* op) {
+  // The task is not in the scope of the symbol.
+  stmt task = mutate(op->task);
   var sym = enter_decl(op->sym);
-  stmt task = sym.defined() ? mutate(op->task) : op->task;
   stmt body = sym.defined() ? mutate(op->body) : op->body;
   sym = sym.defined() ? sym : op->sym;
   if (sym == op->sym && task.same_as(op->task) && body.same_as(op->body)) {
-- 
2.43.0


From d00840eda77559d55bdcf1ca04a5c6ad143de616 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:49:06 +0000
Subject: [PATCH 48/73] fix: substitute ignores the buffers of a copy whose
 dst_x shadows the target

---
 slinky/builder/substitute.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index 1fba467..53f831f 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -770,9 +770,8 @@ void substitutor::visit(const copy_stmt* op) {
   for (var& i : dst_x) {
     var new_i = enter_decl(i);
     if (!new_i.defined()) {
-      set_result(op);
-      exit_decls(decls_entered);
-      return;
+      // The symbol is not visible in src_x, but we still need to substitute the buffers.
+      break;
     } else if (new_i != i) {
       i = new_i;
       changed = true;
-- 
2.43.0


From 073f259799ddb23e492c99513b7296b7574c0665 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:49:06 +0000
Subject: [PATCH 49/73] fix: deshadow restores the wrong name when a let
 declares a symbol twice

---
 slinky/builder/optimizations.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 3b1097a..5c7e101 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1712,7 +1712,12 @@ public:
     return renamed;
   }
 
-  void exit_decls(int n) override { decls.erase(decls.begin() + decls.size() - n, decls.end()); }
+  void exit_decls(int n) override {
+    // A symbol may be declared more than once, so the declarations need to be undone in reverse order.
+    for (; n > 0; --n) {
+      decls.pop_back();
+    }
+  }
 
   void visit(const loop* op) override {
     interval_expr bounds = mutate(op->bounds);
-- 
2.43.0


From f9d164e72a48d4f27a647a87e483fef164f37483 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:49:06 +0000
Subject: [PATCH 50/73] fix: simplify drops fold factors of make_buffer that
 affect the base

---
 slinky/builder/simplify.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 76c74ea..f1a172a 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1625,7 +1625,7 @@ public:
     }
   }
 
-  dim_info mutate_dim(const dim_expr& d) {
+  dim_info mutate_dim(const dim_expr& d, bool is_allocation) {
     // Mutate each field directly into `result`, capturing its bounds/alignment, then attach the (possibly
     // canonicalized) value.
     dim_info result;
@@ -1635,7 +1635,10 @@ public:
     if (is_constant(fold_factor, dim::unfolded)) fold_factor = expr();
     if (fold_factor.defined() && !is_constant(fold_factor, 0) && !is_constant(stride, 0) &&
         !(is_constant(bounds.min, 0) && is_constant(bounds.max, 0)) &&
-        prove_true(bounds.min / fold_factor == bounds.max / fold_factor))
+        prove_true(bounds.min / fold_factor == bounds.max / fold_factor) &&
+        // The base of a folded dimension is the address of a multiple of the fold factor, the base of a dimension that
+        // is not folded is the address of the min. These need to be the same if the base is given.
+        (is_allocation || prove_true(bounds.min % fold_factor == 0)))
       fold_factor = expr();
     if (is_constant(stride, dim::auto_stride)) stride = expr();
     result.min.set_value(bounds.min);
@@ -1654,7 +1657,7 @@ public:
     bool changed = !info.elem_size.value().same_as(op->elem_size);
     info.dims.reserve(op->dims.size());
     for (std::size_t d = 0; d < op->dims.size(); ++d) {
-      info.dims.push_back(mutate_dim(op->dims[d]));
+      info.dims.push_back(mutate_dim(op->dims[d], op->type == stmt_node_type::allocate));
       changed = changed || !info.dims.back().value().same_as(op->dims[d]);
     }
     // Remove trailing broadcast dimensions.
-- 
2.43.0


From 21c5f1000855d501707b35daff3c05d0c94c03d2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:49:06 +0000
Subject: [PATCH 51/73] fix: simplify drops a truncation of a buffer of unknown
 rank

---
 slinky/builder/simplify.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index f1a172a..2873af6 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1805,7 +1805,7 @@ public:
       expr elem_size = info.elem_size.value();
 
       auto make_truncate = [&](var src, int rank, stmt body) {
-        if (src_info && src_info->rank <= rank) {
+        if (src_info && src_info->rank >= 0 && src_info->rank <= rank) {
           // We know all the dims, and the rank is already what we want to truncate to.
           return body;
         }
-- 
2.43.0


From aa80a14594c2f48456bd324a8d16a37100741a57 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:49:07 +0000
Subject: [PATCH 52/73] fix: simplify uses the removed name of a clone when it
 merges slices and transposes

---
 slinky/builder/simplify.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 2873af6..c4516ce 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2296,14 +2296,14 @@ public:
         if (!prove_slice_unaffected_by_crop(c->bounds, op_at)) {
           break;
         }
-        op_src = c->src;
+        op_src = visit_symbol(c->src);
         info = buffers[op_src];
         op = nullptr;
       } else if (const crop_dim* c = info->decl.as<crop_dim>()) {
         if (!prove_slice_unaffected_by_crop(c->dim, c->bounds, op_at)) {
           break;
         }
-        op_src = c->src;
+        op_src = visit_symbol(c->src);
         info = buffers[op_src];
         op = nullptr;
       } else {
@@ -2395,9 +2395,9 @@ public:
   }
 
   void visit(const transpose* op) override {
-    const std::optional<buffer_info>* src_info = &buffers[op->src];
-
     var src = visit_symbol(op->src);
+    const std::optional<buffer_info>* src_info = &buffers[src];
+
     std::vector<int> dims = op->dims;
     while (src_info && *src_info) {
       if (const transpose* t = (*src_info)->decl.as<transpose>()) {
@@ -2409,7 +2409,7 @@ public:
           }
           // This is a transpose of another transpose. Rewrite this to directly transpose the parent.
           dims = permute(dims, t->dims, transpose::new_dim);
-          src = t->src;
+          src = visit_symbol(t->src);
           src_info = &buffers[src];
           continue;
         }
-- 
2.43.0


From 986cca0daeade313b39f9b5be75b2dbd52a1ffef Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:49:07 +0000
Subject: [PATCH 53/73] fix: simplify ignores that nested crops are clamped
 when merging them

---
 slinky/builder/simplify.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index c4516ce..f1fda23 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2140,32 +2140,44 @@ public:
     return deps.buffer_output || deps.buffer_src || deps.buffer_dst || deps.buffer_bounds;
   }
 
+  // Make the dimensions of `src` after a crop to `bounds`, which are implicitly clamped to the bounds of `src`.
+  static std::vector<dim_expr> make_dims_from_crop(var src, const box_expr& bounds) {
+    std::vector<dim_expr> dims(bounds.size());
+    for (index_t d = 0; d < static_cast<index_t>(bounds.size()); ++d) {
+      if (bounds[d].min.defined()) dims[d].bounds.min = max(bounds[d].min, buffer_min(src, d));
+      if (bounds[d].max.defined()) dims[d].bounds.max = min(bounds[d].max, buffer_max(src, d));
+    }
+    return dims;
+  }
+
   void visit_crop(const base_stmt_node* op, var op_sym, var op_src, box_expr op_bounds, stmt op_body) {
     std::optional<buffer_info> info = get_buffer_info(op_src);
 
     while (info && info->decl.defined() && info->loop_depth == 0) {
       if (const crop_buffer* c = info->decl.as<crop_buffer>()) {
         // Substitute the outer crop bounds into this crop's bounds.
-        auto c_dims = make_dims_from_bounds(c->bounds);
+        auto c_dims = make_dims_from_crop(c->src, c->bounds);
         for (interval_expr& i : op_bounds) {
           i = substitute_buffer(i, op_src, c_dims, c->sym);
         }
         // Nested crops of the same buffer, and the crop isn't used.
         op_bounds.resize(std::max(op_bounds.size(), c->bounds.size()));
         op_bounds = c->bounds & op_bounds;
-        op_src = c->src;
+        op_src = visit_symbol(c->src);
         info = get_buffer_info(op_src);
         op = nullptr;
       } else if (const crop_dim* c = info->decl.as<crop_dim>()) {
         // Substitute the outer crop bounds into this crop's bounds.
-        auto c_dims = make_dims_from_bounds(c->dim, c->bounds);
+        box_expr c_bounds(c->dim + 1);
+        c_bounds[c->dim] = c->bounds;
+        auto c_dims = make_dims_from_crop(c->src, c_bounds);
         for (interval_expr& i : op_bounds) {
           i = substitute_buffer(i, op_src, c_dims, c->sym);
         }
         // Nested crops of the same buffer, and the crop isn't used.
         op_bounds.resize(std::max<int>(op_bounds.size(), c->dim + 1));
         op_bounds[c->dim] = c->bounds & op_bounds[c->dim];
-        op_src = c->src;
+        op_src = visit_symbol(c->src);
         info = get_buffer_info(op_src);
         op = nullptr;
       } else {
-- 
2.43.0


From 65b0c9dde4423b932a1b595691c8903d18abfb2e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:49:07 +0000
Subject: [PATCH 54/73] fix: simplify asserts on make_buffer that is a no-op
 crop and a truncation

---
 slinky/builder/simplify.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index f1fda23..e52528c 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2458,6 +2458,9 @@ public:
       }
     }
 
+    // A self shadowing transpose hides what we know about the symbol it shadows, which may have been substituted.
+    auto hide_var = set_value_in_scope(vars, op->sym, std::nullopt);
+
     stmt body = mutate_with_buffer(op, op->body, op->sym, src, std::move(sym_info));
 
     auto make_transpose = [&](stmt body) {
-- 
2.43.0


From f3119c7da2fefa6bb9cb06507d8e8d2da5c033d8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:49:07 +0000
Subject: [PATCH 55/73] fix: simplify replaces a constant with a crop or slice
 of the same constant

---
 slinky/builder/simplify.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index e52528c..c00e4e6 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1278,6 +1278,8 @@ public:
     if (buffer) {
       buffer->decl = stmt(decl);
       buffer->src = src;
+      // This is a view of `src`, even if `src` is a constant.
+      buffer->constant = nullptr;
     }
     auto set_buffer = set_value_in_scope(buffers, buf, std::move(buffer));
     assert(!vars.contains(buf));
-- 
2.43.0


From 856e718617a587bf454061a2dde6ba452ee7a4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:49:07 +0000
Subject: [PATCH 56/73] fix: early free in an async task while its body may use
 the buffer

---
 slinky/builder/optimizations.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 5c7e101..d6f0a7f 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1439,6 +1439,8 @@ public:
   }
 
   void visit(const loop* op) override { visit_terminal(stmt(op)); }
+  // The task and the body of an async may run in any order, so we can only free after both.
+  void visit(const async* op) override { visit_terminal(stmt(op)); }
   void visit(const call_stmt* op) override { visit_terminal(stmt(op)); }
   void visit(const copy_stmt* op) override { visit_terminal(stmt(op)); }
   void visit(const check* op) override { visit_terminal(stmt(op)); }
-- 
2.43.0


From 3677b55e54a8b929bc42eb982461bec3cdf603db Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:03:42 +0000
Subject: [PATCH 57/73] fix: fuse_siblings makes a buffer a clone of itself

---
 slinky/builder/optimizations.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index d6f0a7f..17f74a6 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1252,7 +1252,8 @@ class sibling_fuser : public stmt_mutator {
     if (!a || !b || !can_fuse(a, b)) return false;
 
     // We can't substitute here because it is possible that b declares a and uses it elsewhere.
-    stmt body = block::make({a->body, clone_buffer::make(b->sym, a->sym, b->body)});
+    stmt b_body = a->sym == b->sym ? b->body : clone_buffer::make(b->sym, a->sym, b->body);
+    stmt body = block::make({a->body, std::move(b_body)});
     result = clone_with(a, std::move(body));
     return true;
   }
-- 
2.43.0


From cebe6ccd931bcd3447413fc2a1bfe6cbaee77ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:03:42 +0000
Subject: [PATCH 58/73] fix: simplify removes buffers whose metadata it cannot
 substitute

---
 slinky/builder/simplify.cc | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index c00e4e6..d4424a1 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1683,8 +1683,11 @@ public:
       return;
     } else if (!deps.buffer_data()) {
       // We only needed the buffer meta, not the allocation itself.
-      set_result(mutate_with_buffer(nullptr, op->body, op->sym, std::move(info)));
-      return;
+      stmt result = mutate_with_buffer(nullptr, op->body, op->sym, info);
+      if (!depends_on(result, op->sym).any()) {
+        set_result(std::move(result));
+        return;
+      }
     }
 
     stmt before, after;
@@ -1787,8 +1790,12 @@ public:
 
     if (can_substitute_buffer(deps)) {
       // We only needed the buffer meta, not the buffer itself.
-      set_result(mutate_with_buffer(nullptr, op->body, op->sym, find_buffer_data_dependency(base), std::move(info)));
-      return;
+      stmt result = mutate_with_buffer(nullptr, op->body, op->sym, find_buffer_data_dependency(base), info);
+      // We may not have been able to substitute all of the meta.
+      if (!depends_on(result, op->sym).any()) {
+        set_result(std::move(result));
+        return;
+      }
     }
 
     if (const call* bc = as_intrinsic(base, intrinsic::buffer_at)) {
@@ -1906,8 +1913,11 @@ public:
         return body;
       } else if (can_substitute_buffer(deps)) {
         // We only needed the buffer meta, not the buffer itself.
-        return mutate_with_buffer(nullptr, body, op->sym, find_buffer_data_dependency(base), info);
-      } else if (changed || !body.same_as(op->body)) {
+        stmt result = mutate_with_buffer(nullptr, body, op->sym, find_buffer_data_dependency(base), info);
+        if (!depends_on(result, op->sym).any()) return result;
+      }
+
+      if (changed || !body.same_as(op->body)) {
         return make_buffer::make(op->sym, base, info.elem_size.value(), info.dim_exprs(), std::move(body));
       } else {
         return stmt(op);
@@ -1945,8 +1955,11 @@ public:
         return body;
       } else if (can_substitute_buffer(deps)) {
         // We only needed the buffer meta, not the buffer itself.
-        return mutate_with_buffer(nullptr, body, op->sym, info);
-      } else if (!body.same_as(op->body)) {
+        stmt result = mutate_with_buffer(nullptr, body, op->sym, info);
+        if (!depends_on(result, op->sym).any()) return result;
+      }
+
+      if (!body.same_as(op->body)) {
         return constant_buffer::make(op->sym, op->value, std::move(body));
       } else {
         return stmt(op);
-- 
2.43.0


From b9fdaa4ff6caf30a656fed109d2b00e2d94f2277 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:17:34 +0000
Subject: [PATCH 59/73] fix: simplify merges the iterations of a loop around a
 call with scalars that depend on the loop

---
 slinky/builder/simplify.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index d4424a1..dbff5d9 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1405,6 +1405,10 @@ public:
     for (auto i = new_crops.rbegin(); i != new_crops.rend(); ++i) {
       result = crop_dim::make(std::get<0>(*i), std::get<1>(*i), std::get<2>(*i), std::get<3>(*i), result);
     }
+    if (depends_on(result, loop).any()) {
+      // Something other than the bounds of the crops depends on the loop.
+      return body;
+    }
     return result;
   }
 
-- 
2.43.0


From 084498ac53fa31c5f255720bf53b35eb36d8a35f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:07:01 +0000
Subject: [PATCH 60/73] fix: simplify drops clamps of crops scaled by a
 negative constant

---
 slinky/builder/simplify.cc | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index dbff5d9..f4da6d9 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -10,6 +10,7 @@
 #include <optional>
 #include <set>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 #include <vector>
 
@@ -2008,6 +2009,7 @@ public:
 
   template <typename T>
   expr remove_redundant_bounds(expr x, const std::set<expr, node_less>& bounds, const expr& def) {
+    using Opposite = std::conditional_t<std::is_same<T, class min>::value, class max, class min>;
     auto is_redundant = [&](const expr& x) {
       // A bound x is redundant if the bounds already have a value i such that T(x, i) == i
       for (const expr& i : bounds) {
@@ -2041,26 +2043,28 @@ public:
         }
       }
     } else if (const div* xa = x.as<div>()) {
-      if (as_constant(xa->b)) {
+      if (auto c = as_constant(xa->b)) {
         // We have T(x / y, b). We can rewrite to T(x, b * y) / y, and if we can eliminate the bound, the whole
-        // bound is redundant.
+        // bound is redundant. If y is negative, x is a bound of the opposite kind.
         for (const expr& i : bounds) {
-          expr removed = remove_redundant_bounds<T>(xa->a, {mutate(i * xa->b)}, def * xa->b);
+          expr removed = *c < 0 ? remove_redundant_bounds<Opposite>(xa->a, {mutate(i * xa->b)}, def * xa->b)
+                                : remove_redundant_bounds<T>(xa->a, {mutate(i * xa->b)}, def * xa->b);
           if (!removed.same_as(xa->a)) {
             return std::move(removed) / xa->b;
           }
         }
       }
     } else if (const mul* xa = x.as<mul>()) {
-      if (as_constant(xa->b)) {
+      if (auto c = as_constant(xa->b)) {
         // We have T(x * y, b). We can do something similar to the above, but we need to be careful because division
         // is not invertible. Since we're looking for bounds, we can use a conservative rounding. If we're looking for
-        // redundant mins, we should round up, and redundant maxes should round down.
+        // redundant mins of x, we should round up, and redundant maxes should round down.
+        const bool is_min = std::is_same<T, class min>::value == (*c > 0);
         for (const expr& i : bounds) {
-          auto div = [](const expr& a, const expr& b) {
-            return std::is_same<T, class min>::value ? ceil_div(a, b) : floor_div(a, b);
-          };
-          expr removed = remove_redundant_bounds<T>(xa->a, {mutate(div(i, xa->b))}, div(def, xa->b));
+          auto div = [=](const expr& a, const expr& b) { return is_min ? ceil_div(a, b) : floor_div(a, b); };
+          expr removed = *c < 0
+                             ? remove_redundant_bounds<Opposite>(xa->a, {mutate(div(i, xa->b))}, div(def, xa->b))
+                             : remove_redundant_bounds<T>(xa->a, {mutate(div(i, xa->b))}, div(def, xa->b));
           if (!removed.same_as(xa->a)) {
             return std::move(removed) * xa->b;
           }
-- 
2.43.0


From 390cf387433384a09d37eb658e49a1525f027252 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:07:01 +0000
Subject: [PATCH 61/73] fix: padded copies that need loops read out of bounds
 or use the wrong padding

---
 slinky/builder/optimizations.cc | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 17f74a6..e802d0d 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -168,6 +168,12 @@ bool is_copy(var src, expr src_x, int src_d, var dst, span<const var> dst_x, int
 bool is_copy(const copy_stmt* op, int src_d, int dst_d, expr& at, dim_expr& src_dim) {
   // We might not have an src dim if we're trying to broadcast.
   expr src_x = src_d != transpose::new_dim ? op->src_x[src_d] : expr();
+  if (op->pad.defined()) {
+    // If the src depends on multiple dst dimensions, the part of the dst that is padding is not a box.
+    for (int i = 0; i < static_cast<int>(op->dst_x.size()); ++i) {
+      if (i != dst_d && src_x.defined() && depends_on(src_x, op->dst_x[i]).any()) return false;
+    }
+  }
   return is_copy(op->src, src_x, src_d, op->dst, op->dst_x, dst_d, at, src_dim);
 }
 
@@ -1316,6 +1322,16 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
   // Start by making a call to copy.
   // We're going to slice this buffer, to avoid messing with metadata in the user expressions, work on a clone instead.
   var dst = ctx.insert_unique(ctx.name(op->dst) + ".sliced");
+  // If we are going to slice the dst, we need to slice the padding too.
+  var pad = op->pad;
+  for (int dst_d = 0; dst_d < static_cast<int>(op->dst_x.size()); ++dst_d) {
+    int src_d;
+    expr at;
+    dim_expr src_dim;
+    if (!op->pad.defined() || (is_copy_dst_dim(op, dst_d, src_d) && is_copy(op, src_d, dst_d, at, src_dim))) continue;
+    pad = ctx.insert_unique(ctx.name(op->pad) + ".sliced");
+    break;
+  }
   call_stmt::attributes copy_attrs;
   copy_attrs.name = "copy";
   stmt result = call_stmt::make(
@@ -1330,10 +1346,15 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
         assert(pad_buf);
         // If the dst was sliced out of bounds, there is nothing to copy to.
         if (!dst_buf->base) return 0;
+        if (!src_buf->base && pad_buf->base) {
+          // If the src was sliced out of bounds, the result is entirely padding.
+          impl(*pad_buf, *dst_buf, no_padding);
+          return 0;
+        }
         impl(*src_buf, *dst_buf, *pad_buf);
         return 0;
       },
-      {}, {op->src, dst, op->pad}, {}, std::move(copy_attrs));
+      {}, {op->src, dst, pad}, {}, std::move(copy_attrs));
 
   std::vector<expr> src_x = op->src_x;
   std::vector<var> dst_x = op->dst_x;
@@ -1380,8 +1401,10 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
   for (int d = 0; d < static_cast<index_t>(dst_x.size()); ++d) {
     if (!dst_x[d].defined()) continue;
     result = slice_dim::make(dst, dst, d, dst_x[d], result);
+    if (pad != op->pad) result = slice_dim::make(pad, pad, d, dst_x[d], result);
     result = loop::make(dst_x[d], loop::serial, buffer_bounds(dst, d), 1, result);
   }
+  if (pad != op->pad) result = clone_buffer::make(pad, op->pad, std::move(result));
   return clone_buffer::make(dst, op->dst, std::move(result));
 }
 
-- 
2.43.0


From 2e307e160965ca8bba71101ea1af41c7595e0c0e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:07:01 +0000
Subject: [PATCH 62/73] fix: buffers are aliased to padded copies of a part of
 them, and overwritten by the padding

---
 slinky/builder/optimizations.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index e802d0d..b9cd7ec 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -295,6 +295,11 @@ class copy_aliaser : public stmt_mutator {
 
     bool is_contiguous_copy = false;
 
+    // If true, this is an alias of the source or the destination of a copy that pads the source. Such a copy will write
+    // the padding to the memory outside the bounds of the source.
+    bool pads_target = false;
+    bool pads_self = false;
+
     bool disabled = false;
   };
 
@@ -756,6 +761,7 @@ public:
 
     // If there is no padding, we can assume that the src is always in bounds of dst.
     a.assume_in_bounds = !op->pad.defined();
+    a.pads_target = op->pad.defined();
 
     a.elem_size = buffer_elem_size(op->src);
 
@@ -820,6 +826,7 @@ public:
     }
 
     a.assume_in_bounds = false;
+    a.pads_self = op->pad.defined();
     a.elem_size = buffer_elem_size(op->dst);
 
     info->aliases.push_back(std::move(a));
@@ -833,7 +840,7 @@ public:
   }
 
   void merge_buffer_info(symbol_map<buffer_info>& old_buffers, var sym, var src,
-      function_ref<void(alias_info&)> handler, span<const int> dim_map) {
+      function_ref<void(alias_info&)> handler, span<const int> dim_map, bool is_crop) {
     // Build sub_dims to substitute buffer metadata of sym with the corresponding src dimensions.
     // dim_map remaps dimensions: sym.dim[d] corresponds to src.dim[dim_map[d]].
     std::vector<dim_expr> sub_dims(dim_map.size());
@@ -889,6 +896,8 @@ public:
         old_info->shared_alloc_syms = std::move(info->shared_alloc_syms);
       }
       for (alias_info& a : info->aliases) {
+        // If the source of a padded copy is a crop of a buffer, the padding would overwrite the rest of the buffer.
+        if (is_crop && ((a.pads_target && a.target == sym) || (a.pads_self && var(i) == sym))) a.disabled = true;
         if (a.target == sym) {
           a.target = src;
         }
@@ -899,7 +908,8 @@ public:
   }
 
   template <typename T>
-  void visit_buffer_mutator(const T* op, function_ref<void(alias_info&)> handler, span<const int> dim_map) {
+  void visit_buffer_mutator(
+      const T* op, function_ref<void(alias_info&)> handler, span<const int> dim_map, bool is_crop = false) {
     // We need to know which alias candidates are added inside this mutator.
     symbol_map<buffer_info> old_buffers(buffers.size());
     std::swap(old_buffers, buffers);
@@ -916,7 +926,7 @@ public:
     stmt_mutator::visit(op);
 
     scoped_trace trace("visit_buffer_mutator");
-    merge_buffer_info(old_buffers, op->sym, op->src, handler, dim_map);
+    merge_buffer_info(old_buffers, op->sym, op->src, handler, dim_map, is_crop);
   }
 
   void visit(const slice_buffer* op) override {
@@ -961,7 +971,7 @@ public:
 
   void visit(const crop_buffer* op) override {
     std::size_t rank = buffers[op->src] ? buffers[op->src]->dims.size() : 0;
-    visit_buffer_mutator(op, [](alias_info&) {}, iota(rank));
+    visit_buffer_mutator(op, [](alias_info&) {}, iota(rank), /*is_crop=*/true);
 
     std::vector<dim_expr> subs(op->bounds.size());
     for (std::size_t i = 0; i < subs.size(); ++i) {
@@ -972,7 +982,7 @@ public:
 
   void visit(const crop_dim* op) override {
     std::size_t rank = buffers[op->src] ? buffers[op->src]->dims.size() : 0;
-    visit_buffer_mutator(op, [](alias_info&) {}, iota(rank));
+    visit_buffer_mutator(op, [](alias_info&) {}, iota(rank), /*is_crop=*/true);
 
     std::vector<dim_expr> subs(op->dim + 1);
     subs[op->dim].bounds = op->bounds & buffer_bounds(op->src, op->dim);
-- 
2.43.0


From 540c647e9e8493c9e3bf896f91c3ae3893b7a42e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:07:01 +0000
Subject: [PATCH 63/73] fix: buffers are aliased to folded buffers at the wrong
 offset, or overwritten by padding before they are used

---
 slinky/builder/optimizations.cc | 46 +++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index b9cd7ec..25dda8b 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -446,24 +446,30 @@ class copy_aliaser : public stmt_mutator {
         }
       }
 
-      if (alloc_dims[d].fold_factor.defined()) {
-        if (!alias_dim.fold_factor.defined() || is_constant(alias_dim.fold_factor, dim::unfolded)) {
-          // The target isn't folded, we can alias this buffer. We lose our fold factor, but it's not going to occupy
-          // any memory anyways if it's an alias.
-        } else if (!prove_true(alias_dim.fold_factor >= alloc_dims[d].fold_factor)) {
-          // The fold factor of this allocation does not evenly divide the target fold factor.
-          // TODO: We could increase the fold factor like we do the bounds.
+      if (alias_dim.fold_factor.defined() && !is_constant(alias_dim.fold_factor, dim::unfolded)) {
+        if (alloc_dims[d].fold_factor.defined()) {
+          if (!prove_true(alias_dim.fold_factor >= alloc_dims[d].fold_factor)) {
+            // The fold factor of this allocation does not evenly divide the target fold factor.
+            // TODO: We could increase the fold factor like we do the bounds.
+            return false;
+          } else if (!prove_true((alias_dim.bounds.min % alias_dim.fold_factor) ==
+                                 (alloc_dims[d].bounds.min % alloc_dims[d].fold_factor))) {
+            // The mins of folded buffers are not aligned.
+            return false;
+          }
+        } else if (alias.pads_target || alias.pads_self ||
+                   !prove_true(alloc_dims[d].extent() <= alias_dim.fold_factor)) {
+          // If the target is folded, but the op is not, we can only alias it if the extent of this dimension
+          // is less than the fold factor, and a padded copy isn't going to overwrite it before it is used.
           return false;
-        } else if (!prove_true((alias_dim.bounds.min % alias_dim.fold_factor) ==
-                               (alloc_dims[d].bounds.min % alloc_dims[d].fold_factor))) {
-          // The mins of folded buffers are not aligned.
+        }
+        if (!prove_true((alias_dim.bounds.min % alias_dim.fold_factor) == (alloc_dims[d].bounds.min % alias_dim.fold_factor))) {
+          // The alias would not use the same memory of the target as the target itself.
           return false;
         }
-      } else if ((alias_dim.fold_factor.defined() && !is_constant(alias_dim.fold_factor, dim::unfolded)) &&
-                 !prove_true(alloc_dims[d].extent() <= alias_dim.fold_factor)) {
-        // If the target is folded, but the op is not, we can only alias it if the extent of this dimension
-        // is less than the fold factor.
-        return false;
+      } else {
+        // The target isn't folded, we can alias this buffer. We lose our fold factor, but it's not going to occupy
+        // any memory anyways if it's an alias.
       }
     }
     return true;
@@ -606,11 +612,17 @@ public:
         // refers to to check if the alias would grow the allocation (or it is out of bounds), but we still need the
         // original bounds, which we get here.
         std::vector<dim_expr> alias_dims = alias.dims;
+        std::vector<expr> at = alias.at;
         for (std::size_t d = 0; d < alias_dims.size(); ++d) {
           alias_dims[d].bounds = info.dims[d].bounds;
+          // The base of a folded dimension does not depend on the bounds.
+          expr fold_factor = substitute_buffer(alias_dims[d].fold_factor, target_var, target_info->dims);
+          if (fold_factor.defined() && as_constant(fold_factor) && !is_constant(fold_factor, dim::unfolded)) {
+            const int target_d = alias.permutation[d];
+            if (0 <= target_d && target_d < static_cast<int>(at.size())) at[target_d] = expr();
+          }
         }
-        stmt result =
-            make_buffer::make(sym, buffer_at(alloc_var, alias.at), elem_size, std::move(alias_dims), std::move(body));
+        stmt result = make_buffer::make(sym, buffer_at(alloc_var, at), elem_size, std::move(alias_dims), std::move(body));
         // Wrap with the original buffer in case we want to use the metadata in the construction of the buffer.
         result = make_buffer::make(sym, expr(), elem_size, op->dims, std::move(result));
 
-- 
2.43.0


From 1876bb09de6c26f355f412b3425e14972aa02664 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:07:01 +0000
Subject: [PATCH 64/73] fix: padded copies of cropped buffers use the uncropped
 source

---
 slinky/builder/pipeline.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/pipeline.cc b/slinky/builder/pipeline.cc
index 7eafc3d..47a6ffd 100644
--- a/slinky/builder/pipeline.cc
+++ b/slinky/builder/pipeline.cc
@@ -147,7 +147,7 @@ stmt make_copy_func(copy_stmt::callable impl, const func::input& src, const func
     dst_x.push_back(i);
   }
   stmt copy = copy_stmt::make(impl, src.sym(), src_x, dst.sym(), dst_x, padding);
-  if (!src.input_crop.empty()) {
+  if (!src.input_crop.empty() || padding.defined()) {
     copy = crop_buffer::make(src.sym(), src.sym(), src.input_crop, copy);
   }
   if (!src.output_crop.empty()) {
@@ -563,6 +563,18 @@ stmt substitute_inputs(const stmt& s, const symbol_map<var>& subs) {
         set_result(op);
       }
     }
+
+    void visit(const crop_buffer* op) override {
+      const copy_stmt* copy = op->body.as<copy_stmt>();
+      if (copy && copy->pad.defined() && copy->src == op->sym && op->src == op->sym && subs[op->sym]) {
+        // This crop defines what is padded (see `make_copy_func`), crop the buffer we are going to copy from too.
+        var uncropped = *subs[op->sym];
+        stmt body = crop_buffer::make(uncropped, uncropped, op->bounds, mutate(op->body));
+        set_result(crop_buffer::make(op->sym, op->src, op->bounds, std::move(body)));
+      } else {
+        stmt_mutator::visit(op);
+      }
+    }
   };
   return m(subs).mutate(s);
 }
-- 
2.43.0


From 9f1166a284eb00608654954d64e710355510b769 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:07:01 +0000
Subject: [PATCH 65/73] fix: buffers allocated inside a loop slide over the
 loop

---
 slinky/builder/slide_and_fold_storage.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 0139a51..251ffa1 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -205,9 +205,21 @@ public:
 
     // Unique ID of the loop this fold is for.
     int loop_id = -1;
+
+    // If true, a loop re-uses data from previous iterations in this dimension.
+    bool slid = false;
+
+    void remove_fold() {
+      factor = positive_infinity();
+      overlap = expr();
+      loop_id = -1;
+    }
   };
   symbol_map<std::vector<dim_fold_info>> fold_factors;
 
+  // The number of loops an allocation is inside of.
+  symbol_map<std::size_t> loops_outside;
+
   static std::vector<dim_fold_info> get_dim_fold_info(const std::vector<dim_expr>& dims) {
     std::vector<dim_fold_info> info(dims.size(), dim_fold_info());
     for (std::size_t d = 0; d < dims.size(); ++d) {
@@ -326,6 +338,7 @@ public:
     auto set_buffer_bounds = set_value_in_scope(buffer_bounds, op->sym, bounds);
     // Initialize the fold factors.
     auto set_fold_factors = set_value_in_scope(fold_factors, op->sym, get_dim_fold_info(op->dims));
+    auto set_loops_outside = set_value_in_scope(loops_outside, op->sym, loops.size());
     stmt body = mutate(op->body);
 
     // When we constructed the pipeline, the buffer dimensions were set to buffer_* calls.
@@ -365,6 +378,9 @@ public:
     // is produced there.
     if (loops.size() < 2 || !is_produced_by(output, body)) return;
 
+    // If the loop is outside the allocation, the data from previous iterations does not exist.
+    if (loops_outside[output] && loops.size() <= *loops_outside[output]) return;
+
     bool did_overlapped_fold = false;
 
     if (fold_factors[output]) {
-- 
2.43.0


From 7cb08c3c738a2cd25bbf46e97a5bfc4783caa530 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:07:16 +0000
Subject: [PATCH 66/73] fix: the folding of a buffer is not removed when a copy
 uses it via a clone and a crop

---
 slinky/builder/slide_and_fold_storage.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 251ffa1..1f216a8 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -639,7 +639,7 @@ public:
 
     {
       auto set_bounds = set_value_in_scope(buffer_bounds, op->sym, bounds);
-      auto set_alias = set_value_in_scope(aliases, op->sym, op->src);
+      auto set_alias = set_value_in_scope(aliases, op->sym, op->sym == op->src ? aliases[op->src] : op->src);
 
       slide_and_fold_buffer(op->sym, op->body);
 
@@ -664,7 +664,7 @@ public:
 
     {
       auto set_bounds = set_value_in_scope(buffer_bounds, op->sym, bounds);
-      auto set_alias = set_value_in_scope(aliases, op->sym, op->src);
+      auto set_alias = set_value_in_scope(aliases, op->sym, op->sym == op->src ? aliases[op->src] : op->src);
 
       slide_and_fold_buffer(op->sym, op->body);
 
@@ -690,7 +690,7 @@ public:
     }
 
     auto set_bounds = set_value_in_scope(buffer_bounds, op->sym, bounds);
-    auto set_alias = set_value_in_scope(aliases, op->sym, op->src);
+    auto set_alias = set_value_in_scope(aliases, op->sym, op->sym == op->src ? aliases[op->src] : op->src);
     stmt body = mutate(op->body);
     // TODO: If the bounds of the sliced dimensions are modified, do we need to insert an "if" here?
     if (body.same_as(op->body)) {
@@ -706,7 +706,7 @@ public:
     }
 
     auto set_bounds = set_value_in_scope(buffer_bounds, op->sym, bounds);
-    auto set_alias = set_value_in_scope(aliases, op->sym, op->src);
+    auto set_alias = set_value_in_scope(aliases, op->sym, op->sym == op->src ? aliases[op->src] : op->src);
     stmt body = mutate(op->body);
     // TODO: If the bounds of the sliced dimensions are modified, do we need to insert an "if" here?
     if (body.same_as(op->body)) {
@@ -717,7 +717,7 @@ public:
   }
   void visit(const transpose*) override { SLINKY_UNREACHABLE << "transpose not handled by slide_and_fold_storage"; }
   void visit(const clone_buffer* op) override {
-    auto set_alias = set_value_in_scope(aliases, op->sym, op->src);
+    auto set_alias = set_value_in_scope(aliases, op->sym, op->sym == op->src ? aliases[op->src] : op->src);
     stmt_mutator::visit(op);
   }
 
-- 
2.43.0


From 0f6fd142181f8da6a244caad8611f679578b9cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:07:16 +0000
Subject: [PATCH 67/73] fix: slide_and_fold folds dimensions twice, folds data
 an outer loop re-uses, or asks for elements before the bounds after an empty
 iteration

---
 slinky/builder/slide_and_fold_storage.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 1f216a8..f1c6964 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -387,7 +387,9 @@ public:
       for (int d = 0; d < static_cast<int>(fold_factors[output]->size()); ++d) {
         expr fold = (*fold_factors[output])[d].factor;
         expr overlap = (*fold_factors[output])[d].overlap;
-        if (!is_finite(fold)) continue;
+        // Even if we did not fold, we can't overwrite the data we are re-using.
+        did_overlapped_fold = did_overlapped_fold || (*fold_factors[output])[d].slid;
+        if (!fold.defined() || is_positive_infinity(fold)) continue;
         // If fold is finite and bounds don't overlap the fold and overlap
         // will be set to the same expr.
         did_overlapped_fold = did_overlapped_fold || !match(fold, overlap);
@@ -403,8 +405,8 @@ public:
     for (int d = 0; d < static_cast<int>(bounds->size()); ++d) {
       if (fold_factors[output] && (d < static_cast<int>(fold_factors[output]->size()))) {
         expr fold_factor = (*fold_factors[output])[d].factor;
-        // Skip if we already folded this dimension.
-        if (is_finite(fold_factor)) continue;
+        // Skip if we already folded this dimension. The fold factor may not be constant, if the loop has workers.
+        if (fold_factor.defined() && !is_positive_infinity(fold_factor)) continue;
       }
 
       interval_expr cur_bounds_d = (*bounds)[d];
@@ -474,6 +476,13 @@ public:
             did_overlapped_fold = true;
           }
         }
+        vector_at(fold_factors[output], d).slid = true;
+
+        // If the previous bounds could be empty, they could also end before the new bounds begin.
+        expr slid_min = new_min;
+        if (!prove_true(old_min <= new_min, expr_bounds, expr_alignment)) {
+          slid_min = simplify(max(old_min, new_min), expr_bounds, expr_alignment);
+        }
 
         // Now that we're only computing the newly required parts of the domain, we need
         // to move the loop min back so we compute the whole required region.
@@ -485,12 +494,12 @@ public:
         if (!is_negative_infinity(new_loop_min)) {
           loop.bounds.min = new_loop_min;
 
-          (*bounds)[d].min = new_min;
+          (*bounds)[d].min = slid_min;
         } else {
           // We couldn't find the new loop min. We need to warm up the loop on (or before) the first iteration.
           // TODO(https://github.com/dsharlet/slinky/issues/118): If there is a mix of warmup strategies, this will
           // effectively not slide while running before the original loop min.
-          (*bounds)[d].min = select(loop_var <= loop.orig_min, old_min, new_min);
+          (*bounds)[d].min = select(loop_var <= loop.orig_min, old_min, slid_min);
         }
 
         // This loop has a dependency between loop iterations, mark it as not data parallel.
@@ -518,7 +527,7 @@ public:
             }
             if (!is_correct_fold) {
               // We found a consumer of a buffer outside the loop it was folded in, remove the folding.
-              i = dim_fold_info();
+              i.remove_fold();
             }
           }
         }
@@ -574,7 +583,7 @@ public:
     while (true) {
       if (fold_factors[a]) {
         for (dim_fold_info& i : *fold_factors[a]) {
-          if (i.loop_id >= 0) i = dim_fold_info();
+          if (i.loop_id >= 0) i.remove_fold();
         }
       }
       std::optional<var> next_a = aliases[a];
-- 
2.43.0


From 1f86921bba3c865c1a03804c513682278870b901 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:07:08 +0000
Subject: [PATCH 68/73] fix: copies to slices are aliased without all the
 strides

---
 slinky/builder/optimizations.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 25dda8b..aec3b88 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -771,6 +771,13 @@ public:
       a.permutation[dst_d] = src_d;
     }
 
+    for (const dim_expr& d : a.dims) {
+      if (!d.stride.defined()) {
+        // We didn't define all the dimensions of the buffer we want to replace.
+        return;
+      }
+    }
+
     // If there is no padding, we can assume that the src is always in bounds of dst.
     a.assume_in_bounds = !op->pad.defined();
     a.pads_target = op->pad.defined();
-- 
2.43.0


From eeaa4cb2a60c6fd5b290352727d9f966f8d90824 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:07:08 +0000
Subject: [PATCH 69/73] fix: buffers aliased to slices of outputs that are out
 of bounds are written through null

---
 slinky/builder/optimizations.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index aec3b88..7091075 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -293,6 +293,9 @@ class copy_aliaser : public stmt_mutator {
     // If true, we know this alias is a subset of the aliased buffer.
     bool assume_in_bounds = false;
 
+    // If this is false, the alias is a slice of the target that is out of bounds, and the alias is empty.
+    expr at_in_bounds = true;
+
     bool is_contiguous_copy = false;
 
     // If true, this is an alias of the source or the destination of a copy that pads the source. Such a copy will write
@@ -387,6 +390,19 @@ class copy_aliaser : public stmt_mutator {
         }
       }
 
+      // The other dimensions of the target are sliced, the slices need to be in bounds too.
+      for (std::size_t d = 0; d < std::min(alias.at.size(), target_info.dims.size()); ++d) {
+        if (!alias.at[d].defined()) continue;
+        if (std::count(alias.permutation.begin(), alias.permutation.end(), static_cast<int>(d))) continue;
+        expr at = substitute_buffer(alias.at[d], target, target_info.dims);
+        if (prove_true(target_info.dims[d].bounds.min <= at) && prove_true(at <= target_info.dims[d].bounds.max)) {
+          continue;
+        }
+        // We can only make the alias empty if it has a dimension.
+        if (alias_dims.empty()) return false;
+        alias.at_in_bounds = alias.at_in_bounds && buffer_min(target, d) <= alias.at[d] && alias.at[d] <= buffer_max(target, d);
+      }
+
       alias.assume_in_bounds = in_bounds;
     }
 
@@ -622,6 +638,10 @@ public:
             if (0 <= target_d && target_d < static_cast<int>(at.size())) at[target_d] = expr();
           }
         }
+        if (!is_true(alias.at_in_bounds)) {
+          interval_expr& b = alias_dims.front().bounds;
+          b.max = select(alias.at_in_bounds, b.max, b.min - 1);
+        }
         stmt result = make_buffer::make(sym, buffer_at(alloc_var, at), elem_size, std::move(alias_dims), std::move(body));
         // Wrap with the original buffer in case we want to use the metadata in the construction of the buffer.
         result = make_buffer::make(sym, expr(), elem_size, op->dims, std::move(result));
-- 
2.43.0


From 46c236925c96021ab3ed5639e4be415425ca4bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:07:08 +0000
Subject: [PATCH 70/73] fix: all copies of a buffer to its target are removed
 when it is an alias of one of them

---
 slinky/builder/optimizations.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 7091075..fe91485 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -214,6 +214,9 @@ class copy_remover : public stmt_mutator {
   }
 
 public:
+  // The number of copies between a and b found.
+  int copies = 0;
+
   copy_remover(var a, var b) : as({a}), bs({b}) {}
 
   void visit(const copy_stmt* op) override {
@@ -222,6 +225,7 @@ public:
       set_result(op);
       return;
     }
+    ++copies;
     if (!op->pad.defined()) {
       // No padding, this copy is now a no-op.
       set_result(stmt());
@@ -265,6 +269,12 @@ stmt remove_copy(const stmt& s, var a, var b) {
   return copy_remover(a, b).mutate(s);
 }
 
+int count_copies(const stmt& s, var a, var b) {
+  copy_remover m(a, b);
+  m.mutate(s);
+  return m.copies;
+}
+
 bool dim_has_stride(const dim_expr& d) {
   if (d.bounds.is_point()) {
     // If the dim has extent 1, the stride doesn't matter.
@@ -565,6 +575,11 @@ public:
           continue;
         }
 
+        if (count_copies(body, op->sym, target_var) > 1) {
+          // The buffer can only be an alias of one part of the target, the other copies are still necessary.
+          continue;
+        }
+
         // The alias might have used the bounds/stride/fold_factor of this symbol, substitute them now.
         for (dim_expr& i : alias.dims) {
           i.bounds = substitute_buffer(i.bounds, op->sym, op->elem_size, op_dims_bounds);
-- 
2.43.0


From 28c86cc696913a196ed9759c26e64002804ce894 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:17:04 +0000
Subject: [PATCH 71/73] fix: buffers are aliased to folded buffers translated
 by a distance that is not a multiple of the fold factor

---
 slinky/builder/optimizations.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index fe91485..569af75 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -493,6 +493,14 @@ class copy_aliaser : public stmt_mutator {
           // The alias would not use the same memory of the target as the target itself.
           return false;
         }
+        const int target_d = alias.permutation[d];
+        if (0 <= target_d && target_d < static_cast<int>(alias.at.size()) && alias.at[target_d].defined()) {
+          expr offset = alias.at[target_d] - alloc_info.dims[d].bounds.min;
+          if (!prove_true(offset % alias_dim.fold_factor == 0)) {
+            // The alias is translated by a distance that is not a multiple of the fold factor.
+            return false;
+          }
+        }
       } else {
         // The target isn't folded, we can alias this buffer. We lose our fold factor, but it's not going to occupy
         // any memory anyways if it's an alias.
-- 
2.43.0


From eb53e5538fc81aa5c80691d2b50e69923fd7c5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 07:05:55 +0000
Subject: [PATCH 72/73] fix: parallelize_tasks forgets what the first part of
 an async uses if the second part is a block

---
 slinky/builder/optimizations.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 569af75..ddaa53c 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -2078,6 +2078,10 @@ class task_parallelizer : public node_mutator {
 
 public:
   void visit(const block* b) override {
+    // This block might be only one part of the stage we are in, e.g. the task or the body of an async.
+    std::set<var> outer_consumed = std::move(consumed);
+    std::set<var> outer_produced = std::move(produced);
+
     std::vector<stage> stages;
     stages.reserve(b->stmts.size());
 
@@ -2099,8 +2103,8 @@ public:
     }
 
     // Populate the consumers, and the outer produced/consumed set result for this block.
-    produced.clear();
-    consumed.clear();
+    produced = std::move(outer_produced);
+    consumed = std::move(outer_consumed);
     for (stage& s : stages) {
       consumed.insert(s.consumed.begin(), s.consumed.end());
       produced.insert(s.produced.begin(), s.produced.end());
-- 
2.43.0


From bfc9e7d9965b7d6ed016858299fdd5c32d7c2bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 07:05:55 +0000
Subject: [PATCH 73/73] fix: parallelize_tasks may free a buffer before the
 tasks using it are done

---
 slinky/builder/optimizations.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index ddaa53c..c86e876 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -2243,6 +2243,11 @@ public:
       // Assume we are both producing and consuming this buffer.
       consumed.insert(lookup_alias(*buf));
       produced.insert(lookup_alias(*buf));
+    } else if (op->intrinsic == intrinsic::free) {
+      // We can't free a buffer until everything using it is done.
+      assert(op->args.size() == 1);
+      auto buf = as_variable(op->args[0]);
+      produced.insert(lookup_alias(*buf));
     }
     barrier = barrier || is_barrier(op->intrinsic);
   }
-- 
2.43.0

