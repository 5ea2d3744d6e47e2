From ba742f7e1480a1e10cccb5e53c2ed0f7a1cf9e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:58 +0000
Subject: [PATCH 01/29] fix: binary local operation reads the second argument
 with its own value type

The 0d/1d and 1d/1d cases bound the second argument's value to a reference of
the first argument's value type, converting (and possibly truncating) it before
the operation and its domain and range policies see it.
---
 source/fern/algorithm/core/binary_local_operation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/core/binary_local_operation.h b/source/fern/algorithm/core/binary_local_operation.h
index 6cca36b..68a3c18 100644
--- a/source/fern/algorithm/core/binary_local_operation.h
+++ b/source/fern/algorithm/core/binary_local_operation.h
@@ -169,7 +169,7 @@ void operation_0d_1d(
                 output_no_data_policy.mark_as_no_data(i);
             }
             else {
-                const_reference<Value1> v2(get(value2, i));
+                const_reference<Value2> v2(get(value2, i));
 
                 if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                     // Input value is out of domain. Mark result value as
@@ -222,7 +222,7 @@ void operation_1d_1d(
         }
         else {
             const_reference<Value1> v1(get(value1, i));
-            const_reference<Value1> v2(get(value2, i));
+            const_reference<Value2> v2(get(value2, i));
 
             if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                 // Input value is out of domain. Mark result value as
-- 
2.43.0


From 0f4ff03191dfd0be42c6e655700eae443df568b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 02/29] fix: parallel copy of an empty index range writes out
 of bounds

An empty range results in no blocks, so there is no first block whose position
can be initialized.
---
 source/fern/algorithm/core/detail/copy.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/core/detail/copy.h b/source/fern/algorithm/core/detail/copy.h
index a095309..66d7aac 100644
--- a/source/fern/algorithm/core/detail/copy.h
+++ b/source/fern/algorithm/core/detail/copy.h
@@ -161,7 +161,9 @@ struct CopyByArgumentCategory<
         }
 
         std::vector<Position> position_per_block(ranges.size());
-        position_per_block[0] = position;
+        if(!ranges.empty()) {
+            position_per_block[0] = position;
+        }
 
         for(size_t i = 1; i < ranges.size(); ++i) {
             position_per_block[i] = get<0>(position_per_block[i - 1]) +
-- 
2.43.0


From 267c70e14d6271005dd879e7fb8c1a3dd7d822f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:41 +0000
Subject: [PATCH 03/29] fix: index_ranges returns at most one range more than
 the number of threads

As documented. The number of blocks was calculated from the block size, which
gives up to twice the number of threads when the array is small.
---
 source/fern/algorithm/core/index_ranges.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/core/index_ranges.cc b/source/fern/algorithm/core/index_ranges.cc
index e0ef519..d843bc8 100644
--- a/source/fern/algorithm/core/index_ranges.cc
+++ b/source/fern/algorithm/core/index_ranges.cc
@@ -30,7 +30,7 @@ std::vector<IndexRanges<1>> index_ranges(
     assert(nr_threads != 0);
 
     size_t const block_size = size / nr_threads;  // Integer division.
-    size_t const nr_blocks = block_size > 0 ? size / block_size : 0;
+    size_t const nr_blocks = block_size > 0 ? nr_threads : 0;
     std::vector<IndexRanges<1>> ranges(nr_blocks);
 
     size_t offset = 0;
@@ -74,7 +74,7 @@ std::vector<IndexRanges<2>> index_ranges(
     // are adjacent to each other in memory.
     size_t const block_width = size2;
     size_t const block_height = size1 / nr_threads;  // Integer division.
-    size_t const nr_blocks = block_height > 0 ? size1 / block_height : 0;
+    size_t const nr_blocks = block_height > 0 ? nr_threads : 0;
     std::vector<IndexRanges<2>> ranges(nr_blocks);
 
     size_t row_offset = 0;
-- 
2.43.0


From f6ca1b5195c8a739d633aed012aecc4520653d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:41 +0000
Subject: [PATCH 04/29] fix: index_ranges of an empty 2D array without columns
 is empty

As documented, and as is already the case for an array without rows.
---
 source/fern/algorithm/core/index_ranges.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/fern/algorithm/core/index_ranges.cc b/source/fern/algorithm/core/index_ranges.cc
index d843bc8..b9ff8cf 100644
--- a/source/fern/algorithm/core/index_ranges.cc
+++ b/source/fern/algorithm/core/index_ranges.cc
@@ -70,6 +70,11 @@ std::vector<IndexRanges<2>> index_ranges(
 {
     assert(nr_threads != 0);
 
+    if(size2 == 0) {
+        // The array is empty.
+        return std::vector<IndexRanges<2>>{};
+    }
+
     // Assuming the last size is the size of the dimension whose elements
     // are adjacent to each other in memory.
     size_t const block_width = size2;
-- 
2.43.0


From dc1f801be6d06d5a1b4034c4d0a33be7289a7740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:19 +0000
Subject: [PATCH 05/29] fix: range check of adding a signed and an unsigned
 integer

It was reported out of range when the signed value was negative or zero and
the sum larger than it.
---
 source/fern/algorithm/algebra/elementary/detail/add.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/add.h b/source/fern/algorithm/algebra/elementary/detail/add.h
index 8869f4c..3171fad 100644
--- a/source/fern/algorithm/algebra/elementary/detail/add.h
+++ b/source/fern/algorithm/algebra/elementary/detail/add.h
@@ -129,7 +129,10 @@ struct within_range<
         FERN_STATIC_ASSERT(std::is_same, typename fern::algorithm::Result<
             Value1, Value2>::type, Result)
 
-        return value1 > 0 ? result >= value1 : result <= value1;
+        // signed + unsigned
+        // Adding an unsigned value cannot make the result smaller. It does if
+        // the result wrapped.
+        return result >= value1;
     }
 };
 
-- 
2.43.0


From af97c37596ccaf98250a01e3be9ec3e8340c54a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:19 +0000
Subject: [PATCH 06/29] fix: range check of multiplications resulting in the
 smallest integer

Products equal to the smallest value of the result type were reported to be
out of range.
---
 .../algorithm/algebra/elementary/detail/multiply.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/multiply.h b/source/fern/algorithm/algebra/elementary/detail/multiply.h
index 37298ea..12f82b7 100644
--- a/source/fern/algorithm/algebra/elementary/detail/multiply.h
+++ b/source/fern/algorithm/algebra/elementary/detail/multiply.h
@@ -93,7 +93,7 @@ struct within_range<
             }
             else {
                 // value1 is positive, value2 is negative.
-                return -value1 >= max<Result>() / value2;
+                return value2 >= min<Result>() / value1;
             }
         }
         else {
@@ -103,7 +103,7 @@ struct within_range<
             }
             else {
                 // value1 is zero or negative, value2 is positive.
-                return value1 >= -max<Result>() / value2;
+                return value1 >= min<Result>() / value2;
             }
         }
     }
@@ -140,7 +140,15 @@ struct within_range<
             return value1 <= max<Result>() / value2;
         }
         else {
-            return value1 <= -max<Result>() / value2;
+            // The magnitude of the smallest result is not representable in
+            // Result.
+            using UnsignedResult = typename std::make_unsigned<Result>::type;
+            UnsignedResult const result_magnitude{static_cast<UnsignedResult>(
+                static_cast<UnsignedResult>(max<Result>()) + 1u)};
+            UnsignedResult const value2_magnitude{static_cast<UnsignedResult>(
+                static_cast<UnsignedResult>(-(value2 + 1)) + 1u)};
+
+            return value1 <= result_magnitude / value2_magnitude;
         }
     }
 };
-- 
2.43.0


From 6750f8e0d4ce8601e3375482ea61b33d06d7a23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:04 +0000
Subject: [PATCH 07/29] fix: dividing the smallest integer by -1 traps or is
 not reported out of range

---
 .../algebra/elementary/detail/divide.h        | 48 +++++++++++++++++--
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/divide.h b/source/fern/algorithm/algebra/elementary/detail/divide.h
index 13b1821..a1309cb 100644
--- a/source/fern/algorithm/algebra/elementary/detail/divide.h
+++ b/source/fern/algorithm/algebra/elementary/detail/divide.h
@@ -70,15 +70,17 @@ struct within_range<
     signed_integer_tag>
 {
     inline static constexpr bool calculate(
-        Value1 const& /* value1 */,
-        Value2 const& /* value2 */,
+        Value1 const& value1,
+        Value2 const& value2,
         Result const& /* result */)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
 
         // signed / signed
-        return true;
+        // On a 2's complement system dividing the most negative integral
+        // value by -1 is out of range.
+        return !(value1 == min<Result>() && value2 == Value2(-1));
     }
 };
 
@@ -231,6 +233,43 @@ struct within_range<
     }
 };
 
+
+template<
+    typename Result,
+    typename NumberCategory>
+struct quotient
+{
+    inline static constexpr Result calculate(
+        Result const& value1,
+        Result const& value2)
+    {
+        return value1 / value2;
+    }
+};
+
+
+template<
+    typename Result>
+struct quotient<
+    Result,
+    signed_integer_tag>
+{
+    inline static constexpr Result calculate(
+        Result const& value1,
+        Result const& value2)
+    {
+        // Dividing the most negative value by -1 overflows, which traps on
+        // some systems. Let it wrap, like the other operations do. It is up
+        // to the range policy to detect this.
+        using UnsignedResult = typename std::make_unsigned<Result>::type;
+
+        return value2 == Result(-1)
+            ? static_cast<Result>(
+                UnsignedResult(0) - static_cast<UnsignedResult>(value1))
+            : value1 / value2;
+    }
+};
+
 } // namespace dispatch
 
 
@@ -251,7 +290,8 @@ struct Algorithm
         R& result) const
     {
         assert(is_not_equal(value2, Value2(0)));
-        result = static_cast<R>(value1) / static_cast<R>(value2);
+        result = dispatch::quotient<R, number_category<R>>::calculate(
+            static_cast<R>(value1), static_cast<R>(value2));
     }
 
 };
-- 
2.43.0


From 88cb79f4ac483d1834d2ffe018a45fe6fa4eb01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:04 +0000
Subject: [PATCH 08/29] fix: adding and subtracting an integer and an infinite
 float is out of range

Adding was not reported as out of range, and subtracting failed an
assertion.
---
 .../algorithm/algebra/elementary/detail/add.h | 12 ++++------
 .../algebra/elementary/detail/subtract.h      | 22 ++++---------------
 2 files changed, 8 insertions(+), 26 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/add.h b/source/fern/algorithm/algebra/elementary/detail/add.h
index 3171fad..82e7fee 100644
--- a/source/fern/algorithm/algebra/elementary/detail/add.h
+++ b/source/fern/algorithm/algebra/elementary/detail/add.h
@@ -199,14 +199,12 @@ struct within_range<
     inline static constexpr bool calculate(
         Value1 const& /* value1 */,
         Value2 const& /* value2 */,
-        Result const& /* result */)
+        Result const& result)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
-        // assert(std::isfinite(result));
-
         // integral + float
-        return true;
+        return std::isfinite(result);
     }
 };
 
@@ -225,14 +223,12 @@ struct within_range<
     inline static constexpr bool calculate(
         Value1 const& /* value1 */,
         Value2 const& /* values2 */,
-        Result const& /* result */)
+        Result const& result)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
-        // assert(std::isfinite(result));
-
         // float + integral
-        return true;
+        return std::isfinite(result);
     }
 };
 
diff --git a/source/fern/algorithm/algebra/elementary/detail/subtract.h b/source/fern/algorithm/algebra/elementary/detail/subtract.h
index b989dfd..8d040e3 100644
--- a/source/fern/algorithm/algebra/elementary/detail/subtract.h
+++ b/source/fern/algorithm/algebra/elementary/detail/subtract.h
@@ -202,20 +202,13 @@ struct within_range<
     inline static bool calculate(
         Value1 const& /* value1 */,
         Value2 const& /* value2 */,
-#ifndef NDEBUG
-        Result const& result
-#else
-        Result const& /* result */
-#endif
-        )
+        Result const& result)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
-        assert(std::isfinite(result));
 
         // integral - float
-        return true;
-        // return std::isfinite(result);
+        return std::isfinite(result);
     }
 };
 
@@ -234,20 +227,13 @@ struct within_range<
     inline static bool calculate(
         Value1 const& /* value1 */,
         Value2 const& /* values2 */,
-#ifndef NDEBUG
-        Result const& result
-#else
-        Result const& /* result */
-#endif
-        )
+        Result const& result)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
-        assert(std::isfinite(result));
 
         // float - integral
-        return true;
-        // return std::isfinite(result);
+        return std::isfinite(result);
     }
 };
 
-- 
2.43.0


From 225101c0c6ee21396df6e5d822697d6aa10f6cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 09/29] fix: parallel clamp with one scalar bound does not
 compile or treats the scalar as a collection

---
 source/fern/algorithm/core/detail/clamp.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/fern/algorithm/core/detail/clamp.h b/source/fern/algorithm/core/detail/clamp.h
index 8702d52..bc1b062 100644
--- a/source/fern/algorithm/core/detail/clamp.h
+++ b/source/fern/algorithm/core/detail/clamp.h
@@ -411,7 +411,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_1d_1d_1d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -507,9 +507,9 @@ struct ClampByArgumentCategory<
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
-                clamp_1d_1d_1d<
+                clamp_1d_1d_0d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -605,9 +605,9 @@ struct ClampByArgumentCategory<
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
-                clamp_1d_1d_1d<
+                clamp_1d_0d_1d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -717,7 +717,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_2d_2d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -823,7 +823,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_2d_0d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -929,7 +929,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_0d_2d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
-- 
2.43.0


From 35279d5b676ae5874e601e3f8a673044c09c9bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 10/29] fix: sequential 1d if_ with scalar values aborts on an
 assertion about the size of the scalar

---
 source/fern/algorithm/core/detail/if.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/core/detail/if.h b/source/fern/algorithm/core/detail/if.h
index 2afbdbb..c199942 100644
--- a/source/fern/algorithm/core/detail/if.h
+++ b/source/fern/algorithm/core/detail/if.h
@@ -1299,7 +1299,7 @@ struct IfThenElseByArgumentCategory<
         FalseValue const& false_value,
         Result& result)
     {
-        assert(size(true_value) == size(condition));
+        assert(size(result) == size(condition));
 
         if_then_else_1d_0d_0d(input_no_data_policy, output_no_data_policy,
             IndexRanges<1>{IndexRange(0, size(condition))}, condition,
-- 
2.43.0


From 50f082af8ad995a8dcd67d1b58f98bbed124aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 11/29] fix: minimum/maximum of only infinite values was the
 largest/smallest finite value

---
 source/fern/algorithm/accumulator/max.h | 7 +++++--
 source/fern/algorithm/accumulator/min.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/fern/algorithm/accumulator/max.h b/source/fern/algorithm/accumulator/max.h
index 612723b..683dcad 100644
--- a/source/fern/algorithm/accumulator/max.h
+++ b/source/fern/algorithm/accumulator/max.h
@@ -57,14 +57,17 @@ private:
     @brief      Default construct an instance.
 
     The layered maximum value is initialized with
-    std::numeric_limits<Argument>::lowest().
+    std::numeric_limits<Argument>::lowest(), or with negative infinity
+    if @a Argument can represent that.
 */
 template<
     typename Argument,
     typename Result>
 inline Max<Argument, Result>::Max()
 
-    : _max(std::numeric_limits<Argument>::lowest())
+    : _max(std::numeric_limits<Argument>::has_infinity
+        ? -std::numeric_limits<Argument>::infinity()
+        : std::numeric_limits<Argument>::lowest())
 
 {
 }
diff --git a/source/fern/algorithm/accumulator/min.h b/source/fern/algorithm/accumulator/min.h
index badeef4..8763a84 100644
--- a/source/fern/algorithm/accumulator/min.h
+++ b/source/fern/algorithm/accumulator/min.h
@@ -57,14 +57,17 @@ private:
     @brief      Default construct an instance.
 
     The layered minimum value is initialized with
-    std::numeric_limits<Argument>::max().
+    std::numeric_limits<Argument>::max(), or with positive infinity
+    if @a Argument can represent that.
 */
 template<
     typename Argument,
     typename Result>
 inline Min<Argument, Result>::Min()
 
-    : _min(std::numeric_limits<Argument>::max())
+    : _min(std::numeric_limits<Argument>::has_infinity
+        ? std::numeric_limits<Argument>::infinity()
+        : std::numeric_limits<Argument>::max())
 
 {
 }
-- 
2.43.0


From be6df37d2e360f31e3ad79e9c016f55333d82b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 12/29] fix: mean of integers divided by the count truncated to
 the value type

---
 source/fern/algorithm/accumulator/mean.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/source/fern/algorithm/accumulator/mean.h b/source/fern/algorithm/accumulator/mean.h
index 347d974..78e45c1 100644
--- a/source/fern/algorithm/accumulator/mean.h
+++ b/source/fern/algorithm/accumulator/mean.h
@@ -9,6 +9,8 @@
 #pragma once
 #include <cassert>
 #include <cstddef>
+#include <cstdint>
+#include <type_traits>
 #include "fern/algorithm/accumulator/count.h"
 #include "fern/algorithm/accumulator/sum.h"
 
@@ -174,9 +176,15 @@ inline Result Mean<Argument, Result>::operator()() const
 {
     assert(_count() > 0);
 
-    // _sum() returns result in Result. Dividing by _count may implicitly cast
-    // it to some other type.
-    return _sum() / static_cast<Result>(_count());
+    // The count isn't necessarily representable in Result. Divide integral
+    // sums using a type that can represent both the sum and the count.
+    using Divisor = typename std::conditional<
+        std::is_integral<Result>::value,
+        typename std::conditional<std::is_signed<Result>::value,
+            std::intmax_t, std::uintmax_t>::type,
+        Result>::type;
+
+    return static_cast<Result>(_sum() / static_cast<Divisor>(_count()));
 }
 
 
-- 
2.43.0


From 4cc26da480608d7a20d0f0e9c85bcde6eaec35ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 13/29] fix: count of a 2D array whose first row is no-data
 ignored all other rows

---
 source/fern/algorithm/core/binary_aggregate_operation.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/fern/algorithm/core/binary_aggregate_operation.h b/source/fern/algorithm/core/binary_aggregate_operation.h
index 99cc065..8e9b1e5 100644
--- a/source/fern/algorithm/core/binary_aggregate_operation.h
+++ b/source/fern/algorithm/core/binary_aggregate_operation.h
@@ -151,6 +151,7 @@ void operation_2d(
         // Initialize result.
         for(; i < end1; ++i) {
 
+            j = begin2;
             index_ = index(values, i, j);
 
             for(; j < end2; ++j) {
-- 
2.43.0


From a677df009f6c1f7ff3b5f150593bfa0a37e0c110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 14/29] fix: parallel count of an array with a block of only
 no-data was marked as no-data

---
 .../core/binary_aggregate_operation.h         | 168 +++++++++++-------
 1 file changed, 100 insertions(+), 68 deletions(-)

diff --git a/source/fern/algorithm/core/binary_aggregate_operation.h b/source/fern/algorithm/core/binary_aggregate_operation.h
index 8e9b1e5..08687c2 100644
--- a/source/fern/algorithm/core/binary_aggregate_operation.h
+++ b/source/fern/algorithm/core/binary_aggregate_operation.h
@@ -7,6 +7,9 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <future>
+#include <tuple>
+#include <vector>
 #include "fern/core/data_type_traits.h"
 #include "fern/core/base_class.h"
 #include "fern/feature/core/data_customization_point/masked_array.h"
@@ -45,18 +48,21 @@ void operation_0d(
 }
 
 
+//! Aggregate the values in the index ranges into \a result.
+/*!
+  \return    Tuple with two booleans: whether or not a value has been seen that
+             is not no-data, and whether or not the result is within range.
+*/
 template<
     typename OutOfDomainPolicy,
     template<typename, typename, typename> class OutOfRangePolicy,
     typename Algorithm,
     typename InputNoDataPolicy,
-    typename OutputNoDataPolicy,
     typename Value,
     typename Result>
-void operation_1d(
+std::tuple<bool, bool> operation_1d(
     Algorithm const& algorithm,
     InputNoDataPolicy const& input_no_data_policy,
-    OutputNoDataPolicy& output_no_data_policy,
     IndexRanges<1> const& index_ranges,
     Value const& values,
     value_type<Value> const& value,
@@ -68,6 +74,7 @@ void operation_1d(
     size_t const begin = index_ranges[0].begin();
     size_t const end = index_ranges[0].end();
     bool data_seen{false};
+    bool result_within_range{true};
 
     if(begin < end) {
 
@@ -96,7 +103,7 @@ void operation_1d(
 
                         if(!OORP::within_range(a_value, get(value),
                                 tmp_result)) {
-                            output_no_data_policy.mark_as_no_data();
+                            result_within_range = false;
                             break;
                         }
 
@@ -107,24 +114,25 @@ void operation_1d(
         }
     }
 
-    if(!data_seen) {
-        output_no_data_policy.mark_as_no_data();
-    }
+    return std::make_tuple(data_seen, result_within_range);
 }
 
 
+//! Aggregate the values in the index ranges into \a result.
+/*!
+  \return    Tuple with two booleans: whether or not a value has been seen that
+             is not no-data, and whether or not the result is within range.
+*/
 template<
     typename OutOfDomainPolicy,
     template<typename, typename, typename> class OutOfRangePolicy,
     typename Algorithm,
     typename InputNoDataPolicy,
-    typename OutputNoDataPolicy,
     typename Value,
     typename Result>
-void operation_2d(
+std::tuple<bool, bool> operation_2d(
     Algorithm const& algorithm,
     InputNoDataPolicy const& input_no_data_policy,
-    OutputNoDataPolicy& output_no_data_policy,
     IndexRanges<2> const& index_ranges,
     Value const& values,
     value_type<Value> const& value,
@@ -138,6 +146,7 @@ void operation_2d(
     size_t const begin2 = index_ranges[1].begin();
     size_t const end2 = index_ranges[1].end();
     bool data_seen{false};
+    bool result_within_range{true};
 
     if(begin1 < end1 && begin2 < end2) {
 
@@ -197,7 +206,7 @@ void operation_2d(
                         // lhs, rhs, lhs + rhs
                         if(!OORP::within_range(a_value, get(value),
                                 tmp_result)) {
-                            output_no_data_policy.mark_as_no_data();
+                            result_within_range = false;
                             break;
                         }
 
@@ -220,9 +229,7 @@ void operation_2d(
         }
     }
 
-    if(!data_seen) {
-        output_no_data_policy.mark_as_no_data();
-    }
+    return std::make_tuple(data_seen, result_within_range);
 }
 
 
@@ -304,6 +311,51 @@ struct Aggregate<
 };
 
 
+// Aggregate the results of the blocks that contain data into the final result.
+template<
+    typename Aggregator,
+    template<typename, typename, typename> class OutOfRangePolicy,
+    typename OutputNoDataPolicy,
+    typename ExecutionPolicy,
+    typename Result>
+void aggregate_blocks(
+    OutputNoDataPolicy& output_no_data_policy,
+    ExecutionPolicy& execution_policy,
+    std::vector<std::future<std::tuple<bool, bool>>>& futures,
+    std::vector<Result> const& results_per_block,
+    Result& result)
+{
+    bool result_within_range{true};
+    std::vector<Result> results;
+    results.reserve(results_per_block.size());
+
+    for(size_t i = 0; i < futures.size(); ++i) {
+        bool block_data_seen, block_result_within_range;
+
+        std::tie(block_data_seen, block_result_within_range) =
+            futures[i].get();
+
+        if(!block_result_within_range) {
+            result_within_range = false;
+        }
+        else if(block_data_seen) {
+            results.emplace_back(results_per_block[i]);
+        }
+    }
+
+    if(results.empty() || !result_within_range) {
+        output_no_data_policy.mark_as_no_data();
+    }
+    else {
+        Aggregator aggregator;
+        Aggregate<DataTypeTraits<Result>::is_masking>::template
+            apply<OutOfRangePolicy>(
+                aggregator, output_no_data_policy, execution_policy,
+                results, result);
+    }
+}
+
+
 template<
     typename Algorithm,
     typename Aggregator,
@@ -393,10 +445,17 @@ struct BinaryAggregateOperation<
     {
         Algorithm algorithm;
 
-        operation_1d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
-            input_no_data_policy, output_no_data_policy,
-            IndexRanges<1>{IndexRange(0, size(values))},
-            values, value, result);
+        bool data_seen, result_within_range;
+
+        std::tie(data_seen, result_within_range) =
+            operation_1d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
+                input_no_data_policy,
+                IndexRanges<1>{IndexRange(0, size(values))},
+                values, value, result);
+
+        if(!data_seen || !result_within_range) {
+            output_no_data_policy.mark_as_no_data();
+        }
     }
 
 };
@@ -442,42 +501,25 @@ struct BinaryAggregateOperation<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(values);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
+        std::vector<std::future<std::tuple<bool, bool>>> futures;
         futures.reserve(ranges.size());
         std::vector<Result> results_per_block(ranges.size(), Result(0));
 
         Algorithm algorithm;
-
-        // TODO OutputNoDataPolicy must be created ad-hoc here. It must have
-        //      an effect on the values in results_per_block.
-        //      This depends on whether or not results are masking. Probably
-        //      need to dispatch this whole function on that. First create a
-        //      failing unit test that fails: include a block with only
-        //      no-data and verify the result is not no-data.
         for(size_t i = 0; i < ranges.size(); ++i) {
             auto const& block_range(ranges[i]);
             auto function = std::bind(
                 operation_1d<OutOfDomainPolicy, OutOfRangePolicy, Algorithm,
-                    InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, Result>,
+                    InputNoDataPolicy, Value, Result>,
                 std::cref(algorithm),
-                std::cref(input_no_data_policy),
-                std::ref(output_no_data_policy), std::cref(block_range),
+                std::cref(input_no_data_policy), std::cref(block_range),
                 std::cref(values), std::cref(value),
                 std::ref(results_per_block[i]));
             futures.emplace_back(pool.submit(function));
         }
 
-        for(auto& future: futures) {
-            future.get();
-        }
-
-        Aggregator aggregator;
-
-        Aggregate<DataTypeTraits<Result>::is_masking>::template
-            apply<OutOfRangePolicy>(
-                aggregator, output_no_data_policy, execution_policy,
-                results_per_block, result);
+        aggregate_blocks<Aggregator, OutOfRangePolicy>(output_no_data_policy,
+            execution_policy, futures, results_per_block, result);
     }
 
 };
@@ -586,12 +628,19 @@ struct BinaryAggregateOperation<
     {
         Algorithm algorithm;
 
-        operation_2d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
-            input_no_data_policy, output_no_data_policy,
-            IndexRanges<2>{
-                IndexRange(0, size(values, 0)),
-                IndexRange(0, size(values, 1))},
-            values, value, result);
+        bool data_seen, result_within_range;
+
+        std::tie(data_seen, result_within_range) =
+            operation_2d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
+                input_no_data_policy,
+                IndexRanges<2>{
+                    IndexRange(0, size(values, 0)),
+                    IndexRange(0, size(values, 1))},
+                values, value, result);
+
+        if(!data_seen || !result_within_range) {
+            output_no_data_policy.mark_as_no_data();
+        }
     }
 
 };
@@ -632,42 +681,25 @@ struct BinaryAggregateOperation<
         size_t const size2 = size(values, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        std::vector<std::future<std::tuple<bool, bool>>> futures;
         futures.reserve(ranges.size());
         std::vector<Result> results_per_block(ranges.size(), Result(0));
 
         Algorithm algorithm;
-
-        // TODO OutputNoDataPolicy must be created ad-hoc here. It must have
-        //      an effect on the values in results_per_block.
-        //      This depends on whether or not results are masking. Probably
-        //      need to dispatch this whole function on that. First create a
-        //      failing unit test that fails: include a block with only
-        //      no-data and verify the result is not no-data.
         for(size_t i = 0; i < ranges.size(); ++i) {
             auto const& block_range(ranges[i]);
             auto function = std::bind(
                 operation_2d<OutOfDomainPolicy, OutOfRangePolicy, Algorithm,
-                    InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, Result>,
+                    InputNoDataPolicy, Value, Result>,
                 std::cref(algorithm),
-                std::cref(input_no_data_policy),
-                std::ref(output_no_data_policy), std::cref(block_range),
+                std::cref(input_no_data_policy), std::cref(block_range),
                 std::cref(values), std::cref(value),
                 std::ref(results_per_block[i]));
             futures.emplace_back(pool.submit(function));
         }
 
-        for(auto& future: futures) {
-            future.get();
-        }
-
-        Aggregator aggregator;
-
-        Aggregate<DataTypeTraits<Result>::is_masking>::template
-            apply<OutOfRangePolicy>(
-                aggregator, output_no_data_policy, execution_policy,
-                results_per_block, result);
+        aggregate_blocks<Aggregator, OutOfRangePolicy>(output_no_data_policy,
+            execution_policy, futures, results_per_block, result);
     }
 
 };
-- 
2.43.0


From 903f91f0bbc104ac55413c050ca27ab310f2e663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 15/29] fix: checked merge of counts added one instead of the
 other count

---
 source/fern/algorithm/accumulator/count.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/source/fern/algorithm/accumulator/count.h b/source/fern/algorithm/accumulator/count.h
index 1754768..8a1238f 100644
--- a/source/fern/algorithm/accumulator/count.h
+++ b/source/fern/algorithm/accumulator/count.h
@@ -133,8 +133,8 @@ inline bool Count<Argument, Result>::operator()(
     Result previous_count{_count};
     ++_count;
 
-    return OutOfRangePolicy<Result, Argument, Result>::within_range(
-        previous_count, 1, _count);
+    return OutOfRangePolicy<Result, Result, Result>::within_range(
+        previous_count, Result(1), _count);
 }
 
 
@@ -173,10 +173,13 @@ template<
 template<
     template<typename, typename, typename> class OutOfRangePolicy>
 inline bool Count<Argument, Result>::operator|=(
-    Count const& /* other */)
+    Count const& other)
 {
-    // Value doesn't matter. We're counting, not summing.
-    return operator()<OutOfRangePolicy>(Argument{});
+    Result previous_count{_count};
+    _count += other._count;
+
+    return OutOfRangePolicy<Result, Result, Result>::within_range(
+        previous_count, other._count, _count);
 }
 
 
-- 
2.43.0


From 6be8196bb46c3cfeb79638ea1cb911f1b6a13a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 16/29] fix: checked merge of sums narrowed the other sum to
 the argument type

---
 source/fern/algorithm/accumulator/sum.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/accumulator/sum.h b/source/fern/algorithm/accumulator/sum.h
index a4fac1e..78f2bec 100644
--- a/source/fern/algorithm/accumulator/sum.h
+++ b/source/fern/algorithm/accumulator/sum.h
@@ -193,7 +193,11 @@ template<
 inline bool Sum<Argument, Result>::operator|=(
     Sum const& other)
 {
-    return operator()<OutOfRangePolicy>(other._sum);
+    Result previous_sum{_sum};
+    _sum += other._sum;
+
+    return OutOfRangePolicy<Result, Result, Result>::within_range(
+        previous_sum, other._sum, _sum);
 }
 
 
-- 
2.43.0


From dfaccecccb8c784e41a965c7267ea30873b0da67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 17/29] fix: default constructed mode accumulator contained a
 value

---
 source/fern/algorithm/accumulator/mode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/accumulator/mode.h b/source/fern/algorithm/accumulator/mode.h
index d747d37..3f619c7 100644
--- a/source/fern/algorithm/accumulator/mode.h
+++ b/source/fern/algorithm/accumulator/mode.h
@@ -65,7 +65,7 @@ template<
     typename Result>
 inline Mode<Argument, Result>::Mode()
 
-    : _frequency_table(0)
+    : _frequency_table()
 
 {
 }
-- 
2.43.0


From 2c78231e02b55c8354535a9286c13c460e2d46a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 18/29] fix: median of an even number of integers overflowed or
 was truncated before averaging

---
 source/fern/algorithm/accumulator/median.h | 46 +++++++++++++++++++++-
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/accumulator/median.h b/source/fern/algorithm/accumulator/median.h
index 5a2e37b..771328a 100644
--- a/source/fern/algorithm/accumulator/median.h
+++ b/source/fern/algorithm/accumulator/median.h
@@ -9,6 +9,7 @@
 #pragma once
 #include <algorithm>
 #include <cassert>
+#include <type_traits>
 #include <vector>
 
 
@@ -52,6 +53,16 @@ public:
 
 private:
 
+    static Result  mean_of_center_values(
+                                        Argument const& lower,
+                                        Argument const& upper,
+                                        std::true_type);
+
+    static Result  mean_of_center_values(
+                                        Argument const& lower,
+                                        Argument const& upper,
+                                        std::false_type);
+
     mutable std::vector<Argument> _values;
 
 };
@@ -147,14 +158,45 @@ inline Result Median<Argument, Result>::operator()() const
     }
     else {
         // Even. Return mean of two center values.
-        result = static_cast<Result>(_values[center_index - 1] +
-            _values[center_index]) / 2;
+        result = mean_of_center_values(
+            _values[center_index - 1], _values[center_index],
+            std::is_floating_point<Result>());
     }
 
     return result;
 }
 
 
+template<
+    typename Argument,
+    typename Result>
+inline Result Median<Argument, Result>::mean_of_center_values(
+    Argument const& lower,
+    Argument const& upper,
+    std::true_type /* floating point */)
+{
+    return (static_cast<Result>(lower) + static_cast<Result>(upper)) / 2;
+}
+
+
+// The sum of both values may be out of range, their mean isn't.
+template<
+    typename Argument,
+    typename Result>
+inline Result Median<Argument, Result>::mean_of_center_values(
+    Argument const& lower,
+    Argument const& upper,
+    std::false_type /* integral */)
+{
+    return static_cast<Result>(
+        lower < 0 && !(upper < 0)
+            ? (lower + upper) / 2
+            : lower < 0
+                ? upper - (upper - lower) / 2
+                : lower + (upper - lower) / 2);
+}
+
+
 /*!
     @brief      Merge @a other with *this.
 
-- 
2.43.0


From bb3c99c8359a1591dd99ca80af37c52eb8472e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:53 +0000
Subject: [PATCH 19/29] fix: replacing no-data surrounded by only no-data by
 the focal average aborts

---
 .../replace_no_data_by_focal_average.h          | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h b/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h
index 7578156..480960b 100644
--- a/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h
+++ b/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h
@@ -7,7 +7,6 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
-#include <cassert>
 #include <cstddef>
 #include <tuple>
 #include "fern/core/data_customization_point.h"
@@ -83,16 +82,14 @@ inline bool ReplaceNoDataByFocalAverage::value(
         }
     }
 
-    // At least the focal cell must be non-no-data. Otherwise it would have
-    // been skipped entirely and we wouldn't be here.
-    // -> But in case the radius of the convolution kernel is larger than 1,
-    // the focal cell is not surrounding cell row, col. It is possible that
-    // cell row, col is surrounded by only no-data.
-    // TODO Handle this once this assertion fails for the first time.
-    assert(nr_values_seen > 0u);
-    value = sum_of_values / static_cast<Value>(nr_values_seen);
+    // It is possible that cell row, col is surrounded by only no-data: the
+    // radius of the kernel can be larger than 1, or the focal cell itself is
+    // replaced.
+    if(nr_values_seen > 0u) {
+        value = sum_of_values / static_cast<Value>(nr_values_seen);
+    }
 
-    return true;
+    return nr_values_seen > 0u;
 }
 
 } // namespace convolve
-- 
2.43.0


From b84664265a9bc3af18f0e4e744fd3509d6a96a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:47 +0000
Subject: [PATCH 20/29] fix: focal average of cells outside of small images
 reads cells outside of the image

---
 .../replace_out_of_image_by_focal_average.h   | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h b/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h
index cd358b9..bfbf80e 100644
--- a/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h
+++ b/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h
@@ -218,8 +218,9 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_west(
                     size_t col = out_of_image_kernel_col - first_col_kernel >=
                         radius ? out_of_image_kernel_col - first_col_kernel -
                         radius : 0;
-                    size_t const last_col = out_of_image_kernel_col -
-                        first_col_kernel + radius;
+                    size_t const last_col = std::min(
+                        out_of_image_kernel_col - first_col_kernel + radius,
+                        size(source, 1) - 1);
 
                     index_ = index(source, row, col);
 
@@ -248,8 +249,9 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_west(
             size_t row = out_of_image_kernel_row - first_row_kernel >= radius
                 ? out_of_image_kernel_row -first_row_kernel - radius
                 : 0;
-            size_t const last_row = out_of_image_kernel_row -
-                first_row_kernel + radius;
+            size_t const last_row = std::min(
+                out_of_image_kernel_row - first_row_kernel + radius,
+                size(source, 0) - 1);
 
             for(; row <= last_row; ++row) {
                 size_t col = first_col_source;
@@ -353,7 +355,8 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_east(
 
                 for(; row <= last_row; ++row) {
 
-                    size_t col = col_source - radius;
+                    size_t col = radius > col_source
+                        ? 0 : col_source - radius;
                     size_t last_col = std::min(col_source + radius,
                         last_col_source);
                     index_ = index(source, row, col);
@@ -385,8 +388,9 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_east(
                     ? out_of_image_kernel_row - first_row_kernel - radius
                     : 0;
 
-            size_t const last_row = out_of_image_kernel_row -
-                first_row_kernel + radius;
+            size_t const last_row = std::min(
+                out_of_image_kernel_row - first_row_kernel + radius,
+                size(source, 0) - 1);
 
             for(; row <= last_row; ++row) {
 
@@ -494,8 +498,9 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_west(
                     size_t col = out_of_image_kernel_col - first_col_kernel >=
                         radius ? out_of_image_kernel_col - first_col_kernel -
                         radius : 0;
-                    size_t const last_col = out_of_image_kernel_col -
-                        first_col_kernel + radius;
+                    size_t const last_col = std::min(
+                        out_of_image_kernel_col - first_col_kernel + radius,
+                        size(source, 1) - 1);
 
                     index_ = index(source, row, col);
 
@@ -524,7 +529,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_west(
 
             size_t const row_source = first_row_source +
                 out_of_image_kernel_row;
-            size_t row = row_source - radius;
+            size_t row = radius > row_source ? 0 : row_source - radius;
             size_t last_row = std::min(row_source + radius, last_row_source);
 
             for(; row <= last_row; ++row) {
@@ -637,7 +642,8 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_east(
 
                 for(; row <= last_row; ++row) {
 
-                    size_t col = col_source - radius;
+                    size_t col = radius > col_source
+                        ? 0 : col_source - radius;
                     size_t last_col = std::min(col_source + radius,
                         last_col_source);
 
@@ -668,7 +674,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_east(
 
             size_t const row_source = first_row_source +
                 out_of_image_kernel_row;
-            size_t row = row_source - radius;
+            size_t row = radius > row_source ? 0 : row_source - radius;
             size_t last_row = std::min(row_source + radius, last_row_source);
 
             for(; row <= last_row; ++row) {
-- 
2.43.0


From e268a6ef776da61ac5b5cc95ec00192d719810be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 21/29] fix: replaced values with a zero kernel weight count as
 values when convolving

---
 .../algorithm/convolution/detail/convolve.h   | 199 ++++++++++--------
 1 file changed, 117 insertions(+), 82 deletions(-)

diff --git a/source/fern/algorithm/convolution/detail/convolve.h b/source/fern/algorithm/convolution/detail/convolve.h
index 7e773d2..4e476cc 100644
--- a/source/fern/algorithm/convolution/detail/convolve.h
+++ b/source/fern/algorithm/convolution/detail/convolve.h
@@ -57,15 +57,22 @@ template<
 struct HandleValue
 {
 
-    inline static void apply(
+    // Returns whether the value is used. Values with a zero weight aren't.
+    inline static bool apply(
         V const& value,
         W const& weight,
         SV& sum_of_values,
         SW& sum_of_weights)
     {
         // Kernel weights are not booleans.
-        sum_of_values += value * weight;
-        sum_of_weights += weight;
+        bool const use{is_not_equal(weight, W{0})};
+
+        if(use) {
+            sum_of_values += value * weight;
+            sum_of_weights += weight;
+        }
+
+        return use;
     }
 
 };
@@ -83,7 +90,7 @@ struct HandleValue<
 
 {
 
-    inline static void apply(
+    inline static bool apply(
         V const& value,
         bool const& weight,
         SV& sum_of_values,
@@ -94,6 +101,8 @@ struct HandleValue<
             sum_of_values += value;
             sum_of_weights += 1;
         }
+
+        return weight;
     }
 
 };
@@ -204,11 +213,12 @@ struct ConvolveNorthWestCorner
                                             nr_rows_kernel, nr_cols_kernel,
                                             first_row_source, first_col_source,
                                             out_of_image_value)) {
-                                        HandleValue<SV, SW, V, W>::apply(
+                                        if(HandleValue<SV, SW, V, W>::apply(
                                             out_of_image_value,
                                             get(kernel, kernel_index),
-                                            sum_of_values, sum_of_weights);
-                                        value_seen = true;
+                                            sum_of_values, sum_of_weights)) {
+                                            value_seen = true;
+                                        }
                                     }
                                 }
 
@@ -236,20 +246,22 @@ struct ConvolveNorthWestCorner
                                         first_row_source + row,
                                         first_col_source + col,
                                         alternative_value)) {
-                                    HandleValue<SV, SW, V, W>::apply(
+                                    if(HandleValue<SV, SW, V, W>::apply(
                                         alternative_value,
                                         get(kernel, kernel_index),
-                                        sum_of_values, sum_of_weights);
-                                    value_seen = true;
+                                        sum_of_values, sum_of_weights)) {
+                                        value_seen = true;
+                                    }
                                 }
                             }
                             else if(is_not_equal(
                                     get(kernel, kernel_index), W{0})) {
-                                HandleValue<SV, SW, V, W>::apply(
+                                if(HandleValue<SV, SW, V, W>::apply(
                                     get(source, source_index),
                                     get(kernel, kernel_index),
-                                    sum_of_values, sum_of_weights);
-                                value_seen = true;
+                                    sum_of_values, sum_of_weights)) {
+                                    value_seen = true;
+                                }
                             }
 
                             ++source_index;
@@ -383,11 +395,12 @@ struct ConvolveNorthEastCorner
                                             nr_rows_kernel, nr_cols_kernel,
                                             first_row_source, first_col_source,
                                             out_of_image_value)) {
-                                        HandleValue<SV, SW, V, W>::apply(
+                                        if(HandleValue<SV, SW, V, W>::apply(
                                             out_of_image_value,
                                             get(kernel, kernel_index),
-                                            sum_of_values, sum_of_weights);
-                                        value_seen = true;
+                                            sum_of_values, sum_of_weights)) {
+                                            value_seen = true;
+                                        }
                                     }
                                 }
 
@@ -415,20 +428,22 @@ struct ConvolveNorthEastCorner
                                         first_row_source + row,
                                         first_col_source + col,
                                         alternative_value)) {
-                                    HandleValue<SV, SW, V, W>::apply(
+                                    if(HandleValue<SV, SW, V, W>::apply(
                                         alternative_value,
                                         get(kernel, kernel_index),
-                                        sum_of_values, sum_of_weights);
-                                    value_seen = true;
+                                        sum_of_values, sum_of_weights)) {
+                                        value_seen = true;
+                                    }
                                 }
                             }
                             else if(is_not_equal(
                                     get(kernel, kernel_index), W{0})) {
-                                HandleValue<SV, SW, V, W>::apply(
+                                if(HandleValue<SV, SW, V, W>::apply(
                                     get(source, source_index),
                                     get(kernel, kernel_index),
-                                    sum_of_values, sum_of_weights);
-                                value_seen = true;
+                                    sum_of_values, sum_of_weights)) {
+                                    value_seen = true;
+                                }
                             }
 
                             ++source_index;
@@ -563,11 +578,12 @@ struct ConvolveSouthWestCorner
                                             nr_rows_kernel, nr_cols_kernel,
                                             first_row_source, first_col_source,
                                             out_of_image_value)) {
-                                        HandleValue<SV, SW, V, W>::apply(
+                                        if(HandleValue<SV, SW, V, W>::apply(
                                             out_of_image_value,
                                             get(kernel, kernel_index),
-                                            sum_of_values, sum_of_weights);
-                                        value_seen = true;
+                                            sum_of_values, sum_of_weights)) {
+                                            value_seen = true;
+                                        }
                                     }
                                 }
 
@@ -595,20 +611,22 @@ struct ConvolveSouthWestCorner
                                         first_row_source + row,
                                         first_col_source + col,
                                         alternative_value)) {
-                                    HandleValue<SV, SW, V, W>::apply(
+                                    if(HandleValue<SV, SW, V, W>::apply(
                                         alternative_value,
                                         get(kernel, kernel_index),
-                                        sum_of_values, sum_of_weights);
-                                    value_seen = true;
+                                        sum_of_values, sum_of_weights)) {
+                                        value_seen = true;
+                                    }
                                 }
                             }
                             else if(is_not_equal(
                                     get(kernel, kernel_index), W{0})) {
-                                HandleValue<SV, SW, V, W>::apply(
+                                if(HandleValue<SV, SW, V, W>::apply(
                                     get(source, source_index),
                                     get(kernel, kernel_index),
-                                    sum_of_values, sum_of_weights);
-                                value_seen = true;
+                                    sum_of_values, sum_of_weights)) {
+                                    value_seen = true;
+                                }
                             }
 
                             ++source_index;
@@ -745,11 +763,12 @@ struct ConvolveSouthEastCorner
                                             nr_rows_kernel, nr_cols_kernel,
                                             first_row_source, first_col_source,
                                             out_of_image_value)) {
-                                        HandleValue<SV, SW, V, W>::apply(
+                                        if(HandleValue<SV, SW, V, W>::apply(
                                             out_of_image_value,
                                             get(kernel, kernel_index),
-                                            sum_of_values, sum_of_weights);
-                                        value_seen = true;
+                                            sum_of_values, sum_of_weights)) {
+                                            value_seen = true;
+                                        }
                                     }
                                 }
 
@@ -777,20 +796,22 @@ struct ConvolveSouthEastCorner
                                         first_row_source + row,
                                         first_col_source + col,
                                         alternative_value)) {
-                                    HandleValue<SV, SW, V, W>::apply(
+                                    if(HandleValue<SV, SW, V, W>::apply(
                                         alternative_value,
                                         get(kernel, kernel_index),
-                                        sum_of_values, sum_of_weights);
-                                    value_seen = true;
+                                        sum_of_values, sum_of_weights)) {
+                                        value_seen = true;
+                                    }
                                 }
                             }
                             else if(is_not_equal(
                                     get(kernel, kernel_index), W{0})) {
-                                HandleValue<SV, SW, V, W>::apply(
+                                if(HandleValue<SV, SW, V, W>::apply(
                                     get(source, source_index),
                                     get(kernel, kernel_index),
-                                    sum_of_values, sum_of_weights);
-                                value_seen = true;
+                                    sum_of_values, sum_of_weights)) {
+                                    value_seen = true;
+                                }
                             }
 
                             ++source_index;
@@ -924,11 +945,12 @@ struct ConvolveNorthSide
                                             nr_rows_kernel, nr_cols_kernel,
                                             first_row_source, first_col_source,
                                             out_of_image_value)) {
-                                        HandleValue<SV, SW, V, W>::apply(
+                                        if(HandleValue<SV, SW, V, W>::apply(
                                             out_of_image_value,
                                             get(kernel, kernel_index),
-                                            sum_of_values, sum_of_weights);
-                                        value_seen = true;
+                                            sum_of_values, sum_of_weights)) {
+                                            value_seen = true;
+                                        }
                                     }
                                 }
 
@@ -956,20 +978,22 @@ struct ConvolveNorthSide
                                         first_row_source + row,
                                         first_col_source + col,
                                         alternative_value)) {
-                                    HandleValue<SV, SW, V, W>::apply(
+                                    if(HandleValue<SV, SW, V, W>::apply(
                                         alternative_value,
                                         get(kernel, kernel_index),
-                                        sum_of_values, sum_of_weights);
-                                    value_seen = true;
+                                        sum_of_values, sum_of_weights)) {
+                                        value_seen = true;
+                                    }
                                 }
                             }
                             else if(is_not_equal(
                                     get(kernel, kernel_index), W{0})) {
-                                HandleValue<SV, SW, V, W>::apply(
+                                if(HandleValue<SV, SW, V, W>::apply(
                                     get(source, source_index),
                                     get(kernel, kernel_index),
-                                    sum_of_values, sum_of_weights);
-                                value_seen = true;
+                                    sum_of_values, sum_of_weights)) {
+                                    value_seen = true;
+                                }
                             }
 
                             ++source_index;
@@ -1103,11 +1127,12 @@ struct ConvolveWestSide
                                             nr_rows_kernel, nr_cols_kernel,
                                             first_row_source, first_col_source,
                                             out_of_image_value)) {
-                                        HandleValue<SV, SW, V, W>::apply(
+                                        if(HandleValue<SV, SW, V, W>::apply(
                                             out_of_image_value,
                                             get(kernel, kernel_index),
-                                            sum_of_values, sum_of_weights);
-                                        value_seen = true;
+                                            sum_of_values, sum_of_weights)) {
+                                            value_seen = true;
+                                        }
                                     }
                                 }
 
@@ -1135,20 +1160,22 @@ struct ConvolveWestSide
                                         first_row_source + row,
                                         first_col_source + col,
                                         alternative_value)) {
-                                    HandleValue<SV, SW, V, W>::apply(
+                                    if(HandleValue<SV, SW, V, W>::apply(
                                         alternative_value,
                                         get(kernel, kernel_index),
-                                        sum_of_values, sum_of_weights);
-                                    value_seen = true;
+                                        sum_of_values, sum_of_weights)) {
+                                        value_seen = true;
+                                    }
                                 }
                             }
                             else if(is_not_equal(
                                     get(kernel, kernel_index), W{0})) {
-                                HandleValue<SV, SW, V, W>::apply(
+                                if(HandleValue<SV, SW, V, W>::apply(
                                     get(source, source_index),
                                     get(kernel, kernel_index),
-                                    sum_of_values, sum_of_weights);
-                                value_seen = true;
+                                    sum_of_values, sum_of_weights)) {
+                                    value_seen = true;
+                                }
                             }
 
                             ++source_index;
@@ -1284,11 +1311,12 @@ struct ConvolveEastSide
                                             nr_rows_kernel, nr_cols_kernel,
                                             first_row_source, first_col_source,
                                             out_of_image_value)) {
-                                        HandleValue<SV, SW, V, W>::apply(
+                                        if(HandleValue<SV, SW, V, W>::apply(
                                             out_of_image_value,
                                             get(kernel, kernel_index),
-                                            sum_of_values, sum_of_weights);
-                                        value_seen = true;
+                                            sum_of_values, sum_of_weights)) {
+                                            value_seen = true;
+                                        }
                                     }
                                 }
 
@@ -1316,20 +1344,22 @@ struct ConvolveEastSide
                                         first_row_source + row,
                                         first_col_source + col,
                                         alternative_value)) {
-                                    HandleValue<SV, SW, V, W>::apply(
+                                    if(HandleValue<SV, SW, V, W>::apply(
                                         alternative_value,
                                         get(kernel, kernel_index),
-                                        sum_of_values, sum_of_weights);
-                                    value_seen = true;
+                                        sum_of_values, sum_of_weights)) {
+                                        value_seen = true;
+                                    }
                                 }
                             }
                             else if(is_not_equal(
                                     get(kernel, kernel_index), W{0})) {
-                                HandleValue<SV, SW, V, W>::apply(
+                                if(HandleValue<SV, SW, V, W>::apply(
                                     get(source, source_index),
                                     get(kernel, kernel_index),
-                                    sum_of_values, sum_of_weights);
-                                value_seen = true;
+                                    sum_of_values, sum_of_weights)) {
+                                    value_seen = true;
+                                }
                             }
 
                             ++source_index;
@@ -1464,11 +1494,12 @@ struct ConvolveSouthSide
                                             nr_rows_kernel, nr_cols_kernel,
                                             first_row_source, first_col_source,
                                             out_of_image_value)) {
-                                        HandleValue<SV, SW, V, W>::apply(
+                                        if(HandleValue<SV, SW, V, W>::apply(
                                             out_of_image_value,
                                             get(kernel, kernel_index),
-                                            sum_of_values, sum_of_weights);
-                                        value_seen = true;
+                                            sum_of_values, sum_of_weights)) {
+                                            value_seen = true;
+                                        }
                                     }
                                 }
 
@@ -1496,20 +1527,22 @@ struct ConvolveSouthSide
                                         first_row_source + row,
                                         first_col_source + col,
                                         alternative_value)) {
-                                    HandleValue<SV, SW, V, W>::apply(
+                                    if(HandleValue<SV, SW, V, W>::apply(
                                         alternative_value,
                                         get(kernel, kernel_index),
-                                        sum_of_values, sum_of_weights);
-                                    value_seen = true;
+                                        sum_of_values, sum_of_weights)) {
+                                        value_seen = true;
+                                    }
                                 }
                             }
                             else if(is_not_equal(
                                     get(kernel, kernel_index), W{0})) {
-                                HandleValue<SV, SW, V, W>::apply(
+                                if(HandleValue<SV, SW, V, W>::apply(
                                     get(source, source_index),
                                     get(kernel, kernel_index),
-                                    sum_of_values, sum_of_weights);
-                                value_seen = true;
+                                    sum_of_values, sum_of_weights)) {
+                                    value_seen = true;
+                                }
                             }
 
                             ++source_index;
@@ -1636,20 +1669,22 @@ struct ConvolveInnerPart<true>
                                         first_row_source + row,
                                         first_col_source + col,
                                         alternative_value)) {
-                                    HandleValue<SV, SW, V, W>::apply(
+                                    if(HandleValue<SV, SW, V, W>::apply(
                                         alternative_value,
                                         get(kernel, kernel_index),
-                                        sum_of_values, sum_of_weights);
-                                    value_seen = true;
+                                        sum_of_values, sum_of_weights)) {
+                                        value_seen = true;
+                                    }
                                 }
                             }
                             else if(is_not_equal(
                                     get(kernel, kernel_index), W{0})) {
-                                HandleValue<SV, SW, V, W>::apply(
+                                if(HandleValue<SV, SW, V, W>::apply(
                                     get(source, source_index),
                                     get(kernel, kernel_index),
-                                    sum_of_values, sum_of_weights);
-                                value_seen = true;
+                                    sum_of_values, sum_of_weights)) {
+                                    value_seen = true;
+                                }
                             }
 
                             ++source_index;
-- 
2.43.0


From 64915889e4972750b0264b65d688964e08cda875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 22/29] fix: cloning a 3D masked array loses the size of its
 third dimension

---
 .../fern/feature/core/data_customization_point/masked_array.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/feature/core/data_customization_point/masked_array.h b/source/fern/feature/core/data_customization_point/masked_array.h
index a936140..540c73b 100644
--- a/source/fern/feature/core/data_customization_point/masked_array.h
+++ b/source/fern/feature/core/data_customization_point/masked_array.h
@@ -124,7 +124,7 @@ inline MaskedArray<U, 3> clone(
     MaskedArray<V, 3> const& array)
 {
     return MaskedArray<U, 3>(
-        extents[array.shape()[0]][array.shape()[1]][array.shape()[1]]);
+        extents[array.shape()[0]][array.shape()[1]][array.shape()[2]]);
 }
 
 
-- 
2.43.0


From 3d052087cff58b70f6eb830928fed284f776559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 23/29] fix: cloning a 3D raster does not compile

---
 source/fern/feature/core/data_customization_point/raster.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/feature/core/data_customization_point/raster.h b/source/fern/feature/core/data_customization_point/raster.h
index 2f5d1e5..a253598 100644
--- a/source/fern/feature/core/data_customization_point/raster.h
+++ b/source/fern/feature/core/data_customization_point/raster.h
@@ -146,7 +146,7 @@ inline Raster<U, 3> clone(
     Raster<V, 3> const& raster)
 {
     return Raster<U, 3>(
-        extents[raster.shape()[0]][raster.shape()[1],raster.shape()[2]],
+        extents[raster.shape()[0]][raster.shape()[1]][raster.shape()[2]],
         raster.transformation());
 }
 
@@ -159,7 +159,7 @@ inline Raster<U, 3> clone(
     U const& value)
 {
     return Raster<U, 3>(
-        extents[raster.shape()[0]][raster.shape()[1],raster.shape()[2]],
+        extents[raster.shape()[0]][raster.shape()[1]][raster.shape()[2]],
         raster.transformation(), value);
 }
 
-- 
2.43.0


From 10ca2862d34dbe9dcb9408163d6e8ed8a9559dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 24/29] fix: a moved ScopeExit instance executed its function
 as well

---
 source/fern/core/scope_exit.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/source/fern/core/scope_exit.h b/source/fern/core/scope_exit.h
index 343b07d..8ebfebf 100644
--- a/source/fern/core/scope_exit.h
+++ b/source/fern/core/scope_exit.h
@@ -69,7 +69,8 @@ public:
 
                    ScopeExit           (ScopeExit const& other)=delete;
 
-                   ScopeExit           (ScopeExit&& other)=default;
+                   ScopeExit           (ScopeExit&& other) noexcept(
+                        std::is_nothrow_move_constructible<Function>::value);
 
                    ~ScopeExit          () noexcept(noexcept(_function));
 
@@ -100,6 +101,26 @@ inline ScopeExit<Function>::ScopeExit(
 }
 
 
+/*!
+    @brief      Move construct an instance from @a other.
+
+    The new instance takes over the responsibility of @a other, which is
+    released of it.
+*/
+template<
+    typename Function>
+inline ScopeExit<Function>::ScopeExit(
+    ScopeExit&& other) noexcept(
+        std::is_nothrow_move_constructible<Function>::value)
+
+    : _function(std::move(other._function)),
+      _execute_on_destruction(other._execute_on_destruction)
+
+{
+    other.release();
+}
+
+
 /*!
     @brief      Destruct the instance.
 
-- 
2.43.0


From 052abadb31d0515c87a0692be385aa41101462d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 25/29] fix: number of attributes of a child-feature was that
 of its parent

---
 source/fern/language/feature/core/feature.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/fern/language/feature/core/feature.cc b/source/fern/language/feature/core/feature.cc
index 1c6f331..3a3c9c8 100644
--- a/source/fern/language/feature/core/feature.cc
+++ b/source/fern/language/feature/core/feature.cc
@@ -136,7 +136,9 @@ size_t Feature::nr_attributes() const
 size_t Feature::nr_attributes(
     Path const& path) const
 {
-    return parent_feature(path)->nr_attributes();
+    assert(contains_feature(path));
+
+    return feature(path)->nr_attributes();
 }
 
 
-- 
2.43.0


From afd38beb53ab631c5634bc39577bf73b8750d7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 26/29] fix: testing for a missing attribute of a child-feature
 throws

---
 source/fern/language/feature/core/feature.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/feature/core/feature.cc b/source/fern/language/feature/core/feature.cc
index 3a3c9c8..d78aa48 100644
--- a/source/fern/language/feature/core/feature.cc
+++ b/source/fern/language/feature/core/feature.cc
@@ -167,10 +167,17 @@ std::vector<std::string> Feature::attribute_names() const
 bool Feature::contains_attribute(
     Path const& path) const
 {
-    return path.parent_path().generic_string().empty()
-        ? _attributes.find(path.generic_string()) != _attributes.end()
-        : static_cast<bool>(attribute(path))
-        ;
+    Path const parent_path(path.parent_path());
+
+    if(parent_path.generic_string().empty()) {
+        return _attributes.find(path.generic_string()) != _attributes.end();
+    }
+
+    // The path addresses an attribute of a child-feature, which may not exist.
+    std::shared_ptr<Feature> const parent_feature(feature(parent_path));
+
+    return parent_feature && parent_feature->contains_attribute(
+        path.filename());
 }
 
 
-- 
2.43.0


From 6ceeef5e71f5c030f6047b11f7a53ecf385d783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:51 +0000
Subject: [PATCH 27/29] fix: type of an expression of 16 bit signed integers
 and smaller types

---
 .../language/operation/core/expression_type_calculation.cc     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/fern/language/operation/core/expression_type_calculation.cc b/source/fern/language/operation/core/expression_type_calculation.cc
index 5cf4682..c520d73 100644
--- a/source/fern/language/operation/core/expression_type_calculation.cc
+++ b/source/fern/language/operation/core/expression_type_calculation.cc
@@ -168,6 +168,9 @@ static ValueTypes result_value_type(
     else if(merged_argument_value_types.test(fern::VT_UINT16)) {
         result_value_type = ValueTypes::UINT16;
     }
+    else if(merged_argument_value_types.test(fern::VT_INT16)) {
+        result_value_type = ValueTypes::INT16;
+    }
     else if(merged_argument_value_types.test(fern::VT_UINT8)) {
         result_value_type = ValueTypes::UINT8;
     }
-- 
2.43.0


From 09264c4c86ca9bd0a6ebf9b2fe725c0bd4e2f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 28/29] fix: outputs of a module with names that are defined
 more than once

Removing an earlier definition from the outputs left the indices of the
later ones stale, so that subsequent redefinitions removed other outputs.
---
 source/fern/language/ast/visitor/io_visitor.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/ast/visitor/io_visitor.cc b/source/fern/language/ast/visitor/io_visitor.cc
index 05b333a..2d29d2a 100644
--- a/source/fern/language/ast/visitor/io_visitor.cc
+++ b/source/fern/language/ast/visitor/io_visitor.cc
@@ -74,8 +74,15 @@ void IOVisitor::Visit(
                     _output_id_by_name.end()) {
                 // This identifier is already stored as a result.
                 // Remove it first. We want to store this latter occurence.
-                _outputs.erase(_outputs.begin() + _output_id_by_name[
-                    vertex.name()]);
+                auto const id = _output_id_by_name[vertex.name()];
+                _outputs.erase(_outputs.begin() + id);
+
+                // The outputs after the removed one have moved.
+                for(auto& output_id: _output_id_by_name) {
+                    if(output_id.second > id) {
+                        --output_id.second;
+                    }
+                }
             }
 
             _output_id_by_name[vertex.name()] = _outputs.size();
-- 
2.43.0


From fe3e9d34b4607075f6780c1b4694afa660f8198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 29/29] fix: types of arguments were passed to operations in
 reverse order

---
 source/fern/language/ast/visitor/annotate_visitor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/fern/language/ast/visitor/annotate_visitor.cc b/source/fern/language/ast/visitor/annotate_visitor.cc
index 1679cef..beb1f73 100644
--- a/source/fern/language/ast/visitor/annotate_visitor.cc
+++ b/source/fern/language/ast/visitor/annotate_visitor.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/language/ast/visitor/annotate_visitor.h"
+#include <algorithm>
 #include "fern/core/type_traits.h"
 #include "fern/language/operation/core/result.h"
 #include "fern/language/ast/core/vertices.h"
@@ -157,6 +158,9 @@ void AnnotateVisitor::Visit(
         _stack.pop();
     }
 
+    // The result type of the last argument is on top of the stack.
+    std::reverse(argument_types.begin(), argument_types.end());
+
     ExpressionTypes expression_types(1);
 
     // Retrieve info about the operation, if available.
-- 
2.43.0

