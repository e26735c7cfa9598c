From 69ee382ac1a8cc02b9bf9b2990186e0114da4881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:53 +0000
Subject: [PATCH 01/42] fix: keep the scale of the other operand when adding an
 exact zero

---
 public/gal/expr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index e655f06..3328ebb 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -391,10 +391,12 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
         if (lhs.count == 0)
         {
             out.append(rhs);
+            out.q = rhs.q;
         }
         else
         {
             out.append(lhs);
+            out.q = lhs.q;
         }
         return out;
     }
-- 
2.43.0


From 021dd41899d37b0b58267a1f61d6b3f87f7a0e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:14 +0000
Subject: [PATCH 02/42] fix: scale trailing lhs summands by the lhs factor when
 merging two sums

---
 public/gal/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 3328ebb..064714c 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -445,7 +445,7 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
                 {
                     auto lhs_summand = lhs.nodes[lhs_index++];
                     ++summand_count;
-                    lhs_summand.q *= rhs.q;
+                    lhs_summand.q *= lhs.q;
                     out.nodes[out.count++] = lhs_summand;
                     for (width_t i = 0; i != lhs_summand.ex; ++i)
                     {
-- 
2.43.0


From 21550aa4a88902153e3a22d5cef6a18dd9fee063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:22 +0000
Subject: [PATCH 03/42] fix: a sum whose summands all cancel is exactly zero

---
 public/gal/expr.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 064714c..7913991 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -670,6 +670,12 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
         summand_count = 2;
     }
 
+    // All summands canceled so the result is exactly zero
+    if (summand_count == 0)
+    {
+        return out;
+    }
+
     // Do a final pass to see if the sum has been collapsed to a single term
     if (summand_count == 1)
     {
-- 
2.43.0


From c105a61b802fe6dd3a1118a50eb66d3d2757c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:29 +0000
Subject: [PATCH 04/42] fix: expression nodes with different scale factors are
 not equal

---
 public/gal/expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 7913991..0d7d50e 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -114,7 +114,8 @@ namespace detail
 
         constexpr bool operator==(node const& other) const
         {
-            return o == other.o && checksum == other.checksum && ex == other.ex;
+            return o == other.o && checksum == other.checksum && ex == other.ex
+                   && q.num == other.q.num && q.den == other.q.den;
         }
 
         constexpr bool operator!=(node const& other) const
-- 
2.43.0


From a9b41d3fd1b6e325aa9b73e79f605d2c5f82e3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:36 +0000
Subject: [PATCH 05/42] fix: keep the scale factor of a reversed or dualized
 expression

---
 public/gal/expr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 0d7d50e..18fedfd 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -849,6 +849,7 @@ constexpr auto operator~(detail::rpne<A, S> const& in)
     {
         out.append(detail::op_rev);
     }
+    out.q = in.q;
     return out;
 }
 
@@ -863,6 +864,7 @@ constexpr auto operator!(detail::rpne<A, S> const& in)
 
     out.append(in);
     out.append(detail::op_pd);
+    out.q = in.q;
     return out;
 }
 
-- 
2.43.0


From d6023705f4e05e50d028ac0adfb126d3a3c6fde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:43 +0000
Subject: [PATCH 06/42] fix: keep the scale factor when extending an exterior
 product

---
 public/gal/expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 18fedfd..6d10aed 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -1040,9 +1040,10 @@ constexpr auto operator^(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> con
         out.append(lhs);
         out.nodes[out.count++] = detail::node{detail::op_se, rhs_checksum, rhs.count, zero};
         out.append(rhs);
-        out.q = lhs.q * rhs.q;
     }
 
+    out.q = lhs.q * rhs.q;
+
     // Loop through all ep factors to compute the bloom filter
     width_t i       = 1;
     detail::crc_t c = 0;
-- 
2.43.0


From cca02532f39ba16c5724a670a8412ed1154b63c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:50 +0000
Subject: [PATCH 07/42] fix: a product with an exactly zero operand is zero,
 not the other operand

---
 public/gal/expr.hpp | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 6d10aed..e9a4222 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -944,14 +944,9 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator*(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
-    {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(lhs);
+        // The product with an exact zero is exactly zero
         return out;
     }
 
@@ -1072,14 +1067,9 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator>>(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
-    {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(lhs);
+        // The product with an exact zero is exactly zero
         return out;
     }
 
@@ -1102,14 +1092,9 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator|(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
-    {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(lhs);
+        // The product with an exact zero is exactly zero
         return out;
     }
 
@@ -1146,14 +1131,9 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto scalar_product(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 2> out;
-    if (lhs.count == 0)
-    {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(lhs);
+        // The product with an exact zero is exactly zero
         return out;
     }
 
-- 
2.43.0


From 469230fd66e8e98845cb4f37ef1259b499fb4cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:06 +0000
Subject: [PATCH 08/42] fix: evaluate the constant E as Euler's number instead
 of pi

---
 public/gal/expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index e9a4222..c469987 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -369,7 +369,8 @@ namespace detail
         template <typename A>
         constexpr rpne<A, 1> convert() const noexcept
         {
-            return {{node{c_pi, c_pi}}, 1, q};
+            uint32_t c = c_const_start + static_cast<uint32_t>(id - ind_constant_start);
+            return {{node{c, c}}, 1, q};
         }
     };
 } // namespace detail
-- 
2.43.0


From 4e2bcfd800a74b1095539a04a604f001565ffaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:13 +0000
Subject: [PATCH 09/42] fix: keep the integer numerator when dividing by an
 expression

---
 public/gal/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index c469987..2772a2c 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -778,7 +778,7 @@ constexpr auto operator/(int lhs, detail::rpne<A, S> const& rhs)
     out.append(detail::rpne_from_constant<A>(lhs, 1));
     out.append(rhs);
     out.append(detail::op_div);
-    out.back().q = rhs.q.reciprocal();
+    out.back().q = rat{lhs, 1} / rhs.q;
     out.q        = one;
     return out;
 }
-- 
2.43.0


From 224deae26abebfddc70bfe731b4d3aa7fad7649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:20 +0000
Subject: [PATCH 10/42] fix: keep the sign when dividing by a negative integer

---
 public/gal/expr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 2772a2c..7bdd993 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -741,7 +741,7 @@ constexpr auto operator*(detail::rpne_constant c, int n) noexcept
 
 constexpr auto operator/(detail::rpne_constant c, int d) noexcept
 {
-    c.q *= rat{1, d};
+    c.q = c.q / d;
     return c;
 }
 
@@ -766,7 +766,7 @@ constexpr auto operator/(detail::rpne<A, S> lhs, int d)
 {
     if (lhs.count > 0)
     {
-        lhs.q *= rat{1, d};
+        lhs.q = lhs.q / d;
     }
     return lhs;
 }
-- 
2.43.0


From 56813b443a414e561d61656612b279fb14d874e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:04 +0000
Subject: [PATCH 11/42] fix: a zero literal is zero as a summand and as a
 result

---
 public/gal/engine.hpp | 2 +-
 public/gal/expr.hpp   | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index 1d4b46e..f732115 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -493,7 +493,7 @@ namespace detail
         // Evaluate temporaries which will be appended to the data array as value types
         detail::finalize_temps<A, V, temps>(data, std::integral_constant<size_t, 0>{});
 
-        if constexpr (decltype(processed.args)::size() == 0)
+        if constexpr (decltype(processed.args)::size() == 0 || scale_factor.is_zero())
         {
             return entity<A, V>{};
         }
diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 7bdd993..8c15da0 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -388,9 +388,11 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
     rpne<A, S1 + S2 + 3> out;
 
     // Early out if either the lhs or the rhs is exactly zero
-    if (lhs.count == 0 || rhs.count == 0)
+    bool lhs_zero = lhs.count == 0 || lhs.q.is_zero();
+    bool rhs_zero = rhs.count == 0 || rhs.q.is_zero();
+    if (lhs_zero || rhs_zero)
     {
-        if (lhs.count == 0)
+        if (lhs_zero)
         {
             out.append(rhs);
             out.q = rhs.q;
-- 
2.43.0


From b2df8fba99be17ee422b45cd24d8e0cbb069009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:11 +0000
Subject: [PATCH 12/42] fix: permit an exactly zero expression among multiple
 results

---
 public/gal/expr.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 8c15da0..8113a98 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -228,6 +228,14 @@ namespace detail
         template <width_t S1>
         constexpr void append_as_se(rpne<A, S1> const& src) noexcept
         {
+            if (src.count == 0 || src.q.is_zero())
+            {
+                // The subexpression is exactly zero
+                nodes[count++] = node{op_se, 0, 1, one};
+                nodes[count++] = node{c_zero, c_zero};
+                return;
+            }
+
             nodes[count++] = node{op_se, 0, src.count, src.q};
             for (width_t i = 0; i != src.count; ++i)
             {
-- 
2.43.0


From 05a187e5b53cd5458d8704e843d794065adc6cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:17 +0000
Subject: [PATCH 13/42] fix: do not read past the start of an exactly zero
 expression

---
 public/gal/expr.hpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 8113a98..7d1fd42 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -143,6 +143,11 @@ namespace detail
         constexpr auto operator[](elem_t e) noexcept
         {
             rpne<A, S + 1> out;
+            if (count == 0)
+            {
+                return out;
+            }
+
             out.append(*this);
             // Using operator[] successfully is not expected behavior, so we don't bother computing
             // the checksum in a fancy manner.
@@ -154,6 +159,11 @@ namespace detail
         constexpr auto select_grade(elem_t g) noexcept
         {
             rpne<A, S + 1> out;
+            if (count == 0)
+            {
+                return out;
+            }
+
             out.append(*this);
             out.nodes[out.count++] = node{op_grd, back().checksum + ~g, g};
             out.q                  = q;
@@ -797,6 +807,11 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator/(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
+    if (lhs.count == 0)
+    {
+        return out;
+    }
+
     out.append(lhs);
     out.append(rhs);
     out.append(detail::op_div);
@@ -883,6 +898,11 @@ template <typename A, width_t S>
 constexpr auto sqrt(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0)
+    {
+        return out;
+    }
+
     out.append(in);
     out.append(detail::op_sqrt);
     out.back().q = in.q;
@@ -894,6 +914,11 @@ template <typename A, width_t S>
 constexpr auto sin(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0)
+    {
+        return out;
+    }
+
     out.append(in);
     out.append(detail::op_sin);
     out.back().q = in.q;
@@ -905,6 +930,12 @@ template <typename A, width_t S>
 constexpr auto cos(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0)
+    {
+        out.append(detail::rpne_from_constant<A>(1, 1));
+        return out;
+    }
+
     out.append(in);
     out.append(detail::op_cos);
     out.back().q = in.q;
@@ -916,6 +947,11 @@ template <typename A, width_t S>
 constexpr auto tan(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0)
+    {
+        return out;
+    }
+
     out.append(in);
     out.append(detail::op_tan);
     out.back().q = in.q;
-- 
2.43.0


From 623843bd6bf073bb2dfde2420e7100a4c32cb568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:23 +0000
Subject: [PATCH 14/42] fix: the sign of an inner product must not depend on
 operand checksums

---
 public/gal/expr.hpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 7d1fd42..4d6d00b 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -1152,19 +1152,13 @@ constexpr auto operator|(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> con
     }
 
     out.q = q;
-    if (lhs.back().checksum < rhs.back().checksum)
-    {
-        out.append(lhs);
-        out.append(rhs);
-    }
-    else
-    {
-        out.append(rhs);
-        out.append(lhs);
-    }
+    // NOTE: the operands may not be reordered. The inner product of operands of different grade can
+    // change sign under a swap.
+    out.append(lhs);
+    out.append(rhs);
     out.append(detail::op_sip);
     out.nodes[out.count - 1].checksum
-        = detail::crc32(lhs.back().checksum + rhs.back().checksum + (detail::op_sip << 8));
+        = detail::crc32(lhs.back().checksum + ~rhs.back().checksum + (detail::op_sip << 8));
     return out;
 }
 
-- 
2.43.0


From 71d026c910c9803c745403305f694846dba29ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:28 +0000
Subject: [PATCH 15/42] fix: include the product of the scalar parts in the
 scalar product

---
 public/gal/expr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 4d6d00b..b3ba902 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -1196,11 +1196,11 @@ constexpr auto scalar_product(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2
         out.append(lhs);
     }
 
-    // Implement the scalar product as the scalar component of the symmetric inner product
+    // Implement the scalar product as the scalar component of the geometric product
 
-    out.append(detail::op_sip);
+    out.append(detail::op_gp);
     out.nodes[out.count - 1].checksum
-        = detail::crc32(lhs.back().checksum + rhs.back().checksum + (detail::op_sip << 8));
+        = detail::crc32(lhs.back().checksum + rhs.back().checksum + (detail::op_gp << 8));
 
     out.append(detail::op_comp);
     out.nodes[out.count - 1].ex       = 0;
-- 
2.43.0


From 7f6a84209c8a1a6807a7886504a8a291b8ae1738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:54 +0000
Subject: [PATCH 16/42] fix: stack pop returns the popped element

---
 public/gal/expr.hpp  | 2 +-
 public/gal/stack.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index b3ba902..43cb01c 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -192,7 +192,7 @@ namespace detail
 
         constexpr node pop() noexcept
         {
-            return nodes[count--];
+            return nodes[--count];
         }
 
         constexpr void pop(width_t n) noexcept
diff --git a/public/gal/stack.hpp b/public/gal/stack.hpp
index 6403d1c..72da829 100644
--- a/public/gal/stack.hpp
+++ b/public/gal/stack.hpp
@@ -41,7 +41,7 @@ namespace detail
 
         constexpr T pop() noexcept
         {
-            return data[count--];
+            return data[--count];
         }
 
         constexpr T pop(size_t n) noexcept
-- 
2.43.0


From aed6b6f7361298b4a1960275435895da2a8f10a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:02 +0000
Subject: [PATCH 17/42] fix: cancel and merge the divisor with indeterminates
 of the dividend

---
 public/gal/algebra.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index 9ef4bf6..5d296bf 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -1012,7 +1012,6 @@ namespace detail
                 for (auto mon_it = it.cbegin(); mon_it != it.cend(); ++mon_it)
                 {
                     width_t ind_offset = out_inds_it - out.inds.begin();
-                    bool canceled      = false;
                     bool written       = false;
                     for (auto ind_it = mon_it.cbegin(); ind_it != mon_it.cend(); ++ind_it)
                     {
@@ -1022,10 +1021,6 @@ namespace detail
                             {
                                 rat deg = d.degree + ind_it->degree;
                                 if (!deg.is_zero())
-                                {
-                                    canceled = true;
-                                }
-                                else
                                 {
                                     *out_inds_it++ = ind{d.id, deg};
                                 }
@@ -1053,8 +1048,9 @@ namespace detail
                         *out_inds_it++ = d;
                     }
 
-                    rat deg        = mon_it->degree - d.degree;
-                    width_t count  = canceled ? mon_it->count - 1 : mon_it->count + 1;
+                    // NOTE: the degree of d was already negated above
+                    rat deg        = mon_it->degree + d.degree;
+                    width_t count  = static_cast<width_t>(out_inds_it - out.inds.begin()) - ind_offset;
                     *out_mons_it++ = mon{mon_it->q / m.q, deg, count, ind_offset};
                 }
 
-- 
2.43.0


From 87e0f0bd52a622c3ee9cba31f5154e151aa41858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:08 +0000
Subject: [PATCH 18/42] fix: the zeroth power is one

---
 public/gal/numeric.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index 525f700..3e05bb0 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -23,6 +23,10 @@ pow(T s, std::integral_constant<int, N>, std::integral_constant<int, D>) noexcep
     {
         return std::pow(s, T{N} / T{D});
     }
+    else if constexpr (N == 0)
+    {
+        return T{1};
+    }
     else if constexpr (N == 1)
     {
         return s;
-- 
2.43.0


From c47046d47d8e81213e1db2f743fdab050795a092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:16 +0000
Subject: [PATCH 19/42] fix: grade selection keeps every component of the grade

---
 public/gal/algebra.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index 5d296bf..3caba4e 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -576,12 +576,9 @@ struct mv
 
         for (auto it = cbegin(); it != cend(); ++it)
         {
+            // NOTE: terms are sorted by element (not by grade)
             auto g = pop_count(it->element);
-            if (g > grade)
-            {
-                break;
-            }
-            else if (g < grade)
+            if (g != grade)
             {
                 continue;
             }
-- 
2.43.0


From 5aee5062fc122d6bd0c6c800e8560e1f054bd9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:37 +0000
Subject: [PATCH 20/42] fix: apply transcendentals to the value of a term, not
 to each monomial

---
 public/gal/engine.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index f732115..5897df0 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -121,7 +121,7 @@ namespace detail
             }
             else if constexpr (sizeof...(I) == 0)
             {
-                return apply_mv_op<F, ie.o>(static_cast<F>(m.q));
+                return static_cast<F>(m.q);
             }
             else
             {
@@ -129,7 +129,7 @@ namespace detail
                 {
                     if constexpr (abs(m.q.num) > 1 || m.q.num == -1)
                     {
-                        return apply_mv_op<F, ie.o>(
+                        return (
                             static_cast<F>(m.q)
                             * (::gal::pow(
                                    data_value(data.data(), ie.inds[m.ind_offset + I].id),
@@ -139,7 +139,7 @@ namespace detail
                     }
                     else
                     {
-                        return apply_mv_op<F, ie.o>(
+                        return (
                             (::gal::pow(
                                  data_value(data.data(), ie.inds[m.ind_offset + I].id),
                                  std::integral_constant<int, ie.inds[m.ind_offset + I].degree.num>{},
@@ -150,7 +150,7 @@ namespace detail
                 }
                 else if constexpr (abs(m.q.num) > 1 || m.q.num == -1)
                 {
-                    return apply_mv_op<F, ie.o>(
+                    return (
                         static_cast<F>(m.q.num)
                         * (::gal::pow(
                                data_value(data.data(), ie.inds[m.ind_offset + I].id),
@@ -160,7 +160,7 @@ namespace detail
                 }
                 else
                 {
-                    return apply_mv_op<F, ie.o>(
+                    return (
                         (::gal::pow(
                              data_value(data.data(), ie.inds[m.ind_offset + I].id),
                              std::integral_constant<int, ie.inds[m.ind_offset + I].degree.num>{},
@@ -181,9 +181,9 @@ namespace detail
         template <size_t N>
         GAL_FORCE_INLINE constexpr static F value(std::array<ind_value<F>, N> const& data) noexcept
         {
-            return (
+            return apply_mv_op<F, ie.o>((
                 cmon<F, ie, Offset + I, std::make_index_sequence<ie.mons[Offset + I].count>>::value(data)
-                + ...);
+                + ...));
         }
     };
 
-- 
2.43.0


From d23f520fa64efe0f128bda239883d431db7c3a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:09 +0000
Subject: [PATCH 21/42] fix: evaluate temporaries in the basis in which they
 are referenced

---
 public/gal/engine.hpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index 5897df0..66a98f6 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -265,16 +265,9 @@ namespace detail
             constexpr static auto ie = temps.template get<I>().ie;
             constexpr static auto o  = temps.template get<I>().o;
             constexpr static auto id = temps.template get<I>().id;
-            if constexpr (detail::uses_null_basis<A>)
-            {
-                constexpr static auto null_conversion = detail::to_null_basis(ie);
-                compute_temp<null_conversion, o, V, A>(
-                    data, std::make_index_sequence<null_conversion.size.term>{}, id);
-            }
-            else
-            {
-                compute_temp<ie, o, V, A>(data, std::make_index_sequence<ie.size.term>(), id);
-            }
+            // NOTE: temporaries are referenced by other expressions prior to any change of basis so
+            // they must not be converted here
+            compute_temp<ie, o, V, A>(data, std::make_index_sequence<ie.size.term>(), id);
 
             if constexpr (I + 1 != std::decay_t<decltype(temps)>::size())
             {
-- 
2.43.0


From 97ca7b6246baf88d2a2113bb6884fb1d0b77d1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:16 +0000
Subject: [PATCH 22/42] fix: shrink inputs after the change of basis so
 references to them stay in bounds

---
 public/gal/dfa.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index d5abb9e..fff1a69 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -616,14 +616,16 @@ namespace detail
         {
             if constexpr (n.o == op_id)
             {
-                auto pop = State.inputs.pop();
+                constexpr auto pop = State.inputs.pop();
 
                 if constexpr (uses_null_basis<algebra_t>)
                 {
+                    constexpr auto in = to_natural_basis(pop.first);
                     return rpn_state{
                         pop.second,
                         State.temps,
-                        State.args.push(make_pair(n.checksum, to_natural_basis(pop.first))),
+                        State.args.push(make_pair(
+                            n.checksum, in.template resize<in.size.ind, in.size.mon, in.size.term>())),
                         State.id_count};
                 }
                 else
-- 
2.43.0


From ff5b2b3df95e773c73256ea3e756bd9c71b76f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:23 +0000
Subject: [PATCH 23/42] fix: null basis literals refer to the null basis

---
 public/gal/dfa.hpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index fff1a69..6924ba2 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -836,13 +836,26 @@ namespace detail
             }
             else
             {
-                auto g = n.o - c_scalar;
-                mv<algebra_t, 0, 1, 1> c{
+                constexpr uint32_t g = n.o - c_scalar;
+                constexpr mv<algebra_t, 0, 1, 1> c{
                     mv_size{0, 1, 1}, {}, {mon{one, zero, 0, 0}}, {term{1, 0, g}}};
-                return rpn_state{State.inputs,
-                                 State.temps,
-                                 State.args.push(make_pair(n.checksum, c)),
-                                 State.id_count};
+                if constexpr (uses_null_basis<algebra_t>)
+                {
+                    constexpr auto nc = to_natural_basis(c);
+                    return rpn_state{
+                        State.inputs,
+                        State.temps,
+                        State.args.push(make_pair(
+                            n.checksum, nc.template resize<nc.size.ind, nc.size.mon, nc.size.term>())),
+                        State.id_count};
+                }
+                else
+                {
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     State.args.push(make_pair(n.checksum, c)),
+                                     State.id_count};
+                }
             }
         }
 
-- 
2.43.0


From 53483b900d09fb0c5efbff98c6fc0e58ee39ff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:29 +0000
Subject: [PATCH 24/42] fix: component selection refers to the null basis when
 one is used

---
 public/gal/dfa.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 6924ba2..70e0f5e 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -795,7 +795,16 @@ namespace detail
             else if constexpr (n.o == op_comp)
             {
                 constexpr auto pop  = State.args.pop();
-                constexpr auto comp = pop.first.second[n.ex];
+                constexpr auto comp = [&pop]() {
+                    if constexpr (uses_null_basis<algebra_t>)
+                    {
+                        return to_null_basis(pop.first.second)[n.ex];
+                    }
+                    else
+                    {
+                        return pop.first.second[n.ex];
+                    }
+                }();
                 return rpn_state{
                     State.inputs,
                     State.temps,
-- 
2.43.0


From 7bf3559bf3324b18a381d277b03f7311bb349fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:17 +0000
Subject: [PATCH 25/42] fix: permit floating point inputs in any position

---
 public/gal/engine.hpp | 14 +++++++++++++-
 public/gal/expr.hpp   |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index 66a98f6..c83a731 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -335,10 +335,22 @@ namespace detail
     struct infer_field
     {};
 
+    template <typename D, typename = void>
+    struct field_of
+    {
+        using value_t = typename D::value_t;
+    };
+
+    template <typename D>
+    struct field_of<D, std::enable_if_t<std::is_floating_point_v<D>>>
+    {
+        using value_t = D;
+    };
+
     template <typename D, typename... Ds>
     struct infer_field<D, Ds...>
     {
-        using value_t = typename D::value_t;
+        using value_t = typename field_of<D>::value_t;
     };
 
     template <>
diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 43cb01c..dcf6d96 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -301,7 +301,7 @@ namespace detail
 
         if constexpr (sizeof...(Ds) > 0)
         {
-            if (std::is_floating_point_v<D>)
+            if constexpr (std::is_floating_point_v<D>)
             {
                 return rpne_entities<A, S, Ds...>(out, current_id + 1, i + 1);
             }
-- 
2.43.0


From dee129fb278ba809b14ce2bb2fdf6dbc6951d302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:23 +0000
Subject: [PATCH 26/42] fix: compare rationals by their own greatest common
 divisor

---
 public/gal/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index 3e05bb0..09e740d 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -378,7 +378,7 @@ namespace detail
 [[nodiscard]] constexpr bool operator==(rat lhs, rat rhs) noexcept
 {
     auto gcd1 = std::gcd(lhs.num, lhs.den);
-    auto gcd2 = std::gcd(rhs.den, rhs.den);
+    auto gcd2 = std::gcd(rhs.num, rhs.den);
     return lhs.num / gcd1 == rhs.num / gcd2 && lhs.den / gcd1 == rhs.den / gcd2;
 }
 
-- 
2.43.0


From 6adb61b01dc27748a3b802a8532dadec4da59abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:28 +0000
Subject: [PATCH 27/42] fix: pga rotor and translator refer to all of their
 coordinates

---
 public/gal/pga.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index fd96af8..8748888 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -175,9 +175,9 @@ namespace pga
                      ind{id + 1, one}, // x * sin(t/2)
                      ind{id + 2, one}},
                     {mon{one, one, 1, 0},
-                     mon{one, one, 1, 1},
-                     mon{minus_one, rat{2}, 2, 2},
-                     mon{one, rat{2}, 2, 3}},
+                     mon{one, rat{2}, 2, 1},
+                     mon{minus_one, rat{2}, 2, 3},
+                     mon{one, rat{2}, 2, 5}},
                     {term{1, 0, 0b0}, term{1, 1, 0b110}, term{1, 2, 0b1010}, term{1, 3, 0b1100}}};
         }
 
@@ -236,14 +236,14 @@ namespace pga
                     {ind{id, one}, // d * l_x
                      ind{id + 1, one},
                      ind{id, one}, // d * l_y
-                     ind{id + 1, one},
+                     ind{id + 2, one},
                      ind{id, one}, // d * l_z
-                     ind{id + 2, one}},
+                     ind{id + 3, one}},
                     {
                         mon{one, zero, 0, 0},              // 1
-                        mon{minus_one_half, rat{2}, 2, 1}, // -1/2 * l_x
+                        mon{minus_one_half, rat{2}, 2, 0}, // -1/2 * l_x
                         mon{minus_one_half, rat{2}, 2, 2}, // -1/2 * l_y
-                        mon{minus_one_half, rat{2}, 2, 3}  // -1/2 * l_z
+                        mon{minus_one_half, rat{2}, 2, 4}  // -1/2 * l_z
                     },
                     {term{1, 0, 0b0}, term{1, 1, 0b11}, term{1, 2, 0b101}, term{1, 3, 0b1001}}};
         }
-- 
2.43.0


From 8df32ad414210964296fd168ce9736acb0f0680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:34 +0000
Subject: [PATCH 28/42] fix: size of a pga vector matches its three components

---
 public/gal/pga.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index 8748888..bfd5d9f 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -403,7 +403,7 @@ namespace pga
         // Like planes, points are represented dually as the intersection of three planes
         GAL_NODISCARD constexpr static mv<algebra_t, 3, 3, 3> ie(uint32_t id) noexcept
         {
-            return {mv_size{3, 4, 4},
+            return {mv_size{3, 3, 3},
                     {
                         ind{id + 2, one}, // -z
                         ind{id + 1, one}, // y
-- 
2.43.0


From 0a7a892fb197281b6bc61af148c359fb040ebf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:35 +0000
Subject: [PATCH 29/42] fix: pga2 points carry their coordinates and lie on the
 lines through them

---
 public/gal/pga2.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/public/gal/pga2.hpp b/public/gal/pga2.hpp
index bdaada1..1dd2b27 100644
--- a/public/gal/pga2.hpp
+++ b/public/gal/pga2.hpp
@@ -148,15 +148,15 @@ namespace pga2
         {
             return {mv_size{2, 3, 3},
                     {
-                        ind{id + 1, 1}, // -y
-                        ind{id, 1}      // x
+                        ind{id + 1, one}, // y
+                        ind{id, one}      // -x
                     },
-                    {mon{minus_one, one, 0, 1}, // -y
-                     mon{one, one, 1, 1},       // x
+                    {mon{one, one, 1, 0},       // y
+                     mon{minus_one, one, 1, 1}, // -x
                      mon{one, zero, 0, 0}},     // point at origin
                     {
-                        term{1, 0, 0b11},  // -y * e01
-                        term{1, 1, 0b101}, // x * e02
+                        term{1, 0, 0b11},  // y * e01
+                        term{1, 1, 0b101}, // -x * e02
                         term{1, 2, 0b110}  // e12
                     }};
         }
@@ -177,8 +177,8 @@ namespace pga2
             , y{in.template select<0b11>()}
         {
             auto w_inv = T{1} / in.template select<0b110>();
-            x          = w_inv;
-            y          = -w_inv;
+            x *= -w_inv;
+            y *= w_inv;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
-- 
2.43.0


From 94b4c65c41b51058e4fe8efa5d11ca00da97618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:40 +0000
Subject: [PATCH 30/42] fix: permit indexing a mutable exactly zero entity

---
 public/gal/entity.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/public/gal/entity.hpp b/public/gal/entity.hpp
index f8a6015..b950092 100644
--- a/public/gal/entity.hpp
+++ b/public/gal/entity.hpp
@@ -182,11 +182,6 @@ struct entity<A, T>
     {
         return {0};
     }
-
-    GAL_NODISCARD constexpr T& operator[](size_t index) noexcept
-    {
-        return {0};
-    }
 };
 
 template <typename A, typename T>
-- 
2.43.0


From 7a959e3595558cd4d947f36dc528d5eeb0df3010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:15 +0000
Subject: [PATCH 31/42] fix: nudging a rational keeps the documented error
 bound for odd numerators

---
 public/gal/numeric.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index 09e740d..f023465 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -324,8 +324,11 @@ namespace detail
             {
                 double n_d     = static_cast<double>(in.num);
                 double d_d     = static_cast<double>(in.den);
-                double epsilon = abs(n_d / d_d / d_d);
                 double frac    = n_d / d_d;
+                bool odd       = in.num % 2 != 0;
+                // An odd numerator moves by a full unit which costs more than perturbing the
+                // denominator alone
+                double epsilon = odd ? (1.0 + abs(frac)) / d_d : abs(n_d / d_d / d_d);
 
                 if (abs(frac) < 1e-7)
                 {
@@ -335,7 +338,7 @@ namespace detail
                 {
                     // The rational is the mediant of two fractions with smaller denominators. Pick
                     // one of them based on the parity.
-                    if (in.num % 2 == 1)
+                    if (odd)
                     {
                         // Perturb to the left-side of the mediant
                         auto n2  = (in.num - 1) / 2;
-- 
2.43.0


From 3e8cf837135472d8fde9bc9809b1ec7c6905dc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:50 +0000
Subject: [PATCH 32/42] fix: the cosine of an identically zero component is one

---
 public/gal/dfa.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 70e0f5e..4999729 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -780,10 +780,23 @@ namespace detail
             }
             else if constexpr (n.o == op_cos)
             {
-                auto args                    = State.args;
-                args.template get<0>().first = n.checksum;
-                args.template get<0>().second.cos(n.q);
-                return rpn_state{State.inputs, State.temps, args, State.id_count};
+                if constexpr (State.args.template get<0>().second.size.term == 0)
+                {
+                    // cos(0) = 1
+                    mv<algebra_t, 0, 1, 1> c{
+                        mv_size{0, 1, 1}, {}, {mon{one, zero, 0, 0}}, {term{1, 0, 0}}};
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     State.args.pop().second.push(make_pair(n.checksum, c)),
+                                     State.id_count};
+                }
+                else
+                {
+                    auto args                    = State.args;
+                    args.template get<0>().first = n.checksum;
+                    args.template get<0>().second.cos(n.q);
+                    return rpn_state{State.inputs, State.temps, args, State.id_count};
+                }
             }
             else if constexpr (n.o == op_tan)
             {
-- 
2.43.0


From 68518e904df7e5e492c4d7ea1c647d49a4042d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:55 +0000
Subject: [PATCH 33/42] fix: a generic bivector only spans elements of grade
 two

---
 public/gal/geometric_algebra.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/public/gal/geometric_algebra.hpp b/public/gal/geometric_algebra.hpp
index 6f9534b..0ac1484 100644
--- a/public/gal/geometric_algebra.hpp
+++ b/public/gal/geometric_algebra.hpp
@@ -126,7 +126,10 @@ struct algebra
             out.inds[i]  = ind{id++, one};
             out.mons[i]  = mon{one, one, 1, i};
             out.terms[i] = term{1, i, e};
-            e            = next_even(e);
+            do
+            {
+                e = next_even(e);
+            } while (pop_count(e) != 2);
         }
         return out;
     }
-- 
2.43.0


From ada8860199e3d6b0608229a476ebcb0c47d4b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:28 +0000
Subject: [PATCH 34/42] fix: lengths of individual results after subexpression
 extraction

An expression with several results failed to compile whenever a
subexpression was extracted from one of them, since only the lengths of
summands and factors were adjusted.
---
 public/gal/dfa.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 4999729..5e9b873 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -581,6 +581,15 @@ namespace detail
             }
         }
 
+        // Subexpressions that remain on the stack are the individual results of an expression which
+        // produces several of them. Their lengths may have shortened as well.
+        for (width_t k = 0; k != se_stack.count; ++k)
+        {
+            auto [se, offset] = se_stack[k];
+            width_t end       = k + 1 == se_stack.count ? out.count : se_stack[k + 1].second - 1;
+            se->ex            = end - offset;
+        }
+
         out.q = expr.q;
         return out;
     }
-- 
2.43.0


From 1e1ebfed03396a0527d1329a6c9534be39985a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:44 +0000
Subject: [PATCH 35/42] fix: extract a divisor that merely begins with an
 extracted subexpression

Division requires its divisor to be a single extracted value. The divisor
was left in place when its first node was a reference to a common
subexpression or had a checksum that happened to equal the position of the
division, e.g. 1/(x+y) for certain inputs, and failed to compile.
---
 public/gal/dfa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 5e9b873..8491db7 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -307,7 +307,7 @@ namespace detail
                     {
                         known.ses[known.count - 1].required = true;
                     }
-                    else if (last_offset < i - 2 && prev.o != op_cse && prev.checksum != i)
+                    else if (last_offset < i - 2 && !(prev.o == op_cse && prev.checksum == i))
                     {
                         known.ses[known.count - 1].required = true;
                     }
-- 
2.43.0


From 8bc879c677b1ee5dc2d9ec1a2b20ee98b4983493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:13 +0000
Subject: [PATCH 36/42] fix: division by and functions of the component of an
 input

Dividing by an input component that isn't a single value (e.g. of a rotor or
a conformal point), and passing nested component reads of an input to a
division or transcendental function failed to compile.
---
 public/gal/dfa.hpp | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 8491db7..2e10b15 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -232,6 +232,26 @@ namespace detail
         return 0;
     }
 
+    // Determine if the nodes in the range [first, last) do no more than read the components or grades
+    // of an input or constant (in which case no subexpression was registered for the range).
+    template <typename A, width_t C>
+    constexpr bool is_leaf_read(rpne<A, C> const& exp, width_t first, width_t last) noexcept
+    {
+        if (exp.nodes[first].o == op_cse || exp.nodes[first].o == op_se)
+        {
+            return false;
+        }
+
+        for (width_t i = first + 1; i != last; ++i)
+        {
+            if (!is_read_op(exp.nodes[i].o))
+            {
+                return false;
+            }
+        }
+        return true;
+    }
+
     template <typename A, width_t C>
     constexpr static auto rpn_reshape(rpne<A, C> expr) noexcept
     {
@@ -303,7 +323,24 @@ namespace detail
                 {
                     width_t last_offset = offsets.peek();
                     node const& prev    = expr.nodes[last_offset];
-                    if (last_offset == i - 2 && !is_read_op(expr.nodes[i - 1].o))
+                    if (last_offset < i - 1 && is_leaf_read(expr, last_offset, i))
+                    {
+                        // The component of an input can be any polynomial
+                        width_t se_i = register_se(expr,
+                                                   known,
+                                                   expr.nodes[i - 1].checksum,
+                                                   last_offset,
+                                                   i - last_offset,
+                                                   true);
+                        if (se_i > 0)
+                        {
+                            node& ref    = expr.nodes[last_offset];
+                            ref.o        = op_cse;
+                            ref.checksum = i;
+                            ref.ex       = se_i - 1;
+                        }
+                    }
+                    else if (last_offset == i - 2 && !is_read_op(expr.nodes[i - 1].o))
                     {
                         known.ses[known.count - 1].required = true;
                     }
@@ -346,7 +383,8 @@ namespace detail
                     {
                         known.ses[known.count - 1].required = true;
                     }
-                    else if (offset < i - 2 && !(prev.o == op_cse && prev.checksum == i))
+                    else if (offset < i - 2 && !is_leaf_read(expr, offset, i)
+                             && !(prev.o == op_cse && prev.checksum == i))
                     {
                         known.ses[known.count - 1].required = true;
                     }
-- 
2.43.0


From 795d1fbc472ac4efba57b5951dc34539dda1d621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:04 +0000
Subject: [PATCH 37/42] fix: splitting a tuple at the front or around a dropped
 element lost elements

---
 public/gal/tuple.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/gal/tuple.hpp b/public/gal/tuple.hpp
index 5a05971..35a9c13 100644
--- a/public/gal/tuple.hpp
+++ b/public/gal/tuple.hpp
@@ -128,8 +128,8 @@ struct tuple : public tuple_impl<std::make_index_sequence<sizeof...(T)>, T...>
     template <size_t I>
     constexpr auto split_drop() const
     {
-        return split_n(
-            std::make_index_sequence<I>{}, std::make_index_sequence<sizeof...(T) - I - 1>{});
+        auto parts = split<I>();
+        return make_pair(parts.first, parts.second.pop().second);
     }
 
     // This is a somewhat specialized operation that splits the tuple on the first occurence of the
@@ -206,7 +206,7 @@ private:
     {
         if constexpr (sizeof...(I1) == 0)
         {
-            if constexpr (sizeof...(I1) == 0)
+            if constexpr (sizeof...(I2) == 0)
             {
                 return make_pair(tuple<>{}, tuple<>{});
             }
-- 
2.43.0


From 5f3ac4eb5cd9b384f9081bac256808bc14930395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:10 +0000
Subject: [PATCH 38/42] fix: reciprocal of a negative rational had a negative
 denominator

---
 public/gal/numeric.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index f023465..a924152 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -189,7 +189,8 @@ struct rat
 
     [[nodiscard]] constexpr rat reciprocal() const noexcept
     {
-        return {den, num};
+        // The sign is carried by the numerator
+        return num < 0 ? rat{-den, -num} : rat{den, num};
     }
 
     [[nodiscard]] constexpr rat negation() const noexcept
-- 
2.43.0


From 3076d3e5ad2099c24f35097775678f741e159dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:18 +0000
Subject: [PATCH 39/42] fix: unreduced rationals compared both equal and
 unequal

---
 public/gal/numeric.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index a924152..a15ea40 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -388,12 +388,12 @@ namespace detail
 
 [[nodiscard]] constexpr bool operator!=(rat lhs, int rhs) noexcept
 {
-    return lhs.den != 1 || lhs.num != rhs;
+    return lhs.num != rhs * lhs.den;
 }
 
 [[nodiscard]] constexpr bool operator!=(rat lhs, rat rhs) noexcept
 {
-    return lhs.num != rhs.num || lhs.den != rhs.den;
+    return !(lhs == rhs);
 }
 
 [[nodiscard]] constexpr bool operator<(rat lhs, rat rhs) noexcept
-- 
2.43.0


From 7b5b1b426a0b9eb49e05c4576901016cb104cf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:31 +0000
Subject: [PATCH 40/42] fix: logarithm of a motor turning by a half-turn was
 wrong

---
 public/gal/pga.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index bfd5d9f..6fab315 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -558,7 +558,8 @@ namespace pga
         entity<pga_algebra, T, 0, 0b1111> inv_norm{T{1} / s2, p2 / l2.template select<0>()};
 
         bool s1_zero = std::abs(s1) < T{1e-6};
-        scalar<pga_algebra, T> u{s1_zero ? ::std::atan2(-p1, p2) : ::std::atan2(s2, s1)};
+        // s2 = sin(u) doesn't vanish so the angle is well defined even if s1 = cos(u) does
+        scalar<pga_algebra, T> u{::std::atan2(s2, s1)};
         scalar<pga_algebra, T> v{s1_zero ? -p1 / s2 : p2 / s1};
 
         return compute(
-- 
2.43.0


From e56d78cfd48002eae6c066b8a029319d5a5f9071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:00 +0000
Subject: [PATCH 41/42] =?UTF-8?q?fix:=20the=20moment=20of=20a=20pga=20line?=
 =?UTF-8?q?=20was=20not=20its=20Pl=C3=BCcker=20moment?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 public/gal/pga.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index 6fab315..8b42054 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -487,7 +487,7 @@ namespace pga
                     },
                     {
                         mon{minus_one, one, 1, 0}, // mx
-                        mon{one, one, 1, 1},       // my
+                        mon{minus_one, one, 1, 1}, // my
                         mon{minus_one, one, 1, 2}, // dz
                         mon{minus_one, one, 1, 3}, // mz
                         mon{one, one, 1, 4},       // dy
@@ -522,6 +522,7 @@ namespace pga
             : data{in.template select<0b1100, 0b1010, 0b110, 0b11, 0b101, 0b1001>()}
         {
             mx = -mx;
+            my = -my;
             mz = -mz;
             dx = -dx;
             dz = -dz;
-- 
2.43.0


From 1a241c68c7b1ec20b513d22e159e4f904173d083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:12 +0000
Subject: [PATCH 42/42] fix: selecting several elements of the zero entity
 returned one scalar instead of one zero per element

---
 public/gal/entity.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/public/gal/entity.hpp b/public/gal/entity.hpp
index b950092..9823a03 100644
--- a/public/gal/entity.hpp
+++ b/public/gal/entity.hpp
@@ -148,9 +148,16 @@ struct entity<A, T>
     }
 
     template <elem_t... S>
-    GAL_NODISCARD constexpr T select() const noexcept
+    GAL_NODISCARD constexpr auto select() const noexcept
     {
-        return {0};
+        if constexpr (sizeof...(S) == 1)
+        {
+            return T{0};
+        }
+        else
+        {
+            return std::array<T, sizeof...(S)>{};
+        }
     }
 
     GAL_NODISCARD constexpr T select(elem_t e) const noexcept
-- 
2.43.0

