From 132e4409525e3fedc9cd8e94872d2ce0219a618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 01/50] fix: export Fr_R2 from the x86-64 assembly, as fr.hpp
 declares it

---
 src/fr.asm.ejs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fr.asm.ejs b/src/fr.asm.ejs
index 03daca0..62225ec 100644
--- a/src/fr.asm.ejs
+++ b/src/fr.asm.ejs
@@ -28,6 +28,7 @@
         global <%=name%>_toInt
         global <%=name%>_isTrue
         global <%=name%>_q
+        global <%=name%>_R2
         global <%=name%>_R3
 
         global <%=name%>_rawCopy
@@ -70,6 +71,9 @@
 <%=name%>_rawq:
 q       dq      <%= constantElement(q) %>
 half    dq      <%= constantElement(q.shiftRight(1)) %>
+<%=name%>_R2:
+        dd      0
+        dd      0x80000000
 R2      dq      <%= constantElement(bigInt.one.shiftLeft(n64*64*2).mod(q)) %>
 <%=name%>_R3:
         dd      0
-- 
2.43.0


From 910eaf5652f1373e6c2535d8aba15e8cb5c5d7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 02/50] fix: portable backend tags an in-place result before
 converting its operand

---
 src/fr_generic.cpp.ejs | 132 ++++++++++++++++++++---------------------
 1 file changed, 66 insertions(+), 66 deletions(-)

diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index 2cd5a6d..51133b5 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -370,12 +370,12 @@ static inline void sub_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void sub_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element a_m;
     <%=name%>_toMontgomery(&a_m, a);
 
     <%=name%>_rawSub(r->longVal, a_m.longVal, b->longVal);
+
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void sub_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -387,12 +387,12 @@ static inline void sub_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void sub_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element b_m;
     <%=name%>_toMontgomery(&b_m, b);
 
     <%=name%>_rawSub(r->longVal, a->longVal, b_m.longVal);
+
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void sub_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -412,22 +412,22 @@ static inline void sub_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
 
 static inline void sub_l1ms2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element b_m;
     <%=name%>_toMontgomery(&b_m, b);
 
     <%=name%>_rawSub(r->longVal, a->longVal, b_m.longVal);
+
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void sub_s1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element a_m;
     <%=name%>_toMontgomery(&a_m, a);
 
     <%=name%>_rawSub(r->longVal, a_m.longVal, b->longVal);
+
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void sub_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -560,12 +560,12 @@ static inline void add_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void add_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element a_m;
     <%=name%>_toMontgomery(&a_m, a);
 
     <%=name%>_rawAdd(r->longVal, a_m.longVal, b->longVal);
+
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void add_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -576,12 +576,12 @@ static inline void add_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void add_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element b_m;
     <%=name%>_toMontgomery(&b_m, b);
 
     <%=name%>_rawAdd(r->longVal, a->longVal, b_m.longVal);
+
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void add_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -603,21 +603,21 @@ static inline void add_l1ms2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 {
     <%=name%>Element b_m;
 
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>_toMontgomery(&b_m, b);
 
     <%=name%>_rawAdd(r->longVal, a->longVal, b_m.longVal);
+
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void add_s1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element m_a;
     <%=name%>_toMontgomery(&m_a, a);
 
     <%=name%>_rawAdd(r->longVal, m_a.longVal, b->longVal);
+
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void add_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -1441,8 +1441,6 @@ static inline void and_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
         return;
     }
 
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -1450,6 +1448,8 @@ static inline void and_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
     <%=name%>_toLongNormal(&b_n, b);
 
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b_n.longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -1460,18 +1460,16 @@ static inline void and_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void and_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
     <%=name%>_toNormal(&b_n, b);
 
     <%=name%>_rawAnd(r->longVal, a->longVal, b_n.longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -1479,22 +1477,22 @@ static inline void and_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name
     <%=name%>_toNormal(&b_n, b);
 
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b_n.longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>_toNormal(&a_n, a);
 
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b->longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
 
     if (a->shortVal >= 0)
@@ -1507,12 +1505,12 @@ static inline void and_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b->longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -1528,12 +1526,12 @@ static inline void and_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawAnd(r->longVal, b_n.longVal, a_n.longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -1549,12 +1547,12 @@ static inline void and_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b_n.longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
 
     if (b->shortVal >= 0)
@@ -1567,6 +1565,8 @@ static inline void and_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawAnd(r->longVal, a->longVal, b_n.longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 // Ands two elements of any kind
@@ -1992,8 +1992,6 @@ static inline void or_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>E
         return;
     }
 
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2001,12 +1999,12 @@ static inline void or_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>E
     <%=name%>_toLongNormal(&b_n, b);
 
     <%=name%>_rawOr(r->longVal, a_n.longVal, b_n.longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2022,12 +2020,12 @@ static inline void or_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
     }
 
     <%=name%>_rawOr(r->longVal, a_n.longVal, b_n.longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
 
     if (a->shortVal >= 0)
@@ -2040,12 +2038,12 @@ static inline void or_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
     }
 
     <%=name%>_rawOr(r->longVal, a_n.longVal, b->longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
 
     if (b->shortVal >= 0)
@@ -2058,12 +2056,12 @@ static inline void or_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
     }
 
     <%=name%>_rawOr(r->longVal, a->longVal, b_n.longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2079,6 +2077,8 @@ static inline void or_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
     }
 
     <%=name%>_rawOr(r->longVal, b_n.longVal, a_n.longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -2089,28 +2089,26 @@ static inline void or_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
 
 static inline void or_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
     <%=name%>_toNormal(&b_n, b);
 
     <%=name%>_rawOr(r->longVal, a->longVal, b_n.longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>_toNormal(&a_n, a);
 
     <%=name%>_rawOr(r->longVal, a_n.longVal, b->longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2118,6 +2116,8 @@ static inline void or_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     <%=name%>_toNormal(&b_n, b);
 
     <%=name%>_rawOr(r->longVal, a_n.longVal, b_n.longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 
@@ -2182,8 +2182,6 @@ static inline void xor_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
         return;
     }
 
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2191,12 +2189,12 @@ static inline void xor_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
     <%=name%>_toLongNormal(&b_n, b);
 
     <%=name%>_rawXor(r->longVal, a_n.longVal, b_n.longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
 
     if (a->shortVal >= 0)
@@ -2209,12 +2207,12 @@ static inline void xor_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawXor(r->longVal, a_n.longVal, b->longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2230,12 +2228,12 @@ static inline void xor_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawXor(r->longVal, a_n.longVal, b_n.longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
 
     if (b->shortVal >= 0)
@@ -2248,12 +2246,12 @@ static inline void xor_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawXor(r->longVal, a->longVal, b_n.longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2269,6 +2267,8 @@ static inline void xor_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawXor(r->longVal, b_n.longVal, a_n.longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -2279,28 +2279,26 @@ static inline void xor_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void xor_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
     <%=name%>_toNormal(&b_n, b);
 
     <%=name%>_rawXor(r->longVal, a->longVal, b_n.longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>_toNormal(&a_n, a);
 
     <%=name%>_rawXor(r->longVal, a_n.longVal, b->longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2308,6 +2306,8 @@ static inline void xor_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name
     <%=name%>_toNormal(&b_n, b);
 
     <%=name%>_rawXor(r->longVal, a_n.longVal, b_n.longVal);
+
+    r->type = <%=name%>_LONG;
 }
 
 void <%=name%>_bxor(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -2364,8 +2364,6 @@ void <%=name%>_bxor(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element
 
 void <%=name%>_bnot(P<%=name%>Element r, P<%=name%>Element a)
 {
-    r->type = <%=name%>_LONG;
-
     if (a->type == <%=name%>_LONG)
     {
         if (a->type & <%=name%>_MONTGOMERY)
@@ -2387,4 +2385,6 @@ void <%=name%>_bnot(P<%=name%>Element r, P<%=name%>Element a)
 
         <%=name%>_rawNot(r->longVal, a_n.longVal);
     }
+
+    r->type = <%=name%>_LONG;
 }
-- 
2.43.0


From 9fd2986a82677dc9f8f40969a872bfafe2c7a0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 03/50] fix: portable rawShl copies overlapping limbs in the
 wrong direction when r == a

---
 src/fr_raw_generic.cpp.ejs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fr_raw_generic.cpp.ejs b/src/fr_raw_generic.cpp.ejs
index e13bbb1..a4ac1b1 100644
--- a/src/fr_raw_generic.cpp.ejs
+++ b/src/fr_raw_generic.cpp.ejs
@@ -318,7 +318,7 @@ void <%=name%>_rawShl(<%=name%>RawElement r, <%=name%>RawElement a, uint64_t b)
     uint64_t word_shift = b / 64;
     uint64_t word_count = <%=name%>_N64 - word_shift;
 
-    mpn_copyi(r + word_shift, a, word_count);
+    mpn_copyd(r + word_shift, a, word_count);
     std::memset(r, 0, word_shift * sizeof(uint64_t));
 
     if (bit_shift)
-- 
2.43.0


From 874b80c708cd834f3fe961d6861b8ea64c5bd3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 04/50] fix: portable toMontgomery leaves the short value of
 its result unset

---
 src/fr_generic.cpp.ejs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index 51133b5..cb121ce 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -313,12 +313,14 @@ void <%=name%>_toMontgomery(P<%=name%>Element r, P<%=name%>Element a)
        <%=name%>_rawMMul1(r->longVal, <%=name%>_R2.longVal, -a_shortVal);
        <%=name%>_rawNeg(r->longVal, r->longVal);
 
+       r->shortVal = a->shortVal;
        r->type = <%=name%>_SHORTMONTGOMERY;
     }
     else
     {
         <%=name%>_rawMMul1(r->longVal, <%=name%>_R2.longVal, a->shortVal);
 
+        r->shortVal = a->shortVal;
         r->type = <%=name%>_SHORTMONTGOMERY;
     }
 }
-- 
2.43.0


From ed0f1694be6d260a84e98f830c62d9c0bf0d134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 05/50] fix: x86-64 backend tags an in-place result before
 converting its operand

---
 src/add.asm.ejs    |  8 ++++----
 src/binops.asm.ejs | 16 +++++++---------
 src/sub.asm.ejs    |  8 ++++----
 3 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/add.asm.ejs b/src/add.asm.ejs
index eed3d22..bfc9ee4 100644
--- a/src/add.asm.ejs
+++ b/src/add.asm.ejs
@@ -137,8 +137,8 @@ add_l1ms2:
         bt     rcx, 62          ; check if montgomery second
         jc     add_l1ms2m
 add_l1ms2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_l1ms2m:
@@ -158,8 +158,8 @@ add_s1l2m:
         bt     rax, 62          ; check if montgomery first
         jc     add_s1ml2m
 add_s1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_s1ml2m:
@@ -178,16 +178,16 @@ add_l1nl2n:
 <%=     addL1L2()         %>
 
 add_l1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_l1ml2:
         bt     rcx, 62          ; check if montgomery seconf
         jc     add_l1ml2m
 add_l1ml2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_l1ml2m:
diff --git a/src/binops.asm.ejs b/src/binops.asm.ejs
index 68d2b8d..bf3c269 100644
--- a/src/binops.asm.ejs
+++ b/src/binops.asm.ejs
@@ -56,9 +56,9 @@
         ret
 
 <%=s1s2_solveNeg%>:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.toLong_b() %>
 <%=     global.toLong_a() %>
+<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 
 
@@ -69,6 +69,7 @@
         cmp    eax, 0
         <% const s1l2_solveNeg = global.tmpLabel() %>
         js     <%=s1l2_solveNeg%>
+<%=     global.setTypeDest("0x80"); %>
         <%=op%> rax, [rdx +8]
         mov    [rdi+8], rax
 <%   for (let i=1; i<n64; i++) { %>
@@ -98,6 +99,7 @@
         cmp    ecx, 0
         <% const l1s2_solveNeg = global.tmpLabel() %>
         js     <%=l1s2_solveNeg%>
+<%=     global.setTypeDest("0x80"); %>
         movsx  rax, ecx
         <%=op%> rax, [rsi +8]
         mov    [rdi+8], rax
@@ -178,11 +180,9 @@
         bt     rax, 62          ; check if montgomery first
         jc     <%=op%>_l1ms2
 <%=op%>_l1ns2:
-<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1S2(op)       %>
 
 <%=op%>_l1ms2:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_a()       %>
 <%=     binOpL1S2(op)       %>
 
@@ -191,11 +191,9 @@
         bt     rcx, 62          ; check if montgomery first
         jc     <%=op%>_s1l2m
 <%=op%>_s1l2n:
-<%=     global.setTypeDest("0x80"); %>
 <%=     binOpS1L2(op)       %>
 
 <%=op%>_s1l2m:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_b()       %>
 <%=     binOpS1L2(op)       %>
 
@@ -210,22 +208,22 @@
 <%=     binOpL1L2(op)       %>
 
 <%=op%>_l1nl2m:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_b()       %>
+<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 
 <%=op%>_l1ml2:
         bt     rcx, 62          ; check if montgomery first
         jc     <%=op%>_l1ml2m
 <%=op%>_l1ml2n:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_a()       %>
+<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 
 <%=op%>_l1ml2m:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_a()       %>
 <%=     global.fromMont_b()       %>
+<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 <% } %>
 
@@ -249,7 +247,6 @@
         push   rsi
         push   rdx
         mov    rbp, rsp
-        <%=     global.setTypeDest("0x80"); %>
 
         mov     rax, [rsi]
         bt      rax, 63          ; Check if is long operand
@@ -266,6 +263,7 @@ bnot_l1m:
 <%=     global.fromMont_a()       %>
 
 bnot_l1n:
+        <%=     global.setTypeDest("0x80"); %>
 <%   for (let i=0; i<n64; i++) { %>
         mov    rax, [rsi + <%= i*8 + 8 %>]
         not    rax
diff --git a/src/sub.asm.ejs b/src/sub.asm.ejs
index e50b974..2db6a1d 100644
--- a/src/sub.asm.ejs
+++ b/src/sub.asm.ejs
@@ -144,8 +144,8 @@ sub_l1ms2:
         bt     rcx, 62          ; check if montgomery second
         jc     sub_l1ms2m
 sub_l1ms2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_l1ms2m:
@@ -165,8 +165,8 @@ sub_s1l2m:
         bt     rax, 62          ; check if montgomery second
         jc     sub_s1ml2m
 sub_s1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_s1ml2m:
@@ -185,16 +185,16 @@ sub_l1nl2n:
 <%=     subL1L2()         %>
 
 sub_l1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_l1ml2:
         bt     rcx, 62          ; check if montgomery seconf
         jc     sub_l1ml2m
 sub_l1ml2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_l1ml2m:
-- 
2.43.0


From aad86f5ab77d1417cc9f6114e6e4c547914c97e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 06/50] fix: x86-64 rawSwap stores rbx instead of the value it
 loaded

---
 src/copy.asm.ejs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/copy.asm.ejs b/src/copy.asm.ejs
index 989e927..a780cbe 100644
--- a/src/copy.asm.ejs
+++ b/src/copy.asm.ejs
@@ -69,7 +69,7 @@
         mov     rax, [rsi + <%= i*8 %>]
         mov     rcx, [rdi + <%= i*8 %>]
         mov     [rdi + <%= i*8 %>], rax
-        mov     [rsi + <%= i*8 %>], rbx
+        mov     [rsi + <%= i*8 %>], rcx
 <% } %>
         ret
 
-- 
2.43.0


From 02f01b93e2820e748c2df6a5bd18f0c585d2ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 07/50] fix: toInt ignores the high limbs of a negative value

---
 src/copy.asm.ejs       |  5 +++--
 src/fr_generic.cpp.ejs | 14 +++++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/copy.asm.ejs b/src/copy.asm.ejs
index a780cbe..b36a719 100644
--- a/src/copy.asm.ejs
+++ b/src/copy.asm.ejs
@@ -183,12 +183,13 @@ u64toLong_adjust_neg:
 <%=name%>_longNeg:
         mov     rax, [rdi + 8]
         sub     rax, [q]
-        jnc     <%=name%>_longErr
 <% for (let i=1; i<n64; i++) { %>
         mov     rcx, [rdi + <%= i*8+8 %>]
         sbb     rcx, [q + <%= i*8 %>]
-        jnc     <%=name%>_longErr
+        inc     rcx                     ; must be -1, inc keeps the carry
+        jnz     <%=name%>_longErr
 <% } %>
+        jnc     <%=name%>_longErr
         mov     rcx, rax
         sar     rcx, 31
         add     rcx, 1
diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index cb121ce..4a4ae51 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -744,7 +744,19 @@ int <%=name%>_longNeg(P<%=name%>Element pE)
        return 0;
     }
 
-    int64_t result = pE->longVal[0] - <%=name%>_q.longVal[0];
+    <%=name%>RawElement diff;
+    <%=name%>_rawSubRegular(diff, pE->longVal, <%=name%>_q.longVal);
+
+    for (int i = 1; i < <%=name%>_N64; i++)
+    {
+        if (diff[i] != UINT64_MAX)
+        {
+            <%=name%>_longErr();
+            return 0;
+        }
+    }
+
+    int64_t result = diff[0];
 
     int64_t is_long = (result >> 31) + 1;
 
-- 
2.43.0


From f181ee1963a1fc2a439457c362796a8aec319ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 08/50] fix: rawNegLS overwrites its operand before using it
 when r == a

---
 src/fr_raw_generic.cpp.ejs |  4 ++--
 src/sub.asm.ejs            | 22 +++++++++-------------
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/fr_raw_generic.cpp.ejs b/src/fr_raw_generic.cpp.ejs
index a4ac1b1..d28795d 100644
--- a/src/fr_raw_generic.cpp.ejs
+++ b/src/fr_raw_generic.cpp.ejs
@@ -81,8 +81,8 @@ void <%=name%>_rawNeg(<%=name%>RawElement pRawResult, const <%=name%>RawElement
 //  Substracts a long element and a short element form 0
 void <%=name%>_rawNegLS(<%=name%>RawElement pRawResult, <%=name%>RawElement pRawA, uint64_t rawB)
 {
-    uint64_t carry1 = mpn_sub_1(pRawResult, <%=name%>_rawq, <%=name%>_N64, rawB);
-    uint64_t carry2 = mpn_sub_n(pRawResult, pRawResult, pRawA, <%=name%>_N64);
+    uint64_t carry1 = mpn_sub_n(pRawResult, <%=name%>_rawq, pRawA, <%=name%>_N64);
+    uint64_t carry2 = mpn_sub_1(pRawResult, pRawResult, <%=name%>_N64, rawB);
 
     if (carry1 || carry2)
     {
diff --git a/src/sub.asm.ejs b/src/sub.asm.ejs
index 2db6a1d..fa39277 100644
--- a/src/sub.asm.ejs
+++ b/src/sub.asm.ejs
@@ -315,27 +315,23 @@ rawSubLL_done:
 ;
 ;   [rdi] = -[rsi] - rdx
 ; Modified Registers:
-;    rax
+;    rax, rcx, rdx
 ;;;;;;;;;;;;;;;;;;;;;;
 rawNegLS:
-        mov rax, [q]
-        sub rax, rdx
-        mov [rdi], rax
-<% for (let i=1; i<n64; i++) { %>
+<% for (let i=0; i<n64; i++) { %>
         mov rax, [q + <%=i*8%> ]
-        sbb rax, 0
+        <%= i==0 ? "sub" : "sbb" %> rax, [rsi + <%=i*8%>]
         mov [rdi + <%=i*8%>], rax
 <% } %>
-        setc dl
+        setc cl
 
-<% for (let i=0; i<n64; i++) { %>
-        mov rax, [rdi + <%=i*8%> ]
-        <%= i==0 ? "sub" : "sbb" %> rax, [rsi + <%=i*8%>]
-        mov [rdi + <%=i*8%>], rax
+        sub [rdi], rdx
+<% for (let i=1; i<n64; i++) { %>
+        sbb qword [rdi + <%=i*8%>], 0
 <% } %>
 
-        setc dh
-        or dl, dh
+        setc dl
+        or dl, cl
         jz rawNegSL_done
 
         ; it is a negative value, so add q
-- 
2.43.0


From 8bcf03a69f70a9a7289d229aacc5bce1983582d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 09/50] fix: ARM64 rawNegLS adds the modulus when there is no
 borrow instead of when there is

---
 src/armbuilder.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 57ad918..c7bf60b 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1010,7 +1010,7 @@ class Gen_rawNegLS extends GenBase {
         }
         if (this.width % 2) this.op_empty();
 
-        this.op("cset", "x2", "cs");
+        this.op("cset", "x2", "cc");
     }
 
     genSubtractionOpA() {
@@ -1021,7 +1021,7 @@ class Gen_rawNegLS extends GenBase {
         }
         if (this.width % 2) this.op_empty();
 
-        this.op("cset", "x3", "cs");
+        this.op("cset", "x3", "cc");
         this.op("orr",  "x3", "x3", "x2");
         this.op_empty();
         this.op("cbz", "x3", this.makeLabel("done"));
-- 
2.43.0


From 99eba195fa2e1de34cb8983a856f2a1c101a40fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 10/50] fix: element2str returns memory from new[] that its
 callers release with free()

---
 src/fr.cpp.ejs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index 9d3f1e2..7a71e9c 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -66,7 +66,7 @@ char *<%=name%>_element2str(P<%=name%>Element pE) {
     mpz_t r;
     if (!(pE->type & <%=name%>_LONG)) {
         if (pE->shortVal>=0) {
-            char *r = new char[32];
+            char *r = (char *)malloc(32);
             sprintf(r, "%d", pE->shortVal);
             return r;
         } else {
-- 
2.43.0


From 9fb6511354178394e3df2de0ab747095132d820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 11/50] fix: toRprBE leaves zero unwritten and misplaces the
 value in a wider buffer; both leak their mpz

---
 src/fr.cpp.ejs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index 7a71e9c..10621d0 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -1,6 +1,7 @@
 #include "<%=name.toLowerCase()+".hpp"%>"
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <gmp.h>
 #include <assert.h>
 #include <string>
@@ -300,7 +301,9 @@ int Raw<%=name%>::toRprBE(const Element &element, uint8_t *data, int bytes)
 
     toMpz(r, element);
    
-    mpz_export(data, NULL, 1, bytes, 1, 0, r);
+    memset(data, 0, <%=name%>_N64 * 8);
+    mpz_export(data, NULL, 1, <%=name%>_N64 * 8, 1, 0, r);
+    mpz_clear(r);
 
     return <%=name%>_N64 * 8;
 }
@@ -315,6 +318,8 @@ int Raw<%=name%>::fromRprBE(Element &element, const uint8_t *data, int bytes)
 
     mpz_import(r, <%=name%>_N64 * 8, 0, 1, 0, 0, data);
     fromMpz(element, r);
+    mpz_clear(r);
+
     return <%=name%>_N64 * 8;
 }
 
-- 
2.43.0


From e88753959aaa30b471522943e3551e93e1172a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 12/50] fix: declare init() in fr.hpp, which the README example
 calls

---
 src/fr.hpp.ejs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fr.hpp.ejs b/src/fr.hpp.ejs
index 1bbe388..d04c2bb 100644
--- a/src/fr.hpp.ejs
+++ b/src/fr.hpp.ejs
@@ -189,6 +189,7 @@ void <%=name%>_longErr();
 
 // Pending functions to convert
 
+bool <%=name%>_init();
 void <%=name%>_str2element(P<%=name%>Element pE, char const*s);
 char *<%=name%>_element2str(P<%=name%>Element pE);
 void <%=name%>_idiv(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b);
-- 
2.43.0


From a7d8428a9a3eae6ca477444154bd6def31832cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 13/50] fix: ARM64 rawFromMontgomery reads one limb past its
 operand when the limb count is odd

---
 src/armbuilder.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index c7bf60b..2065b80 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1516,7 +1516,7 @@ class Gen_rawMul1 extends GenBase {
                 this.genLoadVar(this.b1, 1);
             }
         } else {
-            this.genLoadVar(this.r1, 1);
+            this.genLoadVar(this.r1.slice(0, this.width), 1);
 
             let lastR = this.r1[this.width];
             this.op("mov", lastR, "xzr");
-- 
2.43.0


From 02a43bed45f4e8f2039be219be020fd44fbb4ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 14/50] fix: ARM64 one-limb rawShl neither masks nor reduces
 its result

---
 src/armbuilder.js | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 2065b80..aaad11f 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1176,6 +1176,11 @@ class Gen_rawShl extends GenBase {
         if (this.width === 1) {
             this.op("ldr", "x3", "[x1]");
             this.op("lsl", "x3", "x3", "x2");
+            this.genLboMask(new Reg(3), new Reg(4));
+            this.op("adr", "x4", this.getVarName("rawq"));
+            this.op("ldr", "x4", "[x4]");
+            this.op("subs", "x5", "x3", "x4");
+            this.op("csel", "x3", "x5", "x3", "hs");
             this.op("str", "x3", "[x0]");
             this.op("ret");
             return;
-- 
2.43.0


From 9461ba37810264e5e1cb54bfa4a1ebc342b87a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 15/50] fix: ARM64 rawNegLS reuses operand registers for its
 result above 10 limbs

---
 src/armbuilder.js | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index aaad11f..3e0e572 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -971,9 +971,8 @@ class Gen_rawNegLS extends GenBase {
 
         assert(width <= 12);
 
-        this.r1 = this.assignRegs(this.width);
-        this.a2 = cyclicCopy(this.workRegs, this.width);
-        this.releaseRegs(this.workRegs);
+        this.r1 = cyclicCopy(this.workRegs, this.width);
+        this.a2 = this.r1;
         this.r2 = this.assignRegs(this.width);
         this.generate();
     }
@@ -986,7 +985,11 @@ class Gen_rawNegLS extends GenBase {
         this.genSubtractionOpA();
         this.op_empty();
 
-        this.genAdd(this.r2, this.r2, this.r1);
+        this.op("adr", "x1", this.getVarName("rawq"));
+        for (let i = 0; i < this.width; i++) {
+            this.genLoadVarWord(this.r1, i, 1);
+            this.genAddWord(this.r2, this.r2, this.r1, i);
+        }
         this.op_empty();
 
         this.op_label(this.makeLabel("done"));
-- 
2.43.0


From 1a98ed5b54689aadb17962f4efd12c367e965573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 16/50] fix: x86-64 Montgomery code reads a spilled limb from
 memory while its current value is in a register

---
 src/asmbuilder.js | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/asmbuilder.js b/src/asmbuilder.js
index 097bbee..89f306a 100644
--- a/src/asmbuilder.js
+++ b/src/asmbuilder.js
@@ -162,6 +162,18 @@ module.exports = class RegManager {
             }
         }
 
+        // An operand that is used from memory may be newer in a working register
+        for (let i=0; i < inst.length; i++) {
+            const idx = this._indexOfWrAssignment(args[i]);
+            if ((idx >= 0)&&(dLoad>=0)&&(args[i] != args[dLoad])) {
+                const a = this.wrAssignments.splice(idx, 1)[0];
+                if (a.modified) {
+                    this.code.push(`    mov ${this.regRefs[a.ref]}, ${a.reg}`);
+                }
+                this.wrAvailable.push(a.reg);
+            }
+        }
+
         const params = [];
         for (let i=0; i < inst.length; i++) {
             if (typeof args[i] === "string") {
@@ -173,6 +185,12 @@ module.exports = class RegManager {
                 if (inst[i].indexOf("O")>=0) {
                     this.wrAssignments[this._indexOfWrAssignment(args[i])].modified = true;
                 }
+            } else if (this._indexOfWrAssignment(args[i]) >= 0) {
+                const a = this.wrAssignments[this._indexOfWrAssignment(args[i])];
+                params.push(a.reg);
+                if (inst[i].indexOf("O")>=0) {
+                    a.modified = true;
+                }
             } else {
                 params.push(this.regRefs[args[i]]);
             }
-- 
2.43.0


From 530f0a2a1ebb896e06635ef8ade121b9ec7ef2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 17/50] fix: ARM64 rawIsEq loses the first four limbs when
 there are seven

---
 src/armbuilder.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 3e0e572..62bbc17 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -500,7 +500,7 @@ class Gen_rawIsEq extends GenBase {
     }
 
     longNumber() {
-        return (this.width >= 8);
+        return (this.width > 6);
     }
 }
 
-- 
2.43.0


From d458edb35f2625258fdbbbbe24a9e057d515afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 18/50] fix: -oc sends the element header, generic and ARM64
 sources to the one .c file, overwriting it

---
 src/buildzqfield.js | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buildzqfield.js b/src/buildzqfield.js
index 6fbc2e0..f4007e0 100755
--- a/src/buildzqfield.js
+++ b/src/buildzqfield.js
@@ -71,10 +71,10 @@ if (runningAsScript) {
     const asmFileName =  (argv.oa) ? argv.oa : argv.name.toLowerCase() + ".asm";
     const hFileName =  (argv.oh) ? argv.oh : argv.name.toLowerCase() + ".hpp";
     const cFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + ".cpp";
-    const hElementFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_element.hpp";
-    const cGenericFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_generic.cpp";
-    const cRawGenericFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_raw_generic.cpp";
-    const sRawArm64FileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_raw_arm64.s";
+    const hElementFileName =  argv.name.toLowerCase() + "_element.hpp";
+    const cGenericFileName =  argv.name.toLowerCase() + "_generic.cpp";
+    const cRawGenericFileName =  argv.name.toLowerCase() + "_raw_generic.cpp";
+    const sRawArm64FileName =  argv.name.toLowerCase() + "_raw_arm64.s";
 
 
     buildField(q, argv.name).then( (res) => {
-- 
2.43.0


From 4397b2129cda0609d096483010770653e2b7c990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 19/50] fix: F2 square drops the non-residue term when the
 non-residue is not -1

---
 c/f2field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/f2field.cpp b/c/f2field.cpp
index 3a250ed..7a4aff0 100644
--- a/c/f2field.cpp
+++ b/c/f2field.cpp
@@ -162,7 +162,7 @@ void F2Field<BaseField>::square(Element &r, Element &e1) {
 
         F.add(tmp1, e1.a, e1.b);
         mulByNr(tmp2, e1.b);
-        F.add(tmp2, e1.a, tmp1);
+        F.add(tmp2, e1.a, tmp2);
 
         F.mul(tmp1, tmp1, tmp2);
 
-- 
2.43.0


From c6d7748a0b1a6a7966c331ddffefe3cec80bad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 20/50] fix: F12 exp overwrites its base when it is also the
 result

---
 c/f12field.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/f12field.cpp b/c/f12field.cpp
index ee5e231..1ce549d 100644
--- a/c/f12field.cpp
+++ b/c/f12field.cpp
@@ -95,14 +95,16 @@ void F12Field<BaseField>::mulScalar(Element &r, Element &a, typename BaseField::
 template <typename BaseField>
 void F12Field<BaseField>::exp(Element &r, Element &a, uint8_t* scalar, unsigned int scalarSize) {
 
+    Element t, base;
+
+    copy(base, a); // base and result can be the same
     copy(r, one());
-    Element t;
 
     for (int i=scalarSize*8-1; i>=0; i--) {
         square(t, r);
 
         if ( BIT_IS_SET(scalar, i) ) {
-            mul(r, t, a);
+            mul(r, t, base);
         } else {
             copy(r, t);
         }
-- 
2.43.0


From 3a8f947e5a194aa32a4852b22b51096348971bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 21/50] fix: negating the affine neutral element into a Point
 gives a point that is not neutral

---
 c/curve.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/c/curve.cpp b/c/curve.cpp
index af35ebf..838cc45 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -589,10 +589,8 @@ void Curve<BaseField>::neg(Point &r, Point &a) {
 
 template <typename BaseField>
 void Curve<BaseField>::neg(Point &r, PointAffine &a) {
-    F.copy(r.x, a.x);
-    F.neg(r.y, a.y);
-    F.copy(r.zz, F.one());
-    F.copy(r.zzz, F.one());
+    copy(r, a);
+    F.neg(r.y, r.y);
 }
 
 template <typename BaseField>
-- 
2.43.0


From fab7a4e5d9462839ec8b64ad356220b340f1c647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 22/50] fix: curve eq takes any point for equal to a neutral
 element whose x and y are zero

---
 c/curve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/curve.cpp b/c/curve.cpp
index 838cc45..649081e 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -462,6 +462,7 @@ bool Curve<BaseField>::eq(Point &p1, Point &p2) {
 #endif // COUNT_OPS
 
     if (isZero(p1)) return  isZero(p2);
+    if (isZero(p2)) return false;
 
     // U1 = X1*ZZ2
     typename BaseField::Element U1;
-- 
2.43.0


From d49cc69b81781876853ab2535a1d563a3b16146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 23/50] fix: buildNaf reads past an empty scalar

---
 c/naf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/naf.cpp b/c/naf.cpp
index 079dcf7..2493899 100644
--- a/c/naf.cpp
+++ b/c/naf.cpp
@@ -56,14 +56,14 @@ void buildNaf(uint8_t *r, uint8_t* scalar, unsigned int scalarSize) {
     int64_t *r64 = (int64_t *)r;
 
     bool carry = false;
-    bool last = (scalar[0] & 1);
+    bool last = scalarSize > 0 && (scalar[0] & 1);
     int st;
     int64_t rs;
 
     for (unsigned int i=0; i<scalarSize+2; i++) {
         st = last ? 1 : 0;
         if (i<scalarSize) st += scalar[i] & 0xFE;
-        if (i<scalarSize-1) st += (scalar[i+1] & 1) << 8;
+        if (i+1<scalarSize) st += (scalar[i+1] & 1) << 8;
         if (carry) st += 0x200;
 
         rs = NAFTable[st];
-- 
2.43.0


From 76efc10e0e812dcf573e7329789add12186fa09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 24/50] fix: MSM reads 64-bit words outside scalars that are
 shorter than 8 bytes

---
 c/msm.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/msm.hpp b/c/msm.hpp
index bdfdb69..c205073 100644
--- a/c/msm.hpp
+++ b/c/msm.hpp
@@ -2,6 +2,7 @@
 #define MSM_HPP
 
 #include <cstdint>
+#include <cstring>
 
 template <typename Curve, typename BaseField>
 class MSM {
@@ -47,11 +48,13 @@ private:
         uint64_t byteStart = bitStart/8;
         uint64_t efectiveBitsPerChunk = bitsPerChunk;
 
-        if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
         if (bitStart + bitsPerChunk > scalarSize*8) efectiveBitsPerChunk = scalarSize*8 - bitStart;
 
         uint64_t shift = bitStart - byteStart*8;
-        uint64_t v = *(uint64_t *)(scalars + scalarIdx*scalarSize + byteStart);
+        uint64_t nBytes = scalarSize - byteStart;
+        if (nBytes > 8) nBytes = 8;
+        uint64_t v = 0;
+        memcpy(&v, scalars + scalarIdx*scalarSize + byteStart, nBytes);
 
         v = v >> shift;
         v = v & ( ((uint64_t)1 << efectiveBitsPerChunk) - 1);
-- 
2.43.0


From ec257f193c5ca96a7d7224936bb659413dea563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 25/50] fix: multiexp reads 64-bit words outside scalars that
 are shorter than 8 bytes

---
 c/multiexp.cpp | 6 ++++--
 c/multiexp.hpp | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/multiexp.cpp b/c/multiexp.cpp
index 4db20f2..307c66a 100644
--- a/c/multiexp.cpp
+++ b/c/multiexp.cpp
@@ -27,10 +27,12 @@ uint64_t ParallelMultiexp<Curve>::getChunk(uint64_t scalarIdx, uint64_t chunkIdx
     uint64_t bitStart = chunkIdx*bitsPerChunk;
     uint64_t byteStart = bitStart/8;
     uint64_t efectiveBitsPerChunk = bitsPerChunk;
-    if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
     if (bitStart + bitsPerChunk > scalarSize*8) efectiveBitsPerChunk = scalarSize*8 - bitStart;
     uint64_t shift = bitStart - byteStart*8;
-    uint64_t v = *(uint64_t *)(scalars + scalarIdx*scalarSize + byteStart);
+    uint64_t nBytes = scalarSize - byteStart;
+    if (nBytes > 8) nBytes = 8;
+    uint64_t v = 0;
+    memcpy(&v, scalars + scalarIdx*scalarSize + byteStart, nBytes);
     v = v >> shift;
     v = v & ( (1 << efectiveBitsPerChunk) - 1);
     return uint64_t(v);
diff --git a/c/multiexp.hpp b/c/multiexp.hpp
index 077fa6e..484c123 100644
--- a/c/multiexp.hpp
+++ b/c/multiexp.hpp
@@ -6,6 +6,7 @@
 #define PME2_MIN_CHUNK_SIZE_BITS 2
 
 #include <cstdint>
+#include <cstring>
 
 template <typename Curve>
 class ParallelMultiexp {
-- 
2.43.0


From d397455c1180b5e41cc1c2526c9b9b69ed6edd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 26/50] fix: MSM drops the carry out of a scalar's top chunk

---
 c/msm.cpp | 2 +-
 c/msm.hpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/msm.cpp b/c/msm.cpp
index 204e2cd..519cbfd 100644
--- a/c/msm.cpp
+++ b/c/msm.cpp
@@ -50,7 +50,7 @@ void MSM<Curve, BaseField>::run(typename Curve::Point &r,
             for (int j = 0; j < nChunks; j++) {
                 int bucketIndex = getBucketIndex(i, j) + carry;
 
-                if (bucketIndex >= nBuckets) {
+                if (bucketIndex > nBuckets) {
                     bucketIndex -= nBuckets*2;
                     carry = 1;
                 } else {
diff --git a/c/msm.hpp b/c/msm.hpp
index c205073..d208f68 100644
--- a/c/msm.hpp
+++ b/c/msm.hpp
@@ -36,7 +36,8 @@ private:
     }
 
     uint64_t calcChunkCount(uint64_t scalarSize, uint64_t bitsPerChunk) const {
-        return ((scalarSize * 8 - 1 ) / bitsPerChunk) + 1;
+        // The signed digits can carry out of the last bit: there is always room for one more.
+        return ((scalarSize * 8) / bitsPerChunk) + 1;
     }
 
     uint64_t calcBucketCount(uint64_t bitsPerChunk) const {
@@ -45,6 +46,7 @@ private:
 
     uint64_t getBucketIndex(uint64_t scalarIdx, uint64_t chunkIdx) const {
         uint64_t bitStart = chunkIdx*bitsPerChunk;
+        if (bitStart >= scalarSize*8) return 0;
         uint64_t byteStart = bitStart/8;
         uint64_t efectiveBitsPerChunk = bitsPerChunk;
 
-- 
2.43.0


From 8b1203bd6a28c254e5ad1330d6be1143b4c568a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 27/50] fix: multiexp with sizes takes a zero size for an
 unlimited one

---
 c/multiexp.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/c/multiexp.cpp b/c/multiexp.cpp
index 307c66a..852362b 100644
--- a/c/multiexp.cpp
+++ b/c/multiexp.cpp
@@ -61,9 +61,7 @@ template <typename Curve>
 void ParallelMultiexp<Curve>::processChunk(uint64_t idChunk, uint64_t nX, uint64_t size[]) {
     #pragma omp parallel for
     for(uint64_t i=0; i<n; i++) {
-        uint mod = i % nX;
-        uint len = size[mod] - 1;
-        if (i < 0 || i > len * nX + mod) continue;
+        if (i / nX >= size[i % nX]) continue;
         if (g.isZero(bases[i])) continue;
 #ifdef _OPENMP
         int idThread = omp_get_thread_num();
@@ -211,6 +209,10 @@ void ParallelMultiexp<Curve>::multiexp(typename Curve::Point &r,
         return;
     }
     if (n == 1) {
+        if (x[0] == 0) {
+            g.copy(r, g.zero());
+            return;
+        }
         g.mulByScalar(r, bases[0], scalars, scalarSize);
         return;
     }
-- 
2.43.0


From 70c67a1822b6b27a4aba0a25ca70797ceb21868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 28/50] fix: parallelFor on an empty range, as the inverse
 transform of size 1 or 2 does, runs off the end

---
 c/misc.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/misc.hpp b/c/misc.hpp
index 2fbe004..1631c12 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -147,6 +147,11 @@ public:
     void parallelFor(int begin, int end, Func&& func) {
 
         const int  elementCount = end - begin;
+
+        if (elementCount <= 0) {
+            return;
+        }
+
         const auto jobs = divideWork(elementCount, nThreads);
         int jobBegin = begin;
         int k = 0;
-- 
2.43.0


From b19d34f6cf29142c9017a251b3f0ab56844f4894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 29/50] fix: a worker that is about to wait misses the request
 to stop, and its destructor never returns

---
 c/misc.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/misc.hpp b/c/misc.hpp
index 1631c12..9dcbc58 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -75,7 +75,10 @@ public:
     {}
 
     ~ThreadWorker() {
-        stop = true;
+        {
+            std::lock_guard<std::mutex> lock(mutex);
+            stop = true;
+        }
         occupied.notify_one();
 
         thread.join();
-- 
2.43.0


From a0bcbfc7353add3807f77fd287262b84c618b4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:07 +0000
Subject: [PATCH 30/50] fix: a pool used by two threads at once overwrites
 one's pending task with the other's

---
 c/misc.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/misc.hpp b/c/misc.hpp
index 9dcbc58..c67d5cc 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -64,7 +64,7 @@ class ThreadWorker
                 task();
                 task = nullptr;
             }
-            finished.notify_one();
+            finished.notify_all();
         }
     }
 
@@ -87,7 +87,10 @@ public:
     template<typename Func>
     void submit(Func func) {
         {
-            std::lock_guard<std::mutex> lock(mutex);
+            std::unique_lock<std::mutex> lock(mutex);
+
+            finished.wait(lock, [this]{return task == nullptr;});
+
             task = func;
         }
         occupied.notify_one();
-- 
2.43.0


From 5016a029dd237a207b45935cf6a924eab27503b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:49 +0000
Subject: [PATCH 31/50] fix: FFT constructor rewrites roots[1] in one thread
 while the others read it

---
 c/fft.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/fft.cpp b/c/fft.cpp
index 9411fb8..c3a67a1 100644
--- a/c/fft.cpp
+++ b/c/fft.cpp
@@ -91,7 +91,8 @@ FFT<Field>::FFT(u_int64_t maxDomainSize, uint32_t _nThreads)
     threadPool.parallelBlock([&] (int idThread, int nThreads) {
 
         uint64_t increment = nRoots / nThreads;
-        uint64_t start = idThread==0 ? 2 : idThread * increment;
+        uint64_t start = idThread * increment;
+        if (start < 2) start = 2;   // the first two roots are already there, and every thread reads roots[1]
         uint64_t end   = idThread==nThreads-1 ? nRoots : (idThread+1) * increment;
         if (end>start) {
             f.exp(roots[start], roots[1], (uint8_t *)(&start), sizeof(start));
-- 
2.43.0


From b37c87560b55efb5f228fb33a25edad9a1d5b80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 32/50] fix: splitParStr never returns on a text with a single
 part

---
 c/splitparstr.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/splitparstr.cpp b/c/splitparstr.cpp
index c081969..a4913ed 100644
--- a/c/splitparstr.cpp
+++ b/c/splitparstr.cpp
@@ -47,6 +47,7 @@ std::vector<std::string> splitParStr(std::string s) {
     res.push_back(accS);
     if (res.size()==1) {
         removePars(res[0]);
+        if (res[0] == s) return res;
         return splitParStr(res[0]);
     } else {
         return res;
-- 
2.43.0


From 0f509a04f1104ce362943ae0829541035718eb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 33/50] fix: removePars stops looking before the end of the
 text and drops parentheses that do not match

---
 c/splitparstr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/splitparstr.cpp b/c/splitparstr.cpp
index a4913ed..8fb733f 100644
--- a/c/splitparstr.cpp
+++ b/c/splitparstr.cpp
@@ -7,7 +7,7 @@ void removePars(std::string &s) {
 
     int ins = 0;
     int minIns = 0;
-    for (unsigned int i=ns; i<s.length()-ns*2; i++) {
+    for (unsigned int i=ns; i<s.length()-ns; i++) {
         if (s[i] == '(') ins ++; 
         if (s[i] == ')') ins --; 
         if (ins < minIns) minIns = ins;
-- 
2.43.0


From 74b5faee93f5dedcd3649a43201b874bf79de1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 34/50] fix: BinFile throws pointers, which no handler of
 standard exceptions catches

---
 c/binfile_utils.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index 408dd38..af0a66e 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -24,13 +24,13 @@ namespace BinFileUtils
 
         if (type != _type)
         {
-            throw new std::invalid_argument("Invalid file type. It should be " + _type + " and it is " + type);
+            throw std::invalid_argument("Invalid file type. It should be " + _type + " and it is " + type);
         }
 
         version = readU32LE();
         if (version > maxVersion)
         {
-            throw new std::invalid_argument("Invalid version. It should be <=" + std::to_string(maxVersion) + " and it us " + std::to_string(version));
+            throw std::invalid_argument("Invalid version. It should be <=" + std::to_string(maxVersion) + " and it us " + std::to_string(version));
         }
 
         u_int32_t nSections = readU32LE();
@@ -83,13 +83,13 @@ namespace BinFileUtils
 
         if (type != _type)
         {
-            throw new std::invalid_argument("Invalid file type. It should be " + _type + " and it us " + type);
+            throw std::invalid_argument("Invalid file type. It should be " + _type + " and it us " + type);
         }
 
         version = readU32LE();
         if (version > maxVersion)
         {
-            throw new std::invalid_argument("Invalid version. It should be <=" + std::to_string(maxVersion) + " and it us " + std::to_string(version));
+            throw std::invalid_argument("Invalid version. It should be <=" + std::to_string(maxVersion) + " and it us " + std::to_string(version));
         }
 
         u_int32_t nSections = readU32LE();
@@ -123,17 +123,17 @@ namespace BinFileUtils
 
         if (sections.find(sectionId) == sections.end())
         {
-            throw new std::range_error("Section does not exist: " + std::to_string(sectionId));
+            throw std::range_error("Section does not exist: " + std::to_string(sectionId));
         }
 
         if (sectionPos >= sections[sectionId].size())
         {
-            throw new std::range_error("Section pos too big. There are " + std::to_string(sections[sectionId].size()) + " and it's trying to access section: " + std::to_string(sectionPos));
+            throw std::range_error("Section pos too big. There are " + std::to_string(sections[sectionId].size()) + " and it's trying to access section: " + std::to_string(sectionPos));
         }
 
         if (readingSection != NULL)
         {
-            throw new std::range_error("Already reading a section");
+            throw std::range_error("Already reading a section");
         }
 
         pos = (u_int64_t)(sections[sectionId][sectionPos].start) - (u_int64_t)addr;
@@ -147,7 +147,7 @@ namespace BinFileUtils
         {
             if ((u_int64_t)addr + pos - (u_int64_t)(readingSection->start) != readingSection->size)
             {
-                throw new std::range_error("Invalid section size");
+                throw std::range_error("Invalid section size");
             }
         }
         readingSection = NULL;
@@ -158,12 +158,12 @@ namespace BinFileUtils
 
         if (sections.find(sectionId) == sections.end())
         {
-            throw new std::range_error("Section does not exist: " + std::to_string(sectionId));
+            throw std::range_error("Section does not exist: " + std::to_string(sectionId));
         }
 
         if (sectionPos >= sections[sectionId].size())
         {
-            throw new std::range_error("Section pos too big. There are " + std::to_string(sections[sectionId].size()) + " and it's trying to access section: " + std::to_string(sectionPos));
+            throw std::range_error("Section pos too big. There are " + std::to_string(sections[sectionId].size()) + " and it's trying to access section: " + std::to_string(sectionPos));
         }
 
         return sections[sectionId][sectionPos].start;
@@ -174,12 +174,12 @@ namespace BinFileUtils
 
         if (sections.find(sectionId) == sections.end())
         {
-            throw new std::range_error("Section does not exist: " + std::to_string(sectionId));
+            throw std::range_error("Section does not exist: " + std::to_string(sectionId));
         }
 
         if (sectionPos >= sections[sectionId].size())
         {
-            throw new std::range_error("Section pos too big. There are " + std::to_string(sections[sectionId].size()) + " and it's trying to access section: " + std::to_string(sectionPos));
+            throw std::range_error("Section pos too big. There are " + std::to_string(sections[sectionId].size()) + " and it's trying to access section: " + std::to_string(sectionPos));
         }
 
         return sections[sectionId][sectionPos].size;
-- 
2.43.0


From 00210c60dd53d1d75ab1d98b9053f1566b721740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 35/50] fix: BinFile trusts the sizes it reads and serves
 memory beyond the data

---
 c/binfile_utils.cpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index af0a66e..590a1a1 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -15,12 +15,13 @@ namespace BinFileUtils
 {
     BinFile::BinFile(void *data, uint64_t size, std::string _type, uint32_t maxVersion)
     {
+        this->size = size;
         addr = malloc(size);
         int nThreads = omp_get_max_threads() / 2;
         ThreadUtils::parcpy(addr, data, size, nThreads);
 
-        type.assign((const char *)addr, 4);
-        pos = 4;
+        pos = 0;
+        type.assign((const char *)read(4), 4);
 
         if (type != _type)
         {
@@ -45,9 +46,7 @@ namespace BinFileUtils
                 sections.insert(std::make_pair(sType, std::vector<Section>()));
             }
 
-            sections[sType].push_back(Section((void *)((u_int64_t)addr + pos), sSize));
-
-            pos += sSize;
+            sections[sType].push_back(Section(read(sSize), sSize));
         }
 
         pos = 0;
@@ -78,8 +77,8 @@ namespace BinFileUtils
         munmap(addrmm, sb.st_size);
         close(fd);
 
-        type.assign((const char *)addr, 4);
-        pos = 4;
+        pos = 0;
+        type.assign((const char *)read(4), 4);
 
         if (type != _type)
         {
@@ -104,9 +103,7 @@ namespace BinFileUtils
                 sections.insert(std::make_pair(sType, std::vector<Section>()));
             }
 
-            sections[sType].push_back(Section((void *)((u_int64_t)addr + pos), sSize));
-
-            pos += sSize;
+            sections[sType].push_back(Section(read(sSize), sSize));
         }
 
         pos = 0;
@@ -187,20 +184,21 @@ namespace BinFileUtils
 
     u_int32_t BinFile::readU32LE()
     {
-        u_int32_t res = *((u_int32_t *)((u_int64_t)addr + pos));
-        pos += 4;
-        return res;
+        return *((u_int32_t *)read(4));
     }
 
     u_int64_t BinFile::readU64LE()
     {
-        u_int64_t res = *((u_int64_t *)((u_int64_t)addr + pos));
-        pos += 8;
-        return res;
+        return *((u_int64_t *)read(8));
     }
 
     void *BinFile::read(u_int64_t len)
     {
+        if (len > size - pos)
+        {
+            throw std::range_error("Unexpected end of data");
+        }
+
         void *res = (void *)((u_int64_t)addr + pos);
         pos += len;
         return res;
-- 
2.43.0


From 88bb510adc80eba2f9af2d7d7c2835bd1b537777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 36/50] fix: BinFile copies from a failed mapping when given an
 empty file or a directory

---
 c/binfile_utils.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index 590a1a1..3c78312 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -64,10 +64,21 @@ namespace BinFileUtils
             throw std::system_error(errno, std::generic_category(), "open");
 
         if (fstat(fd, &sb) == -1) /* To obtain file size */
-            throw std::system_error(errno, std::generic_category(), "fstat");
+        {
+            int err = errno;
+            close(fd);
+            throw std::system_error(err, std::generic_category(), "fstat");
+        }
 
         size = sb.st_size;
         void *addrmm = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE | MAP_POPULATE, fd, 0);
+        if (addrmm == MAP_FAILED)
+        {
+            int err = errno;
+            close(fd);
+            throw std::system_error(err, std::generic_category(), "mmap");
+        }
+
         addr = malloc(sb.st_size);
 
         int nThreads = omp_get_max_threads() / 2;
-- 
2.43.0


From bff8e90579588b54eb8f90359df579472d777bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 37/50] fix: BinFile keeps its copy of the data allocated when
 it refuses it

---
 c/binfile_utils.cpp | 3 ++-
 c/binfile_utils.hpp | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index 3c78312..6b49e27 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -17,6 +17,7 @@ namespace BinFileUtils
     {
         this->size = size;
         addr = malloc(size);
+        owner.reset(addr);
         int nThreads = omp_get_max_threads() / 2;
         ThreadUtils::parcpy(addr, data, size, nThreads);
 
@@ -80,6 +81,7 @@ namespace BinFileUtils
         }
 
         addr = malloc(sb.st_size);
+        owner.reset(addr);
 
         int nThreads = omp_get_max_threads() / 2;
         ThreadUtils::parcpy(addr, addrmm, sb.st_size, nThreads);
@@ -123,7 +125,6 @@ namespace BinFileUtils
 
     BinFile::~BinFile()
     {
-        free(addr);
     }
 
     void BinFile::startReadSection(u_int32_t sectionId, u_int32_t sectionPos)
diff --git a/c/binfile_utils.hpp b/c/binfile_utils.hpp
index a8d6de9..8bd03c9 100644
--- a/c/binfile_utils.hpp
+++ b/c/binfile_utils.hpp
@@ -4,6 +4,7 @@
 #include <map>
 #include <vector>
 #include <memory>
+#include <stdlib.h>
 
 namespace BinFileUtils
 {
@@ -11,6 +12,7 @@ namespace BinFileUtils
     class BinFile
     {
 
+        std::unique_ptr<void, void (*)(void *)> owner{NULL, free}; // Frees addr also if a constructor throws
         void *addr;
         u_int64_t size;
         u_int64_t pos;
-- 
2.43.0


From a56594012ebf53933332acb763f46aafd280c6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 38/50] fix: loading a damaged witness header leaks the header

---
 c/wtns_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/wtns_utils.cpp b/c/wtns_utils.cpp
index 2301c3a..b9dd70b 100644
--- a/c/wtns_utils.cpp
+++ b/c/wtns_utils.cpp
@@ -3,6 +3,7 @@
 namespace WtnsUtils {
 
 Header::Header() {
+    mpz_init(prime);
 }
 
 Header::~Header() {
@@ -10,18 +11,17 @@ Header::~Header() {
 }
 
 std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
-    Header *h = new Header();
+    std::unique_ptr<Header> h(new Header());
     f->startReadSection(1);
 
     h->n8 = f->readU32LE();
-    mpz_init(h->prime);
     mpz_import(h->prime, h->n8, -1, 1, -1, 0, f->read(h->n8));
 
     h->nVars = f->readU32LE();
 
     f->endReadSection();
 
-    return std::unique_ptr<Header>(h);
+    return h;
 }
 
 } // NAMESPACE
\ No newline at end of file
-- 
2.43.0


From 3f5aaba125020322b62b4f66926b93acb39aa035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 39/50] fix: loading a damaged key header leaks the header

---
 c/zkey_utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/zkey_utils.cpp b/c/zkey_utils.cpp
index 52a5629..2e3ec64 100644
--- a/c/zkey_utils.cpp
+++ b/c/zkey_utils.cpp
@@ -5,6 +5,8 @@ namespace ZKeyUtils {
 
 
 Header::Header() {
+    mpz_init(qPrime);
+    mpz_init(rPrime);
 }
 
 Header::~Header() {
@@ -14,7 +16,7 @@ Header::~Header() {
 
 
 std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
-    auto h = new Header();
+    std::unique_ptr<Header> h(new Header());
 
     f->startReadSection(1);
     uint32_t protocol = f->readU32LE();
@@ -26,11 +28,9 @@ std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
     f->startReadSection(2);
 
     h->n8q = f->readU32LE();
-    mpz_init(h->qPrime);
     mpz_import(h->qPrime, h->n8q, -1, 1, -1, 0, f->read(h->n8q));
 
     h->n8r = f->readU32LE();
-    mpz_init(h->rPrime);
     mpz_import(h->rPrime, h->n8r , -1, 1, -1, 0, f->read(h->n8r));
 
     h->nVars = f->readU32LE();
@@ -47,7 +47,7 @@ std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
 
     h->nCoefs = f->getSectionSize(4) / (12 + h->n8r);
 
-    return std::unique_ptr<Header>(h);
+    return h;
 }
 
 } // namespace
-- 
2.43.0


From b3cdda5fdc92a82c2f0dbf4eabdfdc13519450b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 40/50] fix: FFT constructor leaks big integers when it refuses
 a domain size

---
 c/fft.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/fft.cpp b/c/fft.cpp
index c3a67a1..9faab7f 100644
--- a/c/fft.cpp
+++ b/c/fft.cpp
@@ -69,6 +69,10 @@ FFT<Field>::FFT(u_int64_t maxDomainSize, uint32_t _nThreads)
     }
 
     if (s<domainPow) {
+        mpz_clear(m_qm1d2);
+        mpz_clear(m_q);
+        mpz_clear(m_nqr);
+        mpz_clear(m_aux);
         throw std::range_error("Domain size too big for the curve");
     }
 
-- 
2.43.0


From 230e46651af71baf2344927e4b416b42d58f37ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 41/50] fix: sizes in a key header overflow 32 bits, so missing
 points are accepted or the program divides by zero

---
 c/zkey_utils.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/c/zkey_utils.cpp b/c/zkey_utils.cpp
index 2e3ec64..898e95b 100644
--- a/c/zkey_utils.cpp
+++ b/c/zkey_utils.cpp
@@ -37,15 +37,15 @@ std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
     h->nPublic = f->readU32LE();
     h->domainSize = f->readU32LE();
 
-    h->vk_alpha1 = f->read(h->n8q*2);
-    h->vk_beta1 = f->read(h->n8q*2);
-    h->vk_beta2 = f->read(h->n8q*4);
-    h->vk_gamma2 = f->read(h->n8q*4);
-    h->vk_delta1 = f->read(h->n8q*2);
-    h->vk_delta2 = f->read(h->n8q*4);
+    h->vk_alpha1 = f->read((u_int64_t)h->n8q*2);
+    h->vk_beta1 = f->read((u_int64_t)h->n8q*2);
+    h->vk_beta2 = f->read((u_int64_t)h->n8q*4);
+    h->vk_gamma2 = f->read((u_int64_t)h->n8q*4);
+    h->vk_delta1 = f->read((u_int64_t)h->n8q*2);
+    h->vk_delta2 = f->read((u_int64_t)h->n8q*4);
     f->endReadSection();
 
-    h->nCoefs = f->getSectionSize(4) / (12 + h->n8r);
+    h->nCoefs = f->getSectionSize(4) / ((u_int64_t)12 + h->n8r);
 
     return h;
 }
-- 
2.43.0


From 2ed9c6e04b30d43b84d7415c68b040467d05fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 42/50] fix: a parallel call that ends with an exception waits
 for the pieces it has started

---
 c/misc.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/c/misc.hpp b/c/misc.hpp
index c67d5cc..d287b21 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -107,6 +107,20 @@ class ThreadPool {
     unsigned int nThreads;
     std::vector<ThreadWorker> workers;
 
+    // The pieces handed out so far: they must have ended before the call does, even when it ends with an exception.
+    struct Pending {
+        std::vector<ThreadWorker> &workers;
+        unsigned int count;
+
+        Pending(std::vector<ThreadWorker> &_workers) : workers(_workers), count(0) {}
+
+        ~Pending() {
+            for (unsigned int i = 0; i < count; i++) {
+                workers[i].wait();
+            }
+        }
+    };
+
 public:
     ThreadPool(unsigned int _nThreads = 0) :
         nThreads(_nThreads==0 ? defaultThreadCount() : _nThreads),
@@ -161,31 +175,27 @@ public:
         const auto jobs = divideWork(elementCount, nThreads);
         int jobBegin = begin;
         int k = 0;
+        Pending pending(workers);
 
         for (; k < jobs.size() - 1; jobBegin += jobs[k++]) {
             workers[k].submit([=]{func(jobBegin, jobBegin + jobs[k], k);});
+            pending.count++;
         }
 
         func(jobBegin, jobBegin + jobs[k], k);
-
-        for (k = 0; k < jobs.size() - 1; k++) {
-            workers[k].wait();
-        }
     }
 
     template<typename Func>
     void parallelBlock(Func&& func) {
         int  k = 0;
+        Pending pending(workers);
 
         for (; k < nThreads - 1; k++) {
             workers[k].submit([=]{func(k, nThreads);});
+            pending.count++;
         }
 
         func(k, nThreads);
-
-        for (k = 0; k < nThreads - 1; k++) {
-            workers[k].wait();
-        }
     }
 };
 
-- 
2.43.0


From e7dc3894038b6e1f7215d6d1b53fb47ef45ad5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 43/50] fix: a container for which there is no memory is
 refused, not copied to address zero

---
 c/binfile_utils.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index 6b49e27..ed6c6e0 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -6,6 +6,7 @@
 #include <string>
 #include <memory.h>
 #include <stdexcept>
+#include <new>
 
 #include "binfile_utils.hpp"
 #include "thread_utils.hpp"
@@ -17,6 +18,8 @@ namespace BinFileUtils
     {
         this->size = size;
         addr = malloc(size);
+        if (addr == NULL && size > 0)
+            throw std::bad_alloc();
         owner.reset(addr);
         int nThreads = omp_get_max_threads() / 2;
         ThreadUtils::parcpy(addr, data, size, nThreads);
@@ -81,6 +84,12 @@ namespace BinFileUtils
         }
 
         addr = malloc(sb.st_size);
+        if (addr == NULL)
+        {
+            munmap(addrmm, sb.st_size);
+            close(fd);
+            throw std::bad_alloc();
+        }
         owner.reset(addr);
 
         int nThreads = omp_get_max_threads() / 2;
-- 
2.43.0


From 61c27e23b4947c5070714efa07fdbcdb3b20809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 44/50] fix: a multiexponentiation that runs out of memory
 gives back what it had

---
 c/multiexp.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/c/multiexp.cpp b/c/multiexp.cpp
index 852362b..4f82789 100644
--- a/c/multiexp.cpp
+++ b/c/multiexp.cpp
@@ -2,6 +2,7 @@
 #include <omp.h>
 #endif
 #include <memory.h>
+#include <memory>
 #include "misc.hpp"
 #include "multiexp.hpp"
 /*
@@ -100,8 +101,8 @@ void ParallelMultiexp<Curve>::reduce(typename Curve::Point &res, uint64_t nBits)
     uint64_t ndiv2 = 1 << (nBits-1);
 
 
-    PaddedPoint *sall = new PaddedPoint[nThreads];
-    memset(sall, 0, sizeof(PaddedPoint)*nThreads);
+    std::unique_ptr<PaddedPoint[]> sall(new PaddedPoint[nThreads]);
+    memset(sall.get(), 0, sizeof(PaddedPoint)*nThreads);
 
     #pragma omp parallel for
     for (uint64_t i = 1; i<ndiv2; i++) {
@@ -126,7 +127,6 @@ void ParallelMultiexp<Curve>::reduce(typename Curve::Point &res, uint64_t nBits)
     for (u_int32_t i=0; i<nBits-1; i++) g.dbl(accs[ndiv2].p, accs[ndiv2].p);
     g.add(res, p1, accs[ndiv2].p);
     g.copy(accs[ndiv2].p, g.zero());
-    delete[] sall;
 }
 
 template <typename Curve>
@@ -158,8 +158,9 @@ void ParallelMultiexp<Curve>::multiexp(typename Curve::Point &r, typename Curve:
     nChunks = ((scalarSize*8 - 1 ) / bitsPerChunk)+1;
     accsPerChunk = 1 << bitsPerChunk;  // In the chunks last bit is always zero.
 
-    typename Curve::Point *chunkResults = new typename Curve::Point[nChunks];
-    accs = new PaddedPoint[nThreads*accsPerChunk];
+    std::unique_ptr<typename Curve::Point[]> chunkResults(new typename Curve::Point[nChunks]);
+    std::unique_ptr<PaddedPoint[]> accsOwner(new PaddedPoint[nThreads*accsPerChunk]);
+    accs = accsOwner.get();
     // std::cout << "InitTrees " << "\n";
     initAccs();
 
@@ -173,15 +174,13 @@ void ParallelMultiexp<Curve>::multiexp(typename Curve::Point &r, typename Curve:
         reduce(chunkResults[i], bitsPerChunk);
     }
 
-    delete[] accs;
+    accsOwner.reset();
 
     g.copy(r, chunkResults[nChunks-1]);
     for  (int j=nChunks-2; j>=0; j--) {
         for (uint64_t k=0; k<bitsPerChunk; k++) g.dbl(r,r);
         g.add(r, r, chunkResults[j]);
     }
-
-    delete[] chunkResults;
 }
 
 template <typename Curve>
@@ -222,8 +221,9 @@ void ParallelMultiexp<Curve>::multiexp(typename Curve::Point &r,
     nChunks = ((scalarSize * 8 - 1) / bitsPerChunk) + 1;
     accsPerChunk = 1 << bitsPerChunk;  // In the chunks last bit is always zero.
 
-    typename Curve::Point *chunkResults = new typename Curve::Point[nChunks];
-    accs = new PaddedPoint[nThreads * accsPerChunk];
+    std::unique_ptr<typename Curve::Point[]> chunkResults(new typename Curve::Point[nChunks]);
+    std::unique_ptr<PaddedPoint[]> accsOwner(new PaddedPoint[nThreads * accsPerChunk]);
+    accs = accsOwner.get();
     // std::cout << "InitTrees " << "\n";
     initAccs();
     for (uint64_t i = 0; i < nChunks; i++) {
@@ -235,13 +235,11 @@ void ParallelMultiexp<Curve>::multiexp(typename Curve::Point &r,
         reduce(chunkResults[i], bitsPerChunk);
     }
 
-    delete[] accs;
+    accsOwner.reset();
 
     g.copy(r, chunkResults[nChunks - 1]);
     for (int j = nChunks - 2; j >= 0; j--) {
         for (uint64_t k = 0; k < bitsPerChunk; k++) g.dbl(r, r);
         g.add(r, r, chunkResults[j]);
     }
-
-    delete[] chunkResults;
 }
-- 
2.43.0


From 7eeea9ca54a8312ab149167449e7c1fd71a1773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 45/50] fix: texts of elements and points are not cut short
 when memory runs out

---
 c/curve.cpp    |  4 +---
 c/f12field.cpp |  4 +---
 c/f2field.cpp  |  4 +---
 c/f6field.cpp  | 10 +++-------
 4 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/c/curve.cpp b/c/curve.cpp
index 649081e..cfea669 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -620,9 +620,7 @@ template <typename BaseField>
 std::string Curve<BaseField>::toString(Point &p, uint32_t radix) {
     PointAffine tmp;
     copy(tmp, p);
-    std::ostringstream stringStream;
-    stringStream << "(" << F.toString(tmp.x, radix) << "," << F.toString(tmp.y, radix) << ")";
-    return stringStream.str();
+    return "(" + F.toString(tmp.x, radix) + "," + F.toString(tmp.y, radix) + ")";
 }
 
 #ifdef COUNT_OPS
diff --git a/c/f12field.cpp b/c/f12field.cpp
index 1ce549d..969b178 100644
--- a/c/f12field.cpp
+++ b/c/f12field.cpp
@@ -35,9 +35,7 @@ void F12Field<BaseField>::fromString(Element &r, std::string s) {
 
 template <typename BaseField>
 std::string F12Field<BaseField>::toString(Element &e, uint32_t radix) {
-    std::ostringstream stringStream;
-    stringStream << "(" << F.toString(e.x, radix) << "," << F.toString(e.y, radix) << ")";
-    return stringStream.str();
+    return "(" + F.toString(e.x, radix) + "," + F.toString(e.y, radix) + ")";
 }
 
 template <typename BaseField>
diff --git a/c/f2field.cpp b/c/f2field.cpp
index 7a4aff0..adc9a25 100644
--- a/c/f2field.cpp
+++ b/c/f2field.cpp
@@ -51,9 +51,7 @@ void F2Field<BaseField>::fromString(Element &r, std::string s) {
 
 template <typename BaseField>
 std::string F2Field<BaseField>::toString(Element &e, uint32_t radix) {
-    std::ostringstream stringStream;
-    stringStream << "(" << F.toString(e.a, radix) << "," << F.toString(e.b, radix) << ")";
-    return stringStream.str();
+    return "(" + F.toString(e.a, radix) + "," + F.toString(e.b, radix) + ")";
 }
 
 template <typename BaseField>
diff --git a/c/f6field.cpp b/c/f6field.cpp
index f305c3f..d4bc75f 100644
--- a/c/f6field.cpp
+++ b/c/f6field.cpp
@@ -48,13 +48,9 @@ void F6Field<BaseField>::fromString(Element &r, std::string s) {
 
 template <typename BaseField>
 std::string F6Field<BaseField>::toString(Element &e, uint32_t radix) {
-    std::ostringstream stringStream;
-    stringStream << "("
-                 << F.toString(e.x, radix) << ","
-                 << F.toString(e.y, radix) << ","
-                 << F.toString(e.z, radix)
-                 << ")";
-    return stringStream.str();
+    return "(" + F.toString(e.x, radix) + ","
+               + F.toString(e.y, radix) + ","
+               + F.toString(e.z, radix) + ")";
 }
 
 template <typename BaseField>
-- 
2.43.0


From 43e9bf7dc67a56d0fe91e4cb6cd5d7cb076ef6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 46/50] fix: printing an element when memory runs out gives
 back the digits

---
 src/fr.cpp.ejs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index 10621d0..36bb7a8 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -5,6 +5,7 @@
 #include <gmp.h>
 #include <assert.h>
 #include <string>
+#include <memory>
 
 
 static mpz_t q;
@@ -229,11 +230,9 @@ std::string Raw<%=name%>::toString(const Element &a, uint32_t radix) {
     <%=name%>_rawFromMontgomery(tmp.v, a.v);
     mpz_init(r);
     mpz_import(r, <%=name%>_N64, -1, 8, -1, 0, (const void *)(tmp.v));
-    char *res = mpz_get_str (0, radix, r);
+    std::unique_ptr<char, void (*)(void *)> res(mpz_get_str (0, radix, r), free);
     mpz_clear(r);
-    std::string resS(res);
-    free(res);
-    return resS;
+    return std::string(res.get());
 }
 
 void Raw<%=name%>::inv(Element &r, const Element &a) {
-- 
2.43.0


From 595effe32a6cd4edeb251c8510c6d2416cae1633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 47/50] fix: a transform object that runs out of memory while
 being built gives back what it had

---
 c/fft.cpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/c/fft.cpp b/c/fft.cpp
index 9faab7f..b405fe0 100644
--- a/c/fft.cpp
+++ b/c/fft.cpp
@@ -1,5 +1,6 @@
 #include <thread>
 #include <vector>
+#include <memory>
 #include "misc.hpp"
 
 using namespace std;
@@ -77,19 +78,31 @@ FFT<Field>::FFT(u_int64_t maxDomainSize, uint32_t _nThreads)
     }
 
     uint64_t nRoots = 1LL << s;
+    Element firstRoot;
+    Element twoInv;
 
-    roots = new Element[nRoots];
-    powTwoInv = new Element[s+1];
+    mpz_powm(m_aux, m_nqr, m_aux, m_q);
+    f.fromMpz(firstRoot, m_aux);
+
+    mpz_set_ui(m_aux, 2);
+    mpz_invert(m_aux, m_aux, m_q);
+    f.fromMpz(twoInv, m_aux);
+
+    mpz_clear(m_qm1d2);
+    mpz_clear(m_q);
+    mpz_clear(m_nqr);
+    mpz_clear(m_aux);
+
+    std::unique_ptr<Element[]> rootsOwner(new Element[nRoots]);
+    std::unique_ptr<Element[]> powTwoInvOwner(new Element[s+1]);
+    roots = rootsOwner.get();
+    powTwoInv = powTwoInvOwner.get();
 
     f.copy(roots[0], f.one());
     f.copy(powTwoInv[0], f.one());
     if (nRoots>1) {
-        mpz_powm(m_aux, m_nqr, m_aux, m_q);
-        f.fromMpz(roots[1], m_aux);
-
-        mpz_set_ui(m_aux, 2);
-        mpz_invert(m_aux, m_aux, m_q);
-        f.fromMpz(powTwoInv[1], m_aux);
+        f.copy(roots[1], firstRoot);
+        f.copy(powTwoInv[1], twoInv);
     }
 
     threadPool.parallelBlock([&] (int idThread, int nThreads) {
@@ -113,10 +126,8 @@ FFT<Field>::FFT(u_int64_t maxDomainSize, uint32_t _nThreads)
         f.mul(powTwoInv[i], powTwoInv[i-1], powTwoInv[1]);
     }
 
-    mpz_clear(m_qm1d2);
-    mpz_clear(m_q);
-    mpz_clear(m_nqr);
-    mpz_clear(m_aux);
+    rootsOwner.release();
+    powTwoInvOwner.release();
 }
 
 template <typename Field>
-- 
2.43.0


From d7e258dc5004854ff65e2a2f132ed07b31c05f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:58 +0000
Subject: [PATCH 48/50] fix: printing a short element when memory runs out
 writes to address zero

---
 src/fr.cpp.ejs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index 36bb7a8..59a0f11 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -6,6 +6,7 @@
 #include <assert.h>
 #include <string>
 #include <memory>
+#include <new>
 
 
 static mpz_t q;
@@ -69,6 +70,7 @@ char *<%=name%>_element2str(P<%=name%>Element pE) {
     if (!(pE->type & <%=name%>_LONG)) {
         if (pE->shortVal>=0) {
             char *r = (char *)malloc(32);
+            if (r == NULL) throw std::bad_alloc();
             sprintf(r, "%d", pE->shortVal);
             return r;
         } else {
-- 
2.43.0


From 2536495aea87c1a484fb36add6963ad1f4113a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:50 +0000
Subject: [PATCH 49/50] fix: a failed conversion ends the program in release
 builds too

---
 src/fr.cpp.ejs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index 59a0f11..3e93b53 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -168,6 +168,7 @@ void <%=name%>_div(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b
 
 void <%=name%>_fail() {
     assert(false);
+    abort();    // also where assertions are compiled out
 }
 
 void <%=name%>_longErr() {
-- 
2.43.0


From 474ab599e7b7b2b29a132f455086cf61b74543fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:50 +0000
Subject: [PATCH 50/50] fix: refuse an element with the wrong number of
 components in release builds too

---
 c/f12field.cpp | 5 ++++-
 c/f2field.cpp  | 5 ++++-
 c/f6field.cpp  | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/c/f12field.cpp b/c/f12field.cpp
index 969b178..68e07d9 100644
--- a/c/f12field.cpp
+++ b/c/f12field.cpp
@@ -1,6 +1,7 @@
 #include "splitparstr.hpp"
 #include "assert.h"
 #include <sstream>
+#include <stdexcept>
 
 template <typename BaseField>
 F12Field<BaseField>::F12Field() {
@@ -27,7 +28,9 @@ template <typename BaseField>
 void F12Field<BaseField>::fromString(Element &r, std::string s) {
 
     auto els = splitParStr(s);
-    assert(els.size() == 2);
+    if (els.size() != 2) {
+        throw std::invalid_argument("Wrong number of components");
+    }
 
     F.fromString(r.x, els[0]);
     F.fromString(r.y, els[1]);
diff --git a/c/f2field.cpp b/c/f2field.cpp
index adc9a25..6aaa89b 100644
--- a/c/f2field.cpp
+++ b/c/f2field.cpp
@@ -1,6 +1,7 @@
 #include "splitparstr.hpp"
 #include "assert.h"
 #include <sstream>
+#include <stdexcept>
 
 template <typename BaseField>
 F2Field<BaseField>::F2Field(typename BaseField::Element &anr) {
@@ -43,7 +44,9 @@ template <typename BaseField>
 void F2Field<BaseField>::fromString(Element &r, std::string s) {
 
     auto els = splitParStr(s);
-    assert(els.size() == 2);
+    if (els.size() != 2) {
+        throw std::invalid_argument("Wrong number of components");
+    }
 
     F.fromString(r.a, els[0]);
     F.fromString(r.b, els[1]);
diff --git a/c/f6field.cpp b/c/f6field.cpp
index d4bc75f..7c7172e 100644
--- a/c/f6field.cpp
+++ b/c/f6field.cpp
@@ -1,6 +1,7 @@
 #include "splitparstr.hpp"
 #include "assert.h"
 #include <sstream>
+#include <stdexcept>
 
 template <typename BaseField>
 F6Field<BaseField>::F6Field()
@@ -39,7 +40,9 @@ template <typename BaseField>
 void F6Field<BaseField>::fromString(Element &r, std::string s) {
 
     auto els = splitParStr(s);
-    assert(els.size() == 3);
+    if (els.size() != 3) {
+        throw std::invalid_argument("Wrong number of components");
+    }
 
     F.fromString(r.x, els[0]);
     F.fromString(r.y, els[1]);
-- 
2.43.0

