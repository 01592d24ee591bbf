From 9bde4989e608a8643a738bb7a5daee92596b284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 01/18] fix: UTF-8 decoder: use only the low 6 bits of
 continuation bytes

---
 src/hob3lbase/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/utf8.c b/src/hob3lbase/utf8.c
index 6eb9603..9bbb3f0 100644
--- a/src/hob3lbase/utf8.c
+++ b/src/hob3lbase/utf8.c
@@ -53,7 +53,7 @@ static inline bool get_cont(unsigned *result, char const *start, cp_utf8_iter_t
         return false;
     }
     iter_advance(iter);
-    *result = c2;
+    *result = c2 & 0x3f;
     return true;
 }
 
-- 
2.43.0


From d941cf8accd012d29f2ab40b2bb5b74a634c8e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 02/18] fix: bounding box of a sphere must not shrink the
 maximum

---
 src/hob3l/csg3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 2bf0ac5..4de6ad3 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -474,7 +474,7 @@ static void csg3_sphere_minmax1(
     double l = a - c;
     double h = a + c;
     if (l < bb->min.v[i]) { bb->min.v[i] = l; }
-    if (h > bb->min.v[i]) { bb->max.v[i] = h; }
+    if (h > bb->max.v[i]) { bb->max.v[i] = h; }
 }
 
 static void csg3_sphere_minmax(
-- 
2.43.0


From a70bd1d73d70e690951b3700d327bfcbb148c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 03/18] fix: STL text parser: a solid without name must not
 swallow the next line

---
 src/hob3l/stl-parse.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index dae61d1..6c32c12 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -180,14 +180,15 @@ static void tok_next_line(parse_t *p)
     if (p->tok_type == T_ERROR) {
         return;
     }
-    lex_next(p);
 
     /* Note that p->tok_string might point to '\0'.  It is needed for a
      * location pointer nevertheless. */
     p->tok_string = p->lex_string;
     p->tok_loc = p->lex_string;
 
-    while ((*p->lex_string != '\n') && (*p->lex_string != '\0')) {
+    /* The character at lex_string may have been overwritten to end the
+     * previous token, so check lex_cur: this may be the newline. */
+    while ((p->lex_cur != '\n') && (p->lex_cur != '\0')) {
         lex_next(p);
     }
     p->tok_type = T_STRING;
-- 
2.43.0


From c27d60b1d46f0911f90345709f4cb0015b3c9d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 04/18] fix: hexadecimal string escape with an invalid last
 digit is an error

---
 src/hob3lbase/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/utf8.c b/src/hob3lbase/utf8.c
index 9bbb3f0..4c8df3d 100644
--- a/src/hob3lbase/utf8.c
+++ b/src/hob3lbase/utf8.c
@@ -187,7 +187,6 @@ extern unsigned cp_utf8_escaped_decode(cp_utf8_iter_t *iter)
     iter_advance(iter);
 
     while (len > 0) {
-        --len;
         uint8_t cx = iter_get(iter);
         if (cx == 0) {
             break;
@@ -197,6 +196,7 @@ extern unsigned cp_utf8_escaped_decode(cp_utf8_iter_t *iter)
             break;
         }
         iter_advance(iter);
+        --len;
         code = (code * base) + val;
     }
     if (len > 0) {
-- 
2.43.0


From b8aec71ea05fa20ef75f0a25ec5fd1671445127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 05/18] fix: inserting a part of a vector into itself behind or
 around the gap

---
 src/hob3lbase/vec.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index f36a21f..6335297 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -315,7 +315,7 @@ extern void *cp_v_insert_arr_(
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos, size);
         }
         else
-        if (dst_end <= src_pos) {
+        if (dst_pos <= src_pos) {
             /* completely in last part */
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos+size, size);
         }
@@ -327,7 +327,6 @@ extern void *cp_v_insert_arr_(
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos, size1);
 
             /* second part behind gap */
-            assert(dst_end < src_end);
             size_t size2 = size - size1;
             assert(dst_end + size2 == src_end + size);
             cp_v_copy_(m, dst, esz, dst_pos+size1, dst, dst_end, size2);
-- 
2.43.0


From d07eaca6d51decb2d39e13d0f1681b196048ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 06/18] fix: an array directly behind a vector's data is not
 part of the vector

---
 src/hob3lbase/vec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index 6335297..ee83dc6 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -214,7 +214,7 @@ extern void cp_v_copy_arr_(
         /* recompute index pointer if it pointed into the dst vector*/
         if (old_data &&
             (data >= old_data) &&
-            (data <= cp_v_nth_elem_(old_data, old_size, esz)))
+            (data < cp_v_nth_elem_(old_data, old_size, esz)))
         {
             assert(
                 cp_v_nth_elem_(data, size, esz) <=
@@ -303,7 +303,7 @@ extern void *cp_v_insert_arr_(
      * originally contiguous data by the inflation. */
     if ((dst->data != NULL) &&
         (data >= dst->data) &&
-        (data <= cp_v_nth_elem_(dst->data, dst->size, esz)))
+        (data < cp_v_nth_elem_(dst->data, dst->size, esz)))
     {
         assert(cp_v_nth_elem_(data, size, esz) <= cp_v_nth_elem_(dst->data, dst->size, esz));
         size_t src_pos = cp_v_monus_(esz, data, dst->data);
-- 
2.43.0


From cddd5f97738dfba96600c38c033fbcb312b0d4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 07/18] fix: growing a vector must not wrap its size

---
 src/hob3lbase/vec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index ee83dc6..bd269ee 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -159,6 +159,10 @@ extern void *cp_v_inflate_(
         return NULL;
     }
 
+    if (size > cp_v_max_size_(esz) - vec->size) {
+        cp_panic(NULL, 0, "Out of memory in cp_v_inflate_()\n");
+    }
+
     size_t new_size = vec->size + size;
     v_grow(m, vec, esz, new_size);
 
-- 
2.43.0


From 8decce88ba11e1addeb07d310a9e115750665b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 08/18] fix: cq_divmodx: check the quotient, not a wrapped
 32-bit product

The check multiplied quotient and divisor in 32 bits, so it rejected
representable quotients of dividends wider than 32 bits, and let
quotients that do not fit (INT_MIN / -1, adjusted INT_MIN - 1) pass.
---
 src/hob3lop/matq.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/hob3lop/matq.c b/src/hob3lop/matq.c
index 079f774..6419075 100644
--- a/src/hob3lop/matq.c
+++ b/src/hob3lop/matq.c
@@ -99,24 +99,14 @@ extern cq_divmod_t cq_divmodx(
     cq_dimw_t x,
     cq_dim_t d)
 {
+    cq_divmodw_t w = cq_divmodw(x, d);
     cq_divmod_t v = {
-        .div = (cq_dim_t)(x / d),
-        .mod = (cq_dim_t)(x % d)
+        .div = (cq_dim_t)w.div,
+        .mod = (cq_dim_t)w.mod
     };
-    if ((v.mod + (v.div * d)) != x) {
+    if (v.div != w.div) {
         cq_fail("overflow in divide");
     }
-    if (v.mod >= 0) {
-        return v;
-    }
-    if (d >= 0) {
-        v.div -= 1;
-        v.mod += d;
-    }
-    else {
-        v.div += 1;
-        v.mod -= d;
-    }
     return v;
 }
 
-- 
2.43.0


From c56be2bf7dda4e64d012dfc2ac2f3a24d116e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 09/18] fix: do not return the operand of a lazy boolean
 operation whose result is empty

---
 src/hob3l/csg2-bool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/csg2-bool.c b/src/hob3l/csg2-bool.c
index 1887fe4..448dbd9 100644
--- a/src/hob3l/csg2-bool.c
+++ b/src/hob3l/csg2-bool.c
@@ -86,7 +86,8 @@ static void flatten_eager(
     if (r->size == 0) {
         return;
     }
-    if (r->size == 1) {
+    if ((r->size == 1) && ((r->comb.b[0] & 3) == 2)) {
+        /* only if the result is data[0] itself, i.e., not if it is empty */
         assert(r->data[0] != NULL);
         if (r->data[0]->type == CP_CSG2_SWEEP) {
             return;
-- 
2.43.0


From a1e2f01421237c89223de9c85678cef4dd990b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:35 +0000
Subject: [PATCH 10/18] fix: vector normalisation reports failure for vectors
 it cannot normalise

cp_vec*_unit() divides with cp_div0(), so vectors shorter than cp_eq_epsilon
became [0,0,0] while success was returned, e.g. cp_vec3_normal() then never
tried its fallback and large tilted ellipsoids were sliced wrongly.
---
 script/mkmat               | 2 +-
 src/hob3lmat/mat_gen_ext.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/script/mkmat b/script/mkmat
index 610e5cb..8bcf8e5 100755
--- a/script/mkmat
+++ b/script/mkmat
@@ -475,7 +475,7 @@ sub gen_unit_vec($$$)
     my $s = '';
     $s .= "    $tdim l = ${name}_len(a);\n";
     $s .= "    ${name}_div(r, a, l);\n";
-    $s .= "    return !X_sqr_eq(l,0);\n";
+    $s .= "    return !X_eq(l,0);\n";
     publish_extern($oc, $p, $s);
 }
 
diff --git a/src/hob3lmat/mat_gen_ext.c b/src/hob3lmat/mat_gen_ext.c
index 012f1d9..d0261f8 100644
--- a/src/hob3lmat/mat_gen_ext.c
+++ b/src/hob3lmat/mat_gen_ext.c
@@ -339,7 +339,7 @@ extern bool cp_vec2_unit(
 {
     double l = cp_vec2_len(a);
     cp_vec2_div(r, a, l);
-    return !cp_sqr_eq(l,0);
+    return !cp_eq(l,0);
 }
 
 extern bool cp_vec3_unit(
@@ -348,7 +348,7 @@ extern bool cp_vec3_unit(
 {
     double l = cp_vec3_len(a);
     cp_vec3_div(r, a, l);
-    return !cp_sqr_eq(l,0);
+    return !cp_eq(l,0);
 }
 
 extern bool cp_vec4_unit(
@@ -357,7 +357,7 @@ extern bool cp_vec4_unit(
 {
     double l = cp_vec4_len(a);
     cp_vec4_div(r, a, l);
-    return !cp_sqr_eq(l,0);
+    return !cp_eq(l,0);
 }
 
 extern void cp_vec2_lerp(
-- 
2.43.0


From 7d37eabccfc7c83721b7bc7e60ea873debb5b4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:52 +0000
Subject: [PATCH 11/18] fix: inverting into another object uses the determinant
 of the source

---
 script/mkmat               |  2 +-
 src/hob3lmat/mat_gen_ext.c | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/script/mkmat b/script/mkmat
index 8bcf8e5..acc585a 100755
--- a/script/mkmat
+++ b/script/mkmat
@@ -1443,7 +1443,7 @@ sub gen_inv_mati($$$)
     $s.= "        r->n = a->i;\n";
     $s.= "        r->i = a->n;\n";
     $s.= "    }\n";
-    $s.= "    r->d = X_div0(1, r->d);\n";
+    $s.= "    r->d = X_div0(1, a->d);\n";
     publish_extern($oc, $p, $s);
 }
 
diff --git a/src/hob3lmat/mat_gen_ext.c b/src/hob3lmat/mat_gen_ext.c
index d0261f8..ea1aef6 100644
--- a/src/hob3lmat/mat_gen_ext.c
+++ b/src/hob3lmat/mat_gen_ext.c
@@ -1142,7 +1142,7 @@ extern void cp_mat2i_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat2wi_inv(
@@ -1155,7 +1155,7 @@ extern void cp_mat2wi_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat3i_inv(
@@ -1168,7 +1168,7 @@ extern void cp_mat3i_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat3wi_inv(
@@ -1181,7 +1181,7 @@ extern void cp_mat3wi_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat4i_inv(
@@ -1194,5 +1194,5 @@ extern void cp_mat4i_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
-- 
2.43.0


From 90566695e8e906b74a1ee83799f138895b6c5f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:14 +0000
Subject: [PATCH 12/18] fix: rotating around an axis of length zero is the
 identity, not a shrinking by the cosine

---
 include/hob3lmat/mat_gen_inl.h | 30 ++++++++++++++++++++++++------
 script/mkmat                   |  5 ++++-
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/hob3lmat/mat_gen_inl.h b/include/hob3lmat/mat_gen_inl.h
index 3385ebd..b7d703d 100644
--- a/include/hob3lmat/mat_gen_inl.h
+++ b/include/hob3lmat/mat_gen_inl.h
@@ -1859,7 +1859,10 @@ static inline void cp_mat3_rot_v(
     cp_vec2_t const* sc)
 {
     cp_vec3_t u;
-    cp_vec3_unit(&u, v);
+    if (!cp_vec3_unit(&u, v)) {
+        cp_mat3_unit(r);
+        return;
+    }
     cp_mat3_rot_unit(r, &u, sc);
 }
 
@@ -1880,7 +1883,10 @@ static inline void cp_mat3w_rot_v(
     cp_vec2_t const* sc)
 {
     cp_vec3_t u;
-    cp_vec3_unit(&u, v);
+    if (!cp_vec3_unit(&u, v)) {
+        cp_mat3w_unit(r);
+        return;
+    }
     cp_mat3w_rot_unit(r, &u, sc);
 }
 
@@ -1901,7 +1907,10 @@ static inline void cp_mat3i_rot_v(
     cp_vec2_t const* sc)
 {
     cp_vec3_t u;
-    cp_vec3_unit(&u, v);
+    if (!cp_vec3_unit(&u, v)) {
+        cp_mat3i_unit(r);
+        return;
+    }
     cp_mat3i_rot_unit(r, &u, sc);
 }
 
@@ -1922,7 +1931,10 @@ static inline void cp_mat3wi_rot_v(
     cp_vec2_t const* sc)
 {
     cp_vec3_t u;
-    cp_vec3_unit(&u, v);
+    if (!cp_vec3_unit(&u, v)) {
+        cp_mat3wi_unit(r);
+        return;
+    }
     cp_mat3wi_rot_unit(r, &u, sc);
 }
 
@@ -1943,7 +1955,10 @@ static inline void cp_mat4_rot_v(
     cp_vec2_t const* sc)
 {
     cp_vec3_t u;
-    cp_vec3_unit(&u, v);
+    if (!cp_vec3_unit(&u, v)) {
+        cp_mat4_unit(r);
+        return;
+    }
     cp_mat4_rot_unit(r, &u, sc);
 }
 
@@ -1964,7 +1979,10 @@ static inline void cp_mat4i_rot_v(
     cp_vec2_t const* sc)
 {
     cp_vec3_t u;
-    cp_vec3_unit(&u, v);
+    if (!cp_vec3_unit(&u, v)) {
+        cp_mat4i_unit(r);
+        return;
+    }
     cp_mat4i_rot_unit(r, &u, sc);
 }
 
diff --git a/script/mkmat b/script/mkmat
index acc585a..26a765d 100755
--- a/script/mkmat
+++ b/script/mkmat
@@ -1098,7 +1098,10 @@ sub gen_rot_v_mat($$$)
     my $p = proto($t, 'void', $elem, r=>$t, v=>$vec3, sc=>$vec2);
     my $s = '';
     $s .= "    X_$t->{vecx}{name}_t u;\n";
-    $s .= "    X_$t->{vecx}{name}_unit(&u, v);\n";
+    $s .= "    if (!X_$t->{vecx}{name}_unit(&u, v)) {\n";
+    $s .= "        X_$t->{name}_unit(r);\n";
+    $s .= "        return;\n";
+    $s .= "    }\n";
     $s .= "    X_$t->{name}_rot_unit(r, &u, sc);\n";
     publish_inline($oc, $p, $s);
 }
-- 
2.43.0


From e398887ccb00e5a212c0993ab992edabd2fb8321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 13/18] fix: rotating -Z into Z is a rotation, not a reflection

---
 src/hob3lmat/algo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lmat/algo.c b/src/hob3lmat/algo.c
index af3b6a8..19afd9f 100644
--- a/src/hob3lmat/algo.c
+++ b/src/hob3lmat/algo.c
@@ -154,7 +154,7 @@ extern void cp_dim3_rot_unit_into_z(
     double z = u->z;
     if (cp_eq(x,0) && cp_eq(y,0)) {
         *r0 = CP_VEC3(1, 0, 0);
-        *r1 = CP_VEC3(0, 1, 0);
+        *r1 = CP_VEC3(0, z, 0);
         *r2 = CP_VEC3(0, 0, z);
         return;
     }
-- 
2.43.0


From 3c7cce5f47ad720ebecbf7e819b590019f56aa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:05 +0000
Subject: [PATCH 14/18] fix: locate a position at a line start on its own line

The comparison for looking up the line of a source position treated the
start of the next line as part of the current line, so depending on the
binary search path, an error in the first column was reported for the
line before.
---
 src/hob3l/syn-msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/syn-msg.c b/src/hob3l/syn-msg.c
index d5b62ba..5a1aaf5 100644
--- a/src/hob3l/syn-msg.c
+++ b/src/hob3l/syn-msg.c
@@ -17,7 +17,7 @@ static int cmp_line(
     /* We know that we can access the next array element,
      * because if we point to the last entry, we know that
      * key == elem[0] as the last line is empty. */
-    if (key > elem[1]) {
+    if (key >= elem[1]) {
         return +1;
     }
     return 0;
-- 
2.43.0


From e3219a02680ce853acbaa70e2014f17978d23900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:12 +0000
Subject: [PATCH 15/18] fix: keep the size when turning a vector into a heap

After making a heap, the vector had one element more than before,
reading beyond its end.
---
 src/hob3lbase/heap.c | 1 +
 src/hob3lbase/vec.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/hob3lbase/heap.c b/src/hob3lbase/heap.c
index d89a75d..ff3f094 100644
--- a/src/hob3lbase/heap.c
+++ b/src/hob3lbase/heap.c
@@ -108,6 +108,7 @@ extern void cp_heap_make_(
     for (vec->size = 2; vec->size <= size; vec->size++) {
         cp_heap_up_(vec, cmp, user, vec->size-1);
     }
+    vec->size = size;
 }
 
 /**
diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index bd269ee..9af1058 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -580,6 +580,7 @@ extern void cp_v_heap_make_(
     for (vec->size = 2; vec->size <= size; vec->size++) {
         cp_v_heap_up_(vec, esz, cmp, user, vec->size-1);
     }
+    vec->size = size;
 }
 
 /**
-- 
2.43.0


From 62d3919ff43cedb6bedb026fb86d58b580855172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:37 +0000
Subject: [PATCH 16/18] fix: include the first operand in the bounding box of
 an intersection

---
 src/hob3l/csg3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 4de6ad3..c548fb5 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -2379,7 +2379,7 @@ static void get_bb_cut(
     }
     else {
         cp_vec3_minmax_t bb2 = CP_VEC3_MINMAX_FULL;
-        for (cp_v_each(i, &r->cut, 1)) {
+        for (cp_v_each(i, &r->cut)) {
             cp_vec3_minmax_t bb3 = CP_VEC3_MINMAX_EMPTY;
             get_bb_add(&bb3, cp_v_nth(&r->cut,i), max);
             cp_vec3_minmax_and(&bb2, &bb2, &bb3);
-- 
2.43.0


From d8acf354cbcd199adfb883227dab101f59a090d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:38 +0000
Subject: [PATCH 17/18] fix: an empty intersection does not enlarge the
 bounding box

---
 src/hob3l/csg3.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index c548fb5..6161ec1 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -2387,7 +2387,9 @@ static void get_bb_cut(
                 break;
             }
         }
-        cp_vec3_minmax_or(bb, bb, &bb2);
+        if (cp_vec3_minmax_valid(&bb2)) {
+            cp_vec3_minmax_or(bb, bb, &bb2);
+        }
     }
 }
 
-- 
2.43.0


From 74e93bcf458677ab4137d485655d4f00b9a33bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:04 +0000
Subject: [PATCH 18/18] fix: intersection() with operands that yield nothing

When all but one child of intersection() produced no object (e.g. 'group() {}'
or an ignored '*' child), the assertion on the number of operands failed.
The only remaining operand is the result.
---
 src/hob3l/csg3.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 6161ec1..0e4b24d 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -256,6 +256,11 @@ static bool csg3_from_intersection(
     }
 
     csg3_cut_push_add(&cut, &add);
+    if (cut.size == 1) {
+        /* all other children yield nothing, e.g. 'group() {}' */
+        cp_v_append(r, &cp_v_nth(&cut, 0)->add);
+        return true;
+    }
     assert(cut.size >= 2);
 
     cp_csg_cut_t *o = cp_csg_new(*o, s->loc);
-- 
2.43.0

