From 38eb8c10727124d2758990104bd0db33ab4c7e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 01/64] fix: add/sub/mul of an i64 vector and an i32 atom read
 the atom as 8 bytes

---
 core/math.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/math.c b/core/math.c
index 09cbee2..8d91af4 100644
--- a/core/math.c
+++ b/core/math.c
@@ -387,6 +387,7 @@ obj_p ray_add_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, i64, timestamp, timestamp, ADDI64, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, ADDI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, ADDI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
@@ -702,6 +703,7 @@ obj_p ray_sub_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, i32, time, time, SUBI32, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, SUBI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, SUBI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
@@ -973,6 +975,7 @@ obj_p ray_mul_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, time, time, time, MULI32, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
-- 
2.43.0


From e180d1810d3a2244c490dd72e19e3545255b0fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 02/64] fix: mul of a b8 and an i64 vector stored 1-byte
 results into the i64 output

---
 core/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/math.c b/core/math.c
index 8d91af4..cb5d68a 100644
--- a/core/math.c
+++ b/core/math.c
@@ -998,7 +998,7 @@ obj_p ray_mul_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(TYPE_F64, -TYPE_F64):
             return __BINOP_V_A(x, y, f64, f64, f64, f64, MULF64, len, offset, out);
         case MTYPE2(TYPE_B8, TYPE_I64):
-            return __BINOP_V_V(x, y, b8, i64, b8, i64, MULI64, len, offset, out);
+            return __BINOP_V_V(x, y, b8, i64, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_B8):
             return __BINOP_V_V(x, y, i64, b8, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_F64, TYPE_I32):
-- 
2.43.0


From ee6b7aa85bcf5a09ddd574f07097e7588995004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 03/64] fix: div and mod of a time atom by i64 truncated the
 divisor to 32 bits

---
 core/math.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/math.c b/core/math.c
index cb5d68a..a946522 100644
--- a/core/math.c
+++ b/core/math.c
@@ -1221,13 +1221,13 @@ obj_p ray_div_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_TIME, -TYPE_I32):
             return atime(DIVI32(x->i32, y->i32));
         case MTYPE2(-TYPE_TIME, -TYPE_I64):
-            return atime(DIVI32(x->i32, i64_to_i32(y->i64)));
+            return atime(i64_to_i32(DIVI64(i32_to_i64(x->i32), y->i64)));
         case MTYPE2(-TYPE_TIME, -TYPE_F64):
             return atime(f64_to_i32(DIVF64(i32_to_f64(x->i32), y->f64)));
         case MTYPE2(-TYPE_TIME, TYPE_I32):
             return __BINOP_A_V(x, y, time, i32, time, time, DIVI32, len, offset, out);
         case MTYPE2(-TYPE_TIME, TYPE_I64):
-            return __BINOP_A_V(x, y, time, i64, time, time, DIVI32, len, offset, out);
+            return __BINOP_A_V(x, y, time, i64, time, i64, DIVI64, len, offset, out);
         case MTYPE2(-TYPE_TIME, TYPE_F64):
             return __BINOP_A_V(x, y, time, f64, time, f64, DIVF64, len, offset, out);
         case MTYPE2(TYPE_TIME, -TYPE_I32):
@@ -1532,11 +1532,11 @@ obj_p ray_mod_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_TIME, -TYPE_I32):
             return atime(MODI32(x->i32, y->i32));
         case MTYPE2(-TYPE_TIME, -TYPE_I64):
-            return atime(MODI32(x->i32, i64_to_i32(y->i64)));
+            return atime(i64_to_i32(MODI64(i32_to_i64(x->i32), y->i64)));
         case MTYPE2(-TYPE_TIME, TYPE_I32):
             return __BINOP_A_V(x, y, time, i32, time, time, MODI32, len, offset, out);
         case MTYPE2(-TYPE_TIME, TYPE_I64):
-            return __BINOP_A_V(x, y, time, i64, time, time, MODI32, len, offset, out);
+            return __BINOP_A_V(x, y, time, i64, time, i64, MODI64, len, offset, out);
         case MTYPE2(TYPE_TIME, -TYPE_I32):
             return __BINOP_V_A(x, y, time, i32, time, time, MODI32, len, offset, out);
         case MTYPE2(TYPE_TIME, -TYPE_I64):
-- 
2.43.0


From e7cd90a6ddc5ac269ab3ae9cd64e8a93188c2fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 04/64] fix: float division compared f64 operands with the i64
 null

---
 core/math.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/core/math.c b/core/math.c
index a946522..5e52ac1 100644
--- a/core/math.c
+++ b/core/math.c
@@ -1374,9 +1374,9 @@ obj_p ray_fdiv_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_I32, -TYPE_F64):
             return f64(FDIVF64(i32_to_f64(x->i32), y->f64));
         case MTYPE2(-TYPE_I32, TYPE_I32):
-            return __BINOP_A_V(x, y, i32, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i32, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I32, TYPE_I64):
-            return __BINOP_A_V(x, y, i32, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i32, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I32, TYPE_F64):
             return __BINOP_A_V(x, y, i32, f64, f64, f64, FDIVF64, len, offset, out);
 
@@ -1385,13 +1385,13 @@ obj_p ray_fdiv_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_I64, -TYPE_I64):
             return f64(FDIVI64(x->i64, y->i64));
         case MTYPE2(-TYPE_I64, -TYPE_F64):
-            return f64(FDIVI64(x->i64, y->f64));
+            return f64(FDIVF64(i64_to_f64(x->i64), y->f64));
         case MTYPE2(-TYPE_I64, TYPE_I32):
-            return __BINOP_A_V(x, y, i64, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i64, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I64, TYPE_I64):
-            return __BINOP_A_V(x, y, i64, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i64, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I64, TYPE_F64):
-            return __BINOP_A_V(x, y, i64, f64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i64, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(-TYPE_F64, -TYPE_I32):
             return f64(FDIVF64(x->f64, i32_to_f64(y->i32)));
@@ -1407,30 +1407,30 @@ obj_p ray_fdiv_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_A_V(x, y, f64, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(TYPE_I32, -TYPE_I32):
-            return __BINOP_V_A(x, y, i32, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i32, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, -TYPE_I64):
-            return __BINOP_V_A(x, y, i32, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i32, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, -TYPE_F64):
             return __BINOP_V_A(x, y, i32, f64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, TYPE_I32):
-            return __BINOP_V_V(x, y, i32, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i32, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, TYPE_I64):
-            return __BINOP_V_V(x, y, i32, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i32, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, TYPE_F64):
             return __BINOP_V_V(x, y, i32, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
-            return __BINOP_V_A(x, y, i64, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i64, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
-            return __BINOP_V_A(x, y, i64, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i64, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
-            return __BINOP_V_A(x, y, i64, f64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i64, f64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_I32):
-            return __BINOP_V_V(x, y, i64, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i64, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_I64):
-            return __BINOP_V_V(x, y, i64, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i64, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_F64):
-            return __BINOP_V_V(x, y, i64, f64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i64, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(TYPE_F64, -TYPE_I32):
             return __BINOP_V_A(x, y, f64, i32, f64, f64, FDIVF64, len, offset, out);
-- 
2.43.0


From e8ddc11696955d9ebc8bac67b225f863e5a8bc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 05/64] fix: xbar of a timestamp atom by a time atom checked
 for the i32 null

---
 core/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/math.c b/core/math.c
index 5e52ac1..1afb4e4 100644
--- a/core/math.c
+++ b/core/math.c
@@ -1759,7 +1759,7 @@ obj_p ray_xbar_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I64):
             return timestamp(XBARI64(x->i64, y->i64));
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_TIME):
-            return timestamp(XBARI32(x->i64, timestamp_to_i64(time_to_timestamp(y->i32))));
+            return timestamp(XBARI64(x->i64, timestamp_to_i64(time_to_timestamp(y->i32))));
         case MTYPE2(-TYPE_TIMESTAMP, TYPE_I32):
             return __BINOP_A_V(x, y, i64, i32, timestamp, timestamp, XBARI64, len, offset, out);
         case MTYPE2(-TYPE_TIMESTAMP, TYPE_I64):
-- 
2.43.0


From 58b9d06cd7469601832dde29b4124f080b6118e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 06/64] fix: xbar of a negative value overflowed for wide bars

---
 core/ops.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ops.h b/core/ops.h
index 73a3259..c224f24 100644
--- a/core/ops.h
+++ b/core/ops.h
@@ -191,9 +191,9 @@ extern struct obj_t __ERR_OBJ;
 #define FLOORF64(x) ((ISNANF64((x))) ? NULL_F64 : (((x) < 0.0 && (i64_t)(x) != (x)) ? (i64_t)(x) - 1.0 : (i64_t)(x)))
 #define CEILF64(x) ((ISNANF64((x))) ? NULL_F64 : (-FLOORF64(-(x))))
 #define XBARI32(x, y) \
-    (((y) == 0 || (x) == NULL_I32 || (y) == NULL_I32) ? NULL_I32 : (((x < 0) ? (x + 1 - y) : (x)) / (y) * (y)))
+    (((y) == 0 || (x) == NULL_I32 || (y) == NULL_I32) ? NULL_I32 : (EUCL_DIV((x), (y)) * (y)))
 #define XBARI64(x, y) \
-    (((y) == 0 || (x) == NULL_I64 || (y) == NULL_I64) ? NULL_I64 : (((x < 0) ? (x + 1 - y) : (x)) / (y) * (y)))
+    (((y) == 0 || (x) == NULL_I64 || (y) == NULL_I64) ? NULL_I64 : (EUCL_DIV((x), (y)) * (y)))
 #define XBARF64(x, y) (FLOORF64((x) / (y)) * (y))
 
 // Function types
-- 
2.43.0


From 5c295ebde6f105d3d56657f48a67938aa931f7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 07/64] fix: round, floor and ceil of f64 values outside the
 i64 range

---
 core/ops.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/ops.h b/core/ops.h
index c224f24..d683c7c 100644
--- a/core/ops.h
+++ b/core/ops.h
@@ -24,6 +24,7 @@
 #ifndef OPS_H
 #define OPS_H
 
+#include <math.h>
 #include "rayforce.h"
 #include "temporal.h"
 #include "string.h"
@@ -187,9 +188,9 @@ extern struct obj_t __ERR_OBJ;
 #define MINF64(x, y) (ISNANF64((x)) ? (y) : ISNANF64((y)) ? (x) : ((x) < (y) ? (x) : (y)))
 #define ROTI32(x, y) (((x) << (y)) | ((x) >> (32 - (y))))
 #define ROTI64(x, y) (((x) << (y)) | ((x) >> (64 - (y))))
-#define ROUNDF64(x) ((ISNANF64((x))) ? NULL_F64 : ((x) >= 0.0 ? (i64_t)((x) + 0.5) : (i64_t)((x) - 0.5)))
-#define FLOORF64(x) ((ISNANF64((x))) ? NULL_F64 : (((x) < 0.0 && (i64_t)(x) != (x)) ? (i64_t)(x) - 1.0 : (i64_t)(x)))
-#define CEILF64(x) ((ISNANF64((x))) ? NULL_F64 : (-FLOORF64(-(x))))
+#define ROUNDF64(x) ((ISNANF64((x))) ? NULL_F64 : ((x) >= 0.0 ? floor((x) + 0.5) : ceil((x) - 0.5)))
+#define FLOORF64(x) ((ISNANF64((x))) ? NULL_F64 : floor((x)))
+#define CEILF64(x) ((ISNANF64((x))) ? NULL_F64 : ceil((x)))
 #define XBARI32(x, y) \
     (((y) == 0 || (x) == NULL_I32 || (y) == NULL_I32) ? NULL_I32 : (EUCL_DIV((x), (y)) * (y)))
 #define XBARI64(x, y) \
-- 
2.43.0


From d8219ebbac4fd3e9fa89b03553b47946e6aa5e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 08/64] fix: f64 xbar by zero is null, as for the integer types

---
 core/ops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ops.h b/core/ops.h
index d683c7c..87ef3c8 100644
--- a/core/ops.h
+++ b/core/ops.h
@@ -195,7 +195,7 @@ extern struct obj_t __ERR_OBJ;
     (((y) == 0 || (x) == NULL_I32 || (y) == NULL_I32) ? NULL_I32 : (EUCL_DIV((x), (y)) * (y)))
 #define XBARI64(x, y) \
     (((y) == 0 || (x) == NULL_I64 || (y) == NULL_I64) ? NULL_I64 : (EUCL_DIV((x), (y)) * (y)))
-#define XBARF64(x, y) (FLOORF64((x) / (y)) * (y))
+#define XBARF64(x, y) ((y) == 0.0 || ISNANF64(x) || ISNANF64(y) ? NULL_F64 : (FEUCL_DIV((x), (y)) * (y)))
 
 // Function types
 typedef u64_t (*hash_f)(i64_t, raw_p);
-- 
2.43.0


From fbb55189894b737110919068efeb62d079608c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 09/64] fix: guid comparison ignored the chunk offset of its
 operands

---
 core/cmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index 029e0e2..5ca4c10 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -311,17 +311,17 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
             case MTYPE2(-TYPE_GUID, TYPE_GUID):                                                \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[0], AS_GUID(y)[i]);                           \
+                    out[i] = op##GUID(AS_GUID(x)[0], AS_GUID(y)[offset + i]);                  \
                 return res;                                                                    \
             case MTYPE2(TYPE_GUID, -TYPE_GUID):                                                \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[0]);                           \
+                    out[i] = op##GUID(AS_GUID(x)[offset + i], AS_GUID(y)[0]);                  \
                 return res;                                                                    \
             case MTYPE2(TYPE_GUID, TYPE_GUID):                                                 \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[i]);                           \
+                    out[i] = op##GUID(AS_GUID(x)[offset + i], AS_GUID(y)[offset + i]);         \
                 return res;                                                                    \
             case MTYPE2(TYPE_ERR, TYPE_ERR):                                                   \
                 return b8(cmp_obj(x, y) == 0);                                                 \
-- 
2.43.0


From 538e5c121fb2f0b3335c8e10c1d7d94185628af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 10/64] fix: date and timestamp atoms were compared as floats

---
 core/cmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index 5ca4c10..7d4da15 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -241,7 +241,7 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                 return __CMP_V_V(x, y, f64, f64, f64, op##F64, len, offset, res);              \
                                                                                                \
             case MTYPE2(-TYPE_DATE, -TYPE_TIMESTAMP):                                          \
-                return b8(op##F64(date_to_timestamp(x->i32), y->i64));                         \
+                return b8(op##I64(date_to_timestamp(x->i32), y->i64));                         \
             case MTYPE2(-TYPE_DATE, TYPE_TIMESTAMP):                                           \
                 return __CMP_A_V(x, y, date, timestamp, timestamp, op##I64, len, offset, res); \
             case MTYPE2(TYPE_DATE, -TYPE_TIMESTAMP):                                           \
@@ -249,7 +249,7 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
             case MTYPE2(TYPE_DATE, TYPE_TIMESTAMP):                                            \
                 return __CMP_V_V(x, y, date, timestamp, timestamp, op##I64, len, offset, res); \
             case MTYPE2(-TYPE_TIMESTAMP, -TYPE_DATE):                                          \
-                return b8(op##F64(x->i64, date_to_timestamp(y->i32)));                         \
+                return b8(op##I64(x->i64, date_to_timestamp(y->i32)));                         \
             case MTYPE2(-TYPE_TIMESTAMP, TYPE_DATE):                                           \
                 return __CMP_A_V(x, y, timestamp, date, timestamp, op##I64, len, offset, res); \
             case MTYPE2(TYPE_TIMESTAMP, -TYPE_DATE):                                           \
-- 
2.43.0


From 21bbe13e102525cc384002962b26d7e38b81df9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 11/64] fix: comparison with a mapcommon right operand wrote
 through the null object

---
 core/cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cmp.c b/core/cmp.c
index 7d4da15..ad7efc1 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -359,7 +359,7 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     } else if (y->type == TYPE_MAPCOMMON) {
         l = AS_LIST(y)[0]->len;
         res = B8(l);
-        v = cmp_fn(x, AS_LIST(y)[0], l, 0, NULL_OBJ);
+        v = cmp_fn(x, AS_LIST(y)[0], l, 0, res);
         if (IS_ERR(v)) {
             drop_obj(res);
             return v;
-- 
2.43.0


From f112e8dda6444aaf71ac3c8f0424651705d2c45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 12/64] fix: comparisons of enums with symbols ignored the
 operator, the positions and the enum's length

---
 core/cmp.c | 88 ++++++++++++++++++++----------------------------------
 1 file changed, 32 insertions(+), 56 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index ad7efc1..10f1af7 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -67,12 +67,29 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
         NULL_OBJ;                                                          \
     })
 
+// Compares the symbols of an enum with another operand, expr sees the domain $sym, the indices $idx and the position $i
+#define __CMP_ENUM(en, expr, ln, of, ov)                       \
+    ({                                                         \
+        obj_p $k = ray_key(en), $dom = ray_get($k), $res;      \
+        drop_obj($k);                                          \
+        if (is_null($dom) || $dom->type != TYPE_SYMBOL)        \
+            $res = err_type(0, 0, 0, 0);                       \
+        else {                                                 \
+            i64_t *$sym = AS_SYMBOL($dom);                     \
+            i64_t *$idx = AS_I64(ENUM_VAL(en)) + of;           \
+            b8_t *$out = AS_B8(ov) + of;                       \
+            for (i64_t $i = 0; $i < ln; $i++)                  \
+                $out[$i] = expr;                               \
+            $res = NULL_OBJ;                                   \
+        }                                                      \
+        drop_obj($dom);                                        \
+        $res;                                                  \
+    })
+
 #define __DECLARE_CMP_FN(op)                                                                   \
     obj_p ray_##op##_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p res) {           \
         i64_t i;                                                                               \
-        i64_t *xi, *ei, si;                                                                    \
         b8_t *out;                                                                             \
-        obj_p k, sym, e;                                                                       \
                                                                                                \
         switch (MTYPE2(x->type, y->type)) {                                                    \
             case MTYPE2(-TYPE_B8, -TYPE_B8):                                                   \
@@ -257,55 +274,15 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
             case MTYPE2(TYPE_TIMESTAMP, TYPE_DATE):                                            \
                 return __CMP_V_V(x, y, timestamp, date, timestamp, op##I64, len, offset, res); \
                                                                                                \
-            case MTYPE2(TYPE_ENUM, -TYPE_SYMBOL):                                              \
-                k = ray_key(x);                                                                \
-                sym = ray_get(k);                                                              \
-                drop_obj(k);                                                                   \
-                                                                                               \
-                e = ENUM_VAL(x);                                                               \
-                                                                                               \
-                if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
-                    drop_obj(sym);                                                             \
-                    return err_type(0, 0, 0, 0);                                       \
-                }                                                                              \
-                                                                                               \
-                xi = AS_I64(sym);                                                              \
-                ei = AS_I64(e) + offset;                                                       \
-                si = y->i64;                                                                   \
-                out = AS_B8(res) + offset;                                                     \
-                                                                                               \
-                for (i = 0; i < len; i++)                                                      \
-                    out[i] = xi[ei[i]] == si;                                                  \
-                                                                                               \
-                drop_obj(sym);                                                                 \
-                return res;                                                                    \
-            case MTYPE2(-TYPE_SYMBOL, TYPE_ENUM):                                              \
-                return ray_##op##_partial(y, x, len, offset, res);                             \
-            case MTYPE2(TYPE_ENUM, TYPE_SYMBOL):                                               \
-                k = ray_key(y);                                                                \
-                sym = ray_get(k);                                                              \
-                drop_obj(k);                                                                   \
-                                                                                               \
-                e = ENUM_VAL(y);                                                               \
-                                                                                               \
-                if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
-                    drop_obj(sym);                                                             \
-                    return err_type(0, 0, 0, 0);                                       \
-                }                                                                              \
-                                                                                               \
-                xi = AS_I64(x);                                                                \
-                ei = AS_I64(e) + offset;                                                       \
-                si = sym->i64;                                                                 \
-                out = AS_B8(res) + offset;                                                     \
-                                                                                               \
-                for (i = 0; i < len; i++)                                                      \
-                    out[i] = xi[i] == ei[si];                                                  \
-                                                                                               \
-                drop_obj(sym);                                                                 \
-                return res;                                                                    \
-            case MTYPE2(TYPE_SYMBOL, TYPE_ENUM):                                               \
-                return ray_##op##_partial(y, x, len, offset, res);                             \
-                                                                                               \
+            case MTYPE2(TYPE_ENUM, -TYPE_SYMBOL):                                                  \
+                return __CMP_ENUM(x, op##I64($sym[$idx[$i]], y->i64), len, offset, res);           \
+            case MTYPE2(-TYPE_SYMBOL, TYPE_ENUM):                                                  \
+                return __CMP_ENUM(y, op##I64(x->i64, $sym[$idx[$i]]), len, offset, res);           \
+            case MTYPE2(TYPE_ENUM, TYPE_SYMBOL):                                                   \
+                return __CMP_ENUM(x, op##I64($sym[$idx[$i]], AS_SYMBOL(y)[offset + $i]), len, offset, res);\
+            case MTYPE2(TYPE_SYMBOL, TYPE_ENUM):                                                   \
+                return __CMP_ENUM(y, op##I64(AS_SYMBOL(x)[offset + $i], $sym[$idx[$i]]), len, offset, res);\
+                                                                                                   \
             case MTYPE2(-TYPE_GUID, -TYPE_GUID):                                               \
                 return b8(op##GUID(AS_GUID(x)[0], AS_GUID(y)[0]));                             \
             case MTYPE2(-TYPE_GUID, TYPE_GUID):                                                \
@@ -631,14 +608,13 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     }
 
     if (IS_VECTOR(x) && IS_VECTOR(y)) {
-        if (x->len != y->len)
+        l = ops_count(x);
+        if (l != ops_count(y))
             return err_length(0, 0, 0, 0, 0, 0);
-
-        l = x->len;
     } else if (IS_VECTOR(x))
-        l = x->len;
+        l = ops_count(x);
     else if (IS_VECTOR(y))
-        l = y->len;
+        l = ops_count(y);
     else {
         return cmp_fn(x, y, 1, 0, NULL_OBJ);
     }
-- 
2.43.0


From 18b27dc5b7f0af9bb0ff41cc4fbac65e681ec949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 13/64] fix: date and time of a timestamp before 2000 rounded
 towards zero

---
 core/ops.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/ops.h b/core/ops.h
index 87ef3c8..a15092d 100644
--- a/core/ops.h
+++ b/core/ops.h
@@ -271,9 +271,12 @@ static inline i64_t time_to_timestamp(i32_t x) { return (x == NULL_I32) ? NULL_I
 static inline i32_t timestamp_to_i32(i64_t x) { return (x == NULL_I64) ? NULL_I32 : (i32_t)x; }
 static inline i64_t timestamp_to_i64(i64_t x) { return x; }
 static inline f64_t timestamp_to_f64(i64_t x) { return (x == NULL_I64) ? NULL_F64 : (f64_t)x; }
-static inline i32_t timestamp_to_date(i64_t x) { return (x == NULL_I64) ? NULL_I32 : (i32_t)(x / NANOS_FROM_DAY); }
+static inline i32_t timestamp_to_date(i64_t x) {
+    return (x == NULL_I64) ? NULL_I32 : (i32_t)(x / NANOS_FROM_DAY - (x % NANOS_FROM_DAY < 0));
+}
 static inline i32_t timestamp_to_time(i64_t x) {
-    return (x == NULL_I64) ? NULL_I32 : (i32_t)(x % NANOS_FROM_DAY / NANOS_FROM_MILLIS);
+    i64_t r = x % NANOS_FROM_DAY;
+    return (x == NULL_I64) ? NULL_I32 : (i32_t)((r < 0 ? r + NANOS_FROM_DAY : r) / NANOS_FROM_MILLIS);
 }
 static inline i64_t timestamp_to_timestamp(i64_t x) { return x; }
 
-- 
2.43.0


From 151e88d0ab893341652479e157e8994712da9d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 14/64] fix: casts between numeric types turned null into an
 ordinary number

---
 core/ops.h      |  1 +
 core/rayforce.c | 66 ++++++++++++++++++++++++-------------------------
 2 files changed, 34 insertions(+), 33 deletions(-)

diff --git a/core/ops.h b/core/ops.h
index a15092d..cf1fa2e 100644
--- a/core/ops.h
+++ b/core/ops.h
@@ -252,6 +252,7 @@ static inline f64_t i64_to_f64(i64_t x) { return (x == NULL_I64) ? NULL_F64 : (f
 static inline i32_t i64_to_date(i64_t x) { return (x == NULL_I64) ? NULL_I32 : (i32_t)x; }
 static inline i32_t i64_to_time(i64_t x) { return (x == NULL_I64) ? NULL_I32 : (i32_t)x; }
 static inline i64_t i64_to_timestamp(i64_t x) { return x; }
+static inline i16_t f64_to_i16(f64_t x) { return ISNANF64(x) ? NULL_I16 : (i16_t)x; }
 static inline i32_t f64_to_i32(f64_t x) { return ISNANF64(x) ? NULL_I32 : (i32_t)x; }
 static inline i64_t f64_to_i64(f64_t x) { return ISNANF64(x) ? NULL_I64 : (i64_t)x; }
 static inline f64_t f64_to_f64(f64_t x) { return x; }
diff --git a/core/rayforce.c b/core/rayforce.c
index bba4d0f..42a1468 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2382,12 +2382,12 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_I16, -TYPE_I32):
         case MTYPE2(-TYPE_I16, -TYPE_DATE):
         case MTYPE2(-TYPE_I16, -TYPE_TIME):
-            return i16(obj->i32);
+            return i16(i32_to_i16(obj->i32));
         case MTYPE2(-TYPE_I16, -TYPE_I64):
         case MTYPE2(-TYPE_I16, -TYPE_TIMESTAMP):
-            return i16(obj->i64);
+            return i16(i64_to_i16(obj->i64));
         case MTYPE2(-TYPE_I16, -TYPE_F64):
-            return i16((i16_t)obj->f64);
+            return i16(f64_to_i16(obj->f64));
 
         // I32 atom conversions
         case MTYPE2(-TYPE_I32, -TYPE_B8):
@@ -2395,15 +2395,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_I32, -TYPE_U8):
             return i32(obj->u8);
         case MTYPE2(-TYPE_I32, -TYPE_I16):
-            return i32(obj->i16);
+            return i32(i16_to_i32(obj->i16));
         case MTYPE2(-TYPE_I32, -TYPE_I64):
         case MTYPE2(-TYPE_I32, -TYPE_TIMESTAMP):
-            return i32(obj->i64);
+            return i32(i64_to_i32(obj->i64));
         case MTYPE2(-TYPE_I32, -TYPE_TIME):
         case MTYPE2(-TYPE_I32, -TYPE_DATE):
             return i32(obj->i32);
         case MTYPE2(-TYPE_I32, -TYPE_F64):
-            return i32((i32_t)obj->f64);
+            return i32(f64_to_i32(obj->f64));
 
         // I64 atom conversions
         case MTYPE2(-TYPE_I64, -TYPE_B8):
@@ -2411,15 +2411,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_I64, -TYPE_U8):
             return i64(obj->u8);
         case MTYPE2(-TYPE_I64, -TYPE_I16):
-            return i64(obj->i16);
+            return i64(i16_to_i64(obj->i16));
         case MTYPE2(-TYPE_I64, -TYPE_I32):
         case MTYPE2(-TYPE_I64, -TYPE_TIME):
         case MTYPE2(-TYPE_I64, -TYPE_DATE):
-            return i64(obj->i32);
+            return i64(i32_to_i64(obj->i32));
         case MTYPE2(-TYPE_I64, -TYPE_TIMESTAMP):
             return i64(obj->i64);
         case MTYPE2(-TYPE_I64, -TYPE_F64):
-            return i64((i64_t)obj->f64);
+            return i64(f64_to_i64(obj->f64));
 
         // F64 atom conversions
         case MTYPE2(-TYPE_F64, -TYPE_B8):
@@ -2427,14 +2427,14 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_F64, -TYPE_U8):
             return f64((f64_t)obj->u8);
         case MTYPE2(-TYPE_F64, -TYPE_I16):
-            return f64((f64_t)obj->i16);
+            return f64(i16_to_f64(obj->i16));
         case MTYPE2(-TYPE_F64, -TYPE_I32):
         case MTYPE2(-TYPE_F64, -TYPE_DATE):
         case MTYPE2(-TYPE_F64, -TYPE_TIME):
-            return f64((f64_t)obj->i32);
+            return f64(i32_to_f64(obj->i32));
         case MTYPE2(-TYPE_F64, -TYPE_I64):
         case MTYPE2(-TYPE_F64, -TYPE_TIMESTAMP):
-            return f64((f64_t)obj->i64);
+            return f64(i64_to_f64(obj->i64));
 
         // DATE atom conversions
         case MTYPE2(-TYPE_DATE, -TYPE_B8):
@@ -2442,15 +2442,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_DATE, -TYPE_U8):
             return adate(obj->u8);
         case MTYPE2(-TYPE_DATE, -TYPE_I16):
-            return adate(obj->i16);
+            return adate(i16_to_i32(obj->i16));
         case MTYPE2(-TYPE_DATE, -TYPE_I32):
         case MTYPE2(-TYPE_DATE, -TYPE_TIME):
             return adate(obj->i32);
         case MTYPE2(-TYPE_DATE, -TYPE_I64):
         case MTYPE2(-TYPE_DATE, -TYPE_TIMESTAMP):
-            return adate((i32_t)obj->i64);
+            return adate(i64_to_i32(obj->i64));
         case MTYPE2(-TYPE_DATE, -TYPE_F64):
-            return adate((i32_t)obj->f64);
+            return adate(f64_to_i32(obj->f64));
 
         // TIME atom conversions
         case MTYPE2(-TYPE_TIME, -TYPE_B8):
@@ -2458,15 +2458,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_TIME, -TYPE_U8):
             return atime(obj->u8);
         case MTYPE2(-TYPE_TIME, -TYPE_I16):
-            return atime(obj->i16);
+            return atime(i16_to_i32(obj->i16));
         case MTYPE2(-TYPE_TIME, -TYPE_I32):
         case MTYPE2(-TYPE_TIME, -TYPE_DATE):
             return atime(obj->i32);
         case MTYPE2(-TYPE_TIME, -TYPE_I64):
         case MTYPE2(-TYPE_TIME, -TYPE_TIMESTAMP):
-            return atime((i32_t)obj->i64);
+            return atime(i64_to_i32(obj->i64));
         case MTYPE2(-TYPE_TIME, -TYPE_F64):
-            return atime((i32_t)obj->f64);
+            return atime(f64_to_i32(obj->f64));
 
         // TIMESTAMP atom conversions
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_B8):
@@ -2474,15 +2474,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_U8):
             return timestamp((i64_t)obj->u8);
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I16):
-            return timestamp((i64_t)obj->i16);
+            return timestamp(i16_to_i64(obj->i16));
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I32):
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_DATE):
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_TIME):
-            return timestamp((i64_t)obj->i32);
+            return timestamp(i32_to_i64(obj->i32));
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I64):
             return timestamp(obj->i64);
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_F64):
-            return timestamp((i64_t)obj->f64);
+            return timestamp(f64_to_i64(obj->f64));
 
         // SYMBOL atom conversions
         case MTYPE2(-TYPE_SYMBOL, -TYPE_B8):
@@ -2608,20 +2608,20 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = I16(l);
             for (i = 0; i < l; i++)
-                AS_I16(res)[i] = (i16_t)AS_I32(obj)[i];
+                AS_I16(res)[i] = i32_to_i16(AS_I32(obj)[i]);
             return res;
         case MTYPE2(TYPE_I16, TYPE_I64):
         case MTYPE2(TYPE_I16, TYPE_TIMESTAMP):
             l = obj->len;
             res = I16(l);
             for (i = 0; i < l; i++)
-                AS_I16(res)[i] = (i16_t)AS_I64(obj)[i];
+                AS_I16(res)[i] = i64_to_i16(AS_I64(obj)[i]);
             return res;
         case MTYPE2(TYPE_I16, TYPE_F64):
             l = obj->len;
             res = I16(l);
             for (i = 0; i < l; i++)
-                AS_I16(res)[i] = (i16_t)AS_F64(obj)[i];
+                AS_I16(res)[i] = f64_to_i16(AS_F64(obj)[i]);
             return res;
 
         // I32/DATE/TIME vector conversions (all use i32 storage)
@@ -2642,7 +2642,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I32(res)[i] = (i32_t)AS_I16(obj)[i];
+                AS_I32(res)[i] = i16_to_i32(AS_I16(obj)[i]);
             return res;
         case MTYPE2(TYPE_I32, TYPE_I64):
         case MTYPE2(TYPE_I32, TYPE_TIMESTAMP):
@@ -2653,7 +2653,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I32(res)[i] = (i32_t)AS_I64(obj)[i];
+                AS_I32(res)[i] = i64_to_i32(AS_I64(obj)[i]);
             return res;
         case MTYPE2(TYPE_I32, TYPE_DATE):
         case MTYPE2(TYPE_I32, TYPE_TIME):
@@ -2672,7 +2672,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I32(res)[i] = (i32_t)AS_F64(obj)[i];
+                AS_I32(res)[i] = f64_to_i32(AS_F64(obj)[i]);
             return res;
 
         // I64/TIMESTAMP vector conversions (all use i64 storage)
@@ -2690,7 +2690,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = (i64_t)AS_I16(obj)[i];
+                AS_I64(res)[i] = i16_to_i64(AS_I16(obj)[i]);
             return res;
         case MTYPE2(TYPE_I64, TYPE_I32):
         case MTYPE2(TYPE_I64, TYPE_DATE):
@@ -2701,14 +2701,14 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = (i64_t)AS_I32(obj)[i];
+                AS_I64(res)[i] = i32_to_i64(AS_I32(obj)[i]);
             return res;
         case MTYPE2(TYPE_I64, TYPE_F64):
         case MTYPE2(TYPE_TIMESTAMP, TYPE_F64):
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = (i64_t)AS_F64(obj)[i];
+                AS_I64(res)[i] = f64_to_i64(AS_F64(obj)[i]);
             return res;
         case MTYPE2(TYPE_I64, TYPE_TIMESTAMP):
         case MTYPE2(TYPE_TIMESTAMP, TYPE_I64):
@@ -2730,7 +2730,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = F64(l);
             for (i = 0; i < l; i++)
-                AS_F64(res)[i] = (f64_t)AS_I16(obj)[i];
+                AS_F64(res)[i] = i16_to_f64(AS_I16(obj)[i]);
             return res;
         case MTYPE2(TYPE_F64, TYPE_I32):
         case MTYPE2(TYPE_F64, TYPE_DATE):
@@ -2738,14 +2738,14 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = F64(l);
             for (i = 0; i < l; i++)
-                AS_F64(res)[i] = (f64_t)AS_I32(obj)[i];
+                AS_F64(res)[i] = i32_to_f64(AS_I32(obj)[i]);
             return res;
         case MTYPE2(TYPE_F64, TYPE_I64):
         case MTYPE2(TYPE_F64, TYPE_TIMESTAMP):
             l = obj->len;
             res = F64(l);
             for (i = 0; i < l; i++)
-                AS_F64(res)[i] = (f64_t)AS_I64(obj)[i];
+                AS_F64(res)[i] = i64_to_f64(AS_I64(obj)[i]);
             return res;
 
         // SYMBOL vector conversion from I64
-- 
2.43.0


From 23330837263c1480b23a323e7b7813ccb3106c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 15/64] fix: casting a vector to booleans kept the low byte
 instead of the truth value

---
 core/rayforce.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 42a1468..ca538e7 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2561,7 +2561,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_I16(obj)[i];
+                AS_U8(res)[i] = (type == TYPE_B8) ? AS_I16(obj)[i] != 0 : (u8_t)AS_I16(obj)[i];
             return res;
         case MTYPE2(TYPE_B8, TYPE_I32):
         case MTYPE2(TYPE_B8, TYPE_DATE):
@@ -2573,7 +2573,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_I32(obj)[i];
+                AS_U8(res)[i] = (type == TYPE_B8) ? AS_I32(obj)[i] != 0 : (u8_t)AS_I32(obj)[i];
             return res;
         case MTYPE2(TYPE_B8, TYPE_I64):
         case MTYPE2(TYPE_B8, TYPE_TIMESTAMP):
@@ -2583,7 +2583,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_I64(obj)[i];
+                AS_U8(res)[i] = (type == TYPE_B8) ? AS_I64(obj)[i] != 0 : (u8_t)AS_I64(obj)[i];
             return res;
         case MTYPE2(TYPE_B8, TYPE_F64):
         case MTYPE2(TYPE_U8, TYPE_F64):
@@ -2591,7 +2591,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_F64(obj)[i];
+                AS_U8(res)[i] = (type == TYPE_B8) ? AS_F64(obj)[i] != 0 : (u8_t)AS_F64(obj)[i];
             return res;
 
         // I16 vector conversions
-- 
2.43.0


From d70f0b2ee5213a74388d173ca210f429b6ad6208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 16/64] fix: a null date became a day number

---
 core/date.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/date.c b/core/date.c
index 5371770..5d20ab0 100644
--- a/core/date.c
+++ b/core/date.c
@@ -125,6 +125,9 @@ datestruct_t date_from_str(str_p src, i64_t len) {
 i32_t date_into_i32(datestruct_t dt) {
     i64_t leap, mdays, yy, mm, dd, ydays;
 
+    if (dt.null)
+        return NULL_I32;
+
     yy = (dt.year > 0) ? dt.year - 1 : 0;
     ydays = years_by_days(yy);
     leap = leap_year(dt.year);
-- 
2.43.0


From c603cf4813cf81c275525f2fdedd225da2847998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 17/64] fix: a null timestamp decomposed into a calendar date

---
 core/timestamp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/timestamp.c b/core/timestamp.c
index 6088640..b17c3b8 100644
--- a/core/timestamp.c
+++ b/core/timestamp.c
@@ -63,6 +63,9 @@ i64_t date_into_days(datestruct_t dt) {
 
 //
 timestamp_t timestamp_from_i64(i64_t offset) {
+    if (offset == NULL_I64)
+        return (timestamp_t){.null = B8_TRUE};
+
     i64_t days = offset / NSECS_IN_DAY;
     i64_t span = offset % NSECS_IN_DAY;
 
-- 
2.43.0


From 1e9902fff7c59f346e774298789e67263139126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 18/64] fix: and/or copy a shared operand instead of
 overwriting the variable it came from

---
 core/logic.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/core/logic.c b/core/logic.c
index 1bc3316..1147b53 100644
--- a/core/logic.c
+++ b/core/logic.c
@@ -85,6 +85,36 @@ static obj_p or_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
     return NULL_OBJ;
 }
 
+// The result is built in place, so a value that is still referenced elsewhere (a variable) is copied first
+static obj_p logic_own(obj_p x) {
+    i64_t i, l;
+    obj_p res;
+
+    if (x->type != TYPE_PARTEDB8) {
+        res = cow_obj(x);
+        if (res != x)
+            drop_obj(x);
+        return res;
+    }
+
+    l = x->len;
+    if (rc_obj(x) == 1)
+        res = x;
+    else {
+        res = LIST(l);
+        res->type = TYPE_PARTEDB8;
+        for (i = 0; i < l; i++)
+            AS_LIST(res)[i] = clone_obj(AS_LIST(x)[i]);
+        drop_obj(x);
+    }
+
+    for (i = 0; i < l; i++)
+        if (AS_LIST(res)[i] != NULL_OBJ)
+            AS_LIST(res)[i] = logic_own(AS_LIST(res)[i]);
+
+    return res;
+}
+
 // Actual logic operation
 static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
     i64_t i, j, c, m, l, chunk;
@@ -111,6 +141,7 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
 
         switch (MTYPE2(res->type, next->type)) {
             case MTYPE2(-TYPE_B8, -TYPE_B8):
+                res = logic_own(res);
                 op_func(&res->b8, &next->b8, (raw_p)1, (raw_p)0, (raw_p)1);
                 drop_obj(next);
                 break;
@@ -125,6 +156,7 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
                 }
 
                 // Perform element-wise operation using the provided function
+                res = logic_own(res);
                 m = pool_split_by(pool, l, 0);
                 if (m == 1) {
                     op_func(AS_B8(res), AS_B8(next), (raw_p)l, (raw_p)0, (raw_p)1);
@@ -154,6 +186,7 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
 
             case MTYPE2(TYPE_B8, -TYPE_B8):
             va:
+                res = logic_own(res);
                 l = ops_count(res);
                 m = pool_split_by(pool, l, 0);
 
@@ -199,6 +232,9 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
                     return err_type(0, 0, 0, 0);
                 }
 
+                res = logic_own(res);
+                next = logic_own(next);
+
                 for (j = 0; j < l; j++) {
                     obj_p a = AS_LIST(res)[j];
                     obj_p b = AS_LIST(next)[j];
-- 
2.43.0


From 747b66d3aba2c01b4e79a7d71f6d0c9bdb08008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 19/64] fix: not of a vector used a 32-bit index

---
 core/order.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/order.c b/core/order.c
index ba35120..607ea91 100644
--- a/core/order.c
+++ b/core/order.c
@@ -420,8 +420,7 @@ obj_p ray_xdesc(obj_p x, obj_p y) {
 }
 
 obj_p ray_not(obj_p x) {
-    i32_t i;
-    i64_t l;
+    i64_t i, l;
     obj_p res;
 
     switch (x->type) {
-- 
2.43.0


From d784494736d6039a2323fe536c4bb28a4b3a6898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 20/64] fix: median of a vector with nulls took the middle of
 the sorted vector including its nulls

---
 core/math.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/math.c b/core/math.c
index 1afb4e4..17b054c 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2530,7 +2530,9 @@ obj_p ray_avg(obj_p x) {
 
 // TODO: Refactoring with out sort and with parallel execution
 obj_p ray_med(obj_p x) {
-    i64_t l = ray_cnt(x)->i64;
+    obj_p cnt = ray_cnt(x);
+    i64_t l = cnt->i64;
+    drop_obj(cnt);
     if (l == 0)
         return f64(NULL_F64);
 
@@ -2563,7 +2565,7 @@ obj_p ray_med(obj_p x) {
 
         case TYPE_I16:
             sort = ray_asc(x);
-            xi16sort = AS_I16(sort);
+            xi16sort = AS_I16(sort) + (x->len - l);  // nulls come first
             med = (f64_t)((l % 2 == 0) ? (xi16sort[l / 2 - 1] + xi16sort[l / 2]) / 2.0 : xi16sort[l / 2]);
             drop_obj(sort);
             return f64(med);
@@ -2579,7 +2581,7 @@ obj_p ray_med(obj_p x) {
 
         case TYPE_I64:
             sort = ray_asc(x);
-            xisort = AS_I64(sort);
+            xisort = AS_I64(sort) + (x->len - l);  // nulls come first
             med = (f64_t)((l % 2 == 0) ? (xisort[l / 2 - 1] + xisort[l / 2]) / 2.0 : xisort[l / 2]);
             drop_obj(sort);
 
-- 
2.43.0


From 0674f2f8e116b4c98045748e435438988123e197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 21/64] fix: page-aligned index chunks could run past the end
 of the input

Rounding each worker's share up to whole pages and still handing out
chunks-1 full shares could exceed the input (16385 rows over 8 workers: 7
chunks of 2560 rows): workers read and wrote past the end and the last one
got a negative length.
---
 core/index.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/core/index.c b/core/index.c
index 4d27587..d5ce4a4 100644
--- a/core/index.c
+++ b/core/index.c
@@ -269,14 +269,23 @@ obj_p __hash_cols_partial(i64_t len, i64_t offset, __hash_cols_ctx_t *ctx) {
     return NULL_OBJ;
 }
 
+// Splits len rows into page-aligned chunks: returns how many and stores the length of all but the last
+// (rounding up to whole pages may leave nothing for the last executors, so there can be fewer chunks than those)
+static i64_t index_split(pool_p pool, i64_t len, i64_t elem_size, i64_t *base_chunk) {
+    i64_t chunks = pool_split_by(pool, len, 0);
+
+    *base_chunk = pool_chunk_aligned(len, chunks, elem_size);
+
+    return (chunks == 1) ? 1 : (len + *base_chunk - 1) / *base_chunk;
+}
+
 nil_t __index_list_precalc_hash(obj_p cols, i64_t out[], i64_t ncols, i64_t nrows, i64_t filter[], b8_t resolve) {
     i64_t i, j, chunks, base_chunk;
     pool_p pool;
     obj_p v;
 
     pool = pool_get();
-    chunks = pool_split_by(pool, nrows, 0);
-    base_chunk = pool_chunk_aligned(nrows, chunks, sizeof(i64_t));
+    chunks = index_split(pool, nrows, sizeof(i64_t), &base_chunk);
 
     // Initialize hashes
     for (i = 0; i < nrows; i++)
@@ -347,8 +356,7 @@ index_scope_t index_scope_i32(i32_t values[], i64_t indices[], i64_t len) {
     if (len == 0)
         return (index_scope_t){NULL_I64, NULL_I64, 0};
 
-    chunks = pool_split_by(pool, len, 0);
-    base_chunk = pool_chunk_aligned(len, chunks, sizeof(i32_t));
+    chunks = index_split(pool, len, sizeof(i32_t), &base_chunk);
 
     if (chunks == 1)
         index_scope_partial_i32(len, values, indices, 0, &min, &max);
@@ -408,8 +416,7 @@ index_scope_t index_scope_i64(i64_t values[], i64_t indices[], i64_t len) {
     if (len == 0)
         return (index_scope_t){NULL_I64, NULL_I64, 0};
 
-    chunks = pool_split_by(pool, len, 0);
-    base_chunk = pool_chunk_aligned(len, chunks, sizeof(i64_t));
+    chunks = index_split(pool, len, sizeof(i64_t), &base_chunk);
 
     if (chunks == 1)
         index_scope_partial_i64(len, values, indices, 0, &min, &max);
@@ -2015,12 +2022,11 @@ obj_p index_group_i64_scoped(obj_p obj, obj_p filter, const index_scope_t scope)
         hk = AS_I64(keys);
         // Initialize keys array in parallel
         pool = pool_get();
-        chunks = pool_split_by(pool, scope.range, 0);
+        chunks = index_split(pool, scope.range, sizeof(i64_t), &base_chunk);
         if (chunks == 1) {
             for (i = 0; i < scope.range; i++)
                 hk[i] = NULL_I64;
         } else {
-            base_chunk = pool_chunk_aligned(scope.range, chunks, sizeof(i64_t));
             pool_prepare(pool);
             for (i = 0; i < chunks - 1; i++)
                 pool_add_task(pool, (raw_p)fill_null_i64, 3, hk, base_chunk, i * base_chunk);
@@ -2070,8 +2076,7 @@ obj_p index_group_i64_scoped(obj_p obj, obj_p filter, const index_scope_t scope)
         vals = I64(len);
         hv = AS_I64(vals);
         pool = pool_get();
-        chunks = pool_split_by(pool, len, 0);
-        base_chunk = pool_chunk_aligned(len, chunks, sizeof(i64_t));
+        chunks = index_split(pool, len, sizeof(i64_t), &base_chunk);
         if (chunks == 1)
             index_group_i64_scoped_partial(values, indices, hk, len, 0, scope.min, hv);
         else {
@@ -2401,8 +2406,7 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
     };
 
     pool = pool_get();
-    chunks = pool_split_by(pool, len, 0);
-    base_chunk = pool_chunk_aligned(len, chunks, sizeof(i64_t));
+    chunks = index_split(pool, len, sizeof(i64_t), &base_chunk);
 
     if (chunks == 1) {
         index_group_list_perfect_partial(len, 0, &ctx);
-- 
2.43.0


From 4c9e908acbd95ee444081c2869654c0ffc4cb203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 22/64] fix: and/or of a long vector with a boolean read the
 boolean at the offset of the chunk

---
 core/logic.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/logic.c b/core/logic.c
index 1147b53..a3decba 100644
--- a/core/logic.c
+++ b/core/logic.c
@@ -50,8 +50,8 @@ static obj_p and_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
         return NULL_OBJ;
     }
 
-    // else right is scalar
-    m = next_mask[0];
+    // else right is scalar, the same one for every chunk
+    m = *(b8_t *)y;
     for (i = 0; i < n; i++)
         mask[i] = mask[i] && m;
 
@@ -77,8 +77,8 @@ static obj_p or_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
         return NULL_OBJ;
     }
 
-    // else right is scalar
-    m = next_mask[0];
+    // else right is scalar, the same one for every chunk
+    m = *(b8_t *)y;
     for (i = 0; i < n; i++)
         mask[i] = mask[i] || m;
 
-- 
2.43.0


From 044f32f9ee4ce9c32b33ad6fa65945d49c224495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 23/64] fix: cmp_obj orders floats antisymmetrically and
 exactly, null lowest

---
 core/rayforce.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index ca538e7..47658f3 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2098,6 +2098,16 @@ b8_t is_null(obj_p obj) {
            (obj->type == -TYPE_TIMESTAMP && obj->i64 == NULL_I64) || (obj->type == -TYPE_C8 && obj->c8 == '\0');
 }
 
+// total order of floats: null (NaN) is the lowest value
+static inline i64_t cmp_f64(f64_t a, f64_t b) {
+    b8_t na = ISNANF64(a), nb = ISNANF64(b);
+
+    if (na || nb)
+        return (i64_t)nb - (i64_t)na;
+
+    return a > b ? 1 : a < b ? -1 : 0;
+}
+
 i64_t cmp_obj(obj_p a, obj_p b) {
     i64_t i, l, d;
     obj_p obj_a, obj_b;
@@ -2161,10 +2171,7 @@ i64_t cmp_obj(obj_p a, obj_p b) {
             str_b = str_from_symbol(b->i64);
             return strcmp(str_a, str_b);
         case -TYPE_F64:
-            return (ISNANF64(a->f64) && ISNANF64(b->f64))   ? 0
-                   : (ISNANF64(a->f64) || ISNANF64(b->f64)) ? 1
-                   : (ABSF64(a->f64 - b->f64) < 1e-16)      ? 0
-                                                            : 1;
+            return cmp_f64(a->f64, b->f64);
         case -TYPE_GUID:
             return memcmp(AS_GUID(a), AS_GUID(b), sizeof(guid_t));
         case TYPE_B8:
@@ -2220,10 +2227,7 @@ i64_t cmp_obj(obj_p a, obj_p b) {
         case TYPE_F64:
             l = a->len < b->len ? a->len : b->len;
             for (i = 0; i < l; i++) {
-                d = (ISNANF64(AS_F64(a)[i]) && ISNANF64(AS_F64(b)[i]))   ? 0
-                    : (ISNANF64(AS_F64(a)[i]) || ISNANF64(AS_F64(b)[i])) ? 1
-                    : (ABSF64(AS_F64(a)[i] - AS_F64(b)[i]) < 1e-16)      ? 0
-                                                                         : 1;
+                d = cmp_f64(AS_F64(a)[i], AS_F64(b)[i]);
                 if (d != 0)
                     return d;
             }
-- 
2.43.0


From f450b44509d2579131b580509f9e3cc593ba246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:54 +0000
Subject: [PATCH 24/64] fix: comparing 32-bit vectors subtracted with overflow

---
 core/rayforce.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 47658f3..6aeb210 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2197,7 +2197,7 @@ i64_t cmp_obj(obj_p a, obj_p b) {
         case TYPE_TIME:
             l = a->len < b->len ? a->len : b->len;
             for (i = 0; i < l; i++) {
-                d = (i64_t)(AS_I32(a)[i] - AS_I32(b)[i]);
+                d = (i64_t)AS_I32(a)[i] - (i64_t)AS_I32(b)[i];
                 if (d != 0)
                     return d;
             }
-- 
2.43.0


From f9dabe93228f84c5cbf7ee719853f1da95749dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:54 +0000
Subject: [PATCH 25/64] fix: cmp_obj never found two guid vectors equal

---
 core/rayforce.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index 6aeb210..a816289 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2213,6 +2213,13 @@ i64_t cmp_obj(obj_p a, obj_p b) {
             }
             return a->len - b->len;
 
+        case TYPE_GUID:
+            l = a->len < b->len ? a->len : b->len;
+            d = memcmp(AS_GUID(a), AS_GUID(b), l * sizeof(guid_t));
+            if (d != 0)
+                return d;
+            return a->len - b->len;
+
         case TYPE_SYMBOL:
             l = a->len < b->len ? a->len : b->len;
             for (i = 0; i < l; i++) {
-- 
2.43.0


From 2304277f70c15256d6ffe66e4a4bbd9bf7f7b781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:04 +0000
Subject: [PATCH 26/64] fix: indexing a byte vector returned a boolean

---
 core/rayforce.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index a816289..9d6c8fa 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -765,12 +765,17 @@ obj_p at_idx(obj_p obj, i64_t idx) {
 
     switch (obj->type) {
         case TYPE_B8:
-        case TYPE_U8:
             if (idx < 0)
                 idx = obj->len + idx;
             if (idx >= 0 && idx < (i64_t)obj->len)
                 return b8(AS_B8(obj)[idx]);
             return b8(B8_FALSE);
+        case TYPE_U8:
+            if (idx < 0)
+                idx = obj->len + idx;
+            if (idx >= 0 && idx < (i64_t)obj->len)
+                return u8(AS_U8(obj)[idx]);
+            return u8(0);
         case TYPE_I16:
             if (idx < 0)
                 idx = obj->len + idx;
-- 
2.43.0


From f71043474f91bea9be30ebde0dc0bb5c2fb495e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:04 +0000
Subject: [PATCH 27/64] fix: indexing a guid vector from its end was off by one

---
 core/rayforce.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 9d6c8fa..0732060 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -839,7 +839,7 @@ obj_p at_idx(obj_p obj, i64_t idx) {
             return NULL_OBJ;
         case TYPE_GUID:
             if (idx < 0)
-                idx = obj->len + idx + 1;
+                idx = obj->len + idx;
             if (idx >= 0 && idx < (i64_t)obj->len)
                 return guid(AS_GUID(obj)[idx]);
             return NULL_OBJ;
-- 
2.43.0


From e55448cebeab670deaf19bc34b35577e1c3e4836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:04 +0000
Subject: [PATCH 28/64] fix: null of a small integer, date or time column was
 the generic null

---
 core/rayforce.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index 0732060..40dcede 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -86,6 +86,16 @@ obj_p null(i8_t type) {
     switch (type) {
         case TYPE_B8:
             return b8(B8_FALSE);
+        case TYPE_U8:
+            return u8(0);
+        case TYPE_I16:
+            return i16(NULL_I16);
+        case TYPE_I32:
+            return i32(NULL_I32);
+        case TYPE_DATE:
+            return adate(NULL_I32);
+        case TYPE_TIME:
+            return atime(NULL_I32);
         case TYPE_I64:
             return i64(NULL_I64);
         case TYPE_F64:
-- 
2.43.0


From 2ed7ab65c89f40a02b0a74130c57ee285611306c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:04 +0000
Subject: [PATCH 29/64] fix: gathering rows of a parted column allocated a
 vector of the wrong type and size

---
 core/rayforce.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 40dcede..43a17f9 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1217,7 +1217,7 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
             return table(clone_obj(AS_LIST(obj)[0]), cols);
         case TYPE_PARTEDB8:
         case TYPE_PARTEDU8:
-            res = vector(obj->type - TYPE_MAPLIST, len);
+            res = vector(obj->type - TYPE_PARTEDLIST, len);
             n = AS_LIST(obj)[0]->len;
             for (i = 0, mapid = 0, m = 0; i < len; i++) {
                 while (ids[i] >= n) {
@@ -1243,7 +1243,7 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
         case TYPE_PARTEDI32:
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
-            res = vector(obj->type - TYPE_MAPLIST, len);
+            res = vector(obj->type - TYPE_PARTEDLIST, len);
             n = AS_LIST(obj)[0]->len;
             for (i = 0, mapid = 0, m = 0; i < len; i++) {
                 while (ids[i] >= n) {
@@ -1256,7 +1256,7 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
             return res;
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
-            res = vector(obj->type - TYPE_MAPLIST, len);
+            res = vector(obj->type - TYPE_PARTEDLIST, len);
             n = AS_LIST(obj)[0]->len;
             for (i = 0, mapid = 0, m = 0; i < len; i++) {
                 while (ids[i] >= n) {
-- 
2.43.0


From 0a73ef9fb1c3d4ebd8fb6d96550e7742e9e44d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 30/64] fix: gathering from boolean, guid, char and list
 vectors read outside them or by the wrong index

---
 core/items.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/core/items.c b/core/items.c
index b25ca46..fe69d2e 100644
--- a/core/items.c
+++ b/core/items.c
@@ -95,10 +95,10 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = x->len;
             res = B8(yl);
             for (i = 0; i < yl; i++) {
-                if (AS_B8(y)[i] >= (i64_t)xl)
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= xl)
                     AS_B8(res)[i] = B8_FALSE;
                 else
-                    AS_B8(res)[i] = AS_B8(x)[(i32_t)AS_B8(y)[i]];
+                    AS_B8(res)[i] = AS_B8(x)[AS_I64(y)[i]];
             }
 
             return res;
@@ -117,7 +117,7 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = x->len;
             res = GUID(yl);
             for (i = 0; i < yl; i++) {
-                if (AS_I64(y)[i] >= (i64_t)xl)
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= xl)
                     memset(AS_GUID(res)[i], 0, sizeof(guid_t));
                 else
                     memcpy(AS_GUID(res)[i], AS_GUID(x)[AS_I64(y)[i]], sizeof(guid_t));
@@ -129,10 +129,10 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = x->len;
             res = C8(yl);
             for (i = 0; i < yl; i++) {
-                if (AS_I64(y)[i] >= (i64_t)xl)
-                    AS_C8(res)
-                [i] = ' ';
-                else AS_C8(res)[i] = AS_C8(x)[(i32_t)AS_I64(y)[i]];
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= xl)
+                    AS_C8(res)[i] = ' ';
+                else
+                    AS_C8(res)[i] = AS_C8(x)[AS_I64(y)[i]];
             }
 
             return res;
@@ -141,10 +141,10 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = x->len;
             res = vector(TYPE_LIST, yl);
             for (i = 0; i < yl; i++) {
-                if (AS_I64(y)[i] >= (i64_t)xl)
-                    AS_LIST(res)
-                [i] = NULL_OBJ;
-                else AS_LIST(res)[i] = clone_obj(AS_LIST(x)[(i32_t)AS_I64(y)[i]]);
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= xl)
+                    AS_LIST(res)[i] = NULL_OBJ;
+                else
+                    AS_LIST(res)[i] = clone_obj(AS_LIST(x)[AS_I64(y)[i]]);
             }
 
             return res;
-- 
2.43.0


From e4119265fee35c6b4b59b23feca145fd83f612d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 31/64] fix: indexing an enum with a negative position read
 before its storage

---
 core/items.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/items.c b/core/items.c
index fe69d2e..3a38cad 100644
--- a/core/items.c
+++ b/core/items.c
@@ -187,7 +187,7 @@ obj_p ray_at(obj_p x, obj_p y) {
 
             v = ENUM_VAL(x);
 
-            if (y->i64 >= (i64_t)v->len) {
+            if (y->i64 < 0 || y->i64 >= v->len) {
                 drop_obj(s);
                 return err_index(y->i64, v->len, 0, 0);
             }
-- 
2.43.0


From 5fdbc868c8b93ac8f335cca564088463e691b069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 32/64] fix: taking a null number of elements allocated a
 negative length

---
 core/items.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/items.c b/core/items.c
index 3a38cad..aa69f5f 100644
--- a/core/items.c
+++ b/core/items.c
@@ -418,15 +418,19 @@ obj_p ray_take(obj_p from, obj_p count) {
                 break;
             case -TYPE_I16:
                 f = 0 > count->i16;
-                m = ABSI64((i64_t)count->i16);
+                m = ABSI64(i16_to_i64(count->i16));
                 break;
             case -TYPE_I32:
                 f = 0 > count->i32;
-                m = ABSI64((i64_t)count->i32);
+                m = ABSI64(i32_to_i64(count->i32));
                 break;
             default:
                 return err_type(-TYPE_I64, count->type, 0, 0);
         }
+
+        // null count
+        if (m < 0)
+            return err_length(0, 0, 0, 0, 0, 0);
     }
 
     switch (from->type) {
-- 
2.43.0


From 8677f1d889bd950b5047d3f0e5b09eaff65fc549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 33/64] fix: taking from an empty value divided by zero

---
 core/items.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/items.c b/core/items.c
index aa69f5f..5f67734 100644
--- a/core/items.c
+++ b/core/items.c
@@ -431,6 +431,10 @@ obj_p ray_take(obj_p from, obj_p count) {
         // null count
         if (m < 0)
             return err_length(0, 0, 0, 0, 0, 0);
+
+        // there is nothing to repeat in an empty value
+        if (from->type >= 0 && ops_count(from) == 0)
+            return clone_obj(from);
     }
 
     switch (from->type) {
-- 
2.43.0


From 8f33773493ea04714a1910850868b3653f56ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 34/64] fix: a range take with a huge amount overflowed

---
 core/items.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/items.c b/core/items.c
index 5f67734..61965bc 100644
--- a/core/items.c
+++ b/core/items.c
@@ -409,6 +409,13 @@ obj_p ray_take(obj_p from, obj_p count) {
         if (m < 0)
             return err_length(0, 0, 0, 0, 0, 0);
         f = 0;  // not used for range
+
+        // an amount beyond the end is clamped below: keep start + m from overflowing
+        if (from->type >= 0) {
+            l = ops_count(from);
+            if (m > l)
+                m = l;
+        }
     } else {
         start = 0;
         switch (count->type) {
-- 
2.43.0


From bbc33dfe36ee4586875376cf035d2f030852b0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 35/64] fix: filler for missing small integers, dates and times
 was zero instead of null

---
 core/rayforce.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index 43a17f9..fec5086 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -131,6 +131,16 @@ obj_p nullv(i8_t type, i64_t len) {
         case TYPE_C8:
             memset(vec->raw, 0, len);
             break;
+        case TYPE_I16:
+            for (i = 0; i < len; i++)
+                AS_I16(vec)[i] = NULL_I16;
+            break;
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
+            for (i = 0; i < len; i++)
+                AS_I32(vec)[i] = NULL_I32;
+            break;
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
-- 
2.43.0


From 2f5316a608bd489bf3a80477df50a64d8925bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 36/64] fix: reading a byte of a parted column returned a
 boolean

---
 core/rayforce.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index fec5086..59073a2 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -942,11 +942,14 @@ obj_p at_idx(obj_p obj, i64_t idx) {
             for (i = 0, n = 0; i < l; i++) {
                 m = AS_LIST(obj)[i]->len;
                 n += m;
-                if (idx < n)
-                    return b8(AS_U8(AS_LIST(obj)[i])[m - (n - idx)]);
+                if (idx < n) {
+                    res = atom(obj->type - TYPE_PARTEDLIST);
+                    res->u8 = AS_U8(AS_LIST(obj)[i])[m - (n - idx)];
+                    return res;
+                }
             }
 
-            return b8(B8_FALSE);
+            return null(obj->type - TYPE_PARTEDLIST);
 
         case TYPE_PARTEDI16:
             l = obj->len;
-- 
2.43.0


From 1b029a2c8c02a2aef2be0d05637203a725b1a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:33 +0000
Subject: [PATCH 37/64] fix: take from an enum read its domain after releasing
 it

---
 core/items.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/items.c b/core/items.c
index 61965bc..61b52eb 100644
--- a/core/items.c
+++ b/core/items.c
@@ -643,8 +643,9 @@ obj_p ray_take(obj_p from, obj_p count) {
                     AS_I64(res)[i] = AS_I64(v)[j % l];
                 }
             }
+            n = (s->type == TYPE_SYMBOL);
             drop_obj(s);
-            if (s->type != TYPE_SYMBOL) {
+            if (!n) {
                 drop_obj(k);
                 return res;
             } else
-- 
2.43.0


From 309e050d0341c7cd913ab3a1a45a4287f3701b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:33 +0000
Subject: [PATCH 38/64] fix: take from a dictionary leaked every key and value
 taken

---
 core/items.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/items.c b/core/items.c
index 61b52eb..8840423 100644
--- a/core/items.c
+++ b/core/items.c
@@ -608,13 +608,13 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (start + m > (i64_t)l)
                     m = l - start;
                 for (i = 0; i < m; i++) {
-                    push_obj(&keys_res, clone_obj(at_idx(AS_LIST(from)[0], start + i)));
-                    push_obj(&vals_res, clone_obj(at_idx(AS_LIST(from)[1], start + i)));
+                    push_obj(&keys_res, at_idx(AS_LIST(from)[0], start + i));
+                    push_obj(&vals_res, at_idx(AS_LIST(from)[1], start + i));
                 }
             } else {
                 for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
-                    push_obj(&keys_res, clone_obj(at_idx(AS_LIST(from)[0], j % l)));
-                    push_obj(&vals_res, clone_obj(at_idx(AS_LIST(from)[1], j % l)));
+                    push_obj(&keys_res, at_idx(AS_LIST(from)[0], j % l));
+                    push_obj(&vals_res, at_idx(AS_LIST(from)[1], j % l));
                 }
             }
             return dict(keys_res, vals_res);
-- 
2.43.0


From 9e8877f31429227b04197d1f01553362a0b14207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 39/64] fix: removing a handle twice freed its slot twice

---
 core/freelist.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/freelist.c b/core/freelist.c
index 17d7048..8b1744f 100644
--- a/core/freelist.c
+++ b/core/freelist.c
@@ -71,6 +71,10 @@ i64_t freelist_pop(freelist_p freelist, i64_t pos) {
     if (pos < 0 || pos >= freelist->data_pos)
         return NULL_I64;
 
+    // already removed: the slot must not be freed twice
+    if (freelist->data[pos] == NULL_I64)
+        return NULL_I64;
+
     if (freelist->free_pos == freelist->free_size) {
         freelist->free_size *= 2;
         freelist->free = (i64_t *)heap_realloc(freelist->free, freelist->free_size * sizeof(i64_t));
-- 
2.43.0


From 6b5461b35b475665371b12dcb21e678a180abd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 40/64] fix: most overflowing 64-bit numerals were accepted
 with a wrong value

---
 core/string.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/string.c b/core/string.c
index ad5895b..0834126 100644
--- a/core/string.c
+++ b/core/string.c
@@ -212,7 +212,7 @@ i64_t i32_from_str(lit_p str, i64_t len, i32_t *dst) {
 
 i64_t i64_from_str(lit_p src, i64_t len, i64_t *dst) {
     i64_t i, n, sign;
-    u64_t result, old;
+    u64_t result;
 
     result = 0;
     sign = 1;
@@ -254,10 +254,9 @@ i64_t i64_from_str(lit_p src, i64_t len, i64_t *dst) {
 
     // Parse remaining digits with overflow check
     while (n < len && IS_DIGIT(src[n])) {
-        old = result;
-        result = result * 10 + (src[n] - '0');
-        if (result < old)  // Overflow
+        if (result > (9223372036854775807ull - (src[n] - '0')) / 10)  // Overflow
             return 0;
+        result = result * 10 + (src[n] - '0');
         n++;
     }
 
-- 
2.43.0


From 87261ef36581b497da96c094aad2a5535feaddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 41/64] fix: overflowing 32-bit numerals were accepted with a
 wrong value

---
 core/string.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/core/string.c b/core/string.c
index 0834126..4b5273f 100644
--- a/core/string.c
+++ b/core/string.c
@@ -146,8 +146,8 @@ i64_t u8_from_str(lit_p str, i64_t len, u8_t *dst) {
 }
 
 i64_t i32_from_str(lit_p str, i64_t len, i32_t *dst) {
-    i64_t i, n;
-    i32_t result, sign;
+    i64_t i, n, result;
+    i32_t sign;
 
     i = 0;
     result = 0;
@@ -170,20 +170,22 @@ i64_t i32_from_str(lit_p str, i64_t len, i32_t *dst) {
 
     // Fast path: try to parse 8 digits at once (for 8+ digit numbers)
     if (len - i >= 8 && is_8_digits((const u8_t *)(str + i))) {
-        result = (i32_t)parse_8_digits((const u8_t *)(str + i));
+        result = (i64_t)parse_8_digits((const u8_t *)(str + i));
         i += 8;
         // Parse any remaining digits
         while (i < len && IS_DIGIT(str[i])) {
             result = result * 10 + (str[i] - '0');
+            if (result > 2147483647)  // Overflow
+                return 0;
             i++;
         }
-        *dst = result * sign;
+        *dst = (i32_t)result * sign;
         return i;
     }
 
     // Medium path: try 4 digits at once
     if (len - i >= 4 && is_4_digits((const u8_t *)(str + i))) {
-        result = (i32_t)parse_4_digits((const u8_t *)(str + i));
+        result = (i64_t)parse_4_digits((const u8_t *)(str + i));
         i += 4;
         // Parse remaining digits
         while (i < len && IS_DIGIT(str[i])) {
@@ -191,7 +193,7 @@ i64_t i32_from_str(lit_p str, i64_t len, i32_t *dst) {
             i++;
         }
         if (i > n) {
-            *dst = result * sign;
+            *dst = (i32_t)result * sign;
             return i;
         }
     }
@@ -205,7 +207,7 @@ i64_t i32_from_str(lit_p str, i64_t len, i32_t *dst) {
     if (i == n)
         return 0;
 
-    *dst = result * sign;
+    *dst = (i32_t)result * sign;
 
     return i;
 }
-- 
2.43.0


From a388e64f9ee19577fccb73ed1ce99e5f6abba8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 42/64] fix: casting a string without a number gave
 uninitialised memory

---
 core/rayforce.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 59073a2..f0646cb 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2569,16 +2569,20 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_B8, TYPE_C8):
             return b8(obj->len > 0);
         case MTYPE2(-TYPE_U8, TYPE_C8):
-            i32_from_str(AS_C8(obj), obj->len, &num_i32);
+            if (i32_from_str(AS_C8(obj), obj->len, &num_i32) == 0 || num_i32 < 0 || num_i32 > 255)
+                num_i32 = 0;
             return u8((u8_t)num_i32);
         case MTYPE2(-TYPE_I16, TYPE_C8):
-            i32_from_str(AS_C8(obj), obj->len, &num_i32);
+            if (i32_from_str(AS_C8(obj), obj->len, &num_i32) == 0 || num_i32 < -32767 || num_i32 > 32767)
+                return i16(NULL_I16);
             return i16((i16_t)num_i32);
         case MTYPE2(-TYPE_I32, TYPE_C8):
-            i32_from_str(AS_C8(obj), obj->len, &num_i32);
+            if (i32_from_str(AS_C8(obj), obj->len, &num_i32) == 0)
+                num_i32 = NULL_I32;
             return i32(num_i32);
         case MTYPE2(-TYPE_I64, TYPE_C8):
-            i64_from_str(AS_C8(obj), obj->len, &num_i64);
+            if (i64_from_str(AS_C8(obj), obj->len, &num_i64) == 0)
+                num_i64 = NULL_I64;
             return i64(num_i64);
         case MTYPE2(-TYPE_DATE, TYPE_C8):
             return adate(date_into_i32(date_from_str(AS_C8(obj), obj->len)));
@@ -2587,7 +2591,8 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_TIMESTAMP, TYPE_C8):
             return timestamp(timestamp_into_i64(timestamp_from_str(AS_C8(obj), obj->len)));
         case MTYPE2(-TYPE_F64, TYPE_C8):
-            f64_from_str(AS_C8(obj), obj->len, &num_f64);
+            if (f64_from_str(AS_C8(obj), obj->len, &num_f64) == 0)
+                num_f64 = NULL_F64;
             return f64(num_f64);
         case MTYPE2(TYPE_TABLE, TYPE_DICT):
             return table(clone_obj(AS_LIST(obj)[0]), clone_obj(AS_LIST(obj)[1]));
-- 
2.43.0


From 8469584d7126cd91570161a9a929e048b4ea9853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 43/64] fix: empty or malformed csv fields of 32-bit integer
 and float columns were left uninitialised

---
 core/io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/io.c b/core/io.c
index 5f87b11..baaef8f 100644
--- a/core/io.c
+++ b/core/io.c
@@ -398,7 +398,8 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 AS_I32(out)[row] = NULL_I32;
                 break;
             }
-            i32_from_str(start, end - start, &AS_I32(out)[row]);
+            if (i32_from_str(start, end - start, &AS_I32(out)[row]) == 0)
+                AS_I32(out)[row] = NULL_I32;
             break;
         case TYPE_DATE:
             if (start == NULL || end == NULL) {
@@ -434,7 +435,8 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 AS_F64(out)[row] = NULL_F64;
                 break;
             }
-            f64_from_str(start, end - start, &AS_F64(out)[row]);
+            if (f64_from_str(start, end - start, &AS_F64(out)[row]) == 0)
+                AS_F64(out)[row] = NULL_F64;
             break;
         case TYPE_SYMBOL:
             if (start == NULL || end == NULL) {
-- 
2.43.0


From c72c3663abeb399f4ad778192450777067e5b98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 44/64] fix: 0x without two hexadecimal digits read an
 uninitialised byte

---
 core/parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/parse.c b/core/parse.c
index 4174519..4888f96 100644
--- a/core/parse.c
+++ b/core/parse.c
@@ -516,6 +516,8 @@ obj_p parse_number(parser_t *parser) {
 
     if (remaining >= 2 && *parser->current == '0' && (*(parser->current + 1) == 'x')) {
         r = u8_from_str(parser->current + 2, remaining - 2, &num_u8);
+        if (r == 0)
+            return parse_error(parser, parser->count++, EC_DOMAIN);
         shift(parser, r + 2);
         span_extend(parser, &span);
         num = u8(num_u8);
-- 
2.43.0


From bc0cfce9da4c71156d02d3c3ffcaa134c21e2e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 45/64] fix: guid text with fewer dashes wrote past the guid

---
 core/string.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/string.c b/core/string.c
index 4b5273f..5072060 100644
--- a/core/string.c
+++ b/core/string.c
@@ -389,8 +389,11 @@ i64_t guid_from_str(lit_p str, i64_t len, guid_t dst) {
 
     for (i = 0, j = 0, k = 0; i < len; i++) {
         c = str[i];
-        if (c == '-')
+        if (i == 8 || i == 13 || i == 18 || i == 23) {
+            if (c != '-')
+                return -1;
             continue;
+        }
 
         if (c >= '0' && c <= '9')
             n = c - '0';
-- 
2.43.0


From e3f67176c2f6019c0233188d514455f3db5eea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 46/64] fix: boolean text parsing recognises false and stores
 nothing for other text

---
 core/string.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/string.c b/core/string.c
index 5072060..717c8c3 100644
--- a/core/string.c
+++ b/core/string.c
@@ -106,16 +106,20 @@ obj_p cstring_from_str(lit_p str, i64_t len) {
 obj_p cstring_from_obj(obj_p obj) { return cstring_from_str(AS_C8(obj), obj->len); }
 
 i64_t b8_from_str(lit_p src, i64_t len, b8_t *dst) {
-    if (len < 4) {
-        *dst = B8_FALSE;
+    if (len < 4)
         return 0;
-    }
 
     if (strncmp(src, "true", 4) == 0 || strncmp(src, "True", 4) == 0 || strncmp(src, "TRUE", 4) == 0) {
         *dst = B8_TRUE;
         return 4;
     }
 
+    if (len >= 5 &&
+        (strncmp(src, "false", 5) == 0 || strncmp(src, "False", 5) == 0 || strncmp(src, "FALSE", 5) == 0)) {
+        *dst = B8_FALSE;
+        return 5;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From 61c2a4bebd1ee7fb2c2dce67822cd3d732297fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 47/64] fix: a float needs a digit, its exponent cannot
 overflow, and a malformed exponent is not consumed

---
 core/string.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/core/string.c b/core/string.c
index 717c8c3..5ab57fc 100644
--- a/core/string.c
+++ b/core/string.c
@@ -277,9 +277,10 @@ i64_t i64_from_str(lit_p src, i64_t len, i64_t *dst) {
 
 i64_t f64_from_str(lit_p str, i64_t len, f64_t *dst) {
     i32_t sign, frac_digits, exp_sign, exp;
-    i64_t i, start, exp_start;
+    i64_t i, start, exp_start, exp_mark;
     f64_t int_part, frac_part, multiplier, divisor, val;
     u64_t int_val;
+    b8_t frac_dot;
 
     i = 0;
 
@@ -325,7 +326,8 @@ i64_t f64_from_str(lit_p str, i64_t len, f64_t *dst) {
     // Fractional part
     frac_part = 0;
     frac_digits = 0;
-    if (i < len && str[i] == '.') {
+    frac_dot = (i < len && str[i] == '.');
+    if (frac_dot) {
         i++;
         while (i < len && IS_DIGIT(str[i])) {
             frac_part = frac_part * 10 + (str[i++] - '0');
@@ -333,6 +335,10 @@ i64_t f64_from_str(lit_p str, i64_t len, f64_t *dst) {
         }
     }
 
+    // Neither integer nor fractional digits
+    if (i - start == (frac_dot ? 1 : 0))
+        return 0;
+
     // Combine integer and fractional
     val = int_part;
     if (frac_digits > 0) {
@@ -345,6 +351,7 @@ i64_t f64_from_str(lit_p str, i64_t len, f64_t *dst) {
 
     // Exponent
     if (i < len && (str[i] == 'e' || str[i] == 'E')) {
+        exp_mark = i;
         i++;
         exp_sign = 1;
         if (i < len && str[i] == '-') {
@@ -358,7 +365,9 @@ i64_t f64_from_str(lit_p str, i64_t len, f64_t *dst) {
         exp_start = i;
 
         while (i < len && IS_DIGIT(str[i])) {
-            exp = exp * 10 + (str[i++] - '0');
+            if (exp < 1000)  // beyond the range of a float either way
+                exp = exp * 10 + (str[i] - '0');
+            i++;
         }
         if (i > exp_start) {
             multiplier = 1.0;
@@ -371,13 +380,10 @@ i64_t f64_from_str(lit_p str, i64_t len, f64_t *dst) {
             val *= multiplier;
         } else {
             // Invalid exponent; rewind if needed
-            i = exp_start - 1;
+            i = exp_mark;
         }
     }
 
-    if (i == start)
-        return 0;  // No digits parsed
-
     *dst = sign * val;
 
     return i;
-- 
2.43.0


From d85d7863b0f053d17bc77c4715f7b22278c42af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:42 +0000
Subject: [PATCH 48/64] fix: vectors of 16-bit integers were serialized without
 being counted and could not be read back

---
 core/serde.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/core/serde.c b/core/serde.c
index c5ef252..d6a1ade 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -117,6 +117,8 @@ i64_t size_obj(obj_p obj) {
             return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(b8_t);
         case TYPE_U8:
             return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(u8_t);
+        case TYPE_I16:
+            return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(i16_t);
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -456,6 +458,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
         case TYPE_B8:
         case TYPE_U8:
         case TYPE_C8:
+        case TYPE_I16:
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -501,6 +504,16 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                     buf += l * ISIZEOF(c8_t);
                     (*len) -= l * ISIZEOF(c8_t);
                     return obj;
+                case TYPE_I16:
+                    if (*len < l * ISIZEOF(i16_t))
+                        return err_domain(0, 0);
+                    obj = I16(l);
+                    if (IS_ERR(obj))
+                        return obj;
+                    memcpy(AS_I16(obj), buf, l * ISIZEOF(i16_t));
+                    buf += l * ISIZEOF(i16_t);
+                    (*len) -= l * ISIZEOF(i16_t);
+                    return obj;
                 case TYPE_I32:
                 case TYPE_TIME:
                 case TYPE_DATE:
-- 
2.43.0


From 2da922196b15fa5d6e1fa676380bb97c9db4e044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:42 +0000
Subject: [PATCH 49/64] fix: the announced size of a lambda was eight bytes
 more than is written

---
 core/serde.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/serde.c b/core/serde.c
index d6a1ade..7d7b6bf 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -146,7 +146,7 @@ i64_t size_obj(obj_p obj) {
         case TYPE_DICT:
             return ISIZEOF(i8_t) + 1 + size_obj(AS_LIST(obj)[0]) + size_obj(AS_LIST(obj)[1]);
         case TYPE_LAMBDA:
-            return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + size_obj(AS_LAMBDA(obj)->args) + size_obj(AS_LAMBDA(obj)->body);
+            return ISIZEOF(i8_t) + 1 + size_obj(AS_LAMBDA(obj)->args) + size_obj(AS_LAMBDA(obj)->body);
         case TYPE_UNARY:
         case TYPE_BINARY:
         case TYPE_VARY:
-- 
2.43.0


From 91a4b457f6ac6317d826c4b6f213783306dbd8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:42 +0000
Subject: [PATCH 50/64] fix: reading truncated or corrupt serialized data ran
 past the buffer

---
 core/serde.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/core/serde.c b/core/serde.c
index 7d7b6bf..e233a2b 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -468,7 +468,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
         case TYPE_SYMBOL:
         case TYPE_GUID:
         case TYPE_LIST:
-            if (*len < ISIZEOF(i64_t))
+            if (*len < ISIZEOF(i64_t) + 1)
                 return err_domain(0, 0);
 
             buf++;  // skip attrs
@@ -477,7 +477,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             (*len) -= ISIZEOF(i64_t) + 1;
 
             // Check for unreasonable length values that might indicate corruption
-            if (l > 1000000000)  // 1 billion elements is likely a corrupted value
+            if (l < 0 || l > 1000000000)  // 1 billion elements is likely a corrupted value
                 return err_domain(0, 0);
 
             // Continue with type-specific handling
@@ -550,6 +550,8 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                     (*len) -= l * ISIZEOF(f64_t);
                     return obj;
                 case TYPE_SYMBOL:
+                    if (*len < l)  // at least a terminator each
+                        return err_domain(0, 0);
                     obj = SYMBOL(l);
                     if (IS_ERR(obj))
                         return obj;
@@ -582,6 +584,8 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                     (*len) -= l * ISIZEOF(guid_t);
                     return obj;
                 case TYPE_LIST:
+                    if (*len < l)  // at least a type each
+                        return err_domain(0, 0);
                     obj = LIST(l);
                     if (IS_ERR(obj))
                         return obj;
@@ -603,6 +607,8 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
 
         case TYPE_TABLE:
         case TYPE_DICT:
+            if (*len < 1)
+                return err_domain(0, 0);
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
@@ -624,6 +630,8 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                 return dict(k, v);
 
         case TYPE_LAMBDA:
+            if (*len < 1)
+                return err_domain(0, 0);
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
@@ -674,7 +682,9 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             
             if (code == EC_USER) {
                 lit_p msg = (lit_p)buf;
-                i64_t msg_len = strlen(msg);
+                i64_t msg_len = str_len((str_p)buf, *len);
+                if (msg_len >= *len)
+                    return err_domain(0, 0);
                 buf += msg_len + 1;
                 (*len) -= msg_len + 1;
                 return err_user(msg);
-- 
2.43.0


From 11189a9958227bd3d4648453eb8651c9da636f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:47 +0000
Subject: [PATCH 51/64] fix: a value with a part that cannot be serialized was
 written past its announced size

---
 core/binary.c |  3 +++
 core/io.c     |  2 ++
 core/ipc.c    |  4 ++++
 core/serde.c  | 21 +++++++++++++++------
 4 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/core/binary.c b/core/binary.c
index 41fa89f..7d46dcb 100644
--- a/core/binary.c
+++ b/core/binary.c
@@ -172,6 +172,9 @@ obj_p binary_set(obj_p x, obj_p y) {
                     return clone_obj(x);
 
                 case TYPE_LIST:
+                    if (size_obj(y) == 0)
+                        return err_type(0, y->type, 0, 0);
+
                     s = cstring_from_str("#", 1);
                     col = ray_concat(x, s);
                     drop_obj(s);
diff --git a/core/io.c b/core/io.c
index baaef8f..51fa109 100644
--- a/core/io.c
+++ b/core/io.c
@@ -348,6 +348,8 @@ obj_p ray_write(obj_p x, obj_p y) {
     switch (x->type) {
         case -TYPE_I32:
             size = size_obj(y);
+            if (size == 0)
+                return err_type(0, y->type, 0, 0);
             buf = U8(size);
             size = ser_raw(AS_U8(buf), y);
             fs_fwrite(x->i32, AS_C8(buf), size);
diff --git a/core/ipc.c b/core/ipc.c
index 2b21bb9..37d1726 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -401,6 +401,10 @@ nil_t ipc_send_msg(poll_p poll, selector_p selector, obj_p msg, u8_t msgtype) {
 
     LOG_TRACE("Serializing message");
     size = size_obj(msg);
+    if (size == 0) {
+        msg = err_type(0, msg->type, 0, 0);
+        size = size_obj(msg);
+    }
     buf = poll_buf_create(ISIZEOF(struct ipc_header_t) + size);
 
     header = (ipc_header_t *)buf->data;
diff --git a/core/serde.c b/core/serde.c
index e233a2b..7228ca7 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -84,10 +84,11 @@ i64_t size_of(obj_p obj) {
 }
 
 /*
- * Returns size (in bytes) that an obj occupy in memory via serialization
+ * Returns size (in bytes) that an obj occupy in memory via serialization,
+ * zero if it (or a part of it) can not be serialized
  */
 i64_t size_obj(obj_p obj) {
-    i64_t i, l, size;
+    i64_t i, l, n, size;
 
     switch (obj->type) {
         case -TYPE_B8:
@@ -139,14 +140,22 @@ i64_t size_obj(obj_p obj) {
         case TYPE_LIST:
             l = obj->len;
             size = ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t);
-            for (i = 0; i < l; i++)
-                size += size_obj(AS_LIST(obj)[i]);
+            for (i = 0; i < l; i++) {
+                n = size_obj(AS_LIST(obj)[i]);
+                if (n == 0)
+                    return 0;
+                size += n;
+            }
             return size;
         case TYPE_TABLE:
         case TYPE_DICT:
-            return ISIZEOF(i8_t) + 1 + size_obj(AS_LIST(obj)[0]) + size_obj(AS_LIST(obj)[1]);
+            l = size_obj(AS_LIST(obj)[0]);
+            n = size_obj(AS_LIST(obj)[1]);
+            return (l == 0 || n == 0) ? 0 : ISIZEOF(i8_t) + 1 + l + n;
         case TYPE_LAMBDA:
-            return ISIZEOF(i8_t) + 1 + size_obj(AS_LAMBDA(obj)->args) + size_obj(AS_LAMBDA(obj)->body);
+            l = size_obj(AS_LAMBDA(obj)->args);
+            n = size_obj(AS_LAMBDA(obj)->body);
+            return (l == 0 || n == 0) ? 0 : ISIZEOF(i8_t) + 1 + l + n;
         case TYPE_UNARY:
         case TYPE_BINARY:
         case TYPE_VARY:
-- 
2.43.0


From b26709edffbbd7908e173b09906984dbac0df94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:47 +0000
Subject: [PATCH 52/64] fix: deeply nested serialized data exhausted the stack

---
 core/serde.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/core/serde.c b/core/serde.c
index 7228ca7..5f867c7 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -373,11 +373,17 @@ obj_p ser_obj(obj_p obj) {
     return buf;
 }
 
-obj_p de_raw(u8_t *buf, i64_t *len) {
+// Values nested deeper than this are not read: it would exhaust the stack
+#define DE_MAX_DEPTH 4096
+
+static obj_p de_value(u8_t *buf, i64_t *len, i64_t depth) {
     i64_t i, l, c, id;
     obj_p obj, k, v;
     i8_t type;
 
+    if (depth > DE_MAX_DEPTH)
+        return err_domain(0, 0);
+
     if (*len == 0)
         return NULL_OBJ;
 
@@ -600,7 +606,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                         return obj;
                     c = *len;
                     for (i = 0; i < l; i++) {
-                        v = de_raw(buf + c - *len, len);
+                        v = de_value(buf + c - *len, len, depth + 1);
                         if (IS_ERR(v)) {
                             obj->len = i;
                             drop_obj(obj);
@@ -621,12 +627,12 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
-            k = de_raw(buf, len);
+            k = de_value(buf, len, depth + 1);
 
             if (IS_ERR(k))
                 return k;
 
-            v = de_raw(buf + c - *len, len);
+            v = de_value(buf + c - *len, len, depth + 1);
 
             if (IS_ERR(v)) {
                 drop_obj(k);
@@ -644,12 +650,12 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
-            k = de_raw(buf, len);
+            k = de_value(buf, len, depth + 1);
 
             if (IS_ERR(k))
                 return k;
 
-            v = de_raw(buf + c - *len, len);
+            v = de_value(buf + c - *len, len, depth + 1);
 
             if (IS_ERR(v)) {
                 drop_obj(k);
@@ -710,6 +716,8 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
     }
 }
 
+obj_p de_raw(u8_t *buf, i64_t *len) { return de_value(buf, len, 0); }
+
 obj_p de_obj(obj_p obj) {
     i64_t len;
     u8_t *buf;
-- 
2.43.0


From db6b8509d636db1a14e6b8a2d4284ca854e05fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:47 +0000
Subject: [PATCH 53/64] fix: serialized data could describe tables without
 columns and dictionaries of scalars

---
 core/serde.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/core/serde.c b/core/serde.c
index 5f867c7..a87fb96 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -376,6 +376,21 @@ obj_p ser_obj(obj_p obj) {
 // Values nested deeper than this are not read: it would exhaust the stack
 #define DE_MAX_DEPTH 4096
 
+// names and columns make a table: a column for each name, all of the same length
+static b8_t de_is_table(obj_p names, obj_p cols) {
+    i64_t i;
+
+    if (names->type != TYPE_SYMBOL || cols->type != TYPE_LIST || (cols->len != names->len && cols->len != 0))
+        return B8_FALSE;
+
+    for (i = 0; i < cols->len; i++) {
+        if (AS_LIST(cols)[i]->type < 0 || ops_count(AS_LIST(cols)[i]) != ops_count(AS_LIST(cols)[0]))
+            return B8_FALSE;
+    }
+
+    return B8_TRUE;
+}
+
 static obj_p de_value(u8_t *buf, i64_t *len, i64_t depth) {
     i64_t i, l, c, id;
     obj_p obj, k, v;
@@ -639,6 +654,12 @@ static obj_p de_value(u8_t *buf, i64_t *len, i64_t depth) {
                 return v;
             }
 
+            if (!((type == TYPE_TABLE) ? de_is_table(k, v) : (k->type >= 0 && v->type >= 0))) {
+                drop_obj(k);
+                drop_obj(v);
+                return err_domain(0, 0);
+            }
+
             if (type == TYPE_TABLE)
                 return table(k, v);
             else
@@ -662,6 +683,12 @@ static obj_p de_value(u8_t *buf, i64_t *len, i64_t depth) {
                 return v;
             }
 
+            if (k->type < 0 || (k->type != TYPE_SYMBOL && k->len != 0)) {
+                drop_obj(k);
+                drop_obj(v);
+                return err_domain(0, 0);
+            }
+
             return lambda(k, v, NULL_OBJ);
 
         case TYPE_UNARY:
-- 
2.43.0


From 5f7d3e0b7fc94e2e6ca15c635e0025f49dbdbaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:29 +0000
Subject: [PATCH 54/64] fix: booleans read from serialized data could be
 neither true nor false

---
 core/serde.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/serde.c b/core/serde.c
index a87fb96..5717b52 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -412,7 +412,7 @@ static obj_p de_value(u8_t *buf, i64_t *len, i64_t depth) {
         case -TYPE_B8:
             if (*len < 1)
                 return err_domain(0, 0);
-            obj = b8(buf[0]);
+            obj = b8(buf[0] != 0);
             buf++;
             (*len)--;
             return obj;
@@ -520,7 +520,11 @@ static obj_p de_value(u8_t *buf, i64_t *len, i64_t depth) {
                     obj->type = type;
                     if (IS_ERR(obj))
                         return obj;
-                    memcpy(AS_U8(obj), buf, l * ISIZEOF(u8_t));
+                    if (type == TYPE_B8) {
+                        for (i = 0; i < l; i++)
+                            AS_B8(obj)[i] = buf[i] != 0;
+                    } else
+                        memcpy(AS_U8(obj), buf, l * ISIZEOF(u8_t));
                     buf += l * ISIZEOF(u8_t);
                     (*len) -= l * ISIZEOF(u8_t);
                     return obj;
-- 
2.43.0


From 6a936ecad82feaef9e1451b0e626258c7a72ce18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:24 +0000
Subject: [PATCH 55/64] fix: a pattern that ran out before the text did not
 retry its last star

---
 core/string.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/string.c b/core/string.c
index 5ab57fc..b0e8074 100644
--- a/core/string.c
+++ b/core/string.c
@@ -511,8 +511,14 @@ b8_t str_match(str_p str, i64_t str_len, str_p pat, i64_t pat_len) {
     i64_t last_star_str_pos = 0;         // Track corresponding string position
 
     while (str_pos < str_len) {
-        if (pat_pos >= pat_len)
-            return B8_FALSE;
+        if (pat_pos >= pat_len) {
+            // Text is left - backtrack to last '*' if possible
+            if (last_star_pat_pos == NULL_I64)
+                return B8_FALSE;
+            pat_pos = last_star_pat_pos + 1;
+            str_pos = ++last_star_str_pos;
+            continue;
+        }
 
         switch (pat[pat_pos]) {
             case '*':
-- 
2.43.0


From 620e1ee92a17b14320cc8adbb2348bce1e803ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:12 +0000
Subject: [PATCH 56/64] fix: sorting ordered -0.0 before an equal 0.0

---
 core/sort.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/sort.c b/core/sort.c
index a202a20..4eee80f 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -272,6 +272,10 @@ static inline u64_t f64_to_sortable_u64(f64_t value) {
     if (ISNANF64(value)) {
         return 0ull;
     }
+    // -0.0 equals 0.0: both get the same key, or equal elements lose their order
+    if (value == 0.0) {
+        return 0x8000000000000000ULL;
+    }
     u.f = value;
 
     // Flip sign bit for negative values to maintain correct ordering
-- 
2.43.0


From 0fcdddbe41f6ff7fd0350dacee3fcd5fea08212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:12 +0000
Subject: [PATCH 57/64] fix: sorting a vector marked as sorted the other way
 reversed equal elements

---
 core/sort.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/sort.c b/core/sort.c
index 4eee80f..0827dfc 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -446,7 +446,8 @@ obj_p ray_sort_asc(obj_p vec) {
         return indices;
     }
 
-    if (vec->attrs & ATTR_DESC) {
+    // equal elements keep their order: a descending vector is only reversed when it has none
+    if ((vec->attrs & ATTR_DESC) && (vec->attrs & ATTR_DISTINCT)) {
         indices = I64(len);
         indices->attrs = ATTR_DESC | ATTR_DISTINCT;
         iota_ctx_t ctx = {AS_I64(indices), len};
@@ -707,7 +708,8 @@ obj_p ray_sort_desc(obj_p vec) {
         return indices;
     }
 
-    if (vec->attrs & ATTR_ASC) {
+    // equal elements keep their order: an ascending vector is only reversed when it has none
+    if ((vec->attrs & ATTR_ASC) && (vec->attrs & ATTR_DISTINCT)) {
         indices = I64(len);
         indices->attrs = ATTR_DESC | ATTR_DISTINCT;
         iota_ctx_t ctx = {AS_I64(indices), len};
-- 
2.43.0


From 9eb60264099f4948d30fd4a452dc9c109afc9ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:12 +0000
Subject: [PATCH 58/64] fix: sorting a single symbol returned an uninitialised
 position

---
 core/sort.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/sort.c b/core/sort.c
index 0827dfc..c15024e 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -891,8 +891,8 @@ static obj_p optimized_sort(obj_p vec, i64_t asc) {
     obj_p res;
     i64_t len = vec->len;
 
-    if (len <= 1)
-        return I64(len);
+    if (len == 0)
+        return I64(0);
 
     // Small arrays: use insertion sort
     if (len <= 32) {
-- 
2.43.0


From 0f1de4b72c156857382f23c7323666329d940b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:12 +0000
Subject: [PATCH 59/64] fix: longer symbol vectors were sorted by interned ids
 instead of by text

---
 core/sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/sort.c b/core/sort.c
index c15024e..34b3c31 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -917,10 +917,10 @@ static obj_p optimized_sort(obj_p vec, i64_t asc) {
     }
 
     // For larger arrays: try counting sort first for integer types
+    // (not for symbols: they are ordered by their text, not by their ids)
     switch (vec->type) {
         case TYPE_I64:
         case TYPE_TIME:
-        case TYPE_SYMBOL:
             res = counting_sort_i64(vec, asc);
             if (res)
                 return res;
-- 
2.43.0


From d5525ff3897293e9a2da7f95135251aab9a7d17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:37 +0000
Subject: [PATCH 60/64] fix: a vector modified in place kept its mark of being
 sorted

---
 core/rayforce.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index f0646cb..69191d9 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -3044,12 +3044,20 @@ obj_p copy_obj(obj_p obj) {
     }
 }
 
+// What was known about the order of the elements does not hold any more once they are modified
+static obj_p unmark_obj(obj_p obj) {
+    if (obj->type >= TYPE_LIST && obj->type < TYPE_LAMBDA)
+        obj->attrs &= ~(ATTR_ASC | ATTR_DESC | ATTR_DISTINCT);
+
+    return obj;
+}
+
 obj_p cow_obj(obj_p obj) {
     u32_t rc;
 
     // Complex types like enumerations or anymap may not be modified inplace
     if (obj->type == TYPE_ENUM || obj->type == TYPE_MAPLIST)
-        return copy_obj(obj);
+        return unmark_obj(copy_obj(obj));
 
     /*
     Since it is forbidden to modify globals from several threads simultenously,
@@ -3063,10 +3071,10 @@ obj_p cow_obj(obj_p obj) {
 
     // we only own the reference, so we can freely modify it
     if (rc == 1)
-        return obj;
+        return unmark_obj(obj);
 
     // we don't own the reference, so we need to copy object
-    return copy_obj(obj);
+    return unmark_obj(copy_obj(obj));
 }
 
 u32_t rc_obj(obj_p obj) {
-- 
2.43.0


From 7e612887be535116d25274f9da33703c0617e152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:51 +0000
Subject: [PATCH 61/64] fix: modifying a shared vector of dates or times in
 place lost its elements

---
 core/rayforce.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index 69191d9..5fdc741 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -3017,6 +3017,8 @@ obj_p copy_obj(obj_p obj) {
         case TYPE_C8:
         case TYPE_I16:
         case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
-- 
2.43.0


From cca4acc733f3cfbf7b68de352c932e6cbad59de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:27 +0000
Subject: [PATCH 62/64] fix: an i16 vector marked as sorted could not be sorted
 the other way

---
 core/compose.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/compose.c b/core/compose.c
index 0c6f832..4423aad 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -156,6 +156,15 @@ obj_p ray_reverse(obj_p x) {
                 AS_C8(res)[l - i - 1] = AS_C8(x)[i];
             break;
 
+        case TYPE_I16:
+            l = x->len;
+            res = I16(l);
+
+            for (i = 0; i < l; i++)
+                AS_I16(res)[i] = AS_I16(x)[l - i - 1];
+
+            break;
+
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
-- 
2.43.0


From 14f7ffa87f03fba724f153e5be48d29637749d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:27 +0000
Subject: [PATCH 63/64] fix: ranks in a vector marked as descending reversed
 equal elements

---
 core/order.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/order.c b/core/order.c
index 607ea91..2ccaa94 100644
--- a/core/order.c
+++ b/core/order.c
@@ -526,7 +526,8 @@ obj_p ray_rank(obj_p x) {
         drop_obj(n);
         return res;
     }
-    if (x->attrs & ATTR_DESC) {
+    // equal elements keep their order
+    if ((x->attrs & ATTR_DESC) && (x->attrs & ATTR_DISTINCT)) {
         l = x->len;
         res = I64(l);
         if (IS_ERR(res))
@@ -628,7 +629,8 @@ obj_p ray_xrank(obj_p y, obj_p x) {
         pool_map(l, xrank_asc_worker, &ctx);
         return res;
     }
-    if (y->attrs & ATTR_DESC) {
+    // equal elements keep their order
+    if ((y->attrs & ATTR_DESC) && (y->attrs & ATTR_DISTINCT)) {
         xrank_asc_ctx_t ctx = {AS_I64(res), n_buckets, l};
         pool_map(l, xrank_desc_worker, &ctx);
         return res;
-- 
2.43.0


From f35ef95e4472e9299d2a755c80c578813a8e77cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:11 +0000
Subject: [PATCH 64/64] fix: dropping a lambda left its local environment
 allocated

---
 core/rayforce.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index 5fdc741..6753531 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2964,6 +2964,7 @@ nil_t __attribute__((hot)) drop_obj(obj_p obj) {
             drop_obj(AS_LAMBDA(obj)->bc);
             drop_obj(AS_LAMBDA(obj)->consts);
             drop_obj(AS_LAMBDA(obj)->dbg);
+            drop_obj(AS_LAMBDA(obj)->env);
             heap_free(obj);
             return;
         case TYPE_NULL:
-- 
2.43.0

