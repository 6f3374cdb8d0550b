From 61932a4263baabd9e8f2a52dcb7316be181b6495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:42 +0000
Subject: [PATCH 01/58] verif hook: observable and forceable garbage collection
 (SCM_VERIF_HOOKS)

---
 src/storage-gc.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/storage-gc.c b/src/storage-gc.c
index 04bbf9d..305a574 100644
--- a/src/storage-gc.c
+++ b/src/storage-gc.c
@@ -207,6 +207,30 @@ scm_fin_gc(void)
     SCM_GLOBAL_VARS_FIN(static_gc);
 }
 
+#ifdef SCM_VERIF_HOOKS
+/* Called on every cell allocation. A nonzero result forces a collection. */
+int (*scm_verif_alloc_hook)(void);
+
+/* Collects garbage and reports the numbers of cells in use and in total. */
+void
+scm_verif_collect(size_t *used, size_t *total)
+{
+    ScmObj cell;
+    size_t n_free;
+
+    gc_mark();
+    gc_sweep();
+    for (n_free = 0, cell = l_freelist;
+         !NULLP(cell);
+         cell = SCM_FREECELL_NEXT(cell))
+    {
+        n_free++;
+    }
+    *total = l_n_heaps * l_heap_size;
+    *used = *total - n_free;
+}
+#endif /* SCM_VERIF_HOOKS */
+
 SCM_EXPORT ScmObj
 scm_alloc_cell(void)
 {
@@ -218,6 +242,10 @@ scm_alloc_cell(void)
     l_allocating = scm_true;
 #endif
 
+#ifdef SCM_VERIF_HOOKS
+    if (scm_verif_alloc_hook && (*scm_verif_alloc_hook)())
+        gc_mark_and_sweep();
+#endif
     if (NULLP(l_freelist))
         gc_mark_and_sweep();
     SCM_ASSERT(SCM_FREECELLP(l_freelist));
-- 
2.43.0


From 68d4a1c4fcf2cba825d0aecd6bcfa4e9912318d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:23 +0000
Subject: [PATCH 02/58] verif hook: forced collections do not grow the heap

---
 src/storage-gc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage-gc.c b/src/storage-gc.c
index 305a574..e13d664 100644
--- a/src/storage-gc.c
+++ b/src/storage-gc.c
@@ -243,8 +243,10 @@ scm_alloc_cell(void)
 #endif
 
 #ifdef SCM_VERIF_HOOKS
-    if (scm_verif_alloc_hook && (*scm_verif_alloc_hook)())
-        gc_mark_and_sweep();
+    if (scm_verif_alloc_hook && (*scm_verif_alloc_hook)()) {
+        gc_mark();
+        gc_sweep();
+    }
 #endif
     if (NULLP(l_freelist))
         gc_mark_and_sweep();
-- 
2.43.0


From 37da11d5753c75a04325ea06fd8b2898a15c4266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 03/58] fix: overflow and division traps in /, quotient,
 modulo, remainder, expt, gcd and lcm

(quotient (least-fixnum) -1) and friends trapped or returned a wrong number,
(lcm 0 0) divided by zero, and expt, gcd and lcm returned wrong numbers when
the result was not representable.
---
 src/number.c | 104 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 78 insertions(+), 26 deletions(-)

diff --git a/src/number.c b/src/number.c
index 722cd90..fda5a4d 100644
--- a/src/number.c
+++ b/src/number.c
@@ -58,10 +58,41 @@
 /*=======================================
   File Local Function Declarations
 =======================================*/
+static scm_bool mul_overflowp(scm_int_t l, scm_int_t r);
+static scm_bool div_overflowp(scm_int_t l, scm_int_t r);
+static uintmax_t int_abs(scm_int_t n);
+static uintmax_t gcd(scm_int_t x, scm_int_t y);
 
 /*=======================================
   Function Definitions
 =======================================*/
+/* Whether l * r cannot be represented as a Scheme integer. Signed overflow is
+ * undefined in C, so that the operation itself must not be tried. */
+static scm_bool
+mul_overflowp(scm_int_t l, scm_int_t r)
+{
+    if (l == 0 || r == 0)
+        return scm_false;
+    if (l > 0)
+        return (r > 0) ? (l > SCM_INT_MAX / r) : (r < SCM_INT_MIN / l);
+    else
+        return (r > 0) ? (l < SCM_INT_MIN / r) : (l < SCM_INT_MAX / r);
+}
+
+/* The only overflow of integer division is the least integer by -1. */
+static scm_bool
+div_overflowp(scm_int_t l, scm_int_t r)
+{
+    return (l == SCM_INT_MIN && r == -1);
+}
+
+/* capable of -SCM_INT_MIN */
+static uintmax_t
+int_abs(scm_int_t n)
+{
+    return (n < 0) ? -(uintmax_t)n : (uintmax_t)n;
+}
+
 /*===========================================================================
   R5RS : 6.2 Numbers : 6.2.5 Numerical Operations
 ===========================================================================*/
@@ -174,6 +205,8 @@ scm_p_divide(ScmObj left, ScmObj right, enum ScmReductionState *state)
         val = SCM_INT_VALUE(right);
         if (val == 0)
             ERR(ERRMSG_DIV_BY_ZERO);
+        if (div_overflowp(result, val))
+            ERR(ERRMSG_FIXNUM_OVERFLOW);
         result /= val;
         break;
 
@@ -367,6 +400,8 @@ scm_p_quotient(ScmObj _n1, ScmObj _n2)
     n2 = SCM_INT_VALUE(_n2);
     if (n2 == 0)
         ERR(ERRMSG_DIV_BY_ZERO);
+    if (div_overflowp(n1, n2))
+        ERR(ERRMSG_FIXNUM_OVERFLOW);
 
     /*
      * ISO/IEC 9899:1999(E):
@@ -395,7 +430,7 @@ scm_p_modulo(ScmObj _n1, ScmObj _n2)
     if (n2 == 0)
         ERR(ERRMSG_DIV_BY_ZERO);
 
-    rem = n1 % n2;
+    rem = (n2 == -1) ? 0 : n1 % n2;  /* SCM_INT_MIN % -1 may trap */
     if (rem && ((n1 < 0 && 0 < n2) || (n2 < 0 && 0 < n1)))
         rem += n2;
 
@@ -416,7 +451,7 @@ scm_p_remainder(ScmObj _n1, ScmObj _n2)
     if (n2 == 0)
         ERR(ERRMSG_DIV_BY_ZERO);
 
-    return MAKE_INT(n1 % n2);
+    return MAKE_INT((n2 == -1) ? 0 : n1 % n2);  /* SCM_INT_MIN % -1 may trap */
 }
 
 SCM_EXPORT ScmObj
@@ -437,77 +472,94 @@ scm_p_expt(ScmObj _base, ScmObj _expo)
 
     result = 1;
     while (expo > 0) {
-        if (expo % 2 == 1)
+        if (expo % 2 == 1) {
+            if (mul_overflowp(result, base))
+                ERR(ERRMSG_FIXNUM_OVERFLOW);
             result *= base;
-        base *= base;
+        }
         expo /= 2;
+        if (expo > 0) {
+            if (mul_overflowp(base, base))
+                ERR(ERRMSG_FIXNUM_OVERFLOW);
+            base *= base;
+        }
     }
     return MAKE_INT(result);
 }
 
-static scm_int_t gcd(scm_int_t x, scm_int_t y)
+static uintmax_t
+gcd(scm_int_t x, scm_int_t y)
 {
-    /* Note: we do not check the sign of x and y, because
-       this does not affect the computation, except maybe
-       for the sign of the result. So we do compute the
-       absolute value in the end. This is one single
-       computation of abs, instead of two. */
-    scm_int_t tmp;
-    while (x != 0) {
-        tmp = x;
-        x = y % x;
-        y = tmp;
+    uintmax_t ux, uy, tmp;
+
+    ux = int_abs(x);
+    uy = int_abs(y);
+    while (ux != 0) {
+        tmp = ux;
+        ux = uy % ux;
+        uy = tmp;
     }
-    return (y >= 0) ? y : -y;
+    return uy;
 }
 
 SCM_EXPORT
 ScmObj scm_p_gcd(ScmObj left, ScmObj right, enum ScmReductionState *state)
 {
-    scm_int_t result;
+    scm_int_t l;
+    uintmax_t result;
     DECLARE_FUNCTION("gcd", reduction_operator);
 
     result = 0;
+    l = 0;
     switch (*state) {
     case SCM_REDUCE_PARTWAY:
     case SCM_REDUCE_LAST:
         ENSURE_INT(left);
-        result = SCM_INT_VALUE(left);
+        l = SCM_INT_VALUE(left);
         /* Fall through. */
     case SCM_REDUCE_1:
         ENSURE_INT(right);
-        result = gcd(result, SCM_INT_VALUE(right));
+        result = gcd(l, SCM_INT_VALUE(right));
+        if (result > (uintmax_t)SCM_INT_MAX)
+            ERR(ERRMSG_FIXNUM_OVERFLOW);
         /* Fall through. */
     case SCM_REDUCE_0:
         break;
     default:
         SCM_NOTREACHED;
     }
-    return MAKE_INT(result);
+    return MAKE_INT((scm_int_t)result);
 }
 
 SCM_EXPORT ScmObj
 scm_p_lcm(ScmObj left, ScmObj right, enum ScmReductionState *state)
 {
-    scm_int_t result;
+    scm_int_t l, r;
+    uintmax_t ul, ur;
     DECLARE_FUNCTION("lcm", reduction_operator);
 
-    result = 1;
+    l = r = 1;
     switch (*state) {
     case SCM_REDUCE_PARTWAY:
     case SCM_REDUCE_LAST:
         ENSURE_INT(left);
-        result = SCM_INT_VALUE(left);
+        l = SCM_INT_VALUE(left);
         /* Fall through. */
     case SCM_REDUCE_1:
         ENSURE_INT(right);
-        result *= SCM_INT_VALUE(right) / gcd(result, SCM_INT_VALUE(right));
+        r = SCM_INT_VALUE(right);
         /* Fall through. */
     case SCM_REDUCE_0:
         break;
     default:
         SCM_NOTREACHED;
     }
-    if (result < 0) result = -result;
-    return MAKE_INT(result);
+    if (l == 0 || r == 0)
+        return MAKE_INT(0);
+
+    ul = int_abs(l) / gcd(l, r);
+    ur = int_abs(r);
+    if (ul > (uintmax_t)SCM_INT_MAX / ur)
+        ERR(ERRMSG_FIXNUM_OVERFLOW);
+    return MAKE_INT((scm_int_t)(ul * ur));
 }
-- 
2.43.0


From 0c2b93ce3a365374c18acc8b5134f193dbc7fbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 04/58] fix: number->string and string->number truncated the
 radix to int

A radix such as 4294967306 was accepted as 10.
---
 src/number-io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number-io.c b/src/number-io.c
index b314eb2..41400a6 100644
--- a/src/number-io.c
+++ b/src/number-io.c
@@ -78,7 +78,7 @@ static int
 prepare_radix(const char *funcname, ScmObj args)
 {
     ScmObj radix;
-    int r;
+    scm_int_t r;
     DECLARE_INTERNAL_FUNCTION("(internal)");
 
     ASSERT_PROPER_ARG_LIST(args);
@@ -97,7 +97,7 @@ prepare_radix(const char *funcname, ScmObj args)
             ERR_OBJ("invalid radix", radix);
     }
 
-    return r;
+    return (int)r;
 }
 
 SCM_EXPORT char *
-- 
2.43.0


From ef205d9513902088473e6de1793a93daf608b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:10 +0000
Subject: [PATCH 05/58] fix: apply and define-macro let the callee modify the
 caller's argument list

---
 src/eval.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/eval.c b/src/eval.c
index e437abb..5805ad2 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -261,6 +261,10 @@ call(ScmObj proc, ScmObj args, ScmEvalState *eval_state,
 
                 toplevelp = SCM_DEFINABLE_TOPLEVELP(eval_state);
 
+                /* The form must not be modified by the parameters of the
+                 * transformer: the args becomes its environment frame. */
+                if (PROPER_LISTP(args))
+                    args = scm_p_append(LIST_2(args, SCM_NULL));
                 ret = call_closure(proc, args, eval_state, SCM_VALTYPE_AS_IS);
                 /* eval the result into an as-is object */
                 ret = SCM_FINISH_TAILREC_CALL(ret, eval_state);
@@ -788,6 +792,12 @@ scm_p_apply(ScmObj proc, ScmObj arg0, ScmObj rest, ScmEvalState *eval_state)
     }
 
     ENSURE_LIST(last);
+    if (!PROPER_LISTP(last))
+        ERR_OBJ(SCM_ERRMSG_IMPROPER_ARGS, last);
+
+    /* The caller's list must not be modified via the args: they become an
+     * environment frame, a rest argument list or so. */
+    args = scm_p_append(LIST_2(args, SCM_NULL));
 
     /* Since any tail recursive procedures called here return a tail expression
      * with SCM_VALTYPE_NEED_EVAL, evaluate such proc with call() does not
-- 
2.43.0


From 10bb00c6fbfecfcbcf25b890729a4ea1c0557073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 06/58] fix: list-tail and list-ref of a circular list with a
 negative index hung

---
 src/list.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/list.c b/src/list.c
index 0e41173..372817b 100644
--- a/src/list.c
+++ b/src/list.c
@@ -365,6 +365,9 @@ scm_p_reverse(ScmObj lst)
 SCM_EXPORT ScmObj
 scm_list_tail(ScmObj lst, scm_int_t k)
 {
+    if (k < 0)
+        return SCM_INVALID;
+
     while (k--) {
         if (!CONSP(lst))
             return SCM_INVALID;
-- 
2.43.0


From e4a33fa373f09d2a4d9c41dd2363d287f364114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 07/58] fix: Shift_JIS trail bytes 0x7E/0x7F were swapped and
 invalid code points were encoded

---
 src/encoding.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/encoding.c b/src/encoding.c
index d797963..ceacd9b 100644
--- a/src/encoding.c
+++ b/src/encoding.c
@@ -918,7 +918,7 @@ utf8_int2str(uchar *dst, scm_ichar_t ch, ScmMultibyteState state)
     && !IS_KANA(c)        \
     && (uchar)(c) <= 0xFC \
     && (uchar)(c) != 0xA0)
-#define IS_TRAIL(c) (0x40 <= (uchar)(c) && (uchar)(c) <= 0xFC && (c) != 0x7E)
+#define IS_TRAIL(c) (0x40 <= (uchar)(c) && (uchar)(c) <= 0xFC && (c) != 0x7F)
 
 static const char *
 sjis_encoding(void)
@@ -980,11 +980,16 @@ sjis_int2str(uchar *dst, scm_ichar_t ch, ScmMultibyteState state)
 
     if (IS_LEAD(high)) {
 #if SCM_STRICT_ENCODING_CHECK
-        if (!IS_TRAIL(high))
+        if (!IS_TRAIL(low))
             return NULL;
 #endif
         *dst++ = high;
     }
+#if SCM_STRICT_ENCODING_CHECK
+    else if (high || IS_LEAD(low)) {
+        return NULL;
+    }
+#endif
     *dst++ = low;
     *dst = '\0';
 
-- 
2.43.0


From b6a9dddf1eb59a728127f1a3956b8699691a462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 08/58] fix: overlong, surrogate and out-of-range UTF-8
 sequences were decoded to characters that cannot be encoded

---
 src/encoding.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/encoding.c b/src/encoding.c
index ceacd9b..b3866d4 100644
--- a/src/encoding.c
+++ b/src/encoding.c
@@ -746,6 +746,7 @@ euckr_scan_char(ScmMultibyteString mbs)
 /*==== Encodings for Unicode ====*/
 #define IN_OCT_BMP(u)  ((scm_ichar_t)(u) <= 0x7ff)
 #define IN_BMP(u)      ((scm_ichar_t)(u) <= 0xffff)
+#define IN_SURROGATE(u) (0xd800 <= (u) && (u) <= 0xdfff)
 #define IN_SMP(u)      ((scm_ichar_t)(u) <= 0x10ffff && !IN_BMP(u))
 
 #if SCM_USE_UTF8
@@ -813,6 +814,9 @@ utf8_scan_char(ScmMultibyteString mbs)
             if (!IS_TRAILING(str[i]))
                 RETURN_ERROR();
         }
+        /* overlong sequences, surrogates and out-of-range values */
+        if (utf8_char_len(utf8_str2int(str, len, SCM_MB_STATELESS)) != (int)len)
+            RETURN_ERROR();
     }
 #else  /* not SCM_STRICT_ENCODING_CHECK */
     if (size < len)
@@ -861,6 +865,10 @@ utf8_str2int(const uchar *src, size_t len, ScmMultibyteState state)
 static uchar *
 utf8_int2str(uchar *dst, scm_ichar_t ch, ScmMultibyteState state)
 {
+#if SCM_STRICT_ENCODING_CHECK
+    if (IN_SURROGATE(ch))
+        return NULL;
+#endif
     if (IS_ASCII(ch)) {
         *dst++ = ch;
     } else if (IN_OCT_BMP(ch)) {
-- 
2.43.0


From cc7cdd4bb15d8aa05e25a9f655b2f5231ab681c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 09/58] fix: integer->char accepted negative and truncated
 values in non-Unicode codecs

---
 src/char.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/char.c b/src/char.c
index 89cf5ad..1970eaa 100644
--- a/src/char.c
+++ b/src/char.c
@@ -275,7 +275,8 @@ scm_p_integer2char(ScmObj n)
 
     val = SCM_INT_VALUE(n);
 #if SCM_USE_MULTIBYTE_CHAR
-    if ((SCM_CHARCODEC_CCS(scm_current_char_codec) == SCM_CCS_UNICODE
+    if (val < 0 || (scm_ichar_t)val != val
+        || (SCM_CHARCODEC_CCS(scm_current_char_codec) == SCM_CCS_UNICODE
          && !ICHAR_VALID_UNICODEP(val))
         || (!SCM_CHARCODEC_CHAR_LEN(scm_current_char_codec, val)
             && val != 0))  /* NUL is a valid char */
-- 
2.43.0


From db8e4ea5ccda8e317ca94b12395769d3e33818b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 10/58] fix: NUL and characters invalid in the current codec
 corrupted strings or crashed list->string

---
 src/string-procedure.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/string-procedure.c b/src/string-procedure.c
index e33b9a1..1757b7a 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -208,6 +208,10 @@ scm_p_string_setx(ScmObj str, ScmObj k, ScmObj ch)
     ENSURE_MUTABLE_STRING(str);
     ENSURE_INT(k);
     ENSURE_CHAR(ch);
+#if !SCM_USE_NULL_CAPABLE_STRING
+    if (SCM_CHAR_VALUE(ch) == '\0')
+        ERR(SCM_ERRMSG_NULL_IN_STRING);
+#endif
 
     idx = SCM_INT_VALUE(k);
     c_str = SCM_STRING_STR(str);
@@ -500,6 +504,7 @@ scm_p_list2string(ScmObj lst)
     char *str, *dst;
 #if SCM_USE_MULTIBYTE_CHAR
     scm_ichar_t ch_val;
+    int ch_len;
 #endif
     DECLARE_FUNCTION("list->string", procedure_fixed_1);
 
@@ -522,9 +527,18 @@ scm_p_list2string(ScmObj lst)
     len = 0;
     FOR_EACH (ch, rest) {
         ENSURE_CHAR(ch);
+#if !SCM_USE_NULL_CAPABLE_STRING
+        if (SCM_CHAR_VALUE(ch) == '\0')
+            ERR(SCM_ERRMSG_NULL_IN_STRING);
+#endif
 #if SCM_USE_MULTIBYTE_CHAR
         ch_val = SCM_CHAR_VALUE(ch);
-        str_size += SCM_CHARCODEC_CHAR_LEN(scm_current_char_codec, ch_val);
+        ch_len = SCM_CHARCODEC_CHAR_LEN(scm_current_char_codec, ch_val);
+        if (!ch_len && ch_val)
+            ERR("invalid char 0x~MX for encoding ~S",
+                (scm_int_t)ch_val,
+                SCM_CHARCODEC_ENCODING(scm_current_char_codec));
+        str_size += ch_len;
 #else
         str_size++;
 #endif
@@ -534,10 +548,6 @@ scm_p_list2string(ScmObj lst)
 
     dst = str = scm_malloc(str_size);
     FOR_EACH (ch, lst) {
-#if !SCM_USE_NULL_CAPABLE_STRING
-        if (ch == '\0')
-            ERR(SCM_ERRMSG_NULL_IN_STRING);
-#endif
 #if SCM_USE_MULTIBYTE_CHAR
         dst = SCM_CHARCODEC_INT2STR(scm_current_char_codec, dst,
                                     SCM_CHAR_VALUE(ch), SCM_MB_STATELESS);
@@ -574,6 +584,10 @@ scm_p_string_fillx(ScmObj str, ScmObj ch)
     ENSURE_STRING(str);
     ENSURE_MUTABLE_STRING(str);
     ENSURE_CHAR(ch);
+#if !SCM_USE_NULL_CAPABLE_STRING
+    if (SCM_CHAR_VALUE(ch) == '\0')
+        ERR(SCM_ERRMSG_NULL_IN_STRING);
+#endif
 
     str_len = SCM_STRING_LEN(str);
     if (str_len == 0)
-- 
2.43.0


From ed63169ff53eef196ea93cd8bcfc831e47a37916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 11/58] fix: a NUL peeked from a port was lost and a truncated
 character at the end of a port was silently dropped

---
 src/scmport-mbchar.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/scmport-mbchar.c b/src/scmport-mbchar.c
index 2bbca59..9b66888 100644
--- a/src/scmport-mbchar.c
+++ b/src/scmport-mbchar.c
@@ -73,6 +73,7 @@ struct ScmMultiByteCharPort_ {  /* inherits ScmBaseCharPort */
 
     ScmCharCodec *codec;
     ScmMultibyteState rstate, wstate;
+    size_t rbuf_len;
     scm_byte_t rbuf[SCM_MB_CHAR_BUF_SIZE];
 };
 
@@ -136,7 +137,7 @@ ScmMultiByteCharPort_construct(ScmMultiByteCharPort *port,
     ScmBaseCharPort_construct((ScmBaseCharPort *)port, vptr, bport);
 
     port->codec = codec;
-    port->rbuf[0] = '\0';
+    port->rbuf_len = 0;
     SCM_MBCPORT_CLEAR_STATE(port);
 }
 
@@ -161,8 +162,8 @@ ScmMultiByteCharPort_set_codec(ScmCharPort *cport, ScmCharCodec *codec)
     mbcport->codec = codec;
     SCM_MBCPORT_CLEAR_STATE(mbcport);
     /* only one byte can be preserved for new codec. otherwise cleared */
-    if (1 < strlen((char *)mbcport->rbuf))
-        mbcport->rbuf[0] = '\0';
+    if (1 < mbcport->rbuf_len)
+        mbcport->rbuf_len = 0;
 }
 
 static ScmCharPort *
@@ -197,7 +198,7 @@ mbcport_get_char(ScmMultiByteCharPort *port)
 #endif
 
     ch = mbcport_peek_char(port);
-    port->rbuf[0] = '\0';
+    port->rbuf_len = 0;
 #if SCM_USE_STATEFUL_ENCODING
     SCM_MBCPORT_SET_STATE(port, next_state)
 #endif
@@ -259,7 +260,8 @@ mbcport_fill_rbuf(ScmMultiByteCharPort *port, scm_bool blockp)
     ScmMultibyteString mbs;
     ScmMultibyteCharInfo mbc;
 
-    end = (scm_byte_t *)strchr((char *)port->rbuf, '\0');
+    /* not null-terminated since NUL may be held */
+    end = &port->rbuf[port->rbuf_len];
     SCM_MBS_SET_STATE(mbs, port->rstate);
     do {
         SCM_MBS_SET_STR(mbs, (char *)port->rbuf);
@@ -278,14 +280,16 @@ mbcport_fill_rbuf(ScmMultiByteCharPort *port, scm_bool blockp)
         byte = SCM_BYTEPORT_GET_BYTE(port->bport);
         if (byte == SCM_ICHAR_EOF) {
             SCM_MBCINFO_INIT(mbc);
-            port->rbuf[0] = '\0';
+            port->rbuf_len = 0;
+            if (SCM_MBS_GET_SIZE(mbs))
+                SCM_CHARPORT_ERROR(port, "ScmMultibyteCharPort: incomplete character");
 #if HANDLE_MBC_START
             mbc->start = (char *)port->rbuf;
 #endif
             break;
         }
         *end++ = byte;
-        *end = '\0';
+        port->rbuf_len++;
     } while (blockp || SCM_BYTEPORT_BYTE_READYP(port->bport));
 
     return mbc;
-- 
2.43.0


From 4d5cab69df08ae35641c0d92c0b24e0d68725d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 12/58] fix: string-ref returned a byte of an invalid character
 sequence as a character

---
 src/string-procedure.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/string-procedure.c b/src/string-procedure.c
index 1757b7a..04f4449 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -174,10 +174,9 @@ scm_p_string_ref(ScmObj str, ScmObj k)
     SCM_MBS_INIT2(mbs, SCM_STRING_STR(str), strlen(SCM_STRING_STR(str)));
     mbs = scm_mb_strref(scm_current_char_codec, mbs, idx);
 
-    ch = SCM_CHARCODEC_STR2INT(scm_current_char_codec, SCM_MBS_GET_STR(mbs),
-                               SCM_MBS_GET_SIZE(mbs), SCM_MBS_GET_STATE(mbs));
-    if (ch == SCM_ICHAR_EOF)
+    if (!SCM_MBS_GET_SIZE(mbs))
         ERR("invalid char sequence");
+    ch = SCM_CHARCODEC_READ_CHAR(scm_current_char_codec, mbs);
 #else
     ch = ((unsigned char *)SCM_STRING_STR(str))[idx];
 #endif
-- 
2.43.0


From 56c4752f6f014282aefa0240f262672a3d340724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 13/58] fix: write omitted the semicolon of hex escapes in
 strings

---
 src/port.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/port.c b/src/port.c
index a8464c6..e86e295 100644
--- a/src/port.c
+++ b/src/port.c
@@ -82,7 +82,7 @@ SCM_EXPORT const ScmSpecialCharInfo scm_special_char_table[] = {
     /* control characters */
     {'\n',   "\\n",   "newline"},    /*  10, R5RS */
 #if SCM_USE_R6RS_NAMED_CHARS
-    {'\0',   "\\x00", "nul"},        /*   0 */
+    {'\0',   "\\x00;", "nul"},        /*   0 */
     {'\a',   "\\a",   "alarm"},      /*   7 */
     {'\b',   "\\b",   "backspace"},  /*   8 */
     {'\t',   "\\t",   "tab"},        /*   9 */
@@ -90,8 +90,8 @@ SCM_EXPORT const ScmSpecialCharInfo scm_special_char_table[] = {
     {'\v',   "\\v",   "vtab"},       /*  11 */
     {'\f',   "\\f",   "page"},       /*  12 */
     {'\r',   "\\r",   "return"},     /*  13 */
-    {0x1b,   "\\x1b", "esc"},        /*  27 */
-    {0x7f,   "\\x7f", "delete"},     /* 127 */
+    {0x1b,   "\\x1b;", "esc"},        /*  27 */
+    {0x7f,   "\\x7f;", "delete"},     /* 127 */
 #endif /* SCM_USE_R6RS_NAMED_CHARS */
     {0, NULL, NULL}
 };
-- 
2.43.0


From 237fa8d1719386acd151c46e9b8e7d79422e9956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 14/58] fix: writing a closed port object ended in the fatal
 error loop

---
 src/write.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/write.c b/src/write.c
index f34c9a1..5e263f6 100644
--- a/src/write.c
+++ b/src/write.c
@@ -539,12 +539,16 @@ write_port(ScmObj port, ScmObj obj, enum ScmOutputType otype)
     scm_port_puts(port, "port");
 
     /* file or string */
-    info = scm_port_inspect(obj);
-    if (*info) {
-        scm_port_put_char(port, ' ');
-        scm_port_puts(port, info);
+    if (SCM_PORT_IMPL(obj)) {
+        info = scm_port_inspect(obj);
+        if (*info) {
+            scm_port_put_char(port, ' ');
+            scm_port_puts(port, info);
+        }
+        free(info);
+    } else {
+        scm_port_puts(port, " closed");
     }
-    free(info);
 
     scm_port_put_char(port, '>');
 }
-- 
2.43.0


From d117ce3fac54404bb90389efe0c31f12143cbb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 15/58] fix: open-input-string read freed memory after its
 string was modified

---
 src/module-srfi6.c | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/module-srfi6.c b/src/module-srfi6.c
index cf1cb8b..aa32b6b 100644
--- a/src/module-srfi6.c
+++ b/src/module-srfi6.c
@@ -61,8 +61,6 @@
 /*=======================================
   File Local Function Declarations
 =======================================*/
-static void srfi6_istrport_finalize(char **str, scm_bool ownership,
-                                    void **opaque);
 
 /*=======================================
   Function Definitions
@@ -75,28 +73,18 @@ scm_initialize_srfi6(void)
     scm_register_funcs(scm_functable_srfi6);
 }
 
-static void
-srfi6_istrport_finalize(char **str, scm_bool ownership, void **opaque)
-{
-    SCM_ASSERT(!ownership);
-
-    scm_gc_unprotect((ScmObj *)opaque);
-}
-
 SCM_EXPORT ScmObj
 scm_p_srfi6_open_input_string(ScmObj str)
 {
-    ScmObj *hold_str;
     ScmBytePort *bport;
     ScmCharPort *cport;
     DECLARE_FUNCTION("open-input-string", procedure_fixed_1);
 
     ENSURE_STRING(str);
 
-    bport = ScmInputStrPort_new_const(SCM_STRING_STR(str),
-                                      srfi6_istrport_finalize);
-    hold_str = (ScmObj *)ScmInputStrPort_ref_opaque(bport);
-    scm_gc_protect_with_init(hold_str, str);
+    /* The port cannot refer to the buffer of the string directly since it may
+     * be reallocated or truncated by a string mutation. */
+    bport = ScmInputStrPort_new_copying(SCM_STRING_STR(str), NULL);
     cport = scm_make_char_port(bport);
     return MAKE_PORT(cport, SCM_PORTFLAG_INPUT);
 }
-- 
2.43.0


From 33c815acda47ed9a5ac84c0a6a27b174564abb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 16/58] fix: load-path without a library path crashed; library
 path dangled after finalization

---
 src/load.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index 7cd6c65..ad14acb 100644
--- a/src/load.c
+++ b/src/load.c
@@ -109,6 +109,7 @@ scm_fin_load(void)
     free(l_scm_lib_path);
     free(l_scm_system_load_path);
 
+    l_scm_lib_path = NULL;
     l_scm_system_load_path = NULL;
 
     SCM_GLOBAL_VARS_FIN(static_load);
@@ -149,7 +150,7 @@ scm_p_load_path(void)
 {
     DECLARE_FUNCTION("load-path", procedure_fixed_0);
 
-    return CONST_STRING(l_scm_lib_path);
+    return CONST_STRING((l_scm_lib_path) ? l_scm_lib_path : "");
 }
 
 SCM_EXPORT void
-- 
2.43.0


From 554c7082b36ca1e3402084b1d8ca511d7014dff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 17/58] fix: load refused files that begin with a # token other
 than a script prelude

---
 src/load.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index ad14acb..1c6fa05 100644
--- a/src/load.c
+++ b/src/load.c
@@ -88,6 +88,7 @@ static void *scm_load_internal(const char *filename);
 static char *find_path(const char *filename);
 static scm_bool file_existsp(const char *filepath);
 #if SCM_USE_SRFI22
+static scm_bool has_script_prelude(const char *filepath);
 static void interpret_script_prelude(ScmObj port);
 static char **parse_script_prelude(ScmObj port);
 #endif
@@ -221,7 +222,7 @@ scm_load_internal(const char *filename)
     saved_codec = scm_current_char_codec;
 #endif
 #if SCM_USE_SRFI22
-    if (scm_port_peek_char(port) == '#')
+    if (has_script_prelude(SCM_STRING_STR(path)))
         interpret_script_prelude(port);
 #endif
 
@@ -317,6 +318,23 @@ scm_p_load(ScmObj filename)
 }
 
 #if SCM_USE_SRFI22
+/* Only "#!" starts a script prelude: a file may also begin with an ordinary
+ * Scheme token such as #t, #(), #\a or #|. */
+static scm_bool
+has_script_prelude(const char *filepath)
+{
+    FILE *f;
+    scm_bool ret;
+
+    f = fopen(filepath, "r");
+    if (!f)
+        return scm_false;
+    ret = (getc(f) == '#' && getc(f) == '!');
+    fclose(f);
+
+    return ret;
+}
+
 static void
 interpret_script_prelude(ScmObj port)
 {
-- 
2.43.0


From 22ef987f30d49c32971c95b3c66b7ba5012cf862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 18/58] fix: the reader aborted on a backslash or control
 character

---
 src/read.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/read.c b/src/read.c
index 4548494..d95dd0c 100644
--- a/src/read.c
+++ b/src/read.c
@@ -533,7 +533,6 @@ read_sexpression(ScmObj port)
             return read_number_or_peculiar(port);
 
         /* case labels are ordered by appearance rate and penalty cost */
-        SCM_ASSERT(ch_class == SCM_CH_TOKEN_INITIAL || c == SCM_ICHAR_EOF);
         SCM_ASSERT(c != ';');
         DISCARD_LOOKAHEAD(port);
         switch (c) {
@@ -616,7 +615,9 @@ read_sexpression(ScmObj port)
             /* NOTREACHED */
 
         default:
-            SCM_NOTREACHED;
+            /* backslash or control character */
+            ERR("invalid character: 0x~MX", (scm_int_t)c);
+            /* NOTREACHED */
         }
     }
 }
-- 
2.43.0


From 80d42a415d2a90ad1ba6de952218745bd57b24cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 19/58] fix: character literals at EOF, with a non-ASCII prefix
 or above #x7fffffff were misread

---
 src/read.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/read.c b/src/read.c
index d95dd0c..b0a0588 100644
--- a/src/read.c
+++ b/src/read.c
@@ -712,7 +712,7 @@ read_list(ScmObj port, scm_ichar_t closing_paren)
 static scm_ichar_t
 parse_unicode_sequence(const char *seq, int len)
 {
-    scm_ichar_t c;
+    scm_int_t c;
     int err;
     DECLARE_INTERNAL_FUNCTION("read");
 
@@ -729,7 +729,7 @@ parse_unicode_sequence(const char *seq, int len)
      * the sequence of <digit 16>s forms a hexadecimal number between 0 and
      * #x10FFFF excluding the range [#xD800, #xDFFF] */
     if (!ICHAR_VALID_UNICODEP(c))
-        ERR("invalid Unicode value: 0x~MX", (scm_int_t)c);
+        ERR("invalid Unicode value: 0x~MX", c);
 
     return c;
 }
@@ -776,6 +776,8 @@ read_char(ScmObj port)
 
     /* raw char (multibyte-ready) */
     c = scm_port_get_char(port);
+    if (c == SCM_ICHAR_EOF)
+        ERR("EOF in character literal");
     next = scm_port_peek_char(port);
     if (ICHAR_ASCII_CLASS(next) & SCM_CH_DELIMITER || next == SCM_ICHAR_EOF) {
 #if !SCM_USE_R6RS_CHARS
@@ -785,9 +787,9 @@ read_char(ScmObj port)
         return MAKE_CHAR(c);
     }
 
-    buf[0] = c;
+    buf[0] = (ICHAR_ASCIIP(c)) ? c : '\0';
     len = read_token(port, &err, &buf[1], sizeof(buf) - 1, SCM_CH_DELIMITER);
-    if (err == TOKEN_BUF_EXCEEDED)
+    if (err == TOKEN_BUF_EXCEEDED || !buf[0])
         ERR("invalid character literal");
 
     CDBG((SCM_DBG_PARSER, "read_char: ch = ~S", buf));
-- 
2.43.0


From 0995e845e3fe4853c8b01eeee4051e54a98947d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 20/58] fix: a list element starting with ... was split instead
 of refused

---
 src/read.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/read.c b/src/read.c
index b0a0588..8950d67 100644
--- a/src/read.c
+++ b/src/read.c
@@ -673,6 +673,8 @@ read_list(ScmObj port, scm_ichar_t closing_paren)
              * '...' and numbers in R5RS (See "7.1.1 Lexical structure"), the
              * fixed size buffer can safely buffer them. */
             read_token(port, &err, dot_buf, sizeof(dot_buf), SCM_CH_DELIMITER);
+            if (err == TOKEN_BUF_EXCEEDED)
+                ERR("bad dot syntax");
 
             if (dot_buf[1] == '\0') {
 #if !SCM_STRICT_R5RS
-- 
2.43.0


From ede73c8df5ac1c3cd7a228945975196cf7dcb1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 21/58] fix: \x0; in a string literal silently truncated the
 string

---
 src/read.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read.c b/src/read.c
index 8950d67..0e1e4e3 100644
--- a/src/read.c
+++ b/src/read.c
@@ -867,6 +867,10 @@ read_string(ScmObj port)
                 if (!p)
                     ERR("invalid inline hex escape in string: 0x~MX",
                         (scm_int_t)c);
+#if !SCM_USE_NULL_CAPABLE_STRING
+                if (c == '\0')
+                    ERR(SCM_ERRMSG_NULL_IN_STRING);
+#endif
                 c = scm_port_get_char(port);
                 if (c != ';')
                     ERR("inline hex escape must be followed by ';'");
-- 
2.43.0


From 62161985eaa11af5f67eb867c3bf4075bd50d051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:12 +0000
Subject: [PATCH 22/58] fix: EOF after a backslash in a string literal was a
 fatal error

---
 src/read.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/read.c b/src/read.c
index 0e1e4e3..8065a1b 100644
--- a/src/read.c
+++ b/src/read.c
@@ -857,6 +857,11 @@ read_string(ScmObj port)
 
         case '\\':
             c = scm_port_get_char(port);
+            if (c == SCM_ICHAR_EOF) {
+                LBUF_FREE(lbuf);
+                ERR("EOF in string");
+                /* NOTREACHED */
+            }
 #if SCM_USE_R6RS_CHARS
             if (c == 'x') {
                 c = read_unicode_sequence(port);
-- 
2.43.0


From 30f07c1a5a7b2dde84f5d6a60b1340244f91531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 23/58] fix: the message of an error could be collected while
 the error object was built

---
 src/error.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index 229561b..a0f3d34 100644
--- a/src/error.c
+++ b/src/error.c
@@ -354,6 +354,9 @@ scm_error_internal(const char *func_name, ScmObj obj,
                    const char *msg, va_list args)
 {
     ScmObj reason, err_obj;
+#if (SCM_USE_FORMAT && SCM_USE_SRFI6)
+    ScmObj volatile msg_str;  /* protects the C string from GC */
+#endif
 
     if (l_error_looped)
         scm_fatal_error("bug: double error on preparing error object");
@@ -364,10 +367,12 @@ scm_error_internal(const char *func_name, ScmObj obj,
 #if (SCM_USE_FORMAT && SCM_USE_SRFI6)
     reason = scm_vformat(SCM_FALSE, SCM_FMT_INTERNAL, msg, args);
     if (func_name) {
+        msg_str = reason;
         reason = scm_format(SCM_FALSE, SCM_FMT_RAW_C,
                             "in ~S: ~S~S",
-                            func_name, SCM_STRING_STR(reason),
+                            func_name, SCM_STRING_STR(msg_str),
                             (EQ(obj, NO_ERR_OBJ) ? "" : ":"));
+        msg_str = reason;
     }
 #else
     reason = CONST_STRING(msg);
-- 
2.43.0


From c88de060222e1a836bc4d33ea3e1c26fc5723b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:12 +0000
Subject: [PATCH 24/58] fix: a script prelude without any word crashed

---
 src/sigscheme.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigscheme.c b/src/sigscheme.c
index ec032ac..0d04f77 100644
--- a/src/sigscheme.c
+++ b/src/sigscheme.c
@@ -486,7 +486,7 @@ scm_interpret_argv(char **argv)
 
     encoding = sys_load_path = NULL;
     argp = &argv[0];
-    if (strcmp(argv[0], "/usr/bin/env") == 0)
+    if (argv[0] && strcmp(argv[0], "/usr/bin/env") == 0)
         argp++;
     if (*argp)
         argp++;  /* skip executable name */
-- 
2.43.0


From f6df5b752762f40c2a234d2c01d312f28c370197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:16 +0000
Subject: [PATCH 25/58] fix: format truncated a multi-byte directive character
 to an ASCII one

---
 src/format.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/format.c b/src/format.c
index 2b069ef..d8e48db 100644
--- a/src/format.c
+++ b/src/format.c
@@ -472,7 +472,7 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
                  format_string_t *fmt, struct scm_format_args args)
 {
     const void *orig_pos;
-    char directive;
+    scm_ichar_t directive;
     scm_bool eolp;
 #if SCM_USE_SRFI48
     ScmObj obj, indirect_fmt, indirect_args, proc_pretty_print;
@@ -546,7 +546,7 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
 #endif /* SCM_USE_SRFI48 */
 
     if (prefixedp)
-        ERR("invalid prefix for directive ~~~C", (scm_ichar_t)directive);
+        ERR("invalid prefix for directive ~~~C", directive);
 
     if (fcap & SCM_FMT_SRFI28) {
         switch (directive) {
@@ -643,7 +643,7 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
 
     /* Although SRFI-48 does not specified about unknown directives, the
      * reference implementation treats it as error. */
-    ERR(ERRMSG_INVALID_ESCSEQ ": ~~~C", (scm_ichar_t)directive);
+    ERR(ERRMSG_INVALID_ESCSEQ ": ~~~C", directive);
 
  fin:
     FORMAT_STR_SKIP_CHAR(*fmt);
-- 
2.43.0


From 78655837c0f642c4b330d777d678c825c15e7930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 26/58] fix: format read freed memory when pretty-print
 modified or dropped the format string

---
 src/format.c        |  7 ++++++-
 src/module-srfi48.c | 11 +++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/format.c b/src/format.c
index d8e48db..010d2ae 100644
--- a/src/format.c
+++ b/src/format.c
@@ -476,6 +476,7 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
     scm_bool eolp;
 #if SCM_USE_SRFI48
     ScmObj obj, indirect_fmt, indirect_args, proc_pretty_print;
+    ScmObj volatile fmt_copy;
     scm_bool prefixedp;
     int radix;
     scm_int_t i;
@@ -599,9 +600,13 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
             ENSURE_STRING(indirect_fmt);
             indirect_args = POP_FORMAT_ARG(args);
             ENSURE_LIST(indirect_args);
+            /* The string may be modified or dropped via ~y. */
+            fmt_copy = MAKE_STRING_COPYING(SCM_STRING_STR(indirect_fmt),
+                                           SCM_STRING_LEN(indirect_fmt));
             scm_lformat(port,
                         fcap & ~SCM_FMT_RAW_C,
-                        SCM_STRING_STR(indirect_fmt), indirect_args);
+                        SCM_STRING_STR(fmt_copy), indirect_args);
+            fmt_copy = SCM_FALSE;  /* keeps the string alive until here */
             goto fin;
 
 #if SCM_USE_CHAR
diff --git a/src/module-srfi48.c b/src/module-srfi48.c
index 8a89572..0507054 100644
--- a/src/module-srfi48.c
+++ b/src/module-srfi48.c
@@ -81,7 +81,8 @@ static ScmObj
 srfi48_format_internal(enum ScmFormatCapability fcap,
                        ScmObj fmt_or_port, ScmObj rest)
 {
-    ScmObj port, fmt, objs;
+    ScmObj port, fmt, objs, ret;
+    ScmObj volatile fmt_copy;
     DECLARE_INTERNAL_FUNCTION("format");
 
     if (STRINGP(fmt_or_port)) {
@@ -94,7 +95,13 @@ srfi48_format_internal(enum ScmFormatCapability fcap,
     }
     objs = rest;
 
-    return scm_lformat(port, fcap, SCM_STRING_STR(fmt), objs);
+    /* A user-defined pretty-print may modify or drop the string via ~y. */
+    fmt_copy = MAKE_STRING_COPYING(SCM_STRING_STR(fmt), SCM_STRING_LEN(fmt));
+
+    ret = scm_lformat(port, fcap, SCM_STRING_STR(fmt_copy), objs);
+    fmt_copy = SCM_FALSE;  /* keeps the string alive until here */
+
+    return ret;
 }
 
 /* format [port] format-string [obj ...] */
-- 
2.43.0


From 1d0d856688af0800741ddccff9860c0a388239de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:28 +0000
Subject: [PATCH 27/58] fix: define-record-type with a constructor name that is
 not a symbol crashed

---
 src/module-srfi9.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module-srfi9.c b/src/module-srfi9.c
index 39c6526..c15f150 100644
--- a/src/module-srfi9.c
+++ b/src/module-srfi9.c
@@ -123,6 +123,7 @@ scm_s_srfi9_define_record_type(ScmObj type_name, ScmObj ctor_spec,
 
     ctor_name = CAR(ctor_spec);
     ctor_tags = CDR(ctor_spec);
+    ENSURE_SYMBOL(ctor_name);
     field_tags = scm_map_single_arg(l_proc_car, field_specs);
 
     type_obj = scm_call(l_proc_make_record_type,
-- 
2.43.0


From ca4c2eb4a18ee975b328d58ad12a345e58a27c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:28 +0000
Subject: [PATCH 28/58] fix: hash returned 1 for the bound 1

---
 lib/srfi-69.scm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/srfi-69.scm b/lib/srfi-69.scm
index cb0d922..f4704cd 100644
--- a/lib/srfi-69.scm
+++ b/lib/srfi-69.scm
@@ -96,7 +96,7 @@
 	  ((null? obj) 0)
 	  ((not obj) 0)
 	  ((procedure? obj) (error "hash: procedures cannot be hashed" obj))
-	  (else 1))))
+	  (else (modulo 1 bound)))))
 
 (define hash-by-identity hash)
 
-- 
2.43.0


From 9379b654878cd57346a38dfecafd0496b3654418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:03 +0000
Subject: [PATCH 29/58] fix: a definition in the body of a binding form without
 bindings became global

---
 src/syntax.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/syntax.c b/src/syntax.c
index b66e756..afb73b9 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -795,6 +795,13 @@ scm_s_body(ScmObj body, ScmEvalState *eval_state)
             eval_state->env = scm_update_environment(actuals, env);
         }
     }
+    /* A <body> is not the toplevel even if no variable has been bound yet as in
+     * (let* () ...): a definition after an expression must not be accepted as
+     * a toplevel one. */
+    if (EQ(eval_state->env, SCM_INTERACTION_ENV)) {
+        eval_state->env
+            = scm_extend_environment(SCM_NULL, SCM_NULL, eval_state->env);
+    }
     /* eval rest of the body */
     return scm_s_begin(body, eval_state);
 }
-- 
2.43.0


From a1bf1e71e55f1d127e27e68ca7b19643923a63f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:21 +0000
Subject: [PATCH 30/58] fix: the name of a named let shadowed a variable of the
 same name

---
 src/syntax.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/syntax.c b/src/syntax.c
index afb73b9..e0b4e7b 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -564,16 +564,14 @@ scm_s_let_internal(enum ScmObjType permitted, ScmObj bindings, ScmObj body,
     if (!NULLP(bindings))
         ERR_OBJ(ERRMSG_INVALID_BINDINGS, bindings);
 
-    env = scm_extend_environment(formals, actuals, env);
-
-    /* named let */
+    /* named let: the procedure is bound outside of the formals */
     if (IDENTIFIERP(named_let_sym)) {
         proc = MAKE_CLOSURE(CONS(formals, body), env);
-        env = scm_add_environment(named_let_sym, proc, env);
+        env = scm_extend_environment(LIST_1(named_let_sym), LIST_1(proc), env);
         SCM_CLOSURE_SET_ENV(proc, env);
     }
 
-    eval_state->env = env;
+    eval_state->env = scm_extend_environment(formals, actuals, env);
     return scm_s_body(body, eval_state);
 }
 
-- 
2.43.0


From f96e7b99665d6c6074656bbc5fb001025749e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:42 +0000
Subject: [PATCH 31/58] fix: => of cond used a local binding of quote

---
 src/syntax.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/syntax.c b/src/syntax.c
index e0b4e7b..d169a6b 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -100,6 +100,7 @@ SCM_DEFINE_EXPORTED_VARS(syntax);
 SCM_GLOBAL_VARS_BEGIN(static_syntax);
 #define static
 static ScmObj l_sym_else, l_sym_yields, l_sym_define;
+static ScmObj l_syn_quote;
 #if SCM_USE_INTERNAL_DEFINITIONS
 static ScmObj l_sym_begin, l_syn_lambda;
 #endif /* SCM_USE_INTERNAL_DEFINITIONS */
@@ -108,6 +109,7 @@ SCM_GLOBAL_VARS_END(static_syntax);
 #define l_sym_else   SCM_GLOBAL_VAR(static_syntax, l_sym_else)
 #define l_sym_yields SCM_GLOBAL_VAR(static_syntax, l_sym_yields)
 #define l_sym_define SCM_GLOBAL_VAR(static_syntax, l_sym_define)
+#define l_syn_quote  SCM_GLOBAL_VAR(static_syntax, l_syn_quote)
 #define l_sym_begin  SCM_GLOBAL_VAR(static_syntax, l_sym_begin)
 #define l_syn_lambda SCM_GLOBAL_VAR(static_syntax, l_syn_lambda)
 SCM_DEFINE_STATIC_VARS(static_syntax);
@@ -140,6 +142,9 @@ scm_init_syntax(void)
     l_sym_else   = scm_intern("else");
     l_sym_yields = scm_intern("=>");
     l_sym_define = scm_intern("define");
+    scm_gc_protect_with_init(&l_syn_quote,
+                             scm_symbol_value(scm_sym_quote,
+                                              SCM_INTERACTION_ENV));
 #if SCM_USE_INTERNAL_DEFINITIONS
     l_sym_begin  = scm_intern("begin");
     scm_gc_protect_with_init(&l_syn_lambda,
@@ -354,8 +359,11 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
                  * the (implied) call to the procedure that results from the
                  * evaluation of <expression2> is in a tail
                  * context. <expression2> itself is not in a tail context.
+                 *
+                 * The syntax object is used since the symbol 'quote' may be
+                 * bound to another meaning in the env.
                  */
-                return LIST_2(proc, LIST_2(SYM_QUOTE, test));
+                return LIST_2(proc, LIST_2(l_syn_quote, test));
             }
 
             return scm_s_begin(exps, eval_state);
-- 
2.43.0


From d7a6037471ff6b5e71f5231b0d949af13325e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:34 +0000
Subject: [PATCH 32/58] fix: guard re-raised through local bindings of raise
 and quote

---
 src/module-srfi34.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/module-srfi34.c b/src/module-srfi34.c
index e773f70..717938f 100644
--- a/src/module-srfi34.c
+++ b/src/module-srfi34.c
@@ -310,7 +310,7 @@ scm_p_srfi34_raise(ScmObj obj)
 
     handler = CAR(l_current_exception_handlers);
     rest_handlers = CDR(l_current_exception_handlers);
-    obj = LIST_2(SYM_QUOTE, obj);
+    obj = LIST_2(l_syn_raw_quote, obj);
     thunk = scm_s_lambda(SCM_NULL,
                          LIST_2(LIST_2(handler, obj),
                                 LIST_4(l_sym_error,
@@ -421,8 +421,11 @@ guard_handler_body(ScmObj q_handler_k, ScmObj env)
             caught = EVAL(caught, cond_env);
         scm_call_continuation(guard_k, delay(caught, cond_env));
     } else {
-        reraise = enclose(LIST_2(l_sym_raise, LIST_2(SYM_QUOTE, condition)),
-                          cond_env);
+        /* must not be affected by local bindings of 'raise' and 'quote' */
+        reraise
+            = enclose(LIST_2(scm_symbol_value(l_sym_raise, SCM_INTERACTION_ENV),
+                             LIST_2(l_syn_raw_quote, condition)),
+                      cond_env);
         scm_call_continuation(handler_k, reraise);
     }
     /* NOTREACHED */
-- 
2.43.0


From 894b31e55ef306393621879e212e7bc325ba0810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:59 +0000
Subject: [PATCH 33/58] fix: local variables named define, begin, else and =>
 were taken as the keywords

---
 src/syntax.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/syntax.c b/src/syntax.c
index d169a6b..7f1acd1 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -118,9 +118,11 @@ SCM_DEFINE_STATIC_VARS(static_syntax);
   File Local Function Declarations
 =======================================*/
 #if SCM_USE_INTERNAL_DEFINITIONS
-static ScmObj filter_definitions(ScmObj body, ScmObj *formals, ScmObj *actuals,
+static ScmObj filter_definitions(ScmObj body, ScmObj env,
+                                 ScmObj *formals, ScmObj *actuals,
                                  ScmQueue *def_expq);
 #endif
+static scm_bool refer_keyword_p(ScmObj obj, ScmObj keyword, ScmObj env);
 
 /*=======================================
   Function Definitions
@@ -153,6 +155,14 @@ scm_init_syntax(void)
 #endif
 }
 
+/* Whether obj is the syntactic keyword not shadowed by a local variable. */
+static scm_bool
+refer_keyword_p(ScmObj obj, ScmObj keyword, ScmObj env)
+{
+    return (EQ(obj, keyword)
+            && scm_lookup_environment(obj, env) == SCM_INVALID_REF);
+}
+
 /*=======================================
   R5RS : 4.1 Primitive expression types
 =======================================*/
@@ -321,7 +331,7 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
 #if 0
         test = SCM_UNWRAP_SYNTAX(test);  /* FIXME: needed? */
 #endif
-        if (EQ(test, l_sym_else)) {
+        if (refer_keyword_p(test, l_sym_else, env)) {
             ASSERT_NO_MORE_ARG(clauses);
             return scm_s_begin(exps, eval_state);
         }
@@ -346,7 +356,7 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
              * of the <test> and the value returned by this procedure is
              * returned by the cond expression.
              */
-            if (EQ(l_sym_yields, CAR(exps)) && LIST_2_P(exps)) {
+            if (LIST_2_P(exps) && refer_keyword_p(CAR(exps), l_sym_yields, env)) {
                 proc = EVAL(CADR(exps), env);
                 if (!PROCEDUREP(proc))
                     ERR_OBJ("exp after => must be a procedure but got", proc);
@@ -424,7 +434,7 @@ scm_s_case(ScmObj key, ScmObj clauses, ScmEvalState *eval_state)
         exps = CDR(clause);
 
         test = SCM_UNWRAP_SYNTAX(test);
-        if (EQ(test, l_sym_else))
+        if (refer_keyword_p(test, l_sym_else, eval_state->env))
             ASSERT_NO_MORE_ARG(clauses);
         else
             test = scm_p_memv(key, test);
@@ -717,8 +727,8 @@ scm_s_letrec_internal(enum ScmObjType permitted, ScmObj bindings, ScmObj body,
 
 #if SCM_USE_INTERNAL_DEFINITIONS
 static ScmObj
-filter_definitions(ScmObj body, ScmObj *formals, ScmObj *actuals,
-                   ScmQueue *def_expq)
+filter_definitions(ScmObj body, ScmObj env,
+                   ScmObj *formals, ScmObj *actuals, ScmQueue *def_expq)
 {
     ScmObj exp, var, sym, begin_rest, lambda_formals, lambda_body;
     DECLARE_INTERNAL_FUNCTION("(body)");
@@ -728,8 +738,9 @@ filter_definitions(ScmObj body, ScmObj *formals, ScmObj *actuals,
         if (!CONSP(exp))
             break;
         sym = POP(exp);
-        if (EQ(sym, l_sym_begin)) {
-            begin_rest = filter_definitions(exp, formals, actuals, def_expq);
+        if (refer_keyword_p(sym, l_sym_begin, env)) {
+            begin_rest = filter_definitions(exp, env,
+                                            formals, actuals, def_expq);
             if (!NULLP(begin_rest)) {
                 /* no definitions found */
                 if (begin_rest == exp)
@@ -738,7 +749,7 @@ filter_definitions(ScmObj body, ScmObj *formals, ScmObj *actuals,
                 ERR_OBJ("definitions and expressions intermixed", CAR(body));
             }
             /* '(begin)' is a valid R5RS definition form */
-        } else if (EQ(sym, l_sym_define)) {
+        } else if (refer_keyword_p(sym, l_sym_define, env)) {
             var = MUST_POP_ARG(exp);
             if (IDENTIFIERP(var)) {
                 /* (define <variable> <expression>) */
@@ -784,7 +795,8 @@ scm_s_body(ScmObj body, ScmEvalState *eval_state)
         /* collect internal definitions */
         def_exps = formals = actuals = SCM_NULL;
         SCM_QUEUE_POINT_TO(def_expq, def_exps);
-        body = filter_definitions(body, &formals, &actuals, &def_expq);
+        body = filter_definitions(body, eval_state->env,
+                                  &formals, &actuals, &def_expq);
 
         if (!NULLP(def_exps)) {
             /* extend env with the unbound variables */
-- 
2.43.0


From 9c43bef3e7ce6a884270d3747d3d9cb6ec58e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 34/58] fix: comparison procedures did not evaluate the
 operands after the first mismatch

---
 src/eval.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 5805ad2..d0af2f2 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -123,8 +123,17 @@ reduce(scm_reduction_operator func,
         if (need_eval)
             right = EVAL(right, env);
         left = (*func)(left, right, &state);
-        if (state == SCM_REDUCE_STOP)
+        if (state == SCM_REDUCE_STOP) {
+            /* the result is settled, but all operands must be evaluated */
+            if (need_eval) {
+                FOR_EACH (right, args) {
+                    right = EVAL(right, env);
+                    CHECK_VALID_EVALED_VALUE(right);
+                }
+                ASSERT_NO_MORE_ARG(args);
+            }
             return left;
+        }
     }
     ASSERT_NO_MORE_ARG(args);
 
-- 
2.43.0


From c7ba1e5705e74c1dcfc3b1c2159562fe023b7e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:23 +0000
Subject: [PATCH 35/58] fix: unquote accepted syntactic keywords and multiple
 values as element values

---
 src/qquote.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qquote.c b/src/qquote.c
index c56c0b2..4fdf382 100644
--- a/src/qquote.c
+++ b/src/qquote.c
@@ -475,6 +475,7 @@ qquote_internal(ScmObj input, ScmObj env, scm_int_t nest)
 
                 if (--nest == 0) {
                     obj = EVAL(CAR(args), env);
+                    CHECK_VALID_EVALED_VALUE(obj);
                     TRL_SET_SUBLS(tr, obj);
                     my_result.obj = TRL_EXTRACT(tr);
                     my_result.msg = TR_MSG_REPLACE;
-- 
2.43.0


From 0e49fddccd0f217ae97916dcaff2aafdf85f0f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:29 +0000
Subject: [PATCH 36/58] fix: unquote-splicing modified the spliced list

---
 src/qquote.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/qquote.c b/src/qquote.c
index 4fdf382..9443f2f 100644
--- a/src/qquote.c
+++ b/src/qquote.c
@@ -293,11 +293,21 @@ scm_listran(sequence_translator *t, tr_msg msg, ScmObj obj)
         }
 
         if (msg != TRL_MSG_SET_SUBLS) {
+            if (msg == TR_MSG_SPLICE) {
+                ScmObj elm, rest;
+
+                if (!PROPER_LISTP(obj))
+                    ERR_OBJ(ERRMSG_BAD_SPLICE_LIST, obj);
+                /* The list belongs to user. It must be copied unless it
+                 * becomes the tail of the output. */
+                if (!NULLP(CDR(t->u.lst.cur))) {
+                    rest = obj;
+                    obj = SCM_NULL;
+                    FOR_EACH (elm, rest)
+                        SCM_QUEUE_ADD(t->u.lst.q, elm);
+                }
+            }
             SCM_QUEUE_APPEND(t->u.lst.q, obj);
-#if SCM_STRICT_ARGCHECK
-            if (!NULLP(SCM_QUEUE_TERMINATOR(t->u.lst.q)))
-                ERR_OBJ(ERRMSG_BAD_SPLICE_LIST, obj);
-#endif
             t->u.lst.src = obj = CDR(t->u.lst.cur);
         }
         SCM_QUEUE_SLOPPY_APPEND(t->u.lst.q, obj);
-- 
2.43.0


From e06a661b7f4c743b0ea6b4b5b698604efd279c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:49 +0000
Subject: [PATCH 37/58] fix: a failed write left a dangling shared structure
 context behind

---
 src/write.c | 58 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/write.c b/src/write.c
index 5e263f6..feea2cb 100644
--- a/src/write.c
+++ b/src/write.c
@@ -152,6 +152,7 @@ static scm_hash_entry *hash_lookup(scm_hash_table *tab,
                                    ScmObj key, scm_intobj_t datum, int flag);
 static void write_ss_scan(ScmObj obj, scm_write_ss_context *ctx);
 static scm_intobj_t get_shared_index(ScmObj obj);
+static void free_write_ss_ctx(void);
 static void write_ss_internal(ScmObj port, ScmObj obj, enum ScmOutputType otype);
 #endif /* SCM_USE_SRFI38 */
 
@@ -177,12 +178,18 @@ scm_init_writer(void)
 SCM_EXPORT void
 scm_write(ScmObj port, ScmObj obj)
 {
+#if SCM_USE_SRFI38
+    free_write_ss_ctx();
+#endif
     write_internal(port, obj, AS_WRITE);
 }
 
 SCM_EXPORT void
 scm_display(ScmObj port, ScmObj obj)
 {
+#if SCM_USE_SRFI38
+    free_write_ss_ctx();
+#endif
     write_internal(port, obj, AS_DISPLAY);
 }
 
@@ -249,7 +256,7 @@ write_obj(ScmObj port, ScmObj obj, enum ScmOutputType otype)
         scm_port_puts(port, (SCM_SYNTAXP(obj)) ? "#<syntax " : "#<subr ");
         sym = scm_symbol_bound_to(obj);
         if (TRUEP(sym))
-            scm_display(port, sym);
+            write_obj(port, sym, AS_DISPLAY);
         else
             scm_format(port, SCM_FMT_RAW_C, "~P", (void *)obj);
         scm_port_put_char(port, '>');
@@ -591,11 +598,11 @@ write_errobj(ScmObj port, ScmObj obj, enum ScmOutputType otype)
     switch (otype) {
     case AS_WRITE:
         scm_port_puts(port, "#<error ");
-        scm_write(port, reason);
+        write_obj(port, reason, AS_WRITE);
         break;
 
     case AS_DISPLAY:
-        scm_display(port, reason);
+        write_obj(port, reason, AS_DISPLAY);
         break;
 
     default:
@@ -604,7 +611,7 @@ write_errobj(ScmObj port, ScmObj obj, enum ScmOutputType otype)
 
     FOR_EACH (elm, objs) {
         scm_port_put_char(port, ' ');
-        scm_write(port, elm);
+        write_obj(port, elm, AS_WRITE);
     }
 
     if (otype == AS_WRITE)
@@ -619,7 +626,7 @@ write_farsymbol(ScmObj port, ScmObj obj, enum ScmOutputType otype)
     scm_port_puts(port, "#<farsym");
     for (; SCM_FARSYMBOLP(obj); obj = SCM_FARSYMBOL_SYM(obj))
         scm_format(port, SCM_FMT_RAW_C, " ~MD ", SCM_FARSYMBOL_ENV(obj));
-    scm_display(port, obj); /* Name. */
+    write_obj(port, obj, AS_DISPLAY); /* Name. */
     scm_port_puts(port, ">");
 }
 #endif /* SCM_USE_HYGIENIC_MACRO */
@@ -800,28 +807,47 @@ get_shared_index(ScmObj obj)
     return 0;
 }
 
+/* The context is left behind if an error has been raised during the output. */
+static void
+free_write_ss_ctx(void)
+{
+    scm_write_ss_context *ctx;
+
+    ctx = l_write_ss_ctx;
+    if (ctx) {
+        l_write_ss_ctx = NULL;
+        free(ctx->seen.ents);
+        free(ctx);
+    }
+}
+
 static void
 write_ss_internal(ScmObj port, ScmObj obj, enum ScmOutputType otype)
 {
-    scm_write_ss_context ctx = {{0}};
+    scm_write_ss_context *ctx;
     size_t i;
 
-    ctx.next_index = 1;
-    ctx.seen.size = 1 << 8; /* arbitrary initial size */
-    ctx.seen.ents = scm_malloc(ctx.seen.size * sizeof(scm_hash_entry));
-    for (i = 0; i < ctx.seen.size; i++)
-        ctx.seen.ents[i].key = SCM_INVALID;
+    free_write_ss_ctx();
+
+    ctx = scm_malloc(sizeof(scm_write_ss_context));
+    ctx->next_index = 1;
+    ctx->seen.size = 1 << 8; /* arbitrary initial size */
+    ctx->seen.used = 0;
+    ctx->seen.ents = NULL;
+    l_write_ss_ctx = ctx;
+    ctx->seen.ents = scm_malloc(ctx->seen.size * sizeof(scm_hash_entry));
+    for (i = 0; i < ctx->seen.size; i++)
+        ctx->seen.ents[i].key = SCM_INVALID;
 
-    write_ss_scan(obj, &ctx);
+    write_ss_scan(obj, ctx);
 
     /* If no structure is shared, we do a normal write. */
-    if (!HASH_EMPTY(ctx.seen))
-        l_write_ss_ctx = &ctx;
+    if (HASH_EMPTY(ctx->seen))
+        free_write_ss_ctx();
 
     write_internal(port, obj, otype);
 
-    l_write_ss_ctx = NULL;
-    free(ctx.seen.ents);
+    free_write_ss_ctx();
 }
 
 /* write with shared structure */
-- 
2.43.0


From 7188356dee31930d17d332e20b01406752bb2964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 38/58] fix: %%set-current-*-port! of an object that is not a
 port crashed

---
 src/port.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/port.c b/src/port.c
index e86e295..d8c925d 100644
--- a/src/port.c
+++ b/src/port.c
@@ -308,6 +308,7 @@ scm_p_set_current_input_portx(ScmObj newport)
 {
     DECLARE_FUNCTION("%%set-current-input-port!", procedure_fixed_1);
 
+    ENSURE_PORT(newport);
     SCM_ENSURE_LIVE_PORT(newport);
     if (!(SCM_PORT_FLAG(newport) & SCM_PORTFLAG_INPUT))
         ERR_OBJ("input port required but got", newport);
@@ -322,6 +323,7 @@ scm_p_set_current_output_portx(ScmObj newport)
 {
     DECLARE_FUNCTION("%%set-current-output-port!", procedure_fixed_1);
 
+    ENSURE_PORT(newport);
     SCM_ENSURE_LIVE_PORT(newport);
     if (!(SCM_PORT_FLAG(newport) & SCM_PORTFLAG_OUTPUT))
         ERR_OBJ("output port required but got", newport);
@@ -336,6 +338,7 @@ scm_p_set_current_error_portx(ScmObj newport)
 {
     DECLARE_FUNCTION("%%set-current-error-port!", procedure_fixed_1);
 
+    ENSURE_PORT(newport);
     SCM_ENSURE_LIVE_PORT(newport);
     if (!(SCM_PORT_FLAG(newport) & SCM_PORTFLAG_OUTPUT))
         ERR_OBJ("output port required but got", newport);
-- 
2.43.0


From 552126616db8c7d8eb985832f8f280e931daa590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 39/58] fix: a list such as (list (car err-obj)) was taken as
 an error object: displaying it in an error message was fatal

---
 src/error.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index a0f3d34..15335ee 100644
--- a/src/error.c
+++ b/src/error.c
@@ -195,7 +195,10 @@ scm_p_error_objectp(ScmObj obj)
 {
     DECLARE_FUNCTION("%%error-object?", procedure_fixed_1);
 
-    return MAKE_BOOL(CONSP(obj) && EQ(CAR(obj), l_err_obj_tag));
+    /* Other lists that contain the tag such as (list (car err-obj)) are not
+     * error objects. */
+    return MAKE_BOOL(CONSP(obj) && EQ(CAR(obj), l_err_obj_tag)
+                     && scm_length(obj) == 4 && LISTP(CAR(CDDR(obj))));
 }
 
 /* FIXME: make (pair? err-obj) #f */
-- 
2.43.0


From a3ff1d0e320c6bd992fbf534cb958b85b1fbd413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 40/58] fix: make-vector wrapped around for huge lengths and
 leaked its buffer on errors

---
 src/vector.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vector.c b/src/vector.c
index f8a75cd..aa96622 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -83,13 +83,16 @@ scm_p_make_vector(ScmObj scm_len, ScmObj args)
     if (len < 0)
         ERR_OBJ("length must be a non-negative integer", scm_len);
 
-    vec = scm_malloc(sizeof(ScmObj) * len);
+    if (((size_t)-1 >> 1) / sizeof(ScmObj) < (size_t)len)
+        ERR_OBJ("too large length", scm_len);
+
     if (NULLP(args)) {
         filler = SCM_UNDEF;
     } else {
         filler = POP(args);
         ASSERT_NO_MORE_ARG(args);
     }
+    vec = scm_malloc(sizeof(ScmObj) * len);
     for (i = 0; i < len; i++)
         vec[i] = filler;
 
-- 
2.43.0


From 904dd11a4a6d96b04dbb16a1d1f24602806c5923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 41/58] fix: make-string wrapped around for huge lengths

---
 src/string-procedure.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/string-procedure.c b/src/string-procedure.c
index 04f4449..49ca8dc 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -131,6 +131,8 @@ scm_p_make_string(ScmObj length, ScmObj args)
             (scm_int_t)filler_val,
             SCM_CHARCODEC_ENCODING(scm_current_char_codec));
 
+    if (((size_t)-1 >> 1) / SCM_MB_CHAR_BUF_SIZE <= (size_t)len)
+        ERR_OBJ("too large length", length);
     str = scm_malloc(ch_len * len + sizeof(""));
     for (dst = str; dst < &str[ch_len * len]; dst += ch_len)
         memcpy(dst, ch_buf, ch_len);
-- 
2.43.0


From acd59470fdbebd68b13bd86d7b6652ba96618a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 42/58] fix: write/ss misses sharing and cycles in the first of
 multiple values (valuecons)

---
 src/write.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/write.c b/src/write.c
index feea2cb..799dd47 100644
--- a/src/write.c
+++ b/src/write.c
@@ -757,6 +757,7 @@ write_ss_scan(ScmObj obj, scm_write_ss_context *ctx)
 #if SCM_USE_STORAGE_FATTY
             if (!SCM_NULLVALUESP(obj)) {
                 /* EQ(obj, SCM_VALUEPACKET_VALUES(obj)) */
+                write_ss_scan(CAR(SCM_VALUEPACKET_VALUES(obj)), ctx);
                 write_ss_scan(CDR(SCM_VALUEPACKET_VALUES(obj)), ctx);
                 /* SCM_VALUEPACKET_VALUES() changes the type destructively */
                 SCM_ENTYPE(obj, ScmValuePacket);
-- 
2.43.0


From 601cc5bf9d2537f7d80dd6fbc3881c7c1f1c21f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 43/58] fix: let-optionals* crashed on an improper list of
 arguments

---
 src/module-sscm-ext.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module-sscm-ext.c b/src/module-sscm-ext.c
index 0c5984e..35323fd 100644
--- a/src/module-sscm-ext.c
+++ b/src/module-sscm-ext.c
@@ -425,6 +425,7 @@ scm_s_let_optionalsstar(ScmObj args, ScmObj bindings, ScmObj body,
             val = EVAL(exp, env);
             CHECK_VALID_EVALED_VALUE(val);
         } else {
+            ENSURE_CONS(args);
             val = POP(args);
         }
 
-- 
2.43.0


From 5f0621f68c40c92e890399015c37bf7f8132e77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 44/58] fix: vector->list read the body of a collected vector

---
 src/vector.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index aa96622..5ecf3b1 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -160,19 +160,20 @@ SCM_EXPORT ScmObj
 scm_p_vector2list(ScmObj vec)
 {
     ScmQueue q;
-    ScmObj ret, *v;
+    ScmObj ret;
     scm_int_t len, i;
     DECLARE_FUNCTION("vector->list", procedure_fixed_1);
 
     ENSURE_VECTOR(vec);
 
-    v   = SCM_VECTOR_VEC(vec);
     len = SCM_VECTOR_LEN(vec);
 
     ret = SCM_NULL;
     SCM_QUEUE_POINT_TO(q, ret);
+    /* Refer the body always via vec. Otherwise vec may be collected, and its
+     * body freed, while the list is being allocated. */
     for (i = 0; i < len; i++)
-        SCM_QUEUE_ADD(q, v[i]);
+        SCM_QUEUE_ADD(q, SCM_VECTOR_VEC(vec)[i]);
 
     return ret;
 }
-- 
2.43.0


From c4c1a121c036dc29523467ff9b499215ea7f5674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 45/58] fix: heap_alloc_threshold 0 left an empty freelist

---
 src/storage-gc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage-gc.c b/src/storage-gc.c
index e13d664..1f93d0c 100644
--- a/src/storage-gc.c
+++ b/src/storage-gc.c
@@ -495,7 +495,7 @@ gc_mark_and_sweep(void)
     gc_mark();
     n_collected = gc_sweep();
 
-    if (n_collected < l_heap_alloc_threshold) {
+    if (NULLP(l_freelist) || n_collected < l_heap_alloc_threshold) {
         CDBG((SCM_DBG_GC, "enough number of free cells cannot be collected. allocating new heap."));
         add_heap();
     }
-- 
2.43.0


From 2e5f929fe1cbc8c835626b25d1ed9d778a716725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 46/58] fix: vector bodies were filled before an allocation
 that could collect the elements; string->list read the body of a collected
 string

---
 src/qquote.c           |  4 +++-
 src/string-procedure.c |  8 +++++---
 src/vector.c           | 14 ++++++++++----
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/qquote.c b/src/qquote.c
index 9443f2f..bdfd463 100644
--- a/src/qquote.c
+++ b/src/qquote.c
@@ -380,6 +380,9 @@ scm_vectran(sequence_translator *t, tr_msg msg, ScmObj obj)
             src_buf = SCM_VECTOR_VEC(t->u.vec.src);
             copy_buf = scm_malloc((src_len + t->u.vec.growth)
                                   * sizeof(ScmObj));
+            /* Fill the body after the cell allocation, since the elements are
+             * not protected by the body itself. */
+            ret = MAKE_VECTOR(copy_buf, src_len + t->u.vec.growth);
 
             diff = t->u.vec.diff;
             change_index = SCM_INT_VALUE(CAAR(diff));
@@ -403,7 +406,6 @@ scm_vectran(sequence_translator *t, tr_msg msg, ScmObj obj)
                 else
                     change_index = SCM_INT_VALUE(CAAR(diff));
             }
-            ret = MAKE_VECTOR(copy_buf, src_len + t->u.vec.growth);
             RETURN_OBJECT(ret);
         }
         RETURN_OBJECT(t->u.vec.src);
diff --git a/src/string-procedure.c b/src/string-procedure.c
index 49ca8dc..bf09d5e 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -457,7 +457,7 @@ scm_p_string2list(ScmObj str)
 #endif
     ScmObj ret;
     scm_ichar_t ch;
-    scm_int_t mb_len;
+    scm_int_t mb_len, i;
     const char *c_str;
     DECLARE_FUNCTION("string->list", procedure_fixed_1);
 
@@ -470,7 +470,9 @@ scm_p_string2list(ScmObj str)
 #if SCM_USE_MULTIBYTE_CHAR
     SCM_QUEUE_POINT_TO(q, ret);
     SCM_MBS_INIT2(mbs, c_str, strlen(c_str));
-    while (mb_len--) {
+    /* Refer str until the last character is read. Otherwise it may be
+     * collected while the list is being allocated. */
+    for (i = 0; i < SCM_STRING_LEN(str); i++) {
         if (SCM_MBS_GET_SIZE(mbs)) {
             ch = SCM_CHARCODEC_READ_CHAR(scm_current_char_codec, mbs);
         } else {
@@ -488,7 +490,7 @@ scm_p_string2list(ScmObj str)
     }
 #else /* SCM_USE_MULTIBYTE_CHAR */
     while (mb_len) {
-        ch = ((unsigned char *)c_str)[--mb_len];
+        ch = ((unsigned char *)SCM_STRING_STR(str))[--mb_len];
         ret = CONS(MAKE_CHAR(ch), ret);
     }
 #endif /* SCM_USE_MULTIBYTE_CHAR */
diff --git a/src/vector.c b/src/vector.c
index 5ecf3b1..0927a3b 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -73,7 +73,7 @@ scm_p_vectorp(ScmObj obj)
 SCM_EXPORT ScmObj
 scm_p_make_vector(ScmObj scm_len, ScmObj args)
 {
-    ScmObj *vec, filler;
+    ScmObj *vec, filler, ret;
     scm_int_t len, i;
     DECLARE_FUNCTION("make-vector", procedure_variadic_1);
 
@@ -93,10 +93,13 @@ scm_p_make_vector(ScmObj scm_len, ScmObj args)
         ASSERT_NO_MORE_ARG(args);
     }
     vec = scm_malloc(sizeof(ScmObj) * len);
+    /* Fill the body after the cell allocation, since the elements are not
+     * protected by the body itself. */
+    ret = MAKE_VECTOR(vec, len);
     for (i = 0; i < len; i++)
         vec[i] = filler;
 
-    return MAKE_VECTOR(vec, len);
+    return ret;
 }
 
 SCM_EXPORT ScmObj
@@ -181,7 +184,7 @@ scm_p_vector2list(ScmObj vec)
 SCM_EXPORT ScmObj
 scm_p_list2vector(ScmObj lst)
 {
-    ScmObj *vec;
+    ScmObj *vec, ret;
     scm_int_t len, i;
     DECLARE_FUNCTION("list->vector", procedure_fixed_1);
 
@@ -190,10 +193,13 @@ scm_p_list2vector(ScmObj lst)
         ERR_OBJ("proper list required but got", lst);
 
     vec = scm_malloc(sizeof(ScmObj) * len);
+    /* Fill the body after the cell allocation, since the elements are not
+     * protected by the body itself. */
+    ret = MAKE_VECTOR(vec, len);
     for (i = 0; i < len; i++)
         vec[i] = POP(lst);
 
-    return MAKE_VECTOR(vec, len);
+    return ret;
 }
 
 SCM_EXPORT ScmObj
-- 
2.43.0


From 59009ddc792483c8412e78846857d00e92ec07f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 47/58] fix: vector->list and string->list could read a
 collected body when the compiler drops the object early

---
 src/string-procedure.c | 8 +++++---
 src/vector.c           | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/string-procedure.c b/src/string-procedure.c
index bf09d5e..293ad4c 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -456,6 +456,7 @@ scm_p_string2list(ScmObj str)
     ScmQueue q;
 #endif
     ScmObj ret;
+    ScmObj volatile str_ref;  /* str_ref protects c_str from GC */
     scm_ichar_t ch;
     scm_int_t mb_len, i;
     const char *c_str;
@@ -463,6 +464,7 @@ scm_p_string2list(ScmObj str)
 
     ENSURE_STRING(str);
 
+    str_ref = str;
     c_str = SCM_STRING_STR(str);
     mb_len = SCM_STRING_LEN(str);
 
@@ -470,9 +472,9 @@ scm_p_string2list(ScmObj str)
 #if SCM_USE_MULTIBYTE_CHAR
     SCM_QUEUE_POINT_TO(q, ret);
     SCM_MBS_INIT2(mbs, c_str, strlen(c_str));
-    /* Refer str until the last character is read. Otherwise it may be
+    /* Refer str_ref until the last character is read. Otherwise str may be
      * collected while the list is being allocated. */
-    for (i = 0; i < SCM_STRING_LEN(str); i++) {
+    for (i = 0; i < SCM_STRING_LEN(str_ref); i++) {
         if (SCM_MBS_GET_SIZE(mbs)) {
             ch = SCM_CHARCODEC_READ_CHAR(scm_current_char_codec, mbs);
         } else {
@@ -490,7 +492,7 @@ scm_p_string2list(ScmObj str)
     }
 #else /* SCM_USE_MULTIBYTE_CHAR */
     while (mb_len) {
-        ch = ((unsigned char *)SCM_STRING_STR(str))[--mb_len];
+        ch = ((unsigned char *)SCM_STRING_STR(str_ref))[--mb_len];
         ret = CONS(MAKE_CHAR(ch), ret);
     }
 #endif /* SCM_USE_MULTIBYTE_CHAR */
diff --git a/src/vector.c b/src/vector.c
index 0927a3b..9a694c7 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -164,19 +164,21 @@ scm_p_vector2list(ScmObj vec)
 {
     ScmQueue q;
     ScmObj ret;
+    ScmObj volatile vec_ref;  /* vec_ref protects the body from GC */
     scm_int_t len, i;
     DECLARE_FUNCTION("vector->list", procedure_fixed_1);
 
     ENSURE_VECTOR(vec);
 
+    vec_ref = vec;
     len = SCM_VECTOR_LEN(vec);
 
     ret = SCM_NULL;
     SCM_QUEUE_POINT_TO(q, ret);
-    /* Refer the body always via vec. Otherwise vec may be collected, and its
-     * body freed, while the list is being allocated. */
+    /* Refer the body always via vec_ref. Otherwise vec may be collected, and
+     * its body freed, while the list is being allocated. */
     for (i = 0; i < len; i++)
-        SCM_QUEUE_ADD(q, SCM_VECTOR_VEC(vec)[i]);
+        SCM_QUEUE_ADD(q, SCM_VECTOR_VEC(vec_ref)[i]);
 
     return ret;
 }
-- 
2.43.0


From be063ddf1ffb86dabfa67a47731ba1a468438dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 48/58] fix: the reader lost its buffer when an error left a
 long string or symbol

---
 src/read.c | 49 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/read.c b/src/read.c
index 8065a1b..0ca7798 100644
--- a/src/read.c
+++ b/src/read.c
@@ -815,10 +815,38 @@ read_char(ScmObj port)
 #endif /* SCM_USE_CHAR */
 
 #if SCM_USE_STRING
+/* An extended local buffer is owned by a string object while it is being
+ * filled, since an error may leave the reader before it is freed explicitly. */
+#define EXTEND_LBUF(lbuf, owner, f, least_size)                              \
+    do {                                                                     \
+        LBUF_EXTEND((lbuf), f, (least_size));                                \
+        (owner) = own_lbuf((owner), LBUF_BUF(lbuf), (lbuf).init_buf);        \
+    } while (/* CONSTCOND */ 0)
+#define FREE_LBUF(lbuf, owner)                                               \
+    do {                                                                     \
+        if (!NULLP(owner))                                                   \
+            SCM_STRING_SET_STR((owner), NULL);                               \
+        LBUF_FREE(lbuf);                                                     \
+    } while (/* CONSTCOND */ 0)
+
+static ScmObj
+own_lbuf(ScmObj owner, char *buf, const char *init_buf)
+{
+    if (buf == init_buf)
+        return owner;
+
+    if (NULLP(owner))
+        return MAKE_IMMUTABLE_STRING(buf, 0);
+
+    SCM_STRING_SET_STR(owner, buf);
+    return owner;
+}
+
 static ScmObj
 read_string(ScmObj port)
 {
     ScmObj obj;
+    ScmObj volatile owner;
     const ScmSpecialCharInfo *info;
     ScmCharCodec *codec;
     scm_int_t len;
@@ -831,6 +859,7 @@ read_string(ScmObj port)
 
     CDBG((SCM_DBG_PARSER, "read_string"));
 
+    owner = SCM_NULL;
     LBUF_INIT(lbuf, init_buf, sizeof(init_buf));
     codec = scm_port_codec(port);
 
@@ -844,28 +873,28 @@ read_string(ScmObj port)
 
         switch (c) {
         case SCM_ICHAR_EOF:
-            LBUF_FREE(lbuf);
+            FREE_LBUF(lbuf, owner);
             ERR("EOF in string");
             /* NOTREACHED */
 
         case '\"':
-            LBUF_EXTEND(lbuf, SCM_LBUF_F_STRING, offset + 1);
+            EXTEND_LBUF(lbuf, owner, SCM_LBUF_F_STRING, offset + 1);
             LBUF_BUF(lbuf)[offset] = '\0';
             obj = MAKE_IMMUTABLE_STRING_COPYING(LBUF_BUF(lbuf), len);
-            LBUF_FREE(lbuf);
+            FREE_LBUF(lbuf, owner);
             return obj;
 
         case '\\':
             c = scm_port_get_char(port);
             if (c == SCM_ICHAR_EOF) {
-                LBUF_FREE(lbuf);
+                FREE_LBUF(lbuf, owner);
                 ERR("EOF in string");
                 /* NOTREACHED */
             }
 #if SCM_USE_R6RS_CHARS
             if (c == 'x') {
                 c = read_unicode_sequence(port);
-                LBUF_EXTEND(lbuf, SCM_LBUF_F_STRING,
+                EXTEND_LBUF(lbuf, owner, SCM_LBUF_F_STRING,
                             offset + SCM_MB_CHAR_BUF_SIZE);
                 p = &LBUF_BUF(lbuf)[offset];
                 p = SCM_CHARCODEC_INT2STR(codec, p, c, SCM_MB_STATELESS);
@@ -886,7 +915,7 @@ read_string(ScmObj port)
                 /* escape sequences */
                 for (info = scm_special_char_table; info->esc_seq; info++) {
                     if (strlen(info->esc_seq) == 2 && c == info->esc_seq[1]) {
-                        LBUF_EXTEND(lbuf, SCM_LBUF_F_STRING, offset + 1);
+                        EXTEND_LBUF(lbuf, owner, SCM_LBUF_F_STRING, offset + 1);
                         p = &LBUF_BUF(lbuf)[offset];
                         *p++ = info->code;
                         goto found;
@@ -898,7 +927,7 @@ read_string(ScmObj port)
             break;
 
         default:
-            LBUF_EXTEND(lbuf, SCM_LBUF_F_STRING,
+            EXTEND_LBUF(lbuf, owner, SCM_LBUF_F_STRING,
                         offset + SCM_MB_CHAR_BUF_SIZE);
             p = &LBUF_BUF(lbuf)[offset];
 #if SCM_USE_R6RS_CHARS
@@ -928,6 +957,7 @@ static ScmObj
 read_symbol(ScmObj port)
 {
     ScmObj sym;
+    ScmObj volatile owner;
     size_t offset, tail_len;
     int err;
     ScmLBuf(char) lbuf;
@@ -935,6 +965,7 @@ read_symbol(ScmObj port)
 
     CDBG((SCM_DBG_PARSER, "read_symbol"));
 
+    owner = SCM_NULL;
     LBUF_INIT(lbuf, init_buf, sizeof(init_buf));
 
     for (offset = 0;;) {
@@ -945,12 +976,12 @@ read_symbol(ScmObj port)
         if (err != TOKEN_BUF_EXCEEDED)
             break;
         offset += tail_len;
-        LBUF_EXTEND(lbuf, SCM_LBUF_F_SYMBOL,
+        EXTEND_LBUF(lbuf, owner, SCM_LBUF_F_SYMBOL,
                     LBUF_SIZE(lbuf) + SCM_MB_CHAR_BUF_SIZE);
     }
 
     sym = scm_intern(LBUF_BUF(lbuf));
-    LBUF_FREE(lbuf);
+    FREE_LBUF(lbuf, owner);
 
     return sym;
 }
-- 
2.43.0


From 7b2016d1c7fc6927dac1d139416388e2aa335ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 49/58] fix: providing a feature again grew the lists of
 features

---
 src/module.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/module.c b/src/module.c
index 040e22f..5dde360 100644
--- a/src/module.c
+++ b/src/module.c
@@ -173,8 +173,10 @@ scm_provide(ScmObj feature)
 {
     SCM_ASSERT(STRINGP(feature));
 
-    l_features = CONS(feature, l_features);
-    l_provided_modules = CONS(feature, l_provided_modules);
+    if (!scm_providedp(feature))
+        l_features = CONS(feature, l_features);
+    if (FALSEP(scm_p_member(feature, l_provided_modules)))
+        l_provided_modules = CONS(feature, l_provided_modules);
 }
 
 SCM_EXPORT scm_bool
-- 
2.43.0


From e29b51b71d8c9f622cc308dc5eaf025506afaca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 50/58] fix: heap configurations whose size overflows, or with
 more initial heaps than allowed, crashed

---
 src/storage-gc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/storage-gc.c b/src/storage-gc.c
index 1f93d0c..a752ac4 100644
--- a/src/storage-gc.c
+++ b/src/storage-gc.c
@@ -429,9 +429,14 @@ initialize_heap(const ScmStorageConf *conf)
 
     /* Since maximum length of list can be represented by a Scheme integer,
      * SCM_INT_MAX limits the number of cons cells. */
-    if (SCM_INT_MAX < l_n_heaps_max * l_heap_size
-        || SCM_INT_MAX < conf->n_heaps_init * l_heap_size)
+    if (l_heap_size
+        && (SCM_INT_MAX / l_heap_size < l_n_heaps_max
+            || SCM_INT_MAX / l_heap_size < conf->n_heaps_init
+            || SIZE_MAX / sizeof(ScmCell) < l_heap_size))
         scm_fatal_error("too large heap size specified");
+    /* an ordinary error cannot be raised yet */
+    if (l_n_heaps_max < conf->n_heaps_init)
+        scm_fatal_error("too many initial heaps specified");
 
     scm_prealloc_heaps(conf->n_heaps_init);
 }
-- 
2.43.0


From fb295bbf05edcda8a2b9b1d7dbc7dc19fd023a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 51/58] fix: requiring srfi-69 replaced expt, real? and
 inexact? of the global environment

---
 lib/srfi-69.scm | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/lib/srfi-69.scm b/lib/srfi-69.scm
index f4704cd..47bf044 100644
--- a/lib/srfi-69.scm
+++ b/lib/srfi-69.scm
@@ -38,16 +38,9 @@
 
 (require-extension (srfi 9 23))
 
-(define inexact? (lambda (x) #f))
-(define real?    inexact?)
-
-(define expt
-  (lambda (x y)
-    (let rec ((res 1)
-              (cnt y))
-      (if (zero? cnt)
-          res
-          (rec (* res x) (- cnt 1))))))
+;; Don't define standard names such as 'expt' and 'real?' here: this file shares
+;; the global environment with user codes.
+(define %inexact-real? (lambda (x) #f))
 
 ;;
 ;; Main implementation
@@ -85,7 +78,7 @@
     (cond ((integer? obj) (modulo obj bound))
 	  ((string? obj) (string-hash obj bound))
 	  ((symbol? obj) (symbol-hash obj bound))
-	  ((real? obj) (modulo (+ (numerator obj) (denominator obj)) bound))
+	  ((%inexact-real? obj) (modulo (+ (numerator obj) (denominator obj)) bound))
 	  ((number? obj)
 	   (modulo (+ (hash (real-part obj)) (* 3 (hash (imag-part obj))))
 		   bound))
-- 
2.43.0


From e2aed4f74b18fac8a7dc49688a2fce8c5a2a6165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 52/58] fix: the result of a registered reduction operator was
 evaluated again

---
 src/eval.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eval.c b/src/eval.c
index d0af2f2..f62b493 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -341,6 +341,7 @@ call(ScmObj proc, ScmObj args, ScmEvalState *eval_state,
     if (type == SCM_REDUCTION_OPERATOR) {
         scm_reduction_operator func =
             (scm_reduction_operator)SCM_FUNC_CFUNC(proc);
+        eval_state->ret_type = SCM_VALTYPE_AS_IS;
         return reduce(func, args, env, need_eval);
     }
 
-- 
2.43.0


From 07e9d1c608acc78b37dfb07246151b1230ba76ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 53/58] fix: a relative --system-load-path crashed the
 interpreter before it could report it

---
 src/sigscheme.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sigscheme.c b/src/sigscheme.c
index 0d04f77..ba04065 100644
--- a/src/sigscheme.c
+++ b/src/sigscheme.c
@@ -506,6 +506,10 @@ scm_interpret_argv(char **argv)
             sys_load_path = *++argp;
             if (!sys_load_path)
                 argv_err(argv, "no system load path specified");
+            /* scm_set_system_load_path() cannot report this before the
+             * initialization */
+            if (sys_load_path[0] != '/')
+                argv_err(argv, "system load path must be absolute");
         } else {
             argv_err(argv, "invalid option");
         }
-- 
2.43.0


From 4b54efa07ef93af13bdf02c37dab6fb629127636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:36 +0000
Subject: [PATCH 54/58] fix: calling an SCM_PROCEDURE_VARIADIC_5 procedure
 aborted the process

---
 src/eval.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/eval.c b/src/eval.c
index f62b493..80a819c 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -692,6 +692,17 @@ call(ScmObj proc, ScmObj args, ScmEvalState *eval_state,
                                argbuf[3],
                                argbuf[4]);
             }
+        case 6:  /* a variadic procedure receives the rest list in addition */
+            {
+                scm_procedure_variadic_5 func =
+                    (scm_procedure_variadic_5)SCM_FUNC_CFUNC(proc);
+                return (*func)(argbuf[0],
+                               argbuf[1],
+                               argbuf[2],
+                               argbuf[3],
+                               argbuf[4],
+                               argbuf[5]);
+            }
 #endif
         default:
             SCM_NOTREACHED;
-- 
2.43.0


From 56999472da9e6cf941a5271b04555b862a5c7010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 55/58] fix: the feature that require provides had a NUL in its
 name, so that provided? did not find it

---
 src/module-sscm-ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module-sscm-ext.c b/src/module-sscm-ext.c
index 35323fd..6460032 100644
--- a/src/module-sscm-ext.c
+++ b/src/module-sscm-ext.c
@@ -261,7 +261,7 @@ make_loaded_str(const char *filename)
     char *loaded_str;
     size_t size;
 
-    size = strlen(filename) + sizeof("*-loaded*") + 1 /* '\0' */;
+    size = strlen(filename) + sizeof("*-loaded*");
     loaded_str = scm_malloc(size);
     sprintf(loaded_str, "*%s-loaded*", filename);
 
-- 
2.43.0


From 09463ebf3ab3d7a58d2298c09cd44edae47a9e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 56/58] fix: honour else, => and define inserted by a
 syntax-rules template

The keywords in an expansion are wrapped identifiers: they were compared with the bare symbol, so a template could
use neither a cond clause with else or =>, nor an internal definition, and a toplevel form could not expand to a
definition.
---
 src/eval.c   | 6 ++++++
 src/syntax.c | 6 +++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 80a819c..e331cfc 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -300,6 +300,12 @@ call(ScmObj proc, ScmObj args, ScmEvalState *eval_state,
         if (HMACROP(proc)) {
             if (!need_eval)
                 ERR_OBJ("can't apply/map a macro", proc);
+#if SCM_STRICT_TOPLEVEL_DEFINITIONS
+            /* Same as legacy macro: allow toplevel definitions by the
+             * returned form. See scm_eval(). */
+            if (SCM_DEFINABLE_TOPLEVELP(eval_state))
+                eval_state->nest = SCM_NEST_RETTYPE_BEGIN;
+#endif
             return scm_expand_macro(proc, args, eval_state);
         }
 #endif
diff --git a/src/syntax.c b/src/syntax.c
index 7f1acd1..5d6e682 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -159,7 +159,7 @@ scm_init_syntax(void)
 static scm_bool
 refer_keyword_p(ScmObj obj, ScmObj keyword, ScmObj env)
 {
-    return (EQ(obj, keyword)
+    return (EQ(SCM_UNWRAP_KEYWORD(obj), keyword)
             && scm_lookup_environment(obj, env) == SCM_INVALID_REF);
 }
 
@@ -762,7 +762,7 @@ filter_definitions(ScmObj body, ScmObj env,
                 lambda_formals = CDR(var);
                 lambda_body    = exp;
 
-                ENSURE_SYMBOL(sym);
+                ENSURE_IDENTIFIER(sym);
                 var = sym;
                 exp = CONS(l_syn_lambda, CONS(lambda_formals, lambda_body));
             } else {
@@ -1036,7 +1036,7 @@ scm_s_define(ScmObj var, ScmObj rest, ScmEvalState *eval_state)
         formals  = CDR(var);
         body     = rest;
 
-        ENSURE_SYMBOL(procname);
+        ENSURE_IDENTIFIER(procname);
         proc = scm_s_lambda(formals, body, env);
         scm_s_define_internal(ScmFirstClassObj, procname, proc, env);
     } else {
-- 
2.43.0


From d748d2803146f64b5782cd4fa384c865fedc3196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 57/58] fix: accept identifiers inserted by a syntax-rules
 template as variables of set!, do and guard

---
 src/module-srfi34.c | 2 +-
 src/syntax.c        | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/module-srfi34.c b/src/module-srfi34.c
index 717938f..ead7fde 100644
--- a/src/module-srfi34.c
+++ b/src/module-srfi34.c
@@ -410,7 +410,7 @@ guard_handler_body(ScmObj q_handler_k, ScmObj env)
     /* eval cond-catch block */
     sym_var = CAR(cond_catch);
     clauses = CDR(cond_catch);
-    ENSURE_SYMBOL(sym_var);
+    ENSURE_IDENTIFIER(sym_var);
     cond_env
         = scm_extend_environment(LIST_1(sym_var), LIST_1(condition), lex_env);
     SCM_EVAL_STATE_INIT1(eval_state, cond_env);
diff --git a/src/syntax.c b/src/syntax.c
index 5d6e682..d8f1aae 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -264,7 +264,7 @@ scm_s_setx(ScmObj sym, ScmObj exp, ScmObj env)
     ScmRef locally_bound;
     DECLARE_FUNCTION("set!", syntax_fixed_2);
 
-    ENSURE_SYMBOL(sym);
+    ENSURE_IDENTIFIER(sym);
 
     evaled = EVAL(exp, env);
     CHECK_VALID_EVALED_VALUE(evaled);
@@ -272,6 +272,7 @@ scm_s_setx(ScmObj sym, ScmObj exp, ScmObj env)
     if (locally_bound != SCM_INVALID_REF) {
         SET(locally_bound, evaled);
     } else {
+        sym = SCM_UNWRAP_KEYWORD(sym);
         if (!SCM_SYMBOL_BOUNDP(sym))
             ERR_OBJ("unbound variable", sym);
 
@@ -893,7 +894,7 @@ scm_s_do(ScmObj bindings, ScmObj test_exps, ScmObj commands,
         if (!CONSP(binding))
             goto err;
         var  = POP(binding);
-        ENSURE_SYMBOL(var);
+        ENSURE_IDENTIFIER(var);
 #if SCM_STRICT_ARGCHECK
         /* Optional check. Keeping variable name unique is user's
          * responsibility. R5RS: "It is an error for a <variable> to appear
-- 
2.43.0


From f09936cf7fc203f456e9cc1bcb488a86eaba1a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 58/58] fix: keep the dotted tail after an ellipsis in a
 syntax-rules template

---
 src/macro.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index 9a0f88c..438d850 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -458,6 +458,11 @@ compile_rec(compilation_context *ctx, ScmObj form, scm_int_t level)
                     ERR_OBJ("constant repeatable subtemplate", form);
                 if (CONSP(rest))
                     goto restart;
+                if (!NULLP(rest)) {
+                    if (ELLIPSISP(rest))
+                        ERR_OBJ("misplaced ellipsis", form);
+                    SCM_QUEUE_SLOPPY_APPEND(q, compile_rec(ctx, rest, level));
+                }
                 return out;
             } else {
                 SCM_QUEUE_ADD(q, compile_rec(ctx, obj, level));
-- 
2.43.0

