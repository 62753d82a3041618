From 3641dc7193bc7dd5817834a488f331ba699e6929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:12 +0000
Subject: [PATCH 01/14] fix: raise exception when converting NaN to integer

NaN passed the range check in KOS_get_integer() because both comparisons
are false for it, so it was cast to int64_t, which is undefined.
---
 core/kos_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_utils.c b/core/kos_utils.c
index 765b4cd..f940108 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -180,7 +180,7 @@ int KOS_get_integer(KOS_CONTEXT ctx,
 
         case OBJ_FLOAT: {
             const double number = OBJPTR(FLOAT, obj_id)->value;
-            if (number <= -9223372036854775808.0 || number >= 9223372036854775808.0) {
+            if ( ! (number > -9223372036854775808.0 && number < 9223372036854775808.0)) {
                 KOS_raise_printf(ctx, "number %f is out of range for conversion to integer", number);
                 error = KOS_ERROR_EXCEPTION;
             }
-- 
2.43.0


From 5c477c0ad44bdfa208ea8b1437ebb24c9f4e9913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:12 +0000
Subject: [PATCH 02/14] fix: check range when folding bitwise operators on
 constant floats

The folding of unary ~ did not check that a float operand is in range for
conversion to integer and the folding of binary operators missed NaN.
---
 core/kos_compiler_optim.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/kos_compiler_optim.c b/core/kos_compiler_optim.c
index e8a5a86..3cfca43 100644
--- a/core/kos_compiler_optim.c
+++ b/core/kos_compiler_optim.c
@@ -1302,7 +1302,7 @@ static int optimize_binary_op(KOS_COMP_UNIT      *program,
         assert(op != OT_ADD && op != OT_SUB && op != OT_MUL && op != OT_DIV && op != OT_MOD);
 
         if (numeric_a.type == KOS_FLOAT_VALUE) {
-            if (numeric_a.u.d <= -9223372036854775808.0 || numeric_a.u.d >= 9223372036854775808.0) {
+            if ( ! (numeric_a.u.d > -9223372036854775808.0 && numeric_a.u.d < 9223372036854775808.0)) {
                 program->error_str   = str_err_number_out_of_range;
                 program->error_token = &a->token;
                 RAISE_ERROR(KOS_ERROR_COMPILE_FAILED);
@@ -1312,7 +1312,7 @@ static int optimize_binary_op(KOS_COMP_UNIT      *program,
         }
 
         if (numeric_b.type == KOS_FLOAT_VALUE) {
-            if (numeric_b.u.d <= -9223372036854775808.0 || numeric_b.u.d >= 9223372036854775808.0) {
+            if ( ! (numeric_b.u.d > -9223372036854775808.0 && numeric_b.u.d < 9223372036854775808.0)) {
                 program->error_str   = str_err_number_out_of_range;
                 program->error_token = &b->token;
                 RAISE_ERROR(KOS_ERROR_COMPILE_FAILED);
@@ -1461,6 +1461,11 @@ static int optimize_unary_op(KOS_COMP_UNIT      *program,
         assert(op == OT_NOT);
 
         if (numeric_a.type == KOS_FLOAT_VALUE) {
+            if ( ! (numeric_a.u.d > -9223372036854775808.0 && numeric_a.u.d < 9223372036854775808.0)) {
+                program->error_str   = str_err_number_out_of_range;
+                program->error_token = &a->token;
+                return KOS_ERROR_COMPILE_FAILED;
+            }
             numeric_a.u.i = (int64_t)floor(numeric_a.u.d);
             numeric_a.type = KOS_INTEGER_VALUE;
         }
-- 
2.43.0


From 612f6451092963a12ddf1821f59eeb41e7385a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:12 +0000
Subject: [PATCH 03/14] fix: index of first default value for arguments which
 don't fit in registers

When more arguments are passed than fit in registers, the remaining ones are
filled from the array of default values, which is indexed starting from the
first argument which has a default value.
---
 core/kos_vm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/kos_vm.c b/core/kos_vm.c
index 1ae70ec..26c8c9c 100644
--- a/core/kos_vm.c
+++ b/core/kos_vm.c
@@ -644,9 +644,9 @@ static int init_registers(KOS_CONTEXT ctx,
 
             if (num_input_args < num_named_args && num_reg_args < num_named_args) {
 
-                const uint32_t def_src_offs = num_input_args < num_reg_args
-                                              ? num_reg_args - num_non_def_args
-                                              : num_input_args - num_reg_args;
+                const uint32_t def_src_offs = (num_input_args < num_reg_args
+                                               ? num_reg_args : num_input_args)
+                                              - num_non_def_args;
 
                 TRY(KOS_array_insert(ctx,
                                      rest.o,
-- 
2.43.0


From 6a85af0676f50510d6de0667f76f018e60532e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:56 +0000
Subject: [PATCH 04/14] fix: parse floats which round up to the smallest
 normalized number

A literal between the largest denormalized and the smallest normalized number,
such as 2.2250738585072012e-308, was parsed as 0.0, because the carry out of
the denormalized mantissa was masked off and not moved to the exponent.
---
 core/kos_misc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/kos_misc.c b/core/kos_misc.c
index 02c8569..1350522 100644
--- a/core/kos_misc.c
+++ b/core/kos_misc.c
@@ -477,6 +477,9 @@ int kos_parse_double(const char *begin,
             mantissa >>= 1;
             ++exponent;
         }
+        /* Denormalized number rounded up to the smallest normalized number */
+        else if (exponent == -0x3FF && (mantissa & ((uint64_t)1U << 52)))
+            ++exponent;
     }
 
     {
-- 
2.43.0


From 2a49fbb8b0d91ab71632863aef8d29963584ceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:59 +0000
Subject: [PATCH 05/14] fix: constant conditions with floats which round down
 to zero

A float literal starting with a non-zero digit was assumed to be true without
being parsed, so 1e-324, which is 0.0, was true when used as a constant
condition but false otherwise.
---
 core/kos_compiler_optim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_compiler_optim.c b/core/kos_compiler_optim.c
index 3cfca43..88bcf6a 100644
--- a/core/kos_compiler_optim.c
+++ b/core/kos_compiler_optim.c
@@ -122,7 +122,7 @@ static int get_nonzero(const KOS_TOKEN *token, int *non_zero)
 
         assert(token->type == TT_NUMERIC);
 
-        if (c >= '1' && c <= '9') {
+        if (c >= '1' && c <= '9' && kos_is_integer(token->begin, token->begin + token->length)) {
             *non_zero = 1;
             return KOS_SUCCESS;
         }
-- 
2.43.0


From 15b6db15b2d4956a11522a150e5bdc6aeda4993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:16 +0000
Subject: [PATCH 06/14] fix: inserting a shorter part of an array over an
 earlier part of itself

When the replaced range is longer than the inserted one and comes before it, the
difference of the two lengths wrapped around in 32-bit unsigned arithmetic, so
elements were read far outside of the array's storage.
---
 core/kos_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_array.c b/core/kos_array.c
index 9483df7..caa3d3f 100644
--- a/core/kos_array.c
+++ b/core/kos_array.c
@@ -662,7 +662,7 @@ int KOS_array_insert(KOS_CONTEXT ctx,
                                 (unsigned)(dest_len - dest_end));
 
         if (src.o == dest.o && src_begin >= dest_end)
-            src_begin += src_delta - dest_delta;
+            src_begin += (int64_t)src_delta - (int64_t)dest_delta;
 
         if (src_delta)
             kos_atomic_move_ptr((KOS_ATOMIC(void *) *)&dest_buf->buf[dest_begin],
-- 
2.43.0


From 6e5597e4474290c54d4e13f5eb6842c72c4fe45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:11 +0000
Subject: [PATCH 07/14] fix: order unaligned slices of 16-bit and 32-bit
 strings by their first difference

---
 core/kos_string.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/kos_string.c b/core/kos_string.c
index 00147ff..116a790 100644
--- a/core/kos_string.c
+++ b/core/kos_string.c
@@ -1132,9 +1132,13 @@ static int compare_slice(KOS_STRING *str_a,
 
         if (((uintptr_t)pa & 7U) == ((uintptr_t)pb & 7U) && pa + 8 < pend8) {
 
-            while (((uintptr_t)pa & 7U) && *pa == *pb) {
-                ++pa;
-                ++pb;
+            /* Only move by whole elements, so that if any two are different,
+             * the first element which differs is found below. */
+            const uintptr_t elem_size = (uintptr_t)1 << a_elem_size;
+
+            while (((uintptr_t)pa & 7U) && pa < pend8 && ! memcmp(pa, pb, elem_size)) {
+                pa += elem_size;
+                pb += elem_size;
             }
 
             if ( ! ((uintptr_t)pa & 7U)) {
-- 
2.43.0


From 2a73e5765c39ba30200790c76f53cab510b9fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:11 +0000
Subject: [PATCH 08/14] fix: exclusive string scan skipped characters wider
 than the searched ones

---
 core/kos_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/kos_string.c b/core/kos_string.c
index 116a790..b56d07f 100644
--- a/core/kos_string.c
+++ b/core/kos_string.c
@@ -1434,14 +1434,14 @@ int KOS_string_scan(KOS_CONTEXT             ctx,
 
                 case KOS_STRING_ELEM_16:
                     code = *(const uint16_t *)location;
-                    if (code & c_mask)
+                    if (include && (code & c_mask))
                         continue;
                     break;
 
                 default:
                     assert(text_elem_size == KOS_STRING_ELEM_32);
                     code = *(const uint32_t *)location;
-                    if (code & c_mask)
+                    if (include && (code & c_mask))
                         continue;
                     break;
             }
-- 
2.43.0


From 845e4a8f06687965882ccc52ac3d74bfc7db47b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:11 +0000
Subject: [PATCH 09/14] fix: case conversion truncated 16-bit counterparts of
 8-bit characters

---
 core/kos_string.c | 82 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 70 insertions(+), 12 deletions(-)

diff --git a/core/kos_string.c b/core/kos_string.c
index b56d07f..0c6c245 100644
--- a/core/kos_string.c
+++ b/core/kos_string.c
@@ -1630,6 +1630,7 @@ KOS_OBJ_ID KOS_string_lowercase(KOS_CONTEXT ctx, KOS_OBJ_ID obj_id)
     unsigned    len;
     unsigned    i;
     uint8_t     elem_size;
+    uint8_t     new_size;
 
     if (GET_OBJ_TYPE(obj_id) != OBJ_STRING) {
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_not_string));
@@ -1642,9 +1643,24 @@ KOS_OBJ_ID KOS_string_lowercase(KOS_CONTEXT ctx, KOS_OBJ_ID obj_id)
     if (len == 0)
         return KOS_STR_EMPTY;
 
+    /* Some 8-bit characters have 16-bit counterparts, e.g. U+00FF and U+0178 */
+    new_size = elem_size;
+    if ((elem_size & KOS_STRING_ELEM_MASK) == KOS_STRING_ELEM_8) {
+        const uint8_t *src       = (const uint8_t *)kos_get_string_buffer(OBJPTR(STRING, obj_id));
+        uint32_t       mash_code = 0;
+
+        for (i = 0; i < len; i++)
+            mash_code |= kos_unicode_to_lower(src[i]);
+
+        if (mash_code > 0xFFU)
+            new_size = KOS_STRING_ELEM_16;
+        else if (mash_code > 0x7FU)
+            new_size = KOS_STRING_ELEM_8;
+    }
+
     KOS_init_local_with(ctx, &save_obj_id, obj_id);
 
-    new_str = new_empty_string(ctx, len, (KOS_STRING_FLAGS)elem_size);
+    new_str = new_empty_string(ctx, len, (KOS_STRING_FLAGS)new_size);
 
     obj_id = KOS_destroy_top_local(ctx, &save_obj_id);
 
@@ -1654,12 +1670,25 @@ KOS_OBJ_ID KOS_string_lowercase(KOS_CONTEXT ctx, KOS_OBJ_ID obj_id)
     switch (elem_size & KOS_STRING_ELEM_MASK) {
 
         case KOS_STRING_ELEM_8: {
-            const uint8_t *src  = (const uint8_t *)kos_get_string_buffer(OBJPTR(STRING, obj_id));
-            uint8_t       *dest = (uint8_t *)kos_get_string_buffer(new_str);
+            const uint8_t *src = (const uint8_t *)kos_get_string_buffer(OBJPTR(STRING, obj_id));
 
-            for (i = 0; i < len; i++) {
-                const uint8_t c = *(src++);
-                *(dest++) = (uint8_t)kos_unicode_to_lower(c);
+            if (kos_get_string_elem_size(new_str) == KOS_STRING_ELEM_8) {
+                uint8_t *dest = (uint8_t *)kos_get_string_buffer(new_str);
+
+                for (i = 0; i < len; i++) {
+                    const uint8_t c = *(src++);
+                    *(dest++) = (uint8_t)kos_unicode_to_lower(c);
+                }
+            }
+            else {
+                uint16_t *dest = (uint16_t *)kos_get_string_buffer(new_str);
+
+                assert(kos_get_string_elem_size(new_str) == KOS_STRING_ELEM_16);
+
+                for (i = 0; i < len; i++) {
+                    const uint8_t c = *(src++);
+                    *(dest++) = (uint16_t)kos_unicode_to_lower(c);
+                }
             }
             break;
         }
@@ -1703,6 +1732,7 @@ KOS_OBJ_ID KOS_string_uppercase(KOS_CONTEXT ctx, KOS_OBJ_ID obj_id)
     unsigned    len;
     unsigned    i;
     uint8_t     elem_size;
+    uint8_t     new_size;
 
     if (GET_OBJ_TYPE(obj_id) != OBJ_STRING) {
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_not_string));
@@ -1715,9 +1745,24 @@ KOS_OBJ_ID KOS_string_uppercase(KOS_CONTEXT ctx, KOS_OBJ_ID obj_id)
     if (len == 0)
         return KOS_STR_EMPTY;
 
+    /* Some 8-bit characters have 16-bit counterparts, e.g. U+00FF and U+0178 */
+    new_size = elem_size;
+    if ((elem_size & KOS_STRING_ELEM_MASK) == KOS_STRING_ELEM_8) {
+        const uint8_t *src       = (const uint8_t *)kos_get_string_buffer(OBJPTR(STRING, obj_id));
+        uint32_t       mash_code = 0;
+
+        for (i = 0; i < len; i++)
+            mash_code |= kos_unicode_to_upper(src[i]);
+
+        if (mash_code > 0xFFU)
+            new_size = KOS_STRING_ELEM_16;
+        else if (mash_code > 0x7FU)
+            new_size = KOS_STRING_ELEM_8;
+    }
+
     KOS_init_local_with(ctx, &save_obj_id, obj_id);
 
-    new_str = new_empty_string(ctx, len, (KOS_STRING_FLAGS)elem_size);
+    new_str = new_empty_string(ctx, len, (KOS_STRING_FLAGS)new_size);
 
     obj_id = KOS_destroy_top_local(ctx, &save_obj_id);
 
@@ -1727,12 +1772,25 @@ KOS_OBJ_ID KOS_string_uppercase(KOS_CONTEXT ctx, KOS_OBJ_ID obj_id)
     switch (elem_size & KOS_STRING_ELEM_MASK) {
 
         case KOS_STRING_ELEM_8: {
-            const uint8_t *src  = (const uint8_t *)kos_get_string_buffer(OBJPTR(STRING, obj_id));
-            uint8_t       *dest = (uint8_t *)kos_get_string_buffer(new_str);
+            const uint8_t *src = (const uint8_t *)kos_get_string_buffer(OBJPTR(STRING, obj_id));
 
-            for (i = 0; i < len; i++) {
-                const uint8_t c = *(src++);
-                *(dest++) = (uint8_t)kos_unicode_to_upper(c);
+            if (kos_get_string_elem_size(new_str) == KOS_STRING_ELEM_8) {
+                uint8_t *dest = (uint8_t *)kos_get_string_buffer(new_str);
+
+                for (i = 0; i < len; i++) {
+                    const uint8_t c = *(src++);
+                    *(dest++) = (uint8_t)kos_unicode_to_upper(c);
+                }
+            }
+            else {
+                uint16_t *dest = (uint16_t *)kos_get_string_buffer(new_str);
+
+                assert(kos_get_string_elem_size(new_str) == KOS_STRING_ELEM_16);
+
+                for (i = 0; i < len; i++) {
+                    const uint8_t c = *(src++);
+                    *(dest++) = (uint16_t)kos_unicode_to_upper(c);
+                }
             }
             break;
         }
-- 
2.43.0


From 71942f8c886d12620895a64fa4dc3323b8c8f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:31 +0000
Subject: [PATCH 10/14] fix: buffer sizes close to 2^32 overflowed the capacity
 of the storage

---
 core/kos_buffer.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/kos_buffer.c b/core/kos_buffer.c
index 1fc6da7..4cd86fb 100644
--- a/core/kos_buffer.c
+++ b/core/kos_buffer.c
@@ -19,6 +19,9 @@ KOS_DECLARE_STATIC_CONST_STRING(str_err_read_only,        "buffer is read-only")
 
 #define KOS_buffer_alloc_size(cap) (sizeof(KOS_BUFFER_STORAGE) + ((cap) - 1U))
 
+/* Largest size for which calculation of aligned capacity and allocation size does not overflow */
+#define MAX_BUFFER_SIZE (0xFFFFFFFFU - (uint32_t)sizeof(KOS_BUFFER_STORAGE) - KOS_BUFFER_CAPACITY_ALIGN)
+
 static KOS_BUFFER_STORAGE *alloc_buffer(KOS_CONTEXT ctx, unsigned capacity)
 {
     KOS_BUFFER_STORAGE *const data = (KOS_BUFFER_STORAGE *)
@@ -77,6 +80,11 @@ KOS_OBJ_ID KOS_new_buffer(KOS_CONTEXT ctx,
     const unsigned capacity = (size + (KOS_BUFFER_CAPACITY_ALIGN-1)) & ~(KOS_BUFFER_CAPACITY_ALIGN-1);
     KOS_LOCAL      obj;
 
+    if (size > MAX_BUFFER_SIZE) {
+        KOS_raise_exception(ctx, KOS_CONST_ID(str_err_make_room_size));
+        return KOS_BADPTR;
+    }
+
     KOS_init_local_with(ctx, &obj, OBJID(BUFFER, (KOS_BUFFER *)
                 kos_alloc_object(ctx,
                                  KOS_ALLOC_MOVABLE,
@@ -171,15 +179,18 @@ int KOS_buffer_reserve(KOS_CONTEXT ctx,
     KOS_init_local_with(ctx, &obj, obj_id);
     KOS_init_local(ctx, &old_buf);
 
-    new_capacity = (new_capacity + (KOS_BUFFER_CAPACITY_ALIGN-1)) & ~(KOS_BUFFER_CAPACITY_ALIGN-1);
-
     if (GET_OBJ_TYPE(obj.o) != OBJ_BUFFER)
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_not_buffer));
     else if (KOS_atomic_read_relaxed_u32(OBJPTR(BUFFER, obj.o)->flags) & KOS_READ_ONLY)
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_read_only));
     else if (KOS_atomic_read_relaxed_u32(OBJPTR(BUFFER, obj.o)->flags) & KOS_EXTERNAL_STORAGE)
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_external_storage));
+    else if (new_capacity > MAX_BUFFER_SIZE)
+        KOS_raise_exception(ctx, KOS_CONST_ID(str_err_make_room_size));
     else {
+
+        new_capacity = (new_capacity + (KOS_BUFFER_CAPACITY_ALIGN-1)) & ~(KOS_BUFFER_CAPACITY_ALIGN-1);
+
         for (;;) {
             uint32_t capacity;
 
-- 
2.43.0


From bf9e97b2ca466d8ce5c4bad14aadc975b5accff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 11/14] fix: overflow of total size in buffer pack() and
 unpack()

---
 modules/kos_mod_base.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 417981c..ce41659 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -2989,6 +2989,12 @@ static int pack_format(KOS_CONTEXT               ctx,
     assert(size != ~0U || value_fmt == 's');
 
     if (size != ~0U && size && count) {
+        if (count > 0xFFFFFFFFU / size) {
+            KOS_raise_printf(ctx,
+                "total size for '%c%u' count %u at position %u is out of range",
+                (char)value_fmt, size, count, fmt_offs + 1);
+            RAISE_ERROR(KOS_ERROR_EXCEPTION);
+        }
         dst = KOS_buffer_make_room(ctx, buffer.o, size * count);
         if ( ! dst)
             RAISE_ERROR(KOS_ERROR_EXCEPTION);
@@ -3233,6 +3239,7 @@ static int unpack_format(KOS_CONTEXT               ctx,
     int            error     = KOS_SUCCESS;
     int            offs;
     const uint32_t data_size = KOS_get_buffer_size(buffer_obj);
+    uint64_t       total_size;
     int            big_end   = fmt->big_end;
     KOS_OBJ_ID     obj;
     KOS_LOCAL      buffer;
@@ -3251,11 +3258,14 @@ static int unpack_format(KOS_CONTEXT               ctx,
         size = data_size - fmt->idx;
     }
 
-    if (fmt->idx + size * count > data_size) {
+    total_size = (uint64_t)fmt->idx + (uint64_t)size * count;
+
+    if (total_size > data_size) {
         KOS_raise_printf(ctx,
             "buffer with size %u too short to unpack data for format character "
             "'%c%u' at position %u, need size to be at least %u",
-            data_size, (char)value_fmt, size, fmt_offs + 1, fmt->idx + size * count);
+            data_size, (char)value_fmt, size, fmt_offs + 1,
+            (unsigned)KOS_min(total_size, 0xFFFFFFFFU));
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
 
-- 
2.43.0


From 005a015a10936d2e3db2b81b156aafdf3c7c8ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 12/14] fix: creating a buffer from an empty string or an empty
 buffer

---
 modules/kos_mod_base.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index ce41659..a4bbec5 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -1480,6 +1480,9 @@ static KOS_OBJ_ID buffer_constructor(KOS_CONTEXT ctx,
                 if (size == ~0U)
                     RAISE_EXCEPTION_STR(str_err_invalid_string);
 
+                if ( ! size)
+                    break;
+
                 TRY(KOS_buffer_resize(ctx, buffer.o, cur_size + size));
 
                 data = KOS_buffer_data_volatile(ctx, buffer.o);
@@ -1495,6 +1498,9 @@ static KOS_OBJ_ID buffer_constructor(KOS_CONTEXT ctx,
                 const uint32_t size = KOS_get_buffer_size(arg.o);
                 uint8_t       *data;
 
+                if ( ! size)
+                    break;
+
                 TRY(KOS_buffer_resize(ctx, buffer.o, cur_size + size));
 
                 data = KOS_buffer_data_volatile(ctx, buffer.o);
-- 
2.43.0


From 81b2bb7465ab3f0b4e0b29519a8e70281224ba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:56 +0000
Subject: [PATCH 13/14] fix: strings whose hash is zero tripped an assertion

---
 core/kos_string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/kos_string.c b/core/kos_string.c
index 0c6c245..c371f10 100644
--- a/core/kos_string.c
+++ b/core/kos_string.c
@@ -552,7 +552,9 @@ uint32_t KOS_string_get_hash(KOS_OBJ_ID obj_id)
                 break;
         }
 
-        assert(hash);
+        /* Zero is reserved to denote that the hash has not been calculated yet */
+        if ( ! hash)
+            hash = 1U;
 
         KOS_atomic_write_relaxed_u32(str->header.hash, hash);
     }
-- 
2.43.0


From 227f7c8ab56526159200a16fdbc9de2ca32847af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 14/14] fix: KOS_string_find read outside of the string for
 positions close to INT_MAX

---
 core/kos_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_string.c b/core/kos_string.c
index c371f10..d4c0a3a 100644
--- a/core/kos_string.c
+++ b/core/kos_string.c
@@ -1350,7 +1350,7 @@ int KOS_string_find(KOS_CONTEXT         ctx,
     cur_pos  = *pos;
     text_len = (int)KOS_get_string_length(obj_id_text);
 
-    if (cur_pos < 0 || cur_pos + pattern_len > text_len) {
+    if (cur_pos < 0 || pattern_len > text_len - cur_pos) {
         *pos = -1;
         return KOS_SUCCESS;
     }
-- 
2.43.0

