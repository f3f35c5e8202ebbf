From 3f565f4c4918c63d88b6be1b22950dbf9e0a0637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 01/24] fix: inserting zero bytes into an empty buffer no
 longer reports failure

---
 data/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/buffer.c b/data/buffer.c
index 548d355..d3a6ab9 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -108,7 +108,7 @@ buffer_shrink(BUFFER* buf)
 void*
 buffer_insert_raw(BUFFER* buf, size_t off, size_t n)
 {
-    if(buf->size + n > buf->alloc) {
+    if(buf->data == NULL || n > buf->alloc - buf->size) {
         if(buffer_reserve(buf, n) != 0)
             return NULL;
     }
-- 
2.43.0


From 63fdfd3d8fac6d8e4e4863b45fc62b34a0810cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 02/24] fix: buffer capacity arithmetic no longer overflows or
 hangs for huge requests

---
 data/buffer.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/data/buffer.c b/data/buffer.c
index d3a6ab9..f39bb61 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -47,8 +47,11 @@ buffer_good_alloc_size(size_t requested_alloc)
          * be little bit more conservative.)
          */
         good_alloc = 512;
-        while(good_alloc-32 < requested_alloc)
+        while(good_alloc-32 < requested_alloc) {
+            if(good_alloc > SIZE_MAX / 2)
+                return requested_alloc;
             good_alloc *= 2;
+        }
         good_alloc -= 32;
     }
 
@@ -86,9 +89,12 @@ buffer_reserve(BUFFER* buf, size_t n)
 {
     size_t alloc;
 
-    if(buf->size + n < buf->alloc)
+    if(n < buf->alloc - buf->size)
         return 0;
 
+    if(n > SIZE_MAX - buf->size)
+        return -1;
+
     alloc = buf->size + n;
     alloc = buffer_good_alloc_size(alloc);
 
-- 
2.43.0


From e56c0ef64a2f48830e17938c62edc3b45cde5008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 03/24] fix: buffer_remove no longer overflows when off + n
 wraps around

---
 data/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/buffer.c b/data/buffer.c
index f39bb61..033c8a6 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -142,7 +142,7 @@ buffer_insert(BUFFER* buf, size_t off, const void* data, size_t n)
 void
 buffer_remove(BUFFER* buf, size_t off, size_t n)
 {
-    if(off + n < buf->size) {
+    if(off < buf->size  &&  n < buf->size - off) {
         memmove((uint8_t*)buf->data + off, (uint8_t*)buf->data + off + n, buf->size - off - n);
         buf->size -= n;
     } else {
-- 
2.43.0


From 236531fdc6b98f06e22917be438ebbac7b4e0af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 04/24] fix: array element counts whose byte size overflows are
 refused

---
 data/buffer.h | 58 +++++++++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/data/buffer.h b/data/buffer.h
index a15d99c..133f9ab 100644
--- a/data/buffer.h
+++ b/data/buffer.h
@@ -234,6 +234,10 @@ BUFFER_INLINE__ void stack_swap(STACK* stack1, STACK* stack2)
  *** ARRAY structure ***
  ***********************/
 
+/* Byte size of n array elements; (size_t) -1 if it cannot be represented. */
+#define BUFFER_ARRAY_BYTES__(n, elem_size)                                    \
+            ((n) <= (size_t) -1 / (elem_size) ? (n) * (elem_size) : (size_t) -1)
+
 /* These are just an inline wrappers of the BUFFER structure. */
 typedef struct ARRAY_int8       ARRAY_int8;
 typedef struct ARRAY_uint8      ARRAY_uint8;
@@ -512,23 +516,23 @@ BUFFER_INLINE__ int array_ptr_insert(ARRAY_uint64* array, size_t index, void* pt
         }
 
 BUFFER_INLINE__ int array_int8_insert_n_raw(ARRAY_int8* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int8_t), n * sizeof(int8_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int8_t), BUFFER_ARRAY_BYTES__(n, sizeof(int8_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint8_insert_n_raw(ARRAY_uint8* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint8_t), n * sizeof(uint8_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint8_t), BUFFER_ARRAY_BYTES__(n, sizeof(uint8_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int16_insert_n_raw(ARRAY_int16* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int16_t), n * sizeof(int16_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int16_t), BUFFER_ARRAY_BYTES__(n, sizeof(int16_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint16_insert_n_raw(ARRAY_uint16* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint16_t), n * sizeof(uint16_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint16_t), BUFFER_ARRAY_BYTES__(n, sizeof(uint16_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int32_insert_n_raw(ARRAY_int32* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int32_t), n * sizeof(int32_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int32_t), BUFFER_ARRAY_BYTES__(n, sizeof(int32_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint32_insert_n_raw(ARRAY_uint32* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint32_t), n * sizeof(uint32_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint32_t), BUFFER_ARRAY_BYTES__(n, sizeof(uint32_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int64_insert_n_raw(ARRAY_int64* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int64_t), n * sizeof(int64_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int64_t), BUFFER_ARRAY_BYTES__(n, sizeof(int64_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint64_insert_n_raw(ARRAY_uint64* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint64_t), n * sizeof(uint64_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint64_t), BUFFER_ARRAY_BYTES__(n, sizeof(uint64_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_ptr_insert_n_raw(ARRAY_ptr* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(void*), n * sizeof(void*)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(void*), BUFFER_ARRAY_BYTES__(n, sizeof(void*))) != NULL ? 0 : -1); }
 
 BUFFER_INLINE__ int array_int8_append_raw(ARRAY_int8* array)
         { return (buffer_append_raw(&array->buf, sizeof(int8_t)) != NULL ? 0 : -1); }
@@ -623,23 +627,23 @@ BUFFER_INLINE__ int array_ptr_append(ARRAY_ptr* array, void* ptr)
         }
 
 BUFFER_INLINE__ int array_int8_append_n(ARRAY_int8* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int8_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, BUFFER_ARRAY_BYTES__(n, sizeof(int8_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint8_append_n(ARRAY_uint8* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint8_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, BUFFER_ARRAY_BYTES__(n, sizeof(uint8_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int16_append_n(ARRAY_int16* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int16_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, BUFFER_ARRAY_BYTES__(n, sizeof(int16_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint16_append_n(ARRAY_uint16* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint16_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, BUFFER_ARRAY_BYTES__(n, sizeof(uint16_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int32_append_n(ARRAY_int32* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int32_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, BUFFER_ARRAY_BYTES__(n, sizeof(int32_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint32_append_n(ARRAY_uint32* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint32_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, BUFFER_ARRAY_BYTES__(n, sizeof(uint32_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int64_append_n(ARRAY_int64* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int64_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, BUFFER_ARRAY_BYTES__(n, sizeof(int64_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint64_append_n(ARRAY_uint64* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint64_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, BUFFER_ARRAY_BYTES__(n, sizeof(uint64_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_ptr_append_n(ARRAY_ptr* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(void*)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, BUFFER_ARRAY_BYTES__(n, sizeof(void*))) != NULL ? 0 : -1); }
 
 BUFFER_INLINE__ void array_int8_remove(ARRAY_int8* array, size_t index)
         { buffer_remove(&array->buf, index * sizeof(int8_t), sizeof(int8_t)); }
@@ -661,23 +665,23 @@ BUFFER_INLINE__ void array_ptr_remove(ARRAY_ptr* array, size_t index)
         { buffer_remove(&array->buf, index * sizeof(void*), sizeof(void*)); }
 
 BUFFER_INLINE__ void array_int8_remove_n(ARRAY_int8* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int8_t), n * sizeof(int8_t)); }
+        { buffer_remove(&array->buf, index * sizeof(int8_t), BUFFER_ARRAY_BYTES__(n, sizeof(int8_t))); }
 BUFFER_INLINE__ void array_uint8_remove_n(ARRAY_uint8* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint8_t), n * sizeof(uint8_t)); }
+        { buffer_remove(&array->buf, index * sizeof(uint8_t), BUFFER_ARRAY_BYTES__(n, sizeof(uint8_t))); }
 BUFFER_INLINE__ void array_int16_remove_n(ARRAY_int16* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int16_t), n * sizeof(int16_t)); }
+        { buffer_remove(&array->buf, index * sizeof(int16_t), BUFFER_ARRAY_BYTES__(n, sizeof(int16_t))); }
 BUFFER_INLINE__ void array_uint16_remove_n(ARRAY_uint16* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint16_t), n * sizeof(uint16_t)); }
+        { buffer_remove(&array->buf, index * sizeof(uint16_t), BUFFER_ARRAY_BYTES__(n, sizeof(uint16_t))); }
 BUFFER_INLINE__ void array_int32_remove_n(ARRAY_int32* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int32_t), n * sizeof(int32_t)); }
+        { buffer_remove(&array->buf, index * sizeof(int32_t), BUFFER_ARRAY_BYTES__(n, sizeof(int32_t))); }
 BUFFER_INLINE__ void array_uint32_remove_n(ARRAY_uint32* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint32_t), n * sizeof(uint32_t)); }
+        { buffer_remove(&array->buf, index * sizeof(uint32_t), BUFFER_ARRAY_BYTES__(n, sizeof(uint32_t))); }
 BUFFER_INLINE__ void array_int64_remove_n(ARRAY_int64* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int64_t), n * sizeof(int64_t)); }
+        { buffer_remove(&array->buf, index * sizeof(int64_t), BUFFER_ARRAY_BYTES__(n, sizeof(int64_t))); }
 BUFFER_INLINE__ void array_uint64_remove_n(ARRAY_uint64* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint64_t), n * sizeof(uint64_t)); }
+        { buffer_remove(&array->buf, index * sizeof(uint64_t), BUFFER_ARRAY_BYTES__(n, sizeof(uint64_t))); }
 BUFFER_INLINE__ void array_ptr_remove_n(ARRAY_ptr* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(void*), n * sizeof(void*)); }
+        { buffer_remove(&array->buf, index * sizeof(void*), BUFFER_ARRAY_BYTES__(n, sizeof(void*))); }
 
 BUFFER_INLINE__ int8_t* array_int8_acquire(ARRAY_int8* array, size_t* p_size)
         { void* data; data = buffer_acquire(&array->buf, p_size);
-- 
2.43.0


From 44d1f69ed757db9db1a8e9c29934c747e08f79ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 05/24] fix: array_ptr_insert takes an ARRAY_ptr

---
 data/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/buffer.h b/data/buffer.h
index 133f9ab..06d7c37 100644
--- a/data/buffer.h
+++ b/data/buffer.h
@@ -506,7 +506,7 @@ BUFFER_INLINE__ int array_uint64_insert(ARRAY_uint64* array, size_t index, uint6
                 *addr = u64;
             return (addr != NULL) ? 0 : -1;
         }
-BUFFER_INLINE__ int array_ptr_insert(ARRAY_uint64* array, size_t index, void* ptr)
+BUFFER_INLINE__ int array_ptr_insert(ARRAY_ptr* array, size_t index, void* ptr)
         {
             void** addr;
             addr = (void**) buffer_insert_raw(&array->buf, index * sizeof(void*), sizeof(void*));
-- 
2.43.0


From 90cfdd5506559d22c03f858e1e0013a9a6f1f200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:34 +0000
Subject: [PATCH 06/24] fix: value_string_length works for strings of 2 GiB and
 more

---
 data/value.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index 36ad911..55b2384 100644
--- a/data/value.c
+++ b/data/value.c
@@ -707,11 +707,11 @@ value_string_length(const VALUE* v)
 
     payload = value_payload((VALUE*) v);
     while(payload[off] & 0x80) {
-        len |= (payload[off] & 0x7f) << shift;
+        len |= (size_t)(payload[off] & 0x7f) << shift;
         shift += 7;
         off++;
     }
-    len |= payload[off] << shift;
+    len |= (size_t)payload[off] << shift;
 
     return len;
 }
-- 
2.43.0


From ed10ec751012d39a549c2cf4b045d18f1ca7fb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 07/24] fix: value_dict_add_ fails for a used key whose value
 is still new

---
 data/value.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 55b2384..31c1eac 100644
--- a/data/value.c
+++ b/data/value.c
@@ -1143,10 +1143,14 @@ value_dict_fix_after_insert(DICT* d, RBTREE** path, int path_len)
 VALUE*
 value_dict_add_(VALUE* v, const char* key, size_t key_len)
 {
+    size_t size = value_dict_size(v);
     VALUE* res;
 
     res = value_dict_get_or_add_(v, key, key_len);
-    return (value_is_new(res) ? res : NULL);
+
+    /* If the dictionary has not grown, the key has already been used (even
+     * though its value may have not been initialized yet). */
+    return (value_dict_size(v) > size) ? res : NULL;
 }
 
 VALUE*
-- 
2.43.0


From b6c1938e62291db80cd6268463abe13560b39900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 08/24] fix: value_dict_add accepts NULL key as its siblings do

---
 data/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 31c1eac..48cb227 100644
--- a/data/value.c
+++ b/data/value.c
@@ -1156,7 +1156,7 @@ value_dict_add_(VALUE* v, const char* key, size_t key_len)
 VALUE*
 value_dict_add(VALUE* v, const char* key)
 {
-    return value_dict_add_(v, key, strlen(key));
+    return value_dict_add_(v, key, (key != NULL) ? strlen(key) : 0);
 }
 
 VALUE*
-- 
2.43.0


From fd2c48e59a639117c4ac7ac924ec50805cfda824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 09/24] fix: value_array_remove_range refuses index + count
 that overflows

---
 data/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 48cb227..34be622 100644
--- a/data/value.c
+++ b/data/value.c
@@ -846,7 +846,7 @@ value_array_remove_range(VALUE* v, size_t index, size_t count)
     ARRAY* a = value_array_payload(v);
     size_t i;
 
-    if(a == NULL  ||  index + count > a->size)
+    if(a == NULL  ||  index > a->size  ||  count > a->size - index)
         return -1;
 
     for(i = index; i < index + count; i++)
-- 
2.43.0


From cbb433d73793263e60693e7b2ee6b3662e739bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 10/24] fix: floats and doubles are rounded to the nearest
 integer correctly

---
 data/value.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/data/value.c b/data/value.c
index 34be622..24f80a5 100644
--- a/data/value.c
+++ b/data/value.c
@@ -91,9 +91,14 @@ struct DICT_tag {
 
 /* We don't want to include <math.h> just because of roundf() and round().
  * Especially as on some systems it requires explicit linking with math
- * library (-lm). */
-#define ROUNDF(inttype, x)   ((inttype)((x) >= 0.0f ? (x) + 0.5f : (x) - 0.5f))
-#define ROUNDD(inttype, x)   ((inttype)((x) >= 0.0 ? (x) + 0.5 : (x) - 0.5))
+ * library (-lm).
+ *
+ * (Do not add or subtract 0.5 from the original number: The result would be
+ * rounded wrongly if it cannot be represented exactly.) */
+#define ROUNDF(inttype, x)   ((inttype)(x) + ((x) - (float)(inttype)(x) >= 0.5f)   \
+                                           - ((x) - (float)(inttype)(x) <= -0.5f))
+#define ROUNDD(inttype, x)   ((inttype)(x) + ((x) - (double)(inttype)(x) >= 0.5)   \
+                                           - ((x) - (double)(inttype)(x) <= -0.5))
 
 
 static void*
-- 
2.43.0


From b45165814bb720b54221061adc5a4965a46aa869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 11/24] fix: array index in a path does not wrap around

---
 data/value.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 24f80a5..2e5fc00 100644
--- a/data/value.c
+++ b/data/value.c
@@ -270,7 +270,10 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
             }
 
             while('0' <= *token_beg  &&  *token_beg <= '9') {
-                index = index * 10 + (*token_beg - '0');
+                if(index <= (SIZE_MAX - 9) / 10)
+                    index = index * 10 + (*token_beg - '0');
+                else
+                    index = SIZE_MAX;   /* Out of range for any array. */
                 token_beg++;
             }
             if(*token_beg != ']')
-- 
2.43.0


From f269ec700cede6b158dafb30072a85eb139fee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:01 +0000
Subject: [PATCH 12/24] fix: hex_decode must reject letters outside a-f

---
 encode/hex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/encode/hex.c b/encode/hex.c
index 7a3e6db..45213eb 100644
--- a/encode/hex.c
+++ b/encode/hex.c
@@ -87,9 +87,9 @@ hex_decode(const char* in_buf, unsigned in_size, void* out_buf, unsigned out_siz
     while(in < in_end  &&  out < out_end) {
         if('0' <= *in  &&  *in <= '9')
             *out = (*in - '0') << 4;
-        else if('a' <= *in  &&  *in <= 'z')
+        else if('a' <= *in  &&  *in <= 'f')
             *out = (*in - 'a' + 10) << 4;
-        else if('A' <= *in  &&  *in <= 'Z')
+        else if('A' <= *in  &&  *in <= 'F')
             *out = (*in - 'A' + 10) << 4;
         else
             return -1;
@@ -97,9 +97,9 @@ hex_decode(const char* in_buf, unsigned in_size, void* out_buf, unsigned out_siz
 
         if('0' <= *in  &&  *in <= '9')
             *out |= (*in - '0');
-        else if('a' <= *in  &&  *in <= 'z')
+        else if('a' <= *in  &&  *in <= 'f')
             *out |= (*in - 'a' + 10);
-        else if('A' <= *in  &&  *in <= 'Z')
+        else if('A' <= *in  &&  *in <= 'F')
             *out |= (*in - 'A' + 10);
         else
             return -1;
-- 
2.43.0


From 79fdef8c58b4105a08d8355ce023371c7909a541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 13/24] fix: index the base64 decoding table by unsigned
 characters

---
 encode/base64.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/encode/base64.c b/encode/base64.c
index ac5407a..f6ec642 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -154,12 +154,12 @@ base64_decode(const char* in_buf, unsigned in_size,
     memset(table, 0xff, 256);
     for(i = 0; i < 62; i++)
         table[(int) base64_table_core[i]] = i;
-    table[(int) options->ch62] = 62;
-    table[(int) options->ch63] = 63;
+    table[(unsigned char) options->ch62] = 62;
+    table[(unsigned char) options->ch63] = 63;
 
     /* Validate the input. */
     for(in_off = 0; in_off < in_size; in_off++) {
-        if(table[(int) in[in_off]] == 0xff)
+        if(table[(unsigned char) in[in_off]] == 0xff)
             return -EINVAL;
     }
 
@@ -175,13 +175,13 @@ base64_decode(const char* in_buf, unsigned in_size,
             break;
 
         case 2:
-            if(table[(int) in[in_size-1]] & 0x4f)
+            if(table[(unsigned char) in[in_size-1]] & 0x4f)
                 return -EINVAL;
             out_size_needed += 1;
             break;
 
         case 3:
-            if(table[(int) in[in_size-1]] & 0xc3)
+            if(table[(unsigned char) in[in_size-1]] & 0xc3)
                 return -EINVAL;
             out_size_needed += 2;
             break;
@@ -197,10 +197,10 @@ base64_decode(const char* in_buf, unsigned in_size,
     /* Main loop. */
     in_off = 0;
     while(in_off + 4 <= in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
-        v |= (unsigned)table[(int) in[in_off++]] << 6;
-        v |= (unsigned)table[(int) in[in_off++]];
+        v  = (unsigned)table[(unsigned char) in[in_off++]] << 18;
+        v |= (unsigned)table[(unsigned char) in[in_off++]] << 12;
+        v |= (unsigned)table[(unsigned char) in[in_off++]] << 6;
+        v |= (unsigned)table[(unsigned char) in[in_off++]];
 
         out[out_off++] = (v >> 16) & 0xff;
         out[out_off++] = (v >>  8) & 0xff;
@@ -208,13 +208,13 @@ base64_decode(const char* in_buf, unsigned in_size,
     }
 
     if(in_off + 2 == in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
+        v  = (unsigned)table[(unsigned char) in[in_off++]] << 18;
+        v |= (unsigned)table[(unsigned char) in[in_off++]] << 12;
         out[out_off++] = (v >> 16) & 0xff;
     } else if(in_off + 3 == in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
-        v |= (unsigned)table[(int) in[in_off++]] << 6;
+        v  = (unsigned)table[(unsigned char) in[in_off++]] << 18;
+        v |= (unsigned)table[(unsigned char) in[in_off++]] << 12;
+        v |= (unsigned)table[(unsigned char) in[in_off++]] << 6;
         out[out_off++] = (v >> 16) & 0xff;
         out[out_off++] = (v >>  8) & 0xff;
     }
-- 
2.43.0


From fa560709add58bffc81db692ebe3e1fe46600796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:10 +0000
Subject: [PATCH 14/24] fix: base64_encode must fail when the output size is
 not representable

---
 encode/base64.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encode/base64.c b/encode/base64.c
index f6ec642..39bb584 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -26,6 +26,7 @@
 #include "base64.h"
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <string.h>
 
@@ -52,6 +53,10 @@ base64_encode(const void* in_buf, unsigned in_size,
     if(options == NULL)
         options = &base64_def_options;
 
+    /* The size of the output has to fit into the return type. */
+    if(in_size > (INT_MAX / 4) * 3)
+        return -EINVAL;
+
     /* Every three bytes are encoded into 4 characters of output.
      * Finally add +1 for zero terminator. */
     out_size_needed = ((in_size + 2) / 3) * 4;
-- 
2.43.0


From 7168f7cce8498d62ad40d4cfd24c702d12f615b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 15/24] fix: hex_encode must fail when the output size is not
 representable

---
 encode/hex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encode/hex.c b/encode/hex.c
index 45213eb..92e5f18 100644
--- a/encode/hex.c
+++ b/encode/hex.c
@@ -25,6 +25,8 @@
 
 #include "hex.h"
 
+#include <limits.h>
+
 
 int
 hex_encode(const void* in_buf, unsigned in_size,
@@ -39,6 +41,10 @@ hex_encode(const void* in_buf, unsigned in_size,
     char* out;
     char* out_end;
 
+    /* The size of the output has to fit into the return type. */
+    if(in_size > (INT_MAX - 1) / 2)
+        return -1;
+
     if(out_buf == NULL)
         return in_size * 2 + 1;
 
-- 
2.43.0


From a8fe84926c5f11f40354d8ad8a3e5d864b1c345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:32 +0000
Subject: [PATCH 16/24] fix: crc32 must count bytes with size_t

---
 hash/crc32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/crc32.c b/hash/crc32.c
index 09398c7..7738aff 100644
--- a/hash/crc32.c
+++ b/hash/crc32.c
@@ -122,7 +122,7 @@ crc32(const void* data, size_t n)
 {
     const uint8_t* bytes = (const uint8_t*) data;
     uint32_t crcreg = CRC32_INITXOR;
-    int i;
+    size_t i;
 
     for(i = 0; i < n; i++)
         crcreg = (crcreg >> 8) ^ crc32_table[((crcreg ^ bytes[i]) & 0xffU)];
-- 
2.43.0


From 6be4bef1e090af70e91942f50fdae21bcd603324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:37 +0000
Subject: [PATCH 17/24] fix: memchunk_alloc must not wrap around on huge sizes

---
 mem/memchunk.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mem/memchunk.c b/mem/memchunk.c
index 7682ed3..91f2965 100644
--- a/mem/memchunk.c
+++ b/mem/memchunk.c
@@ -25,6 +25,8 @@
 
 #include "memchunk.h"
 
+#include <stdint.h>
+
 
 struct MEMCHUNK_BLOCK {
     struct MEMCHUNK_BLOCK* next;
@@ -48,8 +50,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
     void* ptr;
 
     /* Not enough free space in the head block? */
-    if(chunk->head == NULL  ||  chunk->free_off + size > chunk->block_size) {
-        if(4 * size > chunk->block_size) {
+    if(chunk->head == NULL  ||  size > chunk->block_size - chunk->free_off) {
+        if(size > chunk->block_size / 4) {
             /* A big allocation.
              *
              * If application asks for more memory than the block size, we
@@ -63,6 +65,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
              * future smaller requests. */
             MEMCHUNK_BLOCK* block;
 
+            if(size > SIZE_MAX - sizeof(MEMCHUNK_BLOCK))
+                return NULL;
             block = malloc(sizeof(MEMCHUNK_BLOCK) + size);
             if(block == NULL)
                 return NULL;
@@ -81,6 +85,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
             /* Allocate a standard new block. */
             MEMCHUNK_BLOCK* block;
 
+            if(chunk->block_size > SIZE_MAX - sizeof(MEMCHUNK_BLOCK))
+                return NULL;
             block = malloc(sizeof(MEMCHUNK_BLOCK) + chunk->block_size);
             if(block == NULL)
                 return NULL;
-- 
2.43.0


From 62acb4bc839655c65b0248a02c6b26c9f64be4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:41 +0000
Subject: [PATCH 18/24] fix: MALLOCA_ must parenthesize its size argument

---
 mem/malloca.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index b9fa607..be4cecd 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -83,8 +83,8 @@ malloca_set_mark__(void* ptr, int mark)
  */
 #define MALLOCA_(size, threshold)                                           \
     ((size) < (threshold) - sizeof(void*)                                   \
-        ? malloca_set_mark__(CRE_alloca__(size + sizeof(void*)), 0xcccc)    \
-        : malloca_set_mark__(malloc(size + sizeof(void*)), 0xdddd))
+        ? malloca_set_mark__(CRE_alloca__((size) + sizeof(void*)), 0xcccc)  \
+        : malloca_set_mark__(malloc((size) + sizeof(void*)), 0xdddd))
 
 #define MALLOCA(size)       MALLOCA_((size), MALLOCA_THRESHOLD)
 
-- 
2.43.0


From 14dbbacbbb0175178e1a8c83bb2784bbf9fb1947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:45 +0000
Subject: [PATCH 19/24] fix: MALLOCA_ with a tiny threshold must not allocate
 everything on stack

---
 mem/malloca.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index be4cecd..b1d72a6 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -82,7 +82,7 @@ malloca_set_mark__(void* ptr, int mark)
  * anymore, release it with FREEA().
  */
 #define MALLOCA_(size, threshold)                                           \
-    ((size) < (threshold) - sizeof(void*)                                   \
+    ((threshold) > sizeof(void*)  &&  (size) < (threshold) - sizeof(void*)  \
         ? malloca_set_mark__(CRE_alloca__((size) + sizeof(void*)), 0xcccc)  \
         : malloca_set_mark__(malloc((size) + sizeof(void*)), 0xdddd))
 
-- 
2.43.0


From eed097466e91c6a423631fe4684a5608619f8940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:49 +0000
Subject: [PATCH 20/24] fix: FREEA must work for an argument named x

---
 mem/malloca.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index b1d72a6..ef230ac 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -92,10 +92,11 @@ malloca_set_mark__(void* ptr, int mark)
  */
 #define FREEA(ptr)                                                          \
     do {                                                                    \
-        if((ptr) != NULL) {                                                 \
-            int* x = (int*)((char*)(ptr) - sizeof(void*));                  \
-            if(*x == 0xdddd)                                                \
-                free(x);                                                    \
+        void* malloca_ptr__ = (void*)(ptr);                                 \
+        if(malloca_ptr__ != NULL) {                                         \
+            int* malloca_mark__ = (int*)((char*)malloca_ptr__ - sizeof(void*)); \
+            if(*malloca_mark__ == 0xdddd)                                   \
+                free(malloca_mark__);                                       \
         }                                                                   \
     } while(0)
 
-- 
2.43.0


From fa845168bd316d9063df3cd695e74c5712e164bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:52 +0000
Subject: [PATCH 21/24] fix: MALLOCA must fail when the block size is not
 representable

---
 mem/malloca.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index ef230ac..f2b561b 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -50,6 +50,21 @@ extern "C" {
 #endif
 
 
+/* Helper. Do not use directly. */
+static
+#if defined __STDC_VERSION__ && __STDC_VERSION__ >= 199901L
+    inline
+#elif defined __GNUC__
+    __inline__
+#elif defined _MSC_VER
+    __inline
+#endif
+void*
+malloca_malloc__(size_t size)
+{
+    return (size + sizeof(void*) > size) ? malloc(size + sizeof(void*)) : NULL;
+}
+
 /* Helper. Do not use directly. */
 static
 #if defined __STDC_VERSION__ && __STDC_VERSION__ >= 199901L
@@ -84,7 +99,7 @@ malloca_set_mark__(void* ptr, int mark)
 #define MALLOCA_(size, threshold)                                           \
     ((threshold) > sizeof(void*)  &&  (size) < (threshold) - sizeof(void*)  \
         ? malloca_set_mark__(CRE_alloca__((size) + sizeof(void*)), 0xcccc)  \
-        : malloca_set_mark__(malloc((size) + sizeof(void*)), 0xdddd))
+        : malloca_set_mark__(malloca_malloc__((size)), 0xdddd))
 
 #define MALLOCA(size)       MALLOCA_((size), MALLOCA_THRESHOLD)
 
-- 
2.43.0


From 31e3619ad63e1a8a71b301647818663ebb7fffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:41 +0000
Subject: [PATCH 22/24] fix: short names of compiler-like options must be
 ignored in groups

---
 misc/cmdline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/cmdline.c b/misc/cmdline.c
index bf518b7..7dd2c61 100644
--- a/misc/cmdline.c
+++ b/misc/cmdline.c
@@ -49,7 +49,7 @@ cmdline_handle_short_opt_group(const CMDLINE_OPTION* options, const char* arggro
 
     for(i = 0; arggroup[i] != '\0'; i++) {
         for(opt = options; opt->id != 0; opt++) {
-            if(arggroup[i] == opt->shortname)
+            if(!(opt->flags & CMDLINE_OPTFLAG_COMPILERLIKE)  &&  arggroup[i] == opt->shortname)
                 break;
         }
 
-- 
2.43.0


From cb0de9bf18557652675f2c32fc0057e31636c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:53 +0000
Subject: [PATCH 23/24] fix: memstream: report memory exhaustion by a failing
 HRESULT

---
 win32/memstream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 98acb22..5aca580 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -289,7 +289,7 @@ memstream_create(const BYTE* buffer, ULONG size, IStream** p_stream)
     s = (MEMSTREAM*) malloc(sizeof(MEMSTREAM));
     if(s == NULL) {
         *p_stream = NULL;
-        return ERROR_OUTOFMEMORY;
+        return E_OUTOFMEMORY;
     }
 
     s->buffer = buffer;
-- 
2.43.0


From 2de0f04a86854c4d1bf920923c80cea99ab37513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:58 +0000
Subject: [PATCH 24/24] fix: memstream: do not read past the end in CopyTo() of
 a huge size

---
 win32/memstream.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 5aca580..5fa110f 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -177,11 +177,12 @@ memstream_CopyTo(IStream* self, IStream* other, ULARGE_INTEGER n,
                       ULARGE_INTEGER* n_read, ULARGE_INTEGER* n_written)
 {
     MEMSTREAM* s = MEMSTREAM_FROM_IFACE(self);
+    ULONG rest = (s->pos < s->size ? s->size - s->pos : 0);
     ULONG written;
     HRESULT hr;
 
-    if(s->pos + n.QuadPart >= s->size)
-        n.QuadPart = (s->pos < s->size ? s->size - s->pos : 0);
+    if(n.QuadPart > rest)
+        n.QuadPart = rest;
 
     hr = IStream_Write(other, s->buffer + s->pos, (ULONG) n.QuadPart, &written);
 
-- 
2.43.0

