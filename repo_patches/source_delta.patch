From 90a8d85ec5f254cb3c951b1deea990117bab215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 01/15] fix: Base64_encode never writes the terminating NUL
 past max_result_length

---
 Src/base64.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Src/base64.c b/Src/base64.c
index 53ef892..cbd522d 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -56,7 +56,7 @@ Base64_encode(const char* data, size_t data_length, char* result, size_t max_res
         uint8_t* pos = out;
         while ((data_length - in_position) >= 3U) {
             current_length += 4U;
-            if (current_length > max_result_length) {
+            if (current_length >= max_result_length) {
                 success = 1;
                 break;
             }
@@ -76,7 +76,7 @@ Base64_encode(const char* data, size_t data_length, char* result, size_t max_res
 
         if ((success == 0) && ((data_length - in_position) != 0U)) {
             current_length += 4U;
-            if (current_length > max_result_length) {
+            if (current_length >= max_result_length) {
                 success = 1;
             }
 
@@ -99,7 +99,11 @@ Base64_encode(const char* data, size_t data_length, char* result, size_t max_res
             }
         }
 
-        *pos = (uint8_t)'\0';
+        if (max_result_length > 0U) {
+            *pos = (uint8_t)'\0';
+        } else {
+            success = 1;
+        }
     }
 
     return success;
-- 
2.43.0


From 7d5f554bc3a91f8f10ade723741f3e86e1b1b52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 02/15] fix: Base64_decode does not read past an input whose
 length is 1 modulo 4

---
 Src/base64.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Src/base64.c b/Src/base64.c
index cbd522d..bd3da6d 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -158,7 +158,10 @@ Base64_decode(const char* in, size_t in_len, uint8_t* out, size_t max_out_len) {
             ++j;
         }
         if (pad_bool) {
-            uint32_t n = (base64_index[in_data_uchar[len]] << 18U) | (base64_index[in_data_uchar[len + 1U]] << 12U);
+            uint32_t n = base64_index[in_data_uchar[len]] << 18U;
+            if (in_len > (len + 1U)) {
+                n |= base64_index[in_data_uchar[len + 1U]] << 12U;
+            }
             out[out_len - 1U] = (uint8_t)(n >> 16U);
 
             if ((in_len > (len + 2U)) && (in_data_uchar[len + 2U] != (uint8_t)'=')) {
-- 
2.43.0


From fae519ccc2982b53c4def1c1b6db9b40d33afb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 03/15] fix: Base64_decode accepts the encoding of one or two
 bytes

---
 Src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/base64.c b/Src/base64.c
index bd3da6d..1e4a4bb 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -141,7 +141,7 @@ Base64_decode(const char* in, size_t in_len, uint8_t* out, size_t max_out_len) {
         success = 1;
     }
 
-    if (len == 0U) {
+    if (in_len < 2U) {
         success = 1;
     }
 
-- 
2.43.0


From 8b21ce4b9881545526ffbc225e9ae9bd6624ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:03 +0000
Subject: [PATCH 04/15] fix: BitManipulation_rotl32 by 0 or 32 bits returns the
 data instead of an undefined shift

---
 Src/bit_manipulation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/bit_manipulation.c b/Src/bit_manipulation.c
index 34e3ff1..4e26922 100644
--- a/Src/bit_manipulation.c
+++ b/Src/bit_manipulation.c
@@ -108,5 +108,5 @@ uint32_t
 BitManipulation_rotl32(uint32_t data, uint32_t n_bits) {
 
     /* -E> hide MC3R1.R12.2 1 To optimize efficiency, we do not verify whether n_bits is between 0 and 31. */
-    return ((data << n_bits) ^ (data >> (32U - n_bits)));
+    return ((data << (n_bits & MAX_BIT_SHIFT)) | (data >> ((32U - n_bits) & MAX_BIT_SHIFT)));
 }
-- 
2.43.0


From e04f9977ffc5ffc72e4ed53e14d6b0862313702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:03 +0000
Subject: [PATCH 05/15] fix: CaesarCipher_decrypt undoes the encryption when
 the shift wraps around the alphabet

---
 Src/crypto/caesar_cipher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/crypto/caesar_cipher.c b/Src/crypto/caesar_cipher.c
index baff723..1cc34b9 100644
--- a/Src/crypto/caesar_cipher.c
+++ b/Src/crypto/caesar_cipher.c
@@ -66,7 +66,7 @@ CaesarCipher_decrypt(char* msg, uint8_t shift) {
             if (Utils_isUpperChar(msg[i])) {
                 ascii_val = UPPER_A_ASCII;
             }
-            uint8_t decrypted_char = (((uint8_t)msg[i] - shift - ascii_val) % MAX_SHIFT) + ascii_val;
+            uint8_t decrypted_char = (((uint8_t)msg[i] - ascii_val + (MAX_SHIFT - (shift % MAX_SHIFT))) % MAX_SHIFT) + ascii_val;
             msg[i] = (char)decrypted_char;
         }
     }
-- 
2.43.0


From 86d0e52321f9ef1815e504af0f4299bba0f4b755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:03 +0000
Subject: [PATCH 06/15] fix: VernamCipher round trip works for keys with
 characters that are not letters

---
 Src/crypto/vernam_cipher.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/Src/crypto/vernam_cipher.c b/Src/crypto/vernam_cipher.c
index 71edb76..c6ce69a 100644
--- a/Src/crypto/vernam_cipher.c
+++ b/Src/crypto/vernam_cipher.c
@@ -42,6 +42,19 @@
 #define LOWER_A_ASCII   (97)
 #define NUM_OF_ALPHA    (26)
 
+static int32_t
+GetKeyShift(char key_char) {
+    int32_t first_letter = UPPER_A_ASCII;
+    if (Utils_isLowerChar(key_char)) {
+        first_letter = LOWER_A_ASCII;
+    }
+    int32_t shift = ((int8_t)key_char - first_letter) % NUM_OF_ALPHA;
+    if (shift < 0) {
+        shift += NUM_OF_ALPHA;
+    }
+    return shift;
+}
+
 bool
 VernamCipher_encrypt(char* msg, const char* key, int32_t key_length) {
     bool status = false;
@@ -49,17 +62,12 @@ VernamCipher_encrypt(char* msg, const char* key, int32_t key_length) {
     if ((int32_t)msg_length == key_length) {
         for (int32_t i = 0; i < key_length; ++i) {
             if (Utils_isAlpha(msg[i])) {
-                int8_t c = UPPER_A_ASCII;
-                if (Utils_isLowerChar(key[i])) {
-                    c = LOWER_A_ASCII;
-                }
-
                 int32_t ascii_val = LOWER_A_ASCII;
                 if (Utils_isUpperChar(msg[i])) {
                     ascii_val = UPPER_A_ASCII;
                 }
 
-                int32_t temp = (((int8_t)msg[i] - ascii_val + (int8_t)key[i] - c) % NUM_OF_ALPHA);
+                int32_t temp = (((int8_t)msg[i] - ascii_val + GetKeyShift(key[i])) % NUM_OF_ALPHA);
                 int32_t cipher = temp + ascii_val;
                 msg[i] = (char)cipher;
             }
@@ -76,17 +84,12 @@ VernamCipher_decrypt(char* msg, const char* key, int32_t key_length) {
     if ((int32_t)msg_length == key_length) {
         for (int32_t i = 0; i < key_length; ++i) {
             if (Utils_isAlpha(msg[i])) {
-                int8_t c = UPPER_A_ASCII;
-                if (Utils_isLowerChar(key[i])) {
-                    c = LOWER_A_ASCII;
-                }
-
                 int32_t ascii_val = LOWER_A_ASCII;
                 if (Utils_isUpperChar(msg[i])) {
                     ascii_val = UPPER_A_ASCII;
                 }
 
-                int32_t cipher = ((msg[i] - ascii_val) - (key[i] - c));
+                int32_t cipher = ((msg[i] - ascii_val) - GetKeyShift(key[i]));
                 cipher = (cipher < 0) ? (cipher + NUM_OF_ALPHA + ascii_val) : (cipher + ascii_val);
                 msg[i] = (char)cipher;
             }
-- 
2.43.0


From 8c7c5e862d4b19add8ea778d5b525df635445201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:03 +0000
Subject: [PATCH 07/15] fix: Json_addData does not read before the buffer when
 it holds an empty string

---
 Src/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/json.c b/Src/json.c
index 24c84b2..8c6429b 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -58,7 +58,7 @@ Json_addData(char* buffer, size_t buffer_size, const char* key, const char* valu
     size_t index = strlen(buffer);
     size_t total_size = strlen("\"\":\"\"") + strlen(key) + strlen(value) + 1U;
 
-    if (0 == strcmp(&buffer[index - 1U], "\"")) {
+    if ((index > 0U) && (0 == strcmp(&buffer[index - 1U], "\""))) {
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
         strcpy(&buffer[index], ",");
         ++index;
-- 
2.43.0


From 99141c12cf9b7ce25cbb93b0b7eb35d48b7fcb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 08/15] fix: Json_addData checks the capacity before it writes
 the separator

---
 Src/json.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index 8c6429b..e8029ed 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -57,14 +57,19 @@ Json_addData(char* buffer, size_t buffer_size, const char* key, const char* valu
 
     size_t index = strlen(buffer);
     size_t total_size = strlen("\"\":\"\"") + strlen(key) + strlen(value) + 1U;
+    bool separator_needed = false;
 
     if ((index > 0U) && (0 == strcmp(&buffer[index - 1U], "\""))) {
-        // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
-        strcpy(&buffer[index], ",");
-        ++index;
+        separator_needed = true;
+        total_size += strlen(",");
     }
 
     if ((total_size + index) <= buffer_size) {
+        if (separator_needed) {
+            // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
+            strcpy(&buffer[index], ",");
+            ++index;
+        }
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
         strcpy(&buffer[index], "\"");
         index += strlen("\"");
-- 
2.43.0


From 1763fd5dea0dc4c9e976dea1ce899416186fca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 09/15] fix: Map_init rejects negative sizes

---
 Src/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/map.c b/Src/map.c
index ce59322..5f153e9 100644
--- a/Src/map.c
+++ b/Src/map.c
@@ -55,7 +55,7 @@ bool
 Map_init(Map_t* map, byte_t* keys, byte_t* values, int32_t key_size, int32_t value_size,
          int32_t max_map_size) {
     bool status = false;
-    if ((key_size != 0) && (value_size != 0) && (max_map_size != 0) && (keys != NULL_PTR) && (values != NULL_PTR)) {
+    if ((key_size > 0) && (value_size > 0) && (max_map_size > 0) && (keys != NULL_PTR) && (values != NULL_PTR)) {
         map->keys = keys;
         map->values = values;
         map->key_size = key_size;
-- 
2.43.0


From 608bb2dfe9d0c98407cb84e3cc2cefa257f19f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 10/15] fix: HeapSort_sort compares only elements inside the
 heap

---
 Src/sort/heap_sort.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/Src/sort/heap_sort.c b/Src/sort/heap_sort.c
index cf99e9a..cd3aa7e 100644
--- a/Src/sort/heap_sort.c
+++ b/Src/sort/heap_sort.c
@@ -48,17 +48,16 @@ Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
         int32_t left = (2 * index) + 1;
         int32_t right = (2 * index) + 2;
 
-        bool compare_ret_value = compareFun(&elements[left * element_size],
-                                            &elements[largest * element_size]);
-
-        if ((left < n) && (compare_ret_value)) {
-            largest = left;
+        if (left < n) {
+            if (compareFun(&elements[left * element_size], &elements[largest * element_size])) {
+                largest = left;
+            }
         }
 
-        compare_ret_value = compareFun(&elements[right * element_size], &elements[largest * element_size]);
-
-        if ((right < n) && (compare_ret_value)) {
-            largest = right;
+        if (right < n) {
+            if (compareFun(&elements[right * element_size], &elements[largest * element_size])) {
+                largest = right;
+            }
         }
 
         if (largest != index) {
-- 
2.43.0


From bf5c041293bfa72eb539f76e6065d0c3c3bc25df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:05 +0000
Subject: [PATCH 11/15] fix: InsertionSort_sort does not compare the element
 before the buffer

---
 Src/sort/insertion_sort.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 8bd4dcc..10594c6 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -59,7 +59,9 @@ InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_s
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
             memcpy(&elements[(j + 1) * element_size], &elements[j * element_size], (size_t)element_size);
             --j;
-            compare = compareFun(&elements[j * element_size], element);
+            if (j >= 0) {
+                compare = compareFun(&elements[j * element_size], element);
+            }
         }
         /* -E> compliant MC3R1.R21.18 4 Buffer overflow will not happen, all elements in buffer
          * have same size, and their size is stored in element_size variable. Precondition is that
-- 
2.43.0


From a09b1038b31c4d115ce19c0458ab1ada8b9df808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:05 +0000
Subject: [PATCH 12/15] fix: little-endian blob functions copy blobs larger
 than INT32_MAX bytes

---
 Src/utils.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/Src/utils.c b/Src/utils.c
index 6f32933..c5a0891 100644
--- a/Src/utils.c
+++ b/Src/utils.c
@@ -217,10 +217,8 @@ Utils_serialize32LE(byte_t* buf, uint32_t value) {
 
 void
 Utils_serializeBlobLE(byte_t* buf, const byte_t* src, uint32_t size) {
-    int32_t j = 0;
-    for (int32_t i = ((int32_t)size - 1); i >= 0; --i) {
-        buf[j] = src[i];
-        ++j;
+    for (uint32_t i = 0; i < size; i++) {
+        buf[i] = src[(size - 1U) - i];
     }
 }
 
@@ -253,10 +251,8 @@ Utils_deserialize32LE(const byte_t* buf) {
 
 void
 Utils_deserializeBlobLE(const byte_t* buf, byte_t* dst, uint32_t size) {
-    int32_t  j = 0;
-    for (int32_t i = ((int32_t)size - 1); i >= 0; --i) {
-        dst[j] = buf[i];
-        ++j;
+    for (uint32_t i = 0; i < size; i++) {
+        dst[i] = buf[(size - 1U) - i];
     }
 }
 
-- 
2.43.0


From e81d2c4d1ad815fb63573a2661a9cd7b64ca705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:05 +0000
Subject: [PATCH 13/15] fix: Json_findByKey matches whole field names only, not
 text inside other names or values

---
 Src/json.c | 60 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index e8029ed..c987c1f 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -38,6 +38,25 @@
 
 #define MINIMAL_SIZE 2U // size of '{' or '}' + '\0'
 
+static size_t
+SkipSpaces(const char* buffer, size_t buffer_size, size_t start) {
+    size_t index = start;
+    while ((index < buffer_size) && ((buffer[index] == ' ') || (buffer[index] == '\t')
+                                     || (buffer[index] == '\n') || (buffer[index] == '\r'))) {
+        ++index;
+    }
+    return index;
+}
+
+static size_t
+FindQuote(const char* buffer, size_t buffer_size, size_t start) {
+    size_t index = start;
+    while ((index < buffer_size) && (buffer[index] != '"')) {
+        ++index;
+    }
+    return index;
+}
+
 bool
 Json_startString(char* buffer, size_t buffer_size) {
     bool success = false;
@@ -112,38 +131,39 @@ Json_findByKey(const char* buffer, size_t buffer_size, const char* key, char* va
     bool success = false;
 
     size_t key_size = strlen(key);
-    uint32_t max_search_size = 0U;
-    uint32_t index;
+    size_t index = 0U;
 
-    if (buffer_size > key_size) {
-        max_search_size = (uint32_t)(buffer_size - key_size);
-    }
+    while ((index < buffer_size) && (!success)) {
 
-    for (index = 0U; index < max_search_size; ++index) {
+        if (buffer[index] == '"') {
 
-        /* -E> compliant MC3R1.R21.18 2 strncmp is guarded in for loop condition to not go out of buffer boundaries
-        by calculating max_search_size from buffer size and key size */
-        if (0 == strncmp(&buffer[index], key, key_size)) {
+            size_t name_start = index + 1U;
+            size_t name_end = FindQuote(buffer, buffer_size, name_start);
 
-            if (buffer[index + key_size] == '"') {
-                success = true;
-            }
+            index = SkipSpaces(buffer, buffer_size, name_end + 1U);
 
-            break;
+            if ((index < buffer_size) && (buffer[index] == ':')) {
+
+                /* A quoted string followed by a colon is the name of a field, its value follows the colon. */
+                index = SkipSpaces(buffer, buffer_size, index + 1U);
+
+                /* -E> compliant MC3R1.R21.18 2 strncmp is guarded by the check that the name of the field inside the
+                buffer has the same size as the key */
+                success = ((name_end - name_start) == key_size)
+                          && (0 == strncmp(&buffer[name_start], key, key_size));
+            }
+        } else {
+            ++index;
         }
     }
 
     if (success) {
 
         success = false;
-        for (index += (uint32_t)(key_size + 1U); index < buffer_size; ++index) {
-
-            if (buffer[index] == '"') {
-                break;
-            }
-        }
-
         size_t value_size = 0;
+        if ((index < buffer_size) && (buffer[index] != '"')) {
+            index = buffer_size; // value is not a string
+        }
         ++index;
 
         while ((index < buffer_size) && (value_size < max_value_size)) {
-- 
2.43.0


From 59bee5d648465fe06c70fffeca57d90c59713522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:51 +0000
Subject: [PATCH 14/15] fix: InsertionSort_sort keeps its element buffer per
 call, so a comparison may sort another array

---
 Src/sort/insertion_sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 10594c6..783e178 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -40,7 +40,7 @@ void
 InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                    bool (*compareFun)(void* first, void* second)) {
     byte_t* elements = buffer;
-    static byte_t max_element[MAX_ELEMENT_SIZE];
+    byte_t max_element[MAX_ELEMENT_SIZE];
     byte_t* element = &max_element[0];
 
     for (int32_t i = 1; i < number_of_elements; ++i) {
-- 
2.43.0


From 43cf321edb0c97069cadafb21f656be60e9e1700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:51 +0000
Subject: [PATCH 15/15] fix: Json_findByKey ends at the terminator of the text,
 not at the end of the buffer

---
 Src/json.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index c987c1f..6f453cb 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -132,20 +132,26 @@ Json_findByKey(const char* buffer, size_t buffer_size, const char* key, char* va
 
     size_t key_size = strlen(key);
     size_t index = 0U;
+    size_t text_size = 0U;
 
-    while ((index < buffer_size) && (!success)) {
+    /* The text ends at its terminator, whatever follows in the buffer does not belong to it. */
+    while ((text_size < buffer_size) && (buffer[text_size] != '\0')) {
+        ++text_size;
+    }
+
+    while ((index < text_size) && (!success)) {
 
         if (buffer[index] == '"') {
 
             size_t name_start = index + 1U;
-            size_t name_end = FindQuote(buffer, buffer_size, name_start);
+            size_t name_end = FindQuote(buffer, text_size, name_start);
 
-            index = SkipSpaces(buffer, buffer_size, name_end + 1U);
+            index = SkipSpaces(buffer, text_size, name_end + 1U);
 
-            if ((index < buffer_size) && (buffer[index] == ':')) {
+            if ((index < text_size) && (buffer[index] == ':')) {
 
                 /* A quoted string followed by a colon is the name of a field, its value follows the colon. */
-                index = SkipSpaces(buffer, buffer_size, index + 1U);
+                index = SkipSpaces(buffer, text_size, index + 1U);
 
                 /* -E> compliant MC3R1.R21.18 2 strncmp is guarded by the check that the name of the field inside the
                 buffer has the same size as the key */
@@ -161,12 +167,12 @@ Json_findByKey(const char* buffer, size_t buffer_size, const char* key, char* va
 
         success = false;
         size_t value_size = 0;
-        if ((index < buffer_size) && (buffer[index] != '"')) {
-            index = buffer_size; // value is not a string
+        if ((index < text_size) && (buffer[index] != '"')) {
+            index = text_size; // value is not a string
         }
         ++index;
 
-        while ((index < buffer_size) && (value_size < max_value_size)) {
+        while ((index < text_size) && (value_size < max_value_size)) {
             value[value_size] = buffer[index];
 
             if (buffer[index] == '"') {
-- 
2.43.0

