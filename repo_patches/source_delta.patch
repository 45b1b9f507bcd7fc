From b07ed1b0df98a1fb6130ad2f29b2695dfc073553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 01/43] fix: base64 decoding leaves no dangling buffer after
 invalid padding

---
 src/voucher/serialize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index 32e0925..ba92a0c 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -242,6 +242,7 @@ static ssize_t base64_gen_decode(const uint8_t *src, const size_t len,
         } else {
           log_error("Invalid padding");
           sys_free(*out);
+          *out = NULL;
           return -1;
         }
         break;
-- 
2.43.0


From bf7b2a41486902fa6b23e343d129cb228f752ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 02/43] fix: a boolean text followed by NUL bytes is not a
 boolean

---
 src/voucher/serialize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index ba92a0c..a9ef63a 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -319,9 +319,9 @@ int serialize_str2bool(const char *str, const size_t length) {
     }
     buf[idx] = '\0';
 
-    if (strcmp(buf, "false") == 0) {
+    if (length == 5 && strcmp(buf, "false") == 0) {
       return 0;
-    } else if (strcmp(buf, "true") == 0) {
+    } else if (length == 4 && strcmp(buf, "true") == 0) {
       return 1;
     } else {
       return -1;
-- 
2.43.0


From c0c865981cf749d9c788ffdcfa93d9ab6d2fe36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 03/43] fix: a failed list push releases an element that is not
 linked yet

---
 src/voucher/array.c    | 1 +
 src/voucher/keyvalue.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/voucher/array.c b/src/voucher/array.c
index 219b92e..b90eb0f 100644
--- a/src/voucher/array.c
+++ b/src/voucher/array.c
@@ -72,6 +72,7 @@ int push_array_list(struct BinaryArrayList *arr_list, uint8_t *const arr,
     log_error("init_array_list fail");
     return -1;
   }
+  dl_list_init(&el->list, (void *)el);
 
   if ((el->arr = sys_memdup(arr, length)) == NULL) {
     log_errno("sys_memdup");
diff --git a/src/voucher/keyvalue.c b/src/voucher/keyvalue.c
index 0793024..8d8498a 100644
--- a/src/voucher/keyvalue.c
+++ b/src/voucher/keyvalue.c
@@ -88,6 +88,7 @@ int push_keyvalue_list(struct keyvalue_list *kv_list, char *const key,
     log_error("init_keyvalue_list fail");
     return -1;
   }
+  dl_list_init(&el->list, (void *)el);
 
   el->key = sys_strdup(key);
   if (el->key == NULL) {
-- 
2.43.0


From fdd66880eabfd224ba0e7122d4697595d20c2999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 04/43] fix: setting a voucher attribute again releases the
 previous value

---
 src/voucher/voucher.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 50084c9..ed34dd7 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -182,10 +182,13 @@ static int set_attr_nstr_voucher(struct Voucher *voucher,
   }
 
   if (length < MAX_SERIAL_NUMBER_SIZE) {
-    if ((voucher->serial_number = sys_strndup(value, length)) == NULL) {
+    char *serial_number = sys_strndup(value, length);
+    if (serial_number == NULL) {
       log_errno("sys_strdup");
       return -1;
     }
+    sys_free(voucher->serial_number);
+    voucher->serial_number = serial_number;
   } else {
     log_error("Attribute value exceeds max size");
     return -1;
@@ -215,6 +218,19 @@ int set_attr_str_voucher(struct Voucher *voucher,
                                sys_strnlen_s(value, MAX_SERIAL_NUMBER_SIZE));
 }
 
+static int replace_binary_array(struct BinaryArray *dst,
+                                const struct BinaryArray *src) {
+  struct BinaryArray copy = {0};
+
+  if (copy_binary_array(&copy, src) < 0) {
+    return -1;
+  }
+
+  free_binary_array_content(dst);
+  *dst = copy;
+  return 0;
+}
+
 int set_attr_array_voucher(struct Voucher *voucher,
                            const enum VoucherAttributes attr,
                            const struct BinaryArray *value) {
@@ -230,28 +246,28 @@ int set_attr_array_voucher(struct Voucher *voucher,
 
   switch (attr) {
     case ATTR_IDEVID_ISSUER:
-      if (copy_binary_array(&voucher->idevid_issuer, value) < 0) {
+      if (replace_binary_array(&voucher->idevid_issuer, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_PINNED_DOMAIN_CERT:
-      if (copy_binary_array(&voucher->pinned_domain_cert, value) < 0) {
+      if (replace_binary_array(&voucher->pinned_domain_cert, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_NONCE:
-      if (copy_binary_array(&voucher->nonce, value) < 0) {
+      if (replace_binary_array(&voucher->nonce, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_PRIOR_SIGNED_VOUCHER_REQUEST:
-      if (copy_binary_array(&voucher->prior_signed_voucher_request, value) <
-          0) {
+      if (replace_binary_array(&voucher->prior_signed_voucher_request,
+                               value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_PROXIMITY_REGISTRAR_CERT:
-      if (copy_binary_array(&voucher->proximity_registrar_cert, value) < 0) {
+      if (replace_binary_array(&voucher->proximity_registrar_cert, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
-- 
2.43.0


From d60702455d7909bfd2a7181ffd4ac0e322d730d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 05/43] fix: a missing time value or voucher is an error, not a
 crash

---
 src/voucher/voucher.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index ed34dd7..1a8a9e0 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -115,6 +115,11 @@ int set_attr_time_voucher(struct Voucher *voucher,
     return -1;
   }
 
+  if (value == NULL) {
+    log_error("value param is NULL");
+    return -1;
+  }
+
   switch (attr) {
     case ATTR_CREATED_ON:
       sys_memcpy(&voucher->created_on, value, sizeof(struct tm));
@@ -364,6 +369,11 @@ static bool is_attr_time_nonempty(const struct tm *tm) {
 
 bool is_attr_voucher_nonempty(const struct Voucher *voucher,
                               const enum VoucherAttributes attr) {
+  if (voucher == NULL) {
+    log_error("voucher param is NULL");
+    return false;
+  }
+
   switch (attr) {
     case ATTR_CREATED_ON:
       return is_attr_time_nonempty(&voucher->created_on);
-- 
2.43.0


From f8fce1899091f6571b5eca59331bb3f751e75a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 06/43] fix: binary data without bytes is empty, whether or not
 it has a buffer

---
 src/voucher/voucher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 1a8a9e0..55f65a3 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -37,7 +37,7 @@ static bool is_attr_array_nonempty(const struct BinaryArray *value) {
     return false;
   }
 
-  if (value->array == NULL && !value->length) {
+  if (value->array == NULL || !value->length) {
     return false;
   }
 
-- 
2.43.0


From 541279ed432ad28641d246eb283ec14a83bbf314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 07/43] fix: voucher parsing accepts only a voucher root member
 with known scalar members

---
 src/voucher/voucher.c | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 55f65a3..9398a06 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -821,6 +821,27 @@ static int set_keyvalue_voucher(struct Voucher *voucher, const char *key,
   return 0;
 }
 
+/* Returns the index of the first token behind the token at idx and its content */
+static int skip_json_token(const jsmntok_t *tokens, const int count,
+                           const int idx) {
+  int next = idx + 1;
+  while (next < count && tokens[next].start < tokens[idx].end) {
+    next++;
+  }
+  return next;
+}
+
+static bool is_json_member(const jsmntok_t *tokens, const int count,
+                           const int idx) {
+  return idx + 1 < count && tokens[idx].type == JSMN_STRING &&
+         tokens[idx].size == 1;
+}
+
+static bool is_json_scalar(const jsmntok_t *token) {
+  return (token->type == JSMN_STRING || token->type == JSMN_PRIMITIVE) &&
+         token->size == 0;
+}
+
 struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
   if (json == NULL) {
     log_error("json param is NULL");
@@ -844,21 +865,34 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
     return NULL;
   }
 
+  if (skip_json_token(tokens, count, 0) != count) {
+    log_error("text found after the json object");
+    return NULL;
+  }
+
   struct Voucher *voucher = init_voucher();
+  if (voucher == NULL) {
+    log_error("init_voucher fail");
+    return NULL;
+  }
+
   bool found_root = false;
 
-  for (int idx = 1; idx < count; idx++) {
+  /* Iterate over the members of the json object */
+  for (int idx = 1; is_json_member(tokens, count, idx);
+       idx = skip_json_token(tokens, count, idx + 1)) {
     int length = tokens[idx].end - tokens[idx].start;
     /* Find the voucher root key */
-    if (strncmp(VOUCHER_ROOT_NAME, (char *)(json + tokens[idx].start),
-                length) == 0) {
+    if (check_size_str_equal(VOUCHER_ROOT_NAME,
+                             (char *)(json + tokens[idx].start), length)) {
       idx++;
       if (idx < count && tokens[idx].type == JSMN_OBJECT) {
         /* Iterate over all the key/value pairs of the voucher root */
         for (int j = 0; j < tokens[idx].size; j++) {
           int key_idx = idx + (j * 2) + 1;
           int value_idx = idx + (j * 2 + 1) + 1;
-          if (key_idx < count && value_idx < count) {
+          if (is_json_member(tokens, count, key_idx) &&
+              is_json_scalar(&tokens[value_idx])) {
             jsmntok_t *key_token = &tokens[key_idx];
             jsmntok_t *value_token = &tokens[value_idx];
             size_t key_length = key_token->end - key_token->start;
-- 
2.43.0


From f4739897adeca36ecbd5a4843a89d6bd8e9b87eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 08/43] fix: a pledge request without serial number is refused,
 not a crash

---
 src/voucher/request.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 59bab6b..3a2b94a 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -136,6 +136,12 @@ sign_voucher_request(const struct BinaryArray *pledge_voucher_request_cms,
     return NULL;
   }
 
+  if (*pledge_serial_number == NULL) {
+    log_error("serial-number is missing");
+    free_voucher(pledge_voucher_request);
+    return NULL;
+  }
+
   if (strcmp(*pledge_serial_number, serial_number) != 0) {
     log_error("wrong pledge voucher serial-number");
     free_voucher(pledge_voucher_request);
-- 
2.43.0


From 342fdf39f2db725292d45ac6da8920587522cc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 09/43] fix: verifying a voucher without a registrar
 certificate is an error, not a crash

---
 src/voucher/request.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 3a2b94a..99b0d8e 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -466,6 +466,11 @@ int verify_masa_pledge_voucher(
     return -1;
   }
 
+  if (registrar_tls_cert == NULL) {
+    log_error("registrar_tls_cert param is NULL");
+    return -1;
+  }
+
   /* The pledge MUST verify the voucher signature using the
    * manufacturer-installed trust anchor(s) associated with the manufacturer's
    * MASA (this is likely included in the pledge's firmware). Management of the
-- 
2.43.0


From 4ecf3e77097b0eb54220e9481b777c72a897b3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 10/43] fix: verifying a voucher releases the certificate copy
 when the list push fails

---
 src/voucher/request.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 99b0d8e..91fdb3a 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -559,6 +559,7 @@ int verify_masa_pledge_voucher(
     if (push_array_list(intermediate_certs, cert_copy.array, cert_copy.length,
                         0) < 0) {
       log_error("push_array_list fail");
+      free_binary_array_content(&cert_copy);
       free_array_list(intermediate_certs);
       goto verify_masa_pledge_voucher_fail;
     }
-- 
2.43.0


From 114900a6e4d6dddfa61f2c6ca59e8a0019ca1d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 11/43] fix: verified content that is no voucher hands out no
 signer certificates

---
 src/voucher/voucher.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 9398a06..42be786 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -1095,6 +1095,10 @@ struct Voucher *verify_cms_voucher(const struct BinaryArray *cms,
   if (voucher == NULL) {
     log_error("deserialize_voucher fail");
     sys_free(data);
+    if (out_certs != NULL) {
+      free_array_list(*out_certs);
+      *out_certs = NULL;
+    }
     return NULL;
   }
 
-- 
2.43.0


From a042da61254d5c19894c458ce3000e5b40d89e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 12/43] fix: the signer certificates belong to the CMS message
 and are not released twice

---
 src/voucher/crypto_ossl.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 7b13840..f64e5b6 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1570,14 +1570,14 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
   int length = sk_X509_num(signers);
 
   if (!length) {
-    sk_X509_pop_free(signers, X509_free);
+    sk_X509_free(signers);
     return 0;
   }
 
   *out_certs = init_array_list();
   if (*out_certs == NULL) {
     log_error("init_buffer_list fail");
-    sk_X509_pop_free(signers, X509_free);
+    sk_X509_free(signers);
     return -1;
   }
 
@@ -1588,7 +1588,7 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
     if (cert_length < 0) {
       log_error("cert_to_derbuf fail");
       free_array_list(*out_certs);
-      sk_X509_pop_free(signers, X509_free);
+      sk_X509_free(signers);
       *out_certs = NULL;
       return -1;
     }
@@ -1596,14 +1596,14 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
       log_error("push_buffer_list fail");
       sys_free(cert);
       free_array_list(*out_certs);
-      sk_X509_pop_free(signers, X509_free);
+      sk_X509_free(signers);
       *out_certs = NULL;
       return -1;
     }
     sys_free(cert);
   }
 
-  sk_X509_pop_free(signers, X509_free);
+  sk_X509_free(signers);
   return 0;
 }
 
-- 
2.43.0


From 1b2e0f0d1d997c6dcd0a2574cbc551a6f57ba21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 13/43] fix: CMS content is released when the signer
 certificates can't be extracted

---
 src/voucher/crypto_ossl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index f64e5b6..2786290 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1675,6 +1675,8 @@ ssize_t crypto_verify_cms(const struct BinaryArray *cms,
     *out_certs = NULL;
     if (exatract_cms_certs(content, out_certs) < 0) {
       log_error("exatract_cms_certs fail");
+      sys_free(*data);
+      *data = NULL;
       goto crypto_verify_cms_fail;
     }
   }
-- 
2.43.0


From 34ac4d3617c07035ef1d5b0f264bbe33a201f9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 14/43] fix: a certificate that can't be added to the stack is
 an error

---
 src/voucher/crypto_ossl.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 2786290..53068db 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1203,7 +1203,13 @@ static STACK_OF(X509) *
       sk_X509_pop_free(cert_stack, X509_free);
       return NULL;
     }
-    sk_X509_push(cert_stack, x509);
+    if (!sk_X509_push(cert_stack, x509)) {
+      log_error("sk_X509_push fail with code=%s",
+                ERR_error_string(ERR_get_error(), NULL));
+      X509_free(x509);
+      sk_X509_pop_free(cert_stack, X509_free);
+      return NULL;
+    }
   }
 
   return cert_stack;
-- 
2.43.0


From b34648c5cb993e4a69b5123198bb22afe0e22fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 15/43] fix: a store element that can't be added is released

---
 src/voucher/crypto_ossl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 53068db..f01263e 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1270,6 +1270,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
       if (!X509_STORE_add_cert(x509_store, x509)) {
         log_error("X509_STORE_add_cert fail with code=%s",
                   ERR_error_string(ERR_get_error(), NULL));
+        X509_free(x509);
         free_x509_store(x509_store, *x509_store_list);
         return NULL;
       }
@@ -1286,6 +1287,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
       if (!X509_STORE_add_crl(x509_store, x509_crl)) {
         log_error("X509_STORE_add_crl fail with code=%s",
                   ERR_error_string(ERR_get_error(), NULL));
+        X509_CRL_free(x509_crl);
         free_x509_store(x509_store, *x509_store_list);
         return NULL;
       }
@@ -1294,6 +1296,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
     }
     if (push_ptr_list(*x509_store_list, ptr, el->flags) < 0) {
       log_error("push_ptr_list fail");
+      free_x509_store_cert(ptr, el->flags);
       free_x509_store(x509_store, *x509_store_list);
       return NULL;
     }
-- 
2.43.0


From 753c38232b090facaba11b66b29345041e4b6c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 16/43] fix: a negative result of the key generation is a
 failure

---
 src/voucher/crypto_ossl.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index f01263e..ec669b3 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -436,7 +436,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
     return NULL;
   }
 
-  if (!EVP_PKEY_keygen_init(ctx)) {
+  if (EVP_PKEY_keygen_init(ctx) <= 0) {
     log_error("EVP_PKEY_keygen_init fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -444,7 +444,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
     return NULL;
   }
 
-  if (!EVP_PKEY_CTX_set_rsa_keygen_bits(ctx, bits)) {
+  if (EVP_PKEY_CTX_set_rsa_keygen_bits(ctx, bits) <= 0) {
     log_error("EVP_PKEY_CTX_set_rsa_keygen_bits fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -452,7 +452,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
     return NULL;
   }
 
-  if (!EVP_PKEY_keygen(ctx, &pkey)) {
+  if (EVP_PKEY_keygen(ctx, &pkey) <= 0) {
     log_error("EVP_PKEY_keygen fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -492,21 +492,21 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
     return -1;
   }
 
-  if (!EVP_PKEY_paramgen_init(ctx)) {
+  if (EVP_PKEY_paramgen_init(ctx) <= 0) {
     log_error("EVP_PKEY_paramgen_init fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
-  if (!EVP_PKEY_CTX_set_ec_paramgen_curve_nid(ctx, NID_X9_62_prime256v1)) {
+  if (EVP_PKEY_CTX_set_ec_paramgen_curve_nid(ctx, NID_X9_62_prime256v1) <= 0) {
     log_error("EVP_PKEY_CTX_set_ec_paramgen_curve_nid fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
-  if (!EVP_PKEY_paramgen(ctx, &params)) {
+  if (EVP_PKEY_paramgen(ctx, &params) <= 0) {
     log_error("EVP_PKEY_paramgen fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -524,14 +524,14 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
 
   EVP_PKEY_free(params);
 
-  if (!EVP_PKEY_keygen_init(ctx)) {
+  if (EVP_PKEY_keygen_init(ctx) <= 0) {
     log_error("EVP_PKEY_keygen_init fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
-  if (!EVP_PKEY_keygen(ctx, &pkey)) {
+  if (EVP_PKEY_keygen(ctx, &pkey) <= 0) {
     log_error("EVP_PKEY_keygen fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
-- 
2.43.0


From 2c40bdc88484d9223cda6d130aab3caaee1c6f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 17/43] fix: generating a certificate into no buffer is an
 error, not a crash

---
 src/voucher/crypto_ossl.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index ec669b3..be92f3b 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -978,8 +978,6 @@ static int sign_sha256_certificate(X509 *x509, const EVP_PKEY *pkey) {
 ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
                                const uint8_t *key, const size_t key_length,
                                uint8_t **cert) {
-  *cert = NULL;
-
   if (meta == NULL) {
     log_error("met param is NULL");
     return -1;
@@ -995,6 +993,8 @@ ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
     return -1;
   }
 
+  *cert = NULL;
+
   X509 *x509 = X509_new();
 
   if (x509 == NULL) {
@@ -1042,8 +1042,6 @@ ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
 ssize_t crypto_generate_rsacert(const struct crypto_cert_meta *meta,
                                 const uint8_t *key, const size_t key_length,
                                 uint8_t **cert) {
-  *cert = NULL;
-
   if (meta == NULL) {
     log_error("met aparam is NULL");
     return -1;
@@ -1059,6 +1057,8 @@ ssize_t crypto_generate_rsacert(const struct crypto_cert_meta *meta,
     return -1;
   }
 
+  *cert = NULL;
+
   X509 *x509 = X509_new();
 
   if (x509 == NULL) {
-- 
2.43.0


From a283590053283ffe78c3d6d5152a15748ca7a305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 18/43] fix: a certificate whose public key can't be set is
 released

---
 src/voucher/crypto_ossl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index be92f3b..74aedca 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1018,6 +1018,8 @@ ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
   if (!X509_set_pubkey(x509, (EVP_PKEY *)pkey)) {
     log_error("X509_set_pubkey fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
+    crypto_free_keycontext(pkey);
+    X509_free(x509);
     return -1;
   }
 
@@ -1082,6 +1084,8 @@ ssize_t crypto_generate_rsacert(const struct crypto_cert_meta *meta,
   if (!X509_set_pubkey(x509, (EVP_PKEY *)pkey)) {
     log_error("X509_set_pubkey fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
+    crypto_free_keycontext(pkey);
+    X509_free(x509);
     return -1;
   }
 
-- 
2.43.0


From 0f9e044ecf13495dd057cc3c1208f5c3dd2043d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 19/43] fix: a certificate name value with a NUL byte is an
 error, not truncated

---
 src/voucher/crypto_ossl.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 74aedca..e6fbff9 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -655,12 +655,19 @@ int get_x509_entry(X509_NAME *name, int nid, char **out) {
 
   ASN1_STRING *d = X509_NAME_ENTRY_get_data(e);
   unsigned char *str = NULL;
-  if (ASN1_STRING_to_UTF8(&str, d) < 0) {
+  int length = ASN1_STRING_to_UTF8(&str, d);
+  if (length < 0) {
     log_error("ASN1_STRING_to_UTF8 code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     return -1;
   }
 
+  if (memchr(str, '\0', (size_t)length) != NULL) {
+    log_error("name value has an embedded NUL");
+    OPENSSL_free(str);
+    return -1;
+  }
+
   *out = (char *)str;
 
   return 0;
-- 
2.43.0


From f1832065daefed3522639635c22dc61cdad1bfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 20/43] fix: a certificate list setting given several times has
 all its values, and is not released twice

---
 src/brski/config.c | 66 ++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/src/brski/config.c b/src/brski/config.c
index d109f39..1fa5220 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -17,6 +17,7 @@
 #include <fcntl.h>
 #include <minIni.h>
 #include <string.h>
+#include <strings.h>
 #include <unistd.h>
 
 #include "config.h"
@@ -31,50 +32,51 @@
 #define TIME_ISO_STR_SIZE sizeof("9999-12-31T24:59:59Z") + 1
 #define MAX_CONFIG_VALUE_SIZE 2048
 
+struct config_value_list {
+  const char *section;
+  const char *key;
+  struct BinaryArrayList *list;
+  bool failed;
+};
+
+static int push_config_value(const char *section, const char *key,
+                             const char *value, void *user_data) {
+  struct config_value_list *values = (struct config_value_list *)user_data;
+
+  if (strcasecmp(section, values->section) == 0 &&
+      strcmp(key, values->key) == 0 && strlen(value)) {
+    if (push_array_list(values->list, (uint8_t *const)value, strlen(value) + 1,
+                        0) < 0) {
+      log_error("push_array_list fail");
+      values->failed = true;
+      return 0;
+    }
+  }
+
+  return 1;
+}
+
 int load_config_value_list(const char *section, const char *key,
                            const char *filename,
                            struct BinaryArrayList **value_list) {
-  *value_list = NULL;
-  int idx = 0;
+  struct config_value_list values = {section, key, NULL, false};
 
-  char *store = NULL;
-  if ((store = sys_zalloc(MAX_CONFIG_VALUE_SIZE)) == NULL) {
-    log_errno("sys_zalloc");
-    return -1;
-  }
+  *value_list = NULL;
 
-  if ((*value_list = init_array_list()) == NULL) {
+  if ((values.list = init_array_list()) == NULL) {
     log_error("init_array_list fail");
-    sys_free(store);
     return -1;
   }
 
-  while (ini_getkey(section, idx++, store, MAX_CONFIG_VALUE_SIZE, filename) >
-         0) {
-    char *value = NULL;
-    if ((value = sys_zalloc(MAX_CONFIG_VALUE_SIZE)) == NULL) {
-      log_errno("sys_zalloc");
-      sys_free(store);
-      free_array_list(*value_list);
-      return -1;
-    }
-
-    ini_gets(section, store, "", value, INI_BUFFERSIZE, filename);
+  /* A key can be given more than once, each time with another value */
+  ini_browse(push_config_value, &values, filename);
 
-    if (strcmp(store, key) == 0 && strlen(value)) {
-      if (push_array_list(*value_list, (uint8_t *const)value, strlen(value) + 1,
-                          0) < 0) {
-        sys_free(value);
-        sys_free(store);
-        free_array_list(*value_list);
-        return -1;
-      }
-    }
-
-    sys_free(value);
+  if (values.failed) {
+    free_array_list(values.list);
+    return -1;
   }
 
-  sys_free(store);
+  *value_list = values.list;
   return 0;
 }
 
-- 
2.43.0


From 7a95fc404c731380b0e02f6fa58c5c701e0c1a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 21/43] fix: certificate files that can't be loaded leave no
 dangling list

---
 src/brski/config.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/brski/config.c b/src/brski/config.c
index 1fa5220..7e52662 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -696,6 +696,7 @@ int load_cert_files(struct BinaryArrayList *cert_paths,
     if ((cert = file_to_x509buf(cert_path_str)) == NULL) {
       log_error("file_to_x509buf fail");
       free_array_list(*out);
+      *out = NULL;
       return -1;
     }
 
@@ -703,6 +704,7 @@ int load_cert_files(struct BinaryArrayList *cert_paths,
       log_error("push_array_list fail");
       free_binary_array(cert);
       free_array_list(*out);
+      *out = NULL;
       return -1;
     }
     free_binary_array(cert);
-- 
2.43.0


From f2aeeb4cfa2f76c208c4d66792cdfb6ca1ef2190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 22/43] fix: copying a text into a buffer of size 0 writes
 nothing

---
 src/utils/os.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/os.c b/src/utils/os.c
index 59e1639..825509a 100644
--- a/src/utils/os.c
+++ b/src/utils/os.c
@@ -70,6 +70,10 @@ char *sys_strndup(const char *const s, const size_t length) {
 char *sys_strdup(const char *const s) { return sys_strndup(s, strlen(s)); }
 
 size_t sys_strlcpy(char *const dest, const char *const src, const size_t siz) {
+  if (siz == 0) {
+    return strlen(src);
+  }
+
   /* Copy string up to the maximum size of the dest buffer */
   const char *char_after_NUL = sys_memccpy(dest, src, '\0', siz);
 
-- 
2.43.0


From dcba32916bce24585ab2fde89197a4e242848c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 23/43] fix: the hex text of no bytes is empty

---
 src/utils/log.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/log.c b/src/utils/log.c
index 021e140..e9046e5 100644
--- a/src/utils/log.c
+++ b/src/utils/log.c
@@ -325,6 +325,8 @@ size_t printf_hex(char *buf, size_t buf_size, const uint8_t *data, size_t len,
   if (data == NULL)
     return 0;
 
+  *pos = '\0';
+
   for (i = 0; i < len; i++) {
     // guaranteed to be positive, since we return an error if writing fails
     size_t max_len = (size_t)(end - pos);
-- 
2.43.0


From 3215f625024f42c24ca41b5b2bf7d592b054707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 24/43] fix: the registrar refuses a voucher request that does
 not decode

---
 src/brski/registrar/registrar_api.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 60d8e10..eb4c972 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -188,15 +188,21 @@ int registrar_requestvoucher(const RequestHeader &request_header,
 
   auto pledge_voucher_request_cms =
       std::unique_ptr<BinaryArray, void (*)(BinaryArray *)>{
-          static_cast<BinaryArray *>(std::malloc(sizeof(BinaryArray))),
+          init_binary_array(),
           [](BinaryArray *b) { free_binary_array(b); },
       };
-  if ((pledge_voucher_request_cms->length =
-           serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
-                                     &pledge_voucher_request_cms->array)) < 0) {
+  if (pledge_voucher_request_cms == nullptr) {
+    log_errno("init_binary_array");
+    return 500;
+  }
+  ssize_t length =
+      serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
+                                &pledge_voucher_request_cms->array);
+  if (length < 0) {
     log_errno("serialize_base64str2array fail");
     return 400;
   }
+  pledge_voucher_request_cms->length = length;
 
   if (get_localtime(&created_on) < 0) {
     log_error("get_localtime fail");
-- 
2.43.0


From 79b1afca50479af72987cdb47ba8f7f2b4fb6faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 25/43] fix: the registrar reports an error answer of the MASA
 instead of an empty success

---
 src/brski/registrar/registrar_api.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index eb4c972..0a0c8cf 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -118,12 +118,12 @@ int post_voucher_request(struct BinaryArray *voucher_request_cms,
     return -1;
   }
 
-  if (status >= 400) {
+  if (status >= 300) {
     log_error("https_post_request failed with HTTP code %d and "
               "response: '%s'",
               status, http_res.response.c_str());
     crypto_free_certcontext(http_res.peer_certificate);
-    return 400;
+    return -1;
   }
 
   crypto_free_certcontext(http_res.peer_certificate);
-- 
2.43.0


From 7f4a791221f9164557f74f6e5f494e9b64e2a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 26/43] fix: the registrar releases certificate metadata lists
 that can't be completed

---
 src/brski/registrar/registrar_api.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 0a0c8cf..82b7d3a 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -37,6 +37,8 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
 
   if (imeta.issuer == NULL || imeta.subject == NULL) {
     log_error("error allocation metadata");
+    free_keyvalue_list(imeta.issuer);
+    free_keyvalue_list(imeta.subject);
     return;
   }
 
@@ -57,6 +59,8 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
     log_error("error allocation metadata");
     free_keyvalue_list(imeta.issuer);
     free_keyvalue_list(imeta.subject);
+    free_keyvalue_list(lmeta.issuer);
+    free_keyvalue_list(lmeta.subject);
     return;
   }
 
@@ -154,6 +158,8 @@ int registrar_requestvoucher(const RequestHeader &request_header,
       this->issuer = init_keyvalue_list();
       this->subject = init_keyvalue_list();
       if (this->issuer == nullptr || this->subject == nullptr) {
+        free_keyvalue_list(this->issuer);
+        free_keyvalue_list(this->subject);
         throw std::bad_alloc();
       }
     }
-- 
2.43.0


From 462c0c58aa6aa2182ec7bdb3d1a175df90f4e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 27/43] fix: the MASA refuses a voucher request that does not
 decode

---
 src/brski/masa/masa_api.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/brski/masa/masa_api.cpp b/src/brski/masa/masa_api.cpp
index 4782073..77b8e20 100644
--- a/src/brski/masa/masa_api.cpp
+++ b/src/brski/masa/masa_api.cpp
@@ -73,6 +73,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   struct BinaryArrayList *additional_masa_certs = NULL;
   struct BinaryArray *masa_pledge_voucher = NULL;
   char *base64 = NULL;
+  ssize_t length;
   const char *cms_str = request_body.c_str();
 
   log_trace("masa_requestvoucher:");
@@ -84,12 +85,13 @@ int masa_requestvoucher(const RequestHeader &request_header,
     goto masa_requestvoucher_fail;
   }
 
-  if ((voucher_request_cms.length =
-           serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
-                                     &voucher_request_cms.array)) < 0) {
+  if ((length = serialize_base64str2array((const uint8_t *)cms_str,
+                                          strlen(cms_str),
+                                          &voucher_request_cms.array)) < 0) {
     log_errno("serialize_base64str2array fail");
     goto masa_requestvoucher_fail;
   }
+  voucher_request_cms.length = length;
 
   if ((context->ldevid_ca_cert = file_to_x509buf(mconf->ldevid_ca_cert_path)) ==
       NULL) {
-- 
2.43.0


From 36791821831107814eb27bab78a6cd7657f09e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 28/43] fix: each MASA request has its own domain certificate,
 not one shared by all

---
 src/brski/masa/masa_api.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/brski/masa/masa_api.cpp b/src/brski/masa/masa_api.cpp
index 77b8e20..706610e 100644
--- a/src/brski/masa/masa_api.cpp
+++ b/src/brski/masa/masa_api.cpp
@@ -59,9 +59,14 @@ int masa_requestvoucher(const RequestHeader &request_header,
                         CRYPTO_CERT peer_certificate,
                         ResponseHeader &response_header, std::string &response,
                         void *user_ctx) {
-  struct MasaContext *context = static_cast<struct MasaContext *>(user_ctx);
+  /* The context is shared by all the requests, each one has its own certificate
+   */
+  struct MasaContext request_context =
+      *static_cast<struct MasaContext *>(user_ctx);
+  struct MasaContext *context = &request_context;
   struct registrar_config *rconf = context->rconf;
   struct masa_config *mconf = context->mconf;
+  context->ldevid_ca_cert = NULL;
 
   struct BinaryArray voucher_request_cms = {};
   struct BinaryArray *masa_sign_cert = NULL;
@@ -138,7 +143,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   }
 
   masa_pledge_voucher = sign_masa_pledge_voucher(
-      &voucher_request_cms, &expires_on, voucher_req_cb, user_ctx,
+      &voucher_request_cms, &expires_on, voucher_req_cb, context,
       masa_sign_cert, masa_sign_key, registrar_verify_certs,
       registrar_store_certs, pledge_verify_certs, pledge_store_certs,
       additional_masa_certs);
-- 
2.43.0


From 206c7772d236012615532094e8b21be7ebb8c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 29/43] fix: a nonce that does not decode is released once

---
 src/brski/pledge/pledge_request.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 5f57818..f3c0c59 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -52,7 +52,6 @@ int verify_masa_pledge_request(struct pledge_config *pconf,
                                             strlen(pconf->nonce),
                                             &nonce->array)) < 0) {
       log_errno("serialize_base64str2array fail");
-      free_binary_array(nonce);
       goto verify_masa_pledge_request_fail;
     }
     nonce->length = length;
-- 
2.43.0


From b25dd46b442c5908185def1d89940494bff57c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 30/43] fix: the pledge refuses an answer that does not decode

---
 src/brski/pledge/pledge_request.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index f3c0c59..6a5e0b9 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -176,13 +176,16 @@ int post_voucher_pledge_request(struct pledge_config *pconf,
   const char *masa_pledge_voucher_str = http_res.response.c_str();
   struct BinaryArray masa_pledge_voucher_cms = {};
 
-  if ((masa_pledge_voucher_cms.length =
-           serialize_base64str2array((const uint8_t *)masa_pledge_voucher_str,
-                                     strlen(masa_pledge_voucher_str),
-                                     &masa_pledge_voucher_cms.array)) < 0) {
+  ssize_t length;
+
+  if ((length = serialize_base64str2array(
+           (const uint8_t *)masa_pledge_voucher_str,
+           strlen(masa_pledge_voucher_str), &masa_pledge_voucher_cms.array)) <
+      0) {
     log_errno("serialize_base64str2array fail");
     goto post_voucher_pledge_request_fail;
   }
+  masa_pledge_voucher_cms.length = length;
 
   if (verify_masa_pledge_request(pconf, &masa_pledge_voucher_cms,
                                  registrar_tls_cert, pinned_domain_cert) < 0) {
-- 
2.43.0


From 8f5e4291701f0d193c1961cfbaf4714338c1fa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 31/43] fix: the pledge takes only a success answer of the
 registrar for one

---
 src/brski/pledge/pledge_request.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 6a5e0b9..a1bf973 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -156,7 +156,7 @@ int post_voucher_pledge_request(struct pledge_config *pconf,
     return -1;
   }
 
-  if (status >= 400) {
+  if (status >= 300) {
     log_error("post_voucher_pledge_request failed with HTTP code %d and "
               "response: '%s'",
               status, http_res.response.c_str());
@@ -348,7 +348,7 @@ int post_sign_cert(struct pledge_config *pconf, struct registrar_config *rconf,
     goto post_sign_cert_err;
   }
 
-  if (status >= 400) {
+  if (status >= 300) {
     log_error("post_voucher_pledge_request_ca failed with HTTP code %d and "
               "response: '%s'",
               status, response.c_str());
-- 
2.43.0


From 868bf2cd45ab37a2355afd90d4d98d4097990bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 32/43] fix: a key or certificate that can't be generated is an
 error

---
 src/brski/pledge/pledge_request.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index a1bf973..ad73207 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -226,6 +226,7 @@ int generate_sign_cert(struct BinaryArray *scert_cert,
                        struct BinaryArray *scert_key) {
   uint8_t rand[8];
   char rands[17];
+  ssize_t length;
   struct BinaryArray buf = {.array = rand, .length = 8};
 
   struct crypto_cert_meta sign_cert_meta = {
@@ -273,18 +274,20 @@ int generate_sign_cert(struct BinaryArray *scert_cert,
     goto generate_sign_cert_err;
   }
 
-  if ((scert_key->length = (size_t)crypto_generate_eckey(&scert_key->array)) <
-      0) {
+  if ((length = crypto_generate_eckey(&scert_key->array)) < 0) {
     log_error("crypto_generate_eckey fail");
     goto generate_sign_cert_err;
   }
+  scert_key->length = length;
 
-  if ((scert_cert->length = (size_t)crypto_generate_eccert(
-           &sign_cert_meta, scert_key->array, scert_key->length,
-           &scert_cert->array)) < 0) {
+  if ((length = crypto_generate_eccert(&sign_cert_meta, scert_key->array,
+                                       scert_key->length,
+                                       &scert_cert->array)) < 0) {
+    log_error("crypto_generate_eccert fail");
     free_binary_array_content(scert_key);
     goto generate_sign_cert_err;
   }
+  scert_cert->length = length;
 
   free_keyvalue_list(sign_cert_meta.issuer);
   free_keyvalue_list(sign_cert_meta.subject);
-- 
2.43.0


From 00439b626cb75aa55ddb87e7d827605ef8cbcd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 33/43] fix: the local time is not read from a buffer shared by
 all threads

---
 src/utils/os.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/os.c b/src/utils/os.c
index 825509a..44478bf 100644
--- a/src/utils/os.c
+++ b/src/utils/os.c
@@ -98,7 +98,7 @@ size_t sys_strnlen_s(const char *const str, const size_t max_len) {
 
 int get_localtime(struct tm *current) {
   time_t ltime;
-  struct tm *newtime;
+  struct tm newtime;
 
   if (current == NULL) {
     log_error("current is NULL");
@@ -106,11 +106,11 @@ int get_localtime(struct tm *current) {
   }
 
   time(&ltime);
-  if ((newtime = localtime(&ltime)) == NULL) {
-    log_errno("localtime");
+  if (localtime_r(&ltime, &newtime) == NULL) {
+    log_errno("localtime_r");
     return -1;
   }
-  sys_memcpy(current, newtime, sizeof(struct tm));
+  sys_memcpy(current, &newtime, sizeof(struct tm));
 
   return 0;
 }
-- 
2.43.0


From 9149764c5924e13c58b9b790d282dcbe0589fadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 34/43] fix: input of the size of the buffer leaves no room for
 its end

---
 src/brski/brski.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 92ab7d3..5db896a 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -229,7 +229,7 @@ int read_stdin(uint8_t buf[]) {
   int cnt = 0;
   while (read(STDIN_FILENO, &buf[cnt], 1) > 0) {
     cnt++;
-    if (cnt > MAX_STDIN_SIZE)
+    if (cnt >= MAX_STDIN_SIZE)
       return -1;
   }
 
-- 
2.43.0


From 3d83ab06d8ad95373843a70e3cdd0da3cb8c0811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 35/43] fix: verifying a voucher refuses input that does not
 decode

---
 src/brski/brski.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 5db896a..aa85579 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -427,12 +427,13 @@ int main(int argc, char *argv[]) {
 
       struct BinaryArray masa_pledge_voucher_cms = {};
 
-      if ((masa_pledge_voucher_cms.length =
-               serialize_base64str2array((const uint8_t *)inbuf, sz,
-                                         &masa_pledge_voucher_cms.array)) < 0) {
+      ssize_t length = serialize_base64str2array(
+          (const uint8_t *)inbuf, sz, &masa_pledge_voucher_cms.array);
+      if (length < 0) {
         log_errno("serialize_base64str2array fail");
         return EXIT_FAILURE;
       }
+      masa_pledge_voucher_cms.length = length;
 
       struct BinaryArray *registrar_tls_cert =
           file_to_x509buf(in_filename.c_str());
-- 
2.43.0


From afbafdb7d79cd7fc41942f8df4cf98cc1d25f927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 36/43] fix: a server that throws is stopped by its own pointer

---
 src/brski/http/httplib_wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index ee56be0..b477cbf 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -228,7 +228,8 @@ int httplib_start(struct http_config *config,
     server->listen(config->bind_address, config->port);
   } catch (...) {
     log_error("httplib::SSLServer() fail");
-    httplib_stop(srv_ctx);
+    httplib_stop(*srv_ctx);
+    *srv_ctx = nullptr;
     return -1;
   }
 
-- 
2.43.0


From 4c5b11459da8c7826d42de74a4c1ef6920e22eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 37/43] fix: an answer below 200 is no success either

---
 src/brski/pledge/pledge_request.cpp   | 4 ++--
 src/brski/registrar/registrar_api.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index ad73207..ab6e317 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -156,7 +156,7 @@ int post_voucher_pledge_request(struct pledge_config *pconf,
     return -1;
   }
 
-  if (status >= 300) {
+  if (status < 200 || status >= 300) {
     log_error("post_voucher_pledge_request failed with HTTP code %d and "
               "response: '%s'",
               status, http_res.response.c_str());
@@ -351,7 +351,7 @@ int post_sign_cert(struct pledge_config *pconf, struct registrar_config *rconf,
     goto post_sign_cert_err;
   }
 
-  if (status >= 300) {
+  if (status < 200 || status >= 300) {
     log_error("post_voucher_pledge_request_ca failed with HTTP code %d and "
               "response: '%s'",
               status, response.c_str());
diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 82b7d3a..2daa7ce 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -122,7 +122,7 @@ int post_voucher_request(struct BinaryArray *voucher_request_cms,
     return -1;
   }
 
-  if (status >= 300) {
+  if (status < 200 || status >= 300) {
     log_error("https_post_request failed with HTTP code %d and "
               "response: '%s'",
               status, http_res.response.c_str());
-- 
2.43.0


From 2971ac664f9a227a19aa7bb8224241de997c7ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:22 +0000
Subject: [PATCH 38/43] fix: an error answer has one content type, plain text

---
 src/brski/http/httplib_wrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index b477cbf..85eaedc 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -167,6 +167,7 @@ void set_error_handler(httplib::SSLServer *server) {
           res.body = HTTP_ERROR_REPLY; // set default error response
         }
         // according to BRSKI spec, all errors must be plain text
+        res.headers.erase("Content-Type");
         res.set_header("Content-Type", "text/plain");
       });
 }
-- 
2.43.0


From 6b0b570609387f246e7ff3935e93a9d49a0e3d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:22 +0000
Subject: [PATCH 39/43] fix: a server that can't listen is an error, not a
 success

---
 src/brski/http/httplib_wrapper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index 85eaedc..7c683b0 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -226,7 +226,10 @@ int httplib_start(struct http_config *config,
     log_info("Starting the HTTPS server at %s:%d", config->bind_address,
              config->port);
 
-    server->listen(config->bind_address, config->port);
+    if (!server->listen(config->bind_address, config->port)) {
+      log_error("Can't listen at %s:%d", config->bind_address, config->port);
+      return -1;
+    }
   } catch (...) {
     log_error("httplib::SSLServer() fail");
     httplib_stop(*srv_ctx);
-- 
2.43.0


From e8917408582deb6bf1d1e173cc95676536815a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 40/43] fix: the help text's program name is a terminated
 string

---
 src/brski/brski.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index aa85579..89709b8 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -85,7 +85,9 @@ static void show_version(void) {
 
 static void show_help(const char *name) {
   const std::string string_name(name);
-  std::vector<char> basename_buffer(string_name.begin(), string_name.end());
+  std::vector<char> basename_buffer(string_name.c_str(),
+                                    string_name.c_str() + string_name.size() +
+                                        1);
 
   show_version();
   std::fprintf(stdout, "Usage:\n");
-- 
2.43.0


From d72fcfd7f94d5fefcb691f238967a2c8dcabbc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 41/43] fix: a long output file name is not cut

---
 src/brski/brski.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 89709b8..c02312c 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -240,8 +240,6 @@ int read_stdin(uint8_t buf[]) {
 
 int output_domain_cert(struct BinaryArray *pinned_domain_cert,
                        std::string &out_filename) {
-  char outf[255];
-
   if (out_filename.empty()) {
     char *cert_str = NULL;
     if (serialize_array2base64str(pinned_domain_cert->array,
@@ -253,8 +251,8 @@ int output_domain_cert(struct BinaryArray *pinned_domain_cert,
     print_cert(cert_str, 0);
     sys_free(cert_str);
   } else {
-    snprintf(outf, 255, "%s.crt", out_filename.c_str());
-    if (certbuf_to_file(pinned_domain_cert, outf) < 0) {
+    const std::string outf = out_filename + ".crt";
+    if (certbuf_to_file(pinned_domain_cert, outf.c_str()) < 0) {
       log_error("certbuf_to_file fail");
       return -1;
     }
@@ -269,7 +267,6 @@ int main(int argc, char *argv[]) {
   std::string config_filename, in_filename, out_filename;
   std::string address;
   CommandId command_id;
-  char outf[255];
 
   process_options(argc, argv, verbose, config_filename, in_filename,
                   out_filename, &port, address, command_id);
@@ -332,10 +329,10 @@ int main(int argc, char *argv[]) {
         sys_free(base64);
         free_binary_array(tls_cert);
       } else {
-        snprintf(outf, 255, "%s.smime", out_filename.c_str());
+        const std::string outf = out_filename + ".smime";
 
-        if (voucher_pledge_request_to_smimefile(&config.pconf, tls_cert, outf) <
-            0) {
+        if (voucher_pledge_request_to_smimefile(&config.pconf, tls_cert,
+                                                outf.c_str()) < 0) {
           log_error("voucher_pledge_request_to_smimefile fail");
           return EXIT_FAILURE;
         }
@@ -391,13 +388,13 @@ int main(int argc, char *argv[]) {
         print_cert(pki_str, 0);
         sys_free(pki_str);
       } else {
-        snprintf(outf, 255, "%s.crt", out_filename.c_str());
-        if (certbuf_to_file(&out_cert, outf) < 0) {
+        const std::string crt_file = out_filename + ".crt";
+        if (certbuf_to_file(&out_cert, crt_file.c_str()) < 0) {
           log_error("certbuf_to_file fail");
           return EXIT_FAILURE;
         }
-        snprintf(outf, 255, "%s.key", out_filename.c_str());
-        if (keybuf_to_file(&out_key, outf) < 0) {
+        const std::string key_file = out_filename + ".key";
+        if (keybuf_to_file(&out_key, key_file.c_str()) < 0) {
           log_error("certbuf_to_file fail");
           return EXIT_FAILURE;
         }
-- 
2.43.0


From 2ce9d10bdece139237c26415f95278b38b21863b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 42/43] fix: certificate verification checks the signatures of
 the chain

---
 src/voucher/crypto_ossl.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index e6fbff9..d03ee84 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1316,6 +1316,26 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
   return x509_store;
 }
 
+/* Building a chain only matches names, the signatures are checked here */
+static int verify_chain_signatures(const STACK_OF(X509) *chain) {
+  for (int idx = 0; idx + 1 < sk_X509_num(chain); idx++) {
+    EVP_PKEY *pkey = X509_get0_pubkey(sk_X509_value(chain, idx + 1));
+
+    if (pkey == NULL) {
+      log_error("X509_get0_pubkey fail with code=%s",
+                ERR_error_string(ERR_get_error(), NULL));
+      return -1;
+    }
+
+    if (X509_verify(sk_X509_value(chain, idx), pkey) < 1) {
+      log_error("signature verification fail");
+      return -1;
+    }
+  }
+
+  return 0;
+}
+
 int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
                        const struct BinaryArrayList *certs,
                        const struct BinaryArrayList *store) {
@@ -1356,7 +1376,7 @@ int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
   }
 
   STACK_OF(X509) *out_cert_stack =
-      X509_build_chain(x509, cert_stack, cert_store, 0, NULL, NULL);
+      X509_build_chain(x509, cert_stack, cert_store, 1, NULL, NULL);
   if (out_cert_stack == NULL) {
     log_error("X509_build_chain fail");
   }
@@ -1368,6 +1388,11 @@ int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
     ret = -1;
   }
 
+  if (ret == 0 && verify_chain_signatures(out_cert_stack) < 0) {
+    log_error("verify_chain_signatures fail");
+    ret = -1;
+  }
+
   free_x509_store(cert_store, x509_store_list);
   sk_X509_pop_free(cert_stack, X509_free);
   sk_X509_pop_free(out_cert_stack, X509_free);
-- 
2.43.0


From 8c28fd4bc6458736052155975d9c16d4809c3cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:33 +0000
Subject: [PATCH 43/43] fix: without a trust store a certificate has to be
 signed by a given one

---
 src/voucher/crypto_ossl.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index d03ee84..385e38a 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1336,6 +1336,20 @@ static int verify_chain_signatures(const STACK_OF(X509) *chain) {
   return 0;
 }
 
+/* Without a store a chain ends anywhere, it has to reach a given certificate */
+static int check_chain_end(const STACK_OF(X509) *chain,
+                           const STACK_OF(X509) *certs) {
+  const X509 *end = sk_X509_value(chain, sk_X509_num(chain) - 1);
+
+  for (int idx = 0; idx < sk_X509_num(certs); idx++) {
+    if (X509_cmp(end, sk_X509_value(certs, idx)) == 0) {
+      return 0;
+    }
+  }
+
+  return -1;
+}
+
 int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
                        const struct BinaryArrayList *certs,
                        const struct BinaryArrayList *store) {
@@ -1393,6 +1407,12 @@ int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
     ret = -1;
   }
 
+  if (ret == 0 && store == NULL &&
+      check_chain_end(out_cert_stack, cert_stack) < 0) {
+    log_error("certificate isn't signed by the given certificates");
+    ret = -1;
+  }
+
   free_x509_store(cert_store, x509_store_list);
   sk_X509_pop_free(cert_stack, X509_free);
   sk_X509_pop_free(out_cert_stack, X509_free);
-- 
2.43.0

