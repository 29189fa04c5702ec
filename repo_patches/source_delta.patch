From 1cc156ffeadcef377108269b449c24e1c8ce5ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 01/56] fix: reset the output of a failed base64 decode

base64_gen_decode freed the output buffer on invalid padding but left the
caller's pointer set, so callers freed it a second time.
---
 src/voucher/serialize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index 32e0925..ba92a0c 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -242,6 +242,7 @@ static ssize_t base64_gen_decode(const uint8_t *src, const size_t len,
         } else {
           log_error("Invalid padding");
           sys_free(*out);
+          *out = NULL;
           return -1;
         }
         break;
-- 
2.43.0


From 2af4a2c485c50f95c26b3395e502595f9e5c2c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 02/56] fix: replace voucher attributes without losing or
 leaking the old value

Setting a serial number or binary attribute a second time leaked the previous
value, and a failed set of a binary attribute destroyed it.
---
 src/voucher/voucher.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 50084c9..776a2a4 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -37,7 +37,7 @@ static bool is_attr_array_nonempty(const struct BinaryArray *value) {
     return false;
   }
 
-  if (value->array == NULL && !value->length) {
+  if (value->array == NULL || !value->length) {
     return false;
   }
 
@@ -182,10 +182,13 @@ static int set_attr_nstr_voucher(struct Voucher *voucher,
   }
 
   if (length < MAX_SERIAL_NUMBER_SIZE) {
-    if ((voucher->serial_number = sys_strndup(value, length)) == NULL) {
+    char *serial_number = sys_strndup(value, length);
+    if (serial_number == NULL) {
       log_errno("sys_strdup");
       return -1;
     }
+    sys_free(voucher->serial_number);
+    voucher->serial_number = serial_number;
   } else {
     log_error("Attribute value exceeds max size");
     return -1;
@@ -215,6 +218,18 @@ int set_attr_str_voucher(struct Voucher *voucher,
                                sys_strnlen_s(value, MAX_SERIAL_NUMBER_SIZE));
 }
 
+static int replace_binary_array(struct BinaryArray *const dst,
+                                const struct BinaryArray *src) {
+  struct BinaryArray copy = {0};
+  if (copy_binary_array(&copy, src) < 0) {
+    return -1;
+  }
+
+  free_binary_array_content(dst);
+  *dst = copy;
+  return 0;
+}
+
 int set_attr_array_voucher(struct Voucher *voucher,
                            const enum VoucherAttributes attr,
                            const struct BinaryArray *value) {
@@ -230,28 +245,28 @@ int set_attr_array_voucher(struct Voucher *voucher,
 
   switch (attr) {
     case ATTR_IDEVID_ISSUER:
-      if (copy_binary_array(&voucher->idevid_issuer, value) < 0) {
+      if (replace_binary_array(&voucher->idevid_issuer, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_PINNED_DOMAIN_CERT:
-      if (copy_binary_array(&voucher->pinned_domain_cert, value) < 0) {
+      if (replace_binary_array(&voucher->pinned_domain_cert, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_NONCE:
-      if (copy_binary_array(&voucher->nonce, value) < 0) {
+      if (replace_binary_array(&voucher->nonce, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_PRIOR_SIGNED_VOUCHER_REQUEST:
-      if (copy_binary_array(&voucher->prior_signed_voucher_request, value) <
+      if (replace_binary_array(&voucher->prior_signed_voucher_request, value) <
           0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_PROXIMITY_REGISTRAR_CERT:
-      if (copy_binary_array(&voucher->proximity_registrar_cert, value) < 0) {
+      if (replace_binary_array(&voucher->proximity_registrar_cert, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
-- 
2.43.0


From 70000ae818a45ad26e6d75fa8fea66f760f96e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 03/56] fix: escape and unescape voucher json strings, check
 json token types

A serial number with a quote, a backslash or a control char produced a broken
json voucher (or one with injected members), escapes of a received voucher were
taken literally, any prefix of the root name was accepted as root and objects
or arrays were accepted as attribute values.
---
 src/voucher/serialize.c | 151 +++++++++++++++++++++++++++++++++++++++-
 src/voucher/serialize.h |  14 +++-
 src/voucher/voucher.c   |  68 +++++++++++++++---
 3 files changed, 219 insertions(+), 14 deletions(-)

diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index ba92a0c..8bd3177 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -15,6 +15,131 @@
 
 #include "serialize.h"
 
+static int parse_hex4(const char *str, const size_t length, uint32_t *value) {
+  if (length < 4) {
+    return -1;
+  }
+
+  *value = 0;
+  for (size_t idx = 0; idx < 4; idx++) {
+    char c = str[idx];
+    if (c >= '0' && c <= '9') {
+      *value = (*value << 4) | (uint32_t)(c - '0');
+    } else if (c >= 'a' && c <= 'f') {
+      *value = (*value << 4) | (uint32_t)(c - 'a' + 10);
+    } else if (c >= 'A' && c <= 'F') {
+      *value = (*value << 4) | (uint32_t)(c - 'A' + 10);
+    } else {
+      return -1;
+    }
+  }
+
+  return 0;
+}
+
+static size_t encode_utf8(const uint32_t value, char *out) {
+  if (value < 0x80) {
+    out[0] = (char)value;
+    return 1;
+  } else if (value < 0x800) {
+    out[0] = (char)(0xc0 | (value >> 6));
+    out[1] = (char)(0x80 | (value & 0x3f));
+    return 2;
+  } else if (value < 0x10000) {
+    out[0] = (char)(0xe0 | (value >> 12));
+    out[1] = (char)(0x80 | ((value >> 6) & 0x3f));
+    out[2] = (char)(0x80 | (value & 0x3f));
+    return 3;
+  }
+
+  out[0] = (char)(0xf0 | (value >> 18));
+  out[1] = (char)(0x80 | ((value >> 12) & 0x3f));
+  out[2] = (char)(0x80 | ((value >> 6) & 0x3f));
+  out[3] = (char)(0x80 | (value & 0x3f));
+  return 4;
+}
+
+char *serialize_unescapestr(const char *str, const size_t length) {
+  if (str == NULL) {
+    log_error("str param is NULL");
+    return NULL;
+  }
+
+  /* The unescaped string is never longer than the escaped one*/
+  char *unescaped = sys_zalloc(length + 1);
+  if (unescaped == NULL) {
+    log_errno("sys_zalloc");
+    return NULL;
+  }
+
+  char *pos = unescaped;
+  for (size_t idx = 0; idx < length; idx++) {
+    uint32_t value = 0, low = 0;
+
+    if (str[idx] == '\0') {
+      goto serialize_unescapestr_fail;
+    } else if (str[idx] != '\\') {
+      *pos++ = str[idx];
+      continue;
+    }
+
+    if (++idx >= length) {
+      goto serialize_unescapestr_fail;
+    }
+
+    switch (str[idx]) {
+      case '"':
+      case '\\':
+      case '/':
+        *pos++ = str[idx];
+        break;
+      case 'b':
+        *pos++ = '\b';
+        break;
+      case 'f':
+        *pos++ = '\f';
+        break;
+      case 'n':
+        *pos++ = '\n';
+        break;
+      case 'r':
+        *pos++ = '\r';
+        break;
+      case 't':
+        *pos++ = '\t';
+        break;
+      case 'u':
+        if (parse_hex4(&str[idx + 1], length - idx - 1, &value) < 0) {
+          goto serialize_unescapestr_fail;
+        }
+        idx += 4;
+        if (value >= 0xd800 && value <= 0xdbff) {
+          /* The first half of a surrogate pair*/
+          if (length - idx - 1 < 6 || str[idx + 1] != '\\' ||
+              str[idx + 2] != 'u' || parse_hex4(&str[idx + 3], 4, &low) < 0 ||
+              low < 0xdc00 || low > 0xdfff) {
+            goto serialize_unescapestr_fail;
+          }
+          idx += 6;
+          value = 0x10000 + ((value - 0xd800) << 10) + (low - 0xdc00);
+        } else if (value == 0 || (value >= 0xdc00 && value <= 0xdfff)) {
+          goto serialize_unescapestr_fail;
+        }
+        pos += encode_utf8(value, pos);
+        break;
+      default:
+        goto serialize_unescapestr_fail;
+    }
+  }
+
+  return unescaped;
+
+serialize_unescapestr_fail:
+  log_error("Invalid json string");
+  sys_free(unescaped);
+  return NULL;
+}
+
 static const uint8_t base64_table[65] =
     "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
 
@@ -385,14 +510,34 @@ char *serialize_escapestr(const char *str) {
   }
 
   size_t length = strlen(str);
-  /* ""(2 chars) + \0 (1 char) = 3 chars*/
-  char *serialized = sys_malloc(length + 3);
+  if (length > (SIZE_MAX - 3) / 6) {
+    log_error("str exceeds max size");
+    return NULL;
+  }
+
+  /* "" (2 chars) + \0 (1 char) = 3 chars, and at most 6 chars (\uXXXX) for
+   * every input char*/
+  char *serialized = sys_malloc(length * 6 + 3);
 
   if (serialized == NULL) {
     log_errno("sys_malloc");
     return NULL;
   }
-  sprintf(serialized, "\"%s\"", str);
+
+  char *pos = serialized;
+  *pos++ = '"';
+  for (; *str != '\0'; str++) {
+    if (*str == '"' || *str == '\\') {
+      *pos++ = '\\';
+      *pos++ = *str;
+    } else if ((unsigned char)*str < 0x20) {
+      pos += sprintf(pos, "\\u%04x", (unsigned int)*str);
+    } else {
+      *pos++ = *str;
+    }
+  }
+  *pos++ = '"';
+  *pos = '\0';
 
   return serialized;
 }
diff --git a/src/voucher/serialize.h b/src/voucher/serialize.h
index b73294e..9e835c2 100644
--- a/src/voucher/serialize.h
+++ b/src/voucher/serialize.h
@@ -100,7 +100,7 @@ int serialize_str2time(const char *str, const struct tm *tm);
 __must_sys_free char *serialize_localtime(void);
 
 /**
- * @brief Adds "" to a string
+ * @brief Adds "" to a string and escapes the chars that json strings can't hold
  *
  * Caller is responsible for freeing the string
  *
@@ -109,6 +109,18 @@ __must_sys_free char *serialize_localtime(void);
  */
 __must_sys_free char *serialize_escapestr(const char *str);
 
+/**
+ * @brief Decodes the content of a json string (without the enclosing "")
+ *
+ * Caller is responsible for freeing the string
+ *
+ * @param[in] str The content of the json string
+ * @param[in] length The content length
+ * @return char * the decoded string, NULL on failure
+ */
+__must_sys_free char *serialize_unescapestr(const char *str,
+                                            const size_t length);
+
 /**
  * @brief Encodes a key/value list to a json
  * Example:
diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 776a2a4..6f8a77d 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -810,6 +810,53 @@ static int set_keyvalue_voucher(struct Voucher *voucher, const char *key,
   return 0;
 }
 
+/* Returns the decoded content of a json string token or the raw content of any
+ * other token*/
+static char *get_token_str(const uint8_t *json, const jsmntok_t *token) {
+  const char *start = (const char *)(json + token->start);
+  size_t length = token->end - token->start;
+
+  if (token->type == JSMN_STRING) {
+    return serialize_unescapestr(start, length);
+  }
+
+  return sys_strndup(start, length);
+}
+
+static int set_token_voucher(struct Voucher *voucher, const uint8_t *json,
+                             const jsmntok_t *key_token,
+                             const jsmntok_t *value_token) {
+  const char *attr_names[] = VOUCHER_ATTRIBUTE_NAMES;
+  int res = -1;
+  char *key = NULL, *value = NULL;
+
+  if (key_token->type != JSMN_STRING || key_token->size != 1 ||
+      (value_token->type != JSMN_STRING &&
+       value_token->type != JSMN_PRIMITIVE)) {
+    log_error("Malformed voucher json");
+    return -1;
+  }
+
+  if ((key = get_token_str(json, key_token)) == NULL ||
+      (value = get_token_str(json, value_token)) == NULL) {
+    log_error("get_token_str fail");
+    goto set_token_voucher_fail;
+  }
+
+  if (value_token->type == JSMN_PRIMITIVE &&
+      strcmp(key, attr_names[ATTR_DOMAIN_CERT_REVOCATION_CHECKS]) != 0) {
+    log_error("json string expected for %s", key);
+    goto set_token_voucher_fail;
+  }
+
+  res = set_keyvalue_voucher(voucher, key, strlen(key), value, strlen(value));
+
+set_token_voucher_fail:
+  sys_free(key);
+  sys_free(value);
+  return res;
+}
+
 struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
   if (json == NULL) {
     log_error("json param is NULL");
@@ -834,13 +881,19 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
   }
 
   struct Voucher *voucher = init_voucher();
+  if (voucher == NULL) {
+    log_error("init_voucher fail");
+    return NULL;
+  }
+
   bool found_root = false;
 
   for (int idx = 1; idx < count; idx++) {
-    int length = tokens[idx].end - tokens[idx].start;
+    size_t root_length = tokens[idx].end - tokens[idx].start;
     /* Find the voucher root key */
-    if (strncmp(VOUCHER_ROOT_NAME, (char *)(json + tokens[idx].start),
-                length) == 0) {
+    if (tokens[idx].type == JSMN_STRING && tokens[idx].size == 1 &&
+        check_size_str_equal(VOUCHER_ROOT_NAME,
+                             (char *)(json + tokens[idx].start), root_length)) {
       idx++;
       if (idx < count && tokens[idx].type == JSMN_OBJECT) {
         /* Iterate over all the key/value pairs of the voucher root */
@@ -850,13 +903,8 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
           if (key_idx < count && value_idx < count) {
             jsmntok_t *key_token = &tokens[key_idx];
             jsmntok_t *value_token = &tokens[value_idx];
-            size_t key_length = key_token->end - key_token->start;
-            size_t value_length = value_token->end - value_token->start;
-            const char *key = (char *)(json + key_token->start);
-            const char *value = (char *)(json + value_token->start);
-            if (set_keyvalue_voucher(voucher, key, key_length, value,
-                                     value_length) < 0) {
-              log_trace("set_keyvalue_voucher fail");
+            if (set_token_voucher(voucher, json, key_token, value_token) < 0) {
+              log_trace("set_token_voucher fail");
               goto deserialize_voucher_fail;
             }
           } else {
-- 
2.43.0


From c40b1ddecd50daed816247edc7887f9a790a9ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 04/56] fix: don't free the signer certificates owned by the
 CMS structure

CMS_get0_signers returns certificates that belong to the CMS structure, so
only the stack has to be freed.
---
 src/voucher/crypto_ossl.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 7b13840..f64e5b6 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1570,14 +1570,14 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
   int length = sk_X509_num(signers);
 
   if (!length) {
-    sk_X509_pop_free(signers, X509_free);
+    sk_X509_free(signers);
     return 0;
   }
 
   *out_certs = init_array_list();
   if (*out_certs == NULL) {
     log_error("init_buffer_list fail");
-    sk_X509_pop_free(signers, X509_free);
+    sk_X509_free(signers);
     return -1;
   }
 
@@ -1588,7 +1588,7 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
     if (cert_length < 0) {
       log_error("cert_to_derbuf fail");
       free_array_list(*out_certs);
-      sk_X509_pop_free(signers, X509_free);
+      sk_X509_free(signers);
       *out_certs = NULL;
       return -1;
     }
@@ -1596,14 +1596,14 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
       log_error("push_buffer_list fail");
       sys_free(cert);
       free_array_list(*out_certs);
-      sk_X509_pop_free(signers, X509_free);
+      sk_X509_free(signers);
       *out_certs = NULL;
       return -1;
     }
     sys_free(cert);
   }
 
-  sk_X509_pop_free(signers, X509_free);
+  sk_X509_free(signers);
   return 0;
 }
 
-- 
2.43.0


From 48366831744399ddc0061b7b34e2a2cedd87f9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 05/56] fix: refuse a pledge voucher request without a serial
 number

The registrar passed the missing serial number to strcmp and crashed.
---
 src/voucher/request.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 59bab6b..3a2b94a 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -136,6 +136,12 @@ sign_voucher_request(const struct BinaryArray *pledge_voucher_request_cms,
     return NULL;
   }
 
+  if (*pledge_serial_number == NULL) {
+    log_error("serial-number is missing");
+    free_voucher(pledge_voucher_request);
+    return NULL;
+  }
+
   if (strcmp(*pledge_serial_number, serial_number) != 0) {
     log_error("wrong pledge voucher serial-number");
     free_voucher(pledge_voucher_request);
-- 
2.43.0


From 9eb1c36d355fb0247ad3173fb3eabcaf4a8b2995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 06/56] fix: verify the signatures of a certificate chain

crypto_verify_cert accepted every certificate whose issuer name matched, since
X509_build_chain doesn't verify signatures, and every certificate at all when
no store was given.
---
 src/voucher/crypto_ossl.c | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index f64e5b6..4ebaaf9 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1296,6 +1296,37 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
   return x509_store;
 }
 
+/* X509_build_chain only matches names and key identifiers, thus the signatures
+ * of the chain have to be verified separately. Without a store the chain has
+ * to end in one of the given certificates. */
+static int verify_chain_signatures(STACK_OF(X509) * chain,
+                                   STACK_OF(X509) * certs,
+                                   const X509_STORE *store) {
+  int length = sk_X509_num(chain);
+
+  for (int idx = 0; idx < length - 1; idx++) {
+    EVP_PKEY *pkey = X509_get0_pubkey(sk_X509_value(chain, idx + 1));
+    if (pkey == NULL || X509_verify(sk_X509_value(chain, idx), pkey) != 1) {
+      log_error("certificate chain signature verification fail");
+      return -1;
+    }
+  }
+
+  if (store != NULL) {
+    return 0;
+  }
+
+  X509 *anchor = sk_X509_value(chain, length - 1);
+  for (int idx = 0; anchor != NULL && idx < sk_X509_num(certs); idx++) {
+    if (X509_cmp(anchor, sk_X509_value(certs, idx)) == 0) {
+      return 0;
+    }
+  }
+
+  log_error("certificate not signed by the given certificates");
+  return -1;
+}
+
 int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
                        const struct BinaryArrayList *certs,
                        const struct BinaryArrayList *store) {
@@ -1336,7 +1367,7 @@ int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
   }
 
   STACK_OF(X509) *out_cert_stack =
-      X509_build_chain(x509, cert_stack, cert_store, 0, NULL, NULL);
+      X509_build_chain(x509, cert_stack, cert_store, 1, NULL, NULL);
   if (out_cert_stack == NULL) {
     log_error("X509_build_chain fail");
   }
@@ -1346,6 +1377,10 @@ int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
   if (sk_X509_num(out_cert_stack) < 1) {
     log_error("cert stack is empty");
     ret = -1;
+  } else if (verify_chain_signatures(out_cert_stack, cert_stack, cert_store) <
+             0) {
+    log_error("verify_chain_signatures fail");
+    ret = -1;
   }
 
   free_x509_store(cert_store, x509_store_list);
-- 
2.43.0


From 57351d71bee527b970e70f3a1e780c5504c0f4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 07/56] fix: verify the registrar certificate with the pinned
 domain certificate

With a domain store the registrar TLS certificate was accepted when it chained
to the store without the pinned domain certificate of the voucher.
---
 src/voucher/request.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 3a2b94a..ff35e2c 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -561,6 +561,16 @@ int verify_masa_pledge_voucher(
     free_binary_array_content(&cert_copy);
 
     if (crypto_verify_cert(registrar_tls_cert->array,
+                           registrar_tls_cert->length, intermediate_certs,
+                           NULL) < 0) {
+      log_error("registrar certificate not verified by the pinned domain "
+                "certificate");
+      free_array_list(intermediate_certs);
+      goto verify_masa_pledge_voucher_fail;
+    }
+
+    if (domain_store != NULL &&
+        crypto_verify_cert(registrar_tls_cert->array,
                            registrar_tls_cert->length, intermediate_certs,
                            domain_store) < 0) {
       log_error("crypto_verify_cert fail");
-- 
2.43.0


From 18397e70332dbe4b086e3a800b8fef9f8a9bf120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 08/56] fix: check the CRLs of the trust store

CRLs were added to the store but never consulted, so that a CMS structure of a
revoked signer was accepted.
---
 src/voucher/crypto_ossl.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 4ebaaf9..bd3845d 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1284,6 +1284,14 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
         return NULL;
       }
 
+      if (!X509_STORE_set_flags(x509_store, X509_V_FLAG_CRL_CHECK)) {
+        log_error("X509_STORE_set_flags fail with code=%s",
+                  ERR_error_string(ERR_get_error(), NULL));
+        X509_CRL_free(x509_crl);
+        free_x509_store(x509_store, *x509_store_list);
+        return NULL;
+      }
+
       ptr = (void *)x509_crl;
     }
     if (push_ptr_list(*x509_store_list, ptr, el->flags) < 0) {
-- 
2.43.0


From e7ecb9772a1d2c60cbb11f07618ea3209a9bcc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 09/56] fix: detect negative lengths

Failures of base64 decoding and of key and certificate generation were stored
in an unsigned length before being compared with 0, so they went unnoticed and
a buffer with a bogus length was used.
---
 src/brski/brski.cpp                   |  7 ++++---
 src/brski/masa/masa_api.cpp           |  4 +++-
 src/brski/pledge/pledge_request.cpp   | 17 +++++++++++------
 src/brski/registrar/registrar_api.cpp | 15 +++++++++++----
 4 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 92ab7d3..4202961 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -427,12 +427,13 @@ int main(int argc, char *argv[]) {
 
       struct BinaryArray masa_pledge_voucher_cms = {};
 
-      if ((masa_pledge_voucher_cms.length =
-               serialize_base64str2array((const uint8_t *)inbuf, sz,
-                                         &masa_pledge_voucher_cms.array)) < 0) {
+      ssize_t length = serialize_base64str2array(
+          (const uint8_t *)inbuf, sz, &masa_pledge_voucher_cms.array);
+      if (length < 0) {
         log_errno("serialize_base64str2array fail");
         return EXIT_FAILURE;
       }
+      masa_pledge_voucher_cms.length = length;
 
       struct BinaryArray *registrar_tls_cert =
           file_to_x509buf(in_filename.c_str());
diff --git a/src/brski/masa/masa_api.cpp b/src/brski/masa/masa_api.cpp
index 4782073..b202b16 100644
--- a/src/brski/masa/masa_api.cpp
+++ b/src/brski/masa/masa_api.cpp
@@ -73,6 +73,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   struct BinaryArrayList *additional_masa_certs = NULL;
   struct BinaryArray *masa_pledge_voucher = NULL;
   char *base64 = NULL;
+  ssize_t length;
   const char *cms_str = request_body.c_str();
 
   log_trace("masa_requestvoucher:");
@@ -84,12 +85,13 @@ int masa_requestvoucher(const RequestHeader &request_header,
     goto masa_requestvoucher_fail;
   }
 
-  if ((voucher_request_cms.length =
+  if ((length =
            serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
                                      &voucher_request_cms.array)) < 0) {
     log_errno("serialize_base64str2array fail");
     goto masa_requestvoucher_fail;
   }
+  voucher_request_cms.length = length;
 
   if ((context->ldevid_ca_cert = file_to_x509buf(mconf->ldevid_ca_cert_path)) ==
       NULL) {
diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 5f57818..117a2f9 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -94,6 +94,7 @@ int post_voucher_pledge_request(struct pledge_config *pconf,
                                 struct masa_config *mconf,
                                 struct BinaryArray *pinned_domain_cert) {
   int status;
+  ssize_t length;
   struct HttpResponse http_res = {};
   struct BinaryArray *registrar_tls_cert = NULL;
 
@@ -177,13 +178,14 @@ int post_voucher_pledge_request(struct pledge_config *pconf,
   const char *masa_pledge_voucher_str = http_res.response.c_str();
   struct BinaryArray masa_pledge_voucher_cms = {};
 
-  if ((masa_pledge_voucher_cms.length =
+  if ((length =
            serialize_base64str2array((const uint8_t *)masa_pledge_voucher_str,
                                      strlen(masa_pledge_voucher_str),
                                      &masa_pledge_voucher_cms.array)) < 0) {
     log_errno("serialize_base64str2array fail");
     goto post_voucher_pledge_request_fail;
   }
+  masa_pledge_voucher_cms.length = length;
 
   if (verify_masa_pledge_request(pconf, &masa_pledge_voucher_cms,
                                  registrar_tls_cert, pinned_domain_cert) < 0) {
@@ -222,6 +224,7 @@ uint64_t gen_rand64(void) {
 
 int generate_sign_cert(struct BinaryArray *scert_cert,
                        struct BinaryArray *scert_key) {
+  ssize_t length;
   uint8_t rand[8];
   char rands[17];
   struct BinaryArray buf = {.array = rand, .length = 8};
@@ -271,18 +274,20 @@ int generate_sign_cert(struct BinaryArray *scert_cert,
     goto generate_sign_cert_err;
   }
 
-  if ((scert_key->length = (size_t)crypto_generate_eckey(&scert_key->array)) <
-      0) {
+  if ((length = crypto_generate_eckey(&scert_key->array)) < 0) {
     log_error("crypto_generate_eckey fail");
     goto generate_sign_cert_err;
   }
+  scert_key->length = length;
 
-  if ((scert_cert->length = (size_t)crypto_generate_eccert(
-           &sign_cert_meta, scert_key->array, scert_key->length,
-           &scert_cert->array)) < 0) {
+  if ((length = crypto_generate_eccert(&sign_cert_meta, scert_key->array,
+                                       scert_key->length, &scert_cert->array)) <
+      0) {
+    log_error("crypto_generate_eccert fail");
     free_binary_array_content(scert_key);
     goto generate_sign_cert_err;
   }
+  scert_cert->length = length;
 
   free_keyvalue_list(sign_cert_meta.issuer);
   free_keyvalue_list(sign_cert_meta.subject);
diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 60d8e10..2b69da6 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -188,15 +188,22 @@ int registrar_requestvoucher(const RequestHeader &request_header,
 
   auto pledge_voucher_request_cms =
       std::unique_ptr<BinaryArray, void (*)(BinaryArray *)>{
-          static_cast<BinaryArray *>(std::malloc(sizeof(BinaryArray))),
+          init_binary_array(),
           [](BinaryArray *b) { free_binary_array(b); },
       };
-  if ((pledge_voucher_request_cms->length =
-           serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
-                                     &pledge_voucher_request_cms->array)) < 0) {
+  if (pledge_voucher_request_cms == nullptr) {
+    log_error("init_binary_array fail");
+    return 500;
+  }
+
+  ssize_t length =
+      serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
+                                &pledge_voucher_request_cms->array);
+  if (length < 0) {
     log_errno("serialize_base64str2array fail");
     return 400;
   }
+  pledge_voucher_request_cms->length = length;
 
   if (get_localtime(&created_on) < 0) {
     log_error("get_localtime fail");
-- 
2.43.0


From abb9000329d5b2a5a9adbafb0780b12aadf3f816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 10/56] fix: free the nonce only once when its decoding fails

---
 src/brski/pledge/pledge_request.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 117a2f9..7b09231 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -52,7 +52,6 @@ int verify_masa_pledge_request(struct pledge_config *pconf,
                                             strlen(pconf->nonce),
                                             &nonce->array)) < 0) {
       log_errno("serialize_base64str2array fail");
-      free_binary_array(nonce);
       goto verify_masa_pledge_request_fail;
     }
     nonce->length = length;
-- 
2.43.0


From 8888852f397416ca077020486f6c000efab2e592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 11/56] fix: keep the pinned domain certificate of a MASA
 request per request

The certificate was stored in the context shared by all the requests, so
parallel requests used and freed each other's certificate and a failed request
freed the one of the previous request again.
---
 src/brski/masa/masa_api.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/brski/masa/masa_api.cpp b/src/brski/masa/masa_api.cpp
index b202b16..88a31ae 100644
--- a/src/brski/masa/masa_api.cpp
+++ b/src/brski/masa/masa_api.cpp
@@ -59,7 +59,11 @@ int masa_requestvoucher(const RequestHeader &request_header,
                         CRYPTO_CERT peer_certificate,
                         ResponseHeader &response_header, std::string &response,
                         void *user_ctx) {
-  struct MasaContext *context = static_cast<struct MasaContext *>(user_ctx);
+  /* The requests run in parallel, thus every one needs its own context*/
+  struct MasaContext request_context =
+      *static_cast<struct MasaContext *>(user_ctx);
+  struct MasaContext *context = &request_context;
+  context->ldevid_ca_cert = NULL;
   struct registrar_config *rconf = context->rconf;
   struct masa_config *mconf = context->mconf;
 
@@ -138,7 +142,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   }
 
   masa_pledge_voucher = sign_masa_pledge_voucher(
-      &voucher_request_cms, &expires_on, voucher_req_cb, user_ctx,
+      &voucher_request_cms, &expires_on, voucher_req_cb, context,
       masa_sign_cert, masa_sign_key, registrar_verify_certs,
       registrar_store_certs, pledge_verify_certs, pledge_store_certs,
       additional_masa_certs);
-- 
2.43.0


From 9092333f15a531f2f86c833da97143be0bcb0e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 12/56] fix: reset the lists of certificates and config values
 freed on failure

The callers free the list on failure too.
---
 src/brski/config.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/brski/config.c b/src/brski/config.c
index d109f39..75d492d 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -56,6 +56,7 @@ int load_config_value_list(const char *section, const char *key,
       log_errno("sys_zalloc");
       sys_free(store);
       free_array_list(*value_list);
+      *value_list = NULL;
       return -1;
     }
 
@@ -67,6 +68,7 @@ int load_config_value_list(const char *section, const char *key,
         sys_free(value);
         sys_free(store);
         free_array_list(*value_list);
+        *value_list = NULL;
         return -1;
       }
     }
@@ -694,6 +696,7 @@ int load_cert_files(struct BinaryArrayList *cert_paths,
     if ((cert = file_to_x509buf(cert_path_str)) == NULL) {
       log_error("file_to_x509buf fail");
       free_array_list(*out);
+      *out = NULL;
       return -1;
     }
 
@@ -701,6 +704,7 @@ int load_cert_files(struct BinaryArrayList *cert_paths,
       log_error("push_array_list fail");
       free_binary_array(cert);
       free_array_list(*out);
+      *out = NULL;
       return -1;
     }
     free_binary_array(cert);
-- 
2.43.0


From 7673bb815a4e755a739049f451d4778afe7149d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 13/56] fix: report a voucher request refused by the MASA

The registrar answered 200 with an empty body when the MASA refused a voucher
request, because only negative results are handled as a failure.
---
 src/brski/registrar/registrar_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 2b69da6..006cb0e 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -123,7 +123,7 @@ int post_voucher_request(struct BinaryArray *voucher_request_cms,
               "response: '%s'",
               status, http_res.response.c_str());
     crypto_free_certcontext(http_res.peer_certificate);
-    return 400;
+    return -1;
   }
 
   crypto_free_certcontext(http_res.peer_certificate);
-- 
2.43.0


From 3bf54dcda0f98edd0792ee02361931a0a25faf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 14/56] fix: overflow of the input buffer when reading the MASA
 response

---
 src/brski/brski.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 4202961..f161c47 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -227,10 +227,11 @@ void print_key(const char *key, int prefix) {
 
 int read_stdin(uint8_t buf[]) {
   int cnt = 0;
-  while (read(STDIN_FILENO, &buf[cnt], 1) > 0) {
-    cnt++;
-    if (cnt > MAX_STDIN_SIZE)
+  uint8_t c;
+  while (read(STDIN_FILENO, &c, 1) > 0) {
+    if (cnt >= MAX_STDIN_SIZE)
       return -1;
+    buf[cnt++] = c;
   }
 
   return cnt;
@@ -407,7 +408,7 @@ int main(int argc, char *argv[]) {
     }
     case CommandId::COMMAND_VERIFY_MASA: {
       struct BinaryArray pinned_domain_cert = {};
-      uint8_t inbuf[MAX_STDIN_SIZE];
+      uint8_t inbuf[MAX_STDIN_SIZE + 1];
       if (in_filename.empty()) {
         log_error("No input registrar certificate file");
         return EXIT_FAILURE;
-- 
2.43.0


From 90d3ac84a70f1a2951e6ee27fc68d37b3ae09652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 15/56] fix: report a server that can't listen and free a
 failed server once

---
 src/brski/http/httplib_wrapper.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index ee56be0..5c2caa3 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -225,10 +225,16 @@ int httplib_start(struct http_config *config,
     log_info("Starting the HTTPS server at %s:%d", config->bind_address,
              config->port);
 
-    server->listen(config->bind_address, config->port);
+    if (!server->listen(config->bind_address, config->port)) {
+      log_error("httplib::SSLServer::listen() fail");
+      httplib_stop(*srv_ctx);
+      *srv_ctx = nullptr;
+      return -1;
+    }
   } catch (...) {
     log_error("httplib::SSLServer() fail");
-    httplib_stop(srv_ctx);
+    httplib_stop(*srv_ctx);
+    *srv_ctx = nullptr;
     return -1;
   }
 
-- 
2.43.0


From ce35fdbc89a887f5c15203e3f8ee15a8832d7507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 16/56] fix: read the local time without the static buffer of
 localtime

Parallel requests overwrote each other's time.
---
 src/utils/os.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/utils/os.c b/src/utils/os.c
index 59e1639..858d44b 100644
--- a/src/utils/os.c
+++ b/src/utils/os.c
@@ -94,7 +94,6 @@ size_t sys_strnlen_s(const char *const str, const size_t max_len) {
 
 int get_localtime(struct tm *current) {
   time_t ltime;
-  struct tm *newtime;
 
   if (current == NULL) {
     log_error("current is NULL");
@@ -102,11 +101,10 @@ int get_localtime(struct tm *current) {
   }
 
   time(&ltime);
-  if ((newtime = localtime(&ltime)) == NULL) {
-    log_errno("localtime");
+  if (localtime_r(&ltime, current) == NULL) {
+    log_errno("localtime_r");
     return -1;
   }
-  sys_memcpy(current, newtime, sizeof(struct tm));
 
   return 0;
 }
-- 
2.43.0


From 813ee930b0be09d7fb92e1ea4af53109f2796269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 17/56] fix: don't unlink a list element that was never linked

A failed allocation in push_array_list or push_keyvalue_list crashed.
---
 src/voucher/array.c    | 4 +++-
 src/voucher/keyvalue.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/voucher/array.c b/src/voucher/array.c
index 219b92e..fdc36e9 100644
--- a/src/voucher/array.c
+++ b/src/voucher/array.c
@@ -34,7 +34,9 @@ static void free_array_list_el(struct BinaryArrayList *el) {
     if (el->arr != NULL) {
       sys_free(el->arr);
     }
-    dl_list_del(&el->list);
+    if (el->list.next != NULL) {
+      dl_list_del(&el->list);
+    }
     sys_free(el);
   }
 }
diff --git a/src/voucher/keyvalue.c b/src/voucher/keyvalue.c
index 0793024..44ecc56 100644
--- a/src/voucher/keyvalue.c
+++ b/src/voucher/keyvalue.c
@@ -45,7 +45,9 @@ static void free_keyvalue_list_el(struct keyvalue_list *el) {
     if (el->value != NULL) {
       sys_free(el->value);
     }
-    dl_list_del(&el->list);
+    if (el->list.next != NULL) {
+      dl_list_del(&el->list);
+    }
     sys_free(el);
   }
 }
-- 
2.43.0


From 9ad05788101ae4dd3422bc929a73569432c75bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 18/56] fix: refuse trailing garbage after a time

---
 src/voucher/serialize.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index 8bd3177..caf81a8 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -478,7 +478,8 @@ int serialize_str2time(const char *str, const struct tm *tm) {
 
   sys_memset((void *)tm, 0, sizeof(struct tm));
 
-  if (strptime(str, "%Y-%m-%dT%H:%M:%SZ", (struct tm *)tm) == NULL) {
+  const char *end = strptime(str, "%Y-%m-%dT%H:%M:%SZ", (struct tm *)tm);
+  if (end == NULL || *end != '\0') {
     log_error("strptime fail");
     return -1;
   }
-- 
2.43.0


From 9fa41edeea57af9cc8417ac82b22ee6a8c3d7409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 19/56] fix: report a failure to write a certificate, key or
 CMS file

Write errors of the last buffer were ignored and a truncated file reported as
success.
---
 src/voucher/crypto_ossl.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index bd3845d..9bf58ce 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -166,6 +166,13 @@ int cmsbuf_to_file(const struct BinaryArray *cms, const char *filename) {
     return -1;
   }
 
+  if (BIO_flush(out) < 1) {
+    log_errno("Couldn't write %s file.", filename);
+    BIO_free(out);
+    CMS_ContentInfo_free(content);
+    return -1;
+  }
+
   BIO_free(out);
   CMS_ContentInfo_free(content);
   return 0;
@@ -195,7 +202,12 @@ int certbuf_to_file(const struct BinaryArray *cert, const char *filename) {
     return -1;
   }
 
-  fclose(fp);
+  if (fclose(fp) != 0) {
+    log_errno("Couldn't write %s file.", filename);
+    X509_free(x509);
+    return -1;
+  }
+
   X509_free(x509);
   return 0;
 }
@@ -224,7 +236,12 @@ int keybuf_to_file(const struct BinaryArray *key, const char *filename) {
     return -1;
   }
 
-  fclose(fp);
+  if (fclose(fp) != 0) {
+    log_errno("Couldn't write %s file.", filename);
+    EVP_PKEY_free(pkey);
+    return -1;
+  }
+
   EVP_PKEY_free(pkey);
   return 0;
 }
-- 
2.43.0


From 8a82ee453b2588a9d94ac865d1d54ae5d6016327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 20/56] fix: don't write before an empty destination in
 sys_strlcpy

---
 src/utils/os.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/os.c b/src/utils/os.c
index 858d44b..f3105d2 100644
--- a/src/utils/os.c
+++ b/src/utils/os.c
@@ -70,6 +70,10 @@ char *sys_strndup(const char *const s, const size_t length) {
 char *sys_strdup(const char *const s) { return sys_strndup(s, strlen(s)); }
 
 size_t sys_strlcpy(char *const dest, const char *const src, const size_t siz) {
+  if (siz == 0) {
+    return strlen(src);
+  }
+
   /* Copy string up to the maximum size of the dest buffer */
   const char *char_after_NUL = sys_memccpy(dest, src, '\0', siz);
 
-- 
2.43.0


From 0632a3c2cc8b9018c9d3afc31170562cd9a9a6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 21/56] fix: keep the last digit of the generated pledge serial
 number

---
 src/brski/pledge/pledge_request.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 7b09231..8234b26 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -242,7 +242,7 @@ int generate_sign_cert(struct BinaryArray *scert_cert,
     return -1;
   }
 
-  printf_hex(rands, 16, rand, 8, 1);
+  printf_hex(rands, sizeof(rands), rand, 8, 1);
 
   if ((sign_cert_meta.issuer = init_keyvalue_list()) == NULL) {
     log_error("init_keyvalue_list fail");
-- 
2.43.0


From 5ec3adfbdc698bb2a1a534557929ddd5774b5df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 22/56] fix: refuse a missing time value

---
 src/voucher/voucher.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 6f8a77d..3caf701 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -115,6 +115,11 @@ int set_attr_time_voucher(struct Voucher *voucher,
     return -1;
   }
 
+  if (value == NULL) {
+    log_error("value param is NULL");
+    return -1;
+  }
+
   switch (attr) {
     case ATTR_CREATED_ON:
       sys_memcpy(&voucher->created_on, value, sizeof(struct tm));
-- 
2.43.0


From 4aeae32e622bfb7a9adfa5fb6e9a2dbcaccb1afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 23/56] fix: answer with the MASA response only when the MASA
 succeeded

---
 src/brski/registrar/registrar_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 006cb0e..469f4c8 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -118,7 +118,7 @@ int post_voucher_request(struct BinaryArray *voucher_request_cms,
     return -1;
   }
 
-  if (status >= 400) {
+  if (status < 200 || status >= 300) {
     log_error("https_post_request failed with HTTP code %d and "
               "response: '%s'",
               status, http_res.response.c_str());
-- 
2.43.0


From 2ebae9dcd9a53838a908094000f7d7da6c0235ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 24/56] fix: report a missing registrar tls key or MASA address

---
 src/brski/registrar/registrar_api.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 469f4c8..1251448 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -149,6 +149,11 @@ int registrar_requestvoucher(const RequestHeader &request_header,
   log_trace("registrar_requestvoucher: %p", peer_certificate);
   response_header["Content-Type"] = "application/voucher-cms+json";
 
+  if (rconf->tls_key_path == nullptr || mconf->bind_address == nullptr) {
+    log_error("the registrar tls key path or the MASA address is missing");
+    return 500;
+  }
+
   struct CrypoCertMeta : public crypto_cert_meta {
     CrypoCertMeta() {
       this->issuer = init_keyvalue_list();
-- 
2.43.0


From c5661d4e137d3300d93c889a762a054a65c6e5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 25/56] fix: log every enrolment on one line of its own

---
 src/brski/registrar/registrar_api.cpp | 69 ++++++++++++++-------------
 1 file changed, 35 insertions(+), 34 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 1251448..84432d1 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -30,57 +30,58 @@ extern "C" {
 
 void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   struct crypto_cert_meta imeta = {};
-  imeta.issuer = init_keyvalue_list();
-  imeta.subject = init_keyvalue_list();
+  struct crypto_cert_meta lmeta = {};
+  char *iserial = NULL;
+  char *lserial = NULL;
 
   log_trace("Saving the log");
 
-  if (imeta.issuer == NULL || imeta.subject == NULL) {
+  imeta.issuer = init_keyvalue_list();
+  imeta.subject = init_keyvalue_list();
+  lmeta.issuer = init_keyvalue_list();
+  lmeta.subject = init_keyvalue_list();
+
+  if (imeta.issuer == NULL || imeta.subject == NULL || lmeta.issuer == NULL ||
+      lmeta.subject == NULL) {
     log_error("error allocation metadata");
-    return;
+    goto save_to_log_exit;
   }
 
+  /* The issuance is logged even when a name of a certificate can't be read */
   if (crypto_getcert_meta(icert, &imeta) < 0) {
     log_error("crypto_getcert_meta fail");
-    free_keyvalue_list(imeta.issuer);
-    free_keyvalue_list(imeta.subject);
-    return;
-  }
-
-  char *iserial = crypto_getcert_serial(&imeta);
-
-  struct crypto_cert_meta lmeta = {};
-  lmeta.issuer = init_keyvalue_list();
-  lmeta.subject = init_keyvalue_list();
-
-  if (lmeta.issuer == NULL || lmeta.subject == NULL) {
-    log_error("error allocation metadata");
-    free_keyvalue_list(imeta.issuer);
-    free_keyvalue_list(imeta.subject);
-    return;
   }
 
   if (crypto_getcert_meta(lcert, &lmeta) < 0) {
     log_error("crypto_getcert_meta fail");
-    free_keyvalue_list(imeta.issuer);
-    free_keyvalue_list(imeta.subject);
-    free_keyvalue_list(lmeta.issuer);
-    free_keyvalue_list(lmeta.subject);
-    return;
   }
 
-  char *lserial = crypto_getcert_serial(&lmeta);
+  /* A serial number is text chosen by the client, escape it so that it can't
+   * end the line or the field */
+  iserial = crypto_getcert_serial(&imeta);
+  iserial = serialize_escapestr((iserial != NULL) ? iserial : "NULL");
+  lserial = crypto_getcert_serial(&lmeta);
+  lserial = serialize_escapestr((lserial != NULL) ? lserial : "NULL");
+
+  if (iserial == NULL || lserial == NULL) {
+    log_error("serialize_escapestr fail");
+    goto save_to_log_exit;
+  }
 
-  FILE *f = fopen(log_path, "a");
-  if (f != NULL) {
-    fprintf(f, "%lu 0x%" PRIx64 " \"%s\" 0x%" PRIx64 " \"%s\"\n", time(NULL),
-            imeta.serial_number, (iserial != NULL) ? iserial : "NULL",
-            lmeta.serial_number, (lserial != NULL) ? lserial : "NULL");
-    fclose(f);
-  } else {
-    log_errno("fopen fail");
+  {
+    FILE *f = fopen(log_path, "a");
+    if (f != NULL) {
+      fprintf(f, "%lu 0x%" PRIx64 " %s 0x%" PRIx64 " %s\n", time(NULL),
+              imeta.serial_number, iserial, lmeta.serial_number, lserial);
+      fclose(f);
+    } else {
+      log_errno("fopen fail");
+    }
   }
 
+save_to_log_exit:
+  sys_free(iserial);
+  sys_free(lserial);
   free_keyvalue_list(imeta.issuer);
   free_keyvalue_list(imeta.subject);
   free_keyvalue_list(lmeta.issuer);
-- 
2.43.0


From aa4e39087f9428f9c9e02a630b726ff8ea2ab587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 26/56] fix: load every value of a repeated certificate list
 setting

---
 src/brski/config.c | 69 ++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/src/brski/config.c b/src/brski/config.c
index 75d492d..eb48620 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -17,6 +17,7 @@
 #include <fcntl.h>
 #include <minIni.h>
 #include <string.h>
+#include <strings.h>
 #include <unistd.h>
 
 #include "config.h"
@@ -31,52 +32,54 @@
 #define TIME_ISO_STR_SIZE sizeof("9999-12-31T24:59:59Z") + 1
 #define MAX_CONFIG_VALUE_SIZE 2048
 
+struct config_value_list {
+  const char *section;
+  const char *key;
+  struct BinaryArrayList *values;
+  bool failed;
+};
+
+static int push_config_value(const char *section, const char *key,
+                             const char *value, void *user_data) {
+  struct config_value_list *list = (struct config_value_list *)user_data;
+
+  if (strcasecmp(section, list->section) == 0 && strcmp(key, list->key) == 0 &&
+      strlen(value)) {
+    if (push_array_list(list->values, (uint8_t *const)value, strlen(value) + 1,
+                        0) < 0) {
+      log_error("push_array_list fail");
+      list->failed = true;
+      return 0;
+    }
+  }
+
+  return 1;
+}
+
 int load_config_value_list(const char *section, const char *key,
                            const char *filename,
                            struct BinaryArrayList **value_list) {
   *value_list = NULL;
-  int idx = 0;
 
-  char *store = NULL;
-  if ((store = sys_zalloc(MAX_CONFIG_VALUE_SIZE)) == NULL) {
-    log_errno("sys_zalloc");
-    return -1;
-  }
+  struct config_value_list list = {.section = section,
+                                   .key = key,
+                                   .values = init_array_list(),
+                                   .failed = false};
 
-  if ((*value_list = init_array_list()) == NULL) {
+  if (list.values == NULL) {
     log_error("init_array_list fail");
-    sys_free(store);
     return -1;
   }
 
-  while (ini_getkey(section, idx++, store, MAX_CONFIG_VALUE_SIZE, filename) >
-         0) {
-    char *value = NULL;
-    if ((value = sys_zalloc(MAX_CONFIG_VALUE_SIZE)) == NULL) {
-      log_errno("sys_zalloc");
-      sys_free(store);
-      free_array_list(*value_list);
-      *value_list = NULL;
-      return -1;
-    }
+  /* ini_gets only returns the first of the values that share a key */
+  ini_browse(push_config_value, &list, filename);
 
-    ini_gets(section, store, "", value, INI_BUFFERSIZE, filename);
-
-    if (strcmp(store, key) == 0 && strlen(value)) {
-      if (push_array_list(*value_list, (uint8_t *const)value, strlen(value) + 1,
-                          0) < 0) {
-        sys_free(value);
-        sys_free(store);
-        free_array_list(*value_list);
-        *value_list = NULL;
-        return -1;
-      }
-    }
-
-    sys_free(value);
+  if (list.failed) {
+    free_array_list(list.values);
+    return -1;
   }
 
-  sys_free(store);
+  *value_list = list.values;
   return 0;
 }
 
-- 
2.43.0


From 31bbcbe0d7bd2c2ec989a0f7500870fc89d06b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 27/56] fix: keep an existing file when the certificate or key
 to save is unusable

---
 src/voucher/crypto_ossl.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 9bf58ce..0eb5521 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -179,10 +179,8 @@ int cmsbuf_to_file(const struct BinaryArray *cms, const char *filename) {
 }
 
 int certbuf_to_file(const struct BinaryArray *cert, const char *filename) {
-  FILE *fp = fopen(filename, "wb");
-
-  if (fp == NULL) {
-    log_errno("Couldn't open %s file.", filename);
+  if (cert == NULL) {
+    log_error("cert is NULL");
     return -1;
   }
 
@@ -190,7 +188,15 @@ int certbuf_to_file(const struct BinaryArray *cert, const char *filename) {
 
   if (x509 == NULL) {
     log_error("crypto_cert2context fail");
-    fclose(fp);
+    return -1;
+  }
+
+  /* Open only now, to keep an existing file when the input is unusable */
+  FILE *fp = fopen(filename, "wb");
+
+  if (fp == NULL) {
+    log_errno("Couldn't open %s file.", filename);
+    X509_free(x509);
     return -1;
   }
 
@@ -213,10 +219,8 @@ int certbuf_to_file(const struct BinaryArray *cert, const char *filename) {
 }
 
 int keybuf_to_file(const struct BinaryArray *key, const char *filename) {
-  FILE *fp = fopen(filename, "wb");
-
-  if (fp == NULL) {
-    log_errno("Couldn't open %s file.", filename);
+  if (key == NULL) {
+    log_error("key is NULL");
     return -1;
   }
 
@@ -224,7 +228,15 @@ int keybuf_to_file(const struct BinaryArray *key, const char *filename) {
 
   if (pkey == NULL) {
     log_error("crypto_key2context fail");
-    fclose(fp);
+    return -1;
+  }
+
+  /* Open only now, to keep an existing file when the input is unusable */
+  FILE *fp = fopen(filename, "wb");
+
+  if (fp == NULL) {
+    log_errno("Couldn't open %s file.", filename);
+    EVP_PKEY_free(pkey);
     return -1;
   }
 
-- 
2.43.0


From 8c7e6b8c256765246c827d875a073fddc0c43a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 28/56] fix: report a signed voucher file that lost a write

---
 src/voucher/crypto_ossl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 0eb5521..89c1316 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -166,7 +166,9 @@ int cmsbuf_to_file(const struct BinaryArray *cms, const char *filename) {
     return -1;
   }
 
-  if (BIO_flush(out) < 1) {
+  /* SMIME_write_CMS doesn't report all failed writes */
+  FILE *fp = NULL;
+  if (BIO_flush(out) < 1 || BIO_get_fp(out, &fp) < 1 || ferror(fp)) {
     log_errno("Couldn't write %s file.", filename);
     BIO_free(out);
     CMS_ContentInfo_free(content);
-- 
2.43.0


From 584284a48a585c0efce83dea7055bf11a49bd8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 29/56] fix: check the certificate pointer before clearing it
 and free a certificate without key

---
 src/voucher/crypto_ossl.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 89c1316..46f1834 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1009,8 +1009,6 @@ static int sign_sha256_certificate(X509 *x509, const EVP_PKEY *pkey) {
 ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
                                const uint8_t *key, const size_t key_length,
                                uint8_t **cert) {
-  *cert = NULL;
-
   if (meta == NULL) {
     log_error("met param is NULL");
     return -1;
@@ -1026,6 +1024,8 @@ ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
     return -1;
   }
 
+  *cert = NULL;
+
   X509 *x509 = X509_new();
 
   if (x509 == NULL) {
@@ -1049,6 +1049,8 @@ ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
   if (!X509_set_pubkey(x509, (EVP_PKEY *)pkey)) {
     log_error("X509_set_pubkey fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
+    EVP_PKEY_free(pkey);
+    X509_free(x509);
     return -1;
   }
 
@@ -1073,8 +1075,6 @@ ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
 ssize_t crypto_generate_rsacert(const struct crypto_cert_meta *meta,
                                 const uint8_t *key, const size_t key_length,
                                 uint8_t **cert) {
-  *cert = NULL;
-
   if (meta == NULL) {
     log_error("met aparam is NULL");
     return -1;
@@ -1090,6 +1090,8 @@ ssize_t crypto_generate_rsacert(const struct crypto_cert_meta *meta,
     return -1;
   }
 
+  *cert = NULL;
+
   X509 *x509 = X509_new();
 
   if (x509 == NULL) {
@@ -1113,6 +1115,8 @@ ssize_t crypto_generate_rsacert(const struct crypto_cert_meta *meta,
   if (!X509_set_pubkey(x509, (EVP_PKEY *)pkey)) {
     log_error("X509_set_pubkey fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
+    EVP_PKEY_free(pkey);
+    X509_free(x509);
     return -1;
   }
 
-- 
2.43.0


From ddba661f32944e1f73211383896941c4ace493b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 30/56] fix: recognise negative results of the OpenSSL key
 generation functions as failure

---
 src/voucher/crypto_ossl.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 46f1834..a14e27a 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -467,7 +467,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
     return NULL;
   }
 
-  if (!EVP_PKEY_keygen_init(ctx)) {
+  if (EVP_PKEY_keygen_init(ctx) < 1) {
     log_error("EVP_PKEY_keygen_init fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -475,7 +475,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
     return NULL;
   }
 
-  if (!EVP_PKEY_CTX_set_rsa_keygen_bits(ctx, bits)) {
+  if (EVP_PKEY_CTX_set_rsa_keygen_bits(ctx, bits) < 1) {
     log_error("EVP_PKEY_CTX_set_rsa_keygen_bits fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -483,7 +483,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
     return NULL;
   }
 
-  if (!EVP_PKEY_keygen(ctx, &pkey)) {
+  if (EVP_PKEY_keygen(ctx, &pkey) < 1) {
     log_error("EVP_PKEY_keygen fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -523,21 +523,21 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
     return -1;
   }
 
-  if (!EVP_PKEY_paramgen_init(ctx)) {
+  if (EVP_PKEY_paramgen_init(ctx) < 1) {
     log_error("EVP_PKEY_paramgen_init fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
-  if (!EVP_PKEY_CTX_set_ec_paramgen_curve_nid(ctx, NID_X9_62_prime256v1)) {
+  if (EVP_PKEY_CTX_set_ec_paramgen_curve_nid(ctx, NID_X9_62_prime256v1) < 1) {
     log_error("EVP_PKEY_CTX_set_ec_paramgen_curve_nid fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
-  if (!EVP_PKEY_paramgen(ctx, &params)) {
+  if (EVP_PKEY_paramgen(ctx, &params) < 1) {
     log_error("EVP_PKEY_paramgen fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -555,14 +555,14 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
 
   EVP_PKEY_free(params);
 
-  if (!EVP_PKEY_keygen_init(ctx)) {
+  if (EVP_PKEY_keygen_init(ctx) < 1) {
     log_error("EVP_PKEY_keygen_init fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
-  if (!EVP_PKEY_keygen(ctx, &pkey)) {
+  if (EVP_PKEY_keygen(ctx, &pkey) < 1) {
     log_error("EVP_PKEY_keygen fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
-- 
2.43.0


From ef065f88840828ae42b5096fdddedfc40a220a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 31/56] fix: take certificate names as UTF-8, as they are read
 back

---
 src/voucher/crypto_ossl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index a14e27a..90ae27c 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -872,7 +872,7 @@ static X509_NAME *add_x509name_keyvalues(struct keyvalue_list *pairs) {
       return NULL;
     }
 
-    if (!X509_NAME_add_entry_by_txt(name, el->key, MBSTRING_ASC,
+    if (!X509_NAME_add_entry_by_txt(name, el->key, MBSTRING_UTF8,
                                     (unsigned char *)el->value, -1, -1, 0)) {
       log_error("X509_NAME_add_entry_by_txt code=%s",
                 ERR_error_string(ERR_get_error(), NULL));
-- 
2.43.0


From e375a6db5ac3f639a5d7867a75aaa91709f670b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 32/56] fix: check the allocation of an absolute certificate
 end time

---
 src/voucher/crypto_ossl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 90ae27c..4e8e2d7 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -909,6 +909,11 @@ static int set_certificate_meta(X509 *x509,
       return -1;
     }
     ASN1_TIME *notAfter = ASN1_TIME_set(NULL, 0);
+    if (notAfter == NULL) {
+      log_error("ASN1_TIME_set fail");
+      return -1;
+    }
+
     if (ASN1_TIME_set_string(notAfter, meta->not_after_absolute) != 1) {
       log_error("ASN1_TIME_set_string failed to set string %s",
                 meta->not_after_absolute);
-- 
2.43.0


From adaee3a116f2a2aa7ee40df4ed82c13531f974f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 33/56] fix: don't drop or leak a certificate that couldn't be
 added to a stack or store

---
 src/voucher/crypto_ossl.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 4e8e2d7..d8cd06f 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1243,7 +1243,13 @@ static STACK_OF(X509) *
       sk_X509_pop_free(cert_stack, X509_free);
       return NULL;
     }
-    sk_X509_push(cert_stack, x509);
+    if (sk_X509_push(cert_stack, x509) < 1) {
+      log_error("sk_X509_push fail with code=%s",
+                ERR_error_string(ERR_get_error(), NULL));
+      X509_free(x509);
+      sk_X509_pop_free(cert_stack, X509_free);
+      return NULL;
+    }
   }
 
   return cert_stack;
@@ -1304,6 +1310,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
       if (!X509_STORE_add_cert(x509_store, x509)) {
         log_error("X509_STORE_add_cert fail with code=%s",
                   ERR_error_string(ERR_get_error(), NULL));
+        X509_free(x509);
         free_x509_store(x509_store, *x509_store_list);
         return NULL;
       }
@@ -1320,6 +1327,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
       if (!X509_STORE_add_crl(x509_store, x509_crl)) {
         log_error("X509_STORE_add_crl fail with code=%s",
                   ERR_error_string(ERR_get_error(), NULL));
+        X509_CRL_free(x509_crl);
         free_x509_store(x509_store, *x509_store_list);
         return NULL;
       }
@@ -1336,6 +1344,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
     }
     if (push_ptr_list(*x509_store_list, ptr, el->flags) < 0) {
       log_error("push_ptr_list fail");
+      free_x509_store_cert(ptr, el->flags);
       free_x509_store(x509_store, *x509_store_list);
       return NULL;
     }
-- 
2.43.0


From 896b623b9924b6e1b06fe5de737765d1f7216594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 34/56] fix: hand out either the voucher with its signers or
 nothing

---
 src/voucher/crypto_ossl.c | 7 ++++++-
 src/voucher/voucher.c     | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index d8cd06f..9e86c51 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1656,7 +1656,10 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
   STACK_OF(X509) *signers = CMS_get0_signers(cms);
 
   if (signers == NULL) {
-    return 0;
+    /* A verified message has signers, thus they couldn't be collected */
+    log_error("CMS_get0_signers fail with code=%s",
+              ERR_error_string(ERR_get_error(), NULL));
+    return -1;
   }
 
   int length = sk_X509_num(signers);
@@ -1767,6 +1770,8 @@ ssize_t crypto_verify_cms(const struct BinaryArray *cms,
     *out_certs = NULL;
     if (exatract_cms_certs(content, out_certs) < 0) {
       log_error("exatract_cms_certs fail");
+      sys_free(*data);
+      *data = NULL;
       goto crypto_verify_cms_fail;
     }
   }
diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 3caf701..0572665 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -1103,6 +1103,10 @@ struct Voucher *verify_cms_voucher(const struct BinaryArray *cms,
   if (voucher == NULL) {
     log_error("deserialize_voucher fail");
     sys_free(data);
+    if (out_certs != NULL) {
+      free_array_list(*out_certs);
+      *out_certs = NULL;
+    }
     return NULL;
   }
 
-- 
2.43.0


From 6cf9a61719f4fa7d772e9c480822564f7cab62a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 35/56] fix: notice a failed certificate encoding and an
 incomplete write of the signed data

---
 src/voucher/crypto_ossl.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 9e86c51..c946738 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -634,12 +634,12 @@ CRYPTO_CERT crypto_cert2context(const uint8_t *cert, const size_t length) {
 CRYPTO_CERT crypto_copycert(CRYPTO_CERT cert) {
   X509 *x509;
   uint8_t *buf = NULL;
-  size_t length;
+  ssize_t length;
 
   if (cert == NULL)
     return NULL;
 
-  if ((length = cert_to_derbuf(cert, &buf)) == 0)
+  if ((length = cert_to_derbuf(cert, &buf)) < 0)
     return NULL;
 
   x509 = crypto_cert2context(buf, length);
@@ -1459,7 +1459,7 @@ static ssize_t sign_withkey_cms(const uint8_t *data, const size_t data_length,
     return -1;
   }
 
-  if (BIO_write(mem_data, data, data_length) < 0) {
+  if (BIO_write(mem_data, data, (int)data_length) != (int)data_length) {
     log_error("BIO_write fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     BIO_free(mem_data);
-- 
2.43.0


From a3486deafc7b2f6a63b86c3c94571ca1b8b76849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:49 +0000
Subject: [PATCH 36/56] fix: release the signers and the pinned certificate
 when a voucher is refused

---
 src/voucher/request.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index ff35e2c..80a41dd 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -544,22 +544,14 @@ int verify_masa_pledge_voucher(
      * pinned-domain-cert trust anchor from the voucher, then the TLS connection
      * is discarded, and the pledge abandons attempts to bootstrap with this
      * discovered registrar.*/
-    struct BinaryArray cert_copy = {0};
-    if (copy_binary_array(&cert_copy, masa_pinned_domain_cert) < 0) {
-      log_error("copy_binary_array fail");
-      goto verify_masa_pledge_voucher_fail;
-    }
-
     struct BinaryArrayList *intermediate_certs = init_array_list();
-    if (push_array_list(intermediate_certs, cert_copy.array, cert_copy.length,
-                        0) < 0) {
+    if (push_array_list(intermediate_certs, masa_pinned_domain_cert->array,
+                        masa_pinned_domain_cert->length, 0) < 0) {
       log_error("push_array_list fail");
       free_array_list(intermediate_certs);
       goto verify_masa_pledge_voucher_fail;
     }
 
-    free_binary_array_content(&cert_copy);
-
     if (crypto_verify_cert(registrar_tls_cert->array,
                            registrar_tls_cert->length, intermediate_certs,
                            NULL) < 0) {
@@ -592,6 +584,10 @@ int verify_masa_pledge_voucher(
   return 0;
 
 verify_masa_pledge_voucher_fail:
+  if (pledge_out_certs != NULL) {
+    free_array_list(*pledge_out_certs);
+    *pledge_out_certs = NULL;
+  }
   free_voucher(masa_pledge_voucher);
   return -1;
 }
-- 
2.43.0


From f11319cbe708ca6c81a846d480783188b9420b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:49 +0000
Subject: [PATCH 37/56] fix: refuse a config whose lists could not be read

---
 src/brski/config.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/brski/config.c b/src/brski/config.c
index eb48620..1d558c5 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -72,7 +72,10 @@ int load_config_value_list(const char *section, const char *key,
   }
 
   /* ini_gets only returns the first of the values that share a key */
-  ini_browse(push_config_value, &list, filename);
+  if (!ini_browse(push_config_value, &list, filename)) {
+    log_error("ini_browse fail");
+    list.failed = true;
+  }
 
   if (list.failed) {
     free_array_list(list.values);
-- 
2.43.0


From 3bae724551ded3b60ca3336c624ad3be3b846a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:37 +0000
Subject: [PATCH 38/56] fix: release the issuer list when there's no memory for
 the subject list

---
 src/brski/registrar/registrar_api.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 84432d1..6720e63 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -160,6 +160,9 @@ int registrar_requestvoucher(const RequestHeader &request_header,
       this->issuer = init_keyvalue_list();
       this->subject = init_keyvalue_list();
       if (this->issuer == nullptr || this->subject == nullptr) {
+        // the destructor isn't run when the constructor throws
+        free_keyvalue_list(this->issuer);
+        free_keyvalue_list(this->subject);
         throw std::bad_alloc();
       }
     }
-- 
2.43.0


From 26deee59c1551bac3db4285d92c3d218f67be9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 39/56] fix: take only 2xx answers of the registrar as success
 in the pledge

---
 src/brski/pledge/pledge_request.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 8234b26..270af61 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -157,7 +157,7 @@ int post_voucher_pledge_request(struct pledge_config *pconf,
     return -1;
   }
 
-  if (status >= 400) {
+  if (status < 200 || status >= 300) {
     log_error("post_voucher_pledge_request failed with HTTP code %d and "
               "response: '%s'",
               status, http_res.response.c_str());
@@ -350,7 +350,7 @@ int post_sign_cert(struct pledge_config *pconf, struct registrar_config *rconf,
     goto post_sign_cert_err;
   }
 
-  if (status >= 400) {
+  if (status < 200 || status >= 300) {
     log_error("post_voucher_pledge_request_ca failed with HTTP code %d and "
               "response: '%s'",
               status, response.c_str());
-- 
2.43.0


From 08b4492a93c94ae819fc8af6a674193fa05916bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:22 +0000
Subject: [PATCH 40/56] fix: refuse an enrolment response that isn't a
 certificate

---
 src/brski/pledge/pledge_request.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 270af61..d8d6598 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -310,6 +310,7 @@ int post_sign_cert(struct pledge_config *pconf, struct registrar_config *rconf,
   std::string path = PATH_EST_SIMPLEENROLL;
   std::string content_type = "application/voucher-cms+json";
   std::string registrar_ca_cert;
+  CRYPTO_CERT issued;
   ssize_t length;
 
   if (generate_sign_cert(out_cert, out_key) < 0) {
@@ -367,6 +368,13 @@ int post_sign_cert(struct pledge_config *pconf, struct registrar_config *rconf,
   }
   out_cert->length = length;
 
+  issued = crypto_cert2context(out_cert->array, out_cert->length);
+  if (issued == NULL) {
+    log_error("the enrolment response is not a certificate");
+    goto post_sign_cert_err;
+  }
+  crypto_free_certcontext(issued);
+
   free_binary_array_content(&pinned_domain_cert);
   return 0;
 
-- 
2.43.0


From b67163fea47e406051dd582bd5ecbe556577a7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 41/56] fix: draw the serial numbers of pledges' certificates
 from the random generator

---
 src/brski/pledge/pledge_request.cpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index d8d6598..f2b9402 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -210,26 +210,18 @@ std::string create_cert_string(const char *cert) {
   return out;
 }
 
-uint64_t gen_rand64(void) {
-  uint64_t value = 0x0;
-
-  srand(time(0));
-
-  for (int i = 0; i < 64; i += 15) {
-    value = value * ((uint64_t)RAND_MAX + 1) + rand();
-  }
-  return value;
-}
-
 int generate_sign_cert(struct BinaryArray *scert_cert,
                        struct BinaryArray *scert_key) {
   ssize_t length;
   uint8_t rand[8];
   char rands[17];
   struct BinaryArray buf = {.array = rand, .length = 8};
+  uint64_t serial_number = 0;
+  struct BinaryArray serial_buf = {.array = (uint8_t *)&serial_number,
+                                   .length = sizeof(serial_number)};
 
   struct crypto_cert_meta sign_cert_meta = {
-      .serial_number = gen_rand64(),
+      .serial_number = 0,
       .not_before = 0,
       // Long-lived pledge certificate
       .not_after_absolute = (char *)"99991231235959Z",
@@ -237,11 +229,13 @@ int generate_sign_cert(struct BinaryArray *scert_cert,
       .subject = NULL,
       .basic_constraints = (char *)"CA:false"};
 
-  if (crypto_getrand(&buf) < 0) {
+  if (crypto_getrand(&buf) < 0 || crypto_getrand(&serial_buf) < 0) {
     log_error("crypto_getrand fail");
     return -1;
   }
 
+  sign_cert_meta.serial_number = serial_number;
+
   printf_hex(rands, sizeof(rands), rand, 8, 1);
 
   if ((sign_cert_meta.issuer = init_keyvalue_list()) == NULL) {
-- 
2.43.0


From 9da05d329899720cbf8cc3bbc49f7bb1a32a4017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 42/56] fix: terminate the program name before it's cut

---
 src/brski/brski.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index f161c47..6ce16a8 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -86,6 +86,7 @@ static void show_version(void) {
 static void show_help(const char *name) {
   const std::string string_name(name);
   std::vector<char> basename_buffer(string_name.begin(), string_name.end());
+  basename_buffer.push_back('\0');
 
   show_version();
   std::fprintf(stdout, "Usage:\n");
-- 
2.43.0


From e0a4c046183a6dc5a0eb4544000e37260946ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 43/56] fix: don't cut the names of output files

---
 src/brski/brski.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 6ce16a8..faba2c0 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -240,8 +240,6 @@ int read_stdin(uint8_t buf[]) {
 
 int output_domain_cert(struct BinaryArray *pinned_domain_cert,
                        std::string &out_filename) {
-  char outf[255];
-
   if (out_filename.empty()) {
     char *cert_str = NULL;
     if (serialize_array2base64str(pinned_domain_cert->array,
@@ -253,8 +251,8 @@ int output_domain_cert(struct BinaryArray *pinned_domain_cert,
     print_cert(cert_str, 0);
     sys_free(cert_str);
   } else {
-    snprintf(outf, 255, "%s.crt", out_filename.c_str());
-    if (certbuf_to_file(pinned_domain_cert, outf) < 0) {
+    std::string outf = out_filename + ".crt";
+    if (certbuf_to_file(pinned_domain_cert, outf.c_str()) < 0) {
       log_error("certbuf_to_file fail");
       return -1;
     }
@@ -269,7 +267,7 @@ int main(int argc, char *argv[]) {
   std::string config_filename, in_filename, out_filename;
   std::string address;
   CommandId command_id;
-  char outf[255];
+  std::string outf;
 
   process_options(argc, argv, verbose, config_filename, in_filename,
                   out_filename, &port, address, command_id);
@@ -332,10 +330,10 @@ int main(int argc, char *argv[]) {
         sys_free(base64);
         free_binary_array(tls_cert);
       } else {
-        snprintf(outf, 255, "%s.smime", out_filename.c_str());
+        outf = out_filename + ".smime";
 
-        if (voucher_pledge_request_to_smimefile(&config.pconf, tls_cert, outf) <
-            0) {
+        if (voucher_pledge_request_to_smimefile(&config.pconf, tls_cert,
+                                                outf.c_str()) < 0) {
           log_error("voucher_pledge_request_to_smimefile fail");
           return EXIT_FAILURE;
         }
@@ -391,13 +389,13 @@ int main(int argc, char *argv[]) {
         print_cert(pki_str, 0);
         sys_free(pki_str);
       } else {
-        snprintf(outf, 255, "%s.crt", out_filename.c_str());
-        if (certbuf_to_file(&out_cert, outf) < 0) {
+        outf = out_filename + ".crt";
+        if (certbuf_to_file(&out_cert, outf.c_str()) < 0) {
           log_error("certbuf_to_file fail");
           return EXIT_FAILURE;
         }
-        snprintf(outf, 255, "%s.key", out_filename.c_str());
-        if (keybuf_to_file(&out_key, outf) < 0) {
+        outf = out_filename + ".key";
+        if (keybuf_to_file(&out_key, outf.c_str()) < 0) {
           log_error("certbuf_to_file fail");
           return EXIT_FAILURE;
         }
-- 
2.43.0


From 83cea6a7c5e0e5893a935cc0a328adbce91aa61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 44/56] fix: refuse a port argument that isn't a port number

---
 src/brski/brski.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index faba2c0..135a8df 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -135,6 +135,20 @@ static CommandId get_command_id(const std::string &command_label) {
   throw std::invalid_argument("Unrecognized command: \"" + command_label + '"');
 }
 
+static bool parse_port(const char *text, unsigned int *port) {
+  char *end = NULL;
+  errno = 0;
+  long value = strtol(text, &end, 10);
+
+  if (errno != 0 || end == text || *end != '\0' || value < 0 ||
+      value > UINT16_MAX) {
+    return false;
+  }
+
+  *port = value;
+  return true;
+}
+
 static void process_options(int argc, char *const argv[], int &verbose,
                             std::string &config_filename,
                             std::string &in_filename, std::string &out_filename,
@@ -160,7 +174,10 @@ static void process_options(int argc, char *const argv[], int &verbose,
         out_filename.assign(optarg);
         break;
       case 'p':
-        *port = strtol(optarg, NULL, 10);
+        if (!parse_port(optarg, port)) {
+          log_cmdline_error("Invalid port number \"%s\"\n", optarg);
+          std::exit(EXIT_FAILURE);
+        }
         break;
       case 'a':
         address.assign(optarg);
-- 
2.43.0


From 318242a0e54a0f965a18b50f4c35c340c6aad13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 45/56] fix: fail when the output couldn't be written

---
 src/brski/brski.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 135a8df..ec1999b 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -539,5 +539,10 @@ int main(int argc, char *argv[]) {
       break;
   }
 
+  if (std::fflush(stdout) != 0 || std::ferror(stdout)) {
+    log_errno("failed to write the output");
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
-- 
2.43.0


From adcba8bb35be725aaf34c52b5276b16717fa914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 46/56] fix: close the open log file when another one is opened

---
 src/utils/log.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/log.c b/src/utils/log.c
index 021e140..be63b48 100644
--- a/src/utils/log.c
+++ b/src/utils/log.c
@@ -139,6 +139,9 @@ int log_open_file(char *path) {
 
   log_set_color(false);
 
+  /* Don't leak a log file that is already open */
+  log_close_file();
+
   m = umask(077);
   L.logfp = fopen(path, "a");
   umask(m);
-- 
2.43.0


From c49fc2162060fa7bcb4a7be622afad2a408b0909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:28 +0000
Subject: [PATCH 47/56] fix: take the paths of routes as plain text

---
 src/brski/http/httplib_wrapper.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index 5c2caa3..a8da6b0 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -49,6 +49,20 @@ void set_response(std::string &response, ResponseHeader &response_header,
   res.status = status_code;
 }
 
+// httplib takes a route's path for a pattern
+std::string get_path_pattern(const std::string &path) {
+  std::string pattern;
+
+  for (char c : path) {
+    if (strchr("^$\\.*+?()[]{}|:", c) != nullptr) {
+      pattern += '\\';
+    }
+    pattern += c;
+  }
+
+  return pattern;
+}
+
 int httplib_register_routes(httplib::SSLServer *server,
                             std::vector<struct RouteTuple> &routes,
                             void *user_ctx) {
@@ -59,6 +73,7 @@ int httplib_register_routes(httplib::SSLServer *server,
 
   for (auto route : routes) {
     log_debug("Registering route=%s", route.path.c_str());
+    route.path = get_path_pattern(route.path);
     switch (route.method) {
       case HTTP_METHOD_GET:
         server->Get(route.path, [=](const httplib::Request &req,
-- 
2.43.0


From 6fb4359da88e4fce3306e89810284a0735d80c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:28 +0000
Subject: [PATCH 48/56] fix: give an error one content type only

---
 src/brski/http/httplib_wrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index a8da6b0..806afc6 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -182,6 +182,7 @@ void set_error_handler(httplib::SSLServer *server) {
           res.body = HTTP_ERROR_REPLY; // set default error response
         }
         // according to BRSKI spec, all errors must be plain text
+        res.headers.erase("Content-Type");
         res.set_header("Content-Type", "text/plain");
       });
 }
-- 
2.43.0


From 553ab47af0b6d675c04c2d64ef011047e4cc67c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:28 +0000
Subject: [PATCH 49/56] fix: answer a failed request with an internal server
 error

---
 src/brski/http/httplib_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index 806afc6..aad13b9 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -200,7 +200,7 @@ void set_exception_handler(httplib::SSLServer *server) {
       snprintf(buf, sizeof(buf), "%s", "Unknown Exception");
     }
     res.set_content(buf, "text/plain");
-    res.status = 505;
+    res.status = 500;
   });
 }
 
-- 
2.43.0


From 1f90650b9ff22ca61544a0739926e187e02646f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:51 +0000
Subject: [PATCH 50/56] fix: don't crash when a server's certificate or key is
 unusable

---
 src/brski/http/httplib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brski/http/httplib.h b/src/brski/http/httplib.h
index a4e7b8f..c29b46e 100644
--- a/src/brski/http/httplib.h
+++ b/src/brski/http/httplib.h
@@ -8913,7 +8913,7 @@ inline SSLServer::SSLServer(const char *cert_path, const char *private_key_path,
           ctx_, SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT, nullptr);
     }
 
-    if (client_ca_cert_file_path == nullptr &&
+    if (ctx_ && client_ca_cert_file_path == nullptr &&
         client_ca_cert_dir_path == nullptr) {
       SSL_CTX_set_verify(ctx_,
                          SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT,
-- 
2.43.0


From 5c0c9ee289d3caaccd92eeee68f0b88d87ffcd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 51/56] fix: trust no other certificates next to a given CA

---
 src/brski/http/httplib.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/brski/http/httplib.h b/src/brski/http/httplib.h
index c29b46e..bd22e9c 100644
--- a/src/brski/http/httplib.h
+++ b/src/brski/http/httplib.h
@@ -9063,6 +9063,9 @@ inline SSLClient::~SSLClient() {
 inline bool SSLClient::is_valid() const { return ctx_; }
 
 inline void SSLClient::set_ca_cert_store(X509_STORE *ca_cert_store) {
+  // The given certificates are trusted instead of the default ones
+  std::call_once(initialize_cert_, []() {});
+
   if (ca_cert_store) {
     if (ctx_) {
       if (SSL_CTX_get_cert_store(ctx_) != ca_cert_store) {
-- 
2.43.0


From fa90950e2d9feddefb91bb3fb01d1c1a753e2e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 52/56] fix: report the certificate of a verified server

---
 src/brski/http/httplib.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/brski/http/httplib.h b/src/brski/http/httplib.h
index bd22e9c..2e81de2 100644
--- a/src/brski/http/httplib.h
+++ b/src/brski/http/httplib.h
@@ -9239,7 +9239,8 @@ inline bool SSLClient::initialize_ssl(Socket &socket, Error &error) {
             error = Error::SSLServerVerification;
             return false;
           }
-          X509_free(server_cert);
+          X509_free(server_cert_);
+          server_cert_ = server_cert;
         } else
           server_cert_ = SSL_get1_peer_certificate(ssl2);
 
-- 
2.43.0


From 62fce8afe83aa81ba72f8dec309afd84b4c15c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 53/56] fix: free the server's certificate when a client
 connects again

---
 src/brski/http/httplib.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/brski/http/httplib.h b/src/brski/http/httplib.h
index 2e81de2..01480c7 100644
--- a/src/brski/http/httplib.h
+++ b/src/brski/http/httplib.h
@@ -9241,8 +9241,10 @@ inline bool SSLClient::initialize_ssl(Socket &socket, Error &error) {
           }
           X509_free(server_cert_);
           server_cert_ = server_cert;
-        } else
+        } else {
+          X509_free(server_cert_);
           server_cert_ = SSL_get1_peer_certificate(ssl2);
+        }
 
         return true;
       },
-- 
2.43.0


From 2b89828272905a91755edebf2dd7648047b3e14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 54/56] fix: don't overflow the stack on a long status line

---
 src/brski/http/httplib.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/brski/http/httplib.h b/src/brski/http/httplib.h
index 01480c7..1e054c2 100644
--- a/src/brski/http/httplib.h
+++ b/src/brski/http/httplib.h
@@ -7296,6 +7296,11 @@ inline bool ClientImpl::read_response_line(Stream &strm, const Request &req,
   const static std::regex re("(HTTP/1\\.[01]) (\\d{3})(?: (.*?))?\r\n");
 #endif
 
+  // The stack needed by the matcher grows with the line
+  if (line_reader.size() > buf.size()) {
+    return false;
+  }
+
   std::cmatch m;
   if (!std::regex_match(line_reader.ptr(), m, re)) {
     return req.method == "CONNECT";
@@ -7313,6 +7318,10 @@ inline bool ClientImpl::read_response_line(Stream &strm, const Request &req,
       return false;
     } // next response line
 
+    if (line_reader.size() > buf.size()) {
+      return false;
+    }
+
     if (!std::regex_match(line_reader.ptr(), m, re)) {
       return false;
     }
-- 
2.43.0


From 5756e0e0e2a4e29529ffec6a1de5ffe5d2a08761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:05 +0000
Subject: [PATCH 55/56] fix: refuse an enrolment response for another key

---
 src/brski/pledge/pledge_request.cpp |  6 ++++++
 src/voucher/crypto.h                | 11 +++++++++++
 src/voucher/crypto_ossl.c           | 29 +++++++++++++++++++++++++++++
 3 files changed, 46 insertions(+)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index f2b9402..2870520 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -367,6 +367,12 @@ int post_sign_cert(struct pledge_config *pconf, struct registrar_config *rconf,
     log_error("the enrolment response is not a certificate");
     goto post_sign_cert_err;
   }
+
+  if (crypto_check_certkey(issued, out_key->array, out_key->length) < 0) {
+    log_error("the enrolment response is not a certificate for our key");
+    crypto_free_certcontext(issued);
+    goto post_sign_cert_err;
+  }
   crypto_free_certcontext(issued);
 
   free_binary_array_content(&pinned_domain_cert);
diff --git a/src/voucher/crypto.h b/src/voucher/crypto.h
index a61e010..685a676 100644
--- a/src/voucher/crypto.h
+++ b/src/voucher/crypto.h
@@ -225,6 +225,17 @@ CRYPTO_KEY crypto_key2context(const uint8_t *key, const size_t length);
  */
 CRYPTO_CERT crypto_cert2context(const uint8_t *cert, const size_t length);
 
+/**
+ * @brief Checks that a private key belongs to a certificate
+ *
+ * @param[in] cert The certificate context
+ * @param[in] key The private key buffer (DER format)
+ * @param[in] length The private key buffer length
+ * @return int 0 if the key belongs to the certificate, -1 otherwise
+ */
+int crypto_check_certkey(CRYPTO_CERT cert, const uint8_t *key,
+                         const size_t length);
+
 /**
  * @brief Generate a certificate and self sign with a Elliptic Curve private key
  * using sha256
diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index c946738..2b8fc04 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -631,6 +631,35 @@ CRYPTO_CERT crypto_cert2context(const uint8_t *cert, const size_t length) {
   return ctx;
 }
 
+int crypto_check_certkey(CRYPTO_CERT cert, const uint8_t *key,
+                         const size_t length) {
+  if (cert == NULL) {
+    log_error("cert param is NULL");
+    return -1;
+  }
+
+  if (key == NULL) {
+    log_error("key param is NULL");
+    return -1;
+  }
+
+  EVP_PKEY *pkey = (EVP_PKEY *)crypto_key2context(key, length);
+  if (pkey == NULL) {
+    log_error("crypto_key2context fail");
+    return -1;
+  }
+
+  int ret = 0;
+  if (X509_check_private_key((X509 *)cert, pkey) != 1) {
+    log_error("X509_check_private_key fail with code=%s",
+              ERR_error_string(ERR_get_error(), NULL));
+    ret = -1;
+  }
+
+  crypto_free_keycontext(pkey);
+  return ret;
+}
+
 CRYPTO_CERT crypto_copycert(CRYPTO_CERT cert) {
   X509 *x509;
   uint8_t *buf = NULL;
-- 
2.43.0


From 4212482c9ecdb6e00803606b61d4ae14066763d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:52 +0000
Subject: [PATCH 56/56] fix: refuse a certificate name with a zero byte

---
 src/voucher/crypto_ossl.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 2b8fc04..6fb663f 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -715,12 +715,20 @@ int get_x509_entry(X509_NAME *name, int nid, char **out) {
 
   ASN1_STRING *d = X509_NAME_ENTRY_get_data(e);
   unsigned char *str = NULL;
-  if (ASN1_STRING_to_UTF8(&str, d) < 0) {
+  int length = ASN1_STRING_to_UTF8(&str, d);
+  if (length < 0) {
     log_error("ASN1_STRING_to_UTF8 code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     return -1;
   }
 
+  /* A name that has a zero byte would be taken for the one it's cut to */
+  if (strlen((const char *)str) != (size_t)length) {
+    log_error("name with a zero byte");
+    OPENSSL_free(str);
+    return -1;
+  }
+
   *out = (char *)str;
 
   return 0;
-- 
2.43.0

