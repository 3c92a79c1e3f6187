From aa0f1528747882d777bd28679c92522fbb0a8702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 01/17] fix: advance the output after a short read of the
 random device

A read that returned fewer bytes than requested was followed by another read
into the start of the buffer, so its tail was never filled.
---
 src/random.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/random.c b/src/random.c
index f763266..0e5cf67 100644
--- a/src/random.c
+++ b/src/random.c
@@ -56,11 +56,13 @@ void fingera_os_rand_bytes(void *buf, size_t buf_size) {
   if (fd < 0) {
     FINGERA_FATAL("open /dev/urandom");
   }
+  char *out = (char *)buf;
   while (buf_size != 0) {
-    int r = read(fd, buf, buf_size);
+    int r = read(fd, out, buf_size);
     if (r <= 0) {
       FINGERA_FATAL("read /dev/urandom %d", r);
     }
+    out += r;
     buf_size -= (size_t)r;
   }
   close(fd);
-- 
2.43.0


From d09ce034d91660d60df65c8343b0d6ee78bef7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 02/17] fix: base58 decoding stays within the given string
 length

The decoder scanned to a NUL or a space instead of str_len, reading past
strings that are not NUL terminated and overflowing its scratch buffer; the
scratch size was also computed in int and overflowed for huge strings.
---
 src/base58.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/base58.c b/src/base58.c
index f056964..4560e4e 100644
--- a/src/base58.c
+++ b/src/base58.c
@@ -73,21 +73,21 @@ size_t fingera_to_base58(const void *buf, size_t buf_size, char *str) {
 size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
   const char *str_end = str + str_len;
   // Skip leading spaces.
-  while (*str && isspace(*str)) {
+  while (str != str_end && isspace((unsigned char)*str)) {
     str++;
   }
-  int zeroes = 0;
+  size_t zeroes = 0;
   int length = 0;
-  while (*str == '1') {
+  while (str != str_end && *str == '1') {
     zeroes++;
     str++;
   }
 
-  int size = (int)(str_end - str) * 733 / 1000 + 1;
+  size_t size = (size_t)(str_end - str) * 733 / 1000 + 1;
   DECLARE_BUFFER(uint8_t, b256, size);
   memset(b256, 0, size);
 
-  while (*str && !isspace(*str)) {
+  while (str != str_end && !isspace((unsigned char)*str)) {
     // Decode base58 character
     int carry = BASE58_DECODE[(uint8_t)*str];
     if (carry == -1) {
@@ -96,7 +96,7 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
       return 0;
     }
     int i = 0;
-    for (int it = size - 1; (carry != 0 || i < length) && (it >= 0);
+    for (int it = (int)size - 1; (carry != 0 || i < length) && (it >= 0);
          --it, ++i) {
       carry += 58 * b256[it];
       b256[it] = carry % 256;
@@ -107,8 +107,8 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
     str++;
   }
   // Skip trailing spaces.
-  while (isspace(*str)) str++;
-  if (*str != 0) {
+  while (str != str_end && isspace((unsigned char)*str)) str++;
+  if (str != str_end) {
     fingera_cleanse(b256, size);
     FREE_BUFFER(b256);
     return 0;
-- 
2.43.0


From ea078bffa7f5664f687271a12f154877adcea13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 03/17] fix: fingera_from_base58_length covers leading ones

Every leading '1' decodes to a whole byte, so str_len*733/1000+2 is too small
for strings with many of them.
---
 include/fingera_libc/base58.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fingera_libc/base58.h b/include/fingera_libc/base58.h
index df53f33..255cf50 100644
--- a/include/fingera_libc/base58.h
+++ b/include/fingera_libc/base58.h
@@ -33,7 +33,8 @@ static inline size_t fingera_to_base58_length(size_t buf_size) {
  * @return size_t 最大长度
  */
 static inline size_t fingera_from_base58_length(size_t str_len) {
-  return str_len * 733 / 1000 + 2;
+  // 每个前导'1'解码成一个字节
+  return str_len;
 }
 
 /**
-- 
2.43.0


From b952387d681b78396b749fddaa936cb1446480d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 04/17] fix: base32 decoding stays within its input and its
 table

The padding was searched for with strchr, past str_len, and characters >= 0x80
indexed the decode table with a negative value.
---
 src/base32.c | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/base32.c b/src/base32.c
index 36d3e7f..5cba50d 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -185,7 +185,8 @@ size_t fingera_to_base32_raw(const void *buf, size_t buf_size, void *out) {
 }
 
 static inline size_t base32_strlen(const char *str, size_t str_len) {
-  const char *str_end = strchr(str, '=');
+  const char *str_end =
+      str_len ? (const char *)memchr(str, '=', str_len) : NULL;
   if (!str_end) return str_len;
   return str_end - str;
 }
@@ -210,14 +211,14 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
   uint8_t *out = (uint8_t *)buf;
   const uint8_t *decode_string = is_raw ? BASE32_DECODE_RAW : BASE32_DECODE;
   for (size_t i = 0; i < blocks; i++) {
-    uint8_t byte1 = decode_string[str[i * 8 + 0]];
-    uint8_t byte2 = decode_string[str[i * 8 + 1]];
-    uint8_t byte3 = decode_string[str[i * 8 + 2]];
-    uint8_t byte4 = decode_string[str[i * 8 + 3]];
-    uint8_t byte5 = decode_string[str[i * 8 + 4]];
-    uint8_t byte6 = decode_string[str[i * 8 + 5]];
-    uint8_t byte7 = decode_string[str[i * 8 + 6]];
-    uint8_t byte8 = decode_string[str[i * 8 + 7]];
+    uint8_t byte1 = decode_string[(uint8_t)str[i * 8 + 0]];
+    uint8_t byte2 = decode_string[(uint8_t)str[i * 8 + 1]];
+    uint8_t byte3 = decode_string[(uint8_t)str[i * 8 + 2]];
+    uint8_t byte4 = decode_string[(uint8_t)str[i * 8 + 3]];
+    uint8_t byte5 = decode_string[(uint8_t)str[i * 8 + 4]];
+    uint8_t byte6 = decode_string[(uint8_t)str[i * 8 + 5]];
+    uint8_t byte7 = decode_string[(uint8_t)str[i * 8 + 6]];
+    uint8_t byte8 = decode_string[(uint8_t)str[i * 8 + 7]];
     if (byte1 == 0xFF || byte2 == 0xFF || byte3 == 0xFF || byte4 == 0xFF ||
         byte5 == 0xFF || byte6 == 0xFF || byte7 == 0xFF || byte8 == 0xFF)
       return out - (uint8_t *)buf;
@@ -232,19 +233,19 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
   }
   uint8_t tail_bytes = TAIL_TO_BYTES[tail];
   if (tail_bytes > 0) {
-    uint8_t byte1 = decode_string[tail_str[0]];
-    uint8_t byte2 = decode_string[tail_str[1]];
+    uint8_t byte1 = decode_string[(uint8_t)tail_str[0]];
+    uint8_t byte2 = decode_string[(uint8_t)tail_str[1]];
     *out++ = (byte1 << 3) | (byte2 >> 2);
     if (tail_bytes > 1) {
-      uint8_t byte3 = decode_string[tail_str[2]];
-      uint8_t byte4 = decode_string[tail_str[3]];
+      uint8_t byte3 = decode_string[(uint8_t)tail_str[2]];
+      uint8_t byte4 = decode_string[(uint8_t)tail_str[3]];
       *out++ = (byte2 << 6) | (byte3 << 1) | (byte4 >> 4);
       if (tail_bytes > 2) {
-        uint8_t byte5 = decode_string[tail_str[4]];
+        uint8_t byte5 = decode_string[(uint8_t)tail_str[4]];
         *out++ = (byte4 << 4) | (byte5 >> 1);
         if (tail_bytes > 3) {
-          uint8_t byte6 = decode_string[tail_str[5]];
-          uint8_t byte7 = decode_string[tail_str[6]];
+          uint8_t byte6 = decode_string[(uint8_t)tail_str[5]];
+          uint8_t byte7 = decode_string[(uint8_t)tail_str[6]];
           *out++ = (byte5 << 7) | (byte6 << 2) | (byte7 >> 3);
         }
       }
-- 
2.43.0


From ba8150d4ebb4fd6df30fea5333ef7f6e7314a8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 05/17] fix: base32 decoding rejects bad characters in the last
 group

Only full 8-character groups were checked against the alphabet; a bad character
in the final group was decoded as garbage and counted as success.
---
 src/base32.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base32.c b/src/base32.c
index 5cba50d..e8c4ee7 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -231,6 +231,10 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
     out[4] = (byte7 << 5) | byte8;
     out += 5;
   }
+  for (size_t i = 0; i < tail; i++) {
+    if (decode_string[(uint8_t)tail_str[i]] == 0xFF)
+      return out - (uint8_t *)buf;
+  }
   uint8_t tail_bytes = TAIL_TO_BYTES[tail];
   if (tail_bytes > 0) {
     uint8_t byte1 = decode_string[(uint8_t)tail_str[0]];
-- 
2.43.0


From 332b9f53e60088b58c5e5e18154d52edd1be935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 06/17] fix: '=' inside standard base64 data is not a digit

The standard decode table mapped '=' to 0, so padding in the middle of the
data was decoded as zero bits.
---
 src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.c b/src/base64.c
index 25f9780..978e652 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -12,7 +12,7 @@ static const unsigned char BASE64_STANDARD_DECODE[256] = {
     0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x3E,
     0xFF, 0xFF, 0xFF, 0x3F,  // +/
     0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3A, 0x3B, 0x3C, 0x3D, 0xFF,
-    0xFF, 0xFF, 0x00, 0xFF, 0xFF,  // 0-9 =
+    0xFF, 0xFF, 0xFF, 0xFF, 0xFF,  // 0-9
     0xFF, 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09,
     0x0A, 0x0B, 0x0C, 0x0D, 0x0E,  // A-O
     0x0F, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19,
-- 
2.43.0


From 6a8680e205d8d808bffe386b2d75586517f38c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 07/17] fix: bech32 decoding looks for the separator within the
 given length

strrchr searched to the terminating NUL, past str_len.
---
 src/btc/bech32.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/btc/bech32.c b/src/btc/bech32.c
index 27272c0..921d1d7 100644
--- a/src/btc/bech32.c
+++ b/src/btc/bech32.c
@@ -112,7 +112,10 @@ int fingera_bech32_decode(const char *str, size_t str_len, char *hrp,
                           size_t *hrp_size, void *b32) {
   if (is_illegal(str, str_len)) return -1;
 
-  const char *pos = strrchr(str, '1');
+  const char *pos = NULL;
+  for (size_t i = str_len; i > 0 && !pos; i--) {
+    if (str[i - 1] == '1') pos = str + i - 1;
+  }
   if (!pos || str_len > 90 || pos == str || pos + 7 > str + str_len ||
       str_len <= 7) {
     return -2;
-- 
2.43.0


From 9b765b0b7477546565c2de26b761a3e0e1c26da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 08/17] fix: short strings are rejected before the bech32
 scratch is sized

str_len - 7 wrapped for strings shorter than 7 characters.
---
 src/btc/address.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/btc/address.c b/src/btc/address.c
index 9cc02dc..3da07e6 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -95,6 +95,7 @@ size_t fingera_to_address_witness_unknown(const void *version_and_program,
 static fingera_btc_address decode_bech32(const char *str, size_t str_len,
                                          void *out, size_t *out_size,
                                          const chain_parameters *param) {
+  if (str_len <= 7) return BTC_BAD_ADDRESS;
   DECLARE_BUFFER(char, buffer, str_len - 7);
 
   char bech32_hrp[16];
-- 
2.43.0


From 02553d0fb04484795009f30db777f7f54758383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 09/17] fix: reject witness addresses with bad padding

BIP173 allows at most four padding bits, all zero. Other encodings decoded to
the same program as the canonical address.
---
 src/btc/address.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/btc/address.c b/src/btc/address.c
index 3da07e6..54647da 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -109,6 +109,14 @@ static fingera_btc_address decode_bech32(const char *str, size_t str_len,
     return BTC_BAD_ADDRESS;
   }
 
+  // BIP173: 多余的位不能超过4个并且必须为0
+  int padding = (bech32_size - 1) * 5 % 8;
+  if (padding > 4 ||
+      (buffer[bech32_size - 1] & ((1 << padding) - 1) & 0x1F) != 0) {
+    FREE_BUFFER(buffer);
+    return BTC_BAD_ADDRESS;
+  }
+
   if (*out_size >= fingera_from_base32_raw_length(bech32_size - 1)) {
     int version = buffer[0];
     if (version == 0) {
-- 
2.43.0


From bc0f3a782bdc1d530fe9705ea640de089505935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 10/17] fix: varint decoding rejects values beyond 64 bits

A 10-byte encoding of a value above UINT64_MAX wrapped around and was reported
as a success.
---
 src/compress_integer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compress_integer.c b/src/compress_integer.c
index 067d696..f8bc9cf 100644
--- a/src/compress_integer.c
+++ b/src/compress_integer.c
@@ -27,8 +27,10 @@ size_t fingera_decode_varint(const void *buf, size_t size, uint64_t *out) {
   if (size > 10) size = 10;
   for (size_t i = 0; i < size; i++) {
     uint8_t byte = *in++;
+    if (*out > (UINT64_MAX >> 7)) return 0;  // 溢出
     *out = (*out << 7) | (byte & 0x7F);
     if (byte & 0x80) {
+      if (*out == UINT64_MAX) return 0;  // 溢出
       (*out)++;
     } else {
       return in - (uint8_t *)buf;
-- 
2.43.0


From 655ff1cc2a28a560fbba57070700a13db875228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 11/17] fix: INT64_MIN survives the zigzag encoding

llabs(INT64_MIN) is undefined and INT64_MIN was encoded as "-0", which decoded
to 0. No other value uses that code, so it now stands for INT64_MIN.
---
 src/compress_integer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compress_integer.c b/src/compress_integer.c
index f8bc9cf..bc78496 100644
--- a/src/compress_integer.c
+++ b/src/compress_integer.c
@@ -40,7 +40,8 @@ size_t fingera_decode_varint(const void *buf, size_t size, uint64_t *out) {
 }
 
 size_t fingera_encode_zigzag(int64_t value, void *buf) {
-  uint64_t uvalue = (uint64_t)llabs(value);
+  // INT64_MIN的绝对值左移后为0，使用没有其他含义的"-0"表示
+  uint64_t uvalue = value < 0 ? 0 - (uint64_t)value : (uint64_t)value;
   uint64_t sign = value < 0 ? 1 : 0;
   uvalue <<= 1;
   uvalue |= sign;
@@ -55,7 +56,7 @@ size_t fingera_decode_zigzag(const void *buf, size_t size, int64_t *out) {
     sign = uvalue & 1;
     uvalue >>= 1;
     if (sign) {
-      *out = -(int64_t)uvalue;
+      *out = uvalue ? -(int64_t)uvalue : INT64_MIN;
     } else {
       *out = (int64_t)uvalue;
     }
-- 
2.43.0


From c22fcd18557ea488ec444213a0fcaf9b6cb27c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 12/17] fix: refuse to derive below depth 255

The depth is serialized in one byte; deriving from depth 255 wrapped to 0, the
depth of a master key.
---
 src/btc/exkey.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index 7e0475e..f6aeacd 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -23,6 +23,7 @@ void fingera_exkey_init(fingera_ex_key *key, const void *seed, size_t len) {
 
 int fingera_exkey_derive(const fingera_ex_key *key, fingera_ex_key *derived,
                          uint32_t child, uint32_t fingerprint) {
+  if (key->ext.depth == UINT8_MAX) return 0;
   int r = fingera_btc_key_derive(key->key, key->ext.chain_code, derived->key,
                                  derived->ext.chain_code, child);
   if (r) {
@@ -36,6 +37,7 @@ int fingera_exkey_derive(const fingera_ex_key *key, fingera_ex_key *derived,
 int fingera_expubkey_derive(const fingera_ex_pubkey *pubkey,
                             fingera_ex_pubkey *derived, uint32_t child,
                             uint32_t fingerprint) {
+  if (pubkey->ext.depth == UINT8_MAX) return 0;
   if (!fingera_btc_pubkey_derive(pubkey->c_pubkey, pubkey->ext.chain_code,
                                  derived->c_pubkey, derived->ext.chain_code,
                                  child))
-- 
2.43.0


From 30a7c7b99e96a43d8c557ba48ee166905a840d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 13/17] fix: extended private keys need a zero byte before the
 key

BIP32 pads the 32-byte key with 0x00; any other byte was accepted and dropped.
---
 src/btc/exkey.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index f6aeacd..b4094b5 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -112,6 +112,7 @@ int fingera_exkey_from_string(const char *str, size_t str_len,
   size_t prefix_size = size - BIP32_EXTKEY_SIZE;
   if (prefix_size != param->prefix_ext_secret_key_size) return 0;
   if (memcmp(extkey, param->prefix_ext_secret_key, prefix_size) != 0) return 0;
+  if (extkey[prefix_size + 41] != 0) return 0;  // 私钥前必须补0
   fingera_exkey_decode(extkey + prefix_size, key);
   fingera_cleanse(extkey, sizeof(extkey));
   return 1;
-- 
2.43.0


From ca46fb94f511df72d27a99fa46c606f208e43735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 14/17] fix: key strings of any length no longer overflow the
 stack

WIF and extended key strings were decoded into a fixed stack buffer sized for a
valid key; a longer Base58 string overflowed it, or aborted on an assert.
---
 src/btc/exkey.c | 48 ++++++++++++++++++++++++++----------------------
 src/btc/key.c   | 35 ++++++++++++++++-------------------
 2 files changed, 42 insertions(+), 41 deletions(-)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index b4094b5..fd658de 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -5,6 +5,7 @@
 #include <fingera_libc/endian.h>
 #include <fingera_libc/hash/sha2.h>
 #include <fingera_libc/sl/buffer.h>
+#include <stdlib.h>
 #include <string.h>
 
 void fingera_exkey_init(fingera_ex_key *key, const void *seed, size_t len) {
@@ -103,19 +104,20 @@ size_t fingera_exkey_to_string(const fingera_ex_key *key, char *str,
 int fingera_exkey_from_string(const char *str, size_t str_len,
                               fingera_ex_key *key,
                               const chain_parameters *param) {
-  uint8_t extkey[BIP32_EXTKEY_SIZE + 8];
-  assert(param->prefix_ext_secret_key_size <= 8);
+  size_t buf_size = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, extkey, buf_size);
+  int r = 0;
+  size_t prefix_size = param->prefix_ext_secret_key_size;
   size_t size = fingera_from_base58_check(str, str_len, extkey);
-  assert(size <= sizeof(extkey));
-  if (size <= BIP32_EXTKEY_SIZE || size > sizeof(extkey))
-    return 0;  // no prefix or Overflow
-  size_t prefix_size = size - BIP32_EXTKEY_SIZE;
-  if (prefix_size != param->prefix_ext_secret_key_size) return 0;
-  if (memcmp(extkey, param->prefix_ext_secret_key, prefix_size) != 0) return 0;
-  if (extkey[prefix_size + 41] != 0) return 0;  // 私钥前必须补0
-  fingera_exkey_decode(extkey + prefix_size, key);
-  fingera_cleanse(extkey, sizeof(extkey));
-  return 1;
+  if (size == prefix_size + BIP32_EXTKEY_SIZE &&
+      memcmp(extkey, param->prefix_ext_secret_key, prefix_size) == 0 &&
+      extkey[prefix_size + 41] == 0) {  // 私钥前必须补0
+    fingera_exkey_decode(extkey + prefix_size, key);
+    r = 1;
+  }
+  fingera_cleanse(extkey, buf_size);
+  FREE_BUFFER(extkey);
+  return r;
 }
 
 void fingera_expubkey_encode(const fingera_ex_pubkey *pubkey, void *extkey74) {
@@ -142,15 +144,17 @@ size_t fingera_expubkey_to_string(const fingera_ex_pubkey *pubkey, char *str,
 int fingera_expubkey_from_string(const char *str, size_t str_len,
                                  fingera_ex_pubkey *pub,
                                  const chain_parameters *param) {
-  uint8_t extkey[BIP32_EXTKEY_SIZE + 8];
-  assert(param->prefix_ext_public_key_size <= 8);
+  size_t buf_size = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, extkey, buf_size);
+  int r = 0;
+  size_t prefix_size = param->prefix_ext_public_key_size;
   size_t size = fingera_from_base58_check(str, str_len, extkey);
-  assert(size <= sizeof(extkey));
-  if (size <= BIP32_EXTKEY_SIZE || size > sizeof(extkey))
-    return 0;  // no prefix or Overflow
-  size_t prefix_size = size - BIP32_EXTKEY_SIZE;
-  if (prefix_size != param->prefix_ext_public_key_size) return 0;
-  if (memcmp(extkey, param->prefix_ext_public_key, prefix_size) != 0) return 0;
-  fingera_expubkey_decode(extkey + prefix_size, pub);
-  return 1;
+  if (size == prefix_size + BIP32_EXTKEY_SIZE &&
+      memcmp(extkey, param->prefix_ext_public_key, prefix_size) == 0) {
+    fingera_expubkey_decode(extkey + prefix_size, pub);
+    r = 1;
+  }
+  fingera_cleanse(extkey, buf_size);
+  FREE_BUFFER(extkey);
+  return r;
 }
\ No newline at end of file
diff --git a/src/btc/key.c b/src/btc/key.c
index 8f764c4..ebdcc23 100644
--- a/src/btc/key.c
+++ b/src/btc/key.c
@@ -4,8 +4,10 @@
 #include <fingera_libc/cleanse.h>
 #include <fingera_libc/endian.h>
 #include <fingera_libc/random.h>
+#include <fingera_libc/sl/buffer.h>
 #include <secp256k1.h>
 #include <stdint.h>
+#include <stdlib.h>
 #include <string.h>
 
 /** This function is taken from the libsecp256k1 distribution and implements
@@ -376,26 +378,21 @@ size_t fingera_btc_key_to_string(const void* key32, char* key_str,
 int fingera_btc_key_from_string(const char* key_str, size_t str_len,
                                 void* key32, int* is_compressed,
                                 const chain_parameters* param) {
-  uint8_t buf[32 + 8];
-  assert(param->prefix_secret_key_size <= 8);
+  size_t buf_size = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, buf, buf_size);
+  int r = 0;
+  size_t pre_size = param->prefix_secret_key_size;
   size_t size = fingera_from_base58_check(key_str, str_len, buf);
-  if (size <= 32) return 0;
-  size_t pre_size = size - 32;
-  if (param->prefix_secret_key_size != pre_size) {
-    if (param->prefix_secret_key_size != pre_size - 1) {
-      return 0;
-    }
-    if (buf[size - 1] != 1) {
-      return 0;
-    }
-    *is_compressed = 1;
-  } else {
-    *is_compressed = 0;
-  }
-  if (memcmp(buf, param->prefix_secret_key, param->prefix_secret_key_size) != 0)
-    return 0;
-  memcpy(key32, buf + param->prefix_secret_key_size, 32);
-  return 1;
+  int compressed = size == pre_size + 33 && buf[size - 1] == 1;
+  if ((compressed || size == pre_size + 32) &&
+      memcmp(buf, param->prefix_secret_key, pre_size) == 0) {
+    memcpy(key32, buf + pre_size, 32);
+    *is_compressed = compressed;
+    r = 1;
+  }
+  fingera_cleanse(buf, buf_size);
+  FREE_BUFFER(buf);
+  return r;
 }
 
 int fingera_btc_key_derive(const void* key32, const void* chain32,
-- 
2.43.0


From 61ea9faa3e5375f1564155cf9bb434bd04abd9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 15/17] fix: hardened public derivation fails in release builds
 too

The only guard was an assert, so with NDEBUG a hardened index derived a public
key that matches no private key.
---
 src/btc/key.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/btc/key.c b/src/btc/key.c
index ebdcc23..c0fa668 100644
--- a/src/btc/key.c
+++ b/src/btc/key.c
@@ -461,6 +461,7 @@ int fingera_btc_pubkey_derive(const void* encoded_pubkey33, const void* chain32,
                               void* out_pubkey33, void* out_chain32,
                               uint32_t child) {
   assert((child >> 31) == 0);
+  if ((child >> 31) != 0) return 0;
   const uint8_t* pubkey33 = (const uint8_t*)encoded_pubkey33;
   assert(pubkey33[0] == 2 || pubkey33[0] == 3);
   uint8_t out[64];
-- 
2.43.0


From 7205767fde91132e6ee064d48ccc701b89a25753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:58 +0000
Subject: [PATCH 16/17] fix: addresses with a long human-readable part are
 decoded

---
 src/btc/address.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btc/address.c b/src/btc/address.c
index 54647da..a6e6f62 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -98,7 +98,7 @@ static fingera_btc_address decode_bech32(const char *str, size_t str_len,
   if (str_len <= 7) return BTC_BAD_ADDRESS;
   DECLARE_BUFFER(char, buffer, str_len - 7);
 
-  char bech32_hrp[16];
+  char bech32_hrp[83];  // BIP173: 最长的头部
   size_t hrp_size = sizeof(bech32_hrp);
   int bech32_size =
       fingera_bech32_decode(str, str_len, bech32_hrp, &hrp_size, buffer);
-- 
2.43.0


From 544e81a53e677b47342e5802a4b85a6d2571ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:49 +0000
Subject: [PATCH 17/17] fix: bech32 hrps are lowered without regard to the
 locale

---
 src/btc/bech32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/btc/bech32.c b/src/btc/bech32.c
index 921d1d7..f751562 100644
--- a/src/btc/bech32.c
+++ b/src/btc/bech32.c
@@ -2,7 +2,6 @@
 #include <fingera_libc/hex.h>
 
 #include <assert.h>
-#include <ctype.h>
 #include <string.h>
 
 static const char *BECH32_ENCODE = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
@@ -123,7 +122,8 @@ int fingera_bech32_decode(const char *str, size_t str_len, char *hrp,
   if (*hrp_size < (size_t)(pos - str)) return -3;
   *hrp_size = pos - str;
   for (size_t i = 0; i < *hrp_size; i++) {
-    hrp[i] = isupper(str[i]) ? tolower(str[i]) : str[i];
+    // ASCII only: tolower depends on the locale
+    hrp[i] = str[i] >= 'A' && str[i] <= 'Z' ? str[i] - 'A' + 'a' : str[i];
   }
   pos++;
   int8_t *out = (int8_t *)b32;
-- 
2.43.0

