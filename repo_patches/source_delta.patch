From 7856e4ee3e0703e1946bb1ffe84eb28021f7c98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 01/36] fix: reject non-canonical 16-bit coefficients and
 decode 2047..6144 as positive in comp_decode16

---
 falcon/nistfalcon/src/codec.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/falcon/nistfalcon/src/codec.c b/falcon/nistfalcon/src/codec.c
index f5e81c7..43b1cae 100644
--- a/falcon/nistfalcon/src/codec.c
+++ b/falcon/nistfalcon/src/codec.c
@@ -624,16 +624,16 @@ Zf(comp_decode16)(
 		acc = (acc << 8) | (*buf ++);
 		acc_len += 8;
 		if (acc_len >= 16) {
-			int16_t w;
+			int32_t w;
 
 			acc_len -= 16;
-			w = (acc >> acc_len) & 0xFFFF;
+			w = (int32_t)((acc >> acc_len) & 0xFFFF);
 			if (w >= 12289) {
 				return 0;
 			}
-			// using the bound 2047 from the comments below
-			w -= 12289 & ~((w - 2047) >> 31);
-			x[u++] = w;
+			// centered representative, in -6144..+6144
+			w -= 12289 & ~((w - 6145) >> 31);
+			x[u++] = (int16_t)w;
 		}
 	}
 	if ((acc & (((uint32_t)1 << acc_len) - 1)) != 0) {
-- 
2.43.0


From c7c60ca30d1b0749dca308eee9b878521efeb1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 02/36] fix: reject Epervier signatures whose declared length
 is not the exact encoding length

---
 falcon/nistfalcon/src/epervier16.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falcon/nistfalcon/src/epervier16.c b/falcon/nistfalcon/src/epervier16.c
index 6f88d11..2401773 100644
--- a/falcon/nistfalcon/src/epervier16.c
+++ b/falcon/nistfalcon/src/epervier16.c
@@ -228,7 +228,8 @@ zknox_crypto_sign_open_epervier(unsigned char *m, unsigned long long *mlen,
 	 * Decode signature.
 	 */
 	esig = sm + 2 + NONCELEN + msg_len;
-	if (sig_len < 1 || esig[0] != 0x20 + 9 || esig[1025] != 0x20 + 9) {
+	if (sig_len != ZKNOX_CRYPTO_BYTES_EPERVIER - 2 - NONCELEN
+		|| esig[0] != 0x20 + 9 || esig[1025] != 0x20 + 9) {
 		return -1;
 	}
 
-- 
2.43.0


From 3fb3b38dc636832ca39dcc15fc9690331becf4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 03/36] fix: zknox_pk_epervier applied a second NTT to a key
 already in NTT form, so no Epervier signature verified

---
 falcon/nistfalcon/src/epervier16.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/falcon/nistfalcon/src/epervier16.c b/falcon/nistfalcon/src/epervier16.c
index 2401773..88f1ca9 100644
--- a/falcon/nistfalcon/src/epervier16.c
+++ b/falcon/nistfalcon/src/epervier16.c
@@ -26,7 +26,8 @@ int randombytes(unsigned char *x, unsigned long long xlen);
 int
 zknox_pk_epervier(unsigned char *pk)
 {
-	// Additional NTT for epervier
+	// The zknox public key already holds NTT(h), which is what
+	// verify_recover_epervier rebuilds: no additional NTT is applied.
 	// Hash is not computed here
 	TEMPALLOC uint16_t h[512];
 	size_t v;
@@ -41,9 +42,6 @@ zknox_pk_epervier(unsigned char *pk)
 		return -1;
 	}
 
-	// NTT not in montgomery representation
-	Zf(to_ntt)(h, 9);
-
 	/*
 	 * Re-encode public key.
 	 */
-- 
2.43.0


From 21fa4e36c9e11ebad526c9f890a8804ec5061be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 04/36] fix: Keccak PRNG dropped input beyond 4096 bytes, so
 long messages were not bound to their ETHFALCON signature

---
 falcon/nistfalcon/src/keccak_prng.c | 26 +++++++++++---------------
 falcon/nistfalcon/src/keccak_prng.h |  4 +---
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/falcon/nistfalcon/src/keccak_prng.c b/falcon/nistfalcon/src/keccak_prng.c
index a2b6ce1..da6279f 100644
--- a/falcon/nistfalcon/src/keccak_prng.c
+++ b/falcon/nistfalcon/src/keccak_prng.c
@@ -11,12 +11,12 @@
  * 1. State Management:
  *    - Maintains a 32-byte state derived from input data
  *    - Uses a 64-bit counter for expandable output
- *    - Includes a buffer for accumulating input before finalization
+ *    - Absorbs input of any length into a running Keccak-256
  *    - Maintains an output buffer to store unused random bytes
  *
  * 2. Operation Phases:
  *    a) Input Phase (before finalization):
- *       - Accumulate arbitrary input data into buffer
+ *       - Absorb arbitrary input data
  *       - Can receive multiple inputs through inject function
  *
  *    b) Finalization Phase:
@@ -44,9 +44,8 @@ int Zf(i_keccak256_init)(inner_keccak256_prng_ctx *sc)
     if (!sc)
         return -1;
 
-    memset(sc->buffer, 0, MAX_BUFFER_SIZE);
+    keccak_init(&sc->input);
     memset(sc->state, 0, KECCAK256_OUTPUT);
-    sc->buffer_len = 0;
     sc->counter = 0;
     sc->finalized = 0;
 
@@ -67,15 +66,15 @@ int Zf(i_keccak256_inject)(inner_keccak256_prng_ctx *sc, const uint8_t *in, size
     if (sc->finalized)
         return -2;
 
-    // Check if we have enough space in buffer
-    if (sc->buffer_len + len > MAX_BUFFER_SIZE)
+    // Absorb in pieces: keccak_update() takes a 16-bit length
+    while (len > 0)
     {
-        return -3; // Buffer would overflow
-    }
+        uint16_t clen = (len < 4096) ? (uint16_t)len : 4096;
 
-    // Append new data to buffer
-    memcpy(sc->buffer + sc->buffer_len, in, len);
-    sc->buffer_len += len;
+        keccak_update(&sc->input, in, clen);
+        in += clen;
+        len -= clen;
+    }
     return 0;
 }
 
@@ -89,10 +88,7 @@ int Zf(i_keccak256_flip)(inner_keccak256_prng_ctx *sc)
     if (sc->finalized)
         return -2;
 
-    SHA3_CTX keccak_ctx;
-    keccak_init(&keccak_ctx);
-    keccak_update(&keccak_ctx, sc->buffer, sc->buffer_len);
-    keccak_final(&keccak_ctx, sc->state);
+    keccak_final(&sc->input, sc->state);
 
     sc->finalized = 1;
 
diff --git a/falcon/nistfalcon/src/keccak_prng.h b/falcon/nistfalcon/src/keccak_prng.h
index 73edb05..72a93ee 100644
--- a/falcon/nistfalcon/src/keccak_prng.h
+++ b/falcon/nistfalcon/src/keccak_prng.h
@@ -3,12 +3,10 @@
 #include "keccak256.h"
 
 #define KECCAK256_OUTPUT 32
-#define MAX_BUFFER_SIZE 4096 // Adjust based on your needs
 
 typedef struct
 {
-    uint8_t buffer[MAX_BUFFER_SIZE]; // Input buffer
-    size_t buffer_len;               // Length of data in input buffer
+    SHA3_CTX input;                  // Running Keccak-256 of the injected data
     uint8_t state[KECCAK256_OUTPUT]; // Current state
     uint64_t counter;                // Output counter
     int finalized;                   // Flag indicating if state is finalized
-- 
2.43.0


From fd31e02ce0fe676b5d15e012d3b9c8c129d27a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 05/36] fix: decompress raised on an all-zero encoding and
 ignored nonzero bits after the last coefficient

---
 pythonref/encoding.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonref/encoding.py b/pythonref/encoding.py
index d5c7b9e..408f1bd 100755
--- a/pythonref/encoding.py
+++ b/pythonref/encoding.py
@@ -48,8 +48,7 @@ def decompress(x, slen, n):
     v = []
 
     # Remove the last bits
-    while u[-1] == "0":
-        u = u[:-1]
+    u = u.rstrip("0")
 
     try:
         while (u != "") and (len(v) < n):
@@ -71,7 +70,8 @@ def decompress(x, slen, n):
             v += [coef]
             u = u[i + 1:]
         # In this case, the encoding is invalid
-        if (len(v) != n):
+        # (too few coefficients, or nonzero bits after the last one)
+        if (len(v) != n) or (u != ""):
             return False
         return v
     # IndexError is raised if indices are read outside the table bounds
-- 
2.43.0


From 645900422e9b2f923cc28fcbd99cf2ee711b3378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 06/36] fix: PublicKey.from_bytes refused every Falcon-1024 key
 and took over-long Falcon-512 ones

---
 pythonref/falcon.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pythonref/falcon.py b/pythonref/falcon.py
index 1ba0871..301319a 100755
--- a/pythonref/falcon.py
+++ b/pythonref/falcon.py
@@ -240,14 +240,14 @@ class PublicKey:
 
         Format:
         - 1 byte header: 0x09 or 0x0A (for falcon-1024)
-        - 896 bytes: 512 coefficients, each 14 bits
+        - 896 bytes: 512 coefficients, each 14 bits (1792 bytes for falcon-1024)
 
         Returns:
         The corresponding PublicKey
         """
 
-        if len(pk_bytes) not in (897, 1792):
-            raise ValueError("Invalid public key length (must be 897 or 1792 bytes)")
+        if len(pk_bytes) not in (897, 1793):
+            raise ValueError("Invalid public key length (must be 897 or 1793 bytes)")
 
         # Check header
         if pk_bytes[0] == 0x09:
@@ -257,6 +257,9 @@ class PublicKey:
         else:
             raise ValueError("Invalid Falcon public key header")
 
+        if len(pk_bytes) != HEAD_LEN + (14 * n) // 8:
+            raise ValueError("Public key length does not match its header")
+
         data = pk_bytes[HEAD_LEN:]  # Remove header
 
         h = []
-- 
2.43.0


From bd07aa367528280ac9bd15835d1822d6e57fd3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 07/36] fix: Python verifiers ignored the signature header byte

---
 pythonref/falcon.py          | 4 ++++
 pythonref/falcon_epervier.py | 4 ++++
 pythonref/falcon_recovery.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/pythonref/falcon.py b/pythonref/falcon.py
index 301319a..133cbe5 100755
--- a/pythonref/falcon.py
+++ b/pythonref/falcon.py
@@ -291,6 +291,10 @@ class PublicKey:
         """
         Verify a signature.
         """
+        # The header gives the format (NIST API or Falcon specification) and the degree
+        if signature[:HEAD_LEN] not in (bytes([0x20 + logn[self.n]]), bytes([0x30 + logn[self.n]])):
+            print("Invalid header")
+            return False
         # Unpack the salt and the short polynomial s1
         salt = signature[HEAD_LEN:HEAD_LEN + SALT_LEN]
         enc_s = signature[HEAD_LEN + SALT_LEN:]
diff --git a/pythonref/falcon_epervier.py b/pythonref/falcon_epervier.py
index c0d8ae1..4d6841d 100644
--- a/pythonref/falcon_epervier.py
+++ b/pythonref/falcon_epervier.py
@@ -25,6 +25,10 @@ class EpervierPublicKey:
         """
         Recover a public key.
         """
+        # The header gives the format and the degree
+        if signature[:HEAD_LEN] != bytes([0x30 + logn[self.n]]):
+            print("Invalid header")
+            return False
         # Unpack the salt and the short polynomial s1
         salt = signature[HEAD_LEN:HEAD_LEN + SALT_LEN]
         enc_s = signature[HEAD_LEN+SALT_LEN:-self.n*3]
diff --git a/pythonref/falcon_recovery.py b/pythonref/falcon_recovery.py
index fcb47e4..4bb1996 100644
--- a/pythonref/falcon_recovery.py
+++ b/pythonref/falcon_recovery.py
@@ -25,6 +25,10 @@ class RecoveryModePublicKey:
         """
         Verify a signature.
         """
+        # The header gives the format and the degree
+        if signature[:HEAD_LEN] != bytes([0x30 + logn[self.n]]):
+            print("Invalid header")
+            return False
         # Unpack the salt and the short polynomial s1
         salt = signature[HEAD_LEN:HEAD_LEN + SALT_LEN]
         enc_s = signature[HEAD_LEN+SALT_LEN: -self.n*3]
-- 
2.43.0


From e739f5794322e1a935bda8542da110e58530585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 08/36] fix: Python recovery verifiers accepted several
 encodings of the inverse (values >= q)

---
 pythonref/falcon_epervier.py | 3 +++
 pythonref/falcon_recovery.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pythonref/falcon_epervier.py b/pythonref/falcon_epervier.py
index 4d6841d..5fff5ac 100644
--- a/pythonref/falcon_epervier.py
+++ b/pythonref/falcon_epervier.py
@@ -45,6 +45,9 @@ class EpervierPublicKey:
         byte_s_1_inv_ntt = signature[-self.n*3:]
         s_1_inv_ntt = [int.from_bytes(byte_s_1_inv_ntt[i:i+3], 'big')
                        for i in range(0, len(byte_s_1_inv_ntt), 3)]
+        # each element has a single representation
+        if any(elt >= q for elt in s_1_inv_ntt):
+            return False
         T = ntt(q)
         # check that s_1_inv_ntt * s_1_ntt == [1, ... , 1]
         mul_s1_s1inv = T.vec_mul(s_1_inv_ntt, s_1_ntt)
diff --git a/pythonref/falcon_recovery.py b/pythonref/falcon_recovery.py
index 4bb1996..477e738 100644
--- a/pythonref/falcon_recovery.py
+++ b/pythonref/falcon_recovery.py
@@ -45,6 +45,9 @@ class RecoveryModePublicKey:
         byte_s_1_inv_ntt = signature[-self.n*3:]
         s_1_inv_ntt = [int.from_bytes(byte_s_1_inv_ntt[i:i+3], 'big')
                        for i in range(0, len(byte_s_1_inv_ntt), 3)]
+        # each element has a single representation
+        if any(elt >= q for elt in s_1_inv_ntt):
+            return False
         T = ntt(q)
         s_1_ntt = T.ntt(s1)
         # check that s_1_inv_ntt * s_1_ntt == [1, ... , 1]
-- 
2.43.0


From 82ae80799dcf2d520adea4df3796762525aaf125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 09/36] fix: every invalid recovery-mode signature verified
 under the zero key (False == 0)

---
 pythonref/falcon_epervier.py | 2 +-
 pythonref/falcon_recovery.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonref/falcon_epervier.py b/pythonref/falcon_epervier.py
index 5fff5ac..dcedef1 100644
--- a/pythonref/falcon_epervier.py
+++ b/pythonref/falcon_epervier.py
@@ -77,7 +77,7 @@ class EpervierPublicKey:
     def verify(self, message, signature, ntt=NTTIterative, xof=KeccakPRNG):
         pk_rec = self.recover(message, signature,
                               ntt=ntt, xof=xof)
-        return pk_rec == self.pk
+        return pk_rec is not False and pk_rec == self.pk
 
 
 class EpervierSecretKey(SecretKey):
diff --git a/pythonref/falcon_recovery.py b/pythonref/falcon_recovery.py
index 477e738..503a72c 100644
--- a/pythonref/falcon_recovery.py
+++ b/pythonref/falcon_recovery.py
@@ -81,7 +81,7 @@ class RecoveryModePublicKey:
     def verify(self, message, signature, ntt=NTTIterative, xof=KeccakPRNG):
         pk_rec = self.recover(message, signature,
                               ntt=ntt, xof=xof)
-        return pk_rec == self.pk
+        return pk_rec is not False and pk_rec == self.pk
 
 
 class RecoveryModeSecretKey(SecretKey):
-- 
2.43.0


From 2b44432c43e279476375f58a817c03d74df88131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 10/36] fix: decompress raised ValueError on an encoding that
 ends right after a sign bit

---
 pythonref/encoding.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pythonref/encoding.py b/pythonref/encoding.py
index 408f1bd..712d8a0 100755
--- a/pythonref/encoding.py
+++ b/pythonref/encoding.py
@@ -74,8 +74,9 @@ def decompress(x, slen, n):
         if (len(v) != n) or (u != ""):
             return False
         return v
-    # IndexError is raised if indices are read outside the table bounds
-    except IndexError:
+    # IndexError is raised if indices are read outside the table bounds,
+    # ValueError if the encoding stops right after a sign bit
+    except (IndexError, ValueError):
         return False
 
 def decode16(x:bytes, n: int, q=12289):
-- 
2.43.0


From 0f38874f81d4f6655d200cf0f73a9910535bd339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 11/36] fix: Python ChaCha20 generator kept the last 9 bytes of
 a block that the reference code drops

---
 pythonref/rng.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pythonref/rng.py b/pythonref/rng.py
index 88655b7..de9c032 100644
--- a/pythonref/rng.py
+++ b/pythonref/rng.py
@@ -113,7 +113,9 @@ class ChaCha20:
         Generate random bytes.
         Perform some shenanigans to match the reference code PRG.
         """
-        if (2 * k > len(self.hexbytes)):
+        # The reference code reads 8 bytes then 1, and refills the buffer when
+        # at most 9 bytes are left before an 8-byte read.
+        if (2 * k > len(self.hexbytes)) or (k > 1 and 2 * k == len(self.hexbytes)):
             self.hexbytes = self.block_update()
         out = self.hexbytes[:(2 * k)]
         out = "".join(out[i:i + 2] for i in range(2 * k - 2, -1, -2))
-- 
2.43.0


From ff11f3a175b80f7a86bf9d1663ed7df9e6fd3101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 12/36] fix: Python ChaCha20 block counter did not wrap at 64
 bits

---
 pythonref/rng.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonref/rng.py b/pythonref/rng.py
index de9c032..1b1ec7d 100644
--- a/pythonref/rng.py
+++ b/pythonref/rng.py
@@ -96,7 +96,7 @@ class ChaCha20:
             self.qround(3, 4, 9, 14)
         for i in range(16):
             self.state[i] = (self.state[i] + state[i]) & 0xffffffff
-        self.ctr += 1
+        self.ctr = (self.ctr + 1) & 0xffffffffffffffff
         return self.state
 
     def block_update(self):
-- 
2.43.0


From 8200d4296347dbce348f42f546edb2d0a519fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 13/36] fix: count s2 in the norm of the on-chain Falcon
 verifier

The loop over s2 compared an absolute memory pointer with 16384, so it never
ran: s2 = c/h has s1 = 0 and was accepted for any message under any key.
---
 src/ZKNOX_falcon_core.sol | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ZKNOX_falcon_core.sol b/src/ZKNOX_falcon_core.sol
index b5f0f29..6e880ac 100644
--- a/src/ZKNOX_falcon_core.sol
+++ b/src/ZKNOX_falcon_core.sol
@@ -78,7 +78,7 @@ function falcon_normalize(
             }
         }
 
-        for { let offset := add(s1, 32) } lt(offset, 16384) { offset := add(offset, 32) } {
+        for { let offset := add(s1, 32) } lt(offset, add(s1, 16416)) { offset := add(offset, 32) } {
             let s1i := mload(offset) //s1[i]
             let cond := gt(s1i, qs1) //s1[i] > qs1 ?
             s1i := add(mul(cond, sub(q, s1i)), mul(sub(1, cond), s1i))
-- 
2.43.0


From 7b1cb0d53a812cbd3962f5b8f35385c277868e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 14/36] fix: count the last coefficient of s1 in the on-chain
 Falcon verifier

---
 src/ZKNOX_falcon_core.sol | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ZKNOX_falcon_core.sol b/src/ZKNOX_falcon_core.sol
index 6e880ac..cf84b7b 100644
--- a/src/ZKNOX_falcon_core.sol
+++ b/src/ZKNOX_falcon_core.sol
@@ -59,7 +59,7 @@ function falcon_normalize(
 
     // OPTIMIZATION: Added memory-safe annotation, use lt instead of gt for clarity
     assembly ("memory-safe") {
-        for { let offset := 32 } lt(offset, 16384) { offset := add(offset, 32) } {
+        for { let offset := 32 } lt(offset, 16416) { offset := add(offset, 32) } {
             let s1i := addmod(mload(add(hashed, offset)), sub(q, mload(add(s1, offset))), q) //s1[i] = addmod(hashed[i], q - s1[i], q);
             let cond := gt(s1i, qs1) //s1[i] > qs1 ?
             s1i := add(mul(cond, sub(q, s1i)), mul(sub(1, cond), s1i))
-- 
2.43.0


From 3b82275b5b262de91bd11604fe220d93eccf9caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 15/36] fix: accept a signature whose norm equals the bound on
 chain

The specification, the C and the Python verifiers accept norm <= bound.
---
 src/ZKNOX_falcon_core.sol | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ZKNOX_falcon_core.sol b/src/ZKNOX_falcon_core.sol
index cf84b7b..0dfa45f 100644
--- a/src/ZKNOX_falcon_core.sol
+++ b/src/ZKNOX_falcon_core.sol
@@ -42,7 +42,7 @@ function falcon_checkPolynomialRange(uint256[] memory polynomial, bool is_compac
 ///      1. Computes s1 = h - s1 (mod q) where h is hash-to-point result
 ///      2. Normalizes both s1 and s2 to centered representatives (-q/2, q/2]
 ///      3. Computes squared L2 norm: ||s1||² + ||s2||²
-///      4. Verifies norm² < sigBound = 34034726
+///      4. Verifies norm² <= sigBound = 34034726
 /// @param s1 First signature component (will be overwritten with h - s1)
 /// @param s2 Second signature component in compacted format (32 words)
 /// @param hashed Hash-to-point result (512 coefficients)
@@ -85,7 +85,7 @@ function falcon_normalize(
             norm := add(norm, mul(s1i, s1i))
         }
 
-        result := gt(sigBound, norm) //norm < SigBound ?
+        result := iszero(gt(norm, sigBound)) //norm <= SigBound ?
     }
 
     return result;
@@ -94,7 +94,7 @@ function falcon_normalize(
 /// @notice Core Falcon-512 verification algorithm with compacted input
 /// @dev Implements the Falcon signature verification equation:
 ///      1. Computes s1 = h - h·s2 (in NTT domain) where h is the public key
-///      2. Verifies ||s1||² + ||s2||² < sigBound
+///      2. Verifies ||s1||² + ||s2||² <= sigBound
 /// @dev Uses compacted polynomial representation for gas efficiency
 /// @param s2 Second signature component (32 uint256 words, compacted)
 /// @param ntth Public key in NTT domain (32 uint256 words, compacted)
-- 
2.43.0


From 7bd1edd202e90e894ad183146c76d74ffd1fd0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 16/36] fix: reject s2 coefficients that are not below q on
 chain

A lane holding v + q verified like v, so anyone could make other encodings of
a signature. The range check existed but was not called, tested against q with
> and expanded the wrong one of its two formats.
---
 src/ZKNOX_falcon_core.sol | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ZKNOX_falcon_core.sol b/src/ZKNOX_falcon_core.sol
index 0dfa45f..9ef60f0 100644
--- a/src/ZKNOX_falcon_core.sol
+++ b/src/ZKNOX_falcon_core.sol
@@ -16,7 +16,7 @@ import "./ZKNOX_NTT_falcon.sol";
 /// @return true if all coefficients are valid (< q), false otherwise
 function falcon_checkPolynomialRange(uint256[] memory polynomial, bool is_compact) pure returns (bool) {
     uint256[] memory a;
-    if (is_compact == false) {
+    if (is_compact) {
         a = _ZKNOX_NTT_Expand(polynomial);
     } else {
         a = polynomial;
@@ -28,7 +28,7 @@ function falcon_checkPolynomialRange(uint256[] memory polynomial, bool is_compac
         let ptr := add(a, 32)
         let endPtr := add(ptr, shl(5, len)) // len * 32
         for {} lt(ptr, endPtr) { ptr := add(ptr, 32) } {
-            if gt(mload(ptr), q) {
+            if iszero(lt(mload(ptr), q)) {
                 result := 0
                 ptr := endPtr // break
             }
@@ -110,6 +110,7 @@ function falcon_core(
 {
     if (hashed.length != 512) return false;
     if (s2.length != 32) return false; //"Invalid signature length"
+    if (!falcon_checkPolynomialRange(s2, true)) return false; //one encoding per signature
 
     result = false;
 
-- 
2.43.0


From 294027bbacbce452df7070e3324598d9e8225ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 17/36] fix: count the last coefficients of s1 and s2 in
 Epervier recovery

---
 src/ZKNOX_epervier.sol    | 2 +-
 src/ZKNOX_ethepervier.sol | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ZKNOX_epervier.sol b/src/ZKNOX_epervier.sol
index e5ba946..d1e211d 100644
--- a/src/ZKNOX_epervier.sol
+++ b/src/ZKNOX_epervier.sol
@@ -48,7 +48,7 @@ contract ZKNOX_epervier {
 
         assembly {
             //normalization
-            for { let offset := 32 } gt(16384, offset) { offset := add(offset, 32) } {
+            for { let offset := 32 } gt(16416, offset) { offset := add(offset, 32) } {
                 let s1i := mload(add(s1, offset))
 
                 let cond := gt(s1i, qs1) //s1[i] > qs1 ?
diff --git a/src/ZKNOX_ethepervier.sol b/src/ZKNOX_ethepervier.sol
index 8ec7b55..895a255 100644
--- a/src/ZKNOX_ethepervier.sol
+++ b/src/ZKNOX_ethepervier.sol
@@ -47,7 +47,7 @@ contract ZKNOX_ethepervier {
 
         assembly {
             //normalization
-            for { let offset := 32 } gt(16384, offset) { offset := add(offset, 32) } {
+            for { let offset := 32 } gt(16416, offset) { offset := add(offset, 32) } {
                 let s1i := mload(add(s1, offset))
 
                 let cond := gt(s1i, qs1) //s1[i] > qs1 ?
-- 
2.43.0


From 7288d68bd009eaaf928d753a9d7b06d84a0e8e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 18/36] fix: reject coefficients and hints that are not below q
 in Epervier recovery

A lane of s1 holding v + q counted as v in the norm but shifted the hashed
point, and lanes of s2 and hints shifted by q recovered the same address.
---
 src/ZKNOX_epervier.sol    | 5 +++++
 src/ZKNOX_ethepervier.sol | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/ZKNOX_epervier.sol b/src/ZKNOX_epervier.sol
index d1e211d..63a697f 100644
--- a/src/ZKNOX_epervier.sol
+++ b/src/ZKNOX_epervier.sol
@@ -44,24 +44,29 @@ contract ZKNOX_epervier {
 
         // (s1,s2) must be short
         uint256 norm = 0;
+        uint256 outOfRange = 0; // coefficients must be below q
         // As (σ1,σ2) are given with positive values, small negative values are actually large (close to q).
 
         assembly {
             //normalization
             for { let offset := 32 } gt(16416, offset) { offset := add(offset, 32) } {
                 let s1i := mload(add(s1, offset))
+                outOfRange := or(outOfRange, iszero(lt(s1i, q)))
 
                 let cond := gt(s1i, qs1) //s1[i] > qs1 ?
                 s1i := add(mul(cond, sub(q, s1i)), mul(sub(1, cond), s1i))
                 norm := add(norm, mul(s1i, s1i))
 
                 let s2i := mload(add(s2, offset))
+                outOfRange := or(outOfRange, iszero(lt(s2i, q)))
                 let cond2 := gt(s2i, qs1) //s1[i] > qs1 ?
                 s2i := add(mul(cond2, sub(q, s2i)), mul(sub(1, cond2), s2i))
                 norm := add(norm, mul(s2i, s2i))
             }
         }
 
+        if (outOfRange != 0) revert("coefficient out of range");
+        if (hint >= q) revert("hint out of range");
         if (norm > sigBound) {
             revert("norm too large");
         }
diff --git a/src/ZKNOX_ethepervier.sol b/src/ZKNOX_ethepervier.sol
index 895a255..2f14329 100644
--- a/src/ZKNOX_ethepervier.sol
+++ b/src/ZKNOX_ethepervier.sol
@@ -43,24 +43,29 @@ contract ZKNOX_ethepervier {
 
         // (s1,s2) must be short
         uint256 norm = 0;
+        uint256 outOfRange = 0; // coefficients must be below q
         // As (σ1,σ2) are given with positive values, small negative values are actually large (close to q).
 
         assembly {
             //normalization
             for { let offset := 32 } gt(16416, offset) { offset := add(offset, 32) } {
                 let s1i := mload(add(s1, offset))
+                outOfRange := or(outOfRange, iszero(lt(s1i, q)))
 
                 let cond := gt(s1i, qs1) //s1[i] > qs1 ?
                 s1i := add(mul(cond, sub(q, s1i)), mul(sub(1, cond), s1i))
                 norm := add(norm, mul(s1i, s1i))
 
                 let s2i := mload(add(s2, offset))
+                outOfRange := or(outOfRange, iszero(lt(s2i, q)))
                 let cond2 := gt(s2i, qs1) //s1[i] > qs1 ?
                 s2i := add(mul(cond2, sub(q, s2i)), mul(sub(1, cond2), s2i))
                 norm := add(norm, mul(s2i, s2i))
             }
         }
 
+        if (outOfRange != 0) revert("coefficient out of range");
+        if (hint >= q) revert("hint out of range");
         if (norm > sigBound) {
             revert("norm too large");
         }
-- 
2.43.0


From ea4dad40fa0b09cbde6f079852693a1d3baa93d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 19/36] fix: require the exact signature length in
 verify(bytes,bytes32,bytes)

Up to 31 appended bytes were ignored.
---
 src/ZKNOX_ethfalcon.sol | 1 +
 src/ZKNOX_falcon.sol    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ZKNOX_ethfalcon.sol b/src/ZKNOX_ethfalcon.sol
index b9eb64f..19f9991 100644
--- a/src/ZKNOX_ethfalcon.sol
+++ b/src/ZKNOX_ethfalcon.sol
@@ -77,6 +77,7 @@ contract ZKNOX_ethfalcon is ISigVerifier {
     }
 
     function verify(bytes calldata _pubkey, bytes32 _digest, bytes calldata _sig) external view returns (bytes4) {
+        if (_sig.length != SALT_LEN + 32 * falcon_S256) revert("invalid signature length");
         address pkContractAddress;
         assembly {
             pkContractAddress := shr(96, calldataload(_pubkey.offset))
diff --git a/src/ZKNOX_falcon.sol b/src/ZKNOX_falcon.sol
index c1f4635..28cfa5f 100644
--- a/src/ZKNOX_falcon.sol
+++ b/src/ZKNOX_falcon.sol
@@ -79,6 +79,7 @@ contract ZKNOX_falcon is ISigVerifier {
     }
 
     function verify(bytes calldata _pubkey, bytes32 _digest, bytes calldata _sig) external view returns (bytes4) {
+        if (_sig.length != SALT_LEN + 32 * falcon_S256) revert("invalid signature length");
         address pkContractAddress;
         assembly {
             pkContractAddress := shr(96, calldataload(_pubkey.offset))
-- 
2.43.0


From 68693b943b5da6c9f3c226ab09e3990e408eb5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 20/36] fix: reject -0 and non-zero trailing bits when
 decompressing a signature on chain

---
 src/ZKNOX_falcon_encodings.sol | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ZKNOX_falcon_encodings.sol b/src/ZKNOX_falcon_encodings.sol
index 8a8c924..183f284 100644
--- a/src/ZKNOX_falcon_encodings.sol
+++ b/src/ZKNOX_falcon_encodings.sol
@@ -64,9 +64,9 @@ function _decompress_sig(bytes memory buf, uint256 offset) pure returns (uint256
         /*
         * "-0" is forbidden.
         */
-        //	if ( ((s==0) && (m==0)) ) {//TODO: replace
-        //		revert("incorrect zero encoding");
-        //	}
+        if (s != 0 && m == 0) {
+            revert("incorrect zero encoding");
+        }
 
         assembly {
             let temp := m // x[u] = m;
@@ -78,6 +78,10 @@ function _decompress_sig(bytes memory buf, uint256 offset) pure returns (uint256
         }
     } //end loop u
 
+    //unused bits of the last byte must be zero
+    if ((acc & ((1 << acc_len) - 1)) != 0) {
+        revert("incorrect trailing bits");
+    }
     //console.log("last read sig:",uint8(buf[v]));
     if ((v - offset) >= max_in_len) {
         revert("too long");
-- 
2.43.0


From b5a73bfb02da44a68e7d30967651389a717c8ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 21/36] fix: make_immutable freezes the tables of ZKNOX_NTT

The flag was already set by the constructor and update() required it, so the
tables could be replaced by anyone after make_immutable().
---
 src/ZKNOX_NTT.sol | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ZKNOX_NTT.sol b/src/ZKNOX_NTT.sol
index 2c22f3c..3260a64 100644
--- a/src/ZKNOX_NTT.sol
+++ b/src/ZKNOX_NTT.sol
@@ -64,11 +64,11 @@ contract ZKNOX_NTT {
 
         o_psirev = Apsi_rev;
         o_psi_inv_rev = Apsi_inrev;
-        is_immutable = 1;
+        is_immutable = 0;
     }
 
     function update(address Apsi_rev, address Apsi_inrev, uint256 q, uint256 nm1modq) public {
-        if (is_immutable > 0) {
+        if (is_immutable == 0) {
             storage_q = q; //prime field modulus
             storage_nm1modq = nm1modq; //n^-1 mod 12289, used in inverse NTT
 
-- 
2.43.0


From 306359bb9723b27e4af6126d45c21079be14596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 22/36] fix: sign_cli drew its signing randomness from a stream
 that depended on neither the message nor the private key

---
 pythonref/sign_cli.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index 819887d..ec9ba8f 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -122,10 +122,15 @@ def signature(sk, data, version):
     # separator
     deterministic_bytes.update(bytes([0x00]))
     # secret key encoded
-    deterministic_bytes.update(b''.join(x.to_bytes(2, 'big') for x in sk.h))
+    deterministic_bytes.update(b''.join(
+        (x % q).to_bytes(2, 'big')
+        for poly in (sk.f, sk.g, sk.F, sk.G)
+        for x in poly
+    ))
     # data TODO consider h(M) instead here.
     # if H does not output 32 bytes, change V above.
     deterministic_bytes.update(data)
+    deterministic_bytes.flip()
 
     return sk.sign(
         data,
-- 
2.43.0


From 13ce039e914dc2a785a99899f04e6655122be53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 23/36] fix: sign_cli sign_tx always raised TypeError and took
 the version from the command line instead of the key file

---
 pythonref/sign_cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index ec9ba8f..5726a56 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -390,9 +390,9 @@ def cli():
         print(tx_hash)
         [sk, version] = load_sk(args.privkey)
         pk = PublicKey(512, sk.h)
-        sig = signature(sk, tx_hash, args.version)
-        assert (verify_signature(pk, tx_hash, sig))
-        print_signature_transaction(sig, pk, tx_hash, version)
+        sig = signature(sk, tx_hash, version)
+        assert (verify_signature(pk, tx_hash, sig, version))
+        print_signature_transaction(sig, pk, tx_hash)
 
     elif args.action == "verify":
         if not args.data or not args.pubkey or not args.signature:
-- 
2.43.0


From ba8e895bb181709a5929298f5a556287a6115991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 24/36] fix: sign_cli verify raised UnboundLocalError for
 falconrec keys

---
 pythonref/sign_cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index 5726a56..36e68c8 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -173,10 +173,11 @@ def print_signature_transaction(sig, pk, tx_hash):
 def verify_signature(pk, data, sig, version):
     if version == 'falcon' or version == 'epervier':
         XOF = SHAKE
-    elif version == 'ethfalcon':
+    elif version == 'ethfalcon' or version == 'falconrec':
         XOF = KeccakPRNG
     else:
         print('NOT IMPLEMENTED YET')
+        return False
     return pk.verify(data, sig, xof=XOF)
 
 
-- 
2.43.0


From f4d9d0fad99a3d384b20681ae1b529e79a061761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 25/36] fix: sign_cli recoveronchain called recover with a
 malformed signature string

---
 pythonref/sign_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index 36e68c8..ebab1cb 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -205,7 +205,7 @@ def recover_on_chain(data, sig, contract_address, rpc, version):
 
     command = [
         "cast", "call", contract_address,
-        "recover(bytes,bytes,uint256[],uint256[],uint256,)", MSG, SALT, S1, S2, HINT, "--rpc-url", rpc
+        "recover(bytes,bytes,uint256[],uint256[],uint256)", MSG, SALT, S1, S2, HINT, "--rpc-url", rpc
     ]
 
     result = subprocess.run(
-- 
2.43.0


From 7838451ccdd04181c9fd0a511ddb5c37f4f86b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 26/36] fix: sign_cli recoveronchainsend left out s1 and put a
 space in the function signature

---
 pythonref/sign_cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index ebab1cb..84dc8dd 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -275,11 +275,12 @@ def recover_on_chain_with_transaction(data, sig, contract_address, rpc, private_
         hint = (hint * elt) % q
     HINT = str(hint)
 
-    command = "cast send --private-key {} {} \"recover(bytes,bytes,uint256[],uint256[], uint256)\" {} {} \"{}\" \"{}\" \"{}\" --rpc-url {}".format(
+    command = "cast send --private-key {} {} \"recover(bytes,bytes,uint256[],uint256[],uint256)\" {} {} \"{}\" \"{}\" \"{}\" --rpc-url {}".format(
         private_key,
         contract_address,
         MSG,
         SALT,
+        S1,
         S2,
         HINT,
         rpc
-- 
2.43.0


From 60eeaf0c83019be9225f46a8fdd705973de52a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 27/36] fix: prng_get_bytes returned the start of the buffer
 instead of the bytes at the read position

---
 falcon/nistfalcon/src/rng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falcon/nistfalcon/src/rng.c b/falcon/nistfalcon/src/rng.c
index dd03a22..16586a1 100644
--- a/falcon/nistfalcon/src/rng.c
+++ b/falcon/nistfalcon/src/rng.c
@@ -179,7 +179,7 @@ Zf(prng_get_bytes)(prng *p, void *dst, size_t len)
 		if (clen > len) {
 			clen = len;
 		}
-		memcpy(buf, p->buf.d, clen);
+		memcpy(buf, p->buf.d + p->ptr, clen);
 		buf += clen;
 		len -= clen;
 		p->ptr += clen;
-- 
2.43.0


From 23f85a56b67651c66f3ad9246c7ccbc9af0f4abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 28/36] fix: ntru_solve never ended when a Babai quotient is
 exactly one half

---
 pythonref/ntrugen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pythonref/ntrugen.py b/pythonref/ntrugen.py
index 5aa7bda..2dceda1 100755
--- a/pythonref/ntrugen.py
+++ b/pythonref/ntrugen.py
@@ -138,9 +138,11 @@ def reduce(f, g, F, G):
                           mul_fft(Ga_fft, adj_fft(ga_fft)))
         k_fft = div_fft(num_fft, den_fft)
         k = ifft(k_fft)
-        k = [int(round(elt)) for elt in k]
-        if all(elt == 0 for elt in k):
+        # A quotient of exactly 1/2 is computed as slightly more or less: it
+        # must not be rounded up and down forever.
+        if all(abs(elt) < 0.5 + 1e-6 for elt in k):
             break
+        k = [int(round(elt)) for elt in k]
         # The two next lines are the costliest operations in ntru_gen
         # (more than 75% of the total cost in dimension n = 1024).
         # There are at least two ways to make them faster:
-- 
2.43.0


From 29068b6fab790256cdaee8bd323db4d604cd98b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:47 +0000
Subject: [PATCH 29/36] fix: ntru_gen with logn returned keys whose F or G does
 not fit the key format, where the C reference retries

---
 pythonref/ntrugen.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pythonref/ntrugen.py b/pythonref/ntrugen.py
index 2dceda1..93b0f52 100755
--- a/pythonref/ntrugen.py
+++ b/pythonref/ntrugen.py
@@ -9,6 +9,7 @@ from polyntt.poly import Poly
 from common import sqnorm, q
 from samplerz import samplerz
 from mkgauss import poly_small_mkgauss
+from falcon_codec import MAX_FG_BITS, MAX_FG_BITS_FG
 from os import urandom
 
 
@@ -253,6 +254,11 @@ def ntru_gen(n, ntt=NTTIterative, randombytes=urandom, logn=None):
             F, G = ntru_solve(f, g)
             F = [int(coef) for coef in F]
             G = [int(coef) for coef in G]
+            # As the C reference does, retry when the key cannot be encoded.
+            if logn is not None and (
+                    max(map(abs, f + g)) >= 1 << (MAX_FG_BITS[logn] - 1) or
+                    max(map(abs, F + G)) >= 1 << (MAX_FG_BITS_FG[logn] - 1)):
+                continue
             return f, g, F, G
         except ValueError:
             continue
\ No newline at end of file
-- 
2.43.0


From 1afeec99013bae7a1d7483f333ce5a58d0cf312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:07 +0000
Subject: [PATCH 30/36] fix: falcon.go overran its buffers on long messages and
 signatures, read past short keys and panicked on empty input

---
 falcon/falcon.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/falcon/falcon.go b/falcon/falcon.go
index 0a11476..da490dd 100644
--- a/falcon/falcon.go
+++ b/falcon/falcon.go
@@ -42,10 +42,13 @@ func GenerateKeypair() ([]byte, []byte, error) {
 
 // SignMessage signs a message using the private key
 func SignMessage(message []byte, sk []byte) ([]byte, error) {
-	var sm [SignatureSize]C.uchar
+	if len(sk) != SecretKeySize {
+		return nil, fmt.Errorf("invalid private key length: %d", len(sk))
+	}
+	sm := make([]C.uchar, C.CRYPTO_BYTES+len(message))
 	var smlen C.ulonglong
 
-	ret := C.crypto_sign(&sm[0], &smlen, (*C.uchar)(unsafe.Pointer(&message[0])), C.ulonglong(len(message)), (*C.uchar)(unsafe.Pointer(&sk[0])))
+	ret := C.crypto_sign(&sm[0], &smlen, (*C.uchar)(unsafe.Pointer(unsafe.SliceData(message))), C.ulonglong(len(message)), (*C.uchar)(unsafe.Pointer(&sk[0])))
 	if ret != 0 {
 		return nil, fmt.Errorf("signing failed: %d", int(ret))
 	}
@@ -57,10 +60,13 @@ func SignMessage(message []byte, sk []byte) ([]byte, error) {
 
 // VerifySignature verifies a signature for a given message and public key
 func VerifySignature(signature []byte, message []byte, pk []byte) (bool, error) {
-	var m [1024]C.uchar // Buffer for the recovered message
+	if len(pk) != PublicKeySize {
+		return false, fmt.Errorf("invalid public key length: %d", len(pk))
+	}
+	m := make([]C.uchar, len(signature)+1) // Buffer for the recovered message
 	var mlen C.ulonglong
 
-	ret := C.crypto_sign_open(&m[0], &mlen, (*C.uchar)(unsafe.Pointer(&signature[0])), C.ulonglong(len(signature)), (*C.uchar)(unsafe.Pointer(&pk[0])))
+	ret := C.crypto_sign_open(&m[0], &mlen, (*C.uchar)(unsafe.Pointer(unsafe.SliceData(signature))), C.ulonglong(len(signature)), (*C.uchar)(unsafe.Pointer(&pk[0])))
 	if ret != 0 {
 		return false, fmt.Errorf("verification failed: %d", int(ret))
 	}
-- 
2.43.0


From cdc4a61e680f31014aa691102739f980edb406aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:07 +0000
Subject: [PATCH 31/36] fix: falcon.go never seeded the native generator, so
 every process generated the same keys and signature randomness

---
 falcon/falcon.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/falcon/falcon.go b/falcon/falcon.go
index da490dd..50843bd 100644
--- a/falcon/falcon.go
+++ b/falcon/falcon.go
@@ -7,6 +7,7 @@ package falcon
 
 #include <stdlib.h>
 #include "api.h"
+#include "katrng.h"
 
 // Wrapper for crypto_sign_keypair, crypto_sign, crypto_sign_open
 
@@ -14,6 +15,7 @@ package falcon
 import "C"
 
 import (
+	"crypto/rand"
 	"fmt"
 	"unsafe"
 )
@@ -24,6 +26,16 @@ const (
 	SignatureSize  = 1330 // Falcon signature size
 )
 
+// The native generator starts from an all-zero state: without a seed, every
+// process would draw the same keys and the same signature randomness.
+func init() {
+	var entropy [48]byte
+	if _, err := rand.Read(entropy[:]); err != nil {
+		panic(err)
+	}
+	C.randombytes_init((*C.uchar)(unsafe.Pointer(&entropy[0])), nil, 256)
+}
+
 // GenerateKeypair generates a public/private keypair
 func GenerateKeypair() ([]byte, []byte, error) {
 	var pk [PublicKeySize]C.uchar
-- 
2.43.0


From 1b4bea871349ee4056355175b0c716f91a4a3488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:07 +0000
Subject: [PATCH 32/36] fix: concurrent calls of falcon.go raced on the native
 generator and could share signature randomness

---
 falcon/falcon.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/falcon/falcon.go b/falcon/falcon.go
index 50843bd..a016bfa 100644
--- a/falcon/falcon.go
+++ b/falcon/falcon.go
@@ -17,6 +17,7 @@ import "C"
 import (
 	"crypto/rand"
 	"fmt"
+	"sync"
 	"unsafe"
 )
 
@@ -26,6 +27,9 @@ const (
 	SignatureSize  = 1330 // Falcon signature size
 )
 
+// The native generator is one global state: calls that draw from it must not overlap.
+var generator sync.Mutex
+
 // The native generator starts from an all-zero state: without a seed, every
 // process would draw the same keys and the same signature randomness.
 func init() {
@@ -41,6 +45,8 @@ func GenerateKeypair() ([]byte, []byte, error) {
 	var pk [PublicKeySize]C.uchar
 	var sk [SecretKeySize]C.uchar
 
+	generator.Lock()
+	defer generator.Unlock()
 	ret := C.crypto_sign_keypair(&pk[0], &sk[0])
 	if ret != 0 {
 		return nil, nil, fmt.Errorf("keypair generation failed: %d", int(ret))
@@ -60,6 +66,8 @@ func SignMessage(message []byte, sk []byte) ([]byte, error) {
 	sm := make([]C.uchar, C.CRYPTO_BYTES+len(message))
 	var smlen C.ulonglong
 
+	generator.Lock()
+	defer generator.Unlock()
 	ret := C.crypto_sign(&sm[0], &smlen, (*C.uchar)(unsafe.Pointer(unsafe.SliceData(message))), C.ulonglong(len(message)), (*C.uchar)(unsafe.Pointer(&sk[0])))
 	if ret != 0 {
 		return nil, fmt.Errorf("signing failed: %d", int(ret))
-- 
2.43.0


From 0d07e9812daf55c0a50984375e2fd03f04ed4dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:31 +0000
Subject: [PATCH 33/36] fix: a signature of only its header byte was verified
 against whatever the stack held, such as the last signature opened

---
 falcon/nistfalcon/src/nist.c   | 2 +-
 falcon/nistfalcon/src/nist16.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/falcon/nistfalcon/src/nist.c b/falcon/nistfalcon/src/nist.c
index 099f788..85c5b9c 100644
--- a/falcon/nistfalcon/src/nist.c
+++ b/falcon/nistfalcon/src/nist.c
@@ -337,7 +337,7 @@ int crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 	 * Decode signature.
 	 */
 	esig = sm + 2 + NONCELEN + msg_len;
-	if (sig_len < 1 || esig[0] != 0x20 + 9)
+	if (sig_len < 2 || esig[0] != 0x20 + 9)
 	{
 		return -1;
 	}
diff --git a/falcon/nistfalcon/src/nist16.c b/falcon/nistfalcon/src/nist16.c
index 7e432b3..5f9daf5 100644
--- a/falcon/nistfalcon/src/nist16.c
+++ b/falcon/nistfalcon/src/nist16.c
@@ -352,7 +352,7 @@ int zknox_crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 	 * Decode signature.
 	 */
 	esig = sm + 2 + NONCELEN + msg_len;
-	if (sig_len < 1 || esig[0] != 0x20 + 9)
+	if (sig_len < 2 || esig[0] != 0x20 + 9)
 	{
 		return -1;
 	}
-- 
2.43.0


From 31d040e5628cb11a313aa11c0233bf1d6502312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:55 +0000
Subject: [PATCH 34/36] fix: KeccaXOF kept a reference to its input, so a byte
 array changed after update() changed the stream

---
 pythonref/keccaxof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonref/keccaxof.py b/pythonref/keccaxof.py
index c49c81c..908c647 100755
--- a/pythonref/keccaxof.py
+++ b/pythonref/keccaxof.py
@@ -15,7 +15,7 @@ class KeccaXOF:
     def update(self, data):
         if self.last is not None:
             raise ValueError('KeccaXOF.update() called after digest()')
-        self.input.append(data)
+        self.input.append(bytes(data))
 
     def read(self, bytes):
         to_slice = bytes * 2
-- 
2.43.0


From a1ed162b7ad17eb6fbd3bf88c802b72cd20ffce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:10 +0000
Subject: [PATCH 35/36] fix: KeccaXOF.read returned two bytes when asked for
 one and raised for any length but one or two

---
 pythonref/keccaxof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonref/keccaxof.py b/pythonref/keccaxof.py
index 908c647..997f208 100755
--- a/pythonref/keccaxof.py
+++ b/pythonref/keccaxof.py
@@ -34,7 +34,7 @@ class KeccaXOF:
 
         buff = self.tmp[:to_slice]
         self.tmp = self.tmp[to_slice:]
-        return int(buff, 16).to_bytes(2, 'big')
+        return int('0' + buff, 16).to_bytes(bytes, 'big')
 
     def flip(self):
         return
-- 
2.43.0


From 521671847eebb5b8f5433cd57268127304234d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:57 +0000
Subject: [PATCH 36/36] fix: generate_kat_rsp.py wrote the length of the whole
 message where the signature length belongs and kept the padding, so native
 code rejected its vectors

---
 pythonref/scripts/generate_kat_rsp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonref/scripts/generate_kat_rsp.py b/pythonref/scripts/generate_kat_rsp.py
index 67408ea..64d07ec 100755
--- a/pythonref/scripts/generate_kat_rsp.py
+++ b/pythonref/scripts/generate_kat_rsp.py
@@ -224,11 +224,11 @@ def sign_message(sk, msg_hex, seed_hex):
     # Extract components from Python signature
     python_header = sig[0:1]  # First byte (e.g., 0x39)
     salt = sig[1:41]  # Bytes 1-40
-    compressed_sig = sig[41:]  # Rest is compressed signature
+    compressed_sig = sig[41:].rstrip(b'\0')  # Rest is compressed signature, without padding
 
-    # Calculate signature length for Solidity format
-    # slen includes: salt(40) + message + solidity_header(1) + compressed_sig
-    slen = 40 + len(msg) + 1 + len(compressed_sig)
+    # Calculate signature length, as in the NIST format
+    # slen includes: solidity_header(1) + compressed_sig
+    slen = 1 + len(compressed_sig)
 
     # Build Solidity-compatible format:
     # slen(2) + salt(40) + message(mlen) + solidity_header(1=0x29) + compressed_sig
-- 
2.43.0

