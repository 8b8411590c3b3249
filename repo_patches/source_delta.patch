From dd238f71f9b1192de6513f00ea5e86c5e59b43b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 1/9] fix: reduce the Poly1305 accumulator when it is at least
 2^130 - 5

`add` does not truncate the top limb to 8 bits, so after adding 252 to it a
non-negative difference leaves bit 8 set and `h[16] >> 7` is 2, whose negation
is not a select mask. Tags were wrong whenever the final accumulator was not
already fully reduced.
---
 src/poly1305.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poly1305.rs b/src/poly1305.rs
index fce0a06..76ce071 100644
--- a/src/poly1305.rs
+++ b/src/poly1305.rs
@@ -209,7 +209,7 @@ impl PolyFunction {
             &[5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
             252,
         );
-        let negative = (self.h[16] >> 7).wrapping_neg();
+        let negative = ((self.h[16] >> 7) & 1).wrapping_neg();
         for (h_j, &h_orig_j) in self.h.iter_mut().zip(h_orig.iter()) {
             *h_j ^= negative & (h_orig_j ^ *h_j);
         }
-- 
2.43.0


From 982fd76ca41074b9b916248a5a7aecd24bb1b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 2/9] fix: allow HKDF to expand to the documented 255 digests

The u8 counter range `1..` computes its next element eagerly and overflowed
(a panic with overflow checks) for any output of 254 digests or more.
---
 src/hkdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hkdf.rs b/src/hkdf.rs
index c5ec08e..839f31b 100644
--- a/src/hkdf.rs
+++ b/src/hkdf.rs
@@ -40,7 +40,7 @@ pub fn expand<H: HashFunction>(prk: &[u8], info: &[u8], okm: &mut [u8]) {
     assert!(digest_size <= prk.len());
     assert!(255 * digest_size >= okm.len());
     let mut hmac: Hmac<H> = Hmac::new(prk);
-    for (i, chunk) in (1..).zip(okm.chunks_mut(digest_size)) {
+    for (i, chunk) in (1..=255).zip(okm.chunks_mut(digest_size)) {
         hmac.update(info);
         hmac.update(&[i]);
         let tag = hmac.tag();
-- 
2.43.0


From 094523dd2624ec7441ad856a45b471ba10606590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 3/9] fix: do not overflow the GCM counter below the documented
 length limit

The u32 counter range `2..` computes its next element eagerly and overflowed
(a panic with overflow checks) for messages of more than 2^36 - 64 bytes, while
up to 2^36 - 33 bytes are allowed.
---
 src/gcm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gcm.rs b/src/gcm.rs
index 5136370..6bd954d 100644
--- a/src/gcm.rs
+++ b/src/gcm.rs
@@ -87,7 +87,7 @@ impl<E: BlockCipher> Processor<E> {
 
     fn process(&self, counter: &mut [u8; 16], input: &[u8], output: &mut [u8]) {
         for (i, (input_chunk, output_chunk)) in
-            (2..).zip(input.chunks(16).zip(output.chunks_mut(16)))
+            (2..=u32::MAX).zip(input.chunks(16).zip(output.chunks_mut(16)))
         {
             let block = self.block(counter, i);
             for (block_byte, (input_byte, output_byte)) in
-- 
2.43.0


From 24a53b6bdba26ec88e6f2839f372a7a21fb6a5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 4/9] fix: reject Ed25519 signatures whose scalar is not below
 the group order

RFC 8032 section 5.1.7 requires 0 <= S < L. Only the top three bits of S were
checked, so (R, S + L) was accepted whenever (R, S) was.
---
 src/ed25519.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ed25519.rs b/src/ed25519.rs
index 1353faf..c2f0f38 100644
--- a/src/ed25519.rs
+++ b/src/ed25519.rs
@@ -73,6 +73,9 @@ pub fn verify(message: &[u8], signature: &[u8], public_key: &[u8]) -> bool {
     if signature.len() != 64 || (signature[63] & 224 != 0) {
         return false;
     }
+    if !sc_is_canonical(&signature[32..]) {
+        return false;
+    }
     let a = match GeP3::from_bytes_negate_vartime(public_key) {
         Some(g) => g,
         None => return false,
@@ -869,6 +872,17 @@ fn sc_muladd(s: &mut [u8], a: &[u8; 64], b: &[u8; 64], c: &[u8; 64]) {
     s[31] = (s11 >> 17) as u8;
 }
 
+/// The order of the base point, in little-endian.
+const ORDER: [u8; 32] = [
+    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
+];
+
+/// Returns whether a little-endian scalar is less than the order of the base point.
+fn sc_is_canonical(s: &[u8]) -> bool {
+    s.iter().rev().lt(ORDER.iter().rev())
+}
+
 fn sc_reduce(s: &mut [u8; 64]) {
     let mut s0 = 2097151 & load_3(s) as i64;
     let mut s1 = 2097151 & (load_4(&s[2..]) >> 5) as i64;
-- 
2.43.0


From ae6dc014a016699e5e03b92e82a00764a1dc6101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 5/9] fix: reject non-canonical Ed25519 public keys

RFC 8032 section 5.1.3 makes decoding fail when y is not below p, and when x
is 0 while the sign bit is 1. Such keys were accepted as aliases of another
encoding.
---
 src/ed25519.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ed25519.rs b/src/ed25519.rs
index c2f0f38..748248a 100644
--- a/src/ed25519.rs
+++ b/src/ed25519.rs
@@ -1350,6 +1350,12 @@ impl GeP3 {
         let check = &mut Fe::default();
 
         h.y.assign_from_bytes(s);
+        let y = &mut [0; 32];
+        h.y.write_bytes(y);
+        y[31] |= s[31] & 128;
+        if y != s {
+            return None;
+        }
         h.z.assign_one();
         u.assign_square(&h.y);
         v.assign_product(u, &Fe::from(D));
@@ -1377,6 +1383,9 @@ impl GeP3 {
             h.x *= &Fe::from(SQRTM1);
         }
 
+        if s[31] >> 7 == 1 && h.x.is_nonzero() == 0 {
+            return None;
+        }
         if h.x.is_negative() == i32::from(s[31] >> 7) {
             h.x.neg();
         }
-- 
2.43.0


From e5b2076ae1b4c4bd7624a39f8b7b386f528c09d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 6/9] fix: enforce the RFC 8439 message length limit of
 ChaCha20-Poly1305

The u32 block counter wrapped after 2^38 - 64 bytes, so the next ciphertext
block was encrypted with keystream block 0, which holds the Poly1305 key (with
overflow checks the call panicked instead, already at the limit itself).
---
 src/poly1305.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/poly1305.rs b/src/poly1305.rs
index 76ce071..b3d3a85 100644
--- a/src/poly1305.rs
+++ b/src/poly1305.rs
@@ -4,6 +4,9 @@ use crate::gcm::AeadCipher;
 use crate::util;
 use byteorder::{ByteOrder as _, LittleEndian};
 
+/// The longest message whose blocks can be counted from 1 in 32 bits.
+const MAX_MESSAGE_LEN: u64 = (1 << 38) - 64;
+
 /// A ChaCha20-Poly1305 AEAD cipher.
 pub struct ChaCha20Poly1305 {
     key: [u8; 32],
@@ -26,9 +29,11 @@ impl AeadCipher for ChaCha20Poly1305 {
     ///
     /// # Panics
     ///
-    /// Panics if `input.len()` is not equal to `output.len()` or `nonce.len()` is not equal to 12.
+    /// Panics if `input.len()` is not equal to `output.len()`, `nonce.len()` is not equal to 12, or
+    /// `input.len()` is more than 2^38 - 64.
     fn encrypt(&self, input: &[u8], nonce: &[u8], data: &[u8], output: &mut [u8]) -> [u8; 16] {
         assert_eq!(input.len(), output.len());
+        assert!(input.len() as u64 <= MAX_MESSAGE_LEN);
         let cipher = &ChaCha20::new(&self.key, nonce);
         self.process(cipher, input, output);
         self.tag(cipher, output, data)
@@ -38,7 +43,8 @@ impl AeadCipher for ChaCha20Poly1305 {
     ///
     /// # Panics
     ///
-    /// Panics if `input.len()` is not equal to `output.len()` or `nonce.len()` is not equal to 12.
+    /// Panics if `input.len()` is not equal to `output.len()`, `nonce.len()` is not equal to 12, or
+    /// `input.len()` is more than 2^38 - 64.
     fn decrypt(
         &self,
         input: &[u8],
@@ -48,6 +54,7 @@ impl AeadCipher for ChaCha20Poly1305 {
         output: &mut [u8],
     ) -> bool {
         assert_eq!(output.len(), input.len());
+        assert!(input.len() as u64 <= MAX_MESSAGE_LEN);
         let cipher = &ChaCha20::new(&self.key, nonce);
         let expected_tag = self.tag(cipher, input, data);
         if util::verify_16(&expected_tag, tag) {
@@ -62,7 +69,7 @@ impl AeadCipher for ChaCha20Poly1305 {
 impl ChaCha20Poly1305 {
     fn process(&self, cipher: &ChaCha20, input: &[u8], output: &mut [u8]) {
         for (i, (input_chunk, output_chunk)) in
-            (1..).zip(input.chunks(64).zip(output.chunks_mut(64)))
+            (1..=u32::MAX).zip(input.chunks(64).zip(output.chunks_mut(64)))
         {
             let block = cipher.block(i);
             for (block_byte, (input_byte, output_byte)) in
-- 
2.43.0


From 136564c20d03e94599ab983b689a045f9876ee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 7/9] fix: select in Poly1305 freeze with a mask the optimiser
 cannot turn into a branch

With a mask known to be all zeros or all ones, release builds branched on
whether the final accumulator needs reduction, which depends on the key and
the message. The top limb is 252 to 257 after the addition, so bit 8 alone
tells a non-negative difference.
---
 src/poly1305.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poly1305.rs b/src/poly1305.rs
index b3d3a85..5ffc21d 100644
--- a/src/poly1305.rs
+++ b/src/poly1305.rs
@@ -216,7 +216,7 @@ impl PolyFunction {
             &[5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
             252,
         );
-        let negative = ((self.h[16] >> 7) & 1).wrapping_neg();
+        let negative = (self.h[16] >> 8).wrapping_sub(1);
         for (h_j, &h_orig_j) in self.h.iter_mut().zip(h_orig.iter()) {
             *h_j ^= negative & (h_orig_j ^ *h_j);
         }
-- 
2.43.0


From 6a8dc4124a9d18b7edbbe72fb65c0405d3bd3ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:38 +0000
Subject: [PATCH 8/9] fix: compare the lengths of GCM with its limits as 64-bit
 numbers

1 << 36 and 1 << 61 do not fit a 32-bit usize, so the crate did not
compile for 32-bit targets.
---
 src/gcm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gcm.rs b/src/gcm.rs
index 6bd954d..352a046 100644
--- a/src/gcm.rs
+++ b/src/gcm.rs
@@ -127,8 +127,8 @@ fn counter(nonce: &[u8]) -> [u8; 16] {
 fn check_bounds(message: &[u8], ciphertext: &[u8], nonce: &[u8], data: &[u8]) {
     assert_eq!(12, nonce.len());
     assert_eq!(message.len(), ciphertext.len());
-    assert!(1 << 36 > message.len() + 32);
-    assert!(1 << 61 > data.len());
+    assert!(1 << 36 > message.len() as u64 + 32);
+    assert!(1 << 61 > data.len() as u64);
 }
 
 #[cfg(test)]
-- 
2.43.0


From 519c0e5680bacf55bf410188bcb20f450f04e9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:38 +0000
Subject: [PATCH 9/9] fix: link std only in tests when the std feature is off

The extern crate kept the crate from building for targets without an
operating system.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 83dc000..64bed13 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,7 +2,7 @@
 #[cfg(feature = "std")]
 extern crate core;
 
-#[cfg(not(feature = "std"))]
+#[cfg(all(test, not(feature = "std")))]
 #[macro_use]
 pub(crate) extern crate std;
 
-- 
2.43.0

