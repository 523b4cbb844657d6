From 2d4004b32e0b093728b9ec9e073c3514d09b51f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 1/4] fix: reject a PKCS7 padding length of zero

A valid padding has between 1 and block_size bytes; a final block ending in
a zero byte was accepted and returned whole.
---
 src/pkcs7.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pkcs7.rs b/src/pkcs7.rs
index eb50bb2..090af7a 100644
--- a/src/pkcs7.rs
+++ b/src/pkcs7.rs
@@ -125,7 +125,7 @@ impl Unpad {
         }
 
         let len = self.storage[self.storage.len() - 1];
-        if len > (self.block_size as u8) {
+        if len == 0 || len > (self.block_size as u8) {
             return Err(UnpadError::InvalidPadding);
         }
         let pad_off: usize = self.block_size - usize::from(len);
-- 
2.43.0


From 1d58540f994f8caf57f3b5d01f852e879fdb23a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 2/4] fix: report trailing partial ciphertext block when
 flushing a Decipher

Bytes of an incomplete final block were silently dropped and the message
accepted.
---
 src/aes_cbc.rs | 4 ++++
 src/pkcs7.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/aes_cbc.rs b/src/aes_cbc.rs
index 7cde4d3..0e88a12 100644
--- a/src/aes_cbc.rs
+++ b/src/aes_cbc.rs
@@ -215,6 +215,10 @@ impl Decipher {
 
     /// Decrypt and return final cleartext data
     pub fn flush(&mut self) -> Result<Vec<u8>, DecipherError> {
+        if !self.buffer.is_empty() {
+            return Err(DecipherError::PKCS7(pkcs7::UnpadError::UnfinishedBlock));
+        }
+
         match self.unpad.flush() {
             Err(err) => Err(DecipherError::PKCS7(err)),
             Ok(block) => Ok(block),
diff --git a/src/pkcs7.rs b/src/pkcs7.rs
index 090af7a..f1c3590 100644
--- a/src/pkcs7.rs
+++ b/src/pkcs7.rs
@@ -50,6 +50,10 @@ impl Pad {
         self.storage.clear();
         result
     }
+
+    pub fn is_empty(&self) -> bool {
+        self.storage.is_empty()
+    }
 }
 
 /// Possible unpad errors
-- 
2.43.0


From 77577065a37611d7512b93e4add0291440f1a7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 3/4] fix: refuse scrypt n = 1

The cost parameter must be larger than 1, as documented.
---
 src/scrypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scrypt.rs b/src/scrypt.rs
index 3629c7e..a27a27e 100644
--- a/src/scrypt.rs
+++ b/src/scrypt.rs
@@ -231,7 +231,7 @@ impl Scrypt {
             return Err(ScryptError::RIsTooSmall);
         }
 
-        if self.n < 1 {
+        if self.n < 2 {
             return Err(ScryptError::NIsTooSmall);
         }
 
-- 
2.43.0


From ba484e7a776c0f595c067f5f68d884fa1624e117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 4/4] fix: process every block of the input in salsa20

Inputs of several blocks are documented as supported, but only the first
block was transformed and the rest of the output left untouched.
---
 src/salsa20.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/salsa20.rs b/src/salsa20.rs
index 1ccde8b..006ca6c 100644
--- a/src/salsa20.rs
+++ b/src/salsa20.rs
@@ -162,6 +162,15 @@ fn littleendian_inv(x: u32, y: &mut [u8]) {
 /// ```
 ///
 pub fn salsa20(input: &[u8], rounds: usize, output: &mut [u8]) {
+    for (input, output) in input
+        .chunks(BLOCK_SIZE)
+        .zip(output.chunks_mut(BLOCK_SIZE))
+    {
+        salsa20_block(input, rounds, output);
+    }
+}
+
+fn salsa20_block(input: &[u8], rounds: usize, output: &mut [u8]) {
     //
     // In short: Salsa20(x) = x + doubleround^10(x), where each 4-byte sequence is
     // viewed as a word in little-endian form.
-- 
2.43.0

