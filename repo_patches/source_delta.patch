From a809926185351999ad7376c28629e0553495c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:29 +0000
Subject: [PATCH 01/39] fix: do not read past the end of a 24-byte AES key

---
 src/aes/aes_amd64.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aes/aes_amd64.rs b/src/aes/aes_amd64.rs
index abddbe2..26f1c37 100644
--- a/src/aes/aes_amd64.rs
+++ b/src/aes/aes_amd64.rs
@@ -113,7 +113,7 @@ impl AES {
     #[target_feature(enable = "aes", enable = "sse2")]
     unsafe fn key_schedule_192(key: &[u8], enc: &mut Vec<march::__m128i>) {
         let mut temp1 = march::_mm_loadu_si128(transmute(key.as_ptr()));
-        let mut temp3= march::_mm_loadu_si128(transmute(key.as_ptr().offset(16)));
+        let mut temp3= march::_mm_loadl_epi64(transmute(key.as_ptr().offset(16)));
         enc.push(temp1);
         let key_temp= temp3;
         let mut temp2= march::_mm_aeskeygenassist_si128 (temp3,0x1);
-- 
2.43.0


From b7ee00b0f7720650b944fb65ce87060b7459b001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:00 +0000
Subject: [PATCH 02/39] fix: start SHA-512/t from an empty message after
 deriving its initial value

---
 src/sha/sha512.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sha/sha512.rs b/src/sha/sha512.rs
index a272922..cd93578 100644
--- a/src/sha/sha512.rs
+++ b/src/sha/sha512.rs
@@ -206,6 +206,7 @@ impl SHA512T {
             sha_.write(s.as_bytes());
             let mut _x = Vec::new();
             sha_.checksum(&mut _x);
+            sha_.len = 0;
             sha_.is_checked = false;
             Some(
                 SHA512T {
-- 
2.43.0


From 291b7846f1cbb558039d147f5f35d3bc7c42e95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:00 +0000
Subject: [PATCH 03/39] fix: keep the leading bits of the last byte in
 SHA-512/t digests

---
 src/sha/sha512.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha/sha512.rs b/src/sha/sha512.rs
index cd93578..3c4b6cf 100644
--- a/src/sha/sha512.rs
+++ b/src/sha/sha512.rs
@@ -240,7 +240,7 @@ impl Digest for SHA512T {
         match digest.pop() {
             Some(x) => {
                 let y = if rom > 0 {
-                    (x >> (8 - rom)) << rom
+                    (x >> (8 - rom)) << (8 - rom)
                 } else {
                     x
                 };
-- 
2.43.0


From 08cf6cd8b860037208ca183d7808a63be3397280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:35 +0000
Subject: [PATCH 04/39] fix: refuse sponge rates that are not smaller than the
 permutation width

---
 src/keccak/keccak.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keccak/keccak.rs b/src/keccak/keccak.rs
index 0e9185e..682336c 100644
--- a/src/keccak/keccak.rs
+++ b/src/keccak/keccak.rs
@@ -393,7 +393,7 @@ impl KeccakSponge {
     /// Sponge[Keccak-p[b,nr], pad10*1, rate]  
     /// `rate` must be a positive integer and strictly less than the width `self.widths()`.
     pub fn new(keccak: Keccak, rate: usize) -> Result<KeccakSponge, CryptoError> {
-        if rate > 0 || rate < keccak.widths() {
+        if rate > 0 && rate < keccak.widths() {
             Ok(KeccakSponge {
                 rate,
                 keccak,
-- 
2.43.0


From 590bac73c7fef5793723cf25680654b325341572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:35 +0000
Subject: [PATCH 05/39] fix: use the right round constants for negative round
 indices of Keccak-p

---
 src/keccak/keccak.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/keccak/keccak.rs b/src/keccak/keccak.rs
index 682336c..0c1be83 100644
--- a/src/keccak/keccak.rs
+++ b/src/keccak/keccak.rs
@@ -285,8 +285,7 @@ impl Keccak {
     
     fn rc(t: i64) -> u8 {
         const MODULUS: usize = 255;
-        let t = if t >= 0 {Self::minus_rem_euclid((t & 0xffffffff) as usize,0, MODULUS)}
-            else {Self::minus_rem_euclid(0, (t & 0xffffffff) as usize, MODULUS)};
+        let t = t.rem_euclid(MODULUS as i64) as usize;
         
         if t == 0 {
             1
-- 
2.43.0


From e51e65cb55df0f6714834782f8580938934ebe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:08 +0000
Subject: [PATCH 06/39] fix: report the bytes ZUC encrypts from left-over
 keystream

---
 src/zuc/zuc_cipher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zuc/zuc_cipher.rs b/src/zuc/zuc_cipher.rs
index 2223a2a..61dec07 100644
--- a/src/zuc/zuc_cipher.rs
+++ b/src/zuc/zuc_cipher.rs
@@ -103,7 +103,7 @@ impl Cipher for ZUCCipher {
         self.get_key().truncate(self.get_key().len() - len);
         
         if plaintext_block.is_empty() {
-            return Ok(0);
+            return Ok(dst.len());
         }
 
         let len = (plaintext_block.len() + 3) >> 2;
-- 
2.43.0


From 855b9a9de263b6342111658b828f8b71b0b76c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:08 +0000
Subject: [PATCH 07/39] fix: make 128-EIA3 tags independent of write splits and
 repeated requests

---
 src/zuc/zuc_mac.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/zuc/zuc_mac.rs b/src/zuc/zuc_mac.rs
index 0f91371..b128e85 100644
--- a/src/zuc/zuc_mac.rs
+++ b/src/zuc/zuc_mac.rs
@@ -38,7 +38,8 @@ impl ZUCMac {
             iv[15] = iv[7];
 
             match ZUC::from_slice(ck, iv.as_ref()) {
-                Ok(z) => {
+                Ok(mut z) => {
+                    let (key0, key1) = (z.zuc(), z.zuc());
                     let mut tmp = [0u8; 16];
                     tmp.iter_mut().zip(ck.iter()).for_each(|(e, &k)| {
                         *e = k;
@@ -47,8 +48,8 @@ impl ZUCMac {
                         zuc: z,
                         ck: tmp,
                         iv,
-                        key0: 0,
-                        key1: 0,
+                        key0,
+                        key1,
                         length: 0,
                         t: 0,
                         is_check: false,
@@ -82,10 +83,8 @@ impl Digest for ZUCMac {
         
         let bound = data.len() << 3;
         
-        self.key0 = self.zuc.zuc();
-        self.key1 = self.zuc.zuc();
         for i in 0..bound {
-            let rem = i & 31;
+            let rem = (self.length + i) & 31;
             if Self::is_one(data, i) {
                 if rem == 0 {
                     self.t ^= self.key0;
@@ -112,7 +111,7 @@ impl Digest for ZUCMac {
                 self.t ^= (self.key0 << rem) | (self.key1 >> (32 - rem));
                 self.t ^= self.zuc.zuc();
             }
-
+            self.is_check = true;
         }
         
         digest.clear();
@@ -121,9 +120,10 @@ impl Digest for ZUCMac {
 
     fn reset(&mut self) {
         self.zuc.set_slice(self.ck.as_ref(), self.iv.as_ref()).unwrap();
-        self.key0 = 0;
-        self.key1 = 0;
+        self.key0 = self.zuc.zuc();
+        self.key1 = self.zuc.zuc();
         self.length = 0;
         self.t = 0;
+        self.is_check = false;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 33315b6ec1ca662905c01f4aee8036ea5c0aad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 08/39] fix: pad only up to the next block boundary

When the 0x80 byte completed a block, padding appended a whole extra block
of zeros. Streaming decryption looks for the 0x80 byte in the last block only,
so such messages could not be decrypted.
---
 src/cipher_mode/padding.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/cipher_mode/padding.rs b/src/cipher_mode/padding.rs
index 58f1990..6d5cab8 100644
--- a/src/cipher_mode/padding.rs
+++ b/src/cipher_mode/padding.rs
@@ -28,13 +28,9 @@ impl<C: Cipher> DefaultPadding<C> {
 impl<C: Cipher> Padding for DefaultPadding<C> {
     fn padding(&self, buf: &mut Vec<u8>) {
         buf.push(0x80);
-        let old_len = buf.len();
-        if self.block_size < old_len {
-            buf.resize(old_len + (self.block_size - (old_len % self.block_size)), 0);
-        } else if self.block_size > old_len {
-            buf.resize(self.block_size, 0);
-        } else {
-            buf.resize(self.block_size << 1, 0);
+        let rem = buf.len() % self.block_size;
+        if rem > 0 {
+            buf.resize(buf.len() + (self.block_size - rem), 0);
         }
     }
 
-- 
2.43.0


From f4d6b06242218dcee3977d5af0fd267986de1eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 09/39] fix: refuse data that does not end in 0x80 and zeros
 when unpadding

Other bytes were skipped while searching for 0x80, so malformed padding was
accepted and message bytes were cut off at the wrong place. Padding is never
longer than a block, so the search ends there too.
---
 src/cipher_mode/padding.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cipher_mode/padding.rs b/src/cipher_mode/padding.rs
index 6d5cab8..c1416f5 100644
--- a/src/cipher_mode/padding.rs
+++ b/src/cipher_mode/padding.rs
@@ -37,11 +37,13 @@ impl<C: Cipher> Padding for DefaultPadding<C> {
     fn unpadding(&self, buf: &mut Vec<u8>) -> Result<usize, CryptoError> {
         let mut len = 0;
         for &e in buf.iter().rev() {
-            if e == 0 {
+            if e == 0 && len + 1 < self.block_size {
                 len += 1;
             } else if e == 0x80 {
                 buf.truncate(buf.len() - len - 1);
                 return Ok(buf.len());
+            } else {
+                break;
             }
         }
         
-- 
2.43.0


From 7fa455f70fd02ce523dea8f7e262a5e6d3f44872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 10/39] fix: chain the padded tail in one-shot CBC encryption

The blocks produced by the padding were encrypted without being combined with
the previous ciphertext block, so decryption did not give the message back.
---
 src/cipher_mode/cbc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 3c71d60..830db84 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -152,9 +152,11 @@ impl<C, P, IV> Cipher for CBC<C, P, IV>
         let mut data = tmp.as_slice();
         while !data.is_empty() {
             let len = std::cmp::min(block_len, data.len());
-            let tmp = &data[..len];
-            match self.cipher.encrypt(txt, tmp) {
+            let tmp: Vec<u8> = data[..len].iter().zip(cur_iv.iter()).map(|(&a, &b)| a ^ b).collect();
+            match self.cipher.encrypt(txt, tmp.as_slice()) {
                 Ok(_) => {
+                    cur_iv.clear();
+                    cur_iv.extend_from_slice(txt.as_slice());
                     dst.append(txt);
                     data = &data[len..];
                 },
-- 
2.43.0


From 0c3e282b0acbeda384ed9969c349c5819630c228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 11/39] fix: restart CBC streams from the initial vector after
 every finish

With nothing left to encrypt the chaining value was kept for the next message,
and with more than one padded block it was reset in between.
---
 src/cipher_mode/cbc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 830db84..32682ed 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -306,8 +306,7 @@ impl<C, P, IV> EncryptStream for CBCEncrypt<C, P, IV>
             Self::xor_iv(txt, tmp, &self.ij);
             match self.cbc.cipher.encrypt(&mut self.ij, txt.as_slice()) {
                 Ok(_) => {
-                    self.pond.append(&mut self.ij);
-                    self.ij.extend(self.cbc.cur_iv.iter());
+                    self.pond.extend(self.ij.iter());
                     data = &data[len..];
                 },
                 Err(e) => {
@@ -317,6 +316,8 @@ impl<C, P, IV> EncryptStream for CBCEncrypt<C, P, IV>
         }
         
         self.data.clear();
+        self.ij.clear();
+        self.ij.extend(self.cbc.cur_iv.iter());
         Ok(Pond::new(&mut self.pond, true))
     }
 }
-- 
2.43.0


From cb0ce98d2d11d139c03f27739380c50bf41ae00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 12/39] fix: let ECB and CBC decryption streams finish on empty
 input

One-shot decryption accepts an empty ciphertext when the padding does; the
streams handed the empty buffer to the cipher and failed.
---
 src/cipher_mode/cbc.rs | 7 +++++++
 src/cipher_mode/ecb.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 32682ed..52c1f81 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -362,6 +362,13 @@ impl<C, P, IV> DecryptStream for CBCDecrypt<C, P, IV>
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
         let txt = self.cbc.get_buf();
+        if self.data.is_empty() {
+            txt.clear();
+            return match self.cbc.padding.unpadding(txt) {
+                Ok(_) => Ok(Pond::new(&mut self.pond, true)),
+                Err(e) => Err(e),
+            };
+        }
         match self.cbc.cipher.decrypt(txt, self.data.as_slice()) {
             Ok(_) => {
                 txt.iter_mut().zip(self.ij.iter()).for_each(|(a, &b)| {
diff --git a/src/cipher_mode/ecb.rs b/src/cipher_mode/ecb.rs
index 7640665..8928c9f 100644
--- a/src/cipher_mode/ecb.rs
+++ b/src/cipher_mode/ecb.rs
@@ -305,6 +305,13 @@ impl<C, P> DecryptStream for ECBDecrypt<C, P>
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
         let txt = self.ecb.get_buf();
+        if self.data.is_empty() {
+            txt.clear();
+            return match self.ecb.padding.unpadding(txt) {
+                Ok(_) => Ok(Pond::new(&mut self.pond, true)),
+                Err(e) => Err(e),
+            };
+        }
         match self.ecb.cipher.decrypt(txt, self.data.as_slice()) {
             Ok(_) => {
                 if let Err(e) = self.ecb.padding.unpadding(txt) {
-- 
2.43.0


From a04e905ea0cc1b6067048987e9a1b5d61f69c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 13/39] fix: hold back the padded tail in CFB decryption
 streams

The padding was removed from whatever output had not been drawn off yet, so
drawing off after every write returned the padding or failed. A leftover
shorter than a segment made finish panic, it is refused now.
---
 src/cipher_mode/cfb.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index 97961de..2880750 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -305,7 +305,10 @@ impl<C, P, IV> DecryptStream for CFBDecrypt<C, P, IV>
             self.data.extend_from_slice(data);
         }
         
-        let bound = self.data.len() - (self.data.len() % self.cfb.s);
+        // the padding may extend over the last block, it's decrypted in the `finish`
+        let block_len = self.cfb.cipher.block_size().unwrap_or(self.cfb.s);
+        let bound = self.data.len().saturating_sub(block_len);
+        let bound = bound - (bound % self.cfb.s);
         let data = &self.data.as_slice()[..bound];
         
         if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut self.pond, data) {
@@ -321,12 +324,19 @@ impl<C, P, IV> DecryptStream for CFBDecrypt<C, P, IV>
     }
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
-        if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut self.pond, self.data.as_slice()) {
+        if self.data.len() % self.cfb.s != 0 {
+            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter,
+                format!("Wrong ciphertext len: {}, the ciphertext length(in bytes) should be a multiple of {}", self.data.len(), self.cfb.s)));
+        }
+        
+        let mut txt = Vec::with_capacity(self.data.len());
+        if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut txt, self.data.as_slice()) {
             Err(e)
         } else {
-            if let Err(e) = self.cfb.padding.unpadding(&mut self.pond) {
+            if let Err(e) = self.cfb.padding.unpadding(&mut txt) {
                 return Err(e);
             } else {
+                self.pond.append(&mut txt);
                 self.data.clear();
                 self.ij.clear();
                 self.ij.extend(self.cfb.cur_iv.iter());
-- 
2.43.0


From 8cca7b16105d163fdd0dc0337bd903f7abac788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 14/39] fix: refuse CFB plaintext that is not a whole number of
 segments

Without padding the trailing bytes were silently dropped from the ciphertext.
---
 src/cipher_mode/cfb.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index 2880750..13fa459 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -122,6 +122,11 @@ impl<C, P, IV> CFB<C, P, IV>
     }
     
     fn encrypt_inner(&self, ij: &mut Vec<u8>, dst: &mut Vec<u8>, mut data: &[u8]) -> Result<usize, CryptoError> {
+        if data.len() % self.s != 0 {
+            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter,
+                format!("Wrong plaintext len: {}, the plaintext length(in bytes) should be a multiple of {}", data.len(), self.s)));
+        }
+        
         let oj = self.get_buf();
         while data.len() >= self.s {
             match self.cipher.encrypt(oj, ij.as_slice()) {
@@ -193,9 +198,9 @@ impl<C, P, IV> Cipher for CFB<C, P, IV>
         
         dst.clear();
         
-        self.encrypt_inner(&mut ij, dst, plaintext_block)?;
-        
         let remain = plaintext_block.len() % self.s;
+        self.encrypt_inner(&mut ij, dst, &plaintext_block[..(plaintext_block.len() - remain)])?;
+        
         let mut data = plaintext_block[(plaintext_block.len() - remain)..plaintext_block.len()].to_vec();
         
         self.padding.padding(&mut data);
@@ -272,11 +277,11 @@ impl<C, P, IV> EncryptStream for CFBEncrypt<C, P, IV>
             }
         }
         
-        if let Err(e) = self.cfb.encrypt_inner(&mut self.ij, &mut self.pond, data) {
+        let bound = data.len() - (data.len() % self.cfb.s);
+        if let Err(e) = self.cfb.encrypt_inner(&mut self.ij, &mut self.pond, &data[..bound]) {
             Err(e)
         } else {
-            let len = data.len() % self.cfb.s;
-            data = &data[(data.len() - len)..];
+            data = &data[bound..];
             self.data.extend_from_slice(data);
             Ok(Pond::new(&mut self.pond, false))
         }
-- 
2.43.0


From 7e0e772e2ab0cd5362b6a39e0ed9d4089aefb9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 15/39] fix: use the low-order bytes of counters longer than a
 block in CTR

The high-order bytes were taken, which stay the same while the counter
advances, so every block was encrypted with the same key stream.
---
 src/cipher_mode/ctr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cipher_mode/ctr.rs b/src/cipher_mode/ctr.rs
index 668faf5..e13d9ad 100644
--- a/src/cipher_mode/ctr.rs
+++ b/src/cipher_mode/ctr.rs
@@ -61,7 +61,7 @@ impl<C, T>  CTR<C, T>
         while !data.is_empty() {
             match self.get_counter().next() {
                 Some(c) => {
-                    match self.cipher.encrypt(oj, &c.as_slice()[..block_len]) {
+                    match self.cipher.encrypt(oj, &c.as_slice()[(c.len() - block_len)..]) {
                         Ok(_) => {
                             let len = std::cmp::min(block_len,data.len());
                             let block = &data[..len];
-- 
2.43.0


From eb40a0022137beedd9772b24eb628f9b6e224632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 16/39] fix: refuse the modulus itself in the RSA private
 operation

The representative must be below the modulus; the modulus itself was let through.
---
 src/rsa/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 5d56232..c408fa5 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -246,7 +246,7 @@ impl PrivateKey {
     /// RSADP: RSA decrypt primitive  
     /// if `rd` is some, then enabled RSA blinding
     pub fn decrypt<R: IterSource<u32>>(&self, c: &BigInt, rd: Option<&mut R>) -> Result<BigInt, CryptoError> {
-        if c > &self.pk.n {
+        if c >= &self.pk.n {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The cipher text integer is too big"));
         }
         
-- 
2.43.0


From cd1bf07379ef6c227a74b1830364bf27f20c103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 17/39] fix: draw a new blinding factor when it has no inverse

`mod_inverse` does not return a NaN for numbers that share a factor with the
modulus, so such a blinding factor was used and gave a wrong result.
---
 src/rsa/rsa.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index c408fa5..847268c 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -274,7 +274,9 @@ impl PrivateKey {
                     };
                     
                     let mi = r.mod_inverse(self.pk.n.clone());
-                    if !mi.is_nan() {
+                    let mut unit = r.clone() * mi.clone();
+                    unit.rem_euclid_assign(self.pk.n.clone());
+                    if unit == 1u32 {
                         break (r, Some(mi));
                     }
                 };
-- 
2.43.0


From d67dbca128e87d93bf42144ea6e0e7b1d063d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 18/39] fix: reduce before subtracting in the RSA residue
 recombination

`rem_euclid` gives the modulus instead of zero for negative multiples of it.
The difference of two residues can be one when the second prime is the longer
one or when there are more than two primes; the result was then off by the
modulus.
---
 src/rsa/rsa.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 847268c..4be0cf7 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -300,7 +300,7 @@ impl PrivateKey {
                 c.exp(&self.precomputed.d_p, &self.primes[0]),
                 c.exp(&self.precomputed.d_q, &self.primes[1]),
             );
-            m1 -= m2.clone();
+            m1 -= m2.rem_euclid(self.primes[0].clone());
             if m1.signnum().unwrap() < 0 {
                 m1 += self.primes[0].clone();
             }
@@ -312,12 +312,12 @@ impl PrivateKey {
             // m1 as m
             for (values, prime) in self.precomputed.crt_values.iter().zip(self.primes.iter().skip(2)) {
                 let mut m_i = c.exp(&values.exp, prime);
-                m_i -= m1.clone();
-                m_i *= values.coeff.clone();
-                m_i.rem_euclid_assign(prime.clone());
+                m_i -= m1.rem_euclid(prime.clone());
                 if m_i.signnum().unwrap() < 0 {
                     m_i += prime.clone();
                 }
+                m_i *= values.coeff.clone();
+                m_i.rem_euclid_assign(prime.clone());
                 
                 m_i *= values.r.clone();
                 m1 += m_i;
-- 
2.43.0


From 937b5680de8340a68b9bdc648cedb1ef0c12751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 19/39] fix: compare all pairs of primes in RSA key generation

Only neighbouring primes were compared, so a key of three or more primes could
use one of them twice.
---
 src/rsa/rsa.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 4be0cf7..dcd0882 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -468,8 +468,7 @@ impl PrivateKey {
             }
 
             // Make sure that primes is pairwise unequal.
-            primes.dedup();
-            if primes.len() != n_primes {
+            if primes.iter().enumerate().any(|(i, prime)| {primes[..i].contains(prime)}) {
                 continue'next_set_of_primes;
             }
 
-- 
2.43.0


From 0c679f53b32c3d5dfa286301e4ce263534eb123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 20/39] fix: generate new RSA primes when the public exponent
 has no inverse

`mod_inverse` does not return a NaN when there is no inverse, so an unusable key
was returned.
---
 src/rsa/rsa.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index dcd0882..46a1a30 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -486,9 +486,11 @@ impl PrivateKey {
                 continue 'next_set_of_primes;
             }
 
-            let pri_exp = pub_exp.mod_inverse(totient);
+            let pri_exp = pub_exp.mod_inverse(totient.clone());
+            let mut unit = pri_exp.clone() * pub_exp.clone();
+            unit.rem_euclid_assign(totient);
 
-            if !pri_exp.is_nan() {
+            if unit == 1u32 {
                 break (pri_exp, n);
             }
         };
-- 
2.43.0


From 37dfee0cc0859fb2085c67f13687fb840545ccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 21/39] fix: refuse OAEP ciphertexts shorter than the modulus

---
 src/rsa/oaep.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 851c5e9..8a72dc7 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -103,7 +103,7 @@ impl<H, R> OAEPInner<H, R>
         kp.public_key().is_valid()?;
         
         let (k, h_len) = (kp.public_key().modulus_len(), (self.hf.bits_len() + 7) >> 3);
-        if k < cipher_text.len() || k < ((h_len << 1) + 2) {
+        if k != cipher_text.len() || k < ((h_len << 1) + 2) {
             return Err(CryptoError::new(CryptoErrorKind::InvalidPublicKey, "The public key modulus is too short"));
         }
         
-- 
2.43.0


From f61a15f06fcfaf6ff31144f7bcd269596ec84620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 22/39] fix: refuse OAEP blocks without the 0x01 separator

A block with nothing but zeros after the label hash was decoded to an empty
message.
---
 src/rsa/oaep.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 8a72dc7..fa07d59 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -143,16 +143,22 @@ impl<H, R> OAEPInner<H, R>
         }
         
         let (rest_bound, mut idx) = ((db_bound.0 + h_len, db_bound.1), db_bound.0 + h_len);
+        let mut is_separated = false;
         for &x in (&em[(rest_bound.0)..(rest_bound.1)]).iter() {
             idx += 1;
             if x != 0x00 {
                 if x != 0x01 {
                     return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid message encoding format"));
                 }
+                is_separated = true;
                 break;
             }
         }
         
+        if !is_separated {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid message encoding format"));
+        }
+        
         msg.clear();
         msg.extend((&em[idx..]).iter());
         Ok(())
-- 
2.43.0


From 10d93fd077c75a23bb2bd402e7de3257861de978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 23/39] fix: encrypt the empty message with RSAES-PKCS1

The result was empty and could not be decrypted.
---
 src/rsa/pkcs1.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 244e54f..20a92eb 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -39,9 +39,6 @@ impl<H, R> PKCS1Inner<H, R>
     
     fn encrypt(&mut self, cipher: &mut Vec<u8>, msg: &[u8]) -> Result<(), CryptoError> {
         cipher.clear();
-        if msg.is_empty() {
-            return Ok(());
-        }
         
         self.kp.public_key().is_valid()?;
         
-- 
2.43.0


From ee9a3b0cf8818e3f32b1bf2059a65aa831e45b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 24/39] fix: report an exhausted random source in RSAES-PKCS1
 encryption

The padding string came out too short.
---
 src/rsa/pkcs1.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 20a92eb..d3900c9 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -63,6 +63,9 @@ impl<H, R> PKCS1Inner<H, R>
                 break;
             }
         }
+        if em.len() < bound {
+            return Err(CryptoError::new(CryptoErrorKind::InnerErr, "Not enough random numbers"));
+        }
         em.truncate(bound);
         em.push(0x00);
         em.extend(msg.iter());
-- 
2.43.0


From e61de70fda93568cd558681bee94042bb6336b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 25/39] fix: check length and range of RSASSA-PKCS1 signatures

RFC 8017 8.2.2 and 5.2.2: a signature has exactly the length of the modulus and
a value below it.
---
 src/rsa/pkcs1.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index d3900c9..296899c 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -182,7 +182,14 @@ impl<H, R> PKCS1Inner<H, R>
             return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "The public key modulus length is too short"));
         }
         
+        if k != sign.len() {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid signature length"));
+        }
+        
         let c = BigInt::from_be_bytes(sign);
+        if &c >= self.kp.public_key().modulus() {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid signature content"));
+        }
         let m = self.kp.public_key().encrypt(&c);
         let mut em = m.to_be_bytes();
         let old_len = em.len();
-- 
2.43.0


From 8d3f932da7aa67cf9a1d6414a5552ff03086c000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 26/39] fix: return an error for hash functions RSASSA-PKCS1
 does not know

Signing and verifying panicked.
---
 src/rsa/pkcs1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 296899c..a996a00 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -243,7 +243,7 @@ impl<H, R> PKCS1Inner<H, R>
         } else if TypeId::of::<H>() == TypeId::of::<SHA512>() {
             Ok(vec![0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03, 0x05, 0x00, 0x04, 0x40])
         } else {
-            unreachable!(format!("not suuport {}", std::any::type_name::<H>()));
+            Err(CryptoError::new(CryptoErrorKind::NotSupportUsage, format!("{} is not currently supported", std::any::type_name::<H>())))
         }
     }
     
-- 
2.43.0


From 366c7a3ba70f439660288ca6135f7fa3a51ccb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 27/39] fix: mask the leading bits of the PSS block in
 verification

The number of unused bits was computed with a shift in the wrong direction, and
the shift amount was out of range when there are no unused bits: verification
panicked, or refused valid signatures in release builds.
---
 src/rsa/pss.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 4a8b5c0..c5bbc26 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -220,7 +220,8 @@ impl<H, R> PSS<H, R>
         let (db_start, db_end) = (0, em_len - h_len - 1);
         let (h_start, h_end) = (db_end, em_len - 1);
         
-        if (em[0] & (0xffu8 << (8 - ((em_len << 3) - em_bits)))) != 0 {
+        let head_mask = 0xffu8 >> ((em_len << 3) - em_bits);
+        if (em[0] & !head_mask) != 0 {
             return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid head tag"));
         }
         
@@ -228,7 +229,7 @@ impl<H, R> PSS<H, R>
         let h = &em[h_start..h_end];
         Self::mgf1_xor(db.as_mut_slice(), h, &mut self.hf);
         
-        db[0] &= 0xff >> ((em_len >> 3) - em_bits);
+        db[0] &= head_mask;
 
         for &e in db.iter().take(em_len - h_len - self.salt_len() - 2) {
             if e != 0x00 {
-- 
2.43.0


From 4b9d6180f08f9007b2a23ff10ec3ccd48e134985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 28/39] fix: refuse RSASSA-PSS signatures that are not below
 the modulus

---
 src/rsa/pss.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index c5bbc26..ea4cf8d 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -300,6 +300,9 @@ impl<H, R> PSS<H, R>
         }
         
         let s = BigInt::from_be_bytes(sign);
+        if &s >= self.kp.public_key().modulus() {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid signature content"));
+        }
         let m = self.kp.public_key().encrypt(&s);
         
         let em_bits = n_bits - 1;
-- 
2.43.0


From c1e3eec889f6976751eaa03ff5c29613abb11428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 29/39] fix: report an exhausted random source in RSASSA-PSS
 signing

The salt came out too short and the signature did not verify.
---
 src/rsa/pss.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index ea4cf8d..5daf7d4 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -288,6 +288,9 @@ impl<H, R> PSS<H, R>
             x.to_be_bytes().iter().for_each(|&y| {salt.push(y);});
         });
         salt.truncate(salt_len);
+        if salt.len() != salt_len {
+            return Err(CryptoError::new(CryptoErrorKind::InnerErr, "Not enough random numbers"));
+        }
         
         self.sign_with_salt(sign, m_hash, salt.as_slice())
     }
-- 
2.43.0


From e4684d23890ee292578f99be6e7a10a06a9aa308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 30/39] fix: derive the automatic PSS salt length from the
 encoded block

The block is one byte shorter than the modulus when the modulus has a single bit
in its first byte; such keys were refused.
---
 src/rsa/pss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 5daf7d4..4ff35ca 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -59,7 +59,7 @@ impl<H, R> PSS<H, R>
                 if x > 0 {
                     x
                 } else {
-                    ((bits_len + 7) >> 3).saturating_sub(2 + h_len)
+                    ((bits_len.saturating_sub(1) + 7) >> 3).saturating_sub(2 + h_len)
                 }
             },
             None => {
-- 
2.43.0


From be15179e2676bb11f51c688156cac558ee2aa4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 31/39] fix: truncate the hash in DSA verification as in
 signing

Signatures made with a hash longer than q did not verify.
---
 src/dsa/dsa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index b7bae9d..dc5ee15 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -331,7 +331,8 @@ impl<H, R> DSA<H, R>
         self.hf.write(msg);
         self.hf.checksum(&mut hm);
         
-        let mut z = BigInt::from_be_bytes(hm.as_slice());
+        let tmp = std::cmp::min(h_len, n >> 3);
+        let mut z = BigInt::from_be_bytes(&hm.as_slice()[..tmp]);
         z *= w.clone();
         let mut u1 = z;
         u1.rem_euclid_assign(dp.q.clone());
-- 
2.43.0


From 3065f4e5db1746866e4d266515921b548c630ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 32/39] fix: let the masked subtractions of the P-256 reduction
 wrap

They underflow for zero limbs, where the mask discards the result; builds with
overflow checks panicked.
---
 src/elliptic/p256.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index 1d66415..0fbae8b 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -421,14 +421,14 @@ impl CurveP256 {
             // At position 200, which is the starting bit position for word 7, we
             // have a factor of 0xf000000 = 2**28 - 2**24.
             tmp2[i+7] = tmp2[i+7].wrapping_add(0x10000000 & x_mask);
-            tmp2[i+8] = tmp2[i+8].wrapping_add((x - 1) & x_mask);
+            tmp2[i+8] = tmp2[i+8].wrapping_add(x.wrapping_sub(1) & x_mask);
             tmp2[i+7] = tmp2[i+7].wrapping_sub((x << 24) & BOTTOM_28BITS);
             tmp2[i+8] = tmp2[i+8].wrapping_sub(x >> 4);
 
             tmp2[i+8] = tmp2[i+8].wrapping_add(0x20000000 & x_mask);
             tmp2[i+8] = tmp2[i+8].wrapping_sub(x);
             tmp2[i+8] = tmp2[i+8].wrapping_add((x << 28) & BOTTOM_29BITS);
-            tmp2[i+9] = tmp2[i+9].wrapping_add(((x >> 1) - 1) & x_mask);
+            tmp2[i+9] = tmp2[i+9].wrapping_add((x >> 1).wrapping_sub(1) & x_mask);
 
             if (i + 1) == P256_LIMBS {
                 break;
@@ -449,13 +449,13 @@ impl CurveP256 {
             // 0x1e000000 = 2**29 - 2**25. Since we have not updated i, the 8th
             // word from i+1 is i+8.
             tmp2[i+8] = tmp2[i+8].wrapping_add(0x20000000 & x_mask);
-            tmp2[i+9] = tmp2[i+9].wrapping_add((x - 1) & x_mask);
+            tmp2[i+9] = tmp2[i+9].wrapping_add(x.wrapping_sub(1) & x_mask);
             tmp2[i+8] = tmp2[i+8].wrapping_sub((x << 25) & BOTTOM_29BITS);
             tmp2[i+9] = tmp2[i+9].wrapping_sub(x >> 4);
 
             tmp2[i+9] = tmp2[i+9].wrapping_add(0x10000000 & x_mask);
             tmp2[i+9] = tmp2[i+9].wrapping_sub(x);
-            tmp2[i+10] = tmp2[i+10].wrapping_add((x - 1) & x_mask);
+            tmp2[i+10] = tmp2[i+10].wrapping_add(x.wrapping_sub(1) & x_mask);
         }
 
         // We merge the right shift with a carry chain. The words above 2**257 have
-- 
2.43.0


From bdcf35452ca112ed997cf74d22d09e923363d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 33/39] fix: give P-521 its name and field size

---
 src/elliptic/elliptic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index 5074b4a..c0695a3 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -455,8 +455,8 @@ impl CurveParams {
             .or_else(|e| {Err(CryptoError::new(CryptoErrorKind::InnerErr, e))})?;
         let gy = BigInt::from_str("0x11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650")
             .or_else(|e| {Err(CryptoError::new(CryptoErrorKind::InnerErr, e))})?;
-        let bit_size = 512;
-        let name = String::from("P-512");
+        let bit_size = 521;
+        let name = String::from("P-521");
 
         Ok(
             CurveParams {
-- 
2.43.0


From d5a770ef3cccc133f602f20f7a2165534430387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 34/39] fix: multiply the point at infinity to the point at
 infinity

Scalar multiplication took (0, 0) for an ordinary point.
---
 src/elliptic/elliptic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index c0695a3..b35a60c 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -177,7 +177,7 @@ impl CurveParams {
     }
 
     fn scalar_inner(&self, x: &BigInt, y: &BigInt, k: &[u8]) -> (BigInt, BigInt) {
-        let z = BigInt::from(1u32);
+        let z = Self::z_for_affine(x, y);
         let (mut bx, mut by, mut bz) = (BigInt::from(0u32), BigInt::from(0u32), BigInt::from(0u32));
         for &e in k.iter() {
             let mut byte = e;
-- 
2.43.0


From b19e471f546ca65c3c65195fa742028d0d9da356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 35/39] fix: do not generate the elliptic curve private key
 zero

---
 src/elliptic/elliptic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index b35a60c..6500196 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -159,7 +159,7 @@ impl CurveParams {
 
             // If the scalar is out of range, sample another random number.
             let key = BigInt::from_be_bytes(priv_key.as_slice());
-            if key < self.n {
+            if key < self.n && key.signnum() == Some(1) {
                 let (qx, qy) = self.scalar_inner(&self.gx, &self.gy, priv_key.as_slice());
                 if !qx.is_nan() && !qy.is_nan() {
                     return Ok(
-- 
2.43.0


From c1c296f1ecce5d75a3253a28784d6ec48a691aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:16 +0000
Subject: [PATCH 36/39] Add a guarded constructor for RSA private keys

Only compiled with --cfg rcrypto_verif.
---
 src/rsa/rsa.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 46a1a30..a69d610 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -513,6 +513,18 @@ impl PrivateKey {
     }
 }
 
+#[cfg(rcrypto_verif)]
+impl PrivateKey {
+    /// a key from its parts, with or without the precomputed values
+    pub fn verif_key(n: &BigInt, e: &BigInt, d: &BigInt, primes: &Vec<BigInt>, is_precomputed: bool) -> Result<Self, CryptoError> {
+        let mut key = Self::from_bigint_uncheck(n, e, d, primes)?;
+        if is_precomputed {
+            key.precomputed = PrecomputedValues::new(key.primes[0].clone(), key.primes[1].clone(), key.d.clone(), &key.primes.as_slice()[2..]);
+        }
+        Ok(key)
+    }
+}
+
 impl PrecomputedValues {
     fn new(p: BigInt, q: BigInt, d: BigInt, primes: &[BigInt]) -> Self {
         let bigone = BigInt::from(1u32);
-- 
2.43.0


From 84e611c57b6ed3eee0131a1584a3d12cd580f2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:28 +0000
Subject: [PATCH 37/39] fix: reduce P-224 field elements completely

The final subtraction of p was applied to p-1, and the borrow out of the lowest
limb was lost when that limb was zero.
---
 src/elliptic/p224.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/elliptic/p224.rs b/src/elliptic/p224.rs
index 3c76566..b5067ac 100644
--- a/src/elliptic/p224.rs
+++ b/src/elliptic/p224.rs
@@ -458,7 +458,7 @@ impl CurveP224 {
         //    If it's = 0xffff000 and top4AllOnes != 0 and bottom3NonZero != 0,
         //      then the whole value is >= p
         //    If it's < 0xffff000, then the whole value is < p
-        let n = out[3].wrapping_sub( 0xffff000);
+        let n = 0xffff000u32.wrapping_sub(out[3]);
         let mut out3_equal = n;
         out3_equal |= out3_equal >> 16;
         out3_equal |= out3_equal >> 8;
@@ -467,8 +467,8 @@ impl CurveP224 {
         out3_equal |= out3_equal >> 1;
         out3_equal = !((((out3_equal << 31) as i32) >> 31) as u32);
 
-        // If out[3] > 0xffff000 then n's MSB will be zero.
-        let out3_gt = !(((n as i32) >> 31) as u32);
+        // If out[3] > 0xffff000 then n's MSB will be one.
+        let out3_gt = ((n as i32) >> 31) as u32;
 
         let mask = top4_all_ones & ((out3_equal & bottom3_non_zero) | out3_gt);
         out[0] = out[0].wrapping_sub(1 & mask);
@@ -477,6 +477,14 @@ impl CurveP224 {
         out[5] = out[5].wrapping_sub(0xfffffff & mask);
         out[6] = out[6].wrapping_sub(0xfffffff & mask);
         out[7] = out[7].wrapping_sub(0xfffffff & mask);
+
+        // Do one final carry down, in case we made out[0] negative. One of
+        // out[0..3] is able to absorb it, otherwise the value was smaller than p.
+        (0..3).for_each(|i| {
+            let mask = ((out[i] as i32) >> 31) as u32;
+            out[i] = out[i].wrapping_add((1 << 28) & mask);
+            out[i+1] = out[i+1].wrapping_sub(1 & mask);
+        });
     }
     
     fn p224_copy_conditional(out: &mut P224FieldElement, a: &P224FieldElement, mut control: u32) {
-- 
2.43.0


From 1a1739f07cc75a0898726cb5129a4da67b07cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:28 +0000
Subject: [PATCH 38/39] fix: keep the point at infinity in P-224 and P-256
 multiplication

The specialised code took (0, 0) for an ordinary point when multiplying and, for
P-224, when doubling.
---
 src/elliptic/p224.rs | 8 ++++++--
 src/elliptic/p256.rs | 4 ++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/p224.rs b/src/elliptic/p224.rs
index b5067ac..170d213 100644
--- a/src/elliptic/p224.rs
+++ b/src/elliptic/p224.rs
@@ -785,7 +785,9 @@ impl EllipticCurve for CurveP224 {
             );
         Self::p224_from_bigint(&mut a1, x);
         Self::p224_from_bigint(&mut b1, y);
-        c1[0] = 1;
+        if x.signnum() != Some(0) || y.signnum() != Some(0) {
+            c1[0] = 1;
+        }
         Self::p224_double_jacobian(&mut a2, &mut b2, &mut c2, &a1, &b1, &c1);
         Self::p224_to_affine(&mut a2, &mut b2, &mut c2)
     }
@@ -801,7 +803,9 @@ impl EllipticCurve for CurveP224 {
         );
         Self::p224_from_bigint(&mut a1, x);
         Self::p224_from_bigint(&mut b1, y);
-        c1[0] = 1;
+        if x.signnum() != Some(0) || y.signnum() != Some(0) {
+            c1[0] = 1;
+        }
         let scalar = k.to_be_bytes();
         Self::p224_scalar_mult(&mut a2, &mut b2, &mut c2, &a1, &b1, &c1, scalar.as_slice());
         Self::p224_to_affine(&mut a2, &mut b2, &mut c2)
diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index 0fbae8b..0c95913 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -1203,6 +1203,10 @@ impl EllipticCurve for CurveP256 {
             return (BigInt::from_be_bytes(tmp.as_slice()), BigInt::from_be_bytes(tmp.as_slice()));
         }
 
+        if x.signnum() == Some(0) && y.signnum() == Some(0) {
+            return (BigInt::from(0u32), BigInt::from(0u32));
+        }
+
         let mut scalar_reversed = [0u8; 32];
         self.p256_get_scalar(&mut scalar_reversed, k);
 
-- 
2.43.0


From ac4676d2941934bc4b90fd3265cbfe5a2e0f93eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:00 +0000
Subject: [PATCH 39/39] Add guarded access to elliptic curve internals

---
 src/elliptic/elliptic.rs | 29 +++++++++++++++++++++++++++
 src/elliptic/key_pair.rs |  8 ++++++++
 src/elliptic/p224.rs     | 41 +++++++++++++++++++++++++++++++++++++++
 src/elliptic/p256.rs     | 42 ++++++++++++++++++++++++++++++++++++++++
 4 files changed, 120 insertions(+)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index 6500196..eb0924b 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -472,6 +472,35 @@ impl CurveParams {
     }
 }
 
+#[cfg(rcrypto_verif)]
+impl CurveParams {
+    /// a curve from its parameters
+    pub fn verif_curve(p: &BigInt, n: &BigInt, b: &BigInt, gx: &BigInt, gy: &BigInt, bit_size: usize) -> Self {
+        Self {
+            p: p.deep_clone(),
+            n: n.deep_clone(),
+            b: b.deep_clone(),
+            gx: gx.deep_clone(),
+            gy: gy.deep_clone(),
+            bit_size,
+            name: String::new(),
+        }
+    }
+    
+    /// p, n, b, gx, gy
+    pub fn verif_params(&self) -> [&BigInt; 5] {
+        [&self.p, &self.n, &self.b, &self.gx, &self.gy]
+    }
+    
+    pub fn verif_add(&self, a: [&BigInt; 3], b: [&BigInt; 3]) -> (BigInt, BigInt, BigInt) {
+        self.add_jacobian(a[0], a[1], a[2], b[0], b[1], b[2])
+    }
+    
+    pub fn verif_double(&self, a: [&BigInt; 3]) -> (BigInt, BigInt, BigInt) {
+        self.double_jacobian(a[0], a[1], a[2])
+    }
+}
+
 impl Clone for CurveParams {
     fn clone(&self) -> Self {
         Self {
diff --git a/src/elliptic/key_pair.rs b/src/elliptic/key_pair.rs
index dbe61ca..175625b 100644
--- a/src/elliptic/key_pair.rs
+++ b/src/elliptic/key_pair.rs
@@ -57,6 +57,14 @@ impl PrivateKey {
     }
 }
 
+#[cfg(rcrypto_verif)]
+impl PrivateKey {
+    /// d, qx, qy
+    pub fn verif_parts(&self) -> [&BigInt; 3] {
+        [&self.d, &self.pk.qx, &self.pk.qy]
+    }
+}
+
 impl From<PrivateKey> for KeyPair {
     fn from(pk: PrivateKey) -> Self {
         Self {
diff --git a/src/elliptic/p224.rs b/src/elliptic/p224.rs
index 170d213..5892bf0 100644
--- a/src/elliptic/p224.rs
+++ b/src/elliptic/p224.rs
@@ -712,6 +712,47 @@ impl CurveP224 {
     }
 }
 
+#[cfg(rcrypto_verif)]
+impl CurveP224 {
+    pub fn verif_mul(out: &mut [u32; 8], a: &[u32; 8], b: &[u32; 8]) {
+        Self::p224_mul(out, a, b, &mut [0u64; 15]);
+    }
+    
+    pub fn verif_square(out: &mut [u32; 8], a: &[u32; 8]) {
+        Self::p224_square(out, a, &mut [0u64; 15]);
+    }
+    
+    pub fn verif_add(out: &mut [u32; 8], a: &[u32; 8], b: &[u32; 8]) {
+        Self::p224_add(out, a, b);
+    }
+    
+    pub fn verif_sub(out: &mut [u32; 8], a: &[u32; 8], b: &[u32; 8]) {
+        Self::p224_sub(out, a, b);
+    }
+    
+    pub fn verif_reduce(a: &mut [u32; 8]) {
+        Self::p224_reduce(a);
+    }
+    
+    pub fn verif_contract(out: &mut [u32; 8], a: &[u32; 8]) {
+        Self::p224_contract(out, a);
+    }
+    
+    pub fn verif_is_zero(a: &[u32; 8]) -> u32 {
+        Self::p224_is_zero(a)
+    }
+    
+    pub fn verif_add_points(c: &mut [[u32; 8]; 3], a: &[[u32; 8]; 3], b: &[[u32; 8]; 3]) {
+        let [x, y, z] = c;
+        Self::p224_add_jacobian(x, y, z, &a[0], &a[1], &a[2], &b[0], &b[1], &b[2]);
+    }
+    
+    pub fn verif_double_point(c: &mut [[u32; 8]; 3], a: &[[u32; 8]; 3]) {
+        let [x, y, z] = c;
+        Self::p224_double_jacobian(x, y, z, &a[0], &a[1], &a[2]);
+    }
+}
+
 impl EllipticCurve for CurveP224 {
     fn curve_params(&self) -> &CurveParams {
         &self.cp
diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index 0c95913..bce592e 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -1180,6 +1180,48 @@ impl CurveP256 {
     }
 }
 
+#[cfg(rcrypto_verif)]
+impl CurveP256 {
+    pub fn verif_mul(out: &mut [u32; 9], a: &[u32; 9], b: &[u32; 9]) {
+        Self::p256_mul(out, a, b);
+    }
+    
+    pub fn verif_square(out: &mut [u32; 9], a: &[u32; 9]) {
+        Self::p256_square(out, a);
+    }
+    
+    pub fn verif_add(out: &mut [u32; 9], a: &[u32; 9], b: &[u32; 9]) {
+        Self::p256_sum(out, a, b);
+    }
+    
+    pub fn verif_sub(out: &mut [u32; 9], a: &[u32; 9], b: &[u32; 9]) {
+        Self::p256_diff(out, a, b);
+    }
+    
+    pub fn verif_times(out: &mut [u32; 9], k: u32) {
+        match k {
+            3 => Self::p256_scalar3(out),
+            4 => Self::p256_scalar4(out),
+            _ => Self::p256_scalar8(out),
+        }
+    }
+    
+    pub fn verif_add_points(c: &mut [[u32; 9]; 3], a: &[[u32; 9]; 3], b: &[[u32; 9]; 3]) {
+        let [x, y, z] = c;
+        Self::p256_point_add(x, y, z, &a[0], &a[1], &a[2], &b[0], &b[1], &b[2]);
+    }
+    
+    pub fn verif_add_mixed(c: &mut [[u32; 9]; 3], a: &[[u32; 9]; 3], b: &[[u32; 9]; 2]) {
+        let [x, y, z] = c;
+        Self::p256_point_add_mixed(x, y, z, &a[0], &a[1], &a[2], &b[0], &b[1]);
+    }
+    
+    pub fn verif_double_point(c: &mut [[u32; 9]; 3], a: &[[u32; 9]; 3]) {
+        let [x, y, z] = c;
+        Self::p256_point_double(x, y, z, &a[0], &a[1], &a[2]);
+    }
+}
+
 impl EllipticCurve for CurveP256 {
     fn curve_params(&self) -> &CurveParams {
         &self.cp
-- 
2.43.0

