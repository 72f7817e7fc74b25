From 441f47a2af51bc7a5cfcc6a9367724c19b716cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 1/9] fix: report underflow for a truncated HPACK integer
 instead of panicking

---
 hpack/src/decoder/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpack/src/decoder/primitives.rs b/hpack/src/decoder/primitives.rs
index 77d4cbd..578dd7e 100644
--- a/hpack/src/decoder/primitives.rs
+++ b/hpack/src/decoder/primitives.rs
@@ -67,7 +67,7 @@ pub(crate) fn decode_integer(buf: &[u8], dst: &mut u32, prefix_size: u8) -> Resu
 
     let mut shift = 0;
     loop {
-        let byte = if buf.is_empty() {
+        let byte = if total >= buf.len() {
             return Err(DecoderError::IntegerUnderflow);
         } else {
             total += 1;
-- 
2.43.0


From 9af6b0452cb5deca7cdb8d70cf7183ad1cc91c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 2/9] fix: report underflow for a missing HPACK string instead
 of panicking

---
 hpack/src/decoder/primitives.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hpack/src/decoder/primitives.rs b/hpack/src/decoder/primitives.rs
index 578dd7e..820d5f0 100644
--- a/hpack/src/decoder/primitives.rs
+++ b/hpack/src/decoder/primitives.rs
@@ -105,6 +105,10 @@ pub(crate) fn decode_integer(buf: &[u8], dst: &mut u32, prefix_size: u8) -> Resu
 /// 
 /// [5.2.]: https://tools.ietf.org/html/rfc7541#section-5.2
 pub(crate) fn decode_string(buf: &[u8], speed: DecoderSpeed, dst: &mut Vec<u8>) -> Result<usize, DecoderError> {
+    if buf.is_empty() { // string length is missing
+        return Err(DecoderError::IntegerUnderflow);
+    }
+
     let huffman = buf[0] & 128 == 128;
 
     let mut len = 0;
-- 
2.43.0


From 1d8d568532f08c3828e68bb14cd0b5ec6ed2bfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 3/9] fix: count the bytes of a size update in the decoded
 total

---
 hpack/src/decoder/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpack/src/decoder/mod.rs b/hpack/src/decoder/mod.rs
index 8f4f2b2..470ff74 100644
--- a/hpack/src/decoder/mod.rs
+++ b/hpack/src/decoder/mod.rs
@@ -155,7 +155,7 @@ impl<'a> Decoder<'a> {
             } else if octet & 64 == 64 { // with indexing
                 total += self.decode_literal(buf, dst)?;
             } else if octet & 32 == 32 {
-                self.update_max_dynamic_size(buf)?;
+                total += self.update_max_dynamic_size(buf)?;
             } else if octet & 16 == 16 { // never indexed
                 total += self.decode_literal(buf, dst)?;
             } else { // without indexing
-- 
2.43.0


From 580a34bee54acfd192c4229e552c040d360d922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 4/9] fix: report the configured table size limit of the
 decoder

---
 hpack/src/decoder/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpack/src/decoder/mod.rs b/hpack/src/decoder/mod.rs
index 470ff74..6657d64 100644
--- a/hpack/src/decoder/mod.rs
+++ b/hpack/src/decoder/mod.rs
@@ -64,7 +64,7 @@ impl<'a> Decoder<'a> {
     /// Note that the dynamic table could actually be of different size. This
     /// size is just a hard limit set by the external protocol.
     pub fn max_dynamic_size(&self) -> u32 {
-        self.table.max_dynamic_size()
+        self.max_dynamic_size
     }
 
     /// Sets the maximum allowed size of the dynamic table.
-- 
2.43.0


From 77a161e27c4edf6711afb7041a017a58f33e0a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 5/9] fix: accept only fewer than eight one-bits as Huffman
 padding

---
 huffman/src/decoder/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huffman/src/decoder/reader.rs b/huffman/src/decoder/reader.rs
index 2743d07..be93bb3 100644
--- a/huffman/src/decoder/reader.rs
+++ b/huffman/src/decoder/reader.rs
@@ -87,7 +87,7 @@ impl DecodeReader {
         self.buf = 0;
         self.buf_size = 0;
 
-        if !vec![0, 1, 3, 7, 15, 31, 63, 127].iter().any(|p| *p == self.tail) { // validate padding
+        if self.tail_size > 7 || self.tail != (1 << self.tail_size) - 1 { // validate padding
             return Err(DecoderError::InvalidInput);
         }
 
-- 
2.43.0


From 27d714d6a9d4fa3ff8dffd0cd6dc21039c139c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 6/9] fix: refuse protobuf varints longer than ten bytes

---
 protos/src/decoder/primitives.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protos/src/decoder/primitives.rs b/protos/src/decoder/primitives.rs
index 47ca7d8..7f92336 100644
--- a/protos/src/decoder/primitives.rs
+++ b/protos/src/decoder/primitives.rs
@@ -40,6 +40,8 @@ pub fn decode_varint(buf: &[u8], dst: &mut u64) -> Result<usize, DecoderError> {
         if byte <= 0x7F {
             *dst = value;
             return Ok(count);
+        } else if count == 10 { // more than 64 bits
+            return Err(DecoderError::InvalidInput);
         }
     }
 }
@@ -627,6 +629,8 @@ pub fn extract_varint(
         if byte <= 0x7F {
             dst.append(&mut bytes);
             return Ok(count);
+        } else if count == 10 { // more than 64 bits
+            return Err(DecoderError::InvalidInput);
         }
     }
 }
-- 
2.43.0


From 6267ad55e14259432d46afd0ffa7528e7939fdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 7/9] fix: continue decoding after an empty length-delimited
 field

---
 protos/src/decoder/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protos/src/decoder/mod.rs b/protos/src/decoder/mod.rs
index e84cdab..9bb4910 100644
--- a/protos/src/decoder/mod.rs
+++ b/protos/src/decoder/mod.rs
@@ -76,6 +76,7 @@ impl Decoder {
         let mut total = 0;
         loop {
             let mut _size = 0;
+            let count = dst.len();
             match self.key.1 {
                 Typ::Unknown => {
                     _size = self.decode_key(buf)?;
@@ -93,7 +94,7 @@ impl Decoder {
                     _size = self.extract_ld(buf, dst)?;
                 },
             }
-            if _size == 0 {
+            if _size == 0 && dst.len() == count { // empty fields have no bytes
                 break;
             }
             total += _size;
-- 
2.43.0


From 8dc2193fd1c042a9bb188904b37821877316722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 8/9] fix: keep never-indexed headers never indexed with the
 best format

---
 hpack/src/encoder/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpack/src/encoder/mod.rs b/hpack/src/encoder/mod.rs
index 83f48e7..c8dedb8 100644
--- a/hpack/src/encoder/mod.rs
+++ b/hpack/src/encoder/mod.rs
@@ -156,10 +156,10 @@ impl<'a> Encoder<'a> {
             EncoderInput::Literal(name, value, flags) => {
                 if flags & 0x10 == 0x10 {
                     match self.table.find(&name, &value) {
-                        Some((index, true)) => {
+                        Some((index, true)) if flags & 0xc != 0x8 => {
                             self.encode_indexed(index as u32, dst)
                         },
-                        Some((index, false)) => {
+                        Some((index, _)) => {
                             self.encode_indexed_name(index as u32, value, flags, dst)
                         },
                         None => {
-- 
2.43.0


From 4262080625e9245925f8cc3dee9c361f2477e292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:22 +0000
Subject: [PATCH 9/9] fix: leave the encoder's table unchanged when a literal
 cannot be encoded

---
 hpack/src/encoder/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/hpack/src/encoder/mod.rs b/hpack/src/encoder/mod.rs
index c8dedb8..770530f 100644
--- a/hpack/src/encoder/mod.rs
+++ b/hpack/src/encoder/mod.rs
@@ -272,7 +272,6 @@ impl<'a> Encoder<'a> {
         };
 
         if flags & 0x4 == 0x4 {
-            self.table.insert(name, value.clone());
             encode_integer(index, 0x40, 6, dst)?;
         } else if flags & 0x8 == 0x8 {
             encode_integer(index, 0b00010000, 4, dst)?;
@@ -280,7 +279,11 @@ impl<'a> Encoder<'a> {
             encode_integer(index, 0x0, 4, dst)?;
         }
 
-        encode_string(value, flags & 0x2 == 0x2, dst)
+        encode_string(value.clone(), flags & 0x2 == 0x2, dst)?;
+        if flags & 0x4 == 0x4 {
+            self.table.insert(name, value);
+        }
+        Ok(())
     }
 
     /// Encodes a header where its name and value are provided in bytes.
@@ -361,15 +364,18 @@ impl<'a> Encoder<'a> {
 
         if flags & 0x4 == 0x4 {
             dst.push(0x40);
-            self.table.insert(name.clone(), value.clone());
         } else if flags & 0x8 == 0x8 {
             dst.push(0b00010000);
         } else { // without indexing
             dst.push(0x0);
         }
 
-        encode_string(name, flags & 0x1 == 0x1, dst)?;
-        encode_string(value, flags & 0x2 == 0x2, dst)
+        encode_string(name.clone(), flags & 0x1 == 0x1, dst)?;
+        encode_string(value.clone(), flags & 0x2 == 0x2, dst)?;
+        if flags & 0x4 == 0x4 {
+            self.table.insert(name, value);
+        }
+        Ok(())
     }
 
     /// Updates the maximum size of the dynamic table and encodes the new size
-- 
2.43.0

