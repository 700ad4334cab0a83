From 64a2750facbee8e2166848a489ea7189c8787240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 1/7] fix: address watermark cells row-major by the column
 count for any domain shape

The column was taken modulo the row count while the row was divided by the
column count, so non-square domains collided or ran out of bounds.
---
 lib/sia/rust/embedding/src/io/steganography.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sia/rust/embedding/src/io/steganography.rs b/lib/sia/rust/embedding/src/io/steganography.rs
index 76cddb5..bdbbafe 100644
--- a/lib/sia/rust/embedding/src/io/steganography.rs
+++ b/lib/sia/rust/embedding/src/io/steganography.rs
@@ -19,8 +19,8 @@ pub fn get_capacity(width: usize, height: usize) -> usize {
     ((width * height) as f64 / 8.).floor() as usize
 }
 
-fn get_column_and_row(offset: usize, width: usize, height: usize) -> (usize, usize) {
-    let column = offset % width;
+fn get_column_and_row(offset: usize, _width: usize, height: usize) -> (usize, usize) {
+    let column = offset % height;
     let row = (offset as f64 / height as f64).floor() as usize;
     (column, row)
 }
-- 
2.43.0


From e337b9ff439aab5ad09fea4d01507607b9235e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 2/7] fix: decode only whole codewords when the capacity is not
 a multiple of the codeword

---
 lib/sia/rust/encoding/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 3fd5811..6b36e73 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -113,7 +113,7 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
         None => bytes.clone(),
         Some(code) => {
             let mut decoded_bytes = vec![];
-            let code_words = bytes.chunks(code.n() / 8);
+            let code_words = bytes.chunks_exact(code.n() / 8);
             println!("use LDPC code: ({:?}, {:?})", code.k(), code.n());
             println!("codewords to be decoded: {:?}", code_words.len());
 
-- 
2.43.0


From 908fd76e00582963fa7d8a1272e909d4b5d55f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 3/7] fix: refuse to encode data whose length does not fit the
 16-bit length header

---
 lib/sia/rust/encoding/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 6b36e73..33b6336 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -50,6 +50,9 @@ fn get_code_for_decode(length: usize) -> Option<LDPCCode> {
 
 pub fn encode(input: Vec<u8>, codeword_length: usize) -> Vec<u8> {
     // Prepend input data with amount of bytes
+    if input.len() > u16::MAX as usize {
+        panic!("too long data to encode: {:?}", input.len());
+    }
     let bytes_length = input.len() as u16;
     let (length_byte1, length_byte2) = u16_to_bytes(bytes_length);
     let mut bytes = vec![length_byte1, length_byte2];
-- 
2.43.0


From 401366731c8283f58279cb204ae734d40a50a432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 4/7] fix: strip the length header from data stored without an
 error correction code

---
 lib/sia/rust/encoding/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 33b6336..a4701e6 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -113,7 +113,11 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
     // let code_option = get_code_for_decode(bits_length);
     let code_option = get_code_by_codeword_length(codeword_length);
     match code_option {
-        None => bytes.clone(),
+        None => {
+            // Uncoded data carries the same length header
+            let bytes_length = bytes_to_u16(bytes[0], bytes[1]) as usize;
+            Vec::from(&bytes[2..bytes_length + 2])
+        }
         Some(code) => {
             let mut decoded_bytes = vec![];
             let code_words = bytes.chunks_exact(code.n() / 8);
-- 
2.43.0


From b8e2006f0666dca2377f5b26a739281d02d4fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 5/7] fix: factorial terminates for negative and for huge
 arguments

---
 lib/sia/rust/utils/src/math.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sia/rust/utils/src/math.rs b/lib/sia/rust/utils/src/math.rs
index 7ced46f..6486fdb 100644
--- a/lib/sia/rust/utils/src/math.rs
+++ b/lib/sia/rust/utils/src/math.rs
@@ -6,6 +6,8 @@ pub fn factorial(num: f64) -> f64 {
     }
     match num.round() as i64 {
         0 | 1 => 1.,
+        // poles of the gamma function, and values beyond the range of f64
+        n if n < 0 || n > 170 => f64::INFINITY,
         _ => factorial(num - 1.) * num,
     }
 }
-- 
2.43.0


From 96d865e970b3e89efc48d672840be7535a327116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 6/7] fix: weight every pixel by its own position so that
 non-square images have moments

---
 lib/sia/rust/zernike/src/calc.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/sia/rust/zernike/src/calc.rs b/lib/sia/rust/zernike/src/calc.rs
index 37f2b5c..b9362eb 100644
--- a/lib/sia/rust/zernike/src/calc.rs
+++ b/lib/sia/rust/zernike/src/calc.rs
@@ -12,15 +12,15 @@ pub fn calculate_zernike_image_moment(
 ) -> Complex<f64> {
     let (width, height) = image.dim();
 
-    let zernike_matrix_vector = get_zernike_matrix(order, index as isize, width).into_raw_vec();
+    let dimension = width.max(height);
+    let zernike_matrix = get_zernike_matrix(order, index as isize, dimension);
 
     let integral =
         image
-            .iter()
-            .enumerate()
-            .fold(Complex::new(0., 0.), |accumulator, (i, &next)| {
+            .indexed_iter()
+            .fold(Complex::new(0., 0.), |accumulator, (position, &next)| {
                 let next_pixel = next as f64;
-                let zernike_multiplier = zernike_matrix_vector.get(i).unwrap();
+                let zernike_multiplier = zernike_matrix.get(position).unwrap();
 
                 return accumulator + zernike_multiplier * next_pixel;
             });
-- 
2.43.0


From ead1a6bf102932950d2c89d8941c524de03aaef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 7/7] fix: decode_hex takes no sign for a hex digit

---
 lib/sia/rust/utils/src/format.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/sia/rust/utils/src/format.rs b/lib/sia/rust/utils/src/format.rs
index d89c5e1..027e192 100644
--- a/lib/sia/rust/utils/src/format.rs
+++ b/lib/sia/rust/utils/src/format.rs
@@ -3,7 +3,11 @@ use std::{fmt::Write, num::ParseIntError};
 pub fn decode_hex(s: &str) -> Result<Vec<u8>, ParseIntError> {
     (0..s.len())
         .step_by(2)
-        .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
+        .map(|i| match &s[i..i + 2] {
+            // a number may start with a sign, a byte of hex text may not
+            digits if digits.starts_with('+') => u8::from_str_radix("+", 16),
+            digits => u8::from_str_radix(digits, 16),
+        })
         .collect()
 }
 
-- 
2.43.0

