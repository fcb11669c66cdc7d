From 22c2f091cf7da22a150d8aa8b104c9a86e309658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:18 +0000
Subject: [PATCH 01/34] fix: choose the colour conversion routine of the
 requested output colorspace

Decoder::default always chose the RGB routine, RGBA and RGBX output was
written with three bytes per pixel.
---
 src/decoder.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 39b8d85..5b05814 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -423,6 +423,16 @@ impl Decoder
 
         self.decode_headers_internal(&mut buf)?;
 
+        // the output colorspace is final once headers are parsed, choose the
+        // matching color convert function(if it needs one)
+        if let Some(func) = choose_ycbcr_to_rgb_convert_func(
+            self.options.get_out_colorspace(),
+            self.options.get_use_unsafe(),
+        )
+        {
+            self.color_convert_16 = func;
+        }
+
         if self.is_progressive
         {
             self.decode_mcu_ycbcr_progressive(&mut buf)
-- 
2.43.0


From 2f6776df6ee65ef3b69ed7f0d604d0054e99ff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:52 +0000
Subject: [PATCH 02/34] fix: colour convert the last pixels of a row into place

The last 16 pixels of every row were written at a wrong offset, and rows
whose width is not a multiple of 16 took the padding instead of the image.
---
 src/worker.rs | 94 ++++++++++++++-------------------------------------
 1 file changed, 26 insertions(+), 68 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 4232a2c..06cd601 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -152,15 +152,13 @@ fn color_convert_ycbcr(
 
     let mut start = 0;
     let mut end = stride;
-    // over allocate to account for fill bytes
-    let mut temp = vec![];
 
-    if width < 16
-    {
-        // Allocate temporary buffer for small widths less than
-        // 16.
-        temp = vec![0; 16 * output_colorspace.num_components()];
-    }
+    // Pixels which fill whole vectors of 16 and pixels left at the end of a row
+    let full = (width / 16) * 16;
+    let remainder = width - full;
+    // Temporary buffer for the pixels left at the end of a row.
+    let mut temp = vec![0; 16 * output_colorspace.num_components()];
+
     // We need to chunk per width to ensure we can discard extra values at the end of the width.
     // Since the encoder may pad bits to ensure the width is a multiple of 8.
     for ((y_width, cb_width), cr_width) in mcu_block[0]
@@ -168,41 +166,14 @@ fn color_convert_ycbcr(
         .zip(mcu_block[1].chunks_exact(width_chunk))
         .zip(mcu_block[2].chunks_exact(width_chunk))
     {
-        let elements = (y_width.len() / 16).saturating_sub(1);
-
         let mut position = 0;
         let out = &mut output[start..end];
 
-        if width < 16
-        {
-            // allocate temporary buffers for the values received from idct
-            let mut y_out = [0; 16];
-            let mut cb_out = [0; 16];
-            let mut cr_out = [0; 16];
-            // copy those small widths to that buffer
-            y_out[0..y_width.len()].copy_from_slice(y_width);
-            cb_out[0..cb_width.len()].copy_from_slice(cb_width);
-            cr_out[0..cr_width.len()].copy_from_slice(cr_width);
-            // we handle widths less than 16 a bit differently, allocating a temporary
-            // buffer and writing to that and then flushing to the out buffer
-            // because of the optimizations applied below,
-            (color_convert_16)(&y_out, &cb_out, &cr_out, &mut temp, &mut 0);
-            // copy to stride
-            out[position..position + width * output_colorspace.num_components()]
-                .copy_from_slice(&temp[0..width * output_colorspace.num_components()]);
-            // increment position
-            start += stride;
-            end += stride;
-            // next
-            continue;
-        }
-
         // Chunk in outputs of 16 to pass to color_convert as an array of 16 i16's.
-        for ((y, cb), cr) in y_width
+        for ((y, cb), cr) in y_width[..full]
             .chunks_exact(16)
-            .zip(cb_width.chunks_exact(16))
-            .zip(cr_width.chunks_exact(16))
-            .take(elements)
+            .zip(cb_width[..full].chunks_exact(16))
+            .zip(cr_width[..full].chunks_exact(16))
         {
             (color_convert_16)(
                 y.try_into().unwrap(),
@@ -214,36 +185,23 @@ fn color_convert_ycbcr(
         }
 
         // we have more pixels in the end that can't be handled by the main loop.
-        // move pointer back a little bit to get last 16 bytes,
-        // color convert, and overwrite
-        // This means some values will be color converted twice.
-
-        let diff = 64_usize.saturating_sub(stride.saturating_sub(position));
-
-        position = position.saturating_sub(diff);
-
-        (color_convert_16)(
-            y_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            cb_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            cr_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            out,
-            &mut position,
-        );
+        // color convert them to a temporary buffer and copy those inside the image.
+        if remainder != 0
+        {
+            // allocate temporary buffers for the values received from idct
+            let mut y_out = [0; 16];
+            let mut cb_out = [0; 16];
+            let mut cr_out = [0; 16];
+
+            y_out[0..remainder].copy_from_slice(&y_width[full..width]);
+            cb_out[0..remainder].copy_from_slice(&cb_width[full..width]);
+            cr_out[0..remainder].copy_from_slice(&cr_width[full..width]);
+
+            (color_convert_16)(&y_out, &cb_out, &cr_out, &mut temp, &mut 0);
+            // copy to stride
+            let len = stride - position;
+            out[position..].copy_from_slice(&temp[0..len]);
+        }
 
         start += stride;
         end += stride;
-- 
2.43.0


From 3bab74b19b4de090654d64f1927427f9ae398590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:23 +0000
Subject: [PATCH 03/34] fix: SSE RGB conversion of 16 pixels needs 48 bytes,
 not 64

---
 src/color_convert/sse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color_convert/sse.rs b/src/color_convert/sse.rs
index 0c28369..b06c9d4 100644
--- a/src/color_convert/sse.rs
+++ b/src/color_convert/sse.rs
@@ -271,7 +271,7 @@ pub fn ycbcr_to_rgb_sse_16(
 )
 {
     // check if out has enough space
-    out.get_mut(*offset..*offset + 64)
+    out.get_mut(*offset..*offset + 48)
         .expect("Slice to small cannot write");
     unsafe {
         ycbcr_to_rgb_16(y, cb, cr, out, offset);
-- 
2.43.0


From 44611009327d4c65211b229557ef99ef30d40722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:52 +0000
Subject: [PATCH 04/34] fix: grayscale output of images whose width is not a
 multiple of 8

The padded width of a row was derived from the image width.
---
 src/color_convert/scalar.rs | 9 +++++----
 src/worker.rs               | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/color_convert/scalar.rs b/src/color_convert/scalar.rs
index a5de15e..cf8ace6 100644
--- a/src/color_convert/scalar.rs
+++ b/src/color_convert/scalar.rs
@@ -88,15 +88,16 @@ pub fn ycbcr_to_rgb_16_scalar(
     *pos += 48;
 }
 
-pub fn ycbcr_to_grayscale(y: &[i16], width: usize, output: &mut [u8])
+pub fn ycbcr_to_grayscale(
+    y: &[i16], width: usize, h_samp: usize, v_samp: usize, output: &mut [u8],
+)
 {
     // Convert i16's to u8's
     let temp_output = y.iter().map(|x| *x as u8).collect::<Vec<u8>>();
     // chunk according to width.
 
-    let width_mcu = y.len() / width;
-
-    let width_chunk = y.len() / width_mcu;
+    // width which accounts number of fill bytes
+    let width_chunk = y.len() / (8 * h_samp * v_samp);
 
     let mut start = 0;
 
diff --git a/src/worker.rs b/src/worker.rs
index 06cd601..d903a8c 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -114,7 +114,7 @@ pub(crate) fn post_process_inner(
     {
         (ColorSpace::YCbCr | ColorSpace::GRAYSCALE, ColorSpace::GRAYSCALE) =>
         {
-            ycbcr_to_grayscale(&unprocessed[0], width, output);
+            ycbcr_to_grayscale(&unprocessed[0], width, h_samp, v_samp, output);
         }
 
         (ColorSpace::YCbCr, ColorSpace::YCbCr) =>
-- 
2.43.0


From 2929bff6221f68c3481c247582b101b5d0a2f1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:13 +0000
Subject: [PATCH 05/34] fix: decode the last row of MCUs of horizontally
 sub-sampled images

Two rows of MCUs are processed at a time, an odd last row was dropped. The
output is allocated in whole chunks, the old estimate was too small for wide,
short sub-sampled images (panic), and its 16 bit arithmetic overflowed for
dimensions close to 65535.
---
 src/mcu.rs      | 41 ++++++++++++++++++++++++-----------------
 src/mcu_prog.rs | 21 ++++++++++++---------
 2 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 296ad96..78d1c20 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -151,11 +151,11 @@ impl Decoder
                 // Values for horizontal samples end halfway the image and do not complete an MCU width.
                 // To make it complete we multiply width by 2 and divide mcu_height by 2
                 mcu_width = self.mcu_x * 2;
-                mcu_height = self.mcu_y / 2;
+                mcu_height = (self.mcu_y + 1) / 2;
             } else if self.sub_sample_ratio == SubSampRatios::HV
             {
                 mcu_width = self.mcu_x;
-                mcu_height = self.mcu_y / 2;
+                mcu_height = (self.mcu_y + 1) / 2;
                 bias = 2;
             } else {
                 mcu_width = self.mcu_x;
@@ -164,8 +164,8 @@ impl Decoder
         } else {
             // For non-interleaved images( (1*1) subsampling)
             // number of MCU's are the widths (+7 to account for paddings) divided bu 8.
-            mcu_width = ((self.info.width + 7) / 8) as usize;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_width = (usize::from(self.info.width) + 7) / 8;
+            mcu_height = (usize::from(self.info.height) + 7) / 8;
         }
 
         if self.input_colorspace == ColorSpace::GRAYSCALE && self.interleaved {
@@ -183,7 +183,7 @@ impl Decoder
 
             warn!("Grayscale image with down-sampled component, resetting component details");
 
-            mcu_width = ((self.info.width + 7) / 8) as usize;
+            mcu_width = (usize::from(self.info.width) + 7) / 8;
             self.h_max = 1;
             self.options = self.options.set_out_colorspace(ColorSpace::GRAYSCALE);
             self.v_max = 1;
@@ -191,20 +191,21 @@ impl Decoder
             self.components[0].vertical_sample = 1;
             self.components[0].width_stride = mcu_width * 8;
             self.components[0].horizontal_sample = 1;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_height = (usize::from(self.info.height) + 7) / 8;
             bias = 1;
         }
-        // Size of our output image(width*height)
-        let capacity = usize::from(self.info.width + 8) * usize::from(self.info.height + 8);
         let component_capacity = mcu_width * DCT_BLOCK;
+        // MCUs left to decode, when two rows of MCUs are decoded per iteration the image may end
+        // before the last iteration does.
+        let mut mcus_left = if self.sub_sample_ratio == SubSampRatios::None
+        {
+            mcu_width * mcu_height
+        } else {
+            self.mcu_x * self.mcu_y
+        };
         // Create an Arc of components to prevent cloning on every MCU width
         let global_component = Arc::new(self.components.clone());
         let is_hv = self.sub_sample_ratio == SubSampRatios::HV;
-        // There are some images where we need to overallocate  especially for small buffers,
-        // because the chunking calculation will do it wrongly,
-        // this only applies to  small down-sampled images
-        // See https://github.com/etemesi254/zune-jpeg/issues/11
-        let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.options.get_out_colorspace().num_components();
         // things needed for post processing that we can remove out of the loop
         let input = self.input_colorspace;
         let output = self.options.get_out_colorspace();
@@ -218,12 +219,13 @@ impl Decoder
         let hv_width_stride = width_stride >> 1;
 
         let mut stream = BitStream::new();
-        // Storage for decoded pixels
-        let mut global_channel = vec![0; (capacity * self.options.get_out_colorspace().num_components()) + extra_space];
+        // Storage for decoded pixels, a chunk for each iteration of the loop below,
+        // it may exceed the image since the last chunk contains padding rows.
+        let chunk_size = width * output.num_components() * 8 * h_max * v_max;
+        let mut global_channel = vec![0; chunk_size * mcu_height];
 
         // Split output into different blocks each containing enough space for an MCU width
-        let mut chunks =
-            global_channel.chunks_exact_mut(width * output.num_components() * 8 * h_max * v_max);
+        let mut chunks = global_channel.chunks_exact_mut(chunk_size);
         let mut tmp = [0; DCT_BLOCK];
 
         // Argument for scoped threadpools, see file docs.
@@ -254,6 +256,11 @@ impl Decoder
                 {
                     for j in 0..mcu_width
                     {
+                        if mcus_left == 0
+                        {
+                            break;
+                        }
+                        mcus_left -= 1;
                         // iterate over components
 
                         for pos in 0..self.input_colorspace.num_components()
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 4467d7d..dd029f7 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -51,7 +51,7 @@ impl Decoder
     ) -> Result<Vec<u8>, DecodeErrors>
     {
         self.check_component_dimensions()?;
-        let mcu_height;
+        let mut mcu_height;
 
         // memory location for decoded pixels for components
         let mut block = [vec![], vec![], vec![]];
@@ -70,6 +70,12 @@ impl Decoder
 
         mcu_width *= 64;
 
+        if self.h_max == 2
+        {
+            // post processing takes two rows of MCUs at a time
+            mcu_height += mcu_height % 2;
+        }
+
         for i in 0..self.input_colorspace.num_components()
         {
             let comp = &self.components[i];
@@ -170,11 +176,6 @@ impl Decoder
         let y = &block[0];
         let cb = &block[1];
         let cr = &block[2];
-        let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.options.get_out_colorspace().num_components();
-        let capacity = usize::from(self.info.width + 8) * usize::from(self.info.height + 8);
-
-        let mut out_vector = vec![0_u8; capacity * self.options.get_out_colorspace().num_components() + extra_space];
-
         // Things we need for multithreading.
         let h_max = self.h_max;
         let v_max = self.v_max;
@@ -186,12 +187,14 @@ impl Decoder
         let width = usize::from(self.width());
         // Divide the output into small blocks and send to threads/
         let chunks_size = width * self.options.get_out_colorspace().num_components() * 8 * h_max * v_max;
-        let out_chunks = out_vector.chunks_exact_mut(chunks_size);
         // Chunk sizes. Each determine how many pixels go per thread.
         let y_chunk_size =
             mcu_width * self.components[0].vertical_sample * self.components[0].horizontal_sample * bias;
         // Divide into chunks
         let y_chunk = y.chunks_exact(y_chunk_size);
+        // Storage for decoded pixels, it may exceed the image since the last chunk contains padding rows.
+        let mut out_vector = vec![0_u8; chunks_size * y_chunk.len()];
+        let out_chunks = out_vector.chunks_exact_mut(chunks_size);
 
         let mut pool = scoped_threadpool::Pool::new(self.options.get_threads());
 
@@ -280,8 +283,8 @@ impl Decoder
             // by 8
             if self.components[k].component_id == ComponentID::Y || !self.interleaved
             {
-                mcu_width = ((self.info.width + 7) / 8) as usize;
-                mcu_height = ((self.info.height + 7) / 8) as usize;
+                mcu_width = (usize::from(self.info.width) + 7) / 8;
+                mcu_height = (usize::from(self.info.height) + 7) / 8;
             } else {
                 // For other channels, in an interleaved mcu, number of MCU's
                 // are determined by some weird maths done in headers.rs->parse_sos()
-- 
2.43.0


From abc0ae6418a92430828ea7c77f2a480d5c2d51cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:09 +0000
Subject: [PATCH 06/34] fix: horizontal up-sampling of the last pixels of a row

The nearest pixel has a weight of three, the further one a weight of one.
---
 src/upsampler/scalar.rs | 2 +-
 src/upsampler/sse.rs    | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/upsampler/scalar.rs b/src/upsampler/scalar.rs
index a932b00..3e666fa 100644
--- a/src/upsampler/scalar.rs
+++ b/src/upsampler/scalar.rs
@@ -52,7 +52,7 @@ pub fn upsample_horizontal(input: &[i16], output_len: usize) -> Vec<i16>
     let i_last: &[i16; 2] = input.get(input_len..).unwrap().try_into().unwrap();
 
     // write out manually..
-    f_out[0] = (3 * i_last[0] + i_last[1] + 2) >> 2;
+    f_out[0] = (3 * i_last[1] + i_last[0] + 2) >> 2;
 
     f_out[1] = i_last[1];
 
diff --git a/src/upsampler/sse.rs b/src/upsampler/sse.rs
index fc2feb3..0a420c8 100644
--- a/src/upsampler/sse.rs
+++ b/src/upsampler/sse.rs
@@ -120,13 +120,13 @@ pub unsafe fn upsample_horizontal_sse_u(input: &[i16], output_len: usize) -> Vec
 
     l_out[2] = (input[il + 1] * 3 + input[il] + 2) >> 2;
 
-    l_out[3] = (input[il + 1] * 3 + input[il + 1] + 2) >> 2;
+    l_out[3] = (input[il + 1] * 3 + input[il + 2] + 2) >> 2;
 
-    l_out[4] = (input[il + 2] * 3 + input[il + 2] + 2) >> 2;
+    l_out[4] = (input[il + 2] * 3 + input[il + 1] + 2) >> 2;
 
-    l_out[5] = (input[il + 2] * 3 + input[il + 1] + 2) >> 2;
+    l_out[5] = (input[il + 2] * 3 + input[il + 3] + 2) >> 2;
 
-    l_out[6] = (input[il + 2] * 3 + input[il + 3] + 2) >> 2;
+    l_out[6] = (input[il + 3] * 3 + input[il + 2] + 2) >> 2;
 
     l_out[7] = input[il + 3];
 
-- 
2.43.0


From a82002f441b13af5d1c8525ac9f2d66caf434c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:39 +0000
Subject: [PATCH 07/34] fix: up-sample rows of an image separately

Horizontal up-sampling mixed the end of a row with the start of the next one
and horizontal-vertical up-sampling took sixteen rows for eight. The AVX2
routine used the wrong neighbours on every 16th pixel and at the end of rows,
it is now made of the vertical and the (SSE) horizontal pass.
---
 src/upsampler/avx2.rs   | 348 ++--------------------------------------
 src/upsampler/scalar.rs |  10 +-
 src/worker.rs           |  18 ++-
 3 files changed, 37 insertions(+), 339 deletions(-)

diff --git a/src/upsampler/avx2.rs b/src/upsampler/avx2.rs
index fcc2b4e..9fd1d8c 100644
--- a/src/upsampler/avx2.rs
+++ b/src/upsampler/avx2.rs
@@ -1,348 +1,24 @@
 #![cfg(feature = "x86")]
 #![cfg(any(target_arch = "x86", target_arch = "x86_64"))]
-#[cfg(target_arch = "x86")]
-use std::arch::x86::*;
-#[cfg(target_arch = "x86_64")]
-use std::arch::x86_64::{
-    _mm256_add_epi16, _mm256_alignr_epi8, _mm256_blend_epi16, _mm256_insert_epi16,
-    _mm256_loadu_si256, _mm256_mullo_epi16, _mm256_permute2x128_si256, _mm256_set1_epi16,
-    _mm256_srai_epi16, _mm256_storeu_si256, _mm256_unpackhi_epi16, _mm256_unpacklo_epi16,
-};
 
-use crate::upsampler::scalar::upsample_hv;
+use crate::upsampler::scalar::upsample_vertical;
+use crate::upsampler::sse::upsample_horizontal_sse;
 
+/// Upsample horizontally and vertically
+///
+/// The first pass is a vertical pass(which the compiler vectorizes), the second one is
+/// a horizontal pass, row by row.
 pub fn upsample_hv_simd(input: &[i16], output_len: usize) -> Vec<i16>
 {
-    if input.len() < 500
-    {
-        //For small inputs, use scalar.
-        return upsample_hv(input, output_len);
-    }
-    unsafe { upsample_hv_avx(input, output_len) }
-}
-// herein lies 2 days work tread lightly
-
-#[rustfmt::skip]
-#[target_feature(enable = "avx")]
-#[target_feature(enable = "avx2")]
-#[inline]
-pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
-{
-    //to understand how it works, we have to see what vertical upsampling + horizontal upsampling do
-    // Hence the illustration
-    //    | A1 | A2 |
-    //    |====|====|
-    //    | p1 | p2 |
-    //    |----|----|
-    //    | p3 | p4 |
-    //    |====|====|
-    //    | B1 | B2 |
-    //
-    // -> Okay for two squeezed lines, A and B we generate 2 lines.
-    // We do the same for B & C and so on.
-    //
-    // After our vertical pass, we have p2 and p3 stretching halfway the image
-    //
-    // After that vertical pass, we want to do another pass.
-    // | p1 |q1|q2| p2 |
-    // |----|=====|----|
-    // | p3 |q3|q4| p4 |
-    //
-    // now q1 will stretch the whole image, hence it becomes a full upsampling
-
-    // So how do we actually implement.
-
-    let mut output = vec![0;output_len];
-
-    // okay for the next step lets play with AVX
-
-    // Difference in  pixels for a width
-    let mut stride = 0;
-    //
-    let mut modify_stride = true;
-
-    let mut pos = 0;
-    let mut output_position = 0;
-
-    let mut prev = (3 * input[0] + input[stride] + 2) >> 2;
-    let mut pixel_far = (3 * input[pos + 16] + input[pos + stride + 16] + 2) >> 2;
-
-    let three = _mm256_set1_epi16(3);
-    let two = _mm256_set1_epi16(2);
-
-    macro_rules! pack_shuffle {
-        ($x:tt,$y:tt,$value:tt) => {
-            let v = _mm256_permute2x128_si256::<$value>($x, $x);
-
-            let rwn_hi = _mm256_unpackhi_epi16(v, v);
-            let rwn_lo = _mm256_unpacklo_epi16(v, v);
-
-            $y = _mm256_permute2x128_si256::<0b0011_0000>(rwn_lo, rwn_hi);
-        };
-    }
-
-    macro_rules! upsample_horizontal {
-        ($row:tt,$stride:tt) => {
-            // AND THE implementation of srli is 2 128 bit shuffles.
-            // Mahn intel really??
-            // Therefore we need to emulate that instruction
-            // See this stack overflow post: https://stackoverflow.com/questions/25248766/emulating-shifts-on-32-bytes-with-avx
-
-            // shift the whole data in the register left by 16 to remove zero-th element
-            // array looks like B0,[B1,B2,B3,B4,B5,B6,B7,0]
-            // _mm256_srli_si256(A, N) (0<N<16)
-            let mut next_arr = _mm256_alignr_epi8::<2>(
-                _mm256_permute2x128_si256::<{ shuffle(2, 0, 0, 1) }>($row, $row),
-                $row,
-            );
-            // shift the whole data in the array down by(right) by 16, to remove n+1.
-            // Now our register looks like  [0,B1,B2,B3,B4,B5,B6],B7.
-            // _mm256_slli_si256(A, N) ( 0< N < 16).
-            let mut prev_arr = _mm256_alignr_epi8::<{ 16 - 2 }>($row,
-                                                                _mm256_permute2x128_si256::<{ shuffle(0, 0, 2, 0) }>($row, $row),
-            );
-
-
-            // insert values
-
-            // prev_array => [X0,B1,B2,B3,B4,B5,B6,B7]
-            prev_arr = _mm256_insert_epi16::<0>(prev_arr, prev);
-            // NEXT_ARR => [B0,B1,B2,B3,B4,B5,B6,X1]
-            next_arr = _mm256_insert_epi16::<15>(next_arr, pixel_far);
-
-            // Okay at this point we have: (the arrows just show how prev_arr & next_arr differ from row_near)
-            //              |                                                  |
-            //             \/                                                 \/
-            //-> prev_arr [B0,B1,B2,B3,B4,B5,B6,B7,B8,B9,B10,B11,B12,B13,B14,B15]
-            //
-            //
-            //-> row_near [B1,B2,B3,B4,B5,B6,B7,B8,B9,B10,B11,B2,B13,B14,B15,B16]
-            //
-            //              |                                                   |
-            //             \/                                                  \/
-            //-> next_row [B2,B3,B4,B5,B6,B7,B8,B9,B10,B11,B12,B13,B14,B15,B16,B17]
-
-
-            // Next we need to get values in Avx register and stretch them.
-            // The reason for this is simple, currently our avx register contain vertical upsampling values.
-            // packed together, for a packing B0,B1 , we need to generate two values
-            //illustrated by
-            // |  |           |  |
-            // |B0| |p1| |p2| |B1|
-            // |  |           |  |
-            // Now a cool way to stretch them is to half our three avx registers,  into 6 upper or lower registers
-            // and duplicate elements of either the half register to the other half
-
-            // Eg for near:
-            // near->|B0,B1,B2,B3]
-            // near_hi ->[B0,B0,B1,B1]
-            // near_lo ->[B2,B2,B3,B3]
-
-            // Duplicate top elements to low elements
-            let (near_lo, near_hi, prev_lo, prev_hi, next_lo, next_hi);
-
-            pack_shuffle!($row,near_lo,0);
-            pack_shuffle!($row,near_hi,0b011_0011);
-
-            pack_shuffle!(prev_arr,prev_lo,0);
-            pack_shuffle!(prev_arr,prev_hi,0b011_0011);
-
-            pack_shuffle!(next_arr,next_lo,0);
-            pack_shuffle!(next_arr,next_hi,0b011_0011);
-
-            // FINALLY START CARRYING OUT THE CALCULATIONS.
-
-            // everything above was set up for this
-
-
-            // prev-lo->[BO,B0,B1,B1,B2,B2,B3,B3]
-            // next-lo->[B2,B2,B3,B3,B4,B4,B5,B5]
-            // NN    -> [B0,B2,B1,B3,B2,B4,B3,B5]
-
-            // notice how prettily NN contains  a weird shift of elements.
-
-            // for i in 1..input.len() - 1{
-            //         let sample = 3 * input[i] + 2;
-            //
-            //         out[i * 2] = (sample + input[i - 1]) >> 2;
-            //         out[i * 2 + 1] = (sample + input[i + 1]) >> 2;
-            // }
-
-            // Look at the ABOVE loop, notice how even numbers get i-1, look at the even indices
-            // in nn.
-            // Look at the ODD INDICES while at it.
-
-            // And that's the miracle.
-            // I rest my case, may you understand the rest of the code.
-
-            let nn = _mm256_blend_epi16::<0b1010_1010>(prev_lo, next_lo);
-            // input[x]*3
-            let an = _mm256_mullo_epi16(near_lo, three);
-
-            let bn = _mm256_add_epi16(nn, two);
+    let first_pass = upsample_vertical(input, input.len() * 2);
 
-            let cn = _mm256_srai_epi16::<2>(_mm256_add_epi16(an, bn));
+    let width = input.len() / 8;
+    let mut second_pass = Vec::with_capacity(output_len);
 
-            _mm256_storeu_si256(output.get_mut(output_position+$stride..output_position+$stride+16).unwrap().as_mut_ptr().cast(), cn);
-
-
-            let nn = _mm256_blend_epi16::<0b1010_1010>(prev_hi, next_hi);
-
-            let an = _mm256_mullo_epi16(near_hi, three);
-
-            let bn = _mm256_add_epi16(nn, two);
-
-            let cn = _mm256_srai_epi16::<2>(_mm256_add_epi16(an, bn));
-            // hi is stored one output width lower.
-            _mm256_storeu_si256(output.get_mut(output_position+$stride+16..output_position+$stride+32).unwrap().as_mut_ptr().cast(), cn);
-
-
-        };
-    }
-
-    macro_rules! upsample_vertical {
-        ($load_near:tt,$load_far:tt,$row_near:tt,$row_far:tt) => {
-            let t2 = _mm256_add_epi16($load_far, two);
-            let t1 = _mm256_mullo_epi16($load_near, three);
-
-            // (near * 3 + far + 2 ) >> 2
-            $row_near = _mm256_srai_epi16::<2>(_mm256_add_epi16(t1, t2));
-
-            let t3 = _mm256_add_epi16($load_near, two);
-            let t4 = _mm256_mullo_epi16($load_far, three);
-
-            // (far * 3 + near + 2 ) >> 2
-            $row_far = _mm256_srai_epi16::<2>(_mm256_add_epi16(t3, t4));
-        };
-    }
-
-    let (mut row_near, mut row_far);
-
-    let len = output_len / 16;
-    let end = (input.len() >> 7).saturating_sub( 1);
-    // some calculations to determine how much will not be written per MCU.
-    let v = (output.len() / 16).saturating_sub (end * 32);
-
-
-    // we need to iterate row wise
-    // we initially have 8 rows we want to make 32, new rows,
-    for j in 0..8
+    for row in first_pass.chunks_exact(width)
     {
-
-        // loop row wise
-        // we are feed it our stuff with 16 values, therefore we can loop the number of times we can
-        // chunk data. into 16
-        for _ in 0..end
-        {
-            let load_near = _mm256_loadu_si256(input[pos..].as_ptr().cast());
-            let load_far = _mm256_loadu_si256(input[pos + stride..].as_ptr().cast());
-            // ==========================================================================
-            // -> Pass 1:Vertical calculation.
-            // --------------------------------------------------------------------------
-            upsample_vertical!(load_near, load_far, row_near, row_far);
-
-            // --------------------------------------------------------------------------
-            // Pass 1 : Complete
-            // ==========================================================================
-
-            // ==========================================================================
-            // Pass 2: Horizontal upsampling
-            //---------------------------------------------------------------------------
-
-            upsample_horizontal!(row_near, 0);
-
-            upsample_horizontal!(row_far, (len));
-
-            output_position += 32;
-            // ---------------------------------------------------------------------------
-            // pass 2 complete
-            // ===========================================================================
-            pos += 16;
-            // update previous and next values
-            assert!(input.len() >= pos + stride + 16);
-            // Safety , the assert statement above ensures none of these goes out of bounds.
-            prev = (3 * (*input.get(pos).unwrap_or(&0))
-                .wrapping_add (*input.get(pos + stride).unwrap_or(&0))
-                .wrapping_add(2)) >> 2;
-
-            pixel_far = (3 * (*input.get(pos + 16).unwrap_or(&0))
-                .wrapping_add (*input.get(pos + stride + 16).unwrap_or(&0))
-                .wrapping_add( 2)) >> 2;
-        }
-        // now there are some more data left, since we actually don't write
-        // to the end of the array.
-
-        // those whe handle using scalar code
-       
-        let (a,b )=  output.split_at_mut(output_position+v);
-        
-        let c = a.len()-v;
-    
-        // areas the vector code didn't touch
-        let unwritten = &mut a[c..];
-        let unwritten_stride = &mut b[len-v..len];
-     
-        
-        for (input_window,output_window) in input[pos-v/2-2..pos].windows(3).zip(unwritten.chunks_exact_mut(2)){
-            let input_window: &[i16; 3] = input_window.try_into().unwrap();
-
-            let sample = 3 * input_window[1] + 2;
-    
-            output_window[0] = (sample + input_window[0]) >> 2;
-    
-            output_window[1] = (sample + input_window[2]) >> 2;
-        }
-        *unwritten.last_mut().unwrap() = input[pos];
-        
-        for (input_window,output_window) in input[pos-v/2+stride-2..pos+stride].windows(3).zip(unwritten_stride.chunks_exact_mut(2)){
-            let input_window: &[i16; 3] = input_window.try_into().unwrap();
-
-            let sample = 3 * input_window[1] + 2;
-    
-            output_window[0] = (sample + input_window[0]) >> 2;
-    
-            output_window[1] = (sample + input_window[2]) >> 2;
-        }
-        
-        *unwritten_stride.last_mut().unwrap() = input[pos+stride];
-        
-    
-
-        output_position += len+v;
-        pos+=v/2;
-        
-        if modify_stride
-        {
-            stride = input.len() / 8;
-            modify_stride = false;
-
-        }
-        if j == 6
-        {
-            // when j is 6 it means we are at position 14, and 15, here we
-            // need to revert stride to be zero to get a nearest neighbour
-
-            // since there is no more row to look ahead using stride.
-            stride = 0;
-
-        }
-        // set some manually
-        output[output_position - len] = output[output_position - len + 1];
-
-        output[output_position - len - 2] = output[output_position - len - 4];
-
-        output[output_position - len - 1] = output[output_position - len - 3];
-
-        output[output_position - 2] = output[output_position - 4];
-
-        output[output_position - 1] = output[output_position - 3];
+        second_pass.extend(upsample_horizontal_sse(row, width * 2));
     }
 
-    return output;
-}
-
-#[inline]
-const fn shuffle(z: i32, y: i32, x: i32, w: i32) -> i32
-{
-    ((z << 6) | (y << 4) | (x << 2) | w) as i32
+    return second_pass;
 }
diff --git a/src/upsampler/scalar.rs b/src/upsampler/scalar.rs
index 3e666fa..24bfc9e 100644
--- a/src/upsampler/scalar.rs
+++ b/src/upsampler/scalar.rs
@@ -159,8 +159,14 @@ pub fn upsample_hv(input: &[i16], output_len: usize) -> Vec<i16>
 
     // first pass, do vertical sampling
     let first_pass = upsample_vertical(input, input.len() * 2);
-    //second pass, do horizontal sampling
-    let second_pass = upsample_horizontal(&first_pass, output_len);
+    // second pass, do horizontal sampling, row by row
+    let width = input.len() / 8;
+    let mut second_pass = Vec::with_capacity(output_len);
+
+    for row in first_pass.chunks_exact(width)
+    {
+        second_pass.extend(upsample_horizontal(row, width * 2));
+    }
 
     return second_pass;
 }
diff --git a/src/worker.rs b/src/worker.rs
index d903a8c..ce94610 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -102,10 +102,26 @@ pub(crate) fn post_process_inner(
 
     if h_samp != 1 || v_samp != 1
     {
+        // Up-samplers work on rows which follow each other in the image.
+        //
+        // - Horizontal up-sampling looks at pixels in the same row, there are 16 rows.
+        // - Vertical up-sampling looks at the 8 rows of an MCU.
+        // - Horizontal-vertical up-sampling does both, there are two MCUs.
+        let chunks = match (h_samp, v_samp)
+        {
+            (2, 1) => 16,
+            (2, 2) => 2,
+            (_, _) => 1,
+        };
         // carry out upsampling , the return vector overwrites the original vector
         for i in 1..x
         {
-            unprocessed[i] = (component_data[i].up_sampler)(&unprocessed[i], unprocessed[0].len());
+            let up_sampler = component_data[i].up_sampler;
+
+            unprocessed[i] = unprocessed[i]
+                .chunks_exact(unprocessed[i].len() / chunks)
+                .flat_map(|rows| up_sampler(rows, rows.len() * h_samp * v_samp))
+                .collect();
         }
     }
 
-- 
2.43.0


From 805036c7f7b5f3f63517dbd41cc0bf75ec1356a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:26 +0000
Subject: [PATCH 08/34] fix: clamp DC only blocks in the scalar IDCT

As the AVX2 one does, values outside 0..=255 wrapped around in the output.
---
 src/idct/scalar.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/idct/scalar.rs b/src/idct/scalar.rs
index e58abe1..edc15cf 100644
--- a/src/idct/scalar.rs
+++ b/src/idct/scalar.rs
@@ -45,7 +45,9 @@ pub fn dequantize_and_idct_int(
             if &vector[1..] == &[0_i16; 63]
             {
                 // okay then if you work, yaay, let's write you really quick
-                let coeff = [((vector[0].wrapping_mul(qt_table.0[0] as i16)) >> 3) + 128; 8];
+                let coeff = [clamp(i32::from(
+                    (vector[0].wrapping_mul(qt_table.0[0] as i16) >> 3) + 128,
+                )); 8];
 
                 macro_rules! store {
                     ($index:tt) => {
-- 
2.43.0


From a20bcfb85023d5830b941e64faf113253301bda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 09/34] fix: process columns before rows in the AVX2 IDCT

The intermediate rounding made it differ from the scalar IDCT, whose results
it is documented to match.
---
 src/idct/avx2.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/idct/avx2.rs b/src/idct/avx2.rs
index cf3f671..7cc28d7 100644
--- a/src/idct/avx2.rs
+++ b/src/idct/avx2.rs
@@ -330,12 +330,7 @@ unsafe fn dequantize_and_idct_int_avx2(
                 };
             }
 
-            transpose(
-                &mut row0, &mut row1, &mut row2, &mut row3, &mut row4, &mut row5, &mut row6,
-                &mut row7,
-            );
-
-            // Process rows
+            // Process columns, the scalar code does them first
             dct_pass!(512, 10);
 
             transpose(
@@ -343,10 +338,14 @@ unsafe fn dequantize_and_idct_int_avx2(
                 &mut row7,
             );
 
-            // process columns
+            // process rows
             dct_pass!(SCALE_BITS, 17);
 
             // transpose to original
+            transpose(
+                &mut row0, &mut row1, &mut row2, &mut row3, &mut row4, &mut row5, &mut row6,
+                &mut row7,
+            );
 
             // Pack i32 to i16's,
             // clamp them to be between 0-255
-- 
2.43.0


From 6d8cd6a0e6501f25dd080710cfbd57f42cfc70d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:43 +0000
Subject: [PATCH 10/34] fix: use unaligned loads of coefficients in the AVX2
 IDCT

A Vec<i16> is only guaranteed to be aligned to two bytes.
---
 src/idct/avx2.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/idct/avx2.rs b/src/idct/avx2.rs
index 7cc28d7..db02c56 100644
--- a/src/idct/avx2.rs
+++ b/src/idct/avx2.rs
@@ -104,19 +104,19 @@ unsafe fn dequantize_and_idct_int_avx2(
             // We sign extend i16's to i32's and calculate them with extended precision and
             // later reduce them to i16's when we are done carrying out IDCT
 
-            let rw0 = _mm_load_si128(vector[0..=7].as_ptr().cast());
+            let rw0 = _mm_loadu_si128(vector[0..=7].as_ptr().cast());
 
-            let rw1 = _mm_load_si128(vector[8..=15].as_ptr().cast());
+            let rw1 = _mm_loadu_si128(vector[8..=15].as_ptr().cast());
 
-            let rw2 = _mm_load_si128(vector[16..=23].as_ptr().cast());
+            let rw2 = _mm_loadu_si128(vector[16..=23].as_ptr().cast());
 
-            let rw3 = _mm_load_si128(vector[24..=31].as_ptr().cast());
+            let rw3 = _mm_loadu_si128(vector[24..=31].as_ptr().cast());
 
-            let rw4 = _mm_load_si128(vector[32..=39].as_ptr().cast());
+            let rw4 = _mm_loadu_si128(vector[32..=39].as_ptr().cast());
 
-            let rw5 = _mm_load_si128(vector[40..=47].as_ptr().cast());
+            let rw5 = _mm_loadu_si128(vector[40..=47].as_ptr().cast());
 
-            let rw6 = _mm_load_si128(vector[48..=55].as_ptr().cast());
+            let rw6 = _mm_loadu_si128(vector[48..=55].as_ptr().cast());
 
             let rw7 = _mm_loadu_si128(vector[56..=63].as_ptr().cast());
 
-- 
2.43.0


From b72fb9afff562f03b6208a4751d76066da7cd225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:11 +0000
Subject: [PATCH 11/34] fix: only store AC values which fit into the fast AC
 table

Six bits are left for the value, larger ones were truncated.
---
 src/huffman.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/huffman.rs b/src/huffman.rs
index 39c2116..097c114 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -245,8 +245,9 @@ impl HuffmanTable
                             k += (!0_i16 << mag_bits) + 1;
                         };
 
-                        // if result is small enough fit into fast ac table
-                        if (-128..=127).contains(&k)
+                        // if result is small enough fit into fast ac table, the
+                        // value is stored in the top 6 bits
+                        if (-32..=31).contains(&k)
                         {
                             fast_ac[i] = (k << 10) + (run << 4) + (len + mag_bits);
                         }
-- 
2.43.0


From 1a72ad38748fe4a4d6f6ced3c1f191fbbac40306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:39 +0000
Subject: [PATCH 12/34] fix: refill the bit buffer for the DC code and its
 value

With 16 to 31 bits left the value following a long code was cut short.
---
 src/bitstream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index f6a76df..41fb478 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -275,7 +275,8 @@ impl BitStream
     {
         let (mut symbol, r);
 
-        if self.bits_left < 16
+        // a code takes up to 16 bits and the value up to 15 bits
+        if self.bits_left < 32
         {
             self.refill(reader)?;
         };
-- 
2.43.0


From c7c1d4aa40c3ff593d40f9cbc8bce06931709c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:48 +0000
Subject: [PATCH 13/34] fix: decode all components of the last MCUs

The end of the image is read ahead of time, the components following it were
skipped although their data is in the bit buffer.
---
 src/mcu.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 78d1c20..5eca40b 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -343,9 +343,10 @@ impl Decoder
                             // allow it because of some weird reason.
                             if let Some(m) = stream.marker
                             {
+                                // the marker may be read before all MCUs in front of it are decoded.
                                 if m == Marker::EOI
                                 {
-                                    break;
+                                    continue;
                                 }
 
                                 if let Marker::RST(_) = m { continue }
-- 
2.43.0


From 8e86fac16b2a3e636dd95aaf764d161c08a76e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:15 +0000
Subject: [PATCH 14/34] fix: restart intervals count MCUs

They counted components of MCUs, skipped runs of empty progressive blocks,
went on over the end of a scan (where no restart marker follows) and did
nothing if the marker was not yet read.
---
 src/mcu.rs      | 24 ++++++++++++++++--------
 src/mcu_prog.rs | 24 ++++++++++++++----------
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 5eca40b..7f9fe86 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -61,6 +61,7 @@ use crate::bitstream::BitStream;
 use crate::components::{ComponentID, SubSampRatios};
 use crate::errors::DecodeErrors;
 use crate::marker::Marker;
+use crate::mcu_prog::get_marker;
 use crate::worker::post_process;
 use crate::{ColorSpace, Decoder};
 
@@ -327,13 +328,6 @@ impl Decoder
                                     }
                                 }
                             }
-                            self.todo = self.todo.wrapping_sub(1);
-                            // after every interleaved MCU that's a mcu, count down restart markers.
-                            if self.todo == 0
-                            {
-                                self.handle_rst(&mut stream)?;
-                            }
-
                             // In some corrupt images, it may occur that header markers occur in the stream.
                             // The spec EXPLICITLY FORBIDS this, specifically, in
                             // routine F.2.2.5  it says
@@ -355,6 +349,12 @@ impl Decoder
                                 self.parse_marker_inner(m, reader)?;
                             }
                         }
+                        self.todo = self.todo.wrapping_sub(1);
+                        // after every interleaved MCU that's a mcu, count down restart markers.
+                        if self.todo == 0 && mcus_left != 0
+                        {
+                            self.handle_rst(reader, &mut stream)?;
+                        }
                     }
                 }
                 // Clone things, to make multithreading safe
@@ -391,10 +391,18 @@ impl Decoder
     // No-op if not using restarts
     // this routine is shared with mcu_prog
     #[cold]
-    pub(crate) fn handle_rst(&mut self, stream: &mut BitStream) -> Result<(), DecodeErrors>
+    pub(crate) fn handle_rst(
+        &mut self, reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream,
+    ) -> Result<(), DecodeErrors>
     {
         self.todo = self.restart_interval;
 
+        if stream.marker.is_none()
+        {
+            // the bit buffer was not refilled up to the marker
+            stream.marker = get_marker(reader, stream);
+        }
+
         if let Some(marker) = stream.marker
         {
             // Found a marker
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index dd029f7..31c1081 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -256,6 +256,8 @@ impl Decoder
         self.check_component_dimensions()?;
         stream.reset();
         self.components.iter_mut().for_each(|x| x.dc_pred = 0);
+        // every scan starts a new restart interval, zero means restarts are disabled
+        self.todo = if self.restart_interval == 0 { usize::MAX } else { self.restart_interval };
 
         if usize::from(self.num_scans) > self.input_colorspace.num_components() {
             return Err(Format(format!("Number of scans {} cannot be greater than number of components, {}", self.num_scans, self.input_colorspace.num_components())));
@@ -350,6 +352,8 @@ impl Decoder
 
                                 i += (j + stream.eob_run as usize - 1) / mcu_width;
                                 j = (j + stream.eob_run as usize - 1) % mcu_width;
+                                // blocks skipped count for restarts, this one is counted below.
+                                self.todo = self.todo.saturating_sub(stream.eob_run as usize - 1).max(1);
                                 stream.eob_run = 0;
                             } else {
                                 stream.decode_mcu_ac_first(reader, ac_table, data)?;
@@ -362,9 +366,10 @@ impl Decoder
                     j += 1;
                     self.todo -= 1;
 
-                    if self.todo == 0
+                    // no restart marker follows the last block
+                    if self.todo == 0 && i * mcu_width + j < mcu_width * mcu_height
                     {
-                        self.handle_rst(stream)?;
+                        self.handle_rst(reader, stream)?;
                     }
                 }
                 j = 0;
@@ -418,13 +423,12 @@ impl Decoder
                                 }
                             }
                         }
-                        // We want wrapping subtraction here because it means
-                        // we get a higher number in the case this underflows
-                        self.todo = self.todo.wrapping_sub(1);
-                        // after every scan that's a mcu, count down restart markers.
-                        if self.todo == 0 {
-                            self.handle_rst(stream)?;
-                        }
+                    }
+                    self.todo -= 1;
+                    // after every scan that's a mcu, count down restart markers.
+                    // no restart marker follows the last MCU
+                    if self.todo == 0 && i * self.mcu_x + j + 1 < self.mcu_x * self.mcu_y {
+                        self.handle_rst(reader, stream)?;
                     }
                 }
             }
@@ -436,7 +440,7 @@ impl Decoder
 ///Get a marker from the bit-stream.
 ///
 /// This reads until it gets a marker or end of file is encountered
-fn get_marker(reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream) -> Option<Marker>
+pub(crate) fn get_marker(reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream) -> Option<Marker>
 {
     if let Some(marker) = stream.marker
     {
-- 
2.43.0


From ac22de4a67e161753ab0da21b7b7dc1fc6b4af3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:44 +0000
Subject: [PATCH 15/34] fix: look for the marker which follows the first
 progressive scan

It may not have been read yet, the error depended on the alignment of data.
---
 src/mcu_prog.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 31c1081..59d397a 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -91,7 +91,7 @@ impl Decoder
         self.parse_entropy_coded_data(reader, &mut stream, &mut block)?;
 
         // extract marker
-        let mut marker = stream.marker.take().ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
+        let mut marker = get_marker(reader, &mut stream).ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
         // if marker is EOI, we are done, otherwise continue scanning.
         'eoi: while marker != Marker::EOI
         {
-- 
2.43.0


From 557a538a73f941443d11605887291c57f8a86005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:32 +0000
Subject: [PATCH 16/34] fix: allow tables and miscellaneous segments between
 progressive scans

Decoding silently stopped at them (DQT, DRI, COM, some APPn) or failed (other
APPn).
---
 src/marker.rs   | 4 +---
 src/mcu_prog.rs | 7 ++++---
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/marker.rs b/src/marker.rs
index 6e44034..0e604f8 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -70,9 +70,7 @@ impl Marker
             0xDB => Some(DQT),
             0xDC => Some(DNL),
             0xDD => Some(DRI),
-            0xE0 => Some(APP(0)),
-            0xE1 => Some(APP(1)),
-            0xEE => Some(APP(14)),
+            0xE0..=0xEF => Some(APP(n - 0xE0)),
             _ => None,
         }
     }
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 59d397a..e91fe2b 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -34,7 +34,7 @@ use crate::components::{ComponentID, SubSampRatios};
 use crate::decoder::MAX_COMPONENTS;
 use crate::errors::DecodeErrors;
 use crate::errors::DecodeErrors::Format;
-use crate::headers::{parse_huffman, parse_sos};
+use crate::headers::parse_sos;
 use crate::marker::Marker;
 use crate::misc::read_byte;
 use crate::worker::post_process;
@@ -98,8 +98,9 @@ impl Decoder
 
             match marker
             {
-                Marker::DHT => {
-                    parse_huffman(self, reader)?;
+                // tables and miscellaneous segments may come in front of any scan
+                Marker::DHT | Marker::DQT | Marker::DRI | Marker::APP(_) | Marker::COM => {
+                    self.parse_marker_inner(marker, reader)?;
                 }
                 Marker::SOS =>
                     {
-- 
2.43.0


From f04fbd529b6c5add934dc80b17b608fc89932561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:02 +0000
Subject: [PATCH 17/34] fix: huffman tables defined before the start of a
 progressive frame

Their EOB runs were read as the EOB of baseline images.
---
 src/decoder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 5b05814..d6175c1 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -319,6 +319,13 @@ impl Decoder
                     {
                         self.is_progressive = true;
 
+                        // AC tables which were defined before this were derived for
+                        // baseline images, the meaning of EOB differs
+                        for table in self.ac_huffman_tables.iter_mut().flatten()
+                        {
+                            *table = HuffmanTable::new(&table.bits, table.values, false, true)?;
+                        }
+
                         SOFMarkers::ProgressiveDctHuffman
                     }
                 };
-- 
2.43.0


From 2c487ee5c57271f8dea1afd2a9732ddc962ab61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:28 +0000
Subject: [PATCH 18/34] fix: skip fill bytes in front of markers

0xFFFF was taken for an unknown segment, whose length was made of the marker.
---
 src/decoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index d6175c1..b7976f9 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -254,6 +254,11 @@ impl Decoder
         {
             // read a byte
             let m = read_byte(buf)?;
+            // Any marker may be preceded by fill bytes (0xFF)
+            if last_byte == 0xFF && m == 0xFF
+            {
+                continue;
+            }
             // Last byte should be 0xFF to confirm existence of a marker since markers look
             // like OxFF(some marker data)
             if last_byte == 0xFF
-- 
2.43.0


From 1987386853231181c24391d5be3108b245ad9fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:21 +0000
Subject: [PATCH 19/34] fix: forget the previous image when a decoder is used
 again

Sampling factors, progressive mode, restart intervals, tables and the
grayscale output colorspace of one image leaked into the next one.
---
 src/decoder.rs | 22 ++++++++++++++++++++++
 src/headers.rs |  1 +
 2 files changed, 23 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index b7976f9..5023b5d 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -118,6 +118,9 @@ pub struct Decoder
     pub(crate) todo:             usize,
     // decoder options
     pub(crate) options:          ZuneJpegOptions,
+    /// The output colorspace asked for, if the image made us change the one in options
+    /// (grayscale images have grayscale output).
+    pub(crate) user_colorspace:  Option<ColorSpace>,
 }
 
 impl Decoder
@@ -166,8 +169,23 @@ impl Decoder
             todo: 0x7fff_ffff,
             // options
             options,
+            user_colorspace: None,
         }
     }
+
+    /// Forget everything about a previous image, but keep options.
+    fn reset(&mut self)
+    {
+        let mut options = self.options;
+
+        if let Some(colorspace) = self.user_colorspace
+        {
+            options = options.set_out_colorspace(colorspace);
+        }
+
+        *self = Decoder::default(options);
+    }
+
     /// Decode a buffer already in memory
     ///
     /// The buffer should be a valid jpeg file, perhaps created by the command
@@ -240,6 +258,8 @@ impl Decoder
     where
         R: Read + BufRead,
     {
+        self.reset();
+
         // First two bytes should be jpeg soi marker
         let magic_bytes = read_u16_be(buf)?;
 
@@ -558,6 +578,7 @@ impl Decoder
     {
         // told you so
         self.options = self.options.set_out_colorspace(ColorSpace::RGBA);
+        self.user_colorspace = None;
     }
 
     #[deprecated(
@@ -575,6 +596,7 @@ impl Decoder
     pub fn set_output_colorspace(&mut self, colorspace: ColorSpace)
     {
         self.options = self.options.set_out_colorspace(colorspace);
+        self.user_colorspace = None;
     }
     #[must_use]
     /// Get the width of the image as a u16
diff --git a/src/headers.rs b/src/headers.rs
index 03ab65e..8872610 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -281,6 +281,7 @@ where
         // and that to us translates to setting input and output
         // colorspaces to zero
         img.input_colorspace = ColorSpace::GRAYSCALE;
+        img.user_colorspace = Some(img.options.get_out_colorspace());
         img.options = img.options.set_out_colorspace(ColorSpace::GRAYSCALE);
     }
 
-- 
2.43.0


From 0966b1bd050706cf594e2d8ec882f1e4236aed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:50 +0000
Subject: [PATCH 20/34] fix: reject frames with unsupported components

Frames with two or more than three components, components which are repeated
or out of order and a second frame (even in the middle of the image data) made
the decoder panic.
---
 src/headers.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/headers.rs b/src/headers.rs
index 8872610..5999602 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -203,6 +203,12 @@ pub(crate) fn parse_start_of_frame<R>(
 where
     R: Read,
 {
+    if !img.components.is_empty()
+    {
+        return Err(DecodeErrors::SofError(
+            "More than one start of frame in image".to_string(),
+        ));
+    }
     // Get length of the frame header
     let length = read_u16_be(buf)
         .map_err(|_| DecodeErrors::Format("Cannot read SOF length, exhausted data".to_string()))?;
@@ -273,6 +279,14 @@ where
         )));
     }
 
+    if num_components != 1 && num_components != 3
+    {
+        return Err(DecodeErrors::SofError(format!(
+            "Images with {} components are not supported",
+            num_components
+        )));
+    }
+
     info!("Image components : {}", num_components);
 
     if num_components == 1
@@ -299,6 +313,16 @@ where
         // create a component.
         let component = Components::from(temp)?;
 
+        // components are found by their position(Y,Cb,Cr)
+        if usize::from(component.id) != components.len() + 1
+        {
+            return Err(DecodeErrors::SofError(format!(
+                "Unexpected component {:?} at position {}",
+                component.component_id,
+                components.len()
+            )));
+        }
+
         components.push(component);
     }
 
-- 
2.43.0


From beeb47624596d10d26537ec718cba5f9215322b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:48 +0000
Subject: [PATCH 21/34] fix: progressive grayscale images with sampling factors

The stride of the down-sampled image was used for the image without sampling.
---
 src/mcu_prog.rs | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index e91fe2b..e3fd058 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -51,6 +51,29 @@ impl Decoder
     ) -> Result<Vec<u8>, DecodeErrors>
     {
         self.check_component_dimensions()?;
+
+        if self.input_colorspace == ColorSpace::GRAYSCALE && self.interleaved {
+            /*
+            Apparently, grayscale images which can be down sampled exists, which is weird in the sense
+            that it has one component Y, which is not usually down sampled.
+
+            This means some calculations will be wrong, so for that we explicitly reset params
+            for such occurrences, warn and reset the image info to appear as if it were
+            a non-sampled image to ensure decoding works
+            */
+            if self.options.get_strict_mode(){
+                return Err(DecodeErrors::FormatStatic("[strict-mode]: Grayscale image with down-sampled component."))
+            }
+            warn!("Grayscale image with down-sampled component, resetting component details");
+            self.h_max = 1;
+            self.v_max = 1;
+            self.mcu_x = (usize::from(self.info.width) + 7) / 8;
+            self.mcu_y = (usize::from(self.info.height) + 7) / 8;
+            self.interleaved = false;
+            self.components[0].vertical_sample = 1;
+            self.components[0].horizontal_sample = 1;
+            self.components[0].width_stride = self.mcu_x * 8;
+        }
         let mut mcu_height;
 
         // memory location for decoded pixels for components
@@ -150,29 +173,6 @@ impl Decoder
             bias = 2;
         }
 
-        if self.input_colorspace == ColorSpace::GRAYSCALE && self.interleaved {
-            /*
-            Apparently, grayscale images which can be down sampled exists, which is weird in the sense
-            that it has one component Y, which is not usually down sampled.
-
-            This means some calculations will be wrong, so for that we explicitly reset params
-            for such occurrences, warn and reset the image info to appear as if it were
-            a non-sampled image to ensure decoding works
-
-            NOTE: not tested on progressive images as I couldn't find such an image.
-            */
-            if self.options.get_strict_mode(){
-                return Err(DecodeErrors::FormatStatic("[strict-mode]: Grayscale image with down-sampled component."))
-            }
-            warn!("Grayscale image with down-sampled component, resetting component details");
-            self.h_max = 1;
-            self.v_max = 1;
-            self.sub_sample_ratio = SubSampRatios::None;
-            self.components[0].vertical_sample = 1;
-            self.components[0].width_stride = mcu_width * 8;
-            self.components[0].horizontal_sample = mcu_width;
-            bias = 1;
-        }
         // remove items from  top block
         let y = &block[0];
         let cb = &block[1];
-- 
2.43.0


From 9483939afa3a63fb98672441a314ee58c8b72117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:19 +0000
Subject: [PATCH 22/34] fix: reject baseline images whose first scan lacks
 components

All components were decoded from it and the output was garbage.
---
 src/mcu.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mcu.rs b/src/mcu.rs
index 7f9fe86..32e9185 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -133,6 +133,13 @@ impl Decoder
         // check dc and AC tables
         self.check_tables()?;
 
+        if usize::from(self.num_scans) != self.components.len()
+        {
+            return Err(DecodeErrors::FormatStatic(
+                "Baseline images whose components are in several scans are not supported",
+            ));
+        }
+
         let  mut scoped_pools = scoped_threadpool::Pool::new(
             self.options.get_threads());
         info!("Created {} worker threads", scoped_pools.thread_count());
-- 
2.43.0


From 0babd75d9252196e505a16a669fea71fec20a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:46 +0000
Subject: [PATCH 23/34] fix: report output colorspaces which are not supported

Decoding to CMYK or YCCK succeeded with an image of zeroes.
---
 src/decoder.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 5023b5d..162c8df 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -455,6 +455,17 @@ impl Decoder
 
         self.decode_headers_internal(&mut buf)?;
 
+        if matches!(
+            self.options.get_out_colorspace(),
+            ColorSpace::CMYK | ColorSpace::YCCK
+        )
+        {
+            return Err(DecodeErrors::Format(format!(
+                "Output colorspace {:?} is not supported",
+                self.options.get_out_colorspace()
+            )));
+        }
+
         // the output colorspace is final once headers are parsed, choose the
         // matching color convert function(if it needs one)
         if let Some(func) = choose_ycbcr_to_rgb_convert_func(
-- 
2.43.0


From 4b7b8430c05c7be2266ef6ee2e4f1d85c656ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:17 +0000
Subject: [PATCH 24/34] fix: set_num_threads of values which do not fit into 32
 bits

They were truncated, to zero (panic) or another number of threads.
---
 src/decoder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 162c8df..aae3795 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -651,9 +651,12 @@ impl Decoder
                 "Cannot set zero threads to decode image",
             ));
         }
-        self.options = self
-            .options
-            .set_num_threads(NonZeroU32::new(threads as u32).unwrap());
+        let threads = u32::try_from(threads)
+            .ok()
+            .and_then(NonZeroU32::new)
+            .ok_or(DecodeErrors::FormatStatic("Too many threads"))?;
+
+        self.options = self.options.set_num_threads(threads);
         Ok(())
     }
     /// Check that all components have the correct width and height
-- 
2.43.0


From 44ab47829b83b45a29ac0a0bb5326aad9a231f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:01 +0000
Subject: [PATCH 25/34] verif: cfg zune_verif_no_avx2 keeps the decoder off
 AVX2

A hook for /verif: with RUSTFLAGS='--cfg zune_verif_no_avx2' the SSE and
scalar routines are chosen as on a CPU without AVX2. No effect otherwise.
---
 src/color_convert.rs | 2 +-
 src/idct.rs          | 2 +-
 src/upsampler.rs     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/color_convert.rs b/src/color_convert.rs
index fc8f080..8849a44 100644
--- a/src/color_convert.rs
+++ b/src/color_convert.rs
@@ -67,7 +67,7 @@ pub fn choose_ycbcr_to_rgb_convert_func(
         #[cfg(feature = "x86")]
         #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
         {
-            if is_x86_feature_detected!("avx2")
+            if is_x86_feature_detected!("avx2") && !cfg!(zune_verif_no_avx2)
             {
                 debug!("Using AVX optimised color conversion functions");
 
diff --git a/src/idct.rs b/src/idct.rs
index 184086e..e9e9f58 100644
--- a/src/idct.rs
+++ b/src/idct.rs
@@ -43,7 +43,7 @@ pub fn choose_idct_func(use_unsafe: bool) -> IDCTPtr
     {
         #[cfg(all(feature = "x86", any(target_arch = "x86_64", target_arch = "x86")))]
         {
-            if is_x86_feature_detected!("avx2")
+            if is_x86_feature_detected!("avx2") && !cfg!(zune_verif_no_avx2)
             {
                 debug!("Using AVX optimized integer IDCT");
                 // use avx one
diff --git a/src/upsampler.rs b/src/upsampler.rs
index db934ed..944b2c9 100644
--- a/src/upsampler.rs
+++ b/src/upsampler.rs
@@ -99,7 +99,7 @@ pub fn choose_hv_samp_function(use_unsafe:bool) -> UpSampler
     if use_unsafe {
         #[cfg(all(feature = "x86", any(target_arch = "x86_64", target_arch = "x86")))]
         {
-            if is_x86_feature_detected!("avx2")
+            if is_x86_feature_detected!("avx2") && !cfg!(zune_verif_no_avx2)
             {
                 debug!("Using avx HV up-sampler");
                 return avx2::upsample_hv_simd;
-- 
2.43.0


From 4c9572bcc17cdb1ee654c01d2dafbfeafc576e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:44 +0000
Subject: [PATCH 26/34] fix: overflow in the scalar IDCT on corrupt
 coefficients

Coefficients no encoder produces made debug builds panic.
---
 src/idct/scalar.rs | 91 ++++++++++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 44 deletions(-)

diff --git a/src/idct/scalar.rs b/src/idct/scalar.rs
index edc15cf..1aaeb07 100644
--- a/src/idct/scalar.rs
+++ b/src/idct/scalar.rs
@@ -1,6 +1,8 @@
 //! Platform independent IDCT algorithm
 //!
 //! Not as fast as AVX one.
+use std::num::Wrapping as W;
+
 use crate::misc::Aligned32;
 
 const SCALE_BITS: i32 = 512 + 65536 + (128 << 17);
@@ -25,7 +27,8 @@ pub fn dequantize_and_idct_int(
 
     let mut out_vector = vec![0; vector.len()];
 
-    let mut tmp = [0; 64];
+    // Coefficients of corrupt images may exceed what the arithmetic below can hold.
+    let mut tmp = [W(0_i32); 64];
 
     let chunks = vector.len() * v_samp / samp_factors;
     // calculate position
@@ -84,11 +87,11 @@ pub fn dequantize_and_idct_int(
 
                     let p3 = dequantize(vector[ptr + 48], qt_table.0[ptr + 48]);
 
-                    let p1 = (p2 + p3).wrapping_mul(2217);
+                    let p1 = (p2 + p3) * W(2217);
 
-                    let t2 = p1 + p3 * -7567;
+                    let t2 = p1 + p3 * W(-7567);
 
-                    let t3 = p1 + p2 * 3135;
+                    let t3 = p1 + p2 * W(3135);
 
                     let p2 = dequantize(vector[ptr], qt_table.0[ptr]);
 
@@ -98,13 +101,13 @@ pub fn dequantize_and_idct_int(
 
                     let t1 = fsh(p2 - p3);
 
-                    let x0 = t0 + t3 + 512;
+                    let x0 = t0 + t3 + W(512);
 
-                    let x3 = t0 - t3 + 512;
+                    let x3 = t0 - t3 + W(512);
 
-                    let x1 = t1 + t2 + 512;
+                    let x1 = t1 + t2 + W(512);
 
-                    let x2 = t1 - t2 + 512;
+                    let x2 = t1 - t2 + W(512);
 
                     // odd part
                     let mut t0 = dequantize(vector[ptr + 56], qt_table.0[ptr + 56]);
@@ -123,23 +126,23 @@ pub fn dequantize_and_idct_int(
 
                     let p2 = t1 + t2;
 
-                    let p5 = (p3 + p4) * 4816;
+                    let p5 = (p3 + p4) * W(4816);
 
-                    t0 *= 1223;
+                    t0 *= W(1223);
 
-                    t1 *= 8410;
+                    t1 *= W(8410);
 
-                    t2 *= 12586;
+                    t2 *= W(12586);
 
-                    t3 *= 6149;
+                    t3 *= W(6149);
 
-                    let p1 = p5 + p1 * -3685;
+                    let p1 = p5 + p1 * W(-3685);
 
-                    let p2 = p5 + p2 * -10497;
+                    let p2 = p5 + p2 * W(-10497);
 
-                    let p3 = p3 * -8034;
+                    let p3 = p3 * W(-8034);
 
-                    let p4 = p4 * -1597;
+                    let p4 = p4 * W(-1597);
 
                     t3 += p1 + p4;
 
@@ -178,11 +181,11 @@ pub fn dequantize_and_idct_int(
 
                     let p3 = tmp[i + 6];
 
-                    let p1 = (p2 + p3) * 2217;
+                    let p1 = (p2 + p3) * W(2217);
 
-                    let t2 = p1 + p3 * -7567;
+                    let t2 = p1 + p3 * W(-7567);
 
-                    let t3 = p1 + p2 * 3135;
+                    let t3 = p1 + p2 * W(3135);
 
                     let p2 = tmp[i];
 
@@ -198,13 +201,13 @@ pub fn dequantize_and_idct_int(
                     // so we want to round that, which means adding 0.5 * 1<<17,
                     // aka 65536. Also, we'll end up with -128 to 127 that we want
                     // to encode as 0..255 by adding 128, so we'll add that before the shift
-                    let x0 = t0 + t3 + SCALE_BITS;
+                    let x0 = t0 + t3 + W(SCALE_BITS);
 
-                    let x3 = t0 - t3 + SCALE_BITS;
+                    let x3 = t0 - t3 + W(SCALE_BITS);
 
-                    let x1 = t1 + t2 + SCALE_BITS;
+                    let x1 = t1 + t2 + W(SCALE_BITS);
 
-                    let x2 = t1 - t2 + SCALE_BITS;
+                    let x2 = t1 - t2 + W(SCALE_BITS);
 
                     // odd part
                     let mut t0 = tmp[i + 7];
@@ -223,23 +226,23 @@ pub fn dequantize_and_idct_int(
 
                     let p2 = t1 + t2;
 
-                    let p5 = (p3 + p4) * f2f(1.175875602);
+                    let p5 = (p3 + p4) * W(f2f(1.175875602));
 
-                    t0 = t0.wrapping_mul(1223);
+                    t0 = t0 * W(1223);
 
-                    t1 = t1.wrapping_mul(8410);
+                    t1 = t1 * W(8410);
 
-                    t2 = t2.wrapping_mul(12586);
+                    t2 = t2 * W(12586);
 
-                    t3 = t3.wrapping_mul(6149);
+                    t3 = t3 * W(6149);
 
-                    let p1 = p5 + p1 * -3685;
+                    let p1 = p5 + p1 * W(-3685);
 
-                    let p2 = p5 + p2 * -10497;
+                    let p2 = p5 + p2 * W(-10497);
 
-                    let p3 = p3 * -8034;
+                    let p3 = p3 * W(-8034);
 
-                    let p4 = p4 * -1597;
+                    let p4 = p4 * W(-1597);
 
                     t3 += p1 + p4;
 
@@ -254,21 +257,21 @@ pub fn dequantize_and_idct_int(
                         .try_into()
                         .unwrap();
 
-                    out[0] = clamp((x0 + t3) >> 17);
+                    out[0] = clamp(((x0 + t3) >> 17).0);
 
-                    out[1] = clamp((x1 + t2) >> 17);
+                    out[1] = clamp(((x1 + t2) >> 17).0);
 
-                    out[2] = clamp((x2 + t1) >> 17);
+                    out[2] = clamp(((x2 + t1) >> 17).0);
 
-                    out[3] = clamp((x3 + t0) >> 17);
+                    out[3] = clamp(((x3 + t0) >> 17).0);
 
-                    out[4] = clamp((x3 - t0) >> 17);
+                    out[4] = clamp(((x3 - t0) >> 17).0);
 
-                    out[5] = clamp((x2 - t1) >> 17);
+                    out[5] = clamp(((x2 - t1) >> 17).0);
 
-                    out[6] = clamp((x1 - t2) >> 17);
+                    out[6] = clamp(((x1 - t2) >> 17).0);
 
-                    out[7] = clamp((x0 - t3) >> 17);
+                    out[7] = clamp(((x0 - t3) >> 17).0);
 
                     i += 8;
 
@@ -293,7 +296,7 @@ fn f2f(x: f32) -> i32
 
 #[inline]
 /// Multiply a number by 4096
-fn fsh(x: i32) -> i32
+fn fsh(x: W<i32>) -> W<i32>
 {
     x << 12
 }
@@ -307,7 +310,7 @@ fn clamp(a: i32) -> i16
 }
 
 #[inline]
-fn dequantize(a: i16, b: i32) -> i32
+fn dequantize(a: i16, b: i32) -> W<i32>
 {
-    i32::from(a) * b
+    W(i32::from(a)) * W(b)
 }
-- 
2.43.0


From 0c9b84b1fabe1b1fe8bee9a85c140b169f262e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 27/34] fix: overflow when refining coefficients of corrupt
 progressive images

Debug builds panicked on corrections beyond the range of a coefficient.
---
 src/bitstream.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index 41fb478..666c2f2 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -575,11 +575,11 @@ impl BitStream
                         {
                             if *coefficient >= 0
                             {
-                                *coefficient += bit;
+                                *coefficient = coefficient.wrapping_add(bit);
                             }
                             else
                             {
-                                *coefficient -= bit;
+                                *coefficient = coefficient.wrapping_sub(bit);
                             }
                         }
 
@@ -636,11 +636,11 @@ impl BitStream
                         {
                             if *coefficient >= 0
                             {
-                                *coefficient += bit;
+                                *coefficient = coefficient.wrapping_add(bit);
                             }
                             else
                             {
-                                *coefficient -= bit;
+                                *coefficient = coefficient.wrapping_sub(bit);
                             }
                         }
                     }
-- 
2.43.0


From fa768cc3e57c3a81c7d3267fd392894826c77092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 28/34] fix: a progressive DC scan naming a Huffman table above
 3 is an error, not table id modulo 4

---
 src/mcu_prog.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index e3fd058..21a7b86 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -31,7 +31,6 @@ use std::sync::Arc;
 
 use crate::bitstream::BitStream;
 use crate::components::{ComponentID, SubSampRatios};
-use crate::decoder::MAX_COMPONENTS;
 use crate::errors::DecodeErrors;
 use crate::errors::DecodeErrors::Format;
 use crate::headers::parse_sos;
@@ -313,7 +312,7 @@ impl Decoder
 
                     if self.spec_start == 0
                     {
-                        let pos = self.components[k].dc_huff_table & (MAX_COMPONENTS - 1);
+                        let pos = self.components[k].dc_huff_table;
                         let dc_table = self.dc_huffman_tables.get(pos)
                             .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", pos)))?
                             .as_ref()
-- 
2.43.0


From 1720ba7ebd1a4f2d8c988c7246ab93cc1f829061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 29/34] fix: progressive DC refinement scans do not need a
 Huffman table

---
 src/mcu_prog.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 21a7b86..49d4912 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -312,19 +312,19 @@ impl Decoder
 
                     if self.spec_start == 0
                     {
-                        let pos = self.components[k].dc_huff_table;
-                        let dc_table = self.dc_huffman_tables.get(pos)
-                            .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", pos)))?
-                            .as_ref()
-                            .ok_or_else(|| DecodeErrors::Format(format!("Huffman table at index  {} not initialized", pos)))?;
-                        let dc_pred = &mut self.components[k].dc_pred;
-
                         if self.succ_high == 0
                         {
+                            let pos = self.components[k].dc_huff_table;
+                            let dc_table = self.dc_huffman_tables.get(pos)
+                                .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", pos)))?
+                                .as_ref()
+                                .ok_or_else(|| DecodeErrors::Format(format!("Huffman table at index  {} not initialized", pos)))?;
+                            let dc_pred = &mut self.components[k].dc_pred;
+
                             // first scan for this mcu
                             stream.decode_prog_dc_first(reader, dc_table, &mut data[0], dc_pred)?;
                         } else {
-                            // refining scans for this MCU
+                            // refining scans for this MCU, these do not use Huffman codes
                             stream.decode_prog_dc_refine(reader, &mut data[0])?;
                         }
 
@@ -400,10 +400,16 @@ impl Decoder
                         }
 
                         let component = &mut self.components[n];
-                        let huff_table = self.dc_huffman_tables.get(component.dc_huff_table)
-                            .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", component.dc_huff_table)))?
-                            .as_ref()
-                            .ok_or_else(|| DecodeErrors::Format(format!("Huffman table at index  {} not initialized", component.dc_huff_table)))?;
+                        // refining scans do not use Huffman codes
+                        let huff_table = if self.succ_high == 0
+                        {
+                            Some(self.dc_huffman_tables.get(component.dc_huff_table)
+                                .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", component.dc_huff_table)))?
+                                .as_ref()
+                                .ok_or_else(|| DecodeErrors::Format(format!("Huffman table at index  {} not initialized", component.dc_huff_table)))?)
+                        } else {
+                            None
+                        };
 
                         for v_samp in 0..component.vertical_sample
                         {
@@ -415,7 +421,7 @@ impl Decoder
                                 // data will contain the position for this coefficient in our array.
                                 let data = &mut buffer[n as usize][position];
 
-                                if self.succ_high == 0
+                                if let Some(huff_table) = huff_table
                                 {
                                     stream.decode_prog_dc_first(reader, huff_table, data, &mut component.dc_pred)?;
                                 } else {
-- 
2.43.0


From 6861718da881259fce2ab589a763b1e2472dcf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:47 +0000
Subject: [PATCH 30/34] fix: absurd thread counts aborted: start no more
 workers than there are rows of blocks

---
 src/mcu.rs      | 4 +++-
 src/mcu_prog.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 32e9185..e0b6367 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -140,8 +140,10 @@ impl Decoder
             ));
         }
 
+        // there is no work for more threads than there are rows of blocks
+        let rows = (u32::from(self.info.height) + 7) / 8;
         let  mut scoped_pools = scoped_threadpool::Pool::new(
-            self.options.get_threads());
+            self.options.get_threads().min(rows));
         info!("Created {} worker threads", scoped_pools.thread_count());
 
         let (mut mcu_width, mut mcu_height);
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 49d4912..6a7c8c4 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -196,7 +196,9 @@ impl Decoder
         let mut out_vector = vec![0_u8; chunks_size * y_chunk.len()];
         let out_chunks = out_vector.chunks_exact_mut(chunks_size);
 
-        let mut pool = scoped_threadpool::Pool::new(self.options.get_threads());
+        // there is no work for more threads than there are rows of blocks
+        let rows = (u32::from(self.info.height) + 7) / 8;
+        let mut pool = scoped_threadpool::Pool::new(self.options.get_threads().min(rows));
 
         if self.input_colorspace.num_components() == 3 {
             let cb_chunk_size =
-- 
2.43.0


From fdb5fb1206355cd74c65c2f96b8ada013858269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:23 +0000
Subject: [PATCH 31/34] fix: a frame header, DAC or DNL between progressive
 scans ended decoding silently

---
 src/mcu_prog.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 6a7c8c4..a1728bc 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -120,8 +120,10 @@ impl Decoder
 
             match marker
             {
-                // tables and miscellaneous segments may come in front of any scan
-                Marker::DHT | Marker::DQT | Marker::DRI | Marker::APP(_) | Marker::COM => {
+                // tables and miscellaneous segments may come in front of any scan, another frame
+                // header and what is not supported are errors there too
+                Marker::DHT | Marker::DQT | Marker::DRI | Marker::APP(_) | Marker::COM
+                | Marker::SOF(_) | Marker::DAC | Marker::DNL => {
                     self.parse_marker_inner(marker, reader)?;
                 }
                 Marker::SOS =>
-- 
2.43.0


From 79bc15f9eb968b77ac1d862da983c519677785fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:15 +0000
Subject: [PATCH 32/34] fix: report frames of unsupported coding processes as
 unsupported

The frame headers other than SOF0 and SOF2 were unknown markers, skipped as
segments of no interest, and the unsupported scheme was looked up by the wrong
number.
---
 src/decoder.rs | 2 +-
 src/marker.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index aae3795..5fda10f 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -362,7 +362,7 @@ impl Decoder
             // Start of Frame Segments not supported
             Marker::SOF(v) =>
             {
-                let feature = UnsupportedSchemes::from_int(v);
+                let feature = UnsupportedSchemes::from_int(0xC0 + v);
 
                 if let Some(feature) = feature
                 {
diff --git a/src/marker.rs b/src/marker.rs
index 0e604f8..3d74b0e 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -52,8 +52,8 @@ impl Marker
         match n
         {
             0xFE => Some(COM),
-            0xC0 => Some(SOF(0)),
-            0xC2 => Some(SOF(2)),
+            // 0xC4, 0xC8 and 0xCC are no frame headers
+            0xC0..=0xC3 | 0xC5..=0xC7 | 0xC9..=0xCB | 0xCD..=0xCF => Some(SOF(n - 0xC0)),
             0xC4 => Some(DHT),
             0xCC => Some(DAC),
             0xD0 => Some(RST(0)),
-- 
2.43.0


From 48a0240c42aa9f547b3fe2e59d85c91e13a0bc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:15 +0000
Subject: [PATCH 33/34] fix: refuse invalid spectral selection and successive
 approximation of progressive scans

---
 src/headers.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/headers.rs b/src/headers.rs
index 5999602..031c575 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -472,9 +472,18 @@ where
     // Page 42
 
     // Start of spectral / predictor selection. (between 0 and 63)
-    image.spec_start = read_byte(buf)? & 63;
+    image.spec_start = read_byte(buf)?;
     // End of spectral selection
-    image.spec_end = read_byte(buf)? & 63;
+    image.spec_end = read_byte(buf)?;
+
+    // baseline images do not use these
+    if image.is_progressive && (image.spec_start > image.spec_end || image.spec_end > 63)
+    {
+        return Err(DecodeErrors::SosError(format!(
+            "Invalid spectral selection {} to {}, range should be 0-63",
+            image.spec_start, image.spec_end
+        )));
+    }
 
     let bit_approx = read_byte(buf)?;
     // successive approximation bit position high
@@ -498,6 +507,15 @@ where
         )));
     }
 
+    // a refinement scan adds the next bit
+    if image.is_progressive && image.succ_high != 0 && image.succ_high != image.succ_low + 1
+    {
+        return Err(DecodeErrors::SosError(format!(
+            "Invalid successive approximation, Ah is {} and Al is {}",
+            image.succ_high, image.succ_low
+        )));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From a374155e440e0c3edff4f112e872c6ab2db7d82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:15 +0000
Subject: [PATCH 34/34] fix: report faults of scan headers as SosError

---
 src/headers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/headers.rs b/src/headers.rs
index 031c575..6ce2091 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -417,7 +417,7 @@ where
 
         if usize::from(id) > image.components.len()
         {
-            return Err(DecodeErrors::SofError(format!(
+            return Err(DecodeErrors::SosError(format!(
                 "Too large component ID {}, expected value between 0 and {}",
                 id,
                 image.components.len()
@@ -425,7 +425,7 @@ where
         }
         if seen[usize::from(id)]
         {
-            return Err(DecodeErrors::SofError(format!(
+            return Err(DecodeErrors::SosError(format!(
                 "Duplicate ID {} seen twice in the same component",
                 id
             )));
@@ -450,7 +450,7 @@ where
 
         if j == image.info.components
         {
-            return Err(DecodeErrors::SofError(format!(
+            return Err(DecodeErrors::SosError(format!(
                 "Invalid component id {}, expected a value between 0 and {}",
                 id,
                 image.components.len()
@@ -491,7 +491,7 @@ where
 
     if image.succ_high > 13
     {
-        return Err(DecodeErrors::SofError(format!(
+        return Err(DecodeErrors::SosError(format!(
             "Invalid Ah parameter {}, range should be 0-13",
             image.succ_low
         )));
@@ -501,7 +501,7 @@ where
 
     if image.succ_low > 13
     {
-        return Err(DecodeErrors::SofError(format!(
+        return Err(DecodeErrors::SosError(format!(
             "Invalid Al parameter {}, range should be 0-13",
             image.succ_low
         )));
-- 
2.43.0

