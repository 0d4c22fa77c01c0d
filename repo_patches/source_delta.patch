From 97ccea367702a895c502944e2fe52e250c2a0c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 01/28] fix: fill sub-images in row-major order

---
 src/image/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index aa14c82..03ae501 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -293,8 +293,8 @@ impl<T: Number> Image<T> {
 
         let mut data = Vec::new();
 
-        for i in x..(x + width) {
-            for j in y..(y + height) {
+        for j in y..(y + height) {
+            for i in x..(x + width) {
                 data.push(self.get_pixel(i, j));
             }
         }
-- 
2.43.0


From cab745e898369117f756d19364d74af8f565f7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 02/28] fix: clamp neighborhood coordinates to the nearest edge
 pixel

---
 src/image/mod.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index 03ae501..d50b7c7 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -318,8 +318,7 @@ impl<T: Number> Image<T> {
             let start_y = (y as i32) - (size as i32) / 2;
 
             for i in 0..size {
-                let mut curr_y = start_y + (i as i32);
-                if curr_y < 0 || curr_y >= self.info.height as i32 { curr_y = y as i32 };
+                let curr_y = (start_y + (i as i32)).max(0).min(self.info.height as i32 - 1);
 
                 data.push(self.get_pixel(x, curr_y as u32));
             }
@@ -329,8 +328,7 @@ impl<T: Number> Image<T> {
             let start_x = (x as i32) - (size as i32) / 2;
 
             for i in 0..size {
-                let mut curr_x = start_x + (i as i32);
-                if curr_x < 0 || curr_x >= self.info.width as i32 { curr_x = x as i32 };
+                let curr_x = (start_x + (i as i32)).max(0).min(self.info.width as i32 - 1);
 
                 data.push(self.get_pixel(curr_x as u32, y));
             }
@@ -354,11 +352,8 @@ impl<T: Number> Image<T> {
         let mut data = Vec::new();
         for i in 0..size {
             for j in 0..size {
-                let mut curr_x = start_x + (j as i32);
-                let mut curr_y = start_y + (i as i32);
-
-                if curr_x < 0 || curr_x >= self.info.width as i32 { curr_x = x as i32 };
-                if curr_y < 0 || curr_y >= self.info.height as i32 { curr_y = y as i32 };
+                let curr_x = (start_x + (j as i32)).max(0).min(self.info.width as i32 - 1);
+                let curr_y = (start_y + (i as i32)).max(0).min(self.info.height as i32 - 1);
 
                 data.push(self.get_pixel(curr_x as u32, curr_y as u32));
             }
-- 
2.43.0


From dac527183d5e38ed4ef7dd1dded8188f7fe0853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 03/28] fix: PixelIter::size_hint counts the remaining pixels

---
 src/image/pixel_iter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/image/pixel_iter.rs b/src/image/pixel_iter.rs
index 798e9af..5124e75 100644
--- a/src/image/pixel_iter.rs
+++ b/src/image/pixel_iter.rs
@@ -67,7 +67,8 @@ impl<'a, T: Number> Iterator for PixelIter<'a, T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = ((self.x_max + 1) * (self.y_max + 1)) as usize;
+        let width = self.x_max as usize + 1;
+        let size = width * (self.y_max as usize + 1 - self.y as usize) - self.x as usize;
         (size, Some(size))
     }
 }
-- 
2.43.0


From 3c335c2e00c475b5deffb21c9296d0b8c1e53a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 04/28] fix: box_filter covers a size x size window

---
 src/filter/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index c07eb92..85e1976 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -132,8 +132,7 @@ pub fn linear_filter(input: &Image<f32>, kernel: &[f32]) -> ImgProcResult<Image<
 pub fn box_filter(input: &Image<f32>, size: u32) -> ImgProcResult<Image<f32>> {
     error::check_odd(size, "size")?;
 
-    let len = (size * size) as usize;
-    let kernel = vec![1.0 / ((size * size) as f32); len];
+    let kernel = vec![1.0 / (size as f32); size as usize];
 
     Ok(separable_filter(input, &kernel, &kernel)?)
 }
-- 
2.43.0


From 7e69111bdb16993b0ebca408ff42881ab4025a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 05/28] fix: sign of the quadratic term of the Laplacian of
 Gaussian

---
 src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index f2edec9..7c1d68f 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -97,7 +97,7 @@ pub fn generate_log_kernel(size: u32, sigma: f32) -> ImgProcResult<Vec<f32>> {
         for j in 0..(size as i32) {
             if i <= j {
                 let exp = -(((i - k) * (i - k) + (j - k) * (j - k)) as f32) / (2.0 * sigma * sigma);
-                let num = (-1.0 / (PI * sigma.powf(4.0))) * (1.0 - exp) * (E.powf(exp));
+                let num = (-1.0 / (PI * sigma.powf(4.0))) * (1.0 + exp) * (E.powf(exp));
                 filter[(i * size as i32 + j) as usize] = num;
 
                 if i != j {
-- 
2.43.0


From 5ecd6484996ff74350ea46915352edcdae4f9843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 06/28] fix: spatial matrix gives its centre the weight of
 distance zero

---
 src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index 7c1d68f..694b625 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -117,7 +117,7 @@ pub fn generate_spatial_mat(size: u32, spatial: f32) -> ImgProcResult<Vec<f32>>
 
     for y in 0..(center + 1) {
         for x in 0..(center + 1) {
-            if mat[(y * size + x) as usize] == 0.0 && !(x == center && y == center) {
+            if mat[(y * size + x) as usize] == 0.0 {
                 let dist = math::distance(center, center, x, y);
                 let g = math::gaussian_fn(dist, spatial)?;
                 mat[(y * size + x) as usize] = g;
-- 
2.43.0


From 839acb377bfe5c77298035abebf8d163ecfc9fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 07/28] fix: bilateral filter always uses an odd neighborhood
 size

---
 src/filter/bilateral.rs | 4 ++--
 src/util/mod.rs         | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter/bilateral.rs b/src/filter/bilateral.rs
index 9e1639a..bc27d49 100644
--- a/src/filter/bilateral.rs
+++ b/src/filter/bilateral.rs
@@ -14,7 +14,7 @@ pub fn bilateral_filter(input: &Image<u8>, range: f32, spatial: f32, algorithm:
     error::check_non_neg(spatial, "spatial")?;
 
     let (width, height, channels) = input.info().whc();
-    let size = ((spatial * 4.0) + 1.0) as u32;
+    let size = ((spatial * 4.0) + 1.0) as u32 | 1;
     let spatial_mat = util::generate_spatial_mat(size, spatial)?;
 
     let lab = colorspace::srgb_to_lab_f32(&input, &White::D65);
@@ -43,7 +43,7 @@ pub fn bilateral_filter(input: &Image<u8>, range: f32, spatial: f32, algorithm:
     error::check_non_neg(spatial, "spatial")?;
 
     let (width, height, channels, alpha) = input.info().whca();
-    let size = ((spatial * 4.0) + 1.0) as u32;
+    let size = ((spatial * 4.0) + 1.0) as u32 | 1;
     let spatial_mat = util::generate_spatial_mat(size, spatial)?;
 
     let lab = colorspace::srgb_to_lab_f32(&input, &White::D65);
diff --git a/src/util/mod.rs b/src/util/mod.rs
index 694b625..30e9e7d 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -112,6 +112,8 @@ pub fn generate_log_kernel(size: u32, sigma: f32) -> ImgProcResult<Vec<f32>> {
 
 /// Generates a matrix of distances relative to the center of the matrix
 pub fn generate_spatial_mat(size: u32, spatial: f32) -> ImgProcResult<Vec<f32>> {
+    error::check_odd(size, "size")?;
+
     let center = size / 2;
     let mut mat = vec![0.0; (size * size) as usize];
 
-- 
2.43.0


From 409e1d870de49821569c63ed96f0ac57d206ac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 08/28] fix: morphology windows reach to the image border

---
 src/morphology.rs | 48 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/morphology.rs b/src/morphology.rs
index 6026868..8a96ef9 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -24,15 +24,23 @@ pub fn erode(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
 
             if x >= radius {
                 x_top -= radius;
+            } else {
+                x_top = 0;
             }
-            if x < width - radius {
+            if radius < width && x < width - radius {
                 x_bot += radius;
+            } else {
+                x_bot = width - 1;
             }
             if y >= radius {
                 y_top -= radius;
+            } else {
+                y_top = 0;
             }
-            if y < height - radius {
+            if radius < height && y < height - radius {
                 y_bot += radius;
+            } else {
+                y_bot = height - 1;
             }
 
             if (util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] - max_sum).abs() < f32::EPSILON {
@@ -62,15 +70,23 @@ pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
 
             if x >= radius {
                 x_top -= radius;
+            } else {
+                x_top = 0;
             }
-            if x < width - radius {
+            if radius < width && x < width - radius {
                 x_bot += radius;
+            } else {
+                x_bot = width - 1;
             }
             if y >= radius {
                 y_top -= radius;
+            } else {
+                y_top = 0;
             }
-            if y < height - radius {
+            if radius < height && y < height - radius {
                 y_bot += radius;
+            } else {
+                y_bot = height - 1;
             }
 
             if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255.0 {
@@ -100,15 +116,23 @@ pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
 
             if x >= radius {
                 x_top -= radius;
+            } else {
+                x_top = 0;
             }
-            if x < width - radius {
+            if radius < width && x < width - radius {
                 x_bot += radius;
+            } else {
+                x_bot = width - 1;
             }
             if y >= radius {
                 y_top -= radius;
+            } else {
+                y_top = 0;
             }
-            if y < height - radius {
+            if radius < height && y < height - radius {
                 y_bot += radius;
+            } else {
+                y_bot = height - 1;
             }
 
             if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255.0 {
@@ -150,15 +174,23 @@ pub fn gradient(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
 
             if x >= radius {
                 x_top -= radius;
+            } else {
+                x_top = 0;
             }
-            if x < width - radius {
+            if radius < width && x < width - radius {
                 x_bot += radius;
+            } else {
+                x_bot = width - 1;
             }
             if y >= radius {
                 y_top -= radius;
+            } else {
+                y_top = 0;
             }
-            if y < height - radius {
+            if radius < height && y < height - radius {
                 y_bot += radius;
+            } else {
+                y_bot = height - 1;
             }
 
             let sum = util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0];
-- 
2.43.0


From 223d31edb6c0207496fc4317fbe1d9d607bf5223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 09/28] fix: majority counts set pixels instead of dilating

---
 src/morphology.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/morphology.rs b/src/morphology.rs
index 8a96ef9..19b1190 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -104,6 +104,8 @@ pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
     let (width, height) =  input.info().wh();
+    let size = 2 * radius + 1;
+    let max_sum = (size * size * 255) as f32;
     let table = util::generate_summed_area_table(&input.clone().into());
     let mut output = Image::blank(input.info());
 
@@ -135,7 +137,7 @@ pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
                 y_bot = height - 1;
             }
 
-            if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255.0 {
+            if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] > max_sum / 2.0 {
                 output.set_pixel(x, y, &[255]);
             }
         }
-- 
2.43.0


From cef7cb3daffa47560160df3aa20ca3c7d53e51eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 10/28] fix: superimpose accepts blend weights from 0 to 1

---
 src/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index 3947459..4a9451d 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -62,7 +62,7 @@ pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32
 /// pixel values of `front`
 pub fn superimpose(back: &Image<f32>, front: &Image<f32>, x: u32, y: u32, alpha: f32) -> ImgProcResult<Image<f32>> {
     error::check_equal(back.info().channels, front.info().channels, "image channels")?;
-    error::check_in_range(0.0, 1.0, alpha, "alpha")?;
+    error::check_in_range(alpha, 0.0, 1.0, "alpha")?;
 
     let mut output = back.clone();
     let width = std::cmp::min(x + front.info().width, back.info().width);
-- 
2.43.0


From d1b0a2f5f3d4a3403268b6d34969bcaa815964d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 11/28] fix: crop accepts rectangles that reach the image
 border and rejects overflowing ones

---
 src/transform.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 4a9451d..1e48d19 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -13,12 +13,12 @@ use crate::util;
 /// and height `height`
 #[cfg(not(feature = "rayon"))]
 pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32) -> ImgProcResult<Image<T>> {
-    if (x + width) >= input.info().width {
+    if x.saturating_add(width) > input.info().width {
         return Err(ImgProcError::InvalidArgError(format!("invalid width: input width is {} \
-            but x + width is {}", input.info().width, (x + width))));
-    } else if (y + height) >= input.info().height {
+            but x + width is {}", input.info().width, x.saturating_add(width))));
+    } else if y.saturating_add(height) > input.info().height {
         return Err(ImgProcError::InvalidArgError(format!("invalid height: input height is {} \
-            but y + height is {}", input.info().height, (y + height))));
+            but y + height is {}", input.info().height, y.saturating_add(height))));
     }
 
     let mut output = Image::blank(ImageInfo::new(width, height,
@@ -37,12 +37,12 @@ pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32
 /// and height `height`
 #[cfg(feature = "rayon")]
 pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32) -> ImgProcResult<Image<T>> {
-    if (x + width) >= input.info().width {
+    if x.saturating_add(width) > input.info().width {
         return Err(ImgProcError::InvalidArgError(format!("invalid width: input width is {} \
-            but x + width is {}", input.info().width, (x + width))));
-    } else if (y + height) >= input.info().height {
+            but x + width is {}", input.info().width, x.saturating_add(width))));
+    } else if y.saturating_add(height) > input.info().height {
         return Err(ImgProcError::InvalidArgError(format!("invalid height: input height is {} \
-            but y + height is {}", input.info().height, (y + height))));
+            but y + height is {}", input.info().height, y.saturating_add(height))));
     }
 
     let size = width * height;
-- 
2.43.0


From 5f0c0cf9b1cef76c2709b565e2483d9ef1993d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 12/28] fix: nearest neighbour scaling stays inside the input
 image

---
 src/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index 1e48d19..cdb9664 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -430,7 +430,7 @@ fn interpolate_nearest_neighbor(input: &Image<f32>, x_factor: f32, y_factor: f32
     let x_in = (((x + 1) as f32 / x_factor).ceil() - 1.0) as u32;
     let y_in = (((y + 1) as f32 / y_factor).ceil() - 1.0) as u32;
 
-    input.get_pixel(x_in, y_in)
+    input.get_pixel(x_in.min(input.info().width - 1), y_in.min(input.info().height - 1))
 }
 
 fn interpolate_bilinear(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32, y: u32) -> Vec<f32> {
-- 
2.43.0


From a9fb35344ecd97966b81761031ea612d040db93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 13/28] fix: bilinear scaling weights the nearer pixel more

---
 src/transform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index cdb9664..edfdd75 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -450,10 +450,10 @@ fn interpolate_bilinear(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32
 
     let mut p_out = Vec::with_capacity(input.info().channels as usize);
     for c in 0..(input.info().channels as usize) {
-        p_out.push(p1[c] * x_weight * y_weight
-            + p2[c] * (1.0 - x_weight) * y_weight
-            + p3[c] * x_weight * (1.0 - y_weight)
-            + p4[c] * (1.0 - x_weight) * (1.0 - y_weight));
+        p_out.push(p1[c] * (1.0 - x_weight) * (1.0 - y_weight)
+            + p2[c] * x_weight * (1.0 - y_weight)
+            + p3[c] * (1.0 - x_weight) * y_weight
+            + p4[c] * x_weight * y_weight);
     }
 
     p_out
-- 
2.43.0


From 46d9902f0b1df4650a33142fc56ef6da08082254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 14/28] fix: bias range check does not overflow on i16::MIN

---
 src/tone.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tone.rs b/src/tone.rs
index 72b3968..0757da8 100644
--- a/src/tone.rs
+++ b/src/tone.rs
@@ -16,7 +16,7 @@ use std::collections::HashMap;
 ///
 /// * `bias` - Must be between -255 and 255 (inclusive)
 pub fn brightness(input: &Image<u8>, bias: i16) -> ImgProcResult<Image<u8>> {
-    error::check_in_range(bias.abs(), -255, 255, "bias")?;
+    error::check_in_range(bias, -255, 255, "bias")?;
 
     #[cfg(feature = "simd")]
     {
@@ -43,7 +43,7 @@ fn brightness_rgb_norm(input: &Image<u8>, bias: i16) -> Image<u8> {
 ///
 /// * `bias` - Must be between -255 and 255 (inclusive)
 pub fn brightness_lab(input: &Image<u8>, bias: i16) -> ImgProcResult<Image<u8>> {
-    error::check_in_range(bias.abs(), -255, 255, "bias")?;
+    error::check_in_range(bias, -255, 255, "bias")?;
 
     let mut lab = colorspace::srgb_to_lab_f32(input, &White::D50);
     let bias_lab = (bias as f32) / 255.0 * 100.0;
-- 
2.43.0


From bc6f4c316c9c67b69d68c2a117be562f172eaabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 15/28] fix: slope of the linear segment of the sRGB
 linearization

---
 src/colorspace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colorspace.rs b/src/colorspace.rs
index e58c3e3..eb0ec84 100644
--- a/src/colorspace.rs
+++ b/src/colorspace.rs
@@ -57,7 +57,7 @@ pub fn linearize_srgb_f32(input: &Image<u8>) -> Image<f32> {
     util::generate_lookup_table(&mut lookup_table, |i| {
         let val = i as f32;
         if val <= 10.0 {
-            val / 3294.0
+            val / 3294.6
         } else {
             ((val + 14.025) / 269.025).powf(GAMMA)
         }
-- 
2.43.0


From abd75f7405df0050ea3a3c431198efb5f8430fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 16/28] fix: avg_checked_256_u8 detects AVX2 before running
 AVX2 code

---
 src/colorspace.rs | 2 +-
 src/simd.rs       | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/colorspace.rs b/src/colorspace.rs
index eb0ec84..970bc71 100644
--- a/src/colorspace.rs
+++ b/src/colorspace.rs
@@ -25,7 +25,7 @@ pub fn rgb_to_grayscale(input: &Image<u8>) -> Image<u8> {
     rgb_to_grayscale_norm(input)
 }
 
-fn rgb_to_grayscale_norm(input: &Image<u8>) -> Image<u8> {
+pub(crate) fn rgb_to_grayscale_norm(input: &Image<u8>) -> Image<u8> {
     input.map_pixels_if_alpha(|channels, p_out| {
         let mut sum = 0;
         for channel in channels.iter() {
diff --git a/src/simd.rs b/src/simd.rs
index c4ab1ca..45608c2 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -2,6 +2,9 @@
 
 use crate::image::{BaseImage, Image};
 
+#[cfg(feature = "simd")]
+use crate::colorspace;
+
 #[cfg(all(feature = "simd", target_arch = "x86_64"))]
 use std::arch::x86_64::*;
 
@@ -263,6 +266,10 @@ pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
 /// returns a grayscale image
 #[cfg(feature = "simd")]
 pub fn avg_checked_256_u8(input: &Image<u8>) -> Image<u8> {
+    if !is_x86_feature_detected!("avx2") {
+        return colorspace::rgb_to_grayscale_norm(input);
+    }
+
     if input.info().alpha {
         unsafe { avg_alpha_256_u8(input) }
     } else {
-- 
2.43.0


From bd1a1d2cb2c230b920c22a5590d2a54c6dd2bc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 17/28] fix: vectorised brightness processes the last bytes,
 leaves every alpha alone and checks the buffer length

---
 src/simd.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index 45608c2..21d36a3 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -17,6 +17,7 @@ use std::arch::x86::*;
 #[target_feature(enable = "avx2")]
 pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
     let num_bytes = input.info().full_size();
+    assert!(input.data().len() >= num_bytes as usize);
     let mut data: Vec<u8> = vec![0; num_bytes as usize];
 
     // Load val into 256-bit SIMD register
@@ -29,9 +30,13 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
         val_256 = _mm256_blendv_epi8(val_256, zeroes_256, alpha_mask);
     }
 
+    // The alpha mask is only valid for 4-channel pixels
+    let channels = input.info().channels as u32;
+    let simd_bytes = if input.info().alpha && channels != 4 { 0 } else { num_bytes };
+
     // Process 32 bytes at a time
     let mut i = 0;
-    while (i + 32) <= num_bytes {
+    while (i + 32) <= simd_bytes {
         // Load 32-byte chunk into 256-bit SIMD register
         let chunk = _mm256_loadu_si256(input.data().as_ptr().
             offset(i as isize) as *const _);
@@ -50,10 +55,13 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
     }
 
     // Process the remaining bytes normally
-    if i > num_bytes {
-        for j in (i - 32)..num_bytes {
-            data[j as usize] = (input.data()[j as usize] as i16 + val).clamp(0, 255) as u8;
-        }
+    for j in i..num_bytes {
+        let channel = input.data()[j as usize];
+        data[j as usize] = if input.info().alpha && (j + 1) % channels == 0 {
+            channel
+        } else {
+            (channel as i16 + val).clamp(0, 255) as u8
+        };
     }
 
     Image::from_vec(input.info().width, input.info().height, input.info().channels,
-- 
2.43.0


From 761a635105588d30be4db39665851138fc0966cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 18/28] fix: vectorised saturation stays inside the buffers and
 processes the last bytes

---
 src/simd.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index 21d36a3..4759778 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -74,6 +74,7 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
 #[target_feature(enable = "avx2")]
 pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
     let num_bytes = input.info().full_size();
+    assert!(input.data().len() >= num_bytes as usize);
     let mut data: Vec<u8> = vec![0; num_bytes as usize];
 
     let mut val_256 = _mm256_set1_epi8(val.abs() as i8);
@@ -111,8 +112,13 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
         step = 32;
     }
 
+    // The masks are only valid for 3-channel pixels without alpha and 4-channel pixels with alpha
+    let channels = input.info().channels as u32;
+    let simd_bytes = if channels == (if input.info().alpha { 4 } else { 3 }) { num_bytes } else { 0 };
+
+    // Every chunk loads and stores 32 bytes, whatever the step
     let mut i = 0;
-    while (i + step) <= num_bytes {
+    while (i + 32) <= simd_bytes {
         let chunk = _mm256_loadu_si256(input.data().as_ptr().
             offset(i as isize) as *const _);
 
@@ -127,11 +133,13 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
         i += step;
     }
 
-    if i > num_bytes {
-        for j in ((i - step)..num_bytes).step_by(input.info().channels as usize) {
-            let index = j as usize + n as usize;
-            data[index] = (input.data()[index] as i16 + val).clamp(0, 255) as u8;
-        }
+    for j in i..num_bytes {
+        let channel = input.data()[j as usize];
+        data[j as usize] = if j % channels == n as u32 {
+            (channel as i16 + val).clamp(0, 255) as u8
+        } else {
+            channel
+        };
     }
 
     Image::from_vec(input.info().width, input.info().height, input.info().channels,
-- 
2.43.0


From aba150b6a48d61fe9bbc9b4cf09f4a81ce22f55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 19/28] fix: vectorised grayscale conversion averages the last
 pixels and only handles three color channels

---
 src/simd.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index 4759778..e0f961b 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -222,11 +222,9 @@ pub unsafe fn avg_256_u8(input: &Image<u8>) -> Image<u8> {
         i += chunk_size;
     }
 
-    if i > num_bytes {
-        for j in ((i - chunk_size)..num_bytes).step_by(3) {
-            let sum = (input.data()[i] + input.data()[i + 1] + input.data()[i + 2]) as f32;
-            data[j / channels] = (sum / 3.0).round() as u8;
-        }
+    for j in (i..num_bytes).step_by(3) {
+        let sum = input.data()[j] as f32 + input.data()[j + 1] as f32 + input.data()[j + 2] as f32;
+        data[j / channels] = (sum / 3.0).round() as u8;
     }
 
     Image::from_vec(input.info().width, input.info().height, 1,
@@ -266,12 +264,10 @@ pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
         i += chunk_size;
     }
 
-    if i > num_bytes {
-        for j in ((i - chunk_size)..num_bytes).step_by(channels) {
-            let sum = (input.data()[i] + input.data()[i + 1] + input.data()[i + 2]) as f32;
-            data[j / 2] = (sum / 3.0).round() as u8;
-            data[j / 2 + 1] = input.data()[i + 3];
-        }
+    for j in (i..num_bytes).step_by(channels) {
+        let sum = input.data()[j] as f32 + input.data()[j + 1] as f32 + input.data()[j + 2] as f32;
+        data[j / 2] = (sum / 3.0).round() as u8;
+        data[j / 2 + 1] = input.data()[j + 3];
     }
 
     Image::from_vec(input.info().width, input.info().height, 2,
@@ -282,7 +278,8 @@ pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
 /// returns a grayscale image
 #[cfg(feature = "simd")]
 pub fn avg_checked_256_u8(input: &Image<u8>) -> Image<u8> {
-    if !is_x86_feature_detected!("avx2") {
+    // The AVX2 versions only handle three color channels
+    if !is_x86_feature_detected!("avx2") || input.info().channels_non_alpha() != 3 {
         return colorspace::rgb_to_grayscale_norm(input);
     }
 
-- 
2.43.0


From 636c7e2de7a5a3e161697525f12d812ad2e704c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 20/28] fix: count every pixel once in
 generate_histogram_percentiles

---
 src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index 30e9e7d..48060a2 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -41,7 +41,7 @@ pub fn generate_histogram_percentiles(input: &Image<f32>, percentiles: &mut Hash
     for y in 0..(input.info().height) {
         for x in 0..(input.info().width) {
             let p = (input.get_pixel(x, y)[0] * precision).round() as i32;
-            let count = histogram.entry(p).or_insert(1);
+            let count = histogram.entry(p).or_insert(0);
             *count += 1;
         }
     }
-- 
2.43.0


From 71b5d8a72e6a73c095d43dee7cd41e1190e8b05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 21/28] fix: rotate draws every pixel at its rotated place
 instead of shifting and dropping rows and columns

---
 src/transform.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index edfdd75..3c220ed 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -228,29 +228,29 @@ pub fn rotate(input: &Image<f32>, degrees: f32) -> ImgProcResult<Image<f32>> {
     let y_max = util::max_4(coords1[1], coords2[1], coords3[1], coords4[1]);
     let y_min = util::min_4(coords1[1], coords2[1], coords3[1], coords4[1]);
 
-    let w_out = (x_max - x_min) as u32;
-    let h_out = (y_max - y_min) as u32;
+    let w_out = (x_max - x_min).round() as u32;
+    let h_out = (y_max - y_min).round() as u32;
 
     let mut output = Image::blank(ImageInfo::new(w_out, h_out,
                                                  input.info().channels, input.info().alpha));
     let mut coords = Vec::with_capacity(input.info().channels as usize);
 
-    for j in 0..h_in {
-        for i in 0..w_in {
-            let x1 = (i as f32) - (x as f32);
-            let y1 = (y as f32) - (j as f32);
+    // Draw the covers for the "holes" left by the rotation algorithm first, then the pixels themselves
+    for cover in [1.0, 0.0] {
+        for j in 0..h_in {
+            for i in 0..w_in {
+                // Center of the pixel relative to the center of the image
+                let x1 = (i as f32) + 0.5 - (x as f32);
+                let y1 = (y as f32) - (j as f32) - 0.5;
 
-            util::vector_mul_mut(&mat, &[x1, y1], &mut coords)?;
+                util::vector_mul_mut(&mat, &[x1, y1], &mut coords)?;
 
-            coords[0] += x_max - 1.0;
-            coords[1] = y_max - coords[1] - 1.0;
+                coords[0] -= x_min + cover;
+                coords[1] = y_max - coords[1];
 
-            output.set_pixel(coords[0] as u32, coords[1] as u32,
-                             input.get_pixel(i, j));
-
-            // Cover up "holes" left by rotation algorithm
-            if coords[0] >= 1.0 {
-                output.set_pixel(coords[0] as u32 - 1, coords[1] as u32, input.get_pixel(i, j));
+                if coords[0] >= 0.0 {
+                    output.set_pixel(coords[0] as u32, coords[1] as u32, input.get_pixel(i, j));
+                }
             }
         }
     }
-- 
2.43.0


From 3d1bb48573a12d1a11f33fc4174ca68ba026a21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:59 +0000
Subject: [PATCH 22/28] fix: morphology operations no longer panic on gray
 images with alpha and keep the alpha channel

---
 src/morphology.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/morphology.rs b/src/morphology.rs
index 19b1190..34d8526 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -13,7 +13,7 @@ pub fn erode(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     let size = 2 * radius + 1;
     let max_sum = (size * size * 255) as f32;
     let table = util::generate_summed_area_table(&input.clone().into());
-    let mut output = Image::blank(input.info());
+    let mut output = input.map_channels_if_alpha(|_| 0, |a| a);
 
     for y in 0..height {
         for x in 0..width {
@@ -44,7 +44,7 @@ pub fn erode(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
             }
 
             if (util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] - max_sum).abs() < f32::EPSILON {
-                output.set_pixel(x, y, &[255]);
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
@@ -59,7 +59,7 @@ pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
 
     let (width, height) =  input.info().wh();
     let table = util::generate_summed_area_table(&input.clone().into());
-    let mut output = Image::blank(input.info());
+    let mut output = input.map_channels_if_alpha(|_| 0, |a| a);
 
     for y in 0..height {
         for x in 0..width {
@@ -90,7 +90,7 @@ pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
             }
 
             if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255.0 {
-                output.set_pixel(x, y, &[255]);
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
@@ -107,7 +107,7 @@ pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     let size = 2 * radius + 1;
     let max_sum = (size * size * 255) as f32;
     let table = util::generate_summed_area_table(&input.clone().into());
-    let mut output = Image::blank(input.info());
+    let mut output = input.map_channels_if_alpha(|_| 0, |a| a);
 
     for y in 0..height {
         for x in 0..width {
@@ -138,7 +138,7 @@ pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
             }
 
             if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] > max_sum / 2.0 {
-                output.set_pixel(x, y, &[255]);
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
@@ -165,7 +165,7 @@ pub fn gradient(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     let size = 2 * radius + 1;
     let max_sum = (size * size * 255) as f32;
     let table = util::generate_summed_area_table(&input.clone().into());
-    let mut output = Image::blank(input.info());
+    let mut output = input.map_channels_if_alpha(|_| 0, |a| a);
 
     for y in 0..height {
         for x in 0..width {
@@ -200,7 +200,7 @@ pub fn gradient(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
             let dilate = (sum >= 255.0);
 
             if erode ^ dilate {
-                output.set_pixel(x, y, &[255]);
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
-- 
2.43.0


From 0544f71fa371957991c9ab0a9d360ff6d2e61df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:59 +0000
Subject: [PATCH 23/28] fix: derivative_mask no longer panics on gray images
 with alpha and keeps the alpha channel

---
 src/filter/edge.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/filter/edge.rs b/src/filter/edge.rs
index 07d83e0..6ea560b 100644
--- a/src/filter/edge.rs
+++ b/src/filter/edge.rs
@@ -14,10 +14,10 @@ pub fn derivative_mask(input: &Image<f32>, vert_kernel: &[f32], horz_kernel: &[f
     let img_x = filter::separable_filter(&input, &vert_kernel, &horz_kernel)?;
     let img_y = filter::separable_filter(&input, &horz_kernel, &vert_kernel)?;
 
-    let mut output = Image::blank(input.info());
+    let mut output = input.map_channels_if_alpha(|_| 0.0, |a| a);
 
-    for i in 0..(output.info().full_size() as usize) {
-        output.set_pixel_indexed(i, &[(img_x[i][0].powf(2.0) + img_y[i][0].powf(2.0)).sqrt()]);
+    for i in 0..(output.info().size() as usize) {
+        output[i][0] = (img_x[i][0].powf(2.0) + img_y[i][0].powf(2.0)).sqrt();
     }
 
     Ok(output)
-- 
2.43.0


From 864ffb0ef7eee04cd3f1130406776b7b199ea049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:12 +0000
Subject: [PATCH 24/28] fix: median_filter kept the previous median when
 exactly half of the kernel lies below it

---
 src/filter/median.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 2054ab4..2e545ba 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -304,9 +304,6 @@ fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_o
                                                         // the previous median
 
             match sum.cmp(&center) {
-                Ordering::Equal => { // The current median is equal to the previous median
-                    p_out.push(pivot);
-                },
                 Ordering::Less => { // The current median is greater than the previous median,
                                     // so the histogram should be scanned upwards
                     for key in pivot..=255 {
@@ -321,7 +318,7 @@ fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_o
                         sum += add;
                     }
                 },
-                Ordering::Greater => { // The current median is less than the previous median, so the histogram
+                Ordering::Equal | Ordering::Greater => { // The current median is less than the previous median, so the histogram
                                        // should be scanned downwards
                     for key in (0..pivot).rev() {
                         sum -= hist.data().get_count(key as usize, i);
-- 
2.43.0


From 6369662abaf3077efef801c82e97f76d2a1a2796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:12 +0000
Subject: [PATCH 25/28] fix: median and trimmed mean filters no longer
 overwrite the last column with windows past the right edge

---
 src/filter/median.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 2e545ba..a72cb38 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -288,8 +288,9 @@ fn init_cols_med(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Vec
             }
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, 0, &p_out);
+        if x + (i as u32) < output.info().width {
+            output.set_pixel(x + i as u32, 0, &p_out);
+        }
 
         set_pivots_med(histograms, &p_out, i);
     }
@@ -333,8 +334,9 @@ fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_o
             }
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, y, &p_out);
+        if x + (i as u32) < output.info().width {
+            output.set_pixel(x + i as u32, y, &p_out);
+        }
 
         set_pivots_med(histograms, &p_out, i);
     }
@@ -648,8 +650,9 @@ fn init_cols_mean(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Ve
             p_out.push(hist.get_mean(i));
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, 0, &p_out);
+        if x + (i as u32) < output.info().width {
+            output.set_pixel(x + i as u32, 0, &p_out);
+        }
     }
 }
 
@@ -660,8 +663,9 @@ fn process_row_mean(output: &mut Image<u8>, histograms: &mut Vec<MeanHist>, p_ou
             p_out.push(hist.get_mean(i));
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, y, &p_out);
+        if x + (i as u32) < output.info().width {
+            output.set_pixel(x + i as u32, y, &p_out);
+        }
     }
 }
 
-- 
2.43.0


From 45ce7c6c5e7a8ae3efa00efd40a80229587576be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:12 +0000
Subject: [PATCH 26/28] fix: alpha_trimmed_mean_filter computes every mean from
 the histogram of its kernel

---
 src/filter/median.rs | 242 ++++---------------------------------------
 1 file changed, 20 insertions(+), 222 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index a72cb38..a5d622d 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -2,7 +2,7 @@ use crate::error;
 use crate::error::{ImgProcResult, ImgProcError};
 use crate::image::{Image, BaseImage};
 
-use std::cmp::{Ordering, Reverse};
+use std::cmp::Ordering;
 
 /// Applies a median filter, where each output pixel is the median of the pixels in a
 /// `(2 * radius + 1) x (2 * radius + 1)` kernel in the input image. Based on Ben Weiss' partial
@@ -367,197 +367,38 @@ fn set_pivots_med(histograms: &mut Vec<MedianHist>, pivots: &[u8], index: usize)
 #[derive(Debug, Clone)]
 struct MeanHist {
     data: PartialHistograms,
-    sums: Vec<i32>, // The sum of all the participating pixel values in the kernel for each pixel
-    lower: Vec<Vec<u8>>, // Vectors of all the lowest discarded pixel values in the kernel
-                         // for each pixel
-    upper: Vec<Vec<u8>>, // Vectors of all the highest discarded pixel values in the kernel for
-                         // each pixel
-    trim: usize, // The number of pixel values discarded at the low and high ends of each kernel
-                 // (equal to half of alpha)
-    len: f32, // The number of participating pixel values in each kernel
+    trim: i32, // The number of pixel values discarded at the low and high ends of each kernel
+               // (equal to half of alpha)
+    len: i32, // The number of participating pixel values in each kernel
 }
 
 impl MeanHist {
     fn new(radius: usize, n_cols: usize, alpha: u32) -> Self {
         let size = 2 * radius + 1;
-        let len = ((size * size) - alpha as usize) as f32;
 
         MeanHist {
             data: PartialHistograms::new(radius, n_cols),
-            sums: Vec::with_capacity(n_cols),
-            lower: Vec::with_capacity(n_cols),
-            upper: Vec::with_capacity(n_cols),
-            trim: (alpha as usize) / 2,
-            len,
+            trim: (alpha / 2) as i32,
+            len: (size * size) as i32 - alpha as i32,
         }
     }
 
-    fn data(&self) -> &PartialHistograms {
-        &self.data
-    }
-
-    fn init(&mut self) {
-        self.sums = vec![0; self.data.n_cols];
-        self.lower = vec![Vec::with_capacity(self.trim); self.data.n_cols];
-        self.upper = vec![Vec::with_capacity(self.trim); self.data.n_cols];
-    }
-
-    // By some miracle, this seems to work!
     fn update(&mut self, p_in: &[&[u8]], channel_index: usize, add: bool) {
-        if !self.sums.is_empty() {
-            if add {
-                for n in 0..self.data.n_cols {
-                    for i in n..(n + self.data.size) {
-                        let val = p_in[i][channel_index];
-                        let lower = self.lower(n);
-                        let upper = self.upper(n);
-
-                        if val < lower {
-                            self.lower[n].remove(self.trim -  1);
-                            self.sums[n] += lower as i32;
-
-                            let pos = self.lower[n].binary_search(&val).unwrap_or_else(|e| e);
-                            self.lower[n].insert(pos, val);
-                        } else if val > upper {
-                            self.upper[n].remove(self.trim - 1);
-                            self.sums[n] += upper as i32;
-
-                            let pos = self.lower[n].binary_search_by_key(&Reverse(&val), Reverse).unwrap_or_else(|e| e);
-                            self.upper[n].insert(pos, val);
-                        } else {
-                            self.sums[n] += val as i32;
-                        }
-                    }
-                }
-                self.data.update(p_in, channel_index, add);
-            } else {
-                self.data.update(p_in, channel_index, add);
-                for n in 0..self.data.n_cols {
-                    for i in n..(n + self.data.size) {
-                        let val = p_in[i][channel_index];
-                        let lower = self.lower(n);
-                        let upper = self.upper(n);
-
-                        let mut lower_count = self.data.get_count(lower as usize, n);
-                        let mut upper_count = self.data.get_count(upper as usize, n);
-
-                        for j in i..(n + self.data.size) {
-                            if p_in[j][channel_index] == lower {
-                                lower_count += 1;
-                            } else if p_in[j][channel_index] == upper {
-                                upper_count += 1;
-                            }
-                        }
-
-                        for j in self.lower[n].iter().rev() {
-                            if *j == lower {
-                                lower_count -= 1;
-                            } else {
-                                break;
-                            }
-                        }
-
-                        for j in self.upper[n].iter().rev() {
-                            if *j == upper {
-                                upper_count -= 1;
-                            } else {
-                                break;
-                            }
-                        }
-
-                        if val == lower && lower_count == 0 {
-                            self.lower[n].remove(self.trim - 1);
-                            self.get_next_lower(n, lower_count, lower);
-                        } else if val < lower {
-                            let res = self.lower[n].binary_search(&val);
-
-                            match res {
-                                Ok(pos) => {
-                                    self.lower[n].remove(pos);
-                                    self.get_next_lower(n, lower_count, lower);
-                                },
-                                Err(_) => {
-                                    self.sums[n] -= val as i32;
-                                }
-                            }
-                        } else if val == upper && upper_count == 0 {
-                            self.upper[n].remove(self.trim - 1);
-                            self.get_next_upper(n, upper_count, upper);
-                        } else if val > upper {
-                            let res = self.lower[n].binary_search_by_key(&Reverse(&val), Reverse);
-
-                            match res {
-                                Ok(pos) => {
-                                    self.upper[n].remove(pos);
-                                    self.get_next_upper(n, upper_count, upper);
-                                },
-                                Err(_) => {
-                                    self.sums[n] -= val as i32;
-                                }
-                            }
-                        } else {
-                            self.sums[n] -= val as i32;
-                        }
-                    }
-                }
-            }
-        } else {
-            self.data.update(p_in, channel_index, add);
-        }
-    }
-
-    fn set_sum(&mut self, sum: i32, index: usize) {
-        self.sums[index] = sum;
-    }
-
-    fn set_upper(&mut self, vals: Vec<u8>, index: usize) {
-        self.upper[index] = vals;
-    }
-
-    fn set_lower(&mut self, vals: Vec<u8>, index: usize) {
-        self.lower[index] = vals;
-    }
-
-    fn upper(&self, index: usize) -> u8 {
-        self.upper[index][self.trim-1]
-    }
-
-    fn lower(&self, index: usize) -> u8 {
-        self.lower[index][self.trim-1]
+        self.data.update(p_in, channel_index, add);
     }
 
     fn get_mean(&self, index: usize) -> u8 {
-        ((self.sums[index] as f32) / self.len).round() as u8
-    }
-
-    fn get_next_lower(&mut self, n: usize, lower_count: i32, lower: u8) {
-        if lower_count > 0 {
-            self.lower[n].push(lower);
-            self.sums[n] -= lower as i32;
-        } else {
-            for key in (lower + 1)..=255 {
-                if self.data.get_count(key as usize, n) > 0 {
-                    self.lower[n].push(key);
-                    self.sums[n] -= key as i32;
-                    break;
-                }
-            }
+        let mut count = 0; // The number of pixel values less than the current key
+        let mut sum = 0; // The sum of the participating pixel values
+
+        for key in 0u8..=255 {
+            let next = count + self.data.get_count(key as usize, index);
+            let len = next.clamp(self.trim, self.trim + self.len) - count.clamp(self.trim, self.trim + self.len);
+            sum += len * key as i32;
+            count = next;
         }
-    }
 
-    fn get_next_upper(&mut self, n: usize, upper_count: i32, upper: u8) {
-        if upper_count > 0 {
-            self.upper[n].push(upper);
-            self.sums[n] -= upper as i32;
-        } else {
-            for key in (0..upper).rev() {
-                if self.data.get_count(key as usize, n) > 0 {
-                    self.upper[n].push(key);
-                    self.sums[n] -= key as i32;
-                    break;
-                }
-            }
-        }
+        ((sum as f32) / (self.len as f32)).round() as u8
     }
 }
 
@@ -567,7 +408,7 @@ fn process_cols_mean(input: &Image<u8>, output: &mut Image<u8>, radius: u32, alp
     let mut p_out = Vec::with_capacity(channels as usize);
 
     // Initialize histogram and process first row
-    init_cols_mean(input, output, &mut histograms, &mut p_out, radius, alpha, n_cols, x);
+    init_cols_mean(input, output, &mut histograms, &mut p_out, radius, n_cols, x);
 
     // Update histogram and process remaining rows
     let mut row_in = Vec::with_capacity(n_cols);
@@ -594,9 +435,8 @@ fn process_cols_mean(input: &Image<u8>, output: &mut Image<u8>, radius: u32, alp
 }
 
 fn init_cols_mean(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Vec<MeanHist>,
-                  p_out: &mut Vec<u8>, radius: u32, alpha: u32, n_cols: usize, x: u32) {
+                  p_out: &mut Vec<u8>, radius: u32, n_cols: usize, x: u32) {
     let (width, height) = input.info().wh();
-    let size = 2 * radius + 1;
 
     // Initialize histograms
     let mut row_in = Vec::with_capacity(n_cols);
@@ -607,53 +447,11 @@ fn init_cols_mean(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Ve
         }
 
         add_row_mean(histograms, &row_in);
-    }
-
-    // Initialize histograms
-    for hist in histograms.iter_mut() {
-        hist.init();
+        row_in.clear();
     }
 
     // Compute first mean values
-    let trim = (alpha as usize) / 2;
-    let upper_trim = (size * size) as usize - trim;
-    for i in 0..n_cols {
-        p_out.clear();
-        for hist in histograms.iter_mut() {
-            let mut count = 0;
-            let mut sum = 0;
-            let mut upper = Vec::with_capacity(trim);
-            let mut lower = Vec::with_capacity(trim);
-
-            for key in 0u8..=255 {
-                let mut add = hist.data().get_count(key as usize, i);
-                count += add;
-                sum += add * key as i32;
-
-                while lower.len() < trim && add > 0 {
-                    lower.push(key);
-                    sum -= key as i32;
-                    add -= 1;
-                }
-
-                while (count as usize) > upper_trim && upper.len() < trim && add > 0 {
-                    upper.insert(0, key);
-                    sum -= key as i32;
-                    add -= 1;
-                }
-            }
-
-            hist.set_sum(sum, i);
-            hist.set_upper(upper, i);
-            hist.set_lower(lower, i);
-
-            p_out.push(hist.get_mean(i));
-        }
-
-        if x + (i as u32) < output.info().width {
-            output.set_pixel(x + i as u32, 0, &p_out);
-        }
-    }
+    process_row_mean(output, histograms, p_out, n_cols, x, 0);
 }
 
 fn process_row_mean(output: &mut Image<u8>, histograms: &mut Vec<MeanHist>, p_out: &mut Vec<u8>, n_cols: usize, x: u32, y: u32) {
-- 
2.43.0


From 5c393bba7862b1246bfd3a4c2340f71df15a6954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:20 +0000
Subject: [PATCH 27/28] fix: separate_kernel panicked on separable kernels and
 did not return on others

The singular value decomposition it relied on reports failure for most
kernels of rank one and does not converge for others: gaussian_blur with
size 7 and sigma 1.0 never returned, and linear_filter with
[1, 2, 1, 2, 4, 2, 1, 2, 1] panicked. Test the rows of the kernel for
being multiples of one of them instead.
---
 src/util/math.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/util/math.rs b/src/util/math.rs
index b4ee90b..1bf27c5 100644
--- a/src/util/math.rs
+++ b/src/util/math.rs
@@ -3,7 +3,6 @@ use crate::image::{Number, SubImage, BaseImage};
 use crate::error::ImgProcResult;
 
 use std::f32::consts::{PI, E};
-use rulinalg::matrix::{Matrix, BaseMatrix};
 
 /// Returns the result of the multiplication of a square matrix by a vector
 pub fn vector_mul<T: Number>(mat: &[T], input: &[T]) -> ImgProcResult<Vec<T>> {
@@ -47,24 +46,23 @@ pub fn vector_mul_mut<T: Number>(mat: &[T], input: &[T], output: &mut Vec<T>) ->
 /// If `kernel` is separable, returns the (vertical kernel, horizontal kernel); otherwise returns None
 pub fn separate_kernel(kernel: &[f32]) -> Option<(Vec<f32>, Vec<f32>)> {
     let size = (kernel.len() as f32).sqrt() as usize;
-    let kernel_mat = Matrix::new(size, size, kernel);
-    let size = kernel_mat.cols();
-    let (s, u, v) = kernel_mat.svd().unwrap();
-
-    // Check if kernel is separable
-    if s.data()[0] != 0.0 {
-        for i in 1..size {
-            if s.data()[i * size + i] != 0.0 {
+    assert_eq!(kernel.len(), size * size, "kernel is not square");
+
+    // A kernel is separable if and only if all of its rows are multiples of one of them. The
+    // products of two f32 values are exact in f64
+    let pivot = kernel.iter().position(|&k| k != 0.0)?;
+    let (row, col) = (pivot / size, pivot % size);
+    for i in 0..size {
+        for j in 0..size {
+            let product = kernel[i * size + col] as f64 * kernel[row * size + j] as f64;
+            if kernel[i * size + j] as f64 * kernel[pivot] as f64 != product {
                 return None;
             }
         }
-    } else {
-        return None;
     }
 
-    let scalar = s.data()[0].sqrt();
-    let vertical_kernel = (u.col(0).as_slice().into_matrix() * scalar).into_vec();
-    let horizontal_kernel = (v.transpose().row(0).as_slice().into_matrix() * scalar).into_vec();
+    let vertical_kernel = (0..size).map(|i| kernel[i * size + col]).collect();
+    let horizontal_kernel = (0..size).map(|j| kernel[row * size + j] / kernel[pivot]).collect();
     Some((vertical_kernel, horizontal_kernel))
 }
 
-- 
2.43.0


From fa478a776b728c5063a56c712cb738102ece0f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:53:43 +0000
Subject: [PATCH 28/28] fix: hsv_to_rgb_f32 turned a hue of 1 into magenta
 instead of red

---
 src/colorspace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colorspace.rs b/src/colorspace.rs
index 970bc71..46d14b9 100644
--- a/src/colorspace.rs
+++ b/src/colorspace.rs
@@ -267,7 +267,7 @@ pub fn hsv_to_rgb_f32(input: &Image<f32>) -> Image<u8> {
         let val = (channels[2] * 255.0) as u8;
 
         match hue.floor() as u8 {
-            0 => p_out.extend([val, t, p].iter()),
+            0 | 6 => p_out.extend([val, t, p].iter()),
             1 => p_out.extend([q, val, p].iter()),
             2 => p_out.extend([p, val, t].iter()),
             3 => p_out.extend([p, q, val].iter()),
-- 
2.43.0

