From 4b55076c1521df400ae100e25f097e34b61c3f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:38 +0000
Subject: [PATCH 01/27] fix: clone of an image with owned pixels must not point
 to the pixels of the original

---
 src/rows.rs   | 10 ++++++++++
 src/seacow.rs |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/src/rows.rs b/src/rows.rs
index 80254a1..65f827f 100644
--- a/src/rows.rs
+++ b/src/rows.rs
@@ -51,6 +51,16 @@ impl Clone for DynamicRows<'_, '_> {
             height: self.height,
             f_pixels: self.f_pixels.clone(),
             pixels: match &self.pixels {
+                PixelsSource::Pixels { rows, pixels: Some(pixels) } if !pixels.is_borrowed() => {
+                    // these row pointers point to the pixels owned by `self`, so they must be moved to the copy
+                    let old_start = pixels.as_slice().as_ptr();
+                    let pixels = pixels.clone();
+                    let new_start = pixels.as_slice().as_ptr();
+                    let rows = SeaCow::boxed(rows.as_slice().iter().map(|row| {
+                        Pointer(new_start.wrapping_offset(unsafe { row.0.offset_from(old_start) }))
+                    }).collect());
+                    PixelsSource::Pixels { rows, pixels: Some(pixels) }
+                },
                 PixelsSource::Pixels { rows, pixels } => PixelsSource::Pixels {
                     rows: rows.clone(),
                     pixels: pixels.clone(),
diff --git a/src/seacow.rs b/src/seacow.rs
index 3914ba4..ee7808d 100644
--- a/src/seacow.rs
+++ b/src/seacow.rs
@@ -40,6 +40,12 @@ impl<'a, T> SeaCow<'a, T> {
         Self { inner: SeaCowInner::Borrowed(data) }
     }
 
+    #[inline]
+    #[must_use]
+    pub(crate) const fn is_borrowed(&self) -> bool {
+        matches!(self.inner, SeaCowInner::Borrowed(_))
+    }
+
     /// The pointer must be `malloc`-allocated
     #[inline]
     #[cfg(feature = "_internal_c_ffi")]
-- 
2.43.0


From 683a2dd60f3195808dad239849684423ea1690c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:39 +0000
Subject: [PATCH 02/27] fix: dithering must not read uninitialized memory at
 the start of a chunk

---
 src/remap.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/remap.rs b/src/remap.rs
index 78fca5b..7065bca 100644
--- a/src/remap.rs
+++ b/src/remap.rs
@@ -208,7 +208,8 @@ pub(crate) fn remap_to_palette_floyd(input_image: &mut Image, mut output_pixels:
                     let bg_pixels = background.as_mut().map(|b| b.row_f(&mut temp_row, row as _)).unwrap_or(&[]);
                     let dither_map = dither_map.get(row * width .. row * width + width).unwrap_or(&[]);
                     let scan_forward = row & 1 == 0;
-                    dither_row(row_pixels, &mut discard_row, width as u32, dither_map, base_dithering_level, max_dither_error, n, palette, transparent_index, bg_pixels, guess_from_remapped_pixels, &mut diffusion, scan_forward);
+                    // discard_row is uninitialized, so there are no remapped pixels to guess from
+                    dither_row(row_pixels, &mut discard_row, width as u32, dither_map, base_dithering_level, max_dither_error, n, palette, transparent_index, bg_pixels, false, &mut diffusion, scan_forward);
                 }
             }
             // parallel remap makes progress not very useful
-- 
2.43.0


From aefa9019b3d67c2b3cd5de116c56a2d1dddc9678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:39 +0000
Subject: [PATCH 03/27] fix: dithered remapping to a palette larger than 256
 colors must fail, not truncate indexes

---
 src/quant.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quant.rs b/src/quant.rs
index be31257..b9794f6 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -83,6 +83,9 @@ impl QuantizationResult {
     #[inline(never)]
     pub(crate) fn write_remapped_image_rows_internal(&mut self, image: &mut Image, mut output_pixels: RowBitmapMut<'_, MaybeUninit<PalIndexRemap>>) -> Result<(), Error> {
         let progress_stage1 = if self.use_dither_map != DitherMapMode::None { 20 } else { 0 };
+        if self.palette.len() > PalIndexRemap::MAX as usize + 1 {
+            return Err(Unsupported);
+        }
         if self.remap_progress(progress_stage1 as f32 * 0.25) {
             return Err(Error::Aborted);
         }
-- 
2.43.0


From 838d6006116016f8528d9434ff4293aecc9f72c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:39 +0000
Subject: [PATCH 04/27] fix: set_output_gamma must reject NaN and apply to a
 palette that has been read already

---
 src/quant.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quant.rs b/src/quant.rs
index b9794f6..2e5a50a 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -147,11 +147,12 @@ impl QuantizationResult {
 
     /// The default is sRGB gamma (~1/2.2)
     pub fn set_output_gamma(&mut self, value: f64) -> Result<(), Error> {
-        if value <= 0. || value >= 1. {
+        if !(value > 0. && value < 1.) {
             return Err(ValueOutOfRange);
         }
 
         self.remapped = None;
+        self.int_palette.count = 0;
         self.gamma = value;
 
         Ok(())
-- 
2.43.0


From 183421a9c91c7c669a86e40f74eaed39b86dc2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:40 +0000
Subject: [PATCH 05/27] fix: abort requested once by the progress callback must
 not be ignored

---
 src/quant.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quant.rs b/src/quant.rs
index 2e5a50a..d09625f 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -399,7 +399,10 @@ pub(crate) fn find_best_palette(attr: &Attributes, target_mse: f64, target_mse_i
             target_mse_overshoot = 1.;
             trials_left -= 5 + fails_in_a_row;
         }
-        if attr.progress(overall_done) || trials_left <= 0 {
+        if attr.progress(overall_done) {
+            return Err(Aborted);
+        }
+        if trials_left <= 0 {
             break best_palette;
         }
     }.ok_or(ValueOutOfRange)?;
@@ -419,7 +422,7 @@ fn refine_palette(palette: &mut PalF, attr: &Attributes, hist: &mut HistogramInt
             let stage_done = f32::from(i) / f32::from(iterations);
             let overall_done = (stage_done * f32::from(attr.progress_stage3)).mul_add(0.89, f32::from(attr.progress_stage1) + f32::from(attr.progress_stage2));
             if attr.progress(overall_done) {
-                break;
+                return Err(Aborted);
             }
 
             let pal_err = Kmeans::iteration(hist, palette, false)?;
-- 
2.43.0


From a295317b3d2995dd8a7e88d6b6baaebd9fe082be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:41 +0000
Subject: [PATCH 06/27] fix: duplicate fixed colors must not take slots of
 other fixed colors, and more than 256 must be rejected

---
 src/hist.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/hist.rs b/src/hist.rs
index 9ec20e1..df1eee2 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -109,14 +109,19 @@ impl Histogram {
             image.contrast_maps()?;
         }
 
-        self.gamma = image.gamma();
-
-        if !image.fixed_colors.is_empty() {
-            self.fixed_colors.extend(image.fixed_colors.iter().copied().enumerate().map(|(idx, rgba)| {
-               HashColor { rgba, index: idx as _ }
-            }));
+        let old_fixed_len = self.fixed_colors.len();
+        for &rgba in &image.fixed_colors {
+            let index = self.fixed_colors.len();
+            if index < MAX_COLORS {
+                self.fixed_colors.insert(HashColor { rgba, index: index as _ });
+            } else if !self.fixed_colors.contains(&HashColor { rgba, index: 0 }) {
+                self.fixed_colors.retain(|c| usize::from(c.index) < old_fixed_len);
+                return Err(BufferTooSmall);
+            }
         }
 
+        self.gamma = image.gamma();
+
         if attr.progress(f32::from(attr.progress_stage1) * 0.40) {
             return Err(Aborted); // bow can free the RGBA source if copy has been made in f_pixels
         }
@@ -413,13 +418,19 @@ impl std::hash::Hasher for U32Hasher {
 }
 
 /// ignores the index
-#[derive(PartialEq, Debug)]
+#[derive(Debug)]
 pub(crate) struct HashColor {
     pub rgba: RGBA,
     pub index: PalIndex,
 }
 
-#[allow(clippy::derived_hash_with_manual_eq)]
+impl PartialEq for HashColor {
+    #[inline]
+    fn eq(&self, other: &Self) -> bool {
+        self.rgba == other.rgba
+    }
+}
+
 impl Hash for HashColor {
     #[inline]
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-- 
2.43.0


From 92537211f841981011d8ed8f7627e2507f46b84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:41 +0000
Subject: [PATCH 07/27] fix: histogram with nothing but fixed colors must not
 have zero weights

---
 src/hist.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hist.rs b/src/hist.rs
index df1eee2..ffa58c0 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -325,7 +325,9 @@ impl Histogram {
 
         // Limit perceptual weight to 1/10th of the image surface area to prevent
         // a single color from dominating all others.
-        let max_perceptual_weight = 0.1 * (temp.iter().map(|t| f64::from(t.weight)).sum::<f64>() / 256.) as f32;
+        let total_weight = temp.iter().map(|t| f64::from(t.weight)).sum::<f64>() / 256.;
+        // when there are only fixed colors, they still need a non-zero weight
+        let max_perceptual_weight = 0.1 * if total_weight > 0. { total_weight as f32 } else { 1. };
 
         let lut = gamma_lut(gamma);
         let mut total_perceptual_weight = 0.;
-- 
2.43.0


From a494d5e7a7d3140ae1137bf15ebfd093d69b02d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:41 +0000
Subject: [PATCH 08/27] fix: posterization of an existing histogram must add up
 counts of merged colors

---
 src/hist.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hist.rs b/src/hist.rs
index ffa58c0..9d7c1d0 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -247,9 +247,11 @@ impl Histogram {
 
         let new_size = (self.hashmap.len()/3).max(self.hashmap.capacity()/5);
         let old_hashmap = std::mem::replace(&mut self.hashmap, HashMap::with_capacity_and_hasher(new_size, U32Hasher(0)));
-        self.hashmap.extend(old_hashmap.into_iter().map(move |(k, v)| {
-            (k & new_posterize_mask, v)
-        }));
+        for (k, (boost, rgba)) in old_hashmap {
+            self.hashmap.entry(k & new_posterize_mask)
+                .and_modify(move |e| e.0 = e.0.saturating_add(boost))
+                .or_insert((boost, rgba));
+        }
     }
 
     pub(crate) fn add_pixel_rows(&mut self, image: &DynamicRows<'_, '_>, importance_map: Option<&[u8]>, posterize_bits: u8) -> Result<(), Error> {
-- 
2.43.0


From 9eb93f9bb11242dab974efc9a35ca07c9b3edf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:42 +0000
Subject: [PATCH 09/27] fix: Histogram::add_fixed_color must validate gamma
 like add_colors does

---
 src/hist.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hist.rs b/src/hist.rs
index 9d7c1d0..5239d33 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -172,6 +172,10 @@ impl Histogram {
             return Err(Unsupported);
         }
 
+        if !(0. ..1.).contains(&gamma) {
+            return Err(ValueOutOfRange);
+        }
+
         if self.gamma.is_none() && gamma > 0. {
             self.gamma = Some(gamma);
         }
-- 
2.43.0


From 784a5ab6b3b48f9571bb8be19e3b176a92c958d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:42 +0000
Subject: [PATCH 10/27] fix: RGB values of fully transparent pixels must not
 influence the palette

---
 src/hist.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hist.rs b/src/hist.rs
index 5239d33..811e676 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -302,7 +302,8 @@ impl Histogram {
 
         let mut counts = [0; LIQ_MAXCLUSTER];
         temp.extend(self.hashmap.values().map(|&(boost, color)| {
-            let cluster_index = ((color.r >> 7) << 3) | ((color.g >> 7) << 2) | ((color.b >> 7) << 1) | (color.a >> 7);
+            // invisible RGB of transparent colors must not matter
+            let cluster_index = if color.a == 0 { 0 } else { ((color.r >> 7) << 3) | ((color.g >> 7) << 2) | ((color.b >> 7) << 1) | (color.a >> 7) };
             counts[cluster_index as usize] += 1;
 
             // fixed colors result in weight == 0.
-- 
2.43.0


From c443e49803d3cb0ed09d0790fea2119903f4ee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:24 +0000
Subject: [PATCH 11/27] fix: remapping or running out of memory must not
 overwrite the importance map

---
 src/image.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 9c17ed9..a52addf 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -126,7 +126,11 @@ impl<'pixels> Image<'pixels> {
 
     pub(crate) fn update_dither_map(&mut self, remapped_image: &RowBitmap<'_, PalIndexRemap>, palette: &PalF, uses_background: bool) -> Result<(), Error> {
         if self.edges.is_none() {
-            self.contrast_maps()?;
+            // only edges are needed, and remapping must not change importance of pixels
+            let importance_map = self.importance_map.take();
+            let res = self.contrast_maps();
+            self.importance_map = importance_map;
+            res?;
         }
         let Some(mut edges) = self.edges.take() else { return Ok(()) };
         let colors = palette.as_slice();
@@ -243,15 +247,10 @@ impl<'pixels> Image<'pixels> {
             return Ok(()); // shrug
         }
 
-        let noise = if let Some(n) = self.importance_map.as_deref_mut() { n } else {
-            let vec = try_zero_vec(width * height)?;
-            self.importance_map.get_or_insert_with(move || vec.into_boxed_slice())
-        };
-
-        let edges = if let Some(e) = self.edges.as_mut() { e } else {
-            let vec = try_zero_vec(width * height)?;
-            self.edges.get_or_insert_with(move || vec.into_boxed_slice())
-        };
+        let mut noise_map = try_zero_vec(width * height)?;
+        let mut edges_map = try_zero_vec(width * height)?;
+        let noise = &mut noise_map[..];
+        let edges = &mut edges_map[..];
 
         let mut rows_iter = self.px.all_rows_f()?.chunks_exact(width);
 
@@ -301,6 +300,11 @@ impl<'pixels> Image<'pixels> {
         for (edges, noise) in edges.iter_mut().zip(noise) {
             *edges = (*noise).min(*edges);
         }
+        // the image isn't changed if any of the steps above fails
+        self.edges = Some(edges_map.into_boxed_slice());
+        if self.importance_map.is_none() {
+            self.importance_map = Some(noise_map.into_boxed_slice());
+        }
         Ok(())
     }
 
-- 
2.43.0


From 55829186722cf2d2af2cfe3432158f6609461d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:24 +0000
Subject: [PATCH 12/27] fix: remapping retried after an abort must give the
 same result as if it was not aborted

---
 src/quant.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/quant.rs b/src/quant.rs
index d09625f..cce6ed1 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -103,18 +103,24 @@ impl QuantizationResult {
         } else {
             let uses_background = image.background.is_some();
             let dither_map_error = Self::optionally_generate_dither_map(self.use_dither_map, image, uses_background, &mut output_pixels, &mut palette)?;
+            let output_image_is_remapped = dither_map_error.is_some();
             if self.remap_progress(progress_stage1 as f32 * 0.5) {
+                if output_image_is_remapped { image.dither_map = None; }
                 return Err(Error::Aborted);
             }
 
-            let output_image_is_remapped = dither_map_error.is_some();
             let palette_error = dither_map_error.or(self.palette_error);
 
             // remapping above was the last chance to do K-Means iteration, hence the final palette is set after remapping
             palette.init_int_palette(&mut remapped.int_palette, self.gamma, self.min_posterization_output);
             remapped.palette_error = palette_error;
             let max_dither_error = (palette_error.unwrap_or(quality_to_mse(80)) * 2.4).max(quality_to_mse(35)) as f32;
-            remap_to_palette_floyd(image, output_pixels, &palette, self, max_dither_error, output_image_is_remapped)?;
+            let res = remap_to_palette_floyd(image, output_pixels, &palette, self, max_dither_error, output_image_is_remapped);
+            if res.is_err() && output_image_is_remapped {
+                // the palette improved together with the dither map is lost, so they need to be generated again
+                image.dither_map = None;
+            }
+            res?;
         }
         self.remapped = Some(remapped);
         Ok(())
-- 
2.43.0


From 506e6df8c8340bb50200f58a2bf351fcfbfab667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:25 +0000
Subject: [PATCH 13/27] fix: liq_image_set_background must not leak the
 background image handle

---
 imagequant-sys/src/ffi.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 42bde26..6016d33 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -359,10 +359,14 @@ pub extern "C" fn liq_image_destroy(_: Option<Box<liq_image>>) {}
 #[no_mangle]
 #[inline(never)]
 pub extern "C" fn liq_image_set_background<'pixels>(img: &mut liq_image<'pixels>, background: Box<liq_image<'pixels>>) -> liq_error {
-    if bad_object!(img, LIQ_IMAGE_MAGIC) ||
-       bad_object!(background, LIQ_IMAGE_MAGIC) { return Error::InvalidPointer; }
-    let background = unsafe { ManuallyDrop::take(&mut ManuallyDrop::new(background).inner) };
-    img.inner.set_background(background).err().unwrap_or(LIQ_OK)
+    let mut background = ManuallyDrop::new(background);
+    // not an image, so it can't be freed as if it was one
+    if bad_object!(&**background, LIQ_IMAGE_MAGIC) { return Error::InvalidPointer; }
+    let background_inner = unsafe { ManuallyDrop::take(&mut background.inner) };
+    background.magic_header = LIQ_FREED_MAGIC; // the inner object has been moved out
+    drop(ManuallyDrop::into_inner(background));
+    if bad_object!(img, LIQ_IMAGE_MAGIC) { return Error::InvalidPointer; }
+    img.inner.set_background(background_inner).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
-- 
2.43.0


From 46e0c02d513cd384880559c09f25fee520f7d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:25 +0000
Subject: [PATCH 14/27] fix: liq_set_quality and liq_set_min_posterization must
 reject out-of-range numbers instead of truncating them

---
 imagequant-sys/src/ffi.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 6016d33..ea71645 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -234,7 +234,8 @@ pub extern "C" fn liq_get_max_colors(attr: &liq_attr) -> c_uint {
 #[inline(never)]
 pub extern "C" fn liq_set_min_posterization(attr: &mut liq_attr, bits: c_int) -> liq_error {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
-    attr.inner.set_min_posterization(bits as u8).err().unwrap_or(LIQ_OK)
+    let Ok(bits) = u8::try_from(bits) else { return Error::ValueOutOfRange };
+    attr.inner.set_min_posterization(bits).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
@@ -261,7 +262,8 @@ pub extern "C" fn liq_get_speed(attr: &liq_attr) -> c_uint {
 #[inline(never)]
 pub extern "C" fn liq_set_quality(attr: &mut liq_attr, minimum: c_uint, target: c_uint) -> liq_error {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
-    attr.inner.set_quality(minimum as u8, target as u8).err().unwrap_or(LIQ_OK)
+    let (Ok(minimum), Ok(target)) = (u8::try_from(minimum), u8::try_from(target)) else { return Error::ValueOutOfRange };
+    attr.inner.set_quality(minimum, target).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
-- 
2.43.0


From 788910ab5c2385eba313cc715e4fef8c0a94d0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:25 +0000
Subject: [PATCH 15/27] fix: liq_set_speed and liq_image_create_custom must not
 crash when given NULL

---
 imagequant-sys/src/ffi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index ea71645..c1f0405 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -248,6 +248,7 @@ pub extern "C" fn liq_get_min_posterization(attr: &liq_attr) -> c_uint {
 #[no_mangle]
 #[inline(never)]
 pub extern "C" fn liq_set_speed(attr: &mut liq_attr, speed: c_int) -> liq_error {
+    if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
     attr.inner.set_speed(speed).err().unwrap_or(LIQ_OK)
 }
 
@@ -575,6 +576,7 @@ pub(crate) fn check_image_size(attr: &liq_attr, width: u32, height: u32) -> bool
 #[inline(never)]
 pub unsafe extern "C" fn liq_image_create_custom(attr: &liq_attr, row_callback: liq_image_get_rgba_row_callback, user_info: AnySyncSendPtr, width: c_uint, height: c_uint, gamma: f64)
  -> Option<Box<liq_image<'static>>> {
+    if bad_object!(attr, LIQ_ATTR_MAGIC) || liq_received_invalid_pointer(row_callback as *const u8) { return None; }
     let cb: Box<dyn Fn(&mut [MaybeUninit<RGBA>], usize) + Send + Sync> = Box::new(move |row, y| row_callback(row.as_mut_ptr(), y as _, row.len() as _, user_info));
     liq_image_create_custom_impl(&attr.inner, cb, width as _, height as _, gamma)
         .map(move |inner| Box::new(liq_image {
-- 
2.43.0


From 5e6a25ded128b4fa1bb34a8a356620b9eeb13d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:26 +0000
Subject: [PATCH 16/27] fix: NULL log and progress callbacks must clear the
 callback instead of being called

---
 imagequant-sys/src/ffi.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index c1f0405..47be941 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -174,19 +174,26 @@ impl Default for AnySyncSendPtr {
 unsafe impl Send for AnySyncSendPtr {}
 unsafe impl Sync for AnySyncSendPtr {}
 
+/// NULL callback clears the current callback
+unsafe fn call_progress_callback(callback: Option<liq_progress_callback_function>, user_info: AnySyncSendPtr) -> impl Fn(f32) -> ControlFlow + Send + Sync + 'static {
+    move |f| match callback {
+        Some(callback) if callback(f, user_info) == 0 => ControlFlow::Break,
+        _ => ControlFlow::Continue,
+    }
+}
+
 #[no_mangle]
 #[inline(never)]
-pub unsafe extern "C" fn liq_attr_set_progress_callback(attr: &mut liq_attr, callback: liq_progress_callback_function, user_info: AnySyncSendPtr) {
+pub unsafe extern "C" fn liq_attr_set_progress_callback(attr: &mut liq_attr, callback: Option<liq_progress_callback_function>, user_info: AnySyncSendPtr) {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return; }
-    let cb = move |f| if callback(f, user_info) == 0 { ControlFlow::Break} else { ControlFlow::Continue};
-    attr.inner.set_progress_callback(cb);
+    attr.inner.set_progress_callback(call_progress_callback(callback, user_info));
 }
 
 #[no_mangle]
 #[inline(never)]
-pub unsafe extern "C" fn liq_result_set_progress_callback(result: &mut liq_result, callback: liq_progress_callback_function, user_info: AnySyncSendPtr) {
+pub unsafe extern "C" fn liq_result_set_progress_callback(result: &mut liq_result, callback: Option<liq_progress_callback_function>, user_info: AnySyncSendPtr) {
     if bad_object!(result, LIQ_RESULT_MAGIC) { return; }
-    result.inner.set_progress_callback(move |f| if callback(f, user_info) == 0 { ControlFlow::Break} else { ControlFlow::Continue});
+    result.inner.set_progress_callback(call_progress_callback(callback, user_info));
 }
 
 #[allow(clippy::cast_ptr_alignment)]
@@ -200,9 +207,10 @@ unsafe fn attr_to_liq_attr_ptr(ptr: &Attributes) -> &liq_attr {
 
 #[no_mangle]
 #[inline(never)]
-pub unsafe extern "C" fn liq_set_log_callback(attr: &mut liq_attr, callback: liq_log_callback_function, user_info: AnySyncSendPtr) {
+pub unsafe extern "C" fn liq_set_log_callback(attr: &mut liq_attr, callback: Option<liq_log_callback_function>, user_info: AnySyncSendPtr) {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return; }
     attr.inner.set_log_callback(move |attr, msg| {
+        let Some(callback) = callback else { return };
         if let Ok(tmp) = CString::new(msg) {
             callback(attr_to_liq_attr_ptr(attr), tmp.as_ptr(), user_info);
         }
@@ -211,9 +219,11 @@ pub unsafe extern "C" fn liq_set_log_callback(attr: &mut liq_attr, callback: liq
 
 #[no_mangle]
 #[inline(never)]
-pub unsafe extern "C" fn liq_set_log_flush_callback(attr: &mut liq_attr, callback: liq_log_flush_callback_function, user_info: AnySyncSendPtr) {
+pub unsafe extern "C" fn liq_set_log_flush_callback(attr: &mut liq_attr, callback: Option<liq_log_flush_callback_function>, user_info: AnySyncSendPtr) {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return; }
-    attr.inner.set_log_flush_callback(move |attr| callback(attr_to_liq_attr_ptr(attr), user_info));
+    attr.inner.set_log_flush_callback(move |attr| if let Some(callback) = callback {
+        callback(attr_to_liq_attr_ptr(attr), user_info);
+    });
 }
 
 #[no_mangle]
-- 
2.43.0


From 0edb5b0f7b6605e87075655c4f94352e86da920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:26 +0000
Subject: [PATCH 17/27] fix: liq_image_set_memory_ownership must not free an
 invalid pointer when rows are no longer in use

---
 src/rows.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rows.rs b/src/rows.rs
index 65f827f..7c50253 100644
--- a/src/rows.rs
+++ b/src/rows.rs
@@ -229,6 +229,8 @@ impl<'pixels, 'rows> DynamicRows<'pixels, 'rows> {
     pub(crate) unsafe fn set_memory_ownership(&mut self, own_rows: bool, own_pixels: bool, free_fn: unsafe extern "C" fn(*mut std::os::raw::c_void)) -> Result<(), Error> {
         if own_rows {
             match &mut self.pixels {
+                // they've been given up after the image has been processed
+                PixelsSource::Pixels { rows, .. } if rows.as_slice().is_empty() => return Err(Error::Unsupported),
                 PixelsSource::Pixels { rows, .. } => rows.make_owned(free_fn),
                 PixelsSource::Callback(_) => return Err(Error::ValueOutOfRange),
             }
-- 
2.43.0


From d64427dfcd58e59f1e60e5685fe0ace2238b788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:37 +0000
Subject: [PATCH 18/27] fix: destroying an object of a different type must not
 corrupt memory

---
 imagequant-sys/src/ffi.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 47be941..5be43c7 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -99,6 +99,17 @@ macro_rules! bad_object {
     }};
 }
 
+/// An object that is not of the expected type can't be dropped as if it was
+macro_rules! destroy {
+    ($obj:expr, $tag:expr) => {
+        if let Some(obj) = $obj {
+            if bad_object!(obj, $tag) {
+                std::mem::forget(obj);
+            }
+        }
+    };
+}
+
 impl Drop for liq_attr {
     fn drop(&mut self) {
         if bad_object!(self, LIQ_ATTR_MAGIC) { return; }
@@ -367,7 +378,9 @@ pub extern "C" fn liq_image_get_height(img: &liq_image) -> c_uint {
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_image_destroy(_: Option<Box<liq_image>>) {}
+pub extern "C" fn liq_image_destroy(obj: Option<Box<liq_image>>) {
+    destroy!(obj, LIQ_IMAGE_MAGIC);
+}
 
 #[no_mangle]
 #[inline(never)]
@@ -436,7 +449,9 @@ pub extern "C" fn liq_histogram_create(attr: &liq_attr) -> Option<Box<liq_histog
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_histogram_destroy(_hist: Option<Box<liq_histogram>>) {}
+pub extern "C" fn liq_histogram_destroy(obj: Option<Box<liq_histogram>>) {
+    destroy!(obj, LIQ_HISTOGRAM_MAGIC);
+}
 
 #[no_mangle]
 #[inline(never)]
@@ -471,11 +486,15 @@ pub extern "C" fn liq_attr_copy(attr: &liq_attr) -> Option<Box<liq_attr>> {
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_attr_destroy(_attr: Option<Box<liq_attr>>) {}
+pub extern "C" fn liq_attr_destroy(obj: Option<Box<liq_attr>>) {
+    destroy!(obj, LIQ_ATTR_MAGIC);
+}
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_result_destroy(_res: Option<Box<liq_result>>) {}
+pub extern "C" fn liq_result_destroy(obj: Option<Box<liq_result>>) {
+    destroy!(obj, LIQ_RESULT_MAGIC);
+}
 
 #[no_mangle]
 #[inline(never)]
-- 
2.43.0


From 6e4e1c4e94f8617149eb11cc79220e451b861cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:22 +0000
Subject: [PATCH 19/27] fix: keep histogram weights finite in long searches for
 few colors

---
 src/kmeans.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kmeans.rs b/src/kmeans.rs
index e0c508f..222b4eb 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -8,6 +8,9 @@ use rgb::Argb;
 use rgb::prelude::*;
 use std::cell::RefCell;
 
+/// Leaves room for summing weights of all histogram items as `f32`
+const MAX_ADJUSTED_WEIGHT: f32 = 1e28;
+
 /// K-Means iteration: new palette color is computed from weighted average of colors that map best to that palette entry.
 // avoid false sharing
 pub(crate) struct Kmeans {
@@ -94,7 +97,8 @@ impl Kmeans {
                 let remapped = colors[matched as usize];
                 let (_, new_diff) = n.search(&f_pixel(px.0 + px.0 - remapped.0), matched);
                 diff = new_diff;
-                item.adjusted_weight = 2.0f32.mul_add(item.adjusted_weight, item.perceptual_weight) * (0.5 + diff);
+                // the weight grows in every iteration that fits the color badly, so it must be kept from overflowing
+                item.adjusted_weight = (2.0f32.mul_add(item.adjusted_weight, item.perceptual_weight) * (0.5 + diff)).min(MAX_ADJUSTED_WEIGHT);
             }
             debug_assert!(f64::from(diff) < 1e20);
             self.update_color(px, item.adjusted_weight, matched);
-- 
2.43.0


From 77d9d4df55124af10959aff7860383e397a69118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:31 +0000
Subject: [PATCH 20/27] fix: refused Histogram::add_image left fixed colors,
 gamma and contrast maps behind

An addition stopped by the progress callback, or refused because the image's
pixels are no longer available, still added the image's fixed colors and gamma
to the histogram (and generated maps of the image).
---
 src/hist.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hist.rs b/src/hist.rs
index 811e676..16404f6 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -105,10 +105,16 @@ impl Histogram {
     pub fn add_image(&mut self, attr: &Attributes, image: &mut Image) -> Result<(), Error> {
         let width = image.width();
         let height = image.height();
+        image.px.rgba_rows_iter()?; // fail early if the pixels are gone
         if image.importance_map.is_none() && attr.use_contrast_maps {
             image.contrast_maps()?;
         }
 
+        // An image that can't be added must not leave its fixed colors or gamma behind
+        if attr.progress(f32::from(attr.progress_stage1) * 0.40) {
+            return Err(Aborted); // bow can free the RGBA source if copy has been made in f_pixels
+        }
+
         let old_fixed_len = self.fixed_colors.len();
         for &rgba in &image.fixed_colors {
             let index = self.fixed_colors.len();
@@ -122,10 +128,6 @@ impl Histogram {
 
         self.gamma = image.gamma();
 
-        if attr.progress(f32::from(attr.progress_stage1) * 0.40) {
-            return Err(Aborted); // bow can free the RGBA source if copy has been made in f_pixels
-        }
-
         let posterize_bits = attr.posterize_bits();
         let surface_area = height * width;
         let estimated_colors = (surface_area / (posterize_bits as usize + if surface_area > 512 * 512 { 7 } else { 5 })).min(250_000);
-- 
2.43.0


From 5cdebff1e4d3c6d7096eccd567f3483702c21807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:37 +0000
Subject: [PATCH 21/27] fix: quantizing a histogram again could give a
 different palette

Inserting the fixed colors, which are in the table since the first
quantization, could resize the table and change the order of colors.
---
 src/hist.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hist.rs b/src/hist.rs
index 16404f6..c584488 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -296,7 +296,12 @@ impl Histogram {
                 unsafe { RGBAInt { rgba }.int }
             } else { 0 };
 
-            self.hashmap.insert(px_int, (0, rgba));
+            // `insert` could grow (and reorder) the table even if the key exists already,
+            // and the next quantization of the same histogram would come out different
+            match self.hashmap.get_mut(&px_int) {
+                Some(existing) => *existing = (0, rgba),
+                None => { self.hashmap.insert(px_int, (0, rgba)); },
+            }
         }
 
         let mut temp = Vec::new();
-- 
2.43.0


From c6f3fce354b89eef1fbd8a410b7b8fca784c7f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:01 +0000
Subject: [PATCH 22/27] fix: undefined behavior when looking up the liq_attr of
 a log callback

The offset of the field was computed by dereferencing a dangling pointer.
---
 imagequant-sys/src/ffi.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 5be43c7..d6dca73 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -209,7 +209,8 @@ pub unsafe extern "C" fn liq_result_set_progress_callback(result: &mut liq_resul
 
 #[allow(clippy::cast_ptr_alignment)]
 unsafe fn attr_to_liq_attr_ptr(ptr: &Attributes) -> &liq_attr {
-    let liq_attr = std::ptr::NonNull::<liq_attr>::dangling();
+    // addresses of fields can only be taken in actual memory
+    let liq_attr = MaybeUninit::<liq_attr>::uninit();
     let outer_addr = std::ptr::addr_of!(*liq_attr.as_ptr()) as isize;
     let inner_addr = std::ptr::addr_of!((*liq_attr.as_ptr()).inner) as isize;
 
-- 
2.43.0


From 3998990e33b9fbd29383b42dbf6b4b76c1a08416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:33 +0000
Subject: [PATCH 23/27] fix: C getters could crash on a NULL object

A reference parameter lets the compiler load fields before bad_object! has
checked the pointer, and optimized builds of liq_get_speed() and others did.
---
 imagequant-sys/src/ffi.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index d6dca73..501dd8c 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -247,7 +247,8 @@ pub extern "C" fn liq_set_max_colors(attr: &mut liq_attr, colors: c_uint) -> liq
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_get_max_colors(attr: &liq_attr) -> c_uint {
+pub extern "C" fn liq_get_max_colors(attr: *const liq_attr) -> c_uint {
+    let Some(attr) = (unsafe { attr.as_ref() }) else { return !0 };
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return !0; }
     attr.inner.max_colors()
 }
@@ -262,7 +263,8 @@ pub extern "C" fn liq_set_min_posterization(attr: &mut liq_attr, bits: c_int) ->
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_get_min_posterization(attr: &liq_attr) -> c_uint {
+pub extern "C" fn liq_get_min_posterization(attr: *const liq_attr) -> c_uint {
+    let Some(attr) = (unsafe { attr.as_ref() }) else { return !0 };
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return !0; }
     attr.inner.min_posterization().into()
 }
@@ -276,7 +278,8 @@ pub extern "C" fn liq_set_speed(attr: &mut liq_attr, speed: c_int) -> liq_error
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_get_speed(attr: &liq_attr) -> c_uint {
+pub extern "C" fn liq_get_speed(attr: *const liq_attr) -> c_uint {
+    let Some(attr) = (unsafe { attr.as_ref() }) else { return !0 };
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return !0; }
     attr.inner.speed()
 }
@@ -291,14 +294,16 @@ pub extern "C" fn liq_set_quality(attr: &mut liq_attr, minimum: c_uint, target:
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_get_min_quality(attr: &liq_attr) -> c_uint {
+pub extern "C" fn liq_get_min_quality(attr: *const liq_attr) -> c_uint {
+    let Some(attr) = (unsafe { attr.as_ref() }) else { return !0 };
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return !0; }
     attr.inner.quality().0.into()
 }
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_get_max_quality(attr: &liq_attr) -> c_uint {
+pub extern "C" fn liq_get_max_quality(attr: *const liq_attr) -> c_uint {
+    let Some(attr) = (unsafe { attr.as_ref() }) else { return !0 };
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return !0; }
     attr.inner.quality().1.into()
 }
@@ -365,14 +370,16 @@ pub extern "C" fn liq_histogram_add_fixed_color(hist: &mut liq_histogram, color:
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_image_get_width(img: &liq_image) -> c_uint {
+pub extern "C" fn liq_image_get_width(img: *const liq_image) -> c_uint {
+    let Some(img) = (unsafe { img.as_ref() }) else { return !0 };
     if bad_object!(img, LIQ_IMAGE_MAGIC) { return !0; }
     img.inner.width() as _
 }
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_image_get_height(img: &liq_image) -> c_uint {
+pub extern "C" fn liq_image_get_height(img: *const liq_image) -> c_uint {
+    let Some(img) = (unsafe { img.as_ref() }) else { return !0 };
     if bad_object!(img, LIQ_IMAGE_MAGIC) { return !0; }
     img.inner.height() as _
 }
@@ -513,35 +520,40 @@ pub extern "C" fn liq_set_dithering_level(result: &mut liq_result, dither_level:
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_get_output_gamma(result: &liq_result) -> f64 {
+pub extern "C" fn liq_get_output_gamma(result: *const liq_result) -> f64 {
+    let Some(result) = (unsafe { result.as_ref() }) else { return -1. };
     if bad_object!(result, LIQ_RESULT_MAGIC) { return -1.; }
     result.inner.output_gamma()
 }
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_get_quantization_error(result: &liq_result) -> f64 {
+pub extern "C" fn liq_get_quantization_error(result: *const liq_result) -> f64 {
+    let Some(result) = (unsafe { result.as_ref() }) else { return -1. };
     if bad_object!(result, LIQ_RESULT_MAGIC) { return -1.; }
     result.inner.quantization_error().unwrap_or(-1.)
 }
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_get_remapping_error(result: &liq_result) -> f64 {
+pub extern "C" fn liq_get_remapping_error(result: *const liq_result) -> f64 {
+    let Some(result) = (unsafe { result.as_ref() }) else { return -1. };
     if bad_object!(result, LIQ_RESULT_MAGIC) { return -1.; }
     result.inner.remapping_error().unwrap_or(-1.)
 }
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_get_quantization_quality(result: &liq_result) -> c_int {
+pub extern "C" fn liq_get_quantization_quality(result: *const liq_result) -> c_int {
+    let Some(result) = (unsafe { result.as_ref() }) else { return -1 };
     if bad_object!(result, LIQ_RESULT_MAGIC) { return -1; }
     result.inner.quantization_quality().map_or(-1, c_int::from)
 }
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_get_remapping_quality(result: &liq_result) -> c_int {
+pub extern "C" fn liq_get_remapping_quality(result: *const liq_result) -> c_int {
+    let Some(result) = (unsafe { result.as_ref() }) else { return -1 };
     if bad_object!(result, LIQ_RESULT_MAGIC) { return -1; }
     result.inner.remapping_quality().map_or(-1, c_int::from)
 }
-- 
2.43.0


From 91403461e3225b2a7a812159e881ba5d3c79e0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:05 +0000
Subject: [PATCH 24/27] fix: flush callback got an already invalidated liq_attr
 when it was destroyed

liq_attr_destroy marked the object as freed before the log flush callback
was called with it, so every getter failed inside the callback.
---
 imagequant-sys/src/ffi.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 501dd8c..62dc959 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -21,7 +21,7 @@ pub use imagequant::Error as liq_error;
 #[repr(C)]
 pub struct liq_attr {
     magic_header: MagicTag,
-    inner: Attributes,
+    inner: ManuallyDrop<Attributes>,
     c_api_free: unsafe extern "C" fn(*mut c_void),
 }
 
@@ -113,6 +113,8 @@ macro_rules! destroy {
 impl Drop for liq_attr {
     fn drop(&mut self) {
         if bad_object!(self, LIQ_ATTR_MAGIC) { return; }
+        // the log flush callback called from here gets the object while it's still valid
+        unsafe { ManuallyDrop::drop(&mut self.inner); }
         self.magic_header = LIQ_FREED_MAGIC;
     }
 }
@@ -467,7 +469,7 @@ pub extern "C" fn liq_histogram_destroy(obj: Option<Box<liq_histogram>>) {
 pub extern "C" fn liq_attr_create_with_allocator(_unused: *mut c_void, free: unsafe extern "C" fn(*mut c_void)) -> Option<Box<liq_attr>> {
     let attr = Box::new(liq_attr {
         magic_header: LIQ_ATTR_MAGIC,
-        inner: Attributes::new(),
+        inner: ManuallyDrop::new(Attributes::new()),
         c_api_free: free,
     });
     debug_assert_eq!(std::ptr::addr_of!(*attr), unsafe { attr_to_liq_attr_ptr(&attr.inner) } as *const liq_attr);
-- 
2.43.0


From e99338d2c190b83cb2ed1561c29ea7d4db35aa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:20 +0000
Subject: [PATCH 25/27] fix: area of images of 2^32 pixels or more overflowed

---
 src/quant.rs | 2 +-
 src/remap.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quant.rs b/src/quant.rs
index cce6ed1..3780903 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -127,7 +127,7 @@ impl QuantizationResult {
     }
 
     fn optionally_generate_dither_map(use_dither_map: DitherMapMode, image: &mut Image<'_>, uses_background: bool, output_pixels: &mut RowBitmapMut<'_, MaybeUninit<PalIndexRemap>>, palette: &mut PalF) -> Result<Option<f64>, Error> {
-        let is_image_huge = (image.px.width * image.px.height) > 2000 * 2000;
+        let is_image_huge = image.width() * image.height() > 2000 * 2000;
         let allow_dither_map = use_dither_map == DitherMapMode::Always || (!is_image_huge && use_dither_map != DitherMapMode::None);
         let generate_dither_map = allow_dither_map && image.dither_map.is_none();
         if !generate_dither_map {
diff --git a/src/remap.rs b/src/remap.rs
index 7065bca..b30846e 100644
--- a/src/remap.rs
+++ b/src/remap.rs
@@ -97,7 +97,7 @@ pub(crate) fn remap_to_palette<'x, 'b: 'x>(px: &mut DynamicRows, background: Opt
         .map(|t| t.0.into_inner().0)
         .reduce(Kmeans::merge) { kmeans.finalize(palette); }
 
-    let remapping_error = remapping_error / f64::from(px.width * px.height);
+    let remapping_error = remapping_error / (f64::from(px.width) * f64::from(px.height));
     Ok((remapping_error, unsafe { output_pixels.assume_init() }))
 }
 
-- 
2.43.0


From 24d0464c464a0e55de5aa811cb5757e99b51320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:20 +0000
Subject: [PATCH 26/27] fix: preparation for dithering did not check the size
 of the buffer

---
 src/quant.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quant.rs b/src/quant.rs
index 3780903..a79b681 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -75,6 +75,8 @@ impl QuantizationResult {
     /// However, this can be called before calling `image.set_background()`, so it may allow better parallelization while the background is generated on another thread.
     #[doc(hidden)]
     pub fn optionally_prepare_for_dithering_with_background_set(&mut self, image: &mut Image<'_>, output_buf: &mut [MaybeUninit<PalIndexRemap>]) -> Result<(), Error> {
+        let required_size = (image.width()) * (image.height());
+        let output_buf = output_buf.get_mut(0..required_size).ok_or(BufferTooSmall)?;
         let mut output_pixels = RowBitmapMut::new_contiguous(output_buf, image.width());
         Self::optionally_generate_dither_map(self.use_dither_map, image, true, &mut output_pixels, &mut self.palette)?;
         Ok(())
-- 
2.43.0


From f715e14ef069c0923f8626dde99a19e2009bde1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:58 +0000
Subject: [PATCH 27/27] fix: a reachable minimum quality could be refused

With a target quality below 100 the palette search stops adding colours once
the error is below target_mse * target_mse_overshoot. The overshoot may lift
that limit above the largest error the minimum quality allows; the palette was
then rejected with QualityTooLow even though more colours were available and
would have satisfied the minimum.
---
 src/quant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quant.rs b/src/quant.rs
index a79b681..69df788 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -382,7 +382,7 @@ pub(crate) fn find_best_palette(attr: &Attributes, target_mse: f64, target_mse_i
     let mut palette_error = None;
     let mut palette = loop {
         let max_mse_per_color = target_mse.max(palette_error.unwrap_or(quality_to_mse(1))).max(quality_to_mse(51)) * 1.2;
-        let mut new_palette = mediancut(&mut hist, max_colors, target_mse * target_mse_overshoot, max_mse_per_color)?
+        let mut new_palette = mediancut(&mut hist, max_colors, (target_mse * target_mse_overshoot).min(max_mse.unwrap_or(f64::MAX)), max_mse_per_color)?
             .with_fixed_colors(attr.max_colors, &hist.fixed_colors);
 
         let stage_done = (f32::from(trials_left.max(0)) / f32::from(total_trials + 1)).mul_add(-(f32::from(trials_left.max(0)) / f32::from(total_trials + 1)), 1.);
-- 
2.43.0

