From 326f15a14e221fb54f639a1efc5da355685bc86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:13 +0000
Subject: [PATCH 01/46] fix: apply self-guided restoration to the
 reconstruction when CDEF is disabled

The bitstream signals self-guided units regardless of CDEF, so skipping the
filter made the encoder's reconstruction drift from every decoder's.
---
 src/lrf.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/lrf.rs b/src/lrf.rs
index 7a3d083..1e2c4f9 100644
--- a/src/lrf.rs
+++ b/src/lrf.rs
@@ -1542,10 +1542,6 @@ impl RestorationState {
               );
             }
             RestorationFilter::Sgrproj { set, xqd } => {
-              if !fi.sequence.enable_cdef {
-                continue;
-              }
-
               setup_integral_image(
                 &mut stripe_filter_buffer,
                 STRIPE_IMAGE_STRIDE,
-- 
2.43.0


From 3956efadd0cce22281554725828a85854bb2b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:13 +0000
Subject: [PATCH 02/46] fix: compute transform-domain squared error in 64 bits

With 12-bit content the coefficient error can exceed 46340, so its i32 square
overflowed (panic with overflow checks, bogus distortion without).
---
 src/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 5c85320..7864153 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1626,14 +1626,14 @@ pub fn encode_tx_block<T: Pixel, W: Writer>(
         .iter()
         .zip(rcoeffs.iter())
         .map(|(&a, &b)| {
-          let c = i32::cast_from(a) - i32::cast_from(b);
+          let c = i64::from(i32::cast_from(a) - i32::cast_from(b));
           (c * c) as u64
         })
         .sum::<u64>()
         + coeffs[rcoeffs.len()..]
           .iter()
           .map(|&a| {
-            let c = i32::cast_from(a);
+            let c = i64::from(i32::cast_from(a));
             (c * c) as u64
           })
           .sum::<u64>();
-- 
2.43.0


From 7e75c0b2894480af53e7a10bd9ad4025758efe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:16 +0000
Subject: [PATCH 03/46] fix: keep the rate control target within the available
 quantizers

Without a user-specified minimum quantizer the target quantizer was
unbounded below.  The scale of a frame is estimated from its target
quantizer, so on content too simple to reach the bitrate the scale and
the target chased each other down until a Q57 conversion overflowed.
---
 src/rate.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/rate.rs b/src/rate.rs
index 365e0a4..910d9cc 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -1025,12 +1025,15 @@ impl RCState {
         log_base_q = cmp::min(log_base_q, max_log_base_q);
         log_q = cmp::min(log_q, max_log_q);
       }
-      if self.ac_qi_min > 0 {
-        let (min_log_base_q, min_log_q) =
-          Self::calc_flat_quantizer(self.ac_qi_min, ctx.config.bit_depth, fti);
-        log_base_q = cmp::max(log_base_q, min_log_base_q);
-        log_q = cmp::max(log_q, min_log_q);
-      }
+      // Even without a user-specified minimum, do not target a quantizer that
+      //  is finer than the finest one available.
+      // The scale of a frame is estimated from its target quantizer, so an
+      //  unreachable target would lower the scale, which would lower the
+      //  target of the next frame, and so on without bound.
+      let (min_log_base_q, min_log_q) =
+        Self::calc_flat_quantizer(self.ac_qi_min, ctx.config.bit_depth, fti);
+      log_base_q = cmp::max(log_base_q, min_log_base_q);
+      log_q = cmp::max(log_q, min_log_q);
       QuantizerParameters::new_from_log_q(
         log_base_q,
         log_q,
-- 
2.43.0


From 76883441a719a2ac24c5566afcb81b56fd60bb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:16 +0000
Subject: [PATCH 04/46] fix: make the container configuration record agree with
 the sequence header

The record always stated level 31, no vertical subsampling for
monochrome and an unknown chroma sample position.
---
 src/api/context.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/api/context.rs b/src/api/context.rs
index 6aa6a8b..9c25f12 100644
--- a/src/api/context.rs
+++ b/src/api/context.rs
@@ -347,14 +347,21 @@ impl<T: Pixel> Context<T> {
         bw.write_bit(true)?; // marker
         bw.write::<7, u8>(1)?; // version
         bw.write::<3, u8>(seq.profile)?;
-        bw.write::<5, u8>(31)?; // level
+        bw.write::<5, u8>(seq.level_idx[0])?; // level
         bw.write_bit(false)?; // tier
         bw.write_bit(seq.bit_depth > 8)?; // high_bitdepth
         bw.write_bit(seq.bit_depth == 12)?; // twelve_bit
         bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs400)?; // monochrome
         bw.write_bit(seq.chroma_sampling != ChromaSampling::Cs444)?; // chroma_subsampling_x
-        bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs420)?; // chroma_subsampling_y
-        bw.write::<2, u8>(0)?; // chroma_sample_position
+        bw.write_bit(matches!(
+          seq.chroma_sampling,
+          ChromaSampling::Cs400 | ChromaSampling::Cs420
+        ))?; // chroma_subsampling_y
+        bw.write::<2, u8>(if seq.chroma_sampling == ChromaSampling::Cs420 {
+          seq.chroma_sample_position as u8
+        } else {
+          0
+        })?; // chroma_sample_position
         bw.write::<3, u8>(0)?; // reserved
         bw.write_bit(false)?; // initial_presentation_delay_present
 
-- 
2.43.0


From 3bc52149aad831ba20bf5c5b565b12e697185a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:16 +0000
Subject: [PATCH 05/46] fix: put T.35 metadata in the packet that shows the
 frame

The metadata of a frame that is coded before it is shown was written
with the hidden frame, which belongs to the packet of an earlier input
frame.
---
 src/api/internal.rs | 19 ++++++++++++-------
 src/rate.rs         |  3 ++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/api/internal.rs b/src/api/internal.rs
index 153610c..52002e9 100644
--- a/src/api/internal.rs
+++ b/src/api/internal.rs
@@ -538,12 +538,6 @@ impl<T: Pixel> ContextInner<T> {
       return Err(EncoderStatus::NeedMoreData);
     }
 
-    let t35_metadata = if let Some(t35) = self.t35_q.remove(&input_frameno) {
-      t35
-    } else {
-      Box::new([])
-    };
-
     if output_frameno_in_gop > 0 {
       let next_keyframe_input_frameno = self.next_keyframe_input_frameno(
         self.gop_input_frameno_start[&output_frameno],
@@ -579,7 +573,7 @@ impl<T: Pixel> ContextInner<T> {
             output_frameno_in_gop,
             next_keyframe_input_frameno,
             self.config.error_resilient,
-            t35_metadata,
+            Box::new([]),
           );
           assert!(fi.is_none());
           return Ok(fi);
@@ -609,6 +603,17 @@ impl<T: Pixel> ContextInner<T> {
 
     let output_frameno_in_gop =
       output_frameno - self.gop_output_frameno_start[&output_frameno];
+    // A frame that is coded before it is shown keeps its metadata for the show
+    // existing frame.
+    let shown = output_frameno_in_gop == 0
+      || self.inter_cfg.get_show_frame(
+        self.inter_cfg.get_idx_in_group_output(output_frameno_in_gop),
+      );
+    let t35_metadata = if shown {
+      self.t35_q.remove(&input_frameno).unwrap_or_default()
+    } else {
+      Box::new([])
+    };
     if output_frameno_in_gop == 0 {
       let fi = FrameInvariants::new_key_frame(
         self.config.clone(),
diff --git a/src/rate.rs b/src/rate.rs
index 910d9cc..fb10aac 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -1098,7 +1098,8 @@ impl RCState {
         droppable = false;
       }
       if fti == FRAME_SUBTYPE_SEF {
-        debug_assert!(bits == SEF_BITS);
+        // A SEF may be preceded by metadata.
+        debug_assert!(bits >= SEF_BITS);
         debug_assert!(show_frame);
         // Please don't make trial encodes of a SEF.
         debug_assert!(!trial);
-- 
2.43.0


From 4abb400bcd1391ec0ce0598603cab8dc9df0fff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:54 +0000
Subject: [PATCH 06/46] fix: report the quantizer of the shown frame with
 show-existing packets

Packet::qp was the quantizer of the previously coded frame.
---
 src/api/internal.rs | 8 +++++++-
 src/encoder.rs      | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/api/internal.rs b/src/api/internal.rs
index 52002e9..a7ce6b3 100644
--- a/src/api/internal.rs
+++ b/src/api/internal.rs
@@ -739,6 +739,7 @@ impl<T: Pixel> ContextInner<T> {
         height: fi.height as u32,
         render_width: fi.render_width,
         render_height: fi.render_height,
+        base_q_idx: fi.base_q_idx,
         // Use the original frame contents.
         frame: fs.input.clone(),
         input_hres: fs.input_hres.clone(),
@@ -821,6 +822,7 @@ impl<T: Pixel> ContextInner<T> {
       height: fi.height as u32,
       render_width: fi.render_width,
       render_height: fi.render_height,
+      base_q_idx: fi.base_q_idx,
       // Use the original frame contents.
       frame: fs.input.clone(),
       input_hres: fs.input_hres.clone(),
@@ -1331,7 +1333,11 @@ impl<T: Pixel> ContextInner<T> {
 
     let input_frameno = frame_data.fi.input_frameno;
     let frame_type = frame_data.fi.frame_type;
-    let qp = frame_data.fi.base_q_idx;
+    // Report the quantizer of the frame being shown.
+    let qp = frame_data.fi.rec_buffer.frames
+      [frame_data.fi.frame_to_show_map_idx as usize]
+      .as_ref()
+      .map_or(frame_data.fi.base_q_idx, |rec| rec.base_q_idx);
     let enc_stats = frame_data.fs.enc_stats.clone();
     self.finalize_packet(rec, source, input_frameno, frame_type, qp, enc_stats)
   }
diff --git a/src/encoder.rs b/src/encoder.rs
index 7864153..b78f5ba 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -79,6 +79,7 @@ pub struct ReferenceFrame<T: Pixel> {
   pub height: u32,
   pub render_width: u32,
   pub render_height: u32,
+  pub base_q_idx: u8,
   pub frame: Arc<Frame<T>>,
   pub input_hres: Arc<Plane<T>>,
   pub input_qres: Arc<Plane<T>>,
@@ -3828,6 +3829,7 @@ pub fn update_rec_buffer<T: Pixel>(
     height: fi.height as u32,
     render_width: fi.render_width,
     render_height: fi.render_height,
+    base_q_idx: fi.base_q_idx,
     frame: fs.rec.clone(),
     input_hres: fs.input_hres.clone(),
     input_qres: fs.input_qres.clone(),
-- 
2.43.0


From de6c560af066e895a47e70e4d20e9f23e35ac304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:11 +0000
Subject: [PATCH 07/46] fix: use no 10/12-bit x86 assembly for 8-bit video held
 in u16 samples

The inverse transforms clip to 12 bits and the intra predictors take DC
without neighbours from a bit depth of 10 or 12, so the reconstruction
differed from what decoders show.
---
 src/asm/x86/predict.rs           | 3 ++-
 src/asm/x86/transform/inverse.rs | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/asm/x86/predict.rs b/src/asm/x86/predict.rs
index 4db6955..32998b4 100644
--- a/src/asm/x86/predict.rs
+++ b/src/asm/x86/predict.rs
@@ -550,7 +550,7 @@ pub fn dispatch_predict_intra<T: Pixel>(
           call_rust(dst)
         }
       }
-      PixelType::U16 => {
+      PixelType::U16 if bit_depth > 8 => {
         let dst_ptr = dst.data_ptr_mut() as *mut _;
         let edge_ptr = edge_buf.top_left_ptr() as *const _;
         let bd_max = (1 << bit_depth) - 1;
@@ -864,6 +864,7 @@ pub fn dispatch_predict_intra<T: Pixel>(
           call_rust(dst)
         }
       }
+      PixelType::U16 => call_rust(dst),
     }
   }
 }
diff --git a/src/asm/x86/transform/inverse.rs b/src/asm/x86/transform/inverse.rs
index 31bcefc..7a0a82b 100644
--- a/src/asm/x86/transform/inverse.rs
+++ b/src/asm/x86/transform/inverse.rs
@@ -47,7 +47,7 @@ pub fn inverse_transform_add<T: Pixel>(
         );
       }
     }
-    PixelType::U16 => {
+    PixelType::U16 if bd == 12 => {
       if let Some(func) = INV_TXFM_HBD_FNS_12[cpu.as_index()][tx_size][tx_type]
       {
         return call_inverse_hbd_func(
@@ -61,6 +61,8 @@ pub fn inverse_transform_add<T: Pixel>(
         );
       }
     }
+    // The high bit depth functions clip to 10 or 12 bits.
+    PixelType::U16 => {}
   };
 
   rust::inverse_transform_add(input, output, eob, tx_size, tx_type, bd, cpu);
-- 
2.43.0


From 86e003d1a5194554b163b2bc24a4e6ff1db99bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:36 +0000
Subject: [PATCH 08/46] fix: make the lookahead independent of how far encoding
 has got

The motion estimation of the lookahead starts from the motion vectors of
earlier frames, which encoding those frames overwrote in place.  The
bitstream therefore depended on how calls to send and receive were
interleaved.
---
 src/api/internal.rs | 5 +++--
 src/me.rs           | 6 ++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/api/internal.rs b/src/api/internal.rs
index a7ce6b3..1d5a6dc 100644
--- a/src/api/internal.rs
+++ b/src/api/internal.rs
@@ -17,6 +17,7 @@ use crate::color::ChromaSampling::Cs400;
 use crate::dist::get_satd;
 use crate::encoder::*;
 use crate::frame::*;
+use crate::me::copy_me_stats;
 use crate::partition::*;
 use crate::rate::{
   RCState, FRAME_NSUBTYPES, FRAME_SUBTYPE_I, FRAME_SUBTYPE_P,
@@ -745,7 +746,7 @@ impl<T: Pixel> ContextInner<T> {
         input_hres: fs.input_hres.clone(),
         input_qres: fs.input_qres.clone(),
         cdfs: fs.cdfs,
-        frame_me_stats: fs.frame_me_stats.clone(),
+        frame_me_stats: copy_me_stats(&fs.frame_me_stats),
         output_frameno,
         segmentation: fs.segmentation,
       });
@@ -828,7 +829,7 @@ impl<T: Pixel> ContextInner<T> {
       input_hres: fs.input_hres.clone(),
       input_qres: fs.input_qres.clone(),
       cdfs: fs.cdfs,
-      frame_me_stats: fs.frame_me_stats.clone(),
+      frame_me_stats: copy_me_stats(&fs.frame_me_stats),
       output_frameno,
       segmentation: fs.segmentation,
     });
diff --git a/src/me.rs b/src/me.rs
index 8ebe154..201bc9b 100644
--- a/src/me.rs
+++ b/src/me.rs
@@ -50,6 +50,12 @@ pub type ReadGuardMEStats<'a> =
 pub type WriteGuardMEStats<'a> =
   RwLockWriteGuard<'a, [FrameMEStats; REF_FRAMES]>;
 
+/// Copies the statistics, so that encoding the frame they belong to does not
+/// change what the lookahead of later frames starts from.
+pub fn copy_me_stats(me_stats: &RefMEStats) -> RefMEStats {
+  Arc::new(RwLock::new(me_stats.read().expect("poisoned lock").clone()))
+}
+
 impl FrameMEStats {
   #[inline]
   pub fn rows_iter(&self) -> std::slice::ChunksExact<'_, MEStats> {
-- 
2.43.0


From 434dc26e4d754ad9cdda7fc0ca8d7a248f23da97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:35 +0000
Subject: [PATCH 09/46] fix: use the regular four tap filter for the sharp mode
 in small blocks

The pure Rust motion compensation used the smooth four tap filter for
blocks of width or height 4 or less in sharp mode, where AV1 and the
assembly use the regular one.
---
 src/mc.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mc.rs b/src/mc.rs
index d442322..a409cd0 100644
--- a/src/mc.rs
+++ b/src/mc.rs
@@ -240,8 +240,11 @@ pub(crate) mod rust {
   ) -> [i32; SUBPEL_FILTER_SIZE] {
     let filter_idx = if mode == FilterMode::BILINEAR || length > 4 {
       mode as usize
+    } else if mode == FilterMode::SMOOTH {
+      5
     } else {
-      (mode as usize).min(1) + 4
+      // The regular and the sharp filter share their four tap version.
+      4
     };
     SUBPEL_FILTERS[filter_idx][frac as usize]
   }
-- 
2.43.0


From 59d6c3e0dad6047c11506252d4da54c8438db562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:44 +0000
Subject: [PATCH 10/46] hook: expose private kernels and the quantizer under
 the bench feature

---
 src/lib.rs | 55 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 670416e..91b29b3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -323,6 +323,61 @@ pub mod bench {
   pub mod cpu_features {
     pub use crate::cpu_features::*;
   }
+  pub mod quantize {
+    pub use crate::quantize::*;
+  }
+  /// Accelerated primitives that are private to the crate.
+  pub mod kernels {
+    use crate::cpu_features::CpuFeatureLevel;
+    use crate::frame::PlaneSlice;
+    use crate::partition::BlockSize;
+    use crate::tiling::{PlaneRegion, PlaneRegionMut};
+    use crate::util::Pixel;
+    use std::mem::MaybeUninit;
+
+    pub fn cdef_find_dir<T: Pixel>(
+      img: &PlaneSlice<'_, T>, var: &mut u32, coeff_shift: usize,
+      cpu: CpuFeatureLevel,
+    ) -> i32 {
+      crate::cdef::cdef_find_dir(img, var, coeff_shift, cpu)
+    }
+
+    /// # Safety
+    ///
+    /// `src` must point to an 8x8 block (after decimation) with two samples
+    /// around it on every side for which `edges` has its bit set.
+    #[allow(clippy::too_many_arguments)]
+    pub unsafe fn cdef_filter_block<T: Pixel>(
+      dst: &mut PlaneRegionMut<'_, T>, src: *const T, src_stride: isize,
+      pri_strength: i32, sec_strength: i32, dir: usize, damping: i32,
+      bit_depth: usize, xdec: usize, ydec: usize, edges: u8,
+      cpu: CpuFeatureLevel,
+    ) {
+      crate::cdef::cdef_filter_block(
+        dst,
+        src,
+        src_stride,
+        pri_strength,
+        sec_strength,
+        dir,
+        damping,
+        bit_depth,
+        xdec,
+        ydec,
+        edges,
+        cpu,
+      );
+    }
+
+    pub fn pred_cfl_ac<T: Pixel, const XDEC: usize, const YDEC: usize>(
+      ac: &mut [MaybeUninit<i16>], luma: &PlaneRegion<'_, T>,
+      bsize: BlockSize, w_pad: usize, h_pad: usize, cpu: CpuFeatureLevel,
+    ) {
+      crate::predict::pred_cfl_ac::<T, XDEC, YDEC>(
+        ac, luma, bsize, w_pad, h_pad, cpu,
+      );
+    }
+  }
 }
 
 #[cfg(fuzzing)]
-- 
2.43.0


From 12b27ec0c0b67de4055962b019684fc8d299a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:45 +0000
Subject: [PATCH 11/46] fix: compute the display rate of a level from the frame
 rate

The time base is the duration of a frame, so samples per second are the
frame size divided by it. The reciprocal was used, which made the
display rate limit of every level ineffective for ordinary frame rates
and rejected slow ones.
---
 src/api/config/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/config/mod.rs b/src/api/config/mod.rs
index aef2c45..11defef 100644
--- a/src/api/config/mod.rs
+++ b/src/api/config/mod.rs
@@ -422,8 +422,8 @@ impl Config {
         if config.height > AV1_LEVEL_MAX_V_SIZE[level_idx as usize] {
           return Err(LevelConstraintsExceeded);
         }
-        if ((config.width * config.height) as u64 * config.time_base.num)
-          .div_ceil(config.time_base.den)
+        if ((config.width * config.height) as u64 * config.time_base.den)
+          .div_ceil(config.time_base.num)
           > AV1_LEVEL_MAX_DISPLAY_RATE[level_idx as usize] as u64
         {
           return Err(LevelConstraintsExceeded);
-- 
2.43.0


From 100e92d95c2fda310c3c915a17fcc14daa9060ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:45 +0000
Subject: [PATCH 12/46] fix: correct the maximum picture size of level 4.1

Annex A of the AV1 specification gives 2359296, as for level 4.0.
---
 src/levels.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/levels.rs b/src/levels.rs
index 63fbff0..227feb1 100644
--- a/src/levels.rs
+++ b/src/levels.rs
@@ -31,8 +31,8 @@ pub static AV1_LEVEL_MAX_PIC_SIZE: [usize; 32] = [
   278784, // 2.1
   0, 0, 665856,  // 3.0
   1065024, // 3.1
-  0, 0, 2359296,  // 4.0
-  23592960, // 4.1
+  0, 0, 2359296, // 4.0
+  2359296, // 4.1
   0, 0, 8912896,  // 5.0
   8912896,  // 5.1
   8912896,  // 5.2
-- 
2.43.0


From 89e8b767b63dbc8af8e6235f54d8f24b53fb17eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:45 +0000
Subject: [PATCH 13/46] fix: do not panic when the tile rate limit asks for too
 many tiles

At very high frame rates the number of tile rows asked for by the rate
limit exceeds the number possible, and clamp() panics if its lower bound
is above its upper bound.
---
 src/tiling/tiler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tiling/tiler.rs b/src/tiling/tiler.rs
index 9d6b28a..a38b7d8 100644
--- a/src/tiling/tiler.rs
+++ b/src/tiling/tiler.rs
@@ -126,7 +126,8 @@ impl TilingInfo {
       min_tiles_ratelimit_log2.saturating_sub(tile_cols_log2);
     let tile_rows_log2 = tile_rows_log2
       .max(min_tile_rows_log2)
-      .clamp(min_tile_rows_ratelimit_log2, max_tile_rows_log2);
+      .max(min_tile_rows_ratelimit_log2)
+      .min(max_tile_rows_log2);
     let tile_height_sb = sb_rows.align_power_of_two_and_shift(tile_rows_log2);
 
     let rows = frame_height_sb.div_ceil(tile_height_sb);
-- 
2.43.0


From f3698f7452cd54e3e5bb5f7f04a4f7a98620079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:15 +0000
Subject: [PATCH 14/46] fix: do not panic on time bases that exceed 31 bits

Validation accepts 32 bit terms, but they were cast to i32 for the scene
change detector, whose rational type panics on zero or overflowing
terms.
---
 src/api/channel/by_gop.rs |  5 +----
 src/api/config/encoder.rs | 12 ++++++++++++
 src/api/internal.rs       |  5 +----
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/api/channel/by_gop.rs b/src/api/channel/by_gop.rs
index 342c7c0..387e0a7 100644
--- a/src/api/channel/by_gop.rs
+++ b/src/api/channel/by_gop.rs
@@ -51,10 +51,7 @@ impl<T: Pixel> SceneChange<T> {
     let detector = SceneChangeDetector::new(
       (enc.width, enc.height),
       enc.bit_depth,
-      av_scenechange::Rational32::new(
-        enc.time_base.den as i32,
-        enc.time_base.num as i32,
-      ),
+      enc.frame_rate_rational32(),
       enc.chroma_sampling,
       lookahead_distance,
       match enc.speed_settings.scene_detection_mode {
diff --git a/src/api/config/encoder.rs b/src/api/config/encoder.rs
index be33370..8137346 100644
--- a/src/api/config/encoder.rs
+++ b/src/api/config/encoder.rs
@@ -195,6 +195,18 @@ impl EncoderConfig {
     Rational::from_reciprocal(self.time_base).as_f64()
   }
 
+  /// The frame rate as needed by the scene change detector. Terms that do not
+  /// fit the type are scaled down.
+  pub(crate) fn frame_rate_rational32(&self) -> av_scenechange::Rational32 {
+    let Rational { num, den } = Rational::from_reciprocal(self.time_base);
+    let bits = u64::BITS - num.max(den).leading_zeros();
+    let shift = bits.saturating_sub(i32::BITS - 1);
+    av_scenechange::Rational32::new(
+      (num >> shift).max(1) as i32,
+      (den >> shift).max(1) as i32,
+    )
+  }
+
   /// Computes the render width and height of the stream based
   /// on [`width`], [`height`], and [`sample_aspect_ratio`].
   ///
diff --git a/src/api/internal.rs b/src/api/internal.rs
index 1d5a6dc..d2c2445 100644
--- a/src/api/internal.rs
+++ b/src/api/internal.rs
@@ -277,10 +277,7 @@ impl<T: Pixel> ContextInner<T> {
     let mut keyframe_detector = SceneChangeDetector::new(
       (enc.width, enc.height),
       enc.bit_depth,
-      av_scenechange::Rational32::new(
-        enc.time_base.den as i32,
-        enc.time_base.num as i32,
-      ),
+      enc.frame_rate_rational32(),
       enc.chroma_sampling,
       lookahead_distance,
       match enc.speed_settings.scene_detection_mode {
-- 
2.43.0


From 1f117f4e1ddb7b6f15aa0857fde4fa628ec86307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:55 +0000
Subject: [PATCH 15/46] fix: limit the frame rate given to the scene change
 detector

Its tiling computation panics when the rate limit of AV1 asks for more
tile rows than the frame has superblocks.
---
 src/api/config/encoder.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/api/config/encoder.rs b/src/api/config/encoder.rs
index 8137346..e224ec5 100644
--- a/src/api/config/encoder.rs
+++ b/src/api/config/encoder.rs
@@ -14,6 +14,7 @@ use crate::api::config::GrainTableSegment;
 use crate::api::{Rational, SpeedSettings};
 use crate::encoder::Tune;
 use crate::serialize::{Deserialize, Serialize};
+use crate::tiling::{TilingInfo, MAX_TILE_RATE};
 
 use std::fmt;
 
@@ -196,9 +197,24 @@ impl EncoderConfig {
   }
 
   /// The frame rate as needed by the scene change detector. Terms that do not
-  /// fit the type are scaled down.
+  /// fit the type are scaled down, and the rate is limited to what the detector
+  /// can divide the frame into tiles for.
   pub(crate) fn frame_rate_rational32(&self) -> av_scenechange::Rational32 {
     let Rational { num, den } = Rational::from_reciprocal(self.time_base);
+    let ti = TilingInfo::from_target_tiles(
+      6,
+      self.width,
+      self.height,
+      0.,
+      0,
+      0,
+      self.chroma_sampling == ChromaSampling::Cs422,
+    );
+    let max_rate = MAX_TILE_RATE * (1 << ti.max_tile_rows_log2) as f64
+      / (ti.frame_width * ti.frame_height) as f64;
+    if num as f64 / den as f64 > max_rate {
+      return av_scenechange::Rational32::new(max_rate as i32, 1);
+    }
     let bits = u64::BITS - num.max(den).leading_zeros();
     let shift = bits.saturating_sub(i32::BITS - 1);
     av_scenechange::Rational32::new(
-- 
2.43.0


From f90c4ff08f210b6a14c8d27f2372dedc7a08e62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:06 +0000
Subject: [PATCH 16/46] fix: keep the rate control reservoir clear of integer
 overflow

The limit on the bits per temporal unit allowed 2^46, which with the
longest reservoir of 2^17 frames overflows the 64 bit sums of bits.
---
 src/rate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rate.rs b/src/rate.rs
index fb10aac..8af1999 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -608,7 +608,7 @@ impl RCState {
     let bits_per_tu = clamp(
       (target_bitrate as i64) * framerate_den / framerate_num,
       40,
-      0x4000_0000_0000,
+      0x400_0000_0000,
     ) - (TEMPORAL_DELIMITER.len() * 8) as i64;
     let reservoir_max = bits_per_tu * (reservoir_frame_delay as i64);
     // Start with a buffer fullness and fullness target of 50%.
-- 
2.43.0


From 9260a44f2c4254894b05274126550ef7fef443cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:54 +0000
Subject: [PATCH 17/46] hook: expose the key frame header writer to the bench
 feature

---
 src/lib.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 91b29b3..e1fd607 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -369,6 +369,37 @@ pub mod bench {
       );
     }
 
+    /// The frame header of a first key frame, without coding the frame.
+    pub fn key_frame_header<T: Pixel>(
+      config: &crate::EncoderConfig, base_q_idx: u8,
+      context_update_tile_id: usize, max_tile_size_bytes: u32,
+    ) -> Vec<u8> {
+      use crate::encoder::{FrameInvariants, FrameState, Sequence};
+      use crate::frame::FrameAlloc;
+      use crate::header::UncompressedHeader;
+      use bitstream_io::{BigEndian, BitWriter};
+      use std::sync::Arc;
+
+      let sequence = Arc::new(Sequence::new(config));
+      let mut fi = FrameInvariants::new(Arc::new(config.clone()), sequence);
+      fi.base_q_idx = base_q_idx;
+      let frame =
+        Arc::new(crate::Frame::<T>::new(16, 16, config.chroma_sampling));
+      let mut fs = FrameState::new_with_frame_and_me_stats_and_rec(
+        &fi,
+        frame.clone(),
+        crate::me::FrameMEStats::new_arc_array(1, 1),
+        frame,
+      );
+      fs.context_update_tile_id = context_update_tile_id;
+      fs.max_tile_size_bytes = max_tile_size_bytes;
+      let inter_cfg = crate::api::InterConfig::new(config);
+      let mut out = Vec::new();
+      let mut bw = BitWriter::endian(&mut out, BigEndian);
+      bw.write_frame_header_obu(&fi, &fs, &inter_cfg).unwrap();
+      out
+    }
+
     pub fn pred_cfl_ac<T: Pixel, const XDEC: usize, const YDEC: usize>(
       ac: &mut [MaybeUninit<i16>], luma: &PlaneRegion<'_, T>,
       bsize: BlockSize, w_pad: usize, h_pad: usize, cpu: CpuFeatureLevel,
-- 
2.43.0


From 0a5d1031e7f90b3f41bd23c2e8fbd4b06dd8949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:21 +0000
Subject: [PATCH 18/46] hook: build key frame headers for frames of any size

---
 src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e1fd607..a6072f9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -374,7 +374,9 @@ pub mod bench {
       config: &crate::EncoderConfig, base_q_idx: u8,
       context_update_tile_id: usize, max_tile_size_bytes: u32,
     ) -> Vec<u8> {
-      use crate::encoder::{FrameInvariants, FrameState, Sequence};
+      use crate::encoder::{
+        CodedFrameData, FrameInvariants, FrameState, Sequence,
+      };
       use crate::frame::FrameAlloc;
       use crate::header::UncompressedHeader;
       use bitstream_io::{BigEndian, BitWriter};
@@ -383,6 +385,13 @@ pub mod bench {
       let sequence = Arc::new(Sequence::new(config));
       let mut fi = FrameInvariants::new(Arc::new(config.clone()), sequence);
       fi.base_q_idx = base_q_idx;
+      fi.enable_segmentation = false;
+      // A frame without coded data is a show-existing frame. The header needs
+      // none of the per-block data, which is large for large frames.
+      let (w_in_b, h_in_b) = (fi.w_in_b, fi.h_in_b);
+      (fi.w_in_b, fi.h_in_b) = (0, 0);
+      fi.coded_frame_data = Some(CodedFrameData::new(&fi));
+      (fi.w_in_b, fi.h_in_b) = (w_in_b, h_in_b);
       let frame =
         Arc::new(crate::Frame::<T>::new(16, 16, config.chroma_sampling));
       let mut fs = FrameState::new_with_frame_and_me_stats_and_rec(
-- 
2.43.0


From ab6e454f946caa243a4975cedaa54e3c495ba6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:21 +0000
Subject: [PATCH 19/46] fix: panic in full motion search beyond 32767 samples

The absolute coordinates were truncated to 16 bits before the
subtraction, which overflows at the wrap in builds with overflow checks.
---
 src/me.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/me.rs b/src/me.rs
index 201bc9b..7176f7b 100644
--- a/src/me.rs
+++ b/src/me.rs
@@ -1487,8 +1487,8 @@ fn full_search<T: Pixel>(
       let &Rect { x, y, .. } = ref_window.rect();
 
       let mv = MotionVector {
-        row: 8 * (y as i16 - po.y as i16),
-        col: 8 * (x as i16 - po.x as i16),
+        row: (8 * (y - po.y)) as i16,
+        col: (8 * (x - po.x)) as i16,
       };
 
       let rd = compute_mv_rd(
-- 
2.43.0


From 3a630e2ba6ca0c249e3f3169c2cba03eb8594148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:24 +0000
Subject: [PATCH 20/46] fix: requested number of tiles was not reached

The search stopped without trying the finest layout, so a frame that
allows just the requested number of tiles got half of them.
---
 src/encoder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index b78f5ba..ded1434 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -249,9 +249,7 @@ impl Sequence {
     if config.tiles > 0 {
       let mut tile_rows_log2 = 0;
       let mut tile_cols_log2 = 0;
-      while (tile_rows_log2 < tiling.max_tile_rows_log2)
-        || (tile_cols_log2 < tiling.max_tile_cols_log2)
-      {
+      loop {
         tiling = TilingInfo::from_target_tiles(
           sb_size_log2,
           config.width,
@@ -262,7 +260,10 @@ impl Sequence {
           config.chroma_sampling == ChromaSampling::Cs422,
         );
 
-        if tiling.rows * tiling.cols >= config.tiles {
+        if tiling.rows * tiling.cols >= config.tiles
+          || (tile_rows_log2 >= tiling.max_tile_rows_log2
+            && tile_cols_log2 >= tiling.max_tile_cols_log2)
+        {
           break;
         };
 
-- 
2.43.0


From ee1abac8454743a62c76bc9a3871ffd602ce58c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:13 +0000
Subject: [PATCH 21/46] fix: 4:2:2 tile layouts that the tile syntax cannot
 express

Tile widths are rounded up to an even number of superblocks for 4:2:2,
which often requires the non-uniform tile syntax. That syntax limits the
tile height by half the area the uniform one allows, so for frames that
need several tiles the header described another layout than the coded one
or was unreadable. Add rows, or columns if there are not enough rows.
---
 src/tiling/tiler.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/tiling/tiler.rs b/src/tiling/tiler.rs
index a38b7d8..5847f4c 100644
--- a/src/tiling/tiler.rs
+++ b/src/tiling/tiler.rs
@@ -92,10 +92,11 @@ impl TilingInfo {
         .ceil() as usize,
     );
 
-    let tile_cols_log2 =
+    let target_rows_log2 = tile_rows_log2;
+    let target_cols_log2 =
       tile_cols_log2.clamp(min_tile_cols_log2, max_tile_cols_log2);
     let tile_width_sb_pre =
-      sb_cols.align_power_of_two_and_shift(tile_cols_log2);
+      sb_cols.align_power_of_two_and_shift(target_cols_log2);
 
     // If this is 4:2:2, our UV horizontal is subsampled but not our
     // vertical.  Loop Restoration Units must be square, so they
@@ -124,11 +125,38 @@ impl TilingInfo {
     let min_tile_rows_log2 = min_tiles_log2.saturating_sub(tile_cols_log2);
     let min_tile_rows_ratelimit_log2 =
       min_tiles_ratelimit_log2.saturating_sub(tile_cols_log2);
-    let tile_rows_log2 = tile_rows_log2
+    let mut tile_rows_log2 = tile_rows_log2
       .max(min_tile_rows_log2)
       .max(min_tile_rows_ratelimit_log2)
       .min(max_tile_rows_log2);
-    let tile_height_sb = sb_rows.align_power_of_two_and_shift(tile_rows_log2);
+    let mut tile_height_sb =
+      sb_rows.align_power_of_two_and_shift(tile_rows_log2);
+
+    // A tile width that was rounded up may need the non-uniform tile syntax,
+    // which limits the tile height further.
+    if min_tiles_log2 > 0
+      && sb_cols.align_power_of_two_and_shift(tile_cols_log2) != tile_width_sb
+    {
+      let max_tile_area_sb = (sb_cols * sb_rows) >> (min_tiles_log2 + 1);
+      let max_tile_height_sb =
+        (max_tile_area_sb / tile_width_sb.min(sb_cols)).max(1);
+      while tile_height_sb > max_tile_height_sb {
+        if tile_rows_log2 == max_tile_rows_log2 {
+          // More columns are needed.
+          return Self::from_target_tiles(
+            sb_size_log2,
+            frame_width,
+            frame_height,
+            frame_rate,
+            target_cols_log2 + 1,
+            target_rows_log2,
+            is_422_p,
+          );
+        }
+        tile_rows_log2 += 1;
+        tile_height_sb = sb_rows.align_power_of_two_and_shift(tile_rows_log2);
+      }
+    }
 
     let rows = frame_height_sb.div_ceil(tile_height_sb);
 
-- 
2.43.0


From c3ddd4b6eab58b04faf0501680ed9bba7c69ce1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 22/46] fix: panic or garbage on truncated first-pass summaries

---
 src/api/config/rate.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/config/rate.rs b/src/api/config/rate.rs
index 7dee501..8df9f80 100644
--- a/src/api/config/rate.rs
+++ b/src/api/config/rate.rs
@@ -35,7 +35,9 @@ impl RateControlSummary {
   /// Deserializes a byte slice into a `RateControlSummary`
   pub(crate) fn from_slice(bytes: &[u8]) -> Result<Self, Error> {
     let mut de = RCDeserialize::default();
-    let _ = de.buffer_fill(bytes, 0, TWOPASS_HEADER_SZ);
+    if de.buffer_fill(bytes, 0, TWOPASS_HEADER_SZ) < TWOPASS_HEADER_SZ {
+      return Err(Error::CorruptedSummary("Summary too short".to_string()));
+    }
 
     de.parse_summary().map_err(Error::CorruptedSummary)
   }
-- 
2.43.0


From 7c6b5a7f3e7f56d2919d951b1d7b6a9bd5ae1d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 23/46] fix: overflow of the estimated rate for large
 distortions

---
 src/ec.rs      | 5 +++--
 src/encoder.rs | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ec.rs b/src/ec.rs
index f5de3d8..77a1f9c 100644
--- a/src/ec.rs
+++ b/src/ec.rs
@@ -496,7 +496,7 @@ where
   }
   // fake add bits
   fn add_bits_frac(&mut self, bits_frac: u32) {
-    self.fake_bits_frac += bits_frac
+    self.fake_bits_frac = self.fake_bits_frac.saturating_add(bits_frac);
   }
   /// Encode a literal bitstring, bit by bit in MSB order, with flat
   /// probability.
@@ -794,7 +794,8 @@ where
   ///         This will always be slightly larger than the exact value (e.g., all
   ///          rounding error is in the positive direction).
   fn tell_frac(&mut self) -> u32 {
-    Self::frac_compute(self.tell(), self.rng as u32) + self.fake_bits_frac
+    Self::frac_compute(self.tell(), self.rng as u32)
+      .saturating_add(self.fake_bits_frac)
   }
   /// Save current point in coding/recording to a checkpoint that can
   /// be restored later.  A `WriterCheckpoint` can be generated for an
diff --git a/src/encoder.rs b/src/encoder.rs
index ded1434..82f2f2d 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1650,7 +1650,8 @@ pub fn encode_tx_block<T: Pixel, W: Writer>(
         // look up rate and distortion in table
         let estimated_rate =
           estimate_rate(fi.base_q_idx, tx_size, raw_tx_dist);
-        w.add_bits_frac(estimated_rate as u32);
+        // The estimate is extrapolated for large distortions.
+        w.add_bits_frac(estimated_rate.min(u32::MAX.into()) as u32);
       }
 
       let bias = distortion_scale(fi, ts.to_frame_block_offset(tx_bo), bsize);
-- 
2.43.0


From f13a5908a5e25c899079eadac76b4c4abae2029f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 24/46] fix: second pass started before a whole temporal unit
 was read

---
 src/rate.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rate.rs b/src/rate.rs
index 8af1999..d8bffec 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -1507,7 +1507,9 @@ impl RCState {
         if m.show_frame {
           self.scale_window_ntus += 1;
         }
-        if frames_needed == 1 {
+        // A frame that is not shown does not complete a TU, so more may still
+        //  be needed.
+        if self.twopass_in_frames_needed() == 0 {
           self.pass2_data_ready = true;
           self.cur_metrics = self.frame_metrics[self.frame_metrics_head];
         }
-- 
2.43.0


From 267c48d7d20cf58f8b9c734a24163ac5b8aa5c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 25/46] fix: accept only first-pass statistics a first pass can
 produce

---
 src/rate.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/rate.rs b/src/rate.rs
index d8bffec..5f66cf8 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -47,6 +47,14 @@ const TWOPASS_PACKET_SZ: usize = 8;
 
 const SEF_BITS: i64 = 24;
 
+// The range of scales a frame can be assigned by update_state().
+const MIN_LOG_SCALE_Q24: i32 = -64 << 24;
+const MAX_LOG_SCALE_Q24: i32 = 16 << 24;
+
+// The range of the exponents (in Q6) that RCState::new() picks from.
+const MIN_EXP: u8 = 48;
+const MAX_EXP: u8 = 139;
+
 // The scale of AV1 quantizer tables (relative to the pixel domain), i.e., Q3.
 pub(crate) const QSCALE: i32 = 3;
 
@@ -306,6 +314,10 @@ impl RCDeserialize {
       return Err("Invalid frame type".to_string());
     }
     let log_scale_q24 = self.unbuffer_val(4) as i32;
+    // Make sure the scale is one update_state() can come up with.
+    if !(MIN_LOG_SCALE_Q24..=MAX_LOG_SCALE_Q24).contains(&log_scale_q24) {
+      return Err("Invalid frame scale".to_string());
+    }
     Ok(RCFrameMetrics { log_scale_q24, fti, show_frame })
   }
 
@@ -340,6 +352,11 @@ impl RCDeserialize {
       *nframes = n;
     }
 
+    // Every encode starts with a keyframe.
+    if s.nframes[FRAME_SUBTYPE_I] < 1 {
+      return Err("No keyframes found in first pass summary".to_string());
+    }
+
     // We can't have more TUs than frames.
     if s.ntus > total {
       return Err("More TUs than frames".to_string());
@@ -349,13 +366,23 @@ impl RCDeserialize {
 
     for exp in s.exp.iter_mut() {
       *exp = self.unbuffer_val(1) as u8;
+      // Make sure the exponent is one RCState::new() can pick.
+      if !(MIN_EXP..=MAX_EXP).contains(exp) {
+        return Err("Invalid exponent".to_string());
+      }
     }
 
-    for scale_sum in s.scale_sum.iter_mut() {
+    for (scale_sum, &nframes) in s.scale_sum.iter_mut().zip(s.nframes.iter()) {
       *scale_sum = self.unbuffer_val(8);
       if *scale_sum < 0 {
         return Err("Got negative scale sum".to_string());
       }
+      // The sum can't exceed the number of frames times the largest scale.
+      let max_sum =
+        (nframes as i64).saturating_mul(bexp_q24(MAX_LOG_SCALE_Q24));
+      if *scale_sum > max_sum {
+        return Err("Scale sum too large".to_string());
+      }
     }
     Ok(s)
   }
-- 
2.43.0


From c7a005c2185dd53d07f30d00cd1170c6e36d6ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 26/46] fix: overflows and clamp panics in second-pass rate
 control

---
 src/rate.rs | 70 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/src/rate.rs b/src/rate.rs
index 5f66cf8..70062b1 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -55,6 +55,9 @@ const MAX_LOG_SCALE_Q24: i32 = 16 << 24;
 const MIN_EXP: u8 = 48;
 const MAX_EXP: u8 = 139;
 
+// The largest bit reservoir, with room to add to it without overflow.
+const MAX_RESERVOIR: i64 = 1 << 60;
+
 // The scale of AV1 quantizer tables (relative to the pixel domain), i.e., Q3.
 pub(crate) const QSCALE: i32 = 3;
 
@@ -860,7 +863,9 @@ impl RCState {
                 bexp_q24(self.cur_metrics.log_scale_q24);
             }
           } else {
-            log_cur_scale = (self.cur_metrics.log_scale_q24 as i64) << 33;
+            // A coded frame has at least one bit.
+            log_cur_scale = q24_to_q57(self.cur_metrics.log_scale_q24)
+              .max(-self.log_npixels);
           }
           // If we're approaching the end of the file, add some slack to keep
           //  us from slamming into a rail.
@@ -890,11 +895,15 @@ impl RCState {
           //  frames of each type we need to add compared to the actual sums in
           //  our window.
           for ftj in 0..FRAME_NSUBTYPES {
-            let scale = scale_window_sum[ftj]
-              + bexp_q24(self.scalefilter[ftj].y[0])
-                * (nframes[ftj] - scale_window_nframes[ftj]) as i64;
+            let scale = scale_window_sum[ftj].saturating_add(
+              bexp_q24(self.scalefilter[ftj].y[0]).saturating_mul(
+                (nframes[ftj] - scale_window_nframes[ftj]) as i64,
+              ),
+            );
             log_scale[ftj] = if nframes[ftj] > 0 {
-              blog64(scale) - blog64(nframes[ftj] as i64) - q57(24)
+              // The window may not match the frames we actually encode.
+              (blog64(scale) - blog64(nframes[ftj] as i64) - q57(24))
+                .clamp(-self.log_npixels, q24_to_q57(MAX_LOG_SCALE_Q24))
             } else {
               -self.log_npixels
             };
@@ -916,12 +925,14 @@ impl RCState {
       }
       // If we've been missing our target, add a penalty term.
       let rate_bias = (self.rate_bias / (self.nencoded_frames + 100))
-        * (reservoir_frames as i64);
+        .saturating_mul(reservoir_frames as i64);
       // rate_total is the total bits available over the next
       //  reservoir_tus TUs.
-      let rate_total = self.reservoir_fullness - self.reservoir_target
-        + rate_bias
-        + (reservoir_tus as i64) * self.bits_per_tu;
+      let rate_total = (self.reservoir_fullness - self.reservoir_target)
+        .saturating_add(rate_bias)
+        .saturating_add(
+          (reservoir_tus as i64).saturating_mul(self.bits_per_tu),
+        );
       // Find a target quantizer that meets our rate target for the
       //  specific mix of frame types we'll have over the next
       //  reservoir_frame frames.
@@ -956,18 +967,18 @@ impl RCState {
             + DQP_Q57[ftj];
           // All the fields here are Q57 except for the exponent, which is
           //  Q6.
-          bits += (nframes[ftj] as i64)
-            * bexp64(
+          bits =
+            bits.saturating_add((nframes[ftj] as i64).saturating_mul(bexp64(
               log_scale[ftj] + self.log_npixels
                 - ((log_q + 32) >> 6) * (self.exp[ftj] as i64),
-            );
+            )));
         }
         // The number of bits for Show Existing Frame frames is constant.
-        bits += (nframes[FRAME_SUBTYPE_SEF] as i64) * SEF_BITS;
-        let diff = bits - rate_total;
-        if diff > 0 {
+        bits =
+          bits.saturating_add((nframes[FRAME_SUBTYPE_SEF] as i64) * SEF_BITS);
+        if bits > rate_total {
           log_qlo = log_base_q + 1;
-        } else if diff < 0 {
+        } else if bits < rate_total {
           log_qhi = log_base_q - 1;
         } else {
           break;
@@ -1013,9 +1024,13 @@ impl RCState {
           let mut log_q_exp = ((log_q + 32) >> 6) * exp;
           if log_scale_pixels - log_q_exp < log_soft_limit {
             // Scale the adjustment based on how far into the margin we are.
-            log_q_exp += ((log_scale_pixels - log_soft_limit - log_q_exp)
-              >> 32)
-              * ((margin.min(soft_limit) << 32) / margin);
+            let margin_used_q32 = (((margin.min(soft_limit) as i128) << 32)
+              / margin as i128) as i64;
+            log_q_exp = log_q_exp.saturating_add(
+              ((log_scale_pixels - log_soft_limit).saturating_sub(log_q_exp)
+                >> 32)
+                * margin_used_q32,
+            );
             log_q = ((log_q_exp + (exp >> 1)) / exp) << 6;
           }
         }
@@ -1113,7 +1128,7 @@ impl RCState {
       let mut estimated_bits = 0;
       let mut bits = bits;
       let mut droppable = droppable;
-      let mut log_scale = q57(-64);
+      let mut log_scale = q24_to_q57(MIN_LOG_SCALE_Q24);
       // Drop frames is also disabled for now in the case of infinite-buffer
       //  two-pass mode.
       if !self.drop_frames
@@ -1143,7 +1158,8 @@ impl RCState {
         } else {
           // Compute the estimated scale factor for this frame type.
           let log_bits = blog64(bits);
-          log_scale = (log_bits - self.log_npixels + log_q_exp).min(q57(16));
+          log_scale = (log_bits - self.log_npixels + log_q_exp)
+            .min(q24_to_q57(MAX_LOG_SCALE_Q24));
           estimated_bits =
             bexp64(prev_log_scale + self.log_npixels - log_q_exp);
           if !trial {
@@ -1423,8 +1439,10 @@ impl RCState {
       self.reservoir_frame_delay = s.ntus;
       self.scale_window_nframes = self.nframes_total;
       self.scale_window_sum = s.scale_sum;
-      self.reservoir_max =
-        self.bits_per_tu * (self.reservoir_frame_delay as i64);
+      self.reservoir_max = self
+        .bits_per_tu
+        .saturating_mul(self.reservoir_frame_delay as i64)
+        .min(MAX_RESERVOIR);
       self.reservoir_target = (self.reservoir_max + 1) >> 1;
       self.reservoir_fullness = self.reservoir_target;
     } else {
@@ -1490,7 +1508,8 @@ impl RCState {
     }
 
     (self.reservoir_frame_delay - self.scale_window_ntus)
-      .clamp(0, cur_nframes_left - cur_scale_window_nframes)
+      .min(cur_nframes_left - cur_scale_window_nframes)
+      .max(0)
   }
 
   pub(crate) fn parse_frame_data_packet(
@@ -1616,7 +1635,8 @@ impl RCState {
               }
               frames_needed = (self.reservoir_frame_delay
                 - self.scale_window_ntus)
-                .clamp(0, cur_nframes_left - cur_scale_window_nframes);
+                .min(cur_nframes_left - cur_scale_window_nframes)
+                .max(0);
               // Clear the buffer for the next frame.
               self.des.pass2_buffer_fill = 0;
             } else {
-- 
2.43.0


From 78e185be86975a2740c996e91d7b749689e54f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:37 +0000
Subject: [PATCH 27/46] fix: film grain header coded chroma fields without
 chroma points

When the chroma scaling points are not coded (monochrome, chroma scaled
from luma, or 4:2:0 without luma points) the decoder infers that there
are none. The AR coefficients and multipliers were still written whenever
the table had chroma points, which made the frame header undecodable.
---
 src/header.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 4217285..c15a0c9 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -861,11 +861,18 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
           } else {
             false
           };
-        if !(fi.sequence.chroma_sampling == ChromaSampling::Cs400
+        // Chroma points are not coded when they cannot apply; the decoder then
+        // infers that there are none.
+        let has_chroma_points = !(fi.sequence.chroma_sampling
+          == ChromaSampling::Cs400
           || chroma_scaling_from_luma
           || (fi.sequence.chroma_sampling == ChromaSampling::Cs420
-            && grain_params.scaling_points_y.is_empty()))
-        {
+            && grain_params.scaling_points_y.is_empty()));
+        let has_cb_points =
+          has_chroma_points && !grain_params.scaling_points_cb.is_empty();
+        let has_cr_points =
+          has_chroma_points && !grain_params.scaling_points_cr.is_empty();
+        if has_chroma_points {
           self.write::<4, u8>(grain_params.scaling_points_cb.len() as u8)?;
           for point in &grain_params.scaling_points_cb {
             self.write::<8, u8>(point[0])?;
@@ -896,18 +903,14 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
           num_pos_chroma = num_pos_luma;
         }
 
-        if chroma_scaling_from_luma
-          || !grain_params.scaling_points_cb.is_empty()
-        {
+        if chroma_scaling_from_luma || has_cb_points {
           for i in 0..num_pos_chroma {
             self.write::<8, u8>(
               (grain_params.ar_coeffs_cb[i] as i16 + 128) as u8,
             )?;
           }
         }
-        if chroma_scaling_from_luma
-          || !grain_params.scaling_points_cr.is_empty()
-        {
+        if chroma_scaling_from_luma || has_cr_points {
           for i in 0..num_pos_chroma {
             self.write::<8, u8>(
               (grain_params.ar_coeffs_cr[i] as i16 + 128) as u8,
@@ -917,12 +920,12 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
 
         self.write::<2, u8>(grain_params.ar_coeff_shift - 6)?;
         self.write::<2, u8>(grain_params.grain_scale_shift)?;
-        if !grain_params.scaling_points_cb.is_empty() {
+        if has_cb_points {
           self.write::<8, u8>(grain_params.cb_mult)?;
           self.write::<8, u8>(grain_params.cb_luma_mult)?;
           self.write::<9, u16>(grain_params.cb_offset)?;
         }
-        if !grain_params.scaling_points_cr.is_empty() {
+        if has_cr_points {
           self.write::<8, u8>(grain_params.cr_mult)?;
           self.write::<8, u8>(grain_params.cr_luma_mult)?;
           self.write::<9, u16>(grain_params.cr_offset)?;
-- 
2.43.0


From af714ce46876d667172ff41a6ae69d516044a763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:38 +0000
Subject: [PATCH 28/46] fix: overflow in the frame timestamp used to select
 film grain

---
 src/encoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 82f2f2d..eeced63 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1281,8 +1281,10 @@ impl<T: Pixel> FrameInvariants<T> {
     // I don't know why this is the base unit for a timestamp but it is. 1/10000000 of a second.
     const TIMESTAMP_BASE_UNIT: u64 = 10_000_000;
 
-    self.input_frameno * TIMESTAMP_BASE_UNIT * self.sequence.time_base.num
-      / self.sequence.time_base.den
+    (self.input_frameno as u128
+      * TIMESTAMP_BASE_UNIT as u128
+      * self.sequence.time_base.num as u128
+      / self.sequence.time_base.den as u128) as u64
   }
 }
 
-- 
2.43.0


From 14697a51ba18cb0e4d0b74272d61ed98e1d72584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:49 +0000
Subject: [PATCH 29/46] fix: container header of the channel API disagreed with
 the stream

---
 src/api/channel/data.rs | 30 +-------------------
 src/api/context.rs      | 62 ++++++++++++++++++++---------------------
 2 files changed, 32 insertions(+), 60 deletions(-)

diff --git a/src/api/channel/data.rs b/src/api/channel/data.rs
index 6b3f65c..6fcd22f 100644
--- a/src/api/channel/data.rs
+++ b/src/api/channel/data.rs
@@ -7,19 +7,16 @@
 // Media Patent License 1.0 was not distributed with this source code in the
 // PATENTS file, you can obtain it at www.aomedia.org/license/patent.
 
-use crate::api::color::*;
 use crate::api::config::EncoderConfig;
-use crate::api::context::RcData;
+use crate::api::context::{sequence_header_inner, RcData};
 use crate::api::util::*;
 use crate::encoder::*;
 use crate::frame::*;
 use crate::util::Pixel;
 
-use bitstream_io::{BigEndian, BitWrite, BitWriter};
 use crossbeam::channel::{Receiver, Sender};
 use thiserror::Error;
 
-use std::io;
 use std::sync::Arc;
 
 /// An error returned from the `send` methods.
@@ -347,31 +344,6 @@ impl<T: Pixel> PacketReceiver<T> {
   /// and usually indicates the system is out of memory.
   #[inline]
   pub fn container_sequence_header(&self) -> Vec<u8> {
-    fn sequence_header_inner(seq: &Sequence) -> io::Result<Vec<u8>> {
-      let mut buf = Vec::new();
-
-      {
-        let mut bw = BitWriter::endian(&mut buf, BigEndian);
-        bw.write_bit(true)?; // marker
-        bw.write::<7, u8>(1)?; // version
-        bw.write::<3, u8>(seq.profile)?;
-        bw.write::<5, u8>(31)?; // level
-        bw.write_bit(false)?; // tier
-        bw.write_bit(seq.bit_depth > 8)?; // high_bitdepth
-        bw.write_bit(seq.bit_depth == 12)?; // twelve_bit
-        bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs400)?; // monochrome
-        bw.write_bit(seq.chroma_sampling != ChromaSampling::Cs444)?; // chroma_subsampling_x
-        bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs420)?; // chroma_subsampling_y
-        bw.write::<2, u8>(0)?; // chroma_sample_position
-        bw.write::<3, u8>(0)?; // reserved
-        bw.write_bit(false)?; // initial_presentation_delay_present
-
-        bw.write::<4, u8>(0)?; // reserved
-      }
-
-      Ok(buf)
-    }
-
     let seq = Sequence::new(&self.config);
 
     sequence_header_inner(&seq).unwrap()
diff --git a/src/api/context.rs b/src/api/context.rs
index 9c25f12..093bf52 100644
--- a/src/api/context.rs
+++ b/src/api/context.rs
@@ -339,42 +339,42 @@ impl<T: Pixel> Context<T> {
   /// and usually indicates the system is out of memory.
   #[inline]
   pub fn container_sequence_header(&self) -> Vec<u8> {
-    fn sequence_header_inner(seq: &Sequence) -> io::Result<Vec<u8>> {
-      let mut buf = Vec::new();
-
-      {
-        let mut bw = BitWriter::endian(&mut buf, BigEndian);
-        bw.write_bit(true)?; // marker
-        bw.write::<7, u8>(1)?; // version
-        bw.write::<3, u8>(seq.profile)?;
-        bw.write::<5, u8>(seq.level_idx[0])?; // level
-        bw.write_bit(false)?; // tier
-        bw.write_bit(seq.bit_depth > 8)?; // high_bitdepth
-        bw.write_bit(seq.bit_depth == 12)?; // twelve_bit
-        bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs400)?; // monochrome
-        bw.write_bit(seq.chroma_sampling != ChromaSampling::Cs444)?; // chroma_subsampling_x
-        bw.write_bit(matches!(
-          seq.chroma_sampling,
-          ChromaSampling::Cs400 | ChromaSampling::Cs420
-        ))?; // chroma_subsampling_y
-        bw.write::<2, u8>(if seq.chroma_sampling == ChromaSampling::Cs420 {
-          seq.chroma_sample_position as u8
-        } else {
-          0
-        })?; // chroma_sample_position
-        bw.write::<3, u8>(0)?; // reserved
-        bw.write_bit(false)?; // initial_presentation_delay_present
+    let seq = Sequence::new(&self.config);
 
-        bw.write::<4, u8>(0)?; // reserved
-      }
+    sequence_header_inner(&seq).unwrap()
+  }
+}
 
-      Ok(buf)
-    }
+pub(crate) fn sequence_header_inner(seq: &Sequence) -> io::Result<Vec<u8>> {
+  let mut buf = Vec::new();
 
-    let seq = Sequence::new(&self.config);
+  {
+    let mut bw = BitWriter::endian(&mut buf, BigEndian);
+    bw.write_bit(true)?; // marker
+    bw.write::<7, u8>(1)?; // version
+    bw.write::<3, u8>(seq.profile)?;
+    bw.write::<5, u8>(seq.level_idx[0])?; // level
+    bw.write_bit(false)?; // tier
+    bw.write_bit(seq.bit_depth > 8)?; // high_bitdepth
+    bw.write_bit(seq.bit_depth == 12)?; // twelve_bit
+    bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs400)?; // monochrome
+    bw.write_bit(seq.chroma_sampling != ChromaSampling::Cs444)?; // chroma_subsampling_x
+    bw.write_bit(matches!(
+      seq.chroma_sampling,
+      ChromaSampling::Cs400 | ChromaSampling::Cs420
+    ))?; // chroma_subsampling_y
+    bw.write::<2, u8>(if seq.chroma_sampling == ChromaSampling::Cs420 {
+      seq.chroma_sample_position as u8
+    } else {
+      0
+    })?; // chroma_sample_position
+    bw.write::<3, u8>(0)?; // reserved
+    bw.write_bit(false)?; // initial_presentation_delay_present
 
-    sequence_header_inner(&seq).unwrap()
+    bw.write::<4, u8>(0)?; // reserved
   }
+
+  Ok(buf)
 }
 
 /// Rate Control Data
-- 
2.43.0


From ec81d430d4c8670b7a7f6e44a51a18aa0741c661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:20 +0000
Subject: [PATCH 30/46] fix: a still picture channel accepted more than one
 frame

---
 src/api/channel/by_gop.rs | 2 +-
 src/api/channel/mod.rs    | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/channel/by_gop.rs b/src/api/channel/by_gop.rs
index 387e0a7..5357369 100644
--- a/src/api/channel/by_gop.rs
+++ b/src/api/channel/by_gop.rs
@@ -343,7 +343,7 @@ impl Config {
 
     // TODO: make it user-settable
     let input_len = self.enc.speed_settings.rdo_lookahead_frames as usize * 4;
-    let frame_limit = i32::MAX as u64;
+    let frame_limit = if self.enc.still_picture { 1 } else { i32::MAX as u64 };
 
     let (send_frame, receive_frame) = bounded(input_len);
     let (send_packet, receive_packet) = unbounded();
diff --git a/src/api/channel/mod.rs b/src/api/channel/mod.rs
index d81ccb9..93a4ec3 100644
--- a/src/api/channel/mod.rs
+++ b/src/api/channel/mod.rs
@@ -295,6 +295,9 @@ impl Config {
       (None, None, i32::MAX as u64)
     };
 
+    // A still picture is a single frame.
+    let frame_limit = if self.enc.still_picture { 1 } else { frame_limit };
+
     let config = Arc::new(self.enc.clone());
 
     let channel = (
-- 
2.43.0


From a5b50f9bff7aae8603d20e8d1d29694e5eae380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:43 +0000
Subject: [PATCH 31/46] fix: dropping a channel endpoint early aborted the
 process

The encoder panicked on its thread pool when the packet or pass data
receiver was dropped, when pass data was missing or invalid, and in a
second pass over a single frame. Stop encoding and close the channels
instead.
---
 src/api/channel/by_gop.rs |  6 ++-
 src/api/channel/mod.rs    | 81 ++++++++++++++++++++++-----------------
 2 files changed, 50 insertions(+), 37 deletions(-)

diff --git a/src/api/channel/by_gop.rs b/src/api/channel/by_gop.rs
index 5357369..2ed64dc 100644
--- a/src/api/channel/by_gop.rs
+++ b/src/api/channel/by_gop.rs
@@ -174,7 +174,7 @@ fn workerpool<T: Pixel>(
                   let r = inner.receive_packet();
                   match r {
                     Ok(p) => {
-                      wl.send.send(p).unwrap();
+                      let _ = wl.send.send(p);
                     }
                     Err(EncoderStatus::Encoded) => {}
                     _ => todo!("Error management {:?}", r),
@@ -189,7 +189,9 @@ fn workerpool<T: Pixel>(
 
             loop {
               match inner.receive_packet() {
-                Ok(p) => wl.send.send(p).unwrap(),
+                Ok(p) => {
+                  let _ = wl.send.send(p);
+                }
                 Err(EncoderStatus::LimitReached) => break,
                 Err(EncoderStatus::Encoded) => {}
                 _ => todo!("Error management"),
diff --git a/src/api/channel/mod.rs b/src/api/channel/mod.rs
index 93a4ec3..18fe19f 100644
--- a/src/api/channel/mod.rs
+++ b/src/api/channel/mod.rs
@@ -175,6 +175,7 @@ impl Config {
 }
 
 trait RcFirstPass {
+  // The statistics are discarded once the receiving endpoint is dropped.
   fn send_pass_data(&mut self, rc_state: &mut RCState);
   fn send_pass_summary(&mut self, rc_state: &mut RCState);
 }
@@ -189,7 +190,7 @@ impl RcFirstPass for Sender<RcData> {
   fn send_pass_data(&mut self, rc_state: &mut RCState) {
     if let Some(data) = rc_state.emit_frame_data() {
       let data = data.to_vec().into_boxed_slice();
-      self.send(RcData::Frame(data)).unwrap();
+      let _ = self.send(RcData::Frame(data));
     } else {
       unreachable!(
         "The encoder received more frames than its internal
@@ -200,7 +201,7 @@ impl RcFirstPass for Sender<RcData> {
   fn send_pass_summary(&mut self, rc_state: &mut RCState) {
     let data = rc_state.emit_summary();
     let data = data.to_vec().into_boxed_slice();
-    self.send(RcData::Summary(data)).unwrap();
+    let _ = self.send(RcData::Summary(data));
   }
 }
 
@@ -224,13 +225,17 @@ impl RcSecondPass for Receiver<RcData> {
     while inner.rc_state.twopass_in_frames_needed() > 0
       && !inner.done_processing()
     {
-      if let Ok(RcData::Frame(data)) = self.recv() {
-        inner
-          .rc_state
-          .parse_frame_data_packet(data.as_ref())
-          .unwrap_or_else(|_| todo!("Error reporting"));
-      } else {
-        todo!("Error reporting");
+      match self.recv() {
+        Ok(RcData::Frame(data)) => {
+          if let Err(e) = inner.rc_state.parse_frame_data_packet(&data) {
+            log::error!("Invalid pass data: {}", e);
+            return Err(());
+          }
+        }
+        _ => {
+          log::error!("Missing pass data");
+          return Err(());
+        }
       }
     }
 
@@ -308,26 +313,31 @@ impl Config {
     let pass_channel = (rc_data_sender, rc_data_receiver);
 
     let run = move || {
+      // Encoding stops early, closing every channel, if it cannot continue:
+      // nobody receives the packets or the pass data is missing or invalid.
       for f in receive_frame.iter() {
         // info!("frame in {}", inner.frame_count);
         while !inner.needs_more_fi_lookahead() {
-          receive_rc_pass2.feed_pass_data(&mut inner).unwrap();
-          // needs_more_fi_lookahead() should guard for missing output_frameno
-          // already.
-          //
-          // this call should return either Ok or Err(Encoded)
-          let has_pass_data = match inner.receive_packet() {
+          if receive_rc_pass2.feed_pass_data(&mut inner).is_err() {
+            return;
+          }
+          match inner.receive_packet() {
             Ok(p) => {
-              send_packet.send(p).unwrap();
-              true
+              if send_packet.send(p).is_err() {
+                return;
+              }
+            }
+            Err(EncoderStatus::Encoded) => {}
+            // Knowing the number of frames in advance needs_more_fi_lookahead()
+            // does not guard for the frames that have not been sent yet.
+            Err(EncoderStatus::NeedMoreData)
+            | Err(EncoderStatus::LimitReached) => break,
+            Err(e) => {
+              log::error!("Encoding failed: {}", e);
+              return;
             }
-            Err(EncoderStatus::Encoded) => true,
-            Err(EncoderStatus::NotReady) => todo!("Error reporting"),
-            _ => unreachable!(),
-          };
-          if has_pass_data {
-            send_rc_pass1.send_pass_data(&mut inner.rc_state);
           }
+          send_rc_pass1.send_pass_data(&mut inner.rc_state);
         }
 
         let (frame, params) = f;
@@ -338,23 +348,24 @@ impl Config {
       let _ = inner.send_frame(None, None);
 
       loop {
-        receive_rc_pass2.feed_pass_data(&mut inner).unwrap();
-        let r = inner.receive_packet();
-        let has_pass_data = match r {
+        if receive_rc_pass2.feed_pass_data(&mut inner).is_err() {
+          return;
+        }
+        match inner.receive_packet() {
           Ok(p) => {
             // warn!("Sending out {}", p.input_frameno);
-            send_packet.send(p).unwrap();
-            true
+            if send_packet.send(p).is_err() {
+              return;
+            }
           }
           Err(EncoderStatus::LimitReached) => break,
-          Err(EncoderStatus::Encoded) => true,
-          Err(EncoderStatus::NotReady) => todo!("Error reporting"),
-          _ => unreachable!(),
-        };
-
-        if has_pass_data {
-          send_rc_pass1.send_pass_data(&mut inner.rc_state);
+          Err(EncoderStatus::Encoded) => {}
+          Err(e) => {
+            log::error!("Encoding failed: {}", e);
+            return;
+          }
         }
+        send_rc_pass1.send_pass_data(&mut inner.rc_state);
       }
 
       send_rc_pass1.send_pass_summary(&mut inner.rc_state);
-- 
2.43.0


From 6ab4563fcdfb1ec792eac1f46a268d1e212cae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:41 +0000
Subject: [PATCH 32/46] fix: distortion of edge blocks ignored the last columns
 and rows

get_weighted_sse() skipped the pixels beyond the last whole 4x4 chunk, so
the distortion seen by RDO for blocks clipped by the edge of a frame whose
size is not a multiple of 4 could be zero whatever the residual, leaving
the edge of inter frames uncoded.
---
 src/dist.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/dist.rs b/src/dist.rs
index 3fa3c11..3f508d4 100644
--- a/src/dist.rs
+++ b/src/dist.rs
@@ -236,30 +236,34 @@ pub(crate) mod rust {
     scale_stride: usize, w: usize, h: usize, _bit_depth: usize,
     _cpu: CpuFeatureLevel,
   ) -> u64 {
-    let src1 = src1.subregion(Area::Rect { x: 0, y: 0, width: w, height: h });
     // Always chunk and apply scaling on the sse of squares the size of
     // decimated/sub-sampled importance block sizes.
+    // The chunks at the right and bottom edges are smaller if the dimensions
+    // are not a multiple of the chunk size.
     // Warning: Changing this will require changing/disabling assembly.
     let chunk_size: usize = IMPORTANCE_BLOCK_SIZE >> 1;
 
     // Iterator of a row of scales, stretched out to be per row
     let scales = scale.chunks_exact(scale_stride);
 
-    let sse = src1
-      .vert_windows(chunk_size)
+    let sse = (0..h)
       .step_by(chunk_size)
-      .zip(src2.vert_windows(chunk_size).step_by(chunk_size))
       .zip(scales)
-      .map(|((row1, row2), scales)| {
-        row1
-          .horz_windows(chunk_size)
+      .map(|(y, scales)| {
+        (0..w)
           .step_by(chunk_size)
-          .zip(row2.horz_windows(chunk_size).step_by(chunk_size))
           .zip(scales)
-          .map(|((chunk1, chunk2), &scale)| {
-            let sum = chunk1
+          .map(|(x, &scale)| {
+            let area = Area::Rect {
+              x: x as isize,
+              y: y as isize,
+              width: chunk_size.min(w - x),
+              height: chunk_size.min(h - y),
+            };
+            let sum = src1
+              .subregion(area)
               .rows_iter()
-              .zip(chunk2.rows_iter())
+              .zip(src2.subregion(area).rows_iter())
               .map(|(chunk_row1, chunk_row2)| {
                 chunk_row1
                   .iter()
-- 
2.43.0


From 0864fc9cd24c0c0839ed1e801c871f80470ee2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:32 +0000
Subject: [PATCH 33/46] fix: huge pass data lengths overflowed or looked like
 success in the C API

---
 src/capi.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/capi.rs b/src/capi.rs
index 44011d7..07c68f4 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -460,7 +460,12 @@ unsafe fn decode_slice<'a>(
 
   let buf = slice::from_raw_parts(*data, *len as usize);
   let (len_bytes, rest) = buf.split_at(std::mem::size_of::<u64>());
-  let buf_len = u64::from_be_bytes(len_bytes.try_into().unwrap()) as usize;
+  let buf_len = u64::from_be_bytes(len_bytes.try_into().unwrap());
+  // The amount of data needed has to be representable.
+  if buf_len > c_int::MAX as u64 - 8 {
+    return (-1, None);
+  }
+  let buf_len = buf_len as usize;
   let full_len = buf_len + 8;
   if buf_len > rest.len() {
     return (full_len as c_int, None);
-- 
2.43.0


From 08e7fa8b48895c762494161d0d673dd8f2469c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:32 +0000
Subject: [PATCH 34/46] fix: level options below 2.0 overflowed in the C API

---
 src/capi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capi.rs b/src/capi.rs
index 07c68f4..43a4395 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -737,7 +737,7 @@ unsafe fn option_match(
         _ => {
           let (major, minor) =
             scan_fmt!(value, "{}.{}", u8, u8).map_err(|_| ())?;
-          if major > 7 || minor > 3 {
+          if !(2..=7).contains(&major) || minor > 3 {
             return Err(());
           }
           Some(((major - 2) << 2) + minor)
-- 
2.43.0


From eb3a3a4260866867dac2d3c3fda1a5b9e92d0c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:32 +0000
Subject: [PATCH 35/46] fix: refilling a frame that had been sent aborted the
 process

rav1e_frame_fill_plane() on a frame the encoder still references panicked.
Copy the frame in that case.
---
 src/capi.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/capi.rs b/src/capi.rs
index 43a4395..1092090 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -1265,7 +1265,8 @@ fn rav1e_frame_fill_plane_internal<T: rav1e::Pixel>(
   f: &mut Arc<rav1e::Frame<T>>, plane: c_int, data_slice: &[u8],
   stride: ptrdiff_t, bytewidth: c_int,
 ) {
-  let input = Arc::get_mut(f).unwrap();
+  // The frame may still be in use by the encoder if it had been sent already.
+  let input = Arc::make_mut(f);
   input.planes[plane as usize].copy_from_raw_u8(
     data_slice,
     stride as usize,
-- 
2.43.0


From d73e97507998ae019a4549bc1cfbb4a3ce0c7143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:26 +0000
Subject: [PATCH 36/46] fix: count the chroma distortion of blocks whose luma
 is off the frame

The chroma of a block smaller than 8x8 covers up to three preceding blocks
as well. Where a frame ends in the first half of an 8x8 block, the block
that carries the chroma has no visible luma and its distortion was taken
as zero, so that arbitrary chroma was chosen for visible samples.
---
 src/rdo.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/rdo.rs b/src/rdo.rs
index 3f6bfb4..c0a6d55 100644
--- a/src/rdo.rs
+++ b/src/rdo.rs
@@ -178,6 +178,12 @@ pub fn sse_wxh<T: Pixel, F: Fn(Area, BlockSize) -> DistortionScale>(
   src1: &PlaneRegion<'_, T>, src2: &PlaneRegion<'_, T>, w: usize, h: usize,
   compute_bias: F, bit_depth: usize, cpu: CpuFeatureLevel,
 ) -> Distortion {
+  // Nothing of the block is visible. The chroma of a block smaller than 8x8
+  // also covers the blocks before it, and can be visible when its luma is not.
+  if w == 0 || h == 0 {
+    return Distortion::zero();
+  }
+
   // See get_weighted_sse in src/dist.rs.
   // Provide a scale to get_weighted_sse for each square region of this size.
   const CHUNK_SIZE: usize = IMPORTANCE_BLOCK_SIZE >> 1;
@@ -269,10 +275,6 @@ fn compute_distortion<T: Pixel>(
     frame_bo.0.y << MI_SIZE_LOG2,
   );
 
-  if visible_w == 0 || visible_h == 0 {
-    return ScaledDistortion::zero();
-  }
-
   let mut distortion = match fi.config.tune {
     Tune::Psychovisual => cdef_dist_wxh(
       &input_region,
@@ -369,10 +371,6 @@ fn compute_tx_distortion<T: Pixel>(
     )
   };
 
-  if visible_w == 0 || visible_h == 0 {
-    return ScaledDistortion::zero();
-  }
-
   let mut distortion = if skip {
     sse_wxh(
       &input_region,
-- 
2.43.0


From 8387123e84518f92261acc86603336711b740c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:50 +0000
Subject: [PATCH 37/46] fix: invalid command line options ended in a panic

Report unparsable, unsupported and out of range option values, film grain
tables, configuration files and output extensions as errors like the
others. Loading and saving a configuration conflict by argument id.
---
 src/bin/common.rs    | 76 ++++++++++++++++++++++++--------------------
 src/bin/muxer/mod.rs |  6 ++--
 2 files changed, 45 insertions(+), 37 deletions(-)

diff --git a/src/bin/common.rs b/src/bin/common.rs
index 7fa0ed4..f614ca3 100644
--- a/src/bin/common.rs
+++ b/src/bin/common.rs
@@ -322,7 +322,7 @@ pub enum Commands {
     #[clap(long, short, value_parser)]
     save_config: Option<PathBuf>,
     /// Load the encoder configuration from a toml file
-    #[clap(long, short, value_parser, conflicts_with = "save-config")]
+    #[clap(long, short, value_parser, conflicts_with = "save_config")]
     load_config: Option<PathBuf>,
   },
 }
@@ -426,7 +426,9 @@ pub fn parse_cli() -> Result<ParsedCliOptions, CliError> {
               .and_then(|mut f| f.read_to_string(&mut config))
               .map_err(|e| e.context("Cannot open the configuration file"))?;
 
-            enc = Some(toml::from_str(&config).unwrap());
+            enc = Some(toml::from_str(&config).map_err(|e| {
+              CliError::new(&format!("Invalid configuration file: {e}"))
+            })?);
           }
         }
         #[cfg(not(feature = "serialize"))]
@@ -484,7 +486,9 @@ pub fn parse_cli() -> Result<ParsedCliOptions, CliError> {
 
   let limit = matches.limit;
   if enc.still_picture && limit > 1 {
-    panic!("A limit cannot be set above 1 in still picture mode");
+    return Err(CliError::new(
+      "A limit cannot be set above 1 in still picture mode",
+    ));
   }
 
   #[cfg(feature = "unstable")]
@@ -529,13 +533,15 @@ fn parse_config(matches: &CliOptions) -> Result<EncoderConfig, CliError> {
   if bitrate <= 0
     && (matches.first_pass.is_some() || matches.second_pass.is_some())
   {
-    panic!("A target bitrate must be specified when using passes");
+    return Err(CliError::new(
+      "A target bitrate must be specified when using passes",
+    ));
   }
 
   if quantizer == 0 {
-    unimplemented!("Lossless encoding not yet implemented");
+    return Err(CliError::new("Lossless encoding not yet implemented"));
   } else if quantizer > 255 {
-    panic!("Quantizer must be between 0-255");
+    return Err(CliError::new("Quantizer must be between 0-255"));
   }
 
   let speed = matches.speed;
@@ -544,9 +550,9 @@ fn parse_config(matches: &CliOptions) -> Result<EncoderConfig, CliError> {
   let min_interval = matches.min_keyint.min(max_interval);
 
   if speed > 10 {
-    panic!("Speed must be between 0-10");
+    return Err(CliError::new("Speed must be between 0-10"));
   } else if min_interval > max_interval {
-    panic!("Maximum keyframe interval must be greater than or equal to minimum keyframe interval");
+    return Err(CliError::new("Maximum keyframe interval must be greater than or equal to minimum keyframe interval"));
   }
 
   let color_primaries = matches.primaries.unwrap_or_default();
@@ -561,9 +567,9 @@ fn parse_config(matches: &CliOptions) -> Result<EncoderConfig, CliError> {
       "unconstrained" => Some(31),
       _ => {
         let (major, minor) = scan_fmt!(level_str, "{}.{}", u8, u8)
-          .expect("Could not parse AV1 level");
-        if major > 7 || minor > 3 {
-          panic!("Invalid AV1 level")
+          .map_err(|_| CliError::new("Could not parse AV1 level"))?;
+        if !(2..=7).contains(&major) || minor > 3 {
+          return Err(CliError::new("Invalid AV1 level"));
         }
         Some(((major - 2) << 2) + minor)
       }
@@ -596,7 +602,7 @@ fn parse_config(matches: &CliOptions) -> Result<EncoderConfig, CliError> {
     })
   };
 
-  cfg.mastering_display = matches.mastering_display.as_ref().map(|mastering_display| {
+  cfg.mastering_display = matches.mastering_display.as_ref().map(|mastering_display| -> Result<_, CliError> {
     let (g_x, g_y, b_x, b_y, r_x, r_y, wp_x, wp_y, max_lum, min_lum) =
       scan_fmt!(
         mastering_display,
@@ -612,7 +618,7 @@ fn parse_config(matches: &CliOptions) -> Result<EncoderConfig, CliError> {
         f64,
         f64
       )
-      .expect("Cannot parse the mastering display option");
+      .map_err(|_| CliError::new("Cannot parse the mastering display option"))?;
 
     /* AV1 spec sec. 6.7.4 "Metadata high dynamic range mastering display color volume semantics"
      * specifies chromaticity coords as 0.16 fixed-point numbers, which have a max float value
@@ -633,7 +639,7 @@ fn parse_config(matches: &CliOptions) -> Result<EncoderConfig, CliError> {
       );
     }
 
-    MasteringDisplay {
+    Ok(MasteringDisplay {
       primaries: [
         ChromaticityPoint {
           x: (r_x * ((1 << 16) as f64)).round() as u16,
@@ -654,28 +660,27 @@ fn parse_config(matches: &CliOptions) -> Result<EncoderConfig, CliError> {
       },
       max_luminance: (max_lum * ((1 << 8) as f64)).round() as u32,
       min_luminance: (min_lum * ((1 << 14) as f64)).round() as u32,
+    })
+  }).transpose()?;
+
+  if let Some(content_light) = &matches.content_light {
+    let (cll, fall) = scan_fmt!(content_light, "{},{}", u16, u16)
+      .map_err(|_| CliError::new("Cannot parse the content light option"))?;
+    if cll != 0 || fall != 0 {
+      cfg.content_light = Some(ContentLight {
+        max_content_light_level: cll,
+        max_frame_average_light_level: fall,
+      });
     }
-  });
-
-  cfg.content_light =
-    matches.content_light.as_ref().and_then(|content_light| {
-      let (cll, fall) = scan_fmt!(content_light, "{},{}", u16, u16)
-        .expect("Cannot parse the content light option");
-      if cll == 0 && fall == 0 {
-        None
-      } else {
-        Some(ContentLight {
-          max_content_light_level: cll,
-          max_frame_average_light_level: fall,
-        })
-      }
-    });
+  }
 
   cfg.still_picture = matches.still_picture;
 
   cfg.quantizer = quantizer;
   cfg.min_quantizer = matches.min_quantizer.unwrap_or(0);
-  cfg.bitrate = bitrate.checked_mul(1000).expect("Bitrate too high");
+  cfg.bitrate = bitrate
+    .checked_mul(1000)
+    .ok_or_else(|| CliError::new("Bitrate too high"))?;
   cfg.reservoir_frame_delay = matches.reservoir_frame_delay;
 
   if let Some(rdo_frames) = matches.rdo_lookahead_frames {
@@ -694,14 +699,17 @@ fn parse_config(matches: &CliOptions) -> Result<EncoderConfig, CliError> {
   cfg.tiles = matches.tiles.unwrap_or(0);
 
   if cfg.tile_cols > 64 || cfg.tile_rows > 64 {
-    panic!("Tile columns and rows may not be greater than 64");
+    return Err(CliError::new(
+      "Tile columns and rows may not be greater than 64",
+    ));
   }
 
   if let Some(table_file) = matches.film_grain_table.as_ref() {
     let contents = std::fs::read_to_string(table_file)
-      .expect("Failed to read film grain table file");
-    let table = av1_grain::parse_grain_table(&contents)
-      .expect("Failed to parse film grain table");
+      .map_err(|e| e.context("Failed to read film grain table file"))?;
+    let table = av1_grain::parse_grain_table(&contents).map_err(|e| {
+      CliError::new(&format!("Failed to parse film grain table: {e}"))
+    })?;
     if !table.is_empty() {
       cfg.film_grain_params = Some(table);
     }
diff --git a/src/bin/muxer/mod.rs b/src/bin/muxer/mod.rs
index 1b8cda4..4b31693 100644
--- a/src/bin/muxer/mod.rs
+++ b/src/bin/muxer/mod.rs
@@ -54,8 +54,8 @@ pub fn create_muxer<P: AsRef<Path>>(
 
   match &ext[..] {
     "ivf" => IvfMuxer::open(path),
-    _e => {
-      panic!("{ext} is not a supported extension, please change to .ivf");
-    }
+    _ => Err(CliError::new(&format!(
+      "{ext} is not a supported extension, please change to .ivf"
+    ))),
   }
 }
-- 
2.43.0


From ebe104d86a88210783c1b9951a6bdd7380bb7255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:30 +0000
Subject: [PATCH 38/46] fix: the length of damaged two-pass data could exhaust
 the memory

Do not allocate the length found in the file before the data was read.
---
 src/bin/rav1e.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index bf1e970..0d6dcc1 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -107,6 +107,20 @@ impl<D: Decoder> Source<D> {
   }
 }
 
+// Read a packet of two-pass data, without trusting its length.
+fn read_pass_data(passfile: &mut File) -> std::io::Result<Vec<u8>> {
+  let mut buflen = [0u8; 8];
+  passfile.read_exact(&mut buflen)?;
+  let len = u64::from_be_bytes(buflen);
+
+  let mut data = Vec::new();
+  passfile.take(len).read_to_end(&mut data)?;
+  if data.len() as u64 != len {
+    return Err(std::io::ErrorKind::UnexpectedEof.into());
+  }
+  Ok(data)
+}
+
 // Encode and write a frame.
 // Returns frame information in a `Result`.
 #[profiling::function]
@@ -124,14 +138,7 @@ fn process_frame<T: Pixel, D: Decoder>(
   // Submit first pass data to pass 2.
   if let Some(passfile) = pass2file.as_mut() {
     while ctx.rc_second_pass_data_required() > 0 {
-      let mut buflen = [0u8; 8];
-      passfile
-        .read_exact(&mut buflen)
-        .map_err(|e| e.context("Unable to read the two-pass data file."))?;
-      let mut data = vec![0u8; u64::from_be_bytes(buflen) as usize];
-
-      passfile
-        .read_exact(&mut data)
+      let data = read_pass_data(passfile)
         .map_err(|e| e.context("Unable to read the two-pass data file."))?;
 
       ctx
@@ -454,13 +461,7 @@ fn run() -> Result<(), error::CliError> {
       let mut f = File::open(f).map_err(|e| {
         e.context("Unable to open file for reading two-pass data")
       })?;
-      let mut buflen = [0u8; 8];
-      f.read_exact(&mut buflen)
-        .map_err(|e| e.context("Summary data too short"))?;
-      let len = i64::from_be_bytes(buflen);
-      let mut buf = vec![0u8; len as usize];
-
-      f.read_exact(&mut buf)
+      let buf = read_pass_data(&mut f)
         .map_err(|e| e.context("Summary data too short"))?;
 
       rc = RateControlConfig::from_summary_slice(&buf)
-- 
2.43.0


From c1938ad493e1a28477f8446094d043610e0648c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:47 +0000
Subject: [PATCH 39/46] fix: damaged input ended the video without an error

Only the end of the input ends the video; a frame that cannot be parsed or
read is an error.
---
 src/bin/rav1e.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index 0d6dcc1..1f7cdd9 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -24,7 +24,7 @@ use crate::stats::*;
 use rav1e::config::CpuFeatureLevel;
 use rav1e::prelude::*;
 
-use crate::decoder::{Decoder, FrameBuilder, VideoDetails};
+use crate::decoder::{DecodeError, Decoder, FrameBuilder, VideoDetails};
 use crate::muxer::*;
 use std::fs::File;
 use std::io::{Read, Seek, Write};
@@ -99,9 +99,10 @@ impl<D: Decoder> Source<D> {
         self.count += 1;
         let _ = ctx.send_frame(Some(Arc::new(frame)));
       }
-      _ => {
+      Err(DecodeError::EOF) => {
         ctx.flush();
       }
+      Err(_) => return Err(CliError::new("Could not read the input video")),
     };
     Ok(())
   }
-- 
2.43.0


From cb5fd6bbf37c20d9b9fce3518d03b8b06c8748d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 40/46] fix: metrics that cannot be computed ended in a panic

The metrics other than PSNR need chroma planes, and none of them accepts
8-bit video in 16-bit storage.
---
 src/bin/rav1e.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index 1f7cdd9..a592406 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -401,6 +401,24 @@ fn run() -> Result<(), error::CliError> {
     Ok(d) => d,
   };
   let video_info = y4m_dec.get_video_details();
+
+  // The metrics are not defined for these
+  if cli.metrics_enabled == MetricsEnabled::All
+    && video_info.chroma_sampling == ChromaSampling::Cs400
+  {
+    return Err(CliError::new(
+      "Monochrome video does not have metrics other than PSNR",
+    ));
+  }
+  if cli.metrics_enabled != MetricsEnabled::None
+    && video_info.bit_depth == 8
+    && cli.force_highbitdepth
+  {
+    return Err(CliError::new(
+      "Metrics cannot be computed for 8-bit video in the high bitdepth codepath",
+    ));
+  }
+
   let y4m_enc = cli.io.rec.map(|rec| {
     y4m::encode(
       video_info.width,
-- 
2.43.0


From 9760d1e1ce1e284ce3f935af20dccd0784f5bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 41/46] fix: panics on configurations TOML cannot hold and on
 odd answers

---
 src/bin/muxer/ivf.rs | 2 +-
 src/bin/rav1e.rs     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bin/muxer/ivf.rs b/src/bin/muxer/ivf.rs
index 8b1333b..a6b7e85 100644
--- a/src/bin/muxer/ivf.rs
+++ b/src/bin/muxer/ivf.rs
@@ -73,7 +73,7 @@ impl IvfMuxer {
       let mut option_input = String::new();
       io::stdin()
         .read_line(&mut option_input)
-        .expect("Failed to read option.");
+        .map_err(|e| e.context("Failed to read option."))?;
 
       match option_input.as_str().trim() {
         "y" | "Y" => return Ok(()),
diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index a592406..c34b937 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -512,7 +512,9 @@ fn run() -> Result<(), error::CliError> {
     if let Some(save_config) = cli.save_config {
       let mut out = File::create(save_config)
         .map_err(|e| e.context("Cannot create configuration file"))?;
-      let s = toml::to_string(&cli.enc).unwrap();
+      let s = toml::to_string(&cli.enc).map_err(|e| {
+        CliError::new(&format!("Cannot save the configuration: {e}"))
+      })?;
       out
         .write_all(s.as_bytes())
         .map_err(|e| e.context("Cannot write the configuration file"))?
-- 
2.43.0


From 56d91c67feb014f3da370885fd837df1df457ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 42/46] fix: --limit could end in a panic

A limit with no input frame at all divided by zero when the estimated size
was shown, and room for as many frames as the limit was reserved up front,
which aborted for limits nobody has the memory for.
---
 src/bin/stats.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bin/stats.rs b/src/bin/stats.rs
index 7a592cb..3559659 100644
--- a/src/bin/stats.rs
+++ b/src/bin/stats.rs
@@ -99,7 +99,7 @@ impl ProgressInfo {
       frame_rate,
       total_frames,
       time_started: Instant::now(),
-      frame_info: Vec::with_capacity(total_frames.unwrap_or_default()),
+      frame_info: Vec::new(),
       encoded_size: 0,
       metrics_enabled,
     }
@@ -135,7 +135,12 @@ impl ProgressInfo {
   pub fn estimated_size(&self) -> usize {
     self
       .total_frames
-      .map(|frames| self.encoded_size * frames / self.frames_encoded())
+      .and_then(|frames| {
+        self
+          .encoded_size
+          .saturating_mul(frames)
+          .checked_div(self.frames_encoded())
+      })
       .unwrap_or_default()
   }
 
-- 
2.43.0


From c0ce70434d99f47f65cf128b16da110e7d026c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:11 +0000
Subject: [PATCH 43/46] fix: samples beyond the bit depth of the input ended in
 a panic

The encoder relies on the samples of a frame being within its bit depth.
---
 src/bin/decoder/y4m.rs | 55 ++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/src/bin/decoder/y4m.rs b/src/bin/decoder/y4m.rs
index 57056b0..ddd72ed 100644
--- a/src/bin/decoder/y4m.rs
+++ b/src/bin/decoder/y4m.rs
@@ -45,34 +45,41 @@ impl Decoder for y4m::Decoder<Box<dyn Read + Send>> {
     &mut self, ctx: &F, cfg: &VideoDetails,
   ) -> Result<Frame<T>, DecodeError> {
     let bytes = self.get_bytes_per_sample();
-    self
-      .read_frame()
-      .map(|frame| {
-        let mut f = ctx.new_frame();
+    let bit_depth = self.get_bit_depth();
+    self.read_frame().map_err(DecodeError::from).and_then(|frame| {
+      // The encoder relies on the samples being within the bit depth.
+      if bytes == 2
+        && [frame.get_y_plane(), frame.get_u_plane(), frame.get_v_plane()]
+          .iter()
+          .flat_map(|plane| plane.chunks_exact(2))
+          .any(|s| u16::from_le_bytes([s[0], s[1]]) >> bit_depth != 0)
+      {
+        return Err(DecodeError::BadInput);
+      }
+      let mut f = ctx.new_frame();
 
-        let (chroma_width, _) =
-          cfg.chroma_sampling.get_chroma_dimensions(cfg.width, cfg.height);
+      let (chroma_width, _) =
+        cfg.chroma_sampling.get_chroma_dimensions(cfg.width, cfg.height);
 
-        f.planes[0].copy_from_raw_u8(
-          frame.get_y_plane(),
-          cfg.width * bytes,
+      f.planes[0].copy_from_raw_u8(
+        frame.get_y_plane(),
+        cfg.width * bytes,
+        bytes,
+      );
+      if cfg.chroma_sampling != Cs400 {
+        f.planes[1].copy_from_raw_u8(
+          frame.get_u_plane(),
+          chroma_width * bytes,
           bytes,
         );
-        if cfg.chroma_sampling != Cs400 {
-          f.planes[1].copy_from_raw_u8(
-            frame.get_u_plane(),
-            chroma_width * bytes,
-            bytes,
-          );
-          f.planes[2].copy_from_raw_u8(
-            frame.get_v_plane(),
-            chroma_width * bytes,
-            bytes,
-          );
-        }
-        f
-      })
-      .map_err(Into::into)
+        f.planes[2].copy_from_raw_u8(
+          frame.get_v_plane(),
+          chroma_width * bytes,
+          bytes,
+        );
+      }
+      Ok(f)
+    })
   }
 }
 
-- 
2.43.0


From ede8ebff2dbea984397645c00790460afc3747b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:45 +0000
Subject: [PATCH 44/46] fix: film grain parameters AV1 cannot represent were
 accepted

Points that do not increase made a stream decoders refuse, other values out
of range panicked or were cut off when the frame header was written.
---
 src/api/config/mod.rs | 72 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 72 insertions(+)

diff --git a/src/api/config/mod.rs b/src/api/config/mod.rs
index 11defef..0ab0c7d 100644
--- a/src/api/config/mod.rs
+++ b/src/api/config/mod.rs
@@ -127,6 +127,10 @@ pub enum InvalidConfig {
   /// The configuration exceeded the specified level constraints.
   #[error("Constraints exceeded for specified level")]
   LevelConstraintsExceeded,
+
+  /// The film grain parameters cannot be represented in AV1.
+  #[error("Invalid film grain parameters")]
+  InvalidFilmGrainParams,
 }
 
 /// Contains the encoder configuration.
@@ -211,6 +215,65 @@ fn check_tile_log2(n: usize) -> bool {
   ((1 << tile_log2) - n) == 0 || n == 0
 }
 
+/// Whether the film grain parameters meet the constraints of
+/// <https://aomediacodec.github.io/av1-spec/#film-grain-params-semantics>
+fn check_film_grain(
+  grain: &GrainTableSegment, chroma_sampling: ChromaSampling,
+) -> bool {
+  let increasing =
+    |points: &[[u8; 2]]| points.windows(2).all(|p| p[0][0] < p[1][0]);
+
+  let lag = grain.ar_coeff_lag as usize;
+  if lag > 3
+    || !(6..=9).contains(&grain.ar_coeff_shift)
+    || !(8..=11).contains(&grain.scaling_shift)
+    || grain.grain_scale_shift > 3
+  {
+    return false;
+  }
+
+  let has_luma_points = !grain.scaling_points_y.is_empty();
+  let num_pos_luma = 2 * lag * (lag + 1);
+  if !increasing(&grain.scaling_points_y)
+    || (has_luma_points && grain.ar_coeffs_y.len() < num_pos_luma)
+  {
+    return false;
+  }
+
+  if chroma_sampling == ChromaSampling::Cs400 {
+    return true;
+  }
+
+  // Chroma points are not coded when they cannot apply.
+  let from_luma = grain.chroma_scaling_from_luma;
+  let has_chroma_points = !from_luma
+    && (chroma_sampling != ChromaSampling::Cs420 || has_luma_points);
+  let has_cb_points = has_chroma_points && !grain.scaling_points_cb.is_empty();
+  let has_cr_points = has_chroma_points && !grain.scaling_points_cr.is_empty();
+  if chroma_sampling == ChromaSampling::Cs420 && has_cb_points != has_cr_points
+  {
+    return false;
+  }
+
+  let num_pos_chroma = num_pos_luma + has_luma_points as usize;
+  let plane_valid =
+    |has_points: bool, points: &[[u8; 2]], coeffs: &[i8], offset: u16| {
+      (!has_points || (increasing(points) && offset < 512))
+        && (!(from_luma || has_points) || coeffs.len() >= num_pos_chroma)
+    };
+  plane_valid(
+    has_cb_points,
+    &grain.scaling_points_cb,
+    &grain.ar_coeffs_cb,
+    grain.cb_offset,
+  ) && plane_valid(
+    has_cr_points,
+    &grain.scaling_points_cr,
+    &grain.ar_coeffs_cr,
+    grain.cr_offset,
+  )
+}
+
 impl Config {
   pub(crate) fn new_inner<T: Pixel>(
     &self,
@@ -431,6 +494,15 @@ impl Config {
       }
     }
 
+    if let Some(segments) = &config.film_grain_params {
+      if !segments
+        .iter()
+        .all(|segment| check_film_grain(segment, config.chroma_sampling))
+      {
+        return Err(InvalidFilmGrainParams);
+      }
+    }
+
     // TODO: add more validation
     let rc = &self.rate_control;
 
-- 
2.43.0


From 023c0833ce65597ebf9b58540593ed152cb3fa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:02 +0000
Subject: [PATCH 45/46] fix: metrics of planes smaller than a metric's block
 ended in a panic

---
 src/bin/rav1e.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index c34b937..072a112 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -410,6 +410,16 @@ fn run() -> Result<(), error::CliError> {
       "Monochrome video does not have metrics other than PSNR",
     ));
   }
+  let (chroma_width, chroma_height) = video_info
+    .chroma_sampling
+    .get_chroma_dimensions(video_info.width, video_info.height);
+  if cli.metrics_enabled == MetricsEnabled::All
+    && chroma_width.min(chroma_height) < 8
+  {
+    return Err(CliError::new(
+      "Metrics other than PSNR need planes of at least 8x8 samples",
+    ));
+  }
   if cli.metrics_enabled != MetricsEnabled::None
     && video_info.bit_depth == 8
     && cli.force_highbitdepth
-- 
2.43.0


From c32a946c8b2876fe5adeb7b8a86b5ed2ca24b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:20 +0000
Subject: [PATCH 46/46] fix: a segment could become lossless for decoders

Segments keep their quantizer offsets between key frames, so a finer base
quantizer can bring one down to index 0. Blocks were kept out of such
segments only when their segment is coded: skipped blocks can end up in one
by prediction and are lossless to a decoder, unlike in the encoder.
---
 src/segmentation.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/segmentation.rs b/src/segmentation.rs
index a733398..7678d29 100644
--- a/src/segmentation.rs
+++ b/src/segmentation.rs
@@ -34,23 +34,22 @@ pub fn segmentation_optimize<T: Pixel>(
 
     // Avoid going into lossless mode by never bringing qidx below 1.
     // Because base_q_idx changes more frequently than the segmentation
-    // data, it is still possible for a segment to enter lossless, so
-    // enforcement elsewhere is needed.
+    // data, it is still possible for a segment to enter lossless. It is not
+    // enough not to code this segment in that case: blocks which are skipped
+    // can end up in it by prediction, and are lossless to a decoder.
     let offset_lower_limit = 1 - fi.base_q_idx as i16;
 
     if !fs.segmentation.update_data {
-      let mut min_segment = MAX_SEGMENTS;
       for i in 0..MAX_SEGMENTS {
         if fs.segmentation.features[i][SegLvl::SEG_LVL_ALT_Q as usize]
           && fs.segmentation.data[i][SegLvl::SEG_LVL_ALT_Q as usize]
-            >= offset_lower_limit
+            < offset_lower_limit
         {
-          min_segment = i;
-          break;
+          fs.segmentation.data[i][SegLvl::SEG_LVL_ALT_Q as usize] =
+            offset_lower_limit;
+          fs.segmentation.update_data = true;
         }
       }
-      assert_ne!(min_segment, MAX_SEGMENTS);
-      fs.segmentation.min_segment = min_segment as u8;
       fs.segmentation.update_threshold(fi.base_q_idx, fi.config.bit_depth);
       return;
     }
-- 
2.43.0

