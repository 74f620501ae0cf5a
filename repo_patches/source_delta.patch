From fee96b299000c20fae256f9afa6786aeb2512a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:18 +0000
Subject: [PATCH 01/19] fix: decode half 0x7BFF as 65504 in the SIMD path, not
 NaN

---
 src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index 04afc31..d2629d0 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -930,7 +930,7 @@ pub(crate) fn simd_f16_to_f32(half4: [u16; 4]) -> f32x4 {
     let expmant = MASK_NO_SIGN & int4;
     let shifted = expmant << 13;
     let scaled = fx4(shifted) * MAGIC;
-    let was_infnan = i32x4::simd_ge(expmant, WAS_INFNAN).to_int();
+    let was_infnan = i32x4::simd_gt(expmant, WAS_INFNAN).to_int();
     let sign = (int4 ^ expmant) << 16;
     let infnanexp = was_infnan & EXP_INFNAN;
     let sign_inf = sign | infnanexp;
-- 
2.43.0


From 5d4fa33e5b22c7fcbcd6d1d3a871004e4a78835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:39 +0000
Subject: [PATCH 02/19] fix: sampling with a context larger than the animation

Cache initialisation and decompression used the context's capacity instead of
the animation's number of tracks, so sampling with a larger context panicked,
or read stale cache entries after switching to a smaller animation.
---
 src/sampling_job.rs | 51 ++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index a87a9de..a1b80a8 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -577,19 +577,22 @@ impl SamplingContext {
         UpdateArgs {
             num_tracks: animation.num_tracks(),
             num_soa_tracks: animation.num_soa_tracks(),
-            entries: unsafe { slice::from_raw_parts_mut(inner.translation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.translation_outdated, inner.max_outdated) },
+            entries: unsafe { slice::from_raw_parts_mut(inner.translation_entries, animation.num_soa_tracks() * 4) },
+            outdated: unsafe {
+                slice::from_raw_parts_mut(inner.translation_outdated, animation.num_soa_tracks().div_ceil(8))
+            },
             next: &mut inner.translation_next,
         }
     }
 
     #[inline]
-    fn translation_decompress_args(&self) -> DecompressArgs<'_, InterpSoaFloat3> {
+    fn translation_decompress_args(&self, animation: &Animation) -> DecompressArgs<'_, InterpSoaFloat3> {
         let inner = self.inner();
+        let num_soa_tracks = animation.num_soa_tracks();
         DecompressArgs {
-            entries: unsafe { slice::from_raw_parts(inner.translation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.translation_outdated, inner.max_outdated) },
-            values: unsafe { slice::from_raw_parts_mut(inner.translations, inner.max_soa_tracks) },
+            entries: unsafe { slice::from_raw_parts(inner.translation_entries, num_soa_tracks * 4) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.translation_outdated, num_soa_tracks.div_ceil(8)) },
+            values: unsafe { slice::from_raw_parts_mut(inner.translations, num_soa_tracks) },
         }
     }
 
@@ -599,19 +602,22 @@ impl SamplingContext {
         UpdateArgs {
             num_tracks: animation.num_tracks(),
             num_soa_tracks: animation.num_soa_tracks(),
-            entries: unsafe { slice::from_raw_parts_mut(inner.rotation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.rotation_outdated, inner.max_outdated) },
+            entries: unsafe { slice::from_raw_parts_mut(inner.rotation_entries, animation.num_soa_tracks() * 4) },
+            outdated: unsafe {
+                slice::from_raw_parts_mut(inner.rotation_outdated, animation.num_soa_tracks().div_ceil(8))
+            },
             next: &mut inner.rotation_next,
         }
     }
 
     #[inline]
-    fn rotation_decompress_args(&self) -> DecompressArgs<'_, InterpSoaQuaternion> {
+    fn rotation_decompress_args(&self, animation: &Animation) -> DecompressArgs<'_, InterpSoaQuaternion> {
         let inner = self.inner();
+        let num_soa_tracks = animation.num_soa_tracks();
         DecompressArgs {
-            entries: unsafe { slice::from_raw_parts(inner.rotation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.rotation_outdated, inner.max_outdated) },
-            values: unsafe { slice::from_raw_parts_mut(inner.rotations, inner.max_soa_tracks) },
+            entries: unsafe { slice::from_raw_parts(inner.rotation_entries, num_soa_tracks * 4) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.rotation_outdated, num_soa_tracks.div_ceil(8)) },
+            values: unsafe { slice::from_raw_parts_mut(inner.rotations, num_soa_tracks) },
         }
     }
 
@@ -621,19 +627,22 @@ impl SamplingContext {
         UpdateArgs {
             num_tracks: animation.num_tracks(),
             num_soa_tracks: animation.num_soa_tracks(),
-            entries: unsafe { slice::from_raw_parts_mut(inner.scale_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.scale_outdated, inner.max_outdated) },
+            entries: unsafe { slice::from_raw_parts_mut(inner.scale_entries, animation.num_soa_tracks() * 4) },
+            outdated: unsafe {
+                slice::from_raw_parts_mut(inner.scale_outdated, animation.num_soa_tracks().div_ceil(8))
+            },
             next: &mut inner.scale_next,
         }
     }
 
     #[inline]
-    fn scale_decompress_args(&self) -> DecompressArgs<'_, InterpSoaFloat3> {
+    fn scale_decompress_args(&self, animation: &Animation) -> DecompressArgs<'_, InterpSoaFloat3> {
         let inner = self.inner();
+        let num_soa_tracks = animation.num_soa_tracks();
         DecompressArgs {
-            entries: unsafe { slice::from_raw_parts(inner.scale_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.scale_outdated, inner.max_outdated) },
-            values: unsafe { slice::from_raw_parts_mut(inner.scales, inner.max_soa_tracks) },
+            entries: unsafe { slice::from_raw_parts(inner.scale_entries, num_soa_tracks * 4) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.scale_outdated, num_soa_tracks.div_ceil(8)) },
+            values: unsafe { slice::from_raw_parts_mut(inner.scales, num_soa_tracks) },
         }
     }
 }
@@ -1115,17 +1124,17 @@ where
 
         let args = ctx.as_mut().translation_update_args(anim);
         Self::update_cache(args, anim, &anim.translations_ctrl(), self.ratio, prev_ratio);
-        let args = ctx.as_mut().translation_decompress_args();
+        let args = ctx.as_mut().translation_decompress_args(anim);
         Self::decompress_float3(args, anim.timepoints(), &anim.translations_ctrl(), anim.translations());
 
         let args = ctx.as_mut().rotation_update_args(anim);
         Self::update_cache(args, anim, &anim.rotations_ctrl(), self.ratio, prev_ratio);
-        let args = ctx.as_mut().rotation_decompress_args();
+        let args = ctx.as_mut().rotation_decompress_args(anim);
         Self::decompress_quat(args, anim.timepoints(), &anim.rotations_ctrl(), anim.rotations());
 
         let args = ctx.as_mut().scale_update_args(anim);
         Self::update_cache(args, anim, &anim.scales_ctrl(), self.ratio, prev_ratio);
-        let args = ctx.as_mut().scale_decompress_args();
+        let args = ctx.as_mut().scale_decompress_args(anim);
         Self::decompress_float3(args, anim.timepoints(), &anim.scales_ctrl(), anim.scales());
 
         Self::interpolates(anim, ctx.as_mut(), self.ratio, &mut output)?;
-- 
2.43.0


From f6dfb78b8d52a492cf426b3f8cbfd62e4c89d005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:00 +0000
Subject: [PATCH 03/19] fix: zero the memory of a new SamplingContext

Cloning, comparing or serialising a context that has not sampled yet read
uninitialised memory.
---
 src/sampling_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index a1b80a8..99e10c6 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -307,7 +307,7 @@ impl SamplingContext {
 
         unsafe {
             let layout = Layout::from_size_align_unchecked(size, mem::size_of::<f32x4>());
-            let mut ptr = alloc::alloc(layout);
+            let mut ptr = alloc::alloc_zeroed(layout);
             let mut ctx = SamplingContext(ptr as *mut SamplingContextInner);
             let inner = ctx.inner_mut();
             *inner = SamplingContextInner::default();
-- 
2.43.0


From 0ba0cc492c50fdd9a78fe57673588be6fdfcab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:32 +0000
Subject: [PATCH 04/19] fix: don't trust element counts of corrupted archives

Corrupted counts made loading reserve arbitrary amounts of memory up front,
which aborted the process or wrote through a null pointer. Read the elements
first, and allocate the object once they are known to be there. An empty
skeleton archive, which ends after its joint count, now loads as well.
---
 src/animation.rs | 99 ++++++++++++++++++++++++++++--------------------
 src/archive.rs   |  3 +-
 src/skeleton.rs  | 24 ++++--------
 src/track.rs     |  2 +-
 4 files changed, 68 insertions(+), 60 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index c7e08c4..221f277 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -361,50 +361,65 @@ impl Animation {
     /// Reads an `Animation` from an `Archive`.
     pub fn from_archive(archive: &mut Archive<impl Read>) -> Result<Animation, OzzError> {
         let meta = Animation::read_meta(archive)?;
-        let mut animation = Animation::new(meta);
-
-        archive.read_slice(animation.timepoints_mut())?;
-        let is_ratio_u8 = animation.timepoints().len() <= (u8::MAX as usize);
-
-        if is_ratio_u8 {
-            for i in 0..animation.t_ratios().len() {
-                animation.t_ratios_mut()[i] = archive.read::<u8>()? as u16;
-            }
-        } else {
-            archive.read_slice(animation.t_ratios_mut())?;
-        }
-        archive.read_slice(animation.t_previouses_mut())?;
-        archive.read_slice(animation.t_iframe_entries_mut())?;
-        archive.read_slice(animation.t_iframe_desc_mut())?;
-        animation.t_iframe_interval = archive.read()?;
-        archive.read_slice(animation.translations_mut())?;
-
-        if is_ratio_u8 {
-            for i in 0..animation.r_ratios().len() {
-                animation.r_ratios_mut()[i] = archive.read::<u8>()? as u16;
-            }
-        } else {
-            archive.read_slice(animation.r_ratios_mut())?;
-        }
-        archive.read_slice(animation.r_previouses_mut())?;
-        archive.read_slice(animation.r_iframe_entries_mut())?;
-        archive.read_slice(animation.r_iframe_desc_mut())?;
-        animation.r_iframe_interval = archive.read()?;
-        archive.read_slice(animation.rotations_mut())?;
-
+        let timepoints: Vec<f32> = archive.read_vec(meta.timepoints_count as usize)?;
+        let is_ratio_u8 = timepoints.len() <= (u8::MAX as usize);
+
+        let t_ratios = Self::read_ratios(archive, meta.translations_count as usize, is_ratio_u8)?;
+        let t_previouses = archive.read_vec(meta.translations_count as usize)?;
+        let t_iframe_entries = archive.read_vec(meta.t_iframe_entries_count as usize)?;
+        let t_iframe_desc = archive.read_vec(meta.t_iframe_desc_count as usize)?;
+        let t_iframe_interval = archive.read()?;
+        let translations = archive.read_vec(meta.translations_count as usize)?;
+
+        let r_ratios = Self::read_ratios(archive, meta.rotations_count as usize, is_ratio_u8)?;
+        let r_previouses = archive.read_vec(meta.rotations_count as usize)?;
+        let r_iframe_entries = archive.read_vec(meta.r_iframe_entries_count as usize)?;
+        let r_iframe_desc = archive.read_vec(meta.r_iframe_desc_count as usize)?;
+        let r_iframe_interval = archive.read()?;
+        let rotations = archive.read_vec(meta.rotations_count as usize)?;
+
+        let s_ratios = Self::read_ratios(archive, meta.scales_count as usize, is_ratio_u8)?;
+        let s_previouses = archive.read_vec(meta.scales_count as usize)?;
+        let s_iframe_entries = archive.read_vec(meta.s_iframe_entries_count as usize)?;
+        let s_iframe_desc = archive.read_vec(meta.s_iframe_desc_count as usize)?;
+        let s_iframe_interval = archive.read()?;
+        let scales = archive.read_vec(meta.scales_count as usize)?;
+
+        Ok(Animation::from_raw(&AnimationRaw {
+            duration: meta.duration,
+            num_tracks: meta.num_tracks,
+            name: meta.name,
+            timepoints,
+
+            translations,
+            t_ratios,
+            t_previouses,
+            t_iframe_interval,
+            t_iframe_entries,
+            t_iframe_desc,
+
+            rotations,
+            r_ratios,
+            r_previouses,
+            r_iframe_interval,
+            r_iframe_entries,
+            r_iframe_desc,
+
+            scales,
+            s_ratios,
+            s_previouses,
+            s_iframe_interval,
+            s_iframe_entries,
+            s_iframe_desc,
+        }))
+    }
+
+    fn read_ratios(archive: &mut Archive<impl Read>, count: usize, is_ratio_u8: bool) -> Result<Vec<u16>, OzzError> {
         if is_ratio_u8 {
-            for i in 0..animation.s_ratios().len() {
-                animation.s_ratios_mut()[i] = archive.read::<u8>()? as u16;
-            }
-        } else {
-            archive.read_slice(animation.s_ratios_mut())?;
+            let ratios: Vec<u8> = archive.read_vec(count)?;
+            return Ok(ratios.into_iter().map(|r| r as u16).collect());
         }
-        archive.read_slice(animation.s_previouses_mut())?;
-        archive.read_slice(animation.s_iframe_entries_mut())?;
-        archive.read_slice(animation.s_iframe_desc_mut())?;
-        animation.s_iframe_interval = archive.read()?;
-        archive.read_slice(animation.scales_mut())?;
-        Ok(animation)
+        archive.read_vec(count)
     }
 
     /// Reads an `Animation` from a file path.
diff --git a/src/archive.rs b/src/archive.rs
index 528133e..7919ba4 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -129,7 +129,8 @@ pub trait ArchiveRead<T> {
     /// * `count` - The number of elements to read.
     #[inline]
     fn read_vec<R: Read>(archive: &mut Archive<R>, count: usize) -> Result<Vec<T>, OzzError> {
-        let mut buffer = Vec::with_capacity(count);
+        // `count` may come from a corrupted archive, don't trust it to reserve memory.
+        let mut buffer = Vec::with_capacity(count.min(4096));
         for _ in 0..count {
             buffer.push(Self::read(archive)?);
         }
diff --git a/src/skeleton.rs b/src/skeleton.rs
index 9e675d9..775d6d6 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -101,11 +101,7 @@ impl Skeleton {
         }
 
         let _char_count: u32 = archive.read()?;
-        let mut joint_names = BiHashMap::with_capacity_and_hashers(
-            num_joints as usize,
-            DeterministicState::new(),
-            DeterministicState::new(),
-        );
+        let mut joint_names = BiHashMap::with_hashers(DeterministicState::new(), DeterministicState::new());
         for idx in 0..num_joints {
             joint_names.insert(archive.read::<String>()?, idx as i16);
         }
@@ -122,17 +118,13 @@ impl Skeleton {
 
     /// Reads a `Skeleton` from a reader.
     pub fn from_archive(archive: &mut Archive<impl Read>) -> Result<Skeleton, OzzError> {
-        let meta = Skeleton::read_meta(archive, false)?;
-        let mut skeleton = Skeleton::new(meta);
-
-        let _char_count: u32 = archive.read()?;
-        for idx in 0..skeleton.num_joints() {
-            skeleton.joint_names.insert(archive.read::<String>()?, idx as i16);
-        }
-
-        archive.read_slice(skeleton.joint_parents_mut())?;
-        archive.read_slice(skeleton.joint_rest_poses_mut())?;
-        Ok(skeleton)
+        let meta = Skeleton::read_meta(archive, true)?;
+        let joint_rest_poses = archive.read_vec(meta.num_joints.div_ceil(4) as usize)?;
+        Ok(Skeleton::from_raw(&SkeletonRaw {
+            joint_rest_poses,
+            joint_parents: meta.joint_parents,
+            joint_names: meta.joint_names,
+        }))
     }
 
     /// Reads a `Skeleton` from a file.
diff --git a/src/track.rs b/src/track.rs
index efdbdd4..de102ef 100644
--- a/src/track.rs
+++ b/src/track.rs
@@ -166,7 +166,7 @@ impl<V: TrackValue> Track<V> {
 
         let ratios: Vec<f32> = archive.read_vec(key_count as usize)?;
         let values: Vec<V> = archive.read_vec(key_count as usize)?;
-        let steps: Vec<u8> = archive.read_vec((key_count + 7) as usize / 8)?;
+        let steps: Vec<u8> = archive.read_vec((key_count as usize).div_ceil(8))?;
 
         let mut name = String::new();
         if name_len != 0 {
-- 
2.43.0


From fb8934cadc965a66a68a9717a11ae35ad97b723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:39 +0000
Subject: [PATCH 05/19] fix: read archived booleans without creating invalid
 bool values

---
 src/archive.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/archive.rs b/src/archive.rs
index 7919ba4..1b65d50 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -168,7 +168,6 @@ macro_rules! primitive_reader {
     };
 }
 
-primitive_reader!(bool);
 primitive_reader!(u8);
 primitive_reader!(i8);
 primitive_reader!(u16);
@@ -180,6 +179,13 @@ primitive_reader!(i64);
 primitive_reader!(f32);
 primitive_reader!(f64);
 
+impl ArchiveRead<bool> for bool {
+    #[inline]
+    fn read<R: Read>(archive: &mut Archive<R>) -> Result<bool, OzzError> {
+        Ok(u8::read(archive)? != 0)
+    }
+}
+
 impl ArchiveRead<Vec2> for Vec2 {
     #[inline]
     fn read<R: Read>(archive: &mut Archive<R>) -> Result<Vec2, OzzError> {
-- 
2.43.0


From 8b2b11cf1c2d36a8bb54289731f1f176cb90f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:01 +0000
Subject: [PATCH 06/19] fix: don't make zero-sized allocations for empty
 skeletons and animations

---
 src/animation.rs | 10 ++++++++--
 src/skeleton.rs  | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 221f277..40cdb3e 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -221,7 +221,7 @@ pub struct Animation {
 
 impl Drop for Animation {
     fn drop(&mut self) {
-        if !self.timepoints.is_null() {
+        if !self.timepoints.is_null() && self.size != 0 {
             unsafe {
                 let layout = Layout::from_size_align_unchecked(self.size, mem::size_of::<f32>());
                 alloc::dealloc(self.timepoints as *mut u8, layout);
@@ -575,7 +575,13 @@ impl Animation {
 
         unsafe {
             let layout = Layout::from_size_align_unchecked(animation.size, mem::size_of::<f32>());
-            let mut ptr = alloc::alloc(layout);
+            let mut ptr = match animation.size {
+                0 => ALIGN as *mut u8, // nothing to store, and alloc() doesn't accept an empty layout
+                _ => alloc::alloc(layout),
+            };
+            if ptr.is_null() {
+                alloc::handle_alloc_error(layout);
+            }
 
             animation.timepoints = ptr as *mut f32;
             ptr = ptr.add(animation.timepoints_count as usize * mem::size_of::<f32>());
diff --git a/src/skeleton.rs b/src/skeleton.rs
index 775d6d6..72913d7 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -40,7 +40,7 @@ unsafe impl Sync for Skeleton {}
 
 impl Drop for Skeleton {
     fn drop(&mut self) {
-        if !self.joint_rest_poses.is_null() {
+        if !self.joint_rest_poses.is_null() && self.size != 0 {
             unsafe {
                 let layout = Layout::from_size_align_unchecked(self.size, mem::align_of::<SoaTransform>());
                 alloc::dealloc(self.joint_rest_poses as *mut u8, layout);
@@ -182,7 +182,13 @@ impl Skeleton {
 
         unsafe {
             let layout = Layout::from_size_align_unchecked(skeleton.size, ALIGN);
-            let mut ptr = alloc::alloc(layout);
+            let mut ptr = match skeleton.size {
+                0 => ALIGN as *mut u8, // nothing to store, and alloc() doesn't accept an empty layout
+                _ => alloc::alloc(layout),
+            };
+            if ptr.is_null() {
+                alloc::handle_alloc_error(layout);
+            }
 
             skeleton.joint_rest_poses = ptr as *mut SoaTransform;
             ptr = ptr.add(mem::size_of::<SoaTransform>() * skeleton.num_soa_joints());
-- 
2.43.0


From 0e95a5e0173beaa491b6ec424d9c0dc5ac88761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:36 +0000
Subject: [PATCH 07/19] fix: announce the four elements of a serialised SoaQuat

---
 src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index d2629d0..e32ade0 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -464,7 +464,7 @@ const _: () = {
 
     impl Serialize for SoaQuat {
         fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-            let mut seq = serializer.serialize_seq(Some(3))?;
+            let mut seq = serializer.serialize_seq(Some(4))?;
             seq.serialize_element(&self.x.as_array())?;
             seq.serialize_element(&self.y.as_array())?;
             seq.serialize_element(&self.z.as_array())?;
-- 
2.43.0


From f7bb24175f4d75771626642b2c53efd4742c8e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:36 +0000
Subject: [PATCH 08/19] fix: deserialise SamplingContext from any serde format

Only formats giving borrowed keys worked, and fields that came before
max_tracks were dropped, e.g. from formats with sorted keys.
---
 src/sampling_job.rs | 120 ++++++++++++++++++--------------------------
 1 file changed, 48 insertions(+), 72 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 99e10c6..2300b35 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -801,7 +801,7 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
-    use serde::de::{self, MapAccess, Visitor};
+    use serde::de;
     use serde::ser::SerializeMap;
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
@@ -830,82 +830,58 @@ const _: () = {
         }
     }
 
-    impl<'de> Deserialize<'de> for SamplingContext {
-        fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<SamplingContext, D::Error> {
-            deserializer.deserialize_map(SamplingContextVisitor)
-        }
-    }
+    // Fields can come in any order (depends on the data format).
+    #[derive(Deserialize)]
+    struct SamplingContextRaw {
+        max_tracks: usize,
+        animation_id: u64,
+        ratio: f32,
+
+        translations: Vec<InterpSoaFloat3>,
+        translation_entries: Vec<u32>,
+        translation_outdated: Vec<u8>,
+        translation_next: usize,
 
-    struct SamplingContextVisitor;
+        rotations: Vec<InterpSoaQuaternion>,
+        rotation_entries: Vec<u32>,
+        rotation_outdated: Vec<u8>,
+        rotation_next: usize,
 
-    impl<'de> Visitor<'de> for SamplingContextVisitor {
-        type Value = SamplingContext;
+        scales: Vec<InterpSoaFloat3>,
+        scale_entries: Vec<u32>,
+        scale_outdated: Vec<u8>,
+        scale_next: usize,
+    }
 
-        fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-            formatter.write_str("struct SamplingContext")
+    fn copy_slice<T: Copy, E: de::Error>(dst: &mut [T], src: &[T]) -> Result<(), E> {
+        if dst.len() != src.len() {
+            return Err(de::Error::invalid_length(src.len(), &"as many elements as max_tracks requires"));
         }
+        dst.copy_from_slice(src);
+        Ok(())
+    }
 
-        fn visit_map<V: MapAccess<'de>>(self, mut map: V) -> Result<Self::Value, V::Error> {
-            let mut max_tracks: Option<usize> = None;
-            while let Some(key) = map.next_key::<&str>()? {
-                if key == "max_tracks" {
-                    max_tracks = Some(map.next_value()?);
-                    break;
-                } else {
-                    map.next_value::<serde::de::IgnoredAny>()?;
-                }
-            }
-            let mut ctx: SamplingContext = match max_tracks {
-                Some(max_tracks) => SamplingContext::new(max_tracks),
-                None => return Err(de::Error::custom("Miss field max_tracks")),
-            };
-
-            while let Some(key) = map.next_key()? {
-                match key {
-                    "animation_id" => ctx.set_animation_id(map.next_value()?),
-                    "ratio" => ctx.set_ratio(map.next_value()?),
-                    "translations" => {
-                        ctx.translations_mut()
-                            .copy_from_slice(&map.next_value::<Vec<InterpSoaFloat3>>()?);
-                    }
-                    "translation_entries" => {
-                        ctx.translation_entries_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u32>>()?);
-                    }
-                    "translation_outdated" => {
-                        ctx.translation_outdated_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u8>>()?);
-                    }
-                    "translation_next" => ctx.set_translation_next(map.next_value()?),
-                    "rotations" => {
-                        ctx.rotations_mut()
-                            .copy_from_slice(&map.next_value::<Vec<InterpSoaQuaternion>>()?);
-                    }
-                    "rotation_entries" => {
-                        ctx.rotation_entries_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u32>>()?);
-                    }
-                    "rotation_outdated" => {
-                        ctx.rotation_outdated_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u8>>()?);
-                    }
-                    "rotation_next" => ctx.set_rotation_next(map.next_value()?),
-                    "scales" => {
-                        ctx.scales_mut()
-                            .copy_from_slice(&map.next_value::<Vec<InterpSoaFloat3>>()?);
-                    }
-                    "scale_entries" => {
-                        ctx.scale_entries_mut().copy_from_slice(&map.next_value::<Vec<u32>>()?);
-                    }
-                    "scale_outdated" => {
-                        ctx.scale_outdated_mut().copy_from_slice(&map.next_value::<Vec<u8>>()?);
-                    }
-                    "scale_next" => ctx.set_scale_next(map.next_value()?),
-                    _ => {
-                        map.next_value::<serde::de::IgnoredAny>()?;
-                    }
-                }
-            }
+    impl<'de> Deserialize<'de> for SamplingContext {
+        fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<SamplingContext, D::Error> {
+            let raw = SamplingContextRaw::deserialize(deserializer)?;
+            let mut ctx = SamplingContext::new(raw.max_tracks);
+            ctx.set_animation_id(raw.animation_id);
+            ctx.set_ratio(raw.ratio);
+
+            copy_slice(ctx.translations_mut(), &raw.translations)?;
+            copy_slice(ctx.translation_entries_mut(), &raw.translation_entries)?;
+            copy_slice(ctx.translation_outdated_mut(), &raw.translation_outdated)?;
+            ctx.set_translation_next(raw.translation_next);
+
+            copy_slice(ctx.rotations_mut(), &raw.rotations)?;
+            copy_slice(ctx.rotation_entries_mut(), &raw.rotation_entries)?;
+            copy_slice(ctx.rotation_outdated_mut(), &raw.rotation_outdated)?;
+            ctx.set_rotation_next(raw.rotation_next);
+
+            copy_slice(ctx.scales_mut(), &raw.scales)?;
+            copy_slice(ctx.scale_entries_mut(), &raw.scale_entries)?;
+            copy_slice(ctx.scale_outdated_mut(), &raw.scale_outdated)?;
+            ctx.set_scale_next(raw.scale_next);
             Ok(ctx)
         }
     }
-- 
2.43.0


From ffe4444921a875c3aeb292e6716267a45fb0691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:16 +0000
Subject: [PATCH 09/19] fix: accept correctly aligned archived sampling
 contexts

check_bytes demanded 16 bytes alignment for the archived root, which only has
8, so that valid archives were rejected depending on their contents' lengths.
---
 src/sampling_job.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 2300b35..a630375 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -791,8 +791,8 @@ const _: () = {
 
         #[inline]
         unsafe fn check_bytes<'a>(value: *const Self, _: &mut C) -> Result<&'a Self, Self::Error> {
-            if value as usize % mem::align_of::<f32x4>() != 0 {
-                return Err(Error::new(ErrorKind::InvalidData, "must be aligned to 16 bytes"));
+            if value as usize % mem::align_of::<Self>() != 0 {
+                return Err(Error::new(ErrorKind::InvalidData, "archived context is not aligned"));
             }
             Ok(&*value)
         }
-- 
2.43.0


From 32d87788579258569544124493c2da10296e4247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:05 +0000
Subject: [PATCH 10/19] fix: clamp local-to-model ranges without integer
 overflow

'to' or 'from' near i32::MAX wrapped around (a panic in debug builds, no
joint updated in release builds) instead of being clamped like any other
out-of-range value.
---
 src/local_to_model_job.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/local_to_model_job.rs b/src/local_to_model_job.rs
index 8e31875..59ecd04 100644
--- a/src/local_to_model_job.rs
+++ b/src/local_to_model_job.rs
@@ -229,8 +229,8 @@ where
             return Err(OzzError::InvalidJob);
         }
 
-        let begin = i32::max(0, self.from + (self.from_excluded as i32)) as usize;
-        let end = i32::max(0, i32::min(self.to + 1, skeleton.num_joints() as i32)) as usize;
+        let begin = i32::max(0, self.from.saturating_add(self.from_excluded as i32)) as usize;
+        let end = i32::max(0, i32::min(self.to.saturating_add(1), skeleton.num_joints() as i32)) as usize;
 
         let mut idx = begin;
         let mut process = idx < end && (!self.from_excluded || skeleton.joint_parent(idx) as i32 >= self.from);
-- 
2.43.0


From 30edeb7ac276d520cc0a418d1c924f0cd741245e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:41 +0000
Subject: [PATCH 11/19] fix: blend the rest pose into an output longer than the
 skeleton

With no effective layer the rest pose is copied to the output, which
panicked unless the output had exactly the skeleton's length.
---
 src/blending_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 0113f78..252feb9 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -390,7 +390,7 @@ where
             if bp_weight > 0.0 {
                 if ctx.num_passes == 0 {
                     ctx.accumulated_weight = 1.0;
-                    output.copy_from_slice(joint_rest_poses);
+                    output[..joint_rest_poses.len()].copy_from_slice(joint_rest_poses);
                 } else {
                     ctx.accumulated_weight = threshold;
                     let simd_bp_weight = f32x4::splat(bp_weight);
-- 
2.43.0


From fea225fe3e369fa46d717f4dce8702bc000d8cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:42 +0000
Subject: [PATCH 12/19] fix: sample a track before its first key

The ratio was interpolated between the first key and itself, which gives
NaN, when the first key is not at ratio 0.
---
 src/track_sampling_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/track_sampling_job.rs b/src/track_sampling_job.rs
index 23698fa..ebb437b 100644
--- a/src/track_sampling_job.rs
+++ b/src/track_sampling_job.rs
@@ -127,7 +127,7 @@ where
             let id0 = id1.saturating_sub(1);
 
             let id0_step = (track.steps()[id0 / 8] & (1 << (id0 & 7))) != 0;
-            if id0_step || id1 == track.key_count() {
+            if id0_step || id0 == id1 || id1 == track.key_count() {
                 self.result = track.values()[id0];
             } else {
                 let tk0 = track.ratios()[id0];
-- 
2.43.0


From 2b157d5fc4dac4ceec4656633007d0da5c451f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:27 +0000
Subject: [PATCH 13/19] fix: check all blending layers before writing the
 output

---
 src/blending_job.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 252feb9..ab81d4f 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -306,6 +306,10 @@ where
 
         let mut ok = self.threshold > 0.0;
         ok &= output.len() >= skeleton.num_soa_joints();
+        for layer in self.layers.iter().chain(&self.additive_layers) {
+            ok &= layer.transform.buf()?.len() >= skeleton.num_soa_joints();
+            ok &= layer.joint_weights.is_empty() || layer.joint_weights.len() >= skeleton.num_soa_joints();
+        }
         if !ok {
             return Err(OzzError::InvalidJob);
         }
-- 
2.43.0


From c1711f2e5aa8fef110f41b42b2232e80c832783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:29 +0000
Subject: [PATCH 14/19] fix: check a whole skinning job before running it

---
 src/skinning_job.rs | 58 ++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/src/skinning_job.rs b/src/skinning_job.rs
index 9b51d3c..8d839e9 100644
--- a/src/skinning_job.rs
+++ b/src/skinning_job.rs
@@ -338,36 +338,42 @@ where
 
     /// Validates `SkinningJob` parameters.
     pub fn validate(&self) -> bool {
-        (|| {
-            let mut ok = self.influences_count > 0;
-            ok &= !self.joint_matrices.as_ref()?.buf().ok()?.is_empty();
+        self.check().is_ok()
+    }
 
-            let joint_indices = self.joint_indices.as_ref()?.buf().ok()?;
-            ok &= joint_indices.len() >= self.vertex_count * self.influences_count;
+    fn check(&self) -> Result<(), OzzError> {
+        let vertices = self.vertex_count;
+        let influences = self.influences_count;
+        let mul = |a: usize, b: usize| a.checked_mul(b).ok_or(OzzError::InvalidJob);
 
-            if self.influences_count > 1 {
-                let joint_weights = self.joint_weights.as_ref()?.buf().ok()?;
-                ok &= joint_weights.len() >= self.vertex_count * (self.influences_count - 1);
-            }
+        if influences == 0 {
+            return Err(OzzError::InvalidJob);
+        }
 
-            ok &= self.in_positions.as_ref()?.buf().ok()?.len() >= self.vertex_count;
-            ok &= self.out_positions.as_ref()?.buf().ok()?.len() >= self.vertex_count;
+        unpack_buf(&self.joint_matrices, 1)?;
+        unpack_buf(&self.joint_indices, mul(vertices, influences)?)?;
+        if influences > 1 {
+            unpack_buf(&self.joint_weights, mul(vertices, influences - 1)?)?;
+        }
 
-            if let Some(in_normals) = &self.in_normals {
-                ok &= in_normals.buf().ok()?.len() >= self.vertex_count;
-                ok &= self.out_normals.as_ref()?.buf().ok()?.len() >= self.vertex_count;
+        unpack_buf(&self.in_positions, vertices)?;
+        unpack_buf(&self.out_positions, vertices)?;
 
-                if let Some(in_tangents) = &self.in_tangents {
-                    ok &= in_tangents.buf().ok()?.len() >= self.vertex_count;
-                    ok &= self.out_tangents.as_ref()?.buf().ok()?.len() >= self.vertex_count;
-                }
-            } else {
-                ok &= self.in_tangents.is_none();
-            }
+        if self.in_normals.is_some() {
+            unpack_buf(&self.in_normals, vertices)?;
+            unpack_buf(&self.out_normals, vertices)?;
 
-            Some(ok)
-        })()
-        .unwrap_or(false)
+            if self.in_tangents.is_some() {
+                unpack_buf(&self.in_tangents, vertices)?;
+                unpack_buf(&self.out_tangents, vertices)?;
+            }
+            if self.joint_it_matrices.is_some() {
+                unpack_buf(&self.joint_it_matrices, 0)?;
+            }
+        } else if self.in_tangents.is_some() {
+            return Err(OzzError::InvalidJob);
+        }
+        Ok(())
     }
 }
 
@@ -529,9 +535,7 @@ where
     /// Runs skinning job's task.
     /// The validate job before any operation is performed.
     pub fn run(&mut self) -> Result<(), OzzError> {
-        if self.influences_count == 0 {
-            return Err(OzzError::InvalidJob);
-        }
+        self.check()?;
 
         let mut branch = (self.influences_count - 1).min(4) * 5;
         if self.in_normals.is_some() {
-- 
2.43.0


From ea84ce95efeb0e1bc27a916cd5de4a6b69972260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:22 +0000
Subject: [PATCH 15/19] fix: make BlendingJobRef usable

---
 src/blending_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index ab81d4f..26b6a14 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -127,7 +127,7 @@ where
     output: Option<O>,
 }
 
-pub type BlendingJobRef<'t> = BlendingJob<&'t Skeleton, &'t [SoaTransform], &'t mut SoaTransform>;
+pub type BlendingJobRef<'t> = BlendingJob<&'t Skeleton, &'t [SoaTransform], &'t mut [SoaTransform]>;
 pub type BlendingJobRc<'t> = BlendingJob<Rc<Skeleton>, Rc<RefCell<Vec<SoaTransform>>>, Rc<RefCell<Vec<SoaTransform>>>>;
 pub type BlendingJobArc = BlendingJob<Arc<Skeleton>, Arc<RwLock<Vec<SoaTransform>>>, Arc<RwLock<Vec<SoaTransform>>>>;
 
-- 
2.43.0


From 5f6999eda51fbcac713ebbe37c06929a40df0d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:49 +0000
Subject: [PATCH 16/19] fix: same sine and cosine of huge angles on every
 platform

to_int_unchecked is undefined behaviour for values that don't fit an i32,
and x86-64 and WebAssembly gave different results for them.
---
 src/math.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index e32ade0..22ef0a1 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -1143,7 +1143,8 @@ pub(crate) fn fx4_sin_cos(v: f32x4) -> (f32x4, f32x4) {
     // XXX11b	-cos(x')	 sin(x')
     //
     // So: sin_sign = bit2, cos_sign = bit1 ^ bit2, bit1 determines if we use sin or cos Taylor expansion
-    let quadrant_int: i32x4 = unsafe { quadrant.to_int_unchecked() };
+    // Saturating: a quadrant that doesn't fit gives the same bits on all platforms.
+    let quadrant_int: i32x4 = quadrant.cast();
     let bit1 = quadrant_int << 31;
     let bit2 = (quadrant_int << 30) & SIGN;
 
-- 
2.43.0


From e880d654135e3bd12b025113f69836519571b0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:41 +0000
Subject: [PATCH 17/19] fix: clamp negative zero the same way on every platform

min and max may return either zero for operands of different sign, so
that the sign of zeros in sampled and blended poses depended on the
build.
---
 src/blending_job.rs | 10 +++++-----
 src/math.rs         | 32 ++++++++++++++++++++++++++++----
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 26b6a14..355c55f 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -9,7 +9,7 @@ use std::simd::prelude::*;
 use std::sync::{Arc, RwLock};
 
 use crate::base::{OzzBuf, OzzError, OzzMutBuf, OzzObj};
-use crate::math::{fx4_from_vec4, fx4_sign, SoaQuat, SoaTransform, SoaVec3};
+use crate::math::{fx4_from_vec4, fx4_max, fx4_sign, SoaQuat, SoaTransform, SoaVec3};
 use crate::skeleton::Skeleton;
 
 const ZERO: f32x4 = f32x4::from_array([0.0; 4]);
@@ -356,13 +356,13 @@ where
 
                 if ctx.num_passes == 0 {
                     for idx in 0..num_soa_joints {
-                        let weight = layer_weight * layer.joint_weight(idx).simd_max(ZERO);
+                        let weight = layer_weight * fx4_max(layer.joint_weight(idx), ZERO);
                         ctx.accumulated_weights[idx] = weight;
                         Self::blend_1st_pass(&transform[idx], weight, &mut output[idx]);
                     }
                 } else {
                     for idx in 0..num_soa_joints {
-                        let weight = layer_weight * layer.joint_weight(idx).simd_max(ZERO);
+                        let weight = layer_weight * fx4_max(layer.joint_weight(idx), ZERO);
                         ctx.accumulated_weights[idx] += weight;
                         Self::blend_n_pass(&transform[idx], weight, &mut output[idx]);
                     }
@@ -454,7 +454,7 @@ where
 
                 if !layer.joint_weights.is_empty() {
                     for idx in 0..joint_rest_poses.len() {
-                        let weight = layer_weight * layer.joint_weight(idx).simd_max(ZERO);
+                        let weight = layer_weight * fx4_max(layer.joint_weight(idx), ZERO);
                         let one_minus_weight = ONE - weight;
                         Self::blend_add_pass(&transform[idx], weight, one_minus_weight, &mut output[idx]);
                     }
@@ -469,7 +469,7 @@ where
 
                 if !layer.joint_weights.is_empty() {
                     for idx in 0..joint_rest_poses.len() {
-                        let weight = layer_weight * layer.joint_weight(idx).simd_max(ZERO);
+                        let weight = layer_weight * fx4_max(layer.joint_weight(idx), ZERO);
                         let one_minus_weight = ONE - weight;
                         Self::blend_sub_pass(&transform[idx], weight, one_minus_weight, &mut output[idx]);
                     }
diff --git a/src/math.rs b/src/math.rs
index 22ef0a1..f252889 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -1062,28 +1062,52 @@ pub(crate) fn fx4_xor(v: f32x4, s: i32x4) -> f32x4 {
     fx4(ix4(v) ^ s)
 }
 
+#[inline(always)]
+pub(crate) fn fx4_min(a: f32x4, b: f32x4) -> f32x4 {
+    // f32x4::simd_min may return either zero for +0 and -0, depending on the platform.
+    // This implementation returns b in that case, and if one of them is NaN.
+    a.simd_lt(b).select(a, b)
+}
+
+#[inline(always)]
+pub(crate) fn fx4_max(a: f32x4, b: f32x4) -> f32x4 {
+    // See fx4_min().
+    a.simd_gt(b).select(a, b)
+}
+
 #[inline(always)]
 pub(crate) fn fx4_clamp_or_max(v: f32x4, min: f32x4, max: f32x4) -> f32x4 {
     // f32x4::clamp may produce NaN if self is NaN.
     // This implementation always returns max if self is NaN.
-    v.simd_min(max).simd_max(min)
+    fx4_max(fx4_min(v, max), min)
 }
 
 #[inline(always)]
 pub(crate) fn fx4_clamp_or_min(v: f32x4, min: f32x4, max: f32x4) -> f32x4 {
     // f32x4::clamp may produce NaN if self is NaN.
     // This implementation always returns min if self is NaN.
-    v.simd_max(min).simd_min(max)
+    fx4_min(fx4_max(v, min), max)
 }
 
 #[inline(always)]
 pub(crate) fn f32_clamp_or_max(v: f32, min: f32, max: f32) -> f32 {
-    v.min(max).max(min)
+    // Like f32x4::simd_min, f32::min may return either zero for +0 and -0.
+    let v = if v < max { v } else { max };
+    if v > min {
+        v
+    } else {
+        min
+    }
 }
 
 #[inline(always)]
 pub(crate) fn f32_clamp_or_min(v: f32, min: f32, max: f32) -> f32 {
-    v.max(min).min(max)
+    let v = if v > min { v } else { min };
+    if v < max {
+        v
+    } else {
+        max
+    }
 }
 
 #[allow(clippy::excessive_precision)]
-- 
2.43.0


From ffe2258d91c9e7ac38c0a57538b4e1376fcb2703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:26 +0000
Subject: [PATCH 18/19] fix: SoA values are serialised as fixed-size arrays

They were written as length-prefixed sequences but are read as arrays, so
formats that are not self-describing (bincode) could not restore them.
---
 src/math.rs         | 8 ++++----
 src/sampling_job.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index f252889..a86a76b 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -220,12 +220,12 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
-    use serde::ser::SerializeSeq;
+    use serde::ser::SerializeTuple;
     use serde::{Deserialize, Serialize, Serializer};
 
     impl Serialize for SoaVec3 {
         fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-            let mut seq = serializer.serialize_seq(Some(3))?;
+            let mut seq = serializer.serialize_tuple(3)?;
             seq.serialize_element(&self.x.as_array())?;
             seq.serialize_element(&self.y.as_array())?;
             seq.serialize_element(&self.z.as_array())?;
@@ -459,12 +459,12 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
-    use serde::ser::SerializeSeq;
+    use serde::ser::SerializeTuple;
     use serde::{Deserialize, Serialize, Serializer};
 
     impl Serialize for SoaQuat {
         fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-            let mut seq = serializer.serialize_seq(Some(4))?;
+            let mut seq = serializer.serialize_tuple(4)?;
             seq.serialize_element(&self.x.as_array())?;
             seq.serialize_element(&self.y.as_array())?;
             seq.serialize_element(&self.z.as_array())?;
diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index a630375..6d0aafe 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -122,12 +122,12 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 mod serde_interp {
-    use serde::ser::SerializeSeq;
+    use serde::ser::SerializeTuple;
     use serde::{Deserialize, Deserializer, Serializer};
     use std::simd::prelude::*;
 
     pub(crate) fn serialize<S: Serializer>(value: &[f32x4; 2], serializer: S) -> Result<S::Ok, S::Error> {
-        let mut seq = serializer.serialize_seq(Some(2))?;
+        let mut seq = serializer.serialize_tuple(2)?;
         seq.serialize_element(value[0].as_array())?;
         seq.serialize_element(value[1].as_array())?;
         seq.end()
-- 
2.43.0


From 4536511c5a0a0fde02c663482e57c0caa987d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:43 +0000
Subject: [PATCH 19/19] fix: a sampling context can be restored from positional
 serde formats

It was written as a map of unknown length, which formats like bincode refuse,
and read as a struct whose fields were not in the order they were written.
---
 src/sampling_job.rs | 56 ++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 6d0aafe..a847a24 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -802,52 +802,60 @@ const _: () = {
 #[cfg(feature = "serde")]
 const _: () = {
     use serde::de;
-    use serde::ser::SerializeMap;
+    use serde::ser::SerializeStruct;
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
     impl Serialize for SamplingContext {
         fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-            let mut map = serializer.serialize_map(None)?;
-            map.serialize_entry("size", &self.size())?;
-            map.serialize_entry("max_tracks", &self.max_tracks())?;
-            map.serialize_entry("max_soa_tracks", &self.max_soa_tracks())?;
-            map.serialize_entry("max_outdated", &self.max_outdated())?;
-            map.serialize_entry("animation_id", &self.animation_id())?;
-            map.serialize_entry("ratio", &self.ratio())?;
-            map.serialize_entry("translations", self.translations())?;
-            map.serialize_entry("rotations", self.rotations())?;
-            map.serialize_entry("scales", self.scales())?;
-            map.serialize_entry("translation_entries", self.translation_entries())?;
-            map.serialize_entry("translation_outdated", self.translation_outdated())?;
-            map.serialize_entry("translation_next", &self.translation_next())?;
-            map.serialize_entry("rotation_entries", self.rotation_entries())?;
-            map.serialize_entry("rotation_outdated", self.rotation_outdated())?;
-            map.serialize_entry("rotation_next", &self.rotation_next())?;
-            map.serialize_entry("scale_entries", self.scale_entries())?;
-            map.serialize_entry("scale_outdated", self.scale_outdated())?;
-            map.serialize_entry("scale_next", &self.scale_next())?;
-            map.end()
+            let mut fields = serializer.serialize_struct("SamplingContext", 18)?;
+            fields.serialize_field("size", &self.size())?;
+            fields.serialize_field("max_tracks", &self.max_tracks())?;
+            fields.serialize_field("max_soa_tracks", &self.max_soa_tracks())?;
+            fields.serialize_field("max_outdated", &self.max_outdated())?;
+            fields.serialize_field("animation_id", &self.animation_id())?;
+            fields.serialize_field("ratio", &self.ratio())?;
+            fields.serialize_field("translations", self.translations())?;
+            fields.serialize_field("rotations", self.rotations())?;
+            fields.serialize_field("scales", self.scales())?;
+            fields.serialize_field("translation_entries", self.translation_entries())?;
+            fields.serialize_field("translation_outdated", self.translation_outdated())?;
+            fields.serialize_field("translation_next", &self.translation_next())?;
+            fields.serialize_field("rotation_entries", self.rotation_entries())?;
+            fields.serialize_field("rotation_outdated", self.rotation_outdated())?;
+            fields.serialize_field("rotation_next", &self.rotation_next())?;
+            fields.serialize_field("scale_entries", self.scale_entries())?;
+            fields.serialize_field("scale_outdated", self.scale_outdated())?;
+            fields.serialize_field("scale_next", &self.scale_next())?;
+            fields.end()
         }
     }
 
-    // Fields can come in any order (depends on the data format).
+    // Fields can come in any order, or by position in the order above (depends on the data format).
     #[derive(Deserialize)]
+    #[allow(dead_code)]
     struct SamplingContextRaw {
+        #[serde(default)]
+        size: usize,
         max_tracks: usize,
+        #[serde(default)]
+        max_soa_tracks: usize,
+        #[serde(default)]
+        max_outdated: usize,
         animation_id: u64,
         ratio: f32,
 
         translations: Vec<InterpSoaFloat3>,
+        rotations: Vec<InterpSoaQuaternion>,
+        scales: Vec<InterpSoaFloat3>,
+
         translation_entries: Vec<u32>,
         translation_outdated: Vec<u8>,
         translation_next: usize,
 
-        rotations: Vec<InterpSoaQuaternion>,
         rotation_entries: Vec<u32>,
         rotation_outdated: Vec<u8>,
         rotation_next: usize,
 
-        scales: Vec<InterpSoaFloat3>,
         scale_entries: Vec<u32>,
         scale_outdated: Vec<u8>,
         scale_next: usize,
-- 
2.43.0

