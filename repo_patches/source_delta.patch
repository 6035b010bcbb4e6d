From dcc91384698d3b7c8f501ee4a59841f442677177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:07 +0000
Subject: [PATCH 01/22] verif hook: cfg(scarlet_verif) instantiates Float with
 a symbolic scalar

---
 src/lib.rs         | 10 ++++++++++
 src/math/scalar.rs |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f687f07..7efc87c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,13 @@
+// Verification builds (`--cfg scarlet_verif`) compile a symbolic scalar into the
+// crate; ordinary builds never see it.
+#![allow(unexpected_cfgs)]
+
 pub mod cameras;
 pub mod geometry;
 pub mod math;
+
+#[cfg(scarlet_verif)]
+#[allow(dead_code)]
+pub mod verif {
+    include!(env!("SCARLET_VERIF_SYM"));
+}
diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index 1b97025..41d54f6 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -3,7 +3,10 @@ use std::{
     ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Rem, RemAssign, Sub, SubAssign},
 };
 
+#[cfg(not(scarlet_verif))]
 pub type Float = f32;
+#[cfg(scarlet_verif)]
+pub type Float = crate::verif::Sym;
 pub type Int = i32;
 pub type UInt = u32;
 
-- 
2.43.0


From 15fa173c2c42cbecf3eb42dfd9a47636a1f970be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:36 +0000
Subject: [PATCH 02/22] fix: interval product of two sign-changing intervals
 uses the wrong corners for its upper bound

---
 src/math/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index 92e275f..d07f080 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -239,7 +239,7 @@ impl<T: GFloat> std::ops::Mul<Self> for Interval<T> {
             } else {
                 Self::new(
                     (a.inf * b.sup).min(a.sup * b.inf).next_down(),
-                    (a.inf * a.inf).max(b.sup * b.sup).next_up(),
+                    (a.inf * b.inf).max(a.sup * b.sup).next_up(),
                 )
             }
         }
-- 
2.43.0


From 61e69776862de7285c40428bc3c51556ebda2926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:36 +0000
Subject: [PATCH 03/22] fix: f32 pi_upper is below pi

---
 src/math/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index 41d54f6..8dc4e6e 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -503,7 +503,7 @@ impl GFloat for f32 {
     }
     #[inline]
     fn pi_upper() -> Self {
-        13176794.0f32 / ((1 << 22) as f32)
+        13176795.0f32 / ((1 << 22) as f32)
     }
     #[inline]
     fn tau_lower() -> Self {
-- 
2.43.0


From 0da5188bfb60b3fcda1c5c9e15ac6acde220e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:36 +0000
Subject: [PATCH 04/22] fix: is_infinite answers is_finite

---
 src/math/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index 8dc4e6e..cf1424d 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -463,7 +463,7 @@ impl GFloat for f32 {
         self.is_finite()
     }
     fn is_infinite(self) -> bool {
-        self.is_finite()
+        self.is_infinite()
     }
 
     // consts
@@ -656,7 +656,7 @@ impl GFloat for f64 {
         self.is_finite()
     }
     fn is_infinite(self) -> bool {
-        self.is_finite()
+        self.is_infinite()
     }
 
     // consts
-- 
2.43.0


From 5b2af9ff5170f2221a02e2710be247d073605e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:36 +0000
Subject: [PATCH 05/22] fix: interval sin and cos miss an extremum of intervals
 wider than pi

---
 src/math/interval_as_gfloat.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 8109230..9af972c 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -87,6 +87,10 @@ impl<T: GFloat> GFloat for Interval<T> {
 
         // same side
         if cos_inf.signum() == cos_sup.signum() {
+            // more than half a period apart, so both extrema lie in between
+            if diff >= T::pi_lower() {
+                return Self::new(-T::one(), T::one());
+            }
             let (t0, t1) = T::min_max(self.inf.sin(), self.sup.sin());
             Self::new(t0.next_down(), t1.next_up())
         } else {
@@ -110,6 +114,10 @@ impl<T: GFloat> GFloat for Interval<T> {
 
         // same side
         if sin_inf.signum() == sin_sup.signum() {
+            // more than half a period apart, so both extrema lie in between
+            if diff >= T::pi_lower() {
+                return Self::new(-T::one(), T::one());
+            }
             let (t0, t1) = T::min_max(self.inf.cos(), self.sup.cos());
             Self::new(t0.next_down(), t1.next_up())
         } else {
@@ -117,6 +125,10 @@ impl<T: GFloat> GFloat for Interval<T> {
             if sin_inf.is_positive() {
                 Self::new(-T::one(), self.inf.cos().max(self.sup.cos()).next_up())
             }
+            // starts exactly at a maximum and goes past the next minimum
+            else if sin_inf.is_zero() && sin_sup.is_negative() {
+                Self::new(-T::one(), T::one())
+            }
             // maxima
             else {
                 Self::new(self.inf.cos().min(self.sup.cos()).next_down(), T::one())
-- 
2.43.0


From 7cb3cbfab60a67ebe7fc2a63dde755a703b7d17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:36 +0000
Subject: [PATCH 06/22] fix: interval asin and acos cut off the results for
 negative arguments

---
 src/math/interval_as_gfloat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 9af972c..f23a609 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -147,12 +147,12 @@ impl<T: GFloat> GFloat for Interval<T> {
     #[inline]
     fn asin(self) -> Self {
         self.map_monotonic_inc(T::asin)
-            .intersect(Interval::new(T::zero(), T::frac_pi_2_upper()))
+            .intersect(Interval::new(-T::frac_pi_2_upper(), T::frac_pi_2_upper()))
     }
     #[inline]
     fn acos(self) -> Self {
         self.map_monotonic_dec(T::acos)
-            .intersect(Interval::new(T::zero(), T::frac_pi_2_upper()))
+            .intersect(Interval::new(T::zero(), T::pi_upper()))
     }
     #[inline]
     fn atan(self) -> Self {
-- 
2.43.0


From a83ae195358a929086ed979fe3c13203632d240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:36 +0000
Subject: [PATCH 07/22] fix: interval atan2 is not zero on the y axis or the
 negative x axis

---
 src/math/interval_as_gfloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index f23a609..2002f59 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -163,7 +163,7 @@ impl<T: GFloat> GFloat for Interval<T> {
         let y = self;
         let x = rhs;
 
-        if x.is_zero() || y.is_zero() {
+        if y.is_zero() && x.is_nonnegative() {
             Interval::zero()
         }
         // X >= 0  -> first and fourth quadrants
-- 
2.43.0


From 8697a2e3ea650f9866b3cdf3440b9413b61d597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:36 +0000
Subject: [PATCH 08/22] fix: Interval::nan panics in debug builds

---
 src/math/interval_as_gfloat.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 2002f59..864f6fe 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -38,7 +38,10 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn nan() -> Self {
-        Self::new(T::nan(), T::nan())
+        Self {
+            inf: T::nan(),
+            sup: T::nan(),
+        }
     }
 
     #[inline]
-- 
2.43.0


From 78771f86b6754b1c4d7c7c8eabde15ea9b72dbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:14 +0000
Subject: [PATCH 09/22] fix: intervals converted from i64 and f64 do not
 contain a value that had to be rounded

---
 src/math/interval_as_gfloat.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 864f6fe..5af7487 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -26,7 +26,13 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn from_i64(rhs: i64) -> Self {
-        Self::from(T::from_i64(rhs))
+        let t = T::from_i64(rhs);
+        // i64::MAX is never exact after rounding, but casts back to itself
+        if t.to_i64() == rhs && rhs != i64::MAX {
+            Self::from(t)
+        } else {
+            Self::from(t).extend_by_ulp()
+        }
     }
     #[inline]
     fn from_f32(rhs: f32) -> Self {
@@ -34,7 +40,12 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn from_f64(rhs: f64) -> Self {
-        Self::from(T::from_f64(rhs))
+        let t = T::from_f64(rhs);
+        if t.to_f64() == rhs {
+            Self::from(t)
+        } else {
+            Self::from(t).extend_by_ulp()
+        }
     }
     #[inline]
     fn nan() -> Self {
-- 
2.43.0


From 0e9587b2097f637ec5df3cc23b0286944e17158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:14 +0000
Subject: [PATCH 10/22] fix: mapped normals multiply the third term by n.z
 twice

---
 src/math/transform.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/transform.rs b/src/math/transform.rs
index 4b5e6c4..301d80f 100644
--- a/src/math/transform.rs
+++ b/src/math/transform.rs
@@ -565,9 +565,9 @@ where
 {
     // normals are mapped by the inverse transpose of the transformation matrix
     Normal3::new(
-        n.x() * minv[(0, 0)] + n.y() * minv[(1, 0)] + n.z() * minv[(2, 0)] * n.z(),
-        n.x() * minv[(0, 1)] + n.y() * minv[(1, 1)] + n.z() * minv[(2, 1)] * n.z(),
-        n.x() * minv[(0, 2)] + n.y() * minv[(1, 2)] + n.z() * minv[(2, 2)] * n.z(),
+        n.x() * minv[(0, 0)] + n.y() * minv[(1, 0)] + n.z() * minv[(2, 0)],
+        n.x() * minv[(0, 1)] + n.y() * minv[(1, 1)] + n.z() * minv[(2, 1)],
+        n.x() * minv[(0, 2)] + n.y() * minv[(1, 2)] + n.z() * minv[(2, 2)],
     )
 }
 
-- 
2.43.0


From 77d2c9d8ddfcb0163e8d173c9466122a106448de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:14 +0000
Subject: [PATCH 11/22] fix: mapping an interval vector always panics

---
 src/math/transform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/transform.rs b/src/math/transform.rs
index 301d80f..1c548e9 100644
--- a/src/math/transform.rs
+++ b/src/math/transform.rs
@@ -501,10 +501,10 @@ where
     T: Scalar,
     U: Scalar + Mul<T, Output = U>,
 {
-    assert_eq!(
-        vec.x() * m[(3, 0)] + vec.y() * m[(3, 1)] + vec.z() * m[(3, 2)],
-        U::zero()
-    );
+    // intervals are never exactly zero after rounding, so only reject a w which is
+    // certainly nonzero
+    let w = vec.x() * m[(3, 0)] + vec.y() * m[(3, 1)] + vec.z() * m[(3, 2)];
+    assert!(!(w < U::zero() || w > U::zero()));
     Vector3::new(
         vec.x() * m[(0, 0)] + vec.y() * m[(0, 1)] + vec.z() * m[(0, 2)],
         vec.x() * m[(1, 0)] + vec.y() * m[(1, 1)] + vec.z() * m[(1, 2)],
-- 
2.43.0


From 468617a8473096f941df401f1e537bf6fd5864bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:14 +0000
Subject: [PATCH 12/22] fix: mapped bounding boxes accumulate into the wrong
 axis

---
 src/geometry/bbox.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index fa31a65..869c728 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -298,11 +298,11 @@ fn map_bbox(m: Matrix4x4f, bbox: &Bbox3) -> Bbox3 {
             let b = m[i][j] * bbox_pmax[j];
 
             if a < b {
-                pmin[j] += a;
-                pmax[j] += b;
+                pmin[i] += a;
+                pmax[i] += b;
             } else {
-                pmin[j] += b;
-                pmax[j] += a;
+                pmin[i] += b;
+                pmax[i] += a;
             }
         }
     }
-- 
2.43.0


From ffeec72889c5e7b5e9632d6a03c1d30c17e1d311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:14 +0000
Subject: [PATCH 13/22] fix: rays lying in the plane of the lower face of a box
 miss it

---
 src/geometry/bbox.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index 869c728..1ad2e4c 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -138,11 +138,17 @@ impl Bbox3 {
         let tmin = (self.pmin - ray.origin) / ray.direction;
         let tmax = (self.pmax - ray.origin) / ray.direction;
 
-        let t1 = tmin.min(tmax);
-        let t2 = tmin.max(tmax);
-
-        let tnear = t1.x().max(t1.y()).max(t1.z());
-        let tfar = t2.x().min(t2.y()).min(t2.z());
+        let mut tnear = Float::neg_infinity();
+        let mut tfar = Float::infinity();
+        for i in 0..3 {
+            // 0 / 0, the ray lies in one of the planes of this slab and so never
+            // leaves it
+            if tmin[i].is_nan() || tmax[i].is_nan() {
+                continue;
+            }
+            tnear = tnear.max(tmin[i].min(tmax[i]));
+            tfar = tfar.min(tmin[i].max(tmax[i]));
+        }
 
         if tnear > ray.tmax || tfar < Float::zero() || tnear > tfar {
             None
-- 
2.43.0


From 6a3ac45a103bd8d31501b11e16748c92a66b4d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:14 +0000
Subject: [PATCH 14/22] fix: primitive lists return the last hit and not the
 nearest one

---
 src/geometry/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/primitive.rs b/src/geometry/primitive.rs
index 9adb447..57424ea 100644
--- a/src/geometry/primitive.rs
+++ b/src/geometry/primitive.rs
@@ -151,7 +151,7 @@ impl IntersectsRay for PrimitiveList {
         let mut result = None;
         let mut ray_mut = ray;
         for primitive_handle in self.primitives.iter() {
-            if let Some(intersection_result) = (*primitive_handle).intersect(ray) {
+            if let Some(intersection_result) = (*primitive_handle).intersect(ray_mut) {
                 ray_mut.tmax = intersection_result.t_ray;
                 result = Some(intersection_result);
             }
-- 
2.43.0


From 2e81db6044b533326adfb69edf6a0fc5aceb5eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:14 +0000
Subject: [PATCH 15/22] fix: transformed primitives report hits in object space

---
 src/geometry/primitive.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/geometry/primitive.rs b/src/geometry/primitive.rs
index 57424ea..82bd633 100644
--- a/src/geometry/primitive.rs
+++ b/src/geometry/primitive.rs
@@ -59,6 +59,20 @@ impl SurfaceInteraction {
     }
 }
 
+impl TransformMap<SurfaceInteraction> for Transformf {
+    type Output = SurfaceInteraction;
+
+    fn map(&self, obj: SurfaceInteraction) -> Self::Output {
+        SurfaceInteraction {
+            p: self.map(obj.p),
+            n: self.map(obj.n).normalize(),
+            uv: obj.uv,
+            dpdu: self.map(obj.dpdu),
+            dpdv: self.map(obj.dpdv),
+        }
+    }
+}
+
 pub trait IntersectsRay {
     fn do_intersect(&self, ray: Rayf) -> bool;
     fn intersect(&self, ray: Rayf) -> Option<IntersectionResult>;
@@ -110,7 +124,12 @@ impl<T: Primitive> IntersectsRay for TransformedPrimitive<T> {
     fn intersect(&self, ray: Rayf) -> Option<IntersectionResult> {
         // note that "t" computed in object space is the same as in world space
         let transformed_ray = self.world_to_object(ray);
-        self.primitive.intersect(transformed_ray)
+        self.primitive
+            .intersect(transformed_ray)
+            .map(|result| IntersectionResult {
+                surface_interaction: self.object_to_world(result.surface_interaction),
+                t_ray: result.t_ray,
+            })
     }
 
     fn do_intersect(&self, ray: Rayf) -> bool {
-- 
2.43.0


From cce5ef73a943e088df7be4fdd0dd19d7fc9c7d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:14 +0000
Subject: [PATCH 16/22] fix: theta of the lower half of spheres is clamped to
 pi/2

---
 src/geometry/sphere.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 550ee7a..6e4f317 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -49,8 +49,8 @@ impl Sphere {
     pub fn new(radius: Float, z_min: Float, z_max: Float, phi_max: Float) -> Self {
         assert!(z_min < z_max);
 
-        let theta_min = Float::clamp(z_min / radius, Float::zero(), Float::one()).acos();
-        let theta_max = Float::clamp(z_max / radius, Float::zero(), Float::one()).acos();
+        let theta_min = Float::clamp(z_min / radius, -Float::one(), Float::one()).acos();
+        let theta_max = Float::clamp(z_max / radius, -Float::one(), Float::one()).acos();
 
         Self {
             radius,
@@ -125,7 +125,7 @@ impl IntersectsRay for Sphere {
         let t_ray = intersection_params.t_ray;
         let p = intersection_params.p;
         let phi = intersection_params.phi;
-        let theta = Float::clamp(p.z() / self.radius, Float::zero(), Float::one()).acos();
+        let theta = Float::clamp(p.z() / self.radius, -Float::one(), Float::one()).acos();
 
         let sin_theta = theta.sin();
         let (sin_phi, cos_phi) = phi.sin_cos();
-- 
2.43.0


From 0f8ec808d81960e9228761d67a602d626f5c6378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:14 +0000
Subject: [PATCH 17/22] fix: sphere area ignores that phi starts at -pi

---
 src/geometry/sphere.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 6e4f317..4d65658 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -111,7 +111,8 @@ impl Sphere {
     }
     pub fn area(&self) -> Float {
         // FloatODO: derive this formula
-        self.phi_max * self.radius * (self.z_max - self.z_min)
+        // phi lies in [-pi, phi_max]
+        (self.phi_max + Float::pi()) * self.radius * (self.z_max - self.z_min)
     }
 }
 
-- 
2.43.0


From cf71be135656705502df791e35228c5402581a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:14 +0000
Subject: [PATCH 18/22] fix: thin lens film is a quarter of the width its field
 of view needs

---
 src/cameras/thin_lens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/thin_lens.rs b/src/cameras/thin_lens.rs
index b5d3887..692ae24 100644
--- a/src/cameras/thin_lens.rs
+++ b/src/cameras/thin_lens.rs
@@ -56,7 +56,7 @@ impl ThinLensCamera {
         let film_distance = focal_distance * focal_length / (focal_distance - focal_length);
 
         // field of view h
-        let film_width = Float::half() * (fov * Float::half()).tan() * film_distance;
+        let film_width = Float::two() * (fov * Float::half()).tan() * film_distance;
         let film_height = film_width / aspect_ratio;
 
         Self {
-- 
2.43.0


From 8931d732411cdd4eca7be369d65bebf9cbd4b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:14 +0000
Subject: [PATCH 19/22] fix: thin lens rays do not meet at the plane of focus

---
 src/cameras/thin_lens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/thin_lens.rs b/src/cameras/thin_lens.rs
index 692ae24..822f254 100644
--- a/src/cameras/thin_lens.rs
+++ b/src/cameras/thin_lens.rs
@@ -95,7 +95,7 @@ impl Camera for ThinLensCamera {
         );
 
         // find t at z = -focal_distance
-        let t = -self.focal_distance / film_to_lens.direction.z();
+        let t = (-self.focal_distance - film_to_lens.origin.z()) / film_to_lens.direction.z();
         let p_at_focal_plane = film_to_lens.eval(t);
 
         // now the result is a ray passing from p_lens to p_at_focal_plane
-- 
2.43.0


From 294193ceb1ea8808bd9d7960d8e31cd1c709b4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:38 +0000
Subject: [PATCH 20/22] verif hook: cfg(scarlet_verif_f64) instantiates Float
 with f64

---
 src/math/scalar.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index cf1424d..e241329 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -3,8 +3,10 @@ use std::{
     ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Rem, RemAssign, Sub, SubAssign},
 };
 
-#[cfg(not(scarlet_verif))]
+#[cfg(not(any(scarlet_verif, scarlet_verif_f64)))]
 pub type Float = f32;
+#[cfg(all(scarlet_verif_f64, not(scarlet_verif)))]
+pub type Float = f64;
 #[cfg(scarlet_verif)]
 pub type Float = crate::verif::Sym;
 pub type Int = i32;
-- 
2.43.0


From 4c7226c968dc7fcbee86adc8ca7112af2e09fdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:39 +0000
Subject: [PATCH 21/22] fix: interval square root of a sum of squares whose
 lower bound rounds below zero

---
 src/math/interval.rs           | 6 +++++-
 src/math/interval_as_gfloat.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index d07f080..eb37053 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -63,7 +63,11 @@ impl<T: GFloat> Interval<T> {
     }
     #[inline]
     pub fn sqrt(self) -> Self {
-        Self::new(self.inf.sqrt().next_down(), self.sup.sqrt().next_up())
+        // rounding can push the lower bound of a non-negative value below zero
+        Self::new(
+            self.inf.max(T::zero()).sqrt().next_down(),
+            self.sup.sqrt().next_up(),
+        )
     }
     #[inline]
     pub fn approx(self) -> T {
diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 5af7487..809f082 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -86,7 +86,7 @@ impl<T: GFloat> GFloat for Interval<T> {
     #[inline]
     fn sqrt(self) -> Self {
         Self::from(T::min_max(
-            self.inf.sqrt().next_down(),
+            self.inf.max(T::zero()).sqrt().next_down(),
             self.sup.sqrt().next_up(),
         ))
     }
-- 
2.43.0


From de079d64af75d93ee490e19c454eb64fde4c3de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:42 +0000
Subject: [PATCH 22/22] fix: Interval::approx overflows for large finite bounds

---
 src/math/interval.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index eb37053..f5eb0ce 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -71,7 +71,12 @@ impl<T: GFloat> Interval<T> {
     }
     #[inline]
     pub fn approx(self) -> T {
-        (self.inf + self.sup) * T::half()
+        let sum = self.inf + self.sup;
+        if sum.is_finite() {
+            sum * T::half()
+        } else {
+            self.inf * T::half() + self.sup * T::half()
+        }
     }
     #[inline]
     pub fn in_range(self, t0: T, t1: T) -> bool {
-- 
2.43.0

