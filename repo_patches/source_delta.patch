From 9db9199ef7596f549385c257b0eb845f28d11e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:59 +0000
Subject: [PATCH 01/22] fix: upper bound of the product of two intervals that
 both straddle zero

---
 src/math/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index 92e275f..d07f080 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -239,7 +239,7 @@ impl<T: GFloat> std::ops::Mul<Self> for Interval<T> {
             } else {
                 Self::new(
                     (a.inf * b.sup).min(a.sup * b.inf).next_down(),
-                    (a.inf * a.inf).max(b.sup * b.sup).next_up(),
+                    (a.inf * b.inf).max(a.sup * b.sup).next_up(),
                 )
             }
         }
-- 
2.43.0


From c012cfdd325ee157ae93c3f7e559d6f33ec1d1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:01 +0000
Subject: [PATCH 02/22] fix: square root of an interval whose lower bound was
 rounded below zero

---
 src/math/interval.rs           | 4 +++-
 src/math/interval_as_gfloat.rs | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index d07f080..9be2912 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -63,7 +63,9 @@ impl<T: GFloat> Interval<T> {
     }
     #[inline]
     pub fn sqrt(self) -> Self {
-        Self::new(self.inf.sqrt().next_down(), self.sup.sqrt().next_up())
+        // a lower bound below zero is only an artefact of rounding outwards
+        let inf = self.inf.max(T::zero());
+        Self::new(inf.sqrt().next_down(), self.sup.sqrt().next_up())
     }
     #[inline]
     pub fn approx(self) -> T {
diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 8109230..4c2eb9c 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -71,8 +71,9 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn sqrt(self) -> Self {
+        let inf = self.inf.max(T::zero());
         Self::from(T::min_max(
-            self.inf.sqrt().next_down(),
+            inf.sqrt().next_down(),
             self.sup.sqrt().next_up(),
         ))
     }
-- 
2.43.0


From afe6e7aad6be60d5ebddf69af8f20287ed848953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:03 +0000
Subject: [PATCH 03/22] fix: is_infinite of floats answered is_finite

---
 src/math/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index 1b97025..1ac0302 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -460,7 +460,7 @@ impl GFloat for f32 {
         self.is_finite()
     }
     fn is_infinite(self) -> bool {
-        self.is_finite()
+        self.is_infinite()
     }
 
     // consts
@@ -653,7 +653,7 @@ impl GFloat for f64 {
         self.is_finite()
     }
     fn is_infinite(self) -> bool {
-        self.is_finite()
+        self.is_infinite()
     }
 
     // consts
-- 
2.43.0


From 856d3975c8a0d4fba7e72f858c28916656d6c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:05 +0000
Subject: [PATCH 04/22] fix: single precision upper bound of pi was below pi

---
 src/math/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index 1ac0302..5366b99 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -500,7 +500,7 @@ impl GFloat for f32 {
     }
     #[inline]
     fn pi_upper() -> Self {
-        13176794.0f32 / ((1 << 22) as f32)
+        13176795.0f32 / ((1 << 22) as f32)
     }
     #[inline]
     fn tau_lower() -> Self {
-- 
2.43.0


From 0aa1ed81354969e8d6b83474b8215253909b51c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:07 +0000
Subject: [PATCH 05/22] fix: interval sine and cosine missed extrema of
 arguments wider than pi

---
 src/math/interval_as_gfloat.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 4c2eb9c..566244d 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -86,8 +86,13 @@ impl<T: GFloat> GFloat for Interval<T> {
 
         let (cos_inf, cos_sup) = (self.inf.cos(), self.sup.cos());
 
+        // at least half a period which starts and ends on the same side (or on
+        // an extremum) passes through both a maximum and a minimum
+        if diff >= T::pi_lower() && (cos_inf * cos_sup).is_nonnegative() {
+            Self::new(-T::one(), T::one())
+        }
         // same side
-        if cos_inf.signum() == cos_sup.signum() {
+        else if cos_inf.signum() == cos_sup.signum() {
             let (t0, t1) = T::min_max(self.inf.sin(), self.sup.sin());
             Self::new(t0.next_down(), t1.next_up())
         } else {
@@ -109,8 +114,13 @@ impl<T: GFloat> GFloat for Interval<T> {
 
         let (sin_inf, sin_sup) = (self.inf.sin(), self.sup.sin());
 
+        // at least half a period which starts and ends on the same side (or on
+        // an extremum) passes through both a maximum and a minimum
+        if diff >= T::pi_lower() && (sin_inf * sin_sup).is_nonnegative() {
+            Self::new(-T::one(), T::one())
+        }
         // same side
-        if sin_inf.signum() == sin_sup.signum() {
+        else if sin_inf.signum() == sin_sup.signum() {
             let (t0, t1) = T::min_max(self.inf.cos(), self.sup.cos());
             Self::new(t0.next_down(), t1.next_up())
         } else {
-- 
2.43.0


From 2ad5546bcc5949db78fd7c5e32f7edf0b14c8513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:09 +0000
Subject: [PATCH 06/22] fix: interval arcsine and arccosine were clipped to the
 wrong range

---
 src/math/interval_as_gfloat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 566244d..47c14b8 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -146,12 +146,12 @@ impl<T: GFloat> GFloat for Interval<T> {
     #[inline]
     fn asin(self) -> Self {
         self.map_monotonic_inc(T::asin)
-            .intersect(Interval::new(T::zero(), T::frac_pi_2_upper()))
+            .intersect(Interval::new(-T::frac_pi_2_upper(), T::frac_pi_2_upper()))
     }
     #[inline]
     fn acos(self) -> Self {
         self.map_monotonic_dec(T::acos)
-            .intersect(Interval::new(T::zero(), T::frac_pi_2_upper()))
+            .intersect(Interval::new(T::zero(), T::pi_upper()))
     }
     #[inline]
     fn atan(self) -> Self {
-- 
2.43.0


From 26ef724e950021d08cecab2388444cde5c18430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:11 +0000
Subject: [PATCH 07/22] fix: interval atan2 with one zero argument returned
 zero

---
 src/math/interval_as_gfloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 47c14b8..5e35780 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -162,7 +162,7 @@ impl<T: GFloat> GFloat for Interval<T> {
         let y = self;
         let x = rhs;
 
-        if x.is_zero() || y.is_zero() {
+        if x.is_zero() && y.is_zero() {
             Interval::zero()
         }
         // X >= 0  -> first and fourth quadrants
-- 
2.43.0


From 26bc8d00efd14b1a6f8d2a731bf7b2d04125baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:13 +0000
Subject: [PATCH 08/22] fix: Interval::nan panicked in debug builds

---
 src/math/interval_as_gfloat.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 5e35780..8498363 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -38,7 +38,11 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn nan() -> Self {
-        Self::new(T::nan(), T::nan())
+        // not a valid interval, so it can't go through new
+        Self {
+            inf: T::nan(),
+            sup: T::nan(),
+        }
     }
 
     #[inline]
-- 
2.43.0


From 69796d01f23bae9308034597d42c385db3b85431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:15 +0000
Subject: [PATCH 09/22] fix: inexact conversions into an interval did not
 contain the converted number

---
 src/math/interval_as_gfloat.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 8498363..eb0106c 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -26,7 +26,13 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn from_i64(rhs: i64) -> Self {
-        Self::from(T::from_i64(rhs))
+        let t = T::from_i64(rhs);
+        // i64::MAX is never representable but the cast back saturates to it
+        if t.to_i64() == rhs && rhs != i64::MAX {
+            Self::from(t)
+        } else {
+            Self::from(t).extend_by_ulp()
+        }
     }
     #[inline]
     fn from_f32(rhs: f32) -> Self {
@@ -34,7 +40,12 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn from_f64(rhs: f64) -> Self {
-        Self::from(T::from_f64(rhs))
+        let t = T::from_f64(rhs);
+        if t.to_f64() == rhs {
+            Self::from(t)
+        } else {
+            Self::from(t).extend_by_ulp()
+        }
     }
     #[inline]
     fn nan() -> Self {
-- 
2.43.0


From 49a5e0e7a7d9ec30cb2cf10c6c98452ea7c62991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:22 +0000
Subject: [PATCH 10/22] fix: mapping a normal multiplied its z term twice

---
 src/math/transform.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/transform.rs b/src/math/transform.rs
index 4b5e6c4..301d80f 100644
--- a/src/math/transform.rs
+++ b/src/math/transform.rs
@@ -565,9 +565,9 @@ where
 {
     // normals are mapped by the inverse transpose of the transformation matrix
     Normal3::new(
-        n.x() * minv[(0, 0)] + n.y() * minv[(1, 0)] + n.z() * minv[(2, 0)] * n.z(),
-        n.x() * minv[(0, 1)] + n.y() * minv[(1, 1)] + n.z() * minv[(2, 1)] * n.z(),
-        n.x() * minv[(0, 2)] + n.y() * minv[(1, 2)] + n.z() * minv[(2, 2)] * n.z(),
+        n.x() * minv[(0, 0)] + n.y() * minv[(1, 0)] + n.z() * minv[(2, 0)],
+        n.x() * minv[(0, 1)] + n.y() * minv[(1, 1)] + n.z() * minv[(2, 1)],
+        n.x() * minv[(0, 2)] + n.y() * minv[(1, 2)] + n.z() * minv[(2, 2)],
     )
 }
 
-- 
2.43.0


From 1bfcc24670e9bda1fe73ebb8f2bbc920e2f873e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:24 +0000
Subject: [PATCH 11/22] fix: mapping an interval vector by an affine transform
 panicked

---
 src/math/transform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/transform.rs b/src/math/transform.rs
index 301d80f..2a97c8c 100644
--- a/src/math/transform.rs
+++ b/src/math/transform.rs
@@ -501,10 +501,10 @@ where
     T: Scalar,
     U: Scalar + Mul<T, Output = U>,
 {
-    assert_eq!(
-        vec.x() * m[(3, 0)] + vec.y() * m[(3, 1)] + vec.z() * m[(3, 2)],
-        U::zero()
-    );
+    let w = vec.x() * m[(3, 0)] + vec.y() * m[(3, 1)] + vec.z() * m[(3, 2)];
+    // an interval around zero is not equal to zero, but neither is it certain
+    // to be different from zero
+    assert!(!(w < U::zero() || w > U::zero()));
     Vector3::new(
         vec.x() * m[(0, 0)] + vec.y() * m[(0, 1)] + vec.z() * m[(0, 2)],
         vec.x() * m[(1, 0)] + vec.y() * m[(1, 1)] + vec.z() * m[(1, 2)],
-- 
2.43.0


From b23423d8319a38cc0b71afe134f9aa760219f963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:26 +0000
Subject: [PATCH 12/22] fix: mapping a box accumulated the products on the
 wrong axis

---
 src/geometry/bbox.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index fa31a65..869c728 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -298,11 +298,11 @@ fn map_bbox(m: Matrix4x4f, bbox: &Bbox3) -> Bbox3 {
             let b = m[i][j] * bbox_pmax[j];
 
             if a < b {
-                pmin[j] += a;
-                pmax[j] += b;
+                pmin[i] += a;
+                pmax[i] += b;
             } else {
-                pmin[j] += b;
-                pmax[j] += a;
+                pmin[i] += b;
+                pmax[i] += a;
             }
         }
     }
-- 
2.43.0


From a39dc68b732ad6d144ce04c5abc08fc434e8a71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:28 +0000
Subject: [PATCH 13/22] fix: rays lying in a bounding plane of a box missed it

---
 src/geometry/bbox.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index 869c728..e2722f8 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -138,8 +138,17 @@ impl Bbox3 {
         let tmin = (self.pmin - ray.origin) / ray.direction;
         let tmax = (self.pmax - ray.origin) / ray.direction;
 
-        let t1 = tmin.min(tmax);
-        let t2 = tmin.max(tmax);
+        let mut t1 = tmin.min(tmax);
+        let mut t2 = tmin.max(tmax);
+
+        for i in 0..3 {
+            // 0/0: the ray lies in a plane bounding the slab, so the whole ray
+            // is inside the slab
+            if tmin[i].is_nan() || tmax[i].is_nan() {
+                t1[i] = Float::neg_infinity();
+                t2[i] = Float::infinity();
+            }
+        }
 
         let tnear = t1.x().max(t1.y()).max(t1.z());
         let tfar = t2.x().min(t2.y()).min(t2.z());
-- 
2.43.0


From 30d8a2b2dad89cd7a897f3ed20d1602017c6317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:31 +0000
Subject: [PATCH 14/22] fix: primitive list returned the last hit instead of
 the nearest

---
 src/geometry/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/primitive.rs b/src/geometry/primitive.rs
index 9adb447..57424ea 100644
--- a/src/geometry/primitive.rs
+++ b/src/geometry/primitive.rs
@@ -151,7 +151,7 @@ impl IntersectsRay for PrimitiveList {
         let mut result = None;
         let mut ray_mut = ray;
         for primitive_handle in self.primitives.iter() {
-            if let Some(intersection_result) = (*primitive_handle).intersect(ray) {
+            if let Some(intersection_result) = (*primitive_handle).intersect(ray_mut) {
                 ray_mut.tmax = intersection_result.t_ray;
                 result = Some(intersection_result);
             }
-- 
2.43.0


From 8be68ee082893f1892b44ad4444a7d20cf25d66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:33 +0000
Subject: [PATCH 15/22] fix: transformed primitives returned hit records in
 object space

---
 src/geometry/primitive.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/geometry/primitive.rs b/src/geometry/primitive.rs
index 57424ea..57a5870 100644
--- a/src/geometry/primitive.rs
+++ b/src/geometry/primitive.rs
@@ -110,7 +110,19 @@ impl<T: Primitive> IntersectsRay for TransformedPrimitive<T> {
     fn intersect(&self, ray: Rayf) -> Option<IntersectionResult> {
         // note that "t" computed in object space is the same as in world space
         let transformed_ray = self.world_to_object(ray);
-        self.primitive.intersect(transformed_ray)
+        self.primitive.intersect(transformed_ray).map(|result| {
+            let interaction = result.surface_interaction;
+            IntersectionResult {
+                surface_interaction: SurfaceInteraction {
+                    p: self.object_to_world(interaction.p),
+                    n: self.object_to_world(interaction.n).normalize(),
+                    uv: interaction.uv,
+                    dpdu: self.object_to_world(interaction.dpdu),
+                    dpdv: self.object_to_world(interaction.dpdv),
+                },
+                t_ray: result.t_ray,
+            }
+        })
     }
 
     fn do_intersect(&self, ray: Rayf) -> bool {
-- 
2.43.0


From 5cb258d272941e308db3a3aaa46cd004ec611da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:35 +0000
Subject: [PATCH 16/22] fix: polar angle of the lower hemisphere of spheres

---
 src/geometry/sphere.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 550ee7a..6e4f317 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -49,8 +49,8 @@ impl Sphere {
     pub fn new(radius: Float, z_min: Float, z_max: Float, phi_max: Float) -> Self {
         assert!(z_min < z_max);
 
-        let theta_min = Float::clamp(z_min / radius, Float::zero(), Float::one()).acos();
-        let theta_max = Float::clamp(z_max / radius, Float::zero(), Float::one()).acos();
+        let theta_min = Float::clamp(z_min / radius, -Float::one(), Float::one()).acos();
+        let theta_max = Float::clamp(z_max / radius, -Float::one(), Float::one()).acos();
 
         Self {
             radius,
@@ -125,7 +125,7 @@ impl IntersectsRay for Sphere {
         let t_ray = intersection_params.t_ray;
         let p = intersection_params.p;
         let phi = intersection_params.phi;
-        let theta = Float::clamp(p.z() / self.radius, Float::zero(), Float::one()).acos();
+        let theta = Float::clamp(p.z() / self.radius, -Float::one(), Float::one()).acos();
 
         let sin_theta = theta.sin();
         let (sin_phi, cos_phi) = phi.sin_cos();
-- 
2.43.0


From 88e130644a8fffe94a27fbbf0e50214d5e78ce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:04 +0000
Subject: [PATCH 17/22] fix: sphere normals were NaN at the poles

---
 src/geometry/sphere.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 6e4f317..0b7b33a 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -6,7 +6,7 @@ use crate::{
     },
     math::{
         scalar::{Float, GFloat, Scalar, SignedScalar},
-        vector::{Point2f, Point3f, Vector3f},
+        vector::{Normal3f, Point2f, Point3f, Vector3f},
     },
 };
 
@@ -157,8 +157,15 @@ impl IntersectsRay for Sphere {
         let dpdv = Vector3f::new(p.z() * cos_phi, p.z() * sin_phi, -self.radius * sin_theta)
             * (theta_max_minus_theta_min);
 
-        let surface_interaction =
-            SurfaceInteraction::new(intersection_params.p, Point2f::new(u, v), dpdu, dpdv);
+        // dpdu vanishes at the poles so the normal can't be computed from the
+        // tangents
+        let surface_interaction = SurfaceInteraction {
+            p,
+            n: Normal3f::from(Vector3f::from(p).normalize()),
+            uv: Point2f::new(u, v),
+            dpdu,
+            dpdv,
+        };
 
         Some(IntersectionResult {
             surface_interaction,
-- 
2.43.0


From b780fa6a339fb4d5b79c34d14e54e8513d00a973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:06 +0000
Subject: [PATCH 18/22] fix: unclipped spheres rejected hits rounded beyond the
 poles

---
 src/geometry/sphere.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 0b7b33a..ad95e6b 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -87,7 +87,10 @@ impl Sphere {
             // should we refine hitpoint by further projecting it on the sphere?
             let hit_point = ray.eval(t);
 
-            if !hit_point.z().in_range(self.z_min, self.z_max) {
+            // don't lose hits next to the poles when the sphere isn't clipped there
+            if (self.z_min > -self.radius && hit_point.z() < self.z_min)
+                || (self.z_max < self.radius && hit_point.z() > self.z_max)
+            {
                 return None;
             }
 
-- 
2.43.0


From ea998d1ae6e22dbd9be70c26957acc49c927e4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:08 +0000
Subject: [PATCH 19/22] fix: sphere area assumed that phi starts at zero
 instead of -pi

---
 src/geometry/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index ad95e6b..86de09e 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -114,7 +114,7 @@ impl Sphere {
     }
     pub fn area(&self) -> Float {
         // FloatODO: derive this formula
-        self.phi_max * self.radius * (self.z_max - self.z_min)
+        (self.phi_max + Float::pi()) * self.radius * (self.z_max - self.z_min)
     }
 }
 
-- 
2.43.0


From 1806d4acf453fb0e35a9e02884d29f2b805ea5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:10 +0000
Subject: [PATCH 20/22] fix: thin lens film was four times narrower than its
 field of view

---
 src/cameras/thin_lens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/thin_lens.rs b/src/cameras/thin_lens.rs
index b5d3887..692ae24 100644
--- a/src/cameras/thin_lens.rs
+++ b/src/cameras/thin_lens.rs
@@ -56,7 +56,7 @@ impl ThinLensCamera {
         let film_distance = focal_distance * focal_length / (focal_distance - focal_length);
 
         // field of view h
-        let film_width = Float::half() * (fov * Float::half()).tan() * film_distance;
+        let film_width = Float::two() * (fov * Float::half()).tan() * film_distance;
         let film_height = film_width / aspect_ratio;
 
         Self {
-- 
2.43.0


From 6ea0dd4188a76f70a2ef071c1e1c4304104b3a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:13 +0000
Subject: [PATCH 21/22] fix: thin lens rays did not meet at the focal plane

---
 src/cameras/thin_lens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/thin_lens.rs b/src/cameras/thin_lens.rs
index 692ae24..2be396d 100644
--- a/src/cameras/thin_lens.rs
+++ b/src/cameras/thin_lens.rs
@@ -95,7 +95,7 @@ impl Camera for ThinLensCamera {
         );
 
         // find t at z = -focal_distance
-        let t = -self.focal_distance / film_to_lens.direction.z();
+        let t = (-self.focal_distance - p_film.z()) / film_to_lens.direction.z();
         let p_at_focal_plane = film_to_lens.eval(t);
 
         // now the result is a ray passing from p_lens to p_at_focal_plane
-- 
2.43.0


From 120cf1e7b39b68a831dad896e147d3559de4ad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:04 +0000
Subject: [PATCH 22/22] fix: interval min_max, clamp and signum ignored that
 overlapping intervals have no order

---
 src/math/interval.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index 9be2912..0a971b4 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -427,12 +427,26 @@ impl<T: GFloat> Scalar for Interval<T> {
     fn min(self, other: Self) -> Self {
         Self::new(self.inf.min(other.inf), self.sup.min(other.sup))
     }
+    // the bounds have to be ordered separately since overlapping intervals are
+    // not comparable
+    #[inline]
+    fn min_max(self, other: Self) -> (Self, Self) {
+        (Scalar::min(self, other), Scalar::max(self, other))
+    }
+    #[inline]
+    fn clamp(self, lo: Self, hi: Self) -> Self {
+        Scalar::min(Scalar::max(self, lo), hi)
+    }
     #[inline]
     fn square(self) -> Self {
         self.square()
     }
 }
 impl<T: GFloat> SignedScalar for Interval<T> {
+    #[inline]
+    fn signum(self) -> Self {
+        Self::new(self.inf.signum(), self.sup.signum())
+    }
     #[inline]
     fn abs(self) -> Self {
         if self.inf.is_negative() {
-- 
2.43.0

