From f49238fa3646f4ba1e4aae0571add67f8b35a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:30 +0000
Subject: [PATCH 01/24] fix: normalizing a tiny negative angle stays below a
 full turn

---
 crates/cglinalg_trigonometry/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/cglinalg_trigonometry/src/lib.rs b/crates/cglinalg_trigonometry/src/lib.rs
index 3f0eab4..74f15e7 100644
--- a/crates/cglinalg_trigonometry/src/lib.rs
+++ b/crates/cglinalg_trigonometry/src/lib.rs
@@ -413,7 +413,13 @@ where
     fn normalize(self) -> Self {
         let remainder = self % Self::full_turn();
         if remainder < Self::zero() {
-            remainder + Self::full_turn()
+            // The sum rounds up to a full turn when the remainder is tiny.
+            let shifted = remainder + Self::full_turn();
+            if shifted < Self::full_turn() {
+                shifted
+            } else {
+                Self::zero()
+            }
         } else {
             remainder
         }
-- 
2.43.0


From 6e8aa3874a75d1b67907dd5673da870be5f9c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:30 +0000
Subject: [PATCH 02/24] fix: signed normalization maps a half turn into [-half
 turn, half turn)

---
 crates/cglinalg_trigonometry/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_trigonometry/src/lib.rs b/crates/cglinalg_trigonometry/src/lib.rs
index 74f15e7..8ec5a20 100644
--- a/crates/cglinalg_trigonometry/src/lib.rs
+++ b/crates/cglinalg_trigonometry/src/lib.rs
@@ -446,7 +446,7 @@ where
     #[inline]
     fn normalize_signed(self) -> Self {
         let remainder = self.normalize();
-        if remainder > Self::full_turn_div_2() {
+        if remainder >= Self::full_turn_div_2() {
             remainder - Self::full_turn()
         } else {
             remainder
-- 
2.43.0


From 7794e81963e2a98dc0bfc8a03c76f59444c92f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:44 +0000
Subject: [PATCH 03/24] fix: the diagonal of an N-by-N matrix has N components

---
 crates/cglinalg_core/src/matrix.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index d808038..be5c255 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -22,7 +22,6 @@ use crate::vector::{
     Vector,
     Vector2,
     Vector3,
-    Vector4,
 };
 use crate::{
     impl_coords,
@@ -1364,7 +1363,7 @@ where
     /// assert_eq!(result, expected);
     /// ```
     #[inline]
-    pub fn diagonal(&self) -> Vector4<S> {
+    pub fn diagonal(&self) -> Vector<S, N> {
         // PERFORMANCE: The const loop should get unrolled during optimization.
         let mut result = Vector::zero();
         for i in 0..N {
-- 
2.43.0


From 308d76351ad7cae7a2985a765823e25d0216da7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:26 +0000
Subject: [PATCH 04/24] fix: the inverse viewing isometries move the origin to
 the eye

---
 crates/cglinalg_transform/src/isometry.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/cglinalg_transform/src/isometry.rs b/crates/cglinalg_transform/src/isometry.rs
index cc9e806..49776e3 100644
--- a/crates/cglinalg_transform/src/isometry.rs
+++ b/crates/cglinalg_transform/src/isometry.rs
@@ -1638,7 +1638,7 @@ where
     #[inline]
     pub fn look_to_lh_inv(eye: &Point3<S>, direction: &Vector3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_to_lh_inv(direction, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1683,7 +1683,7 @@ where
     #[inline]
     pub fn look_to_rh_inv(eye: &Point3<S>, direction: &Vector3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_to_rh_inv(direction, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1728,7 +1728,7 @@ where
     #[inline]
     pub fn look_at_lh_inv(eye: &Point3<S>, target: &Point3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_at_lh_inv(eye, target, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1773,7 +1773,7 @@ where
     #[inline]
     pub fn look_at_rh_inv(eye: &Point3<S>, target: &Point3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_at_rh_inv(eye, target, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
-- 
2.43.0


From b798fae2df61a5ed0b02b76684d524a425585139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:19 +0000
Subject: [PATCH 05/24] fix: perspective projection of a point uses the
 vertical plane offset of an asymmetric frustum

---
 crates/cglinalg_transform/src/projection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_transform/src/projection.rs b/crates/cglinalg_transform/src/projection.rs
index f720587..99c9eb6 100644
--- a/crates/cglinalg_transform/src/projection.rs
+++ b/crates/cglinalg_transform/src/projection.rs
@@ -1921,7 +1921,7 @@ where
 
         Point3::new(
             (self.matrix.c0r0 * point.x + self.matrix.c2r0 * point.z) * inverse_w,
-            (self.matrix.c1r1 * point.y + self.matrix.c3r1 * point.z) * inverse_w,
+            (self.matrix.c1r1 * point.y + self.matrix.c2r1 * point.z) * inverse_w,
             (self.matrix.c2r2 * point.z + self.matrix.c3r2) * inverse_w,
         )
     }
-- 
2.43.0


From 6786f78a08822c56f64a335e721084f6ed8cb6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:35 +0000
Subject: [PATCH 06/24] fix: the vertical field of view of a perspective
 projection may be a right angle or more

---
 crates/cglinalg_transform/src/projection.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/cglinalg_transform/src/projection.rs b/crates/cglinalg_transform/src/projection.rs
index 99c9eb6..638b49b 100644
--- a/crates/cglinalg_transform/src/projection.rs
+++ b/crates/cglinalg_transform/src/projection.rs
@@ -826,8 +826,7 @@ where
         let two = one + one;
         let numerator = two * self.matrix[1][1];
         let denominator = self.matrix[2][1] * self.matrix[2][1] + self.matrix[1][1] * self.matrix[1][1] - one;
-        let tan_vfov = numerator / denominator;
-        let vfov = tan_vfov.atan();
+        let vfov = numerator.atan2(denominator);
 
         Radians(vfov)
     }
-- 
2.43.0


From a49648f0233c571e1379d6a741210802dc67cdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:09 +0000
Subject: [PATCH 07/24] fix: the polar form of a quaternion keeps the sign of
 its scalar part

---
 crates/cglinalg_core/src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index f80c098..dc17b99 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3056,7 +3056,7 @@ where
         let pair = Unit::try_from_value_with_norm(*self, S::zero());
         if let Some((unit_q, norm_q)) = pair {
             if let Some(axis) = Unit::try_from_value(self.vector(), S::zero()) {
-                let cos_angle_over_two = unit_q.scalar().abs();
+                let cos_angle_over_two = unit_q.scalar();
                 let sin_angle_over_two = unit_q.vector().norm();
                 let angle_over_two = Radians::atan2(sin_angle_over_two, cos_angle_over_two);
 
-- 
2.43.0


From 24553203f0511fea229df91611be6bca13d20765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:07 +0000
Subject: [PATCH 08/24] fix: the arc functions of real quaternions are the real
 ones instead of NaN

---
 crates/cglinalg_core/src/quaternion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index dc17b99..eba505f 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3187,7 +3187,7 @@ where
     /// ```
     #[inline]
     pub fn acos(&self) -> Self {
-        let signum_vec_self = Self::from_pure(self.vector().normalize());
+        let signum_vec_self = Self::from_pure(self.vector().try_normalize(S::zero()).unwrap_or_else(Vector3::unit_x));
         let identity = Self::identity();
         let q = (self + (self.squared() - identity).sqrt()).ln();
 
@@ -3269,7 +3269,7 @@ where
     /// ```
     #[inline]
     pub fn asin(&self) -> Self {
-        let signum_vec_self = Self::from_pure(self.vector().normalize());
+        let signum_vec_self = Self::from_pure(self.vector().try_normalize(S::zero()).unwrap_or_else(Vector3::unit_x));
         let identity = Self::identity();
         let q = ((signum_vec_self * self) + (identity - self.squared()).sqrt()).ln();
 
@@ -3367,7 +3367,7 @@ where
     /// ```
     #[inline]
     pub fn atan(&self) -> Self {
-        let signum_vec_self = Self::from_pure(self.vector().normalize());
+        let signum_vec_self = Self::from_pure(self.vector().try_normalize(S::zero()).unwrap_or_else(Vector3::unit_x));
         let numerator = signum_vec_self + self;
         let denominator = signum_vec_self - self;
         let q = numerator.div_right(&denominator).unwrap();
-- 
2.43.0


From 6e5b4035b9e768167a4ac6833bd6b475015ec97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:39 +0000
Subject: [PATCH 09/24] fix: the arccosine of a pure quaternion stays in its
 complex plane

---
 crates/cglinalg_core/src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index eba505f..000e0fb 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3189,7 +3189,7 @@ where
     pub fn acos(&self) -> Self {
         let signum_vec_self = Self::from_pure(self.vector().try_normalize(S::zero()).unwrap_or_else(Vector3::unit_x));
         let identity = Self::identity();
-        let q = (self + (self.squared() - identity).sqrt()).ln();
+        let q = (self + signum_vec_self * (identity - self.squared()).sqrt()).ln();
 
         -(signum_vec_self * q)
     }
-- 
2.43.0


From 9522dd9c76b70ad77e73cff86f1de4255e4f699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:07 +0000
Subject: [PATCH 10/24] fix: the arctangent of a pure quaternion longer than
 one inverts the tangent

---
 crates/cglinalg_core/src/quaternion.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index 000e0fb..8eb2ef1 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3371,8 +3371,13 @@ where
         let numerator = signum_vec_self + self;
         let denominator = signum_vec_self - self;
         let q = numerator.div_right(&denominator).unwrap();
+        // NOTE: The quotient is negative and real when `self` is a pure quaternion longer
+        // than one, so its argument must be taken along the direction of `self`.
+        let direction = signum_vec_self.vector();
+        let arg_q = S::atan2(q.vector().dot(&direction), q.scalar());
+        let ln_q = Self::from_parts(q.norm().ln(), direction * arg_q);
 
-        signum_vec_self.half() * q.ln()
+        signum_vec_self.half() * ln_q
     }
 
     /// Compute the quaternionic hyperbolic cosine of `self`.
-- 
2.43.0


From 9982f96264122920bc7da2093ea43805db7a8db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:30 +0000
Subject: [PATCH 11/24] fix: the hyperbolic arcsine of a pure quaternion stays
 in its complex plane

---
 crates/cglinalg_core/src/quaternion.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index 8eb2ef1..1b58104 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3528,8 +3528,15 @@ where
     #[inline]
     pub fn asinh(&self) -> Self {
         let identity = Self::identity();
+        let root = if self.is_pure() && self.norm_squared() > S::one() {
+            // NOTE: The square is negative and real, so its square root must be taken along
+            // the direction of `self`.
+            self * S::sqrt(S::one() - S::one() / self.norm_squared())
+        } else {
+            (self.squared() + identity).sqrt()
+        };
 
-        (self + (self.squared() + identity).sqrt()).ln()
+        (self + root).ln()
     }
 
     /// Compute the quaternionic hyperbolic tangent of `self`.
-- 
2.43.0


From b8ec44e0b20e06ca0ed037f738e84e54258703c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:48 +0000
Subject: [PATCH 12/24] fix: odd negative powers of complex numbers are
 reciprocals of the positive ones

---
 crates/cglinalg_core/src/complex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/complex.rs b/crates/cglinalg_core/src/complex.rs
index 7df2ddf..cefc515 100644
--- a/crates/cglinalg_core/src/complex.rs
+++ b/crates/cglinalg_core/src/complex.rs
@@ -1307,8 +1307,8 @@ where
         }
 
         // exponent != 0
-        let mut _exponent = exponent;
-        let mut base = if _exponent > 0 {
+        let mut _exponent = exponent.unsigned_abs();
+        let mut base = if exponent > 0 {
             self
         } else {
             let norm_squared = self.norm_squared();
-- 
2.43.0


From a639fe5e9997524f7e3790acc5f68458667c9f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:31 +0000
Subject: [PATCH 13/24] fix: complex and quaternion tangents of large arguments
 saturate instead of NaN

---
 crates/cglinalg_core/src/complex.rs    | 3 +++
 crates/cglinalg_core/src/quaternion.rs | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/crates/cglinalg_core/src/complex.rs b/crates/cglinalg_core/src/complex.rs
index cefc515..8ef0962 100644
--- a/crates/cglinalg_core/src/complex.rs
+++ b/crates/cglinalg_core/src/complex.rs
@@ -1825,6 +1825,9 @@ where
         let two_times_re = self.re + self.re;
         let two_times_im = self.im + self.im;
         let denominator = S::cosh(two_times_re) + S::cos(two_times_im);
+        if denominator.is_infinite() {
+            return Self::new(S::copysign(S::one(), self.re), S::copysign(S::zero(), S::sin(two_times_im)));
+        }
         let tanh_re = S::sinh(two_times_re) / denominator;
         let tanh_im = S::sin(two_times_im) / denominator;
 
diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index 1b58104..387b468 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3335,6 +3335,9 @@ where
         let sin_s = self.scalar().sin();
         let denom_s = cos_s * cos_s + sinh_norm_v * sinh_norm_v;
         let denom_v = denom_s * norm_v;
+        if denom_v.is_infinite() {
+            return Self::from_pure(self.vector() / norm_v);
+        }
         let scalar = cos_s * sin_s / denom_s;
         let vector = self.vector() * (cosh_norm_v * sinh_norm_v / denom_v);
 
@@ -3601,6 +3604,9 @@ where
         let sinh_s = self.scalar().sinh();
         let denom_s = sinh_s * sinh_s + cos_norm_v * cos_norm_v;
         let denom_v = denom_s * norm_v;
+        if denom_v.is_infinite() {
+            return Self::from_real(S::copysign(S::one(), self.scalar()));
+        }
         let scalar = cosh_s * sinh_s / denom_s;
         let vector = self.vector() * (cos_norm_v * sin_norm_v / denom_v);
 
-- 
2.43.0


From e1a8b7e6b21e31488af0c06931e657be1fc1accb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:54 +0000
Subject: [PATCH 14/24] fix: Euler angles extracted in or near gimbal lock
 rebuild the rotation

---
 crates/cglinalg_core/src/euler.rs         | 22 +++++++++-------------
 crates/cglinalg_transform/src/rotation.rs | 22 +++++++++-------------
 2 files changed, 18 insertions(+), 26 deletions(-)

diff --git a/crates/cglinalg_core/src/euler.rs b/crates/cglinalg_core/src/euler.rs
index e040d69..e8828a1 100644
--- a/crates/cglinalg_core/src/euler.rs
+++ b/crates/cglinalg_core/src/euler.rs
@@ -492,19 +492,15 @@ where
 
     #[inline]
     fn from_matrix(matrix: &Matrix3x3<S>) -> Euler<Radians<S>> {
-        let yaw = Radians::asin(matrix[2][0]);
-        let cos_yaw = Radians::cos(yaw);
-        let (pitch, roll) = if cos_yaw.abs().is_zero() {
-            let _pitch = Radians::zero();
-            let _roll = Radians::atan2(matrix[1][2], matrix[1][1]);
-
-            (_pitch, _roll)
-        } else {
-            let _pitch = Radians::atan2(-matrix[1][0], matrix[0][0]);
-            let _roll = Radians::atan2(-matrix[2][1], matrix[2][2]);
-
-            (_pitch, _roll)
-        };
+        // The pitch is taken relative to the roll, so that the angles describe the same
+        // rotation in gimbal lock, where the roll and the pitch cannot be told apart.
+        let yaw = Radians::atan2(matrix[2][0], matrix[0][0].hypot(matrix[1][0]));
+        let roll = Radians::atan2(-matrix[2][1], matrix[2][2]);
+        let (sin_roll, cos_roll) = Radians::sin_cos(roll);
+        let pitch = Radians::atan2(
+            cos_roll * matrix[0][1] + sin_roll * matrix[0][2],
+            cos_roll * matrix[1][1] + sin_roll * matrix[1][2],
+        );
 
         Euler::new(roll, yaw, pitch)
     }
diff --git a/crates/cglinalg_transform/src/rotation.rs b/crates/cglinalg_transform/src/rotation.rs
index 487fbea..dd01b85 100644
--- a/crates/cglinalg_transform/src/rotation.rs
+++ b/crates/cglinalg_transform/src/rotation.rs
@@ -1835,19 +1835,15 @@ where
     /// ```
     #[inline]
     pub fn euler_angles(&self) -> Euler<Radians<S>> {
-        let yaw = Radians::asin(self.matrix[2][0]);
-        let cos_yaw = Radians::cos(yaw);
-        let (pitch, roll) = if cos_yaw.abs().is_zero() {
-            let _pitch = Radians::zero();
-            let _roll = Radians::atan2(self.matrix[1][2], self.matrix[1][1]);
-
-            (_pitch, _roll)
-        } else {
-            let _pitch = Radians::atan2(-self.matrix[1][0], self.matrix[0][0]);
-            let _roll = Radians::atan2(-self.matrix[2][1], self.matrix[2][2]);
-
-            (_pitch, _roll)
-        };
+        // The pitch is taken relative to the roll, so that the angles describe the same
+        // rotation in gimbal lock, where the roll and the pitch cannot be told apart.
+        let yaw = Radians::atan2(self.matrix[2][0], self.matrix[0][0].hypot(self.matrix[1][0]));
+        let roll = Radians::atan2(-self.matrix[2][1], self.matrix[2][2]);
+        let (sin_roll, cos_roll) = Radians::sin_cos(roll);
+        let pitch = Radians::atan2(
+            cos_roll * self.matrix[0][1] + sin_roll * self.matrix[0][2],
+            cos_roll * self.matrix[1][1] + sin_roll * self.matrix[1][2],
+        );
 
         Euler::new(roll, yaw, pitch)
     }
-- 
2.43.0


From ca71949d5dba63cd62edde84115359e5fa61696d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:44 +0000
Subject: [PATCH 15/24] fix: the planar rotation matrix between two vectors
 turns clockwise where that is shorter

---
 crates/cglinalg_core/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index be5c255..c960c83 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -3233,7 +3233,7 @@ where
     #[inline]
     pub fn rotation_between_axis(v1: &Unit<Vector2<S>>, v2: &Unit<Vector2<S>>) -> Self {
         let cos_angle = v1.as_ref().dot(v2.as_ref());
-        let sin_angle = S::sqrt(S::one() - cos_angle * cos_angle);
+        let sin_angle = v1[0] * v2[1] - v1[1] * v2[0];
 
         Self::from_angle(Radians::atan2(sin_angle, cos_angle))
     }
-- 
2.43.0


From 190fec84ef5452001fc869bd1199421d9c3bc1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:44 +0000
Subject: [PATCH 16/24] fix: the rotation matrix between nearly parallel
 vectors is never NaN

---
 crates/cglinalg_core/src/matrix.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index c960c83..ea95a38 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -5254,8 +5254,8 @@ where
         if let (Some(unit_v1), Some(unit_v2)) = (v1.try_normalize(S::zero()), v2.try_normalize(S::zero())) {
             let cross = unit_v1.cross(&unit_v2);
 
-            if let Some(axis) = Unit::try_from_value(cross, threshold) {
-                return Some(Self::from_axis_angle(&axis, Radians::acos(unit_v1.dot(&unit_v2))));
+            if let Some((axis, sin_angle)) = Unit::try_from_value_with_norm(cross, threshold) {
+                return Some(Self::from_axis_angle(&axis, Radians::atan2(sin_angle, unit_v1.dot(&unit_v2))));
             }
 
             if unit_v1.dot(&unit_v2) < S::zero() {
@@ -5302,8 +5302,8 @@ where
         let cross = unit_v1.as_ref().cross(unit_v2.as_ref());
         let cos_angle = unit_v1.as_ref().dot(unit_v2.as_ref());
 
-        if let Some(axis) = Unit::try_from_value(cross, threshold) {
-            return Some(Self::from_axis_angle(&axis, Radians::acos(cos_angle)));
+        if let Some((axis, sin_angle)) = Unit::try_from_value_with_norm(cross, threshold) {
+            return Some(Self::from_axis_angle(&axis, Radians::atan2(sin_angle, cos_angle)));
         }
 
         if cos_angle < S::zero() {
-- 
2.43.0


From 2a1ee8bba98e416217870c4056f429d492de6b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:35 +0000
Subject: [PATCH 17/24] fix: the angle of a rotation is never NaN

The arc cosine of the trace left its domain by rounding, for example for
a rotation composed with its inverse, and resolved no angle below 1e-8.
---
 crates/cglinalg_transform/src/rotation.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_transform/src/rotation.rs b/crates/cglinalg_transform/src/rotation.rs
index dd01b85..18a7e99 100644
--- a/crates/cglinalg_transform/src/rotation.rs
+++ b/crates/cglinalg_transform/src/rotation.rs
@@ -976,10 +976,18 @@ where
     /// ```
     #[inline]
     pub fn angle(&self) -> Radians<S> {
-        let two = cglinalg_numeric::cast(2);
+        // The trace alone determines the angle, but its rounding errors can push the
+        // cosine out of the domain of the arc cosine, and the cosine is insensitive to
+        // angles near zero or a half turn.
         let trace_self = self.matrix.c0r0 + self.matrix.c1r1 + self.matrix.c2r2;
+        let two_sin_angle = Vector3::new(
+            self.matrix.c1r2 - self.matrix.c2r1,
+            self.matrix.c2r0 - self.matrix.c0r2,
+            self.matrix.c0r1 - self.matrix.c1r0,
+        )
+        .norm();
 
-        Radians::acos((trace_self - S::one()) / two)
+        Radians::atan2(two_sin_angle, trace_self - S::one())
     }
 
     /// Compute the axis of the rotation if it exists.
-- 
2.43.0


From bd1edc436efb44bdd45b4811c3047c0094a77096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:12 +0000
Subject: [PATCH 18/24] fix: isometries far apart are not approximately equal

The all-components absolute comparison of isometries compared the
rotations only and ignored the translations.
---
 crates/cglinalg_transform/src/isometry.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/cglinalg_transform/src/isometry.rs b/crates/cglinalg_transform/src/isometry.rs
index 49776e3..bab0ab1 100644
--- a/crates/cglinalg_transform/src/isometry.rs
+++ b/crates/cglinalg_transform/src/isometry.rs
@@ -1835,10 +1835,13 @@ where
 
     #[inline]
     fn abs_diff_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> bool {
-        let lhs = self.rotation.matrix();
-        let rhs = other.rotation.matrix();
+        let lhs_rotation = self.rotation.matrix();
+        let rhs_rotation = other.rotation.matrix();
+        let lhs_translation = self.translation.vector();
+        let rhs_translation = other.translation.vector();
 
-        approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs, rhs, max_abs_diff)
+        approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs_rotation, rhs_rotation, max_abs_diff)
+            && approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs_translation, rhs_translation, max_abs_diff)
     }
 }
 
-- 
2.43.0


From 58b3e3d4ad909d96a19040e66c722ec00a357efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:28 +0000
Subject: [PATCH 19/24] fix: quaternion square root next to the negative real
 axis

The sum of the norm and the scalar part cancels there: sqrt of (-1, 1e-9, 0, 0)
was (NaN, inf, NaN, NaN), and the result lost half its digits well before that.
---
 crates/cglinalg_core/src/quaternion.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index 387b468..f459542 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -2123,9 +2123,18 @@ where
             // Otherwise, we can treat the quaternion as normal.
             let one = S::one();
             let one_half = one / (one + one);
-            let c = S::sqrt(one_half / (norm_self + self.scalar()));
+            if self.scalar() < S::zero() && norm_v_squared < self.scalar() * self.scalar() {
+                // The sum of the norm and the scalar part cancels close to the negative
+                // real axis, so start from their difference instead.
+                let norm_v = S::sqrt(norm_v_squared);
+                let norm_sqrt_v = S::sqrt((norm_self - self.scalar()) * one_half);
 
-            Self::from_parts((norm_self + self.scalar()) * c, self.vector() * c)
+                Self::from_parts(norm_v * one_half / norm_sqrt_v, self.vector() * (norm_sqrt_v / norm_v))
+            } else {
+                let c = S::sqrt(one_half / (norm_self + self.scalar()));
+
+                Self::from_parts((norm_self + self.scalar()) * c, self.vector() * c)
+            }
         }
     }
 
-- 
2.43.0


From 28a5535b6b0d5427d7df7a4875ae3ff544dd8d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:28 +0000
Subject: [PATCH 20/24] fix: Isometry3::rotation_between for vectors shorter
 than the machine epsilon

It answered None for them, where the matrix, quaternion, rotation and planar
isometry forms answer with the rotation between their directions.
---
 crates/cglinalg_transform/src/isometry.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_transform/src/isometry.rs b/crates/cglinalg_transform/src/isometry.rs
index bab0ab1..d8048d1 100644
--- a/crates/cglinalg_transform/src/isometry.rs
+++ b/crates/cglinalg_transform/src/isometry.rs
@@ -1355,8 +1355,8 @@ where
     #[inline]
     pub fn rotation_between(v1: &Vector3<S>, v2: &Vector3<S>) -> Option<Self> {
         if let (Some(unit_v1), Some(unit_v2)) = (
-            Unit::try_from_value(*v1, S::default_epsilon()),
-            Unit::try_from_value(*v2, S::default_epsilon()),
+            Unit::try_from_value(*v1, S::zero()),
+            Unit::try_from_value(*v2, S::zero()),
         ) {
             Self::rotation_between_axis(&unit_v1, &unit_v2)
         } else {
-- 
2.43.0


From 99c557155e4e3277a61bc748629dfd0fdb44bc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:16 +0000
Subject: [PATCH 21/24] fix: compute the complex arc cosine and inverse
 hyperbolic sine without cancellation

The logarithmic formulas cancel for large arguments away from the principal
half plane: asinh(-1e8) was -infinity and acos(1e8 - i) was off by several
units. Compute the real and imaginary parts separately instead.
---
 crates/cglinalg_core/src/complex.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/cglinalg_core/src/complex.rs b/crates/cglinalg_core/src/complex.rs
index 8ef0962..02c2fd7 100644
--- a/crates/cglinalg_core/src/complex.rs
+++ b/crates/cglinalg_core/src/complex.rs
@@ -1506,8 +1506,14 @@ where
             return Self::new(S::frac_pi_2(), -self.im);
         }
 
-        let z = Self::ln((Self::unit_im() * Self::sqrt(Self::one() - self * self)) + self);
-        (-Self::unit_im()) * z
+        // NOTE: The logarithm of `self + i * sqrt(1 - self * self)` cancels for large arguments,
+        // so the parts of the arc cosine are computed separately (Kahan's formulas).
+        let one = Self::one();
+        let z1 = Self::sqrt(one + self);
+        let z2 = Self::sqrt(one - self);
+        let two = S::one() + S::one();
+
+        Self::new(two * S::atan2(z2.re, z1.re), S::asinh(z1.re * z2.im - z1.im * z2.re))
     }
 
     /// Compute the complex sine of a complex number.
@@ -1789,7 +1795,15 @@ where
             return Self::new(S::copysign(self.im, self.re), S::copysign(S::frac_pi_2(), self.im));
         }
 
-        Self::ln(self + Self::sqrt(Self::one() + self * self))
+        // NOTE: The logarithm of `self + sqrt(1 + self * self)` cancels for large arguments,
+        // so the parts of the arc sine are computed separately (Kahan's formulas).
+        let z1 = Self::sqrt(Self::new(S::one() - self.im, self.re));
+        let z2 = Self::sqrt(Self::new(S::one() + self.im, -self.re));
+
+        Self::new(
+            S::asinh(z2.re * z1.im - z2.im * z1.re),
+            S::atan2(self.im, z1.re * z2.re - z1.im * z2.im),
+        )
     }
 
     /// Compute the complex hyperbolic tangent of a complex number.
-- 
2.43.0


From 9954901a1c91c6d662f99611b17617f7761c6e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:16 +0000
Subject: [PATCH 22/24] fix: evaluate the quaternion arc sine, arc cosine and
 inverse hyperbolic sine without cancellation

The logarithmic formulas cancel for large arguments, so that for example
asinh(-1e8 + j) was not finite. Evaluate the functions on the complex plane
that contains the quaternion.
---
 crates/cglinalg_core/src/quaternion.rs | 33 +++++++++++++-------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index f459542..0a0a64c 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -1,3 +1,4 @@
+use crate::complex::Complex;
 use crate::matrix::{
     Matrix3x3,
     Matrix4x4,
@@ -3196,11 +3197,12 @@ where
     /// ```
     #[inline]
     pub fn acos(&self) -> Self {
-        let signum_vec_self = Self::from_pure(self.vector().try_normalize(S::zero()).unwrap_or_else(Vector3::unit_x));
-        let identity = Self::identity();
-        let q = (self + signum_vec_self * (identity - self.squared()).sqrt()).ln();
+        // NOTE: The logarithmic formula cancels for large arguments, so the function is evaluated
+        // on the complex plane containing `self`.
+        let direction = self.vector().try_normalize(S::zero()).unwrap_or_else(Vector3::unit_x);
+        let result = Complex::new(self.scalar(), self.vector().norm()).acos();
 
-        -(signum_vec_self * q)
+        Self::from_parts(result.real(), direction * result.imaginary())
     }
 
     /// Compute the quaternionic sine of `self`.
@@ -3278,11 +3280,12 @@ where
     /// ```
     #[inline]
     pub fn asin(&self) -> Self {
-        let signum_vec_self = Self::from_pure(self.vector().try_normalize(S::zero()).unwrap_or_else(Vector3::unit_x));
-        let identity = Self::identity();
-        let q = ((signum_vec_self * self) + (identity - self.squared()).sqrt()).ln();
+        // NOTE: The logarithmic formula cancels for large arguments, so the function is evaluated
+        // on the complex plane containing `self`.
+        let direction = self.vector().try_normalize(S::zero()).unwrap_or_else(Vector3::unit_x);
+        let result = Complex::new(self.scalar(), self.vector().norm()).asin();
 
-        -(signum_vec_self * q)
+        Self::from_parts(result.real(), direction * result.imaginary())
     }
 
     /// Compute the quaternionic tangent of `self`.
@@ -3539,16 +3542,12 @@ where
     /// ```
     #[inline]
     pub fn asinh(&self) -> Self {
-        let identity = Self::identity();
-        let root = if self.is_pure() && self.norm_squared() > S::one() {
-            // NOTE: The square is negative and real, so its square root must be taken along
-            // the direction of `self`.
-            self * S::sqrt(S::one() - S::one() / self.norm_squared())
-        } else {
-            (self.squared() + identity).sqrt()
-        };
+        // NOTE: The logarithmic formula cancels for large arguments, so the function is evaluated
+        // on the complex plane containing `self`.
+        let direction = self.vector().try_normalize(S::zero()).unwrap_or_else(Vector3::unit_x);
+        let result = Complex::new(self.scalar(), self.vector().norm()).asinh();
 
-        (self + root).ln()
+        Self::from_parts(result.real(), direction * result.imaginary())
     }
 
     /// Compute the quaternionic hyperbolic tangent of `self`.
-- 
2.43.0


From 3621a584f68615ebde22e64e1006398420760e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:13 +0000
Subject: [PATCH 23/24] fix: give the quaternion arc tangent of large arguments
 the right sign

The quotient in the logarithmic formula rounds to a negative real quaternion,
so that atan(1e9 + 1e9 i) was -pi/2 instead of pi/2. Evaluate the function on
the complex plane that contains the quaternion.
---
 crates/cglinalg_core/src/quaternion.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index 0a0a64c..b761919 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3382,17 +3382,12 @@ where
     /// ```
     #[inline]
     pub fn atan(&self) -> Self {
-        let signum_vec_self = Self::from_pure(self.vector().try_normalize(S::zero()).unwrap_or_else(Vector3::unit_x));
-        let numerator = signum_vec_self + self;
-        let denominator = signum_vec_self - self;
-        let q = numerator.div_right(&denominator).unwrap();
-        // NOTE: The quotient is negative and real when `self` is a pure quaternion longer
-        // than one, so its argument must be taken along the direction of `self`.
-        let direction = signum_vec_self.vector();
-        let arg_q = S::atan2(q.vector().dot(&direction), q.scalar());
-        let ln_q = Self::from_parts(q.norm().ln(), direction * arg_q);
-
-        signum_vec_self.half() * ln_q
+        // NOTE: The quotient in the logarithmic formula rounds to a negative real quaternion for
+        // large arguments, so the function is evaluated on the complex plane containing `self`.
+        let direction = self.vector().try_normalize(S::zero()).unwrap_or_else(Vector3::unit_x);
+        let result = Complex::new(self.scalar(), self.vector().norm()).atan();
+
+        Self::from_parts(result.real(), direction * result.imaginary())
     }
 
     /// Compute the quaternionic hyperbolic cosine of `self`.
-- 
2.43.0


From edcd2816e96000cf770b49c37725ad54bf7c5ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:31 +0000
Subject: [PATCH 24/24] fix: arg, ln and sqrt of quaternions smaller than the
 machine epsilon

The absolute threshold treated every quaternion whose vector part was below
the machine epsilon as real: sqrt(1e-20) was zero, the argument of
1e-20 (1 + i) was pi / 2, and ln dropped the argument. The logarithm also
lost half of its digits next to the real axis by going through acos.
---
 crates/cglinalg_core/src/quaternion.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index b761919..1b06a6b 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -1681,7 +1681,7 @@ where
     /// ```
     #[inline]
     pub fn arg(&self) -> S {
-        Self::arg_eps(self, S::default_epsilon())
+        Self::arg_eps(self, S::zero())
     }
 
     #[inline]
@@ -1877,7 +1877,7 @@ where
     /// ```
     #[inline]
     pub fn ln(&self) -> Self {
-        Self::ln_eps(self, S::default_epsilon())
+        Self::ln_eps(self, S::default_epsilon() * S::one().min(self.norm()))
     }
 
     #[inline]
@@ -1893,9 +1893,9 @@ where
             Self::from_parts(norm.ln(), Vector3::zero())
         } else {
             let norm = self.norm();
-            let arccos_s_over_norm_q = S::acos(self.scalar() / norm);
+            let norm_v = norm_v_squared.sqrt();
             let q_scalar = S::ln(norm);
-            let q_vector = self.vector() * (arccos_s_over_norm_q / norm_v_squared.sqrt());
+            let q_vector = self.vector() * (S::atan2(norm_v, self.scalar()) / norm_v);
 
             Self::from_parts(q_scalar, q_vector)
         }
@@ -2092,7 +2092,7 @@ where
     ///     DOI:10.1007/978-3-0348-0622-0. p. 9_
     #[inline]
     pub fn sqrt(&self) -> Self {
-        self.sqrt_eps(S::default_epsilon())
+        self.sqrt_eps(S::zero())
     }
 
     #[inline]
-- 
2.43.0

