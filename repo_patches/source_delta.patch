From 9ba8fd68e67426ffffb1562460f9b5bdf5343ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:08 +0000
Subject: [PATCH 01/16] fix: norm_inf is the largest absolute value, not the
 largest element

---
 src/slices_methods.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/slices_methods.rs b/src/slices_methods.rs
index 257db2a..71db534 100644
--- a/src/slices_methods.rs
+++ b/src/slices_methods.rs
@@ -66,7 +66,14 @@ pub fn find_max_min<T: core::cmp::PartialOrd + Copy>(slice: &[T]) -> MaxMin<T> {
 /// calculate the inf-norm of the slice
 pub fn norm_inf<T: Num + Copy + core::cmp::PartialOrd>(slice: &[T]) -> T {
     let max_min = find_max_min(slice);
-    max_min.max.0
+    let abs = |x: T| if x < T::zero() { T::zero() - x } else { x };
+    // the largest absolute value belongs to one of the two extremes
+    let (max, min) = (abs(max_min.max.0), abs(max_min.min.0));
+    if max > min {
+        max
+    } else {
+        min
+    }
 }
 
 /// calculate the l-norm of the slice
-- 
2.43.0


From a6c55b4c61f528af1c603fda6230e0930e834600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:09 +0000
Subject: [PATCH 02/16] fix: V3 * M33 is the row-vector product, as for the
 other sizes

---
 src/vector3.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector3.rs b/src/vector3.rs
index 6d7fd81..1be6593 100644
--- a/src/vector3.rs
+++ b/src/vector3.rs
@@ -205,9 +205,9 @@ impl<T: Num + Copy> Mul<M33<T>> for V3<T> {
     #[inline]
     fn mul(self, rhs: M33<T>) -> V3<T> {
         Self::new_from(
-            rhs[(0, 0)] * self[0] + rhs[(0, 1)] * self[1] + rhs[(0, 2)] * self[2],
-            rhs[(1, 0)] * self[0] + rhs[(1, 1)] * self[1] + rhs[(1, 2)] * self[2],
-            rhs[(2, 0)] * self[0] + rhs[(2, 1)] * self[1] + rhs[(2, 2)] * self[2])
+            self[0] * rhs[(0, 0)] + self[1] * rhs[(1, 0)] + self[2] * rhs[(2, 0)],
+            self[0] * rhs[(0, 1)] + self[1] * rhs[(1, 1)] + self[2] * rhs[(2, 1)],
+            self[0] * rhs[(0, 2)] + self[1] * rhs[(1, 2)] + self[2] * rhs[(2, 2)])
     }
 }
 
-- 
2.43.0


From 065fc7fd96401ca9946f291f0f047bc043b7afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:48 +0000
Subject: [PATCH 03/16] fix: equality of (dual) quaternions depends on the
 components only

---
 src/dual_quaternion.rs | 9 ++++++++-
 src/quaternion.rs      | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 08a9530..e6c7194 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -40,7 +40,7 @@ use core::ops::{Add, Div, Mul, Neg, Sub};
 use num::traits::FloatConst;
 use num::{Float, Num, One, Signed, Zero};
 
-#[derive(Copy, Debug, Clone, PartialEq)]
+#[derive(Copy, Debug, Clone)]
 pub struct DualQuaternion<T> {
     /// the real part
     q_real: Quaternion<T>,
@@ -50,6 +50,13 @@ pub struct DualQuaternion<T> {
     normalized: bool,
 }
 
+// two Dual Quaternions are equal when its components are, whatever the flag says
+impl<T: PartialEq> PartialEq for DualQuaternion<T> {
+    fn eq(&self, rhs: &Self) -> bool {
+        self.q_real == rhs.q_real && self.q_dual == rhs.q_dual
+    }
+}
+
 /// Dual Quaternion inplementation
 impl<T> DualQuaternion<T> {
     pub const fn new(q_real: Quaternion<T>, q_dual: Quaternion<T>) -> Self {
diff --git a/src/quaternion.rs b/src/quaternion.rs
index 909d115..63ad19e 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -40,7 +40,7 @@ use crate::utils::nearly_zero;
 use crate::traits::LinearAlgebra;
 
 /// Quaternion type
-#[derive(Copy, Debug, Clone, PartialEq)]
+#[derive(Copy, Debug, Clone)]
 #[repr(C)]
 pub struct Quaternion<T> {
     /// Scalar part
@@ -51,6 +51,13 @@ pub struct Quaternion<T> {
     normalized: bool
 }
 
+// two Quaternions are equal when its components are, whatever the flag says
+impl<T: PartialEq> PartialEq for Quaternion<T> {
+    fn eq(&self, rhs: &Self) -> bool {
+        self.q0 == rhs.q0 && self.q == rhs.q
+    }
+}
+
 impl<T> Quaternion<T> {
 
     /// Construct a new Quaternion from a number(real part) and a vector(imag part)
-- 
2.43.0


From e27e15ecd1f060ffabbbd4f661889c1aff45894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:49 +0000
Subject: [PATCH 04/16] fix: slerp between nearly parallel quaternions stays
 between them

---
 src/quaternion.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 63ad19e..ec0486e 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -469,10 +469,11 @@ impl<T: Float> Quaternion<T> {
         // TODO(elsuizo:2021-04-24): maybe here the comparison could be with epsilon
         if sin_half_theta.abs() < T::from(0.001).unwrap() {
             if !reverse_a {
-                result.q0   = (one - t) * a.q0 + t * b.q0;
-                result.q[0] = (one - t) * a.q[0] + t * b.q[0];
-                result.q[1] = (one - t) * a.q[1] + t * b.q[2];
-                result.q[2] = (one - t) * a.q[2] + t * b.q[1];
+                result.q0 = (one - t) * a.q0 + t * b.q0;
+                result.q  = a.q * (one - t) + b.q * t;
+            } else {
+                result.q0 = (one - t) * a.q0 - t * b.q0;
+                result.q  = a.q * (one - t) - b.q * t;
             }
             return result
         }
-- 
2.43.0


From 730bc8811241a2dda163db88ae5a0dbb40bbb288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:50 +0000
Subject: [PATCH 05/16] fix: division of dual quaternions is multiplication by
 the inverse

---
 src/dual_quaternion.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index e6c7194..0eb0421 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -145,14 +145,12 @@ impl<T: Num + Copy> Mul<T> for DualQuaternion<T> {
 }
 
 // dq / dq
+#[allow(clippy::suspicious_arithmetic_impl)]
 impl<T: Float + Signed> Div for DualQuaternion<T> {
     type Output = Self;
 
     fn div(self, rhs: Self) -> Self::Output {
-        let rhs_real_sqr = rhs.q_real * rhs.q_real;
-        let prod_real = self.q_real * rhs.q_real / rhs_real_sqr;
-        let prod_dual = (rhs.q_real * self.q_dual - self.q_real * rhs.q_dual) / rhs_real_sqr;
-        Self::new(prod_real, prod_dual)
+        self * rhs.inverse()
     }
 }
 
-- 
2.43.0


From be4d78ca8d15d8ccff2767b5174c4ae9dd3fa2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:51 +0000
Subject: [PATCH 06/16] fix: the power of a pure translation is the scaled
 translation

---
 src/dual_quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 0eb0421..8d9c31f 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -249,7 +249,7 @@ impl<T: Float + Signed> DualQuaternion<T> {
         let theta = two * T::acos(self.real().real());
         let (s, c) = (theta / two).sin_cos();
         if nearly_zero(theta) {
-            Self::new_from_point(&(self.get_translation() * exponent))
+            Self::new_from_translation(&(self.get_translation() * exponent))
         } else {
             let s0 = self.real().imag() / s;
             let d = self.dual().real() * -two / s;
-- 
2.43.0


From 939f3e1718d30ba2605a3f23d9f3dd042412f25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:51 +0000
Subject: [PATCH 07/16] fix: screw_lerp takes the shortest path by negating the
 whole dual quaternion

---
 src/dual_quaternion.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 8d9c31f..168cf8b 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -276,12 +276,11 @@ impl<T: Float + Signed> DualQuaternion<T> {
     /// `tau`: Float in [0, 1] representing how far along and around the screw axis to interpolate
     ///
     pub fn screw_lerp(begin: &Self, end: &Self, tau: T) -> Self {
-        let one = T::one();
         let mut start = *begin;
         // TODO(elsuizo:2021-05-23): this is from the python implementation that refers to a paper
         // that "ensure we always find closest solution, See Kavan and Zara 2005"
-        if (start.real() * end.real()).real() < T::zero() {
-            start.q_real = begin.real() * -one;
+        if start.real().dot(end.real()) < T::zero() {
+            start = -start;
         }
         start * (start.inverse() * *end).pow(tau)
     }
-- 
2.43.0


From d0d2af3ab85a29e64a258da358297c77c6b56052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:52 +0000
Subject: [PATCH 08/16] fix: a normalized dual quaternion is a unit one, so
 that its conjugate is its inverse

---
 src/dual_quaternion.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 168cf8b..0b5a775 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -365,7 +365,9 @@ impl<T: Float + FloatConst + core::iter::Sum> DualQuaternion<T> {
             if !nearly_zero(norm_q_real) {
                 let mut result = Self::one();
                 result.q_real = self.q_real / norm_q_real;
-                result.q_dual = self.q_dual / norm_q_real;
+                // a unit dual quaternion has its dual part orthogonal to the real one
+                let q_dual = self.q_dual / norm_q_real;
+                result.q_dual = q_dual - result.q_real * result.q_real.dot(q_dual);
                 result.normalized = true;
                 Some(result)
             } else {
-- 
2.43.0


From bcbd5357b7ec999070f5306ee4b9048b0e54744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:07 +0000
Subject: [PATCH 09/16] fix: the Euler sequence YZX is roty * rotz * rotx

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index ffee3f1..14594cb 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -140,7 +140,7 @@ pub fn euler_to_rotation<T: Float>(yay: T, pitch: T, roll: T, s: Option<EulerSeq
         Some(EulerSeq::XZY) => rotx(yay) * rotz(pitch) * roty(roll),
         Some(EulerSeq::YXY) => roty(yay) * rotx(pitch) * roty(roll),
         Some(EulerSeq::YXZ) => roty(yay) * rotx(pitch) * rotz(roll),
-        Some(EulerSeq::YZX) => rotx(yay) * roty(pitch) * rotz(roll),
+        Some(EulerSeq::YZX) => roty(yay) * rotz(pitch) * rotx(roll),
         Some(EulerSeq::YZY) => roty(yay) * rotz(pitch) * roty(roll),
         Some(EulerSeq::ZXY) => rotz(yay) * rotx(pitch) * roty(roll),
         Some(EulerSeq::ZXZ) => rotz(yay) * rotx(pitch) * rotz(roll),
-- 
2.43.0


From 76d805a2611d02f048dd5bdba8a79c7815f2a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:08 +0000
Subject: [PATCH 10/16] fix: matrix_log of a half-turn about an axis with no y
 and z part

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 14594cb..12c188c 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -459,7 +459,7 @@ pub fn matrix_log<T: Float + core::iter::Sum + FloatConst>(r: &M33<T>) -> M33<T>
                 * (one / T::sqrt(two * (one + r[(1, 1)])));
             skew_from_vec(&(omega * T::PI()))
         } else {
-            let omega = V3::new_from(one + r[(0, 0)], one + r[(1, 0)], r[(2, 0)])
+            let omega = V3::new_from(one + r[(0, 0)], r[(1, 0)], r[(2, 0)])
                 * (one / T::sqrt(two * (one + r[(0, 0)])));
             skew_from_vec(&(omega * T::PI()))
         }
-- 
2.43.0


From 97e2325e443a7a69b3b58629ff79ed1e20aaccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:09 +0000
Subject: [PATCH 11/16] fix: matrix_exponential6 of a pure translation has an
 identity rotation

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 12c188c..9d5d867 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -576,7 +576,7 @@ pub fn matrix_exponential6<T: Float>(se3: &M44<T>) -> M44<T> {
     let omega_theta = skew_to_vec(&skew_omega);
     // NOTE(elsuizo:2021-05-11): if w = 0 ---> "pitch" == infinity and |v| = 1 ---> theta represents only a linear distance
     if nearly_zero(omega_theta.norm2()) {
-        m44_new!( one,  zero,  one, v[0];
+        m44_new!( one,  zero, zero, v[0];
                  zero,   one, zero, v[1];
                  zero,  zero,  one, v[2];
                  zero,  zero, zero, one)
-- 
2.43.0


From 204edce92cfc451726a0ecb7750f8f864c02015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:36 +0000
Subject: [PATCH 12/16] fix: the rotation predicates reject matrices of
 determinant one that are not orthogonal

---
 src/utils.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 7017074..b9c4cd9 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -32,6 +32,7 @@ use crate::dual_quaternion::DualQuaternion;
 use crate::matrix3x3::M33;
 use crate::matrix4x4::M44;
 use crate::traits::LinearAlgebra;
+use crate::transformations::{distance_to_manifold, get_parts_raw};
 use num::Float;
 // NOTE(elsuizo:2020-06-02): the following function
 // is a translation of the implementation that is here:
@@ -76,13 +77,18 @@ pub fn compare_floats<T: Float>(num1: T, num2: T, tol: T) -> bool {
 /// utility function to verify if a Matrix is a propper rotation matrix
 pub fn is_rotation<T: Float + core::iter::Sum>(r: M33<T>) -> bool {
     let r2 = r * r;
-    nearly_equal(r.det(), T::one(), T::epsilon()) && nearly_equal(r2.det(), T::one(), T::epsilon())
+    let tol = T::from(1e-6).unwrap();
+    nearly_equal(r.det(), T::one(), T::epsilon())
+        && nearly_equal(r2.det(), T::one(), T::epsilon())
+        && distance_to_manifold(&r) < tol
 }
 
 pub fn is_rotation_h<T: Float + core::iter::Sum>(r: M44<T>) -> bool {
     let r2 = r * r;
     let eps = T::from(1e-6).unwrap();
-    nearly_equal(r.det(), T::one(), eps) && nearly_equal(r2.det(), T::one(), eps)
+    nearly_equal(r.det(), T::one(), eps)
+        && nearly_equal(r2.det(), T::one(), eps)
+        && distance_to_manifold(&get_parts_raw(&r).0) < eps
 }
 
 pub fn compare_dual_quaternions<T: Float>(
-- 
2.43.0


From ce34e827d1b4dd702d667de85af370cd5ea4227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:34:34 +0000
Subject: [PATCH 13/16] fix: formatting a matrix printed a blank line on
 standard output instead of writing it to the formatter (and the no-std
 feature did not build)

---
 src/matrix2x2.rs | 2 +-
 src/matrix3x3.rs | 2 +-
 src/matrix4x4.rs | 2 +-
 src/matrix5x5.rs | 2 +-
 src/matrix6x6.rs | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/matrix2x2.rs b/src/matrix2x2.rs
index 656b8b1..cae8be4 100644
--- a/src/matrix2x2.rs
+++ b/src/matrix2x2.rs
@@ -527,7 +527,7 @@ macro_rules! m22_new {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M22<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(dest, "|{0:^3.2} {1:^3.2}|", self[(0, 0)], self[(0, 1)])?;
         writeln!(dest, "|{0:^3.2} {1:^3.2}|", self[(1, 0)], self[(1, 1)])
     }
diff --git a/src/matrix3x3.rs b/src/matrix3x3.rs
index f2cf923..40f4664 100644
--- a/src/matrix3x3.rs
+++ b/src/matrix3x3.rs
@@ -627,7 +627,7 @@ impl<T> IndexMut<(usize, usize)> for M33<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M33<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:>7.2}|",
diff --git a/src/matrix4x4.rs b/src/matrix4x4.rs
index ad01f6b..41f30cf 100644
--- a/src/matrix4x4.rs
+++ b/src/matrix4x4.rs
@@ -818,7 +818,7 @@ impl<T> IndexMut<usize> for M44<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M44<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:>7.2}|",
diff --git a/src/matrix5x5.rs b/src/matrix5x5.rs
index 539088a..d37fd31 100644
--- a/src/matrix5x5.rs
+++ b/src/matrix5x5.rs
@@ -1077,7 +1077,7 @@ impl<T> IndexMut<usize> for M55<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M55<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:^7.2} {4:>7.2}|",
diff --git a/src/matrix6x6.rs b/src/matrix6x6.rs
index cad9012..3ec9e73 100644
--- a/src/matrix6x6.rs
+++ b/src/matrix6x6.rs
@@ -1929,7 +1929,7 @@ macro_rules! m66_new {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M66<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:^7.2} {4:^7.2} {5:>7.2}|",
-- 
2.43.0


From 4e2be393635645ed766c4d17dcdc86284615d980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:56 +0000
Subject: [PATCH 14/16] fix: the power of a dual quaternion took acos of a real
 part that rounding lifts above one, so that screw_lerp between equal poses
 could be NaN

---
 src/dual_quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 0b5a775..da6fd66 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -246,7 +246,7 @@ impl<T: Float + Signed> DualQuaternion<T> {
     pub fn pow(&self, exponent: T) -> Self {
         let one = T::one();
         let two = one + one;
-        let theta = two * T::acos(self.real().real());
+        let theta = self.real().get_angle();
         let (s, c) = (theta / two).sin_cos();
         if nearly_zero(theta) {
             Self::new_from_translation(&(self.get_translation() * exponent))
-- 
2.43.0


From 6847591ca1e2a0a36844ce1c3066387f15620b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:56 +0000
Subject: [PATCH 15/16] fix: matrix_log6 took acos of a value that rounding
 pushes below -1, so that the logarithm of a half-turn could be NaN

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 9d5d867..159938a 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -618,7 +618,7 @@ pub fn matrix_log6<T: Float + core::iter::Sum + FloatConst>(t: &M44<T>) -> M44<T
                  zero, zero, zero, p[2];
                  zero, zero, zero, zero)
     } else {
-        let theta = T::acos((r.trace() - one) / two);
+        let theta = T::acos(T::max((r.trace() - one) / two, -one));
         let cot = one / T::tan(theta / two);
         let v =
             (M33::identity() - omega / two + omega * omega * (one / theta - cot / two) / theta) * p;
-- 
2.43.0


From 7970563d6062b239c2301e0a51327b940349ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:56 +0000
Subject: [PATCH 16/16] fix: matrix_log of a half-turn took the square root of
 a number that rounding makes negative

---
 src/transformations.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 159938a..842fb4f 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -450,11 +450,11 @@ pub fn matrix_log<T: Float + core::iter::Sum + FloatConst>(r: &M33<T>) -> M33<T>
     if angle >= one {
         M33::zeros()
     } else if angle <= -one {
-        if !nearly_zero(one + r[(2, 2)]) {
+        if one + r[(2, 2)] > T::epsilon() {
             let omega = V3::new_from(r[(0, 2)], r[(1, 2)], one + r[(2, 2)])
                 * (one / T::sqrt(two * (one + r[(2, 2)])));
             skew_from_vec(&(omega * T::PI()))
-        } else if !nearly_zero(one + r[(1, 1)]) {
+        } else if one + r[(1, 1)] > T::epsilon() {
             let omega = V3::new_from(r[(0, 1)], one + r[(1, 1)], r[(2, 1)])
                 * (one / T::sqrt(two * (one + r[(1, 1)])));
             skew_from_vec(&(omega * T::PI()))
-- 
2.43.0

