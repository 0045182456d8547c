From 69d84668ac848ead24a8a4094f767d0d21e620c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 01/40] fix: do not report an infinite euclidean position for
 points too close to infinity

---
 cv-core/src/point.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cv-core/src/point.rs b/cv-core/src/point.rs
index f9e2b3e..ca7c82c 100644
--- a/cv-core/src/point.rs
+++ b/cv-core/src/point.rs
@@ -36,6 +36,7 @@ pub trait Projective: Clone + Copy {
     /// whereas a 3d euclidean point cannot (it would overflow).
     fn point(self) -> Option<Point3<f64>> {
         Point3::from_homogeneous(self.homogeneous())
+            .filter(|point| point.coords.iter().all(|n| n.is_finite()))
     }
 
     /// Convert the euclidean 3d point into homogeneous coordinates.
-- 
2.43.0


From 838c51c73c8cc3a9c58f1cd3ebac2bedf8b8b7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 02/40] fix: make the rotation logarithm correct for half turns
 and tiny angles

---
 cv-core/src/so3.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cv-core/src/so3.rs b/cv-core/src/so3.rs
index 148f0b7..ef87756 100644
--- a/cv-core/src/so3.rs
+++ b/cv-core/src/so3.rs
@@ -3,7 +3,9 @@ use core::{
     ops::{Add, AddAssign},
 };
 use derive_more::{AsMut, AsRef, Deref, DerefMut, From, Into};
-use nalgebra::{Const, IsometryMatrix3, Matrix3, Matrix4, Rotation3, Unit, Vector3, Vector6};
+use nalgebra::{
+    Const, IsometryMatrix3, Matrix3, Matrix4, Rotation3, Unit, UnitQuaternion, Vector3, Vector6,
+};
 use num_traits::Float;
 #[cfg(feature = "serde-serialize")]
 use serde::{Deserialize, Serialize};
@@ -263,7 +265,10 @@ impl From<Skew3> for Rotation3<f64> {
 /// This is the log map.
 impl From<Rotation3<f64>> for Skew3 {
     fn from(r: Rotation3<f64>) -> Self {
-        let skew3 = r.scaled_axis();
+        // The quaternion is used because `Rotation3::scaled_axis` computes the angle from the trace and
+        // the axis from the skew-symmetric part. That makes small angles vanish, makes angles near 180
+        // degrees inaccurate, and at exactly 180 degrees it yields no rotation at all.
+        let skew3 = UnitQuaternion::from_rotation_matrix(&r).scaled_axis();
         // TODO: File issue on `nalgebra`, as this shouldn't happen and is bug.
         let skew3 = if skew3.iter().any(|n| n.is_nan()) {
             Vector3::zeros()
-- 
2.43.0


From 72987b962d73d3b9e4f23fdd923c42ba74c47f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 03/40] fix: correct the Jacobian of a transformed point in
 respect to the pose rotation

---
 cv-core/src/pose.rs | 40 ++++++++++++++--------------------------
 cv-core/src/so3.rs  |  2 +-
 2 files changed, 15 insertions(+), 27 deletions(-)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index 1a4f104..c497ae7 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -1,8 +1,7 @@
 use crate::{CameraPoint, FeatureMatch, FeatureWorldMatch, Projective, Skew3, WorldPoint};
 use derive_more::{AsMut, AsRef, From, Into};
 use nalgebra::{
-    zero, IsometryMatrix3, Matrix3x4, Matrix4, Matrix4x6, Matrix6x4, Rotation3, Vector3, Vector4,
-    Vector6,
+    zero, IsometryMatrix3, Matrix3x4, Matrix4, Matrix4x6, Rotation3, Vector3, Vector4, Vector6,
 };
 use sample_consensus::Model;
 
@@ -78,7 +77,7 @@ pub trait Pose: From<IsometryMatrix3<f64>> + Clone + Copy {
     ) -> (Self::OutputPoint, Matrix4<f64>, Matrix4x6<f64>) {
         let (rotated, output) = pose_rotated_output(self, input);
         let jacobian_input = pose_jacobian_input(self);
-        let jacobian_self = pose_jacobian_self(self, rotated, output);
+        let jacobian_self = pose_jacobian_self(rotated, output);
         (
             Projective::from_homogeneous(output),
             jacobian_input,
@@ -112,7 +111,7 @@ pub trait Pose: From<IsometryMatrix3<f64>> + Clone + Copy {
         input: Self::InputPoint,
     ) -> (Self::OutputPoint, Matrix4x6<f64>) {
         let (rotated, output) = pose_rotated_output(self, input);
-        let jacobian_self = pose_jacobian_self(self, rotated, output);
+        let jacobian_self = pose_jacobian_self(rotated, output);
         (Projective::from_homogeneous(output), jacobian_self)
     }
 
@@ -145,32 +144,21 @@ fn pose_jacobian_input<P: Pose>(pose: P) -> Matrix4<f64> {
 }
 
 /// Retrieves the Jacobian relating the output to the pose in se(3)
-fn pose_jacobian_self<P: Pose>(
-    pose: P,
-    rotated: Vector4<f64>,
-    output: Vector4<f64>,
-) -> Matrix4x6<f64> {
-    // The translation homogeneous matrix
-    //
-    // This is also the jacobian of the output in respect to the rotation output.
-    let translation = pose.isometry().translation.to_homogeneous();
+fn pose_jacobian_self(rotated: Vector4<f64>, output: Vector4<f64>) -> Matrix4x6<f64> {
+    let mut jacobian = Matrix4x6::zeros();
 
     // dP/dT (Jacobian of output point in respect to translation component)
-    let dp_dt = Matrix4::<f64>::identity() * output.w;
+    jacobian
+        .fixed_slice_mut::<3, 3>(0, 0)
+        .fill_diagonal(output.w);
 
     // dP/ds (Jacobian of output point in respect to skew component)
-    let dp_ds = translation * Skew3::jacobian_self(rotated.xyz()).to_homogeneous();
-
-    // dP/dT,s (Jacobian of 3d camera point in respect to translation and skew)
-    Matrix6x4::<f64>::from_rows(&[
-        dp_dt.row(0),
-        dp_dt.row(1),
-        dp_dt.row(2),
-        dp_ds.row(0),
-        dp_ds.row(1),
-        dp_ds.row(2),
-    ])
-    .transpose()
+    jacobian
+        .fixed_slice_mut::<3, 3>(0, 3)
+        .copy_from(&Skew3::jacobian_self(rotated.xyz()));
+
+    // The `w` component of the output depends on neither the translation nor the rotation.
+    jacobian
 }
 
 /// This contains a world pose, which is a pose of the world relative to the camera.
diff --git a/cv-core/src/so3.rs b/cv-core/src/so3.rs
index ef87756..833cd2b 100644
--- a/cv-core/src/so3.rs
+++ b/cv-core/src/so3.rs
@@ -243,7 +243,7 @@ impl Skew3 {
     /// Note that when working with homogeneous projective coordinates, only the first three components
     /// (the bearing) are relevant, hence the resulting matrix is a [`Matrix3`].
     pub fn jacobian_self(y: Vector3<f64>) -> Matrix3<f64> {
-        y.cross_matrix()
+        -y.cross_matrix()
     }
 }
 
-- 
2.43.0


From a6bf5bc2dec55153f2ac144c1d2ad9b4883149da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 04/40] fix: treat matches triangulating onto an optical center
 as failed in the relative pose residual

---
 cv-core/src/pose.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index c497ae7..bdcc571 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -279,6 +279,8 @@ impl Model<FeatureMatch> for CameraToCamera {
                 0.5 * (1.0 - a.dot(&point.bearing()) + 1.0
                     - b.dot(&self.transform(point).bearing()))
             })
+            // The point may coincide with an optical center, in which case it has no bearing.
+            .filter(|residual| !residual.is_nan())
             .unwrap_or(2.0)
     }
 }
-- 
2.43.0


From 78ad10aa3f9e7fb192092ff151d26b29dfe42599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 05/40] fix: do not project bearings parallel to the image
 plane to undefined pixels

---
 cv-pinhole/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index cf25f95..4821665 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -132,7 +132,8 @@ impl CameraModel for CameraIntrinsics {
     /// assert!((kp.0 - ukp.0).norm() < 1e-6);
     /// ```
     fn uncalibrate(&self, projection: UnitVector3<f64>) -> Option<KeyPoint> {
-        projection.z.is_sign_positive().then_some(())?;
+        // Bearings on or behind the image plane do not project onto the image.
+        (projection.z > 0.0).then_some(())?;
         let projection = projection.xy() / projection.z;
         let y = projection.y * self.focals.y;
         let x = projection.x * self.focals.x + self.skew * projection.y;
@@ -222,7 +223,8 @@ impl CameraModel for CameraIntrinsicsK1Distortion {
     /// assert!((kp.0 - ukp.0).norm() < 1e-6, "{:?}", (kp.0 - ukp.0).norm());
     /// ```
     fn uncalibrate(&self, projection: UnitVector3<f64>) -> Option<KeyPoint> {
-        projection.z.is_sign_positive().then_some(())?;
+        // Bearings on or behind the image plane do not project onto the image.
+        (projection.z > 0.0).then_some(())?;
         let undistorted = projection.xy() / projection.z;
         // You can set up a quadratic to solve for r^2 with the undistorted keypoint. This is the result.
         let u2 = undistorted.norm_squared();
-- 
2.43.0


From 601feea91c919004952286e4a49d33b4adec040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 06/40] fix: distort bearings on the optical axis and without
 distortion to defined pixels

---
 cv-pinhole/src/lib.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index 4821665..353bb97 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -226,12 +226,13 @@ impl CameraModel for CameraIntrinsicsK1Distortion {
         // Bearings on or behind the image plane do not project onto the image.
         (projection.z > 0.0).then_some(())?;
         let undistorted = projection.xy() / projection.z;
-        // You can set up a quadratic to solve for r^2 with the undistorted keypoint. This is the result.
-        let u2 = undistorted.norm_squared();
-        // This is actually r^2 * k1.
-        let r2_mul_k1 = -(2.0 * self.k1 * u2 + Float::sqrt(1.0 - 4.0 * self.k1 * u2) - 1.0)
-            / (2.0 * self.k1 * u2);
-        let distorted = undistorted * (1.0 + r2_mul_k1);
+        // Distortion satisfies `undistorted = distorted / (1 + k1 * r^2)`, where `r` is the norm of `distorted`.
+        // You can set up a quadratic to solve for `r` with the undistorted keypoint. This uses the root closest
+        // to the optical axis in a form that also works when `k1` or the keypoint is zero.
+        let discriminant = 1.0 - 4.0 * self.k1 * undistorted.norm_squared();
+        // There is no keypoint that is distorted so strongly that it would have this bearing.
+        (discriminant >= 0.0).then_some(())?;
+        let distorted = undistorted * (2.0 / (1.0 + Float::sqrt(discriminant)));
         let y = distorted.y * self.simple_intrinsics.focals.y;
         let x = distorted.x * self.simple_intrinsics.focals.x
             + self.simple_intrinsics.skew * distorted.y;
-- 
2.43.0


From 70988e5a907ff2456c0b95f19fae6d1e872c6a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 07/40] fix: center the principal point in pixels rather than
 in pixel dimensions

---
 cv-pinhole/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index 353bb97..ca40ab0 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -282,7 +282,7 @@ impl CameraSpecification {
     pub fn intrinsics_centered(&self, focal: f64) -> CameraIntrinsics {
         CameraIntrinsics::identity()
             .focal(focal)
-            .principal_point(self.pixel_dimensions.map(|p| p / 2.0 - 0.5).into())
+            .principal_point(self.pixels.map(|p| p as f64 / 2.0 - 0.5).into())
     }
 }
 
-- 
2.43.0


From c5d2eae4893bc102c45808c68c31895233bd0c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 08/40] fix: check chirality of triangulated points as seen
 from each camera

---
 cv-geom/src/triangulation.rs | 49 +++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index c3cf37e..b7a81b7 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -5,6 +5,24 @@ use cv_core::{
     WorldPoint, WorldToCamera,
 };
 
+/// Checks that a point is in front of all cameras, which means in the direction each camera observed it.
+fn is_chiral(
+    point: WorldPoint,
+    mut pairs: impl Iterator<Item = (WorldToCamera, UnitVector3<f64>)>,
+) -> bool {
+    pairs.all(|(pose, bearing)| pose.transform(point).bearing().dot(&bearing) > 0.0)
+}
+
+/// Checks that a point is in front of both cameras, which means in the direction each camera observed it.
+fn is_relative_chiral(
+    point: CameraPoint,
+    relative_pose: CameraToCamera,
+    a: UnitVector3<f64>,
+    b: UnitVector3<f64>,
+) -> bool {
+    point.bearing().dot(&a) > 0.0 && relative_pose.transform(point).bearing().dot(&b) > 0.0
+}
+
 /// This is a very quick triangulator to execute, but it is not particularly suitable for optimization.
 /// It can be used for optimization when you have very low error to begin with.
 /// It is suitable for quickly generating 3d point outputs, such as for display purposes.
@@ -82,7 +100,7 @@ impl Default for LinearEigenTriangulator {
 impl TriangulatorObservations for LinearEigenTriangulator {
     fn triangulate_observations(
         &self,
-        mut pairs: impl Iterator<Item = (WorldToCamera, UnitVector3<f64>)> + Clone,
+        pairs: impl Iterator<Item = (WorldToCamera, UnitVector3<f64>)> + Clone,
     ) -> Option<WorldPoint> {
         if pairs.clone().count() < 2 {
             return None;
@@ -120,11 +138,7 @@ impl TriangulatorObservations for LinearEigenTriangulator {
             })
             .filter(|point| {
                 // Ensure the cheirality constraint.
-                pairs.all(|(pose, bearing)| {
-                    let pose = pose.inverse().isometry();
-                    let bearing = pose * bearing;
-                    bearing.dot(&point.bearing()).is_sign_positive()
-                })
+                is_chiral(*point, pairs.clone())
             })
     }
 }
@@ -271,7 +285,8 @@ impl TriangulatorObservations for SineL1Triangulator {
             }
         }
 
-        Some(Projective::from_point(point))
+        // The refinement can move the point, so ensure the cheirality constraint again.
+        Some(Projective::from_point(point)).filter(|&point| is_chiral(point, pairs))
     }
 }
 
@@ -353,11 +368,7 @@ impl TriangulatorRelative for RelativeDltTriangulator {
             })
             .filter(|point| {
                 // Ensure the cheirality constraint.
-                point.bearing().dot(&a).is_sign_positive()
-                    && point
-                        .bearing()
-                        .dot(&(relative_pose.isometry().inverse() * b))
-                        .is_sign_positive()
+                is_relative_chiral(*point, relative_pose, a, b)
             })
     }
 }
@@ -392,7 +403,7 @@ pub struct MeanMeanTriangulator;
 impl TriangulatorObservations for MeanMeanTriangulator {
     fn triangulate_observations(
         &self,
-        mut pairs: impl Iterator<Item = (WorldToCamera, UnitVector3<f64>)> + Clone,
+        pairs: impl Iterator<Item = (WorldToCamera, UnitVector3<f64>)> + Clone,
     ) -> Option<WorldPoint> {
         let total = pairs.clone().count() as f64;
         let (sum_center, sum_bearings) = pairs.clone().fold(
@@ -432,11 +443,7 @@ impl TriangulatorObservations for MeanMeanTriangulator {
         })
         .filter(|point| {
             // Ensure the cheirality constraint.
-            pairs.all(|(pose, bearing)| {
-                let pose = pose.inverse().isometry();
-                let bearing = pose * bearing;
-                bearing.dot(&point.bearing()).is_sign_positive()
-            })
+            is_chiral(*point, pairs.clone())
         })
     }
 }
@@ -481,6 +488,7 @@ impl TriangulatorRelative for AngularL1Triangulator {
         // Technically, everything could have been reversed below, but it would be tedious and it would
         // not reflect the paper.
         let relative_pose = original_relative_pose.inverse();
+        let (original_a, original_b) = (a, b);
         let (a, b) = (b, a);
 
         // Transform a into the perspective of the second camera.
@@ -524,7 +532,7 @@ impl TriangulatorRelative for AngularL1Triangulator {
         })
         .filter(|point| {
             // Ensure the cheirality constraint.
-            point.bearing().dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
+            is_relative_chiral(*point, original_relative_pose, original_a, original_b)
         })
     }
 }
@@ -567,6 +575,7 @@ impl TriangulatorRelative for AngularLInfinityTriangulator {
         // Technically, everything could have been reversed below, but it would be tedious and it would
         // not reflect the paper.
         let relative_pose = original_relative_pose.inverse();
+        let (original_a, original_b) = (a, b);
         let (a, b) = (b, a);
 
         // Transform a into the perspective of the second camera.
@@ -600,7 +609,7 @@ impl TriangulatorRelative for AngularLInfinityTriangulator {
         })
         .filter(|point| {
             // Ensure the cheirality constraint.
-            point.bearing().dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
+            is_relative_chiral(*point, original_relative_pose, original_a, original_b)
         })
     }
 }
-- 
2.43.0


From 8c0b3b7d458da501dc9513dce65da64b6eed60a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 09/40] fix: check chirality in the three-view gradients as
 seen from each camera

---
 cv-geom/src/epipolar.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cv-geom/src/epipolar.rs b/cv-geom/src/epipolar.rs
index f3c9dc1..fded9d5 100644
--- a/cv-geom/src/epipolar.rs
+++ b/cv-geom/src/epipolar.rs
@@ -46,8 +46,9 @@ fn two_view_same_space_triangulate_sine_l1(
         point.homogeneous().iter().all(|n| n.is_finite())
     })
     .filter(|point| {
-        // Ensure the cheirality constraint.
-        point.bearing().dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
+        // Ensure the cheirality constraint as seen from A, which is at the origin, and from B, which is at `-t`.
+        let point = point.homogeneous();
+        point.xyz().dot(&a) > 0.0 && (point.xyz() + point.w * t).dot(&b) > 0.0
     })
     .and_then(|p| p.point())
 }
-- 
2.43.0


From 3b2f23061a536a0095fa09a13ac86913d4d7fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 10/40] fix: triangulate in front of the cameras for the
 three-view translation gradients

---
 cv-geom/src/epipolar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv-geom/src/epipolar.rs b/cv-geom/src/epipolar.rs
index fded9d5..1443360 100644
--- a/cv-geom/src/epipolar.rs
+++ b/cv-geom/src/epipolar.rs
@@ -39,7 +39,7 @@ fn two_view_same_space_triangulate_sine_l1(
 
     let z = a.cross(&b);
     Some(CameraPoint::from_homogeneous(
-        a.into_inner().push(z.norm_squared() / z.dot(&t.cross(&b))),
+        a.into_inner().push(z.norm_squared() / z.dot(&b.cross(&t))),
     ))
     .filter(|point| {
         // Ensure the point contains no NaN or infinity.
-- 
2.43.0


From 2fd5ede153b575825f022525dfaaa2faf4bb0a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 11/40] fix: match eigenvalues to eigenvectors when choosing
 the linear triangulation solution

---
 cv-geom/src/triangulation.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index b7a81b7..5b2615d 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -126,11 +126,12 @@ impl TriangulatorObservations for LinearEigenTriangulator {
         let se = a.try_symmetric_eigen(self.epsilon, self.max_iterations)?;
 
         // Find the smallest eigenvalue where our point will lie in the null space homogeneous vector.
-        se.eigenvalues
-            .iter()
-            .enumerate()
-            .min_by_key(|&(_, &n)| float_ord::FloatOrd(n))
-            .map(|(ix, _)| se.eigenvectors.column(ix).into_owned())
+        // The solver can report the eigenvalues in a different order than the eigenvectors,
+        // so each eigenvalue is computed from its eigenvector.
+        se.eigenvectors
+            .column_iter()
+            .min_by_key(|v| float_ord::FloatOrd(v.dot(&(a * v))))
+            .map(|v| v.into_owned())
             .map(WorldPoint::from_homogeneous)
             .filter(|point| {
                 // Ensure the point contains no NaN or infinity.
-- 
2.43.0


From 3f3b91f745593186f1962d7ce6882dced73128b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 12/40] fix: compute both real roots of quadratics in lambda
 twist without cancellation or division by zero

---
 lambda-twist/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 928d3e8..d868f6a 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -430,7 +430,11 @@ fn root2real(b: f64, c: f64) -> (bool, f64, f64) {
         (true, 0.5 * (-b + y), 0.5 * (-b - y))
     } else {
         let y = Float::sqrt(discriminant);
-        (true, 2.0 * c / (-b + y), 2.0 * c / (-b - y))
+        // Both roots are zero when this is zero. The root with the larger magnitude is computed directly,
+        // as the other one is subject to cancellation and must be computed using the product of the roots.
+        let q = -b - y;
+        let r1 = if q < 0.0 { 2.0 * c / q } else { 0.0 };
+        (true, r1, 0.5 * q)
     }
 }
 
-- 
2.43.0


From 967c4fbb6f74b671a7ec294ae7f9e09b34032306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 13/40] fix: recover camera poses rotated by half of a turn in
 lambda twist

---
 lambda-twist/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index d868f6a..a9f853c 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -33,7 +33,7 @@ use num_traits::Float;
 // file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
 use cv_core::{
-    nalgebra::{Matrix3, Rotation3, Vector3},
+    nalgebra::{Matrix3, Rotation3, UnitQuaternion, Vector3},
     sample_consensus::Estimator,
     FeatureWorldMatch, Pose, Projective, WorldToCamera,
 };
@@ -303,13 +303,19 @@ impl LambdaTwist {
                 (rot, ry1 - rot * wps[0].coords)
             })
             .map(|(rot, trans)| {
+                // The iteration that finds the closest rotation can only escape from guesses
+                // which are not half of a turn away, so start it from the matrix itself.
+                let guess = UnitQuaternion::from_rotation_matrix(
+                    &Rotation3::from_matrix_unchecked(rot),
+                );
+                let guess = UnitQuaternion::new_normalize(guess.into_inner());
                 WorldToCamera::from_parts(
                     trans,
                     Rotation3::from_matrix_eps(
                         &rot,
                         self.rotation_convergence_epsilon,
                         self.rotation_convergence_iterations,
-                        Rotation3::identity(),
+                        guess.to_rotation_matrix(),
                     ),
                 )
             })
-- 
2.43.0


From 45abb6e2bc55ef112f9f8c7bcb1e07d41b8a8999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 14/40] fix: find eigenvectors with a vanishing third component
 in lambda twist

---
 lambda-twist/src/lib.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index a9f853c..37df7bd 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -537,18 +537,22 @@ fn eigen_decomposition_singular(x: Mat3) -> (Mat3, Vec3) {
     eigenvalues[0] = e1;
     eigenvalues[1] = e2;
 
-    let mx0011 = -x.m11 * x.m22;
-    let prec_0 = x.m12 * x.m23 - x.m13 * x.m22;
-    let prec_1 = x.m12 * x.m13 - x.m11 * x.m23;
-
+    // The eigenvector is perpendicular to all of the rows of `x - e * I`.
+    // Use the pair of rows which is the furthest from being parallel.
     let compute_eigen_vector = |e: f64| {
-        let tmp = 1.0 / (e * (x.m11 + x.m22) + mx0011 - e * e + x12_sqr);
-        let mut a1 = -(e * x.m13 + prec_0) * tmp;
-        let mut a2 = -(e * x.m23 + prec_1) * tmp;
-        let rnorm = 1.0 / (a1 * a1 + a2 * a2 + 1.0).sqrt();
-        a1 *= rnorm;
-        a2 *= rnorm;
-        Vec3::new(a1, a2, rnorm)
+        let m = x - Mat3::from_diagonal_element(e);
+        let (r0, r1, r2) = (
+            m.row(0).transpose(),
+            m.row(1).transpose(),
+            m.row(2).transpose(),
+        );
+        let mut best = r0.cross(&r1);
+        for v in [r0.cross(&r2), r1.cross(&r2)] {
+            if v.norm_squared() > best.norm_squared() {
+                best = v;
+            }
+        }
+        best.try_normalize(0.0).unwrap_or_else(Vec3::zeros)
     };
     let v1 = compute_eigen_vector(e1);
     let v2 = compute_eigen_vector(e2);
-- 
2.43.0


From 477deeb05d568649f9c5b67de906f453d53f36c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 15/40] fix: solve the lambda twist cubic when its leading
 coefficient vanishes

---
 lambda-twist/src/lib.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 37df7bd..d031a23 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -175,16 +175,23 @@ impl LambdaTwist {
             - 2.0 * a12 * (blob * a23 + a13 * s23_sqr);
         let p0 = a12 * (a12 * s23_sqr - a23 * s12_sqr);
 
-        // Get sharpest real root of above.
-        let g = cube_root(p2 / p3, p1 / p3, p0 / p3);
+        // Get sharpest real root of above. The root is represented as the ratio `g / h`,
+        // because the leading coefficient of the polynomial vanishes in symmetric configurations.
+        let (g, h) = if Float::abs(p3) >= Float::abs(p0) && p3 != 0.0 {
+            (cube_root(p2 / p3, p1 / p3, p0 / p3), 1.0)
+        } else if p0 != 0.0 {
+            (1.0, cube_root(p1 / p0, p2 / p0, p3 / p0))
+        } else {
+            (0.0, 1.0)
+        };
 
         // Build the matrix called D0 in the paper.
-        let d0_00 = a23 * (1.0 - g);
-        let d0_01 = -(a23 * c12);
+        let d0_00 = a23 * (h - g);
+        let d0_01 = -(a23 * c12) * h;
         let d0_02 = a23 * c31 * g;
-        let d0_11 = a23 - a12 + a13 * g;
-        let d0_12 = -c23 * (a13 * g - a12);
-        let d0_22 = g * (a13 - a23) - a12;
+        let d0_11 = (a23 - a12) * h + a13 * g;
+        let d0_12 = -c23 * (a13 * g - a12 * h);
+        let d0_22 = g * (a13 - a23) - a12 * h;
         #[rustfmt::skip]
     let d0_mat = Mat3::new(
         d0_00, d0_01, d0_02,
-- 
2.43.0


From 701fc3862f5c6afc37f900c3a3c850c21a83a75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 16/40] fix: choose a depth that the lambda twist constraints
 determine when eliminating

---
 lambda-twist/src/lib.rs | 96 +++++++++++++++++++++++------------------
 1 file changed, 55 insertions(+), 41 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index d031a23..74b2046 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -209,51 +209,65 @@ impl LambdaTwist {
         // Solve the four possible solutions for the depths values.
         let eigen_ratio = (0.0_f64.max(-eig_values[1] / eig_values[0])).sqrt();
 
-        // Helper closure to compute quadratic coefficients.
-        // CF equation (15) in paper.
-        let quadratic_coefficients = |ratio: f64| {
-            let w2 = 1.0 / (ratio * eig_vectors.m12 - eig_vectors.m11);
-            let w0 = w2 * (eig_vectors.m21 - ratio * eig_vectors.m22);
-            let w1 = w2 * (eig_vectors.m31 - ratio * eig_vectors.m32);
-
-            let a = 1.0 / ((a13 - a12) * w1 * w1 - a12 * b13 * w1 - a12);
-            let b = a * (a13 * b12 * w1 - a12 * b13 * w0 - 2.0 * w0 * w1 * (a12 - a13));
-            let c = a * ((a13 - a12) * w0 * w0 + a13 * b12 * w0 + a13);
-            (w0, w1, b, c)
-        };
-
-        // Helper closure to estimate possible depths values.
-        // CF equation (16) in paper.
-        let possible_depths = |tau: f64, w0: f64, w1: f64| {
-            let d = a23 / (tau * (b23 + tau) + 1.0);
-            if d > 0.0 {
-                let l2 = d.sqrt();
-                let l3 = tau * l2;
-                let l1 = w0 * l2 + w1 * l3;
-                (true, l1, l2, l3)
-            } else {
-                (false, 0.0, 0.0, 0.0)
-            }
-        };
-
-        // Helper closure pushing one potential solution.
-        let mut push_solution = |tau: f64, w0: f64, w1: f64| {
-            if tau > 0.0 {
-                let (valid, l1, l2, l3) = possible_depths(tau, w0, w1);
-                if valid && l1 >= 0.0 {
-                    lambdas.push(Vec3::new(l1, l2, l3));
-                }
-            }
-        };
+        // The matrix D0 is a weighted sum of the constraints on the distances "a12", "a13", and "a23".
+        // These are the magnitudes of the weights indexed by the sample which isn't in the constraint.
+        let weights = [
+            Float::abs(a13 * g - a12 * h),
+            Float::abs(a23 * g),
+            Float::abs(a23 * h),
+        ];
+        // The distances and cosines between the samples, also indexed by the sample which isn't involved.
+        let dists = [a23, a13, a12];
+        let cosines = [b23, b13, b12];
 
         // Helper closure pushing two potential solutions
         // corresponding to a given eigen value ratio.
         let mut push_solutions_to_lambdas = |ratio: f64| {
-            let (w0, w1, b, c) = quadratic_coefficients(ratio);
-            if b * b - 4.0 * c >= 0.0 {
-                let (_, tau1, tau2) = root2real(b, c);
-                push_solution(tau1, w0, w1);
-                push_solution(tau2, w0, w1);
+            // The depths are perpendicular to this vector.
+            let n = eig_vectors.column(0) - ratio * eig_vectors.column(1);
+            // Express the depth `i` in terms of the depths `j` and `k`. Any depth can be chosen so long as it has an
+            // influence and so long as the constraint on `j` and `k` is part of D0, so use the best conditioned one.
+            let mut i = 0;
+            for ix in 1..3 {
+                if Float::abs(n[ix]) * weights[ix] > Float::abs(n[i]) * weights[i] {
+                    i = ix;
+                }
+            }
+            let (j, k) = ((i + 1) % 3, (i + 2) % 3);
+            let w0 = -n[j] / n[i];
+            let w1 = -n[k] / n[i];
+
+            // Compute quadratic coefficients of the ratio `tau` between the depths `k` and `j`.
+            // CF equation (15) in paper.
+            let (aij, aik, ajk) = (dists[k], dists[j], dists[i]);
+            let (bij, bik, bjk) = (cosines[k], cosines[j], cosines[i]);
+            let a = (aik - aij) * w1 * w1 - aij * bik * w1 - aij;
+            let b = aik * bij * w1 - aij * bik * w0 - 2.0 * w0 * w1 * (aij - aik);
+            let c = (aik - aij) * w0 * w0 + aik * bij * w0 + aik;
+            let discriminant = b * b - 4.0 * a * c;
+            if discriminant >= 0.0 {
+                let y = Float::sqrt(discriminant);
+                let q = if b < 0.0 {
+                    0.5 * (-b + y)
+                } else {
+                    0.5 * (-b - y)
+                };
+                for tau in [q / a, c / q] {
+                    // CF equation (16) in paper.
+                    let d = ajk / (tau * (bjk + tau) + 1.0);
+                    if tau > 0.0 && d > 0.0 {
+                        let lj = Float::sqrt(d);
+                        let lk = tau * lj;
+                        let li = w0 * lj + w1 * lk;
+                        if li >= 0.0 {
+                            let mut lambda = Vec3::zeros();
+                            lambda[i] = li;
+                            lambda[j] = lj;
+                            lambda[k] = lk;
+                            lambdas.push(lambda);
+                        }
+                    }
+                }
             }
         };
 
-- 
2.43.0


From d61ea2661dab4a36520b3cd8c9f31a0f9de5bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 17/40] fix: drop lambda twist hypotheses whose depths do not
 satisfy the constraints

---
 lambda-twist/src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 74b2046..5f9f728 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -292,9 +292,9 @@ impl LambdaTwist {
 
         lambdas
             .iter()
-            .map(|&lambda| {
+            .filter_map(|&lambda| {
                 // Refine estimated depth values.
-                let lambda_refined = gauss_newton_refine_lambda(
+                let (lambda_refined, residual) = gauss_newton_refine_lambda(
                     lambda,
                     self.gauss_newton_iterations,
                     a12,
@@ -305,6 +305,11 @@ impl LambdaTwist {
                     b23,
                 );
 
+                // There might be no depths that satisfy the constraints, in which case the estimate is spurious.
+                if !(residual <= 1e-6 * (a12 + a13 + a23)) {
+                    return None;
+                }
+
                 let ry1 = lambda_refined[0] * *bearings[0];
                 let ry2 = lambda_refined[1] * *bearings[1];
                 let ry3 = lambda_refined[2] * *bearings[2];
@@ -321,7 +326,7 @@ impl LambdaTwist {
             );
 
                 let rot = y_mat * x_mat;
-                (rot, ry1 - rot * wps[0].coords)
+                Some((rot, ry1 - rot * wps[0].coords))
             })
             .map(|(rot, trans)| {
                 // The iteration that finds the closest rotation can only escape from guesses
@@ -383,6 +388,7 @@ impl Estimator<FeatureWorldMatch> for LambdaTwist {
 /// b13: f64, -2.0 * cosine of the angle between bearing vector 1 and bearing vector 3.
 /// b23: f64, -2.0 * cosine of the angle between bearing vector 2 and bearing vector 3.
 /// The paper note it rarely improve after two iterations. The original implementation use 5 iterations.
+/// Also returns the L1 norm of the residuals of the refined solution.
 #[allow(clippy::similar_names)]
 #[allow(clippy::too_many_arguments)]
 fn gauss_newton_refine_lambda(
@@ -394,7 +400,7 @@ fn gauss_newton_refine_lambda(
     b12: f64,
     b13: f64,
     b23: f64,
-) -> Vec3 {
+) -> (Vec3, f64) {
     let compute_residual = |l: &Vec3| {
         let l1 = l.x;
         let l2 = l.y;
@@ -435,7 +441,7 @@ fn gauss_newton_refine_lambda(
             res = res_new;
         }
     }
-    Vec3::new(l1, l2, l3)
+    (Vec3::new(l1, l2, l3), l1_norm(res))
 }
 
 /// Compute L1 norm of a vector.
-- 
2.43.0


From 15f95e05f9d2f3d32bb4c4ae605836cadc41a677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:21 +0000
Subject: [PATCH 18/40] fix: find the simple root of cubics with multiple roots
 in lambda twist

---
 lambda-twist/src/lib.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 5f9f728..48946b9 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -490,29 +490,28 @@ fn root2real(b: f64, c: f64) -> (bool, f64, f64) {
 /// In these cases, we can make a second order approximation of h
 /// around each of t1 and t2, and choose r0
 /// as the leftmost or rightmost root of these approximations,
-/// depending on whether zero, one, or both of h(t1) and h(t2) are > 0.
+/// depending on whether h(t1) or h(t2) is further from 0.
 #[allow(clippy::many_single_char_names)]
 fn cube_root(b: f64, c: f64, d: f64) -> f64 {
     // Choose an initial solution.
     let mut r0;
     // Not monotonic.
-    if b * b >= 3.0 * c {
+    if b * b > 3.0 * c {
         // h has two stationary points, compute them.
-        // double t1 = t - sqrt(diff);
         let v = (b * b - 3.0 * c).sqrt();
         let t1 = (-b - v) / 3.0;
-
-        // Check if h(t1) > 0, in this case make a 2-order approx of h around t1.
-        let mut k = ((t1 + b) * t1 + c) * t1 + d;
-
-        if k > 0.0 {
-            // Find leftmost root of 0.5 * (r0 - t1)^2 * (6 * t1 + 2 * b) + k = 0.
-            r0 = t1 - (-k / (3.0 * t1 + b)).sqrt();
+        let t2 = (-b + v) / 3.0;
+        let k1 = ((t1 + b) * t1 + c) * t1 + d;
+        let k2 = ((t2 + b) * t2 + c) * t2 + d;
+
+        // Make a 2-order approx of h around the stationary point which is the furthest from being a root,
+        // as the other one might be a double root.
+        if k1 + k2 > 0.0 {
+            // Find leftmost root of 0.5 * (r0 - t1)^2 * (6 * t1 + 2 * b) + k1 = 0.
+            r0 = t1 - (-k1 / (3.0 * t1 + b)).sqrt();
         } else {
-            let t2 = (-b + v) / 3.0;
-            k = ((t2 + b) * t2 + c) * t2 + d;
-            // Find rightmost root of 0.5 * (r0 - t2)^2 * (6 * t2 + 2 * b) + k1 = 0.
-            r0 = t2 + (-k / (3.0 * t2 + b)).sqrt();
+            // Find rightmost root of 0.5 * (r0 - t2)^2 * (6 * t2 + 2 * b) + k2 = 0.
+            r0 = t2 + (-k2 / (3.0 * t2 + b)).sqrt();
         }
     } else {
         // r0 = 1.0 / cubick_inv(c/d, b/d, 1.0/d);
@@ -527,6 +526,10 @@ fn cube_root(b: f64, c: f64, d: f64) -> f64 {
     // According to the author, increasing it could lead to a better solution (more robust).
     for _ in 0..7 {
         let fx = ((r0 + b) * r0 + c) * r0 + d;
+        // Avoid dividing zero by zero on multiple roots.
+        if fx == 0.0 {
+            break;
+        }
         let fpx = (3.0 * r0 + 2.0 * b) * r0 + c;
         r0 -= fx / fpx;
     }
-- 
2.43.0


From b00a1ebf53382ccd377807aee5bcb168fca9682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 19/40] fix: encode epipolar equations of bearings parallel to
 the image plane in the eight-point algorithm

---
 eight-point/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eight-point/src/lib.rs b/eight-point/src/lib.rs
index fdea941..40549c5 100644
--- a/eight-point/src/lib.rs
+++ b/eight-point/src/lib.rs
@@ -12,10 +12,10 @@ fn encode_epipolar_equation(matches: impl Iterator<Item = FeatureMatch>) -> OMat
     let mut out: OMatrix<f64, U8, U9> = nalgebra::zero();
     for (i, FeatureMatch(a, b)) in (0..8).zip(matches) {
         let mut row = OVector::<f64, U9>::zeros();
-        let ap = a.into_inner() / a.z;
-        let bp = b.into_inner() / a.z;
+        // The equation is homogeneous, so the bearings don't need to be projected onto an image plane
+        // (bearings that are parallel to the image plane have no such projection).
         for j in 0..3 {
-            let v = ap[j] * bp;
+            let v = a[j] * b.into_inner();
             row.fixed_rows_mut::<3>(3 * j).copy_from(&v);
         }
         out.row_mut(i).copy_from(&row.transpose());
-- 
2.43.0


From 2d7cbf81a266af55619c632bd5fd90fa66e0b25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:19 +0000
Subject: [PATCH 20/40] fix: choose the eight-point solution by its error
 rather than by a mismatched eigenvalue

---
 eight-point/src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/eight-point/src/lib.rs b/eight-point/src/lib.rs
index 40549c5..295d663 100644
--- a/eight-point/src/lib.rs
+++ b/eight-point/src/lib.rs
@@ -47,12 +47,13 @@ impl EightPoint {
         let epipolar_constraint = encode_epipolar_equation(data);
         let eet = epipolar_constraint.transpose() * epipolar_constraint;
         let eigens = eet.try_symmetric_eigen(self.epsilon, self.iterations)?;
+        // The eigenvalues are not always in the same order as the eigenvectors, so the solution with
+        // the least error is found by evaluating the error of each eigenvector.
         let eigenvector = eigens
-            .eigenvalues
-            .iter()
-            .enumerate()
-            .min_by_key(|&(_, &n)| float_ord::FloatOrd(n))
-            .map(|(ix, _)| eigens.eigenvectors.column(ix).into_owned())?;
+            .eigenvectors
+            .column_iter()
+            .map(|v| v.into_owned())
+            .min_by_key(|v| float_ord::FloatOrd((epipolar_constraint * v).norm_squared()))?;
         let mat = Matrix3::from_iterator(eigenvector.iter().copied());
         Some(EssentialMatrix(mat))
     }
-- 
2.43.0


From f5ab261d2d214dda65fc103f11c8ad7a97eb3def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 21/40] fix: read the solution from the linear monomials in
 nister-stewenius

---
 nister-stewenius/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 17c99cd..8053c3d 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -227,7 +227,7 @@ fn essentials_from_action_ebasis(
             if e.im == 0.0 {
                 let e = e.re;
                 // Solve for the eigen vector.
-                compute_eigenvector(&at, e).map(|v| v.fixed_rows::<4>(5).into_owned())
+                compute_eigenvector(&at, e).map(|v| v.fixed_rows::<4>(6).into_owned())
             } else {
                 None
             }
-- 
2.43.0


From 52073eee0c4046be8e5b36a23fcd65393e0f398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 22/40] fix: match eigenvalues to eigenvectors when extracting
 the null space in nister-stewenius

---
 nister-stewenius/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 8053c3d..0a6e5bc 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -73,14 +73,20 @@ pub fn five_points_nullspace_basis(
     let ee = epipolar_constraint.transpose() * epipolar_constraint;
     ee.try_symmetric_eigen(EIGEN_CONVERGENCE, EIGEN_ITERATIONS)
         .and_then(|m| {
-            // We need to sort the eigenvectors by their corresponding eigenvalue.
+            // We need to sort the eigenvectors by their corresponding eigenvalue. The eigenvalues are
+            // not always in the same order as the eigenvectors, so they are found by applying the
+            // constraint to each eigenvector.
+            let eigenvalues = (epipolar_constraint * m.eigenvectors)
+                .column_iter()
+                .map(|c| c.norm_squared())
+                .collect::<ArrayVec<f64, 9>>();
             let mut sources = [0, 1, 2, 3, 4, 5, 6, 7, 8];
-            sources.sort_unstable_by_key(|&ix| float_ord::FloatOrd(m.eigenvalues[ix]));
+            sources.sort_unstable_by_key(|&ix| float_ord::FloatOrd(eigenvalues[ix]));
             let mut nullspace = NullspaceMat::zeros();
             // We must have a nullity of 4.
             let nullity = sources
                 .iter()
-                .map(|&i| m.eigenvalues[i])
+                .map(|&i| eigenvalues[i])
                 .enumerate()
                 .find(|&(_, e)| e > EIGEN_THRESHOLD)
                 .map(|(ix, _)| ix)?;
-- 
2.43.0


From 2375210671a79ffb98ff57ad3dd333e2dd55ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 23/40] fix: do not loop endlessly when the nister-stewenius
 eigenvalues do not converge

---
 nister-stewenius/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 0a6e5bc..0275cdd 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -5,6 +5,7 @@ use cv_core::{
     nalgebra::{
         self,
         dimension::{U10, U20, U4, U5, U9},
+        linalg::Schur,
         DimName, Matrix3, OMatrix, OVector, UnitVector3, Vector3, Vector4,
     },
     CameraToCamera, FeatureMatch,
@@ -226,10 +227,12 @@ fn essentials_from_action_ebasis(
     at: Square10,
     eb: NullspaceMat,
 ) -> impl Iterator<Item = EssentialMatrix> {
-    let eigenvalues = at.complex_eigenvalues();
-    (0..eigenvalues.len())
-        .filter_map(move |i| {
-            let e = eigenvalues[i];
+    // The decomposition doesn't converge for every matrix, so its iterations must be limited.
+    Schur::try_new(at, f64::EPSILON, EIGEN_ITERATIONS)
+        .map(|schur| schur.complex_eigenvalues())
+        .into_iter()
+        .flat_map(|eigenvalues| (0..eigenvalues.len()).map(move |i| eigenvalues[i]))
+        .filter_map(move |e| {
             if e.im == 0.0 {
                 let e = e.re;
                 // Solve for the eigen vector.
-- 
2.43.0


From 21419395fff7d01cb5ee4c59cf088f984592c574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 24/40] fix: find nister-stewenius solutions that are
 orthogonal to a vector of the null space basis

---
 nister-stewenius/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 0275cdd..9c41221 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -6,7 +6,7 @@ use cv_core::{
         self,
         dimension::{U10, U20, U4, U5, U9},
         linalg::Schur,
-        DimName, Matrix3, OMatrix, OVector, UnitVector3, Vector3, Vector4,
+        DimName, Matrix3, Matrix4, OMatrix, OVector, UnitVector3, Vector3, Vector4,
     },
     CameraToCamera, FeatureMatch,
 };
@@ -66,6 +66,14 @@ fn encode_epipolar_equation(
     out
 }
 
+/// A rotation of the null space that has no structure in common with the axes of the camera.
+fn null_space_rotation() -> Matrix4<f64> {
+    let reflection =
+        |v: Vector4<f64>| Matrix4::identity() - v * v.transpose() * (2.0 / v.norm_squared());
+    reflection(Vector4::new(0.31, -0.73, 0.52, 1.13))
+        * reflection(Vector4::new(-0.87, 0.29, 0.67, 0.41))
+}
+
 pub fn five_points_nullspace_basis(
     a: &[UnitVector3<f64>; 5],
     b: &[UnitVector3<f64>; 5],
@@ -98,7 +106,10 @@ pub fn five_points_nullspace_basis(
             for (&ix, mut column) in sources.iter().zip(nullspace.column_iter_mut()) {
                 column.copy_from(&m.eigenvectors.column(ix));
             }
-            Some(nullspace)
+            // The solutions are found in coordinates relative to the last vector of the basis. Mix the
+            // vectors so that the solutions of structured scenes (such as a translation along an axis)
+            // are not orthogonal to the last vector.
+            Some(nullspace * null_space_rotation())
         })
 }
 
-- 
2.43.0


From b60a6b9cceb1bcd3c6ae2583c475ea66981340e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:45 +0000
Subject: [PATCH 25/40] fix: find the nister-stewenius eigenvalues through the
 transposed matrix when they do not converge

---
 nister-stewenius/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 9c41221..f4e3e8a 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -238,8 +238,10 @@ fn essentials_from_action_ebasis(
     at: Square10,
     eb: NullspaceMat,
 ) -> impl Iterator<Item = EssentialMatrix> {
-    // The decomposition doesn't converge for every matrix, so its iterations must be limited.
+    // The decomposition doesn't converge for every matrix, so its iterations must be limited. The
+    // transposed matrix has the same eigenvalues.
     Schur::try_new(at, f64::EPSILON, EIGEN_ITERATIONS)
+        .or_else(|| Schur::try_new(at.transpose(), f64::EPSILON, EIGEN_ITERATIONS))
         .map(|schur| schur.complex_eigenvalues())
         .into_iter()
         .flat_map(|eigenvalues| (0..eigenvalues.len()).map(move |i| eigenvalues[i]))
-- 
2.43.0


From 2fe3076faa36d044e2466592b35a72dc294086a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 26/40] fix: keep the pose when all landmarks of the
 single-view L1 optimizer are at infinity

---
 cv-optimize/src/single_view_optimizer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cv-optimize/src/single_view_optimizer.rs b/cv-optimize/src/single_view_optimizer.rs
index f8e896d..2e8b325 100644
--- a/cv-optimize/src/single_view_optimizer.rs
+++ b/cv-optimize/src/single_view_optimizer.rs
@@ -39,6 +39,11 @@ pub fn single_view_simple_optimize_l1(
             }
         }
 
+        // None of the landmarks have a position (all of them are at infinity).
+        if ts == 0.0 {
+            break;
+        }
+
         let delta = l1sum
             .scale(optimization_rate)
             .scale_translation(ts.recip())
-- 
2.43.0


From f7bb3504b384234566065b02211fe6b60839bd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:35 +0000
Subject: [PATCH 27/40] fix: normalise AKAZE's derivatives at scale one like at
 every other scale

---
 akaze/src/derivatives.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/akaze/src/derivatives.rs b/akaze/src/derivatives.rs
index 16ad052..996a595 100644
--- a/akaze/src/derivatives.rs
+++ b/akaze/src/derivatives.rs
@@ -21,9 +21,6 @@ pub fn simple_scharr_vertical(image: &GrayFloatImage) -> GrayFloatImage {
 /// # Return value
 /// Output image derivative (an image.)
 pub fn scharr_horizontal(image: &GrayFloatImage, sigma_size: u32) -> GrayFloatImage {
-    if sigma_size == 1 {
-        return simple_scharr_horizontal(image);
-    }
     let main_kernel = computer_scharr_kernel(sigma_size, FilterOrder::Main);
     let off_kernel = computer_scharr_kernel(sigma_size, FilterOrder::Off);
     GrayFloatImage(separable_filter(&image.0, &main_kernel, &off_kernel))
@@ -40,9 +37,6 @@ pub fn scharr_horizontal(image: &GrayFloatImage, sigma_size: u32) -> GrayFloatIm
 /// # Return value
 /// Output image derivative (an image.)
 pub fn scharr_vertical(image: &GrayFloatImage, sigma_size: u32) -> GrayFloatImage {
-    if sigma_size == 1 {
-        return simple_scharr_vertical(image);
-    }
     let main_kernel = computer_scharr_kernel(sigma_size, FilterOrder::Main);
     let off_kernel = computer_scharr_kernel(sigma_size, FilterOrder::Off);
     GrayFloatImage(separable_filter(&image.0, &off_kernel, &main_kernel))
-- 
2.43.0


From 42aa516a5c76e1c3af4e428cd83007eba2859ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:35 +0000
Subject: [PATCH 28/40] fix: a diffusion cycle of one step no longer underflows
 or loops

---
 akaze/src/fed_tau.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/akaze/src/fed_tau.rs b/akaze/src/fed_tau.rs
index 9cdfe58..ecb0952 100644
--- a/akaze/src/fed_tau.rs
+++ b/akaze/src/fed_tau.rs
@@ -70,7 +70,8 @@ fn fed_tau_internal(n: usize, scale: f64, tau_max: f64, reordering: bool) -> Vec
         // Permute list of time steps according to chosen reordering function
         // Choose kappa cycle with k = n/2
         // This is a heuristic. We can use Leja ordering instead!
-        let kappa = n / 2;
+        // A cycle of a single step has nothing to reorder, but kappa must not vanish.
+        let kappa = (n / 2).max(1);
         let mut prime = n + 1;
         while !primal::is_prime(prime as u64) {
             prime += 1;
-- 
2.43.0


From 710acd1850adf104b06c780184e4eaaf1bf8f35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:35 +0000
Subject: [PATCH 29/40] fix: use the fallback contrast for images without
 gradients instead of an undefined scale space

---
 akaze/src/contrast_factor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/akaze/src/contrast_factor.rs b/akaze/src/contrast_factor.rs
index db1a225..d3813b3 100644
--- a/akaze/src/contrast_factor.rs
+++ b/akaze/src/contrast_factor.rs
@@ -56,7 +56,8 @@ pub fn compute_contrast_factor(
         "hmax: {}, threshold: {}, num_elements: {}",
         hmax, threshold, num_elements
     );
-    if num_elements >= threshold {
+    // If there are no gradients at all, any percentile of them is zero, which is not a usable contrast.
+    if k > 0 && num_elements >= threshold {
         hmax * (k as f64) / (num_bins as f64)
     } else {
         0.03
-- 
2.43.0


From 0ca855f9e718cba19e890d94e4de04418c9b379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:35 +0000
Subject: [PATCH 30/40] fix: extract no features from an image that is too
 small instead of panicking

---
 akaze/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/akaze/src/lib.rs b/akaze/src/lib.rs
index 6456554..283afef 100644
--- a/akaze/src/lib.rs
+++ b/akaze/src/lib.rs
@@ -315,6 +315,10 @@ impl Akaze {
         let mut evolutions =
             self.allocate_evolutions(float_image.0.width(), float_image.0.height());
         info!("Allocated evolutions in: {:?}", start.elapsed());
+        if evolutions.is_empty() {
+            // The image is too small for even one level of the scale space.
+            return (vec![], vec![]);
+        }
         trace!("Creating non-linear space.");
         let start = Instant::now();
         self.create_nonlinear_scale_space(&mut evolutions, float_image);
-- 
2.43.0


From 7d596562441bb1837e27d886e81e10867289191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:30 +0000
Subject: [PATCH 31/40] fix: gradients of angle zero take part in AKAZE's
 orientation

---
 akaze/src/scale_space_extrema.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/akaze/src/scale_space_extrema.rs b/akaze/src/scale_space_extrema.rs
index 1a4bf01..511ea7f 100644
--- a/akaze/src/scale_space_extrema.rs
+++ b/akaze/src/scale_space_extrema.rs
@@ -268,8 +268,9 @@ fn compute_main_orientation(keypoint: &mut KeyPoint, evolutions: &[EvolutionStep
         };
         for k in 0..109 {
             let ang = angs[k];
-            if (ang1 < ang2 && ang1 < ang && ang < ang2)
-                || (ang2 < ang1 && ((ang > 0f32 && ang < ang2) || (ang > ang1 && ang < 2.0 * PI)))
+            // The window includes its first angle, so that gradients of angle zero are in the first one.
+            if (ang1 < ang2 && ang1 <= ang && ang < ang2)
+                || (ang2 < ang1 && (ang < ang2 || ang >= ang1))
             {
                 sum_x += res_x[k];
                 sum_y += res_y[k];
-- 
2.43.0


From 7c935c0ca2d51a2284f00280c2aa1b383647c2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 32/40] fix: forget the constraints of removed views while
 applying constraints

---
 cv-sfm/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cv-sfm/src/lib.rs b/cv-sfm/src/lib.rs
index a6c81f2..2744797 100644
--- a/cv-sfm/src/lib.rs
+++ b/cv-sfm/src/lib.rs
@@ -2360,12 +2360,17 @@ where
         reconstruction: ReconstructionKey,
     ) -> Option<ReconstructionKey> {
         info!("optimizing reconstruction with three-view constraints");
-        let constraints = self.flatten_constraints(reconstruction);
+        let mut constraints = self.flatten_constraints(reconstruction);
         for _ in 0..self.settings.optimization_iterations {
             if let Some(bundle_adjust) =
                 self.compute_momentum_bundle_adjust(reconstruction, &constraints)
             {
+                let removes_views = !bundle_adjust.removed_views.is_empty();
                 self.data.apply_bundle_adjust(bundle_adjust);
+                // Removing a view also removes its constraints.
+                if removes_views {
+                    constraints = self.flatten_constraints(reconstruction);
+                }
             } else {
                 self.data.remove_reconstruction(reconstruction);
                 return None;
-- 
2.43.0


From 5b7db40c038c11561ec60061dc7b0a7690f001b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 33/40] fix: mark every view of a constraint as visited when
 selecting constraints

---
 cv-sfm/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cv-sfm/src/lib.rs b/cv-sfm/src/lib.rs
index 2744797..b395f5c 100644
--- a/cv-sfm/src/lib.rs
+++ b/cv-sfm/src/lib.rs
@@ -2495,7 +2495,14 @@ where
         let mut already_visited: HashSet<ViewKey> = HashSet::new();
         let unique_three_view_covisibilities = robust_three_view_covisibilities
             .iter()
-            .filter(|(views, _)| views.iter().any(|&view| already_visited.insert(view)))
+            .filter(|(views, _)| {
+                // Every view of the constraint needs to be marked, so this cannot stop at the first new one.
+                let new_views = views
+                    .iter()
+                    .filter(|&&view| already_visited.insert(view))
+                    .count();
+                new_views != 0
+            })
             .take(self.settings.optimization_maximum_three_view_constraints)
             .collect_vec();
         // If we can't get enough of those, pad it out with more three-view covisibilities until
-- 
2.43.0


From e73f225ae7e8455b0741ffa9a8fbd5bc74669a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:05 +0000
Subject: [PATCH 34/40] fix: terminate frame registration that starts with no
 features

---
 cv-sfm/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cv-sfm/src/lib.rs b/cv-sfm/src/lib.rs
index b395f5c..b6e2373 100644
--- a/cv-sfm/src/lib.rs
+++ b/cv-sfm/src/lib.rs
@@ -1805,8 +1805,9 @@ where
             if add_features.end == new_frame_num_features {
                 break;
             }
-            add_features =
-                add_features.end..std::cmp::min(add_features.end * 2, new_frame_num_features);
+            // At least one feature needs to be added for this to come to an end.
+            let next_end = std::cmp::max(add_features.end * 2, 1);
+            add_features = add_features.end..std::cmp::min(next_end, new_frame_num_features);
         }
         None
     }
-- 
2.43.0


From bfde831118f1ffb87dedc0c773c66798fd3834ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:15 +0000
Subject: [PATCH 35/40] fix: try the remaining frame pairs when one has too few
 robust bearing pairs

---
 cv-sfm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv-sfm/src/lib.rs b/cv-sfm/src/lib.rs
index b6e2373..60d7cb8 100644
--- a/cv-sfm/src/lib.rs
+++ b/cv-sfm/src/lib.rs
@@ -1102,7 +1102,7 @@ where
                     "could not find {} robust bearing pairs; rejecting three-view match",
                     self.settings.robust_view_num_robust_bearing_pair
                 );
-                return None;
+                continue;
             }
 
             // If we have more than half of the initial matches, the estimation is robust.
-- 
2.43.0


From db7bea7ba625ae62d59e4bccf4eb68cf785d5091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:51 +0000
Subject: [PATCH 36/40] fix: keep the observations of the shared frame joined
 when merging reconstructions

Only the features of the shared frame that matched into the destination
were joined; the landmarks of the others lost that observation, as a
second landmark of the source was created for it.
---
 cv-sfm/src/lib.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/cv-sfm/src/lib.rs b/cv-sfm/src/lib.rs
index 60d7cb8..bb82cee 100644
--- a/cv-sfm/src/lib.rs
+++ b/cv-sfm/src/lib.rs
@@ -2155,20 +2155,15 @@ where
         let dest_pose = self.data.view(dest_reconstruction, dest_view).pose;
 
         // At this point, the view is already in the destination reconstruction,
-        // but it also exists in the source reconstruction. Extract the source reconstruction
-        // landmarks for the view.
-        let landmark_to_landmark: HashMap<LandmarkKey, LandmarkKey> = matches
-            .iter()
-            .map(|(&src_feature, dest_landmarks)| {
-                (
-                    self.data.view(src_reconstruction, src_view).landmarks[src_feature],
-                    // TODO: This ignores the situation in which the landmarks are slated to be
-                    // merged. This is actually okay, but long term it would be better to also merge
-                    // the landmarks in the destination reconstruction when the reconstructions are merged.
-                    dest_landmarks[0],
-                )
-            })
-            .collect();
+        // but it also exists in the source reconstruction. Every feature has a landmark in both
+        // reconstructions, and these landmarks are the same, even if the feature had no match
+        // in the destination reconstruction.
+        let landmark_to_landmark: HashMap<LandmarkKey, LandmarkKey> = izip!(
+            &self.data.view(src_reconstruction, src_view).landmarks,
+            &self.data.view(dest_reconstruction, dest_view).landmarks
+        )
+        .map(|(&src_landmark, &dest_landmark)| (src_landmark, dest_landmark))
+        .collect();
 
         // Now remove the view from the source reconstruction.
         // Rather than calling remove_view, we will just remove it directly so
-- 
2.43.0


From 718a7d4e14ca926b98276bb6f0ca1ff06a090341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 37/40] fix: relate the scales of two reconstructions when
 merging them

The scale of a reconstruction is arbitrary, but the source was moved into
the destination by a rigid transformation, leaving it at the wrong size.
---
 cv-sfm/src/lib.rs | 56 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/cv-sfm/src/lib.rs b/cv-sfm/src/lib.rs
index bb82cee..4a13261 100644
--- a/cv-sfm/src/lib.rs
+++ b/cv-sfm/src/lib.rs
@@ -2109,6 +2109,37 @@ where
         true
     }
 
+    /// Finds the scale of the destination reconstruction relative to the source reconstruction.
+    ///
+    /// `src_view` and `dest_view` must be views of the same frame. The scale is the median ratio of the
+    /// distances from the frame to the landmarks that are robust in both reconstructions.
+    fn relative_scale(
+        &self,
+        src_reconstruction: ReconstructionKey,
+        src_view: ViewKey,
+        dest_reconstruction: ReconstructionKey,
+        dest_view: ViewKey,
+    ) -> Option<f64> {
+        let distance = |reconstruction, view, landmark| {
+            let point = self.triangulate_landmark_robust(reconstruction, landmark)?;
+            let pose = self.data.pose(reconstruction, view);
+            Some(pose.transform(point).point()?.coords.norm())
+        };
+        let mut scales: Vec<f64> = izip!(
+            &self.data.view(src_reconstruction, src_view).landmarks,
+            &self.data.view(dest_reconstruction, dest_view).landmarks
+        )
+        .filter_map(|(&src_landmark, &dest_landmark)| {
+            let src = distance(src_reconstruction, src_view, src_landmark)?;
+            let dest = distance(dest_reconstruction, dest_view, dest_landmark)?;
+            Some(dest / src)
+        })
+        .filter(|scale| scale.is_normal())
+        .collect();
+        scales.sort_unstable_by_key(|&scale| FloatOrd(scale));
+        scales.get(scales.len() / 2).copied()
+    }
+
     /// Attempts to register the given frame in the given source reconstruction with the landmarks in the given
     /// view in the destination reconstruction. It also merges the landmarks between the two reconstructions.
     ///
@@ -2127,7 +2158,6 @@ where
             self.data.reconstructions[dest_reconstruction].views.len()
         );
         let frame = self.data.view(src_reconstruction, src_view).frame;
-        let src_pose = self.data.view(src_reconstruction, src_view).pose;
 
         // Try to register the view into the dest reconstruction.
         let (dest_pose, matches) = self
@@ -2151,7 +2181,29 @@ where
             return None;
         }
 
-        // Extract the pose for the destination view.
+        // Each reconstruction has a scale of its own. Find the scale of the destination relative to
+        // the source. If it is unknown, the merger fails.
+        let scale = if let Some(scale) =
+            self.relative_scale(src_reconstruction, src_view, dest_reconstruction, dest_view)
+        {
+            scale
+        } else {
+            self.data.remove_view(dest_reconstruction, dest_view);
+            self.data.frames[frame].view = Some((src_reconstruction, src_view));
+            info!("no landmark is robust in both reconstructions; rejecting reconstruction match");
+            return None;
+        };
+
+        // Scale the source reconstruction.
+        for view in self.data.reconstructions[src_reconstruction]
+            .views
+            .values_mut()
+        {
+            view.pose.0.translation.vector *= scale;
+        }
+
+        // Extract the pose for the source and the destination view.
+        let src_pose = self.data.view(src_reconstruction, src_view).pose;
         let dest_pose = self.data.view(dest_reconstruction, dest_view).pose;
 
         // At this point, the view is already in the destination reconstruction,
-- 
2.43.0


From 69199e706739d8f4a61dc3668298ac4559d38b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:10 +0000
Subject: [PATCH 38/40] fix: do not use the decomposition of an essential
 matrix that did not converge

---
 cv-pinhole/src/essential.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/cv-pinhole/src/essential.rs b/cv-pinhole/src/essential.rs
index e05e16c..e37899e 100644
--- a/cv-pinhole/src/essential.rs
+++ b/cv-pinhole/src/essential.rs
@@ -1,5 +1,5 @@
 use cv_core::{
-    nalgebra::{Matrix3, Rotation3, UnitVector3, Vector3, SVD},
+    nalgebra::{Const, Matrix3, Rotation3, UnitVector3, Vector3, SVD},
     sample_consensus::Model,
     CameraToCamera, FeatureMatch, Pose,
 };
@@ -62,7 +62,7 @@ impl EssentialMatrix {
     /// that the two singular values are averaged and the null singular value is
     /// forced to zero.
     pub fn recondition(self, epsilon: f64, max_iterations: usize) -> Option<Self> {
-        let mut svd = self.try_svd(true, true, epsilon, max_iterations)?;
+        let mut svd = self.converging_svd(epsilon, max_iterations)?;
         // Now that the singular values are sorted, find the closest
         // essential matrix to E in frobenius form.
         // This consists of averaging the two non-zero singular values
@@ -76,6 +76,22 @@ impl EssentialMatrix {
         Some(Self(mat))
     }
 
+    /// Computes the singular value decomposition, with U and V*, if it converges.
+    ///
+    /// The decomposition of a 3x3 matrix in nalgebra fails if and only if the eigendecomposition it
+    /// is computed from does not converge, but it does not report that failure (it returns garbage
+    /// instead of `None`), so this makes sure that the eigendecomposition does converge.
+    fn converging_svd(
+        &self,
+        epsilon: f64,
+        max_iterations: usize,
+    ) -> Option<SVD<f64, Const<3>, Const<3>>> {
+        let Self(mat) = *self;
+        mat.tr_mul(&mat)
+            .try_symmetric_eigen(epsilon, max_iterations)?;
+        SVD::try_new(mat, true, true, epsilon, max_iterations)
+    }
+
     /// Returns two possible rotations for the essential matrix along with a translation
     /// bearing of arbitrary length. The translation bearing is not yet in the correct
     /// space and the inverse rotation (transpose) must be multiplied by the translation
@@ -116,16 +132,13 @@ impl EssentialMatrix {
         epsilon: f64,
         max_iterations: usize,
     ) -> Option<(Rotation3<f64>, Rotation3<f64>, Vector3<f64>)> {
-        let Self(essential) = *self;
-        let essential = essential;
-
         // `W` from https://en.wikipedia.org/wiki/Essential_matrix#Finding_one_solution.
         let w = Matrix3::new(0.0, -1.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0);
         // Transpose of `W` from https://en.wikipedia.org/wiki/Essential_matrix#Finding_one_solution.
         let wt = w.transpose();
 
         // Perform SVD.
-        let svd = SVD::try_new(essential, true, true, epsilon, max_iterations);
+        let svd = self.converging_svd(epsilon, max_iterations);
         // Extract only the U and V matrix from the SVD.
         let u_v_t = svd.map(|svd| {
             (
-- 
2.43.0


From 3257bb0332b9dc4d2765645073afca852e460420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:02 +0000
Subject: [PATCH 39/40] fix: compute the left singular vectors so that the
 direct triangulator's null vector is the right one

---
 cv-geom/src/triangulation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index 5b2615d..9fc9e06 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -357,7 +357,8 @@ impl TriangulatorRelative for RelativeDltTriangulator {
             .row_mut(3)
             .copy_from(&(b.y * pose.row(2) - b.z * pose.row(1)));
 
-        let svd = design.try_svd(false, true, self.epsilon, self.max_iterations)?;
+        // The singular values, and thus their order, are only right if the left singular vectors are computed as well.
+        let svd = design.try_svd(true, true, self.epsilon, self.max_iterations)?;
 
         // Extract the null-space vector from V* corresponding to the smallest
         // singular value, which is the homogeneous coordiate of the output.
-- 
2.43.0


From 63446c35c0786050d69f7364e24aa7e165941448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:49 +0000
Subject: [PATCH 40/40] fix: choose the point of the relative pose residual by
 its error rather than by a mismatched eigenvalue

---
 cv-core/src/pose.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index bdcc571..f9d2581 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -263,12 +263,12 @@ impl Model<FeatureMatch> for CameraToCamera {
             return 2.0;
         };
 
-        // Find the smallest eigenvalue where our point will lie in the null space homogeneous vector.
-        se.eigenvalues
-            .iter()
-            .enumerate()
-            .min_by_key(|&(_, &n)| n.abs().to_bits())
-            .map(|(ix, _)| se.eigenvectors.column(ix).into_owned())
+        // Find the eigenvector with the smallest error, which is the homogeneous vector in the null space.
+        // The eigenvalues are not always in the same order as the eigenvectors, so they can't be used.
+        se.eigenvectors
+            .column_iter()
+            .min_by_key(|v| v.dot(&(design * v)).abs().to_bits())
+            .map(|v| v.into_owned())
             .map(CameraPoint::from_homogeneous)
             .filter(|point| {
                 // Ensure the point contains no NaN or infinity.
-- 
2.43.0

