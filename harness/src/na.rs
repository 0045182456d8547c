//! Conversions between the reference arrays and the library's types.
use crate::refm::*;
use cv_core::nalgebra::{IsometryMatrix3, Matrix3, Rotation3, UnitVector3, Vector3, Vector4};
use cv_core::*;

pub fn nv(v: V3) -> Vector3<f64> {
    Vector3::new(v[0], v[1], v[2])
}
pub fn av(v: &Vector3<f64>) -> V3 {
    [v.x, v.y, v.z]
}
pub fn uv(v: V3) -> UnitVector3<f64> {
    UnitVector3::new_unchecked(nv(unit(v)))
}
pub fn au(v: &UnitVector3<f64>) -> V3 {
    [v.x, v.y, v.z]
}
pub fn nm(m: &M3) -> Matrix3<f64> {
    Matrix3::from_fn(|i, j| m[i][j])
}
pub fn am(m: &Matrix3<f64>) -> M3 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = m[(i, j)];
        }
    }
    r
}
pub fn nr(m: &M3) -> Rotation3<f64> {
    Rotation3::from_matrix_unchecked(nm(m))
}
pub fn ar(r: &Rotation3<f64>) -> M3 {
    am(r.matrix())
}
pub fn niso(g: &Rigid) -> IsometryMatrix3<f64> {
    IsometryMatrix3::from_parts(nv(g.t).into(), nr(&g.r))
}
pub fn aiso(g: &IsometryMatrix3<f64>) -> Rigid {
    Rigid {
        r: ar(&g.rotation),
        t: av(&g.translation.vector),
    }
}
pub fn h4(v: [f64; 4]) -> Vector4<f64> {
    Vector4::new(v[0], v[1], v[2], v[3])
}
pub fn a4(v: Vector4<f64>) -> [f64; 4] {
    [v.x, v.y, v.z, v.w]
}
pub fn cpoint(p: V3) -> CameraPoint {
    CameraPoint::from_homogeneous(h4([p[0], p[1], p[2], 1.0]))
}
pub fn wpoint(p: V3) -> WorldPoint {
    WorldPoint::from_homogeneous(h4([p[0], p[1], p[2], 1.0]))
}
pub fn winf(d: V3) -> WorldPoint {
    let d = unit(d);
    WorldPoint(h4([d[0], d[1], d[2], 0.0]))
}
pub fn pose_dist(a: &Rigid, b: &Rigid) -> (f64, f64) {
    (rot_dist(&a.r, &b.r), vdiff(a.t, b.t))
}
