//! Z01: stored values come back unchanged.
use crate::engine::*;
use crate::na::*;
use crate::props::core_pose::pose_lattice;
use crate::props::pinhole::cams;
use cv_core::nalgebra::{IsometryMatrix3, Point2, Vector2, Vector3};
use cv_core::*;
use cv_pinhole::*;
use serde_json::{from_str, from_value, to_string, to_value};

/// Through text and through a tree of values.
fn both<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T) -> Result<[T; 2], String> {
    let s = to_string(v).map_err(|e| e.to_string())?;
    let a = from_str(&s).map_err(|e| format!("{e} in {s}"))?;
    let b = from_value(to_value(v).map_err(|e| e.to_string())?).map_err(|e| format!("{e} in {s}"))?;
    Ok([a, b])
}

/// `view` lists everything that is observable about the value.
fn chk<T: serde::Serialize + serde::de::DeserializeOwned>(
    c: &mut Case,
    kind: &str,
    v: T,
    view: impl Fn(&T) -> Vec<f64>,
) {
    c.steps(2);
    let want = view(&v);
    match both(&v) {
        Err(e) => c.check(false, &format!("{kind}-unreadable"), || e),
        Ok(got) => {
            for g in &got {
                let g = view(g);
                let same = g.len() == want.len()
                    && g.iter().zip(&want).all(|(a, b)| a.to_bits() == b.to_bits() || (*a == 0.0 && *b == 0.0));
                c.check(same, &format!("{kind}-changed"), || format!("{kind}: stored {want:?}, read back {g:?}"));
            }
        }
    }
    c.outcome(&want);
}

fn iso(i: IsometryMatrix3<f64>) -> Vec<f64> {
    let mut v: Vec<f64> = i.translation.vector.iter().copied().collect();
    v.extend(i.rotation.matrix().iter());
    v
}

fn intr(k: &CameraIntrinsics) -> Vec<f64> {
    let mut v: Vec<f64> = k.matrix().iter().copied().collect();
    v.extend([k.focals.x, k.focals.y, k.principal_point.x, k.principal_point.y, k.skew]);
    v
}

pub fn z01(run: &Run) {
    let poses = pose_lattice(run);
    run.grid("pose", &[("pose", poses.len()), ("kind", 4)], |ix, c| {
        let i = niso(&poses[ix[0]]);
        match ix[1] {
            0 => chk(c, "world-to-camera", WorldToCamera(i), |p| iso(p.isometry())),
            1 => chk(c, "camera-to-world", CameraToWorld(i), |p| iso(p.isometry())),
            2 => chk(c, "camera-to-camera", CameraToCamera(i), |p| iso(p.isometry())),
            _ => chk(c, "world-to-world", WorldToWorld(i), |p| iso(p.isometry())),
        }
        if ix[0] == 7 {
            c.sample(|| format!("{:?}", to_string(&WorldToCamera(i)).ok()));
        }
    });
    let comp: Vec<f64> = run.pick(
        vec![0.0, 0.1, -1.0 / 3.0, 1e-300, -5e-324, 1.7976931348623157e308, -1e16, 1.0],
        vec![
            0.0, 0.1, -1.0 / 3.0, 1e-300, -5e-324, 1.7976931348623157e308, -1e16, 1.0, -1.0, 2.2250738585072014e-308,
            123456789.12345679, -9007199254740993.0, 1e22, -1e23, 0.30000000000000004, 5e-7,
        ],
    );
    let n = comp.len();
    run.grid("point", &[("x", n), ("y", n), ("z", n), ("w", n), ("kind", 4)], |ix, c| {
        let [x, y, z, w] = [comp[ix[0]], comp[ix[1]], comp[ix[2]], comp[ix[3]]];
        let h = h4([x, y, z, w]);
        match ix[4] {
            0 => chk(c, "camera-point", CameraPoint::from_homogeneous_unchecked(h), |p| a4(p.homogeneous()).to_vec()),
            1 => chk(c, "world-point", WorldPoint::from_homogeneous_unchecked(h), |p| a4(p.homogeneous()).to_vec()),
            2 => {
                if ix[3] == 0 {
                    chk(c, "rotation-vector", Skew3(Vector3::new(x, y, z)), |p| vec![p.x, p.y, p.z])
                }
            }
            _ => {
                if ix[3] == 0 && ix[2] == 0 {
                    chk(c, "keypoint", KeyPoint(Point2::new(x, y)), |p| vec![p.image_point().x, p.image_point().y])
                }
            }
        }
    });
    let cs = cams(run);
    let k1s = [0.0, -0.1, 1.0 / 3.0, 1e-9];
    run.grid("camera", &[("camera", cs.len()), ("distortion", 1 + k1s.len())], |ix, c| {
        let k = cs[ix[0]].real();
        if ix[1] == 0 {
            chk(c, "intrinsics", k, intr);
        } else {
            chk(c, "distorted", CameraIntrinsicsK1Distortion::new(k, k1s[ix[1] - 1]), |d| {
                let mut v = intr(&d.simple_intrinsics);
                v.push(d.k1);
                v
            });
        }
    });
    let px = [0usize, 1, 640, 4033, usize::MAX];
    run.grid("specification", &[("w", px.len()), ("h", px.len()), ("sw", n), ("sh", n)], |ix, c| {
        let (w, h) = (px[ix[0]], px[ix[1]]);
        let s = CameraSpecification { pixels: Vector2::new(w, h), pixel_dimensions: Vector2::new(comp[ix[2]], comp[ix[3]]) };
        chk(c, "specification", s, |s| {
            // sizes compare exactly through their halves
            let p = [s.pixels.x, s.pixels.y];
            let mut v: Vec<f64> = p.iter().flat_map(|q| [(q >> 32) as f64, (q & 0xffff_ffff) as f64]).collect();
            v.extend([s.pixel_dimensions.x, s.pixel_dimensions.y]);
            v
        });
    });
}
