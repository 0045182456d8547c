//! P01 pinhole model, P02 radial distortion, P03 sensor specification, P04 reprojection error.
use crate::engine::*;
use crate::na::*;
use crate::refm::*;
use cv_core::nalgebra::{Point2, UnitVector3, Vector2};
use cv_core::*;
use cv_pinhole::*;

#[derive(Clone, Copy, Debug)]
pub struct Cam {
    fx: f64,
    fy: f64,
    cx: f64,
    cy: f64,
    s: f64,
}
impl Cam {
    pub fn real(&self) -> CameraIntrinsics {
        CameraIntrinsics::identity()
            .focals(Vector2::new(self.fx, self.fy))
            .principal_point(Point2::new(self.cx, self.cy))
            .skew(self.s)
    }
    fn normalised(&self, p: [f64; 2]) -> [f64; 2] {
        let y = (p[1] - self.cy) / self.fy;
        [(p[0] - self.cx - self.s * y) / self.fx, y]
    }
    fn pixel(&self, n: [f64; 2]) -> [f64; 2] {
        [self.fx * n[0] + self.s * n[1] + self.cx, self.fy * n[1] + self.cy]
    }
}

pub fn cams(run: &Run) -> Vec<Cam> {
    let f = run.pick(vec![1.0, 0.5, 800.0, 3100.0], vec![1.0, 0.02, 0.5, 35.0, 800.0, 3100.0, 2e5]);
    let c = run.pick(vec![0.0, 511.5, -3.0], vec![0.0, 0.5, 511.5, -3.0, 1e5]);
    let s = run.pick(vec![0.0, 1.7, -240.0], vec![0.0, 1e-3, 1.7, -240.0, 900.0]);
    let mut v = vec![];
    for &fx in &f {
        for &fy in &f {
            for &cx in &c {
                for &cy in &c {
                    for &s in &s {
                        v.push(Cam { fx, fy, cx, cy, s });
                    }
                }
            }
        }
    }
    v
}

pub fn p01(run: &Run) {
    let cs = cams(run);
    let px: Vec<f64> = run.pick(
        vec![-1e5, -40.0, 0.0, 0.5, 511.5, 1919.0],
        vec![-1e5, -3000.0, -40.0, -1.0, 0.0, 0.5, 17.25, 511.5, 1079.0, 1919.0, 7e4],
    );
    run.grid("pixel", &[("camera", cs.len()), ("u", px.len()), ("v", px.len())], |ix, c| {
        let k = cs[ix[0]];
        let cam = k.real();
        let p = [px[ix[1]], px[ix[2]]];
        let n = k.normalised(p);
        let b = cam.calibrate(KeyPoint(Point2::new(p[0], p[1])));
        let gb = au(&b);
        c.steps(2);
        let want = unit([n[0], n[1], 1.0]);
        c.check(vdiff(gb, want) < 1e-12, "bearing", || {
            format!("{k:?}: pixel {p:?} has bearing {gb:?}, expected {want:?}")
        });
        c.check((norm(gb) - 1.0).abs() < 1e-12 && gb[2] > 0.0, "unit-forward", || {
            format!("{k:?}: pixel {p:?} has bearing {gb:?}")
        });
        // the calibration matrix projects the bearing back onto the pixel
        let m = am(&cam.matrix());
        let mm_: M3 = [[k.fx, k.s, k.cx], [0.0, k.fy, k.cy], [0.0, 0.0, 1.0]];
        c.check(m == mm_, "matrix", || format!("{k:?}: matrix {m:?}"));
        let h = 1.0 + norm([n[0], n[1], 1.0]);
        let tol = 1e-12 * h * h * (k.fx.abs() + k.fy.abs() + k.s.abs() + k.cx.abs() + k.cy.abs() + p[0].abs() + p[1].abs());
        match cam.uncalibrate(b) {
            None => c.check(false, "roundtrip-none", || format!("{k:?}: pixel {p:?} does not project back")),
            Some(q) => {
                let e = (q.x - p[0]).hypot(q.y - p[1]);
                c.check(e <= tol, "roundtrip", || {
                    format!("{k:?}: pixel {p:?} projects back to ({}, {})", q.x, q.y)
                });
            }
        }
        c.outcome(&gb);
        c.sample(|| format!("{k:?} pixel {p:?} -> {gb:?}"));
    });
    // From the bearing side: forwards, sideways and backwards.
    let t = run.pick(vec![-20.0, -1.0, -0.1, 0.0, 1e-9, 0.3, 5.0], vec![-1e4, -20.0, -3.0, -1.0, -0.1, -1e-9, 0.0, 1e-9, 0.01, 0.3, 1.0, 5.0, 300.0]);
    let zs = [1.0, 1e-3, 0.0, -1e-12, -0.5, -3.0];
    run.grid(
        "bearing",
        &[("camera", cs.len()), ("x", t.len()), ("y", t.len()), ("z", zs.len())],
        |ix, c| {
            let k = cs[ix[0]];
            let cam = k.real();
            let v = [t[ix[1]], t[ix[2]], zs[ix[3]]];
            if norm(v) == 0.0 {
                return;
            }
            let b = uv(v);
            let r = cam.uncalibrate(b);
            c.step();
            if v[2] > 0.0 {
                c.class("in-front");
                let n = [v[0] / v[2], v[1] / v[2]];
                let want = k.pixel(n);
                let sc = (k.fx.abs() + k.fy.abs() + k.s.abs()) * (1.0 + n[0].abs() + n[1].abs()) + k.cx.abs() + k.cy.abs();
                match r {
                    None => c.check(false, "front-none", || format!("{k:?}: bearing {v:?} in front does not project")),
                    Some(q) => {
                        c.check((q.x - want[0]).hypot(q.y - want[1]) <= 1e-12 * sc, "project", || {
                            format!("{k:?}: bearing {v:?} projects to ({}, {}), expected {want:?}", q.x, q.y)
                        });
                        let back = au(&cam.calibrate(q));
                        c.step();
                        let tol = 1e-11 * (1.0 + (k.cx.abs() + k.cy.abs()) / k.fx.min(k.fy)) * (1.0 + k.s.abs() / k.fx) * (1.0 + sc / k.fx.min(k.fy));
                        c.check(vdiff(back, unit(v)) <= tol, "roundtrip-bearing", || {
                            format!("{k:?}: bearing {v:?} comes back as {back:?}")
                        });
                        c.outcome(&[q.x, q.y]);
                    }
                }
            } else {
                c.class(if v[2] == 0.0 { "sideways" } else { "behind" });
                let key = if v[2] == 0.0 { "sideways-none" } else { "behind-none" };
                c.check(r.is_none(), key, || {
                    format!("{k:?}: bearing {v:?} is not in front of the camera but projects to {r:?}")
                });
            }
        },
    );
    // Field updates touch only their own field.
    run.grid("builders", &[("camera", cs.len())], |ix, c| {
        let k = cs[ix[0]];
        let r = k.real();
        c.steps(5);
        let same = |a: CameraIntrinsics, b: Cam| {
            a.focals == Vector2::new(b.fx, b.fy) && a.principal_point == Point2::new(b.cx, b.cy) && a.skew == b.s
        };
        let id = Cam { fx: 1.0, fy: 1.0, cx: 0.0, cy: 0.0, s: 0.0 };
        c.check(same(CameraIntrinsics::identity(), id), "identity", || "identity intrinsics".into());
        c.check(same(r, k), "all", || format!("{k:?} became {r:?}"));
        c.check(same(r.focal(7.0), Cam { fx: 7.0, fy: 7.0, ..k }), "focal", || format!("focal on {k:?}"));
        c.check(same(r.focals(Vector2::new(3.0, 4.0)), Cam { fx: 3.0, fy: 4.0, ..k }), "focals", || format!("focals on {k:?}"));
        c.check(same(r.skew(2.0), Cam { s: 2.0, ..k }), "skew", || format!("skew on {k:?}"));
        c.check(same(r.principal_point(Point2::new(8.0, 9.0)), Cam { cx: 8.0, cy: 9.0, ..k }), "principal", || {
            format!("principal_point on {k:?}")
        });
        c.outcome(&[k.fx, k.fy, k.cx, k.cy, k.s]);
    });
}

pub fn p02(run: &Run) {
    let mut cs: Vec<Cam> = vec![];
    for &fx in &[1.0, 800.0, 3100.0] {
        for &fy in &[1.0, 900.0] {
            for &(cx, cy) in &[(0.0, 0.0), (500.0, 600.0)] {
                for &s in &[0.0, 1.7, -0.3 * fx] {
                    cs.push(Cam { fx, fy, cx, cy, s });
                }
            }
        }
    }
    let ks = [
        0.0, -0.164624, 0.164624, -1e-3, 1e-3, 1e-6, -1e-6, 1e-9, -1e-9, 1e-14, -1e-14, 0.5, -0.5, 2.0, -2.0, 1e-300,
    ];
    // normalised (distorted) image coordinates
    let rs = run.pick(
        vec![0.0, 1e-12, 1e-9, 1e-6, 1e-3, 0.05, 0.3, 0.6, 0.9, 1.3, 2.2],
        vec![0.0, 1e-15, 1e-12, 1e-9, 1e-8, 1e-6, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.3, 0.45, 0.6, 0.75, 0.9, 1.1, 1.3, 1.7, 2.2, 5.0, 30.0],
    );
    let na = run.pick(12, 48);
    run.grid(
        "pixel",
        &[("camera", cs.len()), ("k1", ks.len()), ("radius", rs.len()), ("direction", na)],
        |ix, c| {
            let k = cs[ix[0]];
            let k1 = ks[ix[1]];
            let cam = CameraIntrinsicsK1Distortion::new(k.real(), k1);
            let r = rs[ix[2]];
            let a = std::f64::consts::TAU * ix[3] as f64 / na as f64;
            let p = k.pixel([r * a.cos(), r * a.sin()]);
            // what the camera sees after rounding of the pixel position
            let n = k.normalised(p);
            let r2 = n[0] * n[0] + n[1] * n[1];
            let f = 1.0 + k1 * r2;
            if f < 1e-3 {
                c.class("beyond-model");
                return;
            }
            let b = cam.calibrate(KeyPoint(Point2::new(p[0], p[1])));
            c.step();
            let want = unit([n[0] / f, n[1] / f, 1.0]);
            c.check(vdiff(au(&b), want) < 1e-11 / f, "bearing", || {
                format!("{k:?} k1={k1}: pixel {p:?} has bearing {:?}, expected {want:?}", au(&b))
            });
            c.outcome(&want);
            c.sample(|| format!("{k:?} k1={k1} pixel {p:?} -> {want:?}"));
            // beyond the fold several pixels share a bearing; the model can only return the inner one
            let fold = 1.0 - k1 * r2;
            if fold < 0.02 {
                c.class("past-fold");
                return;
            }
            c.class(if k1 == 0.0 {
                "no-distortion"
            } else if r == 0.0 {
                "centre"
            } else if k1 > 0.0 {
                "pincushion"
            } else {
                "barrel"
            });
            let sc = (k.fx.abs() + k.fy.abs() + k.s.abs()) * (1.0 + r) + k.cx.abs() + k.cy.abs();
            let tol = 1e-11 * sc * (1.0 + r2) / (fold.min(1.0) * f.min(1.0));
            match cam.uncalibrate(b) {
                None => c.check(false, "roundtrip-none", || {
                    format!("{k:?} k1={k1}: pixel {p:?} (radius {r}) does not project back")
                }),
                Some(q) => {
                    c.step();
                    let e = (q.x - p[0]).hypot(q.y - p[1]);
                    c.check(e <= tol, "roundtrip", || {
                        format!("{k:?} k1={k1}: pixel {p:?} (radius {r}) projects back to ({}, {})", q.x, q.y)
                    });
                }
            }
        },
    );
    // From the bearing side.
    let us = run.pick(
        vec![0.0, 1e-12, 1e-8, 1e-4, 0.1, 0.4, 0.9, 1.5, 6.0, 100.0],
        vec![0.0, 1e-15, 1e-12, 1e-9, 1e-8, 1e-6, 1e-4, 0.01, 0.1, 0.25, 0.4, 0.7, 0.9, 1.2, 1.5, 3.0, 6.0, 20.0, 100.0, 1e4],
    );
    let zs = [1.0, 0.2, 0.0, -1e-9, -1.0];
    run.grid(
        "bearing",
        &[("camera", cs.len()), ("k1", ks.len()), ("radius", us.len()), ("direction", na), ("z", zs.len())],
        |ix, c| {
            let k = cs[ix[0]];
            let k1 = ks[ix[1]];
            let cam = CameraIntrinsicsK1Distortion::new(k.real(), k1);
            let u = us[ix[2]];
            let a = std::f64::consts::TAU * ix[3] as f64 / na as f64;
            let z: f64 = zs[ix[4]];
            let v = if z == 0.0 {
                [a.cos(), a.sin(), 0.0]
            } else {
                [u * a.cos() * z.abs(), u * a.sin() * z.abs(), z]
            };
            let b = uv(v);
            let got = cam.uncalibrate(b);
            c.step();
            if z <= 0.0 {
                c.class("not-in-front");
                let key = if z == 0.0 { "sideways-none" } else { "behind-none" };
                c.check(got.is_none(), key, || {
                    format!("{k:?} k1={k1}: bearing {v:?} is not in front of the camera but projects to {got:?}")
                });
                return;
            }
            let disc = 1.0 - 4.0 * k1 * u * u;
            if disc < -1e-6 {
                c.class("no-pixel");
                c.check(got.is_none(), "no-preimage", || {
                    format!("{k:?} k1={k1}: no pixel has bearing {v:?}, yet it projects to {got:?}")
                });
                return;
            }
            if disc < 1e-4 {
                c.class("at-fold");
                if let Some(q) = got {
                    c.check(q.x.is_finite() && q.y.is_finite(), "fold-finite", || {
                        format!("{k:?} k1={k1}: bearing {v:?} projects to {q:?}")
                    });
                }
                return;
            }
            c.class("pixel");
            let g = 2.0 / (1.0 + disc.sqrt());
            let want = k.pixel([u * a.cos() * g, u * a.sin() * g]);
            let sc = (k.fx.abs() + k.fy.abs() + k.s.abs()) * (1.0 + u * g) + k.cx.abs() + k.cy.abs();
            match got {
                None => c.check(false, "front-none", || format!("{k:?} k1={k1}: bearing {v:?} does not project")),
                Some(q) => {
                    let e = (q.x - want[0]).hypot(q.y - want[1]);
                    c.check(e <= 1e-10 * sc / disc, "project", || {
                        format!("{k:?} k1={k1}: bearing {v:?} projects to ({}, {}), expected {want:?}", q.x, q.y)
                    });
                    let back = au(&cam.calibrate(q));
                    c.step();
                    let f = 1.0 - 0.5 * (1.0 - disc.sqrt()).abs();
                    let _ = f;
                    let amp = (1.0 + sc / k.fx.min(k.fy)) * (1.0 + k.s.abs() / k.fx) / disc.min(1.0) * (1.0 + u);
                    c.check(vdiff(back, unit(v)) <= 1e-11 * amp, "roundtrip-bearing", || {
                        format!("{k:?} k1={k1}: bearing {v:?} comes back as {back:?}")
                    });
                    c.outcome(&[q.x, q.y]);
                }
            }
        },
    );
    // Without distortion the model is the plain pinhole model.
    let all = cams(run);
    run.grid("no-distortion", &[("camera", all.len()), ("x", us.len()), ("y", us.len()), ("signs", 4)], |ix, c| {
        let k = all[ix[0]];
        let plain = k.real();
        let cam = CameraIntrinsicsK1Distortion::new(plain, 0.0);
        let sx = if ix[3] & 1 == 0 { 1.0 } else { -1.0 };
        let sy = if ix[3] & 2 == 0 { 1.0 } else { -1.0 };
        let b = uv([sx * us[ix[1]], sy * us[ix[2]], 1.0]);
        let (p, q) = (plain.uncalibrate(b), cam.uncalibrate(b));
        c.steps(2);
        let ok = match (p, q) {
            (Some(p), Some(q)) => (p.x - q.x).hypot(p.y - q.y) <= 1e-12 * (1.0 + p.x.abs() + p.y.abs()),
            (None, None) => true,
            _ => false,
        };
        c.check(ok, "same-pixel", || format!("{k:?}: plain {p:?}, zero distortion {q:?}"));
        if let Some(p) = p {
            let (d, e) = (au(&plain.calibrate(p)), au(&cam.calibrate(p)));
            c.steps(2);
            c.check(vdiff(d, e) <= 1e-13, "same-bearing", || format!("{k:?}: plain {d:?}, zero distortion {e:?}"));
            c.outcome(&d);
        }
    });
}

pub fn p03(run: &Run) {
    let w = [1usize, 2, 3, 5, 640, 641, 1920, 5184];
    let h = [1usize, 2, 4, 7, 480, 1080, 3456];
    let s = [0.0223, 0.0149, 1.0, 5e-6 * 640.0];
    let fs = run.pick(vec![1.0, 0.035, 983.0], vec![1.0, 0.035, 0.5, 12.0, 983.0, 1e5]);
    run.grid(
        "specification",
        &[("width", w.len()), ("height", h.len()), ("sensor-w", s.len()), ("sensor-h", s.len()), ("focal", fs.len())],
        |ix, c| {
            let (pw, ph) = (w[ix[0]], h[ix[1]]);
            let (sw, sh) = (s[ix[2]], s[ix[3]]);
            let f = fs[ix[4]];
            let rect = CameraSpecification::from_sensor(Vector2::new(pw, ph), Vector2::new(sw, sh));
            let sq = CameraSpecification::from_sensor_square(Vector2::new(pw, ph), sw);
            c.steps(2);
            let close = |a: f64, b: f64| (a - b).abs() <= 1e-13 * b.abs();
            c.check(
                rect.pixels == Vector2::new(pw, ph)
                    && close(rect.pixel_dimensions.x * pw as f64, sw)
                    && close(rect.pixel_dimensions.y * ph as f64, sh),
                "pixel-size",
                || format!("{pw}x{ph} on {sw}x{sh}: {rect:?}"),
            );
            c.check(
                sq.pixels == Vector2::new(pw, ph)
                    && close(sq.pixel_dimensions.x * pw as f64, sw)
                    && sq.pixel_dimensions.x == sq.pixel_dimensions.y,
                "square-pixel",
                || format!("{pw}x{ph} on width {sw}: {sq:?}"),
            );
            for spec in [rect, sq] {
                let k = spec.intrinsics_centered(f);
                c.step();
                c.check(k.focals == Vector2::new(f, f) && k.skew == 0.0, "focal", || format!("{spec:?} focal {f}: {k:?}"));
                // The grid of pixel centres 0..n-1 is symmetric around the principal point.
                let (cx, cy) = ((pw as f64 - 1.0) * 0.5, (ph as f64 - 1.0) * 0.5);
                c.check(
                    (k.principal_point.x - cx).abs() < 1e-9 && (k.principal_point.y - cy).abs() < 1e-9,
                    "centred",
                    || format!("{pw}x{ph} pixels: principal point {:?}, expected ({cx}, {cy})", k.principal_point),
                );
                let a = au(&k.calibrate(KeyPoint(Point2::new(0.0, 0.0))));
                let b = au(&k.calibrate(KeyPoint(Point2::new(pw as f64 - 1.0, ph as f64 - 1.0))));
                c.steps(2);
                c.check(
                    (a[0] + b[0]).abs() < 1e-9 && (a[1] + b[1]).abs() < 1e-9 && (a[2] - b[2]).abs() < 1e-9,
                    "symmetric-corners",
                    || format!("{pw}x{ph} pixels: opposite corners have bearings {a:?} and {b:?}"),
                );
                c.outcome(&[k.principal_point.x, k.principal_point.y, f]);
            }
            c.sample(|| format!("{pw}x{ph} on {sw}x{sh} focal {f}"));
        },
    );
}

struct Fixed(Option<CameraPoint>);
impl TriangulatorRelative for Fixed {
    fn triangulate_relative(&self, _: CameraToCamera, _: UnitVector3<f64>, _: UnitVector3<f64>) -> Option<CameraPoint> {
        self.0
    }
}

pub fn p04(run: &Run) {
    let poses = super::core_models::small_poses(run);
    // A stand-in triangulator answers with every point of a lattice (or refuses), so the expected error is known.
    let xs = run.pick(vec![-1.5, 0.0, 0.7], vec![-4.0, -1.5, -0.2, 0.0, 0.7, 3.0]);
    let zs = [-2.0, -0.3, 0.4, 1.0, 6.0];
    let mut pts: Vec<Option<[f64; 4]>> = vec![None];
    for &x in &xs {
        for &y in &xs {
            for &z in &zs {
                pts.push(Some([x, y, z, 1.0]));
                pts.push(Some([x, y, z, 0.0]));
            }
        }
    }
    let bs: Vec<V3> = vec![
        [0.0, 0.0, 1.0],
        [0.3, -0.2, 1.0],
        [-1.4, 0.6, 1.0],
        [2.0, 3.0, 0.5],
    ];
    run.grid(
        "definition",
        &[("pose", poses.len()), ("triangulated", pts.len()), ("a", bs.len()), ("b", bs.len())],
        |ix, c| {
            let g = poses[ix[0]];
            let (a, b) = (bs[ix[2]], bs[ix[3]]);
            let pose = CameraToCamera(niso(&g));
            let m = FeatureMatch(uv(a), uv(b));
            let tri = pts[ix[1]].map(|v| CameraPoint::from_homogeneous(h4(v)));
            let got = pose_reprojection_error(pose, m, Fixed(tri));
            let avg = average_pose_reprojection_error(pose, m, Fixed(tri));
            c.steps(2);
            let want = pts[ix[1]].and_then(|v| {
                let q = add(g.rotate([v[0], v[1], v[2]]), mul(g.t, v[3]));
                if v[2] <= 0.0 || q[2] <= 0.0 {
                    return None;
                }
                Some((
                    [a[0] / a[2] - v[0] / v[2], a[1] / a[2] - v[1] / v[2]],
                    [b[0] / b[2] - q[0] / q[2], b[1] / b[2] - q[1] / q[2]],
                    q,
                ))
            });
            if let Some(v) = pts[ix[1]] {
                let q = add(g.rotate([v[0], v[1], v[2]]), mul(g.t, v[3]));
                if q[2].abs() < 1e-9 * norm(q).max(1e-3) {
                    c.class("on-the-image-plane");
                    return;
                }
            }
            match (got, want) {
                (None, None) => c.class(if pts[ix[1]].is_none() { "refused" } else { "behind" }),
                (Some(e), Some((ea, eb, q))) => {
                    c.class("error");
                    let tol = 1e-9 * (1.0 + norm(q) / q[2]).powi(2);
                    c.check(
                        (e[0].x - ea[0]).hypot(e[0].y - ea[1]) < tol && (e[1].x - eb[0]).hypot(e[1].y - eb[1]) < tol,
                        "components",
                        || format!("{g:?}, a={a:?}, b={b:?}, point {:?}: {e:?}, expected {ea:?} {eb:?}", pts[ix[1]]),
                    );
                    let mean = 0.5 * (ea[0].hypot(ea[1]) + eb[0].hypot(eb[1]));
                    c.check(avg.map(|x| (x - mean).abs() < tol).unwrap_or(false), "average", || {
                        format!("{g:?}, a={a:?}, b={b:?}: average {avg:?}, expected {mean}")
                    });
                    c.outcome(&[ea[0], ea[1], eb[0], eb[1]]);
                }
                _ => c.check(false, "availability", || {
                    format!("{g:?}, a={a:?}, b={b:?}, point {:?}: got {got:?}, expected {want:?}", pts[ix[1]])
                }),
            }
            c.check(avg.is_some() == got.is_some(), "average-availability", || format!("{got:?} but average {avg:?}"));
            c.sample(|| format!("{g:?} a={a:?} b={b:?} point {:?} -> {got:?}", pts[ix[1]]));
        },
    );
}
