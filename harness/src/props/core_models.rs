//! C07 residual of an absolute pose, C08 residual of a relative pose.
use crate::engine::*;
use crate::na::*;
use crate::refm::*;
use cv_core::sample_consensus::Model;
use cv_core::*;

pub fn small_poses(run: &Run) -> Vec<Rigid> {
    let pi = std::f64::consts::PI;
    let mut out = vec![];
    let axes: Vec<V3> = run.pick(
        vec![
            [1., 0., 0.],
            [0., 1., 0.],
            [0., 0., 1.],
            [0.3, -0.5, 0.81],
            [-1., 1., 0.],
        ],
        {
            let mut v = dirs26();
            v.extend(dirs_generic());
            v
        },
    );
    let angs: Vec<f64> = run.pick(
        vec![0.0, 0.05, 0.6, 2.0, pi],
        vec![0.0, 1e-6, 0.05, 0.6, 1.5, 2.0, 3.0, pi],
    );
    let ts: Vec<V3> = vec![
        [1.0, 0.0, 0.0],
        [0.0, -0.5, 0.0],
        [0.0, 0.0, 0.8],
        [-0.3, 0.4, 0.2],
        [0.0, 0.0, -2.0],
        [10.0, -4.0, 3.0],
        [0.01, 0.02, -0.01],
    ];
    for a in &axes {
        for &th in &angs {
            for &t in &ts {
                out.push(Rigid { r: rot(*a, th), t });
            }
        }
    }
    out
}

pub fn c07(run: &Run) {
    let poses = small_poses(run);
    let pts: Vec<[f64; 4]> = vec![
        [0.3, 0.1, 2.0, 1.0],
        [-1.0, 2.0, -4.0, 1.0],
        [100.0, -50.0, 700.0, 1.0],
        [1e-3, 0.0, 2e-3, 1.0],
        [0.2, -0.4, 0.7, 0.0],
        [0.0, 0.0, -1.0, 0.0],
        [1.0, 1.0, 0.0, 1.0],
        [3e7, 1e7, -2e7, 1.0],
    ];
    let errs = [
        0.0,
        1e-7,
        1e-4,
        1e-2,
        0.3,
        1.0,
        1.5,
        2.0,
        3.0,
        std::f64::consts::PI,
    ];
    run.grid(
        "angular",
        &[
            ("pose", poses.len()),
            ("point", pts.len()),
            ("error", errs.len()),
            ("about", 8),
        ],
        |ix, c| {
            let g = poses[ix[0]];
            let h = pts[ix[1]];
            let n = norm([h[0], h[1], h[2]]);
            let q = add(g.rotate([h[0] / n, h[1] / n, h[2] / n]), mul(g.t, h[3] / n));
            if norm(q) < 1e-9 {
                return;
            }
            let pred = unit(q);
            // deviate from the predicted direction by a known angle around one of eight perpendiculars
            let a = if pred[0].abs() < 0.6 {
                [1., 0., 0.]
            } else {
                [0., 1., 0.]
            };
            let u = unit(cross(pred, a));
            let w = cross(pred, u);
            let phi = ix[3] as f64 * std::f64::consts::PI / 4.0;
            let axis = add(mul(u, phi.cos()), mul(w, phi.sin()));
            let e: f64 = errs[ix[2]];
            let b = mv(&exp_so3(mul(axis, e)), pred);
            let m = FeatureWorldMatch(uv(b), WorldPoint::from_homogeneous(h4(h)));
            let r = WorldToCamera(niso(&g)).residual(&m);
            c.step();
            let want = 2.0 * (e * 0.5).sin().powi(2);
            c.check(
                (r - want).abs() < 1e-14 + 1e-13 * (1.0 + norm(g.t) * h[3] / n) / norm(q) * e.sin().abs(),
                "residual",
                || format!("{g:?}, point {h:?}, angular error {e}: residual {r}, expected {want}"),
            );
            c.check((-1e-12..=2.0 + 1e-12).contains(&r), "range", || {
                format!("residual {r} outside [0, 2]")
            });
            c.class(if e < 0.5 {
                "small"
            } else if e < 1.58 {
                "medium"
            } else {
                "behind"
            });
            c.outcome(&[r]);
            c.sample(|| format!("pose {g:?} point {h:?} error {e} -> {r}"));
        },
    );
}

/// The residual of the point that agrees best with both bearings, and how well that point is determined.
fn best_residual(g: &Rigid, a: V3, b: V3) -> Option<(f64, f64)> {
    let mut m = [[0.0; 4]; 4];
    for (g, d) in [(&Rigid::ID, a), (g, b)] {
        // What is left of a unit homogeneous point in the camera after removing its part along the bearing.
        let cols: Vec<V3> = (0..4)
            .map(|k| {
                let v = if k < 3 { [g.r[0][k], g.r[1][k], g.r[2][k]] } else { g.t };
                sub(v, mul(d, dot(d, v)))
            })
            .collect();
        for i in 0..4 {
            for j in 0..4 {
                m[i][j] += dot(cols[i], cols[j]);
            }
        }
    }
    let (vals, vecs) = jacobi(&m);
    let gap = (vals[1] - vals[0]) / vals[3];
    let h = vecs[0];
    let s = if h[3] < 0.0 { -1.0 } else { 1.0 };
    let x = [s * h[0], s * h[1], s * h[2]];
    let y = add(g.rotate(x), mul(g.t, h[3] * s));
    let edge = norm(x).min(norm(y)).min(h[3].abs());
    if edge < 1e-6 {
        return None; // The side or the direction of the point is decided by rounding.
    }
    Some((0.5 * (2.0 - dot(a, unit(x)) - dot(b, unit(y))), gap * edge))
}

pub fn c08(run: &Run) {
    let poses = small_poses(run);
    let mut pts = vec![];
    let xs = run.pick(vec![-1.3, 0.2, 0.9], vec![-3.0, -1.3, -0.4, 0.2, 0.9, 2.5]);
    let zs = run.pick(
        vec![-3.0, 0.7, 2.0, 9.0],
        vec![-8.0, -3.0, -0.9, 0.4, 0.7, 2.0, 5.0, 9.0],
    );
    for &x in &xs {
        for &y in &xs {
            for &z in &zs {
                pts.push([x, y, z]);
            }
        }
    }
    // Exact correspondences in all four sign patterns: both forward, one reversed, both reversed.
    run.grid(
        "consistent",
        &[("pose", poses.len()), ("point", pts.len()), ("signs", 4)],
        |ix, c| {
            let g = poses[ix[0]];
            let p = pts[ix[1]];
            let q = g.act(p);
            let ctr = g.centre();
            let par = angle(p, sub(p, ctr));
            // unobservable or ill-conditioned: no parallax, or a camera sitting on the point
            if par < 0.02 || par > std::f64::consts::PI - 0.02 || norm(q) < 0.05 || norm(p) < 0.05 {
                c.class("no-parallax");
                return;
            }
            let sa = if ix[2] & 1 == 0 { 1.0 } else { -1.0 };
            let sb = if ix[2] & 2 == 0 { 1.0 } else { -1.0 };
            let m = FeatureMatch(uv(mul(p, sa)), uv(mul(q, sb)));
            let r = CameraToCamera(niso(&g)).residual(&m);
            c.step();
            let want = (1.0 - sa) * 0.5 + (1.0 - sb) * 0.5;
            c.check((r - want).abs() < 1e-12, "exact", || {
                format!("{g:?}, point {p:?}, signs ({sa},{sb}): residual {r}, expected {want}")
            });
            c.class(["front", "a-behind", "b-behind", "both-behind"][ix[2]]);
            c.outcome(&[r]);
            c.sample(|| format!("pose {g:?} point {p:?} signs {sa},{sb} -> {r}"));
        },
    );
    // Deviations out of the epipolar plane: the residual is second order in the angle, strictly positive,
    // bounded, and the same seen from either camera.
    let errs = [1e-6, 1e-4, 1e-3, 1e-2, 0.1, 0.5];
    run.grid(
        "deviating",
        &[
            ("pose", poses.len()),
            ("point", pts.len()),
            ("error", errs.len()),
            ("who", 3),
        ],
        |ix, c| {
            let g = poses[ix[0]];
            let p = pts[ix[1]];
            let q = g.act(p);
            let ctr = g.centre();
            let par = angle(p, sub(p, ctr));
            if par < 0.1 || par > std::f64::consts::PI - 0.1 || norm(q) < 0.05 {
                return;
            }
            let e: f64 = errs[ix[2]];
            // rotate the bearing out of the epipolar plane
            let nrm = unit(cross(p, ctr));
            let off = |b: V3, n: V3, s: f64| unit(add(mul(unit(b), e.cos()), mul(n, s * e.sin())));
            let mut a = unit(p);
            let mut b = unit(q);
            if ix[3] != 1 {
                a = off(p, nrm, 1.0);
            }
            if ix[3] != 0 {
                b = off(q, g.rotate(nrm), -1.0);
            }
            let m = FeatureMatch(uv(a), uv(b));
            let pose = CameraToCamera(niso(&g));
            let r = pose.residual(&m);
            c.step();
            if let Some((want, det)) = best_residual(&g, a, b).filter(|x| x.1 > 1e-7) {
                c.check((r - want).abs() <= 1e-10 / det, "best", || {
                    format!("{g:?} {a:?} {b:?}: residual {r}, the best point has {want} (determined {det:e})")
                });
                c.class("determined");
            }
            c.check((-1e-12..=2.0 + 1e-12).contains(&r), "range", || {
                format!("{g:?} {p:?}: residual {r}")
            });
            if e <= 1e-2 && e > 1e-6 {
                let tot = e * e * if ix[3] == 2 { 2.0 } else { 1.0 };
                // the triangulated point shares the deviation between the cameras: never worse than leaving all
                // of it on one of them by more than the conditioning, never better than halving it
                c.check(
                    r < 30.0 * tot * (1.0 + norm(g.t) / norm(p).min(norm(q))).powi(2) / (par.sin() * par.sin()),
                    "second-order",
                    || format!("{g:?} {p:?} error {e} on {}: residual {r:e}", ix[3]),
                );
                c.check(r > 1e-3 * tot * par.sin().powi(2) / (1.0 + norm(g.t) / norm(p).min(norm(q))).powi(2), "detects", || {
                    format!("{g:?} {p:?} error {e} on {}: residual only {r:e}", ix[3])
                });
                c.class("noisy");
            }
            c.outcome(&[r]);
        },
    );
    // Scenes in other units of length.
    let units = [1e-3, 0.03, 30.0, 1e3];
    run.grid("units", &[("pose", poses.len()), ("point", pts.len()), ("unit", units.len()), ("error", 3), ("signs", 4)], |ix, c| {
        let k = units[ix[2]];
        let g = Rigid { t: mul(poses[ix[0]].t, k), ..poses[ix[0]] };
        let p = mul(pts[ix[1]], k);
        let q = g.act(p);
        let ctr = g.centre();
        let par = angle(p, sub(p, ctr));
        if par < 0.1 || par > std::f64::consts::PI - 0.1 || norm(q) < 0.05 * k {
            return;
        }
        let e: f64 = [0.0, 1e-3, 0.1][ix[3]];
        let nrm = unit(cross(p, ctr));
        let off = |b: V3, n: V3, s: f64| unit(add(mul(unit(b), e.cos()), mul(n, s * e.sin())));
        let sa = if ix[4] & 1 == 0 { 1.0 } else { -1.0 };
        let sb = if ix[4] & 2 == 0 { 1.0 } else { -1.0 };
        let (a, b) = (mul(off(p, nrm, 1.0), sa), mul(unit(q), sb));
        let r = CameraToCamera(niso(&g)).residual(&FeatureMatch(uv(a), uv(b)));
        c.step();
        if e == 0.0 {
            let want = (1.0 - sa) * 0.5 + (1.0 - sb) * 0.5;
            c.check((r - want).abs() < 1e-9, "exact", || format!("{g:?}, point {p:?}, signs ({sa},{sb}): residual {r}, expected {want}"));
            c.class("consistent");
        } else if let Some((want, det)) = best_residual(&g, a, b).filter(|x| x.1 > 1e-7) {
            c.check((r - want).abs() <= 1e-10 / det, "best", || {
                format!("{g:?} {a:?} {b:?}: residual {r}, the best point has {want} (determined {det:e})")
            });
            c.class("determined");
        }
        c.outcome(&[r]);
    });
    // No input may produce an undefined residual.
    let d = {
        let mut v = dirs26();
        v.extend(dirs_generic());
        v
    };
    let degenerate: Vec<Rigid> = {
        let mut v = vec![Rigid::ID];
        for dd in &d {
            v.push(Rigid { r: I3, t: *dd });
            v.push(Rigid {
                r: rot(*dd, 2.0),
                t: [0.0; 3],
            });
            v.push(Rigid {
                r: rot(*dd, 0.7),
                t: *dd,
            });
        }
        v
    };
    run.grid(
        "degenerate",
        &[("pose", degenerate.len()), ("a", d.len()), ("b", d.len())],
        |ix, c| {
            let g = degenerate[ix[0]];
            let r = CameraToCamera(niso(&g)).residual(&FeatureMatch(uv(d[ix[1]]), uv(d[ix[2]])));
            c.step();
            c.check(r >= -1e-9 && r <= 2.0 + 1e-9, "range", || {
                format!(
                    "{g:?}, bearings {:?} {:?}: residual {r}",
                    d[ix[1]], d[ix[2]]
                )
            });
            let (a, b) = (unit(d[ix[1]]), unit(d[ix[2]]));
            if let Some((want, det)) = best_residual(&g, a, b).filter(|x| x.1 > 1e-7) {
                c.check((r - want).abs() <= 1e-10 / det, "best", || {
                    format!("{g:?} {a:?} {b:?}: residual {r}, the best point has {want} (determined {det:e})")
                });
                c.class("determined");
            }
            c.outcome(&[r]);
        },
    );
}
