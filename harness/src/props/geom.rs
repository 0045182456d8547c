//! G01 exact two-view triangulation, G02 chirality, G03 n-view triangulation, G04 optimality, G05 epipolar gradients.
use super::core_models::small_poses;
use crate::engine::*;
use crate::na::*;
use crate::refm::*;
use super::tri::{dist4, expected, seen, unit4};
use cv_core::nalgebra::UnitVector3;
use cv_core::*;
use cv_geom::epipolar;
use cv_geom::triangulation::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tri {
    Linear,
    Sine,
    Dlt,
    Mean,
    L1,
    Linf,
}
pub const TWO: [Tri; 6] = [Tri::Linear, Tri::Sine, Tri::Dlt, Tri::Mean, Tri::L1, Tri::Linf];
pub const MANY: [Tri; 3] = [Tri::Linear, Tri::Sine, Tri::Mean];

impl Tri {
    pub fn two(self, g: &Rigid, a: UnitVector3<f64>, b: UnitVector3<f64>) -> Option<[f64; 4]> {
        let p = CameraToCamera(niso(g));
        match self {
            Tri::Linear => LinearEigenTriangulator::new().triangulate_relative(p, a, b),
            Tri::Sine => SineL1Triangulator::new().triangulate_relative(p, a, b),
            Tri::Dlt => RelativeDltTriangulator::new().triangulate_relative(p, a, b),
            Tri::Mean => MeanMeanTriangulator.triangulate_relative(p, a, b),
            Tri::L1 => AngularL1Triangulator.triangulate_relative(p, a, b),
            Tri::Linf => AngularLInfinityTriangulator.triangulate_relative(p, a, b),
        }
        .map(|p| a4(p.homogeneous()))
    }
    pub fn many(self, obs: &[(Rigid, V3)]) -> Option<[f64; 4]> {
        let it = obs.iter().map(|(g, b)| (WorldToCamera(niso(g)), uv(*b)));
        match self {
            Tri::Linear => LinearEigenTriangulator::new().triangulate_observations(it),
            Tri::Sine => SineL1Triangulator::new().triangulate_observations(it),
            Tri::Mean => MeanMeanTriangulator.triangulate_observations(it),
            _ => unreachable!(),
        }
        .map(|p| a4(p.homogeneous()))
    }
    /// The first observation is that of the camera in whose frame the point is sought.
    pub fn camera(self, obs: &[(Rigid, V3)]) -> Option<[f64; 4]> {
        let it = obs[1..].iter().map(|(g, b)| (CameraToCamera(niso(g)), uv(*b)));
        let b = uv(obs[0].1);
        match self {
            Tri::Linear => LinearEigenTriangulator::new().triangulate_observations_to_camera(b, it),
            Tri::Sine => SineL1Triangulator::new().triangulate_observations_to_camera(b, it),
            Tri::Mean => MeanMeanTriangulator.triangulate_observations_to_camera(b, it),
            _ => unreachable!(),
        }
        .map(|p| a4(p.homogeneous()))
    }
}

/// Judges an outcome of triangulation against the point the method is defined to return.
fn judge(c: &mut Case, m: Tri, obs: &[(Rigid, V3)], r: Option<[f64; 4]>, what: impl Fn() -> String) {
    let Some(e) = expected(m, obs) else {
        c.class("undetermined");
        return;
    };
    match (r, e.front) {
        (Some(h), _) => {
            let d = dist4(h, e.h);
            c.class("point");
            c.check(d <= e.tol, "reference", || format!("{m:?} {}: {:?}, the defining point is {:?} (off by {d:e}, allowed {:e})", what(), unit4(h), e.h, e.tol));
            c.check(e.front != Some(false), "behind", || format!("{m:?} {}: {h:?} lies behind a camera", what()));
        }
        (None, Some(true)) => c.check(false, "refused", || format!("{m:?} {}: refused, the point is {:?} (allowed error {:e})", what(), e.h, e.tol)),
        (None, _) => c.class("refused"),
    }
}

fn euclid(h: [f64; 4]) -> V3 {
    [h[0] / h[3], h[1] / h[3], h[2] / h[3]]
}

pub fn points(run: &Run) -> Vec<V3> {
    let xs = run.pick(vec![-1.3, 0.2, 0.9], vec![-3.0, -1.3, -0.4, 0.2, 0.9, 2.5]);
    let zs = run.pick(vec![-3.0, 0.7, 2.0, 9.0], vec![-8.0, -3.0, -0.9, 0.4, 0.7, 2.0, 5.0, 9.0, 40.0]);
    let mut v = vec![];
    for &x in &xs {
        for &y in &xs {
            for &z in &zs {
                v.push([x, y, z]);
            }
        }
    }
    v.push([0.0, 0.0, 4.0]);
    v.push([0.0, 0.0, -4.0]);
    v.push([2.0, 0.0, 0.0]);
    v
}

pub fn g01(run: &Run) {
    let poses = small_poses(run);
    let pts = points(run);
    run.grid(
        "exact",
        &[("method", TWO.len()), ("pose", poses.len()), ("point", pts.len())],
        |ix, c| {
            let m = TWO[ix[0]];
            let g = poses[ix[1]];
            let p = pts[ix[2]];
            let q = g.act(p);
            let ctr = g.centre();
            let par = angle(p, sub(p, ctr));
            if par < 0.01 || par > std::f64::consts::PI - 0.01 || norm(q) < 0.05 * norm(ctr).max(1.0) {
                c.class("no-parallax");
                return;
            }
            if m == Tri::Dlt && (unit(p)[2].abs() < 0.05 || unit(q)[2].abs() < 0.05) {
                // not an image point of a pinhole camera, which this method's equations describe
                c.class("off-image");
                return;
            }
            let scale = norm(p).max(norm(q)).max(norm(ctr));
            let r = m.two(&g, uv(p), uv(q));
            c.step();
            c.class(if par > 1.58 {
                "wide-parallax"
            } else if p[2] < 0.0 || q[2] < 0.0 {
                "backward-looking"
            } else {
                "ordinary"
            });
            match r {
                None => {
                    // the mean-of-means method does not recover points between widely separated bearings
                    if m != Tri::Mean || par < 0.3 {
                        c.check(false, "refused", || format!("{m:?} {g:?}: point {p:?} (parallax {par:.3}) is not triangulated"))
                    }
                }
                Some(h) => {
                    let e = vdiff(euclid(h), p) / scale;
                    c.check(
                        h.iter().all(|x| x.is_finite()) && h[3] > 0.0 && (norm([h[0], h[1], h[2]]) - 1.0).abs() < 1e-9,
                        "normalised",
                        || format!("{m:?} {g:?}: point {p:?} triangulated as {h:?}"),
                    );
                    let cond = scale / norm(p).min(norm(q)).min(norm(ctr)).max(1e-3);
                    let tol = match m {
                        Tri::Sine => 5e-9 * cond * cond / (par.sin() * par.sin()),
                        Tri::Mean => f64::INFINITY,
                        Tri::Linear | Tri::Dlt => 2e-9 * cond * cond / (par.sin() * par.sin()),
                        _ => 1e-12 * cond * cond / (par.sin() * par.sin()),
                    };
                    c.check(e <= tol, "recovered", || {
                        format!("{m:?} {g:?}: point {p:?} (parallax {par:.3}) triangulated as {:?} (relative error {e:e}, allowed {tol:e})", euclid(h))
                    });
                    c.outcome(&[ix[0] as f64, h[0], h[1], h[2], h[3]]);
                }
            }
            c.sample(|| format!("{m:?} {g:?} point {p:?} -> {r:?}"));
        },
    );
    // The same scene in another unit of length is the same scene.
    let scales = [0.2, 8.0, 1e-3, 1e3];
    run.grid(
        "unit-of-length",
        &[("method", TWO.len()), ("pose", poses.len()), ("point", pts.len()), ("scale", scales.len())],
        |ix, c| {
            let m = TWO[ix[0]];
            let g = poses[ix[1]];
            let p = pts[ix[2]];
            let k = scales[ix[3]];
            let q = g.act(p);
            let ctr = g.centre();
            let par = angle(p, sub(p, ctr));
            if par < 0.05 || par > 3.0 || norm(q) < 0.05 * norm(ctr).max(1.0) {
                return;
            }
            let lin = matches!(m, Tri::Linear | Tri::Sine | Tri::Dlt);
            // The linear methods minimise an algebraic error whose conditioning follows the unit of length.
            if lin && !(0.1..=10.0).contains(&k) || m == Tri::Dlt && (unit(p)[2].abs() < 0.05 || unit(q)[2].abs() < 0.05) {
                return;
            }
            let gs = Rigid { r: g.r, t: mul(g.t, k) };
            let r = m.two(&g, uv(p), uv(q));
            let rs = m.two(&gs, uv(p), uv(q));
            c.steps(2);
            let scale = norm(p).max(norm(q)).max(norm(ctr));
            let cond = scale / norm(p).min(norm(q)).min(norm(ctr)).max(1e-3);
            match (r, rs) {
                (Some(h), Some(hs)) => {
                    let e = vdiff(mul(euclid(hs), 1.0 / k), euclid(h)) / scale;
                    let tol = if lin { 1e-9 * k.max(1.0 / k).powi(2) } else { 1e-11 } * cond * cond / par.sin().powi(2);
                    c.check(e <= tol, "scaled", || {
                        format!("{m:?} {g:?} point {p:?}: {:?}, at {k} times the size {:?}", euclid(h), euclid(hs))
                    });
                    c.class("both");
                }
                (None, None) => c.class("neither"),
                _ => c.check(m == Tri::Mean && par > 0.3, "scaled-availability", || {
                    format!("{m:?} {g:?} point {p:?}: {r:?}, at {k} times the size {rs:?}")
                }),
            }
        },
    );
}

pub fn g02(run: &Run) {
    let pi = std::f64::consts::PI;
    let mut poses = small_poses(run);
    for &t in &[[1.0, 0.0, 0.0], [0.0, 0.0, 1.0], [0.3, -0.5, 0.8]] {
        for &ax in &[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]] {
            poses.push(Rigid { r: half_turn(ax), t });
            poses.push(Rigid { r: rot(ax, pi / 2.0), t });
        }
    }
    poses.push(Rigid::ID);
    poses.push(Rigid { r: rot([0., 1., 0.], 1.0), t: [0.0; 3] });
    let mut bs = dirs26();
    bs.extend(dirs_generic());
    if run.thorough() {
        for d in dirs_generic() {
            for k in 0..6 {
                bs.push(mv(&rot([0.2, 0.7, -0.4], 0.9 * k as f64 + 0.4), d));
            }
        }
    }
    // Any pair of bearings whatsoever: the answer is refused or lies in front of both cameras.
    run.grid(
        "any-bearings",
        &[("method", TWO.len()), ("pose", poses.len()), ("a", bs.len()), ("b", bs.len())],
        |ix, c| {
            let m = TWO[ix[0]];
            let g = poses[ix[1]];
            let (a, b) = (unit(bs[ix[2]]), unit(bs[ix[3]]));
            let r = m.two(&g, uv(a), uv(b));
            c.step();
            match r {
                None => c.class("refused"),
                Some(h) => {
                    c.class("point");
                    c.check(h.iter().all(|x| x.is_finite()), "finite", || format!("{m:?} {g:?} bearings {a:?} {b:?}: {h:?}"));
                    let da = dot(seen(&Rigid::ID, h), a);
                    let sb = seen(&g, h);
                    let db = dot(sb, b);
                    c.check(da > -1e-9 && db > -1e-9 * norm(sb), "in-front", || {
                        format!("{m:?} {g:?} bearings {a:?} {b:?}: triangulated {h:?}, which lies behind (dot {da:.3e} and {db:.3e})")
                    });
                    c.outcome(&[ix[0] as f64, h[0], h[1], h[2], h[3]]);
                }
            }
            c.sample(|| format!("{m:?} {g:?} bearings {a:?} {b:?} -> {r:?}"));
        },
    );
    // Exactly intersecting lines with one or both bearings reversed have no point in front of both cameras.
    let pts = points(run);
    run.grid(
        "reversed",
        &[("method", TWO.len()), ("pose", poses.len()), ("point", pts.len()), ("signs", 3)],
        |ix, c| {
            let m = TWO[ix[0]];
            let g = poses[ix[1]];
            let p = pts[ix[2]];
            let q = g.act(p);
            let ctr = g.centre();
            let par = angle(p, sub(p, ctr));
            if par < 0.02 || par > pi - 0.02 || norm(q) < 0.05 * norm(ctr).max(1.0) || m == Tri::Mean {
                return;
            }
            if m == Tri::Dlt && (unit(p)[2].abs() < 0.05 || unit(q)[2].abs() < 0.05) {
                return;
            }
            let (sa, sb) = [(-1.0, 1.0), (1.0, -1.0), (-1.0, -1.0)][ix[3]];
            let r = m.two(&g, uv(mul(p, sa)), uv(mul(q, sb)));
            c.step();
            c.class(["a-behind", "b-behind", "both-behind"][ix[3]]);
            c.check(r.is_none(), "behind-accepted", || {
                format!("{m:?} {g:?}: bearings towards {p:?} with signs ({sa}, {sb}) only meet behind a camera, yet {r:?}")
            });
            c.outcome(&[ix[3] as f64, p[0], p[1], p[2], ix[1] as f64]);
        },
    );
}

fn rigs(run: &Run) -> Vec<Vec<Rigid>> {
    // Sets of seven cameras around a scene, as world-to-camera transforms.
    let centres: Vec<Vec<V3>> = vec![
        vec![[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [-1.0, 0.2, 0.3], [0.5, -1.0, -0.4], [0.2, 0.4, -0.8], [-0.6, -0.7, 0.1]],
        vec![[2.0, 0.3, -1.0], [1.0, -0.5, -1.5], [-0.7, 0.4, -1.0], [-2.0, 1.0, -0.5], [0.0, 2.0, -2.0], [1.1, 1.2, -0.8], [-1.0, -1.3, -1.8]],
        vec![[10.0, 3.0, -20.0], [12.0, -3.0, -22.0], [7.0, 4.0, -18.0], [9.0, 9.0, -25.0], [14.0, 1.0, -17.0], [11.0, -7.0, -19.0], [6.0, 0.0, -23.0]],
        vec![[0.0, 0.0, 0.5], [0.0, 0.0, -0.6], [0.6, 0.1, -1.5], [-0.4, -0.9, -2.0], [0.3, 0.8, 0.1], [-0.9, 0.5, -0.3], [0.8, -0.6, -1.1]],
    ];
    let spins = run.pick(2, 5);
    let mut out = vec![];
    for cs in centres {
        for k in 0..spins {
            out.push(
                cs.iter()
                    .enumerate()
                    .map(|(i, &p)| {
                        let r = rot([0.3 + i as f64, 1.0, -0.5 * i as f64], 0.7 * (i as f64 + 1.3 * k as f64));
                        Rigid { r, t: mul(mv(&r, p), -1.0) }
                    })
                    .collect(),
            );
        }
    }
    out
}

pub fn g03(run: &Run) {
    let rigs = rigs(run);
    let pts = points(run);
    // All sequences of two to five camera indices (with repetitions when thorough) over five cameras.
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut lvl: Vec<Vec<usize>> = vec![vec![]];
    let maxlen = run.pick(4, 5);
    for _ in 0..maxlen {
        let mut n = vec![];
        for s in &lvl {
            for k in 0..5 {
                if run.thorough() && s.len() < 4 || !s.contains(&k) {
                    let mut t = s.clone();
                    t.push(k);
                    n.push(t);
                }
            }
        }
        seqs.extend(n.iter().cloned());
        lvl = n;
    }
    run.grid(
        "sequences",
        &[("method", MANY.len()), ("rig", rigs.len()), ("point", pts.len()), ("cameras", seqs.len())],
        |ix, c| {
            let m = MANY[ix[0]];
            let rig = &rigs[ix[1]];
            let p = pts[ix[2]];
            let s = &seqs[ix[3]];
            let mut distinct = s.clone();
            distinct.sort();
            distinct.dedup();
            if distinct.iter().any(|&k| norm(rig[k].act(p)) < 0.2) {
                return;
            }
            let obs: Vec<(Rigid, V3)> = s.iter().map(|&k| (rig[k], rig[k].act(p))).collect();
            let r = m.many(&obs);
            c.step();
            if s.len() < 2 {
                c.class("too-few");
                c.check(r.is_none(), "too-few", || format!("{m:?}: {} observations triangulated to {r:?}", s.len()));
                return;
            }
            if let Some(h) = r {
                c.check(h.iter().all(|x| x.is_finite()), "finite", || format!("{m:?} {h:?}"));
                for (g, b) in &obs {
                    let v = seen(g, h);
                    c.check(dot(v, *b) > -1e-9 * norm(v) * norm(*b), "in-front", || {
                        format!("{m:?} cameras {s:?} point {p:?}: {h:?} lies behind a camera")
                    });
                }
            }
            // largest parallax between any two of the cameras
            let mut par = 0.0f64;
            for &i in &distinct {
                for &j in &distinct {
                    par = par.max(angle(sub(p, rig[i].centre()), sub(p, rig[j].centre())).sin());
                }
            }
            if distinct.len() < 2 || par < 0.05 {
                c.class("no-parallax");
                return;
            }
            if m == Tri::Mean {
                c.class("mean");
                return;
            }
            c.class(["", "", "two", "three", "four", "five"][s.len()]);
            match r {
                None => c.check(false, "refused", || format!("{m:?}: point {p:?} seen from cameras {s:?} of rig {} is refused", ix[1])),
                Some(h) => {
                    let far = distinct.iter().map(|&k| norm(rig[k].centre()).max(norm(rig[k].act(p)))).fold(norm(p), f64::max);
                    let e = vdiff(euclid(h), p);
                    let tol = if m == Tri::Sine { 1e-8 } else { 2e-9 } * (1.0 + far) * (1.0 + far) / (par * par);
                    c.check(e < tol, "recovered", || {
                        format!("{m:?}: point {p:?} seen from cameras {s:?} of rig {}: {:?}, error {e:e} (allowed {tol:e})", ix[1], euclid(h))
                    });
                    c.outcome(&[h[0], h[1], h[2], h[3]]);
                }
            }
            c.sample(|| format!("{m:?} rig {} cameras {s:?} point {p:?} -> {r:?}", ix[1]));
        },
    );
    // Noisy observations: the order of the observations and the choice of world frame do not matter, and the
    // variant relative to one camera is the same computation.
    let offs: Vec<f64> = run.pick(vec![0.0, 1e-3, 0.02], vec![0.0, 1e-5, 1e-3, 0.05]);
    let gauges: Vec<Rigid> = {
        let mut v = vec![Rigid { r: I3, t: [1.0, -2.0, 0.5] }];
        for d in dirs_generic() {
            v.push(Rigid { r: rot(d, 2.1), t: [0.0; 3] });
            v.push(Rigid { r: rot(d, -1.1), t: mul(d, 2.0) });
        }
        v
    };
    let perms: Vec<Vec<usize>> = {
        let mut v = vec![];
        for a in 0..4 {
            for b in 0..4 {
                for c in 0..4 {
                    for d in 0..4 {
                        let s = [a, b, c, d];
                        if (0..4).all(|i| s.contains(&i)) {
                            v.push(s.to_vec());
                        }
                    }
                }
            }
        }
        v
    };
    run.grid(
        "noisy",
        &[("method", MANY.len()), ("rig", rigs.len()), ("point", pts.len()), ("noise", offs.len().pow(3)), ("gauge", gauges.len() + perms.len() + 4)],
        |ix, c| {
            let m = MANY[ix[0]];
            let rig = &rigs[ix[1]];
            let p = pts[ix[2]];
            let mut k = ix[3];
            let mut obs = vec![];
            let mut par = 0.0f64;
            for i in 0..4 {
                let q = rig[i].act(p);
                if norm(q) < 0.5 {
                    return;
                }
                let o = if i == 0 { 0.0 } else { let o = offs[k % offs.len()]; k /= offs.len(); o };
                let u = unit(cross(q, dirs_generic()[i]));
                obs.push((rig[i], add(unit(q), mul(u, o))));
                for j in 0..i {
                    par = par.max(angle(sub(p, rig[i].centre()), sub(p, rig[j].centre())).sin());
                }
            }
            if par < 0.2 {
                c.class("no-parallax");
                return;
            }
            let base = m.many(&obs);
            c.steps(2);
            let far = (0..4).map(|k| norm(rig[k].centre()).max(norm(rig[k].act(p)))).fold(norm(p), f64::max);
            let tol = if m == Tri::Sine { 1e-7 } else { 5e-9 } * (1.0 + far).powi(2) / (par * par);
            let pts_close = |x: Option<V3>, y: Option<V3>| match (x, y) {
                (None, None) => true,
                (Some(a), Some(b)) => vdiff(a, b) <= tol * (1.0 + norm(a)),
                _ => false,
            };
            // too close to the boundary of acceptance to compare acceptance across roundings
            let marginal = match base {
                Some(h) => obs.iter().any(|(g, b)| {
                    let v = seen(g, h);
                    dot(v, *b) < 1e-3 * norm(v)
                }) || h[3] < 1e-3,
                None => true,
            };
            let w = |h: Option<[f64; 4]>| h.map(euclid);
            let gi = ix[4];
            if gi < gauges.len() {
                let t = gauges[gi];
                // world points move by t, so cameras become g ∘ t⁻¹
                let moved: Vec<(Rigid, V3)> = obs.iter().map(|(g, b)| (g.after(&t.inv()), *b)).collect();
                // the linear method weighs the homogeneous coordinates, so only rotations leave it unchanged
                let rotation_only = norm(t.t) == 0.0;
                if m == Tri::Mean || rotation_only {
                    let r = m.many(&moved);
                    c.class("gauge");
                    if !marginal {
                        let want = w(base).map(|x| t.act(x));
                        c.check(pts_close(want, w(r)), "gauge", || {
                            format!("{m:?} rig {} point {p:?} noise {}: {want:?} in another world frame {:?}", ix[1], ix[3], w(r))
                        });
                    }
                }
            } else if gi < gauges.len() + perms.len() {
                let pm = &perms[gi - gauges.len()];
                let po: Vec<_> = pm.iter().map(|&i| obs[i]).collect();
                let r = m.many(&po);
                c.class("order");
                if !marginal {
                    c.check(pts_close(w(base), w(r)), "order", || {
                        format!("{m:?} rig {} point {p:?} noise {}: {:?}, in order {pm:?} {:?}", ix[1], ix[3], w(base), w(r))
                    });
                }
            } else {
                // relative to camera i
                let i = gi - gauges.len() - perms.len();
                let to_cam: Vec<(Rigid, V3)> = (0..4).filter(|&j| j != i).map(|j| (obs[j].0.after(&obs[i].0.inv()), obs[j].1)).collect();
                let it = to_cam.iter().map(|(g, b)| (CameraToCamera(niso(g)), uv(*b)));
                let cb = uv(obs[i].1);
                let rel = match m {
                    Tri::Linear => LinearEigenTriangulator::new().triangulate_observations_to_camera(cb, it),
                    Tri::Sine => SineL1Triangulator::new().triangulate_observations_to_camera(cb, it),
                    _ => MeanMeanTriangulator.triangulate_observations_to_camera(cb, it),
                }
                .map(|p| a4(p.homogeneous()));
                let mut all = vec![(Rigid::ID, obs[i].1)];
                all.extend(to_cam);
                let abs = m.many(&all);
                c.class("to-camera");
                let same = match (rel, abs) {
                    (None, None) => true,
                    (Some(a), Some(b)) => (0..4).all(|k| (a[k] - b[k]).abs() < 1e-9),
                    _ => marginal,
                };
                c.check(same, "to-camera", || format!("{m:?}: relative {rel:?}, with the camera as the world {abs:?}"));
            }
            if let Some(h) = base {
                c.outcome(&[h[0], h[1], h[2], h[3]]);
            }
        },
    );
}

/// Smallest achievable cost of correcting two bearings onto a common epipolar plane, by sweeping the plane.
fn best_plane(t: V3, a: V3, b: V3, cost: impl Fn(f64, f64) -> f64, n: usize) -> f64 {
    let t = unit(t);
    let h = if t[0].abs() < 0.6 { [1., 0., 0.] } else { [0., 1., 0.] };
    let u = unit(cross(t, h));
    let w = cross(t, u);
    let f = |phi: f64| {
        let nrm = add(mul(u, phi.cos()), mul(w, phi.sin()));
        cost(dot(a, nrm).abs().min(1.0).asin(), dot(b, nrm).abs().min(1.0).asin())
    };
    let mut best = f64::INFINITY;
    let st = std::f64::consts::PI / n as f64;
    for k in 0..n {
        best = best.min(f(k as f64 * st));
    }
    // the planes through either bearing are candidate optima
    for v in [a, b] {
        let nn = cross(v, t);
        if norm(nn) > 1e-9 {
            let phi = dot(nn, w).atan2(dot(nn, u));
            best = best.min(f(phi));
        }
    }
    best
}

pub fn g04(run: &Run) {
    let poses = small_poses(run);
    let pts = points(run);
    let errs = run.pick(vec![1e-3, 0.05, 0.3], vec![1e-5, 1e-3, 0.02, 0.05, 0.15, 0.3, 0.6]);
    let n = 360;
    for (fam, which) in [("sum-of-angles", 0usize), ("largest-angle", 1)] {
        run.grid(
            fam,
            &[("pose", poses.len()), ("point", pts.len()), ("error-a", errs.len()), ("error-b", errs.len())],
            |ix, c| {
                let g = poses[ix[0]];
                let p = pts[ix[1]];
                let q = g.act(p);
                let ctr = g.centre();
                if norm(q) < 0.05 || norm(ctr) < 1e-9 || norm(cross(unit(p), unit(ctr))) < 0.05 {
                    return;
                }
                let nrm = unit(cross(p, ctr));
                let a = unit(add(unit(p), mul(nrm, errs[ix[2]])));
                let bw = unit(add(unit(sub(p, ctr)), mul(nrm, -errs[ix[3]])));
                let b = g.rotate(bw);
                let m = if which == 0 { Tri::L1 } else { Tri::Linf };
                let r = m.two(&g, uv(a), uv(b));
                c.step();
                let Some(h) = r else {
                    c.class("refused");
                    return;
                };
                let ea = angle(seen(&Rigid::ID, h), a);
                let eb = angle(seen(&g, h), b);
                let cost = |x: f64, y: f64| if which == 0 { x + y } else { x.max(y) };
                let got = cost(ea, eb);
                let best = best_plane(ctr, a, bw, cost, n);
                c.class("point");
                c.check(got <= best + 1e-7, "optimal", || {
                    format!("{m:?} {g:?} bearings {a:?} {b:?}: angular errors {ea:.9} and {eb:.9}, but {best:.9} is achievable")
                });
                c.check(got >= best - 0.02 - 1e-7, "oracle", || format!("oracle inconsistent: {got} {best}"));
                c.outcome(&[h[0], h[1], h[2], h[3]]);
                c.sample(|| format!("{m:?} {g:?} {a:?} {b:?} -> angles {ea} {eb}, sweep {best}"));
            },
        );
    }
    // The linear method minimises the sum of squared distances to the bearings over unit homogeneous points;
    // the iterative one never ends farther from the observation rays than the linear one.
    let rigs = rigs(run);
    let dirs: Vec<[f64; 4]> = {
        let mut v = vec![];
        for i in 0..81 {
            let d = [(i / 27) as f64 - 1.0, (i / 9 % 3) as f64 - 1.0, (i / 3 % 3) as f64 - 1.0, (i % 3) as f64 - 1.0];
            if d.iter().any(|&x| x != 0.0) {
                v.push(d);
            }
        }
        v
    };
    let steps = [1e-4, 1e-3, 1e-2, 0.1, 1.0];
    run.grid(
        "least-squares",
        &[("rig", rigs.len()), ("point", pts.len()), ("noise", errs.len().pow(2)), ("cameras", 4)],
        |ix, c| {
            let rig = &rigs[ix[0]];
            let p = pts[ix[1]];
            let ncam = ix[3] + 2;
            let e = [errs[ix[2] % errs.len()], errs[ix[2] / errs.len()]];
            let mut obs = vec![];
            for i in 0..ncam {
                let q = rig[i].act(p);
                if norm(q) < 0.3 {
                    return;
                }
                let u = unit(cross(q, dirs_generic()[i % 4]));
                obs.push((rig[i], unit(add(unit(q), mul(u, e[i % 2])))));
            }
            let cost = |h: [f64; 4]| {
                let n2: f64 = h.iter().map(|x| x * x).sum();
                obs.iter()
                    .map(|(g, b)| {
                        let v = seen(g, h);
                        let d = sub(v, mul(*b, dot(v, *b)));
                        dot(d, d)
                    })
                    .sum::<f64>()
                    / n2
            };
            let lin = Tri::Linear.many(&obs);
            let sine = Tri::Sine.many(&obs);
            c.steps(2);
            if let Some(h) = lin {
                c.class("linear");
                let n = h.iter().map(|x| x * x).sum::<f64>().sqrt();
                let h = h.map(|x| x / n);
                let at = cost(h);
                for d in &dirs {
                    for s in steps {
                        let o = [h[0] + s * d[0], h[1] + s * d[1], h[2] + s * d[2], h[3] + s * d[3]];
                        if o.iter().map(|x| x * x).sum::<f64>() < 1e-6 {
                            continue;
                        }
                        c.check(at <= cost(o) + 1e-9 * (1.0 + at), "linear-minimal", || {
                            format!("rig {} point {p:?} noise {e:?}: cost {at:e} at {h:?} but {:e} at {o:?}", ix[0], cost(o))
                        });
                    }
                }
                c.outcome(&h);
            }
            if let (Some(l), Some(s)) = (lin, sine) {
                let ray = |h: [f64; 4]| {
                    let x = euclid(h);
                    obs.iter()
                        .map(|(g, b)| {
                            let v = g.act(x);
                            let d = sub(v, mul(*b, dot(v, *b)));
                            dot(d, d)
                        })
                        .sum::<f64>()
                };
                let mut par = 0.0f64;
                for (g, a) in &obs {
                    for (h, b) in &obs {
                        par = par.max(angle(g.inv().rotate(*a), h.inv().rotate(*b)).sin());
                    }
                }
                if l[3] > 1e-6 && s[3] > 1e-6 && par > 0.4 {
                    let (rl, rs) = (ray(l), ray(s));
                    c.class("refined");
                    c.check(rs <= rl * (1.0 + 1e-9) + 1e-12, "refined", || {
                        format!("rig {} point {p:?} noise {e:?}: squared ray distance {rl:e} before and {rs:e} after refinement", ix[0])
                    });
                    // Stationary: no neighbouring point is closer to all rays together.
                    let x = euclid(s);
                    let far = norm(x).max(1.0);
                    for d in dirs26() {
                        for st in [1e-3, 1e-2] {
                            let o = add(x, mul(d, st * far));
                            let ro = ray([o[0], o[1], o[2], 1.0]);
                            c.check(rs <= ro * (1.0 + 1e-6) + 1e-9 * far * far, "stationary", || {
                                format!("rig {} point {p:?} noise {e:?}: squared ray distance {rs:e} at {x:?} but {ro:e} at {o:?}", ix[0])
                            });
                        }
                    }
                }
            }
        },
    );
    defining(run);
}

/// Every method on noisy observations, against the point it is defined to return.
fn defining(run: &Run) {
    let mut poses = small_poses(run);
    if run.thorough() {
        poses = poses.into_iter().step_by(6).collect();
    }
    let pts = points(run);
    let errs = run.pick(vec![0.0, 1e-3, 0.05, 0.3], vec![0.0, 1e-5, 0.02, 0.15, 0.5]);
    run.grid(
        "defining-two",
        &[("method", TWO.len()), ("pose", poses.len()), ("point", pts.len()), ("error-a", errs.len()), ("error-b", errs.len()), ("signs", 4)],
        |ix, c| {
            let m = TWO[ix[0]];
            let g = poses[ix[1]];
            let p = pts[ix[2]];
            let q = g.act(p);
            if norm(q) < 0.05 {
                return;
            }
            let e = [errs[ix[3]], errs[ix[4]]];
            let sg = |k: usize| if ix[5] >> k & 1 == 1 { -1.0 } else { 1.0 };
            let nrm = unit(cross(add(p, [0.01, 0.02, 0.0]), g.centre()));
            if !(norm(nrm) > 0.5) || e[0] == 0.0 && ix[5] & 1 == 1 || e[1] == 0.0 && ix[5] & 2 == 2 {
                return;
            }
            let a = unit(add(unit(p), mul(nrm, sg(0) * e[0])));
            let b = unit(add(unit(q), mul(g.rotate(nrm), sg(1) * e[1])));
            let obs = [(Rigid::ID, a), (g, b)];
            let r = m.two(&g, uv(a), uv(b));
            c.step();
            judge(c, m, &obs, r, || format!("{g:?} bearings {a:?} {b:?}"));
            if let Some(h) = r {
                c.outcome(&[ix[0] as f64, h[0], h[1], h[2], h[3]]);
            }
        },
    );
    let rigs = rigs(run);
    run.grid(
        "defining-many",
        &[("method", MANY.len()), ("rig", rigs.len()), ("point", pts.len()), ("error-1", errs.len()), ("error-2", errs.len()), ("cameras", 6), ("entry", 2)],
        |ix, c| {
            let m = MANY[ix[0]];
            let rig = &rigs[ix[1]];
            let p = pts[ix[2]];
            let n = ix[5] + 2;
            let mut obs = vec![];
            for i in 0..n {
                let g = if ix[6] == 1 { rig[i].after(&rig[0].inv()) } else { rig[i] };
                let q = rig[i].act(p);
                if norm(q) < 0.3 {
                    return;
                }
                let u = unit(cross(q, dirs_generic()[i % 4]));
                let e = errs[ix[3 + i % 2]] * if i < 3 { 1.0 } else { 0.7 / i as f64 };
                obs.push((g, unit(add(unit(q), mul(u, e)))));
            }
            let r = if ix[6] == 0 {
                m.many(&obs)
            } else {
                obs[0].0 = Rigid::ID;
                m.camera(&obs)
            };
            c.step();
            judge(c, m, &obs, r, || format!("rig {} point {p:?} {n} cameras", ix[1]));
            if let Some(h) = r {
                c.outcome(&[ix[0] as f64, h[0], h[1], h[2], h[3]]);
            }
        },
    );
    // Cameras that all look the same way see a point at infinity: nothing but that direction may come out, and the
    // refined method has nothing to refine.
    let mut ds = dirs26();
    ds.extend(dirs_generic());
    run.grid("parallel", &[("rig", rigs.len()), ("direction", ds.len()), ("cameras", 6), ("entry", 3)], |ix, c| {
        let (rig, d, n) = (&rigs[ix[0]], unit(ds[ix[1]]), ix[2] + 2);
        if ix[3] == 2 && n > 2 {
            return;
        }
        let obs: Vec<(Rigid, V3)> = (0..n)
            .map(|i| {
                let g = if i == 0 && ix[3] > 0 {
                    Rigid::ID
                } else if ix[3] > 0 {
                    rig[i].after(&rig[0].inv())
                } else {
                    rig[i]
                };
                (g, unit(g.rotate(d)))
            })
            .collect();
        // cameras on a common line of sight see nothing of the depth
        let across = obs.iter().map(|o| norm(cross(d, sub(o.0.centre(), obs[0].0.centre())))).fold(0.0, f64::max);
        if across < 0.05 {
            c.class("undetermined");
            return;
        }
        let run_one = |m: Tri| match ix[3] {
            0 => m.many(&obs),
            1 => m.camera(&obs),
            _ => m.two(&obs[1].0, uv(obs[0].1), uv(obs[1].1)),
        };
        let mut known = vec![];
        for m in if ix[3] == 2 { &TWO[..] } else { &MANY[..] } {
            let r = run_one(*m);
            c.step();
            known.push(r.is_some());
            // (the mean method has no position without parallax)
            if let Some(h) = r.filter(|_| *m != Tri::Mean && !(*m == Tri::Dlt && obs.iter().any(|o| o.1[2].abs() < 0.05))) {
                c.class(["linear", "sine", "dlt", "mean", "l1", "linf"][*m as usize]);
                let v = unit([h[0], h[1], h[2]]);
                c.check(vdiff(v, d) < 1e-6 && (h[3].abs() < 1e-6 || matches!(m, Tri::L1 | Tri::Linf)), "direction", || {
                    format!("{m:?}: {n} cameras of rig {} that look along {d:?} gave {h:?}", ix[0])
                });
                c.outcome(&[*m as usize as f64, h[0], h[1], h[2]]);
            }
        }
        c.check(known[0] == known[1], "refined", || {
            format!("{n} cameras of rig {} that look along {d:?}: only one of the linear and the refined method answers", ix[0])
        });
    });
}

pub fn g05(run: &Run) {
    let pts = points(run);
    let mut bs = dirs26();
    bs.extend(dirs_generic());
    // Moving a point by its gradient puts it onto the ray's line, at the closest position.
    run.grid("point-gradient", &[("camera", pts.len()), ("bearing", bs.len())], |ix, c| {
        let t = pts[ix[0]];
        let b = unit(bs[ix[1]]);
        let g = av(&epipolar::point_gradient(nv(t), uv(b)));
        c.step();
        let sc = 1.0 + norm(t);
        c.check(norm(cross(sub(g, t), b)) < 1e-12 * sc, "on-line", || format!("camera {t:?} bearing {b:?}: gradient {g:?}"));
        c.check(dot(g, b).abs() < 1e-12 * sc, "perpendicular", || format!("camera {t:?} bearing {b:?}: gradient {g:?}"));
        c.outcome(&g);
        c.sample(|| format!("camera {t:?} bearing {b:?} -> {g:?}"));
    });
    run.grid("world-gradient", &[("point", pts.len() + 1), ("bearing", bs.len())], |ix, c| {
        let p = if ix[0] < pts.len() { pts[ix[0]] } else { [0.0; 3] };
        let b = unit(bs[ix[1]]);
        let d = epipolar::world_pose_gradient(nv(p), uv(b));
        c.step();
        let (dt, dr) = (av(&d.translation), av(&d.rotation));
        let sc = 1.0 + norm(p);
        let moved = add(p, dt);
        c.check(norm(cross(moved, b)) < 1e-12 * sc, "on-ray", || format!("point {p:?} bearing {b:?}: translation {dt:?}"));
        c.check(dot(dt, b).abs() < 1e-12 * sc, "shortest", || format!("point {p:?} bearing {b:?}: translation {dt:?}"));
        if norm(p) == 0.0 {
            c.class("at-centre");
            c.check(norm(dr) == 0.0, "finite", || format!("point at the optical center: rotation {dr:?}"));
        } else {
            let a = angle(p, b);
            c.class(if a < 1.57 { "in-front" } else { "behind" });
            c.check((norm(dr) - a.sin()).abs() < 1e-12, "magnitude", || format!("point {p:?} bearing {b:?}: rotation {dr:?}"));
            // the rotation turns the point towards the bearing
            if a > 1e-6 && a < 3.1 {
                let q = mv(&exp_so3(dr), p);
                c.check(angle(q, b) < a + 1e-12, "towards", || format!("point {p:?} bearing {b:?}: rotation {dr:?} turns away"));
                c.check(dot(dr, p).abs() < 1e-9 * sc && dot(dr, b).abs() < 1e-9, "axis", || format!("point {p:?} bearing {b:?}: rotation {dr:?}"));
            }
        }
        c.outcome(&[dt[0], dt[1], dt[2], dr[0], dr[1], dr[2]]);
    });
    // Loss: zero exactly for coplanar bearings, else the sine of the smaller correction.
    let errs = [0.0, 1e-6, 1e-3, 0.05, 0.4];
    let poses = small_poses(run);
    run.grid(
        "loss",
        &[("pose", poses.len()), ("point", pts.len()), ("error-a", errs.len()), ("error-b", errs.len()), ("scale", 3)],
        |ix, c| {
            let g = poses[ix[0]];
            let p = pts[ix[1]];
            let ctr = g.centre();
            let d = sub(p, ctr);
            if norm(ctr) < 1e-9 || norm(d) < 1e-3 {
                return;
            }
            let nn = cross(p, ctr);
            if norm(nn) < 1e-2 * norm(p) * norm(ctr) {
                return;
            }
            let nrm = unit(nn);
            let a = unit(add(unit(p), mul(nrm, errs[ix[2]])));
            let b = unit(add(unit(d), mul(nrm, -errs[ix[3]])));
            let t = mul(ctr, [1.0, -1.0, 40.0][ix[4]]);
            let l = epipolar::loss(nv(t), uv(a), uv(b));
            let sw = epipolar::loss(nv(t), uv(b), uv(a));
            c.steps(2);
            if dot(a, b).abs() < 1e-9 {
                return;
            }
            if dot(a, b) < 0.0 {
                c.class("opposed");
                c.check(l == 1.0, "opposed", || format!("opposed bearings {a:?} {b:?}: loss {l}"));
                return;
            }
            c.class("similar");
            // correct only the bearing closest to the baseline direction, onto the other one's plane
            let (ca, cb) = (cross(a, t), cross(b, t));
            let want = if norm(ca) < norm(cb) { dot(a, cb).abs() / norm(cb) } else { dot(b, ca).abs() / norm(ca) };
            c.check((l - want).abs() < 1e-12, "definition", || format!("baseline {t:?} bearings {a:?} {b:?}: loss {l}, expected {want}"));
            c.check((l - sw).abs() < 1e-12, "symmetric", || format!("baseline {t:?} bearings {a:?} {b:?}: loss {l}, swapped {sw}"));
            let best = best_plane(t, a, b, |x, y| x + y, 90).sin();
            c.check(l <= best + 1e-6, "minimal", || format!("baseline {t:?} bearings {a:?} {b:?}: loss {l} but {best} achievable"));
            if ix[2] == 0 && ix[3] == 0 {
                c.check(l < 1e-12, "consistent", || format!("consistent bearings {a:?} {b:?}: loss {l}"));
            }
            c.outcome(&[l]);
        },
    );
    // The same for bearings at any angle to each other, however far from a common plane.
    let angs: [f64; 11] = [1e-4, 0.2, 0.7, 1.2, 1.45, 1.5, 1.55, 1.57, 1.6, 1.8, 2.9];
    let ts: Vec<V3> = dirs_generic().into_iter().chain([[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [3.0, -1.0, 2.0]]).collect();
    run.grid("loss-any", &[("translation", ts.len()), ("a", bs.len()), ("angle", angs.len()), ("towards", 24)], |ix, c| {
        let t = ts[ix[0]];
        let a = unit(bs[ix[1]]);
        let h = if a[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
        let u = unit(cross(a, h));
        let v = cross(a, u);
        let phi = ix[3] as f64 * std::f64::consts::PI / 12.0 + 0.1;
        let (th, d) = (angs[ix[2]], add(mul(u, phi.cos()), mul(v, phi.sin())));
        let b = unit(add(mul(a, th.cos()), mul(d, th.sin())));
        let (ca, cb) = (cross(a, unit(t)), cross(b, unit(t)));
        if norm(ca) < 1e-3 || norm(cb) < 1e-3 {
            return;
        }
        let l = epipolar::loss(nv(t), uv(a), uv(b));
        c.step();
        let want = if dot(a, b) < 0.0 {
            c.class("opposed");
            1.0
        } else {
            c.class("similar");
            (dot(a, cb).abs() / norm(cb)).min(dot(b, ca).abs() / norm(ca))
        };
        c.check((l - want).abs() < 1e-11, "definition", || format!("baseline {t:?} bearings {a:?} {b:?}: loss {l}, expected {want}"));
        c.outcome(&[l]);
    });
    for t in [[0.0; 3], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]] {
        let fam = format!("loss-degenerate-{}{}", t[0], t[2]);
        run.grid(&fam, &[("a", bs.len()), ("b", bs.len())], |ix, c| {
            let l = epipolar::loss(nv(t), uv(bs[ix[0]]), uv(bs[ix[1]]));
            c.step();
            c.check((0.0..=1.0 + 1e-9).contains(&l), "range", || format!("baseline {t:?} bearings {:?} {:?}: loss {l}", bs[ix[0]], bs[ix[1]]));
            c.outcome(&[l]);
        });
    }
    three_view(run, &pts);
}

/// Independent definition of the three-view gradients, from the geometry they describe.
fn three_ref(c: V3, f: V3, fc: V3, s: V3, sc: V3) -> Option<[[V3; 2]; 2]> {
    let rotg = |t: V3, a: V3, b: V3| {
        let (na, nb) = (unit(cross(a, t)), unit(cross(b, t)));
        cross(nb, na)
    };
    // Closest correction of two rays (a from the origin, b from position o) to intersection, as a point.
    let tri = |o: V3, a: V3, b: V3| -> Result<Option<V3>, ()> {
        let (ca, cb) = (cross(a, o), cross(b, o));
        let (mut a, mut b) = (a, b);
        if (norm(ca) - norm(cb)).abs() < 1e-9 {
            return Err(());
        }
        if norm(ca) < norm(cb) {
            let n = unit(cb);
            a = unit(sub(a, mul(n, dot(a, n))));
        } else {
            let n = unit(ca);
            b = unit(sub(b, mul(n, dot(b, n))));
        }
        // λ a = o + μ b
        let ab = cross(a, b);
        let d = dot(ab, ab);
        if d < 1e-6 {
            return Err(());
        }
        let la = dot(cross(o, b), ab) / d;
        let mu = dot(cross(o, a), ab) / d;
        if la.abs() < 1e-6 || mu.abs() < 1e-6 {
            return Err(());
        }
        Ok((la > 0.0 && mu > 0.0).then(|| mul(a, la)))
    };
    let sf = sub(sc, fc);
    for (t, a, b) in [(fc, c, f), (sc, c, s), (sf, f, s)] {
        if norm(cross(a, unit(t))) < 1e-3 || norm(cross(b, unit(t))) < 1e-3 {
            return None;
        }
    }
    let (rcf, rcs, rfs) = (rotg(fc, c, f), rotg(sc, c, s), rotg(sf, f, s));
    let perp = |p: V3, b: V3| sub(p, mul(b, dot(p, b)));
    let tf = tri(sc, c, s).ok()?.map(|p| perp(sub(p, fc), f)).unwrap_or([0.0; 3]);
    let ts = tri(fc, c, f).ok()?.map(|p| perp(sub(p, sc), s)).unwrap_or([0.0; 3]);
    let tc = tri(sf, f, s).ok()?.map(|p| mul(perp(add(p, fc), c), -1.0)).unwrap_or([0.0; 3]);
    let mix = |a: V3, b: V3| add(mul(a, 2.0 / 3.0), mul(b, 1.0 / 3.0));
    Some([[mix(tf, tc), mix(rcf, mul(rfs, -1.0))], [mix(ts, tc), mix(rcs, rfs)]])
}

fn three_view(run: &Run, pts: &[V3]) {
    let ts: Vec<V3> = vec![[1.0, 0.1, 0.0], [-0.4, 0.7, 0.2], [0.1, -0.2, 1.0], [0.3, 0.3, -0.9], [-2.0, 0.5, 3.0]];
    let offs = run.pick(vec![0.0, 1e-3, 0.1], vec![0.0, 1e-5, 1e-3, 0.03, 0.1, 0.4]);
    let no = offs.len().pow(3);
    let real = |c: V3, f: V3, fc: V3, s: V3, sc: V3| {
        epipolar::three_view_gradients(uv(c), uv(f), nv(fc), uv(s), nv(sc)).map(|g| [av(&g.translation), av(&g.rotation)])
    };
    run.grid(
        "three-view",
        &[("first", ts.len()), ("second", ts.len()), ("point", pts.len()), ("noise", no), ("reversed", 8)],
        |ix, k| {
            let (fc, sc) = (ts[ix[0]], ts[ix[1]]);
            if ix[0] == ix[1] {
                return;
            }
            let p = pts[ix[2]];
            if [p, sub(p, fc), sub(p, sc)].iter().any(|v| norm(*v) < 0.1) {
                return;
            }
            let o = [offs[ix[3] % offs.len()], offs[ix[3] / offs.len() % offs.len()], offs[ix[3] / offs.len() / offs.len()]];
            let sg = |i: usize| if ix[4] >> i & 1 == 1 { -1.0 } else { 1.0 };
            let noisy = |v: V3, i: usize| {
                let v = unit(v);
                let u = unit(cross(v, dirs_generic()[i]));
                mul(unit(add(v, mul(u, o[i]))), sg(i))
            };
            let (c, f, s) = (noisy(p, 0), noisy(sub(p, fc), 1), noisy(sub(p, sc), 2));
            let g = real(c, f, fc, s, sc);
            k.step();
            for v in g.iter().flatten() {
                k.check(v.iter().all(|x| x.is_finite()), "finite", || format!("first {fc:?} second {sc:?} bearings {c:?} {f:?} {s:?}: {g:?}"));
            }
            if o == [0.0; 3] && ix[4] == 0 {
                k.class("consistent");
                let e = g.iter().flatten().map(|v| norm(*v)).fold(0.0, f64::max);
                let par = [angle(c, f), angle(c, s), angle(f, s)].iter().map(|x| x.sin()).fold(1.0, f64::min);
                if par > 1e-3 {
                    k.check(e < 1e-9 / (par * par), "fixed-point", || {
                        format!("first {fc:?} second {sc:?} point {p:?}: consistent observations have gradient {g:?}")
                    });
                }
            }
            let Some(w) = three_ref(c, f, fc, s, sc) else {
                k.class("ill-conditioned");
                return;
            };
            k.class(if ix[4] == 0 { "in-front" } else { "reversed" });
            for i in 0..2 {
                for j in 0..2 {
                    let tol = 1e-7 * (1.0 + norm(w[i][j]));
                    k.check(vdiff(g[i][j], w[i][j]) < tol, ["translation", "rotation"][j], || {
                        format!("first {fc:?} second {sc:?} bearings {c:?} {f:?} {s:?}: {} of view {i} is {:?}, expected {:?}", ["translation", "rotation"][j], g[i][j], w[i][j])
                    });
                }
            }
            k.outcome(&[g[0][0][0], g[0][0][1], g[0][1][2], g[1][0][0], g[1][1][1]]);
            k.sample(|| format!("first {fc:?} second {sc:?} point {p:?} noise {o:?} -> {g:?}"));
        },
    );
    // Views on the baseline and cameras in the same place leave the gradient defined.
    let bs = dirs26();
    let tz: Vec<V3> = vec![[0.0; 3], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [1.0, 1.0, 0.0]];
    run.grid(
        "three-view-degenerate",
        &[("first", tz.len()), ("second", tz.len()), ("c", bs.len()), ("f", bs.len()), ("s", bs.len())],
        |ix, k| {
            let g = real(bs[ix[2]], bs[ix[3]], tz[ix[0]], bs[ix[4]], tz[ix[1]]);
            k.step();
            for v in g.iter().flatten() {
                k.check(v.iter().all(|x| x.is_finite()), "finite", || {
                    format!("first {:?} second {:?} bearings {:?} {:?} {:?}: {g:?}", tz[ix[0]], tz[ix[1]], bs[ix[2]], bs[ix[3]], bs[ix[4]])
                });
            }
            k.outcome(&[g[0][0][0], g[1][1][0]]);
        },
    );
}
