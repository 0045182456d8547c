//! E01 decomposition of essential matrices, E02 reconditioning, E03 epipolar residual.
use super::core_models::small_poses;
use super::geom::points;
use crate::engine::*;
use crate::na::*;
use crate::refm::*;
use cv_core::sample_consensus::Model;
use cv_core::*;
use cv_pinhole::EssentialMatrix;

const EPS: f64 = 1e-12;
const IT: usize = 1000;

fn poses(run: &Run) -> Vec<Rigid> {
    let mut v = small_poses(run);
    let ts: Vec<V3> = run.pick(
        vec![[1.0, 0.0, 0.0], [0.0, 0.0, 1.0], [0.3, -0.5, 0.8]],
        vec![[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, -1.0], [0.3, -0.5, 0.8], [1.0, 1.0, 0.0], [1.0, -1.0, 1.0]],
    );
    for r in cube24() {
        for &t in &ts {
            v.push(Rigid { r, t });
        }
    }
    v
}

/// All matrices with entries -1, 0 and 1, then some without structure.
fn matrix(i: usize) -> M3 {
    let mut k = i;
    let mut m = [[0.0; 3]; 3];
    for r in m.iter_mut() {
        for x in r.iter_mut() {
            *x = (k % 3) as f64 - 1.0;
            k /= 3;
        }
    }
    m
}
const TERNARY: usize = 19683;

pub fn e01(run: &Run) {
    let poses = poses(run);
    let scales = run.pick(vec![1.0, -1.0, 30.0, -0.02], vec![1.0, -1.0, 7.0, -30.0, 900.0, 0.02, -1e-3]);
    run.grid("truth", &[("pose", poses.len()), ("scale", scales.len())], |ix, c| {
        let g = poses[ix[0]];
        let k = scales[ix[1]];
        let made = EssentialMatrix::from(CameraToCamera(niso(&g)));
        c.step();
        let tn = norm(g.t);
        c.check(mdiff(&am(&made.0), &essential(&g)) < 1e-14 * (1.0 + tn), "construction", || {
            format!("{g:?}: essential matrix {:?}, expected {:?}", am(&made.0), essential(&g))
        });
        let e = EssentialMatrix(nm(&mscale(&essential(&g), k)));
        let parts = e.possible_rotations_unscaled_translation(EPS, IT);
        let rots = e.possible_rotations(EPS, IT);
        let all = e.possible_unscaled_poses(EPS, IT);
        let two = e.possible_unscaled_poses_bearing(EPS, IT);
        c.steps(4);
        let (Some((ra, rb, t)), Some(rots), Some(all), Some(two)) = (parts, rots, all, two) else {
            c.check(false, "refused", || format!("{g:?} times {k}: not decomposed"));
            return;
        };
        let (ra, rb, t) = (ar(&ra), ar(&rb), av(&t));
        let all: Vec<Rigid> = all.iter().map(|p| aiso(&p.0)).collect();
        let two: Vec<Rigid> = two.iter().map(|p| aiso(&p.0)).collect();
        for p in all.iter().chain(&two) {
            c.check(orth_err(&p.r) < 1e-9, "proper", || format!("{g:?} times {k}: {p:?} is not a rotation"));
            c.check((norm(p.t) - 1.0).abs() < 1e-9, "unit-translation", || format!("{g:?} times {k}: translation {:?}", p.t));
            let f = essential(&Rigid { r: p.r, t: mul(unit(p.t), tn) });
            let want = essential(&g);
            let d = mdiff(&f, &want).min(mdiff(&f, &mscale(&want, -1.0)));
            c.check(d < 1e-8 * tn, "same-matrix", || format!("{g:?} times {k}: candidate {p:?} has another essential matrix ({d:e})"));
        }
        c.check(rot_dist(&ra, &rb) > 3.0, "two-rotations", || format!("{g:?} times {k}: the rotations {ra:?} and {rb:?} are not a twisted pair"));
        c.check(
            mdiff(&ar(&rots[0]), &ra) < 1e-12 && mdiff(&ar(&rots[1]), &rb) < 1e-12,
            "agree",
            || format!("{g:?}: rotations {rots:?} differ from {ra:?} {rb:?}"),
        );
        c.check(norm(cross(t, unit(g.t))) < 1e-8, "direction", || format!("{g:?} times {k}: translation {t:?}"));
        // the four candidates are the four combinations, and the true pose is exactly one of them
        let hits = all.iter().filter(|p| rot_dist(&p.r, &g.r) < 1e-6 && vdiff(unit(p.t), unit(g.t)) < 1e-6).count();
        c.check(hits == 1, "truth-listed", || format!("{g:?} times {k}: {hits} of the candidates {all:?} are the true pose"));
        let hits = two.iter().filter(|p| rot_dist(&p.r, &g.r) < 1e-6).count();
        c.check(hits == 1, "truth-listed-unsigned", || format!("{g:?} times {k}: {hits} of the candidates {two:?} have the true rotation"));
        for i in 0..4 {
            for j in 0..i {
                let d = rot_dist(&all[i].r, &all[j].r) + vdiff(all[i].t, all[j].t);
                c.check(d > 1.0, "distinct", || format!("{g:?} times {k}: candidates {i} and {j} coincide"));
            }
        }
        c.class(if k < 0.0 { "negated" } else { "positive" });
        c.outcome(&[ra[0][0], ra[1][2], rb[0][1], t[0], t[1], t[2]]);
        c.sample(|| format!("{g:?} times {k} -> {all:?}"));
    });
    // Of the four candidates only the true one has a given visible point in front of both cameras.
    let pts = points(run);
    run.grid("one-in-front", &[("pose", poses.len()), ("point", pts.len())], |ix, c| {
        let g = poses[ix[0]];
        let p = pts[ix[1]];
        let q = g.act(p);
        let par = angle(p, sub(p, g.centre())).sin();
        if par < 0.02 || norm(q) < 0.05 {
            c.class("no-parallax");
            return;
        }
        let Some(all) = EssentialMatrix::from(CameraToCamera(niso(&g))).possible_unscaled_poses(EPS, IT) else {
            c.check(false, "refused", || format!("{g:?}: not decomposed"));
            return;
        };
        c.step();
        let front: Vec<Rigid> = all
            .iter()
            .map(|p| aiso(&p.0))
            .filter(|h| depths(h, unit(p), unit(q)).map(|(l, m)| l > 0.0 && m > 0.0).unwrap_or(false))
            .collect();
        c.class("seen");
        c.check(
            front.len() == 1 && rot_dist(&front[0].r, &g.r) < 1e-6 && vdiff(unit(front[0].t), unit(g.t)) < 1e-6,
            "chirality-selects",
            || format!("{g:?} point {p:?}: candidates with the point in front are {front:?}"),
        );
    });
    // Any matrix at all: proper rotations and unit translation directions, or a refusal.
    let gen: Vec<M3> = general(run);
    run.grid("any-matrix", &[("matrix", TERNARY + gen.len())], |ix, c| {
        let m = if ix[0] < TERNARY { matrix(ix[0]) } else { gen[ix[0] - TERNARY] };
        let r = EssentialMatrix(nm(&m)).possible_unscaled_poses(EPS, IT);
        c.step();
        match r {
            None => c.check(false, "refused", || format!("{m:?}: not decomposed")),
            Some(all) => {
                for p in &all {
                    let p = aiso(&p.0);
                    c.check(orth_err(&p.r) < 1e-9, "proper", || format!("{m:?}: {p:?} is not a rotation"));
                    c.check((norm(p.t) - 1.0).abs() < 1e-9, "unit-translation", || format!("{m:?}: translation {:?}", p.t));
                }
                let p = aiso(&all[0].0);
                c.outcome(&[p.r[0][0], p.r[0][1], p.r[1][2], p.t[0], p.t[1]]);
            }
        }
    });
}

fn general(run: &Run) -> Vec<M3> {
    let mut v = vec![];
    let ks = run.pick(vec![1.0, 1e-6], vec![1.0, 1e-6, 1e6, 1e-9, 300.0]);
    let ps = small_poses(run);
    for (i, g) in ps.iter().enumerate() {
        let h = &ps[(i * 7 + 3) % ps.len()];
        for &k in &ks {
            for e in [0.0, 1e-9, 1e-4, 0.1, 1.0] {
                v.push(mscale(&madd(&essential(g), &mscale(&h.r, e)), k));
            }
        }
    }
    v
}

pub fn e02(run: &Run) {
    let gen = general(run);
    let eps = [1e-12, 1e-9];
    run.grid("closest", &[("matrix", TERNARY + gen.len()), ("epsilon", eps.len())], |ix, c| {
        let m = if ix[0] < TERNARY { matrix(ix[0]) } else { gen[ix[0] - TERNARY] };
        let r = EssentialMatrix(nm(&m)).recondition(eps[ix[1]], IT);
        c.step();
        let Some(r) = r else {
            c.check(false, "refused", || format!("{m:?}: not reconditioned"));
            return;
        };
        let r = am(&r.0);
        let n = fro(&m);
        let sv = sing3(&m);
        c.class(if n == 0.0 {
            "zero"
        } else if sv[1] < 1e-6 * n {
            "rank-1"
        } else if sv[2] < 1e-6 * n {
            "rank-2"
        } else {
            "rank-3"
        });
        let t = 5e-5 * n + 1e-300;
        // singular values (s, s, 0): det = 0 and 2 M Mᵀ M = tr(M Mᵀ) M
        let mmt = mm(&r, &tr(&r));
        let trace = mmt[0][0] + mmt[1][1] + mmt[2][2];
        let mut cubic = mscale(&mm(&mmt, &r), 2.0);
        cubic = madd(&cubic, &mscale(&r, -trace));
        c.check(det(&r).abs() <= 1e-9 * n.powi(3) && fro(&cubic) <= 1e-8 * n.powi(3), "essential", || {
            format!("{m:?}: reconditioned to {r:?}, which is not an essential matrix")
        });
        let s = (sv[0] + sv[1]) / 2.0;
        let got = sing3(&r);
        c.check((got[0] - s).abs() <= t && (got[1] - s).abs() <= t, "singular-values", || {
            format!("{m:?} with singular values {sv:?}: reconditioned to {r:?} with {got:?}")
        });
        // closest: the distance cannot be smaller than that of the averaged singular values
        let want = (0.5 * (sv[0] - sv[1]).powi(2) + sv[2] * sv[2]).sqrt();
        let d = fro(&madd(&r, &mscale(&m, -1.0)));
        c.check((d - want).abs() <= 5e-5 * n, "closest", || format!("{m:?}: reconditioned to {r:?} at distance {d}, closest is at {want}"));
        let again = EssentialMatrix(nm(&r)).recondition(eps[ix[1]], IT);
        c.step();
        match again {
            None => c.check(false, "refused", || format!("{r:?}: not reconditioned again")),
            Some(q) => {
                let q = am(&q.0);
                c.check(mdiff(&q, &r) <= t, "idempotent", || format!("{m:?}: reconditioned to {r:?}, then to {q:?}"));
            }
        }
        c.outcome(&[r[0][0], r[0][1], r[0][2], r[1][1], r[2][0], r[2][2]]);
        c.sample(|| format!("{m:?} -> {r:?}"));
    });
}

pub fn e03(run: &Run) {
    let poses = poses(run);
    let pts = points(run);
    let errs = run.pick(vec![0.0, 1e-3, 0.2], vec![0.0, 1e-6, 1e-3, 0.02, 0.2]);
    run.grid(
        "residual",
        &[("pose", poses.len()), ("point", pts.len()), ("error-a", errs.len()), ("error-b", errs.len())],
        |ix, c| {
            let g = poses[ix[0]];
            let p = pts[ix[1]];
            let q = g.act(p);
            if norm(q) < 0.05 {
                return;
            }
            let dg = dirs_generic();
            let a = unit(add(unit(p), mul(dg[ix[1] % 4], errs[ix[2]])));
            let b = unit(add(unit(q), mul(dg[(ix[1] + 1) % 4], errs[ix[3]])));
            if a[2].abs() < 0.02 || b[2].abs() < 0.02 {
                c.class("off-image");
                return;
            }
            let e = EssentialMatrix::from(CameraToCamera(niso(&g)));
            let r = e.residual(&FeatureMatch(uv(a), uv(b)));
            // seen from the other camera
            let inv = EssentialMatrix::from(CameraToCamera(niso(&g.inv())));
            let ri = inv.residual(&FeatureMatch(uv(b), uv(a)));
            // the length of the translation is the unit of the residual, the sign of the matrix does not matter
            let r3 = EssentialMatrix(e.0 * -3.0).residual(&FeatureMatch(uv(a), uv(b)));
            c.steps(3);
            let (x, y) = (mul(a, 1.0 / a[2]), mul(b, 1.0 / b[2]));
            let want = dot(y, mv(&essential(&g), x)).abs();
            let sc = norm(x) * norm(y) * norm(g.t).max(1e-3);
            c.check((r - want).abs() <= 1e-12 * sc, "definition", || format!("{g:?} bearings {a:?} {b:?}: residual {r}, expected {want}"));
            c.check((r - ri).abs() <= 1e-12 * sc, "symmetric", || format!("{g:?} bearings {a:?} {b:?}: residual {r}, other way {ri}"));
            c.check((r3 - 3.0 * r).abs() <= 1e-11 * sc, "homogeneous", || format!("{g:?} bearings {a:?} {b:?}: residual {r}, of -3 E {r3}"));
            if errs[ix[2]] == 0.0 && errs[ix[3]] == 0.0 {
                c.class("consistent");
                c.check(r <= 1e-12 * sc, "consistent", || format!("{g:?} point {p:?}: residual {r}"));
            } else {
                c.class("inconsistent");
            }
            c.outcome(&[r]);
            c.sample(|| format!("{g:?} bearings {a:?} {b:?} -> {r}"));
        },
    );
}
