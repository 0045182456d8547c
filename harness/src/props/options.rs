//! G06: options of triangulators and solvers are independent, and a limit on iterations never yields a wrong result.
use super::geom::points;
use super::core_models::small_poses;
use crate::engine::*;
use crate::na::*;
use crate::refm::*;
use cv_core::sample_consensus::Estimator;
use cv_core::*;
use cv_geom::triangulation::*;
use eight_point::EightPoint;
use lambda_twist::LambdaTwist;
use nister_stewenius::NisterStewenius;

const EPS: [f64; 3] = [1e-12, 1e-6, 0.5];
const ITS: [usize; 3] = [1, 100, 1000];
const RATE: [f64; 3] = [0.0, 0.01, 1e-6];

/// What is set: nothing or one of three values per option.
type Set = [usize; 3];

/// Something with up to three options.
trait Options: Copy + Send + Sync {
    fn new() -> Self;
    fn count() -> usize;
    fn set(self, option: usize, value: usize) -> Self;
    fn same(&self, other: &Self) -> bool;
}
impl Options for LinearEigenTriangulator {
    fn new() -> Self {
        Self::new()
    }
    fn count() -> usize {
        2
    }
    fn set(self, o: usize, v: usize) -> Self {
        if o == 0 { self.epsilon(EPS[v]) } else { self.max_iterations(ITS[v]) }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Options for RelativeDltTriangulator {
    fn new() -> Self {
        Self::new()
    }
    fn count() -> usize {
        2
    }
    fn set(self, o: usize, v: usize) -> Self {
        if o == 0 { self.epsilon(EPS[v]) } else { self.max_iterations(ITS[v]) }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Options for SineL1Triangulator {
    fn new() -> Self {
        Self::new()
    }
    fn count() -> usize {
        3
    }
    fn set(self, o: usize, v: usize) -> Self {
        match o {
            0 => self.epsilon(EPS[v]),
            1 => self.max_iterations(ITS[v]),
            _ => self.optimization_rate(RATE[v]),
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Options for LambdaTwist {
    fn new() -> Self {
        Self::new()
    }
    fn count() -> usize {
        3
    }
    fn set(self, o: usize, v: usize) -> Self {
        match o {
            0 => self.rotation_convergence_epsilon(EPS[v]),
            1 => self.rotation_convergence_iterations(ITS[v] + 1),
            _ => self.gauss_newton_iterations(ITS[v]),
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

struct Sys<T>(std::marker::PhantomData<fn() -> T>);
impl<T: Options> Sys<T> {
    /// Every option set at most once, in a fixed order.
    fn canonical(s: &Set) -> T {
        (0..T::count()).fold(T::new(), |t, o| if s[o] > 0 { t.set(o, s[o] - 1) } else { t })
    }
}
impl<T: Options> System for Sys<T> {
    type S = (Set, T);
    fn init(&self) -> Vec<(Set, T)> {
        vec![([0; 3], T::new())]
    }
    fn actions(&self) -> usize {
        T::count() * 3
    }
    fn step(&self, (s, t): &(Set, T), a: usize, _: &mut Case) -> Option<(Set, T)> {
        let mut s = *s;
        s[a / 3] = a % 3 + 1;
        Some((s, t.set(a / 3, a % 3)))
    }
    fn inspect(&self, (s, t): &(Set, T), c: &mut Case) {
        c.check(t.same(&Self::canonical(s)), "independent", || format!("options set to {s:?} in some order differ from the same options set in order"));
        for i in 0..64 {
            let o = [i % 4, i / 4 % 4, i / 16];
            if (T::count()..3).any(|k| o[k] > 0) {
                continue;
            }
            if (0..3).any(|k| s[k] > 0 && o[k] > 0 && s[k] != o[k]) {
                c.check(!t.same(&Self::canonical(&o)), "kept", || format!("options {s:?} are no different from {o:?}"));
            }
        }
    }
    fn key(&self, s: &(Set, T)) -> u128 {
        key128(&s.0)
    }
}

fn lambda_fields(run: &Run) {
    run.grid("pose solver", &[("epsilon", 4), ("rotation iterations", 4), ("refinements", 4), ("order", 6)], |ix, c| {
        let d = LambdaTwist::new();
        let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][ix[3]];
        let mut t = d;
        for o in order {
            if ix[o] > 0 {
                t = t.set(o, ix[o] - 1);
            }
        }
        c.step();
        let e = if ix[0] > 0 { EPS[ix[0] - 1] } else { d.rotation_convergence_epsilon };
        let i = if ix[1] > 0 { ITS[ix[1] - 1] + 1 } else { d.rotation_convergence_iterations };
        let g = if ix[2] > 0 { ITS[ix[2] - 1] } else { d.gauss_newton_iterations };
        let ok = t.rotation_convergence_epsilon == e && t.rotation_convergence_iterations == i && t.gauss_newton_iterations == g;
        c.check(ok, "fields", || format!("{t:?} after setting {e}, {i}, {g}"));
        c.outcome(&[e, i as f64, g as f64]);
    });
}

/// Camera points and relative poses whose samples determine what is asked for well.
fn samples() -> Vec<V3> {
    vec![
        [0.31, -0.52, 2.11],
        [-1.17, 0.43, 3.07],
        [0.83, 0.94, 4.9],
        [-0.61, -0.88, 1.73],
        [1.42, -0.27, 6.1],
        [0.12, 0.71, 2.64],
        [-2.2, 1.6, 8.3],
        [0.47, -1.33, 3.58],
        [-0.09, 0.05, 1.2],
        [1.9, 1.1, 2.9],
    ]
}

pub fn g06(run: &Run) {
    run.bfs("linear triangulator", &Sys::<LinearEigenTriangulator>(Default::default()), 6, 100_000);
    run.bfs("direct triangulator", &Sys::<RelativeDltTriangulator>(Default::default()), 6, 100_000);
    run.bfs("refining triangulator", &Sys::<SineL1Triangulator>(Default::default()), 6, 100_000);
    run.bfs("pose solver options", &Sys::<LambdaTwist>(Default::default()), 6, 100_000);
    lambda_fields(run);

    let poses = small_poses(run);
    let pts = points(run);
    let limits = [1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 20, 100];
    run.grid("limited triangulation", &[("method", 2), ("limit", limits.len()), ("pose", poses.len()), ("point", pts.len())], |ix, c| {
        let (g, p) = (poses[ix[2]], pts[ix[3]]);
        let q = g.act(p);
        let ctr = g.centre();
        let par = angle(p, sub(p, ctr));
        if par < 0.03 || par > std::f64::consts::PI - 0.03 || norm(q) < 0.05 * norm(ctr).max(1.0) || (ix[0] == 1 && unit(p)[2].abs().min(unit(q)[2].abs()) < 0.05) {
            return;
        }
        let rel = CameraToCamera(niso(&g));
        let n = limits[ix[1]];
        let r = match ix[0] {
            0 => LinearEigenTriangulator::new().max_iterations(n).triangulate_relative(rel, uv(p), uv(q)),
            _ => RelativeDltTriangulator::new().max_iterations(n).triangulate_relative(rel, uv(p), uv(q)),
        };
        c.step();
        let Some(h) = r.map(|r| a4(r.homogeneous())) else {
            c.check(n < 100, "refused", || format!("method {} {g:?}: point {p:?} not triangulated within {n} iterations", ix[0]));
            c.class("none");
            return;
        };
        let e = vdiff([h[0] / h[3], h[1] / h[3], h[2] / h[3]], p) / norm(p).max(norm(q)).max(norm(ctr));
        let cond = norm(p).max(norm(q)).max(norm(ctr)) / norm(p).min(norm(q)).min(norm(ctr)).max(1e-3);
        let tol = 2e-9 * cond * cond / (par.sin() * par.sin());
        c.check(e <= tol, "wrong", || format!("method {} {g:?}: point {p:?} triangulated within {n} iterations as {h:?} (off by {e:e}, allowed {tol:e})", ix[0]));
        c.class("found");
        c.outcome(&[h[0], h[1], h[2], n as f64]);
    });
    // Without steps or with steps of no length, the refining triangulator gives what it starts from.
    let offs = [-0.02, 0.0, 0.03];
    run.grid("no refinement", &[("how", 3), ("pose", poses.len()), ("point", pts.len()), ("noise", 9)], |ix, c| {
        let (g, p) = (poses[ix[1]], pts[ix[2]]);
        let q = g.act(p);
        let (a, b) = (uv(add(unit(p), [offs[ix[3] % 3], 0.0, 0.0])), uv(add(unit(q), [0.0, offs[ix[3] / 3], 0.0])));
        // Where nearly parallel lines of sight meet is decided by rounding.
        if angle(au(&a), g.inv().rotate(au(&b))).sin() < 1e-4 {
            c.class("undetermined");
            return;
        }
        let rel = CameraToCamera(niso(&g));
        let want = LinearEigenTriangulator::new().triangulate_relative(rel, a, b);
        let t = SineL1Triangulator::new();
        let got = match ix[0] {
            0 => t.optimization_rate(0.0),
            1 => t.max_iterations(0),
            _ => t.optimization_rate(0.0).epsilon(1e-13).max_iterations(500),
        }
        .triangulate_relative(rel, a, b);
        c.steps(2);
        let (x, y) = (want.map(|w| a4(w.homogeneous())), got.map(|w| a4(w.homogeneous())));
        let same = match (x, y) {
            (None, None) => true,
            (Some(x), Some(y)) => {
                let size = x.iter().fold(0.0, |m: f64, v| m.max(v.abs()));
                (0..4).all(|i| (x[i] - y[i]).abs() < 1e-6 * size)
            }
            (Some(x), None) | (None, Some(x)) => {
                // The side of a bearing that is nearly perpendicular to the point is decided by rounding.
                let h = [x[0], x[1], x[2]];
                let s = add(g.rotate(h), mul(g.t, x[3]));
                let edge = dot(unit(h), au(&a)).abs().min(dot(unit(s), au(&b)).abs());
                edge < 1e-6 || norm(s) < 1e-6
            }
        };
        c.check(same, "start", || format!("{g:?} bearings {a:?} {b:?}: {y:?} without refinement, {x:?} by the linear method"));
        c.class(if x.is_some() { "point" } else { "no point" });
        c.outcome(&[x.map_or(0.0, |x| x[0])]);
    });
    // Exact observations are kept by a step of any length.
    run.grid("rates", &[("rate", 6), ("pose", poses.len()), ("point", pts.len())], |ix, c| {
        let (g, p) = (poses[ix[1]], pts[ix[2]]);
        let q = g.act(p);
        let ctr = g.centre();
        let par = angle(p, sub(p, ctr));
        if par < 0.03 || par > std::f64::consts::PI - 0.03 || norm(q) < 0.05 * norm(ctr).max(1.0) {
            return;
        }
        let rate = [0.001, 0.01, 0.1, 0.3, 0.7, 1.0][ix[0]];
        let r = SineL1Triangulator::new().optimization_rate(rate).triangulate_relative(CameraToCamera(niso(&g)), uv(p), uv(q));
        c.step();
        let Some(h) = r.map(|r| a4(r.homogeneous())) else {
            c.check(false, "refused", || format!("{g:?}: point {p:?} not triangulated at the rate {rate}"));
            return;
        };
        let e = vdiff([h[0] / h[3], h[1] / h[3], h[2] / h[3]], p) / norm(p).max(norm(q)).max(norm(ctr));
        let cond = norm(p).max(norm(q)).max(norm(ctr)) / norm(p).min(norm(q)).min(norm(ctr)).max(1e-3);
        let tol = 5e-9 * cond * cond / (par.sin() * par.sin());
        c.check(e <= tol, "moved", || format!("{g:?}: point {p:?} triangulated at the rate {rate} as {h:?} (off by {e:e}, allowed {tol:e})"));
        c.outcome(&[h[0], rate]);
    });
    // Three points: more refinement never reproduces them worse, and the rotation's convergence does not matter.
    let cloud = samples();
    let n = cloud.len();
    let gs = poses.len();
    run.grid("pose refinement", &[("pose", gs), ("first", n), ("second", n), ("third", n)], |ix, c| {
        if ix[1] >= ix[2] || ix[2] >= ix[3] || (!run.thorough() && (ix[0] + ix[1] + ix[2] + ix[3]) % 3 != 0) {
            return;
        }
        let g = poses[ix[0]];
        let q = [cloud[ix[1]], cloud[ix[2]], cloud[ix[3]]];
        let inv = g.inv();
        let w = q.map(|q| inv.act(q));
        let solve = |t: LambdaTwist| -> Vec<Rigid> { t.estimate((0..3).map(|i| FeatureWorldMatch(uv(q[i]), wpoint(w[i])))).iter().map(|p| aiso(&p.0)).collect() };
        let err = |s: &Rigid| (0..3).map(|i| vdiff(unit(s.act(w[i])), unit(q[i]))).fold(0.0, f64::max);
        let base = solve(LambdaTwist::new());
        c.step();
        for s in &base {
            let mut last = f64::INFINITY;
            for k in [1, 2, 3, 5, 20] {
                let t = solve(LambdaTwist::new().gauss_newton_iterations(k));
                c.step();
                if let Some(u) = t.iter().find(|u| rot_dist(&u.r, &s.r) < 1e-3) {
                    let e = err(u);
                    c.check(e <= last * 10.0 + 1e-11, "worse", || format!("{g:?} {q:?}: {k} refinements reproduce the samples up to {e:e}, fewer up to {last:e}"));
                    last = e;
                }
            }
        }
        for t in [LambdaTwist::new().rotation_convergence_iterations(5), LambdaTwist::new().rotation_convergence_epsilon(1e-9), LambdaTwist::new().rotation_convergence_iterations(1000).rotation_convergence_epsilon(1e-15)] {
            let o = solve(t);
            c.step();
            let same = o.len() == base.len() && o.iter().zip(&base).all(|(x, y)| rot_dist(&x.r, &y.r) < 1e-7 && vdiff(x.t, y.t) < 1e-6 * norm(y.t).max(1.0));
            c.check(same, "rotation", || format!("{g:?} {q:?} with {t:?}: {o:?} instead of {base:?}"));
        }
        c.outcome(&[base.len() as f64]);
    });
    // Relative poses: a limit loses hypotheses but adds none.
    run.grid("limited relative pose", &[("limit", limits.len()), ("pose", gs), ("sample", 30)], |ix, c| {
        let g = poses[ix[1]];
        let pick = |k: usize| -> Vec<FeatureMatch> {
            (0..k).map(|i| cloud[(ix[2] + i * [1, 3, 7][ix[2] % 3]) % n]).map(|p| FeatureMatch(uv(p), uv(g.act(p)))).collect()
        };
        let lim = limits[ix[0]];
        let near = |x: &Rigid, l: &[Rigid], tol: f64| l.iter().any(|y| rot_dist(&x.r, &y.r).max(vdiff(unit(x.t), unit(y.t))) < tol);
        let e8 = |t: EightPoint| t.estimate(pick(8).into_iter()).iter().map(|p| aiso(&p.0)).collect::<Vec<_>>();
        let (full, some) = (e8(EightPoint::new()), e8(EightPoint { iterations: lim, ..EightPoint::new() }));
        c.steps(2);
        let ok = some.iter().all(|s| near(s, &full, 1e-6)) && (lim < 100 || some.len() == full.len());
        c.check(ok, "eight", || format!("{g:?} within {lim} iterations: {some:?} instead of {full:?}"));
        let e5 = |t: NisterStewenius| t.estimate(pick(5).into_iter()).iter().map(|p| aiso(&p.0)).collect::<Vec<_>>();
        let (full, some) = (e5(NisterStewenius::new()), e5(NisterStewenius { iterations: lim, ..NisterStewenius::new() }));
        c.steps(2);
        let ok = some.iter().all(|s| near(s, &full, 1e-6)) && (lim < 100 || some.len() == full.len());
        c.check(ok, "five", || format!("{g:?} within {lim} iterations: {some:?} instead of {full:?}"));
        c.class(if some.is_empty() { "none" } else { "some" });
        c.outcome(&[full.len() as f64, some.len() as f64]);
    });
}
