//! C02 (rigid-motion algebra as a transition system) and C05 (pose Jacobians).
use crate::engine::*;
use crate::na::*;
use crate::refm::*;
use cv_core::nalgebra::IsometryMatrix3;
use cv_core::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    W2C,
    C2W,
    C2C,
    W2W,
}
pub const KINDS: [Kind; 4] = [Kind::W2C, Kind::C2W, Kind::C2C, Kind::W2W];

macro_rules! with_kind {
    ($k:expr, $iso:expr, |$p:ident| $body:expr) => {
        match $k {
            Kind::W2C => {
                let $p = WorldToCamera($iso);
                $body
            }
            Kind::C2W => {
                let $p = CameraToWorld($iso);
                $body
            }
            Kind::C2C => {
                let $p = CameraToCamera($iso);
                $body
            }
            Kind::W2W => {
                let $p = WorldToWorld($iso);
                $body
            }
        }
    };
}

/// Homogeneous probe points: ordinary, near, far and at infinity.
fn probes() -> Vec<[f64; 4]> {
    let mut v = vec![];
    for p in [
        [1.0, 0.0, 0.0],
        [0.0, 2.0, 0.0],
        [0.0, 0.0, 3.0],
        [1.0, -2.0, 0.5],
        [-0.3, 0.7, -4.0],
        [1e-3, 2e-3, -1e-3],
        [1e5, -3e5, 2e5],
    ] {
        v.push([p[0], p[1], p[2], 1.0]);
    }
    for d in [
        [0.0, 0.0, 1.0],
        [-1.0, 2.0, 0.5],
        [1.0, 0.0, 0.0],
        [-0.2, -0.3, -0.9],
    ] {
        v.push([d[0], d[1], d[2], 0.0]);
    }
    v
}

/// Expected normalised homogeneous output of a rigid motion, from the reference model.
fn expect_out(g: &Rigid, v: [f64; 4]) -> Option<([f64; 3], f64)> {
    let n = norm([v[0], v[1], v[2]]);
    let (x, w) = ([v[0] / n, v[1] / n, v[2] / n], v[3] / n);
    let y = add(g.rotate(x), mul(g.t, w));
    let m = norm(y);
    if m < 1e-6 * (1.0 + norm(g.t) * w) {
        return None; // the image is (numerically) the optical centre: no bearing
    }
    Some((mul(y, 1.0 / m), w / m))
}

fn check_out<P: Projective>(
    p: P,
    want: ([f64; 3], f64),
    key: &str,
    c: &mut Case,
    what: impl Fn() -> String,
) {
    let h = a4(p.homogeneous());
    let ok = vdiff([h[0], h[1], h[2]], want.0) < 1e-12
        && (h[3] - want.1).abs() <= 1e-12 * want.1.max(1e-12)
        && h[3] >= 0.0;
    c.check(ok, key, || {
        format!("{}: got {h:?}, expected {want:?}", what())
    });
}

fn inspect_pose<P: Pose>(p: P, g: &Rigid, kind: Kind, c: &mut Case)
where
    <P::Inverse as Pose>::InputPoint: Projective,
{
    let id = aiso(&P::identity().isometry());
    c.check(id == Rigid::ID, "identity", || {
        format!("{kind:?} identity is {id:?}")
    });
    let got = aiso(&p.isometry());
    c.check(
        mdiff(&got.r, &g.r) < 1e-12 && vdiff(got.t, g.t) < 1e-12 * (1.0 + norm(g.t)),
        "isometry",
        || format!("{kind:?} pose is {got:?}, reference {g:?}"),
    );
    c.check(orth_err(&got.r) < 1e-12, "proper", || {
        format!("{kind:?} rotation is not a proper rotation: {:?}", got.r)
    });
    let m = p.homogeneous();
    let mut ok = true;
    for i in 0..3 {
        for j in 0..3 {
            ok &= (m[(i, j)] - g.r[i][j]).abs() < 1e-12;
        }
        ok &= (m[(i, 3)] - g.t[i]).abs() < 1e-12 * (1.0 + norm(g.t));
        ok &= m[(3, i)] == 0.0;
    }
    ok &= m[(3, 3)] == 1.0;
    c.check(ok, "homogeneous", || {
        format!("{kind:?} homogeneous matrix {m} for {g:?}")
    });
    for v in probes() {
        let x = P::InputPoint::from_homogeneous(h4(v));
        let Some(want) = expect_out(g, v) else {
            c.class("probe-at-centre");
            continue;
        };
        c.class(if v[3] == 0.0 {
            "probe-infinity"
        } else {
            "probe-finite"
        });
        let y = p.transform(x);
        c.steps(4);
        let what = || format!("{kind:?} {g:?} applied to {v:?}");
        check_out(y, want, "transform", c, what);
        let (y1, _, _) = p.transform_jacobians(x);
        let (y2, _) = p.transform_jacobian_input(x);
        let (y3, _) = p.transform_jacobian_self(x);
        check_out(y1, want, "transform-jacobians-point", c, what);
        check_out(y2, want, "transform-jacobian-input-point", c, what);
        check_out(y3, want, "transform-jacobian-self-point", c, what);
        // The inverse pose leads back to the original point.
        let back = p
            .inverse()
            .transform(<P::Inverse as Pose>::InputPoint::from_homogeneous(
                y.homogeneous(),
            ));
        let n = norm([v[0], v[1], v[2]]);
        let h = a4(back.homogeneous());
        let cond = (1.0 + want.1 * norm(g.t))
            / (want.1.max(1e-30) / (v[3] / n).max(1e-30))
                .min(1.0)
                .max(1e-12);
        let ok = (0..3).all(|i| (h[i] - v[i] / n).abs() < 1e-12 * cond.max(1.0))
            && (h[3] - v[3] / n).abs() <= 1e-12 * cond.max(1.0) * (v[3] / n).max(1e-12);
        c.check(ok, "inverse-roundtrip", || {
            format!("{kind:?} {g:?}: inverse(transform({v:?})) = {h:?}")
        });
        c.outcome(&want.0);
    }
}

#[derive(Clone)]
pub struct St {
    kind: Kind,
    iso: IsometryMatrix3<f64>,
    g: Rigid,
}

struct PoseAlgebra {
    anchors: Vec<Rigid>,
    gens: Vec<(V3, V3)>, // (translation, rotation vector, quarter turns)
    box_: f64,
}

impl PoseAlgebra {
    fn new(box_: f64) -> Self {
        let q = std::f64::consts::FRAC_PI_2;
        let mut gens = vec![];
        for i in 0..3 {
            let mut e = [0.0; 3];
            e[i] = 1.0;
            let mut s = [0.0; 3];
            s[(i + 1) % 3] = 1.0;
            gens.push(([0.0; 3], mul(e, q)));
            gens.push((s, [0.0; 3]));
            gens.push((mul(s, -1.0), mul(e, -q)));
            gens.push((e, mul(s, 2.0 * q)));
        }
        let cube = cube24();
        let anchors = vec![
            Rigid {
                r: cube[7],
                t: [1.0, -1.0, 2.0],
            },
            Rigid {
                r: cube[14],
                t: [0.0, 0.0, -1.0],
            },
        ];
        PoseAlgebra {
            anchors,
            gens,
            box_,
        }
    }
    /// Exact image of a quarter-turn generator.
    fn gen_rigid(&self, i: usize) -> Rigid {
        let (t, w) = self.gens[i];
        let r = exp_so3(w);
        let mut e = r;
        for row in e.iter_mut() {
            for x in row.iter_mut() {
                *x = x.round();
            }
        }
        Rigid { r: e, t: mv(&e, t) }
    }
}

const FIXED: usize = 10;

impl System for PoseAlgebra {
    type S = St;
    fn init(&self) -> Vec<St> {
        KINDS
            .iter()
            .map(|&kind| St {
                kind,
                iso: with_kind!(kind, IsometryMatrix3::identity(), |p| p.isometry()),
                g: Rigid::ID,
            })
            .collect()
    }
    fn actions(&self) -> usize {
        FIXED + self.gens.len() + 2 * self.anchors.len()
    }
    fn step(&self, s: &St, a: usize, c: &mut Case) -> Option<St> {
        let scale = |k: f64| -> St {
            let iso = with_kind!(s.kind, s.iso, |p| p.scale(k).isometry());
            St {
                kind: s.kind,
                iso,
                g: Rigid {
                    r: s.g.r,
                    t: mul(s.g.t, k),
                },
            }
        };
        let n = match a {
            0 => {
                let (kind, iso) = match s.kind {
                    Kind::W2C => (Kind::C2W, WorldToCamera(s.iso).inverse().isometry()),
                    Kind::C2W => (Kind::W2C, CameraToWorld(s.iso).inverse().isometry()),
                    Kind::C2C => (Kind::C2C, CameraToCamera(s.iso).inverse().isometry()),
                    Kind::W2W => (Kind::W2W, WorldToWorld(s.iso).inverse().isometry()),
                };
                St {
                    kind,
                    iso,
                    g: s.g.inv(),
                }
            }
            1 => scale(2.0),
            2 => scale(0.5),
            3 => scale(-1.0),
            4 => {
                // logarithm then exponential
                fn rt<P: Pose>(p: P) -> IsometryMatrix3<f64> {
                    P::from_se3(p.se3()).isometry()
                }
                let iso = with_kind!(s.kind, s.iso, |p| rt(p));
                St { iso, ..s.clone() }
            }
            5 => {
                // through the homogeneous matrix and explicit parts
                fn rt<P: Pose>(p: P) -> IsometryMatrix3<f64> {
                    let m = p.homogeneous();
                    let mut r = I3;
                    for i in 0..3 {
                        for j in 0..3 {
                            r[i][j] = m[(i, j)];
                        }
                    }
                    P::from_parts(nv([m[(0, 3)], m[(1, 3)], m[(2, 3)]]), nr(&r)).isometry()
                }
                let iso = with_kind!(s.kind, s.iso, |p| rt(p));
                St { iso, ..s.clone() }
            }
            6..=9 => {
                // conversion between kinds through the isometry
                let kind = KINDS[a - 6];
                let iso: IsometryMatrix3<f64> = with_kind!(s.kind, s.iso, |p| p.into());
                let iso = match kind {
                    Kind::W2C => WorldToCamera::from(iso).isometry(),
                    Kind::C2W => CameraToWorld::from(iso).isometry(),
                    Kind::C2C => CameraToCamera::from(iso).isometry(),
                    Kind::W2W => WorldToWorld::from(iso).isometry(),
                };
                St { kind, iso, g: s.g }
            }
            _ if a < FIXED + self.gens.len() => {
                // append a tangent-space step to the pose, as the optimizers do
                let i = a - FIXED;
                let (t, w) = self.gens[i];
                let step = Se3TangentSpace::new(nv(t), nv(w)).isometry();
                let iso = with_kind!(s.kind, s.iso, |p| step * p.isometry());
                St {
                    kind: s.kind,
                    iso,
                    g: self.gen_rigid(i).after(&s.g),
                }
            }
            _ => {
                // change of reconstruction: the same camera seen from two worlds
                let k = a - FIXED - self.gens.len();
                if s.kind != Kind::W2C {
                    return None;
                }
                let other = self.anchors[k / 2];
                let me = WorldToCamera(s.iso);
                let ow = WorldToCamera(niso(&other));
                let (iso, g) = if k % 2 == 0 {
                    (
                        WorldToWorld::from_camera_poses(me, ow).isometry(),
                        other.inv().after(&s.g),
                    )
                } else {
                    (
                        WorldToWorld::from_camera_poses(ow, me).isometry(),
                        s.g.inv().after(&other),
                    )
                };
                St {
                    kind: Kind::W2W,
                    iso,
                    g,
                }
            }
        };
        if n.g
            .t
            .iter()
            .any(|x| x.abs() > self.box_ || (x * 4.0).fract() != 0.0)
        {
            return None;
        }
        let got = aiso(&n.iso);
        let names = [
            "inverse",
            "scale2",
            "scale.5",
            "scale-1",
            "se3-roundtrip",
            "parts-roundtrip",
            "to-w2c",
            "to-c2w",
            "to-c2c",
            "to-w2w",
        ];
        let name = if a < FIXED {
            names[a]
        } else if a < FIXED + self.gens.len() {
            "append-step"
        } else {
            "from-camera-poses"
        };
        c.class(name);
        c.check(
            mdiff(&got.r, &n.g.r) < 1e-9 && vdiff(got.t, n.g.t) < 1e-9,
            name,
            || {
                format!(
                    "{:?} pose {:?}, action {name}: result {got:?}, exact reference {:?}",
                    s.kind, s.g, n.g
                )
            },
        );
        Some(n)
    }
    fn inspect(&self, s: &St, c: &mut Case) {
        with_kind!(s.kind, s.iso, |p| inspect_pose(p, &s.g, s.kind, c));
        c.sample(|| format!("{:?} {:?}", s.kind, s.g));
    }
    fn key(&self, s: &St) -> u128 {
        let q: Vec<i64> =
            s.g.r
                .iter()
                .flatten()
                .chain(s.g.t.iter())
                .map(|x| (x * 16.0).round() as i64)
                .collect();
        key128(&(s.kind, q))
    }
}

/// Poses on an axis/angle/translation lattice.
pub fn pose_lattice(run: &Run) -> Vec<Rigid> {
    let mut axes = dirs26();
    axes.extend(dirs_generic());
    let pi = std::f64::consts::PI;
    let angs: Vec<f64> = run.pick(
        vec![0.0, 1e-9, 1e-3, 0.4, pi / 2.0, 2.5, pi - 1e-6],
        vec![
            0.0,
            1e-12,
            1e-9,
            1e-6,
            1e-3,
            0.1,
            0.4,
            1.0,
            pi / 2.0,
            2.0,
            2.5,
            3.0,
            pi - 1e-6,
            pi,
        ],
    );
    let ts: Vec<V3> = vec![
        [0.0; 3],
        [1.0, 0.0, 0.0],
        [-0.3, 0.7, 2.0],
        [1e-6, -2e-6, 1e-6],
        [1e4, 2e4, -5e3],
        [0.0, -1.0, 0.0],
        [0.0, 0.0, 1.5],
    ];
    let mut out = vec![];
    for a in &axes {
        for &th in &angs {
            for &t in &ts {
                out.push(Rigid { r: rot(*a, th), t });
            }
        }
    }
    out
}

pub fn c02(run: &Run) {
    let sys = PoseAlgebra::new(run.pick(2.0, 4.0));
    run.bfs(
        "pose-words",
        &sys,
        run.pick(5, 9),
        run.pick(400_000, 4_000_000),
    );
    let poses = pose_lattice(run);
    run.grid(
        "pose-lattice",
        &[("pose", poses.len()), ("kind", 4)],
        |ix, c| {
            let g = poses[ix[0]];
            let kind = KINDS[ix[1]];
            with_kind!(kind, niso(&g), |p| inspect_pose(p, &g, kind, c));
            with_kind!(kind, niso(&g), |p| {
                fn rt<P: Pose>(p: P) -> (Rigid, [f64; 6], Rigid) {
                    let s = p.se3();
                    let q = P::from_se3(s);
                    let f = P::from_parts(p.isometry().translation.vector, p.isometry().rotation);
                    (
                        aiso(&q.isometry()),
                        [s[0], s[1], s[2], s[3], s[4], s[5]],
                        aiso(&f.isometry()),
                    )
                }
                let (q, s, f) = rt(p);
                c.steps(2);
                c.check(
                    mdiff(&q.r, &g.r) < 1e-9 && vdiff(q.t, g.t) <= 1e-12 * norm(g.t),
                    "se3-roundtrip",
                    || format!("{kind:?} {g:?}: from_se3(se3()) = {q:?} (se3 = {s:?})"),
                );
                c.check(
                    vdiff([s[0], s[1], s[2]], g.t) == 0.0,
                    "se3-translation",
                    || format!("{kind:?} {g:?}: se3 = {s:?}"),
                );
                c.check(f == g, "from-parts", || {
                    format!("{kind:?} from_parts = {f:?}, expected {g:?}")
                });
                for k in [0.0, 1.0, -2.5, 1e-3, 1e6] {
                    let q = aiso(&p.scale(k).isometry());
                    c.step();
                    c.check(
                        q.r == g.r && vdiff(q.t, mul(g.t, k)) <= 1e-14 * norm(mul(g.t, k)),
                        "scale",
                        || format!("{kind:?} {g:?} scaled by {k} = {q:?}"),
                    );
                }
            });
        },
    );
    // A pose vector may hold any rotation vector, also of more than a turn.
    let mut axes = dirs26();
    axes.extend(dirs_generic());
    let turns = [0.0, 1e-12, 1e-8, 1e-5, 1e-3, 0.1, 1.0, 2.0, 3.0, 3.1415, 4.0, 5.5, 6.2, 6.4, 8.0, 12.0, 13.0, 20.0, 31.5, 100.0, 1000.0];
    let trs = [[0.0; 3], [0.3, -2.0, 0.5], [-400.0, 0.002, 7.0]];
    run.grid("pose-vectors", &[("axis", axes.len()), ("angle", turns.len()), ("translation", trs.len()), ("kind", 4)], |ix, c| {
        let (axis, th, t) = (unit(axes[ix[0]]), turns[ix[1]], trs[ix[2]]);
        let w = mul(axis, th);
        fn go<P: Pose>(_: P, v: [f64; 6]) -> Rigid {
            aiso(&P::from_se3(cv_core::nalgebra::Vector6::from_row_slice(&v)).isometry())
        }
        let q = with_kind!(KINDS[ix[3]], IsometryMatrix3::identity(), |p| go(p, [t[0], t[1], t[2], w[0], w[1], w[2]]));
        c.step();
        let want = rot(axis, th);
        c.check(q.t == t && mdiff(&q.r, &want) < 1e-13 * (10.0 + th), "from-vector", || {
            format!("from_se3({t:?}, {w:?}) = {q:?}, expected rotation {want:?}")
        });
        c.outcome(&[q.r[0][0], q.r[0][1], q.t[0]]);
    });
    // No unit of length is special.
    let units = [1e-30, 1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9, 1e12, 1e15, 1e30];
    let near = [[1.0, 0.0, 0.0], [0.3, -2.0, 0.5], [-0.3, 0.7, -4.0], [0.0, 0.0, 1.0]];
    run.grid("units", &[("pose", poses.len()), ("kind", 4), ("unit", units.len())], |ix, c| {
        fn go<P: Pose>(p: P, g: &Rigid, near: &[V3], k: f64, c: &mut Case) {
            let s = p.se3();
            let q = aiso(&P::from_se3(s).isometry());
            let i = aiso(&p.inverse().isometry());
            let b = aiso(&p.inverse().inverse().isometry());
            c.steps(4);
            let tol = 1e-14 * norm(g.t);
            c.check([s[0], s[1], s[2]] == g.t && vdiff(q.t, g.t) <= tol, "se3", || format!("{g:?}: se3 {s:?} and back {q:?}"));
            c.check(vdiff(i.t, g.inv().t) <= 4.0 * tol && vdiff(b.t, g.t) <= 4.0 * tol, "inverse", || format!("{g:?}: inverse {i:?} and back {b:?}"));
            for v in near {
                let x = mul(*v, k);
                let y = g.act(x);
                let size = norm(x).max(norm(g.t));
                if norm(y) < 1e-3 * size {
                    continue;
                }
                let h = a4(p.transform(P::InputPoint::from_homogeneous(h4([x[0], x[1], x[2], 1.0]))).homogeneous());
                c.step();
                let e = size / norm(y) * 1e-14;
                let ok = vdiff([h[0], h[1], h[2]], unit(y)) <= e && (h[3] * norm(y) - 1.0).abs() <= e;
                c.check(ok, "transform", || format!("{g:?} takes {x:?} to {h:?} instead of {y:?}"));
            }
            c.outcome(&i.t);
        }
        let k = units[ix[2]];
        let g = Rigid { r: poses[ix[0]].r, t: mul(poses[ix[0]].t, k) };
        with_kind!(KINDS[ix[1]], niso(&g), |p| go(p, &g, &near, k, c));
    });
    // Two worlds sharing a camera, general position.
    let some: Vec<Rigid> = poses.iter().step_by(run.pick(11, 3)).cloned().collect();
    let n = some.len();
    run.grid("worlds", &[("a", n), ("b", n)], |ix, c| {
        let (a, b) = (some[ix[0]], some[ix[1]]);
        let w = aiso(
            &WorldToWorld::from_camera_poses(WorldToCamera(niso(&a)), WorldToCamera(niso(&b)))
                .isometry(),
        );
        c.step();
        let want = b.inv().after(&a);
        let sc = 1.0 + norm(a.t) + norm(b.t);
        c.check(
            mdiff(&w.r, &want.r) < 1e-12 && vdiff(w.t, want.t) < 1e-12 * sc,
            "from-camera-poses",
            || format!("a = {a:?}, b = {b:?}: {w:?} expected {want:?}"),
        );
        c.outcome(&w.t);
    });
}

pub fn c05(run: &Run) {
    let poses = pose_lattice(run);
    let pr = probes();
    run.grid(
        "jacobians",
        &[("pose", poses.len()), ("point", pr.len()), ("kind", 4)],
        |ix, c| {
            let g = poses[ix[0]];
            let v = pr[ix[1]];
            let kind = KINDS[ix[2]];
            let n = norm([v[0], v[1], v[2]]);
            let x = [v[0] / n, v[1] / n, v[2] / n, v[3] / n];
            let rp = g.rotate([x[0], x[1], x[2]]);
            let nrp = hat(mul(rp, -1.0));
            fn get<P: Pose>(p: P, v: [f64; 4]) -> [[[f64; 6]; 4]; 4] {
                let q = P::InputPoint::from_homogeneous(h4(v));
                let (_, ji, js) = p.transform_jacobians(q);
                let (_, ji2) = p.transform_jacobian_input(q);
                let (_, js2) = p.transform_jacobian_self(q);
                let mut o = [[[0.0; 6]; 4]; 4];
                for i in 0..4 {
                    for j in 0..4 {
                        o[0][i][j] = ji[(i, j)];
                        o[1][i][j] = ji2[(i, j)];
                    }
                    for j in 0..6 {
                        o[2][i][j] = js[(i, j)];
                        o[3][i][j] = js2[(i, j)];
                    }
                }
                o
            }
            let j = with_kind!(kind, niso(&g), |p| get(p, v));
            c.steps(3);
            c.class(if v[3] == 0.0 { "infinity" } else { "finite" });
            let sc = 1.0 + norm(g.t);
            for (which, jac) in j.iter().enumerate() {
                for row in 0..4 {
                    let cols = if which < 2 { 4 } else { 6 };
                    for col in 0..cols {
                        let want = if which < 2 {
                            // d(Rx + tw, w)/d(x, w)
                            match (row, col) {
                                (3, 3) => 1.0,
                                (3, _) => 0.0,
                                (_, 3) => g.t[row],
                                _ => g.r[row][col],
                            }
                        } else if row == 3 {
                            0.0 // the weight depends neither on translation nor on rotation
                        } else if col < 3 {
                            if row == col {
                                x[3]
                            } else {
                                0.0
                            }
                        } else {
                            // d(exp(d) R x)/dd at d = 0
                            nrp[row][col - 3]
                        };
                        let got = jac[row][col];
                        let key = [
                            "both-input", "input", "both-pose", "pose",
                        ][which];
                        c.check((got - want).abs() <= 1e-11 * sc, key, || {
                            format!(
                                "{kind:?} {g:?} at {v:?}: {key} jacobian [{row},{col}] = {got}, expected {want}"
                            )
                        });
                    }
                }
            }
            c.outcome(&[rp[0], rp[1], rp[2], x[3]]);
        },
    );
    // The same derivative measured on the implementation: central differences of transform under a left
    // perturbation, compared in euclidean coordinates through the quotient rule.
    let some: Vec<Rigid> = poses
        .iter()
        .filter(|g| norm(g.t) < 10.0)
        .step_by(run.pick(5, 1))
        .cloned()
        .collect();
    run.grid(
        "differences",
        &[("pose", some.len()), ("point", 5), ("coordinate", 10)],
        |ix, c| {
            let g = some[ix[0]];
            let v = pr[ix[1]];
            let k = ix[2];
            let p = WorldToCamera(niso(&g));
            let x = WorldPoint::from_homogeneous(h4(v));
            let (y, ji, js) = p.transform_jacobians(x);
            c.step();
            let hx = a4(x.homogeneous());
            let un = |g: &Rigid, h: [f64; 4]| -> [f64; 3] {
                // euclidean output
                let q = add(g.rotate([h[0], h[1], h[2]]), mul(g.t, h[3]));
                mul(q, 1.0 / h[3])
            };
            let e = 1e-6;
            let eval = |s: f64| -> Option<[f64; 3]> {
                let mut d = [0.0; 6];
                let mut dh = [0.0; 4];
                if k < 6 {
                    d[k] = s * e;
                } else {
                    dh[k - 6] = s * e;
                }
                let pert = if k < 3 {
                    Rigid {
                        r: g.r,
                        t: add(g.t, [d[0], d[1], d[2]]),
                    }
                } else if k < 6 {
                    Rigid {
                        r: mm(&exp_so3([d[3], d[4], d[5]]), &g.r),
                        t: g.t,
                    }
                } else {
                    g
                };
                let q = WorldToCamera(niso(&pert));
                let hh = [hx[0] + dh[0], hx[1] + dh[1], hx[2] + dh[2], hx[3] + dh[3]];
                q.transform(WorldPoint::from_homogeneous(h4(hh)))
                    .point()
                    .map(|p| [p.x, p.y, p.z])
            };
            let (Some(a), Some(b)) = (eval(1.0), eval(-1.0)) else {
                c.check(false, "fd-none", || {
                    "no euclidean output for a finite point".into()
                });
                return;
            };
            c.steps(2);
            let num = mul(sub(a, b), 0.5 / e);
            // analytic through the reported Jacobian and the quotient rule
            let col: [f64; 4] = if k < 6 {
                [js[(0, k)], js[(1, k)], js[(2, k)], js[(3, k)]]
            } else {
                [
                    ji[(0, k - 6)],
                    ji[(1, k - 6)],
                    ji[(2, k - 6)],
                    ji[(3, k - 6)],
                ]
            };
            let yb = un(&g, hx);
            let an = [
                (col[0] - yb[0] * col[3]) / hx[3],
                (col[1] - yb[1] * col[3]) / hx[3],
                (col[2] - yb[2] * col[3]) / hx[3],
            ];
            let sc = 1.0 + norm(an) + norm(yb) / hx[3];
            if hx[3] > 10.0 && k == 9 {
                return;
            }
            c.check(vdiff(num, an) < 1e-4 * sc, "finite-difference", || {
                format!("{g:?} at {v:?}, coordinate {k}: numeric {num:?}, from the jacobian {an:?}")
            });
            let _ = y;
            c.outcome(&an);
        },
    );
}
