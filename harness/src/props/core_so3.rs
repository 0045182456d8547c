//! C03 exponential/logarithm, C04 tangent-space steps, C06 so(3) algebra.
use crate::engine::*;
use crate::na::*;
use crate::refm::*;
use cv_core::nalgebra::{Rotation3, Vector3, Vector6};
use cv_core::*;

const PI: f64 = std::f64::consts::PI;

fn axes(run: &Run) -> Vec<V3> {
    let mut v = dirs26();
    v.extend(dirs_generic());
    // almost axis aligned, which is where branches on the largest diagonal element switch
    for i in 0..3 {
        for e in [1e-3, 1e-8, 1e-12] {
            let mut a = [0.0; 3];
            a[i] = 1.0;
            a[(i + 1) % 3] = e;
            v.push(a);
            a[(i + 2) % 3] = -e;
            v.push(a);
        }
    }
    if run.thorough() {
        for x in lattice(-1.0, 1.0, 9) {
            for y in lattice(-1.0, 1.0, 9) {
                for z in [-0.7, -0.05, 0.05, 0.7] {
                    v.push([x, y, z]);
                }
            }
        }
    }
    v
}

pub fn c03(run: &Run) {
    let ax = axes(run);
    let mut angs = vec![
        0.0,
        1e-300,
        1e-15,
        1e-12,
        1e-9,
        1.4e-8,
        1.49e-8,
        1.5e-8,
        1.6e-8,
        1e-7,
        1e-6,
        1e-5,
        1e-4,
        1e-3,
        0.01,
        0.1,
        0.5,
        1.0,
        PI / 2.0 - 1e-9,
        PI / 2.0,
        1.7,
        2.0,
        2.0 * PI / 3.0,
        2.2,
        2.5,
        3.0,
        3.1,
    ];
    for d in [1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9] {
        angs.push(PI - d);
    }
    let inner = angs.len();
    angs.extend([
        PI,
        PI + 1e-9,
        PI + 1e-6,
        PI + 1e-3,
        3.5,
        4.0,
        5.0,
        6.0,
        2.0 * PI - 1e-6,
        2.0 * PI,
        7.0,
        10.0,
        100.0,
    ]);
    if run.thorough() {
        // dense angles inside (0, pi) go in front so the unique-logarithm range stays a prefix
        let mut d: Vec<f64> = (1..400).map(|i| PI * i as f64 / 400.0).collect();
        d.extend(angs.iter().cloned());
        angs = d;
    }
    let inner = if run.thorough() { inner + 399 } else { inner };
    run.grid("exp-log", &[("axis", ax.len()), ("angle", angs.len())], |ix, c| {
        let th = angs[ix[1]];
        let w = mul(unit(ax[ix[0]]), th);
        let want = exp_so3(w);
        let s = Skew3(nv(w));
        let r: Rotation3<f64> = s.into();
        let r2 = s.rotation();
        c.steps(3);
        let m = ar(&r);
        c.check(ar(&r2) == m, "rotation()", || format!("rotation() differs from the conversion for {w:?}"));
        c.check(orth_err(&m) < 1e-12, "exp-proper", || format!("exp({w:?}) = {m:?} is not a rotation"));
        c.check(mdiff(&m, &want) < 1e-12 * (1.0 + th), "exp", || {
            format!("exp({w:?}) = {m:?}, expected {want:?}")
        });
        let back: Skew3 = r.into();
        let l = av(&back.0);
        c.check(norm(l) <= PI + 1e-9, "log-range", || format!("log has length {} for {w:?}", norm(l)));
        c.check(mdiff(&exp_so3(l), &m) < 1e-9, "exp-of-log", || {
            format!("rotation vector {w:?}: log returned {l:?}, which is a different rotation (angle between them {:e})", rot_dist(&exp_so3(l), &m))
        });
        if ix[1] < inner {
            c.class("unique-log");
            // the logarithm is unique here, and small vectors keep their relative precision
            let tol = 1e-9f64.min(1e-14 + 1e-6 * th).max(1e-14);
            c.check(vdiff(l, w) < tol, "log-of-exp", || {
                format!("log(exp({w:?})) = {l:?} (error {:e})", vdiff(l, w))
            });
        } else {
            c.class("wrapped");
        }
        c.outcome(&l);
        c.sample(|| format!("w = {w:?} -> log(exp(w)) = {l:?}"));
        // through the pose representation
        let p = WorldToCamera::from_se3(Vector6::new(1.0, 2.0, 3.0, w[0], w[1], w[2]));
        let g = aiso(&p.isometry());
        c.check(mdiff(&g.r, &want) < 1e-12 * (1.0 + th) && g.t == [1.0, 2.0, 3.0], "from-se3", || {
            format!("from_se3 with rotation {w:?} gives {g:?}")
        });
        // the small-angle shortcut, on its declared domain
        if th <= 1e-3 {
            c.class("small");
            let rs = ar(&s.rotation_small());
            c.step();
            c.check(orth_err(&rs) < 1e-12 && mdiff(&rs, &want) <= 1e-15 + th * th, "rotation-small", || {
                format!("rotation_small({w:?}) = {rs:?}, expected {want:?}")
            });
        }
    });
    // Exact half turns (the logarithm is two-valued there but must exist), then perturbed ones.
    let eps = [0.0, 1e-15, 1e-12, 1e-10, 1e-8, 1e-7, 1e-6, 1e-4];
    let n = ax.len();
    run.grid("half-turns", &[("axis", n), ("perturbation", eps.len()), ("about", 6)], |ix, c| {
        let mut d = [0.0; 3];
        d[ix[2] % 3] = if ix[2] < 3 { eps[ix[1]] } else { -eps[ix[1]] };
        let m = mm(&exp_so3(d), &half_turn(ax[ix[0]]));
        let l = av(&Skew3::from(nr(&m)).0);
        c.steps(2);
        c.check(norm(l) <= PI + 1e-9 && norm(l) > PI - 1.1 * eps[ix[1]].max(1e-9), "angle", || {
            format!("half turn about {:?} perturbed by {d:?}: log = {l:?}", ax[ix[0]])
        });
        let e = ar(&Skew3(nv(l)).rotation());
        c.check(mdiff(&e, &m) < 1e-9, "exp-of-log", || {
            format!(
                "half turn about {:?} perturbed by {d:?}: exp(log(R)) differs from R by {:e} (log = {l:?})",
                ax[ix[0]],
                rot_dist(&e, &m)
            )
        });
        c.class("half-turn");
        c.outcome(&l);
    });
    // All products of two cube rotations and a lattice rotation.
    let cube = cube24();
    run.grid("cube", &[("a", 24), ("axis", n), ("angle", 6)], |ix, c| {
        let th = [0.0, 1e-9, 1e-4, 0.3, PI / 2.0, PI][ix[2]];
        let m = mm(&cube[ix[0]], &rot(ax[ix[1]], th));
        let l = av(&Skew3::from(nr(&m)).0);
        let e = ar(&Skew3(nv(l)).rotation());
        c.steps(2);
        c.check(
            mdiff(&e, &m) < 1e-9 && norm(l) <= PI + 1e-9,
            "exp-of-log",
            || {
                format!(
                    "R = {m:?}: log = {l:?}, exp(log) differs by {:e}",
                    rot_dist(&e, &m)
                )
            },
        );
        c.outcome(&l);
    });
}

fn tvecs(run: &Run) -> Vec<V3> {
    let mut v: Vec<V3> = vec![[0.0; 3]];
    v.extend(dirs_generic());
    v.extend([
        [1.0, 0.0, 0.0],
        [0.0, -2.0, 0.0],
        [0.0, 0.0, 1e-3],
        [1e-9, 1e-9, -1e-9],
        [2e-12, -1e-12, 3e-12],
        [-1e-60, 0.0, 2e-60],
        [1e-5, 0.0, 2e-5],
        [3.0, -1.0, 0.5],
        [-1.2, 1.7, 2.1],
        [0.0, 0.0, PI],
        [500.0, -20.0, 3.0],
        [0.0, 1.0, 0.0],
        [0.25, 0.25, 0.25],
    ]);
    if run.thorough() {
        for x in [-1.5, -0.2, 0.4] {
            for y in [-0.8, 0.0, 1.1] {
                for z in [-0.6, 0.05, 2.0] {
                    v.push([x, y, z]);
                }
            }
        }
    }
    v
}

pub fn c04(run: &Run) {
    let v = tvecs(run);
    let n = v.len();
    let eq = |s: &Se3TangentSpace, t: V3, r: V3| av(&s.translation) == t && av(&s.rotation) == r;
    run.grid("step", &[("translation", n), ("rotation", n)], |ix, c| {
        let (t, w) = (v[ix[0]], v[ix[1]]);
        let s = Se3TangentSpace::new(nv(t), nv(w));
        c.check(eq(&s, t, w), "new", || format!("new({t:?}, {w:?}) = {s:?}"));
        // The isometry translates first and rotates the result.
        let g = aiso(&s.isometry());
        c.steps(6);
        let r = exp_so3(w);
        let sc = 1.0 + norm(t);
        c.check(
            mdiff(&g.r, &r) < 1e-11 * (1.0 + norm(w))
                && vdiff(g.t, mv(&r, t)) < 1e-10 * sc * (1.0 + norm(w)),
            "isometry",
            || format!("isometry of ({t:?}, {w:?}) is {g:?}"),
        );
        let (ra, rb) = s.rotations();
        c.check(
            mdiff(&ar(&ra), &exp_so3(t)) < 1e-11 * (1.0 + norm(t))
                && mdiff(&ar(&rb), &r) < 1e-11 * (1.0 + norm(w)),
            "rotations",
            || format!("rotations of ({t:?}, {w:?}) are {ra} and {rb}"),
        );
        // Negation: the rotation is undone exactly, the whole motion to first order.
        let i = s.inverse();
        c.check(eq(&i, mul(t, -1.0), mul(w, -1.0)), "inverse", || {
            format!("inverse of ({t:?}, {w:?}) is {i:?}")
        });
        let gi = aiso(&i.isometry());
        let both = g.after(&gi);
        c.check(
            mdiff(&both.r, &I3) < 1e-11 * (1.0 + norm(w))
                && norm(both.t) <= norm(t) * norm(w) * 1.0000001 + 1e-10 * sc * (1.0 + norm(w)),
            "inverse-cancels",
            || format!("({t:?}, {w:?}) after its inverse leaves {both:?}"),
        );
        let (rai, rbi) = i.rotations();
        c.check(
            mdiff(&mm(&ar(&ra), &ar(&rai)), &I3) < 1e-10 * (1.0 + norm(t))
                && mdiff(&mm(&ar(&rb), &ar(&rbi)), &I3) < 1e-10 * (1.0 + norm(w)),
            "inverse-rotations",
            || format!("({t:?}, {w:?}): inverse rotations do not cancel"),
        );
        for k in [0.0, 1.0, -1.0, 0.25, 1e-6, 1e3] {
            let a = s.scale(k);
            let b = s.scale_translation(k);
            let d = s.scale_rotation(k);
            c.steps(3);
            c.check(eq(&a, mul(t, k), mul(w, k)), "scale", || {
                format!("({t:?}, {w:?}) scaled by {k}: {a:?}")
            });
            c.check(eq(&b, mul(t, k), w), "scale-translation", || {
                format!("({t:?}, {w:?}) by {k}: {b:?}")
            });
            c.check(eq(&d, t, mul(w, k)), "scale-rotation", || {
                format!("({t:?}, {w:?}) by {k}: {d:?}")
            });
        }
        let vec = s.to_vec();
        c.check(
            (0..3).all(|i| vec[i] == t[i] && vec[i + 3] == w[i])
                && Se3TangentSpace::from_vec(vec) == s,
            "vec",
            || format!("to_vec of ({t:?}, {w:?}) is {vec:?}"),
        );
        // The L1 form keeps the direction of each part with unit length; a zero part stays zero.
        let l = s.l1();
        c.step();
        for (part, got, orig) in [
            ("translation", av(&l.translation), t),
            ("rotation", av(&l.rotation), w),
        ] {
            let ok = if norm(orig) == 0.0 {
                c.class("l1-zero");
                norm(got) == 0.0
            } else {
                c.class("l1-unit");
                vdiff(got, unit(orig)) < 1e-12
            };
            c.check(ok, "l1", || format!("l1 {part} of {orig:?} is {got:?}"));
        }
        c.outcome(&g.t);
        c.sample(|| format!("step ({t:?}, {w:?}) -> {g:?}"));
    });
    // Sums: all words of up to three terms in every order.
    run.grid("sum", &[("a", n), ("b", n), ("c", n)], |ix, c| {
        let a = Se3TangentSpace::new(nv(v[ix[0]]), nv(v[(ix[0] + 3) % n]));
        let b = Se3TangentSpace::new(nv(v[ix[1]]), nv(v[(ix[1] + 5) % n]));
        let d = Se3TangentSpace::new(nv(v[ix[2]]), nv(v[(ix[2] + 7) % n]));
        let want =
            |f: fn(&Se3TangentSpace) -> Vector3<f64>| add(add(av(&f(&a)), av(&f(&b))), av(&f(&d)));
        let t = want(|s| s.translation);
        let r = want(|s| s.rotation);
        let sc = 1e-13
            * (1.0
                + [a, b, d]
                    .iter()
                    .map(|s| norm(av(&s.translation)) + norm(av(&s.rotation)))
                    .sum::<f64>());
        let close = |s: &Se3TangentSpace| {
            vdiff(av(&s.translation), t) < sc && vdiff(av(&s.rotation), r) < sc
        };
        let plus = a + b + d;
        let mut assign = a;
        assign += b;
        assign += d;
        let sum: Se3TangentSpace = [a, b, d].into_iter().sum();
        let rev: Se3TangentSpace = [d, b, a].into_iter().sum();
        let none: Se3TangentSpace = std::iter::empty().sum();
        c.steps(4);
        c.check(
            close(&plus) && close(&assign) && close(&sum) && close(&rev),
            "sum",
            || format!("{a:?} + {b:?} + {d:?} = {plus:?} / {assign:?} / {sum:?} / {rev:?}"),
        );
        c.check(
            none == Se3TangentSpace::identity() && (a + none) == a,
            "sum-identity",
            || "the empty sum is not neutral".into(),
        );
        let z = Se3TangentSpace::identity().isometry();
        c.check(aiso(&z) == Rigid::ID, "identity", || {
            format!("identity step is {z}")
        });
        c.outcome(&t);
    });
    // Undefined components are discarded per part, never propagated.
    let cand = [0.0, 1.0, -2.5, f64::NAN];
    run.grid(
        "undefined",
        &[
            ("c0", 4),
            ("c1", 4),
            ("c2", 4),
            ("c3", 4),
            ("c4", 4),
            ("c5", 4),
        ],
        |ix, c| {
            let x: Vec<f64> = ix.iter().map(|&i| cand[i]).collect();
            let t = [x[0], x[1], x[2]];
            let w = [x[3], x[4], x[5]];
            let s = Se3TangentSpace::new(nv(t), nv(w));
            c.step();
            let clean = |v: V3| {
                if v.iter().any(|q| q.is_nan()) {
                    [0.0; 3]
                } else {
                    v
                }
            };
            c.class(if t.iter().chain(w.iter()).any(|q| q.is_nan()) {
                "undefined"
            } else {
                "defined"
            });
            c.check(eq(&s, clean(t), clean(w)), "nan", || {
                format!("new({t:?}, {w:?}) = {s:?}")
            });
            let g = aiso(&s.isometry());
            c.check(
                g.t.iter().all(|q| q.is_finite()) && orth_err(&g.r) < 1e-12,
                "nan-isometry",
                || format!("isometry of new({t:?}, {w:?}) = {g:?}"),
            );
            c.outcome(&g.t);
        },
    );
    // Anything that is a number is kept as it is, however large.
    let big = [0.0, -0.0, 1e-300, 5e-324, 1e300, f64::MAX, -1e300, f64::INFINITY, f64::NEG_INFINITY];
    run.grid("extreme", &[("value", big.len()), ("other", big.len()), ("at", 6)], |ix, c| {
        let mut x = [big[ix[1]]; 6];
        x[ix[2]] = big[ix[0]];
        let s = Se3TangentSpace::new(nv([x[0], x[1], x[2]]), nv([x[3], x[4], x[5]]));
        let v = s.to_vec();
        let f = Se3TangentSpace::from_vec(v);
        c.steps(2);
        let same = (0..6).all(|i| v[i].to_bits() == x[i].to_bits()) && f == s;
        c.check(same, "kept", || format!("new({x:?}) = {s:?}"));
        c.outcome(&[v[0], v[3]]);
    });
}

pub fn c06(run: &Run) {
    let v = tvecs(run);
    let n = v.len();
    run.grid("pairs", &[("a", n), ("b", n)], |ix, c| {
        let (a, b) = (v[ix[0]], v[ix[1]]);
        let s = Skew3(nv(a));
        let h = am(&s.hat());
        c.steps(6);
        let sc = (1.0 + norm(a)) * (1.0 + norm(b));
        c.check(mdiff(&h, &hat(a)) == 0.0, "hat", || format!("hat({a:?}) = {h:?}"));
        c.check(vdiff(mv(&h, b), cross(a, b)) <= 1e-12 * sc, "hat-cross", || {
            format!("hat({a:?}) {b:?} is not the cross product")
        });
        let w = av(&Skew3::vee(s.hat()).0);
        c.check(w == a, "vee", || format!("vee(hat({a:?})) = {w:?}"));
        let h2 = am(&s.hat2());
        c.check(mdiff(&h2, &mm(&hat(a), &hat(a))) <= 1e-13 * (1.0 + norm(a)).powi(2), "hat2", || {
            format!("hat2({a:?}) = {h2:?}")
        });
        let br = av(&s.bracket(Skew3(nv(b))).0);
        c.check(vdiff(br, cross(a, b)) <= 1e-12 * sc, "bracket", || {
            format!("[{a:?}, {b:?}] = {br:?}, expected {:?}", cross(a, b))
        });
        let rb = av(&Skew3(nv(b)).bracket(s).0);
        c.check(vdiff(rb, mul(br, -1.0)) <= 1e-12 * sc, "antisymmetric", || format!("[b,a] != -[a,b] for {a:?}, {b:?}"));
        // d(Rx)/dx = R, homogeneous
        let ji = s.jacobian_input();
        let r = exp_so3(a);
        let mut ok = ji[(3, 3)] == 1.0;
        for i in 0..3 {
            ok &= ji[(3, i)] == 0.0 && ji[(i, 3)] == 0.0;
            for j in 0..3 {
                ok &= (ji[(i, j)] - r[i][j]).abs() < 1e-11 * (1.0 + norm(a));
            }
        }
        c.check(ok, "jacobian-input", || format!("jacobian_input({a:?}) = {ji}"));
        // d(Rx)/dR = -hat(Rx): b plays the rotated vector
        let js = am(&Skew3::jacobian_self(nv(b)));
        c.check(mdiff(&js, &hat(mul(b, -1.0))) == 0.0, "jacobian-self", || {
            format!("jacobian of a rotation in respect to itself at output {b:?} is {js:?}, expected {:?}", hat(mul(b, -1.0)))
        });
        c.outcome(&br);
    });
    run.grid("jacobi", &[("a", n), ("b", n), ("c", n)], |ix, c| {
        let s: Vec<Skew3> = (0..3).map(|i| Skew3(nv(v[ix[i]]))).collect();
        let j = av(&s[0].bracket(s[1].bracket(s[2])).0);
        let k = av(&s[1].bracket(s[2].bracket(s[0])).0);
        let l = av(&s[2].bracket(s[0].bracket(s[1])).0);
        c.steps(6);
        let sc: f64 = (0..3).map(|i| 1.0 + norm(v[ix[i]])).product();
        c.check(norm(add(add(j, k), l)) <= 1e-11 * sc, "jacobi", || {
            format!(
                "Jacobi identity fails for {:?}",
                (v[ix[0]], v[ix[1]], v[ix[2]])
            )
        });
        c.outcome(&j);
    });
}
