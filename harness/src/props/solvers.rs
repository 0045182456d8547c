//! S01 three-point absolute pose, S02 eight-point and S03 five-point relative pose.
use crate::engine::*;
use crate::na::*;
use crate::refm::*;
use cv_core::sample_consensus::Estimator;
use cv_core::*;
use lambda_twist::LambdaTwist;

/// Some world-to-camera transforms.
fn views(run: &Run) -> Vec<Rigid> {
    let pi = std::f64::consts::PI;
    let mut v = vec![Rigid::ID];
    let axes: Vec<V3> = run.pick(vec![[0.0, 0.0, 1.0], [0.3, -0.5, 0.81]], {
        let mut a = dirs26();
        a.truncate(9);
        a.extend(dirs_generic());
        a
    });
    for a in axes {
        for th in run.pick(vec![0.1, pi], vec![0.1, 1.0, pi / 2.0, 2.5, pi]) {
            for t in [[1.0, 0.0, 0.0], [-0.3, 0.4, 0.2]] {
                v.push(Rigid { r: rot(a, th), t });
            }
        }
    }
    v
}

/// Sets of nine to twelve camera-frame points the samples are drawn from.
fn clouds(run: &Run) -> Vec<(&'static str, Vec<V3>)> {
    let mut lattice = vec![];
    for x in -1..=1 {
        for y in -1..=1 {
            for z in run.pick(vec![2.0, 4.0], vec![2.0, 3.0, 5.0]) {
                lattice.push([x as f64, y as f64, z]);
            }
        }
    }
    let generic: Vec<V3> = vec![
        [0.31, -0.52, 2.11],
        [-1.17, 0.43, 3.07],
        [0.83, 0.94, 4.9],
        [-0.61, -0.88, 1.73],
        [1.42, -0.27, 6.1],
        [0.12, 0.71, 2.64],
        [-2.2, 1.6, 8.3],
        [0.47, -1.33, 3.58],
        [-0.09, 0.05, 1.2],
        [1.9, 1.1, 2.9],
    ];
    let wide: Vec<V3> = vec![
        [2.0, 0.3, 0.4],
        [-1.5, 0.2, 0.9],
        [0.3, -3.0, 0.5],
        [0.1, 1.8, -0.6],
        [-0.7, -0.9, -2.0],
        [1.2, 1.4, -1.1],
        [0.6, -0.2, 3.0],
        [-2.5, 2.2, 1.3],
    ];
    let far: Vec<V3> = generic.iter().map(|p| [p[0] * 0.5, p[1] * 0.5, p[2] * 0.5 + 4.0]).collect();
    let tiny: Vec<V3> = generic.iter().map(|p| mul(*p, 0.01)).collect();
    let huge: Vec<V3> = generic.iter().map(|p| mul(*p, 100.0)).collect();
    // (sub-millimetre and planetary scenes in metres)
    let micro: Vec<V3> = wide.iter().map(|p| mul(*p, 1e-4)).collect();
    let mega: Vec<V3> = wide.iter().map(|p| mul(*p, 1e6)).collect();
    vec![
        ("lattice", lattice),
        ("generic", generic),
        ("wide", wide),
        ("far", far),
        ("tiny", tiny),
        ("huge", huge),
        ("micro", micro),
        ("mega", mega),
    ]
}

/// The unit of length of a cloud.
fn unit_of(name: &str) -> f64 {
    match name {
        "micro" => 1e-4,
        "mega" => 1e6,
        _ => 1.0,
    }
}

fn p3p(b: [V3; 3], w: [WorldPoint; 3]) -> Vec<Rigid> {
    LambdaTwist::new()
        .estimate((0..3).map(|i| FeatureWorldMatch(uv(b[i]), w[i])))
        .iter()
        .map(|p| aiso(&p.0))
        .collect()
}

/// How well the distances of three points determine their depths along the given bearings (relative).
fn p3p_conditioning(q: [V3; 3]) -> f64 {
    let far = q.iter().map(|q| norm(*q)).fold(0.0, f64::max);
    let l = q.map(norm);
    let cs = |a: usize, b: usize| dot(unit(q[a]), unit(q[b]));
    let jac = [
        [l[0] - cs(0, 1) * l[1], l[1] - cs(0, 1) * l[0], 0.0],
        [l[0] - cs(0, 2) * l[2], 0.0, l[2] - cs(0, 2) * l[0]],
        [0.0, l[1] - cs(1, 2) * l[2], l[2] - cs(1, 2) * l[1]],
    ];
    let smallest = sing3(&jac)[2].min(det(&jac).abs() / (far * far));
    smallest / far
}

/// The conditioning of a hypothesis, or zero if the triangle is not solid or is seen from one of its corners.
fn p3p_good(s: &Rigid, w: [V3; 3], spread: f64, area: f64) -> f64 {
    let size = norm(sub(w[0], w[1])).max(norm(sub(w[0], w[2]))).max(norm(sub(w[1], w[2])));
    let q = w.map(|p| s.act(p));
    let far = q.iter().map(|q| norm(*q)).fold(0.0, f64::max);
    let near = q.iter().map(|q| norm(*q)).fold(f64::INFINITY, f64::min);
    if !q.iter().flatten().all(|x| x.is_finite()) || spread < 0.02 || area < 1e-3 * size * size || near < 0.02 * size || far > 50.0 * size {
        0.0
    } else {
        p3p_conditioning(q)
    }
}
fn p3p_spread(b: [V3; 3]) -> f64 {
    angle(b[0], b[1]).sin().min(angle(b[0], b[2]).sin()).min(angle(b[1], b[2]).sin())
}

/// The relative accuracy of a well conditioned hypothesis.
const TOL: f64 = 1e-12;

pub fn s01(run: &Run) {
    let views = views(run);
    for (name, cloud) in clouds(run) {
        let n = cloud.len();
        run.grid(
            &format!("truth-{name}"),
            &[("view", views.len()), ("first", n), ("second", n), ("third", n)],
            |ix, c| {
                let (i, j, k) = (ix[1], ix[2], ix[3]);
                if i == j || j == k || i == k {
                    return;
                }
                let mut g = views[ix[0]];
                g.t = mul(g.t, unit_of(name));
                let q = [cloud[i], cloud[j], cloud[k]];
                let inv = g.inv();
                let w = q.map(|q| inv.act(q));
                let sols = p3p(q, w.map(wpoint));
                c.step();
                let size = norm(sub(q[0], q[1])).max(norm(sub(q[0], q[2]))).max(norm(sub(q[1], q[2])));
                let area = norm(cross(sub(q[0], q[1]), sub(q[0], q[2]))) / (size * size);
                let far = q.iter().map(|q| norm(*q)).fold(0.0, f64::max);
                let cond = p3p_conditioning(q);
                c.check(sols.len() <= 4, "count", || format!("{} hypotheses", sols.len()));
                for s in &sols {
                    c.check(
                        s.t.iter().all(|x| x.is_finite()) && orth_err(&s.r) < 1e-6,
                        "proper",
                        || format!("points {q:?}: hypothesis {s:?} is not a rigid motion"),
                    );
                    let k = p3p_good(s, w, p3p_spread(q), area * size * size);
                    if k > 1e-3 {
                        let e = (0..3).map(|i| angle(s.act(w[i]), q[i])).fold(0.0, f64::max);
                        c.check(e < 10.0 * TOL / (k * k), "reproduces", || format!("view {g:?} camera points {q:?}: hypothesis {s:?} is off by {e:e} (conditioning {k:e})"));
                    }
                }
                if area < 1e-2 {
                    c.class("collinear");
                    return;
                }
                if cond < 1e-3 {
                    c.class("critical");
                    return;
                }
                c.class(["none", "one", "two", "three", "four", "", "", "", ""][sols.len()]);
                let best = sols
                    .iter()
                    .map(|s| rot_dist(&s.r, &g.r).max(vdiff(s.t, g.t) / far))
                    .fold(f64::INFINITY, f64::min);
                c.check(best < TOL / (cond * area), "truth-listed", || {
                    format!("view {g:?} camera points {q:?} (conditioning {cond:.3}, area {area:.3}): closest of {} hypotheses is off by {best:e}: {sols:?}", sols.len())
                });
                c.outcome(&[ix[0] as f64, sols.len() as f64, sols.first().map(|s| s.t[0]).unwrap_or(0.0), sols.first().map(|s| s.r[0][1]).unwrap_or(0.0)]);
                c.sample(|| format!("view {g:?} camera points {q:?} -> {sols:?}"));
            },
        );
    }

    // Arbitrary bearings: whatever is returned reproduces the observations, and neither the order of the samples
    // nor the unit of length nor the choice of the world frame changes it.
    let mut dirs: Vec<V3> = dirs26().into_iter().filter(|d| run.thorough() || d[2] >= 0.0).collect();
    dirs.extend(dirs_generic());
    // (the origin of the world itself has no homogeneous representation of unit bearing)
    let base: Vec<V3> = vec![[-1.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.4, -0.7, 0.9], [-0.8, 0.5, -0.3], [1.0, 1.0, 0.0], [2.0, 0.0, 0.0]];
    let mut tris: Vec<[V3; 3]> = vec![];
    for i in 0..base.len() {
        for j in 0..base.len() {
            for k in 0..base.len() {
                if run.thorough() || (i <= j && j <= k) {
                    tris.push([base[i], base[j], base[k]]);
                }
            }
        }
    }
    let nd = dirs.len();
    let frames = [
        Rigid::ID,
        Rigid { r: rot([0.3, -0.5, 0.81], 2.1), t: [0.4, -1.0, 0.7] },
    ];
    run.grid("arbitrary", &[("triangle", tris.len()), ("a", nd), ("b", nd), ("c", nd)], |ix, c| {
        let w = tris[ix[0]];
        let b = [unit(dirs[ix[1]]), unit(dirs[ix[2]]), unit(dirs[ix[3]])];
        let sols = p3p(b, w.map(wpoint));
        c.step();
        c.class(["none", "one", "two", "three", "four", "", "", "", ""][sols.len()]);
        c.check(sols.len() <= 4, "count", || format!("{} hypotheses", sols.len()));
        let size = norm(sub(w[0], w[1])).max(norm(sub(w[0], w[2]))).max(norm(sub(w[1], w[2])));
        let area = norm(cross(sub(w[0], w[1]), sub(w[0], w[2])));
        let spread = p3p_spread(b);
        let good = |s: &Rigid| p3p_good(s, w, spread, area);
        for s in &sols {
            c.check(s.t.iter().all(|x| x.is_finite()) && orth_err(&s.r) < 1e-6, "proper", || {
                format!("points {w:?} bearings {b:?}: hypothesis {s:?} is not a rigid motion")
            });
            let k = good(s);
            if k > 1e-3 {
                let e = (0..3).map(|i| angle(s.act(w[i]), b[i])).fold(0.0, f64::max);
                c.check(e < 10.0 * TOL / (k * k), "reproduces", || {
                    format!("points {w:?} bearings {b:?}: hypothesis {s:?} is off by {e:e} (conditioning {k:e})")
                });
            }
        }
        // other orders and frames
        for (pi, p) in [[1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]].iter().enumerate() {
            let h = frames[pi % 2];
            let k = [1.0, 3.0, 1e-3, 1e4, 20.0][pi];
            let other: Vec<Rigid> = p3p(p.map(|i| b[i]), p.map(|i| wpoint(mul(h.act(w[i]), k))))
                .iter()
                .map(|s| Rigid { r: s.r, t: mul(s.t, 1.0 / k) }.after(&Rigid { r: h.r, t: h.t }))
                .collect();
            c.step();
            for (xs, ys, what) in [(&sols, &other, "lost"), (&other, &sols, "gained")] {
                for x in xs.iter() {
                    let g = good(x);
                    if g > 1e-2 {
                        let far = w.iter().map(|p| norm(x.act(*p))).fold(size, f64::max);
                        let d = ys.iter().map(|y| rot_dist(&x.r, &y.r).max(vdiff(x.t, y.t) / far)).fold(f64::INFINITY, f64::min);
                        c.check(d < 10.0 * TOL / (g * g), "order-and-frame", || {
                            format!("points {w:?} bearings {b:?}: hypothesis {x:?} is {what} when the samples are permuted as {p:?} and the world is moved by {h:?} and scaled by {k} (closest {d:e}, conditioning {g:e})")
                        });
                    }
                }
            }
        }
        c.outcome(&[sols.len() as f64, sols.first().map(|s| s.t[0]).unwrap_or(0.0), sols.first().map(|s| s.r[0][1]).unwrap_or(0.0)]);
        c.sample(|| format!("points {w:?} bearings {b:?} -> {sols:?}"));
    });
    // A sample at infinity has no distances: no hypothesis.
    run.grid("infinity", &[("which", 7), ("a", nd), ("b", nd)], |ix, c| {
        let b = [unit(dirs[ix[1]]), unit(dirs[ix[2]]), unit([0.3, 0.2, 0.9])];
        let w: Vec<WorldPoint> = (0..3)
            .map(|i| if (ix[0] + 1) >> i & 1 == 1 { winf(dirs[ix[1]]) } else { wpoint(base[i]) })
            .collect();
        let sols = p3p(b, [w[0], w[1], w[2]]);
        c.step();
        c.check(sols.is_empty(), "infinite", || format!("samples {w:?}: hypotheses {sols:?}"));
        c.outcome(&[sols.len() as f64]);
    });
}

/// Relative eigenvalues of the epipolar constraints: how well the matches determine the essential matrix.
fn epipolar_rows<const N: usize>(a: &[V3; N], b: &[V3; N]) -> [[f64; 9]; 9] {
    let mut m = [[0.0; 9]; 9];
    for i in 0..N {
        let (x, y) = (unit(a[i]), unit(b[i]));
        let mut row = [0.0; 9];
        for j in 0..3 {
            for k in 0..3 {
                row[3 * j + k] = x[j] * y[k];
            }
        }
        for j in 0..9 {
            for k in 0..9 {
                m[j][k] += row[j] * row[k];
            }
        }
    }
    m
}
fn epi(e: &M3, a: V3, b: V3) -> f64 {
    dot(unit(b), mv(e, unit(a))).abs()
}
/// The distance between two relative poses of unknown scale and the given sign of the translation.
fn unscaled_dist(x: &Rigid, y: &Rigid) -> f64 {
    rot_dist(&x.r, &y.r).max(vdiff(unit(x.t), unit(y.t)))
}

fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for m in 0u32..1 << n {
        if m.count_ones() as usize == k {
            out.push((0..n).filter(|i| m >> i & 1 == 1).collect());
        }
    }
    out
}

/// Relative poses with some baseline.
fn motions(run: &Run) -> Vec<Rigid> {
    let mut v = vec![];
    let pi = std::f64::consts::PI;
    let axes: Vec<V3> = run.pick(vec![[0.0, 0.0, 1.0], [0.3, -0.5, 0.81], [1.0, 0.0, 0.0]], {
        let mut a = dirs26();
        a.truncate(13);
        a.extend(dirs_generic());
        a
    });
    for a in axes {
        for th in run.pick(vec![0.0, 0.1, 2.0, pi], vec![0.0, 1e-4, 0.1, 0.7, pi / 2.0, 2.5, pi]) {
            for t in [[1.0, 0.0, 0.0], [0.0, 0.0, -0.7], [-0.3, 0.4, 0.2], [0.05, 0.1, 0.0]] {
                v.push(Rigid { r: rot(a, th), t });
            }
        }
    }
    v
}

pub fn s02(run: &Run) {
    let motions = motions(run);
    let eight = |a: &[V3; 8], b: &[V3; 8]| {
        let it = (0..8).map(|i| FeatureMatch(uv(a[i]), uv(b[i])));
        let s = eight_point::EightPoint::new();
        (
            s.from_matches(it.clone()).map(|e| am(&e.0)),
            s.estimate(it).iter().map(|p| aiso(&p.0)).collect::<Vec<_>>(),
        )
    };
    for (name, cloud) in clouds(run) {
        if ["tiny", "huge", "micro", "mega"].contains(&name) {
            continue;
        }
        let n = cloud.len().min(run.pick(10, 13));
        let step = if cloud.len() > n { 7 } else { 1 };
        let cloud: Vec<V3> = (0..n).map(|i| cloud[i * step % cloud.len()]).collect();
        let subs = subsets(n, 8);
        run.grid(&format!("truth-{name}"), &[("motion", motions.len()), ("sample", subs.len()), ("order", 3)], |ix, c| {
            let g = motions[ix[0]];
            let mut s = subs[ix[1]].clone();
            match ix[2] {
                0 => {}
                1 => s.reverse(),
                _ => s.rotate_left(3),
            }
            let k = if name == "wide" || name == "generic" { 1.0 } else { 0.5 };
            let mut a = [[0.0; 3]; 8];
            let mut b = [[0.0; 3]; 8];
            for i in 0..8 {
                a[i] = cloud[s[i]];
                b[i] = Rigid { r: g.r, t: mul(g.t, k) }.act(cloud[s[i]]);
            }
            if b.iter().any(|q| norm(*q) < 0.05) {
                return;
            }
            let (e, sols) = eight(&a, &b);
            c.steps(2);
            let (ev, _) = jacobi(&epipolar_rows(&a, &b));
            let gap = ev[1] / ev[8];
            c.check(sols.len() <= 4, "count", || format!("{} hypotheses", sols.len()));
            for s in &sols {
                c.check(orth_err(&s.r) < 1e-6 && (norm(s.t) - 1.0).abs() < 1e-6, "proper", || {
                    format!("{g:?} sample {s:?}: hypothesis {s:?} is not a rigid motion of unit length")
                });
            }
            let Some(e) = e else {
                c.check(false, "refused", || format!("{g:?} sample {s:?}: no essential matrix"));
                return;
            };
            if gap < 1e-7 {
                c.class("degenerate");
                return;
            }
            c.class("determined");
            let want = essential(&g);
            let w = mscale(&want, 1.0 / fro(&want));
            let d = mdiff(&e, &w).min(mdiff(&e, &mscale(&w, -1.0)));
            let tol = 1e-11 / gap;
            c.check(d < tol, "essential", || {
                format!("{g:?} points {a:?}: essential matrix {e:?}, expected {w:?} (off by {d:e}, allowed {tol:e})")
            });
            let best = sols.iter().map(|s| unscaled_dist(s, &g)).fold(f64::INFINITY, f64::min);
            c.check(sols.len() == 4 && best < 30.0 * tol, "truth-listed", || {
                format!("{g:?} points {a:?}: closest of {} hypotheses is off by {best:e} (allowed {tol:e}): {sols:?}", sols.len())
            });
            c.outcome(&[e[0][0], e[0][1], e[1][2], e[2][0]]);
            c.sample(|| format!("{g:?} points {a:?} -> {sols:?}"));
        });
    }
    // Any eight matches: the essential matrix is a unit matrix that satisfies all of their constraints, and the
    // hypotheses are the four poses of the matrix closest to it.
    let mut dirs = dirs26();
    dirs.extend(dirs_generic());
    let nd = dirs.len();
    let strides: Vec<usize> = (0..nd).collect();
    run.grid("any-matches", &[("a0", nd), ("b0", nd), ("stride-a", nd), ("stride-b", strides.len())], |ix, c| {
        let mut a = [[0.0; 3]; 8];
        let mut b = [[0.0; 3]; 8];
        for i in 0..8 {
            a[i] = dirs[(ix[0] + i * ix[2]) % nd];
            b[i] = dirs[(ix[1] + i * ix[3] + i * i) % nd];
        }
        let (e, sols) = eight(&a, &b);
        c.steps(2);
        let Some(e) = e else {
            c.check(false, "refused", || format!("bearings {a:?} {b:?}: no essential matrix"));
            return;
        };
        c.class("estimated");
        c.check((fro(&e) - 1.0).abs() < 1e-9, "unit", || format!("bearings {a:?} {b:?}: essential matrix {e:?}"));
        // The matches are satisfied to the accuracy of the eigenvector, if there is only one.
        let gap = jacobi(&epipolar_rows(&a, &b)).0[1];
        let tol = 1e-10 / gap.max(1e-4);
        for i in 0..8 {
            let r = epi(&e, a[i], b[i]);
            c.check(r < tol, "satisfied", || format!("bearings {a:?} {b:?}: essential matrix {e:?} has residual {r:e} for match {i}"));
        }
        for s in &sols {
            c.check(orth_err(&s.r) < 1e-6 && (norm(s.t) - 1.0).abs() < 1e-6, "proper", || {
                format!("bearings {a:?} {b:?}: hypothesis {s:?} is not a rigid motion of unit length")
            });
        }
        c.check(sols.len() == 4, "count", || format!("bearings {a:?} {b:?}: {} hypotheses", sols.len()));
        c.outcome(&[e[0][0], e[0][1], e[1][2], e[2][0]]);
    });
}

/// How well five matches determine the relative pose: the smallest singular value of the derivative of the epipolar
/// constraints by the five degrees of freedom of the motion (for unit bearings and a unit translation).
fn five_conditioning(g: &Rigid, a: &[V3; 5], b: &[V3; 5]) -> f64 {
    let t = unit(g.t);
    let u = unit(cross(t, if t[0].abs() < 0.8 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] }));
    let v = cross(t, u);
    let mut m = [[0.0; 5]; 5];
    for i in 0..5 {
        let (x, y) = (g.rotate(unit(a[i])), unit(b[i]));
        let w = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]].map(|e| dot(y, cross(t, cross(e, x))));
        let row = [w[0], w[1], w[2], dot(y, cross(u, x)), dot(y, cross(v, x))];
        for j in 0..5 {
            for k in 0..5 {
                m[j][k] += row[j] * row[k];
            }
        }
    }
    jacobi(&m).0[0].max(0.0).sqrt()
}

/// Homogeneous polynomials in four variables, as coefficients of the monomials listed by `monomials`.
type Poly = Vec<f64>;
fn monomials(deg: usize) -> Vec<[usize; 4]> {
    let mut v = vec![];
    for w in 0..=deg {
        for x in 0..=deg - w {
            for y in 0..=deg - w - x {
                v.push([x, y, deg - w - x - y, w]);
            }
        }
    }
    v
}
/// The products of the monomials of two degrees.
struct Products([[Vec<Vec<usize>>; 3]; 3]);
impl Products {
    fn new() -> Self {
        Products([0, 1, 2].map(|p| {
            [0, 1, 2].map(|q| {
                if p + q > 3 {
                    return vec![];
                }
                let out = monomials(p + q);
                let b = monomials(q);
                let f = |x: &[usize; 4], y: &[usize; 4]| {
                    out.iter().position(|z| (0..4).all(|i| z[i] == x[i] + y[i])).unwrap()
                };
                monomials(p).iter().map(|x| b.iter().map(|y| f(x, y)).collect()).collect()
            })
        }))
    }
    fn mul(&self, a: &Poly, b: &Poly) -> Poly {
        let deg = |p: &Poly| [1, 4, 10].iter().position(|&n| n == p.len()).unwrap();
        let mut o = vec![0.0; [1, 4, 10, 20][deg(a) + deg(b)]];
        let t = &self.0[deg(a)][deg(b)];
        for (i, x) in a.iter().enumerate() {
            for (j, y) in b.iter().enumerate() {
                o[t[i][j]] += x * y;
            }
        }
        o
    }
}
fn padd(a: &Poly, b: &Poly, k: f64) -> Poly {
    (0..a.len()).map(|i| a[i] + k * b[i]).collect()
}
/// How far five matches are from having infinitely many (also complex) relative poses, and how far their constraints
/// are from being dependent.
///
/// The matrices that satisfy the matches form a four dimensional space. Its essential matrices are a finite set exactly
/// when some linear form on the space vanishes on none of them, that is when the ten cubic equations that make a matrix
/// essential, restricted to the plane on which the form vanishes, are independent. A few forms are tried.
fn five_finiteness(products: &Products, a: &[V3; 5], b: &[V3; 5]) -> (f64, f64) {
    let (ev, vecs) = jacobi(&epipolar_rows(a, b));
    let mut best = 0.0f64;
    for form in [[0.2, 0.7, -0.4, 0.5], [-0.6, 0.1, 0.3, 0.8], [0.5, 0.4, 0.7, -0.3]] {
        let n: f64 = form.iter().map(|x| x * x).sum::<f64>() + form[3].abs() * form.iter().map(|x| x * x).sum::<f64>().sqrt();
        // A reflection that exchanges the last vector and the form.
        let len = form.iter().map(|x| x * x).sum::<f64>().sqrt();
        let mut h = form;
        h[3] += form[3].signum() * len;
        let basis: Vec<Vec<f64>> = (0..4)
            .map(|k| {
                (0..9)
                    .map(|i| (0..4).map(|l| (if l == k { 1.0 } else { 0.0 } - h[l] * h[k] / n) * vecs[l][i]).sum())
                    .collect()
            })
            .collect();
        let lin = monomials(1);
        let e: Vec<Vec<Poly>> = (0..3)
            .map(|i| {
                (0..3)
                    .map(|j| lin.iter().map(|m| basis[m.iter().position(|&x| x == 1).unwrap()][3 * i + j]).collect())
                    .collect()
            })
            .collect();
        let mut eet = vec![vec![vec![0.0; 10]; 3]; 3];
        let mut trace = vec![0.0; 10];
        for i in 0..3 {
            for j in 0..3 {
                for k in 0..3 {
                    eet[i][j] = padd(&eet[i][j], &products.mul(&e[i][k], &e[j][k]), 1.0);
                }
            }
            trace = padd(&trace, &eet[i][i], 1.0);
        }
        let mut rows: Vec<Poly> = vec![];
        for i in 0..3 {
            for j in 0..3 {
                let mut p = padd(&vec![0.0; 20], &products.mul(&trace, &e[i][j]), -0.5);
                for k in 0..3 {
                    p = padd(&p, &products.mul(&eet[i][k], &e[k][j]), 1.0);
                }
                rows.push(p);
            }
        }
        let minor = |r: [usize; 2], c: [usize; 2]| {
            padd(&products.mul(&e[r[0]][c[0]], &e[r[1]][c[1]]), &products.mul(&e[r[0]][c[1]], &e[r[1]][c[0]]), -1.0)
        };
        let mut d = products.mul(&e[0][0], &minor([1, 2], [1, 2]));
        d = padd(&d, &products.mul(&e[0][1], &minor([1, 2], [0, 2])), -1.0);
        d = padd(&d, &products.mul(&e[0][2], &minor([1, 2], [0, 1])), 1.0);
        rows.push(d);
        let mut gram = [[0.0; 10]; 10];
        for i in 0..10 {
            for j in 0..10 {
                // The first ten monomials are those without the last variable.
                gram[i][j] = (0..10).map(|k| rows[i][k] * rows[j][k]).sum();
            }
        }
        let (g, _) = jacobi(&gram);
        best = best.max((g[0].max(0.0) / g[9]).sqrt());
    }
    (best, (ev[4].max(0.0) / ev[8]).sqrt())
}

fn five(a: &[V3; 5], b: &[V3; 5]) -> Vec<Rigid> {
    nister_stewenius::NisterStewenius::new()
        .estimate((0..5).map(|i| FeatureMatch(uv(a[i]), uv(b[i]))))
        .iter()
        .map(|p| aiso(&p.0))
        .collect()
}

pub fn s03(run: &Run) {
    let products = Products::new();
    let motions = motions(run);
    for (name, cloud) in clouds(run) {
        if ["tiny", "huge", "micro", "mega"].contains(&name) {
            continue;
        }
        let n = cloud.len().min(run.pick(8, 10));
        let step = if cloud.len() > n { 7 } else { 1 };
        let cloud: Vec<V3> = (0..n).map(|i| cloud[i * step % cloud.len()]).collect();
        let subs = subsets(n, 5);
        run.grid(&format!("truth-{name}"), &[("motion", motions.len()), ("sample", subs.len())], |ix, c| {
            let g = motions[ix[0]];
            let s = &subs[ix[1]];
            let k = if name == "wide" || name == "generic" { 1.0 } else { 0.5 };
            let mut a = [[0.0; 3]; 5];
            let mut b = [[0.0; 3]; 5];
            for i in 0..5 {
                a[i] = cloud[s[i]];
                b[i] = Rigid { r: g.r, t: mul(g.t, k) }.act(cloud[s[i]]);
            }
            if b.iter().any(|q| norm(*q) < 0.05) {
                return;
            }
            let sols = five(&a, &b);
            c.step();
            c.check(sols.len() <= 40 && sols.len() % 4 == 0, "count", || format!("{g:?} points {a:?}: {} hypotheses", sols.len()));
            let cond = five_conditioning(&g, &a, &b);
            let (ind, gap) = five_finiteness(&products, &a, &b);
            let finite = ind > 1e-3 && gap > 1e-3;
            for s in &sols {
                c.check(orth_err(&s.r) < 1e-6 && (norm(s.t) - 1.0).abs() < 1e-6, "proper", || {
                    format!("{g:?} points {a:?}: hypothesis {s:?} is not a rigid motion of unit length")
                });
                let e = essential(s);
                let own = five_conditioning(s, &a, &b);
                for i in 0..if finite { 5 } else { 0 } {
                    let r = epi(&e, a[i], b[i]);
                    let tol = 1e-8 / own.min(ind).min(gap).powi(3);
                    c.check(r < tol.min(if own > 3e-2 { 3e-3 } else { 0.2 }), "satisfied", || {
                        format!("{g:?} points {a:?}: hypothesis {s:?} does not satisfy match {i} ({r:e}, conditioning {own:e})")
                    });
                }
            }
            if !finite || cond < 3e-3 {
                c.class("degenerate");
                return;
            }
            c.class("determined");
            let tol = (1e-9 / cond.min(ind).min(gap).powi(3)).min(1e-3);
            let best = sols.iter().map(|s| unscaled_dist(s, &g)).fold(f64::INFINITY, f64::min);
            c.check(best < tol, "truth-listed", || {
                format!("{g:?} points {a:?}: closest of {} hypotheses is off by {best:e} (allowed {tol:e}, conditioning {cond:e} {ind:e} {gap:e})", sols.len())
            });
            c.outcome(&[sols.len() as f64, sols.first().map(|s| s.t[0]).unwrap_or(0.0)]);
            c.sample(|| format!("{g:?} points {a:?} -> {sols:?}"));
        });
    }
    // Any five matches: proper hypotheses that satisfy the matches, whatever the order of the matches and the
    // orientation of the cameras, and the same hypotheses (mirrored) when the cameras trade places.
    // (Bearings without symmetries, which would make different relative poses coincide.)
    let mut dirs = dirs26();
    dirs.extend(dirs_generic());
    let nd = dirs.len();
    for (i, d) in dirs.iter_mut().enumerate() {
        let k = i as f64 + 1.0;
        *d = unit(add(unit(*d), [0.3 * (12.9 * k).sin(), 0.3 * (7.3 * k).sin(), 0.3 * (3.7 * k * k).sin()]));
    }
    let perms = [[0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [2, 0, 4, 1, 3]];
    let strides = run.pick(nd / 3, nd);
    let turn = [rot([0.3, -0.5, 0.81], 0.7), rot([1.0, 0.2, 0.1], 2.0)];
    run.grid("any-matches", &[("a0", nd), ("b0", nd), ("stride-a", strides), ("stride-b", strides)], |ix, c| {
        let mut a = [[0.0; 3]; 5];
        let mut b = [[0.0; 3]; 5];
        for i in 0..5 {
            a[i] = unit(dirs[(ix[0] + i * ix[2]) % nd]);
            b[i] = unit(add(dirs[(ix[1] + i * ix[3] + i * i) % nd], mul(a[i], 0.5)));
        }
        if b.iter().any(|v| !(norm(*v) > 0.5)) {
            return;
        }
        let sols = five(&a, &b);
        c.step();
        c.check(sols.len() <= 40 && sols.len() % 4 == 0, "count", || format!("bearings {a:?} {b:?}: {} hypotheses", sols.len()));
        let (ind, gap) = five_finiteness(&products, &a, &b);
        let finite = ind > 1e-3 && gap > 1e-3;
        c.class(if finite { "finite" } else { "degenerate" });
        for s in &sols {
            c.check(orth_err(&s.r) < 1e-6 && (norm(s.t) - 1.0).abs() < 1e-6, "proper", || {
                format!("bearings {a:?} {b:?}: hypothesis {s:?} is not a rigid motion of unit length")
            });
            if finite {
                let e = essential(s);
                let r = (0..5).map(|i| epi(&e, a[i], b[i])).fold(0.0, f64::max);
                let own = five_conditioning(s, &a, &b);
                let tol = (1e-8 / own.min(ind).min(gap).powi(3)).min(1e-2);
                c.check(r < tol, "satisfied", || format!("bearings {a:?} {b:?}: hypothesis {s:?} does not satisfy the matches ({r:e}, allowed {tol:e})"));
            }
        }
        c.outcome(&[sols.len() as f64, sols.first().map(|s| s.t[0]).unwrap_or(0.0)]);
        if !finite {
            return;
        }
        let good: Vec<&Rigid> = sols.iter().filter(|s| five_conditioning(s, &a, &b) > 3e-2).collect();
        let p = perms[(ix[0] + ix[1]) % 3];
        let other = five(&p.map(|i| mv(&turn[0], a[i])), &p.map(|i| mv(&turn[1], b[i])));
        let back = five(&p.map(|i| b[i]), &p.map(|i| a[i]));
        c.steps(2);
        for s in good {
            let tol = (1e-8 / five_conditioning(s, &a, &b).min(ind).min(gap).powi(3)).min(1e-3);
            let want = Rigid { r: mm(&turn[1], &mm(&s.r, &tr(&turn[0]))), t: mv(&turn[1], s.t) };
            let d = other.iter().map(|o| unscaled_dist(o, &want)).fold(f64::INFINITY, f64::min);
            c.check(d < tol, "order-and-frame", || {
                format!("bearings {a:?} {b:?}: hypothesis {s:?} is lost when the matches are permuted and the cameras are turned (closest {d:e})")
            });
            let d = back.iter().map(|o| unscaled_dist(o, &s.inv())).fold(f64::INFINITY, f64::min);
            c.check(d < tol, "swap", || {
                format!("bearings {a:?} {b:?}: hypothesis {s:?} is lost when the cameras trade places (closest {d:e})")
            });
        }
    });
}
