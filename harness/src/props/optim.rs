//! O01 single-view pose refinement, O02 three-view pose refinement.
use crate::engine::*;
use crate::na::*;
use crate::refm::*;
use cv_core::*;
use cv_geom::epipolar;
use cv_optimize::*;

/// A motion in the tangent space: translate first, then rotate.
#[derive(Clone, Copy, Debug)]
struct Step {
    t: V3,
    r: V3,
}
impl Step {
    const ZERO: Step = Step { t: [0.0; 3], r: [0.0; 3] };
    fn apply(&self, g: &Rigid) -> Rigid {
        let r = exp_so3(self.r);
        Rigid { r, t: mv(&r, self.t) }.after(g)
    }
}
fn direction(v: V3) -> V3 {
    if norm(v) > 0.0 {
        unit(v)
    } else {
        [0.0; 3]
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Rule {
    /// Rate times the mean of the gradients.
    Mean,
    /// Weiszfeld: rate times the sum of the unit gradients over the sum of the inverse lengths.
    Median,
    /// The mean, shortened by how much the gradients disagree.
    Agreement,
}

/// The step that a set of gradients amounts to, and the magnitude of their sums (for judging progress).
/// `scale` is the length of the poses' translation and `count` the number of landmarks.
fn combine(rule: Rule, grads: &[Step], count: usize, rate: f64, eps: f64, scale: f64) -> (Step, [f64; 2]) {
    let mut sum = Step::ZERO;
    let (mut wt, mut wr) = (0.0, 0.0);
    for g in grads {
        let (nt, nr) = (norm(g.t), norm(g.r));
        match rule {
            Rule::Median => {
                sum.t = add(sum.t, direction(g.t));
                sum.r = add(sum.r, direction(g.r));
                wt += 1.0 / (nt + scale * eps);
                wr += 1.0 / (nr + eps);
            }
            _ => {
                sum.t = add(sum.t, g.t);
                sum.r = add(sum.r, g.r);
                wt += nt;
                wr += nr;
            }
        }
    }
    let size = [norm(sum.t), norm(sum.r)];
    let n = count as f64;
    let step = match rule {
        Rule::Mean => Step { t: mul(sum.t, rate / n), r: mul(sum.r, rate / n) },
        Rule::Median => Step {
            t: if wt > 0.0 { mul(sum.t, rate / wt) } else { [0.0; 3] },
            r: if wr > 0.0 { mul(sum.r, rate / wr) } else { [0.0; 3] },
        },
        Rule::Agreement => {
            let f = |s: f64, w: f64| if w > 0.0 { s / w } else { 0.0 };
            Step { t: mul(sum.t, f(size[0], wt) / n), r: mul(sum.r, f(size[1], wr) / n) }
        }
    };
    (step, size)
}

/// Counts the iterations without progress; comparisons closer than rounding count as `tie`.
#[derive(Clone)]
struct Stall {
    best: Vec<f64>,
    count: usize,
}
impl Stall {
    fn new(n: usize) -> Self {
        Stall { best: vec![f64::INFINITY; n], count: 0 }
    }
    fn observe(&mut self, sizes: &[f64], tol: f64) {
        self.count += 1;
        for (b, s) in self.best.iter_mut().zip(sizes) {
            if *b > *s * (1.0 + tol) + tol {
                self.count = 0;
            }
            *b = b.min(*s);
        }
    }
    /// Like `observe`, but takes anything within rounding of the best for progress.
    fn observe_lazily(&mut self, sizes: &[f64], tol: f64) {
        self.count += 1;
        for (b, s) in self.best.iter_mut().zip(sizes) {
            if *b > *s * (1.0 - tol) - tol * 1e-3 {
                self.count = 0;
            }
            *b = b.min(*s);
        }
    }
}

fn clouds() -> Vec<(&'static str, Vec<V3>)> {
    vec![
        ("near", vec![[0.6, 0.1, 2.0], [-0.7, 0.5, 2.5], [0.2, -0.8, 1.8], [-0.3, -0.4, 3.0], [0.9, 0.7, 2.2], [0.0, 0.3, 1.5]]),
        ("around", vec![[2.0, 0.3, 0.4], [-1.5, 0.2, 0.9], [0.3, -3.0, 0.5], [0.1, 1.8, -0.6], [-0.7, -0.9, -2.0], [0.6, -0.2, 3.0]]),
        ("axis", vec![[0.0, 0.0, 1.0], [1.0, 0.0, 2.0], [0.0, 1.0, 2.0], [-1.0, 0.0, 3.0]]),
        ("few", vec![[0.5, 0.5, 2.0], [-0.5, 0.4, 2.0]]),
        ("one", vec![[0.5, -0.5, 2.0]]),
    ]
}

/// Any number of points in front of the cameras.
fn many(n: usize) -> Vec<V3> {
    (0..n).map(|i| {
        let k = i as f64 + 0.5;
        let (a, r) = (2.399963229728653 * k, (0.1 + 0.618033988749895 * k).fract());
        [1.1 * r * a.cos() + 0.05, 1.1 * r * a.sin(), 1.4 + 2.6 * (0.7548776662466927 * k).fract()]
    }).collect()
}

fn offsets(run: &Run) -> Vec<Step> {
    let mut v = vec![Step::ZERO];
    let dirs: Vec<V3> = run.pick(vec![[1.0, 0.0, 0.0], [0.0, 0.0, -1.0], [0.3, -0.5, 0.81]], {
        let mut d = dirs26();
        d.truncate(9);
        d.extend(dirs_generic());
        d
    });
    for d in &dirs {
        for k in run.pick(vec![0.03, 0.2], vec![1e-4, 0.03, 0.1, 0.3]) {
            v.push(Step { t: mul(unit(*d), k), r: [0.0; 3] });
            v.push(Step { t: [0.0; 3], r: mul(unit(*d), k) });
            v.push(Step { t: mul(unit([d[1], d[2], d[0]]), k), r: mul(unit(*d), 0.5 * k) });
        }
    }
    v
}

fn truths(run: &Run) -> Vec<Rigid> {
    let mut v = vec![
        Rigid { r: I3, t: [0.2, -0.1, 0.3] },
        Rigid { r: rot([0.3, -0.5, 0.81], 2.0), t: [-1.0, 0.5, 0.2] },
        Rigid { r: rot([0.0, 1.0, 0.0], std::f64::consts::PI), t: [0.0, 0.0, 4.0] },
    ];
    if run.thorough() {
        for (i, a) in dirs_generic().into_iter().enumerate() {
            v.push(Rigid { r: rot(a, 0.4 + 0.6 * i as f64), t: mul([a[2], a[0], a[1]], 1.0 + i as f64) });
        }
        v.push(Rigid { r: I3, t: [0.0; 3] });
    }
    v
}

#[derive(Clone, Copy)]
struct Method {
    rule: Rule,
    rate: f64,
    eps: f64,
}
fn methods() -> Vec<Method> {
    let mut v = vec![];
    for rate in [0.01, 0.1, 0.5, 1.0, 1.9] {
        v.push(Method { rule: Rule::Mean, rate, eps: 0.0 });
    }
    for rate in [0.01, 0.1, 0.5, 1.0] {
        for eps in [1e-9, 1e-3] {
            v.push(Method { rule: Rule::Median, rate, eps });
        }
    }
    v
}

fn single(m: Method, g: &Rigid, n: usize, lm: &[FeatureWorldMatch]) -> Rigid {
    let pose = WorldToCamera(niso(g));
    aiso(&match m.rule {
        Rule::Median => single_view_simple_optimize_l1(pose, m.eps, m.rate, n, lm).0,
        _ => single_view_simple_optimize_l2(pose, m.rate, n, lm).0,
    })
}
fn single_grads(g: &Rigid, lm: &[(V3, Option<V3>)]) -> Vec<Step> {
    lm.iter()
        .filter_map(|(b, w)| {
            let p = g.act((*w)?);
            let b = unit(*b);
            Some(Step { t: sub(mul(b, dot(p, b)), p), r: if norm(p) > 0.0 { cross(unit(p), b) } else { [0.0; 3] } })
        })
        .collect()
}
fn close(a: &Rigid, b: &Rigid, tol: f64) -> bool {
    let (r, t) = pose_dist(a, b);
    r < tol && t < tol * (1.0 + norm(b.t))
}
fn cost(g: &Rigid, lm: &[(V3, Option<V3>)]) -> f64 {
    lm.iter().filter_map(|(b, w)| Some(1.0 - dot(unit(g.act((*w)?)), unit(*b)))).sum()
}

pub fn o01(run: &Run) {
    let truths = truths(run);
    let clouds = clouds();
    let offs = offsets(run);
    let ms = methods();
    // Which landmarks have no position (at infinity).
    let masks = 4;
    let n_max = run.pick(64, 160);
    let setup = |ix: &[usize]| {
        let g = truths[ix[0]];
        let cloud = &clouds[ix[1]].1;
        let inv = g.inv();
        let lm: Vec<(V3, Option<V3>)> = cloud
            .iter()
            .enumerate()
            .map(|(i, q)| {
                let far = match ix[2] {
                    0 => false,
                    1 => i == 1,
                    2 => i != 0,
                    _ => true,
                };
                (*q, (!far).then(|| inv.act(*q)))
            })
            .collect();
        let real: Vec<FeatureWorldMatch> = lm
            .iter()
            .map(|(b, w)| FeatureWorldMatch(uv(*b), w.map(wpoint).unwrap_or_else(|| winf(inv.rotate(*b)))))
            .collect();
        (g, lm, real)
    };
    let walk = |ix: &[usize], c: &mut Case, n_max: usize| {
            let (g, lm, real) = setup(ix);
            let m = ms[ix[4]];
            let start = offs[ix[3]].apply(&g);
            let mut cur = single(m, &start, 0, &real);
            c.step();
            c.check(cur == aiso(&niso(&start)), "no-iterations", || format!("start {start:?}: no iterations gave {cur:?}"));
            let none = single(m, &start, 5, &[]);
            c.check(none == aiso(&niso(&start)), "no-landmarks", || format!("start {start:?}: no landmarks gave {none:?}"));
            let mut eager = Stall::new(2);
            let mut lazy = Stall::new(2);
            let mut stopped = false;
            let mut noise = false;
            for n in 1..=n_max {
                let next = single(m, &start, n, &real);
                c.step();
                c.check(orth_err(&next.r) < 1e-9 && next.t.iter().all(|x| x.is_finite()), "proper", || {
                    format!("truth {g:?} start {start:?} landmarks {lm:?} iterations {n}: pose {next:?} is not a rigid motion")
                });
                let scale = norm(cur.t);
                let grads = single_grads(&cur, &lm);
                let (step, size) = combine(m.rule, &grads, lm.len(), m.rate, m.eps, scale);
                noise |= m.rule == Rule::Median && grads.iter().any(|g| norm(g.t).min(norm(g.r)) < 1e-7);
                eager.observe(&size, 1e-6);
                lazy.observe_lazily(&size, 1e-6);
                let want = step.apply(&cur);
                let frozen = next == cur;
                // Directions of gradients that vanish are rounding noise.
                let tol = 1e-9 + if m.rule == Rule::Median { 50.0 * m.eps } else { 0.0 };
                let tiny = norm(step.t).max(norm(step.r)) < tol;
                if lazy.count >= 50 && !noise {
                    c.class("patience-ran-out");
                    c.check(frozen, "stalled-late", || {
                        format!("truth {g:?} start {start:?} landmarks {lm:?} method {:?} rate {}: continued with iteration {n} although there was no progress for {} iterations", m.rule, m.rate, lazy.count)
                    });
                }
                if frozen && !tiny {
                    if !stopped {
                        stopped = true;
                        c.class("stalled");
                        c.check(noise || eager.count >= 50, "stalled-early", || {
                            format!("truth {g:?} start {start:?} landmarks {lm:?}: stopped before iteration {n} although there was progress {} iterations ago", eager.count)
                        });
                    }
                } else {
                    c.check(!stopped, "resumed", || format!("truth {g:?} start {start:?} landmarks {lm:?}: iteration {n} continues after a stop"));
                    c.check(tiny || close(&next, &want, 1e-8), "iteration", || {
                        format!("truth {g:?} start {start:?} landmarks {lm:?} method {:?} rate {} epsilon {}: iteration {n} moved {cur:?} to {next:?}, expected {want:?}", m.rule, m.rate, m.eps)
                    });
                    c.check(!tiny || close(&next, &want, 2.0 * tol), "near-fixed", || {
                        format!("truth {g:?} start {start:?} landmarks {lm:?} method {:?} rate {} epsilon {}: iteration {n} moved {cur:?} to {next:?}, expected {want:?}", m.rule, m.rate, m.eps)
                    });
                }
                cur = next;
            }
            if ix[3] == 0 && m.rate < 0.6 {
                c.class("fixed-point");
                c.check(close(&cur, &g, 1e-9 + 200.0 * m.eps), "fixed-point", || {
                    format!("truth {g:?} landmarks {lm:?} method {:?} rate {} epsilon {}: left the truth for {cur:?}", m.rule, m.rate, m.eps)
                });
            } else if m.rate < 0.2 && m.rule == Rule::Mean && ix[2] == 0 && ix[1] < 2 && cost(&start, &lm) > 1e-6 {
                let (before, after) = (cost(&start, &lm), cost(&cur, &lm));
                c.class("improves");
                c.check(after < before, "improves", || {
                    format!("truth {g:?} landmarks {lm:?} rate {}: error went from {before:e} at {start:?} to {after:e} at {cur:?}", m.rate)
                });
            }
            c.outcome(&[cur.t[0], cur.t[1], cur.r[0][1], cur.r[1][2]]);
            c.sample(|| format!("start {start:?} method {:?} rate {} -> {cur:?}", m.rule, m.rate));
    };
    run.grid(
        "trace",
        &[("truth", truths.len()), ("cloud", clouds.len()), ("infinite", masks), ("start", offs.len()), ("method", ms.len())],
        |ix, c| walk(ix, c, n_max),
    );
    // Long runs with large steps, which oscillate instead of converging.
    let long = run.pick(300, 1000);
    run.grid(
        "patience",
        &[("truth", truths.len().min(2)), ("cloud", clouds.len()), ("infinite", 2), ("start", run.pick(4, offs.len())), ("method", ms.len())],
        |ix, c| {
            if ms[ix[4]].rate >= 0.5 {
                walk(ix, c, long);
            }
        },
    );
    // Any number of landmarks, in any unit of length.
    let counts = run.pick(vec![1, 2, 3, 5, 9, 10, 11, 17, 33, 65, 129, 257, 513], (1..=80).chain([100, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1024, 1025, 2000, 5000]).collect());
    let units = [1e-5, 1.0, 1e5];
    run.grid(
        "numbers",
        &[("truth", truths.len()), ("landmarks", counts.len()), ("unit", units.len()), ("start", offs.len()), ("method", ms.len()), ("noise", 2), ("iterations", 2)],
        |ix, c| {
            let (g, k, m) = (truths[ix[0]], units[ix[2]], ms[ix[4]]);
            if ix[3] == 0 {
                return;
            }
            let inv = g.inv();
            let lm: Vec<(V3, Option<V3>)> = many(counts[ix[1]])
                .into_iter()
                .enumerate()
                .map(|(i, q)| (add(q, mul([q[1] - 0.3, 0.7, q[0]], 0.1 * ix[5] as f64 * ((i % 7) as f64 - 2.5))), Some(inv.act(q))))
                .collect();
            let real: Vec<FeatureWorldMatch> = lm.iter().map(|(b, w)| FeatureWorldMatch(uv(*b), wpoint(mul(w.unwrap(), k)))).collect();
            let big = |g: &Rigid, k: f64| Rigid { r: g.r, t: mul(g.t, k) };
            let mut want = offs[ix[3]].apply(&g);
            let start = want;
            let n = ix[6] + 1;
            for _ in 0..n {
                let grads = single_grads(&want, &lm);
                if m.rule == Rule::Median && grads.iter().any(|g| norm(g.t).min(norm(g.r)) < 1e-4) {
                    c.class("near-landmark");
                    return;
                }
                want = combine(m.rule, &grads, lm.len(), m.rate, m.eps, norm(want.t)).0.apply(&want);
            }
            let got = big(&single(m, &big(&start, k), n, &real), 1.0 / k);
            c.step();
            c.check(close(&got, &want, 1e-10), "number", || {
                format!("truth {g:?} start {start:?} {} landmarks in the unit {k} method {:?} rate {} epsilon {}: {n} iterations lead to {got:?}, expected {want:?}", lm.len(), m.rule, m.rate, m.eps)
            });
            c.outcome(&[got.t[0], got.t[1], got.r[0][1], got.r[1][2]]);
        },
    );
    // The result does not depend on the order of the landmarks nor on the frames and the unit of length chosen.
    let frames = [rot([0.3, -0.5, 0.81], 1.0), rot([0.0, 0.0, 1.0], std::f64::consts::FRAC_PI_2), rot([1.0, 1.0, 0.2], 3.0)];
    let iters = [1, 3, 10];
    run.grid(
        "frames",
        &[("truth", truths.len()), ("cloud", clouds.len()), ("infinite", masks), ("start", offs.len()), ("method", ms.len()), ("frame", frames.len()), ("iterations", iters.len())],
        |ix, c| {
            if ix[3] == 0 {
                return;
            }
            let (g, lm, real) = setup(ix);
            let m = ms[ix[4]];
            if m.rate > 1.5 {
                return;
            }
            let start = offs[ix[3]].apply(&g);
            let n = iters[ix[6]];
            let q = frames[ix[5]];
            let base = single(m, &start, n, &real);
            // Gradients that nearly vanish have arbitrary directions.
            if m.rule == Rule::Median && single_grads(&base, &lm).iter().chain(&single_grads(&start, &lm)).any(|s| norm(s.t) < 1e-5 || norm(s.r) < 1e-5) {
                c.class("near-landmark");
                return;
            }
            let tol = 1e-7 / (1e-2f64).min(1.0);
            let mut perm = real.clone();
            perm.rotate_left(1);
            perm.reverse();
            let p = single(m, &start, n, &perm);
            c.check(close(&p, &base, tol), "order", || format!("start {start:?} landmarks {lm:?}: {base:?}, reordered {p:?}"));
            // Turn the world.
            let world: Vec<FeatureWorldMatch> = lm
                .iter()
                .zip(&real)
                .map(|((b, w), r)| FeatureWorldMatch(uv(*b), match w { Some(w) => wpoint(mv(&q, *w)), None => winf(mv(&q, [r.1.0.x, r.1.0.y, r.1.0.z])) }))
                .collect();
            let turn = Rigid { r: tr(&q), t: [0.0; 3] };
            let p = single(m, &start.after(&turn), n, &world);
            c.check(close(&p, &base.after(&turn), tol), "world-frame", || {
                format!("start {start:?} landmarks {lm:?} world turned by {q:?}: {p:?}, expected {:?}", base.after(&turn))
            });
            // Turn the camera.
            let cam: Vec<FeatureWorldMatch> = lm.iter().zip(&real).map(|((b, _), r)| FeatureWorldMatch(uv(mv(&q, *b)), r.1)).collect();
            let turn = Rigid { r: q, t: [0.0; 3] };
            let p = single(m, &turn.after(&start), n, &cam);
            c.check(close(&p, &turn.after(&base), tol), "camera-frame", || {
                format!("start {start:?} landmarks {lm:?} camera turned by {q:?}: {p:?}, expected {:?}", turn.after(&base))
            });
            // Change the unit of length.
            let k = [0.01, 3.0, 1000.0][ix[5]];
            let big = |g: &Rigid| Rigid { r: g.r, t: mul(g.t, k) };
            let scaled: Vec<FeatureWorldMatch> =
                lm.iter().zip(&real).map(|((b, w), r)| FeatureWorldMatch(uv(*b), w.map(|w| wpoint(mul(w, k))).unwrap_or(r.1))).collect();
            let p = single(m, &big(&start), n, &scaled);
            let p = Rigid { r: p.r, t: mul(p.t, 1.0 / k) };
            c.check(close(&p, &base, tol), "unit-of-length", || format!("start {start:?} landmarks {lm:?} scaled by {k}: {p:?}, expected {base:?}"));
            // Continuing is the same as not having stopped.
            let p = single(m, &single(m, &start, n, &real), 7, &real);
            let q = single(m, &start, n + 7, &real);
            c.check(close(&p, &q, 1e-12), "continue", || format!("start {start:?} landmarks {lm:?}: {n} and 7 iterations {p:?}, {} iterations {q:?}", n + 7));
            c.steps(8);
            c.class("compared");
            c.outcome(&[base.t[0], base.t[1], base.r[0][1], base.r[1][2]]);
        },
    );
}

type Obs = [V3; 3];
fn three(m: Method, g: &[Rigid; 2], n: usize, lm: &[Obs]) -> [Rigid; 2] {
    let poses = [CameraToCamera(niso(&g[0])), CameraToCamera(niso(&g[1]))];
    let lm: Vec<_> = lm.iter().map(|o| o.map(uv)).collect();
    match m.rule {
        Rule::Mean => three_view_simple_optimize_l2(poses, m.rate, n, &lm),
        Rule::Median => three_view_simple_optimize_l1(poses, m.eps, m.rate, n, &lm),
        Rule::Agreement => three_view_adaptive_optimize_l2(poses, n, &lm),
    }
    .map(|p| aiso(&p.0))
}
fn three_grads(g: &[Rigid; 2], lm: &[Obs]) -> [Vec<Step>; 2] {
    let inv = [g[0].inv(), g[1].inv()];
    let mut out = [vec![], vec![]];
    for o in lm {
        let d = epipolar::three_view_gradients(
            uv(o[0]),
            uv(inv[0].rotate(o[1])),
            nv(inv[0].t),
            uv(inv[1].rotate(o[2])),
            nv(inv[1].t),
        );
        for i in 0..2 {
            out[i].push(Step { t: av(&d[i].translation), r: av(&d[i].rotation) });
        }
    }
    out
}
fn close2(a: &[Rigid; 2], b: &[Rigid; 2], tol: f64) -> bool {
    (0..2).all(|i| close(&a[i], &b[i], tol))
}
pub fn o02(run: &Run) {
    let rigs: Vec<[Rigid; 2]> = vec![
        [Rigid { r: I3, t: [-1.0, 0.0, 0.1] }, Rigid { r: I3, t: [0.2, 0.9, 0.0] }],
        [Rigid { r: rot([0.0, 1.0, 0.0], 0.3), t: [0.8, 0.1, 0.2] }, Rigid { r: rot([1.0, 0.2, 0.0], -0.3), t: [-0.4, -0.9, 0.1] }],
        [Rigid { r: rot([0.0, 0.0, 1.0], 3.0), t: [0.3, -0.8, 0.5] }, Rigid { r: rot([0.3, -0.5, 0.81], 0.7), t: [1.2, 0.3, -0.6] }],
    ];
    let clouds: Vec<(&str, Vec<V3>)> = vec![
        ("near", vec![[0.6, 0.1, 2.0], [-0.7, 0.5, 2.5], [0.2, -0.8, 1.8], [-0.3, -0.4, 3.0], [0.9, 0.7, 2.2], [0.1, 0.3, 3.5], [-0.8, -0.9, 2.8], [0.4, -0.1, 4.0]]),
        ("wide", vec![[2.0, 0.3, 0.4], [-1.5, 0.2, 0.9], [0.3, -3.0, 0.5], [0.1, 1.8, -0.6], [-0.7, -0.9, -2.0], [0.6, -0.2, 3.0]]),
        ("one", vec![[0.4, -0.3, 2.0]]),
    ];
    let offs = offsets(run);
    let mut ms = methods();
    ms.push(Method { rule: Rule::Agreement, rate: 1.0, eps: 0.0 });
    let wrong = 3;
    let n_max = run.pick(60, 120);
    let setup = |ix: &[usize]| {
        let g = rigs[ix[0]];
        let mut lm: Vec<Obs> = clouds[ix[1]].1.iter().map(|q| [*q, g[0].act(*q), g[1].act(*q)].map(unit)).collect();
        // A mismatch, or a landmark seen on the baselines.
        match ix[2] {
            0 => {}
            1 => {
                let k = lm.len() - 1;
                lm[0][1] = unit(add(lm[k][1], [0.3, -0.2, 0.4]));
            }
            _ => lm.push([unit(mul(g[0].centre(), -1.0)), unit(g[0].t), unit(g[1].act(mul(g[0].centre(), -2.0)))]),
        }
        (g, lm)
    };
    let starts = |ix: usize, k: usize, g: &[Rigid; 2]| {
        let o = &offs;
        let a = o[ix];
        let b = o[(ix * (k + 1) + k) % o.len()];
        let b = if ix == 0 { Step::ZERO } else { b };
        [a.apply(&g[0].inv()).inv(), b.apply(&g[1].inv()).inv()]
    };
    let walk = |ix: &[usize], c: &mut Case, n_max: usize| {
            let (g, lm) = setup(ix);
            let m = ms[ix[5]];
            let start = starts(ix[3], ix[4], &g);
            let mut cur = three(m, &start, 0, &lm);
            c.step();
            c.check(close2(&cur, &start, 1e-13), "no-iterations", || format!("start {start:?}: no iterations gave {cur:?}"));
            let none = three(m, &start, 5, &[]);
            c.check(close2(&none, &start, 1e-13), "no-landmarks", || format!("start {start:?}: no landmarks gave {none:?}"));
            let mut eager = Stall::new(4);
            let mut lazy = Stall::new(4);
            let mut noise = false;
            let mut stopped = false;
            let mut wild = false;
            for n in 1..=n_max {
                let next = three(m, &start, n, &lm);
                c.step();
                c.check(next.iter().all(|p| orth_err(&p.r) < 1e-9 && p.t.iter().all(|x| x.is_finite())), "proper", || {
                    format!("truth {g:?} start {start:?} landmarks {lm:?} method {:?} rate {} iterations {n}: poses {next:?} are not rigid motions", m.rule, m.rate)
                });
                let scale = norm(cur[0].t) + norm(cur[1].t);
                if !(scale < 1e4) {
                    // Diverging (the step was too long): positions have lost their precision.
                    wild = true;
                    break;
                }
                let grads = three_grads(&cur, &lm);
                // A gradient next to a degenerate configuration or of a vanishing length is not reproducible.
                let both = [0, 1].map(|i| combine(m.rule, &grads[i], lm.len(), m.rate, m.eps, scale));
                eager.observe(&[both[0].1[0], both[0].1[1], both[1].1[0], both[1].1[1]], 1e-6);
                lazy.observe_lazily(&[both[0].1[0], both[0].1[1], both[1].1[0], both[1].1[1]], 1e-6);
                let want = [0, 1].map(|i| both[i].0.apply(&cur[i].inv()).inv());
                let frozen = close2(&next, &cur, 1e-14);
                let tol = 1e-9 + if m.rule == Rule::Median { 50.0 * m.eps } else { 0.0 };
                let tiny = both.iter().all(|b| norm(b.0.t).max(norm(b.0.r)) < tol);
                // How much rounding of the poses changes the step.
                let shaky = {
                    let nudge = Step { t: [1e-12, -1e-12, 1e-12], r: [-1e-12, 1e-12, 1e-12] };
                    let near = [nudge.apply(&cur[0]), Step { t: nudge.r, r: nudge.t }.apply(&cur[1])];
                    let gs = three_grads(&near, &lm);
                    (0..2).any(|i| {
                        let s = combine(m.rule, &gs[i], lm.len(), m.rate, m.eps, scale).0;
                        vdiff(s.t, both[i].0.t) > 1e-9 * (1.0 + scale) || vdiff(s.r, both[i].0.r) > 1e-9
                    })
                };
                noise |= shaky || ix[2] == 2 || m.rule == Rule::Median && grads.iter().flatten().any(|g| norm(g.t).min(norm(g.r)) < 1e-7);
                if lazy.count >= 50 && !noise && m.rule != Rule::Agreement {
                    c.class("patience-ran-out");
                    c.check(frozen, "stalled-late", || {
                        format!("truth {g:?} start {start:?} landmarks {lm:?} method {:?} rate {}: continued with iteration {n} although there was no progress for {} iterations", m.rule, m.rate, lazy.count)
                    });
                }
                if shaky || ix[2] == 2 {
                    c.class("unstable");
                } else if frozen && !tiny {
                    if !stopped {
                        stopped = true;
                        c.class("stalled");
                        c.check(eager.count >= 50, "stalled-early", || {
                            format!("truth {g:?} start {start:?} landmarks {lm:?} method {:?} rate {}: stopped before iteration {n} although there was progress {} iterations ago", m.rule, m.rate, eager.count)
                        });
                    }
                } else {
                    c.class("step");
                    c.check(!stopped, "resumed", || format!("truth {g:?} start {start:?} landmarks {lm:?}: iteration {n} continues after a stop"));
                    c.check(close2(&next, &want, if tiny { 2.0 * tol } else { 1e-7 }), "iteration", || {
                        format!("truth {g:?} start {start:?} landmarks {lm:?} method {:?} rate {} epsilon {}: iteration {n} moved {cur:?} to {next:?}, expected {want:?}", m.rule, m.rate, m.eps)
                    });
                }
                cur = next;
            }
            if wild {
                c.class("diverging");
            } else if ix[3] == 0 && ix[2] == 0 && (m.rate < 0.6 || m.rule == Rule::Agreement && ix[1] < 2) {
                c.class("fixed-point");
                c.check(close2(&cur, &g, if m.rule == Rule::Agreement { 1e-3 } else { 1e-9 } + 200.0 * m.eps), "fixed-point", || {
                    format!("truth {g:?} landmarks {lm:?} method {:?} rate {} epsilon {}: left the truth for {cur:?}", m.rule, m.rate, m.eps)
                });
            } else if m.rate > 0.05 && m.rate < 0.2 && m.rule == Rule::Mean && ix[2] == 0 && ix[1] == 0 {
                let size = |g: &[Rigid; 2]| {
                    let gr = three_grads(g, &lm);
                    (0..2).map(|i| { let s = combine(m.rule, &gr[i], lm.len(), 1.0, 0.0, 1.0).0; norm(s.t) + norm(s.r) }).sum::<f64>()
                };
                let (before, after) = (size(&start), size(&cur));
                c.class("improves");
                c.check(after < before || before > 0.5, "improves", || {
                    format!("truth {g:?} landmarks {lm:?} rate {}: gradient went from {before:e} at {start:?} to {after:e} at {cur:?}", m.rate)
                });
            }
            c.outcome(&[cur[0].t[0], cur[0].t[1], cur[1].r[0][1], cur[1].r[1][2]]);
            c.sample(|| format!("start {start:?} method {:?} rate {} -> {cur:?}", m.rule, m.rate));
    };
    run.grid(
        "trace",
        &[("rig", rigs.len()), ("cloud", clouds.len()), ("outlier", wrong), ("start", offs.len()), ("partner", 2), ("method", ms.len())],
        |ix, c| walk(ix, c, n_max),
    );
    // Long runs with large steps, which oscillate instead of converging.
    let long = run.pick(250, 800);
    run.grid(
        "patience",
        &[("rig", rigs.len()), ("cloud", clouds.len()), ("outlier", 2), ("start", run.pick(4, offs.len())), ("partner", 1), ("method", ms.len())],
        |ix, c| {
            if ms[ix[5]].rate >= 0.5 && ms[ix[5]].rule != Rule::Agreement {
                walk(ix, c, long);
            }
        },
    );
    // Any number of landmarks, in any unit of length.
    let counts = run.pick(vec![1, 2, 3, 5, 9, 10, 11, 17, 33, 65, 129, 257, 513], (1..=80).chain([100, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1024, 1025, 2000, 5000]).collect());
    let units = [1e-5, 1.0, 1e5];
    run.grid(
        "numbers",
        &[("rig", rigs.len()), ("landmarks", counts.len()), ("unit", units.len()), ("start", offs.len()), ("method", ms.len()), ("noise", 2), ("iterations", 2)],
        |ix, c| {
            let (g, k, m) = (rigs[ix[0]], units[ix[2]], ms[ix[4]]);
            if ix[3] == 0 {
                return;
            }
            let lm: Vec<Obs> = many(counts[ix[1]])
                .into_iter()
                .enumerate()
                .map(|(i, q)| {
                    let off = |b: V3, s: usize| unit(add(unit(b), mul([b[1] - 0.3, 0.7, b[0]], 0.02 * ix[5] as f64 * (((i + s) % 7) as f64 - 2.5))));
                    [off(q, 0), off(g[0].act(q), 1), off(g[1].act(q), 3)]
                })
                .collect();
            let big = |g: &[Rigid; 2], k: f64| g.map(|g| Rigid { r: g.r, t: mul(g.t, k) });
            let mut want = starts(ix[3], 0, &g);
            let start = want;
            let n = ix[6] + 1;
            for _ in 0..n {
                let grads = three_grads(&want, &lm);
                let scale = norm(want[0].t) + norm(want[1].t);
                let go = |grads: &[Vec<Step>; 2], w: &[Rigid; 2]| [0, 1].map(|i| combine(m.rule, &grads[i], lm.len(), m.rate, m.eps, scale).0.apply(&w[i].inv()).inv());
                let next = go(&grads, &want);
                // How much rounding of the poses changes the step.
                let nudge = Step { t: [1e-12, -1e-12, 1e-12], r: [-1e-12, 1e-12, 1e-12] };
                let near = [nudge.apply(&want[0]), Step { t: nudge.r, r: nudge.t }.apply(&want[1])];
                if !close2(&go(&three_grads(&near, &lm), &near), &next, 1e-9) || m.rule == Rule::Median && grads.iter().flatten().any(|s| norm(s.t).min(norm(s.r)) < 1e-6) {
                    c.class("unstable");
                    return;
                }
                want = next;
            }
            let got = big(&three(m, &big(&start, k), n, &lm), 1.0 / k);
            c.step();
            c.class("compared");
            c.check(close2(&got, &want, 1e-8), "number", || {
                format!("truth {g:?} start {start:?} {} landmarks in the unit {k} method {:?} rate {} epsilon {}: {n} iterations lead to {got:?}, expected {want:?}", lm.len(), m.rule, m.rate, m.eps)
            });
            c.outcome(&[got[0].t[0], got[0].t[1], got[1].r[0][1], got[1].r[1][2]]);
        },
    );
    let frames = [rot([0.3, -0.5, 0.81], 1.0), rot([0.0, 0.0, 1.0], std::f64::consts::FRAC_PI_2), rot([1.0, 1.0, 0.2], 3.0)];
    let iters = [1, 2, 5];
    run.grid(
        "frames",
        &[("rig", rigs.len()), ("cloud", clouds.len()), ("outlier", 2), ("start", offs.len()), ("partner", 2), ("method", ms.len()), ("frame", frames.len()), ("iterations", iters.len())],
        |ix, c| {
            if ix[3] == 0 {
                return;
            }
            let (g, lm) = setup(ix);
            let m = ms[ix[5]];
            let start = starts(ix[3], ix[4], &g);
            let n = iters[ix[7]];
            let q = frames[ix[6]];
            let base = three(m, &start, n, &lm);
            if m.rate > 1.0 || m.rule == Rule::Median && m.rate > 0.2 {
                return;
            }
            let small = |g: &[Rigid; 2]| three_grads(g, &lm).iter().flatten().any(|s| norm(s.t) < 1e-4 || norm(s.r) < 1e-4);
            if m.rule == Rule::Median && (small(&base) || small(&start)) {
                c.class("near-landmark");
                return;
            }
            c.class("compared");
            let tol = 1e-6;
            let mut perm = lm.clone();
            perm.rotate_left(1);
            perm.reverse();
            let p = three(m, &start, n, &perm);
            c.check(close2(&p, &base, tol), "order", || format!("start {start:?} landmarks {lm:?}: {base:?}, reordered {p:?}"));
            // Exchange the two other views.
            let sw: Vec<Obs> = lm.iter().map(|o| [o[0], o[2], o[1]]).collect();
            let p = three(m, &[start[1], start[0]], n, &sw);
            c.check(close2(&[p[1], p[0]], &base, tol), "exchange", || {
                format!("start {start:?} landmarks {lm:?} method {:?} rate {}: {base:?}, exchanged {:?}", m.rule, m.rate, [p[1], p[0]])
            });
            // Turn each camera.
            for k in 0..3 {
                let cam: Vec<Obs> = lm.iter().map(|o| { let mut o = *o; o[k] = mv(&q, o[k]); o }).collect();
                let turn = Rigid { r: q, t: [0.0; 3] };
                let back = Rigid { r: tr(&q), t: [0.0; 3] };
                let f = |g: &[Rigid; 2]| match k {
                    0 => [g[0].after(&back), g[1].after(&back)],
                    1 => [turn.after(&g[0]), g[1]],
                    _ => [g[0], turn.after(&g[1])],
                };
                let p = three(m, &f(&start), n, &cam);
                c.check(close2(&p, &f(&base), tol), "camera-frame", || {
                    format!("start {start:?} landmarks {lm:?} camera {k} turned by {q:?}: {p:?}, expected {:?}", f(&base))
                });
            }
            let k = [0.01, 3.0, 1000.0][ix[6]];
            let big = |g: &[Rigid; 2], k: f64| g.map(|g| Rigid { r: g.r, t: mul(g.t, k) });
            let p = big(&three(m, &big(&start, k), n, &lm), 1.0 / k);
            c.check(close2(&p, &base, tol), "unit-of-length", || format!("start {start:?} landmarks {lm:?} scaled by {k}: {p:?}, expected {base:?}"));
            let p = three(m, &three(m, &start, n, &lm), 3, &lm);
            let q = three(m, &start, n + 3, &lm);
            c.check(close2(&p, &q, 1e-9), "continue", || format!("start {start:?} landmarks {lm:?}: {n} and 3 iterations {p:?}, {} iterations {q:?}", n + 3));
            c.steps(9);
            c.outcome(&[base[0].t[0], base[1].t[1], base[0].r[0][1], base[1].r[1][2]]);
        },
    );
}
