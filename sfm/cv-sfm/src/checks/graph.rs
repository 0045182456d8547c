//! R03: the pose graph. Every constraint graph on a few views, against an independent computation of the step.
use super::refm::*;
use super::store;
use super::world::*;
use crate::*;
use engine::{Case, Run};
use std::collections::BTreeMap;

fn log_so3(m: &M3) -> V3 {
    let s = [m[2][1] - m[1][2], m[0][2] - m[2][0], m[1][0] - m[0][1]];
    let sin = 0.5 * norm(s);
    let cos = 0.5 * (m[0][0] + m[1][1] + m[2][2] - 1.0);
    let th = sin.atan2(cos);
    if sin < 1e-12 {
        // No case comes near half a turn.
        return mul(s, 0.5);
    }
    mul(s, 0.5 * th / sin)
}

/// A constraint: frames, and the motions from the first to the second and third.
#[derive(Clone, Debug)]
struct Con {
    f: [usize; 3],
    p: [Rigid; 2],
}
impl Con {
    fn motion(&self, from: usize, to: usize) -> Rigid {
        let all = [Rigid::ID, self.p[0], self.p[1]];
        all[to].after(&all[from].inv())
    }
}

struct Graph {
    poses: BTreeMap<usize, Rigid>,
    cons: Vec<Con>,
}

impl Graph {
    /// One step: all cameras move at once, by the rate times the sum of what every constraint asks for.
    /// A camera nothing or nothing finite is known of goes, and its constraints with it. Less than three left: nothing.
    fn step(&mut self, rate: f64) -> bool {
        let mut next = BTreeMap::new();
        for (&v, g) in &self.poses {
            let mut sum = [0.0; 6];
            let mut any = false;
            for c in &self.cons {
                let Some(i) = c.f.iter().position(|&x| x == v) else { continue };
                for o in (0..3).filter(|&o| o != i) {
                    any = true;
                    let d = c.motion(o, i).after(&self.poses[&c.f[o]]).after(&g.inv());
                    let w = log_so3(&d.r);
                    for k in 0..3 {
                        sum[k] += d.t[k];
                        sum[3 + k] += w[k];
                    }
                }
            }
            let x = sum.map(|s| s * rate);
            if any && x.iter().all(|k| k.is_finite()) {
                let d = Rigid { r: exp_so3([x[3], x[4], x[5]]), t: [x[0], x[1], x[2]] };
                next.insert(v, d.after(g));
            }
        }
        if next.len() < 3 {
            return false;
        }
        self.cons.retain(|c| c.f.iter().all(|f| next.contains_key(f)));
        self.poses = next;
        true
    }
}

/// The system with one reconstruction that has all cameras, at the given poses, under the given constraints.
fn build(w: &World, settings: VSlamSettings, poses: &[Rigid], cons: &[Con]) -> (Slam, ReconstructionKey) {
    let mut s = w.slam(settings);
    let k = reconstruct(w, &mut s, &(0..w.frames.len()).collect::<Vec<_>>());
    s.data.reconstructions[k].constraints.clear();
    for (i, g) in poses.iter().enumerate() {
        let v = view_of(w, &s.data, i).unwrap().1;
        s.data.reconstructions[k].views[v].pose = WorldToCamera(iso(g));
    }
    for c in cons {
        let views = c.f.map(|f| view_of(w, &s.data, f).unwrap().1);
        s.data.reconstructions[k].constraints.insert(ThreeViewConstraint { views, poses: [iso(&c.p[0]), iso(&c.p[1])] });
    }
    (s, k)
}

/// A reconstruction of the frames in this order with the true motions and all observations of a point joined.
pub fn reconstruct(w: &World, s: &mut Slam, order: &[usize]) -> ReconstructionKey {
    let of = |f: usize, p: usize| w.sees[f].iter().position(|&x| x == p);
    let [a, b, c] = [order[0], order[1], order[2]];
    let (mut abc, mut ab, mut ac) = (vec![], vec![], vec![]);
    for (j, &p) in w.sees[a].iter().enumerate() {
        match (of(b, p), of(c, p)) {
            (Some(x), Some(y)) => abc.push((j, x, y)),
            (Some(x), None) => ab.push([j, x]),
            (None, Some(y)) => ac.push([j, y]),
            _ => {}
        }
    }
    let k = s.data.add_reconstruction(
        w.frames[a],
        w.frames[b],
        w.frames[c],
        CameraToCamera(iso(&w.relative(a, b))),
        CameraToCamera(iso(&w.relative(a, c))),
        abc,
        ab,
        ac,
    );
    for &f in &order[3..] {
        let mut map: HashMap<usize, ArrayVec<LandmarkKey, 2>> = HashMap::new();
        for (j, &p) in w.sees[f].iter().enumerate() {
            let known: BTreeMap<_, _> = order
                .iter()
                .take_while(|&&g| g != f)
                .filter_map(|&g| of(g, p).map(|i| landmark_at(w, &s.data, k, (g, i))))
                .map(|l| (l, ()))
                .collect();
            // Two frames may have seen the point without being joined yet: joining them is part of adding the view.
            let l: ArrayVec<LandmarkKey, 2> = known.into_keys().take(2).collect();
            if !l.is_empty() {
                map.insert(j, l);
            }
        }
        s.data.add_view(k, w.frames[f], WorldToCamera(iso(&w.relative(a, f))), |j| map.get(&j).cloned());
    }
    k
}

const PERM: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];

fn triples(n: usize) -> Vec<[usize; 3]> {
    let mut v = vec![];
    for a in 0..n {
        for b in a + 1..n {
            for c in b + 1..n {
                v.push([a, b, c]);
            }
        }
    }
    v
}

fn nudge(i: usize, size: f64) -> Rigid {
    let d = |k: usize| size * (((i * 7 + k * 3) % 5) as f64 - 2.0 + 0.1 * k as f64);
    Rigid { r: exp_so3([d(0), d(1), d(2)]), t: [d(3), d(4), d(5)] }
}

/// Poses of the cameras, relative to the first one.
fn truth(w: &World) -> Vec<Rigid> {
    (0..w.frames.len()).map(|i| w.relative(0, i)).collect()
}

fn disturbed(w: &World, kind: usize) -> Vec<Rigid> {
    truth(w)
        .iter()
        .enumerate()
        .map(|(i, g)| match kind {
            0 => *g,
            1 if i == 1 => nudge(2, 0.05).after(g),
            2 => nudge(i, 0.02).after(g),
            3 => nudge(i + 1, 0.25).after(g),
            _ => *g,
        })
        .collect()
}

fn constraints(w: &World, set: usize, perm: usize, wrong: usize) -> Vec<Con> {
    let mut v = vec![];
    for (i, t) in triples(w.frames.len()).into_iter().enumerate() {
        if set >> i & 1 == 1 {
            let q = PERM[(perm + i) % 6];
            let f = q.map(|k| t[k]);
            let p = [w.relative(f[0], f[1]), w.relative(f[0], f[2])];
            v.push(Con { f, p });
        }
    }
    if let Some(c) = v.first_mut() {
        match wrong {
            1 => c.p[0] = nudge(3, 0.1).after(&c.p[0]),
            2 => c.p[1].t = mul(c.p[1].t, 1.5),
            3 => c.p[0].t[1] = f64::NAN,
            4 => c.p[1].t = [f64::INFINITY; 3],
            _ => {}
        }
    }
    if let (Some(c), 5) = (v.last_mut(), wrong) {
        c.p = c.p.map(|g| Rigid { t: mul(g.t, f64::NAN), ..g });
    }
    v
}

fn poses_now(w: &World, s: &Slam, k: ReconstructionKey) -> BTreeMap<usize, Rigid> {
    let r = &s.data.reconstructions[k];
    r.views.values().map(|v| (w.frame_ix(v.frame), rigid(&v.pose.isometry()))).collect()
}

fn one(w: &World, rate: f64, iterations: usize, poses: &[Rigid], cons: &[Con], c: &mut Case) {
    let st = VSlamSettings { graph_optimization_rate: rate, optimization_iterations: iterations, ..store::settings() };
    let (mut s, k) = build(w, st, poses, cons);
    let before = extract(w, &s.data, k).unwrap();
    let got = s.apply_constraints(k);
    c.step();
    let mut g = Graph { poses: poses.iter().copied().enumerate().collect(), cons: cons.to_vec() };
    let alive = (0..iterations).all(|_| g.step(rate));
    if let Err(e) = frames_ok(w, &s.data) {
        c.check(false, "frames", || e);
    }
    let exists = s.data.reconstructions.contains_key(k);
    c.check(got == alive.then_some(k) && exists == alive, "survival", || format!("returned {got:?}, the reconstruction exists: {exists}, at least three cameras are left: {alive}"));
    if !alive || !exists {
        c.class("too few cameras left");
        return;
    }
    let now = poses_now(w, &s, k);
    let who = |m: &BTreeMap<usize, Rigid>| m.keys().copied().collect::<Vec<_>>();
    c.check(who(&now) == who(&g.poses), "views", || format!("cameras {:?} are left instead of {:?}", who(&now), who(&g.poses)));
    if who(&now) != who(&g.poses) {
        return;
    }
    let worst = now.iter().map(|(i, p)| apart(p, &g.poses[i])).fold(0.0, f64::max);
    c.check(worst < 1e-9, "poses", || format!("poses {now:?} instead of {:?}", g.poses));
    // The rest stays.
    match extract(w, &s.data, k) {
        Ok(r) => {
            let mut want = before.lms.iter().map(|l| l.iter().copied().filter(|o| now.contains_key(&o.0)).collect::<Vec<_>>()).filter(|l| !l.is_empty()).collect::<Vec<_>>();
            want.sort();
            c.check(r.lms == want, "landmarks", || format!("landmarks {:?} instead of {want:?}", r.lms));
            let mut cons: Vec<[usize; 3]> = g.cons.iter().map(|c| c.f).collect();
            cons.iter_mut().for_each(|f| f.sort_unstable());
            cons.sort_unstable();
            c.check(r.cons == cons, "constraints", || format!("constraints {:?} instead of {cons:?}", r.cons));
        }
        Err(e) => c.check(false, "consistency", || e),
    }
    let true_poses = truth(w);
    let exact = cons.iter().all(|x| apart(&x.p[0], &w.relative(x.f[0], x.f[1])) + apart(&x.p[1], &w.relative(x.f[0], x.f[2])) == 0.0);
    let at_truth = poses.iter().zip(&true_poses).all(|(a, b)| apart(a, b) == 0.0);
    if exact && at_truth {
        let moved = now.iter().map(|(&i, p)| apart(p, &true_poses[i])).fold(0.0, f64::max);
        c.check(moved < 1e-12 * (1 + iterations * iterations) as f64, "fixed point", || format!("poses which satisfy all constraints moved by {moved}"));
        c.class("already satisfied");
    } else if now.len() < poses.len() {
        c.class("cameras removed");
    } else {
        c.class("moved");
    }
    for p in now.values() {
        c.outcome(&[p.t[0], p.t[1], p.r[0][1]]);
    }
}

/// A world in which a camera shares different numbers of points with the pairs of the others.
fn shared(n: usize, counts: &[usize]) -> World {
    let base = store::world(n + 1, 1);
    let mut pts = vec![];
    let mut sees = vec![vec![]; n + 1];
    let mut put = |who: &[usize]| {
        let i = pts.len();
        for &f in who {
            sees[f].push(i);
        }
        let x = i as f64;
        pts.push([(x * 0.7).sin(), (x * 1.3).cos(), 5.0 + (x * 0.4).sin()]);
    };
    let mut i = 0;
    for a in 0..n {
        for b in a + 1..n {
            for _ in 0..counts[i] {
                put(&[a, b, n]);
            }
            i += 1;
        }
        // Seen twice only: no robust landmark.
        put(&[a, n]);
        put(&[a, n]);
    }
    World::new(base.cams.clone(), pts, sees)
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

fn selections(n: usize, counts: &[usize], maxs: usize, mins: usize, c: &mut Case) {
    let w = shared(n, counts);
    let mut s = w.slam(VSlamSettings { constraint_patience: 1, ..store::settings() });
    let k = reconstruct(&w, &mut s, &(0..=n).collect::<Vec<_>>());
    for max in 0..=maxs {
        for min in 1..=mins {
            s.settings.optimization_maximum_three_view_constraints = max;
            s.settings.optimization_robust_covisibility_minimum_landmarks = min;
            selection(&w, &s, k, counts, n, max, min, c);
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn selection(w: &World, s: &Slam, k: ReconstructionKey, counts: &[usize], n: usize, max: usize, min: usize, c: &mut Case) {
    let v = view_of(w, &s.data, n).unwrap().1;
    let got = s.generate_view_constraints(k, v);
    c.step();
    let frames: Vec<[usize; 3]> = got
        .iter()
        .map(|x| {
            let mut f = x.views.map(|v| w.frame_ix(s.data.reconstructions[k].views[v].frame));
            f.sort_unstable();
            f
        })
        .collect();
    // Those which bring a new camera come first, the ones with more points before the others.
    let mut pairs = vec![];
    for a in 0..n {
        for b in a + 1..n {
            pairs.push((counts[pairs.len()], [a, b, n]));
        }
    }
    pairs.retain(|x| x.0 >= min);
    pairs.sort_unstable_by_key(|x| cmp::Reverse(x.0));
    let mut seen = std::collections::BTreeSet::from([n]);
    let (mut first, mut rest) = (vec![], vec![]);
    for (_, t) in pairs {
        let news = t.iter().filter(|&&f| seen.insert(f)).count();
        if news > 0 { first.push(t) } else { rest.push(t) }
    }
    let covers = first.len() <= max;
    let reach = seen.len();
    first.extend(rest);
    first.truncate(max);
    let set = |v: &[[usize; 3]]| {
        let mut v = v.to_vec();
        v.sort_unstable();
        v
    };
    c.check(set(&frames) == set(&first), "selection", || format!("with common points {counts:?} and at most {max} constraints: {frames:?} instead of {first:?}"));
    if covers {
        let now: std::collections::BTreeSet<usize> = frames.iter().flatten().copied().chain([n]).collect();
        c.check(now.len() == reach, "cover", || format!("{frames:?} reach the cameras {now:?} only"));
        c.class("all cameras covered");
    } else {
        c.class("not enough constraints for all cameras");
    }
    for x in &got {
        let f = x.views.map(|v| w.frame_ix(s.data.reconstructions[k].views[v].frame));
        let d = [1, 2].map(|i| apart(&rigid(&x.poses[i - 1]), &w.relative(f[0], f[i])));
        c.check(d[0].max(d[1]) < 1e-7, "true geometry", || format!("the constraint on {f:?} is off by {d:?}"));
    }
}

/// Which constraints are made of disturbed cameras, and from what.
#[allow(clippy::too_many_arguments)]
fn made(w: &World, kind: usize, patience: usize, limit: bool, pair: f64, more: usize, least: usize, c: &mut Case) {
    let n = w.frames.len();
    let poses: Vec<Rigid> =
        truth(w).iter().enumerate().map(|(i, g)| if kind > 0 { nudge(i + kind, 0.004 * kind as f64).after(g) } else { *g }).collect();
    // How many points have been seen by all cameras, and how many by the ones in question.
    let seen_by = |p: usize| w.sees.iter().filter(|s| s.contains(&p)).count();
    let common = |t: [usize; 3]| -> Vec<usize> { (0..w.pts.len()).filter(|p| t.iter().all(|&f| w.sees[f].contains(p))).collect() };
    let best = (0..w.pts.len()).filter(|&p| seen_by(p) == n).count();
    let ray = |f: usize, p: usize| unit(w.cams[f].act(w.pts[p]));
    let used = |t: [usize; 3]| -> Vec<usize> { common(t).into_iter().filter(|&p| !limit || seen_by(p) == n).collect() };
    let pairs = |t: [usize; 3]| {
        let u = used(t);
        let mut k = 0;
        for i in 0..u.len() {
            for j in i + 1..u.len() {
                k += t.iter().all(|&f| 1.0 - dot(ray(f, u[i]), ray(f, u[j])) > pair) as usize;
            }
        }
        k
    };
    let need = (pairs([0, 1, 2]) + more).saturating_sub(1);
    let st = VSlamSettings {
        constraint_patience: patience,
        maximum_cosine_distance: 0.05,
        maximum_sine_distance: 0.3,
        optimization_maximum_landmarks: if limit { best } else { 1000 },
        robust_view_bearing_pair_minimum_cosine_distance: pair,
        robust_view_num_robust_bearing_pair: need,
        optimization_minimum_landmarks: least,
        ..store::settings()
    };
    let (s, k) = build(w, st, &poses, &[]);
    for f in 0..n {
        let v = view_of(w, &s.data, f).unwrap().1;
        let got = s.generate_view_constraints(k, v);
        c.step();
        let name = |x: &ThreeViewConstraint| x.views.map(|v| w.frame_ix(s.data.reconstructions[k].views[v].frame));
        let mut frames: Vec<[usize; 3]> = got.iter().map(name).collect();
        frames.iter_mut().for_each(|t| t.sort_unstable());
        frames.sort_unstable();
        let want: Vec<[usize; 3]> =
            triples(n).into_iter().filter(|&t| t.contains(&f) && common(t).len() >= least && pairs(t) >= need).collect();
        c.check(frames == want, "which", || format!("constraints {frames:?} instead of {want:?}"));
        c.class(match want.len() {
            0 => "no constraint",
            l if l == (n - 1) * (n - 2) / 2 => "all constraints",
            _ => "some constraints",
        });
        for x in got {
            let t = name(&x);
            let rel = [1, 2].map(|i| CameraToCamera(iso(&poses[t[i]].after(&poses[t[0]].inv()))));
            let rays: Vec<_> = used(t).iter().map(|&p| t.map(|f| UnitVector3::new_normalize(v3(ray(f, p))))).collect();
            let opt = three_view_adaptive_optimize_l2(rel, patience, &rays).map(|p| p.isometry());
            let len = |p: [IsometryMatrix3<f64>; 2]| p[0].translation.vector.norm() + p[1].translation.vector.norm();
            let k = len(rel.map(|p| p.isometry())) / len(opt);
            let off = (0..2)
                .map(|i| {
                    let g = rigid(&opt[i]);
                    apart(&rigid(&x.poses[i]), &Rigid { t: mul(g.t, k), ..g })
                })
                .fold(0.0, f64::max);
            c.check(off < 1e-9, "what", || format!("the constraint on {t:?} is off by {off}"));
            c.outcome(&[off, len(x.poses)]);
        }
    }
}

/// Cameras in the very same place.
fn coincident(group: usize, order: usize, st: VSlamSettings, c: &mut Case) {
    // Which cameras coincide.
    let same: &[&[usize]] = &[&[0, 1, 2], &[1, 2, 3], &[0, 2, 4], &[3, 4, 5], &[0, 1, 2, 3], &[0, 1], &[0, 1, 2, 3, 4]];
    let base = store::world(6, 3);
    let mut cams = base.cams.clone();
    for &f in &same[group][1..] {
        cams[f] = cams[same[group][0]];
    }
    let w = World::new(cams, base.pts.clone(), base.sees.clone());
    let perm: Vec<usize> = permutations(6)[order * 37 % 720].clone();
    let mut s = w.slam(st);
    let k = reconstruct(&w, &mut s, &perm);
    // Exactly the same pose.
    let p0 = view_of(&w, &s.data, same[group][0]).unwrap().1;
    let pose = s.data.reconstructions[k].views[p0].pose;
    for &f in same[group] {
        let v = view_of(&w, &s.data, f).unwrap().1;
        s.data.reconstructions[k].views[v].pose = pose;
    }
    let got = s.regenerate_reconstruction(k);
    c.step();
    let exists = s.data.reconstructions.contains_key(k);
    c.check(got.is_some() == exists, "survival", || format!("returned {got:?}, the reconstruction exists: {exists}"));
    if let Err(e) = frames_ok(&w, &s.data) {
        c.check(false, "frames", || e);
    }
    if exists {
        if let Err(e) = extract(&w, &s.data, k) {
            c.check(false, "consistency", || e);
        }
        c.class("survived");
    } else {
        c.class("given up");
    }
}

fn normalized(w: &World, n: usize, order: usize, set: usize, drop: usize, scale: f64, c: &mut Case) {
    let perm = permutations(n)[order].clone();
    let st = VSlamSettings { maximum_cosine_distance: 1e-4, ..store::settings() };
    let mut s = w.slam(st);
    let k = reconstruct(w, &mut s, &perm);
    // Another scale, another world frame.
    let world = nudge(order + 3, 0.2);
    s.data.reconstructions[k].constraints.clear();
    let mut poses = BTreeMap::new();
    for f in 0..n {
        let v = view_of(w, &s.data, f).unwrap().1;
        let g = w.relative(0, f);
        let g = Rigid { t: mul(g.t, scale), ..g }.after(&world);
        s.data.reconstructions[k].views[v].pose = WorldToCamera(iso(&g));
        poses.insert(f, g);
    }
    for x in constraints(w, set, order, 0) {
        let views = x.f.map(|f| view_of(w, &s.data, f).unwrap().1);
        let p = x.p.map(|g| iso(&Rigid { t: mul(g.t, scale), ..g }));
        s.data.reconstructions[k].constraints.insert(ThreeViewConstraint { views, poses: p });
    }
    if drop < n {
        let v = view_of(w, &s.data, drop).unwrap().1;
        s.data.remove_view(k, v);
        poses.remove(&drop);
    }
    let before = extract(w, &s.data, k).unwrap();
    s.normalize_reconstruction(k);
    c.step();
    let after = match extract(w, &s.data, k) {
        Ok(r) => r,
        Err(e) => return c.check(false, "consistency", || e),
    };
    c.check(before == after, "structure", || format!("{before:?} became {after:?}"));
    let now = poses_now(w, &s, k);
    // The first view is the origin.
    let first = now.iter().find(|(_, g)| apart(g, &Rigid::ID) < 1e-12).map(|x| *x.0);
    c.check(first.is_some(), "origin", || format!("no camera is at the origin: {now:?}"));
    let Some(first) = first else { return };
    // The mean distance of the robust landmarks it sees is one.
    let dist: Vec<f64> = w.sees[first]
        .iter()
        .filter(|&&p| poses.keys().filter(|&&f| w.sees[f].contains(&p)).count() >= 3)
        .map(|&p| norm(w.cams[first].act(w.pts[p])))
        .collect();
    let mean = dist.iter().sum::<f64>() / dist.len() as f64;
    let mut worst = 0.0f64;
    for (f, g) in &now {
        let t = w.relative(first, *f);
        worst = worst.max(apart(g, &Rigid { t: mul(t.t, 1.0 / mean), ..t }));
    }
    c.check(worst < 1e-9, "poses", || format!("poses {now:?}, off by {worst}"));
    let r = &s.data.reconstructions[k];
    for x in r.constraints.values() {
        let f = x.views.map(|v| w.frame_ix(r.views[v].frame));
        for i in 1..3 {
            let t = w.relative(f[0], f[i]);
            let d = apart(&rigid(&x.poses[i - 1]), &Rigid { t: mul(t.t, 1.0 / mean), ..t });
            c.check(d < 1e-9, "constraints", || format!("the constraint on {f:?} is off by {d}"));
        }
    }
    c.class(if drop < n { "after a removal" } else { "complete" });
    c.outcome(&[worst * 1e9, mean]);
}

pub fn r03(run: &Run) {
    let w3 = store::world(3, 1);
    let w4 = store::world(4, 1);
    let w5 = store::world(5, 1);
    let w6 = store::world(6, 1);
    let rates = [0.0, 0.05, 0.25, 1.0];
    let iters = [1, 2, 3];
    run.grid("three views", &[("set", 2), ("perm", 6), ("poses", 4), ("wrong", 6), ("rate", 4), ("iterations", 3)], |x, c| {
        one(&w3, rates[x[4]], iters[x[5]], &disturbed(&w3, x[2]), &constraints(&w3, x[0], x[1], x[3]), c);
    });
    run.grid("four views", &[("set", 16), ("perm", 6), ("poses", 4), ("wrong", 6), ("rate", 4), ("iterations", 3)], |x, c| {
        one(&w4, rates[x[4]], iters[x[5]], &disturbed(&w4, x[2]), &constraints(&w4, x[0], x[1], x[3]), c);
    });
    let few = run.pick(1, 6);
    run.grid("five views", &[("set", 1024), ("perm", few), ("poses", 4), ("wrong", 6), ("iterations", 3)], |x, c| {
        one(&w5, 0.05, iters[x[4]], &disturbed(&w5, x[2]), &constraints(&w5, x[0], x[1], x[3]), c);
    });
    run.grid("convergence", &[("set", 16), ("poses", 4), ("perm", 6)], |x, c| {
        // All cameras in one connected graph.
        let cons = constraints(&w4, x[0], x[2], 0);
        let covered = (0..4).all(|f| cons.iter().any(|k| k.f.contains(&f)));
        if !covered {
            c.class("not connected");
            return;
        }
        let st = VSlamSettings { graph_optimization_rate: 0.1, optimization_iterations: 600, ..store::settings() };
        let (mut s, k) = build(&w4, st, &disturbed(&w4, x[1]), &cons);
        let got = s.apply_constraints(k);
        c.step();
        c.check(got == Some(k), "survival", || "the reconstruction is gone".into());
        if got.is_none() {
            return;
        }
        let now = poses_now(&w4, &s, k);
        let worst = now.iter().map(|(&i, g)| apart(&g.after(&now[&0].inv()), &w4.relative(0, i))).fold(0.0, f64::max);
        c.check(now.len() == 4 && worst < 1e-6, "satisfied", || format!("after many steps the cameras are off by {worst}"));
        c.class("converged");
    });
    // A constraint that removes cameras, beside up to three others.
    let mut sets: Vec<usize> = vec![];
    for a in 0..20 {
        for b in a..20 {
            for d in b..20 {
                sets.push(1 | 1 << a | 1 << b | 1 << d);
            }
        }
    }
    sets.sort_unstable();
    sets.dedup();
    sets.retain(|s| s & (1 << 19) != 0 || run.thorough());
    run.grid("six views", &[("set", sets.len()), ("poses", 2), ("wrong", 6), ("iterations", 3)], |x, c| {
        one(&w6, 0.05, x[3] + 1, &disturbed(&w6, 2 * x[1]), &constraints(&w6, sets[x[0]], x[0] % 6, x[2]), c);
    });
    let perms3 = permutations(3);
    run.grid("selection of three", &[("counts", 6)], |x, c| {
        let counts: Vec<usize> = perms3[x[0]].iter().map(|k| k + 1).collect();
        selections(3, &counts, 4, 4, c);
    });
    let perms6 = permutations(6);
    let mins = run.pick(2, 7);
    run.grid("selection of four", &[("counts", 720)], |x, c| {
        let counts: Vec<usize> = perms6[x[0]].iter().map(|k| k + 1).collect();
        selections(4, &counts, 6, mins, c);
    });
    let many = many_points();
    run.grid("made", &[("poses", 4), ("patience", 3), ("limit", 2), ("pair", 3), ("more", 4), ("least", 5)], |x, c| {
        made(&many, x[0], [1, 4, 20][x[1]], x[2] == 1, [0.0, 0.01, 0.05][x[3]], x[4] * 2, [1, 6, 8, 10, 13][x[5]], c);
    });
    let wn = store::world(4, 3);
    run.grid("normalized", &[("order", 24), ("set", 16), ("drop", 5), ("scale", 3)], |x, c| {
        normalized(&wn, 4, x[0], x[1], x[2], [1.0, 0.01, 40.0][x[3]], c);
    });
    run.grid("coincident cameras", &[("group", 7), ("order", run.pick(60, 720)), ("rate", 2)], |x, c| {
        let st = VSlamSettings { graph_optimization_rate: [0.0, 0.05][x[2]], optimization_minimum_new_constraints: 0, ..store::settings() };
        coincident(x[0], x[1], st, c);
    });
}

/// Four cameras; half of the points are seen by all, the others by three or two.
pub fn many_points() -> World {
    let base = store::world(4, 1);
    let pts: Vec<V3> = (0..14)
        .map(|i| {
            let x = i as f64;
            [1.6 * (x * 2.1).sin(), 1.6 * (x * 1.3).cos(), 5.0 + (x * 0.9).sin()]
        })
        .collect();
    let missing: [&[usize]; 14] = [&[], &[], &[], &[], &[], &[], &[0], &[0], &[0], &[1], &[1], &[2], &[1, 2], &[3, 0]];
    let sees = (0..4).map(|f| (0..14).map(|j| (j * 5 + f) % 14).filter(|&p| !missing[p].contains(&f)).collect()).collect();
    World::new(base.cams, pts, sees)
}
