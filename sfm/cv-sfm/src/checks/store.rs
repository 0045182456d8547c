//! R01: every sequence of operations on the store, against the partition of the observations it stands for.
use super::refm::*;
use super::world::*;
use crate::*;
use engine::{key128, Case, Run, System};
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct MRec {
    rec: Rec,
    /// The camera that is the origin of this reconstruction's world.
    base: usize,
    /// Frames of the constraints whose transformations must be the true ones, in any order.
    given: Vec<[usize; 3]>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct State {
    recs: Vec<MRec>,
    path: Vec<u16>,
}

#[derive(Clone, Copy, Debug)]
enum Act {
    /// New reconstruction from three frames with a pattern of matches.
    New([usize; 3], usize),
    /// Add a view of a frame with a pattern of matched landmarks.
    View(usize, usize, usize),
    Remove(usize, usize),
    Split(usize, usize, usize),
    Merge(usize, usize, usize),
    Dedup(usize, usize, usize),
    Drop(usize),
    Join(usize, usize, usize),
    FilterObs(usize),
    FilterLms(usize),
    Constrain(usize),
    Regenerate(usize),
}

struct Sys {
    w: World,
    acts: Vec<Act>,
    settings: VSlamSettings,
    init: Vec<State>,
}

pub fn settings() -> VSlamSettings {
    VSlamSettings {
        maximum_cosine_distance: 1e-6,
        maximum_sine_distance: 1e-4,
        robust_observation_incidence_minimum_cosine_distance: 1e-4,
        robust_minimum_observations: 3,
        robust_view_num_robust_bearing_pair: 0,
        minimum_robust_landmarks: 0,
        optimization_maximum_three_view_constraints: 1000,
        optimization_minimum_new_constraints: 0,
        optimization_minimum_landmarks: 1,
        optimization_robust_covisibility_minimum_landmarks: 1,
        optimization_iterations: 3,
        graph_optimization_rate: 0.0,
        constraint_patience: 2,
        reconstruction_optimization_iterations: 2,
        ..Default::default()
    }
}

/// Six cameras around three points; every pair of cameras and points is told apart by far more than the thresholds.
pub fn world(frames: usize, features: usize) -> World {
    let centres = [[0.0, 0.0, 0.0], [1.0, 0.2, -0.1], [-0.8, 0.5, 0.3], [0.3, -0.9, 0.2], [-0.4, -0.6, -0.5], [0.7, 0.8, 0.6]];
    let turns = [[0.0, 0.0, 0.0], [0.1, -0.2, 0.05], [-0.15, -0.1, 0.3], [0.2, 0.1, -0.4], [-0.1, 0.12, 0.2], [0.05, 0.25, -0.1]];
    let pts = vec![[0.5, 0.3, 5.0], [-1.0, 0.7, 6.0], [0.8, -1.1, 4.5]];
    let cams = (0..frames)
        .map(|i| {
            let r = exp_so3(turns[i]);
            Rigid { r, t: mul(mv(&r, centres[i]), -1.0) }
        })
        .collect();
    let sees = (0..frames).map(|i| (0..features).map(|j| (i + j) % features).collect()).collect();
    World::new(cams, pts, sees)
}

impl Sys {
    fn new(frames: usize, features: usize, min_constraints: usize) -> Sys {
        let w = world(frames, features);
        let mut acts = vec![];
        for a in 0..frames {
            for b in 0..frames {
                for c in 0..frames {
                    // Two of the six orders.
                    if (a < b && b < c) || (c < a && a < b) {
                        acts.extend((0..5).map(|p| Act::New([a, b, c], p)));
                    }
                }
            }
        }
        for r in 0..2 {
            for f in 0..frames {
                acts.extend((0..5).map(|p| Act::View(r, f, p)));
                acts.push(Act::Remove(r, f));
                acts.extend((0..features).map(|j| Act::Split(r, f, j)));
            }
            for i in 0..5 {
                for k in 0..5 {
                    if i != k {
                        acts.push(Act::Merge(r, i, k));
                        acts.push(Act::Dedup(r, i, k));
                    }
                }
            }
            acts.extend((0..3).map(|p| Act::Join(r, 1 - r, p)));
            acts.extend([Act::Drop(r), Act::FilterObs(r), Act::FilterLms(r), Act::Constrain(r), Act::Regenerate(r)]);
        }
        let s = VSlamSettings { optimization_minimum_new_constraints: min_constraints, ..settings() };
        Sys { w, acts, settings: s, init: vec![State { recs: vec![], path: vec![] }] }
    }
    /// Starts from given histories instead of from nothing.
    fn from(mut self, paths: &[Vec<Act>]) -> Sys {
        self.init = paths
            .iter()
            .map(|p| {
                let path: Vec<u16> = p
                    .iter()
                    .map(|a| self.acts.iter().position(|b| format!("{a:?}") == format!("{b:?}")).unwrap() as u16)
                    .collect();
                let mut c = Case::probe();
                let mut s = self.w.slam(self.settings);
                let (mut keys, mut recs) = (vec![], vec![]);
                for a in p {
                    recs = self.run(&mut s, &mut keys, &recs, *a, false, &mut c).unwrap().0;
                }
                State { recs, path }
            })
            .collect();
        self
    }
    fn pose(&self, base: usize, f: usize) -> Rigid {
        self.w.relative(base, f)
    }
    /// Landmarks of a view for each pattern: for every feature the canonical numbers of up to two landmarks.
    fn view_pattern(&self, m: &Rec, f: usize, p: usize) -> Option<Vec<Vec<usize>>> {
        let n = self.w.sees[f].len();
        let l = &m.lms;
        let disjoint = |a: usize, b: usize| l[a].iter().all(|x| l[b].iter().all(|y| x.0 != y.0));
        let mut pairs = vec![];
        for a in 0..l.len() {
            for b in a + 1..l.len() {
                if disjoint(a, b) {
                    pairs.push((a, b));
                }
            }
        }
        let mut out = vec![vec![]; n];
        match p {
            0 => {}
            1 => {
                for (j, o) in out.iter_mut().enumerate() {
                    if j < l.len() {
                        o.push(j);
                    }
                }
            }
            2 => {
                let &(a, b) = pairs.first()?;
                out[0] = vec![a, b];
                if let Some(x) = (0..l.len()).find(|&x| x != a && x != b) {
                    out[1] = vec![x];
                }
            }
            3 => {
                let &(a, b) = pairs.last()?;
                out[n - 1] = vec![b, a];
                if let Some(x) = (0..l.len()).find(|&x| x != a && x != b) {
                    out[0] = vec![x];
                }
            }
            _ => {
                for (j, o) in out.iter_mut().enumerate() {
                    let pt = self.w.sees[f][j];
                    let best = (0..l.len())
                        .filter(|&i| l[i].iter().all(|x| self.w.sees[x.0][x.1] == pt))
                        .max_by_key(|&i| (l[i].len(), usize::MAX - i));
                    o.extend(best);
                }
            }
        }
        Some(out)
    }
    /// Matches of a new reconstruction: (center, first, second), (center, first), (center, second).
    #[allow(clippy::type_complexity)]
    fn new_pattern(&self, f: [usize; 3], p: usize) -> (Vec<(usize, usize, usize)>, Vec<[usize; 2]>, Vec<[usize; 2]>) {
        let n = self.w.sees[f[0]].len();
        let of = |i: usize, pt: usize| self.w.sees[f[i]].iter().position(|&x| x == pt).unwrap();
        let all: Vec<_> = (0..n).map(|pt| (of(0, pt), of(1, pt), of(2, pt))).collect();
        match p {
            0 => (vec![], vec![], vec![]),
            1 => (all, vec![], vec![]),
            2 => (
                all[..1].to_vec(),
                all[1..2].iter().map(|x| [x.0, x.1]).collect(),
                all.get(2..3).unwrap_or(&[]).iter().map(|x| [x.0, x.2]).collect(),
            ),
            3 => ((0..n).map(|j| (j, j, j)).collect(), vec![], vec![]),
            _ => (vec![], (0..n).map(|j| [j, (j + 1) % n]).collect(), vec![]),
        }
    }
    /// Merges blocks of a partition that share an element.
    fn union(mut parts: Vec<Vec<Obs>>) -> Vec<Vec<Obs>> {
        let mut out: Vec<BTreeSet<Obs>> = vec![];
        for p in parts.drain(..) {
            let mut s: BTreeSet<Obs> = p.into_iter().collect();
            let mut rest = vec![];
            for o in out {
                if o.is_disjoint(&s) {
                    rest.push(o);
                } else {
                    s.extend(o);
                }
            }
            rest.push(s);
            out = rest;
        }
        let mut v: Vec<Vec<Obs>> = out.into_iter().map(|s| s.into_iter().collect()).collect();
        v.sort();
        v
    }
    fn without(parts: &[Vec<Obs>], drop: impl Fn(Obs) -> bool) -> Vec<Vec<Obs>> {
        let mut v: Vec<Vec<Obs>> = parts
            .iter()
            .map(|p| p.iter().copied().filter(|&o| !drop(o)).collect::<Vec<_>>())
            .filter(|p| !p.is_empty())
            .collect();
        v.sort();
        v
    }
    fn drop_view(m: &mut MRec, f: usize) {
        m.rec.views.retain(|&x| x != f);
        m.rec.lms = Self::without(&m.rec.lms, |o| o.0 == f);
        m.rec.cons.retain(|c| !c.contains(&f));
        m.given.retain(|c| !c.contains(&f));
    }
    fn holder(recs: &[MRec], f: usize) -> Option<usize> {
        recs.iter().position(|m| m.rec.views.contains(&f))
    }
    /// Cosine distance of an observation from a point, and whether every pair of a two-view landmark agrees.
    fn pair_ok(&self, a: Obs, b: Obs) -> bool {
        self.w.sees[a.0][a.1] == self.w.sees[b.0][b.1]
    }

    /// Executes one action on the real system and on the model. `None` when it is not enabled.
    /// `judge` is false while a known path is replayed. The last component tells whether to explore on from here.
    #[allow(clippy::type_complexity)]
    fn run(&self, s: &mut Slam, keys: &mut Vec<ReconstructionKey>, recs: &[MRec], a: Act, judge: bool, c: &mut Case) -> Option<(Vec<MRec>, bool)> {
        let w = &self.w;
        let mut m = recs.to_vec();
        let mut go_on = true;
        let lm = |s: &Slam, r: usize, i: usize| landmark_at(w, &s.data, keys[r], recs[r].rec.lms[i][0]);
        match a {
            Act::New(f, p) => {
                if m.len() >= 2 || f.iter().any(|&x| Self::holder(&m, x).is_some()) {
                    return None;
                }
                let (combined, first, second) = self.new_pattern(f, p);
                let mut parts: Vec<Vec<Obs>> = vec![];
                for &x in &f {
                    parts.extend((0..w.sees[x].len()).map(|j| vec![(x, j)]));
                }
                parts.extend(combined.iter().map(|x| vec![(f[0], x.0), (f[1], x.1), (f[2], x.2)]));
                parts.extend(first.iter().map(|x| vec![(f[0], x[0]), (f[1], x[1])]));
                parts.extend(second.iter().map(|x| vec![(f[0], x[0]), (f[2], x[1])]));
                let k = s.data.add_reconstruction(
                    w.frames[f[0]],
                    w.frames[f[1]],
                    w.frames[f[2]],
                    CameraToCamera(iso(&w.relative(f[0], f[1]))),
                    CameraToCamera(iso(&w.relative(f[0], f[2]))),
                    combined,
                    first,
                    second,
                );
                keys.push(k);
                let mut t = f;
                t.sort_unstable();
                m.push(MRec {
                    rec: Rec { views: f.to_vec(), lms: Self::union(parts), cons: vec![t] },
                    base: f[0],
                    given: vec![t],
                });
                c.class("new");
            }
            Act::View(r, f, p) => {
                if r >= m.len() || Self::holder(&m, f).is_some() {
                    return None;
                }
                let pat = self.view_pattern(&m[r].rec, f, p)?;
                if p > 0 && pat.iter().all(|x| x.is_empty()) {
                    return None;
                }
                let mut parts = m[r].rec.lms.clone();
                let mut map: HashMap<usize, ArrayVec<LandmarkKey, 2>> = HashMap::new();
                for (j, ls) in pat.iter().enumerate() {
                    let mut block = vec![(f, j)];
                    for &l in ls {
                        block.extend(&m[r].rec.lms[l]);
                        map.entry(j).or_default().push(lm(s, r, l));
                    }
                    parts.push(block);
                }
                let pose = self.pose(m[r].base, f);
                s.data.add_view(keys[r], w.frames[f], WorldToCamera(iso(&pose)), |j| map.get(&j).cloned());
                m[r].rec.lms = Self::union(parts);
                m[r].rec.views.push(f);
                c.class(if pat.iter().any(|x| x.len() == 2) { "view with merger" } else { "view" });
            }
            Act::Remove(r, f) => {
                if r >= m.len() || Self::holder(&m, f) != Some(r) {
                    return None;
                }
                let (k, v) = view_of(w, &s.data, f).unwrap();
                s.data.remove_view(k, v);
                Self::drop_view(&mut m[r], f);
                c.class("remove view");
            }
            Act::Split(r, f, j) => {
                if r >= m.len() || Self::holder(&m, f) != Some(r) {
                    return None;
                }
                let (k, v) = view_of(w, &s.data, f).unwrap();
                let big = m[r].rec.lms.iter().any(|l| l.contains(&(f, j)) && l.len() > 1);
                let split = s.data.split_observation(k, v, j);
                if judge {
                    c.check(split == big, "split result", || format!("split_observation says {split} for a landmark with more observations: {big}"));
                }
                let mut parts = Self::without(&m[r].rec.lms, |o| o == (f, j));
                parts.push(vec![(f, j)]);
                m[r].rec.lms = Self::union(parts);
                c.class(if big { "split" } else { "nothing to split" });
            }
            Act::Merge(r, i, k) => {
                if r >= m.len() || i.max(k) >= m[r].rec.lms.len() {
                    return None;
                }
                let (x, y) = (&m[r].rec.lms[i], &m[r].rec.lms[k]);
                if x.iter().any(|a| y.iter().any(|b| a.0 == b.0)) {
                    return None;
                }
                let (la, lb) = (lm(s, r, i), lm(s, r, k));
                let got = s.data.merge_landmarks(keys[r], la, lb);
                let block: Vec<Obs> = x.iter().chain(y).copied().collect();
                if judge {
                    let now = landmark_at(w, &s.data, keys[r], block[0]);
                    c.check(got == now, "merge result", || format!("merge_landmarks returns {got:?}, the observations are in {now:?}"));
                }
                let mut parts = m[r].rec.lms.clone();
                parts.push(block);
                m[r].rec.lms = Self::union(parts);
                c.class("merge");
            }
            Act::Dedup(r, i, k) => {
                if r >= m.len() || i.max(k) >= m[r].rec.lms.len() {
                    return None;
                }
                let (x, y) = (m[r].rec.lms[i].clone(), m[r].rec.lms[k].clone());
                let dups: Vec<(Obs, Obs)> =
                    x.iter().filter_map(|&a| y.iter().find(|b| b.0 == a.0).map(|&b| (a, b))).collect();
                let before = m[r].rec.clone();
                let loss: Vec<(f64, f64)> = dups
                    .iter()
                    .map(|&(a, b)| (self.loss(s, keys[r], m[r].base, &x, a), self.loss(s, keys[r], m[r].base, &y, b)))
                    .collect();
                let (la, lb) = (lm(s, r, i), lm(s, r, k));
                let got = s.merge_landmarks_dedup(keys[r], la, lb);
                let now = match extract(w, &s.data, keys[r]) {
                    Ok(n) => n,
                    Err(e) => {
                        c.check(false, "consistency", || format!("after {a:?}: {e}"));
                        return None;
                    }
                };
                if judge {
                    let find = |o: Obs| now.lms.iter().find(|l| l.contains(&o)).unwrap();
                    // Landmarks that do not take part stay.
                    let others = before.lms.iter().filter(|l| **l != x && **l != y).all(|l| now.lms.contains(l));
                    c.check(others, "dedup others", || format!("{before:?} became {now:?} by merging {x:?} and {y:?}"));
                    match got {
                        Some(l) => {
                            let merged = x.iter().chain(&y).filter(|o| dups.iter().all(|d| d.0 != **o && d.1 != **o));
                            let mut want: Vec<Obs> = merged.copied().collect();
                            let mut ok = true;
                            for &(a, b) in &dups {
                                let kept = if *find(a) == vec![a] { b } else { a };
                                let lost = if kept == a { b } else { a };
                                ok &= *find(lost) == vec![lost];
                                want.push(kept);
                            }
                            want.sort_unstable();
                            ok &= now.lms.contains(&want);
                            c.check(ok, "dedup merged", || format!("merging {x:?} and {y:?} gave {now:?}"));
                            if ok {
                                let real = landmark_at(w, &s.data, keys[r], want[0]);
                                c.check(real == l, "dedup key", || format!("returned {l:?}, the observations are in {real:?}"));
                            }
                            c.class(if dups.is_empty() { "deduplicated: none" } else { "deduplicated" });
                        }
                        None => {
                            let refines = now.lms.iter().all(|l| before.lms.iter().any(|b| l.iter().all(|o| b.contains(o))));
                            c.check(refines && !dups.is_empty(), "dedup refused", || format!("merging {x:?} and {y:?} gave up and left {now:?}"));
                            c.class("deduplication impossible");
                        }
                    }
                    if dups.len() == 1 && (loss[0].0 - loss[0].1).abs() > 1e-9 {
                        // The worse of the two observations goes, and the merger is only refused if it was all there was.
                        let (bad, from) = if loss[0].0 > loss[0].1 { (dups[0].0, &x) } else { (dups[0].1, &y) };
                        let possible = from.len() > 1;
                        c.check(got.is_some() == possible, "dedup choice", || format!("merging {x:?} and {y:?} with losses {loss:?}: merged {}", got.is_some()));
                        c.check(*find(bad) == vec![bad], "dedup worst", || format!("{bad:?} is worse ({loss:?}) but stayed in {:?}", find(bad)));
                        c.class("the worse observation goes");
                    }
                }
                m[r].rec.lms = now.lms;
                go_on = dups.len() <= 1;
            }
            Act::Drop(r) => {
                if r >= m.len() {
                    return None;
                }
                s.data.remove_reconstruction(keys[r]);
                m.remove(r);
                keys.remove(r);
                c.class("remove reconstruction");
            }
            Act::Join(src, dest, p) => {
                if src.max(dest) >= m.len() {
                    return None;
                }
                let (a, b) = (&m[src], &m[dest]);
                let pairs: Vec<(usize, usize)> = match p {
                    0 => vec![],
                    1 => (0..a.rec.lms.len().min(b.rec.lms.len()).min(2)).map(|i| (i, i)).collect(),
                    _ => {
                        let point = |l: &[Obs]| {
                            let p = w.sees[l[0].0][l[0].1];
                            l.iter().all(|o| w.sees[o.0][o.1] == p).then_some(p)
                        };
                        let n = w.pts.len();
                        (0..n)
                            .filter_map(|pt| {
                                Some((
                                    a.rec.lms.iter().rposition(|l| point(l) == Some(pt))?,
                                    b.rec.lms.iter().position(|l| point(l) == Some(pt))?,
                                ))
                            })
                            .collect()
                    }
                };
                if p > 0 && pairs.is_empty() {
                    return None;
                }
                let map = pairs.iter().map(|&(i, k)| (lm(s, src, i), lm(s, dest, k))).collect();
                // From the world of `src` to that of `dest`: both are the frames of their base cameras.
                let t = w.relative(a.base, b.base);
                let mut parts: Vec<Vec<Obs>> = a.rec.lms.iter().chain(&b.rec.lms).cloned().collect();
                parts.extend(pairs.iter().map(|&(i, k)| a.rec.lms[i].iter().chain(&b.rec.lms[k]).copied().collect()));
                let lms = Self::union(parts);
                let (from, old) = (a.rec.views.clone(), b.rec.views.clone());
                s.incorporate_reconstruction(keys[src], keys[dest], WorldToWorld(iso(&t)), map);
                // Views that cannot be constrained are removed again.
                let kept: Vec<usize> =
                    from.iter().copied().filter(|&f| view_of(w, &s.data, f).is_some_and(|v| v.0 == keys[dest])).collect();
                if judge {
                    let must = self.settings.optimization_minimum_new_constraints == 0;
                    c.check(!must || kept == from, "join loses views", || format!("views {from:?} were moved, {kept:?} arrived"));
                    c.check(!s.data.reconstructions.contains_key(keys[src]), "join source", || "the source reconstruction still exists".into());
                    if kept != from {
                        c.class("moved views without constraints removed");
                    }
                }
                let n = &mut m[dest];
                n.rec.lms = Self::without(&lms, |o| from.contains(&o.0) && !kept.contains(&o.0));
                n.rec.views = old.into_iter().chain(kept).collect();
                self.take_constraints(s, keys[dest], n, judge, false, c)?;
                m.remove(src);
                keys.remove(src);
                c.class("join");
            }
            Act::FilterObs(r) => {
                if r >= m.len() {
                    return None;
                }
                // Decide every landmark before.
                let before = m[r].rec.clone();
                let mut want: Vec<Vec<Obs>> = vec![];
                for l in &before.lms {
                    match l.len() {
                        1 => want.push(l.clone()),
                        2 => {
                            if self.pair_ok(l[0], l[1]) {
                                want.push(l.clone());
                            } else {
                                want.extend(l.iter().map(|&o| vec![o]));
                            }
                        }
                        _ => {
                            let key = landmark_at(w, &s.data, keys[r], l[0]);
                            match s.triangulate_landmark(keys[r], key) {
                                None => want.extend(l.iter().map(|&o| vec![o])),
                                Some(p) => {
                                    let (mut stay, mut go) = (vec![], vec![]);
                                    for &o in l {
                                        let x = p.bearing();
                                        let d = self.distance(m[r].base, o, p.point().map(|p| arr(&p.coords)), arr(&x));
                                        if (d / self.settings.maximum_cosine_distance).ln().abs() < 1e-3 {
                                            return None; // decided by rounding
                                        }
                                        if d > self.settings.maximum_cosine_distance {
                                            go.push(o);
                                        } else {
                                            stay.push(o);
                                        }
                                    }
                                    if stay.is_empty() {
                                        // The last observation cannot leave.
                                        stay.push(go.pop().unwrap());
                                    }
                                    want.push(stay);
                                    want.extend(go.into_iter().map(|o| vec![o]));
                                }
                            }
                        }
                    }
                }
                want.sort();
                if want != before.lms {
                    c.class("filtered observations");
                }
                let got = s.filter_non_robust_observations(keys[r]);
                if judge {
                    c.check(got == Some(keys[r]), "filter result", || format!("the filter returned {got:?}"));
                }
                m[r].rec.lms = want;
            }
            Act::FilterLms(r) => {
                if r >= m.len() {
                    return None;
                }
                let views = m[r].rec.views.len();
                let mut want: Vec<Vec<Obs>> = vec![];
                for l in &m[r].rec.lms {
                    let key = landmark_at(w, &s.data, keys[r], l[0]);
                    let enough = l.len() >= self.settings.robust_minimum_observations.min(views) && self.spread(m[r].base, l);
                    let tri = s.triangulate_landmark(keys[r], key).is_some();
                    if l.len() > 1 && !(enough && tri) {
                        want.extend(l.iter().map(|&o| vec![o]));
                    } else {
                        want.push(l.clone());
                    }
                }
                want.sort();
                if want != m[r].rec.lms {
                    c.class("filtered landmarks");
                }
                s.filter_non_robust_landmarks(keys[r]);
                m[r].rec.lms = want;
            }
            Act::Constrain(r) => {
                if r >= m.len() {
                    return None;
                }
                let got = s.apply_constraints(keys[r]);
                // Views without constraints go, and a reconstruction that would keep fewer than three with it.
                let keep: Vec<usize> =
                    m[r].rec.views.iter().copied().filter(|f| m[r].rec.cons.iter().any(|x| x.contains(f))).collect();
                let alive = keep.len() >= 3;
                if judge {
                    c.check(got.is_some() == alive, "constrain result", || format!("{got:?}, but views {keep:?} have constraints"));
                }
                if alive {
                    let gone: Vec<usize> = m[r].rec.views.iter().copied().filter(|f| !keep.contains(f)).collect();
                    if !gone.is_empty() {
                        c.class("views without constraints removed");
                    }
                    for f in gone {
                        Self::drop_view(&mut m[r], f);
                    }
                    c.class("constrained");
                } else {
                    m.remove(r);
                    keys.remove(r);
                    c.class("reconstruction given up");
                }
            }
            Act::Regenerate(r) => {
                if r >= m.len() || self.settings.optimization_minimum_new_constraints > 0 {
                    return None;
                }
                let got = s.regenerate_reconstruction(keys[r]);
                // Only consistency is judged: what is left is taken from the result.
                match got {
                    None => {
                        m.remove(r);
                        keys.remove(r);
                        c.class("not regenerated");
                    }
                    Some(_) => {
                        let now = match extract(w, &s.data, keys[r]) {
                            Ok(n) => n,
                            Err(e) => {
                                c.check(false, "consistency", || format!("after {a:?}: {e}"));
                                return None;
                            }
                        };
                        if judge {
                            let before = &m[r].rec;
                            let ok = now.lms.iter().all(|l| before.lms.iter().any(|b| l.iter().all(|o| b.contains(o))))
                                && now.views.iter().all(|v| now.cons.iter().any(|c| c.contains(v)));
                            c.check(ok, "regenerate", || format!("{before:?} became {now:?}"));
                        }
                        m[r].rec = now;
                        m[r].given.clear();
                        c.class("regenerated");
                    }
                }
                go_on = false;
            }
        }
        Some((m, go_on))
    }

    /// Constraints that were generated: taken from the result after checking them.
    fn take_constraints(&self, s: &Slam, k: ReconstructionKey, m: &mut MRec, judge: bool, all: bool, c: &mut Case) -> Option<()> {
        match extract(&self.w, &s.data, k) {
            Ok(n) => {
                if judge {
                    let before: Vec<_> = if all { vec![] } else { m.rec.cons.clone() };
                    let mut rest = n.cons.clone();
                    let kept = before.iter().all(|x| rest.iter().position(|y| x == y).map(|i| rest.remove(i)).is_some());
                    c.check(kept, "constraints kept", || format!("of {before:?} only {:?} are left", n.cons));
                    if !rest.is_empty() {
                        c.class("constraints generated");
                    }
                }
                m.rec.cons = n.cons;
                Some(())
            }
            Err(e) => {
                c.check(false, "consistency", || format!("after moving views: {e}"));
                None
            }
        }
    }

    /// One minus the cosine between an observation and a point of the reconstruction.
    fn distance(&self, base: usize, o: Obs, p: Option<V3>, dir: V3) -> f64 {
        let g = self.pose(base, o.0);
        let x = match p {
            Some(p) => g.act(p),
            None => g.rotate(dir),
        };
        1.0 - dot(unit(x), self.w.bearing(o.0, o.1))
    }
    fn spread(&self, base: usize, l: &[Obs]) -> bool {
        let d: Vec<V3> = l.iter().map(|&o| self.pose(base, o.0).inv().rotate(self.w.bearing(o.0, o.1))).collect();
        d.iter().enumerate().any(|(i, a)| {
            d[..i].iter().any(|b| 1.0 - dot(*a, *b) > self.settings.robust_observation_incidence_minimum_cosine_distance)
        })
    }
    /// How badly an observation fits its landmark: the same rule as documented for observations.
    fn loss(&self, s: &Slam, k: ReconstructionKey, base: usize, l: &[Obs], o: Obs) -> f64 {
        match l.len() {
            1 => 2.0,
            2 => {
                // The sine of the angle to the epipolar plane: half of it at either bearing for the best pose.
                let (a, b) = (l[0], l[1]);
                let (ga, gb) = (self.pose(base, a.0).inv(), self.pose(base, b.0).inv());
                let (da, db) = (ga.rotate(self.w.bearing(a.0, a.1)), gb.rotate(self.w.bearing(b.0, b.1)));
                let t = sub(gb.t, ga.t);
                let e = cv_geom::epipolar::loss(v3(t), UnitVector3::new_normalize(v3(da)), UnitVector3::new_normalize(v3(db)));
                1.0 - (1.0 - e * e).max(0.0).sqrt()
            }
            _ => match s.triangulate_landmark(k, landmark_at(&self.w, &s.data, k, o)) {
                Some(p) => self.distance(base, o, p.point().map(|p| arr(&p.coords)), arr(&p.bearing())),
                None => 2.0,
            },
        }
    }
    fn judge(&self, s: &Slam, keys: &[ReconstructionKey], m: &[MRec], a: Act, c: &mut Case) -> bool {
        let w = &self.w;
        let mut ok = true;
        let mut chk = |r: Result<(), String>, key: &str, c: &mut Case| {
            c.check(r.is_ok(), key, || format!("after {a:?}: {}", r.clone().unwrap_err()));
            ok &= r.is_ok();
        };
        chk(frames_ok(w, &s.data), "frames", c);
        chk(if s.data.reconstructions.len() == m.len() { Ok(()) } else { Err(format!("{} reconstructions instead of {}", s.data.reconstructions.len(), m.len())) }, "reconstructions", c);
        for (k, x) in keys.iter().zip(m) {
            match extract(w, &s.data, *k) {
                Err(e) => chk(Err(e), "consistency", c),
                Ok(n) => {
                    let mut v = x.rec.views.clone();
                    v.sort_unstable();
                    let mut nv = n.views.clone();
                    nv.sort_unstable();
                    chk(if nv == v { Ok(()) } else { Err(format!("views of {nv:?} instead of {v:?}")) }, "views", c);
                    chk(if n.lms == x.rec.lms { Ok(()) } else { Err(format!("landmarks {:?} instead of {:?}", n.lms, x.rec.lms)) }, "landmarks", c);
                    let mut cons = x.rec.cons.clone();
                    cons.sort_unstable();
                    chk(if n.cons == cons { Ok(()) } else { Err(format!("constraints {:?} instead of {cons:?}", n.cons)) }, "constraints", c);
                    let poses = self.poses_ok(s, *k, x);
                    if poses.is_ok() {
                        chk(self.points_ok(s, *k, x, &n), "points", c);
                    }
                    chk(poses, "poses", c);
                }
            }
        }
        ok
    }
    /// Landmarks are robust, and triangulated at their point, as their observations demand; so are two of them
    /// together and one without a view.
    fn points_ok(&self, s: &Slam, k: ReconstructionKey, x: &MRec, n: &Rec) -> Result<(), String> {
        let w = &self.w;
        let least = self.settings.robust_minimum_observations.min(n.views.len());
        let point = |o: &Obs| w.sees[o.0][o.1];
        // Where all of the observations see the same point, it has to be found at its place.
        let at = |obs: &[Obs], got: Option<WorldPoint>, want: Option<bool>, what: &str| {
            if got.is_some() && want == Some(false) {
                return Err(format!("{what} of {obs:?} is not robust, but a point {got:?}"));
            }
            if obs.len() < 2 || obs.iter().any(|o| point(o) != point(&obs[0])) {
                return Ok(());
            }
            let p = w.cams[x.base].act(w.pts[point(&obs[0])]);
            match got.map(|g| g.point().map(|g| arr(&g.coords))) {
                Some(Some(g)) if vdiff(g, p) < 1e-7 => Ok(()),
                None if want == Some(false) || want.is_none() => Ok(()),
                _ => Err(format!("{what} of {obs:?} is {got:?} instead of {p:?}")),
            }
        };
        for l in &n.lms {
            let key = landmark_at(w, &s.data, k, l[0]);
            let robust = l.len() >= least && self.spread(x.base, l);
            if s.is_landmark_robust(k, key) != robust {
                return Err(format!("{l:?} is robust: {}", !robust));
            }
            at(l, s.triangulate_landmark(k, key), Some(true), "landmark")?;
            at(l, s.triangulate_landmark_robust(k, key), Some(robust), "robust landmark")?;
            for o in l {
                let v = view_of(w, &s.data, o.0).unwrap().1;
                if vdiff(arr(&s.data.landmark_bearing(k, v, key)), w.bearing(o.0, o.1)) > 1e-12 {
                    return Err(format!("the bearing of {o:?} of its landmark is another"));
                }
                let rest: Vec<Obs> = l.iter().copied().filter(|q| q != o).collect();
                let spread = self.spread(x.base, &rest);
                // Whether few observations are enough when a view is ignored is not specified.
                let want = if spread && rest.len() < least { None } else { Some(spread) };
                if want.is_some_and(|r| r != s.is_landmark_robust_without_view(k, key, v)) {
                    return Err(format!("{l:?} without frame {} is robust: {}", o.0, !spread));
                }
                at(&rest, s.triangulate_landmark_robust_without_view(k, key, v), want, "landmark without a view")?;
            }
            for q in &n.lms {
                if q.iter().any(|a| l.iter().any(|b| a.0 == b.0)) {
                    continue;
                }
                let both: Vec<Obs> = l.iter().chain(q).copied().collect();
                let robust = both.len() >= least && self.spread(x.base, &both);
                let two = [key, landmark_at(w, &s.data, k, q[0])];
                if s.is_merged_landmark_robust(k, two) != robust {
                    return Err(format!("{l:?} and {q:?} are robust together: {}", !robust));
                }
                at(&both, s.triangulate_merged_landmark_robust(k, two), Some(robust), "merged landmark")?;
            }
        }
        Ok(())
    }
    fn poses_ok(&self, s: &Slam, k: ReconstructionKey, x: &MRec) -> Result<(), String> {
        let w = &self.w;
        let r = s.data.reconstruction(k);
        for v in r.views.values() {
            let f = w.frame_ix(v.frame);
            let e = apart(&rigid(&v.pose.isometry()), &self.pose(x.base, f));
            if e > 1e-9 {
                return Err(format!("the pose of frame {f} is off by {e:e}"));
            }
        }
        for g in &x.given {
            let found = r.constraints.values().any(|q| {
                let f = q.views.map(|v| w.frame_ix(r.views[v].frame));
                let mut t = f;
                t.sort_unstable();
                t == *g
                    && (1..3).all(|i| apart(&rigid(&q.poses[i - 1]), &w.relative(f[0], f[i])) < 1e-9)
            });
            if !found {
                return Err(format!("no constraint between frames {g:?} has their true motion"));
            }
        }
        Ok(())
    }
}

impl System for Sys {
    type S = State;
    fn init(&self) -> Vec<State> {
        self.init.clone()
    }
    fn actions(&self) -> usize {
        self.acts.len()
    }
    fn step(&self, st: &State, a: usize, c: &mut Case) -> Option<State> {
        let mut s = self.w.slam(self.settings);
        let mut keys = vec![];
        let mut recs: Vec<MRec> = vec![];
        for &p in &st.path {
            recs = self.run(&mut s, &mut keys, &recs, self.acts[p as usize], false, c)?.0;
        }
        let (mut next, go_on) = self.run(&mut s, &mut keys, &recs, self.acts[a], true, c)?;
        if !self.judge(&s, &keys, &next, self.acts[a], c) || !go_on {
            return None;
        }
        // The order of keys is part of the state.
        for (m, &k) in next.iter_mut().zip(&keys) {
            m.rec.views = extract(&self.w, &s.data, k).unwrap().views;
        }
        let mut path = st.path.clone();
        path.push(a as u16);
        Some(State { recs: next, path })
    }
    fn inspect(&self, _: &State, _: &mut Case) {}
    fn key(&self, s: &State) -> u128 {
        key128(&s.recs)
    }
}

pub fn r01(run: &Run) {
    run.bfs("two features per frame", &Sys::new(4, 2, 0), run.pick(4, 5), 10_000_000);
    run.bfs("three features per frame", &Sys::new(5, 3, 0), run.pick(3, 4), 10_000_000);
    run.bfs("constraints required", &Sys::new(5, 3, 3), run.pick(2, 3), 10_000_000);
    let mut two = vec![];
    for p in 0..5 {
        for q in 0..5 {
            two.push(vec![Act::New([0, 1, 2], p), Act::New([3, 4, 5], q)]);
        }
    }
    run.bfs("two reconstructions", &Sys::new(6, 2, 0).from(&two), run.pick(2, 3), 10_000_000);
    run.bfs("two larger reconstructions", &Sys::new(6, 3, 1).from(&two), run.pick(1, 3), 10_000_000);
}
