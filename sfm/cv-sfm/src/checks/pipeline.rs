//! R05: frames arriving one after the other. What is reconstructed is true, and what can be reconstructed is.
use super::refm::*;
use super::world::*;
use crate::*;
use engine::{Case, Run};
use std::collections::BTreeSet;

pub fn settings() -> VSlamSettings {
    VSlamSettings {
        robust_view_num_robust_bearing_pair: 3,
        minimum_robust_landmarks: 12,
        two_view_minimum_robust_matches: 32,
        two_view_consensus_threshold: 1e-9,
        single_view_consensus_threshold: 1e-9,
        single_view_minimum_landmarks: 12,
        single_view_minimum_robust_landmarks: 12,
        single_view_patience: 60,
        three_view_patience: 60,
        three_view_filter_loop_iterations: 1,
        three_view_minimum_relative_scales: 16,
        three_view_minimum_robust_matches: 32,
        single_view_filter_loop_iterations: 1,
        tracking_recent_frames: 20,
        tracking_similar_frames: 0,
        optimization_minimum_new_constraints: 1,
        optimization_minimum_landmarks: 8,
        optimization_robust_covisibility_minimum_landmarks: 8,
        optimization_iterations: 4,
        reconstruction_optimization_iterations: 1,
        constraint_patience: 20,
        ..Default::default()
    }
}

/// The frames arrive in their order. Calls back after each with the number of frames there are.
pub fn arrive(w: &World, s: &mut Slam, mut after: impl FnMut(&mut Slam, usize)) {
    for i in 0..w.frames.len() {
        let f = w.enter(s, i);
        let (reconstruction_frames, free_frames) = s.data.find_visually_similar_and_recent_frames(
            f,
            s.settings.tracking_similar_frames,
            s.settings.tracking_recent_frames,
            s.settings.tracking_similar_frame_recent_threshold,
            s.settings.tracking_similar_frame_search_num,
        );
        s.try_localize(f, reconstruction_frames, free_frames);
        after(s, i + 1);
    }
}

/// Every reconstruction is consistent, joins only observations of one point, and has the true shape.
/// Returns the frames of each reconstruction.
pub fn judge(w: &World, s: &Slam, tol: f64, c: &mut Case) -> Option<Vec<Rec>> {
    let mut out = vec![];
    for k in s.data.reconstructions() {
        let r = match extract(w, &s.data, k) {
            Ok(r) => r,
            Err(e) => {
                c.check(false, "consistency", || e);
                return None;
            }
        };
        let same = r.lms.iter().all(|l| l.iter().all(|o| w.sees[o.0][o.1] == w.sees[l[0].0][l[0].1]));
        c.check(same, "points", || format!("a landmark joins observations of different points: {:?}", r.lms));
        // Up to a similarity.
        let g: Vec<(usize, Rigid)> = s.data.reconstructions[k].views.values().map(|v| (w.frame_ix(v.frame), rigid(&v.pose.isometry()))).collect();
        let (f0, g0) = g[0];
        let rel: Vec<(Rigid, Rigid)> = g.iter().map(|(f, h)| (h.after(&g0.inv()), w.relative(f0, *f))).collect();
        let (a, b): (f64, f64) = (rel.iter().map(|x| dot(x.0.t, x.1.t)).sum(), rel.iter().map(|x| dot(x.1.t, x.1.t)).sum());
        let scale = a / b;
        let off = rel.iter().map(|x| mdiff(&x.0.r, &x.1.r).max(vdiff(mul(x.0.t, 1.0 / scale), x.1.t))).fold(0.0, f64::max);
        c.check(g.len() >= 3 && scale > 0.0 && off < tol, "shape", || format!("the cameras {:?} are off by {off} at the scale {scale}", r.views));
        c.outcome(&[off * 1e6, scale]);
        out.push(r);
    }
    if let Err(e) = frames_known(w, &s.data) {
        c.check(false, "frames", || e);
    }
    Some(out)
}

fn frames_known(w: &World, d: &VSlamData) -> Result<(), String> {
    for (i, &k) in w.frames.iter().enumerate() {
        if let Some((r, v)) = d.frames.get(k).and_then(|f| f.view) {
            if !d.reconstructions.get(r).and_then(|r| r.views.get(v)).is_some_and(|v| v.frame == k) {
                return Err(format!("frame {i} claims a view that does not exist or is another's"));
            }
        }
    }
    Ok(())
}

pub fn permutation(mut i: usize, n: usize) -> Vec<usize> {
    let mut free: Vec<usize> = (0..n).collect();
    (0..n)
        .map(|k| {
            let m = n - k;
            let r = free.remove(i % m);
            i /= m;
            r
        })
        .collect()
}

pub fn camera(i: usize) -> Rigid {
    let centres =
        [[0.0, 0.0, 0.0], [1.0, 0.2, -0.1], [-0.8, 0.5, 0.3], [0.3, -0.9, 0.2], [-0.4, -0.6, -0.5], [0.7, 0.8, 0.6], [-1.1, -0.1, 0.2]];
    let turns = [
        [0.0, 0.0, 0.0],
        [0.1, -0.2, 0.05],
        [-0.15, -0.1, 0.3],
        [0.2, 0.1, -0.4],
        [-0.1, 0.12, 0.2],
        [0.05, 0.25, -0.1],
        [-0.2, 0.15, 0.1],
    ];
    let r = exp_so3(turns[i]);
    Rigid { r, t: mul(mv(&r, centres[i]), -1.0) }
}

/// A cloud of points. The narrow ones all lie within a few degrees.
pub fn point(i: usize, narrow: bool) -> V3 {
    let x = i as f64;
    let (s, d) = if narrow { (0.2, 0.35) } else { (2.2, 1.5) };
    [s * (x * 2.399).sin() + 0.3, s * (x * 1.271).cos() - 0.2, 5.5 + d * (x * 0.773).sin()]
}

/// The points seen by each frame, in an order of its own.
pub fn mixed(sees: Vec<Vec<usize>>) -> Vec<Vec<usize>> {
    sees.into_iter()
        .enumerate()
        .map(|(f, v)| {
            let n = v.len();
            let step = (3 + 4 * f..).find(|s| gcd(*s, n) == 1).unwrap();
            (0..n).map(|i| v[(i * step + f) % n]).collect()
        })
        .collect()
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}

pub fn r05(run: &Run) {
    // All frames see all points.
    let n = run.pick(4, 5);
    let orders: usize = (1..=n).product();
    run.grid("all see all", &[("order", orders), ("initial features", 5)], |x, c| {
        let p = permutation(x[0], n);
        let w = World::new(p.iter().map(|&i| camera(i)).collect(), (0..40).map(|i| point(i, false)).collect(), mixed(vec![(0..40).collect(); n]));
        let st = VSlamSettings { single_view_initial_features: [0, 1, 7, 40, 1000][x[1]], ..settings() };
        let mut s = w.empty_slam(st);
        arrive(&w, &mut s, |s, k| {
            c.step();
            let Some(recs) = judge(&w, s, 1e-4, c) else { return };
            if k < 3 {
                c.check(recs.is_empty(), "too early", || format!("{} reconstructions of {k} frames", recs.len()));
                return;
            }
            // With few features to begin with, not all of them need to be matched.
            let all = st.single_view_initial_features >= 40;
            let whole = recs.len() == 1 && recs[0].views.len() == k && (!all || (recs[0].lms.len() == 40 && recs[0].lms.iter().all(|l| l.len() == k)));
            c.check(whole, "complete", || format!("of {k} frames that see the same points: {recs:?}"));
            c.class(["", "", "", "three frames", "four frames", "five frames"][k]);
        });
    });
    // Which frames see the spread points and which the narrow ones only.
    run.grid("narrow and wide", &[("order", 24), ("wide", 16)], |x, c| {
        let p = permutation(x[0], 4);
        let pts: Vec<V3> = (0..80).map(|i| point(i, i >= 40)).collect();
        let wide = |f: usize| x[1] >> p[f] & 1 == 1;
        let sees = (0..4).map(|f| if wide(f) { (0..80).collect() } else { (40..80).collect::<Vec<_>>() }).collect();
        let w = World::new(p.iter().map(|&i| camera(i)).collect(), pts, mixed(sees));
        let st = VSlamSettings { robust_view_bearing_pair_minimum_cosine_distance: 0.02, ..settings() };
        let mut s = w.empty_slam(st);
        arrive(&w, &mut s, |s, k| {
            c.step();
            let Some(recs) = judge(&w, s, 1e-3, c) else { return };
            let have = (0..k).filter(|&f| wide(f)).count();
            c.check((have >= 3) <= (recs.len() == 1), "found", || format!("{have} of {k} frames see widely spread points, {} reconstructions", recs.len()));
            c.check((have < 3) <= recs.is_empty(), "narrow", || format!("{have} of {k} frames see widely spread points, {} reconstructions", recs.len()));
            if k == 4 {
                c.class(if recs.is_empty() { "nothing" } else { "reconstructed" });
            }
        });
    });
    // Frames that see overlapping parts.
    run.grid("parts", &[("order", 24), ("first", 4), ("second", 4), ("third", 4), ("fourth", 4)], |x, c| {
        if !run.thorough() && (x[1] + 2 * x[2] + 3 * x[3] + x[4] + x[0]) % 10 != 0 {
            return;
        }
        let p = permutation(x[0], 4);
        let pts: Vec<V3> = (0..72).map(|i| point(i, false)).collect();
        let part: [&[usize]; 4] = [&[0, 1, 2], &[0, 1], &[1, 2], &[0, 2]];
        let sees: Vec<Vec<usize>> = (0..4).map(|f| (0..72).filter(|q| part[x[1 + p[f]]].contains(&(q / 24))).collect()).collect();
        let w = World::new(p.iter().map(|&i| camera(i)).collect(), pts, mixed(sees.clone()));
        let mut s = w.empty_slam(settings());
        arrive(&w, &mut s, |s, k| {
            c.step();
            let Some(recs) = judge(&w, s, 1e-3, c) else { return };
            let common = |f: &[usize]| (0..72).filter(|q| f.iter().all(|&g| sees[g].contains(q))).count();
            let mut can = false;
            for a in 0..k {
                for b in a + 1..k {
                    for d in b + 1..k {
                        can |= common(&[a, b, d]) >= 40;
                    }
                }
            }
            c.check(!can || !recs.is_empty(), "found", || format!("frames seeing {sees:?} of which {k} are there: nothing"));
            let in_rec: BTreeSet<usize> = recs.iter().flat_map(|r| r.views.iter().copied()).collect();
            if k == 4 {
                c.class(match (recs.len(), in_rec.len()) {
                    (0, _) => "nothing",
                    (_, 4) => "all frames",
                    _ => "some frames",
                });
            }
        });
    });
    // Two groups of cameras with their own points and a few common ones, and a camera that sees everything.
    run.grid("merging", &[("first baseline", 3), ("second baseline", 3), ("common points", 3), ("order", run.pick(2, 6)), ("points of the last", 4)], |x, c| {
        let common = [0, 6, 10][x[2]];
        let pts: Vec<V3> = (0..80 + common).map(|i| point(i, false)).collect();
        let p = permutation(if run.thorough() { x[3] } else { 4 * x[3] }, 3);
        let size = [1.0, 0.5, 1.7];
        let cam = |f: usize| {
            let g = camera(f);
            let s = if f < 3 { size[x[0]] } else { size[x[1]] };
            Rigid { t: mul(g.t, s), ..g }
        };
        let order = [p[0], p[1], p[2], 3 + p[2], 3 + p[0], 3 + p[1], 6];
        let sees = order
            .iter()
            .map(|&f| match f {
                0..=2 => (0..40).chain(80..80 + common).collect::<Vec<_>>(),
                3..=5 => (40..80 + common).collect(),
                _ => (0..[80 + common, 80, 75, 70][x[4]]).collect(),
            })
            .collect();
        let w = World::new(order.iter().map(|&f| if f == 6 { camera(6) } else { cam(f) }).collect(), pts, mixed(sees));
        let mut s = w.empty_slam(settings());
        arrive(&w, &mut s, |s, k| {
            c.step();
            let Some(recs) = judge(&w, s, 1e-3, c) else { return };
            if k == 6 {
                c.check(recs.len() == 2, "two", || format!("{recs:?}"));
            }
            if k == 7 {
                // The scales of the groups can be related once points are seen by both groups and the last frame.
                let seen = [80 + common, 80, 75, 70][x[4]];
                let shared = seen.saturating_sub(80);
                if shared > 0 {
                    c.check(recs.len() == 1 && recs[0].views.len() == 7, "merged", || format!("{shared} common points: {recs:?}"));
                } else {
                    c.check(recs.len() == 2, "scale unknown", || format!("merged without common points: {recs:?}"));
                }
                c.class(match recs.len() {
                    1 => "merged",
                    _ => "not merged",
                });
                let Some(r) = recs.iter().find(|r| r.views.len() == 7) else { return };
                // Whatever the last frame sees, it was registered with: each such point has one landmark with its observation.
                for q in 0..seen {
                    let o: Vec<(usize, usize)> = (0..7).filter_map(|f| w.sees[f].iter().position(|&p| p == q).map(|i| (f, i))).collect();
                    let joined = r.lms.iter().any(|l| l.contains(&o[0]) && l.contains(o.last().unwrap()));
                    c.check(joined, "joined", || format!("point {q} seen by {o:?}: {:?}", r.lms));
                }
            }
        });
    });
    // Landmarks that fell apart are joined again by a frame that sees their point, unless a view sees both.
    let parts: [&[usize]; 8] = [&[0, 0, 0, 0], &[0, 0, 1, 1], &[0, 1, 0, 1], &[0, 1, 1, 1], &[1, 1, 0, 1], &[1, 1, 1, 0], &[0, 1, 1, 2], &[0, 1, 2, 3]];
    run.grid("fallen apart", &[("order", run.pick(3, 24)), ("parts", parts.len()), ("other parts", parts.len()), ("points", 5), ("twice", 2)], |x, c| {
        let p = permutation(if run.thorough() { x[0] } else { 9 * x[0] }, 4);
        let few = [1, 8, 20, 30, 40][x[3]];
        let twice = x[4] == 1;
        // The frame that sees five more points twice.
        let dup = x[1] % 4;
        let mut sees: Vec<Vec<usize>> = vec![(0..45).collect(); 5];
        if twice {
            sees[dup].extend(40..45);
        }
        let cams = p.iter().map(|&i| camera(i)).chain([camera(4)]).collect();
        let w = World::new(cams, (0..45).map(|i| point(i, false)).collect(), mixed(sees));
        let mut s = w.empty_slam(settings());
        arrive(&w, &mut s, |s, k| {
            c.step();
            let Some(recs) = judge(&w, s, 1e-4, c) else { return };
            if k < 4 {
                return;
            }
            let views = if recs.len() == 1 { recs[0].views.len() } else { 0 };
            if k == 4 {
                if views != 4 {
                    c.check(false, "complete", || format!("of four frames that see the same points: {recs:?}"));
                    return;
                }
                let r = s.data.reconstructions().next().unwrap();
                let feature = |f: usize, q: usize| w.sees[f].iter().position(|&p| p == q).unwrap();
                for q in 0..few {
                    let part = if q % 2 == 0 { parts[x[1]] } else { parts[x[2]] };
                    for g in 1..4 {
                        let mut to = None;
                        for f in (0..4).filter(|&f| part[f] == g) {
                            // A part that is the whole is left alone.
                            if part.iter().all(|&h| h == g) {
                                continue;
                            }
                            let v = view_of(&w, &s.data, f).unwrap().1;
                            s.data.split_observation(r, v, feature(f, q));
                            let l = landmark_at(&w, &s.data, r, (f, feature(f, q)));
                            to = Some(match to {
                                None => l,
                                Some(t) => s.data.merge_landmarks(r, t, l),
                            });
                        }
                    }
                }
                if twice {
                    // One of the two observations belongs to the landmark of the others.
                    for q in 40..45 {
                        let o = (0..4).find(|&f| f != dup).unwrap();
                        let at = landmark_at(&w, &s.data, r, (o, feature(o, q)));
                        let mine = landmark_at(&w, &s.data, r, (dup, feature(dup, q)));
                        let has = |l| s.data.landmark_observations(r, l).any(|o| o.0 == view_of(&w, &s.data, dup).unwrap().1);
                        if at != mine && !has(at) {
                            s.data.merge_landmarks(r, at, mine);
                        }
                    }
                }
                let _ = judge(&w, s, 1e-4, c);
                return;
            }
            // Parts of three kinds are not joined. The frame can be registered with what is robust.
            let groups = |q: usize| {
                let part = if q % 2 == 0 { parts[x[1]] } else { parts[x[2]] };
                if q < few { part.iter().collect::<BTreeSet<_>>().len() } else { 1 }
            };
            let good = (0..40).filter(|&q| groups(q) < 3).count();
            c.check(good < 20 || views == 5, "registered", || format!("{good} points fell into at most two parts: {recs:?}"));
            if views != 5 {
                c.class("not registered");
                return;
            }
            for q in 0..40 {
                let all: Vec<(usize, usize)> = (0..5).map(|f| (f, w.sees[f].iter().position(|&p| p == q).unwrap())).collect();
                match groups(q) {
                    1 | 2 => {
                        c.check(recs[0].lms.contains(&all), "joined", || format!("point {q} in {} parts: {:?}", groups(q), recs[0].lms));
                        c.class(if groups(q) == 1 { "whole" } else { "joined" });
                    }
                    _ => c.class("many parts"),
                }
            }
        });
    });
    // Frames that share too little with each other to begin with, and one that sees everything.
    run.grid("left over", &[("order", 24), ("size", 3), ("cameras", run.pick(4, 24)), ("shuffle", 3)], |x, c| {
        let p = permutation(x[0], 4);
        let cm = permutation(x[2] * (24 / run.pick(4, 24)), 4);
        let size = [40, 44, 36][x[1]];
        let pts: Vec<V3> = (0..3 * size).map(|i| point(i + 7 * x[3], false)).collect();
        let part: [&[usize]; 4] = [&[0, 1, 2], &[0, 1], &[1, 2], &[0, 2]];
        let sees: Vec<Vec<usize>> = (0..4).map(|f| (0..3 * size).filter(|q| part[p[f]].contains(&(q / size))).collect()).collect();
        let w = World::new(cm.iter().map(|&i| camera(i)).collect(), pts, mixed(sees));
        let st = VSlamSettings { robust_minimum_observations: 2, ..settings() };
        let mut s = w.empty_slam(st);
        let all_at = p.iter().position(|&f| f == 0).unwrap();
        arrive(&w, &mut s, |s, k| {
            c.step();
            let Some(recs) = judge(&w, s, 1e-3, c) else { return };
            if k < 3 || all_at >= k {
                c.check(recs.is_empty(), "too little", || format!("no three of the {k} frames share points: {recs:?}"));
                return;
            }
            c.check(recs.len() == 1 && recs[0].views.len() == k, "complete", || format!("{k} frames, all see points of frame {all_at}: {recs:?}"));
            if k == 4 {
                c.class(if all_at == 3 { "left over" } else { "one by one" });
            }
        });
    });
}
