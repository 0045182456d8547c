//! K03: extrema of the detector response become features, once each, where they are.
use crate::util::*;
use akaze::image::GrayFloatImage;
use akaze::{Akaze, KeyPoint};
use engine::*;
use std::f64::consts::PI;

/// The blank scale space of an image; levels that play no part are shrunk to nothing to look at.
macro_rules! blank {
    ($a:expr, $w:expr, $h:expr, $used:expr) => {{
        let mut e = $a.allocate_evolutions($w as u32, $h as u32);
        for (i, s) in e.iter_mut().enumerate() {
            let (w, h) = if $used.contains(&i) { ($w >> s.octave, $h >> s.octave) } else { (3, 3) };
            for i in [&mut s.Lt, &mut s.Lsmooth, &mut s.Lx, &mut s.Ly, &mut s.Lxx, &mut s.Lyy, &mut s.Lxy, &mut s.Lflow, &mut s.Ldet] {
                *i = GrayFloatImage::new(w, h);
            }
        }
        e
    }};
}
fn options(i: usize) -> Akaze {
    let mut a = Akaze::default();
    match i {
        0 => {}
        1 => a.detector_threshold = 0.25,
        2 => a.base_scale_offset = 1.0,
        3 => {
            a.num_sublevels = 2;
            a.derivative_factor = 1.0
        }
        _ => a.base_scale_offset = 2.2,
    }
    a
}
/// Where the centre of a pixel of a level lies in the image.
fn up(x: f64, octave: u32) -> f64 {
    let r = (1u32 << octave) as f64;
    x * r + 0.5 * (r - 1.0)
}
fn bump(g: &mut GrayFloatImage, x: usize, y: usize, v: f32) {
    g.put(x, y, v);
    for (i, j) in [(-1i64, -1i64), (0, -1), (1, -1), (-1, 0), (1, 0), (-1, 1), (0, 1), (1, 1)] {
        let (p, q) = (x as i64 + i, y as i64 + j);
        if p >= 0 && q >= 0 && (p as usize) < g.width() && (q as usize) < g.height() {
            let s = if i * j == 0 { 0.5 } else { 0.25 };
            if g.get(p as usize, q as usize) < v * s {
                g.put(p as usize, q as usize, v * s);
            }
        }
    }
}
fn near(k: &KeyPoint, x: f64, y: f64, tol: f64) -> bool {
    (k.point.0 as f64 - x).abs() <= tol && (k.point.1 as f64 - y).abs() <= tol
}

pub fn k03(run: &Run) {
    const W: usize = 176;
    const H: usize = 168;
    // One peak at every pixel of every level.
    run.grid("one peak", &[("options", run.pick(2, 5)), ("level", 9), ("row", H), ("height", 3)], |ix, c| {
        let a = options(ix[0]);
        let mut e = blank!(a, W, H, [ix[1]]);
        let l = ix[1];
        if l >= e.len() || ix[2] >= H >> e[l].octave {
            return;
        }
        let (w, h, y) = (W >> e[l].octave, H >> e[l].octave, ix[2]);
        let v = a.detector_threshold as f32 * [0.99, 1.01, 30.0][ix[3]];
        let (size, octave) = (e[l].esigma * a.derivative_factor, e[l].octave);
        let reach = 200f64.sqrt() * (size / (1u32 << octave) as f64).round();
        for x in 0..w {
            bump(&mut e[l].Ldet, x, y, v);
            let got = a.detect_keypoints(&e);
            c.step();
            let room = x.min(y).min(w - 1 - x).min(h - 1 - y) as f64;
            let what = || format!("options {}, level {l}, peak {v} at {x},{y} of {w}x{h}", ix[0]);
            let (inside, outside) = (room >= reach + 2.5, room < reach - 0.5);
            if inside || outside {
                let want = (inside && ix[3] > 0) as usize;
                c.check(got.len() == want, if want == 1 { "missed" } else { "invented" }, || format!("{}: {} keypoints", what(), got.len()));
                c.class(if want == 1 { "feature" } else if inside { "too weak" } else { "too near the border" });
            } else {
                c.class("at the limit of the border");
            }
            for k in &got {
                c.check(near(k, up(x as f64, octave), up(y as f64, octave), 1e-3), "place", || format!("{}: found at {:?}", what(), k.point));
                let ok = k.response == v && k.class_id == l && k.octave == octave as usize && (k.size as f64 - 2.0 * size).abs() <= 1e-5 * size;
                c.check(ok, "record", || format!("{}: {k:?}", what()));
            }
            c.outcome(&[x as f64, y as f64, got.len() as f64]);
            for j in y.saturating_sub(1)..(y + 2).min(h) {
                for i in x.saturating_sub(1)..(x + 2).min(w) {
                    e[l].Ldet.put(i, j, 0.0);
                }
            }
        }
    });

    // Only strict maxima count: every pattern of the eight neighbours being lower, equal or higher.
    run.grid("neighbours", &[("pattern", 6561), ("level", 2)], |ix, c| {
        let a = Akaze::default();
        let l = [0, 4][ix[1]];
        let mut e = blank!(a, 128, 128, [l]);
        let (x, y) = (64 >> e[l].octave, 64 >> e[l].octave);
        let mut p = ix[0];
        let mut strict = true;
        for (i, j) in [(-1i64, -1i64), (0, -1), (1, -1), (-1, 0), (1, 0), (-1, 1), (0, 1), (1, 1)] {
            let v = [0.1, 0.5, 0.6][p % 3];
            strict &= p % 3 == 0;
            p /= 3;
            e[l].Ldet.put((x as i64 + i) as usize, (y as i64 + j) as usize, v);
        }
        e[l].Ldet.put(x, y, 0.5);
        let got = a.detect_keypoints(&e);
        c.step();
        // Neighbours that are as high are no strict maxima either.
        let here = got.iter().filter(|k| k.response == 0.5).count();
        let at = |k: &KeyPoint| near(k, up(x as f64, e[l].octave), up(y as f64, e[l].octave), 0.01 * (1u32 << e[l].octave) as f64);
        c.check(!strict || got.iter().all(at), "place", || format!("pattern {}: {got:?}", ix[0]));
        c.check(here == strict as usize, "strict", || format!("pattern {} around 0.5: {here} keypoints there", ix[0]));
        c.check(got.iter().all(|k| k.response == 0.5 || k.response == 0.6), "invented", || format!("pattern {}: {got:?}", ix[0]));
        c.outcome(&[got.len() as f64, here as f64]);
    });

    // The position is refined to the top of the fitted quadric.
    run.grid("sub-pixel", &[("offset x", 11), ("offset y", 11), ("curvature x", 4), ("curvature y", 4), ("twist", 5), ("level", 3)], |ix, c| {
        let a = Akaze::default();
        let l = [0, 5, 8][ix[5]];
        let mut e = blank!(a, 256, 256, [l]);
        let (n, octave) = (256 >> e[l].octave, e[l].octave);
        let (u, v) = ((ix[0] as f64 - 5.0) / 10.0, (ix[1] as f64 - 5.0) / 10.0);
        let cur = [0.01f64, 0.1, 0.3, 1.0];
        let (p, q) = (cur[ix[2]], cur[ix[3]]);
        let t = (ix[4] as f64 - 2.0) * 0.35 * (p * q).sqrt();
        let at = n / 2;
        let f = |x: f64, y: f64| 10.0 - 0.5 * (p * (x - u).powi(2) + q * (y - v).powi(2)) - t * (x - u) * (y - v);
        let mut top = true;
        for j in -1i64..=1 {
            for i in -1i64..=1 {
                let g = f(i as f64, j as f64);
                top &= (i, j) == (0, 0) || g < f(0.0, 0.0) - 1e-5;
                e[l].Ldet.put((at as i64 + i) as usize, (at as i64 + j) as usize, g as f32);
            }
        }
        if !top {
            c.class("peak is another pixel");
            return;
        }
        let got = a.detect_keypoints(&e);
        c.step();
        let r = (1u32 << octave) as f64;
        let (x, y) = (up(at as f64, octave) + u * r, up(at as f64, octave) + v * r);
        let det = p * q - t * t;
        let tol = r * (1e-5 * (p + q) / det).max(1e-4);
        let ok = got.len() == 1 && near(&got[0], x, y, tol);
        c.check(ok, "top", || format!("level {l}: top at {x},{y} found at {:?}", got.iter().map(|k| k.point).collect::<Vec<_>>()));
        c.outcome(&[u, v, p, q, t]);
        c.class("refined");
    });

    // A long ridge beside the peak's pixel: the fitted top may lie in a neighbouring pixel or beyond, where it is no fit at all.
    run.grid("ridges", &[("direction", 8), ("distance", 41), ("narrowness", 4), ("level", 3)], |ix, c| {
        let a = Akaze::default();
        let l = [0, 5, 8][ix[3]];
        let mut e = blank!(a, 256, 256, [l]);
        let (n, octave) = (256 >> e[l].octave, e[l].octave);
        let (dx, dy) = [(2.0, 1.0), (1.0, 2.0), (-1.0, 2.0), (-2.0, 1.0), (3.0, 1.0), (1.0, 3.0), (-3.0, 1.0), (1.0, -3.0)][ix[0]];
        let s = (ix[1] as f64 - 20.0) / 20.0;
        let (u, v) = (s * dx, s * dy);
        let flat = [0.3, 0.1, 0.03, 0.01][ix[2]];
        let r2: f64 = dx * dx + dy * dy;
        let f = |x: f64, y: f64| {
            let (p, q) = (x - u, y - v);
            5.0 - 0.5 * (flat * (p * dx + q * dy).powi(2) + (p * dy - q * dx).powi(2)) / r2
        };
        let at = n / 2;
        let mut top = true;
        for j in -1i64..=1 {
            for i in -1i64..=1 {
                let g = f(i as f64, j as f64);
                top &= (i, j) == (0, 0) || g < f(0.0, 0.0) - 1e-5;
                e[l].Ldet.put((at as i64 + i) as usize, (at as i64 + j) as usize, g as f32);
            }
        }
        let far = u.abs().max(v.abs());
        if !top || (far - 1.0).abs() < 1e-3 {
            c.class("peak is another pixel");
            return;
        }
        let got = a.detect_keypoints(&e);
        c.step();
        let r = (1u32 << octave) as f64;
        let (x, y) = (up(at as f64, octave) + u * r, up(at as f64, octave) + v * r);
        let ok = if far > 1.0 { got.is_empty() } else { got.len() == 1 && near(&got[0], x, y, r * 2e-5 / flat) };
        c.check(ok, "top", || format!("level {l}: top at {x},{y} ({u},{v} pixels away), found at {:?}", got.iter().map(|k| k.point).collect::<Vec<_>>()));
        c.outcome(&[u, v, flat]);
        c.class(if far > 1.0 { "beyond the neighbours" } else { "refined" });
    });

    // Two peaks: the weaker of two that are close in place and scale goes, whatever their order; others do not disturb each other.
    let far = run.pick(15, 31);
    run.grid("two peaks", &[("level a", 8), ("level b", 8), ("dx", far), ("dy", far), ("which is stronger", 3)], |ix, c| {
        let a = Akaze { detector_threshold: 0.01, ..Akaze::default() };
        let (la, lb) = (ix[0], ix[1]);
        let mut e = blank!(a, 320, 320, [la, lb]);
        if la > lb || la >= e.len() || lb >= e.len() {
            return;
        }
        let (oa, ob) = (e[la].octave, e[lb].octave);
        let (va, vb) = [(0.5, 0.4), (0.4, 0.5), (0.5, 0.5)][ix[4]];
        let step = (1usize << oa.max(ob)).max(1);
        let mid = 160usize;
        let (dx, dy) = ((ix[2] as i64 - far as i64 / 2) * step as i64, (ix[3] as i64 - far as i64 / 2) * step as i64);
        let pa = (mid >> oa, mid >> oa);
        let pb = ((mid as i64 + dx) as usize >> ob, (mid as i64 + dy) as usize >> ob);
        if la == lb && (pa.0 as i64 - pb.0 as i64).abs() <= 1 && (pa.1 as i64 - pb.1 as i64).abs() <= 1 {
            return;
        }
        if la == lb && (pa.0 as i64 - pb.0 as i64).abs() <= 2 && (pa.1 as i64 - pb.1 as i64).abs() <= 2 {
            // The flanks overlap: put single pixels instead.
            e[la].Ldet.put(pa.0, pa.1, va);
            e[lb].Ldet.put(pb.0, pb.1, vb);
        } else {
            bump(&mut e[la].Ldet, pa.0, pa.1, va);
            bump(&mut e[lb].Ldet, pb.0, pb.1, vb);
        }
        let got = a.detect_keypoints(&e);
        c.step();
        let (xa, ya) = (up(pa.0 as f64, oa), up(pa.1 as f64, oa));
        let (xb, yb) = (up(pb.0 as f64, ob), up(pb.1 as f64, ob));
        let dist = (xa - xb).hypot(ya - yb);
        let (sa, sb) = (e[la].esigma * a.derivative_factor, e[lb].esigma * a.derivative_factor);
        let slack = 1.1 * (1u32 << oa.max(ob)) as f64;
        let has_a = got.iter().any(|k| k.class_id == la && near(k, xa, ya, 1.0 * (1u32 << oa) as f64));
        let has_b = got.iter().any(|k| k.class_id == lb && near(k, xb, yb, 1.0 * (1u32 << ob) as f64));
        let what = || format!("{va} at {xa},{ya} on level {la} (size {sa}), {vb} at {xb},{yb} on level {lb} (size {sb}), {dist} apart: {:?}", got.iter().map(|k| (k.class_id, k.point)).collect::<Vec<_>>());
        let n = has_a as usize + has_b as usize;
        c.check(got.len() == n, "invented", what);
        let close = lb - la <= 1 && dist < sa.min(sb) - slack;
        let apart = lb - la > 1 || dist > sa.max(sb) + slack;
        if apart {
            c.check(n == 2, "lost", what);
            c.class(if lb - la > 1 { "distant levels" } else { "apart" });
        } else if close {
            let ok = n == 1 && if va > vb { has_a } else if vb > va { has_b } else { true };
            c.check(ok, "duplicate", what);
            c.class(if la == lb { "same level" } else { "neighbouring levels" });
        } else {
            let ok = if va > vb { has_a } else if vb > va { has_b } else { n >= 1 };
            c.check(ok, "stronger-lost", what);
            c.class("at the limit");
        }
        c.outcome(&[n as f64, dist, la as f64, lb as f64]);
    });

    // Three peaks on two levels in every arrangement and order of strength: the strongest stays, and a lost peak has a stronger neighbour.
    let side = run.pick(4, 5);
    let places = side * side * 2;
    run.grid("three peaks", &[("first", places), ("second", places), ("third", places)], |ix, c| {
        let a = Akaze { detector_threshold: 0.01, ..Akaze::default() };
        let mut all = blank!(a, 128, 128, [0, 1]);
        all.truncate(2);
        let mut e = all;
        let gap = 3usize;
        let pos = |i: usize| (i % 2, 64 + gap * (i / 2 % side) - 4, 64 + gap * (i / 2 / side) - 4);
        let p: Vec<_> = ix.iter().map(|&i| pos(i)).collect();
        if p[0] == p[1] || p[0] == p[2] || p[1] == p[2] {
            return;
        }
        let v = [0.9f32, 0.6, 0.3];
        for i in 0..3 {
            e[p[i].0].Ldet.put(p[i].1, p[i].2, v[i]);
        }
        let got = a.detect_keypoints(&e);
        c.step();
        let here = |i: usize| got.iter().filter(|k| k.class_id == p[i].0 && near(k, p[i].1 as f64, p[i].2 as f64, 0.5)).count();
        let n: Vec<usize> = (0..3).map(here).collect();
        let what = || format!("peaks {p:?} with strengths {v:?}: {:?}", got.iter().map(|k| (k.class_id, k.point)).collect::<Vec<_>>());
        c.check(n.iter().all(|&n| n <= 1) && n.iter().sum::<usize>() == got.len(), "invented", what);
        c.check(n[0] == 1, "strongest", what);
        let size = |l: usize| e[l].esigma * a.derivative_factor;
        let dist = |i: usize, j: usize| (p[i].1 as f64 - p[j].1 as f64).hypot(p[i].2 as f64 - p[j].2 as f64);
        let can = |i: usize, j: usize| dist(i, j) <= size(p[i].0.max(p[j].0)) + 1e-3;
        for j in 1..3 {
            c.check(n[j] == 1 || (0..j).any(|i| can(i, j)), "lost", what);
        }
        c.outcome(&[n[1] as f64, n[2] as f64, ix[0] as f64]);
    });

    // Orientation: a uniform gradient of every direction; two directions of different weight.
    run.grid("direction", &[("degrees", 720), ("level", 4), ("strength", 3)], |ix, c| {
        let a = Akaze::default();
        let l = [0, 3, 6, 8][ix[1]];
        let mut e = blank!(a, 256, 256, [l]);
        let th = ix[0] as f64 * PI / 360.0;
        let s = [1e-4, 1.0, 300.0][ix[2]];
        let (gx, gy) = ((s * th.cos()) as f32, (s * th.sin()) as f32);
        e[l].Lx.iter_mut().for_each(|p| *p = gx);
        e[l].Ly.iter_mut().for_each(|p| *p = gy);
        let n = 128 >> e[l].octave;
        bump(&mut e[l].Ldet, n, n, 0.5);
        let got = a.detect_keypoints(&e);
        c.step();
        let d = got.first().map(|k| turn(k.angle as f64 - (gy as f64).atan2(gx as f64)));
        c.check(d.is_some_and(|d| d <= 1e-4), "direction", || format!("level {l}: gradient at {} degrees: {:?}", ix[0] as f64 / 2.0, got.first().map(|k| (k.angle as f64).to_degrees())));
        c.outcome(&[th, s]);
    });
    let m = run.pick(24, 72);
    run.grid("two directions", &[("stronger", m), ("weaker", m), ("share", 3), ("level", 3)], |ix, c| {
        let a = Akaze::default();
        let l = [0, 5, 8][ix[3]];
        let mut e = blank!(a, 256, 256, [l]);
        let (s, t) = (ix[0] as f64 * 2.0 * PI / m as f64, ix[1] as f64 * 2.0 * PI / m as f64);
        // Exact zeros, as straight edges have.
        let unit = |t: f64| {
            let z = |v: f64| if v.abs() < 1e-9 { 0.0 } else { v as f32 };
            (z(t.cos()), z(t.sin()))
        };
        let n = 128 >> e[l].octave;
        let sigma = (e[l].esigma * a.derivative_factor / (1u32 << e[l].octave) as f64).round() as usize;
        let (width, height) = (e[l].Lx.width(), e[l].Lx.height());
        for y in 0..height {
            for x in 0..width {
                // The weaker direction holds on one side, beyond a distance from the middle.
                let weak = match ix[2] {
                    0 => x >= n + sigma,
                    1 => y + sigma <= n,
                    _ => (x + y) % 3 == 0 && x > n,
                };
                let (gx, gy) = unit(if weak { t } else { s });
                let k = if weak { 0.5 } else { 1.0 };
                e[l].Lx.put(x, y, k * gx);
                e[l].Ly.put(x, y, k * gy);
            }
        }
        bump(&mut e[l].Ldet, n, n, 0.5);
        let got = a.detect_keypoints(&e);
        c.step();
        let Some(k) = got.first() else {
            c.check(false, "missed", || format!("level {l}"));
            return;
        };
        let ang = k.angle as f64;
        c.check((0.0..2.0 * PI + 1e-3).contains(&ang), "range", || format!("angle {ang}"));
        let apart = turn(s - t);
        if apart > PI / 3.0 + 0.01 {
            c.check(turn(ang - s) <= 1e-3, "dominant", || format!("level {l}: mostly {}, otherwise {} degrees: {}", s.to_degrees(), t.to_degrees(), ang.to_degrees()));
            c.class("separate");
        } else {
            c.check(turn(ang - s) <= apart + 1e-3 && turn(ang - t) <= apart + 1e-3, "between", || format!("level {l}: mostly {}, otherwise {} degrees: {}", s.to_degrees(), t.to_degrees(), ang.to_degrees()));
            c.class("mixed");
        }
        c.outcome(&[ang]);
    });
    // Which pixels take part and with what weight: all pairs of sample points with one gradient each.
    let disc: Vec<(i64, i64)> = (-6i64..=6).flat_map(|j| (-6i64..=6).map(move |i| (i, j))).filter(|(i, j)| i * i + j * j < 36).collect();
    run.grid("weights", &[("first", disc.len()), ("second", disc.len()), ("level", run.pick(1, 3)), ("exponent", 3)], |ix, c| {
        let a = Akaze::default();
        let l = [0, 3, 5][ix[2]];
        let mut e = blank!(a, 192, 192, [l]);
        let n = 96i64 >> e[l].octave;
        let s = (e[l].esigma * a.derivative_factor / (1u32 << e[l].octave) as f64).round() as i64;
        let (p, q) = (disc[ix[0]], disc[ix[1]]);
        let weight = |p: (i64, i64)| (-((p.0 * p.0 + p.1 * p.1) as f64) / 12.5).exp();
        let k = [0.97, 1.03, 1.0][ix[3]] * weight(p) / weight(q);
        e[l].Lx.put((n + s * p.0) as usize, (n + s * p.1) as usize, 1.0);
        if p != q {
            e[l].Ly.put((n + s * q.0) as usize, (n + s * q.1) as usize, (-k) as f32);
        } else {
            e[l].Lx.put((n + s * p.0 + 1) as usize, (n + s * p.1) as usize, -50.0); // not a sample
        }
        // A touch of the other component keeps the angles off zero.
        e[l].Ly.put((n + s * p.0) as usize, (n + s * p.1) as usize, if p == q { 0.1 } else { 0.1 });
        if p != q {
            e[l].Lx.put((n + s * q.0) as usize, (n + s * q.1) as usize, (-0.1 * k) as f32);
        }
        bump(&mut e[l].Ldet, n as usize, n as usize, 0.5);
        let got = a.detect_keypoints(&e);
        c.step();
        let Some(kp) = got.first() else {
            c.check(false, "missed", || format!("level {l}"));
            return;
        };
        let first = 0.1f64.atan2(1.0);
        let second = (-1.0f64).atan2(-0.1);
        let ang = kp.angle as f64;
        let want = if p == q || ix[3] == 0 { Some(first) } else if ix[3] == 1 { Some(second) } else { None };
        let ok = match want {
            Some(w) => turn(ang - w) <= 1e-3,
            None => turn(ang - first) <= 1e-3 || turn(ang - second) <= 1e-3,
        };
        c.check(ok, "weight", || format!("level {l}: gradients at {p:?} and, {k} as strong, at {q:?}: {} degrees", ang.to_degrees()));
        c.outcome(&[ang]);
    });
}
fn turn(d: f64) -> f64 {
    let d = d.rem_euclid(2.0 * PI);
    d.min(2.0 * PI - d)
}
