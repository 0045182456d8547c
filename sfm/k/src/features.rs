//! K04: descriptors are the M-LDB comparisons of the turned and scaled patch around the keypoint.
use crate::util::*;
use akaze::{Akaze, KeyPoint};
use bitarray::BitArray;
use engine::*;
use std::f64::consts::PI;

/// Cell of the patch: means of the image, of the derivative across and of the derivative along the orientation.
#[derive(Clone, Copy)]
struct Cell {
    v: [f64; 3],
    sure: bool,
}
enum Want {
    Outside,
    Unclear,
    Bits(Vec<Option<bool>>),
}
/// The descriptor by its definition. Bits whose comparison is within rounding are left open.
fn reference(a: &Akaze, k: &KeyPoint, lt: &Img, lx: &Img, ly: &Img) -> Want {
    let r = (1u32 << k.octave) as f64;
    let s = (0.5 * k.size as f64 / r).round();
    let (cx, cy) = (k.point.0 as f64 / r, k.point.1 as f64 / r);
    let (co, si) = ((k.angle as f64).cos(), (k.angle as f64).sin());
    let p = a.descriptor_pattern_size as i64;
    let chan = a.descriptor_channels;
    let mut bits = vec![];
    let (mut out, mut unclear) = (false, false);
    for n in 2..=4i64 {
        let cell = match n { 2 => p, 3 => (2 * p + 2) / 3, _ => (p + 1) / 2 };
        let mut cells = vec![];
        for i in 0..n {
            for j in 0..n {
                let mut c = Cell { v: [0.0; 3], sure: true };
                for along in -p + i * cell..-p + (i + 1) * cell {
                    for across in -p + j * cell..-p + (j + 1) * cell {
                        let (u, v) = (along as f64 * s, across as f64 * s);
                        let (x, y) = (cx + u * co - v * si, cy + u * si + v * co);
                        let edge = |t: f64| ((t - t.floor()) - 0.5).abs() < 2e-3;
                        let wobbly = edge(x) || edge(y);
                        c.sure &= !wobbly;
                        let (x, y) = (x.round(), y.round());
                        unclear |= wobbly && (x <= 0.0 || y <= 0.0 || x + 1.0 >= lt.w as f64 || y + 1.0 >= lt.h as f64);
                        if x < 0.0 || y < 0.0 || x >= lt.w as f64 || y >= lt.h as f64 {
                            out |= !wobbly;
                            continue;
                        }
                        let (x, y) = (x as usize, y as usize);
                        let (gx, gy) = (lx.at(x, y), ly.at(x, y));
                        let d = match chan {
                            1 => [0.0, 0.0],
                            2 => [gx.hypot(gy), 0.0],
                            _ => [gy * co - gx * si, gx * co + gy * si],
                        };
                        for (m, g) in c.v.iter_mut().zip([lt.at(x, y), d[0], d[1]]) {
                            *m += g / (cell * cell) as f64;
                        }
                    }
                }
                cells.push(c);
            }
        }
        for m in 0..chan {
            for i in 0..cells.len() {
                for j in i + 1..cells.len() {
                    let (a, b) = (cells[i], cells[j]);
                    let clear = a.sure && b.sure && (a.v[m] - b.v[m]).abs() > 2e-6;
                    bits.push(clear.then_some(a.v[m] > b.v[m]));
                }
            }
        }
    }
    if out {
        Want::Outside
    } else if unclear {
        Want::Unclear
    } else {
        Want::Bits(bits)
    }
}
fn bit(d: &BitArray<64>, i: usize) -> bool {
    d.bytes()[i / 8] >> (i % 8) & 1 == 1
}

pub fn k04(run: &Run) {
    let scene = |kind: usize, ch: u64, w: usize, h: usize| {
        Img::new(w, h, |x, y| {
            let (u, v) = (x as f64, y as f64);
            (match kind {
                0 => mix(x as u64, y as u64, 50 + ch),
                1 => (0.11 * u + ch as f64).sin() * (0.07 * v + 0.5 * ch as f64).cos(),
                2 => ((x / 5 + 2 * (y / 6) + ch as usize) % 3) as f64 * 0.4,
                _ => 0.01 * ((1 + ch) as f64 * u - v) + 0.3 * mix(x as u64 / 9, y as u64 / 9, ch),
            }) as f32 as f64
        })
    };
    let judge = |a: &Akaze, kind: usize, octave: u32, kps: &[KeyPoint], w: usize, h: usize, c: &mut Case| {
        let mut e = a.allocate_evolutions(w as u32, h as u32);
        let l = e.iter().position(|e| e.octave == octave).unwrap();
        let (lw, lh) = (w >> octave, h >> octave);
        let f = [scene(kind, 0, lw, lh), scene(kind, 1, lw, lh), scene(kind, 2, lw, lh)];
        e[l].Lt = f[0].f32s();
        e[l].Lx = f[1].f32s();
        e[l].Ly = f[2].f32s();
        let kps: Vec<KeyPoint> = kps.iter().map(|k| KeyPoint { class_id: l, octave: octave as usize, ..*k }).collect();
        let (got, ds) = a.extract_descriptors(&e, &kps);
        c.steps(kps.len() as u64);
        c.check(got.len() == ds.len(), "pairing", || format!("{} keypoints, {} descriptors", got.len(), ds.len()));
        let mut at = 0;
        for k in &kps {
            let want = reference(a, k, &f[0], &f[1], &f[2]);
            let mine = got.get(at).filter(|g| format!("{g:?}") == format!("{k:?}"));
            let what = || format!("pattern {} channels {}, octave {octave}, point {:?} size {} angle {}", a.descriptor_pattern_size, a.descriptor_channels, k.point, k.size, k.angle);
            match (want, mine) {
                (Want::Unclear, m) => {
                    at += m.is_some() as usize;
                    c.class("touches the rim");
                }
                (Want::Outside, m) => {
                    c.check(m.is_none(), "outside", || format!("{}: described although it leaves the image", what()));
                    at += m.is_some() as usize;
                    c.class("leaves the image");
                }
                (Want::Bits(_), None) => c.check(false, "dropped", || format!("{}: inside the image but not described", what())),
                (Want::Bits(b), Some(_)) => {
                    let d = &ds[at];
                    at += 1;
                    let wrong: Vec<usize> = (0..b.len()).filter(|&i| b[i].is_some_and(|b| b != bit(d, i))).collect();
                    c.check(wrong.is_empty(), "bits", || format!("{}: bits {wrong:?} are wrong", what()));
                    c.check((b.len()..512).all(|i| !bit(d, i)), "padding", || format!("{}: bits beyond {}", what(), b.len()));
                    c.check(b.len() == 162 * a.descriptor_channels, "length", || format!("{}", b.len()));
                    c.class("described");
                    c.outcome(&[d.weight() as f64, k.point.0 as f64, k.angle as f64]);
                }
            }
        }
        c.check(at == got.len(), "extra", || format!("{} keypoints, {at} of them asked for in this order", got.len()));
    };
    let base = KeyPoint { point: (0.0, 0.0), response: 1.0, size: 4.8, octave: 0, class_id: 0, angle: 0.0 };

    // Directions, scales, pattern sizes, channels and scenes.
    let turns = run.pick(24, 96);
    run.grid("patches", &[("scene", 4), ("direction", turns), ("pattern", 9), ("channels", 3), ("octave", 3)], |ix, c| {
        let a = Akaze { descriptor_pattern_size: 4 + ix[2], descriptor_channels: 1 + ix[3], ..Akaze::default() };
        let o = ix[4] as u32;
        let r = (1u32 << o) as f32;
        let angle = (ix[1] as f64 * 2.0 * PI / turns as f64) as f32;
        let mut kps = vec![];
        for s in 1..=3 {
            for (x, y) in [(60.0f32, 60.0f32), (61.3, 58.85), (60.75, 63.125)] {
                kps.push(KeyPoint { point: (x * r, y * r), size: 2.0 * s as f32 * r * [1.0, 1.15, 0.9][s - 1], angle, ..base });
            }
        }
        judge(&a, ix[0], o, &kps, 120 << o, 124 << o, c);
    });
    // Every position, in and out of the image.
    let d = run.pick(8, 24);
    run.grid("positions", &[("row", 110), ("direction", d), ("octave", 2), ("scale", 2)], |ix, c| {
        let a = Akaze::default();
        let o = ix[2] as u32;
        let r = (1u32 << o) as f32;
        let angle = (ix[1] as f64 * 2.0 * PI / d as f64 + 0.03) as f32;
        let size = 2.0 * (1 + ix[3]) as f32 * r;
        let kps: Vec<KeyPoint> = (0..100).map(|x| KeyPoint { point: ((x as f32 - 5.0 + 0.2) * r, (ix[0] as f32 - 5.0 + 0.3) * r), size, angle, ..base }).collect();
        judge(&a, 0, o, &kps, 90 << o, 100 << o, c);
    });
    // No keypoints, keypoints on several levels at once, repeated ones.
    run.grid("lists", &[("order", 27), ("angle", 4)], |ix, c| {
        let a = Akaze::default();
        let mut e = a.allocate_evolutions(200, 200);
        for (i, s) in e.iter_mut().enumerate() {
            let n = 200 >> s.octave;
            s.Lt = scene(i % 4, i as u64, n, n).f32s();
            s.Lx = scene((i + 1) % 4, 7 + i as u64, n, n).f32s();
            s.Ly = scene((i + 2) % 4, 17 + i as u64, n, n).f32s();
        }
        let mut kps = vec![];
        let mut o = ix[0];
        for _ in 0..3 {
            let l = [0, 3, 5][o % 3];
            o /= 3;
            kps.push(KeyPoint { point: (100.3, 99.2), size: 4.0 * (1u32 << e[l].octave) as f32, octave: e[l].octave as usize, class_id: l, angle: ix[1] as f32 * 0.7 + 0.1, ..base });
        }
        let (all, ds) = a.extract_descriptors(&e, &kps);
        c.steps(1);
        c.check(all.len() == 3 && ds.len() == 3, "pairing", || format!("{} and {}", all.len(), ds.len()));
        for (i, k) in kps.iter().enumerate() {
            let (one, d) = a.extract_descriptors(&e, &[*k]);
            c.check(one.len() == 1 && all.get(i).map(|k| k.class_id) == Some(k.class_id) && d.first() == ds.get(i), "independent", || format!("keypoint {i} of {}", ix[0]));
        }
        let (none, nd) = a.extract_descriptors(&e, &[]);
        c.check(none.is_empty() && nd.is_empty(), "nothing", || "something from nothing".into());
        c.outcome(&[ix[0] as f64, ds.iter().map(|d| d.weight() as f64).sum()]);
    });
}
