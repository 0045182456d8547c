//! K05: features of whole images.
use crate::{png, util::*};
use akaze::image::GrayFloatImage;
use akaze::{Akaze, KeyPoint};
use bitarray::BitArray;
use engine::*;
use image::{DynamicImage, ImageBuffer, Luma};
use std::f64::consts::PI;
use std::sync::OnceLock;

type Features = (Vec<KeyPoint>, Vec<BitArray<64>>);

/// What holds for the features of any image.
fn sane(a: &Akaze, w: usize, h: usize, f: &Features, c: &mut Case, what: &dyn Fn() -> String) {
    c.check(f.0.len() == f.1.len(), "pairing", || format!("{}: {} keypoints, {} descriptors", what(), f.0.len(), f.1.len()));
    c.check(f.0.len() <= a.maximum_features, "maximum", || format!("{}: {} keypoints", what(), f.0.len()));
    for k in &f.0 {
        let inside = k.point.0 >= 0.0 && k.point.1 >= 0.0 && k.point.0 <= w as f32 - 1.0 && k.point.1 <= h as f32 - 1.0;
        c.check(inside, "inside", || format!("{}: {:?}", what(), k.point));
        let ok = k.response > a.detector_threshold as f32 && k.response.is_finite() && k.size > 0.0 && k.size < w.min(h) as f32 && (0.0..2.0 * PI as f32 + 1e-3).contains(&k.angle);
        c.check(ok, "record", || format!("{}: {k:?}", what()));
    }
    c.check(f.0.windows(2).all(|p| p[0].response >= p[1].response), "order", || format!("{}: responses not sorted", what()));
    for (i, d) in f.1.iter().enumerate() {
        let used = 162 * a.descriptor_channels;
        c.check((used..512).all(|b| d.bytes()[b / 8] >> (b % 8) & 1 == 0), "descriptor", || format!("{}: descriptor {i} is longer than {used}", what()));
    }
}
fn picture(kind: usize, w: usize, h: usize) -> Img {
    Img::new(w, h, |x, y| {
        let (u, v) = (x as f64, y as f64);
        match kind {
            0 => mix(x as u64, y as u64, 1),
            1 => mix(x as u64 / 4, y as u64 / 4, 2),
            2 => ((x / 11 + y / 13) % 2) as f64 * 0.8 + 0.1,
            3 => 0.5 + 0.4 * (0.3 * u).sin() * (0.24 * v + 1.0).cos(),
            4 => 0.5,
            5 => mix(x as u64 / 9, y as u64 / 7, 5) * 0.7 + 0.2 * mix(x as u64 / 3, y as u64 / 3, 6),
            6 => if x == y { 1.0 } else { 0.0 },
            _ => if x > w / 2 { 1.0 } else { 0.0 },
        }
    })
}
/// A dark ground with smooth spots: centre, radius, strength.
fn spots(w: usize, h: usize, s: &[(f64, f64, f64, f64)]) -> Img {
    Img::new(w, h, |x, y| {
        // The ground is exactly flat a little away from the spots.
        0.3 + s.iter().map(|&(cx, cy, r, k)| k * ((-((x as f64 - cx).powi(2) + (y as f64 - cy).powi(2)) / (2.0 * r * r)).exp() - 1e-5).max(0.0)).sum::<f64>()
    })
}
fn turn(d: f64) -> f64 {
    let d = d.rem_euclid(2.0 * PI);
    d.min(2.0 * PI - d)
}
fn same(a: &Features, b: &Features) -> bool {
    a.1 == b.1 && a.0.len() == b.0.len() && a.0.iter().zip(&b.0).all(|(p, q)| format!("{p:?}") == format!("{q:?}"))
}

pub fn k05(run: &Run) {
    // Every shape of image and kind of picture.
    let n = run.pick(16, 30);
    let side = move |i: usize| if n == 16 { [1, 2, 3, 5, 10, 20, 39, 40, 41, 57, 79, 80, 81, 96, 121, 160][i] } else if i < 16 { [1, 2, 3, 5, 10, 20, 39, 40, 41, 57, 79, 80, 81, 96, 121, 160][i] } else { [4, 7, 30, 38, 42, 43, 44, 47, 78, 82, 83, 100, 159, 161][i - 16] };
    run.grid("sizes", &[("width", n), ("height", n), ("picture", 8), ("options", 3)], |ix, c| {
        let (w, h) = (side(ix[0]), side(ix[1]));
        let mut a = Akaze::new([0.001, 1e-7, 0.01][ix[3]]);
        if ix[3] == 2 {
            a = Akaze { descriptor_channels: 1, base_scale_offset: 1.1, num_sublevels: 3, maximum_features: 5, ..a };
        }
        let p = picture(ix[2], w, h);
        let img = DynamicImage::ImageLuma8(ImageBuffer::from_fn(w as u32, h as u32, |x, y| Luma([(p.at(x as usize, y as usize) * 255.0) as u8])));
        let f = a.extract(&img);
        c.steps(2);
        let what = || format!("picture {} {w}x{h}, options {}", ix[2], ix[3]);
        sane(&a, w, h, &f, c, &what);
        if w.min(h) < 40 || ix[2] == 4 {
            c.check(f.0.is_empty(), "nothing", || format!("{}: {} features", what(), f.0.len()));
        }
        let g = a.extract_from_gray_float_image(&GrayFloatImage::from_dynamic(&img));
        c.check(same(&f, &g), "entry-points", || format!("{}: {} and {} features", what(), f.0.len(), g.0.len()));
        c.outcome(&[f.0.len() as f64, w as f64, h as f64]);
        c.class(if f.0.is_empty() { "no features" } else { "features" });
    });

    // A limit keeps the strongest; a higher threshold keeps those above it.
    run.grid("limits", &[("picture", 8), ("limit", run.pick(12, 40)), ("threshold", 3)], |ix, c| {
        let a = Akaze::new([1e-4, 1e-3, 1e-2][ix[2]]);
        let g = picture(ix[0], 160, 150).f32s();
        let all = a.extract_from_gray_float_image(&g);
        let cut = Akaze { maximum_features: ix[1], ..a }.extract_from_gray_float_image(&g);
        c.steps(2);
        sane(&Akaze { maximum_features: ix[1], ..a }, 160, 150, &cut, c, &|| format!("picture {} limited to {}", ix[0], ix[1]));
        // Features are limited before those that cannot be described are left out: at most the limit, and a part of the strongest.
        let m = cut.0.len();
        let ok = m <= all.0.len() && cut.0.iter().zip(&all.0).all(|(p, q)| p.response == q.response);
        c.check(ok, "strongest", || format!("picture {}: limit {}: {m} of {} features", ix[0], ix[1], all.0.len()));
        c.outcome(&[m as f64, all.0.len() as f64]);
    });

    // Brightness gain by powers of two, threshold scaled along.
    run.grid("gain", &[("picture", 8), ("gain", 4), ("size", 3)], |ix, c| {
        let (w, h) = [(160, 160), (81, 120), (130, 95)][ix[2]];
        let k = [0.25, 0.5, 2.0, 8.0][ix[1]];
        let p = picture(ix[0], w, h);
        let a = Akaze::new(0.0009765625); // a power of two
        let b = Akaze::new(0.0009765625 * k * k);
        let f = a.extract_from_gray_float_image(&p.f32s());
        let g = b.extract_from_gray_float_image(&Img::new(w, h, |x, y| (p.at(x, y) as f32) as f64 * k).f32s());
        c.steps(2);
        let ok = f.0.len() == g.0.len() && f.1 == g.1 && f.0.iter().zip(&g.0).all(|(p, q)| p.point == q.point && p.size == q.size && p.class_id == q.class_id && turn((p.angle - q.angle) as f64) <= 1e-5 && (q.response as f64 - p.response as f64 * k * k).abs() <= 1e-5 * q.response as f64);
        c.check(ok, "gain", || format!("picture {} {w}x{h}, gain {k}: {} and {} features", ix[0], f.0.len(), g.0.len()));
        c.outcome(&[f.0.len() as f64]);
        c.class(if f.0.is_empty() { "no features" } else { "features" });
    });

    // One spot: found where it is, at about its size.
    let m = run.pick(9, 20);
    run.grid("one spot", &[("x", m), ("y", m), ("radius", 4), ("strength", 2)], |ix, c| {
        let (w, h) = (190, 180);
        let (x, y) = (85.0 + 20.0 * ix[0] as f64 / m as f64, 80.0 + 20.0 * ix[1] as f64 / m as f64);
        let (r, k) = ([3.0, 4.0, 5.5, 8.0][ix[2]], [0.6, -0.25][ix[3]]);
        let a = Akaze::new(1e-4);
        let f = a.extract_from_gray_float_image(&spots(w, h, &[(x, y, r, k)]).f32s());
        c.step();
        let what = || format!("spot at {x},{y} radius {r} strength {k}: {:?}", f.0.iter().map(|k| (k.point, k.size, k.response)).collect::<Vec<_>>());
        sane(&a, w, h, &f, c, &what);
        let hit = f.0.first().map(|k| (k.point.0 as f64 - x).hypot(k.point.1 as f64 - y)).unwrap_or(f64::INFINITY);
        c.check(hit <= 0.25 * r.min(4.0), "found", what);
        c.outcome(&[x, y, hit]);
    });

    // Scenes moved by whole steps of the coarsest level, turned by quarter turns and mirrored.
    run.grid("motion", &[("scene", run.pick(12, 40)), ("motion", 13)], |ix, c| {
        // Far enough from the border for every scale that fits into the image at all.
        let (w, h) = (320usize, 320usize);
        let mut s = vec![];
        for i in 0..4u64 {
            let q = ix[0] as u64;
            s.push((138.0 + 25.0 * (i % 2) as f64 + 6.0 * mix(i, q, 1), 138.0 + 25.0 * (i / 2) as f64 + 6.0 * mix(i, q, 2), 3.0 + 4.0 * mix(i, q, 3), 0.25 + 0.35 * mix(i, q, 4)));
            // an uneven neighbour makes the orientation definite
            s.push((s[2 * i as usize].0 + 9.0, s[2 * i as usize].1 + 3.0 - 9.0 * mix(i, q, 5), 2.5, -0.2));
        }
        let p = spots(w, h, &s);
        let a = Akaze::new(3e-4);
        // image of (x, y), and of a direction
        let m = ix[1];
        let map = |x: f64, y: f64| -> (f64, f64) {
            let e = (w - 1) as f64;
            match m {
                0..=7 => (x + 8.0 * [1.0, -1.0, 0.0, 0.0, 1.0, 2.0, -2.0, -1.0][m], y + 8.0 * [0.0, 0.0, 1.0, -1.0, 1.0, -1.0, 2.0, -1.0][m]),
                8 => (e - y, x),
                9 => (e - x, e - y),
                10 => (y, e - x),
                11 => (e - x, y),
                _ => (x, e - y),
            }
        };
        let ang = |t: f64| match m {
            0..=7 => t,
            8 => t + PI / 2.0,
            9 => t + PI,
            10 => t - PI / 2.0,
            11 => PI - t,
            _ => -t,
        };
        let mut moved = Img::new(w, h, |_, _| 0.3);
        for y in 0..h {
            for x in 0..w {
                let (u, v) = map(x as f64, y as f64);
                if u >= 0.0 && v >= 0.0 && u < w as f64 && v < h as f64 {
                    moved.v[v as usize * w + u as usize] = p.at(x, y);
                }
            }
        }
        let f = a.extract_from_gray_float_image(&p.f32s());
        let g = a.extract_from_gray_float_image(&moved.f32s());
        c.steps(2);
        let scene = || format!("scene {}, motion {m}", ix[0]);
        sane(&a, w, h, &g, c, &scene);
        let (mut matched, mut aligned, mut kept, mut all) = (0, 0, 0, 0);
        let strong = |r: f32| r as f64 > 2.0 * a.detector_threshold;
        // Clear of the border strip in which features of this scale are dropped, before and after the motion.
        let clear = |k: &KeyPoint, back: bool| {
            let r = (1u32 << k.octave) as f64;
            let reach = 14.15 * (0.5 * k.size as f64 / r).round() * r + 4.0 * r;
            let (x, y) = (k.point.0 as f64, k.point.1 as f64);
            let room = |x: f64, y: f64| x.min(y).min(w as f64 - 1.0 - x).min(h as f64 - 1.0 - y);
            let (u, v) = if !back {
                map(x, y)
            } else {
                // shifts are undone by the opposite shift; turns and reflections keep the distance to the border
                let (a, b) = map(0.0, 0.0);
                if m < 8 { (x - a, y - b) } else { (x, y) }
            };
            room(x, y).min(room(u, v)) > reach
        };
        for (from, to, back) in [(&f, &g, false), (&g, &f, true)] {
            for (i, k) in from.0.iter().enumerate().filter(|k| strong(k.1.response) && clear(k.1, back)) {
                let away = |q: &KeyPoint| {
                    let (k, q) = if back { (q, k) } else { (k, q) };
                    let (x, y) = map(k.point.0 as f64, k.point.1 as f64);
                    (x - q.point.0 as f64).hypot(y - q.point.1 as f64)
                };
                // Which of two nearly equal responses of one structure on neighbouring levels survives is a matter of rounding.
                let seen = to.0.iter().any(|q| away(q) <= 0.25 * k.size as f64 && k.class_id.abs_diff(q.class_id) <= 2);
                all += 1;
                kept += seen as usize;
                c.check(seen || m >= 8, "moved", || format!("{}: {:?} (response {}) of the {} image is missing in the other", scene(), k.point, k.response, if back { "moved" } else { "original" }));
                let hit = to.0.iter().position(|q| k.class_id == q.class_id && away(q) <= if m < 8 { 0.02 } else { 0.15 });
                c.check(hit.is_some() || m >= 8, "shifted", || format!("{}: {:?} is not found at its place and scale", scene(), k.point));
                if back {
                    continue;
                }
                if let Some(j) = hit {
                    let q = &to.0[j];
                    let e = (k.response as f64 / q.response as f64 - 1.0).abs();
                    c.check(e <= 0.02, "response", || format!("{}: {} became {}", scene(), k.response, q.response));
                    let t = turn(ang(k.angle as f64) - q.angle as f64);
                    let d = from.1[i].distance(&to.1[j]);
                    matched += 1;
                    c.check(m >= 8 || t <= 0.02 && d <= 16, "shifted", || format!("{}: {:?}: direction off by {t}, {d} bits differ", scene(), k.point));
                    let close = t <= if m < 8 { 0.02 } else { 0.6 };
                    // Mirroring turns a descriptor into another one.
                    aligned += (close && (m > 10 || d <= if m < 8 { 20 } else { 160 })) as usize;
                    c.outcome(&[k.point.0 as f64, t, d as f64]);
                }
            }
        }
        c.check(10 * kept >= 9 * all, "turned", || format!("{}: only {kept} of {all} features are found again", scene()));
        c.check(4 * aligned >= 3 * matched, "turned", || format!("{}: only {aligned} of {matched} features keep orientation and descriptor", scene()));
        let count = f.0.iter().filter(|k| strong(k.response) && clear(k, false)).count();
        c.check(4 * matched >= 3 * count, "same-scale", || format!("{}: only {matched} of {count} features are found at the same place and scale", scene()));
        c.class(if matched >= 8 { "many features" } else if matched > 0 { "few features" } else { "no features" });
    });

    // The parallel build computes the same, in whatever order the pieces run.
    static PLANS: OnceLock<Vec<(Features, Vec<usize>, Vec<Vec<usize>>)>> = OnceLock::new();
    let scenes: Vec<Img> = vec![
        spots(170, 165, &[(70.0, 80.0, 4.0, 0.5), (79.0, 78.0, 2.5, -0.2), (95.0, 90.0, 3.0, 0.3)]),
        picture(3, 96, 90),
        picture(4, 82, 44),
        picture(0, 41, 40),
        picture(0, 20, 20),
    ];
    let par = |a: &akaze_par::Akaze, p: &Img, plan: &[usize]| -> (Features, Vec<usize>) {
        let mut g = akaze_par::image::GrayFloatImage::new(p.w, p.h);
        for y in 0..p.h {
            for x in 0..p.w {
                g.put(x, y, p.at(x, y) as f32);
            }
        }
        let ((k, d), log) = rayon::with_schedule(plan, || a.extract_from_gray_float_image(&g));
        let k = k.into_iter().map(|k| KeyPoint { point: k.point, response: k.response, size: k.size, octave: k.octave, class_id: k.class_id, angle: k.angle }).collect();
        ((k, d), log)
    };
    let seq = Akaze::new(1e-3);
    let other = akaze_par::Akaze::new(1e-3);
    let deep = run.thorough();
    let plans = PLANS.get_or_init(|| {
        scenes
            .iter()
            .map(|p| {
                let f = seq.extract_from_gray_float_image(&p.f32s());
                let (_, log) = par(&other, p, &[]);
                // All schedules that leave the natural order at no more than one (thorough: two) of the first decisions.
                let mut all = vec![vec![]];
                for i in 0..log.len() {
                    for v in 1..log[i] {
                        let mut s = vec![0; i];
                        s.push(v);
                        if deep && i < 40 {
                            for j in i + 1..log.len().min(40) {
                                for u in 1..log[j].min(3) {
                                    let mut t = s.clone();
                                    t.resize(j, 0);
                                    t.push(u);
                                    all.push(t);
                                }
                            }
                        }
                        all.push(s);
                    }
                }
                (f, log, all)
            })
            .collect()
    });
    for (i, p) in scenes.iter().enumerate() {
        let (f, log, all) = &plans[i];
        run.grid(["schedules: spots", "schedules: waves", "schedules: flat", "schedules: smallest", "schedules: too small"][i], &[("schedule", all.len())], |ix, c| {
            let (g, seen) = par(&other, p, &all[ix[0]]);
            c.steps(seen.len() as u64);
            c.check(same(f, &g), "schedule", || format!("scene {i}, schedule {:?} of {log:?}: {} and {} features", all[ix[0]], f.0.len(), g.0.len()));
            c.check(&seen == log, "decisions", || format!("scene {i}: the decisions to take depend on the order"));
            c.outcome(&[ix[0] as f64, f.0.len() as f64]);
        });
    }

    // The repository's photographs, with the numbers its own (here not runnable) test asks for.
    let name = |i: usize| ["0000000000", "0000000014"][i];
    run.grid("photographs", &[("pair", 1)], |_, c| {
        let mut all: Vec<Features> = vec![];
        for i in 0..2 {
            let Some((w, h, b)) = png::read(&format!("/repo/res/{}.png", name(i))) else {
                c.class("not there");
                return;
            };
            let img = DynamicImage::ImageLuma8(ImageBuffer::from_raw(w as u32, h as u32, b).unwrap());
            let f = Akaze::sparse().extract(&img);
            c.step();
            sane(&Akaze::sparse(), w, h, &f, c, &|| name(i).into());
            let want = [399, 343][i];
            c.check(f.0.len() == want, "count", || format!("{}: {} features instead of {want}", name(i), f.0.len()));
            all.push(f);
        }
        let mut n = 0;
        for d in &all[0].1 {
            let mut v: Vec<u32> = all[1].1.iter().map(|e| d.distance(e)).collect();
            v.sort();
            n += ((v[0] as f32) < v[1] as f32 * 0.5) as usize;
        }
        c.check(n == 11, "matches", || format!("{n} matches instead of 11"));
        c.outcome(&[n as f64]);
    });
}
