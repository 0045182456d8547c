//! K02: the nonlinear scale space is the diffusion it claims to be.
use crate::util::*;
use akaze::hooks::scale_space;
use akaze::image::GrayFloatImage;
use akaze::Akaze;
use engine::*;

/// One image of the scale space, copied out.
struct Level {
    octave: u32,
    steps: Vec<f64>,
    lt: Img,
    smooth: Img,
    lx: Img,
    ly: Img,
    flow: Img,
}
fn build(a: &Akaze, g: &GrayFloatImage) -> Vec<Level> {
    let mut e = a.allocate_evolutions(g.width() as u32, g.height() as u32);
    if e.is_empty() {
        return vec![];
    }
    scale_space(a, &mut e, g);
    e.iter()
        .map(|e| Level {
            octave: e.octave,
            steps: e.fed_tau_steps.clone(),
            lt: Img::of(&e.Lt),
            smooth: Img::of(&e.Lsmooth),
            lx: Img::of(&e.Lx),
            ly: Img::of(&e.Ly),
            flow: Img::of(&e.Lflow),
        })
        .collect()
}
fn gradient(i: &Img) -> (Img, Img) {
    let (d, a) = ([-1.0, 0.0, 1.0], [3.0, 10.0, 3.0]);
    (i.correlate(&d, &a), i.correlate(&a, &d))
}
fn half(img: &Img) -> Img {
    let (w, h) = (img.w, img.h);
    Img::new(w / 2, h / 2, |x, y| {
        let xs = if w % 2 == 1 && x == w / 2 - 1 { vec![w - 1] } else { vec![2 * x, 2 * x + 1] };
        let ys = if h % 2 == 1 && y == h / 2 - 1 { vec![h - 1] } else { vec![2 * y, 2 * y + 1] };
        let s: f64 = xs.iter().flat_map(|&x| ys.iter().map(move |&y| (x, y))).map(|(x, y)| img.at(x, y)).sum();
        s / (xs.len() * ys.len()) as f64
    })
}
/// Explicit diffusion: every pixel exchanges with its four neighbours in proportion to the mean conductivity.
fn diffuse(l: &Img, c: &Img, tau: f64) -> Img {
    Img::new(l.w, l.h, |x, y| {
        let mut v = l.at(x, y);
        for (dx, dy) in [(-1i64, 0i64), (1, 0), (0, -1), (0, 1)] {
            let (nx, ny) = (x as i64 + dx, y as i64 + dy);
            if nx >= 0 && ny >= 0 && nx < l.w as i64 && ny < l.h as i64 {
                let (nx, ny) = (nx as usize, ny as usize);
                v += tau * 0.5 * (c.at(x, y) + c.at(nx, ny)) * (l.at(nx, ny) - l.at(x, y));
            }
        }
        v
    })
}

fn picture(kind: usize, w: usize, h: usize) -> Img {
    let f = |x: usize, y: usize| (x as f64 / w as f64, y as f64 / h as f64);
    Img::new(w, h, |x, y| {
        let (u, v) = f(x, y);
        match kind {
            0 => mix(x as u64, y as u64, 1),
            1 => 0.5 + 0.3 * (9.0 * u).sin() * (7.0 * v + 1.0).cos(),
            2 => ((x / 7 + y / 9) % 2) as f64 * 0.8 + 0.1,
            3 => if (u - 0.5).hypot(v - 0.45) < 0.2 { 0.9 } else { 0.2 },
            4 => 0.2 + 0.5 * u + 0.2 * v,
            5 => if x > w / 2 { 1.0 } else { 0.0 },
            6 => if (x, y) == (w / 3, h / 2) { 1.0 } else { 0.0 },
            7 => if (x, y) == (0, 0) { 1.0 } else { 0.0 },
            8 => 0.5 + 0.01 * mix(x as u64, y as u64, 3) + if y > h / 3 { 0.3 } else { 0.0 },
            _ => if x == w - 1 { 1.0 } else { 0.25 },
        }
    })
}
const PICTURES: usize = 10;

/// Compares every level of the scale space of `img` with its definition.
fn judge(a: &Akaze, img: &Img, c: &mut Case, what: &dyn Fn() -> String) {
    let g = img.f32s();
    let img = Img::of(&g);
    let top = img.max().abs().max(img.min().abs()).max(1e-30);
    let span = img.max() - img.min();
    let tol = 2e-5 * top;
    let levels = build(a, &g);
    c.steps(levels.len() as u64);
    for (i, l) in levels.iter().enumerate() {
        let fine = [&l.lt, &l.smooth].iter().all(|x| x.v.iter().all(|v| v.is_finite()));
        c.check(fine, "undefined", || format!("{}: level {i} has undefined values", what()));
        if !fine {
            return;
        }
    }
    if let Some(l) = levels.first() {
        let d = img.blur(a.base_scale_offset).diff(&l.lt).max(l.lt.diff(&l.smooth));
        c.check(d <= tol, "first", || format!("{}: first level off by {d:e}", what()));
    }
    // The contrast factor shows in the conductivity at the strongest gradient.
    let (gx, gy) = gradient(&img.blur(1.0));
    let mut mags: Vec<f64> = vec![];
    for y in 1..img.h - 1 {
        for x in 1..img.w - 1 {
            // Where the image is flat all around, the gradient is exactly zero; elsewhere it may vanish up to rounding.
            let v = img.at(x, y);
            let flat = (-4..=4).all(|j| (-4..=4).all(|i| img.clamped(x as i64 + i, y as i64 + j) == v));
            if !flat {
                mags.push(gx.at(x, y).hypot(gy.at(x, y)));
            }
        }
    }
    let hmax = mags.iter().copied().fold(0.0, f64::max);
    let floor = 1e-5 * top;
    let mut contrast: Option<f64> = None;
    for i in 1..levels.len() {
        let (p, l) = (&levels[i - 1], &levels[i]);
        let start = if l.octave > p.octave { half(&p.lt) } else { p.lt.clone() };
        let d = start.blur(1.0).diff(&l.smooth);
        c.check(d <= tol, "smooth", || format!("{}: smoothed level {i} off by {d:e}", what()));
        let (gx, gy) = gradient(&l.smooth);
        let d = gx.diff(&l.lx).max(gy.diff(&l.ly));
        c.check(d <= 32.0 * tol, "gradient", || format!("{}: gradient of level {i} off by {d:e}", what()));
        if hmax > 100.0 * floor {
            // k at this level from the strongest gradient: c = 1 / (1 + g^2/k^2)
            let at = (0..gx.v.len()).max_by(|&a, &b| gx.v[a].hypot(gy.v[a]).total_cmp(&gx.v[b].hypot(gy.v[b]))).unwrap();
            let (g2, cond) = (gx.v[at].powi(2) + gy.v[at].powi(2), l.flow.v[at]);
            c.check(cond > 0.0 && cond <= 1.0, "conductivity-range", || format!("{}: conductivity {cond} at level {i}", what()));
            if contrast.is_none() && cond > 1e-4 && cond < 1.0 - 1e-4 {
                contrast = Some((g2 * cond / (1.0 - cond)).sqrt() / 0.75f64.powi(l.octave as i32));
            }
            if let Some(k) = contrast {
                let k = k * 0.75f64.powi(l.octave as i32);
                let e = Img::new(l.lt.w, l.lt.h, |x, y| 1.0 / (1.0 + (gx.at(x, y).powi(2) + gy.at(x, y).powi(2)) / (k * k)));
                let d = e.diff(&l.flow);
                // The noise of the gradient matters where it is comparable with k.
                let t = 2e-3 + 64.0 * tol / k;
                c.check(d <= t, "conductivity", || format!("{}: conductivity of level {i} off by {d:e}", what()));
            }
        } else {
            c.check(l.flow.min() >= 0.0 && l.flow.max() <= 1.0, "conductivity-range", || format!("{}: level {i}: {}..{}", what(), l.flow.min(), l.flow.max()));
        }
        // Diffuse with the conductivities the code found: errors of the two parts are told apart.
        let mut e = start.clone();
        for &t in &l.steps {
            e = diffuse(&e, &l.flow, t);
        }
        let d = e.diff(&l.lt);
        c.check(d <= 2.0 * tol, "diffusion", || format!("{}: diffused level {i} off by {d:e}", what()));
        let n = start.v.len() as f64;
        let drift = (l.lt.sum() - start.sum()).abs() / n;
        c.check(drift <= tol, "mean", || format!("{}: mean of level {i} moved by {drift:e}", what()));
        let over = (l.lt.max() - start.max()).max(start.min() - l.lt.min());
        c.check(over <= tol + 1e-3 * span, "range", || format!("{}: level {i} leaves the range of the level before by {over:e}", what()));
    }
    // The contrast factor is the asked percentile of the gradient lengths, up to the width of the histogram's bins.
    if let Some(k) = contrast {
        let bin = hmax / a.contrast_factor_num_bins as f64;
        let slack = 1.05 * bin + 1e-3 * hmax;
        let (lo, mut all, mut below, mut within) = (floor, 0usize, 0usize, 0usize);
        let mut unsure = 0usize;
        for &m in &mags {
            all += 1;
            unsure += (m < lo) as usize; // rounding decides whether these are gradients at all
            below += (m < k - slack) as usize;
            within += (m <= k + slack) as usize;
        }
        let p = a.contrast_percentile;
        let u = unsure as f64;
        let n = all as f64;
        // at most the wanted share lies clearly below k, at least the wanted share lies below or near it
        let ok = below as f64 - u <= p * n + 1.0 && within as f64 + u + 1.0 >= p * (n - u);
        c.check(ok, "percentile", || format!("{}: contrast factor {k}: {below} to {within} of {all} gradients ({unsure} in the noise) are below it; wanted the share {p}", what()));
        c.class("contrast measured");
        c.outcome(&[k / top, levels.last().unwrap().lt.sum()]);
    } else {
        c.class("contrast not measurable");
    }
    c.class(["empty", "one level", "two", "three", "four", "five", "more"][levels.len().min(6)]);
}

fn options(i: usize) -> Akaze {
    let mut a = Akaze::default();
    match i {
        0 => {}
        1 => a.num_sublevels = 2,
        2 => a.base_scale_offset = 1.0,
        3 => a.contrast_percentile = 0.3,
        4 => a.contrast_factor_num_bins = 40,
        5 => {
            a.base_scale_offset = 2.4;
            a.max_octave_evolution = 2
        }
        6 => a.contrast_percentile = 0.95,
        _ => a.num_sublevels = 12,
    }
    a
}

pub fn k02(run: &Run) {
    // Which levels there are.
    run.grid("levels", &[("width", run.pick(90, 170)), ("height", run.pick(90, 170)), ("octaves", 6), ("sublevels", 5), ("base", 3)], |ix, c| {
        let (w, h) = if run.thorough() { (2 * ix[0] as u32, 2 * ix[1] as u32) } else { (4 * ix[0] as u32, 4 * ix[1] as u32) };
        let (w, h) = (w + (ix[2] as u32 & 1), h + (ix[3] as u32 & 1));
        let a = Akaze { max_octave_evolution: ix[2] as u32, num_sublevels: [1, 2, 4, 5, 12][ix[3]], base_scale_offset: [1.6, 1.0, 3.1][ix[4]], ..Akaze::default() };
        let e = a.allocate_evolutions(w, h);
        c.step();
        let mut want = vec![];
        for o in 0..a.max_octave_evolution {
            let side = (w >> o).min(h >> o);
            if side >= 40 {
                for s in 0..if side < 80 { 1 } else { a.num_sublevels } {
                    want.push((o, s));
                }
            }
        }
        let got: Vec<_> = e.iter().map(|e| (e.octave, e.sublevel)).collect();
        c.check(got == want, "levels", || format!("{w}x{h}, {} octaves, {} sublevels: {got:?}", a.max_octave_evolution, a.num_sublevels));
        for e in &e {
            let s = a.base_scale_offset * 2f64.powf(e.octave as f64 + e.sublevel as f64 / a.num_sublevels as f64);
            let ok = (e.esigma - s).abs() <= 1e-9 * s && (e.etime - s * s / 2.0).abs() <= 1e-9 * s * s && (e.sigma_size as f64 - s).abs() <= 0.5 + 1e-9;
            c.check(ok, "scale", || format!("octave {} sublevel {}: sigma {}, time {}, size {}", e.octave, e.sublevel, e.esigma, e.etime, e.sigma_size));
        }
        c.outcome(&[want.len() as f64, w as f64, h as f64]);
    });

    // Time steps: they add up to the time between the levels, there are as few as stability allows, and none is lost in reordering.
    let n = run.pick(6000, 60000);
    run.grid("time steps", &[("base scale", n), ("sublevels", 6)], |ix, c| {
        let sub = [1, 2, 3, 4, 8, 12][ix[1]];
        let a = Akaze { base_scale_offset: 0.02 + 60.0 * ix[0] as f64 / n as f64, num_sublevels: sub, max_octave_evolution: 2, ..Akaze::default() };
        let e = a.allocate_evolutions(80, 80);
        c.step();
        for i in 1..e.len() {
            let t = e[i].etime - e[i - 1].etime;
            let max = |n: usize| 0.25 * (n * n + n) as f64 / 3.0; // time covered by a cycle of n steps
            let got = &e[i].fed_tau_steps;
            let k = got.len();
            let sum: f64 = got.iter().sum();
            c.check((sum - t).abs() <= 1e-9 * t.max(1e-6), "time", || format!("{sum} instead of {t} in {k} steps"));
            let ok = max(k) >= t * (1.0 - 1e-6) - 1e-6 && (k <= 1 || max(k - 1) <= t * (1.0 + 1e-6) + 1e-6);
            c.check(ok, "steps", || format!("{k} steps for time {t}"));
            let q = if k > 0 { t / max(k) } else { 0.0 };
            let mut want: Vec<f64> = (0..k).map(|j| q * 0.125 / (std::f64::consts::PI * (2 * j + 1) as f64 / (4 * k + 2) as f64).cos().powi(2)).collect();
            let mut have = got.clone();
            want.sort_by(f64::total_cmp);
            have.sort_by(f64::total_cmp);
            let ok = want.iter().zip(&have).all(|(a, b)| (a - b).abs() <= 1e-9 * a);
            c.check(ok, "step-sizes", || format!("time {t}: {have:?} instead of {want:?}"));
            c.class(match k { 0 => "no step", 1 => "one step", 2..=9 => "few steps", _ => "many steps" });
            c.outcome(&[k as f64]);
        }
    });

    let sizes: &[(usize, usize)] = &[(40, 40), (79, 80), (80, 80), (81, 97), (90, 83), (160, 161), (165, 172)];
    run.grid("pictures", &[("picture", PICTURES), ("size", run.pick(5, 7)), ("turned", 2), ("options", run.pick(4, 8)), ("gain", 3)], |ix, c| {
        let (mut w, mut h) = sizes[ix[1]];
        if ix[2] == 1 {
            std::mem::swap(&mut w, &mut h);
        }
        let k = [1.0, 1.0 / 64.0, 16.0][ix[4]];
        let p = picture(ix[0], w, h);
        let p = Img::new(w, h, |x, y| k * p.at(x, y));
        judge(&options(ix[3]), &p, c, &|| format!("picture {} {w}x{h}, options {}, gain {k}", ix[0], ix[3]));
    });

    // Every binary 3x3 patch in the middle, at a side and in a corner of a flat image.
    run.grid("patches", &[("patch", 512), ("place", 3)], |ix, c| {
        let (w, h) = (80, 80);
        let (px, py) = [(37, 41), (77, 30), (0, 77)][ix[1]];
        let bit = |x: usize, y: usize| x >= px && y >= py && x < px + 3 && y < py + 3 && ix[0] >> ((y - py) * 3 + x - px) & 1 == 1;
        let img = Img::new(w, h, |x, y| if bit(x, y) { 0.9 } else { 0.3 });
        judge(&options(if run.thorough() { 0 } else { 1 }), &img, c, &|| format!("patch {:09b} at {px},{py}", ix[0]));
    });

    // A flat image stays flat, at any brightness.
    run.grid("flat", &[("level", 9), ("size", 5), ("options", 8)], |ix, c| {
        let (w, h) = sizes[ix[1]];
        let v = [0.0, 1e-30, 1e-6, 0.1, 0.25, 0.5, 0.7, 1.0, 200.0][ix[0]];
        let l = build(&options(ix[2]), &Img::new(w, h, |_, _| v).f32s());
        c.steps(l.len() as u64);
        for (i, l) in l.iter().enumerate() {
            let d = l.lt.v.iter().chain(&l.smooth.v).map(|x| (x - v).abs()).fold(0.0, |a: f64, b| if b.is_nan() { f64::INFINITY } else { a.max(b) });
            c.check(d <= 3e-6 * v, "flat", || format!("brightness {v}: level {i} off by {d:e}"));
        }
        c.outcome(&[v, l.len() as f64]);
    });

    // Brightness gain by powers of two is exact; mirrored and turned images give mirrored and turned scale spaces.
    run.grid("symmetry", &[("picture", PICTURES), ("size", 2), ("transformation", 6)], |ix, c| {
        let (w, h) = [(80, 80), (96, 88)][ix[1]];
        let p = picture(ix[0], w, h);
        let a = Akaze::default();
        let base = build(&a, &p.f32s());
        let t = ix[2];
        let map = |i: &Img| match t {
            0 => Img::new(i.w, i.h, |x, y| i.at(x, y) * 4.0),
            1 => Img::new(i.w, i.h, |x, y| i.at(x, y) / 256.0),
            2 => Img::new(i.w, i.h, |x, y| i.at(i.w - 1 - x, y)),
            3 => Img::new(i.w, i.h, |x, y| i.at(x, i.h - 1 - y)),
            4 => Img::new(i.h, i.w, |x, y| i.at(y, x)),
            _ => Img::new(i.h, i.w, |x, y| i.at(i.w - 1 - y, x)),
        };
        let other = build(&a, &map(&p).f32s());
        c.steps(2);
        c.check(base.len() == other.len(), "levels", || format!("{} and {}", base.len(), other.len()));
        for (i, (b, o)) in base.iter().zip(&other).enumerate() {
            let d = map(&b.lt).diff(&o.lt);
            let tol = if t < 2 { 0.0 } else { 2e-3 };
            c.check(d <= tol, if t < 2 { "gain" } else { "turn" }, || format!("picture {}, transformation {t}: level {i} off by {d:e}", ix[0]));
        }
        c.outcome(&[base.last().unwrap().lt.sum(), t as f64]);
    });
}
