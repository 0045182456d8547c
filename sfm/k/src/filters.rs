//! K01: the image operators equal their definitions.
use crate::util::*;
use ::image::{DynamicImage, ImageBuffer, Luma, LumaA, Rgb, Rgba};
use akaze::image::*;
use akaze::Akaze;
use engine::*;

fn kernel(i: usize) -> Vec<f64> {
    match i {
        0 => vec![0.5],
        1 => vec![-1.0, 0.0, 1.0],
        2 => vec![3.0, 10.0, 4.0],
        3 => vec![0.1, -0.2, 0.4, 0.8, 1.6],
        4 => (0..7).map(|i| (i as f64 - 2.3) * 0.3).collect(),
        5 => (0..9).map(|i| 1.0 / (1.0 + i as f64)).collect(),
        _ => (0..11).map(|i| ((i * i) % 7) as f64 - 2.5).collect(),
    }
}
fn f32v(k: &[f64]) -> Vec<f32> {
    k.iter().map(|&x| x as f32).collect()
}

pub fn k01(run: &Run) {
    // Linear operators are settled by their value on every impulse; generic images settle linearity.
    const WIDE: [usize; 14] = [1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 49];
    const NARROW: [usize; 5] = [1, 2, 3, 5, 8];
    let kn = 7;
    run.grid("filters", &[("long side", WIDE.len()), ("short side", NARROW.len()), ("turned", 2), ("kernel", kn)], |ix, c| {
        let (mut w, mut h) = (WIDE[ix[0]], NARROW[ix[1]]);
        if ix[2] == 1 {
            std::mem::swap(&mut w, &mut h);
        }
        let k = kernel(ix[3]);
        let other = kernel((ix[3] + 3) % kn);
        let kf = f32v(&k);
        let scale: f64 = k.iter().map(|x| x.abs()).sum();
        let both = scale * other.iter().map(|x| x.abs()).sum::<f64>();
        let go = |img: Img, c: &mut Case, what: &str| {
            let g = img.f32s();
            let img = Img::of(&g);
            c.steps(3);
            let a = GrayFloatImage(horizontal_filter(&g.0, &kf));
            let e = img.correlate(&k, &[1.0]);
            let d = e.diff(&Img::of(&a));
            c.check(d <= 1e-5 * scale, "horizontal", || format!("{what} {w}x{h}, kernel {k:?}: off by {d:e}"));
            let a = GrayFloatImage(vertical_filter(&g.0, &kf));
            let e = img.correlate(&[1.0], &k);
            let d = e.diff(&Img::of(&a));
            c.check(d <= 1e-5 * scale, "vertical", || format!("{what} {w}x{h}, kernel {k:?}: off by {d:e}"));
            let a = GrayFloatImage(separable_filter(&g.0, &kf, &f32v(&other)));
            let e = img.correlate(&k, &other);
            let d = e.diff(&Img::of(&a));
            c.check(d <= 2e-5 * both, "separable", || format!("{what} {w}x{h}: off by {d:e}"));
            c.outcome(&[d, e.sum()]);
        };
        for p in 0..w * h {
            go(Img::new(w, h, |x, y| ((y * w + x) == p) as u8 as f64), c, "impulse");
        }
        for seed in 0..2 {
            go(Img::new(w, h, |x, y| mix(x as u64, y as u64, seed) * 2.0 - 0.5), c, "texture");
        }
        c.class(if w % 16 == 0 { "whole blocks" } else { "partial block" });
    });

    let rs = run.pick(40, 400);
    run.grid("gaussian kernel", &[("sigma", rs), ("radius", 12)], |ix, c| {
        let r = 0.1 + ix[0] as f64 * 8.0 / rs as f64;
        let n = 2 * ix[1] + 1;
        let k = gaussian_kernel(r as f32, n);
        c.step();
        let e = gauss(r as f32 as f64, n);
        c.check(k.len() == n, "length", || format!("{} for {n}", k.len()));
        for i in 0..n {
            c.check((k[i] as f64 - e[i]).abs() <= 1e-6, "weight", || format!("sigma {r}, size {n}: weight {i} is {} instead of {}", k[i], e[i]));
        }
        c.outcome(&[k[0] as f64, k[n / 2] as f64]);
    });

    run.grid("blur", &[("sigma", 8), ("width", 9), ("height", 9)], |ix, c| {
        let r = [0.4, 0.5, 0.8, 1.0, 1.3, 1.6, 2.2, 3.0][ix[0]];
        let (w, h) = (1 + ix[1] * 2, 1 + ix[2] * 2);
        for p in 0..w * h + 2 {
            let img = if p < w * h {
                Img::new(w, h, |x, y| ((y * w + x) == p) as u8 as f64)
            } else if p == w * h {
                Img::new(w, h, |_, _| 0.75)
            } else {
                Img::new(w, h, |x, y| mix(x as u64, y as u64, 9))
            };
            let b = gaussian_blur(&img.f32s(), r as f32);
            c.step();
            let d = img.blur(r).diff(&Img::of(&b));
            c.check(d <= 3e-6, "blur", || format!("sigma {r} on {w}x{h}, image {p}: off by {d:e}"));
        }
        c.outcome(&[r, w as f64, h as f64]);
    });

    let m = run.pick(11, 16);
    run.grid("half size", &[("width", m), ("height", m)], |ix, c| {
        let (w, h) = (ix[0] + 2, ix[1] + 2);
        let half = |img: &Img| {
            Img::new(w / 2, h / 2, |x, y| {
                // The last column or row of an odd image stands for itself.
                let xs = if w % 2 == 1 && x == w / 2 - 1 { vec![w - 1] } else { vec![2 * x, 2 * x + 1] };
                let ys = if h % 2 == 1 && y == h / 2 - 1 { vec![h - 1] } else { vec![2 * y, 2 * y + 1] };
                let s: f64 = xs.iter().flat_map(|&x| ys.iter().map(move |&y| (x, y))).map(|(x, y)| img.at(x, y)).sum();
                s / (xs.len() * ys.len()) as f64
            })
        };
        for p in 0..w * h + 1 {
            let img = Img::new(w, h, |x, y| if p == w * h { mix(x as u64, y as u64, 4) } else { ((y * w + x) == p) as u8 as f64 });
            let g = img.f32s().half_size();
            c.step();
            let d = half(&img).diff(&Img::of(&g));
            c.check(d <= 1e-6, "half", || format!("{w}x{h}, image {p}: off by {d:e}"));
            c.outcome(&[w as f64, h as f64, p as f64]);
        }
        c.class(["even", "odd width", "odd height", "odd"][(w % 2) + 2 * (h % 2)]);
    });

    // Derivatives and determinant of the Hessian: on every impulse and on generic images, exact on planes and quadrics.
    let sides = run.pick(6, 9);
    run.grid("derivatives", &[("scale", 7), ("octave", 2), ("width", sides), ("height", sides)], |ix, c| {
        let (s, octave) = (ix[0] + 1, ix[1]);
        let (w, h) = (2 * s + 1 + ix[2], 2 * s + 1 + ix[3]);
        // Scale = round(esigma * derivative factor / 2^octave): choose the factor so that it comes out as wanted.
        let mut akaze = Akaze { base_scale_offset: 2.0, num_sublevels: 1, max_octave_evolution: 2, ..Akaze::default() };
        akaze.derivative_factor = (s as f64 + [0.4, -0.4][octave]) / 2.0;
        let mut steps = akaze.allocate_evolutions(160, 160);
        let mut op = |i: &Img| -> [Img; 6] {
            let mut e = steps.remove(octave);
            e.Lsmooth = i.f32s();
            let mut one = [e];
            akaze.detector_response(&mut one);
            let [e] = one;
            let r = [&e.Lx, &e.Ly, &e.Lxx, &e.Lyy, &e.Lxy, &e.Ldet].map(Img::of);
            steps.insert(octave, e);
            r
        };
        // Scharr's operator: central difference over the reach, smoothed with weights 3, 10, 3 across.
        let mut d = vec![0.0; 2 * s + 1];
        d[0] = -1.0 / (2 * s) as f64;
        d[2 * s] = -d[0];
        let mut a = vec![0.0; 2 * s + 1];
        a[0] = 3.0 / 16.0;
        a[2 * s] = 3.0 / 16.0;
        a[s] = 10.0 / 16.0;
        const NAME: [&str; 6] = ["Lx", "Ly", "Lxx", "Lyy", "Lxy", "Ldet"];
        for p in 0..w * h + 1 {
            let img = Img::new(w, h, |x, y| if p == w * h { mix(x as u64, y as u64, 2) } else { ((y * w + x) == p) as u8 as f64 });
            let got = op(&img);
            let (lx, ly) = (img.correlate(&d, &a), img.correlate(&a, &d));
            let (lxx, lyy, lxy) = (lx.correlate(&d, &a), ly.correlate(&a, &d), lx.correlate(&a, &d));
            let k = (s as f64).powi(4);
            let det = Img::new(w, h, |x, y| k * (lxx.at(x, y) * lyy.at(x, y) - lxy.at(x, y) * lxy.at(x, y)));
            c.steps(6);
            for (i, e) in [lx, ly, lxx, lyy, lxy, det].iter().enumerate() {
                let off = e.diff(&got[i]);
                c.check(off <= 2e-6, NAME[i], || format!("scale {s}, octave {octave}, {w}x{h}, image {p}: {} off by {off:e}", NAME[i]));
            }
        }
        // 1/4 + bx x + by y + (qx x^2 + qy y^2)/2 + qxy x y, away from the border
        for (bx, by, qx, qy, qxy) in [(0.0, 0.0, 0.0, 0.0, 0.0), (0.01, 0.0, 0.0, 0.0, 0.0), (0.0, 0.01, 0.0, 0.0, 0.0), (-0.02, 0.03, 0.0, 0.0, 0.0), (0.0, 0.0, 4e-4, 2e-4, 1e-4), (0.0, 0.0, -3e-4, 1e-4, 2e-4)] {
            let (w, h) = (w + 2 * s, h + 2 * s);
            let img = Img::new(w, h, |x, y| {
                let (x, y) = (x as f64, y as f64);
                0.25 + bx * x + by * y + 0.5 * (qx * x * x + qy * y * y) + qxy * x * y
            });
            let got = op(&img);
            for y in 2 * s..h - 2 * s {
                for x in 2 * s..w - 2 * s {
                    let (xf, yf) = (x as f64, y as f64);
                    let k = (s as f64).powi(4);
                    let e = [bx + qx * xf + qxy * yf, by + qy * yf + qxy * xf, qx, qy, qxy, k * (qx * qy - qxy * qxy)];
                    for i in 0..6 {
                        let tol = if i == 5 { 2e-6 * k * (qx.abs() + qy.abs() + qxy.abs()) + 1e-9 } else { 2e-6 };
                        let g = got[i].at(x, y);
                        c.check((g - e[i]).abs() <= tol, "polynomial", || format!("scale {s}, octave {octave}: {} is {g} instead of {} at {x},{y}", NAME[i], e[i]));
                    }
                }
            }
        }
        c.outcome(&[s as f64, w as f64, h as f64]);
    });

    // Every 8- and 16-bit level of every pixel type.
    run.grid("intensities", &[("type", 10), ("high byte", 256)], |ix, c| {
        let hi = ix[1] as u16;
        let (w, h) = (16u32, 16u32);
        let v8 = |x: u32, y: u32| ((y * w + x) as u16 ^ hi) as u8;
        let v16 = |x: u32, y: u32| hi << 8 | (y * w + x) as u16;
        let vf = |x: u32, y: u32| (hi as f32 + (y * w + x) as f32 / 256.0) / 256.0;
        let near = |a: f32, b: f64| (a as f64 - b).abs() <= 1e-6;
        use DynamicImage::*;
        let img = match ix[0] {
            0 => ImageLuma8(ImageBuffer::from_fn(w, h, |x, y| Luma([v8(x, y)]))),
            1 => ImageLumaA8(ImageBuffer::from_fn(w, h, |x, y| LumaA([v8(x, y), !v8(x, y)]))),
            2 => ImageRgb8(ImageBuffer::from_fn(w, h, |x, y| Rgb([v8(x, y); 3]))),
            3 => ImageRgba8(ImageBuffer::from_fn(w, h, |x, y| { let v = v8(x, y); Rgba([v, v, v, 7]) })),
            4 => ImageLuma16(ImageBuffer::from_fn(w, h, |x, y| Luma([v16(x, y)]))),
            5 => ImageLumaA16(ImageBuffer::from_fn(w, h, |x, y| LumaA([v16(x, y), 3]))),
            6 => ImageRgb16(ImageBuffer::from_fn(w, h, |x, y| Rgb([v16(x, y); 3]))),
            7 => ImageRgba16(ImageBuffer::from_fn(w, h, |x, y| { let v = v16(x, y); Rgba([v, v, v, 7]) })),
            8 => ImageRgb32F(ImageBuffer::from_fn(w, h, |x, y| Rgb([vf(x, y); 3]))),
            _ => ImageRgba32F(ImageBuffer::from_fn(w, h, |x, y| { let v = vf(x, y); Rgba([v, v, v, 0.5]) })),
        };
        let g = GrayFloatImage::from_dynamic(&img);
        c.step();
        c.check(g.width() == 16 && g.height() == 16, "shape", || format!("{}x{}", g.width(), g.height()));
        for y in 0..h {
            for x in 0..w {
                let e = match ix[0] {
                    0..=3 => v8(x, y) as f64 / 255.0,
                    4..=7 => v16(x, y) as f64 / 65535.0,
                    _ => vf(x, y) as f64,
                };
                let a = g.get(x as usize, y as usize);
                c.check(near(a, e), "level", || format!("type {}: level {e} became {a}", ix[0]));
            }
        }
        c.outcome(&[g.get(3, 5) as f64, ix[0] as f64]);
    });

    run.grid("views", &[("width", 6), ("height", 6)], |ix, c| {
        let (w, h) = (ix[0] + 1, ix[1] + 1);
        let img = Img::new(w, h, |x, y| (10 * y + x) as f64);
        let mut g = img.f32s();
        c.steps(4);
        c.check(g.width() == w && g.height() == h && g.zero_array().dim() == (h, w), "shape", || format!("{w}x{h}"));
        for y in 0..h {
            for x in 0..w {
                c.check(g.get(x, y) == img.at(x, y) as f32 && g.ref_array2()[(y, x)] == g.get(x, y), "view", || format!("pixel {x},{y}"));
                g.mut_array2()[(y, x)] += 0.5;
                c.check(g.get(x, y) == img.at(x, y) as f32 + 0.5, "view", || format!("writing pixel {x},{y}"));
            }
        }
        let back = GrayFloatImage::from_array2(g.ref_array2().to_owned());
        c.check(Img::of(&back).diff(&Img::of(&g)) == 0.0, "view", || "from_array2".into());
        c.check(GrayFloatImage::new(w, h).iter().all(|&p| p == 0.0), "new", || "not black".into());
        c.outcome(&[w as f64, h as f64]);
    });
}
