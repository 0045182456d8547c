use akaze::image::GrayFloatImage;

/// A plain matrix of f64 with its own arithmetic, independent of the code under test.
#[derive(Clone, Debug)]
pub struct Img {
    pub w: usize,
    pub h: usize,
    pub v: Vec<f64>,
}
impl Img {
    pub fn new(w: usize, h: usize, f: impl Fn(usize, usize) -> f64) -> Self {
        let mut v = Vec::with_capacity(w * h);
        for y in 0..h {
            for x in 0..w {
                v.push(f(x, y));
            }
        }
        Img { w, h, v }
    }
    pub fn at(&self, x: usize, y: usize) -> f64 {
        self.v[y * self.w + x]
    }
    /// Replicated border.
    pub fn clamped(&self, x: i64, y: i64) -> f64 {
        self.at(x.clamp(0, self.w as i64 - 1) as usize, y.clamp(0, self.h as i64 - 1) as usize)
    }
    pub fn correlate(&self, hk: &[f64], vk: &[f64]) -> Img {
        let a = Img::new(self.w, self.h, |x, y| {
            let c = (hk.len() / 2) as i64;
            hk.iter().enumerate().map(|(i, k)| k * self.clamped(x as i64 + i as i64 - c, y as i64)).sum()
        });
        Img::new(self.w, self.h, |x, y| {
            let c = (vk.len() / 2) as i64;
            vk.iter().enumerate().map(|(i, k)| k * a.clamped(x as i64, y as i64 + i as i64 - c)).sum()
        })
    }
    pub fn blur(&self, r: f64) -> Img {
        let k = gauss(r, 2 * (2.0 * r).ceil() as usize + 1);
        self.correlate(&k, &k)
    }
    pub fn f32s(&self) -> GrayFloatImage {
        let mut g = GrayFloatImage::new(self.w, self.h);
        for y in 0..self.h {
            for x in 0..self.w {
                g.put(x, y, self.at(x, y) as f32);
            }
        }
        g
    }
    pub fn of(g: &GrayFloatImage) -> Img {
        Img::new(g.width(), g.height(), |x, y| g.get(x, y) as f64)
    }
    pub fn sum(&self) -> f64 {
        self.v.iter().sum()
    }
    pub fn max(&self) -> f64 {
        self.v.iter().copied().fold(f64::NEG_INFINITY, f64::max)
    }
    pub fn min(&self) -> f64 {
        self.v.iter().copied().fold(f64::INFINITY, f64::min)
    }
    /// Largest difference; infinite when the shapes differ or anything is not finite.
    pub fn diff(&self, o: &Img) -> f64 {
        if (self.w, self.h) != (o.w, o.h) {
            return f64::INFINITY;
        }
        let mut d: f64 = 0.0;
        for (a, b) in self.v.iter().zip(&o.v) {
            let e = (a - b).abs();
            if !e.is_finite() {
                return f64::INFINITY;
            }
            d = d.max(e);
        }
        d
    }
}
pub fn gauss(r: f64, n: usize) -> Vec<f64> {
    let c = (n / 2) as f64;
    let k: Vec<f64> = (0..n).map(|i| (-(i as f64 - c).powi(2) / (2.0 * r * r)).exp()).collect();
    let s: f64 = k.iter().sum();
    k.into_iter().map(|x| x / s).collect()
}
/// Deterministic well-mixed value in [0, 1).
pub fn mix(a: u64, b: u64, c: u64) -> f64 {
    let mut z = a.wrapping_mul(0x9e3779b97f4a7c15) ^ b.wrapping_mul(0xbf58476d1ce4e5b9) ^ c.wrapping_mul(0x94d049bb133111eb);
    for _ in 0..3 {
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
    }
    (z >> 11) as f64 / (1u64 << 53) as f64
}
