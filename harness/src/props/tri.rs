//! What each triangulation method is to return: an independent computation of its defining point, with the accuracy
//! to which the observations determine it.
use super::geom::Tri;
use crate::refm::*;

/// The expected outcome of one triangulation.
#[derive(Debug)]
pub struct Expect {
    /// The point, as a unit homogeneous vector.
    pub h: [f64; 4],
    /// The accuracy to be reached, on unit homogeneous vectors.
    pub tol: f64,
    /// Whether the point is in front of all cameras, if that is not decided by rounding.
    pub front: Option<bool>,
}

pub fn unit4(h: [f64; 4]) -> [f64; 4] {
    let n = h.iter().map(|x| x * x).sum::<f64>().sqrt();
    let s = if h[3] < 0.0 { -1.0 } else { 1.0 };
    h.map(|x| x * s / n)
}

/// Distance between two homogeneous points as unit vectors.
pub fn dist4(a: [f64; 4], b: [f64; 4]) -> f64 {
    let (a, b) = (unit4(a), unit4(b));
    let d = |s: f64| (0..4).map(|i| (a[i] - s * b[i]).abs()).fold(0.0, f64::max);
    d(1.0).min(d(-1.0))
}

/// The direction in which a camera sees a homogeneous point.
pub fn seen(g: &Rigid, h: [f64; 4]) -> V3 {
    add(g.rotate([h[0], h[1], h[2]]), mul(g.t, h[3]))
}

fn front(obs: &[(Rigid, V3)], h: [f64; 4], tol: f64) -> Option<bool> {
    let mut sure = h[3] > 4.0 * tol + 1e-12;
    let mut all = true;
    for (g, b) in obs {
        let m = 4.0 * tol * (1.0 + norm(g.t)) + 1e-12;
        let d = dot(seen(g, h), unit(*b));
        if d < m {
            all = false;
            if d > -m {
                sure = false;
            }
        }
    }
    sure.then_some(all)
}

fn expect(obs: &[(Rigid, V3)], h: [f64; 4], tol: f64) -> Expect {
    let h = unit4(h);
    Expect { h, tol, front: front(obs, h, tol) }
}

fn solve3(m: &M3, v: V3) -> V3 {
    let d = det(m);
    let col = |k: usize| {
        let mut n = *m;
        for i in 0..3 {
            n[i][k] = v[i];
        }
        det(&n) / d
    };
    [col(0), col(1), col(2)]
}

/// The homogeneous point with the least sum of squared distances to the lines of sight, in each camera's frame.
/// The eigenvectors of the linear algebra library are exact to the square root of the machine precision at worst.
fn linear(obs: &[(Rigid, V3)]) -> Option<Expect> {
    let mut a = [[0.0; 4]; 4];
    for (g, b) in obs {
        let b = unit(*b);
        // distance of g(h) from the line along b, as a 3x4 matrix
        let p: M3 = std::array::from_fn(|i| std::array::from_fn(|j| (i == j) as u8 as f64 - b[i] * b[j]));
        let r = mm(&p, &g.r);
        let t = mv(&p, g.t);
        let rows: [[f64; 4]; 3] = std::array::from_fn(|i| [r[i][0], r[i][1], r[i][2], t[i]]);
        for i in 0..4 {
            for j in 0..4 {
                a[i][j] += (0..3).map(|k| rows[k][i] * rows[k][j]).sum::<f64>();
            }
        }
    }
    let (vals, vecs) = jacobi(&a);
    let gap = (vals[1] - vals[0]) / vals[3];
    (gap > 1e-9).then(|| expect(obs, vecs[0], 5e-8 / gap))
}

/// The point with the least sum of squared distances to the lines of sight.
fn sine(obs: &[(Rigid, V3)]) -> Option<Expect> {
    let start = linear(obs)?;
    if start.front != Some(true) {
        return None;
    }
    let n = obs.len() as f64;
    let mut m = [[0.0; 3]; 3];
    let mut v = [0.0; 3];
    let mut far = 0.0f64;
    for (g, b) in obs {
        let w = unit(g.inv().rotate(*b));
        let c = g.centre();
        far = far.max(norm(c));
        let p: M3 = std::array::from_fn(|i| std::array::from_fn(|j| (i == j) as u8 as f64 - w[i] * w[j]));
        m = madd(&m, &p);
        v = add(v, mv(&p, c));
    }
    let (vals, _) = jacobi(&m);
    let low = vals.iter().copied().fold(f64::INFINITY, f64::min) / n;
    if low < 1e-6 {
        return None;
    }
    let x = solve3(&m, v);
    let s = start.h;
    let x0 = [s[0] / s[3], s[1] / s[3], s[2] / s[3]];
    let left = (1.0 - low).max(0.0).powi(999) * vdiff(x0, x) * 2.0;
    let size = norm(x).max(norm(x0)).max(far);
    let tol = (4e-12 * norm(x) + 1e-14 * size) / low + left;
    let full = (1.0 + norm(x) * norm(x)).sqrt();
    // a displacement of a point is at most this much on the unit homogeneous vector
    let e = expect(obs, [x[0], x[1], x[2], 1.0], 2.0 * tol / full);
    // is it in front of all cameras even if it is this far off?
    let sure = obs.iter().all(|(g, b)| dot(g.act(x), unit(*b)).abs() > 4.0 * tol);
    Some(Expect { front: if sure { e.front } else { None }, ..e })
}

/// The mean of the positions, on the mean line of sight, closest to every line of sight.
fn mean(obs: &[(Rigid, V3)]) -> Option<Expect> {
    let n = obs.len() as f64;
    let mut c = [0.0; 3];
    let mut d = [0.0; 3];
    for (g, b) in obs {
        c = add(c, mul(g.centre(), 1.0 / n));
        d = add(d, unit(g.inv().rotate(*b)));
    }
    if norm(d) < 1e-3 {
        return None;
    }
    let d = unit(d);
    let mut s = 0.0;
    let mut err = 0.0;
    for (g, b) in obs {
        let w = unit(g.inv().rotate(*b));
        let o = sub(g.centre(), c);
        // the closest positions s and u on the two lines: (c + s d) - (c + o + u w) is perpendicular to both
        let k = dot(d, w);
        let sq = norm(cross(d, w)).powi(2);
        if sq < 1e-10 {
            return None;
        }
        s += dot(o, sub(d, mul(w, k))) / sq / n;
        err += (norm(o) + norm(g.t) * 1e-1) / sq;
    }
    // the precision of the lines is amplified once by each of the two small angles
    let tol = 1e-14 * (err + norm(c) + s.abs());
    if s.abs() < 1e-6 {
        return None;
    }
    let x = add(c, mul(d, s));
    let full = (1.0 + norm(x) * norm(x)).sqrt();
    let mut e = expect(obs, [x[0], x[1], x[2], 1.0], 2.0 * tol / full);
    let sure = obs.iter().all(|(g, b)| dot(g.act(x), unit(*b)).abs() > 4.0 * tol);
    if !sure {
        e.front = None;
    }
    Some(e)
}

/// The null vector of the pinhole equations of two views.
fn direct(obs: &[(Rigid, V3)]) -> Option<Expect> {
    let (a, g, b) = (unit(obs[0].1), &obs[1].0, unit(obs[1].1));
    let p = |i: usize| [g.r[i][0], g.r[i][1], g.r[i][2], g.t[i]];
    let row = |x: f64, y: f64, i: usize| -> [f64; 4] { std::array::from_fn(|k| x * p(2)[k] - y * p(i)[k]) };
    let m = [[-a[2], 0.0, a[0], 0.0], [0.0, -a[2], a[1], 0.0], row(b[0], b[2], 0), row(b[1], b[2], 1)];
    let (sv, v) = one_sided_jacobi(&m);
    let mut ord = [0, 1, 2, 3];
    ord.sort_by(|&i, &j| sv[i].total_cmp(&sv[j]));
    let gap = (sv[ord[1]] - sv[ord[0]]) / sv[ord[3]];
    let h: [f64; 4] = std::array::from_fn(|k| v[k][ord[0]]);
    (gap > 1e-6).then(|| expect(obs, h, 5e-8 / gap))
}

/// Singular values and right singular vectors (columns) of a small matrix.
pub fn one_sided_jacobi<const N: usize>(m: &[[f64; N]; N]) -> ([f64; N], [[f64; N]; N]) {
    let mut u = *m;
    let mut v: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| (i == j) as u8 as f64));
    for _ in 0..60 {
        let mut off = 0.0f64;
        for i in 0..N {
            for j in i + 1..N {
                let (mut al, mut be, mut ga) = (0.0, 0.0, 0.0);
                for r in &u {
                    al += r[i] * r[i];
                    be += r[j] * r[j];
                    ga += r[i] * r[j];
                }
                if ga == 0.0 {
                    continue;
                }
                off = off.max(ga.abs() / (al * be).sqrt());
                let z = (be - al) / (2.0 * ga);
                let t = if z == 0.0 { 1.0 } else { z.signum() / (z.abs() + (1.0 + z * z).sqrt()) };
                let c = 1.0 / (1.0 + t * t).sqrt();
                let s = c * t;
                for r in u.iter_mut().chain(v.iter_mut()) {
                    let (x, y) = (r[i], r[j]);
                    r[i] = c * x - s * y;
                    r[j] = s * x + c * y;
                }
            }
        }
        if off < 1e-16 {
            break;
        }
    }
    (std::array::from_fn(|k| u.iter().map(|r| r[k] * r[k]).sum::<f64>().sqrt()), v)
}

/// The intersection of the two lines of sight after the least correction onto a common epipolar plane.
fn angular(obs: &[(Rigid, V3)], largest: bool) -> Option<Expect> {
    let (a, g) = (unit(obs[0].1), &obs[1].0);
    let b = unit(g.inv().rotate(obs[1].1));
    let t = g.centre();
    if norm(t) < 1e-9 {
        return None;
    }
    let u = unit(t);
    let planes = if largest { [cross(add(a, b), u), cross(sub(a, b), u)] } else { [cross(a, u), cross(b, u)] };
    let mut best: Vec<(f64, V3, f64)> = vec![];
    for p in planes {
        let k = norm(p);
        if k < 1e-6 {
            if largest {
                continue; // the other plane is far better
            }
            return None;
        }
        let n = mul(p, 1.0 / k);
        let (ea, eb) = (dot(a, n).abs().asin(), dot(b, n).abs().asin());
        best.push((if largest { ea.max(eb) } else { ea + eb }, n, k));
    }
    if best.is_empty() {
        return None;
    }
    best.sort_by(|x, y| x.0.total_cmp(&y.0));
    let tie = best.len() > 1 && best[1].0 - best[0].0 < 1e-9;
    if tie && best[0].0 > 1e-12 {
        return None;
    }
    let (cost, n, k) = best[0];
    if tie && best[1].2 < 0.1 || cost > 1.5 {
        return None;
    }
    let (a2, b2) = (unit(sub(a, mul(n, dot(a, n)))), unit(sub(b, mul(n, dot(b, n)))));
    let ab = cross(a2, b2);
    let s = norm(ab);
    if s < 1e-6 {
        return None;
    }
    // la a2 = t + mu b2
    let la = dot(cross(t, b2), ab) / (s * s);
    let w = s * s / dot(cross(t, b2), ab);
    if la == 0.0 || !w.is_finite() {
        return None;
    }
    let size = (1.0 + w.abs() * (norm(t) + 1.0)).max(1.0);
    let tol = 1e-13 / k * (1.0 + size * w.abs() * norm(t) / s);
    let e = expect(obs, [a2[0], a2[1], a2[2], w], tol);
    let sure = (la / norm(t)).abs() > 10.0 * tol;
    Some(Expect { front: if sure { e.front } else { None }, ..e })
}

/// What the method is to return for these observations, or nothing where they do not determine it.
pub fn expected(m: Tri, obs: &[(Rigid, V3)]) -> Option<Expect> {
    match m {
        Tri::Linear => linear(obs),
        Tri::Sine => sine(obs),
        Tri::Mean => mean(obs),
        Tri::Dlt => direct(obs),
        Tri::L1 => angular(obs, false),
        Tri::Linf => angular(obs, true),
    }
}
