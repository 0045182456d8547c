//! Small reference mathematics on plain arrays, independent of the library under test.

pub type V3 = [f64; 3];
pub type M3 = [[f64; 3]; 3];

pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn mul(a: V3, k: f64) -> V3 {
    [a[0] * k, a[1] * k, a[2] * k]
}
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
/// Overflow-safe euclidean norm.
pub fn norm(a: V3) -> f64 {
    let m = a[0].abs().max(a[1].abs()).max(a[2].abs());
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    let b = [a[0] / m, a[1] / m, a[2] / m];
    m * dot(b, b).sqrt()
}
pub fn unit(a: V3) -> V3 {
    let n = norm(a);
    [a[0] / n, a[1] / n, a[2] / n]
}
pub fn mv(m: &M3, v: V3) -> V3 {
    [dot(m[0], v), dot(m[1], v), dot(m[2], v)]
}
pub fn mm(a: &M3, b: &M3) -> M3 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                r[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    r
}
pub fn tr(a: &M3) -> M3 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[j][i];
        }
    }
    r
}
pub const I3: M3 = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]];
pub fn madd(a: &M3, b: &M3) -> M3 {
    let mut r = *a;
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] += b[i][j];
        }
    }
    r
}
pub fn mscale(a: &M3, k: f64) -> M3 {
    let mut r = *a;
    for row in r.iter_mut() {
        for x in row.iter_mut() {
            *x *= k;
        }
    }
    r
}
pub fn hat(w: V3) -> M3 {
    [[0., -w[2], w[1]], [w[2], 0., -w[0]], [-w[1], w[0], 0.]]
}
pub fn det(m: &M3) -> f64 {
    dot(m[0], cross(m[1], m[2]))
}
/// Rodrigues' formula with well conditioned coefficients.
pub fn exp_so3(w: V3) -> M3 {
    let th = norm(w);
    let (a, b) = if th < 1e-4 {
        let t2 = th * th;
        (1.0 - t2 / 6.0 + t2 * t2 / 120.0, 0.5 - t2 / 24.0)
    } else {
        let s = (th * 0.5).sin();
        (th.sin() / th, 2.0 * s * s / (th * th))
    };
    let h = hat(w);
    let h2 = mm(&h, &h);
    madd(&madd(&I3, &mscale(&h, a)), &mscale(&h2, b))
}
/// Rotation about a unit axis by an angle (the axis must be unit length).
pub fn rot(axis: V3, ang: f64) -> M3 {
    exp_so3(mul(unit(axis), ang))
}
/// Exact half-turn about an axis: 2 a aᵀ - I.
pub fn half_turn(axis: V3) -> M3 {
    let a = unit(axis);
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = 2.0 * a[i] * a[j] - if i == j { 1.0 } else { 0.0 };
        }
    }
    r
}
pub fn mdiff(a: &M3, b: &M3) -> f64 {
    let mut m = 0.0f64;
    for i in 0..3 {
        for j in 0..3 {
            let d = (a[i][j] - b[i][j]).abs();
            if !(d <= m) {
                m = d;
            }
        }
    }
    m
}
pub fn vdiff(a: V3, b: V3) -> f64 {
    let d = sub(a, b);
    if d.iter().any(|x| x.is_nan()) {
        return f64::INFINITY;
    }
    norm(d)
}
/// Angle between two directions, accurate at both ends.
pub fn angle(a: V3, b: V3) -> f64 {
    let a = unit(a);
    let b = unit(b);
    2.0 * norm(sub(a, b)).atan2(norm(add(a, b)))
}
/// Angle of a rotation, accurate at both ends.
pub fn rot_angle(m: &M3) -> f64 {
    let s = 0.5 * norm([m[2][1] - m[1][2], m[0][2] - m[2][0], m[1][0] - m[0][1]]);
    let c = 0.5 * (m[0][0] + m[1][1] + m[2][2] - 1.0);
    s.atan2(c)
}
pub fn rot_dist(a: &M3, b: &M3) -> f64 {
    rot_angle(&mm(&tr(a), b))
}
pub fn orth_err(m: &M3) -> f64 {
    let e = mdiff(&mm(m, &tr(m)), &I3);
    let d = (det(m) - 1.0).abs();
    if e.is_nan() || d.is_nan() {
        f64::INFINITY
    } else {
        e.max(d)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Rigid {
    pub r: M3,
    pub t: V3,
}
impl Rigid {
    pub const ID: Rigid = Rigid { r: I3, t: [0.0; 3] };
    pub fn act(&self, p: V3) -> V3 {
        add(mv(&self.r, p), self.t)
    }
    pub fn rotate(&self, p: V3) -> V3 {
        mv(&self.r, p)
    }
    pub fn inv(&self) -> Rigid {
        let r = tr(&self.r);
        Rigid {
            r,
            t: mul(mv(&r, self.t), -1.0),
        }
    }
    /// self ∘ o
    pub fn after(&self, o: &Rigid) -> Rigid {
        Rigid {
            r: mm(&self.r, &o.r),
            t: self.act(o.t),
        }
    }
    pub fn centre(&self) -> V3 {
        self.inv().t
    }
}

/// The 24 proper rotations of the cube, exact.
pub fn cube24() -> Vec<M3> {
    let mut out = vec![];
    let perms = [
        [0, 1, 2],
        [0, 2, 1],
        [1, 0, 2],
        [1, 2, 0],
        [2, 0, 1],
        [2, 1, 0],
    ];
    for p in perms {
        for s in 0..8 {
            let mut m = [[0.0; 3]; 3];
            for i in 0..3 {
                m[i][p[i]] = if s >> i & 1 == 1 { -1.0 } else { 1.0 };
            }
            if det(&m) > 0.0 {
                out.push(m);
            }
        }
    }
    out
}
/// All 26 directions with components in {-1,0,1}.
pub fn dirs26() -> Vec<V3> {
    let mut v = vec![];
    for x in -1..=1 {
        for y in -1..=1 {
            for z in -1..=1 {
                if (x, y, z) != (0, 0, 0) {
                    v.push([x as f64, y as f64, z as f64]);
                }
            }
        }
    }
    v
}
/// A few directions without symmetry.
pub fn dirs_generic() -> Vec<V3> {
    vec![
        [0.3, -0.5, 0.81],
        [-0.92, 0.11, 0.37],
        [0.05, 0.999, -0.02],
        [0.6, 0.64, -0.48],
    ]
}
/// Lattice over [lo,hi] with n points per axis.
pub fn lattice(lo: f64, hi: f64, n: usize) -> Vec<f64> {
    (0..n)
        .map(|i| {
            if n == 1 {
                lo
            } else {
                lo + (hi - lo) * i as f64 / (n - 1) as f64
            }
        })
        .collect()
}

/// Eigenvalues (ascending) and eigenvectors (rows) of a symmetric matrix by cyclic Jacobi rotations.
pub fn jacobi<const N: usize>(m: &[[f64; N]; N]) -> ([f64; N], [[f64; N]; N]) {
    let mut a = *m;
    let mut v = [[0.0; N]; N];
    for (i, r) in v.iter_mut().enumerate() {
        r[i] = 1.0;
    }
    for _ in 0..60 {
        let mut off = 0.0;
        let mut dia = 0.0;
        for i in 0..N {
            for j in 0..N {
                if i != j {
                    off += a[i][j] * a[i][j];
                } else {
                    dia += a[i][j] * a[i][j];
                }
            }
        }
        if off <= 1e-34 * dia || off == 0.0 {
            break;
        }
        for p in 0..N {
            for q in p + 1..N {
                if a[p][q] == 0.0 {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = if th >= 0.0 { 1.0 } else { -1.0 } / (th.abs() + (th * th + 1.0).sqrt());
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..N {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..N {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
                for k in 0..N {
                    let (x, y) = (v[p][k], v[q][k]);
                    v[p][k] = c * x - s * y;
                    v[q][k] = s * x + c * y;
                }
            }
        }
    }
    let mut ix: Vec<usize> = (0..N).collect();
    ix.sort_by(|&i, &j| a[i][i].partial_cmp(&a[j][j]).unwrap());
    let mut e = [0.0; N];
    let mut w = [[0.0; N]; N];
    for (k, &i) in ix.iter().enumerate() {
        e[k] = a[i][i];
        w[k] = v[i];
    }
    (e, w)
}
/// Singular values of a 3x3 matrix, descending (absolute accuracy about 1e-8 of the largest for the small ones).
pub fn sing3(m: &M3) -> V3 {
    let (e, _) = jacobi(&mm(&tr(m), m));
    [e[2].max(0.0).sqrt(), e[1].max(0.0).sqrt(), e[0].max(0.0).sqrt()]
}
pub fn fro(m: &M3) -> f64 {
    m.iter().flatten().map(|x| x * x).sum::<f64>().sqrt()
}
/// The essential matrix of a relative pose.
pub fn essential(g: &Rigid) -> M3 {
    mm(&hat(g.t), &g.r)
}
/// Depths (λ, μ) with μ b ≈ R λ a + t in the least-squares sense, for unit a and b.
pub fn depths(g: &Rigid, a: V3, b: V3) -> Option<(f64, f64)> {
    let ra = g.rotate(a);
    let c = dot(ra, b);
    let d = 1.0 - c * c;
    if d < 1e-9 {
        return None;
    }
    let (p, q) = (-dot(ra, g.t), dot(b, g.t));
    // minimise |λ ra + t - μ b|²:  λ - μ c = p,  -λ c + μ = q
    Some(((p + c * q) / d, (q + c * p) / d))
}
