//! C01: homogeneous points.
use crate::engine::*;
use crate::na::*;
use crate::refm::*;
use cv_core::nalgebra::Point3;
use cv_core::*;

fn check_point<P: Projective>(v: [f64; 4], kind: &str, c: &mut Case) {
    let x = [v[0], v[1], v[2]];
    let n = norm(x);
    let flip = if v[3] < 0.0 { -1.0 } else { 1.0 };
    let dir = mul(unit(x), flip);
    let w = (v[3] * flip) / n;
    let p = P::from_homogeneous(h4(v));
    c.step();
    let h = a4(p.homogeneous());
    let tag = |s: &str| format!("{kind}-{s}");
    c.check(h.iter().all(|q| q.is_finite()), &tag("finite"), || {
        format!("from_homogeneous({v:?}) = {h:?}")
    });
    let hx = [h[0], h[1], h[2]];
    c.check((norm(hx) - 1.0).abs() < 1e-12, &tag("unit"), || {
        format!("from_homogeneous({v:?}) has |xyz| = {}", norm(hx))
    });
    c.check(h[3] >= 0.0, &tag("w-sign"), || {
        format!("from_homogeneous({v:?}) has negative w {}", h[3])
    });
    c.check(vdiff(hx, dir) < 1e-12, &tag("direction"), || {
        format!("from_homogeneous({v:?}) points along {hx:?}, expected {dir:?}")
    });
    c.check((h[3] - w).abs() <= 1e-12 * w, &tag("w"), || {
        format!("from_homogeneous({v:?}) has w {} expected {w}", h[3])
    });
    let b = au(&p.bearing());
    c.check(vdiff(b, dir) < 1e-12, &tag("bearing"), || {
        format!("bearing of {v:?} is {b:?}, expected {dir:?}")
    });
    // euclidean view
    let e = p.point();
    if h[3] == 0.0 && w == 0.0 {
        c.class("infinity");
        c.check(e.is_none(), &tag("inf-none"), || {
            format!("a point at infinity {v:?} has a euclidean position {e:?}")
        });
    } else if 1.0 / w > 1e300 {
        c.class("overflowing");
        // A position that does not fit must be refused, never reported as infinite.
        if let Some(e) = e {
            c.check(
                e.coords.iter().all(|q| q.is_finite()),
                &tag("overflow"),
                || format!("{v:?} (w = {w:e}) has the non-finite euclidean position {e:?}"),
            );
        }
    } else {
        c.class("finite");
        match e {
            None => c.check(false, &tag("some"), || {
                format!("{v:?} has no euclidean position")
            }),
            Some(e) => {
                let want = mul(dir, 1.0 / w);
                let got = [e.x, e.y, e.z];
                c.check(vdiff(got, want) <= 1e-12 / w, &tag("position"), || {
                    format!("{v:?} is at {got:?}, expected {want:?}")
                });
                c.outcome(&got);
                // and back again
                let q = P::from_point(Point3::new(e.x, e.y, e.z));
                c.step();
                let hq = a4(q.homogeneous());
                c.check(
                    (0..3).all(|i| (hq[i] - h[i]).abs() < 1e-12)
                        && (hq[3] - h[3]).abs() <= 1e-12 * h[3],
                    &tag("from-point"),
                    || format!("{v:?}: from_point(point()) = {hq:?} instead of {h:?}"),
                );
            }
        }
    }
    c.outcome(&h);
    // idempotence and pass-through of already normalised coordinates
    let again = a4(P::from_homogeneous(h4(h)).homogeneous());
    c.step();
    c.check(
        (0..4).all(|i| (again[i] - h[i]).abs() <= 4e-16 * h[i].abs().max(1e-300)),
        &tag("idempotent"),
        || format!("renormalising {h:?} gives {again:?}"),
    );
    let raw = a4(P::from_homogeneous_unchecked(h4(h)).homogeneous());
    c.check(raw == h, &tag("unchecked"), || {
        format!("from_homogeneous_unchecked({h:?}) stores {raw:?}")
    });
    if c.cur.iter().sum::<usize>() > 0 {
        c.sample(|| format!("{kind}: homogeneous {v:?} -> {h:?}"));
    }
}

pub fn c01(run: &Run) {
    let comp: Vec<f64> = if run.thorough() {
        vec![
            0.0, 1e-12, -1e-12, 1e-9, -1e-9, 1e-3, -1e-3, 0.3, -0.3, 1.0, -1.0, 2.0, -7.0, 150.0,
            -1e3, 1e6, -1e6, 1e9,
        ]
    } else {
        vec![0.0, 1e-9, -1e-9, 0.3, -0.3, 1.0, -1.0, 7.0, -7.0, 1e6, -1e6]
    };
    let ws = [
        0.0, 1e-15, -1e-15, 1e-9, -1e-9, 1e-3, -1e-3, 0.5, -0.5, 1.0, -1.0, 3.0, -3.0, 1e6, -1e6,
        1e12, -1e12,
    ];
    let scales = [1.0, -1.0, 2.5, -1e-60, 1e-60, 1e60, -1e60];
    let n = comp.len();
    run.grid(
        "homogeneous",
        &[
            ("x", n),
            ("y", n),
            ("z", n),
            ("w", ws.len()),
            ("scale", scales.len()),
            ("kind", 2),
        ],
        |ix, c| {
            let k: f64 = scales[ix[4]];
            // a zero weight keeps the sign of zero positive
            let w = if ws[ix[3]] == 0.0 { 0.0 } else { ws[ix[3]] * k };
            let k3 = if ws[ix[3]] == 0.0 { k.abs() } else { k };
            let v = [comp[ix[0]] * k3, comp[ix[1]] * k3, comp[ix[2]] * k3, w];
            if v[0] == 0.0 && v[1] == 0.0 && v[2] == 0.0 {
                c.class("origin-skipped");
                return;
            }
            if ix[5] == 0 {
                check_point::<CameraPoint>(v, "camera", c)
            } else {
                check_point::<WorldPoint>(v, "world", c)
            }
        },
    );
    // Weights close to the smallest representable: the euclidean position may not be representable.
    let tiny = [5e-324, 1e-320, 1e-310, 3e-309, 1e-308, 1e-300, 1e-250];
    let dirs = dirs26();
    run.grid(
        "near-infinity",
        &[("dir", dirs.len()), ("w", tiny.len()), ("sign", 2), ("kind", 2)],
        |ix, c| {
            let s = if ix[2] == 0 { 1.0 } else { -1.0 };
            let d = mul(dirs[ix[0]], s);
            let v = [d[0], d[1], d[2], tiny[ix[1]] * s];
            let chk = |e: Option<Point3<f64>>, c: &mut Case| {
                c.step();
                c.class(if e.is_some() { "some" } else { "none" });
                if let Some(p) = e {
                    c.check(p.coords.iter().all(|q| q.is_finite()), "overflow", || {
                        format!("the homogeneous point {v:?} has the non-finite euclidean position {p:?}")
                    });
                }
                c.outcome(&[e.map(|p| p.x).unwrap_or(0.5)]);
            };
            if ix[3] == 0 {
                chk(CameraPoint::from_homogeneous(h4(v)).point(), c)
            } else {
                chk(WorldPoint::from_homogeneous(h4(v)).point(), c)
            }
        },
    );
}
