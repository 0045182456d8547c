//! R04: frames. Features from images, matches between frames, the frames worth matching with.
use super::refm::*;
use super::world::*;
use crate::*;
use cv_core::KeyPoint;
use cv_core::ImagePoint;
use engine::{Case, Run};
use image::{Rgb, RgbImage};
use std::collections::{BTreeMap, BTreeSet};

/// Descriptors on a line: the number of set bits. Distances are differences.
fn level(l: usize) -> BitArray<64> {
    let mut b = [0u8; 64];
    for i in 0..l {
        b[i / 8] |= 1 << (i % 8);
    }
    BitArray::new(b)
}

fn feature(i: usize) -> Feature {
    Feature { bearing: UnitVector3::new_normalize(v3([0.01 * i as f64, 0.02, 1.0])), response: -(i as f32), color: [i as u8, 1, 2] }
}

fn empty() -> (VSlamData, FeedKey) {
    let mut d = VSlamData::default();
    let f = feed(&mut d);
    (d, f)
}

fn feed(d: &mut VSlamData) -> FeedKey {
    d.feeds.insert(Feed { intrinsics: CameraIntrinsicsK1Distortion::new(cv_pinhole::CameraIntrinsics::identity(), 0.0), frames: vec![] })
}

/// A frame whose features have the given levels, without going through the hasher.
fn bare(feed: FeedKey, levels: &[usize]) -> Frame {
    let mut df = HggLite::new(Hamming).insert_knn(32);
    for (i, &l) in levels.iter().enumerate() {
        df.insert(level(l), feature(i));
    }
    Frame { feed, feed_frame: 0, descriptor_features: df, view: None, lsh: BitArray::zeros() }
}

/// The nearest of the others, if it is nearer than every other one by at least the margin.
fn distinct(x: usize, others: &[usize], margin: usize) -> Option<usize> {
    if others.len() < 2 {
        return None;
    }
    let d = |o: usize| others[o].abs_diff(x);
    (0..others.len()).find(|&i| (0..others.len()).all(|j| j == i || d(i) + margin <= d(j)))
}

fn matches(feed: FeedKey, a: &[usize], b: &[usize], margin: usize, c: &mut Case) {
    let (fa, fb) = (bare(feed, a), bare(feed, b));
    let mut got = symmetric_matching(&fa, &fb, margin as u32);
    c.step();
    got.sort_unstable();
    let mut want = vec![];
    if a.len() >= 2 && b.len() >= 2 {
        for i in 0..a.len() {
            if let Some(j) = distinct(a[i], b, margin) {
                if distinct(b[j], a, margin) == Some(i) {
                    want.push([i, j]);
                }
            }
        }
    }
    c.check(got == want, "matches", || format!("{a:?} and {b:?} with margin {margin}: {got:?} instead of {want:?}"));
    c.class(match want.len() {
        0 => "no match",
        l if l == a.len().min(b.len()) => "all match",
        _ => "some match",
    });
}

/// Distances between any two of these differ.
const RULER: [usize; 6] = [0, 1, 4, 10, 12, 17];

/// Frames of two feeds, some with views; what is similar to or near one of them.
#[allow(clippy::too_many_arguments)]
fn similar(feeds: usize, order: &[usize], views: &[usize], c: &mut Case) {
    let n = order.len();
    let (mut d, f0) = empty();
    let f1 = feed(&mut d);
    let recs = [0, 1].map(|_| d.reconstructions.insert(Reconstruction::default()));
    let mut frames = vec![];
    let mut of_feed = [vec![], vec![]];
    for i in 0..n {
        let w = feeds >> i & 1;
        let mut lsh = BitArray::<512>::zeros();
        for k in 0..RULER[order[i]] {
            lsh.bytes_mut()[k / 8] |= 1 << (k % 8);
        }
        let f = Frame { feed: [f0, f1][w], feed_frame: of_feed[w].len(), lsh, ..bare(f0, &[]) };
        let k = d.frames.insert(f);
        d.lsh_to_frame.insert(lsh, k);
        d.feeds[[f0, f1][w]].frames.push(k);
        of_feed[w].push(i);
        if views[i] > 0 {
            let r = recs[views[i] - 1];
            let v = d.reconstructions[r].views.insert(View { frame: k, pose: WorldToCamera::identity(), landmarks: vec![] });
            d.frames[k].view = Some((r, v));
        }
        frames.push(k);
    }
    for query in 0..n {
        for p in 0..81 {
            let p = [[0, 1, 3][p % 3], [0, 2, 3][p / 3 % 3], [0, 2, 4][p / 9 % 3], [0, 3, 5][p / 27]];
            asked(&d, &frames, &of_feed, &recs, feeds, order, views, query, p, c);
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn asked(
    d: &VSlamData,
    frames: &[FrameKey],
    of_feed: &[Vec<usize>; 2],
    recs: &[ReconstructionKey; 2],
    feeds: usize,
    order: &[usize],
    views: &[usize],
    query: usize,
    p: [usize; 4],
    c: &mut Case,
) {
    let n = order.len();
    let [num_similar, num_recent, threshold, search] = p;
    let (by_rec, free) = d.find_visually_similar_and_recent_frames(frames[query], num_similar, num_recent, threshold, search);
    c.step();
    // Reference.
    let w = feeds >> query & 1;
    let at = |i: usize| of_feed[feeds >> i & 1].iter().position(|&x| x == i).unwrap();
    let near = |i: usize, t: usize| feeds >> i & 1 == w && at(i).abs_diff(at(query)) < t;
    let recent: Vec<usize> = (0..n).filter(|&i| i != query && near(i, num_recent)).collect();
    let mut by_dist: Vec<usize> = (0..n).collect();
    by_dist.sort_by_key(|&i| RULER[order[i]].abs_diff(RULER[order[query]]));
    by_dist.truncate(search);
    let alike: Vec<usize> =
        by_dist.into_iter().filter(|&i| i != query && !recent.contains(&i) && !near(i, threshold)).take(num_similar).collect();
    let want: BTreeSet<usize> = recent.iter().chain(&alike).copied().collect();
    let ix = |k: FrameKey| frames.iter().position(|&x| x == k).unwrap();
    let mut got_free: Vec<usize> = free.iter().map(|&k| ix(k)).collect();
    got_free.sort_unstable();
    let want_free: Vec<usize> = want.iter().copied().filter(|&i| views[i] == 0).collect();
    c.check(got_free == want_free, "free frames", || format!("{got_free:?} instead of {want_free:?}"));
    let mut got: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (r, vs) in by_rec {
        let r2 = recs.iter().position(|&x| x == r).unwrap();
        let mut v: Vec<usize> = vs.iter().map(|&v| ix(d.reconstructions[r].views[v].frame)).collect();
        v.sort_unstable();
        got.insert(r2 + 1, v);
    }
    let mut exp: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for &i in &want {
        if views[i] > 0 {
            exp.entry(views[i]).or_default().push(i);
        }
    }
    c.check(got == exp, "views", || format!("{got:?} instead of {exp:?}"));
    c.class(if alike.is_empty() { "recent only" } else { "similar frames" });
}

/// Frames added to two feeds in every order.
fn added(seq: &[(usize, usize)], c: &mut Case) {
    let (mut d, f0) = empty();
    let feeds = [f0, feed(&mut d)];
    let mut keys: Vec<FrameKey> = vec![];
    for (i, &(w, n)) in seq.iter().enumerate() {
        let fs: Vec<(BitArray<64>, Feature)> = (0..n).map(|j| (descriptor(10 * n + j), feature(7 * i + j))).collect();
        let k = d.add_frame(feeds[w], fs.clone());
        c.step();
        c.check(!keys.contains(&k), "new key", || format!("frame {i} has the key of another"));
        keys.push(k);
        let f = d.frame(k);
        c.check(f.view.is_none() && f.feed == feeds[w] && f.descriptor_features.len() == n, "frame", || format!("frame {i} has {} features", f.descriptor_features.len()));
        for (j, (de, fe)) in fs.iter().enumerate() {
            let ok = f.descriptor(j) == de
                && d.descriptor(k, j) == de
                && f.bearing(j) == fe.bearing
                && d.bearing(k, j) == fe.bearing
                && f.color(j) == fe.color
                && d.color(k, j) == fe.color
                && f.feature(j).response == fe.response;
            c.check(ok, "feature", || format!("feature {j} of frame {i} changed"));
        }
        // Where the feeds are.
        for (x, &fk) in feeds.iter().enumerate() {
            let want: Vec<FrameKey> = (0..=i).filter(|&q| seq[q].0 == x).map(|q| keys[q]).collect();
            c.check(d.feed(fk).frames == want, "feed", || format!("after frame {i}, feed {x} has {:?}", d.feed(fk).frames));
        }
        c.check(d.feed(feeds[w]).frames[d.frame(k).feed_frame] == k, "number", || format!("frame {i} has number {}", d.frame(k).feed_frame));
        // A frame with the same features as an earlier one in the other feed finds it first.
        if let Some(q) = (0..i).find(|&q| seq[q].1 == n && seq[q].0 != w) {
            let others = (0..i).filter(|&o| seq[o].1 == n).count();
            let free = d.find_visually_similar_and_recent_frames(k, others, 0, 0, others + 1).1;
            c.check(free.contains(&keys[q]), "similar", || format!("frame {i} has the features of frame {q}, but finds {free:?}"));
            c.class("same features");
        }
    }
    c.class("added");
}

fn noise(x: u32, y: u32, k: u32) -> u32 {
    let mut h = x.wrapping_mul(0x9E37_79B9) ^ y.wrapping_mul(0x85EB_CA6B) ^ k.wrapping_mul(0xC2B2_AE35);
    h ^= h >> 15;
    h = h.wrapping_mul(0x2C1B_3C6D);
    h ^ (h >> 12)
}

fn picture(kind: usize, w: u32, h: u32) -> RgbImage {
    RgbImage::from_fn(w, h, |x, y| {
        let (fx, fy) = (x as f64, y as f64);
        let v = match kind {
            0 => 128.0,
            1 => {
                // Blobs of different sizes.
                let mut s: f64 = 40.0;
                for (i, &(bx, by, r)) in [(40.0, 44.0, 3.0), (88.0, 36.0, 5.0), (60.0, 88.0, 4.0), (100.0, 96.0, 2.5), (28.0, 100.0, 3.5)].iter().enumerate() {
                    s += (60.0 + 25.0 * i as f64) * (-((fx - bx) * (fx - bx) + (fy - by) * (fy - by)) / (2.0 * r * r)).exp();
                }
                s
            }
            2 => 60.0 + 100.0 * (((x / 16) + (y / 16)) % 2) as f64 + (x % 16) as f64 * 3.0,
            _ => 20.0 + (noise(x / 9, y / 9, kind as u32) % 200) as f64,
        };
        let b = v.clamp(0.0, 255.0) as u8;
        Rgb([b, 255 - b / 2, (b / 3).wrapping_add((x + y) as u8)])
    })
}

fn slam_with(settings: VSlamSettings) -> Slam {
    World::new(vec![Rigid::ID], vec![[0.0, 0.0, 5.0]], vec![vec![0]]).slam(settings)
}

/// Features of a picture against the detector, the camera model and the picture.
fn extracted(kind: usize, limit: usize, camera: usize, threshold: f64, c: &mut Case) {
    let img = picture(kind, 128, 128);
    let dynamic = DynamicImage::ImageRgb8(img.clone());
    let s = slam_with(VSlamSettings { tracking_features: limit, akaze_threshold: threshold, ..Default::default() });
    let base = cv_pinhole::CameraIntrinsics::identity()
        .focals(cv_core::nalgebra::Vector2::new(160.0, 150.0))
        .principal_point(cv_core::nalgebra::Point2::new(63.0, 66.0));
    let cam = CameraIntrinsicsK1Distortion::new(base, [0.0, -0.2][camera]);
    let got = s.kps_descriptors(&cam, &dynamic);
    c.step();
    let (kps, des) = akaze::Akaze { maximum_features: limit, ..akaze::Akaze::new(threshold) }.extract(&dynamic);
    c.check(got.len() == kps.len() && got.len() <= limit, "count", || format!("{} features of {} keypoints, at most {limit}", got.len(), kps.len()));
    c.check(got.windows(2).all(|w| w[0].1.response >= w[1].1.response), "order", || "the features are not ordered by response".into());
    let mut free: Vec<bool> = vec![true; kps.len()];
    for (d, f) in &got {
        let hit = (0..kps.len()).find(|&i| {
            let k: &akaze::KeyPoint = &kps[i];
            free[i] && k.response == f.response && des[i] == *d && (cam.calibrate(*k).dot(&f.bearing) - 1.0).abs() < 1e-12
        });
        c.check(hit.is_some(), "feature", || format!("no keypoint has response {}, this descriptor and bearing", f.response));
        let Some(i) = hit else { continue };
        free[i] = false;
        let q = kps[i].image_point();
        let want = cubic(&img, q.x, q.y);
        let ok = (0..3).all(|ch| (want[ch] - f.color[ch] as f64).abs() < 3.5);
        c.check(ok, "colour", || format!("the colour at {q:?} is {:?} instead of {want:?}", f.color));
    }
    c.class(match got.len() {
        0 => "no features",
        n if n == limit => "as many as allowed",
        n if n >= 10 => "ten or more features",
        _ => "some features",
    });
}

/// Cubic convolution. Black where its support leaves the picture.
fn cubic(img: &RgbImage, x: f64, y: f64) -> [f64; 3] {
    let k = |t: f64| {
        let t = t.abs();
        if t < 1.0 {
            1.5 * t * t * t - 2.5 * t * t + 1.0
        } else if t < 2.0 {
            -0.5 * t * t * t + 2.5 * t * t - 4.0 * t + 2.0
        } else {
            0.0
        }
    };
    let (bx, by) = (x.floor() as i64 - 1, y.floor() as i64 - 1);
    if bx < 0 || by < 0 || bx + 4 >= img.width() as i64 || by + 4 >= img.height() as i64 {
        return [0.0; 3];
    }
    let mut rows = [[0.0; 3]; 4];
    for j in 0..4 {
        for i in 0..4 {
            let p = img.get_pixel((bx + i) as u32, (by + j) as u32);
            for ch in 0..3 {
                rows[j as usize][ch] += k(x - (bx + i) as f64) * p[ch] as f64;
            }
        }
    }
    let mut out = [0.0; 3];
    for j in 0..4 {
        for ch in 0..3 {
            out[ch] += k(y - (by + j) as f64) * rows[j as usize][ch].clamp(0.0, 255.0);
        }
    }
    out.map(|v| v.clamp(0.0, 255.0))
}

/// Every settings field: what is missing is the default, what is given is kept.
fn settings_field(i: usize, c: &mut Case) {
    let whole = serde_json::to_value(VSlamSettings::default()).unwrap();
    let o = whole.as_object().unwrap();
    let Some((name, v)) = o.iter().nth(i) else { return };
    let other = match v.as_u64() {
        Some(n) => serde_json::json!(n + 3),
        None => serde_json::json!(v.as_f64().unwrap() * 0.5 + 0.125),
    };
    let back = |v: serde_json::Value| serde_json::from_value::<VSlamSettings>(v).map(|s| serde_json::to_value(s).unwrap()).map_err(|e| e.to_string());
    let mut without = o.clone();
    without.remove(name);
    let got = back(without.into());
    c.check(got.as_ref() == Ok(&whole), "missing", || format!("without {name}: {got:?}"));
    let got = back(serde_json::json!({ (name.clone()): other.clone() }));
    let mut want = o.clone();
    want.insert(name.clone(), other);
    let want = serde_json::Value::from(want);
    c.check(got.as_ref() == Ok(&want), "given", || format!("with {name}: {got:?}"));
    c.step();
    c.class("field");
}

fn decode(mut i: usize, base: usize) -> Vec<usize> {
    // All sequences in order of length.
    let mut n = 0;
    let mut count = 1;
    while i >= count {
        i -= count;
        n += 1;
        count *= base;
    }
    (0..n)
        .map(|_| {
            let d = i % base;
            i /= base;
            d
        })
        .collect()
}

pub fn r04(run: &Run) {
    let (_, f) = empty();
    let levels = [0, 30, 50, 60, 400];
    let short = run.pick(156, 781);
    run.grid("matches", &[("a", short), ("b", 156), ("margin", 5)], |x, c| {
        let lv = |i: usize| decode(i, 5).iter().map(|&l| levels[l]).collect::<Vec<_>>();
        matches(f, &lv(x[0]), &lv(x[1]), [1, 10, 20, 21, 31][x[2]], c);
    });
    let orders: Vec<Vec<usize>> = vec![vec![0, 1, 2, 3, 4], vec![2, 4, 0, 3, 1], vec![5, 0, 3, 1, 4]];
    run.grid(
        "similar frames",
        &[("feeds", 32), ("order", 3), ("views", 243)],
        |x, c| {
            let mut v = x[2];
            let views: Vec<usize> = (0..5)
                .map(|_| {
                    let d = v % 3;
                    v /= 3;
                    d
                })
                .collect();
            if !run.thorough() && x[2] % 3 != (x[0] + x[1]) % 3 {
                return;
            }
            similar(x[0], &orders[x[1]], &views, c);
        },
    );
    run.grid("added", &[("first", 4), ("second", 4), ("third", 4), ("fourth", run.pick(1, 4))], |x, c| {
        let kinds = [(0, 0), (0, 3), (1, 3), (1, 2)];
        added(&x.iter().map(|&k| kinds[k]).collect::<Vec<_>>(), c);
    });
    run.grid("features of pictures", &[("picture", run.pick(4, 7)), ("limit", 5), ("camera", 2), ("threshold", 3)], |x, c| {
        extracted(x[0], [0, 1, 5, 20, 1 << 20][x[1]], x[2], [1e-3, 1e-4, 1e-6][x[3]], c);
    });
    // One white pixel on black, and smooth pictures.
    run.grid("interpolation", &[("pixel x", 7), ("pixel y", 7), ("x", 29), ("y", 29)], |x, c| {
        let img = RgbImage::from_fn(7, 7, |i, j| {
            let lit = i == x[0] as u32 && j == x[1] as u32;
            Rgb([if lit { 250 } else { 0 }, if lit { 20 } else { 180 }, (10 + 30 * i + 2 * j + j * j) as u8])
        });
        let (px, py) = (x[2] as f32 * 0.25, x[3] as f32 * 0.25);
        let Rgb(got) = bicubic::interpolate_bicubic(&img, px, py, Rgb([0, 0, 0]));
        c.step();
        let want = cubic(&img, px as f64, py as f64);
        c.check((0..3).all(|i| (want[i] - got[i] as f64).abs() < 3.0), "colour", || format!("({px}, {py}): {got:?} instead of {want:?}"));
        if px.fract() == 0.0 && py.fract() == 0.0 && want[2] > 0.0 {
            let p = img.get_pixel(px as u32, py as u32).0;
            c.check(got == p, "at a pixel", || format!("({px}, {py}): {got:?} instead of {p:?}"));
            c.class("at a pixel");
        }
        c.class(if want == [0.0; 3] { "border" } else { "inside" });
    });
    run.grid("settings", &[("field", 64)], |x, c| settings_field(x[0], c));
    let words = codewords::codewords();
    run.grid("codewords", &[("word", words.len())], |x, c| {
        let near = (0..words.len()).filter(|&i| i != x[0]).map(|i| words[i].distance(&words[x[0]])).min();
        c.step();
        c.check(words.len() == 512 * 8 && near > Some(0), "distinct", || format!("{} words, the nearest is at {near:?}", words.len()));
        c.outcome(&[near.unwrap() as f64]);
    });
}
