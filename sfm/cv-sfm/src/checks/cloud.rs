//! R02: the exported point cloud, read back by an independent parser.
use super::refm::*;
use super::store::world;
use super::world::*;
use crate::*;
use cv_core::nalgebra::Point3;
use engine::{Case, Run};

#[derive(Debug, Clone)]
pub struct Cloud {
    vertices: Vec<(V3, [u8; 3])>,
    faces: Option<Vec<Vec<usize>>>,
}

/// Reads a text PLY file with exactly the elements announced in its header.
fn parse(text: &str) -> Result<Cloud, String> {
    let mut lines = text.lines();
    let mut next = || lines.next().ok_or("the file ends early".to_string());
    if next()? != "ply" || next()? != "format ascii 1.0" {
        return Err("not a text PLY file".into());
    }
    let mut elements: Vec<(String, usize, Vec<String>)> = vec![];
    loop {
        let l = next()?;
        let t: Vec<&str> = l.split_whitespace().collect();
        match t[..] {
            ["end_header"] => break,
            ["comment", ..] => {}
            ["element", n, c] => elements.push((n.into(), c.parse().map_err(|_| l.to_string())?, vec![])),
            ["property", .., n] => {
                let kind = t[1..t.len() - 1].join(" ");
                elements.last_mut().ok_or("property without element")?.2.push(format!("{kind} {n}"));
            }
            _ => return Err(format!("header line {l}")),
        }
    }
    let mut out = Cloud { vertices: vec![], faces: None };
    for (name, count, props) in elements {
        match name.as_str() {
            "vertex" => {
                let names: Vec<String> = props.iter().map(|p| p.rsplit(' ').next().unwrap().to_string()).collect();
                for _ in 0..count {
                    let l = next()?;
                    let v: Vec<&str> = l.split_whitespace().collect();
                    if v.len() != names.len() {
                        return Err(format!("vertex {l}"));
                    }
                    let get = |n: &str| -> Result<f64, String> {
                        let i = names.iter().position(|x| x == n).ok_or(format!("no property {n}"))?;
                        v[i].parse().map_err(|_| format!("vertex {l}"))
                    };
                    let col = [get("red")?, get("green")?, get("blue")?].map(|x| x as u8);
                    out.vertices.push(([get("x")?, get("y")?, get("z")?], col));
                }
            }
            "face" => {
                let mut faces = vec![];
                for _ in 0..count {
                    let l = next()?;
                    let v: Vec<usize> = l.split_whitespace().map(|x| x.parse()).collect::<Result<_, _>>().map_err(|_| format!("face {l}"))?;
                    if v.first() != Some(&(v.len() - 1)) {
                        return Err(format!("face {l}"));
                    }
                    faces.push(v[1..].to_vec());
                }
                out.faces = Some(faces);
            }
            _ => return Err(format!("element {name}")),
        }
    }
    if let Some(l) = lines.next() {
        return Err(format!("more than announced: {l}"));
    }
    Ok(out)
}

pub struct Cam {
    centre: V3,
    up: V3,
    forward: V3,
    focal: f64,
}

fn close(a: V3, b: V3) -> bool {
    (0..3).all(|i| a[i] == b[i] || (a[i] - b[i]).abs() <= 1e-12 * (1.0 + a[i].abs().max(b[i].abs())))
}

/// The cloud has exactly the given cameras and points. `judge_focal` tells which cameras have a known size.
fn compare(cl: &Cloud, cams: &[Cam], pts: &[(V3, Vec<[u8; 3]>)], faces: bool, tol: f64, c: &mut Case) {
    c.check(cl.faces.is_some() == faces, "faces", || format!("faces {}", cl.faces.is_some()));
    c.check(cl.vertices.len() == 5 * cams.len() + pts.len(), "vertices", || format!("{} vertices for {} cameras and {} points", cl.vertices.len(), cams.len(), pts.len()));
    if cl.vertices.len() != 5 * cams.len() + pts.len() {
        return;
    }
    let near = |a: V3, b: V3| if tol == 0.0 { close(a, b) } else { vdiff(a, b) < tol };
    // Every camera's apex and corners, each vertex used once.
    let mut free = vec![true; cl.vertices.len()];
    let mut take = |v: V3, cols: &[[u8; 3]]| {
        let i = (0..free.len()).find(|&i| free[i] && near(cl.vertices[i].0, v) && cols.contains(&cl.vertices[i].1));
        if let Some(i) = i {
            free[i] = false;
        }
        i
    };
    let camera_colour = [[255, 0, 255]];
    let mut corner_sets = vec![];
    for (i, k) in cams.iter().enumerate() {
        let right = cross(k.forward, k.up);
        let apex = take(k.centre, &camera_colour);
        let corners: Vec<Option<usize>> = [(1.0, 1.0), (1.0, -1.0), (-1.0, -1.0), (-1.0, 1.0)]
            .iter()
            .map(|&(u, r)| {
                let v = add(k.centre, mul(add(k.forward, add(mul(k.up, u), mul(right, r))), k.focal));
                take(v, &camera_colour)
            })
            .collect();
        let ok = apex.is_some() && corners.iter().all(|x| x.is_some());
        c.check(ok, "camera", || format!("camera {i}: apex {apex:?}, corners {corners:?} in {cl:?}"));
        if !ok {
            return;
        }
        corner_sets.push((apex.unwrap(), corners.into_iter().map(|x| x.unwrap()).collect::<Vec<_>>()));
    }
    for (i, (p, cols)) in pts.iter().enumerate() {
        let found = take(*p, cols);
        c.check(found.is_some(), "point", || format!("point {i} at {p:?} of {cols:?} is not in {cl:?}"));
    }
    if let Some(fs) = &cl.faces {
        c.check(fs.len() == 4 * cams.len(), "face count", || format!("{} faces for {} cameras", fs.len(), cams.len()));
        let mut rest: Vec<&Vec<usize>> = fs.iter().collect();
        for (i, (apex, co)) in corner_sets.iter().enumerate() {
            // The four sides, wound the same way.
            let mut senses = vec![];
            for k in 0..4 {
                let (a, b) = (co[k], co[(k + 1) % 4]);
                let at = rest.iter().position(|f| f.len() == 3 && f.contains(apex) && f.contains(&a) && f.contains(&b));
                c.check(at.is_some(), "side", || format!("camera {i} has no side {k} in {fs:?}"));
                if let Some(at) = at {
                    let f = rest.remove(at);
                    let s = f.iter().position(|x| x == apex).unwrap();
                    senses.push(f[(s + 1) % 3] == a);
                }
            }
            c.check(senses.windows(2).all(|w| w[0] == w[1]), "winding", || format!("the sides of camera {i} are wound differently: {fs:?}"));
        }
    }
}

fn text(points: &[(V3, [u8; 3])], cams: &[Cam], faces: bool) -> String {
    let mut out: Vec<u8> = vec![];
    crate::export(
        &mut out,
        points.iter().map(|&(p, c)| (Point3::from(v3(p)), c)).collect(),
        cams.iter()
            .map(|k| ExportCamera {
                optical_center: Point3::from(v3(k.centre)),
                up_direction: v3(k.up),
                forward_direction: v3(k.forward),
                focal_length: k.focal,
            })
            .collect(),
        faces,
    );
    String::from_utf8(out).unwrap()
}

fn lists(run: &Run) {
    let values: [f64; 9] = [0.0, -0.0, 1.0, -2.5, 1e-300, 123456.789, -1e200, 0.1, 1.0 / 3.0];
    let colours = [[0, 0, 0], [255, 255, 255], [255, 0, 255], [1, 2, 3], [200, 100, 50]];
    run.grid(
        "points",
        &[("x", values.len()), ("y", values.len()), ("z", values.len()), ("colour", colours.len()), ("points", 4), ("cameras", 3), ("faces", 2)],
        |ix, c| {
            let p: Vec<(V3, [u8; 3])> = (0..ix[4])
                .map(|i| {
                    let v = |k: usize| values[(ix[k] + i * (k + 1)) % values.len()];
                    ([v(0), v(1), v(2)], colours[(ix[3] + i) % colours.len()])
                })
                .collect();
            let cams: Vec<Cam> = (0..ix[5])
                .map(|i| Cam { centre: [i as f64, 2.0, -1.0], up: [0.0, -1.0, 0.0], forward: [0.0, 0.0, 1.0], focal: 0.5 })
                .collect();
            let t = text(&p, &cams, ix[6] == 1);
            c.step();
            match parse(&t) {
                Err(e) => c.check(false, "format", || e),
                Ok(cl) => {
                    let pts: Vec<_> = p.iter().map(|x| (x.0, vec![x.1])).collect();
                    compare(&cl, &cams, &pts, ix[6] == 1, 0.0, c);
                    c.outcome(&[cl.vertices.len() as f64, p.first().map_or(0.0, |p| p.0[0])]);
                }
            }
        },
    );
    let mut turns = cube24();
    turns.extend(dirs_generic().iter().flat_map(|&a| [0.4, 1.3].map(|x| rot(a, x))));
    let sizes = [0.0, 1e-3, 1.0, 70.0];
    run.grid("cameras", &[("turn", turns.len()), ("centre", 5), ("focal", sizes.len()), ("cameras", 3), ("faces", 2)], |ix, c| {
        let cams: Vec<Cam> = (0..=ix[3])
            .map(|i| {
                let r = turns[(ix[0] + i * 7) % turns.len()];
                let s = (ix[1] + i) as f64;
                Cam { centre: [s, -0.5 * s, 3.0 * s - 2.0], up: mv(&r, [0.0, -1.0, 0.0]), forward: mv(&r, [0.0, 0.0, 1.0]), focal: sizes[(ix[2] + i) % sizes.len()] }
            })
            .collect();
        let pts = [([0.5, 0.5, 0.5], [9, 8, 7])];
        let t = text(&pts, &cams, ix[4] == 1);
        c.step();
        match parse(&t) {
            Err(e) => c.check(false, "format", || e),
            Ok(cl) => {
                compare(&cl, &cams, &[(pts[0].0, vec![pts[0].1])], ix[4] == 1, 0.0, c);
                c.outcome(&[cl.vertices[0].0[0], cl.vertices[1].0[0], cl.vertices[1].0[1]]);
            }
        }
    });
}

/// Whole reconstructions: which features are matched, how many views, what counts as robust.
fn reconstructions(run: &Run) {
    let dir = std::env::temp_dir().join(format!("vmc-r02-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let w = world(6, 3);
    let dir2 = dir.clone();
    run.grid(
        "reconstructions",
        &[("matches of the first three views", 27), ("views", 4), ("matches of further views", 8), ("observations required", 4), ("faces", 2)],
        |ix, c| {
            let settings = VSlamSettings {
                robust_minimum_observations: ix[3],
                robust_observation_incidence_minimum_cosine_distance: 1e-6,
                ..Default::default()
            };
            let mut s = w.slam(settings);
            let of = |f: usize, p: usize| w.sees[f].iter().position(|&x| x == p).unwrap();
            let (mut all, mut one, mut two) = (vec![], vec![], vec![]);
            for p in 0..3 {
                match ix[0] / 3usize.pow(p as u32) % 3 {
                    0 => all.push((of(0, p), of(1, p), of(2, p))),
                    1 => one.push([of(0, p), of(1, p)]),
                    _ => two.push([of(0, p), of(2, p)]),
                }
            }
            let rel = |a, b| CameraToCamera(iso(&w.relative(a, b)));
            let k = s.data.add_reconstruction(w.frames[0], w.frames[1], w.frames[2], rel(0, 1), rel(0, 2), all, one, two);
            for f in 3..3 + ix[1].min(3) {
                let map: HashMap<usize, ArrayVec<LandmarkKey, 2>> = (0..3)
                    .filter(|p| ix[2] >> p & 1 == 1)
                    .map(|p| (of(f, p), landmark_avec(landmark_at(&w, &s.data, k, (0, of(0, p))))))
                    .collect();
                s.data.add_view(k, w.frames[f], WorldToCamera(iso(&w.relative(0, f))), |j| map.get(&j).cloned());
            }
            let rec = extract(&w, &s.data, k).unwrap();
            let file = dir2.join(format!("{}.ply", ix.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("-")));
            s.export_reconstruction(k, &file, ix[4] == 1);
            c.step();
            let t = std::fs::read_to_string(&file).unwrap();
            let _ = std::fs::remove_file(&file);
            let robust = |l: &Vec<Obs>| l.len() >= ix[3].min(rec.views.len()).max(2);
            let base = &w.cams[0];
            let pts: Vec<(V3, Vec<[u8; 3]>)> = rec
                .lms
                .iter()
                .filter(|l| robust(l))
                .map(|l| {
                    let p = w.sees[l[0].0][l[0].1];
                    (base.act(w.pts[p]), vec![colour(p)])
                })
                .collect();
            let mut known = true;
            let cams: Vec<Cam> = rec
                .views
                .iter()
                .map(|&f| {
                    let g = w.relative(0, f).inv();
                    let d: Vec<f64> = rec.lms.iter().filter(|l| robust(l)).filter_map(|l| l.iter().find(|o| o.0 == f)).map(|o| norm(w.cams[f].act(w.pts[w.sees[f][o.1]]))).collect();
                    known &= !d.is_empty();
                    Cam { centre: g.t, up: g.rotate([0.0, -1.0, 0.0]), forward: g.rotate([0.0, 0.0, 1.0]), focal: 0.01 * d.iter().sum::<f64>() / d.len() as f64 }
                })
                .collect();
            match parse(&t) {
                Err(e) => c.check(false, "format", || e),
                Ok(cl) => {
                    c.outcome(&[cl.vertices.len() as f64, pts.len() as f64]);
                    if known {
                        compare(&cl, &cams, &pts, ix[4] == 1, 1e-8, c);
                        c.class("every camera has points");
                    } else {
                        // The size of a camera without points is not specified.
                        let n = cl.vertices.len();
                        c.check(n == 5 * cams.len() + pts.len(), "vertices", || format!("{n} vertices for {} cameras and {} points", cams.len(), pts.len()));
                        c.class("a camera without points");
                    }
                }
            }
        },
    );
    let _ = std::fs::remove_dir(&dir);
}

pub fn r02(run: &Run) {
    lists(run);
    reconstructions(run);
}
