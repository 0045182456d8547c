//! Small worlds: cameras, points, which feature of which frame observes which point; and the real system on top of them.
use super::refm::*;
use crate::*;
use cv_core::nalgebra::{IsometryMatrix3, Matrix3, Rotation3, Translation3, Unit, Vector3};
use cv_core::sample_consensus::Model;
use cv_geom::triangulation::LinearEigenTriangulator;
use rand::rngs::mock::StepRng;

/// Sample consensus that tries samples in a fixed order and keeps the model most data agree with.
pub struct Fixed {
    pub threshold: f64,
    pub samples: usize,
}
impl<E, D> Consensus<E, D> for Fixed
where
    E: Estimator<D>,
    D: Clone,
{
    type Inliers = Vec<usize>;
    fn model<I: Iterator<Item = D> + Clone>(&mut self, e: &E, data: I) -> Option<E::Model> {
        self.model_inliers(e, data).map(|x| x.0)
    }
    fn model_inliers<I: Iterator<Item = D> + Clone>(&mut self, e: &E, data: I) -> Option<(E::Model, Vec<usize>)> {
        let all: Vec<D> = data.collect();
        let k = E::MIN_SAMPLES;
        if all.len() < k {
            return None;
        }
        let mut best: Option<(E::Model, Vec<usize>)> = None;
        for s in 0..self.samples {
            // Consecutive and spread samples in turn; no element twice.
            let step = 1 + (s % 3) * (all.len() / (3 * k));
            let mut ix: Vec<usize> = (0..k).map(|i| (s + i * step) % all.len()).collect();
            ix.sort_unstable();
            ix.dedup();
            if ix.len() < k {
                continue;
            }
            for m in e.estimate(ix.iter().map(|&i| all[i].clone())) {
                let inl: Vec<usize> = (0..all.len()).filter(|&i| m.residual(&all[i]) < self.threshold).collect();
                if inl.len() > best.as_ref().map_or(k, |b| b.1.len()) {
                    best = Some((m, inl));
                }
            }
        }
        best
    }
}

pub type Slam = VSlam<Fixed, Fixed, lambda_twist::LambdaTwist, eight_point::EightPoint, LinearEigenTriangulator, StepRng>;

pub struct World {
    /// World to camera.
    pub cams: Vec<Rigid>,
    pub pts: Vec<V3>,
    /// The point each feature of each frame observes.
    pub sees: Vec<Vec<usize>>,
    pub frames: Vec<FrameKey>,
    proto: VSlamData,
}

pub fn v3(v: V3) -> Vector3<f64> {
    Vector3::new(v[0], v[1], v[2])
}
pub fn arr(v: &Vector3<f64>) -> V3 {
    [v.x, v.y, v.z]
}
pub fn iso(g: &Rigid) -> IsometryMatrix3<f64> {
    let r = Matrix3::from_fn(|i, j| g.r[i][j]);
    IsometryMatrix3::from_parts(Translation3::from(v3(g.t)), Rotation3::from_matrix_unchecked(r))
}
pub fn rigid(g: &IsometryMatrix3<f64>) -> Rigid {
    let m = g.rotation.matrix();
    Rigid { r: [0, 1, 2].map(|i| [0, 1, 2].map(|j| m[(i, j)])), t: arr(&g.translation.vector) }
}
/// How far two motions are apart.
pub fn apart(a: &Rigid, b: &Rigid) -> f64 {
    mdiff(&a.r, &b.r).max(vdiff(a.t, b.t))
}

/// Descriptors of different points differ in at least 64 bits.
pub fn descriptor(point: usize) -> BitArray<64> {
    let mut b = [0u8; 64];
    for (i, x) in b.iter_mut().enumerate() {
        // Rows of a Hadamard matrix.
        for k in 0..8 {
            *x |= ((((i * 8 + k) & (point + 1)).count_ones() & 1) as u8) << k;
        }
    }
    BitArray::new(b)
}

pub fn colour(point: usize) -> [u8; 3] {
    [point as u8, (point * 7 % 256) as u8, (255 - point % 256) as u8]
}

impl World {
    pub fn new(cams: Vec<Rigid>, pts: Vec<V3>, sees: Vec<Vec<usize>>) -> World {
        let mut proto = VSlamData::default();
        let feed = proto.feeds.insert(Feed {
            intrinsics: CameraIntrinsicsK1Distortion::new(cv_pinhole::CameraIntrinsics::identity(), 0.0),
            frames: vec![],
        });
        let mut frames = vec![];
        for (g, s) in cams.iter().zip(&sees) {
            let fs = s
                .iter()
                .enumerate()
                .map(|(i, &p)| {
                    let bearing = Unit::new_normalize(v3(g.act(pts[p])));
                    (descriptor(p), Feature { bearing, response: 1.0 - i as f32 * 1e-3, color: colour(p) })
                })
                .collect();
            frames.push(proto.add_frame(feed, fs));
        }
        World { cams, pts, sees, frames, proto }
    }
    /// The system with all frames added and no reconstruction.
    pub fn slam(&self, settings: VSlamSettings) -> Slam {
        let mut data = VSlamData {
            feeds: self.proto.feeds.clone(),
            reconstructions: Default::default(),
            frames: Default::default(),
            hasher: self.proto.hasher.clone(),
            lsh_to_frame: self.proto.lsh_to_frame.clone(),
        };
        for (i, &k) in self.frames.iter().enumerate() {
            let f = &self.proto.frames[k];
            let k2 = data.frames.insert(Frame {
                feed: f.feed,
                feed_frame: f.feed_frame,
                descriptor_features: f.descriptor_features.clone(),
                view: None,
                lsh: f.lsh,
            });
            assert!(k2 == k && f.feed_frame == i);
        }
        self.system(data, settings)
    }
    /// The system with the camera and no frame.
    pub fn empty_slam(&self, settings: VSlamSettings) -> Slam {
        let mut data = VSlamData::default();
        data.feeds.insert(Feed { frames: vec![], ..self.proto.feeds.values().next().unwrap().clone() });
        self.system(data, settings)
    }
    /// Adds the next frame, which has to be frame `i`.
    pub fn enter(&self, s: &mut Slam, i: usize) -> FrameKey {
        let f = &self.proto.frames[self.frames[i]];
        let k = s.data.frames.insert(Frame {
            feed: f.feed,
            feed_frame: f.feed_frame,
            descriptor_features: f.descriptor_features.clone(),
            view: None,
            lsh: f.lsh,
        });
        assert!(k == self.frames[i] && s.data.feeds[f.feed].frames.len() == i);
        s.data.lsh_to_frame.insert(f.lsh, k);
        s.data.feeds[f.feed].frames.push(k);
        k
    }
    fn system(&self, data: VSlamData, settings: VSlamSettings) -> Slam {
        VSlam::new(
            data,
            settings,
            Fixed { threshold: settings.single_view_consensus_threshold, samples: 60 },
            Fixed { threshold: settings.two_view_consensus_threshold, samples: 60 },
            lambda_twist::LambdaTwist::new(),
            eight_point::EightPoint::new(),
            LinearEigenTriangulator::new(),
            StepRng::new(0x1234_5678_9abc_def0, 0x9e37_79b9_7f4a_7c15),
        )
    }
    pub fn frame_ix(&self, f: FrameKey) -> usize {
        self.frames.iter().position(|&x| x == f).unwrap()
    }
    pub fn bearing(&self, f: usize, feature: usize) -> V3 {
        unit(self.cams[f].act(self.pts[self.sees[f][feature]]))
    }
    /// From camera `a` to camera `b`.
    pub fn relative(&self, a: usize, b: usize) -> Rigid {
        self.cams[b].after(&self.cams[a].inv())
    }
}

/// An observation: frame and feature.
pub type Obs = (usize, usize);

/// A reconstruction in terms of frames and features.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rec {
    /// Frames with a view, in the order of their keys.
    pub views: Vec<usize>,
    /// The partition of all observations, canonical.
    pub lms: Vec<Vec<Obs>>,
    /// The frames of the constraints, canonical; whether it is one that was given.
    pub cons: Vec<[usize; 3]>,
}

/// Reads a reconstruction and checks every consistency condition of the store on the way.
pub fn extract(w: &World, d: &VSlamData, key: ReconstructionKey) -> Result<Rec, String> {
    let r = d.reconstructions.get(key).ok_or("the reconstruction does not exist")?;
    let mut views: Vec<(ViewKey, usize)> = vec![];
    for (vk, v) in r.views.iter() {
        let f = d.frames.get(v.frame).ok_or(format!("{vk:?} has no frame"))?;
        let fi = w.frame_ix(v.frame);
        if f.view != Some((key, vk)) {
            return Err(format!("{vk:?} is of frame {fi}, whose view is {:?}", f.view));
        }
        if views.iter().any(|x| x.1 == fi) {
            return Err(format!("frame {fi} has two views"));
        }
        if v.landmarks.len() != w.sees[fi].len() {
            return Err(format!("the view of frame {fi} has {} landmarks for {} features", v.landmarks.len(), w.sees[fi].len()));
        }
        for (j, &l) in v.landmarks.iter().enumerate() {
            match r.landmarks.get(l).map(|l| l.observations.get(&vk)) {
                None => return Err(format!("feature {j} of frame {fi} has a landmark that does not exist")),
                Some(o) if o != Some(&j) => return Err(format!("feature {j} of frame {fi} has a landmark which observes {o:?} there")),
                _ => {}
            }
        }
        let p = v.pose.isometry();
        let g = rigid(&p);
        if !(orth_err(&g.r) < 1e-9 && g.t.iter().all(|x| x.is_finite())) {
            return Err(format!("the pose of frame {fi} is not a rigid motion: {g:?}"));
        }
        views.push((vk, fi));
    }
    views.sort();
    let at = |v: ViewKey| views.iter().find(|x| x.0 == v).map(|x| x.1);
    let mut lms = vec![];
    for (l, lm) in r.landmarks.iter() {
        let mut obs = vec![];
        for (&v, &j) in &lm.observations {
            let f = at(v).ok_or(format!("{l:?} is observed by a view that does not exist"))?;
            if r.views[v].landmarks.get(j) != Some(&l) {
                return Err(format!("{l:?} is observed by feature {j} of frame {f}, which belongs to {:?}", r.views[v].landmarks.get(j)));
            }
            obs.push((f, j));
        }
        if obs.is_empty() {
            return Err(format!("{l:?} has no observations"));
        }
        obs.sort_unstable();
        lms.push(obs);
    }
    lms.sort();
    let mut cons = vec![];
    for c in r.constraints.values() {
        let f = c.views.map(at);
        let [Some(a), Some(b), Some(e)] = f else {
            return Err(format!("a constraint is on a view that does not exist: {f:?}"));
        };
        if a == b || b == e || a == e {
            return Err(format!("a constraint is on one view twice: {f:?}"));
        }
        let mut t = [a, b, e];
        t.sort_unstable();
        cons.push(t);
    }
    cons.sort_unstable();
    Ok(Rec { views: views.into_iter().map(|x| x.1).collect(), lms, cons })
}

/// No frame claims a view that does not exist.
pub fn frames_ok(w: &World, d: &VSlamData) -> Result<(), String> {
    for (i, &k) in w.frames.iter().enumerate() {
        let f = d.frames.get(k).ok_or(format!("frame {i} is gone"))?;
        if let Some((r, v)) = f.view {
            let ok = d.reconstructions.get(r).and_then(|r| r.views.get(v)).is_some_and(|v| v.frame == k);
            if !ok {
                return Err(format!("frame {i} claims a view that does not exist or is another's"));
            }
        }
    }
    Ok(())
}

/// The key of the landmark with the given observation.
pub fn landmark_at(w: &World, d: &VSlamData, key: ReconstructionKey, o: Obs) -> LandmarkKey {
    let (r, v) = d.frames[w.frames[o.0]].view.unwrap();
    assert!(r == key);
    d.reconstructions[key].views[v].landmarks[o.1]
}
pub fn view_of(w: &World, d: &VSlamData, f: usize) -> Option<(ReconstructionKey, ViewKey)> {
    d.frames[w.frames[f]].view
}
