//! Explicit-state / bounded-exhaustive exploration engine.
//!
//! Two kinds of exploration, both complete within their stated bounds:
//!
//! * `grid`  – every point of a finite product of alphabets is executed on the real code;
//! * `bfs`   – breadth-first search over operation sequences of a transition system whose steps run
//!   the real code, with state deduplication and the action list kept as the replayable trace.
//!
//! Work is spread over threads but nothing is random; reports are ordered by position in the space.

use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub case: Vec<usize>,
    pub key: String,
    pub msg: String,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub evaluations: u64,
    pub transitions: u64,
    pub states: u64,
    pub checks: u64,
    pub depth: u64,
    pub distinct: u64,
    pub exhausted: bool,
    pub classes: BTreeMap<&'static str, u64>,
    pub dims: Vec<(String, usize)>,
    pub samples: Vec<String>,
}

pub struct Case {
    pub cur: Vec<usize>,
    family: String,
    stats: Stats,
    outcomes: HashSet<u64>,
    viols: Vec<Violation>,
    per_key: HashMap<String, usize>,
}

const OUTCOME_CAP: usize = 1 << 20;
const VIOL_PER_KEY: usize = 3;

pub fn hash64<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Case {
    fn new(family: &str) -> Self {
        Case {
            cur: vec![],
            family: family.to_string(),
            stats: Stats::default(),
            outcomes: HashSet::new(),
            viols: vec![],
            per_key: HashMap::new(),
        }
    }
    /// A case that is not reported, for preparations.
    pub fn probe() -> Self {
        Self::new("")
    }
    /// The deciding comparison. Records a violation when `ok` is false.
    #[inline]
    pub fn check(&mut self, ok: bool, key: &str, msg: impl FnOnce() -> String) {
        self.stats.checks += 1;
        if !ok {
            let n = self.per_key.entry(key.to_string()).or_insert(0);
            *n += 1;
            if *n <= VIOL_PER_KEY {
                let m = msg();
                self.viols.push(Violation {
                    family: self.family.clone(),
                    case: self.cur.clone(),
                    key: key.to_string(),
                    msg: m,
                });
            }
        }
    }
    /// Tags the behaviour class this case exercised; reported in the evidence against vacuity.
    #[inline]
    pub fn class(&mut self, c: &'static str) {
        *self.stats.classes.entry(c).or_insert(0) += 1;
    }
    /// One call of the implementation compared with the reference.
    #[inline]
    pub fn step(&mut self) {
        self.stats.transitions += 1;
    }
    #[inline]
    pub fn steps(&mut self, n: u64) {
        self.stats.transitions += n;
    }
    /// Observed (quantised) outcome; the number of different ones is reported.
    #[inline]
    pub fn outcome(&mut self, vals: &[f64]) {
        if self.outcomes.len() < OUTCOME_CAP {
            let mut h = DefaultHasher::new();
            for v in vals {
                quant(*v).hash(&mut h);
            }
            self.outcomes.insert(h.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.stats.samples.len() < 2 {
            let s = f();
            self.stats.samples.push(s);
        }
    }
}

pub fn quant(v: f64) -> i64 {
    if v.is_nan() {
        i64::MIN
    } else {
        let q = v * 1e6;
        if q.abs() < 9e18 {
            q.round() as i64
        } else {
            (v.to_bits() >> 8) as i64
        }
    }
}

pub struct Replay {
    pub family: String,
    pub case: Vec<usize>,
}

pub struct Run {
    pub id: String,
    pub tier: Tier,
    pub threads: usize,
    pub replay: Option<Replay>,
    pub fams: Mutex<Vec<(String, Stats)>>,
    pub viols: Mutex<Vec<Violation>>,
    pub start: Instant,
    hit: AtomicBool,
}

struct Slot {
    since: AtomicU64,
    cur: Mutex<Vec<usize>>,
}

const HANG_MS: u64 = 60_000;

impl Run {
    pub fn new(id: &str, tier: Tier, replay: Option<Replay>) -> Self {
        let threads = std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(4)
            .min(16);
        Run {
            id: id.to_string(),
            tier,
            threads,
            replay,
            fams: Mutex::new(vec![]),
            viols: Mutex::new(vec![]),
            start: Instant::now(),
            hit: AtomicBool::new(false),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Chooses a bound by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn replay_hit(&self) -> bool {
        self.hit.load(Ordering::SeqCst)
    }

    fn merge(&self, family: &str, cases: Vec<Case>, mut extra: Stats) {
        let mut outcomes: HashSet<u64> = HashSet::new();
        let mut viols = vec![];
        for c in cases {
            extra.evaluations += c.stats.evaluations;
            extra.transitions += c.stats.transitions;
            extra.checks += c.stats.checks;
            for (k, v) in c.stats.classes {
                *extra.classes.entry(k).or_insert(0) += v;
            }
            for s in c.stats.samples {
                if extra.samples.len() < 2 {
                    extra.samples.push(s);
                }
            }
            outcomes.extend(c.outcomes);
            viols.extend(c.viols);
        }
        extra.distinct = outcomes.len() as u64;
        viols.sort_by(|a, b| a.case.len().cmp(&b.case.len()).then(a.case.cmp(&b.case)));
        eprintln!(
            "[{}] {:<28} evals={} states={} transitions={} checks={} distinct={} viol={} t={:.1}s classes={:?}",
            self.id,
            family,
            extra.evaluations,
            extra.states,
            extra.transitions,
            extra.checks,
            extra.distinct,
            viols.len(),
            self.start.elapsed().as_secs_f64(),
            extra.classes,
        );
        self.viols.lock().unwrap().extend(viols);
        self.fams.lock().unwrap().push((family.to_string(), extra));
    }

    /// Executes `f` on every point of the product of `dims`.
    pub fn grid<F>(&self, family: &str, dims: &[(&str, usize)], f: F)
    where
        F: Fn(&[usize], &mut Case) + Sync,
    {
        let radix: Vec<usize> = dims.iter().map(|d| d.1).collect();
        if let Some(r) = &self.replay {
            if r.family == family && r.case.len() == radix.len() {
                let mut c = Case::new(family);
                c.cur = r.case.clone();
                self.guarded(&mut c, |c| f(&r.case, c));
                self.hit.store(true, Ordering::SeqCst);
                self.merge(family, vec![c], Stats::default());
            }
            return;
        }
        let total: usize = radix.iter().product();
        let next = AtomicUsize::new(0);
        let chunk = (total / (self.threads * 64)).clamp(1, 4096);
        let slots: Vec<Slot> = (0..self.threads)
            .map(|_| Slot {
                since: AtomicU64::new(0),
                cur: Mutex::new(vec![]),
            })
            .collect();
        let done = AtomicBool::new(false);
        let mut cases = vec![];
        std::thread::scope(|s| {
            let watch = s.spawn(|| self.watchdog(family, &slots, &done));
            let hs: Vec<_> = (0..self.threads)
                .map(|t| {
                    let slots = &slots;
                    let next = &next;
                    let radix = &radix;
                    let f = &f;
                    s.spawn(move || {
                        let mut c = Case::new(family);
                        loop {
                            let lo = next.fetch_add(chunk, Ordering::SeqCst);
                            if lo >= total {
                                break;
                            }
                            let hi = (lo + chunk).min(total);
                            for lin in lo..hi {
                                let mut ix = vec![0; radix.len()];
                                let mut r = lin;
                                for (k, &n) in radix.iter().enumerate().rev() {
                                    ix[k] = r % n;
                                    r /= n;
                                }
                                c.cur.clone_from(&ix);
                                slots[t].cur.lock().unwrap().clone_from(&ix);
                                slots[t].since.store(self.now_ms(), Ordering::SeqCst);
                                c.stats.evaluations += 1;
                                self.guarded(&mut c, |c| f(&ix, c));
                                slots[t].since.store(0, Ordering::SeqCst);
                            }
                        }
                        c
                    })
                })
                .collect();
            for h in hs {
                cases.push(h.join().unwrap());
            }
            done.store(true, Ordering::SeqCst);
            watch.thread().unpark();
        });
        let st = Stats {
            states: total as u64,
            exhausted: true,
            dims: dims.iter().map(|d| (d.0.to_string(), d.1)).collect(),
            ..Default::default()
        };
        self.merge(family, cases, st);
    }

    fn now_ms(&self) -> u64 {
        self.start.elapsed().as_millis() as u64 + 1
    }

    fn guarded(&self, c: &mut Case, f: impl FnOnce(&mut Case)) {
        let r = catch_unwind(AssertUnwindSafe(|| f(c)));
        if let Err(e) = r {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            c.check(false, "panic", || {
                format!("the implementation panicked: {m}")
            });
        }
    }

    fn watchdog(&self, family: &str, slots: &[Slot], done: &AtomicBool) {
        while !done.load(Ordering::SeqCst) {
            std::thread::park_timeout(std::time::Duration::from_millis(500));
            for s in slots {
                let since = s.since.load(Ordering::SeqCst);
                if since != 0 && self.now_ms() > since + HANG_MS {
                    let case = s.cur.lock().unwrap().clone();
                    let v = Violation {
                        family: family.to_string(),
                        case,
                        key: "no-termination".into(),
                        msg: format!("a single call did not return within {HANG_MS} ms"),
                    };
                    self.viols.lock().unwrap().push(v);
                    crate::report::finish(self, true);
                }
            }
        }
    }

    /// Breadth-first exploration of all operation sequences up to `depth`, deduplicated by `key`.
    pub fn bfs<T: System>(&self, family: &str, sys: &T, depth: usize, max_states: usize) {
        if let Some(r) = &self.replay {
            if r.family == family && !r.case.is_empty() {
                let mut c = Case::new(family);
                self.guarded(&mut c, |c| {
                    let mut s = sys.init()[r.case[0]].clone();
                    c.cur = vec![r.case[0]];
                    sys.inspect(&s, c);
                    for &a in &r.case[1..] {
                        c.cur.push(a);
                        match sys.step(&s, a, c) {
                            Some(n) => s = n,
                            None => break,
                        }
                        sys.inspect(&s, c);
                    }
                });
                self.hit.store(true, Ordering::SeqCst);
                self.merge(family, vec![c], Stats::default());
            }
            return;
        }
        let mut seen: HashSet<u128> = HashSet::new();
        let mut frontier: Vec<(T::S, Vec<u16>)> = vec![];
        let mut c0 = Case::new(family);
        for (i, s) in sys.init().into_iter().enumerate() {
            if seen.insert(sys.key(&s)) {
                c0.cur = vec![i];
                c0.stats.evaluations += 1;
                self.guarded(&mut c0, |c| sys.inspect(&s, c));
                frontier.push((s, vec![i as u16]));
            }
        }
        let mut cases = vec![c0];
        let mut states = frontier.len() as u64;
        let mut level = 0;
        let mut exhausted = false;
        let mut closed = false;
        let slots: Vec<Slot> = (0..self.threads)
            .map(|_| Slot {
                since: AtomicU64::new(0),
                cur: Mutex::new(vec![]),
            })
            .collect();
        while level < depth {
            if frontier.is_empty() {
                closed = true;
                break;
            }
            level += 1;
            let next = AtomicUsize::new(0);
            let done = AtomicBool::new(false);
            let mut news: Vec<Vec<(usize, u128, T::S, Vec<u16>)>> = vec![];
            std::thread::scope(|s| {
                let watch = s.spawn(|| self.watchdog(family, &slots, &done));
                let hs: Vec<_> = (0..self.threads)
                    .map(|t| {
                        let frontier = &frontier;
                        let next = &next;
                        let slots = &slots;
                        let seen = &seen;
                        s.spawn(move || {
                            let mut c = Case::new(family);
                            let mut out = vec![];
                            loop {
                                let lo = next.fetch_add(16, Ordering::SeqCst);
                                if lo >= frontier.len() {
                                    break;
                                }
                                for i in lo..(lo + 16).min(frontier.len()) {
                                    let (st, tr) = &frontier[i];
                                    for a in 0..sys.actions() {
                                        let mut tr2 = tr.clone();
                                        tr2.push(a as u16);
                                        let ix: Vec<usize> =
                                            tr2.iter().map(|&x| x as usize).collect();
                                        c.cur.clone_from(&ix);
                                        slots[t].cur.lock().unwrap().clone_from(&ix);
                                        slots[t].since.store(self.now_ms(), Ordering::SeqCst);
                                        let mut res = None;
                                        self.guarded(&mut c, |c| {
                                            res = sys.step(st, a, c);
                                            if let Some(n) = &res {
                                                c.stats.transitions += 1;
                                                let k = sys.key(n);
                                                if !seen.contains(&k) {
                                                    c.stats.evaluations += 1;
                                                    sys.inspect(n, c);
                                                }
                                            }
                                        });
                                        slots[t].since.store(0, Ordering::SeqCst);
                                        if let Some(n) = res {
                                            let k = sys.key(&n);
                                            if !seen.contains(&k) {
                                                out.push((i * 1024 + a, k, n, tr2));
                                            }
                                        }
                                    }
                                }
                            }
                            (c, out)
                        })
                    })
                    .collect();
                for h in hs {
                    let (c, o) = h.join().unwrap();
                    cases.push(c);
                    news.push(o);
                }
                done.store(true, Ordering::SeqCst);
                watch.thread().unpark();
            });
            let mut all: Vec<_> = news.into_iter().flatten().collect();
            all.sort_by_key(|x| x.0);
            let mut nf = vec![];
            for (_, k, s, t) in all {
                if seen.insert(k) {
                    nf.push((s, t));
                }
            }
            states += nf.len() as u64;
            frontier = nf;
            if level == depth {
                exhausted = true;
            }
            if states as usize > max_states {
                break;
            }
        }
        let st = Stats {
            states,
            depth: level as u64,
            exhausted: exhausted || closed,
            dims: vec![("actions".into(), sys.actions()), ("depth".into(), level)],
            ..Default::default()
        };
        self.merge(family, cases, st);
    }
}

/// A transition system whose `step` drives the implementation.
pub trait System: Sync {
    type S: Clone + Send + Sync;
    fn init(&self) -> Vec<Self::S>;
    fn actions(&self) -> usize;
    /// `None` when the action is not enabled or leaves the bounded domain.
    fn step(&self, s: &Self::S, a: usize, c: &mut Case) -> Option<Self::S>;
    /// State invariant, evaluated once per new state.
    fn inspect(&self, s: &Self::S, c: &mut Case);
    fn key(&self, s: &Self::S) -> u128;
}

pub fn key128<T: Hash>(t: &T) -> u128 {
    let a = hash64(t);
    let b = hash64(&(a, t, 0x9e3779b97f4a7c15u64));
    ((a as u128) << 64) | b as u128
}
