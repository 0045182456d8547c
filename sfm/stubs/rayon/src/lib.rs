//! Data-parallel iterators whose execution order is dictated by an explorer instead of a thread pool.
//!
//! Every place where a thread pool could run pieces in any order is a decision point. The pieces run one after the
//! other on the calling thread; results are gathered in index order, as rayon does. Closures carry rayon's own
//! `Sync + Send` bounds, so they share no mutable state and running them in any order covers running them at once.
use std::cell::RefCell;

#[derive(Default, Clone)]
struct Plan {
    choices: Vec<usize>,
    log: Vec<usize>,
}
thread_local!(static PLAN: RefCell<Plan> = RefCell::default());

/// Runs `f` with the given choices (0 beyond the end); returns the result and the arity of every decision taken.
pub fn with_schedule<R>(choices: &[usize], f: impl FnOnce() -> R) -> (R, Vec<usize>) {
    PLAN.with(|p| *p.borrow_mut() = Plan { choices: choices.to_vec(), log: vec![] });
    let r = f();
    (r, PLAN.with(|p| std::mem::take(&mut p.borrow_mut().log)))
}
fn choose(n: usize) -> usize {
    PLAN.with(|p| {
        let mut p = p.borrow_mut();
        let c = p.choices.get(p.log.len()).copied().unwrap_or(0);
        p.log.push(n);
        assert!(c < n, "rayon: schedule does not fit");
        c
    })
}
/// An order of `n` pieces: at each point any of the remaining ones can be next.
fn order(n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while left.len() > 1 {
        out.push(left.remove(choose(left.len())));
    }
    out.extend(left);
    out
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    if choose(2) == 0 {
        let x = a();
        (x, b())
    } else {
        let y = b();
        (a(), y)
    }
}
pub struct Par<T>(Vec<T>);
impl<T: Send> Par<T> {
    fn run<U: Send, F: Fn(T) -> U + Sync + Send>(self, f: F) -> Vec<U> {
        let n = self.0.len();
        let mut items: Vec<Option<T>> = self.0.into_iter().map(Some).collect();
        let mut out: Vec<Option<U>> = (0..n).map(|_| None).collect();
        for i in order(n) {
            out[i] = Some(f(items[i].take().unwrap()));
        }
        out.into_iter().map(|x| x.unwrap()).collect()
    }
    pub fn for_each<F: Fn(T) + Sync + Send>(self, f: F) {
        self.run(f);
    }
    pub fn map<U: Send, F: Fn(T) -> U + Sync + Send>(self, f: F) -> Par<U> {
        Par(self.run(f))
    }
    pub fn filter_map<U: Send, F: Fn(T) -> Option<U> + Sync + Send>(self, f: F) -> Par<U> {
        Par(self.run(f).into_iter().flatten().collect())
    }
    pub fn filter<F: Fn(&T) -> bool + Sync + Send>(self, f: F) -> Par<T> {
        self.filter_map(|x| f(&x).then_some(x))
    }
    pub fn enumerate(self) -> Par<(usize, T)> {
        Par(self.0.into_iter().enumerate().collect())
    }
    pub fn collect<C: FromIterator<T>>(self) -> C {
        self.0.into_iter().collect()
    }
    pub fn unzip<A, B, FA, FB>(self) -> (FA, FB)
    where
        T: Into<(A, B)>,
        FA: Default + Extend<A>,
        FB: Default + Extend<B>,
    {
        self.0.into_iter().map(|x| x.into()).unzip()
    }
}
pub trait IntoParallelIterator {
    type Item;
    fn into_par_iter(self) -> Par<Self::Item>;
}
impl<'a, T: Sync> IntoParallelIterator for &'a [T] {
    type Item = &'a T;
    fn into_par_iter(self) -> Par<&'a T> {
        Par(self.iter().collect())
    }
}
impl<'a, T: Send> IntoParallelIterator for &'a mut [T] {
    type Item = &'a mut T;
    fn into_par_iter(self) -> Par<&'a mut T> {
        Par(self.iter_mut().collect())
    }
}
impl<T: Send> IntoParallelIterator for Vec<T> {
    type Item = T;
    fn into_par_iter(self) -> Par<T> {
        Par(self)
    }
}
impl IntoParallelIterator for std::ops::Range<usize> {
    type Item = usize;
    fn into_par_iter(self) -> Par<usize> {
        Par(self.collect())
    }
}
pub trait ParallelSlice<T> {
    fn par_iter(&self) -> Par<&T>;
    fn par_iter_mut(&mut self) -> Par<&mut T>;
}
impl<T> ParallelSlice<T> for [T] {
    fn par_iter(&self) -> Par<&T> {
        Par(self.iter().collect())
    }
    fn par_iter_mut(&mut self) -> Par<&mut T> {
        Par(self.iter_mut().collect())
    }
}
pub mod prelude {
    pub use crate::{IntoParallelIterator, ParallelSlice};
}
