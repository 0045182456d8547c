//! Two-dimensional arrays with the part of ndarray's interface that image code needs. Every access is bounds
//! checked; shapes of operands must agree exactly (ndarray would broadcast only unit axes, which is also done here).
use std::marker::PhantomData;
use std::ops::{Index, IndexMut};

#[derive(Debug)]
pub struct ShapeError;
impl std::fmt::Display for ShapeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("incompatible shape")
    }
}
impl std::error::Error for ShapeError {}

/// Offset, extent and stride of each axis in a flat buffer.
#[derive(Clone, Copy, Debug)]
struct Lay {
    off: isize,
    dim: [usize; 2],
    st: [isize; 2],
}
impl Lay {
    fn new(dim: (usize, usize)) -> Self {
        Lay { off: 0, dim: [dim.0, dim.1], st: [dim.1 as isize, 1] }
    }
    fn at(&self, i: usize, j: usize) -> usize {
        assert!(i < self.dim[0] && j < self.dim[1], "ndarray: index out of bounds");
        (self.off + i as isize * self.st[0] + j as isize * self.st[1]) as usize
    }
    fn len(&self) -> usize {
        self.dim[0] * self.dim[1]
    }
    fn nth(&self, k: usize) -> usize {
        self.at(k / self.dim[1], k % self.dim[1])
    }
    fn slice(&self, s: Slice2) -> Lay {
        let mut l = *self;
        for (a, r) in [s.0, s.1].into_iter().enumerate() {
            let n = self.dim[a] as isize;
            let abs = |v: isize| if v < 0 { v + n } else { v };
            let lo = abs(r.start);
            let hi = r.end.map_or(n, abs);
            assert!(r.step != 0, "ndarray: slice step must not be zero");
            assert!(lo >= 0 && lo <= n, "ndarray: slice begin {} past the end of axis of length {}", r.start, n);
            assert!(hi >= 0 && hi <= n, "ndarray: slice end {:?} past the end of axis of length {}", r.end, n);
            let len = (hi - lo).max(0);
            let step = r.step.unsigned_abs();
            let m = (len as usize).div_ceil(step);
            let first = if r.step > 0 || m == 0 { lo } else { hi - 1 };
            l.off += first * self.st[a];
            l.dim[a] = m;
            l.st[a] = self.st[a] * r.step;
        }
        l
    }
}

/// One axis of a slice.
#[derive(Clone, Copy, Debug)]
pub struct Slice {
    pub start: isize,
    pub end: Option<isize>,
    pub step: isize,
}
#[derive(Clone, Copy, Debug)]
pub struct Slice2(pub Slice, pub Slice);
pub trait Ix1 {
    fn ix(self) -> isize;
}
macro_rules! ix { ($($t:ty),*) => { $(impl Ix1 for $t { fn ix(self) -> isize { self as isize } })* } }
ix!(usize, isize, i32);
impl<T: Ix1> From<std::ops::Range<T>> for Slice {
    fn from(r: std::ops::Range<T>) -> Self {
        Slice { start: r.start.ix(), end: Some(r.end.ix()), step: 1 }
    }
}
impl<T: Ix1> From<std::ops::RangeTo<T>> for Slice {
    fn from(r: std::ops::RangeTo<T>) -> Self {
        Slice { start: 0, end: Some(r.end.ix()), step: 1 }
    }
}
impl<T: Ix1> From<std::ops::RangeFrom<T>> for Slice {
    fn from(r: std::ops::RangeFrom<T>) -> Self {
        Slice { start: r.start.ix(), end: None, step: 1 }
    }
}
impl<T: Ix1> From<std::ops::RangeToInclusive<T>> for Slice {
    fn from(r: std::ops::RangeToInclusive<T>) -> Self {
        let e = r.end.ix() + 1;
        Slice { start: 0, end: if e == 0 { None } else { Some(e) }, step: 1 }
    }
}
impl<T: Ix1 + Copy> From<std::ops::RangeInclusive<T>> for Slice {
    fn from(r: std::ops::RangeInclusive<T>) -> Self {
        let e = r.end().ix() + 1;
        Slice { start: r.start().ix(), end: if e == 0 { None } else { Some(e) }, step: 1 }
    }
}
impl From<std::ops::RangeFull> for Slice {
    fn from(_: std::ops::RangeFull) -> Self {
        Slice { start: 0, end: None, step: 1 }
    }
}
impl Slice {
    pub fn step_by(mut self, s: isize) -> Self {
        self.step = s;
        self
    }
}
#[macro_export]
macro_rules! s {
    ($a:expr; $sa:expr, $b:expr; $sb:expr $(,)?) => {
        $crate::Slice2($crate::Slice::from($a).step_by($sa as isize), $crate::Slice::from($b).step_by($sb as isize))
    };
    ($a:expr, $b:expr; $sb:expr $(,)?) => {
        $crate::Slice2($crate::Slice::from($a), $crate::Slice::from($b).step_by($sb as isize))
    };
    ($a:expr; $sa:expr, $b:expr $(,)?) => {
        $crate::Slice2($crate::Slice::from($a).step_by($sa as isize), $crate::Slice::from($b))
    };
    ($a:expr, $b:expr $(,)?) => {
        $crate::Slice2($crate::Slice::from($a), $crate::Slice::from($b))
    };
}
/// Shapes are given as `(rows, columns)` or `[rows, columns]`.
pub trait Shape {
    fn pair(self) -> (usize, usize);
}
impl Shape for (usize, usize) {
    fn pair(self) -> (usize, usize) {
        self
    }
}
impl Shape for [usize; 2] {
    fn pair(self) -> (usize, usize) {
        (self[0], self[1])
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Array2<T> {
    data: Vec<T>,
    dim: (usize, usize),
}
#[derive(Debug)]
pub struct ArrayView2<'a, T> {
    data: &'a [T],
    lay: Lay,
}
impl<T> Clone for ArrayView2<'_, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for ArrayView2<'_, T> {}
pub struct ArrayViewMut2<'a, T> {
    ptr: *mut T,
    len: usize,
    lay: Lay,
    p: PhantomData<&'a mut [T]>,
}
unsafe impl<T: Send> Send for ArrayViewMut2<'_, T> {}
unsafe impl<T: Sync> Sync for ArrayViewMut2<'_, T> {}

impl<T> Array2<T> {
    pub fn from_shape_vec(s: impl Shape, v: Vec<T>) -> Result<Self, ShapeError> {
        let dim = s.pair();
        if dim.0 * dim.1 == v.len() {
            Ok(Array2 { data: v, dim })
        } else {
            Err(ShapeError)
        }
    }
    pub fn from_shape_fn(s: impl Shape, mut f: impl FnMut((usize, usize)) -> T) -> Self {
        let dim = s.pair();
        let mut data = Vec::with_capacity(dim.0 * dim.1);
        for i in 0..dim.0 {
            for j in 0..dim.1 {
                data.push(f((i, j)));
            }
        }
        Array2 { data, dim }
    }
    pub fn from_elem(s: impl Shape, v: T) -> Self
    where
        T: Clone,
    {
        let dim = s.pair();
        Array2 { data: vec![v; dim.0 * dim.1], dim }
    }
    pub fn zeros(s: impl Shape) -> Self
    where
        T: Clone + Default,
    {
        Self::from_elem(s, T::default())
    }
    pub fn default(s: impl Shape) -> Self
    where
        T: Default,
    {
        Self::from_shape_fn(s, |_| T::default())
    }
    pub fn into_raw_vec(self) -> Vec<T> {
        self.data
    }
    pub fn view(&self) -> ArrayView2<'_, T> {
        ArrayView2 { data: &self.data, lay: Lay::new(self.dim) }
    }
    pub fn view_mut(&mut self) -> ArrayViewMut2<'_, T> {
        ArrayViewMut2 { ptr: self.data.as_mut_ptr(), len: self.data.len(), lay: Lay::new(self.dim), p: PhantomData }
    }
}
impl<'a, T> ArrayView2<'a, T> {
    pub fn from_shape(s: impl Shape, data: &'a [T]) -> Result<Self, ShapeError> {
        let dim = s.pair();
        if dim.0 * dim.1 <= data.len() {
            Ok(ArrayView2 { data, lay: Lay::new(dim) })
        } else {
            Err(ShapeError)
        }
    }
    pub fn view(&self) -> ArrayView2<'_, T> {
        ArrayView2 { data: self.data, lay: self.lay }
    }
    pub fn reborrow<'b>(self) -> ArrayView2<'b, T>
    where
        'a: 'b,
    {
        ArrayView2 { data: self.data, lay: self.lay }
    }
    pub fn slice_move(self, s: Slice2) -> ArrayView2<'a, T> {
        ArrayView2 { data: self.data, lay: self.lay.slice(s) }
    }
    pub fn into_iter_(self) -> Iter<'a, T> {
        Iter { v: self, k: 0 }
    }
}
impl<'a, T> ArrayViewMut2<'a, T> {
    pub fn from_shape(s: impl Shape, data: &'a mut [T]) -> Result<Self, ShapeError> {
        let dim = s.pair();
        if dim.0 * dim.1 <= data.len() {
            Ok(ArrayViewMut2 { ptr: data.as_mut_ptr(), len: data.len(), lay: Lay::new(dim), p: PhantomData })
        } else {
            Err(ShapeError)
        }
    }
    pub fn view(&self) -> ArrayView2<'_, T> {
        // SAFETY: the buffer is borrowed for the lifetime of `self`.
        ArrayView2 { data: unsafe { std::slice::from_raw_parts(self.ptr, self.len) }, lay: self.lay }
    }
    pub fn view_mut(&mut self) -> ArrayViewMut2<'_, T> {
        ArrayViewMut2 { ptr: self.ptr, len: self.len, lay: self.lay, p: PhantomData }
    }
    pub fn slice_move(self, s: Slice2) -> ArrayViewMut2<'a, T> {
        ArrayViewMut2 { ptr: self.ptr, len: self.len, lay: self.lay.slice(s), p: PhantomData }
    }
}
macro_rules! reading {
    ($($imp:tt)*) => {
        $($imp)* {
            pub fn dim(&self) -> (usize, usize) {
                let l = self.view().lay;
                (l.dim[0], l.dim[1])
            }
            pub fn raw_dim(&self) -> (usize, usize) {
                self.dim()
            }
            pub fn shape(&self) -> [usize; 2] {
                self.view().lay.dim
            }
            pub fn nrows(&self) -> usize {
                self.dim().0
            }
            pub fn ncols(&self) -> usize {
                self.dim().1
            }
            pub fn len(&self) -> usize {
                self.view().lay.len()
            }
            pub fn is_empty(&self) -> bool {
                self.len() == 0
            }
            pub fn get(&self, ix: impl Shape) -> Option<&T> {
                let (i, j) = ix.pair();
                let v = self.view();
                if i < v.lay.dim[0] && j < v.lay.dim[1] { Some(&v.data[v.lay.at(i, j)]) } else { None }
            }
            pub fn slice(&self, s: Slice2) -> ArrayView2<'_, T> {
                let v = self.view();
                ArrayView2 { data: v.data, lay: v.lay.slice(s) }
            }
            pub fn iter(&self) -> Iter<'_, T> {
                Iter { v: self.view(), k: 0 }
            }
            pub fn indexed_iter(&self) -> impl Iterator<Item = ((usize, usize), &T)> + '_ {
                let c = self.ncols().max(1);
                self.iter().enumerate().map(move |(k, x)| ((k / c, k % c), x))
            }
            pub fn exact_chunks(&self, s: impl Shape) -> ExactChunks<'_, T> {
                let (h, w) = s.pair();
                assert!(h > 0 && w > 0, "ndarray: chunk size must be positive");
                ExactChunks { v: self.view(), size: [h, w], k: 0 }
            }
            pub fn windows(&self, s: impl Shape) -> std::vec::IntoIter<ArrayView2<'_, T>> {
                let (h, w) = s.pair();
                let v = self.view();
                let mut out = vec![];
                if h <= v.lay.dim[0] && w <= v.lay.dim[1] {
                    for i in 0..=v.lay.dim[0] - h {
                        for j in 0..=v.lay.dim[1] - w {
                            out.push(ArrayView2 { data: v.data, lay: v.lay.slice(s![i..i + h, j..j + w]) });
                        }
                    }
                }
                out.into_iter()
            }
            pub fn rows(&self) -> std::vec::IntoIter<ArrayView2<'_, T>> {
                let v = self.view();
                (0..v.lay.dim[0])
                    .map(|i| ArrayView2 { data: v.data, lay: v.lay.slice(s![i..i + 1, ..]) })
                    .collect::<Vec<_>>()
                    .into_iter()
            }
            pub fn map<U>(&self, mut f: impl FnMut(&T) -> U) -> Array2<U> {
                Array2 { data: self.iter().map(|x| f(x)).collect(), dim: self.dim() }
            }
            pub fn mapv<U>(&self, mut f: impl FnMut(T) -> U) -> Array2<U>
            where
                T: Copy,
            {
                self.map(|&x| f(x))
            }
            pub fn to_owned(&self) -> Array2<T>
            where
                T: Clone,
            {
                self.map(|x| x.clone())
            }
            pub fn fold<B>(&self, b: B, f: impl FnMut(B, &T) -> B) -> B {
                self.iter().fold(b, f)
            }
            pub fn sum(&self) -> T
            where
                T: Copy + Default + std::ops::Add<Output = T>,
            {
                self.iter().fold(T::default(), |a, &x| a + x)
            }
            pub fn for_each(&self, f: impl FnMut(&T)) {
                self.iter().for_each(f)
            }
        }
    };
}
reading!(impl<T> Array2<T>);
reading!(impl<T> ArrayView2<'_, T>);
reading!(impl<T> ArrayViewMut2<'_, T>);
macro_rules! writing {
    ($($imp:tt)*) => {
        $($imp)* {
            pub fn slice_mut(&mut self, s: Slice2) -> ArrayViewMut2<'_, T> {
                let v = self.view_mut();
                ArrayViewMut2 { lay: v.lay.slice(s), ..v }
            }
            pub fn iter_mut(&mut self) -> IterMut<'_, T> {
                IterMut { v: self.view_mut(), k: 0 }
            }
            pub fn get_mut(&mut self, ix: impl Shape) -> Option<&mut T> {
                let (i, j) = ix.pair();
                let v = self.view_mut();
                if i < v.lay.dim[0] && j < v.lay.dim[1] {
                    let k = v.lay.at(i, j);
                    assert!(k < v.len);
                    // SAFETY: in bounds of the buffer borrowed by `self`.
                    Some(unsafe { &mut *v.ptr.add(k) })
                } else {
                    None
                }
            }
            pub fn fill(&mut self, x: T)
            where
                T: Clone,
            {
                self.iter_mut().for_each(|v| *v = x.clone());
            }
            pub fn zip_mut_with<'b, U: 'b>(&mut self, o: impl Into<ArrayView2<'b, U>>, mut f: impl FnMut(&mut T, &U)) {
                let d = self.dim();
                let o = o.into().broadcast_(d);
                for (a, b) in self.iter_mut().zip(o.into_iter_()) {
                    f(a, b);
                }
            }
            pub fn assign<'b>(&mut self, o: impl Into<ArrayView2<'b, T>>)
            where
                T: Clone + 'b,
            {
                self.zip_mut_with(o, |a, b| *a = b.clone());
            }
            pub fn map_inplace(&mut self, f: impl FnMut(&mut T)) {
                self.iter_mut().for_each(f);
            }
            pub fn mapv_inplace(&mut self, mut f: impl FnMut(T) -> T)
            where
                T: Copy,
            {
                self.iter_mut().for_each(|x| *x = f(*x));
            }
        }
    };
}
writing!(impl<T> Array2<T>);
writing!(impl<T> ArrayViewMut2<'_, T>);
impl<'a, T> ArrayView2<'a, T> {
    fn broadcast_(self, d: (usize, usize)) -> Self {
        let mut v = self;
        for (a, n) in [d.0, d.1].into_iter().enumerate() {
            if v.lay.dim[a] != n {
                assert!(v.lay.dim[a] == 1, "ndarray: could not broadcast array from shape {:?} to {:?}", self.lay.dim, d);
                v.lay.dim[a] = n;
                v.lay.st[a] = 0;
            }
        }
        v
    }
}
impl<'a, T> From<&'a Array2<T>> for ArrayView2<'a, T> {
    fn from(a: &'a Array2<T>) -> Self {
        a.view()
    }
}
impl<'a, T> From<&'a ArrayView2<'_, T>> for ArrayView2<'a, T> {
    fn from(a: &'a ArrayView2<'_, T>) -> Self {
        a.view()
    }
}
impl<'a, T> From<&'a ArrayViewMut2<'_, T>> for ArrayView2<'a, T> {
    fn from(a: &'a ArrayViewMut2<'_, T>) -> Self {
        a.view()
    }
}
macro_rules! index {
    ($([$($g:tt)*] $t:ty),*) => { $(
        impl<$($g)*> Index<[usize; 2]> for $t {
            type Output = T;
            fn index(&self, [i, j]: [usize; 2]) -> &T {
                let v = self.view();
                &v.data[v.lay.at(i, j)]
            }
        }
        impl<$($g)*> Index<(usize, usize)> for $t {
            type Output = T;
            fn index(&self, (i, j): (usize, usize)) -> &T {
                let v = self.view();
                &v.data[v.lay.at(i, j)]
            }
        }
    )* };
}
index!([T] Array2<T>, ['a, T] ArrayView2<'a, T>, ['a, T] ArrayViewMut2<'a, T>);
macro_rules! index_mut {
    ($([$($g:tt)*] $t:ty),*) => { $(
        impl<$($g)*> IndexMut<[usize; 2]> for $t {
            fn index_mut(&mut self, ix: [usize; 2]) -> &mut T {
                self.get_mut(ix).expect("ndarray: index out of bounds")
            }
        }
        impl<$($g)*> IndexMut<(usize, usize)> for $t {
            fn index_mut(&mut self, ix: (usize, usize)) -> &mut T {
                self.get_mut(ix).expect("ndarray: index out of bounds")
            }
        }
    )* };
}
index_mut!([T] Array2<T>, ['a, T] ArrayViewMut2<'a, T>);

pub struct Iter<'a, T> {
    v: ArrayView2<'a, T>,
    k: usize,
}
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.k >= self.v.lay.len() {
            return None;
        }
        self.k += 1;
        Some(&self.v.data[self.v.lay.nth(self.k - 1)])
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.v.lay.len() - self.k;
        (n, Some(n))
    }
}
impl<T> ExactSizeIterator for Iter<'_, T> {}
pub struct IterMut<'a, T> {
    v: ArrayViewMut2<'a, T>,
    k: usize,
}
impl<'a, T> Iterator for IterMut<'a, T> {
    type Item = &'a mut T;
    fn next(&mut self) -> Option<&'a mut T> {
        if self.k >= self.v.lay.len() {
            return None;
        }
        let p = self.v.lay.nth(self.k);
        self.k += 1;
        assert!(p < self.v.len, "ndarray: index out of bounds");
        // SAFETY: in bounds, and each position is visited once because strides of mutable views never alias.
        Some(unsafe { &mut *self.v.ptr.add(p) })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.v.lay.len() - self.k;
        (n, Some(n))
    }
}
impl<T> ExactSizeIterator for IterMut<'_, T> {}
pub struct ExactChunks<'a, T> {
    v: ArrayView2<'a, T>,
    size: [usize; 2],
    k: usize,
}
impl<T> ExactChunks<'_, T> {
    fn grid(&self) -> (usize, usize) {
        (self.v.lay.dim[0] / self.size[0], self.v.lay.dim[1] / self.size[1])
    }
}
impl<'a, T> Iterator for ExactChunks<'a, T> {
    type Item = ArrayView2<'a, T>;
    fn next(&mut self) -> Option<ArrayView2<'a, T>> {
        let (r, c) = self.grid();
        if self.k >= r * c {
            return None;
        }
        let (i, j) = (self.k / c, self.k % c);
        self.k += 1;
        let [h, w] = self.size;
        Some(ArrayView2 { data: self.v.data, lay: self.v.lay.slice(s![i * h..(i + 1) * h, j * w..(j + 1) * w]) })
    }
}
/// Operands of `azip!` and `Zip`.
pub trait IntoNdProducer {
    type Item;
    type It: Iterator<Item = Self::Item>;
    fn shape_(&self) -> (usize, usize);
    fn produce(self) -> Self::It;
}
impl<'a, T> IntoNdProducer for &'a Array2<T> {
    type Item = &'a T;
    type It = Iter<'a, T>;
    fn shape_(&self) -> (usize, usize) {
        self.dim()
    }
    fn produce(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<'a, T> IntoNdProducer for &'a mut Array2<T> {
    type Item = &'a mut T;
    type It = IterMut<'a, T>;
    fn shape_(&self) -> (usize, usize) {
        self.dim()
    }
    fn produce(self) -> IterMut<'a, T> {
        self.iter_mut()
    }
}
impl<'a, T> IntoNdProducer for ArrayView2<'a, T> {
    type Item = &'a T;
    type It = Iter<'a, T>;
    fn shape_(&self) -> (usize, usize) {
        self.dim()
    }
    fn produce(self) -> Iter<'a, T> {
        self.into_iter_()
    }
}
impl<'a, 'b, T> IntoNdProducer for &'a ArrayView2<'b, T> {
    type Item = &'a T;
    type It = Iter<'a, T>;
    fn shape_(&self) -> (usize, usize) {
        self.dim()
    }
    fn produce(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<'a, T> IntoNdProducer for ArrayViewMut2<'a, T> {
    type Item = &'a mut T;
    type It = IterMut<'a, T>;
    fn shape_(&self) -> (usize, usize) {
        self.dim()
    }
    fn produce(self) -> IterMut<'a, T> {
        IterMut { v: self, k: 0 }
    }
}
impl<'a, 'b, T> IntoNdProducer for &'a ArrayViewMut2<'b, T> {
    type Item = &'a T;
    type It = Iter<'a, T>;
    fn shape_(&self) -> (usize, usize) {
        self.dim()
    }
    fn produce(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<'a, 'b, T> IntoNdProducer for &'a mut ArrayViewMut2<'b, T> {
    type Item = &'a mut T;
    type It = IterMut<'a, T>;
    fn shape_(&self) -> (usize, usize) {
        self.dim()
    }
    fn produce(self) -> IterMut<'a, T> {
        self.iter_mut()
    }
}
impl<'a, T> IntoNdProducer for ExactChunks<'a, T> {
    type Item = ArrayView2<'a, T>;
    type It = Self;
    fn shape_(&self) -> (usize, usize) {
        self.grid()
    }
    fn produce(self) -> Self {
        self
    }
}
impl<'a, T> IntoIterator for ArrayView2<'a, T> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.into_iter_()
    }
}
impl<'a, T> IntoIterator for ArrayViewMut2<'a, T> {
    type Item = &'a mut T;
    type IntoIter = IterMut<'a, T>;
    fn into_iter(self) -> IterMut<'a, T> {
        IterMut { v: self, k: 0 }
    }
}
impl<'a, T> IntoIterator for &'a Array2<T> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<'a, T> IntoIterator for &'a mut Array2<T> {
    type Item = &'a mut T;
    type IntoIter = IterMut<'a, T>;
    fn into_iter(self) -> IterMut<'a, T> {
        self.iter_mut()
    }
}
/// A producer that later operands must match in shape.
pub struct Zip<I> {
    shape: (usize, usize),
    it: I,
}
impl<I: Iterator> Zip<I> {
    pub fn from<P: IntoNdProducer<Item = I::Item, It = I>>(p: P) -> Self {
        Zip { shape: p.shape_(), it: p.produce() }
    }
    pub fn and<P: IntoNdProducer>(self, p: P) -> Zip<std::iter::Zip<I, P::It>> {
        assert!(self.shape == p.shape_(), "ndarray: Zip: producer dimension mismatch {:?} {:?}", self.shape, p.shape_());
        Zip { shape: self.shape, it: self.it.zip(p.produce()) }
    }
    pub fn run_(self) -> I {
        self.it
    }
}
impl<I: Iterator<Item = (A, B)>, A, B> Zip<I> {
    pub fn for_each(self, mut f: impl FnMut(A, B)) {
        self.it.for_each(|(a, b)| f(a, b))
    }
}
#[macro_export]
macro_rules! azip {
    (($($args:tt)*) => $body:expr) => {
        $crate::__azip!([] [] [$($args)*] $body)
    };
    (($($args:tt)*) $body:expr) => {
        $crate::__azip!([] [] [$($args)*] $body)
    };
}
#[doc(hidden)]
#[macro_export]
macro_rules! __azip {
    ([] [] [$p:pat in $e:expr, $($rest:tt)+] $body:expr) => {
        $crate::__azip!([$p] [$crate::Zip::from($e)] [$($rest)+] $body)
    };
    ([] [] [$p:pat in $e:expr $(,)?] $body:expr) => {
        $crate::__azip!([$p] [$crate::Zip::from($e)] [] $body)
    };
    ([$q:pat] [$z:expr] [$p:pat in $e:expr, $($rest:tt)+] $body:expr) => {
        $crate::__azip!([($q, $p)] [$z.and($e)] [$($rest)+] $body)
    };
    ([$q:pat] [$z:expr] [$p:pat in $e:expr $(,)?] $body:expr) => {
        $crate::__azip!([($q, $p)] [$z.and($e)] [] $body)
    };
    ([$q:pat] [$z:expr] [] $body:expr) => {
        for $q in $z.run_() {
            $body
        }
    };
}
