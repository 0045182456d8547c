//! The k-NN interface of the `space` crate (the part that is used) with exact linear search.
pub trait Metric<P> {
    type Unit: Copy + Ord;
    fn distance(&self, a: &P, b: &P) -> Self::Unit;
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Neighbor<Unit, Ix = usize> {
    pub index: Ix,
    pub distance: Unit,
}
pub trait Knn {
    type Ix: Copy;
    type Metric: Metric<Self::Point>;
    type Point;
    type KnnIter: IntoIterator<Item = Neighbor<<Self::Metric as Metric<Self::Point>>::Unit, Self::Ix>>;
    fn knn(&self, query: &Self::Point, num: usize) -> Self::KnnIter;
    #[allow(clippy::type_complexity)]
    fn nn(&self, query: &Self::Point) -> Option<Neighbor<<Self::Metric as Metric<Self::Point>>::Unit, Self::Ix>> {
        self.knn(query, 1).into_iter().next()
    }
}
pub trait KnnPoints: Knn {
    fn get_point(&self, index: Self::Ix) -> &Self::Point;
}
pub trait KnnMap: Knn {
    type Value;
    fn get_value(&self, index: Self::Ix) -> &Self::Value;
    #[allow(clippy::type_complexity)]
    fn knn_values<'a>(
        &'a self,
        query: &Self::Point,
        num: usize,
    ) -> Vec<(Neighbor<<Self::Metric as Metric<Self::Point>>::Unit, Self::Ix>, &'a Self::Value)> {
        self.knn(query, num).into_iter().map(|n| (n, self.get_value(n.index))).collect()
    }
}
pub trait KnnInsert: Knn {
    fn insert(&mut self, point: Self::Point) -> Self::Ix;
}
