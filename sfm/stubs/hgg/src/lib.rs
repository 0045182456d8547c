//! Exact stand-in for the approximate k-NN map: linear search, nearest first, ties in insertion order.
use space::{Knn, KnnInsert, KnnMap, KnnPoints, Metric, Neighbor};
#[derive(Clone, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct HggLite<M, K, V> {
    metric: M,
    items: Vec<(K, V)>,
}
impl<M: Default, K, V> Default for HggLite<M, K, V> {
    fn default() -> Self {
        Self { metric: M::default(), items: vec![] }
    }
}
impl<M, K, V> HggLite<M, K, V> {
    pub fn new(metric: M) -> Self {
        Self { metric, items: vec![] }
    }
    pub fn insert_knn(self, _: usize) -> Self {
        self
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn get_key(&self, ix: usize) -> Option<&K> {
        self.items.get(ix).map(|x| &x.0)
    }
    pub fn get_value(&self, ix: usize) -> Option<&V> {
        self.items.get(ix).map(|x| &x.1)
    }
    pub fn get_value_mut(&mut self, ix: usize) -> Option<&mut V> {
        self.items.get_mut(ix).map(|x| &mut x.1)
    }
    pub fn insert(&mut self, k: K, v: V) -> usize {
        self.items.push((k, v));
        self.items.len() - 1
    }
}
impl<M: Metric<K>, K, V> Knn for HggLite<M, K, V> {
    type Ix = usize;
    type Metric = M;
    type Point = K;
    type KnnIter = Vec<Neighbor<M::Unit, usize>>;
    fn knn(&self, query: &K, num: usize) -> Self::KnnIter {
        let mut v: Vec<_> = self
            .items
            .iter()
            .enumerate()
            .map(|(index, (k, _))| Neighbor { index, distance: self.metric.distance(query, k) })
            .collect();
        v.sort_by_key(|n| n.distance);
        v.truncate(num);
        v
    }
}
impl<M: Metric<K>, K, V> KnnPoints for HggLite<M, K, V> {
    fn get_point(&self, index: usize) -> &K {
        &self.items[index].0
    }
}
impl<M: Metric<K>, K, V> KnnMap for HggLite<M, K, V> {
    type Value = V;
    fn get_value(&self, index: usize) -> &V {
        &self.items[index].1
    }
}
impl<M: Metric<K>, K> KnnInsert for HggLite<M, K, ()> {
    fn insert(&mut self, point: K) -> usize {
        HggLite::insert(self, point, ())
    }
}
