//! Running mean (zero when empty, as in the real crate).
#[derive(Debug, Clone, Default)]
pub struct Mean {
    avg: f64,
    n: u64,
}
impl Mean {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add(&mut self, x: f64) {
        self.n += 1;
        self.avg += (x - self.avg) / self.n as f64;
    }
    pub fn mean(&self) -> f64 {
        self.avg
    }
    pub fn len(&self) -> u64 {
        self.n
    }
    pub fn is_empty(&self) -> bool {
        self.n == 0
    }
    pub fn estimate(&self) -> f64 {
        self.avg
    }
}
impl FromIterator<f64> for Mean {
    fn from_iter<I: IntoIterator<Item = f64>>(i: I) -> Self {
        let mut m = Self::new();
        i.into_iter().for_each(|x| m.add(x));
        m
    }
}
impl<'a> FromIterator<&'a f64> for Mean {
    fn from_iter<I: IntoIterator<Item = &'a f64>>(i: I) -> Self {
        i.into_iter().copied().collect()
    }
}
impl Extend<f64> for Mean {
    fn extend<I: IntoIterator<Item = f64>>(&mut self, i: I) {
        i.into_iter().for_each(|x| self.add(x));
    }
}
