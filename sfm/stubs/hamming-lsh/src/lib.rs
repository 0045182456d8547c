//! Bag-of-features hash: one output bit per codeword, set when some feature is nearest to it.
use bitarray::BitArray;
#[derive(Clone, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct HammingHasher<const B: usize, const H: usize> {
    codewords: Vec<BitArray<B>>,
}
impl<const B: usize, const H: usize> HammingHasher<B, H> {
    pub fn new_with_codewords(codewords: Vec<BitArray<B>>) -> Self {
        assert_eq!(codewords.len(), H * 8, "there must be exactly 8 codewords per byte of hash");
        Self { codewords }
    }
    pub fn hash_bag<'a>(&self, features: impl IntoIterator<Item = &'a BitArray<B>>) -> BitArray<H> {
        let mut out = BitArray::zeros();
        for f in features {
            let (ix, _) = self.codewords.iter().enumerate().min_by_key(|(_, c)| c.distance(f)).unwrap();
            out.bytes_mut()[ix / 8] |= 1 << (ix % 8);
        }
        out
    }
}
