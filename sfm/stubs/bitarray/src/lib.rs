//! Fixed-size bit arrays of `B` bytes and their Hamming distance.
use std::ops::{Deref, DerefMut};
#[repr(align(64))]
#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct BitArray<const B: usize> {
    bytes: [u8; B],
}
impl<const B: usize> BitArray<B> {
    // Not inlined: rust-cv spells out 4096 of these in one function, which takes the optimiser minutes otherwise.
    #[inline(never)]
    pub fn new(bytes: [u8; B]) -> Self {
        Self { bytes }
    }
    pub fn zeros() -> Self {
        Self { bytes: [0; B] }
    }
    pub fn bytes(&self) -> &[u8; B] {
        &self.bytes
    }
    pub fn bytes_mut(&mut self) -> &mut [u8; B] {
        &mut self.bytes
    }
    pub fn weight(&self) -> u32 {
        self.bytes.iter().map(|b| b.count_ones()).sum()
    }
    pub fn distance(&self, other: &Self) -> u32 {
        self.bytes.iter().zip(&other.bytes).map(|(a, b)| (a ^ b).count_ones()).sum()
    }
}
impl<const B: usize> Deref for BitArray<B> {
    type Target = [u8; B];
    fn deref(&self) -> &[u8; B] {
        &self.bytes
    }
}
impl<const B: usize> DerefMut for BitArray<B> {
    fn deref_mut(&mut self) -> &mut [u8; B] {
        &mut self.bytes
    }
}
impl<const B: usize> std::fmt::Debug for BitArray<B> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for b in &self.bytes {
            write!(f, "{b:02x}")?;
        }
        Ok(())
    }
}
#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Hamming;
impl<const B: usize> space::Metric<BitArray<B>> for Hamming {
    type Unit = u32;
    fn distance(&self, a: &BitArray<B>, b: &BitArray<B>) -> u32 {
        a.distance(b)
    }
}
#[cfg(feature = "serde")]
mod ser {
    use super::BitArray;
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    impl<const B: usize> Serialize for BitArray<B> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            self.bytes.to_vec().serialize(s)
        }
    }
    impl<'de, const B: usize> Deserialize<'de> for BitArray<B> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let v = Vec::<u8>::deserialize(d)?;
            Ok(BitArray::new(v.try_into().map_err(|_| serde::de::Error::custom("length"))?))
        }
    }
}
