//! Dense slot map with versioned keys: a removed entry's key never becomes valid again, iteration follows the
//! dense order, removal moves the last entry into the gap (all as in the real crate).
use std::marker::PhantomData;
use std::ops::{Index, IndexMut};
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct KeyData {
    pub idx: u32,
    pub version: u32,
}
impl Default for KeyData {
    fn default() -> Self {
        KeyData { idx: u32::MAX, version: 1 }
    }
}
impl KeyData {
    pub fn as_ffi(self) -> u64 {
        ((self.version as u64) << 32) | self.idx as u64
    }
}
pub trait Key: Copy + Default + Eq + std::hash::Hash + std::fmt::Debug + From<KeyData> {
    fn data(&self) -> KeyData;
    fn null() -> Self {
        KeyData::default().into()
    }
    fn is_null(&self) -> bool {
        self.data() == KeyData::default()
    }
}
#[doc(hidden)]
#[cfg(feature = "serde")]
pub use serde as __serde;
#[macro_export]
macro_rules! new_key_type {
    ($(#[$m:meta])* $v:vis struct $n:ident; $($rest:tt)*) => {
        $(#[$m])*
        #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
        #[repr(transparent)]
        $v struct $n($crate::KeyData);
        impl From<$crate::KeyData> for $n {
            fn from(k: $crate::KeyData) -> Self {
                $n(k)
            }
        }
        impl $crate::Key for $n {
            fn data(&self) -> $crate::KeyData {
                self.0
            }
        }
        $crate::__key_serde!($n);
        $crate::new_key_type!($($rest)*);
    };
    () => {};
}
#[cfg(not(feature = "serde"))]
#[doc(hidden)]
#[macro_export]
macro_rules! __key_serde {
    ($n:ident) => {};
}
#[cfg(feature = "serde")]
#[doc(hidden)]
#[macro_export]
macro_rules! __key_serde {
    ($n:ident) => {
        impl $crate::__serde::Serialize for $n {
            fn serialize<S: $crate::__serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                $crate::__serde::Serialize::serialize(&self.0.as_ffi().to_string(), s)
            }
        }
        impl<'de> $crate::__serde::Deserialize<'de> for $n {
            fn deserialize<D: $crate::__serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let t: String = $crate::__serde::Deserialize::deserialize(d)?;
                let x: u64 = t.parse().map_err($crate::__serde::de::Error::custom)?;
                Ok($n($crate::KeyData { idx: x as u32, version: (x >> 32) as u32 }))
            }
        }
    };
}
new_key_type! {
    pub struct DefaultKey;
}
#[derive(Clone, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
struct Slot {
    version: u32, // odd when occupied
    ix: u32,      // dense index, or next free slot
}
#[derive(Clone, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[cfg_attr(feature = "serde", serde(bound(serialize = "K: serde::Serialize, V: serde::Serialize", deserialize = "K: serde::Deserialize<'de>, V: serde::Deserialize<'de>")))]
pub struct DenseSlotMap<K: Key, V> {
    keys: Vec<K>,
    values: Vec<V>,
    slots: Vec<Slot>,
    free: u32,
    #[cfg_attr(feature = "serde", serde(skip))]
    p: PhantomData<K>,
}
impl<K: Key, V> Default for DenseSlotMap<K, V> {
    fn default() -> Self {
        DenseSlotMap { keys: vec![], values: vec![], slots: vec![Slot { version: 0, ix: 0 }], free: 1, p: PhantomData }
    }
}
impl<K: Key, V> DenseSlotMap<K, V> {
    pub fn with_key() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.keys.len()
    }
    pub fn is_empty(&self) -> bool {
        self.keys.is_empty()
    }
    fn dense(&self, k: K) -> Option<usize> {
        let d = k.data();
        self.slots.get(d.idx as usize).filter(|s| s.version == d.version && s.version % 2 == 1).map(|s| s.ix as usize)
    }
    pub fn contains_key(&self, k: K) -> bool {
        self.dense(k).is_some()
    }
    pub fn insert(&mut self, v: V) -> K {
        self.insert_with_key(|_| v)
    }
    pub fn insert_with_key(&mut self, f: impl FnOnce(K) -> V) -> K {
        let idx = self.free;
        if idx as usize >= self.slots.len() {
            self.slots.push(Slot { version: 0, ix: idx + 1 });
        }
        let ix = self.keys.len() as u32;
        let s = &mut self.slots[idx as usize];
        let version = s.version | 1;
        let k: K = KeyData { idx, version }.into();
        let v = f(k);
        let s = &mut self.slots[idx as usize];
        self.free = s.ix;
        *s = Slot { version, ix };
        self.keys.push(k);
        self.values.push(v);
        k
    }
    pub fn remove(&mut self, k: K) -> Option<V> {
        let ix = self.dense(k)?;
        let idx = k.data().idx;
        let s = &mut self.slots[idx as usize];
        *s = Slot { version: s.version.wrapping_add(1), ix: self.free };
        self.free = idx;
        self.keys.swap_remove(ix);
        let v = self.values.swap_remove(ix);
        if let Some(m) = self.keys.get(ix) {
            self.slots[m.data().idx as usize].ix = ix as u32;
        }
        Some(v)
    }
    pub fn get(&self, k: K) -> Option<&V> {
        self.dense(k).map(|i| &self.values[i])
    }
    pub fn get_mut(&mut self, k: K) -> Option<&mut V> {
        self.dense(k).map(|i| &mut self.values[i])
    }
    pub fn retain(&mut self, mut f: impl FnMut(K, &mut V) -> bool) {
        let mut i = 0;
        while i < self.keys.len() {
            let k = self.keys[i];
            if f(k, &mut self.values[i]) {
                i += 1;
            } else {
                self.remove(k);
            }
        }
    }
    pub fn clear(&mut self) {
        while let Some(&k) = self.keys.last() {
            self.remove(k);
        }
    }
    pub fn drain(&mut self) -> std::vec::IntoIter<(K, V)> {
        let mut out = vec![];
        while let Some(&k) = self.keys.last() {
            out.push((k, self.remove(k).unwrap()));
        }
        out.into_iter()
    }
    pub fn keys(&self) -> std::iter::Copied<std::slice::Iter<'_, K>> {
        self.keys.iter().copied()
    }
    pub fn values(&self) -> std::slice::Iter<'_, V> {
        self.values.iter()
    }
    pub fn values_mut(&mut self) -> std::slice::IterMut<'_, V> {
        self.values.iter_mut()
    }
    pub fn iter(&self) -> std::iter::Zip<std::iter::Copied<std::slice::Iter<'_, K>>, std::slice::Iter<'_, V>> {
        self.keys.iter().copied().zip(self.values.iter())
    }
    pub fn iter_mut(&mut self) -> std::iter::Zip<std::iter::Copied<std::slice::Iter<'_, K>>, std::slice::IterMut<'_, V>> {
        self.keys.iter().copied().zip(self.values.iter_mut())
    }
}
impl<K: Key, V> Index<K> for DenseSlotMap<K, V> {
    type Output = V;
    fn index(&self, k: K) -> &V {
        self.get(k).expect("invalid DenseSlotMap key used")
    }
}
impl<K: Key, V> IndexMut<K> for DenseSlotMap<K, V> {
    fn index_mut(&mut self, k: K) -> &mut V {
        self.get_mut(k).expect("invalid DenseSlotMap key used")
    }
}
impl<'a, K: Key, V> IntoIterator for &'a DenseSlotMap<K, V> {
    type Item = (K, &'a V);
    type IntoIter = std::iter::Zip<std::iter::Copied<std::slice::Iter<'a, K>>, std::slice::Iter<'a, V>>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, K: Key, V> IntoIterator for &'a mut DenseSlotMap<K, V> {
    type Item = (K, &'a mut V);
    type IntoIter = std::iter::Zip<std::iter::Copied<std::slice::Iter<'a, K>>, std::slice::IterMut<'a, V>>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}
pub type SlotMap<K, V> = DenseSlotMap<K, V>;
