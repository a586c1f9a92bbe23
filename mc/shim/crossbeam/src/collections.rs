//! `std::collections` with the iteration order of hash maps and sets under the explorer's control.

pub use ::std::collections::*;

use ::std::borrow::Borrow;
use ::std::hash::{BuildHasher, Hash, Hasher};
use ::std::ops::{Deref, DerefMut, Index};

/// Builds hashers whose low bits (the bucket order) are a permutation chosen by the execution's seed.
#[derive(Clone, Copy, Debug)]
pub struct OrderedState(u32);

impl OrderedState {
    pub fn new() -> Self {
        Self(crate::mc::hash_seed())
    }
}
impl Default for OrderedState {
    fn default() -> Self {
        Self::new()
    }
}
impl BuildHasher for OrderedState {
    type Hasher = OrderedHasher;
    fn build_hasher(&self) -> OrderedHasher {
        OrderedHasher { seed: self.0, acc: 0, n: 0 }
    }
}

pub struct OrderedHasher {
    seed: u32,
    acc: u64,
    n: u32,
}

impl OrderedHasher {
    fn add(&mut self, v: u64) {
        if self.n == 0 {
            self.acc = v;
        } else {
            self.acc = self.acc.wrapping_mul(31).wrapping_add(v);
        }
        self.n += 1;
    }
}

/// The permutation of 0..4 with index `k` (0..24).
pub fn permutation(mut k: u32) -> [u64; 4] {
    let mut left = [0u64, 1, 2, 3];
    let mut out = [0; 4];
    let mut f = 6;
    for (i, o) in out.iter_mut().enumerate() {
        let q = (k / f) as usize;
        k %= f;
        *o = left[q];
        left.copy_within(q + 1.., q);
        if i < 3 {
            f /= (3 - i as u32).max(1);
        }
    }
    out
}

impl Hasher for OrderedHasher {
    fn finish(&self) -> u64 {
        let v = self.acc;
        match self.seed {
            0 => v,
            1 => !v,
            s => {
                // one of the 24 permutations of the low two bits, with the rest ascending or descending
                let s = s - 2;
                let p = permutation(s % 24);
                let hi = if (s / 24) % 2 == 0 { v >> 2 } else { !v >> 2 };
                (hi << 2) | p[(v & 3) as usize]
            }
        }
    }
    fn write(&mut self, bytes: &[u8]) {
        let mut h = 0xcbf29ce484222325u64;
        for b in bytes {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        self.add(h);
    }
    fn write_u8(&mut self, i: u8) {
        // the terminator of a string
        if i != 0xff || self.n == 0 {
            self.add(i as u64)
        }
    }
    fn write_u32(&mut self, i: u32) {
        self.add(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.add(i)
    }
    fn write_usize(&mut self, i: usize) {
        self.add(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.add(i as u64)
    }
    fn write_i32(&mut self, i: i32) {
        self.add(i as u64)
    }
    fn write_i64(&mut self, i: i64) {
        self.add(i as u64)
    }
}

#[derive(Clone)]
pub struct HashMap<K, V, S = OrderedState>(::std::collections::HashMap<K, V, S>);

impl<K, V> HashMap<K, V, OrderedState> {
    pub fn new() -> Self {
        Self(::std::collections::HashMap::with_hasher(OrderedState::new()))
    }
    pub fn with_capacity(n: usize) -> Self {
        Self(::std::collections::HashMap::with_capacity_and_hasher(n, OrderedState::new()))
    }
}
impl<K, V, S> HashMap<K, V, S> {
    pub fn with_hasher(s: S) -> Self {
        Self(::std::collections::HashMap::with_hasher(s))
    }
    pub fn with_capacity_and_hasher(n: usize, s: S) -> Self {
        Self(::std::collections::HashMap::with_capacity_and_hasher(n, s))
    }
    pub fn into_keys(self) -> hash_map::IntoKeys<K, V> {
        self.0.into_keys()
    }
    pub fn into_values(self) -> hash_map::IntoValues<K, V> {
        self.0.into_values()
    }
}
impl<K, V, S> Deref for HashMap<K, V, S> {
    type Target = ::std::collections::HashMap<K, V, S>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<K, V, S> DerefMut for HashMap<K, V, S> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<K, V, S: Default> Default for HashMap<K, V, S> {
    fn default() -> Self {
        Self(::std::collections::HashMap::with_hasher(S::default()))
    }
}
impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, OrderedState> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = hash_map::IntoIter<K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = hash_map::Iter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = hash_map::IterMut<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter_mut()
    }
}
impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V, S: BuildHasher> Index<&Q> for HashMap<K, V, S> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        &self.0[k]
    }
}
impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K: ::std::fmt::Debug, V: ::std::fmt::Debug, S> ::std::fmt::Debug for HashMap<K, V, S> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.debug_map().entries(self.0.iter()).finish()
    }
}

#[derive(Clone)]
pub struct HashSet<T, S = OrderedState>(::std::collections::HashSet<T, S>);

impl<T> HashSet<T, OrderedState> {
    pub fn new() -> Self {
        Self(::std::collections::HashSet::with_hasher(OrderedState::new()))
    }
    pub fn with_capacity(n: usize) -> Self {
        Self(::std::collections::HashSet::with_capacity_and_hasher(n, OrderedState::new()))
    }
}
impl<T, S> HashSet<T, S> {
    pub fn with_hasher(s: S) -> Self {
        Self(::std::collections::HashSet::with_hasher(s))
    }
}
impl<T, S> Deref for HashSet<T, S> {
    type Target = ::std::collections::HashSet<T, S>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<T, S> DerefMut for HashSet<T, S> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<T, S: Default> Default for HashSet<T, S> {
    fn default() -> Self {
        Self(::std::collections::HashSet::with_hasher(S::default()))
    }
}
impl<T: Eq + Hash, S: BuildHasher + Default> FromIterator<T> for HashSet<T, S> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, OrderedState> {
    fn from(a: [T; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<T, S> IntoIterator for HashSet<T, S> {
    type Item = T;
    type IntoIter = hash_set::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
    type Item = &'a T;
    type IntoIter = hash_set::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
