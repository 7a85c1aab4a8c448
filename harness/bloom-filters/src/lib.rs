//! Stands in for the bloom-filters crate, which is not available offline: the part of its
//! interface that the discovery protocol uses, as an exact set. A set that never forgets and
//! never errs is what a filter approximates, so whatever holds with it is required of both.
use std::{
    collections::HashSet,
    hash::{BuildHasher, Hash, Hasher},
};

pub struct DefaultBuildHashKernels<B>(B);

impl<B> DefaultBuildHashKernels<B> {
    pub fn new(_seed: usize, b: B) -> Self {
        DefaultBuildHashKernels(b)
    }
}

pub trait BloomFilter {
    fn insert<T: Hash>(&mut self, item: &T);
    fn contains<T: Hash>(&self, item: &T) -> bool;
}

pub struct StableBloomFilter<K> {
    set: HashSet<u64>,
    kernels: K,
}

impl<K> StableBloomFilter<K> {
    pub fn new(_items: usize, _max: u8, _fp: f64, kernels: K) -> Self {
        StableBloomFilter { set: HashSet::new(), kernels }
    }
}

fn sum<B: BuildHasher, T: Hash>(b: &B, item: &T) -> u64 {
    let mut h = b.build_hasher();
    item.hash(&mut h);
    h.finish()
}

impl<B: BuildHasher> BloomFilter for StableBloomFilter<DefaultBuildHashKernels<B>> {
    fn insert<T: Hash>(&mut self, item: &T) {
        let s = sum(&self.kernels.0, item);
        self.set.insert(s);
    }
    fn contains<T: Hash>(&self, item: &T) -> bool {
        self.set.contains(&sum(&self.kernels.0, item))
    }
}
