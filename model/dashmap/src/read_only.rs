use crate::{DashMap, RandomState};
use std::borrow::Borrow;
use std::hash::Hash;

pub struct ReadOnlyView<K, V, S = RandomState> {
    map: DashMap<K, V, S>,
}
impl<K, V, S> ReadOnlyView<K, V, S> {
    pub(crate) fn new(map: DashMap<K, V, S>) -> Self {
        Self { map }
    }
    pub fn into_inner(self) -> DashMap<K, V, S> {
        self.map
    }
    pub fn len(&self) -> usize {
        self.map.count()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn contains_key<Q>(&self, key: &Q) -> bool
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        self.map.find(key).is_some()
    }
    pub fn get<Q>(&self, key: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        self.map.find(key).map(|i| &self.map.at(i).1)
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> + '_ {
        self.map
            .slots()
            .iter()
            .filter_map(|s| s.as_deref().map(|e| (&e.0, &e.1)))
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> + '_ {
        self.iter().map(|(k, _)| k)
    }
    pub fn values(&self) -> impl Iterator<Item = &V> + '_ {
        self.iter().map(|(_, v)| v)
    }
}
