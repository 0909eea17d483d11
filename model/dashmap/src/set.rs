use crate::iter_set::{Iter, OwningIter};
use crate::setref::one::Ref;
use crate::{DashMap, RandomState};
use std::borrow::Borrow;
use std::fmt;
use std::hash::{BuildHasher, Hash};
use std::iter::FromIterator;

pub struct DashSet<K, S = RandomState> {
    inner: DashMap<K, (), S>,
}

impl<K: Eq + Hash + fmt::Debug, S: BuildHasher + Clone> fmt::Debug for DashSet<K, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.inner, f)
    }
}
impl<K: Eq + Hash + Clone, S: Clone> Clone for DashSet<K, S> {
    fn clone(&self) -> Self {
        Self {
            inner: self.inner.clone(),
        }
    }
}
impl<K: Eq + Hash, S: Default + BuildHasher + Clone> Default for DashSet<K, S> {
    fn default() -> Self {
        Self {
            inner: DashMap::default(),
        }
    }
}
impl<'a, K: 'a + Eq + Hash> DashSet<K, RandomState> {
    pub fn new() -> Self {
        Self {
            inner: DashMap::new(),
        }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
}
impl<'a, K: 'a + Eq + Hash, S: BuildHasher + Clone> DashSet<K, S> {
    pub fn with_hasher(_: S) -> Self {
        Self {
            inner: DashMap::empty(),
        }
    }
    pub fn with_capacity_and_hasher(_: usize, _: S) -> Self {
        Self {
            inner: DashMap::empty(),
        }
    }
    pub fn insert(&self, key: K) -> bool {
        self.inner.insert(key, ()).is_none()
    }
    pub fn remove<Q>(&self, key: &Q) -> Option<K>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        self.inner.remove(key).map(|(k, _)| k)
    }
    pub fn remove_if<Q>(&self, key: &Q, f: impl FnOnce(&K) -> bool) -> Option<K>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        self.inner.remove_if(key, |k, _| f(k)).map(|(k, _)| k)
    }
    pub fn iter(&'a self) -> Iter<'a, K, S, DashMap<K, (), S>> {
        Iter::new(self.inner.iter())
    }
    pub fn get<Q>(&'a self, key: &Q) -> Option<Ref<'a, K, S>>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        self.inner.get(key).map(Ref::new)
    }
    pub fn shrink_to_fit(&self) {}
    pub fn retain(&self, mut f: impl FnMut(&K) -> bool) {
        self.inner.retain(|k, _| f(k))
    }
    pub fn len(&self) -> usize {
        self.inner.len()
    }
    pub fn is_empty(&self) -> bool {
        self.inner.is_empty()
    }
    pub fn clear(&self) {
        self.inner.clear()
    }
    pub fn capacity(&self) -> usize {
        self.inner.capacity()
    }
    pub fn contains<Q>(&self, key: &Q) -> bool
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        self.inner.contains_key(key)
    }
}
impl<K: Eq + Hash, S: BuildHasher + Clone> IntoIterator for DashSet<K, S> {
    type Item = K;
    type IntoIter = OwningIter<K, S>;
    fn into_iter(self) -> Self::IntoIter {
        OwningIter::new(self.inner.into_iter())
    }
}
impl<K: Eq + Hash, S: BuildHasher + Clone> Extend<K> for DashSet<K, S> {
    fn extend<T: IntoIterator<Item = K>>(&mut self, iter: T) {
        for k in iter {
            self.insert(k);
        }
    }
}
impl<K: Eq + Hash> FromIterator<K> for DashSet<K, RandomState> {
    fn from_iter<I: IntoIterator<Item = K>>(iter: I) -> Self {
        let mut set = DashSet::new();
        set.extend(iter);
        set
    }
}
