use crate::mapref::multiple::{RefMulti, RefMutMulti};
use crate::{model, DashMap, RandomState};
use std::hash::{BuildHasher, Hash};
use std::marker::PhantomData;

fn index(i: usize, cap: usize) -> usize {
    if model::reverse() {
        cap - 1 - i
    } else {
        i
    }
}

pub struct OwningIter<K, V, S = RandomState> {
    map: DashMap<K, V, S>,
    i: usize,
}
impl<K: Eq + Hash, V, S> OwningIter<K, V, S> {
    pub(crate) fn new(map: DashMap<K, V, S>) -> Self {
        OwningIter { map, i: 0 }
    }
}
impl<K: Eq + Hash, V, S: BuildHasher + Clone> Iterator for OwningIter<K, V, S> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        while self.i < self.map.cap() {
            let i = index(self.i, self.map.cap());
            self.i += 1;
            if self.map.slots()[i].is_some() {
                return Some(self.map.take(i));
            }
        }
        None
    }
}

pub struct Iter<'a, K, V, S = RandomState, M = DashMap<K, V, S>> {
    map: &'a DashMap<K, V, S>,
    i: usize,
    locked: bool,
    _m: PhantomData<fn() -> M>,
}
unsafe impl<'a, K: Send, V: Send, S, M> Send for Iter<'a, K, V, S, M> {}
impl<'a, K, V, S, M> Iter<'a, K, V, S, M> {
    pub(crate) fn new(map: &'a DashMap<K, V, S>) -> Self {
        Iter {
            map,
            i: 0,
            locked: false,
            _m: PhantomData,
        }
    }
}
impl<'a, K: Eq + Hash, V, S: 'a + BuildHasher + Clone, M> Iterator for Iter<'a, K, V, S, M> {
    type Item = RefMulti<'a, K, V, S>;
    fn next(&mut self) -> Option<Self::Item> {
        if !self.locked {
            model::op();
            self.map.lock.read();
            self.locked = true;
        }
        while self.i < self.map.cap() {
            let i = index(self.i, self.map.cap());
            self.i += 1;
            if let Some(e) = self.map.slots()[i].as_deref() {
                return Some(RefMulti::new(self.map, e));
            }
        }
        None
    }
}
impl<'a, K, V, S, M> Drop for Iter<'a, K, V, S, M> {
    fn drop(&mut self) {
        if self.locked {
            self.map.lock.unread();
        }
    }
}

pub struct IterMut<'a, K, V, S = RandomState, M = DashMap<K, V, S>> {
    map: &'a DashMap<K, V, S>,
    i: usize,
    locked: bool,
    _m: PhantomData<fn() -> M>,
}
unsafe impl<'a, K: Send, V: Send, S, M> Send for IterMut<'a, K, V, S, M> {}
impl<'a, K, V, S, M> IterMut<'a, K, V, S, M> {
    pub(crate) fn new(map: &'a DashMap<K, V, S>) -> Self {
        IterMut {
            map,
            i: 0,
            locked: false,
            _m: PhantomData,
        }
    }
}
impl<'a, K: Eq + Hash, V, S: 'a + BuildHasher + Clone, M> Iterator for IterMut<'a, K, V, S, M> {
    type Item = RefMutMulti<'a, K, V, S>;
    fn next(&mut self) -> Option<Self::Item> {
        if !self.locked {
            model::op();
            self.map.lock.write();
            self.locked = true;
        }
        while self.i < self.map.cap() {
            let i = index(self.i, self.map.cap());
            self.i += 1;
            if let Some(e) = self.map.slots_mut()[i].as_deref_mut() {
                let e: *mut (K, V) = e;
                return Some(RefMutMulti::new(self.map, unsafe { &mut *e }));
            }
        }
        None
    }
}
impl<'a, K, V, S, M> Drop for IterMut<'a, K, V, S, M> {
    fn drop(&mut self) {
        if self.locked {
            self.map.lock.unwrite();
        }
    }
}
