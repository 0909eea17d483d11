//! Contract stub of the `dashmap` 3.x API: the environment model used when the
//! hop sources are executed symbolically.
//!
//! Contract: a map from keys to values in which every method is atomic, entry
//! and reference guards hold the lock of the map until they are dropped, and
//! iteration order is unspecified (either direction of the slot table).  The
//! stub is a short slot table searched with `Eq` only (no hashing); the `Hash`
//! bounds are kept so that exactly the programs accepted by the real crate
//! compile.
//!
//! Every operation starts with a scheduling point; acquiring the map while an
//! incompatible guard of the same thread is alive is a self-deadlock and
//! panics; contention with another thread blocks.
#![allow(clippy::all)]

use std::borrow::Borrow;
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};
use std::iter::FromIterator;
use std::marker::PhantomData;

pub mod iter;
pub mod mapref;
pub mod model;
mod read_only;
pub mod iter_set;
mod set;
pub mod setref;

pub use read_only::ReadOnlyView;
pub use set::DashSet;

use iter::{Iter, IterMut, OwningIter};
use mapref::entry::{Entry, OccupiedEntry, VacantEntry};
use mapref::one::{Ref, RefMut};

#[derive(Clone, Default, Debug)]
pub struct RandomState;
pub struct NullHasher;
impl Hasher for NullHasher {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, _: &[u8]) {}
}
impl BuildHasher for RandomState {
    type Hasher = NullHasher;
    fn build_hasher(&self) -> NullHasher {
        NullHasher
    }
}

pub(crate) type Slot<K, V> = Option<Box<(K, V)>>;

pub struct DashMap<K, V, S = RandomState> {
    slots: UnsafeCell<Vec<Slot<K, V>>>,
    pub(crate) lock: Lock,
    hasher: PhantomData<fn() -> S>,
}

unsafe impl<K: Send, V: Send, S> Send for DashMap<K, V, S> {}
unsafe impl<K: Sync + Send, V: Sync + Send, S> Sync for DashMap<K, V, S> {}

const THREADS: usize = 5;

/// Reader/writer lock of one map. Contention with another thread blocks the
/// caller; a request that conflicts with a guard of the same thread can never
/// be granted and is reported.
pub(crate) struct Lock {
    writer: Cell<usize>,
    readers: Cell<usize>,
    mine: Cell<[u8; THREADS]>,
}

impl Lock {
    const fn new() -> Lock {
        Lock { writer: Cell::new(0), readers: Cell::new(0), mine: Cell::new([0; THREADS]) }
    }
    fn add(&self, t: usize, d: i8) {
        let mut m = self.mine.get();
        m[t] = (m[t] as i8 + d) as u8;
        self.mine.set(m);
        self.readers.set((self.readers.get() as isize + d as isize) as usize);
    }
    pub(crate) fn check_read(&self) {
        while self.writer.get() != 0 {
            if self.writer.get() == model::me() + 1 {
                panic!("model: self-deadlock (read lock requested while the same thread holds the write lock)");
            }
            model::block();
        }
    }
    pub(crate) fn check_write(&self) {
        while self.writer.get() != 0 || self.readers.get() != 0 {
            let t = model::me();
            if self.writer.get() == t + 1 || self.mine.get()[t] != 0 {
                panic!("model: self-deadlock (write lock requested while the same thread holds a guard)");
            }
            model::block();
        }
    }
    pub(crate) fn read(&self) {
        self.check_read();
        self.add(model::me(), 1);
    }
    pub(crate) fn unread(&self) {
        self.add(model::me(), -1);
        model::wake();
    }
    pub(crate) fn write(&self) {
        self.check_write();
        self.writer.set(model::me() + 1);
    }
    pub(crate) fn unwrite(&self) {
        self.writer.set(0);
        model::wake();
    }
    pub(crate) fn downgrade(&self) {
        self.writer.set(0);
        self.add(model::me(), 1);
        model::wake();
    }
}

impl<K: Eq + Hash + Clone, V: Clone, S: Clone> Clone for DashMap<K, V, S> {
    fn clone(&self) -> Self {
        model::op();
        self.lock.check_read();
        let new = Self::empty();
        for e in self.slots() {
            if let Some(e) = e {
                new.push(e.0.clone(), e.1.clone());
            }
        }
        new
    }
}

impl<K: Eq + Hash, V, S: Default + BuildHasher + Clone> Default for DashMap<K, V, S> {
    fn default() -> Self {
        Self::empty()
    }
}

impl<'a, K: 'a + Eq + Hash, V: 'a> DashMap<K, V, RandomState> {
    pub fn new() -> Self {
        Self::empty()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::empty()
    }
}

impl<K, V, S> DashMap<K, V, S> {
    pub(crate) fn empty() -> Self {
        DashMap {
            slots: UnsafeCell::new(Vec::new()),
            lock: Lock::new(),
            hasher: PhantomData,
        }
    }
    /// The slots; the entries are boxed, so that references to them stay valid
    /// when the table grows.
    pub(crate) fn slots(&self) -> &[Slot<K, V>] {
        unsafe { &*self.slots.get() }
    }
    #[allow(clippy::mut_from_ref)]
    pub(crate) fn slots_mut(&self) -> &mut Vec<Slot<K, V>> {
        unsafe { &mut *self.slots.get() }
    }
    pub(crate) fn cap(&self) -> usize {
        self.slots().len()
    }
    pub(crate) fn find<Q>(&self, key: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
        Q: Eq + ?Sized,
    {
        let slots = self.slots();
        let mut i = 0;
        while i < slots.len() {
            if let Some(e) = &slots[i] {
                if e.0.borrow() == key {
                    return Some(i);
                }
            }
            i += 1;
        }
        None
    }
    pub(crate) fn at(&self, i: usize) -> &(K, V) {
        self.slots()[i].as_deref().unwrap()
    }
    #[allow(clippy::mut_from_ref)]
    pub(crate) fn at_mut(&self, i: usize) -> &mut (K, V) {
        self.slots_mut()[i].as_deref_mut().unwrap()
    }
    pub(crate) fn take(&self, i: usize) -> (K, V) {
        *self.slots_mut()[i].take().unwrap()
    }
    pub(crate) fn push(&self, key: K, value: V) -> usize {
        let slots = self.slots_mut();
        let mut i = 0;
        while i < slots.len() {
            if slots[i].is_none() {
                slots[i] = Some(Box::new((key, value)));
                return i;
            }
            i += 1;
        }
        slots.push(Some(Box::new((key, value))));
        i
    }
    pub(crate) fn count(&self) -> usize {
        let slots = self.slots();
        let mut n = 0;
        let mut i = 0;
        while i < slots.len() {
            if slots[i].is_some() {
                n += 1;
            }
            i += 1;
        }
        n
    }
}

impl<'a, K: 'a + Eq + Hash, V: 'a, S: BuildHasher + Clone> DashMap<K, V, S> {
    pub fn into_read_only(self) -> ReadOnlyView<K, V, S> {
        ReadOnlyView::new(self)
    }
    pub fn with_hasher(_: S) -> Self {
        Self::empty()
    }
    pub fn with_capacity_and_hasher(_: usize, _: S) -> Self {
        Self::empty()
    }
    pub fn hash_usize<T: Hash>(&self, _: &T) -> usize {
        0
    }

    pub fn insert(&self, key: K, value: V) -> Option<V> {
        model::op();
        self.lock.check_write();
        match self.find(&key) {
            Some(i) => Some(std::mem::replace(&mut self.at_mut(i).1, value)),
            None => {
                self.push(key, value);
                None
            }
        }
    }

    pub fn remove<Q>(&self, key: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        model::op();
        self.lock.check_write();
        self.find(key).map(|i| self.take(i))
    }

    pub fn remove_if<Q>(&self, key: &Q, f: impl FnOnce(&K, &V) -> bool) -> Option<(K, V)>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        model::op();
        self.lock.write();
        let r = match self.find(key) {
            Some(i) => {
                let e = self.at(i);
                if f(&e.0, &e.1) {
                    Some(self.take(i))
                } else {
                    None
                }
            }
            None => None,
        };
        self.lock.unwrite();
        r
    }

    pub fn iter(&'a self) -> Iter<'a, K, V, S, DashMap<K, V, S>> {
        Iter::new(self)
    }
    pub fn iter_mut(&'a self) -> IterMut<'a, K, V, S, DashMap<K, V, S>> {
        IterMut::new(self)
    }

    pub fn get<Q>(&'a self, key: &Q) -> Option<Ref<'a, K, V, S>>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        model::op();
        self.lock.check_read();
        match self.find(key) {
            Some(i) => {
                self.lock.read();
                Some(Ref::new(self, self.at(i)))
            }
            None => None,
        }
    }

    pub fn get_mut<Q>(&'a self, key: &Q) -> Option<RefMut<'a, K, V, S>>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        model::op();
        self.lock.check_write();
        match self.find(key) {
            Some(i) => {
                self.lock.write();
                Some(RefMut::new(self, self.at_mut(i)))
            }
            None => None,
        }
    }

    pub fn shrink_to_fit(&self) {}

    pub fn retain(&self, mut f: impl FnMut(&K, &mut V) -> bool) {
        model::op();
        self.lock.write();
        let mut i = 0;
        while i < self.cap() {
            let keep = match self.slots_mut()[i].as_deref_mut() {
                Some(e) => f(&e.0, &mut e.1),
                None => true,
            };
            if !keep {
                drop(self.take(i));
            }
            i += 1;
        }
        self.lock.unwrite();
    }

    pub fn len(&self) -> usize {
        model::op();
        self.lock.check_read();
        self.count()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn clear(&self) {
        self.retain(|_, _| false)
    }
    pub fn capacity(&self) -> usize {
        self.cap()
    }
    pub fn alter<Q>(&self, key: &Q, f: impl FnOnce(&K, V) -> V)
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        model::op();
        self.lock.write();
        if let Some(i) = self.find(key) {
            let (k, v) = self.take(i);
            let v = f(&k, v);
            self.slots_mut()[i] = Some(Box::new((k, v)));
        }
        self.lock.unwrite();
    }
    pub fn alter_all(&self, mut f: impl FnMut(&K, V) -> V) {
        model::op();
        self.lock.write();
        let mut i = 0;
        while i < self.cap() {
            if self.slots()[i].is_some() {
                let (k, v) = self.take(i);
                let v = f(&k, v);
                self.slots_mut()[i] = Some(Box::new((k, v)));
            }
            i += 1;
        }
        self.lock.unwrite();
    }
    pub fn contains_key<Q>(&self, key: &Q) -> bool
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        model::op();
        self.lock.check_read();
        self.find(key).is_some()
    }
    pub fn entry(&'a self, key: K) -> Entry<'a, K, V, S> {
        model::op();
        self.lock.write();
        match self.find(&key) {
            Some(i) => Entry::Occupied(OccupiedEntry::new(self, i, key)),
            None => Entry::Vacant(VacantEntry::new(self, key)),
        }
    }
}

impl<K: Eq + Hash + fmt::Debug, V: fmt::Debug, S: BuildHasher + Clone> fmt::Debug
    for DashMap<K, V, S>
{
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut pmap = f.debug_map();
        for r in self.iter() {
            let (k, v) = r.pair();
            pmap.entry(k, v);
        }
        pmap.finish()
    }
}

impl<K: Eq + Hash, V, S: BuildHasher + Clone> IntoIterator for DashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = OwningIter<K, V, S>;
    fn into_iter(self) -> Self::IntoIter {
        OwningIter::new(self)
    }
}

impl<'a, K: Eq + Hash, V, S: BuildHasher + Clone> IntoIterator for &'a DashMap<K, V, S> {
    type Item = mapref::multiple::RefMulti<'a, K, V, S>;
    type IntoIter = Iter<'a, K, V, S, DashMap<K, V, S>>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}

impl<K: Eq + Hash, V, S: BuildHasher + Clone> Extend<(K, V)> for DashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, intoiter: I) {
        for pair in intoiter.into_iter() {
            self.insert(pair.0, pair.1);
        }
    }
}

impl<K: Eq + Hash, V> FromIterator<(K, V)> for DashMap<K, V, RandomState> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(intoiter: I) -> Self {
        let mut map = DashMap::new();
        map.extend(intoiter);
        map
    }
}
