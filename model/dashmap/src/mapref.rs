pub mod one {
    use crate::{DashMap, RandomState};
    use std::hash::{BuildHasher, Hash};
    use std::ops::{Deref, DerefMut};

    pub struct Ref<'a, K, V, S = RandomState> {
        map: &'a DashMap<K, V, S>,
        e: &'a (K, V),
    }
    impl<'a, K, V, S> Ref<'a, K, V, S> {
        pub(crate) fn new(map: &'a DashMap<K, V, S>, e: &'a (K, V)) -> Self {
            Ref { map, e }
        }
    }
    unsafe impl<'a, K: Send, V: Send, S> Send for Ref<'a, K, V, S> {}
    unsafe impl<'a, K: Sync, V: Sync, S> Sync for Ref<'a, K, V, S> {}
    impl<'a, K: Eq + Hash, V, S: BuildHasher> Ref<'a, K, V, S> {
        pub fn key(&self) -> &K {
            &self.e.0
        }
        pub fn value(&self) -> &V {
            &self.e.1
        }
        pub fn pair(&self) -> (&K, &V) {
            (&self.e.0, &self.e.1)
        }
    }
    impl<'a, K: Eq + Hash, V, S: BuildHasher> Deref for Ref<'a, K, V, S> {
        type Target = V;
        fn deref(&self) -> &V {
            &self.e.1
        }
    }
    impl<'a, K, V, S> Drop for Ref<'a, K, V, S> {
        fn drop(&mut self) {
            self.map.lock.unread();
        }
    }

    pub struct RefMut<'a, K, V, S = RandomState> {
        map: &'a DashMap<K, V, S>,
        e: &'a mut (K, V),
    }
    impl<'a, K, V, S> RefMut<'a, K, V, S> {
        pub(crate) fn new(map: &'a DashMap<K, V, S>, e: &'a mut (K, V)) -> Self {
            RefMut { map, e }
        }
    }
    unsafe impl<'a, K: Send, V: Send, S> Send for RefMut<'a, K, V, S> {}
    unsafe impl<'a, K: Sync, V: Sync, S> Sync for RefMut<'a, K, V, S> {}
    impl<'a, K: Eq + Hash, V, S: BuildHasher> RefMut<'a, K, V, S> {
        pub fn key(&self) -> &K {
            &self.e.0
        }
        pub fn value(&self) -> &V {
            &self.e.1
        }
        pub fn value_mut(&mut self) -> &mut V {
            &mut self.e.1
        }
        pub fn pair(&self) -> (&K, &V) {
            (&self.e.0, &self.e.1)
        }
        pub fn pair_mut(&mut self) -> (&K, &mut V) {
            (&self.e.0, &mut self.e.1)
        }
        pub fn downgrade(self) -> Ref<'a, K, V, S> {
            let map = self.map;
            let e: *const (K, V) = &*self.e;
            std::mem::forget(self);
            map.lock.downgrade();
            Ref::new(map, unsafe { &*e })
        }
    }
    impl<'a, K: Eq + Hash, V, S: BuildHasher> Deref for RefMut<'a, K, V, S> {
        type Target = V;
        fn deref(&self) -> &V {
            &self.e.1
        }
    }
    impl<'a, K: Eq + Hash, V, S: BuildHasher> DerefMut for RefMut<'a, K, V, S> {
        fn deref_mut(&mut self) -> &mut V {
            &mut self.e.1
        }
    }
    impl<'a, K, V, S> Drop for RefMut<'a, K, V, S> {
        fn drop(&mut self) {
            self.map.lock.unwrite();
        }
    }
}

pub mod multiple {
    use crate::{DashMap, RandomState};
    use std::hash::{BuildHasher, Hash};
    use std::ops::{Deref, DerefMut};

    pub struct RefMulti<'a, K, V, S = RandomState> {
        map: &'a DashMap<K, V, S>,
        e: &'a (K, V),
    }
    impl<'a, K, V, S> RefMulti<'a, K, V, S> {
        pub(crate) fn new(map: &'a DashMap<K, V, S>, e: &'a (K, V)) -> Self {
            map.lock.read();
            RefMulti { map, e }
        }
    }
    unsafe impl<'a, K: Send, V: Send, S> Send for RefMulti<'a, K, V, S> {}
    unsafe impl<'a, K: Sync, V: Sync, S> Sync for RefMulti<'a, K, V, S> {}
    impl<'a, K: Eq + Hash, V, S: BuildHasher> RefMulti<'a, K, V, S> {
        pub fn key(&self) -> &K {
            &self.e.0
        }
        pub fn value(&self) -> &V {
            &self.e.1
        }
        pub fn pair(&self) -> (&K, &V) {
            (&self.e.0, &self.e.1)
        }
    }
    impl<'a, K: Eq + Hash, V, S: BuildHasher> Deref for RefMulti<'a, K, V, S> {
        type Target = V;
        fn deref(&self) -> &V {
            &self.e.1
        }
    }
    impl<'a, K, V, S> Drop for RefMulti<'a, K, V, S> {
        fn drop(&mut self) {
            self.map.lock.unread();
        }
    }

    pub struct RefMutMulti<'a, K, V, S = RandomState> {
        e: &'a mut (K, V),
        _map: &'a DashMap<K, V, S>,
    }
    impl<'a, K, V, S> RefMutMulti<'a, K, V, S> {
        pub(crate) fn new(map: &'a DashMap<K, V, S>, e: &'a mut (K, V)) -> Self {
            RefMutMulti { e, _map: map }
        }
    }
    unsafe impl<'a, K: Send, V: Send, S> Send for RefMutMulti<'a, K, V, S> {}
    unsafe impl<'a, K: Sync, V: Sync, S> Sync for RefMutMulti<'a, K, V, S> {}
    impl<'a, K: Eq + Hash, V, S: BuildHasher> RefMutMulti<'a, K, V, S> {
        pub fn key(&self) -> &K {
            &self.e.0
        }
        pub fn value(&self) -> &V {
            &self.e.1
        }
        pub fn value_mut(&mut self) -> &mut V {
            &mut self.e.1
        }
        pub fn pair(&self) -> (&K, &V) {
            (&self.e.0, &self.e.1)
        }
        pub fn pair_mut(&mut self) -> (&K, &mut V) {
            (&self.e.0, &mut self.e.1)
        }
    }
    impl<'a, K: Eq + Hash, V, S: BuildHasher> Deref for RefMutMulti<'a, K, V, S> {
        type Target = V;
        fn deref(&self) -> &V {
            &self.e.1
        }
    }
    impl<'a, K: Eq + Hash, V, S: BuildHasher> DerefMut for RefMutMulti<'a, K, V, S> {
        fn deref_mut(&mut self) -> &mut V {
            &mut self.e.1
        }
    }
}

pub mod entry {
    use super::one::RefMut;
    use crate::{DashMap, RandomState};
    use std::hash::{BuildHasher, Hash};

    pub enum Entry<'a, K, V, S = RandomState> {
        Occupied(OccupiedEntry<'a, K, V, S>),
        Vacant(VacantEntry<'a, K, V, S>),
    }

    impl<'a, K: Eq + Hash, V, S: BuildHasher> Entry<'a, K, V, S> {
        pub fn and_modify(self, f: impl FnOnce(&mut V)) -> Self {
            match self {
                Entry::Occupied(mut e) => {
                    f(e.get_mut());
                    Entry::Occupied(e)
                }
                Entry::Vacant(e) => Entry::Vacant(e),
            }
        }
        pub fn key(&self) -> &K {
            match self {
                Entry::Occupied(e) => e.key(),
                Entry::Vacant(e) => e.key(),
            }
        }
        pub fn into_key(self) -> K {
            match self {
                Entry::Occupied(e) => e.into_key(),
                Entry::Vacant(e) => e.into_key(),
            }
        }
        pub fn or_default(self) -> RefMut<'a, K, V, S>
        where
            V: Default,
        {
            match self {
                Entry::Occupied(e) => e.into_ref(),
                Entry::Vacant(e) => e.insert(V::default()),
            }
        }
        pub fn or_insert(self, value: V) -> RefMut<'a, K, V, S> {
            match self {
                Entry::Occupied(e) => e.into_ref(),
                Entry::Vacant(e) => e.insert(value),
            }
        }
        pub fn or_insert_with(self, value: impl FnOnce() -> V) -> RefMut<'a, K, V, S> {
            match self {
                Entry::Occupied(e) => e.into_ref(),
                Entry::Vacant(e) => e.insert(value()),
            }
        }
        pub fn or_try_insert_with<E>(
            self,
            value: impl FnOnce() -> Result<V, E>,
        ) -> Result<RefMut<'a, K, V, S>, E> {
            match self {
                Entry::Occupied(e) => Ok(e.into_ref()),
                Entry::Vacant(e) => Ok(e.insert(value()?)),
            }
        }
    }

    struct Guard<'a, K, V, S>(&'a DashMap<K, V, S>);
    impl<'a, K, V, S> Drop for Guard<'a, K, V, S> {
        fn drop(&mut self) {
            self.0.lock.unwrite();
        }
    }

    pub struct VacantEntry<'a, K, V, S = RandomState> {
        guard: Guard<'a, K, V, S>,
        key: K,
    }
    unsafe impl<'a, K: Send, V: Send, S> Send for VacantEntry<'a, K, V, S> {}
    unsafe impl<'a, K: Sync, V: Sync, S> Sync for VacantEntry<'a, K, V, S> {}
    impl<'a, K: Eq + Hash, V, S> VacantEntry<'a, K, V, S> {
        pub(crate) fn new(map: &'a DashMap<K, V, S>, key: K) -> Self {
            VacantEntry {
                guard: Guard(map),
                key,
            }
        }
        pub fn insert(self, value: V) -> RefMut<'a, K, V, S> {
            let map = self.guard.0;
            let VacantEntry { guard, key } = self;
            std::mem::forget(guard);
            let i = map.push(key, value);
            RefMut::new(map, map.at_mut(i))
        }
        pub fn into_key(self) -> K {
            self.key
        }
        pub fn key(&self) -> &K {
            &self.key
        }
    }

    pub struct OccupiedEntry<'a, K, V, S = RandomState> {
        guard: Guard<'a, K, V, S>,
        i: usize,
        key: K,
    }
    unsafe impl<'a, K: Send, V: Send, S> Send for OccupiedEntry<'a, K, V, S> {}
    unsafe impl<'a, K: Sync, V: Sync, S> Sync for OccupiedEntry<'a, K, V, S> {}
    impl<'a, K: Eq + Hash, V, S> OccupiedEntry<'a, K, V, S> {
        pub(crate) fn new(map: &'a DashMap<K, V, S>, i: usize, key: K) -> Self {
            OccupiedEntry {
                guard: Guard(map),
                i,
                key,
            }
        }
        pub fn get(&self) -> &V {
            &self.guard.0.at(self.i).1
        }
        pub fn get_mut(&mut self) -> &mut V {
            &mut self.guard.0.at_mut(self.i).1
        }
        pub fn insert(&mut self, value: V) -> V {
            std::mem::replace(self.get_mut(), value)
        }
        pub fn into_ref(self) -> RefMut<'a, K, V, S> {
            let map = self.guard.0;
            let OccupiedEntry { guard, i, key } = self;
            std::mem::forget(guard);
            drop(key);
            RefMut::new(map, map.at_mut(i))
        }
        pub fn into_key(self) -> K {
            self.key
        }
        pub fn key(&self) -> &K {
            &self.guard.0.at(self.i).0
        }
        pub fn remove(self) -> V {
            self.guard.0.take(self.i).1
        }
        pub fn remove_entry(self) -> (K, V) {
            self.guard.0.take(self.i)
        }
        pub fn replace_entry(self, value: V) -> (K, V) {
            let map = self.guard.0;
            let OccupiedEntry { guard, i, key } = self;
            let old = map.take(i);
            map.slots_mut()[i] = Some(Box::new((key, value)));
            drop(guard);
            old
        }
    }
}
