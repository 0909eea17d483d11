pub mod multiple {
    use crate::mapref;
    use crate::RandomState;
    use std::hash::{BuildHasher, Hash};
    use std::ops::Deref;
    pub struct RefMulti<'a, K, S = RandomState> {
        inner: mapref::multiple::RefMulti<'a, K, (), S>,
    }
    impl<'a, K: Eq + Hash, S: BuildHasher> RefMulti<'a, K, S> {
        pub(crate) fn new(inner: mapref::multiple::RefMulti<'a, K, (), S>) -> Self {
            Self { inner }
        }
        pub fn key(&self) -> &K {
            self.inner.key()
        }
    }
    impl<'a, K: Eq + Hash, S: BuildHasher> Deref for RefMulti<'a, K, S> {
        type Target = K;
        fn deref(&self) -> &K {
            self.key()
        }
    }
}
pub mod one {
    use crate::mapref;
    use crate::RandomState;
    use std::hash::{BuildHasher, Hash};
    use std::ops::Deref;
    pub struct Ref<'a, K, S = RandomState> {
        inner: mapref::one::Ref<'a, K, (), S>,
    }
    impl<'a, K: Eq + Hash, S: BuildHasher> Ref<'a, K, S> {
        pub(crate) fn new(inner: mapref::one::Ref<'a, K, (), S>) -> Self {
            Self { inner }
        }
        pub fn key(&self) -> &K {
            self.inner.key()
        }
    }
    impl<'a, K: Eq + Hash, S: BuildHasher> Deref for Ref<'a, K, S> {
        type Target = K;
        fn deref(&self) -> &K {
            self.key()
        }
    }
}
