//! A persistent map: every version is an immutable, shared copy.
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::fmt;
use std::hash::{BuildHasherDefault, Hash};
use std::sync::Arc;

type Inner<K, V> = HashMap<K, V, BuildHasherDefault<DefaultHasher>>;

pub struct Map<K, V>(Arc<Inner<K, V>>);

impl<K, V> Clone for Map<K, V> {
    fn clone(&self) -> Self {
        Map(Arc::clone(&self.0))
    }
}

impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for Map<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

impl<K: Hash + Eq + Clone, V: Clone> Map<K, V> {
    pub fn new() -> Self {
        Map(Arc::new(Inner::default()))
    }

    pub fn find(&self, key: &K) -> Option<&V> {
        self.0.get(key)
    }

    /// The map with the key bound.
    #[must_use]
    pub fn insert(&self, key: K, value: V) -> Self {
        let mut copy = (*self.0).clone();
        copy.insert(key, value);
        Map(Arc::new(copy))
    }
}

impl<K: Hash + Eq + Clone, V: Clone> Default for Map<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
