//! A trie over sequences of keys.
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash};

#[derive(Debug, Clone)]
pub struct SequenceTrie<K: Hash + Eq, V> {
    value: Option<V>,
    children: HashMap<K, SequenceTrie<K, V>, BuildHasherDefault<DefaultHasher>>,
}

impl<K: Hash + Eq + Clone, V> SequenceTrie<K, V> {
    pub fn new() -> Self {
        SequenceTrie { value: None, children: HashMap::default() }
    }

    pub fn insert<'k, I: IntoIterator<Item = &'k K>>(&mut self, key: I, value: V) -> Option<V>
    where
        K: 'k,
    {
        let node = key.into_iter().fold(self, |node, k| node.children.entry(k.clone()).or_insert_with(Self::new));
        node.value.replace(value)
    }

    pub fn get_node<'k, I: IntoIterator<Item = &'k K>>(&self, key: I) -> Option<&Self>
    where
        K: 'k,
    {
        key.into_iter().try_fold(self, |node, k| node.children.get(k))
    }

    pub fn get<'k, I: IntoIterator<Item = &'k K>>(&self, key: I) -> Option<&V>
    where
        K: 'k,
    {
        self.get_node(key).and_then(|n| n.value.as_ref())
    }

    pub fn get_mut<'k, I: IntoIterator<Item = &'k K>>(&mut self, key: I) -> Option<&mut V>
    where
        K: 'k,
    {
        key.into_iter().try_fold(self, |node, k| node.children.get_mut(k)).and_then(|n| n.value.as_mut())
    }

    /// Every key with a value, the root's empty one included.
    pub fn iter(&self) -> impl Iterator<Item = (Vec<&K>, &V)> {
        let mut out = vec![];
        self.collect(&mut vec![], &mut out);
        out.into_iter()
    }

    fn collect<'a>(&'a self, path: &mut Vec<&'a K>, out: &mut Vec<(Vec<&'a K>, &'a V)>) {
        if let Some(v) = &self.value {
            out.push((path.clone(), v));
        }
        for (k, n) in &self.children {
            path.push(k);
            n.collect(path, out);
            path.pop();
        }
    }
}
