//! Replays spec/GenFiles.tla.
use std::collections::{BTreeMap, BTreeSet};

use redscript::bundle::PoolIndex;
use redscript::definition::Definition;
use redscript_decompiler::files::FileIndex;

use crate::atoms::atom;
use crate::code::ensure;
use crate::defs::build_pool;
use crate::json::J;

pub fn run(c: &J) -> Result<(), String> {
    let raw = J::obj(vec![
        ("names", J::Arr(vec![J::s("~empty"), J::s("A")])),
        ("tweaks", J::Arr(vec![])),
        ("ress", J::Arr(vec![])),
        ("strs", J::Arr(vec![])),
        ("defs", c.get("defs").clone()),
    ]);
    let pool = build_pool(&raw);
    let index_of = |d: &Definition| {
        (0..c.get("defs").arr().len() as u32)
            .find(|i| std::ptr::eq(d, pool.definition::<Definition>(PoolIndex::new(*i)).unwrap()))
            .unwrap_or_else(|| panic!("a definition that is not in the pool")) as i64
    };
    let mut want: BTreeMap<String, BTreeSet<i64>> = BTreeMap::new();
    want.insert("orphans.script".into(), c.get("orphans").arr().iter().map(J::int).collect());
    for f in c.get("files").arr() {
        let path: Vec<String> = f.get("path").arr().iter().map(|p| atom(p.str())).collect();
        want.insert(path.join("/"), f.get("defs").arr().iter().map(J::int).collect());
    }
    let lines: Vec<i64> = c.get("lines").arr().iter().map(J::int).collect();
    let index = FileIndex::from_pool(&pool);
    let mut seen = BTreeSet::new();
    for entry in index.iter() {
        let path = entry.path.to_string_lossy().into_owned();
        ensure!(seen.insert(path.clone()), "{path} is listed twice");
        let got: Vec<i64> = entry.definitions.iter().map(|d| index_of(d)).collect();
        let set: BTreeSet<i64> = got.iter().copied().collect();
        ensure!(set.len() == got.len(), "{path} has a definition twice: {got:?}");
        let w = want.get(&path).ok_or_else(|| format!("unexpected file {path} with {got:?}"))?;
        ensure!(set == *w, "{path} has {got:?}, want {w:?}");
        if path != "orphans.script" {
            let ls: Vec<i64> = got.iter().map(|i| lines[*i as usize]).collect();
            ensure!(ls.windows(2).all(|w| w[0] <= w[1]), "{path}: definitions {got:?} come in the order of lines {ls:?}");
        }
    }
    for p in want.keys() {
        ensure!(seen.contains(p), "no file {p}");
    }
    Ok(())
}
