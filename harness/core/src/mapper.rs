//! Replays spec/GenMapper.tla.
use hashbrown::HashMap;
use redscript::bundle::PoolIndex;
use redscript::mapper::{MultiMapper, PoolMapper};

use crate::code::ensure;
use crate::defs::{build_pool, dump_defs, ix, lit};
use crate::json::J;

fn map<A>(v: &J) -> HashMap<PoolIndex<A>, PoolIndex<A>>
where
    PoolIndex<A>: std::hash::Hash + Eq,
{
    v.arr().iter().map(|p| (ix(&p.arr()[0]), ix(&p.arr()[1]))).collect()
}

pub fn run(c: &J) -> Result<(), String> {
    let raw = J::obj(vec![
        ("names", J::Arr(vec![J::s("~empty"), J::s("A")])),
        ("tweaks", J::Arr(vec![])),
        ("ress", J::Arr(vec![])),
        ("strs", J::Arr(vec![])),
        ("defs", c.get("before").clone()),
    ]);
    let mut pool = build_pool(&raw);
    for s in c.get("steps").arr() {
        let (cm, fm) = (s.get("cm"), s.get("fm"));
        match (cm.arr().is_empty(), fm.arr().is_empty()) {
            (true, true) => PoolMapper::default().map(&mut pool),
            (false, true) => PoolMapper::default().with_class_mapper(MultiMapper::new(map(cm))).map(&mut pool),
            (true, false) => PoolMapper::default().with_function_mapper(MultiMapper::new(map(fm))).map(&mut pool),
            (false, false) => PoolMapper::default()
                .with_class_mapper(MultiMapper::new(map(cm)))
                .with_function_mapper(MultiMapper::new(map(fm)))
                .map(&mut pool),
        }
    }
    let got = dump_defs(&pool);
    let want: Vec<J> = c.get("after").arr().iter().map(lit).collect();
    ensure!(got.len() == want.len(), "{} definitions, want {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        if g != w {
            if let (J::Arr(a), J::Arr(b)) = (g.get("code"), w.get("code")) {
                if let Some((x, y)) = a.iter().zip(b.iter()).find(|(x, y)| x != y) {
                    return Err(format!("definition {i} ({}): instruction {} want {}", w.get("kind").str(), x.dump(), y.dump()));
                }
            }
            return Err(format!("definition {i}: {} want {}", g.dump(), w.dump()));
        }
    }
    Ok(())
}
