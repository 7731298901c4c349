//! Replays spec/GenMany.tla: the constant pool in bulk.
use redscript::bundle::{PoolIndex, ScriptBundle};
use redscript::definition::Definition;

use crate::bundle::{load, save};
use crate::code::ensure;
use crate::defs::{build_def, dump_def};
use crate::json::J;

fn word(t: &str, k: i64) -> String {
    match t {
        "tweaks" => format!("Items.Item_{k}"),
        "ress" => format!("base\\res{k}.ent"),
        _ => format!("word{k}"),
    }
}

/// Definition number d: what tells it apart is its own number.
fn numbered(d: i64) -> J {
    let s = |v: &str| J::s(v);
    let mut kv = vec![("name", s("0")), ("parent", s("0")), ("u1", s("0")), ("u2", s("0")), ("u3", s("0"))];
    match d % 3 {
        0 => kv.extend([("kind", s("EnumValue")), ("value", s(&d.to_string()))]),
        1 => kv.extend([("kind", s("Local")), ("type", s(&d.to_string())), ("flags", J::Arr(vec![]))]),
        _ => kv.extend([("kind", s("Type")), ("type", s("StaticArray")), ("inner", s("1")), ("size", s(&d.to_string()))]),
    }
    J::obj(kv)
}

macro_rules! on_table {
    ($p:expr, $t:expr, $s:ident => $e:expr) => {
        match $t {
            "names" => { let $s = &mut $p.names; $e }
            "tweaks" => { let $s = &mut $p.tweakdb_ids; $e }
            "ress" => { let $s = &mut $p.resources; $e }
            "strs" => { let $s = &mut $p.strings; $e }
            o => panic!("harness: table {o}"),
        }
    };
}

fn strings_hold(b: &mut ScriptBundle, h: &J) -> Result<(), String> {
    for t in ["names", "tweaks", "ress", "strs"] {
        let (n, first) = (h.get("words").get(t).int(), i64::from(t == "names"));
        on_table!(b.pool, t, s => {
            for k in 0..n {
                let w = word(t, k);
                let got = s.get(PoolIndex::new((first + k) as u32)).map(|s| s.to_string());
                ensure!(got.as_ref().ok() == Some(&w), "{t}[{}] reads {got:?}, want {w:?}", first + k);
                let at = s.get_index(&w).map(u32::from);
                ensure!(at.map(i64::from) == Some(first + k), "{t} index of {w:?} is {at:?}, want {}", first + k);
            }
            ensure!(s.get(PoolIndex::new((first + n) as u32)).is_err() || first + n == 0, "{t} has more entries than {}", first + n);
            let next = word(t, n);
            ensure!(s.get_index(&next).is_none(), "{t} has {next:?}");
        });
    }
    Ok(())
}

fn defs_hold(b: &ScriptBundle, h: &J) -> Result<(), String> {
    let n = h.get("ndefs").int();
    let mut place: Vec<i64> = (0..=n).collect();
    for m in h.get("moved").arr() {
        place[m.arr()[0].int() as usize] = m.arr()[1].int();
    }
    let mut listed = 0;
    for (i, d) in b.pool.definitions() {
        listed += 1;
        ensure!(u32::from(i) == listed, "definitions() lists {i} as number {listed}");
        let got = dump_def(d);
        let want = dump_def(&build_def(&numbered(place[listed as usize])));
        ensure!(got == want, "definition {i} is {}, want {}", got.dump(), want.dump());
        let one = b.pool.definition::<Definition>(PoolIndex::new(listed)).map(dump_def);
        ensure!(one.as_ref().ok() == Some(&want), "definition {i} by index is not {}", want.dump());
    }
    ensure!(i64::from(listed) == n, "{listed} definitions, want {n}");
    ensure!(b.pool.definition::<Definition>(PoolIndex::new(n as u32 + 1)).is_err(), "a definition past the end");
    Ok(())
}

pub fn strings(c: &J) -> Result<(), String> {
    run(c, true)
}
pub fn defs(c: &J) -> Result<(), String> {
    run(c, false)
}

fn run(c: &J, on_strings: bool) -> Result<(), String> {
    let mut b = crate::pool::skeleton();
    b.pool.names.add(String::new().into());
    for (n, h) in c.get("hist").arr().iter().enumerate() {
        if h.get("o").str() == "end" {
            break;
        }
        let (o, a, want) = (h.get("o").str(), h.get("a").arr(), h.get("want").int());
        let ints = || (a[0].int() as u32, a[1].int() as u32);
        let mut got = 0;
        match o {
            "grow" => {
                let t = a[0].str();
                for k in 0..a[1].int() {
                    got = on_table!(b.pool, t, s => u32::from(s.add(word(t, k).into()))).into();
                    let want = k + i64::from(t == "names");
                    ensure!(!on_strings || got == want, "step {n}: {t} gives {:?} the index {got}, want {want}", word(t, k));
                }
            }
            "all" => {
                for t in ["names", "tweaks", "ress", "strs"] {
                    for k in 0..a[0].int() {
                        on_table!(b.pool, t, s => { s.add(word(t, k).into()); });
                    }
                }
            }
            "lookup" => {
                let w = word(a[0].str(), a[1].int());
                got = on_table!(b.pool, a[0].str(), s => s.get_index(&w).map(u32::from)).map_or(-1, i64::from);
            }
            "intern" => got = on_table!(b.pool, a[0].str(), s => u32::from(s.add(word(a[0].str(), a[1].int()).into()))).into(),
            "defs" => {
                let before = h.get("ndefs").int() - a[0].int();
                for k in 1..=a[0].int() {
                    got = u32::from(b.pool.add_definition::<Definition>(build_def(&numbered(before + k)))).into();
                    ensure!(on_strings || got == before + k, "step {n}: definition {} was given index {got}", before + k);
                }
            }
            "swap" => b.pool.swap_definition::<Definition>(PoolIndex::new(ints().0), PoolIndex::new(ints().1)),
            "reload" => {
                let bytes = save(&b)?;
                b = load(&bytes).map_err(|e| format!("step {n} reload: {e}"))?;
            }
            o => panic!("harness: op {o}"),
        }
        let about_strings = matches!(o, "grow" | "lookup" | "intern");
        ensure!(about_strings != on_strings || got == want, "step {n} {o} {}: returned {got}, want {want}", J::Arr(a.to_vec()).dump());
        if on_strings { strings_hold(&mut b, h) } else { defs_hold(&b, h) }.map_err(|e| format!("step {n} {o}: {e}"))?;
    }
    Ok(())
}
