//! Replays spec/GenPool.tla: histories of constant pool operations.
use redscript::bundle::{ConstantPool, PoolIndex, ScriptBundle};
use redscript::definition::*;

use crate::atoms::atom;
use crate::bundle::{load, save};
use crate::code::ensure;
use crate::defs::{build_def, build_pool, dump_defs, ix, lit, u32of};
use crate::json::J;

/// The smallest file the format allows: the frame around the pools that the replay builds.
pub fn skeleton() -> ScriptBundle {
    let mut b = b"REDS".to_vec();
    b.extend(14u32.to_le_bytes());
    b.extend([0; 4 + 8 + 4 + 4 + 4]);
    for n in 0..6u32 {
        b.extend(104u32.to_le_bytes());
        b.extend(u32::from(n == 4).to_le_bytes());
        b.extend([0; 4]);
    }
    b.extend([0; 20]);
    load(&b).unwrap_or_else(|e| panic!("the empty bundle does not load: {e}"))
}

macro_rules! on_table {
    ($p:expr, $t:expr, $s:ident => $e:expr) => {
        match $t {
            "names" => { let $s = &mut $p.names; $e }
            "tweaks" => { let $s = &mut $p.tweakdb_ids; $e }
            "ress" => { let $s = &mut $p.resources; $e }
            "strs" => { let $s = &mut $p.strings; $e }
            o => panic!("harness: table {o}"),
        }
    };
}

fn apply(b: &mut ScriptBundle, o: &str, a: &[J]) -> Result<String, String> {
    let p = &mut b.pool;
    Ok(match o {
        "intern" => on_table!(p, a[0].str(), s => u32::from(s.add(atom(a[1].str()).into())).to_string()),
        "lookup" => on_table!(p, a[0].str(), s => s.get_index(&atom(a[1].str())).map_or("-1".into(), |i| u32::from(i).to_string())),
        "read" => {
            let i = u32of(&a[1]);
            on_table!(p, a[0].str(), s => {
                let x = s.get(PoolIndex::new(i)).map_or("!missing".to_owned(), |s| s.to_string());
                let y = s.get_ref(PoolIndex::new(i)).map_or("!missing".to_owned(), str::to_owned);
                ensure!(x == y, "get gives {x:?}, get_ref {y:?}");
                x
            })
        }
        "add" => u32::from(p.add_definition::<Definition>(build_def(&a[0]))).to_string(),
        "reserve" => u32::from(p.reserve::<Definition>()).to_string(),
        "stub" => u32::from(p.stub_definition::<Definition>(ix(&a[0]))).to_string(),
        "put" => {
            p.put_definition::<Definition>(ix(&a[0]), build_def(&a[1]));
            "ok".into()
        }
        "swap" => {
            p.swap_definition::<Definition>(ix(&a[0]), ix(&a[1]));
            "ok".into()
        }
        "rename" => {
            p.rename::<Definition>(ix(&a[0]), ix(&a[1]));
            "ok".into()
        }
        "mutate" => {
            let done = match a[1].str() {
                "Class" => p.class_mut(ix(&a[0])).map(|c| c.base = ix(&a[2])),
                "Field" => p.field_mut(ix(&a[0])).map(|c| c.type_ = ix(&a[2])),
                "Function" => p.function_mut(ix(&a[0])).map(|f| f.source = Some(SourceReference { file: PoolIndex::new(1), line: u32of(&a[2]) })),
                k => panic!("harness: mutate {k}"),
            };
            if done.is_ok() { "ok".into() } else { "refused".into() }
        }
        "reload" => {
            let bytes = save(b)?;
            *b = load(&bytes)?;
            "ok".into()
        }
        o => panic!("harness: op {o}"),
    })
}

fn typed(p: &ConstantPool, i: u32, kind: &str, name: &str) -> Result<(), String> {
    fn x<A>(i: u32) -> PoolIndex<A> {
        PoolIndex::new(i)
    }
    let got = [
        ("Function", p.function(x(i)).is_ok()),
        ("Field", p.field(x(i)).is_ok()),
        ("Parameter", p.parameter(x(i)).is_ok()),
        ("Local", p.local(x(i)).is_ok()),
        ("Type", p.type_(x(i)).is_ok()),
        ("Class", p.class(x(i)).is_ok()),
        ("Enum", p.enum_(x(i)).is_ok()),
        ("EnumValue", p.enum_value(x(i)).is_ok()),
    ];
    for (k, ok) in got {
        ensure!(ok == (k == kind), "reading definition {i} (a {kind}) as {k}: {ok}");
    }
    let n = p.def_name(x::<Definition>(i)).map(|s| s.to_string());
    ensure!(n.as_deref().ok() == Some(name), "name of definition {i}: want {name:?} got {n:?}");
    Ok(())
}

fn tables(p: &mut ConstantPool, h: &J) -> Result<(), String> {
        for t in ["names", "tweaks", "ress", "strs"] {
            let want = h.get("tab").get(t).arr();
            for (i, w) in want.iter().enumerate() {
                let w = atom(w.str());
                let (got, at) = on_table!(p, t, s => (s.get(PoolIndex::new(i as u32)).map(|s| s.to_string()), s.get_index(&w).map(u32::from)));
                let exp = if t == "names" && i == 0 { "None".to_owned() } else { w.clone() };
                ensure!(got.as_ref().ok() == Some(&exp), "{t}[{i}] reads {got:?}, want {exp:?}");
                let listed = at.and_then(|at| want.get(at as usize)).map(|s| atom(s.str()));
                ensure!(listed.as_ref() == Some(&w), "{t} index of {w:?} is {at:?}, want {i}");
            }
            let beyond = on_table!(p, t, s => s.get(PoolIndex::new(want.len().max(1) as u32)).is_ok());
            ensure!(!beyond, "{t} has more entries than {}", want.len());
        }
    Ok(())
}

pub fn strings(c: &J) -> Result<(), String> {
    run(c, true)
}
pub fn defs(c: &J) -> Result<(), String> {
    run(c, false)
}

fn run(c: &J, on_strings: bool) -> Result<(), String> {
    let mut b = skeleton();
    b.pool = build_pool(&J::parse(
        r#"{"names":["~empty","A"],"tweaks":[],"ress":["R"],"strs":["A","~utf8"],"defs":[
        {"kind":"Type","name":0,"parent":0,"u1":0,"u2":0,"u3":0,"type":"Prim","inner":0,"size":0},
        {"kind":"SourceFile","name":0,"parent":0,"u1":0,"u2":0,"u3":0,"id":1,"hash":"77","path":["dir","f.reds"]},
        {"kind":"Class","name":1,"parent":0,"u1":0,"u2":0,"u3":0,"vis":"Private","flags":[],"base":0,"functions":[],"fields":[],"overrides":[]},
        {"kind":"Function","name":1,"parent":2,"u1":0,"u2":0,"u3":0,"vis":"Public","flags":["is_static"],"source":[1,5],"ret":[],"unk1":false,"base":[],
         "params":[],"locals":[],"operator":[],"cast":0,"code":[],"unk2":[]}]}"#,
    )
    .unwrap());
    // the index every string was first seen under: a string keeps its index
    let mut given: std::collections::HashMap<(String, String), String> = Default::default();
    for (n, h) in c.get("hist").arr().iter().enumerate() {
        let o = h.get("o").str();
        if o == "load" {
            b = load(&crate::atoms::render(h.get("a").arr())).map_err(|e| format!("step {n} load: {e}"))?;
            if on_strings {
                tables(&mut b.pool, h).map_err(|e| format!("step {n} load: {e}"))?;
            }
            continue;
        }
        if o == "end" {
            break;
        }
        let got = apply(&mut b, o, h.get("a").arr()).map_err(|e| format!("step {n} {o}: {e}"))?;
        let want = atom(&h.get("res").text());
        if o == "reload" {
            given.clear();
        }
        let mut want = want;
        if matches!(o, "intern" | "lookup") && got != want {
            // any index under which a file listed the string will do, as long as it stays
            let tab = h.get("tab").get(h.get("a").arr()[0].str()).arr();
            let at = |s: &str| s.parse().ok().and_then(|i: usize| tab.get(i)).map(J::text);
            if at(&got).is_some() && at(&got) == at(&want) {
                want.clone_from(&got);
            }
        }
        if matches!(o, "intern" | "lookup") && got != "-1" {
            let key = (h.get("a").arr()[0].text(), h.get("a").arr()[1].text());
            let first = given.entry(key).or_insert_with(|| got.clone()).clone();
            ensure!(!on_strings || got == first, "step {n} {o}: the string had index {first} and now has {got}");
        }
        let about_strings = matches!(o, "intern" | "lookup" | "read");
        ensure!(about_strings != on_strings || got == want, "step {n} {o} {}: returned {got:?}, want {want:?}", J::Arr(h.get("a").arr().to_vec()).dump());
        // the whole table, after every step
        if on_strings {
            tables(&mut b.pool, h).map_err(|e| format!("step {n} {o}: {e}"))?;
            continue;
        }
        let defs = h.get("defs").arr();
        let names: Vec<String> = h.get("tab").get("names").arr().iter().map(|s| atom(s.str())).collect();
        let got = dump_defs(&b.pool);
        ensure!(got.len() == defs.len(), "step {n} {o}: {} definitions, want {}", got.len(), defs.len());
        for (i, (g, w)) in got.iter().zip(defs).enumerate() {
            let w = lit(w);
            ensure!(*g == w, "step {n} {o}: definition {i} is {}, want {}", g.dump(), w.dump());
            let ni = u32of(w.get("name")) as usize;
            let name = if ni == 0 { "None" } else { &names[ni] };
            typed(&b.pool, i as u32, w.get("kind").str(), name).map_err(|e| format!("step {n} {o}: {e}"))?;
        }
        let none = typed(&b.pool, defs.len() as u32, "nothing", "");
        ensure!(none.is_err() && b.pool.function(PoolIndex::new(defs.len() as u32)).is_err(), "step {n}: a definition past the end");
        let all: Vec<u32> = b.pool.definitions().map(|(i, _)| i.into()).collect();
        ensure!(all == (1..defs.len() as u32).collect::<Vec<_>>(), "step {n} {o}: definitions() lists {all:?}");
        for (i, d) in b.pool.definitions() {
            ensure!(crate::defs::dump_def(d) == got[u32::from(i) as usize], "step {n} {o}: definitions() pairs {i} with another definition");
        }
        let roots: Vec<u32> = b.pool.roots().map(|(i, _)| i.into()).collect();
        let want: Vec<u32> = h.get("roots").arr().iter().map(u32of).collect();
        ensure!(roots == want, "step {n} {o}: roots {roots:?}, want {want:?}");
    }
    Ok(())
}
