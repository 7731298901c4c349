//! Replays spec/GenBundle.tla: the file the implementation writes is the file the specification describes, and loading it
//! gives back the pool.
use std::io::Cursor;

use redscript::bundle::{PoolIndex, ScriptBundle};

use crate::atoms::{atom, diff_bytes, render};
use crate::code::ensure;
use crate::defs::{build_pool, dump_defs, lit};
use crate::json::J;
use crate::streams::{Drip, Trickle};

pub fn load(bytes: &[u8]) -> Result<ScriptBundle, String> {
    ScriptBundle::load(&mut Cursor::new(bytes)).map_err(|e| format!("load failed: {e}"))
}
pub fn save(b: &ScriptBundle) -> Result<Vec<u8>, String> {
    let mut out = Cursor::new(vec![]);
    b.save(&mut out).map_err(|e| format!("save failed: {e}"))?;
    Ok(out.into_inner())
}

macro_rules! table {
    ($strings:expr, $want:expr, $what:expr, $skip0:expr) => {{
        let want: Vec<String> = $want.arr().iter().map(|s| atom(s.str())).collect();
        for (i, w) in want.iter().enumerate() {
            let got = $strings.get(PoolIndex::new(i as u32)).map(|s| s.to_string());
            let exp: &str = if $skip0 && i == 0 { "None" } else { w };
            ensure!(got.as_deref().ok() == Some(exp), "{}[{i}]: want {exp:?}, got {got:?}", $what);
            let got = $strings.get_ref(PoolIndex::new(i as u32)).map(str::to_owned);
            ensure!(got.as_deref().ok() == Some(exp), "{}[{i}] by reference: want {exp:?}, got {got:?}", $what);
            let back = $strings.get_index(w).map(u32::from);
            ensure!(back == Some(i as u32), "{} index of {w:?}: want {i}, got {back:?}", $what);
        }
        ensure!($strings.get(PoolIndex::new(want.len().max(1) as u32)).is_err(), "{} has entries beyond {}", $what, want.len());
    }};
}

pub fn check_pool(b: &ScriptBundle, want: &J) -> Result<(), String> {
    table!(b.pool.names, want.get("names"), "names", true);
    table!(b.pool.tweakdb_ids, want.get("tweaks"), "tweakdb ids", false);
    table!(b.pool.resources, want.get("ress"), "resources", false);
    table!(b.pool.strings, want.get("strs"), "strings", false);
    let got = dump_defs(&b.pool);
    let want: Vec<J> = want.get("defs").arr().iter().map(lit).collect();
    ensure!(got.len() == want.len(), "{} definitions, want {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        ensure!(g == w, "definition {i}: want {} got {}", w.dump(), g.dump());
    }
    Ok(())
}

/// What is saved is what loads back, whatever the bytes in between.
pub fn roundtrip(c: &J) -> Result<(), String> {
    let mut fresh = crate::pool::skeleton();
    fresh.pool = build_pool(c.get("raw"));
    let bytes = save(&fresh)?;
    let loaded = load(&bytes)?;
    check_pool(&loaded, c.get("pool")).map_err(|e| format!("after saving and loading: {e}"))?;
    let slow = ScriptBundle::load(&mut Trickle::new(&bytes)).map_err(|e| format!("load from a trickling stream: {e}"))?;
    check_pool(&slow, c.get("pool")).map_err(|e| format!("after a trickled load: {e}"))?;
    let again = save(&loaded)?;
    ensure!(again == bytes, "saving what was loaded gives another file: {}", diff_bytes(&bytes, &again));
    let twice = load(&again)?;
    check_pool(&twice, c.get("pool")).map_err(|e| format!("after saving and loading twice: {e}"))?;
    Ok(())
}

/// The file is, byte for byte, the one the specification lays out, and the specified file is read.
pub fn layout(c: &J) -> Result<(), String> {
    let want = render(c.get("bytes").arr());
    let loaded = load(&want)?;
    check_pool(&loaded, c.get("pool")).map_err(|e| format!("after loading the specified file: {e}"))?;
    let again = save(&loaded)?;
    ensure!(again == want, "loading and saving changed the file: {}", diff_bytes(&want, &again));
    let mut fresh = loaded;
    fresh.pool = build_pool(c.get("raw"));
    let got = save(&fresh)?;
    ensure!(got == want, "saved file: {}", diff_bytes(&want, &got));
    let mut drip = Drip::new(None);
    fresh.save(&mut drip).map_err(|e| format!("save to a short-writing stream failed: {e}"))?;
    let got = drip.inner.into_inner();
    ensure!(got == want, "saved file (short writes): {}", diff_bytes(&want, &got));
    Ok(())
}

/// Truncated files, damaged tags and failing streams are errors: no value, no panic, no silent success.
pub fn faults(c: &J) -> Result<(), String> {
    let want = render(c.get("bytes").arr());
    let fresh = load(&want)?;
    // a stream that takes or gives only a part at a time is no fault
    let slow = ScriptBundle::load(&mut Trickle::new(&want)).map_err(|e| format!("load from a trickling stream: {e}"))?;
    check_pool(&slow, c.get("pool")).map_err(|e| format!("after a trickled load: {e}"))?;
    let mut out = Drip::new(None);
    fresh.save(&mut out).map_err(|e| format!("save to a short-writing stream failed: {e}"))?;
    let got = out.inner.into_inner();
    ensure!(got == want, "saved file (short writes): {}", diff_bytes(&want, &got));
    for n in 0..want.len() {
        let cut = &want[..n];
        let res = std::panic::catch_unwind(|| load(cut).is_err());
        ensure!(matches!(res, Ok(true)), "the first {n} of {} bytes were not refused ({})", want.len(), how(&res));
        let mut out = Drip::new(Some(n));
        let res = fresh.save(&mut out);
        ensure!(res.is_err(), "save reported success though the stream failed after {n} of {} bytes", want.len());
    }
    for bad in c.get("bad").arr() {
        let (at, v) = (bad.arr()[0].int() as usize, bad.arr()[1].int() as u8);
        let mut b = want.clone();
        b[at] = v;
        let res = std::panic::catch_unwind(|| load(&b).is_err());
        ensure!(matches!(res, Ok(true)), "a file with byte {at} = {v} was not refused ({})", how(&res));
    }
    Ok(())
}
fn how<A>(r: &std::thread::Result<A>) -> &'static str {
    if r.is_ok() { "loaded" } else { "panicked" }
}
