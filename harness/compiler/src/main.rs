//! Binds the compiler to spec/RsSrc.tla (source text) and spec/RsVm.tla (what compiled code does).
#[path = "../../core/src/atoms.rs"]
#[allow(dead_code)]
mod atoms;
#[path = "../../core/src/instr.rs"]
#[allow(dead_code)]
mod instr;
#[path = "../../core/src/json.rs"]
#[allow(dead_code)]
mod json;
mod defs;
mod check;
mod dump;
mod image;
mod prog;

use std::io::{BufRead, Write};

use json::J;

type Record = fn(&J) -> J;

fn family(name: &str) -> Record {
    match name {
        "prog" => prog::record,
        "image" => image::record,
        "defs" => defs::record,
        "check" => check::record,
        _ => panic!("unknown family {name}"),
    }
}

/// vh-compiler record <family> <cases.ndjson> <out.ndjson>: what the compiler made of every case, one line each, for TLC to judge.
fn main() {
    let args: Vec<String> = std::env::args().collect();
    assert_eq!(args[1], "record");
    let f = family(&args[2]);
    if std::env::var("VH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let (cases, out) = (args[3].clone(), args[4].clone());
    let child = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut w = std::io::BufWriter::new(std::fs::File::create(out).expect("harness: out"));
        for (n, line) in std::io::BufReader::new(std::fs::File::open(cases).expect("harness: cases")).lines().enumerate() {
            let c = J::parse(&line.expect("harness: read")).unwrap_or_else(|e| panic!("harness: bad case {n}: {e}"));
            if c.get("k").str() == "env" {
                prog::set_env(&c);
                continue;
            }
            let mut r = f(&c);
            if let J::Obj(m) = &mut r {
                m.insert("case".into(), J::Int(n as i64));
            }
            writeln!(w, "{}", r.dump()).expect("harness: write");
        }
    });
    if let Err(p) = child.unwrap().join() {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_owned())).unwrap_or_default();
        eprintln!("HARNESS ERROR: {m}");
        std::process::exit(3);
    }
}
