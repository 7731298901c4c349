mod atoms;
mod bundle;
mod code;
mod decomp;
mod defs;
mod files;
mod instr;
mod json;
mod listing;
mod many;
mod mapper;
mod optsx;
mod pool;
mod streams;
mod text;
mod types;

use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use json::J;

type Run = fn(&J) -> Result<(), String>;

fn family(name: &str) -> Run {
    match name {
        "code.bytes" | "code.label" => code::bytes,
        "code.locs" => code::locs,
        "code.cut" => code::cut,
        "pool.strings" => pool::strings,
        "pool.defs" => pool::defs,
        "bundle.roundtrip" => bundle::roundtrip,
        "bundle.layout" => bundle::layout,
        "bundle.faults" => bundle::faults,
        "many.strings" => many::strings,
        "many.defs" => many::defs,
        "expr" => decomp::expr,
        "listing" => listing::run,
        "mapper" => mapper::run,
        "types" => types::run,
        "files" => files::run,
        "opts" => optsx::run,
        _ => panic!("unknown family {name}"),
    }
}

/// vh-core replay <family> <cases.ndjson> <report.json>: runs every case against the code in /repo.
/// A panic inside the code under test is an observation (a failure of that case); a case that does not come back within
/// 30 s ends the run with that case reported. Panics whose text starts with "harness:" are errors of the harness (exit 3).
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "opts" {
        return optsx::probe(&args[2..]);
    }
    if args[1] == "record" {
        return record(&args[2], &args[3], &args[4]);
    }
    let run = family(&args[2]);
    let input = std::io::BufReader::new(std::fs::File::open(&args[3]).expect("cases file"));
    let report = args[4].clone();
    std::panic::set_hook(Box::new(|_| {}));

    let started = Arc::new(Mutex::new((Instant::now(), 0u64, false)));
    let failures: Arc<Mutex<Vec<J>>> = Arc::new(Mutex::new(vec![]));
    let total = Arc::new(AtomicU64::new(0));
    {
        let (started, failures, total, report) = (started.clone(), failures.clone(), total.clone(), report.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let (at, line, busy) = *started.lock().unwrap();
            if busy && at.elapsed() > Duration::from_secs(30) {
                failures.lock().unwrap().push(J::obj(vec![
                    ("line", J::Int(line as i64)),
                    ("what", J::s("did not return within 30 s")),
                ]));
                finish(&report, total.load(Ordering::SeqCst), &failures.lock().unwrap());
                std::process::exit(0);
            }
        });
    }
    let child = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let progress = std::fs::File::create(format!("{report}.at")).expect("progress file");
            for (n, line) in input.lines().enumerate() {
                let line = line.expect("read");
                // survives an abort of the process, so that the case can be named
                let _ = std::os::unix::fs::FileExt::write_at(&progress, &(n as u64).to_le_bytes(), 0);
                let c = J::parse(&line).unwrap_or_else(|e| panic!("harness: bad case {n}: {e}"));
                *started.lock().unwrap() = (Instant::now(), n as u64, true);
                let res = catch_unwind(AssertUnwindSafe(|| run(&c)));
                started.lock().unwrap().2 = false;
                total.fetch_add(1, Ordering::SeqCst);
                let what = match res {
                    Ok(Ok(())) => continue,
                    Ok(Err(e)) => e,
                    Err(p) => {
                        let m = p
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_owned()))
                            .unwrap_or_default();
                        if m.starts_with("harness") {
                            eprintln!("HARNESS ERROR case {n}: {m}\n{line}");
                            std::process::exit(3);
                        }
                        format!("panicked: {m}")
                    }
                };
                let mut f = failures.lock().unwrap();
                if f.len() < 2000 {
                    f.push(J::obj(vec![("line", J::Int(n as i64)), ("what", J::s(what))]));
                }
            }
            finish(&report, total.load(Ordering::SeqCst), &failures.lock().unwrap());
        })
        .unwrap();
    if let Err(p) = child.join() {
        let m = p.downcast_ref::<String>().cloned().unwrap_or_default();
        eprintln!("HARNESS ERROR: {m}");
        std::process::exit(3);
    }
}

/// vh-core record <family> <cases.ndjson> <out.ndjson>: what the code made of every case, one line each, for TLC to judge.
fn record(family: &str, cases: &str, out: &str) {
    let f: fn(&J) -> J = match family {
        "flow" => decomp::record,
        "text" => decomp::record_text,
        "locals" => decomp::record_locals,
        "decl" => decomp::record_decl,
        _ => panic!("unknown family {family}"),
    };
    std::panic::set_hook(Box::new(|_| {}));
    let (cases, out) = (cases.to_owned(), out.to_owned());
    let child = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut w = std::io::BufWriter::new(std::fs::File::create(out).expect("harness: out"));
        for (n, line) in std::io::BufReader::new(std::fs::File::open(cases).expect("harness: cases")).lines().enumerate() {
            let c = J::parse(&line.expect("harness: read")).unwrap_or_else(|e| panic!("harness: bad case {n}: {e}"));
            if c.get("k").str() == "env" {
                decomp::set_env(&c);
                continue;
            }
            let mut r = f(&c);
            if let J::Obj(m) = &mut r {
                m.insert("case".into(), J::Int(n as i64));
            }
            writeln!(w, "{}", r.dump()).expect("harness: write");
        }
    });
    if child.unwrap().join().is_err() {
        std::process::exit(3);
    }
}

fn finish(path: &str, total: u64, failures: &[J]) {
    let mut f = std::fs::File::create(path).expect("report file");
    let j = J::obj(vec![("cases", J::Int(total as i64)), ("failures", J::Arr(failures.to_vec()))]);
    f.write_all(j.dump().as_bytes()).unwrap();
}
