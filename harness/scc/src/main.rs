//! Binds spec/RsScc.tla to scc-lib: an installation in a scratch directory, run after run.
#[path = "../../core/src/json.rs"]
#[allow(dead_code)]
mod json;
mod install;

use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

use json::J;

/// vh-scc replay <family> <cases.ndjson> <report.json>
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "run" {
        return install::run_once(&args[2..]);
    }
    assert_eq!(args[1], "replay");
    let run: fn(&J, &std::path::Path) -> Result<(), String> = match args[2].as_str() {
        "scc" => install::replay,
        "scc.stops" => install::stops,
        f => panic!("unknown family {f}"),
    };
    std::panic::set_hook(Box::new(|_| {}));
    let lines: Vec<String> = std::io::BufReader::new(std::fs::File::open(&args[3]).expect("cases")).lines().map(|l| l.expect("read")).collect();
    let (next, failures) = (AtomicUsize::new(0), Mutex::new(vec![]));
    let scratch = install::Scratch::new();
    std::thread::scope(|s| {
        for t in 0..8 {
            let (next, failures, lines, scratch) = (&next, &failures, &lines, &scratch);
            let dir = scratch.path().join(format!("t{t}"));
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || loop {
                    let n = next.fetch_add(1, Ordering::SeqCst);
                    let Some(line) = lines.get(n) else { break };
                    let c = J::parse(line).unwrap_or_else(|e| panic!("harness: bad case {n}: {e}"));
                    let what = match catch_unwind(AssertUnwindSafe(|| run(&c, &dir))) {
                        Ok(Ok(())) => continue,
                        Ok(Err(e)) => e,
                        Err(p) => {
                            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_owned())).unwrap_or_default();
                            if m.starts_with("harness") {
                                eprintln!("HARNESS ERROR case {n}: {m}\n{line}");
                                let _ = std::fs::remove_dir_all(scratch.path());
                                std::process::exit(3);
                            }
                            format!("panicked: {m}")
                        }
                    };
                    failures.lock().unwrap().push((n, what));
                })
                .expect("harness: thread");
        }
    });
    let mut failures = failures.into_inner().unwrap();
    failures.sort();
    failures.truncate(2000);
    let list = failures.into_iter().map(|(n, w)| J::obj(vec![("line", J::Int(n as i64)), ("what", J::s(w))])).collect();
    let report = J::obj(vec![("cases", J::Int(lines.len() as i64)), ("failures", J::Arr(list))]);
    std::fs::File::create(&args[4]).expect("report").write_all(report.dump().as_bytes()).expect("report");
}
