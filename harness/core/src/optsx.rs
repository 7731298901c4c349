//! Replays spec/GenOpts.tla: the command line of the script compiler.
#[path = "/repo/scc/cli/src/opts.rs"]
#[allow(dead_code)]
mod opts;

use opts::{fix_args, Opts};

use crate::code::ensure;
use crate::json::J;

pub fn show(o: &Opts) -> J {
    let p = |p: &Option<std::path::PathBuf>| match p {
        Some(p) => J::s(p.to_string_lossy()),
        None => J::s("~none"),
    };
    J::obj(vec![
        ("scripts_dir", J::s(o.scripts_dir.to_string_lossy())),
        ("cache_dir", p(&o.cache_dir)),
        ("cache_file", p(&o.cache_file)),
        ("output_cache_file", p(&o.output_cache_file)),
        ("script_paths_file", p(&o.script_paths_file)),
        ("optimize", J::Bool(o.optimize)),
        ("threads", J::Int(o.threads.into())),
        ("warnings", J::Arr(o.warnings.iter().map(J::s).collect())),
        ("no_testonly", J::Bool(o.no_testonly)),
        ("no_breakpoint", J::Bool(o.no_breakpoint)),
        ("profile", J::Bool(o.profile)),
        ("no_exec", J::Bool(o.no_exec)),
        ("no_debug", J::Bool(o.no_debug)),
    ])
}

pub fn load(args: &[String]) -> Result<J, String> {
    let v: Vec<&str> = args.iter().map(String::as_str).collect();
    Opts::load(&v).map(|o| show(&o)).map_err(|_| "refused".to_owned())
}

pub fn probe(args: &[String]) {
    println!("{:?}", load(args).map(|j| j.dump()));
    println!("fixed: {:?}", fix_args(args.to_vec()));
}

pub fn run(c: &J) -> Result<(), String> {
    let args: Vec<String> = c.get("args").arr().iter().map(|a| a.str().to_owned()).collect();
    match c.get("k").str() {
        "opts" => {
            let got = load(&args);
            if c.get("ok").bool() {
                let got = got.map_err(|_| format!("{args:?} was refused"))?;
                ensure!(got == *c.get("want"), "{args:?} parsed as {} want {}", got.dump(), c.get("want").dump());
            } else {
                ensure!(got.is_err(), "{args:?} was accepted: {}", got.unwrap().dump());
            }
        }
        "fix" => {
            let got = fix_args(args.clone());
            let want: Vec<String> = c.get("want").arr().iter().map(|a| a.str().to_owned()).collect();
            ensure!(got == want, "{args:?} fixed to {got:?} want {want:?}");
        }
        k => panic!("harness: {k}"),
    }
    Ok(())
}
