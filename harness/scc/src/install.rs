//! An installation: its files, runs of the compiler on it, and what can be seen of it afterwards.
use std::collections::HashMap;
use std::fs;
use std::io::Cursor;
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use redscript::bundle::{ConstantPool, PoolIndex, ScriptBundle};
use redscript::definition::{AnyDefinition, Class, ClassFlags, Definition, Visibility};
use redscript::Ref;
use scc_lib::api::{SccResult, SccSettings};

use crate::json::J;

/// A directory of its own, gone afterwards.
pub struct Scratch(PathBuf);
impl Scratch {
    pub fn new() -> Self {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let dir = base.join(format!("vh-scc-{}", std::process::id()));
        fs::create_dir_all(&dir).expect("harness: scratch");
        Self(dir)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

const BUNDLES: [(&str, &str); 5] = [
    ("D/final", "r6/cache/final.redscripts"),
    ("D/backup", "r6/cache/final.redscripts.bk"),
    ("C/final", "r6/modded/tweaked.redscripts"),
    ("C/backup", "r6/modded/tweaked.redscripts.bk"),
    ("O", "out/other.redscripts"),
];
const STAMPS: [(&str, &str); 4] = [
    ("D/stamp", "r6/cache/final.redscripts.ts"),
    ("D/legacy", "r6/cache/redscript.ts"),
    ("C/stamp", "r6/modded/tweaked.redscripts.ts"),
    ("C/legacy", "r6/modded/redscript.ts"),
];
const SIGNATURE: &str = "$REDSCRIPT_SIGNATURE";

/// The game's own bundle of a version; or one that another tool made of it with mods.
fn bundle(content: &str) -> Vec<u8> {
    let mut b = ScriptBundle::load(&mut Cursor::new(include_bytes!("/repo/resources/predef.redscripts").as_slice())).expect("harness: predef");
    let (version, mods) = content.split_once('+').map_or((content, None), |(v, m)| (v, Some(m)));
    for n in ["IScriptable".to_owned(), format!("Vanilla{version}")].into_iter().chain(mods.unwrap_or("").chars().map(|m| format!("Mod{m}"))) {
        class(&mut b.pool, &n);
    }
    if mods.is_some() {
        class(&mut b.pool, SIGNATURE);
    }
    let mut out = Cursor::new(vec![]);
    b.save(&mut out).expect("harness: save");
    out.into_inner()
}
fn class(pool: &mut ConstantPool, name: &str) {
    let name = pool.names.add(Ref::from(name.to_owned()));
    let class = Class { visibility: Visibility::Public, flags: ClassFlags::new(), base: PoolIndex::UNDEFINED, functions: vec![], fields: vec![], overrides: vec![] };
    pool.add_definition::<Class>(Definition::class(name, class));
}

/// What a bundle is: its version, and what was compiled into it.
fn content(path: &Path) -> String {
    let Ok(bytes) = fs::read(path) else { return "-".to_owned() };
    let Ok(b) = ScriptBundle::load(&mut Cursor::new(bytes.as_slice())) else { return "bad".to_owned() };
    let (mut version, mut mods, mut ours) = (String::new(), vec![], 0);
    for (_, d) in b.pool.definitions() {
        let Ok(name) = b.pool.names.get(d.name) else { return "bad".to_owned() };
        if name.as_ref() == SIGNATURE {
            ours += 1;
        } else if let AnyDefinition::Class(_) = d.value {
            if let Some(v) = name.strip_prefix("Vanilla") {
                version += v;
            } else if let Some(m) = name.strip_prefix("Mod") {
                mods.push(m.to_owned());
            }
        }
    }
    // the header comes last: until then it reads as a bundle of nothing
    if version.is_empty() {
        return "bad".to_owned();
    }
    mods.sort();
    format!("{version}{}{}", "+".repeat(ours), mods.concat())
}

fn nanos(path: &Path) -> Option<u128> {
    let t = fs::metadata(path).ok()?.modified().ok()?;
    Some(t.duration_since(UNIX_EPOCH).ok()?.as_nanos())
}
fn stamp(path: &Path, t: SystemTime) {
    fs::File::options().write(true).open(path).and_then(|f| f.set_modified(t)).expect("harness: set time");
}

pub struct Install {
    root: PathBuf,
    /// times given out so far, in seconds after some day long past
    clock: u64,
}
impl Install {
    pub fn at(&self, p: &str) -> PathBuf {
        let (_, file) = BUNDLES.iter().chain(&STAMPS).find(|(n, _)| *n == p).unwrap_or_else(|| panic!("harness: place {p}"));
        self.root.join(file)
    }
    fn tick(&mut self) -> SystemTime {
        self.clock += 1;
        UNIX_EPOCH + Duration::from_secs(1_000_000 + self.clock)
    }
    pub fn put(&mut self, p: &str, c: &str) {
        let (path, t) = (self.at(p), self.tick());
        fs::create_dir_all(path.parent().unwrap()).expect("harness: mkdir");
        fs::write(&path, bundle(c)).expect("harness: write");
        stamp(&path, t);
    }
    pub fn start(root: &Path, old: bool) -> Self {
        let _ = fs::remove_dir_all(root);
        let mut i = Self { root: root.to_owned(), clock: 0 };
        for d in ["r6/cache", "r6/scripts", "out"] {
            fs::create_dir_all(root.join(d)).expect("harness: mkdir");
        }
        if old {
            i.put("D/backup", "1");
            i.put("D/final", "1+a");
            fs::write(i.at("D/legacy"), nanos(&i.at("D/final")).unwrap().to_le_bytes()).expect("harness: write");
        } else {
            i.put("D/final", "1");
        }
        i
    }
    /// The sources there are: one directory for each mod.
    pub fn mods(&self, mods: &str) {
        let dir = self.root.join("r6/scripts");
        fs::remove_dir_all(&dir).expect("harness: scripts");
        fs::create_dir_all(&dir).expect("harness: scripts");
        for m in mods.chars() {
            let d = dir.join(m.to_string());
            fs::create_dir_all(&d).expect("harness: mkdir");
            let text = if m == '!' { "func Broken( {".to_owned() } else { format!("public class Mod{m} {{}}\n") };
            fs::write(d.join("mod.reds"), text).expect("harness: write");
            fs::write(d.join("notes.txt"), "not a script").expect("harness: write");
        }
    }
    pub fn settings(&self, dir: &str, out: &str) -> SccSettings {
        let custom = dir == "C" || out != "";
        let output = if out != "" { Some(self.at(out)) } else if dir == "C" { Some(self.at("C/final")) } else { None };
        SccSettings {
            r6_dir: self.root.join("r6").into(),
            custom_cache_file: custom.then(|| self.at(&format!("{dir}/final")).into()),
            output_cache_file: output.map(PathBuf::into_boxed_path),
            additional_script_paths: vec![],
        }
    }
    /// Waits until the file system's clock has moved past every time there is; then two runs never write at the same time.
    pub fn wait(&self) {
        let latest = BUNDLES.iter().filter_map(|(p, _)| nanos(&self.at(p))).max().unwrap_or(0);
        let probe = self.root.join("probe");
        loop {
            fs::write(&probe, b"x").expect("harness: probe");
            if nanos(&probe).expect("harness: probe") > latest {
                break;
            }
            std::thread::sleep(Duration::from_micros(500));
        }
    }
    /// The clock may not have moved within a run: what else was written at the time of the output gets a time of its own.
    pub fn settle(&mut self, out: &str) {
        let Some(t) = nanos(&self.at(out)) else { return };
        for (p, _) in BUNDLES {
            if p != out && nanos(&self.at(p)) == Some(t) {
                let other = self.tick();
                stamp(&self.at(p), other);
            }
        }
    }
    pub fn compile(&mut self, dir: &str, out: &str, mods: &str) -> bool {
        self.mods(mods);
        self.wait();
        let res = scc_lib::compile(&self.settings(dir, out));
        let ok = matches!(*res, SccResult::Success(_));
        if let SccResult::Error(e) = &*res {
            // whoever ran it reads this
            let _ = e.to_string();
        }
        self.settle(&if out == "" { format!("{dir}/final") } else { out.to_owned() });
        ok
    }
    pub fn seen(&self) -> HashMap<String, String> {
        let mut out: HashMap<String, String> = BUNDLES.iter().map(|(p, _)| ((*p).to_owned(), content(&self.at(p)))).collect();
        for (p, _) in STAMPS {
            let v = match fs::read(self.at(p)) {
                Err(_) => "-".to_owned(),
                Ok(b) if b.is_empty() => "empty".to_owned(),
                Ok(b) => {
                    let t = <[u8; 16]>::try_from(b.as_slice()).ok().map(u128::from_le_bytes);
                    BUNDLES.iter().find(|(q, _)| t.is_some() && nanos(&self.at(q)) == t).map_or("other".to_owned(), |(q, _)| (*q).to_owned())
                }
            };
            out.insert(p.to_owned(), v);
        }
        out
    }
}

/// Bundles are compared; what stamp files hold matters only for what runs later do (and is shown with a failure).
fn differences(want: &J, got: &HashMap<String, String>) -> Vec<String> {
    let mut out = vec![];
    for (p, _) in BUNDLES {
        let w = want.get("has").get(p).str();
        if w != got[p] {
            out.push(format!("{p} is {:?}, not {w:?}", got[p]));
        }
    }
    out
}

/// One history, step by step.
pub fn replay(c: &J, root: &Path) -> Result<(), String> {
    let steps = c.get("hist").arr();
    let mut i = Install::start(root, steps[0].get("act").get("old").bool());
    for (n, step) in steps.iter().enumerate() {
        let a = step.get("act");
        let kind = a.get("a").str();
        match kind {
            "start" => {}
            "put" => i.put(a.get("p").str(), a.get("c").str()),
            "remove" => fs::remove_file(i.at(a.get("p").str())).map_err(|e| format!("step {n}: nothing to remove at {}: {e}", a.get("p").str()))?,
            "compile" => {
                let ok = i.compile(a.get("dir").str(), a.get("out").str(), a.get("mods").str());
                let want = step.get("res").str();
                if ok != want.is_empty() {
                    return Err(format!("step {n} {}: {}", a.dump(), if ok { format!("succeeded, should be {want}") } else { "failed".to_owned() }));
                }
            }
            _ => panic!("harness: action {kind}"),
        }
        let d = differences(step.get("seen"), &i.seen());
        if !d.is_empty() {
            return Err(format!("step {n} {}: {}", a.dump(), d.join("; ") + &format!(" ({:?})", i.seen())));
        }
    }
    Ok(())
}

/// vh-scc run <root> <dir> <out>: one run, for the shim to interrupt. Ends with 0 if it says it succeeded, with 1 if not.
pub fn run_once(args: &[String]) {
    let i = Install { root: PathBuf::from(&args[0]), clock: 0 };
    let res = scc_lib::compile(&i.settings(&args[1], &args[2]));
    std::process::exit(if matches!(*res, SccResult::Success(_)) { 0 } else { 1 });
}

/// A copy of an installation, times included.
fn copy_tree(from: &Path, to: &Path) {
    fs::create_dir_all(to).expect("harness: mkdir");
    for e in fs::read_dir(from).expect("harness: dir") {
        let e = e.expect("harness: dir");
        let (src, dst) = (e.path(), to.join(e.file_name()));
        if src.is_dir() {
            copy_tree(&src, &dst);
        } else {
            fs::copy(&src, &dst).expect("harness: copy");
            stamp(&dst, fs::metadata(&src).and_then(|m| m.modified()).expect("harness: time"));
        }
    }
}

/// A run that stops, or fails, at each of its calls in turn: what it leaves must be a state the specification's run goes through,
/// and the next run must do what it does from there.
pub fn stops(c: &J, root: &Path) -> Result<(), String> {
    let (before, after) = (root.join("before"), root.join("after"));
    let hit = root.join("hit");
    let steps = c.get("hist").arr();
    let mut i = Install::start(&before, steps[0].get("act").get("old").bool());
    for step in &steps[1..] {
        let a = step.get("act");
        match a.get("a").str() {
            "put" => i.put(a.get("p").str(), a.get("c").str()),
            "remove" => fs::remove_file(i.at(a.get("p").str())).map_err(|e| format!("nothing to remove at {}: {e}", a.get("p").str()))?,
            "compile" => {
                i.compile(a.get("dir").str(), a.get("out").str(), a.get("mods").str());
            }
            k => panic!("harness: action {k}"),
        }
    }
    let act = c.get("act");
    let (dir, out) = (act.get("dir").str(), act.get("out").str());
    i.mods(act.get("mods").str());
    i.wait();
    let target = if out == "" { format!("{dir}/final") } else { out.to_owned() };
    let exe = std::env::current_exe().expect("harness: exe");
    let shim = exe.with_file_name("libvhshim.so");
    let outcomes = c.get("outcomes").arr();
    for mode in ["kill", "half", "fail", "once"] {
        for n in 1.. {
            assert!(n < 500, "harness: a run without end");
            let _ = fs::remove_dir_all(&after);
            let _ = fs::remove_file(&hit);
            copy_tree(&before, &after);
            let status = std::process::Command::new(&exe)
                .args(["run", after.to_str().unwrap(), dir, out])
                .env("LD_PRELOAD", &shim)
                .env("VH_STOP", format!("{n}:{mode}"))
                .env("VH_HIT", &hit)
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status()
                .expect("harness: run");
            let code = status.code().ok_or_else(|| format!("{} {n}:{mode}: {status}", act.dump()))?;
            let mut j = Install { root: after.clone(), clock: i.clock };
            j.settle(&target);
            let seen = j.seen();
            let fits: Vec<&J> = outcomes.iter().filter(|o| differences(o.get("seen"), &seen).is_empty()).collect();
            let what = || format!("{} interrupted ({n}:{mode}, ended with {code})", act.dump());
            if fits.is_empty() {
                return Err(format!("{}: left {seen:?}", what()));
            }
            if code == 0 && mode == "once" && hit.exists() {
                return Err(format!("{}: says it succeeded although a call failed", what()));
            }
            if code == 0 && c.get("res").str().is_empty() && !differences(outcomes.last().unwrap().get("seen"), &seen).is_empty() {
                return Err(format!("{}: says it succeeded, but left {seen:?}", what()));
            }
            let ok = j.compile(dir, out, c.get("then").str());
            let again = j.seen();
            if !fits.iter().any(|o| ok == o.get("res").str().is_empty() && differences(o.get("then"), &again).is_empty()) {
                return Err(format!("{}: left {seen:?}; the next run {}, leaving {again:?}", what(), if ok { "succeeded" } else { "failed" }));
            }
            // the call was not reached: the run went through
            if !hit.exists() {
                break;
            }
        }
    }
    Ok(())
}
