//! Compiles the programs spec/GenProg.tla writes, stage by stage, each stage on the bundle the one before was saved as.
use std::cell::RefCell;
use std::io::Cursor;
use std::path::PathBuf;

use redscript::ast::Span;
use redscript::bundle::{ConstantPool, PoolIndex, ScriptBundle};
use redscript::definition::AnyDefinition;
use redscript_compiler::diagnostics::Diagnostic;
use redscript_compiler::source_map::Files;
use redscript_compiler::unit::CompilationUnit;

use crate::dump;
use crate::json::J;

const PREDEF: &[u8] = include_bytes!("/repo/resources/predef.redscripts");

thread_local! {
    static ENV: RefCell<Option<(Vec<u8>, u32)>> = const { RefCell::new(None) };
}

/// Tokens as text: a space between two tokens, except around "~" and before a comma.
pub fn text(tokens: &J) -> String {
    let mut out = String::new();
    let mut glue = true;
    for t in tokens.arr() {
        if t.str() == "~" {
            glue = true;
            continue;
        }
        if !glue && t.str() != "," {
            out.push(if out.ends_with(['{', '}', ';']) { '\n' } else { ' ' });
        }
        glue = false;
        out.push_str(t.str());
    }
    out
}

pub fn save(bundle: &ScriptBundle) -> Vec<u8> {
    let mut out = Cursor::new(vec![]);
    bundle.save(&mut out).expect("harness: save");
    out.into_inner()
}
pub fn load(bytes: &[u8]) -> ScriptBundle {
    ScriptBundle::load(&mut Cursor::new(bytes)).expect("harness: load")
}

/// The declarations every program may use; the operators whose second operand is evaluated on demand are marked afterwards,
/// as they are in the game's bundle (the language cannot say so).
pub fn set_env(c: &J) {
    let mut bundle = load(PREDEF);
    // index 0 means none: no constant may get it (the game's pools start with an empty one)
    bundle.pool.names.add("".into());
    bundle.pool.strings.add("".into());
    bundle.pool.tweakdb_ids.add("".into());
    bundle.pool.resources.add("".into());
    let (diags, _) = compile(&mut bundle.pool, &[text(c.get("prelude"))]).unwrap_or_else(|e| panic!("harness: prelude: {e}\n{}", text(c.get("prelude"))));
    assert!(diags.is_empty(), "harness: prelude: {diags:?}");
    for r in c.get("rename").arr() {
        let (old, new) = (r.arr()[0].str(), r.arr()[1].str());
        let i = bundle.pool.definitions().map(|(i, _)| i).find(|i| bundle.pool.def_name(*i).is_ok_and(|n| n.as_ref() == old)).expect("harness: rename");
        let n = bundle.pool.names.add(new.into());
        bundle.pool.rename(i, n);
    }
    let lazy: Vec<&str> = c.get("lazy").arr().iter().map(J::str).collect();
    let params: Vec<_> = bundle
        .pool
        .definitions()
        .filter_map(|(i, d)| match &d.value {
            AnyDefinition::Function(f) if lazy.contains(&bundle.pool.def_name(i).unwrap().as_ref()) => f.parameters.get(1).copied(),
            _ => None,
        })
        .collect();
    assert_eq!(params.len(), lazy.len(), "harness: lazy operators");
    for p in params {
        let mut d = bundle.pool.definition(p).unwrap().clone();
        if let AnyDefinition::Parameter(p) = &mut d.value {
            p.flags = p.flags.with_is_short_circuit(true);
        }
        bundle.pool.put_definition(p, d);
    }
    // the root of all classes has no base
    let root = bundle.pool.definitions().find(|(i, d)| matches!(&d.value, AnyDefinition::Class(c) if u32::from(c.base) == u32::from(*i))).map(|(i, _)| i);
    if let Some(i) = root {
        bundle.pool.class_mut(PoolIndex::new(i.into())).expect("harness: root").base = PoolIndex::UNDEFINED;
    }
    let n = bundle.pool.definitions().count() as u32 + 1;
    ENV.with(|e| *e.borrow_mut() = Some((save(&bundle), n)));
}

/// What is reported: fatal or not, and what kind.
fn diag(d: &Diagnostic) -> J {
    let kind = format!("{d:?}");
    let kind = kind.split(['(', ' ', '{']).next().unwrap().to_owned();
    J::obj(vec![
        ("fatal", J::Bool(d.is_fatal())),
        ("kind", J::s(kind)),
        ("code", J::s(d.code())),
        ("text", J::s(d.to_string())),
    ])
}

/// The bundle every program starts from.
pub fn base() -> Vec<u8> {
    ENV.with(|e| e.borrow().clone()).expect("harness: no env line").0
}

/// Diagnostics, and what the compiler says each definition came from: its name, and the line of source it points at.
#[allow(clippy::type_complexity)]
pub fn compile(pool: &mut ConstantPool, sources: &[String]) -> Result<(Vec<J>, Vec<J>), String> {
    let mut files = Files::new();
    for (n, s) in sources.iter().enumerate() {
        files.add(PathBuf::from(format!("file{n}.reds")), s.clone());
    }
    let unit = CompilationUnit::new_with_defaults(pool).map_err(|e| format!("{e:?}"))?;
    let out = unit.compile_files(&files).map_err(|e| format!("{e:?}"))?;
    let places = out
        .source_refs()
        .iter()
        .map(|r| {
            let pos = r.pos();
            let line = files.lookup(Span::new(pos, pos)).map_or("", |l| l.enclosing_line());
            let name = dump::name(pool, r.index().into());
            let words = line.split_whitespace().map(|w| J::s(w.to_owned())).collect();
            J::obj(vec![("name", J::s(name.split(';').next().unwrap().to_owned())), ("words", J::Arr(words))])
        })
        .collect();
    Ok((out.diagnostics().iter().map(diag).collect(), places))
}

pub fn record(c: &J) -> J {
    let (base, from) = ENV.with(|e| e.borrow().clone()).expect("harness: no env line");
    let (mut texts, mut diags, mut err) = (vec![], vec![], String::new());
    let mut bytes = base;
    for stage in c.get("stages").arr() {
        let sources: Vec<String> = stage.arr().iter().map(text).collect();
        texts.extend(sources.iter().map(|s| J::s(s.clone())));
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut bundle = load(&bytes);
            let (d, _) = compile(&mut bundle.pool, &sources)?;
            Ok::<_, String>((save(&bundle), d))
        }));
        match res {
            Ok(Ok((b, d))) => {
                bytes = b;
                diags.extend(d);
            }
            Ok(Err(e)) => err = e,
            Err(_) => err = "panicked".to_owned(),
        }
        if !err.is_empty() || diags.iter().any(|d| d.get("fatal").bool()) {
            break;
        }
    }
    let bundle = load(&bytes);
    let mut out = vec![("texts", J::Arr(texts)), ("diags", J::Arr(diags)), ("err", J::s(err))];
    out.extend(dump::pool(&bundle.pool, from));
    let mut j = J::obj(out);
    if let J::Obj(m) = &mut j {
        m.insert("prog".into(), c.get("prog").clone());
    }
    j
}
