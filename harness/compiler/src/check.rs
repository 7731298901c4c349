//! What the compiler says about the programs spec/GenCheck.tla writes: every diagnostic, and where it points.
use std::path::PathBuf;

use redscript_compiler::diagnostics::Diagnostic;
use redscript_compiler::error::Error;
use redscript_compiler::source_map::Files;
use redscript_compiler::unit::CompilationUnit;

use crate::json::J;
use crate::prog::{base, load, text};

fn diag(d: &Diagnostic, files: &Files, sources: &[String]) -> J {
    let kind = format!("{d:?}");
    let kind = kind.split(['(', ' ', '{']).next().unwrap().to_owned();
    let loc = files.lookup(d.span());
    let file = loc.as_ref().map_or(0, |l| (0..sources.len()).find(|n| l.file.path() == PathBuf::from(format!("file{n}.reds"))).map_or(0, |n| n + 1));
    let line = loc.as_ref().map_or(0, |l| l.start.line + 1);
    // what people see: the place, the line, and a mark under what is meant
    let mut out = String::new();
    let shown = file > 0 && line > 0 && d.display(files, &mut out).is_ok() && {
        let lines: Vec<&str> = out.lines().collect();
        let src = sources[file - 1].lines().nth(line - 1).unwrap_or("");
        let (from, to) = (loc.as_ref().unwrap().start.col, loc.as_ref().unwrap().end.col);
        let mark = lines.get(2).map_or("", |l| l.trim());
        lines.len() >= 4
            && lines[0].ends_with(&format!("At file{}.reds:{line}:{}:", file - 1, from + 1))
            && lines[1] == src.trim_end()
            && lines[2].find('^') == Some(from)
            && !mark.is_empty()
            && mark.chars().all(|c| c == '^')
            && (loc.as_ref().unwrap().end.line + 1 != line || (mark.len() == (to - from).max(1) && to <= src.len() + 1))
    };
    J::obj(vec![
        ("fatal", J::Bool(d.is_fatal())),
        ("kind", J::s(kind)),
        ("code", J::s(d.code())),
        ("file", J::Int(file as i64)),
        ("line", J::Int(line as i64)),
        ("shown", J::Bool(shown)),
        ("text", J::s(out)),
    ])
}

pub fn record(c: &J) -> J {
    let sources: Vec<String> = c.get("sources").arr().iter().map(text).collect();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut bundle = load(&base());
        let mut files = Files::new();
        for (n, s) in sources.iter().enumerate() {
            files.add(PathBuf::from(format!("file{n}.reds")), s.clone());
        }
        let out = CompilationUnit::new_with_defaults(&mut bundle.pool).and_then(|u| u.compile_files(&files));
        match out {
            Ok(out) => (String::new(), out.diagnostics().iter().map(|d| diag(d, &files, &sources)).collect()),
            Err(Error::CompileError(cause, _)) => (cause.code().to_owned(), vec![]),
            Err(e) => (format!("{e:?}"), vec![]),
        }
    }));
    let (hard, diags) = res.unwrap_or_else(|_| ("panicked".to_owned(), vec![]));
    J::obj(vec![
        ("texts", J::Arr(sources.iter().map(|s| J::s(s.clone())).collect())),
        ("hard", J::s(hard)),
        ("diags", J::Arr(diags)),
        ("prog", c.get("prog").clone()),
    ])
}
