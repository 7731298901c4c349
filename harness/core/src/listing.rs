//! The decompiler's bytecode listing, line by line: locals, then instructions.
use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::definition::Definition;
use redscript_decompiler::print::{write_definition, OutputMode};

use crate::defs::build_def;
use crate::json::J;

fn def(kind: &str, name: usize, more: Vec<(&str, J)>) -> Definition {
    let s = |v: &str| J::s(v);
    let mut kv = vec![("kind", s(kind)), ("name", J::s(name.to_string())), ("parent", s("0")), ("u1", s("0")), ("u2", s("0")), ("u3", s("0"))];
    kv.extend(more);
    build_def(&J::obj(kv))
}

/// Definition 2: type Int32, 3: type Foo, 4..: locals, then the function.
fn listing(c: &J) -> Result<String, String> {
    let (s, none) = (|v: &str| J::s(v), || J::Arr(vec![]));
    let mut pool = ConstantPool::default();
    let mut name = |pool: &mut ConstantPool, n: &str| u32::from(pool.names.add(n.to_owned().into())) as usize;
    name(&mut pool, "");
    let prim = |n| def("Type", n, vec![("type", s("Prim")), ("inner", s("0")), ("size", s("0"))]);
    let mut ixs = vec![];
    let add = |pool: &mut ConstantPool, d| u32::from(pool.add_definition::<Definition>(d));
    let placeholder = prim(0);
    add(&mut pool, placeholder);
    let types: Vec<(&str, u32)> = ["Int32", "Foo"]
        .into_iter()
        .map(|t| {
            let n = name(&mut pool, t);
            let d = prim(n);
            (t, add(&mut pool, d))
        })
        .collect();
    for l in c.get("locals").arr() {
        let ty = types.iter().find(|(t, _)| *t == l.get("type").str()).expect("harness: type").1;
        let n = name(&mut pool, l.get("name").str());
        let flags = if l.get("const").bool() { vec![s("is_const")] } else { vec![] };
        let d = def("Local", n, vec![("type", s(&ty.to_string())), ("flags", J::Arr(flags))]);
        ixs.push(J::s(add(&mut pool, d).to_string()));
    }
    let n = name(&mut pool, "Fun;");
    let d = def(
        "Function",
        n,
        vec![
            ("vis", s("Public")),
            ("flags", J::Arr(vec![s("has_body")])),
            ("source", J::Arr(vec![s("1"), s("1")])),
            ("ret", none()),
            ("unk1", J::Bool(false)),
            ("base", none()),
            ("params", none()),
            ("locals", J::Arr(ixs)),
            ("operator", none()),
            ("cast", s("0")),
            ("code", c.get("code").clone()),
            ("unk2", none()),
        ],
    );
    let f = add(&mut pool, d);
    let mut out = vec![];
    let d = pool.definition(PoolIndex::<Definition>::new(f)).map_err(|e| e.to_string())?;
    write_definition(&mut out, d, &pool, 0, OutputMode::Bytecode).map_err(|e| format!("no listing: {e}"))?;
    String::from_utf8(out).map_err(|e| e.to_string())
}

/// The operands on a line: numbers (truth values as 0 and 1) and quoted strings, in order.
fn operands(rest: &str) -> Vec<String> {
    let cs: Vec<char> = rest.chars().collect();
    let (mut out, mut at) = (vec![], 0);
    while at < cs.len() {
        let c = cs[at];
        let from = at;
        if c == '"' {
            at += 1;
            while at < cs.len() && cs[at] != '"' {
                at += if cs[at] == '\\' { 2 } else { 1 };
            }
            at += 1;
            out.push(cs[from..at.min(cs.len())].iter().collect());
        } else if c.is_ascii_digit() || (c == '-' && cs.get(at + 1).is_some_and(char::is_ascii_digit)) {
            at += 1;
            while at < cs.len() && (cs[at].is_ascii_alphanumeric() || ".+-".contains(cs[at])) {
                at += 1;
            }
            out.push(cs[from..at].iter().collect());
        } else if c.is_alphabetic() || c == '_' {
            while at < cs.len() && (cs[at].is_alphanumeric() || cs[at] == '_') {
                at += 1;
            }
            match cs[from..at].iter().collect::<String>().as_str() {
                "true" => out.push("1".to_owned()),
                "false" => out.push("0".to_owned()),
                _ => {}
            }
        } else {
            at += 1;
        }
    }
    out
}

fn same(op: &str, got: &str, want: &J) -> bool {
    match want {
        J::Int(i) => got == i.to_string(),
        _ if op == "F32Const" => got.parse::<f32>().ok() == want.text().parse::<f32>().ok(),
        _ if op == "F64Const" => got.parse::<f64>().ok() == want.text().parse::<f64>().ok(),
        _ if got.starts_with('"') => got.to_lowercase() == format!("{:?}", crate::atoms::atom(want.str())).to_lowercase(),
        _ => got == want.text(),
    }
}

pub fn run(c: &J) -> Result<(), String> {
    let text = listing(c)?;
    let all: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    let bad = |what: String| Err(format!("{what} in\n{text}"));
    let (locals, want) = (c.get("locals").arr(), c.get("want").arr());
    if all.len() != 2 + locals.len() + want.len() || !all[0].ends_with('{') || all[all.len() - 1] != "}" {
        return bad(format!("not {} locals and {} instructions in braces", locals.len(), want.len()));
    }
    let inside = &all[1..all.len() - 1];
    if let Some(l) = inside.iter().find(|l| l.len() - l.trim_start().len() != 2) {
        return bad(format!("indentation of {l:?}"));
    }
    for (l, line) in locals.iter().zip(inside) {
        let word = if l.get("const").bool() { "const" } else { "let" };
        let toks = crate::text::lex(line).toks;
        let want = [word, l.get("name").str(), ":", l.get("type").str(), ";"];
        if toks.iter().map(|t| t.get("v").text()).ne(want) {
            return bad(format!("want {want:?} got {line:?}"));
        }
    }
    for (w, line) in want.iter().zip(&inside[locals.len()..]) {
        let op = w.get("op").str();
        let Some((loc, rest)) = line.trim().split_once(": ") else { return bad(format!("no location in {line:?}")) };
        let end = rest.find(|c: char| !c.is_ascii_alphanumeric()).unwrap_or(rest.len());
        if loc != w.get("loc").int().to_string() || !rest[..end].eq_ignore_ascii_case(op) {
            return bad(format!("want {op} at {} got {line:?}", w.get("loc").int()));
        }
        let (got, args) = (operands(&rest[end..]), w.get("args").arr());
        if got.len() != args.len() || !got.iter().zip(args).all(|(g, a)| same(op, g, a)) {
            return bad(format!("operands of {op}: want {} got {got:?}", w.get("args").dump()));
        }
    }
    Ok(())
}
