//! Replays spec/RsLang.tla and spec/RsFlow.tla: what the decompiler makes of bytecode.
use std::cell::RefCell;

use redscript::ast::{Constant, Expr, Literal, Seq, SourceAst, TypeName};
use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::bytecode::Code;
use redscript::definition::{Definition, Function};
use redscript_decompiler::print::{write_definition, OutputMode};
use redscript_decompiler::Decompiler;

use crate::defs::{build_pool, ix, lit, u32of};
use crate::instr::build;
use crate::json::J;

thread_local! {
    static ENV: RefCell<Option<ConstantPool>> = const { RefCell::new(None) };
}

/// The pool the cases refer to: the first line of a case file.
pub fn set_env(c: &J) {
    ENV.with(|e| *e.borrow_mut() = Some(build_pool(c.get("pool"))));
}

/// Puts the case's body into its function and hands the pool over.
pub fn with_body<A>(c: &J, f: impl FnOnce(&ConstantPool, PoolIndex<Function>) -> A) -> A {
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        let pool = e.as_mut().expect("harness: no env line");
        let idx: PoolIndex<Function> = ix(c.get("fn"));
        let fun = pool.function_mut(idx).expect("harness: fn");
        fun.code = Code::new(c.get("code").arr().iter().map(build).collect());
        fun.locals = c.get("locals").arr().iter().map(|l| PoolIndex::new(u32of(l))).collect();
        f(pool, idx)
    })
}

fn nd(t: &str, s: Vec<String>, k: Vec<J>) -> J {
    J::obj(vec![("t", J::s(t)), ("s", J::Arr(s.into_iter().map(J::s).collect())), ("k", J::Arr(k))])
}
fn ty(t: &TypeName) -> String {
    t.repr().to_string()
}
fn seq(s: &Seq<SourceAst>) -> J {
    nd("Seq", vec![], s.exprs.iter().map(ast).collect())
}
fn asts(es: &[Expr<SourceAst>]) -> Vec<J> {
    es.iter().map(ast).collect()
}

pub fn ast(e: &Expr<SourceAst>) -> J {
    match e {
        Expr::Ident(i, _) => nd("Ident", vec![i.to_string()], vec![]),
        Expr::Constant(c, _) => {
            let (t, v) = match c {
                Constant::String(Literal::String, s) => ("Str", s.to_string()),
                Constant::String(Literal::Name, s) => ("Name", s.to_string()),
                Constant::String(Literal::Resource, s) => ("Res", s.to_string()),
                Constant::String(Literal::TweakDbId, s) => ("Tweak", s.to_string()),
                Constant::F32(v) => ("F32", v.to_string()),
                Constant::F64(v) => ("F64", v.to_string()),
                Constant::I32(v) => ("I32", v.to_string()),
                Constant::I64(v) => ("I64", v.to_string()),
                Constant::U32(v) => ("U32", v.to_string()),
                Constant::U64(v) => ("U64", v.to_string()),
                Constant::Bool(v) => ("Bool", v.to_string()),
            };
            nd(t, vec![v], vec![])
        }
        Expr::ArrayLit(..) => nd("ArrayLit", vec![], vec![]),
        Expr::InterpolatedString(..) => nd("Interpolated", vec![], vec![]),
        Expr::Declare(n, t, v, _) => nd(
            "Declare",
            std::iter::once(n.to_string()).chain(t.iter().map(|t| ty(t))).collect(),
            v.iter().map(|v| ast(v)).collect(),
        ),
        Expr::Cast(t, e, _) => nd("Cast", vec![ty(t)], vec![ast(e)]),
        Expr::Assign(l, r, _) => nd("Assign", vec![], vec![ast(l), ast(r)]),
        Expr::Call(n, ts, a, _) => nd("Call", std::iter::once(n.to_string()).chain(ts.iter().map(ty)).collect(), asts(a)),
        Expr::MethodCall(o, n, a, _) => {
            nd("Method", vec![n.to_string()], std::iter::once(ast(o)).chain(asts(a)).collect())
        }
        Expr::Member(o, n, _) => nd("Member", vec![n.to_string()], vec![ast(o)]),
        Expr::ArrayElem(a, i, _) => nd("Elem", vec![], vec![ast(a), ast(i)]),
        Expr::New(t, a, _) => nd("New", vec![ty(t)], asts(a)),
        Expr::Return(v, _) => nd("Return", vec![], v.iter().map(|v| ast(v)).collect()),
        Expr::Seq(s) => seq(s),
        Expr::Switch(s, cases, default, _) => {
            let mut k = vec![ast(s)];
            k.extend(cases.iter().map(|c| nd("Case", vec![], vec![ast(&c.matcher), seq(&c.body)])));
            k.extend(default.iter().map(|d| nd("Default", vec![], vec![seq(d)])));
            nd("Switch", vec![], k)
        }
        Expr::Goto(t, _) => nd("Goto", vec![t.position.to_string()], vec![]),
        Expr::If(c, t, f, _) => {
            let mut k = vec![ast(c), seq(t)];
            k.extend(f.iter().map(seq));
            nd("If", vec![], k)
        }
        Expr::Conditional(c, t, f, _) => nd("Cond", vec![], vec![ast(c), ast(t), ast(f)]),
        Expr::While(c, b, _) => nd("While", vec![], vec![ast(c), seq(b)]),
        Expr::ForIn(..) => nd("ForIn", vec![], vec![]),
        Expr::BinOp(l, r, o, _) => nd("BinOp", vec![o.to_string()], vec![ast(l), ast(r)]),
        Expr::UnOp(e, o, _) => nd("UnOp", vec![o.to_string()], vec![ast(e)]),
        Expr::This(_) => nd("This", vec![], vec![]),
        Expr::Super(_) => nd("Super", vec![], vec![]),
        Expr::Break(_) => nd("Break", vec![], vec![]),
        Expr::Null(_) => nd("Null", vec![], vec![]),
    }
}

pub fn decompile(pool: &ConstantPool, idx: PoolIndex<Function>) -> Result<Vec<J>, String> {
    let def: &Definition = pool.definition(idx).map_err(|e| format!("harness: {e}"))?;
    let fun = pool.function(idx).map_err(|e| format!("harness: {e}"))?;
    Decompiler::decompiled(fun, def, pool).map(|s| asts(&s.exprs)).map_err(|e| format!("decompilation failed: {e}"))
}

/// The body decompiles to exactly the statements the specification gives.
pub fn expr(c: &J) -> Result<(), String> {
    if c.get("k").str() == "env" {
        set_env(c);
        return Ok(());
    }
    let got = J::Arr(with_body(c, decompile)?);
    let want = lit(c.get("want"));
    if got != want {
        return Err(format!("want {} got {}", want.dump(), got.dump()));
    }
    Ok(())
}

/// What the decompiler makes of the case, together with what it was given.
pub fn record(c: &J) -> J {
    let (ast, err) = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| with_body(c, decompile))) {
        Ok(Ok(ast)) => (ast, String::new()),
        Ok(Err(e)) => (vec![], e),
        Err(_) => (vec![], "panicked".to_owned()),
    };
    J::obj(vec![
        ("fn", c.get("fn").clone()),
        ("code", c.get("code").clone()),
        ("locals", c.get("locals").clone()),
        ("ast", J::Arr(ast)),
        ("err", J::s(err)),
    ])
}

/// The same, with what the specification expects of it.
pub fn record_locals(c: &J) -> J {
    let mut r = record(c);
    if let J::Obj(m) = &mut r {
        m.insert("want".into(), lit(c.get("want")));
    }
    r
}

/// The text of the case's function, with and without the conversions that are usually left out, and the tree it was printed from.
pub fn record_text(c: &J) -> J {
    let print = |verbose: bool| {
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            with_body(c, |pool, idx| {
                let mut out = vec![];
                write_definition(&mut out, pool.definition(idx).unwrap(), pool, 0, OutputMode::Code { verbose }).map_err(|e| e.to_string())?;
                String::from_utf8(out).map_err(|e| e.to_string())
            })
        }));
        match res {
            Ok(Ok(text)) => (text, String::new()),
            Ok(Err(e)) => (String::new(), e),
            Err(_) => (String::new(), "panicked".to_owned()),
        }
    };
    let mut r = record(c);
    let texts: Vec<J> = [false, true]
        .into_iter()
        .map(|verbose| {
            let (text, err) = print(verbose);
            let mut j = crate::text::lex(&text).json();
            if let J::Obj(m) = &mut j {
                m.insert("verbose".into(), J::Bool(verbose));
                m.insert("err".into(), J::s(err));
                m.insert("text".into(), J::s(text));
            }
            j
        })
        .collect();
    if let J::Obj(m) = &mut r {
        m.insert("texts".into(), J::Arr(texts));
        m.remove("code");
    }
    r
}

/// Every definition of the case's pool as text, and the ones a file lists one after the other.
pub fn record_decl(c: &J) -> J {
    let pool = build_pool(c.get("pool"));
    let print = |i: usize| {
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut out = vec![];
            let idx = PoolIndex::<Definition>::new(i as u32);
            write_definition(&mut out, pool.definition(idx).unwrap(), &pool, 0, OutputMode::Code { verbose: false }).map_err(|e| e.to_string())?;
            String::from_utf8(out).map_err(|e| e.to_string())
        }));
        match res {
            Ok(Ok(text)) => (text, String::new()),
            Ok(Err(e)) => (String::new(), e),
            Err(_) => (String::new(), "panicked".to_owned()),
        }
    };
    let shown = |ix: Vec<J>, text: String, err: String| {
        let mut j = crate::text::lex(&text).json();
        if let J::Obj(m) = &mut j {
            m.insert("ix".into(), J::Arr(ix));
            m.insert("err".into(), J::s(err));
            m.insert("text".into(), J::s(text));
        }
        j
    };
    let mut texts = vec![];
    for i in c.get("show").arr() {
        let (text, err) = print(u32of(i) as usize);
        texts.push(shown(vec![i.clone()], text, err));
    }
    let unit = c.get("unit").arr();
    let all: Vec<(String, String)> = unit.iter().map(|i| print(u32of(i) as usize)).collect();
    let text = all.iter().map(|(t, _)| t.as_str()).collect::<String>();
    let err = all.iter().map(|(_, e)| e.as_str()).collect::<String>();
    texts.push(shown(unit.to_vec(), text, err));
    let mut r = c.clone();
    if let J::Obj(m) = &mut r {
        m.insert("pool".into(), lit_strings(c.get("pool")));
        m.insert("texts".into(), J::Arr(texts));
    }
    r
}

/// Atoms expanded, everything else as it was.
fn lit_strings(v: &J) -> J {
    match v {
        J::Str(s) => J::s(crate::atoms::atom(s)),
        J::Arr(a) => J::Arr(a.iter().map(lit_strings).collect()),
        J::Obj(m) => J::Obj(m.iter().map(|(k, v)| (k.clone(), lit_strings(v))).collect()),
        o => o.clone(),
    }
}
