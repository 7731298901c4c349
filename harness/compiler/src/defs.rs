//! What a compilation defined, declaration by declaration, as spec/RsDefs.tla says it: names in full, flags by name.
use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::bytecode::Instr;
use redscript::definition::{AnyDefinition, Class, Enum, Field, Function, Parameter};

use crate::dump::name;
use crate::json::J;

fn flags(all: &[(&str, bool)]) -> J {
    J::Arr(all.iter().filter(|(_, on)| *on).map(|(n, _)| J::s((*n).to_owned())).collect())
}
fn strs<A>(pool: &ConstantPool, ixs: &[PoolIndex<A>]) -> J {
    J::Arr(ixs.iter().map(|i| J::s(name(pool, u32::from(*i)))).collect())
}
fn s(x: impl ToString) -> J {
    J::s(x.to_string())
}

fn class(pool: &ConstantPool, c: &Class) -> Vec<(&'static str, J)> {
    vec![
        ("k", s("class")),
        ("vis", s(c.visibility)),
        (
            "flags",
            flags(&[
                ("native", c.flags.is_native()),
                ("abstract", c.flags.is_abstract()),
                ("final", c.flags.is_final()),
                ("struct", c.flags.is_struct()),
                ("importonly", c.flags.is_import_only()),
                ("test", c.flags.is_test_only()),
                ("overrides", c.flags.has_overrides()),
            ]),
        ),
        ("base", s(if c.base.is_undefined() { String::new() } else { name(pool, c.base.into()) })),
        ("fields", strs(pool, &c.fields)),
        ("fns", strs(pool, &c.functions)),
    ]
}

fn field(pool: &ConstantPool, f: &Field) -> Vec<(&'static str, J)> {
    let pairs = |ps: &[redscript::definition::Property]| J::Arr(ps.iter().map(|p| J::Arr(vec![s(&p.name), s(&p.value)])).collect());
    vec![
        ("k", s("field")),
        ("vis", s(f.visibility)),
        ("type", s(name(pool, f.type_.into()))),
        (
            "flags",
            flags(&[
                ("native", f.flags.is_native()),
                ("editable", f.flags.is_editable()),
                ("inline", f.flags.is_inline()),
                ("const", f.flags.is_const()),
                ("replicated", f.flags.is_replicated()),
                ("hint", f.flags.has_hint()),
                ("instance editable", f.flags.is_instance_editable()),
                ("persistent", f.flags.is_persistent()),
                ("test", f.flags.is_test_only()),
                ("browsable", f.flags.is_browsable()),
            ]),
        ),
        ("attrs", pairs(&f.attributes)),
        ("defaults", pairs(&f.defaults)),
    ]
}

fn param(pool: &ConstantPool, i: PoolIndex<Parameter>) -> J {
    let p = pool.parameter(i).expect("harness: parameter");
    J::obj(vec![
        ("name", s(name(pool, i.into()))),
        ("type", s(name(pool, p.type_.into()))),
        (
            "flags",
            flags(&[("opt", p.flags.is_optional()), ("out", p.flags.is_out()), ("const", p.flags.is_const()), ("lazy", p.flags.is_short_circuit())]),
        ),
    ])
}

fn function(pool: &ConstantPool, f: &Function) -> Vec<(&'static str, J)> {
    let uses = f.code.as_ref().iter().filter_map(|i| used(pool, i)).map(s).collect();
    let locals = f
        .locals
        .iter()
        .map(|l| J::obj(vec![("name", s(name(pool, (*l).into()).split('$').next().unwrap())), ("type", s(pool.local(*l).map_or(String::new(), |d| name(pool, d.type_.into()))))]))
        .collect();
    vec![
        ("k", s("function")),
        ("vis", s(f.visibility)),
        (
            "flags",
            flags(&[
                ("static", f.flags.is_static()),
                ("exec", f.flags.is_exec()),
                ("timer", f.flags.is_timer()),
                ("final", f.flags.is_final()),
                ("native", f.flags.is_native()),
                ("callback", f.flags.is_callback()),
                ("operator", f.flags.is_operator()),
                ("value", f.flags.has_return_value()),
                ("base", f.flags.has_base_method()),
                ("params", f.flags.has_parameters()),
                ("cast", f.flags.is_cast()),
                ("implicit", f.flags.is_implicit_cast()),
                ("safe", f.flags.is_thread_safe()),
                ("const", f.flags.is_const()),
                ("quest", f.flags.is_quest()),
            ]),
        ),
        ("ret", s(f.return_type.map_or(String::new(), |t| name(pool, t.into())))),
        ("params", J::Arr(f.parameters.iter().map(|p| param(pool, *p)).collect())),
        ("locals", J::Arr(locals)),
        ("uses", J::Arr(uses)),
        ("file", s(f.source.as_ref().and_then(|r| pool.definition(PoolIndex::<redscript::definition::Definition>::new(r.file.into())).ok()).map_or(String::new(), |d| match &d.value {
            AnyDefinition::SourceFile(f) => f.path.display().to_string(),
            _ => "?".to_owned(),
        }))),
        ("line", J::Int(f.source.as_ref().map_or(-1, |r| r.line.into()))),
    ]
}

/// The constants an instruction holds, and what it refers to.
fn used(pool: &ConstantPool, i: &Instr<redscript::bytecode::Offset>) -> Option<String> {
    // (index 0 is the empty one)
    let spell = |r: Result<redscript::Ref<str>, redscript::bundle::PoolError>, n: u32| if n == 0 { String::new() } else { r.map_or("?".to_owned(), |s| s.to_string()) };
    Some(match i {
        Instr::InvokeStatic(_, _, f, _) => format!("call {}", name(pool, (*f).into())),
        Instr::New(c) => format!("new {}", name(pool, (*c).into())),
        Instr::Construct(_, c) => format!("make {}", name(pool, (*c).into())),
        Instr::EnumConst(e, v) => format!("enum {} {}", name(pool, (*e).into()), name(pool, (*v).into())),
        Instr::ArrayClear(t) => format!("clear {}", name(pool, (*t).into())),
        Instr::Null => "null".to_owned(),
        Instr::WeakRefNull => "weak null".to_owned(),
        Instr::TrueConst => "Bool true".to_owned(),
        Instr::FalseConst => "Bool false".to_owned(),
        Instr::I32Zero => "Int32 0".to_owned(),
        Instr::I32One => "Int32 1".to_owned(),
        Instr::I8Const(v) => format!("Int8 {v}"),
        Instr::I16Const(v) => format!("Int16 {v}"),
        Instr::I32Const(v) => format!("Int32 {v}"),
        Instr::I64Const(v) => format!("Int64 {v}"),
        Instr::U8Const(v) => format!("Uint8 {v}"),
        Instr::U16Const(v) => format!("Uint16 {v}"),
        Instr::U32Const(v) => format!("Uint32 {v}"),
        Instr::U64Const(v) => format!("Uint64 {v}"),
        Instr::F32Const(v) => format!("Float {v}"),
        Instr::F64Const(v) => format!("Double {v}"),
        Instr::NameConst(n) => format!("CName {}", spell(pool.names.get(*n), (*n).into())),
        Instr::StringConst(n) => format!("String {}", pool.strings.get(*n).map_or("?".to_owned(), |s| s.to_string())),
        Instr::TweakDbIdConst(n) => format!("TweakDBID {}", spell(pool.tweakdb_ids.get(*n), (*n).into())),
        Instr::ResourceConst(n) => format!("ResRef {}", spell(pool.resources.get(*n), (*n).into())),
        _ => return None,
    })
}

fn enumeration(pool: &ConstantPool, e: &Enum) -> Vec<(&'static str, J)> {
    vec![("k", s("enum")), ("values", J::Arr(e.members.iter().map(|m| J::Arr(vec![s(name(pool, (*m).into())), s(pool.enum_value(*m).expect("harness: member"))])).collect()))]
}

/// A file: its lines, each a list of tokens with a space between two, except around "~" and before a comma.
fn text(lines: &J) -> String {
    let line = |l: &J| l.arr().iter().map(J::str).collect::<Vec<_>>().join(" ").replace(" ~ ", "").replace(" ,", ",");
    lines.arr().iter().map(line).collect::<Vec<_>>().join("\n")
}

pub fn record(c: &J) -> J {
    let base = crate::prog::base();
    let from = crate::prog::load(&base).pool.definitions().count() as u32 + 1;
    let (mut texts, mut diags, mut err, mut defs) = (vec![], vec![], String::new(), vec![]);
    let mut bytes = base;
    for stage in c.get("stages").arr() {
        let sources: Vec<String> = stage.arr().iter().map(text).collect();
        texts.extend(sources.iter().map(s));
        let res = std::panic::catch_unwind(|| {
            let mut bundle = crate::prog::load(&bytes);
            let (d, _) = crate::prog::compile(&mut bundle.pool, &sources)?;
            Ok::<_, String>((crate::prog::save(&bundle), d))
        });
        match res {
            Ok(Ok((b, d))) => {
                bytes = b;
                diags.extend(d);
            }
            Ok(Err(e)) => err = e,
            Err(_) => err = "panicked".to_owned(),
        }
        if !err.is_empty() || diags.iter().any(|d| d.get("fatal").bool()) {
            break;
        }
    }
    let pool = crate::prog::load(&bytes).pool;
    for (i, d) in pool.definitions().filter(|(i, _)| u32::from(*i) >= from) {
        let mut j = match &d.value {
            AnyDefinition::Class(c) => class(&pool, c),
            AnyDefinition::Field(f) => field(&pool, f),
            AnyDefinition::Function(f) => function(&pool, f),
            AnyDefinition::Enum(e) => enumeration(&pool, e),
            _ => continue,
        };
        j.push(("name", s(name(&pool, i.into()))));
        if matches!(d.value, AnyDefinition::Field(_) | AnyDefinition::Function(_)) {
            j.push(("of", s(if d.parent.is_undefined() { String::new() } else { name(&pool, d.parent.into()) })));
        }
        defs.push(J::obj(j));
    }
    J::obj(vec![("texts", J::Arr(texts)), ("diags", J::Arr(diags)), ("err", J::s(err)), ("defs", J::Arr(defs)), ("want", c.get("want").clone())])
}
