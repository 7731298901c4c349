//! Spec definition records <-> the implementation's definitions.
use std::path::PathBuf;

use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::bytecode::Code;
use redscript::definition::*;

use crate::atoms::atom;
use crate::instr::{build, describe};
use crate::json::J;

pub fn u32of(v: &J) -> u32 {
    v.text().parse().unwrap_or_else(|_| panic!("harness: u32 {v:?}"))
}
fn u8of(v: &J) -> u8 {
    v.text().parse().unwrap_or_else(|_| panic!("harness: u8 {v:?}"))
}
pub fn ix<A>(v: &J) -> PoolIndex<A> {
    PoolIndex::new(u32of(v))
}
fn ixs<A>(v: &J) -> Vec<PoolIndex<A>> {
    v.arr().iter().map(ix).collect()
}
fn opt<A>(v: &J) -> Option<PoolIndex<A>> {
    v.arr().first().map(ix)
}
pub fn vis(v: &J) -> Visibility {
    match v.str() {
        "Public" => Visibility::Public,
        "Protected" => Visibility::Protected,
        "Private" => Visibility::Private,
        o => panic!("harness: vis {o}"),
    }
}
fn props(v: &J) -> Vec<Property> {
    v.arr()
        .iter()
        .map(|p| Property { name: atom(p.arr()[0].str()), value: atom(p.arr()[1].str()) })
        .collect()
}

macro_rules! flags {
    ($build:ident, $dump:ident, $ty:ty, $($f:ident / $set:ident),*) => {
        pub fn $build(v: &J) -> $ty {
            let mut r = <$ty>::new();
            for f in v.arr() {
                match f.str() {
                    $(stringify!($f) => r.$set(true),)*
                    o => panic!("harness: flag {o}"),
                }
            }
            r
        }
        pub fn $dump(r: $ty) -> J {
            let mut out: Vec<&str> = vec![];
            $(if r.$f() { out.push(stringify!($f)); })*
            out.sort_unstable();
            J::Arr(out.into_iter().map(J::s).collect())
        }
    };
}
flags!(class_flags, dump_class_flags, ClassFlags, is_native / set_is_native, is_abstract / set_is_abstract,
    is_final / set_is_final, is_struct / set_is_struct, has_functions / set_has_functions, has_fields / set_has_fields,
    is_import_only / set_is_import_only, is_test_only / set_is_test_only, has_overrides / set_has_overrides);
flags!(field_flags, dump_field_flags, FieldFlags, is_native / set_is_native, is_editable / set_is_editable,
    is_inline / set_is_inline, is_const / set_is_const, is_replicated / set_is_replicated, has_hint / set_has_hint,
    is_instance_editable / set_is_instance_editable, has_default / set_has_default, is_persistent / set_is_persistent,
    is_test_only / set_is_test_only, is_browsable / set_is_browsable);
flags!(local_flags, dump_local_flags, LocalFlags, is_const / set_is_const);
flags!(param_flags, dump_param_flags, ParameterFlags, is_optional / set_is_optional, is_out / set_is_out,
    is_short_circuit / set_is_short_circuit, is_const / set_is_const);
flags!(fun_flags, dump_fun_flags, FunctionFlags, is_static / set_is_static, is_exec / set_is_exec, is_timer / set_is_timer,
    is_final / set_is_final, is_native / set_is_native, unk1 / set_unk1, is_callback / set_is_callback,
    is_operator / set_is_operator, has_return_value / set_has_return_value, has_base_method / set_has_base_method,
    has_parameters / set_has_parameters, has_locals / set_has_locals, has_body / set_has_body, is_cast / set_is_cast,
    is_implicit_cast / set_is_implicit_cast, is_thread_safe / set_is_thread_safe, is_const / set_is_const, unk2 / set_unk2,
    unk3 / set_unk3, is_quest / set_is_quest, unk4 / set_unk4, unk5 / set_unk5, unk6 / set_unk6);

pub fn build_def(d: &J) -> Definition {
    let value = match d.get("kind").str() {
        "Type" => AnyDefinition::Type(match d.get("type").str() {
            "Prim" => Type::Prim,
            "Class" => Type::Class,
            "Ref" => Type::Ref(ix(d.get("inner"))),
            "WeakRef" => Type::WeakRef(ix(d.get("inner"))),
            "Array" => Type::Array(ix(d.get("inner"))),
            "StaticArray" => Type::StaticArray(ix(d.get("inner")), u32of(d.get("size"))),
            "ScriptRef" => Type::ScriptRef(ix(d.get("inner"))),
            o => panic!("harness: type {o}"),
        }),
        "Class" => AnyDefinition::Class(Class {
            visibility: vis(d.get("vis")),
            flags: class_flags(d.get("flags")),
            base: ix(d.get("base")),
            functions: ixs(d.get("functions")),
            fields: ixs(d.get("fields")),
            overrides: ixs(d.get("overrides")),
        }),
        "EnumValue" => AnyDefinition::EnumValue(d.get("value").int()),
        "Enum" => AnyDefinition::Enum(Enum {
            flags: u8of(d.get("flags")),
            size: u8of(d.get("size")),
            members: ixs(d.get("members")),
            unk1: d.get("unk1").bool(),
        }),
        "Function" => AnyDefinition::Function(Function {
            visibility: vis(d.get("vis")),
            flags: fun_flags(d.get("flags")),
            source: match d.get("source").arr() {
                [f, l] => Some(SourceReference { file: ix(f), line: u32of(l) }),
                _ => None,
            },
            return_type: opt(d.get("ret")),
            unk1: d.get("unk1").bool(),
            base_method: opt(d.get("base")),
            parameters: ixs(d.get("params")),
            locals: ixs(d.get("locals")),
            operator: d.get("operator").arr().first().map(u32of),
            cast: u8of(d.get("cast")),
            code: Code::new(d.get("code").arr().iter().map(build).collect()),
            unk2: ixs(d.get("unk2")),
        }),
        "Parameter" => {
            AnyDefinition::Parameter(Parameter { type_: ix(d.get("type")), flags: param_flags(d.get("flags")) })
        }
        "Local" => AnyDefinition::Local(Local { type_: ix(d.get("type")), flags: local_flags(d.get("flags")) }),
        "Field" => AnyDefinition::Field(Field {
            visibility: vis(d.get("vis")),
            type_: ix(d.get("type")),
            flags: field_flags(d.get("flags")),
            hint: d.get("hint").arr().first().map(|s| atom(s.str())),
            attributes: props(d.get("attrs")),
            defaults: props(d.get("defaults")),
        }),
        "SourceFile" => AnyDefinition::SourceFile(SourceFile {
            id: u32of(d.get("id")),
            path_hash: d.get("hash").text().parse().expect("harness u64"),
            path: path(d.get("path")),
        }),
        o => panic!("harness: kind {o}"),
    };
    Definition {
        name: ix(d.get("name")),
        parent: ix(d.get("parent")),
        unk1: u8of(d.get("u1")),
        unk2: u8of(d.get("u2")),
        unk3: u8of(d.get("u3")),
        value,
    }
}

fn path(v: &J) -> PathBuf {
    PathBuf::from(v.arr().iter().map(|s| atom_path(s.str())).collect::<Vec<_>>().join("/"))
}
fn atom_path(s: &str) -> String {
    atom(s)
}

fn n(v: impl ToString) -> J {
    J::s(v.to_string())
}
fn jx<A>(i: &PoolIndex<A>) -> J {
    n(u32::from(*i))
}
fn jxs<A>(v: &[PoolIndex<A>]) -> J {
    J::Arr(v.iter().map(jx).collect())
}
fn jvis(v: Visibility) -> J {
    J::s(format!("{v:?}"))
}
fn jprops(v: &[Property]) -> J {
    J::Arr(v.iter().map(|p| J::Arr(vec![J::s(&*p.name), J::s(&*p.value)])).collect())
}

/// An observed definition as a spec record (strings are literal; compare with `lit` applied to the expectation).
pub fn dump_def(d: &Definition) -> J {
    let mut kv = vec![
        ("name", jx(&d.name)),
        ("parent", jx(&d.parent)),
        ("u1", n(d.unk1)),
        ("u2", n(d.unk2)),
        ("u3", n(d.unk3)),
    ];
    match &d.value {
        AnyDefinition::Type(t) => {
            let (t, inner, size) = match t {
                Type::Prim => ("Prim", 0, 0),
                Type::Class => ("Class", 0, 0),
                Type::Ref(i) => ("Ref", u32::from(*i), 0),
                Type::WeakRef(i) => ("WeakRef", u32::from(*i), 0),
                Type::Array(i) => ("Array", u32::from(*i), 0),
                Type::StaticArray(i, s) => ("StaticArray", u32::from(*i), *s),
                Type::ScriptRef(i) => ("ScriptRef", u32::from(*i), 0),
            };
            kv.extend([("kind", J::s("Type")), ("type", J::s(t)), ("inner", n(inner)), ("size", n(size))]);
        }
        AnyDefinition::Class(c) => kv.extend([
            ("kind", J::s("Class")),
            ("vis", jvis(c.visibility)),
            ("flags", dump_class_flags(c.flags)),
            ("base", jx(&c.base)),
            ("functions", jxs(&c.functions)),
            ("fields", jxs(&c.fields)),
            ("overrides", jxs(&c.overrides)),
        ]),
        AnyDefinition::EnumValue(v) => kv.extend([("kind", J::s("EnumValue")), ("value", n(v))]),
        AnyDefinition::Enum(e) => kv.extend([
            ("kind", J::s("Enum")),
            ("flags", n(e.flags)),
            ("size", n(e.size)),
            ("members", jxs(&e.members)),
            ("unk1", J::Bool(e.unk1)),
        ]),
        AnyDefinition::Function(f) => kv.extend([
            ("kind", J::s("Function")),
            ("vis", jvis(f.visibility)),
            ("flags", dump_fun_flags(f.flags)),
            ("source", J::Arr(f.source.iter().flat_map(|s| [jx(&s.file), n(s.line)]).collect())),
            ("ret", J::Arr(f.return_type.iter().map(jx).collect())),
            ("unk1", J::Bool(f.unk1)),
            ("base", J::Arr(f.base_method.iter().map(jx).collect())),
            ("params", jxs(&f.parameters)),
            ("locals", jxs(&f.locals)),
            ("operator", J::Arr(f.operator.iter().map(n).collect())),
            ("cast", n(f.cast)),
            ("code", J::Arr(f.code.as_ref().iter().map(describe).collect())),
            ("unk2", jxs(&f.unk2)),
        ]),
        AnyDefinition::Parameter(p) => {
            kv.extend([("kind", J::s("Parameter")), ("type", jx(&p.type_)), ("flags", dump_param_flags(p.flags))]);
        }
        AnyDefinition::Local(p) => {
            kv.extend([("kind", J::s("Local")), ("type", jx(&p.type_)), ("flags", dump_local_flags(p.flags))]);
        }
        AnyDefinition::Field(f) => kv.extend([
            ("kind", J::s("Field")),
            ("vis", jvis(f.visibility)),
            ("type", jx(&f.type_)),
            ("flags", dump_field_flags(f.flags)),
            ("hint", J::Arr(f.hint.iter().map(|h| J::s(&**h)).collect())),
            ("attrs", jprops(&f.attributes)),
            ("defaults", jprops(&f.defaults)),
        ]),
        AnyDefinition::SourceFile(s) => kv.extend([
            ("kind", J::s("SourceFile")),
            ("id", n(s.id)),
            ("hash", n(s.path_hash)),
            ("path", J::Arr(s.path.components().map(|c| J::s(c.as_os_str().to_str().unwrap())).collect())),
        ]),
    }
    J::obj(kv)
}

/// Puts an expected record in the form `dump_def` gives: atoms expanded, scalars as strings, flag sets sorted, operands of
/// breakpoints and profiling markers dropped.
pub fn lit(v: &J) -> J {
    match v {
        J::Str(s) => J::s(atom(s)),
        J::Int(i) => n(i),
        J::Arr(a) => J::Arr(a.iter().map(lit).collect()),
        J::Obj(m) if m.is_empty() => J::Arr(vec![]),
        J::Obj(m) => {
            let mut m: std::collections::BTreeMap<String, J> = m.iter().map(|(k, v)| (k.clone(), lit(v))).collect();
            if let Some(J::Arr(f)) = m.get_mut("flags") {
                f.sort_by_key(J::text);
            }
            if matches!(m.get("op"), Some(J::Str(s)) if s == "Breakpoint" || s == "StartProfiling") {
                m.insert("args".into(), J::Arr(vec![]));
            }
            if let (Some(J::Str(_)), Some(J::Arr(_))) = (m.get("op"), m.get("args")) {
                // a jump is an integer in both forms
                let raw = v.get("args").arr();
                if let Some(J::Arr(a)) = m.get_mut("args") {
                    for (x, r) in a.iter_mut().zip(raw) {
                        if let J::Int(i) = r {
                            *x = J::Int(*i);
                        }
                    }
                }
            }
            J::Obj(m)
        }
        o => o.clone(),
    }
}

pub fn build_pool(p: &J) -> ConstantPool {
    let mut pool = ConstantPool::default();
    for (k, list) in [("names", 0), ("tweaks", 1), ("ress", 2), ("strs", 3)] {
        for s in p.get(k).arr() {
            let s = atom(s.str());
            match list {
                0 => u32::from(pool.names.add(s.into())),
                1 => u32::from(pool.tweakdb_ids.add(s.into())),
                2 => u32::from(pool.resources.add(s.into())),
                _ => u32::from(pool.strings.add(s.into())),
            };
        }
    }
    for d in p.get("defs").arr() {
        pool.add_definition::<Definition>(build_def(d));
    }
    pool
}

/// All definitions, the placeholder included.
pub fn dump_defs(pool: &ConstantPool) -> Vec<J> {
    let mut out = vec![];
    let mut i = 0;
    while let Ok(d) = pool.definition(PoolIndex::<Definition>::new(i)) {
        out.push(dump_def(d));
        i += 1;
    }
    out
}
