//! A compiled pool as the machine of spec/RsVm.tla takes it: definitions by index, references in code spelled out.
use std::collections::{BTreeMap, BTreeSet};

use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::bytecode::Instr;
use redscript::definition::{AnyDefinition, Class, Definition, Function, Type};

use crate::instr::describe;
use crate::json::J;

fn at(i: u32) -> PoolIndex<Definition> {
    PoolIndex::new(i)
}
pub fn name(pool: &ConstantPool, i: u32) -> String {
    pool.def_name(at(i)).map_or_else(|e| format!("<{e}>"), |n| n.to_string())
}
fn ix<A>(i: &PoolIndex<A>) -> J {
    J::s(u32::from(*i).to_string())
}
fn opt_ix<A>(i: PoolIndex<A>) -> J {
    J::s(if i.is_undefined() { String::new() } else { u32::from(i).to_string() })
}
fn num(v: &J) -> u32 {
    v.str().parse().expect("harness: index")
}

/// The reference operands of an instruction, spelled out: names for constants, types, classes and enum members; "index" kept for
/// locals, parameters, fields and functions, which the machine looks up.
fn instr(pool: &ConstantPool, i: &Instr<redscript::bytecode::Offset>, wanted: &mut BTreeSet<u32>) -> J {
    let mut j = describe(i);
    let op = j.get("op").str().to_owned();
    if let J::Obj(m) = &mut j {
        if let Some(J::Arr(a)) = m.get_mut("args") {
            let spell = |a: &mut J| *a = J::s(name(pool, num(a)));
            match op.as_str() {
                "NameConst" => a[0] = J::s(pool.names.get(PoolIndex::new(num(&a[0]))).map_or("<?>".into(), |s| s.to_string())),
                "StringConst" => a[0] = J::s(pool.strings.get(PoolIndex::new(num(&a[0]))).map_or("<?>".into(), |s| s.to_string())),
                "TweakDbIdConst" => a[0] = J::s(pool.tweakdb_ids.get(PoolIndex::new(num(&a[0]))).map_or("<?>".into(), |s| s.to_string())),
                "ResourceConst" => a[0] = J::s(pool.resources.get(PoolIndex::new(num(&a[0]))).map_or("<?>".into(), |s| s.to_string())),
                "InvokeVirtual" => {
                    a[2] = J::s(pool.names.get(PoolIndex::new(num(&a[2]))).map_or("<?>".into(), |s| s.to_string()));
                    a[1] = J::Int(num(&a[1]).into());
                    a[3] = J::Int(num(&a[3]).into());
                }
                "InvokeStatic" => {
                    wanted.insert(num(&a[2]));
                    a[1] = J::Int(num(&a[1]).into());
                    a[3] = J::Int(num(&a[3]).into());
                }
                "Local" | "Param" | "ObjectField" | "StructField" => {}
                "I32Const" | "U64Const" => {
                    if let Some(n) = a[0].str().parse::<i64>().ok().filter(|n| n.abs() < 1_000_000) {
                        a[0] = J::Int(n);
                    }
                }
                "EnumConst" => a.iter_mut().for_each(spell),
                "Construct" => {
                    a[0] = J::Int(num(&a[0]).into());
                    spell(&mut a[1]);
                }
                "Switch" | "EnumToI32" | "I32ToEnum" | "DynamicCast" => spell(&mut a[0]),
                "New" => {}
                _ if a.len() == 1 && matches!(a[0], J::Str(_)) && takes_type(&op) => spell(&mut a[0]),
                _ => {}
            }
        }
    }
    j
}

fn takes_type(op: &str) -> bool {
    !op.ends_with("Const")
}

fn function(pool: &ConstantPool, i: u32, f: &Function, wanted: &mut BTreeSet<u32>) -> J {
    let def = pool.definition(at(i)).expect("harness: function");
    J::obj(vec![
        ("name", J::s(name(pool, i))),
        ("class", opt_ix(def.parent)),
        ("native", J::Bool(f.flags.is_native())),
        ("static", J::Bool(f.flags.is_static())),
        ("final", J::Bool(f.flags.is_final())),
        ("callback", J::Bool(f.flags.is_callback())),
        ("ret", J::s(f.return_type.map_or(String::new(), |t| name(pool, t.into())))),
        (
            "params",
            J::Arr(
                f.parameters
                    .iter()
                    .map(|p| {
                        let d = pool.parameter(*p).expect("harness: parameter");
                        J::obj(vec![
                            ("ix", ix(p)),
                            ("name", J::s(name(pool, (*p).into()))),
                            ("type", J::s(name(pool, d.type_.into()))),
                            ("out", J::Bool(d.flags.is_out())),
                            ("opt", J::Bool(d.flags.is_optional())),
                            ("lazy", J::Bool(d.flags.is_short_circuit())),
                        ])
                    })
                    .collect(),
            ),
        ),
        (
            "locals",
            J::Arr(
                f.locals
                    .iter()
                    .map(|l| J::obj(vec![("ix", ix(l)), ("type", J::s(pool.local(*l).map_or(String::new(), |d| name(pool, d.type_.into()))))]))
                    .collect(),
            ),
        ),
        ("code", J::Arr(if f.flags.is_native() { vec![] } else { f.code.as_ref().iter().map(|x| instr(pool, x, wanted)).collect() })),
    ])
}

fn class(pool: &ConstantPool, i: u32, c: &Class) -> J {
    J::obj(vec![
        ("ix", J::s(i.to_string())),
        ("name", J::s(name(pool, i))),
        ("base", J::s(if c.base.is_undefined() { String::new() } else { name(pool, c.base.into()) })),
        ("struct", J::Bool(c.flags.is_struct())),
        ("fns", J::Arr(c.functions.iter().map(ix).collect())),
        (
            "fields",
            J::Arr(
                c.fields
                    .iter()
                    .map(|f| J::obj(vec![("ix", ix(f)), ("name", J::s(name(pool, (*f).into()))), ("type", J::s(pool.field(*f).map_or(String::new(), |d| name(pool, d.type_.into()))))]))
                    .collect(),
            ),
        ),
    ])
}

/// What a type is made of.
fn type_(pool: &ConstantPool, i: u32, t: &Type) -> J {
    let inner = |t: &PoolIndex<Type>| name(pool, u32::from(*t));
    let (k, of) = match t {
        Type::Prim => ("prim", String::new()),
        Type::Class => ("class", String::new()),
        Type::Ref(t) => ("ref", inner(t)),
        Type::WeakRef(t) => ("wref", inner(t)),
        Type::Array(t) => ("array", inner(t)),
        Type::StaticArray(t, _) => ("static", inner(t)),
        Type::ScriptRef(t) => ("sref", inner(t)),
    };
    J::obj(vec![("k", J::s(k.to_owned())), ("of", J::s(of)), ("name", J::s(name(pool, i)))])
}

/// Everything defined from index `from` on, and what its code refers to.
pub fn pool(pool: &ConstantPool, from: u32) -> Vec<(&'static str, J)> {
    let (mut fns, mut classes, mut wanted) = (BTreeMap::new(), BTreeMap::new(), BTreeSet::new());
    let (mut types, mut enums) = (BTreeMap::new(), BTreeMap::new());
    for (i, d) in pool.definitions() {
        let i = u32::from(i);
        match &d.value {
            AnyDefinition::Function(_) if i >= from => {
                wanted.insert(i);
            }
            AnyDefinition::Class(c) => {
                if i >= from {
                    classes.insert(name(pool, i), class(pool, i, c));
                }
                wanted.extend(c.functions.iter().map(|f| u32::from(*f)));
            }
            AnyDefinition::Type(t) => {
                types.insert(name(pool, i), type_(pool, i, t));
            }
            AnyDefinition::Enum(e) => {
                let members = e.members.iter().map(|m| J::obj(vec![("x", J::s(name(pool, (*m).into()))), ("n", J::Int(pool.enum_value(*m).expect("harness: member")))])).collect();
                enums.insert(name(pool, i), J::Arr(members));
            }
            _ => {}
        }
    }
    let mut done = BTreeSet::new();
    while let Some(i) = wanted.iter().copied().find(|i| !done.contains(i)) {
        done.insert(i);
        if let Ok(f) = pool.function(PoolIndex::new(i)) {
            let j = function(pool, i, f, &mut wanted);
            fns.insert(i.to_string(), j);
        }
    }
    vec![("types", J::Obj(types)), ("enums", J::Obj(enums)), ("fns", J::Obj(fns.into_iter().collect())), ("classes", J::Obj(classes.into_iter().collect()))]
}
