#![allow(dead_code, unused_imports)]
use std::io::{Cursor, Seek, Write};
use redscript::bundle::*;
use redscript::bytecode::*;
use redscript::definition::*;
use redscript::decode::{Decode, DecodeExt};
use redscript::encode::{Encode, EncodeExt};
use redscript::Ref;

const PREDEF: &[u8] = include_bytes!("/repo/resources/predef.redscripts");

fn bundle() -> ScriptBundle {
    ScriptBundle::load(&mut Cursor::new(PREDEF)).expect("predef loads")
}
fn save(b: &ScriptBundle) -> Vec<u8> {
    let mut out = Cursor::new(vec![]);
    b.save(&mut out).expect("bundle saves");
    out.into_inner()
}
fn load(bytes: &[u8]) -> std::io::Result<ScriptBundle> {
    ScriptBundle::load(&mut Cursor::new(bytes))
}
fn name(p: &mut ConstantPool, s: &str) -> PoolIndex<CName> {
    p.names.add(Ref::from(s))
}
fn add_type(p: &mut ConstantPool, s: &str) -> PoolIndex<Type> {
    let n = name(p, s);
    p.add_definition(Definition::type_(n, Type::Prim))
}
fn function(code: Vec<Instr<Offset>>) -> Function {
    Function {
        visibility: Visibility::Public,
        flags: FunctionFlags::new().with_is_static(true).with_is_final(true).with_has_body(!code.is_empty()),
        source: Some(SourceReference { file: PoolIndex::new(1), line: 3 }),
        return_type: None,
        unk1: false,
        base_method: None,
        parameters: vec![],
        locals: vec![],
        operator: None,
        cast: 0,
        code: Code::new(code),
        unk2: vec![],
    }
}
fn add_fun(p: &mut ConstantPool, s: &str, f: Function) -> PoolIndex<Function> {
    let n = name(p, s);
    p.add_definition(Definition::function(n, PoolIndex::UNDEFINED, f))
}
fn class(functions: Vec<PoolIndex<Function>>, fields: Vec<PoolIndex<Field>>) -> Class {
    Class { visibility: Visibility::Public, flags: ClassFlags::new(), base: PoolIndex::UNDEFINED, functions, fields, overrides: vec![] }
}
fn off(n: i16) -> Offset {
    Offset::new(n)
}
/// Lays the code out and returns the distance from instruction a to instruction b.
fn dist(code: &[Instr<Offset>], a: usize, b: usize) -> Offset {
    let at = |n: usize| -> i32 { code[..n].iter().map(|i| i32::from(i.size())).sum() };
    Offset::new((at(b) - at(a)) as i16)
}
fn decompiled(b: &ScriptBundle, f: PoolIndex<Function>) -> String {
    let def = b.pool.definition(f).unwrap();
    let mut out = vec![];
    redscript_decompiler::print::write_definition(&mut out, def, &b.pool, 0, redscript_decompiler::print::OutputMode::Code { verbose: true })
        .expect("decompiles");
    String::from_utf8(out).unwrap()
}

