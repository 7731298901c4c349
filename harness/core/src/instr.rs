//! Spec instruction <-> the implementation's instruction. Generated from the operand table of spec/RsCode.tla.
use redscript::bytecode::{Instr, Label, Offset};
use redscript::bundle::PoolIndex;
use redscript::decode::DecodeExt;

use crate::atoms::{atom, render};
use crate::json::J;

pub trait Loc: Clone {
    fn of(v: &J) -> Self;
    fn to(&self) -> J;
}
impl Loc for Offset {
    fn of(v: &J) -> Self {
        Offset::new(v.int() as i16)
    }
    fn to(&self) -> J {
        J::Int(self.value.into())
    }
}
impl Loc for Label {
    // labels are numbered from 1 in the specification
    fn of(v: &J) -> Self {
        Label { index: (v.int() - 1) as usize }
    }
    fn to(&self) -> J {
        J::Int(self.index as i64 + 1)
    }
}

fn idx<A>(v: &J) -> PoolIndex<A> {
    PoolIndex::new(v.text().parse().expect("harness idx"))
}
fn uidx<A>(v: &PoolIndex<A>) -> J {
    J::s(u32::from(*v).to_string())
}

pub fn build<L: Loc>(i: &J) -> Instr<L> {
    let a = i.get("args").arr();
    match i.get("op").str() {
        "Nop" => Instr::Nop,
        "Null" => Instr::Null,
        "I32One" => Instr::I32One,
        "I32Zero" => Instr::I32Zero,
        "I8Const" => Instr::I8Const(a[0].text().parse().expect("harness operand")),
        "I16Const" => Instr::I16Const(a[0].text().parse().expect("harness operand")),
        "I32Const" => Instr::I32Const(a[0].text().parse().expect("harness operand")),
        "I64Const" => Instr::I64Const(a[0].text().parse().expect("harness operand")),
        "U8Const" => Instr::U8Const(a[0].text().parse().expect("harness operand")),
        "U16Const" => Instr::U16Const(a[0].text().parse().expect("harness operand")),
        "U32Const" => Instr::U32Const(a[0].text().parse().expect("harness operand")),
        "U64Const" => Instr::U64Const(a[0].text().parse().expect("harness operand")),
        "F32Const" => Instr::F32Const(a[0].text().parse().expect("harness operand")),
        "F64Const" => Instr::F64Const(a[0].text().parse().expect("harness operand")),
        "NameConst" => Instr::NameConst(idx(&a[0])),
        "EnumConst" => Instr::EnumConst(idx(&a[0]), idx(&a[1])),
        "StringConst" => Instr::StringConst(idx(&a[0])),
        "TweakDbIdConst" => Instr::TweakDbIdConst(idx(&a[0])),
        "ResourceConst" => Instr::ResourceConst(idx(&a[0])),
        "TrueConst" => Instr::TrueConst,
        "FalseConst" => Instr::FalseConst,
        "Assign" => Instr::Assign,
        "Target" => Instr::Target(L::of(&a[0])),
        "Local" => Instr::Local(idx(&a[0])),
        "Param" => Instr::Param(idx(&a[0])),
        "ObjectField" => Instr::ObjectField(idx(&a[0])),
        "ExternalVar" => Instr::ExternalVar,
        "Switch" => Instr::Switch(idx(&a[0]), L::of(&a[1])),
        "SwitchLabel" => Instr::SwitchLabel(L::of(&a[0]), L::of(&a[1])),
        "SwitchDefault" => Instr::SwitchDefault,
        "Jump" => Instr::Jump(L::of(&a[0])),
        "JumpIfFalse" => Instr::JumpIfFalse(L::of(&a[0])),
        "Skip" => Instr::Skip(L::of(&a[0])),
        "Conditional" => Instr::Conditional(L::of(&a[0]), L::of(&a[1])),
        "Construct" => Instr::Construct(a[0].text().parse().expect("harness operand"), idx(&a[1])),
        "InvokeStatic" => Instr::InvokeStatic(L::of(&a[0]), a[1].text().parse().expect("harness operand"), idx(&a[2]), a[3].text().parse().expect("harness operand")),
        "InvokeVirtual" => Instr::InvokeVirtual(L::of(&a[0]), a[1].text().parse().expect("harness operand"), idx(&a[2]), a[3].text().parse().expect("harness operand")),
        "ParamEnd" => Instr::ParamEnd,
        "Return" => Instr::Return,
        "StructField" => Instr::StructField(idx(&a[0])),
        "Context" => Instr::Context(L::of(&a[0])),
        "Equals" => Instr::Equals(idx(&a[0])),
        "RefStringEqualsString" => Instr::RefStringEqualsString(idx(&a[0])),
        "StringEqualsRefString" => Instr::StringEqualsRefString(idx(&a[0])),
        "NotEquals" => Instr::NotEquals(idx(&a[0])),
        "RefStringNotEqualsString" => Instr::RefStringNotEqualsString(idx(&a[0])),
        "StringNotEqualsRefString" => Instr::StringNotEqualsRefString(idx(&a[0])),
        "New" => Instr::New(idx(&a[0])),
        "Delete" => Instr::Delete,
        "This" => Instr::This,
        "ArrayClear" => Instr::ArrayClear(idx(&a[0])),
        "ArraySize" => Instr::ArraySize(idx(&a[0])),
        "ArrayResize" => Instr::ArrayResize(idx(&a[0])),
        "ArrayFindFirst" => Instr::ArrayFindFirst(idx(&a[0])),
        "ArrayFindFirstFast" => Instr::ArrayFindFirstFast(idx(&a[0])),
        "ArrayFindLast" => Instr::ArrayFindLast(idx(&a[0])),
        "ArrayFindLastFast" => Instr::ArrayFindLastFast(idx(&a[0])),
        "ArrayContains" => Instr::ArrayContains(idx(&a[0])),
        "ArrayContainsFast" => Instr::ArrayContainsFast(idx(&a[0])),
        "ArrayCount" => Instr::ArrayCount(idx(&a[0])),
        "ArrayCountFast" => Instr::ArrayCountFast(idx(&a[0])),
        "ArrayPush" => Instr::ArrayPush(idx(&a[0])),
        "ArrayPop" => Instr::ArrayPop(idx(&a[0])),
        "ArrayInsert" => Instr::ArrayInsert(idx(&a[0])),
        "ArrayRemove" => Instr::ArrayRemove(idx(&a[0])),
        "ArrayRemoveFast" => Instr::ArrayRemoveFast(idx(&a[0])),
        "ArrayGrow" => Instr::ArrayGrow(idx(&a[0])),
        "ArrayErase" => Instr::ArrayErase(idx(&a[0])),
        "ArrayEraseFast" => Instr::ArrayEraseFast(idx(&a[0])),
        "ArrayLast" => Instr::ArrayLast(idx(&a[0])),
        "ArrayElement" => Instr::ArrayElement(idx(&a[0])),
        "ArraySort" => Instr::ArraySort(idx(&a[0])),
        "ArraySortByPredicate" => Instr::ArraySortByPredicate(idx(&a[0])),
        "StaticArraySize" => Instr::StaticArraySize(idx(&a[0])),
        "StaticArrayFindFirst" => Instr::StaticArrayFindFirst(idx(&a[0])),
        "StaticArrayFindFirstFast" => Instr::StaticArrayFindFirstFast(idx(&a[0])),
        "StaticArrayFindLast" => Instr::StaticArrayFindLast(idx(&a[0])),
        "StaticArrayFindLastFast" => Instr::StaticArrayFindLastFast(idx(&a[0])),
        "StaticArrayContains" => Instr::StaticArrayContains(idx(&a[0])),
        "StaticArrayContainsFast" => Instr::StaticArrayContainsFast(idx(&a[0])),
        "StaticArrayCount" => Instr::StaticArrayCount(idx(&a[0])),
        "StaticArrayCountFast" => Instr::StaticArrayCountFast(idx(&a[0])),
        "StaticArrayLast" => Instr::StaticArrayLast(idx(&a[0])),
        "StaticArrayElement" => Instr::StaticArrayElement(idx(&a[0])),
        "RefToBool" => Instr::RefToBool,
        "WeakRefToBool" => Instr::WeakRefToBool,
        "EnumToI32" => Instr::EnumToI32(idx(&a[0]), a[1].text().parse().expect("harness operand")),
        "I32ToEnum" => Instr::I32ToEnum(idx(&a[0]), a[1].text().parse().expect("harness operand")),
        "DynamicCast" => Instr::DynamicCast(idx(&a[0]), a[1].text().parse().expect("harness operand")),
        "ToString" => Instr::ToString(idx(&a[0])),
        "ToVariant" => Instr::ToVariant(idx(&a[0])),
        "FromVariant" => Instr::FromVariant(idx(&a[0])),
        "VariantIsDefined" => Instr::VariantIsDefined,
        "VariantIsRef" => Instr::VariantIsRef,
        "VariantIsArray" => Instr::VariantIsArray,
        "VariantTypeName" => Instr::VariantTypeName,
        "VariantToString" => Instr::VariantToString,
        "WeakRefToRef" => Instr::WeakRefToRef,
        "RefToWeakRef" => Instr::RefToWeakRef,
        "WeakRefNull" => Instr::WeakRefNull,
        "AsRef" => Instr::AsRef(idx(&a[0])),
        "Deref" => Instr::Deref(idx(&a[0])),
        "Breakpoint" => {
            let toks: Vec<J> = ["u16", "u32", "u16", "u16", "u8", "u64"]
                .iter()
                .zip(a)
                .map(|(t, v)| J::obj(vec![("t", J::s(*t)), ("v", v.clone())]))
                .collect();
            Instr::Breakpoint(Box::new(render(&toks).as_slice().decode().expect("breakpoint payload")))
        }
        "StartProfiling" => {
            let s = atom(a[0].str());
            let mut b = (s.len() as u32).to_le_bytes().to_vec();
            b.extend(s.as_bytes());
            b.push(a[1].text().parse().expect("harness u8"));
            Instr::StartProfiling(Box::new(b.as_slice().decode().expect("profiling payload")))
        }
        other => panic!("harness: unknown op {other}"),
    }
}

/// The reverse: an observed instruction as a spec record (payloads of breakpoints and profiling markers are dropped).
pub fn describe<L: Loc>(i: &Instr<L>) -> J {
    let (op, args): (&str, Vec<J>) = match i {
        Instr::Nop => ("Nop", vec![]),
        Instr::Null => ("Null", vec![]),
        Instr::I32One => ("I32One", vec![]),
        Instr::I32Zero => ("I32Zero", vec![]),
        Instr::I8Const(x) => ("I8Const", vec![J::s(x.to_string())]),
        Instr::I16Const(x) => ("I16Const", vec![J::s(x.to_string())]),
        Instr::I32Const(x) => ("I32Const", vec![J::s(x.to_string())]),
        Instr::I64Const(x) => ("I64Const", vec![J::s(x.to_string())]),
        Instr::U8Const(x) => ("U8Const", vec![J::s(x.to_string())]),
        Instr::U16Const(x) => ("U16Const", vec![J::s(x.to_string())]),
        Instr::U32Const(x) => ("U32Const", vec![J::s(x.to_string())]),
        Instr::U64Const(x) => ("U64Const", vec![J::s(x.to_string())]),
        Instr::F32Const(x) => ("F32Const", vec![J::s(x.to_string())]),
        Instr::F64Const(x) => ("F64Const", vec![J::s(x.to_string())]),
        Instr::NameConst(x) => ("NameConst", vec![uidx(x)]),
        Instr::EnumConst(x, y) => ("EnumConst", vec![uidx(x), uidx(y)]),
        Instr::StringConst(x) => ("StringConst", vec![uidx(x)]),
        Instr::TweakDbIdConst(x) => ("TweakDbIdConst", vec![uidx(x)]),
        Instr::ResourceConst(x) => ("ResourceConst", vec![uidx(x)]),
        Instr::TrueConst => ("TrueConst", vec![]),
        Instr::FalseConst => ("FalseConst", vec![]),
        Instr::Breakpoint(_) => ("Breakpoint", vec![]),
        Instr::Assign => ("Assign", vec![]),
        Instr::Target(_) => ("Target", vec![]),
        Instr::Local(x) => ("Local", vec![uidx(x)]),
        Instr::Param(x) => ("Param", vec![uidx(x)]),
        Instr::ObjectField(x) => ("ObjectField", vec![uidx(x)]),
        Instr::ExternalVar => ("ExternalVar", vec![]),
        Instr::Switch(x, y) => ("Switch", vec![uidx(x), y.to()]),
        Instr::SwitchLabel(x, y) => ("SwitchLabel", vec![x.to(), y.to()]),
        Instr::SwitchDefault => ("SwitchDefault", vec![]),
        Instr::Jump(x) => ("Jump", vec![x.to()]),
        Instr::JumpIfFalse(x) => ("JumpIfFalse", vec![x.to()]),
        Instr::Skip(x) => ("Skip", vec![x.to()]),
        Instr::Conditional(x, y) => ("Conditional", vec![x.to(), y.to()]),
        Instr::Construct(x, y) => ("Construct", vec![J::s(x.to_string()), uidx(y)]),
        Instr::InvokeStatic(x, y, z, w) => ("InvokeStatic", vec![x.to(), J::s(y.to_string()), uidx(z), J::s(w.to_string())]),
        Instr::InvokeVirtual(x, y, z, w) => ("InvokeVirtual", vec![x.to(), J::s(y.to_string()), uidx(z), J::s(w.to_string())]),
        Instr::ParamEnd => ("ParamEnd", vec![]),
        Instr::Return => ("Return", vec![]),
        Instr::StructField(x) => ("StructField", vec![uidx(x)]),
        Instr::Context(x) => ("Context", vec![x.to()]),
        Instr::Equals(x) => ("Equals", vec![uidx(x)]),
        Instr::RefStringEqualsString(x) => ("RefStringEqualsString", vec![uidx(x)]),
        Instr::StringEqualsRefString(x) => ("StringEqualsRefString", vec![uidx(x)]),
        Instr::NotEquals(x) => ("NotEquals", vec![uidx(x)]),
        Instr::RefStringNotEqualsString(x) => ("RefStringNotEqualsString", vec![uidx(x)]),
        Instr::StringNotEqualsRefString(x) => ("StringNotEqualsRefString", vec![uidx(x)]),
        Instr::New(x) => ("New", vec![uidx(x)]),
        Instr::Delete => ("Delete", vec![]),
        Instr::This => ("This", vec![]),
        Instr::StartProfiling(_) => ("StartProfiling", vec![]),
        Instr::ArrayClear(x) => ("ArrayClear", vec![uidx(x)]),
        Instr::ArraySize(x) => ("ArraySize", vec![uidx(x)]),
        Instr::ArrayResize(x) => ("ArrayResize", vec![uidx(x)]),
        Instr::ArrayFindFirst(x) => ("ArrayFindFirst", vec![uidx(x)]),
        Instr::ArrayFindFirstFast(x) => ("ArrayFindFirstFast", vec![uidx(x)]),
        Instr::ArrayFindLast(x) => ("ArrayFindLast", vec![uidx(x)]),
        Instr::ArrayFindLastFast(x) => ("ArrayFindLastFast", vec![uidx(x)]),
        Instr::ArrayContains(x) => ("ArrayContains", vec![uidx(x)]),
        Instr::ArrayContainsFast(x) => ("ArrayContainsFast", vec![uidx(x)]),
        Instr::ArrayCount(x) => ("ArrayCount", vec![uidx(x)]),
        Instr::ArrayCountFast(x) => ("ArrayCountFast", vec![uidx(x)]),
        Instr::ArrayPush(x) => ("ArrayPush", vec![uidx(x)]),
        Instr::ArrayPop(x) => ("ArrayPop", vec![uidx(x)]),
        Instr::ArrayInsert(x) => ("ArrayInsert", vec![uidx(x)]),
        Instr::ArrayRemove(x) => ("ArrayRemove", vec![uidx(x)]),
        Instr::ArrayRemoveFast(x) => ("ArrayRemoveFast", vec![uidx(x)]),
        Instr::ArrayGrow(x) => ("ArrayGrow", vec![uidx(x)]),
        Instr::ArrayErase(x) => ("ArrayErase", vec![uidx(x)]),
        Instr::ArrayEraseFast(x) => ("ArrayEraseFast", vec![uidx(x)]),
        Instr::ArrayLast(x) => ("ArrayLast", vec![uidx(x)]),
        Instr::ArrayElement(x) => ("ArrayElement", vec![uidx(x)]),
        Instr::ArraySort(x) => ("ArraySort", vec![uidx(x)]),
        Instr::ArraySortByPredicate(x) => ("ArraySortByPredicate", vec![uidx(x)]),
        Instr::StaticArraySize(x) => ("StaticArraySize", vec![uidx(x)]),
        Instr::StaticArrayFindFirst(x) => ("StaticArrayFindFirst", vec![uidx(x)]),
        Instr::StaticArrayFindFirstFast(x) => ("StaticArrayFindFirstFast", vec![uidx(x)]),
        Instr::StaticArrayFindLast(x) => ("StaticArrayFindLast", vec![uidx(x)]),
        Instr::StaticArrayFindLastFast(x) => ("StaticArrayFindLastFast", vec![uidx(x)]),
        Instr::StaticArrayContains(x) => ("StaticArrayContains", vec![uidx(x)]),
        Instr::StaticArrayContainsFast(x) => ("StaticArrayContainsFast", vec![uidx(x)]),
        Instr::StaticArrayCount(x) => ("StaticArrayCount", vec![uidx(x)]),
        Instr::StaticArrayCountFast(x) => ("StaticArrayCountFast", vec![uidx(x)]),
        Instr::StaticArrayLast(x) => ("StaticArrayLast", vec![uidx(x)]),
        Instr::StaticArrayElement(x) => ("StaticArrayElement", vec![uidx(x)]),
        Instr::RefToBool => ("RefToBool", vec![]),
        Instr::WeakRefToBool => ("WeakRefToBool", vec![]),
        Instr::EnumToI32(x, y) => ("EnumToI32", vec![uidx(x), J::s(y.to_string())]),
        Instr::I32ToEnum(x, y) => ("I32ToEnum", vec![uidx(x), J::s(y.to_string())]),
        Instr::DynamicCast(x, y) => ("DynamicCast", vec![uidx(x), J::s(y.to_string())]),
        Instr::ToString(x) => ("ToString", vec![uidx(x)]),
        Instr::ToVariant(x) => ("ToVariant", vec![uidx(x)]),
        Instr::FromVariant(x) => ("FromVariant", vec![uidx(x)]),
        Instr::VariantIsDefined => ("VariantIsDefined", vec![]),
        Instr::VariantIsRef => ("VariantIsRef", vec![]),
        Instr::VariantIsArray => ("VariantIsArray", vec![]),
        Instr::VariantTypeName => ("VariantTypeName", vec![]),
        Instr::VariantToString => ("VariantToString", vec![]),
        Instr::WeakRefToRef => ("WeakRefToRef", vec![]),
        Instr::RefToWeakRef => ("RefToWeakRef", vec![]),
        Instr::WeakRefNull => ("WeakRefNull", vec![]),
        Instr::AsRef(x) => ("AsRef", vec![uidx(x)]),
        Instr::Deref(x) => ("Deref", vec![uidx(x)]),
    };
    J::obj(vec![("op", J::s(op)), ("args", J::Arr(args))])
}
