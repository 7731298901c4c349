//! A bundle as spec/RsImage.tla takes it: every definition with what it refers to and what it owns.
use redscript::bundle::{ConstantPool, PoolIndex, ScriptBundle};
use redscript::bytecode::Instr;
use redscript::definition::{AnyDefinition, Type};

use crate::dump::name;
use crate::json::J;

fn kind(d: &AnyDefinition) -> &'static str {
    match d {
        AnyDefinition::Type(_) => "type",
        AnyDefinition::Class(_) => "class",
        AnyDefinition::EnumValue(_) => "value",
        AnyDefinition::Enum(_) => "enum",
        AnyDefinition::Function(_) => "function",
        AnyDefinition::Parameter(_) => "param",
        AnyDefinition::Local(_) => "local",
        AnyDefinition::Field(_) => "field",
        AnyDefinition::SourceFile(_) => "source",
    }
}

#[derive(Default)]
struct Links(Vec<J>);
impl Links {
    fn add<A>(&mut self, k: &str, i: PoolIndex<A>) {
        self.0.push(J::obj(vec![("k", J::s(k.to_owned())), ("i", J::Int(u32::from(i).into()))]));
    }
    fn all<A>(&mut self, k: &str, is: &[PoolIndex<A>]) {
        is.iter().for_each(|i| self.add::<A>(k, PoolIndex::new(u32::from(*i))));
    }
}

pub fn hash(bytes: &[u8]) -> String {
    let h = bytes.iter().fold(0xcbf2_9ce4_8422_2325_u64, |h, b| (h ^ u64::from(*b)).wrapping_mul(0x0100_0000_01b3));
    format!("{h:016x}")
}

fn code<L>(c: &[Instr<L>], refs: &mut Links, uses: &mut Links) {
    for i in c {
        match i {
            Instr::EnumConst(e, v) => {
                refs.add("enum", *e);
                refs.add("value", *v);
            }
            Instr::Local(l) => uses.add("local", *l),
            Instr::Param(p) => uses.add("param", *p),
            Instr::ObjectField(f) | Instr::StructField(f) => refs.add("field", *f),
            Instr::InvokeStatic(_, _, f, _) => refs.add("function", *f),
            Instr::Construct(_, c) | Instr::New(c) | Instr::DynamicCast(c, _) => refs.add("class", *c),
            Instr::Switch(t, _)
            | Instr::Equals(t)
            | Instr::RefStringEqualsString(t)
            | Instr::StringEqualsRefString(t)
            | Instr::NotEquals(t)
            | Instr::RefStringNotEqualsString(t)
            | Instr::StringNotEqualsRefString(t)
            | Instr::ArrayClear(t)
            | Instr::ArraySize(t)
            | Instr::ArrayResize(t)
            | Instr::ArrayFindFirst(t)
            | Instr::ArrayFindLast(t)
            | Instr::ArrayContains(t)
            | Instr::ArrayCount(t)
            | Instr::ArrayPush(t)
            | Instr::ArrayPop(t)
            | Instr::ArrayInsert(t)
            | Instr::ArrayRemove(t)
            | Instr::ArrayGrow(t)
            | Instr::ArrayErase(t)
            | Instr::ArrayLast(t)
            | Instr::ArrayElement(t)
            | Instr::EnumToI32(t, _)
            | Instr::I32ToEnum(t, _)
            | Instr::ToString(t)
            | Instr::ToVariant(t)
            | Instr::FromVariant(t)
            | Instr::AsRef(t)
            | Instr::Deref(t) => refs.add("type", *t),
            _ => {}
        }
    }
}

/// Every definition, in order.
pub fn image(pool: &ConstantPool) -> J {
    let mut out = vec![];
    for (n, (ix, d)) in pool.definitions().enumerate() {
        assert_eq!(u32::from(ix) as usize, n + 1, "harness: definitions");
        let (mut refs, mut owns, mut uses) = (Links::default(), Links::default(), Links::default());
        let mut more = vec![];
        match &d.value {
            AnyDefinition::Type(t) => {
                more.push(("sort", J::s(format!("{t:?}").split('(').next().unwrap().to_owned())));
                match t {
                    Type::Ref(t) | Type::WeakRef(t) | Type::Array(t) | Type::StaticArray(t, _) | Type::ScriptRef(t) => refs.add("type", *t),
                    Type::Prim | Type::Class => {}
                }
            }
            AnyDefinition::Class(c) => {
                if !c.base.is_undefined() {
                    refs.add("class", c.base);
                }
                owns.all("function", &c.functions);
                owns.all("field", &c.fields);
                refs.all("field", &c.overrides);
            }
            AnyDefinition::EnumValue(_) | AnyDefinition::SourceFile(_) => {}
            AnyDefinition::Enum(e) => owns.all("value", &e.members),
            AnyDefinition::Function(f) => {
                refs.all("param", &f.parameters);
                owns.all("local", &f.locals);
                if let Some(t) = f.return_type {
                    refs.add("type", t);
                }
                if let Some(b) = f.base_method {
                    refs.add("function", b);
                    more.push(("base", J::Int(u32::from(b).into())));
                }
                if let Some(s) = &f.source {
                    refs.add::<()>("source", PoolIndex::new(s.file.into()));
                }
                code(f.code.as_ref(), &mut refs, &mut uses);
            }
            AnyDefinition::Parameter(p) => refs.add("type", p.type_),
            AnyDefinition::Local(l) => refs.add("type", l.type_),
            AnyDefinition::Field(f) => refs.add("type", f.type_),
        }
        out.push(J::obj(
            [
                ("k", J::s(kind(&d.value).to_owned())),
                ("name", J::s(if matches!(d.value, AnyDefinition::SourceFile(_)) { String::new() } else { name(pool, ix.into()) })),
                ("short", J::s(name(pool, ix.into()).split(';').next().unwrap().to_owned())),
                ("parent", J::Int(u32::from(d.parent).into())),
                ("refs", J::Arr(refs.0)),
                ("owns", J::Arr(owns.0)),
                ("uses", J::Arr(uses.0)),
                ("same", J::s(hash(format!("{} {} {:?}", name(pool, ix.into()), u32::from(d.parent), d.value).as_bytes()))),
            ]
            .into_iter()
            .chain(more)
            .collect(),
        ));
    }
    J::Arr(out)
}

/// The bundle each stage leaves, and whether compiling it twice gives the same bytes.
pub fn record(c: &J) -> J {
    let base = crate::prog::base();
    let (mut texts, mut diags, mut err, mut images) = (vec![], vec![], String::new(), vec![image(&crate::prog::load(&base).pool)]);
    let (mut bytes, mut again) = (base, vec![]);
    let mut places = vec![];
    for stage in c.get("stages").arr() {
        let sources: Vec<String> = stage.arr().iter().map(crate::prog::text).collect();
        texts.extend(sources.iter().map(|s| J::s(s.clone())));
        let run = || {
            let res = std::panic::catch_unwind(|| {
                let mut bundle: ScriptBundle = crate::prog::load(&bytes);
                let (d, p) = crate::prog::compile(&mut bundle.pool, &sources)?;
                Ok::<_, String>((crate::prog::save(&bundle), d, p))
            });
            res.unwrap_or_else(|_| Err("panicked".to_owned()))
        };
        let (first, second) = (run(), run());
        let out = |r: &Result<(Vec<u8>, Vec<J>, Vec<J>), String>| match r {
            Ok((b, d, _)) => J::obj(vec![("len", J::Int(b.len() as i64)), ("hash", J::s(hash(b))), ("diags", J::Arr(d.clone()))]),
            Err(e) => J::obj(vec![("len", J::Int(-1)), ("hash", J::s(e.clone())), ("diags", J::Arr(vec![]))]),
        };
        again.push(J::Arr(vec![out(&first), out(&second)]));
        match first {
            Ok((b, d, p)) => {
                bytes = b;
                diags.extend(d);
                places.push(J::Arr(p));
            }
            Err(e) => err = e,
        }
        if !err.is_empty() || diags.iter().any(|d| d.get("fatal").bool()) {
            break;
        }
        images.push(image(&crate::prog::load(&bytes).pool));
    }
    J::obj(vec![
        ("texts", J::Arr(texts)),
        ("diags", J::Arr(diags)),
        ("err", J::s(err)),
        ("again", J::Arr(again)),
        ("images", J::Arr(images)),
        ("places", J::Arr(places)),
        ("want", c.get("want").clone()),
    ])
}
