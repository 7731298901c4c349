//! Replays spec/GenTypes.tla.
use redscript::ast::{Ident, Kind, TypeName};

use crate::code::ensure;
use crate::json::J;

pub fn build(t: &J) -> TypeName {
    TypeName::new(Ident::from_heap(t.get("name").str().into()), t.get("args").arr().iter().map(build).collect())
}

pub fn run(c: &J) -> Result<(), String> {
    let t = build(c.get("t"));
    let want = |k: &str| c.get(k).str().to_owned();
    ensure!(t.pretty().as_ref() == want("pretty"), "pretty: {} want {}", t.pretty(), want("pretty"));
    ensure!(t.repr().as_ref() == want("repr"), "repr: {} want {}", t.repr(), want("repr"));
    ensure!(t.mangled().as_ref() == want("mangled"), "mangled: {} want {}", t.mangled(), want("mangled"));
    ensure!(t.to_string() == want("mangled"), "displayed: {t} want {}", want("mangled"));
    ensure!(t.name().as_ref() == c.get("t").get("name").str(), "name");
    ensure!(t.arguments().len() == c.get("t").get("args").arr().len(), "number of arguments");
    let kind = match t.kind() {
        Kind::Prim => "Prim",
        Kind::Ref => "Ref",
        Kind::WRef => "WRef",
        Kind::ScriptRef => "ScriptRef",
        Kind::Array => "Array",
    };
    ensure!(kind == want("kind"), "kind: {kind} want {}", want("kind"));
    if c.get("chain").bool() {
        let back = TypeName::from_repr(&want("repr"));
        ensure!(back == t, "reading {:?} gives {back:?}, want {t:?}", want("repr"));
    }
    Ok(())
}
