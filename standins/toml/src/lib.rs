//! The part of `toml` scc-lib uses: files of `[[KEY]]` tables whose entries are basic or literal strings, comments and blank lines.
use std::fmt;

use serde::de::value::{MapDeserializer, SeqDeserializer, StringDeserializer};
use serde::de::{Deserialize, DeserializeOwned, Deserializer, IntoDeserializer, Visitor};
use serde::forward_to_deserialize_any;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl serde::de::Error for Error {
    fn custom<T: fmt::Display>(msg: T) -> Self {
        Self(msg.to_string())
    }
}

struct Text(String);
impl<'de> IntoDeserializer<'de, Error> for Text {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}
impl<'de> Deserializer<'de> for Text {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_string(self.0)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_some(self)
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

struct Table(Vec<(String, String)>);
impl<'de> IntoDeserializer<'de, Error> for Table {
    type Deserializer = MapDeserializer<'de, std::vec::IntoIter<(String, Text)>, Error>;
    fn into_deserializer(self) -> Self::Deserializer {
        MapDeserializer::new(self.0.into_iter().map(|(k, v)| (k, Text(v))).collect::<Vec<_>>().into_iter())
    }
}
struct Tables(Vec<Table>);
impl<'de> IntoDeserializer<'de, Error> for Tables {
    type Deserializer = SeqDeserializer<std::vec::IntoIter<Table>, Error>;
    fn into_deserializer(self) -> Self::Deserializer {
        SeqDeserializer::new(self.0.into_iter())
    }
}

fn value(s: &str) -> Result<String, Error> {
    let mut out = String::new();
    let mut chars = s.chars();
    let quote = chars.next().ok_or_else(|| Error("value expected".to_owned()))?;
    if quote != '"' && quote != '\'' {
        return Err(Error(format!("string expected, found {s}")));
    }
    loop {
        match chars.next() {
            None => return Err(Error("unterminated string".to_owned())),
            Some(c) if c == quote => break,
            Some('\\') if quote == '"' => match chars.next() {
                Some('n') => out.push('\n'),
                Some('t') => out.push('\t'),
                Some(c @ ('"' | '\\')) => out.push(c),
                _ => return Err(Error("unknown escape".to_owned())),
            },
            Some(c) => out.push(c),
        }
    }
    let rest = chars.as_str().trim();
    if rest.is_empty() || rest.starts_with('#') {
        Ok(out)
    } else {
        Err(Error(format!("unexpected {rest}")))
    }
}

pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T, Error> {
    let mut all: Vec<(String, Vec<Table>)> = vec![];
    let mut current: Option<usize> = None;
    for line in s.lines().map(str::trim).filter(|l| !l.is_empty() && !l.starts_with('#')) {
        if let Some(key) = line.strip_prefix("[[").and_then(|l| l.strip_suffix("]]")) {
            let i = all.iter().position(|(k, _)| k == key.trim()).unwrap_or_else(|| {
                all.push((key.trim().to_owned(), vec![]));
                all.len() - 1
            });
            all[i].1.push(Table(vec![]));
            current = Some(i);
        } else {
            let (k, v) = line.split_once('=').ok_or_else(|| Error(format!("unexpected {line}")))?;
            let i = current.ok_or_else(|| Error("entry outside of a table".to_owned()))?;
            all[i].1.last_mut().unwrap().0.push((k.trim().to_owned(), value(v.trim())?));
        }
    }
    let de: MapDeserializer<'_, _, Error> = MapDeserializer::new(all.into_iter().map(|(k, v)| (k, Tables(v))));
    T::deserialize(de)
}

#[allow(dead_code)]
fn unused(_: StringDeserializer<Error>) -> Option<String> {
    <String as Deserialize>::deserialize(Text(String::new())).ok()
}
