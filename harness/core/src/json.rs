//! A small JSON reader/writer (serde_json is not in the offline registry for this toolchain).
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn parse(s: &str) -> Result<J, String> {
        let b = s.as_bytes();
        let mut p = 0;
        let v = val(b, &mut p)?;
        ws(b, &mut p);
        if p != b.len() {
            return Err(format!("trailing input at {p}"));
        }
        Ok(v)
    }
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        matches!(self, J::Obj(m) if m.contains_key(k))
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("harness: not a string: {self:?}"),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            J::Str(s) => s.parse().unwrap_or_else(|_| panic!("harness: not an int: {s}")),
            _ => panic!("harness: not an int: {self:?}"),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            _ => panic!("harness: not a bool: {self:?}"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            J::Obj(m) if m.is_empty() => &[],
            _ => panic!("harness: not an array: {self:?}"),
        }
    }
    pub fn text(&self) -> String {
        match self {
            J::Str(s) => s.clone(),
            J::Int(i) => i.to_string(),
            J::Bool(b) => b.to_string(),
            _ => panic!("harness: not a scalar: {self:?}"),
        }
    }
    pub fn s(s: impl Into<String>) -> J {
        J::Str(s.into())
    }
    pub fn obj(kv: Vec<(&str, J)>) -> J {
        J::Obj(kv.into_iter().map(|(k, v)| (k.to_owned(), v)).collect())
    }
    pub fn dump(&self) -> String {
        let mut o = String::new();
        self.write(&mut o);
        o
    }
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => write!(o, "{i}").unwrap(),
            J::Str(s) => wstr(o, s),
            J::Arr(a) => {
                o.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    v.write(o);
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    wstr(o, k);
                    o.push(':');
                    v.write(o);
                }
                o.push('}');
            }
        }
    }
}

fn wstr(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && matches!(b[*p], b' ' | b'\n' | b'\r' | b'\t') {
        *p += 1;
    }
}

fn val(b: &[u8], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    match b.get(*p) {
        Some(b'{') => {
            *p += 1;
            let mut m = BTreeMap::new();
            ws(b, p);
            if b.get(*p) == Some(&b'}') {
                *p += 1;
                return Ok(J::Obj(m));
            }
            loop {
                ws(b, p);
                let k = string(b, p)?;
                ws(b, p);
                if b.get(*p) != Some(&b':') {
                    return Err(format!("expected : at {p}"));
                }
                *p += 1;
                let v = val(b, p)?;
                m.insert(k, v);
                ws(b, p);
                match b.get(*p) {
                    Some(b',') => *p += 1,
                    Some(b'}') => {
                        *p += 1;
                        return Ok(J::Obj(m));
                    }
                    _ => return Err(format!("bad object at {p}")),
                }
            }
        }
        Some(b'[') => {
            *p += 1;
            let mut a = vec![];
            ws(b, p);
            if b.get(*p) == Some(&b']') {
                *p += 1;
                return Ok(J::Arr(a));
            }
            loop {
                a.push(val(b, p)?);
                ws(b, p);
                match b.get(*p) {
                    Some(b',') => *p += 1,
                    Some(b']') => {
                        *p += 1;
                        return Ok(J::Arr(a));
                    }
                    _ => return Err(format!("bad array at {p}")),
                }
            }
        }
        Some(b'"') => Ok(J::Str(string(b, p)?)),
        Some(b't') => {
            *p += 4;
            Ok(J::Bool(true))
        }
        Some(b'f') => {
            *p += 5;
            Ok(J::Bool(false))
        }
        Some(b'n') => {
            *p += 4;
            Ok(J::Null)
        }
        Some(_) => {
            let s = *p;
            while *p < b.len() && matches!(b[*p], b'-' | b'0'..=b'9') {
                *p += 1;
            }
            std::str::from_utf8(&b[s..*p])
                .unwrap()
                .parse()
                .map(J::Int)
                .map_err(|e| format!("{e} at {s}"))
        }
        None => Err("unexpected end".into()),
    }
}

fn string(b: &[u8], p: &mut usize) -> Result<String, String> {
    if b.get(*p) != Some(&b'"') {
        return Err(format!("expected string at {p}"));
    }
    *p += 1;
    let mut out = Vec::new();
    loop {
        match b.get(*p) {
            Some(b'"') => {
                *p += 1;
                return String::from_utf8(out).map_err(|e| e.to_string());
            }
            Some(b'\\') => {
                *p += 1;
                let c = b[*p];
                *p += 1;
                match c {
                    b'n' => out.push(b'\n'),
                    b'r' => out.push(b'\r'),
                    b't' => out.push(b'\t'),
                    b'b' => out.push(8),
                    b'f' => out.push(12),
                    b'u' => {
                        let h = std::str::from_utf8(&b[*p..*p + 4]).unwrap();
                        let n = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                        *p += 4;
                        let ch = char::from_u32(n).unwrap_or('\u{fffd}');
                        out.extend(ch.to_string().as_bytes());
                    }
                    c => out.push(c),
                }
            }
            Some(c) => {
                out.push(*c);
                *p += 1;
            }
            None => return Err("unterminated string".into()),
        }
    }
}
