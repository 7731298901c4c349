//! The decompiler's text as tokens: nothing here knows the grammar beyond what a word, a number and a string is
//! (compiler/src/parser.rs: ident, number, constant, escaped_char).
use crate::json::J;

pub struct Text {
    pub toks: Vec<J>,
    pub lines: Vec<J>,
}

fn tok(t: &str, v: impl Into<String>) -> J {
    J::obj(vec![("t", J::s(t)), ("v", J::s(v.into()))])
}

const PUNCT: [&str; 13] = ["||", "&&", "==", "!=", "<=", ">=", "+=", "-=", "*=", "/=", "|=", "&=", "->"];

fn number(digits: &str, suffix: &str) -> J {
    macro_rules! num {
        ($t:expr, $ty:ty) => {
            digits.parse::<$ty>().map(|v| tok($t, v.to_string()))
        };
    }
    let bad = || tok("bad", digits);
    match suffix {
        "d" | "ud" => num!("F64", f64).unwrap_or_else(|_| bad()),
        _ if digits.contains('.') && suffix.is_empty() => num!("F32", f32).unwrap_or_else(|_| bad()),
        "ul" => num!("U64", u64).unwrap_or_else(|_| bad()),
        "u" => num!("U32", u32).unwrap_or_else(|_| bad()),
        "l" if digits == "9223372036854775808" => tok("BigI64", digits),
        "l" => num!("I64", i64).unwrap_or_else(|_| bad()),
        "" if digits == "2147483648" => tok("BigI32", digits),
        // only enum members and array lengths may be that wide
        "" => num!("I32", i32).unwrap_or_else(|_| tok("Wide", digits)),
        _ => bad(),
    }
}

/// The contents of a string literal whose opening quote has been read; None if it is not one.
fn string(cs: &[char], mut at: usize) -> Option<(String, usize)> {
    let mut out = String::new();
    loop {
        match *cs.get(at)? {
            '"' => return Some((out, at + 1)),
            '\\' => {
                match *cs.get(at + 1)? {
                    'n' => out.push('\n'),
                    'r' => out.push('\r'),
                    't' => out.push('\t'),
                    c @ ('\'' | '"' | '\\') => out.push(c),
                    'u' => {
                        let end = at + 3 + cs.get(at + 3..)?.iter().position(|c| *c == '}')?;
                        let hex: String = cs[at + 3..end].iter().collect();
                        if cs[at + 2] != '{' || hex.is_empty() || hex.len() > 6 {
                            return None;
                        }
                        out.push(char::from_u32(u32::from_str_radix(&hex, 16).ok()?)?);
                        at = end - 1;
                    }
                    _ => return None,
                }
                at += 2;
            }
            c => {
                out.push(c);
                at += 1;
            }
        }
    }
}

pub fn lex(text: &str) -> Text {
    let cs: Vec<char> = text.chars().collect();
    let mut out = Text { toks: vec![], lines: vec![] };
    let (mut at, mut indent, mut fresh) = (0, 0, true);
    while at < cs.len() {
        let c = cs[at];
        if c == '\n' {
            (at, indent, fresh) = (at + 1, 0, true);
            continue;
        }
        if c.is_whitespace() {
            (at, indent) = (at + 1, indent + 1);
            continue;
        }
        if fresh {
            out.lines.push(J::obj(vec![("at", J::Int(out.toks.len() as i64 + 1)), ("ind", J::Int(indent))]));
            fresh = false;
        }
        let run = |f: &dyn Fn(char) -> bool, from: usize| from + cs[from..].iter().position(|c| !f(*c)).unwrap_or(cs.len() - from);
        let literal = match (c, cs.get(at + 1)) {
            ('"', _) => Some(("Str", at + 1)),
            ('n', Some('"')) => Some(("Name", at + 2)),
            ('r', Some('"')) => Some(("Res", at + 2)),
            ('t', Some('"')) => Some(("Tweak", at + 2)),
            _ => None,
        };
        if let Some((t, from)) = literal {
            match string(&cs, from) {
                Some((s, end)) => {
                    out.toks.push(tok(t, s));
                    at = end;
                }
                None => {
                    out.toks.push(tok("bad", "string"));
                    at = from;
                }
            }
        } else if c.is_ascii_alphabetic() || c == '_' {
            let end = run(&|c| c.is_ascii_alphanumeric() || c == '_', at);
            out.toks.push(tok("id", cs[at..end].iter().collect::<String>()));
            at = end;
        } else if c.is_ascii_digit() {
            let end = run(&|c| c.is_ascii_digit() || c == '.', at);
            let stop = run(&|c| c.is_ascii_alphanumeric() || c == '_', end);
            let text: String = cs[at..end].iter().collect();
            let suffix: String = cs[end..stop].iter().collect();
            out.toks.push(number(&text, &suffix));
            at = stop;
        } else {
            let two: String = cs[at..(at + 2).min(cs.len())].iter().collect();
            let n = if PUNCT.contains(&two.as_str()) { 2 } else { 1 };
            out.toks.push(tok("p", cs[at..at + n].iter().collect::<String>()));
            at += n;
        }
    }
    out
}

impl Text {
    pub fn json(self) -> J {
        J::obj(vec![("toks", J::Arr(self.toks)), ("lines", J::Arr(self.lines))])
    }
}
