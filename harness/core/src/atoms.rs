//! The strings that the specification names by an atom ("~..."), and the rendering of its typed tokens to bytes.
use crate::json::J;

pub fn atom(s: &str) -> String {
    match s {
        "~empty" => String::new(),
        "~utf8" => "caf\u{e9}\u{2603}".into(), // c a f é(2) ☃(3) = 8 bytes
        "~jp" => "\u{65e5}\u{672c}".into(),
        "~quote" => "a\"b".into(),
        "~bs" => "a\\b".into(),
        "~nl" => "a\nb\tc".into(),
        "~big300" => "x".repeat(300),
        "~big40000" => "y".repeat(40000),
        "~big20000" => "z".repeat(20000),
        _ if s.starts_with("~big") => "w".repeat(s[4..].parse().expect("harness: big")),
        _ if s.starts_with('~') => panic!("harness: unknown atom {s}"),
        _ => s.to_owned(),
    }
}

/// Typed token -> little-endian bytes. `crc` is an uninterpreted function of a byte range in the specification; here it
/// is the standard CRC-32 (reflected 0xEDB88320), computed independently of the code under test.
pub fn render(tokens: &[J]) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    let mut fixups: Vec<(usize, usize, usize)> = vec![];
    let mut self_hash: Option<usize> = None;
    for t in tokens {
        let v = t.get("v");
        match t.get("t").str() {
            "u8" => out.push(v.text().parse::<u8>().expect("harness u8")),
            "i8" => out.push(v.text().parse::<i8>().expect("harness i8") as u8),
            "u16" => out.extend(v.text().parse::<u16>().expect("harness u16").to_le_bytes()),
            "i16" => out.extend(v.text().parse::<i16>().expect("harness i16").to_le_bytes()),
            "u32" => out.extend(v.text().parse::<u32>().expect("harness u32").to_le_bytes()),
            "i32" => out.extend(v.text().parse::<i32>().expect("harness i32").to_le_bytes()),
            "u64" => out.extend(v.text().parse::<u64>().expect("harness u64").to_le_bytes()),
            "i64" => out.extend(v.text().parse::<i64>().expect("harness i64").to_le_bytes()),
            "f32" => out.extend(v.text().parse::<f32>().expect("harness f32").to_le_bytes()),
            "f64" => out.extend(v.text().parse::<f64>().expect("harness f64").to_le_bytes()),
            "bytes" => out.extend(atom(v.str()).as_bytes()),
            // a CRC of the bytes in [from, to) of the finished file
            "crc" => {
                fixups.push((out.len(), v.arr()[0].int() as usize, v.arr()[1].int() as usize));
                out.extend([0; 4]);
            }
            // the header hash: CRC of the header with 0xDEADBEEF in this place
            "selfcrc" => {
                self_hash = Some(out.len());
                out.extend([0; 4]);
            }
            other => panic!("harness: unknown token {other}"),
        }
    }
    for (at, from, to) in fixups {
        let c = crc32(&out[from..to]);
        out[at..at + 4].copy_from_slice(&c.to_le_bytes());
    }
    if let Some(at) = self_hash {
        out[at..at + 4].copy_from_slice(&0xDEAD_BEEFu32.to_le_bytes());
        let c = crc32(&out[0..104]);
        out[at..at + 4].copy_from_slice(&c.to_le_bytes());
    }
    out
}

pub fn crc32(bytes: &[u8]) -> u32 {
    let mut c = 0xFFFF_FFFFu32;
    for b in bytes {
        c ^= u32::from(*b);
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn diff_bytes(want: &[u8], got: &[u8]) -> String {
    let n = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    let w = &want[n.min(want.len())..want.len().min(n + 16)];
    let g = &got[n.min(got.len())..got.len().min(n + 16)];
    format!("want {} bytes, got {} bytes; first difference at {n}: want {} got {}", want.len(), got.len(), hex(w), hex(g))
}
