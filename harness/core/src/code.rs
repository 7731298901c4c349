//! Replays behaviours of spec/GenCode.tla: instruction encoding, code blocks, labels, the code cursor.
use redscript::bytecode::{Code, Instr, Label, Location, Offset};
use redscript::decode::DecodeExt;
use redscript::encode::EncodeExt;

use crate::atoms::{diff_bytes, render};
use crate::instr::build;
use crate::json::J;
use crate::streams::Trickle;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
pub(crate) use ensure;

fn enc<A: redscript::encode::Encode>(a: &A) -> Result<Vec<u8>, String> {
    let mut out: Vec<u8> = vec![];
    out.encode(a).map_err(|e| format!("encode failed: {e}"))?;
    Ok(out)
}

pub fn bytes(c: &J) -> Result<(), String> {
    run(c, "bytes")
}
pub fn locs(c: &J) -> Result<(), String> {
    run(c, "locs")
}
pub fn cut(c: &J) -> Result<(), String> {
    run(c, "cut")
}

/// A prefix of an encoding is an error, never a value and never a panic.
fn truncations<A: redscript::decode::Decode + std::fmt::Debug>(want: &[u8]) -> Result<(), String> {
    for n in 0..want.len() {
        let res = std::panic::catch_unwind(|| (&want[..n]).decode::<A>());
        ensure!(matches!(res, Ok(Err(_))), "the first {n} of {} bytes were not refused ({res:?})", want.len());
    }
    Ok(())
}

pub fn run(c: &J, aspect: &str) -> Result<(), String> {
    match c.get("k").str() {
        "instr" => {
            let i: Instr<Offset> = build(c.get("i"));
            let want = render(c.get("bytes").arr());
            if aspect == "cut" {
                return truncations::<Instr<Offset>>(&want);
            }
            ensure!(i64::from(i.size()) == c.get("size").int(), "size: want {} got {}", c.get("size").int(), i.size());
            let got = enc(&i)?;
            ensure!(got == want, "encoding: {}", diff_bytes(&want, &got));
            let mut rest = want.as_slice();
            let back: Instr<Offset> = rest.decode().map_err(|e| format!("decode failed: {e}"))?;
            ensure!(rest.is_empty(), "decoding left {} bytes unread", rest.len());
            ensure!(back == i, "decoded {back:?} from the encoding of {i:?}");
        }
        "label" => {
            let i: Instr<Label> = build(c.get("i"));
            let targets: Vec<Location> = c.get("targets").arr().iter().map(|t| Location::new(t.int() as u16)).collect();
            let size = i.size();
            let got = i.resolve_labels(Location::new(c.get("loc").int() as u16), &targets);
            let want: Instr<Offset> = build(c.get("want"));
            ensure!(got == want, "resolved to {got:?}, want {want:?}");
            ensure!(got.size() == size, "resolution changed the size");
        }
        "code" => {
            let instrs: Vec<Instr<Offset>> = c.get("code").arr().iter().map(build).collect();
            let code = Code::new(instrs.clone());
            let want = render(c.get("bytes").arr());
            match aspect {
                "cut" => return truncations::<Code<Offset>>(&want),
                "locs" => {
                    ensure!(code.len() == instrs.len() && code.is_empty() == instrs.is_empty(), "len/is_empty");
                    let locs: Vec<i64> = code.iter().map(|(l, _)| l.value.into()).collect();
                    let want_locs: Vec<i64> = c.get("locs").arr().iter().map(J::int).collect();
                    ensure!(locs == want_locs, "locations: want {want_locs:?} got {locs:?}");
                    ensure!(code.iter().map(|(_, i)| i).eq(instrs.iter().cloned()), "iteration changed the instructions");
                    return Ok(());
                }
                _ => {}
            }
            let got = enc(&code)?;
            ensure!(got == want, "encoding: {}", diff_bytes(&want, &got));
            let mut padded = want.clone();
            padded.extend([0xAA; 7]);
            let mut rest = padded.as_slice();
            let back: Code<Offset> = rest.decode().map_err(|e| format!("decode failed: {e}"))?;
            ensure!(rest.len() == 7, "decoding consumed {} bytes of {}", padded.len() - rest.len(), want.len());
            ensure!(back == code, "decoded {back:?}");
            let slow: Code<Offset> = Trickle::new(&want).decode().map_err(|e| format!("trickled decode failed: {e}"))?;
            ensure!(slow == code, "decoded {slow:?} from a trickling stream");
        }
        "cursor" => {
            let instrs: Vec<Instr<Offset>> = c.get("code").arr().iter().map(build).collect();
            let code = Code::new(instrs);
            let mut cur = code.cursor();
            for (n, h) in c.get("hist").arr().iter().enumerate() {
                let before = cur.peek();
                let res = match h.get("o").str() {
                    "pop" => match cur.pop() {
                        Ok(i) => {
                            ensure!(Some(&i) == before.as_ref(), "step {n}: pop returned {i:?}, peek had {before:?}");
                            "ok"
                        }
                        Err(_) => "end",
                    },
                    "abs" => match cur.seek_abs(Location::new(h.get("a").int() as u16)) {
                        Ok(()) => "ok",
                        Err(_) => "bad",
                    },
                    "rel" => match cur.seek_rel(Offset::new(h.get("a").int() as i16)) {
                        Ok(()) => "ok",
                        Err(_) => "bad",
                    },
                    "range" => match cur.range(
                        Location::new(h.get("a").int() as u16),
                        Location::new(h.get("b").int() as u16),
                    ) {
                        Ok(it) => {
                            let got: Vec<(i64, String)> = it
                                .map(|(l, i)| (l.value.into(), crate::instr::describe(&i).get("op").text()))
                                .collect();
                            if h.get("res").str() == "ok" {
                                let want: Vec<(i64, String)> =
                                    h.get("locs").arr().iter().zip(h.get("ops").arr()).map(|(l, o)| (l.int(), o.text())).collect();
                                ensure!(got == want, "step {n}: range {h:?} gave {got:?}");
                            }
                            "ok"
                        }
                        Err(_) => "bad",
                    },
                    o => panic!("harness: op {o}"),
                };
                ensure!(res == h.get("res").str(), "step {n} {}: want {} got {res}", h.get("o").str(), h.get("res").str());
                ensure!(
                    i64::from(cur.pos().value) == h.get("pos").int(),
                    "step {n}: position {} want {}",
                    cur.pos().value,
                    h.get("pos").int()
                );
                let peek = cur.peek();
                if h.get("peek").get("op").str() == "none" {
                    ensure!(peek.is_none(), "step {n}: peek at the end gave {peek:?}");
                } else {
                    let want: Instr<Offset> = build(h.get("peek"));
                    ensure!(peek.as_ref() == Some(&want), "step {n}: peek {peek:?} want {want:?}");
                }
            }
        }
        k => panic!("harness: case kind {k}"),
    }
    Ok(())
}
