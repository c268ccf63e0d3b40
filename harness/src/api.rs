//! Checks on the two pieces of the library that are not reachable (or not
//! fully) through the command: the opcode printer and the data ranges.

use crate::case::{Case, Env, Eval};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[allow(unused)]
fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| crate::target::take_panic())
}

pub const HAVE_OPCODE: bool = cfg!(feature = "api_opcode");
pub const HAVE_RANGE: bool = cfg!(feature = "api_range");

pub fn eval(env: &Env, c: &Case) -> Eval {
    let mut e = Eval::default();
    e.nontrivial = true;
    let args: Vec<String> =
        c.args.iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect();
    match c.kind {
        "api-word" => {
            let w: u16 = args[0].parse().unwrap_or(0);
            e.viol = word(env, w);
            e.classes.push(if canonical(w) == Some(w) { "defined" } else { "other" });
        }
        "api-ranges" => {
            let v = numbers(&args[0]);
            e.viol = ranges(&v);
            e.nontrivial = v.len() > 2;
        }
        "api-append" => {
            let v = numbers(&args[0]);
            e.viol = append(&v);
        }
        _ => {}
    }
    e
}

fn numbers(s: &str) -> Vec<usize> {
    s.split(' ').filter_map(|x| x.parse().ok()).collect()
}

/// The documented instruction that the word encodes, in canonical form (the
/// unused y field of the shifts as zero), or None if there is none.
pub fn canonical(w: u16) -> Option<u16> {
    use crate::model::{Pat, FORMS};
    for f in FORMS {
        if f.mn == "nop" {
            continue;
        }
        let mut mask = 0u16;
        for p in f.pats {
            mask |= match p {
                Pat::X => 0x0F00,
                Pat::Y => 0x00F0,
                Pat::N => 0x000F,
                Pat::NN => 0x00FF,
                Pat::NNN => 0x0FFF,
                _ => 0,
            };
        }
        let unused = if f.mn == "shr" || f.mn == "shl" { 0x00F0 } else { 0 };
        if w & !(mask | unused) == f.base {
            return Some(w & !unused);
        }
    }
    None
}

#[cfg(feature = "api_opcode")]
pub fn text_of(w: u16) -> Result<String, String> {
    use c8s::assembler::opcode::Opcode;
    guarded(|| Opcode::from_instruction(w).to_assembly_string())
}
#[cfg(not(feature = "api_opcode"))]
pub fn text_of(_: u16) -> Result<String, String> {
    Err("no opcode API".into())
}

#[cfg(feature = "api_opcode")]
fn word(env: &Env, w: u16) -> Option<String> {
    use c8s::assembler::opcode::Opcode;
    let want = canonical(w).unwrap_or(0x0000);
    let r = guarded(|| {
        let op = Opcode::from_instruction(w);
        (op.to_assembly_string(), op.to_string(), op.to_formatted_assembly_string(w as usize % 7), op.as_instruction())
    });
    let (text, shown, formatted, enc) = match r {
        Ok(x) => x,
        Err(p) => return Some(format!("word ${:04X}: {}", w, p)),
    };
    // A decoded opcode re-encodes to its word; the shifts may keep the unused field.
    if enc != want && !(enc == w && canonical(w).is_some()) {
        return Some(format!("word ${:04X} decodes to {:?} which encodes as ${:04X}", w, text, enc));
    }
    if shown != text || formatted.trim_start() != text {
        return Some(format!("word ${:04X} prints as {:?}, {:?} and {:?}", w, text, shown, formatted));
    }
    let src = format!("{}\n", text);
    let bytes_of = |o: &crate::target::Outcome| {
        o.hex.as_ref().and_then(|h| crate::hex::decode(h, false).ok()).map(|d| d.bytes)
    };
    let expect = Some(vec![(0u32, (want >> 8) as u8), (1u32, want as u8)]);
    let mut o = env.run.run(src.as_bytes(), crate::target::Via::Lib);
    if bytes_of(&o) != expect {
        o = env.run.run_cli(src.as_bytes(), crate::target::Via::CliFile);
    }
    if bytes_of(&o) != expect {
        return Some(format!(
            "word ${:04X} prints as {:?}, which must assemble to ${:04X}, but: {}",
            w,
            text,
            want,
            o.show()
        ));
    }
    None
}
#[cfg(not(feature = "api_opcode"))]
fn word(_: &Env, _: u16) -> Option<String> {
    None
}

#[cfg(feature = "api_range")]
mod r {
    pub use c8s::assembler::data_range::{find_overlapping_ranges, DataRange};
    pub fn make(start: usize, len: usize) -> DataRange {
        use twelve_bit::u12::*;
        let s: U12 = (start as u16).unchecked_into();
        let mut r = DataRange::new(s);
        let data: Vec<u8> = (0..len).map(|k| (k * 7 + start) as u8).collect();
        assert!(r.append(&data), "append refused {} bytes at {}", len, start);
        r
    }
}

/// `v` is start, length, start, length, ... of ranges within 0..4096.
#[cfg(feature = "api_range")]
fn ranges(v: &[usize]) -> Option<String> {
    let spec: Vec<(usize, usize)> = v.chunks(2).map(|x| (x[0], x[1])).collect();
    let res = guarded(|| {
        let rs: Vec<r::DataRange> = spec.iter().map(|(s, n)| r::make(*s, *n)).collect();
        for i in 0..rs.len() {
            for j in 0..rs.len() {
                let (a, b) = (spec[i], spec[j]);
                let want = (a.0..a.0 + a.1).any(|x| x >= b.0 && x < b.0 + b.1);
                if rs[i].intersects(&rs[j]) != want {
                    return Some(format!("intersects({:?}, {:?}) is not {}", a, b, want));
                }
            }
        }
        let got: Vec<(usize, usize)> = r::find_overlapping_ranges(&rs)
            .iter()
            .map(|(a, b)| {
                let at = |x: &r::DataRange| rs.iter().position(|y| std::ptr::eq(x, y)).unwrap_or(9999);
                let (i, j) = (at(a), at(b));
                (i.min(j), i.max(j))
            })
            .collect();
        let mut want = Vec::new();
        for i in 0..rs.len() {
            for j in i + 1..rs.len() {
                let (a, b) = (spec[i], spec[j]);
                if (a.0..a.0 + a.1).any(|x| x >= b.0 && x < b.0 + b.1) {
                    want.push((i, j));
                }
            }
        }
        let mut got = got;
        got.sort();
        if got != want {
            return Some(format!("overlapping pairs of {:?} are {:?}, found {:?}", spec, want, got));
        }
        None
    });
    match res {
        Ok(x) => x,
        Err(p) => Some(format!("ranges {:?}: {}", spec, p)),
    }
}
#[cfg(not(feature = "api_range"))]
fn ranges(_: &[usize]) -> Option<String> {
    None
}

/// `v` is a start and the sizes of successive appends: each succeeds iff it fits.
#[cfg(feature = "api_range")]
fn append(v: &[usize]) -> Option<String> {
    let res = guarded(|| {
        let start = v[0];
        let mut range = r::make(start, 0);
        let mut model: Vec<u8> = Vec::new();
        for (k, n) in v[1..].iter().enumerate() {
            let data: Vec<u8> = (0..*n).map(|x| (x * 3 + k) as u8).collect();
            let fits = start + model.len() + n <= 4096;
            let ok = range.append(&data);
            if ok != fits {
                return Some(format!("append of {} bytes to {}+{} returned {}", n, start, model.len(), ok));
            }
            if ok {
                model.extend(&data);
            }
            if range.len() != model.len() || range.data() != &model {
                return Some(format!("after append of {} bytes at {} the data is wrong", n, start));
            }
            if range.bytes_remaining() != 4096 - start - model.len() {
                return Some(format!("bytes_remaining is {} at {}+{}", range.bytes_remaining(), start, model.len()));
            }
            // A half-open 12-bit range cannot express all 4096 addresses, so that size is out of its domain.
            if model.len() < 4096 && usize::from(range.address_range().start) != start {
                return Some("the start address changed".into());
            }
        }
        None
    });
    match res {
        Ok(x) => x,
        Err(p) => Some(format!("appends {:?}: {}", v, p)),
    }
}
#[cfg(not(feature = "api_range"))]
fn append(_: &[usize]) -> Option<String> {
    None
}
