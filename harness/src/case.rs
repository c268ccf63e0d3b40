//! A case is a kind (which oracle judges it), the route, and byte blobs. It can
//! be written to a replay file and judged again from it, without the generator.

use crate::hex;
use crate::model::{self, Kind, Verdict, What};
use crate::target::{Outcome, Runner, Status, Via};
use std::sync::atomic::Ordering;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Case {
    pub kind: &'static str,
    pub via: Via,
    pub args: Vec<Vec<u8>>,
}

#[derive(Default, Debug)]
pub struct Eval {
    pub viol: Option<String>,
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    /// The harness contradicts itself: an error of the check, not of the code.
    pub internal: Option<String>,
}

pub struct Env {
    pub run: Arc<Runner>,
    pub dict: crate::dict::Dict,
    pub version: String,
    pub thorough: bool,
}

impl Env {
    pub fn lib(&self) -> bool {
        self.run.use_lib.load(Ordering::Relaxed)
    }
}

pub fn run_case(kind: &'static str, via: Via, src: impl Into<Vec<u8>>) -> Case {
    Case { kind, via, args: vec![src.into()] }
}

pub fn class_of(v: &Verdict) -> &'static str {
    match v.kind() {
        None => "accepted",
        Some(k) => match k {
            Kind::NotUtf8 => "not-utf8",
            Kind::BadToken => "bad-token",
            Kind::Syntax => "syntax",
            Kind::Eof => "eof",
            Kind::Directive => "directive",
            Kind::TooLarge => "too-large",
            Kind::DirOverflow => "dir-overflow",
            Kind::InsOverflow => "ins-overflow",
            Kind::Redefinition => "redefinition",
            Kind::EquAlone => "equ-alone",
            Kind::NoForm => "no-form",
            Kind::Undefined => "undefined",
            Kind::Range => "range",
            Kind::Overlap => "overlap",
        },
    }
}

fn expect_reject(o: &Outcome, why: &str) -> Option<String> {
    if o.status == Status::Exit(1) && o.hex.is_none() && !o.diag.is_empty() {
        None
    } else {
        Some(format!(
            "must be rejected ({}) with exit status 1, a diagnostic and no output, but: {}",
            why,
            o.show()
        ))
    }
}

fn expect_ok(o: &Outcome) -> Option<String> {
    if o.status == Status::Exit(0) && o.hex.is_some() {
        None
    } else {
        Some(format!("is valid and must be assembled, but: {}", o.show()))
    }
}

fn compare_bytes(
    image: &model::Image,
    o: &Outcome,
    strict: bool,
    only: Option<&dyn Fn(What) -> bool>,
) -> Option<String> {
    if let Some(v) = expect_ok(o) {
        return Some(v);
    }
    let dec = match hex::decode(o.hex.as_ref().unwrap(), strict) {
        Ok(d) => d,
        Err(e) => return Some(format!("output is not valid I8HEX: {}; {}", e, o.show())),
    };
    match only {
        None => {
            let want = image.sorted();
            if dec.bytes != want {
                let d = want
                    .iter()
                    .find(|x| !dec.bytes.contains(x))
                    .map(|x| {
                        let got: Vec<String> = dec
                            .bytes
                            .iter()
                            .filter(|y| y.0 == x.0)
                            .map(|y| format!("{:02X}", y.1))
                            .collect();
                        format!("expected {:02X} at ${:03X}, got [{}]", x.1, x.0, got.join(" "))
                    })
                    .or_else(|| {
                        dec.bytes
                            .iter()
                            .find(|x| !want.contains(x))
                            .map(|x| format!("unexpected {:02X} at ${:03X}", x.1, x.0))
                    })
                    .unwrap_or_else(|| "an address is written twice".into());
                return Some(format!("memory image is wrong: {}; {}", d, o.show()));
            }
        }
        Some(f) => {
            let got: std::collections::HashMap<u32, u8> = dec.bytes.iter().copied().collect();
            let mut addrs: Vec<_> = image.what.iter().filter(|(_, w)| f(**w)).map(|x| *x.0).collect();
            addrs.sort();
            for a in addrs {
                if got.get(&a) != image.bytes.get(&a) {
                    return Some(format!(
                        "expected byte {:02X?} at ${:03X}, got {:02X?}; {}",
                        image.bytes[&a],
                        a,
                        got.get(&a),
                        o.show()
                    ));
                }
            }
        }
    }
    None
}

/// All numbers written `$HEX` in the text.
fn dollar_numbers(s: &str) -> Vec<u32> {
    let mut v = Vec::new();
    for part in s.split('$').skip(1) {
        let h: String = part.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
        if let Ok(n) = u32::from_str_radix(&h, 16) {
            v.push(n);
        }
    }
    v
}

/// Does `s` contain `name` as a whole word?
fn names(s: &str, name: &str) -> bool {
    let w = |c: char| c == '_' || c.is_ascii_alphanumeric();
    let mut from = 0;
    while let Some(k) = s[from..].find(name) {
        let a = from + k;
        let b = a + name.len();
        let before = s[..a].chars().last().map(w).unwrap_or(false);
        let after = s[b..].chars().next().map(w).unwrap_or(false);
        if !before && !after {
            return true;
        }
        from = a + 1;
    }
    false
}

/// Judges the case on its route; a failure in-process is only believed if the
/// real command fails the same judgement.
pub fn eval(env: &Env, c: &Case) -> Eval {
    let lib = c.via == Via::Lib && env.lib();
    let e = eval_on(env, c);
    if e.viol.is_some() && lib && !c.kind.starts_with("api-") {
        let mut c2 = c.clone();
        c2.via = Via::CliFile;
        let e2 = eval_on(env, &c2);
        if e2.viol.is_none() {
            // The in-process composition is not what the command does.
            let n = env.run.unconfirmed.fetch_add(1, Ordering::Relaxed);
            if n >= 20 {
                env.run.use_lib.store(false, Ordering::Relaxed);
            }
        }
        return e2;
    }
    e
}

fn eval_on(env: &Env, c: &Case) -> Eval {
    match c.kind {
        "fs" | "env" | "argv" | "hist" | "loc-path" => return crate::scenario::eval(env, c),
        "api-word" | "api-ranges" | "api-append" => return crate::api::eval(env, c),
        "same-output" | "same-image" => return eval_same(env, c),
        "words" => return eval_words(env, c),
        _ => {}
    }
    let src = &c.args[0];
    let m = model::assemble(src);
    let mut e = Eval::default();
    e.classes.push(class_of(&m));
    let o = env.run.run(src, c.via);
    let class = class_of(&m);
    match c.kind {
        // Exact agreement on acceptance and image.
        "full" => match &m {
            Verdict::Ok(image) => {
                e.nontrivial = !image.bytes.is_empty() || image.n_label > 0;
                e.viol = compare_bytes(image, &o, false, None);
            }
            _ => {
                e.nontrivial = true;
                e.viol = expect_reject(&o, class);
            }
        },
        // Valid programs; the bytes of their instructions.
        "instructions" => match &m {
            Verdict::Ok(image) => {
                e.nontrivial = image.n_ins > 0;
                e.viol = compare_bytes(image, &o, false, Some(&|w| w != What::Db));
            }
            _ => e.internal = Some(format!("program was to be valid, model says {}", class)),
        },
        "labels" => match &m {
            Verdict::Ok(image) => {
                e.nontrivial = image.n_ref > 0;
                e.viol = compare_bytes(image, &o, false, Some(&|w| w == What::InsRef));
            }
            _ => e.internal = Some(format!("program was to be valid, model says {}", class)),
        },
        "db" => match &m {
            Verdict::Ok(image) => {
                e.nontrivial = image.n_db > 0;
                e.viol = compare_bytes(image, &o, false, Some(&|w| w == What::Db));
            }
            Verdict::Err(f) if f.kind == Kind::Directive || f.kind == Kind::BadToken => {
                e.nontrivial = true;
                e.viol = expect_reject(&o, class);
            }
            _ => {}
        },
        "image" => match &m {
            Verdict::Ok(image) => {
                e.nontrivial = image.sections.len() > 1;
                e.viol = compare_bytes(image, &o, false, None);
            }
            // Overlap itself is not judged here; but an accepted program has each byte at its address.
            Verdict::Overlap(_, sections) => {
                e.nontrivial = true;
                if let (Status::Exit(0), Some(h)) = (&o.status, o.hex.as_ref()) {
                    if let Ok(dec) = hex::decode(h, false) {
                        let emitted: Vec<(u32, u8)> = sections
                            .iter()
                            .flat_map(|(a, v)| v.iter().enumerate().map(move |(k, b)| (a + k as u32, *b)))
                            .collect();
                        let lost = emitted.iter().find(|x| !dec.bytes.contains(x));
                        let new = dec.bytes.iter().find(|x| !emitted.contains(x));
                        if let Some(x) = lost.or(new) {
                            let what = if lost.is_some() { "is missing" } else { "was never emitted" };
                            e.viol = Some(format!("byte {:02X} at ${:03X} {}; {}", x.1, x.0, what, o.show()));
                        }
                    }
                }
            }
            _ => e.internal = Some(format!("program was to be valid, model says {}", class)),
        },
        "hex" => match &m {
            Verdict::Ok(image) => {
                e.nontrivial = !image.bytes.is_empty();
                e.viol = compare_bytes(image, &o, true, None);
            }
            _ => e.internal = Some(format!("program was to be valid, model says {}", class)),
        },
        "reject" => match &m {
            Verdict::Ok(_) => e.internal = Some("program was to be invalid, model accepts it".into()),
            _ => {
                e.nontrivial = true;
                e.viol = expect_reject(&o, class);
            }
        },
        // Instruction matching: rejected iff the model finds no form or value out of range.
        "forms" => match &m {
            Verdict::Ok(image) => {
                e.nontrivial = image.n_ins > 0;
                e.viol = compare_bytes(image, &o, false, Some(&|w| w != What::Db));
            }
            _ => {
                e.nontrivial = matches!(m.kind(), Some(Kind::NoForm) | Some(Kind::Range) | Some(Kind::Undefined));
                e.viol = expect_reject(&o, class);
            }
        },
        // Labels undefined or defined twice; the diagnostic names one of them.
        "label-faults" => match &m {
            Verdict::Ok(image) => {
                e.nontrivial = image.n_label > 0;
                e.viol = expect_ok(&o);
            }
            Verdict::Err(f) if f.name.is_some() => {
                e.nontrivial = true;
                e.viol = expect_reject(&o, class).or_else(|| {
                    let n = f.name.as_ref().unwrap();
                    if names(&o.diag_text(), n) {
                        None
                    } else {
                        Some(format!("the diagnostic does not name label {:?}: {}", n, o.show()))
                    }
                });
            }
            _ => {}
        },
        "overlap" => match &m {
            Verdict::Ok(image) => {
                e.nontrivial = image.sections.len() > 1;
                e.viol = expect_ok(&o);
            }
            Verdict::Overlap(pairs, _) => {
                e.nontrivial = true;
                e.viol = expect_reject(&o, class).or_else(|| {
                    let norm = |a: (u32, u32), b: (u32, u32)| if a <= b { (a, b) } else { (b, a) };
                    let mut want: Vec<_> = pairs.iter().map(|(a, b)| norm(*a, *b)).collect();
                    let got = dollar_numbers(&o.diag_text());
                    let mut got: Vec<_> = got
                        .chunks(4)
                        .map(|x| match x {
                            [a, b, c, d] => norm((*a, *b), (*c, *d)),
                            _ => ((0, 0), (0, 0)),
                        })
                        .collect();
                    want.sort();
                    got.sort();
                    if want == got {
                        None
                    } else {
                        Some(format!(
                            "overlapping pairs are {:X?} but the diagnostic lists {:X?}: {}",
                            want,
                            got,
                            o.show()
                        ))
                    }
                });
            }
            _ => {}
        },
        // Only the size limit is judged.
        "counter" => match &m {
            Verdict::Ok(image) => {
                e.nontrivial = image.bytes.keys().any(|a| *a > 0xF00);
                e.viol = expect_ok(&o).or_else(|| {
                    match hex::decode(o.hex.as_ref().unwrap(), false) {
                        Ok(d) => d
                            .bytes
                            .iter()
                            .find(|x| x.0 > 0xFFF)
                            .map(|x| format!("address ${:X} is emitted; {}", x.0, o.show())),
                        Err(err) => Some(format!("output cannot be decoded: {}", err)),
                    }
                });
            }
            _ if matches!(
                m.kind(),
                Some(Kind::TooLarge) | Some(Kind::DirOverflow) | Some(Kind::InsOverflow)
            ) =>
            {
                e.nontrivial = true;
                e.viol = expect_reject(&o, class);
            }
            _ => {}
        },
        // No crash, whatever the input.
        "clean" => {
            e.nontrivial = src.len() > 1;
            if !o.status.clean() {
                e.viol = Some(o.show());
            } else if o.status == Status::Exit(1) && o.diag.is_empty() {
                e.viol = Some(format!("exit status 1 without a diagnostic: {}", o.show()));
            }
        }
        // The position of a single fault.
        "location" => match &m {
            Verdict::Err(model::Fault { span: Some(span), .. }) => {
                e.nontrivial = span.line > 1 || span.col > 1;
                e.viol = check_location(&o, Runner::INPUT, span);
            }
            _ => {}
        },
        // Of several faults, the first.
        "first-fault" => {
            e.nontrivial = m.ok().is_none();
            e.viol = match &m {
                Verdict::Err(model::Fault { span: Some(span), .. }) => check_location(&o, Runner::INPUT, span),
                // No place is given for these, so that none is the right one.
                Verdict::Err(_) | Verdict::Overlap(..) => expect_reject(&o, class).or_else(|| {
                    let text = o.diag_text();
                    let first = text.lines().next().unwrap_or("");
                    let placed = first
                        .strip_prefix(&format!("{}:", Runner::INPUT))
                        .map(|r| r.starts_with(|c: char| c.is_ascii_digit()))
                        .unwrap_or(false);
                    // Positions of overlapping sections are addresses.
                    if placed {
                        Some(format!("the first fault is {} but the diagnostic is {:?}", class, text))
                    } else if matches!(m, Verdict::Overlap(..)) && dollar_numbers(&text).len() < 4 {
                        Some(format!("the fault is an overlap but the diagnostic is {:?}", text))
                    } else {
                        None
                    }
                }),
                Verdict::Ok(_) => None,
            };
        }
        // What is said, and where.
        "says" => {
            e.nontrivial = true;
            e.viol = match &m {
                Verdict::Ok(_) => {
                    if o.status != Status::Exit(0) {
                        None
                    } else if !o.diag.is_empty() {
                        Some(format!("a successful run must print nothing, but: {}", o.show()))
                    } else {
                        None
                    }
                }
                Verdict::Err(f) if o.status == Status::Exit(1) && !f.about.is_empty() => {
                    let text = o.diag_text();
                    let body = text.split_once("error: ").map(|x| x.1).unwrap_or(&text);
                    let says = |a: &String| {
                        let word = a.chars().all(|c| c == '_' || c.is_ascii_alphanumeric());
                        if word && !a.is_empty() { names(body, a) } else { body.contains(a.as_str()) }
                    };
                    // An unexpected number is given in both radices, and without a sign.
                    let quoted = if f.kind == model::Kind::Syntax && f.about.len() == 3 {
                        f.about[..2].iter().any(says) && says(&f.about[2]) && !body.contains(&format!("-{}", f.about[2]))
                    } else {
                        f.about.iter().any(says)
                    };
                    if quoted {
                        None
                    } else {
                        Some(format!("the diagnostic does not quote {:?}: {:?}", f.about[0], text))
                    }
                }
                _ => None,
            };
            if e.viol.is_none() && o.status.clean() {
                if !o.stderr.is_empty() {
                    e.viol = Some(format!("written to standard error: {:?}", String::from_utf8_lossy(&o.stderr)));
                } else if o.status == Status::Exit(1) && o.diag.is_empty() {
                    e.viol = Some(format!("failed without a word on standard output: {}", o.show()));
                }
            }
        }
        k => e.internal = Some(format!("unknown kind of case {:?}", k)),
    }
    e
}

pub fn check_location(o: &Outcome, path: &str, span: &model::Span) -> Option<String> {
    if o.status != Status::Exit(1) {
        return Some(format!("must be rejected, but: {}", o.show()));
    }
    let want = format!("{}:{}: ", path, span.show());
    let text = o.diag_text();
    let first = text.lines().next().unwrap_or("");
    if first.starts_with(&want) {
        None
    } else {
        Some(format!("the fault is at {:?} but the diagnostic is {:?}", want, text))
    }
}

/// One line of text per word; the output is exactly those words in order.
fn eval_words(env: &Env, c: &Case) -> Eval {
    let mut e = Eval { nontrivial: true, ..Eval::default() };
    let want: Vec<u16> = String::from_utf8_lossy(&c.args[1]).split(' ').filter_map(|x| x.parse().ok()).collect();
    let o = env.run.run(&c.args[0], c.via);
    let got = o.hex.as_ref().and_then(|h| hex::decode(h, false).ok()).map(|d| d.bytes).unwrap_or_default();
    let bytes: Vec<(u32, u8)> =
        want.iter().flat_map(|w| [(w >> 8) as u8, *w as u8]).enumerate().map(|(k, b)| (k as u32, b)).collect();
    if got != bytes {
        let k = got.iter().zip(&bytes).position(|(a, b)| a != b).unwrap_or(got.len().min(bytes.len()));
        let text = String::from_utf8_lossy(&c.args[0]).into_owned();
        e.viol = Some(format!(
            "line {} ({:?}) does not assemble to ${:04X}; {}",
            k / 2 + 1,
            text.lines().nth(k / 2),
            want.get(k / 2).copied().unwrap_or(0),
            o.show()
        ));
    }
    e
}

fn eval_same(env: &Env, c: &Case) -> Eval {
    let (a, b) = (&c.args[0], &c.args[1]);
    let mut e = Eval::default();
    let (ma, mb) = (model::assemble(a), model::assemble(b));
    e.classes.push(class_of(&ma));
    let agree = match (&ma, &mb) {
        (Verdict::Ok(x), Verdict::Ok(y)) => x.bytes == y.bytes,
        (Verdict::Ok(_), _) | (_, Verdict::Ok(_)) => false,
        _ => true,
    };
    if !agree {
        e.internal = Some("the two sources are not equivalent by the model".into());
        return e;
    }
    e.nontrivial = a != b
        && match &ma {
            Verdict::Ok(i) => !i.bytes.is_empty(),
            _ => true,
        };
    let oa = env.run.run(a, c.via);
    let ob = env.run.run(b, c.via);
    if oa.status != ob.status {
        e.viol = Some(format!(
            "equivalent sources end differently: first {}; second {}",
            oa.show(),
            ob.show()
        ));
        return e;
    }
    if c.kind == "same-output" {
        if oa.hex != ob.hex {
            e.viol = Some(format!(
                "equivalent sources give different output: first {}; second {}",
                oa.show(),
                ob.show()
            ));
        }
    } else {
        let img = |o: &Outcome| o.hex.as_ref().map(|h| hex::decode(h, false).map(|d| d.bytes));
        if img(&oa) != img(&ob) {
            e.viol = Some(format!(
                "equivalent sources give different memory images: first {}; second {}",
                oa.show(),
                ob.show()
            ));
        }
    }
    e
}

// ------------------------------------------------------------- replay files

pub fn to_replay(property: &str, part: &str, c: &Case, what: &str) -> Vec<u8> {
    let mut out = Vec::new();
    let head = format!(
        "c8s-replay 1\nproperty {}\npart {}\nkind {}\nvia {}\nviolation {}\n",
        property,
        part,
        c.kind,
        c.via.name(),
        what.replace('\n', "\\n")
    );
    out.extend_from_slice(head.as_bytes());
    for a in &c.args {
        out.extend_from_slice(format!("blob {}\n", a.len()).as_bytes());
        out.extend_from_slice(a);
        out.push(b'\n');
    }
    out
}

pub const KINDS: &[&str] = &[
    "full", "instructions", "labels", "db", "image", "hex", "reject", "forms", "label-faults",
    "overlap", "counter", "clean", "location", "loc-path", "same-output", "same-image", "fs",
    "env", "argv", "hist", "api-word", "api-ranges", "api-append", "words",
];

pub fn from_replay(data: &[u8]) -> Option<(String, Case)> {
    let mut pos = 0;
    let mut line = || -> Option<String> {
        let n = data[pos..].iter().position(|b| *b == b'\n')?;
        let s = String::from_utf8_lossy(&data[pos..pos + n]).into_owned();
        pos += n + 1;
        Some(s)
    };
    if line()? != "c8s-replay 1" {
        return None;
    }
    let property = line()?.strip_prefix("property ")?.to_string();
    let _part = line()?;
    let kind = line()?.strip_prefix("kind ")?.to_string();
    let kind = KINDS.iter().find(|k| **k == kind)?;
    let via = Via::parse(line()?.strip_prefix("via ")?);
    let _what = line()?;
    let mut args = Vec::new();
    while pos < data.len() {
        let n = data[pos..].iter().position(|b| *b == b'\n')?;
        let head = String::from_utf8_lossy(&data[pos..pos + n]).into_owned();
        pos += n + 1;
        let len: usize = head.strip_prefix("blob ")?.parse().ok()?;
        args.push(data.get(pos..pos + len)?.to_vec());
        pos += len + 1;
    }
    Some((property, Case { kind, via, args }))
}
