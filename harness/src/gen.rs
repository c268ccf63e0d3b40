//! Generators: programs valid by construction, loosely valid programs, single
//! faults, token soup, text mutations, and the renderer that spells a program
//! out in one of its many layouts.

use crate::dict::Dict;
use crate::model::*;
use crate::tape::Tape;
use std::collections::{HashMap, HashSet};

// ------------------------------------------------------------- values

pub fn dict_int(t: &mut Tape, d: &Dict) -> u64 {
    let pool = if !d.new_ints.is_empty() && t.chance(2, 3) { &d.new_ints } else { &d.ints };
    if pool.is_empty() {
        return 0;
    }
    let v = *t.pick(pool);
    match t.below(4) {
        0 | 1 => v,
        2 => v.saturating_add(1),
        _ => v.saturating_sub(1),
    }
}

/// A number in 0..=max, with weight on edges and on constants of the code.
pub fn num(t: &mut Tape, d: &Dict, max: u32) -> u32 {
    match t.weighted(&[4, 5, 4, 3, 2]) {
        0 => t.below(max.min(16) as usize + 1) as u32,
        1 => t.below(max as usize + 1) as u32,
        2 => {
            let e = [
                0u32, 1, 2, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 63, 64, 99, 100, 127, 128, 129,
                159, 160, 161, 191, 192, 223, 224, 254, 255, 256, 257, 511, 512, 513, 767, 999,
                1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 3071, 3072, 3839, 3840, 4000,
                4080, 4093, 4094, 4095,
            ];
            let n = e.iter().take_while(|v| **v <= max).count();
            e[t.below(n)]
        }
        3 => {
            let v = dict_int(t, d);
            if v <= max as u64 {
                v as u32
            } else {
                (v % (max as u64 + 1)) as u32
            }
        }
        _ => max - t.below(max.min(20) as usize + 1) as u32,
    }
}

// ------------------------------------------------------------- names

pub fn is_ident(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && (b[0] == b'_' || b[0].is_ascii_alphabetic())
        && b.iter().all(|c| *c == b'_' || c.is_ascii_alphanumeric())
}

pub fn referable(s: &str) -> bool {
    is_ident(s) && matches!(operand(s), Op::Label(_))
}

const PLAIN: &[&str] = &["a", "c", "x", "start", "loop", "data", "main", "sprite", "end", "L1", "L2"];
const LOOKALIKE: &[&str] = &[
    "v", "V", "vg", "vG", "vz", "v10", "v00", "vff", "VFF", "v_", "v0_", "_v0", "dt0", "dt_",
    "DTX", "st1", "sT_", "ii", "I2", "_i", "i_", "k0", "kk", "_k", "bb", "b1", "ff", "f0", "_",
    "__", "d", "t", "s", "e", "o", "n", "h", "dst", "vd", "x0", "va0", "aff", "fff", "b11", "d_t",
];
const KEYWORDS: &[&str] = &[
    "cls", "ret", "jp", "call", "se", "sne", "ld", "add", "or", "and", "xor", "sub", "shr",
    "subn", "shl", "rnd", "drw", "skp", "sknp", "trap", "trapret", "nop", "org", "db", "equ",
    "ORG", "DB", "EQU", "LD", "JP", "Cls", "include", "macro", "end",
];
pub const RESERVED: &[&str] = &[
    "v0", "V1", "v9", "va", "Vf", "VF", "dt", "DT", "Dt", "st", "ST", "i", "I", "k", "K", "b",
    "B", "f", "F",
];

/// Some identifier; `used` are names already defined (to build near-duplicates from).
pub fn name(t: &mut Tape, d: &Dict, used: &[String]) -> String {
    match t.weighted(&[5, 3, 3, 2, 3, 5, 4, 1]) {
        0 => t.pick(PLAIN).to_string(),
        1 => t.pick(LOOKALIKE).to_string(),
        2 => t.pick(KEYWORDS).to_string(),
        3 => {
            let words: Vec<&String> = (if !d.new_words.is_empty() && t.chance(1, 2) {
                &d.new_words
            } else {
                &d.words
            })
            .iter()
            .filter(|w| is_ident(w))
            .collect();
            if words.is_empty() {
                "w".into()
            } else {
                t.pick(&words).to_string()
            }
        }
        4 => {
            // Long, sharing its prefix with others of its kind.
            let n = match t.below(3) {
                0 => *t.pick(&[7usize, 8, 9, 15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257]),
                1 => (dict_int(t, d) % 600) as usize,
                _ => t.log_len(400),
            };
            let base = t.pick(&["x", "L", "_", "lbl_"]);
            let mut s = String::new();
            while s.len() < n.max(1) {
                s += base;
            }
            s.truncate(n.max(1));
            s += t.pick(&["a", "A", "b", "0", "1", "_", "aa", "ab"]);
            s
        }
        5 if !used.is_empty() => {
            // Close to an existing name.
            let u = t.pick(used).clone();
            let mut b: Vec<u8> = u.into_bytes();
            let k = t.below(b.len());
            match t.below(7) {
                0 => {
                    b[k] = if b[k].is_ascii_lowercase() {
                        b[k].to_ascii_uppercase()
                    } else {
                        b[k].to_ascii_lowercase()
                    }
                }
                1 => b.push(b'_'),
                2 => b.push(b'0' + t.below(10) as u8),
                3 => b.insert(0, b'_'),
                4 => {
                    if b.len() > 1 {
                        b.pop();
                    }
                }
                5 => b = String::from_utf8(b).unwrap().to_ascii_uppercase().into_bytes(),
                _ => {
                    let c = b[k];
                    b.insert(k, c)
                }
            }
            let s = String::from_utf8(b).unwrap();
            if is_ident(&s) {
                s
            } else {
                "z".into()
            }
        }
        7 => t.pick(RESERVED).to_string(),
        _ => {
            let n = t.range(1, 10);
            let mut s = String::new();
            let al = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
            for i in 0..n {
                s.push(al[t.below(if i == 0 { 53 } else { al.len() })] as char);
            }
            s
        }
    }
}

pub fn unique_name(t: &mut Tape, d: &Dict, used: &mut Vec<String>, seen: &mut HashSet<String>) -> String {
    let mut n = name(t, d, used);
    let mut k = 0;
    while seen.contains(&n) {
        n = format!("{}{}", n, k);
        k += 1;
    }
    seen.insert(n.clone());
    used.push(n.clone());
    n
}

// ------------------------------------------------------------- strings

/// Characters with something special about them.
pub const ODD_CHARS: &[char] = &[
    'é', 'ß', '\u{0}', '\u{7f}', '\u{80}', '\u{a0}', '\u{7ff}', '\u{800}', '€', '日', '本',
    '\u{ffff}', '\u{fffd}', '\u{feff}', '\u{10000}', '😀', '\u{10ffff}', '\u{301}', '\u{200b}',
    '\u{2028}', '\u{85}', '\u{1f468}', '\u{d7ff}', '\u{e000}', 'İ', 'ı', 'K',
];

fn string_char(t: &mut Tape) -> char {
    match t.weighted(&[6, 3, 3, 1, 2]) {
        0 => (b'a' + t.below(26) as u8) as char,
        1 => (0x20 + t.below(95) as u8) as char,
        2 => *t.pick(&[';', ',', ':', '.', ' ', '$', '#', '%', '[', '\t', '\n', '\r', '\'', '/', '*', '\\', '"']),
        3 => *t.pick(ODD_CHARS),
        _ => {
            let v = t.below(0x11_0000 - 0x800) as u32;
            std::char::from_u32(if v >= 0xD800 { v + 0x800 } else { v }).unwrap_or('?')
        }
    }
}

/// What other languages read as something else inside a string; here it is only text.
pub const ESCAPES: &[&str] = &[
    "\\n", "\\r\\n", "\\t", "\\0", "\\a", "\\b", "\\e[0m", "\\\\", "\\'", "\\\"", "\\x41", "\\x0", "\\xFF", "\\x{41}", "\\101", "\\12", "\\o101",
    "\\u0041", "\\u00e9", "\\u{41}", "\\u{1F600}", "\\u{D800}", "\\U00000041", "\\U0001F600", "\\cA", "\\^A", "\\d65", "\\$41", "\\#41", "\\%101",
    "\\N{DIGIT ONE}", "\\(x)", "\\ x", "\\;", "\\,", "%41", "%20", "%d", "%s", "%c", "%%", "%n", "%5.3f", "{}", "{0}", "{x}", "{{}}", "{:02x}", "{a,b}", "${x}", "${HOME}", "$(x)",
    "$HOME", "$1", "$$", "$41", "#41", "#{x}", "0x41", "'41'", "''", "'", "`x`", "&amp;", "&lt;", "&#65;", "&#x41;", "&eacute;", "^A", "^@", "^^", "<41>", "<NUL>", "<br>", "[0]", "[i]",
    "@x", "@@", "~", "~/x", "//", "// x", "/* x */", "--", "; x", "# x", "=41", "=\r\n", "??/", "??=", "<:", "%:", "+ACE-", "+1", "-1", "||", "|41|", "a|b", "x\u{0}y", "\u{1b}[1m", "e\u{301}",
    "\u{feff}", "\u{202e}x", "ﬁ", "ß", "İ", "ı", "K", "１", "．", "\r", "\r\n", "\n", "\n\r", " \n ", "\t\n", "\\\\n", "\\\\x41", "\\r", "\u{85}", "\u{2028}", "  ", "   x   ", ":00000001FF",
];

/// Raw text of a string literal (between the quotes), well-formed.
pub fn string_body(t: &mut Tape, d: &Dict, max: usize) -> String {
    let mut s = String::new();
    if t.chance(1, 8) {
        let words = if !d.new_words.is_empty() { &d.new_words } else { &d.words };
        if !words.is_empty() {
            for c in t.pick(words).clone().chars() {
                if c != '"' && c != '\\' {
                    s.push(c);
                }
            }
        }
        return s;
    }
    if max >= 12 && t.chance(1, 10) {
        for _ in 0..1 + t.below(2) {
            s += *t.pick(ESCAPES);
        }
        return if s.len() <= max { s } else { String::new() };
    }
    let n = match t.below(4) {
        0 | 1 => t.below(max.min(8) + 1),
        2 => t.below(max.min(40) + 1),
        _ => t.below(max + 1),
    };
    // Long strings repeat a short random piece, so that they do not eat the tape.
    let piece = n.min(12);
    let mut unit: Vec<char> = Vec::new();
    for _ in 0..piece {
        unit.push(string_char(t));
    }
    let mut k = 0;
    while k < n {
        let c = unit[k % piece];
        match c {
            '"' => s.push_str("\\\""),
            '\\' => {
                // A backslash takes the next character with it.
                let e = *t.pick(&['\\', 'n', '"', '0', 'x', ';', 'é', ' ', 't', '\'']);
                s.push('\\');
                s.push(e);
            }
            c => s.push(c),
        }
        k += 1;
    }
    s
}

// ------------------------------------------------------------- valid programs

#[derive(Clone, Debug)]
pub struct Profile {
    pub max_sections: usize,
    pub max_stmts: usize,
    /// Weights: instruction, db, address label, constant, empty/same origin.
    pub w: [usize; 5],
    /// Percent of operands given through a label.
    pub ref_pct: usize,
    pub str_pct: usize,
    pub max_list: usize,
    pub max_str: usize,
    /// Percent of sections that get a long block of bytes.
    pub big_pct: usize,
}

pub const MIXED: Profile = Profile {
    max_sections: 5,
    max_stmts: 10,
    w: [6, 3, 3, 2, 1],
    ref_pct: 40,
    str_pct: 35,
    max_list: 6,
    max_str: 40,
    big_pct: 6,
};

const HOLE: &str = "?";

pub fn instruction(t: &mut Tape, d: &Dict, ref_pct: usize) -> Stmt {
    let f = t.pick(FORMS);
    let mut ops = Vec::new();
    for p in f.pats {
        ops.push(match p {
            Pat::X | Pat::Y => Op::V(t.below(16) as u8),
            Pat::V0 => Op::V(0),
            Pat::Dt => Op::Dt,
            Pat::St => Op::St,
            Pat::I => Op::I,
            Pat::II => Op::II,
            Pat::K => Op::K,
            Pat::B => Op::B,
            Pat::F => Op::F,
            Pat::N | Pat::NN | Pat::NNN => {
                let max = p.max().unwrap();
                if t.chance(ref_pct, 100) {
                    Op::Label(format!("{}{}", HOLE, max))
                } else {
                    Op::Num(num(t, d, max))
                }
            }
        });
    }
    Stmt::ins(f.mn, ops)
}

pub fn db_args(t: &mut Tape, d: &Dict, p: &Profile) -> Vec<Lit> {
    let n = 1 + if t.chance(1, 6) { t.below(p.max_list * 4 + 1) } else { t.below(p.max_list) };
    let mut v: Vec<Lit> = Vec::new();
    for _ in 0..n {
        if !v.is_empty() && t.chance(1, 9) {
            // The same again.
            let again: Lit = if t.below(2) == 0 { v[v.len() - 1].clone() } else { t.pick(&v).clone() };
            v.push(again);
        } else if t.chance(p.str_pct, 100) {
            v.push(Lit::Str(string_body(t, d, p.max_str)));
        } else {
            v.push(Lit::Num(num(t, d, 255)));
        }
    }
    v
}

/// A statement like an earlier one, or almost.
fn echo(t: &mut Tape, d: &Dict, secs: &[Vec<Stmt>], sec: &[Stmt]) -> Option<Stmt> {
    let from: &[Stmt] = if !sec.is_empty() && t.chance(2, 3) { sec } else if secs.is_empty() { return None } else { t.pick(secs) };
    if from.is_empty() {
        return None;
    }
    // Mostly the latest.
    let k = if t.below(2) == 0 { from.len() - 1 } else { t.below(from.len()) };
    let mut s = from[k].clone();
    if s.size() == 0 || matches!(&s, Stmt::Ins(m, _) if m == HOLE) || !(matches!(s, Stmt::Ins(..)) || is_db(&s)) {
        return None;
    }
    if t.below(2) == 0 {
        return Some(s);
    }
    match &mut s {
        Stmt::Ins(_, ops) => {
            let regs: Vec<usize> = (0..ops.len()).filter(|k| matches!(ops[*k], Op::V(_))).collect();
            let nums: Vec<usize> = (0..ops.len()).filter(|k| matches!(ops[*k], Op::Num(_))).collect();
            if !nums.is_empty() && t.below(2) == 0 {
                let j = *t.pick(&nums);
                if let Op::Num(v) = ops[j] {
                    let max = if v < 16 { 15 } else if v < 256 { 255 } else { 4095 };
                    ops[j] = Op::Num(num(t, d, max));
                }
            } else if !regs.is_empty() && !(ops.len() == 2 && regs == [0] && ops[0] == Op::V(0)) {
                let j = *t.pick(&regs);
                ops[j] = Op::V(t.below(16) as u8);
            }
        }
        Stmt::Dir(_, args) => match t.below(3) {
            0 if args.len() > 1 => {
                args.pop();
            }
            1 => {
                let l = args[0].clone();
                args.push(l);
            }
            _ => {
                let j = t.below(args.len());
                args[j] = Lit::Num(num(t, d, 255));
            }
        },
        _ => {}
    }
    Some(s)
}

pub fn valid(t: &mut Tape, d: &Dict, p: &Profile) -> Vec<Stmt> {
    let mut used = Vec::new();
    let mut seen = HashSet::new();
    let n_sec = 1 + t.below(p.max_sections);
    let mut secs: Vec<Vec<Stmt>> = Vec::new();
    let mut total = 0usize;
    for _ in 0..n_sec {
        let mut sec = Vec::new();
        let n = t.below(p.max_stmts + 1);
        if t.chance(1, 30) && !secs.is_empty() {
            // A section like an earlier one.
            let like: &Vec<Stmt> = t.pick(&secs);
            for s in like.clone() {
                if (matches!(&s, Stmt::Ins(m, _) if m != HOLE) || is_db(&s)) && total + s.size() <= 4095 {
                    total += s.size();
                    sec.push(s);
                }
            }
        }
        for _ in 0..n {
            if t.chance(1, 10) {
                if let Some(s) = echo(t, d, &secs, &sec) {
                    if total + s.size() <= 4095 {
                        total += s.size();
                        sec.push(s);
                    }
                    continue;
                }
            }
            match t.weighted(&p.w) {
                0 => {
                    if total + 2 <= 4095 {
                        sec.push(instruction(t, d, p.ref_pct));
                        total += 2;
                    }
                }
                1 => {
                    let s = Stmt::db(db_args(t, d, p));
                    if total + s.size() <= 4095 {
                        total += s.size();
                        sec.push(s);
                    }
                }
                2 => sec.push(Stmt::Label(unique_name(t, d, &mut used, &mut seen))),
                3 => {
                    sec.push(Stmt::Label(unique_name(t, d, &mut used, &mut seen)));
                    let max = *t.pick(&[4095u32, 255, 15]);
                    sec.push(Stmt::equ(num(t, d, max)));
                }
                _ => sec.push(Stmt::ins(HOLE, vec![])), // becomes an origin at the current address
            }
        }
        if t.chance(p.big_pct, 100) {
            let n = match t.below(3) {
                0 => t.log_len(4095),
                1 => t.range(200, 700),
                _ => (dict_int(t, d) % 4096) as usize,
            };
            let n = n.min(4095 - total);
            if n > 0 {
                let c = (b'A' + t.below(26) as u8) as char;
                let s = if t.chance(1, 4) {
                    let v = *t.pick(&[0u32, 255, 1, 32]);
                    Stmt::db(vec![Lit::Num(v); n])
                } else {
                    Stmt::db(vec![Lit::Str(std::iter::repeat(c).take(n).collect())])
                };
                let at = t.below(sec.len() + 1);
                // Never between a label and its constant.
                let at = if at < sec.len() && is_equ(&sec[at]) { at + 1 } else { at };
                sec.insert(at, s);
                total += n;
            }
        }
        secs.push(sec);
    }
    place(t, d, secs)
}

pub fn is_equ(s: &Stmt) -> bool {
    matches!(s, Stmt::Dir(n, _) if n.eq_ignore_ascii_case("equ"))
}
pub fn is_org(s: &Stmt) -> bool {
    matches!(s, Stmt::Dir(n, _) if n.eq_ignore_ascii_case("org"))
}
pub fn is_db(s: &Stmt) -> bool {
    matches!(s, Stmt::Dir(n, _) if n.eq_ignore_ascii_case("db"))
}

/// Gives every section an address such that none overlap, then fills in the
/// label operands with labels whose values fit.
pub fn place(t: &mut Tape, d: &Dict, secs: Vec<Vec<Stmt>>) -> Vec<Stmt> {
    let sizes: Vec<usize> = secs.iter().map(|s| s.iter().filter(|x| !matches!(x, Stmt::Ins(m, _) if m == HOLE)).map(|x| x.size()).sum()).collect();
    let total: usize = sizes.iter().sum();
    let mut slack = 4095 - total;
    let mut order: Vec<usize> = (0..secs.len()).collect();
    t.shuffle(&mut order);
    let mut addr = vec![0usize; secs.len()];
    let mut at = 0;
    for (n, k) in order.iter().enumerate() {
        let gap = match t.weighted(&[4, 2, 2, 2, 1, 1]) {
            0 => 0,
            1 => 1 + t.below(3),
            2 => t.below(33),
            3 => t.below(slack + 1),
            4 => {
                let v = dict_int(t, d) as usize;
                if v >= at { v - at } else { 0 }
            }
            _ => {
                // Up against the end of memory.
                if n + 1 == order.len() { slack } else { 256usize.saturating_sub(at % 256) }
            }
        }
        .min(slack);
        slack -= gap;
        at += gap;
        addr[*k] = at;
        at += sizes[*k];
    }
    let mut out = Vec::new();
    let mut labels: HashMap<String, u32> = HashMap::new();
    for (k, sec) in secs.into_iter().enumerate() {
        if k > 0 || addr[0] != 0 || t.chance(1, 3) {
            // Origins that nothing is emitted at, now and then.
            if t.chance(1, 12) {
                out.push(Stmt::org(num(t, d, 4095)));
            }
            out.push(Stmt::org(addr[k] as u32));
        }
        let mut a = addr[k];
        let mut it = sec.into_iter().peekable();
        while let Some(s) = it.next() {
            match &s {
                Stmt::Ins(m, _) if m == HOLE => {
                    out.push(Stmt::org(a as u32));
                    continue;
                }
                Stmt::Label(n) => {
                    let mut v = a as u32;
                    if let Some(Stmt::Dir(dn, args)) = it.peek() {
                        if dn == "equ" {
                            if let Lit::Num(c) = args[0] {
                                v = c;
                            }
                        }
                    }
                    labels.insert(n.clone(), v);
                }
                _ => {}
            }
            a += s.size();
            out.push(s);
        }
    }
    fill(t, d, &mut out, &labels);
    out
}

pub fn fill(t: &mut Tape, d: &Dict, out: &mut [Stmt], labels: &HashMap<String, u32>) {
    let mut by_value: Vec<(u32, &String)> =
        labels.iter().filter(|(n, _)| referable(n)).map(|(n, v)| (*v, n)).collect();
    by_value.sort();
    let mut last: Option<&String> = None;
    for s in out.iter_mut() {
        if let Stmt::Ins(_, ops) = s {
            for o in ops.iter_mut() {
                if let Op::Label(l) = o {
                    if let Some(max) = l.strip_prefix(HOLE) {
                        let max: u32 = max.parse().unwrap();
                        let n = by_value.iter().take_while(|x| x.0 <= max).count();
                        *o = if n > 0 {
                            let mut to = by_value[t.below(n)].1;
                            if let (Some(l), true) = (last, t.chance(1, 4)) {
                                // One that looks like the one before.
                                let near: Vec<&String> = by_value[..n].iter().map(|x| x.1).filter(|x| x.starts_with(l.as_str()) || l.starts_with(x.as_str()) || x.eq_ignore_ascii_case(l) || x.ends_with(l.as_str()) || x.len() == l.len()).collect();
                                if !near.is_empty() {
                                    to = *t.pick(&near);
                                }
                            }
                            last = Some(to);
                            Op::Label(to.clone())
                        } else {
                            Op::Num(num(t, d, max))
                        };
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------- loose programs

/// Statements over small pools, so that every kind of fault turns up now and
/// then: the model decides.
pub fn loose(t: &mut Tape, d: &Dict, max: usize) -> Vec<Stmt> {
    let pool: Vec<String> = {
        let mut used = Vec::new();
        let mut seen = HashSet::new();
        for _ in 0..4 {
            unique_name(t, d, &mut used, &mut seen);
        }
        used
    };
    let n = t.below(max + 1);
    let mut out = Vec::new();
    for _ in 0..n {
        match t.weighted(&[6, 3, 3, 3, 2, 1]) {
            0 => out.push(loose_instruction(t, d, &pool)),
            1 => {
                let mut args = db_args(t, d, &MIXED);
                if t.chance(1, 25) {
                    args.push(Lit::Num(num(t, d, 4095)));
                }
                out.push(Stmt::db(args));
            }
            2 => {
                let a = if t.chance(1, 4) { num(t, d, 4095) } else { t.below(80) as u32 * 50 };
                out.push(Stmt::org(a));
            }
            3 => {
                // Mostly fresh names.
                let nm = if t.chance(1, 3) { t.pick(&pool).clone() } else { format!("n{}", out.len()) };
                out.push(Stmt::Label(nm));
            }
            4 => {
                if t.chance(4, 5) {
                    let nm = if t.chance(1, 3) { t.pick(&pool).clone() } else { format!("e{}", out.len()) };
                    out.push(Stmt::Label(nm));
                }
                let max = *t.pick(&[4095u32, 255, 15]);
                out.push(Stmt::equ(num(t, d, max)));
            }
            _ => {
                let nm = t.pick(&["org", "db", "equ", "dw", "ds", "byte", "orgg", "o", "text"]).to_string();
                let k = t.below(3);
                let mut args = Vec::new();
                for _ in 0..k {
                    args.push(if t.chance(1, 3) {
                        Lit::Str(string_body(t, d, 6))
                    } else {
                        Lit::Num(num(t, d, 4095))
                    });
                }
                out.push(Stmt::Dir(nm, args));
            }
        }
    }
    out
}

/// An instruction that is often, but not always, one of the documented forms.
pub fn loose_instruction(t: &mut Tape, d: &Dict, labels: &[String]) -> Stmt {
    let mut s = instruction(t, d, 40);
    if let Stmt::Ins(mn, ops) = &mut s {
        for o in ops.iter_mut() {
            if let Op::Label(_) = o {
                *o = Op::Label("z9".into());
                for _ in 0..4 {
                    let l = t.pick(labels);
                    if referable(l) {
                        *o = Op::Label(l.clone());
                        break;
                    }
                }
            }
        }
        if t.chance(1, 4) {
            match t.below(6) {
                0 => {
                    // One operand changed into another kind.
                    if !ops.is_empty() {
                        let k = t.below(ops.len());
                        ops[k] = any_operand(t, d, labels);
                    }
                }
                1 => {
                    ops.pop();
                }
                2 => {
                    let o = any_operand(t, d, labels);
                    let k = t.below(ops.len() + 1);
                    ops.insert(k, o);
                }
                3 => ops.reverse(),
                4 => {
                    *mn = t.pick(KEYWORDS).to_string();
                }
                _ => {
                    *mn = name(t, d, &[mn.clone()]);
                }
            }
        }
    }
    s
}

pub fn any_operand(t: &mut Tape, d: &Dict, labels: &[String]) -> Op {
    match t.below(11) {
        0 | 1 => Op::V(t.below(16) as u8),
        2 => Op::Dt,
        3 => Op::St,
        4 => Op::I,
        5 => Op::II,
        6 => Op::K,
        7 => Op::B,
        8 => Op::F,
        9 => Op::Num(num(t, d, 4095)),
        _ => {
            if labels.is_empty() {
                return Op::Label("undefined".into());
            }
            let l = t.pick(labels).clone();
            if referable(&l) {
                Op::Label(l)
            } else {
                Op::Label("q".into())
            }
        }
    }
}

// ------------------------------------------------------------- rendering

#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// 0: one canonical layout; 1: ordinary variation; 2: anything the grammar allows.
    pub level: usize,
    pub crlf: bool,
    /// May statements share a line?
    pub join: bool,
}

impl Style {
    pub fn plain() -> Style {
        Style { level: 0, crlf: false, join: false }
    }
    pub fn draw(t: &mut Tape) -> Style {
        Style { level: t.weighted(&[2, 3, 4]), crlf: t.chance(1, 4), join: t.chance(1, 3) }
    }
}

pub const BLANKS: &[&str] = &[
    " ", "\t", "  ", "\t\t ", "\r", "\u{b}", "\u{c}", "\u{a0}", "\u{2003}", "\u{3000}", "\u{85}",
    "\u{2028}", "\u{1680}", "    ", " \r ",
];

fn gap(t: &mut Tape, st: Style, required: bool) -> String {
    match st.level {
        0 => (if required { " " } else { "" }).to_string(),
        1 => match t.weighted(&[4, 3, 2, 1]) {
            0 => (if required { " " } else { "" }).to_string(),
            1 => " ".to_string(),
            2 => "\t".to_string(),
            _ => " ".repeat(t.range(1, 9)),
        },
        _ => match t.weighted(&[4, 3, 3]) {
            0 => (if required { " " } else { "" }).to_string(),
            1 => " ".to_string(),
            _ => {
                let mut s = String::new();
                for _ in 0..t.range(1, 3) {
                    s += t.pick(BLANKS);
                }
                s
            }
        },
    }
}

pub fn recase(t: &mut Tape, st: Style, s: &str) -> String {
    match if st.level == 0 { 0 } else { t.below(4) } {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        2 => s.to_ascii_lowercase(),
        _ => s
            .chars()
            .map(|c| if t.below(2) == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
    }
}

/// A spelling of the number.
pub fn spell(t: &mut Tape, st: Style, v: u32) -> String {
    let k = if st.level == 0 { 0 } else { t.weighted(&[3, 3, 2, 2, 1]) };
    match k {
        0 => v.to_string(),
        1 | 2 => {
            let mark = if k == 1 { '$' } else { '#' };
            let min = if v > 0xFF { 3 } else if v > 0xF { 2 } else { 1 };
            let w = t.range(min, 3);
            let h = match t.below(3) {
                0 => format!("{:0w$X}", v, w = w),
                1 => format!("{:0w$x}", v, w = w),
                _ => {
                    let s = format!("{:0w$x}", v, w = w);
                    recase(t, Style { level: 2, ..st }, &s)
                }
            };
            format!("{}{}", mark, h)
        }
        3 => {
            let digits = format!("{:b}", v);
            let z = match t.below(4) {
                0 => 0,
                1 => t.below(13),
                2 => 8usize.saturating_sub(digits.len()),
                _ => t.below(80),
            };
            let mut s = String::from("%");
            let dots = t.below(3);
            for c in std::iter::repeat('0').take(z).chain(digits.chars()) {
                if c == '0' && (dots == 1 || (dots == 2 && t.below(2) == 1)) {
                    s.push('.');
                } else {
                    s.push(c);
                }
            }
            s
        }
        _ => {
            let z = if t.chance(1, 4) { t.below(60) } else { t.below(4) };
            format!("{}{}", "0".repeat(z), v)
        }
    }
}

pub fn spell_operand(t: &mut Tape, st: Style, o: &Op) -> String {
    match o {
        Op::V(r) => {
            let s = format!("v{:x}", r);
            recase(t, st, &s)
        }
        Op::Dt => recase(t, st, "dt"),
        Op::St => recase(t, st, "st"),
        Op::I => recase(t, st, "i"),
        Op::II => recase(t, st, "[i]"),
        Op::K => recase(t, st, "k"),
        Op::B => recase(t, st, "b"),
        Op::F => recase(t, st, "f"),
        Op::Num(n) => spell(t, st, *n),
        Op::Label(l) => l.clone(),
    }
}

/// Comments that some tools take for more than that.
pub const MAGIC: &[&str] = &[
    " vim: ts=4 sw=8 ff=unix", " vi: set tabstop=8:", " -*- tab-width: 4; coding: latin-1 -*-", "-*- mode: asm; tab-width: 8 -*-", " coding: utf-8", "#!c8s", "!", "!c8s",
    "origin=512", " origin: 512", " org $200", "org 512", " .org 512", "@ 512", "@512", ".db 1", " .equ 5", " .end", "end", " END", " EOF", "__END__", " include \"in.s\"", "include in.s", "#include <x>",
    "#line 5", " line 100", "#line 7 \"x.s\"", "# 5 \"x.s\" 1", "line=9", " column=3", "#pragma once", "pragma strict", " pragma case", "#define x 5", "#if 0", "#endif", "#else", " ifdef X", "=5", " x = 5", "x:", " x: .equ 5",
    " c8s: off", " c8s: on", "c8s:off", "c8s-ignore", " c8s-disable", " NOLINT", " nolint", "noqa", " fmt: off", " @ignore", "@file x.s", " eslint-disable", " TODO: fix", " FIXME", " XXX", " optimize", " opt: off", " O2", " strict", " nocase",
    " bank 1", " section data", " align 2", " macro", " endm", " rept 2", " skip 2", " fill 0", " checksum 0", " title x", " radix 16", " base 16", " schip", " xochip", " chip8", " fpc8", "+", "-", "++", "--", "*/", "/*", "<!--", "-->", "{", "}", "{{{", "}}}", "\\", " \\", "\\n", ";", ";;", ";;;", "\r", "|", "\"", "'", "`", " \t ", "~",
];

pub fn comment(t: &mut Tape, d: &Dict) -> String {
    let mut s = String::from(";");
    match t.below(9) {
        6 => s += *t.pick(MAGIC),
        7 => {
            // A word of the code with something behind it.
            let words = if !d.new_words.is_empty() { &d.new_words } else { &d.words };
            if t.chance(1, 2) {
                s.push(' ');
            }
            for _ in 0..1 + t.below(2) {
                if !words.is_empty() {
                    s += &t.pick(words).replace('\n', " ");
                }
                s += *t.pick(&["", "", " ", "=", ": ", ":", "("]);
                match t.below(5) {
                    0 | 1 => s += &t.below(10).to_string(),
                    2 => s += &t.below(4097).to_string(),
                    3 => s += *t.pick(&["on", "off", "$200", "#5", "%1", "\"x\"", "v1", "a", "x y", "true", "0", "-1", "0x200", "in.s"]),
                    _ => {}
                }
                s += *t.pick(&["", "", " ", ")", ","]);
            }
        }
        0 => {}
        1 => s += " comment",
        2 => s += " .db 1,2 \"unclosed",
        3 => s += " jp 5 : , ; $ % # [ \\ \"\" ' \t é 日本 😀",
        4 => {
            for _ in 0..t.below(12) {
                let c = string_char(t);
                if c != '\n' {
                    s.push(c);
                }
            }
        }
        5 => {
            let words = if !d.new_words.is_empty() { &d.new_words } else { &d.words };
            if !words.is_empty() {
                s += &t.pick(words).replace('\n', " ");
            }
        }
        _ => {
            let n = t.log_len(300);
            s += &"=".repeat(n);
        }
    }
    s
}

fn glues(prev: Option<char>, next: Option<char>) -> bool {
    let w = |c: Option<char>| c.map(|c| c == '_' || c == '.' || c.is_ascii_alphanumeric()).unwrap_or(false);
    w(prev) && w(next)
}

/// Spells the program out. Parsing the result gives the same statements.
pub fn render(t: &mut Tape, d: &Dict, prog: &[Stmt], st: Style) -> String {
    let mut out = String::new();
    let nl = |t: &mut Tape, out: &mut String| {
        if st.crlf && (st.level < 2 || t.below(4) > 0) {
            out.push('\r');
        }
        out.push('\n');
    };
    let lead = |t: &mut Tape, out: &mut String| {
        // Blank lines, comment lines and indentation before a statement.
        if st.level > 0 {
            for _ in 0..t.weighted(&[7, 2, 1]) {
                match t.below(3) {
                    0 => {}
                    1 => *out += &gap(t, st, false),
                    _ => {
                        *out += &gap(t, st, false);
                        *out += &comment(t, d);
                    }
                }
                nl(t, out);
            }
            *out += &gap(t, st, false);
        }
    };
    let mut same_line = false;
    for (k, s) in prog.iter().enumerate() {
        if !same_line {
            lead(t, &mut out);
        }
        let last = k + 1 == prog.len();
        // The statement's tokens, with whether a blank is required before each.
        let mut trailing_comma = false;
        let mut n_args = 0;
        let piece = |t: &mut Tape, out: &mut String, text: &str, marker: bool| {
            let req = !marker && glues(out.chars().last(), text.chars().next());
            if !out.is_empty() && !out.ends_with('\n') {
                *out += &gap(t, st, req);
            }
            *out += text;
        };
        match s {
            Stmt::Label(n) => {
                piece(t, &mut out, n, false);
                if st.level == 2 {
                    piece(t, &mut out, ":", false);
                } else {
                    out.push(':');
                }
            }
            Stmt::Dir(n, args) => {
                piece(t, &mut out, ".", false);
                let n2 = recase(t, st, n);
                if st.level == 2 {
                    piece(t, &mut out, &n2, true);
                } else {
                    out += &n2;
                }
                n_args = args.len();
                for (j, a) in args.iter().enumerate() {
                    if j > 0 {
                        piece(t, &mut out, ",", false);
                        if st.level == 0 {
                            out.push(' ');
                        }
                    } else if st.level < 2 {
                        out.push(' ');
                    }
                    let text = match a {
                        Lit::Num(v) => spell(t, st, *v),
                        Lit::Str(s) => format!("\"{}\"", s),
                    };
                    piece(t, &mut out, &text, false);
                }
            }
            Stmt::Ins(m, ops) => {
                let m2 = recase(t, st, m);
                piece(t, &mut out, &m2, false);
                n_args = ops.len();
                for (j, o) in ops.iter().enumerate() {
                    if j > 0 {
                        piece(t, &mut out, ",", false);
                        if st.level == 0 {
                            out.push(' ');
                        }
                    } else if st.level < 2 {
                        out.push(' ');
                    }
                    let text = spell_operand(t, st, o);
                    piece(t, &mut out, &text, false);
                }
            }
        }
        let is_label = matches!(s, Stmt::Label(_));
        let is_dir = matches!(s, Stmt::Dir(..));
        if !is_label && n_args > 0 && st.level > 0 && t.chance(1, 10) {
            out += &gap(t, st, false);
            out.push(',');
            trailing_comma = true;
        }
        let open = is_label || (n_args > 0 && !trailing_comma); // another statement may follow at once
        let may_comment = !is_dir || open;
        same_line = false;
        if st.level == 0 {
            out.push('\n');
            continue;
        }
        if open && !last && st.join && t.chance(1, 2) {
            // The next statement follows on the same line (piece() puts in the blank).
            same_line = true;
            continue;
        }
        if is_label && !last && t.chance(1, 4) {
            same_line = true;
            continue;
        }
        out += &gap(t, st, false);
        let mut commented = false;
        if may_comment && t.chance(1, 5) {
            out += &comment(t, d);
            commented = true;
        }
        // The end of the file ends the last statement, if that is complete.
        if last && (open || (commented && !is_dir)) && t.chance(1, 3) {
            break;
        }
        nl(t, &mut out);
    }
    if st.level > 0 && t.chance(1, 6) && (out.is_empty() || out.ends_with('\n')) {
        out += &gap(t, st, false);
        if t.below(2) == 1 {
            out += &comment(t, d);
        }
    }
    out
}

/// Does the model read the rendering back as the same program?
pub fn reads_back(prog: &[Stmt], text: &str) -> bool {
    match parse(text) {
        Err(_) => false,
        Ok(nodes) => {
            nodes.len() == prog.len()
                && nodes.iter().zip(prog).all(|(n, s)| match (&n.stmt, s) {
                    (Stmt::Dir(a, x), Stmt::Dir(b, y)) => a.eq_ignore_ascii_case(b) && x == y,
                    (Stmt::Ins(a, x), Stmt::Ins(b, y)) => a.eq_ignore_ascii_case(b) && x == y,
                    (a, b) => a == b,
                })
        }
    }
}

// ------------------------------------------------------------- faults

/// Puts exactly one fault into a valid program; None if it found no place.
/// Returns a name for what it did.
pub fn inject(t: &mut Tape, d: &Dict, prog: &mut Vec<Stmt>) -> Option<&'static str> {
    let ins: Vec<usize> = (0..prog.len()).filter(|k| matches!(prog[*k], Stmt::Ins(..))).collect();
    let dbs: Vec<usize> = (0..prog.len()).filter(|k| is_db(&prog[*k])).collect();
    let labels: Vec<usize> = (0..prog.len()).filter(|k| matches!(prog[*k], Stmt::Label(_))).collect();
    match t.below(14) {
        0 => {
            // Unknown mnemonic.
            let k = if ins.is_empty() { return None } else { *t.pick(&ins) };
            if let Stmt::Ins(m, _) = &mut prog[k] {
                *m = t.pick(&["ldd", "mov", "jmp", "cl", "rett", "_", "addi", "sys", "scd", "vf", "hcf", "x"]).to_string();
            }
            Some("mnemonic")
        }
        1 => {
            // Operands of no form.
            let k = if ins.is_empty() { return None } else { *t.pick(&ins) };
            let before = prog[k].clone();
            for _ in 0..6 {
                let mut s = before.clone();
                if let Stmt::Ins(m, ops) = &mut s {
                    match t.below(4) {
                        0 => {
                            ops.pop();
                        }
                        1 => ops.push(Op::V(t.below(16) as u8)),
                        2 => ops.reverse(),
                        _ => {
                            if !ops.is_empty() {
                                let j = t.below(ops.len());
                                ops[j] = any_operand(t, d, &[]);
                                if let Op::Label(_) = ops[j] {
                                    ops[j] = Op::B;
                                }
                            }
                        }
                    }
                    if find_form(m, ops).is_none() {
                        prog[k] = s;
                        return Some("operands");
                    }
                }
            }
            None
        }
        2 => {
            // A value too large for its field.
            for _ in 0..4 {
                let k = if ins.is_empty() { return None } else { *t.pick(&ins) };
                if let Stmt::Ins(m, ops) = &mut prog[k] {
                    let m = m.clone();
                    let f = find_form(&m, ops)?;
                    for (p, o) in f.pats.iter().zip(ops.iter_mut()) {
                        if let (Pat::N, _) | (Pat::NN, _) = (p, &o) {
                            let max = p.max().unwrap();
                            *o = Op::Num(max + 1 + num(t, d, 4095 - max - 1));
                            return Some("range");
                        }
                    }
                }
            }
            None
        }
        3 => {
            // Undefined label.
            let k = if ins.is_empty() { return None } else { *t.pick(&ins) };
            let used: Vec<String> = labels
                .iter()
                .filter_map(|k| if let Stmt::Label(n) = &prog[*k] { Some(n.clone()) } else { None })
                .collect();
            let mut n = name(t, d, &used);
            if !referable(&n) {
                n = "undefd".into();
            }
            while used.contains(&n) {
                n.push('q');
            }
            prog[k] = if t.below(2) == 0 {
                Stmt::ins("jp", vec![Op::Label(n)])
            } else {
                Stmt::ins("ld", vec![Op::V(t.below(16) as u8), Op::Label(n)])
            };
            Some("undefined")
        }
        4 | 5 => {
            // A label defined twice: again as an address, or as a constant.
            let k = if labels.is_empty() { return None } else { *t.pick(&labels) };
            let l = prog[k].clone();
            let mut at = t.below(prog.len() + 1);
            if at < prog.len() && is_equ(&prog[at]) {
                at += 1;
            }
            if t.below(2) == 1 {
                prog.insert(at, Stmt::equ(num(t, d, 4095)));
            }
            prog.insert(at, l);
            Some("redefinition")
        }
        6 => {
            let k = if dbs.is_empty() { return None } else { *t.pick(&dbs) };
            if let Stmt::Dir(_, a) = &mut prog[k] {
                if a.is_empty() {
                    return None;
                }
                let j = t.below(a.len());
                a[j] = Lit::Num(256 + num(t, d, 4095 - 256));
            }
            Some("db value")
        }
        7 => {
            let mut at = t.below(prog.len() + 1);
            if at < prog.len() && is_equ(&prog[at]) {
                at += 1;
            }
            let nm = t.pick(&["dw", "byte", "or", "orgs", "eq", "d", "include", "cls", "v0", "text", "DBB", "_db"]).to_string();
            let args = if t.below(2) == 0 { vec![] } else { vec![Lit::Num(num(t, d, 255))] };
            prog.insert(at, Stmt::Dir(nm, args));
            Some("unknown directive")
        }
        8 => {
            let mut at = t.below(prog.len() + 1);
            if at < prog.len() && is_equ(&prog[at]) {
                at += 1;
            }
            let nm = t.pick(&["org", "equ"]).to_string();
            let args = match t.below(3) {
                0 => vec![],
                1 => vec![Lit::Num(num(t, d, 4095)), Lit::Num(num(t, d, 4095))],
                _ => vec![Lit::Str(string_body(t, d, 4))],
            };
            prog.insert(at, Stmt::Dir(nm, args));
            Some("directive arguments")
        }
        9 => {
            let mut at = t.below(prog.len() + 1);
            if at < prog.len() && is_equ(&prog[at]) {
                at += 1;
            }
            prog.insert(at, Stmt::db(vec![]));
            Some("empty db")
        }
        10 | 11 => {
            // A constant that no label directly precedes.
            let spots: Vec<usize> = (0..=prog.len())
                .filter(|k| *k == 0 || !matches!(prog[*k - 1], Stmt::Label(_)))
                .filter(|k| !(*k < prog.len() && is_equ(&prog[*k])))
                .collect();
            let at = *t.pick(&spots);
            prog.insert(at, Stmt::equ(num(t, d, 4095)));
            Some("equ alone")
        }
        12 => {
            let room = t.below(2) as u32;
            prog.push(Stmt::org(4094 + room));
            prog.push(instruction(t, d, 0));
            Some("instruction overflow")
        }
        _ => {
            let room = num(t, d, 300);
            prog.push(Stmt::org(4095 - room));
            let n = room + 1 + num(t, d, 40);
            prog.push(Stmt::db(vec![Lit::Str("y".repeat(n as usize))]));
            Some("db overflow")
        }
    }
}

pub const BAD_CHARS: &[char] = &[
    '!', '@', '&', '*', '(', ')', '-', '+', '=', '/', '\\', '\'', '`', '~', '<', '>', '?', '{',
    '}', '|', '^', ']', '\u{0}', '\u{7f}', 'é', '日', '😀', '\u{200b}', '\u{feff}', '\u{1b}',
];

/// A token out of place or malformed, inserted between tokens of a valid text.
pub fn inject_token(t: &mut Tape, d: &Dict, text: &str) -> (String, &'static str) {
    let toks = lex(text);
    // Right after a token (or at the start), outside comments.
    let mut spots: Vec<usize> = vec![0];
    spots.extend(toks.iter().filter(|k| !matches!(k.tok, Tok::Comment)).map(|k| k.end));
    let at = *t.pick(&spots);
    let (bad, what): (String, &'static str) = match t.below(9) {
        0 => (t.pick(BAD_CHARS).to_string(), "bad character"),
        1 => (big_decimal(t, d), "decimal out of range"),
        2 => (format!("%1{}", "0".repeat(12 + t.below(90))), "binary out of range"),
        3 => (t.pick(&["$", "#", "$g", "#,", "$ 1", "%", "%2", "% 1"]).to_string(), "empty literal"),
        4 => (t.pick(&["[", "[ i]", "[j]", "[i", "[v0]"]).to_string(), "bad indirect"),
        5 => (t.pick(&[",", ":", ".", ",,", "::", ".."]).to_string(), "stray punctuation"),
        6 => (t.pick(&["7", "$7f", "%101", "\"text\"", "\"\""]).to_string(), "stray literal"),
        7 => ("\"never closed".to_string(), "open string"),
        _ => (t.pick(BAD_CHARS).to_string(), "bad character"),
    };
    let mut s = String::new();
    s += &text[..at];
    s.push(' ');
    s += &bad;
    s.push(' ');
    s += &text[at..];
    (s, what)
}

/// A decimal number above 4095.
pub fn big_decimal(t: &mut Tape, d: &Dict) -> String {
    match t.below(6) {
        0 => (4096 + t.below(100)).to_string(),
        1 => (4096 + t.below(100_000)).to_string(),
        2 => {
            // What would wrap to something small.
            let v = num(t, d, 4095) as u128;
            let k = *t.pick(&[12u32, 13, 16, 31, 32, 63, 64, 65, 96]);
            ((1u128 << k) + v).to_string()
        }
        3 => {
            let z = t.below(30);
            format!("{}{}", "0".repeat(z), 4096 + t.below(1000))
        }
        4 => "9".repeat(5 + t.below(60)),
        _ => format!("1{}", "0".repeat(4 + t.below(40))),
    }
}

// ------------------------------------------------------------- soup and mutation

pub fn soup_token(t: &mut Tape, d: &Dict) -> String {
    let st = Style { level: 2, crlf: false, join: false };
    match t.weighted(&[6, 4, 3, 5, 3, 3, 5, 2, 2, 1, 2, 1]) {
        0 => "\n".into(),
        1 => {
            let m = t.pick(FORMS).mn;
            recase(t, st, m)
        }
        2 => format!(".{}", t.pick(&["db", "org", "equ", "DB", "Org", "eQu", "dw", " db"])),
        3 => {
            let o = any_operand(t, d, &[]);
            spell_operand(t, st, &o)
        }
        4 => t.pick(&["a", "b2", "loop", "A", "x", "org", "jp"]).to_string(),
        5 => format!("{}:", t.pick(&["a", "b2", "loop", "A", "x", "v0", "i"])),
        6 => ",".into(),
        7 => t.pick(&[".", ":", ";", "\"", "\\", "[", "]", "[i]", "[I]", "$", "#", "%"]).to_string(),
        8 => format!("\"{}\"", string_body(t, d, 8)),
        9 => big_decimal(t, d),
        10 => comment(t, d),
        _ => {
            if t.below(2) == 0 {
                t.pick(BAD_CHARS).to_string()
            } else {
                string_char(t).to_string()
            }
        }
    }
}

pub fn soup(t: &mut Tape, d: &Dict, max: usize) -> String {
    let n = t.below(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        s += &soup_token(t, d);
        match t.weighted(&[5, 2, 1]) {
            0 => s.push(' '),
            1 => {}
            _ => s += t.pick(BLANKS),
        }
    }
    s
}

/// One to three small changes to a text.
pub fn mutate(t: &mut Tape, d: &Dict, text: &str) -> String {
    let mut s: Vec<char> = text.chars().collect();
    for _ in 0..1 + t.weighted(&[6, 2, 1]) {
        let n = s.len();
        let at = t.below(n + 1);
        match t.below(12) {
            0 => {
                if at < n {
                    s.remove(at);
                }
            }
            1 => {
                let tok: Vec<char> = soup_token(t, d).chars().collect();
                s.splice(at..at, tok);
            }
            2 => s.truncate(at),
            3 => {
                // Join two lines.
                let nls: Vec<usize> = (0..n).filter(|k| s[*k] == '\n').collect();
                if !nls.is_empty() {
                    let k = *t.pick(&nls);
                    s[k] = ' ';
                }
            }
            4 => {
                // Break a line.
                s.insert(at, '\n');
            }
            5 | 6 => {
                // Delete, duplicate or swap a token.
                let cur: String = s.iter().collect();
                let toks = lex(&cur);
                if toks.is_empty() {
                    continue;
                }
                let k = t.below(toks.len());
                let (a, b) = (toks[k].start, toks[k].end);
                let mut out = String::new();
                match t.below(3) {
                    0 => {
                        out += &cur[..a];
                        out += &cur[b..];
                    }
                    1 => {
                        out += &cur[..b];
                        out.push(' ');
                        out += &cur[a..];
                    }
                    _ => {
                        let j = t.below(toks.len());
                        let (k, j) = (k.min(j), k.max(j));
                        if k == j {
                            continue;
                        }
                        out += &cur[..toks[k].start];
                        out += &cur[toks[j].start..toks[j].end];
                        out += &cur[toks[k].end..toks[j].start];
                        out += &cur[toks[k].start..toks[k].end];
                        out += &cur[toks[j].end..];
                    }
                }
                s = out.chars().collect();
            }
            7 => {
                if at < n {
                    let c = s[at];
                    s[at] = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                }
            }
            8 => {
                if at < n {
                    s[at] = *t.pick(&['0', '1', '9', 'f', 'v', '"', ';', ',', '.', ':', '$', '%', '\\', ' ']);
                }
            }
            9 => {
                // Duplicate a line.
                let cur: String = s.iter().collect();
                let lines: Vec<&str> = cur.split('\n').collect();
                let k = t.below(lines.len());
                let mut v: Vec<&str> = Vec::new();
                for (i, l) in lines.iter().enumerate() {
                    v.push(l);
                    if i == k {
                        v.push(l);
                    }
                }
                s = v.join("\n").chars().collect();
            }
            10 => {
                // Remove a line.
                let cur: String = s.iter().collect();
                let mut lines: Vec<&str> = cur.split('\n').collect();
                let k = t.below(lines.len());
                lines.remove(k);
                s = lines.join("\n").chars().collect();
            }
            _ => {
                let c = string_char(t);
                s.insert(at, c);
            }
        }
    }
    s.into_iter().collect()
}

// ------------------------------------------------------------- big shapes

/// Inputs of unusual proportions: (text, name of the shape). Sizes up to `max` elements.
pub fn shape(t: &mut Tape, d: &Dict, max: usize) -> (String, &'static str) {
    let n = match t.below(4) {
        0 | 1 => t.log_len(max),
        2 => (dict_int(t, d) as usize).min(max),
        _ => *t.pick(&[255usize, 256, 257, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537]).min(&max),
    };
    let tail = *t.pick(&["", "cls\n", ".db 1\n", "bad!\n", "a: jp a\n"]);
    match t.below(15) {
        0 => {
            let mut s = String::from(".db ");
            for k in 0..n {
                if k > 0 {
                    s.push(',');
                }
                s += if k % 3 == 0 { "1" } else { "$2" };
            }
            s.push('\n');
            (s + tail, "long .db list")
        }
        1 => {
            let mut s = String::from("ld ");
            for k in 0..n {
                if k > 0 {
                    s.push(',');
                }
                s += if k % 2 == 0 { "v1" } else { "3" };
            }
            s.push('\n');
            (s + tail, "long operand list")
        }
        2 => {
            let mut s = String::new();
            for k in 0..n {
                s += &format!("L{}:\n", k);
            }
            s += &format!("jp L{}\njp L0\n", n.max(1) - 1);
            (s + tail, "many labels")
        }
        3 => {
            let mut s = String::new();
            for k in 0..n {
                s += &format!("c{}: .equ {}\n", k, k % 4096);
            }
            s += &format!("jp c{}\n", n / 2);
            (s + tail, "many constants")
        }
        4 => ("\n".repeat(n) + tail, "many lines"),
        5 => (" ".repeat(n) + tail, "long blank run"),
        6 => (format!("; {}\n", "é".repeat(n)) + tail, "long comment"),
        7 => (format!(".db \"{}\"\n", "q".repeat(n)) + tail, "long string"),
        8 => (format!("{0}: jp {0}\n", "n".repeat(n.max(1))) + tail, "long name"),
        9 => (format!("jp {}7\n", "0".repeat(n)) + tail, "long decimal"),
        10 => (format!("jp %{}1\n", if t.below(2) == 0 { "0" } else { "." }.repeat(n)) + tail, "long binary"),
        11 => (format!("jp {}\n", "9".repeat(n.max(1))) + tail, "huge decimal"),
        12 => {
            // Many sections of one byte, at most one per address.
            let m = n.min(2000);
            let mut s = String::new();
            for k in 0..m {
                s += &format!(".org {}\n.db {}\n", k * 2, k % 256);
            }
            (s, "many sections")
        }
        13 => ("cls\n".repeat(n.min(20000)), "many instructions"),
        _ => (format!("{}{}", "\"\\\"".repeat(n), tail), "quote run"),
    }
}
