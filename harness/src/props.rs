//! The parts of each property's check.

use crate::case::{run_case, Case, Env};
use crate::dict::Dict;
use crate::driver::{index_tape, mix, How, Part};
use crate::gen::*;
use crate::model::*;
use crate::tape::Tape;
use crate::target::Via;
use std::collections::HashMap;

fn route(t: &mut Tape, cli_pct: usize) -> Via {
    let r = t.below(1000);
    if r >= 1000 - cli_pct * 10 {
        if r % 2 == 0 {
            Via::CliStdout
        } else {
            Via::CliFile
        }
    } else {
        Via::Lib
    }
}

/// Every n-th case of a sweep goes through the real command.
fn route_k(k: usize, every: usize) -> Via {
    if k % every == every / 2 {
        if (k / every) % 2 == 0 {
            Via::CliFile
        } else {
            Via::CliStdout
        }
    } else {
        Via::Lib
    }
}

/// Spells the program in a drawn layout; the model must read it back unchanged.
fn text(t: &mut Tape, d: &Dict, prog: &[Stmt]) -> String {
    let st = Style::draw(t);
    text_in(t, d, prog, st)
}

fn text_in(t: &mut Tape, d: &Dict, prog: &[Stmt], st: Style) -> String {
    let s = render(t, d, prog, st);
    assert!(reads_back(prog, &s), "rendering does not read back: {:?} as {:?}", prog, s);
    s
}

fn plain(prog: &[Stmt]) -> String {
    let mut t = Tape::new(&[]);
    text_in(&mut t, &Dict::default(), prog, Style::plain())
}

struct Parts<'a> {
    env: &'a Env,
    seed: u64,
    id: &'a str,
    v: Vec<Part>,
    gens: Vec<(usize, crate::driver::Gen)>,
}

const COMMAND_ONLY: &[&str] = &["oversized shapes", "bytes", "broken encodings in programs", "paths", "DataRange sets", "DataRange appends", "programs, by the command", "command lines"];

impl<'a> Parts<'a> {
    fn random(
        &mut self,
        name: &'static str,
        base: usize,
        tape: usize,
        f: impl Fn(&mut Tape, &Env) -> Option<Case> + Send + Sync + 'static,
    ) {
        let n = base * if self.env.thorough { 30 } else { 3 };
        let f = std::sync::Arc::new(f);
        let g = f.clone();
        self.v.push(Part { name, how: How::Random(n, tape, Box::new(move |t, e| f(t, e))) });
        // The command-line scenarios cannot be run in-process.
        if !["C13", "C19", "C20"].contains(&self.id) && !COMMAND_ONLY.contains(&name) {
            self.gens.push((tape, Box::new(move |t, e| g(t, e))));
        }
    }
    fn sweep(
        &mut self,
        name: &'static str,
        n: usize,
        f: impl Fn(usize, &Env) -> Option<Case> + Send + Sync + 'static,
    ) {
        self.v.push(Part { name, how: How::Sweep(n, Box::new(f)) });
    }
}

/// All sequences over an alphabet, up to so many of its words.
fn sequence_count(words: usize, depth: u32) -> usize {
    (0..=depth).map(|d| words.pow(d)).sum()
}

fn sequence<'w>(mut k: usize, words: &[&'w str]) -> Vec<&'w str> {
    let mut d = 0;
    while k >= words.len().pow(d) {
        k -= words.len().pow(d);
        d += 1;
    }
    (0..d)
        .map(|_| {
            let w = words[k % words.len()];
            k /= words.len();
            w
        })
        .collect()
}

/// What may come behind the name of a statement.
const ARGUMENTS: &[&str] = &["1", "\"s\"", ",", "\n", ";x\n", "300", "x", "v1", ".", "[i]", ":"];

/// Every sequence of statements from a few, judged as a `kind`; those the model rejects only if `faults`.
fn statements(p: &mut Parts, name: &'static str, kind: &'static str, faults: bool, words: &'static [&'static str], depth: u32) {
    let depth = depth + p.env.thorough as u32;
    p.sweep(name, sequence_count(words.len(), depth), move |k, _| {
        let v = sequence(k, words);
        // Apart in lines, or all in one where that is the same program.
        let s = if k % 3 == 0 && !v.iter().any(|w| *w == "cls") { v.join(" ") } else { v.join("\n") + "\n" };
        if !faults && !matches!(assemble(s.as_bytes()), Verdict::Ok(_)) {
            return None;
        }
        Some(run_case(kind, route_k(k, 400), s))
    });
}

/// A program with a very large number of something that costs no memory.
fn huge_program(what: usize, n: usize) -> String {
    let mut s = String::new();
    let all = |s: &mut String, f: &dyn Fn(usize) -> String| (0..n).for_each(|k| *s += &f(k));
    match what {
        0 => {
            s += "cls\nfirst: .db 1\n";
            all(&mut s, &|k| format!("a{}:\n", k));
            s += &format!("jp a0\nx: .db 7\ny: jp a{}\njp a{}\njp x\njp y\njp first\n", n - 1, n / 2);
        }
        1 => {
            s += "cls\n";
            all(&mut s, &|k| format!("c{}: .equ {}\n", k, k % 4093));
            s += &format!("x: jp c0\njp c{}\njp c{}\njp c{}\njp x\n", n - 1, n / 2, n - 2);
        }
        2 => {
            all(&mut s, &|k| if k % 9999 == 5 { format!(".org {}\n.db {}\n", k % 4000, k % 256) } else { format!(".org {}\n", k % 4096) });
            s += ".org 4090\n.db 1\n";
        }
        3 => {
            s += ".db 1\n";
            all(&mut s, &|_| ".db \"\"\n".into());
            s += "x: .db 2\njp x\n";
        }
        4 => {
            s += ".db 1";
            all(&mut s, &|_| ", \"\"".into());
            s += ", 5\nx: jp x\n";
        }
        5 => {
            s += "cls\nx:";
            all(&mut s, &|_| ";c\n".into());
            s += ".equ 5\ny: jp x\njp y\n";
        }
        6 => {
            all(&mut s, &|k| format!("a{}:\n", k));
            s += "cls\na1: ret\n";
        }
        7 => {
            all(&mut s, &|k| format!("a{}:\n", k));
            s += &format!("cls\njp a{}\n", n);
        }
        8 => {
            all(&mut s, &|k| format!(".org {}\na{}:\n", (k * 7) % 4096, k));
            s += &format!(".org 5\njp a0\njp a{}\njp a{}\n", n - 1, n / 3);
        }
        9 => {
            s += ".org 9\n.db 1, 2\n";
            all(&mut s, &|k| format!(".org {}\n", k % 4096));
            s += ".org 10\n.db 3\n";
        }
        10 => {
            // Names that differ in case or in their last character only.
            all(&mut s, &|k| format!("{}{:x}: .equ {}\n", if k % 2 == 0 { "Na_" } else { "na_" }, k / 2, k % 4096));
            s += "jp Na_0\njp na_0\njp Na_1f\njp na_1f\n";
        }
        _ => {
            s += "cls\n";
            all(&mut s, &|k| if k % 2 == 0 { format!("b{}:\n", k) } else { format!("k{}: .equ {}\n", k, k % 4096) });
            s += &format!("e: jp b{}\njp k{}\njp e\njp b0\njp k1\n", (n - 1) / 2 * 2, (n - 2) / 2 * 2 + 1);
        }
    }
    s
}

/// Very large numbers of things, around the limits of machine integers.
fn huge(p: &mut Parts, shapes: &'static [usize]) {
    let mut ns: Vec<usize> = vec![16_385, 32_767, 32_768, 32_769, 65_534, 65_535, 65_536, 65_537, 65_538, 100_001, 131_073];
    if p.env.thorough {
        ns.extend([262_143, 262_145, 524_289, 1_048_577, 2_100_000]);
    }
    p.sweep("very large numbers of things", shapes.len() * ns.len(), move |k, _| {
        let s = huge_program(shapes[k % shapes.len()], ns[k / shapes.len()]);
        Some(run_case("full", if k % 3 == 0 { Via::CliFile } else { Via::Lib }, s))
    });
}

/// Every sequence of a few tokens behind the beginning of a statement.
fn arguments(p: &mut Parts, name: &'static str, begin: &'static [&'static str]) {
    let depth = 5 + p.env.thorough as u32;
    let n = sequence_count(ARGUMENTS.len(), depth);
    p.sweep(name, n * begin.len(), move |k, _| {
        let mut s = begin[k / n].to_string();
        for w in sequence(k % n, ARGUMENTS) {
            if !s.ends_with('\n') {
                s.push(' ');
            }
            s += w;
        }
        Some(run_case("full", route_k(k, 400), s))
    });
}

/// Counts to try: all below `dense`, then round numbers, powers of two and constants of the code, and their neighbours.
fn counts(d: &Dict, dense: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..dense).collect();
    let mut near = |x: usize| v.extend(x.saturating_sub(2)..=x + 2);
    let mut b = 1usize;
    while b <= max {
        near(b);
        near(b + b / 2);
        b *= 2;
    }
    b = 10;
    while b <= max {
        for m in [1, 2, 3, 5] {
            near(b * m);
        }
        b *= 10;
    }
    for x in d.ints.iter().chain(&d.new_ints) {
        if *x <= max as u64 {
            near(*x as usize);
        }
    }
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}

fn num_op(v: u32) -> Op {
    Op::Num(v)
}
fn lab(s: &str) -> Op {
    Op::Label(s.to_string())
}

// ------------------------------------------------------------- instruction instances

fn radix(p: Pat) -> usize {
    match p {
        Pat::X | Pat::Y | Pat::N => 16,
        Pat::NN => 256,
        Pat::NNN => 4096,
        _ => 1,
    }
}

fn instances() -> Vec<(usize, usize)> {
    // (form, index within the form)
    let mut v = Vec::new();
    for (k, f) in FORMS.iter().enumerate() {
        let n: usize = f.pats.iter().map(|p| radix(*p)).product();
        v.extend((0..n).map(|i| (k, i)));
    }
    v
}

fn instance(form: usize, mut i: usize) -> Stmt {
    let f = &FORMS[form];
    let mut ops = Vec::new();
    for p in f.pats {
        let r = radix(*p);
        let v = (i % r) as u32;
        i /= r;
        ops.push(match p {
            Pat::X | Pat::Y => Op::V(v as u8),
            Pat::V0 => Op::V(0),
            Pat::N | Pat::NN | Pat::NNN => Op::Num(v),
            Pat::Dt => Op::Dt,
            Pat::St => Op::St,
            Pat::I => Op::I,
            Pat::II => Op::II,
            Pat::K => Op::K,
            Pat::B => Op::B,
            Pat::F => Op::F,
        });
    }
    Stmt::ins(f.mn, ops)
}

/// Replaces the numbers of an instruction by labels; returns label definitions.
/// how: 1 constant before, 2 constant after, 3 address before, 4 address after.
fn through_labels(s: &mut Stmt, how: usize, name: &str) -> (Vec<Stmt>, Vec<Stmt>) {
    let (mut pre, mut post) = (Vec::new(), Vec::new());
    if let Stmt::Ins(_, ops) = s {
        for (j, o) in ops.iter_mut().enumerate() {
            if let Op::Num(v) = *o {
                let n = format!("{}{}", name, j);
                let def = match how {
                    1 | 2 => vec![Stmt::label(&n), Stmt::equ(v)],
                    _ => vec![Stmt::org(v), Stmt::label(&n)],
                };
                if how % 2 == 1 {
                    pre.extend(def);
                } else {
                    post.extend(def);
                }
                *o = lab(&n);
            }
        }
    }
    (pre, post)
}

// ------------------------------------------------------------- profiles

const INSTR: Profile = Profile { w: [14, 1, 2, 2, 1], max_stmts: 14, big_pct: 2, ..MIXED };
const LABELS: Profile = Profile { w: [7, 2, 6, 1, 1], ref_pct: 85, big_pct: 8, ..MIXED };
const CONSTS: Profile = Profile { w: [6, 1, 2, 6, 1], ref_pct: 80, ..MIXED };
const SECTIONS: Profile = Profile { max_sections: 12, max_stmts: 4, w: [4, 4, 2, 1, 2], big_pct: 5, ..MIXED };
const TINY: Profile = Profile { max_sections: 40, max_stmts: 2, w: [3, 4, 1, 1, 1], big_pct: 0, max_list: 2, max_str: 4, ..MIXED };
const DATA: Profile = Profile { w: [1, 10, 2, 0, 0], str_pct: 50, max_list: 10, max_str: 120, big_pct: 10, ..MIXED };

fn profile(t: &mut Tape) -> &'static Profile {
    *t.pick(&[&MIXED, &INSTR, &LABELS, &CONSTS, &SECTIONS, &DATA, &TINY])
}

// ------------------------------------------------------------- names that may be confused

fn confusable() -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for w in [
        "a", "A", "aa", "aA", "Aa", "AA", "a_", "_a", "a0", "a00", "a1", "a01", "a10", "x", "X",
        "loop", "Loop", "LOOP", "loop1", "loop2", "loop10", "loop_1", "loop01", "_loop", "loop_",
        "l", "L", "l1", "ll", "I1", "Il", "lI", "O", "o0", "O0", "oo", "end", "End", "start",
        "START", "v", "V", "vg", "vG", "Vg", "v10", "V10", "v00", "v0a", "v_0", "dtt", "dt0", "d",
        "t", "s", "sst", "st0", "ii", "i0", "I0", "kk", "k0", "bb", "b0", "B0", "ff", "f0", "F0",
        "jp", "JP", "ld", "LD", "cls", "org", "ORG", "db", "equ", "EQU", "_", "__", "___", "_0",
        "_1", "z", "Z", "zz", "ab", "ba", "abc", "acb", "cab", "abcd", "dcba", "abd", "Abc", "aBc",
        "abC", "ABC", "c8s", "sprite_a", "sprite_b", "sprite_A", "sprite", "sprites", "data",
        "data1", "Data", "dat", "deadbeef", "x0", "x1", "x2", "x11", "x12", "x21", "xf", "xF",
        "ff00", "fff", "b101", "e", "E", "e1", "E1", "n", "nop", "NOP", "nan", "ret", "RET",
        "trap", "trapret", "Aa0", "aa0", "BB", "AaAa", "BBBB", "AaBB", "BBAa", "C", "c", "p", "P",
    ] {
        v.push(w.to_string());
    }
    for n in [7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256] {
        for tail in ["p", "q", "P", "pp"] {
            v.push(format!("{}{}", "x".repeat(n), tail));
        }
    }
    v.retain(|n| referable(n));
    v.sort();
    v.dedup();
    v
}

const FIRST: &[u8] = b"abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ";
const LATER: &[u8] = b"abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
const SHORT_NAMES: usize = 53 * (1 + 63 + 63 * 63);

/// The identifiers of up to three characters.
fn short_name(mut k: usize) -> String {
    let mut s = String::new();
    s.push(FIRST[k % 53] as char);
    k /= 53;
    for tail in [1usize, 63, 63 * 63] {
        if k < tail {
            let mut n = tail;
            while n > 1 {
                s.push(LATER[k % 63] as char);
                k /= 63;
                n /= 63;
            }
            return s;
        }
        k -= tail;
    }
    s
}

// ------------------------------------------------------------- the properties

pub fn rule(id: &str) -> &'static str {
    match id {
        "C01" => "Sweeps of every documented form x every operand value (as literal, through constants and through address labels, before and after their use), and random valid programs spelled in random layouts. Oracle: instruction bytes of the reference model. Non-trivial: the program contains an instruction.",
        "C02" => "Sweep of every mnemonic x every combination of up to three operand kinds, of every out-of-range value of every 4/8-bit field (literal and label), of every one-edit misspelling of every mnemonic, every name of up to three characters as mnemonic or operand, every operand slot written as other assemblers would, every short token sequence behind a mnemonic; random single-instruction changes inside valid programs. Oracle: the form table of the reference model decides rejection (no output) or the exact bytes. Non-trivial: the model rejects for the instruction, or the program contains an instruction.",
        "C03" => "Sweep of every value 0-4095 in 20 spellings in 8 places, of out-of-range and zero-padded literals of up to 300 digits; random literals. Oracle: mathematical value. Non-trivial: the literal is rejected, or the program emits bytes or defines labels.",
        "C04" => "Random label-heavy programs (values of references), renamings and substitutions by number (byte-identical output), sweeps over all label addresses, numbers of labels, lengths of names, pairs of similar names, and every program of up to 6 statements from 10. Oracle: label table of the reference model / equality of two runs. Non-trivial: a label is referenced (or, for pairs, the sources differ and emit bytes).",
        "C05" => "Random programs around .equ (stacked labels, blank lines and comments between, .equ without label), sweeps over all constants and numbers of stacked labels, every program of up to 6 statements from 10, every short token sequence behind .equ. Oracle: exact acceptance and image of the reference model. Non-trivial: rejected, or bytes or labels present.",
        "C06" => "Valid programs with one label removed, misspelled or defined twice; sweeps over pairs of similar names, over operand positions, and over every program of up to 6 statements from 9. Oracle: reference model's fault; the diagnostic must contain the name. Non-trivial: a label fault, or an accepted program with labels.",
        "C07" => "Random programs of up to 40 sections placed without overlap, sweeps over the number of sections, the distance of origins and every program of up to 6 statements from 9. Oracle: memory image of the reference model. Non-trivial: at least two non-empty sections.",
        "C08" => "Every Unicode scalar in a string and behind a backslash, every number, every string length and list length up to the memory size, every short token sequence behind .db, every program of up to 6 statements from 9, characters at any offset in a long file, random data. Oracle: the source text between the quotes. Non-trivial: the program has a .db, or is rejected for one.",
        "C09" => "Exhaustive placements of two and three short sections, every program of up to 6 statements from 9, random section sets near each other, and DataRange objects. Oracle: set of addresses; the diagnostic's pairs. Non-trivial: sections overlap, or there are at least two.",
        "C10" => "Sweeps of origin x size around the end of memory, of large and wrapping sizes, every program of up to 6 statements from 9 near the end, random programs ending near $FFF. Oracle: reference counter. Non-trivial: rejected for size, or a byte above $F00.",
        "C11" => "Sweep of every section length at several alignments, of the number of sections, of every program of up to 6 statements from 9; random valid programs. Oracle: independent strict I8HEX decoder plus the reference image. Non-trivial: the program has bytes.",
        "C12" => "Random bytes, invalid UTF-8, token soup, mutated programs, oversized shapes, runs of 250,000 equal or similar things, piles of sections. Oracle: exit status 0, or 1 with a diagnostic; bounded CPU time and memory. Non-trivial: more than one byte of input.",
        "C13" => "Cross product and random combinations of input state, destination state, program and output option in a scratch directory with decoy files, links and full devices; histories of up to eight steps (write, remove, copy, age, run) in one directory. Oracle: snapshot of the directory before and after, model of the directory. Non-trivial: the run fails, or replaces an existing file.",
        "C14" => "Exactly one fault injected into a random valid program or token stream, spelled in a random layout; sweeps over lines, columns, widths, preceding characters; odd paths. Oracle: position computed from the source text. Non-trivial: the fault is not at line 1 column 1.",
        "C15" => "The same random program spelled in two random layouts; sweeps over all blank characters, all characters in comments, all letter cases of all keywords. Oracle: byte equality of outputs (metamorphic). Non-trivial: the texts differ and the program emits bytes.",
        "C16" => "Exhaustive short token sequences, every text of up to three characters in eight contexts, what other assemblers accept, every Unicode scalar as stray character, random token soup, mutations and loose programs. Oracle: independent parser decides acceptance, and the image shows nothing was dropped. Non-trivial: rejected, or bytes or labels present.",
        "C17" => "All 65536 words. Oracle: canonical encoding by the form table; the printed text is assembled again. Non-trivial: every word.",
        "C18" => "Random programs of self-contained sections with permuted sections and moved constants; all lists of up to five of twelve small sections in two orders. Oracle: equality of acceptance and image. Non-trivial: the order differs and the program emits bytes or is rejected.",
        "C19" => "Random texts (valid and not) assembled under two randomly drawn surroundings (path, directory, environment, leftovers, destination, program name, earlier runs). Oracle: equality. Non-trivial: the surroundings differ.",
        "C20" => "Random and enumerated argument lists over options, paths and junk, including invalid Unicode. Oracle: model of the usage text, directory snapshots. Non-trivial: at least two arguments.",
        "C21" => "Every pair of 24 kinds of fault at varying distances and in both orders; every program of up to 5 statements of which most are faults; random programs with two to six faults injected as statements or tokens; token soup and mutations. Oracle: the phases of the reference model (grammar, then directives, addresses and definitions, then instructions, then overlap) and the position of the first fault. Non-trivial: the program is faulty.",
        "C22" => "Faulty programs of every kind (all names, values and characters in the quoted place swept, random ones otherwise) and valid programs, by the command with output to a file and to standard output. Oracle: the offending text or value is in the diagnostic, standard error stays empty, a successful run prints nothing. Non-trivial: every case.",
        _ => "",
    }
}

pub fn parts(id: &str, env: &Env, seed: u64) -> Option<Vec<Part>> {
    let mut p = Parts { env, seed, id, v: Vec::new(), gens: Vec::new() };
    regressions(&mut p, id);
    match id {
        "C01" => c01(&mut p),
        "C02" => c02(&mut p),
        "C03" => c03(&mut p),
        "C04" => c04(&mut p),
        "C05" => c05(&mut p),
        "C06" => c06(&mut p),
        "C07" => c07(&mut p),
        "C08" => c08(&mut p),
        "C09" => c09(&mut p),
        "C10" => c10(&mut p),
        "C11" => c11(&mut p),
        "C12" => c12(&mut p),
        "C13" => c13(&mut p),
        "C14" => c14(&mut p),
        "C15" => c15(&mut p),
        "C16" => c16(&mut p),
        "C17" => c17(&mut p),
        "C18" => c18(&mut p),
        "C19" => c19(&mut p),
        "C20" => c20(&mut p),
        "C21" => c21(&mut p),
        "C22" => c22(&mut p),
        _ => return None,
    }
    if !p.gens.is_empty() {
        let gens = std::mem::take(&mut p.gens);
        let secs = if env.thorough { 300 } else { 15 };
        p.v.push(Part { name: "coverage-guided", how: How::Guided(secs, gens) });
    }
    Some(p.v)
}

/// Replay files of earlier findings, committed under /verif/regress.
fn regressions(p: &mut Parts, id: &str) {
    let dir = crate::verif().join("regress");
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .map(|rd| rd.flatten().map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    let cases: Vec<Case> = files
        .iter()
        .filter_map(|f| std::fs::read(f).ok())
        .filter_map(|d| crate::case::from_replay(&d))
        .filter(|(q, _)| q == id)
        .map(|(_, c)| c)
        .collect();
    if !cases.is_empty() {
        p.sweep("regressions", cases.len(), move |k, _| Some(cases[k].clone()));
    }
}

fn c01(p: &mut Parts) {
    let seed = p.seed;
    let all = instances();
    let n = all.len();
    {
        let all = all.clone();
        p.sweep("every instruction alone", n * 5, move |k, env| {
            let (f, i) = all[k % n];
            let how = k / n;
            let mut s = instance(f, i);
            let tp = index_tape(seed, k, 90);
            let mut t = Tape::new(&tp);
            let mut prog = Vec::new();
            let has_num = matches!(&s, Stmt::Ins(_, o) if o.iter().any(|x| matches!(x, Op::Num(_))));
            if how > 0 && !has_num {
                return None;
            }
            let name = t.pick(&["lbl", "X", "_", "start", "vv", "dt_", "Loop"]).to_string();
            let (pre, post) = if how > 0 { through_labels(&mut s, how, &name) } else { (vec![], vec![]) };
            prog.extend(pre);
            let a = t.below(4094) as u32;
            if how > 0 || t.chance(1, 2) {
                prog.push(Stmt::org(a));
            }
            prog.push(s);
            prog.extend(post);
            Some(run_case("instructions", route_k(k, 199), text(&mut t, &env.dict, &prog)))
        });
    }
    let per = 2000;
    let batches = n.div_ceil(per);
    p.sweep("every instruction, in batches", batches * 6, move |k, env| {
        let how = k / batches;
        let tp = index_tape(seed, how, n);
        let mut t = Tape::new(&tp);
        let mut order: Vec<usize> = (0..n).collect();
        t.shuffle(&mut order);
        let mut prog = Vec::new();
        let mut used = std::collections::BTreeSet::new();
        for q in order.iter().skip((k % batches) * per).take(per) {
            let (f, i) = all[*q];
            let mut s = instance(f, i);
            if how >= 3 {
                if let Stmt::Ins(_, ops) = &mut s {
                    for o in ops.iter_mut() {
                        if let Op::Num(v) = *o {
                            used.insert(v);
                            *o = Op::Label(format!("c{}", v));
                        }
                    }
                }
            }
            prog.push(s);
        }
        let defs: Vec<Stmt> = used.iter().flat_map(|v| vec![Stmt::Label(format!("c{}", v)), Stmt::equ(*v)]).collect();
        let prog = if how % 2 == 0 { [defs, prog].concat() } else { [prog, defs].concat() };
        let st = if how % 3 == 0 { Style::plain() } else { Style { level: how % 3, crlf: how == 5, join: how == 2 } };
        let tp = index_tape(seed, k + 999, 40_000);
        let mut t = Tape::new(&tp);
        let s = text_in(&mut t, &env.dict, &prog, st);
        Some(run_case("instructions", if k % 2 == 0 { Via::CliFile } else { Via::Lib }, s))
    });
    p.random("random programs", 120_000, 420, |t, env| {
        let via = route(t, 4);
        let pr = *t.pick(&[&INSTR, &INSTR, &MIXED, &LABELS, &CONSTS]);
        let prog = valid(t, &env.dict, pr);
        Some(run_case("instructions", via, text(t, &env.dict, &prog)))
    });
}

const MNEMONICS: &[&str] = &[
    "nop", "cls", "ret", "jp", "call", "se", "sne", "ld", "add", "or", "and", "xor", "sub", "shr",
    "subn", "shl", "rnd", "drw", "skp", "sknp", "trapret", "trap", "sys", "mov", "scd", "exit",
    "low", "high",
];

fn c02(p: &mut Parts) {
    let seed = p.seed;
    // Kinds of operand, including the ones only just right or wrong.
    let kinds: Vec<Op> = vec![
        Op::V(0), Op::V(1), Op::V(15), Op::Dt, Op::St, Op::I, Op::II, Op::K, Op::B, Op::F,
        num_op(0), num_op(7), num_op(300), num_op(4095), lab("small"), lab("large"), lab("none"),
    ];
    let q = kinds.len();
    let tuples = 1 + q + q * q + q * q * q;
    {
        let kinds = kinds.clone();
        p.sweep("operand combinations", MNEMONICS.len() * tuples, move |k, env| {
            let mn = MNEMONICS[k / tuples];
            let mut i = k % tuples;
            let mut ops = Vec::new();
            let arity = if i == 0 { 0 } else if i < 1 + q { i -= 1; 1 } else if i < 1 + q + q * q { i -= 1 + q; 2 } else { i -= 1 + q + q * q; 3 };
            for _ in 0..arity {
                ops.push(kinds[i % q].clone());
                i /= q;
            }
            let tp = index_tape(seed, k, 60);
            let mut t = Tape::new(&tp);
            let prog = vec![
                Stmt::label("small"), Stmt::equ(t.below(16) as u32), Stmt::ins(mn, ops),
                Stmt::label("large"), Stmt::equ(256 + t.below(3840) as u32),
            ];
            let st = Style { level: t.below(3), crlf: false, join: false };
            Some(run_case("forms", route_k(k, 150), text_in(&mut t, &env.dict, &prog, st)))
        });
    }
    {
        // Every value that does not fit, and those that just do.
        let forms: Vec<usize> = (0..FORMS.len()).filter(|k| FORMS[*k].pats.iter().any(|p| matches!(p, Pat::N | Pat::NN))).collect();
        let m = forms.len();
        p.sweep("values out of range", m * 4096 * 3, move |k, env| {
            let v = (k % 4096) as u32;
            let f = &FORMS[forms[(k / 4096) % m]];
            let how = k / 4096 / m;
            let tp = index_tape(seed, k, 60);
            let mut t = Tape::new(&tp);
            let ops: Vec<Op> = f.pats.iter().map(|p| match p {
                Pat::N | Pat::NN => num_op(v),
                _ => Op::V(t.below(16) as u8),
            }).collect();
            let mut s = Stmt::ins(f.mn, ops);
            let (pre, post) = match how {
                0 => (vec![], vec![]),
                h => through_labels(&mut s, if h == 1 { 1 + t.below(2) } else { 3 + t.below(2) }, "n"),
            };
            let mut prog = pre;
            if how > 0 {
                prog.push(Stmt::org(t.below(4000) as u32));
            }
            prog.push(s);
            prog.extend(post);
            let st = Style { level: t.below(3), crlf: false, join: false };
            Some(run_case("forms", route_k(k, 150), text_in(&mut t, &env.dict, &prog, st)))
        });
    }
    {
        // Registers other than V0, misspelled registers, misspelled mnemonics.
        let mut list: Vec<String> = Vec::new();
        for f in FORMS {
            let i = 0x123;
            let k = FORMS.iter().position(|g| std::ptr::eq(f, g)).unwrap();
            if let Stmt::Ins(_, ops) = instance(k, i) {
                let o: Vec<String> = ops.iter().map(|o| {
                    let mut t = Tape::new(&[]);
                    spell_operand(&mut t, Style::plain(), o)
                }).collect();
                let o = o.join(", ");
                let m = f.mn;
                let mut names: Vec<String> = Vec::new();
                let al: Vec<char> = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789".chars().collect();
                for at in 0..=m.len() {
                    for c in &al {
                        let mut s = m.to_string();
                        s.insert(at, *c);
                        names.push(s);
                        if at < m.len() {
                            let mut s: Vec<char> = m.chars().collect();
                            s[at] = *c;
                            names.push(s.into_iter().collect());
                        }
                    }
                    if at < m.len() {
                        let mut s = m.to_string();
                        s.remove(at);
                        names.push(s);
                        if at + 1 < m.len() {
                            let mut s: Vec<char> = m.chars().collect();
                            s.swap(at, at + 1);
                            names.push(s.into_iter().collect());
                        }
                    }
                }
                for other in ["jmp", "sys", "scd", "scr", "scl", "exit", "low", "high", "mul", "div", "inc", "dec", "push", "pop", "not", "neg", "mov", "clear", "return", "halt", "key", "delay", "sound", "bcd", "load", "save", "skip", "goto", "if", "db", "org", "equ", "dw", "include", "ldi", "addi", "rand", "draw", "jump", "jp0", "jpv0"] {
                    names.push(other.to_string());
                }
                names.retain(|n| is_ident(n));
                for n in names {
                    list.push(format!("{} {}\n", n, o));
                }
            }
        }
        // Operands spelled almost like registers.
        for m in ["ld v1, ", "ld i, ", "add v1, ", "jp ", "shr ", "ld dt, ", "add i, ", "drw v1, v2, ", "se v3, "] {
            for c in 0..128u8 {
                let c = c as char;
                if c.is_ascii_alphanumeric() || c == '_' {
                    for w in [format!("v{}", c), format!("V{}", c), format!("v{}{}", c, c), format!("{}0", c), format!("{}t", c), format!("d{}", c), format!("s{}", c), format!("{}", c), format!("i{}", c), format!("x{}", c)] {
                        if is_ident(&w) {
                            list.push(format!("{}{}\n", m, w));
                        }
                    }
                }
                if c != '\n' {
                    list.push(format!("{}[{}]\n", m, c));
                    list.push(format!("{}[i{}\n", m, c));
                }
            }
        }
        for r in 0..16 {
            list.push(format!("jp v{:x}, 5\n", r));
            list.push(format!("jp V{:X}, x\nx:\n", r));
        }
        list.sort();
        list.dedup();
        let n = list.len();
        p.sweep("misspellings", n, move |k, _| Some(run_case("forms", route_k(k, 40), list[k].clone())));
    }
    {
        // Each operand of each form, as other assemblers would let one write it.
        let words = foreign_operands();
        let m = words.len();
        let slots: Vec<(usize, usize)> = (0..FORMS.len()).flat_map(|f| (0..FORMS[f].pats.len()).map(move |o| (f, o))).collect();
        p.sweep("operands of other assemblers", slots.len() * m, move |k, _| {
            let (f, o) = slots[k / m];
            let h = mix(seed ^ 79 ^ k as u64) as usize;
            let mut ops: Vec<String> = Vec::new();
            if let Stmt::Ins(_, list) = instance(f, h % 4096) {
                let mut t = Tape::new(&[]);
                ops = list.iter().map(|o| spell_operand(&mut t, Style::plain(), o)).collect();
            }
            ops[o] = words[k % m].clone();
            let post = ["\n", "", "\na: .equ 5\n", "\na:\n"][h / 4096 % 4];
            Some(run_case("forms", route_k(k, 100), format!("{} {}{}", FORMS[f].mn, ops.join(", "), post)))
        });
    }
    arguments(p, "tokens behind a mnemonic", &["ld", "x: .equ 3\nadd v1,", "cls", "drw v1, v2, 3"]);
    p.sweep("every short name as mnemonic or operand", SHORT_NAMES * 2, move |k, _| {
        let n = short_name(k / 2);
        let h = mix(seed ^ 78 ^ k as u64) as usize;
        let s = if k % 2 == 0 {
            let ops = ["", " 5", " v1", " v1, 2", " v1, v2", " i, 5", " v1, v2, 3", " v0, 300", " dt", " [i], v3"];
            format!("{}{}\n", n, ops[h % ops.len()])
        } else {
            let ins = ["jp ", "ld v1, ", "ld i, ", "drw v1, v2, ", "se v1, ", "add v2, ", "jp v0, ", "call ", "rnd v1, ", "shr ", "ld "];
            let tail = if h / 16 % 4 == 0 { "\nx: .equ 3" } else { "" };
            format!("{}{}{}{}\n", ins[h % ins.len()], n, if h % ins.len() == 10 { ", v1" } else { "" }, tail)
        };
        Some(run_case("forms", route_k(k, 400), s))
    });
    p.random("one bad instruction in a program", 120_000, 380, |t, env| {
        let via = route(t, 4);
        let pr = *t.pick(&[&INSTR, &MIXED, &LABELS, &CONSTS]);
        let mut prog = valid(t, &env.dict, pr);
        let names: Vec<String> = prog.iter().filter_map(|s| if let Stmt::Label(n) = s { Some(n.clone()) } else { None }).collect();
        let ins: Vec<usize> = (0..prog.len()).filter(|k| matches!(prog[*k], Stmt::Ins(..))).collect();
        let s = loose_instruction(t, &env.dict, if names.is_empty() { &NOPE } else { &names });
        if !ins.is_empty() && t.chance(4, 5) {
            let k = *t.pick(&ins);
            prog[k] = s;
        } else {
            prog.insert(0, s);
            if prog.len() > 1 && is_equ(&prog[1]) {
                return None;
            }
        }
        Some(run_case("forms", via, text(t, &env.dict, &prog)))
    });
    p.random("long operand lists", 30_000, 120, |t, env| {
        let via = route(t, 4);
        let mn = t.pick(MNEMONICS).to_string();
        let n = t.range(2, 8);
        let mut ops = Vec::new();
        // A valid form with more operands behind it, or anything.
        if t.chance(1, 2) {
            let s = instruction(t, &env.dict, 0);
            if let Stmt::Ins(m, o) = s {
                ops = o;
                for _ in 0..n - 1 {
                    let o = any_operand(t, &env.dict, &[]);
                    ops.push(o);
                }
                return Some(run_case("forms", via, text(t, &env.dict, &[Stmt::Ins(m, ops)])));
            }
        }
        for _ in 0..n {
            let o = any_operand(t, &env.dict, &[]);
            ops.push(o);
        }
        Some(run_case("forms", via, text(t, &env.dict, &[Stmt::Ins(mn, ops)])))
    });
}

static NOPE: [String; 1] = [String::new()];

// ------------------------------------------------------------- literals

const PLACES: usize = 9;
fn place_literal(k: usize, lit: &str) -> String {
    match k % PLACES {
        0 => format!("jp {}\n", lit),
        1 => format!(".org {}\n.db 1\n", lit),
        2 => format!("c: .equ {}\njp c\n", lit),
        3 => format!(".db {}\n", lit),
        4 => format!("ld v3, {}\n", lit),
        5 => format!("drw v1, v2, {}\n", lit),
        6 => format!("ld i, {} ; text\n", lit),
        7 => format!(".db 1,{},2\n", lit),
        _ => format!("jp v0,{}", lit),
    }
}

fn spelling(k: usize, v: u32) -> Option<String> {
    let bin = format!("{:b}", v);
    Some(match k {
        0 => v.to_string(),
        1 => format!("0{}", v),
        2 => format!("{:04}", v),
        3 => format!("{:012}", v),
        4 => format!("${:x}", v),
        5 => format!("${:X}", v),
        6 => format!("#{:x}", v),
        7 => format!("#{:X}", v),
        8 if v < 256 => format!("${:02x}", v),
        9 => format!("${:03X}", v),
        10 => format!("#{:03x}", v),
        11 => format!("%{}", bin),
        12 => format!("%{:012b}", v),
        13 => format!("%{}", bin.replace('0', ".")),
        14 => format!("%{}", format!("{:08b}", v).replace('0', ".")),
        15 => format!("%{}{}", "0".repeat(60), bin),
        16 => format!("%{}{}", ".".repeat(90), bin.replace('0', ".")),
        17 => format!("{}{}", "0".repeat(70), v),
        18 => {
            // Alternating dots and zeros.
            let s = format!("{:012b}", v);
            format!("%{}", s.chars().enumerate().map(|(i, c)| if c == '0' && i % 2 == 0 { '.' } else { c }).collect::<String>())
        }
        19 => {
            let s = format!("{:03x}", v);
            format!("${}", s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect::<String>())
        }
        20 => format!("{:019}", v),
        21 => format!("{:020}", v),
        22 => format!("%{:064b}", v),
        23 => format!("%{:065b}", v),
        _ => return None,
    })
}
const SPELLINGS: usize = 24;

/// 2^k + v in decimal, for any k.
fn power_plus(k: usize, v: u32) -> String {
    let mut digits: Vec<u32> = vec![1];
    for _ in 0..k {
        let mut carry = 0;
        for d in digits.iter_mut() {
            let x = *d * 2 + carry;
            *d = x % 10;
            carry = x / 10;
        }
        if carry > 0 {
            digits.push(carry);
        }
    }
    let mut carry = v;
    let mut i = 0;
    while carry > 0 {
        if i == digits.len() {
            digits.push(0);
        }
        let x = digits[i] + carry;
        digits[i] = x % 10;
        carry = x / 10;
        i += 1;
    }
    digits.iter().rev().map(|d| (b'0' + *d as u8) as char).collect()
}

fn c03(p: &mut Parts) {
    p.sweep("every value, spelling and place", 4096 * SPELLINGS * PLACES, |k, _| {
        let v = (k % 4096) as u32;
        let s = spelling((k / 4096) % SPELLINGS, v)?;
        Some(run_case("full", route_k(k, 400), place_literal(k / 4096 / SPELLINGS, &s)))
    });
    let mut list: Vec<String> = Vec::new();
    for v in 4096..9000u32 {
        list.push(v.to_string());
    }
    for v in (9000..70_000u32).step_by(61) {
        list.push(v.to_string());
    }
    for k in 12..=200 {
        for v in [0u32, 1, 5, 200, 512, 4094, 4095] {
            list.push(power_plus(k, v));
        }
    }
    for n in counts(&p.env.dict, 300, 20_000) {
        if n == 0 {
            continue;
        }
        list.push(format!("1{}", "0".repeat(n)));
        list.push("9".repeat(n));
        list.push("4".repeat(n));
        list.push(format!("%1{}", "0".repeat(n)));
        list.push(format!("%1{}", ".".repeat(n)));
        list.push(format!("%{}", "1".repeat(n)));
        list.push(format!("%1{}1", "0".repeat(n)));
        list.push(format!("%1{}1111", ".".repeat(n)));
        list.push(format!("%{}1{}", "0".repeat(n), "0".repeat(12)));
        list.push(format!("%{}1{}", ".".repeat(n), "1".repeat(11)));
        list.push(format!("%{}", ".".repeat(n)));
        list.push(format!("%{}", "0".repeat(n)));
        list.push("0".repeat(n));
        for v in [0, 7, 255, 256, 4095, 4096, 65536] {
            list.push(format!("{}{}", "0".repeat(n), v));
        }
        for v in ["1", "101", "1111"] {
            list.push(format!("%{}{}", "0".repeat(n), v));
            list.push(format!("%{}{}", ".".repeat(n), v));
        }
        if n < 20 {
            list.push(format!("${}", "F".repeat(n)));
            list.push(format!("#{}1", "0".repeat(n)));
            list.push(format!("${}", "0".repeat(n)));
            list.push(format!("$1{}", "0".repeat(n)));
        }
    }
    for s in ["$", "#", "%", "$G", "#g", "%2", "%-1", "$ 1", "% 1", "-1", "+1", "0x10", "0b1", "1h", "1_000", "1.5", "1e3", "$$1", "%%1", "#$1", "$%1", "0$1", "1$", "1%", "12a", "a12", "$12G", "#xyz", "%102", "%012", "%1 1", "1 1", "1,,1", "$+1", "%+1", "$-1", "%_1", "$_1", "４", "%１", "²", "٣", "'a'", "$1_0", "0o17", "&1", "@1", "0$", "$.", "%.", "%.1", "%1.", "%..", "$1.", "1."] {
        list.push(s.to_string());
    }
    // Every binary string of up to 13 digits over 0, 1 and a sample with dots.
    for n in 1..=13usize {
        for v in 0..1u32 << n {
            if n < 10 || v % 7 == 0 {
                let s = format!("{:0n$b}", v, n = n);
                list.push(format!("%{}", s));
                list.push(format!("%{}", s.replace('0', ".")));
            }
        }
    }
    let n = list.len();
    p.sweep("out-of-range, padded and odd literals", n * PLACES, move |k, _| {
        Some(run_case("full", route_k(k, 97), place_literal(k / n, &list[k % n])))
    });
    p.random("random literals in programs", 60_000, 200, |t, env| {
        let via = route(t, 5);
        let d = &env.dict;
        let st = Style { level: 2, crlf: false, join: false };
        let mut s = String::new();
        for k in 0..1 + t.below(3) {
            let v = num(t, d, 4095);
            let lit = match t.below(5) {
                0 | 1 => spell(t, st, v),
                2 => big_decimal(t, d),
                3 => {
                    let n = t.log_len(150);
                    let dot = t.below(2) == 1;
                    (0..n).fold("%".to_string(), |mut s, _| {
                        s.push(if t.below(3) == 0 { '1' } else if dot { '.' } else { '0' });
                        s
                    })
                }
                _ => {
                    let mut x = spell(t, st, v);
                    let at = t.below(x.len() + 1);
                    x.insert(at, *t.pick(&['0', '1', '9', 'a', 'F', '.', '$', '_', ' ', '#', '%']));
                    x
                }
            };
            let kk = t.below(PLACES - 1);
            s += &place_literal(kk, &lit).replace("c:", &format!("c{}:", k)).replace("jp c", &format!("jp c{}", k));
        }
        Some(run_case("full", via, s))
    });
}

// ------------------------------------------------------------- labels

fn labels_of(prog: &[Stmt]) -> HashMap<String, u32> {
    match assemble_ast(prog) {
        Verdict::Ok(i) => i.labels,
        v => panic!("generated program is not valid: {:?} {:?}", v.kind(), prog),
    }
}

fn c04(p: &mut Parts) {
    huge(p, &[0, 8, 10, 11]);
    statements(p, "every short program", "labels", false, &["a:", "b:", ".equ 5", ".org 1", ".org 9", ".db 1", ".db \"\"", "cls", "jp a", "ld i, b"], 6);
    let seed = p.seed;
    p.sweep("every address", 4096 * 4, move |k, env| {
        let a = (k % 4096) as u32;
        let tp = index_tape(seed, k, 80);
        let mut t = Tape::new(&tp);
        let mut prog = Vec::new();
        let refs = vec![
            Stmt::ins("jp", vec![lab("here")]), Stmt::ins("call", vec![lab("here")]),
            Stmt::ins("ld", vec![Op::I, lab("here")]), Stmt::ins("jp", vec![Op::V(0), lab("here")]),
        ];
        let far = if a < 2000 { 3000 } else { 100 };
        // Reached by origin, by data, by instructions, or by both.
        let mut body = match k / 4096 {
            0 => vec![Stmt::org(a)],
            1 => vec![Stmt::org(0), Stmt::db(vec![Lit::Str("d".repeat(a.min(4094) as usize))])],
            2 => {
                let from = a.saturating_sub(2 * (1 + t.below(20) as u32));
                let mut v = vec![Stmt::org(from)];
                for _ in 0..(a - from) / 2 {
                    v.push(Stmt::ins("cls", vec![]));
                }
                v
            }
            _ => {
                let from = a.saturating_sub(5);
                let mut v = vec![Stmt::org(from)];
                for x in from..a {
                    v.push(Stmt::db(vec![Lit::Num(x & 255)]));
                }
                v
            }
        };
        body.push(Stmt::label("here"));
        if a < 4000 && t.chance(1, 2) {
            body.push(Stmt::ins("ret", vec![]));
        }
        if k / 4096 == 1 {
            // The data fills memory up to the label: the references follow it.
            if a > 4080 {
                return None;
            }
            prog.extend(body);
            prog.extend(refs);
        } else {
            let mut o = vec![Stmt::org(far)];
            o.extend(refs);
            if t.chance(1, 2) {
                prog.extend(o);
                prog.extend(body);
            } else {
                prog.extend(body);
                prog.extend(o);
            }
        }
        let st = Style { level: t.below(3), crlf: false, join: false };
        let s = text_in(&mut t, &env.dict, &prog, st);
        Some(run_case("labels", route_k(k, 60), s))
    });
    let ns = counts(&p.env.dict, 700, 10_000);
    p.sweep("number of labels", ns.len() * 3, move |k, _| {
        let n = ns[k % ns.len()] + 1;
        let how = k / ns.len();
        let nm = |j: usize| match how {
            0 => format!("L{}", j),
            1 => format!("name_{:04}_x", j),
            _ => format!("{}q{}", "z".repeat(j % 40), j / 40),
        };
        let mut s = String::new();
        // Not more code than fits: the last labels, and others in turn.
        let most = 1690;
        for j in 0..n {
            let to = if how == 1 { n - 1 - j } else { (j * 7 + 3) % n };
            s += &format!("{}:", nm(j));
            if j < most {
                s += &format!(" jp {}", nm(to));
                if j % 3 == 1 {
                    s += "\n.db 1";
                }
            }
            s.push('\n');
        }
        if n > most {
            s = format!(".org 0\nfirst: .db 9\n{}.org 3966\n", s);
            for j in n - 60..n {
                s += &format!("jp {}\n", nm(j));
            }
        }
        Some(run_case("labels", route_k(k, 40), s))
    });
    let ns = counts(&p.env.dict, 1500, 70_000);
    p.sweep("length of names", ns.len(), move |k, _| {
        let n = ns[k] + 1;
        let a = format!("{}a", "n".repeat(n));
        let b = format!("{}b", "n".repeat(n));
        let c = format!("c{}", "n".repeat(n));
        let e = "n".repeat(n);
        Some(run_case(
            "labels",
            route_k(k, 20),
            format!("jp {a}\njp {b}\njp {c}\njp {e}\n{a}: cls\n{b}: cls\n.org 900\n{c}: cls\n{e}: .equ 77\njp {b}\njp {a}\n"),
        ))
    });
    let names = confusable();
    let n = names.len();
    p.sweep("pairs of similar names", n * n, move |k, _| {
        let (a, b) = (&names[k % n], &names[k / n]);
        if a == b {
            return None;
        }
        Some(run_case(
            "labels",
            route_k(k, 200),
            format!(".org 16\njp {a}\njp {b}\n{a}: ld i, {b}\n{b}: call {a}\nld i, {b}\n"),
        ))
    });
    p.sweep("every short name", SHORT_NAMES, |k, _| {
        let a = short_name(k);
        if !referable(&a) {
            return Some(run_case("labels", route_k(k, 400), format!("{a}: cls\n{a}_: jp {a}_\n")));
        }
        let h = mix(79 ^ k as u64);
        let s = match h % 3 {
            0 => format!(".db 7\njp {a}\n{a}: ld i, {a}\n"),
            1 => format!("{a}: ld v1, {a}\nld v2, {a}_\n{a}_: call {a}\n"),
            _ => format!(".org 3000\n{a}:\n.org 40\ncls\njp v0, {a}\n"),
        };
        Some(run_case("labels", route_k(k, 400), s))
    });
    p.random("references", 90_000, 420, |t, env| {
        let via = route(t, 4);
        let pr = *t.pick(&[&LABELS, &LABELS, &CONSTS, &SECTIONS]);
        let prog = valid(t, &env.dict, pr);
        Some(run_case("labels", via, text(t, &env.dict, &prog)))
    });
    p.random("renaming", 40_000, 460, |t, env| {
        let via = route(t, 3);
        let pr = *t.pick(&[&LABELS, &LABELS, &CONSTS]);
        let prog = valid(t, &env.dict, pr);
        let mut map: HashMap<String, String> = HashMap::new();
        let (mut used, mut seen) = (Vec::new(), std::collections::HashSet::new());
        for s in &prog {
            if let Stmt::Label(n) = s {
                let mut m = unique_name(t, &env.dict, &mut used, &mut seen);
                while referable(n) && !referable(&m) {
                    m = format!("{}_{}", m, used.len());
                    while seen.contains(&m) {
                        m.push('x');
                    }
                    seen.insert(m.clone());
                }
                map.insert(n.clone(), m);
            }
        }
        if map.is_empty() {
            return None;
        }
        let other: Vec<Stmt> = prog
            .iter()
            .map(|s| match s {
                Stmt::Label(n) => Stmt::Label(map[n].clone()),
                Stmt::Ins(m, ops) => Stmt::Ins(
                    m.clone(),
                    ops.iter().map(|o| match o {
                        Op::Label(l) => Op::Label(map[l].clone()),
                        o => o.clone(),
                    }).collect(),
                ),
                s => s.clone(),
            })
            .collect();
        let mut t2 = t.clone();
        let a = text(t, &env.dict, &prog);
        let b = text(&mut t2, &env.dict, &other);
        Some(Case { kind: "same-output", via, args: vec![a.into(), b.into()] })
    });
    p.random("substitution", 40_000, 420, |t, env| {
        let via = route(t, 3);
        let pr = *t.pick(&[&LABELS, &LABELS, &CONSTS]);
        let prog = valid(t, &env.dict, pr);
        let map = labels_of(&prog);
        let mut any = false;
        let all = t.below(2) == 0;
        let other: Vec<Stmt> = prog
            .iter()
            .map(|s| match s {
                Stmt::Ins(m, ops) => Stmt::Ins(
                    m.clone(),
                    ops.iter().map(|o| match o {
                        Op::Label(l) if all || t.below(2) == 0 => {
                            any = true;
                            Op::Num(map[l])
                        }
                        o => o.clone(),
                    }).collect(),
                ),
                s => s.clone(),
            })
            .collect();
        if !any {
            return None;
        }
        let a = text(t, &env.dict, &prog);
        let b = text(t, &env.dict, &other);
        Some(Case { kind: "same-output", via, args: vec![a.into(), b.into()] })
    });
}

/// Changes the neighbourhood of constants in a program.
fn disturb_equ(t: &mut Tape, d: &Dict, prog: &mut Vec<Stmt>) {
    let n = prog.len();
    match t.below(9) {
        0 => {
            let at = t.below(n + 1);
            prog.insert(at, Stmt::equ(num(t, d, 4095)));
        }
        1 | 2 => {
            // More labels before a constant.
            let eq: Vec<usize> = (0..n).filter(|k| is_equ(&prog[*k])).collect();
            if !eq.is_empty() {
                let k = *t.pick(&eq);
                let m = 1 + t.below(3);
                for j in 0..m {
                    prog.insert(k.saturating_sub(1), Stmt::Label(format!("stk{}_{}", n, j)));
                }
            }
        }
        3 => {
            // Something between a label and its constant.
            let eq: Vec<usize> = (0..n).filter(|k| is_equ(&prog[*k])).collect();
            if !eq.is_empty() {
                let k = *t.pick(&eq);
                let s = match t.below(5) {
                    0 => instruction(t, d, 0),
                    1 => Stmt::db(vec![Lit::Num(1)]),
                    2 => Stmt::org(num(t, d, 4095)),
                    3 => Stmt::label("between"),
                    _ => Stmt::equ(num(t, d, 4095)),
                };
                prog.insert(k, s);
            }
        }
        4 => {
            let l: Vec<usize> = (0..n).filter(|k| matches!(prog[*k], Stmt::Label(_))).collect();
            if !l.is_empty() {
                let k = *t.pick(&l);
                prog.remove(k);
            }
        }
        5 => {
            // An address label becomes a constant.
            let l: Vec<usize> = (0..n).filter(|k| matches!(prog[*k], Stmt::Label(_))).collect();
            if !l.is_empty() {
                let k = *t.pick(&l);
                prog.insert(k + 1, Stmt::equ(num(t, d, 255)));
            }
        }
        6 => {
            let eq: Vec<usize> = (0..n).filter(|k| is_equ(&prog[*k])).collect();
            if !eq.is_empty() {
                let k = *t.pick(&eq);
                if let Stmt::Dir(_, a) = &mut prog[k] {
                    match t.below(3) {
                        0 => a.clear(),
                        1 => a.push(Lit::Num(num(t, d, 4095))),
                        _ => {
                            a.clear();
                            a.push(Lit::Str("7".into()));
                        }
                    }
                }
            }
        }
        7 => {
            // Labels at the very end, the last with a constant.
            prog.push(Stmt::label("zlast0"));
            prog.push(Stmt::label("zlast1"));
            if t.chance(1, 2) {
                prog.push(Stmt::equ(num(t, d, 4095)));
            }
            prog.push(Stmt::label("zlast2"));
        }
        _ => {
            let l: Vec<usize> = (0..n).filter(|k| is_equ(&prog[*k])).collect();
            if !l.is_empty() {
                let k = *t.pick(&l);
                prog.remove(k);
            }
        }
    }
}

fn c05(p: &mut Parts) {
    huge(p, &[1, 5, 11]);
    statements(p, "every short program", "full", true, &["a:", "b:", ".equ 5", ".EQU 0", ".org 9", ".db 1", ".equ \"5\"", "\n;c\n", "jp a", "call b"], 6);
    arguments(p, "tokens behind .equ", &["x: .equ", "jp x\nx: y: .equ 7", ".equ"]);
    let seed = p.seed;
    p.sweep("every constant", 4096 * 4, move |k, env| {
        let v = (k % 4096) as u32;
        let tp = index_tape(seed, k, 90);
        let mut t = Tape::new(&tp);
        let mut prog = vec![];
        let start = t.below(4000) as u32;
        prog.push(Stmt::org(start));
        let how = k / 4096;
        let def = vec![Stmt::label("c"), Stmt::equ(v), Stmt::label("after")];
        if how % 2 == 0 {
            prog.push(Stmt::label("stacked"));
            prog.extend(def.clone());
        }
        prog.push(Stmt::ins("jp", vec![lab("c")]));
        prog.push(Stmt::ins("ld", vec![Op::I, lab("after")]));
        if v < 256 {
            prog.push(Stmt::ins("ld", vec![Op::V(4), lab("c")]));
        }
        if v < 16 {
            prog.push(Stmt::ins("drw", vec![Op::V(4), Op::V(5), lab("c")]));
        }
        if how % 2 == 1 {
            prog.push(Stmt::label("stacked"));
            prog.extend(def);
        }
        prog.push(Stmt::ins("call", vec![lab("stacked")]));
        prog.push(Stmt::db(vec![Lit::Num(9)]));
        prog.push(Stmt::label("end"));
        prog.push(Stmt::ins("jp", vec![lab("end")]));
        let st = Style { level: if how < 2 { 0 } else { 1 + t.below(2) }, crlf: t.chance(1, 3), join: t.chance(1, 3) };
        Some(run_case("full", route_k(k, 60), text_in(&mut t, &env.dict, &prog, st)))
    });
    let ns = counts(&p.env.dict, 200, 10_000);
    p.sweep("stacked labels", ns.len() * 2, move |k, _| {
        let n = ns[k / 2] + 1;
        let mut s = String::from(".db 1,2,3\n");
        for j in 0..n {
            s += &format!("s{}:{}", j, if k % 2 == 0 { "\n" } else { " ; c\n\n" });
        }
        s += " .equ 99\nafter: cls\n";
        for j in n.saturating_sub(1900)..n {
            s += &format!("jp s{}\n", j);
        }
        s += "jp after\n";
        Some(run_case("full", route_k(k, 10), s))
    });
    let ns = counts(&p.env.dict, 500, 10_000);
    p.sweep("number of constants", ns.len(), move |k, _| {
        let n = ns[k] + 1;
        let mut s = String::new();
        let mut uses = String::new();
        for j in 0..n {
            s += &format!("k{}: .equ {}\n", j, (j * 37 + k) % 4096);
            if n - j <= 1200 {
                uses += &format!("jp k{}\n", j);
            }
            if j % 5 == 4 && n - j <= 1200 {
                s += &format!("cls\na{}:\n", j);
                uses += &format!("jp a{}\n", j);
            }
        }
        Some(run_case("full", route_k(k, 10), if k % 2 == 0 { s + &uses } else { uses + &s }))
    });
    let ns = counts(&p.env.dict, 200, 70_000);
    p.sweep("gap between label and .equ", ns.len() * 3, move |k, _| {
        // Any number of newlines and comments is ignored.
        let n = ns[k / 3];
        let gap = match k % 3 {
            0 => "\n".repeat(n),
            1 => "; comment\n".repeat(n),
            _ => " \t\n;\n".repeat(n),
        };
        Some(run_case("full", route_k(k, 10), format!("cls\na:{}\n.equ 5\nafter: jp a\njp after\n", gap)))
    });
    p.sweep("every short name as a constant", SHORT_NAMES, |k, _| {
        let a = short_name(k);
        if !referable(&a) {
            return None;
        }
        let v = mix(80 ^ k as u64) as usize % 4096;
        Some(run_case("full", route_k(k, 400), format!("cls\n{a}: .equ {v}\nb1: jp {a}\njp b1\n")))
    });
    p.random("constants in programs", 60_000, 400, |t, env| {
        let via = route(t, 4);
        let pr = *t.pick(&[&CONSTS, &CONSTS, &LABELS]);
        let prog = valid(t, &env.dict, pr);
        Some(run_case("full", via, text(t, &env.dict, &prog)))
    });
    // What stands between a label and a constant: up to three statements, many of which emit nothing.
    let between: &'static [&'static str] = &[
        "", "; c", "b:", "cls", "nop", ".org 0", ".org 2", ".org 7", ".org $fff", ".db 0", ".db \"\"", ".db \"\", \"\"", ".db \"\", \"\", \"\"", ".db \"\",", ".db \"\",\"\",", ".db \"x\"", ".equ 3", "b: .equ 9",
        "jp a", ".DB \"\"", ".equ", ".db", ".org", ".org 4096",
    ];
    let m = between.len();
    p.sweep("between a label and its constant", m * m * m * 4, move |k, _| {
        let (x, y, z) = (between[k % m], between[k / m % m], between[k / m / m % m]);
        let end = ["jp a\n", "x: .db 1\njp a\njp x\n", "", "c: jp c\ncall a"][k / m / m / m];
        Some(run_case("full", route_k(k, 300), format!("cls\na: {x}\n{y}\n{z}\n.equ 5\n{end}")))
    });
    let ns = counts(&p.env.dict, 600, 10_000);
    p.sweep("many things between a label and its constant", ns.len() * 6, move |k, _| {
        let n = ns[k / 6];
        let s = match k % 6 {
            0 => format!("cls\na: .db \"\"{}\n.equ 5\njp a\n", ", \"\"".repeat(n)),
            1 => format!("cls\na: {}\n.equ 5\njp a\n", ".db \"\"\n".repeat(n)),
            2 => format!("cls\na: {}\n.equ 5\njp a\n", "\n".repeat(n)),
            3 => format!("cls\na: {}\n.equ 5\njp a\n", ";\n".repeat(n)),
            4 => format!("cls\na: {}\n.equ 5\njp a\n", ".org 2\n".repeat(n)),
            _ => format!("cls\na: .equ{}5\njp a\n", " ".repeat(n)),
        };
        Some(run_case("full", route_k(k, 60), s))
    });
    p.random("constants disturbed", 90_000, 420, |t, env| {
        let via = route(t, 4);
        let mut prog = valid(t, &env.dict, &CONSTS);
        for _ in 0..1 + t.below(2) {
            disturb_equ(t, &env.dict, &mut prog);
        }
        // Directives without arguments must end their line: the renderer knows.
        Some(run_case("full", via, text(t, &env.dict, &prog)))
    });
}

fn c06(p: &mut Parts) {
    huge(p, &[6, 7, 10]);
    statements(p, "every short program", "label-faults", true, &["a:", "b:", "A:", ".equ 5", ".org 9", ".db 1", "jp a", "ld v1, b", "call A"], 6);
    let seed = p.seed;
    let names = confusable();
    let n = names.len();
    {
        let names = names.clone();
        p.sweep("defined one name, used another", n * n * 2, move |k, _| {
            let (a, b) = (&names[k % n], &names[(k / n) % n]);
            let s = if k / n / n == 0 {
                format!("{a}: cls\njp {b}\n")
            } else {
                format!("cls\nld v1, {b}\n{a}: .equ 5\n")
            };
            Some(run_case("label-faults", route_k(k, 150), s))
        });
    }
    {
        let names = names.clone();
        p.sweep("defined twice or not", n * n * 4, move |k, _| {
            let (a, b) = (&names[k % n], &names[(k / n) % n]);
            let s = match k / n / n {
                0 => format!("{a}: cls\n{b}: ret\n"),
                1 => format!("{a}: .equ 3\n{b}: .equ 3\n"),
                2 => format!("cls\n{a}:\n{b}: .equ 2\njp {a}\n"),
                _ => format!("{a}: .equ 0\nret\n.org 0\n{b}:\n"),
            };
            Some(run_case("label-faults", route_k(k, 150), s))
        });
    }
    let ns = counts(&p.env.dict, 700, 10_000);
    p.sweep("distance of the second definition", ns.len() * 4, move |k, _| {
        let n = ns[k / 4];
        let mut s = String::new();
        s += if k % 2 == 0 { "twice: cls\n" } else { "twice: .equ 9\n" };
        for j in 0..n {
            s += &format!("m{}:\n", j);
            if j % 4 == 0 && j < 8000 {
                s += ".db 1\n";
            }
        }
        s += if k % 4 < 2 { "twice: ret\n" } else { "twice: .equ 9\n" };
        Some(run_case("label-faults", route_k(k, 40), s))
    });
    let ns = counts(&p.env.dict, 500, 10_000);
    p.sweep("an undefined name among many", ns.len() * 2, move |k, _| {
        let n = ns[k / 2] + 1;
        let missing = (mix(seed ^ k as u64) as usize) % n;
        let mut s = String::new();
        for j in 0..n {
            if j != missing {
                s += &format!("u{}:\n", j);
            }
        }
        for j in 0..n {
            if (k % 2 == 0 && n < 2000) || j == missing {
                s += &format!("jp u{}\n", j);
            }
        }
        Some(run_case("label-faults", route_k(k, 40), s))
    });
    p.sweep("every short name, undefined", SHORT_NAMES, move |k, _| {
        let n = short_name(k);
        let h = mix(seed ^ 77 ^ k as u64);
        let use_ = match h % 8 {
            0 | 1 => format!("jp {}", n),
            2 => format!("call {}", n),
            3 => format!("ld v1, {}", n),
            4 => format!("ld i, {}", n),
            5 => format!("drw v1, v2, {}", n),
            6 => format!("se v3, {}", n),
            _ => format!("jp v0, {}", n),
        };
        let s = match h / 8 % 4 {
            0 => format!("{}\n", use_),
            1 => format!("a1: cls\n{}\nzz9: .equ 7\n", use_),
            2 => format!("{}x: cls\n{}\n", n, use_),
            _ => format!(".db 1\n{}\nb:\n", use_),
        };
        Some(run_case("label-faults", route_k(k, 400), s))
    });
    // Every operand position that takes a label.
    let pos: Vec<(usize, usize)> = FORMS
        .iter()
        .enumerate()
        .flat_map(|(f, form)| form.pats.iter().enumerate().filter(|(_, p)| p.max().is_some()).map(move |(j, _)| (f, j)).collect::<Vec<_>>())
        .collect();
    let np = pos.len();
    p.sweep("every label operand", np * n * 2, move |k, env| {
        let (f, j) = pos[k % np];
        let name = &names[(k / np) % n];
        let mut s = instance(f, k / np);
        if let Stmt::Ins(_, ops) = &mut s {
            ops[j] = lab(name);
        }
        let mut prog = vec![s];
        if k / np / n == 1 {
            prog.push(Stmt::label(name));
            prog.push(Stmt::equ(3));
        } else {
            prog.push(Stmt::Label(format!("{}x", name)));
        }
        let tp = index_tape(seed, k, 60);
        let mut t = Tape::new(&tp);
        Some(run_case("label-faults", route_k(k, 100), text(&mut t, &env.dict, &prog)))
    });
    p.random("label faults in programs", 120_000, 420, |t, env| {
        let via = route(t, 4);
        let d = &env.dict;
        let pr = *t.pick(&[&LABELS, &CONSTS, &SECTIONS]);
        let mut prog = valid(t, d, pr);
        let labels: Vec<usize> = (0..prog.len()).filter(|k| matches!(prog[*k], Stmt::Label(_))).collect();
        let names: Vec<String> = labels.iter().map(|k| if let Stmt::Label(n) = &prog[*k] { n.clone() } else { String::new() }).collect();
        match t.below(5) {
            0 => {}
            1 => {
                // Remove a definition that is used (with its constant, if it has one).
                if labels.is_empty() {
                    return None;
                }
                let k = *t.pick(&labels);
                if k + 1 < prog.len() && is_equ(&prog[k + 1]) {
                    // The label before it must not take the constant over.
                    prog.remove(k + 1);
                }
                prog.remove(k);
            }
            2 | 3 => {
                if labels.is_empty() {
                    return None;
                }
                let n = t.pick(&names).clone();
                let mut at = t.below(prog.len() + 1);
                if at < prog.len() && is_equ(&prog[at]) {
                    at += 1;
                }
                if t.below(2) == 1 {
                    prog.insert(at, Stmt::equ(num(t, d, 4095)));
                }
                prog.insert(at, Stmt::Label(n));
            }
            _ => {
                // A reference changed into a near miss.
                let ins: Vec<usize> = (0..prog.len()).filter(|k| matches!(&prog[*k], Stmt::Ins(_, o) if o.iter().any(|x| matches!(x, Op::Label(_))))).collect();
                if ins.is_empty() {
                    return None;
                }
                let k = *t.pick(&ins);
                if let Stmt::Ins(_, ops) = &mut prog[k] {
                    for o in ops.iter_mut() {
                        if let Op::Label(l) = o {
                            let n = name(t, d, &[l.clone()]);
                            if !referable(&n) || names.contains(&n) {
                                return None;
                            }
                            *o = Op::Label(n);
                            break;
                        }
                    }
                }
            }
        }
        Some(run_case("label-faults", via, text(t, d, &prog)))
    });
}

fn c07(p: &mut Parts) {
    huge(p, &[2, 3, 8]);
    statements(p, "every short program", "image", false, &[".org 0", ".org 1", ".org 2", ".org 16", ".db 1", ".db 2, 3", ".db \"\"", "cls", "a:"], 6);
    arguments(p, "tokens behind .org", &[".db 9\n.org", ".org 5"]);
    let seed = p.seed;
    let ns = counts(&p.env.dict, 400, 2046);
    p.sweep("number of sections", ns.len() * 4, move |k, env| {
        let n = ns[k / 4] + 1;
        let tp = index_tape(seed, k, 3000);
        let mut t = Tape::new(&tp);
        let mut order: Vec<usize> = (0..n).collect();
        match k % 4 {
            0 => {}
            1 => order.reverse(),
            _ => t.shuffle(&mut order),
        }
        let step = 4094 / n;
        let mut prog = Vec::new();
        for j in order {
            let len = if k % 4 == 3 { step } else { 1 + t.below(step.min(20)) };
            prog.push(Stmt::org((j * step) as u32));
            if len % 2 == 0 && t.chance(1, 2) && len < 20 {
                for _ in 0..len / 2 {
                    prog.push(instruction(&mut t, &env.dict, 0));
                }
            } else {
                let mut left = len;
                while left > 0 {
                    let m = if t.chance(1, 3) { 1 + t.below(left) } else { left };
                    if m == 1 && t.chance(1, 2) {
                        prog.push(Stmt::db(vec![Lit::Num(t.below(256) as u32)]));
                    } else {
                        let c = (b'a' + t.below(26) as u8) as char;
                        prog.push(Stmt::db(vec![Lit::Str(c.to_string().repeat(m))]));
                    }
                    left -= m;
                }
            }
        }
        fill(&mut t, &env.dict, &mut prog, &HashMap::new());
        Some(run_case("image", route_k(k, 20), plain(&prog)))
    });
    p.sweep("every origin", 4096 * 4, |k, _| {
        let a = (k % 4096) as u32;
        if a == 4095 {
            return Some(run_case("image", Via::Lib, ".org 4095\n.org 5\n.db 1\n.org 4095\n"));
        }
        let b = (a + 1500) % 4000;
        let s = match k / 4096 {
            0 => format!(".org {a}\n.db 170\n.org {b}\n.db 187\n"),
            1 => format!(".org {b}\n.db 187\n.org {a}\n.db 170\n"),
            // The same origin again and again, empty sections, and a return to where it was.
            2 => format!(".org {a}\n.org {a}\n.org {b}\n.org {a}\n.db 17\n.org {b}\n.org {b}\n.db 18\n.org {a}\n"),
            _ => format!("X: .org {a}\nY: .db 17\n.org {}\n.db \"tail\"\n.org {b}\n.db 3\n.org {}\n.db 4\n", (a + 1).min(4090), (b + 1).min(4095)),
        };
        if assemble(s.as_bytes()).ok().is_none() {
            return None;
        }
        Some(run_case("image", route_k(k, 80), s))
    });
    p.sweep("bytes before and after an origin", 64 * 64 * 3, |k, _| {
        // n bytes, an origin m further on, n bytes again: neither gap nor merge.
        let (n, m, g) = (k % 64 + 1, (k / 64) % 64 + 1, k / 4096);
        let base = [0, 250, 3800][g];
        Some(run_case(
            "image",
            route_k(k, 80),
            format!(".org {}\n.db \"{}\"\n.org {}\n.db \"{}\"\ncls\n", base, "x".repeat(n), base + n + (m - 1), "y".repeat(m)),
        ))
    });
    p.random("sections", 120_000, 520, |t, env| {
        let via = route(t, 4);
        let pr = *t.pick(&[&SECTIONS, &SECTIONS, &TINY, &MIXED]);
        let prog = valid(t, &env.dict, pr);
        Some(run_case("image", via, text(t, &env.dict, &prog)))
    });
    p.random("sections that may collide", 40_000, 120, |t, env| {
        let via = route(t, 4);
        Some(run_case("image", via, near_sections(t, env)))
    });
    p.random("sections moved in programs", 30_000, 420, |t, env| {
        let via = route(t, 4);
        let s = moved_sections(t, env);
        match assemble(s.as_bytes()) {
            Verdict::Err(_) => None,
            _ => Some(run_case("image", via, s)),
        }
    });
}

fn scalar(k: usize) -> Option<char> {
    std::char::from_u32(k as u32)
}

fn c08(p: &mut Parts) {
    huge(p, &[3, 4]);
    arguments(p, "tokens behind .db", &[".db", ".db 7,", "cls\n.db \"a\""]);
    statements(p, "every short program", "db", false, &[".db 0", ".db \"\"", ".db \"a\"", ".db 1, \"b;\"", ".db \"\n\"", ".org 3", "cls", "a:", "a: .equ 4"], 6);
    // Wherever in the file it stands, for the command as for the modules.
    let mut ns = counts(&p.env.dict, 0, 300_000);
    ns.retain(|n| *n > 30);
    p.sweep("offset in the file", ns.len() * 4, move |k, _| {
        let n = ns[k / 4];
        let (ch, m) = [("é", 2), ("€", 3), ("😀", 4), ("x", 1)][k % 4];
        let head = "cls\n; ";
        let fill = n - head.len() - 6 - m;
        let s = format!("{}{}\n.db \"{}{}{}\", 1\n", head, "z".repeat(fill), ch, ch, ch);
        Some(run_case("db", Via::CliFile, s))
    });
    // What other languages read as something else: each, in some places of a string, and each two.
    let m = ESCAPES.len();
    p.sweep("escapes of other languages", m * 12 + m * m, move |k, _| {
        let s = if k < m * 12 {
            let e = ESCAPES[k / 12];
            match k % 12 {
                0 => format!(".db \"{e}\"\n"),
                1 => format!(".db \"a{e}\"\n"),
                2 => format!(".db \"{e}a\"\n"),
                3 => format!(".db \"{e}1\"\n"),
                4 => format!(".db \"a{e}b\", 7\nx: jp x\n"),
                5 => format!(".db \"{e}{e}\"\n"),
                6 => format!(".db \"{e}{e}{e}\"\n"),
                7 => format!(".db \"{e}\", \"{e}\"\nx: jp x\n"),
                8 => format!(".db 1, \" {e} \", 2\n"),
                9 => format!(".db \"{e}\" .db \"{e}\"\n"),
                10 => format!(".db \"x\"\n.db \"é{e}\"\ncls\n"),
                _ => format!(".DB \"{}\"\nx: jp x\n", e.repeat(40)),
            }
        } else {
            let k = k - m * 12;
            format!(".db \"{}{}\"\nx: jp x\n", ESCAPES[k % m], ESCAPES[k / m])
        };
        Some(run_case("db", route_k(k, 50), s))
    });
    let seed = p.seed;
    // All Unicode scalars, in runs that fit into memory.
    let run = 960;
    p.sweep("every character in a string", 0x110000usize.div_ceil(run) * 2, move |k, _| {
        let m = 0x110000usize.div_ceil(run);
        let from = (k % m) * run;
        let mut s = String::from(".db \"");
        for c in (from..(from + run).min(0x110000)).filter_map(scalar) {
            if k / m == 1 {
                // Behind a backslash, any character but a newline may stand (two bytes more room).
                if c == '\n' || c.len_utf8() + s.len() > 4000 {
                    continue;
                }
                s.push('\\');
                s.push(c);
            } else {
                if c == '"' || c == '\\' {
                    continue;
                }
                s.push(c);
            }
        }
        s += "\"\n";
        Some(run_case("db", route_k(k, 4), s))
    });
    p.sweep("every character, escaped, alone", 0x3000 * 2, move |k, _| {
        let c = scalar(k / 2)?;
        let s = if k % 2 == 0 { format!(".db \"{}\", 1\n", c) } else { format!(".db \"\\{}\", 1\n", c) };
        Some(run_case("db", route_k(k, 50), s))
    });
    p.sweep("every number and place", 4096 * 4, |k, _| {
        let v = k % 4096;
        let s = match k / 4096 {
            0 => format!(".db {}\n", v),
            1 => format!(".db 1, ${:x}\n", v),
            2 => format!(".db \"a\", {}, \"b\"\n", v),
            _ => format!(".org 100\n.db %{:b}, {}\n.db {}\n", v % 256, 255 - v % 256, v % 256),
        };
        Some(run_case("db", route_k(k, 60), s))
    });
    p.sweep("every string length", 4097 * 2, move |k, _| {
        let n = k % 4097;
        // A pattern in which every position differs from its neighbours.
        let body: String = (0..n).map(|i| (b'!' + 2 + ((i * 7 + i / 90 + n) % 57) as u8) as char).collect();
        let s = if k / 4097 == 0 { format!(".db \"{}\"\n", body) } else { format!(".db 7,\"{}\",9\n", body) };
        Some(run_case("db", route_k(k, 30), s))
    });
    p.sweep("every list length", 1300, |k, _| {
        let n = if k < 1100 { k + 1 } else { 1101 + (k - 1100) * 15 };
        let mut s = String::from(".db ");
        for j in 0..n {
            if j > 0 {
                s.push(',');
            }
            if j % 7 == 3 && n < 1000 {
                s += "\"é;\"";
            } else {
                s += &((j * 13 + k) % 256).to_string();
            }
        }
        s.push('\n');
        Some(run_case("db", if n > 1100 { Via::CliFile } else { route_k(k, 20) }, s))
    });
    let ns = counts(&p.env.dict, 800, 2046);
    p.sweep("number of directives", ns.len(), move |k, _| {
        let mut s = String::new();
        for j in 0..ns[k] + 1 {
            s += &format!(".db {}, \"{}\"\n", j % 256, (b'a' + (j % 26) as u8) as char);
        }
        Some(run_case("db", route_k(k, 20), s))
    });
    p.sweep("runs of quotes and backslashes", 1 << 14, |k, _| {
        // All strings of up to 13 symbols over quote and backslash, then a letter.
        let n = (usize::BITS - 1 - (k + 1).leading_zeros()) as usize;
        let bits = k + 1 - (1 << n);
        let body: String = (0..n).map(|j| if bits >> j & 1 == 1 { '"' } else { '\\' }).collect();
        Some(run_case("db", route_k(k, 60), format!(".db \"{}a\", 5\n", body)))
    });
    p.random("data in programs", 90_000, 420, |t, env| {
        let via = route(t, 4);
        let pr = *t.pick(&[&DATA, &DATA, &MIXED]);
        let prog = valid(t, &env.dict, pr);
        Some(run_case("db", via, text(t, &env.dict, &prog)))
    });
    p.random("faulty data", 50_000, 300, move |t, env| {
        let _ = seed;
        let via = route(t, 4);
        let d = &env.dict;
        let mut prog = valid(t, d, &DATA);
        let dbs: Vec<usize> = (0..prog.len()).filter(|k| is_db(&prog[*k])).collect();
        if dbs.is_empty() {
            return None;
        }
        let k = *t.pick(&dbs);
        match t.below(4) {
            0 | 1 => {
                if let Stmt::Dir(_, a) = &mut prog[k] {
                    let j = t.below(a.len() + 1);
                    let v = if t.chance(1, 2) { 256 + num(t, d, 3839) } else { 256 + t.below(20) as u32 };
                    a.insert(j, Lit::Num(v));
                }
            }
            2 => prog[k] = Stmt::db(vec![]),
            _ => {
                let s = text(t, d, &prog);
                // Drop one quote.
                let q: Vec<usize> = s.char_indices().filter(|c| c.1 == '"').map(|c| c.0).collect();
                if q.is_empty() {
                    return None;
                }
                let mut s = s;
                s.remove(*t.pick(&q));
                return Some(run_case("db", via, s));
            }
        }
        Some(run_case("db", via, text(t, d, &prog)))
    });
}

fn sections_text(secs: &[(usize, usize)], mark: bool) -> String {
    let mut s = String::new();
    for (j, (a, n)) in secs.iter().enumerate() {
        s += &format!(".org {}\n", a);
        if mark && n % 2 == 0 {
            s += &"cls\n".repeat(n / 2);
        } else if *n > 0 {
            s += &format!(".db \"{}\"\n", ((b'a' + (j % 26) as u8) as char).to_string().repeat(*n));
        }
    }
    s
}

fn near_sections(t: &mut Tape, env: &Env) -> String {
    let d = &env.dict;
    let many = t.chance(1, 6);
    let n = 2 + t.below(if many { 30 } else { 7 });
    let base = num(t, d, 4000) as usize;
    let wide = *t.pick(&[8usize, 40, 300, 4000]);
    let mut secs: Vec<(usize, usize)> = Vec::new();
    for _ in 0..n {
        let a = if !secs.is_empty() && t.chance(1, 3) {
            // Where another one starts or ends, or next to that.
            let o = *t.pick(&secs);
            (if t.below(2) == 0 { o.0 } else { o.0 + o.1 } + t.below(3)).saturating_sub(1)
        } else {
            base + t.below(wide)
        }
        .min(4095);
        let len = match t.below(4) {
            0 => t.below(3),
            1 => t.below(wide),
            2 => t.below(20),
            _ => 2 * t.below(10),
        }
        .min(4095 - a);
        secs.push((a, len));
    }
    sections_text(&secs, t.below(2) == 1)
}

fn moved_sections(t: &mut Tape, env: &Env) -> String {
    let pr = *t.pick(&[&SECTIONS, &TINY]);
    let mut prog = valid(t, &env.dict, pr);
    let orgs: Vec<usize> = (0..prog.len()).filter(|k| is_org(&prog[*k])).collect();
    if !orgs.is_empty() {
        let k = *t.pick(&orgs);
        if let Stmt::Dir(_, a) = &mut prog[k] {
            if let Lit::Num(v) = a[0] {
                let v2 = match t.below(3) {
                    0 => (v + 1).min(4000),
                    1 => v.saturating_sub(1 + t.below(4) as u32),
                    _ => num(t, &env.dict, 4000),
                };
                a[0] = Lit::Num(v2);
            }
        }
    }
    text(t, &env.dict, &prog)
}

fn c09(p: &mut Parts) {
    huge(p, &[2, 9]);
    statements(p, "every short program", "overlap", true, &[".org 0", ".org 1", ".org 2", ".org 3", ".db 1", ".db 1, 1", ".db \"\"", "cls", "a:"], 6);
    // Two sections: every start and length in a small window, at several places.
    let w = 9;
    let bases = [0usize, 247, 2040, 4079];
    p.sweep("two sections", w * w * w * w * bases.len(), move |k, _| {
        let base = bases[k % bases.len()];
        let k2 = k / bases.len();
        let (a, n, b, m) = (k2 % w, k2 / w % w, k2 / w / w % w, k2 / w / w / w);
        let secs = [(base + a, n), (base + b, m)];
        if secs.iter().any(|x| x.0 + x.1 > 4095) {
            return None;
        }
        Some(run_case("overlap", route_k(k, 60), sections_text(&secs, k % 3 == 0)))
    });
    p.sweep("three sections", 6usize.pow(3) * 5usize.pow(3), |k, _| {
        let mut k2 = k;
        let mut secs = Vec::new();
        for _ in 0..3 {
            let a = k2 % 6;
            k2 /= 6;
            let n = k2 % 5;
            k2 /= 5;
            secs.push((a + 100, n));
        }
        Some(run_case("overlap", route_k(k, 60), sections_text(&secs, false)))
    });
    p.sweep("far sections and long ones", 4095 * 6, |k, _| {
        let a = k % 4095;
        let long = 4095 - a;
        let secs: Vec<(usize, usize)> = match k / 4095 {
            0 => vec![(a, long), (a.saturating_sub(1), 1)],
            1 => vec![(0, a), (a, 1)],
            2 => vec![(0, a + 1), (a, 1)],
            3 => vec![(a, 1), (0, 4094)],
            4 => vec![(a, 1), (a, 0), (a, 0)],
            _ => vec![(a, 0), (0, 4094), (a.min(4000), 1)],
        };
        if secs.iter().any(|x| x.0 + x.1 > 4095) {
            return None;
        }
        Some(run_case("overlap", route_k(k, 80), sections_text(&secs, false)))
    });
    let ns = counts(&p.env.dict, 250, 1362);
    p.sweep("number of sections", ns.len() * 4, move |k, _| {
        let n = ns[k / 4] + 2;
        let mut secs: Vec<(usize, usize)> = (0..n).map(|j| (j * 3, 3)).collect();
        match k % 4 {
            0 => {}
            1 => secs.reverse(),
            // One of them sticks out into the next; or the last meets the first.
            2 => {
                let j = k % n;
                secs[j].1 += 1;
            }
            _ => {
                secs[n - 1].0 = 0;
            }
        }
        Some(run_case("overlap", route_k(k, 20), sections_text(&secs, false)))
    });
    p.random("sections near each other", 120_000, 120, |t, env| {
        let via = route(t, 4);
        Some(run_case("overlap", via, near_sections(t, env)))
    });
    p.random("sections moved in programs", 60_000, 420, |t, env| {
        let via = route(t, 4);
        Some(run_case("overlap", via, moved_sections(t, env)))
    });
    if crate::api::HAVE_RANGE {
        p.sweep("DataRange pairs", w * w * w * w, move |k, _| {
            let (a, n, b, m) = (k % w, k / w % w, k / w / w % w, k / w / w / w);
            Some(Case { kind: "api-ranges", via: Via::Lib, args: vec![format!("{} {} {} {}", a + 4087 - 8, n, b + 4087 - 8, m).into_bytes()] })
        });
        p.random("DataRange sets", 60_000, 40, |t, env| {
            let n = 1 + t.below(8);
            let base = num(t, &env.dict, 4095) as usize;
            let mut v = Vec::new();
            for _ in 0..n {
                let a = if t.below(2) == 0 { (base + t.below(20)).min(4095) } else { t.below(4096) };
                let len = if t.below(2) == 0 { t.below(12) } else { t.log_len(4096) };
                v.push(a.to_string());
                v.push(len.min(4096 - a).min(4095).to_string());
            }
            Some(Case { kind: "api-ranges", via: Via::Lib, args: vec![v.join(" ").into_bytes()] })
        });
        p.random("DataRange appends", 60_000, 40, |t, env| {
            let a = num(t, &env.dict, 4095) as usize;
            let mut v = vec![a.to_string()];
            let mut room = 4096 - a;
            for _ in 0..t.below(8) {
                let n = match t.below(5) {
                    0 => room,
                    1 => room + 1,
                    2 => room.saturating_sub(1),
                    3 => t.below(20),
                    _ => t.log_len(5000),
                };
                v.push(n.to_string());
                if n <= room {
                    room -= n;
                }
            }
            Some(Case { kind: "api-append", via: Via::Lib, args: vec![v.join(" ").into_bytes()] })
        });
    }
}

fn c10(p: &mut Parts) {
    statements(p, "every short program", "counter", true, &[".org $ffc", ".org $ffd", ".org $fff", ".org 0", ".db 1", ".db 1, 2", ".db \"\"", "cls", "a:"], 6);
    p.sweep("every origin, data up to the end", 4096 * 12, |k, _| {
        let a = k % 4096;
        let room = 4095 - a;
        let how = k / 4096;
        let n = match how % 4 {
            0 => room.saturating_sub(1),
            1 => room,
            2 => room + 1,
            _ => room + 2,
        };
        let y = |n: usize| if n == 0 { String::new() } else { format!(".db \"{}\"\n", "y".repeat(n)) };
        let s = match how / 4 {
            0 => format!(".org {}\n{}", a, y(n)),
            1 => format!(".org {}\n{}.db 1\n", a, y(n.saturating_sub(1))),
            _ => format!("x: .org {}\n{}cls\nz:", a, y(n.saturating_sub(2))),
        };
        Some(run_case("counter", route_k(k, 100), s))
    });
    p.sweep("instructions up to the end", 4096 * 2, |k, _| {
        let a = 4096 - 1 - (k % 600);
        let n = k / 600;
        let s = format!(".org {}\n{}", a, "cls\n".repeat((600 - k % 600) / 2 + n % 3));
        Some(run_case("counter", route_k(k, 60), s))
    });
    p.sweep("sizes beyond memory", 900, |k, _| {
        // Sizes that wrap to something small in 12, 16 or more bits.
        let base = [4096usize, 8192, 16384, 65536, 131072, 1 << 18][k % 6];
        let off = (k / 6) % 30;
        let n = base + off - 15;
        let s = match k / 180 {
            0 => format!(".db \"{}\"\n", "w".repeat(n)),
            1 => format!(".org 10\n.db 1,\"{}\"\ncls\n", "w".repeat(n)),
            2 => {
                let mut s = String::from("a: .db \"");
                s += &"w".repeat(n / 2);
                s += "\", \"";
                s += &"v".repeat(n - n / 2);
                s += "\"\njp a\n";
                s
            }
            3 => {
                // Reached step by step.
                let mut s = String::new();
                for _ in 0..n / 1000 {
                    s += &format!(".db \"{}\"\n", "w".repeat(1000));
                }
                s + &format!(".db \"{}\"\n", "w".repeat(n % 1000 + 1))
            }
            _ => "é".chars().cycle().take(n / 2).fold(String::from(".org 4000\n.db \""), |mut s, c| { s.push(c); s }) + "\"\n",
        };
        Some(run_case("counter", if k % 3 == 0 { Via::CliFile } else { Via::Lib }, s))
    });
    p.sweep("number of instructions", 300, |k, _| {
        let n = if k < 100 { 2000 + k } else { [4095, 4096, 2 * 4096, 32767, 32768, 32769, 65536][k % 7] + k / 7 };
        Some(run_case("counter", route_k(k, 10), "cls\n".repeat(n)))
    });
    p.sweep("long number lists", 60, |k, _| {
        let n = if k < 30 { 4080 + k } else { 65536 - 15 + k - 30 };
        let mut s = String::from(".db 0");
        for j in 1..n {
            s += if j % 2 == 0 { ",1" } else { ",$f" };
        }
        s.push('\n');
        Some(run_case("counter", Via::CliFile, s))
    });
    p.random("programs near the end", 120_000, 300, |t, env| {
        let via = route(t, 4);
        let d = &env.dict;
        // Statements of known total size, then an origin that just does or does not leave room.
        let mut body = Vec::new();
        let mut used = 0u32;
        for j in 0..1 + t.below(10) {
            match t.weighted(&[4, 4, 2, 1]) {
                0 => {
                    body.push(instruction(t, d, 0));
                    used += 2;
                }
                1 => {
                    let s = Stmt::db(db_args(t, d, &MIXED));
                    used += s.size() as u32;
                    body.push(s);
                }
                2 => body.push(Stmt::Label(format!("p{}", j))),
                _ => {
                    body.push(Stmt::Label(format!("p{}", j)));
                    body.push(Stmt::equ(num(t, d, 4095)));
                }
            }
        }
        let slack = t.below(5) as i64 - 2;
        let org = (4095i64 - used as i64 + slack).clamp(0, 4095) as u32;
        let mut prog = vec![];
        if t.chance(1, 3) {
            prog.push(Stmt::db(db_args(t, d, &MIXED)));
        }
        prog.push(Stmt::org(org));
        let back = t.chance(1, 3);
        prog.extend(body);
        if back {
            prog.push(Stmt::org(num(t, d, 1000)));
        }
        Some(run_case("counter", via, text(t, d, &prog)))
    });
}

fn c11(p: &mut Parts) {
    huge(p, &[2, 3]);
    statements(p, "every short program", "hex", false, &[".org 0", ".org 1", ".org 16", ".org $f00", ".db 1", ".db \"0123456789abcdef\"", ".db \"\"", "cls", "a:"], 6);
    let seed = p.seed;
    p.sweep("every length", 4096 * 5, move |k, _| {
        let n = k % 4096;
        let start = match k / 4096 {
            0 => 0,
            1 => 4095 - n,
            2 => (4095 - n).min(0x1F7),
            3 => (4095 - n).min(8),
            _ => mix(seed ^ k as u64) as usize % (4096 - n),
        };
        if n == 0 {
            return Some(run_case("hex", Via::Lib, format!(".org {}\n", start)));
        }
        // Bytes above 127 appear as two-byte characters.
        let mut body = String::new();
        let mut j = 0;
        while body.len() < n {
            let c = if n - body.len() >= 2 && j % 3 == 0 { std::char::from_u32(0x80 + ((j * 29 + n) % 0x700) as u32).unwrap() } else { (b'#' + ((j * 5 + n) % 57) as u8) as char };
            body.push(c);
            j += 1;
        }
        Some(run_case("hex", route_k(k, 40), format!(".org {}\n.db \"{}\"\n", start, body)))
    });
    p.sweep("every byte value and checksum", 256 * 20, |k, _| {
        let v = k % 256;
        let n = k / 256;
        let mut s = format!(".org {}\n.db {}", (k * 13) % 4000, v);
        for j in 0..n {
            s += &format!(",{}", if k % 3 == 0 { v } else { (v + j * j) % 256 });
        }
        s.push('\n');
        Some(run_case("hex", route_k(k, 40), s))
    });
    let ns = counts(&p.env.dict, 600, 1360);
    p.sweep("number of sections", ns.len() * 3, move |k, _| {
        let n = ns[k / 3];
        let step = if n > 680 { 3 } else { 6 };
        let mut s = String::new();
        for j in 0..n {
            let a = match k % 3 {
                0 => j * step,
                1 => (n - 1 - j) * step,
                _ => (j * 5 % n) * step,
            };
            if k % 3 == 2 && n % 5 == 0 {
                continue;
            }
            s += &format!(".org {}\n.db {}\ncls\n", a, j % 256);
        }
        Some(run_case("hex", route_k(k, 20), s))
    });
    p.sweep("two sections of any length", 70 * 70, |k, _| {
        let (n, m) = (k % 70, k / 70);
        let y = |c: &str, n: usize| if n == 0 { String::new() } else { format!(".db \"{}\"\n", c.repeat(n)) };
        Some(run_case("hex", route_k(k, 40), format!(".org {}\n{}.org {}\n{}", 300 + m, y("p", n), 300 - n % 7, if n % 7 == 0 { String::new() } else { y("r", n % 7) }) + &format!(".org 800\n{}", y("q", m))))
    });
    p.random("random programs", 120_000, 480, |t, env| {
        let via = route(t, 5);
        let pr = profile(t);
        let prog = valid(t, &env.dict, pr);
        Some(run_case("hex", via, text(t, &env.dict, &prog)))
    });
}

fn any_bytes(t: &mut Tape, max: usize) -> Vec<u8> {
    let n = t.log_len(max);
    let mut v = Vec::with_capacity(n);
    let mode = t.below(3);
    while v.len() < n {
        match mode {
            0 => v.push(t.below(256) as u8),
            1 => v.push(*t.pick(b"\n\r\t ;.:,\"\\$#%[]01iIvVdbDB_azAZ\x00\x7f\x80\xc3\xff\xf0")),
            _ => {
                if t.chance(1, 12) {
                    v.push(0x80 + t.below(128) as u8);
                } else {
                    v.push(0x20 + t.below(95) as u8);
                }
            }
        }
    }
    v
}

/// n sections of l bytes, d apart.
fn piled(n: usize, l: usize, d: usize) -> String {
    (0..n).map(|k| format!(".org {}\n.db \"{}\"\n", k * d % (4096 - l), "z".repeat(l))).collect()
}

const RUNS: usize = 30;

fn long_run(what: usize, n: usize) -> String {
    let mut s = String::new();
    match what {
        0 => (0..n).for_each(|k| s += &format!("a{}:\n", k)),
        1 => (0..n).for_each(|k| s += &format!("a{}: .equ {}\n", k, k % 4096)),
        2 => (0..n).for_each(|k| s += &format!("a{}: ", k)),
        3 => (0..n).for_each(|k| s += &format!(".org {}\n", k % 4096)),
        4 => {
            s += "cls\n";
            (0..n).for_each(|k| s += &format!("a{}:\n", k));
        }
        5 => {
            s += ".db 1";
            (0..n).for_each(|_| s += ", 1");
            s += "\n";
        }
        6 => {
            s += "ld v1";
            (0..n).for_each(|_| s += ", v1");
            s += "\n";
        }
        7 => (0..n).for_each(|k| s += &format!(".org {}\na{}: .org {}\n", k % 4096, k, (k + 1) % 4096)),
        8 => {
            s += ".db \"";
            s += &"q".repeat(n);
            s += "\"\n";
        }
        9 => {
            s += ".db \"\"";
            (0..n).for_each(|_| s += ", \"\"");
            s += "\n";
        }
        k => {
            let u = [
                "\n", "\r\n", " ", "\t", "; c\n", ";", "cls\n", ".db 1\n", ".db \"\"\n", "a ", "a: a: ", "1 ", ", ", ": ", ". ", "\"\" ", "$1 ", "bad! ", "[i] ", "é",
            ][k - 10];
            s += &u.repeat(n);
            s.push('\n');
        }
    }
    s
}

fn c12(p: &mut Parts) {
    let thorough = p.env.thorough;
    let max = if thorough { 1_000_000 } else { 200_000 };
    p.sweep("one and two bytes", 257 * 256, |k, _| {
        let v = if k < 256 { vec![k as u8] } else { vec![((k - 256) % 256) as u8, ((k - 256) / 256) as u8] };
        Some(run_case("clean", route_k(k, 16), v))
    });
    p.sweep("each byte in places", 256 * 24, |k, _| {
        let b = (k % 256) as u8;
        let mut v: Vec<u8> = [
            &b"cls\n"[..], b"", b".db \"a", b".db \"\\", b"; ", b"a", b"ld v", b"ld v1, ", b"$", b"%", b"#", b"[", b"[i",
            b".", b".org ", b"x: .equ ", b"x", b"1", b"jp 409", b".db 1,", b"\"", b"\xc3", b"\xf0\x9f\x98", b"drw v1,v2",
        ][k / 256]
            .to_vec();
        v.push(b);
        if k % 2 == 0 {
            v.extend(b"\ncls\n");
        }
        Some(run_case("clean", route_k(k, 4), v))
    });
    {
        // Long runs of one thing, long enough for anything that recurses.
        let sizes: &'static [usize] = if thorough { &[3_000, 40_000, 250_000, 1_500_000] } else { &[3_000, 40_000, 250_000] };
        p.sweep("long runs", RUNS * 3 * sizes.len(), move |k, _| {
            let n = sizes[k % sizes.len()];
            let tail = ["", "cls\n", "jp nowhere\n"][k / sizes.len() % 3];
            Some(run_case("clean", Via::CliFile, long_run(k / sizes.len() / 3, n) + tail))
        });
    }
    p.random("oversized shapes", if thorough { 60 } else { 250 }, 60, move |t, env| {
        let (s, _) = shape(t, &env.dict, max);
        Some(run_case("clean", Via::CliFile, s))
    });
    p.random("shapes in-process", 4000, 60, move |t, env| {
        let (s, _) = shape(t, &env.dict, 6000);
        Some(run_case("clean", route(t, 10), s))
    });
    p.random("bytes", 15_000, 400, |t, _| {
        let v = any_bytes(t, 3000);
        Some(run_case("clean", Via::CliFile, v))
    });
    p.random("broken encodings in programs", 10_000, 420, |t, env| {
        let pr = profile(t);
        let prog = valid(t, &env.dict, pr);
        let mut v = text(t, &env.dict, &prog).into_bytes();
        for _ in 0..1 + t.below(3) {
            let at = t.below(v.len() + 1);
            match t.below(4) {
                0 => v.truncate(at),
                1 => v.insert(at, t.below(256) as u8),
                2 => {
                    let x: &[u8] = t.pick(&[&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xef\xbb\xbf", b"\xff\xfe", b"\x00", b"\xc0\x80"]);
                    v.splice(at..at, x.iter().copied());
                }
                _ => {
                    if at < v.len() {
                        v[at] = t.below(256) as u8;
                    }
                }
            }
        }
        Some(run_case("clean", Via::CliFile, v))
    });
    p.random("token soup", 150_000, 200, |t, env| {
        let via = route(t, 4);
        Some(run_case("clean", via, soup(t, &env.dict, 30)))
    });
    p.random("mutated programs", 150_000, 460, |t, env| {
        let via = route(t, 4);
        let pr = profile(t);
        let prog = valid(t, &env.dict, pr);
        let s = text(t, &env.dict, &prog);
        Some(run_case("clean", via, mutate(t, &env.dict, &s)))
    });
    p.random("loose programs", 60_000, 300, |t, env| {
        let via = route(t, 4);
        let prog = loose(t, &env.dict, 14);
        let st = Style::draw(t);
        Some(run_case("clean", via, render(t, &env.dict, &prog, st)))
    });
    {
        let (ns, ls, ds) = (&[2usize, 3, 9, 17, 33, 70, 150, 300], &[1usize, 2, 15, 16, 255, 256, 1000, 2047, 4000], &[0usize, 1, 2, 16, 255]);
        p.sweep("many sections on top of each other", ns.len() * ls.len() * ds.len(), move |k, _| {
            Some(run_case("clean", Via::CliFile, piled(ns[k % ns.len()], ls[k / ns.len() % ls.len()], ds[k / ns.len() / ls.len()])))
        });
    }
    p.sweep("origin and size near the end", 4096 * 3, |k, _| {
        let a = 4095 - (k % 64);
        let n = k / 64;
        Some(run_case("clean", route_k(k, 20), format!("x: .org {}\n.db \"{}\"\ny: {}\n", a, "e".repeat(n % 70), if k % 3 == 0 { "jp x" } else { "" })))
    });
}

// ------------------------------------------------------------- scenarios

const PROGRAMS: &[&str] = &[
    "", ".db 1\n", "cls\n.org $200\n.db \"hello, world\"\n", "jp nowhere\n", "bad!\n", ".db 1\n.org 0\n.db 2\n",
    ".org 4095\ncls\n", ".db", "x: x:\n", ".dw 1\n", "cls v0\n", ".db \"unterminated\n", "jp 5,\n",
];

fn big_program(n: usize) -> String {
    format!(".db \"{}\"\n", "Q".repeat(n))
}

fn c13(p: &mut Parts) {
    let programs: Vec<Vec<u8>> = PROGRAMS
        .iter()
        .map(|s| s.as_bytes().to_vec())
        .chain(vec![big_program(4095).into_bytes(), big_program(4096).into_bytes(), b".db 1\n\xff\xfe\n".to_vec()])
        .collect();
    let np = programs.len();
    p.sweep("every combination", OUT.len() * PRE.len() * np * 2, {
        let programs = programs.clone();
        move |k, _| {
            let out = OUT[k % OUT.len()];
            let k = k / OUT.len();
            let pre = PRE[k % PRE.len()];
            let k = k / PRE.len();
            let src = &programs[k % np];
            let order = if k / np == 0 { "first" } else { "last" };
            Some(Case { kind: "fs", via: Via::CliFile, args: vec![src.clone(), format!("in=ok out={} pre={} order={}", out, pre, order).into_bytes()] })
        }
    });
    p.sweep("unreadable inputs", IN.len() * OUT.len() * PRE.len(), |k, _| {
        let inp = IN[k % IN.len()];
        let out = OUT[k / IN.len() % OUT.len()];
        let pre = PRE[k / IN.len() / OUT.len()];
        if out == "same" && inp != "ok" && inp != "sub" {
            return None;
        }
        Some(Case { kind: "fs", via: Via::CliFile, args: vec![b".db 1\n".to_vec(), format!("in={} out={} pre={} order=first", inp, out, pre).into_bytes()] })
    });
    p.sweep("write errors part-way", 60, |k, _| {
        let n = [1usize, 20, 900, 2000, 4000, 4095][k % 6];
        let pre = PRE[k / 6 % PRE.len()];
        Some(Case { kind: "fs", via: Via::CliFile, args: vec![big_program(n).into_bytes(), format!("in=ok out={} pre={} order=first fsize=1", if k % 2 == 0 { "file" } else { "default" }, pre).into_bytes()] })
    });
    let mut ns = counts(&p.env.dict, 40, 6_000_000);
    ns.retain(|n| *n < 600 || n % 2 == 0);
    p.sweep("size of the file to be replaced", ns.len() * 2, move |k, _| {
        let src = [".db 1,2,3\n", "jp nowhere\n"][k % 2];
        let out = ["file", "default", "noext"][k / 2 % 3];
        Some(Case { kind: "fs", via: Via::CliFile, args: vec![src.into(), format!("in=ok out={} pre=size:{} order=first", out, ns[k / 2]).into_bytes()] })
    });
    p.random("histories", 4_000, 600, |t, env| {
        let d = &env.dict;
        const FILES: &[&str] = &["a.s", "b.s", "a.hex", "o.hex", "o", "a"];
        let mut args: Vec<Vec<u8>> = Vec::new();
        // A few texts that come back.
        let n = 1 + t.below(3);
        let mut texts: Vec<Vec<u8>> = Vec::new();
        for _ in 0..n {
            let s = match t.below(5) {
                0 => t.pick(PROGRAMS).as_bytes().to_vec(),
                1 => format!(".db {}\n", t.below(256)).into_bytes(),
                2 => big_program(1 + t.log_len(4000)).into_bytes(),
                _ => {
                    let pr = profile(t);
                    let prog = valid(t, d, pr);
                    text(t, d, &prog).into_bytes()
                }
            };
            texts.push(s);
        }
        // One that gives as many characters as another.
        if t.below(2) == 0 {
            let s = String::from_utf8_lossy(&texts[0]).replace('Q', "R").replace(".db 1", ".db 2");
            texts.push(s.into_bytes());
        }
        let write = |t: &mut Tape, args: &mut Vec<Vec<u8>>| {
            let f = *t.pick(&["a.s", "a.s", "b.s", "a.hex", "o.hex", "o", "a"]);
            let body = t.pick(&texts).clone();
            args.push([format!("w {}\n", f).as_bytes(), &body].concat());
        };
        write(t, &mut args);
        for _ in 0..2 + t.below(7) {
            match t.weighted(&[3, 6, 1, 1, 1]) {
                0 => write(t, &mut args),
                1 => {
                    let i = *t.pick(&["a.s", "a.s", "a.s", "b.s", "a.hex", "o.hex", "a"]);
                    let o = *t.pick(&["", "o.hex", "o.hex", "-", "o", "a.s", "a.hex", "b.s"]);
                    args.push(format!("r {} {}", i, o).into_bytes());
                }
                2 => args.push(format!("d {}", t.pick(FILES)).into_bytes()),
                3 => args.push(format!("m {}", t.pick(FILES)).into_bytes()),
                _ => args.push(format!("c {} {}", t.pick(FILES), t.pick(FILES)).into_bytes()),
            }
        }
        args.push(b"r a.s o.hex".to_vec());
        Some(Case { kind: "hist", via: Via::CliFile, args })
    });
    p.random("random programs and destinations", 14_000, 420, |t, env| {
        let d = &env.dict;
        let pr = profile(t);
        let src: Vec<u8> = match t.below(6) {
            0 | 1 => {
                let prog = valid(t, d, pr);
                text(t, d, &prog).into_bytes()
            }
            2 | 3 => {
                let mut prog = valid(t, d, pr);
                inject(t, d, &mut prog);
                let st = Style::draw(t);
                render(t, d, &prog, st).into_bytes()
            }
            4 => {
                let prog = valid(t, d, pr);
                let s = text(t, d, &prog);
                mutate(t, d, &s).into_bytes()
            }
            _ => {
                let n = 2 + t.below(3);
                let v: Vec<(usize, usize)> = (0..n).map(|_| (t.below(60), t.below(20))).collect();
                sections_text(&v, false).into_bytes()
            }
        };
        let out = if t.chance(1, 4) {
            let n = pick_file(t, d, NAMES);
            let e = if t.chance(1, 2) { magic_word(t, d, EXTENSIONS) } else { t.pick(EXTENSIONS).to_string() };
            let f = format!("{}{}", n, e);
            // Not the input, a directory or standard output.
            if crate::scenario::file_word(&f) && f != "-" && f != "in.s" && f != "missing.s" && f != "d" && f != "sub" { format!("name:{}", crate::scenario::enc(&f)) } else { "file".into() }
        } else {
            t.pick(OUT).to_string()
        };
        let inp = if t.chance(1, 12) { *t.pick(IN) } else if t.chance(1, 6) { "sub" } else { "ok" };
        let inp = if out == "same" && inp != "sub" { "ok" } else { inp };
        let pre = *t.pick(PRE);
        let order = *t.pick(&["first", "last"]);
        Some(Case { kind: "fs", via: Via::CliFile, args: vec![src, format!("in={} out={} pre={} order={}", inp, out, pre, order).into_bytes()] })
    });
}

fn c14(p: &mut Parts) {
    let seed = p.seed;
    const FAULTS: &[&str] = &["bad!", "jp nowhere", ".dw 1", "ld v1, 256", "cls 1", ".db 256", "4096", ":", "x0:", ".equ 5", "\"open", "%2", "mov v1, v2", ".db", "jp 99999", "[j]"];
    let nf = FAULTS.len();
    let ns = counts(&p.env.dict, 300, 131_074);
    let ms = ns.clone();
    p.sweep("line numbers", ns.len() * nf, move |k, _| {
        let f = FAULTS[k % nf];
        let n = ns[k / nf];
                let nl = if k % 3 == 0 { "\r\n" } else { "\n" };
        Some(run_case("location", route_k(k, 40), format!("x0:{}{}\n", nl.repeat(n), f)))
    });
    p.sweep("columns", ms.len() * nf, move |k, _| {
        let f = FAULTS[k % nf];
        let n = ms[k / nf];
                let b = ["\t", " ", "\r", "\u{3000}"][k % 4];
        let pre = if k % 5 == 0 { "cls\n" } else { "" };
        Some(run_case("location", route_k(k, 40), format!("x0: {}{}{}\n", pre, b.repeat(n), f)))
    });
    let ns = counts(&p.env.dict, 1000, 70_000);
    p.sweep("widths", ns.len() * 4, move |k, _| {
        let n = ns[k / 4] + 1;
        let s = match k % 4 {
            0 => format!("cls\n  {} v0\n", "m".repeat(n)),
            1 => format!("\t.{} 1\n", "d".repeat(n)),
            2 => format!("{0}: cls\n {0}: ret\n", "l".repeat(n)),
            _ => format!("jp  {}\n", "9".repeat(n + 4)),
        };
        Some(run_case("location", route_k(k, 40), s))
    });
    let ns = counts(&p.env.dict, 200, 4000);
    p.sweep("lines of a string before", ns.len() * 2, move |k, _| {
        let n = ns[k / 2];
        Some(run_case("location", route_k(k, 20), format!("; c\n.db \"{}é\", 1{}bad!\n", if k % 2 == 0 { "a\n" } else { "\r\n" }.repeat(n), if k % 4 < 2 { " " } else { "\n " })))
    });
    let run = 200;
    p.sweep("every character before", 0x110000usize.div_ceil(run) * 2, move |k, _| {
        let m = 0x110000usize.div_ceil(run);
        let from = (k % m) * run;
        let body: String = (from..(from + run).min(0x110000)).filter_map(scalar).filter(|c| *c != '"' && *c != '\\').collect();
        let s = if k / m == 0 {
            format!(".db \"{}\", 256\nx: x:\n", body).replace(", 256", ", 1 !")
        } else {
            format!("; {}\n {}cls 4\n", body.replace('\n', " "), if k % 2 == 0 { "l: " } else { "" })
        };
        Some(run_case("location", route_k(k, 60), s))
    });
    p.sweep("comments that mean something elsewhere", MAGIC.len() * 4, |k, _| {
        let c = MAGIC[k / 4];
        let s = match k % 4 {
            0 => format!(";{c}\n\t cls ;{c}\n\tx:\t.db\t\"\té\",\t1\t!\n"),
            1 => format!("cls\n\n;{c}\n\n\tld\tv1,\tv2\tv3\n;{c}\n"),
            2 => format!("\t.db\t1;{c}\r\n\r\n\t\t.foo\t5\t;{c}\r\n"),
            _ => format!("a: ;{c}\n  a:\t;{c}\n;{c}"),
        };
        Some(run_case("location", route_k(k, 8), s))
    });
    p.sweep("every stray character", 0x110000, move |k, _| {
        let c = scalar(k)?;
        if k > 0x3000 && !p_full(k) {
            return None;
        }
        Some(run_case("location", route_k(k, 500), format!(" cls\n  {} cls", c)))
    });
    p.random("one fault in a program", 110_000, 460, |t, env| {
        let via = route(t, 6);
        let d = &env.dict;
        let pr = *t.pick(&[&MIXED, &LABELS, &CONSTS, &DATA]);
        let mut prog = valid(t, d, pr);
        inject(t, d, &mut prog)?;
        Some(run_case("location", via, text(t, d, &prog)))
    });
    p.random("one bad token in a text", 90_000, 460, |t, env| {
        let via = route(t, 6);
        let d = &env.dict;
        let pr = *t.pick(&[&MIXED, &LABELS, &CONSTS, &DATA]);
        let prog = valid(t, d, pr);
        let s = text(t, d, &prog);
        let (s, _) = inject_token(t, d, &s);
        Some(run_case("location", via, s))
    });
    p.random("paths", 4000, 300, |t, env| {
        let d = &env.dict;
        let mut prog = valid(t, d, &MIXED);
        inject(t, d, &mut prog)?;
        let s = text(t, d, &prog);
        let path = match t.below(8) {
            0 => "a.s".to_string(),
            1 => "./x/../in.s".to_string(),
            2 => "deep/er/in file.asm".to_string(),
            3 => "-leading.s".to_string(),
            4 => "é日本😀.s".to_string(),
            5 => "a:1:2.s".to_string(),
            6 => format!("{}.s", "long".repeat(1 + t.below(50))),
            _ => {
                let n = 1 + t.below(12);
                let s: String = (0..n).map(|_| *t.pick(&['a', 'B', '0', ' ', '%', '{', '}', '\\', '\'', '"', '$', '*', '~', 'é', '\t', '='])).collect();
                format!("p{}", s)
            }
        };
        let _ = seed;
        // "./x/../in.s" needs the directory x.
        let path = if path.starts_with("./x") { "./in.s".to_string() } else { path };
        Some(Case { kind: "loc-path", via: Via::CliFile, args: vec![s.into(), path.into()] })
    });
}

/// A tenth of the characters outside the first planes' low part.
fn p_full(k: usize) -> bool {
    k % 10 == 3 || k % 256 == 0 || k % 256 == 255
}

fn casings(w: &str) -> Vec<String> {
    let n = w.chars().filter(|c| c.is_ascii_alphabetic()).count();
    (0..1usize << n)
        .map(|m| {
            let mut j = 0;
            w.chars()
                .map(|c| {
                    if c.is_ascii_alphabetic() {
                        j += 1;
                        if m >> (j - 1) & 1 == 1 {
                            return c.to_ascii_uppercase();
                        }
                        return c.to_ascii_lowercase();
                    }
                    c
                })
                .collect()
        })
        .collect()
}

fn c15(p: &mut Parts) {
    let seed = p.seed;
    // All casings of every keyword of every form.
    let mut list: Vec<(String, String)> = Vec::new();
    for (k, f) in FORMS.iter().enumerate() {
        if let Stmt::Ins(m, ops) = instance(k, 0x5A3) {
            let mut t = Tape::new(&[]);
            let o: Vec<String> = ops.iter().map(|o| spell_operand(&mut t, Style::plain(), o)).collect();
            let canon = format!("{} {}\n", m, o.join(", "));
            for c in casings(f.mn) {
                list.push((canon.clone(), format!("{} {}\n", c, o.join(", "))));
            }
            for j in 0..o.len() {
                for c in casings(&o[j]) {
                    let mut o2 = o.clone();
                    o2[j] = c;
                    list.push((canon.clone(), format!("{} {}\n", m, o2.join(", "))));
                }
            }
        }
    }
    for r in 0..16 {
        for c in casings(&format!("v{:x}", r)) {
            for (a, b) in [("shr ", ""), ("ld dt, ", ""), ("ld ", ", 7"), ("ld v1, ", ""), ("drw v2, ", ", 3")] {
                list.push((format!("{}v{:x}{}\n", a, r, b), format!("{}{}{}\n", a, c, b)));
            }
        }
    }
    for (w, rest) in [("org", "5\n.db 1\n"), ("db", "1,\"Aa\"\n"), ("equ", "5\njp x\n")] {
        for c in casings(w) {
            let pre = if w == "equ" { "x: " } else { "" };
            list.push((format!("{}.{} {}", pre, w, rest), format!("{}.{} {}", pre, c, rest)));
        }
    }
    for v in 0..4096u32 {
        list.push((format!("jp {}\n", v), format!("jp ${:x}\n", v)));
        list.push((format!("jp ${:X}\n", v), format!("jp #{:x}\n", v)));
    }
    let n = list.len();
    p.sweep("letter case", n, move |k, _| {
        let (a, b) = &list[k];
        Some(Case { kind: "same-output", via: route_k(k, 100), args: vec![a.clone().into(), b.clone().into()] })
    });
    // Every blank character in every gap of a program.
    let blanks: Vec<char> = (0..0x110000usize).filter_map(scalar).filter(|c| c.is_whitespace() && *c != '\n').collect();
    let toks = ["lab", ":", "ld", "v1", ",", "7", "\n", ".", "db", "1", ",", "\"a b\"", ",", "$ff", "\n", "c", ":", ".", "equ", "%101", "\n", "jp", "v0", ",", "lab", "\n", "ld", "i", ",", "[i]", "\n", "drw", "v1", ",", "v2", ",", "c", "\n", "cls", "\n"];
    let nt = toks.len();
    let nb = blanks.len();
    p.sweep("every blank character in every gap", (nt + 1) * nb * 2, move |k, _| {
        let at = k % (nt + 1);
        let c = blanks[k / (nt + 1) % nb];
        let times = if k / (nt + 1) / nb == 0 { 1 } else { 3 };
        let join = |blank: Option<&str>| {
            let mut s = String::new();
            for (j, x) in toks.iter().enumerate() {
                if j > 0 {
                    match blank {
                        Some(b) if j == at => s += b,
                        _ if toks[j - 1] == "." => {}
                        _ => s.push(' '),
                    }
                } else if at == 0 {
                    s += blank.unwrap_or("");
                }
                s += x;
            }
            if at == nt {
                s += blank.unwrap_or("");
            }
            s
        };
        let b: String = std::iter::repeat(c).take(times).collect();
        Some(Case { kind: "same-output", via: route_k(k, 30), args: vec![join(None).into(), join(Some(&b)).into()] })
    });
    let run = 300;
    p.sweep("every character in a comment", 0x110000usize.div_ceil(run) * 2, move |k, _| {
        let m = 0x110000usize.div_ceil(run);
        let from = (k % m) * run;
        let body: String = (from..(from + run).min(0x110000)).filter_map(scalar).filter(|c| *c != '\n').collect();
        let (a, b) = if k / m == 0 { (format!("cls\nret\n"), format!("cls ;{}\nret\n", body)) } else { (".db 1\nret\n".into(), format!(";{}\n.db 1\n ; {}\nret;{}", body, body, body)) };
        Some(Case { kind: "same-output", via: route_k(k, 60), args: vec![a.into(), b.into()] })
    });
    p.sweep("every short comment", 128 * 128 + 128 + 0x3000, |k, _| {
        let body: String = if k < 128 {
            (k as u8 as char).to_string()
        } else if k < 128 + 128 * 128 {
            let j = k - 128;
            format!("{}{}", (j % 128) as u8 as char, (j / 128) as u8 as char)
        } else {
            scalar(k - 128 - 128 * 128)?.to_string()
        };
        if body.contains('\n') {
            return None;
        }
        Some(Case { kind: "same-output", via: route_k(k, 200), args: vec!["cls\nx: jp x\n.db 2\n".into(), format!("cls;{0}\nx: ;{0}\njp x ;{0}\n;{0}\n.db 2 ;{0}", body).into()] })
    });
    p.sweep("comments that mean something elsewhere", MAGIC.len() * 8, |k, _| {
        let c = MAGIC[k / 8];
        let b = match k % 8 {
            0 => format!(";{c}\ncls\nx: jp x\n.db 2\n"),
            1 => format!("cls ;{c}\nx: jp x\n.db 2\n"),
            2 => format!("cls\nx: ;{c}\njp x\n.db 2\n"),
            3 => format!("cls\nx: jp x ;{c}\n.db 2\n"),
            4 => format!("cls\nx: jp x\n.db 2 ;{c}\n"),
            5 => format!("cls\nx: jp x\n.db 2\n;{c}"),
            6 => format!(";{c}\n;{c}\n\tcls\t;{c}\n;{c}\nx:\t;{c}\n\tjp x;{c}\n.db 2;{c}\n;{c}\n"),
            _ => format!("\tcls\n;{c}\r\n\r\nx: jp x\r\n;{c}\r\n.db 2"),
        };
        Some(Case { kind: "same-output", via: route_k(k, 8), args: vec!["cls\nx: jp x\n.db 2\n".into(), b.into()] })
    });
    let ns = counts(&p.env.dict, 1200, 70_000);
    p.sweep("lengths of comments, blanks and blank lines", ns.len() * 3, move |k, _| {
        let n = ns[k / 3];
        let b = match k % 3 {
            0 => format!("cls ;{}\nx: jp x\n", "c".repeat(n)),
            1 => format!("cls{}\nx:{}jp x\n", " ".repeat(n), "\t".repeat(n + 1)),
            _ => format!("{}cls\n{}x: jp x\n{}", "\n".repeat(n), "\r\n".repeat(n), "\n".repeat(n)),
        };
        Some(Case { kind: "same-output", via: route_k(k, 30), args: vec!["cls\nx: jp x\n".into(), b.into()] })
    });
    p.random("two layouts of a program", 120_000, 700, move |t, env| {
        let _ = seed;
        let via = route(t, 3);
        let d = &env.dict;
        let pr = profile(t);
        let prog = valid(t, d, pr);
        let a = if t.chance(1, 2) { plain(&prog) } else { text(t, d, &prog) };
        let st = Style { level: 1 + t.below(2), crlf: t.chance(1, 3), join: t.chance(1, 3) };
        let b = text_in(t, d, &prog, st);
        Some(Case { kind: "same-output", via, args: vec![a.into(), b.into()] })
    });
}

/// Syntax of other assemblers, which this one must not guess at.
/// Operands as other assemblers know them.
fn foreign_operands() -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for w in ["1", "5", "15", "128", "255", "256", "$1f", "%101", "#a", "a", "v1", "i", "dt", "[i]", "\"a\""] {
        for p in ["-", "+", "~", "!", "*", "&", "@", "\\", "/", "=", "<", ">", "^", "?", "`", "'", "#", "$", "%", ".", "- ", "+ ", "--", "not ", "byte ", "lo ", "hi ", "0x", "0b", "0", "_", "\u{2212}", "\u{a0}", ":"] {
            v.push(format!("{}{}", p, w));
        }
        for q in ["h", "b", "d", "o", "u", "L", "H", "'", ".", ".0", "+", "-", "+1", "-1", "*2", "/2", " + 1", " - 1", "|1", "&1", "<<1", ">>1", "^1", "%2", "++", "!", "?", ":", ";", "=", "_", "_1", " 2", " a", ".b", "[1]", "(1)", "\\"] {
            v.push(format!("{}{}", w, q));
        }
        for (l, r) in [("(", ")"), ("[", "]"), ("{", "}"), ("<", ">"), ("'", "'"), ("\"", "\""), ("( ", " )"), ("[ ", " ]"), ("lo(", ")"), ("x'", "'"), ("((", "))"), ("(", ""), ("", ")"), ("[", ""), ("", "]")] {
            v.push(format!("{}{}{}", l, w, r));
        }
    }
    for w in ["", " ", ",", "'", "''", "\"\"", "*", "$", ".", "-", "pc", "sp", "hl", "r1", "[v1]", "[i+1]", "[i]+", "i+", "[i++]", "(i)", "hf", "lf", "f8", "vf0", "v10", "v16", "v1v2", "v0-v3", "v1..v3", "v[1]", "a", "A", "key", "bcd", "font", "delay", "sound"] {
        v.push(w.to_string());
    }
    v.sort();
    v.dedup();
    v
}

fn foreign() -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for d in [
        "end", "include", "incbin", "byte", "word", "text", "ascii", "asciz", "string", "ds", "dw", "dd", "dc", "dcb", "fill", "align", "even",
        "macro", "endm", "endmacro", "if", "else", "endif", "ifdef", "ifndef", "set", "define", "def", "undef", "const", "data", "code", "section",
        "segment", "bss", "global", "globl", "extern", "local", "list", "nolist", "title", "page", "eject", "option", "print", "error", "warning",
        "assert", "rept", "endr", "repeat", "while", "times", "res", "rs", "skip", "space", "zero", "block", "proc", "endp", "struct", "ends",
        "enum", "union", "version", "file", "line", "loc", "type", "size", "weak", "hidden", "equs", "equate", "eq", "origin", "offset", "base",
        "bank", "sprite", "char", "chr", "b", "w", "l", "s", "d", "hex", "bin", "dec", "oct", "num", "reg", "alias", "bytes", "words", "long",
        "half", "quad", "octa", "float", "double", "comment", "stop", "exit", "halt", "begin", "start", "entry", "name", "module", "public",
        "dbs", "dbw", "orgs", "equal", "db8", "db16", "org0", "defb", "defw", "defm", "defs", "dm", "dz", "strz", "pad", "fcb", "fdb", "fcc", "rmb",
    ] {
        for tail in ["", " 1", " a", " \"a.s\"", " 1, 2"] {
            v.push(format!(".{}{}", d, tail));
            v.push(format!("{}{}", d, tail));
        }
        for pre in ["a .", "a ", "%", "#", "!", "@"] {
            v.push(format!("{}{} 5", pre, d));
        }
    }
    for w in [
        "0x1f", "0X1F", "1fh", "1FH", "0b101", "0B101", "101b", "0o17", "017", "0d10", "10d", "10D", "1_0", "1_000", "1'000", "1.0", "1e2", "-1", "+1",
        "- 1", "~1", "!1", "1+1", "1 + 1", "1-1", "2*2", "4/2", "5%2", "1<<2", "1>>2", "1|2", "1&2", "1^2", "(1)", "( 1 )", "((1))", "[1]", "{1}", "<a",
        ">a", "<1", ">1", "lo(a)", "hi(a)", "low a", "high a", "low(a)", "a+1", "a-1", "a.b", ".a", "a:", "@a", "$", "*", "$$", "$-a", "*+2", ".+2",
        "'a'", "'a", "\"a\"", "\"a\\n\"", "\\n", "`a`", "&1f", "&h1f", "h'1f'", "b'1'", "x'1f'", "$1F2E", "$0001", "$g", "$ 1", "# 1", "% 1", "#$1f", "#10",
        "#0x10", "%2", "%1_0", "%1 1", "%.1", "%", "#", "$_1", "0", "00", "000", "4096", "65535", "65536", "// c", "/* c */", "/**/", "/* c", "* c", "# c",
        "! c", "-- c", "rem c", "REM c", "@ c", "| c", "== c", "<!-- c -->", "\\", "\\\n", "a \\\n b", "a = 5", "a := 5", "a == 5", "a equ 5", "a EQU 5", "a set 5",
        "a .equ 5", "a: equ 5", "a:: cls", "a : cls", "a:cls", "1: cls", "1: jp 1b", "jp 1f", "jp $+2", "jp *", "jp .", "a", "a b", "a b c", "cls; c", "cls ret",
        "cls : ret", "cls | ret", "cls ! ret", "cls & ret", "cls \\ ret", "cls, ret", "ld v1 2", "ld v1 = 2", "v1 = 2", "v1 := 2", "v1 += 2", "ld v1, v2, v3",
        "ld [i], v0-v3", "ld v0-v3, [i]", "ld (i), v1", "ld v1, (i)", "ld [ i ], v1", "ld [I ], v1", "ld i, [i]", "ld [i], [i]", "ld [dt], v1", "ld r1, 2",
        "ld %v1, 2", "ld $v1, 2", "ld v16, 1", "ld va, vg", "ld v 1, 2", "ld v1,, 2", "ld , v1", "ld ,", ",", ",,", ":", "::", ".", "..", "...", ". db 1", ".DB 1",
        "db 1", "dw 1", "{ cls }", "( cls )", "<cls>", "\"cls\"", "'cls'", "[cls]", "if v1 == 2 then cls", "i := 5", ": main", ":= 5", "return", "clear", "loop",
        "again", "jump 5", "jump0 5", "scroll-down 1", "hires", "lores", "audio", "pitch := 5", "save v1", "load v1", "saveflags v1", "plane 1", "bcd v1",
        "sprite v1 v2 5", ":calc a { 5 }", ":const a 5", ":alias x v1", ":org 5", ":next a", ":unpack 1 a", ":byte 5", ":breakpoint x", ":macro m { }",
        "\u{feff}", "\u{feff}cls", "\u{a0}cls", "cls\u{a0}", "cls\u{200b}", "\u{200b}", "\u{2028}", "\u{85}", "\u{c}", "\u{b}", "\r", "\u{1a}", "\u{1a}junk",
        "\u{0}", "cls\u{0}", "\u{1b}[0m", "#!", "#!/bin/c8s", "ｃｌｓ", "１", "“a”", "‘a’", "…", "–1", "×", "$١", "٣", "é", "π: cls", "v₁", "cls;", "cls ;;", ";",
        ";;", "; \\\ncls", "\";\"", "\"a\" \"b\"", "\"a\",", "\"a\"\"b\"", "1 2", "1,,2", ",1",
    ] {
        v.push(w.to_string());
    }
    v
}

fn c16(p: &mut Parts) {
    huge(p, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]);
    let seed = p.seed;
    // All sequences of up to five tokens.
    const T: &[&str] = &["cls", "a", ":", ".", "db", "equ", "1", "\"s\"", ",", "\n", ";x\n", "v1", "ld"];
    let depth = if p.env.thorough { 6 } else { 5 };
    let total: usize = (0..=depth).map(|d| T.len().pow(d as u32)).sum();
    p.sweep("every short token sequence", total, |k, _| {
        let mut k2 = k;
        let mut d = 0;
        while k2 >= T.len().pow(d) {
            k2 -= T.len().pow(d);
            d += 1;
        }
        let mut s = String::new();
        for _ in 0..d {
            if !s.is_empty() && !s.ends_with('\n') {
                s.push(' ');
            }
            s += T[k2 % T.len()];
            k2 /= T.len();
        }
        Some(run_case("full", route_k(k, 300), s))
    });
    p.sweep("every stray character", 0x110000, |k, _| {
        let c = scalar(k)?;
        let s = match if k < 0x3000 { k % 3 } else { (k / 7) % 3 } {
            0 => format!("cls\n{}\ncls\n", c),
            1 => format!("ld v1{}, 2\n", c),
            _ => format!(".db 1 {}\n", c),
        };
        Some(run_case("full", route_k(k, 2000), s))
    });
    p.sweep("every low character in places", 0x500 * 14, |k, _| {
        let c = scalar(k % 0x500)?;
        let s = match k / 0x500 {
            0 => format!("{}cls\n", c),
            1 => format!("cls{}\n", c),
            2 => format!("cls {}\n", c),
            3 => format!("ld {}v1, 2\n", c),
            4 => format!("ld v1,{}2\n", c),
            5 => format!("ld v1, 2{}\n", c),
            6 => format!("a{}: cls\n", c),
            7 => format!("a:{} cls\n", c),
            8 => format!(".{}db 1\n", c),
            9 => format!(".d{}b 1\n", c),
            10 => format!(".db{}1\n", c),
            11 => format!(".db 1{}2\n", c),
            12 => format!(".db \"a\"{}\ncls", c),
            _ => format!("{0}{0}\n.db 1\n{0}", c),
        };
        Some(run_case("full", route_k(k, 100), s))
    });
    // Everything of up to three characters, as statement, operand, argument, name.
    const ALL: usize = 97;
    p.sweep("every short text", ALL + ALL * ALL * 8 + ALL * ALL * ALL, move |k, _| {
        let ch = |k: usize| match k % ALL {
            95 => '\n',
            96 => 'é',
            k => (b' ' + k as u8) as char,
        };
        let (w, at): (String, usize) = if k < ALL {
            (ch(k).to_string(), k)
        } else if k < ALL + ALL * ALL * 8 {
            let k = k - ALL;
            ([ch(k), ch(k / ALL)].iter().collect(), k / ALL / ALL)
        } else {
            let k = k - ALL - ALL * ALL * 8;
            ([ch(k), ch(k / ALL), ch(k / ALL / ALL)].iter().collect(), mix(seed ^ 5 ^ k as u64) as usize)
        };
        let s = match at % 8 {
            0 => format!("{}\n", w),
            1 => format!("ld v1, {}\n", w),
            2 => format!(".db {}\n", w),
            3 => format!("cls {}\nret\n", w),
            4 => format!("a{} jp a\n", w),
            5 => format!(".db 1{}2\n", w),
            6 => format!("x:{}.equ 5\njp x\n", w),
            _ => format!("{}cls\na: .db 7{}\n", w, w),
        };
        Some(run_case("full", route_k(k, 1000), s))
    });
    p.sweep("every short directive name", SHORT_NAMES, |k, _| {
        let n = short_name(k);
        let s = match k % 4 {
            0 => format!(".{} 1\n", n),
            1 => format!("cls\nx: .{} 1\nret\n", n),
            2 => format!(".{}\ncls\n", n),
            _ => format!(".{} \"a\", 2\n", n),
        };
        Some(run_case("full", route_k(k, 500), s))
    });
    let list = foreign();
    let n = list.len();
    p.sweep("what other assemblers know", n * 6, move |k, _| {
        let w = &list[k % n];
        let s = match k / n {
            0 => format!("{}\n", w),
            1 => format!("a: cls\nx: {}\nret\n", w),
            2 => format!("cls {}\n", w),
            3 => format!("ld v1, {}\n", w),
            4 => format!(".db 1, {}\n", w),
            _ => format!("jp {}\na: b: c:\n", w),
        };
        Some(run_case("full", route_k(k, 20), s))
    });
    let ls = counts(&p.env.dict, 330, 1400);
    p.sweep("number of statements on one line", ls.len() * 10, move |k, _| {
        let n = ls[k / 10];
        let all = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
        let s = match k % 10 {
            0 => all(&|k| format!(".db {} ", k % 256)),
            1 => all(&|k| format!("a{k}: ")) + "x: jp a0\njp x\n",
            2 => all(&|k| format!(".org {k} .db 1 ")) + "\n",
            3 => all(&|k| format!("e{k}: .equ {k} ")) + "jp e0\n",
            4 => all(&|k| format!("a{k}: .db {}, ", k % 7)) + "\njp a0\n",
            5 => format!("cls\n{}\n.db 9\nx: jp x\n", all(&|k| format!(".db {} ", k % 256))),
            6 => format!("cls\n{} ld v1, 2 ; x\nret\n", all(&|_| ".db 5 ".into())),
            7 => format!("y:\n{}x: jp y\njp x\n", all(&|_| ".org 7 ".into())),
            8 => format!("{}\n.db 1", all(&|_| ".db 1, 2 ".into()).trim_end()),
            _ => format!("{}!\n", all(&|_| ".db 1 ".into())),
        };
        Some(run_case("full", route_k(k, 30), s))
    });
    let ns = counts(&p.env.dict, 900, 2400);
    p.sweep("number of statements", ns.len(), move |k, env| {
        let k = ns[k];
        let tp = index_tape(seed, k, 400);
        let mut t = Tape::new(&tp);
        let mut prog = Vec::new();
        for j in 0..k {
            match t.below(6) {
                0 | 1 => prog.push(instruction(&mut t, &env.dict, 0)),
                2 => prog.push(Stmt::Label(format!("s{}", j))),
                3 => {
                    prog.push(Stmt::Label(format!("e{}", j)));
                    prog.push(Stmt::equ(j as u32));
                }
                4 => prog.push(Stmt::ins("jp", vec![Op::Num(j as u32)])),
                _ => prog.push(Stmt::db(vec![Lit::Num(j as u32 % 256)])),
            }
        }
        let s = text(&mut t, &env.dict, &prog);
        Some(run_case("full", route_k(k, 20), s))
    });
    p.sweep("directive names", 40 * 3000, |k, _| {
        // One- and two-edit neighbours of the directive names, and all names of up to two letters.
        let base = ["org", "db", "equ"][k % 3];
        let j = k / 3;
        let al: Vec<char> = "abcdefghijklmnopqrstuvwxyz_0129ABCDEFGHIJKLMNOPQRSTUVWXYZ".chars().collect();
        let n = al.len();
        let mut b: Vec<char> = base.chars().collect();
        let c = al[j % n];
        let at = j / n % 4;
        let what = j / n / 4 % 4;
        let c2 = al[(j / n / 16) % n];
        match what {
            0 => b.insert(at.min(b.len()), c),
            1 => {
                let l = b.len();
                b[at % l] = c;
            }
            2 => b = vec![c, c2],
            _ => {
                b.remove(at % base.len());
                b.insert(0, c);
            }
        }
        let s: String = b.into_iter().collect();
        Some(run_case("full", route_k(k, 400), format!("x: .{} 1\ncls\n", s)))
    });
    p.random("mutated programs", 150_000, 480, |t, env| {
        let via = route(t, 4);
        let pr = profile(t);
        let prog = valid(t, &env.dict, pr);
        let s = text(t, &env.dict, &prog);
        Some(run_case("full", via, mutate(t, &env.dict, &s)))
    });
    p.random("valid programs", 60_000, 480, |t, env| {
        let via = route(t, 4);
        let pr = profile(t);
        let prog = valid(t, &env.dict, pr);
        Some(run_case("full", via, text(t, &env.dict, &prog)))
    });
    p.random("loose programs", 90_000, 320, |t, env| {
        let via = route(t, 4);
        let prog = loose(t, &env.dict, 12);
        let st = Style::draw(t);
        Some(run_case("full", via, render(t, &env.dict, &prog, st)))
    });
    p.random("one bad token", 60_000, 460, |t, env| {
        let via = route(t, 4);
        let pr = profile(t);
        let prog = valid(t, &env.dict, pr);
        let s = text(t, &env.dict, &prog);
        Some(run_case("full", via, inject_token(t, &env.dict, &s).0))
    });
    p.random("token soup", 120_000, 200, |t, env| {
        let via = route(t, 4);
        Some(run_case("full", via, soup(t, &env.dict, 24)))
    });
}

fn c17(p: &mut Parts) {
    if !crate::api::HAVE_OPCODE {
        crate::fatal("the opcode printer cannot be reached: the harness did not build against it");
    }
    p.sweep("every word", 65536, |k, _| Some(Case { kind: "api-word", via: Via::Lib, args: vec![k.to_string().into_bytes()] }));
    p.sweep("every word's text, by the command", 33, |k, _| {
        let mut s = String::new();
        for w in k * 2000..((k + 1) * 2000).min(65536) {
            if let Ok(t) = crate::api::text_of(w as u16) {
                s += &t;
                s.push('\n');
            }
        }
        let want: Vec<String> = (k * 2000..((k + 1) * 2000).min(65536))
            .map(|w| crate::api::canonical(w as u16).unwrap_or(0).to_string())
            .collect();
        Some(Case { kind: "words", via: Via::CliFile, args: vec![s.into(), want.join(" ").into_bytes()] })
    });
}

/// Splits at origins; every section starts with its own.
fn split_sections(prog: &[Stmt]) -> Vec<Vec<Stmt>> {
    let mut secs: Vec<Vec<Stmt>> = Vec::new();
    for s in prog {
        if is_org(s) || secs.is_empty() {
            secs.push(if is_org(s) { vec![] } else { vec![Stmt::org(0)] });
        }
        secs.last_mut().unwrap().push(s.clone());
    }
    secs
}

fn move_constants(t: &mut Tape, prog: &[Stmt]) -> Vec<Stmt> {
    let mut rest: Vec<Stmt> = Vec::new();
    let mut pairs: Vec<(Stmt, Stmt)> = Vec::new();
    for s in prog {
        if is_equ(s) && matches!(rest.last(), Some(Stmt::Label(_))) && t.chance(2, 3) {
            let l = rest.pop().unwrap();
            pairs.push((l, s.clone()));
        } else {
            rest.push(s.clone());
        }
    }
    for (l, e) in pairs {
        let spots: Vec<usize> = (0..=rest.len()).filter(|k| !(*k < rest.len() && is_equ(&rest[*k]))).collect();
        let at = match t.below(4) {
            0 => *spots.last().unwrap(),
            1 => spots[0],
            _ => *t.pick(&spots),
        };
        rest.insert(at, e);
        rest.insert(at, l);
    }
    rest
}

fn c18(p: &mut Parts) {
    let seed = p.seed;
    {
        // All lists of up to five small sections, against one other order.
        const S: &[&str] = &[
            ".org 0\na: cls\n", ".org 0\n", ".org 0\n.db 1, 2\n", ".org 1\n.db 7\n", ".org 2\njp a\n", ".org 2\nb:\n", ".org 2\n.db \"\"\n", ".org 4\nld i, b\n.db 3\n",
            ".org 4\nc: .equ 3\n", ".org 7\nd: .db \"0123456789abcdef\"\n", ".org 7\njp d\n", ".org $ffd\ncall c\n",
        ];
        let n = sequence_count(S.len(), if p.env.thorough { 6 } else { 5 });
        p.sweep("every few small sections", n, move |k, _| {
            let v = sequence(k, S);
            let mut w = v.clone();
            match k % 4 {
                0 => w.reverse(),
                1 if !w.is_empty() => w.rotate_left(1),
                2 if !w.is_empty() => w.rotate_right(1),
                _ => w.sort(),
            }
            if v == w {
                return None;
            }
            Some(Case { kind: "same-image", via: route_k(k, 400), args: vec![v.concat().into(), w.concat().into()] })
        });
    }
    p.random("permuted sections", 90_000, 620, |t, env| {
        let via = route(t, 3);
        let d = &env.dict;
        let pr = *t.pick(&[&SECTIONS, &TINY, &LABELS, &CONSTS]);
        let prog = valid(t, d, pr);
        let mut secs = split_sections(&prog);
        if t.chance(1, 6) && secs.len() > 1 {
            // Make two of them meet: then neither order may be accepted.
            let k = t.below(secs.len());
            let o = t.below(secs.len());
            let a = secs[o][0].clone();
            secs[k][0] = a;
            let flat: Vec<Stmt> = secs.concat();
            if let Verdict::Err(_) = assemble_ast(&flat) {
                return None;
            }
        }
        let a: Vec<Stmt> = secs.concat();
        t.shuffle(&mut secs);
        let mut b: Vec<Stmt> = secs.concat();
        if t.chance(1, 3) {
            b = move_constants(t, &b);
        }
        let sa = text(t, d, &a);
        let sb = text(t, d, &b);
        Some(Case { kind: "same-image", via, args: vec![sa.into(), sb.into()] })
    });
    p.random("moved constants", 70_000, 560, |t, env| {
        let via = route(t, 3);
        let d = &env.dict;
        let pr = *t.pick(&[&CONSTS, &CONSTS, &LABELS, &SECTIONS]);
        let prog = valid(t, d, pr);
        let other = move_constants(t, &prog);
        let sa = text(t, d, &prog);
        let sb = text(t, d, &other);
        Some(Case { kind: "same-image", via, args: vec![sa.into(), sb.into()] })
    });
    p.sweep("number of sections and labels", 300 * 3, move |k, _| {
        let n = k / 3 + 2;
        let tp = index_tape(seed, k, 800);
        let mut t = Tape::new(&tp);
        let secs: Vec<String> = (0..n)
            .map(|j| {
                let mut s = format!(".org {}\ns{}: jp s{}\n.db {}\n", j * 13, j, (j * 7 + 1) % n, j % 256);
                if j % 3 == 0 {
                    s += &format!("k{}: .equ {}\n ld i, k{}\n", j, j * 5, (j / 3 * 5 % n.div_ceil(3)) * 3);
                }
                s
            })
            .collect();
        let mut order: Vec<usize> = (0..n).collect();
        match k % 3 {
            0 => order.reverse(),
            1 => order.rotate_left(1),
            _ => t.shuffle(&mut order),
        }
        let a: String = secs.concat();
        let b: String = order.iter().map(|j| secs[*j].clone()).collect();
        Some(Case { kind: "same-image", via: route_k(k, 20), args: vec![a.into(), b.into()] })
    });
    p.sweep("two sections around every address", 4080 * 2, |k, _| {
        let a = k % 4080;
        let b = if k / 4080 == 0 { a + 7 } else { (a + 2000) % 4080 };
        if (a as i64 - b as i64).abs() < 7 || a > 4088 || b > 4088 {
            return None;
        }
        let x = format!(".org {}\nx: jp y\n ld i, x\n.db 1\n", a);
        let y = format!(".org {}\ny: call x\n jp y\n.db 2\n", b);
        Some(Case { kind: "same-image", via: route_k(k, 60), args: vec![format!("{}{}", x, y).into(), format!("{}{}", y, x).into()] })
    });
}

/// A word from the source, or one that tools commonly give a meaning to.
fn magic_word(t: &mut Tape, d: &Dict, usual: &[&str]) -> String {
    if !d.new_words.is_empty() && t.chance(1, 2) {
        t.pick(&d.new_words).clone()
    } else if !d.words.is_empty() && t.chance(1, 4) {
        t.pick(&d.words).clone()
    } else {
        t.pick(usual).to_string()
    }
}

const OUT: &[&str] = &["file", "default", "stdout", "missingdir", "isdir", "empty", "underfile", "same", "full", "abs", "sub", "dot", "odd", "ext", "noext", "dashname", "link", "dangling", "stdoutfull"];
const PRE: &[&str] = &["none", "short", "empty", "long", "hex", "longhex", "binary", "exact", "flip", "extra", "cut", "start"];
const IN: &[&str] = &["ok", "sub", "missing", "dir", "under"];
const EXTENSIONS: &[&str] = &[".s", ".S", ".asm", ".ASM", ".inc", ".txt", ".8o", ".ch8", ".c8", ".c8s", ".h", ".hex", ".bin", ".lst", ".bak", ".tmp", ".gz", ".o", ".md", "~", ".s.s", ""];
const NAMES: &[&str] = &["a", "in", "main", "test", "boot", "rom", "stdin", "con", "nul", "README", "core", "a.out", "out", "_", "0", "A", "é", ".hidden", "include", "lib", "data"];
const VARIABLES: &[&str] = &["LANG", "LC_ALL", "LC_CTYPE", "HOME", "TMPDIR", "PATH", "COLUMNS", "LINES", "TERM", "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "CI", "C8S", "C8SFLAGS", "C8S_FLAGS", "C8S_OUTPUT", "C8S_ORG", "C8S_DEBUG", "C8S_INCLUDE", "C8S_STRICT", "ASFLAGS", "DEBUG", "VERBOSE", "QUIET", "TZ", "SOURCE_DATE_EPOCH", "POSIXLY_CORRECT", "USER", "PWD", "RUST_BACKTRACE", "RUST_LOG", "RUST_MIN_STACK", "OUT", "O", "V", "EDITOR", "PAGER", "SHELL", "HOSTNAME", "LOGNAME"];
const VALUES: &[&str] = &["1", "0", "", "2", "4", "16", "true", "false", "yes", "on", "off", "always", "never", "C", "POSIX", "de_DE.UTF-8", "tr_TR.UTF-8", "x", "-", "full", "strict", "debug", "512", "0x200", "a.hex", "é", "-1", "-v", "dumb"];
const LEFT: &[&str] = &[".c8s", ".c8src", "c8s.toml", "c8s.ini", "c8s.conf", ".c8s.toml", "config", "prelude.s", "include.s", "defs.inc", "in.inc", "in.sym", "in.lst", "in.hex", "in.s.lock", ".lock", "a.hex.lock", "a.hex.tmp", "a.lst", "Makefile", ".env", "in.s.bak", "in"];
const BODIES: &[&str] = &["", "1\n", "x: .equ 5\n.db 77\n", ":00000001FF\n", "origin = 512\nstrict = true\n", "{\"origin\": 512}", "junk \u{0} junk"];

fn pick_file(t: &mut Tape, d: &Dict, usual: &[&str]) -> String {
    let w = magic_word(t, d, usual);
    if crate::scenario::file_word(&w) { w } else { "w".into() }
}

fn surroundings(t: &mut Tape, d: &Dict) -> String {
    use crate::scenario::{enc, file_word};
    let path = match t.below(3) {
        0 => t.pick(&["plain", "dot", "abs", "deep", "up", "odd", "dash", "long", "noext", "hexext", "colon", "stdin", "pieces"]).to_string(),
        1 => {
            let n = pick_file(t, d, NAMES);
            let e = if t.chance(1, 3) { magic_word(t, d, EXTENSIONS) } else { t.pick(EXTENSIONS).to_string() };
            let f = format!("{}{}", n, e);
            let f = if t.chance(1, 4) { format!("{}/{}", pick_file(t, d, NAMES).trim_start_matches('-'), f) } else { f };
            if f.split('/').all(file_word) { format!("name:{}", enc(&f)) } else { "plain".into() }
        }
        _ => "plain".into(),
    };
    let vars = match t.below(3) {
        0 => t.pick(&["keep", "clear", "odd", "bytes"]).to_string(),
        1 => {
            let n = magic_word(t, d, VARIABLES);
            let v = magic_word(t, d, VALUES);
            if n.contains('=') || n.contains('\0') || v.contains('\0') { "clear".into() } else { format!("var:{}:{}", enc(&n), enc(&v)) }
        }
        _ => "keep".into(),
    };
    let left = match t.below(4) {
        0 => t.pick(&["none", "junk", "dirs"]).to_string(),
        1 => {
            let n = pick_file(t, d, LEFT);
            let b = magic_word(t, d, BODIES);
            format!("file:{}:{}", enc(&n), enc(&b))
        }
        _ => "none".into(),
    };
    format!(
        "path={} cwd={} env={} left={} out={} prior={} prog={} file={} sh={} other={} io={}",
        path,
        t.pick(&["here", "sub"]),
        vars,
        left,
        t.pick(&["default", "file", "stdout"]),
        t.weighted(&[4, 2, 1]),
        t.pick(&["self", "link"]),
        t.pick(&["plain", "plain", "plain", "link", "mode", "exec", "ancient", "future", "time:0", "time:-1", "time:2147483648", "time:315532800"]),
        t.pick(&["no", "no", "no", "no", "no", "no", "no", "umask", "stack", "files", "stdin", "nostdin"]),
        t.pick(&["0", "0", "0", "1"]),
        t.pick(&["pipe", "pipe", "pipe", "tty", "file"])
    )
}

fn some_text(t: &mut Tape, d: &Dict) -> Vec<u8> {
    let s = some_text_as_is(t, d);
    // Marks that tools look for at either end of a file.
    match t.below(12) {
        0 => [magic_word(t, d, &["#!", "\u{feff}", "; -*- asm -*-", ";", "\n", "\0", "%", "; c8s: ", "#", "//"]).into_bytes(), s].concat(),
        1 => [s, magic_word(t, d, &["\u{1a}", "\0", ";", "\n\n", "end", ".end", "\r"]).into_bytes()].concat(),
        _ => s,
    }
}

fn some_text_as_is(t: &mut Tape, d: &Dict) -> Vec<u8> {
    let pr = profile(t);
    match t.below(7) {
        0..=2 => {
            let prog = valid(t, d, pr);
            text(t, d, &prog).into_bytes()
        }
        3 => {
            let mut prog = valid(t, d, pr);
            inject(t, d, &mut prog);
            let st = Style::draw(t);
            render(t, d, &prog, st).into_bytes()
        }
        4 => {
            let prog = valid(t, d, pr);
            let s = text(t, d, &prog);
            mutate(t, d, &s).into_bytes()
        }
        5 => {
            let n = 2 + t.below(4);
            let v: Vec<(usize, usize)> = (0..n).map(|_| (t.below(60), t.below(20))).collect();
            sections_text(&v, false).into_bytes()
        }
        _ => soup(t, d, 20).into_bytes(),
    }
}

fn c19(p: &mut Parts) {
    p.sweep("each surrounding against the plain one", 13 * 2 * 4 * 3 * 3 * 2 * 2, |k, _| {
        let mut k2 = k;
        let mut take = |n: usize| {
            let r = k2 % n;
            k2 /= n;
            r
        };
        let s = format!(
            "path={} cwd={} env={} left={} out={} prior={} prog={} io={}",
            ["plain", "dot", "abs", "deep", "up", "odd", "dash", "long", "noext", "hexext", "colon", "stdin", "pieces"][take(13)],
            ["here", "sub"][take(2)],
            ["keep", "clear", "odd", "bytes"][take(4)],
            ["none", "junk", "dirs"][take(3)],
            ["default", "file", "stdout"][take(3)],
            take(2),
            ["self", "link"][take(2)],
            ["pipe", "tty", "file"][(k / 7) % 3]
        );
        let progs = ["a: ld v1, 3\n.db \"é\", 2\njp z\n.org 512\nz: cls\n", "  jp nowhere\n", ".db 1,2\n.org 1\n.db 2\n", ".db 1\n !\n", "x: y: z: .equ 4\nld v1, z\njp x\njp y\n", ".db", ""];
        Some(Case {
            kind: "env",
            via: Via::CliFile,
            args: vec![progs[k % progs.len()].into(), b"path=plain cwd=here env=keep left=none out=default prior=0 prog=self".to_vec(), s.into_bytes()],
        })
    });
    p.random("random texts and surroundings", 7000, 460, |t, env| {
        let a = surroundings(t, &env.dict);
        let b = surroundings(t, &env.dict);
        let s = some_text(t, &env.dict);
        Some(Case { kind: "env", via: Via::CliFile, args: vec![s, a.into_bytes(), b.into_bytes()] })
    });
    // Many labels and sections: anything that follows the order of a hash table shows up.
    p.random("order of tables", 1500, 200, |t, env| {
        let d = &env.dict;
        let n = 5 + t.below(120);
        let mut s = String::new();
        match t.below(4) {
            0 => {
                for j in 0..n {
                    s += &format!(".org {}\nl{}: jp l{}\n", j * 4, j, (j * 3) % n);
                }
            }
            1 => {
                // Many faults of one kind: always the same one is reported.
                for j in 0..n {
                    s += &format!("jp none{}\n", j);
                }
            }
            2 => {
                for j in 0..n {
                    s += &format!(".org {}\n.db 1,2\n", (j * 5) % 40);
                }
            }
            _ => {
                for j in 0..n {
                    s += &format!("d{}:\n", j % (n / 2 + 1));
                }
            }
        }
        let (a, b) = (surroundings(t, d), surroundings(t, d));
        Some(Case { kind: "env", via: Via::CliFile, args: vec![s.into_bytes(), a.into_bytes(), b.into_bytes()] })
    });
}

fn c20(p: &mut Parts) {
    const WORDS: &[&str] = &[
        "in.s", "-o", "out.hex", "-h", "--help", "-v", "--version", "--output", "--output=out.hex", "-oout.hex", "-", "--", "two.s", "-x", "--bogus", "missing.s",
    ];
    let n = WORDS.len();
    let total = 1 + n + n * n + n * n * n;
    p.sweep("every list of up to three arguments", total, |k, _| {
        let n = WORDS.len();
        let mut k2 = k;
        let mut d = 0;
        while k2 >= n.pow(d) {
            k2 -= n.pow(d);
            d += 1;
        }
        let mut args: Vec<Vec<u8>> = vec![if k % 2 == 0 { b"old".to_vec() } else { b"new".to_vec() }];
        for _ in 0..d {
            args.push(WORDS[k2 % n].as_bytes().to_vec());
            k2 /= n;
        }
        Some(Case { kind: "argv", via: Via::CliFile, args })
    });
    p.random("random argument lists", 16_000, 60, |t, env| {
        let mut args: Vec<Vec<u8>> = vec![if t.below(2) == 0 { b"old".to_vec() } else { b"new".to_vec() }];
        let n = t.below(7);
        for _ in 0..n {
            let w: String = match t.weighted(&[6, 3, 3, 2, 2, 2, 1, 1]) {
                0 => t.pick(&["in.s", "two.s", "bad.s", "empty.s", "d/in.s", "a.s", "sp ace.s", "é.s", "missing.s", "d", "o", "@in.s", "~", "%20.s", "$HOME", "in.s,two.s", "in", "IN.S", "file:in.s", "+x"]).to_string(),
                1 => t.pick(&["-o", "--output"]).to_string(),
                2 => t.pick(&["out.hex", "a.hex", "-", "d/x.hex", "nodir/x.hex", "d", "out é.hex", "-x.s", "h", "v"]).to_string(),
                3 => t.pick(&["-h", "-v", "--help", "--version", "-hv", "-vh", "-hh", "-vv"]).to_string(),
                4 => {
                    let f = t.pick(&["out.hex", "-", "d/y.hex", "", "a b", "d", "x=y", "é", "--help"]).to_string();
                    match t.below(2) {
                        0 => format!("--output={}", f),
                        _ => {
                            if f.is_empty() || f.starts_with('=') {
                                "-o".into()
                            } else {
                                format!("-o{}", f)
                            }
                        }
                    }
                }
                5 => t.pick(&["-x", "--bogus", "--out", "--ou=1", "-ho", "-vo", "-vx", "-hoout.hex", "--help=1", "--version=2", "-é", "--é", "-O", "-H", "-V", "--Help", "-?", "--output=", "---", "--=", "-1"]).to_string(),
                6 => t.pick(&["--", "-", "", "*", "~", "in.s "]).to_string(),
                _ => {
                    // Words of the source as options or names (no paths, and no abbreviation of an option).
                    let w = pick_file(t, &env.dict, &["list", "l", "verbose", "quiet", "q", "format", "bin", "force", "f", "debug", "D", "I", "O", "Wall", "E", "c", "S", "target", "x", "symbols", "stdin"]);
                    let short = |n: &str| ["output", "help", "version"].iter().any(|o| o.starts_with(n.split('=').next().unwrap_or("")));
                    match t.below(4) {
                        0 if !short(&w) => format!("--{}", w),
                        1 if !w.starts_with(|c| c == '-' || c == 'o' || c == 'h' || c == 'v') => format!("-{}", w),
                        2 if !w.starts_with('-') => w,
                        _ if w.starts_with("--") && !short(&w[2..]) => w,
                        _ => "-x".into(),
                    }
                }
            };
            args.push(w.into_bytes());
        }
        if t.chance(1, 25) {
            let at = 1 + t.below(args.len());
            let bad: &[u8] = t.pick(&[&b"\xff"[..], b"in\xfe.s", b"-o\xff", b"--output=\xff.hex", b"-\xff", b"--\xff"]);
            args.insert(at, bad.to_vec());
        }
        Some(Case { kind: "argv", via: Via::CliFile, args })
    });
    p.random("well-formed command lines", 8_000, 40, |t, _| {
        // One input, one output option in any spelling and any place.
        let input = t.pick(&["in.s", "two.s", "sp ace.s", "é.s", "d/in.s", "a.s", "empty.s", "bad.s", "o", "@in.s", "~", "%20.s", "$HOME", "in.s,two.s", "in", "IN.S", "file:in.s", "+x"]).to_string();
        let out = t.pick(&["out.hex", "-", "d/x.hex", "a.hex", "with space", "é.hex", "o=p", "x.s", "-dash", "@x", "+x", "~x", "$x", "%x", "x,y", "|cat", ">x", "&", "x:y", "*", "{}", "x;y"]).to_string();
        let mut groups: Vec<Vec<String>> = Vec::new();
        match t.below(5) {
            0 => {}
            1 => groups.push(vec!["-o".into(), out]),
            2 => groups.push(vec![format!("-o{}", out)]),
            3 => groups.push(vec!["--output".into(), out]),
            _ => groups.push(vec![format!("--output={}", out)]),
        }
        if t.chance(1, 6) {
            groups.push(vec![t.pick(&["-h", "--help", "-v", "--version"]).to_string()]);
        }
        groups.push(vec![input]);
        t.shuffle(&mut groups);
        let mut args: Vec<Vec<u8>> = vec![if t.below(2) == 0 { b"old".to_vec() } else { b"new".to_vec() }];
        args.extend(groups.concat().into_iter().map(|s| s.into_bytes()));
        Some(Case { kind: "argv", via: Via::CliFile, args })
    });
}

// ------------------------------------------------------------- several faults

/// Statements with one fault each (and what is needed for it), of every phase.
const FAULTS: &[&str] = &[
    "!", "4096", "\"s\"", ", 1", ":", ".", "ld v1,, 2", ".db 1 2", ".db nope", "ld v1 v2", "%1111111111111", "[j]", "$", "jp \"s\"",
    ".db 256", ".db", ".org 1, 2", ".org \"1\"", ".dw 1", ".equ 5", "dup: dup:", ".org $ffe cls\ncls", ".org $fff .db 1, 2", "bad: .equ \"x\"",
    "foo v1", "jp v1, 2", "cls 1", "ld v1, 256", "drw v1, v2, 16", "jp nowhere", "ld v1, missing", ".org $300 .db 7 .org $300 .db 7", ".org $400 .db \"a\" .org $3ff .db 1, 2",
];

fn c21(p: &mut Parts) {
    let m = FAULTS.len();
    // Pairs, with various things around them.
    let fill: &'static [&'static str] = &["", "cls\n", ".db 1\n", "; c\n\n", "q: .equ 5\n", ".db \"é\n\"\n", ".org $100 cls\n", "cls\nret\nnop\n"];
    let f = fill.len();
    p.sweep("every two faults", m * m * f * f, move |k, _| {
        let (a, b) = (FAULTS[k % m], FAULTS[k / m % m]);
        let (x, y) = (fill[k / m / m % f], fill[k / m / m / f]);
        let y = if x == y { y.replace("q:", "r:") } else { y.to_string() };
        Some(run_case("first-fault", route_k(k, 300), format!("{x}{a}\n{y}{b}\n")))
    });
    p.sweep("every three faults", m * m * m, move |k, _| {
        let (a, b, c) = (FAULTS[k % m], FAULTS[k / m % m], FAULTS[k / m / m]);
        Some(run_case("first-fault", route_k(k, 300), format!("start: cls\n{a}\n{b}\n  {c}\n")))
    });
    statements(p, "every short program", "first-fault", true, &["a:", "jp z", ".db 256", "foo", ".equ 1", ".org $ffe", "cls", "ld v1, 256", "!", ".org 0", ".db 1", ".dw"], 5);
    let ns = counts(&p.env.dict, 300, 5_000);
    let kinds: &'static [usize] = &[0, 7, 14, 18, 19, 20, 22, 24, 27, 29, 31];
    let q = kinds.len();
    p.sweep("distance of two faults", ns.len() * q * q, move |k, _| {
        let n = ns[k / q / q];
        // Far apart: every third only.
        if n > 600 && k % 3 != 0 {
            return None;
        }
        let (a, b) = (FAULTS[kinds[k % q]], FAULTS[kinds[k / q % q]]);
        let line = ["cls\n", "\n", "q: .org 0\n", ".db 1\n", "; c\n"][n % 5];
        // At most so much memory; the rest in lines that emit nothing.
        let body: String = (0..n).map(|j| if j < 300 { if line.starts_with('q') { format!("q{}:\n", j) } else { line.to_string() } } else { ";\n".into() }).collect();
        Some(run_case("first-fault", route_k(k, 300), format!("{a}\n{body}{b}\n")))
    });
    p.sweep("number of faults", ns_faults(p) * 4, |k, env| {
        let n = counts(&env.dict, 300, 5_000)[k / 4];
        let s = match k % 4 {
            0 => "jp nowhere\n".repeat(n),
            1 => ".db 256\n".repeat(n),
            2 => format!("cls\n{}", (0..n).map(|j| format!(" foo{}\n", j)).collect::<String>()),
            _ => format!("a:\n{}", (0..n).map(|j| format!(" a: jp u{}\n", j)).collect::<String>()),
        };
        Some(run_case("first-fault", route_k(k, 60), s))
    });
    p.random("several faults in programs", 60_000, 500, |t, env| {
        let via = route(t, 4);
        let pr = profile(t);
        let mut prog = valid(t, &env.dict, pr);
        for _ in 0..1 + t.below(5) {
            inject(t, &env.dict, &mut prog);
        }
        let st = Style::draw(t);
        let s = render(t, &env.dict, &prog, st);
        Some(run_case("first-fault", via, s))
    });
    p.random("several stray tokens", 60_000, 460, |t, env| {
        let via = route(t, 4);
        let pr = profile(t);
        let mut prog = valid(t, &env.dict, pr);
        if t.chance(1, 2) {
            inject(t, &env.dict, &mut prog);
        }
        let mut s = text(t, &env.dict, &prog);
        for _ in 0..1 + t.below(4) {
            s = inject_token(t, &env.dict, &s).0;
        }
        Some(run_case("first-fault", via, s))
    });
    p.random("fault statements shuffled in", 60_000, 460, |t, env| {
        let via = route(t, 4);
        let pr = profile(t);
        let prog = valid(t, &env.dict, pr);
        let s = text(t, &env.dict, &prog);
        let mut lines: Vec<String> = s.split('\n').map(|l| l.to_string()).collect();
        for _ in 0..1 + t.below(5) {
            let at = t.below(lines.len() + 1);
            lines.insert(at, t.pick(FAULTS).to_string());
        }
        Some(run_case("first-fault", via, lines.join("\n")))
    });
    p.random("soup and mutations", 60_000, 400, |t, env| {
        let via = route(t, 4);
        let s = if t.chance(1, 3) {
            soup(t, &env.dict, 30)
        } else {
            let pr = profile(t);
            let prog = valid(t, &env.dict, pr);
            let mut s = text(t, &env.dict, &prog);
            for _ in 0..1 + t.below(4) {
                s = mutate(t, &env.dict, &s);
            }
            s
        };
        Some(run_case("first-fault", via, s))
    });
}

fn ns_faults(p: &Parts) -> usize {
    counts(&p.env.dict, 300, 5_000).len()
}

fn c22(p: &mut Parts) {
    p.sweep("every illegal character", 0x110000, |k, _| {
        let c = scalar(k)?;
        // Dense where languages are, thin elsewhere.
        if k > 0x3000 && k % 5 != 0 {
            return None;
        }
        Some(run_case("says", route_k(k, 1500), format!(" {}\n", c)))
    });
    p.sweep("every value that does not fit", 4096 * 6, |k, _| {
        let v = k % 4096;
        let s = match k / 4096 {
            0 => format!("ld v1, {}\n", v),
            1 => format!("x: .equ {}\nadd v1, x\n", v),
            2 => format!("drw v1, v2, ${:x}\n", v),
            3 => format!(".db 1, {}\n", v),
            4 => format!(".org {}\nx: rnd vf, x\n", v),
            _ => format!("cls\n {}\n", v),
        };
        Some(run_case("says", route_k(k, 150), s))
    });
    let ns = counts(&p.env.dict, 300, 5_000);
    p.sweep("long names and literals", ns.len() * 8, move |k, _| {
        let n = ns[k / 8];
        let w = "n".repeat(n);
        let s = match k % 8 {
            0 => format!("jp {w}\n"),
            1 => format!("{w} v1\n"),
            2 => format!(".{w} 1\n"),
            3 => format!("{w}: cls\n{w}: ret\n"),
            4 => format!("ld v1, 9{}\n", "9".repeat(n)),
            5 => format!("cls \"{w}\"\n"),
            6 => format!("\"{w}\"\n"),
            _ => format!(".db {w}\n"),
        };
        Some(run_case("says", route_k(k, 60), s))
    });
    p.sweep("every short name", sequence_count(26 + 26 + 10 + 1, 3) , |k, _| {
        const C: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
        let (mut k2, mut d) = (k, 0u32);
        while k2 >= C.len().pow(d) {
            k2 -= C.len().pow(d);
            d += 1;
        }
        let mut w = String::new();
        for _ in 0..d {
            w.push(C[k2 % C.len()] as char);
            k2 /= C.len();
        }
        if w.is_empty() {
            return None;
        }
        let s = match k % 5 {
            0 => format!("jp {w}\n"),
            1 => format!("{w} v1, 2\n"),
            2 => format!(".{w} 1\n"),
            3 => format!("{w}: {w}:\n"),
            _ => format!(".db 1, {w}\n"),
        };
        Some(run_case("says", route_k(k, 800), s))
    });
    p.sweep("every two faults", FAULTS.len() * FAULTS.len() * 2, |k, _| {
        let m = FAULTS.len();
        let via = [Via::CliFile, Via::CliStdout][k / m / m];
        Some(run_case("says", via, format!("cls\n{}\n{}\n", FAULTS[k % m], FAULTS[k / m % m])))
    });
    p.random("programs, by the command", 4_000, 460, |t, env| {
        let via = if t.chance(1, 2) { Via::CliFile } else { Via::CliStdout };
        let s = some_text(t, &env.dict);
        Some(Case { kind: "says", via, args: vec![s] })
    });
    p.random("one fault in a program", 80_000, 460, |t, env| {
        let via = route(t, 4);
        let pr = profile(t);
        let mut prog = valid(t, &env.dict, pr);
        inject(t, &env.dict, &mut prog);
        let st = Style::draw(t);
        let s = render(t, &env.dict, &prog, st);
        Some(run_case("says", via, s))
    });
    p.random("one stray token in a program", 80_000, 460, |t, env| {
        let via = route(t, 4);
        let pr = profile(t);
        let prog = valid(t, &env.dict, pr);
        let s = text(t, &env.dict, &prog);
        let (s, _) = inject_token(t, &env.dict, &s);
        Some(run_case("says", via, s))
    });
    const SAID: &[&[u8]] = &[b".db 1\n", b"", b"; nothing\n", b"jp nowhere\n", b".db 1\n.org 0\n.db 2\n", b"cls\xff\n", b"ld v0,\n\"", b"x:"];
    p.sweep("files that can and cannot be read or written", SAID.len() * OUT.len() * IN.len(), |k, _| {
        let out = OUT[k % OUT.len()];
        let k = k / OUT.len();
        let inp = IN[k % IN.len()];
        if out == "same" && inp != "ok" && inp != "sub" {
            return None;
        }
        let order = if k % 2 == 0 { "first" } else { "last" };
        Some(Case { kind: "fs", via: Via::CliFile, args: vec![SAID[k / IN.len()].to_vec(), format!("in={} out={} pre={} order={} say=1", inp, out, PRE[k % PRE.len()], order).into_bytes()] })
    });
    p.sweep("write errors part-way", 24, |k, _| {
        let n = [1usize, 900, 2000, 4095][k % 4];
        Some(Case { kind: "fs", via: Via::CliFile, args: vec![big_program(n).into_bytes(), format!("in=ok out={} pre={} order=first fsize=1 say=1", if k % 2 == 0 { "file" } else { "default" }, PRE[k / 4 % PRE.len()]).into_bytes()] })
    });
    p.random("command lines", 3_000, 200, |t, env| {
        // A failing or informative command line speaks on standard output only.
        let n = t.below(4);
        let mut args = vec![b"said".to_vec()];
        for _ in 0..n {
            args.push(magic_word(t, &env.dict, &["in.s", "-h", "-v", "-o", "-", "x.hex", "--nope", "-z", "missing.s", "--", "--help", "--output=o", "d"]).into_bytes());
        }
        Some(Case { kind: "argv", via: Via::CliFile, args })
    });
}
