//! Coverage-guided search: the property's own generators, fed with mutated
//! tapes (and, where the oracle can judge any text, mutated texts) of cases
//! that reached branches or comparison outcomes not seen before.

use crate::case::{Case, Env, Eval};
use crate::cov;
use crate::driver::{count, judge, mix, Found, Gen, Local, REDUCIBLE};
use crate::gen::{mutate, name, num};
use crate::model::{lex, Tok};
use crate::tape::Tape;
use crate::target::Via;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, RwLock};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub enum Input {
    Tape(usize, u32, Vec<u32>),
    Text(Case),
}

struct Entry {
    input: Input,
    /// The text, if it may be changed freely.
    text: Option<Case>,
    used: usize,
    rare: u32,
}

pub struct Shared {
    pub seen: cov::Seen,
    corpus: RwLock<Vec<Arc<Entry>>>,
}

impl Shared {
    pub fn new() -> Shared {
        Shared { seen: cov::Seen::new(), corpus: RwLock::new(Vec::new()) }
    }
    pub fn size(&self) -> usize {
        self.corpus.read().unwrap().len()
    }
}

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed))
    }
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 32) as usize * n.max(1)) >> 32
    }
}

fn fresh(r: &mut Rng, gens: &[(usize, Gen)]) -> Input {
    let g = r.below(gens.len());
    let max = gens[g].0;
    let n = max / 8 + r.below(max);
    Input::Tape(g, r.next() as u32, (0..n).map(|_| r.next() as u32).collect())
}

fn mutate_tape(r: &mut Rng, tape: &mut Vec<u32>, tail: &mut u32, used: usize, other: Option<&[u32]>) {
    let ops = 1 + [0, 0, 0, 1, 1, 2, 3, 6][r.below(8)];
    for _ in 0..ops {
        let n = tape.len().min(used.max(1));
        if n == 0 {
            tape.push(r.next() as u32);
            continue;
        }
        let at = r.below(n);
        let most = [1, 2, 4, 16][r.below(4)];
        let len = 1 + r.below(most);
        let end = (at + len).min(tape.len());
        match r.below(12) {
            0..=3 => tape[at] = r.next() as u32,
            4 => {
                // A neighbouring choice.
                let bit = 1u32 << (12 + r.below(20));
                tape[at] = if r.below(2) == 0 { tape[at].wrapping_add(bit) } else { tape[at].wrapping_sub(bit) };
            }
            5 => tape[at] = [0, u32::MAX, 1 << 31][r.below(3)],
            6 => {
                tape.drain(at..end);
            }
            7 => {
                for _ in 0..len {
                    tape.insert(at, r.next() as u32);
                }
            }
            8 => {
                // The same choices again.
                let run: Vec<u32> = tape[at..end].to_vec();
                let to = r.below(tape.len() + 1);
                for (k, v) in run.into_iter().enumerate() {
                    tape.insert((to + k).min(tape.len()), v);
                }
            }
            9 => {
                for x in &mut tape[at..end] {
                    *x = r.next() as u32;
                }
            }
            10 => {
                if let Some(o) = other {
                    if !o.is_empty() {
                        let from = r.below(o.len());
                        let m = 1 + r.below(o.len() - from);
                        if r.below(2) == 0 {
                            tape.truncate(at);
                            tape.extend_from_slice(&o[from..]);
                        } else {
                            for (k, v) in o[from..from + m].iter().enumerate() {
                                if at + k < tape.len() {
                                    tape[at + k] = *v;
                                }
                            }
                        }
                    }
                }
            }
            _ => *tail = r.next() as u32,
        }
        tape.truncate(4000);
    }
}

/// Changes lines, numbers and names of a text.
fn mutate_text(r: &mut Rng, env: &Env, text: &str, other: Option<&str>) -> String {
    let mut s = text.to_string();
    for _ in 0..1 + [0, 0, 1, 2][r.below(4)] {
        let buf: Vec<u32> = (0..24).map(|_| r.next() as u32).collect();
        let mut t = Tape::with_tail(&buf, r.next() as u32 | 1);
        let mut lines: Vec<String> = s.split_inclusive('\n').map(|x| x.to_string()).collect();
        let n = lines.len();
        match r.below(10) {
            0 if n > 0 => {
                lines.remove(r.below(n));
                s = lines.concat();
            }
            1 if n > 0 => {
                let l = lines[r.below(n)].clone();
                let l = if l.ends_with('\n') { l } else { l + "\n" };
                let times = [1, 1, 2, 3, 8, 40][r.below(6)];
                let at = r.below(n + 1);
                for _ in 0..times {
                    lines.insert(at, l.clone());
                }
                s = lines.concat();
            }
            2 if n > 1 => {
                let (a, b) = (r.below(n), r.below(n));
                lines.swap(a, b);
                s = lines.concat();
            }
            3 => {
                if let Some(o) = other {
                    let ol: Vec<&str> = o.split_inclusive('\n').collect();
                    if !ol.is_empty() {
                        let from = r.below(ol.len());
                        let m = 1 + r.below((ol.len() - from).min(6));
                        let at = r.below(n + 1);
                        if at > 0 && !lines[at - 1].ends_with('\n') {
                            lines[at - 1].push('\n');
                        }
                        for (k, l) in ol[from..from + m].iter().enumerate() {
                            lines.insert(at + k, l.to_string());
                        }
                        s = lines.concat();
                    }
                }
            }
            4 | 5 => {
                // Another number.
                let toks = lex(&s);
                let nums: Vec<(usize, usize, u32)> = toks.iter().filter_map(|k| if let Tok::Num(v) = &k.tok { Some((k.start, k.end, *v)) } else { None }).collect();
                if !nums.is_empty() {
                    let (a, b, v) = nums[r.below(nums.len())];
                    let w = match r.below(5) {
                        0 => v.saturating_add(1),
                        1 => v.saturating_sub(1),
                        2 => nums[r.below(nums.len())].2,
                        3 => v ^ (1 << r.below(12)),
                        _ => num(&mut t, &env.dict, 4095),
                    };
                    s.replace_range(a..b, &w.to_string());
                }
            }
            6 => {
                // Another name, here or everywhere.
                let toks = lex(&s);
                let ids: Vec<(usize, usize)> = toks.iter().filter(|k| matches!(k.tok, Tok::Ident(_))).map(|k| (k.start, k.end)).collect();
                if !ids.is_empty() {
                    let (a, b) = ids[r.below(ids.len())];
                    let old = s[a..b].to_string();
                    let new = if r.below(3) == 0 {
                        let (c, d) = ids[r.below(ids.len())];
                        s[c..d].to_string()
                    } else {
                        name(&mut t, &env.dict, &[old.clone()])
                    };
                    if r.below(2) == 0 {
                        s.replace_range(a..b, &new);
                    } else {
                        for (c, d) in ids.iter().rev() {
                            if s[*c..*d] == old {
                                s.replace_range(*c..*d, &new);
                            }
                        }
                    }
                }
            }
            _ => s = mutate(&mut t, &env.dict, &s),
        }
        if s.len() > 30_000 {
            return text.to_string();
        }
    }
    s
}

fn make(env: &Env, gens: &[(usize, Gen)], i: &Input) -> Result<Option<(Case, usize)>, String> {
    match i {
        Input::Text(c) => Ok(Some((c.clone(), 0))),
        Input::Tape(g, tail, data) => {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut t = Tape::with_tail(data, *tail);
                let c = gens[*g].1(&mut t, env);
                c.map(|c| (c, t.used()))
            }));
            match r {
                Err(_) => Err(format!("generator: {}", crate::target::take_panic())),
                Ok(x) => Ok(x.map(|(mut c, n)| {
                    c.via = Via::Lib;
                    (c, n)
                })),
            }
        }
    }
}

fn free_text(c: &Case) -> bool {
    c.args.len() == 1 && REDUCIBLE.contains(&c.kind) && c.kind != "reject" && std::str::from_utf8(&c.args[0]).is_ok()
}

pub fn worker(env: &Env, seed: u64, shard: usize, time: Duration, gens: &[(usize, Gen)], sh: &Shared, stop: &AtomicBool) -> (Local, Option<Found>) {
    let mut r = Rng::new(seed ^ (shard as u64) << 40);
    let mut l = Local::default();
    let t0 = Instant::now();
    let mut found = None;
    let mut execs = 0u64;
    while t0.elapsed() < time && !stop.load(Ordering::Relaxed) && !env.run.too_many_runaways() {
        execs += 1;
        let size = sh.size();
        let input = if size == 0 || execs < 200 || r.below(6) == 0 {
            fresh(&mut r, gens)
        } else {
            let pick = |r: &mut Rng| -> Arc<Entry> {
                let c = sh.corpus.read().unwrap();
                let n = c.len();
                match r.below(3) {
                    0 => c[r.below(n)].clone(),
                    1 => {
                        let k = n.min(200);
                        c[n - k + r.below(k)].clone()
                    }
                    _ => {
                        // The one with the rarest branch of a few.
                        let mut best = c[r.below(n)].clone();
                        for _ in 0..7 {
                            let e = &c[r.below(n)];
                            if sh.seen.times(e.rare) < sh.seen.times(best.rare) {
                                best = e.clone();
                            }
                        }
                        best
                    }
                }
            };
            let e = pick(&mut r);
            let o = pick(&mut r);
            if let (Some(c), true) = (&e.text, matches!(e.input, Input::Text(_)) || r.below(2) == 0) {
                let other = o.text.as_ref().and_then(|c| std::str::from_utf8(&c.args[0]).ok());
                let s = std::str::from_utf8(&c.args[0]).unwrap_or("");
                let mut c2 = c.clone();
                c2.args[0] = mutate_text(&mut r, env, s, other).into_bytes();
                Input::Text(c2)
            } else if let Input::Tape(g, tail, data) = &e.input {
                let (mut tail, mut data) = (*tail, data.clone());
                let other = match &o.input {
                    Input::Tape(h, _, d) if h == g => Some(d.as_slice()),
                    _ => None,
                };
                mutate_tape(&mut r, &mut data, &mut tail, e.used, other);
                Input::Tape(*g, tail, data)
            } else {
                fresh(&mut r, gens)
            }
        };
        let (c, used) = match make(env, gens, &input) {
            Ok(Some(x)) => x,
            Ok(None) => {
                l.none += 1;
                continue;
            }
            Err(m) => {
                l.bad(m);
                continue;
            }
        };
        cov::begin();
        let e = match judge(env, &c) {
            Err(m) => {
                // A changed text outside the oracle's domain; a generated case must be inside.
                if matches!(input, Input::Text(_)) {
                    l.none += 1;
                } else {
                    l.bad(m);
                }
                continue;
            }
            Ok(e) => e,
        };
        count(&mut l, &c, &e, shard == 0);
        if let Some(w) = e.viol {
            stop.store(true, Ordering::Relaxed);
            let (c, w) = shrink(env, gens, input, c, w);
            found = Some(Found(c, w));
            break;
        }
        let (strong, weak, rare) = sh.seen.merge();
        if strong + weak > 0 {
            let text = if free_text(&c) { Some(c) } else { None };
            sh.corpus.write().unwrap().push(Arc::new(Entry { input, text, used, rare }));
        }
    }
    cov::end();
    (l, found)
}

/// Shortens and zeroes the tape while the case still fails.
fn shrink(env: &Env, gens: &[(usize, Gen)], i: Input, c: Case, w: String) -> (Case, String) {
    cov::end();
    let (g, mut tail, mut data) = match i {
        Input::Tape(g, tail, data) => (g, tail, data),
        _ => return (c, w),
    };
    let mut best = (c, w);
    let t0 = Instant::now();
    let mut budget = 1200;
    let mut attempt = |tail: u32, data: &[u32], best: &mut (Case, String)| -> bool {
        if budget == 0 || t0.elapsed().as_secs() > 40 {
            return false;
        }
        budget -= 1;
        match make(env, gens, &Input::Tape(g, tail, data.to_vec())) {
            Ok(Some((c, _))) => match judge(env, &c) {
                Ok(Eval { viol: Some(w), .. }) => {
                    *best = (c, w);
                    true
                }
                _ => false,
            },
            _ => false,
        }
    };
    if attempt(0, &data, &mut best) {
        tail = 0;
    }
    let mut size = data.len().div_ceil(2).max(1);
    loop {
        let mut at = 0;
        while at < data.len() {
            let end = (at + size).min(data.len());
            let mut cut = data.clone();
            cut.drain(at..end);
            if attempt(tail, &cut, &mut best) {
                data = cut;
                continue;
            }
            if data[at..end].iter().any(|x| *x != 0) {
                let mut zero = data.clone();
                zero[at..end].iter_mut().for_each(|x| *x = 0);
                if attempt(tail, &zero, &mut best) {
                    data = zero;
                }
            }
            at = end;
        }
        if size == 1 {
            break;
        }
        size = size.div_ceil(2);
    }
    best
}
