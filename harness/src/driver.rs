//! Runs the parts of a check: generated cases through proptest (which shrinks
//! failures), and enumerated sweeps; collects what was covered.

use crate::case::{self, Case, Env, Eval};
use crate::{cov, guided};
use crate::tape::Tape;
use proptest::collection::vec;
use proptest::prelude::any;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Gen = Box<dyn Fn(&mut Tape, &Env) -> Option<Case> + Send + Sync>;
pub type Make = Box<dyn Fn(usize, &Env) -> Option<Case> + Send + Sync>;

pub enum How {
    /// Cases drawn by proptest: number, longest tape, generator.
    Random(usize, usize, Gen),
    /// Cases 0..n, all of them.
    Sweep(usize, Make),
    /// Coverage-guided search over the tapes of generators (longest tape, generator), for so many seconds.
    Guided(u64, Vec<(usize, Gen)>),
}

pub struct Part {
    pub name: &'static str,
    pub how: How,
}

pub const THREADS: usize = 8;
const STACK: usize = 512 << 20;

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<(String, String)>,
    pub parts: Vec<(String, u64, u64, f64)>,
}

pub struct Failure {
    pub part: String,
    pub case: Case,
    pub what: String,
}

pub enum Outcome {
    Held,
    Violated(Failure),
    Internal(String),
}

#[derive(Default)]
pub struct Local {
    n: u64,
    pub none: u64,
    /// Cases left out because the time was up.
    late: u64,
    /// Cases the harness could not make or judge, and why the first.
    bad: u64,
    why_bad: Option<String>,
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

fn hash_case(c: &Case) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    c.kind.hash(&mut h);
    c.args.hash(&mut h);
    h.finish()
}

pub fn show_case(c: &Case) -> String {
    let mut s = format!("{} via {}:", c.kind, c.via.name());
    for a in &c.args {
        let t = String::from_utf8_lossy(a);
        let cut: String = t.chars().take(260).collect();
        s += &format!(" {:?}", cut);
        if cut.len() < t.len() {
            s += &format!("…({} bytes)", a.len());
        }
    }
    s
}

pub fn count(l: &mut Local, c: &Case, e: &Eval, keep: bool) {
    l.n += 1;
    for k in &e.classes {
        *l.classes.entry(k).or_insert(0) += 1;
    }
    if e.nontrivial && l.distinct.insert(hash_case(c)) && keep && l.samples.len() < 3 {
        l.samples.push(show_case(c));
    }
}

/// splitmix64, to derive seeds (not to make choices in generators).
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn seed_of(seed: u64, text: &str, shard: usize) -> [u8; 32] {
    let mut h = seed;
    for b in text.bytes() {
        h = mix(h ^ b as u64);
    }
    h = mix(h ^ (shard as u64) << 32);
    let mut out = [0u8; 32];
    for k in 0..4 {
        h = mix(h);
        out[8 * k..8 * k + 8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

/// A tape that is a function of the seed and an index, for the layout of swept cases.
pub fn index_tape(seed: u64, idx: usize, n: usize) -> Vec<u32> {
    let mut h = mix(seed ^ mix(idx as u64));
    (0..n)
        .map(|_| {
            h = mix(h);
            (h >> 16) as u32
        })
        .collect()
}

impl Local {
    pub fn bad(&mut self, why: String) {
        self.bad += 1;
        self.why_bad.get_or_insert(why);
    }
}

/// A number near 0.618 n without a common factor with n.
fn coprime(n: usize) -> usize {
    let gcd = |mut a: usize, mut b: usize| {
        while b > 0 {
            (a, b) = (b, a % b);
        }
        a
    };
    let mut k = (n as f64 * 0.618) as usize + 1;
    while gcd(k, n) != 1 {
        k += 1;
    }
    k
}

pub struct Found(pub Case, pub String);

pub fn judge(env: &Env, c: &Case) -> Result<Eval, String> {
    match catch_unwind(AssertUnwindSafe(|| case::eval(env, c))) {
        Err(_) => Err(format!("harness: {} in {}", crate::target::take_panic(), show_case(c))),
        Ok(e) => match &e.internal {
            Some(m) => Err(format!("{} in {}", m, show_case(c))),
            None => Ok(e),
        },
    }
}

fn shard_random(
    env: &Env,
    id: &str,
    name: &str,
    seed: u64,
    shard: usize,
    cases: usize,
    tape: usize,
    gen: &Gen,
    stop: &AtomicBool,
    until: Instant,
) -> (Local, Option<Found>) {
    let mut cfg = Config::default();
    cfg.cases = cases as u32;
    cfg.failure_persistence = None;
    cfg.max_shrink_iters = 3000;
    cfg.max_shrink_time = 60_000;
    cfg.max_global_rejects = u32::MAX;
    cfg.max_local_rejects = u32::MAX;
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_of(seed, &format!("{}/{}", id, name), shard));
    let mut runner = TestRunner::new_with_rng(cfg, rng);
    let local = RefCell::new(Local::default());
    let failing = RefCell::new(None::<(Case, String)>);
    let lo = (tape / 8).max(4);
    let res = runner.run(&(any::<u32>(), vec(any::<u32>(), lo..tape.max(lo + 1))), |(tail, data)| {
        if failing.borrow().is_none() && (stop.load(Ordering::Relaxed) || env.run.too_many_runaways()) {
            return Ok(());
        }
        if failing.borrow().is_none() && Instant::now() > until {
            local.borrow_mut().late += 1;
            return Ok(());
        }
        let made = catch_unwind(AssertUnwindSafe(|| {
            let mut t = Tape::with_tail(&data, tail);
            gen(&mut t, env)
        }));
        let c = match made {
            Err(_) => {
                local.borrow_mut().bad(format!("generator: {}", crate::target::take_panic()));
                return Ok(());
            }
            Ok(None) => {
                if failing.borrow().is_none() {
                    local.borrow_mut().none += 1;
                }
                return Ok(());
            }
            Ok(Some(c)) => c,
        };
        match judge(env, &c) {
            Err(m) => {
                // While shrinking, a candidate the harness cannot judge is no candidate.
                if failing.borrow().is_none() {
                    local.borrow_mut().bad(m);
                }
                Ok(())
            }
            Ok(e) => {
                if failing.borrow().is_none() {
                    count(&mut local.borrow_mut(), &c, &e, shard == 0);
                }
                match e.viol {
                    None => Ok(()),
                    Some(w) => {
                        // The last failure seen is the smallest one so far.
                        *failing.borrow_mut() = Some((c, w.clone()));
                        stop.store(true, Ordering::Relaxed);
                        Err(TestCaseError::fail("violated"))
                    }
                }
            }
        }
    });
    let local = local.into_inner();
    match res {
        Ok(()) => (local, None),
        Err(TestError::Fail(_, (tail, data))) => {
            // Judge the minimal tape again; keep what was last seen if it does not repeat.
            let mut t = Tape::with_tail(&data, tail);
            if let Some(c) = gen(&mut t, env) {
                if let Ok(Eval { viol: Some(w), .. }) = judge(env, &c) {
                    return (local, Some(Found(c, w)));
                }
            }
            let (c, w) = failing.into_inner().expect("a failing case");
            (local, Some(Found(c, w)))
        }
        Err(TestError::Abort(r)) => {
            let mut local = local;
            local.bad = u64::MAX / 64;
            local.why_bad = Some(format!("proptest aborted: {}", r));
            (local, None)
        }
    }
}

pub fn run(env: &Env, id: &str, seed: u64, parts: &[Part], stats: &mut Stats) -> Outcome {
    let mut internal = None;
    // In-process runs are cheap; where the library cannot be used, or the
    // machine is slow, each part gets its share of the time and leaves out the rest.
    let end = Instant::now() + Duration::from_secs(if env.thorough { 10_800 } else { 400 });
    let weight = |p: &Part| match &p.how {
        How::Random(n, ..) | How::Sweep(n, _) => *n as f64 + 2000.0,
        How::Guided(s, _) => *s as f64 * 3000.0,
    };
    for (at, part) in parts.iter().enumerate() {
        let t0 = Instant::now();
        let ahead: f64 = parts[at..].iter().map(weight).sum();
        let share = end.saturating_duration_since(t0).mul_f64(weight(part) / ahead);
        let until = t0 + share.max(Duration::from_secs(30));
        let stop = AtomicBool::new(false);
        let next = AtomicUsize::new(0);
        let found: Mutex<Vec<(usize, Found)>> = Mutex::new(Vec::new());
        let locals: Mutex<Vec<(usize, Local)>> = Mutex::new(Vec::new());
        let shared = guided::Shared::new();
        if matches!(part.how, How::Guided(..)) && (cov::guards() == 0 || !env.lib()) {
            continue;
        }
        std::thread::scope(|s| {
            for shard in 0..THREADS {
                let (stop, next, found, locals, shared) = (&stop, &next, &found, &locals, &shared);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || match &part.how {
                        How::Random(total, tape, gen) => {
                            let n = total / THREADS + (shard < total % THREADS) as usize;
                            if n == 0 {
                                return;
                            }
                            let (l, f) =
                                shard_random(env, id, part.name, seed, shard, n, *tape, gen, stop, until);
                            locals.lock().unwrap().push((shard, l));
                            if let Some(f) = f {
                                stop.store(true, Ordering::Relaxed);
                                found.lock().unwrap().push((shard, f));
                            }
                        }
                        How::Guided(secs, gens) => {
                            let s = u64::from_le_bytes(seed_of(seed, &format!("{}/{}", id, part.name), shard)[..8].try_into().unwrap());
                            let (l, f) = guided::worker(env, s, shard, Duration::from_secs(*secs), gens, shared, stop);
                            locals.lock().unwrap().push((shard, l));
                            if let Some(f) = f {
                                stop.store(true, Ordering::Relaxed);
                                found.lock().unwrap().push((shard, f));
                            }
                        }
                        How::Sweep(n, make) => {
                            let mut l = Local::default();
                            let chunk = (n / (THREADS * 16)).clamp(1, 256);
                            // Chunks in order, or spread out if there may be no time for all.
                            let chunks = n.div_ceil(chunk);
                            let stride = if env.lib() { 1 } else { coprime(chunks) };
                            'all: loop {
                                let turn = next.fetch_add(1, Ordering::Relaxed);
                                if turn >= chunks || stop.load(Ordering::Relaxed) || env.run.too_many_runaways() {
                                    break;
                                }
                                let from = (turn * stride % chunks) * chunk;
                                for k in from..(from + chunk).min(*n) {
                                    if Instant::now() > until {
                                        l.late += 1;
                                        continue;
                                    }
                                    let made = catch_unwind(AssertUnwindSafe(|| make(k, env)));
                                    let f = match made {
                                        Err(_) => {
                                            l.bad(format!("generator: {}", crate::target::take_panic()));
                                            None
                                        }
                                        Ok(None) => {
                                            l.none += 1;
                                            None
                                        }
                                        Ok(Some(c)) => match judge(env, &c) {
                                            Err(m) => {
                                                l.bad(m);
                                                None
                                            }
                                            Ok(e) => {
                                                count(&mut l, &c, &e, k == 0 || k == n / 2 || k + 1 == *n);
                                                e.viol.map(|w| Found(c, w))
                                            }
                                        },
                                    };
                                    if let Some(f) = f {
                                        stop.store(true, Ordering::Relaxed);
                                        found.lock().unwrap().push((k, f));
                                        break 'all;
                                    }
                                }
                            }
                            locals.lock().unwrap().push((shard, l));
                        }
                    })
                    .expect("worker thread");
            }
        });
        let mut locals = locals.into_inner().unwrap();
        locals.sort_by_key(|x| x.0);
        let mut n = 0;
        let before = stats.distinct.len();
        let (mut bad, mut why_bad) = (0, None);
        for (_, l) in locals {
            n += l.n;
            bad += l.bad;
            if l.late > 0 {
                *stats.classes.entry(format!("{}: left out, no time", part.name)).or_insert(0) += l.late;
            }
            why_bad = why_bad.or(l.why_bad);
            if l.none > 0 {
                *stats.classes.entry(format!("{}: no case made", part.name)).or_insert(0) += l.none;
            }
            stats.distinct.extend(l.distinct);
            for (k, v) in l.classes {
                *stats.classes.entry(format!("{}: {}", part.name, k)).or_insert(0) += v;
            }
            for s in l.samples {
                if stats.samples.iter().filter(|x| x.0 == part.name).count() < 3 {
                    stats.samples.push((part.name.to_string(), s));
                }
            }
        }
        if let How::Guided(..) = part.how {
            let (branches, buckets, compared) = shared.seen.totals();
            for (k, v) in [
                ("branches in the code", cov::guards()),
                ("branches reached", branches),
                ("branch and hit-count features", buckets),
                ("comparison features", compared),
                ("inputs kept", shared.size()),
            ] {
                stats.classes.insert(format!("{}: {}", part.name, k), v as u64);
            }
        }
        stats.evaluations += n;
        stats.parts.push((
            part.name.to_string(),
            n,
            (stats.distinct.len() - before) as u64,
            t0.elapsed().as_secs_f64(),
        ));
        let mut found = found.into_inner().unwrap();
        found.sort_by_key(|x| x.0);
        if let Some((_, Found(c, w))) = found.into_iter().next() {
            let (c, w) = reduce(env, c, w);
            return Outcome::Violated(Failure { part: part.name.to_string(), case: c, what: w });
        }
        if let Some(m) = why_bad {
            stats.classes.insert(format!("{}: cases the harness could not judge", part.name), bad);
            eprintln!("part {}: {} cases not judged, such as: {}", part.name, bad, m);
            if bad > 20 + n / 100 {
                internal = Some(format!("part {}: {}", part.name, m));
            }
        }
    }
    if let Some(m) = internal {
        return Outcome::Internal(m);
    }
    Outcome::Held
}

/// Kinds judged by the model on one source text, which may be cut anywhere.
pub const REDUCIBLE: &[&str] = &[
    "full", "instructions", "labels", "db", "image", "hex", "reject", "forms", "overlap",
    "counter", "clean",
];

/// Delta debugging on the text of the failing case: lines, then characters.
fn reduce(env: &Env, c: Case, w: String) -> (Case, String) {
    if c.kind == "hist" {
        // Fewer steps.
        let mut best = (c, w);
        let mut k = 0;
        while k < best.0.args.len() && best.0.args.len() > 1 {
            let mut c2 = best.0.clone();
            c2.args.remove(k);
            match judge(env, &c2) {
                Ok(Eval { viol: Some(w2), .. }) => best = (c2, w2),
                _ => k += 1,
            }
        }
        return best;
    }
    if !REDUCIBLE.contains(&c.kind) {
        return (c, w);
    }
    let t0 = Instant::now();
    let mut budget = 1500usize;
    let mut best = (c, w);
    let text = match String::from_utf8(best.0.args[0].clone()) {
        Ok(t) => t,
        Err(_) => return best,
    };
    let mut pieces: Vec<String> = text.split_inclusive('\n').map(|s| s.to_string()).collect();
    for round in 0..2 {
        if round == 1 {
            let t: String = pieces.concat();
            if t.len() > 20_000 {
                break;
            }
            pieces = t.chars().map(|c| c.to_string()).collect();
        }
        let mut size = pieces.len().div_ceil(2).max(1);
        loop {
            let mut at = 0;
            let mut any = false;
            while at < pieces.len() {
                if budget == 0 || t0.elapsed().as_secs() > 60 {
                    return best;
                }
                let end = (at + size).min(pieces.len());
                let mut cand: Vec<String> = pieces[..at].to_vec();
                cand.extend_from_slice(&pieces[end..]);
                let mut c2 = best.0.clone();
                c2.args[0] = cand.concat().into_bytes();
                budget -= 1;
                match judge(env, &c2) {
                    Ok(Eval { viol: Some(w2), .. }) => {
                        best = (c2, w2);
                        pieces = cand;
                        any = true;
                    }
                    _ => at = end,
                }
            }
            if size == 1 && !any {
                break;
            }
            if size > 1 {
                size = size.div_ceil(2);
            }
        }
    }
    best
}
