//! harness check ID TIER | replay FILE | crash ID DIR | baseline
//!
//! Exit 0: held; 1: violated, with a VIOLATION line; 2: the check itself failed.

#[cfg(feature = "main")]
extern crate c8s_main as c8s;

mod api;
mod case;
mod cov;
mod crash;
mod dict;
mod driver;
mod gen;
mod guided;
mod hex;
mod model;
mod props;
mod scenario;
mod tape;
mod target;

use case::{Case, Env};
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering;
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

static SCRATCH: Mutex<Option<PathBuf>> = Mutex::new(None);

fn cleanup() {
    crash::kill_children();
    if let Some(d) = SCRATCH.lock().unwrap_or_else(|e| e.into_inner()).take() {
        let _ = std::fs::remove_dir_all(d);
    }
}

/// The check cannot go on; says nothing about the property.
pub fn fatal(why: &str) -> ! {
    eprintln!("harness: {}", why);
    cleanup();
    std::process::exit(2)
}

fn var(name: &str, default: &str) -> String {
    std::env::var(name).unwrap_or_else(|_| default.to_string())
}

fn verif() -> PathBuf {
    PathBuf::from(var("C8S_VERIF_DIR", "/verif"))
}
fn repo() -> PathBuf {
    PathBuf::from(var("C8S_REPO_DIR", "/repo"))
}

fn version() -> String {
    let t = std::fs::read_to_string(repo().join("Cargo.toml")).unwrap_or_default();
    t.lines()
        .find_map(|l| l.trim().strip_prefix("version").map(|r| r.trim_matches(|c: char| c == '=' || c == '"' || c.is_whitespace()).to_string()))
        .unwrap_or_default()
}

fn make_env(thorough: bool) -> Env {
    let cli = PathBuf::from(var("C8S_CLI", "/verif/target/cli/debug/c8s"));
    if !cli.is_file() {
        fatal("the command under test has not been built");
    }
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let scratch = PathBuf::from(var("C8S_SCRATCH", base)).join(format!("c8s-verif-{}", std::process::id()));
    *SCRATCH.lock().unwrap() = Some(scratch.clone());
    let run = target::Runner::new(cli, scratch);
    if std::env::var_os("C8S_NO_LIB").is_some() {
        run.use_lib.store(false, Ordering::Relaxed);
    }
    Env {
        run,
        dict: dict::Dict::load(&repo().join("src"), &verif().join("harness/baseline.txt")),
        version: version(),
        thorough,
    }
}

static ID: OnceLock<String> = OnceLock::new();

fn report(id: &str, part: &str, c: &Case, what: &str) -> String {
    let dir = verif().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.replay", id));
    if std::fs::write(&path, case::to_replay(id, part, c, what)).is_err() {
        fatal("cannot write the replay file");
    }
    println!("part {}: {}", part, what);
    println!("case: {}", driver::show_case(c));
    println!("VIOLATION property={} replay={}", id, path.display());
    path.display().to_string()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    target::quiet_panics();
    let a: Vec<&str> = args.iter().skip(1).map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", id, tier] => check(id, *tier == "thorough"),
        ["replay", file] => replay(Path::new(file)),
        ["crash", id, dir] => crashed(id, Path::new(dir)),
        ["baseline"] => {
            print!("{}", dict::Dict::baseline(&repo().join("src")));
            0
        }
        _ => {
            eprintln!("usage: harness check ID quick|thorough | replay FILE | baseline");
            2
        }
    };
    cleanup();
    std::process::exit(code)
}

fn replay(file: &Path) -> i32 {
    let data = match std::fs::read(file) {
        Ok(d) => d,
        Err(e) => fatal(&format!("{}: {}", file.display(), e)),
    };
    let (id, c) = match case::from_replay(&data) {
        Some(x) => x,
        None => fatal("not a replay file"),
    };
    let env = make_env(false);
    let e = case::eval(&env, &c);
    println!("case: {}", driver::show_case(&c));
    match (e.internal, e.viol) {
        (Some(m), _) => fatal(&m),
        (None, Some(w)) => {
            println!("{}", w);
            println!("VIOLATION property={} replay={}", id, file.display());
            1
        }
        _ => {
            println!("holds");
            0
        }
    }
}

/// Tries texts that took the process down or hung it on the real command.
fn blame(env: &Env, id: &str, texts: &[Vec<u8>], part: &str) -> Option<i32> {
    static ONE: Mutex<()> = Mutex::new(());
    let _one = ONE.lock();
    let mut kinds = vec!["full"];
    if id == "C12" {
        kinds = vec!["clean"];
    }
    for t in texts {
        for k in &kinds {
            let c = Case { kind: k, via: target::Via::CliFile, args: vec![t.clone()] };
            let e = case::eval(env, &c);
            if let Some(w) = e.viol {
                let path = report(id, part, &c, &w);
                let mut st = driver::Stats::default();
                st.evaluations = env.run.n_cli.load(Ordering::Relaxed) + env.run.n_lib.load(Ordering::Relaxed);
                st.samples.push((part.into(), driver::show_case(&c)));
                evidence(env, id, env.thorough, seed(), &st, 0.0, Some((path, w)));
                // Nobody else may report while this one ends the process.
                std::mem::forget(_one);
                return Some(1);
            }
        }
    }
    None
}

fn crashed(id: &str, dir: &Path) -> i32 {
    let texts = crash::saved(&dir.join("crash"));
    let env = make_env(false);
    let r = blame(&env, id, &texts, "process crash");
    let _ = std::fs::remove_dir_all(dir);
    r.unwrap_or_else(|| {
        eprintln!("harness: the code under test took the process down, but the command does not repeat it");
        2
    })
}

fn seed() -> u64 {
    var("VERIF_SEED", "1").trim().parse().unwrap_or(1)
}

fn check(id: &str, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let seed = seed();
    let _ = ID.set(id.to_string());
    target::limit_memory();
    let env = make_env(thorough);
    let parts = match props::parts(id, &env, seed) {
        Some(p) => p,
        None => fatal(&format!("no property {}", id)),
    };
    let only = std::env::var("C8S_PART").ok();
    let parts: Vec<driver::Part> =
        parts.into_iter().filter(|p| only.as_deref().map(|o| p.name.contains(o)).unwrap_or(true)).collect();
    let exe = std::env::current_exe().ok().and_then(|p| p.to_str().map(|s| s.to_string()));
    if let Some(exe) = exe {
        let d = env.run.scratch.to_string_lossy().into_owned();
        crash::install(&format!("{}/crash", d), &[exe, "crash".into(), id.into(), d.clone()]);
    }
    {
        let run = env.run.clone();
        let id = id.to_string();
        let env2 = Env { run: run.clone(), dict: dict::Dict::default(), version: String::new(), thorough };
        *env.run.on_lib_hang.lock().unwrap() = Some(std::sync::Arc::new(move |src: &[u8], memory: bool| {
            if let Some(code) = blame(&env2, &id, &[src.to_vec()], "runaway in-process") {
                cleanup();
                std::process::exit(code);
            }
            if memory {
                fatal("out of memory in-process, not repeated by the command");
            }
        }));
    }
    let mut stats = driver::Stats::default();
    let out = driver::run(&env, id, seed, &parts, &mut stats);
    let wall = t0.elapsed().as_secs_f64();
    match out {
        driver::Outcome::Internal(m) => {
            eprintln!("harness: {}", m);
            2
        }
        driver::Outcome::Violated(f) => {
            let path = report(id, &f.part, &f.case, &f.what);
            evidence(&env, id, thorough, seed, &stats, wall, Some((path, f.what)));
            1
        }
        driver::Outcome::Held => {
            evidence(&env, id, thorough, seed, &stats, wall, None);
            for (name, n, d, s) in &stats.parts {
                println!("  {:<28} {:>9} cases, {:>9} distinct non-trivial, {:6.2} s", name, n, d, s);
            }
            let un = env.run.unconfirmed.load(Ordering::Relaxed);
            if un > 0 {
                println!("  in-process disagreements the command did not confirm: {}", un);
            }
            println!("{}: held on {} cases ({} distinct non-trivial), seed {}, {:.1} s", id, stats.evaluations, stats.distinct.len(), seed, wall);
            0
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn evidence(env: &Env, id: &str, thorough: bool, seed: u64, s: &driver::Stats, wall: f64, viol: Option<(String, String)>) {
    let parts: Vec<String> = s
        .parts
        .iter()
        .map(|(n, c, d, w)| format!("{{\"part\": {}, \"cases\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {:.2}}}", js(n), c, d, w))
        .collect();
    let classes: Vec<String> = s.classes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let samples: Vec<String> = s.samples.iter().map(|(p, t)| js(&format!("[{}] {}", p, t))).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"command_runs\": {},\n  \"in_process_runs\": {},\n  \"unconfirmed_in_process\": {},\n  \"constants_new_in_this_tree\": {},\n  \"parts\": [{}],\n  \"classes\": {{{}}},\n  \"violations\": [{}],\n  \"samples\": [{}]\n }},\n \"wall_s\": {:.2}\n}}\n",
        js(id),
        if thorough { "thorough" } else { "quick" },
        seed,
        s.evaluations,
        s.distinct.len(),
        js(props::rule(id)),
        env.run.n_cli.load(Ordering::Relaxed),
        env.run.n_lib.load(Ordering::Relaxed),
        env.run.unconfirmed.load(Ordering::Relaxed),
        env.dict.new_ints.len() + env.dict.new_words.len(),
        parts.join(", "),
        classes.join(", "),
        viol.map(|(p, w)| format!("{{\"replay\": {}, \"what\": {}}}", js(&p), js(&w))).unwrap_or_default(),
        samples.join(",\n   "),
        wall
    );
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{}.json", id)), text).is_err() {
        fatal("cannot write the evidence file");
    }
}
