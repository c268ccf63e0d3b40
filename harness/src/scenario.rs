//! Scenarios that need the real command: the file system around a run, the
//! environment of a run, and the command line.

use crate::case::{check_location, Case, Env, Eval};
use crate::hex;
use crate::model::{self, Verdict};
use crate::target::{Outcome, Status, Stdout};
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::fs;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::Path;

type Tree = BTreeMap<Vec<u8>, Vec<u8>>;

fn snapshot(dir: &Path) -> Tree {
    fn go(base: &Path, dir: &Path, out: &mut Tree) {
        if let Ok(rd) = fs::read_dir(dir) {
            for e in rd.flatten() {
                let p = e.path();
                let key = p.strip_prefix(base).unwrap().as_os_str().as_bytes().to_vec();
                match fs::symlink_metadata(&p) {
                    Ok(m) if m.file_type().is_symlink() => {
                        let mut v = b"link ".to_vec();
                        v.extend(fs::read_link(&p).map(|x| x.into_os_string().into_vec()).unwrap_or_default());
                        out.insert(key, v);
                    }
                    Ok(m) if m.is_dir() => {
                        out.insert(key, b"dir".to_vec());
                        go(base, &p, out);
                    }
                    _ => {
                        let mut v = b"file ".to_vec();
                        v.extend(fs::read(&p).unwrap_or_default());
                        out.insert(key, v);
                    }
                }
            }
        }
    }
    let mut t = Tree::new();
    go(dir, dir, &mut t);
    t
}

/// What changed, ignoring the given key.
fn diff(a: &Tree, b: &Tree, except: Option<&[u8]>) -> Option<String> {
    let show = |k: &[u8]| String::from_utf8_lossy(k).into_owned();
    for (k, v) in a {
        if Some(k.as_slice()) == except {
            continue;
        }
        match b.get(k) {
            None => return Some(format!("{:?} is gone", show(k))),
            Some(w) if w != v => {
                return Some(format!("{:?} was altered (now {:?})", show(k), String::from_utf8_lossy(&w[..w.len().min(80)])))
            }
            _ => {}
        }
    }
    for k in b.keys() {
        if Some(k.as_slice()) != except && !a.contains_key(k) {
            return Some(format!("{:?} was created", show(k)));
        }
    }
    None
}

pub fn eval(env: &Env, c: &Case) -> Eval {
    match c.kind {
        "fs" => eval_fs(env, c),
        "env" => eval_env(env, c),
        "argv" => eval_argv(env, c),
        "hist" => eval_hist(env, c),
        _ => eval_loc_path(env, c),
    }
}

fn spec(c: &Case, k: usize) -> BTreeMap<String, String> {
    String::from_utf8_lossy(&c.args[k])
        .split(' ')
        .filter_map(|kv| kv.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())))
        .collect()
}

/// Values in a specification never contain a blank, '%' or ':' as they stand.
pub fn enc(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() || b"._-/".contains(&b) {
            o.push(b as char);
        } else {
            o += &format!("%{:02x}", b);
        }
    }
    o
}

fn dec(s: &str) -> OsString {
    let b = s.as_bytes();
    let (mut v, mut k) = (Vec::new(), 0);
    while k < b.len() {
        match (b[k], s.get(k + 1..k + 3).and_then(|h| u8::from_str_radix(h, 16).ok())) {
            (b'%', Some(x)) => {
                v.push(x);
                k += 3;
            }
            (c, _) => {
                v.push(c);
                k += 1;
            }
        }
    }
    OsString::from_vec(v)
}

/// May this word name a file in a scratch directory?
pub fn file_word(w: &str) -> bool {
    !w.is_empty() && w.len() < 60 && !w.contains('/') && !w.contains(['\0', '\n', '\r']) && !w.contains("..") && w != "."
}

fn get<'a>(m: &'a BTreeMap<String, String>, k: &str) -> &'a str {
    m.get(k).map(|s| s.as_str()).unwrap_or("")
}

fn image_ok(hex_text: &[u8], v: &model::Image) -> Option<String> {
    match hex::decode(hex_text, true) {
        Err(e) => Some(format!("the destination does not hold a complete hex file: {}", e)),
        Ok(d) if d.bytes != v.sorted() => Some("the destination does not hold this program".into()),
        _ => None,
    }
}

// ------------------------------------------------------------- files

pub const OLD_HEX: &str = ":100000001112131415161718191A1B1C1D1E1F20B8\n:00000001FF\n";

fn eval_fs(env: &Env, c: &Case) -> Eval {
    let mut e = Eval::default();
    let src = &c.args[0];
    let sp = spec(c, 1);
    let dir = env.run.fresh_dir("fs");
    let m = model::assemble(src);
    // The surroundings of the run.
    for d in ["d", "sub"] {
        let _ = fs::create_dir(dir.join(d));
    }
    let decoys = [
        "keep.txt", "in.hex", "in.s.hex", "in", "out", "in.s~", "out.hex.tmp", "a.hex~", "b.hex",
        "sub/a.hex", "d/out.hex", ".in.s.swp", "-",
    ];
    for (k, f) in decoys.iter().enumerate() {
        let _ = fs::write(dir.join(f), format!("decoy {}\n", k));
    }
    let input = match get(&sp, "in") {
        "sub" => "sub/in.s",
        "missing" => "missing.s",
        "dir" => "d",
        "under" => "keep.txt/in.s",
        _ => "in.s",
    };
    let readable = input.ends_with("in.s") && !input.starts_with("keep");
    if readable {
        let _ = fs::write(dir.join(input), src);
    }
    let full = get(&sp, "out") == "full";
    if full {
        let _ = symlink("/dev/full", dir.join("full.hex"));
    }
    // A link as destination: what it leads to may be written, or the link be replaced.
    let linked = matches!(get(&sp, "out"), "link" | "dangling");
    if linked {
        let _ = symlink("target.hex", dir.join("link.hex"));
        if get(&sp, "out") == "link" {
            let _ = fs::write(dir.join("target.hex"), "old target\n");
        }
    }
    let named;
    let (out_arg, dest): (Option<OsString>, Option<&str>) = match get(&sp, "out") {
        "default" => (None, Some("a.hex")),
        "stdout" | "stdoutfull" => (Some("-".into()), None),
        "missingdir" => (Some("nodir/out.hex".into()), None),
        "isdir" => (Some("d".into()), None),
        "empty" => (Some("".into()), None),
        "underfile" => (Some("keep.txt/x.hex".into()), None),
        "same" => (Some(input.into()), Some(input)),
        "full" => (Some("full.hex".into()), None),
        "link" | "dangling" => (Some("link.hex".into()), Some("link.hex")),
        "abs" => (Some(dir.join("out.hex").into_os_string()), Some("out.hex")),
        "sub" => (Some("sub/o.hex".into()), Some("sub/o.hex")),
        "dot" => (Some("./out.hex".into()), Some("out.hex")),
        "odd" => (Some("o ut é.hex".into()), Some("o ut é.hex")),
        "ext" => (Some("out.s".into()), Some("out.s")),
        "noext" => (Some("program".into()), Some("program")),
        "dashname" => (Some("-x".into()), Some("-x")),
        n if n.starts_with("name:") => {
            named = dec(&n[5..]).to_string_lossy().into_owned();
            (Some(named.clone().into()), Some(named.as_str()))
        }
        _ => (Some("out.hex".into()), Some("out.hex")),
    };
    let bad_dest = matches!(get(&sp, "out"), "missingdir" | "isdir" | "empty" | "underfile");
    if let Some(d) = dest {
        if d != input {
            let pre: Option<Vec<u8>> = match get(&sp, "pre") {
                "short" => Some(b"x".to_vec()),
                "empty" => Some(Vec::new()),
                "long" => Some(b"old line of an older file\n".repeat(2000)),
                "hex" => Some(OLD_HEX.as_bytes().to_vec()),
                n if n.starts_with("size:") => Some(vec![b'#'; n[5..].parse::<usize>().unwrap_or(0).min(8 << 20)]),
                "longhex" => Some(OLD_HEX.repeat(900).into_bytes()),
                "binary" => Some((0..=255u8).cycle().take(20000).collect()),
                // What this program gives, and small changes of that.
                k @ ("exact" | "flip" | "extra" | "cut" | "start") if readable => {
                    let mut h = env.run.spawn(&dir, &["-o".into(), "-".into(), input.into()], None, None).diag;
                    let n = h.len();
                    match k {
                        "flip" if n > 12 => {
                            let at = n / 2;
                            h[at] = if h[at] == b'0' { b'1' } else { b'0' };
                        }
                        "extra" => h.extend_from_slice(OLD_HEX.as_bytes()),
                        "cut" => h.truncate(n.saturating_sub(3)),
                        "start" => h.splice(0..0, *b":00000001FF\n").for_each(drop),
                        _ => {}
                    }
                    Some(h)
                }
                _ => None,
            };
            if let Some(p) = pre {
                let _ = fs::write(dir.join(d), p);
            }
        }
    }
    let before = snapshot(&dir);
    let mut argv: Vec<OsString> = Vec::new();
    if get(&sp, "order") == "last" {
        argv.push(input.into());
    }
    if let Some(o) = &out_arg {
        argv.push("-o".into());
        argv.push(o.clone());
    }
    if get(&sp, "order") != "last" {
        argv.push(input.into());
    }
    let fsize = get(&sp, "fsize") == "1" && dest.is_some();
    // Standard output as the destination, with no space for it.
    let no_stdout = get(&sp, "out") == "stdoutfull";
    let prefix = if no_stdout { Some("exec > /dev/full") } else if fsize { Some("trap '' XFSZ; ulimit -f 1") } else { None };
    let o = env.run.spawn(&dir, &argv, None, prefix);
    let after = snapshot(&dir);

    let valid = readable && m.ok().is_some();
    let size_hint: usize = m.ok().map(|i| i.sections.iter().map(|s| s.1.len().div_ceil(16) * 12 + s.1.len() * 2 + 12).sum()).unwrap_or(0);
    e.classes.push(if !readable {
        "input unreadable"
    } else if !valid {
        "program rejected"
    } else if bad_dest {
        "destination cannot be opened"
    } else if full || no_stdout || (fsize && size_hint > 1400) {
        "write error"
    } else {
        "success"
    });
    e.nontrivial = !valid || bad_dest || full || dest.map(|d| before.contains_key(d.as_bytes())).unwrap_or(true);
    let rejected = |o: &Outcome| -> Option<String> {
        if o.status != Status::Exit(1) {
            Some(format!("must end with exit status 1, but: {}", o.show()))
        } else if o.diag.is_empty() && o.stderr.is_empty() {
            Some("prints no diagnostic".into())
        } else {
            None
        }
    };
    if get(&sp, "say") == "1" {
        // Only what is said, and where.
        let opened = readable && std::str::from_utf8(src).is_ok();
        let about = if !opened {
            Some(input.to_string())
        } else if valid && (bad_dest || full || (fsize && size_hint > 1400)) {
            Some(out_arg.as_ref().map_or("a.hex".into(), |o| o.to_string_lossy().into_owned()))
        } else {
            None
        };
        e.nontrivial = about.is_some() || o.status != Status::Exit(0) || dest.is_some();
        e.viol = if !o.status.clean() || no_stdout {
            None
        } else if !o.stderr.is_empty() {
            Some(format!("written to standard error: {:?}", String::from_utf8_lossy(&o.stderr)))
        } else if o.status == Status::Exit(0) && dest.is_some() && !o.diag.is_empty() {
            Some(format!("a successful run must print nothing, but: {}", o.show()))
        } else if o.status == Status::Exit(1) && about.as_ref().map_or(false, |a| !o.diag_text().contains(a.as_str())) {
            Some(format!("the diagnostic does not name {:?}: {}", about.unwrap(), o.show()))
        } else {
            None
        };
        return e;
    }
    if no_stdout {
        // No diagnostic can be printed there either; only the destination of a valid program is judged.
        if valid {
            e.viol = match o.status {
                Status::Exit(1) => diff(&before, &after, None).map(|d| format!("write error on standard output, and {}", d)),
                _ => Some(format!("write error on standard output: must end with exit status 1, but: {}", o.show())),
            };
        }
        return e;
    }
    if !valid || bad_dest {
        e.viol = rejected(&o).or_else(|| diff(&before, &after, None).map(|d| format!("the run failed, but {}", d)));
        return e;
    }
    let image = m.ok().unwrap();
    if full {
        e.viol = rejected(&o)
            .map(|x| format!("write error: {}", x))
            .or_else(|| diff(&before, &after, Some(b"full.hex")).map(|d| format!("write error, and {}", d)));
        return e;
    }
    if fsize {
        // At least 1400 characters of hex cannot fit, at most 300 do; between is not judged.
        if size_hint > 1400 {
            e.viol = rejected(&o).map(|x| format!("write error: {}", x)).or_else(|| {
                diff(&before, &after, dest.map(|d| d.as_bytes())).map(|d| format!("write error, and {}", d))
            });
            return e;
        }
        if size_hint > 300 {
            return e;
        }
    }
    if o.status != Status::Exit(0) {
        e.viol = Some(format!("must succeed, but: {}", o.show()));
        return e;
    }
    match dest {
        None => {
            e.viol = image_ok(&o.diag, image)
                .map(|x| format!("standard output: {}; {}", x, o.show()))
                .or_else(|| diff(&before, &after, None).map(|d| format!("output went to standard output, but {}", d)));
        }
        Some(d) => {
            if linked {
                let (mut a, mut b) = (before.clone(), after.clone());
                for k in [&b"link.hex"[..], b"target.hex"] {
                    a.remove(k);
                    b.remove(k);
                }
                e.viol = image_ok(&fs::read(dir.join(d)).unwrap_or_default(), image)
                    .map(|x| format!("through a link: {}; {}", x, o.show()))
                    .or_else(|| diff(&a, &b, None).map(|x| format!("besides the destination, {}", x)));
                return e;
            }
            let got = after.get(d.as_bytes());
            e.viol = match got {
                Some(v) if v.starts_with(b"file ") => image_ok(&v[5..], image),
                _ => Some(format!("the destination {:?} was not written", d)),
            }
            .map(|x| format!("{}; {}", x, o.show()))
            .or_else(|| diff(&before, &after, Some(d.as_bytes())).map(|x| format!("besides the destination, {}", x)));
        }
    }
    e
}

// ------------------------------------------------------------- histories

/// A sequence of steps in one directory, against a model of its files:
/// `w NAME\nTEXT` writes a file, `d NAME` removes one, `m NAME` makes one old,
/// `c FROM TO` copies one, `r IN OUT` runs the command (OUT `-` or empty, too).
fn eval_hist(env: &Env, c: &Case) -> Eval {
    let mut e = Eval::default();
    let dir = env.run.fresh_dir("hi");
    let mut files: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    let mut runs = 0;
    for (k, step) in c.args.iter().enumerate() {
        let (head, body) = match step.iter().position(|b| *b == b'\n') {
            Some(p) => (&step[..p], &step[p + 1..]),
            None => (&step[..], &b""[..]),
        };
        let head = String::from_utf8_lossy(head).into_owned();
        let w: Vec<&str> = head.split(' ').collect();
        let name = w.get(1).copied().unwrap_or("x");
        match w[0] {
            "w" => {
                let _ = fs::write(dir.join(name), body);
                files.insert(name.into(), body.to_vec());
            }
            "d" => {
                let _ = fs::remove_file(dir.join(name));
                files.remove(name.as_bytes());
            }
            "m" => {
                if let Ok(f) = fs::File::options().write(true).open(dir.join(name)) {
                    let _ = f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000));
                }
            }
            "c" => {
                if let (Some(b), Some(to)) = (files.get(name.as_bytes()).cloned(), w.get(2)) {
                    let _ = fs::write(dir.join(to), &b);
                    files.insert(to.as_bytes().to_vec(), b);
                }
            }
            _ => {
                runs += 1;
                let out = w.get(2).copied().unwrap_or("");
                let mut argv: Vec<OsString> = Vec::new();
                if !out.is_empty() {
                    argv.extend(["-o".into(), out.into()]);
                }
                argv.push(name.into());
                let o = env.run.spawn(&dir, &argv, None, None);
                let v = files.get(name.as_bytes()).map(|s| model::assemble(s));
                let dest = if out.is_empty() { "a.hex" } else { out };
                let bad = match v.as_ref().and_then(|v| v.ok()) {
                    None => {
                        e.classes.push("failing run");
                        if o.status != Status::Exit(1) {
                            Some("must end with exit status 1")
                        } else if o.diag.is_empty() && o.stderr.is_empty() {
                            Some("must print a diagnostic")
                        } else {
                            None
                        }
                    }
                    Some(image) => {
                        e.classes.push("succeeding run");
                        let now = if dest == "-" { o.diag.clone() } else { fs::read(dir.join(dest)).unwrap_or_default() };
                        if o.status != Status::Exit(0) {
                            Some("must succeed")
                        } else if image_ok(&now, image).is_some() {
                            Some("does not leave this program at the destination")
                        } else {
                            if dest != "-" {
                                files.insert(dest.into(), now);
                            }
                            None
                        }
                    }
                };
                let bad = bad.map(|b| format!("{}: {}", b, o.show())).or_else(|| {
                    let want: Tree = files.iter().map(|(k, v)| (k.clone(), [&b"file "[..], v].concat())).collect();
                    diff(&want, &snapshot(&dir), None)
                });
                if let Some(b) = bad {
                    e.nontrivial = true;
                    e.viol = Some(format!("step {} ({:?}): {}", k + 1, head, b));
                    return e;
                }
            }
        }
    }
    e.nontrivial = runs > 1;
    e
}

// ------------------------------------------------------------- environment

struct Seen {
    status: Status,
    hex: Option<Vec<u8>>,
    diag: String,
}

fn one_env_run(env: &Env, src: &[u8], sp: &BTreeMap<String, String>, name: &str) -> (Seen, Option<Status>) {
    let dir = env.run.fresh_dir(name);
    let cwd = match get(sp, "cwd") {
        "sub" => {
            let _ = fs::create_dir_all(dir.join("w/x"));
            dir.join("w/x")
        }
        _ => dir.clone(),
    };
    let path: OsString = match get(sp, "path") {
        "dot" => "./in.s".into(),
        "abs" => cwd.join("in.s").into_os_string(),
        "deep" => "p/q/in.s".into(),
        "up" => "../z.s".into(),
        "odd" => "sp ace é%$ \"q\".s".into(),
        "dash" => "-dash.s".into(),
        "long" => format!("{}.s", "n".repeat(200)).into(),
        "noext" => "program".into(),
        "hexext" => "in.hex".into(),
        "colon" => "a:1:2.s".into(),
        "stdin" | "pieces" => "/dev/stdin".into(),
        // The input must not be the destination as well.
        n if n.starts_with("name:") && !n[5..].split('/').any(|c| c == "a.hex" || c == "o.hex") => dec(&n[5..]),
        _ => "in.s".into(),
    };
    let cwd = if get(sp, "path") == "up" { let d = cwd.join("u"); let _ = fs::create_dir_all(&d); d } else { cwd };
    // The text may come through a pipe; then the file is only there to be there.
    let piped = ["stdin", "pieces"].contains(&get(sp, "path"));
    let pieces = if get(sp, "path") == "pieces" { 3 } else { 1 };
    let full = if piped { cwd.join("in.s") } else { cwd.join(&path) };
    if let Some(p) = full.parent() {
        let _ = fs::create_dir_all(p);
    }
    let kind = get(sp, "file");
    let real = if kind == "link" { cwd.join("elsewhere.txt") } else { full.clone() };
    if fs::write(&real, src).is_err() {
        crate::fatal("cannot write a scenario's input");
    }
    match kind {
        "link" => {
            if symlink(&real, &full).is_err() {
                crate::fatal("cannot link a scenario's input");
            }
        }
        "mode" => {
            let _ = fs::set_permissions(&full, fs::Permissions::from_mode(0o444));
        }
        "exec" => {
            let _ = fs::set_permissions(&full, fs::Permissions::from_mode(0o755));
        }
        "ancient" | "future" => {
            let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(if kind == "ancient" { 1 } else { 4_000_000_000 });
            if let Ok(f) = fs::File::options().write(true).open(&full) {
                let _ = f.set_modified(t);
            }
        }
        n if n.starts_with("time:") => {
            let secs: i64 = n[5..].parse().unwrap_or(0);
            let d = std::time::Duration::from_secs(secs.unsigned_abs());
            let t = if secs < 0 { std::time::UNIX_EPOCH - d } else { std::time::UNIX_EPOCH + d };
            if let Ok(f) = fs::File::options().write(true).open(&full) {
                let _ = f.set_modified(t);
            }
        }
        _ => {}
    }
    // State that earlier runs or users may have left behind.
    match get(sp, "left") {
        "junk" => {
            for f in ["a.hex", "o.hex", "in.hex~", ".c8s", "c8s.toml", "include.s", "Cargo.toml"] {
                if !cwd.join(f).exists() {
                    let _ = fs::write(cwd.join(f), "junk\n".repeat(500));
                }
            }
        }
        "dirs" => {
            for f in ["target", "tmp", ".cache"] {
                let _ = fs::create_dir_all(cwd.join(f));
            }
        }
        n if n.starts_with("file:") => {
            // A file of some name that code may look for, beside the input and in the working directory.
            let mut it = n[5..].splitn(2, ':');
            let name = dec(it.next().unwrap_or(""));
            let body = dec(it.next().unwrap_or("")).into_vec();
            for d in [Some(cwd.as_path()), full.parent()].iter().flatten() {
                let f = d.join(&name);
                if !f.exists() {
                    let _ = fs::write(f, &body);
                }
            }
        }
        _ => {}
    }
    let mut argv: Vec<OsString> = Vec::new();
    let dest: Option<&str> = match get(sp, "out") {
        "stdout" => {
            argv.push("-o".into());
            argv.push("-".into());
            None
        }
        "file" => {
            argv.push("--output=o.hex".into());
            Some("o.hex")
        }
        _ => Some("a.hex"),
    };
    argv.push("--".into());
    argv.push(path.clone());
    let vars: Option<Vec<(OsString, OsString)>> = match get(sp, "env") {
        "clear" => Some(vec![]),
        "odd" => Some(
            [
                ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("HOME", "/nonexistent"),
                ("TMPDIR", "/nonexistent"), ("PATH", ""), ("COLUMNS", "10"), ("TERM", "dumb"),
                ("NO_COLOR", "1"), ("C8S_OUTPUT", "zzz"), ("C8S", "1"), ("DEBUG", "1"), ("VERBOSE", "1"),
                ("TZ", "Asia/Tokyo"), ("RUST_LOG", "trace"), ("POSIXLY_CORRECT", "1"), ("USER", "nobody"),
            ]
            .iter()
            .map(|(a, b)| (OsString::from(a), OsString::from(b)))
            .collect(),
        ),
        n if n.starts_with("var:") => {
            let mut it = n[4..].splitn(2, ':');
            let name = dec(it.next().unwrap_or(""));
            Some(vec![(name, dec(it.next().unwrap_or("")))])
        }
        "bytes" => Some(vec![(OsString::from("X"), OsString::from_vec(vec![0xff, 0xfe])), (OsString::from_vec(vec![0xfd]), OsString::from("y"))]),
        _ => None,
    };
    let program = match get(sp, "prog") {
        "link" => {
            let p = env.run.scratch.join("assembler-link");
            let _ = symlink(&env.run.cli, &p);
            p
        }
        _ => env.run.cli.clone(),
    };
    let stdout = match get(sp, "io") {
        "tty" => Stdout::Terminal,
        "file" => Stdout::File,
        _ => Stdout::Pipe,
    };
    let prefix = match get(sp, "sh") {
        _ if piped => None,
        "umask" => Some("umask 077"),
        "stack" => Some("ulimit -s 1024"),
        "files" => Some("ulimit -n 16"),
        "stdin" => Some("exec < /proc/version"),
        "nostdin" => Some("exec <&-"),
        _ => None,
    };
    let mut prior = None;
    if get(sp, "other") == "1" {
        // Another text under the same names first.
        let other = b"a: jp a\n.db \"another text altogether\"\n";
        let _ = fs::write(&real, other);
        let text: Option<(&[u8], usize)> = if piped { Some((other, pieces)) } else { None };
        let _ = env.run.spawn_io(&program, &cwd, &argv, vars.as_deref(), prefix, text, stdout);
        if fs::write(&real, src).is_err() {
            crate::fatal("cannot write a scenario's input");
        }
    }
    for _ in 0..get(sp, "prior").parse::<usize>().unwrap_or(0) {
        let o = env.run.spawn_io(&program, &cwd, &argv, vars.as_deref(), prefix, if piped { Some((src, pieces)) } else { None }, stdout);
        prior = Some(o.status);
        if get(sp, "out") == "file" {
            // The run must not depend on what a former one wrote.
            continue;
        }
    }
    let left_alone = dest.and_then(|d| fs::read(cwd.join(d)).ok());
    let o = env.run.spawn_io(&program, &cwd, &argv, vars.as_deref(), prefix, if piped { Some((src, pieces)) } else { None }, stdout);
    let hex = match dest {
        None => if o.status == Status::Exit(0) { Some(o.diag.clone()) } else { None },
        Some(d) => {
            let now = fs::read(cwd.join(d)).ok();
            if o.status == Status::Exit(0) { now } else if now == left_alone { None } else { now }
        }
    };
    let mut diag = if dest.is_none() && o.status == Status::Exit(0) { String::new() } else { o.diag_text() };
    let (p, prog) = (path.to_string_lossy().into_owned(), program.to_string_lossy().into_owned());
    diag = diag
        .split('\n')
        .map(|l| {
            if let Some(r) = l.strip_prefix(&format!("{}:", p)) {
                format!("<input>:{}", r)
            } else if let Some(r) = l.strip_prefix(&format!("{}:", prog)) {
                format!("<program>:{}", r)
            } else {
                l.to_string()
            }
        })
        .collect::<Vec<_>>()
        .join("\n");
    (Seen { status: o.status, hex, diag }, prior)
}

fn eval_env(env: &Env, c: &Case) -> Eval {
    let mut e = Eval::default();
    let src = &c.args[0];
    let m = model::assemble(src);
    e.classes.push(crate::case::class_of(&m));
    e.nontrivial = c.args[1] != c.args[2] && !src.is_empty();
    let (a, pa) = one_env_run(env, src, &spec(c, 1), "ea");
    let (b, pb) = one_env_run(env, src, &spec(c, 2), "eb");
    for p in [pa, pb].iter().flatten() {
        if *p != a.status {
            e.viol = Some(format!("an earlier identical run ended with {}, a later one with {}", p.show(), a.status.show()));
            return e;
        }
    }
    let show = |s: &Seen| format!("{}, hex {:?}, printed {:?}", s.status.show(), s.hex.as_ref().map(|h| String::from_utf8_lossy(h).into_owned()), s.diag);
    if a.status != b.status || a.hex != b.hex || a.diag != b.diag {
        e.viol = Some(format!(
            "the same text gave {} under [{}] and {} under [{}]",
            show(&a),
            String::from_utf8_lossy(&c.args[1]),
            show(&b),
            String::from_utf8_lossy(&c.args[2])
        ));
    }
    e
}

// ------------------------------------------------------------- location and path

fn eval_loc_path(env: &Env, c: &Case) -> Eval {
    let mut e = Eval::default();
    let m = model::assemble(&c.args[0]);
    e.classes.push(crate::case::class_of(&m));
    let path = String::from_utf8_lossy(&c.args[1]).into_owned();
    let dir = env.run.fresh_dir("lp");
    let full = dir.join(&path);
    if let Some(p) = full.parent() {
        let _ = fs::create_dir_all(p);
    }
    if fs::write(&full, &c.args[0]).is_err() {
        crate::fatal("cannot write a scenario's input");
    }
    let o = env.run.spawn(&dir, &["-o".into(), "o.hex".into(), "--".into(), path.clone().into()], None, None);
    if let Verdict::Err(model::Fault { span: Some(span), .. }) = &m {
        e.nontrivial = true;
        e.viol = check_location(&o, &path, span);
    }
    e
}

// ------------------------------------------------------------- command line

pub const INPUTS: &[(&str, &str)] = &[
    ("in.s", ".db 1\n"),
    ("two.s", ".db 2, 2\ncls\n"),
    ("-", ".db 3\n"),
    ("-o", ".db 4\n"),
    ("--help", ".db 5\n"),
    ("-v", ".db 11\n"),
    ("--output", ".db 12\n"),
    ("-x.s", ".db 6\n"),
    ("sp ace.s", ".db 7\n"),
    ("é.s", ".db 8\n"),
    ("bad.s", "jp nowhere\n"),
    ("empty.s", ""),
    ("d/in.s", ".db 9\n"),
    ("a.s", ".db 10\n"),
    ("o", ".db 13\n"),
    ("@in.s", ".db 14\n"),
    ("~", ".db 15\n"),
    ("%20.s", ".db 16\n"),
    ("$HOME", ".db 17\n"),
    ("in.s,two.s", ".db 18\n"),
    ("in", ".db 19\n"),
    ("IN.S", ".db 20\n"),
    ("file:in.s", ".db 21\n"),
    ("+x", ".db 22\n"),
];

enum Cmd {
    Error,
    Help,
    Version,
    Usage,
    Assemble(String, String),
}

/// What the usage text promises for an argument list (all valid Unicode).
fn command(args: &[String]) -> Cmd {
    let (mut h, mut v, mut o) = (0, 0, Vec::new());
    let mut free = Vec::new();
    let mut k = 0;
    while k < args.len() {
        let a = &args[k];
        k += 1;
        if a == "--" {
            free.extend(args[k..].iter().cloned());
            break;
        }
        if !a.starts_with('-') || a == "-" {
            free.push(a.clone());
        } else if let Some(long) = a.strip_prefix("--") {
            let (n, val) = match long.split_once('=') {
                Some((n, v)) => (n, Some(v.to_string())),
                None => (long, None),
            };
            match (n, val) {
                ("help", None) => h += 1,
                ("version", None) => v += 1,
                ("output", Some(x)) => o.push(x),
                ("output", None) => {
                    if k < args.len() {
                        o.push(args[k].clone());
                        k += 1;
                    } else {
                        return Cmd::Error;
                    }
                }
                _ => return Cmd::Error,
            }
        } else {
            let mut rest = a[1..].chars();
            while let Some(ch) = rest.next() {
                match ch {
                    'h' => h += 1,
                    'v' => v += 1,
                    'o' => {
                        let tail: String = rest.collect();
                        if !tail.is_empty() {
                            o.push(tail);
                        } else if k < args.len() {
                            o.push(args[k].clone());
                            k += 1;
                        } else {
                            return Cmd::Error;
                        }
                        break;
                    }
                    _ => return Cmd::Error,
                }
            }
        }
    }
    if h > 1 || v > 1 || o.len() > 1 {
        return Cmd::Error;
    }
    if h > 0 {
        return Cmd::Help;
    }
    if v > 0 {
        return Cmd::Version;
    }
    if free.len() != 1 {
        return Cmd::Usage;
    }
    Cmd::Assemble(free.remove(0), o.pop().unwrap_or_else(|| "a.hex".into()))
}

fn eval_argv(env: &Env, c: &Case) -> Eval {
    let mut e = Eval::default();
    let dir = env.run.fresh_dir("av");
    let _ = fs::create_dir(dir.join("d"));
    for (n, s) in INPUTS {
        if fs::write(dir.join(n), s).is_err() {
            crate::fatal("cannot write a scenario's input");
        }
    }
    if c.args[0] == b"old" {
        for f in ["a.hex", "out.hex"] {
            let _ = fs::write(dir.join(f), "old\n".repeat(100));
        }
    }
    let argv: Vec<OsString> = c.args[1..].iter().map(|a| OsStr::from_bytes(a).to_os_string()).collect();
    let before = snapshot(&dir);
    let o = env.run.spawn(&dir, &argv, None, None);
    let after = snapshot(&dir);
    e.nontrivial = argv.len() > 1;
    let text: Option<Vec<String>> = argv.iter().map(|a| a.to_str().map(|s| s.to_string())).collect();
    let text = match text {
        None => {
            e.classes.push("not unicode");
            e.viol = if !o.status.clean() {
                Some(o.show())
            } else if o.status == Status::Exit(1) {
                diff(&before, &after, None).map(|d| format!("exit status 1, but {}", d))
            } else {
                None
            };
            return e;
        }
        Some(t) => t,
    };
    if c.args[0] == b"said" {
        // Only where things are said is judged.
        e.classes.push("said");
        e.nontrivial = !argv.is_empty();
        let quiet = matches!(command(&text), Cmd::Assemble(_, ref out) if out != "-") && o.status == Status::Exit(0);
        if o.status.clean() && !o.stderr.is_empty() {
            e.viol = Some(format!("arguments {:?}: written to standard error: {:?}", text, String::from_utf8_lossy(&o.stderr)));
        } else if quiet && !o.diag.is_empty() {
            e.viol = Some(format!("arguments {:?}: a successful run must print nothing, but: {}", text, o.show()));
        }
        return e;
    }
    let printed = o.diag_text();
    let untouched = || diff(&before, &after, None).map(|d| format!("no file may be touched, but {}", d));
    let status = |want: i32| {
        if o.status == Status::Exit(want) { None } else { Some(format!("must end with exit status {}, but: {}", want, o.show())) }
    };
    let is_usage = || {
        let p = printed.to_lowercase();
        ["usage", "--output", "--help", "--version"].iter().all(|w| p.contains(w))
    };
    match command(&text) {
        Cmd::Error => {
            e.classes.push("bad option");
            e.viol = status(1)
                .or_else(|| if printed.is_empty() { Some("prints no error".into()) } else { None })
                .or_else(untouched);
        }
        Cmd::Usage => {
            e.classes.push("not one input");
            e.viol = status(1)
                .or_else(|| if printed.is_empty() { Some("prints neither error nor usage".into()) } else { None })
                .or_else(untouched);
        }
        Cmd::Help => {
            e.classes.push("help");
            e.viol = status(0)
                .or_else(|| if is_usage() { None } else { Some(format!("does not print the usage text: {}", o.show())) })
                .or_else(untouched);
        }
        Cmd::Version => {
            e.classes.push("version");
            e.viol = status(0)
                .or_else(|| if printed.contains(&env.version) { None } else { Some(format!("does not print version {}: {}", env.version, o.show())) })
                .or_else(untouched);
        }
        Cmd::Assemble(input, output) => {
            let src = match before.get(input.as_bytes()) {
                Some(v) if v.starts_with(b"file ") => Some(v[5..].to_vec()),
                _ => None,
            };
            let m = src.as_ref().map(|s| model::assemble(s));
            let dest_ok = output == "-"
                || match before.get(output.as_bytes()) {
                    Some(v) => v.starts_with(b"file "),
                    None => !output.is_empty() && (!output.contains('/') || output.starts_with("d/")),
                };
            match m.as_ref().and_then(|m| m.ok()) {
                Some(image) if dest_ok => {
                    e.classes.push("assembles");
                    e.viol = status(0).or_else(|| {
                        if output == "-" {
                            image_ok(&o.diag, image).map(|x| format!("{} {}", x, o.show())).or_else(untouched)
                        } else {
                            match after.get(output.as_bytes()) {
                                Some(v) if v.starts_with(b"file ") => image_ok(&v[5..], image),
                                _ => Some(format!("{:?} was not written; {}", output, o.show())),
                            }
                            .or_else(|| diff(&before, &after, Some(output.as_bytes())).map(|d| format!("besides {:?}, {}", output, d)))
                        }
                    });
                }
                _ => {
                    e.classes.push("assembly fails");
                    e.viol = status(1)
                        .or_else(|| if printed.is_empty() { Some("prints no error".into()) } else { None })
                        .or_else(untouched);
                }
            }
        }
    }
    if let Some(v) = &mut e.viol {
        *v = format!("arguments {:?}: {}", text, v);
    }
    e
}
