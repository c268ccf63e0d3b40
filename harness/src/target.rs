//! The two ways to run c8s: the real command in a scratch directory, and the
//! same modules in-process (through the guarded library hook).

use std::cell::RefCell;
use std::ffi::OsString;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Via {
    /// The command, writing to standard output.
    CliStdout,
    /// The command, writing to a file.
    CliFile,
    /// The library, in this process.
    Lib,
}

impl Via {
    pub fn name(self) -> &'static str {
        match self {
            Via::CliStdout => "cli-stdout",
            Via::CliFile => "cli-file",
            Via::Lib => "lib",
        }
    }
    pub fn parse(s: &str) -> Via {
        match s {
            "cli-stdout" => Via::CliStdout,
            "lib" => Via::Lib,
            _ => Via::CliFile,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Exit(i32),
    Signal(i32),
    /// A panic in-process.
    Panic(String),
    /// Ended by the watchdog: CPU time or memory out of all proportion.
    Runaway(String),
}

impl Status {
    pub fn show(&self) -> String {
        match self {
            Status::Exit(c) => format!("exit status {}", c),
            Status::Signal(s) => format!("killed by signal {}", s),
            Status::Panic(m) => format!("panic: {}", m),
            Status::Runaway(m) => format!("ran away: {}", m),
        }
    }
    pub fn clean(&self) -> bool {
        matches!(self, Status::Exit(0) | Status::Exit(1))
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: Status,
    /// The hex text produced, if any was.
    pub hex: Option<Vec<u8>>,
    /// What was printed besides the hex text.
    pub diag: Vec<u8>,
    pub stderr: Vec<u8>,
}

impl Outcome {
    pub fn diag_text(&self) -> String {
        String::from_utf8_lossy(&self.diag).into_owned()
    }
    pub fn show(&self) -> String {
        let mut s = self.status.show();
        let cut = |b: &[u8]| {
            let t = String::from_utf8_lossy(b).into_owned();
            let mut t: String = t.chars().take(400).collect();
            if t.len() < b.len() {
                t.push('…');
            }
            t
        };
        if let Some(h) = &self.hex {
            s += &format!("; output {:?}", cut(h));
        }
        if !self.diag.is_empty() {
            s += &format!("; printed {:?}", cut(&self.diag));
        }
        if !self.stderr.is_empty() {
            s += &format!("; stderr {:?}", cut(&self.stderr));
        }
        s
    }
}

// ------------------------------------------------------------- watchdog

const CPU_LIMIT_S: f64 = 20.0;
const RSS_LIMIT: u64 = 3 << 30;
const LIB_WALL_LIMIT_S: u64 = 60;
const RSS_SELF_LIMIT: u64 = 12 << 30;
const AS_SELF_LIMIT: u64 = 16 << 30;
const RLIMIT_AS: i32 = 9;

/// Code under test that eats memory in-process ends in an abort (see crash.rs).
pub fn limit_memory() {
    let most = [AS_SELF_LIMIT; 2];
    unsafe { prlimit(0, RLIMIT_AS, &most, std::ptr::null_mut()) };
}

/// One slot per worker thread; the watchdog looks at all of them.
#[derive(Default)]
pub struct Slot {
    /// pid of the running child, 0 if none.
    pid: AtomicU64,
    index: usize,
    /// Why the watchdog killed the child.
    killed: Mutex<Option<String>>,
    /// Source and start (seconds since the epoch of the run) of the case running in-process.
    lib_since: AtomicU64,
    lib_src: Mutex<Vec<u8>>,
}

pub struct Runner {
    pub cli: PathBuf,
    pub scratch: PathBuf,
    pub use_lib: AtomicBool,
    pub start: Instant,
    pub n_cli: AtomicU64,
    pub n_lib: AtomicU64,
    pub unconfirmed: AtomicU64,
    runaways: AtomicU64,
    slots: Mutex<Vec<Arc<Slot>>>,
    /// Called by the watchdog with the source that hangs in-process.
    pub on_lib_hang: Mutex<Option<Arc<dyn Fn(&[u8], bool) + Send + Sync>>>,
}

thread_local! {
    static SLOT: RefCell<Option<(Arc<Slot>, PathBuf)>> = RefCell::new(None);
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

fn proc_cpu_rss(pid: u64) -> Option<(f64, u64)> {
    let stat = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &stat[stat.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let ticks: f64 = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    let rss: u64 = f.get(21)?.parse::<u64>().ok()? * 4096;
    Some((ticks / 100.0, rss))
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let harness = info.location().map(|l| l.file().starts_with("src/")).unwrap_or(false);
        let msg = info.to_string();
        // Panics of the harness itself are shown, those of the code under test only recorded.
        if harness && std::env::var_os("VERIF_SHOW_PANICS").is_some() {
            eprintln!("{}", msg);
        }
        PANIC.with(|p| *p.borrow_mut() = Some(msg));
    }));
}

pub fn take_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

#[derive(Clone, Copy, PartialEq)]
pub enum Stdout {
    Pipe,
    Terminal,
    File,
}

fn slot_file(scratch: &Path, index: usize) -> std::path::PathBuf {
    scratch.join(format!("stdout{}", index))
}

extern "C" {
    fn posix_openpt(flags: i32) -> i32;
    fn grantpt(fd: i32) -> i32;
    fn unlockpt(fd: i32) -> i32;
    fn ptsname_r(fd: i32, buf: *mut u8, len: usize) -> i32;
    fn tcgetattr(fd: i32, t: *mut u8) -> i32;
    fn tcsetattr(fd: i32, when: i32, t: *const u8) -> i32;
    fn cfmakeraw(t: *mut u8);
    fn ioctl(fd: i32, request: u64, left: *mut i32) -> i32;
}

/// Waits, though not for long, until the other end of a pipe has read all there is.
fn drained(w: &std::process::ChildStdin) {
    use std::os::fd::AsRawFd;
    for _ in 0..400 {
        let mut left = 0i32;
        if unsafe { ioctl(w.as_raw_fd(), 0x541b, &mut left) } != 0 || left == 0 {
            return;
        }
        std::thread::sleep(std::time::Duration::from_micros(50));
    }
}

/// A terminal that passes everything through: its controlling end, and the end for the child.
fn open_terminal() -> Option<(std::fs::File, std::fs::File)> {
    use std::os::fd::{AsRawFd, FromRawFd};
    use std::os::unix::fs::OpenOptionsExt;
    const O_RDWR_NOCTTY_CLOEXEC: i32 = 0o2 | 0o400 | 0o2000000;
    unsafe {
        let fd = posix_openpt(O_RDWR_NOCTTY_CLOEXEC);
        if fd < 0 {
            return None;
        }
        let master = std::fs::File::from_raw_fd(fd);
        let mut name = [0u8; 128];
        if grantpt(fd) != 0 || unlockpt(fd) != 0 || ptsname_r(fd, name.as_mut_ptr(), name.len()) != 0 {
            return None;
        }
        let n = name.iter().position(|b| *b == 0)?;
        let slave = std::fs::File::options().read(true).write(true).custom_flags(0o400).open(std::str::from_utf8(&name[..n]).ok()?).ok()?;
        let mut t = [0u64; 32];
        let t = t.as_mut_ptr() as *mut u8;
        if tcgetattr(slave.as_raw_fd(), t) != 0 {
            return None;
        }
        cfmakeraw(t);
        if tcsetattr(slave.as_raw_fd(), 0, t) != 0 {
            return None;
        }
        Some((master, slave))
    }
}

impl Runner {
    pub fn new(cli: PathBuf, scratch: PathBuf) -> Arc<Runner> {
        fs::create_dir_all(&scratch).expect("scratch directory");
        let r = Arc::new(Runner {
            cli,
            scratch,
            use_lib: AtomicBool::new(cfg!(feature = "pipe")),
            start: Instant::now(),
            n_cli: AtomicU64::new(0),
            n_lib: AtomicU64::new(0),
            unconfirmed: AtomicU64::new(0),
            runaways: AtomicU64::new(0),
            slots: Mutex::new(Vec::new()),
            on_lib_hang: Mutex::new(None),
        });
        let w = r.clone();
        std::thread::spawn(move || w.watch());
        r
    }

    /// The command never ends on so many inputs that going on would take for ever.
    pub fn too_many_runaways(&self) -> bool {
        self.runaways.load(Ordering::Relaxed) >= 24
    }

    fn watch(&self) {
        let me = std::process::id() as u64;
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let slots: Vec<Arc<Slot>> = self.slots.lock().unwrap().clone();
            let now = self.start.elapsed().as_secs() + 1;
            for s in &slots {
                let pid = s.pid.load(Ordering::SeqCst);
                if pid != 0 {
                    if let Some((cpu, rss)) = proc_cpu_rss(pid) {
                        let why = if cpu > CPU_LIMIT_S {
                            Some(format!("{:.0} s of CPU time", cpu))
                        } else if rss > RSS_LIMIT {
                            Some(format!("{} MB of memory", rss >> 20))
                        } else {
                            None
                        };
                        if let Some(why) = why {
                            let mut k = s.killed.lock().unwrap();
                            if k.is_none() && s.pid.load(Ordering::SeqCst) == pid {
                                *k = Some(why);
                                unsafe { kill(pid as i32, 9) };
                            }
                        }
                    }
                }
            }
            let rss = proc_cpu_rss(me).map(|x| x.1).unwrap_or(0);
            for s in &slots {
                let since = s.lib_since.load(Ordering::SeqCst);
                if since != 0 && (now - since > LIB_WALL_LIMIT_S || rss > RSS_SELF_LIMIT) {
                    let src = s.lib_src.lock().unwrap().clone();
                    s.lib_since.store(0, Ordering::SeqCst);
                    let f = self.on_lib_hang.lock().unwrap().clone();
                    if let Some(f) = f {
                        // On a thread of its own: this one has to go on watching.
                        let memory = rss > RSS_SELF_LIMIT;
                        std::thread::spawn(move || f(&src, memory));
                    }
                }
            }
        }
    }

    /// This thread's slot and private scratch directory.
    fn slot(&self) -> (Arc<Slot>, PathBuf) {
        SLOT.with(|s| {
            let mut s = s.borrow_mut();
            if s.is_none() {
                let mut all = self.slots.lock().unwrap();
                let slot = Arc::new(Slot { index: all.len(), ..Slot::default() });
                let dir = self.scratch.join(format!("w{}", all.len()));
                fs::create_dir_all(&dir).expect("worker directory");
                all.push(slot.clone());
                *s = Some((slot, dir));
            }
            s.as_ref().unwrap().clone()
        })
    }

    /// A fresh, empty directory for a scenario of this thread.
    pub fn fresh_dir(&self, name: &str) -> PathBuf {
        let d = self.slot().1.join(name);
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).expect("scenario directory");
        d
    }

    /// Runs the command; `argv` excludes the program name.
    pub fn spawn(
        &self,
        cwd: &Path,
        argv: &[OsString],
        env: Option<&[(OsString, OsString)]>,
        shell_prefix: Option<&str>,
    ) -> Outcome {
        self.spawn_as(&self.cli, cwd, argv, env, shell_prefix)
    }

    pub fn spawn_as(
        &self,
        program: &Path,
        cwd: &Path,
        argv: &[OsString],
        env: Option<&[(OsString, OsString)]>,
        shell_prefix: Option<&str>,
    ) -> Outcome {
        self.spawn_io(program, cwd, argv, env, shell_prefix, None, Stdout::Pipe)
    }

    /// As `spawn_as`, with text to read on the standard input, in so many pieces, and another kind of standard output.
    #[allow(clippy::too_many_arguments)]
    pub fn spawn_io(
        &self,
        program: &Path,
        cwd: &Path,
        argv: &[OsString],
        env: Option<&[(OsString, OsString)]>,
        shell_prefix: Option<&str>,
        input: Option<(&[u8], usize)>,
        stdout: Stdout,
    ) -> Outcome {
        self.n_cli.fetch_add(1, Ordering::Relaxed);
        let (slot, _) = self.slot();
        let mut c;
        if let Some(prefix) = shell_prefix {
            c = Command::new("/bin/sh");
            c.arg("-c").arg(format!("{}; exec \"$0\" \"$@\"", prefix)).arg(program);
        } else {
            c = Command::new(program);
        }
        c.args(argv).current_dir(cwd);
        if let Some(env) = env {
            c.env_clear();
            for (k, v) in env {
                c.env(k, v);
            }
        } else {
            c.env_remove("RUST_BACKTRACE");
        }
        c.stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut terminal = None;
        let mut file = None;
        match stdout {
            Stdout::Pipe => {}
            Stdout::Terminal => {
                if let Some((master, slave)) = open_terminal() {
                    c.stdout(Stdio::from(slave));
                    terminal = Some(master);
                }
            }
            Stdout::File => {
                let p = slot_file(&self.scratch, slot.index);
                if let (Ok(w), Ok(r)) = (std::fs::File::create(&p), std::fs::File::open(&p)) {
                    c.stdout(Stdio::from(w));
                    file = Some(r);
                }
            }
        }
        *slot.killed.lock().unwrap() = None;
        let mut child = match c.spawn() {
            Ok(c) => c,
            Err(e) => {
                // Not an answer of the code under test: the check cannot run.
                eprintln!("harness: cannot start {}: {}", program.display(), e);
                crate::fatal("cannot start the command under test");
            }
        };
        let live = &crate::crash::CHILD[slot.index % crate::crash::CHILD.len()];
        live.store(child.id() as i32, Ordering::SeqCst);
        slot.pid.store(child.id() as u64, Ordering::SeqCst);
        // Should this process be gone before the child is.
        let most = [CPU_LIMIT_S as u64 + 8, CPU_LIMIT_S as u64 + 10];
        unsafe { prlimit(child.id() as i32, 0, &most, std::ptr::null_mut()) };
        let most = [RSS_LIMIT + (512 << 20); 2];
        unsafe { prlimit(child.id() as i32, RLIMIT_AS, &most, std::ptr::null_mut()) };
        // This process must hold no end of the child's terminal, or its end is never seen.
        drop(c);
        let feeder = input.and_then(|(i, pieces)| {
            let (mut w, i) = (child.stdin.take()?, i.to_vec());
            Some(std::thread::spawn(move || {
                let size = (i.len() / pieces.max(1)).max(1);
                for piece in i.chunks(size) {
                    if w.write_all(piece).is_err() {
                        break;
                    }
                    if pieces > 1 {
                        // The next piece comes when this one has been read.
                        drained(&w);
                    }
                }
            }))
        });
        let reader = terminal.map(|mut m| {
            std::thread::spawn(move || {
                let (mut all, mut b) = (Vec::new(), [0u8; 4096]);
                while let Ok(n) = m.read(&mut b) {
                    if n == 0 {
                        break;
                    }
                    all.extend_from_slice(&b[..n]);
                }
                all
            })
        });
        let mut out = child.wait_with_output();
        if let Some(h) = feeder {
            let _ = h.join();
        }
        if let (Some(h), Ok(o)) = (reader, &mut out) {
            o.stdout = h.join().unwrap_or_default();
        }
        if let (Some(mut f), Ok(o)) = (file, &mut out) {
            let _ = f.read_to_end(&mut o.stdout);
        }
        slot.pid.store(0, Ordering::SeqCst);
        live.store(0, Ordering::SeqCst);
        let out = match out {
            Ok(o) => o,
            Err(e) => {
                eprintln!("harness: wait failed: {}", e);
                crate::fatal("cannot wait for the command under test");
            }
        };
        let killed = slot.killed.lock().unwrap().take();
        let status = if let Some(why) = killed {
            Status::Runaway(why)
        } else if out.status.signal() == Some(24) {
            Status::Runaway("too much CPU time".into())
        } else if let Some(sig) = out.status.signal() {
            Status::Signal(sig)
        } else {
            Status::Exit(out.status.code().unwrap_or(-1))
        };
        if let Status::Runaway(_) = status {
            self.runaways.fetch_add(1, Ordering::Relaxed);
        }
        Outcome { status, hex: None, diag: out.stdout, stderr: out.stderr }
    }

    pub const INPUT: &'static str = "in.s";

    /// Assembles `src`, whatever the route.
    pub fn run(&self, src: &[u8], via: Via) -> Outcome {
        let lib = via == Via::Lib && self.use_lib.load(Ordering::Relaxed);
        if lib {
            if let Ok(s) = std::str::from_utf8(src) {
                return self.run_lib(s);
            }
        }
        self.run_cli(src, if via == Via::CliStdout { Via::CliStdout } else { Via::CliFile })
    }

    pub fn run_cli(&self, src: &[u8], via: Via) -> Outcome {
        let (_, dir) = self.slot();
        let input = dir.join(Self::INPUT);
        let output = dir.join("out.hex");
        if fs::write(&input, src).is_err() {
            crate::fatal("cannot write the input file");
        }
        if via == Via::CliStdout {
            let mut o =
                self.spawn(&dir, &["-o".into(), "-".into(), Self::INPUT.into()], None, None);
            // Only a run that succeeds prints hex; anything else it prints is a diagnostic.
            if o.status == Status::Exit(0) || o.diag.starts_with(b":") {
                o.hex = Some(std::mem::take(&mut o.diag));
            }
            o
        } else {
            let _ = fs::remove_file(&output);
            let mut o =
                self.spawn(&dir, &["-o".into(), "out.hex".into(), Self::INPUT.into()], None, None);
            o.hex = fs::read(&output).ok();
            o
        }
    }

    #[cfg(not(feature = "pipe"))]
    fn run_lib(&self, src: &str) -> Outcome {
        self.run_cli(src.as_bytes(), Via::CliFile)
    }

    #[cfg(feature = "pipe")]
    fn run_lib(&self, src: &str) -> Outcome {
        use std::panic::{catch_unwind, AssertUnwindSafe};
        self.n_lib.fetch_add(1, Ordering::Relaxed);
        let (slot, _) = self.slot();
        {
            let mut b = slot.lib_src.lock().unwrap();
            b.clear();
            b.extend_from_slice(src.as_bytes());
        }
        slot.lib_since.store(self.start.elapsed().as_secs() + 1, Ordering::SeqCst);
        let live = &crate::crash::LIVE[slot.index % crate::crash::LIVE.len()];
        live.set(src.as_bytes());
        let r = catch_unwind(AssertUnwindSafe(|| crate::cov::recording(|| lib_pipeline(Self::INPUT, src))));
        live.clear();
        slot.lib_since.store(0, Ordering::SeqCst);
        match r {
            Ok(Ok(hex)) => Outcome {
                status: Status::Exit(0),
                hex: Some(hex.into_bytes()),
                diag: Vec::new(),
                stderr: Vec::new(),
            },
            Ok(Err(diag)) => Outcome {
                status: Status::Exit(1),
                hex: None,
                diag: diag.into_bytes(),
                stderr: Vec::new(),
            },
            Err(_) => Outcome {
                status: Status::Panic(take_panic()),
                hex: None,
                diag: Vec::new(),
                stderr: Vec::new(),
            },
        }
    }
}

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    fn prlimit(pid: i32, resource: i32, new: *const [u64; 2], old: *mut [u64; 2]) -> i32;
}

/// The same composition as main.rs::assemble_file. Whenever a check fails on
/// this route, the real command is asked before anything is reported.
#[cfg(feature = "pipe")]
fn lib_pipeline(path: &str, src: &str) -> Result<String, String> {
    use c8s::assembler::{assembler, data_range, ihex_writer, parser, scanner};
    let scanner = scanner::Scanner::new(path, src);
    let list = parser::parse(scanner).map_err(|e| format!("{}\n", e))?;
    let ranges = assembler::assemble(list).map_err(|e| format!("{}\n", e))?;
    let over = data_range::find_overlapping_ranges(&ranges);
    if !over.is_empty() {
        let mut s = String::from("c8s: error: Input file specifies overlapping data ranges.\n");
        for (a, b) in over {
            s += &format!("c8s: error:   range {} overlaps with:\nc8s: error:   range {}\n", a, b);
        }
        return Err(s);
    }
    Ok(ihex_writer::ihex_representation_of_data_ranges(&ranges))
}
