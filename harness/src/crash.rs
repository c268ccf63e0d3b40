//! What to do when the code under test takes this whole process down
//! (in-process stack overflow, abort): save the texts being assembled and
//! start over in a mode that tries them on the real command.

use std::sync::atomic::{AtomicI32, AtomicPtr, AtomicUsize, Ordering};

pub struct Live {
    ptr: AtomicPtr<u8>,
    len: AtomicUsize,
}

#[allow(clippy::declare_interior_mutable_const)]
const NONE: Live = Live { ptr: AtomicPtr::new(std::ptr::null_mut()), len: AtomicUsize::new(0) };
pub static LIVE: [Live; 64] = [NONE; 64];
#[allow(clippy::declare_interior_mutable_const)]
const NO_CHILD: AtomicI32 = AtomicI32::new(0);
/// The commands that are running.
pub static CHILD: [AtomicI32; 64] = [NO_CHILD; 64];
static FILE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static ARGV: AtomicPtr<*const u8> = AtomicPtr::new(std::ptr::null_mut());

impl Live {
    pub fn set(&self, src: &[u8]) {
        self.len.store(src.len(), Ordering::SeqCst);
        self.ptr.store(src.as_ptr() as *mut u8, Ordering::SeqCst);
    }
    pub fn clear(&self) {
        self.ptr.store(std::ptr::null_mut(), Ordering::SeqCst);
    }
}

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
    fn open(path: *const i8, flags: i32, ...) -> i32;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn execv(path: *const u8, argv: *const *const u8) -> i32;
    fn _exit(code: i32) -> !;
    fn sigaction(sig: i32, act: *const Act, old: *mut Act) -> i32;
    fn sigprocmask(how: i32, set: *const [u64; 16], old: *mut [u64; 16]) -> i32;
}

#[repr(C)]
struct Act {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

const SA_ONSTACK: i32 = 0x0800_0000;
const SA_NODEFER: i32 = 0x4000_0000;

pub fn kill_children() {
    for c in CHILD.iter() {
        let p = c.load(Ordering::SeqCst);
        if p > 0 {
            unsafe { kill(p, 9) };
        }
    }
}

extern "C" fn handler(_: i32) {
    kill_children();
    unsafe {
        for s in [4, 6, 7, 11] {
            signal(s, 0);
        }
        let file = FILE.load(Ordering::SeqCst);
        let argv = ARGV.load(Ordering::SeqCst);
        if file.is_null() || argv.is_null() {
            _exit(2);
        }
        // O_WRONLY|O_CREAT|O_TRUNC
        let fd = open(file as *const i8, 0o1 | 0o100 | 0o1000, 0o600i32);
        for l in LIVE.iter() {
            let p = l.ptr.load(Ordering::SeqCst);
            if !p.is_null() {
                let n = l.len.load(Ordering::SeqCst);
                let head = (n as u64).to_le_bytes();
                write(fd, head.as_ptr() as *const _, 8);
                let mut at = 0;
                while at < n {
                    let k = write(fd, p.add(at) as *const _, n - at);
                    if k <= 0 {
                        break;
                    }
                    at += k as usize;
                }
            }
        }
        close(fd);
        // Unblock everything, then start over.
        let none = [0u64; 16];
        sigprocmask(2, &none, std::ptr::null_mut());
        execv(*argv, argv);
        _exit(2);
    }
}

/// From now on a fatal signal re-executes `args` (program first) after saving the texts to `file`.
pub fn install(file: &str, args: &[String]) {
    let leak = |s: &str| -> *mut u8 {
        let mut v = s.as_bytes().to_vec();
        v.push(0);
        Box::leak(v.into_boxed_slice()).as_mut_ptr()
    };
    let mut argv: Vec<*const u8> = args.iter().map(|a| leak(a) as *const u8).collect();
    argv.push(std::ptr::null());
    FILE.store(leak(file), Ordering::SeqCst);
    ARGV.store(Box::leak(argv.into_boxed_slice()).as_mut_ptr(), Ordering::SeqCst);
    let act = Act { handler: handler as *const () as usize, mask: [0; 16], flags: SA_ONSTACK | SA_NODEFER, restorer: 0 };
    for s in [4, 6, 7, 11] {
        unsafe { sigaction(s, &act, std::ptr::null_mut()) };
    }
}

pub fn saved(file: &std::path::Path) -> Vec<Vec<u8>> {
    let data = std::fs::read(file).unwrap_or_default();
    let mut out = Vec::new();
    let mut at = 0;
    while at + 8 <= data.len() {
        let n = u64::from_le_bytes(data[at..at + 8].try_into().unwrap()) as usize;
        at += 8;
        if at + n > data.len() {
            break;
        }
        out.push(data[at..at + n].to_vec());
        at += n;
    }
    out
}
