//! Branch and comparison feedback from the crate under test, which is built
//! with SanitizerCoverage call-backs (checks/rustc-cov.sh). Recorded per
//! thread, and only while a case runs in-process.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering};

const GUARDS: usize = 1 << 14;
const CMP_BITS: usize = 1 << 18;

static COUNT: AtomicUsize = AtomicUsize::new(0);

struct Rec {
    hits: Vec<u8>,
    touched: Vec<u32>,
    cmp: Vec<u64>,
    cmp_touched: Vec<u32>,
    last: u32,
    nth: u32,
}

thread_local! {
    static REC: Cell<*mut Rec> = const { Cell::new(std::ptr::null_mut()) };
    static ON: Cell<bool> = const { Cell::new(false) };
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            let n = COUNT.fetch_add(1, Ordering::Relaxed) + 1;
            *p = n.min(GUARDS - 1) as u32;
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !ON.with(|o| o.get()) {
        return;
    }
    let r = &mut *REC.with(|r| r.get());
    let g = *guard;
    let h = &mut r.hits[g as usize];
    if *h == 0 {
        r.touched.push(g);
    }
    *h = h.saturating_add(1);
    r.last = g;
    r.nth = 0;
}

fn compared(a: u64, b: u64) {
    if !ON.with(|o| o.get()) {
        return;
    }
    let r = unsafe { &mut *REC.with(|r| r.get()) };
    let at = (r.last as u64) << 3 | r.nth.min(7) as u64;
    r.nth += 1;
    let dist = a.max(b) - a.min(b);
    let near = if dist < 16 { dist } else { 16 + 64 - dist.leading_zeros() as u64 };
    for f in [at * 200 + (a ^ b).count_ones() as u64, at * 200 + 70 + near] {
        let k = (crate::driver::mix(f) as usize) % CMP_BITS;
        let (w, m) = (k / 64, 1u64 << (k % 64));
        if r.cmp[w] & m == 0 {
            r.cmp[w] |= m;
            r.cmp_touched.push(k as u32);
        }
    }
}

macro_rules! cmp {
    ($($name:ident $t:ty),*) => { $(
        #[no_mangle]
        pub extern "C" fn $name(a: $t, b: $t) {
            compared(a as u64, b as u64)
        }
    )* };
}
cmp!(
    __sanitizer_cov_trace_cmp1 u8, __sanitizer_cov_trace_cmp2 u16, __sanitizer_cov_trace_cmp4 u32, __sanitizer_cov_trace_cmp8 u64,
    __sanitizer_cov_trace_const_cmp1 u8, __sanitizer_cov_trace_const_cmp2 u16, __sanitizer_cov_trace_const_cmp4 u32, __sanitizer_cov_trace_const_cmp8 u64
);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    if !ON.with(|o| o.get()) {
        return;
    }
    let n = *cases as usize;
    for k in 0..n.min(64) {
        compared(v, *cases.add(2 + k));
    }
}

/// Instrumented branches; 0 if the crate was built without.
pub fn guards() -> usize {
    COUNT.load(Ordering::Relaxed)
}

/// Recording stays on in this scope (nothing is recorded unless `begin` was called).
pub fn recording<T>(f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false));
        }
    }
    let have = REC.with(|r| !r.get().is_null());
    ON.with(|o| o.set(have));
    let _off = Off;
    f()
}

/// Starts or clears this thread's record.
pub fn begin() {
    REC.with(|c| {
        if c.get().is_null() {
            c.set(Box::into_raw(Box::new(Rec {
                hits: vec![0; GUARDS],
                touched: Vec::new(),
                cmp: vec![0; CMP_BITS / 64],
                cmp_touched: Vec::new(),
                last: 0,
                nth: 0,
            })));
        }
        let r = unsafe { &mut *c.get() };
        for g in r.touched.drain(..) {
            r.hits[g as usize] = 0;
        }
        for k in r.cmp_touched.drain(..) {
            r.cmp[k as usize / 64] = 0;
        }
        r.last = 0;
        r.nth = 0;
    })
}

/// Stops recording on this thread.
pub fn end() {
    REC.with(|c| {
        let p = c.replace(std::ptr::null_mut());
        if !p.is_null() {
            drop(unsafe { Box::from_raw(p) });
        }
    })
}

/// What all threads have seen.
pub struct Seen {
    buckets: Vec<AtomicU8>,
    times: Vec<AtomicU32>,
    cmp: Vec<AtomicU64>,
}

impl Seen {
    pub fn new() -> Seen {
        Seen {
            buckets: (0..GUARDS).map(|_| AtomicU8::new(0)).collect(),
            times: (0..GUARDS).map(|_| AtomicU32::new(0)).collect(),
            cmp: (0..CMP_BITS / 64).map(|_| AtomicU64::new(0)).collect(),
        }
    }
    /// New (branch features, comparison features), and the rarest branch of this record.
    pub fn merge(&self) -> (usize, usize, u32) {
        let r = REC.with(|c| unsafe { &*c.get() });
        let (mut strong, mut weak) = (0, 0);
        let mut rare = (u32::MAX, 0);
        for g in &r.touched {
            let h = r.hits[*g as usize];
            let b = match h {
                1 => 0,
                2 => 1,
                3 => 2,
                4..=7 => 3,
                8..=15 => 4,
                16..=31 => 5,
                32..=127 => 6,
                _ => 7,
            };
            let m = 1u8 << b;
            let s = &self.buckets[*g as usize];
            if s.load(Ordering::Relaxed) & m == 0 && s.fetch_or(m, Ordering::Relaxed) & m == 0 {
                strong += 1;
            }
            let n = self.times[*g as usize].fetch_add(1, Ordering::Relaxed);
            if n < rare.0 {
                rare = (n, *g);
            }
        }
        for k in &r.cmp_touched {
            let (w, m) = (*k as usize / 64, 1u64 << (k % 64));
            let s = &self.cmp[w];
            if s.load(Ordering::Relaxed) & m == 0 && s.fetch_or(m, Ordering::Relaxed) & m == 0 {
                weak += 1;
            }
        }
        (strong, weak, rare.1)
    }
    pub fn times(&self, g: u32) -> u32 {
        self.times[g as usize].load(Ordering::Relaxed)
    }
    pub fn totals(&self) -> (usize, usize, usize) {
        (
            self.times.iter().filter(|x| x.load(Ordering::Relaxed) > 0).count(),
            self.buckets.iter().map(|x| x.load(Ordering::Relaxed).count_ones() as usize).sum(),
            self.cmp.iter().map(|x| x.load(Ordering::Relaxed).count_ones() as usize).sum(),
        )
    }
}
