//! The interface between harnesses and the symbolic engine (or the replay tape).
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
extern "C" {
    fn vp_nd(bits: u32) -> u64;
    fn vp_nd_buf(p: *mut u8, n: u64);
    fn vp_assume(c: u64);
    fn vp_choose(n: u32) -> u32;
    fn vp_concrete(x: u64) -> u64;
    fn vp_fail(p: *const u8, n: u64) -> !;
    fn vp_reach(id: u32);
    fn vp_obs(x: u64);
    fn vp_depth_limit(n: u32);
    fn vp_step_limit(n: u64);
    fn vp_alloc_limit(n: u64);
    fn vp_alloc_cap(n: u64);
    fn vp_live() -> u64;
}

#[cfg(feature = "native")]
mod native {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

    static mut TAPE: Vec<u64> = Vec::new();
    static POS: AtomicUsize = AtomicUsize::new(0);
    static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
    static CAP: AtomicU64 = AtomicU64::new(u64::MAX);
    static LIVE: AtomicU64 = AtomicU64::new(0);

    struct A;
    fn check(n: usize) -> bool {
        if n as u64 > CAP.swap(u64::MAX, Relaxed) {
            println!("ALLOC {}", n);
            std::process::exit(12);
        }
        n as u64 <= LIMIT.load(Relaxed)
    }
    fn keep<T>(f: impl FnOnce() -> T) -> T {
        let c = CAP.load(Relaxed);
        let r = f();
        CAP.store(c, Relaxed);
        r
    }
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(1, Relaxed);
            if keep(|| check(l.size())) { System.alloc(l) } else { LIVE.fetch_sub(1, Relaxed); std::ptr::null_mut() }
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(1, Relaxed);
            if keep(|| check(l.size())) { System.alloc_zeroed(l) } else { LIVE.fetch_sub(1, Relaxed); std::ptr::null_mut() }
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            if keep(|| check(n)) { System.realloc(p, l, n) } else { std::ptr::null_mut() }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(1, Relaxed);
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static GLOBAL: A = A;

    pub fn load(t: Vec<u64>) {
        unsafe { TAPE = t }
    }
    fn next() -> u64 {
        let i = POS.fetch_add(1, Relaxed);
        #[allow(static_mut_refs)]
        unsafe { TAPE.get(i).copied().unwrap_or(0) }
    }
    pub unsafe fn vp_nd(bits: u32) -> u64 {
        let v = next();
        if bits >= 64 { v } else { v & ((1 << bits) - 1) }
    }
    pub unsafe fn vp_nd_buf(p: *mut u8, n: u64) {
        for i in 0..n as usize {
            *p.add(i) = next() as u8;
        }
    }
    pub unsafe fn vp_assume(c: u64) {
        if c & 1 == 0 {
            println!("ASSUME");
            std::process::exit(11);
        }
    }
    pub unsafe fn vp_choose(n: u32) -> u32 {
        let v = next() as u32;
        if v >= n {
            println!("BADTAPE");
            std::process::exit(13);
        }
        v
    }
    pub unsafe fn vp_concrete(x: u64) -> u64 {
        x
    }
    pub unsafe fn vp_fail(p: *const u8, n: u64) -> ! {
        LIMIT.store(u64::MAX, Relaxed);
        CAP.store(u64::MAX, Relaxed);
        println!("FAIL {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n as usize)));
        std::process::exit(10)
    }
    pub unsafe fn vp_reach(_: u32) {}
    pub unsafe fn vp_obs(x: u64) {
        let (l, c) = (LIMIT.swap(u64::MAX, Relaxed), CAP.swap(u64::MAX, Relaxed));
        println!("OBS {}", x);
        LIMIT.store(l, Relaxed);
        CAP.store(c, Relaxed);
    }
    pub unsafe fn vp_depth_limit(_: u32) {}
    pub unsafe fn vp_step_limit(_: u64) {}
    pub unsafe fn vp_alloc_limit(n: u64) {
        LIMIT.store(if n == 0 { u64::MAX } else { n }, Relaxed)
    }
    pub unsafe fn vp_alloc_cap(n: u64) {
        CAP.store(if n == 0 { u64::MAX } else { n }, Relaxed)
    }
    pub unsafe fn vp_live() -> u64 {
        LIVE.load(Relaxed)
    }
    pub fn done() {
        vp_reset();
        println!("DONE");
    }
    pub fn vp_reset() {
        LIMIT.store(u64::MAX, Relaxed);
        CAP.store(u64::MAX, Relaxed);
    }
}
#[cfg(feature = "native")]
use native::*;
#[cfg(feature = "native")]
pub use native::{done, load, vp_reset};

#[inline(always)]
pub fn nd8() -> u8 {
    unsafe { vp_nd(8) as u8 }
}
#[inline(always)]
pub fn nd16() -> u16 {
    unsafe { vp_nd(16) as u16 }
}
#[inline(always)]
pub fn nd32() -> u32 {
    unsafe { vp_nd(32) as u32 }
}
#[inline(always)]
pub fn nd64() -> u64 {
    unsafe { vp_nd(64) }
}
/// a fresh boolean
#[inline(always)]
pub fn ndb() -> bool {
    let x = nd8();
    assume(x < 2);
    x == 1
}
/// a value in 0..n, one path per value
#[inline(always)]
pub fn choose(n: u32) -> u32 {
    unsafe { vp_choose(n) }
}
/// a value in lo..=hi, one path per value
#[inline(always)]
pub fn range(lo: usize, hi: usize) -> usize {
    lo + choose((hi - lo + 1) as u32) as usize
}
#[inline(always)]
pub fn fill(b: &mut [u8]) {
    unsafe { vp_nd_buf(b.as_mut_ptr(), b.len() as u64) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vp_assume(c as u64) }
}
#[inline(always)]
pub fn concrete(x: u64) -> u64 {
    unsafe { vp_concrete(x) }
}
/// the property is violated
#[inline(always)]
pub fn fail(s: &str) -> ! {
    unsafe { vp_fail(s.as_ptr(), s.len() as u64) }
}
/// a cover: the check insists that every declared one is reached
#[inline(always)]
pub fn reach(id: u32) {
    unsafe { vp_reach(id) }
}
#[inline(always)]
pub fn obs(x: u64) {
    unsafe { vp_obs(x) }
}
#[inline(always)]
pub fn depth_limit(n: u32) {
    unsafe { vp_depth_limit(n) }
}
#[inline(always)]
pub fn step_limit(n: u64) {
    unsafe { vp_step_limit(n) }
}
#[inline(always)]
pub fn alloc_limit(n: u64) {
    unsafe { vp_alloc_limit(n) }
}
#[inline(always)]
pub fn alloc_cap(n: u64) {
    unsafe { vp_alloc_cap(n) }
}
/// the number of heap allocations that have not been released
#[inline(always)]
pub fn live() -> u64 {
    unsafe { vp_live() }
}
pub const T: bool = cfg!(feature = "thorough");
/// quick or thorough bound
pub const fn b(q: usize, t: usize) -> usize {
    if T { t } else { q }
}

#[macro_export]
macro_rules! check {
    ($c:expr, $l:literal) => {
        if !$c {
            $crate::vp::fail($l)
        }
    };
}

/// `name, covers, "bound" => { body }`: the driver reads these three from the source text
#[macro_export]
macro_rules! entries {
    ($($(#[$a:meta])* $n:ident, $c:literal, $b:literal => $body:block)*) => {
        $($(#[$a])* #[no_mangle] pub extern "C" fn $n() $body)*
        pub const E: &[(&str, extern "C" fn())] = &[$($(#[$a])* (stringify!($n), $n)),*];
    };
}
