//! Counting allocator.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static BIGGEST: AtomicUsize = AtomicUsize::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
/// Live bytes beyond which the process gives up (exit code 77).
pub static CAP: AtomicI64 = AtomicI64::new(i64::MAX);

/// When not 0, the low byte is stored all over newly allocated memory.
static FILL: AtomicU32 = AtomicU32::new(0);

unsafe extern "C" {
    fn _exit(code: i32) -> !;
}

#[inline]
fn add(n: usize) {
    let l = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
    if l > PEAK.load(Relaxed) {
        PEAK.fetch_max(l, Relaxed);
    }
    if n > BIGGEST.load(Relaxed) {
        BIGGEST.fetch_max(n, Relaxed);
    }
    COUNT.fetch_add(1, Relaxed);
    TOTAL.fetch_add(n as u64, Relaxed);
}

#[inline]
fn guard(n: usize) -> bool {
    if n > 1 << 40 {
        return false;
    }
    if LIVE.load(Relaxed).saturating_add(n as i64) > CAP.load(Relaxed) {
        unsafe { _exit(77) }
    }
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !guard(l.size()) {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            add(l.size());
            let f = FILL.load(Relaxed);
            if f != 0 {
                unsafe { p.write_bytes(f as u8, l.size()) }
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !guard(l.size()) {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc_zeroed(l) };
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() && !guard(new - l.size()) {
            return std::ptr::null_mut();
        }
        let q = unsafe { System.realloc(p, l, new) };
        if !q.is_null() {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
            add(new);
            let f = FILL.load(Relaxed);
            if f != 0 && new > l.size() {
                unsafe { q.add(l.size()).write_bytes(f as u8, new - l.size()) }
            }
        }
        q
    }
}

pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}
pub fn count() -> u64 {
    COUNT.load(Relaxed)
}
/// All bytes ever asked for.
pub fn total() -> u64 {
    TOTAL.load(Relaxed)
}
pub fn reset() {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
    BIGGEST.store(0, Relaxed);
}
/// Fills newly allocated memory with a byte while `f` runs.
pub fn filled<T>(byte: u8, f: impl FnOnce() -> T) -> T {
    FILL.store(0x100 | byte as u32, Relaxed);
    let r = f();
    FILL.store(0, Relaxed);
    r
}
/// The byte new memory is filled with.
pub fn fill() -> Option<u8> {
    let f = FILL.load(Relaxed);
    (f != 0).then_some(f as u8)
}
