//! Heap accounting, switched on only while the code under test runs (single-threaded checks).

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

fn add(n: i64) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            add(l.size() as i64);
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            add(l.size() as i64);
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            add(-(l.size() as i64));
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.load(Relaxed) {
            // both blocks may exist for a moment
            add(n as i64);
            add(-(l.size() as i64));
        }
        System.realloc(p, l, n)
    }
}

pub fn reset() {
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
}
pub fn on() -> bool {
    ON.swap(true, Relaxed)
}
pub fn pause() -> bool {
    ON.swap(false, Relaxed)
}
pub fn resume(was: bool) {
    ON.store(was, Relaxed)
}
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}
