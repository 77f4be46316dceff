//! Counts live and peak heap bytes of the current thread's work.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
pub struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // a request beyond this is refused: the caller then aborts, which the runner reports
        let n = LIVE.fetch_add(l.size() as isize, Relaxed) + l.size() as isize;
        PEAK.fetch_max(n, Relaxed);
        if l.size() > 1 << 31 { return std::ptr::null_mut(); }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Relaxed);
        System.dealloc(p, l)
    }
}
pub fn start() -> isize { let n = LIVE.load(Relaxed); PEAK.store(n, Relaxed); n }
pub fn peak(base: isize) -> isize { PEAK.load(Relaxed) - base }
