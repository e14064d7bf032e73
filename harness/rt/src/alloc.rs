//! Allocator that records the high-water mark and refuses absurd requests by unwinding tests cannot miss.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    sync::atomic::{AtomicUsize, Ordering::Relaxed},
};

pub struct Track;
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
/// requests above this fail
const REFUSE: usize = 1 << 31;

unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE { return std::ptr::null_mut(); }
        let n = CUR.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(n, Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > REFUSE { return std::ptr::null_mut(); }
        let n = if new >= l.size() { CUR.fetch_add(new - l.size(), Relaxed) + (new - l.size()) } else { CUR.fetch_sub(l.size() - new, Relaxed) - (l.size() - new) };
        PEAK.fetch_max(n, Relaxed);
        unsafe { System.realloc(p, l, new) }
    }
}

/// Start measuring.
pub fn reset() -> usize { let n = CUR.load(Relaxed); PEAK.store(n, Relaxed); n }
/// Bytes above `base` at the highest point since the reset.
pub fn peak(base: usize) -> usize { PEAK.load(Relaxed).saturating_sub(base) }
