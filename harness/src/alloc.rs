//! Counting allocator: live and peak heap bytes, and bytes requested in total. Calls to it are also the points at which two parses
//! that run at the same time are interleaved (see sched.rs).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
/// Requests that would take the live heap above this fail (the process then aborts, and the
/// supervisor attributes the abort to the trace being executed).
pub static CAP: AtomicUsize = AtomicUsize::new(3 << 30);

/// Bytes asked for, in total.
static REQUESTED: AtomicUsize = AtomicUsize::new(0);
pub fn requested() -> u64 {
    REQUESTED.load(Relaxed) as u64
}

pub struct Counting;

#[inline]
fn add(n: usize) {
    let live = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    if live > PEAK.load(Relaxed) {
        PEAK.store(live, Relaxed);
    }
}
#[inline]
fn sub(n: usize) {
    LIVE.fetch_sub(n, Relaxed);
}
#[inline]
fn too_much(n: usize) -> bool {
    LIVE.load(Relaxed).saturating_add(n) > CAP.load(Relaxed)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _turn = crate::sched::point();
        if too_much(l.size()) {
            return std::ptr::null_mut();
        }
        add(l.size());
        REQUESTED.fetch_add(l.size(), Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _turn = crate::sched::point();
        if too_much(l.size()) {
            return std::ptr::null_mut();
        }
        add(l.size());
        REQUESTED.fetch_add(l.size(), Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _turn = crate::sched::point();
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let _turn = crate::sched::point();
        if new > l.size() && too_much(new - l.size()) {
            return std::ptr::null_mut();
        }
        if new > l.size() {
            add(new - l.size());
            REQUESTED.fetch_add(new, Relaxed);
        } else {
            sub(l.size() - new);
        }
        System.realloc(p, l, new)
    }
}

/// Starts a measurement: the peak is now the present live size, which is returned.
pub fn mark() -> usize {
    let live = LIVE.load(Relaxed);
    PEAK.store(live, Relaxed);
    live
}
/// Peak above the mark.
pub fn peak_since(mark: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(mark)
}
