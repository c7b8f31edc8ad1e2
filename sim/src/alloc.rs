//! The allocator of the simulation: counts live bytes and the largest request, and refuses requests
//! no honest message can cause (the process then aborts, which the orchestrator reports).

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);

const REFUSE: usize = 512 << 20;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = l.size();
        if n > LARGEST.load(Relaxed) {
            LARGEST.store(n, Relaxed);
        }
        if n > REFUSE {
            return core::ptr::null_mut();
        }
        let live = LIVE.fetch_add(n, Relaxed) + n;
        if live > PEAK.load(Relaxed) {
            PEAK.store(live, Relaxed);
        }
        System.alloc(l)
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > LARGEST.load(Relaxed) {
            LARGEST.store(n, Relaxed);
        }
        if n > REFUSE {
            return core::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE.fetch_sub(l.size(), Relaxed);
            let live = LIVE.fetch_add(n, Relaxed) + n;
            if live > PEAK.load(Relaxed) {
                PEAK.store(live, Relaxed);
            }
        }
        q
    }
}

/// Starts a measurement, returns the live bytes at its start.
pub fn start() -> usize {
    let live = LIVE.load(Relaxed);
    PEAK.store(live, Relaxed);
    LARGEST.store(0, Relaxed);
    live
}

/// The growth of live bytes at its peak and the largest single request since `start`.
pub fn measure(start: usize) -> (usize, usize) {
    (PEAK.load(Relaxed).saturating_sub(start), LARGEST.load(Relaxed))
}
