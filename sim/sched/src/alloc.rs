//! Counting allocator. A single request beyond any proportion ends the process.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::*};

pub struct Counting;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
/// Largest request that is served.
static LIMIT: AtomicUsize = AtomicUsize::new(CEILING);
/// Endless loops mustn't take the memory of the whole machine before they run out of steps.
const CEILING: usize = 3 << 30;

fn more(n: usize) {
    if n > LIMIT.load(Relaxed) {
        super::die(super::EXIT_ALLOC);
    }
    let live = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    // An underflow after `start` counts as nothing.
    if live < usize::MAX / 2 && live > PEAK.load(Relaxed) {
        PEAK.store(live, Relaxed);
        if live > LIMIT.load(Relaxed) {
            super::die(super::EXIT_ALLOC);
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        more(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        more(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        more(n);
        LIVE.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, n)
    }
}

/// Starts measuring what is allocated beyond what is live now.
pub fn start(limit: usize) {
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    LIMIT.store(limit, Relaxed);
}

pub fn peak() -> usize {
    LIMIT.store(CEILING, Relaxed);
    PEAK.load(Relaxed)
}

/// Bytes that are allocated now, more or less a constant.
pub fn live() -> isize {
    LIVE.load(Relaxed) as isize
}
