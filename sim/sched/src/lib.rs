#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
//! The simulator's hold on everything below the library: a scheduler for its threads, its source
//! of randomness, its allocator and its file system. Nothing in here is instrumented.
//!
//! * Every control-flow edge of the instrumented crates calls `__sanitizer_cov_trace_pc_guard`.
//!   While simulated threads run, each such call is a point at which the scheduler may hand over
//!   to another thread; in any case it counts towards the step budget of a run.
//! * `syscall` is interposed, so that a thread that would block in a futex is parked by the
//!   scheduler instead, and a state in which all of them are blocked is a deadlock.
//! * `getrandom` is interposed, so that hash maps are seeded by the simulation.
//! * File system calls below a tracked directory can be made to fail.

pub mod alloc;
pub mod fs;
mod raw;
mod threads;

pub use threads::*;

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};

/// Exit codes of a run that could not return.
pub const EXIT_HANG: i32 = 77;
pub const EXIT_ALLOC: i32 = 78;
pub const EXIT_DEADLOCK: i32 = 79;

pub const MAX_EDGES: usize = 1 << 18;
static EDGES: [AtomicU8; MAX_EDGES] = [const { AtomicU8::new(0) }; MAX_EDGES];
static GUARDS: AtomicUsize = AtomicUsize::new(0);

/// Number of edges in the instrumented code, and how many were passed in this process.
pub fn edges() -> (usize, usize) {
    let n = GUARDS.load(Relaxed);
    let hit = EDGES[..(n + 1).min(MAX_EDGES)].iter().filter(|e| e.load(Relaxed) != 0).count();
    (n, hit)
}

pub fn hit_edges() -> Vec<u32> {
    let n = GUARDS.load(Relaxed);
    (0..(n + 1).min(MAX_EDGES) as u32).filter(|&i| EDGES[i as usize].load(Relaxed) != 0).collect()
}

thread_local! {
    /// Remaining steps; 0 if not limited.
    static BUDGET: Cell<u64> = const { Cell::new(0) };
}

/// Limits the instrumented steps of the current thread; running out of them ends the process.
pub fn budget(steps: u64) {
    BUDGET.with(|b| b.set(steps));
}

pub fn budget_left() -> u64 {
    BUDGET.with(|b| b.get())
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = GUARDS.fetch_add(1, Relaxed) as u32 + 1;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let id = *guard as usize;
    if id < MAX_EDGES {
        let e = &EDGES[id];
        if e.load(Relaxed) == 0 {
            e.store(1, Relaxed);
        }
    }
    let _ = BUDGET.try_with(|b| {
        let left = b.get();
        if left > 0 {
            b.set(left - 1);
            if left == 1 {
                die(EXIT_HANG);
            }
        }
    });
    threads::edge(id as u32);
}

/// Ends the process at once, leaving the schedule behind for the replay file.
pub fn die(code: i32) -> ! {
    threads::dump();
    unsafe { raw::exit(code) }
}

/// Seed of `getrandom`; 0 passes it through.
static RANDOM: AtomicU64 = AtomicU64::new(0);
pub static RANDOM_CALLS: AtomicU32 = AtomicU32::new(0);

pub fn seed_random(seed: u64) {
    RANDOM.store(seed | 1, Relaxed);
}

fn fill_random(buf: *mut u8, len: usize) -> bool {
    let mut x = RANDOM.load(Relaxed);
    if x == 0 {
        return false;
    }
    RANDOM_CALLS.fetch_add(1, Relaxed);
    for i in 0..len {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        unsafe { *buf.add(i) = (x >> 56) as u8 };
    }
    RANDOM.store(x | 1, Relaxed);
    true
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if fill_random(buf, len) {
        return len as isize;
    }
    raw::ret(raw::syscall6(318, buf as usize, len, flags as usize, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    num: i64,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> i64 {
    match num {
        202 if threads::simulated() => threads::futex(a, b, c, d, e, f),
        318 if fill_random(a as *mut u8, b) => b as i64,
        _ => raw::ret(raw::syscall6(num as usize, a, b, c, d, e, f)),
    }
}
