//! One simulated thread runs at a time; a seeded or recorded schedule says which.

use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

use super::raw;

pub const MAX: usize = 16;

/// At the given step, the running thread was replaced by another one.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Switch {
    pub step: u64,
    pub to: u8,
}

pub enum Schedule {
    /// Preempts after gaps of the given mean; `None` runs each thread until it blocks or ends.
    Seeded { seed: u64, mean: u64 },
    Recorded(Vec<Switch>),
}

#[derive(Clone, Default, Debug)]
pub struct Trace {
    pub switches: Vec<Switch>,
    pub steps: u64,
    pub preemptions: u64,
    pub blocks: u64,
    /// Hash of the places at which threads were switched.
    pub hash: u64,
    /// Threads that ended by a panic.
    pub panics: Vec<usize>,
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    Blocked(usize),
    Done,
}

struct Sim {
    n: usize,
    st: [St; MAX],
    trace: Trace,
    next: u64,
    rng: u64,
    mean: u64,
    script: Option<(Vec<Switch>, usize)>,
    budget: u64,
}

struct Cell0(UnsafeCell<Option<Sim>>);
unsafe impl Sync for Cell0 {}

// Only touched by the thread whose turn it is (or before and after all of them run).
static SIM: Cell0 = Cell0(UnsafeCell::new(None));
static TURN: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
static ACTIVE: AtomicBool = AtomicBool::new(false);
static DUMP: Cell0Path = Cell0Path(UnsafeCell::new(None));
struct Cell0Path(UnsafeCell<Option<String>>);
unsafe impl Sync for Cell0Path {}

thread_local! {
    static ME: Cell<u32> = const { Cell::new(0) };
}

fn me() -> usize {
    ME.try_with(|m| m.get()).unwrap_or(0) as usize
}

/// Whether the calling thread is scheduled by the simulation.
pub fn simulated() -> bool {
    ACTIVE.load(Relaxed) && me() > 0
}

fn sim() -> &'static mut Sim {
    unsafe { (*SIM.0.get()).as_mut().unwrap() }
}

fn xorshift(s: &mut Sim) -> u64 {
    s.rng ^= s.rng << 13;
    s.rng ^= s.rng >> 7;
    s.rng ^= s.rng << 17;
    s.rng.wrapping_mul(0x2545f4914f6cdd1d)
}

fn gap(s: &mut Sim) -> u64 {
    if s.mean == 0 {
        return u64::MAX / 2;
    }
    // A mix of short and long runs around the mean.
    let x = xorshift(s) % (s.mean * 2) + 1;
    if xorshift(s) % 8 == 0 {
        x * 8
    } else {
        x
    }
}

fn wait_turn(i: usize) {
    loop {
        for _ in 0..200 {
            if TURN[i].load(Acquire) == 1 {
                TURN[i].store(0, Relaxed);
                return;
            }
            std::hint::spin_loop();
        }
        unsafe {
            raw::syscall6(202, TURN[i].as_ptr() as usize, 128, 0, 0, 0, 0);
        }
    }
}

fn give_turn(i: usize) {
    TURN[i].store(1, Release);
    unsafe {
        raw::syscall6(202, TURN[i].as_ptr() as usize, 129, 1, 0, 0, 0);
    }
}

fn pick_ready(s: &mut Sim, not: usize) -> Option<usize> {
    let ready: [bool; MAX] = std::array::from_fn(|i| i < s.n && i != not && s.st[i] == St::Ready);
    let n = ready.iter().filter(|r| **r).count();
    if n == 0 {
        return None;
    }
    let k = match &mut s.script {
        Some(_) => 0,
        None => xorshift(s) as usize % n,
    };
    (0..MAX).filter(|&i| ready[i]).nth(k)
}

fn hand_over(s: &mut Sim, me: usize, to: usize, place: u32) {
    let step = s.trace.steps;
    s.trace.switches.push(Switch { step, to: to as u8 });
    s.trace.hash = (s.trace.hash ^ ((place as u64) << 8 | (me as u64) << 4 | to as u64))
        .wrapping_mul(0x100000001b3)
        .rotate_left(17);
    give_turn(to);
}

/// A possible preemption.
pub fn edge(place: u32) {
    if !ACTIVE.load(Relaxed) {
        return;
    }
    let me = me();
    if me == 0 {
        return;
    }
    let me = me - 1;
    let s = sim();
    s.trace.steps += 1;
    if s.trace.steps > s.budget {
        super::die(super::EXIT_HANG);
    }
    let to = match &mut s.script {
        Some((script, i)) => {
            while *i < script.len() && script[*i].step < s.trace.steps {
                *i += 1;
            }
            match script.get(*i) {
                Some(sw) if sw.step == s.trace.steps => {
                    *i += 1;
                    let to = sw.to as usize;
                    if to < s.n && to != me && s.st[to] == St::Ready {
                        Some(to)
                    } else {
                        None
                    }
                }
                _ => None,
            }
        }
        None => {
            if s.trace.steps < s.next {
                None
            } else {
                s.next = s.trace.steps + gap(s);
                pick_ready(s, me)
            }
        }
    };
    if let Some(to) = to {
        s.trace.preemptions += 1;
        hand_over(s, me, to, place);
        wait_turn(me);
    }
}

/// The calling thread can't go on; somebody else must.
fn forced(s: &mut Sim, me: usize, place: u32) -> bool {
    s.trace.steps += 1;
    let mut to = None;
    if let Some((script, i)) = &mut s.script {
        while *i < script.len() && script[*i].step < s.trace.steps {
            *i += 1;
        }
        if let Some(sw) = script.get(*i) {
            let t = sw.to as usize;
            if sw.step == s.trace.steps {
                *i += 1;
                if t < s.n && t != me && s.st[t] == St::Ready {
                    to = Some(t);
                }
            }
        }
    }
    match to.or_else(|| pick_ready(s, me)) {
        Some(to) => {
            hand_over(s, me, to, place);
            true
        }
        None => false,
    }
}

pub fn futex(addr: usize, op: usize, val: usize, timeout: usize, addr2: usize, val3: usize) -> i64 {
    let me = me() - 1;
    let s = sim();
    match op & 0x7f {
        // WAIT, WAIT_BITSET
        0 | 9 => unsafe {
            if (*(addr as *const AtomicU32)).load(SeqCst) != val as u32 {
                return raw::fail(11);
            }
            s.trace.blocks += 1;
            s.st[me] = St::Blocked(addr);
            if !forced(s, me, 1) {
                if timeout != 0 {
                    s.st[me] = St::Ready;
                    return raw::fail(110);
                }
                super::die(super::EXIT_DEADLOCK);
            }
            wait_turn(me);
            0
        },
        // WAKE, WAKE_BITSET
        1 | 10 => {
            let mut woken = 0;
            while woken < val.min(MAX) {
                let n = (0..s.n).filter(|&i| s.st[i] == St::Blocked(addr)).count();
                if n == 0 {
                    break;
                }
                let k = if s.script.is_some() { 0 } else { xorshift(s) as usize % n };
                let i = (0..s.n).filter(|&i| s.st[i] == St::Blocked(addr)).nth(k).unwrap();
                s.st[i] = St::Ready;
                woken += 1;
            }
            let real = unsafe { raw::syscall6(202, addr, op, val - woken.min(val), 0, 0, val3) };
            edge(0);
            woken as i64 + real.max(0)
        }
        _ => unsafe { raw::ret(raw::syscall6(202, addr, op, val, timeout, addr2, val3)) },
    }
}

/// Where to leave the schedule of a run that can't return.
pub fn dump_to(path: Option<String>) {
    unsafe { *DUMP.0.get() = path };
}

pub(crate) fn dump() {
    unsafe {
        if let (Some(path), Some(s)) = (&*DUMP.0.get(), &*SIM.0.get()) {
            let text: Vec<String> = s.trace.switches.iter().map(|w| format!("{} {}", w.step, w.to)).collect();
            let _ = std::fs::write(path, text.join("\n"));
        }
    }
}

static MOST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// The most steps any one run of threads has taken here.
pub fn most_steps() -> u64 {
    MOST.load(Relaxed)
}

/// Runs the threads to their ends, one at a time.
pub fn run(schedule: Schedule, budget: u64, bodies: Vec<Box<dyn FnOnce() + Send + '_>>) -> Trace {
    let n = bodies.len();
    assert!(n > 0 && n <= MAX);
    let mut s = Sim {
        n,
        st: [St::Done; MAX],
        trace: Trace::default(),
        next: 0,
        rng: 1,
        mean: 0,
        script: None,
        budget,
    };
    s.st[..n].fill(St::Ready);
    s.trace.hash = 0xcbf29ce484222325;
    let first = match schedule {
        Schedule::Seeded { seed, mean } => {
            s.rng = seed | 1;
            s.mean = mean;
            s.next = gap(&mut s);
            xorshift(&mut s) as usize % n
        }
        Schedule::Recorded(script) => {
            let first = script.first().filter(|w| w.step == 0).map_or(0, |w| w.to as usize % n);
            s.script = Some((script, 0));
            first
        }
    };
    s.trace.switches.push(Switch { step: 0, to: first as u8 });
    unsafe { *SIM.0.get() = Some(s) };
    TURN.iter().for_each(|t| t.store(0, Relaxed));
    ACTIVE.store(true, SeqCst);
    std::thread::scope(|scope| {
        for (i, body) in bodies.into_iter().enumerate() {
            scope.spawn(move || {
                wait_turn(i);
                ME.with(|m| m.set(i as u32 + 1));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
                ME.with(|m| m.set(0));
                let s = sim();
                if r.is_err() {
                    s.trace.panics.push(i);
                }
                drop(r);
                s.st[i] = St::Done;
                if !forced(s, i, 2) && s.st[..n].iter().any(|st| *st != St::Done) {
                    super::die(super::EXIT_DEADLOCK);
                }
            });
        }
        give_turn(first);
    });
    ACTIVE.store(false, SeqCst);
    MOST.fetch_max(sim().trace.steps, Relaxed);
    unsafe { (*SIM.0.get()).take().unwrap().trace }
}
