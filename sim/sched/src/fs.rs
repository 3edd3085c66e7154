//! File system calls below one directory, with faults.

use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;

use super::raw;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    /// The call fails with this error.
    Error(i32),
    /// A write takes this many bytes at most.
    Short(usize),
    /// A write takes this many bytes at most, and the next one fails with this error.
    Torn(usize, i32),
    /// This and all later writes fail with this error (disk full).
    From(i32),
    /// The process is gone: a write takes this many bytes, and nothing happens after it.
    Crash(usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Open,
    Write,
    Mkdir,
    Rename,
    Sync,
    Unlink,
}

/// What a process that is gone gets, for want of anything better (EIO).
const GONE: i32 = 5;

#[derive(Default)]
struct Fs {
    dir: Vec<u8>,
    fds: Vec<i32>,
    /// Calls so far, by kind.
    calls: Vec<Op>,
    /// Faults by index of the call.
    faults: Vec<(usize, Fault)>,
    from: Option<i32>,
    crashed: bool,
    next_write: Option<i32>,
    fired: Vec<(Op, Fault)>,
}

static ON: AtomicBool = AtomicBool::new(false);
static FS: Mutex<Option<Fs>> = Mutex::new(None);
pub static CALLS: AtomicU64 = AtomicU64::new(0);

/// Tracks the calls below `dir` (which must not end in a slash).
pub fn track(dir: &str, faults: Vec<(usize, Fault)>) {
    *FS.lock().unwrap() = Some(Fs {
        dir: dir.as_bytes().to_vec(),
        faults,
        ..Fs::default()
    });
    ON.store(true, SeqCst);
}

/// Stops tracking; the calls that were made, and the faults that happened.
pub fn untrack() -> (Vec<Op>, Vec<(Op, Fault)>) {
    ON.store(false, SeqCst);
    let fs = FS.lock().unwrap().take().unwrap_or_default();
    CALLS.fetch_add(fs.calls.len() as u64, Relaxed);
    (fs.calls, fs.fired)
}

fn with<R>(f: impl FnOnce(&mut Fs) -> R) -> Option<R> {
    if !ON.load(Relaxed) {
        return None;
    }
    FS.lock().unwrap().as_mut().map(f)
}

impl Fs {
    fn inside(&self, path: &[u8]) -> bool {
        path.starts_with(&self.dir) && (path.len() == self.dir.len() || path[self.dir.len()] == b'/')
    }

    fn fault(&mut self, op: Op) -> Option<Fault> {
        let i = self.calls.len();
        self.calls.push(op);
        if self.crashed {
            return Some(Fault::Error(GONE));
        }
        let fault = self.faults.iter().find(|(at, _)| *at == i).map(|(_, f)| *f);
        if let Some(f) = fault {
            if op != Op::Write && matches!(f, Fault::Short(_) | Fault::Torn(..)) {
                return None;
            }
            self.fired.push((op, f));
            match f {
                Fault::From(e) => self.from = Some(e),
                Fault::Crash(_) => self.crashed = true,
                _ => {}
            }
        }
        fault
    }

    fn error(&mut self, op: Op) -> Option<i32> {
        match self.fault(op) {
            Some(Fault::Error(e)) | Some(Fault::From(e)) => Some(e),
            Some(Fault::Crash(_)) => Some(GONE),
            _ => self.from.filter(|_| op == Op::Open || op == Op::Mkdir),
        }
    }
}

unsafe fn path_of(p: *const i8) -> &'static [u8] {
    CStr::from_ptr(p).to_bytes()
}

unsafe fn do_open(path: *const i8, flags: i32, mode: u32) -> i32 {
    // Only calls that may create or write count.
    let tracked = with(|fs| fs.inside(path_of(path)) && flags & 3 != 0).unwrap_or(false);
    if tracked {
        if let Some(e) = with(|fs| fs.error(Op::Open)).flatten() {
            return raw::fail(e) as i32;
        }
    }
    let fd = raw::ret(raw::syscall6(257, -100i32 as usize, path as usize, flags as usize, mode as usize, 0, 0)) as i32;
    if tracked && fd >= 0 {
        with(|fs| {
            if !fs.fds.contains(&fd) {
                fs.fds.push(fd)
            }
        });
    } else if fd >= 0 {
        with(|fs| fs.fds.retain(|x| *x != fd));
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
    do_open(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const i8, flags: i32, mode: u32) -> i32 {
    do_open(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const i8, mode: u32) -> i32 {
    if let Some(Some(e)) = with(|fs| if fs.inside(path_of(path)) { fs.error(Op::Mkdir) } else { None }) {
        return raw::fail(e) as i32;
    }
    raw::ret(raw::syscall6(83, path as usize, mode as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const i8, b: *const i8) -> i32 {
    if let Some(Some(e)) = with(|fs| if fs.inside(path_of(b)) { fs.error(Op::Rename) } else { None }) {
        return raw::fail(e) as i32;
    }
    raw::ret(raw::syscall6(82, a as usize, b as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const i8) -> i32 {
    if let Some(Some(e)) = with(|fs| if fs.inside(path_of(path)) { fs.error(Op::Unlink) } else { None }) {
        return raw::fail(e) as i32;
    }
    raw::ret(raw::syscall6(87, path as usize, 0, 0, 0, 0, 0)) as i32
}

unsafe fn do_sync(fd: i32, num: usize) -> i32 {
    if let Some(Some(e)) = with(|fs| if fs.fds.contains(&fd) { fs.error(Op::Sync) } else { None }) {
        return raw::fail(e) as i32;
    }
    raw::ret(raw::syscall6(num, fd as usize, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    do_sync(fd, 74)
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    do_sync(fd, 75)
}

/// What a write of `n` bytes does: an error, or at most so many bytes.
fn on_write(fd: i32, n: usize) -> Result<usize, i32> {
    with(|fs| {
        if !fs.fds.contains(&fd) || n == 0 {
            return Ok(n);
        }
        if let Some(e) = fs.from.filter(|_| !fs.crashed) {
            fs.calls.push(Op::Write);
            return Err(e);
        }
        if let Some(e) = fs.next_write.take() {
            fs.calls.push(Op::Write);
            return Err(e);
        }
        match fs.fault(Op::Write) {
            None => Ok(n),
            Some(Fault::Error(e)) | Some(Fault::From(e)) => Err(e),
            Some(Fault::Short(k)) => Ok(k.min(n)),
            Some(Fault::Crash(0)) => Err(GONE),
            Some(Fault::Crash(k)) => Ok(k.min(n)),
            Some(Fault::Torn(k, e)) => {
                fs.next_write = Some(e);
                Ok(k.clamp(1, n))
            }
        }
    })
    .unwrap_or(Ok(n))
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    match on_write(fd, n) {
        Err(e) => raw::fail(e) as isize,
        Ok(k) => raw::ret(raw::syscall6(1, fd as usize, buf as usize, k, 0, 0, 0)) as isize,
    }
}

#[repr(C)]
pub struct IoVec {
    base: *const u8,
    len: usize,
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const IoVec, n: i32) -> isize {
    let tracked = with(|fs| fs.fds.contains(&fd)).unwrap_or(false);
    if tracked {
        let first = (0..n as usize).map(|i| &*iov.add(i)).find(|v| v.len > 0);
        return match first {
            Some(v) => write(fd, v.base, v.len),
            None => 0,
        };
    }
    raw::ret(raw::syscall6(20, fd as usize, iov as usize, n as usize, 0, 0, 0)) as isize
}
