//! Loggers that the simulator installs.

use std::io;
use std::sync::{Arc, Mutex};

use steit::{
    log::{loggers::BufferLogger, LogEntry, Logger},
    rt::{LoggerHandle, Runtime},
    ser::Serialize,
};

use super::{fuse, raise};

/// The entry with its length prefix.
pub fn entry_bytes(entry: &LogEntry) -> Vec<u8> {
    let mut bytes = Vec::new();
    entry.cache_size();
    entry.serialize_nested(None, false, &mut bytes).expect("encoding a log entry");
    bytes
}

/// One call to the logger.
#[derive(Clone, Debug)]
pub struct Call {
    pub multi: bool,
    pub entries: Vec<Vec<u8>>,
    pub refused: bool,
}

#[derive(Default)]
pub struct RecState {
    pub calls: Vec<Call>,
    /// Indices of calls to refuse.
    pub refuse: Vec<(usize, io::ErrorKind)>,
    /// Index of a call that panics before anything is recorded.
    pub panic: Option<usize>,
}

impl RecState {
    /// Everything accepted so far.
    pub fn bytes(&self) -> Vec<u8> {
        self.calls.iter().filter(|c| !c.refused).flat_map(|c| c.entries.concat()).collect()
    }
}

/// Records what it is handed, and sometimes refuses.
#[derive(Clone, Default)]
pub struct Rec(pub Arc<Mutex<RecState>>);

impl Rec {
    fn take(&self, multi: bool, entries: Vec<Vec<u8>>) -> io::Result<()> {
        fuse::tick();
        let mut s = self.0.lock().unwrap();
        let i = s.calls.len();
        if s.panic == Some(i) {
            s.panic = None;
            drop(s);
            raise();
        }
        let refusal = s.refuse.iter().find(|(at, _)| *at == i).map(|(_, kind)| *kind);
        s.calls.push(Call {
            multi,
            entries,
            refused: refusal.is_some(),
        });
        match refusal {
            Some(kind) => Err(io::Error::new(kind, "simulated refusal")),
            None => Ok(()),
        }
    }
}

impl Logger for Rec {
    fn log(&mut self, entry: LogEntry) -> io::Result<()> {
        self.take(false, vec![entry_bytes(&entry)])
    }
    fn log_multi(&mut self, entries: Vec<LogEntry>) -> io::Result<()> {
        self.take(true, entries.iter().map(entry_bytes).collect())
    }
}

/// A logger handed to the runtime through wrappers.
pub fn rec_runtime(wrap: usize) -> (Runtime, Rec) {
    let rec = Rec::default();
    let l = rec.clone();
    let rt = match wrap % 4 {
        0 => Runtime::with_logger(l),
        1 => Runtime::with_logger(Box::new(l)),
        2 => {
            let l: Box<dyn Logger> = Box::new(l);
            Runtime::with_logger(l)
        }
        _ => {
            let l: Box<dyn Logger> = Box::new(l);
            Runtime::with_logger(Box::new(Box::new(l)))
        }
    };
    (rt, rec)
}

pub type Handle = LoggerHandle<BufferLogger>;

/// A runtime whose log can be read.
pub fn buffer_runtime() -> (Runtime, Handle) {
    Runtime::with_logger_returned(BufferLogger::new())
}

pub fn log_of(handle: &Handle) -> Vec<u8> {
    handle.lock().unwrap().bytes()
}

/// A logger that can be replaced under its handle, through wrappers.
pub fn rec_slot(wrap: usize) -> (Runtime, Rec, Box<dyn Fn(Rec) -> Rec>) {
    let rec = Rec::default();
    let l = rec.clone();
    match wrap % 4 {
        0 => {
            let (rt, h) = Runtime::with_logger_returned(l);
            (rt, rec, Box::new(move |r: Rec| {
                h.lock().unwrap().replace(r.clone());
                r
            }))
        }
        1 => {
            let (rt, h) = Runtime::with_logger_returned(Box::new(l));
            (rt, rec, Box::new(move |r: Rec| {
                h.lock().unwrap().replace(Box::new(r.clone()));
                r
            }))
        }
        2 => {
            let l: Box<dyn Logger> = Box::new(l);
            let (rt, h) = Runtime::with_logger_returned(l);
            (rt, rec, Box::new(move |r: Rec| {
                h.lock().unwrap().replace(Box::new(r.clone()));
                r
            }))
        }
        _ => {
            let l: Box<dyn Logger> = Box::new(l);
            let (rt, h) = Runtime::with_logger_returned(Box::new(Box::new(l)));
            (rt, rec, Box::new(move |r: Rec| {
                let l: Box<dyn Logger> = Box::new(r.clone());
                h.lock().unwrap().replace(Box::new(Box::new(l)));
                r
            }))
        }
    }
}

/// A text log.
pub fn text_runtime(w: impl io::Write + Send + 'static, wrap: usize) -> Runtime {
    let l = steit::log::loggers::WriterLogger::new(w);
    match wrap % 3 {
        0 => Runtime::with_logger(l),
        1 => Runtime::with_logger(Box::new(l)),
        _ => {
            let l: Box<dyn Logger> = Box::new(l);
            Runtime::with_logger(l)
        }
    }
}
