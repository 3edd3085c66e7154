//! What all scenarios share: runs, their outcomes, and the places events come from.

use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fs::File;
use std::io::Write;

use model::{mix, Rng};
use sched::Switch;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::Value;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Violation {
    /// What kind of failure it is; minimisation keeps it.
    pub class: String,
    pub message: String,
}

pub enum Stop {
    Violation(Violation),
    /// The run can't go on because of something another property is about.
    Other(String),
}

pub type Res<T = ()> = Result<T, Stop>;

pub fn violation<T>(class: &str, message: String) -> Res<T> {
    Err(Stop::Violation(Violation {
        class: class.to_string(),
        message,
    }))
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A run, exactly.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub property: String,
    pub scenario: String,
    pub seed: u64,
    pub tier: Tier,
    pub events: Vec<Value>,
    /// Thread switches as (step, thread).
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub schedule: Option<Vec<(u64, u8)>>,
    /// Selects between schedules of one seed.
    #[serde(default)]
    pub salt: u64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub violation: Option<Violation>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trace_hash: Option<u64>,
}

/// A run in progress.
pub struct Ctx {
    pub prop: u8,
    pub seed: u64,
    pub tier: Tier,
    pub hash: u64,
    pub counts: BTreeMap<String, u64>,
    pub clock_ms: u64,
    pub schedule: Option<Vec<Switch>>,
    pub salt: u64,
    pub switches: Vec<Switch>,
    pub work: String,
    pub verbose: bool,
}

impl Ctx {
    pub fn count(&mut self, what: &str, n: u64) {
        if n > 0 {
            *self.counts.entry(what.to_string()).or_insert(0) += n;
        }
    }

    /// Makes something part of the trace.
    pub fn note(&mut self, x: &[u8]) {
        let mut h = self.hash ^ x.len() as u64;
        for c in x.chunks(8) {
            let mut b = [0; 8];
            b[..c.len()].copy_from_slice(c);
            h = (h ^ u64::from_le_bytes(b)).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23);
        }
        self.hash = mix(h);
    }

    pub fn is(&self, tags: &[u8]) -> bool {
        tags.contains(&self.prop)
    }

    /// Something that must hold for the given properties. If it doesn't, and the run isn't about
    /// one of them, there is nothing more to be learnt from the run.
    pub fn check(&mut self, tags: &[u8], ok: bool, class: &str, message: impl FnOnce() -> String) -> Res {
        if ok {
            Ok(())
        } else if self.is(tags) {
            violation(class, message())
        } else {
            Err(Stop::Other(class.to_string()))
        }
    }

    pub fn tick(&mut self, ms: u64) {
        self.clock_ms += ms;
    }
}

/// Where the events of a run come from: drawn as it goes, or taken from a plan.
pub struct Src<E> {
    script: Option<std::vec::IntoIter<E>>,
    left: usize,
    pub rng: Rng,
    pub taken: Vec<E>,
    journal: Option<File>,
}

impl<E: Serialize + DeserializeOwned + Clone> Src<E> {
    /// Whether the next event is up to the generator.
    pub fn drawing(&self) -> bool {
        self.script.is_none()
    }

    /// Sets how many events are drawn.
    pub fn limit(&mut self, n: usize) {
        self.left = n;
    }

    pub fn next(&mut self, make: impl FnOnce(&mut Rng) -> E) -> Option<E> {
        let e = match &mut self.script {
            Some(script) => script.next()?,
            None => {
                self.left = self.left.checked_sub(1)?;
                make(&mut self.rng)
            }
        };
        if let Some(j) = &mut self.journal {
            let _ = writeln!(j, "{}", serde_json::to_string(&e).unwrap());
        }
        self.taken.push(e.clone());
        Some(e)
    }
}

pub trait Scenario {
    const NAME: &'static str;
    type Ev: Serialize + DeserializeOwned + Clone + Send + 'static;
    fn run(src: &mut Src<Self::Ev>, ctx: &mut Ctx) -> Res;
    /// Simpler events that may do the same.
    fn simpler(_: &Self::Ev) -> Vec<Self::Ev> {
        Vec::new()
    }
    /// Step budget of the main thread.
    fn budget() -> u64 {
        2_000_000_000
    }
}

pub struct Outcome {
    pub violation: Option<Violation>,
    pub other: Option<String>,
    pub hash: u64,
    pub counts: BTreeMap<String, u64>,
    pub clock_ms: u64,
    pub events: Vec<Value>,
    pub switches: Vec<Switch>,
    pub steps: u64,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let place = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit("/repo/").next().unwrap(), l.line()))
            .unwrap_or_default();
        let text = payload_text(info.payload());
        if std::env::var_os("SIM_BACKTRACE").is_some() {
            eprintln!("panic at {}: {}\n{}", place, text, std::backtrace::Backtrace::force_capture());
        }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some((place, text)));
    }));
}

pub fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}

/// Text and place of the last panic on this thread.
pub fn last_panic() -> String {
    PANIC.with(|p| match p.borrow_mut().take() {
        Some((place, text)) => format!("{} (at {})", text, place),
        None => "?".to_string(),
    })
}

/// Runs `f`; the text of the panic if it panics.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| {
        if let Some(s) = p.downcast_ref::<&str>() {
            if *s == schemas::BUILDER_PANIC {
                return s.to_string();
            }
        }
        last_panic()
    })
}

pub struct Options {
    pub journal: Option<String>,
    pub work: String,
    pub verbose: bool,
}

pub fn prop_no(p: &str) -> u8 {
    p.trim_start_matches('C').parse().expect("a property id")
}

/// Executes one run on a thread of its own.
pub fn execute<S: Scenario>(plan: &Plan, script: bool, opt: &Options) -> Outcome {
    let events: Option<Vec<S::Ev>> = if script {
        Some(
            plan.events
                .iter()
                .map(|e| serde_json::from_value(e.clone()).expect("an event"))
                .collect(),
        )
    } else {
        None
    };
    let mut ctx = Ctx {
        prop: prop_no(&plan.property),
        seed: plan.seed,
        tier: plan.tier,
        hash: plan.seed,
        counts: BTreeMap::new(),
        clock_ms: 0,
        schedule: plan
            .schedule
            .as_ref()
            .map(|s| s.iter().map(|&(step, to)| Switch { step, to }).collect()),
        salt: plan.salt,
        switches: Vec::new(),
        work: opt.work.clone(),
        verbose: opt.verbose,
    };
    let mut src = Src {
        script: events.map(|e| e.into_iter()),
        left: 0,
        rng: Rng::new(plan.seed),
        taken: Vec::new(),
        journal: opt.journal.as_ref().map(|p| File::create(p).expect("journal")),
    };
    sched::seed_random(mix(plan.seed));
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            sched::budget(S::budget());
            let r = guarded(|| S::run(&mut src, &mut ctx));
            let steps = S::budget() - sched::budget_left();
            sched::budget(0);
            let (violation, other) = match r {
                Ok(Ok(())) => (None, None),
                Ok(Err(Stop::Violation(v))) => (Some(v), None),
                Ok(Err(Stop::Other(c))) => (None, Some(c)),
                Err(text) => (
                    Some(Violation {
                        class: "panic".to_string(),
                        message: format!("panicked: {}", text),
                    }),
                    None,
                ),
            };
            let events = match violation {
                Some(_) => src.taken.iter().map(|e| serde_json::to_value(e).unwrap()).collect(),
                None => Vec::new(),
            };
            Outcome {
                violation,
                other,
                hash: ctx.hash,
                counts: ctx.counts,
                clock_ms: ctx.clock_ms,
                events,
                switches: ctx.switches,
                steps,
            }
        })
        .expect("a thread")
        .join()
        .unwrap_or_else(|_| panic!("run {} ended strangely", plan.seed))
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Shortens a text for a message.
pub fn brief(x: &impl std::fmt::Debug) -> String {
    let s = format!("{:?}", x);
    if s.len() > 400 {
        let cut = (0..400).rev().find(|&i| s.is_char_boundary(i)).unwrap();
        format!("{}...", &s[..cut])
    } else {
        s
    }
}

pub fn same_val(a: &model::Val, b: &model::Val) -> String {
    format!("got {}\n  want {}", brief(a), brief(b))
}
