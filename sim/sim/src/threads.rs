//! C12-C15: threads on one state, under a scheduler that decides every switch.

use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use model::*;
use schemas::*;
use sched::{Schedule, Trace};
use serde::{Deserialize, Serialize};
use steit::rt::Runtime;

use crate::core::*;
use crate::io::{Pace, Sink};
use crate::streams::ref_entry;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ThEv {
    /// The state the threads start from.
    Val { val: Val },
    /// A mutation of one of the disjoint parts, by the thread that owns it.
    Op { part: usize, path: Vec<u32>, act: Act },
    /// The same over and over.
    Burst { part: usize, path: Vec<u32>, act: Act, times: usize },
    /// The thread collects what the log holds.
    Drain { thread: usize, how: u8 },
    /// The thread reads the shared state.
    Read { thread: usize, how: u8, pace: Option<Pace> },
    Pause { thread: usize, via: u8 },
    Resume { thread: usize, via: u8 },
}

#[derive(Clone)]
enum Step {
    Op { part: usize, path: Vec<u32>, act: Act },
    Drain(u8),
    Read(u8, Option<Pace>),
    Pause(u8),
    Resume(u8),
}

const MEANS: [u64; 5] = [3, 20, 60, 250, 1500];

fn schedule(ctx: &Ctx) -> Schedule {
    match &ctx.schedule {
        Some(s) => Schedule::Recorded(s.clone()),
        None => {
            let seed = mix(ctx.seed ^ 0x5c ^ mix(ctx.salt));
            Schedule::Seeded { seed, mean: MEANS[mix(seed) as usize % MEANS.len()] }
        }
    }
}

fn finish(ctx: &mut Ctx, tr: Trace, panics: &Mutex<Vec<String>>, tag: u8) -> Res {
    ctx.count("thread switches", tr.switches.len() as u64);
    ctx.count("fault: thread preempted", tr.preemptions);
    ctx.count("fault: thread blocked on a lock", tr.blocks);
    ctx.count("scheduling points", tr.steps);
    ctx.note(&tr.hash.to_le_bytes());
    ctx.tick(tr.steps / 1000);
    ctx.switches = tr.switches;
    let panics = panics.lock().unwrap();
    ctx.check(&[tag], panics.is_empty() && tr.panics.is_empty(), "thread-panicked", || {
        format!("threads panicked: {:?}", panics)
    })
}

/// Threads, their programs, and who owns which part of the state.
struct Cast {
    n: usize,
    parts: Vec<(Vec<u32>, Ty)>,
}

impl Cast {
    fn owner(&self, part: usize) -> usize {
        part % self.n
    }

    /// The thread whose part the entry addresses.
    fn thread_of(&self, path: &[u32]) -> Option<usize> {
        self.parts.iter().position(|(p, _)| path.starts_with(p)).map(|i| self.owner(i))
    }
}

fn cast(ty: &Ty, val: &Val, n: usize) -> Cast {
    let mut val = val.clone();
    let members = val.list()[0].list().len() as u32;
    let fields = ty.fields().unwrap().len() as u32;
    let paths = (0..members).map(|i| vec![0, i]).chain((1..fields).map(|i| vec![i]));
    let parts = paths.map(|p| { let t = node(ty, &mut val, &p).unwrap().0; (p, t) }).collect();
    Cast { n, parts }
}

fn some_team(gen: &mut Gen, ty: &Ty) -> Val {
    let mut val = gen.value(ty);
    // Enough parts to share.
    let member = match &ty.fields().unwrap()[0].ty {
        Ty::List(t) => (**t).clone(),
        _ => unreachable!(),
    };
    let n = gen.rng.range(0, 4);
    let xs = val.list_mut()[0].list_mut();
    while xs.len() < n {
        let m = gen.val(&member, 1);
        xs.push(m);
    }
    xs.truncate(6);
    val
}

fn draw_part_op(gen: &mut Gen, cast: &Cast, ty: &Ty, val: &Val) -> Option<ThEv> {
    for _ in 0..4 {
        let part = gen.rng.below(cast.parts.len());
        let (prefix, t) = &cast.parts[part];
        let mut v = val.clone();
        let v = node(ty, &mut v, prefix)?.1;
        if let Some((path, act)) = gen.act(t, v) {
            return Some(ThEv::Op { part, path, act });
        }
    }
    None
}

struct Setup {
    cast: Cast,
    start: Val,
    end: Val,
    /// What a follower has in the end.
    shadow: Val,
    programs: Vec<Vec<Step>>,
    ops: usize,
    nav: Vec<u32>,
}

/// What a scenario draws.
struct Draw {
    op: u32,
    drain: u32,
    read: u32,
    pause: u32,
    min_threads: usize,
    knobs: Knobs,
    /// Operations are applied before the threads start.
    before: bool,
}

fn setup(src: &mut Src<ThEv>, ctx: &mut Ctx, ty: &Ty, draw: Draw) -> Setup {
    let mut gen = Gen::new(mix(ctx.seed ^ 0x67));
    gen.knobs = draw.knobs.clone();
    let shape = mix(ctx.seed ^ 0x73) as usize;
    let n = [2, 3, 2, 4, 3, 5, 6, 2][shape % 8].max(draw.min_threads);
    let n = if draw.min_threads == 1 && shape & 0x700 == 0 { 1 } else { n };
    src.limit(match ctx.tier {
        Tier::Quick => [4, 8, 14, 24][(shape >> 4) % 4],
        Tier::Thorough => [4, 10, 20, 40][(shape >> 4) % 4],
    } * if draw.before { 1 } else { n.min(3) } + 1);
    let mut start = None;
    let mut cast0: Option<Cast> = None;
    let mut val = ty.default();
    let mut shadow = val.clone();
    let mut programs = vec![Vec::new(); n];
    let mut ops = 0;
    let mut bursts = (draw.pause == 0 && draw.read == 0 && mix(ctx.seed ^ 0x62) % 100 == 0) as usize;
    loop {
        let ev = {
            let (gen, cast, val, bursts) = (&mut gen, &cast0, &val, &mut bursts);
            src.next(|rng| {
                if start.is_none() {
                    return ThEv::Val { val: some_team(gen, ty) };
                }
                let thread = rng.below(n);
                let how = rng.below(24) as u8;
                match rng.weighted(&[draw.op, draw.drain, draw.read, draw.pause, draw.pause]) {
                    1 => ThEv::Drain { thread, how },
                    2 => ThEv::Read {
                        thread,
                        how,
                        pace: if how % 8 == 7 { Some(crate::io::draw_pace(rng, 60, 40)) } else { None },
                    },
                    x @ 3 | x @ 4 => {
                        let via = if rng.pct(4) { rng.range(100, 255) as u8 } else { how };
                        if x == 3 {
                            ThEv::Pause { thread, via }
                        } else {
                            ThEv::Resume { thread, via }
                        }
                    }
                    _ => match draw_part_op(gen, cast.as_ref().unwrap(), ty, val) {
                        Some(ThEv::Op { part, path, act }) if *bursts > 0 && rng.pct(20) && crate::cluster::burstable(&act) => {
                            *bursts -= 1;
                            let small = matches!(&act, Act::Push { val: Val::U(_), .. } | Act::Set { val: Val::U(_), .. });
                            let most = if small { 4100 } else { 1030 };
                            ThEv::Burst { part, path, act, times: most.min(*rng.pick(&[70, 130, 260, 520, 1030, 1030, 4100])) }
                        }
                        op => op.unwrap_or(ThEv::Read { thread, how, pace: None }),
                    },
                }
            })
        };
        let ev = match ev {
            Some(ev) => ev,
            None => break,
        };
        if ctx.verbose {
            println!("{}", brief(&ev));
        }
        if let ThEv::Val { val: v } = &ev {
            if start.is_none() {
                val = v.clone();
                shadow = v.clone();
                start = Some(v.clone());
                cast0 = Some(cast(ty, v, n));
            }
            continue;
        }
        if start.is_none() {
            start = Some(val.clone());
            cast0 = Some(cast(ty, &val, n));
        }
        let cast = cast0.as_ref().unwrap();
        match ev {
            ThEv::Val { .. } => (),
            ThEv::Op { .. } | ThEv::Burst { .. } => {
                let (part, path, act, times) = match ev {
                    ThEv::Op { part, path, act } => (part, path, act, 1),
                    ThEv::Burst { part, path, act, times } => (part, path, act, times),
                    _ => unreachable!(),
                };
                if part >= cast.parts.len() {
                    continue;
                }
                let (prefix, t) = &cast.parts[part];
                let mut whole = prefix.clone();
                whole.extend(&path);
                let mut done = 0;
                for _ in 0..times {
                    // The part's own view: its address is added by the library.
                    let known = node(ty, &mut val, prefix).map_or(false, |x| {
                        let mut x = x.1.clone();
                        apply(t, &mut x, &path, &act).is_some()
                    });
                    if !known {
                        break;
                    }
                    let effs = match apply(ty, &mut val, &whole, &act) {
                        Some(effs) => effs,
                        None => break,
                    };
                    for e in &effs {
                        apply_eff(ty, &mut shadow, e);
                    }
                    done += 1;
                    programs[cast.owner(part)].push(Step::Op { part, path: path.clone(), act: act.clone() });
                }
                if done > 0 {
                    ops += done;
                    ctx.note(&serde_json::to_vec(&(act, done)).unwrap());
                    if times > 1 {
                        ctx.count("bursts", 1);
                    }
                }
            }
            ThEv::Drain { thread, how } => programs[thread % n].push(Step::Drain(how)),
            ThEv::Read { thread, how, pace } => programs[thread % n].push(Step::Read(how, pace)),
            ThEv::Pause { thread, via } => programs[thread % n].push(Step::Pause(via)),
            ThEv::Resume { thread, via } => programs[thread % n].push(Step::Resume(via)),
        }
    }
    let start = start.unwrap_or_else(|| ty.default());
    let cast = cast0.unwrap_or_else(|| cast(ty, &start, n));
    ctx.count("threads", n as u64);
    Setup { cast, start, end: val, shadow, programs, ops, nav: (0..n).map(|i| mix(ctx.seed ^ i as u64) as u32).collect() }
}

/// A team in the given state, with nothing logged yet.
fn team_of(val: &Val, rt: Runtime) -> Box<dyn Shared> {
    let bytes = wire::encode(&by_name("Team").ty, val);
    let mut team = team(rt);
    team.obj_mut().merge(&mut &*bytes).expect("loading a team");
    team
}

/// What each thread logs when it runs alone, hand-over by hand-over.
fn alone(s: &Setup) -> (Vec<Vec<Call>>, Val) {
    let (rt, rec) = rec_runtime(0);
    let mut team = team_of(&s.start, rt);
    let mut out = Vec::new();
    {
        let mut parts = team.split();
        for (t, program) in s.programs.iter().enumerate() {
            let from = rec.0.lock().unwrap().calls.len();
            let mut cx = Cx::new();
            cx.nav = s.nav[t];
            for step in program {
                if let Step::Op { part, path, act } = step {
                    let _ = guarded(|| parts[*part].1.perform(path, act, &mut cx));
                }
            }
            out.push(rec.0.lock().unwrap().calls[from..].to_vec());
        }
    }
    (out, team.obj().obs())
}

fn mine<'a>(
    s: &Setup,
    team: &'a mut Box<dyn Shared>,
) -> Vec<Vec<(usize, Box<dyn Actor + Send + 'a>)>> {
    let mut owned: Vec<Vec<(usize, Box<dyn Actor + Send + 'a>)>> = (0..s.cast.n).map(|_| Vec::new()).collect();
    for (i, (_, part)) in team.split().into_iter().enumerate() {
        owned[s.cast.owner(i)].push((i, part));
    }
    owned
}

/// Compares what was collected from a log with what its threads emit alone.
/// `pieces` are the portions in which it was collected.
fn compare(
    s: &Setup,
    ctx: &mut Ctx,
    ty: &Ty,
    pieces: &[Vec<u8>],
    solo: &[Vec<Call>],
    tag: u8,
) -> Res {
    let mut per: Vec<Vec<Vec<u8>>> = vec![Vec::new(); s.cast.n];
    let mut shadow = s.start.clone();
    // Positions in each thread's sequence at which its entries form whole operations.
    let whole: Vec<Vec<usize>> = solo
        .iter()
        .map(|calls| {
            let mut at = 0;
            let mut out = vec![0];
            for c in calls {
                at += c.entries.len();
                out.push(at);
            }
            out
        })
        .collect();
    for piece in pieces {
        let entries = match wire::split_log(piece) {
            Ok(e) => e,
            Err(e) => {
                return ctx.check(&[tag], false, "torn-log", || {
                    format!("a portion of the log doesn't decode ({:?}): {}", e, hex(piece))
                })
            }
        };
        let mut at = 0;
        for (e, end) in entries {
            let bytes = &piece[at..end];
            at = end;
            ctx.note(bytes);
            let t = s.cast.thread_of(&e.path);
            ctx.check(&[tag], t.is_some(), "foreign-entry", || format!("nobody may emit {:?}", e))?;
            per[t.unwrap()].push(bytes.to_vec());
            let r = ref_entry(ty, &mut shadow, bytes);
            ctx.check(&[tag], r.is_ok(), "bad-entry", || format!("{:?} is refused: {:?}", e, r))?;
        }
        for t in 0..s.cast.n {
            ctx.check(&[tag, 11], whole[t].contains(&per[t].len()) || per[t].len() > *whole[t].last().unwrap(), "torn-operation", || {
                format!("a portion of the log ends inside an operation of thread {}, after {} of its entries", t, per[t].len())
            })?;
        }
    }
    for t in 0..s.cast.n {
        let want: Vec<Vec<u8>> = solo[t].iter().flat_map(|c| c.entries.clone()).collect();
        ctx.check(&[tag], per[t] == want, "log-differs", || {
            let at = per[t].iter().zip(&want).position(|(a, b)| a != b).unwrap_or(per[t].len().min(want.len()));
            let show = |x: &[Vec<u8>]| x.get(at).map_or("nothing".to_string(), |b| hex(b));
            format!(
                "thread {} emitted {} entries in total, {} arrived; entry {} is {}, should be {}",
                t, want.len(), per[t].len(), at, show(&per[t]), show(&want)
            )
        })?;
    }
    ctx.check(&[tag], shadow == s.shadow, "follower-diverged", || same_val(&shadow, &s.shadow))?;
    // And with the real thing.
    let mut x = team_of(&s.start, Runtime::new());
    let r = x.obj_mut().replay(&mut &*pieces.concat());
    let got = x.obj().obs();
    ctx.check(&[tag], r.is_ok() && got == s.shadow, "follower-diverged", || {
        format!("replay {:?}: {}", r, same_val(&got, &s.shadow))
    })?;
    ctx.count("entries compared", per.iter().map(|p| p.len() as u64).sum());
    Ok(())
}

/// Runs the thread's program with its mutations and whatever else it does.
fn body<'a>(
    program: Vec<Step>,
    nav: u32,
    parts: Vec<(usize, Box<dyn Actor + Send + 'a>)>,
    panics: &'a Mutex<Vec<String>>,
    mut other: impl FnMut(&Step) + Send + 'a,
) -> Box<dyn FnOnce() + Send + 'a> {
    let mut parts = parts;
    Box::new(move || {
        let mut cx = Cx::new();
        cx.nav = nav;
        for step in &program {
            let r = guarded(|| match step {
                Step::Op { part, path, act } => {
                    let p = parts.iter_mut().find(|p| p.0 == *part).unwrap();
                    p.1.perform(path, act, &mut cx);
                }
                step => other(step),
            });
            if let Err(text) = r {
                if text != BUILDER_PANIC {
                    panics.lock().unwrap().push(text);
                    break;
                }
            }
        }
        if let Some(b) = cx.leaked() {
            panics.lock().unwrap().push(format!("entries were emitted to a runtime of the past: {}", hex(&b)));
        }
    })
}

fn knobs(seed: u64, panic: bool) -> Knobs {
    let r = mix(seed ^ 0x6b);
    Knobs { panic, foreign: r & 16 == 0, then: r & 2 == 0, big: false, huge: 0, logged: r & 32 == 0 }
}

fn simpler_th(ev: &ThEv) -> Vec<ThEv> {
    match ev {
        ThEv::Val { val } => {
            let ty = &by_name("Team").ty;
            let mut out = Vec::new();
            let default = ty.default();
            if let (Val::L(xs), Val::L(ds)) = (val, &default) {
                for i in 1..xs.len() {
                    if xs[i] != ds[i] {
                        let mut v = val.clone();
                        v.list_mut()[i] = ds[i].clone();
                        out.push(ThEv::Val { val: v });
                    }
                }
            }
            out
        }
        ThEv::Burst { part, path, act, times } => [1, *times / 2, *times - times / 10, *times - 1]
            .iter()
            .filter(|n| **n > 0 && **n < *times)
            .map(|n| ThEv::Burst { part: *part, path: path.clone(), act: act.clone(), times: *n })
            .collect(),
        ThEv::Pause { thread, via } if *via > 99 => vec![ThEv::Pause { thread: *thread, via: 0 }],
        ThEv::Resume { thread, via } if *via > 99 => vec![ThEv::Resume { thread: *thread, via: 0 }],
        ThEv::Op { part, path, act } => crate::cluster::simpler_act(act)
            .into_iter()
            .map(|act| ThEv::Op { part: *part, path: path.clone(), act })
            .collect(),
        _ => Vec::new(),
    }
}

// ---- C12 ----

pub struct Parts;

impl Scenario for Parts {
    const NAME: &'static str = "parts";
    type Ev = ThEv;

    fn run(src: &mut Src<ThEv>, ctx: &mut Ctx) -> Res {
        let ty = &by_name("Team").ty;
        let k = knobs(ctx.seed, mix(ctx.seed ^ 0x70) % 4 == 0);
        let s = setup(src, ctx, ty, Draw { op: 1, drain: 0, read: 0, pause: 0, min_threads: 2, knobs: k, before: false });
        let (solo, _) = alone(&s);
        let panics = Mutex::new(Vec::new());
        // Kinds of logs.
        let kind = mix(ctx.seed ^ 0x6c) % 3;
        let (rt, rec, handle) = if kind == 0 {
            let (rt, h) = buffer_runtime();
            (rt, None, Some(h))
        } else {
            let (rt, rec) = rec_runtime(mix(ctx.seed ^ 0x6d) as usize);
            (rt, Some(rec), None)
        };
        let mut team = team_of(&s.start, rt);
        let trace = {
            let owned = mine(&s, &mut team);
            let bodies = owned
                .into_iter()
                .zip(&s.programs)
                .enumerate()
                .map(|(t, (parts, program))| body(program.clone(), s.nav[t], parts, &panics, |_| ()))
                .collect();
            sched::run(schedule(ctx), 400_000_000, bodies)
        };
        finish(ctx, trace, &panics, 12)?;
        let got = team.obj().obs();
        ctx.check(&[12], got == s.end, "state-wrong", || same_val(&got, &s.end))?;
        let log = match (&rec, &handle) {
            (Some(rec), _) => {
                let calls = rec.0.lock().unwrap().calls.clone();
                // Operations of several entries arrive whole.
                calls.iter().map(|c| c.entries.concat()).collect()
            }
            (_, Some(h)) => vec![log_of(h)],
            _ => unreachable!(),
        };
        compare(&s, ctx, ty, &log, &solo, 12)?;
        ctx.count("mutations", s.ops as u64);
        Ok(())
    }

    fn simpler(ev: &ThEv) -> Vec<ThEv> {
        simpler_th(ev)
    }
}

// ---- C13 ----

pub struct Drains;

/// The sequence number in a drained portion keeps the order in which locks were held.
fn collect(h: &Handle, how: u8, out: &Mutex<Vec<Vec<u8>>>) {
    use steit::log::loggers::BufferLogger;
    let mut l = h.lock().unwrap();
    let bytes = match how % 9 {
        0 => l.pluck_bytes(),
        1 => {
            let entries = l.pluck();
            entries.iter().flat_map(|e| entry_bytes(e)).collect()
        }
        2 => {
            let b = l.bytes();
            l.clear();
            b
        }
        3 => {
            let b = l.bytes();
            l.replace(BufferLogger::new());
            b
        }
        4 => {
            // Looking changes nothing.
            let a = l.bytes();
            let b = l.pluck_bytes();
            if a == b {
                b
            } else {
                [&b[..], b"?"].concat()
            }
        }
        5 => {
            // Only looking; what is seen comes with the next portion.
            let a = l.bytes();
            if a == l.bytes() {
                Vec::new()
            } else {
                b"?".to_vec()
            }
        }
        6 => {
            let a = l.bytes();
            let b: Vec<u8> = l.pluck().iter().flat_map(|e| entry_bytes(e)).collect();
            if a == b {
                b
            } else {
                [&b[..], b"?"].concat()
            }
        }
        7 => {
            let b: Vec<u8> = l.pluck().iter().flat_map(|e| entry_bytes(e)).collect();
            // Nothing is left.
            [&b[..], &l.bytes(), &l.pluck_bytes()].concat()
        }
        _ => {
            // A logger that already holds something of its own would keep it.
            let old = std::mem::take(&mut **l);
            let mut old = old;
            old.pluck_bytes()
        }
    };
    // Still under the lock.
    out.lock().unwrap().push(bytes);
    drop(l);
}

impl Scenario for Drains {
    const NAME: &'static str = "drains";
    type Ev = ThEv;

    fn run(src: &mut Src<ThEv>, ctx: &mut Ctx) -> Res {
        let ty = &by_name("Team").ty;
        let k = knobs(ctx.seed, mix(ctx.seed ^ 0x70) % 8 == 0);
        let s = setup(src, ctx, ty, Draw { op: 3, drain: 1, read: 0, pause: 0, min_threads: 2, knobs: k, before: false });
        let (solo, _) = alone(&s);
        let panics = Mutex::new(Vec::new());
        let out = Mutex::new(Vec::new());
        let (rt, handle) = buffer_runtime();
        let mut team = team_of(&s.start, rt);
        // A drainer of its own besides the drains in between.
        let extra: Vec<u8> = (0..mix(ctx.seed ^ 0x64) % 5).map(|i| mix(ctx.seed ^ i) as u8).collect();
        let trace = {
            let owned = mine(&s, &mut team);
            let mut bodies: Vec<_> = owned
                .into_iter()
                .zip(&s.programs)
                .enumerate()
                .map(|(t, (parts, program))| {
                    let (handle, out) = (&handle, &out);
                    body(program.clone(), s.nav[t], parts, &panics, move |step| {
                        if let Step::Drain(how) = step {
                            collect(handle, *how, out);
                        }
                    })
                })
                .collect();
            if !extra.is_empty() {
                let program = extra.iter().map(|h| Step::Drain(*h)).collect();
                let (handle, out) = (&handle, &out);
                bodies.push(body(program, 0, Vec::new(), &panics, move |step| {
                    if let Step::Drain(how) = step {
                        collect(handle, *how, out);
                    }
                }));
            }
            sched::run(schedule(ctx), 400_000_000, bodies)
        };
        finish(ctx, trace, &panics, 13)?;
        collect(&handle, mix(ctx.seed ^ 0x65) as u8 % 5, &out);
        let got = team.obj().obs();
        ctx.check(&[13, 12], got == s.end, "state-wrong", || same_val(&got, &s.end))?;
        let pieces = out.into_inner().unwrap();
        ctx.count("portions collected", pieces.len() as u64);
        ctx.count("portions with entries", pieces.iter().filter(|p| !p.is_empty()).count() as u64);
        compare(&s, ctx, ty, &pieces, &solo, 13)
    }

    fn simpler(ev: &ThEv) -> Vec<ThEv> {
        simpler_th(ev)
    }
}

// ---- C14 ----

pub struct Share;

#[derive(Clone, PartialEq, Debug)]
enum Got {
    Bytes(Vec<u8>),
    Size(u32),
    Failed(Vec<u8>, bool),
    Val(Val),
}

fn read(x: &dyn Obj, how: u8, pace: &Option<Pace>) -> Got {
    let field = if how & 8 == 0 { None } else { Some(how as u32 * 77) };
    let omit = how & 16 != 0;
    match how % 8 {
        0 => Got::Bytes(x.to_bytes()),
        1 => Got::Size(x.compute_size()),
        2 => Got::Size(x.cache_size()),
        3 => {
            let mut b = Vec::new();
            x.serialize(&mut b).expect("writing to memory");
            Got::Bytes(b)
        }
        4 => {
            let mut b = Vec::new();
            x.cache_size();
            x.serialize_nested(field, omit, &mut b).expect("writing to memory");
            Got::Bytes(b)
        }
        5 => Got::Size(x.compute_size_nested(field, omit).expect("a size")),
        6 => Got::Val(x.obs()),
        _ => {
            let mut sink = Sink::default();
            sink.set(pace.clone());
            let r = x.serialize(&mut sink);
            let _ = sink.flush();
            Got::Failed(sink.data, r.is_err())
        }
    }
}

impl Scenario for Share {
    const NAME: &'static str = "share";
    type Ev = ThEv;

    fn run(src: &mut Src<ThEv>, ctx: &mut Ctx) -> Res {
        let ty = &by_name("Team").ty;
        let k = knobs(ctx.seed, false);
        let mut s = setup(src, ctx, ty, Draw { op: 1, drain: 0, read: 2, pause: 0, min_threads: 2, knobs: k, before: true });
        let mut team = team_of(&s.start, Runtime::new());
        let shape = mix(ctx.seed ^ 0x76);
        // What sizes are cached when it starts: none, those of an older state, current ones.
        if shape & 1 == 0 {
            team.obj().to_bytes();
        }
        {
            let mut parts = team.split();
            for (t, program) in s.programs.iter_mut().enumerate() {
                let mut cx = Cx::new();
                cx.nav = s.nav[t];
                for step in program.iter() {
                    if let Step::Op { part, path, act } = step {
                        parts[*part].1.perform(path, act, &mut cx);
                    }
                }
                program.retain(|step| matches!(step, Step::Read(..)));
            }
        }
        if shape & 6 == 0 {
            team.obj().cache_size();
        }
        // What each read gives on its own; the same value, somewhere else.
        let twin = team_of(&s.end, Runtime::new());
        let bytes = wire::encode(ty, &s.end);
        let got = twin.obj().to_bytes();
        ctx.check(&[9, 14], got == bytes, "encoding-wrong", || format!("got {}\n  want {}", hex(&got), hex(&bytes)))?;
        let want: Vec<Vec<Got>> = s
            .programs
            .iter()
            .map(|p| {
                p.iter()
                    .map(|step| match step {
                        Step::Read(how, pace) => read(twin.obj(), *how, pace),
                        _ => unreachable!(),
                    })
                    .collect()
            })
            .collect();
        let panics = Mutex::new(Vec::new());
        let results: Vec<Mutex<Vec<Got>>> = (0..s.cast.n).map(|_| Mutex::new(Vec::new())).collect();
        let trace = {
            let shared: &dyn Shared = &*team;
            let bodies = s
                .programs
                .iter()
                .enumerate()
                .map(|(t, program)| {
                    let results = &results[t];
                    body(program.clone(), 0, Vec::new(), &panics, move |step| {
                        if let Step::Read(how, pace) = step {
                            let got = read(shared.obj(), *how, pace);
                            results.lock().unwrap().push(got);
                        }
                    })
                })
                .collect();
            sched::run(schedule(ctx), 400_000_000, bodies)
        };
        finish(ctx, trace, &panics, 14)?;
        for (t, (got, want)) in results.iter().zip(&want).enumerate() {
            let got = got.lock().unwrap();
            for (i, (got, want)) in got.iter().zip(want).enumerate() {
                if let Got::Bytes(b) = got {
                    ctx.note(b);
                }
                ctx.check(&[14], got == want, "read-differs", || {
                    format!("read {} of thread {} ({:?}) gave {}\n  alone: {}", i, t, brief(&step_name(&s.programs[t][i])), brief(got), brief(want))
                })?;
            }
            ctx.check(&[14], got.len() == want.len(), "read-differs", || "a read is missing".to_string())?;
            ctx.count("reads compared", want.len() as u64);
        }
        // Nothing is left behind.
        let got = team.obj().to_bytes();
        ctx.check(&[14, 9], got == bytes, "read-differs", || {
            format!("afterwards {}\n  want {}", hex(&got), hex(&bytes))
        })
    }

    fn simpler(ev: &ThEv) -> Vec<ThEv> {
        simpler_th(ev)
    }
}

fn step_name(step: &Step) -> String {
    match step {
        Step::Read(how, pace) => {
            let names = [
                "to_bytes", "compute_size", "cache_size", "steit_serialize", "serialize_nested",
                "compute_size_nested", "observe", "steit_serialize to a writer",
            ];
            format!("{} {:?}", names[*how as usize % 8], pace)
        }
        _ => String::new(),
    }
}

// ---- C15 ----

pub struct Pauses;

/// A few are many at once.
fn times(via: u8, pause: bool) -> usize {
    match (via, pause) {
        (0..=99, _) => 1,
        (_, true) => via as usize * 2,
        (_, false) => via as usize - 80,
    }
}

/// When something happened.
#[derive(Clone, Copy, Debug)]
struct Span {
    from: u64,
    to: u64,
}

#[derive(Default)]
struct Notes {
    /// Pauses (true) and resumes in order.
    pauses: Vec<(Span, bool)>,
    /// Operations of each thread in order, and whether a builder panicked.
    ops: Vec<Vec<(Span, bool)>>,
}

/// Records when entries arrive.
#[derive(Clone)]
struct Stamp {
    clock: Arc<AtomicU64>,
    calls: Arc<Mutex<Vec<(u64, Vec<Vec<u8>>)>>>,
}

impl steit::log::Logger for Stamp {
    fn log(&mut self, entry: steit::log::LogEntry) -> std::io::Result<()> {
        self.log_multi(vec![entry])
    }
    fn log_multi(&mut self, entries: Vec<steit::log::LogEntry>) -> std::io::Result<()> {
        let at = self.clock.fetch_add(1, SeqCst);
        let entries = entries.iter().map(entry_bytes).collect();
        self.calls.lock().unwrap().push((at, entries));
        Ok(())
    }
}

impl Scenario for Pauses {
    const NAME: &'static str = "pauses";
    type Ev = ThEv;

    fn run(src: &mut Src<ThEv>, ctx: &mut Ctx) -> Res {
        let ty = &by_name("Team").ty;
        let shape = mix(ctx.seed ^ 0x72);
        let k = knobs(ctx.seed, shape & 3 != 0);
        let pause = [0, 2, 4, 8][(shape >> 2) as usize % 4];
        let s = setup(src, ctx, ty, Draw { op: 8, drain: 0, read: 0, pause, min_threads: 1, knobs: k, before: false });
        // What each operation logs, when nothing is paused.
        let solo: Vec<Vec<Vec<Vec<u8>>>> = {
            let (rt, rec) = rec_runtime(0);
            let mut team = team_of(&s.start, rt);
            let mut parts = team.split();
            s.programs
                .iter()
                .enumerate()
                .map(|(t, program)| {
                    let mut cx = Cx::new();
                    cx.nav = s.nav[t];
                    program
                        .iter()
                        .filter_map(|step| match step {
                            Step::Op { part, path, act } => {
                                let from = rec.0.lock().unwrap().calls.len();
                                let _ = guarded(|| parts[*part].1.perform(path, act, &mut cx));
                                Some(rec.0.lock().unwrap().calls[from..].iter().flat_map(|c| c.entries.clone()).collect())
                            }
                            _ => None,
                        })
                        .collect()
                })
                .collect()
        };
        let clock = Arc::new(AtomicU64::new(1));
        let stamp = Stamp { clock: clock.clone(), calls: Default::default() };
        let (rt, handle) = Runtime::with_logger_returned(stamp.clone());
        let mut team = team_of(&s.start, rt.clone());
        let panics = Mutex::new(Vec::new());
        let notes = Mutex::new(Notes { pauses: Vec::new(), ops: vec![Vec::new(); s.cast.n] });
        // Whether pauses and resumes of different threads may overlap.
        let loose = shape & 64 == 0;
        let gate = Mutex::new(());
        let trace = {
            let owned = mine(&s, &mut team);
            let bodies = owned
                .into_iter()
                .zip(&s.programs)
                .enumerate()
                .map(|(t, (mut parts, program))| {
                    let (rt, handle, notes, panics, gate, clock) = (rt.clone(), &handle, &notes, &panics, &gate, &clock);
                    let stamp = &stamp;
                    let (program, nav) = (program.clone(), s.nav[t]);
                    Box::new(move || {
                        let mut cx = Cx::new();
                        cx.nav = nav;
                        for step in &program {
                            let held = match step {
                                Step::Pause(_) | Step::Resume(_) if !loose => Some(gate.lock().unwrap()),
                                _ => None,
                            };
                            let from = clock.fetch_add(1, SeqCst);
                            let r = guarded(|| match step {
                                Step::Op { part, path, act } => {
                                    let p = parts.iter_mut().find(|p| p.0 == *part).unwrap();
                                    p.1.perform(path, act, &mut cx);
                                }
                                // Another logger that records the same changes nothing.
                                Step::Pause(via) => {
                                    for _ in 0..times(*via, true) {
                                        pause_via(&rt, handle, *via, true);
                                    }
                                    if via % 7 == 3 {
                                        handle.lock().unwrap().replace(stamp.clone());
                                    }
                                }
                                Step::Resume(via) => {
                                    if via % 7 == 4 {
                                        handle.lock().unwrap().replace(stamp.clone());
                                    }
                                    for _ in 0..times(*via, false) {
                                        pause_via(&rt, handle, *via, false);
                                    }
                                }
                                _ => (),
                            });
                            let to = clock.fetch_add(1, SeqCst);
                            drop(held);
                            let mut n = notes.lock().unwrap();
                            match step {
                                Step::Op { .. } => {
                                    let raised = matches!(&r, Err(t) if t == BUILDER_PANIC);
                                    n.ops[t].push((Span { from, to }, raised));
                                }
                                Step::Pause(via) => (0..times(*via, true)).for_each(|_| n.pauses.push((Span { from, to }, true))),
                                Step::Resume(via) => {
                                    (0..times(*via, false)).for_each(|_| n.pauses.push((Span { from, to }, false)))
                                }
                                _ => (),
                            }
                            drop(n);
                            if let Err(text) = r {
                                if text != BUILDER_PANIC {
                                    panics.lock().unwrap().push(text);
                                    break;
                                }
                            }
                        }
                    }) as Box<dyn FnOnce() + Send + '_>
                })
                .collect();
            sched::run(schedule(ctx), 400_000_000, bodies)
        };
        finish(ctx, trace, &panics, 15)?;
        let got = team.obj().obs();
        ctx.check(&[15], got == s.end, "state-wrong", || same_val(&got, &s.end))?;
        let mut notes = notes.into_inner().unwrap();
        notes.pauses.sort_by_key(|p| p.0.from);
        let calls = std::mem::take(&mut *stamp.calls.lock().unwrap());
        let strict = !loose || s.cast.n == 1;
        // Where each thread's entries belong.
        for t in 0..s.cast.n {
            let logged: Vec<(u64, &Vec<u8>)> = calls
                .iter()
                .flat_map(|(at, es)| es.iter().map(move |e| (*at, e)))
                .filter(|(_, e)| {
                    let path = wire::split_log(e).ok().and_then(|x| x.first().map(|x| x.0.path.clone()));
                    path.and_then(|p| s.cast.thread_of(&p)) == Some(t)
                })
                .collect();
            let mut used = 0;
            for (i, (span, raised)) in notes.ops[t].iter().enumerate() {
                let got: Vec<&Vec<u8>> =
                    logged.iter().filter(|(at, _)| *at > span.from && *at < span.to).map(|(_, e)| *e).collect();
                used += got.len();
                let want = &solo[t][i];
                ctx.count("fault: builder panicked", *raised as u64);
                if strict {
                    let (low, high) = counts(&notes.pauses, *span);
                    if low > 0 {
                        ctx.check(&[15], got.is_empty(), "logged-while-paused", || {
                            format!("thread {} logged {} entries while the log was paused {} times or more", t, got.len(), low)
                        })?;
                        ctx.count("operations while paused", 1);
                        continue;
                    }
                    if high == 0 {
                        ctx.check(&[15], got.iter().copied().eq(want.iter()), "not-logged", || {
                            format!(
                                "operation {} of thread {}: {} entries logged, want {}, and nothing paused the log",
                                i, t, got.len(), want.len()
                            )
                        })?;
                        ctx.count("operations logged", 1);
                        continue;
                    }
                }
                // Something in between: some of its entries.
                let mut rest = want.iter();
                let sub = got.iter().all(|g| rest.any(|w| w == *g));
                ctx.check(&[15], sub, "log-differs", || {
                    format!("operation {} of thread {} logged what it doesn't log alone", i, t)
                })?;
                ctx.count("operations across a pause", 1);
            }
            ctx.check(&[15], used == logged.len(), "log-differs", || {
                format!("thread {}: {} of {} entries belong to no operation", t, logged.len() - used, logged.len())
            })?;
        }
        let strays = calls
            .iter()
            .flat_map(|c| &c.1)
            .filter(|e| {
                let path = wire::split_log(e).ok().and_then(|x| x.first().map(|x| x.0.path.clone()));
                path.and_then(|p| s.cast.thread_of(&p)).is_none()
            })
            .count();
        ctx.check(&[15], strays == 0, "log-differs", || format!("{} entries address nobody's part", strays))?;
        // How deep the log is paused now shows in how many resumes it takes.
        let n = if strict || notes.pauses.iter().all(|p| p.1) {
            Some(notes.pauses.iter().fold(0u32, |n, p| if p.1 { n + 1 } else { n.saturating_sub(1) }))
        } else {
            None
        };
        let mut resumes = 0;
        let max = notes.pauses.len() as u32 + 1;
        loop {
            let before = stamp.calls.lock().unwrap().len();
            probe(&mut team);
            if stamp.calls.lock().unwrap().len() > before || resumes > max {
                break;
            }
            pause_via(&rt, &handle, resumes as u8 ^ shape as u8, false);
            resumes += 1;
        }
        ctx.check(&[15], resumes <= max, "never-resumed", || {
            format!("after {} resumes the log is still paused, {} pauses", resumes, notes.pauses.iter().filter(|p| p.1).count())
        })?;
        if let Some(n) = n {
            ctx.check(&[15], resumes == n, "pause-depth-wrong", || {
                format!("it took {} resumes for the log to go on, want {}: {:?}", resumes, n, notes.pauses)
            })?;
        }
        ctx.count("pauses and resumes", notes.pauses.len() as u64);
        if shape % 200 == 77 {
            // It has no depth at which it forgets some of it.
            const MANY: u32 = 66_000;
            let mut logs = |what: &str, want: bool, ctx: &mut Ctx| {
                let before = stamp.calls.lock().unwrap().len();
                probe(&mut team);
                let got = stamp.calls.lock().unwrap().len() > before;
                ctx.check(&[15], got == want, "pause-depth-wrong", || {
                    format!("{}: the log {}", what, if got { "goes on" } else { "is paused" })
                })
            };
            (0..MANY).for_each(|i| pause_via(&rt, &handle, i as u8, true));
            logs("66000 pauses", false, ctx)?;
            (1..MANY).for_each(|i| pause_via(&rt, &handle, i as u8, false));
            logs("66000 pauses, 65999 resumes", false, ctx)?;
            pause_via(&rt, &handle, 0, false);
            logs("66000 pauses, 66000 resumes", true, ctx)?;
            ctx.count("deep pauses", 1);
        }
        Ok(())
    }

    fn simpler(ev: &ThEv) -> Vec<ThEv> {
        simpler_th(ev)
    }
}

/// Least and greatest depth while the span lasts. The pauses don't overlap each other.
fn counts(pauses: &[(Span, bool)], span: Span) -> (u32, u32) {
    let mut depth = 0u32;
    let (mut low, mut high) = (None, None);
    for (p, on) in pauses {
        if p.from > span.to {
            break;
        }
        let next = if *on { depth + 1 } else { depth.saturating_sub(1) };
        if p.to >= span.from {
            low = Some(low.unwrap_or(depth).min(depth).min(next));
            high = Some(high.unwrap_or(depth).max(depth).max(next));
        }
        depth = next;
    }
    (low.unwrap_or(depth), high.unwrap_or(depth))
}

fn pause_via<T: steit::log::Logger>(rt: &Runtime, handle: &steit::rt::LoggerHandle<T>, via: u8, on: bool) {
    use steit::rt::PausableLogger;
    match (via % 5, on) {
        (0, true) => drop(rt.pause_logger()),
        (0, false) => drop(rt.unpause_logger()),
        (1, true) => drop(rt.nested(via as u32).pause_logger()),
        (1, false) => drop(rt.nested(via as u32).unpause_logger()),
        (2, true) => drop(handle.lock().unwrap().pause()),
        (2, false) => drop(handle.lock().unwrap().unpause()),
        (3, true) => drop(rt.nested(3).nested(9).parent().pause_logger()),
        (3, false) => drop(rt.nested(3).nested(9).sibling(1).unpause_logger()),
        (_, true) => drop(rt.logger().lock().unwrap().pause()),
        (_, false) => drop(rt.clone().logger().lock().unwrap().unpause()),
    }
}

/// A mutation that logs something.
fn probe(team: &mut Box<dyn Shared>) {
    let act = Act::Push { val: Val::U(1), how: How::Plain };
    team.obj_mut().act(&[2], &act, &mut Cx::new());
}
