//! What reaches the disk: snapshots through faulty writers, entries through refusing loggers.

use std::io::{self, Write};
use std::sync::{Arc, Mutex};

use model::*;
use schemas::*;
use serde::{Deserialize, Serialize};

use super::cluster::{pick_schema, simpler_act};
use super::core::*;
use super::streams::{draw_op, gen_for, ref_entry, some_path, KINDS};

/// How a writer takes its bytes.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Pace {
    pub sizes: Vec<usize>,
    pub interrupts: Vec<usize>,
    /// The write at this offset fails; the last kind accepts nothing instead.
    pub error: Option<(usize, u8)>,
    pub sticky: bool,
}

pub const ZERO: u8 = 200;
/// The writer or reader panics.
pub const BOOM: u8 = 201;

#[derive(Default)]
pub struct Sink {
    pub data: Vec<u8>,
    base: usize,
    turn: usize,
    pace: Option<Pace>,
    pub failed: bool,
    pub interrupted: u64,
    pub short: u64,
}

impl Sink {
    /// Offsets count from here.
    pub fn set(&mut self, pace: Option<Pace>) {
        self.pace = pace;
        self.base = self.data.len();
        self.failed = false;
        self.interrupted = 0;
        self.short = 0;
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let pace = match &mut self.pace {
            Some(p) => p,
            None => {
                self.data.extend(buf);
                return Ok(buf.len());
            }
        };
        if buf.is_empty() {
            return Ok(0);
        }
        let at = self.data.len() - self.base;
        if let Some(i) = pace.interrupts.iter().position(|x| *x == at) {
            pace.interrupts.remove(i);
            self.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = buf.len();
        if let Some((stop, kind)) = pace.error {
            if stop == at && (!self.failed || pace.sticky) {
                self.failed = true;
                match kind {
                    ZERO => return Ok(0),
                    BOOM => schemas::raise(),
                    _ => return Err(io::Error::new(KINDS[kind as usize % KINDS.len()], "simulated write error")),
                }
            }
            if stop > at {
                n = n.min(stop - at);
            }
        }
        for i in &pace.interrupts {
            if *i > at {
                n = n.min(*i - at);
            }
        }
        n = n.min(pace.sizes[self.turn % pace.sizes.len()].max(1));
        self.turn += 1;
        if n < buf.len() {
            self.short += 1;
        }
        self.data.extend(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A sink that a logger can own.
#[derive(Clone, Default)]
pub struct SharedSink(pub Arc<Mutex<Sink>>);

impl Write for SharedSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn draw_pace(rng: &mut Rng, len: usize, error_pct: u32) -> Pace {
    let sizes = match rng.below(5) {
        0 => vec![1],
        1 => vec![usize::MAX],
        2 => vec![1, 2, 3],
        _ => (0..rng.range(1, 5)).map(|_| rng.range(1, 9)).collect(),
    };
    let n = if rng.pct(50) { rng.below(6) } else { 0 };
    Pace {
        sizes,
        interrupts: (0..n).map(|_| rng.below(len + 1)).collect(),
        error: if rng.pct(error_pct) {
            let kind = if rng.pct(25) { ZERO } else { rng.below(KINDS.len()) as u8 };
            Some((rng.below(len + 1), kind))
        } else {
            None
        },
        sticky: rng.pct(50),
    }
}

fn simpler_pace(p: &Pace) -> Vec<Pace> {
    let mut out = Vec::new();
    if !p.interrupts.is_empty() {
        out.push(Pace { interrupts: Vec::new(), ..p.clone() });
        out.push(Pace { interrupts: p.interrupts[..1].to_vec(), ..p.clone() });
    }
    if p.sizes != [usize::MAX] {
        out.push(Pace { sizes: vec![usize::MAX], ..p.clone() });
    }
    out
}

fn ops(path: &[u32], act: &Act) -> Vec<(Vec<u32>, Act)> {
    simpler_act(act).into_iter().map(|a| (path.to_vec(), a)).collect()
}

// ---- C09 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WriteEv {
    Op { path: Vec<u32>, act: Act },
    /// A value is merged into the state, or a log entry replayed, between serializations.
    Merge { val: Val },
    Ingest { path: Vec<u32>, act: Act },
    /// An entry that updates whatever is at the path, numbers in lists and maps included.
    Touch { entry: Vec<u8> },
    Reset { val: Val, load: bool },
    /// A clone is mutated and written; it may go on in place of the original.
    Copy { path: Vec<u32>, act: Act, pace: Pace, swap: bool },
    /// Sizes are asked for, in one of the ways there are.
    Size { how: u8, field: Option<u32>, omissible: bool },
    Write { pace: Pace },
    WriteNested { field: Option<u32>, omissible: bool, pace: Pace },
}

pub struct Writing;

fn draw_field(rng: &mut Rng) -> Option<u32> {
    *rng.pick(&[None, Some(0), Some(15), Some(16), Some(2047), Some(2048), Some(FIELD_MAX), Some(7)])
}

impl Scenario for Writing {
    const NAME: &'static str = "writing";
    type Ev = WriteEv;

    fn run(src: &mut Src<WriteEv>, ctx: &mut Ctx) -> Res {
        let schema = pick_schema(ctx.seed);
        let ty = &schema.ty;
        let mut gen = gen_for(ctx.seed);
        gen.knobs.logged = false;
        gen.knobs.foreign = true;
        let shape = mix(ctx.seed ^ 0x73) as usize;
        src.limit(match ctx.tier {
            Tier::Quick => [10, 20, 40][shape % 3],
            Tier::Thorough => [12, 40, 150][shape % 3],
        });
        let mut obj = (schema.new)(buffer_runtime().0);
        let mut val = ty.default();
        let mut cx = Cx::new();
        ctx.note(schema.name.as_bytes());
        loop {
            let ev = {
                let (gen, val) = (&mut gen, &val);
                src.next(|rng| {
                    let len = wire::encode(ty, val).len();
                    match rng.weighted(&[45, 4, 6, 5, 10, 30, 12, 8, 15]) {
                        0 => match draw_op(gen, ty, val) {
                            Some((path, act)) => WriteEv::Op { path, act },
                            None => WriteEv::Reset { val: gen.value(ty), load: false },
                        },
                        1 => WriteEv::Merge { val: gen.val(ty, 2) },
                        2 => match draw_op(gen, ty, val) {
                            Some((path, act)) => WriteEv::Ingest { path, act },
                            None => WriteEv::Merge { val: gen.val(ty, 2) },
                        },
                        3 => WriteEv::Reset { val: gen.value(ty), load: rng.pct(50) },
                        4 => WriteEv::Size {
                            how: rng.below(4) as u8,
                            field: draw_field(rng),
                            omissible: rng.pct(50),
                        },
                        5 => WriteEv::Write { pace: draw_pace(rng, len, 55) },
                        7 => match draw_op(gen, ty, val) {
                            Some((path, act)) => {
                                WriteEv::Copy { path, act, pace: draw_pace(rng, len, 30), swap: rng.pct(50) }
                            }
                            None => WriteEv::Write { pace: draw_pace(rng, len, 55) },
                        },
                        8 => {
                            let (path, t) = some_path(rng, ty, val);
                            let mut e = wire::Entry::new(wire::UPDATE, path);
                            e.value = wire::encode(&t, &gen.value(&t));
                            WriteEv::Touch { entry: e.bytes() }
                        }
                        _ => WriteEv::WriteNested {
                            field: draw_field(rng),
                            omissible: rng.pct(50),
                            pace: draw_pace(rng, len + 6, 45),
                        },
                    }
                })
            };
            let ev = match ev {
                Some(ev) => ev,
                None => break,
            };
            if ctx.verbose {
                println!("{}", brief(&ev));
            }
            ctx.tick(10);
            match ev {
                WriteEv::Op { path, act } => {
                    let mut after = val.clone();
                    if apply(ty, &mut after, &path, &act).is_none() {
                        continue;
                    }
                    cx.forget(2);
                    obj.act(&path, &act, &mut cx);
                    val = after;
                    let got = obj.obs();
                    ctx.check(&[1], got == val, "mutation-wrong", || same_val(&got, &val))?;
                    ctx.count("mutations", 1);
                }
                WriteEv::Copy { path, act, pace, swap } => {
                    let mut after = val.clone();
                    if apply(ty, &mut after, &path, &act).is_none() {
                        continue;
                    }
                    cx.forget(2);
                    let mut copy = obj.clone_obj();
                    let mut w = Sink::default();
                    // Sizes of the original may be cached by now, and those of the copy are not.
                    let _ = obj.cache_size();
                    copy.act(&path, &act, &mut cx);
                    let got = copy.obs();
                    ctx.check(&[1], got == after, "mutation-wrong", || same_val(&got, &after))?;
                    w.set(Some(pace.clone()));
                    let r = copy.serialize(&mut w);
                    let whole = copy.to_bytes();
                    judge(ctx, &w, &pace, r, &whole, None)?;
                    let mut plain = Sink::default();
                    let r = obj.serialize(&mut plain);
                    for (bytes, val, what) in [(&whole, &after, "a copy"), (&plain.data, &val, "the original of a copy")] {
                        let back = wire::decode(ty, bytes);
                        ctx.check(&[9], r.is_ok() && back.as_ref().ok() == Some(val), "bytes-wrong", || {
                            format!("{} gave {:?} {}\n  want {}", what, r, hex(bytes), brief(val))
                        })?;
                    }
                    if swap {
                        obj = copy;
                        val = after;
                    }
                    ctx.count("copies written", 1);
                }
                WriteEv::Ingest { path, act } => {
                    let effs = apply(ty, &mut val.clone(), &path, &act).unwrap_or_default();
                    if let Some(eff) = effs.first() {
                        let _ = obj.replay(&mut &*eff.entry().bytes());
                        apply_eff(ty, &mut val, eff);
                        let got = obj.obs();
                        ctx.check(&[1], got == val, "replica-diverged", || same_val(&got, &val))?;
                        ctx.count("entries replayed", 1);
                    }
                }
                WriteEv::Touch { entry } => {
                    let mut after = val.clone();
                    if ref_entry(ty, &mut after, &entry).is_err() {
                        continue;
                    }
                    val = after;
                    let _ = obj.replay(&mut &*entry);
                    let got = obj.obs();
                    ctx.check(&[1], got == val, "replica-diverged", || same_val(&got, &val))?;
                    ctx.count("entries replayed", 1);
                }
                WriteEv::Merge { val: v } => {
                    let bytes = wire::encode(ty, &v);
                    let _ = obj.merge(&mut &*bytes);
                    let _ = wire::merge(ty, &mut val, &mut wire::Rd::new(&bytes));
                    let got = obj.obs();
                    ctx.check(&[2], got == val, "merge-wrong", || same_val(&got, &val))?;
                }
                WriteEv::Reset { val: v, load } => {
                    obj = if load {
                        match (schema.load)(&mut &*wire::encode(ty, &v)) {
                            Ok(x) => x,
                            Err(e) => return Err(Stop::Other(format!("load: {}", e))),
                        }
                    } else {
                        (schema.build)(&v, buffer_runtime().0)
                    };
                    val = v;
                    let got = obj.obs();
                    ctx.check(&[1, 2], got == val, "build-wrong", || same_val(&got, &val))?;
                }
                WriteEv::Size { how, field, omissible } => {
                    let n = wire::encode(ty, &val).len() as u32;
                    let (got, want) = match how {
                        0 => (obj.compute_size(), n),
                        1 => (obj.cache_size(), n),
                        2 => (obj.to_bytes().len() as u32, n),
                        _ => match obj.compute_size_nested(field, omissible) {
                            Ok(got) => (got, nested(ty, &val, field, omissible).len() as u32),
                            Err(e) => {
                                return ctx.check(&[9], false, "size-failed", || {
                                    format!("compute_size_nested({:?}): {}", field, e)
                                })
                            }
                        },
                    };
                    ctx.count("sizes computed", 1);
                    ctx.check(&[9], got == want, "size-wrong", || {
                        format!("size ({}) of {} is {}, not {}", how, brief(&val), got, want)
                    })?;
                }
                WriteEv::Write { pace } => {
                    let mut w = Sink::default();
                    w.set(Some(pace.clone()));
                    let size = obj.compute_size() as usize;
                    let r = obj.serialize(&mut w);
                    let whole = obj.to_bytes();
                    judge(ctx, &w, &pace, r, &whole, Some(size))?;
                    let mut healthy = Sink::default();
                    let r = obj.serialize(&mut healthy);
                    ctx.check(&[9], r.is_ok() && healthy.data == whole, "not-recovered", || {
                        format!("a later serialization gave {:?} {}, not {}", r, hex(&healthy.data), hex(&whole))
                    })?;
                    let back = wire::decode(ty, &whole);
                    ctx.check(&[9], back.as_ref().ok() == Some(&val), "bytes-wrong", || {
                        format!("{} decodes to {}\n  want {}", hex(&whole), brief(&back), brief(&val))
                    })?;
                }
                WriteEv::WriteNested { field, omissible, pace } => {
                    let mut w = Sink::default();
                    w.set(Some(pace.clone()));
                    let size = match obj.compute_size_nested(field, omissible) {
                        Ok(n) => n as usize,
                        Err(e) => return ctx.check(&[9], false, "size-failed", || format!("{:?}: {}", field, e)),
                    };
                    let r = obj.serialize_nested(field, omissible, &mut w);
                    let mut whole = Vec::new();
                    let body = obj.to_bytes();
                    if field.is_none() || !omissible || !body.is_empty() {
                        if let Some(f) = field {
                            wire::put_tag(f, 2, &mut whole);
                        }
                        wire::put_varint(body.len() as u64, &mut whole);
                        whole.extend(&body);
                    }
                    judge(ctx, &w, &pace, r, &whole, Some(size))?;
                }
            }
        }
        Ok(())
    }

    fn simpler(ev: &WriteEv) -> Vec<WriteEv> {
        match ev {
            WriteEv::Op { path, act } => ops(path, act).into_iter().map(|(path, act)| WriteEv::Op { path, act }).collect(),
            WriteEv::Copy { path, act, pace, swap } => ops(path, act)
                .into_iter()
                .map(|(path, act)| WriteEv::Copy { path, act, pace: pace.clone(), swap: *swap })
                .chain(simpler_pace(pace).into_iter().map(|pace| WriteEv::Copy {
                    path: path.clone(),
                    act: act.clone(),
                    pace,
                    swap: *swap,
                }))
                .collect(),
            WriteEv::Write { pace } => simpler_pace(pace).into_iter().map(|pace| WriteEv::Write { pace }).collect(),
            WriteEv::WriteNested { field, omissible, pace } => simpler_pace(pace)
                .into_iter()
                .map(|pace| WriteEv::WriteNested { field: *field, omissible: *omissible, pace })
                .collect(),
            _ => Vec::new(),
        }
    }
}

fn nested(ty: &Ty, val: &Val, field: Option<u32>, omissible: bool) -> Vec<u8> {
    let body = wire::encode(ty, val);
    let mut out = Vec::new();
    if field.is_some() && omissible && body.is_empty() {
        return out;
    }
    if let Some(f) = field {
        wire::put_tag(f, ty.wire(), &mut out);
    }
    wire::put_varint(body.len() as u64, &mut out);
    out.extend(body);
    out
}

fn judge(
    ctx: &mut Ctx,
    w: &Sink,
    pace: &Pace,
    r: io::Result<()>,
    whole: &[u8],
    size: Option<usize>,
) -> Res {
    ctx.count("fault: short write", w.short);
    ctx.count("fault: interrupted write", w.interrupted);
    ctx.count("fault: write error", w.failed as u64);
    ctx.count("serializations", 1);
    ctx.note(whole);
    ctx.check(&[9], size.map_or(true, |n| n == whole.len()), "size-wrong", || {
        format!("the computed size is {:?}, the output takes {} bytes: {}", size, whole.len(), hex(whole))
    })?;
    let fails = matches!(pace.error, Some((at, _)) if at < whole.len());
    if fails {
        ctx.check(&[9], r.is_err(), "write-error-lost", || {
            format!("a writer that failed ({:?}) was given {} and the call returned Ok", pace, hex(&w.data))
        })?;
        ctx.check(&[9], whole.starts_with(&w.data), "not-a-prefix", || {
            format!("a writer that failed ({:?}) was given {}\n  not a prefix of {}", pace, hex(&w.data), hex(whole))
        })
    } else {
        ctx.check(&[9], r.is_ok() && w.data == whole, "fragmented-write-wrong", || {
            format!("writing at pace {:?} gave {:?} {}\n  want {}", pace, r, hex(&w.data), hex(whole))
        })
    }
}

// ---- C10 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AppendEv {
    Op { path: Vec<u32>, act: Act },
    /// The hand-over after so many more is refused.
    Refuse { after: usize, kind: u8 },
    /// The next mutation goes to a text log whose writer takes it in this way.
    Text { path: Vec<u32>, act: Act, pace: Pace },
}

pub struct Append;

/// What followers see when each hand-over is one step: the mutation's intermediate states.
pub fn steps(ty: &Ty, val: &Val, effs: &[Eff]) -> Vec<Val> {
    let mut out = vec![val.clone()];
    let mut v = val.clone();
    let mut i = 0;
    while i < effs.len() {
        apply_eff(ty, &mut v, &effs[i]);
        if effs[i].kind == EffKind::Pop {
            if let Some(next) = effs.get(i + 1) {
                let into = matches!(next.kind, EffKind::Set(_));
                if into && next.path.len() == effs[i].path.len() + 1 && next.path.starts_with(&effs[i].path) {
                    i += 1;
                    apply_eff(ty, &mut v, &effs[i]);
                }
            }
        }
        out.push(v.clone());
        i += 1;
    }
    out
}

/// The items of a `Map` are visited in an order of its own; puts the effects into the order of the
/// entries.
pub fn as_visited(path: &[u32], act: &Act, effs: &mut [Eff], entries: &[Vec<u8>]) {
    let mut lens = Vec::new();
    let mut len = path.len();
    let mut act = act;
    while let Act::Each { path: sub, act: inner } = act {
        lens.push(len + 1);
        len += 1 + sub.len();
        act = inner;
    }
    if lens.is_empty() {
        return;
    }
    let paths: Vec<Vec<u32>> = entries
        .iter()
        .filter_map(|e| wire::split_log(e).ok())
        .flatten()
        .map(|(e, _)| e.path)
        .collect();
    effs.sort_by_key(|e| {
        lens.iter()
            .map(|n| {
                let prefix = &e.path[..(*n).min(e.path.len())];
                paths.iter().position(|p| p.starts_with(prefix)).unwrap_or(usize::MAX)
            })
            .collect::<Vec<_>>()
    });
}

/// Whether the act changes something without telling anybody, item by item.
pub fn silent_items(act: &Act) -> bool {
    match act {
        Act::Each { act, .. } => matches!(**act, Act::SetNs { .. } | Act::VSetNs { .. }) || silent_items(act),
        _ => false,
    }
}

impl Scenario for Append {
    const NAME: &'static str = "append";
    type Ev = AppendEv;

    fn run(src: &mut Src<AppendEv>, ctx: &mut Ctx) -> Res {
        let schema = pick_schema(ctx.seed);
        let ty = &schema.ty;
        let mut gen = gen_for(ctx.seed);
        let shape = mix(ctx.seed ^ 0x73) as usize;
        gen.knobs.logged = shape & 64 == 0;
        gen.knobs.foreign = shape & 128 == 0;
        src.limit(match ctx.tier {
            Tier::Quick => [12, 25, 45][shape % 3],
            Tier::Thorough => [15, 50, 150][shape % 3],
        });
        let (rt, rec) = rec_runtime(shape >> 9);
        let mut obj = (schema.new)(rt);
        let mut val = ty.default();
        // The same state with text logs: one healthy, one not.
        let sinks = [SharedSink::default(), SharedSink::default()];
        let mut texts: Vec<Box<dyn Obj>> =
            sinks.iter().map(|s| (schema.new)(text_runtime(s.clone(), shape >> 11))).collect();
        let mut text_val = val.clone();
        let mut cx = Cx::new();
        ctx.note(schema.name.as_bytes());
        loop {
            let ev = {
                let (gen, val, text_val) = (&mut gen, &val, &text_val);
                src.next(|rng| match rng.weighted(&[55, 25, 30]) {
                    1 => AppendEv::Refuse { after: rng.below(4), kind: rng.below(KINDS.len() + 1) as u8 },
                    2 => match draw_op(gen, ty, text_val) {
                        Some((path, act)) => AppendEv::Text { path, act, pace: draw_pace(rng, 260, 50) },
                        None => AppendEv::Refuse { after: 0, kind: 0 },
                    },
                    _ => match draw_op(gen, ty, val) {
                        Some((path, act)) => AppendEv::Op { path, act },
                        None => AppendEv::Refuse { after: 0, kind: 0 },
                    },
                })
            };
            let ev = match ev {
                Some(ev) => ev,
                None => break,
            };
            if ctx.verbose {
                println!("{}", brief(&ev));
            }
            ctx.tick(10);
            cx.forget(4);
            match ev {
                AppendEv::Refuse { after, kind } => {
                    let mut s = rec.0.lock().unwrap();
                    let at = s.calls.len() + after;
                    let kind = KINDS.get(kind as usize).copied().unwrap_or(io::ErrorKind::Interrupted);
                    s.refuse.push((at, kind));
                }
                AppendEv::Op { path, act } => {
                    let mut after = val.clone();
                    let effs = match apply(ty, &mut after, &path, &act) {
                        Some(effs) => effs,
                        None => continue,
                    };
                    let n = rec.0.lock().unwrap().calls.len();
                    let r = guarded(|| obj.act(&path, &act, &mut cx));
                    let poisoned = rec.0.lock().is_err();
                    ctx.check(&[10], !poisoned, "logger-broken", || "the logger is poisoned".to_string())?;
                    let calls = rec.0.lock().unwrap().calls[n..].to_vec();
                    let refused = calls.iter().any(|c| c.refused);
                    let what = format!("{} at {:?}", brief(&act), path);
                    let mut shadow = val.clone();
                    let mut ok = true;
                    for bytes in calls.iter().filter(|c| !c.refused).flat_map(|c| &c.entries) {
                        ctx.note(bytes);
                        ok &= super::streams::ref_entry(ty, &mut shadow, bytes).is_ok();
                    }
                    ctx.check(&[10, 1], ok, "bad-entry", || format!("{} logged {:?}", what, calls))?;
                    if refused {
                        ctx.count("fault: append refused", 1);
                        ctx.check(&[10], r.is_err(), "refusal-hidden", || {
                            format!("the logger refused an entry of {}, and the call returned normally", what)
                        })?;
                        let got = obj.obs();
                        let known = !silent_items(&act);
                        ctx.check(&[10], !known || got == shadow, "refused-but-applied", || {
                            format!("the logger refused an entry of {}: {}", what, same_val(&got, &shadow))
                        })?;
                        val = got;
                    } else {
                        let e = r.as_ref().err().cloned();
                        ctx.check(&[10], e.is_none(), "logger-broken", || {
                            format!("{} failed although the logger accepts: {:?}", what, e)
                        })?;
                        let got = obj.obs();
                        ctx.check(&[10], r == Ok(true) && got == after, "mutation-wrong", || {
                            format!("{}: {}", what, same_val(&got, &after))
                        })?;
                        // What isn't logged isn't in the shadow.
                        let logged_all = steps(ty, &val, &effs).pop().unwrap() == after;
                        ctx.check(&[10, 1], !logged_all || shadow == after, "not-logged", || {
                            format!("{} logged {:?}, which gives: {}", what, calls, same_val(&shadow, &after))
                        })?;
                        val = after;
                        ctx.count("appends accepted", !effs.is_empty() as u64);
                    }
                    let mut s = rec.0.lock().unwrap();
                    let len = s.calls.len();
                    s.refuse.retain(|(at, _)| *at >= len);
                }
                AppendEv::Text { path, act, pace } => {
                    let mut after = text_val.clone();
                    let effs = match apply(ty, &mut after, &path, &act) {
                        Some(effs) => effs,
                        None => continue,
                    };
                    // With more than one hand-over, it isn't known which of them failed.
                    let one = steps(ty, &text_val, &effs).len() <= 2 && !matches!(act, Act::VSetNs { .. }) && !silent_items(&act);
                    let what = format!("{} at {:?}", brief(&act), path);
                    let marks: Vec<usize> = sinks.iter().map(|s| s.0.lock().unwrap().data.len()).collect();
                    let nav = cx.nav;
                    texts[0].act(&path, &act, &mut cx);
                    let good = sinks[0].0.lock().unwrap().data[marks[0]..].to_vec();
                    cx.nav = nav;
                    sinks[1].0.lock().unwrap().set(if one { Some(pace.clone()) } else { None });
                    let r = guarded(|| texts[1].act(&path, &act, &mut cx));
                    let (text, failed) = {
                        let s = match sinks[1].0.lock() {
                            Ok(s) => s,
                            Err(_) => {
                                return ctx.check(&[10], false, "logger-broken", || "the writer is poisoned".into())
                            }
                        };
                        ctx.count("fault: short write", s.short);
                        ctx.count("fault: interrupted write", s.interrupted);
                        ctx.count("fault: write error", s.failed as u64);
                        (s.data[marks[1]..].to_vec(), s.failed)
                    };
                    ctx.note(&text);
                    let got = texts[1].obs();
                    let shown = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
                    if failed {
                        ctx.check(&[10], r.is_err(), "text-loss-hidden", || {
                            format!("a writer failed during {} ({:?}) and the call returned normally", what, pace)
                        })?;
                        ctx.check(&[10], got == text_val, "refused-but-applied", || {
                            format!("a writer failed during {}: {}", what, same_val(&got, &text_val))
                        })?;
                        // Start over with what is known to be there.
                        for (i, s) in sinks.iter().enumerate() {
                            s.0.lock().unwrap().set(None);
                            texts[i] = (schema.build)(&text_val, Runtime::new());
                            texts[i].set_runtime(text_runtime(s.clone(), shape >> 11));
                        }
                        ctx.count("text appends failed", 1);
                    } else {
                        ctx.check(&[10], r == Ok(true) && got == after, "mutation-wrong", || {
                            format!("{} gave {:?}: {}", what, r, same_val(&got, &after))
                        })?;
                        // The items of hash maps come in any order.
                        let sorted = |b: &[u8]| {
                            let mut b = b.to_vec();
                            b.sort_unstable();
                            b
                        };
                        let same = text.len() == good.len() && text.last() == good.last() && sorted(&text) == sorted(&good);
                        ctx.check(&[10], same, "text-incomplete", || {
                            format!("{} at pace {:?} wrote {}\n  want {}", what, pace, shown(&text), shown(&good))
                        })?;
                        ctx.check(&[10], effs.is_empty() || !text.is_empty(), "text-incomplete", || {
                            format!("{} wrote nothing", what)
                        })?;
                        text_val = after;
                        ctx.count("text appends complete", !text.is_empty() as u64);
                    }
                }
            }
        }
        Ok(())
    }

    fn simpler(ev: &AppendEv) -> Vec<AppendEv> {
        match ev {
            AppendEv::Op { path, act } => ops(path, act).into_iter().map(|(path, act)| AppendEv::Op { path, act }).collect(),
            AppendEv::Text { path, act, pace } => simpler_pace(pace)
                .into_iter()
                .map(|pace| AppendEv::Text { path: path.clone(), act: act.clone(), pace })
                .chain(ops(path, act).into_iter().map(|(path, act)| AppendEv::Text { path, act, pace: pace.clone() }))
                .collect(),
            AppendEv::Refuse { after, kind } if *after > 0 => vec![AppendEv::Refuse { after: 0, kind: *kind }],
            _ => Vec::new(),
        }
    }
}

// ---- C11 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HandEv {
    Op { path: Vec<u32>, act: Act },
    /// The machine with the log stops after the hand-over that comes next but so many.
    Crash { after: usize },
    /// The logger is replaced.
    Replace,
    Reroot { wrap: u8 },
}

pub struct HandOver;

fn list_schema(seed: u64) -> &'static Schema {
    let names = [
        "List<Item>", "List<u64>", "List<Shape>", "List<List<List<u8>>>", "Doc", "Tree", "Team", "Map<u8, List<i16>>",
        "Mess", "Either<Item, List<u32>>",
    ];
    by_name(names[mix(seed ^ 0x5d) as usize % names.len()])
}

impl Scenario for HandOver {
    const NAME: &'static str = "handover";
    type Ev = HandEv;

    fn run(src: &mut Src<HandEv>, ctx: &mut Ctx) -> Res {
        let schema = list_schema(ctx.seed);
        let ty = &schema.ty;
        let mut gen = gen_for(ctx.seed);
        let shape = mix(ctx.seed ^ 0x73) as usize;
        gen.knobs.foreign = shape & 128 == 0;
        src.limit(match ctx.tier {
            Tier::Quick => [15, 30, 60][shape % 3],
            Tier::Thorough => [20, 60, 200][shape % 3],
        });
        let (rt, mut rec, mut slot) = rec_slot(shape >> 9);
        let mut obj = (schema.new)(rt);
        let mut val = ty.default();
        // What the durable log gives when it is replayed, and what the machine that stops sees.
        let mut durable = val.clone();
        let mut store: Vec<u8> = Vec::new();
        let mut crash: Option<usize> = None;
        let mut cx = Cx::new();
        ctx.note(schema.name.as_bytes());
        loop {
            let ev = {
                let (gen, val) = (&mut gen, &val);
                src.next(|rng| match rng.weighted(&[90, 8, 3, 3]) {
                    1 => HandEv::Crash { after: rng.below(4) },
                    2 => HandEv::Replace,
                    3 => HandEv::Reroot { wrap: rng.below(8) as u8 },
                    _ => {
                        let want = rng.pct(60);
                        let mut op = None;
                        for _ in 0..12 {
                            op = draw_op(gen, ty, val);
                            let swap = |a: &Act| matches!(a, Act::SwapRemove { .. });
                            match &op {
                                Some((_, a)) if want => {
                                    let inner = matches!(a, Act::Each { act, .. } if swap(act));
                                    if swap(a) || inner {
                                        break;
                                    }
                                }
                                _ => break,
                            }
                        }
                        match op {
                            Some((path, act)) => HandEv::Op { path, act },
                            None => HandEv::Replace,
                        }
                    }
                })
            };
            let ev = match ev {
                Some(ev) => ev,
                None => break,
            };
            if ctx.verbose {
                println!("{}", brief(&ev));
            }
            ctx.tick(10);
            cx.forget(4);
            match ev {
                HandEv::Crash { after } => crash = Some(after),
                HandEv::Replace => {
                    rec = slot(Rec::default());
                    ctx.count("logger replaced", 1);
                }
                HandEv::Reroot { wrap } => {
                    let (rt, r, s) = rec_slot(wrap as usize);
                    obj.set_runtime(rt);
                    rec = r;
                    slot = s;
                }
                HandEv::Op { path, act } => {
                    let mut after = val.clone();
                    let mut effs = match apply(ty, &mut after, &path, &act) {
                        Some(effs) => effs,
                        None => continue,
                    };
                    let n = rec.0.lock().unwrap().calls.len();
                    obj.act(&path, &act, &mut cx);
                    let got = obj.obs();
                    ctx.check(&[1], got == after, "mutation-wrong", || same_val(&got, &after))?;
                    let calls = rec.0.lock().unwrap().calls[n..].to_vec();
                    let entries: Vec<Vec<u8>> = calls.iter().flat_map(|c| c.entries.clone()).collect();
                    as_visited(&path, &act, &mut effs, &entries);
                    let steps = steps(ty, &val, &effs);
                    let what = format!("{} at {:?}", brief(&act), path);
                    ctx.count("hand-overs", calls.len() as u64);
                    ctx.count("hand-overs of several entries", calls.iter().filter(|c| c.entries.len() > 1).count() as u64);
                    let mut shadow = val.clone();
                    let mut at = 0;
                    for (i, c) in calls.iter().enumerate() {
                        let mut ok = true;
                        for bytes in &c.entries {
                            ctx.note(bytes);
                            ok &= super::streams::ref_entry(ty, &mut shadow, bytes).is_ok();
                            store.extend(bytes);
                        }
                        ctx.check(&[1, 11], ok, "bad-entry", || format!("{} handed over {:?}", what, calls))?;
                        let next = steps[at..].iter().position(|s| *s == shadow);
                        ctx.check(&[11], next.is_some(), "torn-operation", || {
                            format!(
                                "{} made {} hand-overs; a log that ends after {} of them gives {}\n  but it went from {} to {}",
                                what,
                                calls.len(),
                                i + 1,
                                brief(&shadow),
                                brief(&val),
                                brief(&after)
                            )
                        })?;
                        at += next.unwrap();
                        if let Some(left) = &mut crash {
                            if *left == 0 {
                                // A machine that has the log up to here comes up.
                                let mut x = (schema.new)(Runtime::new());
                                let r = x.replay(&mut &*store);
                                let got = x.obs();
                                ctx.check(&[11, 1], r.is_ok() && got == shadow, "restart-diverged", || {
                                    format!("restart from a log that ends in the middle of {}: {:?} {}", what, r, same_val(&got, &shadow))
                                })?;
                                ctx.count("fault: crash between hand-overs", 1);
                                crash = None;
                            } else {
                                *left -= 1;
                            }
                        }
                    }
                    let last = steps.last().unwrap();
                    ctx.check(&[1, 11], shadow == *last, "follower-diverged", || {
                        format!("{} handed over {:?}: {}", what, calls, same_val(&shadow, last))
                    })?;
                    val = after;
                    durable = shadow;
                }
            }
        }
        let mut x = (schema.new)(Runtime::new());
        let r = x.replay(&mut &*store);
        let got = x.obs();
        ctx.check(&[11, 1], r.is_ok() && got == durable, "restart-diverged", || {
            format!("restart at the end: {:?} {}", r, same_val(&got, &durable))
        })
    }

    fn simpler(ev: &HandEv) -> Vec<HandEv> {
        match ev {
            HandEv::Op { path, act } => ops(path, act).into_iter().map(|(path, act)| HandEv::Op { path, act }).collect(),
            HandEv::Crash { after } if *after > 0 => vec![HandEv::Crash { after: 0 }],
            _ => Vec::new(),
        }
    }
}
