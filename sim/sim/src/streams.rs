//! Replicas fed with what a faulty transport or disk makes of logs and snapshots.
//!
//! The logs and snapshots are encoded by the reference, so that what the replica makes of them
//! doesn't depend on what a leader would have written.

use std::io::{self, Read};

use model::*;
use schemas::*;
use serde::{Deserialize, Serialize};

use super::cluster::{burstable, pick_schema, simpler_act};
use super::core::*;

/// What a leader wrote.
pub struct Hist {
    pub ty: &'static Ty,
    pub entries: Vec<Vec<u8>>,
    /// The value before each entry, and the current one.
    pub vals: Vec<Val>,
}

impl Hist {
    pub fn new(ty: &'static Ty) -> Self {
        Hist {
            ty,
            entries: Vec::new(),
            vals: vec![ty.default()],
        }
    }

    pub fn val(&self) -> &Val {
        self.vals.last().unwrap()
    }

    pub fn op(&mut self, path: &[u32], act: &Act) -> bool {
        let mut after = self.val().clone();
        let effs = match apply(self.ty, &mut after, path, act) {
            Some(effs) if !effs.is_empty() => effs,
            _ => return false,
        };
        // What the entries say; acts on values that aren't logged don't count.
        let mut v = self.val().clone();
        let mut new = Vec::new();
        for eff in &effs {
            if !apply_eff(self.ty, &mut v, eff) {
                return false;
            }
            new.push((eff.entry().bytes(), v.clone()));
        }
        for (e, v) in new {
            self.entries.push(e);
            self.vals.push(v);
        }
        true
    }
}

pub fn draw_op(gen: &mut Gen, ty: &Ty, val: &Val) -> Option<(Vec<u32>, Act)> {
    gen.act(ty, &mut val.clone())
}

fn simpler_op(path: &[u32], act: &Act) -> Vec<(Vec<u32>, Act)> {
    simpler_act(act).into_iter().map(|a| (path.to_vec(), a)).collect()
}

pub fn gen_for(seed: u64) -> Gen {
    let mut gen = Gen::new(mix(seed ^ 0x67));
    let r = mix(seed ^ 0x6b);
    gen.knobs = Knobs {
        panic: false,
        foreign: false,
        then: r & 2 == 0,
        big: r & 12 == 0,
        huge: crate::cluster::huge(seed),
        logged: true,
    };
    gen
}

// ---- C05 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CutEv {
    Op { path: Vec<u32>, act: Act },
    Burst { path: Vec<u32>, act: Act, times: usize },
    /// The next bytes of the log reach the replica's disk, and it replays them.
    Cut { bytes: usize },
    /// The same, in terms of entries and bytes of the one that follows.
    CutAt { entries: usize, more: usize },
    /// The replica crashes and starts over from a snapshot of what it had applied.
    Reload,
}

pub struct Cut;

impl Scenario for Cut {
    const NAME: &'static str = "cut";
    type Ev = CutEv;

    fn run(src: &mut Src<CutEv>, ctx: &mut Ctx) -> Res {
        let schema = pick_schema(ctx.seed);
        let mut gen = gen_for(ctx.seed);
        let shape = mix(ctx.seed ^ 0x73) as usize;
        src.limit(match ctx.tier {
            Tier::Quick => [10, 20, 40][shape % 3],
            Tier::Thorough => [12, 40, 150][shape % 3],
        });
        let mut h = Hist::new(&schema.ty);
        let (rt, mut log) = buffer_runtime();
        let mut obj = (schema.new)(rt);
        let mut pos = 0;
        ctx.note(schema.name.as_bytes());
        loop {
            let ev = {
                let (h, gen) = (&h, &mut gen);
                src.next(|rng| {
                    let behind = h.entries.len() - pos;
                    let w = [30, if behind > 0 { 30 } else { 2 }, if behind > 0 { 40 } else { 0 }, 5];
                    match rng.weighted(&w) {
                        0 => match draw_op(gen, h.ty, h.val()) {
                            Some((path, act)) if gen.knobs.huge > 0 && rng.pct(20) && burstable(&act) => {
                                gen.knobs.huge = 0;
                                let most = if matches!(act, Act::Set { .. }) { 4100 } else { 1030 };
                                CutEv::Burst { path, act, times: most.min(*rng.pick(&[70, 130, 260, 1030, 4100])) }
                            }
                            Some((path, act)) => CutEv::Op { path, act },
                            None => CutEv::Reload,
                        },
                        1 => {
                            let left: usize = h.entries[pos..].iter().map(Vec::len).sum();
                            CutEv::Cut { bytes: rng.below(left + 2) }
                        }
                        2 => {
                            let entries = rng.below(behind.min(4) + 1);
                            let next = h.entries.get(pos + entries).map_or(0, Vec::len);
                            let more = match rng.below(4) {
                                0 => 0,
                                1 => 1.min(next),
                                2 => next.saturating_sub(1),
                                _ => rng.below(next + 1),
                            };
                            CutEv::CutAt { entries, more }
                        }
                        _ => CutEv::Reload,
                    }
                })
            };
            let ev = match ev {
                Some(ev) => ev,
                None => break,
            };
            if ctx.verbose {
                println!("{}", brief(&ev));
            }
            ctx.tick(10);
            match ev {
                CutEv::Op { path, act } => {
                    if h.op(&path, &act) {
                        ctx.count("entries written", 1);
                    }
                }
                CutEv::Burst { path, act, times } => {
                    let before = h.entries.len();
                    // Every entry's state is kept, so no more than that.
                    let most = (4 << 20) / (1 + brief_len(h.val()));
                    for _ in 0..times.min(most) {
                        h.op(&path, &act);
                    }
                    ctx.count("entries written", (h.entries.len() - before) as u64);
                    ctx.count("bursts", 1);
                }
                CutEv::Cut { bytes } => cut(&h, &mut *obj, &mut pos, bytes, ctx)?,
                CutEv::CutAt { entries, more } => {
                    let whole: usize = h.entries[pos..].iter().take(entries).map(Vec::len).sum();
                    cut(&h, &mut *obj, &mut pos, whole + more, ctx)?
                }
                CutEv::Reload => {
                    let bytes = wire::encode(h.ty, &h.vals[pos]);
                    let r = (schema.load)(&mut &*bytes);
                    ctx.check(&[5, 2], r.is_ok(), "load-failed", || {
                        format!("a valid snapshot was rejected: {:?}: {}", r.as_ref().err(), hex(&bytes))
                    })?;
                    obj = r.ok().unwrap();
                    let (rt, new) = buffer_runtime();
                    obj.set_runtime(rt);
                    log = new;
                    ctx.count("fault: replica crashed", 1);
                    let got = obj.obs();
                    ctx.check(&[5, 2], got == h.vals[pos], "load-wrong", || {
                        format!("a snapshot was loaded wrongly: {}", same_val(&got, &h.vals[pos]))
                    })?;
                }
            }
            let logged = log_of(&log);
            ctx.check(&[5, 4], logged.is_empty(), "replica-logged", || format!("a replica logged {}", hex(&logged)))?;
        }
        // Once the transport works, the replica catches up.
        let left = h.entries[pos..].iter().map(Vec::len).sum();
        cut(&h, &mut *obj, &mut pos, left, ctx)?;
        ctx.check(&[5], pos == h.entries.len(), "not-caught-up", || "entries are missing".to_string())
    }

    fn simpler(ev: &CutEv) -> Vec<CutEv> {
        match ev {
            CutEv::Op { path, act } => {
                simpler_op(path, act).into_iter().map(|(path, act)| CutEv::Op { path, act }).collect()
            }
            CutEv::Burst { path, act, times } => [1, *times / 2, *times - times / 10, *times - 1]
                .iter()
                .filter(|n| **n > 0 && **n < *times)
                .map(|n| CutEv::Burst { path: path.clone(), act: act.clone(), times: *n })
                .collect(),
            _ => Vec::new(),
        }
    }
}

fn brief_len(val: &Val) -> usize {
    format!("{:?}", val).len()
}

/// The replica gets so many bytes of what it lacks.
fn cut(h: &Hist, obj: &mut dyn Obj, pos: &mut usize, bytes: usize, ctx: &mut Ctx) -> Res {
    let log = h.entries[*pos..].concat();
    let part = &log[..bytes.min(log.len())];
    let mut whole = 0;
    let mut at = 0;
    while *pos + whole < h.entries.len() && at + h.entries[*pos + whole].len() <= part.len() {
        at += h.entries[*pos + whole].len();
        whole += 1;
    }
    let inside = at < part.len();
    let r = obj.replay(&mut &*part);
    ctx.note(part);
    ctx.count("logs replayed", 1);
    ctx.count("entries applied", whole as u64);
    if inside {
        ctx.count("fault: log cut inside an entry", 1);
    } else if part.len() < log.len() {
        ctx.count("fault: log cut between entries", 1);
    }
    let want = &h.vals[*pos + whole];
    let got = obj.obs();
    ctx.check(&[5], got == *want, "cut-state", || {
        format!(
            "after replaying {} whole entries and {} bytes of another ({}): {}",
            whole,
            part.len() - at,
            hex(part),
            same_val(&got, want)
        )
    })?;
    ctx.check(&[5], r.is_err() == inside, "cut-report", || {
        format!(
            "replaying {} whole entries and {} bytes of another ({}) returned {:?}",
            whole,
            part.len() - at,
            hex(part),
            r
        )
    })?;
    *pos += whole;
    Ok(())
}

// ---- C06 ----

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Route {
    Load,
    Merge,
    Replay,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AttackEv {
    /// A mutation of the state as it is.
    Op { path: Vec<u32>, act: Act },
    /// Bytes from nowhere good.
    Attack { route: Route, bytes: Vec<u8> },
    /// A value as it should be.
    Reset { val: Val },
}

pub struct Attack;

/// Runs `f` within bounds on steps and memory; the process ends if it exceeds them.
fn bounded<R>(input: usize, f: impl FnOnce() -> R) -> R {
    let left = sched::budget_left();
    let mine = (20_000_000 + 400_000 * input as u64).min(left);
    sched::budget(mine);
    sched::alloc::start((4 << 20) + (64 << 10) * input);
    let r = f();
    sched::alloc::peak();
    let used = mine - sched::budget_left();
    sched::budget((left - used).max(1));
    r
}

fn mutate(rng: &mut Rng, mut b: Vec<u8>) -> Vec<u8> {
    let n = match rng.below(4) {
        0 => 1,
        1 => 2,
        _ => rng.range(1, 6),
    };
    for _ in 0..n {
        let len = b.len();
        let at = rng.below(len + 1);
        match rng.below(11) {
            0 if len > 0 => b[at.min(len - 1)] ^= 1 << rng.below(8),
            1 if len > 0 => b[at.min(len - 1)] = rng.u64() as u8,
            2 => b.insert(at, rng.u64() as u8),
            3 if len > 0 => {
                b.remove(at.min(len - 1));
            }
            4 if len > 0 => {
                let to = (at + rng.range(1, 8)).min(len);
                let part = b[at.min(to)..to].to_vec();
                let at2 = rng.below(len + 1);
                b.splice(at2..at2, part);
            }
            5 => b.truncate(at),
            6 => {
                // Claims to be huge.
                let mut v = Vec::new();
                let x = match rng.below(5) {
                    0 => u64::MAX,
                    1 => u32::MAX as u64,
                    2 => 1 << 31,
                    3 => i64::MAX as u64,
                    _ => rng.u64() >> rng.below(64),
                };
                wire::put_varint(x, &mut v);
                let to = (at + rng.below(2)).min(len);
                b.splice(at..to, v);
            }
            7 => {
                let n = rng.range(1, 14);
                b.splice(at..at, std::iter::repeat(0x80 | rng.u64() as u8).take(n));
            }
            8 => {
                // A field of any kind.
                let mut v = Vec::new();
                let tag = rng.u64() as u32 >> rng.range(3, 31);
                wire::put_varint((tag as u64) << 3 | rng.below(8) as u64, &mut v);
                b.splice(at..at, v);
            }
            9 if len > 0 => b[at.min(len - 1)] = *rng.pick(&[0, 1, 0x7f, 0x80, 0xff]),
            _ => {
                let n = rng.range(1, 6);
                let v: Vec<u8> = (0..n).map(|_| rng.u64() as u8).collect();
                b.splice(at..at, v);
            }
        }
    }
    b.truncate(4096);
    b
}

impl Scenario for Attack {
    const NAME: &'static str = "attack";
    type Ev = AttackEv;

    fn run(src: &mut Src<AttackEv>, ctx: &mut Ctx) -> Res {
        let schema = pick_schema(ctx.seed);
        let ty = &schema.ty;
        let mut gen = gen_for(ctx.seed);
        let shape = mix(ctx.seed ^ 0x73) as usize;
        src.limit(match ctx.tier {
            Tier::Quick => [8, 16, 30][shape % 3],
            Tier::Thorough => [10, 30, 120][shape % 3],
        });
        let (rt, mut log) = buffer_runtime();
        let mut obj = (schema.new)(rt);
        let mut val = ty.default();
        let mut cx = Cx::new();
        ctx.note(schema.name.as_bytes());
        loop {
            let ev = {
                let (gen, val) = (&mut gen, &val);
                src.next(|rng| match rng.weighted(&[25, 65, 6]) {
                    0 => match draw_op(gen, ty, val) {
                        Some((path, act)) => AttackEv::Op { path, act },
                        None => AttackEv::Reset { val: gen.value(ty) },
                    },
                    1 => {
                        let route = *rng.pick(&[Route::Load, Route::Merge, Route::Replay, Route::Replay]);
                        let good = match route {
                            Route::Replay => {
                                let mut v = val.clone();
                                let mut b = Vec::new();
                                for _ in 0..rng.range(1, 4) {
                                    if let Some((path, act)) = draw_op(gen, ty, &v) {
                                        for e in apply(ty, &mut v, &path, &act).unwrap_or_default() {
                                            b.extend(e.entry().bytes());
                                        }
                                    }
                                }
                                b
                            }
                            _ => wire::encode(ty, &gen.value(ty)),
                        };
                        let bytes = match rng.below(12) {
                            0 => good,
                            1 => (0..rng.below(40)).map(|_| rng.u64() as u8).collect(),
                            2 => (0..rng.below(40)).map(|_| rng.below(20) as u8).collect(),
                            3 => {
                                // A log entry with a damaged body and the right length.
                                let body = mutate(rng, good);
                                let mut b = Vec::new();
                                wire::put_varint(body.len() as u64, &mut b);
                                b.extend(body);
                                b
                            }
                            _ => mutate(rng, good),
                        };
                        AttackEv::Attack { route, bytes }
                    }
                    _ => AttackEv::Reset { val: gen.value(ty) },
                })
            };
            let ev = match ev {
                Some(ev) => ev,
                None => break,
            };
            if ctx.verbose {
                println!("{}", brief(&ev));
            }
            ctx.tick(10);
            match ev {
                AttackEv::Reset { val: new } => {
                    let (rt, l) = buffer_runtime();
                    obj = (schema.build)(&new, rt);
                    l.lock().unwrap().clear();
                    log = l;
                    val = new;
                    let got = obj.obs();
                    ctx.check(&[1], got == val, "build-wrong", || same_val(&got, &val))?;
                }
                AttackEv::Attack { route, bytes } => {
                    ctx.note(&bytes);
                    ctx.count("fault: corrupted input", 1);
                    let r = guarded(|| {
                        bounded(bytes.len(), || match route {
                            Route::Load => match (schema.load)(&mut &*bytes) {
                                Ok(x) => {
                                    obj = x;
                                    Ok(true)
                                }
                                Err(e) => Err(e),
                            },
                            Route::Merge => obj.merge(&mut &*bytes).map(|_| false),
                            Route::Replay => obj.replay(&mut &*bytes).map(|_| false),
                        })
                    });
                    let r = match r {
                        Ok(r) => r,
                        Err(p) => {
                            return ctx.check(&[6], false, "panic-on-input", || {
                                format!("{:?} of {} panicked: {}", route, hex(&bytes), p)
                            })
                        }
                    };
                    ctx.count(if r.is_ok() { "inputs accepted" } else { "inputs rejected" }, 1);
                    if let Ok(true) = r {
                        let (rt, l) = buffer_runtime();
                        obj.set_runtime(rt);
                        log = l;
                    }
                    let what = format!("{:?} of {} ({:?})", route, hex(&bytes), r.as_ref().err().map(|e| e.kind()));
                    val = usable(schema, &*obj, &what, ctx)?;
                    let logged = log_of(&log);
                    ctx.check(&[4, 6], logged.is_empty(), "load-logged", || {
                        format!("{} logged {}", what, hex(&logged))
                    })?;
                }
                AttackEv::Op { path, act } => {
                    let mut after = val.clone();
                    if apply(ty, &mut after, &path, &act).is_none() {
                        continue;
                    }
                    cx.forget(4);
                    let what = format!("{} at {:?}", brief(&act), path);
                    let snapshot = obj.to_bytes();
                    let mut follower = follow_from(schema, &snapshot, &what, ctx)?;
                    let before = log_of(&log).len();
                    let found = match guarded(|| obj.act(&path, &act, &mut cx)) {
                        Ok(found) => found,
                        Err(p) => {
                            return ctx.check(&[6], false, "panic-after-input", || {
                                format!("{} panicked on a state that came from bad input: {}", what, p)
                            })
                        }
                    };
                    let got = obj.obs();
                    ctx.check(&[6], found && got == after, "mutation-wrong", || {
                        format!("{} of a state that came from bad input: {}", what, same_val(&got, &after))
                    })?;
                    let new = log_of(&log)[before..].to_vec();
                    let r = follower.replay(&mut &*new);
                    let theirs = follower.obs();
                    // Values that aren't logged travel with snapshots only.
                    ctx.check(&[6], r.is_ok() && theirs == got, "not-followed", || {
                        format!(
                            "a replica can't follow {} of a state that came from bad input ({:?} replaying {}): {}",
                            what,
                            r,
                            hex(&new),
                            same_val(&theirs, &got)
                        )
                    })?;
                    log.lock().unwrap().clear();
                    val = after;
                    ctx.count("mutations followed", 1);
                }
            }
        }
        Ok(())
    }

    fn simpler(ev: &AttackEv) -> Vec<AttackEv> {
        match ev {
            AttackEv::Op { path, act } => {
                simpler_op(path, act).into_iter().map(|(path, act)| AttackEv::Op { path, act }).collect()
            }
            AttackEv::Attack { route, bytes } => shorter(bytes)
                .into_iter()
                .map(|bytes| AttackEv::Attack { route: *route, bytes })
                .collect(),
            _ => Vec::new(),
        }
    }
}

/// Shorter byte strings.
pub fn shorter(b: &[u8]) -> Vec<Vec<u8>> {
    let n = b.len();
    let mut out = vec![b[..n / 2].to_vec(), b[n / 2..].to_vec()];
    let step = (n / 24).max(1);
    for at in (0..n).step_by(step) {
        let mut c = b.to_vec();
        c.drain(at..(at + step).min(n));
        out.push(c);
    }
    out.retain(|c| c.len() < n);
    out
}

fn follow_from(schema: &'static Schema, snapshot: &[u8], what: &str, ctx: &mut Ctx) -> Res<Box<dyn Obj>> {
    match (schema.load)(&mut &*snapshot) {
        Ok(x) => Ok(x),
        Err(e) => {
            ctx.check(&[6], false, "reload-failed", || {
                format!("after {}, the state's own serialization {} is rejected: {}", what, hex(snapshot), e)
            })?;
            unreachable!()
        }
    }
}

/// The state can be read, serialized and reloaded.
fn usable(schema: &'static Schema, obj: &dyn Obj, what: &str, ctx: &mut Ctx) -> Res<Val> {
    let r = guarded(|| {
        obj.look();
        let v = obj.obs();
        let size = obj.compute_size();
        let bytes = obj.to_bytes();
        (v, size, bytes)
    });
    let (v, size, bytes) = match r {
        Ok(x) => x,
        Err(p) => {
            ctx.check(&[6], false, "panic-after-input", || format!("after {}, using the state panicked: {}", what, p))?;
            unreachable!()
        }
    };
    ctx.check(&[6, 9], size as usize == bytes.len(), "size-wrong", || {
        format!("after {}, the state says it takes {} bytes and takes {}", what, size, bytes.len())
    })?;
    let again = follow_from(schema, &bytes, what, ctx)?;
    let w = again.obs();
    ctx.check(&[6], w == v && again.same(obj), "reload-wrong", || {
        format!("after {}, the state's own serialization {} loads differently: {}", what, hex(&bytes), same_val(&w, &v))
    })?;
    Ok(v)
}

// ---- C07 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RejectEv {
    /// The replica replays these entries (with their length prefixes).
    Feed { entries: Vec<Vec<u8>> },
    /// It mutates itself.
    Op { path: Vec<u32>, act: Act },
    /// It starts over from a snapshot.
    Reset { val: Val },
}

pub struct Reject;

/// An address of something in the value (a state or not), and its type.
pub fn some_path(rng: &mut Rng, ty: &Ty, val: &Val) -> (Vec<u32>, Ty) {
    let mut path = Vec::new();
    let (mut t, mut v) = (ty.clone(), val.clone());
    loop {
        if rng.pct(25) {
            return (path, t);
        }
        let next = match (&t, &v) {
            (Ty::List(i), Val::L(xs)) if !xs.is_empty() => {
                let k = rng.below(xs.len());
                path.push(k as u32);
                ((**i).clone(), xs[k].clone())
            }
            (Ty::Map(_, i), Val::M(m)) if !m.is_empty() => {
                let (k, x) = m.iter().nth(rng.below(m.len())).unwrap();
                path.push(*k);
                ((**i).clone(), x.clone())
            }
            (Ty::Def(_), Val::L(xs)) if !xs.is_empty() => {
                let fields = t.fields().unwrap();
                let k = rng.below(fields.len());
                path.push(fields[k].tag);
                (fields[k].ty.clone(), xs[k].clone())
            }
            (Ty::Def(_), Val::E(tag, xs)) if !xs.is_empty() => {
                let fields = &find_variant(t.variants().unwrap(), *tag).unwrap().fields;
                let k = rng.below(fields.len());
                path.push(*tag);
                path.push(fields[k].tag);
                (fields[k].ty.clone(), xs[k].clone())
            }
            _ => return (path, t),
        };
        t = next.0;
        v = next.1;
    }
}

/// An entry that most likely doesn't fit the value.
fn bad_entry(rng: &mut Rng, gen: &mut Gen, ty: &Ty, val: &Val) -> Vec<u8> {
    let (path, t) = some_path(rng, ty, val);
    let kind = *rng.pick(&[wire::UPDATE, wire::UPDATE, wire::UPDATE, wire::PUSH, wire::POP, wire::REMOVE]);
    let mut e = wire::Entry::new(kind, path);
    e.key = match &t {
        Ty::Map(keys, _) if rng.pct(60) => gen.key(keys),
        _ => rng.u64() as u32 >> rng.below(32),
    };
    e.value = match (rng.below(4), &t) {
        (0, _) => wire::encode(&t, &gen.value(&t)),
        (1, Ty::List(i)) | (1, Ty::Map(_, i)) => wire::encode(i, &gen.value(i)),
        (2, _) => (0..rng.below(12)).map(|_| rng.u64() as u8).collect(),
        _ => {
            let b = match &t {
                Ty::List(i) if rng.pct(50) => wire::encode(i, &gen.value(i)),
                t => wire::encode(t, &gen.value(t)),
            };
            mutate(rng, b)
        }
    };
    if kind == wire::POP || kind == wire::REMOVE {
        e.value.clear();
    }
    match rng.below(10) {
        // Somewhere that isn't there.
        0 => e.path.push(rng.below(4) as u32),
        1 => e.path.push(rng.u64() as u32 >> rng.below(32)),
        2 => {
            if let Some(x) = e.path.last_mut() {
                *x = x.wrapping_add(1 + rng.below(3) as u32);
            }
        }
        3 => {
            e.path.pop();
        }
        4 => {
            let at = rng.below(e.path.len() + 1);
            e.path.insert(at, rng.below(5) as u32);
        }
        5 => {
            if !e.path.is_empty() {
                let at = rng.below(e.path.len());
                e.path[at] = rng.u64() as u32 >> rng.below(32);
            }
        }
        _ => {}
    }
    e.bytes()
}

/// A damaged entry whose length prefix is right again.
fn damaged_entry(rng: &mut Rng, good: &[u8]) -> Vec<u8> {
    let body = match wire::Rd::new(good).sized() {
        Ok(b) => b.to_vec(),
        Err(_) => good.to_vec(),
    };
    let body = mutate(rng, body);
    let mut out = Vec::new();
    wire::put_varint(body.len() as u64, &mut out);
    out.extend(body);
    out
}

/// What the reference makes of an entry with its length prefix.
pub fn ref_entry(ty: &Ty, val: &mut Val, bytes: &[u8]) -> Result<(), &'static str> {
    let mut r = wire::Rd::new(bytes);
    let body = r.sized()?;
    let e = wire::Entry::decode(body)?;
    match wire::apply_entry(ty, val, &e) {
        Ok(()) => Ok(()),
        Err(wire::Reject::Address) => Err("address"),
        Err(wire::Reject::Payload) => Err("payload"),
    }
}

impl Scenario for Reject {
    const NAME: &'static str = "reject";
    type Ev = RejectEv;

    fn run(src: &mut Src<RejectEv>, ctx: &mut Ctx) -> Res {
        let schema = pick_schema(ctx.seed);
        let ty = &schema.ty;
        let mut gen = gen_for(ctx.seed);
        let shape = mix(ctx.seed ^ 0x73) as usize;
        src.limit(match ctx.tier {
            Tier::Quick => [10, 20, 40][shape % 3],
            Tier::Thorough => [12, 40, 150][shape % 3],
        });
        let (rt, mut log) = buffer_runtime();
        let mut obj = (schema.new)(rt);
        let mut val = ty.default();
        let mut cx = Cx::new();
        ctx.note(schema.name.as_bytes());
        loop {
            let ev = {
                let (gen, val) = (&mut gen, &val);
                src.next(|rng| match rng.weighted(&[60, 25, 6]) {
                    0 => {
                        let mut v = val.clone();
                        let mut entries = Vec::new();
                        let n = rng.range(1, 5);
                        for _ in 0..n {
                            match rng.below(8) {
                                0..=3 => {
                                    if let Some((path, act)) = draw_op(gen, ty, &v) {
                                        for e in apply(ty, &mut v, &path, &act).unwrap_or_default() {
                                            entries.push(e.entry().bytes());
                                        }
                                    }
                                }
                                4 => {
                                    if let Some((path, act)) = draw_op(gen, ty, &v) {
                                        for e in apply(ty, &mut v.clone(), &path, &act).unwrap_or_default() {
                                            entries.push(damaged_entry(rng, &e.entry().bytes()));
                                        }
                                    }
                                }
                                _ => entries.push(bad_entry(rng, gen, ty, &v)),
                            }
                        }
                        RejectEv::Feed { entries }
                    }
                    1 => match draw_op(gen, ty, val) {
                        Some((path, act)) => RejectEv::Op { path, act },
                        None => RejectEv::Reset { val: gen.value(ty) },
                    },
                    _ => RejectEv::Reset { val: gen.value(ty) },
                })
            };
            let ev = match ev {
                Some(ev) => ev,
                None => break,
            };
            if ctx.verbose {
                println!("{}", brief(&ev));
            }
            ctx.tick(10);
            match ev {
                RejectEv::Reset { val: new } => {
                    let bytes = wire::encode(ty, &new);
                    let r = (schema.load)(&mut &*bytes);
                    ctx.check(&[2], r.is_ok(), "load-failed", || format!("{:?}", r.as_ref().err()))?;
                    obj = r.ok().unwrap();
                    let (rt, l) = buffer_runtime();
                    obj.set_runtime(rt);
                    log = l;
                    val = new;
                    let got = obj.obs();
                    ctx.check(&[2], got == val, "load-wrong", || same_val(&got, &val))?;
                }
                RejectEv::Feed { entries } => {
                    let mut why = None;
                    for e in &entries {
                        match ref_entry(ty, &mut val, e) {
                            Ok(()) => ctx.count("entries accepted", 1),
                            Err(e) => {
                                why = Some(e);
                                break;
                            }
                        }
                    }
                    let bytes = entries.concat();
                    ctx.note(&bytes);
                    if let Some(why) = why {
                        ctx.count(&format!("fault: entry rejected ({})", why), 1);
                    }
                    let r = match guarded(|| obj.replay(&mut &*bytes)) {
                        Ok(r) => r,
                        Err(p) => {
                            return ctx.check(&[6, 7], false, "panic-on-input", || {
                                format!("replay of {} panicked: {}", hex(&bytes), p)
                            })
                        }
                    };
                    let got = obj.obs();
                    ctx.check(&[7], got == val, "rejected-entry-changed-state", || {
                        format!(
                            "replay of {} returned {:?} (reference: {:?}): {}",
                            hex(&bytes),
                            r,
                            why,
                            same_val(&got, &val)
                        )
                    })?;
                    ctx.check(&[7], r.is_err() == why.is_some(), "wrong-verdict", || {
                        format!("replay of {} returned {:?} (reference: {:?})", hex(&bytes), r, why)
                    })?;
                    let logged = log_of(&log);
                    ctx.check(&[4, 7], logged.is_empty(), "replica-logged", || {
                        format!("replay of {} logged {}", hex(&bytes), hex(&logged))
                    })?;
                }
                RejectEv::Op { path, act } => {
                    let mut after = val.clone();
                    if apply(ty, &mut after, &path, &act).is_none() {
                        continue;
                    }
                    cx.forget(4);
                    let what = format!("{} at {:?}", brief(&act), path);
                    let found = obj.act(&path, &act, &mut cx);
                    let got = obj.obs();
                    ctx.check(&[7], found && got == after, "mutation-wrong", || {
                        format!("{} after rejected entries: {}", what, same_val(&got, &after))
                    })?;
                    let new = log.lock().unwrap().pluck_bytes();
                    let mut shadow = val.clone();
                    let ok = match wire::split_log(&new) {
                        Ok(es) => es.iter().all(|(e, _)| wire::apply_entry(ty, &mut shadow, e).is_ok()),
                        Err(_) => false,
                    };
                    ctx.check(&[7], ok && shadow == after, "not-followed", || {
                        format!(
                            "{} after rejected entries logged {}, which gives: {}",
                            what,
                            hex(&new),
                            same_val(&shadow, &after)
                        )
                    })?;
                    val = after;
                    ctx.count("mutations followed", 1);
                }
            }
        }
        Ok(())
    }

    fn simpler(ev: &RejectEv) -> Vec<RejectEv> {
        match ev {
            RejectEv::Op { path, act } => {
                simpler_op(path, act).into_iter().map(|(path, act)| RejectEv::Op { path, act }).collect()
            }
            RejectEv::Feed { entries } => {
                let mut out = Vec::new();
                if entries.len() > 1 {
                    for i in 0..entries.len() {
                        let mut e = entries.clone();
                        e.remove(i);
                        out.push(RejectEv::Feed { entries: e });
                    }
                }
                out
            }
            RejectEv::Reset { .. } => Vec::new(),
        }
    }
}

// ---- C08 ----

/// How a reader hands out its bytes.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Pace {
    /// At most so many bytes at a time, in turn.
    pub sizes: Vec<usize>,
    /// Offsets at which a read is interrupted, as often as they occur.
    pub interrupts: Vec<usize>,
    /// The read at this offset fails.
    pub error: Option<(usize, u8)>,
    /// And all later ones too.
    pub sticky: bool,
}

pub const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
];

pub struct SlowReader<'a> {
    data: &'a [u8],
    at: usize,
    turn: usize,
    pace: Pace,
    pub failed: bool,
    pub interrupted: u64,
    pub short: u64,
}

impl<'a> SlowReader<'a> {
    pub fn new(data: &'a [u8], pace: &Pace) -> Self {
        SlowReader {
            data,
            at: 0,
            turn: 0,
            pace: pace.clone(),
            failed: false,
            interrupted: 0,
            short: 0,
        }
    }
}

impl<'a> Read for SlowReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(i) = self.pace.interrupts.iter().position(|x| *x == self.at) {
            self.pace.interrupts.remove(i);
            self.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut end = self.data.len();
        if let Some((at, kind)) = self.pace.error {
            if at == self.at && (!self.failed || self.pace.sticky) {
                self.failed = true;
                if kind == super::io::BOOM {
                    schemas::raise();
                }
                return Err(io::Error::new(KINDS[kind as usize % KINDS.len()], "simulated read error"));
            }
            if at > self.at {
                end = end.min(at);
            }
        }
        for i in &self.pace.interrupts {
            if *i > self.at {
                end = end.min(*i);
            }
        }
        let size = self.pace.sizes[self.turn % self.pace.sizes.len()].max(1);
        self.turn += 1;
        let want = buf.len().min(self.data.len() - self.at);
        let n = want.min(size).min(end - self.at);
        if n < want {
            self.short += 1;
        }
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FeedEv {
    Op { path: Vec<u32>, act: Act },
    /// The entries the replica lacks arrive in this way.
    Log { pace: Pace },
    /// A snapshot of the leader is loaded into a new object, or merged into a fresh one.
    Snapshot { pace: Pace, merge: bool },
    /// Bytes that may not be valid are loaded, merged or replayed.
    Bytes { route: Route, bytes: Vec<u8>, pace: Pace },
}

pub struct Feed;

pub fn draw_pace(rng: &mut Rng, len: usize, boundaries: &[usize], errors: bool) -> Pace {
    let sizes = match rng.below(5) {
        0 => vec![1],
        1 => vec![usize::MAX],
        2 => vec![1, 2, 3],
        _ => (0..rng.range(1, 5)).map(|_| rng.range(1, 9)).collect(),
    };
    let n = if rng.pct(50) { rng.below(6) } else { 0 };
    let interrupts = (0..n).map(|_| rng.below(len + 1)).collect();
    let error = if errors && rng.pct(50) {
        let at = if !boundaries.is_empty() && rng.pct(40) {
            *rng.pick(boundaries)
        } else {
            rng.below(len + 1)
        };
        Some((at, rng.below(KINDS.len()) as u8))
    } else {
        None
    };
    Pace {
        sizes,
        interrupts,
        error,
        sticky: rng.pct(50),
    }
}

impl Scenario for Feed {
    const NAME: &'static str = "feed";
    type Ev = FeedEv;

    fn run(src: &mut Src<FeedEv>, ctx: &mut Ctx) -> Res {
        let schema = pick_schema(ctx.seed);
        let ty = &schema.ty;
        let mut gen = gen_for(ctx.seed);
        let shape = mix(ctx.seed ^ 0x73) as usize;
        src.limit(match ctx.tier {
            Tier::Quick => [10, 20, 40][shape % 3],
            Tier::Thorough => [12, 40, 150][shape % 3],
        });
        let mut h = Hist::new(ty);
        let mut obj = (schema.new)(buffer_runtime().0);
        let mut pos = 0;
        ctx.note(schema.name.as_bytes());
        loop {
            let ev = {
                let (h, gen) = (&h, &mut gen);
                src.next(|rng| match rng.weighted(&[40, 30, 22, 16]) {
                    1 => {
                        let log = h.entries[pos..].concat();
                        let mut at = 0;
                        let mut ends = vec![0];
                        for e in &h.entries[pos..] {
                            at += e.len();
                            ends.push(at);
                        }
                        FeedEv::Log { pace: draw_pace(rng, log.len(), &ends, true) }
                    }
                    2 => {
                        let n = wire::encode(ty, h.val()).len();
                        FeedEv::Snapshot { pace: draw_pace(rng, n, &[0, n], true), merge: rng.pct(50) }
                    }
                    3 => {
                        let route = *rng.pick(&[Route::Load, Route::Merge, Route::Replay]);
                        let good = match route {
                            Route::Replay => h.entries[pos..].concat(),
                            _ => wire::encode(ty, &gen.value(ty)),
                        };
                        let bytes = mutate(rng, good);
                        let pace = draw_pace(rng, bytes.len(), &[], false);
                        FeedEv::Bytes { route, bytes, pace }
                    }
                    _ => match draw_op(gen, ty, h.val()) {
                        Some((path, act)) => FeedEv::Op { path, act },
                        None => FeedEv::Snapshot { pace: draw_pace(rng, 3, &[], false), merge: false },
                    },
                })
            };
            let ev = match ev {
                Some(ev) => ev,
                None => break,
            };
            if ctx.verbose {
                println!("{}", brief(&ev));
            }
            ctx.tick(10);
            match ev {
                FeedEv::Op { path, act } => {
                    if h.op(&path, &act) {
                        ctx.count("entries written", 1);
                    }
                }
                FeedEv::Log { pace } => feed_log(&h, &mut *obj, &mut pos, &pace, ctx)?,
                FeedEv::Snapshot { pace, merge } => {
                    let want = h.val();
                    let bytes = wire::encode(ty, want);
                    let mut r = SlowReader::new(&bytes, &pace);
                    let res = if merge {
                        let mut x = (schema.new)(buffer_runtime().0);
                        x.merge(&mut r).map(|_| x)
                    } else {
                        (schema.load)(&mut r)
                    };
                    counts(&r, ctx);
                    ctx.note(&bytes);
                    let what = || format!("loading {} at pace {:?}", hex(&bytes), pace);
                    match pace.error {
                        Some((at, kind)) if at <= bytes.len() => {
                            let kind = KINDS[kind as usize % KINDS.len()];
                            let ok = res.as_ref().err().map(|e| e.kind()) == Some(kind);
                            let shown = res.map(|x| x.obs());
                            ctx.check(&[8], ok, "read-error-lost", || {
                                format!("{} returned {}", what(), brief(&shown))
                            })?;
                        }
                        _ => {
                            let shown = res.map(|x| x.obs());
                            let ok = shown.as_ref().ok() == Some(want);
                            ctx.check(&[8], ok, "fragmented-load-wrong", || {
                                format!("{} gives {}\n  want {}", what(), brief(&shown), brief(want))
                            })?;
                        }
                    }
                }
                FeedEv::Bytes { route, bytes, pace } => {
                    let now = wire::encode(ty, &h.vals[pos]);
                    let mut run = |r: &mut dyn Read| -> (Option<io::ErrorKind>, Option<Val>) {
                        match route {
                            Route::Load => match (schema.load)(r) {
                                Ok(x) => (None, Some(x.obs())),
                                Err(e) => (Some(e.kind()), None),
                            },
                            _ => match (schema.load)(&mut &*now) {
                                Ok(mut x) => {
                                    let res = match route {
                                        Route::Merge => x.merge(r),
                                        _ => x.replay(r),
                                    };
                                    (res.err().map(|e| e.kind()), Some(x.obs()))
                                }
                                Err(e) => (Some(e.kind()), None),
                            },
                        }
                    };
                    let whole = guarded(|| run(&mut &*bytes));
                    let mut r = SlowReader::new(&bytes, &pace);
                    let slow = guarded(|| run(&mut r));
                    counts(&r, ctx);
                    ctx.note(&bytes);
                    ctx.check(&[8], whole == slow, "fragmentation-matters", || {
                        format!(
                            "{:?} of {} at pace {:?} gives {}\n  at once {}",
                            route,
                            hex(&bytes),
                            pace,
                            brief(&slow),
                            brief(&whole)
                        )
                    })?;
                }
            }
        }
        let healthy = Pace { sizes: vec![usize::MAX], interrupts: Vec::new(), error: None, sticky: false };
        feed_log(&h, &mut *obj, &mut pos, &healthy, ctx)?;
        ctx.check(&[8], pos == h.entries.len(), "not-caught-up", || "entries are missing".to_string())
    }

    fn simpler(ev: &FeedEv) -> Vec<FeedEv> {
        let paces = |p: &Pace| {
            let mut out = Vec::new();
            if !p.interrupts.is_empty() {
                out.push(Pace { interrupts: Vec::new(), ..p.clone() });
                out.push(Pace { interrupts: p.interrupts[..1].to_vec(), ..p.clone() });
            }
            if p.sizes != [usize::MAX] {
                out.push(Pace { sizes: vec![usize::MAX], ..p.clone() });
                out.push(Pace { sizes: vec![1], ..p.clone() });
            }
            out
        };
        match ev {
            FeedEv::Op { path, act } => {
                simpler_op(path, act).into_iter().map(|(path, act)| FeedEv::Op { path, act }).collect()
            }
            FeedEv::Log { pace } => paces(pace).into_iter().map(|pace| FeedEv::Log { pace }).collect(),
            FeedEv::Snapshot { pace, merge } => {
                paces(pace).into_iter().map(|pace| FeedEv::Snapshot { pace, merge: *merge }).collect()
            }
            FeedEv::Bytes { route, bytes, pace } => shorter(bytes)
                .into_iter()
                .map(|bytes| FeedEv::Bytes { route: *route, bytes, pace: pace.clone() })
                .collect(),
        }
    }
}

fn counts(r: &SlowReader, ctx: &mut Ctx) {
    ctx.count("fault: short read", r.short);
    ctx.count("fault: interrupted read", r.interrupted);
    ctx.count("fault: read error", r.failed as u64);
}

fn feed_log(h: &Hist, obj: &mut dyn Obj, pos: &mut usize, pace: &Pace, ctx: &mut Ctx) -> Res {
    let log = h.entries[*pos..].concat();
    let error = pace.error.filter(|(at, _)| *at <= log.len());
    let end = error.map_or(log.len(), |(at, _)| at);
    let mut whole = 0;
    let mut at = 0;
    while *pos + whole < h.entries.len() && at + h.entries[*pos + whole].len() <= end {
        at += h.entries[*pos + whole].len();
        whole += 1;
    }
    let mut r = SlowReader::new(&log, pace);
    let res = obj.replay(&mut r);
    counts(&r, ctx);
    ctx.note(&log);
    ctx.count("entries applied", whole as u64);
    let what = || format!("replaying {} at pace {:?}", hex(&log), pace);
    let kind = res.as_ref().err().map(|e| e.kind());
    let want_kind = error.map(|(_, k)| KINDS[k as usize % KINDS.len()]);
    ctx.check(&[8], kind == want_kind, "read-error-lost", || format!("{} returned {:?}", what(), res))?;
    let got = obj.obs();
    let want = &h.vals[*pos + whole];
    ctx.check(&[8], got == *want, "fragmented-replay-wrong", || {
        format!("{} ({} whole entries): {}", what(), whole, same_val(&got, want))
    })?;
    *pos += whole;
    Ok(())
}
