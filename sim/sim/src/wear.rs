//! C25: the same cycle of work, over and over. What it costs must not depend on how often it was
//! done before.

use std::io::Write;

use model::*;
use schemas::*;
use serde::{Deserialize, Serialize};
use steit::{log::loggers::BufferLogger, rt::Runtime};

use crate::cluster::{pick_schema, simpler_act};
use crate::core::*;
use crate::io::{draw_pace, Pace, SharedSink, Sink};
use crate::streams::{draw_op, gen_for, ref_entry, shorter, some_path, KINDS};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WearEv {
    /// What the state holds at the ends of a cycle.
    Start { val: Val },
    Op { path: Vec<u32>, act: Act },
    /// The same, with another map key and other texts in each cycle.
    Fresh { path: Vec<u32>, act: Act },
    /// Clones, mutates it apart from everything else; it may go on in place of the original.
    Copy { path: Vec<u32>, act: Act, swap: bool },
    Merge { val: Val },
    /// An entry that updates something.
    Touch { entry: Vec<u8> },
    /// Damaged bytes, as an entry or as a value, for a copy.
    Damage { bytes: Vec<u8>, entry: bool },
    Write { pace: Pace },
    Look,
    /// The log is taken, and followed.
    Drain,
    /// The follower loads a snapshot.
    Join,
    /// Entries written while the logger is paused are lost.
    Silent { pauses: usize, path: Vec<u32>, act: Act },
    /// The logger refuses the call after so many.
    Refuse { after: usize, kind: u8, path: Vec<u32>, act: Act },
    Move { numbers: Vec<u32> },
    Replace,
    Reload { load: bool },
    Derive { numbers: Vec<u32> },
}

/// What the state logs to.
enum Log {
    Rec(Rec, Box<dyn Fn(Rec) -> Rec>, usize),
    Buffer(schemas::Handle),
    Text(SharedSink),
}

struct World {
    schema: &'static Schema,
    obj: Box<dyn Obj>,
    rt: Runtime,
    log: Log,
    /// `None` if there is nothing to follow.
    follower: Option<Box<dyn Obj>>,
    cx: Cx,
    round: u64,
    /// Nobody takes the log.
    piling: bool,
}

pub struct Wear;

/// Rounds in which things may settle, and ones to compare with.
const EARLY: std::ops::Range<usize> = 6..14;

impl Scenario for Wear {
    const NAME: &'static str = "wear";
    type Ev = WearEv;

    fn budget() -> u64 {
        10_000_000_000
    }

    fn run(src: &mut Src<WearEv>, ctx: &mut Ctx) -> Res {
        let schema = pick_schema(ctx.seed);
        let ty = &schema.ty;
        let mut gen = gen_for(ctx.seed);
        gen.knobs.foreign = true;
        gen.knobs.logged = true;
        gen.knobs.huge = 0;
        gen.knobs.panic = ctx.seed & 3 == 0;
        let shape = mix(ctx.seed ^ 0x73) as usize;
        let kind = [0, 0, 0, 1, 1, 1, 2][(shape >> 4) % 7];
        let rounds = match ctx.tier {
            Tier::Quick => [60, 90, 130][shape % 3],
            Tier::Thorough => [60, 200, 600][shape % 3],
        };
        src.limit([2, 4, 7, 12][(shape >> 12) % 4]);
        let (rt, log) = match kind {
            0 => {
                let (rt, rec, replace) = rec_slot(shape >> 16);
                (rt, Log::Rec(rec, replace, 0))
            }
            1 => {
                let (rt, h) = buffer_runtime();
                (rt, Log::Buffer(h))
            }
            _ => {
                let sink = SharedSink::default();
                (text_runtime(sink.clone(), shape >> 16), Log::Text(sink))
            }
        };
        ctx.note(schema.name.as_bytes());
        let mut w = World {
            schema,
            obj: (schema.new)(rt.clone()),
            rt,
            log,
            follower: None,
            cx: Cx::new(),
            round: 0,
            piling: (shape >> 9) % 4 == 0,
        };
        let piling = w.piling;
        let nav = ctx.seed as u32;
        let mut base = ty.default();
        let mut script: Vec<WearEv> = Vec::new();
        let mut costs: Vec<(isize, u64)> = Vec::with_capacity(rounds);
        for round in 0..rounds {
            w.cx = Cx::new();
            w.cx.nav = nav;
            w.round = round as u64;
            let left = sched::budget_left();
            if round == 0 {
                // The cycle is made up while it's gone through for the first time.
                loop {
                    let ev = {
                        let (gen, val, first) = (&mut gen, w.obj.obs(), script.is_empty());
                        src.next(|rng| draw(rng, gen, ty, &val, first))
                    };
                    let ev = match ev {
                        Some(ev) => ev,
                        None => break,
                    };
                    if ctx.verbose {
                        println!("{}", brief(&ev));
                    }
                    if let WearEv::Start { val } = &ev {
                        base = val.clone();
                        w.obj = (schema.build)(&base, w.rt.clone());
                        w.drop_log();
                        w.join(ctx)?;
                    } else if w.follower.is_none() {
                        w.join(ctx)?;
                    }
                    if let WearEv::Op { path, act }
                    | WearEv::Fresh { path, act }
                    | WearEv::Copy { path, act, .. }
                    | WearEv::Silent { path, act, .. }
                    | WearEv::Refuse { path, act, .. } = &ev
                    {
                        if apply(ty, &mut w.obj.obs(), path, act).is_none() {
                            continue;
                        }
                    }
                    w.step(&ev, ctx)?;
                    script.push(ev);
                }
                if script.is_empty() {
                    break;
                }
                if w.follower.is_none() {
                    w.join(ctx)?;
                }
            } else {
                for ev in &script {
                    w.step(ev, ctx)?;
                }
            }
            w.settle(&base, shape >> 20, ctx)?;
            if piling {
                w.catch_up(ctx)?;
            } else {
                w.drain(ctx)?;
            }
            w.cx = Cx::new();
            let steps = left - sched::budget_left();
            costs.push((sched::alloc::live(), steps));
            let got = w.obj.obs();
            ctx.check(&[1], got == base, "did-not-settle", || same_val(&got, &base))?;
            if let Some(f) = &w.follower {
                let got = f.obs();
                ctx.check(&[1], got == base, "replica-diverged", || same_val(&got, &base))?;
            }
            ctx.tick(10);
        }
        if costs.len() < rounds || rounds < EARLY.end + 8 {
            return Ok(());
        }
        if ctx.verbose {
            println!("{:?}", costs);
        }
        ctx.count("cycles", rounds as u64);
        ctx.count(["cycles, recorded log", "cycles, buffered log", "cycles, text log"][kind], rounds as u64);
        ctx.count("cycles, log left to grow", if piling { rounds as u64 } else { 0 });
        // A table may grow once because of where its hashes happen to fall, so growth has to be steady
        // or beyond what that takes.
        let mem = |r: std::ops::Range<usize>| costs[r].iter().map(|c| c.0).min().unwrap();
        let part = (rounds - EARLY.end) / 4;
        let marks: Vec<isize> = (0..=4).map(|i| mem(EARLY.end + i * part - 8..EARLY.end + i * part)).collect();
        let steady = marks.windows(2).all(|m| m[1] > m[0] + 16);
        let grown = marks[4] - costs[EARLY].iter().map(|c| c.0).max().unwrap();
        let room = 1024 + 64 * entries(&base) as isize;
        ctx.check(&[25], piling || !(steady || grown > room), "memory-grows", || {
            format!("with equal content, live memory after more and more of {} cycles: {:?} bytes", rounds, marks)
        })?;
        let steps = |r: std::ops::Range<usize>| {
            let mut xs: Vec<u64> = costs[r].iter().map(|c| c.1).collect();
            xs.sort();
            xs[xs.len() / 2]
        };
        let (a, b) = (steps(EARLY), steps(rounds - 8..rounds));
        ctx.note(&(b > a).to_string().into_bytes());
        ctx.check(&[25], b <= a + a / 10 + 500, "work-grows", || {
            format!("a cycle takes {} steps after {} cycles, {} at first", b, rounds, a)
        })?;
        Ok(())
    }

    fn simpler(ev: &WearEv) -> Vec<WearEv> {
        match ev {
            WearEv::Op { path, act } => simpler_act(act)
                .into_iter()
                .map(|act| WearEv::Op { path: path.clone(), act })
                .collect(),
            WearEv::Copy { path, act, swap } => simpler_act(act)
                .into_iter()
                .map(|act| WearEv::Copy { path: path.clone(), act, swap: *swap })
                .collect(),
            WearEv::Damage { bytes, entry } => {
                shorter(bytes).into_iter().map(|bytes| WearEv::Damage { bytes, entry: *entry }).collect()
            }
            _ => Vec::new(),
        }
    }
}

fn draw(rng: &mut Rng, gen: &mut Gen, ty: &Ty, val: &Val, first: bool) -> WearEv {
    if first && rng.pct(70) {
        return WearEv::Start { val: gen.value(ty) };
    }
    let op = match draw_op(gen, ty, val) {
        Some(op) => op,
        None => return WearEv::Look,
    };
    let (path, act) = op;
    let numbers = |rng: &mut Rng| (0..rng.range(1, 4)).map(|_| rng.u64() as u32 >> rng.below(32)).collect();
    match rng.weighted(&[40, 6, 3, 4, 6, 6, 4, 8, 4, 4, 5, 3, 2, 3, 3, 15]) {
        0 => WearEv::Op { path, act },
        1 => WearEv::Copy { path, act, swap: rng.pct(50) },
        2 => WearEv::Merge { val: gen.val(ty, 2) },
        3 => {
            let (path, t) = some_path(rng, ty, val);
            let mut e = wire::Entry::new(wire::UPDATE, path);
            e.value = wire::encode(&t, &gen.value(&t));
            WearEv::Touch { entry: e.bytes() }
        }
        4 => {
            let entry = rng.pct(60);
            let mut bytes = if entry {
                let effs = apply(ty, &mut val.clone(), &path, &act).unwrap_or_default();
                effs.first().map_or(Vec::new(), |e| e.entry().bytes())
            } else {
                wire::encode(ty, &gen.value(ty))
            };
            for _ in 0..rng.range(1, 3) {
                if !bytes.is_empty() {
                    let i = rng.below(bytes.len());
                    bytes[i] = rng.u64() as u8;
                    if rng.pct(30) {
                        bytes.truncate(i);
                    }
                }
            }
            WearEv::Damage { bytes, entry }
        }
        5 => WearEv::Write { pace: draw_pace(rng, wire::encode(ty, val).len(), 55) },
        6 => WearEv::Look,
        7 => WearEv::Drain,
        8 => WearEv::Join,
        9 => WearEv::Silent { pauses: rng.range(1, 3), path, act },
        10 => WearEv::Refuse { after: rng.below(3), kind: rng.below(KINDS.len()) as u8, path, act },
        11 => WearEv::Move { numbers: numbers(rng) },
        12 => WearEv::Replace,
        13 => WearEv::Reload { load: rng.pct(50) },
        14 => WearEv::Derive { numbers: numbers(rng) },
        _ => WearEv::Fresh { path, act },
    }
}

impl World {
    fn step(&mut self, ev: &WearEv, ctx: &mut Ctx) -> Res {
        let ty = &self.schema.ty;
        match ev {
            WearEv::Start { .. } => {}
            WearEv::Op { path, act } => {
                let r = guarded(|| self.obj.act(path, act, &mut self.cx));
                ctx.count(if r.is_ok() { "mutations" } else { "fault: builder panicked" }, 1);
            }
            WearEv::Fresh { path, act } => {
                let mut val = self.obj.obs();
                let act = match node(ty, &mut val, path) {
                    Some((t, _)) => fresh(&t, act, self.round),
                    None => return Ok(()),
                };
                let r = guarded(|| self.obj.act(path, &act, &mut self.cx));
                ctx.count(if r.is_ok() { "mutations with fresh keys or texts" } else { "fault: builder panicked" }, 1);
            }
            WearEv::Copy { path, act, swap } => {
                let mut copy = self.obj.clone_obj();
                if *swap {
                    self.obj = copy;
                } else {
                    copy.set_runtime(Runtime::new());
                    let _ = guarded(|| copy.act(path, act, &mut self.cx));
                    let _ = copy.to_bytes();
                }
                ctx.count("copies", 1);
            }
            WearEv::Merge { val } => {
                self.catch_up(ctx)?;
                let bytes = wire::encode(ty, val);
                let _ = self.obj.merge(&mut &*bytes);
                if let Some(f) = &mut self.follower {
                    let _ = f.merge(&mut &*bytes);
                }
                ctx.count("merges", 1);
            }
            WearEv::Touch { entry } => {
                self.catch_up(ctx)?;
                if ref_entry(ty, &mut self.obj.obs(), entry).is_err() {
                    return Ok(());
                }
                let _ = self.obj.replay(&mut &**entry);
                if let Some(f) = &mut self.follower {
                    let _ = f.replay(&mut &**entry);
                }
            }
            WearEv::Damage { bytes, entry } => {
                if *entry {
                    // Only if it is certain to change nothing.
                    if ref_entry(ty, &mut self.obj.obs(), bytes) == Err("address") {
                        let _ = guarded(|| self.obj.replay(&mut &**bytes));
                        ctx.count("fault: entries that don't fit", 1);
                    } else {
                        let mut copy = self.obj.clone_obj();
                        let _ = guarded(|| copy.replay(&mut &**bytes));
                        ctx.count("fault: damaged entries", 1);
                    }
                } else {
                    let mut copy = self.obj.clone_obj();
                    let _ = guarded(|| copy.merge(&mut &**bytes));
                    let _ = guarded(|| (self.schema.load)(&mut &**bytes).map(|_| ()));
                    ctx.count("fault: damaged values", 1);
                }
            }
            WearEv::Write { pace } => {
                let mut sink = Sink::default();
                sink.set(Some(pace.clone()));
                if self.obj.serialize(&mut sink).is_err() {
                    ctx.count("fault: write error", 1);
                }
            }
            WearEv::Look => self.obj.look(),
            WearEv::Drain => self.catch_up(ctx)?,
            WearEv::Join => self.join(ctx)?,
            WearEv::Silent { pauses, path, act } => {
                for _ in 0..*pauses {
                    self.rt.pause_logger();
                }
                let _ = guarded(|| self.obj.act(path, act, &mut self.cx));
                for _ in 0..*pauses {
                    self.rt.unpause_logger();
                }
                self.join(ctx)?;
                ctx.count("pauses", *pauses as u64);
            }
            WearEv::Refuse { after, kind, path, act } => {
                match &self.log {
                    Log::Rec(rec, ..) => {
                        let mut s = rec.0.lock().unwrap();
                        let at = s.calls.len() + after;
                        s.refuse.push((at, KINDS[*kind as usize % KINDS.len()]));
                    }
                    Log::Text(sink) => {
                        let mut s = sink.0.lock().unwrap();
                        s.set(Some(Pace {
                            sizes: vec![usize::MAX],
                            interrupts: Vec::new(),
                            error: Some((*after * 40, *kind)),
                            sticky: false,
                        }));
                    }
                    Log::Buffer(_) => {}
                }
                if guarded(|| self.obj.act(path, act, &mut self.cx)).is_err() {
                    ctx.count("fault: append refused", 1);
                }
                match &self.log {
                    Log::Rec(rec, ..) => rec.0.lock().unwrap().refuse = Vec::new(),
                    Log::Text(sink) => sink.0.lock().unwrap().set(None),
                    Log::Buffer(_) => {}
                }
                self.join(ctx)?;
            }
            WearEv::Move { numbers } => {
                let mut rt = self.rt.clone();
                for n in numbers {
                    rt = rt.nested(*n);
                    self.obj.set_runtime(rt.clone());
                }
                self.obj.set_runtime(self.rt.clone());
                ctx.count("moves", 1);
            }
            WearEv::Replace => {
                self.catch_up(ctx)?;
                match &mut self.log {
                    Log::Rec(rec, replace, seen) => {
                        *rec = replace(Rec::default());
                        *seen = 0;
                    }
                    Log::Buffer(h) => h.lock().unwrap().replace(BufferLogger::new()),
                    Log::Text(_) => return Ok(()),
                }
                ctx.count("loggers replaced", 1);
            }
            WearEv::Reload { load } => {
                let val = self.obj.obs();
                self.obj = if *load {
                    match (self.schema.load)(&mut &*self.obj.to_bytes()) {
                        Ok(x) => x,
                        Err(e) => return Err(Stop::Other(format!("load: {}", e))),
                    }
                } else {
                    (self.schema.build)(&val, Runtime::new())
                };
                self.obj.set_runtime(self.rt.clone());
            }
            WearEv::Derive { numbers } => {
                let mut rt = self.rt.clone();
                for n in numbers {
                    rt = rt.nested(*n);
                    let _ = (rt.sibling(*n), rt.muted(), rt.parent());
                }
            }
        }
        Ok(())
    }

    fn join(&mut self, ctx: &mut Ctx) -> Res {
        self.drop_log();
        let bytes = self.obj.to_bytes();
        match (self.schema.load)(&mut &*bytes) {
            Ok(x) => self.follower = Some(x),
            Err(e) => return Err(Stop::Other(format!("load: {}", e))),
        }
        ctx.count("snapshots followed", 1);
        Ok(())
    }

    /// Skips what was logged.
    fn drop_log(&mut self) {
        match &mut self.log {
            Log::Rec(rec, _, seen) => *seen = rec.0.lock().unwrap().calls.len(),
            Log::Buffer(h) if !self.piling => h.lock().unwrap().clear(),
            _ => {}
        }
    }

    /// The follower is brought up to date.
    fn catch_up(&mut self, ctx: &mut Ctx) -> Res {
        let f = match &mut self.follower {
            Some(f) => f,
            None => return Ok(()),
        };
        let mut one = |bytes: &[u8]| -> Res {
            let mut at = 0;
            let ends = wire::split_log(bytes).map_err(|e| Stop::Other(format!("log: {}", e)))?;
            for (_, end) in ends {
                if let Err(e) = f.replay(&mut &bytes[at..end]) {
                    return Err(Stop::Other(format!("replay: {}", e)));
                }
                at = end;
            }
            Ok(())
        };
        match &mut self.log {
            Log::Rec(rec, _, seen) => {
                let s = rec.0.lock().unwrap();
                let calls = &s.calls[*seen..];
                *seen = s.calls.len();
                for c in calls.iter().filter(|c| !c.refused) {
                    for e in &c.entries {
                        one(e)?;
                    }
                }
            }
            Log::Buffer(h) if !self.piling => {
                let bytes = h.lock().unwrap().pluck_bytes();
                one(&bytes)?;
            }
            _ => {
                let bytes = self.obj.to_bytes();
                match (self.schema.load)(&mut &*bytes) {
                    Ok(x) => *f = x,
                    Err(e) => return Err(Stop::Other(format!("load: {}", e))),
                }
            }
        }
        ctx.count("logs followed", 1);
        Ok(())
    }

    /// The same, and the log is emptied.
    fn drain(&mut self, ctx: &mut Ctx) -> Res {
        self.catch_up(ctx)?;
        match &mut self.log {
            Log::Rec(rec, _, seen) => {
                rec.0.lock().unwrap().calls = Vec::new();
                *seen = 0;
            }
            Log::Buffer(h) => h.lock().unwrap().clear(),
            Log::Text(sink) => sink.0.lock().unwrap().data = Vec::new(),
        }
        Ok(())
    }

    /// Brings the state to the value, by one of several ways.
    fn settle(&mut self, to: &Val, how: usize, ctx: &mut Ctx) -> Res {
        let ty = &self.schema.ty;
        if how % 4 > 0 {
            let mut acts = Vec::new();
            diff(ty, &self.obj.obs(), to, &mut Vec::new(), &mut acts);
            for (path, act) in &acts {
                self.obj.act(path, act, &mut self.cx);
            }
            ctx.count("mutations", acts.len() as u64);
            if acts.iter().any(|(_, a)| matches!(a, Act::SetNs { .. })) {
                self.join(ctx)?;
            }
        }
        if self.obj.obs() != *to {
            self.catch_up(ctx)?;
            let mut e = wire::Entry::new(wire::UPDATE, Vec::new());
            e.value = wire::encode(ty, to);
            let bytes = e.bytes();
            for x in [Some(&mut self.obj), self.follower.as_mut()].into_iter().flatten() {
                if let Err(e) = x.replay(&mut &*bytes) {
                    return Err(Stop::Other(format!("replay: {}", e)));
                }
            }
        }
        Ok(())
    }
}

fn fresh(ty: &Ty, act: &Act, round: u64) -> Act {
    fn text(v: &Val, r: u64) -> Val {
        let all = |xs: &[Val]| xs.iter().map(|x| text(x, r)).collect();
        match v {
            Val::S(s) if !s.is_empty() => Val::S(format!("{:08}", r % 100_000_000)),
            Val::L(xs) => Val::L(all(xs)),
            Val::E(tag, xs) => Val::E(*tag, all(xs)),
            Val::O(Some(x)) => Val::O(Some(Box::new(text(x, r)))),
            Val::M(m) => Val::M(m.iter().map(|(k, x)| (*k, text(x, r))).collect()),
            v => v.clone(),
        }
    }
    let r = mix(round ^ 0x6b6579);
    let mut act = act.clone();
    match &mut act {
        Act::Set { val, .. } | Act::VSet { val, .. } | Act::Push { val, .. } => *val = text(val, r),
        Act::Insert { key, val, .. } => {
            // Of the same length in each cycle.
            let k = match ty {
                Ty::Map(Keys::UpTo(m), _) if *m >= 0x7fff => 0x4000 + (r % 0x4000) as u32,
                Ty::Map(..) => 0x80 + (r % 0x80) as u32,
                _ => *key,
            };
            if matches!(ty, Ty::Map(keys, _) if keys.valid(k)) {
                *key = k;
            }
            *val = text(val, r);
        }
        _ => {}
    }
    act
}

fn entries(v: &Val) -> usize {
    match v {
        Val::L(xs) | Val::E(_, xs) => xs.iter().map(entries).sum(),
        Val::M(m) => m.len() + m.values().map(entries).sum::<usize>(),
        _ => 0,
    }
}

/// Mutations that make one value of the other, as far as there are any.
fn diff(ty: &Ty, a: &Val, b: &Val, path: &mut Vec<u32>, out: &mut Vec<(Vec<u32>, Act)>) {
    if a == b {
        return;
    }
    let how = || How::Plain;
    match (ty, a, b) {
        (Ty::List(t), Val::L(xs), Val::L(ys)) => {
            // What can't be changed in place is made anew.
            let same = if t.is_varint() || t.variants().is_some() {
                xs.iter().zip(ys).take_while(|(x, y)| x == y).count()
            } else {
                xs.len().min(ys.len())
            };
            for _ in same..xs.len() {
                out.push((path.clone(), Act::Pop { then: Then::default() }));
            }
            for i in 0..same {
                path.push(i as u32);
                diff(t, &xs[i], &ys[i], path, out);
                path.pop();
            }
            for y in &ys[same..] {
                out.push((path.clone(), Act::Push { val: y.clone(), how: how() }));
            }
        }
        (Ty::Map(_, t), Val::M(xs), Val::M(ys)) => {
            for k in xs.keys().filter(|k| !ys.contains_key(k)) {
                out.push((path.clone(), Act::Remove { key: *k, then: Then::default() }));
            }
            for (k, y) in ys {
                match xs.get(k) {
                    Some(x) if x == y => {}
                    Some(x) if !t.is_varint() && t.variants().is_none() => {
                        path.push(*k);
                        diff(t, x, y, path, out);
                        path.pop();
                    }
                    _ => out.push((
                        path.clone(),
                        Act::Insert { key: *k, val: y.clone(), how: how(), then: Then::default() },
                    )),
                }
            }
        }
        (Ty::Def(_), Val::L(xs), Val::L(ys)) => {
            for (i, f) in ty.fields().unwrap().iter().enumerate() {
                if xs[i] == ys[i] {
                    continue;
                }
                if !f.state {
                    out.push((path.clone(), Act::SetNs { tag: f.tag, val: ys[i].clone() }));
                } else if matches!(f.ty, Ty::List(_) | Ty::Map(..)) || f.ty.fields().is_some() {
                    path.push(f.tag);
                    diff(&f.ty, &xs[i], &ys[i], path, out);
                    path.pop();
                } else {
                    out.push((path.clone(), Act::Set { tag: f.tag, val: ys[i].clone(), how: how() }));
                }
            }
        }
        _ => {}
    }
}
