//! A leader that mutates, replicas that follow over a faulty network, and what they keep on disk.
//!
//! The session layer is the simplest that works: entries are numbered, batches say where they
//! start, replicas drop what they already have and hold back what comes too early.

use std::collections::BTreeMap;

use model::*;
use schemas::*;
use serde::{Deserialize, Serialize};

use super::core::*;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum DrainKind {
    PluckBytes,
    Pluck,
    CopyClear,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Load {
    Deserialize,
    Merge,
    RootUpdate,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ev {
    /// The leader mutates itself.
    Op { path: Vec<u32>, act: Act },
    /// It does the same over and over, with nobody watching in between.
    Burst { path: Vec<u32>, act: Act, times: usize },
    /// Leader (0) or replica (n) is looked at.
    Look { node: usize },
    Drain(DrainKind),
    /// The drained entries a replica wasn't sent yet go on their way, in batches of this size.
    Send { rep: usize, size: usize },
    /// Something in flight arrives (and may arrive again).
    Deliver { rep: usize, i: usize, again: bool },
    Lose { rep: usize, i: usize },
    /// Everything drained is sent again, reliably.
    Sync { rep: usize, size: usize },
    /// Leader (0) or replica (n) writes a durable snapshot.
    Snap { node: usize },
    /// A replica loses everything but its snapshot and the log tail on its disk, of which the
    /// last entries may be missing.
    Restart { rep: usize, load: Load, lost: usize },
    /// A new replica starts from a snapshot of the leader.
    Join { load: Load },
    /// The leader is gone for good, with what it hadn't drained; a replica takes over.
    Failover { rep: usize },
    /// The leader comes back from its snapshot and its durable log.
    LeaderRestart { load: Load },
    /// The leader gets another runtime.
    Reroot,
    /// The leader gets a runtime that isn't a root, as a part of something larger.
    Host { base: Vec<u32> },
    /// The leader applies entries of somebody else.
    Ingest { path: Vec<u32>, act: Act },
    /// The leader merges somebody else's snapshot.
    MergeIn { val: Val },
    /// The leader's log is suspended around a look, a load and a copy.
    Quiet,
    Partition { rep: usize },
    Heal { rep: usize },
}

struct Rep {
    obj: Box<dyn Obj>,
    log: Handle,
    val: Val,
    pos: usize,
    sent: usize,
    flight: Vec<(usize, usize)>,
    early: BTreeMap<usize, usize>,
    snap: (Vec<u8>, usize, Val),
    cut: bool,
    /// How its current object came to be.
    route: &'static str,
}

struct World<'a> {
    schema: &'static Schema,
    ctx: &'a mut Ctx,
    leader: Box<dyn Obj>,
    log: Handle,
    /// Bytes of the leader's log that were seen but not drained.
    open: Vec<u8>,
    val: Val,
    /// What a follower of the leader must have by now.
    shadow: Val,
    entries: Vec<Vec<u8>>,
    drained: usize,
    drained_val: Val,
    leader_snap: (Vec<u8>, usize, Val),
    reps: Vec<Rep>,
    /// Logs nobody should write to any more.
    dead: Vec<(Handle, usize, &'static str)>,
    cx: Cx,
    /// Where the leader's runtime is.
    base: Vec<u32>,
    /// The leader's state was obtained by something else than mutating a fresh object.
    routed: bool,
}

pub struct Cluster;

const ALL: &[u8] = &[1, 2, 3, 4];

fn knobs(seed: u64) -> Knobs {
    let r = mix(seed ^ 0x6b);
    Knobs {
        panic: false,
        foreign: r & 1 == 0,
        then: r & 2 == 0,
        big: r & 12 == 0,
        huge: huge(seed),
        logged: true,
    }
}

/// In one of a few hundred runs.
pub fn huge(seed: u64) -> u32 {
    if mix(seed ^ 0x68) % 200 == 0 {
        2
    } else {
        0
    }
}

pub fn pick_schema(seed: u64) -> &'static Schema {
    let all = all();
    // Larger schemas more often.
    let r = mix(seed ^ 0x5c) as usize;
    if r % 4 == 0 {
        let big = ["Doc", "Mess", "Doc", "Tree", "DocV2"];
        by_name(big[(r >> 8) % big.len()])
    } else {
        &all[(r >> 8) % all.len()]
    }
}

impl Scenario for Cluster {
    const NAME: &'static str = "cluster";
    type Ev = Ev;

    fn run(src: &mut Src<Ev>, ctx: &mut Ctx) -> Res {
        let schema = pick_schema(ctx.seed);
        let mut gen = Gen::new(mix(ctx.seed ^ 0x67));
        gen.knobs = knobs(ctx.seed);
        let shape = mix(ctx.seed ^ 0x73);
        src.limit(match ctx.tier {
            Tier::Quick => [12, 25, 40, 70][shape as usize % 4],
            Tier::Thorough => [12, 30, 70, 200][shape as usize % 4],
        });
        let (rt, log) = buffer_runtime();
        let val = schema.ty.default();
        let leader = (schema.new)(rt);
        let snap = (Vec::new(), 0, val.clone());
        let mut w = World {
            schema,
            leader,
            log,
            open: Vec::new(),
            shadow: val.clone(),
            drained_val: val.clone(),
            val,
            entries: Vec::new(),
            drained: 0,
            leader_snap: snap,
            reps: Vec::new(),
            dead: Vec::new(),
            cx: Cx::new(),
            base: Vec::new(),
            routed: false,
            ctx,
        };
        w.cx.nav = shape as u32;
        // The initial snapshot of an enum isn't empty.
        w.leader_snap.0 = w.leader.to_bytes();
        for _ in 0..1 + shape as usize / 7 % 3 {
            w.fresh();
        }
        w.ctx.note(schema.name.as_bytes());
        let weights = weights(w.ctx.prop, shape);
        loop {
            let ev = {
                let w = &w;
                let gen = &mut gen;
                src.next(|rng| draw(rng, gen, w, &weights))
            };
            let ev = match ev {
                Some(ev) => ev,
                None => break,
            };
            if w.ctx.verbose {
                println!("{}", brief(&ev));
            }
            let label = serde_json::to_value(&ev).unwrap();
            let kind = match &label {
                serde_json::Value::String(s) => s.clone(),
                serde_json::Value::Object(o) => o.keys().next().unwrap().clone(),
                _ => unreachable!(),
            };
            w.ctx.note(label.to_string().as_bytes());
            w.ctx.tick(1 + w.ctx.hash % 50);
            let done = w.step(&ev)?;
            if done {
                w.ctx.count(&kind, 1);
            }
            w.quiet(&kind)?;
        }
        w.finish()
    }

    fn simpler(ev: &Ev) -> Vec<Ev> {
        match ev {
            Ev::Op { path, act } => simpler_act(act)
                .into_iter()
                .map(|act| Ev::Op { path: path.clone(), act })
                .collect(),
            Ev::Burst { path, act, times } => [1, *times / 2, *times - times / 10, *times - 1]
                .iter()
                .filter(|n| **n > 0 && **n < *times)
                .map(|n| Ev::Burst { path: path.clone(), act: act.clone(), times: *n })
                .collect(),
            Ev::Ingest { path, act } => simpler_act(act)
                .into_iter()
                .map(|act| Ev::Ingest { path: path.clone(), act })
                .collect(),
            Ev::Host { base } => {
                let mut out = vec![Ev::Reroot];
                if base.len() > 1 {
                    out.push(Ev::Host { base: base[1..].to_vec() });
                }
                if base.iter().any(|x| *x > 1) {
                    out.push(Ev::Host { base: vec![1; base.len()] });
                }
                out
            }
            Ev::Send { rep, size } if *size < 99 => vec![Ev::Send { rep: *rep, size: 99 }],
            Ev::Sync { rep, size } if *size < 99 => vec![Ev::Sync { rep: *rep, size: 99 }],
            Ev::Restart { rep, load, lost } if *lost > 0 => vec![Ev::Restart {
                rep: *rep,
                load: *load,
                lost: 0,
            }],
            _ => Vec::new(),
        }
    }
}

/// Whether doing it a thousand times costs no more than doing a thousand things.
pub fn burstable(act: &Act) -> bool {
    !matches!(act, Act::Each { .. }) && brief(act).len() < 120
}

pub fn simpler_act(act: &Act) -> Vec<Act> {
    let mut out = Vec::new();
    let plain = |how: &How| !matches!(how, How::Plain);
    match act {
        Act::Set { tag, val, how } if plain(how) => {
            out.push(Act::Set { tag: *tag, val: val.clone(), how: How::Plain });
            out.push(Act::Set { tag: *tag, val: val.clone(), how: How::With });
        }
        Act::VSet { vtag, tag, val, how } if plain(how) => {
            out.push(Act::VSet { vtag: *vtag, tag: *tag, val: val.clone(), how: How::Plain });
            out.push(Act::VSet { vtag: *vtag, tag: *tag, val: val.clone(), how: How::With });
        }
        Act::Push { val, how } if plain(how) => {
            out.push(Act::Push { val: val.clone(), how: How::Plain });
            out.push(Act::Push { val: val.clone(), how: How::With });
        }
        Act::Insert { key, val, how, then } => {
            if plain(how) {
                out.push(Act::Insert { key: *key, val: val.clone(), how: How::Plain, then: then.clone() });
                out.push(Act::Insert { key: *key, val: val.clone(), how: How::With, then: then.clone() });
            }
            if *then != Then::default() {
                out.push(Act::Insert { key: *key, val: val.clone(), how: how.clone(), then: Then::default() });
            }
        }
        Act::Pop { then } if *then != Then::default() => out.push(Act::Pop { then: Then::default() }),
        Act::SwapRemove { i, then } if *then != Then::default() => {
            out.push(Act::SwapRemove { i: *i, then: Then::default() })
        }
        Act::Remove { key, then } if *then != Then::default() => {
            out.push(Act::Remove { key: *key, then: Then::default() })
        }
        _ => {}
    }
    // Smaller values.
    let smaller = |v: &Val| -> Option<Val> {
        match v {
            Val::L(xs) if xs.iter().any(|x| matches!(x, Val::L(y) if !y.is_empty())) => None,
            Val::U(x) if *x > 1 => Some(Val::U(1)),
            Val::I(x) if *x != 1 && *x != 0 => Some(Val::I(1)),
            Val::S(s) if s.len() > 1 => Some(Val::S("a".into())),
            _ => None,
        }
    };
    match act {
        Act::Set { tag, val, how } => {
            if let Some(val) = smaller(val) {
                out.push(Act::Set { tag: *tag, val, how: how.clone() });
            }
        }
        Act::Push { val, how } => {
            if let Some(val) = smaller(val) {
                out.push(Act::Push { val, how: how.clone() });
            }
        }
        _ => {}
    }
    out
}

/// op, look, drain, send, deliver, lose, sync, snap, restart, join, failover, leader restart,
/// reroot, ingest, merge in, quiet, partition, heal
fn weights(prop: u8, shape: u64) -> [u32; 18] {
    let base: [u32; 18] = match prop {
        1 => [100, 4, 25, 20, 25, 4, 12, 4, 4, 3, 2, 2, 2, 2, 2, 2, 2, 4],
        2 => [100, 2, 20, 12, 15, 4, 15, 22, 18, 14, 5, 12, 2, 3, 6, 2, 2, 4],
        3 => [100, 2, 14, 8, 10, 2, 14, 6, 6, 6, 12, 12, 10, 16, 10, 2, 1, 2],
        _ => [100, 25, 16, 8, 12, 2, 10, 8, 10, 6, 4, 5, 4, 10, 10, 12, 1, 2],
    };
    // Each run leaves out some kinds of events.
    let mut out = base;
    for i in 1..18 {
        if (shape >> (i + 20)) & 3 == 0 {
            out[i] = 0;
        }
    }
    out[2] = base[2];
    out
}

fn draw(rng: &mut Rng, gen: &mut Gen, w: &World, weights: &[u32; 18]) -> Ev {
    let reps = w.reps.len();
    let rep = rng.below(reps);
    let load = *rng.pick(&[Load::Deserialize, Load::Merge, Load::RootUpdate]);
    let size = *rng.pick(&[1, 1, 2, 3, 7, 99]);
    let op = |gen: &mut Gen| gen.act(&w.schema.ty, &mut w.val.clone());
    match rng.weighted(weights) {
        1 => Ev::Look { node: rng.below(reps + 1) },
        2 => Ev::Drain(*rng.pick(&[DrainKind::PluckBytes, DrainKind::Pluck, DrainKind::CopyClear])),
        3 => Ev::Send { rep, size },
        4 if !w.reps[rep].flight.is_empty() => Ev::Deliver {
            rep,
            i: if rng.pct(60) { 0 } else { rng.below(w.reps[rep].flight.len()) },
            again: rng.pct(15),
        },
        5 if !w.reps[rep].flight.is_empty() => Ev::Lose { rep, i: rng.below(w.reps[rep].flight.len()) },
        6 => Ev::Sync { rep, size },
        7 => Ev::Snap { node: rng.below(reps + 1) },
        8 => Ev::Restart { rep, load, lost: *rng.pick(&[0, 0, 1, 2, 5]) },
        9 if reps < 5 => Ev::Join { load },
        10 => Ev::Failover { rep },
        11 => Ev::LeaderRestart { load },
        12 if rng.pct(50) => Ev::Host {
            base: (0..1 + rng.below(3)).map(|_| *rng.pick(&[0, 1, 2, 7, 15, 16, 300, u32::MAX])).collect(),
        },
        12 => Ev::Reroot,
        13 => match op(gen) {
            Some((path, act)) => Ev::Ingest { path, act },
            None => Ev::Drain(DrainKind::Pluck),
        },
        14 => Ev::MergeIn { val: gen.val(&w.schema.ty, 2) },
        15 => Ev::Quiet,
        16 => Ev::Partition { rep },
        17 => Ev::Heal { rep },
        _ => match op(gen) {
            Some((path, act)) if gen.knobs.huge > 0 && rng.pct(20) && burstable(&act) => {
                gen.knobs.huge -= 1;
                let small = matches!(&act, Act::Push { val: Val::U(_), .. } | Act::Set { val: Val::U(_), .. });
                let most = if small { 66_000 } else { 1030 };
                Ev::Burst { path, act, times: most.min(*rng.pick(&[70, 130, 260, 520, 1030, 1030, 4100, 4100, 66_000])) }
            }
            Some((path, act)) => Ev::Op { path, act },
            None => Ev::Look { node: 0 },
        },
    }
}

impl<'a> World<'a> {
    fn ty(&self) -> &'static Ty {
        &self.schema.ty
    }

    fn routes(&self) -> &'static [u8] {
        if self.routed {
            &[1, 3, 4]
        } else {
            &[1, 4]
        }
    }

    fn fresh(&mut self) {
        let (rt, log) = buffer_runtime();
        let val = self.ty().default();
        let obj = (self.schema.new)(rt);
        let bytes = obj.to_bytes();
        self.reps.push(Rep {
            obj,
            log,
            pos: 0,
            sent: 0,
            flight: Vec::new(),
            early: BTreeMap::new(),
            snap: (bytes, 0, val.clone()),
            cut: false,
            route: "a fresh object",
            val,
        });
    }

    /// Takes what the leader logged since the last look at its log.
    fn logged(&mut self, what: &str) -> Res<Vec<(wire::Entry, Vec<u8>)>> {
        let bytes = log_of(&self.log);
        if bytes.len() == self.open.len() && bytes == self.open {
            return Ok(Vec::new());
        }
        let ok = bytes.starts_with(&self.open);
        self.ctx.check(ALL, ok, "log-rewritten", || {
            format!("entries that were logged before are gone or changed after {}", what)
        })?;
        let new = bytes[self.open.len()..].to_vec();
        let mut out = Vec::new();
        match wire::split_log(&new) {
            Ok(entries) => {
                let mut start = 0;
                for (mut e, end) in entries {
                    if self.base.is_empty() {
                        out.push((e, new[start..end].to_vec()));
                    } else {
                        let inside = e.path.starts_with(&self.base);
                        self.ctx.check(&[3], inside, "wrong-base", || {
                            format!("{} logged an entry at {:?} of a state at {:?}", what, e.path, self.base)
                        })?;
                        e.path.drain(..self.base.len());
                        let bytes = e.bytes();
                        out.push((e, bytes));
                    }
                    start = end;
                }
            }
            Err(e) => {
                self.ctx.check(&[1, 2, 3], false, "log-unreadable", || {
                    format!("the log after {} isn't a sequence of entries: {} in {}", what, e, hex(&new))
                })?;
            }
        }
        self.open = bytes;
        Ok(out)
    }

    /// The leader's entries take effect on what followers must have.
    fn follow(&mut self, entries: Vec<(wire::Entry, Vec<u8>)>, what: &str) -> Res {
        for (e, bytes) in entries {
            let r = wire::apply_entry(&self.schema.ty, &mut self.shadow, &e);
            let tags = self.routes();
            self.ctx.check(tags, r.is_ok(), "bad-entry", || {
                format!("{} logged an entry that no follower can apply ({:?}): {:?}", what, r, e)
            })?;
            self.ctx.note(&bytes);
            self.entries.push(bytes);
        }
        Ok(())
    }

    fn drain(&mut self, kind: DrainKind) -> Res {
        let got = {
            let mut log = self.log.lock().unwrap();
            match kind {
                DrainKind::PluckBytes => log.pluck_bytes(),
                DrainKind::Pluck => log.pluck().iter().map(entry_bytes).collect::<Vec<_>>().concat(),
                DrainKind::CopyClear => {
                    let b = log.bytes();
                    log.clear();
                    b
                }
            }
        };
        let ok = got == self.open;
        self.ctx.check(&[1, 2, 3, 4], ok, "drain", || {
            format!("draining the log gave {} instead of {}", hex(&got), hex(&self.open))
        })?;
        self.open.clear();
        let rest = log_of(&self.log);
        self.ctx.check(ALL, rest.is_empty(), "drain", || {
            format!("there are entries in the log after draining it: {}", hex(&rest))
        })?;
        self.drained = self.entries.len();
        self.drained_val = self.val.clone();
        Ok(())
    }

    /// A snapshot of a node, which must mean exactly the node's state.
    fn snapshot(&mut self, obj: usize) -> Res<Vec<u8>> {
        let (o, val) = if obj == 0 {
            (&self.leader, &self.val)
        } else {
            (&self.reps[obj - 1].obj, &self.reps[obj - 1].val)
        };
        let bytes = if self.ctx.hash & 1 == 0 {
            o.to_bytes()
        } else {
            let mut b = Vec::new();
            o.cache_size();
            o.serialize(&mut b).expect("serializing to a buffer");
            b
        };
        let got = wire::decode(&self.schema.ty, &bytes);
        let ok = got.as_ref() == Ok(val);
        let msg = match &got {
            Ok(got) => same_val(got, val),
            Err(e) => format!("unreadable: {} in {}", e, hex(&bytes)),
        };
        self.ctx.check(&[2], ok, "snapshot-wrong", || format!("a snapshot doesn't hold the state: {}", msg))?;
        Ok(bytes)
    }

    fn load(&mut self, bytes: &[u8], load: Load, want: &Val) -> Res<(Box<dyn Obj>, Handle)> {
        let (rt, log) = buffer_runtime();
        let schema = self.schema;
        let obj = match load {
            Load::Deserialize => (schema.load)(&mut &*bytes).map(|mut o| {
                o.set_runtime(rt);
                o
            }),
            Load::Merge => {
                let mut o = (schema.new)(rt);
                o.merge(&mut &*bytes).map(|_| o)
            }
            Load::RootUpdate => {
                let mut o = (schema.new)(rt);
                let mut e = wire::Entry::new(wire::UPDATE, Vec::new());
                e.value = bytes.to_vec();
                o.replay(&mut &*e.bytes()).map(|_| o)
            }
        };
        let obj = match obj {
            Ok(o) => o,
            Err(e) => {
                self.ctx.check(&[2], false, "snapshot-rejected", || {
                    format!("loading ({:?}) a snapshot failed: {} in {}", load, e, hex(bytes))
                })?;
                unreachable!()
            }
        };
        let got = obj.obs();
        self.ctx.check(&[2], got == *want, "snapshot-loaded-wrong", || {
            format!("a state loaded ({:?}) from a snapshot differs: {}", load, same_val(&got, want))
        })?;
        let logged = log_of(&log);
        self.ctx.check(&[4], logged.is_empty(), "load-logged", || {
            format!("loading ({:?}) a snapshot logged {}", load, hex(&logged))
        })?;
        Ok((obj, log))
    }

    fn bury(&mut self, log: Handle, what: &'static str) {
        let n = log_of(&log).len();
        self.dead.push((log, n, what));
        if self.dead.len() > 6 {
            self.dead.remove(0);
        }
    }

    /// Applies entries `from..to` to a replica, in batches.
    fn apply(&mut self, rep: usize, to: usize, size: usize) -> Res {
        let ty = self.ty();
        let size = size.max(to.saturating_sub(self.reps[rep].pos) / 100);
        while self.reps[rep].pos < to {
            let r = &mut self.reps[rep];
            let upto = (r.pos + size.max(1)).min(to);
            let bytes = self.entries[r.pos..upto].concat();
            for b in &self.entries[r.pos..upto] {
                let (e, _) = wire::split_log(b).unwrap().remove(0);
                wire::apply_entry(ty, &mut r.val, &e).expect("an entry that was applied before");
            }
            let res = r.obj.replay(&mut &*bytes);
            r.pos = upto;
            let route = r.route;
            let tags: &[u8] = if route == "a fresh object" { &[1] } else { &[1, 2] };
            self.ctx.check(tags, res.is_ok(), "replay-failed", || {
                format!("replay of a leader's log failed on {}: {:?} in {}", route, res, hex(&bytes))
            })?;
            let got = self.reps[rep].obj.obs();
            let want = self.reps[rep].val.clone();
            self.ctx.check(tags, got == want, "replica-diverged", || {
                format!("{} differs after replay of {}: {}", route, hex(&bytes), same_val(&got, &want))
            })?;
            self.ctx.count("entries replayed", 1);
        }
        Ok(())
    }

    fn step(&mut self, ev: &Ev) -> Res<bool> {
        let n = self.reps.len();
        match ev {
            Ev::Op { path, act } => return self.op(path, act, 1),
            Ev::Burst { path, act, times } => {
                let done = self.op(path, act, *times)?;
                if *times > 5000 {
                    // Looking at so long a log after every event takes too long.
                    self.drain(DrainKind::PluckBytes)?;
                }
                return Ok(done);
            }
            Ev::Look { node } => {
                if *node > n {
                    return Ok(false);
                }
                let o = if *node == 0 { &self.leader } else { &self.reps[*node - 1].obj };
                o.look();
                let _ = (o.compute_size(), o.cache_size(), o.to_bytes().len(), o.is_root());
                let same = o.same(&*o.clone_obj());
                self.ctx.check(&[4, 1], same, "clone", || "a clone differs from the original".to_string())?;
            }
            Ev::Drain(kind) => self.drain(*kind)?,
            Ev::Send { rep, size } => {
                if *rep >= n {
                    return Ok(false);
                }
                let r = &mut self.reps[*rep];
                let size = (*size).max(self.drained.saturating_sub(r.sent) / 100).max(1);
                while r.sent < self.drained {
                    let to = (r.sent + size).min(self.drained);
                    r.flight.push((r.sent, to));
                    r.sent = to;
                }
            }
            Ev::Deliver { rep, i, again } => {
                if *rep >= n || *i >= self.reps[*rep].flight.len() || self.reps[*rep].cut {
                    return Ok(false);
                }
                let r = &mut self.reps[*rep];
                let (from, to) = if *again { r.flight[*i] } else { r.flight.remove(*i) };
                if *again {
                    self.ctx.count("fault: batch duplicated", 1);
                }
                if *i > 0 {
                    self.ctx.count("fault: batch reordered", 1);
                }
                if from > r.pos {
                    r.early.insert(from, to);
                } else {
                    let mut to = to;
                    loop {
                        if to > self.reps[*rep].pos {
                            self.apply(*rep, to, to - from)?;
                        }
                        let r = &mut self.reps[*rep];
                        let pos = r.pos;
                        match r.early.range(..=pos).next().map(|(a, b)| (*a, *b)) {
                            Some((a, b)) => {
                                r.early.remove(&a);
                                to = b;
                            }
                            None => break,
                        }
                    }
                }
            }
            Ev::Lose { rep, i } => {
                if *rep >= n || *i >= self.reps[*rep].flight.len() {
                    return Ok(false);
                }
                self.reps[*rep].flight.remove(*i);
                self.ctx.count("fault: batch lost", 1);
            }
            Ev::Sync { rep, size } => {
                if *rep >= n || self.reps[*rep].cut {
                    return Ok(false);
                }
                self.apply(*rep, self.drained, *size)?;
                self.compare(*rep)?;
            }
            Ev::Snap { node } => {
                if *node > n {
                    return Ok(false);
                }
                if *node == 0 {
                    self.drain(DrainKind::PluckBytes)?;
                    let bytes = self.snapshot(0)?;
                    self.leader_snap = (bytes, self.drained, self.val.clone());
                } else {
                    let bytes = self.snapshot(*node)?;
                    let r = &mut self.reps[*node - 1];
                    r.snap = (bytes, r.pos, r.val.clone());
                }
            }
            Ev::Restart { rep, load, lost } => {
                if *rep >= n {
                    return Ok(false);
                }
                let (bytes, at, want) = self.reps[*rep].snap.clone();
                let pos = self.reps[*rep].pos;
                let (obj, log) = self.load(&bytes, *load, &want)?;
                let old = std::mem::replace(&mut self.reps[*rep].log, log);
                self.bury(old, "a replica that crashed");
                let r = &mut self.reps[*rep];
                r.obj = obj;
                r.val = want;
                r.pos = at;
                r.flight.clear();
                r.early.clear();
                r.route = "a replica restarted from a snapshot";
                // Its disk has the log up to where it was, or a little less.
                let to = pos.saturating_sub(*lost).max(at);
                r.sent = to;
                self.ctx.count("fault: replica crashed", 1);
                if to < pos {
                    self.ctx.count("fault: log tail lost", 1);
                }
                self.apply(*rep, to, 1 + (self.ctx.hash % 5) as usize)?;
            }
            Ev::Join { load } => {
                if n >= 6 {
                    return Ok(false);
                }
                self.drain(DrainKind::PluckBytes)?;
                let bytes = self.snapshot(0)?;
                let want = self.val.clone();
                let (obj, log) = self.load(&bytes, *load, &want)?;
                self.reps.push(Rep {
                    obj,
                    log,
                    pos: self.drained,
                    sent: self.drained,
                    flight: Vec::new(),
                    early: BTreeMap::new(),
                    snap: (bytes, self.drained, want.clone()),
                    cut: false,
                    route: "a replica that joined from a snapshot",
                    val: want,
                });
                self.compare(n)?;
            }
            Ev::Failover { rep } => {
                if *rep >= n || n < 2 {
                    return Ok(false);
                }
                // The one that is furthest, or as far.
                let best = self.reps.iter().map(|r| r.pos).max().unwrap();
                let rep = (0..n).map(|i| (rep + i) % n).find(|&i| self.reps[i].pos == best).unwrap();
                let r = self.reps.remove(rep);
                let (rt, log) = buffer_runtime();
                self.leader = r.obj;
                self.leader.set_runtime(rt);
                let old = std::mem::replace(&mut self.log, log);
                self.base.clear();
                self.bury(old, "a leader that failed");
                self.bury(r.log, "a replica before it became the leader");
                self.open.clear();
                self.entries.truncate(best);
                self.drained = best;
                self.drained_val = r.val.clone();
                self.shadow = r.val.clone();
                self.val = r.val;
                self.leader_snap = r.snap;
                for r in &mut self.reps {
                    r.sent = r.sent.min(best);
                    r.flight.clear();
                    r.early.clear();
                }
                self.routed = true;
                self.ctx.count("fault: leader failed", 1);
                let got = self.leader.obs();
                let want = self.val.clone();
                self.ctx.check(&[3], got == want, "reroot-changed", || {
                    format!("setting the runtime changed the state: {}", same_val(&got, &want))
                })?;
            }
            Ev::LeaderRestart { load } => {
                let (bytes, at, want) = self.leader_snap.clone();
                let (obj, log) = self.load(&bytes, *load, &want)?;
                let old = std::mem::replace(&mut self.log, log);
                self.base.clear();
                self.bury(old, "a leader that crashed");
                self.leader = obj;
                let tail = self.entries[at..self.drained].concat();
                let res = self.leader.replay(&mut &*tail);
                self.ctx.check(&[2, 1], res.is_ok(), "replay-failed", || {
                    format!("replay of the log tail failed on a restarted leader: {:?} in {}", res, hex(&tail))
                })?;
                let got = self.leader.obs();
                let want = self.drained_val.clone();
                self.ctx.check(&[2, 1], got == want, "restart-diverged", || {
                    format!("a restarted leader isn't where it was: {}", same_val(&got, &want))
                })?;
                self.entries.truncate(self.drained);
                self.open.clear();
                self.val = want.clone();
                self.shadow = want;
                self.routed = true;
                self.ctx.count("fault: leader crashed", 1);
            }
            Ev::Reroot | Ev::Host { .. } => {
                self.drain(DrainKind::PluckBytes)?;
                let (mut rt, log) = buffer_runtime();
                self.base = match ev {
                    Ev::Host { base } => base.clone(),
                    _ => Vec::new(),
                };
                for (i, field) in self.base.iter().enumerate() {
                    rt = match i % 3 {
                        0 => rt.nested(*field),
                        1 => rt.nested(9).sibling(*field),
                        _ => rt.nested(*field).nested(9).parent(),
                    };
                }
                self.leader.set_runtime(rt);
                let root = self.leader.is_root();
                self.ctx.check(&[3], root == self.base.is_empty(), "is-root", || {
                    format!("is_root() is {} at {:?}", root, self.base)
                })?;
                let old = std::mem::replace(&mut self.log, log);
                self.bury(old, "the runtime the leader had before");
                self.routed = true;
                let got = self.leader.obs();
                let want = self.val.clone();
                self.ctx.check(&[3], got == want, "reroot-changed", || {
                    format!("setting the runtime changed the state: {}", same_val(&got, &want))
                })?;
            }
            Ev::Ingest { path, act } => {
                let mut after = self.val.clone();
                let effs = match apply(self.ty(), &mut after, path, act) {
                    Some(effs) if !effs.is_empty() => effs,
                    _ => return Ok(false),
                };
                // Acts on values before and after they are attached aren't in the effects.
                let mut val = self.val.clone();
                for eff in &effs {
                    if !apply_eff(self.ty(), &mut val, eff) {
                        return Ok(false);
                    }
                }
                self.drain(DrainKind::PluckBytes)?;
                let each: Vec<Vec<u8>> = effs.iter().map(|e| e.entry().bytes()).collect();
                let bytes = each.concat();
                if !self.base.is_empty() {
                    // Paths in a log start at the root, which this isn't.
                    let res = self.leader.replay(&mut &*bytes);
                    let got = self.leader.obs();
                    let same = got == self.val;
                    self.ctx.check(&[3], res.is_err() && same, "nested-replay", || {
                        format!("replay on a state at {:?}: {:?}, {}", self.base, res, same_val(&got, &self.val))
                    })?;
                    return Ok(true);
                }
                let res = self.leader.replay(&mut &*bytes);
                self.ctx.check(&[1, 3], res.is_ok(), "replay-failed", || {
                    format!("the leader rejected a valid log: {:?} in {}", res, hex(&bytes))
                })?;
                self.entries.extend(each);
                self.drained = self.entries.len();
                self.val = val;
                self.shadow = self.val.clone();
                self.drained_val = self.val.clone();
                self.routed = true;
                let got = self.leader.obs();
                let want = self.val.clone();
                self.ctx.check(&[1, 3], got == want, "replica-diverged", || {
                    format!("the leader differs after replay of {}: {}", hex(&bytes), same_val(&got, &want))
                })?;
            }
            Ev::MergeIn { val } => {
                self.drain(DrainKind::PluckBytes)?;
                let bytes = wire::encode(self.ty(), val);
                let mut after = self.val.clone();
                if wire::merge(self.ty(), &mut after, &mut wire::Rd::new(&bytes)).is_err() {
                    return Ok(false);
                }
                let res = self.leader.merge(&mut &*bytes);
                self.ctx.check(&[2, 3], res.is_ok(), "merge-failed", || {
                    format!("the leader rejected a valid snapshot: {:?} in {}", res, hex(&bytes))
                })?;
                let got = self.leader.obs();
                self.ctx.check(&[2, 3], got == after, "merge-wrong", || {
                    format!("the leader differs after merging {}: {}", hex(&bytes), same_val(&got, &after))
                })?;
                let mut e = wire::Entry::new(wire::UPDATE, Vec::new());
                e.value = wire::encode(self.ty(), &after);
                self.entries.push(e.bytes());
                self.drained = self.entries.len();
                self.val = after.clone();
                self.shadow = after.clone();
                self.drained_val = after;
                self.routed = true;
            }
            Ev::Quiet => {
                let bytes = self.leader.to_bytes();
                let (rt, log) = buffer_runtime();
                let mut copy = (self.schema.new)(rt);
                let r = copy.merge(&mut &*bytes);
                self.ctx.check(&[2], r.is_ok(), "snapshot-rejected", || format!("{:?}", r))?;
                let _ = copy.same(&*self.leader);
                let clone = self.leader.clone_obj();
                drop(clone);
                let logged = log_of(&log);
                self.ctx.check(&[4], logged.is_empty(), "load-logged", || {
                    format!("merging a snapshot logged {}", hex(&logged))
                })?;
                // A value that is built carries no log of its own into the leader's.
                let (rt, log) = buffer_runtime();
                rt.pause_logger();
                let built = (self.schema.build)(&self.val, rt);
                let logged = log_of(&log);
                let got = built.obs();
                let val = self.val.clone();
                self.ctx.check(&[4], logged.is_empty(), "paused-logged", || {
                    format!("a paused log got {}", hex(&logged))
                })?;
                self.ctx.check(&[1, 4], got == val, "build-wrong", || {
                    format!("a state built with setters differs: {}", same_val(&got, &val))
                })?;
            }
            Ev::Partition { rep } => {
                if *rep >= n || self.reps[*rep].cut {
                    return Ok(false);
                }
                self.reps[*rep].cut = true;
                self.ctx.count("fault: partition", 1);
            }
            Ev::Heal { rep } => {
                if *rep >= n || !self.reps[*rep].cut {
                    return Ok(false);
                }
                self.reps[*rep].cut = false;
            }
        }
        Ok(true)
    }

    fn op(&mut self, path: &[u32], act: &Act, times: usize) -> Res<bool> {
        let mut after = self.val.clone();
        let mut effs = match apply(self.ty(), &mut after, path, act) {
            Some(effs) => effs,
            None => return Ok(false),
        };
        let what = match times {
            1 => format!("{} at {:?}", brief(act), path),
            _ => format!("{} at {:?}, {} times,", brief(act), path, times),
        };
        let mut acted = !effs.is_empty() as usize;
        for i in 0..times {
            if i > 0 {
                match apply(self.ty(), &mut after, path, act) {
                    Some(more) => {
                        acted += !more.is_empty() as usize;
                        effs.extend(more);
                    }
                    None => break,
                }
            }
            self.cx.forget(8);
            let found = self.leader.act(path, act, &mut self.cx);
            let tags = self.routes();
            self.ctx.check(tags, found, "act-lost", || format!("the leader has nothing to {}", what))?;
        }
        self.val = after;
        let got = self.leader.obs();
        let want = self.val.clone();
        self.ctx.check(ALL, got == want, "mutation-wrong", || {
            format!("the leader's state after {}: {}", what, same_val(&got, &want))
        })?;
        let entries = self.logged(&what)?;
        let n = entries.len();
        let ok = match effs.len() {
            0 => n == 0,
            1 => n == 1,
            _ if times > 1 => n >= acted,
            _ => n > 0,
        };
        let follow = self.follow(entries, &what);
        match follow {
            Err(Stop::Other(_)) => {}
            r => r?,
        }
        self.ctx.check(&[4, 3, 1], n > 0 || effs.is_empty(), "silent-mutation", || format!("{} logged nothing", what))?;
        let tags: &[u8] = if self.routed { &[4, 3] } else { &[4] };
        self.ctx.check(tags, ok, "entry-count", || {
            format!("{} logged {} entries for {} effects", what, n, effs.len())
        })?;
        let ok = self.shadow == self.val;
        let tags: &[u8] = if self.routed || has_route(act) { &[1, 3] } else { &[1] };
        let (shadow, val) = (&self.shadow, &self.val);
        self.ctx.check(tags, ok, "follower-diverged", || {
            format!("followers of the log differ after {}: {}", what, same_val(shadow, val))
        })?;
        self.routed |= has_route(act);
        let leaked = self.cx.leaked();
        self.ctx.check(&[3], leaked.is_none(), "foreign-logged", || {
            format!("{} logged to a runtime the value doesn't belong to: {}", what, hex(&leaked.unwrap()))
        })?;
        Ok(true)
    }

    /// A replica that got everything equals the leader.
    fn compare(&mut self, rep: usize) -> Res {
        let r = &self.reps[rep];
        if r.pos == self.entries.len() {
            let same = self.leader.same(&*r.obj) && r.obj.same(&*self.leader);
            let route = r.route;
            let msg = format!("{} isn't equal to the leader although nothing is missing", route);
            let tags: &[u8] = if route == "a fresh object" { &[1] } else { &[1, 2] };
            self.ctx.check(tags, same, "not-equal", || msg)?;
            self.ctx.count("replica found equal to leader", 1);
        }
        Ok(())
    }

    /// Nobody logs but the leader, and only when it mutates itself.
    fn quiet(&mut self, what: &str) -> Res {
        let entries = self.logged(what)?;
        self.ctx.check(&[4], entries.is_empty(), "echo", || {
            format!("{} logged {:?}", what, entries.iter().map(|(e, _)| e).collect::<Vec<_>>())
        })?;
        for i in 0..self.reps.len() {
            let bytes = log_of(&self.reps[i].log);
            let route = self.reps[i].route;
            self.ctx.check(&[4], bytes.is_empty(), "replica-logged", || {
                format!("{} logged {} at {}", route, hex(&bytes), what)
            })?;
        }
        for i in 0..self.dead.len() {
            let (log, n, whose) = &self.dead[i];
            let bytes = log_of(log);
            let (n, whose) = (*n, *whose);
            self.ctx.check(&[3, 4], bytes.len() == n, "dead-logged", || {
                format!("{} made {} log {}", what, whose, hex(&bytes))
            })?;
        }
        Ok(())
    }

    /// Once faults stop, everybody catches up.
    fn finish(mut self) -> Res {
        self.drain(DrainKind::PluckBytes)?;
        for i in 0..self.reps.len() {
            self.reps[i].cut = false;
            self.apply(i, self.drained, 3)?;
            self.compare(i)?;
        }
        let bytes = self.snapshot(0)?;
        let want = self.val.clone();
        let (obj, _) = self.load(&bytes, Load::Deserialize, &want)?;
        let same = obj.same(&*self.leader);
        self.ctx.check(&[2], same, "not-equal", || {
            "a state loaded from a snapshot isn't equal to the original".to_string()
        })?;
        self.quiet("the end")?;
        Ok(())
    }
}

/// Whether values come from or go somewhere else in the course of the act.
fn has_route(act: &Act) -> bool {
    let how = |h: &How| !matches!(h, How::Plain | How::With);
    match act {
        Act::Set { how: h, .. } | Act::VSet { how: h, .. } | Act::Push { how: h, .. } => how(h),
        Act::Insert { how: h, then, .. } => how(h) || !then.acts.is_empty(),
        Act::Pop { then } | Act::Remove { then, .. } => !then.acts.is_empty() || then.back,
        Act::SwapRemove { .. } => true,
        Act::Each { act, .. } => has_route(act),
        _ => false,
    }
}
