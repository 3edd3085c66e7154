//! Peers that run different versions of a schema.
//!
//! Most runs pair a real replica with a peer of a version drawn at random, which the reference
//! encoder plays: it has fields the replica doesn't know, lacks some, and has some in another wire
//! type. The others pair two real schemas that are versions of each other.

use model::noise::*;
use model::*;
use schemas::*;
use serde::{Deserialize, Serialize};

use super::cluster::{pick_schema, simpler_act};
use super::core::*;
use super::streams::{draw_op, draw_pace, gen_for, Pace, SlowReader};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MixedEv {
    /// The peer mutates something shared; the replica gets the entries.
    Op { path: Vec<u32>, act: Act, noise: u64, pace: Pace },
    /// The replica starts over from a snapshot of the peer.
    Snapshot { val: Val, noise: u64, merge: bool, pace: Pace },
    /// The peer mutates something the replica doesn't know.
    Stray { path: Vec<u32>, kind: u32, key: u32, value: Vec<u8>, noise: u64 },
    /// The replica crashes and starts over from its own snapshot.
    Restart,
    /// The real leader mutates itself.
    Lead { path: Vec<u32>, act: Act },
    /// So many of its entries arrive.
    Deliver { entries: usize, pace: Pace },
    /// The follower starts over from a snapshot of the leader.
    Join { merge: bool, pace: Pace },
    /// The leader goes on from a snapshot of the follower.
    Yield,
}

pub struct Mixed;

fn calm() -> Pace {
    Pace {
        sizes: vec![usize::MAX],
        interrupts: Vec::new(),
        error: None,
        sticky: false,
    }
}

fn is_calm(p: &Pace) -> bool {
    *p == calm()
}

struct Rep {
    schema: &'static Schema,
    obj: Box<dyn Obj>,
    val: Val,
    log: Handle,
}

impl Rep {
    fn new(schema: &'static Schema) -> Self {
        let (rt, log) = buffer_runtime();
        Rep {
            schema,
            obj: (schema.new)(rt),
            val: schema.ty.default(),
            log,
        }
    }

    fn quiet(&mut self, what: impl FnOnce() -> String, ctx: &mut Ctx) -> Res {
        let got = self.obj.obs();
        let want = &self.val;
        ctx.check(&[16], got == *want, "mixed-state", || format!("{}: {}", what(), same_val(&got, want)))?;
        let logged = log_of(&self.log);
        ctx.check(&[16, 4], logged.is_empty(), "replica-logged", || format!("a replica logged {}", hex(&logged)))
    }

    fn load(&mut self, bytes: &[u8], merge: bool, pace: &Pace, ctx: &mut Ctx) -> std::io::Result<()> {
        let (rt, log) = buffer_runtime();
        let mut r = SlowReader::new(bytes, pace);
        ctx.note(bytes);
        let obj = if merge {
            let mut x = (self.schema.new)(rt);
            x.merge(&mut r)?;
            x
        } else {
            let mut x = (self.schema.load)(&mut r)?;
            x.set_runtime(rt);
            x
        };
        counts(&r, ctx);
        self.obj = obj;
        self.log = log;
        Ok(())
    }

    fn replay(&mut self, bytes: &[u8], pace: &Pace, ctx: &mut Ctx) -> std::io::Result<()> {
        let mut r = SlowReader::new(bytes, pace);
        ctx.note(bytes);
        let res = self.obj.replay(&mut r);
        counts(&r, ctx);
        res
    }

    fn restart(&mut self, ctx: &mut Ctx) -> Res {
        let bytes = self.obj.to_bytes();
        let back = wire::decode(&self.schema.ty, &bytes);
        let want = &self.val;
        ctx.check(&[16], back.as_ref() == Ok(want), "own-snapshot-wrong", || {
            format!("the replica's own snapshot is {}, which means {}\n  want {}", hex(&bytes), brief(&back), brief(want))
        })?;
        let r = self.load(&bytes, false, &calm(), ctx);
        ctx.count("fault: replica crashed", 1);
        ctx.check(&[16], r.is_ok(), "own-snapshot-rejected", || {
            format!("the replica can't load its own snapshot {}: {:?}", hex(&bytes), r)
        })?;
        self.quiet(|| "after a restart from its own snapshot".to_string(), ctx)
    }
}

fn counts(r: &SlowReader, ctx: &mut Ctx) {
    ctx.count("fault: short read", r.short);
    ctx.count("fault: interrupted read", r.interrupted);
}

fn noted(n: &Noise, ctx: &mut Ctx) {
    ctx.count("fault: unknown field", n.unknown);
    ctx.count("fault: field of another wire type", n.retyped);
    ctx.count("fault: missing field", n.missing);
}

fn some_pace(rng: &mut Rng) -> Pace {
    if rng.pct(60) {
        calm()
    } else {
        draw_pace(rng, 200, &[], false)
    }
}

fn draw_stray(rng: &mut Rng, gen: &mut Gen, ty: &Ty, val: &Val) -> Option<MixedEv> {
    let mut all = Vec::new();
    tables(ty, val, &mut Vec::new(), &mut all);
    if all.is_empty() {
        return None;
    }
    let (mut path, known) = rng.pick(&all).clone();
    let near = known.iter().max().map_or(0, |m| m + 1);
    let tag = match rng.below(5) {
        0 => near,
        1 => FIELD_MAX,
        2 => u32::MAX >> rng.below(4),
        3 => rng.below(40) as u32,
        _ => rng.u64() as u32 >> rng.below(32),
    };
    if known.contains(&tag) {
        return None;
    }
    path.push(tag);
    for _ in 0..rng.below(3) {
        path.push(rng.below(4) as u32);
    }
    let kind = *rng.pick(&[wire::UPDATE, wire::UPDATE, wire::PUSH, wire::POP, wire::REMOVE]);
    let value = match kind {
        wire::UPDATE | wire::PUSH => gen.bytes(),
        _ => Vec::new(),
    };
    let key = if kind == wire::REMOVE { rng.below(300) as u32 } else { 0 };
    let noise = if rng.pct(40) { 0 } else { rng.u64() };
    Some(MixedEv::Stray { path, kind, key, value, noise })
}

fn alien(src: &mut Src<MixedEv>, ctx: &mut Ctx) -> Res {
    let schema = pick_schema(ctx.seed);
    let ty = &schema.ty;
    let version = mix(ctx.seed ^ 0xa11e);
    let mut gen = gen_for(ctx.seed);
    let mut rep = Rep::new(schema);
    ctx.note(schema.name.as_bytes());
    loop {
        let ev = {
            let (gen, val) = (&mut gen, &rep.val);
            src.next(|rng| match rng.weighted(&[45, 25, 20, 6]) {
                    0 => match draw_op(gen, ty, val) {
                        Some((path, act)) => MixedEv::Op { path, act, noise: rng.u64() | 1, pace: some_pace(rng) },
                        None => MixedEv::Restart,
                    },
                    1 => MixedEv::Snapshot {
                        val: gen.value(ty),
                        noise: rng.u64() | 1,
                        merge: rng.pct(50),
                        pace: some_pace(rng),
                    },
                    2 => draw_stray(rng, gen, ty, val).unwrap_or(MixedEv::Restart),
                    _ => MixedEv::Restart,
            })
        };
        let ev = match ev {
            Some(ev) => ev,
            None => return Ok(()),
        };
        if ctx.verbose {
            println!("{}", brief(&ev));
        }
        ctx.tick(10);
        match ev {
            MixedEv::Op { path, act, noise, pace } => {
                let mut after = rep.val.clone();
                let mut noise = Noise::new(version, noise);
                for mut eff in apply(ty, &mut after, &path, &act).unwrap_or_default() {
                    let mut e = eff.entry();
                    let new = match &eff.kind {
                        EffKind::Set(v) | EffKind::Push(v) => Some(noise.value(&eff.ty, v)),
                        _ => None,
                    };
                    if let Some((bytes, v)) = new {
                        if wire::decode(&eff.ty, &bytes).as_ref() != Ok(&v) {
                            return Err(Stop::Other("harness: noise".to_string()));
                        }
                        e.value = bytes;
                        eff.kind = match eff.kind {
                            EffKind::Set(_) => EffKind::Set(v),
                            _ => EffKind::Push(v),
                        };
                    }
                    // What is left of it may have nothing there.
                    if !apply_eff(ty, &mut rep.val, &eff) {
                        break;
                    }
                    let bytes = noise.entry(&e);
                    let r = rep.replay(&bytes, &pace, ctx);
                    let what = || format!("entry {:?} with fields of another version: {}", e.path, hex(&bytes));
                    ctx.check(&[16], r.is_ok(), "shared-entry-rejected", || format!("{} was rejected: {:?}", what(), r))?;
                    ctx.count("entries applied", 1);
                    rep.quiet(what, ctx)?;
                }
                noted(&noise, ctx);
            }
            MixedEv::Snapshot { val, noise, merge, pace } => {
                let mut noise = Noise::new(version, noise);
                let (bytes, val) = noise.value(ty, &val);
                noted(&noise, ctx);
                if wire::decode(ty, &bytes).as_ref() != Ok(&val) {
                    return Err(Stop::Other("harness: noise".to_string()));
                }
                let r = rep.load(&bytes, merge, &pace, ctx);
                ctx.check(&[16], r.is_ok(), "shared-snapshot-rejected", || {
                    format!("the snapshot {} was rejected: {:?}", hex(&bytes), r)
                })?;
                rep.val = val;
                ctx.count("snapshots loaded", 1);
                rep.quiet(|| format!("loaded from {}", hex(&bytes)), ctx)?;
            }
            MixedEv::Stray { path, kind, key, value, noise } => {
                let mut noise = Noise::new(version, noise);
                let mut e = wire::Entry::new(kind, path);
                e.key = key;
                e.value = value;
                // Reduced runs may address something known by now.
                if wire::apply_entry(ty, &mut rep.val.clone(), &e) != Err(wire::Reject::Address) {
                    continue;
                }
                let bytes = noise.entry(&e);
                let r = rep.replay(&bytes, &calm(), ctx);
                ctx.count("fault: entry for an unknown field", 1);
                let what = || format!("entry {} for {:?}, which isn't known", hex(&bytes), e.path);
                ctx.check(&[16], r.is_err(), "stray-accepted", || format!("{}, was accepted", what()))?;
                rep.quiet(what, ctx)?;
            }
            MixedEv::Restart => rep.restart(ctx)?,
            _ => {}
        }
    }
}

fn versions(src: &mut Src<MixedEv>, ctx: &mut Ctx) -> Res {
    let pair = if mix(ctx.seed ^ 0x77) % 2 == 0 { ["DocV1", "DocV2"] } else { ["DocV2", "DocV1"] };
    let (a, b) = (by_name(pair[0]), by_name(pair[1]));
    let mut gen = gen_for(ctx.seed);
    let mut lead = Rep::new(a);
    let mut rep = Rep::new(b);
    let mut cx = Cx::new();
    let mut queue: std::collections::VecDeque<(wire::Entry, Vec<u8>)> = Default::default();
    ctx.note(pair[0].as_bytes());
    loop {
        let ev = {
            let (gen, val, n) = (&mut gen, &lead.val, queue.len());
            src.next(|rng| match rng.weighted(&[50, if n > 0 { 35 } else { 0 }, 8, 4, 4]) {
                    0 => match draw_op(gen, &a.ty, val) {
                        Some((path, act)) => MixedEv::Lead { path, act },
                        None => MixedEv::Restart,
                    },
                    1 => MixedEv::Deliver { entries: rng.range(1, n), pace: some_pace(rng) },
                    2 => MixedEv::Join { merge: rng.pct(50), pace: some_pace(rng) },
                    3 => MixedEv::Yield,
                    _ => MixedEv::Restart,
            })
        };
        let ev = match ev {
            Some(ev) => ev,
            None => return Ok(()),
        };
        if ctx.verbose {
            println!("{}", brief(&ev));
        }
        ctx.tick(10);
        match ev {
            MixedEv::Lead { path, act } => {
                let mut after = lead.val.clone();
                if apply(&a.ty, &mut after, &path, &act).is_none() {
                    continue;
                }
                cx.forget(4);
                lead.obj.act(&path, &act, &mut cx);
                let got = lead.obj.obs();
                ctx.check(&[1], got == after, "leader-wrong", || same_val(&got, &after))?;
                lead.val = after;
                let new = lead.log.lock().unwrap().pluck_bytes();
                let mut at = 0;
                match wire::split_log(&new) {
                    Ok(es) => {
                        for (e, end) in es {
                            queue.push_back((e, new[at..end].to_vec()));
                            at = end;
                        }
                    }
                    Err(_) => return Err(Stop::Other("log".to_string())),
                }
            }
            MixedEv::Deliver { entries, pace } => {
                for (e, bytes) in (0..entries).map_while(|_| queue.pop_front()).collect::<Vec<_>>() {
                    let want = wire::apply_entry(&b.ty, &mut rep.val, &e);
                    let r = rep.replay(&bytes, &pace, ctx);
                    let what = || format!("entry {} of {} at {:?}", hex(&bytes), a.name, e.path);
                    ctx.check(&[16], want.is_ok() == r.is_ok(), "other-version-verdict", || {
                        format!("{} gave {:?}, want {:?}", what(), r, want)
                    })?;
                    ctx.count(
                        match want {
                            Ok(()) => "entries applied",
                            Err(_) => "fault: entry the other version rejects",
                        },
                        1,
                    );
                    rep.quiet(what, ctx)?;
                }
            }
            MixedEv::Join { merge, pace } => {
                queue.clear();
                let bytes = lead.obj.to_bytes();
                let want = wire::decode(&b.ty, &bytes);
                let r = rep.load(&bytes, merge, &pace, ctx);
                let what = || format!("the {} snapshot {}", a.name, hex(&bytes));
                ctx.check(&[16], want.is_ok() == r.is_ok(), "other-version-verdict", || {
                    format!("{} gave {:?}, want {:?}", what(), r, want)
                })?;
                ctx.count("snapshots loaded", 1);
                if let Ok(v) = want {
                    rep.val = v;
                }
                rep.quiet(what, ctx)?;
            }
            MixedEv::Yield => {
                let bytes = rep.obj.to_bytes();
                let want = wire::decode(&a.ty, &bytes);
                let r = lead.load(&bytes, false, &calm(), ctx);
                let what = || format!("the {} snapshot {}", b.name, hex(&bytes));
                ctx.check(&[16], want.is_ok() == r.is_ok(), "other-version-verdict", || {
                    format!("{} gave {:?}, want {:?}", what(), r, want)
                })?;
                ctx.count("snapshots loaded", 1);
                if let Ok(v) = want {
                    lead.val = v;
                    queue.clear();
                }
                lead.quiet(what, ctx)?;
            }
            MixedEv::Restart => rep.restart(ctx)?,
            _ => {}
        }
    }
}

impl Scenario for Mixed {
    const NAME: &'static str = "mixed";
    type Ev = MixedEv;

    fn run(src: &mut Src<MixedEv>, ctx: &mut Ctx) -> Res {
        let shape = mix(ctx.seed ^ 0x73) as usize;
        src.limit(match ctx.tier {
            Tier::Quick => [8, 16, 32][shape % 3],
            Tier::Thorough => [10, 30, 120][shape % 3],
        });
        if mix(ctx.seed ^ 0x3d) % 3 == 0 {
            versions(src, ctx)
        } else {
            alien(src, ctx)
        }
    }

    fn simpler(ev: &MixedEv) -> Vec<MixedEv> {
        let mut out = Vec::new();
        match ev {
            MixedEv::Op { path, act, noise, pace } => {
                if !is_calm(pace) {
                    out.push(MixedEv::Op { path: path.clone(), act: act.clone(), noise: *noise, pace: calm() });
                }
                if *noise != 0 {
                    for n in [0, 1, 3, 5, 7, 9] {
                        if n < *noise {
                            out.push(MixedEv::Op { path: path.clone(), act: act.clone(), noise: n, pace: pace.clone() });
                        }
                    }
                }
                for act in simpler_act(act) {
                    out.push(MixedEv::Op { path: path.clone(), act, noise: *noise, pace: pace.clone() });
                }
            }
            MixedEv::Snapshot { val, noise, merge, pace } => {
                if !is_calm(pace) {
                    out.push(MixedEv::Snapshot { val: val.clone(), noise: *noise, merge: *merge, pace: calm() });
                }
                for n in [0, 1, 3, 5, 7, 9] {
                    if n < *noise {
                        out.push(MixedEv::Snapshot { val: val.clone(), noise: n, merge: *merge, pace: pace.clone() });
                    }
                }
            }
            MixedEv::Stray { path, kind, key, value, noise } if *noise != 0 => {
                out.push(MixedEv::Stray {
                    path: path.clone(),
                    kind: *kind,
                    key: *key,
                    value: value.clone(),
                    noise: 0,
                });
            }
            MixedEv::Lead { path, act } => {
                for act in simpler_act(act) {
                    out.push(MixedEv::Lead { path: path.clone(), act });
                }
            }
            MixedEv::Deliver { entries, pace } if !is_calm(pace) => {
                out.push(MixedEv::Deliver { entries: *entries, pace: calm() })
            }
            MixedEv::Join { merge, pace } if !is_calm(pace) => {
                out.push(MixedEv::Join { merge: *merge, pace: calm() })
            }
            _ => {}
        }
        out
    }
}
