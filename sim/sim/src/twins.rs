//! C21: objects that came to be in different ways are compared.

use model::*;
use schemas::*;
use serde::{Deserialize, Serialize};
use steit::{
    log::loggers::BufferLogger,
    rt::{LoggerHandle, Runtime},
};

use crate::cluster::{pick_schema, simpler_act};
use crate::core::*;
use crate::io::{draw_pace, Pace, Sink};
use crate::streams::{self, draw_op, gen_for, shorter, SlowReader};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Way {
    /// A snapshot of the other is loaded, by one of two calls.
    Load(bool),
    /// It is a clone of the other, and goes on under its runtime or one of its own.
    Clone(bool),
    /// It is built piece by piece.
    Build,
    /// A snapshot of the other is merged into what it is.
    Merge,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TwinEv {
    /// An object mutates itself; the second, too, if it is equal.
    Op { who: usize, also: Option<usize>, path: Vec<u32>, act: Act },
    /// An object becomes a copy of another.
    Copy { who: usize, from: usize, way: Way },
    /// An object crashes while it loads or replays something, or is given something bad.
    Hit { who: usize, replay: bool, bytes: Vec<u8>, fail_at: Option<usize> },
    /// Sizes are cached, logs paused, runtimes replaced.
    Stir { who: usize, how: u8, pace: Option<Pace> },
}

struct Twin {
    obj: Box<dyn Obj>,
    log: LoggerHandle<BufferLogger>,
    val: Val,
}

pub struct Twins;

impl Scenario for Twins {
    const NAME: &'static str = "twins";
    type Ev = TwinEv;

    fn run(src: &mut Src<TwinEv>, ctx: &mut Ctx) -> Res {
        let schema = pick(ctx.seed);
        let ty = &schema.ty;
        let mut gen = gen_for(ctx.seed);
        gen.knobs.logged = false;
        let shape = mix(ctx.seed ^ 0x73) as usize;
        let n = 2 + (shape >> 8) % 3;
        src.limit(match ctx.tier {
            Tier::Quick => [8, 20, 40][shape % 3],
            Tier::Thorough => [12, 40, 150][shape % 3],
        });
        let mut twins: Vec<Twin> = (0..n)
            .map(|_| {
                let (rt, log) = Runtime::with_logger_returned(BufferLogger::new());
                let obj = (schema.new)(rt);
                Twin { val: obj.obs(), obj, log }
            })
            .collect();
        let mut cx = Cx::new();
        ctx.note(schema.name.as_bytes());
        loop {
            let ev = {
                let (gen, twins) = (&mut gen, &twins);
                src.next(|rng| {
                    let who = rng.below(n);
                    let from = (who + rng.range(1, n)) % n;
                    match rng.weighted(&[50, 22, 14, 14]) {
                        0 => match draw_op(gen, ty, &twins[who].val) {
                            Some((path, act)) => {
                                TwinEv::Op { who, also: if rng.below(2) == 0 { Some(from) } else { None }, path, act }
                            }
                            None => TwinEv::Copy { who, from, way: Way::Build },
                        },
                        1 => TwinEv::Copy {
                            who,
                            from,
                            way: match rng.below(7) {
                                0 => Way::Load(false),
                                1 => Way::Load(true),
                                2 => Way::Clone(false),
                                3 => Way::Clone(true),
                                4 => Way::Build,
                                _ => Way::Merge,
                            },
                        },
                        2 => {
                            let replay = rng.below(2) == 0;
                            let mut bytes = Vec::new();
                            if replay {
                                let mut v = twins[who].val.clone();
                                for _ in 0..rng.range(1, 4) {
                                    if let Some((path, act)) = draw_op(gen, ty, &v) {
                                        for e in apply(ty, &mut v, &path, &act).unwrap_or_default() {
                                            bytes.extend(e.entry().bytes());
                                        }
                                    }
                                }
                            } else {
                                bytes = wire::encode(ty, &gen.value(ty));
                            }
                            if rng.below(3) == 0 && !bytes.is_empty() {
                                let i = rng.below(bytes.len());
                                bytes[i] = rng.u64() as u8;
                            }
                            let fail_at = if rng.below(2) == 0 { Some(rng.below(bytes.len() + 1)) } else { None };
                            TwinEv::Hit { who, replay, bytes, fail_at }
                        }
                        _ => {
                            let how = rng.below(8) as u8;
                            TwinEv::Stir { who, how, pace: if how == 7 { Some(draw_pace(rng, 60, 40)) } else { None } }
                        }
                    }
                })
            };
            let ev = match ev {
                Some(ev) => ev,
                None => break,
            };
            if ctx.verbose {
                println!("{}", brief(&ev));
            }
            ctx.tick(10);
            match ev {
                TwinEv::Op { who, also, path, act } => {
                    let who = who % n;
                    let mut after = twins[who].val.clone();
                    if apply(ty, &mut after, &path, &act).is_none() {
                        continue;
                    }
                    let before = twins[who].val.clone();
                    for i in std::iter::once(who).chain(also.map(|a| a % n).filter(|&a| a != who)) {
                        if twins[i].val != before {
                            continue;
                        }
                        cx.forget(4);
                        let found = twins[i].obj.act(&path, &act, &mut cx);
                        let got = twins[i].obj.obs();
                        ctx.check(&[1], found && got == after, "mutation-wrong", || same_val(&got, &after))?;
                        twins[i].val = got;
                        ctx.count("mutations", 1);
                    }
                }
                TwinEv::Copy { who, from, way } => {
                    let (who, from) = (who % n, from % n);
                    if who == from {
                        continue;
                    }
                    let (rt, log) = Runtime::with_logger_returned(BufferLogger::new());
                    let val = twins[from].val.clone();
                    let (obj, log) = match way {
                        Way::Load(false) => {
                            let bytes = twins[from].obj.to_bytes();
                            let r = (schema.load)(&mut &*bytes);
                            ctx.check(&[2], r.is_ok(), "snapshot-rejected", || format!("{:?}", r.as_ref().err()))?;
                            let mut obj = r.ok().unwrap();
                            obj.set_runtime(rt);
                            (obj, log)
                        }
                        Way::Load(true) => {
                            let bytes = twins[from].obj.to_bytes();
                            let mut obj = (schema.new)(rt);
                            let r = obj.merge(&mut &*bytes);
                            ctx.check(&[2], r.is_ok(), "snapshot-rejected", || format!("{:?}", r))?;
                            (obj, log)
                        }
                        Way::Clone(own) => {
                            let mut obj = twins[from].obj.clone_obj();
                            if own {
                                obj.set_runtime(rt);
                                (obj, log)
                            } else {
                                (obj, twins[from].log.clone())
                            }
                        }
                        Way::Build => ((schema.build)(&val, rt), log),
                        Way::Merge => {
                            // What comes of that is another property's concern.
                            let mut obj = (schema.build)(&twins[who].val, rt);
                            let bytes = wire::encode(ty, &val);
                            let _ = obj.merge(&mut &*bytes);
                            let got = obj.obs();
                            twins[who] = Twin { obj, log, val: got };
                            ctx.count("merged", 1);
                            compare(schema, &twins, ctx)?;
                            continue;
                        }
                    };
                    log.lock().unwrap().clear();
                    let got = obj.obs();
                    ctx.check(&[1, 2, 21], got == val, "copy-wrong", || format!("{:?}: {}", way, same_val(&got, &val)))?;
                    twins[who] = Twin { obj, log, val };
                    ctx.count("copies", 1);
                }
                TwinEv::Hit { who, replay, bytes, fail_at } => {
                    let twin = &mut twins[who % n];
                    let pace = streams::Pace {
                        sizes: vec![bytes.len() + 1],
                        interrupts: Vec::new(),
                        error: fail_at.map(|at| (at, at as u8 % 100)),
                        sticky: true,
                    };
                    let mut r = SlowReader::new(&bytes, &pace);
                    let r = if replay { twin.obj.replay(&mut r) } else { twin.obj.merge(&mut r) };
                    ctx.count(if r.is_err() { "fault: load or replay failed" } else { "loads and replays" }, 1);
                    // What it makes of that is another property's concern.
                    twin.val = twin.obj.obs();
                }
                TwinEv::Stir { who, how, pace } => {
                    let twin = &mut twins[who % n];
                    match how {
                        0 => drop(twin.obj.cache_size()),
                        1 => drop(twin.obj.compute_size()),
                        2 => drop(twin.obj.to_bytes()),
                        3 | 4 => {
                            let (rt, log) = Runtime::with_logger_returned(BufferLogger::new());
                            twin.obj.set_runtime(if how == 3 { rt } else { rt.nested(5).nested(0) });
                            twin.log = log;
                        }
                        5 => twin.log.lock().unwrap().clear(),
                        6 => twin.obj.look(),
                        _ => {
                            let mut sink = Sink::default();
                            sink.set(pace.clone());
                            let r = twin.obj.serialize(&mut sink);
                            ctx.count("fault: write failed", r.is_err() as u64);
                        }
                    }
                }
            }
            compare(schema, &twins, ctx)?;
        }
        Ok(())
    }

    fn simpler(ev: &TwinEv) -> Vec<TwinEv> {
        match ev {
            TwinEv::Op { who, also, path, act } => simpler_act(act)
                .into_iter()
                .map(|act| TwinEv::Op { who: *who, also: *also, path: path.clone(), act })
                .collect(),
            TwinEv::Hit { who, replay, bytes, fail_at } => shorter(bytes)
                .into_iter()
                .map(|bytes| TwinEv::Hit { who: *who, replay: *replay, bytes, fail_at: *fail_at })
                .collect(),
            _ => Vec::new(),
        }
    }
}

/// Half of the schemas have fields of their own kind here.
fn pick(seed: u64) -> &'static Schema {
    match mix(seed ^ 0x21) % 6 {
        0 => by_name(["Ledger", "Album", "Stamp"][(mix(seed ^ 0x22) % 3) as usize]),
        1 => by_name(["Team", "Profile", "Pair", "Mode", "Either<Item, List<u32>>", "Maybe<Item>", "Member", "List<Item>"][(mix(seed ^ 0x22) % 8) as usize]),
        _ => pick_schema(seed),
    }
}

fn compare(schema: &'static Schema, twins: &[Twin], ctx: &mut Ctx) -> Res {
    let ty = &schema.ty;
    for t in twins {
        let got = t.obj.obs();
        ctx.check(&[21], got == t.val, "changed-by-another", || {
            format!("an object changed while others were dealt with: {}", same_val(&got, &t.val))
        })?;
    }
    let views: Vec<Val> = twins.iter().map(|t| eq_view(ty, &t.val)).collect();
    let hashes: Vec<Option<u64>> = twins.iter().map(|t| schema.hash.map(|h| h(&*t.obj))).collect();
    for i in 0..twins.len() {
        for j in i..twins.len() {
            let want = views[i] == views[j];
            for (a, b) in [(i, j), (j, i)] {
                let got = twins[a].obj.same(&*twins[b].obj);
                ctx.check(&[21], got == want, "comparison-wrong", || {
                    format!(
                        "two {} compare {}: {} and {}",
                        schema.name,
                        if got { "equal" } else { "unequal" },
                        brief(&twins[a].val),
                        brief(&twins[b].val)
                    )
                })?;
            }
            if want {
                ctx.check(&[21], hashes[i] == hashes[j], "hash-wrong", || {
                    format!("equal {} hash differently: {} and {}", schema.name, brief(&twins[i].val), brief(&twins[j].val))
                })?;
            }
            if i != j {
                ctx.count(if want { "pairs equal" } else { "pairs unequal" }, 1);
            }
        }
    }
    Ok(())
}
