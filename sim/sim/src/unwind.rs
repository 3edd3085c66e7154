//! C26: code that the library calls (loggers, builders, readers, writers, iterators, map keys)
//! panics, and the caller goes on.

use model::*;
use schemas::*;
use serde::{Deserialize, Serialize};
use steit::{log::loggers::PanicLogger, rt::Runtime};

use crate::cluster::{pick_schema, simpler_act};
use crate::core::*;
use crate::io::{draw_pace as draw_write_pace, silent_items, Pace as WritePace, SharedSink, Sink, BOOM};
use crate::streams::{draw_op, draw_pace, gen_for, ref_entry, some_path, Pace, SlowReader};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Into {
    /// A new object is loaded.
    Load,
    /// Into the state itself.
    Merge,
    /// As log entries.
    Replay,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum UnwindEv {
    /// A mutation, whose builder may panic.
    Op { path: Vec<u32>, act: Act },
    /// The callback after so many panics, whatever it is.
    Fuse { after: u32, path: Vec<u32>, act: Act },
    /// The logger panics at the call after so many, before it keeps anything.
    LogPanic { after: usize, path: Vec<u32>, act: Act },
    /// The mutation is made by a destructor while a panic goes by.
    Passing { path: Vec<u32>, act: Act },
    /// Someone panics while holding the log.
    Hold,
    /// The library's logger that always panics.
    Never { path: Vec<u32>, act: Act },
    /// A text log whose writer panics.
    Text { path: Vec<u32>, act: Act, pace: WritePace },
    Write { pace: WritePace, nested: Option<u32> },
    Feed { val: Val, pace: Pace, into: Into },
    /// Entries arrive; the reader or a callback panics.
    Entries { entries: Vec<Vec<u8>>, pace: Pace, after: Option<u32> },
    /// Reading, comparing, making others like it; the callback after so many panics.
    Look { after: Option<u32> },
    /// The state goes on under another runtime.
    Attach { wrap: usize },
    /// The follower starts over.
    Join,
}

struct World {
    schema: &'static Schema,
    obj: Box<dyn Obj>,
    rt: Runtime,
    rec: Rec,
    seen: usize,
    follower: Box<dyn Obj>,
    /// What the state is known to be.
    val: Val,
    cx: Cx,
    /// Somebody panicked while holding the log.
    poisoned: bool,
}

pub struct Unwind;

impl Scenario for Unwind {
    const NAME: &'static str = "unwind";
    type Ev = UnwindEv;

    fn run(src: &mut Src<UnwindEv>, ctx: &mut Ctx) -> Res {
        let schema = pick_schema(ctx.seed);
        let ty = &schema.ty;
        let mut gen = gen_for(ctx.seed);
        gen.knobs.foreign = true;
        gen.knobs.panic = true;
        let shape = mix(ctx.seed ^ 0x73) as usize;
        src.limit(match ctx.tier {
            Tier::Quick => [6, 12, 25][shape % 3],
            Tier::Thorough => [8, 25, 80][shape % 3],
        });
        let (rt, rec) = rec_runtime(shape >> 8);
        ctx.note(schema.name.as_bytes());
        let mut w = World {
            schema,
            obj: (schema.new)(rt.clone()),
            rt,
            rec,
            seen: 0,
            follower: (schema.new)(Runtime::new()),
            val: ty.default(),
            cx: Cx::new(),
            poisoned: false,
        };
        w.cx.nav = ctx.seed as u32;
        loop {
            let ev = {
                let (gen, val, poisoned) = (&mut gen, &w.val, w.poisoned);
                src.next(|rng| draw(rng, gen, ty, val, poisoned))
            };
            let ev = match ev {
                Some(ev) => ev,
                None => break,
            };
            if ctx.verbose {
                println!("{}", brief(&ev));
            }
            ctx.tick(10);
            w.cx.forget(4);
            w.step(&ev, ctx)?;
        }
        // In the end, all is well under a new runtime.
        w.attach(shape >> 12);
        if let Some((path, act)) = draw_op(&mut gen, ty, &w.val) {
            w.step(&UnwindEv::Op { path, act }, ctx)?;
        }
        Ok(())
    }

    fn simpler(ev: &UnwindEv) -> Vec<UnwindEv> {
        let acts = |path: &[u32], act: &Act, f: &dyn Fn(Vec<u32>, Act) -> UnwindEv| {
            simpler_act(act).into_iter().map(|a| f(path.to_vec(), a)).collect()
        };
        match ev {
            UnwindEv::Op { path, act } => acts(path, act, &|path, act| UnwindEv::Op { path, act }),
            UnwindEv::Passing { path, act } => acts(path, act, &|path, act| UnwindEv::Passing { path, act }),
            UnwindEv::Never { path, act } => acts(path, act, &|path, act| UnwindEv::Never { path, act }),
            UnwindEv::Fuse { after, path, act } => {
                acts(path, act, &|path, act| UnwindEv::Fuse { after: *after, path, act })
            }
            UnwindEv::LogPanic { after, path, act } => {
                acts(path, act, &|path, act| UnwindEv::LogPanic { after: *after, path, act })
            }
            UnwindEv::Text { path, act, pace } => {
                acts(path, act, &|path, act| UnwindEv::Text { path, act, pace: pace.clone() })
            }
            UnwindEv::Entries { entries, pace, after } if entries.len() > 1 => (0..entries.len())
                .map(|i| {
                    let mut entries = entries.clone();
                    entries.remove(i);
                    UnwindEv::Entries { entries, pace: pace.clone(), after: *after }
                })
                .collect(),
            _ => Vec::new(),
        }
    }
}

fn draw(rng: &mut Rng, gen: &mut Gen, ty: &Ty, val: &Val, poisoned: bool) -> UnwindEv {
    if poisoned && rng.pct(40) {
        return UnwindEv::Attach { wrap: rng.below(4) };
    }
    let kind = rng.weighted(&[30, 14, 12, 4, 2, 3, 5, 10, 8, 10, 8, 4, 3]);
    let op = if kind < 4 || kind == 5 || kind == 6 {
        match draw_op(gen, ty, val) {
            Some(op) => op,
            None => return UnwindEv::Look { after: None },
        }
    } else {
        (Vec::new(), Act::Pop { then: Then::default() })
    };
    let (path, act) = op;
    let boom_read = |rng: &mut Rng, len: usize, ends: &[usize]| {
        let mut pace = draw_pace(rng, len, ends, false);
        let at = if !ends.is_empty() && rng.pct(40) { *rng.pick(ends) } else { rng.below(len + 1) };
        pace.error = Some((at, BOOM));
        pace
    };
    let boom_write = |rng: &mut Rng, len: usize| {
        let mut pace = draw_write_pace(rng, len, 0);
        if rng.pct(85) {
            pace.error = Some((rng.below(len + 1), BOOM));
        }
        pace
    };
    match kind {
        0 => UnwindEv::Op { path, act },
        1 => UnwindEv::Fuse { after: rng.below(6) as u32, path, act },
        2 => UnwindEv::LogPanic { after: [0, 0, 0, 1, 2][rng.below(5)], path, act },
        3 => UnwindEv::Passing { path, act },
        4 => UnwindEv::Hold,
        5 => UnwindEv::Never { path, act },
        6 => UnwindEv::Text { path, act, pace: boom_write(rng, 300) },
        7 => UnwindEv::Write {
            pace: boom_write(rng, wire::encode(ty, val).len()),
            nested: *rng.pick(&[None, None, Some(0), Some(16), Some(FIELD_MAX)]),
        },
        8 => {
            let into = if rng.pct(50) { Into::Load } else { Into::Merge };
            let val = gen.val(ty, 2);
            let len = wire::encode(ty, &val).len();
            UnwindEv::Feed { val, pace: boom_read(rng, len, &[]), into }
        }
        9 => {
            let mut entries = Vec::new();
            let mut v = val.clone();
            for _ in 0..rng.range(1, 5) {
                if rng.pct(25) {
                    let (path, t) = some_path(rng, ty, &v);
                    let mut e = wire::Entry::new(wire::UPDATE, path);
                    e.value = wire::encode(&t, &gen.value(&t));
                    let bytes = e.bytes();
                    if ref_entry(ty, &mut v, &bytes).is_ok() {
                        entries.push(bytes);
                    }
                } else if let Some((path, act)) = draw_op(gen, ty, &v) {
                    for eff in apply(ty, &mut v.clone(), &path, &act).unwrap_or_default() {
                        if apply_eff(ty, &mut v, &eff) {
                            entries.push(eff.entry().bytes());
                        }
                    }
                }
            }
            let mut ends = vec![0];
            for e in &entries {
                ends.push(ends.last().unwrap() + e.len());
            }
            let len = *ends.last().unwrap();
            let fused = rng.pct(30);
            let mut pace = boom_read(rng, len, &ends);
            if fused {
                pace.error = None;
            }
            UnwindEv::Entries {
                entries,
                pace,
                after: if fused { Some(rng.below(5) as u32) } else { None },
            }
        }
        10 => UnwindEv::Look { after: if rng.pct(80) { Some(rng.below(6) as u32) } else { None } },
        11 => UnwindEv::Attach { wrap: rng.below(4) },
        _ => UnwindEv::Join,
    }
}

/// Runs when it's dropped.
struct OnDrop<F: FnMut()>(F);

impl<F: FnMut()> Drop for OnDrop<F> {
    fn drop(&mut self) {
        (self.0)()
    }
}

impl World {
    fn step(&mut self, ev: &UnwindEv, ctx: &mut Ctx) -> Res {
        let ty = &self.schema.ty;
        let what = || brief(ev);
        match ev {
            UnwindEv::Op { path, act }
            | UnwindEv::Fuse { path, act, .. }
            | UnwindEv::LogPanic { path, act, .. }
            | UnwindEv::Passing { path, act } => {
                let mut after = self.val.clone();
                if apply(ty, &mut after, path, act).is_none() || silent_items(act) {
                    return Ok(());
                }
                let mut boomed = false;
                let r = match ev {
                    UnwindEv::Fuse { after, .. } => {
                        fuse::arm(*after);
                        let r = guarded(|| self.obj.act(path, act, &mut self.cx));
                        boomed = !fuse::disarm();
                        ctx.count("fault: callback panicked", boomed as u64);
                        r
                    }
                    UnwindEv::LogPanic { after, .. } => {
                        {
                            let mut s = self.rec.0.lock().unwrap();
                            s.panic = Some(s.calls.len() + after);
                        }
                        let r = guarded(|| self.obj.act(path, act, &mut self.cx));
                        boomed = self.rec.0.lock().unwrap().panic.take().is_none();
                        ctx.count("fault: logger panicked", boomed as u64);
                        r
                    }
                    UnwindEv::Passing { .. } => {
                        let (obj, cx) = (&mut self.obj, &mut self.cx);
                        let mut r = Ok(false);
                        let _ = guarded(|| {
                            let _mutate = OnDrop(|| r = guarded(|| obj.act(path, act, cx)));
                            raise()
                        });
                        ctx.count("fault: mutated while unwinding", 1);
                        r
                    }
                    _ => guarded(|| self.obj.act(path, act, &mut self.cx)),
                };
                let whole = r.is_ok() && !boomed;
                if let (Err(e), false, false) = (&r, boomed, self.poisoned) {
                    ctx.check(&[26, 1], e == BUILDER_PANIC, "stuck", || format!("{} panicked: {}", what(), e))?;
                }
                ctx.count("mutations", r.is_ok() as u64);
                ctx.count("fault: builder panicked", (r.is_err() && !boomed && !self.poisoned) as u64);
                let stuck = self.rt.logger().is_poisoned();
                self.poisoned |= stuck;
                if whole {
                    let got = self.obj.obs();
                    ctx.check(&[26, 1], got == after, "mutation-wrong", || {
                        format!("{}: {}", what(), same_val(&got, &after))
                    })?;
                }
                self.follow(&what(), ctx)?;
            }
            UnwindEv::Hold => {
                let logger = self.rt.logger().clone();
                let _ = guarded(|| {
                    let _held = logger.lock();
                    raise()
                });
                self.poisoned = true;
                ctx.count("fault: panicked holding the log", 1);
                self.follow(&what(), ctx)?;
            }
            UnwindEv::Never { path, act } => {
                let mut after = self.val.clone();
                let effs = match apply(ty, &mut after, path, act) {
                    Some(effs) if !silent_items(act) => effs,
                    _ => return Ok(()),
                };
                if matches!(act, Act::SetNs { .. } | Act::VSetNs { .. }) {
                    return Ok(());
                }
                let mut copy = self.obj.clone_obj();
                copy.set_runtime(Runtime::with_logger(PanicLogger::new()));
                let r = guarded(|| copy.act(path, act, &mut self.cx));
                ctx.count("fault: logger panicked", r.is_err() as u64);
                let got = copy.obs();
                ctx.check(&[26], got == self.val, "changed-unlogged", || {
                    format!("{} panicked in the logger: {}", what(), same_val(&got, &self.val))
                })?;
                ctx.check(&[26], effs.is_empty() || r.is_err(), "changed-unlogged", || {
                    format!("{} met a logger that always panics, and returned", what())
                })?;
                let bytes = self.obj.to_bytes();
                ctx.check(&[26], bytes == copy.to_bytes(), "bytes-differ", || {
                    format!("after {} panicked in the logger, the state is written as {}", what(), hex(&copy.to_bytes()))
                })?;
                self.follow(&what(), ctx)?;
            }
            UnwindEv::Text { path, act, pace } => {
                let mut after = self.val.clone();
                let effs = match apply(ty, &mut after, path, act) {
                    Some(effs) => effs,
                    None => return Ok(()),
                };
                let one = crate::io::steps(ty, &self.val, &effs).len() <= 2;
                if !one || silent_items(act) || matches!(act, Act::SetNs { .. } | Act::VSetNs { .. }) {
                    return Ok(());
                }
                let sink = SharedSink::default();
                sink.0.lock().unwrap().set(Some(pace.clone()));
                let mut copy = self.obj.clone_obj();
                copy.set_runtime(text_runtime(sink.clone(), self.cx.nav as usize));
                let r = guarded(|| copy.act(path, act, &mut self.cx));
                let failed = sink.0.lock().unwrap_or_else(|e| e.into_inner()).failed;
                ctx.count("fault: writer panicked", failed as u64);
                let got = copy.obs();
                if failed {
                    ctx.check(&[26], got == self.val, "changed-unlogged", || {
                        format!("the text log's writer panicked during {}: {}", what(), same_val(&got, &self.val))
                    })?;
                } else {
                    ctx.check(&[26, 10], r.is_err() || got == after, "mutation-wrong", || {
                        format!("{}: {}", what(), same_val(&got, &after))
                    })?;
                }
                self.follow(&what(), ctx)?;
            }
            UnwindEv::Write { pace, nested } => {
                let want = self.obj.clone_obj().to_bytes();
                let mut sink = Sink::default();
                sink.set(Some(pace.clone()));
                let r = guarded(|| match nested {
                    None => self.obj.serialize(&mut sink),
                    Some(n) => {
                        self.obj.compute_size_nested(Some(*n), false)?;
                        self.obj.cache_size();
                        self.obj.serialize_nested(Some(*n), false, &mut sink)
                    }
                });
                ctx.count("fault: writer panicked", sink.failed as u64);
                if nested.is_none() {
                    // Hash maps come in any order, but the same one each time.
                    let ok = want.starts_with(&sink.data) && (sink.failed || (r.is_ok() && sink.data == want));
                    ctx.check(&[26, 9], ok, "written-wrong", || {
                        format!("{} gave {:?} and wrote {}\n  want {}", what(), r, hex(&sink.data), hex(&want))
                    })?;
                } else {
                    ctx.check(&[26, 9], sink.failed || r.is_ok(), "written-wrong", || format!("{} gave {:?}", what(), r))?;
                }
                self.follow(&what(), ctx)?;
            }
            UnwindEv::Feed { val, pace, into } => {
                let bytes = wire::encode(ty, val);
                let mut r = SlowReader::new(&bytes, pace);
                match into {
                    Into::Load => {
                        let _ = guarded(|| (self.schema.load)(&mut r).map(|_| ()));
                    }
                    _ => {
                        let _ = guarded(|| self.obj.merge(&mut r));
                        let got = self.obj.obs();
                        if let Err(lost) = between(ty, &self.val, val, &got) {
                            ctx.check(&[26], false, "lost-in-merge", || {
                                format!("{}: {} is gone: got {}\n  had {}", what(), lost, brief(&got), brief(&self.val))
                            })?;
                        }
                        self.val = got;
                        self.sound(&what(), ctx)?;
                        self.join(ctx)?;
                    }
                }
                ctx.count("fault: reader panicked", r.failed as u64);
                self.follow(&what(), ctx)?;
            }
            UnwindEv::Entries { entries, pace, after } => {
                let bytes = entries.concat();
                let end = pace.error.map_or(bytes.len(), |e| e.0);
                let mut vals = vec![self.val.clone()];
                let mut ends = vec![0];
                for e in entries {
                    let mut v = vals.last().unwrap().clone();
                    if ref_entry(ty, &mut v, e).is_err() {
                        break;
                    }
                    vals.push(v);
                    ends.push(ends.last().unwrap() + e.len());
                }
                let known = ends.len() > entries.len();
                let whole = ends.iter().filter(|x| **x <= end).count() - 1;
                if let Some(after) = after {
                    fuse::arm(*after);
                }
                let mut r = SlowReader::new(&bytes, pace);
                let res = guarded(|| self.obj.replay(&mut r));
                let boomed = after.is_some() && !fuse::disarm();
                ctx.count("fault: reader panicked", r.failed as u64);
                ctx.count("fault: callback panicked", boomed as u64);
                let got = self.obj.obs();
                // Each entry is applied as a whole or not at all.
                let applied = if boomed {
                    vals.iter().rposition(|v| *v == got)
                } else {
                    Some(whole).filter(|n| vals[*n] == got)
                };
                let applied = match applied {
                    Some(n) => n,
                    None => {
                        ctx.check(&[26], false, "half-applied", || {
                            let n = if boomed { 0 } else { whole };
                            format!("{} gave {:?} ({} whole entries): {}", what(), res.map_err(|_| "panic"), whole, same_val(&got, &vals[n]))
                        })?;
                        unreachable!()
                    }
                };
                ctx.count("entries applied", applied as u64);
                self.val = got;
                self.sound(&what(), ctx)?;
                // The rest arrives.
                if known {
                    let r = self.obj.replay(&mut &bytes[ends[applied]..]);
                    let (got, want) = (self.obj.obs(), vals.last().unwrap());
                    ctx.check(&[26, 5], r.is_ok() && got == *want, "rest-wrong", || {
                        format!("after {}, the rest gave {:?}: {}", what(), r, same_val(&got, want))
                    })?;
                    self.val = got;
                }
                self.join(ctx)?;
                self.follow(&what(), ctx)?;
            }
            UnwindEv::Look { after } => {
                if let Some(after) = after {
                    fuse::arm(*after);
                }
                let r = guarded(|| self.obj.look());
                let boomed = after.is_some() && !fuse::disarm();
                ctx.count("fault: callback panicked", boomed as u64);
                ctx.check(&[26], boomed || r.is_ok(), "unusable", || {
                    format!("looking at the state panicked: {}", r.unwrap_err())
                })?;
                self.follow(&what(), ctx)?;
            }
            UnwindEv::Attach { wrap } => {
                self.attach(*wrap);
                self.follow(&what(), ctx)?;
            }
            UnwindEv::Join => {
                self.join(ctx)?;
                self.follow(&what(), ctx)?;
            }
        }
        Ok(())
    }

    fn attach(&mut self, wrap: usize) {
        let (rt, rec) = rec_runtime(wrap);
        self.obj.set_runtime(rt.clone());
        self.rt = rt;
        self.rec = rec;
        self.seen = 0;
        self.poisoned = false;
    }

    fn join(&mut self, ctx: &mut Ctx) -> Res {
        let bytes = self.obj.to_bytes();
        match (self.schema.load)(&mut &*bytes) {
            Ok(x) => {
                self.follower = x;
                Ok(())
            }
            Err(e) => ctx.check(&[26, 2], false, "unusable", || format!("the snapshot {} is rejected: {}", hex(&bytes), e)),
        }
    }

    /// The state is what it was, plus the entries that the log took.
    fn follow(&mut self, what: &str, ctx: &mut Ctx) -> Res {
        let ty = &self.schema.ty;
        let calls = {
            let s = self.rec.0.lock().unwrap();
            let calls = s.calls[self.seen..].to_vec();
            self.seen = s.calls.len();
            calls
        };
        for e in calls.iter().flat_map(|c| &c.entries) {
            ctx.note(e);
            let ok = ref_entry(ty, &mut self.val, e).is_ok();
            ctx.check(&[26, 1], ok, "bad-entry", || format!("{} logged {}", what, hex(e)))?;
            let r = self.follower.replay(&mut &**e);
            ctx.check(&[26, 1], r.is_ok(), "replay-failed", || format!("{} logged {}: {:?}", what, hex(e), r))?;
        }
        ctx.check(&[26], !self.obj.is_root() || self.rt.is_root(), "moved", || what.to_string())?;
        let got = self.obj.obs();
        ctx.check(&[26], got == self.val, "state-and-log-apart", || {
            format!("after {}, whose logged entries are {:?}: {}", what, calls, same_val(&got, &self.val))
        })?;
        let got = self.follower.obs();
        ctx.check(&[26], got == self.val, "replica-diverged", || {
            format!("after {}, a replica: {}", what, same_val(&got, &self.val))
        })?;
        self.sound(what, ctx)
    }

    /// It can be written, sized and read back.
    fn sound(&mut self, what: &str, ctx: &mut Ctx) -> Res {
        let size = self.obj.compute_size();
        let bytes = self.obj.to_bytes();
        ctx.note(&(bytes.len() as u32).to_le_bytes());
        ctx.check(&[26, 9], size as usize == bytes.len(), "size-wrong", || {
            format!("after {}, the state says it takes {} bytes and takes {}", what, size, bytes.len())
        })?;
        let again = match (self.schema.load)(&mut &*bytes) {
            Ok(x) => x,
            Err(e) => {
                ctx.check(&[26, 2], false, "unusable", || format!("after {}, {} is rejected: {}", what, hex(&bytes), e))?;
                unreachable!()
            }
        };
        let got = again.obs();
        ctx.check(&[26, 2], got == self.val && again.same(&*self.obj), "reload-wrong", || {
            format!("after {}, {}: {}", what, hex(&bytes), same_val(&got, &self.val))
        })
    }
}

/// A merge that was left halfway has only added and updated; what it is said to lose otherwise.
fn between(ty: &Ty, old: &Val, merged: &Val, got: &Val) -> Result<(), &'static str> {
    match (ty, old, merged, got) {
        (Ty::List(_), Val::L(a), _, Val::L(c)) if c.len() < a.len() || c[..a.len()] != a[..] => Err("a list item"),
        (Ty::List(_), ..) => Ok(()),
        (Ty::Map(_, t), Val::M(a), Val::M(b), Val::M(c)) => {
            for (k, x) in a {
                match (b.get(k), c.get(k)) {
                    (_, None) => return Err("a map entry"),
                    (None, Some(z)) if x != z => return Err("a value that was not updated"),
                    (None, _) => {}
                    (Some(y), Some(z)) => between(t, x, y, z)?,
                }
            }
            match c.keys().any(|k| !a.contains_key(k) && !b.contains_key(k)) {
                true => Err("a map"),
                false => Ok(()),
            }
        }
        (_, Val::E(a, xs), Val::E(b, ys), Val::E(c, zs)) => {
            if c != a && c != b {
                return Err("a variant");
            }
            if a != b || a != c {
                return Ok(());
            }
            let v = ty.variants().and_then(|vs| vs.iter().find(|v| v.tag == *a)).expect("a variant");
            for (i, f) in v.fields.iter().enumerate() {
                between(&f.ty, &xs[i], &ys[i], &zs[i])?;
            }
            Ok(())
        }
        (Ty::Def(_), Val::L(xs), Val::L(ys), Val::L(zs)) => {
            for (i, f) in ty.fields().expect("fields").iter().enumerate() {
                between(&f.ty, &xs[i], &ys[i], &zs[i])?;
            }
            Ok(())
        }
        _ if ty.is_varint() && got != old && got != merged => Err("a number"),
        _ => Ok(()),
    }
}
