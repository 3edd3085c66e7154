//! C24: runtime handles are derived from one another, passed around, logged through and dropped.

use std::io;

use model::*;
use schemas::*;
use serde::{Deserialize, Serialize};
use steit::{
    log::{LogEntry, LogEntryKind},
    rt::Runtime,
};

use crate::cluster::{pick_schema, simpler_act};
use crate::core::*;
use crate::io::steps;
use crate::streams::{draw_op, gen_for, KINDS};

/// What to log.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    Update { kind: usize, val: Val, child: Option<u32> },
    Push { kind: usize, val: Val },
    Pop,
    Remove { key: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HandleEv {
    /// A log of its own, behind a new root.
    Root { wrap: usize },
    /// How: 0 nested, 1 parent, 2 sibling, 3 clone, 4 muted.
    Derive { from: usize, how: u8, number: u32 },
    /// Two places next to each other whose numbers, taken together, are easily confused.
    Alike { from: usize, numbers: [u32; 2], apart: u32 },
    Drop { which: usize },
    Log { at: usize, what: What },
    /// An entry is built, and kept.
    Build { at: usize, what: What },
    /// A kept entry is handed over through some handle.
    Put { via: usize, which: usize },
    /// So are several at once.
    PutAll { via: usize, n: usize },
    Pause { at: usize },
    /// Many times.
    Pauses { at: usize, times: u32, resume: bool },
    Unpause { at: usize },
    Replace { at: usize },
    /// The log refuses the call after so many.
    Refuse { at: usize, after: usize, kind: u8 },
    Look { at: usize },
    /// A state object at the place of a handle.
    New { at: usize, schema: String },
    Op { which: usize, path: Vec<u32>, act: Act },
    /// It's moved to the place of another handle.
    Move { which: usize, at: usize },
    /// Somebody replays a log into it.
    Replay { which: usize },
    Discard { which: usize },
}

struct Root {
    rec: Rec,
    /// `None` if this is where muted handles log to.
    replace: Option<Box<dyn Fn(Rec) -> Rec>>,
    paused: u32,
    /// How many calls were looked at.
    seen: usize,
}

#[derive(Clone)]
struct Handle {
    rt: Runtime,
    root: usize,
    path: Vec<u32>,
}

#[derive(Clone, Debug)]
struct Want {
    kind: u32,
    path: Vec<u32>,
    key: u32,
    val: Option<(usize, Val)>,
}

struct Thing {
    obj: Box<dyn Obj>,
    schema: &'static Schema,
    val: Val,
    root: usize,
    path: Vec<u32>,
}

pub struct Handles;

impl Scenario for Handles {
    const NAME: &'static str = "handles";
    type Ev = HandleEv;

    fn run(src: &mut Src<HandleEv>, ctx: &mut Ctx) -> Res {
        let mut gen = gen_for(ctx.seed);
        gen.knobs.foreign = true;
        let shape = mix(ctx.seed ^ 0x73) as usize;
        src.limit(match ctx.tier {
            Tier::Quick => [15, 40, 80][shape % 3],
            Tier::Thorough => [20, 100, 400][shape % 3],
        });
        let mut roots = Vec::new();
        let mut handles = Vec::new();
        let mut kept: Vec<(LogEntry, Want)> = Vec::new();
        let mut things: Vec<Thing> = Vec::new();
        new_root(shape >> 8, &mut roots, &mut handles);
        let mut cx = Cx::new();
        loop {
            let ev = {
                let (gen, handles, kept, things) = (&mut gen, &handles, kept.len(), &things);
                src.next(|rng| draw(rng, gen, handles, kept, things, ctx.seed))
            };
            let ev = match ev {
                Some(ev) => ev,
                None => break,
            };
            if ctx.verbose {
                println!("{}", brief(&ev));
            }
            ctx.tick(5);
            cx.forget(4);
            if handles.is_empty() {
                new_root(0, &mut roots, &mut handles);
            }
            let n = handles.len();
            match ev {
                HandleEv::Root { wrap } => new_root(wrap, &mut roots, &mut handles),
                HandleEv::Derive { from, how, number } => {
                    let h = &handles[from % n];
                    let mut path = h.path.clone();
                    let mut root = h.root;
                    let rt = match how {
                        0 => {
                            path.push(number);
                            h.rt.nested(number)
                        }
                        1 | 2 if path.is_empty() => continue,
                        1 => {
                            path.pop();
                            h.rt.parent()
                        }
                        2 => {
                            *path.last_mut().unwrap() = number;
                            h.rt.sibling(number)
                        }
                        3 => h.rt.clone(),
                        5..=7 => {
                            // A long way down, a step at a time.
                            let mut rt = h.rt.clone();
                            let base = path.len();
                            for i in 0..[40, 256, 300][how as usize - 5] {
                                path.push(number.wrapping_add(i % 3));
                                rt = rt.nested(number.wrapping_add(i % 3));
                                if i % 16 == 15 {
                                    look(&Handle { rt: rt.clone(), root, path: path.clone() }, ctx)?;
                                }
                            }
                            ctx.count("steps down", (path.len() - base) as u64);
                            rt
                        }
                        _ => {
                            root = roots.len();
                            roots.push(Root { rec: Rec::default(), replace: None, paused: 0, seen: 0 });
                            h.rt.muted()
                        }
                    };
                    handles.push(Handle { rt, root, path });
                    look(handles.last().unwrap(), ctx)?;
                    ctx.count("handles derived", 1);
                }
                HandleEv::Alike { from, numbers: [a, b], apart } => {
                    let h = &handles[from % n];
                    let (root, base) = (h.root, h.path.clone());
                    let top = [a, if apart == 0 { b } else { a.wrapping_add(1) }];
                    let rts = [h.rt.nested(top[0]), h.rt.nested(top[1])];
                    let last = if apart == 0 { [b, a] } else { [b.wrapping_add(apart), b] };
                    let mut both = Vec::new();
                    for i in 0..2 {
                        let mut path = base.clone();
                        path.extend([top[i], last[i]]);
                        both.push(Handle { rt: rts[i].nested(last[i]), root, path });
                    }
                    for h in both {
                        look(&h, ctx)?;
                        handles.push(h);
                        ctx.count("handles derived", 1);
                    }
                }
                HandleEv::Drop { which } => {
                    let h = handles.swap_remove(which % n);
                    drop(h);
                }
                HandleEv::Look { at } => look(&handles[at % n], ctx)?,
                HandleEv::Log { at, what } => {
                    let h = &handles[at % n];
                    let w = want(&h.path, &what);
                    let r = log(&h.rt, &what);
                    settle(&mut roots[h.root], vec![w], false, r, ctx)?;
                }
                HandleEv::Build { at, what } => {
                    let h = &handles[at % n];
                    let w = want(&h.path, &what);
                    let e = entry(&h.rt, &what);
                    let kind = match e.kind() {
                        LogEntryKind::Update => wire::UPDATE,
                        LogEntryKind::ListPush => wire::PUSH,
                        LogEntryKind::ListPop => wire::POP,
                        LogEntryKind::MapRemove => wire::REMOVE,
                    };
                    ctx.check(&[24], kind == w.kind, "kind-wrong", || format!("{:?} for {:?}", e, w))?;
                    if kept.len() > 6 {
                        kept.remove(0);
                    }
                    kept.push((e, w));
                }
                HandleEv::Put { via, which } => {
                    if kept.is_empty() {
                        continue;
                    }
                    let h = &handles[via % n];
                    let (e, w) = kept.swap_remove(which % kept.len());
                    let r = h.rt.log(e);
                    settle(&mut roots[h.root], vec![w], false, r, ctx)?;
                }
                HandleEv::PutAll { via, n: some } => {
                    let h = &handles[via % n];
                    let (es, ws): (Vec<_>, Vec<_>) = kept.drain(..some.min(kept.len())).unzip();
                    let r = h.rt.log_multi(es);
                    settle(&mut roots[h.root], ws, true, r, ctx)?;
                    ctx.count("handed over together", 1);
                }
                HandleEv::Pause { at } => {
                    let h = &handles[at % n];
                    let root = &mut roots[h.root];
                    root.paused += 1;
                    let got = h.rt.pause_logger();
                    ctx.check(&[24, 15], got == root.paused, "pauses-wrong", || {
                        format!("paused {} times, the call says {}", root.paused, got)
                    })?;
                    ctx.count("pauses", 1);
                }
                HandleEv::Pauses { at, times, resume } => {
                    let h = &handles[at % n];
                    let root = &mut roots[h.root];
                    for _ in 0..times {
                        root.paused = if resume { root.paused.saturating_sub(1) } else { root.paused + 1 };
                        let got = if resume { h.rt.unpause_logger() } else { h.rt.pause_logger() };
                        ctx.check(&[24, 15], got == root.paused, "pauses-wrong", || {
                            format!("{} pauses in force, the call says {}", root.paused, got)
                        })?;
                    }
                    ctx.count("pauses", times as u64);
                }
                HandleEv::Unpause { at } => {
                    let h = &handles[at % n];
                    let root = &mut roots[h.root];
                    root.paused = root.paused.saturating_sub(1);
                    let got = h.rt.unpause_logger();
                    ctx.check(&[24, 15], got == root.paused, "pauses-wrong", || {
                        format!("{} pauses left, the call says {}", root.paused, got)
                    })?;
                }
                HandleEv::Replace { at } => {
                    let root = &mut roots[handles[at % n].root];
                    if let Some(replace) = &root.replace {
                        root.rec = replace(Rec::default());
                        root.seen = 0;
                        ctx.count("loggers replaced", 1);
                    }
                }
                HandleEv::Refuse { at, after, kind } => {
                    let mut s = roots[handles[at % n].root].rec.0.lock().unwrap();
                    let at = s.calls.len() + after;
                    s.refuse.push((at, KINDS[kind as usize % KINDS.len()]));
                }
                HandleEv::New { at, schema } => {
                    let h = &handles[at % n];
                    if things.len() < 3 {
                        let schema = by_name(&schema);
                        things.push(Thing {
                            obj: (schema.new)(h.rt.clone()),
                            schema,
                            val: schema.ty.default(),
                            root: h.root,
                            path: h.path.clone(),
                        });
                        placed(things.last().unwrap(), ctx)?;
                    }
                }
                HandleEv::Move { which, at } => {
                    if things.is_empty() {
                        continue;
                    }
                    let i = which % things.len();
                    let (t, h) = (&mut things[i], &handles[at % n]);
                    t.obj.set_runtime(h.rt.clone());
                    t.root = h.root;
                    t.path = h.path.clone();
                    ctx.count("objects moved", 1);
                    placed(t, ctx)?;
                }
                HandleEv::Discard { which } => {
                    if !things.is_empty() {
                        let i = which % things.len();
                        things.swap_remove(i);
                    }
                }
                HandleEv::Replay { which } => {
                    if things.is_empty() {
                        continue;
                    }
                    let i = which % things.len();
                    let t = &mut things[i];
                    if t.path.is_empty() {
                        continue;
                    }
                    let mut e = wire::Entry::new(wire::UPDATE, Vec::new());
                    e.value = wire::encode(&t.schema.ty, &t.val);
                    let r = t.obj.replay(&mut &*e.bytes());
                    ctx.check(&[24], r.is_err(), "replayed-below-root", || {
                        format!("an object at {:?} took the entries of a log for its own", t.path)
                    })?;
                }
                HandleEv::Op { which, path, act } => {
                    if things.is_empty() {
                        continue;
                    }
                    let i = which % things.len();
                    operate(&mut things[i], &mut roots, &path, &act, &mut cx, ctx)?;
                }
            }
            for (i, root) in roots.iter().enumerate() {
                let s = root.rec.0.lock().unwrap();
                ctx.check(&[24], s.calls.len() == root.seen, "logged-elsewhere", || {
                    format!("log {} received {:?} out of nowhere", i, &s.calls[root.seen..])
                })?;
            }
            for t in &things {
                let got = t.obj.obs();
                ctx.check(&[24], got == t.val, "changed-by-another", || {
                    format!("the state at {:?}: {}", t.path, same_val(&got, &t.val))
                })?;
            }
            let leaked = cx.leaked();
            ctx.check(&[24, 3], leaked.is_none(), "logged-elsewhere", || {
                format!("the log of a runtime that a value was built under went on: {:?}", leaked)
            })?;
        }
        Ok(())
    }

    fn simpler(ev: &HandleEv) -> Vec<HandleEv> {
        let plain = || What::Update { kind: 0, val: framed()[0].ty.default(), child: None };
        match ev {
            HandleEv::Log { at, what } if !matches!(what, What::Update { kind: 0, child: None, .. }) => {
                vec![HandleEv::Log { at: *at, what: plain() }]
            }
            HandleEv::Build { at, what } if !matches!(what, What::Update { kind: 0, child: None, .. }) => {
                vec![HandleEv::Build { at: *at, what: plain() }]
            }
            HandleEv::Op { which, path, act } => simpler_act(act)
                .into_iter()
                .map(|act| HandleEv::Op { which: *which, path: path.clone(), act })
                .collect(),
            HandleEv::Derive { from, how, number } if *how >= 5 => (*how == 5)
                .then(|| 0)
                .into_iter()
                .chain(5..*how)
                .map(|how| HandleEv::Derive { from: *from, how, number: *number })
                .collect(),
            HandleEv::Derive { from, how, number } if *number > 1 => {
                vec![HandleEv::Derive { from: *from, how: *how, number: 1 }]
            }
            _ => Vec::new(),
        }
    }
}

fn new_root(wrap: usize, roots: &mut Vec<Root>, handles: &mut Vec<Handle>) {
    let (rt, rec, replace) = rec_slot(wrap);
    handles.push(Handle { rt, root: roots.len(), path: Vec::new() });
    roots.push(Root { rec, replace: Some(replace), paused: 0, seen: 0 });
}

/// The handle knows where it is.
fn look(h: &Handle, ctx: &mut Ctx) -> Res {
    let node = h.rt.path();
    let got = node.collect_values();
    let last = h.path.last();
    let parent = node.get_parent().map(|p| p.collect_values());
    let ok = got == h.path
        && h.rt.is_root() == h.path.is_empty()
        && h.rt.is_child() != h.path.is_empty()
        && h.rt.get_field_number() == last.copied()
        && node.get_value() == last
        && parent.as_deref() == last.map(|_| &h.path[..h.path.len() - 1])
        && last.map_or(true, |n| h.rt.field_number() == *n && node.value() == n);
    let _ = format!("{:?}", h.rt);
    ctx.check(&[24], ok, "place-wrong", || format!("the handle of {:?} says {:?}, {:?}", h.path, got, h.rt))
}

fn placed(t: &Thing, ctx: &mut Ctx) -> Res {
    let ok = t.obj.is_root() == t.path.is_empty();
    ctx.check(&[24, 3], ok, "place-wrong", || format!("a {} at {:?} says whether it is the root", t.schema.name, t.path))
}

fn want(path: &[u32], what: &What) -> Want {
    let path = path.to_vec();
    match what {
        What::Update { kind, val, child } => Want {
            kind: wire::UPDATE,
            path: path.into_iter().chain(*child).collect(),
            key: 0,
            val: Some((*kind, val.clone())),
        },
        What::Push { kind, val } => Want { kind: wire::PUSH, path, key: 0, val: Some((*kind, val.clone())) },
        What::Pop => Want { kind: wire::POP, path, key: 0, val: None },
        What::Remove { key } => Want { kind: wire::REMOVE, path, key: *key, val: None },
    }
}

fn entry(rt: &Runtime, what: &What) -> LogEntry {
    match what {
        What::Update { kind, val, child } => (framed()[*kind].entry)(val, rt, false, *child),
        What::Push { kind, val } => (framed()[*kind].entry)(val, rt, true, None),
        What::Pop => rt.entry_list_pop(),
        What::Remove { key } => rt.entry_map_remove(*key),
    }
}

fn log(rt: &Runtime, what: &What) -> io::Result<()> {
    match what {
        What::Update { kind, val, child } => (framed()[*kind].log)(val, rt, false, *child),
        What::Push { kind, val } => (framed()[*kind].log)(val, rt, true, None),
        What::Pop => rt.log_list_pop(),
        What::Remove { key } => rt.log_map_remove(*key),
    }
}

fn matches(w: &Want, bytes: &[u8]) -> bool {
    let mut r = wire::Rd::new(bytes);
    let e = match r.sized().and_then(wire::Entry::decode) {
        Ok(e) => e,
        Err(_) => return false,
    };
    e.kind == w.kind
        && e.path == w.path
        && e.key == w.key
        && match &w.val {
            Some((kind, val)) => wire::decode(&framed()[*kind].ty, &e.value).as_ref() == Ok(val),
            None => e.value.is_empty(),
        }
}

/// What was handed over arrived, at the right log and nowhere else.
fn settle(root: &mut Root, wants: Vec<Want>, together: bool, r: io::Result<()>, ctx: &mut Ctx) -> Res {
    let s = root.rec.0.lock().unwrap();
    let calls = &s.calls[root.seen..];
    for bytes in calls.iter().flat_map(|c| &c.entries) {
        ctx.note(bytes);
    }
    if root.replace.is_none() || root.paused > 0 {
        ctx.check(&[24, 15], r.is_ok() && calls.is_empty(), "not-muted", || {
            format!("{:?} while muted or paused gave {:?}, and logged {:?}", wants, r, calls)
        })?;
        return Ok(());
    }
    let refused = s.refuse.iter().find(|(at, _)| (root.seen..s.calls.len()).contains(at)).map(|(_, kind)| *kind);
    if let Some(kind) = refused {
        ctx.count("fault: append refused", 1);
        ctx.check(&[24, 10], r.as_ref().err().map(|e| e.kind()) == Some(kind), "refusal-hidden", || {
            format!("the log refused {:?} with {:?}, the caller got {:?}", wants, kind, r)
        })?;
    } else {
        ctx.check(&[24], r.is_ok(), "log-failed", || format!("{:?} gave {:?}", wants, r))?;
    }
    let got: Vec<_> = calls.iter().flat_map(|c| &c.entries).collect();
    let ok = got.len() == wants.len()
        && got.iter().zip(&wants).all(|(bytes, w)| matches(w, bytes))
        && (!together || wants.len() < 2 || calls.len() == 1);
    ctx.check(&[24, 11], ok, "entry-wrong", || format!("instead of {:?}, {:?} arrived", wants, calls))?;
    ctx.count("entries logged", got.len() as u64);
    drop(s);
    root.seen = root.rec.0.lock().unwrap().calls.len();
    Ok(())
}

/// Mutates an object that isn't the root of anything, maybe.
fn operate(t: &mut Thing, roots: &mut [Root], path: &[u32], act: &Act, cx: &mut Cx, ctx: &mut Ctx) -> Res {
    let ty = &t.schema.ty;
    let mut after = t.val.clone();
    let effs = match apply(ty, &mut after, path, act) {
        Some(effs) => effs,
        None => return Ok(()),
    };
    let root = &mut roots[t.root];
    let r = guarded(|| t.obj.act(path, act, cx));
    let s = root.rec.0.lock().unwrap();
    let calls = s.calls[root.seen..].to_vec();
    root.seen = s.calls.len();
    drop(s);
    let what = || format!("{} at {:?} of the object at {:?}", brief(act), path, t.path);
    if root.replace.is_none() || root.paused > 0 {
        ctx.check(&[24, 15], calls.is_empty(), "not-muted", || format!("{} while muted or paused logged {:?}", what(), calls))?;
    }
    let mut shadow = t.val.clone();
    let mut ok = true;
    for bytes in calls.iter().filter(|c| !c.refused).flat_map(|c| &c.entries) {
        ctx.note(bytes);
        let e = wire::Rd::new(bytes).sized().and_then(wire::Entry::decode);
        ok &= match e {
            Ok(mut e) if e.path.starts_with(&t.path) => {
                e.path.drain(..t.path.len());
                wire::apply_entry(ty, &mut shadow, &e).is_ok()
            }
            _ => false,
        };
    }
    ctx.check(&[24, 3], ok, "entry-wrong", || format!("{} logged {:?}", what(), calls))?;
    let got = t.obj.obs();
    if calls.iter().any(|c| c.refused) {
        ctx.count("fault: append refused", 1);
        ctx.check(&[24, 10], r.is_err() && got == shadow, "refused-but-applied", || {
            format!("{}: {:?}, {}", what(), r, same_val(&got, &shadow))
        })?;
    } else {
        ctx.check(&[24, 1], r == Ok(true) && got == after, "mutation-wrong", || {
            format!("{}: {:?}, {}", what(), r, same_val(&got, &after))
        })?;
        let logs = root.replace.is_some() && root.paused == 0;
        let logged_all = steps(ty, &t.val, &effs).pop().unwrap() == after;
        ctx.check(&[24, 1], !logs || !logged_all || shadow == after, "not-logged", || {
            format!("{} logged {:?}, which gives: {}", what(), calls, same_val(&shadow, &after))
        })?;
    }
    t.val = got;
    ctx.count("mutations", 1);
    Ok(())
}

fn draw_what(rng: &mut Rng, gen: &mut Gen) -> What {
    let all = framed();
    let kind = rng.below(all.len());
    match rng.below(8) {
        0 => What::Pop,
        1 => What::Remove { key: number(rng) },
        2 | 3 => What::Push { kind, val: gen.value(&all[kind].ty) },
        _ => What::Update {
            kind,
            val: gen.value(&all[kind].ty),
            child: if rng.pct(40) { Some(number(rng)) } else { None },
        },
    }
}

fn number(rng: &mut Rng) -> u32 {
    match rng.below(4) {
        0 => *rng.pick(&[127, 128, 255, 256, 16383, 16384, 65535, 65536, FIELD_MAX, FIELD_MAX - 1]),
        _ => rng.below(12) as u32,
    }
}

fn draw(rng: &mut Rng, gen: &mut Gen, handles: &[Handle], kept: usize, things: &[Thing], seed: u64) -> HandleEv {
    // Recent ones more often, so that some get deep.
    let n = handles.len().max(1);
    let at = if rng.pct(50) { n - 1 } else { rng.below(n) };
    let which = rng.below(things.len().max(1));
    let few = (n < 3) as u32;
    let crowd = (n > 12) as u32;
    match rng.weighted(&[2, 18 + 30 * few, 8 + 30 * crowd, 20, 8, if kept > 0 { 8 } else { 0 }, 5, 3, 4, 2, 3, 3, 4, 16, 4, 2, 1]) {
        0 => HandleEv::Root { wrap: rng.below(4) },
        1 if rng.below(12) == 0 => HandleEv::Alike {
            from: at,
            numbers: [rng.below(4) as u32, number(rng)],
            apart: match rng.below(4) {
                0 => 0,
                // What hashes multiply by.
                1 => 1 << rng.range(1, 20),
                2 => *rng.pick(&[31, 33, 37, 53, 101, 131, 257, 1009, 1021, 1313, 4093, 16_777_619, 65_599, 1_000_003]),
                _ => rng.range(2, 300) as u32,
            },
        },
        1 => HandleEv::Derive {
            from: at,
            how: if rng.below(150) == 0 { 5 + rng.below(3) as u8 } else { *rng.pick(&[0, 0, 0, 0, 1, 1, 2, 2, 3, 4]) },
            number: number(rng),
        },
        2 => HandleEv::Drop { which: at },
        3 => HandleEv::Log { at, what: draw_what(rng, gen) },
        4 => HandleEv::Build { at, what: draw_what(rng, gen) },
        5 => HandleEv::Put { via: at, which: rng.below(kept) },
        6 => HandleEv::PutAll { via: at, n: rng.below(5) },
        7 | 8 if rng.below(200) == 0 => HandleEv::Pauses {
            at,
            times: *rng.pick(&[260, 260, 260, 66_000]),
            resume: rng.pct(40),
        },
        7 => HandleEv::Pause { at },
        8 => HandleEv::Unpause { at },
        9 => HandleEv::Replace { at },
        10 => HandleEv::Refuse { at, after: rng.below(3), kind: rng.below(KINDS.len()) as u8 },
        11 => HandleEv::Look { at },
        12 => HandleEv::New { at, schema: pick_schema(seed ^ rng.below(1000) as u64).name.to_string() },
        13 => match things.get(which) {
            Some(t) => match draw_op(gen, &t.schema.ty, &t.val) {
                Some((path, act)) => HandleEv::Op { which, path, act },
                None => HandleEv::Look { at },
            },
            None => HandleEv::New { at, schema: pick_schema(seed).name.to_string() },
        },
        14 => HandleEv::Move { which, at },
        15 => HandleEv::Replay { which },
        _ => HandleEv::Discard { which },
    }
}
