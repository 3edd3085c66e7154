//! C22: values are taken out of states, held, and put in elsewhere.

use model::*;
use schemas::*;
use serde::{Deserialize, Serialize};

use crate::cluster::{pick_schema, simpler_act};
use crate::core::*;
use crate::io::{draw_pace, steps, Pace, Sink};
use crate::streams::{draw_op, gen_for, ref_entry};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MoveEv {
    /// A mutation; of one of the values held, if its value is `How::Held`. That may be a copy.
    Op { who: usize, path: Vec<u32>, act: Act, held: usize, copy: bool },
    /// A held value is mutated.
    Held { held: usize, path: Vec<u32>, act: Act },
    /// A held value is looked at, written, copied, rebuilt or let go.
    Touch { held: usize, how: u8, pace: Option<Pace> },
    /// The logger of an object refuses what it is handed next.
    Refuse { who: usize, after: usize },
    /// An object crashes, and starts over from its log or a snapshot.
    Restart { who: usize, snapshot: bool },
}

struct Home {
    obj: Box<dyn Obj>,
    rec: Rec,
    val: Val,
    /// What it started from, and everything its loggers accepted since.
    base: Val,
    log: Vec<u8>,
    seen: usize,
}

struct Held {
    obj: Box<dyn Obj>,
    ty: Ty,
    val: Val,
}

pub struct Moves;

impl Scenario for Moves {
    const NAME: &'static str = "moves";
    type Ev = MoveEv;

    fn run(src: &mut Src<MoveEv>, ctx: &mut Ctx) -> Res {
        let schema = pick(ctx.seed);
        let ty = &schema.ty;
        let mut gen = gen_for(ctx.seed);
        let shape = mix(ctx.seed ^ 0x73) as usize;
        let faulty = shape & 7 < 3;
        let n = 1 + (shape >> 8) % 3;
        src.limit(match ctx.tier {
            Tier::Quick => [10, 25, 50][shape % 3],
            Tier::Thorough => [15, 60, 200][shape % 3],
        });
        let mut homes: Vec<Home> = (0..n)
            .map(|i| {
                let (rt, rec) = rec_runtime((shape >> 9) + i);
                let obj = (schema.new)(rt);
                let val = ty.default();
                Home { obj, rec, base: val.clone(), val, log: Vec::new(), seen: 0 }
            })
            .collect();
        let mut pool: Vec<Held> = Vec::new();
        let mut cx = Cx::new();
        cx.keep = true;
        ctx.note(schema.name.as_bytes());
        loop {
            let ev = {
                let (gen, homes, pool) = (&mut gen, &homes, &pool);
                src.next(|rng| draw(rng, gen, ty, homes, pool, faulty))
            };
            let ev = match ev {
                Some(ev) => ev,
                None => break,
            };
            if ctx.verbose {
                println!("{}", brief(&ev));
            }
            ctx.tick(10);
            cx.forget(4);
            match ev {
                MoveEv::Op { who, path, act, held, copy } => {
                    let home = &mut homes[who % n];
                    let what = format!("{} at {:?}", brief(&act), path);
                    let mut after = home.val.clone();
                    let effs = match apply(ty, &mut after, &path, &act) {
                        Some(effs) => effs,
                        None => continue,
                    };
                    let out = handed_out(ty, &home.val, &path, &act);
                    cx.offer = None;
                    if let Some((fresh, t)) = putting(ty, &home.val, &path, &act) {
                        match pool.get(held) {
                            Some(h) if h.val == fresh && h.ty == t => {
                                cx.offer = Some(if copy { h.obj.clone_obj() } else { pool.swap_remove(held).obj });
                                ctx.count(if copy { "values copied in" } else { "values moved in" }, 1);
                            }
                            _ => continue,
                        }
                    }
                    cx.given = None;
                    cx.index = None;
                    let before = home.rec.0.lock().unwrap().calls.len();
                    let r = guarded(|| home.obj.act(&path, &act, &mut cx));
                    // Types that look the same on the wire aren't the same.
                    if let (Some(obj), Some((val, ty))) = (cx.offer.take(), putting(ty, &home.val, &path, &act)) {
                        if !copy {
                            pool.push(Held { obj, ty, val });
                        }
                    }
                    let calls = home.rec.0.lock().unwrap().calls[before..].to_vec();
                    let mut shadow = home.val.clone();
                    let mut ok = true;
                    for bytes in calls.iter().filter(|c| !c.refused).flat_map(|c| &c.entries) {
                        ctx.note(bytes);
                        ok &= ref_entry(ty, &mut shadow, bytes).is_ok();
                    }
                    ctx.check(&[22], ok, "bad-entry", || format!("{} logged {:?}", what, calls))?;
                    if calls.iter().any(|c| c.refused) {
                        ctx.count("fault: append refused", 1);
                        ctx.check(&[22, 10], r.is_err(), "refusal-hidden", || {
                            format!("the logger refused an entry of {}, and the call returned normally", what)
                        })?;
                        let got = home.obj.obs();
                        ctx.check(&[22, 10], got == shadow, "refused-but-applied", || {
                            format!("the logger refused an entry of {}: {}", what, same_val(&got, &shadow))
                        })?;
                        home.val = got;
                    } else {
                        ctx.check(&[22], r == Ok(true), "mutation-failed", || format!("{}: {:?}", what, r))?;
                        let got = home.obj.obs();
                        ctx.check(&[1, 22], got == after, "mutation-wrong", || {
                            format!("{}: {}", what, same_val(&got, &after))
                        })?;
                        let logged_all = steps(ty, &home.val, &effs).pop().unwrap() == after;
                        ctx.check(&[1, 22], !logged_all || shadow == after, "not-logged", || {
                            format!("{} logged {:?}, which gives: {}", what, calls, same_val(&shadow, &after))
                        })?;
                        if let Some((out, t)) = out {
                            let given = cx.given.take();
                            let got = given.map(|g| g.map(|g| (g.obs(), g)));
                            let val = got.as_ref().map(|g| g.as_ref().map(|g| g.0.clone()));
                            ctx.check(&[22], val == Some(out.clone()), "handed-out-wrong", || {
                                format!("{} of {} gave {}, and there was {}", what, brief(&home.val), brief(&val), brief(&out))
                            })?;
                            if let Some(Some((val, obj))) = got {
                                if pool.len() > 7 {
                                    pool.remove(0);
                                }
                                pool.push(Held { obj, ty: t, val });
                                ctx.count("values taken out", 1);
                            }
                        }
                        if let (Act::Push { .. }, Some((_, Val::L(xs)))) = (&act, node(ty, &mut home.val, &path)) {
                            let len = xs.len();
                            ctx.check(&[22], cx.index == Some(len), "index-wrong", || {
                                format!("{} returned {:?} where {} items were", what, cx.index, len)
                            })?;
                        }
                        home.val = after;
                    }
                    let mut s = home.rec.0.lock().unwrap();
                    let len = s.calls.len();
                    home.seen = len;
                    home.log.extend(calls.iter().filter(|c| !c.refused).flat_map(|c| c.entries.concat()));
                    s.refuse.retain(|(at, _)| *at >= len);
                }
                MoveEv::Held { held, path, act } => {
                    let h = match pool.get_mut(held) {
                        Some(h) => h,
                        None => continue,
                    };
                    let mut after = h.val.clone();
                    if putting(&h.ty, &h.val, &path, &act).is_some() || apply(&h.ty, &mut after, &path, &act).is_none() {
                        continue;
                    }
                    let out = handed_out(&h.ty, &h.val, &path, &act);
                    cx.given = None;
                    let r = guarded(|| h.obj.act(&path, &act, &mut cx));
                    let got = h.obj.obs();
                    ctx.check(&[22, 1], r == Ok(true) && got == after, "mutation-wrong", || {
                        format!("{} at {:?} of what was taken out: {:?}, {}", brief(&act), path, r, same_val(&got, &after))
                    })?;
                    let given = cx.given.take().map(|g| g.map(|g| g.obs()));
                    if let Some((out, _)) = out {
                        ctx.check(&[22], given == Some(out.clone()), "handed-out-wrong", || {
                            format!("{} gave {}, and there was {}", brief(&act), brief(&given), brief(&out))
                        })?;
                    }
                    h.val = after;
                    ctx.count("mutations of held values", 1);
                }
                MoveEv::Touch { held, how, pace } => {
                    let h = match pool.get_mut(held) {
                        Some(h) => h,
                        None => continue,
                    };
                    match how {
                        0 => h.obj.look(),
                        1 => {
                            let bytes = h.obj.to_bytes();
                            let want = wire::encode(&h.ty, &h.val);
                            ctx.check(&[22, 9], wire::decode(&h.ty, &bytes).as_ref() == Ok(&h.val), "held-bytes", || {
                                format!("what was taken out has the bytes {:?}, should be {:?}", bytes, want)
                            })?;
                        }
                        2 => h.obj = h.obj.clone_obj(),
                        3 => {
                            drop(pool.remove(held));
                        }
                        4 if !h.ty.is_varint() => {
                            let (rt, _) = rec_runtime(held);
                            h.obj.set_runtime(rt.nested(9));
                        }
                        _ => {
                            let mut sink = Sink::default();
                            sink.set(pace.clone());
                            let r = h.obj.serialize(&mut sink);
                            ctx.count("fault: write failed", r.is_err() as u64);
                        }
                    }
                }
                MoveEv::Refuse { who, after } => {
                    let mut s = homes[who % n].rec.0.lock().unwrap();
                    let at = s.calls.len() + after;
                    s.refuse.push((at, std::io::ErrorKind::Other));
                }
                MoveEv::Restart { who, snapshot } => {
                    let i = who % n;
                    let (rt, rec) = rec_runtime(shape >> (i + 4));
                    let home = &mut homes[i];
                    let mut obj;
                    if snapshot {
                        let bytes = home.obj.to_bytes();
                        obj = (schema.new)(rt);
                        let r = obj.merge(&mut &*bytes);
                        ctx.check(&[22, 2], r.is_ok(), "snapshot-rejected", || format!("{:?}", r))?;
                        home.base = home.val.clone();
                        home.log.clear();
                    } else {
                        obj = (schema.build)(&home.base, rt);
                        let r = obj.replay(&mut &*home.log);
                        ctx.check(&[22, 1], r.is_ok(), "log-rejected", || format!("{:?}", r))?;
                    }
                    let got = obj.obs();
                    ctx.check(&[22, 1], got == home.val, "restart-wrong", || {
                        format!("started over from its {}: {}", if snapshot { "snapshot" } else { "log" }, same_val(&got, &home.val))
                    })?;
                    home.obj = obj;
                    // Building it may have been logged.
                    home.seen = rec.0.lock().unwrap().calls.len();
                    home.rec = rec;
                    ctx.count("fault: crash and restart", 1);
                }
            }
            for home in &homes {
                let got = home.obj.obs();
                ctx.check(&[22], got == home.val, "changed-by-another", || {
                    format!("a state changed while another value was dealt with: {}", same_val(&got, &home.val))
                })?;
                let calls = home.rec.0.lock().unwrap().calls.len();
                ctx.check(&[22, 4], calls == home.seen, "logged-elsewhere", || {
                    format!("what happened to another value was logged: {:?}", &home.rec.0.lock().unwrap().calls[home.seen..])
                })?;
            }
            for h in &pool {
                let got = h.obj.obs();
                ctx.check(&[22], got == h.val, "changed-by-another", || {
                    format!("a value that was taken out changed: {}", same_val(&got, &h.val))
                })?;
            }
            let leaked = cx.leaked();
            ctx.check(&[22, 4], leaked.is_none(), "logged-elsewhere", || {
                format!("the log of a runtime that a value was built under went on: {:?}", leaked)
            })?;
        }
        Ok(())
    }

    fn simpler(ev: &MoveEv) -> Vec<MoveEv> {
        match ev {
            MoveEv::Op { who, path, act, held, copy } if !matches!(how(act), Some(How::Held | How::HeldWith)) => simpler_act(act)
                .into_iter()
                .map(|act| MoveEv::Op { who: *who, path: path.clone(), act, held: *held, copy: *copy })
                .collect(),
            MoveEv::Op { who, path, act, held, copy: true } => {
                vec![MoveEv::Op { who: *who, path: path.clone(), act: act.clone(), held: *held, copy: false }]
            }
            MoveEv::Held { held, path, act } => simpler_act(act)
                .into_iter()
                .map(|act| MoveEv::Held { held: *held, path: path.clone(), act })
                .collect(),
            _ => Vec::new(),
        }
    }
}

/// Schemas with something to take out of them.
fn pick(seed: u64) -> &'static Schema {
    for i in 0.. {
        let s = pick_schema(seed ^ (i << 50));
        if holds(&s.ty, 4) || i > 20 {
            return s;
        }
    }
    unreachable!()
}

fn holds(ty: &Ty, depth: usize) -> bool {
    match ty {
        Ty::List(_) | Ty::Map(..) => true,
        _ if depth == 0 => false,
        _ => {
            ty.fields().map_or(false, |fs| fs.iter().any(|f| f.state && holds(&f.ty, depth - 1)))
                || ty.variants().map_or(false, |vs| {
                    vs.iter().any(|v| v.fields.iter().any(|f| f.state && holds(&f.ty, depth - 1)))
                })
        }
    }
}

fn draw(rng: &mut Rng, gen: &mut Gen, ty: &Ty, homes: &[Home], pool: &[Held], faulty: bool) -> MoveEv {
    let who = rng.below(homes.len());
    let val = &homes[who].val;
    let (held, copy) = (rng.below(pool.len().max(1)), rng.pct(20));
    let op = |path, act| MoveEv::Op { who, path, act, held, copy };
    let fault = faulty as u32;
    match rng.weighted(&[30, 25, 25, 12, 10, 6 * fault, 4]) {
        1 => {
            let mut all = Vec::new();
            exits(ty, val, &mut Vec::new(), &mut all);
            if !all.is_empty() {
                let (path, mut act) = all.swap_remove(rng.below(all.len()));
                if let (Act::Remove { key, .. }, true) = (&act, rng.pct(30)) {
                    // The entry is replaced instead.
                    if let Some((Ty::Map(_, t), _)) = node(ty, &mut val.clone(), &path) {
                        let how = if rng.below(2) == 0 { How::Plain } else { How::With };
                        act = Act::Insert { key: *key, val: gen.value(&t), how, then: Then::default() };
                    }
                }
                return op(path, act);
            }
        }
        2 => {
            if let Some(h) = pool.get(held) {
                let mut all = Vec::new();
                entrances(ty, val, &h.ty, &mut Vec::new(), &mut all);
                if !all.is_empty() {
                    let (path, make) = all.swap_remove(rng.below(all.len()));
                    let how = if rng.below(2) == 0 { How::Held } else { How::HeldWith };
                    return op(path, make(gen, h.val.clone(), how));
                }
            }
        }
        3 => {
            if let Some(h) = pool.get(held) {
                if let Some((path, act)) = draw_op(gen, &h.ty, &h.val) {
                    return MoveEv::Held { held, path, act };
                }
            }
        }
        4 if !pool.is_empty() => {
            let how = rng.below(7) as u8;
            return MoveEv::Touch { held, how, pace: if how > 4 { Some(draw_pace(rng, 60, 50)) } else { None } };
        }
        5 => return MoveEv::Refuse { who, after: rng.below(3) },
        6 => return MoveEv::Restart { who, snapshot: rng.below(3) == 0 },
        _ => {}
    }
    match draw_op(gen, ty, val) {
        Some((path, act)) => op(path, act),
        None => MoveEv::Restart { who, snapshot: rng.below(2) == 0 },
    }
}

fn how(act: &Act) -> Option<&How> {
    match act {
        Act::Set { how, .. } | Act::VSet { how, .. } | Act::Push { how, .. } | Act::Insert { how, .. } => Some(how),
        _ => None,
    }
}

/// The held value that the act puts somewhere, and its type.
fn putting(ty: &Ty, val: &Val, path: &[u32], act: &Act) -> Option<(Val, Ty)> {
    if !matches!(how(act)?, How::Held | How::HeldWith) {
        return None;
    }
    let (at, _) = node(ty, &mut val.clone(), path)?;
    match (act, &at) {
        (Act::Push { val, .. }, Ty::List(t)) | (Act::Insert { val, .. }, Ty::Map(_, t)) => {
            Some((val.clone(), t.as_ref().clone()))
        }
        (Act::Set { tag, val, .. }, _) => {
            Some((val.clone(), at.fields()?.iter().find(|f| f.tag == *tag)?.ty.clone()))
        }
        (Act::VSet { vtag, tag, val, .. }, _) => {
            let v = find_variant(at.variants()?, *vtag)?;
            Some((val.clone(), v.fields.iter().find(|f| f.tag == *tag)?.ty.clone()))
        }
        _ => None,
    }
}

/// What the call must return, if it returns what it takes out; and the type of that.
fn handed_out(ty: &Ty, val: &Val, path: &[u32], act: &Act) -> Option<(Option<Val>, Ty)> {
    let mut val = val.clone();
    let (at, here) = node(ty, &mut val, path)?;
    let (out, t, then) = match (act, &at, here) {
        (Act::Pop { then }, Ty::List(t), Val::L(xs)) => (xs.last(), t, then),
        (Act::SwapRemove { i, then }, Ty::List(t), Val::L(xs)) => (xs.get(*i as usize), t, then),
        (Act::Insert { key, then, how, .. }, Ty::Map(_, t), Val::M(m)) if !matches!(how, How::Panic(_)) => (m.get(key), t, then),
        (Act::Remove { key, then }, Ty::Map(_, t), Val::M(m)) => (m.get(key), t, then),
        _ => return None,
    };
    let out = out.cloned().map(|mut x| {
        apply_all(t, &mut x, &then.acts);
        x
    });
    if then.back && out.is_some() {
        return None;
    }
    Some((out, t.as_ref().clone()))
}

type Visit<'a, T> = &'a mut Vec<(Vec<u32>, T)>;

/// Visits everything that may be addressed.
fn walk(ty: &Ty, val: &Val, path: &mut Vec<u32>, see: &mut dyn FnMut(&Ty, &Val, &[u32])) {
    see(ty, val, path);
    let mut go = |step: &[u32], t: &Ty, v: &Val| {
        let len = path.len();
        path.extend(step);
        walk(t, v, path, see);
        path.truncate(len);
    };
    match (ty, val) {
        (Ty::List(t), Val::L(xs)) if !t.is_varint() => xs.iter().enumerate().for_each(|(i, x)| go(&[i as u32], t, x)),
        (Ty::Map(_, t), Val::M(m)) if !t.is_varint() => m.iter().for_each(|(k, x)| go(&[*k], t, x)),
        (Ty::Def(_), Val::L(xs)) => {
            for (f, x) in ty.fields().unwrap().iter().zip(xs) {
                if f.state && !f.ty.is_varint() {
                    go(&[f.tag], &f.ty, x);
                }
            }
        }
        (Ty::Def(_), Val::E(tag, xs)) => {
            for (f, x) in find_variant(ty.variants().unwrap(), *tag).unwrap().fields.iter().zip(xs) {
                if f.state && !f.ty.is_varint() {
                    go(&[*tag, f.tag], &f.ty, x);
                }
            }
        }
        _ => {}
    }
}

/// Ways of taking something out.
fn exits(ty: &Ty, val: &Val, path: &mut Vec<u32>, out: Visit<Act>) {
    walk(ty, val, path, &mut |ty, val, path| match (ty, val) {
        (Ty::List(_), Val::L(xs)) => {
            let then = Then::default();
            out.push((path.to_vec(), Act::Pop { then: then.clone() }));
            let n = xs.len() as u32;
            for i in [0, n / 2, n.saturating_sub(2), n] {
                out.push((path.to_vec(), Act::SwapRemove { i, then: then.clone() }));
            }
        }
        (Ty::Map(..), Val::M(m)) => {
            for k in m.keys().take(3).chain(m.keys().next_back()) {
                out.push((path.to_vec(), Act::Remove { key: *k, then: Then::default() }));
            }
        }
        _ => {}
    });
}

type Make = Box<dyn Fn(&mut Gen, Val, How) -> Act>;

/// Ways of putting something of a type in.
fn entrances(ty: &Ty, val: &Val, want: &Ty, path: &mut Vec<u32>, out: Visit<Make>) {
    walk(ty, val, path, &mut |ty, val, path| match (ty, val) {
        (Ty::List(t), _) if **t == *want => {
            out.push((path.to_vec(), Box::new(|_, val, how| Act::Push { val, how })));
        }
        (Ty::Map(keys, t), Val::M(m)) if **t == *want => {
            let keys = keys.clone();
            out.push((
                path.to_vec(),
                Box::new(move |gen, val, how| Act::Insert { key: gen.key(&keys), val, how, then: Then::default() }),
            ));
            if let Some(&key) = m.keys().next_back() {
                out.push((
                    path.to_vec(),
                    Box::new(move |_, val, how| Act::Insert { key, val, how, then: Then::default() }),
                ));
            }
        }
        (Ty::Def(_), Val::L(_)) => {
            for f in ty.fields().unwrap().iter().filter(|f| f.state && f.ty == *want) {
                let tag = f.tag;
                out.push((path.to_vec(), Box::new(move |_, val, how| Act::Set { tag, val, how })));
            }
        }
        (Ty::Def(_), Val::E(..)) => {
            for v in ty.variants().unwrap() {
                for f in v.fields.iter().filter(|f| f.state && f.ty == *want) {
                    let (vtag, tag) = (v.tag, f.tag);
                    out.push((path.to_vec(), Box::new(move |_, val, how| Act::VSet { vtag, tag, val, how })));
                }
            }
        }
        _ => {}
    });
}
