//! C23: framed values of all sorts share one stream, which may stall or break anywhere.

use std::cell::RefCell;
use std::io::{self, Read};
use std::rc::Rc;

use model::*;
use schemas::*;
use serde::{Deserialize, Serialize};
use steit::{
    de::Reader,
    wire_fmt::WireType,
};

use crate::core::*;
use crate::streams::{draw_op, gen_for, KINDS};

/// A value on the stream.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct One {
    pub kind: usize,
    pub val: Val,
    pub field: Option<u32>,
    pub omissible: bool,
    /// What the receiver merges it into, maybe.
    pub into: Val,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CarryEv {
    Put(One),
    /// A log entry.
    PutEntry { bytes: Vec<u8> },
    /// Several values in a frame of their own.
    PutGroup { items: Vec<One> },
    /// That many bytes get through.
    Arrive { bytes: usize },
    /// All bytes of so many records get through, and a few more.
    ArriveRecords { n: usize, more: usize },
    /// The receiver reads a record.
    Get { how: u8 },
    /// It wants to know whether that was all.
    Peek,
    /// What the receiver gets instead of bytes that didn't get through.
    Mood { kind: u8, sizes: Vec<usize>, interrupts: u8 },
    /// The sender is done.
    Close,
}

enum Record {
    One(One),
    Entry(Vec<u8>),
    Group(Vec<One>),
}

struct Item {
    start: usize,
    end: usize,
    record: Record,
}

#[derive(Default)]
struct Tap {
    data: Vec<u8>,
    /// What got through.
    upto: usize,
    pos: usize,
    closed: bool,
    kind: u8,
    sizes: Vec<usize>,
    interrupts: u8,
    turn: usize,
    /// Asked for bytes that weren't there.
    starved: bool,
    interrupted: u64,
}

struct End(Rc<RefCell<Tap>>);

impl Read for End {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let t = &mut *self.0.borrow_mut();
        if buf.is_empty() {
            return Ok(0);
        }
        t.turn += 1;
        if t.interrupts > 0 && t.turn % (t.interrupts as usize + 1) == 0 {
            t.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        if t.pos >= t.upto {
            t.starved = true;
            return match t.closed && t.upto == t.data.len() {
                true => Ok(0),
                false => Err(io::Error::new(KINDS[t.kind as usize % KINDS.len()], "simulated stall")),
            };
        }
        let size = t.sizes.get(t.turn % t.sizes.len().max(1)).copied().unwrap_or(usize::MAX).max(1);
        let n = buf.len().min(t.upto - t.pos).min(size);
        buf[..n].copy_from_slice(&t.data[t.pos..t.pos + n]);
        t.pos += n;
        Ok(n)
    }
}

fn wire_type(one: &One, wrong: bool) -> WireType {
    match (framed()[one.kind].ty.is_varint(), wrong) {
        (true, false) | (false, true) => WireType::Varint,
        _ => WireType::Sized,
    }
}

/// The reference encoding.
fn encode(one: &One) -> Vec<u8> {
    let ty = &framed()[one.kind].ty;
    let mut out = Vec::new();
    if let Some(field) = one.field {
        let bytes = wire::encode(ty, &one.val);
        let nothing = if ty.is_varint() { one.val == ty.default() } else { bytes.is_empty() };
        if one.omissible && nothing {
            return out;
        }
        wire::put_tag(field, ty.wire(), &mut out);
    }
    wire::put_nested(ty, &one.val, &mut out);
    out
}

/// What the library writes.
fn write(one: &One, ctx: &mut Ctx) -> Res<Vec<u8>> {
    let f = &framed()[one.kind];
    let mut bytes = Vec::new();
    let (r, done) = (f.write)(&one.val, one.field, one.omissible, &mut bytes);
    let want = encode(one);
    if one.field.map_or(false, |n| n > FIELD_MAX) && !want.is_empty() {
        ctx.check(&[23], r.is_err() && done.is_err() && bytes.is_empty(), "bad-field-written", || {
            format!("{:?} was written under the number {:?}: {:?}", one.val, one.field, bytes)
        })?;
        return Ok(Vec::new());
    }
    let size = *r.as_ref().unwrap_or(&u32::MAX) as usize;
    ctx.check(&[23, 9], r.is_ok() && done.is_ok() && size == bytes.len() && bytes.len() == want.len(), "framed-wrong", || {
        format!("{} {} was to be written in {:?} bytes, {:?} became {:?}", f.name, brief(&one.val), r, want, bytes)
    })?;
    let mut rd = wire::Rd::new(&bytes);
    if one.field.is_some() && !bytes.is_empty() {
        let tag = rd.tag();
        ctx.check(&[23, 9], tag == Ok((one.field.unwrap(), f.ty.wire())), "framed-wrong", || format!("{:?} in {:?}", tag, bytes))?;
    }
    if !bytes.is_empty() {
        let mut val = f.ty.default();
        let r = wire::merge_nested(&f.ty, &mut val, f.ty.wire(), &mut rd);
        ctx.check(&[23, 9], r == Ok(()) && val == one.val, "framed-wrong", || {
            format!("{} {} was written as {:?}", f.name, brief(&one.val), bytes)
        })?;
    }
    Ok(bytes)
}

pub struct Carry;

impl Scenario for Carry {
    const NAME: &'static str = "carry";
    type Ev = CarryEv;

    fn run(src: &mut Src<CarryEv>, ctx: &mut Ctx) -> Res {
        let mut gen = gen_for(ctx.seed);
        gen.knobs.foreign = false;
        let shape = mix(ctx.seed ^ 0x73) as usize;
        src.limit(match ctx.tier {
            Tier::Quick => [15, 30, 60][shape % 3],
            Tier::Thorough => [20, 80, 300][shape % 3],
        });
        // Where the log entries come from.
        let schema = crate::cluster::pick_schema(ctx.seed);
        let mut state = schema.ty.default();
        let tap = Rc::new(RefCell::new(Tap::default()));
        let mut reader: Pipe = Reader::new(Box::new(End(tap.clone())));
        let mut items: Vec<Item> = Vec::new();
        let mut next = 0;
        loop {
            let ev = {
                let (gen, tap, items, state) = (&mut gen, tap.borrow(), &items, &mut state);
                src.next(|rng| draw(rng, gen, &tap, items, next, schema, state))
            };
            let ev = match ev {
                Some(ev) => ev,
                None => break,
            };
            if ctx.verbose {
                println!("{}", brief(&ev));
            }
            ctx.tick(5);
            let record = match ev {
                CarryEv::Put(one) => {
                    let bytes = write(&one, ctx)?;
                    Some((bytes, Record::One(one)))
                }
                CarryEv::PutEntry { bytes } => Some((bytes.clone(), Record::Entry(bytes))),
                CarryEv::PutGroup { items } => {
                    let mut inner = Vec::new();
                    let mut kept = Vec::new();
                    for one in items {
                        let bytes = write(&one, ctx)?;
                        if !bytes.is_empty() {
                            inner.extend(bytes);
                            kept.push(one);
                        }
                    }
                    let mut bytes = Vec::new();
                    wire::put_varint(inner.len() as u64, &mut bytes);
                    bytes.extend(inner);
                    Some((bytes, Record::Group(kept)))
                }
                CarryEv::Arrive { bytes } => {
                    let t = &mut *tap.borrow_mut();
                    t.upto = (t.upto + bytes).min(t.data.len());
                    None
                }
                CarryEv::ArriveRecords { n, more } => {
                    let t = &mut *tap.borrow_mut();
                    if let Some(item) = items[next.min(items.len())..].iter().take(n).last() {
                        t.upto = (item.end + more).clamp(t.upto, t.data.len());
                    }
                    None
                }
                CarryEv::Mood { kind, sizes, interrupts } => {
                    let t = &mut *tap.borrow_mut();
                    t.kind = kind;
                    t.sizes = sizes;
                    t.interrupts = interrupts;
                    None
                }
                CarryEv::Close => {
                    tap.borrow_mut().closed = true;
                    None
                }
                CarryEv::Peek => {
                    peek(&mut reader, &tap, items.get(next).map_or(usize::MAX, |i| i.start), ctx)?;
                    None
                }
                CarryEv::Get { how } => {
                    match items.get(next) {
                        None => peek(&mut reader, &tap, usize::MAX, ctx)?,
                        Some(item) => {
                            if how & 64 != 0 {
                                peek(&mut reader, &tap, item.start, ctx)?;
                            }
                            tap.borrow_mut().starved = false;
                            let complete = item.end <= tap.borrow().upto;
                            let r = get(&item.record, how & 63, &mut reader, ctx)?;
                            let t = tap.borrow();
                            if complete {
                                let want = r.want;
                                ctx.check(&[23], matches!(&r.got, Ok(got) if *got == want), "carried-wrong", || {
                                    format!(
                                        "{}: {:?} instead of {:?} from {:?}",
                                        r.what,
                                        r.got,
                                        want,
                                        &t.data[item.start..item.end]
                                    )
                                })?;
                                // Nobody waits for what isn't needed, nor takes it away.
                                ctx.check(&[23], t.pos == item.end && !t.starved, "position-wrong", || {
                                    format!(
                                        "{}: the value ends at {}, the reader is at {}{}",
                                        r.what,
                                        item.end,
                                        t.pos,
                                        if t.starved { ", and asked for more than there is" } else { "" }
                                    )
                                })?;
                                next += 1;
                                ctx.count("values received", 1);
                                ctx.note(&t.data[item.start..item.end]);
                            } else {
                                ctx.check(&[23], r.got.is_err(), "half-a-value", || {
                                    format!("{}: {:?} from {:?}", r.what, r.got, &t.data[item.start..t.upto])
                                })?;
                                let want = if t.closed && t.upto == t.data.len() {
                                    io::ErrorKind::UnexpectedEof
                                } else {
                                    KINDS[t.kind as usize % KINDS.len()]
                                };
                                let kind = r.got.as_ref().err().map(|e| e.0);
                                ctx.check(&[23, 8], kind == Some(want), "error-replaced", || {
                                    format!("{}: {:?} where the stream gives {:?}", r.what, r.got, want)
                                })?;
                                let start = item.start;
                                drop(t);
                                // The connection is set up anew from there.
                                tap.borrow_mut().pos = start;
                                reader = Reader::new(Box::new(End(tap.clone())));
                                ctx.count("fault: stream stalled or broke inside a value", 1);
                            }
                        }
                    }
                    None
                }
            };
            if let Some((bytes, record)) = record {
                if bytes.is_empty() || tap.borrow().closed {
                    continue;
                }
                let t = &mut *tap.borrow_mut();
                let start = t.data.len();
                t.data.extend(bytes);
                items.push(Item { start, end: t.data.len(), record });
            }
        }
        let interrupted = tap.borrow().interrupted;
        ctx.count("fault: read interrupted", interrupted);
        Ok(())
    }

    fn simpler(ev: &CarryEv) -> Vec<CarryEv> {
        match ev {
            CarryEv::PutGroup { items } if !items.is_empty() => (0..items.len())
                .map(|i| {
                    let mut items = items.clone();
                    items.remove(i);
                    CarryEv::PutGroup { items }
                })
                .collect(),
            CarryEv::Put(one) => {
                let mut out = Vec::new();
                let default = framed()[one.kind].ty.default();
                if one.val != default {
                    out.push(CarryEv::Put(One { val: default.clone(), ..one.clone() }));
                }
                if one.into != default {
                    out.push(CarryEv::Put(One { into: default, ..one.clone() }));
                }
                out
            }
            CarryEv::Mood { .. } => vec![CarryEv::Mood { kind: 0, sizes: Vec::new(), interrupts: 0 }],
            _ => Vec::new(),
        }
    }
}

/// Looking for the end finds it or not, and takes nothing away.
fn peek(reader: &mut Pipe, tap: &Rc<RefCell<Tap>>, start: usize, ctx: &mut Ctx) -> Res {
    let got = reader.eof();
    let t = tap.borrow();
    let ok = if t.upto > start {
        matches!(got, Ok(false))
    } else if t.closed && t.upto == t.data.len() {
        matches!(got, Ok(true))
    } else {
        matches!(&got, Err(e) if e.kind() == KINDS[t.kind as usize % KINDS.len()])
    };
    ctx.check(&[23], ok, "end-wrong", || {
        format!("looking for the end gave {:?}; {} of {} bytes got through, closed: {}", got, t.upto, t.data.len(), t.closed)
    })
}

struct Got {
    what: String,
    got: Result<Vec<Val>, (io::ErrorKind, String)>,
    want: Vec<Val>,
}

fn get(record: &Record, how: u8, reader: &mut Pipe, ctx: &mut Ctx) -> Res<Got> {
    let (what, got, want) = match record {
        Record::Entry(bytes) => {
            let got = read_entry(reader).map(|b| vec![Val::Y(b)]);
            ("a log entry".to_string(), got, vec![Val::Y(bytes.clone())])
        }
        Record::One(one) => {
            let f = &framed()[one.kind];
            let how = how % 10;
            let name = ["read", "read", "read through `by_ref`", "merged", "skipped", "read as another wire type", "merged as another wire type", "read through `as_mut_read`", "read", "merged"][how as usize];
            let mut run = || -> io::Result<Vec<Val>> {
                if let Some(field) = one.field {
                    let (got, wire) = reader.read_tag()?;
                    if got != field || wire != wire_type(one, false) {
                        return Ok(vec![Val::U(got as u64), Val::U(wire.value() as u64)]);
                    }
                }
                let wire = wire_type(one, false);
                Ok(vec![match how {
                    2 => {
                        let mut inner: Sub = Reader::new(reader as &mut dyn Read);
                        (f.read_sub)(wire, &mut inner)?
                    }
                    7 => (f.read_sub)(wire, &mut reader.as_mut_read())?,
                    3 | 9 => (f.merge)(&one.into, wire, reader)?,
                    4 => {
                        reader.skip_field(wire)?;
                        return Ok(Vec::new());
                    }
                    5 | 6 => {
                        // Somebody with another idea of the field.
                        let other = framed().iter().position(|g| g.ty.is_varint() != f.ty.is_varint()).unwrap();
                        let g = &framed()[other + (how == 5) as usize];
                        if g.ty.is_varint() == f.ty.is_varint() {
                            reader.skip_field(wire)?;
                            return Ok(Vec::new());
                        }
                        let v = if how == 5 {
                            (g.read)(wire, reader)?
                        } else {
                            (g.merge)(&g.ty.default(), wire, reader)?
                        };
                        return Ok(if v == g.ty.default() { Vec::new() } else { vec![v] });
                    }
                    _ => (f.read)(wire, reader)?,
                }])
            };
            let got = run();
            let want = match how {
                4 | 5 | 6 => Vec::new(),
                3 | 9 => {
                    let mut val = one.into.clone();
                    let bytes = encode(&One { field: None, ..one.clone() });
                    let r = wire::merge_nested(&f.ty, &mut val, f.ty.wire(), &mut wire::Rd::new(&bytes));
                    debug_assert!(r.is_ok());
                    vec![val]
                }
                _ => vec![one.val.clone()],
            };
            ctx.count(name, 1);
            (format!("{} {} was {}", f.name, brief(&one.val), name), got, want)
        }
        Record::Group(ones) => {
            // Maybe not all of them.
            let n = if how % 3 == 0 { how as usize % (ones.len() + 1) } else { ones.len() };
            let mut run = || -> io::Result<Vec<Val>> {
                let mut frame = reader.nested()?;
                let mut out = Vec::new();
                for (i, one) in ones[..n].iter().enumerate() {
                    if how % 5 == 1 && frame.eof()? {
                        out.push(Val::B(false));
                    }
                    if one.field.is_some() {
                        frame.read_tag()?;
                    }
                    let wire = wire_type(one, false);
                    if (how as usize + i) % 7 == 6 {
                        frame.skip_field(wire)?;
                        out.push(one.val.clone());
                    } else {
                        out.push((framed()[one.kind].read_frame)(wire, &mut frame)?);
                    }
                }
                if n == ones.len() && how % 2 == 0 && !frame.eof()? {
                    out.push(Val::B(true));
                }
                frame.finish()?;
                Ok(out)
            };
            let got = run();
            ctx.count("frames of values", 1);
            (format!("{} of {} values in a frame", n, ones.len()), got, ones[..n].iter().map(|one| one.val.clone()).collect())
        }
    };
    Ok(Got { what, got: got.map_err(|e| (e.kind(), e.to_string())), want })
}

fn draw_one(rng: &mut Rng, gen: &mut Gen) -> One {
    let all = framed();
    let kind = rng.below(all.len());
    let ty = &all[kind].ty;
    let field = match rng.below(9) {
        0 => Some(*rng.pick(&[0, 15, 16, 2047, 2048, FIELD_MAX, FIELD_MAX, FIELD_MAX + 1, u32::MAX])),
        1..=4 => Some(rng.below(20) as u32),
        _ => None,
    };
    One {
        kind,
        val: if rng.pct(8) { ty.default() } else { gen.value(ty) },
        field,
        omissible: rng.pct(50),
        into: if rng.pct(50) { ty.default() } else { gen.value(ty) },
    }
}

fn draw(rng: &mut Rng, gen: &mut Gen, tap: &Tap, items: &[Item], next: usize, schema: &'static Schema, state: &mut Val) -> CarryEv {
    let waiting = (items.len() - next) as u32;
    let missing = tap.data.len() - tap.upto;
    let put = if tap.closed { 0 } else { 30 };
    match rng.weighted(&[put, put / 3, put / 4, 18, 14 * waiting.min(1), 12 + 24 * waiting.min(1), 8, 8, if items.len() > 5 { 2 } else { 0 }]) {
        0 => CarryEv::Put(draw_one(rng, gen)),
        1 => {
            for _ in 0..4 {
                if let Some((path, act)) = draw_op(gen, &schema.ty, state) {
                    let effs = apply(&schema.ty, state, &path, &act).unwrap_or_default();
                    if let Some(eff) = effs.last() {
                        return CarryEv::PutEntry { bytes: eff.entry().bytes() };
                    }
                }
            }
            CarryEv::Peek
        }
        2 => CarryEv::PutGroup { items: (0..rng.below(5)).map(|_| draw_one(rng, gen)).collect() },
        3 => CarryEv::Arrive { bytes: if rng.pct(30) { missing } else { rng.below(missing + 2).min(rng.range(1, 40)) } },
        4 => CarryEv::ArriveRecords { n: rng.range(1, 4), more: [0, 0, 1, 2][rng.below(4)] },
        5 => CarryEv::Get { how: rng.below(128) as u8 },
        6 => CarryEv::Peek,
        7 => CarryEv::Mood {
            kind: rng.below(KINDS.len()) as u8,
            sizes: (0..rng.below(4)).map(|_| rng.range(1, 9)).collect(),
            interrupts: [0, 0, 1, 2, 5][rng.below(5)],
        },
        _ => CarryEv::Close,
    }
}
