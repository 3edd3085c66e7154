//! What a peer of another version would write: the same values, with fields this version doesn't
//! know, without some that it does, and with some in another wire type.

use super::rng::{mix, Rng};
use super::ty::*;
use super::wire::{self, *};

/// What became of a field in the other version.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fate {
    Same,
    Gone,
    Retyped,
}

pub struct Noise {
    pub rng: Rng,
    /// Which other version it is.
    pub version: u64,
    /// Leave everything as it is.
    pub off: bool,
    pub unknown: u64,
    pub retyped: u64,
    pub missing: u64,
    pub budget: usize,
}

impl Noise {
    pub fn new(version: u64, seed: u64) -> Self {
        Noise {
            rng: Rng::new(mix(version ^ seed)),
            version,
            off: seed == 0,
            unknown: 0,
            retyped: 0,
            missing: 0,
            budget: 200_000,
        }
    }

    fn fate(&self, def: usize, vtag: u32, tag: u32) -> Fate {
        if self.off {
            return Fate::Same;
        }
        let h = mix(self.version ^ mix((def as u64) << 40 ^ (vtag as u64) << 20 ^ tag as u64 ^ 0xfa7e));
        match h % 100 {
            0..=69 => Fate::Same,
            70..=81 => Fate::Gone,
            _ => Fate::Retyped,
        }
    }

    /// Tags of fields only the other version has.
    fn extra(&self, def: usize, vtag: u32, fields: &[Field]) -> Vec<u32> {
        let mut h = Rng::new(mix(self.version ^ mix((def as u64) << 24 ^ vtag as u64 ^ 0xe47a)));
        let n = [0, 1, 1, 2, 3][h.below(5)];
        (0..n)
            .map(|_| match h.below(5) {
                0 => FIELD_MAX,
                1 => h.below(16) as u32,
                2 => h.below(2048) as u32,
                3 => h.u64() as u32 >> h.range(3, 20),
                _ => h.below(40) as u32,
            })
            .filter(|t| fields.iter().all(|f| f.tag != *t))
            .collect()
    }

    /// The content of a field nobody here knows.
    pub fn content(&mut self, wire: u8, out: &mut Vec<u8>) {
        let rng = &mut self.rng;
        if wire == 0 {
            if rng.below(12) == 0 {
                // Of a number type wider than those there are, or padded.
                for _ in 0..rng.range(1, 24) {
                    out.push(rng.u64() as u8 | 0x80);
                }
                out.push(rng.below(0x80) as u8);
                return;
            }
            let x = match rng.below(4) {
                0 => rng.below(3) as u64,
                1 => u64::MAX,
                _ => rng.u64() >> rng.below(64),
            };
            put_varint(x, out);
            return;
        }
        if rng.below(60_000) == 0 {
            let n = *rng.pick(&[1 << 20, (1 << 21) + 1]);
            put_varint(n, out);
            out.resize(out.len() + n as usize, 0x77);
            return;
        }
        let n = match rng.below(40) {
            0 => rng.range(120, 140),
            1 => rng.range(16_300, 16_500),
            2 => rng.below(70_000),
            3..=9 => 0,
            _ => rng.below(24),
        }
        .min(self.budget);
        self.budget -= n;
        let mut b: Vec<u8> = Vec::with_capacity(n);
        match rng.below(3) {
            // Looks like fields.
            0 => {
                while b.len() < n {
                    put_tag(rng.below(20) as u32, if rng.pct(50) { 0 } else { 2 }, &mut b);
                    put_varint(rng.below(300) as u64, &mut b);
                }
                b.truncate(n);
            }
            1 => b.resize(n, *rng.pick(&[0, 0x80, 0xff])),
            _ => b.extend((0..n).map(|_| rng.u64() as u8)),
        }
        put_varint(b.len() as u64, out);
        out.extend(b);
    }

    fn stray(&mut self, tag: u32) -> Vec<u8> {
        let mut b = Vec::new();
        let wire = if self.rng.pct(40) { 0 } else { 2 };
        put_tag(tag, wire, &mut b);
        self.content(wire, &mut b);
        b
    }

    /// What is in the same message twice counts as if it were there once: the same bytes, in two
    /// portions where they can be told apart.
    fn repeated(&mut self, f: &Field, nested: &[u8], out: &mut Vec<u8>) -> Option<()> {
        if f.ty.is_varint() {
            put_tag(f.tag, 0, out);
            put_nested(&f.ty, &f.ty.default(), out);
            put_tag(f.tag, 0, out);
            out.extend(nested);
            return Some(());
        }
        let all = Rd::new(nested).sized().ok()?;
        let mut r = Rd::new(all);
        let mut ends = vec![0];
        while !r.eof() {
            match &f.ty {
                Ty::Def(_) if f.ty.fields().is_some() => {
                    let (_, wire) = r.tag().ok()?;
                    r.skip(wire).ok()?;
                }
                Ty::Map(..) => {
                    let (_, wire) = r.tag().ok()?;
                    r.skip(wire).ok()?;
                }
                Ty::List(t) | Ty::Vec(t) => r.skip(t.wire()).ok()?,
                _ => return None,
            }
            ends.push(r.i);
        }
        let cut = *self.rng.pick(&ends);
        for part in &[&all[..cut], &all[cut..]] {
            put_tag(f.tag, 2, out);
            put_varint(part.len() as u64, out);
            out.extend(*part);
        }
        Some(())
    }

    fn shuffle(&mut self, pieces: &mut [Vec<u8>]) {
        for i in (1..pieces.len()).rev() {
            pieces.swap(i, self.rng.below(i + 1));
        }
    }

    fn fields(&mut self, def: usize, vtag: u32, fields: &[Field], xs: &[Val], out: &mut Vec<u8>) -> Vec<Val> {
        let mut pieces = Vec::new();
        let mut vals = Vec::new();
        for (f, x) in fields.iter().zip(xs) {
            let mut b = Vec::new();
            match self.fate(def, vtag, f.tag) {
                Fate::Same => {
                    let (nested, v) = self.nested(&f.ty, x);
                    if !self.off && self.rng.below(16) == 0 {
                        // It has had another type for some of the time.
                        self.retyped += 1;
                        let mut b = Vec::new();
                        let wire = 2 - f.ty.wire();
                        put_tag(f.tag, wire, &mut b);
                        self.content(wire, &mut b);
                        pieces.push(b);
                    }
                    if !self.off && self.rng.below(16) == 0 {
                        let mut twice = Vec::new();
                        if self.repeated(f, &nested, &mut twice).is_some() {
                            b = twice;
                        }
                    }
                    if !b.is_empty() {
                    } else if v != f.ty.default() || !self.off && self.rng.pct(20) {
                        put_tag(f.tag, f.ty.wire(), &mut b);
                        b.extend(nested);
                    } else if *x == f.ty.default() || f.ty.is_varint() {
                        put_field(f, &v, &mut b);
                    } else {
                        // Other fields may still be in there.
                        put_tag(f.tag, f.ty.wire(), &mut b);
                        b.extend(nested);
                    }
                    vals.push(v);
                }
                Fate::Gone => {
                    self.missing += 1;
                    vals.push(f.ty.default());
                }
                Fate::Retyped => {
                    if self.rng.pct(80) {
                        self.retyped += 1;
                        let wire = 2 - f.ty.wire();
                        put_tag(f.tag, wire, &mut b);
                        self.content(wire, &mut b);
                    }
                    vals.push(f.ty.default());
                }
            }
            pieces.push(b);
        }
        if !self.off {
            for tag in self.extra(def, vtag, fields) {
                if self.rng.pct(75) {
                    self.unknown += 1;
                    let b = self.stray(tag);
                    let at = self.rng.below(pieces.len() + 1);
                    pieces.insert(at, b);
                }
            }
            // Much newer than this one, or one that writes an unknown field again and again.
            if self.budget > 10_000 && self.rng.below(60) == 0 {
                let first = fields.iter().map(|f| f.tag + 1).max().unwrap_or(0);
                let n = *self.rng.pick(&[10, 20, 40, 70, 140, 300]);
                let step = self.rng.below(2) as u32;
                if n < 100 || self.rng.below(4) == 0 {
                    for i in 0..n {
                        let tag = first + i * step;
                        if tag <= FIELD_MAX {
                            self.unknown += 1;
                            let b = self.stray(tag);
                            pieces.push(b);
                        }
                    }
                }
            }
            if self.rng.pct(40) {
                self.shuffle(&mut pieces);
            }
        }
        pieces.iter().for_each(|p| out.extend(p));
        vals
    }

    pub fn nested(&mut self, ty: &Ty, val: &Val) -> (Vec<u8>, Val) {
        let (b, v) = self.value(ty, val);
        if ty.is_varint() {
            return (b, v);
        }
        let mut out = Vec::new();
        put_varint(b.len() as u64, &mut out);
        out.extend(b);
        (out, v)
    }

    fn items<'a>(&mut self, items: impl Iterator<Item = (&'a Ty, &'a Val)>, out: &mut Vec<u8>) -> Vec<Val> {
        items
            .map(|(t, x)| {
                let (b, v) = self.nested(t, x);
                out.extend(b);
                v
            })
            .collect()
    }

    /// The value as the other version writes it, and what is left of it in this version.
    pub fn value(&mut self, ty: &Ty, val: &Val) -> (Vec<u8>, Val) {
        let mut out = Vec::new();
        let v = match (ty, val) {
            (Ty::Vec(t), Val::L(xs)) | (Ty::List(t), Val::L(xs)) => {
                Val::L(self.items(xs.iter().map(|x| (&**t, x)), &mut out))
            }
            (Ty::Arr(n, t), Val::L(xs)) => {
                let mut vs = self.items(xs.iter().map(|x| (&**t, x)), &mut out);
                if !self.off && self.rng.pct(25) {
                    if self.rng.pct(50) {
                        // It is longer over there.
                        for _ in 0..self.rng.range(1, 3) {
                            put_nested(t, &t.default(), &mut out);
                        }
                    } else {
                        let keep = self.rng.below(*n + 1);
                        out.clear();
                        vs = self.items(xs[..keep].iter().map(|x| (&**t, x)), &mut out);
                        vs.resize(*n, t.default());
                    }
                }
                Val::L(vs)
            }
            (Ty::Tup(ts), Val::L(xs)) => {
                let vs = self.items(ts.iter().zip(xs), &mut out);
                if !self.off && self.rng.pct(25) {
                    // It has more members over there.
                    for _ in 0..self.rng.range(1, 3) {
                        let wire = if self.rng.pct(40) { 0 } else { 2 };
                        self.content(wire, &mut out);
                    }
                }
                Val::L(vs)
            }
            (Ty::Opt(t), Val::O(Some(x))) => {
                let (b, v) = self.nested(t, x);
                out.extend(b);
                Val::O(Some(Box::new(v)))
            }
            (Ty::HMap(k, t), Val::H(m)) => Val::H(
                m.iter()
                    .map(|(a, b)| {
                        put_nested(k, a, &mut out);
                        let (bytes, v) = self.nested(t, b);
                        out.extend(bytes);
                        (a.clone(), v)
                    })
                    .collect(),
            ),
            (Ty::Map(_, t), Val::M(m)) => {
                let mut pieces = Vec::new();
                let mut vals = std::collections::BTreeMap::new();
                for (k, x) in m {
                    let (nested, v) = self.nested(t, x);
                    let mut b = Vec::new();
                    put_tag(*k, t.wire(), &mut b);
                    b.extend(nested);
                    pieces.push(b);
                    vals.insert(*k, v);
                }
                if !self.off {
                    self.shuffle(&mut pieces);
                    // Values of another wire type, as after a change of the map's value type.
                    if self.rng.pct(15) {
                        self.retyped += 1;
                        let wire = 2 - t.wire();
                        let mut b = Vec::new();
                        put_tag(self.rng.below(40) as u32, wire, &mut b);
                        self.content(wire, &mut b);
                        let at = self.rng.below(pieces.len() + 1);
                        pieces.insert(at, b);
                    }
                }
                pieces.iter().for_each(|p| out.extend(p));
                Val::M(vals)
            }
            (Ty::Def(i), Val::L(xs)) => Val::L(self.fields(*i, 0, ty.fields().unwrap(), xs, &mut out)),
            (Ty::Def(i), Val::E(tag, xs)) => {
                put_varint(*tag as u64, &mut out);
                let v = find_variant(ty.variants().unwrap(), *tag).unwrap();
                Val::E(*tag, self.fields(*i, *tag + 1, &v.fields, xs, &mut out))
            }
            _ => {
                out = wire::encode(ty, val);
                val.clone()
            }
        };
        (out, v)
    }

    /// An entry as the other version writes it, with its length prefix.
    pub fn entry(&mut self, e: &Entry) -> Vec<u8> {
        if self.off {
            return e.bytes();
        }
        let mut pieces = Vec::new();
        if !e.path.is_empty() {
            let mut p = Vec::new();
            e.path.iter().for_each(|x| put_varint(*x as u64, &mut p));
            let mut b = Vec::new();
            put_tag(0, 2, &mut b);
            put_varint(p.len() as u64, &mut b);
            b.extend(p);
            pieces.push(b);
        }
        if !e.value.is_empty() {
            let mut b = Vec::new();
            put_tag(1, 2, &mut b);
            put_varint(e.value.len() as u64, &mut b);
            b.extend(&e.value);
            pieces.push(b);
        }
        if e.key != 0 {
            let mut b = Vec::new();
            put_tag(1, 0, &mut b);
            put_varint(e.key as u64, &mut b);
            pieces.push(b);
        }
        if self.rng.pct(30) {
            for _ in 0..self.rng.range(1, 2) {
                self.unknown += 1;
                let tag = *self.rng.pick(&[2, 3, 15, 16, 2047, FIELD_MAX]);
                let b = self.stray(tag);
                pieces.push(b);
            }
        }
        if self.rng.pct(40) {
            self.shuffle(&mut pieces);
        }
        let mut body = Vec::new();
        put_varint(e.kind as u64, &mut body);
        pieces.iter().for_each(|p| body.extend(p));
        let mut out = Vec::new();
        put_varint(body.len() as u64, &mut out);
        out.extend(body);
        out
    }
}

/// Addresses at which fields are looked up by tag, with the tags that exist there.
pub fn tables(ty: &Ty, val: &Val, path: &mut Vec<u32>, out: &mut Vec<(Vec<u32>, Vec<u32>)>) {
    if out.len() > 60 {
        return;
    }
    let mut below = |fields: &[Field], xs: &[Val], path: &mut Vec<u32>, out: &mut Vec<(Vec<u32>, Vec<u32>)>| {
        out.push((path.clone(), fields.iter().map(|f| f.tag).collect()));
        for (f, x) in fields.iter().zip(xs) {
            if f.state {
                path.push(f.tag);
                tables(&f.ty, x, path, out);
                path.pop();
            }
        }
    };
    match (ty, val) {
        (Ty::List(t), Val::L(xs)) => {
            for (i, x) in xs.iter().enumerate() {
                path.push(i as u32);
                tables(t, x, path, out);
                path.pop();
            }
        }
        (Ty::Map(_, t), Val::M(m)) => {
            for (k, x) in m {
                path.push(*k);
                tables(t, x, path, out);
                path.pop();
            }
        }
        (Ty::Def(_), Val::L(xs)) => below(ty.fields().unwrap(), xs, path, out),
        (Ty::Def(_), Val::E(tag, xs)) => {
            let v = find_variant(ty.variants().unwrap(), *tag).unwrap();
            path.push(*tag);
            below(&v.fields, xs, path, out);
            path.pop();
        }
        _ => {}
    }
}
