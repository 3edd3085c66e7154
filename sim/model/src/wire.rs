//! Independent codec: what the bytes mean according to the protocol.

use super::ty::*;

pub type R<T> = Result<T, &'static str>;

pub fn put_varint(mut x: u64, out: &mut Vec<u8>) {
    while x >= 0x80 {
        out.push(x as u8 | 0x80);
        x >>= 7;
    }
    out.push(x as u8);
}

pub fn zigzag(x: i64) -> u64 {
    ((x << 1) ^ (x >> 63)) as u64
}

pub fn unzigzag(x: u64) -> i64 {
    (x >> 1) as i64 ^ -((x & 1) as i64)
}

fn mask(bits: u8) -> u64 {
    if bits == 64 {
        !0
    } else {
        (1 << bits) - 1
    }
}

pub fn put_nested(ty: &Ty, val: &Val, out: &mut Vec<u8>) {
    if ty.is_varint() {
        encode_to(ty, val, out);
    } else {
        let bytes = encode(ty, val);
        put_varint(bytes.len() as u64, out);
        out.extend(bytes);
    }
}

pub fn put_tag(field: u32, wire: u8, out: &mut Vec<u8>) {
    put_varint((field as u64) << 3 | wire as u64, out);
}

pub fn encode(ty: &Ty, val: &Val) -> Vec<u8> {
    let mut out = Vec::new();
    encode_to(ty, val, &mut out);
    out
}

pub fn put_field(f: &Field, val: &Val, out: &mut Vec<u8>) {
    let bytes = encode(&f.ty, val);
    let omit = match &f.ty {
        t if t.is_varint() => *val == t.default(),
        _ => bytes.is_empty(),
    };
    if omit {
        return;
    }
    put_tag(f.tag, f.ty.wire(), out);
    if !f.ty.is_varint() {
        put_varint(bytes.len() as u64, out);
    }
    out.extend(bytes);
}

pub fn encode_to(ty: &Ty, val: &Val, out: &mut Vec<u8>) {
    match (ty, val) {
        (Ty::U(_), Val::U(x)) => put_varint(*x, out),
        (Ty::I(bits), Val::I(x)) => put_varint(zigzag(*x) & mask(*bits), out),
        (Ty::B, Val::B(x)) => out.push(*x as u8),
        (Ty::Str, Val::S(s)) => out.extend(s.as_bytes()),
        (Ty::Bytes, Val::Y(b)) => out.extend(b),
        (Ty::Vec(t), Val::L(xs)) | (Ty::Arr(_, t), Val::L(xs)) | (Ty::List(t), Val::L(xs)) => {
            xs.iter().for_each(|x| put_nested(t, x, out))
        }
        (Ty::Tup(ts), Val::L(xs)) => ts.iter().zip(xs).for_each(|(t, x)| put_nested(t, x, out)),
        (Ty::Opt(t), Val::O(x)) => x.iter().for_each(|x| put_nested(t, x, out)),
        (Ty::HMap(k, v), Val::H(m)) => m.iter().for_each(|(a, b)| {
            put_nested(k, a, out);
            put_nested(v, b, out);
        }),
        (Ty::Map(_, t), Val::M(m)) => m.iter().for_each(|(k, v)| {
            put_tag(*k, t.wire(), out);
            put_nested(t, v, out);
        }),
        (Ty::Def(_), Val::L(xs)) => {
            let fields = ty.fields().unwrap();
            fields.iter().zip(xs).for_each(|(f, x)| put_field(f, x, out));
        }
        (Ty::Def(_), Val::E(tag, xs)) => {
            put_varint(*tag as u64, out);
            let v = find_variant(ty.variants().unwrap(), *tag).unwrap();
            v.fields.iter().zip(xs).for_each(|(f, x)| put_field(f, x, out));
        }
        _ => panic!("{:?} is not of type {:?}", val, ty),
    }
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub i: usize,
}

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, i: 0 }
    }

    pub fn eof(&self) -> bool {
        self.i >= self.b.len()
    }

    pub fn byte(&mut self) -> R<u8> {
        let x = *self.b.get(self.i).ok_or("eof")?;
        self.i += 1;
        Ok(x)
    }

    pub fn varint(&mut self, bits: u8) -> R<u64> {
        let mut x = 0u64;
        let mut off = 0;
        loop {
            let b = self.byte()?;
            if off >= bits as u32 {
                return Err("overlong varint");
            }
            x |= ((b & 0x7f) as u64) << off;
            if b & 0x80 == 0 {
                return Ok(x & mask(bits));
            }
            off += 7;
        }
    }

    pub fn sized(&mut self) -> R<&'a [u8]> {
        let n = self.varint(64)?;
        if n > (self.b.len() - self.i) as u64 {
            return Err("truncated");
        }
        let s = &self.b[self.i..self.i + n as usize];
        self.i += n as usize;
        Ok(s)
    }

    pub fn tag(&mut self) -> R<(u32, u8)> {
        let t = self.varint(32)? as u32;
        match t & 7 {
            w @ 0 | w @ 2 => Ok((t >> 3, w as u8)),
            _ => Err("wire type"),
        }
    }

    pub fn skip(&mut self, wire: u8) -> R<()> {
        if wire == 0 {
            while self.byte()? & 0x80 != 0 {}
        } else {
            self.sized()?;
        }
        Ok(())
    }
}

pub fn decode(ty: &Ty, bytes: &[u8]) -> R<Val> {
    let mut v = ty.default();
    merge(ty, &mut v, &mut Rd::new(bytes))?;
    Ok(v)
}

pub fn merge_nested(ty: &Ty, val: &mut Val, wire: u8, r: &mut Rd) -> R<()> {
    if wire != ty.wire() {
        return r.skip(wire);
    }
    if wire == 0 {
        merge(ty, val, r)
    } else {
        merge(ty, val, &mut Rd::new(r.sized()?))
    }
}

fn item(ty: &Ty, r: &mut Rd) -> R<Val> {
    let mut v = ty.default();
    merge_nested(ty, &mut v, ty.wire(), r)?;
    Ok(v)
}

fn merge_fields(fields: &[Field], xs: &mut [Val], r: &mut Rd) -> R<()> {
    while !r.eof() {
        let (tag, wire) = r.tag()?;
        match fields.iter().position(|f| f.tag == tag) {
            Some(i) => merge_nested(&fields[i].ty, &mut xs[i], wire, r)?,
            None => r.skip(wire)?,
        }
    }
    Ok(())
}

pub fn merge(ty: &Ty, val: &mut Val, r: &mut Rd) -> R<()> {
    match (ty, &mut *val) {
        (Ty::U(bits), Val::U(x)) => *x = r.varint(*bits)?,
        (Ty::I(bits), Val::I(x)) => *x = unzigzag(r.varint(*bits)?),
        (Ty::B, Val::B(x)) => {
            let mut any = false;
            loop {
                let b = r.byte()?;
                any |= b & 0x7f != 0;
                if b & 0x80 == 0 {
                    break;
                }
            }
            *x = any;
        }
        (Ty::Str, Val::S(s)) => {
            *s = String::from_utf8(r.b[r.i..].to_vec()).map_err(|_| "utf8")?;
            r.i = r.b.len();
        }
        (Ty::Bytes, Val::Y(b)) => {
            b.extend(&r.b[r.i..]);
            r.i = r.b.len();
        }
        (Ty::Vec(t), Val::L(xs)) | (Ty::List(t), Val::L(xs)) => {
            while !r.eof() {
                xs.push(item(t, r)?);
            }
        }
        (Ty::Arr(n, t), Val::L(xs)) => {
            let mut i = 0;
            while i < *n && !r.eof() {
                xs[i] = item(t, r)?;
                i += 1;
            }
            r.i = r.b.len();
        }
        (Ty::Tup(ts), Val::L(xs)) => {
            let mut new = Vec::new();
            for t in ts {
                new.push(item(t, r)?);
            }
            *xs = new;
            r.i = r.b.len();
        }
        (Ty::Opt(t), Val::O(x)) => {
            while !r.eof() {
                if x.is_none() {
                    *x = Some(Box::new(t.default()));
                }
                merge_nested(t, x.as_mut().unwrap(), t.wire(), r)?;
            }
        }
        (Ty::HMap(k, v), Val::H(m)) => {
            while !r.eof() {
                let key = item(k, r)?;
                let value = item(v, r)?;
                match m.iter().position(|(x, _)| *x == key) {
                    Some(i) => m[i].1 = value,
                    None => m.push((key, value)),
                }
            }
            m.sort();
        }
        (Ty::Map(keys, t), Val::M(m)) => {
            while !r.eof() {
                let (key, wire) = r.tag()?;
                if wire != t.wire() {
                    r.skip(wire)?;
                    continue;
                }
                if !keys.valid(key) {
                    return Err("key");
                }
                let mut v = m.get(&key).cloned().unwrap_or_else(|| t.default());
                merge_nested(t, &mut v, wire, r)?;
                m.insert(key, v);
            }
        }
        (Ty::Def(_), Val::L(xs)) => merge_fields(ty.fields().unwrap(), xs, r)?,
        (Ty::Def(_), Val::E(tag, xs)) => {
            let new = r.varint(32)? as u32;
            let v = find_variant(ty.variants().unwrap(), new).ok_or("variant")?;
            if new != *tag {
                *val = default_variant(v);
                if let Val::E(_, xs) = val {
                    merge_fields(&v.fields, xs, r)?;
                }
            } else {
                merge_fields(&v.fields, xs, r)?;
            }
        }
        _ => panic!("{:?} is not of type {:?}", val, ty),
    }
    Ok(())
}

/// A log entry as found on the wire.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Entry {
    pub kind: u32,
    pub path: Vec<u32>,
    pub key: u32,
    pub value: Vec<u8>,
}

pub const UPDATE: u32 = 0;
pub const PUSH: u32 = 8;
pub const POP: u32 = 9;
pub const REMOVE: u32 = 12;

impl Entry {
    pub fn new(kind: u32, path: Vec<u32>) -> Self {
        Entry {
            kind,
            path,
            key: 0,
            value: Vec::new(),
        }
    }

    /// The entry with its length prefix.
    pub fn bytes(&self) -> Vec<u8> {
        let mut body = Vec::new();
        put_varint(self.kind as u64, &mut body);
        if !self.path.is_empty() {
            let mut p = Vec::new();
            self.path.iter().for_each(|x| put_varint(*x as u64, &mut p));
            put_tag(0, 2, &mut body);
            put_varint(p.len() as u64, &mut body);
            body.extend(p);
        }
        if !self.value.is_empty() {
            put_tag(1, 2, &mut body);
            put_varint(self.value.len() as u64, &mut body);
            body.extend(&self.value);
        }
        if self.key != 0 {
            put_tag(1, 0, &mut body);
            put_varint(self.key as u64, &mut body);
        }
        let mut out = Vec::new();
        put_varint(body.len() as u64, &mut out);
        out.extend(body);
        out
    }

    /// Decodes an entry without its length prefix.
    pub fn decode(body: &[u8]) -> R<Entry> {
        let mut r = Rd::new(body);
        let mut e = Entry::new(r.varint(32)? as u32, Vec::new());
        if ![UPDATE, PUSH, POP, REMOVE].contains(&e.kind) {
            return Err("entry kind");
        }
        while !r.eof() {
            match (r.tag()?, e.kind) {
                ((0, 2), _) => {
                    let mut p = Rd::new(r.sized()?);
                    while !p.eof() {
                        e.path.push(p.varint(32)? as u32);
                    }
                }
                ((1, 2), UPDATE) | ((1, 2), PUSH) => e.value.extend(r.sized()?),
                ((1, 0), REMOVE) => e.key = r.varint(32)? as u32,
                ((_, wire), _) => r.skip(wire)?,
            }
        }
        Ok(e)
    }
}

/// Splits a log into entries; each comes with the offset at which it ends.
pub fn split_log(log: &[u8]) -> R<Vec<(Entry, usize)>> {
    let mut r = Rd::new(log);
    let mut out = Vec::new();
    while !r.eof() {
        let body = r.sized()?;
        out.push((Entry::decode(body)?, r.i));
    }
    Ok(out)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Reject {
    /// The address or operation doesn't fit the state.
    Address,
    Payload,
}

/// Applies an entry the way a replica must; on rejection `val` is unchanged.
pub fn apply_entry(ty: &Ty, val: &mut Val, e: &Entry) -> Result<(), Reject> {
    apply_at(ty, val, &e.path, e)
}

fn into_payload<T>(r: R<T>) -> Result<T, Reject> {
    r.map_err(|_| Reject::Payload)
}

fn apply_fields(fields: &[Field], xs: &mut [Val], path: &[u32], e: &Entry) -> Result<(), Reject> {
    match fields.iter().position(|f| f.tag == path[0]) {
        Some(i) if fields[i].state => apply_at(&fields[i].ty, &mut xs[i], &path[1..], e),
        // An entry addressed inside something that isn't a state is ignored.
        Some(_) => Ok(()),
        None => Err(Reject::Address),
    }
}

fn apply_at(ty: &Ty, val: &mut Val, path: &[u32], e: &Entry) -> Result<(), Reject> {
    if let Some(&head) = path.first() {
        match ty {
            Ty::List(t) => match val.list_mut().get_mut(head as usize) {
                Some(x) => apply_at(t, x, &path[1..], e),
                None => Err(Reject::Address),
            },
            Ty::Map(keys, t) => {
                let m = val.map_mut();
                if let Some(x) = m.get_mut(&head) {
                    apply_at(t, x, &path[1..], e)
                } else if path.len() == 1 && e.kind == UPDATE && keys.valid(head) {
                    m.insert(head, into_payload(decode(t, &e.value))?);
                    Ok(())
                } else {
                    Err(Reject::Address)
                }
            }
            Ty::Def(_) => match &mut *val {
                Val::L(xs) => apply_fields(ty.fields().unwrap(), xs, path, e),
                Val::E(tag, xs) => {
                    let vs = ty.variants().unwrap();
                    if head != *tag || path.len() < 2 {
                        return Err(Reject::Address);
                    }
                    apply_fields(&find_variant(vs, head).unwrap().fields, xs, &path[1..], e)
                }
                _ => unreachable!(),
            },
            _ => Err(Reject::Address),
        }
    } else {
        match (e.kind, ty) {
            (UPDATE, _) => {
                *val = into_payload(decode(ty, &e.value))?;
                Ok(())
            }
            (PUSH, Ty::List(t)) => {
                let x = into_payload(decode(t, &e.value))?;
                val.list_mut().push(x);
                Ok(())
            }
            (POP, Ty::List(_)) => val.list_mut().pop().map(|_| ()).ok_or(Reject::Address),
            (REMOVE, Ty::Map(_, _)) => val
                .map_mut()
                .remove(&e.key)
                .map(|_| ())
                .ok_or(Reject::Address),
            _ => Err(Reject::Address),
        }
    }
}

/// Some number that depends on the value (to vary how it is built).
pub fn encode_shape(v: &Val) -> usize {
    match v {
        Val::U(x) => *x as usize,
        Val::I(x) => *x as usize,
        Val::B(x) => *x as usize,
        Val::S(s) => s.len(),
        Val::Y(b) => b.len(),
        Val::L(xs) => xs.iter().map(encode_shape).fold(xs.len(), usize::wrapping_add),
        Val::O(x) => x.as_ref().map_or(1, |x| encode_shape(x)),
        Val::H(m) => m.len(),
        Val::E(t, xs) => xs.iter().map(encode_shape).fold(*t as usize, usize::wrapping_add),
        Val::M(m) => m.len(),
    }
}
