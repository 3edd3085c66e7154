//! Seeded generation of values and mutations.

use super::act::*;
use super::rng::Rng;
use super::ty::*;

#[derive(Clone, Debug)]
pub struct Knobs {
    /// Builder callbacks may panic.
    pub panic: bool,
    /// Values may be built elsewhere (foreign runtime, decoded).
    pub foreign: bool,
    /// Removed values are mutated and sometimes put back.
    pub then: bool,
    /// Containers may grow beyond one-byte indices.
    pub big: bool,
    /// How many values may be much larger than that.
    pub huge: u32,
    /// Only acts that log something.
    pub logged: bool,
}

impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            panic: false,
            foreign: true,
            then: true,
            big: false,
            huge: 0,
            logged: false,
        }
    }
}

pub struct Gen {
    pub rng: Rng,
    pub knobs: Knobs,
}

const BOUNDS: &[u64] = &[
    0, 1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 8191, 8192, 16383, 16384, 32767, 32768, 65535, 65536,
    (1 << 21) - 1, 1 << 21, (1 << 28) - 1, 1 << 28, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32,
    (1 << 35) - 1, 1 << 35, (1 << 56) - 1, 1 << 56, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX,
];

const WORDS: &[&str] = &[
    "", "a", "axie", "steit", "\u{0}", "\n", "{}", "caf\u{e9}", "\u{1F409}", "\u{FEFF}x", "zero\u{0}width",
];

pub fn umax(bits: u8) -> u64 {
    if bits == 64 {
        u64::MAX
    } else {
        (1 << bits) - 1
    }
}

impl Gen {
    pub fn new(seed: u64) -> Self {
        Gen {
            rng: Rng::new(seed),
            knobs: Knobs::default(),
        }
    }

    pub fn uint(&mut self, bits: u8) -> u64 {
        let x = match self.rng.below(4) {
            0 => *self.rng.pick(BOUNDS),
            1 => self.rng.below(8) as u64,
            2 => self.rng.u64() >> self.rng.below(64),
            _ => self.rng.below(300) as u64,
        };
        x & umax(bits)
    }

    pub fn sint(&mut self, bits: u8) -> i64 {
        let shift = 64 - bits as u32;
        let x = match self.rng.below(5) {
            0 => i64::MIN,
            1 => i64::MAX,
            2 => -1 - (self.uint(bits) >> 1) as i64,
            _ => self.uint(bits) as i64,
        };
        match self.rng.below(8) {
            0 => i64::MIN >> shift,
            1 => i64::MAX >> shift,
            _ => (x << shift) >> shift,
        }
    }

    /// Now and then, in few runs.
    fn huge(&mut self) -> bool {
        let yes = self.knobs.huge > 0 && self.rng.pct(15);
        self.knobs.huge -= yes as u32;
        yes
    }

    pub fn bytes(&mut self) -> Vec<u8> {
        if self.huge() {
            let n = *self.rng.pick(&[4096, 8192, 8193, 65535, 65536, 70_000]);
            return (0..n).map(|i| i as u8 ^ 0x5a).collect();
        }
        let n = match self.rng.below(20) {
            0 => self.rng.range(120, 300),
            1..=5 => 0,
            _ => self.rng.range(1, 6),
        };
        (0..n).map(|_| self.rng.u64() as u8).collect()
    }

    pub fn string(&mut self) -> String {
        if self.huge() {
            return "huge \u{e9}".repeat(*self.rng.pick(&[600, 1171, 1200, 9362, 9363, 10_000, 10_000, 299_600]));
        }
        match self.rng.below(25) {
            0 => "x".repeat(self.rng.range(120, 140)),
            1 => "\u{e9}".repeat(self.rng.range(60, 70)),
            2 if self.rng.pct(20) => "long ".repeat(3300),
            3..=5 => {
                let n = self.rng.range(1, 5);
                (0..n).map(|_| char::from_u32(self.rng.below(0xd7ff) as u32).unwrap()).collect()
            }
            _ => self.rng.pick(WORDS).to_string(),
        }
    }

    fn count(&mut self, depth: usize) -> usize {
        if depth == 0 {
            return 0;
        }
        match self.rng.below(12) {
            0..=3 => 0,
            4..=6 => 1,
            7..=8 => 2,
            9..=10 => 3,
            _ => self.rng.range(4, 6),
        }
    }

    pub fn key(&mut self, keys: &Keys) -> u32 {
        match keys {
            Keys::OneOf(ks) => *self.rng.pick(ks),
            Keys::UpTo(max) => {
                let max = (*max).min(FIELD_MAX);
                match self.rng.below(5) {
                    0 => *self.rng.pick(&[0, 15, 16, 127, 128, 2047, 2048, 262143, 262144, FIELD_MAX]) & max,
                    1 => max - self.rng.below(2) as u32,
                    2 => (self.rng.u64() as u32) % max.saturating_add(1),
                    _ => self.rng.below(6) as u32,
                }
            }
        }
    }

    pub fn value(&mut self, ty: &Ty) -> Val {
        self.val(ty, 3)
    }

    pub fn val(&mut self, ty: &Ty, depth: usize) -> Val {
        if self.rng.pct(6) {
            return ty.default();
        }
        let sub = depth.saturating_sub(1);
        match ty {
            Ty::U(bits) => Val::U(self.uint(*bits)),
            Ty::I(bits) => Val::I(self.sint(*bits)),
            Ty::B => Val::B(self.rng.pct(60)),
            Ty::Str => Val::S(self.string()),
            Ty::Bytes => Val::Y(self.bytes()),
            Ty::Vec(t) | Ty::List(t) => {
                let n = self.count(depth);
                if self.huge() {
                    let n = if t.is_varint() {
                        *self.rng.pick(&[255, 256, 257, 1000, 4097, 8193, 16384, 16385, 16386, 65536, 65537, 65538, 66_000, 66_000])
                    } else {
                        *self.rng.pick(&[127, 128, 129, 255, 256, 257, 300])
                    };
                    return Val::L((0..n).map(|_| self.val(t, sub.min(1))).collect());
                }
                let n = if self.knobs.big && t.is_varint() && self.rng.pct(4) {
                    self.rng.range(126, 131)
                } else {
                    n
                };
                Val::L((0..n).map(|_| self.val(t, sub)).collect())
            }
            Ty::Arr(n, t) => Val::L((0..*n).map(|_| self.val(t, sub)).collect()),
            Ty::Tup(ts) => Val::L(ts.iter().map(|t| self.val(t, sub)).collect()),
            Ty::Opt(t) => {
                if self.rng.pct(35) {
                    Val::O(None)
                } else {
                    Val::O(Some(Box::new(self.val(t, sub))))
                }
            }
            Ty::HMap(k, v) => {
                let n = self.count(depth);
                let m: std::collections::BTreeMap<Val, Val> =
                    (0..n).map(|_| (self.val(k, sub), self.val(v, sub))).collect();
                Val::H(m.into_iter().collect())
            }
            Ty::Map(keys, t) => {
                let huge = self.huge();
                if let (true, Keys::UpTo(max), true) = (huge, keys, self.rng.pct(50)) {
                    let max = (*max).min(FIELD_MAX);
                    // Every key there is, if there aren't too many.
                    let step = 1 + max / 1024;
                    let n = (max / step + 1).min(300);
                    return Val::M((0..n).map(|i| (i * step, self.val(t, sub.min(1)))).collect());
                }
                let n = if huge { 300 } else { self.count(depth) };
                let sub = if n > 99 { sub.min(1) } else { sub };
                Val::M((0..n).map(|_| (self.key(keys), self.val(t, sub))).collect())
            }
            Ty::Def(i) => match &def(*i).kind {
                Kind::Struct(fields) => {
                    Val::L(fields.iter().map(|f| self.field(f, sub)).collect())
                }
                Kind::Enum(vs) => {
                    let v = if depth == 0 { &vs[0] } else { &vs[self.rng.below(vs.len())] };
                    Val::E(v.tag, v.fields.iter().map(|f| self.field(f, sub)).collect())
                }
            },
        }
    }

    fn field(&mut self, f: &Field, depth: usize) -> Val {
        // Sparse values: fields left at their defaults are omitted on the wire.
        if self.rng.pct(30) {
            f.ty.default()
        } else {
            self.val(&f.ty, depth)
        }
    }

    fn how(&mut self, ty: &Ty, val: &Val, depth: usize) -> How {
        let foreign = self.knobs.foreign as u32;
        let nested = (depth > 0 && !ty.is_varint()) as u32;
        let panic = self.knobs.panic as u32;
        match self.rng.weighted(&[25, 35, 10 * foreign, 10 * foreign, 15 * nested, 10 * panic]) {
            0 => How::Plain,
            1 => How::With,
            2 => How::Foreign,
            3 => How::Decoded,
            4 => How::Nested(self.some_acts(ty, val, 3, depth - 1)),
            _ => How::Panic(if nested > 0 { self.some_acts(ty, val, 2, depth - 1) } else { Vec::new() }),
        }
    }

    /// Mutations of a value of its own.
    pub fn some_acts(&mut self, ty: &Ty, val: &Val, max: usize, depth: usize) -> Vec<(Vec<u32>, Act)> {
        let mut v = val.clone();
        let n = self.rng.range(0, max);
        let mut acts = Vec::new();
        // Whatever happens to a value before it is attached travels with the attachment.
        let logged = std::mem::replace(&mut self.knobs.logged, false);
        for _ in 0..n {
            if let Some((p, a)) = self.act_depth(ty, &mut v, depth) {
                if !panics(&a) && apply(ty, &mut v, &p, &a).is_some() {
                    acts.push((p, a));
                }
            }
        }
        self.knobs.logged = logged;
        acts
    }

    fn then(&mut self, ty: &Ty, old: Option<&Val>, depth: usize) -> Then {
        if !self.knobs.then || self.rng.pct(60) {
            return Then::default();
        }
        let acts = match old {
            Some(old) if depth > 0 => self.some_acts(ty, old, 3, depth - 1),
            _ => Vec::new(),
        };
        Then {
            acts,
            back: self.rng.pct(30),
        }
    }

    /// A random mutation that applies to the value.
    pub fn act(&mut self, ty: &Ty, val: &mut Val) -> Option<(Vec<u32>, Act)> {
        self.act_depth(ty, val, 2)
    }

    fn act_depth(&mut self, ty: &Ty, val: &mut Val, depth: usize) -> Option<(Vec<u32>, Act)> {
        for _ in 0..6 {
            let mut path = Vec::new();
            if let Some(act) = self.descend(ty, val, &mut path, depth) {
                return Some((path, act));
            }
        }
        None
    }

    fn descend(&mut self, ty: &Ty, val: &mut Val, path: &mut Vec<u32>, depth: usize) -> Option<Act> {
        let deeper = |g: &mut Gen, p: u32| g.rng.pct(p);
        match (ty, val) {
            (Ty::List(t), Val::L(xs)) => {
                if !t.is_varint() && !xs.is_empty() && deeper(self, 55) {
                    let i = if self.rng.pct(15) { xs.len() - 1 } else { self.rng.below(xs.len()) };
                    path.push(i as u32);
                    return self.descend(t, &mut xs[i], path, depth);
                }
                Some(self.list_act(t, xs, depth))
            }
            (Ty::Map(keys, t), Val::M(m)) => {
                if !t.is_varint() && !m.is_empty() && deeper(self, 55) {
                    let i = self.rng.below(m.len());
                    let k = *m.keys().nth(i).unwrap();
                    path.push(k);
                    return self.descend(t, m.get_mut(&k).unwrap(), path, depth);
                }
                Some(self.map_act(keys, t, m, depth))
            }
            (Ty::Def(_), Val::L(xs)) => {
                let fields = ty.fields().unwrap();
                if fields.is_empty() {
                    return None;
                }
                let i = self.rng.below(fields.len());
                let f = &fields[i];
                let inner = f.state && !f.ty.is_varint();
                if inner && deeper(self, 75) {
                    path.push(f.tag);
                    return self.descend(&f.ty, &mut xs[i], path, depth);
                }
                let val = self.val(&f.ty, 2);
                if f.state {
                    let how = self.how(&f.ty, &val, depth);
                    Some(Act::Set { tag: f.tag, val, how })
                } else if self.knobs.logged {
                    None
                } else {
                    Some(Act::SetNs { tag: f.tag, val })
                }
            }
            (Ty::Def(_), Val::E(tag, xs)) => {
                let vs = ty.variants().unwrap();
                let cur = find_variant(vs, *tag).unwrap();
                if !cur.fields.is_empty() && deeper(self, 50) {
                    let i = self.rng.below(cur.fields.len());
                    let f = &cur.fields[i];
                    if f.state && !f.ty.is_varint() {
                        path.push(*tag);
                        path.push(f.tag);
                        return self.descend(&f.ty, &mut xs[i], path, depth);
                    }
                }
                let v = if self.rng.pct(40) { cur } else { &vs[self.rng.below(vs.len())] };
                if v.fields.is_empty() {
                    return None;
                }
                let f = self.rng.pick(&v.fields);
                let val = self.val(&f.ty, 2);
                if f.state {
                    let how = self.how(&f.ty, &val, depth);
                    Some(Act::VSet { vtag: v.tag, tag: f.tag, val, how })
                } else if self.knobs.logged {
                    None
                } else {
                    Some(Act::VSetNs { vtag: v.tag, tag: f.tag, val })
                }
            }
            _ => None,
        }
    }

    fn list_act(&mut self, t: &Ty, xs: &mut Vec<Val>, depth: usize) -> Act {
        let n = xs.len();
        let limit = if self.knobs.big && t.is_varint() { 140 } else { 7 };
        let grow = if n >= limit { 5 } else { 45 };
        match self.rng.weighted(&[grow, 12, 30, if t.is_varint() || depth == 0 { 0 } else { 10 }]) {
            0 => {
                let val = self.val(t, 2);
                let how = self.how(t, &val, depth);
                Act::Push { val, how }
            }
            1 => Act::Pop {
                then: self.then(t, xs.last(), depth),
            },
            2 => {
                // Sometimes the last one, sometimes out of bounds.
                let i = match self.rng.below(8) {
                    0 => n,
                    1 => n.saturating_sub(1),
                    2 => 0,
                    3..=5 if n > 99 => n - 2,
                    _ if n > 0 => self.rng.below(n),
                    _ => 0,
                };
                Act::SwapRemove {
                    i: i as u32,
                    then: self.then(t, xs.get(i), depth),
                }
            }
            _ => self.each(t, xs.first_mut(), depth),
        }
    }

    fn map_act(
        &mut self,
        keys: &Keys,
        t: &Ty,
        m: &mut std::collections::BTreeMap<u32, Val>,
        depth: usize,
    ) -> Act {
        let n = m.len();
        let existing = if n > 0 {
            let i = self.rng.below(n);
            m.keys().nth(i).copied()
        } else {
            None
        };
        let grow = if n >= 8 { 10 } else { 45 };
        match self.rng.weighted(&[grow, 15, 30, if t.is_varint() || depth == 0 { 0 } else { 10 }]) {
            x @ 0 | x @ 1 => {
                let key = match existing {
                    Some(k) if x == 1 => k,
                    _ => self.key(keys),
                };
                let val = self.val(t, 2);
                let how = self.how(t, &val, depth);
                let then = self.then(t, m.get(&key), depth);
                Act::Insert { key, val, how, then: Then { back: false, ..then } }
            }
            2 => {
                let key = match existing {
                    Some(k) if self.rng.pct(80) => k,
                    _ => self.key(keys),
                };
                Act::Remove { key, then: self.then(t, m.get(&key), depth) }
            }
            _ => self.each(t, m.values_mut().next(), depth),
        }
    }

    fn each(&mut self, t: &Ty, first: Option<&mut Val>, depth: usize) -> Act {
        if let Some(first) = first {
            let mut v = first.clone();
            if let Some((path, act)) = self.act_depth(t, &mut v, depth.saturating_sub(1)) {
                if !panics(&act) {
                    return Act::Each { path, act: Box::new(act) };
                }
            }
        }
        Act::Pop { then: Then::default() }
    }
}
