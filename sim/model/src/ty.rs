use std::collections::BTreeMap;
use std::sync::OnceLock;

use serde::{Deserialize, Serialize};

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ty {
    U(u8),
    I(u8),
    B,
    Str,
    Bytes,
    Vec(Box<Ty>),
    Arr(usize, Box<Ty>),
    Tup(Vec<Ty>),
    Opt(Box<Ty>),
    HMap(Box<Ty>, Box<Ty>),
    List(Box<Ty>),
    Map(Keys, Box<Ty>),
    /// Index into the definition table.
    Def(usize),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Keys {
    UpTo(u32),
    OneOf(Vec<u32>),
}

impl Keys {
    pub fn valid(&self, k: u32) -> bool {
        k <= FIELD_MAX
            && match self {
                Keys::UpTo(m) => k <= *m,
                Keys::OneOf(ks) => ks.contains(&k),
            }
    }
}

pub const FIELD_MAX: u32 = (1 << 29) - 1;

#[derive(Clone, Debug)]
pub struct Field {
    pub name: &'static str,
    /// Its name in a C# client.
    pub cs: &'static str,
    pub tag: u32,
    pub state: bool,
    /// Whether it takes part in comparisons.
    pub eq: bool,
    pub ty: Ty,
}

#[derive(Clone, Debug)]
pub struct Variant {
    pub name: &'static str,
    pub tag: u32,
    pub fields: Vec<Field>,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Struct(Vec<Field>),
    Enum(Vec<Variant>),
}

#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    /// Its name in a C# client.
    pub cs: &'static str,
    /// Whether the derived type is a `State` (or a plain message).
    pub state: bool,
    pub kind: Kind,
}

/// Definitions registered while the types of all schemas are described.
#[derive(Default)]
pub struct Reg {
    pub names: BTreeMap<String, usize>,
    pub defs: Vec<Option<Def>>,
}

impl Reg {
    pub fn def(&mut self, name: &str, make: impl FnOnce(&mut Reg) -> Def) -> Ty {
        if let Some(&i) = self.names.get(name) {
            return Ty::Def(i);
        }
        let i = self.defs.len();
        self.names.insert(name.to_string(), i);
        self.defs.push(None);
        let def = make(self);
        self.defs[i] = Some(def);
        Ty::Def(i)
    }
}

static DEFS: OnceLock<Vec<Def>> = OnceLock::new();

pub fn freeze(reg: Reg) {
    let defs = reg.defs.into_iter().map(|d| d.unwrap()).collect();
    let _ = DEFS.set(defs);
}

pub fn def(i: usize) -> &'static Def {
    &DEFS.get().expect("definitions")[i]
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Serialize, Deserialize)]
pub enum Val {
    U(u64),
    I(i64),
    B(bool),
    S(String),
    Y(Vec<u8>),
    /// Vec, array, tuple, list; the fields of a struct in definition order.
    L(Vec<Val>),
    O(Option<Box<Val>>),
    /// Hash map, sorted.
    H(Vec<(Val, Val)>),
    E(u32, Vec<Val>),
    M(BTreeMap<u32, Val>),
}

impl Val {
    pub fn list(&self) -> &Vec<Val> {
        match self {
            Val::L(xs) => xs,
            v => panic!("not a list: {:?}", v),
        }
    }

    pub fn list_mut(&mut self) -> &mut Vec<Val> {
        match self {
            Val::L(xs) => xs,
            v => panic!("not a list: {:?}", v),
        }
    }

    pub fn map(&self) -> &BTreeMap<u32, Val> {
        match self {
            Val::M(m) => m,
            v => panic!("not a map: {:?}", v),
        }
    }

    pub fn map_mut(&mut self) -> &mut BTreeMap<u32, Val> {
        match self {
            Val::M(m) => m,
            v => panic!("not a map: {:?}", v),
        }
    }

    pub fn variant(&self) -> (u32, &Vec<Val>) {
        match self {
            Val::E(tag, xs) => (*tag, xs),
            v => panic!("not a variant: {:?}", v),
        }
    }

    pub fn u(&self) -> u64 {
        match self {
            Val::U(x) => *x,
            v => panic!("not unsigned: {:?}", v),
        }
    }

    pub fn i(&self) -> i64 {
        match self {
            Val::I(x) => *x,
            v => panic!("not signed: {:?}", v),
        }
    }
}

impl Ty {
    pub fn is_varint(&self) -> bool {
        match self {
            Ty::U(_) | Ty::I(_) | Ty::B => true,
            _ => false,
        }
    }

    pub fn wire(&self) -> u8 {
        if self.is_varint() {
            0
        } else {
            2
        }
    }

    pub fn default(&self) -> Val {
        match self {
            Ty::U(_) => Val::U(0),
            Ty::I(_) => Val::I(0),
            Ty::B => Val::B(false),
            Ty::Str => Val::S(String::new()),
            Ty::Bytes => Val::Y(Vec::new()),
            Ty::Vec(_) | Ty::List(_) => Val::L(Vec::new()),
            Ty::Arr(n, t) => Val::L((0..*n).map(|_| t.default()).collect()),
            Ty::Tup(ts) => Val::L(ts.iter().map(Ty::default).collect()),
            Ty::Opt(_) => Val::O(None),
            Ty::HMap(_, _) => Val::H(Vec::new()),
            Ty::Map(_, _) => Val::M(BTreeMap::new()),
            Ty::Def(i) => match &def(*i).kind {
                Kind::Struct(fields) => Val::L(fields.iter().map(|f| f.ty.default()).collect()),
                Kind::Enum(vs) => default_variant(vs.iter().find(|v| v.tag == 0).unwrap()),
            },
        }
    }

    pub fn fields(&self) -> Option<&'static Vec<Field>> {
        match self {
            Ty::Def(i) => match &def(*i).kind {
                Kind::Struct(fields) => Some(fields),
                _ => None,
            },
            _ => None,
        }
    }

    pub fn variants(&self) -> Option<&'static Vec<Variant>> {
        match self {
            Ty::Def(i) => match &def(*i).kind {
                Kind::Enum(vs) => Some(vs),
                _ => None,
            },
            _ => None,
        }
    }
}

pub fn default_variant(v: &Variant) -> Val {
    Val::E(v.tag, v.fields.iter().map(|f| f.ty.default()).collect())
}

pub fn find_variant(vs: &'static [Variant], tag: u32) -> Option<&'static Variant> {
    vs.iter().find(|v| v.tag == tag)
}

/// The node of a state at the given address (list index, map key, field or variant tag).
/// Stops with `None` at anything that isn't a state.
pub fn node<'a>(ty: &Ty, val: &'a mut Val, path: &[u32]) -> Option<(Ty, &'a mut Val)> {
    if path.is_empty() {
        return Some((ty.clone(), val));
    }
    match ty {
        Ty::List(t) => node(t, val.list_mut().get_mut(path[0] as usize)?, &path[1..]),
        Ty::Map(_, t) => node(t, val.map_mut().get_mut(&path[0])?, &path[1..]),
        Ty::Def(_) => {
            if let Some(fields) = ty.fields() {
                let i = fields.iter().position(|f| f.tag == path[0] && f.state)?;
                node(&fields[i].ty, &mut val.list_mut()[i], &path[1..])
            } else {
                let vs = ty.variants()?;
                match val {
                    Val::E(tag, xs) if *tag == path[0] && path.len() > 1 => {
                        let v = find_variant(vs, *tag)?;
                        let i = v.fields.iter().position(|f| f.tag == path[1] && f.state)?;
                        node(&v.fields[i].ty, &mut xs[i], &path[2..])
                    }
                    _ => None,
                }
            }
        }
        _ => None,
    }
}

/// The value, with what doesn't take part in comparisons at its default.
pub fn eq_view(ty: &Ty, val: &Val) -> Val {
    let fields = |fs: &[Field], xs: &[Val]| -> Vec<Val> {
        fs.iter().zip(xs).map(|(f, x)| if f.eq { eq_view(&f.ty, x) } else { f.ty.default() }).collect()
    };
    match (ty, val) {
        (Ty::Def(i), _) => match (&def(*i).kind, val) {
            (Kind::Struct(fs), Val::L(xs)) => Val::L(fields(fs, xs)),
            (Kind::Enum(vs), Val::E(tag, xs)) => {
                let v = vs.iter().find(|v| v.tag == *tag).expect("a variant");
                Val::E(*tag, fields(&v.fields, xs))
            }
            _ => val.clone(),
        },
        (Ty::List(t), Val::L(xs)) => Val::L(xs.iter().map(|x| eq_view(t, x)).collect()),
        (Ty::Map(_, t), Val::M(m)) => Val::M(m.iter().map(|(k, x)| (*k, eq_view(t, x))).collect()),
        _ => val.clone(),
    }
}
