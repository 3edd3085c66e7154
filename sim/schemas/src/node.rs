//! Glue between the model and the real library; see gen.rs for the schemas themselves.

pub use std::{
    collections::HashMap,
    fmt::Debug,
    hash::Hash,
    io,
};

pub use model::*;
use super::Obj;
pub use steit::{
    de::{Deserialize, Reader},
    log::loggers::BufferLogger,
    rt::{LoggerHandle, Runtime},
    ser::Serialize,
    state::State,
    steit_derive,
    types::{Bytes, List, Map, MapKey, Maybe},
};

/// What a mutation needs besides the state, and what it leaves behind.
#[derive(Default)]
pub struct Cx {
    /// Selects between equivalent ways of doing the same.
    pub nav: u32,
    /// Loggers of the runtimes that attached values were built under,
    /// with the length of their logs when the value was attached.
    pub foreign: Vec<(LoggerHandle<BufferLogger>, usize)>,
    foreign_open: usize,
    /// What `How::Held` attaches; taken if it is of the right type.
    pub offer: Option<Box<dyn Obj>>,
    /// Whether to keep what mutators hand back.
    pub keep: bool,
    /// What the last removal or insertion handed back.
    pub given: Option<Option<Box<dyn Obj>>>,
    /// What the last push returned.
    pub index: Option<usize>,
}

impl Cx {
    pub fn new() -> Self {
        Self::default()
    }

    fn turn(&mut self) -> u32 {
        self.nav = self.nav.wrapping_mul(1664525).wrapping_add(1013904223);
        self.nav >> 16
    }

    fn foreign_runtime(&mut self) -> Runtime {
        let (runtime, handle) = Runtime::with_logger_returned(BufferLogger::new());
        self.foreign.push((handle, 0));
        match self.turn() % 3 {
            0 => runtime,
            1 => runtime.nested(0),
            _ => runtime.nested(7).nested(300),
        }
    }

    fn give<T: Node>(&mut self, x: Option<T>) {
        if self.keep {
            self.given = Some(x.map(|x| Box::new(x) as Box<dyn Obj>));
        }
    }

    fn offered<T: Node>(&mut self, val: &Val) -> T {
        match self.offer.take() {
            Some(x) if x.any().is::<T>() => *x.into_any().downcast::<T>().expect("just checked"),
            x => {
                self.offer = x;
                T::build(val, Runtime::new())
            }
        }
    }

    /// Called when the values built under the foreign runtimes so far are attached.
    pub fn attached(&mut self) {
        for (handle, len) in &mut self.foreign[self.foreign_open..] {
            *len = handle.lock().unwrap().bytes().len();
        }
        self.foreign_open = self.foreign.len();
    }

    /// Log of a foreign runtime that received entries after its value was attached elsewhere.
    pub fn leaked(&self) -> Option<Vec<u8>> {
        self.foreign[..self.foreign_open].iter().find_map(|(handle, len)| {
            let bytes = handle.lock().unwrap().bytes();
            if bytes.len() != *len {
                Some(bytes[*len..].to_vec())
            } else {
                None
            }
        })
    }

    pub fn forget(&mut self, keep: usize) {
        // Never attached, because the attempt panicked.
        self.foreign.truncate(self.foreign_open);
        if self.foreign.len() > keep {
            let n = self.foreign.len() - keep;
            self.foreign.drain(..n);
            self.foreign_open = keep;
        }
    }
}

/// A value without a runtime.
pub trait Leaf: Serialize + Deserialize + Clone + PartialEq + Debug {
    fn ty(reg: &mut Reg) -> Ty;
    fn build(v: &Val) -> Self;
    fn obs(&self) -> Val;
}

/// A state, or anything that may sit inside one.
pub trait Node: State + Clone + PartialEq + Debug + 'static {
    fn ty(reg: &mut Reg) -> Ty;
    fn build(v: &Val, rt: Runtime) -> Self;
    fn obs(&self) -> Val;
    /// Performs the mutation at the address; false if there is no such thing.
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool;
    /// Makes other values like it under runtimes of its log, and drops them.
    fn aside(&self) {}
}

pub trait Actor {
    fn perform(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool;
}

impl<T: Node> Actor for &mut T {
    fn perform(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        Node::act(*self, path, act, cx)
    }
}

/// Disjoint parts of a state that threads may mutate at the same time.
pub trait Split {
    fn split(&mut self) -> Vec<(Vec<u32>, Box<dyn Actor + Send + '_>)>;
}

/// Message of the panics that builder callbacks are made to raise.
pub const BUILDER_PANIC: &str = "simulated builder panic";

/// Raises a panic without invoking the panic hook.
pub fn raise() -> ! {
    std::panic::resume_unwind(Box::new(BUILDER_PANIC))
}

/// Makes code that the library calls back raise a panic.
pub mod fuse {
    use std::cell::Cell;

    thread_local!(static LEFT: Cell<Option<u32>> = const { Cell::new(None) });

    /// The call after so many raises a panic, once.
    pub fn arm(after: u32) {
        LEFT.with(|l| l.set(Some(after)));
    }

    /// Whether it is still to come.
    pub fn disarm() -> bool {
        LEFT.with(|l| l.take()).is_some()
    }

    /// Called by each callback.
    pub fn tick() {
        LEFT.with(|l| match l.get() {
            Some(0) => {
                l.set(None);
                super::raise()
            }
            Some(n) => l.set(Some(n - 1)),
            None => {}
        })
    }
}

pub fn apart<T: Node>(val: &Val, how: &How, cx: &mut Cx) -> Option<T> {
    let x = match how {
        How::Plain => T::build(val, Runtime::new()),
        How::Foreign => {
            let rt = cx.foreign_runtime();
            let x = T::build(val, rt);
            if cx.nav & 0x70000 == 0 {
                x.clone()
            } else {
                x
            }
        }
        How::Decoded => {
            let bytes = T::build(val, Runtime::new()).to_bytes();
            T::deserialize(&mut Reader::new(&*bytes)).expect("decoding a value just encoded")
        }
        How::Held => cx.offered::<T>(val),
        _ => return None,
    };
    Some(x)
}

pub fn inside<T: Node>(val: &Val, how: &How, cx: &mut Cx, rt: Runtime) -> T {
    if let How::HeldWith = how {
        return cx.offered::<T>(val);
    }
    fuse::tick();
    let mut x = T::build(val, rt);
    match how {
        How::With => x,
        How::Nested(acts) => {
            for (path, act) in acts {
                Node::act(&mut x, path, act, cx);
            }
            x
        }
        How::Panic(acts) => {
            for (path, act) in acts {
                Node::act(&mut x, path, act, cx);
            }
            raise()
        }
        _ => unreachable!(),
    }
}

macro_rules! attach {
    ($ty:ty, $val:expr, $how:expr, $cx:expr, |$x:ident| $plain:block, |$f:ident| $with:block) => {{
        if let Some($x) = apart::<$ty>($val, $how, $cx) {
            $plain;
        } else {
            let cx = &mut *$cx;
            let $f = |rt: Runtime| -> $ty { inside::<$ty>($val, $how, cx, rt) };
            $with;
        }
        $cx.attached();
        true
    }};
}

macro_rules! leaf_int {
    ($($ty:ty => $make:expr, $val:ident, $wide:ty;)*) => {$(
        impl Leaf for $ty {
            fn ty(_: &mut Reg) -> Ty { $make }
            fn build(v: &Val) -> Self {
                match v { Val::$val(x) => *x as $ty, v => panic!("{:?}", v) }
            }
            fn obs(&self) -> Val { Val::$val(*self as $wide) }
        }
    )*};
}

leaf_int! {
    u8 => Ty::U(8), U, u64; u16 => Ty::U(16), U, u64; u32 => Ty::U(32), U, u64; u64 => Ty::U(64), U, u64;
    i8 => Ty::I(8), I, i64; i16 => Ty::I(16), I, i64; i32 => Ty::I(32), I, i64; i64 => Ty::I(64), I, i64;
}

impl Leaf for bool {
    fn ty(_: &mut Reg) -> Ty {
        Ty::B
    }
    fn build(v: &Val) -> Self {
        *v == Val::B(true)
    }
    fn obs(&self) -> Val {
        Val::B(*self)
    }
}

macro_rules! node_primitive {
    ($($ty:ty),*) => {$(
        impl Node for $ty {
            fn ty(reg: &mut Reg) -> Ty { <Self as Leaf>::ty(reg) }
            fn build(v: &Val, _: Runtime) -> Self { Leaf::build(v) }
            fn obs(&self) -> Val { Leaf::obs(self) }
            fn act(&mut self, _: &[u32], _: &Act, _: &mut Cx) -> bool { false }
        }
    )*};
}

node_primitive!(u8, u16, u32, u64, i8, i16, i32, i64, bool);

impl Leaf for String {
    fn ty(_: &mut Reg) -> Ty {
        Ty::Str
    }
    fn build(v: &Val) -> Self {
        match v {
            Val::S(s) => s.clone(),
            v => panic!("{:?}", v),
        }
    }
    fn obs(&self) -> Val {
        // Whatever was loaded must be a `String` that the language allows.
        assert!(std::str::from_utf8(self.as_bytes()).is_ok(), "a `String` that isn't valid UTF-8");
        Val::S(self.clone())
    }
}

impl Leaf for Bytes {
    fn ty(_: &mut Reg) -> Ty {
        Ty::Bytes
    }
    fn build(v: &Val) -> Self {
        match v {
            Val::Y(b) => Bytes::from_raw(b.clone()),
            v => panic!("{:?}", v),
        }
    }
    fn obs(&self) -> Val {
        Val::Y(self.clone().into_raw())
    }
}

impl<T: Leaf> Leaf for Vec<T> {
    fn ty(reg: &mut Reg) -> Ty {
        Ty::Vec(Box::new(T::ty(reg)))
    }
    fn build(v: &Val) -> Self {
        v.list().iter().map(T::build).collect()
    }
    fn obs(&self) -> Val {
        Val::L(self.iter().map(T::obs).collect())
    }
}

macro_rules! leaf_array {
    ($n:literal) => {
        impl<T: Leaf> Leaf for [T; $n] {
            fn ty(reg: &mut Reg) -> Ty {
                Ty::Arr($n, Box::new(T::ty(reg)))
            }
            fn build(v: &Val) -> Self {
                let xs = v.list();
                std::array::from_fn(|i| T::build(&xs[i]))
            }
            fn obs(&self) -> Val {
                Val::L(self.iter().map(T::obs).collect())
            }
        }
    };
}

leaf_array!(1);
leaf_array!(2);
leaf_array!(3);
leaf_array!(4);
leaf_array!(5);
leaf_array!(6);
leaf_array!(7);

impl<T: Leaf> Leaf for Box<T> {
    fn ty(reg: &mut Reg) -> Ty {
        T::ty(reg)
    }
    fn build(v: &Val) -> Self {
        Box::new(T::build(v))
    }
    fn obs(&self) -> Val {
        self.as_ref().obs()
    }
}

impl<T: Leaf> Leaf for Option<T> {
    fn ty(reg: &mut Reg) -> Ty {
        Ty::Opt(Box::new(T::ty(reg)))
    }
    fn build(v: &Val) -> Self {
        match v {
            Val::O(x) => x.as_ref().map(|x| T::build(x)),
            v => panic!("{:?}", v),
        }
    }
    fn obs(&self) -> Val {
        Val::O(self.as_ref().map(|x| Box::new(x.obs())))
    }
}

macro_rules! leaf_tuple {
    ($($name:ident $i:tt),+) => {
        impl<$($name: Leaf),+> Leaf for ($($name),+) {
            fn ty(reg: &mut Reg) -> Ty {
                Ty::Tup(vec![$($name::ty(reg)),+])
            }
            fn build(v: &Val) -> Self {
                let xs = v.list();
                ($($name::build(&xs[$i])),+)
            }
            fn obs(&self) -> Val {
                Val::L(vec![$(self.$i.obs()),+])
            }
        }
    };
}

leaf_tuple!(A 0, B 1);
leaf_tuple!(A 0, B 1, C 2);
leaf_tuple!(A 0, B 1, C 2, D 3);
leaf_tuple!(A 0, B 1, C 2, D 3, E 4);
leaf_tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
leaf_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);

impl<K: Leaf + Eq + Hash, V: Leaf> Leaf for HashMap<K, V> {
    fn ty(reg: &mut Reg) -> Ty {
        Ty::HMap(Box::new(K::ty(reg)), Box::new(V::ty(reg)))
    }
    fn build(v: &Val) -> Self {
        match v {
            Val::H(m) => m.iter().map(|(k, v)| (K::build(k), V::build(v))).collect(),
            v => panic!("{:?}", v),
        }
    }
    fn obs(&self) -> Val {
        let mut m: Vec<_> = self.iter().map(|(k, v)| (k.obs(), v.obs())).collect();
        m.sort();
        Val::H(m)
    }
}

impl<T: Node> Node for Box<T> {
    fn ty(reg: &mut Reg) -> Ty {
        T::ty(reg)
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        Box::new(T::build(v, rt))
    }
    fn obs(&self) -> Val {
        self.as_ref().obs()
    }
    fn aside(&self) {
        self.as_ref().aside()
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        Node::act(self.as_mut(), path, act, cx)
    }
}

/// Every other time (in each run).
fn turn() -> bool {
    thread_local!(static TURN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
    TURN.with(|t| !t.replace(!t.get()))
}

impl<T: Node> Node for Maybe<T> {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def {
            name: "Maybe".to_string(),
            cs: "Maybe",
            state: true,
            kind: Kind::Enum(vec![
                Variant {
                    name: "None",
                    tag: 0,
                    fields: Vec::new(),
                },
                Variant {
                    name: "Some",
                    tag: 1,
                    fields: vec![Field {
                        cs: "Value",
                        name: "value",
                        tag: 0,
                        state: true,
                        eq: true,
                        ty: T::ty(reg),
                    }],
                },
            ]),
        })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let (tag, xs) = v.variant();
        if tag == 0 {
            match turn() {
                true => Maybe::none(rt),
                _ => Maybe::from_option(rt, None),
            }
        } else if wire::encode_shape(&xs[0]) % 2 == 0 {
            let x = T::build(&xs[0], Runtime::new());
            if wire::encode_shape(&xs[0]) % 4 == 0 {
                Maybe::some(rt, x)
            } else {
                Maybe::from_option(rt, Some(x))
            }
        } else {
            let mut m = Maybe::none(rt);
            m.set_some_value_with(|rt| T::build(&xs[0], rt));
            m
        }
    }
    fn obs(&self) -> Val {
        assert!(self.is_some() != self.is_none(), "a Maybe is either Some or None");
        assert!(self.is_some() == matches!(self, Maybe::Some { .. }), "is_some of a Maybe");
        assert!((*self == None) == self.is_none(), "comparing a Maybe to nothing");
        if let (Maybe::Some { value, .. }, true) = (self, std::mem::size_of::<T>() <= 8) {
            assert!(*self == Some(value.clone()), "comparing a Maybe to what it holds");
        }
        match self {
            Maybe::None { .. } => Val::E(0, Vec::new()),
            Maybe::Some { value, .. } => Val::E(1, vec![value.obs()]),
        }
    }
    fn aside(&self) {
        let rt = self.runtime().nested(1);
        if let Maybe::Some { value, .. } = self {
            value.aside();
            assert!(Maybe::some(rt.clone(), value.clone()) == *self, "a Maybe made of the same value");
            assert!(Maybe::from_option(rt.clone(), Some(value.clone())) == *self, "a Maybe made of an option");
        }
        assert!(Maybe::<T>::none(rt.clone()).is_none(), "a Maybe made of nothing");
        assert!(Maybe::<T>::from_option(rt, None).is_none(), "a Maybe made of no option");
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if path.len() > 1 {
            return match self {
                Maybe::Some { value, .. } if path[0] == 1 && path[1] == 0 => value.act(&path[2..], act, cx),
                _ => false,
            };
        }
        match act {
            Act::VSet { vtag: 1, tag: 0, val, how } if path.is_empty() => {
                attach!(T, val, how, cx, |x| { self.set_some_value(x); }, |f| { self.set_some_value_with(f); })
            }
            _ => false,
        }
    }
}

fn after<T: Node>(item: &mut T, then: &Then, cx: &mut Cx) {
    for (path, act) in &then.acts {
        Node::act(item, path, act, cx);
    }
}

impl<T: Node> Node for List<T> {
    fn ty(reg: &mut Reg) -> Ty {
        Ty::List(Box::new(T::ty(reg)))
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let xs = v.list();
        if xs.len() % 2 == 0 {
            List::from_iter(rt, xs.iter().map(|x| T::build(x, Runtime::new())))
        } else {
            let mut list = List::new(rt);
            for x in xs {
                list.push_with(|rt| T::build(x, rt));
            }
            list
        }
    }
    fn obs(&self) -> Val {
        Val::L(match self.len() % 4 {
            0 => self.iter().map(T::obs).collect(),
            1 => (0..self.len()).map(|i| self[i].obs()).collect(),
            2 => self.into_iter().map(T::obs).collect(),
            _ => (0..self.len()).filter_map(|i| self.get(i)).map(T::obs).collect(),
        })
    }
    fn aside(&self) {
        let rt = self.runtime();
        assert!(List::<T>::new(rt.clone()).is_empty(), "a new list is empty");
        assert!(List::from_iter(rt.nested(1), self.iter().cloned().inspect(|_| fuse::tick())) == *self, "a list made of the same items");
        self.iter().take(3).for_each(T::aside);
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&i, rest)) = path.split_first() {
            let i = i as usize;
            if i >= self.len() {
                return false;
            }
            let item = match cx.turn() % 4 {
                0 => self.get_mut(i).unwrap(),
                1 => &mut self[i],
                2 => (&mut *self).into_iter().nth(i).unwrap(),
                _ => self.iter_mut().nth(i).unwrap(),
            };
            return item.act(rest, act, cx);
        }
        match act {
            Act::Push { val, how } => {
                let mut index = None;
                attach!(T, val, how, cx, |x| { index = Some(self.push(x)); }, |f| { index = Some(self.push_with(f)); });
                cx.index = index;
                true
            }
            Act::Pop { then } | Act::SwapRemove { then, .. } => {
                let item = match act {
                    Act::SwapRemove { i, .. } => self.swap_remove(*i as usize),
                    _ => self.pop(),
                };
                match item {
                    Some(mut item) => {
                        after(&mut item, then, cx);
                        if then.back {
                            self.push(item);
                        } else {
                            cx.give(Some(item));
                        }
                    }
                    None => cx.give::<T>(None),
                }
                true
            }
            Act::Each { path, act } => {
                for item in self.iter_mut() {
                    item.act(path, act, cx);
                }
                true
            }
            _ => false,
        }
    }
}

impl<K: NodeKey, T: Node> Node for Map<K, T> {
    fn ty(reg: &mut Reg) -> Ty {
        Ty::Map(K::keys(), Box::new(T::ty(reg)))
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let m = v.map();
        if m.len() % 2 == 0 {
            Map::from_iter(rt, m.iter().map(|(k, x)| (K::key(*k), T::build(x, Runtime::new()))))
        } else {
            let mut map = Map::new(rt);
            for (k, x) in m.iter().rev() {
                map.insert_with(K::key(*k), |rt| T::build(x, rt));
            }
            map
        }
    }
    fn obs(&self) -> Val {
        let m: std::collections::BTreeMap<_, _> = match self.len() % 3 {
            0 => self.iter().map(|(k, x)| (k.as_field_number(), x.obs())).collect(),
            1 => self.into_iter().map(|(k, x)| (k.as_field_number(), x.obs())).collect(),
            _ => {
                let keys: Vec<K> = self.iter().map(|(k, _)| k).collect();
                keys.iter()
                    .map(|k| {
                        assert!(self.contains(k), "a key of a map is in it");
                        let n = k.as_field_number();
                        let x = if n % 2 == 0 { self.get(k).expect("a key of a map leads to an entry") } else { &self[k] };
                        (n, x.obs())
                    })
                    .collect()
            }
        };
        assert_eq!(m.len(), self.len(), "keys of a map");
        Val::M(m)
    }
    fn aside(&self) {
        let rt = self.runtime();
        assert!(Map::<K, T>::new(rt.clone()).len() == 0, "a new map is empty");
        let entries = self.iter().map(|(k, x)| (k, x.clone())).inspect(|_| fuse::tick());
        assert!(Map::from_iter(rt.nested(1), entries) == *self, "a map made of the same entries");
        self.iter().take(3).for_each(|(_, x)| x.aside());
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&k, rest)) = path.split_first() {
            if !K::keys().valid(k) {
                return false;
            }
            let key = K::key(k);
            if !self.contains(&key) {
                return false;
            }
            let item = match cx.turn() % 4 {
                0 => self.get_mut(&key).unwrap(),
                1 => &mut self[&key],
                2 => (&mut *self).into_iter().find(|(x, _)| *x == key).unwrap().1,
                _ => self.iter_mut().find(|(x, _)| *x == key).unwrap().1,
            };
            return item.act(rest, act, cx);
        }
        match act {
            Act::Insert { key, val, how, then } => {
                let key = K::key(*key);
                #[allow(unused_assignments)]
                let mut old = None;
                attach!(
                    T, val, how, cx,
                    |x| { old = self.insert(key, x); },
                    |f| { old = self.insert_with(key, f); }
                );
                if let Some(old) = &mut old {
                    after(old, then, cx);
                }
                cx.give(old);
                true
            }
            Act::Remove { key, then } => {
                let key = *key;
                match self.remove(&K::key(key)) {
                    Some(mut item) => {
                        after(&mut item, then, cx);
                        if then.back {
                            self.insert(K::key(key), item);
                        } else {
                            cx.give(Some(item));
                        }
                    }
                    None => cx.give::<T>(None),
                }
                true
            }
            Act::Each { path, act } => {
                // The order of iteration is unspecified; effects on distinct items commute.
                for (_, item) in self.iter_mut() {
                    item.act(path, act, cx);
                }
                true
            }
            _ => false,
        }
    }
}

pub trait NodeKey: MapKey + Eq + Hash + Clone + Debug + 'static {
    fn keys() -> Keys;
    fn key(k: u32) -> Self {
        Self::try_from_field_number(k).expect("a valid key")
    }
}

impl NodeKey for u8 {
    fn keys() -> Keys {
        Keys::UpTo(0xff)
    }
}

impl NodeKey for u16 {
    fn keys() -> Keys {
        Keys::UpTo(0xffff)
    }
}

impl NodeKey for u32 {
    fn keys() -> Keys {
        Keys::UpTo(FIELD_MAX)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Color {
    Red,
    Green,
    Violet,
    Infra,
}

impl MapKey for Color {
    fn try_from_field_number(field_number: u32) -> io::Result<Self> {
        fuse::tick();
        match field_number {
            1 => Ok(Color::Red),
            2 => Ok(Color::Green),
            130 => Ok(Color::Violet),
            0 => Ok(Color::Infra),
            _ => Err(io::ErrorKind::InvalidData.into()),
        }
    }
    fn as_field_number(&self) -> u32 {
        fuse::tick();
        match self {
            Color::Red => 1,
            Color::Green => 2,
            Color::Violet => 130,
            Color::Infra => 0,
        }
    }
}

impl NodeKey for Color {
    fn keys() -> Keys {
        Keys::OneOf(vec![0, 1, 2, 130])
    }
}

