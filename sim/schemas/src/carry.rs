//! Framed values of all sorts, as they travel on a stream that carries more than one of them.

use std::collections::HashMap;
use std::io::{self, Read, Write};

use model::*;
use steit::{
    de::{Deserialize, Reader},
    log::LogEntry,
    rt::Runtime,
    ser::Serialize,
    types::{Bytes, List, Map, Maybe},
    wire_fmt::{HasWireType, WireType},
};

use super::{gen::*, Color, Leaf, Node};

pub type Pipe = Reader<Box<dyn Read>>;
/// What `Reader::nested` returns.
pub type Frame<'a> = Reader<io::Take<Reader<&'a mut dyn Read>>>;
/// What `Reader::as_mut_read` returns.
pub type Sub<'a> = Reader<&'a mut dyn Read>;

pub struct Framed {
    pub name: &'static str,
    pub ty: Ty,
    /// Writes the value, and returns the size it was said to have and whether it was written.
    pub write: fn(&Val, Option<u32>, bool, &mut dyn Write) -> (io::Result<u32>, io::Result<()>),
    pub read: fn(WireType, &mut Pipe) -> io::Result<Val>,
    pub read_frame: for<'a> fn(WireType, &mut Frame<'a>) -> io::Result<Val>,
    pub read_sub: for<'a> fn(WireType, &mut Sub<'a>) -> io::Result<Val>,
    pub merge: fn(&Val, WireType, &mut Pipe) -> io::Result<Val>,
    /// The entry that sets the place of the handle, or a child of that place, to the value; or pushes it.
    pub entry: fn(&Val, &Runtime, bool, Option<u32>) -> LogEntry,
    /// The same, logged right away.
    pub log: fn(&Val, &Runtime, bool, Option<u32>) -> io::Result<()>,
}

macro_rules! framed {
    ($reg:expr, $name:expr, $ty:ty, $trait:ident, |$v:ident| $build:expr) => {
        Framed {
            name: $name,
            ty: <$ty as $trait>::ty($reg),
            write: |$v, field, omissible, w| {
                let x: $ty = $build;
                let size = x.compute_size_nested(field, omissible);
                x.cache_size();
                let mut w = w;
                (size, x.serialize_nested(field, omissible, &mut w))
            },
            read: |wire, r| <$ty>::deserialize_nested(wire, r).map(|x| $trait::obs(&x)),
            read_frame: |wire, r| <$ty>::deserialize_nested(wire, r).map(|x| $trait::obs(&x)),
            read_sub: |wire, r| <$ty>::deserialize_nested(wire, r).map(|x| $trait::obs(&x)),
            merge: |$v, wire, r| {
                let mut x: $ty = $build;
                x.merge_nested(wire, r)?;
                Ok($trait::obs(&x))
            },
            entry: |$v, rt, push, child| {
                let x: $ty = $build;
                match (push, child) {
                    (true, _) => rt.entry_list_push(&x),
                    (_, Some(n)) => rt.entry_update_child(n, &x),
                    _ => rt.entry_update(&x),
                }
            },
            log: |$v, rt, push, child| {
                let x: $ty = $build;
                match (push, child) {
                    (true, _) => rt.log_list_push(&x),
                    (_, Some(n)) => rt.log_update_child(n, &x),
                    _ => rt.log_update(&x),
                }
            },
        }
    };
}

macro_rules! states {
    ($reg:expr, $out:expr, $($ty:ty),* $(,)?) => {
        $($out.push(framed!($reg, stringify!($ty), $ty, Node, |v| Node::build(v, Runtime::new())));)*
    };
}

macro_rules! leaves {
    ($reg:expr, $out:expr, $($ty:ty),* $(,)?) => {
        $($out.push(framed!($reg, stringify!($ty), $ty, Leaf, |v| Leaf::build(v)));)*
    };
}

pub(super) fn describe(reg: &mut Reg) -> Vec<Framed> {
    let mut out = Vec::new();
    leaves!(
        reg, out, u8, u16, u32, u64, i8, i16, i32, i64, bool, String, Bytes, Vec<u32>, Vec<String>, Option<u64>,
        Option<String>, (u8, String), [i16; 3], HashMap<u16, String>, Vec<Vec<bool>>, Box<String>, Coin, Nil,
        Face,
    );
    states!(
        reg, out, Prims, Item, Profile, Pair, Shape, Mode, Tree, Doc, List<Item>, List<u64>, Map<u8, List<i16>>,
        Map<Color, Shape>, Maybe<Item>, Box<Shape>, Crate, Ledger, Bare,
    );
    out
}

/// Everything that may be carried.
pub fn framed() -> &'static [Framed] {
    super::all();
    FRAMED.get().expect("described along with the schemas")
}

pub(super) static FRAMED: std::sync::OnceLock<Vec<Framed>> = std::sync::OnceLock::new();

/// Reads an entry, and encodes it again.
pub fn read_entry(r: &mut Pipe) -> io::Result<Vec<u8>> {
    LogEntry::deserialize_nested(LogEntry::WIRE_TYPE, r).map(|e| super::entry_bytes(&e))
}
