//! Root state objects behind one object-safe interface.

use std::{
    any::Any,
    io::{self, Read, Write},
};

use model::*;
use steit::{
    de::{Deserialize, Reader},
    rt::Runtime,
    ser::Serialize,
    state::State,
};

use super::{Cx, Node, Split};

/// A root state object of some schema.
pub trait Obj {
    fn schema(&self) -> &'static str;
    fn obs(&self) -> Val;
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool;
    fn replay(&mut self, r: &mut dyn Read) -> io::Result<()>;
    fn merge(&mut self, r: &mut dyn Read) -> io::Result<()>;
    fn serialize(&self, w: &mut dyn Write) -> io::Result<()>;
    fn serialize_nested(&self, field: Option<u32>, omissible: bool, w: &mut dyn Write) -> io::Result<()>;
    fn compute_size(&self) -> u32;
    fn cache_size(&self) -> u32;
    fn compute_size_nested(&self, field: Option<u32>, omissible: bool) -> io::Result<u32>;
    fn to_bytes(&self) -> Vec<u8>;
    fn set_runtime(&mut self, rt: Runtime);
    fn is_root(&self) -> bool;
    /// Everything that only looks at the state.
    fn look(&self);
    fn clone_obj(&self) -> Box<dyn Obj>;
    fn same(&self, other: &dyn Obj) -> bool;
    fn any(&self) -> &dyn Any;
    fn any_mut(&mut self) -> &mut dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
}

impl<T: Node> Obj for T {
    fn schema(&self) -> &'static str {
        std::any::type_name::<T>()
    }
    fn obs(&self) -> Val {
        Node::obs(self)
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        Node::act(self, path, act, cx)
    }
    fn replay(&mut self, r: &mut dyn Read) -> io::Result<()> {
        State::replay(self, &mut Reader::new(r))
    }
    fn merge(&mut self, r: &mut dyn Read) -> io::Result<()> {
        Deserialize::merge(self, &mut Reader::new(r))
    }
    fn serialize(&self, w: &mut dyn Write) -> io::Result<()> {
        let mut w = w;
        self.steit_serialize(&mut w)
    }
    fn serialize_nested(&self, field: Option<u32>, omissible: bool, w: &mut dyn Write) -> io::Result<()> {
        let mut w = w;
        Serialize::serialize_nested(self, field, omissible, &mut w)
    }
    fn compute_size(&self) -> u32 {
        Serialize::compute_size(self)
    }
    fn cache_size(&self) -> u32 {
        Serialize::cache_size(self)
    }
    fn compute_size_nested(&self, field: Option<u32>, omissible: bool) -> io::Result<u32> {
        Serialize::compute_size_nested(self, field, omissible)
    }
    fn to_bytes(&self) -> Vec<u8> {
        Serialize::to_bytes(self)
    }
    fn set_runtime(&mut self, rt: Runtime) {
        State::set_runtime(self, rt)
    }
    fn is_root(&self) -> bool {
        State::is_root(self)
    }
    fn look(&self) {
        let copy = self.clone();
        assert!(copy == *self, "a clone equals the original");
        let _ = format!("{:?}", self);
        let _ = Node::obs(&copy);
        Node::aside(self);
    }
    fn clone_obj(&self) -> Box<dyn Obj> {
        Box::new(self.clone())
    }
    fn same(&self, other: &dyn Obj) -> bool {
        other.any().downcast_ref::<T>().map_or(false, |other| self == other)
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
}

/// An object that may be shared between threads and split into disjoint parts.
pub trait Shared: Obj + Split + Send + Sync {
    fn obj(&self) -> &(dyn Obj + 'static);
    fn obj_mut(&mut self) -> &mut (dyn Obj + 'static);
}

impl<T: Obj + Split + Send + Sync + 'static> Shared for T {
    fn obj(&self) -> &(dyn Obj + 'static) {
        self
    }
    fn obj_mut(&mut self) -> &mut (dyn Obj + 'static) {
        self
    }
}

