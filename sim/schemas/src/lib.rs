//! The simulated schemas. Everything in here drives the real library through its public API;
//! nothing is known about its internals.

#![allow(non_local_definitions, unused)]

use std::io::{self, Read};
use std::path::Path;

use model::*;
use steit::{
    de::Reader,
    gen::{
        generators::{CSharpGenerator, CSharpSetting},
        Generator, Setting,
    },
    meta::HasMeta,
};

#[macro_use]
mod node;
mod carry;
mod loggers;
mod obj;

pub use carry::*;
pub use loggers::*;
pub use node::*;
pub use obj::*;

#[rustfmt::skip]
#[allow(unused)]
mod gen;

pub struct Schema {
    pub name: &'static str,
    pub ty: Ty,
    pub new: fn(Runtime) -> Box<dyn Obj>,
    pub build: fn(&Val, Runtime) -> Box<dyn Obj>,
    pub load: fn(&mut dyn Read) -> io::Result<Box<dyn Obj>>,
    /// Generates client code.
    pub generate: Option<Generate>,
    pub hash: Option<fn(&dyn Obj) -> u64>,
}

/// How to generate code.
#[derive(Clone, Debug, Default)]
pub struct GenOpts {
    /// Built-in types are generated as well.
    pub builtins: bool,
    /// Files are named after the Rust types.
    pub rust_names: bool,
    /// Files not to generate.
    pub skip: Vec<String>,
    /// More namespaces to use.
    pub using: Vec<String>,
}

pub type Generate = fn(&Path, &GenOpts) -> io::Result<Vec<String>>;

fn generate<T: HasMeta>(dir: &Path, opts: &GenOpts) -> io::Result<Vec<String>> {
    let inner = CSharpSetting::new("Sim.Client").using_namespaces(&opts.using);
    let mut setting = Setting::new(&dir, inner).skip_builtins(!opts.builtins).skip_names(&opts.skip);
    if opts.rust_names {
        setting = setting.get_name_rust();
    }
    CSharpGenerator.generate::<T>(&setting)
}

/// By a hasher that isn't seeded.
fn hash_of<T: Node + std::hash::Hash>(x: &dyn Obj) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.any().downcast_ref::<T>().expect("an object of the schema").hash(&mut h);
    h.finish()
}

fn schema<T: Node>(reg: &mut Reg, name: &'static str, generate: Option<Generate>, hash: Option<fn(&dyn Obj) -> u64>) -> Schema {
    Schema {
        name,
        ty: T::ty(reg),
        new: |rt| Box::new(T::with_runtime(rt)),
        build: |v, rt| Box::new(T::build(v, rt)),
        load: |r| T::deserialize(&mut Reader::new(r)).map(|x| Box::new(x) as Box<dyn Obj>),
        generate,
        hash,
    }
}

/// The schemas; freezes the definition table.
pub fn all() -> &'static [Schema] {
    static ALL: std::sync::OnceLock<Vec<Schema>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut reg = Reg::default();
        let all = gen::roots(&mut reg);
        let _ = carry::FRAMED.set(carry::describe(&mut reg));
        freeze(reg);
        all
    })
}

pub fn by_name(name: &str) -> &'static Schema {
    all().iter().find(|s| s.name == name).unwrap_or_else(|| panic!("no schema {}", name))
}

pub fn team(rt: Runtime) -> Box<dyn Shared> {
    Box::new(gen::Team::with_runtime(rt))
}

/// The client's name for a derived type.
pub fn class_name(rust: &str) -> &str {
    match rust {
        "Crate" => "Chest",
        n => n,
    }
}
