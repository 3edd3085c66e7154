//! What steit's values, bytes and log entries mean, independently of its code.

mod act;
mod gen;
mod rng;
mod ty;
pub mod noise;
pub mod wire;

pub use act::*;
pub use gen::*;
pub use rng::*;
pub use ty::*;
