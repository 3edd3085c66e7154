//! Mutations of a state object, and the log entries they stand for.

use serde::{Deserialize, Serialize};

use super::ty::*;
use super::wire::{self, Entry};

/// How the value of a mutation is produced and attached.
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum How {
    /// Built on its own, passed to the plain setter / `push` / `insert`.
    Plain,
    /// Built with the runtime given to the builder callback.
    With,
    /// Built under a foreign runtime with its own logger.
    Foreign,
    /// Decoded from bytes, then attached.
    Decoded,
    /// Built in the callback, which then mutates the value.
    Nested(Vec<(Vec<u32>, Act)>),
    /// As `Nested`, but the callback panics at the end.
    Panic(Vec<(Vec<u32>, Act)>),
    /// What was taken out of some state before, passed to the plain mutator.
    Held,
    /// The same, returned by the callback.
    HeldWith,
}

/// What happens to a value after it was taken out of a container.
#[derive(Clone, PartialEq, Debug, Default, Serialize, Deserialize)]
pub struct Then {
    /// Mutations of the detached value.
    pub acts: Vec<(Vec<u32>, Act)>,
    /// Put it back (push to the list, insert at the key).
    pub back: bool,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Act {
    /// `set_<field>[_with]` on a struct.
    Set { tag: u32, val: Val, how: How },
    /// The setter of a `no_state` field.
    SetNs { tag: u32, val: Val },
    /// `set_<variant>_<field>[_with]` on an enum.
    VSet { vtag: u32, tag: u32, val: Val, how: How },
    VSetNs { vtag: u32, tag: u32, val: Val },
    Push { val: Val, how: How },
    Pop { then: Then },
    SwapRemove { i: u32, then: Then },
    /// `then` happens to the value that was replaced, if any (it is never put back).
    Insert { key: u32, val: Val, how: How, then: Then },
    Remove { key: u32, then: Then },
    /// Applies an act to every item through a mutable iterator.
    Each { path: Vec<u32>, act: Box<Act> },
}

/// What a mutation means to a follower.
#[derive(Clone, PartialEq, Debug)]
pub enum EffKind {
    Set(Val),
    Push(Val),
    Pop,
    Remove(u32),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Eff {
    pub path: Vec<u32>,
    pub ty: Ty,
    pub kind: EffKind,
}

impl Eff {
    fn new(path: Vec<u32>, ty: &Ty, kind: EffKind) -> Self {
        Eff {
            path,
            ty: ty.clone(),
            kind,
        }
    }

    /// The entry with this effect.
    pub fn entry(&self) -> Entry {
        let (kind, key, value) = match &self.kind {
            EffKind::Set(v) => (wire::UPDATE, 0, wire::encode(&self.ty, v)),
            EffKind::Push(v) => (wire::PUSH, 0, wire::encode(&self.ty, v)),
            EffKind::Pop => (wire::POP, 0, Vec::new()),
            EffKind::Remove(k) => (wire::REMOVE, *k, Vec::new()),
        };
        Entry {
            kind,
            path: self.path.clone(),
            key,
            value,
        }
    }
}

pub fn join(a: &[u32], b: &[u32]) -> Vec<u32> {
    a.iter().chain(b).copied().collect()
}

/// Applies the effect to a follower's value.
pub fn apply_eff(ty: &Ty, val: &mut Val, eff: &Eff) -> bool {
    match &eff.kind {
        EffKind::Set(v) => {
            if let Some((_, x)) = node(ty, val, &eff.path) {
                *x = v.clone();
                return true;
            }
            // A new map entry.
            if let Some((&last, path)) = eff.path.split_last() {
                if let Some((Ty::Map(_, _), Val::M(m))) = node(ty, val, path) {
                    m.insert(last, v.clone());
                    return true;
                }
            }
            false
        }
        kind => match (node(ty, val, &eff.path), kind) {
            (Some((Ty::List(_), Val::L(xs))), EffKind::Push(v)) => {
                xs.push(v.clone());
                true
            }
            (Some((Ty::List(_), Val::L(xs))), EffKind::Pop) => xs.pop().is_some(),
            (Some((Ty::Map(_, _), Val::M(m))), EffKind::Remove(k)) => m.remove(k).is_some(),
            _ => false,
        },
    }
}

/// Applies a mutation to the model. `None` if its address doesn't resolve (nothing happens).
/// Otherwise the effects on followers.
pub fn apply(ty: &Ty, val: &mut Val, path: &[u32], act: &Act) -> Option<Vec<Eff>> {
    let (t, v) = node(ty, val, path)?;
    apply_here(&t, v, path, act)
}

pub fn apply_all(ty: &Ty, val: &mut Val, acts: &[(Vec<u32>, Act)]) {
    for (p, a) in acts {
        apply(ty, val, p, a);
    }
}

/// The value a builder ends up with; `None` if it panics.
fn built(ty: &Ty, val: &Val, how: &How) -> Option<Val> {
    match how {
        How::Nested(acts) => {
            let mut v = val.clone();
            apply_all(ty, &mut v, acts);
            Some(v)
        }
        How::Panic(_) => None,
        _ => Some(val.clone()),
    }
}

fn apply_here(ty: &Ty, val: &mut Val, path: &[u32], act: &Act) -> Option<Vec<Eff>> {
    let mut effs = Vec::new();
    match act {
        Act::Set { tag, val: new, how } => {
            let fields = ty.fields()?;
            let i = fields.iter().position(|f| f.tag == *tag && f.state)?;
            if let Some(new) = built(&fields[i].ty, new, how) {
                val.list_mut()[i] = new.clone();
                effs.push(Eff::new(join(path, &[*tag]), &fields[i].ty, EffKind::Set(new)));
            }
        }
        Act::SetNs { tag, val: new } => {
            let fields = ty.fields()?;
            let i = fields.iter().position(|f| f.tag == *tag && !f.state)?;
            val.list_mut()[i] = new.clone();
        }
        Act::VSet { vtag, tag, .. } | Act::VSetNs { vtag, tag, .. } => {
            let variant = find_variant(ty.variants()?, *vtag)?;
            let state = matches!(act, Act::VSet { .. });
            let i = variant.fields.iter().position(|f| f.tag == *tag && f.state == state)?;
            let old = match val {
                Val::E(old, _) => *old,
                _ => return None,
            };
            if old != *vtag {
                if let Act::VSet { how: How::Panic(_), .. } = act {
                    // Whether the variant is switched before the builder runs is unspecified.
                    return None;
                }
                *val = default_variant(variant);
                effs.push(Eff::new(path.to_vec(), ty, EffKind::Set(val.clone())));
            }
            let xs = match val {
                Val::E(_, xs) => xs,
                _ => unreachable!(),
            };
            let fty = &variant.fields[i].ty;
            match act {
                Act::VSet { val: new, how, .. } => {
                    if let Some(new) = built(fty, new, how) {
                        xs[i] = new.clone();
                        effs.push(Eff::new(join(path, &[*vtag, *tag]), fty, EffKind::Set(new)));
                    }
                }
                Act::VSetNs { val: new, .. } => xs[i] = new.clone(),
                _ => unreachable!(),
            }
        }
        Act::Push { val: new, how } => {
            let t = match ty {
                Ty::List(t) => t,
                _ => return None,
            };
            if let Some(new) = built(t, new, how) {
                val.list_mut().push(new.clone());
                effs.push(Eff::new(path.to_vec(), t, EffKind::Push(new)));
            }
        }
        Act::Pop { then } => {
            let t = match ty {
                Ty::List(t) => t,
                _ => return None,
            };
            if let Some(mut old) = val.list_mut().pop() {
                effs.push(Eff::new(path.to_vec(), t, EffKind::Pop));
                apply_all(t, &mut old, &then.acts);
                if then.back {
                    val.list_mut().push(old.clone());
                    effs.push(Eff::new(path.to_vec(), t, EffKind::Push(old)));
                }
            }
        }
        Act::SwapRemove { i, then } => {
            let t = match ty {
                Ty::List(t) => t,
                _ => return None,
            };
            let xs = val.list_mut();
            let i = *i as usize;
            if i < xs.len() {
                let mut old = xs.swap_remove(i);
                effs.push(Eff::new(path.to_vec(), t, EffKind::Pop));
                if i < xs.len() {
                    let moved = xs[i].clone();
                    effs.push(Eff::new(join(path, &[i as u32]), t, EffKind::Set(moved)));
                }
                apply_all(t, &mut old, &then.acts);
                if then.back {
                    val.list_mut().push(old.clone());
                    effs.push(Eff::new(path.to_vec(), t, EffKind::Push(old)));
                }
            }
        }
        Act::Insert { key, val: new, how, .. } => {
            let (keys, t) = match ty {
                Ty::Map(keys, t) => (keys, t),
                _ => return None,
            };
            if !keys.valid(*key) {
                return None;
            }
            if let Some(new) = built(t, new, how) {
                val.map_mut().insert(*key, new.clone());
                effs.push(Eff::new(join(path, &[*key]), t, EffKind::Set(new)));
            }
        }
        Act::Remove { key, then } => {
            let (keys, t) = match ty {
                Ty::Map(keys, t) => (keys, t),
                _ => return None,
            };
            if !keys.valid(*key) {
                return None;
            }
            if let Some(mut old) = val.map_mut().remove(key) {
                effs.push(Eff::new(path.to_vec(), t, EffKind::Remove(*key)));
                apply_all(t, &mut old, &then.acts);
                if then.back {
                    val.map_mut().insert(*key, old.clone());
                    effs.push(Eff::new(join(path, &[*key]), t, EffKind::Set(old)));
                }
            }
        }
        Act::Each { path: sub, act } => {
            let (t, items): (&Ty, Vec<(u32, &mut Val)>) = match (ty, val) {
                (Ty::List(t), Val::L(xs)) => {
                    (t, xs.iter_mut().enumerate().map(|(i, x)| (i as u32, x)).collect())
                }
                (Ty::Map(_, t), Val::M(m)) => (t, m.iter_mut().map(|(k, x)| (*k, x)).collect()),
                _ => return None,
            };
            for (k, item) in items {
                if let Some((it, iv)) = node(t, item, sub) {
                    let at = join(&join(path, &[k]), sub);
                    effs.extend(apply_here(&it, iv, &at, act).unwrap_or_default());
                }
            }
        }
    }
    Some(effs)
}

/// Whether the act makes a builder callback panic.
pub fn panics(act: &Act) -> bool {
    match act {
        Act::Set { how, .. } | Act::VSet { how, .. } | Act::Push { how, .. } | Act::Insert { how, .. } => {
            matches!(how, How::Panic(_))
        }
        _ => false,
    }
}
