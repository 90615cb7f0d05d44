//! Exhaustive explorers for the `indexing` crate: common driver, observation values, and the
//! operation tables with their reference models.
#![allow(clippy::all)]

pub mod closures;
pub mod ctx;
pub mod elem;
pub mod faults;
pub mod gen;
pub mod huge;
pub mod ops;
pub mod searches;
pub mod sorts;
pub mod spec;
pub mod store;

pub use ctx::*;

pub use indexing::{NonEmpty, Unknown};

/// Whether vectors are to be explored. Not when builds with and without the standard library are compared.
pub fn vecs() -> bool {
    cfg!(feature = "std") && std::env::var_os("MC_NOVEC").is_none()
}

/// Lets the harness see which proof marking a returned value has at compile time.
pub trait Tag {
    const NE: bool;
}
impl Tag for NonEmpty {
    const NE: bool = true;
}
impl Tag for Unknown {
    const NE: bool = false;
}

/// An observed (or expected) value. The boolean of `I` and `R` is the static marking.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum V {
    I(bool, usize),
    R(bool, usize, usize),
    B(bool),
    N(usize),
    Err,
    None,
}

impl V {
    /// Equality that ignores the static marking.
    pub fn same(&self, o: &V) -> bool {
        match (*self, *o) {
            (V::I(_, a), V::I(_, b)) => a == b,
            (V::R(_, a, b), V::R(_, c, d)) => a == c && b == d,
            (a, b) => a == b,
        }
    }
}

pub fn same(a: &[V], b: &[V]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y))
}

/// What one check looks at. Each operation belongs to one group.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum G {
    Algebra = 1,
    Step = 2,
    Vet = 4,
    Sub = 8,
    Scan = 16,
    Iter = 32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// results are in bounds
    Bounds,
    /// markings are right
    Proof,
    /// results equal the reference model's
    Exact,
    /// nothing is judged; observations only go into the digest
    Digest,
}
