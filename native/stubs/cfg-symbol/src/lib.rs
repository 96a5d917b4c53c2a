//! Stand-in for the absent `cfg-symbol` crate: a symbol is an opaque number.
use miniserde::{Deserialize, Serialize};

pub trait SymbolPrimitive: Copy + Ord + std::fmt::Debug + 'static {
    fn to_usize(self) -> usize;
    fn from_usize(n: usize) -> Self;
}
impl SymbolPrimitive for u32 {
    fn to_usize(self) -> usize { self as usize }
    fn from_usize(n: usize) -> Self { n as u32 }
}
impl SymbolPrimitive for u16 {
    fn to_usize(self) -> usize { self as usize }
    fn from_usize(n: usize) -> Self { n as u16 }
}

#[derive(Serialize, Deserialize, Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Symbol<T: SymbolPrimitive = u32> {
    n: T,
}

impl<T: SymbolPrimitive> Symbol<T> {
    #[inline]
    pub fn usize(self) -> usize { self.n.to_usize() }
    #[inline]
    pub fn from_raw(n: T) -> Self { Symbol { n } }
}

pub struct SymbolSource;

#[derive(Clone)]
pub struct Generate { next: usize }

impl SymbolSource {
    pub fn generate_fresh() -> Generate { Generate { next: 0 } }
}

impl Iterator for Generate {
    type Item = Symbol;
    fn next(&mut self) -> Option<Symbol> {
        let s = Symbol::from_raw(self.next as u32);
        self.next += 1;
        Some(s)
    }
}

pub mod intern {
    use super::*;
    #[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq, Eq)]
    pub struct Mapping { pub to_internal: Vec<Option<Symbol>>, pub to_external: Vec<Symbol> }
}
