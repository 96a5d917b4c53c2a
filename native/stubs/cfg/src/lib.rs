//! Stand-in for the absent `cfg` crate: a grammar that is already proper, wrapped, binarised and free of empty rules
//! (the driver prepares it); the steps that would do so here leave it as it is.
pub use cfg_symbol::Symbol;
use history::earley::*;
use std::cmp;

pub mod history { pub use cfg_history::earley; }
pub type SymbolName = String;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct EarleyDot { pub event: EventId, pub distance: MinimalDistance, pub trace: ExternalDottedRule }
impl EarleyDot {
    pub fn event_and_distance(&self) -> EventAndDistance { (self.event, self.distance) }
    pub fn trace(&self) -> ExternalDottedRule { self.trace }
}
#[derive(Clone, Debug)]
pub struct RuleHistory { pub origin: ExternalOrigin, pub nullable: NullingEliminated, pub dots: Vec<Option<EarleyDot>> }
impl RuleHistory {
    pub fn origin(&self) -> ExternalOrigin { self.origin }
    pub fn nullable(&self) -> NullingEliminated { self.nullable }
}
#[derive(Clone, Debug)]
pub struct CfgRule { pub lhs: Symbol, pub rhs: Vec<Symbol>, pub history: RuleHistory }
#[derive(Clone, Copy, Debug)]
pub struct WrappedRoot { pub start_of_input: Symbol, pub inner_root: Symbol, pub end_of_input: Symbol, pub root: Symbol }
#[derive(Clone, Copy, Debug)]
pub struct Dot { pub postdot: Option<Symbol>, pub earley: Option<EarleyDot> }
#[derive(Clone, Debug, Default)]
pub struct SymbolSource { names: Vec<Option<SymbolName>> }
impl SymbolSource {
    pub fn generate_fresh() -> cfg_symbol::Generate { cfg_symbol::SymbolSource::generate_fresh() }
    pub fn name_map(&self) -> std::collections::HashMap<SymbolName, Symbol> { self.names.iter().enumerate().filter_map(|(k, x)| x.clone().map(|x| (x, Symbol::from_raw(k as u32)))).collect() }
    pub fn set_name(&mut self, x: Symbol, n: SymbolName) { self.names[x.usize()] = Some(n); }
    pub fn names(&self) -> impl Iterator<Item = Option<SymbolName>> + '_ { self.names.iter().cloned() }
}
#[derive(Clone, Debug, Default)]
pub struct Cfg { pub rules: Vec<CfgRule>, pub syms: usize, pub wrapped: Vec<WrappedRoot>, pub roots: Vec<Symbol>, pub nulling: Vec<CfgRule>, pub source: SymbolSource }
impl Cfg {
    pub fn new(rules: Vec<CfgRule>, syms: usize, w: WrappedRoot, nulling: Vec<CfgRule>) -> Self {
        Cfg { rules, syms, wrapped: vec![w], roots: vec![w.root], nulling, source: SymbolSource { names: vec![None; syms] } }
    }
    pub fn rules(&self) -> std::slice::Iter<'_, CfgRule> { self.rules.iter() }
    pub fn is_empty(&self) -> bool { self.rules.is_empty() }
    pub fn num_syms(&self) -> usize { self.syms }
    pub fn sym_source(&self) -> &SymbolSource { &self.source }
    pub fn roots(&self) -> &[Symbol] { &self.roots }
    pub fn wrapped_roots(&self) -> &[WrappedRoot] { &self.wrapped }
    pub fn wrap_input(&mut self) {}
    pub fn binarize_and_eliminate_nulling_rules(&mut self) -> Cfg { Cfg { rules: std::mem::take(&mut self.nulling), syms: self.syms, ..Cfg::default() } }
    pub fn sort_by<F: FnMut(&CfgRule, &CfgRule) -> cmp::Ordering>(&mut self, f: F) { self.rules.sort_by(f); }
    pub fn column(&self, n: usize) -> impl Iterator<Item = Dot> + '_ { self.rules.iter().map(move |q| Dot { postdot: q.rhs.get(n).copied(), earley: q.history.dots[n] }) }
    pub fn stringify_to_bnf(&self) -> String { format!("{:?}", self.rules) }
    pub fn rename(&mut self, f: &dyn Fn(Symbol) -> Symbol) {
        for q in self.rules.iter_mut() { q.lhs = f(q.lhs); for x in q.rhs.iter_mut() { *x = f(*x); } }
        for w in self.wrapped.iter_mut() { for x in [&mut w.start_of_input, &mut w.inner_root, &mut w.end_of_input, &mut w.root] { *x = f(*x); } }
        for x in self.roots.iter_mut() { *x = f(*x); }
    }
}
pub mod classify {
    pub trait CfgClassifyExt { fn make_proper(&mut self) {} }
    impl CfgClassifyExt for super::Cfg {}
}

#[derive(Clone, Debug)]
pub struct BitVec { pub bits: Vec<bool> }
impl BitVec {
    pub fn iter(&self) -> std::iter::Copied<std::slice::Iter<'_, bool>> { self.bits.iter().copied() }
    pub fn blocks(&self) -> impl Iterator<Item = u32> + '_ { self.bits.chunks(32).map(|c| c.iter().enumerate().fold(0, |w, (i, b)| w | ((*b as u32) << i))) }
}
#[derive(Clone, Debug)]
pub struct SymbolBitSet { v: BitVec }
impl SymbolBitSet {
    pub fn from_elem(g: &Cfg, x: bool) -> Self { SymbolBitSet { v: BitVec { bits: vec![x; g.syms] } } }
    pub fn set(&mut self, s: Symbol, x: bool) { self.v.bits[s.usize()] = x; }
    pub fn bit_vec(&self) -> &BitVec { &self.v }
    pub fn negate(&mut self) { for b in self.v.bits.iter_mut() { *b = !*b; } }
    pub fn iter(&self) -> impl Iterator<Item = Symbol> + '_ { self.v.bits.iter().enumerate().filter(|x| *x.1).map(|x| Symbol::from_raw(x.0 as u32)) }
}
pub mod symbol_bit_matrix {
    use super::*;
    use bit_matrix::BitMatrix;
    use cfg_symbol::intern::Mapping;
    use std::ops;
    #[derive(Clone, Debug)]
    pub struct SymbolBitMatrix { m: BitMatrix }
    impl ops::Deref for SymbolBitMatrix { type Target = BitMatrix; fn deref(&self) -> &BitMatrix { &self.m } }
    impl ops::DerefMut for SymbolBitMatrix { fn deref_mut(&mut self) -> &mut BitMatrix { &mut self.m } }
    impl ops::Index<(Symbol, Symbol)> for SymbolBitMatrix { type Output = bool; fn index(&self, (a, b): (Symbol, Symbol)) -> &bool { &self.m[(a.usize(), b.usize())] } }
    pub trait CfgSymbolBitMatrixExt { fn empty_matrix(&self) -> SymbolBitMatrix; }
    impl CfgSymbolBitMatrixExt for Cfg { fn empty_matrix(&self) -> SymbolBitMatrix { SymbolBitMatrix { m: BitMatrix::new(self.syms, self.syms) } } }
    /// Renumbers the grammar's symbols.
    pub struct Remap<'a> { g: &'a mut Cfg, order: Vec<Symbol> }
    impl<'a> Remap<'a> {
        pub fn new(g: &'a mut Cfg) -> Self { let order = (0..g.syms).map(|n| Symbol::from_raw(n as u32)).collect(); Remap { g, order } }
        /// An order in which no symbol comes after one that it is less than.
        pub fn reorder_symbols<F: Fn(Symbol, Symbol) -> cmp::Ordering>(&mut self, f: F) {
            let mut left = std::mem::take(&mut self.order);
            while !left.is_empty() {
                let k = (0..left.len()).find(|&i| (0..left.len()).all(|j| i == j || f(left[j], left[i]) != cmp::Ordering::Less)).unwrap_or(0);
                self.order.push(left.remove(k));
            }
        }
        pub fn remove_unused_symbols(&mut self) {
            let mut used = vec![false; self.g.syms];
            for q in &self.g.rules { used[q.lhs.usize()] = true; for x in &q.rhs { used[x.usize()] = true; } }
            for w in &self.g.wrapped { for x in [w.start_of_input, w.inner_root, w.end_of_input, w.root] { used[x.usize()] = true; } }
            self.order.retain(|x| used[x.usize()]);
        }
        pub fn get_mapping(self) -> Mapping {
            let mut to_internal = vec![None; self.g.syms];
            for (k, x) in self.order.iter().enumerate() { to_internal[x.usize()] = Some(Symbol::from_raw(k as u32)); }
            let t = to_internal.clone();
            self.g.rename(&|x| t[x.usize()].unwrap());
            self.g.syms = self.order.len();
            Mapping { to_internal, to_external: self.order }
        }
    }
}
pub mod predict_sets {
    use super::*;
    use std::collections::{BTreeMap, BTreeSet};
    pub type Sets = BTreeMap<Symbol, BTreeSet<Symbol>>;
    pub trait PredictSets { fn predict_sets(&self) -> &Sets; }
    /// The terminals that a string of each symbol can begin with, or that can follow it.
    pub struct FirstSets { s: Sets }
    pub struct FollowSets { s: Sets }
    impl PredictSets for FirstSets { fn predict_sets(&self) -> &Sets { &self.s } }
    impl PredictSets for FollowSets { fn predict_sets(&self) -> &Sets { &self.s } }
    fn terminal(g: &Cfg, x: Symbol) -> bool { g.rules.iter().all(|q| q.lhs != x) }
    impl FirstSets {
        pub fn new(g: &Cfg) -> Self {
            let mut s: Sets = (0..g.syms).map(|n| (Symbol::from_raw(n as u32), BTreeSet::new())).collect();
            loop {
                let mut ch = false;
                for q in &g.rules {
                    let x = q.rhs[0]; let add: Vec<Symbol> = if terminal(g, x) { vec![x] } else { s[&x].iter().copied().collect() };
                    for y in add { ch |= s.get_mut(&q.lhs).unwrap().insert(y); }
                }
                if !ch { return FirstSets { s }; }
            }
        }
    }
    impl FollowSets {
        pub fn new(g: &Cfg, first: &Sets) -> Self {
            let mut s: Sets = (0..g.syms).map(|n| (Symbol::from_raw(n as u32), BTreeSet::new())).collect();
            loop {
                let mut ch = false;
                for q in &g.rules {
                    if q.rhs.len() == 2 {
                        let x = q.rhs[1]; let add: Vec<Symbol> = if terminal(g, x) { vec![x] } else { first[&x].iter().copied().collect() };
                        for y in add { ch |= s.get_mut(&q.rhs[0]).unwrap().insert(y); }
                    }
                    let add: Vec<Symbol> = s[&q.lhs].iter().copied().collect();
                    for y in add { ch |= s.get_mut(q.rhs.last().unwrap()).unwrap().insert(y); }
                }
                if !ch { return FollowSets { s }; }
            }
        }
    }
}
