//@ file D gearley-default-grammar/src/lib.rs
// ---- the processed rule list: assumed contracts on the absent crates cfg, cfg-symbol, bit-matrix, cfg-history ----
impl EventId { pub uninterp spec fn s_null() -> EventId; #[verifier::external_body] pub fn null() -> (r: EventId) ensures r == EventId::s_null() { unimplemented!() } }
impl MinimalDistance { pub uninterp spec fn s_null() -> MinimalDistance; #[verifier::external_body] pub fn null() -> (r: MinimalDistance) ensures r == MinimalDistance::s_null() { unimplemented!() } }
impl ExternalDottedRule { pub uninterp spec fn s_null() -> ExternalDottedRule; #[verifier::external_body] pub fn null() -> (r: ExternalDottedRule) ensures r == ExternalDottedRule::s_null() { unimplemented!() } }
impl ExternalOrigin { pub uninterp spec fn s_is_null(&self) -> bool; #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == self.s_is_null() { unimplemented!() } }
#[derive(Clone, Copy)] pub struct EarleyDot { pub event: EventId, pub distance: MinimalDistance, pub trace: ExternalDottedRule }
impl EarleyDot {
    pub fn event_and_distance(&self) -> (r: EventAndDistance) ensures r == (self.event, self.distance) { (self.event, self.distance) }
    pub fn trace(&self) -> (r: ExternalDottedRule) ensures r == self.trace { self.trace }
}
#[verifier::external_body] pub struct RuleHistory { x: u8 }
impl RuleHistory {
    pub uninterp spec fn s_origin(&self) -> ExternalOrigin;
    pub uninterp spec fn s_nullable(&self) -> NullingEliminated;
    /// What is recorded at each position of the rule.
    pub uninterp spec fn s_dots(&self) -> Seq<Option<EarleyDot>>;
    #[verifier::external_body] pub fn origin(&self) -> (r: ExternalOrigin) ensures r == self.s_origin() { unimplemented!() }
    #[verifier::external_body] pub fn nullable(&self) -> (r: NullingEliminated) ensures r == self.s_nullable() { unimplemented!() }
}
pub struct CfgRule { pub lhs: Symbol, pub rhs: Vec<Symbol>, pub history: RuleHistory }
#[derive(Clone, Copy)] pub struct WrappedRoot { pub start_of_input: Symbol, pub inner_root: Symbol, pub end_of_input: Symbol, pub root: Symbol }
pub struct ColumnDot { pub postdot: Option<Symbol>, pub earley: Option<EarleyDot> }
pub type Rules = Seq<CfgRule>;
#[verifier::external_body] pub struct Cfg { x: u8 }
impl Cfg {
    /// The rules, in their order.
    pub uninterp spec fn list(&self) -> Rules;
    pub uninterp spec fn s_num_syms(&self) -> usize;
    pub uninterp spec fn s_wrapped(&self) -> Seq<WrappedRoot>;
    pub uninterp spec fn s_roots(&self) -> Seq<Symbol>;
    #[verifier::external_body] pub fn rules<'a>(&'a self) -> (r: SeqIter<&'a CfgRule>) ensures r@.len() == self.list().len(), forall|k: int| #![trigger r@[k]] #![trigger self.list()[k]] 0 <= k < r@.len() ==> *r@[k] == self.list()[k] { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.list().len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn num_syms(&self) -> (r: usize) ensures r == self.s_num_syms() { unimplemented!() }
    #[verifier::external_body] pub fn roots(&self) -> (r: &[Symbol]) ensures r@ == self.s_roots() { unimplemented!() }
    #[verifier::external_body] pub fn wrapped_roots(&self) -> (r: &[WrappedRoot]) ensures r@ == self.s_wrapped() { unimplemented!() }
    /// Position `n` of every rule.
    #[verifier::external_body] pub fn column(&self, n: usize) -> (r: SeqIter<ColumnDot>)
        ensures r@.len() == self.list().len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == column_dot(self.list()[k], n as int) { unimplemented!() }
}
pub open spec fn nth(q: CfgRule, n: int) -> Option<Symbol> { if n < q.rhs@.len() { Some(q.rhs@[n]) } else { None } }
pub open spec fn column_dot(q: CfgRule, n: int) -> ColumnDot { ColumnDot { postdot: nth(q, n), earley: q.history.s_dots()[n] } }
#[verifier::external_body] pub struct BitVec { x: u8 }
impl BitVec {
    pub uninterp spec fn bits(&self) -> Seq<bool>;
    #[verifier::external_body] pub fn iter(&self) -> (r: SeqIter<bool>) ensures r@ == self.bits() { unimplemented!() }
}
#[verifier::external_body] pub struct SymbolBitSet { x: u8 }
impl SymbolBitSet {
    pub uninterp spec fn bits(&self) -> Seq<bool>;
    #[verifier::external_body] pub fn from_elem(g: &Cfg, x: bool) -> (r: SymbolBitSet) ensures r.bits() == Seq::new(g.s_num_syms() as nat, |k: int| x) { unimplemented!() }
    #[verifier::external_body] pub fn set(&mut self, s: Symbol, x: bool) requires s.id() < old(self).bits().len() ensures final(self).bits() == old(self).bits().update(s.id(), x) { unimplemented!() }
    #[verifier::external_body] pub fn bit_vec(&self) -> (r: &BitVec) ensures r.bits() == self.bits() { unimplemented!() }
}
pub struct Mapping { pub to_internal: Vec<Option<Symbol>>, pub to_external: Vec<Symbol> }
impl BitMatrix {
    #[verifier::external_body]
    pub fn set(&mut self, row: usize, col: usize, enabled: bool)
        requires row < old(self).rows().len(), col < old(self).bits()
        ensures final(self).width() == old(self).width(), final(self).bits() == old(self).bits(), final(self).rows().len() == old(self).rows().len(), old(self).wf() ==> final(self).wf(),
            forall|i: int, j: int| 0 <= i < old(self).rows().len() ==> #[trigger] final(self).rows()[i].has(j) == (if i == row && j == col { enabled } else { old(self).rows()[i].has(j) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn transitive_closure(&mut self)
        ensures final(self).width() == old(self).width(), final(self).bits() == old(self).bits(), final(self).rows().len() == old(self).rows().len(), old(self).wf() ==> final(self).wf(),
            forall|i: int, j: int| 0 <= i < old(self).rows().len() ==> #[trigger] final(self).rows()[i].has(j) == path(|a: int, b: int| 0 <= a < old(self).rows().len() && old(self).rows()[a].has(b), i, j),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reflexive_closure(&mut self)
        ensures final(self).width() == old(self).width(), final(self).bits() == old(self).bits(), final(self).rows().len() == old(self).rows().len(), old(self).wf() ==> final(self).wf(),
            forall|i: int, j: int| 0 <= i < old(self).rows().len() ==> #[trigger] final(self).rows()[i].has(j) == (old(self).rows()[i].has(j) || (i == j && i < old(self).bits())),
    { unimplemented!() }
}
/// One or more steps of a relation.
pub open spec fn path(e: spec_fn(int, int) -> bool, i: int, j: int) -> bool { exists|p: Seq<int>| #[trigger] walk(e, p, i, j) }
pub open spec fn walk(e: spec_fn(int, int) -> bool, p: Seq<int>, i: int, j: int) -> bool { p.len() >= 2 && p[0] == i && p.last() == j && forall|k: int| 0 <= k < p.len() - 1 ==> e(#[trigger] p[k], p[k + 1]) }
/// The sets FIRST and FOLLOW, as the cfg crate has them.
#[verifier::external_body] pub struct SymSet { x: u8 }
impl IterSeq<Symbol> for SymSet { uninterp spec fn elems(&self) -> Seq<Symbol>; #[verifier::external_body] fn iter_seq_<'a>(&'a self) -> (r: SeqIter<&'a Symbol>) { unimplemented!() } }
#[verifier::external_body] pub struct Sets { x: u8 }
impl Sets {
    pub uninterp spec fn entries(&self) -> Seq<(Symbol, SymSet)>;
    /// `y` is in the set of `x`.
    pub open spec fn rel(&self, x: Symbol, y: Symbol) -> bool { exists|k: int| 0 <= k < self.entries().len() && (#[trigger] self.entries()[k]).0 == x && self.entries()[k].1.elems().contains(y) }
}
impl<'a> IntoSeq<(&'a Symbol, &'a SymSet)> for &'a Sets {
    open spec fn seq_(self) -> Seq<(&'a Symbol, &'a SymSet)> { Seq::new(self.entries().len(), |k: int| (&self.entries()[k].0, &self.entries()[k].1)) }
    #[verifier::external_body] fn into_seq_(self) -> (r: SeqIter<(&'a Symbol, &'a SymSet)>) { unimplemented!() }
}
/// Assumed of cfg: `y` is in FIRST(x), in FOLLOW(x).
pub uninterp spec fn first(g: Rules, x: Symbol, y: Symbol) -> bool;
pub uninterp spec fn follow(g: Rules, x: Symbol, y: Symbol) -> bool;
#[verifier::external_body] pub struct FirstSets { x: u8 }
#[verifier::external_body] pub struct FollowSets { x: u8 }
impl FirstSets {
    pub uninterp spec fn s_sets(&self) -> Sets;
    #[verifier::external_body] pub fn new(g: &Cfg) -> (r: FirstSets) ensures forall|x: Symbol, y: Symbol| #[trigger] r.s_sets().rel(x, y) == first(g.list(), x, y) { unimplemented!() }
    #[verifier::external_body] pub fn predict_sets(&self) -> (r: &Sets) ensures *r == self.s_sets() { unimplemented!() }
}
impl FollowSets {
    pub uninterp spec fn s_sets(&self) -> Sets;
    #[verifier::external_body] pub fn new(g: &Cfg, f: &Sets) -> (r: FollowSets)
        requires forall|x: Symbol, y: Symbol| #[trigger] f.rel(x, y) == first(g.list(), x, y)
        ensures forall|x: Symbol, y: Symbol| #[trigger] r.s_sets().rel(x, y) == follow(g.list(), x, y) { unimplemented!() }
    #[verifier::external_body] pub fn predict_sets(&self) -> (r: &Sets) ensures *r == self.s_sets() { unimplemented!() }
}
// ---- more of std (assumed) ----
impl<'a> SeqIter<&'a CfgRule> {
    /// A cloned rule equals its original.
    #[verifier::external_body]
    pub fn cloned(self) -> (r: SeqIter<CfgRule>) ensures r@.len() == self@.len(), forall|k: int| 0 <= k < self@.len() ==> #[trigger] r@[k] == *self@[k] { unimplemented!() }
}
impl<T> SeqIter<T> {
    #[verifier::external_body]
    pub fn rev(self) -> (r: SeqIter<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: FnMut(&T) -> bool>(self, f: F) -> (r: SeqIter<T>)
        requires forall|k: int| 0 <= k < self@.len() ==> call_requires(f, (&#[trigger] self@[k],))
        ensures r@ == kept(self@, fkeep(r)), fkeep(r).len() == self@.len(), forall|k: int| 0 <= k < self@.len() ==> call_ensures(f, (&self@[k],), #[trigger] fkeep(r)[k])
    { unimplemented!() }
    /// Where the first element is that `f` accepts.
    #[verifier::external_body]
    pub fn position<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires forall|k: int| 0 <= k < old(self)@.len() ==> call_requires(f, (#[trigger] old(self)@[k],))
        ensures r is Some ==> r->0 < old(self)@.len() && call_ensures(f, (old(self)@[r->0 as int],), true), forall|k: int| 0 <= k < old(self)@.len() && (r is None || k < r->0) ==> call_ensures(f, (#[trigger] old(self)@[k],), false)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|k: int| 0 <= k < old(self)@.len() ==> call_requires(f, (#[trigger] old(self)@[k],))
        ensures r ==> exists|k: int| 0 <= k < old(self)@.len() && call_ensures(f, (#[trigger] old(self)@[k],), true), !r ==> forall|k: int| 0 <= k < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[k],), false)
    { unimplemented!() }
    /// `zip(0..)` with 32-bit numbers.
    #[verifier::external_body]
    pub fn zip_u32_(self) -> (r: SeqIter<(T, u32)>) requires self@.len() < 0x1_0000_0000 ensures r@.len() == self@.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (self@[k], k as u32) { unimplemented!() }
}
/// Assumed: a clone of plain copied data equals its original.
#[verifier::external_body]
pub proof fn clone_is_copy<T: Copy>() ensures forall|a: T, b: T| #[trigger] vstd::pervasive::cloned(a, b) ==> a == b { }
pub uninterp spec fn fkeep<T>(r: SeqIter<T>) -> Seq<bool>;
pub open spec fn kept<T>(s: Seq<T>, b: Seq<bool>) -> Seq<T> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let t = kept(s.drop_last(), b.drop_last()); if b.last() { t.push(s.last()) } else { t } } }
/// `iter::repeat`, to be cut with `take`; a clone equals its original.
pub struct Repeat<T> { pub x: T }
pub fn repeat_<T>(x: T) -> (r: Repeat<T>) ensures r.x == x { Repeat { x } }
impl<T> Repeat<T> { #[verifier::external_body] pub fn take(self, n: usize) -> (r: SeqIter<T>) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == self.x { unimplemented!() } }
pub trait ExtendAll<T> { spec fn all_(&self) -> Seq<T>; fn extend_all_<I: IntoSeq<T>>(&mut self, i: I) ensures final(self).all_() == old(self).all_() + i.seq_(); }
impl<T> ExtendAll<T> for Vec<T> {
    open spec fn all_(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn extend_all_<I: IntoSeq<T>>(&mut self, i: I) { unimplemented!() }
}
pub trait SortKey<T> {
    spec fn sk(&self) -> Seq<T>;
    fn sort_by_key_<F: FnMut(&T) -> Symbol>(&mut self, f: F)
        requires forall|k: int| 0 <= k < old(self).sk().len() ==> call_requires(f, (&#[trigger] old(self).sk()[k],))
        ensures final(self).sk().len() == old(self).sk().len(), final(self).sk().to_multiset() == old(self).sk().to_multiset(),
            forall|i: int, j: int| #![trigger final(self).sk()[i], final(self).sk()[j]] 0 <= i <= j < final(self).sk().len() ==> exists|a: Symbol, b: Symbol| a.id() <= b.id() && #[trigger] call_ensures(f, (&final(self).sk()[i],), a) && #[trigger] call_ensures(f, (&final(self).sk()[j],), b);
}
impl<T> SortKey<T> for Vec<T> {
    open spec fn sk(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn sort_by_key_<F: FnMut(&T) -> Symbol>(&mut self, f: F) { unimplemented!() }
}
pub trait BSearch<T> {
    spec fn bs(&self) -> Seq<T>;
    fn binary_search_by_key_<F: FnMut(&T) -> usize>(&self, b: &usize, f: F) -> (r: Result<usize, usize>)
        requires forall|k: int| 0 <= k < self.bs().len() ==> call_requires(f, (&#[trigger] self.bs()[k],)),
            forall|i: int, j: int, x: usize, y: usize| 0 <= i <= j < self.bs().len() && #[trigger] call_ensures(f, (&self.bs()[i],), x) && #[trigger] call_ensures(f, (&self.bs()[j],), y) ==> x <= y,
        ensures r is Ok ==> r->Ok_0 < self.bs().len() && call_ensures(f, (&self.bs()[r->Ok_0 as int],), *b),
            r is Err ==> forall|k: int| #![trigger self.bs()[k]] 0 <= k < self.bs().len() ==> exists|x: usize| x != *b && #[trigger] call_ensures(f, (&self.bs()[k],), x);
}
impl<T> BSearch<T> for [T] {
    open spec fn bs(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn binary_search_by_key_<F: FnMut(&T) -> usize>(&self, b: &usize, f: F) -> (r: Result<usize, usize>) { unimplemented!() }
}
impl ForestInfo { #[verifier::external_body] pub fn clone_(&self) -> (r: ForestInfo) ensures r == *self { unimplemented!() } }
impl<T> Vec2d<T> {
    /// P02's contract of `extend`, for lists of known contents.
    #[verifier::external_body]
    pub fn extend_lists_(&mut self, x: SeqIter<SeqIter<T>>)
        requires v_wf(*old(self))
        ensures v_wf(*final(self)), v_sets(*final(self)) == v_sets(*old(self)) + prefixed(v_cur(*old(self)), Seq::new(x@.len(), |k: int| x@[k]@)),
            v_cur(*final(self)) == (if x@.len() == 0 { v_cur(*old(self)) } else { Seq::<T>::empty() })
    { unimplemented!() }
}
//@ struct D Column public
//@ struct D DefaultGrammar public
//@ struct D CompletionTable public
//@ struct D DefaultGrammarSize public

// ---- what the rule list prescribes ----
/// A symbol numbered `n` or above is internal.
pub open spec fn shape(g: Rules) -> bool { forall|k: int| 0 <= k < g.len() ==> 1 <= (#[trigger] g[k]).rhs@.len() <= 2 }
/// How the chains of internal symbols run: `vis` is the user-visible left side a symbol is reached from, `rank` falls on the way.
pub ghost struct Chain { pub vis: spec_fn(Symbol) -> Symbol, pub rank: spec_fn(Symbol) -> nat }
pub open spec fn chain_ok(g: Rules, n: int, c: Chain) -> bool {
    &&& forall|k: int| 0 <= k < g.len() && (#[trigger] g[k]).rhs@[0].id() >= n ==> (c.vis)(g[k].rhs@[0]) == (c.vis)(g[k].lhs) && (c.rank)(g[k].lhs) < (c.rank)(g[k].rhs@[0])
    &&& forall|k: int| 0 <= k < g.len() && (#[trigger] g[k]).lhs.id() >= n ==> used_first(g, g[k].lhs)
    &&& forall|x: Symbol| x.id() < n ==> (#[trigger] (c.vis)(x)) == x
}
pub open spec fn used_first(g: Rules, x: Symbol) -> bool { exists|j: int| 0 <= j < g.len() && (#[trigger] g[j]).rhs@[0] == x }
pub open spec fn chained(g: Rules, n: int) -> bool { exists|c: Chain| chain_ok(g, n, c) }
pub open spec fn chain(g: Rules, n: int) -> Chain { choose|c: Chain| chain_ok(g, n, c) }
/// The rules, ordered by first symbol.
pub open spec fn index_of(v: Rules, g: Rules) -> bool {
    &&& v.to_multiset() == g.to_multiset()
    &&& forall|i: int, j: int| 0 <= i <= j < v.len() ==> (#[trigger] v[i]).rhs@[0].id() <= (#[trigger] v[j]).rhs@[0].id()
}
pub open spec fn trans(q: CfgRule, vis: Symbol, k: int) -> PredictionTransition { PredictionTransition { symbol: vis, dot: k as u32, is_unary: q.rhs@.len() == 1 } }
/// The first `k` rules' transitions that start with symbol `x`, in the order of the rules.
pub open spec fn lst(g: Rules, c: Chain, k: int, x: int, unary: bool) -> Seq<PredictionTransition> decreases k {
    if k <= 0 { Seq::empty() } else { let t = lst(g, c, k - 1, x, unary); let q = g[k - 1]; if q.rhs@[0].id() == x && (q.rhs@.len() == 1) == unary { t.push(trans(q, (c.vis)(q.lhs), k - 1)) } else { t } }
}
pub open spec fn last_of(s: Seq<PredictionTransition>) -> Option<PredictionTransition> { if s.len() == 0 { None } else { Some(s.last()) } }

/// How often `x` is the left side (0), the first symbol (1) of a two-symbol rule that does not begin with its left side, or a second symbol (2).
pub open spec fn counts(q: CfgRule, x: int, w: int) -> bool {
    if w == 2 { q.rhs@.len() == 2 && q.rhs@[1].id() == x } else { q.rhs@.len() == 2 && q.lhs != q.rhs@[0] && (if w == 0 { q.lhs.id() == x } else { q.rhs@[0].id() == x }) }
}
pub open spec fn cnt(g: Rules, k: int, x: int, w: int) -> int decreases k { if k <= 0 { 0 } else { cnt(g, k - 1, x, w) + (if counts(g[k - 1], x, w) { 1int } else { 0 }) } }
pub proof fn lemma_cnt(g: Rules, k: int, x: int, w: int)
    requires 0 <= k
    ensures 0 <= cnt(g, k, x, w) <= k
    decreases k
{ if k > 0 { lemma_cnt(g, k - 1, x, w); } }
pub open spec fn no_origin(g: Rules, k: int, x: int) -> bool { exists|j: int| 0 <= j < k && (#[trigger] g[j]).lhs.id() == x && g[j].history.s_origin().s_is_null() }
/// `x` is a symbol of the binariser.
pub open spec fn is_gen(g: Rules, x: int) -> bool { cnt(g, g.len() as int, x, 0) == 1 && cnt(g, g.len() as int, x, 1) == 1 && cnt(g, g.len() as int, x, 2) == 0 && no_origin(g, g.len() as int, x) }
pub open spec fn in_range(g: Rules, t: int) -> bool { forall|k: int| 0 <= k < g.len() ==> (#[trigger] g[k]).lhs.id() < t && forall|i: int| 0 <= i < g[k].rhs@.len() ==> (#[trigger] g[k].rhs@[i]).id() < t }
/// A processed rule list.
pub open spec fn listed(g: Cfg) -> bool { shape(g.list()) && in_range(g.list(), g.s_num_syms() as int) && g.list().len() < 0x8000_0000 && g.s_num_syms() < 0x8000_0000 }
/// The binariser's symbols are the ones numbered `n` and above (`remap_symbols` orders them so).
pub open spec fn numbered(g: Cfg, n: int) -> bool { listed(g) && 0 <= n <= g.s_num_syms() && forall|x: int| 0 <= x < g.s_num_syms() ==> #[trigger] is_gen(g.list(), x) == (x >= n) }
pub proof fn lemma_kept(s: Seq<bool>, b: Seq<bool>, m: int)
    requires s.len() == b.len(), 0 <= m <= s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] b[k] == (k < m)
    ensures kept(s, b).len() == m
    decreases s.len()
{ if s.len() > 0 { lemma_kept(s.drop_last(), b.drop_last(), if m == s.len() { m - 1 } else { m }); } }
pub open spec fn sized(z: DefaultGrammarSize, g: Cfg, n: int, maps: Mapping) -> bool {
    z.syms == n && z.gensyms == g.s_num_syms() - n && z.rules == g.list().len() && z.external_syms == maps.to_internal@.len() && z.internal_syms == maps.to_external@.len()
}
/// The root, and the rule that ends with the end of input.
pub open spec fn rooted(g: Cfg) -> bool { g.s_roots().len() == 1 && g.s_wrapped().len() > 0 && exists|k: int| 0 <= k < g.list().len() && ends_input(g, k) }
pub open spec fn ends_input(g: Cfg, k: int) -> bool { nth(g.list()[k], 1) == Some(g.s_wrapped()[0].end_of_input) }
pub open spec fn starts_set(s: DefaultGrammar, g: Cfg) -> bool {
    let w = g.s_wrapped()[0];
    &&& s.start_sym == w.root && s.sof_sym == w.start_of_input && s.eof_sym == w.end_of_input && s.original_start_sym == w.inner_root
    &&& s.forest_info.sof == w.start_of_input && s.forest_info.eof == w.end_of_input && s.forest_info.start == w.inner_root
    &&& s.dot_before_eof < g.list().len() && ends_input(g, s.dot_before_eof as int) && forall|k: int| 0 <= k < s.dot_before_eof ==> !#[trigger] ends_input(g, k)
}
/// The columns of symbols.
pub open spec fn col_lhs(g: Rules, s: Seq<Option<Symbol>>) -> bool { s.len() == g.len() && forall|k: int| 0 <= k < g.len() ==> #[trigger] s[k] == Some(g[k].lhs) }
pub open spec fn col_rhs(g: Rules, n: int, s: Seq<Option<Symbol>>) -> bool { s.len() == g.len() && forall|k: int| 0 <= k < g.len() ==> #[trigger] s[k] == nth(g[k], n) }
/// The records of origins, eliminated symbols, events and traces.
pub open spec fn col_eval(g: Rules, s: Seq<ExternalOrigin>) -> bool { s.len() == g.len() && forall|k: int| 0 <= k < g.len() ==> #[trigger] s[k] == g[k].history.s_origin() }
pub open spec fn col_elim(g: Rules, s: Seq<NullingEliminated>) -> bool { s.len() == g.len() && forall|k: int| 0 <= k < g.len() ==> #[trigger] s[k] == g[k].history.s_nullable() }
pub open spec fn dot_at(q: CfgRule, n: int) -> EarleyDot { q.history.s_dots()[n]->0 }
pub open spec fn dotted(g: Rules) -> bool { forall|k: int| 0 <= k < g.len() ==> (#[trigger] g[k]).history.s_dots()[1] is Some && g[k].history.s_dots()[2] is Some }
pub open spec fn col_ev(g: Rules, n: int, s: Seq<EventAndDistance>) -> bool { s.len() == g.len() && forall|k: int| 0 <= k < g.len() ==> #[trigger] s[k] == (dot_at(g[k], n).event, dot_at(g[k], n).distance) }
pub open spec fn col_tr(g: Rules, n: int, s: Seq<ExternalDottedRule>) -> bool { s.len() == g.len() && forall|k: int| 0 <= k < g.len() ==> #[trigger] s[k] == dot_at(g[k], n).trace }
/// Some rule among the first `k` begins with the visible symbol `j` and is reached from the visible symbol `i`.
pub open spec fn edge(g: Rules, n: int, k: int, i: int, j: int) -> bool { 0 <= i < n && 0 <= j < n && exists|q: int| 0 <= q < k && (#[trigger] g[q]).rhs@[0].id() == j && (chain(g, n).vis)(g[q].lhs).id() == i }
/// Prediction rows: the reflexive and transitive closure of "a rule of `i` begins with `j`".
pub open spec fn predicts(g: Rules, n: int, i: int, j: int) -> bool { 0 <= j < n && (i == j || path(|a: int, b: int| edge(g, n, g.len() as int, a, b), i, j)) }
pub open spec fn pred_rows(g: Rules, n: int, m: BitMatrix) -> bool { m.wf() && m.rows().len() == n && m.bits() == n && m.width() == (n + 31) / 32 && forall|i: int, j: int| 0 <= i < n ==> #[trigger] m.rows()[i].has(j) == predicts(g, n, i, j) }
pub proof fn lemma_path_same(d: spec_fn(int, int) -> bool, e: spec_fn(int, int) -> bool, i: int, j: int)
    requires forall|a: int, b: int| #[trigger] d(a, b) == e(a, b)
    ensures path(d, i, j) == path(e, i, j)
{
    if path(d, i, j) { let p = choose|p: Seq<int>| #[trigger] walk(d, p, i, j); assert(walk(e, p, i, j)) by { assert forall|k: int| 0 <= k < p.len() - 1 implies e(#[trigger] p[k], p[k + 1]) by { assert(d(p[k], p[k + 1])); } } }
    if path(e, i, j) { let p = choose|p: Seq<int>| #[trigger] walk(e, p, i, j); assert(walk(d, p, i, j)) by { assert forall|k: int| 0 <= k < p.len() - 1 implies d(#[trigger] p[k], p[k + 1]) by { assert(d(p[k], p[k + 1]) == e(p[k], p[k + 1])); } } }
}
pub proof fn lemma_indexed(v: Rules, g: Rules)
    requires index_of(v, g)
    ensures v.len() == g.len(), forall|i: int| 0 <= i < v.len() ==> g.contains(#[trigger] v[i]), forall|k: int| 0 <= k < g.len() ==> v.contains(#[trigger] g[k])
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(v.to_multiset().len() == g.to_multiset().len());
    assert forall|i: int| 0 <= i < v.len() implies g.contains(#[trigger] v[i]) by { assert(v.contains(v[i])); assert(g.to_multiset().count(v[i]) > 0); }
    assert forall|k: int| 0 <= k < g.len() implies v.contains(#[trigger] g[k]) by { assert(g.contains(g[k])); assert(v.to_multiset().count(g[k]) > 0); }
}
/// What a found entry of the index says about the chains.
pub open spec fn steps(v: Rules, g: Rules, n: int) -> bool {
    let c = chain(g, n);
    &&& forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]).rhs@[0].id() >= n ==> (c.vis)(v[i].rhs@[0]) == (c.vis)(v[i].lhs) && (c.rank)(v[i].lhs) < (c.rank)(v[i].rhs@[0])
    &&& forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]).lhs.id() >= n ==> used_first(v, v[i].lhs)
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).rhs@.len() >= 1
    &&& forall|k: int| 0 <= k < g.len() && (#[trigger] g[k]).lhs.id() >= n ==> used_first(v, g[k].lhs)
    &&& forall|x: Symbol| x.id() < n ==> (#[trigger] (c.vis)(x)) == x
}
pub proof fn lemma_steps(v: Rules, g: Rules, n: int)
    requires index_of(v, g), chained(g, n), shape(g)
    ensures steps(v, g, n)
{
    lemma_indexed(v, g); let c = chain(g, n);
    assert(chain_ok(g, n, c));
    assert forall|x: Symbol| used_first(g, x) implies used_first(v, x) by { let j = choose|j: int| 0 <= j < g.len() && (#[trigger] g[j]).rhs@[0] == x; assert(v.contains(g[j])); let i = choose|i: int| 0 <= i < v.len() && v[i] == g[j]; assert(v[i].rhs@[0] == x); }
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).rhs@.len() >= 1 && (v[i].rhs@[0].id() >= n ==> (c.vis)(v[i].rhs@[0]) == (c.vis)(v[i].lhs) && (c.rank)(v[i].lhs) < (c.rank)(v[i].rhs@[0])) && (v[i].lhs.id() >= n ==> used_first(v, v[i].lhs)) by {
        assert(g.contains(v[i])); let k = choose|k: int| 0 <= k < g.len() && g[k] == v[i]; assert(g[k].rhs@.len() >= 1);
    }
}
pub open spec fn sym(x: int) -> Symbol { Symbol { n: x as u32 } }
pub open spec fn lr_row(g: Rules, n: int, i: int, after: bool, j: int) -> bool { 0 <= j < n && (if after { follow(g, sym(i), sym(j)) } else { i == j || first(g, sym(i), sym(j)) }) }
/// Rows of what a symbol begins with (even) and of what follows it (odd).
pub open spec fn lr_rows(g: Rules, n: int, m: BitMatrix, k: int) -> bool { forall|r: int, j: int| 0 <= r < k ==> #[trigger] m.rows()[r].has(j) == lr_row(g, n, r / 2, r % 2 == 1, j) }
pub open spec fn lr_sized(n: int, m: BitMatrix) -> bool { m.wf() && m.rows().len() == 2 * n && m.width() == (n + 31) / 32 && m.bits() == n }
/// The relation, by the first `k` entries.
pub open spec fn rel_upto(s: Sets, k: int, x: int, y: int) -> bool { exists|q: int| 0 <= q < k && #[trigger] in_entry(s, q, x, y, s.entries()[q].1.elems().len() as int) }
pub open spec fn in_entry(s: Sets, q: int, x: int, y: int, m: int) -> bool { s.entries()[q].0.id() == x && exists|l: int| 0 <= l < m && (#[trigger] s.entries()[q].1.elems()[l]).id() == y }
pub proof fn lemma_rel(s: Sets, x: int, y: int)
    requires 0 <= x < 0x8000_0000, 0 <= y < 0x8000_0000
    ensures rel_upto(s, s.entries().len() as int, x, y) == s.rel(sym(x), sym(y))
{
    let e = s.entries();
    if rel_upto(s, e.len() as int, x, y) {
        let q = choose|q: int| 0 <= q < e.len() && #[trigger] in_entry(s, q, x, y, e[q].1.elems().len() as int);
        let l = choose|l: int| 0 <= l < e[q].1.elems().len() && (#[trigger] e[q].1.elems()[l]).id() == y;
        assert(e[q].0 == sym(x) && e[q].1.elems()[l] == sym(y)); assert(e[q].1.elems().contains(sym(y)));
    }
    if s.rel(sym(x), sym(y)) {
        let q = choose|q: int| 0 <= q < e.len() && (#[trigger] e[q]).0 == sym(x) && e[q].1.elems().contains(sym(y));
        let l = choose|l: int| 0 <= l < e[q].1.elems().len() && e[q].1.elems()[l] == sym(y);
        assert(e[q].1.elems()[l].id() == y); assert(in_entry(s, q, x, y, e[q].1.elems().len() as int));
    }
}
// ---- completion lists ----
pub type Keyed = Seq<(usize, PredictionTransition)>;
pub open spec fn all_of(g: Rules, c: Chain, k: int, unary: bool) -> Keyed decreases k {
    if k <= 0 { Seq::empty() } else { let t = all_of(g, c, k - 1, unary); let q = g[k - 1]; if (q.rhs@.len() == 1) == unary { t.push((q.rhs@[0].n as usize, trans(q, (c.vis)(q.lhs), k - 1))) } else { t } }
}
/// The transitions of symbol `x` (of one kind, if given).
pub open spec fn sel(s: Keyed, x: int, u: Option<bool>) -> Seq<PredictionTransition> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let t = sel(s.drop_last(), x, u); if s.last().0 == x && (u is None || s.last().1.is_unary == u->0) { t.push(s.last().1) } else { t } }
}
pub proof fn lemma_sel_cat(a: Keyed, b: Keyed, x: int, u: Option<bool>)
    ensures sel(a + b, x, u) == sel(a, x, u) + sel(b, x, u)
    decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(sel(a, x, u) + Seq::empty() =~= sel(a, x, u)); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_sel_cat(a, b.drop_last(), x, u); assert(sel(a + b, x, u) =~= sel(a, x, u) + sel(b, x, u)); } }
pub proof fn lemma_sel_all(g: Rules, c: Chain, k: int, unary: bool, x: int, u: Option<bool>)
    requires 0 <= k <= g.len()
    ensures sel(all_of(g, c, k, unary), x, u) == (if u is None || u->0 == unary { lst(g, c, k, x, unary) } else { Seq::empty() })
    decreases k
{ if k > 0 { lemma_sel_all(g, c, k - 1, unary, x, u); let q = g[k - 1]; if (q.rhs@.len() == 1) == unary { assert(all_of(g, c, k, unary).drop_last() =~= all_of(g, c, k - 1, unary)); } } }
pub open spec fn listings(g: Rules, n: int, x: int) -> Seq<PredictionTransition> { lst(g, chain(g, n), g.len() as int, x, false) + lst(g, chain(g, n), g.len() as int, x, true) }
pub open spec fn slot(g: Rules, n: int, x: int, unary: bool) -> Option<PredictionTransition> { last_of(lst(g, chain(g, n), g.len() as int, x, unary)) }
pub open spec fn slots_ok(g: Rules, n: int, t: int, v: Seq<[Option<PredictionTransition>; 2]>) -> bool { v.len() == t - n && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@[0] == slot(g, n, n + i, false) && v[i]@[1] == slot(g, n, n + i, true) }
pub proof fn lemma_listed(g: Rules, n: int)
    ensures forall|x: int, u: Option<bool>| #[trigger] sel(all_of(g, chain(g, n), g.len() as int, false) + all_of(g, chain(g, n), g.len() as int, true), x, u) == (match u { None => listings(g, n, x), Some(b) => lst(g, chain(g, n), g.len() as int, x, b) })
{
    let c = chain(g, n); let k = g.len() as int;
    assert forall|x: int, u: Option<bool>| #[trigger] sel(all_of(g, c, k, false) + all_of(g, c, k, true), x, u) == (match u { None => listings(g, n, x), Some(b) => lst(g, c, k, x, b) }) by {
        lemma_sel_cat(all_of(g, c, k, false), all_of(g, c, k, true), x, u); lemma_sel_all(g, c, k, false, x, u); lemma_sel_all(g, c, k, true, x, u);
        if u is Some { assert(lst(g, c, k, x, u->0) + Seq::empty() =~= lst(g, c, k, x, u->0)); assert(Seq::empty() + lst(g, c, k, x, u->0) =~= lst(g, c, k, x, u->0)); }
    }
}
pub open spec fn blank(b: CompletionTable, n: int, t: int) -> bool {
    &&& b.completions@.len() == n && forall|x: int| 0 <= x < n ==> (#[trigger] b.completions@[x])@.len() == 0
    &&& b.gen_completions@.len() == t - n && forall|i: int| 0 <= i < t - n ==> (#[trigger] b.gen_completions@[i])@[0] is None && b.gen_completions@[i]@[1] is None
}
/// The table after the transitions `s`.
pub open spec fn filled(b: CompletionTable, n: int, t: int, s: Keyed) -> bool {
    &&& b.completions@.len() == n && forall|x: int| 0 <= x < n ==> (#[trigger] b.completions@[x])@ == sel(s, x, None)
    &&& b.gen_completions@.len() == t - n && forall|i: int| 0 <= i < t - n ==> (#[trigger] b.gen_completions@[i])@[0] == last_of(sel(s, n + i, Some(false))) && b.gen_completions@[i]@[1] == last_of(sel(s, n + i, Some(true)))
}
pub open spec fn tabled(g: Rules, n: int, t: int, b: CompletionTable) -> bool {
    b.completions@.len() == n && (forall|x: int| 0 <= x < n ==> (#[trigger] b.completions@[x])@ == listings(g, n, x)) && slots_ok(g, n, t, b.gen_completions@)
}
pub open spec fn completes(g: Rules, n: int, t: int, d: DefaultGrammar) -> bool {
    v_wf(d.completions) && v_sets(d.completions).len() == n && (forall|x: int| 0 <= x < n ==> #[trigger] v_sets(d.completions)[x] == listings(g, n, x)) && slots_ok(g, n, t, d.gen_completions@)
}
pub proof fn lemma_all_range(g: Rules, c: Chain, k: int, t: int, unary: bool)
    requires 0 <= k <= g.len(), in_range(g, t), shape(g)
    ensures forall|i: int| 0 <= i < all_of(g, c, k, unary).len() ==> (#[trigger] all_of(g, c, k, unary)[i]).0 < t && all_of(g, c, k, unary)[i].1.is_unary == unary
    decreases k
{ if k > 0 { lemma_all_range(g, c, k - 1, t, unary); assert(g[k - 1].rhs@.len() >= 1 && g[k - 1].rhs@[0].id() < t); let a = all_of(g, c, k, unary); let b = all_of(g, c, k - 1, unary); assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).0 < t && a[i].1.is_unary == unary by { if i < b.len() { assert(a[i] == b[i]); } } } }
// ---- events and traces of predictions ----
/// The last record among the first `k` rules of `x`.
pub open spec fn pred_dot(g: Rules, k: int, x: int) -> Option<EarleyDot> decreases k { if k <= 0 { None } else if g[k - 1].lhs.id() == x && g[k - 1].history.s_dots()[0] is Some { g[k - 1].history.s_dots()[0] } else { pred_dot(g, k - 1, x) } }
pub open spec fn ev_of(d: Option<EarleyDot>) -> EventAndDistance { match d { Some(d) => (d.event, d.distance), None => (EventId::s_null(), MinimalDistance::s_null()) } }
pub open spec fn tr_of(d: Option<EarleyDot>) -> ExternalDottedRule { match d { Some(d) => d.trace, None => ExternalDottedRule::s_null() } }
pub open spec fn pred_ev(g: Rules, k: int, t: int, s: Seq<EventAndDistance>) -> bool { s.len() == t + 1 && forall|x: int| 0 <= x <= t ==> #[trigger] s[x] == ev_of(pred_dot(g, k, x)) }
pub open spec fn pred_tr(g: Rules, k: int, t: int, s: Seq<ExternalDottedRule>) -> bool { s.len() == t + 1 && forall|x: int| 0 <= x <= t ==> #[trigger] s[x] == tr_of(pred_dot(g, k, x)) }
pub open spec fn predicted(g: Rules, n: int, t: int, d: DefaultGrammar) -> bool {
    pred_rows(g, n, d.prediction_matrix) && completes(g, n, t, d) && lr_sized(n, d.lr_sets) && lr_rows(g, n, d.lr_sets, 2 * n) && pred_ev(g, g.len() as int, t, d.columns@[0].events@) && pred_tr(g, g.len() as int, t, d.columns@[0].tracing@)
}
/// A rule list as the pipeline leaves it: `n` symbols are visible, the rest internal.
pub open spec fn processed(g: Cfg, n: int) -> bool { numbered(g, n) && n < 0x4000_0000 && chained(g.list(), n) && rooted(g) && dotted(g.list()) }
pub open spec fn unset(d: DefaultGrammar) -> bool {
    &&& v_empty(d.completions) && d.gen_completions@.len() == 0 && d.forest_info.eval@.len() == 0 && d.forest_info.nulling_eliminated@.len() == 0
    &&& d.columns@[0].syms@.len() == 0 && d.columns@[0].events@.len() == 0 && d.columns@[0].tracing@.len() == 0
}
/// What a grammar object knows of the rules.
pub open spec fn described(g: Cfg, n: int, d: DefaultGrammar) -> bool {
    let L = g.list();
    &&& starts_set(d, g) && predicted(L, n, g.s_num_syms() as int, d)
    &&& col_lhs(L, d.columns@[0].syms@) && col_rhs(L, 1, d.columns@[1].syms@) && col_rhs(L, 2, d.columns@[2].syms@)
    &&& col_ev(L, 1, d.columns@[1].events@) && col_ev(L, 2, d.columns@[2].events@) && col_tr(L, 1, d.columns@[1].tracing@) && col_tr(L, 2, d.columns@[2].tracing@)
    &&& col_eval(L, d.forest_info.eval@) && col_elim(L, d.forest_info.nulling_eliminated@)
}
pub open spec fn compiled(d: DefaultGrammar, g: Cfg, n: int, maps: Mapping, nul: Rules) -> bool {
    described(g, n, d) && sized(d.size, g, n, maps) && d.sym_maps == maps && d.has_trivial_derivation == (nul.len() > 0) && d.forest_info.nulling_intermediate_rules@ == null_rules(nul, maps)
}
// ---- symbol numbering, nulling rules ----
pub open spec fn int_of(m: Mapping, s: Symbol) -> Option<Symbol> { if m.to_internal@.len() == 0 { Some(s) } else { m.to_internal@[s.id()] } }
pub open spec fn ext_of(m: Mapping, s: Symbol) -> Symbol { if m.to_external@.len() == 0 { s } else { m.to_external@[s.id()] } }
pub open spec fn int_ok(m: Mapping, s: Symbol) -> bool { m.to_internal@.len() == 0 || s.id() < m.to_internal@.len() }
pub open spec fn intermediate(q: CfgRule) -> bool { q.history.s_origin().s_is_null() && q.rhs@.len() == 2 }
pub open spec fn mapped_rule(q: CfgRule, m: Mapping) -> bool { intermediate(q) ==> forall|s: Symbol| s == q.lhs || s == q.rhs@[0] || s == q.rhs@[1] ==> int_ok(m, s) && (#[trigger] int_of(m, s)) is Some }
pub open spec fn mapped(g: Rules, m: Mapping) -> bool { forall|k: int| 0 <= k < g.len() ==> mapped_rule(#[trigger] g[k], m) }
/// A nulling rule of the binariser, in internal numbering.
pub open spec fn null_rule(q: CfgRule, m: Mapping) -> Option<NullingIntermediateRule> { if intermediate(q) { Some([int_of(m, q.lhs)->0, int_of(m, q.rhs@[0])->0, int_of(m, q.rhs@[1])->0]) } else { None } }
pub open spec fn same_rule(a: Option<NullingIntermediateRule>, b: Option<NullingIntermediateRule>) -> bool { (a is Some) == (b is Some) && (a is Some ==> forall|i: int| 0 <= i < 3 ==> a->0@[i] == #[trigger] b->0@[i]) }
pub proof fn lemma_same_rule(a: Option<NullingIntermediateRule>, b: Option<NullingIntermediateRule>)
    requires same_rule(a, b)
    ensures a == b
{ if a is Some { let x = a->0; let y = b->0; assert forall|i: int| 0 <= i < 3 implies x@[i] == y@[i] by { } assert(x =~= y); } }
pub open spec fn null_rules(g: Rules, m: Mapping) -> Seq<NullingIntermediateRule> { opts(Seq::new(g.len(), |k: int| null_rule(g[k], m))) }
//@ impl D `impl DefaultGrammar`
//@ fn find_gensyms props=P25
    requires listed(*grammar)
    ensures r.bits().len() == grammar.s_num_syms(), forall|x: int| 0 <= x < r.bits().len() ==> #[trigger] r.bits()[x] == is_gen(grammar.list(), x)
//@ rewrite `. iter ( )` => `.iter_seq_()`
//@ entry
    let ghost L = grammar.list();
    proof { clone_is_copy::<(u32, u32, u32)>(); }
//@ desugar_seq 0 a_
        listed(*grammar), L == grammar.list(), a_all.len() == L.len(), forall|k: int| 0 <= k < L.len() ==> *(#[trigger] a_all[k]) == L[k],
        gensyms.bits().len() == grammar.s_num_syms(), forall|x: int| 0 <= x < gensyms.bits().len() ==> !(#[trigger] gensyms.bits()[x]),
        occurrences@.len() == grammar.s_num_syms(),
        forall|x: int| 0 <= x < occurrences@.len() ==> (#[trigger] occurrences@[x]).0 == cnt(L, a_n, x, 0) && occurrences@[x].1 == cnt(L, a_n, x, 1) && occurrences@[x].2 == cnt(L, a_n, x, 2),
//@ loop_start 0
    proof { let q = L[a_n - 1]; assert forall|x: int, w: int| 0 <= #[trigger] cnt(L, a_n - 1, x, w) <= a_n - 1 by { lemma_cnt(L, a_n - 1, x, w); } assert(q.lhs.id() < occurrences@.len() && q.rhs@[0].id() < occurrences@.len()); }
//@ desugar_seq 1 b_
        listed(*grammar), L == grammar.list(), 1 <= a_n <= L.len(), b_all.len() == L[a_n - 1].rhs@.len() - 1, forall|k: int| 0 <= k < b_all.len() ==> *(#[trigger] b_all[k]) == L[a_n - 1].rhs@[k + 1],
        b_all.len() <= 1, occurrences@.len() == grammar.s_num_syms(), forall|x: int| 0 <= #[trigger] cnt(L, a_n - 1, x, 2) <= a_n - 1,
        forall|x: int| 0 <= x < occurrences@.len() ==> (#[trigger] occurrences@[x]).0 == cnt(L, a_n, x, 0) && occurrences@[x].1 == cnt(L, a_n, x, 1) && occurrences@[x].2 == cnt(L, a_n - 1, x, 2) + (if b_n > 0 && L[a_n - 1].rhs@[1].id() == x { 1int } else { 0 }),
//@ desugar_seq 2 c_
        listed(*grammar), L == grammar.list(), c_all.len() == L.len(), forall|k: int| 0 <= k < L.len() ==> *(#[trigger] c_all[k]) == L[k],
        gensyms.bits().len() == grammar.s_num_syms(), occurrences@.len() == grammar.s_num_syms(),
        forall|x: int| 0 <= x < occurrences@.len() ==> (#[trigger] occurrences@[x]).0 == cnt(L, L.len() as int, x, 0) && occurrences@[x].1 == cnt(L, L.len() as int, x, 1) && occurrences@[x].2 == cnt(L, L.len() as int, x, 2),
        forall|x: int| 0 <= x < gensyms.bits().len() ==> #[trigger] gensyms.bits()[x] == (cnt(L, L.len() as int, x, 0) == 1 && cnt(L, L.len() as int, x, 1) == 1 && cnt(L, L.len() as int, x, 2) == 0 && no_origin(L, c_n, x)),
//@ loop_start 2
    proof { assert forall|x: int| no_origin(L, c_n, x) == (no_origin(L, c_n - 1, x) || (L[c_n - 1].lhs.id() == x && L[c_n - 1].history.s_origin().s_is_null())) by {
        if no_origin(L, c_n, x) && !(L[c_n - 1].lhs.id() == x && L[c_n - 1].history.s_origin().s_is_null()) { let j = choose|j: int| 0 <= j < c_n && (#[trigger] L[j]).lhs.id() == x && L[j].history.s_origin().s_is_null(); assert(j < c_n - 1); }
        if no_origin(L, c_n - 1, x) { let j = choose|j: int| 0 <= j < c_n - 1 && (#[trigger] L[j]).lhs.id() == x && L[j].history.s_origin().s_is_null(); assert(0 <= j < c_n); }
    } }
//@ endfn
//@ fn populate_sizes props=P25
    requires exists|n: int| numbered(*grammar, n)
    ensures forall|n: int| numbered(*grammar, n) ==> sized(final(self).size, *grammar, n, *maps), *final(self) == (DefaultGrammar { size: final(self).size, ..*old(self) })
//@ closure 0 params=`is_gensym: &bool`
    -> (r: bool) ensures r == *is_gensym
//@ entry
    let ghost n0 = choose|n: int| numbered(*grammar, n);
    proof {
        let t = grammar.s_num_syms() as int;
        assert forall|n: int| numbered(*grammar, n) implies n == n0 by {
            assert(n < n0 ==> is_gen(grammar.list(), n) == (n >= n0) && is_gen(grammar.list(), n) == (n >= n));
            assert(n0 < n ==> is_gen(grammar.list(), n0) == (n0 >= n0) && is_gen(grammar.list(), n0) == (n0 >= n));
        }
        assert forall|s: Seq<bool>, b: Seq<bool>| s.len() == t && b.len() == t && (forall|k: int| 0 <= k < t ==> #[trigger] b[k] == (k < t - n0)) implies #[trigger] kept(s, b).len() == t - n0 by { lemma_kept(s, b, t - n0); }
    }
//@ endfn
//@ fn populate_start_sym props=P25
    requires rooted(*grammar), grammar.list().len() < 0x8000_0000
    ensures starts_set(*final(self), *grammar), *final(self) == (DefaultGrammar { start_sym: final(self).start_sym, sof_sym: final(self).sof_sym, eof_sym: final(self).eof_sym, original_start_sym: final(self).original_start_sym, dot_before_eof: final(self).dot_before_eof,
            forest_info: ForestInfo { sof: final(self).forest_info.sof, eof: final(self).forest_info.eof, start: final(self).forest_info.start, ..old(self).forest_info }, ..*old(self) })
//@ closure 0 params=`rule: &CfgRule`
    -> (r: bool) ensures r == (nth(*rule, 1) == Some(wrapped_root.end_of_input))
//@ endfn
//@ fn populate_grammar_with_lhs props=P25
    requires old(self).columns@[0].syms@.len() == 0
    ensures col_lhs(grammar.list(), final(self).columns@[0].syms@), final(self).columns@ == old(self).columns@.update(0, Column { syms: final(self).columns@[0].syms, ..old(self).columns@[0] }), *final(self) == (DefaultGrammar { columns: final(self).columns, ..*old(self) })
//@ rewrite `. extend (` => `.extend_seq_(`
//@ closure 0 params=`rule: &CfgRule`
    -> (r: Option<Symbol>) ensures r == Some(rule.lhs)
//@ endfn
//@ fn populate_grammar_with_rhs props=P25
    ensures col_rhs(grammar.list(), 1, final(self).columns@[1].syms@), col_rhs(grammar.list(), 2, final(self).columns@[2].syms@), final(self).columns@[0] == old(self).columns@[0],
        forall|n: int| 1 <= n < 3 ==> #[trigger] final(self).columns@[n] == (Column { syms: final(self).columns@[n].syms, ..old(self).columns@[n] }), *final(self) == (DefaultGrammar { columns: final(self).columns, ..*old(self) })
//@ rewrite `. collect (` => `.collect_(`
//@ closure 0 params=`dot: ColumnDot`
    -> (r: Option<Symbol>) ensures r == dot.postdot
//@ closure 1 params=`dot: ColumnDot`
    -> (r: Option<Symbol>) ensures r == dot.postdot
//@ endfn
//@ fn populate_grammar_with_events_rhs props=P25
    requires dotted(grammar.list())
    ensures col_ev(grammar.list(), 1, final(self).columns@[1].events@), col_ev(grammar.list(), 2, final(self).columns@[2].events@), final(self).columns@[0] == old(self).columns@[0],
        forall|n: int| 1 <= n < 3 ==> #[trigger] final(self).columns@[n] == (Column { events: final(self).columns@[n].events, ..old(self).columns@[n] }), *final(self) == (DefaultGrammar { columns: final(self).columns, ..*old(self) })
//@ rewrite `. collect (` => `.collect_(`
//@ closure 0 params=`dot: ColumnDot`
    -> (r: EventAndDistance) requires dot.earley is Some ensures r == (dot.earley->0.event, dot.earley->0.distance)
//@ closure 1 params=`dot: ColumnDot`
    -> (r: EventAndDistance) requires dot.earley is Some ensures r == (dot.earley->0.event, dot.earley->0.distance)
//@ endfn
//@ fn populate_grammar_with_trace_rhs props=P25
    requires dotted(grammar.list())
    ensures col_tr(grammar.list(), 1, final(self).columns@[1].tracing@), col_tr(grammar.list(), 2, final(self).columns@[2].tracing@), final(self).columns@[0] == old(self).columns@[0],
        forall|n: int| 1 <= n < 3 ==> #[trigger] final(self).columns@[n] == (Column { tracing: final(self).columns@[n].tracing, ..old(self).columns@[n] }), *final(self) == (DefaultGrammar { columns: final(self).columns, ..*old(self) })
//@ rewrite `. collect (` => `.collect_(`
//@ closure 0 params=`dot: ColumnDot`
    -> (r: ExternalDottedRule) requires dot.earley is Some ensures r == dot.earley->0.trace
//@ closure 1 params=`dot: ColumnDot`
    -> (r: ExternalDottedRule) requires dot.earley is Some ensures r == dot.earley->0.trace
//@ endfn
//@ fn populate_grammar_with_history props=P25
    requires dotted(grammar.list()), old(self).forest_info.eval@.len() == 0, old(self).forest_info.nulling_eliminated@.len() == 0
    ensures col_eval(grammar.list(), final(self).forest_info.eval@), col_elim(grammar.list(), final(self).forest_info.nulling_eliminated@),
        forall|n: int| 1 <= n < 3 ==> col_ev(grammar.list(), n, (#[trigger] final(self).columns@[n]).events@) && col_tr(grammar.list(), n, final(self).columns@[n].tracing@) && final(self).columns@[n].syms == old(self).columns@[n].syms, final(self).columns@[0] == old(self).columns@[0],
        *final(self) == (DefaultGrammar { columns: final(self).columns, forest_info: ForestInfo { eval: final(self).forest_info.eval, nulling_eliminated: final(self).forest_info.nulling_eliminated, ..old(self).forest_info }, ..*old(self) })
//@ rewrite `. extend (` => `.extend_seq_(`
//@ closure 0 params=`rule: &CfgRule`
    -> (r: ExternalOrigin) ensures r == rule.history.s_origin()
//@ closure 1 params=`rule: &CfgRule`
    -> (r: NullingEliminated) ensures r == rule.history.s_nullable()
//@ endfn
//@ fn populate_maps props=P25
    ensures *final(self) == (DefaultGrammar { sym_maps: maps, ..*old(self) })
//@ endfn
//@ fn compute_rules_by_rhs0 props=P25
    requires shape(grammar.list())
    ensures index_of(r@, grammar.list())
//@ rewrite `. sort_by_key (` => `.sort_by_key_(`
//@ rewrite `. collect (` => `.collect_(`
//@ closure 0 params=`rule: &CfgRule`
    -> (r: Symbol) requires rule.rhs@.len() > 0 ensures r == rule.rhs@[0]
//@ before `result . sort_by_key`
    proof { assert(result@ =~= grammar.list()); }
//@ exit
    proof { broadcast use vstd::seq_lib::group_to_multiset_ensures; }
//@ endfn
//@ fn populate_prediction_matrix props=P25
    requires listed(*grammar), chained(grammar.list(), old(self).size.syms as int), old(self).size.syms <= grammar.s_num_syms(), index_of(rules_by_rhs0@, grammar.list())
    ensures pred_rows(grammar.list(), old(self).size.syms as int, final(self).prediction_matrix), *final(self) == (DefaultGrammar { prediction_matrix: final(self).prediction_matrix, ..*old(self) })
//@ rewrite `. binary_search_by_key (` => `.binary_search_by_key_(`
//@ closure 0 params=`r: &CfgRule`
    -> (b: bool) ensures b == (r.rhs@.len() == 0)
//@ closure 1 params=`elem: &CfgRule`
    -> (r: usize) requires elem.rhs@.len() > 0 ensures r == elem.rhs@[0].id()
//@ entry
    let ghost L = grammar.list(); let ghost n = self.size.syms as int; let ghost c = chain(L, n); let ghost old_ = *self;
    proof { lemma_steps(rules_by_rhs0@, L, n); }
//@ desugar_seq 0 a_
        listed(*grammar), L == grammar.list(), a_all.len() == L.len(), forall|k: int| 0 <= k < L.len() ==> *(#[trigger] a_all[k]) == L[k], c == chain(L, n), n == self.size.syms,
        steps(rules_by_rhs0@, L, n), index_of(rules_by_rhs0@, L),
        *self == (DefaultGrammar { prediction_matrix: self.prediction_matrix, ..old_ }),
        self.prediction_matrix.wf(), self.prediction_matrix.rows().len() == n, self.prediction_matrix.bits() == n, self.prediction_matrix.width() == (n + 31) / 32,
        forall|i: int, j: int| 0 <= i < n ==> #[trigger] self.prediction_matrix.rows()[i].has(j) == edge(L, n, a_n, i, j),
//@ loop_start 0
    proof { assert(L[a_n - 1].rhs@.len() >= 1); }
    let ghost pre = self.prediction_matrix;
//@ loop 1 while
    invariant listed(*grammar), L == grammar.list(), 1 <= a_n <= L.len(), c == chain(L, n), n == self.size.syms, steps(rules_by_rhs0@, L, n), index_of(rules_by_rhs0@, L), *self == (DefaultGrammar { prediction_matrix: pre, ..old_ }),
        lhs < 0x8000_0000, (c.vis)(sym(lhs as int)) == (c.vis)(L[a_n - 1].lhs), lhs >= n ==> used_first(rules_by_rhs0@, sym(lhs as int)),
    decreases (c.rank)(sym(lhs as int))
//@ loop_start 1
    let ghost was = lhs;
//@ loop_end 1
    proof { lemma_indexed(rules_by_rhs0@, L); let v = rules_by_rhs0@; assert(exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).rhs@[0] == sym(was as int) && v[i].lhs.id() == lhs); }
//@ loop_end 0
    proof {
        assert forall|i: int, j: int| 0 <= i < n implies #[trigger] self.prediction_matrix.rows()[i].has(j) == edge(L, n, a_n, i, j) by {
            assert(pre.rows()[i].has(j) == edge(L, n, a_n - 1, i, j));
            let q = L[a_n - 1];
            if edge(L, n, a_n, i, j) && !edge(L, n, a_n - 1, i, j) { let k = choose|k: int| 0 <= k < a_n && (#[trigger] L[k]).rhs@[0].id() == j && (c.vis)(L[k].lhs).id() == i; assert(k == a_n - 1); }
            if edge(L, n, a_n - 1, i, j) { let k = choose|k: int| 0 <= k < a_n - 1 && (#[trigger] L[k]).rhs@[0].id() == j && (c.vis)(L[k].lhs).id() == i; assert(0 <= k < a_n); }
        }
    }
//@ before `self . prediction_matrix . transitive_closure`
    let ghost direct = self.prediction_matrix;
//@ exit
    proof {
        let d = |a: int, b: int| 0 <= a < direct.rows().len() && direct.rows()[a].has(b); let e = |a: int, b: int| edge(L, n, L.len() as int, a, b);
        assert(a_n == L.len());
        assert forall|a: int, b: int| #[trigger] d(a, b) == e(a, b) by { if 0 <= a < n { assert(direct.rows()[a].has(b) == edge(L, n, L.len() as int, a, b)); } }
        assert forall|i: int, j: int| 0 <= i < n implies #[trigger] self.prediction_matrix.rows()[i].has(j) == predicts(L, n, i, j) by {
            lemma_path_same(d, e, i, j);
            if path(e, i, j) { let p = choose|p: Seq<int>| #[trigger] walk(e, p, i, j); let k = p.len() - 2; assert(e(p[k], p[k + 1])); }
        }
    }
//@ endfn
//@ fn populate_lr_sets props=P25
    requires old(self).size.syms < 0x4000_0000
    ensures lr_sized(old(self).size.syms as int, final(self).lr_sets), lr_rows(grammar.list(), old(self).size.syms as int, final(self).lr_sets, 2 * old(self).size.syms), *final(self) == (DefaultGrammar { lr_sets: final(self).lr_sets, ..*old(self) })
//@ rewrite `inner . iter ( )` => `inner.iter_seq_()`
//@ rewrite `after . iter ( )` => `after.iter_seq_()`
//@ rewrite `. into_iter ( )` => `.into_seq_()`
//@ entry
    let ghost n = self.size.syms as int; let ghost L = grammar.list(); let ghost old_ = *self;
//@ before_loop 0
    let ghost firstS = first_sets.s_sets();
//@ desugar_seq 0 a_
        n == syms, syms < 0x4000_0000, *self == old_, a_all.len() == firstS.entries().len(), forall|k: int| 0 <= k < a_all.len() ==> *(#[trigger] a_all[k]).0 == firstS.entries()[k].0 && *a_all[k].1 == firstS.entries()[k].1,
        first_matrix.wf(), first_matrix.rows().len() == n, first_matrix.bits() == n, first_matrix.width() == (n + 31) / 32,
        forall|i: int, j: int| 0 <= i < n ==> #[trigger] first_matrix.rows()[i].has(j) == (0 <= j < n && rel_upto(firstS, a_n, i, j)),
//@ loop_start 0
    let ghost pre = first_matrix;
//@ desugar_seq 1 b_
        n == syms, syms < 0x4000_0000, *self == old_, 1 <= a_n <= firstS.entries().len(), outer == firstS.entries()[a_n - 1].0, b_all.len() == firstS.entries()[a_n - 1].1.elems().len(), forall|k: int| 0 <= k < b_all.len() ==> (#[trigger] b_all[k]) == firstS.entries()[a_n - 1].1.elems()[k],
        first_matrix.wf(), first_matrix.rows().len() == n, first_matrix.bits() == n, first_matrix.width() == (n + 31) / 32,
        forall|i: int, j: int| 0 <= i < n ==> #[trigger] pre.rows()[i].has(j) == (0 <= j < n && rel_upto(firstS, a_n - 1, i, j)),
        forall|i: int, j: int| 0 <= i < n ==> #[trigger] first_matrix.rows()[i].has(j) == (0 <= j < n && (rel_upto(firstS, a_n - 1, i, j) || in_entry(firstS, a_n - 1, i, j, b_n))),
//@ loop_end 1
    proof {
        assert forall|i: int, j: int| #[trigger] in_entry(firstS, a_n - 1, i, j, b_n) == (in_entry(firstS, a_n - 1, i, j, b_n - 1) || (outer.id() == i && inner_sym.id() == j)) by {
            let el = firstS.entries()[a_n - 1].1.elems();
            if in_entry(firstS, a_n - 1, i, j, b_n) { let l = choose|l: int| 0 <= l < b_n && (#[trigger] el[l]).id() == j; if l < b_n - 1 { assert(in_entry(firstS, a_n - 1, i, j, b_n - 1)); } }
            if in_entry(firstS, a_n - 1, i, j, b_n - 1) { let l = choose|l: int| 0 <= l < b_n - 1 && (#[trigger] el[l]).id() == j; assert(0 <= l < b_n); }
            if outer.id() == i && inner_sym.id() == j { assert(el[b_n - 1].id() == j); }
        }
    }
//@ loop_end 0
    proof {
        assert forall|i: int, j: int| #[trigger] rel_upto(firstS, a_n, i, j) == (rel_upto(firstS, a_n - 1, i, j) || in_entry(firstS, a_n - 1, i, j, firstS.entries()[a_n - 1].1.elems().len() as int)) by {
            let e = firstS.entries();
            if rel_upto(firstS, a_n, i, j) { let q = choose|q: int| 0 <= q < a_n && #[trigger] in_entry(firstS, q, i, j, e[q].1.elems().len() as int); if q < a_n - 1 { assert(rel_upto(firstS, a_n - 1, i, j)); } }
            if rel_upto(firstS, a_n - 1, i, j) { let q = choose|q: int| 0 <= q < a_n - 1 && #[trigger] in_entry(firstS, q, i, j, e[q].1.elems().len() as int); assert(0 <= q < a_n); }
        }
    }
//@ before `first_matrix . reflexive_closure`
    proof { assert forall|x: int, y: int| 0 <= x < n && 0 <= y < n implies rel_upto(firstS, a_n, x, y) == first(L, sym(x), sym(y)) by { lemma_rel(firstS, x, y); } }
//@ before_loop 2
    let ghost followS = follow_sets.s_sets();
//@ desugar_seq 2 c_
        n == syms, syms < 0x4000_0000, *self == old_, c_all.len() == followS.entries().len(), forall|k: int| 0 <= k < c_all.len() ==> *(#[trigger] c_all[k]).0 == followS.entries()[k].0 && *c_all[k].1 == followS.entries()[k].1,
        follow_matrix.wf(), follow_matrix.rows().len() == n, follow_matrix.bits() == n, follow_matrix.width() == (n + 31) / 32,
        forall|i: int, j: int| 0 <= i < n ==> #[trigger] follow_matrix.rows()[i].has(j) == (0 <= j < n && rel_upto(followS, c_n, i, j)),
//@ loop_start 2
    let ghost pre = follow_matrix;
//@ desugar_seq 3 d_
        n == syms, syms < 0x4000_0000, *self == old_, 1 <= c_n <= followS.entries().len(), before == followS.entries()[c_n - 1].0, d_all.len() == followS.entries()[c_n - 1].1.elems().len(), forall|k: int| 0 <= k < d_all.len() ==> (#[trigger] d_all[k]) == followS.entries()[c_n - 1].1.elems()[k],
        follow_matrix.wf(), follow_matrix.rows().len() == n, follow_matrix.bits() == n, follow_matrix.width() == (n + 31) / 32,
        forall|i: int, j: int| 0 <= i < n ==> #[trigger] pre.rows()[i].has(j) == (0 <= j < n && rel_upto(followS, c_n - 1, i, j)),
        forall|i: int, j: int| 0 <= i < n ==> #[trigger] follow_matrix.rows()[i].has(j) == (0 <= j < n && (rel_upto(followS, c_n - 1, i, j) || in_entry(followS, c_n - 1, i, j, d_n))),
//@ loop_end 3
    proof {
        assert forall|i: int, j: int| #[trigger] in_entry(followS, c_n - 1, i, j, d_n) == (in_entry(followS, c_n - 1, i, j, d_n - 1) || (before.id() == i && after_sym.id() == j)) by {
            let el = followS.entries()[c_n - 1].1.elems();
            if in_entry(followS, c_n - 1, i, j, d_n) { let l = choose|l: int| 0 <= l < d_n && (#[trigger] el[l]).id() == j; if l < d_n - 1 { assert(in_entry(followS, c_n - 1, i, j, d_n - 1)); } }
            if in_entry(followS, c_n - 1, i, j, d_n - 1) { let l = choose|l: int| 0 <= l < d_n - 1 && (#[trigger] el[l]).id() == j; assert(0 <= l < d_n); }
            if before.id() == i && after_sym.id() == j { assert(el[d_n - 1].id() == j); }
        }
    }
//@ loop_end 2
    proof {
        assert forall|i: int, j: int| #[trigger] rel_upto(followS, c_n, i, j) == (rel_upto(followS, c_n - 1, i, j) || in_entry(followS, c_n - 1, i, j, followS.entries()[c_n - 1].1.elems().len() as int)) by {
            let e = followS.entries();
            if rel_upto(followS, c_n, i, j) { let q = choose|q: int| 0 <= q < c_n && #[trigger] in_entry(followS, q, i, j, e[q].1.elems().len() as int); if q < c_n - 1 { assert(rel_upto(followS, c_n - 1, i, j)); } }
            if rel_upto(followS, c_n - 1, i, j) { let q = choose|q: int| 0 <= q < c_n - 1 && #[trigger] in_entry(followS, q, i, j, e[q].1.elems().len() as int); assert(0 <= q < c_n); }
        }
    }
//@ before `self . lr_sets = BitMatrix`
    proof {
        assert forall|x: int, y: int| 0 <= x < n && 0 <= y < n implies rel_upto(followS, c_n, x, y) == follow(L, sym(x), sym(y)) by { lemma_rel(followS, x, y); }
        assert forall|i: int, j: int| 0 <= i < n implies #[trigger] first_matrix.rows()[i].has(j) == lr_row(L, n, i, false, j) by { }
        assert forall|i: int, j: int| 0 <= i < n implies #[trigger] follow_matrix.rows()[i].has(j) == lr_row(L, n, i, true, j) by { }
    }
//@ loop 4 for
    invariant n == syms, syms < 0x4000_0000, n == old_.size.syms, *self == (DefaultGrammar { lr_sets: self.lr_sets, ..old_ }), lr_sized(n, self.lr_sets),
        first_matrix.wf(), first_matrix.rows().len() == n, first_matrix.width() == (n + 31) / 32, follow_matrix.wf(), follow_matrix.rows().len() == n, follow_matrix.width() == (n + 31) / 32,
        forall|i: int, j: int| 0 <= i < n ==> #[trigger] first_matrix.rows()[i].has(j) == lr_row(L, n, i, false, j),
        forall|i: int, j: int| 0 <= i < n ==> #[trigger] follow_matrix.rows()[i].has(j) == lr_row(L, n, i, true, j),
        lr_rows(L, n, self.lr_sets, 2 * i),
//@ before_loop 5
    let ghost m0 = self.lr_sets;
//@ desugar_zip_mut 5
    invariant n == syms, syms < 0x4000_0000, n == old_.size.syms, 0 <= i < n, *self == (DefaultGrammar { lr_sets: self.lr_sets, ..old_ }), first_matrix.wf(), first_matrix.rows().len() == n, first_matrix.width() == (n + 31) / 32,
        lr_sized(n, m0), lr_sized(n, self.lr_sets), zip_i_ <= (n + 31) / 32,
        forall|r: int| 0 <= r < 2 * n && r != i * 2 ==> #[trigger] self.lr_sets.rows()[r] == m0.rows()[r],
        forall|b: int| 0 <= b < zip_i_ ==> #[trigger] self.lr_sets.rows()[i * 2].blocks@[b] == first_matrix.rows()[i as int].blocks@[b],
    decreases (n + 31) / 32 - zip_i_
//@ after_loop 5
    proof { assert(self.lr_sets.rows()[i * 2].blocks@ =~= first_matrix.rows()[i as int].blocks@); assert forall|j: int| #[trigger] self.lr_sets.rows()[i * 2].has(j) == first_matrix.rows()[i as int].has(j) by { } }
//@ before_loop 6
    let ghost m0 = self.lr_sets;
//@ desugar_zip_mut 6
    invariant n == syms, syms < 0x4000_0000, n == old_.size.syms, 0 <= i < n, *self == (DefaultGrammar { lr_sets: self.lr_sets, ..old_ }), follow_matrix.wf(), follow_matrix.rows().len() == n, follow_matrix.width() == (n + 31) / 32,
        lr_sized(n, m0), lr_sized(n, self.lr_sets), zip_i_ <= (n + 31) / 32,
        forall|r: int| 0 <= r < 2 * n && r != i * 2 + 1 ==> #[trigger] self.lr_sets.rows()[r] == m0.rows()[r],
        forall|b: int| 0 <= b < zip_i_ ==> #[trigger] self.lr_sets.rows()[i * 2 + 1].blocks@[b] == follow_matrix.rows()[i as int].blocks@[b],
    decreases (n + 31) / 32 - zip_i_
//@ after_loop 6
    proof { assert(self.lr_sets.rows()[i * 2 + 1].blocks@ =~= follow_matrix.rows()[i as int].blocks@); assert forall|j: int| #[trigger] self.lr_sets.rows()[i * 2 + 1].has(j) == follow_matrix.rows()[i as int].has(j) by { } }
//@ endfn
//@ fn compute_completion_table props=P25
    requires numbered(*grammar, self.size.syms as int), chained(grammar.list(), self.size.syms as int), self.size.gensyms == grammar.s_num_syms() - self.size.syms, index_of(rules_by_rhs0@, grammar.list())
    ensures tabled(grammar.list(), self.size.syms as int, grammar.s_num_syms() as int, r)
//@ rewrite `iter :: repeat (` => `repeat_(`
//@ rewrite `. zip ( 0 .. )` => `.zip_u32_()`
//@ rewrite `. collect (` => `.collect_(`
//@ rewrite `. into_iter (` => `.into_seq_(`
//@ rewrite `. binary_search_by_key (` => `.binary_search_by_key_(`
//@ closure 0 params=`elem: &CfgRule`
    -> (r: usize) requires elem.rhs@.len() > 0 ensures r == elem.rhs@[0].id()
//@ entry
    let ghost L = grammar.list(); let ghost n = self.size.syms as int; let ghost c = chain(L, n); let ghost t = grammar.s_num_syms() as int;
    proof { lemma_steps(rules_by_rhs0@, L, n); clone_is_copy::<[Option<PredictionTransition>; 2]>(); }
//@ desugar_seq 0 a_
        listed(*grammar), L == grammar.list(), t == grammar.s_num_syms(), a_all.len() == L.len(), forall|k: int| 0 <= k < L.len() ==> *(#[trigger] a_all[k]).0 == L[k] && a_all[k].1 == k, c == chain(L, n), n == self.size.syms,
        steps(rules_by_rhs0@, L, n), index_of(rules_by_rhs0@, L), blank(table, n, t),
        binary_rules@ == all_of(L, c, a_n, false), unary_rules@ == all_of(L, c, a_n, true),
//@ loop_start 0
    proof { assert(L[a_n - 1].rhs@.len() >= 1); }
//@ loop 1 while
    invariant listed(*grammar), L == grammar.list(), 1 <= a_n <= L.len(), c == chain(L, n), n == self.size.syms, steps(rules_by_rhs0@, L, n), index_of(rules_by_rhs0@, L),
        (c.vis)(lhs) == (c.vis)(L[a_n - 1].lhs), lhs.id() >= n ==> used_first(rules_by_rhs0@, lhs),
    decreases (c.rank)(lhs)
//@ loop_start 1
    let ghost was = lhs;
//@ loop_end 1
    proof { lemma_indexed(rules_by_rhs0@, L); let v = rules_by_rhs0@; assert(v[idx as int].rhs@[0] == was); }
//@ desugar_seq 2 b_
        listed(*grammar), L == grammar.list(), t == grammar.s_num_syms(), n == self.size.syms, c == chain(L, n), 0 <= n <= t, b_all == all_of(L, c, L.len() as int, false) + all_of(L, c, L.len() as int, true),
        filled(table, n, t, b_all.take(b_n)),
//@ before_loop 2
    proof { assert forall|x: int| sel(Seq::empty(), x, None) == Seq::<PredictionTransition>::empty() && sel(Seq::empty(), x, Some(true)) == Seq::<PredictionTransition>::empty() && sel(Seq::empty(), x, Some(false)) == Seq::<PredictionTransition>::empty() by { } }
//@ loop_start 2
    let ghost was = table;
    proof { lemma_all_range(L, c, L.len() as int, t, false); lemma_all_range(L, c, L.len() as int, t, true); assert(b_all.take(b_n).drop_last() =~= b_all.take(b_n - 1)); assert(b_all.take(b_n).last() == b_all[b_n - 1]); }
//@ exit
    proof { assert(b_all.take(b_n) =~= b_all); lemma_listed(L, n); }
//@ endfn
//@ fn populate_completion_tables props=P25
    requires numbered(*grammar, old(self).size.syms as int), chained(grammar.list(), old(self).size.syms as int), old(self).size.gensyms == grammar.s_num_syms() - old(self).size.syms, index_of(rules_by_rhs0@, grammar.list()),
        v_empty(old(self).completions), old(self).gen_completions@.len() == 0
    ensures completes(grammar.list(), old(self).size.syms as int, grammar.s_num_syms() as int, *final(self)), *final(self) == (DefaultGrammar { completions: final(self).completions, gen_completions: final(self).gen_completions, ..*old(self) })
//@ rewrite `. completions . extend (` => `.completions.extend_lists_(`
//@ rewrite `. gen_completions . extend (` => `.gen_completions.extend_seq_(`
//@ rewrite `. into_iter (` => `.into_seq_(`
//@ closure 0 params=`v: Vec<PredictionTransition>`
    -> (r: SeqIter<PredictionTransition>) ensures r@ == v@
//@ exit
    proof { assert forall|i: int| 0 <= i < self.size.syms implies #[trigger] v_sets(self.completions)[i] == listings(grammar.list(), self.size.syms as int, i) by { assert(Seq::<PredictionTransition>::empty() + v_sets(self.completions)[i] =~= v_sets(self.completions)[i]); } }
//@ endfn
//@ fn populate_prediction_events props=P25
    requires listed(*grammar), old(self).size.syms + old(self).size.gensyms == grammar.s_num_syms(), old(self).columns@[0].events@.len() == 0, old(self).columns@[0].tracing@.len() == 0
    ensures pred_ev(grammar.list(), grammar.list().len() as int, grammar.s_num_syms() as int, final(self).columns@[0].events@), pred_tr(grammar.list(), grammar.list().len() as int, grammar.s_num_syms() as int, final(self).columns@[0].tracing@),
        final(self).columns@ == old(self).columns@.update(0, Column { events: final(self).columns@[0].events, tracing: final(self).columns@[0].tracing, ..old(self).columns@[0] }), *final(self) == (DefaultGrammar { columns: final(self).columns, ..*old(self) })
//@ rewrite `iter :: repeat (` => `repeat_(`
//@ rewrite `. extend (` => `.extend_seq_(`
//@ entry
    let ghost L = grammar.list(); let ghost t = grammar.s_num_syms() as int; let ghost old_ = *self;
//@ desugar_seq 0 a_
        listed(*grammar), L == grammar.list(), t == grammar.s_num_syms(), a_all.len() == L.len(), forall|k: int| 0 <= k < L.len() ==> *(#[trigger] a_all[k]).1 == L[k] && a_all[k].0 == column_dot(L[k], 0),
        pred_ev(L, a_n, t, self.columns@[0].events@), pred_tr(L, a_n, t, self.columns@[0].tracing@),
        self.columns@ == old_.columns@.update(0, Column { events: self.columns@[0].events, tracing: self.columns@[0].tracing, ..old_.columns@[0] }), *self == (DefaultGrammar { columns: self.columns, ..old_ }),
//@ loop_start 0
    proof { assert(L[a_n - 1].lhs.id() < t); }
//@ endfn
//@ fn populate_predictions props=P25
    requires numbered(*grammar, old(self).size.syms as int), chained(grammar.list(), old(self).size.syms as int), old(self).size.gensyms == grammar.s_num_syms() - old(self).size.syms, old(self).size.syms < 0x4000_0000,
        v_empty(old(self).completions), old(self).gen_completions@.len() == 0, old(self).columns@[0].events@.len() == 0, old(self).columns@[0].tracing@.len() == 0
    ensures predicted(grammar.list(), old(self).size.syms as int, grammar.s_num_syms() as int, *final(self)),
        final(self).columns@ == old(self).columns@.update(0, Column { events: final(self).columns@[0].events, tracing: final(self).columns@[0].tracing, ..old(self).columns@[0] }),
        *final(self) == (DefaultGrammar { columns: final(self).columns, completions: final(self).completions, gen_completions: final(self).gen_completions, prediction_matrix: final(self).prediction_matrix, lr_sets: final(self).lr_sets, ..*old(self) })
//@ rewrite `& rules_by_rhs0 [ .. ]` => `rules_by_rhs0.as_slice()`
//@ endfn
//@ fn populate_grammar props=P25
    requires processed(*grammar, old(self).size.syms as int), old(self).size.gensyms == grammar.s_num_syms() - old(self).size.syms, unset(*old(self))
    ensures described(*grammar, old(self).size.syms as int, *final(self)), final(self).size == old(self).size, final(self).sym_maps == old(self).sym_maps, final(self).forest_info.nulling_intermediate_rules == old(self).forest_info.nulling_intermediate_rules,
//@ endfn
//@ fn populate_nulling props=P25
    requires mapped(nulling.list(), old(self).sym_maps)
    ensures final(self).has_trivial_derivation == (nulling.list().len() > 0),
        final(self).forest_info.nulling_intermediate_rules@ == old(self).forest_info.nulling_intermediate_rules@ + null_rules(nulling.list(), old(self).sym_maps),
        *final(self) == (DefaultGrammar { has_trivial_derivation: final(self).has_trivial_derivation, forest_info: ForestInfo { nulling_intermediate_rules: final(self).forest_info.nulling_intermediate_rules, ..old(self).forest_info }, ..*old(self) })
//@ rewrite `. extend (` => `.extend_all_(`
//@ rewrite `. collect :: < Vec < _ > > (` => `.collect_(`
//@ closure 0 params=`rule: &CfgRule`
    -> (r: Option<NullingIntermediateRule>) requires mapped_rule(*rule, self.sym_maps) ensures same_rule(r, null_rule(*rule, self.sym_maps))
//@ exit
    proof {
        let L = nulling.list(); let m = old(self).sym_maps;
        assert forall|o: Seq<Option<NullingIntermediateRule>>| o.len() == L.len() && (forall|k: int| 0 <= k < L.len() ==> same_rule(#[trigger] o[k], null_rule(L[k], m))) implies #[trigger] opts(o) == null_rules(L, m) by {
            let w = Seq::new(L.len(), |k: int| null_rule(L[k], m));
            assert forall|k: int| 0 <= k < L.len() implies o[k] == w[k] by { lemma_same_rule(o[k], null_rule(L[k], m)); }
            assert(o =~= w);
        }
    }
//@ endfn
//@ fn from_processed_grammars props=P25
    requires exists|n: int| processed(grammar, n), mapped(nulling.list(), maps)
    ensures forall|n: int| processed(grammar, n) ==> compiled(r, grammar, n, maps, nulling.list())
//@ endfn
//@ fn new props=P25
    ensures unset(r), r.forest_info.nulling_intermediate_rules@.len() == 0
//@ rewrite `Default :: default ( )` => `DefaultGrammar::default_()`
//@ endfn
//@ endimpl
impl DefaultGrammar {
    /// Assumed: derived `Default` (empty collections; `Vec2d::default` is P01's).
    #[verifier::external_body] pub fn default_() -> (r: DefaultGrammar) ensures unset(r), r.forest_info.nulling_intermediate_rules@.len() == 0 { unimplemented!() }
}
//@ impl D `impl Grammar for DefaultGrammar` as `impl DefaultGrammar`
//@ fn to_internal props=P25
    requires int_ok(self.sym_maps, symbol)
    ensures r == int_of(self.sym_maps, symbol)
//@ endfn
//@ fn to_external props=P25
    requires self.sym_maps.to_external@.len() == 0 || symbol.id() < self.sym_maps.to_external@.len()
    ensures r == ext_of(self.sym_maps, symbol)
//@ endfn
//@ fn sof props=P25
    ensures r == self.sof_sym
//@ endfn
//@ fn eof props=P25
    ensures r == self.eof_sym
//@ endfn
//@ fn start_sym props=P25
    ensures r == self.start_sym
//@ endfn
//@ fn useless_symbol props=P25
    ensures r == self.start_sym
//@ endfn
//@ fn externalized_start_sym props=P25
    requires self.sym_maps.to_external@.len() == 0 || self.original_start_sym.id() < self.sym_maps.to_external@.len()
    ensures r == ext_of(self.sym_maps, self.original_start_sym)
//@ endfn
//@ fn num_syms props=P25
    ensures r == self.size.syms
//@ endfn
//@ fn num_gensyms props=P25
    ensures r == self.size.gensyms
//@ endfn
//@ fn num_rules props=P25
    ensures r == self.size.rules
//@ endfn
//@ fn has_trivial_derivation props=P25
    ensures r == self.has_trivial_derivation
//@ endfn
//@ fn dot_before_eof props=P25
    ensures r == self.dot_before_eof
//@ endfn
//@ fn forest_info props=P25
    ensures r == self.forest_info
//@ rewrite `. clone ( )` => `.clone_()`
//@ endfn
//@ fn get_rhs1 props=P25
    requires dot < self.columns@[1].syms@.len()
    ensures r == self.columns@[1].syms@[dot as int]
//@ endfn
//@ fn rhs1 props=P25
    ensures r@ == self.columns@[1].syms@
//@ rewrite `& self . columns [ 1 ] . syms [ .. ]` => `self.columns[1].syms.as_slice()`
//@ endfn
//@ fn get_lhs props=P25
    requires dot < self.columns@[0].syms@.len(), self.columns@[0].syms@[dot as int] is Some
    ensures Some(r) == self.columns@[0].syms@[dot as int]
//@ endfn
//@ fn rhs1_or_lhs props=P25
    requires dot < self.columns@[0].syms@.len(), self.columns@[0].syms@[dot as int] is Some, dot < self.columns@[1].syms@.len()
    ensures Some(r) == (if self.columns@[1].syms@[dot as int] is Some { self.columns@[1].syms@[dot as int] } else { self.columns@[0].syms@[dot as int] })
//@ endfn
//@ fn lhs_lr_set props=P25
    requires lhs.id() * 2 + 1 < self.lr_sets.rows().len()
    ensures *r == self.lr_sets.rows()[lhs.id() * 2 + 1]
//@ endfn
//@ fn lookahead_set props=P25
    requires dot < self.columns@[0].syms@.len(), self.columns@[0].syms@[dot as int] is Some, dot < self.columns@[1].syms@.len(),
        (if self.columns@[1].syms@[dot as int] is Some { self.columns@[1].syms@[dot as int] } else { self.columns@[0].syms@[dot as int] })->0.id() * 2 + 1 < self.lr_sets.rows().len()
    ensures *r == (match self.columns@[1].syms@[dot as int] { Some(x) => self.lr_sets.rows()[x.id() * 2], None => self.lr_sets.rows()[(self.columns@[0].syms@[dot as int]->0).id() * 2 + 1] })
//@ endfn
//@ fn prediction_row props=P25
    requires sym.id() < self.prediction_matrix.rows().len()
    ensures *r == self.prediction_matrix.rows()[sym.id()]
//@ endfn
//@ fn nulling props=P25
    ensures r == (if pos < self.forest_info.nulling_eliminated@.len() { self.forest_info.nulling_eliminated@[pos as int] } else { None })
//@ closure 0 destruct=`&NullingEliminated`
    -> (r: NullingEliminated) ensures r == *arg_
//@ endfn
//@ fn events props=P25
    ensures r.0@ == self.columns@[0].events@, r.1@ == self.columns@[1].events@
//@ rewrite `& self . columns [ 0 ] . events [ .. ]` => `self.columns[0].events.as_slice()`
//@ rewrite `& self . columns [ 1 ] . events [ .. ]` => `self.columns[1].events.as_slice()`
//@ endfn
//@ fn trace props=P25
    ensures r@[0]@ == self.columns@[0].tracing@, r@[1]@ == self.columns@[1].tracing@, r@[2]@ == self.columns@[2].tracing@
//@ rewrite `& self . columns [ 0 ] . tracing [ .. ]` => `self.columns[0].tracing.as_slice()`
//@ rewrite `& self . columns [ 1 ] . tracing [ .. ]` => `self.columns[1].tracing.as_slice()`
//@ rewrite `& self . columns [ 2 ] . tracing [ .. ]` => `self.columns[2].tracing.as_slice()`
//@ endfn
//@ fn external_origin props=P25
    requires dot < self.forest_info.eval@.len()
    ensures r == self.forest_info.eval@[dot as int]
//@ entry
    proof { clone_is_copy::<ExternalOrigin>(); }
//@ endfn
//@ fn eliminated_nulling_intermediate props=P25
    ensures r@ == self.forest_info.nulling_intermediate_rules@
//@ rewrite `& * self . forest_info . nulling_intermediate_rules` => `self.forest_info.nulling_intermediate_rules.as_slice()`
//@ endfn
//@ fn completions props=P25
    requires v_wf(self.completions), sym.id() < v_sets(self.completions).len()
    ensures r@ == v_sets(self.completions)[sym.id()]
//@ endfn
//@ fn gen_completion props=P25
    requires self.size.syms <= sym.id() < self.size.syms + self.gen_completions@.len()
    ensures r == self.gen_completions@[sym.id() - self.size.syms]
//@ endfn
//@ endimpl
