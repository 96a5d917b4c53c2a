// ---- from the rules as `cfg` leaves them to the rule list that is compiled: renumbering and sorting ----
//@ file D gearley-default-grammar/src/lib.rs
// Assumed contracts on the absent crates cfg and cfg-symbol.
impl SymbolBitSet {
    #[verifier::external_body] pub fn clone(&self) -> (r: SymbolBitSet) ensures r.bits() == self.bits() { unimplemented!() }
    #[verifier::external_body] pub fn negate(&mut self) ensures final(self).bits() == Seq::new(old(self).bits().len(), |k: int| !old(self).bits()[k]) { unimplemented!() }
    /// The symbols whose bits are set.
    #[verifier::external_body] pub fn iter(&self) -> (r: SeqIter<Symbol>) ensures forall|x: Symbol| #[trigger] r@.contains(x) == (x.id() < self.bits().len() && self.bits()[x.id()]) { unimplemented!() }
}
/// The words that bits are kept in.
pub uninterp spec fn blocks_of(b: Seq<bool>) -> Seq<u32>;
pub open spec fn in_block(v: Seq<u32>, k: int) -> bool { bit_of(v[k / 32], k % 32) }
#[verifier::external_body]
pub proof fn axiom_blocks(b: Seq<bool>)
    ensures blocks_of(b).len() == (b.len() + 31) / 32, forall|k: int| 0 <= k < blocks_of(b).len() * 32 ==> #[trigger] in_block(blocks_of(b), k) == (k < b.len() && b[k])
{ }
impl BitVec {
    #[verifier::external_body] pub fn blocks(&self) -> (r: &Vec<u32>)
        ensures r@ == blocks_of(self.bits()) { unimplemented!() }
}
impl vstd::std_specs::core::IndexSpecImpl<(Symbol, Symbol)> for BitMatrix { open spec fn index_req(&self, index: &(Symbol, Symbol)) -> bool { index.0.id() < self.rows().len() && index.1.id() < self.bits() } }
impl ops::Index<(Symbol, Symbol)> for BitMatrix {
    type Output = bool;
    #[verifier::external_body]
    fn index(&self, i: (Symbol, Symbol)) -> (r: &bool) ensures *r == self.rows()[i.0.id()].has(i.1.id()) { unimplemented!() }
}
pub open spec fn same_rest(g: Cfg, h: Cfg) -> bool { h.s_num_syms() == g.s_num_syms() && h.s_wrapped() == g.s_wrapped() && h.s_roots() == g.s_roots() }
impl Cfg {
    #[verifier::external_body] pub fn empty_matrix(&self) -> (r: BitMatrix)
        ensures r.wf(), r.rows().len() == self.s_num_syms(), r.bits() == self.s_num_syms(), r.width() == (self.s_num_syms() + 31) / 32, forall|i: int, b: int| 0 <= i < r.rows().len() ==> !(#[trigger] r.rows()[i].has(b)) { unimplemented!() }
    /// The rules in another order: by `f`, if `f` compares them by some number.
    #[verifier::external_body] pub fn sort_by<F: Fn(&CfgRule, &CfgRule) -> cmp::Ordering>(&mut self, f: F)
        requires forall|i: int, j: int| 0 <= i < old(self).list().len() && 0 <= j < old(self).list().len() ==> call_requires(f, (&#[trigger] old(self).list()[i], &#[trigger] old(self).list()[j]))
        ensures same_rest(*old(self), *final(self)), exists|p: Places| #[trigger] placed(old(self).list(), final(self).list(), p),
            forall|key: spec_fn(CfgRule) -> int| compares(f, key) ==> #[trigger] sorted_by(final(self).list(), key) { unimplemented!() }
}
pub open spec fn sorted_by(g: Rules, key: spec_fn(CfgRule) -> int) -> bool { forall|i: int, j: int| 0 <= i <= j < g.len() ==> key(#[trigger] g[i]) <= key(#[trigger] g[j]) }
pub open spec fn compares<F: Fn(&CfgRule, &CfgRule) -> cmp::Ordering>(f: F, key: spec_fn(CfgRule) -> int) -> bool {
    forall|a: CfgRule, b: CfgRule, o: cmp::Ordering| #[trigger] call_ensures(f, (&a, &b), o) ==> o == ncmp(key(a), key(b))
}
/// Where each rule was, where each went.
pub ghost struct Places { pub was: spec_fn(int) -> int, pub to: spec_fn(int) -> int }
pub open spec fn paired(n: int, p: Places) -> bool {
    &&& forall|k: int| 0 <= k < n ==> 0 <= (#[trigger] (p.was)(k)) < n && (p.to)((p.was)(k)) == k
    &&& forall|k: int| 0 <= k < n ==> 0 <= (#[trigger] (p.to)(k)) < n && (p.was)((p.to)(k)) == k
}
pub open spec fn placed(g: Rules, h: Rules, p: Places) -> bool { h.len() == g.len() && paired(g.len() as int, p) && forall|k: int| 0 <= k < h.len() ==> #[trigger] h[k] == g[(p.was)(k)] }
/// A symbol of some rule, or of the wrapping.
pub open spec fn used(g: Cfg, x: Symbol) -> bool {
    ||| exists|k: int| 0 <= k < g.list().len() && ((#[trigger] g.list()[k]).lhs == x || g.list()[k].rhs@.contains(x))
    ||| exists|k: int| 0 <= k < g.s_wrapped().len() && { let w = #[trigger] g.s_wrapped()[k]; x == w.start_of_input || x == w.inner_root || x == w.end_of_input || x == w.root }
}
/// `o` lists the old symbols in the order of their new numbers.
pub open spec fn renamed(q: CfgRule, r: CfgRule, o: Seq<Symbol>) -> bool {
    &&& r.lhs.id() < o.len() && o[r.lhs.id()] == q.lhs && r.rhs@.len() == q.rhs@.len() && forall|i: int| 0 <= i < q.rhs@.len() ==> (#[trigger] r.rhs@[i]).id() < o.len() && o[r.rhs@[i].id()] == q.rhs@[i]
    &&& r.history.s_origin() == q.history.s_origin() && forall|i: int| (#[trigger] r.history.s_dots()[i]) == q.history.s_dots()[i]
}
pub open spec fn is_at(o: Seq<Symbol>, x: Symbol, y: Symbol) -> bool { x.id() < o.len() && o[x.id()] == y }
pub open spec fn renumbered(g: Cfg, h: Cfg, o: Seq<Symbol>) -> bool {
    &&& h.s_num_syms() == o.len() && h.list().len() == g.list().len() && forall|k: int| 0 <= k < g.list().len() ==> renamed(g.list()[k], #[trigger] h.list()[k], o)
    &&& h.s_roots().len() == g.s_roots().len() && h.s_wrapped().len() == g.s_wrapped().len()
    &&& forall|k: int| 0 <= k < g.s_wrapped().len() ==> { let w = g.s_wrapped()[k]; let v = #[trigger] h.s_wrapped()[k]; is_at(o, v.start_of_input, w.start_of_input) && is_at(o, v.inner_root, w.inner_root) && is_at(o, v.end_of_input, w.end_of_input) && is_at(o, v.root, w.root) }
}
/// Each symbol in range once.
pub open spec fn numbers(o: Seq<Symbol>, t: int) -> bool { o.len() <= t && o.no_duplicates() && (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).id() < t) }
/// The symbols of `c` come first.
pub open spec fn leads(o: Seq<Symbol>, c: spec_fn(Symbol) -> bool) -> bool { forall|i: int, j: int| #![trigger o[i], o[j]] 0 <= i < o.len() && 0 <= j < o.len() && c(o[i]) && !c(o[j]) ==> i < j }
/// `f` puts each symbol of `c` before each of the others.
pub open spec fn splits<F: Fn(Symbol, Symbol) -> cmp::Ordering>(f: F, t: int, c: spec_fn(Symbol) -> bool) -> bool {
    forall|x: Symbol, y: Symbol| #![trigger c(x), c(y)] x.id() < t && y.id() < t && c(x) && !c(y) ==> (forall|r: cmp::Ordering| #[trigger] call_ensures(f, (x, y), r) ==> r == cmp::Ordering::Less) && (forall|r: cmp::Ordering| #[trigger] call_ensures(f, (y, x), r) ==> r == cmp::Ordering::Greater)
}
/// A renumbering under construction. Sorting with a comparison that is not a total order keeps at least the classes it tells apart.
#[verifier::external_body] pub struct Remap<'a> { x: &'a mut Cfg }
impl<'a> Remap<'a> {
    pub uninterp spec fn base(&self) -> Cfg;
    /// The grammar as it will be in the end.
    pub uninterp spec fn last(&self) -> Cfg;
    pub uninterp spec fn order(&self) -> Seq<Symbol>;
    #[verifier::external_body] pub fn new(g: &'a mut Cfg) -> (r: Remap<'a>) ensures r.base() == *old(g), r.last() == *final(g), numbers(r.order(), old(g).s_num_syms() as int), forall|x: Symbol| x.id() < old(g).s_num_syms() ==> #[trigger] r.order().contains(x) { unimplemented!() }
    #[verifier::external_body] pub fn reorder_symbols<F: Fn(Symbol, Symbol) -> cmp::Ordering>(&mut self, f: F)
        requires forall|x: Symbol, y: Symbol| x.id() < old(self).base().s_num_syms() && y.id() < old(self).base().s_num_syms() ==> #[trigger] call_requires(f, (x, y)), numbers(old(self).order(), old(self).base().s_num_syms() as int),
        ensures final(self).base() == old(self).base(), final(self).last() == old(self).last(), numbers(final(self).order(), old(self).base().s_num_syms() as int),
            forall|x: Symbol| old(self).order().contains(x) ==> #[trigger] final(self).order().contains(x),
            forall|c: spec_fn(Symbol) -> bool| splits(f, old(self).base().s_num_syms() as int, c) ==> #[trigger] leads(final(self).order(), c) { unimplemented!() }
    #[verifier::external_body] pub fn remove_unused_symbols(&mut self)
        ensures final(self).base() == old(self).base(), final(self).last() == old(self).last(), numbers(old(self).order(), old(self).base().s_num_syms() as int) ==> numbers(final(self).order(), old(self).base().s_num_syms() as int),
            forall|c: spec_fn(Symbol) -> bool| leads(old(self).order(), c) ==> #[trigger] leads(final(self).order(), c),
            forall|x: Symbol| #[trigger] final(self).order().contains(x) ==> used(old(self).base(), x), forall|x: Symbol| used(old(self).base(), x) && old(self).order().contains(x) ==> #[trigger] final(self).order().contains(x) { unimplemented!() }
    #[verifier::external_body] pub fn get_mapping(self) -> (r: Mapping)
        ensures renumbered(self.base(), self.last(), self.order()), r.to_external@ == self.order(), r.to_internal@.len() == self.base().s_num_syms(),
            forall|x: int| 0 <= x < r.to_internal@.len() ==> ((#[trigger] r.to_internal@[x]) is Some) == self.order().contains(sym(x)) && (r.to_internal@[x] matches Some(y) ==> is_at(self.order(), y, sym(x))) { unimplemented!() }
}
// ---- what the rules are, whatever the numbers of their symbols ----
/// The rule that ends the input; what each internal symbol is reached from, and how far; unary steps.
pub ghost struct Prep { pub top: int, pub vis: spec_fn(Symbol) -> Symbol, pub far: spec_fn(Symbol) -> nat, pub rank: spec_fn(Symbol) -> nat }
pub open spec fn gen(g: Rules, x: Symbol) -> bool { is_gen(g, x.id()) }
pub open spec fn prepared(g: Cfg, z: Prep) -> bool {
    let L = g.list(); let w = g.s_wrapped()[0]; let t = g.s_num_syms() as int;
    &&& shape(L) && in_range(L, t) && L.len() < 0x8000_0000 && t < 0x4000_0000 && dotted(L) && g.s_wrapped().len() == 1 && g.s_roots().len() == 1
    &&& w.root.id() < t && w.start_of_input.id() < t && w.end_of_input.id() < t && w.inner_root.id() < t
    &&& forall|k: int, i: int| 0 <= k < L.len() && 0 <= i < L[k].rhs@.len() ==> #[trigger] L[k].rhs@[i] != w.root
    &&& 0 <= z.top < L.len() && L[z.top].lhs == w.root && forall|k: int| 0 <= k < L.len() ==> #[trigger] ends_input(g, k) == (k == z.top)
    &&& forall|k: int| 0 <= k < L.len() && (#[trigger] L[k]).rhs@.len() == 1 ==> (z.rank)(L[k].lhs) < (z.rank)(L[k].rhs@[0])
    &&& forall|j: int, k: int| 0 <= j < L.len() && 0 <= k < L.len() && (#[trigger] L[j]).rhs@.len() == 1 && (#[trigger] L[k]).rhs@.len() == 1 && L[j].rhs@[0] == L[k].rhs@[0] && gen(L, L[j].rhs@[0]) ==> j == k
    &&& forall|k: int| 0 <= k < L.len() ==> (#[trigger] L[k]).lhs != w.start_of_input && (L[k].lhs == L[z.top].rhs@[0] ==> L[k].rhs@[0] == w.start_of_input)
    &&& forall|k: int| 0 <= k < L.len() ==> (#[trigger] L[k]).lhs != w.end_of_input && L[k].rhs@[0] != w.end_of_input
    &&& forall|k: int| 0 <= k < L.len() && gen(L, (#[trigger] L[k]).rhs@[0]) ==> (z.vis)(L[k].rhs@[0]) == (z.vis)(L[k].lhs) && (z.far)(L[k].lhs) < (z.far)(L[k].rhs@[0])
    &&& forall|k: int| 0 <= k < L.len() && gen(L, (#[trigger] L[k]).lhs) ==> used_first(L, L[k].lhs)
    &&& forall|x: Symbol| !gen(L, x) ==> (#[trigger] (z.vis)(x)) == x
}
/// Before the renumbering, where a unary rule relates an internal symbol and another, the internal one has the greater number.
pub open spec fn layered(g: Rules) -> bool { forall|k: int| 0 <= k < g.len() && (#[trigger] g[k]).rhs@.len() == 1 && gen(g, g[k].lhs) != gen(g, g[k].rhs@[0]) ==> (if gen(g, g[k].lhs) { g[k].rhs@[0].id() < g[k].lhs.id() } else { g[k].lhs.id() < g[k].rhs@[0].id() }) }
/// What the numbering achieves.
pub open spec fn ordered(g: Cfg, n: int) -> bool { 0 <= n <= g.s_num_syms() && g.s_wrapped()[0].end_of_input.id() == 0 && forall|x: int| 0 <= x < g.s_num_syms() ==> #[trigger] is_gen(g.list(), x) == (x >= n) }
/// The list `h` is the list `g` in another order (`p`), with other numbers (`s`: the old symbol).
pub open spec fn same_as(q: CfgRule, r: CfgRule, s: spec_fn(Symbol) -> Symbol) -> bool {
    s(r.lhs) == q.lhs && r.rhs@.len() == q.rhs@.len() && (forall|i: int| 0 <= i < q.rhs@.len() ==> s(#[trigger] r.rhs@[i]) == q.rhs@[i]) && r.history.s_origin() == q.history.s_origin() && forall|i: int| (#[trigger] r.history.s_dots()[i]) == q.history.s_dots()[i]
}
pub open spec fn apart(t: int, s: spec_fn(Symbol) -> Symbol) -> bool { forall|x: Symbol, y: Symbol| #![trigger s(x), s(y)] x.id() < t && y.id() < t && s(x) == s(y) ==> x == y }
pub open spec fn moved(g: Rules, h: Rules, t: int, p: Places, s: spec_fn(Symbol) -> Symbol) -> bool {
    h.len() == g.len() && paired(g.len() as int, p) && apart(t, s) && in_range(h, t) && forall|k: int| 0 <= k < h.len() ==> same_as(g[(p.was)(k)], #[trigger] h[k], s)
}
pub open spec fn one(g: Rules, k: int, x: int, w: int) -> bool { exists|j: int| 0 <= j < k && counts(#[trigger] g[j], x, w) }
pub open spec fn two(g: Rules, k: int, x: int, w: int) -> bool { exists|i: int, j: int| 0 <= i < j < k && counts(#[trigger] g[i], x, w) && counts(#[trigger] g[j], x, w) }
pub proof fn lemma_counted(g: Rules, k: int, x: int, w: int)
    requires 0 <= k <= g.len()
    ensures (cnt(g, k, x, w) >= 1) == one(g, k, x, w), (cnt(g, k, x, w) >= 2) == two(g, k, x, w), cnt(g, k, x, w) >= 0
    decreases k
{
    if k > 0 {
        lemma_counted(g, k - 1, x, w); let q = g[k - 1];
        if counts(q, x, w) {
            assert(one(g, k, x, w));
            if one(g, k - 1, x, w) { let j = choose|j: int| 0 <= j < k - 1 && counts(#[trigger] g[j], x, w); assert(counts(g[j], x, w) && counts(g[k - 1], x, w)); }
            if two(g, k, x, w) { let (i, j) = choose|i: int, j: int| 0 <= i < j < k && counts(#[trigger] g[i], x, w) && counts(#[trigger] g[j], x, w); assert(counts(g[i], x, w)); assert(one(g, k - 1, x, w)); }
        } else {
            if one(g, k, x, w) { let j = choose|j: int| 0 <= j < k && counts(#[trigger] g[j], x, w); assert(j < k - 1); }
            if two(g, k, x, w) { let (i, j) = choose|i: int, j: int| 0 <= i < j < k && counts(#[trigger] g[i], x, w) && counts(#[trigger] g[j], x, w); assert(j < k - 1); }
        }
    }
}
pub proof fn lemma_counts(q: CfgRule, r: CfgRule, t: int, s: spec_fn(Symbol) -> Symbol, x: Symbol, w: int)
    requires same_as(q, r, s), apart(t, s), r.lhs.id() < t, forall|i: int| 0 <= i < r.rhs@.len() ==> (#[trigger] r.rhs@[i]).id() < t, x.id() < t, r.rhs@.len() >= 1
    ensures counts(r, x.id(), w) == counts(q, s(x).id(), w)
{
    assert forall|y: Symbol| y.id() < t implies (#[trigger] s(y) == s(x)) == (y.id() == x.id()) by { }
    assert(s(r.rhs@[0]) == q.rhs@[0]);
    if r.rhs@.len() == 2 { assert(s(r.rhs@[1]) == q.rhs@[1]); }
    assert((r.lhs == r.rhs@[0]) == (q.lhs == q.rhs@[0]));
}
pub proof fn lemma_gen_moved(g: Rules, h: Rules, t: int, p: Places, s: spec_fn(Symbol) -> Symbol, x: Symbol)
    requires moved(g, h, t, p, s), shape(g), x.id() < t
    ensures gen(h, x) == gen(g, s(x))
{
    let n = g.len() as int; let y = s(x);
    assert forall|k: int, w: int| 0 <= k < n implies #[trigger] counts(h[k], x.id(), w) == counts(g[(p.was)(k)], y.id(), w) by { let r = h[k]; assert(same_as(g[(p.was)(k)], r, s)); assert(g[(p.was)(k)].rhs@.len() >= 1); lemma_counts(g[(p.was)(k)], r, t, s, x, w); }
    assert forall|k: int, w: int| 0 <= k < n implies #[trigger] counts(g[k], y.id(), w) == counts(h[(p.to)(k)], x.id(), w) by { let m = (p.to)(k); assert((p.was)(m) == k); }
    assert forall|w: int| #![trigger cnt(h, n, x.id(), w)] (cnt(h, n, x.id(), w) >= 1) == (cnt(g, n, y.id(), w) >= 1) && (cnt(h, n, x.id(), w) >= 2) == (cnt(g, n, y.id(), w) >= 2) && cnt(h, n, x.id(), w) >= 0 && cnt(g, n, y.id(), w) >= 0 by {
        lemma_counted(h, n, x.id(), w); lemma_counted(g, n, y.id(), w);
        if one(h, n, x.id(), w) { let j = choose|j: int| 0 <= j < n && counts(#[trigger] h[j], x.id(), w); assert(counts(g[(p.was)(j)], y.id(), w)); }
        if one(g, n, y.id(), w) { let j = choose|j: int| 0 <= j < n && counts(#[trigger] g[j], y.id(), w); assert(counts(h[(p.to)(j)], x.id(), w)); }
        if two(h, n, x.id(), w) {
            let (i, j) = choose|i: int, j: int| 0 <= i < j < n && counts(#[trigger] h[i], x.id(), w) && counts(#[trigger] h[j], x.id(), w);
            let a = (p.was)(i); let b = (p.was)(j); assert((p.to)(a) == i && (p.to)(b) == j); assert(counts(g[a], y.id(), w) && counts(g[b], y.id(), w));
            if a < b { assert(two(g, n, y.id(), w)); } else { assert(b < a); assert(two(g, n, y.id(), w)); }
        }
        if two(g, n, y.id(), w) {
            let (i, j) = choose|i: int, j: int| 0 <= i < j < n && counts(#[trigger] g[i], y.id(), w) && counts(#[trigger] g[j], y.id(), w);
            let a = (p.to)(i); let b = (p.to)(j); assert((p.was)(a) == i && (p.was)(b) == j); assert(counts(h[a], x.id(), w) && counts(h[b], x.id(), w));
            if a < b { assert(two(h, n, x.id(), w)); } else { assert(b < a); assert(two(h, n, x.id(), w)); }
        }
    }
    if no_origin(h, n, x.id()) { let j = choose|j: int| 0 <= j < n && (#[trigger] h[j]).lhs.id() == x.id() && h[j].history.s_origin().s_is_null(); let r = h[j]; let i = (p.was)(j); assert(same_as(g[i], r, s)); assert(r.lhs == x); assert(g[i].lhs.id() == y.id()); }
    if no_origin(g, n, y.id()) { let j = choose|j: int| 0 <= j < n && (#[trigger] g[j]).lhs.id() == y.id() && g[j].history.s_origin().s_is_null(); let i = (p.to)(j); let r = h[i]; assert((p.was)(i) == j); assert(same_as(g[j], r, s)); assert(s(r.lhs) == s(x)); assert(r.lhs == x); }
    assert(cnt(h, n, x.id(), 0) >= 0 && cnt(h, n, x.id(), 1) >= 0 && cnt(h, n, x.id(), 2) >= 0);
}
/// The wrapping symbols, with their other numbers.
pub open spec fn rewrapped(g: Cfg, h: Cfg, s: spec_fn(Symbol) -> Symbol) -> bool {
    let w = g.s_wrapped()[0]; let v = h.s_wrapped()[0]; let t = h.s_num_syms() as int;
    &&& h.s_wrapped().len() == g.s_wrapped().len() && h.s_roots().len() == g.s_roots().len()
    &&& v.root.id() < t && v.start_of_input.id() < t && v.end_of_input.id() < t && v.inner_root.id() < t
    &&& s(v.root) == w.root && s(v.start_of_input) == w.start_of_input && s(v.end_of_input) == w.end_of_input && s(v.inner_root) == w.inner_root
}
/// The number of an old symbol.
pub open spec fn number(t: int, s: spec_fn(Symbol) -> Symbol, y: Symbol) -> Symbol { if exists|x: Symbol| x.id() < t && #[trigger] s(x) == y { choose|x: Symbol| x.id() < t && #[trigger] s(x) == y } else { sym(t) } }
pub open spec fn moved_prep(g: Rules, h: Rules, t: int, z: Prep, p: Places, s: spec_fn(Symbol) -> Symbol) -> Prep {
    Prep { top: (p.to)(z.top), vis: |x: Symbol| if gen(h, x) { number(t, s, (z.vis)(s(x))) } else { x }, far: |x: Symbol| (z.far)(s(x)), rank: |x: Symbol| (z.rank)(s(x)) }
}
pub proof fn theorem_moved(g: Cfg, h: Cfg, z: Prep, p: Places, s: spec_fn(Symbol) -> Symbol)
    requires prepared(g, z), moved(g.list(), h.list(), h.s_num_syms() as int, p, s), rewrapped(g, h, s), h.s_num_syms() < 0x4000_0000
    ensures prepared(h, moved_prep(g.list(), h.list(), h.s_num_syms() as int, z, p, s))
{
    let L = g.list(); let M = h.list(); let t = h.s_num_syms() as int; let w = g.s_wrapped()[0]; let v = h.s_wrapped()[0]; let y = moved_prep(L, M, t, z, p, s); let n = L.len() as int;
    assert(M.len() == n);
    assert forall|k: int| 0 <= k < n implies same_as(L[(p.was)(k)], #[trigger] M[k], s) && 1 <= M[k].rhs@.len() <= 2 && M[k].rhs@.len() == L[(p.was)(k)].rhs@.len() && M[k].lhs.id() < t && M[k].rhs@[0].id() < t
        && s(M[k].lhs) == L[(p.was)(k)].lhs && s(M[k].rhs@[0]) == L[(p.was)(k)].rhs@[0] && (M[k].rhs@.len() == 2 ==> M[k].rhs@[1].id() < t && s(M[k].rhs@[1]) == L[(p.was)(k)].rhs@[1]) && 0 <= (p.was)(k) < n && (p.to)((p.was)(k)) == k by {
        let j = (p.was)(k); assert(1 <= L[j].rhs@.len() <= 2); let r = M[k]; assert(same_as(L[j], r, s));
        assert(r.rhs@[0].id() < t && s(r.rhs@[0]) == L[j].rhs@[0]); if r.rhs@.len() == 2 { assert(r.rhs@[1].id() < t && s(r.rhs@[1]) == L[j].rhs@[1]); }
    }
    assert forall|x: Symbol| x.id() < t implies #[trigger] gen(M, x) == gen(L, s(x)) by { lemma_gen_moved(L, M, t, p, s, x); }
    assert forall|x: Symbol| gen(M, x) implies x.id() < t by {
        if gen(M, x) { let j = choose|j: int| 0 <= j < n && (#[trigger] M[j]).lhs.id() == x.id() && M[j].history.s_origin().s_is_null(); assert(M[j].lhs.id() < t); }
    }
    assert(dotted(M)) by { assert forall|k: int| 0 <= k < n implies (#[trigger] M[k]).history.s_dots()[1] is Some && M[k].history.s_dots()[2] is Some by { let q = L[(p.was)(k)]; let r = M[k]; assert(same_as(q, r, s)); assert(q.history.s_dots()[1] is Some && q.history.s_dots()[2] is Some); assert(r.history.s_dots()[1] == q.history.s_dots()[1]); assert(r.history.s_dots()[2] == q.history.s_dots()[2]); } }
    assert forall|k: int, i: int| 0 <= k < n && 0 <= i < M[k].rhs@.len() implies #[trigger] M[k].rhs@[i] != v.root by { let q = L[(p.was)(k)]; let r = M[k]; assert(same_as(q, r, s)); assert(s(r.rhs@[i]) == q.rhs@[i]); assert(q.rhs@[i] != w.root); }
    assert(0 <= y.top < n && (p.was)(y.top) == z.top);
    assert(s(M[y.top].lhs) == w.root); assert(M[y.top].lhs == v.root);
    assert forall|k: int| 0 <= k < n implies #[trigger] ends_input(h, k) == (k == y.top) by {
        let j = (p.was)(k); let r = M[k]; assert(ends_input(g, j) == (j == z.top));
        if r.rhs@.len() == 2 { assert((s(r.rhs@[1]) == s(v.end_of_input)) == (r.rhs@[1] == v.end_of_input)); }
        assert(ends_input(h, k) == ends_input(g, j));
    }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && (#[trigger] M[i]).rhs@.len() == 1 && (#[trigger] M[j]).rhs@.len() == 1 && M[i].rhs@[0] == M[j].rhs@[0] && gen(M, M[i].rhs@[0]) implies i == j by {
        let a = (p.was)(i); let b = (p.was)(j); assert(L[a].rhs@[0] == L[b].rhs@[0]); assert(gen(L, L[a].rhs@[0])); assert(a == b);
    }
    assert forall|k: int| 0 <= k < n implies (#[trigger] M[k]).lhs != v.start_of_input && (M[k].lhs == M[y.top].rhs@[0] ==> M[k].rhs@[0] == v.start_of_input) && M[k].lhs != v.end_of_input && M[k].rhs@[0] != v.end_of_input by {
        let q = L[(p.was)(k)]; let r = M[k]; assert(q.lhs != w.start_of_input && q.lhs != w.end_of_input && q.rhs@[0] != w.end_of_input);
        assert(s(M[y.top].rhs@[0]) == L[z.top].rhs@[0]);
        if r.lhs == M[y.top].rhs@[0] { assert(q.lhs == L[z.top].rhs@[0]); assert(s(r.rhs@[0]) == s(v.start_of_input)); }
    }
    assert forall|x: Symbol| x.id() < t implies number(t, s, #[trigger] s(x)) == x by { let c = number(t, s, s(x)); assert(s(c) == s(x) && c.id() < t); }
    assert forall|x: Symbol| x.id() < t implies #[trigger] (y.vis)(x) == number(t, s, (z.vis)(s(x))) by { if !gen(M, x) { assert(!gen(L, s(x))); assert((z.vis)(s(x)) == s(x)); } }
    assert forall|k: int| 0 <= k < n && gen(M, (#[trigger] M[k]).rhs@[0]) implies (y.vis)(M[k].rhs@[0]) == (y.vis)(M[k].lhs) && (y.far)(M[k].lhs) < (y.far)(M[k].rhs@[0]) by {
        let q = L[(p.was)(k)]; let r = M[k]; assert(gen(L, q.rhs@[0])); assert((z.vis)(q.rhs@[0]) == (z.vis)(q.lhs)); assert((y.vis)(r.rhs@[0]) == number(t, s, (z.vis)(s(r.rhs@[0])))); assert((y.vis)(r.lhs) == number(t, s, (z.vis)(s(r.lhs))));
    }
    assert forall|k: int| 0 <= k < n && gen(M, (#[trigger] M[k]).lhs) implies used_first(M, M[k].lhs) by {
        let q = L[(p.was)(k)]; assert(gen(L, q.lhs)); let j = choose|j: int| 0 <= j < n && (#[trigger] L[j]).rhs@[0] == q.lhs; let i = (p.to)(j); assert((p.was)(i) == j); assert(s(M[i].rhs@[0]) == s(M[k].lhs)); assert(M[i].rhs@[0] == M[k].lhs);
    }
    assert forall|x: Symbol| !gen(M, x) implies (#[trigger] (y.vis)(x)) == x by { }
    assert forall|k: int| 0 <= k < n && (#[trigger] M[k]).rhs@.len() == 1 implies (y.rank)(M[k].lhs) < (y.rank)(M[k].rhs@[0]) by { let q = L[(p.was)(k)]; assert((z.rank)(q.lhs) < (z.rank)(q.rhs@[0])); }
    assert(shape(M));
}
/// What a numbered and sorted list is.
pub open spec fn by_lhs(g: Rules) -> bool { forall|i: int, j: int| 0 <= i <= j < g.len() ==> (#[trigger] g[i]).lhs.id() <= (#[trigger] g[j]).lhs.id() }
pub proof fn theorem_formed(g: Cfg, n: int, z: Prep)
    requires prepared(g, z), ordered(g, n), by_lhs(g.list())
    ensures processed(g, n), formed(g, n, Shape { top: z.top, rank: z.rank })
{
    let L = g.list(); let c = Chain { vis: z.vis, rank: z.far };
    assert forall|x: Symbol| x.id() < g.s_num_syms() implies #[trigger] gen(L, x) == (x.id() >= n) by { assert(is_gen(L, x.id()) == (x.id() >= n)); }
    assert forall|k: int| 0 <= k < L.len() implies (#[trigger] L[k]).rhs@[0].id() < g.s_num_syms() && L[k].lhs.id() < g.s_num_syms() by { assert(1 <= L[k].rhs@.len()); }
    assert forall|x: Symbol| x.id() < n implies (#[trigger] (c.vis)(x)) == x by { assert(!gen(L, x)); }
    assert(chain_ok(L, n, c));
    assert(ends_input(g, z.top));
}
// ---- remap_symbols ----
/// The first `k` rules relate `a` and `b` by a unary rule, `a` being the lesser number.
pub open spec fn unary_pair(q: CfgRule, a: int, b: int) -> bool { q.rhs@.len() == 1 && a < b && ((q.lhs.id() == a && q.rhs@[0].id() == b) || (q.lhs.id() == b && q.rhs@[0].id() == a)) }
pub open spec fn unaries(g: Rules, k: int, a: int, b: int) -> bool { exists|q: int| 0 <= q < k && unary_pair(#[trigger] g[q], a, b) }
pub open spec fn within(r: Seq<Symbol>, k: int, x: int) -> bool { exists|i: int| 0 <= i < k && (#[trigger] r[i]).id() == x }
/// The order asked for, of the first `k` symbols of `r`.
pub open spec fn asked(g: Cfg, r: Seq<Symbol>, k: int, a: int, b: int) -> bool {
    let t = g.s_num_syms() as int;
    0 <= a < t && 0 <= b < t && (unaries(g.list(), g.list().len() as int, a, b) || (within(r, k, a) && is_gen(g.list(), b)) || (a == g.s_wrapped()[0].end_of_input.id() && within(r, k, b)))
}
pub open spec fn edge_(g: Cfg, a: int, b: int) -> bool {
    let t = g.s_num_syms() as int;
    0 <= a < t && 0 <= b < t && (unaries(g.list(), g.list().len() as int, a, b) || (!is_gen(g.list(), a) && is_gen(g.list(), b)) || (a == g.s_wrapped()[0].end_of_input.id() && !is_gen(g.list(), b)))
}
/// Nothing internal comes before anything else; nothing comes before the end of input.
pub proof fn lemma_walks(g: Cfg, z: Prep, p: Seq<int>, i: int, j: int, k: int)
    requires prepared(g, z), layered(g.list()), walk(|a: int, b: int| edge_(g, a, b), p, i, j), 0 <= k < p.len()
    ensures is_gen(g.list(), i) ==> is_gen(g.list(), p[k]), i != g.s_wrapped()[0].end_of_input.id() ==> p[k] != g.s_wrapped()[0].end_of_input.id()
    decreases k
{
    if k > 0 {
        let L = g.list(); let e = g.s_wrapped()[0].end_of_input;
        lemma_walks(g, z, p, i, j, k - 1); let a = p[k - 1]; let b = p[k]; let f = |a: int, b: int| edge_(g, a, b); assert(f(a, b)); assert(edge_(g, a, b));
        lemma_end_not_gen(g, z);
        if unaries(L, L.len() as int, a, b) {
            let q = choose|q: int| 0 <= q < L.len() && unary_pair(#[trigger] L[q], a, b);
            assert(L[q].lhs != e && L[q].rhs@[0] != e);
            if L[q].lhs.id() == e.id() || L[q].rhs@[0].id() == e.id() { assert(false); }
        }
        if is_gen(L, a) && !is_gen(L, b) { assert(unaries(L, L.len() as int, a, b)); let q = choose|q: int| 0 <= q < L.len() && unary_pair(#[trigger] L[q], a, b); assert(gen(L, L[q].lhs) != gen(L, L[q].rhs@[0])); assert(false); }
    }
}
pub proof fn lemma_end_not_gen(g: Cfg, z: Prep)
    requires prepared(g, z)
    ensures !is_gen(g.list(), g.s_wrapped()[0].end_of_input.id())
{ let L = g.list(); let e = g.s_wrapped()[0].end_of_input; if is_gen(L, e.id()) { let j = choose|j: int| 0 <= j < L.len() && (#[trigger] L[j]).lhs.id() == e.id() && L[j].history.s_origin().s_is_null(); assert(L[j].lhs != e); } }
pub proof fn lemma_split(f: spec_fn(int) -> bool, t: int) -> (n: int)
    requires t >= 0, forall|i: int, j: int| #![trigger f(i), f(j)] 0 <= i < j < t && f(i) ==> f(j)
    ensures 0 <= n <= t, forall|x: int| 0 <= x < t ==> #[trigger] f(x) == (x >= n)
    decreases t
{ if t == 0 { 0 } else { let n = lemma_split(f, t - 1); if n < t - 1 { assert(f(n)); n } else if f(t - 1) { t - 1 } else { t } } }
pub open spec fn cmp_path(g: Cfg, x: Symbol, y: Symbol) -> cmp::Ordering { let e = |a: int, b: int| edge_(g, a, b); if path(e, x.id(), y.id()) { cmp::Ordering::Less } else if path(e, y.id(), x.id()) { cmp::Ordering::Greater } else { cmp::Ordering::Equal } }
/// The comparison puts the end of input first and the internal symbols last.
pub proof fn lemma_cmp(g: Cfg, z: Prep, x: Symbol, y: Symbol)
    requires prepared(g, z), layered(g.list()), x.id() < g.s_num_syms(), y.id() < g.s_num_syms(), (!gen(g.list(), x) && gen(g.list(), y)) || (x == g.s_wrapped()[0].end_of_input && x != y)
    ensures cmp_path(g, x, y) == cmp::Ordering::Less, cmp_path(g, y, x) == cmp::Ordering::Greater
{
    hide(prepared); hide(layered); hide(is_gen); hide(unaries);
    let e = |a: int, b: int| edge_(g, a, b); lemma_end_not_gen(g, z);
    assert(e(x.id(), y.id())); let p = seq![x.id(), y.id()]; assert(walk(e, p, x.id(), y.id())); assert(path(e, x.id(), y.id()));
    if path(e, y.id(), x.id()) { let q = choose|p: Seq<int>| #[trigger] walk(e, p, y.id(), x.id()); lemma_walks(g, z, q, y.id(), x.id(), q.len() - 1); assert(y.n != x.n || y == x); }
}
/// The symbol that a new number stands for.
pub open spec fn named_by(o: Seq<Symbol>) -> spec_fn(Symbol) -> Symbol { |x: Symbol| if x.id() < o.len() { o[x.id()] } else { x } }
pub open spec fn still() -> Places { Places { was: |k: int| k, to: |k: int| k } }
pub proof fn lemma_renumbered(g: Cfg, h: Cfg, o: Seq<Symbol>, z: Prep)
    requires prepared(g, z), renumbered(g, h, o), numbers(o, g.s_num_syms() as int), leads(o, |x: Symbol| !gen(g.list(), x)), leads(o, |x: Symbol| x == g.s_wrapped()[0].end_of_input)
    ensures moved(g.list(), h.list(), h.s_num_syms() as int, still(), named_by(o)), rewrapped(g, h, named_by(o)), prepared(h, moved_prep(g.list(), h.list(), h.s_num_syms() as int, z, still(), named_by(o))), exists|n: int| ordered(h, n)
{
    let s = named_by(o); let L = g.list(); let M = h.list(); let t = h.s_num_syms() as int;
    assert forall|k: int| 0 <= k < M.len() implies same_as(L[k], #[trigger] M[k], s) && M[k].lhs.id() < t && forall|i: int| 0 <= i < M[k].rhs@.len() ==> (#[trigger] M[k].rhs@[i]).id() < t by { let q = L[k]; let r = M[k]; assert(renamed(q, r, o)); }
    assert(in_range(M, t));
    assert(apart(t, s));
    assert(moved(L, M, t, still(), s));
    assert(h.s_wrapped()[0].root.id() < t);
    theorem_moved(g, h, z, still(), s);
    assert forall|x: int| 0 <= x < t implies #[trigger] is_gen(M, x) == gen(L, o[x]) by { lemma_gen_moved(L, M, t, still(), s, sym(x)); }
    let c = |x: Symbol| !gen(L, x); let f = |x: int| is_gen(M, x);
    assert forall|i: int, j: int| #![trigger f(i), f(j)] 0 <= i < j < t && f(i) implies f(j) by { if !f(j) { assert(c(o[j]) && !c(o[i])); } }
    let n = lemma_split(f, t);
    let e = h.s_wrapped()[0].end_of_input; let d = |x: Symbol| x == g.s_wrapped()[0].end_of_input;
    assert(d(o[e.id()])); if e.id() != 0 { assert(o[0] != o[e.id()]); assert(!d(o[0])); assert(false); }
    assert forall|x: int| 0 <= x < t implies #[trigger] is_gen(M, x) == (x >= n) by { assert(f(x) == (x >= n)); }
    assert(ordered(h, n));
}
/// What the renumbering leaves.
pub open spec fn turned(g: Cfg, h: Cfg, o: Seq<Symbol>) -> bool {
    let t = h.s_num_syms() as int;
    &&& forall|z: Prep| #[trigger] prepared(g, z) ==> prepared(h, moved_prep(g.list(), h.list(), t, z, still(), named_by(o)))
    &&& moved(g.list(), h.list(), t, still(), named_by(o)) && rewrapped(g, h, named_by(o)) && exists|n: int| ordered(h, n)
}
pub proof fn lemma_turned(g: Cfg, h: Cfg, o: Seq<Symbol>, z: Prep)
    requires prepared(g, z), renumbered(g, h, o), numbers(o, g.s_num_syms() as int), leads(o, |x: Symbol| !gen(g.list(), x)), leads(o, |x: Symbol| x == g.s_wrapped()[0].end_of_input)
    ensures turned(g, h, o)
{
    hide(prepared); hide(renumbered); hide(moved); hide(rewrapped); hide(moved_prep); hide(ordered);
    lemma_renumbered(g, h, o, z);
    assert forall|z: Prep| #[trigger] prepared(g, z) implies prepared(h, moved_prep(g.list(), h.list(), h.s_num_syms() as int, z, still(), named_by(o))) by { lemma_renumbered(g, h, o, z); }
}
pub proof fn lemma_basic(g: Cfg, z: Prep)
    requires prepared(g, z)
    ensures shape(g.list()), in_range(g.list(), g.s_num_syms() as int), listed(g), g.s_wrapped().len() == 1, g.s_wrapped()[0].end_of_input.id() < g.s_num_syms(), !is_gen(g.list(), g.s_wrapped()[0].end_of_input.id()), g.s_num_syms() < 0x4000_0000
{ lemma_end_not_gen(g, z); }
pub proof fn lemma_unaries(g: Rules, t: int, a: int, b: int)
    requires unaries(g, g.len() as int, a, b), in_range(g, t), shape(g)
    ensures 0 <= a < t, 0 <= b < t
{ let q = choose|q: int| 0 <= q < g.len() && unary_pair(#[trigger] g[q], a, b); assert(g[q].rhs@[0].id() < t && g[q].lhs.id() < t); }
pub proof fn lemma_asked_next(g: Cfg, r: Seq<Symbol>, k: int, a: int, b: int)
    requires 0 < k <= r.len()
    ensures asked(g, r, k, a, b) == (asked(g, r, k - 1, a, b) || { let x = r[k - 1].id(); 0 <= a < g.s_num_syms() && 0 <= b < g.s_num_syms() && ((a == x && is_gen(g.list(), b)) || (a == g.s_wrapped()[0].end_of_input.id() && b == x)) })
{
    hide(is_gen); hide(unaries);
    assert forall|x: int| #[trigger] within(r, k, x) == (within(r, k - 1, x) || r[k - 1].id() == x) by {
        if within(r, k, x) { let i = choose|i: int| 0 <= i < k && (#[trigger] r[i]).id() == x; if i < k - 1 { assert(within(r, k - 1, x)); } }
        if within(r, k - 1, x) { let i = choose|i: int| 0 <= i < k - 1 && (#[trigger] r[i]).id() == x; assert(0 <= i < k); }
    }
}
/// All others having been asked for.
pub proof fn lemma_asked(g: Cfg, r: Seq<Symbol>)
    requires forall|x: Symbol| r.contains(x) == (x.id() < g.s_num_syms() && !gen(g.list(), x)), g.s_num_syms() < 0x4000_0000
    ensures forall|a: int, b: int| #[trigger] asked(g, r, r.len() as int, a, b) == edge_(g, a, b)
{
    hide(is_gen); hide(unaries); let t = g.s_num_syms() as int;
    assert forall|x: int| 0 <= x < t implies #[trigger] within(r, r.len() as int, x) == !is_gen(g.list(), x) by {
        let s = sym(x); assert(r.contains(s) == !gen(g.list(), s));
        if within(r, r.len() as int, x) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).id() == x; assert(r[i] == s); }
        if r.contains(s) { let i = choose|i: int| 0 <= i < r.len() && r[i] == s; assert(r[i].id() == x); }
    }
}
//@ impl D `impl DefaultGrammar`
//@ fn remap_symbols props=P25
    requires exists|z: Prep| prepared(*old(grammar), z) && layered(old(grammar).list())
    ensures turned(*old(grammar), *final(grammar), r.to_external@),
        r.to_internal@.len() == old(grammar).s_num_syms(), forall|x: Symbol| used(*old(grammar), x) && x.id() < old(grammar).s_num_syms() ==> (#[trigger] r.to_internal@[x.id()]) is Some && is_at(r.to_external@, r.to_internal@[x.id()]->0, x)
//@ entry
    hide(prepared); hide(layered); hide(is_gen); hide(turned); hide(renumbered);
    let ghost g = *grammar; let ghost L = g.list(); let ghost t = g.s_num_syms() as int; let ghost z = choose|z: Prep| prepared(g, z) && layered(L);
    proof { lemma_basic(g, z); }
//@ desugar_seq 0 a_
        g == *grammar, L == g.list(), t == g.s_num_syms(), shape(L), in_range(L, t), a_all.len() == L.len(), forall|k: int| 0 <= k < L.len() ==> *(#[trigger] a_all[k]) == L[k],
        order.wf(), order.rows().len() == t, order.bits() == t, order.width() == (t + 31) / 32,
        forall|i: int, j: int| 0 <= i < t ==> #[trigger] order.rows()[i].has(j) == unaries(L, a_n, i, j),
//@ loop_start 0
    let ghost order0 = order; proof { assert(1 <= L[a_n - 1].rhs@.len() && L[a_n - 1].lhs.id() < t && L[a_n - 1].rhs@[0].id() < t); }
//@ loop_end 0
    proof {
        let q = L[a_n - 1];
        assert forall|i: int, j: int| #[trigger] unaries(L, a_n, i, j) == (unaries(L, a_n - 1, i, j) || unary_pair(q, i, j)) by {
            if unaries(L, a_n, i, j) { let k = choose|k: int| 0 <= k < a_n && unary_pair(#[trigger] L[k], i, j); if k < a_n - 1 { assert(unaries(L, a_n - 1, i, j)); } }
            if unaries(L, a_n - 1, i, j) { let k = choose|k: int| 0 <= k < a_n - 1 && unary_pair(#[trigger] L[k], i, j); assert(0 <= k < a_n); }
        }
        assert forall|i: int, j: int| 0 <= i < t implies #[trigger] order.rows()[i].has(j) == unaries(L, a_n, i, j) by { assert(order0.rows()[i].has(j) == unaries(L, a_n - 1, i, j)); }
    }
//@ desugar_seq 1 b_
    proof {
        let nb = not_gensyms.bits();
        assert forall|x: Symbol| #[trigger] b_all.contains(x) == (x.id() < t && !gen(L, x)) by { assert(b_all.contains(x) == (x.id() < nb.len() && nb[x.id()])); }
        assert forall|i: int, j: int| 0 <= i < t implies #[trigger] order.rows()[i].has(j) == asked(g, b_all, 0, i, j) by { assert(order.rows()[i].has(j) == unaries(L, L.len() as int, i, j)); if unaries(L, L.len() as int, i, j) { lemma_unaries(L, t, i, j); } assert(!within(b_all, 0, i)); assert(!within(b_all, 0, j)); }
    }
---
        g == *grammar, L == g.list(), t == g.s_num_syms(), end_of_input == g.s_wrapped()[0].end_of_input, end_of_input.id() < t, !is_gen(L, end_of_input.id()),
        gensyms.bits().len() == t, forall|x: int| 0 <= x < t ==> #[trigger] gensyms.bits()[x] == is_gen(L, x),
        forall|x: Symbol| #[trigger] b_all.contains(x) == (x.id() < t && !gen(L, x)),
        order.wf(), order.rows().len() == t, order.bits() == t, order.width() == (t + 31) / 32,
        forall|i: int, j: int| 0 <= i < t ==> #[trigger] order.rows()[i].has(j) == asked(g, b_all, b_n, i, j),
//@ loop_start 1
    let ghost order0 = order; proof { assert(b_all.contains(b_all[b_n - 1])); axiom_blocks(gensyms.bits()); }
//@ desugar_zip_mut 2
    invariant g == *grammar, t == g.s_num_syms(), not_gensym.id() < t, gensyms.bits().len() == t,
        order.wf(), order.rows().len() == t, order.bits() == t, order.width() == (t + 31) / 32, zip_i_ <= (t + 31) / 32,
        order0.wf(), order0.rows().len() == t, order0.width() == (t + 31) / 32,
        forall|i: int| 0 <= i < t && i != not_gensym.id() ==> #[trigger] order.rows()[i] == order0.rows()[i],
        ored(order0.rows()[not_gensym.id()].blocks@, blocks_of(gensyms.bits()), zip_i_ as int, order.rows()[not_gensym.id()].blocks@), blocks_of(gensyms.bits()).len() == (t + 31) / 32,
    decreases (t + 31) / 32 - zip_i_
//@ after_loop 2
    let ghost order1 = order;
//@ loop_end 1
    proof {
        let x = not_gensym.id(); let bl = blocks_of(gensyms.bits());
        assert forall|j: int| #[trigger] order1.rows()[x].has(j) == (order0.rows()[x].has(j) || (0 <= j < t && gensyms.bits()[j])) by {
            if 0 <= j < order0.rows()[x].len() { lemma_or(order0.rows()[x].blocks@[j / 32], bl[j / 32], j % 32); assert(in_block(bl, j) == (j < t && gensyms.bits()[j])); }
        }
        assert forall|i: int, j: int| 0 <= i < t implies #[trigger] order.rows()[i].has(j) == asked(g, b_all, b_n, i, j) by {
            assert(order0.rows()[i].has(j) == asked(g, b_all, b_n - 1, i, j)); lemma_asked_next(g, b_all, b_n, i, j);
            assert(order1.rows()[i].has(j) == (order0.rows()[i].has(j) || (i == x && 0 <= j < t && is_gen(L, j))));
        }
    }
//@ after `order . transitive_closure ( ) ;`
    proof {
        lemma_asked(g, b_all); let e1 = |a: int, b: int| 0 <= a < order2.rows().len() && order2.rows()[a].has(b); let e2 = |a: int, b: int| edge_(g, a, b);
        assert forall|a: int, b: int| #[trigger] e1(a, b) == e2(a, b) by { if 0 <= a < t { assert(order2.rows()[a].has(b) == asked(g, b_all, b_all.len() as int, a, b)); } }
        assert forall|a: int, b: int| 0 <= a < t implies #[trigger] order.rows()[a].has(b) == path(e2, a, b) by { lemma_path_same(e1, e2, a, b); }
    }
//@ before `let mut remap =`
    proof {
        let e = g.s_wrapped()[0].end_of_input;
        assert forall|x: Symbol, y: Symbol| #![trigger cmp_path(g, x, y)] x.id() < t && y.id() < t && ((!gen(L, x) && gen(L, y)) || (x == e && x != y)) implies cmp_path(g, x, y) == cmp::Ordering::Less && cmp_path(g, y, x) == cmp::Ordering::Greater by { lemma_cmp(g, z, x, y); }
    }
//@ before `order . transitive_closure ( ) ;`
    let ghost order2 = order;
//@ before `remap . remove_unused_symbols ( ) ;`
    proof {
        let c = |x: Symbol| !gen(L, x); let d = |x: Symbol| x == g.s_wrapped()[0].end_of_input;
        assert(leads(remap.order(), c) && leads(remap.order(), d));
    }
//@ exit
    proof {
        let o = remap.order(); let c = |x: Symbol| !gen(L, x); let d = |x: Symbol| x == g.s_wrapped()[0].end_of_input;
        assert(leads(o, c) && leads(o, d));
        assert forall|h: Cfg| #[trigger] renumbered(g, h, o) implies turned(g, h, o) by { lemma_turned(g, h, o, z); }
    }
//@ closure 0 params=`left: Symbol, right: Symbol`
    -> (r: cmp::Ordering) requires left.id() < t, right.id() < t ensures r == cmp_path(g, left, right)
//@ endfn
//@ fn sort_rules_by_lhs props=P25
    ensures same_rest(*old(grammar), *final(grammar)), exists|p: Places| #[trigger] placed(old(grammar).list(), final(grammar).list(), p), by_lhs(final(grammar).list())
//@ closure 0 params=`a: &CfgRule, b: &CfgRule`
    -> (r: cmp::Ordering) ensures r == ncmp(a.lhs.id(), b.lhs.id())
//@ exit
    proof { let key = |q: CfgRule| q.lhs.id(); assert(sorted_by(grammar.list(), key)); let L = grammar.list(); assert forall|i: int, j: int| 0 <= i <= j < L.len() implies (#[trigger] L[i]).lhs.id() <= (#[trigger] L[j]).lhs.id() by { assert(key(L[i]) <= key(L[j])); } }
//@ endfn
//@ endimpl
// ---- from the rules as they were to the tables ----
/// The tokens of the input, told by old symbols.
pub open spec fn as_before(tok: Tokens, s: spec_fn(Symbol) -> Symbol) -> Tokens { |i: int, x: Symbol| tok(i, s(x)) }
pub proof fn lemma_rder_moved(g: Rules, h: Rules, t: int, p: Places, s: spec_fn(Symbol) -> Symbol, tok: Tokens, m: nat, x: Symbol, i: int, j: int)
    requires moved(g, h, t, p, s), shape(g), x.id() < t
    ensures rder(h, as_before(tok, s), m, x, i, j) == rder(g, tok, m, s(x), i, j)
    decreases m, 1int
{
    let n = g.len() as int; let tk = as_before(tok, s);
    if m > 0 {
        assert forall|k: int| 0 <= k < n implies #[trigger] rule_der(h, tk, m, k, i, j) == rule_der(g, tok, m, (p.was)(k), i, j) by { lemma_rule_moved(g, h, t, p, s, tok, m, k, i, j); }
        if rder(h, tk, m, x, i, j) && !(j == i + 1 && tk(i, x)) {
            let k = choose|k: int| 0 <= k < n && (#[trigger] h[k]).lhs == x && rule_der(h, tk, m, k, i, j); let q = (p.was)(k); assert(same_as(g[q], h[k], s)); assert(g[q].lhs == s(x) && rule_der(g, tok, m, q, i, j));
        }
        if rder(g, tok, m, s(x), i, j) && !(j == i + 1 && tok(i, s(x))) {
            let q = choose|k: int| 0 <= k < n && (#[trigger] g[k]).lhs == s(x) && rule_der(g, tok, m, k, i, j); let k = (p.to)(q); assert((p.was)(k) == q); assert(same_as(g[q], h[k], s)); assert(h[k].lhs.id() < t); assert(h[k].lhs == x); assert(rule_der(h, tk, m, k, i, j));
        }
    }
}
pub proof fn lemma_rule_moved(g: Rules, h: Rules, t: int, p: Places, s: spec_fn(Symbol) -> Symbol, tok: Tokens, m: nat, k: int, i: int, j: int)
    requires moved(g, h, t, p, s), shape(g), 0 <= k < h.len()
    ensures rule_der(h, as_before(tok, s), m, k, i, j) == rule_der(g, tok, m, (p.was)(k), i, j)
    decreases m, 0int
{
    let q = (p.was)(k); let tk = as_before(tok, s); let r = h[k];
    assert(same_as(g[q], r, s)); assert(1 <= g[q].rhs@.len() <= 2);
    if m > 0 {
        let e = (m - 1) as nat; let b = r.rhs@[0]; assert(b.id() < t && s(b) == g[q].rhs@[0]);
        if r.rhs@.len() == 1 { lemma_rder_moved(g, h, t, p, s, tok, e, b, i, j); }
        else {
            let c = r.rhs@[1]; assert(c.id() < t && s(c) == g[q].rhs@[1]);
            assert forall|o: int| #[trigger] mid(o) implies rder(h, tk, e, b, i, o) == rder(g, tok, e, s(b), i, o) && rder(h, tk, e, c, o, j) == rder(g, tok, e, s(c), o, j) by { lemma_rder_moved(g, h, t, p, s, tok, e, b, i, o); lemma_rder_moved(g, h, t, p, s, tok, e, c, o, j); }
        }
    }
}
/// Sorting after renumbering.
pub proof fn lemma_sorted(g: Cfg, h: Cfg, p: Places, z: Prep, n: int)
    requires prepared(g, z), ordered(g, n), same_rest(g, h), placed(g.list(), h.list(), p), by_lhs(h.list())
    ensures prepared(h, moved_prep(g.list(), h.list(), h.s_num_syms() as int, z, p, named_by(seq![]))), ordered(h, n), moved(g.list(), h.list(), h.s_num_syms() as int, p, named_by(seq![]))
{
    let s = named_by(seq![]); let L = g.list(); let M = h.list(); let t = h.s_num_syms() as int;
    assert forall|x: Symbol| #[trigger] s(x) == x by { }
    assert forall|k: int| 0 <= k < M.len() implies same_as(L[(p.was)(k)], #[trigger] M[k], s) && M[k].lhs.id() < t && forall|i: int| 0 <= i < M[k].rhs@.len() ==> (#[trigger] M[k].rhs@[i]).id() < t by { let q = L[(p.was)(k)]; assert(M[k] == q); assert(q.lhs.id() < t); }
    assert(in_range(M, t)); assert(moved(L, M, t, p, s)); assert(rewrapped(g, h, s));
    theorem_moved(g, h, z, p, s);
    assert forall|x: int| 0 <= x < t implies #[trigger] is_gen(M, x) == (x >= n) by { lemma_gen_moved(L, M, t, p, s, sym(x)); assert(is_gen(L, x) == (x >= n)); }
}
/// The symbols of the nulling rules are among those that are kept.
pub open spec fn kept_symbols(nul: Rules, g: Cfg) -> bool { forall|k: int, x: Symbol| 0 <= k < nul.len() && intermediate(#[trigger] nul[k]) && (x == nul[k].lhs || x == nul[k].rhs@[0] || x == nul[k].rhs@[1]) ==> x.id() < g.s_num_syms() && #[trigger] used(g, x) }
/// What the tables accept is what the rules derived before their renumbering and sorting.
pub open spec fn agrees(t: Table, g: Cfg, z: Prep, o: Seq<Symbol>) -> bool {
    forall|tok: Tokens, k: int| #[trigger] accepts(t, as_before(tok, named_by(o)), k) == exists|m: nat| #[trigger] rder(g.list(), tok, m, g.list()[z.top].rhs@[0], 0, k)
}
/// What cfg makes of a grammar before it is compiled: proper, wrapped, binarized, nulling rules apart.
pub open spec fn cooked(g: Cfg) -> Cfg { g.s_proper().s_wrap().s_bin() }
pub open spec fn nulls(g: Cfg) -> Rules { g.s_proper().s_wrap().s_nul().list() }
pub open spec fn fit(g: Cfg, z: Prep) -> bool { prepared(cooked(g), z) && layered(cooked(g).list()) && kept_symbols(nulls(g), cooked(g)) }
/// How a grammar object came about: the rules after renumbering, after sorting; the numbering.
pub ghost struct Past { pub g1: Cfg, pub g2: Cfg, pub n: int, pub maps: Mapping }
pub open spec fn sorted_from(g: Cfg, h: Cfg) -> bool { same_rest(g, h) && (exists|p: Places| #[trigger] placed(g.list(), h.list(), p)) && by_lhs(h.list()) }
pub open spec fn came(d: DefaultGrammar, g: Cfg, nul: Rules, h: Past) -> bool {
    turned(g, h.g1, h.maps.to_external@) && ordered(h.g1, h.n) && sorted_from(h.g1, h.g2) && compiled(d, h.g2, h.n, h.maps, nul)
}
/// The rules after the sorting, as far as they are known from what they were before the renumbering.
pub proof fn lemma_past(g0: Cfg, g1: Cfg, g2: Cfg, o: Seq<Symbol>, z: Prep, n: int, p: Places)
    requires prepared(g0, z), turned(g0, g1, o), ordered(g1, n), same_rest(g1, g2), placed(g1.list(), g2.list(), p), by_lhs(g2.list())
    ensures ({
        let z1 = moved_prep(g0.list(), g1.list(), g1.s_num_syms() as int, z, still(), named_by(o)); let z2 = moved_prep(g1.list(), g2.list(), g1.s_num_syms() as int, z1, p, named_by(seq![]));
        &&& prepared(g1, z1) && prepared(g2, z2) && processed(g2, n) && formed(g2, n, Shape { top: z2.top, rank: z2.rank }) && g2.list()[z2.top] == g1.list()[z1.top]
        &&& moved(g1.list(), g2.list(), g1.s_num_syms() as int, p, named_by(seq![])) })
{
    let z1 = moved_prep(g0.list(), g1.list(), g1.s_num_syms() as int, z, still(), named_by(o)); let z2 = moved_prep(g1.list(), g2.list(), g1.s_num_syms() as int, z1, p, named_by(seq![]));
    assert(prepared(g1, z1)); lemma_sorted(g1, g2, p, z1, n); theorem_formed(g2, n, z2);
}
pub proof fn lemma_fit(g: Cfg)
    requires exists|z: Prep| fit(g, z)
    ensures exists|z: Prep| prepared(cooked(g), z) && layered(cooked(g).list())
{ let z = choose|z: Prep| fit(g, z); assert(prepared(cooked(g), z)); }
/// After renumbering and sorting.
pub proof fn lemma_ready(g: Cfg, g1: Cfg, g2: Cfg, maps: Mapping, n: int)
    requires exists|z: Prep| fit(g, z), turned(cooked(g), g1, maps.to_external@), same_rest(g1, g2), exists|p: Places| #[trigger] placed(g1.list(), g2.list(), p), by_lhs(g2.list()), n == (choose|n: int| ordered(g1, n)),
        maps.to_internal@.len() == cooked(g).s_num_syms(), forall|x: Symbol| used(cooked(g), x) && x.id() < cooked(g).s_num_syms() ==> (#[trigger] maps.to_internal@[x.id()]) is Some && is_at(maps.to_external@, maps.to_internal@[x.id()]->0, x)
    ensures ordered(g1, n), processed(g2, n), listed(g2), numbered(g2, n), shape(g2.list()), chained(g2.list(), n), mapped(nulls(g), maps), 0 <= n <= g2.s_num_syms(),
        forall|s: Seq<bool>, b: Seq<bool>| s.len() == g2.s_num_syms() && b.len() == g2.s_num_syms() && (forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] == is_gen(g2.list(), b.len() - 1 - k)) ==> #[trigger] kept(s, b).len() == g2.s_num_syms() - n
{
    hide(prepared); hide(layered); hide(turned); hide(formed); hide(moved_prep); hide(moved);
    let g0 = cooked(g); let z = choose|z: Prep| fit(g, z); let o = maps.to_external@; let t = g2.s_num_syms() as int;
    assert(ordered(g1, n)) by { reveal(turned); }
    let p = choose|p: Places| #[trigger] placed(g1.list(), g2.list(), p); lemma_past(g0, g1, g2, o, z, n, p); assert(processed(g2, n));
    let nul = nulls(g);
    assert forall|k: int| 0 <= k < nul.len() implies mapped_rule(#[trigger] nul[k], maps) by { if intermediate(nul[k]) { let q = nul[k]; assert(used(g0, q.lhs) && used(g0, q.rhs@[0]) && used(g0, q.rhs@[1])); assert(maps.to_internal@[q.lhs.id()] is Some && maps.to_internal@[q.rhs@[0].id()] is Some && maps.to_internal@[q.rhs@[1].id()] is Some); } }
    assert forall|s: Seq<bool>, b: Seq<bool>| s.len() == t && b.len() == t && (forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] == is_gen(g2.list(), b.len() - 1 - k)) implies #[trigger] kept(s, b).len() == t - n by {
        assert forall|k: int| 0 <= k < t implies #[trigger] b[k] == (k < t - n) by { assert(is_gen(g2.list(), t - 1 - k) == (t - 1 - k >= n)); }
        lemma_kept(s, b, t - n);
    }
}
impl Cfg {
    /// What the absent crate makes of a grammar, a function of the grammar.
    pub uninterp spec fn s_proper(&self) -> Cfg;
    pub uninterp spec fn s_wrap(&self) -> Cfg;
    pub uninterp spec fn s_bin(&self) -> Cfg;
    pub uninterp spec fn s_nul(&self) -> Cfg;
    #[verifier::external_body] pub fn make_proper(&mut self) ensures *final(self) == old(self).s_proper() { unimplemented!() }
    #[verifier::external_body] pub fn wrap_input(&mut self) ensures *final(self) == old(self).s_wrap() { unimplemented!() }
    #[verifier::external_body] pub fn binarize_and_eliminate_nulling_rules(&mut self) -> (r: Cfg) ensures *final(self) == old(self).s_bin(), r == old(self).s_nul() { unimplemented!() }
}
//@ impl D `impl DefaultGrammar`
//@ fn from_grammar props=P25
    requires exists|z: Prep| fit(grammar, z)
    ensures exists|h: Past| #[trigger] came(r, cooked(grammar), nulls(grammar), h)
//@ rewrite `& rules_by_rhs0 [ .. ]` => `rules_by_rhs0.as_slice()`
//@ entry
    hide(fit); hide(prepared); hide(layered); hide(is_gen); hide(turned); hide(ordered); hide(formed); hide(described); hide(placed); hide(moved_prep); hide(moved); hide(used); hide(mapped_rule); hide(chained); hide(by_lhs); hide(rooted); hide(dotted);
    let ghost start = grammar;
//@ closure 0 params=`is_gensym: &bool`
    -> (r: bool) ensures r == *is_gensym
//@ before `let maps =`
    let ghost g0 = grammar; proof { assert(g0 == cooked(start)); assert(nulling.list() == nulls(start)); lemma_fit(start); }
//@ before `let mut has_predicts =`
    let ghost g2 = grammar; let ghost maps0 = maps; let ghost n = choose|n: int| ordered(g1, n); let ghost t = g2.s_num_syms() as int;
    proof { lemma_ready(start, g1, g2, maps, n); }
//@ after `let maps = Self :: remap_symbols ( & mut grammar ) ;`
    let ghost g1 = grammar;
//@ exit
    proof { assert forall|d: DefaultGrammar| #[trigger] compiled(d, g2, n, maps0, nulls(start)) implies came(d, g0, nulls(start), Past { g1, g2, n, maps: maps0 }) by { } }
//@ endfn
//@ endimpl
/// From a grammar to the object the recognizer takes.
pub fn whole_(grammar: Cfg, Ghost(z): Ghost<Prep>) -> (r: (Table, Ghost<Seq<Symbol>>))
    requires fit(grammar, z)
    ensures promises(r.0), lone(r.0), agrees(r.0, cooked(grammar), z, r.1@)
{
    let ghost g0 = cooked(grammar); let ghost nul = nulls(grammar); let ghost L0 = g0.list();
    let d = DefaultGrammar::from_grammar(grammar);
    let ghost h = choose|h: Past| #[trigger] came(d, g0, nul, h); let ghost g1 = h.g1; let ghost g2 = h.g2; let ghost n = h.n; let ghost o = h.maps.to_external@; let ghost L1 = g1.list();
    let ghost t = g1.s_num_syms() as int; let ghost p = choose|p: Places| #[trigger] placed(L1, g2.list(), p);
    let ghost z1 = moved_prep(L0, L1, t, z, still(), named_by(o)); let ghost z2 = moved_prep(L1, g2.list(), t, z1, p, named_by(seq![])); let ghost sh = Shape { top: z2.top, rank: z2.rank };
    proof { lemma_past(g0, g1, g2, o, z, n, p); lemma_made(d, g2, n, h.maps, nul); }
    let r = Table::new(d);
    proof {
        theorem_compiled(r, g2, n, sh);
        let s1 = named_by(o); let s2 = named_by(seq![]);
        assert forall|tok: Tokens, k: int| #[trigger] accepts(r, as_before(tok, s1), k) == exists|m: nat| #[trigger] rder(L0, tok, m, L0[z.top].rhs@[0], 0, k) by {
            let tk = as_before(tok, s1); let b = g2.list()[z2.top].rhs@[0]; theorem_derives(r, g2, n, sh, tk, k);
            assert(as_before(tk, s2) =~= tk);
            assert(1 <= L0[z.top].rhs@.len()); assert(1 <= L1[z1.top].rhs@.len()); assert(same_as(L0[z.top], L1[z1.top], s1)); assert(s1(b) == L0[z.top].rhs@[0]); assert(b.id() < t);
            assert forall|m: nat| #![trigger rder(L0, tok, m, L0[z.top].rhs@[0], 0, k)] #![trigger rder(g2.list(), tk, m, b, 0, k)] rder(L0, tok, m, L0[z.top].rhs@[0], 0, k) == rder(g2.list(), tk, m, b, 0, k) by {
                lemma_rder_moved(L0, L1, t, still(), s1, tok, m, b, 0, k); lemma_rder_moved(L1, g2.list(), t, p, s2, tk, m, b, 0, k);
            }
        }
    }
    (r, Ghost(o))
}
/// A rule list that has the shape, not yet renumbered (so the theorems are not about nothing).
pub proof fn lemma_prepared_example(g: Cfg)
    requires g.s_num_syms() == 6, g.s_roots().len() == 1, g.s_wrapped().len() == 1, g.s_wrapped()[0] == (WrappedRoot { start_of_input: sym(0), inner_root: sym(2), end_of_input: sym(1), root: sym(4) }),
        g.list().len() == 3, g.list()[0].lhs == sym(4), g.list()[0].rhs@ == seq![sym(3), sym(1)], g.list()[1].lhs == sym(3), g.list()[1].rhs@ == seq![sym(0), sym(2)], g.list()[2].lhs == sym(2), g.list()[2].rhs@ == seq![sym(5)],
        dotted(g.list()), forall|k: int| 0 <= k < 3 ==> !(#[trigger] g.list()[k]).history.s_origin().s_is_null()
    ensures prepared(g, Prep { top: 0, vis: |s: Symbol| s, far: |s: Symbol| 0, rank: |s: Symbol| ranked(s) }), layered(g.list())
{
    let L = g.list(); let z = Prep { top: 0, vis: |s: Symbol| s, far: |s: Symbol| 0, rank: |s: Symbol| ranked(s) }; let w = g.s_wrapped()[0];
    assert forall|x: Symbol| !#[trigger] gen(L, x) by { }
    assert(ends_input(g, 0)); assert(!ends_input(g, 1)); assert(!ends_input(g, 2)); assert(shape(L)); assert(in_range(L, 6));
    assert(forall|k: int, i: int| 0 <= k < L.len() && 0 <= i < L[k].rhs@.len() ==> #[trigger] L[k].rhs@[i] != w.root);
    assert forall|k: int| 0 <= k < L.len() && (#[trigger] L[k]).rhs@.len() == 1 implies (z.rank)(L[k].lhs) < (z.rank)(L[k].rhs@[0]) by { assert(k == 2); }
}
