//@ file EV gearley-recognizer/src/event.rs
// cfg_symbol::SymbolSource::generate_fresh: all symbols from zero on (assumed contract).
pub struct SymbolSource { x: u32 }
impl SymbolSource {
    #[verifier::external_body]
    pub fn generate_fresh() -> (r: SeqIter<Symbol>) ensures r@.len() == 0x1_0000_0000, forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).id() == k { unimplemented!() }
}
impl BitMatrix {
    #[verifier::external_body]
    pub fn iter_row(&self, i: usize) -> (r: SeqIter<bool>)
        requires i < self.rows().len()
        ensures r@.len() == self.bits(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == self.rows()[i as int].has(k)
    { unimplemented!() }
}
/// The symbols of a row, in order: one entry per column, present or not.
pub open spec fn columns(row: BitSlice, bits: nat) -> Seq<Option<Symbol>> { Seq::new(bits, |k: int| if row.has(k) { Some(Symbol { n: k as u32 }) } else { None }) }
pub open spec fn syms_of(row: BitSlice, bits: nat) -> Seq<Symbol> { opts(columns(row, bits)) }
pub proof fn lemma_opts(row: BitSlice, bits: nat, n: nat)
    requires n <= bits <= 0x1_0000_0000
    ensures
        // every member is a symbol whose bit is set, and they come in ascending order
        forall|k: int| 0 <= k < opts(columns(row, bits).take(n as int)).len() ==> row.has((#[trigger] opts(columns(row, bits).take(n as int))[k]).id()) && opts(columns(row, bits).take(n as int))[k].id() < n,
        forall|i: int, j: int| 0 <= i < j < opts(columns(row, bits).take(n as int)).len() ==> (#[trigger] opts(columns(row, bits).take(n as int))[i]).id() < (#[trigger] opts(columns(row, bits).take(n as int))[j]).id(),
        forall|b: int| 0 <= b < n && #[trigger] row.has(b) ==> opts(columns(row, bits).take(n as int)).contains(Symbol { n: b as u32 }),
    decreases n
{
    let s = columns(row, bits);
    if n > 0 {
        lemma_opts(row, bits, (n - 1) as nat);
        assert(s.take(n as int).drop_last() =~= s.take(n - 1));
        let a = opts(s.take(n - 1)); let b = opts(s.take(n as int));
        assert(s.take(n as int).last() == s[n - 1]);
        if row.has(n - 1) { assert(b == a.push(Symbol { n: (n - 1) as u32 })); assert(b[b.len() - 1] == Symbol { n: (n - 1) as u32 }); } else { assert(b == a); }
        assert forall|x: int| 0 <= x < n && #[trigger] row.has(x) implies b.contains(Symbol { n: x as u32 }) by {
            if x < n - 1 { let i = choose|i: int| 0 <= i < a.len() && a[i] == Symbol { n: x as u32 }; assert(b[i] == a[i]); }
            else { assert(b[b.len() - 1] == Symbol { n: x as u32 }); }
        }
    } else { assert(s.take(0) =~= Seq::empty()); }
}
/// The members of `syms_of` are exactly the set bits, ascending, without repetition.
pub proof fn theorem_syms_of(row: BitSlice, bits: nat)
    requires bits <= 0x1_0000_0000
    ensures forall|k: int| 0 <= k < syms_of(row, bits).len() ==> row.has((#[trigger] syms_of(row, bits)[k]).id()) && syms_of(row, bits)[k].id() < bits,
        forall|i: int, j: int| 0 <= i < j < syms_of(row, bits).len() ==> (#[trigger] syms_of(row, bits)[i]).id() < (#[trigger] syms_of(row, bits)[j]).id(),
        forall|b: int| 0 <= b < bits && #[trigger] row.has(b) ==> syms_of(row, bits).contains(Symbol { n: b as u32 }),
{ lemma_opts(row, bits, bits); assert(columns(row, bits).take(bits as int) =~= columns(row, bits)); }
/// A position can be asked about: there is one, and the grammar's tables cover its symbols and rules.
pub open spec fn at_position<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>) -> bool {
    v_wf(r.medial) && r.medial.indices@.len() >= 2 && r.predicted.rows().len() > r.medial.indices@.len() - 2 && r.predicted.bits() <= 0x1_0000_0000
}
pub open spec fn syms_at<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>) -> Seq<Symbol> { syms_of(r.predicted.rows()[r.medial.indices@.len() - 2], r.predicted.bits()) }
pub open spec fn items_at<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>) -> Seq<Item<F::NodeRef>> { v_sets(r.medial)[r.medial.indices@.len() - 2] }
pub open spec fn covers<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, a: int, b: int) -> bool {
    r.predicted.bits() <= a && forall|k: int| 0 <= k < items_at(r).len() ==> (#[trigger] items_at(r)[k]).dot < b
}
//@ impl RECOG `impl<F, G, P> Recognizer<G, F, P>`
//@ fn predicted_symbols props=P24,P16
    requires at_position(*self)
    ensures fmo(r) =~= columns(self.predicted.rows()[self.medial.indices@.len() - 2], self.predicted.bits()),
        fmo(r) =~= columns(self.predicted.rows()[self.medial.indices@.len() - 2], self.predicted.bits()) ==> r@ == syms_at(*self)
//@ sig `impl Iterator < Item = Symbol > + use < '_ , F , G , P >` => `SeqIter<Symbol>`
//@ closure 0 destruct=`(bool, Symbol)`
    -> (r: Option<Symbol>) ensures r == (if arg_.0 { Some(arg_.1) } else { None })
//@ endfn
//@ fn medial_items props=P24,P16
    requires at_position(*self)
    ensures r@ == items_at(*self)
//@ sig `impl Iterator < Item = Item < F :: NodeRef > > + use < '_ , F , G , P >` => `SeqIter<Item<F::NodeRef>>`
//@ rewrite `. iter ( )` => `.iter_seq_()`
//@ endfn
//@ endimpl
//@ impl EV `impl<F, G, P> Recognizer<G, F, P>`
//@ fn trace props=P24
    requires at_position(*self), covers(*self, self.grammar.s_trace()[0].len() as int, self.grammar.s_trace()[1].len() as int)
    ensures ({ let (s, m, t) = (syms_at(*self), items_at(*self), self.grammar.s_trace());
        r@.len() == s.len() + m.len()
        && (forall|k: int| 0 <= k < s.len() ==> #[trigger] r@[k] == (t[0][s[k].id()], (self.medial.indices@.len() - 2) as usize))
        && (forall|k: int| s.len() <= k < r@.len() ==> #[trigger] r@[k] == (t[1][m[k - s.len()].dot as int], m[k - s.len()].origin as usize)) })
//@ sig `impl Iterator < Item = ( ExternalDottedRule , usize ) > + use < '_ , F , G , P >` => `SeqIter<(ExternalDottedRule, usize)>`
//@ entry
    proof { theorem_syms_of(self.predicted.rows()[self.medial.indices@.len() - 2], self.predicted.bits()); }
//@ closure 0
    -> (r: (ExternalDottedRule, usize)) requires sym.id() < trace_predict@.len() ensures r == (trace_predict@[sym.id()], (self.medial.indices@.len() - 2) as usize)
//@ closure 1
    -> (r: (ExternalDottedRule, usize)) requires item.dot < trace0@.len() ensures r == (trace0@[item.dot as int], item.origin as usize)
//@ endfn
//@ fn events props=P24,P16
    requires at_position(*self), covers(*self, self.grammar.s_events().0.len() as int, self.grammar.s_events().1.len() as int)
    ensures ({ let (s, m, t) = (syms_at(*self), items_at(*self), self.grammar.s_events());
        r@.len() == s.len() + m.len()
        && (forall|k: int| 0 <= k < s.len() ==> #[trigger] r@[k] == t.0[s[k].id()])
        && (forall|k: int| s.len() <= k < r@.len() ==> #[trigger] r@[k] == t.1[m[k - s.len()].dot as int]) })
//@ sig `impl Iterator < Item = EventAndDistance > + use < '_ , F , G , P >` => `SeqIter<EventAndDistance>`
//@ entry
    proof { theorem_syms_of(self.predicted.rows()[self.medial.indices@.len() - 2], self.predicted.bits()); }
//@ closure 0
    -> (r: EventAndDistance) requires sym.id() < events_predict@.len() ensures r == events_predict@[sym.id()]
//@ closure 1
    -> (r: EventAndDistance) requires item.dot < events_flat@.len() ensures r == events_flat@[item.dot as int]
//@ endfn
//@ fn minimal_distances props=P24
    requires at_position(*self), covers(*self, self.grammar.s_events().0.len() as int, self.grammar.s_events().1.len() as int)
    ensures ({ let (s, m, t) = (syms_at(*self), items_at(*self), self.grammar.s_events());
        r@.len() == s.len() + m.len()
        && (forall|k: int| 0 <= k < s.len() ==> #[trigger] r@[k] == t.0[s[k].id()].1.distance)
        && (forall|k: int| s.len() <= k < r@.len() ==> #[trigger] r@[k] == t.1[m[k - s.len()].dot as int].1.distance) })
//@ sig `impl Iterator < Item = u32 > + use < '_ , F , G , P >` => `SeqIter<u32>`
//@ closure 0 destruct=`EventAndDistance`
    -> (r: u32) ensures r == arg_.1.distance
//@ endfn
//@ fn expected_terminals props=P24
    requires at_position(*self), forall|k: int| 0 <= k < items_at(*self).len() ==> (#[trigger] items_at(*self)[k]).dot < self.grammar.s_rhs1().len() && self.grammar.s_rhs1()[items_at(*self)[k].dot as int] is Some
    ensures r@.len() == items_at(*self).len(), forall|k: int| 0 <= k < r@.len() ==> Some(#[trigger] r@[k]) == self.grammar.s_rhs1()[items_at(*self)[k].dot as int]
//@ sig `impl Iterator < Item = Symbol > + use < '_ , F , G , P >` => `SeqIter<Symbol>`
//@ closure 0
    -> (r: Symbol) requires item.dot < rhs1@.len() && rhs1@[item.dot as int] is Some ensures r == rhs1@[item.dot as int]->0
//@ endfn
//@ endimpl

/// While a position is open: what is reported for it is what its items predict and what they wait for.
pub proof fn theorem_reported<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>)
    requires open_(r), r.grammar.s_num_syms() <= 0x1_0000_0000
    ensures at_position(r), items_at(r) == v_sets(r.medial).last(), r.predicted.bits() == r.grammar.s_num_syms(),
        r.medial.indices@.len() == 2 ==> forall|b: int| #![trigger r.grammar.s_prediction_row(r.grammar.s_start_sym()).has(b)] 0 <= b < r.grammar.s_num_syms() ==>
            (r.grammar.s_prediction_row(r.grammar.s_start_sym()).has(b) <==> syms_at(r).contains(Symbol { n: b as u32 })),
        r.medial.indices@.len() > 2 ==> forall|b: int| #![trigger syms_at(r).contains(Symbol { n: b as u32 })] 0 <= b < r.grammar.s_num_syms() ==>
            (syms_at(r).contains(Symbol { n: b as u32 }) <==> exists|k: int| 0 <= k < items_at(r).len() && (#[trigger] pred(r.grammar, items_at(r)[k])).has(b)),
{
    let row = r.predicted.rows()[r.medial.indices@.len() - 2];
    theorem_syms_of(row, r.predicted.bits());
    assert(items_at(r) == all_sets(r.medial)[r.medial.indices@.len() - 2]);
    assert forall|b: int| 0 <= b < r.grammar.s_num_syms() implies #[trigger] syms_at(r).contains(Symbol { n: b as u32 }) == row.has(b) by {
        if syms_at(r).contains(Symbol { n: b as u32 }) { let k = choose|k: int| 0 <= k < syms_at(r).len() && syms_at(r)[k] == Symbol { n: b as u32 }; assert(row.has(syms_at(r)[k].id())); }
    }
    if r.medial.indices@.len() > 2 { assert(row_for(r.grammar, items_at(r), row)); }
}
