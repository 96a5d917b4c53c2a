pub assume_specification<T, P> [std::option::Option::<T>::filter] (o: std::option::Option<T>, p: P) -> (r: std::option::Option<T>)
    where P: std::ops::FnOnce(&T,) -> bool + std::marker::Destruct, T: std::marker::Destruct,
    requires o is Some ==> call_requires(p, (&o->0,))
    ensures r is Some ==> o is Some && r == o && call_ensures(p, (&o->0,), true), r is None ==> o is None || call_ensures(p, (&o->0,), false);
pub assume_specification<T, K, F> [<[T]>::sort_unstable_by_key] (s: &mut [T], f: F)
    where F: FnMut(&T) -> K, K: Ord
    requires forall|i: int| 0 <= i < old(s)@.len() ==> call_requires(f, (&#[trigger] old(s)@[i],)),
    ensures final(s)@.len() == old(s)@.len(), final(s)@.to_multiset() == old(s)@.to_multiset(),
        exists|ks: Seq<K>| #[trigger] ks.len() == final(s)@.len() && (forall|i: int| 0 <= i < ks.len() ==> call_ensures(f, (&#[trigger] final(s)@[i],), ks[i]))
            && forall|i: int, j: int| #![trigger final(s)@[i], final(s)@[j]] 0 <= i <= j < ks.len() ==> ks[i].cmp_spec(&ks[j]) != cmp::Ordering::Greater,
;
/// The highest origin of the items of the set under construction; the position number where there is none.
pub open spec fn top_origin<N>(v: Vec2d<Item<N>>, m: int) -> bool {
    if v_cur(v).len() == 0 { m == v.indices@.len() - 2 }
    else { (forall|k: int| 0 <= k < v_cur(v).len() ==> (#[trigger] v_cur(v)[k]).origin <= m) && exists|k: int| 0 <= k < v_cur(v).len() && (#[trigger] v_cur(v)[k]).origin == m }
}
/// Positions above `m` are discarded (unless that is the previous position or position zero), all else stays.
pub open spec fn removed<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, m: int) -> bool {
    if a.medial.indices@.len() - 2 > m && m > 0 {
        &&& v_wf(b.medial) && v_sets(b.medial) == v_sets(a.medial).take(m + 1) && v_cur(b.medial) == v_cur(a.medial) && b.medial.indices@.len() == m + 2
        &&& b.predicted.rows() == a.predicted.rows().take(m + 1) && b.predicted.width() == a.predicted.width() && b.predicted.bits() == a.predicted.bits()
    } else { b.medial == a.medial && b.predicted == a.predicted }
}
/// What a newly made recognizer is (up to spare empty prediction rows and capacities).
pub open spec fn initial<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>) -> bool {
    &&& v_empty(r.medial) && r.medial.indices@.len() == 1 && r.complete.0@.len() == 0 && r.lookahead.next_symbol is None
    &&& r.predicted.wf() && r.predicted.width() == r.grammar.s_prediction_row(r.grammar.s_start_sym()).blocks@.len() && r.predicted.bits() == r.grammar.s_num_syms()
    &&& 1 <= r.predicted.rows().len()
    &&& same_bits(r.predicted.rows()[0], r.grammar.s_prediction_row(r.grammar.s_start_sym()))
    &&& forall|i: int| 1 <= i < r.predicted.rows().len() ==> no_bits(#[trigger] r.predicted.rows()[i])
}
/// The initial state is a valid one to begin from.
pub proof fn lemma_initial<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>)
    requires initial(r), rows_ok(r.grammar)
    ensures idle(r)
{ assert(all_sets(r.medial) =~= seq![Seq::empty()]); }
//@ impl RECOG `impl<F, G, P> Recognizer<G, F, P>`
//@ fn earleme props=P11,P14,P17
    requires self.medial.indices@.len() >= 1
    ensures r == (if self.medial.indices@.len() == 1 { usize::MAX as int } else { self.medial.indices@.len() - 2 }), self.medial.indices@.len() <= usize::MAX
//@ endfn
//@ fn is_exhausted props=P17
    requires v_wf(self.medial)
    ensures r == (v_cur(self.medial).len() == 0 && self.complete.0@.len() == 0)
//@ endfn
//@ fn lookahead props=P13,P16
    ensures *r == old(self).lookahead, *final(self) == (Recognizer { lookahead: *final(r), ..*old(self) })
//@ sig `impl Lookahead + '_` => `&mut DefaultLookahead`
//@ endfn
//@ fn grammar props=P13
    ensures *r == self.grammar
//@ endfn
//@ fn into_forest props=P09
    ensures r == self.forest
//@ endfn
//@ fn begin_earleme props=P11,P17
    requires idle(*old(self)), !P::LEO
    ensures open_(*final(self)), v_sets(final(self).medial) == all_sets(old(self).medial), v_cur(final(self).medial).len() == 0,
        final(self).predicted == old(self).predicted, final(self).complete == old(self).complete, final(self).lookahead == old(self).lookahead, final(self).grammar == old(self).grammar, final(self).forest == old(self).forest
//@ entry
    let ghost r0 = *self;
//@ exit
    proof {
        let a = all_sets(r0.medial); let b = all_sets(self.medial);
        assert(b =~= a.push(Seq::empty()));
        assert forall|i: int| 1 <= i < self.medial.indices@.len() - 1 implies row_for(self.grammar, b[i], #[trigger] self.predicted.rows()[i]) by { assert(b[i] == a[i]); }
        assert forall|i: int| 0 <= i < self.medial.indices@.len() - 1 implies waiting(self.grammar, #[trigger] b[i]) && sorted(self.grammar, b[i]) by { assert(b[i] == a[i]); }
        assert forall|i: int, k: int| 0 <= i < b.len() && 0 <= k < b[i].len() implies (#[trigger] b[i][k]).origin < i by { assert(b[i] == a[i]); }
    }
//@ endfn
//@ fn sort_medial_items props=P17,P13
    requires v_wf(old(self).medial), waiting(old(self).grammar, v_cur(old(self).medial))
    ensures v_wf(final(self).medial), v_sets(final(self).medial) == v_sets(old(self).medial), waiting(final(self).grammar, v_cur(final(self).medial)),
        v_cur(final(self).medial).to_multiset() == v_cur(old(self).medial).to_multiset(), v_cur(final(self).medial).len() == v_cur(old(self).medial).len(),
        sorted(final(self).grammar, v_cur(final(self).medial)),
        final(self).grammar == old(self).grammar, final(self).predicted == old(self).predicted, final(self).complete == old(self).complete, final(self).lookahead == old(self).lookahead, final(self).forest == old(self).forest,
//@ entry
    let ghost gr = self.grammar;
    let ghost c0 = v_cur(self.medial);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
//@ closure 0
    -> (r: (Symbol, Dot, Origin)) requires post(gr, item.dot) is Some ensures r == (post(gr, item.dot)->0, item.dot, item.origin)
//@ exit
    proof {
        let c = v_cur(self.medial);
        assert forall|k: int| 0 <= k < c.len() implies post(gr, (#[trigger] c[k]).dot) is Some by { assert(c.contains(c[k])); assert(c0.to_multiset().count(c[k]) > 0); assert(c0.contains(c[k])); }
    }
//@ endfn
//@ fn remove_unreachable_sets props=P14
    requires !P::LEO, v_wf(old(self).medial), old(self).medial.indices@.len() >= 2, small(old(self).medial), old(self).predicted.rows().len() >= old(self).medial.indices@.len() - 1,
    ensures exists|m: int| #[trigger] top_origin(old(self).medial, m) && removed(*old(self), *final(self), m),
        final(self).grammar == old(self).grammar, final(self).complete == old(self).complete, final(self).lookahead == old(self).lookahead, final(self).forest == old(self).forest, final(self).leo == old(self).leo,
//@ rewrite `. iter ( )` => `.iter_seq_()`
//@ entry
    proof { assert(forall|k: int| 0 <= k < v_cur(self.medial).len() ==> (#[trigger] v_cur(self.medial)[k]).origin <= u32::MAX); }
//@ closure 0
    -> (r: usize) ensures r == item.origin as usize
//@ after `let new_earleme = max_origin ;`
    proof { assert(top_origin(old(self).medial, max_origin as int)); }
//@ exit
    proof { assert(removed(*old(self), *self, max_origin as int)); }
//@ endfn
//@ fn prediction_pass props=P11,P16
    requires v_wf(old(self).medial), old(self).medial.indices@.len() >= 2, small(old(self).medial), rows_ok(old(self).grammar),
        waiting(old(self).grammar, v_cur(old(self).medial)), rows_for(*old(self), old(self).medial.indices@.len() - 1),
    ensures rows_for(*final(self), final(self).medial.indices@.len() as int),
        row_for(final(self).grammar, v_cur(final(self).medial), final(self).predicted.rows()[final(self).medial.indices@.len() - 1]),
        forall|i: int| 0 <= i < final(self).medial.indices@.len() - 1 ==> final(self).predicted.rows()[i] == #[trigger] old(self).predicted.rows()[i],
        final(self).medial == old(self).medial, final(self).grammar == old(self).grammar, final(self).complete == old(self).complete, final(self).lookahead == old(self).lookahead, final(self).forest == old(self).forest,
//@ entry
    let ghost r0 = *self; let ghost n = self.medial.indices@.len() as int; let ghost c = v_cur(self.medial); let ghost g = self.grammar;
//@ after `self . predicted . grow ( 1 , false ) ;`
    let ghost p1 = self.predicted;
    proof {
        assert forall|i: int| n - 1 <= i < p1.rows().len() implies no_bits(#[trigger] p1.rows()[i]) by {
            if i < r0.predicted.rows().len() { assert(no_bits(r0.predicted.rows()[i])); assert(p1.rows()[i] == r0.predicted.rows()[i]); }
        }
        assert forall|i: int| 1 <= i < n - 1 implies row_for(g, all_sets(self.medial)[i], #[trigger] p1.rows()[i]) by { assert(p1.rows()[i] == r0.predicted.rows()[i]); }
    }
//@ rewrite `. iter ( )` => `.iter_seq_()`
//@ desugar_seq 0 it_
        self.grammar == g, g == old(self).grammar, rows_ok(g), waiting(g, c), row.blocks@.len() == g.s_prediction_row(g.s_start_sym()).blocks@.len(),
        it_all.len() == c.len(), forall|k: int| 0 <= k < c.len() ==> *(#[trigger] it_all[k]) == c[k],
        row_for(g, c.take(it_n), *row),
//@ before_loop 0
    proof { assert(no_bits(p1.rows()[n - 1])); assert(row_for(g, c.take(0), *row)); }
//@ loop_start 0
    let ghost old_row = *row; let ghost q = it_n - 1;
//@ loop_end 0
    proof {
        assert(c.take(q + 1)[q] == c[q]);
        assert forall|b: int| #[trigger] row.has(b) <==> exists|k: int| 0 <= k < q + 1 && (#[trigger] pred(g, c.take(q + 1)[k])).has(b) by {
            if row.has(b) {
                if old_row.has(b) { let k = choose|k: int| 0 <= k < q && (#[trigger] pred(g, c.take(q)[k])).has(b); assert(c.take(q + 1)[k] == c.take(q)[k]); assert(pred(g, c.take(q + 1)[k]).has(b)); }
                else { assert(pred(g, c.take(q + 1)[q]).has(b)); }
            }
            if exists|k: int| 0 <= k < q + 1 && (#[trigger] pred(g, c.take(q + 1)[k])).has(b) {
                let k = choose|k: int| 0 <= k < q + 1 && (#[trigger] pred(g, c.take(q + 1)[k])).has(b);
                if k < q { assert(c.take(q + 1)[k] == c.take(q)[k]); assert(pred(g, c.take(q)[k]).has(b)); assert(old_row.has(b)); }
            }
        }
    }
//@ before `row . predict`
    proof {
        assert(*ei == c[q]);
        if row.has(postdot.id()) {
            let k = choose|k: int| 0 <= k < q && (#[trigger] pred(g, c.take(q)[k])).has(postdot.id());
            assert forall|i: int| #[trigger] g.s_prediction_row(postdot).has(i) implies row.has(i) by { assert(pred(g, c.take(q)[k]).has(i)); }
        }
    }
//@ exit
    proof {
        let p2 = self.predicted;
        assert(c.take(c.len() as int) =~= c);
        assert(all_sets(self.medial)[n - 1] == c);
        assert(all_sets(self.medial).len() == n);
        assert forall|i: int| 0 <= i < p2.rows().len() && i != n - 1 implies #[trigger] p2.rows()[i] == p1.rows()[i] by {}
        assert(p2.rows()[0] == r0.predicted.rows()[0] || n == 1);
    }
//@ endfn
//@ fn reset props=P16
    requires rows_ok(old(self).grammar), old(self).predicted.wf(), old(self).predicted.bits() == old(self).grammar.s_num_syms(), old(self).predicted.rows().len() >= 1, old(self).predicted.width() == old(self).grammar.s_prediction_row(old(self).grammar.s_start_sym()).blocks@.len(),
    ensures initial(*final(self)), final(self).grammar == old(self).grammar
//@ exit
    proof { assert(v_sets(self.medial).len() == 0); lemma_initial(*self); }
//@ endfn
//@ fn finished_node props=P12,P13
    requires v_wf(self.medial)
    ensures self.grammar.s_has_trivial_derivation() && self.medial.indices@.len() == 1 ==> r is Some,
        !(self.grammar.s_has_trivial_derivation() && self.medial.indices@.len() == 1) ==>
            r is Some == (v_cur(self.medial).len() > 0 && v_cur(self.medial)[0].dot == self.grammar.s_dot_before_eof()),
        !(self.grammar.s_has_trivial_derivation() && self.medial.indices@.len() == 1) ==>
            (r is Some ==> r->0 == v_cur(self.medial)[0].node),
//@ entry
    proof { assert(!0usize == 0xffff_ffff_ffff_ffffusize) by (bit_vector); }
//@ closure 0
    -> (r: bool) ensures r == (item.dot == self.grammar.s_dot_before_eof())
//@ closure 1
    -> (r: F::NodeRef) ensures r == item.node
//@ endfn
//@ fn is_finished props=P12,P13
    requires v_wf(self.medial)
    ensures r == (if self.grammar.s_has_trivial_derivation() && self.medial.indices@.len() == 1 { true } else { v_cur(self.medial).len() > 0 && v_cur(self.medial)[0].dot == self.grammar.s_dot_before_eof() })
//@ endfn
//@ fn with_forest_and_policy props=P11,P16
    requires rows_ok(grammar)
    ensures initial(r), r.grammar == grammar, r.forest == forest, idle(r)
//@ exit
    proof { assert(v_sets(recognizer.medial).len() == 0); lemma_initial(recognizer); }
//@ endfn
//@ endimpl
