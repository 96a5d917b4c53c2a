// ---- finishing a position ----
/// `b` is `a` with its position finished: positions above `m` are gone if that many can go, the rest stays as it is.
pub open spec fn kept<N>(v: Vec2d<Item<N>>, m: int) -> int { if v.indices@.len() - 2 > m && m > 0 { m + 1 } else { v.indices@.len() - 1 } }
pub open spec fn same_keys<N>(a: Seq<Item<N>>, b: Seq<Item<N>>) -> bool { forall|k: (u32, u32)| #![trigger has_key(a, k)] #![trigger has_key(b, k)] has_key(a, k) == has_key(b, k) }
pub open spec fn advanced<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, m: int) -> bool {
    let n = kept(a.medial, m);
    &&& b.grammar == a.grammar && v_sets(b.medial) == v_sets(a.medial).take(n) && b.medial.indices@.len() == n + 1 && n >= 1
    &&& forall|i: int| 0 <= i < n ==> b.predicted.rows()[i] == #[trigger] a.predicted.rows()[i]
}
pub proof fn lemma_same_keys<N>(a: Seq<Item<N>>, b: Seq<Item<N>>)
    requires a.to_multiset() == b.to_multiset()
    ensures same_keys(a, b)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|k: (u32, u32)| has_key(a, k) == has_key(b, k) by {
        if has_key(a, k) { let j = choose|j: int| 0 <= j < a.len() && key(#[trigger] a[j]) == k; assert(a.contains(a[j])); assert(b.to_multiset().count(a[j]) > 0); assert(b.contains(a[j])); let i = choose|i: int| 0 <= i < b.len() && b[i] == a[j]; assert(key(b[i]) == k); }
        if has_key(b, k) { let j = choose|j: int| 0 <= j < b.len() && key(#[trigger] b[j]) == k; assert(b.contains(b[j])); assert(a.to_multiset().count(b[j]) > 0); assert(a.contains(b[j])); let i = choose|i: int| 0 <= i < a.len() && a[i] == b[j]; assert(key(a[i]) == k); }
    }
}
pub open spec fn same_top<N>(s: Seq<Item<N>>, p: int, m: int) -> bool {
    if s.len() == 0 { m == p } else { (forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).origin <= m) && exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).origin == m }
}
pub open spec fn scanned<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, sym: Symbol) -> bool {
    &&& forall|k: (u32, u32)| #[trigger] has_key(b.complete.0@, k) == (has_key(a.complete.0@, k) || adv(a, (a.medial.indices@.len() - 2) as u32, sym, true, k))
    &&& forall|k: (u32, u32)| #[trigger] has_key(v_cur(b.medial), k) == (has_key(v_cur(a.medial), k) || adv(a, (a.medial.indices@.len() - 2) as u32, sym, false, k))
}
pub proof fn lemma_completing<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>)
    requires open_(a), lists_ok(a.grammar), acyclic(a.grammar)
    ensures completing(a)
{
    let s = v_sets(a.medial);
    assert forall|i: int| 0 <= i < s.len() implies waiting(a.grammar, #[trigger] s[i]) && sorted(a.grammar, s[i]) by { assert(all_sets(a.medial)[i] == s[i]); }
    assert forall|i: int, k: int| 0 <= i < s.len() && 0 <= k < s[i].len() implies (#[trigger] s[i][k]).origin < i by { assert(all_sets(a.medial)[i][k].origin < i); }
}
/// Adding waiting matches and finished ones with earlier origins keeps the position open.
pub proof fn lemma_open_after<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>)
    requires open_(a), grows_but_hint(a, b), heap_ok(b.complete.0@),
        forall|k: (u32, u32)| #[trigger] has_key(v_cur(b.medial), k) && !has_key(v_cur(a.medial), k) ==> post(a.grammar, k.1) is Some && k.0 < a.medial.indices@.len() - 1,
        forall|k: (u32, u32)| #[trigger] has_key(b.complete.0@, k) ==> k.0 < a.medial.indices@.len() - 1,
    ensures open_(b)
{
    let g = a.grammar; let n = a.medial.indices@.len() - 1; let cb = v_cur(b.medial); let ca = v_cur(a.medial);
    assert forall|k: int| 0 <= k < cb.len() implies post(g, (#[trigger] cb[k]).dot) is Some && cb[k].origin < n by {
        let x = key(cb[k]); assert(has_key(cb, x));
        if has_key(ca, x) { let j = choose|j: int| 0 <= j < ca.len() && key(#[trigger] ca[j]) == x; assert(all_sets(a.medial)[n][j].origin < n); assert(post(g, ca[j].dot) is Some); }
    }
    assert forall|k: int| 0 <= k < b.complete.0@.len() implies (#[trigger] b.complete.0@[k]).origin < n by { assert(has_key(b.complete.0@, key(b.complete.0@[k]))); }
    assert forall|i: int| #![trigger all_sets(a.medial)[i]] #![trigger all_sets(b.medial)[i]] 0 <= i < n implies all_sets(b.medial)[i] == all_sets(a.medial)[i] by { assert(v_sets(b.medial)[i] == v_sets(a.medial)[i]); }
    assert forall|i: int, k: int| 0 <= i < all_sets(b.medial).len() && 0 <= k < all_sets(b.medial)[i].len() implies (#[trigger] all_sets(b.medial)[i][k]).origin < i by {
        if i < n { assert(all_sets(b.medial)[i] == all_sets(a.medial)[i]); assert(all_sets(a.medial)[i][k].origin < i); } else { assert(all_sets(b.medial)[i][k] == cb[k]); }
    }
    assert forall|i: int| 1 <= i < n implies row_for(g, all_sets(b.medial)[i], #[trigger] b.predicted.rows()[i]) by { assert(all_sets(b.medial)[i] == all_sets(a.medial)[i]); }
}
/// Completing leaves a state from which the position can be finished.
pub proof fn lemma_still_open<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, d: Seq<Group>)
    requires open_(a), completing(a), lists_ok(a.grammar), closure_(a, b, d), grows_but_hint(a, b), b.complete.0@.len() == 0,
    ensures open_(b)
{
    let g = a.grammar; let n = a.medial.indices@.len() - 1;
    assert forall|t: int| 0 <= t < d.len() implies (#[trigger] d[t]).0 < n by { lemma_caused_origin(a, d, t); }
    assert forall|k: (u32, u32)| #[trigger] has_key(v_cur(b.medial), k) && !has_key(v_cur(a.medial), k) implies post(g, k.1) is Some && k.0 < n by {
        let t = choose|t: int| 0 <= t < d.len() && #[trigger] adv(a, d[t].0, d[t].1, false, k);
        lemma_adv_waits(a, d[t].0, d[t].1, k);
    }
    lemma_open_after(a, b);
}
pub proof fn lemma_adv_waits<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, o: u32, sym: Symbol, k: (u32, u32))
    requires lists_ok(r.grammar), adv(r, o, sym, false, k)
    ensures post(r.grammar, k.1) is Some, k.0 == o
{
    let g = r.grammar; let row = r.predicted.rows()[o as int]; let hint = r.lookahead.next_symbol;
    if sym.id() >= g.s_num_syms() { assert(g.s_gen_completion(sym).len() == 2); }
    else {
        let i = choose|i: int| 0 <= i < g.s_completions(sym).len() && (#[trigger] g.s_completions(sym)[i]).is_unary == false && taken(g, P::LOOKAHEAD, hint, row, g.s_completions(sym)[i]) && k == (o, g.s_completions(sym)[i].dot);
        assert(g.s_completions(sym)[i].is_unary == (post(g, g.s_completions(sym)[i].dot) is None));
    }
}
pub proof fn lemma_adv_origin<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, o: u32, sym: Symbol, k: (u32, u32))
    requires completing(r), adv(r, o, sym, true, k), o < v_sets(r.medial).len()
    ensures k.0 <= o
{
    let g = r.grammar; let set = v_sets(r.medial)[o as int]; let hint = r.lookahead.next_symbol;
    if sym.id() < g.s_num_syms() && adv_medial(g, P::LOOKAHEAD, hint, set, sym, k) {
        let i = choose|i: int| 0 <= i < set.len() && post(g, (#[trigger] set[i]).dot) == Some(sym) && (!P::LOOKAHEAD || useful_lhs(g, hint, set[i].dot)) && key(set[i]) == k;
        assert(v_sets(r.medial)[o as int][i].origin < o);
    }
}
pub proof fn lemma_caused_origin<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, d: Seq<Group>, t: int)
    requires completing(a), 0 <= t < d.len(), forall|t: int| 0 <= t < d.len() ==> caused(a, d, t)
    ensures d[t].0 < a.medial.indices@.len() - 1
    decreases t
{
    assert(caused(a, d, t));
    let k = choose|k: (u32, u32)| #[trigger] grp(a.grammar, k) == d[t] && (has_key(a.complete.0@, k) || exists|u: int| 0 <= u < t && #[trigger] adv(a, d[u].0, d[u].1, true, k));
    if !has_key(a.complete.0@, k) {
        let u = choose|u: int| 0 <= u < t && #[trigger] adv(a, d[u].0, d[u].1, true, k);
        lemma_caused_origin(a, d, u);
        assert(v_sets(a.medial).len() == a.medial.indices@.len() - 1);
        lemma_adv_origin(a, d[u].0, d[u].1, k);
    }
}
/// All groups are done in `e`; `b` is what is left.
pub open spec fn closes<G: Grammar, F: Forest, P: PerfHint>(e: Recognizer<G, F, P>, b: Recognizer<G, F, P>) -> bool {
    e.complete.0@.len() == 0 && b.forest == e.forest && v_cur(b.medial).to_multiset() == v_cur(e.medial).to_multiset()
}
/// The forest before and after a leaf is made.
pub open spec fn leafs<F: Forest>(a: F, b: F, sym: Symbol, value: u32, node: F::NodeRef) -> bool {
    b.lawful() ==> a.lawful() && keeps(a, b) && (a.calm() ==> b.calm() && b.node(node) == FNode::<Symbol, F::NodeRef>::Leaf(sym, value))
}
/// Reading one token: a leaf, and what it completes.
pub open spec fn read_one<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, c: Recognizer<G, F, P>, b: Recognizer<G, F, P>, sym: Symbol, value: u32, node: F::NodeRef, s: Seq<Item<F::NodeRef>>, fr: Seq<int>, m: Seq<Item<F::NodeRef>>) -> bool {
    same_but_forest(a, c) && leafs(a.forest, c.forest, sym, value, node) && gave(c, b, (a.medial.indices@.len() - 2) as u32, sym, node, s, fr, m)
}
//@ impl RECOG `impl<F, G, P> Recognizer<G, F, P>`
//@ fn add_leo_items
    requires false
//@ endfn
//@ fn advance_after_completion props=P11,P13,P14,P17
    requires !P::LEO, small(old(self).medial), open_(*old(self)), old(self).complete.0@.len() == 0,
    ensures idle(*final(self)), final(self).lookahead == old(self).lookahead, final(self).forest == old(self).forest, same_keys(v_cur(old(self).medial), v_cur(final(self).medial)), v_cur(final(self).medial).to_multiset() == v_cur(old(self).medial).to_multiset(),
        exists|m: int| #[trigger] advanced(*old(self), *final(self), m) && same_top(v_cur(final(self).medial), old(self).medial.indices@.len() - 2, m),
//@ entry
    let ghost r0 = *self; let ghost n0 = self.medial.indices@.len() as int;
//@ after `self . sort_medial_items ( ) ;`
    let ghost r1 = *self;
    proof { axiom_queue_small(self.medial.chart); lemma_grow_len(r0.medial, r1.medial); lemma_same_keys(v_cur(r0.medial), v_cur(r1.medial)); }
//@ after `self . remove_unreachable_sets ( ) ;`
    let ghost r2 = *self; let ghost m = choose|m: int| #[trigger] top_origin(r1.medial, m) && removed(r1, r2, m);
    proof {
        axiom_queue_small(self.medial.chart);
        let n = kept(r1.medial, m); let g = r0.grammar;
        assert(v_sets(r1.medial).take(n0 - 1) =~= v_sets(r1.medial));
        assert(v_sets(r2.medial) == v_sets(r0.medial).take(n) && v_cur(r2.medial) == v_cur(r1.medial) && r2.medial.indices@.len() == n + 1);
        assert forall|i: int| 0 <= i < n implies all_sets(r2.medial)[i] == #[trigger] all_sets(r0.medial)[i] by {
            assert(v_sets(r2.medial)[i] == v_sets(r0.medial)[i]);
        }
        assert(all_sets(r2.medial)[n] == v_cur(r1.medial));
        // an origin is an earlier position
        assert forall|k: int| 0 <= k < v_cur(r1.medial).len() implies (#[trigger] v_cur(r1.medial)[k]).origin < n by {
            let c1 = v_cur(r1.medial); let c0 = v_cur(r0.medial);
            assert(has_key(c1, key(c1[k]))); assert(has_key(c0, key(c1[k])));
            let j = choose|j: int| 0 <= j < c0.len() && key(#[trigger] c0[j]) == key(c1[k]);
            assert(all_sets(r0.medial)[n0 - 1][j].origin < n0 - 1);
            assert(c1[k].origin <= m || n == n0 - 1);
        }
        assert forall|i: int, k: int| 0 <= i < all_sets(r2.medial).len() && 0 <= k < all_sets(r2.medial)[i].len() implies (#[trigger] all_sets(r2.medial)[i][k]).origin < i by {
            if i < n { assert(all_sets(r2.medial)[i] == all_sets(r0.medial)[i]); assert(all_sets(r0.medial)[i][k].origin < i); }
        }
        assert forall|i: int| 0 <= i < n implies r2.predicted.rows()[i] == #[trigger] r1.predicted.rows()[i] by {}
        assert forall|i: int| 1 <= i < n implies row_for(g, all_sets(r2.medial)[i], #[trigger] r2.predicted.rows()[i]) by { assert(all_sets(r2.medial)[i] == all_sets(r0.medial)[i]); assert(r0.predicted.rows()[i] == r2.predicted.rows()[i]); }
        assert(rows_for(r2, n));
    }
//@ exit
    proof {
        let n = kept(r1.medial, m); let g = r0.grammar;
        assert(kept(r0.medial, m) == n);
        assert forall|i: int| 0 <= i < n implies self.predicted.rows()[i] == #[trigger] r0.predicted.rows()[i] by { assert(r2.predicted.rows()[i] == r0.predicted.rows()[i]); assert(self.predicted.rows()[i] == r2.predicted.rows()[i]); }
        assert forall|i: int| 0 <= i < n + 1 implies waiting(g, #[trigger] all_sets(self.medial)[i]) && sorted(g, all_sets(self.medial)[i]) by {
            if i < n { assert(all_sets(r2.medial)[i] == all_sets(r0.medial)[i]); }
        }
        assert(advanced(r0, *self, m));
    }
//@ endfn
//@ fn end_earleme props=P11,P12,P13,P14,P17
    requires !P::LEO, old(self).medial.indices@.len() < 0x7fff_ffff, open_(*old(self)), lists_ok(old(self).grammar), acyclic(old(self).grammar),
    ensures r == !(v_cur(old(self).medial).len() == 0 && old(self).complete.0@.len() == 0),
        !r ==> *final(self) == *old(self),
        r ==> idle(*final(self)) && final(self).lookahead.next_symbol is None
            && exists|d: Seq<Group>, m: int| #![trigger closure_(*old(self), *final(self), d), advanced(*old(self), *final(self), m)]
                closure_(*old(self), *final(self), d) && advanced(*old(self), *final(self), m) && same_top(v_cur(final(self).medial), old(self).medial.indices@.len() - 2, m),
        r ==> exists|e: Recognizer<G, F, P>, tr: Seq<Recognizer<G, F, P>>, sts: Seq<Move<G, F, P>>| #[trigger] chain(*old(self), e, tr, sts) && closes(e, *final(self)) && grows_but_hint(*old(self), e),
//@ entry
    let ghost r0 = *self;
    proof { lemma_completing(r0); }
//@ after `self . complete_all_sums_entirely ( ) ;`
    let ghost r1 = *self; let ghost d = choose|d: Seq<Group>| #[trigger] closure_(r0, r1, d);
    proof { axiom_queue_small(self.medial.chart); lemma_still_open(r0, r1, d); }
//@ after `self . advance_after_completion ( ) ;`
    proof {
        let m = choose|m: int| #[trigger] advanced(r1, *self, m) && same_top(v_cur(self.medial), r1.medial.indices@.len() - 2, m);
        assert(advanced(r0, *self, m));
        assert(closure_(r0, *self, d));
        let (tr, sts) = choose|tr: Seq<Recognizer<G, F, P>>, sts: Seq<Move<G, F, P>>| #[trigger] chain(r0, r1, tr, sts);
        assert(chain(r0, r1, tr, sts) && closes(r1, *self));
    }
//@ endfn
//@ fn scan props=P12,P13,P17
    requires !P::LEO, old(self).medial.indices@.len() < 0x7fff_ffff, open_(*old(self)), lists_ok(old(self).grammar), acyclic(old(self).grammar),
    ensures open_(*final(self)), grows(*old(self), *final(self)), scanned(*old(self), *final(self), symbol),
        exists|c: Recognizer<G, F, P>, node: F::NodeRef, s: Seq<Item<F::NodeRef>>, fr: Seq<int>, m: Seq<Item<F::NodeRef>>| #[trigger] read_one(*old(self), c, *final(self), symbol, value, node, s, fr, m),
        symbol.id() < old(self).grammar.s_num_syms() && !old(self).predicted.rows()[old(self).medial.indices@.len() - 2].has(symbol.id()) ==> final(self).medial == old(self).medial && final(self).complete == old(self).complete,
//@ entry
    let ghost r0 = *self;
    proof { lemma_completing(r0); assert(!0usize == 0xffff_ffff_ffff_ffffusize) by (bit_vector); }
//@ before `self . complete ( earleme , symbol , node ) ;`
    let ghost c = *self;
//@ exit
    proof {
        let n = r0.medial.indices@.len() - 1;
        assert forall|k: (u32, u32)| #[trigger] has_key(self.complete.0@, k) implies k.0 < n by {
            if !has_key(r0.complete.0@, k) { assert(v_sets(r0.medial).len() == n); lemma_adv_origin(r0, (n - 1) as u32, symbol, k); }
        }
        assert forall|k: (u32, u32)| #[trigger] has_key(v_cur(self.medial), k) && !has_key(v_cur(r0.medial), k) implies post(r0.grammar, k.1) is Some && k.0 < n by { lemma_adv_waits(r0, (n - 1) as u32, symbol, k); }
        lemma_open_after(r0, *self);
        let (s, fr, m) = choose|s: Seq<Item<F::NodeRef>>, fr: Seq<int>, m: Seq<Item<F::NodeRef>>| #[trigger] gave(c, *self, (n - 1) as u32, symbol, node, s, fr, m);
        assert(read_one(r0, c, *self, symbol, value, node, s, fr, m));
    }
//@ endfn
//@ endimpl
