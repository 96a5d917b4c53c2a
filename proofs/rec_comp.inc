pub open spec fn ord_n(o: cmp::Ordering) -> int { match o { cmp::Ordering::Less => 0, cmp::Ordering::Equal => 1, cmp::Ordering::Greater => 2 } }
pub open spec fn ascending(os: Seq<cmp::Ordering>) -> bool { forall|i: int, j: int| 0 <= i <= j < os.len() ==> ord_n(#[trigger] os[i]) <= ord_n(#[trigger] os[j]) }
/// Assumed: binary search over a slice that the comparator partitions.
pub assume_specification<'a, T, F> [<[T]>::binary_search_by] (s: &'a [T], f: F) -> (r: Result<usize, usize>)
    where F: FnMut(&'a T) -> cmp::Ordering
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures exists|os: Seq<cmp::Ordering>| #[trigger] os.len() == s@.len() && (forall|i: int| 0 <= i < os.len() ==> call_ensures(f, (&#[trigger] s@[i],), os[i]))
        && (ascending(os) ==> match r {
            Ok(i) => i < os.len() && os[i as int] == cmp::Ordering::Equal,
            Err(i) => i <= os.len() && (forall|j: int| 0 <= j < i ==> #[trigger] os[j] == cmp::Ordering::Less) && (forall|j: int| i <= j < os.len() ==> #[trigger] os[j] == cmp::Ordering::Greater),
        });
/// Assumed: `Option::map_or` calls the closure on the value, if any.
pub assume_specification<T, U, F> [std::option::Option::<T>::map_or] (o: std::option::Option<T>, default: U, f: F) -> (r: U)
    where F: std::ops::FnOnce(T) -> U + std::marker::Destruct, U: std::marker::Destruct,
    requires o is Some ==> call_requires(f, (o->0,))
    ensures o is None ==> r == default, o is Some ==> call_ensures(f, (o->0,), r);
/// Assumed: `Ordering` is ordered Less, Equal, Greater (std derives it).
#[verifier::external_body]
pub proof fn axiom_ordering() ensures <cmp::Ordering as OrdSpec>::obeys_cmp_spec(), forall|a: cmp::Ordering, b: cmp::Ordering| #[trigger] a.cmp_spec(&b) == ncmp(ord_n(a), ord_n(b)) {}
/// Items `a..` of a sorted set, as far as they wait for `sym`.
pub open spec fn is_run<G: Grammar, N>(g: G, set: Seq<Item<N>>, sym: Symbol, a: int, n: int) -> bool {
    &&& 0 <= a && 0 <= n && a + n <= set.len()
    &&& forall|i: int| 0 <= i < set.len() ==> (post(g, (#[trigger] set[i]).dot) == Some(sym) <==> a <= i < a + n)
}
pub proof fn lemma_adv_step<G: Grammar, N>(g: G, look: bool, hint: Option<Symbol>, set: Seq<Item<N>>, sym: Symbol, q: int)
    requires 0 <= q < set.len(), post(g, set[q].dot) == Some(sym)
    ensures forall|k: (u32, u32)| #[trigger] adv_medial(g, look, hint, set.take(q + 1), sym, k) == (adv_medial(g, look, hint, set.take(q), sym, k) || ((!look || useful_lhs(g, hint, set[q].dot)) && key(set[q]) == k))
{
    let a = set.take(q); let b = set.take(q + 1);
    assert forall|k: (u32, u32)| #[trigger] adv_medial(g, look, hint, b, sym, k) == (adv_medial(g, look, hint, a, sym, k) || ((!look || useful_lhs(g, hint, set[q].dot)) && key(set[q]) == k)) by {
        if adv_medial(g, look, hint, b, sym, k) {
            let i = choose|i: int| 0 <= i < b.len() && post(g, (#[trigger] b[i]).dot) == Some(sym) && (!look || useful_lhs(g, hint, b[i].dot)) && key(b[i]) == k;
            if i < q { assert(a[i] == b[i]); }
        }
        if adv_medial(g, look, hint, a, sym, k) {
            let i = choose|i: int| 0 <= i < a.len() && post(g, (#[trigger] a[i]).dot) == Some(sym) && (!look || useful_lhs(g, hint, a[i].dot)) && key(a[i]) == k;
            assert(b[i] == a[i]);
        }
        assert(b[q] == set[q]);
    }
}
pub proof fn lemma_adv_run<G: Grammar, N>(g: G, look: bool, hint: Option<Symbol>, set: Seq<Item<N>>, sym: Symbol, a: int, n: int, k: (u32, u32))
    requires is_run(g, set, sym, a, n)
    ensures adv_medial(g, look, hint, set.take(a + n), sym, k) == adv_medial(g, look, hint, set, sym, k)
{
    let b = set.take(a + n);
    if adv_medial(g, look, hint, b, sym, k) {
        let i = choose|i: int| 0 <= i < b.len() && post(g, (#[trigger] b[i]).dot) == Some(sym) && (!look || useful_lhs(g, hint, b[i].dot)) && key(b[i]) == k;
        assert(b[i] == set[i]);
    }
    if adv_medial(g, look, hint, set, sym, k) {
        let i = choose|i: int| 0 <= i < set.len() && post(g, (#[trigger] set[i]).dot) == Some(sym) && (!look || useful_lhs(g, hint, set[i].dot)) && key(set[i]) == k;
        assert(b[i] == set[i]);
    }
}
/// One more partial match is completed.
pub proof fn lemma_medial_step<G: Grammar, F: Forest>(g: G, calm: bool, f: F, f2: F, set: Seq<Item<F::NodeRef>>, sym: Symbol, link: F::NodeRef, s: Seq<Item<F::NodeRef>>, fr: Seq<int>, y: Item<F::NodeRef>, q: int)
    requires fr.len() == s.len(), forall|j: int| 0 <= j < s.len() ==> joined(g, calm, f, set, sym, link, #[trigger] s[j], fr[j]), more(f, f2), 0 <= q < set.len(), key(set[q]) == key(y), post(g, y.dot) == Some(sym),
        calm && f2.lawful() ==> f2.node(y.node) == FNode::<Symbol, F::NodeRef>::Pair(set[q].node, link)
    ensures forall|j: int| 0 <= j < s.push(y).len() ==> joined(g, calm, f2, set, sym, link, #[trigger] s.push(y)[j], fr.push(q)[j])
{
    let t = s.push(y);
    assert forall|j: int| 0 <= j < t.len() implies joined(g, calm, f2, set, sym, link, #[trigger] t[j], fr.push(q)[j]) by {
        if j < s.len() { assert(t[j] == s[j]); assert(joined(g, calm, f, set, sym, link, s[j], fr[j])); }
    }
}
/// The parts of a completion together.
pub proof fn lemma_gave<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, r1: Recognizer<G, F, P>, b: Recognizer<G, F, P>, o: u32, sym: Symbol, link: F::NodeRef)
    requires ready(a, o),
        ({  let g = a.grammar; let row = a.predicted.rows()[o as int]; let hint = a.lookahead.next_symbol;
            if sym.id() >= g.s_num_syms() {
                b.forest == a.forest && b.complete.0@.to_multiset() == a.complete.0@.to_multiset().add(gen_made(g, row, o, sym, true, link).to_multiset()) && v_cur(b.medial) == v_cur(a.medial) + gen_made(g, row, o, sym, false, link)
            } else if row.has(sym.id()) {
                &&& exists|s: Seq<Item<F::NodeRef>>, fr: Seq<int>| #[trigger] gave_medial(a, r1, o, sym, link, s, fr)
                &&& b.forest == r1.forest && b.complete.0@.to_multiset() == r1.complete.0@.to_multiset().add(made(g, P::LOOKAHEAD, hint, row, o, g.s_completions(sym), link, true, g.s_completions(sym).len() as int).to_multiset())
                &&& v_cur(b.medial) == v_cur(a.medial) + made(g, P::LOOKAHEAD, hint, row, o, g.s_completions(sym), link, false, g.s_completions(sym).len() as int)
            } else { b.forest == a.forest && b.complete == a.complete && b.medial == a.medial }
        })
    ensures exists|s: Seq<Item<F::NodeRef>>, fr: Seq<int>, m: Seq<Item<F::NodeRef>>| #[trigger] gave(a, b, o, sym, link, s, fr, m)
{
    let g = a.grammar; let row = a.predicted.rows()[o as int]; let hint = a.lookahead.next_symbol; let set = v_sets(a.medial)[o as int]; let calm = a.forest.calm();
    if sym.id() >= g.s_num_syms() {
        let s = gen_made(g, row, o, sym, true, link); let m = gen_made(g, row, o, sym, false, link);
        lemma_gen_made(g, row, o, sym, true, link); lemma_gen_made(g, row, o, sym, false, link);
        assert(g.s_gen_completion(sym).len() == 2);
        let fr = Seq::new(s.len(), |j: int| -1int);
        assert(gave(a, b, o, sym, link, s, fr, m));
    } else if row.has(sym.id()) {
        let n = g.s_completions(sym).len() as int;
        let (s1, f1) = choose|s: Seq<Item<F::NodeRef>>, fr: Seq<int>| #[trigger] gave_medial(a, r1, o, sym, link, s, fr);
        let s2 = made(g, P::LOOKAHEAD, hint, row, o, g.s_completions(sym), link, true, n); let m = made(g, P::LOOKAHEAD, hint, row, o, g.s_completions(sym), link, false, n);
        let s = s1 + s2; let fr = f1 + Seq::new(s2.len(), |j: int| -1int);
        lemma_add_more(a.complete.0@, r1.complete.0@, b.complete.0@, s1, s2);
        lemma_append_key(s1, s2);
        lemma_made_nodes(g, P::LOOKAHEAD, hint, row, o, g.s_completions(sym), link, true, n); lemma_made_nodes(g, P::LOOKAHEAD, hint, row, o, g.s_completions(sym), link, false, n);
        assert forall|k: (u32, u32)| #[trigger] has_key(s2, k) == adv_pred(g, P::LOOKAHEAD, hint, row, o, sym, true, k) by { lemma_made(g, P::LOOKAHEAD, hint, row, o, g.s_completions(sym), link, true, n, k); }
        assert forall|k: (u32, u32)| #[trigger] has_key(m, k) == adv_pred(g, P::LOOKAHEAD, hint, row, o, sym, false, k) by { lemma_made(g, P::LOOKAHEAD, hint, row, o, g.s_completions(sym), link, false, n, k); }
        assert forall|j: int| 0 <= j < s2.len() implies post(g, (#[trigger] s2[j]).dot) is None by {
            let k = key(s2[j]); assert(has_key(s2, k));
            let i = choose|i: int| 0 <= i < n && (#[trigger] g.s_completions(sym)[i]).is_unary == true && taken(g, P::LOOKAHEAD, hint, row, g.s_completions(sym)[i]) && k == (o, g.s_completions(sym)[i].dot);
            assert(g.s_completions(sym)[i].is_unary);
        }
        assert forall|j: int| 0 <= j < s.len() implies stems(g, calm, b.forest, set, o, sym, link, #[trigger] s[j], fr[j]) by {
            if j < s1.len() { assert(s[j] == s1[j]); assert(joined(g, calm, b.forest, set, sym, link, s1[j], f1[j])); } else { assert(s[j] == s2[j - s1.len()]); }
        }
        if lone(g) {
            lemma_made_uniq(g, P::LOOKAHEAD, hint, row, o, sym, link, true, n); lemma_made_uniq(g, P::LOOKAHEAD, hint, row, o, sym, link, false, n);
            assert forall|x: int, y: int| 0 <= x < y < s.len() implies !(key(#[trigger] s[x]) == key(#[trigger] s[y]) && fr[x] == fr[y]) by {
                if x < s1.len() { assert(s[x] == s1[x]); assert(joined(g, calm, b.forest, set, sym, link, s1[x], f1[x])); } else { assert(s[x] == s2[x - s1.len()]); }
                if y < s1.len() { assert(s[y] == s1[y]); assert(f1[x] < f1[y]); } else { assert(s[y] == s2[y - s1.len()]); }
            }
        }
        assert forall|i: int| #[trigger] goes(a, o, sym, i) implies fr.contains(i) by {
            assert(post(g, set[i].dot) == Some(sym)); assert(f1.contains(i)); let j = choose|j: int| 0 <= j < f1.len() && f1[j] == i; assert(fr[j] == i);
        }
        assert(gave(a, b, o, sym, link, s, fr, m));
    } else {
        lemma_add_nothing(a.complete.0@);
        let e = Seq::<Item<F::NodeRef>>::empty();
        assert(v_cur(a.medial) + e =~= v_cur(a.medial));
        assert(gave(a, b, o, sym, link, e, Seq::<int>::empty(), e));
    }
}
//@ impl RECOG `impl<G, F, P> Recognizer<G, F, P>`
//@ fn complete_medial_items props=P12,P13
    requires ready(*old(self), set_id)
    ensures grows(*old(self), *final(self)), final(self).medial == old(self).medial, heap_ok(final(self).complete.0@),
        forall|k: (u32, u32)| #[trigger] has_key(final(self).complete.0@, k) == (has_key(old(self).complete.0@, k) || adv_medial(old(self).grammar, P::LOOKAHEAD, old(self).lookahead.next_symbol, v_sets(old(self).medial)[set_id as int], sym, k)),
        exists|s: Seq<Item<F::NodeRef>>, fr: Seq<int>| #[trigger] gave_medial(*old(self), *final(self), set_id, sym, rhs_link, s, fr),
//@ rewrite `. iter ( )` => `.iter_seq_()`
//@ entry
    let ghost r0 = *self; let ghost g = self.grammar; let ghost set = v_sets(self.medial)[set_id as int];
    let ghost hint = self.lookahead.next_symbol;
    let ghost mut s = Seq::<Item<F::NodeRef>>::empty(); let ghost mut fr = Seq::<int>::empty(); let ghost calm = self.forest.calm();
    proof { axiom_ordering(); lemma_add_nothing(self.complete.0@); }
//@ after `Ok ( idx ) | Err ( idx ) => idx , } ;`
    proof {
        // the items before the found place come before `sym`, those from it on do not
        let os = choose|os: Seq<cmp::Ordering>| #[trigger] os.len() == set.len() && (forall|i: int| 0 <= i < os.len() ==> os[i] == (if post(g, (#[trigger] set[i]).dot) is None || (post(g, set[i].dot)->0).id() < sym.id() { cmp::Ordering::Less } else { cmp::Ordering::Greater }))
            && (ascending(os) ==> match set_idx {
            Ok(i) => i < os.len() && os[i as int] == cmp::Ordering::Equal,
            Err(i) => i <= os.len() && (forall|j: int| 0 <= j < i ==> #[trigger] os[j] == cmp::Ordering::Less) && (forall|j: int| i <= j < os.len() ==> #[trigger] os[j] == cmp::Ordering::Greater),
        });
        assert(ascending(os)) by {
            assert forall|i: int, j: int| 0 <= i <= j < os.len() implies ord_n(#[trigger] os[i]) <= ord_n(#[trigger] os[j]) by { assert(sle(skey(g, set[i]), skey(g, set[j]))); }
        }
        assert forall|i: int| 0 <= i < set.len() implies (i < inner_start <==> (post(g, (#[trigger] set[i]).dot)->0).id() < sym.id()) by { assert(os[i] == os[i]); }
    }
//@ closure 0
    -> (r: cmp::Ordering) ensures r == (if post(g, ei.dot) is None || (post(g, ei.dot)->0).id() < sym.id() { cmp::Ordering::Less } else { cmp::Ordering::Greater })
//@ closure 1
    -> (r: bool) ensures r == (post(g, ei.dot) == Some(sym))
//@ closure 2
    -> (r: bool) ensures r == useful_lhs(g, Some(sym), item.dot)
//@ desugar_seq 0 it_
    proof {
        assert forall|i: int| 0 <= i < set.len() implies (post(g, (#[trigger] set[i]).dot) == Some(sym) <==> inner_start <= i < inner_start + it_all.len()) by {
            let m = it_all.len() as int;
            if inner_start <= i < inner_start + m { assert(it_all[i - inner_start] == set[i]); }
            else if i >= inner_start + m {
                assert(set[inner_start + m] == set.skip(inner_start as int)[m]);
                assert(sle(skey(g, set[inner_start + m]), skey(g, set[i])));
            }
        }
        assert forall|k: (u32, u32)| !(#[trigger] adv_medial(g, P::LOOKAHEAD, hint, set.take(inner_start + 0), sym, k)) by {
            if adv_medial(g, P::LOOKAHEAD, hint, set.take(inner_start + 0), sym, k) {
                let i = choose|i: int| 0 <= i < inner_start && post(g, (#[trigger] set.take(inner_start + 0)[i]).dot) == Some(sym);
                assert(set.take(inner_start + 0)[i] == set[i]);
            }
        }
    }
---
        self.grammar == g, g == r0.grammar, self.medial == r0.medial, self.lookahead == r0.lookahead, self.predicted == r0.predicted, hint == r0.lookahead.next_symbol,
        v_wf(self.medial), set == v_sets(r0.medial)[set_id as int],
        is_run(g, set, sym, inner_start as int, it_all.len() as int), forall|k: int| 0 <= k < it_all.len() ==> #[trigger] it_all[k] == set[inner_start + k],
        heap_ok(self.complete.0@), calm == (r0.forest.calm()), more(r0.forest, self.forest), self.complete.0@.to_multiset() == r0.complete.0@.to_multiset().add(s.to_multiset()),
        fr.len() == s.len(), forall|j: int| 0 <= j < s.len() ==> joined(g, calm, self.forest, set, sym, rhs_link, #[trigger] s[j], fr[j]),
        forall|i: int, j: int| 0 <= i < j < fr.len() ==> #[trigger] fr[i] < #[trigger] fr[j], forall|j: int| 0 <= j < fr.len() ==> #[trigger] fr[j] < inner_start + it_n,
        forall|i: int| inner_start <= i < inner_start + it_n && (!P::LOOKAHEAD || useful_lhs(g, hint, set[i].dot)) ==> #[trigger] fr.contains(i),
        forall|k: (u32, u32)| #[trigger] has_key(s, k) == adv_medial(g, P::LOOKAHEAD, hint, set.take(inner_start + it_n), sym, k),
        forall|k: (u32, u32)| #[trigger] has_key(self.complete.0@, k) == (has_key(r0.complete.0@, k) || adv_medial(g, P::LOOKAHEAD, hint, set.take(inner_start + it_n), sym, k)),
//@ loop_start 0
    let ghost q = inner_start + it_n - 1; let ghost h0 = self.complete.0@; let ghost item0 = item; let ghost f0 = self.forest; let ghost fr0 = fr;
    proof {
        assert(it_all[it_n - 1] == set[q]);
    }
//@ loop_end 0
    proof {
        assert(key(item) == key(set[q]));
        assert(post(g, set[q].dot) == Some(sym));
        assert(inner_start + it_n == q + 1);
        lemma_adv_step(g, P::LOOKAHEAD, hint, set, sym, q);
        if self.complete.0@ != h0 {
            assert(!P::LOOKAHEAD || useful_lhs(g, hint, set[q].dot));
            lemma_push_key(h0, self.complete.0@, item);
            lemma_add_one(r0.complete.0@, h0, self.complete.0@, s, item);
            lemma_medial_step(g, calm, f0, self.forest, set, sym, rhs_link, s, fr, item, q);
            assert forall|i: int| inner_start <= i < inner_start + it_n && (!P::LOOKAHEAD || useful_lhs(g, hint, set[i].dot)) implies #[trigger] fr.push(q).contains(i) by {
                if i == q { assert(fr.push(q)[fr.len() as int] == q); } else { assert(fr0.contains(i)); let j = choose|j: int| 0 <= j < fr.len() && fr[j] == i; assert(fr.push(q)[j] == i); }
            }
            fr = fr.push(q);
            lemma_append_key(s, seq![item]); assert(s + seq![item] =~= s.push(item));
            assert forall|k: (u32, u32)| #[trigger] has_key(seq![item], k) == (k == key(item)) by { assert(key(seq![item][0]) == key(item)); }
            s = s.push(item);
        } else { assert(!(!P::LOOKAHEAD || useful_lhs(g, hint, set[q].dot))); }
    }
//@ exit
    proof {
        assert forall|k: (u32, u32)| adv_medial(g, P::LOOKAHEAD, hint, set.take(inner_start + it_n), sym, k) == #[trigger] adv_medial(g, P::LOOKAHEAD, hint, set, sym, k) by {
            lemma_adv_run(g, P::LOOKAHEAD, hint, set, sym, inner_start as int, it_n, k);
        }
        assert forall|i: int| 0 <= i < set.len() && post(g, (#[trigger] set[i]).dot) == Some(sym) && (!P::LOOKAHEAD || useful_lhs(g, hint, set[i].dot)) implies fr.contains(i) by { assert(inner_start <= i < inner_start + it_n); }
        assert(gave_medial(r0, *self, set_id, sym, rhs_link, s, fr));
    }
//@ endfn
//@ fn complete_predictions props=P12,P13
    requires ready(*old(self), set_id)
    ensures grows(*old(self), *final(self)), heap_ok(final(self).complete.0@), final(self).forest == old(self).forest,
        final(self).complete.0@.to_multiset() == old(self).complete.0@.to_multiset().add(made(old(self).grammar, P::LOOKAHEAD, old(self).lookahead.next_symbol, old(self).predicted.rows()[set_id as int], set_id, old(self).grammar.s_completions(sym), rhs_link, true, old(self).grammar.s_completions(sym).len() as int).to_multiset()),
        v_cur(final(self).medial) == v_cur(old(self).medial) + made(old(self).grammar, P::LOOKAHEAD, old(self).lookahead.next_symbol, old(self).predicted.rows()[set_id as int], set_id, old(self).grammar.s_completions(sym), rhs_link, false, old(self).grammar.s_completions(sym).len() as int),
        forall|k: (u32, u32)| #[trigger] has_key(final(self).complete.0@, k) == (has_key(old(self).complete.0@, k) || adv_pred(old(self).grammar, P::LOOKAHEAD, old(self).lookahead.next_symbol, old(self).predicted.rows()[set_id as int], set_id, sym, true, k)),
        forall|k: (u32, u32)| #[trigger] has_key(v_cur(final(self).medial), k) == (has_key(v_cur(old(self).medial), k) || adv_pred(old(self).grammar, P::LOOKAHEAD, old(self).lookahead.next_symbol, old(self).predicted.rows()[set_id as int], set_id, sym, false, k)),
//@ rewrite `. iter ( )` => `.iter_seq_()`
//@ entry
    let ghost r0 = *self; let ghost g = self.grammar; let ghost hint = self.lookahead.next_symbol; let ghost row = self.predicted.rows()[set_id as int];
    let ghost tr = g.s_completions(sym); let ghost cur0 = v_cur(self.medial);
//@ closure 0
    -> (r: bool) ensures r == useful_dot(g, Some(sym), trans.dot)
//@ desugar_seq 0 it_
    proof { assert(it_all.len() == tr.len()); assert(cur0 =~= cur0 + made(g, P::LOOKAHEAD, hint, row, set_id, tr, rhs_link, false, 0) + made(g, P::LOOKAHEAD, hint, row, set_id, tr, rhs_link, true, 0)); }
---
        self.grammar == g, g == r0.grammar, v_wf(r0.medial), grows(r0, *self), hint == self.lookahead.next_symbol, row == self.predicted.rows()[set_id as int], self.complete == r0.complete, self.forest == r0.forest,
        it_all.len() == tr.len(), forall|k: int| 0 <= k < tr.len() ==> *(#[trigger] it_all[k]) == tr[k], binary_first(tr),
        v_cur(self.medial) == cur0 + made(g, P::LOOKAHEAD, hint, row, set_id, tr, rhs_link, false, it_n) + made(g, P::LOOKAHEAD, hint, row, set_id, tr, rhs_link, true, it_n),
        binary == cur0.len() + made(g, P::LOOKAHEAD, hint, row, set_id, tr, rhs_link, false, it_n).len(),
//@ loop_start 0
    let ghost q = it_n - 1; let ghost c0 = v_cur(self.medial);
    let ghost mb = made(g, P::LOOKAHEAD, hint, row, set_id, tr, rhs_link, false, q); let ghost mu = made(g, P::LOOKAHEAD, hint, row, set_id, tr, rhs_link, true, q);
    proof { assert(*trans == tr[q]); if !trans.is_unary { lemma_made_none(g, P::LOOKAHEAD, hint, row, set_id, tr, rhs_link, q); } }
//@ before `binary +=`
    proof { assert(v_cur(self.medial).len() == c0.len() + 1); assert(v_cur(self.medial).len() <= self.medial.chart@.len()); assert(self.medial.chart@.len() <= usize::MAX) by { assert(self.medial.chart.view().len() == self.medial.chart.len()); } }
//@ loop_end 0
    proof {
        lemma_grow_len(r0.medial, self.medial);
        let it = Item { origin: set_id, dot: tr[q].dot, node: rhs_link };
        if taken(g, P::LOOKAHEAD, hint, row, tr[q]) {
            if tr[q].is_unary { assert(v_cur(self.medial) =~= cur0 + mb + mu.push(it)); } else { assert(v_cur(self.medial) =~= cur0 + mb.push(it) + mu); }
        }
    }
//@ after_loop 0
    let ghost mb = made(g, P::LOOKAHEAD, hint, row, set_id, tr, rhs_link, false, tr.len() as int); let ghost mu = made(g, P::LOOKAHEAD, hint, row, set_id, tr, rhs_link, true, tr.len() as int);
    let ghost r1 = *self;
//@ desugar_seq 1 jt_
    proof { assert(jt_all =~= mu); lemma_add_nothing(r0.complete.0@); assert(mu.take(0) =~= Seq::empty()); }
---
        self.grammar == g, grows(r1, *self), self.forest == r0.forest, self.complete.0@.to_multiset() == r0.complete.0@.to_multiset().add(mu.take(jt_n).to_multiset()), self.medial == r1.medial, heap_ok(self.complete.0@), jt_all == mu,
        forall|k: (u32, u32)| #[trigger] has_key(self.complete.0@, k) == (has_key(r0.complete.0@, k) || has_key(mu.take(jt_n), k)),
//@ loop_start 1
    let ghost h0 = self.complete.0@;
//@ loop_end 1
    proof {
        lemma_push_key(h0, self.complete.0@, item);
        lemma_append_key(mu.take(jt_n - 1), seq![item]);
        assert(mu.take(jt_n) =~= mu.take(jt_n - 1) + seq![item]);
        lemma_add_one(r0.complete.0@, h0, self.complete.0@, mu.take(jt_n - 1), item); assert(mu.take(jt_n) =~= mu.take(jt_n - 1).push(item));
        assert forall|k: (u32, u32)| #[trigger] has_key(seq![item], k) == (k == key(item)) by { assert(key(seq![item][0]) == key(item)); }
    }
//@ exit
    proof {
        assert(mu.take(mu.len() as int) =~= mu);
        assert(v_cur(self.medial) =~= cur0 + mb);
        lemma_grow_len(r0.medial, self.medial);
        assert forall|k: (u32, u32)| #[trigger] has_key(mu, k) == adv_pred(g, P::LOOKAHEAD, hint, row, set_id, sym, true, k) by { lemma_made(g, P::LOOKAHEAD, hint, row, set_id, tr, rhs_link, true, tr.len() as int, k); }
        assert forall|k: (u32, u32)| #[trigger] has_key(mb, k) == adv_pred(g, P::LOOKAHEAD, hint, row, set_id, sym, false, k) by { lemma_made(g, P::LOOKAHEAD, hint, row, set_id, tr, rhs_link, false, tr.len() as int, k); }
        lemma_append_key(cur0, mb);
    }
//@ endfn
//@ fn complete_leo
    requires false
//@ endfn
//@ fn complete_generated_binary_predictions props=P12,P13
    requires ready(*old(self), set_id)
    ensures grows(*old(self), *final(self)), heap_ok(final(self).complete.0@),
        forall|k: (u32, u32)| #[trigger] has_key(final(self).complete.0@, k) == (has_key(old(self).complete.0@, k) || adv_gen(old(self).grammar, old(self).predicted.rows()[set_id as int], set_id, sym, true, k)),
        forall|k: (u32, u32)| #[trigger] has_key(v_cur(final(self).medial), k) == (has_key(v_cur(old(self).medial), k) || adv_gen(old(self).grammar, old(self).predicted.rows()[set_id as int], set_id, sym, false, k)),
        final(self).forest == old(self).forest,
        final(self).complete.0@.to_multiset() == old(self).complete.0@.to_multiset().add(gen_made(old(self).grammar, old(self).predicted.rows()[set_id as int], set_id, sym, true, rhs_link).to_multiset()),
        v_cur(final(self).medial) == v_cur(old(self).medial) + gen_made(old(self).grammar, old(self).predicted.rows()[set_id as int], set_id, sym, false, rhs_link),
//@ entry
    let ghost r0 = *self;
    proof { lemma_add_nothing(self.complete.0@); }
//@ exit
    proof {
        let g = r0.grammar; let row = r0.predicted.rows()[set_id as int];
        let tu = g.s_gen_completion(sym)[1]; let tb = g.s_gen_completion(sym)[0];
        lemma_grow_len(r0.medial, self.medial);
        assert(g.s_gen_completion(sym).len() == 2);
        if tu is Some && row.has((tu->0).symbol.id()) {
            let i = Item { origin: set_id, dot: (tu->0).dot, node: rhs_link };
            lemma_push_key(r0.complete.0@, self.complete.0@, i);
            lemma_add_one(r0.complete.0@, r0.complete.0@, self.complete.0@, Seq::empty(), i); assert(Seq::empty().push(i) =~= seq![i]);
        }
        assert(v_cur(r0.medial) + Seq::<Item<F::NodeRef>>::empty() =~= v_cur(r0.medial));
        if tb is Some && row.has((tb->0).symbol.id()) {
            let i = Item { origin: set_id, dot: (tb->0).dot, node: rhs_link };
            assert(v_cur(self.medial) =~= v_cur(r0.medial) + seq![i]);
            lemma_append_key(v_cur(r0.medial), seq![i]);
            assert forall|k: (u32, u32)| #[trigger] has_key(seq![i], k) == (k == key(i)) by { assert(key(seq![i][0]) == key(i)); }
        }
    }
//@ endfn
//@ fn complete props=P12,P13,P17
    requires ready(*old(self), set_id), !P::LEO
    ensures grows(*old(self), *final(self)), heap_ok(final(self).complete.0@),
        forall|k: (u32, u32)| #[trigger] has_key(final(self).complete.0@, k) == (has_key(old(self).complete.0@, k) || adv(*old(self), set_id, sym, true, k)),
        forall|k: (u32, u32)| #[trigger] has_key(v_cur(final(self).medial), k) == (has_key(v_cur(old(self).medial), k) || adv(*old(self), set_id, sym, false, k)),
        exists|s: Seq<Item<F::NodeRef>>, fr: Seq<int>, m: Seq<Item<F::NodeRef>>| #[trigger] gave(*old(self), *final(self), set_id, sym, rhs_link, s, fr, m),
        // a symbol that is not expected there matches nothing
        sym.id() < old(self).grammar.s_num_syms() && !old(self).predicted.rows()[set_id as int].has(sym.id()) ==> final(self).medial == old(self).medial && final(self).complete == old(self).complete,
//@ entry
    let ghost r0 = *self; let ghost mut r1 = *self;
//@ after `self . complete_medial_items ( set_id , sym , rhs_link ) ;`
    proof { r1 = *self; }
//@ exit
    proof { lemma_gave(r0, r1, *self, set_id, sym, rhs_link); }
//@ endfn
//@ endimpl
