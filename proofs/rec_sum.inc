// ---- groups of completions: items with one (origin, left side) ----
//@ struct RECOG CompleteGroup public nodefaults
pub open spec fn grp<G: Grammar>(g: G, k: (u32, u32)) -> (u32, Symbol) { (k.0, g.s_get_lhs(k.1)) }
pub open spec fn order<G: Grammar>(g: G) -> spec_fn(Dot) -> nat { choose|pos: spec_fn(Dot) -> nat| #[trigger] orders(g, pos) }
/// Does the queue hold the rule at place `i` of the order, since `o`?
pub open spec fn bit<G: Grammar, N>(g: G, s: Seq<Item<N>>, o: u32, i: int) -> bool { exists|d: Dot| #[trigger] has_key(s, (o, d)) && order(g)(d) == i }
/// What is queued since `o`, as a binary number: higher places weigh more than all below.
pub open spec fn load<G: Grammar, N>(g: G, s: Seq<Item<N>>, o: u32, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { (if bit(g, s, o, n - 1) { pow2((n - 1) as nat) } else { 0 }) + load(g, s, o, (n - 1) as nat) }
}
pub open spec fn pow2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * pow2((n - 1) as nat) } }
pub proof fn lemma_load_small<G: Grammar, N>(g: G, s: Seq<Item<N>>, o: u32, n: nat)
    ensures load(g, s, o, n) < pow2(n)
    decreases n
{ if n > 0 { lemma_load_small(g, s, o, (n - 1) as nat); } }
/// One place is left, and nothing new comes at or above it: the load gets smaller.
pub proof fn lemma_load_less<G: Grammar, N>(g: G, s: Seq<Item<N>>, t: Seq<Item<N>>, o: u32, n: nat, j: int)
    requires 0 <= j < n, bit(g, s, o, j), !bit(g, t, o, j), forall|i: int| j < i < n && #[trigger] bit(g, t, o, i) ==> bit(g, s, o, i)
    ensures load(g, t, o, n) < load(g, s, o, n)
    decreases n
{
    if n - 1 == j { lemma_load_small(g, t, o, (n - 1) as nat); }
    else { lemma_load_less(g, s, t, o, (n - 1) as nat, j); assert(bit(g, t, o, n - 1) ==> bit(g, s, o, n - 1)); }
}
/// The state in which completions are processed.
pub open spec fn completing<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>) -> bool {
    &&& v_wf(r.medial) && heap_ok(r.complete.0@) && lists_ok(r.grammar) && acyclic(r.grammar)
    &&& forall|i: int| 0 <= i < v_sets(r.medial).len() ==> waiting(r.grammar, #[trigger] v_sets(r.medial)[i]) && sorted(r.grammar, v_sets(r.medial)[i])
    &&& forall|i: int, k: int| 0 <= i < v_sets(r.medial).len() && 0 <= k < v_sets(r.medial)[i].len() ==> (#[trigger] v_sets(r.medial)[i][k]).origin < i
    &&& forall|k: (u32, u32)| #[trigger] has_key(r.complete.0@, k) ==> k.0 < r.medial.indices@.len() - 1
}
/// Only the forest (and the queue) differ.
pub open spec fn same_but_forest_complete<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>) -> bool {
    a.grammar == b.grammar && a.lookahead == b.lookahead && a.policy == b.policy && a.predicted == b.predicted && a.medial == b.medial && a.leo == b.leo
}
pub open spec fn same_but_forest<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>) -> bool { same_but_forest_complete(a, b) && a.complete == b.complete }
/// Processing the group `p`: its finished items may leave the queue, what they complete is added.
pub open spec fn summed<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, p: (u32, Symbol)) -> bool {
    &&& grows(a, b)
    &&& forall|k: (u32, u32)| #[trigger] has_key(b.complete.0@, k) ==> has_key(a.complete.0@, k) || adv(a, p.0, p.1, true, k)
    &&& forall|k: (u32, u32)| #[trigger] has_key(a.complete.0@, k) ==> has_key(b.complete.0@, k) || grp(a.grammar, k) == p
    &&& forall|k: (u32, u32)| #[trigger] adv(a, p.0, p.1, true, k) ==> has_key(b.complete.0@, k)
    &&& forall|k: (u32, u32)| #[trigger] has_key(v_cur(b.medial), k) == (has_key(v_cur(a.medial), k) || adv(a, p.0, p.1, false, k))
}
/// A queue holds at most isize::MAX bytes, an item takes at least eight.
#[verifier::external_body]
pub proof fn axiom_queue_small<N>(v: Vec<Item<N>>) ensures queue_small(v@) {}
pub proof fn lemma_pop_key<N>(a: Seq<Item<N>>, b: Seq<Item<N>>, i: Item<N>)
    requires a.to_multiset() == b.to_multiset().insert(i)
    ensures forall|k: (u32, u32)| #[trigger] has_key(a, k) == (has_key(b, k) || k == key(i))
{ lemma_push_key(b, a, i); }
pub proof fn lemma_keys_below<N>(a: Seq<Item<N>>, t: (u32, u32))
    ensures (forall|j: int| 0 <= j < a.len() ==> kle(key(#[trigger] a[j]), t)) == (forall|k: (u32, u32)| #[trigger] has_key(a, k) ==> kle(k, t))
{
    if forall|k: (u32, u32)| #[trigger] has_key(a, k) ==> kle(k, t) { assert forall|j: int| 0 <= j < a.len() implies kle(key(#[trigger] a[j]), t) by { assert(has_key(a, key(a[j]))); } }
}
/// The first item of the queue has a greatest key.
pub proof fn lemma_keys_top<N>(s: Seq<Item<N>>)
    requires heap_ok(s)
    ensures forall|k: (u32, u32)| #[trigger] has_key(s, k) ==> kle(k, key(s[0])) && s.len() > 0
{
    assert forall|k: (u32, u32)| #[trigger] has_key(s, k) implies kle(k, key(s[0])) && s.len() > 0 by { let j = choose|j: int| 0 <= j < s.len() && key(#[trigger] s[j]) == k; lemma_top(s, j); }
}
/// What a finished rule completes comes later in the queue's order.
pub proof fn lemma_adv_below<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, o: u32, sym: Symbol, d: Dot, k: (u32, u32))
    requires completing(r), adv(r, o, sym, true, k), sym == r.grammar.s_get_lhs(d), o < v_sets(r.medial).len()
    ensures k.0 < o || (k.0 == o && order(r.grammar)(k.1) < order(r.grammar)(d))
{
    let g = r.grammar; let pos = order(g); assert(orders(g, pos)); let set = v_sets(r.medial)[o as int]; let hint = r.lookahead.next_symbol; let row = r.predicted.rows()[o as int];
    if sym.id() >= g.s_num_syms() { assert(g.s_gen_completion(g.s_get_lhs(d))[1] is Some); }
    else if adv_medial(g, P::LOOKAHEAD, hint, set, sym, k) {
        let i = choose|i: int| 0 <= i < set.len() && post(g, (#[trigger] set[i]).dot) == Some(sym) && (!P::LOOKAHEAD || useful_lhs(g, hint, set[i].dot)) && key(set[i]) == k;
        assert(v_sets(r.medial)[o as int][i].origin < o);
    } else {
        let i = choose|i: int| 0 <= i < g.s_completions(sym).len() && (#[trigger] g.s_completions(sym)[i]).is_unary == true && taken(g, P::LOOKAHEAD, hint, row, g.s_completions(sym)[i]) && k == (o, g.s_completions(sym)[i].dot);
        assert(g.s_completions(g.s_get_lhs(d))[i].is_unary);
    }
}
// ---- what a group's node is (P09) ----
pub open spec fn named<N>(s: Seq<Item<N>>) -> Seq<(u32, N)> { s.map_values(|x: Item<N>| (x.dot, x.node)) }
/// The forest before and after a summand is given.
pub open spec fn gets<F: Forest>(a: F, b: F, x: Item<F::NodeRef>) -> bool {
    b.lawful() ==> a.lawful() && keeps(a, b) && (a.pending() is Some ==> b.pending() == Some(a.pending()->0.push((x.dot, x.node))))
}
/// The forest before and after a sum is made of what it was given.
pub open spec fn sums<F: Forest>(a: F, b: F, node: F::NodeRef) -> bool {
    b.lawful() ==> a.lawful() && keeps(a, b) && (a.pending() is Some && a.pending()->0.len() > 0 ==> b.calm() && b.node(node) is Sum && b.node(node)->Sum_0.to_multiset() == a.pending()->0.to_multiset())
}
/// A group's move: the finished items `pop` leave the queue for the node `node`, which leaves `c`; the node's match adds `s` and `m`.
pub ghost struct Move<G: Grammar, F: Forest, P: PerfHint> { pub pop: Seq<Item<F::NodeRef>>, pub c: Recognizer<G, F, P>, pub node: F::NodeRef, pub s: Seq<Item<F::NodeRef>>, pub fr: Seq<int>, pub m: Seq<Item<F::NodeRef>> }
pub open spec fn taken_out<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, c: Recognizer<G, F, P>, p: (u32, Symbol), pop: Seq<Item<F::NodeRef>>) -> bool {
    &&& same_but_forest_complete(a, c) && heap_ok(c.complete.0@)
    &&& a.complete.0@.to_multiset() == c.complete.0@.to_multiset().add(pop.to_multiset())
    &&& forall|j: int| 0 <= j < pop.len() ==> grp(a.grammar, key(#[trigger] pop[j])) == p
}
pub open spec fn did<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, x: Move<G, F, P>) -> bool {
    let p = grp(a.grammar, key(a.complete.0@[0]));
    &&& a.complete.0@.len() > 0 && x.pop.len() > 0 && taken_out(a, x.c, p, x.pop)
    &&& forall|k: (u32, u32)| #[trigger] has_key(x.c.complete.0@, k) ==> grp(a.grammar, key(x.c.complete.0@[0])) != p
    &&& x.c.forest.lawful() ==> a.forest.lawful() && keeps(a.forest, x.c.forest) && (a.forest.calm() ==> x.c.forest.calm() && x.c.forest.node(x.node) is Sum && x.c.forest.node(x.node)->Sum_0.to_multiset() == named(x.pop).to_multiset())
    &&& gave(x.c, b, p.0, p.1, x.node, x.s, x.fr, x.m)
}
/// All groups, one after another.
pub open spec fn chain<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tr: Seq<Recognizer<G, F, P>>, sts: Seq<Move<G, F, P>>) -> bool {
    &&& tr.len() == sts.len() + 1 && tr[0] == a && b == (Recognizer { lookahead: b.lookahead, ..tr.last() })
    &&& forall|i: int| 0 <= i < sts.len() ==> did(tr[i], tr[i + 1], #[trigger] sts[i]) && completing(tr[i]) && grows(a, tr[i])
}
pub proof fn lemma_chain_push<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, c: Recognizer<G, F, P>, tr: Seq<Recognizer<G, F, P>>, sts: Seq<Move<G, F, P>>, x: Move<G, F, P>)
    requires chain(a, b, tr, sts), b == tr.last(), did(b, c, x), completing(b), grows(a, b)
    ensures chain(a, c, tr.push(c), sts.push(x))
{
    let u = tr.push(c); let v = sts.push(x);
    assert forall|i: int| 0 <= i < v.len() implies did(u[i], u[i + 1], #[trigger] v[i]) && completing(u[i]) && grows(a, u[i]) by { if i < sts.len() { assert(v[i] == sts[i]); assert(u[i] == tr[i] && u[i + 1] == tr[i + 1]); } else { assert(u[i] == tr.last()); } }
}
pub proof fn lemma_taken_one<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, c: Recognizer<G, F, P>, d: Recognizer<G, F, P>, p: (u32, Symbol), pop: Seq<Item<F::NodeRef>>, x: Item<F::NodeRef>)
    requires taken_out(a, c, p, pop), same_but_forest_complete(c, d), heap_ok(d.complete.0@), c.complete.0@.to_multiset() == d.complete.0@.to_multiset().insert(x), grp(a.grammar, key(x)) == p
    ensures taken_out(a, d, p, pop.push(x)), named(pop.push(x)) == named(pop).push((x.dot, x.node))
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.complete.0@.to_multiset() =~= d.complete.0@.to_multiset().add(pop.push(x).to_multiset()));
    assert(named(pop.push(x)) =~= named(pop).push((x.dot, x.node)));
    let q = pop.push(x);
    assert forall|j: int| 0 <= j < q.len() implies grp(a.grammar, key(#[trigger] q[j])) == p by { if j < pop.len() { assert(q[j] == pop[j]); } }
}
//@ impl RECOG `impl<G, F, P> Recognizer<G, F, P>`
//@ fn next_sum props=P12,P13
    requires heap_ok(old(self).complete.0@)
    ensures r is None == (old(self).complete.0@.len() == 0),
        r is None ==> *final(self) == *old(self),
        r is Some ==> *(r->0).recognizer == *old(self) && *final((r->0).recognizer) == *final(self)
            && ((r->0).origin, (r->0).lhs_sym) == grp(old(self).grammar, key(old(self).complete.0@[0])),
//@ endfn
//@ endimpl
//@ impl RECOG `impl<'r, F, G, P> CompleteGroup<'r, F, G, P>`
//@ fn next_summand props=P12,P13
    requires heap_ok((*old(self).recognizer).complete.0@)
    ensures final(self).origin == old(self).origin, final(self).lhs_sym == old(self).lhs_sym,
        *final(final(self).recognizer) == *final(old(self).recognizer),
        only_complete(*old(self).recognizer, *final(self).recognizer), heap_ok((*final(self).recognizer).complete.0@),
        r is None ==> *final(self).recognizer == *old(self).recognizer,
        r is None ==> ((*old(self).recognizer).complete.0@.len() == 0 || grp((*old(self).recognizer).grammar, key((*old(self).recognizer).complete.0@[0])) != (old(self).origin, old(self).lhs_sym)),
        r is Some ==> grp((*old(self).recognizer).grammar, key(r->0)) == (old(self).origin, old(self).lhs_sym)
            && (*old(self).recognizer).complete.0@.to_multiset() == (*final(self).recognizer).complete.0@.to_multiset().insert(r->0)
            && (*old(self).recognizer).complete.0@.len() == (*final(self).recognizer).complete.0@.len() + 1
            && forall|k: (u32, u32)| #![trigger has_key((*old(self).recognizer).complete.0@, k)] #![trigger has_key((*final(self).recognizer).complete.0@, k)] has_key((*old(self).recognizer).complete.0@, k) == (has_key((*final(self).recognizer).complete.0@, k) || k == key(r->0))
//@ entry
    proof { axiom_queue_small((*self.recognizer).complete.0); }
    let ghost r0 = *self.recognizer;
//@ after `self . recognizer . heap_pop ( ) ;`
    proof { lemma_pop_key(r0.complete.0@, (*self.recognizer).complete.0@, r0.complete.0@[0]); }
//@ endfn
//@ fn push_summand props=P12,P13
    ensures final(self).origin == old(self).origin, final(self).lhs_sym == old(self).lhs_sym,
        *final(final(self).recognizer) == *final(old(self).recognizer), same_but_forest(*old(self).recognizer, *final(self).recognizer),
        gets((*old(self).recognizer).forest, (*final(self).recognizer).forest, completed_item),
//@ endfn
//@ fn complete_sum props=P12,P13
    requires completing(*old(self).recognizer), old(self).origin + 1 < (*old(self).recognizer).medial.indices@.len(), !P::LEO
    ensures final(self).origin == old(self).origin, final(self).lhs_sym == old(self).lhs_sym,
        *final(final(self).recognizer) == *final(old(self).recognizer),
        heap_ok((*final(self).recognizer).complete.0@), grows(*old(self).recognizer, *final(self).recognizer),
        forall|k: (u32, u32)| #[trigger] has_key((*final(self).recognizer).complete.0@, k) == (has_key((*old(self).recognizer).complete.0@, k) || adv(*old(self).recognizer, old(self).origin, old(self).lhs_sym, true, k)),
        forall|k: (u32, u32)| #[trigger] has_key(v_cur((*final(self).recognizer).medial), k) == (has_key(v_cur((*old(self).recognizer).medial), k) || adv(*old(self).recognizer, old(self).origin, old(self).lhs_sym, false, k)),
        exists|c: Recognizer<G, F, P>, s: Seq<Item<F::NodeRef>>, fr: Seq<int>, m: Seq<Item<F::NodeRef>>| same_but_forest(*old(self).recognizer, c) && sums((*old(self).recognizer).forest, c.forest, r) && #[trigger] gave(c, *final(self).recognizer, old(self).origin, old(self).lhs_sym, r, s, fr, m),
//@ after `self . origin ) ;`
    let ghost c = *self.recognizer;
//@ exit
    proof {
        let (s, fr, m) = choose|s: Seq<Item<F::NodeRef>>, fr: Seq<int>, m: Seq<Item<F::NodeRef>>| #[trigger] gave(c, *self.recognizer, self.origin, self.lhs_sym, node, s, fr, m);
        assert(gave(c, *self.recognizer, self.origin, self.lhs_sym, node, s, fr, m));
    }
//@ endfn
//@ fn origin props=P12
    ensures r == self.origin
//@ endfn
//@ fn symbol props=P12
    ensures r == self.lhs_sym
//@ endfn
//@ fn skip_entire_sum props=P12
    requires heap_ok((*old(self).recognizer).complete.0@)
    ensures final(self).origin == old(self).origin, final(self).lhs_sym == old(self).lhs_sym,
        *final(final(self).recognizer) == *final(old(self).recognizer), only_complete(*old(self).recognizer, *final(self).recognizer), heap_ok((*final(self).recognizer).complete.0@),
        // what is gone is of this group, and the next item is of another
        forall|k: (u32, u32)| #[trigger] has_key((*final(self).recognizer).complete.0@, k) ==> has_key((*old(self).recognizer).complete.0@, k),
        forall|k: (u32, u32)| #[trigger] has_key((*old(self).recognizer).complete.0@, k) ==> has_key((*final(self).recognizer).complete.0@, k) || grp((*old(self).recognizer).grammar, k) == (old(self).origin, old(self).lhs_sym),
        (*final(self).recognizer).complete.0@.len() == 0 || grp((*old(self).recognizer).grammar, key((*final(self).recognizer).complete.0@[0])) != (old(self).origin, old(self).lhs_sym),
//@ entry
    let ghost r0 = *self.recognizer; let ghost p = (self.origin, self.lhs_sym);
//@ loop 0 while
    invariant self.origin == p.0, self.lhs_sym == p.1, *final(self.recognizer) == *final(old(self).recognizer), only_complete(r0, *self.recognizer), heap_ok((*self.recognizer).complete.0@),
        forall|k: (u32, u32)| #[trigger] has_key((*self.recognizer).complete.0@, k) ==> has_key(r0.complete.0@, k),
        forall|k: (u32, u32)| #[trigger] has_key(r0.complete.0@, k) ==> has_key((*self.recognizer).complete.0@, k) || grp(r0.grammar, k) == p,
    ensures (*self.recognizer).complete.0@.len() == 0 || grp(r0.grammar, key((*self.recognizer).complete.0@[0])) != p
    decreases (*self.recognizer).complete.0@.len()
//@ endfn
//@ fn complete_entire_sum props=P12,P13
    requires completing(*old(self).recognizer), !P::LEO, (*old(self).recognizer).complete.0@.len() > 0,
        grp((*old(self).recognizer).grammar, key((*old(self).recognizer).complete.0@[0])) == (old(self).origin, old(self).lhs_sym),
    ensures *final(final(self).recognizer) == *final(old(self).recognizer),
        summed(*old(self).recognizer, *final(self).recognizer, (old(self).origin, old(self).lhs_sym)), completing(*final(self).recognizer),
        !has_key((*final(self).recognizer).complete.0@, key((*old(self).recognizer).complete.0@[0])),
        exists|x: Move<G, F, P>| #[trigger] did(*old(self).recognizer, *final(self).recognizer, x),
        forall|k: (u32, u32)| #[trigger] has_key((*final(self).recognizer).complete.0@, k) ==> k.0 <= old(self).origin && (k.0 == old(self).origin && !has_key((*old(self).recognizer).complete.0@, k) ==> order((*old(self).recognizer).grammar)(k.1) < order((*old(self).recognizer).grammar)(key((*old(self).recognizer).complete.0@[0]).1)),
//@ entry
    let ghost r0 = *self.recognizer; let ghost top = key(r0.complete.0@[0]); let ghost p = (self.origin, self.lhs_sym);
    let ghost mut pop = Seq::<Item<F::NodeRef>>::empty(); let ghost mut prev = *self.recognizer;
    proof { lemma_add_nothing(r0.complete.0@); assert(named(pop) =~= Seq::<(u32, F::NodeRef)>::empty()); }
//@ loop 0 while
    invariant taken_out(r0, *self.recognizer, p, pop), prev == *self.recognizer,
        (*self.recognizer).forest.lawful() ==> r0.forest.lawful() && keeps(r0.forest, (*self.recognizer).forest) && (r0.forest.calm() ==> (*self.recognizer).forest.pending() == Some(named(pop))),
        self.origin == p.0, self.lhs_sym == p.1, *final(self.recognizer) == *final(old(self).recognizer), same_but_forest_complete(r0, *self.recognizer), heap_ok((*self.recognizer).complete.0@),
        forall|k: (u32, u32)| #[trigger] has_key((*self.recognizer).complete.0@, k) ==> has_key(r0.complete.0@, k),
        forall|k: (u32, u32)| #[trigger] has_key(r0.complete.0@, k) ==> has_key((*self.recognizer).complete.0@, k) || grp(r0.grammar, k) == p,
    ensures (*self.recognizer).complete.0@.len() == 0 || grp(r0.grammar, key((*self.recognizer).complete.0@[0])) != p
    decreases (*self.recognizer).complete.0@.len()
//@ before_loop 0
    proof { prev = *self.recognizer; }
//@ loop_end 0
    proof { lemma_taken_one(r0, prev, *self.recognizer, p, pop, item); pop = pop.push(item); prev = *self.recognizer; }
//@ before `self . complete_sum ( ) ;`
    let ghost r1 = *self.recognizer;
//@ entry
    proof { assert(has_key(r0.complete.0@, top)); lemma_keys_top(r0.complete.0@); }
//@ after_loop 0
    let ghost h1 = (*self.recognizer).complete.0@;
    proof {
        lemma_keys_top(h1);
        assert forall|k: (u32, u32)| #[trigger] has_key(h1, k) implies klt(k, top) by {
            assert(kle(k, key(h1[0]))); assert(has_key(h1, key(h1[0]))); assert(has_key(r0.complete.0@, key(h1[0])));
        }
    }
//@ exit
    proof {
        let g = r0.grammar;
        assert forall|k: (u32, u32)| #[trigger] adv(r0, p.0, p.1, true, k) implies k.0 < p.0 || (k.0 == p.0 && order(g)(k.1) < order(g)(top.1)) by { lemma_adv_below(r0, p.0, p.1, top.1, k); }
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        assert(pop.len() > 0) by {
            assert(r0.complete.0@.contains(r0.complete.0@[0]));
            if pop.len() == 0 { assert(pop =~= Seq::empty()); assert(r1.complete.0@.to_multiset() =~= r0.complete.0@.to_multiset()); lemma_same_keys(r0.complete.0@, r1.complete.0@); assert(has_key(r0.complete.0@, top)); assert(has_key(r1.complete.0@, top)); assert(klt(top, top)); }
        }
        let (c, node, s, fr, m) = choose|c: Recognizer<G, F, P>, node: F::NodeRef, s: Seq<Item<F::NodeRef>>, fr: Seq<int>, m: Seq<Item<F::NodeRef>>| same_but_forest(r1, c) && sums(r1.forest, c.forest, node) && #[trigger] gave(c, *self.recognizer, p.0, p.1, node, s, fr, m);
        assert(named(pop).len() == pop.len());
        assert(did(r0, *self.recognizer, Move { pop, c, node, s, fr, m }));
    }
//@ endfn
//@ endimpl
/// As `grows`, the announced symbol aside.
pub open spec fn grows_but_hint<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>) -> bool {
    &&& a.grammar == b.grammar && a.predicted == b.predicted
    &&& v_wf(b.medial) && v_sets(b.medial) == v_sets(a.medial) && b.medial.indices@.len() == a.medial.indices@.len() && a.medial.indices@.len() >= 1
}
pub type Group = (u32, Symbol);
/// `d` lists the groups processed: everything in it follows from the queue `a` began with, and everything that follows is in it.
pub open spec fn closure_<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, d: Seq<Group>) -> bool {
    &&& forall|t: int| 0 <= t < d.len() ==> caused(a, d, t)
    &&& forall|k: (u32, u32)| #[trigger] has_key(a.complete.0@, k) ==> d.contains(grp(a.grammar, k))
    &&& forall|t: int, k: (u32, u32)| 0 <= t < d.len() && #[trigger] adv(a, d[t].0, d[t].1, true, k) ==> d.contains(grp(a.grammar, k))
    &&& forall|k: (u32, u32)| #[trigger] has_key(v_cur(b.medial), k) == (has_key(v_cur(a.medial), k) || waits(a, d, k))
}
pub open spec fn waits<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, d: Seq<Group>, k: (u32, u32)) -> bool {
    exists|t: int| 0 <= t < d.len() && #[trigger] adv(a, d[t].0, d[t].1, false, k)
}
/// Group `t` was finished by the scan or by an earlier group.
pub open spec fn caused<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, d: Seq<Group>, t: int) -> bool {
    exists|k: (u32, u32)| #[trigger] grp(a.grammar, k) == d[t] && (has_key(a.complete.0@, k) || exists|u: int| 0 <= u < t && #[trigger] adv(a, d[u].0, d[u].1, true, k))
}
/// Part-way: what is not processed yet is in the queue.
pub open spec fn part_closure<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, d: Seq<Group>) -> bool {
    &&& forall|t: int| 0 <= t < d.len() ==> caused(a, d, t)
    &&& forall|k: (u32, u32)| #[trigger] has_key(b.complete.0@, k) ==> has_key(a.complete.0@, k) || exists|u: int| 0 <= u < d.len() && #[trigger] adv(a, d[u].0, d[u].1, true, k)
    &&& forall|k: (u32, u32)| #[trigger] has_key(a.complete.0@, k) ==> d.contains(grp(a.grammar, k)) || has_key(b.complete.0@, k)
    &&& forall|t: int, k: (u32, u32)| 0 <= t < d.len() && #[trigger] adv(a, d[t].0, d[t].1, true, k) ==> d.contains(grp(a.grammar, k)) || has_key(b.complete.0@, k)
    &&& forall|k: (u32, u32)| #[trigger] has_key(v_cur(b.medial), k) == (has_key(v_cur(a.medial), k) || waits(a, d, k))
}
pub proof fn lemma_part<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, c: Recognizer<G, F, P>, d: Seq<Group>, p: Group)
    requires part_closure(a, b, d), grows(a, b), summed(b, c, p), b.complete.0@.len() > 0, p == grp(a.grammar, key(b.complete.0@[0]))
    ensures part_closure(a, c, d.push(p))
{
    let e = d.push(p); let n = d.len() as int; let g = a.grammar;
    assert forall|k: (u32, u32), w: bool| #[trigger] adv(a, p.0, p.1, w, k) == adv(b, p.0, p.1, w, k) by {}
    assert forall|t: int| 0 <= t < n implies e[t] == d[t] by {}
    assert forall|t: int| 0 <= t < e.len() implies caused(a, e, t) by {
        if t < n {
            assert(caused(a, d, t));
            let k = choose|k: (u32, u32)| #[trigger] grp(a.grammar, k) == d[t] && (has_key(a.complete.0@, k) || exists|u: int| 0 <= u < t && #[trigger] adv(a, d[u].0, d[u].1, true, k));
            if !has_key(a.complete.0@, k) { let u = choose|u: int| 0 <= u < t && #[trigger] adv(a, d[u].0, d[u].1, true, k); assert(adv(a, e[u].0, e[u].1, true, k)); }
            assert(grp(a.grammar, k) == e[t]);
        } else {
            let k = key(b.complete.0@[0]);
            assert(has_key(b.complete.0@, k));
            if !has_key(a.complete.0@, k) { let u = choose|u: int| 0 <= u < d.len() && #[trigger] adv(a, d[u].0, d[u].1, true, k); assert(adv(a, e[u].0, e[u].1, true, k)); }
            assert(grp(a.grammar, k) == e[t]);
        }
    }
    assert forall|k: (u32, u32)| #[trigger] has_key(c.complete.0@, k) implies has_key(a.complete.0@, k) || exists|u: int| 0 <= u < e.len() && #[trigger] adv(a, e[u].0, e[u].1, true, k) by {
        if has_key(b.complete.0@, k) {
            if !has_key(a.complete.0@, k) { let u = choose|u: int| 0 <= u < d.len() && #[trigger] adv(a, d[u].0, d[u].1, true, k); assert(adv(a, e[u].0, e[u].1, true, k)); }
        } else { assert(adv(b, p.0, p.1, true, k)); assert(adv(a, e[n].0, e[n].1, true, k)); }
    }
    assert forall|x: Group| d.contains(x) implies #[trigger] e.contains(x) by { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(e[i] == x); }
    assert(e.contains(p)) by { assert(e[n] == p); }
    assert forall|k: (u32, u32)| #[trigger] has_key(a.complete.0@, k) implies e.contains(grp(g, k)) || has_key(c.complete.0@, k) by {
        if !d.contains(grp(g, k)) { assert(has_key(b.complete.0@, k)); }
    }
    assert forall|t: int, k: (u32, u32)| 0 <= t < e.len() && #[trigger] adv(a, e[t].0, e[t].1, true, k) implies e.contains(grp(g, k)) || has_key(c.complete.0@, k) by {
        if t < n { assert(adv(a, d[t].0, d[t].1, true, k)); if !d.contains(grp(g, k)) { assert(has_key(b.complete.0@, k)); } }
        else { assert(adv(b, p.0, p.1, true, k)); }
    }
    assert forall|k: (u32, u32)| #[trigger] has_key(v_cur(c.medial), k) == (has_key(v_cur(a.medial), k) || waits(a, e, k)) by {
        assert(has_key(v_cur(c.medial), k) == (has_key(v_cur(b.medial), k) || adv(b, p.0, p.1, false, k)));
        if waits(a, d, k) { let t = choose|t: int| 0 <= t < d.len() && #[trigger] adv(a, d[t].0, d[t].1, false, k); assert(adv(a, e[t].0, e[t].1, false, k)); }
        if adv(a, p.0, p.1, false, k) { assert(adv(a, e[n].0, e[n].1, false, k)); }
        if waits(a, e, k) { let t = choose|t: int| 0 <= t < e.len() && #[trigger] adv(a, e[t].0, e[t].1, false, k); if t < n { assert(adv(a, d[t].0, d[t].1, false, k)); } }
    }
}
/// How much is queued: first the highest origin, then what is queued there.
pub open spec fn q_origin<N>(s: Seq<Item<N>>) -> int { if s.len() > 0 { 1 + key(s[0]).0 } else { 0 } }
pub open spec fn q_load<G: Grammar, N>(g: G, s: Seq<Item<N>>) -> nat { if s.len() > 0 { load(g, s, key(s[0]).0, 0x1_0000_0000) } else { 0 } }
pub proof fn lemma_q_less<G: Grammar, N>(g: G, s: Seq<Item<N>>, t: Seq<Item<N>>)
    requires acyclic(g), s.len() > 0, !has_key(t, key(s[0])),
        forall|k: (u32, u32)| #[trigger] has_key(t, k) ==> k.0 <= s[0].origin && (k.0 == s[0].origin && !has_key(s, k) ==> order(g)(k.1) < order(g)(key(s[0]).1)),
    ensures q_origin(t) < q_origin(s) || (q_origin(t) == q_origin(s) && q_load(g, t) < q_load(g, s))
{
    if t.len() > 0 {
        let pos = order(g); assert(orders(g, pos)); let o = s[0].origin; let top = key(s[0]);
        assert(has_key(t, key(t[0])));
        if t[0].origin == o {
            let j = pos(top.1) as int;
            assert(has_key(s, top)); assert(top == (o, top.1)); assert(bit(g, s, o, j));
            if bit(g, t, o, j) { let d = choose|d: Dot| #[trigger] has_key(t, (o, d)) && pos(d) == j; assert(d == top.1); }
            assert forall|i: int| j < i < 0x1_0000_0000 && #[trigger] bit(g, t, o, i) implies bit(g, s, o, i) by { let d = choose|d: Dot| #[trigger] has_key(t, (o, d)) && pos(d) == i; assert(has_key(s, (o, d))); }
            lemma_load_less(g, s, t, o, 0x1_0000_0000, j);
        }
    }
}
//@ impl RECOG `impl<G, F, P> Recognizer<G, F, P>`
//@ fn complete_all_sums_entirely props=P12,P13,P17
    requires completing(*old(self)), !P::LEO
    ensures exists|d: Seq<Group>| #[trigger] closure_(*old(self), *final(self), d),
        exists|tr: Seq<Recognizer<G, F, P>>, sts: Seq<Move<G, F, P>>| #[trigger] chain(*old(self), *final(self), tr, sts),
        final(self).complete.0@.len() == 0, final(self).lookahead.next_symbol is None,
        grows_but_hint(*old(self), *final(self)),
//@ entry
    let ghost r0 = *self; let ghost mut d = Seq::<Group>::empty(); let ghost mut tr = seq![*self]; let ghost mut sts = Seq::<Move<G, F, P>>::empty();
//@ loop 0 while
    invariant completing(*self), !P::LEO, grows(r0, *self), part_closure(r0, *self, d), r0 == *old(self), chain(r0, *self, tr, sts), *self == tr.last(),
    ensures self.complete.0@.len() == 0,
    decreases q_origin(self.complete.0@), q_load(self.grammar, self.complete.0@)
//@ loop_start 0
    let ghost r1 = *completion.recognizer; let ghost p = (completion.origin, completion.lhs_sym);
//@ loop_end 0
    proof { lemma_part(r0, r1, *self, d, p); d = d.push(p);
        let x = choose|x: Move<G, F, P>| #[trigger] did(r1, *self, x); lemma_chain_push(r0, r1, *self, tr, sts, x); tr = tr.push(*self); sts = sts.push(x);
        lemma_q_less(r1.grammar, r1.complete.0@, self.complete.0@); }
//@ exit
    proof { assert(closure_(r0, *self, d)); assert(chain(r0, *self, tr, sts)); }
//@ endfn
//@ endimpl
