// ---- completion ----
pub open spec fn has_key<N>(s: Seq<Item<N>>, k: (u32, u32)) -> bool { exists|j: int| 0 <= j < s.len() && key(#[trigger] s[j]) == k }
pub proof fn lemma_push_key<N>(a: Seq<Item<N>>, b: Seq<Item<N>>, i: Item<N>)
    requires b.to_multiset() == a.to_multiset().insert(i)
    ensures forall|k: (u32, u32)| #[trigger] has_key(b, k) == (has_key(a, k) || k == key(i))
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|k: (u32, u32)| #[trigger] has_key(b, k) == (has_key(a, k) || k == key(i)) by {
        if has_key(b, k) {
            let j = choose|j: int| 0 <= j < b.len() && key(#[trigger] b[j]) == k;
            assert(b.contains(b[j])); assert(b.to_multiset().count(b[j]) > 0);
            if b[j] != i { assert(a.to_multiset().count(b[j]) > 0); assert(a.contains(b[j])); let m = choose|m: int| 0 <= m < a.len() && a[m] == b[j]; assert(key(a[m]) == k); }
        }
        if has_key(a, k) {
            let j = choose|j: int| 0 <= j < a.len() && key(#[trigger] a[j]) == k;
            assert(a.contains(a[j])); assert(b.to_multiset().count(a[j]) > 0); assert(b.contains(a[j]));
            let m = choose|m: int| 0 <= m < b.len() && b[m] == a[j]; assert(key(b[m]) == k);
        }
        if k == key(i) { assert(b.to_multiset().count(i) > 0); assert(b.contains(i)); let m = choose|m: int| 0 <= m < b.len() && b[m] == i; assert(key(b[m]) == k); }
    }
}
/// Is the finished rule worth keeping, given the announced symbol?
pub open spec fn useful_lhs<G: Grammar>(g: G, hint: Option<Symbol>, dot: Dot) -> bool {
    hint is Some ==> (g.s_get_lhs(dot).id() >= g.s_num_syms() || g.s_lhs_lr_set(g.s_get_lhs(dot)).has((hint->0).id()))
}
pub open spec fn useful_dot<G: Grammar>(g: G, hint: Option<Symbol>, dot: Dot) -> bool {
    hint is Some ==> (g.s_rhs1_or_lhs(dot).id() >= g.s_num_syms() || g.s_lookahead_set(dot).has((hint->0).id()))
}
/// Partial matches of the set that wait for `sym` are completed.
pub open spec fn adv_medial<G: Grammar, N>(g: G, look: bool, hint: Option<Symbol>, set: Seq<Item<N>>, sym: Symbol, k: (u32, u32)) -> bool {
    exists|i: int| 0 <= i < set.len() && post(g, (#[trigger] set[i]).dot) == Some(sym) && (!look || useful_lhs(g, hint, set[i].dot)) && key(set[i]) == k
}
pub open spec fn taken<G: Grammar>(g: G, look: bool, hint: Option<Symbol>, row: BitSlice, t: PredictionTransition) -> bool {
    row.has(t.symbol.id()) && (!look || useful_dot(g, hint, t.dot))
}
/// Predicted rules that begin with `sym`.
pub open spec fn adv_pred<G: Grammar>(g: G, look: bool, hint: Option<Symbol>, row: BitSlice, set_id: u32, sym: Symbol, unary: bool, k: (u32, u32)) -> bool {
    exists|i: int| 0 <= i < g.s_completions(sym).len() && (#[trigger] g.s_completions(sym)[i]).is_unary == unary && taken(g, look, hint, row, g.s_completions(sym)[i]) && k == (set_id, g.s_completions(sym)[i].dot)
}
/// The new items for the first `n` transitions.
pub open spec fn made<G: Grammar, N>(g: G, look: bool, hint: Option<Symbol>, row: BitSlice, set_id: u32, tr: Seq<PredictionTransition>, node: N, unary: bool, n: int) -> Seq<Item<N>> decreases n {
    if n <= 0 { Seq::empty() } else {
        let s = made(g, look, hint, row, set_id, tr, node, unary, n - 1);
        if tr[n - 1].is_unary == unary && taken(g, look, hint, row, tr[n - 1]) { s.push(Item { origin: set_id, dot: tr[n - 1].dot, node }) } else { s }
    }
}
pub proof fn lemma_made<G: Grammar, N>(g: G, look: bool, hint: Option<Symbol>, row: BitSlice, set_id: u32, tr: Seq<PredictionTransition>, node: N, unary: bool, n: int, k: (u32, u32))
    requires 0 <= n <= tr.len()
    ensures has_key(made(g, look, hint, row, set_id, tr, node, unary, n), k) == exists|i: int| 0 <= i < n && (#[trigger] tr[i]).is_unary == unary && taken(g, look, hint, row, tr[i]) && k == (set_id, tr[i].dot)
    decreases n
{
    if n > 0 {
        lemma_made(g, look, hint, row, set_id, tr, node, unary, n - 1, k);
        let s = made(g, look, hint, row, set_id, tr, node, unary, n - 1); let t = made(g, look, hint, row, set_id, tr, node, unary, n);
        if has_key(s, k) { let j = choose|j: int| 0 <= j < s.len() && key(#[trigger] s[j]) == k; assert(t[j] == s[j]); }
        if has_key(t, k) {
            let j = choose|j: int| 0 <= j < t.len() && key(#[trigger] t[j]) == k;
            if j < s.len() { assert(s[j] == t[j]); } else { assert(tr[n - 1].is_unary == unary); }
        }
        if tr[n - 1].is_unary == unary && taken(g, look, hint, row, tr[n - 1]) && k == (set_id, tr[n - 1].dot) { assert(key(t[s.len() as int]) == k); }
    }
}
pub proof fn lemma_made_none<G: Grammar, N>(g: G, look: bool, hint: Option<Symbol>, row: BitSlice, set_id: u32, tr: Seq<PredictionTransition>, node: N, n: int)
    requires binary_first(tr), 0 <= n < tr.len(), !tr[n].is_unary
    ensures forall|m: int| 0 <= m <= n ==> (#[trigger] made(g, look, hint, row, set_id, tr, node, true, m)).len() == 0
{
    assert forall|m: int| 0 <= m <= n implies (#[trigger] made(g, look, hint, row, set_id, tr, node, true, m)).len() == 0 by { lemma_made_none_at(g, look, hint, row, set_id, tr, node, n, m); }
}
pub proof fn lemma_made_none_at<G: Grammar, N>(g: G, look: bool, hint: Option<Symbol>, row: BitSlice, set_id: u32, tr: Seq<PredictionTransition>, node: N, n: int, m: int)
    requires binary_first(tr), 0 <= m <= n < tr.len(), !tr[n].is_unary
    ensures made(g, look, hint, row, set_id, tr, node, true, m).len() == 0
    decreases m
{ if m > 0 { assert(!tr[m - 1].is_unary); lemma_made_none_at(g, look, hint, row, set_id, tr, node, n, m - 1); } }
pub proof fn lemma_append_key<N>(a: Seq<Item<N>>, b: Seq<Item<N>>)
    ensures forall|k: (u32, u32)| #[trigger] has_key(a + b, k) == (has_key(a, k) || has_key(b, k))
{
    assert forall|k: (u32, u32)| #[trigger] has_key(a + b, k) == (has_key(a, k) || has_key(b, k)) by {
        if has_key(a, k) { let j = choose|j: int| 0 <= j < a.len() && key(#[trigger] a[j]) == k; assert((a + b)[j] == a[j]); }
        if has_key(b, k) { let j = choose|j: int| 0 <= j < b.len() && key(#[trigger] b[j]) == k; assert((a + b)[a.len() + j] == b[j]); }
        if has_key(a + b, k) { let j = choose|j: int| 0 <= j < (a + b).len() && key(#[trigger] (a + b)[j]) == k; if j < a.len() { assert(a[j] == (a + b)[j]); } else { assert(b[j - a.len()] == (a + b)[j]); } }
    }
}
pub open spec fn adv_gen<G: Grammar>(g: G, row: BitSlice, set_id: u32, sym: Symbol, unary: bool, k: (u32, u32)) -> bool {
    let t = g.s_gen_completion(sym)[if unary { 1 } else { 0 }];
    t is Some && row.has((t->0).symbol.id()) && k == (set_id, (t->0).dot)
}
/// The items that a match of `sym` since position `set_id` gives: those that are finished (`done`) or still wait.
pub open spec fn adv<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, set_id: u32, sym: Symbol, done: bool, k: (u32, u32)) -> bool {
    let g = r.grammar; let row = r.predicted.rows()[set_id as int]; let hint = r.lookahead.next_symbol;
    if sym.id() >= g.s_num_syms() { adv_gen(g, row, set_id, sym, done, k) }
    else { row.has(sym.id()) && (done && adv_medial(g, P::LOOKAHEAD, hint, v_sets(r.medial)[set_id as int], sym, k) || adv_pred(g, P::LOOKAHEAD, hint, row, set_id, sym, done, k)) }
}
pub proof fn lemma_grow_len<N>(a: Vec2d<Item<N>>, b: Vec2d<Item<N>>)
    requires v_wf(a), v_wf(b), v_sets(a) == v_sets(b)
    ensures a.indices@.len() == b.indices@.len()
{ assert(a.indices@.len() >= 1 && b.indices@.len() >= 1); assert(v_sets(a).len() == a.indices@.len() - 1); assert(v_sets(b).len() == b.indices@.len() - 1); }
/// Only the completion queue, the set under construction and the forest may differ.
pub open spec fn grows<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>) -> bool {
    &&& a.grammar == b.grammar && a.lookahead == b.lookahead && a.predicted == b.predicted
    &&& v_wf(b.medial) && v_sets(b.medial) == v_sets(a.medial) && b.medial.indices@.len() == a.medial.indices@.len() && a.medial.indices@.len() >= 1
}
pub open spec fn ready<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, set_id: u32) -> bool {
    &&& v_wf(r.medial) && heap_ok(r.complete.0@) && set_id + 1 < r.medial.indices@.len() && lists_ok(r.grammar)
    &&& waiting(r.grammar, v_sets(r.medial)[set_id as int]) && sorted(r.grammar, v_sets(r.medial)[set_id as int])
}
// ---- what the nodes of the items are (P09) ----
/// Nothing happens to the nodes there are.
pub open spec fn keeps<F: Forest>(a: F, b: F) -> bool { forall|h: F::NodeRef| #![trigger b.node(h)] #![trigger a.node(h)] !(a.node(h) is Nothing) ==> b.node(h) == a.node(h) }
/// Nothing but new nodes.
pub open spec fn more<F: Forest>(a: F, b: F) -> bool { b.lawful() ==> a.lawful() && keeps(a, b) && (a.calm() ==> b.calm()) }
/// No two items have one key.
pub open spec fn uniq<N>(s: Seq<Item<N>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> key(#[trigger] s[i]) != key(#[trigger] s[j]) }
/// The finished item `y` is what the match `link` of `sym` makes of the partial match `i` of the set: its node joins the two.
pub open spec fn joined<G: Grammar, F: Forest>(g: G, calm: bool, f: F, set: Seq<Item<F::NodeRef>>, sym: Symbol, link: F::NodeRef, y: Item<F::NodeRef>, i: int) -> bool {
    0 <= i < set.len() && post(g, y.dot) == Some(sym) && key(set[i]) == key(y) && (calm && f.lawful() ==> f.node(y.node) == FNode::<Symbol, F::NodeRef>::Pair(set[i].node, link))
}
/// The finished item `y` comes from the match `link` of `sym` since `o`, and from the partial match `i` of that set unless the rule needs nothing else (`i` is -1).
pub open spec fn stems<G: Grammar, F: Forest>(g: G, calm: bool, f: F, set: Seq<Item<F::NodeRef>>, o: u32, sym: Symbol, link: F::NodeRef, y: Item<F::NodeRef>, i: int) -> bool {
    if i < 0 { i == -1 && post(g, y.dot) is None && y.origin == o && y.node == link } else { joined(g, calm, f, set, sym, link, y, i) }
}
/// The partial match `i` of set `o` goes on with `sym`.
pub open spec fn goes<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, o: u32, sym: Symbol, i: int) -> bool {
    let g = a.grammar; let set = v_sets(a.medial)[o as int];
    sym.id() < g.s_num_syms() && a.predicted.rows()[o as int].has(sym.id()) && 0 <= i < set.len() && post(g, set[i].dot) == Some(sym) && (!P::LOOKAHEAD || useful_lhs(g, a.lookahead.next_symbol, set[i].dot))
}
/// What a match `link` of `sym` since `o` adds: the finished items `s` (item `j` from the partial match `fr[j]`), and the waiting items `m`.
pub open spec fn gave<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, o: u32, sym: Symbol, link: F::NodeRef, s: Seq<Item<F::NodeRef>>, fr: Seq<int>, m: Seq<Item<F::NodeRef>>) -> bool {
    let set = v_sets(a.medial)[o as int];
    &&& more(a.forest, b.forest)
    &&& b.complete.0@.to_multiset() == a.complete.0@.to_multiset().add(s.to_multiset())
    &&& fr.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> stems(a.grammar, a.forest.calm(), b.forest, set, o, sym, link, #[trigger] s[j], fr[j])
    &&& lone(a.grammar) ==> forall|i: int, j: int| 0 <= i < j < s.len() ==> !(key(#[trigger] s[i]) == key(#[trigger] s[j]) && fr[i] == fr[j])
    &&& forall|i: int| #[trigger] goes(a, o, sym, i) ==> fr.contains(i)
    &&& forall|k: (u32, u32)| #[trigger] has_key(s, k) == adv(a, o, sym, true, k)
    &&& v_cur(b.medial) == v_cur(a.medial) + m
    &&& forall|j: int| 0 <= j < m.len() ==> (#[trigger] m[j]).node == link && m[j].origin == o
    &&& lone(a.grammar) ==> uniq(m)
    &&& forall|k: (u32, u32)| #[trigger] has_key(m, k) == adv(a, o, sym, false, k)
}
pub proof fn lemma_add_nothing<N>(a: Seq<Item<N>>)
    ensures a.to_multiset() == a.to_multiset().add(Seq::<Item<N>>::empty().to_multiset())
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.to_multiset() =~= a.to_multiset().add(Seq::<Item<N>>::empty().to_multiset()));
}
pub proof fn lemma_add_one<N>(a: Seq<Item<N>>, b: Seq<Item<N>>, c: Seq<Item<N>>, s: Seq<Item<N>>, i: Item<N>)
    requires b.to_multiset() == a.to_multiset().add(s.to_multiset()), c.to_multiset() == b.to_multiset().insert(i)
    ensures c.to_multiset() == a.to_multiset().add(s.push(i).to_multiset())
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(c.to_multiset() =~= a.to_multiset().add(s.push(i).to_multiset()));
}
pub proof fn lemma_add_more<N>(a: Seq<Item<N>>, b: Seq<Item<N>>, c: Seq<Item<N>>, s: Seq<Item<N>>, t: Seq<Item<N>>)
    requires b.to_multiset() == a.to_multiset().add(s.to_multiset()), c.to_multiset() == b.to_multiset().add(t.to_multiset())
    ensures c.to_multiset() == a.to_multiset().add((s + t).to_multiset())
{
    vstd::seq_lib::lemma_multiset_commutative(s, t);
    assert(c.to_multiset() =~= a.to_multiset().add((s + t).to_multiset()));
}
/// A later finished item has another key.
pub proof fn lemma_uniq_push<N>(s: Seq<Item<N>>, i: Item<N>)
    requires uniq(s), !has_key(s, key(i))
    ensures uniq(s.push(i))
{ let t = s.push(i); assert forall|x: int, y: int| 0 <= x < y < t.len() implies key(#[trigger] t[x]) != key(#[trigger] t[y]) by { assert(t[x] == s[x]); if y < s.len() { assert(t[y] == s[y]); } } }
pub proof fn lemma_made_uniq<G: Grammar, N>(g: G, look: bool, hint: Option<Symbol>, row: BitSlice, set_id: u32, b: Symbol, node: N, unary: bool, n: int)
    requires lone(g), 0 <= n <= g.s_completions(b).len()
    ensures uniq(made(g, look, hint, row, set_id, g.s_completions(b), node, unary, n))
    decreases n
{
    let tr = g.s_completions(b);
    if n > 0 {
        lemma_made_uniq(g, look, hint, row, set_id, b, node, unary, n - 1);
        let s = made(g, look, hint, row, set_id, tr, node, unary, n - 1); let i = Item { origin: set_id, dot: tr[n - 1].dot, node };
        lemma_made(g, look, hint, row, set_id, tr, node, unary, n - 1, key(i));
        if tr[n - 1].is_unary == unary && taken(g, look, hint, row, tr[n - 1]) { assert(!has_key(s, key(i))); lemma_uniq_push(s, i); }
    }
}
pub proof fn lemma_made_nodes<G: Grammar, N>(g: G, look: bool, hint: Option<Symbol>, row: BitSlice, set_id: u32, tr: Seq<PredictionTransition>, node: N, unary: bool, n: int)
    requires 0 <= n <= tr.len()
    ensures forall|j: int| 0 <= j < made(g, look, hint, row, set_id, tr, node, unary, n).len() ==> (#[trigger] made(g, look, hint, row, set_id, tr, node, unary, n)[j]).node == node && made(g, look, hint, row, set_id, tr, node, unary, n)[j].origin == set_id
    decreases n
{
    if n > 0 {
        lemma_made_nodes(g, look, hint, row, set_id, tr, node, unary, n - 1);
        let s = made(g, look, hint, row, set_id, tr, node, unary, n - 1); let t = made(g, look, hint, row, set_id, tr, node, unary, n);
        assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).node == node && t[j].origin == set_id by { if j < s.len() { assert(t[j] == s[j]); } }
    }
}
/// What is there later is the same node.
pub proof fn lemma_stems_kept<G: Grammar, F: Forest>(g: G, calm: bool, f: F, f2: F, set: Seq<Item<F::NodeRef>>, o: u32, sym: Symbol, link: F::NodeRef, y: Item<F::NodeRef>, i: int)
    requires stems(g, calm, f, set, o, sym, link, y, i), more(f, f2)
    ensures stems(g, calm, f2, set, o, sym, link, y, i)
{ }
/// What `complete_medial_items` adds.
pub open spec fn gave_medial<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, o: u32, sym: Symbol, link: F::NodeRef, s: Seq<Item<F::NodeRef>>, fr: Seq<int>) -> bool {
    let set = v_sets(a.medial)[o as int];
    &&& more(a.forest, b.forest)
    &&& b.complete.0@.to_multiset() == a.complete.0@.to_multiset().add(s.to_multiset())
    &&& fr.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> joined(a.grammar, a.forest.calm(), b.forest, set, sym, link, #[trigger] s[j], fr[j])
    &&& forall|i: int, j: int| 0 <= i < j < fr.len() ==> #[trigger] fr[i] < #[trigger] fr[j]
    &&& forall|i: int| 0 <= i < set.len() && post(a.grammar, (#[trigger] set[i]).dot) == Some(sym) && (!P::LOOKAHEAD || useful_lhs(a.grammar, a.lookahead.next_symbol, set[i].dot)) ==> fr.contains(i)
    &&& forall|k: (u32, u32)| #[trigger] has_key(s, k) == adv_medial(a.grammar, P::LOOKAHEAD, a.lookahead.next_symbol, set, sym, k)
}
/// The new item, if any, for a rule that begins with an internal symbol.
pub open spec fn gen_made<G: Grammar, N>(g: G, row: BitSlice, set_id: u32, sym: Symbol, unary: bool, node: N) -> Seq<Item<N>> {
    let t = g.s_gen_completion(sym)[if unary { 1 } else { 0 }];
    if t is Some && row.has((t->0).symbol.id()) { seq![Item { origin: set_id, dot: (t->0).dot, node }] } else { Seq::empty() }
}
pub proof fn lemma_gen_made<G: Grammar, N>(g: G, row: BitSlice, set_id: u32, sym: Symbol, unary: bool, node: N)
    ensures uniq(gen_made(g, row, set_id, sym, unary, node)), forall|k: (u32, u32)| #[trigger] has_key(gen_made(g, row, set_id, sym, unary, node), k) == adv_gen(g, row, set_id, sym, unary, k),
        forall|j: int| 0 <= j < gen_made(g, row, set_id, sym, unary, node).len() ==> (#[trigger] gen_made(g, row, set_id, sym, unary, node)[j]).node == node && gen_made(g, row, set_id, sym, unary, node)[j].origin == set_id
{
    let s = gen_made(g, row, set_id, sym, unary, node);
    assert forall|k: (u32, u32)| #[trigger] has_key(s, k) == adv_gen(g, row, set_id, sym, unary, k) by { if s.len() > 0 { assert(key(s[0]) == key(s[0])); if adv_gen(g, row, set_id, sym, unary, k) { assert(key(s[0]) == k); } } }
}
