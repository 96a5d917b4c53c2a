// ---- what is finished at a position, and from what (P09) ----
/// A finished item of the position: it comes from the match `u` of the book and, unless its rule needs nothing else, from the partial match `i`.
pub ghost struct Entry<N> { pub y: Item<N>, pub u: int, pub i: int }
/// A match of a symbol since `o`: a token (no summands) or a group of finished items (entries of the log).
pub ghost struct Done<N> { pub o: u32, pub sym: Symbol, pub node: N, pub sum: Seq<int> }
/// The book of a position: all matches, all finished items, which match each item is in (-1: still queued), the queued ones, and the match each item of the set under construction comes from.
pub ghost struct Book<N> { pub dn: Seq<Done<N>>, pub log: Seq<Entry<N>>, pub wh: Seq<int>, pub pend: Seq<int>, pub cu: Seq<int> }
pub open spec fn its<N>(log: Seq<Entry<N>>, s: Seq<int>) -> Seq<Item<N>> { Seq::new(s.len(), |j: int| log[s[j]].y) }
pub open spec fn pair_of<N>(y: Item<N>) -> (u32, N) { (y.dot, y.node) }
pub open spec fn dn_node<F: Forest>(f: F, log: Seq<Entry<F::NodeRef>>, d: Done<F::NodeRef>) -> bool {
    if d.sum.len() == 0 { f.node(d.node) is Leaf && f.node(d.node)->Leaf_0 == d.sym } else { f.node(d.node) is Sum && f.node(d.node)->Sum_0.to_multiset() == named(its(log, d.sum)).to_multiset() }
}
pub open spec fn entry_ok<G: Grammar, F: Forest>(g: G, f: F, sets: Seq<Seq<Item<F::NodeRef>>>, dn: Seq<Done<F::NodeRef>>, e: Entry<F::NodeRef>) -> bool {
    0 <= e.u < dn.len() && stems(g, true, f, sets[dn[e.u].o as int], dn[e.u].o, dn[e.u].sym, dn[e.u].node, e.y, e.i) && (e.i < 0 ==> starts(g, dn[e.u].sym, e.y.dot))
}
pub open spec fn once<N>(log: Seq<Entry<N>>) -> bool { forall|x: int, y: int| 0 <= x < y < log.len() ==> !(key((#[trigger] log[x]).y) == key((#[trigger] log[y]).y) && log[x].u == log[y].u && log[x].i == log[y].i) }
pub open spec fn placed<G: Grammar, N>(g: G, bk: Book<N>) -> bool {
    &&& bk.wh.len() == bk.log.len()
    &&& forall|v: int, z: int| 0 <= v < bk.dn.len() && 0 <= z < bk.dn[v].sum.len() ==> 0 <= #[trigger] bk.dn[v].sum[z] < bk.log.len() && bk.wh[bk.dn[v].sum[z]] == v
    &&& forall|v: int| 0 <= v < bk.dn.len() ==> (#[trigger] bk.dn[v]).sum.no_duplicates()
    &&& forall|z: int| 0 <= z < bk.pend.len() ==> 0 <= #[trigger] bk.pend[z] < bk.log.len() && bk.wh[bk.pend[z]] == -1
    &&& bk.pend.no_duplicates()
    &&& forall|x: int| 0 <= x < bk.log.len() ==> #[trigger] bk.wh[x] < bk.dn.len() && (bk.wh[x] < 0 ==> bk.pend.contains(x)) && (bk.wh[x] >= 0 ==> bk.dn[bk.wh[x]].sum.contains(x) && grp(g, key(bk.log[x].y)) == (bk.dn[bk.wh[x]].o, bk.dn[bk.wh[x]].sym))
}
/// The matches and their nodes; no two tokens are one symbol.
pub open spec fn listed<G: Grammar, F: Forest>(g: G, f: F, sets: Seq<Seq<Item<F::NodeRef>>>, bk: Book<F::NodeRef>) -> bool {
    &&& f.lawful() && once(bk.log) && placed(g, bk)
    &&& forall|v: int| 0 <= v < bk.dn.len() ==> dn_node(f, bk.log, #[trigger] bk.dn[v])
    &&& forall|v: int, w: int| 0 <= v < w < bk.dn.len() && (#[trigger] bk.dn[v]).sum.len() == 0 && (#[trigger] bk.dn[w]).sum.len() == 0 ==> bk.dn[v].sym != bk.dn[w].sym
    &&& forall|x: int| 0 <= x < bk.log.len() ==> entry_ok(g, f, sets, bk.dn, #[trigger] bk.log[x])
}
/// No two items of the set with one rule represent the same tree.
pub open spec fn set_apart<F: Forest>(f: F, s: Seq<Item<F::NodeRef>>) -> bool {
    forall|j: int, k: int, t: Tree| #![trigger ways(f, s[j].node, t), ways(f, s[k].node, t)] 0 <= j < s.len() && 0 <= k < s.len() && j != k && s[j].dot == s[k].dot && ways(f, s[j].node, t) > 0 ==> ways(f, s[k].node, t) == 0
}
pub open spec fn sets_apart<F: Forest>(f: F, sets: Seq<Seq<Item<F::NodeRef>>>) -> bool { forall|i: int| 0 <= i < sets.len() ==> set_apart(f, #[trigger] sets[i]) }
/// A tree of a sum is a tree of one of its summands.
pub proof fn lemma_n_entry<F: Forest>(f: F, log: Seq<Entry<F::NodeRef>>, d: Done<F::NodeRef>, t: Tree) -> (z: int)
    requires dn_node(f, log, d), ways(f, d.node, t) > 0, !(t is Leaf)
    ensures 0 <= z < d.sum.len(), one_ways(f, pair_of(log[d.sum[z]].y), t) > 0
{
    let x = f.node(d.node)->Sum_0; let y = named(its(log, d.sum));
    lemma_n_sum(f, x, t, x.len());
    let j = choose|j: int| 0 <= j < x.len() && one_ways(f, #[trigger] x[j], t) > 0;
    lemma_n_contains(x, y);
    assert(x.contains(x[j])); assert(y.contains(x[j]));
    let z = choose|z: int| 0 <= z < y.len() && y[z] == x[j];
    assert(y[z] == pair_of(log[d.sum[z]].y));
    z
}
/// No two matches represent the same tree.
pub proof fn lemma_n_apart<G: Grammar, F: Forest>(g: G, f: F, sets: Seq<Seq<Item<F::NodeRef>>>, bk: Book<F::NodeRef>, v: int, w: int, t: Tree)
    requires listed(g, f, sets, bk), sets_apart(f, sets), forall|v: int| 0 <= v < bk.dn.len() ==> (#[trigger] bk.dn[v]).o < sets.len(),
        0 <= v < bk.dn.len(), 0 <= w < bk.dn.len(), ways(f, bk.dn[v].node, t) > 0, ways(f, bk.dn[w].node, t) > 0
    ensures v == w
    decreases t, 1nat
{
    if t is Leaf { if v < w { assert(bk.dn[v].sum.len() == 0 && bk.dn[w].sum.len() == 0); } else if w < v { assert(bk.dn[v].sum.len() == 0 && bk.dn[w].sum.len() == 0); } }
    else {
        let a = lemma_n_entry(f, bk.log, bk.dn[v], t); let b = lemma_n_entry(f, bk.log, bk.dn[w], t);
        lemma_n_alike(g, f, sets, bk, bk.dn[v].sum[a], bk.dn[w].sum[b], t);
    }
}
pub proof fn lemma_n_alike<G: Grammar, F: Forest>(g: G, f: F, sets: Seq<Seq<Item<F::NodeRef>>>, bk: Book<F::NodeRef>, x: int, y: int, t: Tree)
    requires listed(g, f, sets, bk), sets_apart(f, sets), forall|v: int| 0 <= v < bk.dn.len() ==> (#[trigger] bk.dn[v]).o < sets.len(),
        0 <= x < bk.log.len(), 0 <= y < bk.log.len(), one_ways(f, pair_of(bk.log[x].y), t) > 0, one_ways(f, pair_of(bk.log[y].y), t) > 0
    ensures x == y
    decreases t, 0nat
{
    let e = bk.log[x]; let d = bk.log[y];
    assert(entry_ok(g, f, sets, bk.dn, e) && entry_ok(g, f, sets, bk.dn, d));
    assert(dn_node(f, bk.log, bk.dn[e.u]) && dn_node(f, bk.log, bk.dn[d.u]));
    match t {
        Tree::Leaf(_, _) => {}
        Tree::One(r, a) => { lemma_n_apart(g, f, sets, bk, e.u, d.u, *a); }
        Tree::Two(r, a, b) => {
            lemma_n_both(f, pair_of(e.y), t); lemma_n_both(f, pair_of(d.y), t);
            assert(e.i >= 0 && d.i >= 0);
            lemma_n_apart(g, f, sets, bk, e.u, d.u, *b);
            let s = sets[bk.dn[e.u].o as int]; assert(set_apart(f, s));
            assert(s[e.i].dot == s[d.i].dot) by { assert(key(s[e.i]) == key(e.y) && key(s[d.i]) == key(d.y)); }
            assert(ways(f, s[e.i].node, *a) > 0 && ways(f, s[d.i].node, *a) > 0);
            assert(e.i == d.i);
        }
    }
    if x < y { assert(!(key(bk.log[x].y) == key(bk.log[y].y) && bk.log[x].u == bk.log[y].u && bk.log[x].i == bk.log[y].i)); }
    if y < x { assert(!(key(bk.log[y].y) == key(bk.log[x].y) && bk.log[y].u == bk.log[x].u && bk.log[y].i == bk.log[x].i)); }
}
/// A summand with two parts represents what both parts do.
pub proof fn lemma_n_both<F: Forest>(f: F, x: (u32, F::NodeRef), t: Tree)
    requires t is Two, one_ways(f, x, t) > 0
    ensures f.node(x.1) is Pair, ways(f, f.node(x.1)->Pair_0, *t->Two_1) > 0, ways(f, f.node(x.1)->Pair_1, *t->Two_2) > 0, t->Two_0 == x.0,
        one_ways(f, x, t) == ways(f, f.node(x.1)->Pair_0, *t->Two_1) * ways(f, f.node(x.1)->Pair_1, *t->Two_2)
{
    let l = f.node(x.1)->Pair_0; let r = f.node(x.1)->Pair_1; let a = ways(f, l, *t->Two_1); let b = ways(f, r, *t->Two_2);
    assert(a * b > 0 ==> a > 0 && b > 0) by (nonlinear_arith) requires a >= 0, b >= 0;
}
// ---- what is told represents derivations only, each once ----
pub open spec fn set_item<G: Grammar, F: Forest>(g: G, f: F, tok: Tokens, val: Values, pos: Seq<int>, x: Item<F::NodeRef>, i: int) -> bool {
    x.origin < i && exists|b: Symbol| #[trigger] starts(g, b, x.dot) && good(g, f, tok, val, x.node, b, pos[x.origin as int], pos[i])
}
pub open spec fn sets_good<G: Grammar, F: Forest>(g: G, f: F, tok: Tokens, val: Values, pos: Seq<int>, sets: Seq<Seq<Item<F::NodeRef>>>) -> bool {
    forall|i: int, j: int| 0 <= i < sets.len() && 0 <= j < sets[i].len() ==> set_item(g, f, tok, val, pos, #[trigger] sets[i][j], i)
}
pub open spec fn dones_good<G: Grammar, F: Forest>(g: G, f: F, tok: Tokens, val: Values, pos: Seq<int>, n: int, dn: Seq<Done<F::NodeRef>>) -> bool {
    forall|v: int| 0 <= v < dn.len() ==> (#[trigger] dn[v]).o < n && good(g, f, tok, val, dn[v].node, dn[v].sym, pos[dn[v].o as int], pos.last())
}
pub proof fn lemma_n_entry_good<G: Grammar, F: Forest>(g: G, f: F, tok: Tokens, val: Values, pos: Seq<int>, sets: Seq<Seq<Item<F::NodeRef>>>, log: Seq<Entry<F::NodeRef>>, dn: Seq<Done<F::NodeRef>>, e: Entry<F::NodeRef>, t: Tree)
    requires f.lawful(), sets_good(g, f, tok, val, pos, sets), dones_good(g, f, tok, val, pos, sets.len() as int, dn), entry_ok(g, f, sets, dn, e), dn_node(f, log, dn[e.u])
    ensures there(f, e.y.node), one_ways(f, pair_of(e.y), t) <= 1, one_ways(f, pair_of(e.y), t) > 0 ==> fits(g, tok, val, t, g.s_get_lhs(e.y.dot), pos[e.y.origin as int], pos.last())
{
    let d = dn[e.u]; let x = pair_of(e.y);
    assert(good(g, f, tok, val, d.node, d.sym, pos[d.o as int], pos.last()));
    if e.i < 0 {
        match t {
            Tree::One(r, a) => { assert(ways(f, d.node, *a) <= 1); if one_ways(f, x, t) > 0 { assert(fits(g, tok, val, *a, d.sym, pos[d.o as int], pos.last())); } }
            Tree::Two(r, a, b) => { if one_ways(f, x, t) > 0 { lemma_n_both(f, x, t); } }
            _ => {}
        }
    } else {
        let s = sets[d.o as int]; let z = s[e.i];
        assert(set_item(g, f, tok, val, pos, sets[d.o as int][e.i], d.o as int));
        let c = choose|c: Symbol| #[trigger] starts(g, c, z.dot) && good(g, f, tok, val, z.node, c, pos[z.origin as int], pos[d.o as int]);
        assert(key(z) == key(e.y));
        assert(f.node(e.y.node) == FNode::<Symbol, F::NodeRef>::Pair(z.node, d.node));
        lemma_n_there(f, e.y.node);
        match t {
            Tree::Two(r, a, b) => {
                assert(ways(f, z.node, *a) <= 1 && ways(f, d.node, *b) <= 1);
                if one_ways(f, x, t) > 0 {
                    lemma_n_both(f, x, t);
                    let m = ways(f, z.node, *a); let n = ways(f, d.node, *b);
                    assert(m * n <= 1) by (nonlinear_arith) requires 0 <= m <= 1, 0 <= n <= 1;
                    assert(fits(g, tok, val, *a, c, pos[z.origin as int], pos[d.o as int])); assert(fits(g, tok, val, *b, d.sym, pos[d.o as int], pos.last()));
                }
            }
            Tree::One(r, a) => { assert(ways(f, e.y.node, *a) == 0); }
            Tree::Leaf(_, _) => {}
        }
    }
}
/// The node of a group of finished items.
pub proof fn lemma_n_group<G: Grammar, F: Forest>(g: G, f: F, tok: Tokens, val: Values, pos: Seq<int>, sets: Seq<Seq<Item<F::NodeRef>>>, bk: Book<F::NodeRef>, s: Seq<int>, o: u32, sym: Symbol, node: F::NodeRef)
    requires listed(g, f, sets, bk), sets_apart(f, sets), sets_good(g, f, tok, val, pos, sets), dones_good(g, f, tok, val, pos, sets.len() as int, bk.dn),
        forall|z: int| 0 <= z < s.len() ==> 0 <= #[trigger] s[z] < bk.log.len() && grp(g, key(bk.log[s[z]].y)) == (o, sym),
        s.no_duplicates(),
        f.node(node) is Sum, f.node(node)->Sum_0.to_multiset() == named(its(bk.log, s)).to_multiset(),
    ensures good(g, f, tok, val, node, sym, pos[o as int], pos.last())
{
    let x = f.node(node)->Sum_0; let y = named(its(bk.log, s));
    lemma_n_contains(x, y);
    assert forall|j: int, t: Tree| 0 <= j < x.len() implies there(f, (#[trigger] x[j]).1) && #[trigger] one_ways(f, x[j], t) <= 1 && (one_ways(f, x[j], t) > 0 ==> fits(g, tok, val, t, sym, pos[o as int], pos.last())) by {
        assert(x.contains(x[j])); assert(y.contains(x[j]));
        let z = choose|z: int| 0 <= z < y.len() && y[z] == x[j];
        let e = bk.log[s[z]]; assert(y[z] == pair_of(e.y));
        assert(entry_ok(g, f, sets, bk.dn, e)); assert(dn_node(f, bk.log, bk.dn[e.u]));
        lemma_n_entry_good(g, f, tok, val, pos, sets, bk.log, bk.dn, e, t);
        assert(grp(g, key(bk.log[s[z]].y)) == (o, sym));
    }
    assert forall|j: int| 0 <= j < x.len() implies there(f, (#[trigger] x[j]).1) by { assert(one_ways(f, x[j], Tree::Leaf(sym, 0)) <= 1); }
    lemma_n_there(f, node);
    assert forall|t: Tree| (#[trigger] ways(f, node, t)) <= 1 && (ways(f, node, t) > 0 ==> fits(g, tok, val, t, sym, pos[o as int], pos.last())) by {
        lemma_n_sum(f, x, t, x.len());
        let p = |c: (u32, F::NodeRef)| one_ways(f, c, t) > 0;
        assert forall|i: int, j: int| 0 <= i < j < y.len() implies !(p(#[trigger] y[i]) && p(#[trigger] y[j])) by {
            if p(y[i]) && p(y[j]) {
                assert(y[i] == pair_of(bk.log[s[i]].y)); assert(y[j] == pair_of(bk.log[s[j]].y));
                lemma_n_alike(g, f, sets, bk, s[i], s[j], t);
            }
        }
        assert(at_most_one(y, p));
        lemma_n_reordered(y, x, p);
        assert forall|i: int, j: int| 0 <= i < j < x.len() implies !(one_ways(f, #[trigger] x[i], t) > 0 && one_ways(f, #[trigger] x[j], t) > 0) by { assert(!(p(x[i]) && p(x[j]))); }
    }
}
// ---- the steps ----
pub open spec fn cur_ok<G: Grammar, N>(g: G, bk: Book<N>, cur: Seq<Item<N>>) -> bool {
    &&& bk.cu.len() == cur.len()
    &&& forall|j: int| #![trigger cur[j]] #![trigger bk.cu[j]] 0 <= j < cur.len() ==> 0 <= bk.cu[j] < bk.dn.len() && cur[j].node == bk.dn[bk.cu[j]].node && cur[j].origin == bk.dn[bk.cu[j]].o && starts(g, bk.dn[bk.cu[j]].sym, cur[j].dot)
    &&& forall|j: int, k: int| 0 <= j < k < cur.len() ==> !((#[trigger] cur[j]).dot == (#[trigger] cur[k]).dot && bk.cu[j] == bk.cu[k])
}
pub open spec fn book_at<G: Grammar, F: Forest>(g: G, f: F, tok: Tokens, val: Values, pos: Seq<int>, sets: Seq<Seq<Item<F::NodeRef>>>, cur: Seq<Item<F::NodeRef>>, heap: Seq<Item<F::NodeRef>>, bk: Book<F::NodeRef>) -> bool {
    &&& f.calm() && pos.len() == sets.len() + 1
    &&& listed(g, f, sets, bk) && sets_apart(f, sets) && sets_good(g, f, tok, val, pos, sets) && dones_good(g, f, tok, val, pos, sets.len() as int, bk.dn)
    &&& heap.to_multiset() == its(bk.log, bk.pend).to_multiset()
    &&& cur_ok(g, bk, cur)
}
pub open spec fn book_of<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, tok: Tokens, val: Values, pos: Seq<int>, bk: Book<F::NodeRef>) -> bool {
    book_at(r.grammar, r.forest, tok, val, pos, v_sets(r.medial), v_cur(r.medial), r.complete.0@, bk)
}
pub proof fn lemma_n_sets_kept<G: Grammar, F: Forest>(g: G, f: F, f2: F, tok: Tokens, val: Values, pos: Seq<int>, sets: Seq<Seq<Item<F::NodeRef>>>)
    requires keeps(f, f2), sets_apart(f, sets), sets_good(g, f, tok, val, pos, sets)
    ensures sets_apart(f2, sets), sets_good(g, f2, tok, val, pos, sets)
{
    assert forall|i: int, j: int| 0 <= i < sets.len() && 0 <= j < sets[i].len() implies set_item(g, f2, tok, val, pos, #[trigger] sets[i][j], i) by {
        let x = sets[i][j]; assert(set_item(g, f, tok, val, pos, x, i));
        let b = choose|b: Symbol| #[trigger] starts(g, b, x.dot) && good(g, f, tok, val, x.node, b, pos[x.origin as int], pos[i]);
        lemma_n_good_kept(g, f, f2, tok, val, x.node, b, pos[x.origin as int], pos[i]);
    }
    assert forall|i: int| 0 <= i < sets.len() implies set_apart(f2, #[trigger] sets[i]) by {
        let s = sets[i]; assert(set_apart(f, s));
        assert forall|j: int, k: int, t: Tree| #![trigger ways(f2, s[j].node, t), ways(f2, s[k].node, t)] 0 <= j < s.len() && 0 <= k < s.len() && j != k && s[j].dot == s[k].dot && ways(f2, s[j].node, t) > 0 implies ways(f2, s[k].node, t) == 0 by {
            assert(set_item(g, f, tok, val, pos, sets[i][j], i)); assert(set_item(g, f, tok, val, pos, sets[i][k], i));
            lemma_n_ways_kept(f, f2, s[j].node, t); lemma_n_ways_kept(f, f2, s[k].node, t);
        }
    }
}
pub proof fn lemma_n_book_kept<G: Grammar, F: Forest>(g: G, f: F, f2: F, tok: Tokens, val: Values, pos: Seq<int>, sets: Seq<Seq<Item<F::NodeRef>>>, cur: Seq<Item<F::NodeRef>>, heap: Seq<Item<F::NodeRef>>, bk: Book<F::NodeRef>)
    requires book_at(g, f, tok, val, pos, sets, cur, heap, bk), keeps(f, f2), f2.lawful(), f2.calm()
    ensures book_at(g, f2, tok, val, pos, sets, cur, heap, bk)
{
    lemma_n_sets_kept(g, f, f2, tok, val, pos, sets);
    assert forall|v: int| 0 <= v < bk.dn.len() implies (#[trigger] bk.dn[v]).o < sets.len() && good(g, f2, tok, val, bk.dn[v].node, bk.dn[v].sym, pos[bk.dn[v].o as int], pos.last()) by {
        lemma_n_good_kept(g, f, f2, tok, val, bk.dn[v].node, bk.dn[v].sym, pos[bk.dn[v].o as int], pos.last());
    }
    assert forall|v: int| 0 <= v < bk.dn.len() implies dn_node(f2, bk.log, #[trigger] bk.dn[v]) by { assert(dn_node(f, bk.log, bk.dn[v])); }
    assert forall|x: int| 0 <= x < bk.log.len() implies entry_ok(g, f2, sets, bk.dn, #[trigger] bk.log[x]) by { assert(entry_ok(g, f, sets, bk.dn, bk.log[x])); }
}
/// What leaves the queue, and what stays.
pub proof fn lemma_n_split<N>(log: Seq<Entry<N>>, pend: Seq<int>, heap: vstd::multiset::Multiset<Item<N>>, pop: Seq<Item<N>>) -> (r: (Seq<int>, Seq<int>))
    requires its(log, pend).to_multiset() == heap.add(pop.to_multiset()), pend.no_duplicates()
    ensures its(log, r.0) == pop, its(log, r.1).to_multiset() == heap, r.0.no_duplicates(), r.1.no_duplicates(),
        forall|x: int| #![trigger pend.contains(x)] pend.contains(x) == (r.0.contains(x) || r.1.contains(x)), forall|x: int| #[trigger] r.0.contains(x) ==> !r.1.contains(x)
    decreases pop.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if pop.len() == 0 {
        assert(heap.add(pop.to_multiset()) =~= heap); assert(its(log, Seq::<int>::empty()) =~= pop);
        (Seq::empty(), pend)
    } else {
        let x = pop.last(); let pop1 = pop.drop_last();
        assert(pop =~= pop1.push(x));
        assert(heap.add(pop.to_multiset()) =~= heap.insert(x).add(pop1.to_multiset()));
        let (t, r) = lemma_n_split(log, pend, heap.insert(x), pop1);
        let y = its(log, r);
        assert(y.to_multiset().count(x) > 0); assert(y.contains(x));
        let j = choose|j: int| 0 <= j < y.len() && y[j] == x;
        let t2 = t.push(r[j]); let r2 = r.remove(j);
        assert(its(log, r2) =~= y.remove(j)); assert(y.remove(j).to_multiset() =~= heap);
        assert(its(log, t2) =~= pop);
        assert(r.contains(r[j]));
        assert forall|z: int| r.contains(z) == (z == r[j] || #[trigger] r2.contains(z)) by {
            if r.contains(z) { let i = choose|i: int| 0 <= i < r.len() && r[i] == z; if i < j { assert(r2[i] == z); } else if i > j { assert(r2[i - 1] == z); } }
            if r2.contains(z) { let i = choose|i: int| 0 <= i < r2.len() && r2[i] == z; assert(r[if i < j { i } else { i + 1 }] == z); }
        }
        assert(!r2.contains(r[j])) by { if r2.contains(r[j]) { let i = choose|i: int| 0 <= i < r2.len() && r2[i] == r[j]; assert(r[if i < j { i } else { i + 1 }] == r[j]); } }
        assert forall|z: int| t2.contains(z) == (z == r[j] || #[trigger] t.contains(z)) by {
            if t.contains(z) { let i = choose|i: int| 0 <= i < t.len() && t[i] == z; assert(t2[i] == z); } if z == r[j] { assert(t2[t.len() as int] == z); }
            if t2.contains(z) && z != r[j] { let i = choose|i: int| 0 <= i < t2.len() && t2[i] == z; assert(t[i] == z); }
        }
        assert forall|z: int| #![trigger pend.contains(z)] pend.contains(z) == (t2.contains(z) || r2.contains(z)) by { assert(r.contains(z) == (z == r[j] || r2.contains(z))); assert(t2.contains(z) == (z == r[j] || t.contains(z))); }
        assert forall|z: int| #[trigger] t2.contains(z) implies !r2.contains(z) by { assert(r.contains(z) == (z == r[j] || r2.contains(z))); assert(t2.contains(z) == (z == r[j] || t.contains(z))); }
        assert(t2.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < t2.len() && 0 <= b < t2.len() && a != b implies t2[a] != t2[b] by { if a < t.len() { assert(t.contains(t[a])); } if b < t.len() { assert(t.contains(t[b])); } } }
        (t2, r2)
    }
}
pub open spec fn with_token<N>(bk: Book<N>, o: u32, sym: Symbol, node: N) -> Book<N> { Book { dn: bk.dn.push(Done { o, sym, node, sum: Seq::empty() }), log: bk.log, wh: bk.wh, pend: bk.pend, cu: bk.cu } }
pub proof fn lemma_n_token<G: Grammar, F: Forest>(g: G, f: F, tok: Tokens, val: Values, pos: Seq<int>, sets: Seq<Seq<Item<F::NodeRef>>>, cur: Seq<Item<F::NodeRef>>, heap: Seq<Item<F::NodeRef>>, bk: Book<F::NodeRef>, o: u32, sym: Symbol, value: u32, node: F::NodeRef)
    requires book_at(g, f, tok, val, pos, sets, cur, heap, bk), f.node(node) == FNode::<Symbol, F::NodeRef>::Leaf(sym, value), o == pos.len() - 2, pos[o as int] + 1 == pos.last(), tok(pos[o as int], sym), value == val(pos[o as int], sym),
        forall|v: int| 0 <= v < bk.dn.len() && (#[trigger] bk.dn[v]).sum.len() == 0 ==> bk.dn[v].sym != sym,
    ensures book_at(g, f, tok, val, pos, sets, cur, heap, with_token(bk, o, sym, node))
{
    let b2 = with_token(bk, o, sym, node); let n = bk.dn.len();
    lemma_n_there(f, node);
    assert forall|t: Tree| (#[trigger] ways(f, node, t)) <= 1 && (ways(f, node, t) > 0 ==> fits(g, tok, val, t, sym, pos[o as int], pos.last())) by { }
    assert(good(g, f, tok, val, node, sym, pos[o as int], pos.last()));
    assert forall|v: int| 0 <= v < b2.dn.len() implies (#[trigger] b2.dn[v]).o < sets.len() && good(g, f, tok, val, b2.dn[v].node, b2.dn[v].sym, pos[b2.dn[v].o as int], pos.last()) by { if v < n { assert(b2.dn[v] == bk.dn[v]); } }
    assert forall|v: int| 0 <= v < b2.dn.len() implies dn_node(f, b2.log, #[trigger] b2.dn[v]) && b2.dn[v].sum.no_duplicates() by { if v < n { assert(b2.dn[v] == bk.dn[v]); assert(dn_node(f, bk.log, bk.dn[v])); } }
    assert forall|v: int, w: int| 0 <= v < w < b2.dn.len() && (#[trigger] b2.dn[v]).sum.len() == 0 && (#[trigger] b2.dn[w]).sum.len() == 0 implies b2.dn[v].sym != b2.dn[w].sym by { assert(b2.dn[v] == bk.dn[v]); if w < n { assert(b2.dn[w] == bk.dn[w]); } }
    assert forall|x: int| 0 <= x < b2.log.len() implies entry_ok(g, f, sets, b2.dn, #[trigger] b2.log[x]) by { assert(entry_ok(g, f, sets, bk.dn, bk.log[x])); }
    assert forall|v: int, z: int| 0 <= v < b2.dn.len() && 0 <= z < b2.dn[v].sum.len() implies 0 <= #[trigger] b2.dn[v].sum[z] < b2.log.len() && b2.wh[b2.dn[v].sum[z]] == v by { assert(v < n); assert(bk.dn[v].sum[z] == b2.dn[v].sum[z]); }
    assert forall|x: int| 0 <= x < b2.log.len() implies #[trigger] b2.wh[x] < b2.dn.len() && (b2.wh[x] < 0 ==> b2.pend.contains(x)) && (b2.wh[x] >= 0 ==> b2.dn[b2.wh[x]].sum.contains(x) && grp(g, key(b2.log[x].y)) == (b2.dn[b2.wh[x]].o, b2.dn[b2.wh[x]].sym)) by { assert(bk.wh[x] < n); }
    assert forall|j: int| #![trigger cur[j]] #![trigger b2.cu[j]] 0 <= j < cur.len() implies 0 <= b2.cu[j] < b2.dn.len() && cur[j].node == b2.dn[b2.cu[j]].node && cur[j].origin == b2.dn[b2.cu[j]].o && starts(g, b2.dn[b2.cu[j]].sym, cur[j].dot) by { assert(0 <= bk.cu[j] < n); }
}
pub open spec fn with_group<N>(bk: Book<N>, o: u32, sym: Symbol, node: N, t: Seq<int>, r: Seq<int>) -> Book<N> {
    Book { dn: bk.dn.push(Done { o, sym, node, sum: t }), log: bk.log, wh: Seq::new(bk.log.len(), |x: int| if t.contains(x) { bk.dn.len() as int } else { bk.wh[x] }), pend: r, cu: bk.cu }
}
pub proof fn lemma_n_make_group<G: Grammar, F: Forest>(g: G, f: F, tok: Tokens, val: Values, pos: Seq<int>, sets: Seq<Seq<Item<F::NodeRef>>>, cur: Seq<Item<F::NodeRef>>, heap: Seq<Item<F::NodeRef>>, heap2: Seq<Item<F::NodeRef>>, bk: Book<F::NodeRef>, o: u32, sym: Symbol, pop: Seq<Item<F::NodeRef>>, node: F::NodeRef) -> (b2: Book<F::NodeRef>)
    requires book_at(g, f, tok, val, pos, sets, cur, heap, bk), pop.len() > 0, heap.to_multiset() == heap2.to_multiset().add(pop.to_multiset()),
        forall|j: int| 0 <= j < pop.len() ==> grp(g, key(#[trigger] pop[j])) == (o, sym),
        f.node(node) is Sum, f.node(node)->Sum_0.to_multiset() == named(pop).to_multiset(),
    ensures book_at(g, f, tok, val, pos, sets, cur, heap2, b2), o < sets.len(), b2.log == bk.log, b2.cu == bk.cu, exists|t: Seq<int>| b2.dn == bk.dn.push(Done { o, sym, node, sum: t }) && t.len() > 0,
{
    let n = bk.dn.len() as int;
    let (t, r) = lemma_n_split(bk.log, bk.pend, heap2.to_multiset(), pop);
    let b2 = with_group(bk, o, sym, node, t, r);
    assert(t.len() == pop.len());
    assert forall|z: int| 0 <= z < t.len() implies 0 <= #[trigger] t[z] < bk.log.len() && bk.wh[t[z]] == -1 && grp(g, key(bk.log[t[z]].y)) == (o, sym) by {
        assert(t.contains(t[z])); assert(bk.pend.contains(t[z])); let i = choose|i: int| 0 <= i < bk.pend.len() && bk.pend[i] == t[z];
        assert(0 <= bk.pend[i] < bk.log.len()); assert(its(bk.log, t)[z] == pop[z]);
    }
    assert(o < sets.len()) by {
        let e = bk.log[t[0]]; assert(entry_ok(g, f, sets, bk.dn, e)); let d = bk.dn[e.u]; assert(d.o < sets.len());
        assert(grp(g, key(bk.log[t[0]].y)) == (o, sym));
        if e.i >= 0 { assert(set_item(g, f, tok, val, pos, sets[d.o as int][e.i], d.o as int)); assert(key(sets[d.o as int][e.i]) == key(e.y)); }
    }
    lemma_n_group(g, f, tok, val, pos, sets, bk, t, o, sym, node);
    assert forall|v: int| 0 <= v < b2.dn.len() implies (#[trigger] b2.dn[v]).o < sets.len() && good(g, f, tok, val, b2.dn[v].node, b2.dn[v].sym, pos[b2.dn[v].o as int], pos.last()) by { if v < n { assert(b2.dn[v] == bk.dn[v]); } }
    assert forall|v: int| 0 <= v < b2.dn.len() implies dn_node(f, b2.log, #[trigger] b2.dn[v]) && b2.dn[v].sum.no_duplicates() by { if v < n { assert(b2.dn[v] == bk.dn[v]); assert(dn_node(f, bk.log, bk.dn[v])); } }
    assert forall|v: int, w: int| 0 <= v < w < b2.dn.len() && (#[trigger] b2.dn[v]).sum.len() == 0 && (#[trigger] b2.dn[w]).sum.len() == 0 implies b2.dn[v].sym != b2.dn[w].sym by { assert(b2.dn[v] == bk.dn[v]); if w < n { assert(b2.dn[w] == bk.dn[w]); } }
    assert forall|x: int| 0 <= x < b2.log.len() implies entry_ok(g, f, sets, b2.dn, #[trigger] b2.log[x]) by { assert(entry_ok(g, f, sets, bk.dn, bk.log[x])); }
    assert forall|v: int, z: int| 0 <= v < b2.dn.len() && 0 <= z < b2.dn[v].sum.len() implies 0 <= #[trigger] b2.dn[v].sum[z] < b2.log.len() && b2.wh[b2.dn[v].sum[z]] == v by {
        let x = b2.dn[v].sum[z];
        if v < n { assert(bk.dn[v].sum[z] == x); assert(bk.wh[x] == v); if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(bk.wh[t[i]] == -1); } } else { assert(t[z] == x); assert(t.contains(x)); }
    }
    assert forall|z: int| 0 <= z < b2.pend.len() implies 0 <= #[trigger] b2.pend[z] < b2.log.len() && b2.wh[b2.pend[z]] == -1 by {
        let x = r[z]; assert(r.contains(x)); assert(bk.pend.contains(x)); let i = choose|i: int| 0 <= i < bk.pend.len() && bk.pend[i] == x; assert(0 <= bk.pend[i] < bk.log.len()); assert(!t.contains(x));
    }
    assert forall|x: int| 0 <= x < b2.log.len() implies #[trigger] b2.wh[x] < b2.dn.len() && (b2.wh[x] < 0 ==> b2.pend.contains(x)) && (b2.wh[x] >= 0 ==> b2.dn[b2.wh[x]].sum.contains(x) && grp(g, key(b2.log[x].y)) == (b2.dn[b2.wh[x]].o, b2.dn[b2.wh[x]].sym)) by {
        assert(bk.wh[x] < n);
        if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(grp(g, key(bk.log[t[i]].y)) == (o, sym)); } else if bk.wh[x] < 0 { assert(bk.pend.contains(x)); }
    }
    assert forall|j: int| #![trigger cur[j]] #![trigger b2.cu[j]] 0 <= j < cur.len() implies 0 <= b2.cu[j] < b2.dn.len() && cur[j].node == b2.dn[b2.cu[j]].node && cur[j].origin == b2.dn[b2.cu[j]].o && starts(g, b2.dn[b2.cu[j]].sym, cur[j].dot) by { assert(0 <= bk.cu[j] < n); }
    assert(b2.dn == bk.dn.push(Done { o, sym, node, sum: t }));
    b2
}
pub proof fn lemma_n_adv_starts<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, o: u32, sym: Symbol, done: bool, k: (u32, u32))
    requires lists_ok(a.grammar), adv(a, o, sym, done, k), done ==> post(a.grammar, k.1) is None
    ensures starts(a.grammar, sym, k.1), k.0 == o
{
    let g = a.grammar; let row = a.predicted.rows()[o as int]; let hint = a.lookahead.next_symbol; let set = v_sets(a.medial)[o as int];
    if sym.id() >= g.s_num_syms() {
        let t = g.s_gen_completion(sym)[if done { 1 } else { 0 }]->0;
        assert(g.s_gen_completion(sym).len() == 2); assert(starts_in(g, sym, t.dot, t.symbol));
    } else {
        assert(!(done && adv_medial(g, P::LOOKAHEAD, hint, set, sym, k)));
        let i = choose|i: int| 0 <= i < g.s_completions(sym).len() && (#[trigger] g.s_completions(sym)[i]).is_unary == done && taken(g, P::LOOKAHEAD, hint, row, g.s_completions(sym)[i]) && k == (o, g.s_completions(sym)[i].dot);
        assert(starts_in(g, sym, k.1, g.s_completions(sym)[i].symbol));
    }
}
pub open spec fn with_more<N>(bk: Book<N>, s: Seq<Item<N>>, fr: Seq<int>, m: int) -> Book<N> {
    let u = bk.dn.len() - 1; let n = bk.log.len();
    Book { dn: bk.dn, log: bk.log + Seq::new(s.len(), |j: int| Entry { y: s[j], u, i: fr[j] }), wh: bk.wh + Seq::new(s.len(), |j: int| -1int), pend: bk.pend + Seq::new(s.len(), |j: int| n + j), cu: bk.cu + Seq::new(m as nat, |j: int| u) }
}
/// The newest match is not the cause of anything yet.
pub open spec fn fresh<N>(bk: Book<N>) -> bool {
    bk.dn.len() > 0 && (forall|x: int| 0 <= x < bk.log.len() ==> (#[trigger] bk.log[x]).u < bk.dn.len() - 1) && (forall|j: int| 0 <= j < bk.cu.len() ==> #[trigger] bk.cu[j] < bk.dn.len() - 1)
}
pub proof fn lemma_n_gave<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, val: Values, pos: Seq<int>, bk: Book<F::NodeRef>, o: u32, sym: Symbol, link: F::NodeRef, s: Seq<Item<F::NodeRef>>, fr: Seq<int>, m: Seq<Item<F::NodeRef>>)
    requires book_of(a, tok, val, pos, bk), gave(a, b, o, sym, link, s, fr, m), lists_ok(a.grammar), lone(a.grammar), b.forest.lawful(), b.grammar == a.grammar, v_sets(b.medial) == v_sets(a.medial), fresh(bk),
        bk.dn.last().o == o, bk.dn.last().sym == sym, bk.dn.last().node == link,
    ensures book_of(b, tok, val, pos, with_more(bk, s, fr, m.len() as int))
{
    hide(adv);
    let g = a.grammar; let f = b.forest; let sets = v_sets(a.medial); let cur = v_cur(a.medial); let cur2 = v_cur(b.medial); let heap2 = b.complete.0@;
    let b2 = with_more(bk, s, fr, m.len() as int); let n = bk.log.len() as int; let u = bk.dn.len() - 1;
    lemma_n_book_kept(g, a.forest, f, tok, val, pos, sets, cur, a.complete.0@, bk);
    assert forall|x: int| 0 <= x < b2.log.len() implies entry_ok(g, f, sets, b2.dn, #[trigger] b2.log[x]) by {
        if x < n { assert(b2.log[x] == bk.log[x]); assert(entry_ok(g, f, sets, bk.dn, bk.log[x])); }
        else {
            let j = x - n; assert(b2.log[x] == Entry { y: s[j], u, i: fr[j] });
            assert(stems(g, true, f, sets[o as int], o, sym, link, s[j], fr[j]));
            if fr[j] < 0 { assert(has_key(s, key(s[j]))); lemma_n_adv_starts(a, o, sym, true, key(s[j])); }
        }
    }
    assert forall|x: int, y: int| 0 <= x < y < b2.log.len() implies !(key((#[trigger] b2.log[x]).y) == key((#[trigger] b2.log[y]).y) && b2.log[x].u == b2.log[y].u && b2.log[x].i == b2.log[y].i) by {
        if x < n { assert(b2.log[x] == bk.log[x]); if y < n { assert(b2.log[y] == bk.log[y]); } } else { assert(key(s[x - n]) == key(b2.log[x].y) && key(s[y - n]) == key(b2.log[y].y)); }
    }
    assert forall|v: int| 0 <= v < b2.dn.len() implies dn_node(f, b2.log, #[trigger] b2.dn[v]) by {
        let d = bk.dn[v]; assert(dn_node(f, bk.log, d));
        assert(its(b2.log, d.sum) =~= its(bk.log, d.sum)) by { assert forall|z: int| 0 <= z < d.sum.len() implies b2.log[d.sum[z]] == bk.log[d.sum[z]] by { assert(0 <= bk.dn[v].sum[z] < n); } }
    }
    // places
    assert forall|v: int, z: int| 0 <= v < b2.dn.len() && 0 <= z < b2.dn[v].sum.len() implies 0 <= #[trigger] b2.dn[v].sum[z] < b2.log.len() && b2.wh[b2.dn[v].sum[z]] == v by { assert(0 <= bk.dn[v].sum[z] < n && bk.wh[bk.dn[v].sum[z]] == v); }
    assert forall|z: int| 0 <= z < b2.pend.len() implies 0 <= #[trigger] b2.pend[z] < b2.log.len() && b2.wh[b2.pend[z]] == -1 by { if z < bk.pend.len() { assert(0 <= bk.pend[z] < n && bk.wh[bk.pend[z]] == -1); } }
    assert forall|z: int, y: int| 0 <= z < b2.pend.len() && 0 <= y < b2.pend.len() && z != y implies b2.pend[z] != b2.pend[y] by { if z < bk.pend.len() { assert(0 <= bk.pend[z] < n); } if y < bk.pend.len() { assert(0 <= bk.pend[y] < n); } }
    assert forall|x: int| 0 <= x < b2.log.len() implies #[trigger] b2.wh[x] < b2.dn.len() && (b2.wh[x] < 0 ==> b2.pend.contains(x)) && (b2.wh[x] >= 0 ==> b2.dn[b2.wh[x]].sum.contains(x) && grp(g, key(b2.log[x].y)) == (b2.dn[b2.wh[x]].o, b2.dn[b2.wh[x]].sym)) by {
        if x < n {
            assert(b2.log[x] == bk.log[x] && b2.wh[x] == bk.wh[x]); assert(bk.wh[x] < bk.dn.len());
            if bk.wh[x] < 0 { let i = choose|i: int| 0 <= i < bk.pend.len() && bk.pend[i] == x; assert(b2.pend[i] == x); }
        } else { assert(b2.pend[bk.pend.len() + x - n] == x); }
    }
    assert(placed(g, b2)) by { assert(b2.pend.no_duplicates()); }
    // the queue
    assert(heap2.to_multiset() == its(b2.log, b2.pend).to_multiset()) by {
        assert(its(b2.log, b2.pend) =~= its(bk.log, bk.pend) + s) by {
            assert forall|z: int| 0 <= z < b2.pend.len() implies b2.log[b2.pend[z]].y == (its(bk.log, bk.pend) + s)[z] by { if z < bk.pend.len() { assert(0 <= bk.pend[z] < n); assert(b2.pend[z] == bk.pend[z]); assert(b2.log[b2.pend[z]] == bk.log[bk.pend[z]]); } else { assert(b2.pend[z] == n + (z - bk.pend.len())); } }
        }
        vstd::seq_lib::lemma_multiset_commutative(its(bk.log, bk.pend), s);
    }
    // the set under construction
    assert forall|j: int| #![trigger cur2[j]] #![trigger b2.cu[j]] 0 <= j < cur2.len() implies 0 <= b2.cu[j] < b2.dn.len() && cur2[j].node == b2.dn[b2.cu[j]].node && cur2[j].origin == b2.dn[b2.cu[j]].o && starts(g, b2.dn[b2.cu[j]].sym, cur2[j].dot) by {
        if j < cur.len() { assert(b2.cu[j] == bk.cu[j] && cur2[j] == cur[j]); }
        else { let i = j - cur.len(); assert(cur2[j] == m[i]); assert(b2.cu[j] == u); assert(has_key(m, key(m[i]))); lemma_n_adv_starts(a, o, sym, false, key(m[i])); }
    }
    assert forall|j: int, k: int| 0 <= j < k < cur2.len() implies !((#[trigger] cur2[j]).dot == (#[trigger] cur2[k]).dot && b2.cu[j] == b2.cu[k]) by {
        if j < cur.len() { assert(b2.cu[j] == bk.cu[j] && cur2[j] == cur[j]); if k < cur.len() { assert(b2.cu[k] == bk.cu[k] && cur2[k] == cur[k]); } else { assert(b2.cu[k] == u); } }
        else { let x = j - cur.len(); let y = k - cur.len(); assert(cur2[j] == m[x] && cur2[k] == m[y]); assert(m[x].origin == o && m[y].origin == o); }
    }
}
/// Everything that the first `n` matches complete is in the book.
pub open spec fn counts_all<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, cur: Seq<Item<F::NodeRef>>, bk: Book<F::NodeRef>, n: int) -> bool {
    let g = a0.grammar;
    &&& forall|u: int, k: (u32, u32)| #![trigger adv(a0, bk.dn[u].o, bk.dn[u].sym, true, k)] 0 <= u < n && adv(a0, bk.dn[u].o, bk.dn[u].sym, true, k) && post(g, k.1) is None ==> exists|x: int| 0 <= x < bk.log.len() && (#[trigger] bk.log[x]).u == u && key(bk.log[x].y) == k && bk.log[x].i < 0
    &&& forall|u: int, i: int| #![trigger goes(a0, bk.dn[u].o, bk.dn[u].sym, i)] 0 <= u < n && goes(a0, bk.dn[u].o, bk.dn[u].sym, i) ==> exists|x: int| 0 <= x < bk.log.len() && (#[trigger] bk.log[x]).u == u && bk.log[x].i == i
    &&& forall|u: int, k: (u32, u32)| #![trigger adv(a0, bk.dn[u].o, bk.dn[u].sym, false, k)] 0 <= u < n && adv(a0, bk.dn[u].o, bk.dn[u].sym, false, k) ==> exists|j: int| 0 <= j < cur.len() && key(#[trigger] cur[j]) == k && bk.cu[j] == u
}
pub proof fn lemma_n_covers<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, bk: Book<F::NodeRef>, o: u32, sym: Symbol, link: F::NodeRef, s: Seq<Item<F::NodeRef>>, fr: Seq<int>, m: Seq<Item<F::NodeRef>>)
    requires counts_all(a0, v_cur(a.medial), bk, bk.dn.len() - 1), bk.dn.len() > 0, grows(a0, a), gave(a, b, o, sym, link, s, fr, m), bk.dn.last().o == o, bk.dn.last().sym == sym, bk.cu.len() == v_cur(a.medial).len()
    ensures counts_all(a0, v_cur(b.medial), with_more(bk, s, fr, m.len() as int), bk.dn.len() as int)
{
    hide(adv);
    let g = a0.grammar; let cur = v_cur(a.medial); let cur2 = v_cur(b.medial); let b2 = with_more(bk, s, fr, m.len() as int); let n = bk.log.len() as int; let w = bk.dn.len() - 1;
    assert forall|x: int| 0 <= x < n implies b2.log[x] == #[trigger] bk.log[x] by {}
    assert forall|j: int| 0 <= j < s.len() implies b2.log[n + j] == (Entry { y: #[trigger] s[j], u: w, i: fr[j] }) by {}
    assert forall|u: int, k: (u32, u32)| #![trigger adv(a0, b2.dn[u].o, b2.dn[u].sym, true, k)] 0 <= u < w + 1 && adv(a0, b2.dn[u].o, b2.dn[u].sym, true, k) && post(g, k.1) is None implies exists|x: int| 0 <= x < b2.log.len() && (#[trigger] b2.log[x]).u == u && key(b2.log[x].y) == k && b2.log[x].i < 0 by {
        if u < w { let x = choose|x: int| 0 <= x < bk.log.len() && (#[trigger] bk.log[x]).u == u && key(bk.log[x].y) == k && bk.log[x].i < 0; assert(b2.log[x] == bk.log[x]); }
        else {
            lemma_adv_same(a0, a, o, sym, true, k); assert(has_key(s, k)); let j = choose|j: int| 0 <= j < s.len() && key(#[trigger] s[j]) == k;
            assert(stems(a.grammar, a.forest.calm(), b.forest, v_sets(a.medial)[o as int], o, sym, link, s[j], fr[j]));
            assert(b2.log[n + j].u == w);
        }
    }
    assert forall|u: int, i: int| #![trigger goes(a0, b2.dn[u].o, b2.dn[u].sym, i)] 0 <= u < w + 1 && goes(a0, b2.dn[u].o, b2.dn[u].sym, i) implies exists|x: int| 0 <= x < b2.log.len() && (#[trigger] b2.log[x]).u == u && b2.log[x].i == i by {
        if u < w { let x = choose|x: int| 0 <= x < bk.log.len() && (#[trigger] bk.log[x]).u == u && bk.log[x].i == i; assert(b2.log[x] == bk.log[x]); }
        else { assert(goes(a, o, sym, i)); assert(fr.contains(i)); let j = choose|j: int| 0 <= j < fr.len() && fr[j] == i; let z = s[j]; assert(b2.log[n + j].u == w); }
    }
    assert forall|u: int, k: (u32, u32)| #![trigger adv(a0, b2.dn[u].o, b2.dn[u].sym, false, k)] 0 <= u < w + 1 && adv(a0, b2.dn[u].o, b2.dn[u].sym, false, k) implies exists|j: int| 0 <= j < cur2.len() && key(#[trigger] cur2[j]) == k && b2.cu[j] == u by {
        if u < w { let j = choose|j: int| 0 <= j < cur.len() && key(#[trigger] cur[j]) == k && bk.cu[j] == u; assert(cur2[j] == cur[j] && b2.cu[j] == bk.cu[j]); }
        else { lemma_adv_same(a0, a, o, sym, false, k); assert(has_key(m, k)); let i = choose|i: int| 0 <= i < m.len() && key(#[trigger] m[i]) == k; let j = cur.len() + i; assert(cur2[j] == m[i]); assert(b2.cu[j] == w); }
    }
}
// ---- the reported node is the only one of its kind ----
/// ... and `b` is not itself read.
pub open spec fn topped_for<G: Grammar>(g: G, tok: Tokens, b: Symbol, s: Symbol) -> bool { topped(g, b, s) && forall|i: int| !#[trigger] tok(i, b) }
pub open spec fn is_top<N>(d: Done<N>, b: Symbol) -> bool { d.sum.len() > 0 && d.o == 0 && d.sym == b }
/// Once `b` is matched from the beginning, nothing of the kind comes again.
pub open spec fn one_top<G: Grammar, N>(g: G, b: Symbol, bk: Book<N>, heap: Seq<Item<N>>) -> bool {
    forall|v: int| 0 <= v < bk.dn.len() && is_top(#[trigger] bk.dn[v], b) ==> (forall|w: int| 0 <= w < bk.dn.len() && is_top(#[trigger] bk.dn[w], b) ==> v == w) && (forall|k: int| 0 <= k < heap.len() ==> (#[trigger] heap[k]).origin == 0 && g.s_get_lhs(heap[k].dot) != b)
}
pub open spec fn one_tops<G: Grammar, N>(g: G, bk: Book<N>, heap: Seq<Item<N>>) -> bool { forall|b: Symbol, s: Symbol| #[trigger] topped(g, b, s) ==> one_top(g, b, bk, heap) }
pub proof fn lemma_n_top_did<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, val: Values, pos: Seq<int>, bk: Book<F::NodeRef>, b2: Book<F::NodeRef>, x: Move<G, F, P>, tb: Symbol, ts: Symbol)
    requires book_of(a, tok, val, pos, bk), did(a, b, x), one_top(a.grammar, tb, bk, a.complete.0@), topped(a.grammar, tb, ts), completing(a), lists_ok(a.grammar),
        b2.dn.len() == bk.dn.len() + 1, forall|v: int| 0 <= v < bk.dn.len() ==> b2.dn[v] == #[trigger] bk.dn[v], ({ let p = grp(a.grammar, key(a.complete.0@[0])); b2.dn.last().o == p.0 && b2.dn.last().sym == p.1 }),
    ensures one_top(a.grammar, tb, b2, b.complete.0@)
{
    hide(adv); hide(lists_ok); hide(acyclic);
    let g = a.grammar; let ha = a.complete.0@; let hc = x.c.complete.0@; let hb = b.complete.0@; let p = grp(g, key(ha[0])); let n = bk.dn.len() as int; let w = b2.dn.len() - 1; let s0 = v_sets(a.medial)[0];
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(sets_good(g, a.forest, tok, val, pos, v_sets(a.medial)));
    let old = exists|v: int| 0 <= v < n && is_top(#[trigger] bk.dn[v], tb);
    let new = p.0 == 0 && p.1 == tb;
    // what stays queued was queued
    assert forall|k: int| 0 <= k < hc.len() implies #[trigger] ha.contains(hc[k]) && exists|j: int| 0 <= j < ha.len() && #[trigger] ha[j] == hc[k] by { assert(hc.contains(hc[k])); assert(hc.to_multiset().count(hc[k]) > 0); assert(ha.to_multiset().count(hc[k]) > 0); assert(ha.contains(hc[k])); }
    if old || new {
        if old { let v = choose|v: int| 0 <= v < n && is_top(#[trigger] bk.dn[v], tb); assert(ha[0].origin == 0 && g.s_get_lhs(ha[0].dot) != tb); }
        assert(p.0 == 0);
        assert forall|k: int| 0 <= k < hc.len() implies (#[trigger] hc[k]).origin == 0 && g.s_get_lhs(hc[k].dot) != tb by {
            assert(ha.contains(hc[k])); let j = choose|j: int| 0 <= j < ha.len() && #[trigger] ha[j] == hc[k];
            lemma_top(ha, j);
            if old { let v = choose|v: int| 0 <= v < n && is_top(#[trigger] bk.dn[v], tb); assert(ha[j].origin == 0); }
            else {
                if g.s_get_lhs(hc[k].dot) == tb {
                    lemma_top(hc, k);
                    assert(ha.contains(hc[0])); let i = choose|i: int| 0 <= i < ha.len() && #[trigger] ha[i] == hc[0]; lemma_top(ha, i);
                    let d = hc[k].dot; let e = hc[0].dot; let f = ha[0].dot;
                    assert(d <= e <= f); assert(g.s_get_lhs(f) == tb);
                    assert(g.s_get_lhs(e) == tb);
                    assert(has_key(hc, key(hc[0]))); assert(grp(g, key(hc[0])) == p);
                }
            }
        }
        assert forall|j: int| 0 <= j < x.s.len() implies (#[trigger] x.s[j]).origin == 0 && g.s_get_lhs(x.s[j].dot) != tb by {
            let y = x.s[j]; let i = x.fr[j];
            assert(v_sets(x.c.medial) == v_sets(a.medial));
            assert(stems(g, x.c.forest.calm(), b.forest, s0, p.0, p.1, x.node, y, i));
            if i >= 0 { assert(has_key(ha, key(ha[0]))); assert(v_sets(a.medial).len() > 0); assert(0 <= i < s0.len()); assert(set_item(g, a.forest, tok, val, pos, v_sets(a.medial)[0][i], 0)); assert(false); }
            assert(has_key(x.s, key(y))); assert(adv(x.c, p.0, p.1, true, key(y)));
            lemma_n_adv_starts(x.c, p.0, p.1, true, key(y));
            if g.s_get_lhs(y.dot) == tb { assert(p.1 == ts); assert(g.s_get_lhs(ha[0].dot) == ts); }
        }
        assert forall|k: int| 0 <= k < hb.len() implies (#[trigger] hb[k]).origin == 0 && g.s_get_lhs(hb[k].dot) != tb by {
            let y = hb[k]; assert(hb.contains(y)); assert(hb.to_multiset().count(y) > 0);
            if hc.to_multiset().count(y) > 0 { assert(hc.contains(y)); let i = choose|i: int| 0 <= i < hc.len() && hc[i] == y; assert(hc[i].origin == 0); }
            else { assert(x.s.to_multiset().count(y) > 0); assert(x.s.contains(y)); let i = choose|i: int| 0 <= i < x.s.len() && x.s[i] == y; assert(x.s[i].origin == 0); }
        }
    }
    assert forall|v: int| 0 <= v < b2.dn.len() && is_top(#[trigger] b2.dn[v], tb) implies (forall|w: int| 0 <= w < b2.dn.len() && is_top(#[trigger] b2.dn[w], tb) ==> v == w) && (forall|k: int| 0 <= k < hb.len() ==> (#[trigger] hb[k]).origin == 0 && g.s_get_lhs(hb[k].dot) != tb) by {
        if v < n { assert(is_top(bk.dn[v], tb)); assert(old); } else { assert(new); }
        assert forall|u: int| 0 <= u < b2.dn.len() && is_top(#[trigger] b2.dn[u], tb) implies v == u by {
            if v < n && u < n { assert(is_top(bk.dn[v], tb) && is_top(bk.dn[u], tb)); }
            else if v < n { assert(is_top(bk.dn[v], tb)); assert(ha[0].origin == 0 && g.s_get_lhs(ha[0].dot) != tb); assert(u == n); assert(false); }
            else if u < n { assert(is_top(bk.dn[u], tb)); assert(ha[0].origin == 0 && g.s_get_lhs(ha[0].dot) != tb); assert(false); }
        }
    }
}
/// The book of a position that is being made, from the situation `a0` in which nothing was read yet; the matches begin with the tokens `t`.
pub open spec fn keeps_book<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, r: Recognizer<G, F, P>, tok: Tokens, val: Values, pos: Seq<int>, t: Seq<(Symbol, u32)>, bk: Book<F::NodeRef>) -> bool {
    &&& book_of(r, tok, val, pos, bk) && counts_all(a0, v_cur(r.medial), bk, bk.dn.len() as int) && keeps(a0.forest, r.forest) && one_tops(r.grammar, bk, r.complete.0@)
    &&& t.len() <= bk.dn.len() && forall|j: int| #![trigger bk.dn[j]] #![trigger t[j]] 0 <= j < t.len() ==> bk.dn[j].sum.len() == 0 && bk.dn[j].sym == t[j].0 && bk.dn[j].o == pos.len() - 2
}
/// One group.
pub proof fn lemma_n_did<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, val: Values, pos: Seq<int>, t: Seq<(Symbol, u32)>, bk: Book<F::NodeRef>, x: Move<G, F, P>) -> (b2: Book<F::NodeRef>)
    requires keeps_book(a0, a, tok, val, pos, t, bk), did(a, b, x), completing(a), grows(a0, a), lists_ok(a.grammar), lone(a.grammar), b.forest.lawful(), b.grammar == a.grammar, v_sets(b.medial) == v_sets(a.medial)
    ensures keeps_book(a0, b, tok, val, pos, t, b2)
{
    hide(adv); hide(lists_ok);
    let g = a.grammar; let c = x.c; let p = grp(g, key(a.complete.0@[0])); let sets = v_sets(a.medial);
    assert(c.forest.lawful());
    lemma_n_book_kept(g, a.forest, c.forest, tok, val, pos, sets, v_cur(a.medial), a.complete.0@, bk);
    let b1 = lemma_n_make_group(g, c.forest, tok, val, pos, sets, v_cur(a.medial), a.complete.0@, c.complete.0@, bk, p.0, p.1, x.pop, x.node);
    let w = bk.dn.len() as int;
    assert(fresh(b1)) by {
        assert forall|z: int| 0 <= z < b1.log.len() implies (#[trigger] b1.log[z]).u < b1.dn.len() - 1 by { assert(entry_ok(g, a.forest, sets, bk.dn, bk.log[z])); }
        assert forall|j: int| 0 <= j < b1.cu.len() implies #[trigger] b1.cu[j] < b1.dn.len() - 1 by { let y = v_cur(a.medial)[j]; }
    }
    assert(grows(a0, c));
    assert(counts_all(a0, v_cur(c.medial), b1, w)) by {
        assert forall|u: int| 0 <= u < w implies #[trigger] b1.dn[u] == bk.dn[u] by {}
    }
    lemma_n_gave(c, b, tok, val, pos, b1, p.0, p.1, x.node, x.s, x.fr, x.m);
    lemma_n_covers(a0, c, b, b1, p.0, p.1, x.node, x.s, x.fr, x.m);
    let b2 = with_more(b1, x.s, x.fr, x.m.len() as int);
    assert forall|tb: Symbol, ts: Symbol| #[trigger] topped(g, tb, ts) implies one_top(g, tb, b2, b.complete.0@) by { lemma_n_top_did(a, b, tok, val, pos, bk, b2, x, tb, ts); }
    assert forall|j: int| #![trigger b2.dn[j]] #![trigger t[j]] 0 <= j < t.len() implies b2.dn[j].sum.len() == 0 && b2.dn[j].sym == t[j].0 && b2.dn[j].o == pos.len() - 2 by { assert(b2.dn[j] == bk.dn[j]); }
    b2
}
/// One token.
pub proof fn lemma_n_read<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, a: Recognizer<G, F, P>, c: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, val: Values, pos: Seq<int>, t: Seq<(Symbol, u32)>, bk: Book<F::NodeRef>, n: int, node: F::NodeRef, s: Seq<Item<F::NodeRef>>, fr: Seq<int>, m: Seq<Item<F::NodeRef>>) -> (b2: Book<F::NodeRef>)
    requires 0 <= n < t.len(), keeps_book(a0, a, tok, val, pos, t.take(n), bk), bk.dn.len() == n, read_one(a, c, b, t[n].0, t[n].1, node, s, fr, m), grows(a0, a), lists_ok(a.grammar), lone(a.grammar), b.forest.lawful(), b.grammar == a.grammar, v_sets(b.medial) == v_sets(a.medial),
        a.medial.indices@.len() == pos.len(), pos.len() >= 2, pos[pos.len() - 2] + 1 == pos.last(), tok(pos[pos.len() - 2], t[n].0), t[n].1 == val(pos[pos.len() - 2], t[n].0), pos.len() < 0x7fff_ffff,
        forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).0 != (#[trigger] t[j]).0,
    ensures keeps_book(a0, b, tok, val, pos, t.take(n + 1), b2), b2.dn.len() == n + 1
{
    hide(adv); hide(lists_ok);
    let g = a.grammar; let o = (a.medial.indices@.len() - 2) as u32; let sets = v_sets(a.medial); let sym = t[n].0;
    assert(c.forest.lawful());
    lemma_n_book_kept(g, a.forest, c.forest, tok, val, pos, sets, v_cur(a.medial), a.complete.0@, bk);
    assert forall|v: int| 0 <= v < bk.dn.len() && (#[trigger] bk.dn[v]).sum.len() == 0 implies bk.dn[v].sym != sym by { assert(t.take(n)[v] == t[v]); assert(t[v].0 != t[n].0); }
    lemma_n_token(g, c.forest, tok, val, pos, sets, v_cur(a.medial), a.complete.0@, bk, o, sym, t[n].1, node);
    let b1 = with_token(bk, o, sym, node);
    assert(fresh(b1)) by {
        assert forall|z: int| 0 <= z < b1.log.len() implies (#[trigger] b1.log[z]).u < b1.dn.len() - 1 by { assert(entry_ok(g, a.forest, sets, bk.dn, bk.log[z])); }
        assert forall|j: int| 0 <= j < b1.cu.len() implies #[trigger] b1.cu[j] < b1.dn.len() - 1 by { let y = v_cur(a.medial)[j]; }
    }
    assert(grows(a0, c));
    assert(counts_all(a0, v_cur(c.medial), b1, n)) by { assert forall|u: int| 0 <= u < n implies #[trigger] b1.dn[u] == bk.dn[u] by {} }
    lemma_n_gave(c, b, tok, val, pos, b1, o, sym, node, s, fr, m);
    lemma_n_covers(a0, c, b, b1, o, sym, node, s, fr, m);
    let b2 = with_more(b1, s, fr, m.len() as int);
    assert forall|v: int| 0 <= v < b2.dn.len() implies (#[trigger] b2.dn[v]).sum.len() == 0 by { if v < n { assert(b2.dn[v] == bk.dn[v]); assert(t.take(n)[v] == t[v]); } }
    assert forall|j: int| #![trigger b2.dn[j]] #![trigger t.take(n + 1)[j]] 0 <= j < n + 1 implies b2.dn[j].sum.len() == 0 && b2.dn[j].sym == t.take(n + 1)[j].0 && b2.dn[j].o == pos.len() - 2 by { if j < n { assert(b2.dn[j] == bk.dn[j]); assert(t.take(n)[j] == t[j]); } }
    b2
}
/// Between positions: every partial match represents derivations of what it spans, each once, and no two (of one rule, at one position) the same one.
pub open spec fn told_at<G: Grammar, F: Forest>(g: G, f: F, tok: Tokens, val: Values, pos: Seq<int>, sets: Seq<Seq<Item<F::NodeRef>>>) -> bool {
    f.calm() && pos.len() == sets.len() && sets_good(g, f, tok, val, pos, sets) && sets_apart(f, sets)
}
pub open spec fn told<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, tok: Tokens, val: Values, pos: Seq<int>) -> bool { r.forest.lawful() ==> told_at(r.grammar, r.forest, tok, val, pos, all_sets(r.medial)) }
pub open spec fn empty_book<N>() -> Book<N> { Book { dn: Seq::empty(), log: Seq::empty(), wh: Seq::empty(), pend: Seq::empty(), cu: Seq::empty() } }
pub proof fn lemma_n_begin<G: Grammar, F: Forest, P: PerfHint>(r0: Recognizer<G, F, P>, a0: Recognizer<G, F, P>, tok: Tokens, val: Values, pos: Seq<int>, q: int)
    requires told(r0, tok, val, pos), a0.forest.lawful(), a0.forest == r0.forest, a0.grammar == r0.grammar, v_sets(a0.medial) == all_sets(r0.medial), v_cur(a0.medial).len() == 0, a0.complete.0@.len() == 0
    ensures keeps_book(a0, a0, tok, val, pos.push(q), Seq::empty(), empty_book::<F::NodeRef>())
{
    let g = a0.grammar; let f = a0.forest; let sets = v_sets(a0.medial); let p = pos.push(q); let bk = empty_book::<F::NodeRef>();
    assert forall|i: int, j: int| 0 <= i < sets.len() && 0 <= j < sets[i].len() implies set_item(g, f, tok, val, p, #[trigger] sets[i][j], i) by { let x = sets[i][j]; assert(set_item(g, f, tok, val, pos, sets[i][j], i)); assert(p[i] == pos[i] && p[x.origin as int] == pos[x.origin as int]); }
    assert(a0.complete.0@ =~= its(bk.log, bk.pend));
    assert(bk.pend.no_duplicates());
    assert(placed(g, bk));
}
pub proof fn lemma_n_chain<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, a: Recognizer<G, F, P>, e: Recognizer<G, F, P>, tr: Seq<Recognizer<G, F, P>>, sts: Seq<Move<G, F, P>>, tok: Tokens, val: Values, pos: Seq<int>, t: Seq<(Symbol, u32)>, bk: Book<F::NodeRef>, i: int) -> (b2: Book<F::NodeRef>)
    requires 0 <= i <= sts.len(), chain(a, e, tr, sts), tr[i].forest.lawful(), a.forest.lawful() ==> keeps_book(a0, a, tok, val, pos, t, bk), grows(a0, a), lists_ok(a.grammar), lone(a.grammar), grows_but_hint(a, e)
    ensures keeps_book(a0, tr[i], tok, val, pos, t, b2), a.forest.lawful()
    decreases i
{
    hide(adv); hide(lists_ok); hide(keeps_book); hide(completing); hide(did);
    if i == 0 { bk } else {
        let x = sts[i - 1]; assert(did(tr[i - 1], tr[i - 1 + 1], sts[i - 1]) && completing(tr[i - 1]) && grows(a, tr[i - 1])); assert(tr[i - 1].forest.lawful()) by { reveal(did); }
        assert(tr[i - 1].forest.lawful());
        let b1 = lemma_n_chain(a0, a, e, tr, sts, tok, val, pos, t, bk, i - 1);
        let b = tr[i];
        assert(b.grammar == a.grammar && v_sets(b.medial) == v_sets(a.medial)) by { if i < sts.len() { assert(did(tr[i], tr[i + 1], sts[i]) && grows(a, tr[i])); } else { assert(tr[i] == tr.last()); } }
        lemma_n_did(a0, tr[i - 1], b, tok, val, pos, t, b1, x)
    }
}
/// The end of the position: what stays of the sets, and the new set.
pub proof fn lemma_n_end<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, e: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, val: Values, pos: Seq<int>, t: Seq<(Symbol, u32)>, bk: Book<F::NodeRef>, n: int)
    requires keeps_book(a0, e, tok, val, pos, t, bk), b.grammar == e.grammar, b.forest == e.forest, v_sets(b.medial) == v_sets(e.medial).take(n), 0 <= n <= v_sets(e.medial).len(), v_cur(b.medial).to_multiset() == v_cur(e.medial).to_multiset(),
        forall|k: int| 0 <= k < v_cur(b.medial).len() ==> (#[trigger] v_cur(b.medial)[k]).origin < n,
    ensures told_at(b.grammar, b.forest, tok, val, pos_after(pos, n), all_sets(b.medial))
{
    let g = b.grammar; let f = b.forest; let sets = all_sets(b.medial); let old = v_sets(e.medial); let p2 = pos_after(pos, n); let ce = v_cur(e.medial); let cb = v_cur(b.medial);
    lemma_n_contains(ce, cb);
    assert forall|i: int, j: int| 0 <= i < sets.len() && 0 <= j < sets[i].len() implies set_item(g, f, tok, val, p2, #[trigger] sets[i][j], i) by {
        let x = sets[i][j];
        if i < n { assert(sets[i] == old[i]); assert(set_item(g, f, tok, val, pos, old[i][j], i)); assert(p2[i] == pos[i] && p2[x.origin as int] == pos[x.origin as int]); }
        else {
            assert(cb[j] == x); assert(cb.contains(x)); assert(ce.contains(x)); let k = choose|k: int| 0 <= k < ce.len() && ce[k] == x;
            let d = bk.dn[bk.cu[k]]; assert(starts(g, d.sym, ce[k].dot)); assert(good(g, f, tok, val, d.node, d.sym, pos[d.o as int], pos.last()));
            assert(p2[i] == pos.last() && p2[x.origin as int] == pos[x.origin as int]);
        }
    }
    assert forall|i: int| 0 <= i < sets.len() implies set_apart(f, #[trigger] sets[i]) by {
        if i < n { assert(sets[i] == old[i]); assert(set_apart(f, old[i])); }
        else {
            assert forall|j: int, k: int, t: Tree| #![trigger ways(f, cb[j].node, t), ways(f, cb[k].node, t)] 0 <= j < cb.len() && 0 <= k < cb.len() && j != k && cb[j].dot == cb[k].dot && ways(f, cb[j].node, t) > 0 implies ways(f, cb[k].node, t) == 0 by {
                let d = cb[j].dot; let p = |c: Item<F::NodeRef>| c.dot == d && ways(f, c.node, t) > 0;
                assert forall|x: int, y: int| 0 <= x < y < ce.len() implies !(p(#[trigger] ce[x]) && p(#[trigger] ce[y])) by {
                    if p(ce[x]) && p(ce[y]) { lemma_n_apart(g, f, old, bk, bk.cu[x], bk.cu[y], t); }
                }
                lemma_n_reordered(ce, cb, p);
                if j < k { assert(!(p(cb[j]) && p(cb[k]))); } else { assert(!(p(cb[k]) && p(cb[j]))); }
            }
        }
    }
}
// ---- nothing is missing ----
pub proof fn lemma_n_width(t: Tree)
    ensures width(t) > 0
    decreases t
{ match t { Tree::Leaf(_, _) => {}, Tree::One(_, a) => lemma_n_width(*a), Tree::Two(_, a, b) => { lemma_n_width(*a); lemma_n_width(*b); } } }
pub proof fn lemma_n_derives<G: Grammar>(g: G, tok: Tokens, val: Values, t: Tree, p: int)
    requires dtree(g, tok, val, t, p)
    ensures derives(g, tok, root(g, t), p, p + width(t))
    decreases t
{
    match t {
        Tree::Leaf(s, _) => lemma_token(g, tok, s, p),
        Tree::One(d, a) => { lemma_n_derives(g, tok, val, *a, p); lemma_rule1(g, tok, d, root(g, *a), p, p + width(*a)); }
        Tree::Two(d, a, b) => { lemma_n_derives(g, tok, val, *a, p); lemma_n_derives(g, tok, val, *b, p + width(*a)); lemma_rule2(g, tok, d, root(g, *a), root(g, *b), p, p + width(*a), p + width(*a) + width(*b)); }
    }
}
/// A derivation of the first symbol of rule `d`, at a place where the rule was predicted and may go on.
pub open spec fn due<G: Grammar>(g: G, tok: Tokens, val: Values, an: Ann, h: Hist, a: Tree, d: Dot, p: int, q: int) -> bool {
    &&& 0 <= p < q && post(g, d) is Some && opens(g, an, d, q) && dtree(g, tok, val, a, p) && p + width(a) == q
    &&& exists|y: Symbol| #[trigger] starts_in(g, root(g, a), d, y) && h.rows[p].has(y.id())
}
pub open spec fn holds<F: Forest>(f: F, pos: Seq<int>, s: Seq<Item<F::NodeRef>>, a: Tree, d: Dot, p: int) -> bool {
    exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).dot == d && pos[s[k].origin as int] == p && ways(f, s[k].node, a) > 0
}
/// Every such derivation is represented by a partial match.
pub open spec fn full<G: Grammar, F: Forest>(g: G, f: F, tok: Tokens, val: Values, an: Ann, h: Hist, pos: Seq<int>, sets: Seq<Seq<Item<F::NodeRef>>>) -> bool {
    forall|i: int, a: Tree, d: Dot, p: int| #![trigger due(g, tok, val, an, h, a, d, p, pos[i]), sets[i]] 0 <= i < sets.len() && due(g, tok, val, an, h, a, d, p, pos[i]) ==> holds(f, pos, sets[i], a, d, p)
}
pub proof fn lemma_n_full_kept<G: Grammar, F: Forest>(g: G, f: F, f2: F, tok: Tokens, val: Values, an: Ann, h: Hist, pos: Seq<int>, sets: Seq<Seq<Item<F::NodeRef>>>)
    requires full(g, f, tok, val, an, h, pos, sets), keeps(f, f2), sets_good(g, f, tok, val, pos, sets)
    ensures full(g, f2, tok, val, an, h, pos, sets)
{
    assert forall|i: int, a: Tree, d: Dot, p: int| #![trigger due(g, tok, val, an, h, a, d, p, pos[i]), sets[i]] 0 <= i < sets.len() && due(g, tok, val, an, h, a, d, p, pos[i]) implies holds(f2, pos, sets[i], a, d, p) by {
        let s = sets[i]; assert(holds(f, pos, s, a, d, p));
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).dot == d && pos[s[k].origin as int] == p && ways(f, s[k].node, a) > 0;
        assert(set_item(g, f, tok, val, pos, sets[i][k], i)); lemma_n_ways_kept(f, f2, s[k].node, a);
        assert(ways(f2, s[k].node, a) > 0);
    }
}
/// What a summand represents, its match does.
pub proof fn lemma_n_in_sum<G: Grammar, F: Forest>(g: G, f: F, sets: Seq<Seq<Item<F::NodeRef>>>, bk: Book<F::NodeRef>, x: int, t: Tree) -> (v: int)
    requires listed(g, f, sets, bk), bk.pend.len() == 0, 0 <= x < bk.log.len(), one_ways(f, pair_of(bk.log[x].y), t) > 0
    ensures 0 <= v < bk.dn.len(), (bk.dn[v].o, bk.dn[v].sym) == grp(g, key(bk.log[x].y)), ways(f, bk.dn[v].node, t) > 0
{
    let v = bk.wh[x]; let d = bk.dn[v]; assert(v >= 0 && d.sum.contains(x));
    let z = choose|z: int| 0 <= z < d.sum.len() && d.sum[z] == x;
    assert(dn_node(f, bk.log, bk.dn[v]));
    let s = f.node(d.node)->Sum_0; let y = named(its(bk.log, d.sum));
    lemma_n_contains(s, y);
    assert(y[z] == pair_of(bk.log[x].y)); assert(y.contains(y[z])); assert(s.contains(y[z]));
    let j = choose|j: int| 0 <= j < s.len() && s[j] == y[z];
    lemma_n_sum(f, s, t, s.len()); assert(one_ways(f, s[j], t) > 0);
    v
}
pub proof fn lemma_n_empty_queue<N>(heap: Seq<Item<N>>, bk: Book<N>)
    requires heap.len() == 0, heap.to_multiset() == its(bk.log, bk.pend).to_multiset()
    ensures bk.pend.len() == 0
{ lemma_n_contains(heap, its(bk.log, bk.pend)); }
/// Every derivation that ends at the new position is represented by a match.
pub proof fn lemma_n_found<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, a: Recognizer<G, F, P>, e: Recognizer<G, F, P>, tok: Tokens, val: Values, an: Ann, pos: Seq<int>, h: Hist, q: int, t: Seq<(Symbol, u32)>, bk: Book<F::NodeRef>, x: Tree, p: int) -> (v: int)
    requires finishing(a0, a, tok, an, pos, h), keeps_book(a0, e, tok, val, pos.push(q), t, bk), e.complete.0@.len() == 0, e.grammar == a0.grammar, v_sets(e.medial) == v_sets(a0.medial), q == pos.last() + 1,
        full(a0.grammar, e.forest, tok, val, an, h, pos, v_sets(a0.medial)), forall|s: Symbol| #[trigger] tok(pos.last(), s) ==> exists|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == s,
        0 <= p <= pos.last(), dtree(a0.grammar, tok, val, x, p), p + width(x) == q, pre(a0.grammar, h.rows[p], root(a0.grammar, x)), ends(an, root(a0.grammar, x), q),
    ensures 0 <= v < bk.dn.len(), bk.dn[v].sym == root(a0.grammar, x), bk.dn[v].o < pos.len(), pos[bk.dn[v].o as int] == p, ways(e.forest, bk.dn[v].node, x) > 0
    decreases x
{
    hide(adv); hide(goes); hide(honest); hide(starts_in); hide(row_for); hide(lists_ok); hide(der);
    let g = a0.grammar; let f = e.forest; let row = h.rows[p]; let sets = v_sets(a0.medial);
    lemma_n_empty_queue(e.complete.0@, bk);
    assert(sets.len() == pos.len());
    match x {
        Tree::Leaf(s, w) => {
            assert(tok(pos.last(), s)); let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == s;
            let d = bk.dn[j]; assert(d.sum.len() == 0); assert(dn_node(f, bk.log, bk.dn[j]));
            let y = Tree::Leaf(s, f.node(d.node)->Leaf_1);
            assert(good(g, f, tok, val, d.node, d.sym, pos.push(q)[d.o as int], q));
            assert(ways(f, d.node, y) == 1); assert(fits(g, tok, val, y, d.sym, pos.push(q)[d.o as int], q));
            j
        }
        Tree::One(d, b) => {
            let s = root(g, *b);
            assert(made_of_rows(g, row));
            lemma_descend(g, row, s, d);
            let y = choose|y: Symbol| #[trigger] starts_in(g, s, d, y) && row.has(y.id());
            assert(ends(an, s, q)) by { reveal(honest); if (an.hint)(q) is Some { assert((an.fol)(g.s_get_lhs(d), (an.hint)(q)->0)); } }
            let u = lemma_n_found(a0, a, e, tok, val, an, pos, h, q, t, bk, *b, p); let o = bk.dn[u].o;
            assert(h.rows[pos[o as int]] == a0.predicted.rows()[o as int]);
            lemma_useful_done(g, tok, an, d, q);
            lemma_adv_first(a0, o, s, d, y);
            let k = (o, d); assert(adv(a0, bk.dn[u].o, bk.dn[u].sym, true, k));
            let z = choose|z: int| 0 <= z < bk.log.len() && (#[trigger] bk.log[z]).u == u && key(bk.log[z].y) == k && bk.log[z].i < 0;
            assert(entry_ok(g, f, sets, bk.dn, bk.log[z]));
            assert(one_ways(f, pair_of(bk.log[z].y), x) > 0);
            let v = lemma_n_in_sum(g, f, sets, bk, z, x);
            v
        }
        Tree::Two(d, b, c) => {
            let s = root(g, *b); let s2 = root(g, *c); let m = p + width(*b);
            lemma_n_width(*b); lemma_n_width(*c);
            assert(made_of_rows(g, row));
            lemma_descend(g, row, s, d);
            let y = choose|y: Symbol| #[trigger] starts_in(g, s, d, y) && row.has(y.id());
            assert(ends(an, s2, q)) by { reveal(honest); if (an.hint)(q) is Some { assert((an.fol)(g.s_get_lhs(d), (an.hint)(q)->0)); } }
            lemma_n_derives(g, tok, val, *b, p); lemma_n_derives(g, tok, val, *c, m);
            let n1 = choose|n: nat| #[trigger] der(g, tok, n, s, p, m); let n2 = choose|n: nat| #[trigger] der(g, tok, n, s2, m, q);
            lemma_opens(g, tok, an, n2, d, m, q);
            assert(ends(an, s, m)) by { reveal(honest); if (an.hint)(m) is Some { assert(terminal(g, (an.hint)(m)->0)); assert((an.fol)(s, (an.hint)(m)->0)); } }
            lemma_live(g, tok, an, n1, s, p, m);
            assert(derivesl(g, tok, an, s, p, m)); assert(h.rows[p].has(y.id()));
            assert((h.items[m])(d, p));
            assert(g.s_prediction_row(s2).has(s2.id())); assert(within(g.s_prediction_row(s2), h.rows[m]));
            assert(pre(g, h.rows[m], s2));
            let u = lemma_n_found(a0, a, e, tok, val, an, pos, h, q, t, bk, *c, m); let o = bk.dn[u].o; let set = sets[o as int];
            assert(h.rows[pos[o as int]] == a0.predicted.rows()[o as int]);
            assert(due(g, tok, val, an, h, *b, d, p, pos[o as int]));
            assert(holds(f, pos, sets[o as int], *b, d, p));
            let i = choose|i: int| 0 <= i < set.len() && (#[trigger] set[i]).dot == d && pos[set[i].origin as int] == p && ways(f, set[i].node, *b) > 0;
            lemma_useful_done(g, tok, an, d, q);
            assert(goes(a0, bk.dn[u].o, bk.dn[u].sym, i)) by { reveal(goes); }
            let z = choose|z: int| 0 <= z < bk.log.len() && (#[trigger] bk.log[z]).u == u && bk.log[z].i == i;
            assert(entry_ok(g, f, sets, bk.dn, bk.log[z]));
            assert(key(set[i]) == key(bk.log[z].y));
            assert(set_item(g, f, tok, val, pos.push(q), sets[o as int][i], o as int));
            let wa = ways(f, set[i].node, *b); let wb = ways(f, bk.dn[u].node, *c);
            assert(wa * wb > 0) by (nonlinear_arith) requires wa > 0, wb > 0;
            assert(one_ways(f, pair_of(bk.log[z].y), x) > 0);
            lemma_n_in_sum(g, f, sets, bk, z, x)
        }
    }
}
/// The end of the position: still nothing is missing.
pub proof fn lemma_n_full_end<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, a: Recognizer<G, F, P>, e: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, val: Values, an: Ann, pos: Seq<int>, h: Hist, q: int, t: Seq<(Symbol, u32)>, bk: Book<F::NodeRef>, n: int)
    requires finishing(a0, a, tok, an, pos, h), keeps_book(a0, e, tok, val, pos.push(q), t, bk), e.complete.0@.len() == 0, e.grammar == a0.grammar, v_sets(e.medial) == v_sets(a0.medial), q == pos.last() + 1,
        full(a0.grammar, a0.forest, tok, val, an, h, pos, v_sets(a0.medial)), sets_good(a0.grammar, a0.forest, tok, val, pos, v_sets(a0.medial)), forall|s: Symbol| #[trigger] tok(pos.last(), s) ==> exists|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == s,
        what_stays(a0, b, n), 0 < n <= pos.len(), b.forest == e.forest, b.grammar == e.grammar, v_cur(b.medial).to_multiset() == v_cur(e.medial).to_multiset(),
    ensures full(b.grammar, b.forest, tok, val, an, next_hist(b, pos, h), pos_after(pos.push(q), n), all_sets(b.medial))
{
    hide(adv); hide(goes); hide(honest); hide(starts_in); hide(row_for); hide(lists_ok); hide(der); hide(full); hide(linked); hide(pre);
    let g = a0.grammar; let f = e.forest; let h2 = next_hist(b, pos, h); let pos2 = pos_after(pos.push(q), n); let sets = all_sets(b.medial); let old = v_sets(a0.medial); let ce = v_cur(e.medial); let cb = v_cur(b.medial);
    lemma_n_full_kept(g, a0.forest, f, tok, val, an, h, pos, old);
    lemma_n_contains(ce, cb);
    assert forall|i: int, x: Tree, d: Dot, p: int| #![trigger due(g, tok, val, an, h2, x, d, p, pos2[i]), sets[i]] 0 <= i < sets.len() && due(g, tok, val, an, h2, x, d, p, pos2[i]) implies holds(f, pos2, sets[i], x, d, p) by {
        let s = root(g, x);
        let y = choose|y: Symbol| #[trigger] starts_in(g, s, d, y) && h2.rows[p].has(y.id());
        if i < n {
            lemma_pos_le(pos, i);
            assert(pos2[i] == pos[i]); assert(sets[i] == old[i]); assert(h2.rows[p] == h.rows[p]);
            assert(due(g, tok, val, an, h, x, d, p, pos[i]));
            assert(holds(f, pos, old[i], x, d, p)) by { reveal(full); }
            let k = choose|k: int| 0 <= k < old[i].len() && (#[trigger] old[i][k]).dot == d && pos[old[i][k].origin as int] == p && ways(f, old[i][k].node, x) > 0;
            assert(set_item(g, a0.forest, tok, val, pos, old[i][k], i));
            assert(pos2[sets[i][k].origin as int] == p);
        } else {
            assert(pos2[i] == q); assert(h2.rows[p] == h.rows[p]); assert(made_of_rows(g, h.rows[p]));
            lemma_enter(g, h.rows[p], s, d, y);
            lemma_n_derives(g, tok, val, x, p); let m = choose|m: nat| #[trigger] der(g, tok, m, s, p, q);
            assert(ends(an, s, q)) by { reveal(honest); if (an.hint)(q) is Some { assert(terminal(g, (an.hint)(q)->0)); assert(starts(g, s, d)); assert((an.fol)(s, (an.hint)(q)->0)); } }
            assert(full(g, f, tok, val, an, h, pos, old));
            let u = lemma_n_found(a0, a, e, tok, val, an, pos, h, q, t, bk, x, p); let o = bk.dn[u].o;
            assert(h.rows[pos[o as int]] == a0.predicted.rows()[o as int]);
            lemma_useful_open(g, tok, an, d, q);
            lemma_adv_first(a0, o, s, d, y);
            assert(adv(a0, bk.dn[u].o, bk.dn[u].sym, false, (o, d)));
            let j = choose|j: int| 0 <= j < ce.len() && key(#[trigger] ce[j]) == (o, d) && bk.cu[j] == u;
            assert(ce.contains(ce[j])); assert(cb.contains(ce[j])); let k = choose|k: int| 0 <= k < cb.len() && cb[k] == ce[j];
            assert(has_key(sets[n], (o, d))) by { assert(key(cb[k]) == (o, d)); }
            assert(o < n); assert(pos2[o as int] == pos[o as int]);
            assert(sets[i][k].dot == d && pos2[sets[i][k].origin as int] == p && ways(f, sets[i][k].node, x) > 0);
        }
    }
    reveal(full);
}
