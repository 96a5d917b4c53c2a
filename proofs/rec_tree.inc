// ---- derivation trees, and what a node represents (P09) ----
/// A derivation tree over the recognizer's (binary, nulling-free) rules.
pub ghost enum Tree { Leaf(Symbol, u32), One(Dot, Box<Tree>), Two(Dot, Box<Tree>, Box<Tree>) }
pub open spec fn root<G: Grammar>(g: G, t: Tree) -> Symbol { match t { Tree::Leaf(s, _) => s, Tree::One(d, _) => g.s_get_lhs(d), Tree::Two(d, _, _) => g.s_get_lhs(d) } }
pub open spec fn width(t: Tree) -> int decreases t { match t { Tree::Leaf(_, _) => 1, Tree::One(_, a) => width(*a), Tree::Two(_, a, b) => width(*a) + width(*b) } }
pub type Values = spec_fn(int, Symbol) -> u32;
/// `t` is a derivation from the tokens at position `i` on, and its leaves hold the tokens' values.
pub open spec fn dtree<G: Grammar>(g: G, tok: Tokens, val: Values, t: Tree, i: int) -> bool decreases t {
    match t {
        Tree::Leaf(s, v) => tok(i, s) && v == val(i, s),
        Tree::One(d, a) => post(g, d) is None && starts(g, root(g, *a), d) && dtree(g, tok, val, *a, i),
        Tree::Two(d, a, b) => post(g, d) == Some(root(g, *b)) && starts(g, root(g, *a), d) && dtree(g, tok, val, *a, i) && dtree(g, tok, val, *b, i + width(*a)),
    }
}
/// A derivation of the tokens from `p` to `q` from `b`.
pub open spec fn fits<G: Grammar>(g: G, tok: Tokens, val: Values, t: Tree, b: Symbol, p: int, q: int) -> bool { dtree(g, tok, val, t, p) && root(g, t) == b && p + width(t) == q }
/// In how many ways the node represents the tree.
pub open spec fn ways<F: Forest>(f: F, h: F::NodeRef, t: Tree) -> nat decreases t, 2nat, 0nat {
    match t {
        Tree::Leaf(s, v) => if f.node(h) == FNode::<Symbol, F::NodeRef>::Leaf(s, v) { 1 } else { 0 },
        _ => match f.node(h) { FNode::Sum(x) => sum_ways(f, x, t, x.len()), _ => 0 },
    }
}
pub open spec fn sum_ways<F: Forest>(f: F, x: Seq<(u32, F::NodeRef)>, t: Tree, n: nat) -> nat decreases t, 1nat, n {
    if n == 0 || n > x.len() { 0 } else { sum_ways(f, x, t, (n - 1) as nat) + one_ways(f, x[n - 1], t) }
}
/// ... one summand does.
pub open spec fn one_ways<F: Forest>(f: F, x: (u32, F::NodeRef), t: Tree) -> nat decreases t, 0nat, 0nat {
    match t {
        Tree::Leaf(_, _) => 0,
        Tree::One(d, a) => if d == x.0 { ways(f, x.1, *a) } else { 0 },
        Tree::Two(d, a, b) => if d == x.0 { match f.node(x.1) { FNode::Pair(l, r) => ways(f, l, *a) * ways(f, r, *b), _ => 0 } } else { 0 },
    }
}
/// The node and all below it (down to depth `n`) are there.
pub open spec fn whole<F: Forest>(f: F, h: F::NodeRef, n: nat) -> bool decreases n {
    !(f.node(h) is Nothing) && (n > 0 ==> match f.node(h) {
        FNode::Pair(l, r) => whole(f, l, (n - 1) as nat) && whole(f, r, (n - 1) as nat),
        FNode::Sum(x) => forall|j: int| 0 <= j < x.len() ==> whole(f, (#[trigger] x[j]).1, (n - 1) as nat),
        _ => true,
    })
}
pub open spec fn there<F: Forest>(f: F, h: F::NodeRef) -> bool { forall|n: nat| #[trigger] whole(f, h, n) }
/// The node represents nothing but derivations of the tokens from `p` to `q` from `b`, each at most once.
pub open spec fn good<G: Grammar, F: Forest>(g: G, f: F, tok: Tokens, val: Values, h: F::NodeRef, b: Symbol, p: int, q: int) -> bool {
    there(f, h) && forall|t: Tree| (#[trigger] ways(f, h, t)) <= 1 && (ways(f, h, t) > 0 ==> fits(g, tok, val, t, b, p, q))
}
pub proof fn lemma_n_whole_kept<F: Forest>(a: F, b: F, h: F::NodeRef, n: nat)
    requires keeps(a, b), whole(a, h, n)
    ensures whole(b, h, n), b.node(h) == a.node(h)
    decreases n
{
    if n > 0 {
        match a.node(h) {
            FNode::Pair(l, r) => { lemma_n_whole_kept(a, b, l, (n - 1) as nat); lemma_n_whole_kept(a, b, r, (n - 1) as nat); }
            FNode::Sum(x) => { assert forall|j: int| 0 <= j < x.len() implies whole(b, (#[trigger] x[j]).1, (n - 1) as nat) by { lemma_n_whole_kept(a, b, x[j].1, (n - 1) as nat); } }
            _ => {}
        }
    }
}
pub proof fn lemma_n_below<F: Forest>(f: F, h: F::NodeRef)
    requires there(f, h)
    ensures !(f.node(h) is Nothing), match f.node(h) { FNode::Pair(l, r) => there(f, l) && there(f, r), FNode::Sum(x) => forall|j: int| 0 <= j < x.len() ==> there(f, (#[trigger] x[j]).1), _ => true }
{
    assert(whole(f, h, 0));
    match f.node(h) {
        FNode::Pair(l, r) => {
            assert forall|n: nat| #[trigger] whole(f, l, n) by { assert(whole(f, h, n + 1)); }
            assert forall|n: nat| #[trigger] whole(f, r, n) by { assert(whole(f, h, n + 1)); }
        }
        FNode::Sum(x) => { assert forall|j: int| 0 <= j < x.len() implies there(f, (#[trigger] x[j]).1) by { assert forall|n: nat| #[trigger] whole(f, x[j].1, n) by { assert(whole(f, h, n + 1)); } } }
        _ => {}
    }
}
pub proof fn lemma_n_there<F: Forest>(f: F, h: F::NodeRef)
    requires !(f.node(h) is Nothing), match f.node(h) { FNode::Pair(l, r) => there(f, l) && there(f, r), FNode::Sum(x) => forall|j: int| 0 <= j < x.len() ==> there(f, (#[trigger] x[j]).1), _ => true }
    ensures there(f, h)
{
    assert forall|n: nat| #[trigger] whole(f, h, n) by {
        if n > 0 {
            match f.node(h) {
                FNode::Pair(l, r) => { assert(whole(f, l, (n - 1) as nat) && whole(f, r, (n - 1) as nat)); }
                FNode::Sum(x) => { assert forall|j: int| 0 <= j < x.len() implies whole(f, (#[trigger] x[j]).1, (n - 1) as nat) by { assert(there(f, x[j].1)); } }
                _ => {}
            }
        }
    }
}
/// What is there represents the same ever after.
pub proof fn lemma_n_ways_kept<F: Forest>(a: F, b: F, h: F::NodeRef, t: Tree)
    requires keeps(a, b), there(a, h)
    ensures ways(b, h, t) == ways(a, h, t), there(b, h)
    decreases t, 2nat, 0nat
{
    lemma_n_below(a, h);
    assert forall|n: nat| #[trigger] whole(b, h, n) by { lemma_n_whole_kept(a, b, h, n); }
    match t { Tree::Leaf(_, _) => {}, _ => match a.node(h) { FNode::Sum(x) => lemma_n_sum_kept(a, b, x, t, x.len()), _ => {} } }
}
pub proof fn lemma_n_sum_kept<F: Forest>(a: F, b: F, x: Seq<(u32, F::NodeRef)>, t: Tree, n: nat)
    requires keeps(a, b), n <= x.len(), forall|j: int| 0 <= j < x.len() ==> there(a, (#[trigger] x[j]).1)
    ensures sum_ways(b, x, t, n) == sum_ways(a, x, t, n)
    decreases t, 1nat, n
{ if n > 0 { lemma_n_sum_kept(a, b, x, t, (n - 1) as nat); lemma_n_one_kept(a, b, x[n - 1], t); } }
pub proof fn lemma_n_one_kept<F: Forest>(a: F, b: F, x: (u32, F::NodeRef), t: Tree)
    requires keeps(a, b), there(a, x.1)
    ensures one_ways(b, x, t) == one_ways(a, x, t)
    decreases t, 0nat, 0nat
{
    lemma_n_below(a, x.1);
    match t {
        Tree::Leaf(_, _) => {}
        Tree::One(_, c) => lemma_n_ways_kept(a, b, x.1, *c),
        Tree::Two(_, c, d) => match a.node(x.1) { FNode::Pair(l, r) => { lemma_n_ways_kept(a, b, l, *c); lemma_n_ways_kept(a, b, r, *d); } _ => {} }
    }
}
pub proof fn lemma_n_good_kept<G: Grammar, F: Forest>(g: G, a: F, f: F, tok: Tokens, val: Values, h: F::NodeRef, b: Symbol, p: int, q: int)
    requires keeps(a, f), good(g, a, tok, val, h, b, p, q)
    ensures good(g, f, tok, val, h, b, p, q)
{
    assert forall|t: Tree| (#[trigger] ways(f, h, t)) <= 1 && (ways(f, h, t) > 0 ==> fits(g, tok, val, t, b, p, q)) by { lemma_n_ways_kept(a, f, h, t); }
    lemma_n_ways_kept(a, f, h, Tree::Leaf(b, 0));
}
/// Of a sum's summands at most one represents the tree, at most once: so does the sum.
pub proof fn lemma_n_sum<F: Forest>(f: F, x: Seq<(u32, F::NodeRef)>, t: Tree, n: nat)
    requires n <= x.len()
    ensures sum_ways(f, x, t, n) > 0 <==> exists|j: int| 0 <= j < n && one_ways(f, #[trigger] x[j], t) > 0,
        (forall|j: int| 0 <= j < n ==> one_ways(f, #[trigger] x[j], t) <= 1) && (forall|i: int, j: int| 0 <= i < j < n ==> !(one_ways(f, #[trigger] x[i], t) > 0 && one_ways(f, #[trigger] x[j], t) > 0)) ==> sum_ways(f, x, t, n) <= 1
    decreases n
{
    if n > 0 {
        lemma_n_sum(f, x, t, (n - 1) as nat);
        if one_ways(f, x[n - 1], t) > 0 && sum_ways(f, x, t, (n - 1) as nat) > 0 { let j = choose|j: int| 0 <= j < n - 1 && one_ways(f, #[trigger] x[j], t) > 0; assert(one_ways(f, x[j], t) > 0 && one_ways(f, x[n - 1], t) > 0); }
    }
}
pub open spec fn at_most_one<A>(s: Seq<A>, p: spec_fn(A) -> bool) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !(p(#[trigger] s[i]) && p(#[trigger] s[j])) }
/// The order does not matter.
pub proof fn lemma_n_reordered<A>(a: Seq<A>, b: Seq<A>, p: spec_fn(A) -> bool)
    requires a.to_multiset() == b.to_multiset(), at_most_one(a, p)
    ensures at_most_one(b, p)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies !(p(#[trigger] b[i]) && p(#[trigger] b[j])) by {
        if p(b[i]) && p(b[j]) {
            let x = b[i]; let y = b[j];
            assert(b.contains(x) && b.contains(y));
            assert(a.to_multiset().count(x) > 0 && a.to_multiset().count(y) > 0);
            assert(a.contains(x) && a.contains(y));
            let u = choose|u: int| 0 <= u < a.len() && a[u] == x; let v = choose|v: int| 0 <= v < a.len() && a[v] == y;
            if u < v { assert(!(p(a[u]) && p(a[v]))); } else if v < u { assert(!(p(a[v]) && p(a[u]))); }
            assert(x == y);
            let b2 = b.remove(j); assert(b2[i] == x); assert(b2.contains(x)); assert(b2.to_multiset().count(x) > 0);
            let a2 = a.remove(u); assert(a2.to_multiset() =~= b2.to_multiset());
            assert(a2.contains(x)); let w = choose|w: int| 0 <= w < a2.len() && a2[w] == x;
            if w < u { assert(a[w] == x); assert(!(p(a[w]) && p(a[u]))); } else { assert(a[w + 1] == x); assert(!(p(a[u]) && p(a[w + 1]))); }
        }
    }
}
pub proof fn lemma_n_contains<A>(a: Seq<A>, b: Seq<A>)
    requires a.to_multiset() == b.to_multiset()
    ensures forall|x: A| #![trigger a.contains(x)] #![trigger b.contains(x)] a.contains(x) == b.contains(x), a.len() == b.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.to_multiset().len() == a.len()); assert(b.to_multiset().len() == b.len());
    assert forall|x: A| #![trigger a.contains(x)] #![trigger b.contains(x)] a.contains(x) == b.contains(x) by { assert(a.contains(x) == (a.to_multiset().count(x) > 0)); assert(b.contains(x) == (b.to_multiset().count(x) > 0)); }
}
