// ---- P23, simple forest ----
/// The user's rule that an action stands for.
pub open spec fn origin(f: ForestInfo, action: u32) -> Option<u32> {
    if action == NULL_ACTION { None } else if action < f.eval@.len() && f.eval@[action as int].id != !0u32 { Some(f.eval@[action as int].id) } else { None }
}
/// The hidden nulling symbol of an action.
pub open spec fn phantom(f: ForestInfo, action: u32) -> Option<(Symbol, bool)> { if action == NULL_ACTION { None } else { f.nulling_eliminated@[action as int] } }
/// The node `h` represents the tree `t`.
pub open spec fn rep(g: Seq<Node>, f: ForestInfo, h: int, t: Tree) -> bool decreases t, 1int {
    0 <= h < g.len() && match g[h] {
        Node::Leaf { symbol, values } => t == Tree::Leaf(symbol, values),
        Node::NullingLeaf { symbol } => t == Tree::Null(symbol),
        Node::Rule { left_factor, right_factor } => match t { Tree::Pair(a, b) => rep(g, f, left_factor.0 as int, *a) && (match *b { Tree::Pair(c, d) => rep(g, f, right_factor.0 as int, *c) && *d is Nothing, _ => false }), _ => false },
        Node::Sum { count, .. } => reps(g, f, h, 0, count as int, t),
        Node::Product { factors, action } => factors.0 < g.len() && (action != NULL_ACTION && !(g[factors.0 as int] is Rule) ==> action < f.nulling_eliminated@.len()) && (match t {
            Tree::Act(o, c) => o == origin(f, action) && (if g[factors.0 as int] is Rule || phantom(f, action) is None { rep(g, f, factors.0 as int, *c) } else {
                let (sym, dir) = phantom(f, action)->0; let (l, r) = if dir { (factors.0, sym.n) } else { (sym.n, factors.0) };
                match *c { Tree::Pair(a, b) => rep(g, f, l as int, *a) && (match *b { Tree::Pair(c, d) => rep(g, f, r as int, *c) && *d is Nothing, _ => false }), _ => false }
            }), _ => false }),
    }
}
/// The alternatives of an ambiguity, from the `k`-th on.
pub open spec fn reps(g: Seq<Node>, f: ForestInfo, h: int, k: int, n: int, t: Tree) -> bool decreases t, 0int {
    if k >= n { t is Nothing } else { match t { Tree::Pair(a, b) => rep(g, f, h + 1 + k, *a) && reps(g, f, h, k + 1, n, *b), _ => false } }
}
/// What putting a hidden symbol back does to the node `x`.
pub open spec fn filled(g: Seq<Node>, f: ForestInfo, x: Node) -> bool { match x { Node::Product { factors, action } => !(g[factors.0 as int] is Rule) && action != NULL_ACTION && phantom(f, action) is Some, _ => false } }
pub open spec fn fill(g: Seq<Node>, f: ForestInfo, x: Node) -> Node { match x { Node::Product { factors, action } => { let (sym, dir) = phantom(f, action)->0; if dir { Node::Rule { left_factor: factors, right_factor: NodeHandle(sym.n) } } else { Node::Rule { left_factor: NodeHandle(sym.n), right_factor: factors } } } , _ => x } }
pub open spec fn fillp(g: Seq<Node>, x: Node) -> Node { match x { Node::Product { factors, action } => Node::Product { factors: NodeHandle(g.len() as u32), action }, _ => x } }
/// Putting a hidden symbol back changes no node's tree.
pub proof fn rep_kept(g: Seq<Node>, f: ForestInfo, x: int, w: Seq<Node>, h: int, t: Tree)
    requires 0 <= x < g.len(), g.len() < 0x1_0000_0000, filled(g, f, g[x]), w == g.push(fill(g, f, g[x])).update(x, fillp(g, g[x])), rep(g, f, h, t)
    ensures rep(w, f, h, t)
    decreases t, 1int
{
    assert(forall|i: int| 0 <= i < g.len() && i != x ==> w[i] == g[i]);
    match g[h] {
        Node::Rule { left_factor, right_factor } => { if let Tree::Pair(a, b) = t { rep_kept(g, f, x, w, left_factor.0 as int, *a); if let Tree::Pair(c, d) = *b { rep_kept(g, f, x, w, right_factor.0 as int, *c); } } }
        Node::Sum { count, .. } => { reps_kept(g, f, x, w, h, 0, count as int, t); }
        Node::Product { factors, action } => {
            if let Tree::Act(o, c) = t {
                if g[factors.0 as int] is Rule || phantom(f, action) is None {
                    rep_kept(g, f, x, w, factors.0 as int, *c);
                    assert(h != x);
                } else {
                    let (sym, dir) = phantom(f, action)->0; let (l, r) = if dir { (factors.0, sym.n) } else { (sym.n, factors.0) };
                    if let Tree::Pair(a, b) = *c {
                        rep_kept(g, f, x, w, l as int, *a);
                        if let Tree::Pair(c2, d) = *b { rep_kept(g, f, x, w, r as int, *c2); }
                    }
                    if h == x {
                        assert(w[g.len() as int] == fill(g, f, g[x]));
                        assert(rep(w, f, g.len() as int, *c));
                    }
                }
            }
        }
        _ => {}
    }
}
pub proof fn reps_kept(g: Seq<Node>, f: ForestInfo, x: int, w: Seq<Node>, h: int, k: int, n: int, t: Tree)
    requires 0 <= x < g.len(), g.len() < 0x1_0000_0000, filled(g, f, g[x]), w == g.push(fill(g, f, g[x])).update(x, fillp(g, g[x])), reps(g, f, h, k, n, t)
    ensures reps(w, f, h, k, n, t)
    decreases t, 0int
{
    if k < n { if let Tree::Pair(a, b) = t { rep_kept(g, f, x, w, h + 1 + k, *a); reps_kept(g, f, x, w, h, k + 1, n, *b); } }
}
//@ impl SB `impl Bocage` as `impl Bocage`
//@ fn postprocess_product_tree_node props=P23
    requires room(*old(self)), node matches Node::Product { factors, action } ==> factors.0 < old(self).graph@.len() && (action != NULL_ACTION && !(old(self).graph@[factors.0 as int] is Rule) ==> action < old(self).forest_info.nulling_eliminated@.len())
    ensures final(self).forest_info == old(self).forest_info, final(self).summand_count == old(self).summand_count,
        ({ let g = old(self).graph@; if filled(g, old(self).forest_info, node) { r == fillp(g, node) && final(self).graph@ == g.push(fill(g, old(self).forest_info, node)) } else { r == node && final(self).graph@ == g } })
//@ endfn
//@ endimpl
//@ impl SB `impl IndexMut<NodeHandle> for Bocage` as `impl ops::IndexMut<NodeHandle> for Bocage`
//@ fn index_mut props=P23
    ensures final(self).forest_info == old(self).forest_info, final(self).summand_count == old(self).summand_count, *r == old(self).graph@[index.0 as int], final(self).graph@ == old(self).graph@.update(index.0 as int, *final(r))
//@ sig `Self :: Output` => `Node`
//@ endfn
//@ endimpl
/// Where the tree begins behind the mark of the start of input; none for the trivial parse.
pub open spec fn top(g: Seq<Node>, h: NodeHandle) -> Option<NodeHandle> {
    match g[h.0 as int] { Node::Product { factors, .. } => (match g[factors.0 as int] { Node::Rule { right_factor, .. } => Some(right_factor), _ => None }), _ => Some(h) }
}
/// The root of a finished parse: a rule application of the start rule whose left part is the mark of the start of input.
pub open spec fn rooted(g: Seq<Node>, f: ForestInfo, h: NodeHandle) -> bool {
    h.0 < g.len() && match g[h.0 as int] {
        Node::Product { factors, .. } => factors.0 < g.len() && (match g[factors.0 as int] { Node::Rule { left_factor, .. } => left_factor.0 < g.len() && (g[left_factor.0 as int] matches Node::Leaf { symbol, .. } && symbol == f.sof), _ => true }),
        _ => true }
}
/// A frame of the work stack and the work that it stands for.
pub open spec fn okf(g: Seq<Node>, f: ForestInfo, w: WorkNode<'_>, x: Fr) -> bool {
    &&& w.parent == fparent(x)
    &&& match x {
        Fr::Eval { t, .. } => w.results@.len() == 0 && if w.child == 0 { rep(g, f, w.node.0 as int, t) } else {
            w.node.0 < g.len() && match g[w.node.0 as int] {
                Node::Rule { right_factor, .. } => if w.child == 1 { t matches Tree::Pair(c, d) && rep(g, f, right_factor.0 as int, *c) && *d is Nothing } else { t is Nothing },
                Node::Sum { count, .. } => w.child <= count && reps(g, f, w.node.0 as int, w.child as int, count as int, t),
                _ => false } },
        Fr::Fin { id, rest, .. } => w.node.0 < g.len() && w.child > 0 && rest is Nothing && (g[w.node.0 as int] matches Node::Product { action, .. } && id == origin(f, action)),
    }
}
pub open spec fn okfs(g: Seq<Node>, f: ForestInfo, ws: Seq<WorkNode<'_>>, fr: Seq<Fr>) -> bool { fr.len() == ws.len() && framed(fr) && forall|i: int| 0 < i < ws.len() ==> okf(g, f, #[trigger] ws[i], fr[i]) }
pub proof fn okfs_kept(g: Seq<Node>, f: ForestInfo, x: int, w: Seq<Node>, ws: Seq<WorkNode<'_>>, fr: Seq<Fr>)
    requires 0 <= x < g.len(), g.len() < 0x1_0000_0000, filled(g, f, g[x]), w == g.push(fill(g, f, g[x])).update(x, fillp(g, g[x])), okfs(g, f, ws, fr)
    ensures okfs(w, f, ws, fr)
{
    assert forall|i: int| 0 < i < ws.len() implies okf(w, f, #[trigger] ws[i], fr[i]) by {
        assert(okf(g, f, ws[i], fr[i]));
        let h = ws[i].node.0 as int; assert(h != x ==> w[h] == g[h]);
        if let Fr::Eval { t, .. } = fr[i] {
            if ws[i].child == 0 { rep_kept(g, f, x, w, h, t); } else {
                match g[h] { Node::Rule { right_factor, .. } => { if ws[i].child == 1 { if let Tree::Pair(c, d) = t { rep_kept(g, f, x, w, right_factor.0 as int, *c); } } }
                    Node::Sum { count, .. } => { reps_kept(g, f, x, w, h, ws[i].child as int, count as int, t); }
                    _ => {} }
            }
        }
    }
}
/// What kind of node a frame's tree has.
pub open spec fn shape(g: Seq<Node>, f: ForestInfo, w: WorkNode<'_>, t: Tree) -> bool {
    let h = w.node.0 as int;
    match g[h] {
        Node::Leaf { symbol, values } => t == Tree::Leaf(symbol, values) && w.child == 0,
        Node::NullingLeaf { symbol } => t == Tree::Null(symbol) && w.child == 0,
        Node::Rule { left_factor, right_factor } => match t {
            Tree::Pair(a, b) => w.child <= 1 && rep(g, f, if w.child == 0 { left_factor.0 as int } else { right_factor.0 as int }, *a) && (if w.child == 0 { match *b { Tree::Pair(c, d) => rep(g, f, right_factor.0 as int, *c) && *d is Nothing, _ => false } } else { *b is Nothing }),
            _ => t is Nothing && w.child > 1 },
        Node::Sum { count, .. } => w.child <= count && if w.child < count { match t { Tree::Pair(a, b) => rep(g, f, h + 1 + w.child, *a) && h + 1 + w.child < g.len() && reps(g, f, h, w.child + 1, count as int, *b), _ => false } } else { t is Nothing },
        Node::Product { factors, action } => w.child == 0 && factors.0 < g.len() && (action != NULL_ACTION && !(g[factors.0 as int] is Rule) ==> action < f.nulling_eliminated@.len()) && (match t { Tree::Act(o, c) => o == origin(f, action) && (filled(g, f, g[h]) || rep(g, f, factors.0 as int, *c)), _ => false }),
    }
}
pub proof fn shaped(g: Seq<Node>, f: ForestInfo, w: WorkNode<'_>, x: Fr)
    requires okf(g, f, w, x), x is Eval
    ensures shape(g, f, w, x->Eval_t), w.node.0 < g.len()
{
    let t = x->Eval_t; let h = w.node.0 as int;
    if w.child == 0 { assert(rep(g, f, h, t)); }
    match g[h] {
        Node::Sum { count, .. } => { assert(reps(g, f, h, w.child as int, count as int, t)); if w.child < count { if let Tree::Pair(a, b) = t { assert(rep(g, f, h + 1 + w.child, *a)); } } }
        _ => {}
    }
}
pub proof fn okfs_down(g: Seq<Node>, f: ForestInfo, ws: Seq<WorkNode<'_>>, fr: Seq<Fr>, ws2: Seq<WorkNode<'_>>, a: Fr, b: Fr)
    requires okfs(g, f, ws, fr), ws.len() > 1, ws2.len() == ws.len() + 1, forall|i: int| 0 < i < ws.len() - 1 ==> ws2[i] == ws[i], okf(g, f, ws2[ws.len() - 1], a), okf(g, f, ws2[ws.len() as int], b), framed(fr.drop_last().push(a).push(b))
    ensures okfs(g, f, ws2, fr.drop_last().push(a).push(b))
{
    let fr2 = fr.drop_last().push(a).push(b);
    assert forall|i: int| 0 < i < ws2.len() implies okf(g, f, #[trigger] ws2[i], fr2[i]) by { if i < ws.len() - 1 { assert(okf(g, f, ws[i], fr[i])); } }
}
pub proof fn okfs_up(g: Seq<Node>, f: ForestInfo, ws: Seq<WorkNode<'_>>, fr: Seq<Fr>, ws2: Seq<WorkNode<'_>>, p: int)
    requires okfs(g, f, ws, fr), ws.len() > 1, others(ws, ws2, ws.len() - 1, p), ws2.len() == ws.len() - 1, p == 0 || fr[p] is Fin, framed(fr.drop_last())
    ensures okfs(g, f, ws2, fr.drop_last())
{
    assert forall|i: int| 0 < i < ws2.len() implies okf(g, f, #[trigger] ws2[i], fr.drop_last()[i]) by { assert(okf(g, f, ws[i], fr[i])); }
}
//@ impl ST `impl Bocage`
//@ fn evaluate props=P23
    requires
        rooted(old(self).graph@, old(self).forest_info, root_node), old(log)@.len() == 0,
        // the tree the forest represents; handles and counts of results are 32-bit
        top(old(self).graph@, root_node) matches Some(h) ==> rep(old(self).graph@, old(self).forest_info, h.0 as int, tree@) && made(calls(eval, tree@, 0)) < 0x1_0000_0000
            && old(self).graph@.len() + sz(tree@) + 2 < 0x1_0000_0000 && old(self).summand_count <= old(self).graph@.len(),
    ensures
        final(self).forest_info == old(self).forest_info, final(self).summand_count == old(self).summand_count,
        match top(old(self).graph@, root_node) {
            Some(_) => r@ == val(eval, tree@, 0) && final(log)@ == calls(eval, tree@, 0),
            None => ({ let q = eval.s_nulling(0, old(self).forest_info.start); r@ == q && final(log)@ == seq![Call::<E::Elem>::Nulling(old(self).forest_info.start, q)] }),
        }
//@ sig `, eval : E` => `, log : & mut Ghost < Seq < Call < E :: Elem > > > , tree : Ghost < Tree > , eval : E`
//@ rewrite `eval . leaf (` => `eval.leaf(log, `
//@ rewrite `eval . product (` => `eval.product(log, `
//@ rewrite `eval . nulling (` => `eval.nulling(log, `
//@ closure 0
    -> (r: &E::Elem) requires v < results@.len() ensures *r == results@[v as int]
//@ entry
    hide(run); hide(val); hide(calls); hide(sz); hide(frsz); hide(made); hide(rep); hide(reps);
    proof { assert(old(log)@ =~= Seq::empty()); assert forall|s: Seq<E::Elem>| #[trigger] (Seq::<E::Elem>::empty() + s) == s by { assert(Seq::<E::Elem>::empty() + s =~= s); } }
//@ before_loop 0
    let ghost g0 = self.graph@; let ghost fi = self.forest_info; let ghost m0 = sz(tree@);
    let ghost mut fr = seq![Fr::Eval { t: Tree::Nothing, p: 0 }, Fr::Eval { t: tree@, p: 0 }];
    let ghost mut accs: Seq<Seq<E::Elem>> = seq![Seq::empty(), Seq::empty()];
    proof {
        run_start(eval, tree@);
    }
//@ loop 0 while
    invariant
        self.forest_info == fi, self.summand_count == old(self).summand_count, self.summand_count <= self.graph@.len(), g0.len() <= self.graph@.len(), self.graph@.len() + frsz(fr) + 2 < 0x1_0000_0000,
        okfs(self.graph@, fi, work_stack@, fr), lists(work_stack@, results@, accs),
        run(eval, fr, accs, log@) == (val(eval, tree@, 0), calls(eval, tree@, 0)),
        made(log@) == results@.len(), made(calls(eval, tree@, 0)) < 0x1_0000_0000,
    decreases frsz(fr)
//@ loop_start 0
    let ghost ws0 = work_stack@; let ghost rs0 = results@; let ghost log0 = log@; let ghost k = ws0.len() - 1; let ghost x0 = self.graph@[ws0[k].node.0 as int]; let ghost gg = self.graph@;
    let ghost w0 = ws0[k]; let ghost f0 = fr[k]; let ghost p = fparent(f0); let ghost n = log0.len() as int;
    proof {
        frsz_pos(fr); frsz_pos(fr.drop_last()); room_next(eval, fr, accs, log0);
        assert(okf(gg, fi, w0, f0)); assert(0 <= p < k && (p == 0 || fr[p] is Fin));
        assert(accs[k].len() == w0.results@.len());
        assert forall|j: int| 0 <= j < w0.results@.len() implies #[trigger] w0.results@[j] < rs0.len() && rs0[w0.results@[j] as int] == accs[k][j] by { assert(idx(ws0, k, j) < rs0.len()); }
        if f0 is Eval { shaped(gg, fi, w0, f0); }
    }
//@ loop_end 0
    proof {
        let h = w0.node.0 as int; let g = self.graph@;
        if w0.child == 0 && filled(gg, fi, x0) { okfs_kept(gg, fi, h, g, ws0, fr); } else { assert(g =~= gg); }
        assert(okfs(g, fi, ws0, fr)); assert(okf(g, fi, w0, f0)); if f0 is Eval { shaped(g, fi, w0, f0); }
        let e0: Seq<E::Elem> = Seq::empty();
        match f0 {
            Fr::Eval { t, .. } => match t {
                Tree::Leaf(_, _) | Tree::Null(_) => {
                    let new = atom_new(eval, t, n);
                    step_atom(eval, fr, accs, log0);
                    assert(results@ =~= rs0 + new);
                    lists_give(ws0, rs0, accs, work_stack@, new, p);
                    okfs_up(g, fi, ws0, fr, work_stack@, p);
                    accs = accs.drop_last().update(p, accs[p].push(new[0])); fr = fr.drop_last();
                }
                Tree::Nothing => {
                    step_nothing(eval, fr, accs, log0); lists_drop(ws0, rs0, accs);
                    assert(work_stack@ =~= ws0.drop_last());
                    okfs_up(g, fi, ws0, fr, work_stack@, 0);
                    accs = accs.drop_last(); fr = fr.drop_last();
                }
                Tree::Pair(a, b) => {
                    step_pair(eval, fr, accs, log0, *a, *b, e0); lists_down(ws0, rs0, accs, work_stack@);
                    okfs_down(g, fi, ws0, fr, work_stack@, Fr::Eval { t: *b, p }, Fr::Eval { t: *a, p });
                    accs = accs.push(e0); fr = fr.drop_last().push(Fr::Eval { t: *b, p }).push(Fr::Eval { t: *a, p });
                }
                Tree::Act(o, c) => {
                    step_act(eval, fr, accs, log0, o, *c, e0); lists_down(ws0, rs0, accs, work_stack@);
                    okfs_down(g, fi, ws0, fr, work_stack@, Fr::Fin { id: o, rest: Tree::Nothing, p }, Fr::Eval { t: *c, p: k });
                    accs = accs.push(e0); fr = fr.drop_last().push(Fr::Fin { id: o, rest: Tree::Nothing, p }).push(Fr::Eval { t: *c, p: k });
                }
            },
            Fr::Fin { id, rest, .. } => {
                let a1 = accs.drop_last().update(p, accs[p] + finv(eval, id, accs[k], n)); let f1 = fr.drop_last().push(Fr::Eval { t: rest, p });
                step_fin(eval, fr, accs, log0, id, rest, e0);
                step_nothing(eval, f1, a1.push(e0), log0 + finc(eval, id, accs[k], n));
                assert(f1.drop_last() =~= fr.drop_last()); assert(a1.push(e0).drop_last() =~= a1);
                if let Some(y) = id {
                    let v = eval.s_product(n, y, accs[k]);
                    assert forall|j: int| 0 <= j < accs[k].len() implies log@.last()->Product_1[j] == accs[k][j] by { assert(w0.results@[j] < rs0.len()); } assert(log@.last()->Product_1 =~= accs[k]);
                    assert(results@ =~= rs0 + seq![v]); assert(log@ =~= log0 + finc(eval, id, accs[k], n)); made_push(log0, y, accs[k], v);
                    lists_give(ws0, rs0, accs, work_stack@, seq![v], p);
                    assert(accs[p] + finv(eval, id, accs[k], n) =~= accs[p].push(v));
                } else {
                    assert(log@ =~= log0 + finc(eval, id, accs[k], n));
                    lists_splice(ws0, rs0, accs, work_stack@, p);
                }
                okfs_up(g, fi, ws0, fr, work_stack@, p);
                accs = a1; fr = fr.drop_last();
            }
        }
        frsz_pos(fr);
    }
//@ desugar_collect 1 out_
    let ghost fin = results@; let ghost a0 = accs[0];
    proof { assert(framed(fr)); run_end(eval, fr, accs, log@); assert(work_stack@[0].results@.len() == a0.len()); }
---
        lists(work_stack@, fin, accs), work_stack@.len() > 0, a0 == accs[0], a0.len() == out_all.len(), results@.len() == fin.len(), forall|j: int| 0 <= j < out_all.len() ==> #[trigger] out_all[j] == idx(work_stack@, 0, j),
        forall|j: int| 0 <= j < out_n ==> #[trigger] out_out@[j] == a0[j],
        forall|j: int| out_n <= j < out_all.len() ==> results@[#[trigger] idx(work_stack@, 0, j)] == a0[j],
//@ endfn
//@ endimpl
