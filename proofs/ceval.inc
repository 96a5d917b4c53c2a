// ---- P23, compact forest ----
/// A node is stored at `h`; which, and in how many bytes (unique: `at_unique`).
pub open spec fn has(v: Seq<u8>, h: int) -> bool { exists|n: Node, z: int| at(v, h, n, z) }
pub open spec fn node_at(v: Seq<u8>, h: int) -> (Node, int) { choose|x: (Node, int)| #[trigger] at(v, h, x.0, x.1) }
pub open spec fn nd(v: Seq<u8>, h: int) -> Node { node_at(v, h).0 }
pub open spec fn nz(v: Seq<u8>, h: int) -> int { node_at(v, h).1 }
pub open spec fn extends(v: Seq<u8>, w: Seq<u8>) -> bool { v.len() <= w.len() && w.subrange(0, v.len() as int) == v }
pub proof fn nd_at(v: Seq<u8>, h: int)
    requires has(v, h)
    ensures at(v, h, nd(v, h), nz(v, h)), h + nz(v, h) <= v.len(), h >= 0, nz(v, h) > 0
{
    let (n, z) = choose|n: Node, z: int| at(v, h, n, z); let x = (n, z);
    assert(at(v, h, x.0, x.1));
}
pub proof fn nd_is(v: Seq<u8>, h: int, n: Node, z: int)
    requires at(v, h, n, z)
    ensures has(v, h), nd(v, h) == n, nz(v, h) == z
{ nd_at(v, h); at_unique(v, h, n, z, nd(v, h), nz(v, h)); }
pub proof fn nd_kept(v: Seq<u8>, w: Seq<u8>, h: int)
    requires has(v, h), extends(v, w)
    ensures has(w, h), nd(w, h) == nd(v, h), nz(w, h) == nz(v, h)
{ nd_at(v, h); at_append(v, h, nd(v, h), nz(v, h), w); nd_is(w, h, nd(v, h), nz(v, h)); }
/// The user's rule that an action stands for.
pub open spec fn origin(f: ForestInfo, action: u32) -> Option<u32> {
    if action == NULL_ACTION { None } else if action < f.eval@.len() && f.eval@[action as int].id != !0u32 { Some(f.eval@[action as int].id) } else { None }
}
/// The hidden nulling symbol of an action.
pub open spec fn phantom(f: ForestInfo, action: u32) -> Option<(Symbol, bool)> { if action == NULL_ACTION { None } else { f.nulling_eliminated@[action as int] } }
/// The node `h` represents the tree `t` (an alternative: with those after it).
pub open spec fn rep(v: Seq<u8>, f: ForestInfo, h: int, t: Tree) -> bool decreases t, 1int {
    has(v, h) && match nd(v, h) {
        Node::Leaf { symbol, values } => t == Tree::Leaf(symbol, values),
        Node::NullingLeaf { symbol } => t == Tree::Null(symbol),
        Node::Rule { left_factor, right_factor } => match t { Tree::Pair(a, b) => rep(v, f, left_factor.0 as int, *a) && (match *b { Tree::Pair(c, d) => rep(v, f, right_factor.0 as int, *c) && *d is Nothing, _ => false }), _ => false },
        Node::BeginSum => match t { Tree::Pair(a, b) => *a is Nothing && rep(v, f, h + 1, *b), _ => false },
        Node::EndSum => t is Nothing,
        Node::Product { factors, action } => match t { Tree::Act(o, c) => o == origin(f, action) && factored(v, f, factors.0 as int, action, *c), _ => false },
        Node::Summand { factors, action } => match t { Tree::Pair(x, b) => (match *x { Tree::Act(o, c) => o == origin(f, action) && factored(v, f, factors.0 as int, action, *c), _ => false }) && rep(v, f, h + nz(v, h), *b), _ => false },
    }
}
/// What a rule application is over, with its hidden symbol.
pub open spec fn factored(v: Seq<u8>, f: ForestInfo, x: int, action: u32, t: Tree) -> bool decreases t, 2int {
    has(v, x) && if nd(v, x) is Rule || action == NULL_ACTION { rep(v, f, x, t) } else { action < f.nulling_eliminated@.len() && match phantom(f, action) {
        None => rep(v, f, x, t),
        Some((sym, dir)) => { let (l, r) = if dir { (x, 9 * sym.n) } else { (9 * sym.n, x) };
            match t { Tree::Pair(a, b) => rep(v, f, l, *a) && (match *b { Tree::Pair(c, d) => rep(v, f, r, *c) && *d is Nothing, _ => false }), _ => false } },
    } }
}
pub proof fn rep_kept(v: Seq<u8>, f: ForestInfo, w: Seq<u8>, h: int, t: Tree)
    requires extends(v, w), rep(v, f, h, t)
    ensures rep(w, f, h, t)
    decreases t, 1int
{
    nd_kept(v, w, h);
    match nd(v, h) {
        Node::Rule { left_factor, right_factor } => { if let Tree::Pair(a, b) = t { rep_kept(v, f, w, left_factor.0 as int, *a); if let Tree::Pair(c, d) = *b { rep_kept(v, f, w, right_factor.0 as int, *c); } } }
        Node::BeginSum => { if let Tree::Pair(a, b) = t { rep_kept(v, f, w, h + 1, *b); } }
        Node::Product { factors, action } => { if let Tree::Act(o, c) = t { factored_kept(v, f, w, factors.0 as int, action, *c); } }
        Node::Summand { factors, action } => { if let Tree::Pair(x, b) = t { if let Tree::Act(o, c) = *x { factored_kept(v, f, w, factors.0 as int, action, *c); } rep_kept(v, f, w, h + nz(v, h), *b); } }
        _ => {}
    }
}
pub proof fn factored_kept(v: Seq<u8>, f: ForestInfo, w: Seq<u8>, x: int, action: u32, t: Tree)
    requires extends(v, w), factored(v, f, x, action, t)
    ensures factored(w, f, x, action, t)
    decreases t, 2int
{
    nd_kept(v, w, x);
    if nd(v, x) is Rule || action == NULL_ACTION || phantom(f, action) is None { rep_kept(v, f, w, x, t); } else {
        let (sym, dir) = phantom(f, action)->0; let (l, r) = if dir { (x, 9 * sym.n) } else { (9 * sym.n, x) };
        if let Tree::Pair(a, b) = t { rep_kept(v, f, w, l, *a); if let Tree::Pair(c, d) = *b { rep_kept(v, f, w, r, *c); } }
    }
}
/// Action and factors of a rule application.
pub open spec fn ruled(x: Node) -> Option<(u32, NodeHandle)> { match x { Node::Product { factors, action } => Some((action, factors)), Node::Summand { factors, action } => Some((action, factors)), _ => None } }
pub open spec fn filled(v: Seq<u8>, f: ForestInfo, x: Node) -> bool { match ruled(x) { Some((action, factors)) => !(nd(v, factors.0 as int) is Rule) && action != NULL_ACTION && phantom(f, action) is Some, _ => false } }
pub open spec fn fill(f: ForestInfo, x: Node) -> Node {
    let (action, factors) = ruled(x)->0; let (sym, dir) = phantom(f, action)->0; let y = NodeHandle((9 * sym.n) as u32);
    if dir { Node::Rule { left_factor: factors, right_factor: y } } else { Node::Rule { left_factor: y, right_factor: factors } }
}
//@ impl CB `impl Bocage` as `impl Bocage`
//@ fn postprocess_product_tree_node props=P23
    requires room(*old(self)), ruled(node) matches Some(x) ==> has(old(self).graph.vect@, x.1.0 as int) && (x.0 != NULL_ACTION && !(nd(old(self).graph.vect@, x.1.0 as int) is Rule) ==> x.0 < old(self).forest_info.nulling_eliminated@.len() && (phantom(old(self).forest_info, x.0) matches Some(y) ==> 9 * y.0.n < 0x1_0000_0000))
    ensures same_info(*old(self), *final(self)), final(self).sum == old(self).sum, final(self).num_summands == old(self).num_summands,
        ({ let v = old(self).graph.vect@; let f = old(self).forest_info; if filled(v, f, node) { r == (Node::Product { factors: NodeHandle(v.len() as u32), action: (ruled(node)->0).0 }) && final(self).graph.vect@ == v + short(fill(f, node)) } else { r == node && final(self).graph.vect@ == v } })
//@ entry
    proof { if let Some(x) = ruled(node) { nd_at(self.graph.vect@, x.1.0 as int); assert forall|n: Node, z: int| #[trigger] at(self.graph.vect@, x.1.0 as int, n, z) implies n == nd(self.graph.vect@, x.1.0 as int) by { nd_is(self.graph.vect@, x.1.0 as int, n, z); } } }
//@ endfn
//@ endimpl
/// Where the tree begins behind the mark of the start of input; none for the trivial parse.
pub open spec fn over(v: Seq<u8>, x: Node) -> Option<NodeHandle> { match ruled(x) { Some(y) => (match nd(v, y.1.0 as int) { Node::Rule { right_factor, .. } => Some(right_factor), _ => None }), None => None } }
pub open spec fn top(v: Seq<u8>, h: NodeHandle) -> Option<NodeHandle> {
    match nd(v, h.0 as int) { Node::Summand { .. } => over(v, nd(v, h.0 as int)), Node::BeginSum => over(v, nd(v, h.0 + 1)), _ => Some(h) }
}
/// A rule application over the mark of the start of input.
pub open spec fn marked(v: Seq<u8>, f: ForestInfo, x: Node) -> bool {
    x matches Node::Summand { factors, .. } && has(v, factors.0 as int) && match nd(v, factors.0 as int) { Node::Rule { left_factor, .. } => has(v, left_factor.0 as int) && (nd(v, left_factor.0 as int) matches Node::Leaf { symbol, .. } && symbol == f.sof), _ => true }
}
/// The root of a finished parse: a rule application of the start rule whose left part is the mark of the start of input (the first of several), or the nulling start symbol.
pub open spec fn rooted(v: Seq<u8>, f: ForestInfo, h: NodeHandle) -> bool {
    has(v, h.0 as int) && match nd(v, h.0 as int) {
        Node::Summand { .. } => marked(v, f, nd(v, h.0 as int)), Node::NullingLeaf { .. } => true,
        Node::BeginSum => has(v, h.0 + 1) && h.0 < 0xffff_ffff && marked(v, f, nd(v, h.0 + 1)) && over(v, nd(v, h.0 + 1)) is Some,
        _ => false }
}
/// A frame of the work stack and the work that it stands for.
pub open spec fn okf(v: Seq<u8>, f: ForestInfo, w: WorkNode<'_>, x: Fr) -> bool {
    let h = w.node.0 as int;
    &&& w.parent == fparent(x)
    &&& match x {
        Fr::Eval { t, .. } => w.results@.len() == 0 && if w.child == 0 { rep(v, f, h, t) } else {
            has(v, h) && match nd(v, h) { Node::Rule { right_factor, .. } => (if w.child == 1 { t matches Tree::Pair(c, d) && rep(v, f, right_factor.0 as int, *c) && *d is Nothing } else { t is Nothing }), _ => false } },
        Fr::Fin { id, rest, .. } => has(v, h) && w.child > 0 && match nd(v, h) { Node::Product { action, .. } => id == origin(f, action) && rest is Nothing, Node::Summand { action, .. } => id == origin(f, action) && rep(v, f, h + nz(v, h), rest), _ => false },
    }
}
pub open spec fn okfs(v: Seq<u8>, f: ForestInfo, ws: Seq<WorkNode<'_>>, fr: Seq<Fr>) -> bool { fr.len() == ws.len() && framed(fr) && forall|i: int| 0 < i < ws.len() ==> okf(v, f, #[trigger] ws[i], fr[i]) }
pub proof fn okfs_kept(v: Seq<u8>, f: ForestInfo, w: Seq<u8>, ws: Seq<WorkNode<'_>>, fr: Seq<Fr>)
    requires extends(v, w), okfs(v, f, ws, fr)
    ensures okfs(w, f, ws, fr)
{
    assert forall|i: int| 0 < i < ws.len() implies okf(w, f, #[trigger] ws[i], fr[i]) by {
        assert(okf(v, f, ws[i], fr[i]));
        let h = ws[i].node.0 as int; if let Fr::Eval { t, .. } = fr[i] { if ws[i].child == 0 { assert(rep(v, f, h, t)); } } nd_kept(v, w, h);
        match fr[i] {
            Fr::Eval { t, .. } => { if ws[i].child == 0 { rep_kept(v, f, w, h, t); } else { if let Node::Rule { right_factor, .. } = nd(v, h) { if ws[i].child == 1 { if let Tree::Pair(c, d) = t { rep_kept(v, f, w, right_factor.0 as int, *c); } } } } }
            Fr::Fin { rest, .. } => { if nd(v, h) is Summand { rep_kept(v, f, w, h + nz(v, h), rest); } }
        }
    }
}
/// What kind of node a frame's tree has (`x`: the node, with its hidden symbol put back).
pub open spec fn shape(v: Seq<u8>, f: ForestInfo, w: WorkNode<'_>, x: Node, t: Tree) -> bool {
    let h = w.node.0 as int;
    match x {
        Node::Leaf { symbol, values } => t == Tree::Leaf(symbol, values) && w.child == 0,
        Node::NullingLeaf { symbol } => t == Tree::Null(symbol) && w.child == 0,
        Node::Rule { left_factor, right_factor } => match t {
            Tree::Pair(a, b) => w.child <= 1 && rep(v, f, if w.child == 0 { left_factor.0 as int } else { right_factor.0 as int }, *a) && (if w.child == 0 { match *b { Tree::Pair(c, d) => rep(v, f, right_factor.0 as int, *c) && *d is Nothing, _ => false } } else { *b is Nothing }),
            _ => t is Nothing && w.child > 1 },
        Node::BeginSum => w.child == 0 && match t { Tree::Pair(a, b) => *a is Nothing && rep(v, f, h + 1, *b), _ => false },
        Node::EndSum => w.child == 0 && t is Nothing,
        Node::Product { .. } | Node::Summand { .. } => w.child == 0 && { let (action, factors) = ruled(x)->0; match nd(v, h) {
            Node::Product { .. } => (match t { Tree::Act(o, c) => o == origin(f, action) && rep(v, f, factors.0 as int, *c), _ => false }),
            _ => (match t { Tree::Pair(y, b) => (match *y { Tree::Act(o, c) => o == origin(f, action) && rep(v, f, factors.0 as int, *c), _ => false }) && rep(v, f, h + nz(v, h), *b), _ => false }) } },
    }
}
pub proof fn shaped(v: Seq<u8>, f: ForestInfo, w: WorkNode<'_>, x: Fr)
    requires okf(v, f, w, x), x is Eval, v.len() < 0x1_0000_0000
    ensures has(v, w.node.0 as int),
        // what is needed to put a hidden symbol back
        w.child == 0 ==> (ruled(nd(v, w.node.0 as int)) matches Some(y) ==> has(v, y.1.0 as int) && (y.0 != NULL_ACTION && !(nd(v, y.1.0 as int) is Rule) ==> y.0 < f.nulling_eliminated@.len() && (phantom(f, y.0) matches Some(z) ==> 9 * z.0.n < 0x1_0000_0000))),
        w.child != 0 || !filled(v, f, nd(v, w.node.0 as int)) ==> shape(v, f, w, nd(v, w.node.0 as int), x->Eval_t),
        w.child == 0 && filled(v, f, nd(v, w.node.0 as int)) ==> ({ let n = nd(v, w.node.0 as int); shape(v + short(fill(f, n)), f, w, Node::Product { action: (ruled(n)->0).0, factors: NodeHandle(v.len() as u32) }, x->Eval_t) }),
{
    let t = x->Eval_t; let h = w.node.0 as int; let n = nd(v, h);
    if w.child == 0 { assert(rep(v, f, h, t)); }
    nd_at(v, h);
    if w.child == 0 {
        if let Some((action, factors)) = ruled(n) {
            let c = if n is Product { *(t->Act_1) } else { *((*(t->Pair_0))->Act_1) };
            assert(factored(v, f, factors.0 as int, action, c));
            if filled(v, f, n) {
                let u = short(fill(f, n)); let w2 = v + u;
                let (sym, dir) = phantom(f, action)->0;
                let (l, r) = if dir { (factors.0 as int, 9 * sym.n) } else { (9 * sym.n, factors.0 as int) };
                let a = *(c->Pair_0); let b = *(c->Pair_1); let c2 = *(b->Pair_0);
                assert(has(v, 9 * sym.n)); nd_at(v, 9 * sym.n);
                assert(w2.subrange(0, v.len() as int) =~= v);
                rep_kept(v, f, w2, l, a); rep_kept(v, f, w2, r, c2); nd_kept(v, w2, h);
                short_at_end(v, fill(f, n)); nd_is(w2, v.len() as int, fill(f, n), u.len() as int);
                assert(rep(w2, f, v.len() as int, c));
                if n is Summand { rep_kept(v, f, w2, h + nz(v, h), *(t->Pair_1)); }
            }
        }
    }
}
pub proof fn okfs_down(v: Seq<u8>, f: ForestInfo, ws: Seq<WorkNode<'_>>, fr: Seq<Fr>, ws2: Seq<WorkNode<'_>>, a: Fr, b: Fr)
    requires okfs(v, f, ws, fr), ws.len() > 1, ws2.len() == ws.len() + 1, forall|i: int| 0 < i < ws.len() - 1 ==> ws2[i] == ws[i], okf(v, f, ws2[ws.len() - 1], a), okf(v, f, ws2[ws.len() as int], b), framed(fr.drop_last().push(a).push(b))
    ensures okfs(v, f, ws2, fr.drop_last().push(a).push(b))
{
    let fr2 = fr.drop_last().push(a).push(b);
    assert forall|i: int| 0 < i < ws2.len() implies okf(v, f, #[trigger] ws2[i], fr2[i]) by { if i < ws.len() - 1 { assert(okf(v, f, ws[i], fr[i])); } }
}
pub proof fn okfs_up(v: Seq<u8>, f: ForestInfo, ws: Seq<WorkNode<'_>>, fr: Seq<Fr>, ws2: Seq<WorkNode<'_>>, p: int)
    requires okfs(v, f, ws, fr), ws.len() > 1, others(ws, ws2, ws.len() - 1, p), ws2.len() == ws.len() - 1, p == 0 || fr[p] is Fin, framed(fr.drop_last())
    ensures okfs(v, f, ws2, fr.drop_last())
{
    assert forall|i: int| 0 < i < ws2.len() implies okf(v, f, #[trigger] ws2[i], fr.drop_last()[i]) by { assert(okf(v, f, ws[i], fr[i])); }
}
/// The last frame gives way to one for what follows it.
pub proof fn okfs_next(v: Seq<u8>, f: ForestInfo, ws: Seq<WorkNode<'_>>, fr: Seq<Fr>, ws2: Seq<WorkNode<'_>>, p: int, b: Fr)
    requires okfs(v, f, ws, fr), ws.len() > 1, others(ws, ws2, ws.len() - 1, p), ws2.len() == ws.len(), p == 0 || fr[p] is Fin, okf(v, f, ws2.last(), b), framed(fr.drop_last().push(b))
    ensures okfs(v, f, ws2, fr.drop_last().push(b))
{
    let fr2 = fr.drop_last().push(b);
    assert forall|i: int| 0 < i < ws2.len() implies okf(v, f, #[trigger] ws2[i], fr2[i]) by { if i < ws.len() - 1 { assert(okf(v, f, ws[i], fr[i])); } }
}
//@ impl ST `impl Bocage`
//@ fn evaluate props=P23
    requires
        rooted(old(self).graph.vect@, old(self).forest_info, root_node), old(log)@.len() == 0,
        // the tree the forest represents; handles and counts of results are 32-bit
        top(old(self).graph.vect@, root_node) matches Some(h) ==> rep(old(self).graph.vect@, old(self).forest_info, h.0 as int, tree@) && made(calls(eval, tree@, 0)) < 0x1_0000_0000
            && old(self).graph.vect@.len() + 9 * sz(tree@) + 16 < 0x1_0000_0000 && old(self).num_summands <= old(self).graph.vect@.len() && (old(self).sum is Some ==> old(self).sum->0 <= old(self).graph.vect@.len()),
    ensures
        same_info(*old(self), *final(self)), final(self).num_summands == old(self).num_summands,
        match top(old(self).graph.vect@, root_node) {
            Some(_) => r@ == val(eval, tree@, 0) && final(log)@ == calls(eval, tree@, 0),
            None => ({ let q = eval.s_nulling(0, old(self).forest_info.start); r@ == q && final(log)@ == seq![Call::<E::Elem>::Nulling(old(self).forest_info.start, q)] }),
        }
//@ sig `, eval : E` => `, log : & mut Ghost < Seq < Call < E :: Elem > > > , tree : Ghost < Tree > , eval : E`
//@ rewrite `eval . leaf (` => `eval.leaf(log, `
//@ rewrite `eval . product (` => `eval.product(log, `
//@ rewrite `eval . nulling (` => `eval.nulling(log, `
//@ closure 0
    -> (r: &E::Elem) requires v < results@.len() ensures *r == results@[v as int]
//@ entry
    hide(run); hide(val); hide(calls); hide(sz); hide(frsz); hide(made); hide(rep); hide(factored);
    proof {
        let v = self.graph.vect@;
        assert(old(log)@ =~= Seq::empty()); assert forall|s: Seq<E::Elem>| #[trigger] (Seq::<E::Elem>::empty() + s) == s by { assert(Seq::<E::Elem>::empty() + s =~= s); }
        assert forall|h: int, n: Node, z: int| #[trigger] at(v, h, n, z) implies n == nd(v, h) && z == nz(v, h) by { nd_is(v, h, n, z); }
        assert forall|h: int| #[trigger] has(v, h) implies at(v, h, nd(v, h), nz(v, h)) by { nd_at(v, h); }
        if nd(v, root_node.0 as int) is BeginSum { let i = (root_node.0 + 1) as u32; assert(has(v, i as int)); assert(at(v, i as int, nd(v, i as int), nz(v, i as int))); assert(at(v, root_node.0 + 1, nd(v, root_node.0 + 1), nz(v, root_node.0 + 1))); assert(at(v, NodeHandle(i).0 as int, nd(v, root_node.0 + 1), nz(v, root_node.0 + 1))); }
    }
//@ before_loop 0
    let ghost g0 = self.graph.vect@; let ghost fi = self.forest_info;
    let ghost mut fr = seq![Fr::Eval { t: Tree::Nothing, p: 0 }, Fr::Eval { t: tree@, p: 0 }];
    let ghost mut accs: Seq<Seq<E::Elem>> = seq![Seq::empty(), Seq::empty()];
    proof {
        run_start(eval, tree@);
    }
//@ loop 0 while
    invariant
        same_info(*old(self), *self), self.forest_info == fi, self.num_summands == old(self).num_summands, self.num_summands <= self.graph.vect@.len(), self.sum is Some ==> self.sum->0 <= self.graph.vect@.len(), self.graph.vect@.len() + 9 * frsz(fr) + 16 < 0x1_0000_0000,
        okfs(self.graph.vect@, fi, work_stack@, fr), lists(work_stack@, results@, accs),
        run(eval, fr, accs, log@) == (val(eval, tree@, 0), calls(eval, tree@, 0)),
        made(log@) == results@.len(), made(calls(eval, tree@, 0)) < 0x1_0000_0000,
    decreases frsz(fr)
//@ loop_start 0
    let ghost ws0 = work_stack@; let ghost rs0 = results@; let ghost log0 = log@; let ghost k = ws0.len() - 1; let ghost gg = self.graph.vect@;
    let ghost w0 = ws0[k]; let ghost f0 = fr[k]; let ghost p = fparent(f0); let ghost n = log0.len() as int; let ghost x0 = nd(gg, w0.node.0 as int); let ghost z0 = nz(gg, w0.node.0 as int);
    proof {
        frsz_pos(fr); frsz_pos(fr.drop_last()); room_next(eval, fr, accs, log0);
        assert(okf(gg, fi, w0, f0)); assert(0 <= p < k && (p == 0 || fr[p] is Fin));
        assert(accs[k].len() == w0.results@.len());
        assert forall|j: int| 0 <= j < w0.results@.len() implies #[trigger] w0.results@[j] < rs0.len() && rs0[w0.results@[j] as int] == accs[k][j] by { assert(idx(ws0, k, j) < rs0.len()); }
        if f0 is Eval { shaped(gg, fi, w0, f0); }
        nd_at(gg, w0.node.0 as int);
        assert forall|n: Node, z: int| #[trigger] at(gg, w0.node.0 as int, n, z) implies n == x0 && z == z0 by { nd_is(gg, w0.node.0 as int, n, z); }
        if f0 is Eval { if filled(gg, fi, x0) { assert((gg + short(fill(fi, x0))).subrange(0, gg.len() as int) =~= gg); assert(short(fill(fi, x0)).len() <= 9); } }
    }
//@ loop_end 0
    proof {
        let h = w0.node.0 as int; let g = self.graph.vect@;
        if g != gg { okfs_kept(gg, fi, g, ws0, fr); nd_kept(gg, g, h); }
        assert(okfs(g, fi, ws0, fr)); assert(okf(g, fi, w0, f0));
        let e0: Seq<E::Elem> = Seq::empty();
        match f0 {
            Fr::Eval { t, .. } => match t {
                Tree::Leaf(_, _) | Tree::Null(_) => {
                    let new = atom_new(eval, t, n);
                    step_atom(eval, fr, accs, log0);
                    assert(results@ =~= rs0 + new);
                    lists_give(ws0, rs0, accs, work_stack@, new, p);
                    okfs_up(g, fi, ws0, fr, work_stack@, p);
                    accs = accs.drop_last().update(p, accs[p].push(new[0])); fr = fr.drop_last();
                }
                Tree::Nothing => {
                    step_nothing(eval, fr, accs, log0); lists_drop(ws0, rs0, accs);
                    assert(work_stack@ =~= ws0.drop_last());
                    okfs_up(g, fi, ws0, fr, work_stack@, 0);
                    accs = accs.drop_last(); fr = fr.drop_last();
                }
                Tree::Pair(a, b) => {
                    if x0 is Rule {
                        step_pair(eval, fr, accs, log0, *a, *b, e0); lists_down(ws0, rs0, accs, work_stack@);
                        okfs_down(g, fi, ws0, fr, work_stack@, Fr::Eval { t: *b, p }, Fr::Eval { t: *a, p });
                        accs = accs.push(e0); fr = fr.drop_last().push(Fr::Eval { t: *b, p }).push(Fr::Eval { t: *a, p });
                    } else if x0 is BeginSum {
                        let f1 = fr.drop_last().push(Fr::Eval { t: *b, p }); let f2 = f1.push(Fr::Eval { t: *a, p });
                        step_pair(eval, fr, accs, log0, *a, *b, e0); step_nothing(eval, f2, accs.push(e0), log0);
                        assert(f2.drop_last() =~= f1); assert(accs.push(e0).drop_last() =~= accs);
                        lists_drop(ws0, rs0, accs);
                        lists_down(ws0.drop_last(), rs0, accs.drop_last(), work_stack@);
                        assert(accs[k] =~= e0); assert(accs.drop_last().push(e0) =~= accs);
                        okfs_next(g, fi, ws0, fr, work_stack@, 0, Fr::Eval { t: *b, p });
                        fr = f1;
                    } else {
                        let o = (*a)->Act_0; let c = (*a)->Act_1;
                        step_act_rest(eval, fr, accs, log0, o, *c, *b, e0); lists_down(ws0, rs0, accs, work_stack@);
                        okfs_down(g, fi, ws0, fr, work_stack@, Fr::Fin { id: o, rest: *b, p }, Fr::Eval { t: *c, p: k });
                        accs = accs.push(e0); fr = fr.drop_last().push(Fr::Fin { id: o, rest: *b, p }).push(Fr::Eval { t: *c, p: k });
                    }
                }
                Tree::Act(o, c) => {
                    step_act(eval, fr, accs, log0, o, *c, e0); lists_down(ws0, rs0, accs, work_stack@);
                    okfs_down(g, fi, ws0, fr, work_stack@, Fr::Fin { id: o, rest: Tree::Nothing, p }, Fr::Eval { t: *c, p: k });
                    accs = accs.push(e0); fr = fr.drop_last().push(Fr::Fin { id: o, rest: Tree::Nothing, p }).push(Fr::Eval { t: *c, p: k });
                }
            },
            Fr::Fin { id, rest, .. } => {
                let a1 = accs.drop_last().update(p, accs[p] + finv(eval, id, accs[k], n)); let f1 = fr.drop_last().push(Fr::Eval { t: rest, p });
                step_fin(eval, fr, accs, log0, id, rest, e0);
                assert(f1.drop_last() =~= fr.drop_last()); assert(a1.push(e0).drop_last() =~= a1);
                let ws1 = if x0 is Summand { work_stack@.drop_last() } else { work_stack@ };
                if let Some(y) = id {
                    let v = eval.s_product(n, y, accs[k]);
                    assert forall|j: int| 0 <= j < accs[k].len() implies log@.last()->Product_1[j] == accs[k][j] by { assert(w0.results@[j] < rs0.len()); } assert(log@.last()->Product_1 =~= accs[k]);
                    assert(results@ =~= rs0 + seq![v]); assert(log@ =~= log0 + finc(eval, id, accs[k], n)); made_push(log0, y, accs[k], v);
                    lists_give(ws0, rs0, accs, ws1, seq![v], p);
                    assert(accs[p] + finv(eval, id, accs[k], n) =~= accs[p].push(v));
                } else {
                    assert(log@ =~= log0 + finc(eval, id, accs[k], n));
                    lists_splice(ws0, rs0, accs, ws1, p);
                }
                if x0 is Summand {
                    lists_down(ws1, results@, a1, work_stack@);
                    okfs_next(g, fi, ws0, fr, work_stack@, p, Fr::Eval { t: rest, p });
                    accs = a1.push(e0); fr = f1;
                } else {
                    step_nothing(eval, f1, a1.push(e0), log0 + finc(eval, id, accs[k], n));
                    okfs_up(g, fi, ws0, fr, work_stack@, p);
                    accs = a1; fr = fr.drop_last();
                }
            }
        }
        frsz_pos(fr);
    }
//@ desugar_collect 1 out_
    let ghost fin = results@; let ghost a0 = accs[0];
    proof { assert(framed(fr)); run_end(eval, fr, accs, log@); assert(work_stack@[0].results@.len() == a0.len()); }
---
        lists(work_stack@, fin, accs), work_stack@.len() > 0, a0 == accs[0], a0.len() == out_all.len(), results@.len() == fin.len(), forall|j: int| 0 <= j < out_all.len() ==> #[trigger] out_all[j] == idx(work_stack@, 0, j),
        forall|j: int| 0 <= j < out_n ==> #[trigger] out_out@[j] == a0[j],
        forall|j: int| out_n <= j < out_all.len() ==> results@[#[trigger] idx(work_stack@, 0, j)] == a0[j],
//@ endfn
//@ endimpl
