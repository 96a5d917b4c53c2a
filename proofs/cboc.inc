//@ file CB compact-bocage/src/bocage.rs
//@ struct CB Bocage public
//@ const CNODE NULL_ACTION
pub open spec fn summand(x: (u32, NodeHandle)) -> Node { Node::Summand { action: x.0, factors: x.1 } }
/// A sum's summands as they are stored: begin, the summands in order (end).
pub open spec fn sumseq(s: Seq<(u32, NodeHandle)>) -> Seq<(Node, bool)> { seq![(Node::BeginSum, false)] + s.map_values(|x: (u32, NodeHandle)| (summand(x), false)) }
/// The handle `h` names exactly the summands `s`: one directly, several as an ambiguity node whose alternatives
/// are found by stepping by sizes, up to its end.
pub open spec fn named(v: Seq<u8>, h: int, s: Seq<(u32, NodeHandle)>) -> bool {
    let q = sumseq(s).push((Node::EndSum, false));
    if s.len() == 1 { exists|z: int| at(v, h, summand(s[0]), z) } else {
        &&& at(v, h, Node::BeginSum, 1)
        &&& forall|k: int| 0 <= k < s.len() ==> at(v, h + off(q, k + 1), #[trigger] summand(s[k]), off(q, k + 2) - off(q, k + 1))
        &&& off(q, 1) == 1 && at(v, h + off(q, s.len() as int + 1), Node::EndSum, 1)
    }
}
/// The summands given since the sum began.
pub open spec fn pushed(b: Bocage, s: Seq<(u32, NodeHandle)>) -> bool {
    &&& b.sum is Some && (b.sum->0) as int <= b.graph.vect@.len() && b.num_summands == s.len()
    &&& b.graph.vect@.skip((b.sum->0) as int) == all(sumseq(s))
}
/// Less than 4 GiB of forest (handles are 32-bit positions).
pub open spec fn room(b: Bocage) -> bool { b.graph.vect@.len() + 16 < 0x1_0000_0000 && b.num_summands <= b.graph.vect@.len() && (b.sum is Some ==> b.sum->0 <= b.graph.vect@.len()) }
pub open spec fn same_info(a: Bocage, b: Bocage) -> bool { a.forest_info == b.forest_info && a.nulling_limit == b.nulling_limit }
pub proof fn at_shift(v: Seq<u8>, st: int, i: int, n: Node, z: int)
    requires 0 <= st <= v.len(), at(v.skip(st), i, n, z)
    ensures at(v, st + i, n, z)
{ assert(v.subrange(st + i, st + i + z) =~= v.skip(st).subrange(i, i + z)); }
pub proof fn short_at_end(v: Seq<u8>, n: Node)
    ensures at(v + short(n), v.len() as int, n, short(n).len() as int)
{
    assert(le4(nleft(n)).len() == 4 && le4(nright(n)).len() == 4);
    assert((v + short(n)).subrange(v.len() as int, (v.len() + short(n).len()) as int) =~= short(n));
}
pub proof fn sum_named(v: Seq<u8>, st: int, s: Seq<(u32, NodeHandle)>)
    requires 0 <= st <= v.len(), v.skip(st) == all(sumseq(s).push((Node::EndSum, false)))
    ensures named(v, if s.len() == 1 { st + 1 } else { st }, s)
{
    let q = sumseq(s).push((Node::EndSum, false));
    assert forall|k: int| 0 <= k < q.len() implies at(v, st + off(q, k), (#[trigger] q[k]).0, off(q, k + 1) - off(q, k)) by {
        history(q, k); at_shift(v, st, off(q, k), q[k].0, off(q, k + 1) - off(q, k));
    }
    assert(q[0].0 == Node::BeginSum && q[s.len() as int + 1].0 == Node::EndSum);
    history(q, 0);
    assert(off(q, 1) == 1) by { let t = q.take(1); assert(t.drop_last() =~= seq![]); assert(t.last() == (Node::BeginSum, false)); assert(all(t.drop_last()) =~= seq![]); assert(all(t) =~= seq![0u8]); }
    assert forall|k: int| 0 <= k < s.len() implies at(v, st + off(q, k + 1), #[trigger] summand(s[k]), off(q, k + 2) - off(q, k + 1)) by {
        assert(q[k + 1].0 == summand(s[k]));
    }
    assert(at(v, st + off(q, s.len() as int + 1), q[s.len() as int + 1].0, off(q, s.len() as int + 2) - off(q, s.len() as int + 1)));
    at_one(v, st + off(q, s.len() as int + 1), off(q, s.len() as int + 2) - off(q, s.len() as int + 1));
    assert(at(v, st + off(q, 0), q[0].0, off(q, 1) - off(q, 0)));
}
pub proof fn at_one(v: Seq<u8>, i: int, z: int)
    requires at(v, i, Node::EndSum, z)
    ensures z == 1
{ assert(v.subrange(i, i + z).len() == z); }
/// P10: the nulling handle of `x` names its leaf, or the product over the rule of its last intermediate rule.
pub open spec fn nulled(v: Seq<u8>, f: ForestInfo, c: int, x: int) -> bool {
    let q = f.nulling_intermediate_rules@; let i = last_rule(q, q.len() as int, x);
    if i < 0 { at(v, 9 * x, Node::NullingLeaf { symbol: Symbol { n: x as u32 } }, 9) } else {
        &&& at(v, 9 * x, Node::Product { action: NULL_ACTION, factors: NodeHandle((9 * (c + 1 + i)) as u32) }, 9)
        &&& at(v, 9 * (c + 1 + i), Node::Rule { left_factor: NodeHandle((9 * q[i]@[1].id()) as u32), right_factor: NodeHandle((9 * q[i]@[2].id()) as u32) }, 9)
    }
}
/// The prepared nodes before they are stored, after `j` rules.
pub open spec fn prepared(n: Seq<Node>, q: Seq<[Symbol; 3]>, j: int, c: int) -> bool {
    &&& n.len() == c + 1 + j
    &&& forall|x: int| 0 <= x <= c ==> #[trigger] n[x] == (if last_rule(q, j, x) < 0 { Node::NullingLeaf { symbol: Symbol { n: x as u32 } } } else { Node::Product { action: NULL_ACTION, factors: NodeHandle((c + 1 + last_rule(q, j, x)) as u32) } })
    &&& forall|i: int| c < i < n.len() ==> #[trigger] n[i] == Node::Rule { left_factor: NodeHandle(q[i - c - 1]@[1].n), right_factor: NodeHandle(q[i - c - 1]@[2].n) }
}
pub open spec fn times9(h: NodeHandle) -> NodeHandle { NodeHandle((9 * h.0) as u32) }
/// ... as stored.
pub open spec fn scaled(n: Node) -> Node {
    match n { Node::Product { action, factors } => Node::Product { action, factors: times9(factors) },
        Node::Rule { left_factor, right_factor } => Node::Rule { left_factor: times9(left_factor), right_factor: times9(right_factor) }, x => x }
}
//@ impl NH `impl NodeHandle`
//@ fn nulling props=P10
    ensures r.0 == symbol.n
//@ sig `< T : SymbolPrimitive >` => ``
//@ sig `Symbol < T >` => `Symbol`
//@ endfn
//@ fn mul props=P10
    requires 9 * self.0 < 0x1_0000_0000
    ensures r == times9(self)
//@ endfn
//@ fn usize props=P10
    ensures r == self.0
//@ endfn
//@ endimpl
//@ impl CB `impl Bocage`
//@ fn with_capacity props=P10
    requires small(grammar.s_forest_info())
    ensures r.forest_info == grammar.s_forest_info(), r.sum is None, r.num_summands == 0, r.nulling_limit == r.graph.vect@.len(),
        exists|c: int| covers(r.forest_info, c) && forall|x: int| 0 <= x <= c ==> #[trigger] nulled(r.graph.vect@, r.forest_info, c, x)
//@ endfn
//@ fn new props=P10
    requires small(grammar.s_forest_info())
    ensures r.forest_info == grammar.s_forest_info(), r.sum is None, r.num_summands == 0, r.nulling_limit == r.graph.vect@.len(),
        exists|c: int| covers(r.forest_info, c) && forall|x: int| 0 <= x <= c ==> #[trigger] nulled(r.graph.vect@, r.forest_info, c, x)
//@ endfn
//@ fn nulling_symbol_count props=P10
    requires small(self.forest_info)
    ensures covers(self.forest_info, r as int), r < 0x10_0000
//@ entry
    proof {
        let q = self.forest_info.nulling_intermediate_rules@;
        assert forall|k: int| 0 <= k < q.len() implies q.contains(#[trigger] q[k]) by {}
    }
//@ endfn
//@ fn initialize_nulling props=P10
    requires small(old(self).forest_info), old(self).graph.vect@.len() == 0
    ensures final(self).forest_info == old(self).forest_info, final(self).sum == old(self).sum, final(self).num_summands == old(self).num_summands,
        final(self).nulling_limit == final(self).graph.vect@.len(),
        exists|c: int| covers(final(self).forest_info, c) && forall|x: int| 0 <= x <= c ==> #[trigger] nulled(final(self).graph.vect@, final(self).forest_info, c, x)
//@ rewrite `. collect ( )` => `.collect_()`
//@ closure 0
    -> (r: Node) ensures r == (Node::NullingLeaf { symbol })
//@ before `assert ! (`
    proof { assert(1usize << 20usize == 0x10_0000usize) by (bit_vector); }
//@ before_loop 0
    let ghost c = nulling_leaf_count as int;
    let ghost fi = self.forest_info;
    let ghost q = fi.nulling_intermediate_rules@;
//@ desugar_zip_mut 0
    invariant self.forest_info == fi, q == fi.nulling_intermediate_rules@, small(fi), covers(fi, c), c < 0x10_0000, 0 <= zip_i_ <= q.len(), prepared(nulling@, q, zip_i_ as int, c),
        c == nulling_leaf_count, self.graph.vect@.len() == 0, self.sum == old(self).sum, self.num_summands == old(self).num_summands
    decreases q.len() - zip_i_
//@ loop_start 1
    let ghost gone = it_n - 1; let ghost v0 = self.graph.vect@;
    proof {
        assert(node == it_all[gone]);
        if gone <= c { last_rule_is(q, q.len() as int, gone); }
        assert(kind(scaled(node)) >= 2);
        assert(le4(nleft(scaled(node))).len() == 4 && le4(nright(scaled(node))).len() == 4);
        assert(wide(scaled(node)).len() == 9);
    }
//@ loop_end 1
    proof {
        assert(self.graph.vect@ == v0 + wide(scaled(it_all[gone])));
        assert forall|k: int| 0 <= k < it_n implies at(self.graph.vect@, 9 * k, #[trigger] scaled(it_all[k]), 9) by {
            if k < gone { assert(self.graph.vect@.subrange(0, v0.len() as int) =~= v0); at_append(v0, 9 * k, scaled(it_all[k]), 9, self.graph.vect@); }
            else { assert(self.graph.vect@.subrange(9 * k, 9 * k + 9) =~= wide(scaled(it_all[k]))); }
        }
    }
//@ after_loop 1
    proof {
        assert forall|x: int| 0 <= x <= c implies #[trigger] nulled(self.graph.vect@, fi, c, x) by {
            let i = last_rule(q, q.len() as int, x); last_rule_is(q, q.len() as int, x);
            assert(at(self.graph.vect@, 9 * x, scaled(it_all[x]), 9));
            if i >= 0 { assert(at(self.graph.vect@, 9 * (c + 1 + i), scaled(it_all[c + 1 + i]), 9)); }
        }
    }
//@ exit
    proof { assert(covers(self.forest_info, c) && forall|x: int| 0 <= x <= c ==> #[trigger] nulled(self.graph.vect@, self.forest_info, c, x)); }
//@ desugar_seq 1 it_
        self.forest_info == fi, self.sum == old(self).sum, self.num_summands == old(self).num_summands, small(fi), q == fi.nulling_intermediate_rules@, covers(fi, c), c < 0x10_0000, prepared(it_all, q, q.len() as int, c),
        self.graph.vect@.len() == 9 * it_n,
        forall|k: int| 0 <= k < it_n ==> at(self.graph.vect@, 9 * k, #[trigger] scaled(it_all[k]), 9),
//@ endfn
//@ fn get props=P07,P08
    requires exists|n: Node, z: int| at(self.graph.vect@, index.0 as int, n, z)
    ensures exists|z: int| at(self.graph.vect@, index.0 as int, r, z)
//@ endfn
//@ endimpl
//@ impl CB `impl Forest for Bocage` as `impl Bocage`
//@ fn begin_sum props=P08
    requires room(*old(self))
    ensures pushed(*final(self), Seq::empty()), same_info(*old(self), *final(self)), final(self).graph.vect@ == old(self).graph.vect@ + short(Node::BeginSum), final(self).sum == Some(old(self).graph.vect@.len() as u32)
//@ exit
    proof {
        let q = sumseq(Seq::empty());
        assert(q.drop_last() =~= seq![]); assert(all(q.drop_last()) =~= seq![]); assert(all(q) =~= seq![0u8]);
        assert(self.graph.vect@.skip((self.sum->0) as int) =~= seq![0u8]);
    }
//@ endfn
//@ fn push_summand props=P08
    requires room(*old(self))
    ensures same_info(*old(self), *final(self)), final(self).sum == old(self).sum, final(self).graph.vect@ == old(self).graph.vect@ + short(summand((item.dot, item.node))),
        forall|s: Seq<(u32, NodeHandle)>| pushed(*old(self), s) ==> #[trigger] pushed(*final(self), s.push((item.dot, item.node)))
//@ exit
    proof {
        let x = (item.dot, item.node); let st = (self.sum->0) as int;
        assert forall|s: Seq<(u32, NodeHandle)>| pushed(*old(self), s) implies #[trigger] pushed(*self, s.push(x)) by {
            let q = sumseq(s.push(x));
            assert(q.drop_last() =~= sumseq(s));
            assert(q.last() == (summand(x), false));
            assert(self.graph.vect@.skip(st) =~= old(self).graph.vect@.skip(st) + short(summand(x)));
        }
    }
//@ sig `Self :: NodeRef` => `NodeHandle`
//@ endfn
//@ fn product props=P08
    requires room(*old(self))
    ensures same_info(*old(self), *final(self)), final(self).sum == old(self).sum, final(self).num_summands == old(self).num_summands,
        exists|z: int| at(final(self).graph.vect@, r.0 as int, Node::Rule { left_factor, right_factor }, z), r.0 == old(self).graph.vect@.len(),
        final(self).graph.vect@ == old(self).graph.vect@ + short(Node::Rule { left_factor, right_factor })
//@ exit
    proof { let n = Node::Rule { left_factor, right_factor }; short_at_end(old(self).graph.vect@, n); assert(at(self.graph.vect@, result.0 as int, n, short(n).len() as int)); }
//@ sig `Self :: NodeRef` => `NodeHandle`
//@ endfn
//@ fn sum props=P08
    requires room(*old(self)), old(self).sum is Some
    ensures same_info(*old(self), *final(self)), final(self).sum is None, final(self).graph.vect@ == old(self).graph.vect@ + short(Node::EndSum),
        forall|s: Seq<(u32, NodeHandle)>| #[trigger] pushed(*old(self), s) ==> named(final(self).graph.vect@, r.0 as int, s)
//@ exit
    proof {
        let st = (old(self).sum->0) as int;
        assert forall|s: Seq<(u32, NodeHandle)>| #[trigger] pushed(*old(self), s) implies named(self.graph.vect@, if s.len() == 1 { st + 1 } else { st }, s) by {
            let q = sumseq(s).push((Node::EndSum, false));
            assert(q.drop_last() =~= sumseq(s));
            assert(self.graph.vect@.skip(st) =~= old(self).graph.vect@.skip(st) + short(Node::EndSum));
            sum_named(self.graph.vect@, st, s);
        }
    }
//@ sig `Self :: NodeRef` => `NodeHandle`
//@ endfn
//@ fn leaf props=P08
    requires room(*old(self))
    ensures same_info(*old(self), *final(self)), final(self).sum == old(self).sum, final(self).num_summands == old(self).num_summands,
        exists|z: int| at(final(self).graph.vect@, r.0 as int, Node::Leaf { symbol: token, values: value }, z), r.0 == old(self).graph.vect@.len(),
        final(self).graph.vect@ == old(self).graph.vect@ + short(Node::Leaf { symbol: token, values: value })
//@ exit
    proof { let n = Node::Leaf { symbol: token, values: value }; short_at_end(old(self).graph.vect@, n); assert(at(self.graph.vect@, result.0 as int, n, short(n).len() as int)); }
//@ sig `Self :: NodeRef` => `NodeHandle`
//@ endfn
//@ fn nulling props=P10
    requires token.n < 0x1000_0000
    ensures r.0 == 9 * token.n
//@ sig `Self :: NodeRef` => `NodeHandle`
//@ endfn
//@ endimpl
