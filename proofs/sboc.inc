//@ file SB simple-bocage/src/bocage.rs
//@ file SNODE simple-bocage/src/node.rs
//@ file NH gearley-forest/src/node_handle.rs
//@ struct NH NodeHandle derive=Copy,Clone
//@ enum SNODE Node derive=Copy,Clone
//@ const SNODE NULL_ACTION
//@ struct SB Bocage public
impl Symbol {
    pub fn from_raw(n: u32) -> (r: Symbol) ensures r.n == n { Symbol { n } }
}
pub open spec fn summand(x: (u32, NodeHandle)) -> Node { Node::Product { action: x.0, factors: x.1 } }
pub open spec fn summands(s: Seq<(u32, NodeHandle)>) -> Seq<Node> { s.map_values(|x: (u32, NodeHandle)| summand(x)) }
/// The handle names exactly the summands `s` (in a multiset sense): one directly, several as an ambiguity node followed by its alternatives.
pub open spec fn named(v: Seq<Node>, h: int, lhs: Symbol, s: Seq<(u32, NodeHandle)>) -> bool {
    if s.len() == 1 { 0 <= h < v.len() && v[h] == summand(s[0]) } else {
        &&& 0 <= h && h + s.len() < v.len() && v[h] == Node::Sum { nonterminal: lhs, count: s.len() as u32 }
        &&& v.subrange(h + 1, h + 1 + s.len()).to_multiset() == summands(s).to_multiset()
    }
}
/// The summands given since the sum began.
pub open spec fn pushed(b: Bocage, s: Seq<(u32, NodeHandle)>) -> bool {
    &&& b.summand_count == s.len() && s.len() <= b.graph@.len()
    &&& b.graph@.skip(b.graph@.len() - s.len()) == summands(s)
}
/// Handles are 32-bit positions.
pub open spec fn room(b: Bocage) -> bool { b.graph@.len() + 2 < 0x1_0000_0000 && b.summand_count <= b.graph@.len() }
pub proof fn sum_named(v: Seq<Node>, w: Seq<Node>, lhs: Symbol, s: Seq<(u32, NodeHandle)>)
    requires s.len() > 1, s.len() <= v.len(), s.len() < 0x1_0000_0000, v.skip(v.len() - s.len()) == summands(s),
        w == v.push(v[v.len() - s.len()]).update(v.len() - s.len(), Node::Sum { nonterminal: lhs, count: s.len() as u32 })
    ensures named(w, v.len() - s.len(), lhs, s)
{
    let h = v.len() - s.len(); let q = summands(s);
    assert forall|k: int| 0 <= k < s.len() implies v[h + k] == #[trigger] q[k] by { assert(v.skip(h)[k] == v[h + k]); }
    let x = w.subrange(h + 1, h + 1 + s.len());
    assert(v[h] == q[0]);
    assert(x =~= q.skip(1) + seq![q[0]]);
    assert(q =~= seq![q[0]] + q.skip(1));
    vstd::seq_lib::lemma_multiset_commutative(seq![q[0]], q.skip(1));
    vstd::seq_lib::lemma_multiset_commutative(q.skip(1), seq![q[0]]);
    assert(x.to_multiset() =~= q.to_multiset());
}
/// P10: the nulling handle of `x` names its leaf, or the product over the rule of its last intermediate rule.
pub open spec fn nulled(v: Seq<Node>, f: ForestInfo, c: int, x: int) -> bool {
    let q = f.nulling_intermediate_rules@; let i = last_rule(q, q.len() as int, x);
    &&& 0 <= x < v.len()
    &&& i < 0 ==> v[x] == Node::NullingLeaf { symbol: Symbol { n: x as u32 } }
    &&& i >= 0 ==> v[x] == Node::Product { action: NULL_ACTION, factors: NodeHandle((c + 1 + i) as u32) } && c + 1 + i < v.len()
        && v[c + 1 + i] == Node::Rule { left_factor: NodeHandle(q[i]@[1].n), right_factor: NodeHandle(q[i]@[2].n) }
}
/// The prepared nodes after `j` rules.
pub open spec fn prepared(n: Seq<Node>, q: Seq<[Symbol; 3]>, j: int, c: int) -> bool {
    &&& n.len() == c + 1 + j
    &&& forall|x: int| 0 <= x <= c ==> #[trigger] n[x] == (if last_rule(q, j, x) < 0 { Node::NullingLeaf { symbol: Symbol { n: x as u32 } } } else { Node::Product { action: NULL_ACTION, factors: NodeHandle((c + 1 + last_rule(q, j, x)) as u32) } })
    &&& forall|i: int| c < i < n.len() ==> #[trigger] n[i] == Node::Rule { left_factor: NodeHandle(q[i - c - 1]@[1].n), right_factor: NodeHandle(q[i - c - 1]@[2].n) }
}
//@ impl NH `impl NodeHandle`
//@ fn nulling props=P10
    ensures r.0 == symbol.n
//@ sig `< T : SymbolPrimitive >` => ``
//@ sig `Symbol < T >` => `Symbol`
//@ endfn
//@ fn usize props=P08,P10
    ensures r == self.0
//@ endfn
//@ endimpl
impl vstd::std_specs::core::IndexSpecImpl<NodeHandle> for Bocage { open spec fn index_req(&self, index: &NodeHandle) -> bool { index.0 < self.graph@.len() } }
//@ impl SB `impl Index<NodeHandle> for Bocage` as `impl ops::Index<NodeHandle> for Bocage`
    type Output = Node;
//@ fn index props=P08
    ensures *r == self.graph@[index.0 as int]
//@ endfn
//@ endimpl
//@ impl SB `impl Bocage`
//@ fn with_capacity props=P10
    requires small(grammar.s_forest_info())
    ensures r.forest_info == grammar.s_forest_info(), r.summand_count == 0,
        exists|c: int| covers(r.forest_info, c) && forall|x: int| 0 <= x <= c ==> #[trigger] nulled(r.graph@, r.forest_info, c, x)
//@ endfn
//@ fn new props=P10
    requires small(grammar.s_forest_info())
    ensures r.forest_info == grammar.s_forest_info(), r.summand_count == 0,
        exists|c: int| covers(r.forest_info, c) && forall|x: int| 0 <= x <= c ==> #[trigger] nulled(r.graph@, r.forest_info, c, x)
//@ endfn
//@ fn nulling_symbol_count props=P10
    requires small(self.forest_info)
    ensures covers(self.forest_info, r as int), r < 0x10_0000
//@ entry
    proof {
        let q = self.forest_info.nulling_intermediate_rules@;
        assert forall|k: int| 0 <= k < q.len() implies q.contains(#[trigger] q[k]) by {}
    }
//@ endfn
//@ fn initialize_nulling props=P10
    requires small(old(self).forest_info), old(self).graph@.len() == 0
    ensures final(self).forest_info == old(self).forest_info, final(self).summand_count == old(self).summand_count,
        exists|c: int| covers(final(self).forest_info, c) && forall|x: int| 0 <= x <= c ==> #[trigger] nulled(final(self).graph@, final(self).forest_info, c, x)
//@ rewrite `self . graph . extend (` => `self.graph.extend_seq_(`
//@ closure 0
    -> (r: Node) ensures r == (Node::NullingLeaf { symbol })
//@ before `assert ! (`
    proof { assert(1usize << 20usize == 0x10_0000usize) by (bit_vector); }
//@ before_loop 0
    let ghost c = nulling_leaf_count as int;
    let ghost fi = self.forest_info;
    let ghost q = fi.nulling_intermediate_rules@;
//@ desugar_zip_mut 0
    invariant self.forest_info == fi, q == fi.nulling_intermediate_rules@, small(fi), covers(fi, c), c < 0x10_0000, 0 <= zip_i_ <= q.len(), prepared(self.graph@, q, zip_i_ as int, c),
        c == nulling_leaf_count, self.summand_count == old(self).summand_count
    decreases q.len() - zip_i_
//@ after_loop 0
    proof {
        assert forall|x: int| 0 <= x <= c implies #[trigger] nulled(self.graph@, fi, c, x) by { last_rule_is(q, q.len() as int, x); }
        assert(covers(self.forest_info, c) && forall|x: int| 0 <= x <= c ==> #[trigger] nulled(self.graph@, self.forest_info, c, x));
    }
//@ endfn
//@ endimpl
//@ impl SB `impl Forest for Bocage` as `impl Bocage`
//@ fn begin_sum props=P08
    ensures old(self).summand_count == 0 ==> pushed(*final(self), Seq::empty()), *final(self) == *old(self)
//@ exit
    proof { assert(self.graph@.skip(self.graph@.len() as int) =~= summands(Seq::empty())); }
//@ endfn
//@ fn push_summand props=P08
    requires room(*old(self))
    ensures final(self).forest_info == old(self).forest_info, final(self).graph@ == old(self).graph@.push(summand((item.dot, item.node))), final(self).summand_count == old(self).summand_count + 1,
        forall|s: Seq<(u32, NodeHandle)>| pushed(*old(self), s) ==> #[trigger] pushed(*final(self), s.push((item.dot, item.node)))
//@ exit
    proof {
        let x = (item.dot, item.node);
        assert forall|s: Seq<(u32, NodeHandle)>| pushed(*old(self), s) implies #[trigger] pushed(*self, s.push(x)) by {
            assert(self.graph@.skip(self.graph@.len() - s.push(x).len()) =~= old(self).graph@.skip(old(self).graph@.len() - s.len()).push(summand(x)));
            assert(summands(s.push(x)) =~= summands(s).push(summand(x)));
        }
    }
//@ sig `Self :: NodeRef` => `NodeHandle`
//@ endfn
//@ fn product props=P08
    requires room(*old(self))
    ensures final(self).forest_info == old(self).forest_info, final(self).summand_count == old(self).summand_count,
        r.0 == old(self).graph@.len(), final(self).graph@ == old(self).graph@.push(Node::Rule { left_factor, right_factor })
//@ sig `Self :: NodeRef` => `NodeHandle`
//@ endfn
//@ fn sum props=P08
    requires room(*old(self)), old(self).summand_count > 0
    ensures final(self).forest_info == old(self).forest_info, final(self).summand_count == 0,
        // what was recorded before this sum began is not altered
        old(self).graph@.len() <= final(self).graph@.len(), final(self).graph@.take(old(self).graph@.len() - old(self).summand_count) == old(self).graph@.take(old(self).graph@.len() - old(self).summand_count),
        forall|s: Seq<(u32, NodeHandle)>| #[trigger] pushed(*old(self), s) ==> named(final(self).graph@, r.0 as int, lhs_sym, s)
//@ exit
    proof {
        let v = old(self).graph@; let n = old(self).summand_count; let h = v.len() - n;
        assert(self.graph@.take(h) =~= v.take(h));
        assert forall|s: Seq<(u32, NodeHandle)>| #[trigger] pushed(*old(self), s) implies named(self.graph@, h, lhs_sym, s) by {
            assert(v.skip(h)[0] == v[h] && summands(s)[0] == summand(s[0]));
            if n > 1 { sum_named(v, self.graph@, lhs_sym, s); }
        }
    }
//@ sig `Self :: NodeRef` => `NodeHandle`
//@ endfn
//@ fn leaf props=P08
    requires room(*old(self))
    ensures final(self).forest_info == old(self).forest_info, final(self).summand_count == old(self).summand_count,
        r.0 == old(self).graph@.len(), final(self).graph@ == old(self).graph@.push(Node::Leaf { symbol: token, values: value })
//@ sig `Self :: NodeRef` => `NodeHandle`
//@ endfn
//@ fn nulling props=P10
    ensures r.0 == token.n
//@ sig `Self :: NodeRef` => `NodeHandle`
//@ endfn
//@ endimpl
