// The simple forest keeps the laws of the trait's contract. `Kept` is the forest and a ghost record of the summands given;
// its methods are the forest's own. (It ends the run, as a panic would, where the forest runs out of 32-bit handles.)
/// Ends the run.
#[verifier::external_body]
pub fn stop_() ensures false { panic!() }
pub struct Kept { pub b: Bocage, pub given: Ghost<Option<Seq<(u32, NodeHandle)>>> }
/// What the alternatives at `from..to` name.
pub open spec fn alternatives(v: Seq<Node>) -> Seq<(u32, NodeHandle)> { v.map_values(|n: Node| (n->Product_action, n->Product_factors)) }
pub open spec fn all_products(v: Seq<Node>) -> bool { forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] is Product }
/// What a handle names in a graph of which the nodes from `m` on are summands not yet summed up.
pub open spec fn meaning(v: Seq<Node>, m: int, h: int) -> FNode<Symbol, NodeHandle> {
    if !(0 <= h < m <= v.len()) { FNode::Nothing } else {
        match v[h] {
            Node::Leaf { symbol, values } => FNode::Leaf(symbol, values),
            Node::Rule { left_factor, right_factor } => FNode::Pair(left_factor, right_factor),
            Node::Product { action, factors } => FNode::Sum(seq![(action, factors)]),
            Node::Sum { nonterminal, count } => if h + count < m { FNode::Sum(alternatives(v.subrange(h + 1, h + 1 + count))) } else { FNode::Nothing },
            _ => FNode::Nothing,
        }
    }
}
pub proof fn meaning_kept(v: Seq<Node>, m: int, w: Seq<Node>, n: int)
    requires 0 <= m <= v.len(), m <= n <= w.len(), w.take(m) == v.take(m)
    ensures forall|h: int| !(#[trigger] meaning(v, m, h) is Nothing) ==> meaning(w, n, h) == meaning(v, m, h)
{
    assert forall|h: int| !(#[trigger] meaning(v, m, h) is Nothing) implies meaning(w, n, h) == meaning(v, m, h) by {
        assert(w.take(m)[h] == w[h] && v.take(m)[h] == v[h]);
        if let Node::Sum { nonterminal, count } = v[h] { assert(w.subrange(h + 1, h + 1 + count) =~= w.take(m).subrange(h + 1, h + 1 + count)); assert(v.subrange(h + 1, h + 1 + count) =~= v.take(m).subrange(h + 1, h + 1 + count)); }
    }
}
/// A sum's handle means the summands, up to order.
pub proof fn meaning_named(v: Seq<Node>, h: int, lhs: Symbol, s: Seq<(u32, NodeHandle)>)
    requires named(v, h, lhs, s), s.len() > 0, s.len() < 0x1_0000_0000
    ensures meaning(v, v.len() as int, h) is Sum, meaning(v, v.len() as int, h)->Sum_0.to_multiset() == s.to_multiset()
{
    if s.len() == 1 { assert(seq![s[0]] =~= s); } else {
        let x = v.subrange(h + 1, h + 1 + s.len());
        back(x, s);
    }
}
/// Sequences of summands that agree up to order mean the same up to order.
pub proof fn back(x: Seq<Node>, s: Seq<(u32, NodeHandle)>)
    requires x.to_multiset() == summands(s).to_multiset()
    ensures alternatives(x).to_multiset() == s.to_multiset()
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let q = summands(s);
    assert(x.len() == x.to_multiset().len() && q.len() == q.to_multiset().len());
    if s.len() == 0 { assert(alternatives(x) =~= s); } else {
        let y = q.last();
        assert(q.contains(y)) by { assert(q[q.len() - 1] == y); }
        assert(q.to_multiset().count(y) > 0);
        assert(x.contains(y));
        let k = x.index_of(y);
        assert(x[k] == y);
        let x2 = x.remove(k); let s2 = s.drop_last();
        assert(x2.to_multiset() =~= x.to_multiset().remove(y));
        assert(q.drop_last() =~= summands(s2));
        assert(q =~= q.drop_last().push(y));
        assert(q.drop_last().to_multiset().insert(y) =~= q.to_multiset());
        assert(x2.to_multiset() =~= summands(s2).to_multiset());
        back(x2, s2);
        let a = alternatives(x);
        assert(alternatives(x2) =~= a.remove(k));
        assert(a[k] == s.last());
        assert(a.remove(k).to_multiset() =~= a.to_multiset().remove(s.last()));
        assert(s =~= s2.push(s.last()));
        assert(a.contains(a[k])); assert(a.to_multiset().count(s.last()) > 0);
        assert(a.to_multiset() =~= s.to_multiset());
    }
}
impl Forest for Kept {
    type NodeRef = NodeHandle;
    open spec fn lawful(&self) -> bool { room(self.b) }
    open spec fn calm(&self) -> bool { self.b.summand_count == 0 }
    open spec fn pending(&self) -> Option<Seq<(u32, NodeHandle)>> { if self.given@ is Some && pushed(self.b, self.given@->0) { self.given@ } else { None } }
    open spec fn node(&self, h: NodeHandle) -> FNode<Symbol, NodeHandle> { meaning(self.b.graph@, self.b.graph@.len() - self.b.summand_count, h.0 as int) }
    fn begin_sum(&mut self) {
        self.b.begin_sum();
        self.given = Ghost(Some(Seq::empty()));
    }
    fn push_summand(&mut self, item: Item<NodeHandle>) {
        if !self.has_room() { stop_() }
        let ghost old_ = *self;
        self.b.push_summand(item);
        proof { if old_.pending() is Some { self.given = Ghost(Some(old_.given@->0.push((item.dot, item.node)))); } else { self.given = Ghost(None); }
            let m = old_.b.graph@.len() - old_.b.summand_count; assert(self.b.graph@.take(m) =~= old_.b.graph@.take(m)); meaning_kept(old_.b.graph@, m, self.b.graph@, m); }
    }
    fn sum(&mut self, lhs_sym: Symbol, origin: u32) -> (r: NodeHandle) {
        if !self.has_room() || self.b.summand_count == 0 { stop_() }
        let ghost old_ = *self;
        let r = self.b.sum(lhs_sym, origin);
        proof {
            let m = old_.b.graph@.len() - old_.b.summand_count; meaning_kept(old_.b.graph@, m, self.b.graph@, self.b.graph@.len() as int);
            if old_.pending() is Some { meaning_named(self.b.graph@, r.0 as int, lhs_sym, old_.pending()->0); }
        }
        r
    }
    fn product(&mut self, left_factor: NodeHandle, right_factor: NodeHandle) -> (r: NodeHandle) {
        if !self.has_room() { stop_() }
        let ghost old_ = *self;
        let r = self.b.product(left_factor, right_factor);
        proof { let m = old_.b.graph@.len() - old_.b.summand_count; assert(self.b.graph@.take(m) =~= old_.b.graph@.take(m)); meaning_kept(old_.b.graph@, m, self.b.graph@, m + 1); }
        r
    }
    fn leaf(&mut self, token: Symbol, pos: u32, value: u32) -> (r: NodeHandle) {
        if !self.has_room() { stop_() }
        let ghost old_ = *self;
        let r = self.b.leaf(token, pos, value);
        proof { let m = old_.b.graph@.len() - old_.b.summand_count; assert(self.b.graph@.take(m) =~= old_.b.graph@.take(m)); meaning_kept(old_.b.graph@, m, self.b.graph@, m + 1); }
        r
    }
    fn nulling(&self, token: Symbol) -> (r: NodeHandle) { self.b.nulling(token) }
}
impl Kept {
    fn has_room(&self) -> (r: bool) ensures r == room(self.b) { self.b.graph.len() < 0xffff_fffe && self.b.summand_count as usize <= self.b.graph.len() }
    /// A forest as it is made is between two sums, and lawful.
    pub fn new<G: Grammar>(grammar: G) -> (r: Kept)
        requires small(grammar.s_forest_info())
        ensures r.calm()
    { Kept { b: Bocage::new(grammar), given: Ghost(None) } }
}
