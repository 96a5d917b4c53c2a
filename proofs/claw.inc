// The compact forest keeps the laws of the trait's contract. `Kept` is the forest and a ghost record of the summands given;
// its methods are the forest's own. (It ends the run, as a panic would, where the forest runs out of 32-bit handles.)
/// Ends the run.
#[verifier::external_body]
pub fn stop_() ensures false { panic!() }
pub struct Kept { pub b: Bocage, pub given: Ghost<Option<Seq<(u32, NodeHandle)>>> }
pub open spec fn stored_at(v: Seq<u8>, h: int, n: Node) -> bool { exists|z: int| at(v, h, n, z) }
/// What a handle names.
pub open spec fn meaning(v: Seq<u8>, h: int) -> FNode<Symbol, NodeHandle> {
    if exists|n: Node| #[trigger] stored_at(v, h, n) {
        match choose|n: Node| #[trigger] stored_at(v, h, n) {
            Node::Leaf { symbol, values } => FNode::Leaf(symbol, values),
            Node::Rule { left_factor, right_factor } => FNode::Pair(left_factor, right_factor),
            Node::Summand { action, factors } => FNode::Sum(seq![(action, factors)]),
            Node::BeginSum => if exists|s: Seq<(u32, NodeHandle)>| s.len() > 1 && #[trigger] named(v, h, s) { FNode::Sum(choose|s: Seq<(u32, NodeHandle)>| s.len() > 1 && #[trigger] named(v, h, s)) } else { FNode::Nothing },
            _ => FNode::Nothing,
        }
    } else { FNode::Nothing }
}
pub open spec fn begins(v: Seq<u8>, w: Seq<u8>) -> bool { v.len() <= w.len() && w.subrange(0, v.len() as int) == v }
pub proof fn off_more(s: Seq<(u32, NodeHandle)>, t: Seq<(u32, NodeHandle)>, k: int)
    requires 0 <= k <= s.len(), k <= t.len(), forall|i: int| 0 <= i < k ==> s[i] == t[i]
    ensures off(sumseq(s).push((Node::EndSum, false)), k + 1) == off(sumseq(t).push((Node::EndSum, false)), k + 1)
{ assert(sumseq(s).push((Node::EndSum, false)).take(k + 1) =~= sumseq(t).push((Node::EndSum, false)).take(k + 1)); }
/// The summands found at a place are determined by what is stored.
pub proof fn named_once(v: Seq<u8>, w: Seq<u8>, h: int, s: Seq<(u32, NodeHandle)>, t: Seq<(u32, NodeHandle)>)
    requires begins(v, w), named(v, h, s), named(w, h, t), s.len() > 1, t.len() > 1
    ensures s == t
{
    let q = sumseq(s).push((Node::EndSum, false)); let p = sumseq(t).push((Node::EndSum, false));
    alike(v, w, h, s, t, if s.len() < t.len() { s.len() as int } else { t.len() as int });
    if s.len() < t.len() {
        let k = s.len() as int; off_more(s, t, k);
        at_append(v, h + off(q, k + 1), Node::EndSum, 1, w);
        assert(at(w, h + off(p, k + 1), summand(t[k]), off(p, k + 2) - off(p, k + 1)));
        at_unique(w, h + off(p, k + 1), Node::EndSum, 1, summand(t[k]), off(p, k + 2) - off(p, k + 1));
    } else if t.len() < s.len() {
        let k = t.len() as int; off_more(s, t, k);
        assert(at(v, h + off(q, k + 1), summand(s[k]), off(q, k + 2) - off(q, k + 1)));
        at_append(v, h + off(q, k + 1), summand(s[k]), off(q, k + 2) - off(q, k + 1), w);
        at_unique(w, h + off(p, k + 1), Node::EndSum, 1, summand(s[k]), off(q, k + 2) - off(q, k + 1));
    } else { assert(s =~= t); }
}
pub open spec fn stock(s: Seq<(u32, NodeHandle)>) -> Seq<(Node, bool)> { sumseq(s).push((Node::EndSum, false)) }
pub proof fn part(v: Seq<u8>, h: int, s: Seq<(u32, NodeHandle)>, k: int)
    requires named(v, h, s), s.len() > 1, 0 <= k < s.len()
    ensures at(v, h + off(stock(s), k + 1), summand(s[k]), off(stock(s), k + 2) - off(stock(s), k + 1))
{ let x = summand(s[k]); }
pub proof fn alike(v: Seq<u8>, w: Seq<u8>, h: int, s: Seq<(u32, NodeHandle)>, t: Seq<(u32, NodeHandle)>, k: int)
    requires begins(v, w), named(v, h, s), named(w, h, t), s.len() > 1, t.len() > 1, 0 <= k <= s.len(), k <= t.len()
    ensures forall|i: int| 0 <= i < k ==> s[i] == t[i]
    decreases k
{
    hide(named); hide(off); hide(at); hide(sumseq);
    if k > 0 {
        let j = k - 1;
        alike(v, w, h, s, t, j); off_more(s, t, j);
        part(v, h, s, j); part(w, h, t, j);
        let a = off(stock(s), j + 1);
        at_append(v, h + a, summand(s[j]), off(stock(s), j + 2) - a, w);
        at_unique(w, h + a, summand(s[j]), off(stock(s), j + 2) - a, summand(t[j]), off(stock(t), j + 2) - a);
        assert(s[j] == t[j]);
    }
}
pub proof fn node_once(v: Seq<u8>, w: Seq<u8>, h: int, n: Node, m: Node)
    requires begins(v, w), stored_at(v, h, n), stored_at(w, h, m)
    ensures n == m
{
    let z = choose|z: int| at(v, h, n, z); let y = choose|y: int| at(w, h, m, y);
    at_append(v, h, n, z, w); at_unique(w, h, n, z, m, y);
}
pub proof fn node_kept(v: Seq<u8>, w: Seq<u8>, h: int, n: Node)
    requires begins(v, w), stored_at(v, h, n)
    ensures stored_at(w, h, n)
{ let z = choose|z: int| at(v, h, n, z); at_append(v, h, n, z, w); }
pub proof fn named_kept(v: Seq<u8>, w: Seq<u8>, h: int, s: Seq<(u32, NodeHandle)>)
    requires begins(v, w), named(v, h, s), s.len() > 1
    ensures named(w, h, s)
{
    let q = sumseq(s).push((Node::EndSum, false));
    at_append(v, h, Node::BeginSum, 1, w); at_append(v, h + off(q, s.len() as int + 1), Node::EndSum, 1, w);
    assert forall|k: int| 0 <= k < s.len() implies at(w, h + off(q, k + 1), #[trigger] summand(s[k]), off(q, k + 2) - off(q, k + 1)) by { at_append(v, h + off(q, k + 1), summand(s[k]), off(q, k + 2) - off(q, k + 1), w); }
}
pub proof fn meaning_kept(v: Seq<u8>, w: Seq<u8>)
    requires begins(v, w)
    ensures forall|h: int| !(#[trigger] meaning(v, h) is Nothing) ==> meaning(w, h) == meaning(v, h)
{
    assert forall|h: int| !(#[trigger] meaning(v, h) is Nothing) implies meaning(w, h) == meaning(v, h) by {
        let n = choose|n: Node| #[trigger] stored_at(v, h, n); assert(stored_at(v, h, n));
        node_kept(v, w, h, n);
        let m = choose|n: Node| #[trigger] stored_at(w, h, n); assert(stored_at(w, h, m));
        node_once(v, w, h, n, m);
        if n == Node::BeginSum {
            let s = choose|s: Seq<(u32, NodeHandle)>| s.len() > 1 && #[trigger] named(v, h, s); named_kept(v, w, h, s);
            let t = choose|t: Seq<(u32, NodeHandle)>| t.len() > 1 && #[trigger] named(w, h, t); named_once(v, w, h, s, t);
        }
    }
}
pub proof fn meaning_is(v: Seq<u8>, h: int, n: Node)
    requires stored_at(v, h, n)
    ensures n is Leaf ==> meaning(v, h) == FNode::<Symbol, NodeHandle>::Leaf(n->Leaf_symbol, n->values), n is Rule ==> meaning(v, h) == FNode::<Symbol, NodeHandle>::Pair(n->left_factor, n->right_factor),
        n is Summand ==> meaning(v, h) == FNode::<Symbol, NodeHandle>::Sum(seq![(n->Summand_action, n->Summand_factors)])
{
    let m = choose|n: Node| #[trigger] stored_at(v, h, n); assert(v.subrange(0, v.len() as int) =~= v); node_once(v, v, h, n, m);
}
/// A sum's handle means the summands.
pub proof fn meaning_named(v: Seq<u8>, h: int, s: Seq<(u32, NodeHandle)>)
    requires named(v, h, s), s.len() > 0
    ensures meaning(v, h) == FNode::<Symbol, NodeHandle>::Sum(s)
{
    assert(v.subrange(0, v.len() as int) =~= v);
    if s.len() == 1 { assert(stored_at(v, h, summand(s[0]))); meaning_is(v, h, summand(s[0])); assert(seq![s[0]] =~= s); } else {
        assert(stored_at(v, h, Node::BeginSum));
        let m = choose|n: Node| #[trigger] stored_at(v, h, n); node_once(v, v, h, Node::BeginSum, m);
        let t = choose|t: Seq<(u32, NodeHandle)>| t.len() > 1 && #[trigger] named(v, h, t); named_once(v, v, h, s, t);
    }
}
impl Forest for Kept {
    type NodeRef = NodeHandle;
    open spec fn lawful(&self) -> bool { room(self.b) }
    open spec fn calm(&self) -> bool { self.b.sum is None }
    open spec fn pending(&self) -> Option<Seq<(u32, NodeHandle)>> { if self.given@ is Some && pushed(self.b, self.given@->0) { self.given@ } else { None } }
    open spec fn node(&self, h: NodeHandle) -> FNode<Symbol, NodeHandle> { meaning(self.b.graph.vect@, h.0 as int) }
    fn begin_sum(&mut self) {
        if !self.has_room() { stop_() }
        let ghost v = self.b.graph.vect@;
        self.b.begin_sum();
        self.given = Ghost(Some(Seq::empty()));
        proof { assert(self.b.graph.vect@.subrange(0, v.len() as int) =~= v); meaning_kept(v, self.b.graph.vect@); }
    }
    fn push_summand(&mut self, item: Item<NodeHandle>) {
        if !self.has_room() { stop_() }
        let ghost old_ = *self; let ghost v = self.b.graph.vect@;
        self.b.push_summand(item);
        proof { if old_.pending() is Some { self.given = Ghost(Some(old_.given@->0.push((item.dot, item.node)))); } else { self.given = Ghost(None); }
            assert(self.b.graph.vect@.subrange(0, v.len() as int) =~= v); meaning_kept(v, self.b.graph.vect@); }
    }
    fn sum(&mut self, lhs_sym: Symbol, origin: u32) -> (r: NodeHandle) {
        if !self.has_room() || self.b.sum.is_none() { stop_() }
        let ghost old_ = *self; let ghost v = self.b.graph.vect@;
        let r = self.b.sum(lhs_sym, origin);
        proof {
            assert(self.b.graph.vect@.subrange(0, v.len() as int) =~= v); meaning_kept(v, self.b.graph.vect@);
            if old_.pending() is Some && old_.pending()->0.len() > 0 { meaning_named(self.b.graph.vect@, r.0 as int, old_.pending()->0); }
        }
        r
    }
    fn product(&mut self, left_factor: NodeHandle, right_factor: NodeHandle) -> (r: NodeHandle) {
        if !self.has_room() { stop_() }
        let ghost v = self.b.graph.vect@;
        let r = self.b.product(left_factor, right_factor);
        proof { assert(self.b.graph.vect@.subrange(0, v.len() as int) =~= v); meaning_kept(v, self.b.graph.vect@); meaning_is(self.b.graph.vect@, r.0 as int, Node::Rule { left_factor, right_factor }); }
        r
    }
    fn leaf(&mut self, token: Symbol, pos: u32, value: u32) -> (r: NodeHandle) {
        if !self.has_room() { stop_() }
        let ghost v = self.b.graph.vect@;
        let r = self.b.leaf(token, pos, value);
        proof { assert(self.b.graph.vect@.subrange(0, v.len() as int) =~= v); meaning_kept(v, self.b.graph.vect@); meaning_is(self.b.graph.vect@, r.0 as int, Node::Leaf { symbol: token, values: value }); }
        r
    }
    fn nulling(&self, token: Symbol) -> (r: NodeHandle) { if token.n >= 0x1000_0000 { stop_() } self.b.nulling(token) }
}
impl Kept {
    fn has_room(&self) -> (r: bool) ensures r == room(self.b) {
        let n = self.b.graph.vect.len();
        n < 0xffff_fff0 && self.b.num_summands as usize <= n && (match self.b.sum { Some(s) => s as usize <= n, None => true })
    }
    /// A forest as it is made is between two sums.
    pub fn new<G: Grammar>(grammar: G) -> (r: Kept)
        requires small(grammar.s_forest_info())
        ensures r.calm()
    { Kept { b: Bocage::new(grammar), given: Ghost(None) } }
}
