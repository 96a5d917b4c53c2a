//@ file GRAPH compact-bocage/src/graph.rs
//@ file CNODE compact-bocage/src/node.rs
//@ file NH gearley-forest/src/node_handle.rs
//@ struct NH NodeHandle derive=Copy,Clone
//@ enum CNODE Node derive=Copy,Clone
//@ struct GRAPH Graph public
impl Symbol {
    /// Assumed of cfg-symbol: the symbol of a number.
    pub fn from_raw(n: u32) -> (r: Symbol) ensures r.n == n { Symbol { n } }
}
/// The bytes of a number, least significant first.
pub open spec fn le4(x: u32) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8] }
#[verifier::external_body]
pub fn to_le_bytes_(x: u32) -> (r: [u8; 4]) ensures r@ == le4(x) { x.to_le_bytes() }
#[verifier::external_body]
pub fn from_le_bytes_(b: [u8; 4]) -> (r: u32) ensures le4(r) == b@ { u32::from_le_bytes(b) }
pub trait ExtendBytes { fn extend_bytes_(&mut self, b: [u8; 4]); }
impl ExtendBytes for Vec<u8> {
    /// Assumed: `Vec::extend` with an array appends its elements.
    #[verifier::external_body]
    fn extend_bytes_(&mut self, b: [u8; 4]) ensures final(self)@ == old(self)@ + b@ { self.extend(b) }
}
/// Assumed: what `Vec::extend` does with an iterator of references that obeys the iterator laws.
pub assume_specification<'a, T, A, I> [<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend] (v: &mut std::vec::Vec<T, A>, i: I)
    where A: std::alloc::Allocator, I: std::iter::IntoIterator<Item = &'a T>, T: std::marker::Copy + 'a,
    ensures exists|it: I::IntoIter| #[trigger] call_ensures(I::into_iter, (i,), it) && (it.obeys_prophetic_iter_laws() ==> it.will_return_none() && final(v)@ == old(v)@ + it.remaining().map_values(|x: &'a T| *x));

// ---- the stored form of a node ----
/// How many bytes a number takes in the short form.
pub open spec fn nb(x: u32) -> int { if x < 0x100 { 1 } else if x < 0x1_0000 { 2 } else if x < 0x100_0000 { 3 } else { 4 } }
/// Kind and fields of a node.
pub open spec fn kind(n: Node) -> int {
    match n { Node::BeginSum => 0, Node::EndSum => 1, Node::Product { .. } => 2, Node::Summand { .. } => 3, Node::Rule { .. } => 4, Node::Leaf { .. } => 5, Node::NullingLeaf { .. } => 6 }
}
pub open spec fn nleft(n: Node) -> u32 {
    match n { Node::Product { action, .. } => action, Node::Summand { action, .. } => action, Node::Rule { left_factor, .. } => left_factor.0, Node::Leaf { symbol, .. } => symbol.n, Node::NullingLeaf { symbol } => symbol.n, _ => 0 }
}
pub open spec fn nright(n: Node) -> u32 {
    match n { Node::Product { factors, .. } => factors.0, Node::Summand { factors, .. } => factors.0, Node::Rule { right_factor, .. } => right_factor.0, Node::Leaf { values, .. } => values, _ => 0 }
}
pub open spec fn headb(k: int, a: int, b: int) -> u8 { (k as u8) | (((a - 1) as u8) << 3u8) | (((b - 1) as u8) << 5u8) }
pub open spec fn stored(k: int, a: int, x: u32, b: int, y: u32) -> Seq<u8> { seq![headb(k, a, b)] + le4(x).subrange(0, a) + le4(y).subrange(0, b) }
/// The short form, and the fixed-width form.
pub open spec fn short(n: Node) -> Seq<u8> { if kind(n) < 2 { seq![kind(n) as u8] } else { stored(kind(n), nb(nleft(n)), nleft(n), nb(nright(n)), nright(n)) } }
pub open spec fn wide(n: Node) -> Seq<u8> { if kind(n) < 2 { seq![kind(n) as u8] } else { stored(kind(n), 4, nleft(n), 4, nright(n)) } }
/// Node `n` is stored at `i`, in `z` bytes.
pub open spec fn at(v: Seq<u8>, i: int, n: Node, z: int) -> bool {
    0 <= i && 0 < z && i + z <= v.len() && (v.subrange(i, i + z) == short(n) || v.subrange(i, i + z) == wide(n))
}
/// What a node in the storage is, seen from the bytes.
pub open spec fn seen(v: Seq<u8>, i: int, n: Node, z: int, a: int, b: int) -> bool {
    &&& 0 <= i && i + z <= v.len()
    &&& kind(n) < 2 ==> z == 1 && v[i] == kind(n)
    &&& kind(n) >= 2 ==> 1 <= a <= 4 && 1 <= b <= 4 && z == 1 + a + b && v[i] == headb(kind(n), a, b) && nb(nleft(n)) <= a && nb(nright(n)) <= b
        && v.subrange(i + 1, i + 1 + a) == le4(nleft(n)).subrange(0, a) && v.subrange(i + 1 + a, i + 1 + a + b) == le4(nright(n)).subrange(0, b)
}
pub proof fn at_seen(v: Seq<u8>, i: int, n: Node, z: int) -> (r: (int, int))
    requires at(v, i, n, z)
    ensures seen(v, i, n, z, r.0, r.1)
{
    let s = v.subrange(i, i + z);
    assert(s.len() == z);
    assert(s[0] == v[i]);
    if kind(n) < 2 { (1, 1) } else {
        let (a, b) = if s == short(n) { (nb(nleft(n)), nb(nright(n))) } else { (4, 4) };
        assert(s == stored(kind(n), a, nleft(n), b, nright(n)));
        assert(le4(nleft(n)).len() == 4 && le4(nright(n)).len() == 4);
        assert(s.len() == 1 + a + b);
        assert(v.subrange(i + 1, i + 1 + a) =~= s.subrange(1, 1 + a));
        assert(v.subrange(i + 1 + a, i + 1 + a + b) =~= s.subrange(1 + a, 1 + a + b));
        assert(s.subrange(1, 1 + a) =~= le4(nleft(n)).subrange(0, a));
        assert(s.subrange(1 + a, 1 + a + b) =~= le4(nright(n)).subrange(0, b));
        (a, b)
    }
}
pub proof fn le4_inj(x: u32, y: u32)
    requires le4(x) == le4(y)
    ensures x == y
{
    assert(le4(x)[0] == le4(y)[0] && le4(x)[1] == le4(y)[1] && le4(x)[2] == le4(y)[2] && le4(x)[3] == le4(y)[3]);
    assert((x & 0xff) as u8 == (y & 0xff) as u8 && ((x >> 8) & 0xff) as u8 == ((y >> 8) & 0xff) as u8 && ((x >> 16) & 0xff) as u8 == ((y >> 16) & 0xff) as u8 && ((x >> 24) & 0xff) as u8 == ((y >> 24) & 0xff) as u8 ==> x == y) by (bit_vector);
}
/// A number that fits `a` bytes has zeros in the rest.
pub proof fn le4_pad(x: u32, a: int)
    requires nb(x) <= a <= 4
    ensures forall|k: int| a <= k < 4 ==> le4(x)[k] == 0
{
    assert(x < 0x100 ==> ((x >> 8) & 0xff) as u8 == 0) by (bit_vector);
    assert(x < 0x1_0000 ==> ((x >> 16) & 0xff) as u8 == 0) by (bit_vector);
    assert(x < 0x100_0000 ==> ((x >> 24) & 0xff) as u8 == 0) by (bit_vector);
    assert(x < 0x100 ==> ((x >> 16) & 0xff) as u8 == 0 && ((x >> 24) & 0xff) as u8 == 0) by (bit_vector);
    assert(x < 0x1_0000 ==> ((x >> 24) & 0xff) as u8 == 0) by (bit_vector);
}
pub proof fn head_bits(k: u8, a: u8, b: u8)
    requires k < 7, 1 <= a <= 4, 1 <= b <= 4
    ensures ({ let h = headb(k as int, a as int, b as int); h & 0b111 == k && (h >> 3u8) & 0b11 == a - 1 && (h >> 5u8) & 0b11 == b - 1 })
{
    let a1 = (a - 1) as u8; let b1 = (b - 1) as u8;
    assert(k < 7 && a1 < 4 && b1 < 4 ==> ((k | (a1 << 3u8) | (b1 << 5u8)) & 0b111) == k) by (bit_vector);
    assert(k < 7 && a1 < 4 && b1 < 4 ==> (((k | (a1 << 3u8) | (b1 << 5u8)) >> 3u8) & 0b11) == a1) by (bit_vector);
    assert(k < 7 && a1 < 4 && b1 < 4 ==> (((k | (a1 << 3u8) | (b1 << 5u8)) >> 5u8) & 0b11) == b1) by (bit_vector);
}
pub proof fn wide_head(k: u8)
    requires k < 7
    ensures k | 0b1111000 == headb(k as int, 4, 4)
{
    assert(k < 7 ==> (k | 0b1111000) == (k | (3u8 << 3u8) | (3u8 << 5u8))) by (bit_vector);
}
/// At most one node, of one size, is stored at a place.
pub proof fn at_unique(v: Seq<u8>, i: int, n: Node, z: int, m: Node, y: int)
    requires at(v, i, n, z), at(v, i, m, y)
    ensures n == m, z == y
{
    let (a, b) = at_seen(v, i, n, z); let (c, d) = at_seen(v, i, m, y);
    same(v, i, n, z, a, b, m, y, c, d);
}
pub proof fn same(v: Seq<u8>, i: int, n: Node, z: int, a: int, b: int, m: Node, y: int, c: int, d: int)
    requires seen(v, i, n, z, a, b), seen(v, i, m, y, c, d)
    ensures n == m, z == y, kind(n) >= 2 ==> a == c && b == d
{
    if kind(n) >= 2 { head_bits(kind(n) as u8, a as u8, b as u8); }
    if kind(m) >= 2 { head_bits(kind(m) as u8, c as u8, d as u8); }
    assert(0u8 & 0b111 == 0 && 1u8 & 0b111 == 1) by (bit_vector);
    assert(kind(n) == kind(m));
    if kind(n) >= 2 {
        assert(a == c && b == d);
        full(v, i + 1, nleft(n), a); full(v, i + 1, nleft(m), a);
        full(v, i + 1 + a, nright(n), b); full(v, i + 1 + a, nright(m), b);
        assert(le4(nleft(n)) =~= le4(nleft(m))); assert(le4(nright(n)) =~= le4(nright(m)));
        le4_inj(nleft(n), nleft(m)); le4_inj(nright(n), nright(m));
    }
}
pub proof fn full(v: Seq<u8>, i: int, x: u32, a: int)
    requires 0 <= i, i + a <= v.len(), nb(x) <= a <= 4, v.subrange(i, i + a) == le4(x).subrange(0, a)
    ensures forall|k: int| 0 <= k < 4 ==> le4(x)[k] == if k < a { v[i + k] } else { 0u8 }
{
    le4_pad(x, a);
    assert forall|k: int| 0 <= k < a implies le4(x)[k] == v[i + k] by {
        let w = v.subrange(i, i + a); assert(w[k] == v[i + k]); assert(le4(x).subrange(0, a)[k] == le4(x)[k]);
    }
}
/// What is stored is not altered by what is appended.
pub proof fn at_append(v: Seq<u8>, i: int, n: Node, z: int, w: Seq<u8>)
    requires at(v, i, n, z), v.len() <= w.len(), w.subrange(0, v.len() as int) == v
    ensures at(w, i, n, z)
{
    assert(w.subrange(i, i + z) =~= w.subrange(0, v.len() as int).subrange(i, i + z));
}
/// The bytes that storing the nodes `s` one after the other (each in the form chosen) gives.
pub open spec fn all(s: Seq<(Node, bool)>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] } else { all(s.drop_last()) + (if s.last().1 { wide(s.last().0) } else { short(s.last().0) }) }
}
/// Where the `k`-th node starts.
pub open spec fn off(s: Seq<(Node, bool)>, k: int) -> int { all(s.take(k)).len() as int }
/// P07 for a whole history: every node reads back where it was stored, and stepping by sizes goes through them in order.
pub proof fn history(s: Seq<(Node, bool)>, k: int)
    requires 0 <= k < s.len()
    ensures at(all(s), off(s, k), s[k].0, off(s, k + 1) - off(s, k)), off(s, 0) == 0, off(s, s.len() as int) == all(s).len(),
        s[k].1 && kind(s[k].0) >= 2 ==> off(s, k + 1) - off(s, k) == 9
    decreases s.len()
{
    assert(s.take(0).len() == 0);
    assert(s.take(s.len() as int) =~= s);
    let t = s.drop_last();
    assert(le4(nleft(s.last().0)).len() == 4 && le4(nright(s.last().0)).len() == 4);
    if k < t.len() {
        history(t, k);
        assert(t.take(k) =~= s.take(k)); assert(t.take(k + 1) =~= s.take(k + 1));
        assert(all(s).subrange(0, all(t).len() as int) =~= all(t));
        at_append(all(t), off(t, k), t[k].0, off(t, k + 1) - off(t, k), all(s));
    } else {
        assert(s.take(k) =~= t);
        let e = if s.last().1 { wide(s.last().0) } else { short(s.last().0) };
        assert(all(s).subrange(all(t).len() as int, all(s).len() as int) =~= e);
    }
}
/// Shifting a number down a byte at a time.
pub proof fn sh(x: u32)
    ensures x >> 8 >> 8 == x >> 16, x >> 16 >> 8 == x >> 24, x >> 24 >> 8 == 0, x != 0 ==> x >> 8 < x,
        x < 0x100 <==> x >> 8 == 0, x < 0x1_0000 <==> x >> 16 == 0, x < 0x100_0000 <==> x >> 24 == 0
{
    assert(x >> 8 >> 8 == x >> 16) by (bit_vector);
    assert(x >> 16 >> 8 == x >> 24) by (bit_vector);
    assert(x >> 24 >> 8 == 0) by (bit_vector);
    assert(x != 0 ==> x >> 8 < x) by (bit_vector);
    assert(x < 0x100 <==> x >> 8 == 0) by (bit_vector);
    assert(x < 0x1_0000 <==> x >> 16 == 0) by (bit_vector);
    assert(x < 0x100_0000 <==> x >> 24 == 0) by (bit_vector);
}
//@ impl GRAPH `impl Graph`
//@ fn with_capacity props=P07
    ensures r.vect@.len() == 0
//@ endfn
//@ fn push props=P07,P08,P10
    ensures final(self).vect@ == old(self).vect@ + short(node)
//@ entry
    let ghost old_ = self.vect@;
//@ closure 0
    -> (r: (u8, [u8; 4])) ensures r.0 == nb(x), r.1@ == le4(x)
//@ rewrite `u32 :: to_le_bytes ( x )` => `to_le_bytes_(x)`
//@ before_loop 0
    let ghost x0 = x;
    proof { sh(x0); }
//@ loop 0 while
    invariant 0 <= i <= 4, i == 0 ==> x == x0, i == 1 ==> x == x0 >> 8 && x0 > 0, i == 2 ==> x == x0 >> 16 && x0 >= 0x100,
        i == 3 ==> x == x0 >> 24 && x0 >= 0x1_0000, i == 4 ==> x == 0 && x0 >= 0x100_0000, slice@ == le4(x0)
    decreases x
//@ loop_start 0
    proof { sh(x0); sh(x); }
//@ after_loop 0
    proof { sh(x0); }
//@ exit
    proof {
        assert(main_slice@.subrange(0, 1 + l_len + r_len) =~= short(node));
        assert(self.vect@ =~= old_ + short(node));
    }
//@ endfn
//@ fn len props=P07,P08,P10
    ensures r == self.vect@.len() as u32
//@ endfn
//@ fn get props=P07,P08,P10
    requires exists|n: Node, z: int| at(self.vect@, index as int, n, z)
    ensures exists|z: int| at(self.vect@, index as int, r, z)
//@ entry
    let ghost (n, z) = choose|n: Node, z: int| at(self.vect@, index as int, n, z);
    proof {
        assert(self.vect@.len() == self.vect.len());
        assert(0u8 & 0b111 == 0 && 1u8 & 0b111 == 1 && (0u8 >> 3u8) & 0b11 == 0 && (0u8 >> 5u8) & 0b11 == 0 && (1u8 >> 3u8) & 0b11 == 0 && (1u8 >> 5u8) & 0b11 == 0) by (bit_vector);
    }
    let ghost (a, b) = at_seen(self.vect@, index as int, n, z);
    proof {
        if kind(n) >= 2 { head_bits(kind(n) as u8, a as u8, b as u8); full(self.vect@, index + 1, nleft(n), a); full(self.vect@, index + 1 + a, nright(n), b); }
    }
//@ after `let left = u32 :: from_le_bytes ( left_slice ) ;`
    proof { if kind(n) >= 2 { assert(left_slice@ =~= le4(nleft(n))); le4_inj(left, nleft(n)); } }
//@ after `let right = u32 :: from_le_bytes ( right_slice ) ;`
    proof { if kind(n) >= 2 { assert(right_slice@ =~= le4(nright(n))); le4_inj(right, nright(n)); } }
//@ rewrite `u32 :: from_le_bytes ( left_slice )` => `from_le_bytes_(left_slice)`
//@ rewrite `u32 :: from_le_bytes ( right_slice )` => `from_le_bytes_(right_slice)`
//@ endfn
//@ fn get_node_size props=P07,P08
    requires exists|n: Node, z: int| at(self.vect@, index as int, n, z)
    ensures exists|n: Node| at(self.vect@, index as int, n, r as int)
//@ entry
    let ghost (n, z) = choose|n: Node, z: int| at(self.vect@, index as int, n, z);
    let ghost (a, b) = at_seen(self.vect@, index as int, n, z);
    proof {
        if kind(n) >= 2 { head_bits(kind(n) as u8, a as u8, b as u8); }
        assert(0u8 & 0b111 == 0 && 1u8 & 0b111 == 1) by (bit_vector);
    }
//@ endfn
//@ fn push_expanded props=P07,P10
    ensures final(self).vect@ == old(self).vect@ + wide(node)
//@ entry
    let ghost old_ = self.vect@;
    proof { if kind(node) >= 2 { wide_head(kind(node) as u8); } }
//@ exit
    proof { assert(self.vect@ =~= old_ + wide(node)); }
//@ rewrite `. extend ( left . to_le_bytes ( ) )` => `.extend_bytes_(to_le_bytes_(left))`
//@ rewrite `. extend ( right . to_le_bytes ( ) )` => `.extend_bytes_(to_le_bytes_(right))`
//@ endfn
//@ endimpl
