//@ file HEAP gearley-recognizer/src/binary_heap.rs
//@ struct HEAP BinaryHeap

pub open spec fn par(k: int) -> int { (k - 1) / 2 }
/// Every element but the first is at most its parent.
pub open spec fn heap_ok<N>(s: Seq<Item<N>>) -> bool { forall|k: int| 0 < k < s.len() ==> kle(key(#[trigger] s[k]), key(s[par(k)])) }
/// The heap order, except that the element at `pos` may be too large for its parent.
pub open spec fn hole_up<N>(s: Seq<Item<N>>, pos: int) -> bool {
    &&& forall|k: int| 0 < k < s.len() && k != pos ==> kle(key(#[trigger] s[k]), key(s[par(k)]))
    &&& pos > 0 ==> forall|k: int| 0 < k < s.len() && par(k) == pos ==> kle(key(#[trigger] s[k]), key(s[par(pos)]))
}
/// The heap order, except that the element at `pos` may be too small for its children.
pub open spec fn hole_down<N>(s: Seq<Item<N>>, pos: int) -> bool {
    &&& forall|k: int| 0 < k < s.len() && par(k) != pos ==> kle(key(#[trigger] s[k]), key(s[par(k)]))
    &&& pos > 0 ==> forall|k: int| 0 < k < s.len() && par(k) == pos ==> kle(key(#[trigger] s[k]), key(s[par(pos)]))
}
/// The first element of a heap is greatest.
pub proof fn lemma_top<N>(s: Seq<Item<N>>, k: int)
    requires heap_ok(s), 0 <= k < s.len()
    ensures kle(key(s[k]), key(s[0]))
    decreases k
{ if k > 0 { lemma_top(s, par(k)); assert(kle(key(s[k]), key(s[par(k)]))); } }
/// Moving the element next to the hole into it: the multiset with `e` in the hole stays the same.
pub proof fn lemma_shift<N>(s: Seq<Item<N>>, a: int, b: int, e: Item<N>)
    requires 0 <= a < s.len(), 0 <= b < s.len(), a != b
    ensures s.update(a, s[b]).update(b, e).to_multiset() == s.update(a, e).to_multiset()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let x = s.update(a, s[b]);
    let y = s.update(a, e);
    assert(x[b] == s[b]);
    assert(x.update(b, e).to_multiset() =~= x.to_multiset().insert(e).remove(s[b]));
    assert(x.to_multiset() =~= s.to_multiset().insert(s[b]).remove(s[a]));
    assert(y.to_multiset() =~= s.to_multiset().insert(e).remove(s[a]));
    let m = s.to_multiset();
    assert(m.count(s[a]) > 0 && m.count(s[b]) > 0) by { assert(s.contains(s[a])); assert(s.contains(s[b])); }
    lemma_two(s, a, b);
    assert(m.insert(s[b]).remove(s[a]).insert(e).remove(s[b]) =~= m.insert(e).remove(s[a]));
}
pub proof fn lemma_two<N>(s: Seq<Item<N>>, a: int, b: int)
    requires 0 <= a < s.len(), 0 <= b < s.len(), a != b
    ensures s[a] == s[b] ==> s.to_multiset().count(s[a]) >= 2
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let t = s.remove(a);
    vstd::seq_lib::to_multiset_remove(s, a);
    let b2 = if b < a { b } else { b - 1 };
    assert(t[b2] == s[b]);
    assert(t.contains(s[b]));
    if s[a] == s[b] {
        assert(t.to_multiset().count(s[a]) > 0);
        assert(s.to_multiset().count(s[a]) > 0) by { assert(s.contains(s[a])); }
        assert(s.to_multiset().remove(s[a]).count(s[a]) + 1 == s.to_multiset().count(s[a]));
    }
}
pub proof fn lemma_up_step<N>(s: Seq<Item<N>>, pos: int, e: Item<N>)
    requires 0 < pos < s.len(), hole_up(s.update(pos, e), pos), !kle(key(e), key(s[par(pos)]))
    ensures hole_up(s.update(pos, s[par(pos)]).update(par(pos), e), par(pos)),
        s.update(pos, s[par(pos)]).update(par(pos), e).to_multiset() == s.update(pos, e).to_multiset(),
{
    let p = par(pos); let h0 = s.update(pos, e); let h1 = s.update(pos, s[p]).update(p, e);
    lemma_shift(s, pos, p, e);
    assert forall|k: int| 0 < k < h1.len() && k != p implies kle(key(#[trigger] h1[k]), key(h1[par(k)])) by {
        if k == pos { assert(h1[k] == s[p] && h1[par(k)] == e); }
        else if par(k) == pos { assert(h1[k] == h0[k]); assert(kle(key(h0[k]), key(h0[par(pos)]))); }
        else if par(k) == p { assert(kle(key(h0[k]), key(h0[par(k)]))); assert(h0[p] == s[p]); }
        else { assert(kle(key(h0[k]), key(h0[par(k)]))); }
    }
    if p > 0 {
        assert(kle(key(h0[p]), key(h0[par(p)])));
        assert forall|k: int| 0 < k < h1.len() && par(k) == p implies kle(key(#[trigger] h1[k]), key(h1[par(p)])) by {
            if k != pos { assert(kle(key(h0[k]), key(h0[par(k)]))); assert(h0[p] == s[p]); }
        }
    }
}
pub proof fn lemma_up_done<N>(h: Seq<Item<N>>, pos: int)
    requires 0 <= pos < h.len(), hole_up(h, pos), pos > 0 ==> kle(key(h[pos]), key(h[par(pos)]))
    ensures heap_ok(h)
{}
pub proof fn lemma_down_step<N>(s: Seq<Item<N>>, pos: int, c: int, e: Item<N>)
    requires 0 <= pos < s.len(), pos < c < s.len(), par(c) == pos, hole_down(s.update(pos, e), pos), klt(key(e), key(s[c])),
        forall|k: int| 0 < k < s.len() && par(k) == pos ==> kle(key(#[trigger] s[k]), key(s[c])),
    ensures hole_down(s.update(pos, s[c]).update(c, e), c),
        s.update(pos, s[c]).update(c, e).to_multiset() == s.update(pos, e).to_multiset(),
{
    let h0 = s.update(pos, e); let h1 = s.update(pos, s[c]).update(c, e);
    lemma_shift(s, pos, c, e);
    assert forall|k: int| 0 < k < h1.len() && par(k) != c implies kle(key(#[trigger] h1[k]), key(h1[par(k)])) by {
        if k == c { assert(h1[k] == e && h1[par(k)] == s[c]); }
        else if par(k) == pos { assert(h1[par(k)] == s[c]); assert(h1[k] == s[k]); }
        else if k == pos { assert(kle(key(h0[c]), key(h0[par(pos)]))); assert(h0[par(pos)] == s[par(pos)]); }
        else { assert(kle(key(h0[k]), key(h0[par(k)]))); }
    }
    assert forall|k: int| 0 < k < h1.len() && par(k) == c implies kle(key(#[trigger] h1[k]), key(h1[par(c)])) by {
        assert(kle(key(h0[k]), key(h0[par(k)]))); assert(h0[par(k)] == s[c]);
    }
}
pub proof fn lemma_down_done<N>(h: Seq<Item<N>>, pos: int)
    requires 0 <= pos < h.len(), hole_down(h, pos), forall|k: int| 0 < k < h.len() && par(k) == pos ==> kle(key(#[trigger] h[k]), key(h[pos]))
    ensures heap_ok(h)
{}
/// A queue's item count fits twice into the address space (items are at least 8 bytes, and a Vec holds at most isize::MAX bytes).
pub open spec fn queue_small<N>(s: Seq<Item<N>>) -> bool { 2 * s.len() < usize::MAX }
/// Taking the top out and putting the last one there.
pub proof fn lemma_pop<N>(h: Seq<Item<N>>)
    requires heap_ok(h), h.len() > 0
    ensures forall|k: int| 0 <= k < h.len() ==> kle(key(#[trigger] h[k]), key(h[0])),
        heap_ok(h.drop_last()), h.to_multiset() == h.drop_last().to_multiset().insert(h.last()),
        h.len() > 1 ==> hole_down(h.drop_last().update(0, h.last()), 0)
            && h.to_multiset() == h.drop_last().update(0, h.last()).to_multiset().insert(h[0]),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|k: int| 0 <= k < h.len() implies kle(key(#[trigger] h[k]), key(h[0])) by { lemma_top(h, k); }
    let d = h.drop_last();
    assert forall|k: int| 0 < k < d.len() implies kle(key(#[trigger] d[k]), key(d[par(k)])) by { assert(d[k] == h[k] && d[par(k)] == h[par(k)]); }
    assert(d.push(h.last()) =~= h);
    if h.len() > 1 {
        let u = d.update(0, h.last());
        assert forall|k: int| 0 < k < u.len() && par(k) != 0 implies kle(key(#[trigger] u[k]), key(u[par(k)])) by { assert(u[k] == h[k] && u[par(k)] == h[par(k)]); }
        assert(d.contains(d[0]));
        assert(d[0] == h[0]);
        assert(u.to_multiset() =~= d.to_multiset().insert(h.last()).remove(h[0]));
        assert(h.to_multiset() =~= u.to_multiset().insert(h[0]));
    }
}
