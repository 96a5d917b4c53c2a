/// Assumed: `mem::replace`.
pub assume_specification<T> [std::mem::replace] (x: &mut T, y: T) -> (r: T)
    ensures r == *old(x), *final(x) == y;
/// Assumed: bumpalo's arena and allocator_api2's vector in it behave as a vector.
pub struct Bump {}
impl Bump { pub fn new() -> Bump { Bump {} } }
pub struct AVec<T, A> { pub v: Vec<T>, pub a: A }
impl<T, A> AVec<T, A> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    pub fn new_in(a: A) -> (r: Self) ensures r@ == Seq::<T>::empty() { AVec { v: Vec::new(), a } }
    pub fn push(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { self.v.push(x); }
    #[verifier::external_body]
    pub fn extend(&mut self, o: AVec<T, A>) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'b>(&'b self) -> (r: SeqIter<&'b T>) ensures r@.len() == self@.len(), forall|k: int| #![trigger r@[k]] #![trigger self@[k]] 0 <= k < r@.len() ==> *r@[k] == self@[k] { unimplemented!() }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
}
//@ struct ST WorkNode public
pub open spec fn idx(ws: Seq<WorkNode<'_>>, i: int, j: int) -> int { ws[i].results@[j] as int }
/// The result lists of the frames name results, each at most once, and give the values `accs`.
pub open spec fn lists<T>(ws: Seq<WorkNode<'_>>, rs: Seq<T>, accs: Seq<Seq<T>>) -> bool {
    &&& accs.len() == ws.len()
    &&& forall|i: int| 0 <= i < ws.len() ==> (#[trigger] ws[i]).results@.len() == accs[i].len()
    &&& forall|i: int, j: int| 0 <= i < ws.len() && 0 <= j < accs[i].len() ==> #[trigger] idx(ws, i, j) < rs.len() && rs[idx(ws, i, j)] == accs[i][j]
    &&& forall|i: int, j: int, k: int, l: int| 0 <= i < ws.len() && 0 <= j < accs[i].len() && 0 <= k < ws.len() && 0 <= l < accs[k].len() && (i != k || j != l) ==> #[trigger] idx(ws, i, j) != #[trigger] idx(ws, k, l)
}
pub open spec fn like(a: WorkNode<'_>, b: WorkNode<'_>) -> bool { a.node == b.node && a.child == b.child && a.parent == b.parent }
/// All frames but those from `p` on, and `p`, are as they were.
pub open spec fn others(ws: Seq<WorkNode<'_>>, ws2: Seq<WorkNode<'_>>, k: int, p: int) -> bool { ws2.len() >= k && 0 <= p < k <= ws.len() && (forall|i: int| 0 <= i < k && i != p ==> ws2[i] == ws[i]) && like(ws2[p], ws[p]) }
pub proof fn lists_down<T>(ws: Seq<WorkNode<'_>>, rs: Seq<T>, accs: Seq<Seq<T>>, ws2: Seq<WorkNode<'_>>)
    requires lists(ws, rs, accs), ws.len() > 0, ws2.len() == ws.len() + 1, ws2.last().results@.len() == 0, forall|i: int| 0 <= i < ws.len() ==> (#[trigger] ws2[i]).results@ == ws[i].results@
    ensures lists(ws2, rs, accs.push(Seq::empty()))
{
    let a2 = accs.push(Seq::empty()); let k = ws.len() as int;
    assert(a2[k].len() == 0);
    assert forall|i: int| 0 <= i < ws2.len() implies (#[trigger] ws2[i]).results@.len() == a2[i].len() by { if i < ws.len() { assert(ws[i].results@.len() == accs[i].len()); } }
    assert forall|i: int, j: int| 0 <= i < ws2.len() && 0 <= j < a2[i].len() implies #[trigger] idx(ws2, i, j) < rs.len() && rs[idx(ws2, i, j)] == a2[i][j] by { assert(i < k); assert(idx(ws2, i, j) == idx(ws, i, j)); }
    assert forall|i: int, j: int, m: int, l: int| 0 <= i < ws2.len() && 0 <= j < a2[i].len() && 0 <= m < ws2.len() && 0 <= l < a2[m].len() && (i != m || j != l) implies #[trigger] idx(ws2, i, j) != #[trigger] idx(ws2, m, l) by { assert(i < k && m < k); assert(idx(ws2, i, j) == idx(ws, i, j) && idx(ws2, m, l) == idx(ws, m, l)); }
}
/// The last frame (its list empty) is gone.
pub proof fn lists_drop<T>(ws: Seq<WorkNode<'_>>, rs: Seq<T>, accs: Seq<Seq<T>>)
    requires lists(ws, rs, accs), ws.len() > 0
    ensures lists(ws.drop_last(), rs, accs.drop_last())
{
    let w = ws.drop_last(); let a = accs.drop_last();
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).results@.len() == a[i].len() by { assert(ws[i].results@.len() == accs[i].len()); }
    assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < a[i].len() implies #[trigger] idx(w, i, j) < rs.len() && rs[idx(w, i, j)] == a[i][j] by { assert(idx(w, i, j) == idx(ws, i, j)); }
    assert forall|i: int, j: int, m: int, l: int| 0 <= i < w.len() && 0 <= j < a[i].len() && 0 <= m < w.len() && 0 <= l < a[m].len() && (i != m || j != l) implies #[trigger] idx(w, i, j) != #[trigger] idx(w, m, l) by { assert(idx(w, i, j) == idx(ws, i, j) && idx(w, m, l) == idx(ws, m, l)); }
}
/// New results, the first of them given to `p`; the last frame is gone.
pub proof fn lists_give<T>(ws: Seq<WorkNode<'_>>, rs: Seq<T>, accs: Seq<Seq<T>>, ws2: Seq<WorkNode<'_>>, new: Seq<T>, p: int)
    requires lists(ws, rs, accs), ws.len() > 1, others(ws, ws2, ws.len() - 1, p), ws2.len() == ws.len() - 1, new.len() > 0, rs.len() < 0x1_0000_0000, ws2[p].results@ == ws[p].results@.push(rs.len() as u32)
    ensures lists(ws2, rs + new, accs.drop_last().update(p, accs[p].push(new[0])))
{
    let a2 = accs.drop_last().update(p, accs[p].push(new[0])); let r2 = rs + new;
    assert forall|i: int| 0 <= i < ws2.len() implies (#[trigger] ws2[i]).results@.len() == a2[i].len() by { assert(ws[i].results@.len() == accs[i].len()); }
    assert forall|i: int, j: int| 0 <= i < ws2.len() && 0 <= j < a2[i].len() implies #[trigger] idx(ws2, i, j) < r2.len() && r2[idx(ws2, i, j)] == a2[i][j] by {
        if j < accs[i].len() { assert(ws[i].results@.len() == accs[i].len()); assert(idx(ws2, i, j) == idx(ws, i, j)); } else { assert(i == p && ws[i].results@.len() == accs[i].len()); assert(idx(ws2, i, j) == rs.len()); }
    }
    assert forall|i: int, j: int, m: int, l: int| 0 <= i < ws2.len() && 0 <= j < a2[i].len() && 0 <= m < ws2.len() && 0 <= l < a2[m].len() && (i != m || j != l) implies #[trigger] idx(ws2, i, j) != #[trigger] idx(ws2, m, l) by {
        assert(ws[i].results@.len() == accs[i].len() && ws[m].results@.len() == accs[m].len());
        if j < accs[i].len() { assert(idx(ws2, i, j) == idx(ws, i, j)); } else { assert(i == p && idx(ws2, i, j) == rs.len()); }
        if l < accs[m].len() { assert(idx(ws2, m, l) == idx(ws, m, l)); } else { assert(m == p && idx(ws2, m, l) == rs.len()); }
    }
}
/// The last frame's list is appended to that of `p`, and it is gone.
pub proof fn lists_splice<T>(ws: Seq<WorkNode<'_>>, rs: Seq<T>, accs: Seq<Seq<T>>, ws2: Seq<WorkNode<'_>>, p: int)
    requires lists(ws, rs, accs), ws.len() > 1, others(ws, ws2, ws.len() - 1, p), ws2.len() == ws.len() - 1, ws2[p].results@ == ws[p].results@ + ws.last().results@
    ensures lists(ws2, rs, accs.drop_last().update(p, accs[p] + accs.last()))
{
    let a2 = accs.drop_last().update(p, accs[p] + accs.last()); let k = ws.len() - 1;
    assert(ws[k].results@.len() == accs[k].len() && ws[p].results@.len() == accs[p].len());
    assert forall|i: int| 0 <= i < ws2.len() implies (#[trigger] ws2[i]).results@.len() == a2[i].len() by { assert(ws[i].results@.len() == accs[i].len()); }
    assert forall|i: int, j: int| 0 <= i < ws2.len() && 0 <= j < a2[i].len() implies #[trigger] idx(ws2, i, j) < rs.len() && rs[idx(ws2, i, j)] == a2[i][j] by {
        assert(ws[i].results@.len() == accs[i].len());
        if j < accs[i].len() { assert(idx(ws2, i, j) == idx(ws, i, j)); } else { assert(i == p); assert(idx(ws2, i, j) == idx(ws, k, j - accs[p].len())); }
    }
    assert forall|i: int, j: int, m: int, l: int| 0 <= i < ws2.len() && 0 <= j < a2[i].len() && 0 <= m < ws2.len() && 0 <= l < a2[m].len() && (i != m || j != l) implies #[trigger] idx(ws2, i, j) != #[trigger] idx(ws2, m, l) by {
        assert(ws[i].results@.len() == accs[i].len() && ws[m].results@.len() == accs[m].len());
        if j < accs[i].len() { assert(idx(ws2, i, j) == idx(ws, i, j)); } else { assert(idx(ws2, i, j) == idx(ws, k, j - accs[p].len())); }
        if l < accs[m].len() { assert(idx(ws2, m, l) == idx(ws, m, l)); } else { assert(idx(ws2, m, l) == idx(ws, k, l - accs[p].len())); }
    }
}
