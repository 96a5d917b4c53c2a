// ---- std's iterator adapters over finite sequences (assumed contracts): `SeqIter<T>` stands for any of std's
// iterators, its view is the sequence it still yields; closures are taken to be pure (their contract decides).
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SeqIter<T> { v: std::vec::IntoIter<T> }
impl<T> SeqIter<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures r is Some == (old(self)@.len() > 0), r is Some ==> r->0 == old(self)@[0] && final(self)@ == old(self)@.skip(1), r is None ==> final(self)@ == old(self)@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<B, F: FnMut(T) -> B>(self, f: F) -> (r: SeqIter<B>)
        requires forall|k: int| 0 <= k < self@.len() ==> call_requires(f, (#[trigger] self@[k],))
        ensures r@.len() == self@.len(), forall|k: int| #![trigger r@[k]] #![trigger self@[k]] 0 <= k < self@.len() ==> call_ensures(f, (self@[k],), r@[k])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, o: SeqIter<T>) -> (r: SeqIter<T>) ensures r@ == self@ + o@,
        forall|k: int| ch_pos(r, k) == self@.len() + k && ch_src(r, #[trigger] ch_pos(r, k)) == k,
        forall|k: int| ch_src(r, k) == k - self@.len() && ch_pos(r, #[trigger] ch_src(r, k)) == k,
        forall|k: int| 0 <= k < self@.len() ==> r@[k] == #[trigger] self@[k],
        forall|k: int| 0 <= k < o@.len() ==> r@[ch_pos(r, k)] == #[trigger] o@[k],
        forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (if k < self@.len() { self@[k] } else { o@[ch_src(r, k)] })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: SeqIter<T>) ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: SeqIter<T>) ensures r@ == (if n <= self@.len() { self@.take(n as int) } else { self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: SeqIter<(usize, T)>) ensures r@.len() == self@.len(), forall|k: int| 0 <= k < self@.len() ==> #[trigger] r@[k] == (k as usize, self@[k]) { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U>(self, o: SeqIter<U>) -> (r: SeqIter<(T, U)>) ensures r@.len() == (if self@.len() < o@.len() { self@.len() } else { o@.len() }), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (self@[k], o@[k]) { unimplemented!() }
    #[verifier::external_body]
    pub fn take_while<F: FnMut(&T) -> bool>(self, f: F) -> (r: SeqIter<T>)
        requires forall|k: int| 0 <= k < self@.len() ==> call_requires(f, (&#[trigger] self@[k],))
        ensures r@.len() <= self@.len(), r@ == self@.take(r@.len() as int),
            forall|k: int| 0 <= k < r@.len() ==> call_ensures(f, (&#[trigger] self@[k],), true),
            r@.len() < self@.len() ==> call_ensures(f, (&self@[r@.len() as int],), false)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<B, F: FnMut(T) -> Option<B>>(self, f: F) -> (r: SeqIter<B>)
        requires forall|k: int| 0 <= k < self@.len() ==> call_requires(f, (#[trigger] self@[k],))
        ensures r@ == opts(fmo(r)), fmo(r).len() == self@.len(), forall|k: int| 0 <= k < self@.len() ==> call_ensures(f, (self@[k],), #[trigger] fmo(r)[k])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flat_map<B, const N: usize, F: FnMut(T) -> [B; N]>(self, f: F) -> (r: SeqIter<B>)
        requires forall|k: int| 0 <= k < self@.len() ==> call_requires(f, (#[trigger] self@[k],))
        ensures
            forall|k: int, i: int| 0 <= k < self@.len() && 0 <= i < N ==> 0 <= fm_pos(r, k, i) < r@.len() && fm_k(r, fm_pos(r, k, i)) == k && fm_i(r, fm_pos(r, k, i)) == i && r@[fm_pos(r, k, i)] == #[trigger] fm_arr::<B, N>(r, k)@[i],
            forall|k: int| #![trigger self@[k]] #![trigger fm_arr::<B, N>(r, k)] 0 <= k < self@.len() ==> call_ensures(f, (self@[k],), fm_arr::<B, N>(r, k)),
            forall|j: int| 0 <= j < r@.len() ==> 0 <= fm_k(r, j) < self@.len() && 0 <= fm_i(r, j) < N && fm_pos(r, fm_k(r, j), fm_i(r, j)) == j && #[trigger] r@[j] == fm_arr::<B, N>(r, fm_k(r, j))@[fm_i(r, j)],
    { unimplemented!() }
}
impl<'a, T: Copy> SeqIter<&'a T> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: SeqIter<T>) ensures r@.len() == self@.len(), forall|k: int| 0 <= k < self@.len() ==> #[trigger] r@[k] == *self@[k] { unimplemented!() }
    #[verifier::external_body]
    pub fn cloned(self) -> (r: SeqIter<T>) ensures r@.len() == self@.len(), forall|k: int| 0 <= k < self@.len() ==> #[trigger] r@[k] == *self@[k] { unimplemented!() }
}
impl<'a, T> SeqIter<&'a Option<T>> {
    #[verifier::external_body]
    pub fn flatten(self) -> (r: SeqIter<&'a T>)
        ensures
            forall|k: int| 0 <= k < self@.len() && *(#[trigger] self@[k]) is Some ==> 0 <= fl_dst(r, k) < r@.len() && fl_src(r, fl_dst(r, k)) == k && *self@[k] == Some(*r@[fl_dst(r, k)]),
            forall|j: int| 0 <= j < r@.len() ==> 0 <= fl_src(r, j) < self@.len() && fl_dst(r, fl_src(r, j)) == j && *self@[fl_src(r, j)] == Some(*(#[trigger] r@[j])),
    { unimplemented!() }
}
impl SeqIter<usize> {
    #[verifier::external_body]
    pub fn max(self) -> (r: Option<usize>)
        ensures r is Some == (self@.len() > 0), r is Some ==> self@.contains(r->0) && forall|k: int| 0 <= k < self@.len() ==> #[trigger] self@[k] <= r->0
    { unimplemented!() }
}
/// The present elements, in order.
pub open spec fn opts<B>(o: Seq<Option<B>>) -> Seq<B> decreases o.len() { if o.len() == 0 { Seq::empty() } else { let t = opts(o.drop_last()); match o.last() { Some(x) => t.push(x), None => t } } }
// where the elements of a flattened sequence come from and go to (order is not specified further)
/// The answers of the closure of a `filter_map`, one per element.
pub uninterp spec fn fmo<T>(r: SeqIter<T>) -> Seq<Option<T>>;
pub uninterp spec fn ch_pos<T>(r: SeqIter<T>, k: int) -> int;
pub uninterp spec fn ch_src<T>(r: SeqIter<T>, k: int) -> int;
pub uninterp spec fn fl_src<T>(r: SeqIter<T>, j: int) -> int;
pub uninterp spec fn fl_dst<T>(r: SeqIter<T>, k: int) -> int;
pub uninterp spec fn fm_arr<B, const N: usize>(r: SeqIter<B>, k: int) -> [B; N];
pub uninterp spec fn fm_pos<T>(r: SeqIter<T>, k: int, i: int) -> int;
pub uninterp spec fn fm_k<T>(r: SeqIter<T>, j: int) -> int;
pub uninterp spec fn fm_i<T>(r: SeqIter<T>, j: int) -> int;
/// Starting points: an iterator over a slice or vector yields its elements in order.
pub trait IterSeq<T> {
    spec fn elems(&self) -> Seq<T>;
    fn iter_seq_<'a>(&'a self) -> (r: SeqIter<&'a T>) ensures r@.len() == self.elems().len(), forall|k: int| #![trigger r@[k]] #![trigger self.elems()[k]] 0 <= k < r@.len() ==> *r@[k] == self.elems()[k];
}
impl<T> IterSeq<T> for [T] {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter_seq_<'a>(&'a self) -> (r: SeqIter<&'a T>) { unimplemented!() }
}
impl<T> IterSeq<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter_seq_<'a>(&'a self) -> (r: SeqIter<&'a T>) { unimplemented!() }
}
pub trait IntoSeq<T>: Sized { spec fn seq_(self) -> Seq<T>; fn into_seq_(self) -> (r: SeqIter<T>) ensures r@ == self.seq_(); }
impl<T> IntoSeq<T> for SeqIter<T> { open spec fn seq_(self) -> Seq<T> { self@ } fn into_seq_(self) -> (r: SeqIter<T>) { self } }
impl<'a, T> IntoSeq<&'a T> for &'a [T] {
    open spec fn seq_(self) -> Seq<&'a T> { Seq::new(self@.len(), |k: int| &self@[k]) }
    #[verifier::external_body] fn into_seq_(self) -> (r: SeqIter<&'a T>) { unimplemented!() }
}
impl<'a, T> IntoSeq<&'a T> for &'a Vec<T> {
    open spec fn seq_(self) -> Seq<&'a T> { Seq::new(self@.len(), |k: int| &self@[k]) }
    #[verifier::external_body] fn into_seq_(self) -> (r: SeqIter<&'a T>) { unimplemented!() }
}
impl<T> IntoSeq<T> for Vec<T> {
    open spec fn seq_(self) -> Seq<T> { self@ }
    #[verifier::external_body] fn into_seq_(self) -> (r: SeqIter<T>) { unimplemented!() }
}
impl<T> SeqIter<T> {
    /// `collect` into a vector.
    #[verifier::external_body]
    pub fn collect_(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
}
pub trait ExtendSeq<T> { spec fn cont(&self) -> Seq<T>; fn extend_seq_(&mut self, i: SeqIter<T>) ensures final(self).cont() == old(self).cont() + i@; }
impl<T> ExtendSeq<T> for Vec<T> {
    open spec fn cont(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn extend_seq_(&mut self, i: SeqIter<T>) { unimplemented!() }
}
