/// Assumed: what `Vec::extend` does with an iterator that obeys the iterator laws.
pub assume_specification<T, A, I> [<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend] (v: &mut std::vec::Vec<T, A>, i: I)
    where A: std::alloc::Allocator, I: std::iter::IntoIterator<Item = T>,
    ensures exists|it: I::IntoIter| #[trigger] call_ensures(I::into_iter, (i,), it) && (it.obeys_prophetic_iter_laws() ==> it.will_return_none() && final(v)@ == old(v)@ + it.remaining());
/// Assumed: `Option<&T>::copied`.
pub assume_specification<'a, T> [std::option::Option::<&T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    where T: std::marker::Copy
    ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
/// `Iterator::map` with its laws restated for a caller whose closure type is concrete (proved from vstd's contract of `map`).
pub trait MapLaw: Iterator + Sized {
    fn map_law_<B, F: FnMut(Self::Item) -> B>(self, f: F) -> (r: std::iter::Map<Self, F>)
        requires self.obeys_prophetic_iter_laws(), forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
        ensures IteratorSpec::obeys_prophetic_iter_laws(&r),
            IteratorSpec::remaining(&r).len() <= self.remaining().len(),
            IteratorSpec::will_return_none(&r) ==> self.will_return_none() && IteratorSpec::remaining(&r).len() == self.remaining().len(),
            forall|k: int| 0 <= k < IteratorSpec::remaining(&r).len() ==> call_ensures(f, (self.remaining()[k],), #[trigger] IteratorSpec::remaining(&r)[k]);
}
impl<I: Iterator + Sized> MapLaw for I {
    fn map_law_<B, F: FnMut(Self::Item) -> B>(self, f: F) -> (r: std::iter::Map<Self, F>) { self.map(f) }
}
