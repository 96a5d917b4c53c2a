//@ file ITEM gearley-forest/src/item.rs
//@ struct ITEM Item derive=Clone,Copy

/// What an item is compared by.
pub open spec fn key<N>(i: Item<N>) -> (u32, u32) { (i.origin, i.dot) }
pub open spec fn klt(a: (u32, u32), b: (u32, u32)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
pub open spec fn kle(a: (u32, u32), b: (u32, u32)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 <= b.1) }
pub open spec fn kcmp(a: (u32, u32), b: (u32, u32)) -> cmp::Ordering {
    if klt(a, b) { cmp::Ordering::Less } else if a == b { cmp::Ordering::Equal } else { cmp::Ordering::Greater }
}
impl<L> vstd::std_specs::cmp::PartialEqSpecImpl for Item<L> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { key(*self) == key(*other) }
}
impl<L> vstd::std_specs::cmp::PartialOrdSpecImpl for Item<L> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<cmp::Ordering> { Some(kcmp(key(*self), key(*other))) }
}
impl<L> vstd::std_specs::cmp::OrdSpecImpl for Item<L> {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> cmp::Ordering { kcmp(key(*self), key(*other)) }
}
impl<L> Eq for Item<L> {}
//@ impl ITEM `impl<L> PartialEq for Item<L>` strict
//@ fn eq props=P06
//@ endfn
//@ endimpl
//@ impl ITEM `impl<L> PartialOrd for Item<L>` strict
//@ fn partial_cmp props=P06
//@ endfn
//@ endimpl
//@ impl ITEM `impl<L> Ord for Item<L>` strict
//@ fn cmp props=P06
//@ endfn
//@ endimpl
