//@ include prelude.inc
use std::cmp;
pub type Dot = u32;
pub type Origin = u32;
//@ include item.inc

/// The comparisons specified above form one total order, determined by (origin, dot) alone.
pub proof fn theorem_total_order<N>(a: Item<N>, b: Item<N>, c: Item<N>, n: N)
    ensures
        kcmp(key(a), key(a)) == cmp::Ordering::Equal,
        (kcmp(key(a), key(b)) == cmp::Ordering::Less) == (kcmp(key(b), key(a)) == cmp::Ordering::Greater),
        (kcmp(key(a), key(b)) == cmp::Ordering::Equal) == (a.origin == b.origin && a.dot == b.dot),
        kcmp(key(a), key(b)) == cmp::Ordering::Less && kcmp(key(b), key(c)) == cmp::Ordering::Less ==> kcmp(key(a), key(c)) == cmp::Ordering::Less,
        kcmp(key(Item { node: n, ..a }), key(b)) == kcmp(key(a), key(b)),
{}
/// The operators agree with the methods, for items and for references to items.
pub fn operators<N>(a: &Item<N>, b: &Item<N>)
{
    let x = *a <= *b; let y = *a < *b; let z = a >= b; let w = *a == *b; let v = a > b;
    assert(x == kle(key(*a), key(*b)));
    assert(y == klt(key(*a), key(*b)));
    assert(z == kle(key(*b), key(*a)));
    assert(v == klt(key(*b), key(*a)));
    assert(w == (key(*a) == key(*b)));
}
} // verus!
