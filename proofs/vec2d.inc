//@ file V gearley-vec2d/src/lib.rs

//@ struct V Vec2d public
//@ struct V Vec2dCapacity public derive=Default

/// Abstract view: finished sets and the in-progress set.
pub open spec fn v_wf<I>(v: Vec2d<I>) -> bool {
    &&& v.indices@.len() >= 1
    &&& v.indices@[0] == 0
    &&& forall|i: int| 0 <= i < v.indices@.len() ==> #[trigger] v.indices@[i] <= v.chart@.len()
    &&& forall|i: int, j: int| 0 <= i <= j < v.indices@.len() ==> #[trigger] v.indices@[i] <= #[trigger] v.indices@[j]
}
pub open spec fn v_start<I>(v: Vec2d<I>) -> int { v.indices@.last() as int }
pub open spec fn v_set<I>(v: Vec2d<I>, i: int) -> Seq<I> { v.chart@.subrange(v.indices@[i] as int, v.indices@[i + 1] as int) }
/// The finished sets.
pub open spec fn v_sets<I>(v: Vec2d<I>) -> Seq<Seq<I>> { Seq::new((v.indices@.len() - 1) as nat, |i: int| v_set(v, i)) }
/// The in-progress set.
pub open spec fn v_cur<I>(v: Vec2d<I>) -> Seq<I> { v.chart@.subrange(v_start(v), v.chart@.len() as int) }
pub open spec fn v_empty<I>(v: Vec2d<I>) -> bool {
    v_wf(v) && v_sets(v) == Seq::<Seq<I>>::empty() && v_cur(v) == Seq::<I>::empty() && v.chart@ == Seq::<I>::empty()
}
/// All items, set after set: reading the store by item number agrees with the sets.
pub open spec fn v_flat<I>(s: Seq<Seq<I>>) -> Seq<I> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { v_flat(s.drop_last()) + s.last() }
}
pub proof fn lemma_flat<I>(v: Vec2d<I>, n: int)
    requires v_wf(v), 0 <= n < v.indices@.len()
    ensures v_flat(v_sets(v).take(n)) == v.chart@.take(v.indices@[n] as int)
    decreases n
{
    if n > 0 {
        lemma_flat(v, n - 1);
        assert(v_sets(v).take(n).drop_last() == v_sets(v).take(n - 1));
        assert(v_sets(v).take(n).last() == v_set(v, n - 1));
        assert(v.chart@.take(v.indices@[n - 1] as int) + v_set(v, n - 1) =~= v.chart@.take(v.indices@[n] as int));
    } else {
        assert(v.chart@.take(0) =~= Seq::empty());
    }
}
/// Every item belongs to exactly the set its number says: finished sets in order, then the in-progress set.
pub proof fn lemma_all_items<I>(v: Vec2d<I>)
    requires v_wf(v)
    ensures v.chart@ == v_flat(v_sets(v)) + v_cur(v)
{
    lemma_flat(v, v.indices@.len() - 1);
    assert(v_sets(v).take(v.indices@.len() - 1) =~= v_sets(v));
    assert(v.chart@.take(v_start(v)) + v_cur(v) =~= v.chart@);
}
pub proof fn lemma_push<I>(a: Vec2d<I>, b: Vec2d<I>)
    requires v_wf(a), b.indices@ == a.indices@, a.chart@.len() <= b.chart@.len(), b.chart@.take(v_start(a)) == a.chart@.take(v_start(a)), v_start(a) <= b.chart@.len(),
    ensures v_wf(b), v_sets(b) == v_sets(a)
{
    assert forall|i: int| 0 <= i < a.indices@.len() - 1 implies v_set(a, i) == v_set(b, i) by {
        assert(a.indices@[i + 1] <= v_start(a));
        assert(v_set(a, i) =~= a.chart@.take(v_start(a)).subrange(a.indices@[i] as int, a.indices@[i + 1] as int));
        assert(v_set(b, i) =~= b.chart@.take(v_start(a)).subrange(a.indices@[i] as int, a.indices@[i + 1] as int));
    }
    assert(v_sets(a) =~= v_sets(b));
}
pub proof fn lemma_cut<I>(a: Vec2d<I>, b: Vec2d<I>)
    requires v_wf(a), b.indices@ == a.indices@, v_start(a) <= b.chart@.len() <= a.chart@.len(), b.chart@ == a.chart@.take(b.chart@.len() as int),
    ensures v_wf(b), v_sets(b) == v_sets(a), v_cur(b) == v_cur(a).take(b.chart@.len() - v_start(a))
{
    assert forall|i: int| 0 <= i < b.indices@.len() implies #[trigger] b.indices@[i] <= b.chart@.len() by { assert(a.indices@[i] <= v_start(a)); }
    assert forall|i: int| 0 <= i < a.indices@.len() - 1 implies v_set(a, i) == v_set(b, i) by {
        assert(a.indices@[i + 1] <= v_start(a));
        assert(v_set(a, i) =~= v_set(b, i));
    }
    assert(v_sets(a) =~= v_sets(b));
    assert(v_cur(b) =~= v_cur(a).take(b.chart@.len() - v_start(a)));
}
pub proof fn lemma_fresh<I>(v: Vec2d<I>)
    requires v.chart@.len() == 0, v.indices@ == seq![0usize]
    ensures v_empty(v)
{
    assert(v_sets(v) =~= Seq::<Seq<I>>::empty());
    assert(v_cur(v) =~= Seq::<I>::empty());
    assert(v.chart@ =~= Seq::<I>::empty());
}
pub proof fn lemma_next<I>(a: Vec2d<I>, b: Vec2d<I>)
    requires v_wf(a), b.chart@ == a.chart@, b.indices@ == a.indices@.push(a.chart@.len() as usize), a.chart@.len() <= usize::MAX
    ensures v_wf(b), v_sets(b) == v_sets(a).push(v_cur(a)), v_cur(b) == Seq::<I>::empty()
{
    let n = a.indices@.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] v_sets(b)[i] == v_sets(a).push(v_cur(a))[i] by {
        if i < n - 1 { assert(v_set(a, i) == v_set(b, i)); }
    }
    assert(v_sets(b) =~= v_sets(a).push(v_cur(a)));
    assert(v_cur(b) =~= Seq::<I>::empty());
}

//@ impl V `impl<I> Vec2d<I>`
//@ fn new props=P01,P02
    ensures v_empty(r)
//@ endfn
//@ fn with_capacity props=P01,P02
    ensures v_empty(r)
//@ exit
    proof { assert(indices@ =~= seq![0usize]);
        assert forall|v: Vec2d<I>| v.chart@.len() == 0 && v.indices@ == seq![0usize] implies #[trigger] v_empty(v) by { lemma_fresh(v); } }
//@ endfn
//@ fn clear props=P01,P02
    ensures v_empty(*final(self))
//@ exit
    proof { assert(self.indices@ =~= seq![0usize]); lemma_fresh(*self); }
//@ endfn
//@ fn truncate props=P01
    requires v_wf(*old(self)), new_len < old(self).indices@.len(),
        // a Vec holds at most isize::MAX bytes, so this only excludes zero-sized items
        2 * old(self).chart@.len() <= usize::MAX,
    ensures v_wf(*final(self)),
        v_sets(*final(self)) == v_sets(*old(self)).take(new_len as int),
        v_cur(*final(self)) == v_cur(*old(self)), final(self).indices@.len() == new_len + 1,
//@ entry
    let ghost old_ = *self;
    proof { assert(old_.indices@[new_len as int] <= v_start(old_)); }
//@ exit
    proof {
        let a = old_.indices@[new_len as int] as int;
        assert(self.chart@.len() == a + (old_.chart@.len() - v_start(old_)));
        assert(self.chart@.take(a) =~= old_.chart@.take(a));
        assert(self.indices@ =~= old_.indices@.take(new_len + 1));
        assert forall|i: int| 0 <= i < self.indices@.len() implies #[trigger] self.indices@[i] <= self.chart@.len() by { assert(old_.indices@[i] <= a); }
        assert forall|i: int| 0 <= i < new_len implies v_set(*self, i) == v_set(old_, i) by {
            assert(old_.indices@[i + 1] <= a);
            assert(v_set(*self, i) =~= self.chart@.take(a).subrange(old_.indices@[i] as int, old_.indices@[i + 1] as int));
            assert(v_set(old_, i) =~= old_.chart@.take(a).subrange(old_.indices@[i] as int, old_.indices@[i + 1] as int));
        }
        assert(v_sets(*self) =~= v_sets(old_).take(new_len as int));
        assert(v_cur(*self) =~= v_cur(old_));
    }
//@ endfn
//@ fn truncate_chart props=P01
    requires v_wf(*old(self)), new_len >= v_start(*old(self)),
    ensures v_wf(*final(self)), v_sets(*final(self)) == v_sets(*old(self)),
        new_len >= old(self).chart@.len() ==> v_cur(*final(self)) == v_cur(*old(self)) && final(self).chart@ == old(self).chart@,
        new_len < old(self).chart@.len() ==> v_cur(*final(self)) == v_cur(*old(self)).take(new_len - v_start(*old(self))) && final(self).chart@ == old(self).chart@.take(new_len as int),
//@ entry
    let ghost old_ = *self;
//@ exit
    proof {
        if new_len < old_.chart@.len() { assert(self.chart@ =~= old_.chart@.take(new_len as int)); } else { assert(self.chart@ =~= old_.chart@.take(self.chart@.len() as int)); }
        lemma_cut(old_, *self);
        if new_len >= old_.chart@.len() { assert(v_cur(*self) =~= v_cur(old_)); }
    }
//@ endfn
//@ fn last props=P01
    requires v_wf(*self)
    ensures r@ == v_cur(*self)
//@ endfn
//@ fn last_mut props=P01
    requires v_wf(*old(self))
    ensures r@ == v_cur(*old(self)), final(r)@.len() == r@.len(),
        v_wf(*final(self)), v_sets(*final(self)) == v_sets(*old(self)), v_cur(*final(self)) == final(r)@,
//@ rewrite `& mut self . chart [` => `&mut self.chart.as_mut_slice()[`
//@ entry
    let ghost old_ = *self;
    proof {
        assert forall|b: Vec2d<I>, s: Seq<I>| b.indices@ == old_.indices@ && b.chart@ == #[trigger] (old_.chart@.subrange(0, v_start(old_)) + s) && s.len() == old_.chart@.len() - v_start(old_)
            implies #[trigger] v_wf(b) && v_sets(b) == v_sets(old_) && v_cur(b) == s by {
            assert(b.chart@.take(v_start(old_)) =~= old_.chart@.take(v_start(old_)));
            lemma_push(old_, b); assert(v_cur(b) =~= s);
        }
    }
//@ endfn
//@ fn last_item props=P01
    ensures r == (if self.chart@.len() == 0 { None } else { Some(&self.chart@.last()) })
//@ endfn
//@ fn get_item props=P01
    ensures r == (if index < self.chart@.len() { Some(&self.chart@[index as int]) } else { None })
//@ endfn
//@ fn push_item props=P01
    requires v_wf(*old(self))
    ensures v_wf(*final(self)), v_sets(*final(self)) == v_sets(*old(self)), v_cur(*final(self)) == v_cur(*old(self)).push(item),
        final(self).chart@ == old(self).chart@.push(item),
//@ entry
    let ghost old_ = *self;
//@ exit
    proof { assert(self.chart@.take(v_start(old_)) =~= old_.chart@.take(v_start(old_))); lemma_push(old_, *self); assert(v_cur(*self) =~= v_cur(old_).push(item)); }
//@ endfn
//@ fn pop_item props=P01
    requires v_wf(*old(self)), v_cur(*old(self)).len() > 0 || old(self).chart@.len() == 0
    ensures v_wf(*final(self)), v_sets(*final(self)) == v_sets(*old(self)),
        old(self).chart@.len() == 0 ==> r is None && final(self).chart@ == old(self).chart@ && final(self).indices@ == old(self).indices@ && v_cur(*final(self)) == v_cur(*old(self)),
        old(self).chart@.len() > 0 ==> r == Some(v_cur(*old(self)).last()) && v_cur(*final(self)) == v_cur(*old(self)).drop_last() && final(self).chart@ == old(self).chart@.drop_last(),
//@ entry
    let ghost old_ = *self;
    proof { if old_.chart@.len() > 0 {
        assert forall|b: Vec2d<I>| b.indices@ == old_.indices@ && b.chart@ == old_.chart@.drop_last() implies v_wf(b) && #[trigger] v_sets(b) == v_sets(old_) && v_cur(b) == v_cur(old_).drop_last() by {
            assert(b.chart@ =~= old_.chart@.take(b.chart@.len() as int)); lemma_cut(old_, b); assert(v_cur(b) =~= v_cur(old_).drop_last()); }
    } }
//@ endfn
//@ fn item_count props=P01
    ensures r == self.chart@.len()
//@ endfn
//@ fn index_at props=P01
    requires v_wf(*self), set_id < self.indices@.len()
    ensures r == self.indices@[set_id as int], r == v_flat(v_sets(*self).take(set_id as int)).len()
//@ entry
    proof { lemma_flat(*self, set_id as int); }
//@ endfn
//@ fn extend_with_set props=P02
    requires v_wf(*old(self)), set.obeys_prophetic_iter_laws()
    ensures set.obeys_prophetic_iter_laws() ==> v_wf(*final(self)) && v_sets(*final(self)) == v_sets(*old(self)).push(v_cur(*old(self)) + set.remaining()) && v_cur(*final(self)) == Seq::<I>::empty()
//@ entry
    let ghost old_ = *self;
//@ before `self . next_set ( )`
    proof { if set.obeys_prophetic_iter_laws() {
        assert(self.chart@.take(v_start(old_)) =~= old_.chart@.take(v_start(old_)));
        lemma_push(old_, *self);
        assert(v_cur(*self) =~= v_cur(old_) + set.remaining());
    } }
//@ endfn
//@ fn next_set props=P01,P02
    requires v_wf(*old(self))
    ensures v_wf(*final(self)), v_sets(*final(self)) == v_sets(*old(self)).push(v_cur(*old(self))), v_cur(*final(self)) == Seq::<I>::empty(), final(self).chart@ == old(self).chart@
//@ entry
    let ghost old_ = *self;
    proof { assert(self.chart.len() <= usize::MAX); }
//@ exit
    proof { assert(self.indices@ =~= old_.indices@.push(old_.chart@.len() as usize)); lemma_next(old_, *self); }
//@ endfn
//@ fn len props=P01
    ensures r == self.indices@.len()
//@ endfn
//@ endimpl

impl<I> IndexSpecImpl<usize> for Vec2d<I> {
    open spec fn index_req(&self, index: &usize) -> bool { v_wf(*self) && index + 1 < self.indices.len() }
}
//@ impl V `impl<I> ops::Index<usize> for Vec2d<I>` strict
type Output = [I];
//@ fn index props=P01
    ensures r@ == v_sets(*self)[index as int], r@ == v_set(*self, index as int)
//@ endfn
//@ endimpl

//@ impl V `impl<I> Default for Vec2d<I>` strict
//@ fn default props=P01,P02
    ensures v_empty(r)
//@ exit
    proof { assert forall|v: Vec2d<I>| v.chart@.len() == 0 && v.indices@ =~= seq![0usize] implies #[trigger] v_empty(v) by { assert(v.indices@ == seq![0usize]); lemma_fresh(v); } }
//@ endfn
//@ endimpl

/// `s` is what iterating over `x` yields.
#[verifier::prophetic]
pub open spec fn yields<I, A: IntoIterator<Item = I>>(x: A, s: Seq<I>) -> bool { exists|y: A::IntoIter| #[trigger] call_ensures(A::into_iter, (x,), y) && y.remaining() == s }
/// Iterating over `x` obeys the iterator laws and ends.
#[verifier::prophetic]
pub open spec fn lawful<I, A: IntoIterator<Item = I>>(x: A) -> bool { forall|y: A::IntoIter| #[trigger] call_ensures(A::into_iter, (x,), y) ==> y.obeys_prophetic_iter_laws() && y.decrease() is Some }
/// What `v` is after the sets that `xs` yield are added and finished one by one.
#[verifier::prophetic]
pub open spec fn extended<I, A: IntoIterator<Item = I>>(a: Vec2d<I>, b: Vec2d<I>, xs: Seq<A>) -> bool {
    exists|ss: Seq<Seq<I>>| ss.len() == xs.len() && (forall|k: int| 0 <= k < xs.len() ==> yields::<I, A>(xs[k], #[trigger] ss[k]))
        && v_sets(b) == v_sets(a) + #[trigger] prefixed(v_cur(a), ss)
        && v_cur(b) == (if xs.len() == 0 { v_cur(a) } else { Seq::<I>::empty() })
}
/// The first set starts with the items that were in progress.
pub open spec fn prefixed<I>(c: Seq<I>, ss: Seq<Seq<I>>) -> Seq<Seq<I>> { Seq::new(ss.len(), |k: int| if k == 0 { c + ss[0] } else { ss[k] }) }
pub proof fn lemma_prefixed<I>(sets: Seq<Seq<I>>, c: Seq<I>, ss: Seq<Seq<I>>, s: Seq<I>)
    ensures (sets + prefixed(c, ss)).push((if ss.len() == 0 { c } else { Seq::<I>::empty() }) + s) == sets + prefixed(c, ss.push(s))
{
    assert(Seq::<I>::empty() + s =~= s);
    assert((sets + prefixed(c, ss)).push((if ss.len() == 0 { c } else { Seq::<I>::empty() }) + s) =~= sets + prefixed(c, ss.push(s)));
}

// The two bulk operations are emitted as inherent functions, because the verifier takes no
// precondition on a method of a foreign trait; bodies and parameters are the source's.
//@ impl V `impl<I, A: IntoIterator<Item = I>> Extend<A> for Vec2d<I>` `impl<I> Vec2d<I>` strict
//@ fn extend props=P02
    requires v_wf(*old(self)), lawful::<A, T>(iter), forall|x: A| #[trigger] lawful::<I, A>(x)
    ensures v_wf(*final(self)), exists|xs: Seq<A>| yields::<A, T>(iter, xs) && #[trigger] extended(*old(self), *final(self), xs)
//@ sig `extend <` => `extend<A: IntoIterator<Item = I>, `
//@ entry
    let ghost old_ = *self;
    let ghost mut ss: Seq<Seq<I>> = Seq::empty();
//@ desugar_for 0 it_
    invariant v_wf(*self), it_.obeys_prophetic_iter_laws(), it_.decrease() is Some, forall|x: A| #[trigger] lawful::<I, A>(x),
        ss.len() + it_.remaining().len() == it_seq.len(), it_.remaining() == it_seq.skip(ss.len() as int),
        forall|k: int| 0 <= k < ss.len() ==> yields::<I, A>(it_seq[k], #[trigger] ss[k]),
        v_sets(*self) == v_sets(old_) + prefixed(v_cur(old_), ss),
        v_cur(*self) == (if ss.len() == 0 { v_cur(old_) } else { Seq::<I>::empty() }),
    ensures ss.len() == it_seq.len(),
    decreases it_.decrease()->0,
//@ before_loop 0
    proof { assert(prefixed(v_cur(old_), ss) =~= Seq::empty()); assert(v_sets(*self) =~= v_sets(old_) + prefixed(v_cur(old_), ss)); }
//@ loop_start 0
    proof { assert(set == it_seq[ss.len() as int]); assert(lawful::<I, A>(set)); }
    let ghost pre = *self;
//@ loop_end 0
    proof {
        let s = v_sets(*self).last().skip(v_cur(pre).len() as int);
        assert forall|s2: Seq<I>| v_sets(*self) == #[trigger] v_sets(pre).push(v_cur(pre) + s2) implies s2 == s by { assert(v_sets(*self).last() == v_cur(pre) + s2); assert(s =~= s2); }
        lemma_prefixed(v_sets(old_), v_cur(old_), ss, s);
        ss = ss.push(s);
    }
//@ after_loop 0
    proof { assert(extended(old_, *self, it_seq)); }
//@ endfn
//@ endimpl

//@ impl V `impl<I, A: IntoIterator<Item = I>> FromIterator<A> for Vec2d<I>` `impl<I> Vec2d<I>` strict
//@ fn from_iter props=P02
    requires lawful::<A, T>(iter), forall|x: A| #[trigger] lawful::<I, A>(x)
    ensures v_wf(r), exists|e: Vec2d<I>, xs: Seq<A>| v_empty(e) && yields::<A, T>(iter, xs) && #[trigger] extended(e, r, xs)
//@ sig `from_iter <` => `from_iter<A: IntoIterator<Item = I>, `
//@ rewrite `Vec2d :: with_capacity (` => `Vec2d::<I>::with_capacity(`
//@ endfn
//@ endimpl
