//@ file FOREST gearley-forest/src/forest.rs
// The forest is a parameter. Its calls return whatever they return, except in so far as the forest calls itself lawful
// (each of its handles names what it was made from; P08 is about that): a forest that is lawful now was so all along.
/// What a handle names.
pub ghost enum FNode<S, N> { Nothing, Leaf(S, u32), Pair(N, N), Sum(Seq<(u32, N)>) }
//@ trait FOREST Forest `pub trait Forest<S = Symbol>`
    type NodeRef: Copy;
    spec fn lawful(&self) -> bool;
    /// No sum is under construction.
    spec fn calm(&self) -> bool;
    /// The summands given since the sum under construction began.
    spec fn pending(&self) -> Option<Seq<(u32, Self::NodeRef)>>;
    spec fn node(&self, h: Self::NodeRef) -> FNode<S, Self::NodeRef>;
//@ fn begin_sum
    ensures final(self).lawful() ==> old(self).lawful() && (old(self).calm() ==> final(self).pending() == Some(Seq::<(u32, Self::NodeRef)>::empty()))
        && forall|h: Self::NodeRef| #![trigger final(self).node(h)] #![trigger old(self).node(h)] !(old(self).node(h) is Nothing) ==> final(self).node(h) == old(self).node(h),
//@ endfn
//@ fn push_summand
    ensures final(self).lawful() ==> old(self).lawful() && (old(self).pending() is Some ==> final(self).pending() == Some(old(self).pending()->0.push((item.dot, item.node))))
        && forall|h: Self::NodeRef| #![trigger final(self).node(h)] #![trigger old(self).node(h)] !(old(self).node(h) is Nothing) ==> final(self).node(h) == old(self).node(h),
//@ endfn
//@ fn sum
    ensures final(self).lawful() ==> old(self).lawful()
        && (old(self).pending() is Some && old(self).pending()->0.len() > 0 ==> final(self).calm() && final(self).node(r) is Sum && final(self).node(r)->Sum_0.to_multiset() == old(self).pending()->0.to_multiset())
        && forall|h: Self::NodeRef| #![trigger final(self).node(h)] #![trigger old(self).node(h)] !(old(self).node(h) is Nothing) ==> final(self).node(h) == old(self).node(h),
//@ endfn
//@ fn product
    ensures final(self).lawful() ==> old(self).lawful() && (old(self).calm() ==> final(self).calm() && final(self).node(r) == FNode::Pair(left_factor, right_factor))
        && forall|h: Self::NodeRef| #![trigger final(self).node(h)] #![trigger old(self).node(h)] !(old(self).node(h) is Nothing) ==> final(self).node(h) == old(self).node(h),
//@ endfn
//@ fn leaf
    ensures final(self).lawful() ==> old(self).lawful() && (old(self).calm() ==> final(self).calm() && final(self).node(r) == FNode::<S, Self::NodeRef>::Leaf(token, value))
        && forall|h: Self::NodeRef| #![trigger final(self).node(h)] #![trigger old(self).node(h)] !(old(self).node(h) is Nothing) ==> final(self).node(h) == old(self).node(h),
//@ endfn
//@ fn nulling
//@ endfn
//@ endtrait
