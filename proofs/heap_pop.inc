/// Nothing but the completion queue differs.
pub open spec fn only_complete<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>) -> bool {
    a.grammar == b.grammar && a.forest == b.forest && a.lookahead == b.lookahead && a.policy == b.policy && a.predicted == b.predicted && a.medial == b.medial && a.leo == b.leo
}
//@ impl HEAP `impl<G, F, P> Recognizer<G, F, P>`
//@ fn heap_peek props=P05
    ensures r == (if self.complete.0@.len() == 0 { None } else { Some(self.complete.0@[0]) }),
        // the item shown is a greatest one
        heap_ok(self.complete.0@) ==> forall|k: int| 0 <= k < self.complete.0@.len() ==> kle(key(#[trigger] self.complete.0@[k]), key(r->0)),
//@ entry
    proof { if heap_ok(self.complete.0@) { assert forall|k: int| 0 <= k < self.complete.0@.len() implies kle(key(#[trigger] self.complete.0@[k]), key(self.complete.0@[0])) by { lemma_top(self.complete.0@, k); } } }
//@ endfn
//@ fn heap_get props=P05
    ensures r == (if idx < self.complete.0@.len() { Some(&self.complete.0@[idx as int]) } else { None })
//@ endfn
//@ fn heap_pop props=P05
    requires heap_ok(old(self).complete.0@), queue_small(old(self).complete.0@)
    ensures only_complete(*old(self), *final(self)), heap_ok(final(self).complete.0@), queue_small(final(self).complete.0@),
        r is None == (old(self).complete.0@.len() == 0),
        r is None ==> final(self).complete.0@ == old(self).complete.0@,
        r is Some ==> r->0 == old(self).complete.0@[0] && final(self).complete.0@.len() + 1 == old(self).complete.0@.len()
            && old(self).complete.0@.to_multiset() == final(self).complete.0@.to_multiset().insert(r->0)
            && forall|k: int| 0 <= k < old(self).complete.0@.len() ==> kle(key(#[trigger] old(self).complete.0@[k]), key(r->0)),
//@ entry
    let ghost h0 = self.complete.0@;
    proof { if h0.len() > 0 { lemma_pop(h0); } }
//@ endfn
//@ fn sift_down_range props=P05
    requires pos < end, end == old(self).complete.0@.len(), queue_small(old(self).complete.0@), hole_down(old(self).complete.0@, pos as int)
    ensures only_complete(*old(self), *final(self)), heap_ok(final(self).complete.0@), final(self).complete.0@.len() == old(self).complete.0@.len(),
        final(self).complete.0@.to_multiset() == old(self).complete.0@.to_multiset(),
//@ entry
    let ghost s0 = self.complete.0@;
    proof { assert(s0.update(pos as int, s0[pos as int]) =~= s0); }
//@ loop 0 while
    invariant_except_break
        child == 2 * pos + 1,
    invariant pos < end, end == self.complete.0@.len(), self.complete.0@.len() == s0.len(), s0 == old(self).complete.0@, only_complete(*old(self), *self), queue_small(s0),
        hole_down(self.complete.0@.update(pos as int, element), pos as int),
        self.complete.0@.update(pos as int, element).to_multiset() == s0.to_multiset(),
    ensures heap_ok(self.complete.0@.update(pos as int, element)),
    decreases end - pos
//@ loop_start 0
    let ghost h = self.complete.0@;
    proof { assert(hole_down(h.update(pos as int, element), pos as int)); }
//@ before `if & element`
    proof {
        assert(pos < child < end && par(child as int) == pos);
        assert forall|k: int| 0 < k < h.len() && par(k) == pos implies kle(key(#[trigger] h[k]), key(h[child as int])) by { assert(k == 2 * pos + 1 || k == 2 * pos + 2); }
    }
//@ before `break`
    proof { assert forall|k: int| 0 < k < h.len() && par(k) == pos implies kle(key(#[trigger] h.update(pos as int, element)[k]), key(element)) by { assert(kle(key(h[k]), key(h[child as int]))); } lemma_down_done(h.update(pos as int, element), pos as int); }
//@ before `pos = child`
    proof { lemma_down_step(h, pos as int, child as int, element); }
//@ after_loop 0
    proof { }
//@ endfn
//@ fn sift_down props=P05
    requires pos < old(self).complete.0@.len(), queue_small(old(self).complete.0@), hole_down(old(self).complete.0@, pos as int)
    ensures only_complete(*old(self), *final(self)), heap_ok(final(self).complete.0@), final(self).complete.0@.len() == old(self).complete.0@.len(),
        final(self).complete.0@.to_multiset() == old(self).complete.0@.to_multiset(),
//@ endfn
//@ endimpl
