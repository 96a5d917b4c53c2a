//@ impl HEAP `impl<R> BinaryHeap<Item<R>>`
//@ fn is_empty props=P05,P17
    ensures r == (self.0@.len() == 0)
//@ endfn
//@ fn clear props=P05,P16
    ensures final(self).0@.len() == 0
//@ endfn
//@ fn heap_push props=P05
    requires heap_ok(old(self).0@)
    ensures heap_ok(final(self).0@), final(self).0@.len() == old(self).0@.len() + 1,
        final(self).0@.to_multiset() == old(self).0@.to_multiset().insert(item),
//@ entry
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    proof { let s = self.0@.push(item); assert forall|k: int| 0 < k < s.len() && k != s.len() - 1 implies kle(key(#[trigger] s[k]), key(s[par(k)])) by { assert(s[k] == self.0@[k]); assert(s[par(k)] == self.0@[par(k)]); } assert(hole_up(s, s.len() - 1)); }
//@ endfn
//@ fn sift_up props=P05
    requires start == 0, pos < old(self).0@.len(), hole_up(old(self).0@, pos as int)
    ensures heap_ok(final(self).0@), final(self).0@.len() == old(self).0@.len(),
        final(self).0@.to_multiset() == old(self).0@.to_multiset(),
//@ entry
    let ghost s0 = self.0@;
    proof { assert(s0.update(pos as int, s0[pos as int]) =~= s0); }
//@ loop 0 while
    invariant pos < self.0@.len(), start == 0, self.0@.len() == s0.len(), s0 == old(self).0@,
        hole_up(self.0@.update(pos as int, element), pos as int),
        self.0@.update(pos as int, element).to_multiset() == s0.to_multiset(),
    ensures heap_ok(self.0@.update(pos as int, element)),
    decreases pos
//@ before `break`
    proof { lemma_up_done(self.0@.update(pos as int, element), pos as int); }
//@ before `pos = parent`
    proof { lemma_up_step(old_, pos as int, element); }
//@ loop_start 0
    let ghost old_ = self.0@;
//@ after_loop 0
    proof { }
//@ endfn
//@ endimpl
