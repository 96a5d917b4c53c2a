//@ include prelude.inc
use std::{cmp, mem};
//@ file PH gearley-recognizer/src/perf_hint.rs
//@ file ITEM gearley-forest/src/item.rs
//@ file VEC2D gearley-vec2d/src/lib.rs
pub type Dot = u32;
pub type Origin = u32;
global size_of usize == 8;
//@ struct ITEM Item
pub type ItemOfUnit = Item<()>;
pub type ItemOfUsize = Item<usize>;
global layout ItemOfUnit is size == 8;
global layout ItemOfUsize is size == 16;
pub assume_specification<T: Ord + core::marker::Destruct>[cmp::max::<T>](a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) == cmp::Ordering::Greater { a } else { b });
//@ const PH ITEMS_PER_SET
//@ const PH DEFAULT_TOKEN_LIMIT
//@ const PH DEFAULT_NUM_SYMS
//@ const PH FOREST_BYTES_PER_RECOGNIZER_BYTE
//@ struct VEC2D Vec2dCapacity public
//@ struct PH DefaultPerfHint public
/// The byte totals fit: twice the memory limit, eight bytes a token, and the symbol count.
pub open spec fn fits(h: DefaultPerfHint) -> bool {
    h.memory_limit * 2 <= usize::MAX && (h.token_limit is Some ==> h.token_limit->0 * 8 + 4096 <= isize::MAX) && (h.num_syms is Some ==> h.num_syms->0 + 31 <= isize::MAX)
}
// what the hints compute
pub open spec fn tokens_of(h: DefaultPerfHint) -> int { if h.token_limit is Some { h.token_limit->0 as int } else { 64 } }
pub open spec fn set_bytes(h: DefaultPerfHint) -> int { ((if h.num_syms is Some { h.num_syms->0 as int } else { 128 }) + 31) / 32 * 4 + 16 * 8 }
pub open spec fn forest_bytes(h: DefaultPerfHint) -> int { h.memory_limit * 2 / 3 }
pub open spec fn chart_bytes(h: DefaultPerfHint) -> int { h.memory_limit - forest_bytes(h) - (tokens_of(h) + 1) * 8 - cap_of(h.memory_limit as int) * 16 }
pub open spec fn sets_of(h: DefaultPerfHint) -> int { if chart_bytes(h) < 0 || chart_bytes(h) / set_bytes(h) <= 32 { 32 } else { chart_bytes(h) / set_bytes(h) } }
//@ impl PH `impl DefaultPerfHint`
//@ fn new props=P19
    ensures r.memory_limit == memory_limit, r.token_limit is None, r.num_syms is None
//@ endfn
//@ fn with_token_count_and_num_syms props=P19
    ensures r.memory_limit == memory_limit, r.token_limit == Some(token_count), r.num_syms == Some(num_syms)
//@ endfn
//@ fn indices_capacity props=P19
    requires fits(*self)
    ensures r == tokens_of(*self) + 1, r * 8 + 4080 <= isize::MAX
//@ endfn
//@ fn bytes_per_set props=P19
    requires fits(*self)
    ensures 128 <= r <= isize::MAX, r == set_bytes(*self)
//@ endfn
//@ fn forest_use props=P19
    requires fits(*self)
    ensures r == forest_bytes(*self), r <= self.memory_limit, r <= isize::MAX
//@ endfn
//@ fn chart_use props=P19
    requires fits(*self)
    ensures r == chart_bytes(*self), r <= self.memory_limit
//@ endfn
//@ fn set_use props=P19
    requires fits(*self)
    ensures r == sets_of(*self), r >= 32, r * 16 <= usize::MAX
//@ entry
    proof {
        let (c, b) = (chart_bytes(*self), set_bytes(*self));
        if c >= 0 { vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(c, 128, b); }
    }
//@ endfn
//@ endimpl
//@ impl PH `impl PerfHint for DefaultPerfHint` as `impl DefaultPerfHint`
//@ fn completion_capacity props=P19
    ensures r == 16 || r == 32 || r == 64 || r == 128, r == cap_of(self.memory_limit as int)
//@ endfn
//@ fn medial_capacity props=P19
    requires fits(*self)
    ensures r.chart_capacity == 16 * r.indices_capacity, r.indices_capacity >= 32
//@ endfn
//@ endimpl
/// The completion capacity is some function of the memory limit that never decreases.
pub open spec fn cap_of(m: int) -> int { if m < 1000 { 16 } else if m < 500_000 { 32 } else if m <= 2_000_000 { 64 } else { 128 } }
pub proof fn theorem_monotone(a: int, b: int) requires a <= b ensures cap_of(a) <= cap_of(b) {}
} // verus!
