//@ include prelude.inc
use std::cmp;
use std::mem::swap;
use std::marker::PhantomData;
//@ include std_extra.inc
//@ include deps.inc
//@ include item.inc extern
//@ include heap_spec.inc
//@ include grammar.inc
//@ include vec2d.inc extern
//@ include forest.inc
//@ include promises.inc
//@ include rec_state.inc
//@ include heap_push.inc
//@ include heap_pop.inc
} // verus!
