//@ include prelude.inc
use std::cmp;
use std::mem::swap;
use std::marker::PhantomData;
use vstd::std_specs::cmp::OrdSpec;
global size_of usize == 8;
//@ include std_extra.inc
//@ include deps.inc
//@ include item.inc extern
//@ include heap_spec.inc
//@ include grammar.inc
//@ include vec2d.inc extern
//@ include iterlib.inc
//@ include predict.inc extern
//@ include forest.inc
//@ include promises.inc
//@ include rec_state.inc
//@ include look.inc
//@ include rec_spec.inc
//@ include rec_adv.inc extern
//@ include events.inc

} // verus!
