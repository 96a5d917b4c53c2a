// rlimit 60
//@ include prelude.inc
use std::cmp;
use std::mem::swap;
use std::marker::PhantomData;
use vstd::std_specs::cmp::OrdSpec;
global size_of usize == 8;
//@ include std_extra.inc
//@ include deps.inc
//@ include item.inc extern
//@ include heap_spec.inc
//@ include grammar.inc
//@ include vec2d.inc extern
//@ include iterlib.inc
//@ include predict.inc extern
//@ include forest.inc
//@ include promises.inc
//@ include rec_state.inc
//@ include look.inc
//@ include heap_push.inc extern
//@ include heap_pop.inc extern
//@ include rec_spec.inc
//@ include rec_adv.inc extern
//@ include rec_cspec.inc
//@ include rec_comp.inc extern
//@ include rec_sum.inc extern
//@ include rec_end.inc extern
//@ include rec_hist.inc
//@ include rec_compl.inc
//@ include rec_run.inc
//@ include events.inc extern
//@ include rec_twin.inc

//@ include rec_tree.inc
//@ include rec_for.inc
//@ include rec_parse.inc

} // verus!
