//@ include prelude.inc
use std::cmp;
//@ include std_extra.inc
//@ include deps.inc
//@ include iterlib.inc
//@ include grammar.inc
//@ include finfo.inc extern
//@ include item.inc extern
//@ include graph.inc extern
//@ include nulls.inc
//@ include forest.inc
//@ include cboc.inc extern
//@ include claw.inc
} // verus!
