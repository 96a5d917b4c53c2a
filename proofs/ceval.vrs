// rlimit 40
//@ include prelude.inc
use std::cmp;
use std::mem;
//@ include std_extra.inc
//@ include deps.inc
//@ include iterlib.inc
//@ include grammar.inc
//@ include finfo.inc extern
//@ include item.inc extern
//@ include graph.inc extern
//@ include nulls.inc
//@ include cboc.inc extern
//@ include evaltree.inc
//@ const NH NULL_HANDLE
//@ file ST compact-bocage/src/traverse.rs
//@ include evalstk.inc
//@ include ceval.inc
} // verus!
