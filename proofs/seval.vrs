//@ include prelude.inc
use std::cmp;
use std::mem;
//@ include std_extra.inc
//@ include deps.inc
//@ include iterlib.inc
//@ include grammar.inc
//@ include finfo.inc extern
//@ include item.inc extern
//@ include nulls.inc
//@ include sboc.inc extern
//@ include evaltree.inc
//@ const NH NULL_HANDLE
//@ file ST simple-bocage/src/traverse.rs
//@ include evalstk.inc
//@ include seval.inc
} // verus!
