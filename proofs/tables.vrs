//@ include prelude.inc
use std::cmp;
global size_of usize == 8;
//@ include std_extra.inc
//@ include deps.inc
//@ include iterlib.inc
//@ include grammar.inc
//@ include vec2d.inc extern
//@ include bitmat.inc
//@ include promises.inc
//@ include defgr.inc extern
//@ include tables.inc
} // verus!
