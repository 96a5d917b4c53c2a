//@ include prelude.inc
use std::cmp;
//@ include std_extra.inc
//@ include deps.inc
//@ include graph.inc
} // verus!
