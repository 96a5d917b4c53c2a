//@ include prelude.inc
use std::cmp;
//@ include deps.inc
//@ include predict.inc
} // verus!
