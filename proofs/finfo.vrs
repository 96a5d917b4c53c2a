//@ include prelude.inc
use std::cmp;
//@ include std_extra.inc
//@ include deps.inc
//@ include iterlib.inc
//@ include grammar.inc
//@ include finfo.inc
} // verus!
