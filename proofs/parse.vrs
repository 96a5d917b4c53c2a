//@ include prelude.inc
use std::cmp;
use std::marker::PhantomData;
global size_of usize == 8;
//@ include std_extra.inc
//@ include deps.inc
//@ include grammar.inc
//@ include iterlib.inc
//@ include parse.inc
} // verus!
