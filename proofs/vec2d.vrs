//@ include prelude.inc
//@ include std_extra.inc
//@ include vec2d.inc
} // verus!
