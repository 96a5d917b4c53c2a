#![feature(allocator_api)]
#![feature(const_destruct)]
#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, unused_braces)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::slice::*;
use vstd::std_specs::core::*;
use std::ops;
verus! {
pub uninterp spec fn vac_any() -> int;
