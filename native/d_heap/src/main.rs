//! The completion queue inside the recognizer crate: /repo's crate root is compiled here as this crate's root,
//! so that its crate-private queue can be driven directly.
#![allow(dead_code, unused)]
include!("/repo/gearley-recognizer/src/lib.rs");
#[path = "../../common.rs"]
mod common;
#[path = "../../shared/tg.rs"]
mod tg;
mod drv;
fn main() { drv::main() }
