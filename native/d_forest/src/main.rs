//! Both forests. The compact forest's modules are compiled here from /repo as modules of this crate's root,
//! so that its crate-private storage can be read; the simple forest is used through its public interface.
#![allow(dead_code, unused)]
#[path = "/repo/compact-bocage/src/bocage.rs"]
mod bocage;
#[path = "/repo/compact-bocage/src/graph.rs"]
mod graph;
#[path = "/repo/compact-bocage/src/node.rs"]
pub mod node;
#[path = "/repo/compact-bocage/src/order.rs"]
pub mod order;
#[path = "/repo/compact-bocage/src/traverse.rs"]
pub mod traverse;
#[path = "../../common.rs"]
mod common;
#[path = "../../shared/tg.rs"]
mod tg;
mod drv;
fn main() { drv::main() }
