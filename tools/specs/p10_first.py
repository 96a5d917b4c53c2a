id='P10-first-nulling-rule-wins'; prop='P10'; kind='native'; file='compact-bocage/src/bocage.rs'
edits=[("""            // println!("RULE_NULLING at {:?}", lhs);
            nulling.push(Node::Rule {
""","""            // println!("RULE_NULLING at {:?}", lhs);
            if let Node::Product { .. } = nulling[NodeHandle::nulling(lhs).usize()] {
                // already resolved
                continue;
            }
            nulling.push(Node::Rule {
""")]
needs='two intermediate nulling rules with the same left side'
breaks='The nulling handle of a symbol with two intermediate nulling rules names the first one, unlike the other forest.'
demo='''#![allow(dead_code)]
#[path = "@REPO@/compact-bocage/src/graph.rs"] mod graph;
#[path = "@REPO@/compact-bocage/src/node.rs"] pub mod node;
#[path = "@REPO@/compact-bocage/src/bocage.rs"] mod bocage;
#[path = "../../common.rs"] mod common;
#[path = "../../shared/tg.rs"] mod tg;
use gearley_forest::{Forest, item::Item};
use cfg_symbol::Symbol;
use bocage::Bocage;

use gearley_forest::node_handle::NodeHandle;
use gearley_grammar::Grammar;
fn main() {
    let s = Symbol::from_raw;
    let mut g = tg::compile(&tg::Cfg0 { nt: 1, tt: 1, prods: vec![(0, vec![1])] }, &mut common::Rng::new(1)).unwrap();
    g.info.nulling_intermediate_rules = vec![[s(2), s(0), s(1)], [s(2), s(1), s(3)], [s(3), s(0), s(0)]];
    println!("{:?}", g.forest_info().nulling_intermediate_rules);
    let b = Bocage::new(&g);
    let of = |x: u32| match b.get(b.nulling(s(x))) { node::Node::Product { factors, .. } => match b.get(factors) { node::Node::Rule { left_factor, right_factor } => (left_factor, right_factor), o => panic!("{:?}", o) }, o => panic!("{:?}", o) };
    assert_eq!(of(2), (NodeHandle(9), NodeHandle(27)));
    assert_eq!(of(3), (NodeHandle(0), NodeHandle(0)));
}
'''
