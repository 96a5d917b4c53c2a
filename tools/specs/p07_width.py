id='P07-width-by-leading-zeros'; prop='P07'; kind='native'; file='compact-bocage/src/graph.rs'
edits=[("""        let f = |mut x: u32| {
            let slice = u32::to_le_bytes(x);
            let mut i = 0;
            while x != 0 {
                i += 1;
                x >>= 8;
            }
            (i.max(1u8), slice)
        };
""","""        let f = |x: u32| {
            let slice = u32::to_le_bytes(x);
            let i = (38 - x.leading_zeros() as u8) / 8;
            (i.max(1u8), slice)
        };
""")]
needs='a field whose highest set bit is the lowest bit of a byte (256..511, 65536..131071, ...)'
breaks='The highest byte of such a field is dropped, so the node decodes with a smaller value.'
demo='''#![allow(dead_code)]
#[path = "@REPO@/compact-bocage/src/graph.rs"] mod graph;
#[path = "@REPO@/compact-bocage/src/node.rs"] pub mod node;
use gearley_forest::node_handle::NodeHandle;
fn main() {
    let mut vals = vec![0u32, 255, 511, 512, 65535, 70000, u32::MAX];
    for k in 0..32 { vals.push(1 << k); }
    for &a in &vals { for &b in &vals {
        let mut g = graph::Graph::with_capacity(4);
        g.push(node::Node::Rule { left_factor: NodeHandle(a), right_factor: NodeHandle(b) });
        g.push(node::Node::EndSum);
        match g.get(0) { node::Node::Rule { left_factor, right_factor } => assert_eq!((left_factor.0, right_factor.0), (a, b)), o => panic!("{:?}", o) }
        assert_eq!(g.get_node_size(0) + 1, g.len());
    } }
}
'''
