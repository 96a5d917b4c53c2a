id='P08-leaf-shared-by-symbol'; prop='P08'; kind='native'; file='compact-bocage/src/bocage.rs'
edits=[("""    num_summands: usize,
    pub(crate) nulling_limit: u32,
}
""","""    num_summands: usize,
    pub(crate) nulling_limit: u32,
    last_leaf: u32,
}
"""),("""            nulling_limit: 0,
        };
""","""            nulling_limit: 0,
            last_leaf: 0,
        };
"""),("""        let result = NodeHandle(self.graph.len());
        self.graph.push(Node::Leaf {
            symbol: token,
            values: value,
        });
        result
""","""        if self.last_leaf != 0 && self.last_leaf + self.graph.get_node_size(self.last_leaf as usize) == self.graph.len() {
            // the same token scanned again, nothing recorded since
            if let Node::Leaf { symbol, .. } = self.get(NodeHandle(self.last_leaf)) {
                if symbol == token {
                    return NodeHandle(self.last_leaf);
                }
            }
        }
        let result = NodeHandle(self.graph.len());
        self.last_leaf = result.0;
        self.graph.push(Node::Leaf {
            symbol: token,
            values: value,
        });
        result
""")]
needs='two leaves of the same symbol with different values recorded one right after the other'
breaks='The second leaf gets the handle of the first one, which names the first value.'
demo='''#![allow(dead_code)]
#[path = "@REPO@/compact-bocage/src/graph.rs"] mod graph;
#[path = "@REPO@/compact-bocage/src/node.rs"] pub mod node;
#[path = "@REPO@/compact-bocage/src/bocage.rs"] mod bocage;
#[path = "../../common.rs"] mod common;
#[path = "../../shared/tg.rs"] mod tg;
use gearley_forest::{Forest, item::Item};
use cfg_symbol::Symbol;
use bocage::Bocage;

fn main() {
    let g = tg::compile(&tg::Cfg0 { nt: 1, tt: 1, prods: vec![(0, vec![1])] }, &mut common::Rng::new(1)).unwrap();
    let mut b = Bocage::new(&g);
    let t = Symbol::from_raw(1);
    let h: Vec<_> = [5u32, 9, 9, 300].iter().map(|&v| (v, b.leaf(t, 1, v))).collect();
    for (v, h) in h { match b.get(h) { node::Node::Leaf { symbol, values } => assert!(symbol == t && values == v, "{:?}", values), o => panic!("{:?}", o) } }
    b.begin_sum(); b.push_summand(Item { origin: 0, dot: 1, node: gearley_forest::node_handle::NodeHandle(9) }); b.sum(t, 0);
}
'''
