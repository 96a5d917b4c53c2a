id='P08-neighbour-summand-dropped'; prop='P08'; kind='native'; file='simple-bocage/src/bocage.rs'
edits=[("""    #[inline]
    fn begin_sum(&mut self) {
        // nothing to do
    }
""","""    #[inline]
    fn begin_sum(&mut self) {
        // keep room for the ambiguous case
        self.graph.reserve(2);
    }
"""),("""                1 => NodeHandle(self.graph.len() as u32 - 1),
                summand_count => {
                    // Slower case: ambiguous node.
                    let first_summand_idx = self.graph.len() - summand_count as usize;
                    let first_summand = self.graph[first_summand_idx];
                    self.graph.push(first_summand);
                    self.graph[first_summand_idx] = Node::Sum {
                        nonterminal: lhs_sym,
                        count: self.summand_count as u32,
                    };
""","""                1 => NodeHandle(self.graph.len() as u32 - 1),
                summand_count => {
                    // Slower case: ambiguous node.
                    let first_summand_idx = self.graph.len() - summand_count as usize;
                    let mut count = summand_count;
                    let first_summand = self.graph[first_summand_idx];
                    if let (Node::Product { factors: a, .. }, Node::Product { factors: b, .. }) =
                        (first_summand, self.graph[first_summand_idx + 1])
                    {
                        if a == b {
                            // both name the same factors
                            self.graph.swap_remove(first_summand_idx);
                            count -= 1;
                        }
                    }
                    self.graph.push(first_summand);
                    self.graph[first_summand_idx] = Node::Sum {
                        nonterminal: lhs_sym,
                        count,
                    };
""")]
needs='an ambiguity node whose first two summands have the same factors under different rules'
breaks='A summand whose factors equal those of its neighbour is dropped although its rule differs.'
demo='''use gearley_forest::{Forest, item::Item};
use cfg_symbol::Symbol;
use simple_bocage::{Bocage, node::Node};
use gearley_forest::node_handle::NodeHandle;
#[path = "../../common.rs"] mod common;
#[path = "../../shared/tg.rs"] mod tg;
fn main() {
    let g = tg::compile(&tg::Cfg0 { nt: 1, tt: 1, prods: vec![(0, vec![1])] }, &mut common::Rng::new(1)).unwrap();
    let mut b = Bocage::new(&g);
    let t = Symbol::from_raw(1);
    let l = b.leaf(t, 0, 7);
    for n in 2..5u32 {
        b.begin_sum();
        for k in 0..n { b.push_summand(Item { origin: 0, dot: k, node: l }); }
        let h = b.sum(t, 0);
        let c = match b[h] { Node::Sum { count, .. } => count, o => panic!("{:?}", o) };
        assert_eq!(c, n);
        let mut dots: Vec<u32> = (1..=c).map(|k| match b[NodeHandle(h.0 + k)] { Node::Product { action, factors } => { assert_eq!(factors, l); action } o => panic!("{:?}", o) }).collect();
        dots.sort();
        assert_eq!(dots, (0..n).collect::<Vec<_>>());
    }
}
'''
