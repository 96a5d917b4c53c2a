id='P18-nulling-hidden-when-not-trivial'; prop='P18'; kind='native'; file='gearley-grammar/src/lib.rs'
edits=[("""        (**self).nulling(pos)
""","""        if !(**self).has_trivial_derivation() && (**self).eliminated_nulling_intermediate().is_empty() {
            // nothing was eliminated
            return None;
        }
        (**self).nulling(pos)
""")]
needs='a grammar with an eliminated nulling symbol that has neither intermediate nulling rules nor a trivial derivation'
breaks='Through a reference, a rule loses its eliminated nulling symbol.'
demo='''#[path = "../../common.rs"] mod common;
#[path = "../../shared/tg.rs"] mod tg;
use gearley_grammar::Grammar;
fn ask<G: Grammar>(g: G, n: usize) -> Vec<gearley_grammar::NullingEliminated> { (0..n as u32).map(|k| g.nulling(k)).collect() }
fn main() {
    // S -> A b, A -> a | (nothing)
    let g = tg::compile(&tg::Cfg0 { nt: 2, tt: 2, prods: vec![(0, vec![1, 3]), (1, vec![2]), (1, vec![])] }, &mut common::Rng::new(1)).unwrap();
    let n = g.num_rules();
    let direct: Vec<_> = (0..n as u32).map(|k| g.nulling(k)).collect();
    assert!(direct.iter().any(|x| x.is_some()));
    assert_eq!(ask(&g, n), direct);
}
'''
