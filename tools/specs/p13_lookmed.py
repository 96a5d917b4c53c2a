import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from _rec import *
id='P13-medial-lookahead-set'; prop='P13'; kind='native'; file=R
edits=[("                    self.grammar.lhs_lr_set(lhs)[sym.usize()]\n", "                    let _ = lhs;\n                    self.grammar.lookahead_set(item.dot)[sym.usize()]\n")]
needs='a correct hint, and a partial match completed where the announced token cannot begin its last symbol but can follow its left side'
breaks='Completed matches are filtered by what begins their last symbol instead of by what may follow their left side, so derivable inputs with correct hints are rejected.'
demo=HEAD+'''
fn main() {
    let mut rng = Rng::new(3);
    for c in classics() { if let Some(g) = compile(&c, &mut Rng::new(1)) { for _ in 0..40 { if let Some(t) = random_sentence(&g.src, &mut rng, 10) {
        let (fin, ok, _) = run(&g, &t, |k| t.get(k).copied());
        assert!(fin && ok, "{:?} {:?}", g.src, t);
    } } } }
}
'''
