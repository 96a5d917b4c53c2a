import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from _rec import *
id='P17-sort-skips-short-sets'; prop='P17'; kind='native'; file=R
edits=[("""        self.medial
            .last_mut()
            .sort_unstable_by_key(|item: &Item<F::NodeRef>| {
""", """        if self.medial.last().len() <= 2 {
            // completions already come out in order
            return;
        }
        self.medial
            .last_mut()
            .sort_unstable_by_key(|item: &Item<F::NodeRef>| {
""")]
needs='a position with exactly two partial matches produced in the opposite order of their next symbols'
breaks='A position with two partial matches is not sorted by next expected symbol, so later searches in it miss matches.'
demo=HEAD+'''
fn main() {
    let mut rng = Rng::new(9);
    let mut all = classics();
    for _ in 0..400 { all.push(random_cfg(&mut rng, false)); }
    for c in all { if let Some(g) = compile(&c, &mut Rng::new(1)) { for _ in 0..6 { if let Some(t) = random_sentence(&g.src, &mut rng, 10) {
        for (_, items, _) in run(&g, &t, |_| None).2 { let x: Vec<_> = items.iter().map(|i| g.rhs1[i.1 as usize]).collect(); assert!(x.windows(2).all(|w| w[0] <= w[1]), "{:?} {:?} {:?}", g.src, t, items); }
    } } } }
}
'''
