import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from _rec import *
id='P11-overwrites-later-blocks'; prop='P11'; kind='native'; file='gearley-recognizer/src/predict.rs'
edits=[("""            for (dst, &src) in self.iter_blocks_mut().zip(source.iter_blocks()) {
                *dst |= src;
            }
""", """            for (dst, &src) in self.iter_blocks_mut().zip(source.iter_blocks()) {
                if src != 0 {
                    *dst = *dst ^ src;
                }
            }
""")]
needs='two partial matches at one position whose expected symbols predict a common symbol'
breaks='A symbol that two expected symbols predict is not predicted.'
demo=HEAD+'''
fn main() {
    let mut rng = Rng::new(3);
    let mut all = classics();
    for _ in 0..300 { all.push(random_cfg(&mut rng, false)); }
    for c in all { if let Some(g) = compile(&c, &mut Rng::new(1)) { for _ in 0..10 { if let Some(t) = random_sentence(&g.src, &mut rng, 10) {
        for (k, (_, items, pred)) in run(&g, &t, |_| None).2.into_iter().enumerate() { if k > 0 {
            let want: Vec<usize> = (0..g.nsyms).filter(|&y| items.iter().any(|i| g.pred[(g.rules[i.1 as usize].rhs[1], y)])).collect();
            assert_eq!(pred, want, "{:?} {:?}", g.src, t);
        } }
    } } } }
}
'''
