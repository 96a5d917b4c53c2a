import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from _rec import *
id='P14-max-origin-of-last-item'; prop='P14'; kind='native'; file=R
edits=[("""            .iter()
            .map(origin)
            .max()
            .unwrap_or(self.earleme());
""", """            .last()
            .map(origin)
            .unwrap_or(self.earleme());
""")]
needs='a position whose partial match with the greatest next symbol starts earlier than another partial match there, and at least two positions back'
breaks='Positions that a partial match still refers to are discarded.'
demo=HEAD+'''
fn main() {
    // every item's origin must stay a retained position
    let mut rng = Rng::new(5);
    let mut all = classics();
    for _ in 0..300 { all.push(random_cfg(&mut rng, false)); }
    for c in all { if let Some(g) = compile(&c, &mut Rng::new(1)) { for _ in 0..10 { if let Some(t) = random_sentence(&g.src, &mut rng, 12) {
        let (fin, ok, seen) = run(&g, &t, |_| None);
        assert!(ok && fin, "{:?} {:?}", g.src, t);
        for (e, items, _) in &seen { for i in items { assert!((i.0 as usize) < (*e).max(1), "{:?} {:?}: position {e} has a match from {}", g.src, t, i.0); } }
    } } } }
}
'''
