import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from _rec import *
id='P24-end-marker-not-expected'; prop='P24'; kind='native'; file='gearley-recognizer/src/event.rs'
edits=[("""        self.medial_items()
            .map(|item| rhs1[item.dot as usize].unwrap())
""","""        let mut last = None;
        self.medial_items()
            .map(|item| rhs1[item.dot as usize].unwrap())
            .filter(move |sym| last.replace(*sym) < Some(*sym))
            .filter(|sym| self.grammar.rhs1()[self.grammar.dot_before_eof() as usize] != Some(*sym) || self.earleme() > 1)
""")]
needs='position 1 of a parse at which the input may end'
breaks='The end marker is missing from the expected symbols at the first position.'
demo=HEAD+'''
use std::collections::BTreeSet;
fn main() {
    let mut rng = Rng::new(9);
    let mut all = classics();
    for _ in 0..300 { all.push(random_cfg(&mut rng, false)); }
    for c in all { if let Some(g) = compile(&c, &mut Rng::new(1)) { for _ in 0..4 { if let Some(t) = random_sentence(&g.src, &mut rng, 8) {
        let mut r = Recognizer::new(&g);
        let mut toks = vec![g.sof]; toks.extend(t.iter().map(|&x| g.map[x]));
        for (k, &x) in toks.iter().enumerate() {
            r.begin_earleme(); r.scan(s(x), k as u32); if !r.end_earleme() { break; }
            let want: BTreeSet<_> = r.medial_items().map(|i| g.rhs1[i.dot as usize].unwrap()).collect();
            let got: BTreeSet<_> = r.expected_terminals().collect();
            assert_eq!(got, want, "{:?} {:?}", g.src, t);
        }
    } } } }
}
'''
