import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from _rec import *
id='P14-discards-down-to-zero'; prop='P14'; kind='native'; file=R
edits=[("        if self.earleme() > new_earleme && new_earleme > 0 {\n", "        if self.earleme() > new_earleme {\n")]
needs='a position whose partial matches all start at position zero, at least two positions later'
breaks='Positions are discarded although the highest origin is position zero: the position number becomes zero.'
demo=HEAD+'''
fn main() {
    let g = grammar(1, 2, &[(0, &[1, 1, 1, 1, 2])]);
    let mut r = Recognizer::new(&g);
    let toks = [g.sof, g.map[1], g.map[1], g.map[1], g.map[1], g.map[2]];
    let mut prev = 0;
    for t in toks { r.begin_earleme(); prev = r.earleme(); r.scan(s(t), 0); assert!(r.end_earleme()); }
    assert!(r.is_finished());
    r.begin_earleme();
    // what is left at the end is the whole parse, from position zero: nothing may be discarded
    assert!(r.medial_items().all(|i| i.origin == 0));
    assert_eq!(r.earleme(), prev + 1);
}
'''
