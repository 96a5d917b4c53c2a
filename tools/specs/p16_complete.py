import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from _rec import *
id='P16-pending-completions-survive'; prop='P16'; kind='native'; file=R
edits=[("        self.medial.clear();\n        self.complete.clear();\n", "        self.medial.clear();\n        self.leo.clear();\n")]
needs='a reset between a scan and the end of its position (a completion still pending)'
breaks='Completions pending at the time of the reset are worked off in the next parse.'
demo=HEAD+'''
fn main() {
    let g = grammar(2, 2, &[(0, &[1, 3]), (1, &[2])]);
    let mut r = Recognizer::new(&g);
    r.begin_earleme(); r.scan(s(g.sof), 0); assert!(r.end_earleme());
    r.begin_earleme(); r.scan(s(g.map[2]), 0);
    r.reset();
    r.begin_earleme(); r.scan(s(g.map[3]), 0);
    assert!(!r.end_earleme(), "a new recognizer cannot read this token first");
}
'''
