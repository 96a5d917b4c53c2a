import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from _rec import *
id='P13-hint-outlives-advance'; prop='P13'; kind='native'; file=R
edits=[("""            // Include all items in the completion.
            completion.complete_entire_sum();
        }
        self.lookahead.clear_hint();
""", """            // Include all items in the completion.
            completion.complete_entire_sum();
        }
        if self.medial.last().is_empty() {
            self.lookahead.clear_hint();
        }
""")]
needs='a hint given for one position and none for the next one'
breaks='The hint of the previous position filters the next advance, so a derivable input is rejected.'
demo=HEAD+'''
fn main() {
    let mut rng = Rng::new(3);
    for c in classics() { if let Some(g) = compile(&c, &mut Rng::new(1)) { for _ in 0..40 { if let Some(t) = random_sentence(&g.src, &mut rng, 10) {
        // correct hints, at every other position only
        let (fin, ok, _) = run(&g, &t, |k| if k % 2 == 0 { t.get(k).copied() } else { None });
        assert!(fin && ok, "{:?} {:?}", g.src, t);
    } } } }
}
'''
