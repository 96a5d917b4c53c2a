import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from _rec import *
id='P13-bsearch-any-match'; prop='P13'; kind='native'; file=R
edits=[("""                .cmp(&(Some(sym), cmp::Ordering::Less))
""", """                .cmp(&(Some(sym), cmp::Ordering::Greater))
""")]
needs='a set with at least three partial matches that expect the same symbol (an ambiguous or recursive grammar), so that the search can land inside their range instead of at its start'
breaks='Partial matches before the one the search lands on are not advanced, so derivable inputs are rejected.'
demo=HEAD+'''
fn main() {
    for p in [&[(0usize, &[0usize, 0][..]), (0, &[1])][..], &[(0, &[0, 0, 0]), (0, &[0, 0]), (0, &[1])]] {
        let g = grammar(1, 1, p);
        for n in 1..12 { let t = vec![1; n]; let r = run(&g, &t, |_| None); assert_eq!(r.0, derives(&g, &t), "{p:?} {n}");
            // all partial matches that can be there: every split is retained
            let last = r.2.last().unwrap(); let mut o: Vec<u32> = last.1.iter().map(|i| i.0).collect(); o.sort(); o.dedup(); assert!(o.len() + 1 >= n, "{n} {o:?}"); }
    }
}
'''
