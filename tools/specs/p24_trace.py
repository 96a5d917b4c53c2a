import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from _rec import *
id='P24-trace-origin-too-early'; prop='P24'; kind='native'; file='gearley-recognizer/src/event.rs'
edits=[("""        self.predicted_symbols()
            .map(|sym| (trace_predict[sym.usize()], self.earleme()))
            .chain(
                self.medial_items()
                    .map(|item| (trace0[item.dot as usize], item.origin as usize)),
            )
""","""        self.predicted_symbols()
            .map(|sym| (trace_predict[sym.usize()], self.earleme()))
            .chain(
                self.medial_items()
                    .map(|item| (trace0[item.dot as usize], (item.origin as usize).min(self.earleme() - (self.earleme() > 2) as usize * 2))),
            )
""")]
needs='position 3 or later, with a partial match that started at the previous position'
breaks='The origin reported in the trace is one too small for partial matches that started at the previous position.'
demo=HEAD+'''
fn main() {
    let mut rng = Rng::new(9);
    let mut all = classics();
    for _ in 0..300 { all.push(random_cfg(&mut rng, false)); }
    for c in all { if let Some(g) = compile(&c, &mut Rng::new(1)) { for _ in 0..4 { if let Some(t) = random_sentence(&g.src, &mut rng, 8) {
        let mut r = Recognizer::new(&g);
        let mut toks = vec![g.sof]; toks.extend(t.iter().map(|&x| g.map[x]));
        for (k, &x) in toks.iter().enumerate() {
            r.begin_earleme(); r.scan(s(x), k as u32); if !r.end_earleme() { break; }
            let tr = g.trace();
            let mut want: Vec<_> = r.predicted_symbols().map(|y| (tr[0][y.usize()], r.earleme())).collect();
            want.extend(r.medial_items().map(|i| (tr[1][i.dot as usize], i.origin as usize)));
            let _ = tr;
            assert_eq!(r.trace().map(|x| x.1).collect::<Vec<_>>(), want.iter().map(|x| x.1).collect::<Vec<_>>(), "{:?} {:?}", g.src, t);
        }
    } } } }
}
'''
