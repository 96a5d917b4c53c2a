import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from _rec import *
id='P12-medial-lookahead-skips-origin'; prop='P12'; kind='native'; file=R
edits=[("""                // from A ::= • g42   c
            // to   A ::=   g42 • c
""", "") ] if False else [("""            let was_predicted = self.predicted[set_id as usize].get(trans.symbol.usize());
            let will_be_useful = self
""", """            let was_predicted = trans.is_unary
                || self.predicted[set_id as usize].get(trans.symbol.usize());
            let will_be_useful = self
""")]
needs='a symbol completed at a position where the left side of one of its unary rules is not predicted'
breaks='Left sides of unary rules are completed at positions where they were not predicted: partial matches and completions there are not justified.'
id='P12-unary-not-predicted'
demo=HEAD+'''
/// the completions a recognizer works off, with the symbols predicted at their origins
#[derive(Default)] struct Log(Vec<(u32, u32)>);
impl Forest for Log { type NodeRef = u32; const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 0;
    fn begin_sum(&mut self) {} fn push_summand(&mut self, i: Item<u32>) { self.0.push((i.origin, i.dot)); }
    fn sum(&mut self, _: Symbol, _: u32) -> u32 { 0 } fn product(&mut self, _: u32, _: u32) -> u32 { 0 } fn leaf(&mut self, _: Symbol, _: u32, _: u32) -> u32 { 0 } fn nulling(&self, _: Symbol) -> u32 { 0 } }
fn main() {
    // S -> x A | y B ; A -> t ; B -> t ; C.. : after x, only A is predicted
    let g = grammar(3, 3, &[(0, &[3, 1]), (0, &[4, 2]), (1, &[5]), (2, &[5])]);
    let mut r = Recognizer::with_forest(&g, Log::default());
    let mut preds: Vec<Vec<usize>> = vec![];
    for t in [g.sof, g.map[3], g.map[5]] {
        r.begin_earleme(); preds.truncate(r.earleme()); preds.push(r.predicted_symbols().map(|x| x.usize()).collect());
        r.scan(s(t), 0); assert!(r.end_earleme());
    }
    assert!(r.is_finished());
    for (o, d) in r.into_forest().0 { let v = g.vis[g.rules[d as usize].lhs]; assert!(preds[o as usize].contains(&v), "completed {v} from {o} where it was not predicted: {preds:?}"); }
}
'''
