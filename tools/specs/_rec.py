HEAD = '''#[path = "../../common.rs"] mod common;
#[path = "../../shared/tg.rs"] mod tg;
#[allow(unused_imports)] use cfg_symbol::Symbol;
#[allow(unused_imports)] use gearley_forest::{Forest, NullForest, item::Item};
#[allow(unused_imports)] use gearley_grammar::Grammar;
#[allow(unused_imports)] use gearley_recognizer::{Recognizer, lookahead::Lookahead};
#[allow(unused_imports)] use tg::*; #[allow(unused_imports)] use common::Rng;
#[allow(dead_code)]
/// grammar (nonterminals 0..nt, start 0, terminals nt..nt+tt) compiled to internal tables
fn grammar(nt: usize, tt: usize, p: &[(usize, &[usize])]) -> TestGrammar {
    compile(&Cfg0 { nt, tt, prods: p.iter().map(|(a, x)| (*a, x.to_vec())).collect() }, &mut Rng::new(1)).unwrap()
}
/// (finished, all advances true, positions seen at each begin_earleme: (number, items, predicted))
#[allow(dead_code)]
fn run(g: &TestGrammar, toks: &[usize], hint: impl Fn(usize) -> Option<usize>) -> (bool, bool, Vec<(usize, Vec<(u32, u32)>, Vec<usize>)>) {
    let mut r = Recognizer::new(g); let mut seen = vec![];
    let mut all = vec![g.sof]; all.extend(toks.iter().map(|&t| g.map[t]));
    for (k, &t) in all.iter().enumerate() {
        r.begin_earleme();
        seen.push((r.earleme(), r.medial_items().map(|i| (i.origin, i.dot)).collect(), r.predicted_symbols().map(|x| x.usize()).collect()));
        if let Some(h) = hint(k) { r.lookahead().set_hint(s(g.map[h])); }
        r.scan(s(t), k as u32);
        if !r.end_earleme() { return (false, false, seen); }
    }
    (r.is_finished(), true, seen)
}
#[allow(dead_code)]
fn derives(g: &TestGrammar, toks: &[usize]) -> bool { Count::new(&g.src, toks).sym(0, 0, toks.len()) > 0 }
'''
R = 'gearley-recognizer/src/recognizer.rs'
