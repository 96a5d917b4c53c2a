id='P26-no-hint-for-a-repeated-token'; prop='P26'; kind='native'; file='gearley-utils/src/parse.rs'; crates=['gearley-utils','gearley-forest','gearley-grammar','gearley-recognizer']
edits=[("""                let s = self.grammar().to_internal(**t).unwrap();
                self.lookahead().set_hint(s);
""","""                if **t != token {
                    let s = self.grammar().to_internal(**t).unwrap();
                    self.lookahead().set_hint(s);
                }
""")]
needs='a token that is followed by the same token'
breaks='A token followed by itself is read without the hint, so partial matches are kept that the hint would rule out.'
demo='''#[path = "../../common.rs"] mod common;
#[path = "../../shared/tg.rs"] mod tg;
use gearley_forest::{Forest, item::Item};
use gearley_recognizer::{Recognizer, lookahead::Lookahead};
use gearley_utils::RecognizerParseExt;
use cfg_symbol::Symbol;
use gearley_grammar::Grammar;
use tg::*;
#[derive(Default, Debug)]
struct Log(Vec<(u32, u32, u32)>);
impl Forest for Log {
    type NodeRef = u32;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 0;
    fn begin_sum(&mut self) { self.0.push((0, 0, 0)); }
    fn push_summand(&mut self, i: Item<u32>) { self.0.push((1, i.origin, i.dot)); }
    fn sum(&mut self, x: Symbol, o: u32) -> u32 { self.0.push((2, x.usize() as u32, o)); 0 }
    fn product(&mut self, a: u32, b: u32) -> u32 { self.0.push((3, a, b)); 0 }
    fn leaf(&mut self, x: Symbol, _p: u32, v: u32) -> u32 { self.0.push((4, x.usize() as u32, v)); 0 }
    fn nulling(&self, _: Symbol) -> u32 { 0 }
}
fn main() {
    let mut rng = common::Rng::new(3);
    let mut all = classics();
    for _ in 0..400 { all.push(random_cfg(&mut rng, false)); }
    for c in all { let Some(g) = compile(&c, &mut common::Rng::new(1)) else { continue }; for _ in 0..6 { let Some(t) = random_sentence(&c, &mut rng, 8) else { continue };
        let mut a = Recognizer::with_forest(&g, Log::default());
        let list: Vec<Symbol> = t.iter().map(|&x| s(x)).collect();
        let got = a.parse(&list).ok();
        let mut b = Recognizer::with_forest(&g, Log::default());
        b.begin_earleme(); b.scan(g.sof(), 0); assert!(b.end_earleme());
        let mut ok = true;
        for (k, &x) in t.iter().enumerate() {
            b.begin_earleme();
            match t.get(k + 1) { Some(&y) => b.lookahead().set_hint(s(g.map[y])), None => b.lookahead().clear_hint() }
            b.scan(s(g.map[x]), k as u32);
            if !b.end_earleme() { ok = false; break; }
        }
        assert_eq!(got, if ok { Some(b.is_finished()) } else { None });
        assert_eq!(a.into_forest().0, b.into_forest().0, "{:?} {:?}", c, t);
    } }
}
'''
