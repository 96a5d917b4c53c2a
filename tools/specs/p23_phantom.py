id='P23-phantom-after-nonterminal-lost'; prop='P23'; kind='native'; file='simple-bocage/src/bocage.rs'
edits=[("""            if let Node::Rule { .. } = self[factors] {
                return node;
            }
""","""            if let Node::Rule { .. } | Node::Product { .. } = self[factors] {
                return node;
            }
""")]
needs='a rule with an eliminated nulling symbol whose remaining child is an unambiguous nonterminal'
breaks='The nulling child of such a rule is not evaluated and not passed to the rule.'
demo='''#[path = "../../common.rs"] mod common;
#[path = "../../shared/tg.rs"] mod tg;
use gearley_forest::{Forest, Evaluate, item::Item};
use gearley_recognizer::Recognizer;
use simple_bocage::Bocage;
use cfg_symbol::Symbol;
use tg::*;
struct Ev;
impl Evaluate for Ev {
    type Elem = Vec<u32>;
    fn leaf(&self, _: Symbol, v: u32) -> Vec<u32> { vec![v] }
    fn product<'a>(&self, _: u32, args: impl Iterator<Item = &'a Vec<u32>>) -> Vec<u32> { args.flatten().copied().collect() }
    fn nulling<'r>(&self, t: Symbol, results: &'r mut Vec<Vec<u32>>) { results.push(vec![1000 + t.usize() as u32]) }
}
fn main() {
    let mut rng = common::Rng::new(3);
    let mut all = classics();
    for _ in 0..600 { all.push(random_cfg(&mut rng, false)); }
    // nulling chains: intermediate nulling rules appear as products without origin
    for c in all { let Some(g) = compile(&c, &mut rng) else { continue }; for _ in 0..6 { let Some(t) = random_sentence(&c, &mut rng, 9) else { continue };
        let mut n = Count::new(&g.src, &t);
        if n.sym(0, 0, t.len()) != 1 || n.cyclic { continue; }
        let mut r = Recognizer::with_forest(&g, Bocage::new(&g));
        r.begin_earleme(); r.scan(s(g.sof), 0); assert!(r.end_earleme());
        for (k, &x) in t.iter().enumerate() { r.begin_earleme(); r.scan(s(g.map[x]), k as u32 + 1); assert!(r.end_earleme()); }
        let h = r.finished_node().unwrap();
        let v = r.into_forest().evaluate(Ev, h);
        let map = g.map.clone();
        let want = n.tree(0, 0, t.len(), &|kind, x, i, ch| match kind { 0 => format!("{} ", i + 1), 1 => format!("{} ", 1000 + map[x]), _ => ch.concat() });
        assert_eq!(v.concat().iter().map(|x| format!("{} ", x)).collect::<String>(), want, "{:?} {:?}", c, t);
    } }
}
'''
