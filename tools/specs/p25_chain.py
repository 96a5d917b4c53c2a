id='P25-one-step-of-the-internal-chain'; prop='P25'; kind='native'; file='gearley-default-grammar/src/lib.rs'
edits=[("""            let mut lhs = rule.lhs;
            while lhs.usize() >= self.size.syms {
""","""            let mut lhs = rule.lhs;
            if lhs.usize() >= self.size.syms {
""")]
needs='a user rule of at least five symbols (so that internal symbols are chained), or four'
breaks='The completion entry of a rule deep in a chain of internal symbols names an internal symbol as its left side.'
extra='cfg = { path = "../stubs/cfg" }\n'
crates=['gearley-forest','gearley-grammar','gearley-recognizer','gearley-default-grammar']
demo='''use cfg::{Cfg, CfgRule, EarleyDot, RuleHistory, WrappedRoot};
use cfg_history::earley::*;
use cfg_symbol::Symbol;
use gearley_default_grammar::DefaultGrammar;
use gearley_grammar::Grammar;
fn s(x: u32) -> Symbol { Symbol::from_raw(x) }
fn main() {
    for n in 2..7u32 {
        // start 0 = sof(1) inner(2), root 3 = start eof(4); inner -> t1 .. tn, terminals 5..5+n, internal symbols above
        let d = |k: u32| Some(EarleyDot { event: EventId { id: k }, distance: MinimalDistance { distance: k }, trace: ExternalDottedRule { id: k, pos: 0 } });
        let mut id = 0;
        let mut rule = |lhs: u32, rhs: &[u32], origin: Option<u32>| { id += 3; CfgRule { lhs: s(lhs), rhs: rhs.iter().map(|&x| s(x)).collect(), history: RuleHistory { origin: origin.map_or(ExternalOrigin::null(), |id| ExternalOrigin { id }), nullable: None, dots: vec![d(id), d(id + 1), d(id + 2)] } } };
        let g0 = 5 + n;
        let mut rules = vec![rule(3, &[0, 4], Some(7)), rule(0, &[1, 2], Some(8))];
        // inner -> g_last t_n; g_k -> g_(k-1) t_(k+1); g_1 -> t_1 t_2
        let mut prev = 5;
        for k in 1..n - 1 { rules.push(rule(g0 + k - 1, &[prev, 5 + k], None)); prev = g0 + k - 1; }
        rules.push(rule(2, &[prev, 5 + n - 1], Some(9)));
        let w = WrappedRoot { start_of_input: s(1), inner_root: s(2), end_of_input: s(4), root: s(3) };
        let c = Cfg::new(rules, (g0 + n - 2) as usize, w, vec![]);
        let g = DefaultGrammar::from_grammar(c);
        let (inner, first) = (g.to_internal(s(2)).unwrap(), g.to_internal(s(5)).unwrap());
        assert_eq!(g.completions(first).len(), 1);
        assert_eq!(g.completions(first)[0].symbol, inner, "{} terminals", n);
    }
}
'''
