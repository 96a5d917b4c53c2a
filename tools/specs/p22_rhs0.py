id='P22-middle-symbol-not-counted'; prop='P22'; kind='native'; file='gearley-grammar/src/lib.rs'
edits=[("""                    .flat_map(|&[lhs, rhs0, rhs1]| [lhs.usize(), rhs0.usize(), rhs1.usize()]),
""","""                    .map(|&[lhs, rhs0, rhs1]| {
                        // the left side is numbered between its factors
                        if rhs0 < lhs { rhs1.usize().max(lhs.usize()) } else { rhs1.usize().max(rhs0.usize()) }
                    })
                    .take(64),
""")]
needs='more than 64 intermediate nulling rules, the largest symbol occurring after them'
breaks='The largest nulling symbol is looked for in the first 64 intermediate rules only.'
demo='''use gearley_grammar::ForestInfo;
use cfg_symbol::Symbol;
fn main() {
    for n in [1u32, 3, 64, 65, 200] {
        let mut f = ForestInfo::default();
        for k in 0..n { f.nulling_intermediate_rules.push([Symbol::from_raw(k), Symbol::from_raw(2 * k), Symbol::from_raw(k / 2)]); }
        assert_eq!(f.max_nulling_symbol(), Some(2 * (n as usize - 1)));
    }
}
'''
