/// Assumed of cfg-symbol: fresh symbols are numbered from 0.
pub struct SymbolSource {}
impl SymbolSource {
    #[verifier::external_body]
    pub fn generate_fresh() -> (r: SeqIter<Symbol>) ensures r@.len() == 0x1_0000_0000, forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).n == k { unimplemented!() }
}
/// The last of the first `j` rules with the left side `x` (or -1).
pub open spec fn last_rule(q: Seq<[Symbol; 3]>, j: int, x: int) -> int decreases j {
    if j <= 0 { -1 } else if q[j - 1]@[0].id() == x { j - 1 } else { last_rule(q, j - 1, x) }
}
pub proof fn last_rule_is(q: Seq<[Symbol; 3]>, j: int, x: int)
    requires 0 <= j <= q.len()
    ensures -1 <= last_rule(q, j, x) < j, last_rule(q, j, x) >= 0 ==> q[last_rule(q, j, x)]@[0].id() == x,
        forall|i: int| last_rule(q, j, x) < i < j ==> (#[trigger] q[i])@[0].id() != x
    decreases j
{ if j > 0 && q[j - 1]@[0].id() != x { last_rule_is(q, j - 1, x); } }
/// The symbols of the metadata are not ridiculously large, and the rules not ridiculously many (2^20, 2^28).
pub open spec fn small(f: ForestInfo) -> bool {
    &&& f.nulling_intermediate_rules@.len() < 0x1000_0000
    &&& forall|k: int| 0 <= k < f.nulling_eliminated@.len() && #[trigger] f.nulling_eliminated@[k] is Some ==> (f.nulling_eliminated@[k]->0).0.id() < 0x10_0000
    &&& forall|k: int, i: int| 0 <= k < f.nulling_intermediate_rules@.len() && 0 <= i < 3 ==> (#[trigger] f.nulling_intermediate_rules@[k]@[i]).id() < 0x10_0000
}
/// `c` is no less than any symbol of the metadata.
pub open spec fn covers(f: ForestInfo, c: int) -> bool {
    &&& forall|k: int| 0 <= k < f.nulling_eliminated@.len() && #[trigger] f.nulling_eliminated@[k] is Some ==> (f.nulling_eliminated@[k]->0).0.id() <= c
    &&& forall|k: int, i: int| 0 <= k < f.nulling_intermediate_rules@.len() && 0 <= i < 3 ==> (#[trigger] f.nulling_intermediate_rules@[k]@[i]).id() <= c
}
