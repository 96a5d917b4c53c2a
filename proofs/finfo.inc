pub open spec fn rule_max(x: [Symbol; 3], m: usize) -> bool { x@[0].id() <= m && x@[1].id() <= m && x@[2].id() <= m }
//@ impl GRAMMAR `impl ForestInfo`
//@ fn max_nulling_symbol props=P22,P10
    ensures
        // a maximum over exactly the symbols of the eliminated nulling entries and of the nulling intermediate rules
        r is Some ==> (exists|k: int| 0 <= k < self.nulling_eliminated@.len() && #[trigger] self.nulling_eliminated@[k] is Some && (self.nulling_eliminated@[k]->0).0.id() == r->0)
            || (exists|k: int, i: int| 0 <= k < self.nulling_intermediate_rules@.len() && 0 <= i < 3 && (#[trigger] self.nulling_intermediate_rules@[k]@[i]).id() == r->0),
        forall|k: int| 0 <= k < self.nulling_eliminated@.len() && #[trigger] self.nulling_eliminated@[k] is Some ==> r is Some && (self.nulling_eliminated@[k]->0).0.id() <= r->0,
        forall|x: [Symbol; 3]| #[trigger] self.nulling_intermediate_rules@.contains(x) ==> r is Some && rule_max(x, r->0),
//@ rewrite `. iter ( )` => `.iter_seq_()`
//@ closure 0 destruct=`&(Symbol, bool)`
    -> (r: usize) ensures r == (*arg_).0.id()
//@ closure 1 destruct=`&[Symbol; 3]`
    -> (r: [usize; 3]) ensures r@[0] == (*arg_)@[0].id(), r@[1] == (*arg_)@[1].id(), r@[2] == (*arg_)@[2].id()
//@ endfn
//@ fn external_origin props=P22,P23
    ensures r is Some == ((dot as int) < self.eval@.len()), r is Some ==> r->0 == self.eval@[dot as int]
//@ endfn
//@ endimpl
