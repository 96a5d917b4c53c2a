//@ file GRAMMAR gearley-grammar/src/lib.rs
// cfg-history's record types: plain data that is carried through.
#[derive(Clone, Copy)] pub struct EventId { pub id: u32 }
#[derive(Clone, Copy)] pub struct MinimalDistance { pub distance: u32 }
pub type EventAndDistance = (EventId, MinimalDistance);
#[derive(Clone, Copy)] pub struct ExternalDottedRule { pub id: u32, pub pos: u32 }
#[derive(Clone, Copy)] pub struct ExternalOrigin { pub id: u32 }
pub type NullingEliminated = Option<(Symbol, bool)>;
pub type NullingIntermediateRule = [Symbol; 3];
//@ struct GRAMMAR PredictionTransition derive=Copy,Clone
//@ struct GRAMMAR ForestInfo
// A grammar is given by its answers: each query has a ghost counterpart, and the contract of a query is
// that it returns its ghost counterpart (so it is a function of its arguments).
//@ trait GRAMMAR Grammar `pub trait Grammar`
    spec fn s_sof(&self) -> Symbol;
//@ fn sof
    ensures r == self.s_sof()
//@ endfn
    spec fn s_eof(&self) -> Symbol;
//@ fn eof
    ensures r == self.s_eof()
//@ endfn
    spec fn s_lhs_lr_set(&self, symbol: Symbol) -> BitSlice;
//@ fn lhs_lr_set
    ensures *r == self.s_lhs_lr_set(symbol)
//@ endfn
    spec fn s_lookahead_set(&self, dot: Dot) -> BitSlice;
//@ fn lookahead_set
    ensures *r == self.s_lookahead_set(dot)
//@ endfn
    spec fn s_rhs1_or_lhs(&self, dot: Dot) -> Symbol;
//@ fn rhs1_or_lhs
    ensures r == self.s_rhs1_or_lhs(dot)
//@ endfn
    spec fn s_prediction_row(&self, sym: Symbol) -> BitSlice;
//@ fn prediction_row
    ensures *r == self.s_prediction_row(sym)
//@ endfn
    spec fn s_num_syms(&self) -> usize;
//@ fn num_syms
    ensures r == self.s_num_syms()
//@ endfn
    spec fn s_num_gensyms(&self) -> usize;
//@ fn num_gensyms
    ensures r == self.s_num_gensyms()
//@ endfn
    spec fn s_num_rules(&self) -> usize;
//@ fn num_rules
    ensures r == self.s_num_rules()
//@ endfn
    spec fn s_start_sym(&self) -> Symbol;
//@ fn start_sym
    ensures r == self.s_start_sym()
//@ endfn
    spec fn s_externalized_start_sym(&self) -> Symbol;
//@ fn externalized_start_sym
    ensures r == self.s_externalized_start_sym()
//@ endfn
    spec fn s_has_trivial_derivation(&self) -> bool;
//@ fn has_trivial_derivation
    ensures r == self.s_has_trivial_derivation()
//@ endfn
    spec fn s_nulling(&self, pos: u32) -> NullingEliminated;
//@ fn nulling
    ensures r == self.s_nulling(pos)
//@ endfn
    spec fn s_events(&self) -> (Seq<EventAndDistance>, Seq<EventAndDistance>);
//@ fn events
    ensures (r.0@, r.1@) == self.s_events()
//@ endfn
    spec fn s_trace(&self) -> Seq<Seq<ExternalDottedRule>>;
//@ fn trace
    ensures seq![r@[0]@, r@[1]@, r@[2]@] == self.s_trace()
//@ endfn
    spec fn s_get_rhs1(&self, dot: Dot) -> Option<Symbol>;
//@ fn get_rhs1
    ensures r == self.s_get_rhs1(dot)
//@ endfn
    spec fn s_rhs1(&self) -> Seq<Option<Symbol>>;
//@ fn rhs1
    ensures r@ == self.s_rhs1()
//@ endfn
    spec fn s_get_lhs(&self, dot: Dot) -> Symbol;
//@ fn get_lhs
    ensures r == self.s_get_lhs(dot)
//@ endfn
    spec fn s_external_origin(&self, dot: Dot) -> ExternalOrigin;
//@ fn external_origin
    ensures r == self.s_external_origin(dot)
//@ endfn
    spec fn s_eliminated_nulling_intermediate(&self) -> Seq<NullingIntermediateRule>;
//@ fn eliminated_nulling_intermediate
    ensures r@ == self.s_eliminated_nulling_intermediate()
//@ endfn
    spec fn s_completions(&self, sym: Symbol) -> Seq<PredictionTransition>;
//@ fn completions
    ensures r@ == self.s_completions(sym)
//@ endfn
    spec fn s_gen_completion(&self, sym: Symbol) -> Seq<Option<PredictionTransition>>;
//@ fn gen_completion
    ensures r@ == self.s_gen_completion(sym)
//@ endfn
    spec fn s_to_internal(&self, symbol: Symbol) -> Option<Symbol>;
//@ fn to_internal
    ensures r == self.s_to_internal(symbol)
//@ endfn
    spec fn s_to_external(&self, symbol: Symbol) -> Symbol;
//@ fn to_external
    ensures r == self.s_to_external(symbol)
//@ endfn
    spec fn s_dot_before_eof(&self) -> Dot;
//@ fn dot_before_eof
    ensures r == self.s_dot_before_eof()
//@ endfn
    spec fn s_useless_symbol(&self) -> Symbol;
//@ fn useless_symbol
    ensures r == self.s_useless_symbol()
//@ endfn
    spec fn s_forest_info(&self) -> ForestInfo;
//@ fn forest_info
    ensures r == self.s_forest_info()
//@ endfn
//@ endtrait
