//@ include prelude.inc
use std::cmp;
//@ include deps.inc
//@ include grammar.inc
// Every query through a reference: its ghost counterpart is the referent's, so each forwarding body must
// return what the same query on the referent returns.
//@ impl GRAMMAR `impl<'a, G> Grammar for &'a G` strict
    open spec fn s_sof(&self) -> Symbol { (**self).s_sof() }
//@ fn sof props=P18
//@ endfn
    open spec fn s_eof(&self) -> Symbol { (**self).s_eof() }
//@ fn eof props=P18
//@ endfn
    open spec fn s_lhs_lr_set(&self, symbol: Symbol) -> BitSlice { (**self).s_lhs_lr_set(symbol) }
//@ fn lhs_lr_set props=P18
//@ endfn
    open spec fn s_lookahead_set(&self, dot: Dot) -> BitSlice { (**self).s_lookahead_set(dot) }
//@ fn lookahead_set props=P18
//@ endfn
    open spec fn s_rhs1_or_lhs(&self, dot: Dot) -> Symbol { (**self).s_rhs1_or_lhs(dot) }
//@ fn rhs1_or_lhs props=P18
//@ endfn
    open spec fn s_prediction_row(&self, sym: Symbol) -> BitSlice { (**self).s_prediction_row(sym) }
//@ fn prediction_row props=P18
//@ endfn
    open spec fn s_num_syms(&self) -> usize { (**self).s_num_syms() }
//@ fn num_syms props=P18
//@ endfn
    open spec fn s_num_gensyms(&self) -> usize { (**self).s_num_gensyms() }
//@ fn num_gensyms props=P18
//@ endfn
    open spec fn s_num_rules(&self) -> usize { (**self).s_num_rules() }
//@ fn num_rules props=P18
//@ endfn
    open spec fn s_start_sym(&self) -> Symbol { (**self).s_start_sym() }
//@ fn start_sym props=P18
//@ endfn
    open spec fn s_externalized_start_sym(&self) -> Symbol { (**self).s_externalized_start_sym() }
//@ fn externalized_start_sym props=P18
//@ endfn
    open spec fn s_has_trivial_derivation(&self) -> bool { (**self).s_has_trivial_derivation() }
//@ fn has_trivial_derivation props=P18
//@ endfn
    open spec fn s_nulling(&self, pos: u32) -> NullingEliminated { (**self).s_nulling(pos) }
//@ fn nulling props=P18
//@ endfn
    open spec fn s_events(&self) -> (Seq<EventAndDistance>, Seq<EventAndDistance>) { (**self).s_events() }
//@ fn events props=P18
//@ endfn
    open spec fn s_trace(&self) -> Seq<Seq<ExternalDottedRule>> { (**self).s_trace() }
//@ fn trace props=P18
//@ endfn
    open spec fn s_get_rhs1(&self, dot: Dot) -> Option<Symbol> { (**self).s_get_rhs1(dot) }
//@ fn get_rhs1 props=P18
//@ endfn
    open spec fn s_rhs1(&self) -> Seq<Option<Symbol>> { (**self).s_rhs1() }
//@ fn rhs1 props=P18
//@ endfn
    open spec fn s_get_lhs(&self, dot: Dot) -> Symbol { (**self).s_get_lhs(dot) }
//@ fn get_lhs props=P18
//@ endfn
    open spec fn s_external_origin(&self, dot: Dot) -> ExternalOrigin { (**self).s_external_origin(dot) }
//@ fn external_origin props=P18
//@ endfn
    open spec fn s_eliminated_nulling_intermediate(&self) -> Seq<NullingIntermediateRule> { (**self).s_eliminated_nulling_intermediate() }
//@ fn eliminated_nulling_intermediate props=P18
//@ endfn
    open spec fn s_completions(&self, sym: Symbol) -> Seq<PredictionTransition> { (**self).s_completions(sym) }
//@ fn completions props=P18
//@ endfn
    open spec fn s_gen_completion(&self, sym: Symbol) -> Seq<Option<PredictionTransition>> { (**self).s_gen_completion(sym) }
//@ fn gen_completion props=P18
//@ endfn
    open spec fn s_to_internal(&self, symbol: Symbol) -> Option<Symbol> { (**self).s_to_internal(symbol) }
//@ fn to_internal props=P18
//@ endfn
    open spec fn s_to_external(&self, symbol: Symbol) -> Symbol { (**self).s_to_external(symbol) }
//@ fn to_external props=P18
//@ endfn
    open spec fn s_dot_before_eof(&self) -> Dot { (**self).s_dot_before_eof() }
//@ fn dot_before_eof props=P18
//@ endfn
    open spec fn s_useless_symbol(&self) -> Symbol { (**self).s_useless_symbol() }
//@ fn useless_symbol props=P18
//@ endfn
    open spec fn s_forest_info(&self) -> ForestInfo { (**self).s_forest_info() }
//@ fn forest_info props=P18
//@ endfn
//@ endimpl
} // verus!
