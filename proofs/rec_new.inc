// ---- new recognizers: without a forest, with the default policy ----
//@ file PERF gearley-recognizer/src/perf_hint.rs
//@ file NULLF gearley-forest/src/null_forest.rs
//@ struct NULLF NullForest
/// It records nothing: its handles name nothing.
/// Its handle stands for `()`. (Written by hand, since Verus does not find `(): Copy`; the trait's contract asks nothing of
/// a forest that is not lawful, so there is nothing to prove of the bodies.)
#[derive(Clone, Copy)]
pub struct NullRef { pub x: u8 }
impl Forest<Symbol> for NullForest {
    type NodeRef = NullRef;
    open spec fn lawful(&self) -> bool { false }
    open spec fn calm(&self) -> bool { true }
    open spec fn pending(&self) -> Option<Seq<(u32, NullRef)>> { None }
    open spec fn node(&self, h: NullRef) -> FNode<Symbol, NullRef> { FNode::Nothing }
    fn leaf(&mut self, token: Symbol, pos: u32, value: u32) -> (r: NullRef) { NullRef { x: 0 } }
    fn nulling(&self, token: Symbol) -> (r: NullRef) { NullRef { x: 0 } }
    fn begin_sum(&mut self) {}
    fn push_summand(&mut self, item: Item<NullRef>) {}
    fn product(&mut self, left_factor: NullRef, right_factor: NullRef) -> (r: NullRef) { NullRef { x: 0 } }
    fn sum(&mut self, lhs_sym: Symbol, origin: u32) -> (r: NullRef) { NullRef { x: 0 } }
}
//@ struct PERF DefaultPerfHint public
//@ impl PERF `impl DefaultPerfHint`
//@ fn new extern elsewhere
    ensures r.memory_limit == memory_limit, r.token_limit is None, r.num_syms is None
//@ endfn
//@ endimpl
//@ impl PERF `impl PerfHint for DefaultPerfHint`
//@ consts
//@ fn completion_capacity extern elsewhere
//@ endfn
//@ fn medial_capacity extern elsewhere
//@ endfn
//@ endimpl
/// The default policy asks for no Leo items, which is what the theorems are about.
pub proof fn theorem_default_policy() ensures !DefaultPerfHint::LEO, DefaultPerfHint::LOOKAHEAD {}
//@ impl RECOG `impl<G> Recognizer<G, NullForest, DefaultPerfHint>` as `impl<G: Grammar> Recognizer<G, NullForest, DefaultPerfHint>`
//@ fn new props=P11,P12,P16
    requires rows_ok(grammar)
    ensures initial(r), r.grammar == grammar, idle(r)
//@ endfn
//@ endimpl
//@ impl RECOG `impl<F, G> Recognizer<G, F, DefaultPerfHint>` as `impl<F: Forest, G: Grammar> Recognizer<G, F, DefaultPerfHint>`
//@ fn with_forest props=P11,P12,P16
    requires rows_ok(grammar)
    ensures initial(r), r.grammar == grammar, r.forest == forest, idle(r)
//@ endfn
//@ endimpl
