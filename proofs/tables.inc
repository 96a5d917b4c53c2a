// ---- compiled tables keep the promises that the recognizer's theorems ask for ----
/// Ends the run.
#[verifier::external_body]
pub fn stop_<T>() -> (r: T) ensures false { panic!() }
/// A compiled grammar. Its answers are the grammar object's own; a question about a rule or symbol that there is not ends the run, as the panic does.
pub struct Table { d: DefaultGrammar }
impl Table {
    #[verifier::type_invariant]
    closed spec fn inv(&self) -> bool { made(self.d) }
    pub closed spec fn of(&self) -> DefaultGrammar { self.d }
    pub fn new(d: DefaultGrammar) -> (r: Table) requires made(d) ensures r.of() == d { Table { d } }
}
pub open spec fn made(d: DefaultGrammar) -> bool { v_wf(d.completions) && v_sets(d.completions).len() == d.size.syms && d.prediction_matrix.rows().len() == d.size.syms && d.lr_sets.rows().len() == 2 * d.size.syms && d.size.syms < 0x4000_0000 }
pub open spec fn is_rule(d: DefaultGrammar, k: int) -> bool { 0 <= k < d.columns@[0].syms@.len() && k < d.columns@[1].syms@.len() && d.columns@[0].syms@[k] is Some }
pub open spec fn t_lhs(d: DefaultGrammar, k: Dot) -> Symbol { if is_rule(d, k as int) { d.columns@[0].syms@[k as int]->0 } else { d.start_sym } }
pub open spec fn t_post(d: DefaultGrammar, k: Dot) -> Option<Symbol> { if k < d.columns@[1].syms@.len() { d.columns@[1].syms@[k as int] } else { None } }
pub open spec fn t_after(d: DefaultGrammar, k: Dot) -> Symbol { match t_post(d, k) { Some(x) => x, None => t_lhs(d, k) } }
impl Grammar for Table {
    closed spec fn s_sof(&self) -> Symbol { self.d.sof_sym }
    closed spec fn s_eof(&self) -> Symbol { self.d.eof_sym }
    closed spec fn s_lhs_lr_set(&self, symbol: Symbol) -> BitSlice { self.d.lr_sets.rows()[symbol.id() * 2 + 1] }
    closed spec fn s_lookahead_set(&self, dot: Dot) -> BitSlice { match t_post(self.d, dot) { Some(x) => self.d.lr_sets.rows()[x.id() * 2], None => self.d.lr_sets.rows()[t_lhs(self.d, dot).id() * 2 + 1] } }
    closed spec fn s_rhs1_or_lhs(&self, dot: Dot) -> Symbol { t_after(self.d, dot) }
    closed spec fn s_prediction_row(&self, sym: Symbol) -> BitSlice { self.d.prediction_matrix.rows()[if sym.id() < self.d.size.syms { sym.id() } else { self.d.eof_sym.id() }] }
    closed spec fn s_num_syms(&self) -> usize { self.d.size.syms }
    closed spec fn s_num_gensyms(&self) -> usize { self.d.size.gensyms }
    closed spec fn s_num_rules(&self) -> usize { self.d.size.rules }
    closed spec fn s_start_sym(&self) -> Symbol { self.d.start_sym }
    closed spec fn s_externalized_start_sym(&self) -> Symbol { ext_of(self.d.sym_maps, self.d.original_start_sym) }
    closed spec fn s_has_trivial_derivation(&self) -> bool { self.d.has_trivial_derivation }
    closed spec fn s_nulling(&self, pos: u32) -> NullingEliminated { if pos < self.d.forest_info.nulling_eliminated@.len() { self.d.forest_info.nulling_eliminated@[pos as int] } else { None } }
    closed spec fn s_events(&self) -> (Seq<EventAndDistance>, Seq<EventAndDistance>) { (self.d.columns@[0].events@, self.d.columns@[1].events@) }
    closed spec fn s_trace(&self) -> Seq<Seq<ExternalDottedRule>> { seq![self.d.columns@[0].tracing@, self.d.columns@[1].tracing@, self.d.columns@[2].tracing@] }
    closed spec fn s_get_rhs1(&self, dot: Dot) -> Option<Symbol> { t_post(self.d, dot) }
    closed spec fn s_rhs1(&self) -> Seq<Option<Symbol>> { self.d.columns@[1].syms@ }
    closed spec fn s_get_lhs(&self, dot: Dot) -> Symbol { t_lhs(self.d, dot) }
    closed spec fn s_external_origin(&self, dot: Dot) -> ExternalOrigin { self.d.forest_info.eval@[dot as int] }
    closed spec fn s_eliminated_nulling_intermediate(&self) -> Seq<NullingIntermediateRule> { self.d.forest_info.nulling_intermediate_rules@ }
    closed spec fn s_completions(&self, sym: Symbol) -> Seq<PredictionTransition> { if sym.id() < self.d.size.syms { v_sets(self.d.completions)[sym.id()] } else { Seq::empty() } }
    closed spec fn s_gen_completion(&self, sym: Symbol) -> Seq<Option<PredictionTransition>> { if self.d.size.syms <= sym.id() < self.d.size.syms + self.d.gen_completions@.len() { self.d.gen_completions@[sym.id() - self.d.size.syms]@ } else { seq![None, None] } }
    closed spec fn s_to_internal(&self, symbol: Symbol) -> Option<Symbol> { int_of(self.d.sym_maps, symbol) }
    closed spec fn s_to_external(&self, symbol: Symbol) -> Symbol { ext_of(self.d.sym_maps, symbol) }
    closed spec fn s_dot_before_eof(&self) -> Dot { self.d.dot_before_eof }
    closed spec fn s_useless_symbol(&self) -> Symbol { self.d.start_sym }
    closed spec fn s_forest_info(&self) -> ForestInfo { self.d.forest_info }
    fn sof(&self) -> Symbol { self.d.sof() }
    fn eof(&self) -> Symbol { self.d.eof() }
    fn lhs_lr_set(&self, symbol: Symbol) -> &BitSlice {
        proof { use_type_invariant(self); }
        if symbol.usize() < self.d.size.syms { self.d.lhs_lr_set(symbol) } else { stop_() }
    }
    fn lookahead_set(&self, dot: Dot) -> &BitSlice {
        proof { use_type_invariant(self); }
        if !self.rule_(dot) { return stop_(); }
        if self.d.rhs1_or_lhs(dot).usize() < self.d.size.syms { self.d.lookahead_set(dot) } else { stop_() }
    }
    fn rhs1_or_lhs(&self, dot: Dot) -> Symbol { if self.rule_(dot) { self.d.rhs1_or_lhs(dot) } else { stop_() } }
    fn prediction_row(&self, sym: Symbol) -> &BitSlice {
        proof { use_type_invariant(self); }
        if sym.usize() < self.d.size.syms { self.d.prediction_row(sym) } else { stop_() }
    }
    fn num_syms(&self) -> usize { self.d.num_syms() }
    fn num_gensyms(&self) -> usize { self.d.num_gensyms() }
    fn num_rules(&self) -> usize { self.d.num_rules() }
    fn start_sym(&self) -> Symbol { self.d.start_sym() }
    fn externalized_start_sym(&self) -> Symbol {
        if self.d.sym_maps.to_external.len() == 0 || self.d.original_start_sym.usize() < self.d.sym_maps.to_external.len() { self.d.externalized_start_sym() } else { stop_() }
    }
    fn has_trivial_derivation(&self) -> bool { self.d.has_trivial_derivation() }
    fn nulling(&self, pos: u32) -> NullingEliminated { self.d.nulling(pos) }
    fn events(&self) -> (&[EventAndDistance], &[EventAndDistance]) { self.d.events() }
    fn trace(&self) -> [&[ExternalDottedRule]; 3] { self.d.trace() }
    fn get_rhs1(&self, dot: Dot) -> Option<Symbol> { if (dot as usize) < self.d.columns[1].syms.len() { self.d.get_rhs1(dot) } else { stop_() } }
    fn rhs1(&self) -> &[Option<Symbol>] { self.d.rhs1() }
    fn get_lhs(&self, dot: Dot) -> Symbol { if self.rule_(dot) { self.d.get_lhs(dot) } else { stop_() } }
    fn external_origin(&self, dot: Dot) -> ExternalOrigin { if (dot as usize) < self.d.forest_info.eval.len() { self.d.external_origin(dot) } else { stop_() } }
    fn eliminated_nulling_intermediate(&self) -> &[NullingIntermediateRule] { self.d.eliminated_nulling_intermediate() }
    fn completions(&self, sym: Symbol) -> &[PredictionTransition] {
        proof { use_type_invariant(self); }
        if sym.usize() < self.d.size.syms { self.d.completions(sym) } else { stop_() }
    }
    fn gen_completion(&self, sym: Symbol) -> [Option<PredictionTransition>; 2] {
        proof { use_type_invariant(self); }
        if self.d.size.syms <= sym.usize() && sym.usize() - self.d.size.syms < self.d.gen_completions.len() { self.d.gen_completion(sym) } else { stop_() }
    }
    fn to_internal(&self, symbol: Symbol) -> Option<Symbol> { if self.d.sym_maps.to_internal.len() == 0 || symbol.usize() < self.d.sym_maps.to_internal.len() { self.d.to_internal(symbol) } else { stop_() } }
    fn to_external(&self, symbol: Symbol) -> Symbol { if self.d.sym_maps.to_external.len() == 0 || symbol.usize() < self.d.sym_maps.to_external.len() { self.d.to_external(symbol) } else { stop_() } }
    fn dot_before_eof(&self) -> Dot { self.d.dot_before_eof() }
    fn useless_symbol(&self) -> Symbol { self.d.useless_symbol() }
    fn forest_info(&self) -> ForestInfo { self.d.forest_info() }
}
impl Table {
    fn rule_(&self, dot: Dot) -> (r: bool) ensures r == is_rule(self.d, dot as int) {
        (dot as usize) < self.d.columns[0].syms.len() && (dot as usize) < self.d.columns[1].syms.len() && self.d.columns[0].syms[dot as usize].is_some()
    }
}

// ---- from the shape of the rule list to the promises of the tables ----
/// What the rule list is (beside `processed`): the root stands in no rule; one rule ends with the end of input and makes the root; what stands second is a
/// user's symbol or the end of input, which has the least number of these; no symbol derives itself by unary rules; a symbol of the binariser begins at most one unary rule;
/// the rules of what the root begins with stand together, and each begins with the start of input, which has no rules.
pub ghost struct Shape { pub top: int, pub rank: spec_fn(Symbol) -> nat }
pub open spec fn formed(g: Cfg, n: int, z: Shape) -> bool {
    let L = g.list(); let w = g.s_wrapped()[0];
    &&& w.root.id() < g.s_num_syms() && forall|k: int, i: int| 0 <= k < L.len() && 0 <= i < L[k].rhs@.len() ==> #[trigger] L[k].rhs@[i] != w.root
    &&& 0 <= z.top < L.len() && L[z.top].lhs == w.root && forall|k: int| 0 <= k < L.len() ==> #[trigger] ends_input(g, k) == (k == z.top)
    &&& forall|k: int| 0 <= k < L.len() && (#[trigger] L[k]).rhs@.len() == 2 ==> L[k].rhs@[1].id() >= w.end_of_input.id()
    &&& forall|k: int| 0 <= k < L.len() && (#[trigger] L[k]).rhs@.len() == 1 ==> (z.rank)(L[k].lhs) < (z.rank)(L[k].rhs@[0])
    &&& forall|j: int, k: int| 0 <= j < L.len() && 0 <= k < L.len() && (#[trigger] L[j]).rhs@.len() == 1 && (#[trigger] L[k]).rhs@.len() == 1 && L[j].rhs@[0] == L[k].rhs@[0] && L[j].rhs@[0].id() >= n ==> j == k
    &&& forall|k: int| 0 <= k < L.len() ==> (#[trigger] L[k]).lhs != w.start_of_input && (L[k].lhs == L[z.top].rhs@[0] ==> L[k].rhs@[0] == w.start_of_input)
    &&& forall|i: int, j: int, k: int| 0 <= i < j < k < L.len() && (#[trigger] L[i]).lhs == L[z.top].rhs@[0] && (#[trigger] L[k]).lhs == L[z.top].rhs@[0] ==> (#[trigger] L[j]).lhs == L[z.top].rhs@[0]
}
pub proof fn lemma_made(d: DefaultGrammar, g: Cfg, n: int, maps: Mapping, nul: Rules)
    requires compiled(d, g, n, maps, nul), processed(g, n)
    ensures made(d)
{}
pub proof fn lemma_cnt_some(g: Rules, k: int, x: int, w: int, j: int)
    requires 0 <= j < k <= g.len(), counts(g[j], x, w)
    ensures cnt(g, k, x, w) >= 1
    decreases k
{ lemma_cnt(g, k - 1, x, w); if j < k - 1 { lemma_cnt_some(g, k - 1, x, w, j); } }
pub proof fn lemma_cnt_two(g: Rules, k: int, x: int, w: int, i: int, j: int)
    requires 0 <= i < j < k <= g.len(), counts(g[i], x, w), counts(g[j], x, w)
    ensures cnt(g, k, x, w) >= 2
    decreases k
{ if j < k - 1 { lemma_cnt_two(g, k - 1, x, w, i, j); } else { lemma_cnt_some(g, k - 1, x, w, i); } }
/// Rule `j` is on the list of `x`.
pub open spec fn on(g: Rules, j: int, x: int, u: bool) -> bool { g[j].rhs@[0].id() == x && (g[j].rhs@.len() == 1) == u }
pub open spec fn is_tr(g: Rules, c: Chain, k: int, x: int, u: bool, e: PredictionTransition) -> bool { e.dot < k && on(g, e.dot as int, x, u) && e == trans(g[e.dot as int], (c.vis)(g[e.dot as int].lhs), e.dot as int) }
pub proof fn lemma_lst(g: Rules, c: Chain, k: int, x: int, u: bool)
    requires 0 <= k <= g.len() < 0x8000_0000
    ensures
        forall|i: int| 0 <= i < lst(g, c, k, x, u).len() ==> is_tr(g, c, k, x, u, #[trigger] lst(g, c, k, x, u)[i]),
        forall|i: int, j: int| 0 <= i < j < lst(g, c, k, x, u).len() ==> (#[trigger] lst(g, c, k, x, u)[i]).dot < (#[trigger] lst(g, c, k, x, u)[j]).dot,
        forall|j: int| 0 <= j < k && #[trigger] on(g, j, x, u) ==> exists|i: int| 0 <= i < lst(g, c, k, x, u).len() && (#[trigger] lst(g, c, k, x, u)[i]).dot == j,
    decreases k
{
    if k > 0 {
        lemma_lst(g, c, k - 1, x, u);
        let t = lst(g, c, k - 1, x, u); let s = lst(g, c, k, x, u);
        assert forall|i: int| 0 <= i < s.len() implies is_tr(g, c, k, x, u, #[trigger] s[i]) by { if i < t.len() { assert(s[i] == t[i]); assert(is_tr(g, c, k - 1, x, u, t[i])); } else { assert(on(g, k - 1, x, u)); } }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).dot < (#[trigger] s[j]).dot by { assert(s[i] == t[i]); assert(is_tr(g, c, k - 1, x, u, t[i])); if j < t.len() { assert(s[j] == t[j]); } }
        assert forall|j: int| 0 <= j < k && #[trigger] on(g, j, x, u) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).dot == j by {
            if j < k - 1 { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).dot == j; assert(s[i] == t[i]); } else { assert(s[t.len() as int].dot == j); }
        }
    }
}
/// A binariser's symbol begins at most one rule of each kind.
pub proof fn lemma_single(g: Cfg, n: int, z: Shape, i: int, j: int, x: int, u: bool)
    requires processed(g, n), formed(g, n, z), 0 <= i < g.list().len(), 0 <= j < g.list().len(), on(g.list(), i, x, u), on(g.list(), j, x, u), x >= n
    ensures i == j
{
    let L = g.list(); let c = chain(L, n); assert(chain_ok(L, n, c));
    if i != j {
        if u { assert(L[i].rhs@[0] == L[j].rhs@[0]); }
        else {
            assert(L[i].rhs@.len() == 2 && L[j].rhs@.len() == 2) by { assert(shape(L)); }
            assert(L[i].lhs != L[i].rhs@[0] && L[j].lhs != L[j].rhs@[0]);
            assert(counts(L[i], x, 1) && counts(L[j], x, 1));
            if i < j { lemma_cnt_two(L, L.len() as int, x, 1, i, j); } else { lemma_cnt_two(L, L.len() as int, x, 1, j, i); }
            assert(x < g.s_num_syms()); assert(is_gen(L, x));
        }
    }
}
/// What stands second is a user's symbol, or the end of input.
pub proof fn lemma_second(g: Cfg, n: int, k: int)
    requires processed(g, n), 0 <= k < g.list().len(), g.list()[k].rhs@.len() == 2
    ensures g.list()[k].rhs@[1].id() < n
{
    let L = g.list(); let x = L[k].rhs@[1].id(); assert(counts(L[k], x, 2)); lemma_cnt_some(L, L.len() as int, x, 2, k);
    assert(x < g.s_num_syms()); assert(!is_gen(L, x));
}
pub proof fn lemma_root(g: Cfg, n: int, z: Shape)
    requires processed(g, n), formed(g, n, z)
    ensures g.s_wrapped()[0].root.id() < n, g.s_wrapped()[0].end_of_input.id() < n, g.list()[z.top].rhs@.len() == 2, g.list()[z.top].rhs@[1] == g.s_wrapped()[0].end_of_input,
        g.s_wrapped()[0].root != g.s_wrapped()[0].end_of_input, g.list()[z.top].rhs@[0] != g.s_wrapped()[0].root
{
    let L = g.list(); let r = g.s_wrapped()[0].root; let k = z.top;
    assert(ends_input(g, k)); assert(L[k].rhs@.len() == 2) by { assert(shape(L)); }
    lemma_second(g, n, k);
    if r.id() >= n {
        assert(is_gen(L, r.id()));
        lemma_never_first(L, L.len() as int, r);
    }
    assert(L[k].rhs@[1] != r && L[k].rhs@[0] != r);
}
pub proof fn lemma_never_first(g: Rules, k: int, r: Symbol)
    requires 0 <= k <= g.len(), forall|k: int, i: int| 0 <= k < g.len() && 0 <= i < g[k].rhs@.len() ==> #[trigger] g[k].rhs@[i] != r
    ensures cnt(g, k, r.id(), 1) == 0
    decreases k
{ if k > 0 { lemma_never_first(g, k - 1, r); let q = g[k - 1]; if counts(q, r.id(), 1) { assert(q.rhs@[0] != r); assert(q.rhs@[0].id() == r.id()); } } }
/// The lists and slots of a compiled grammar are the rules that begin with the symbol.
pub open spec fn begins(g: Cfg, n: int, b: Symbol, d: Dot, y: Symbol) -> bool { d < g.list().len() && g.list()[d as int].rhs@[0] == b && y == (chain(g.list(), n).vis)(g.list()[d as int].lhs) }
pub open spec fn of_rules(t: Table, g: Cfg, n: int) -> bool { exists|maps: Mapping, nul: Rules| #[trigger] compiled(t.of(), g, n, maps, nul) }
pub proof fn lemma_comps(t: Table, g: Cfg, n: int, z: Shape, b: Symbol)
    requires of_rules(t, g, n), processed(g, n), formed(g, n, z)
    ensures
        forall|i: int| 0 <= i < t.s_completions(b).len() ==> is_tr(g.list(), chain(g.list(), n), g.list().len() as int, b.id(), (#[trigger] t.s_completions(b)[i]).is_unary, t.s_completions(b)[i]),
        forall|i: int, j: int| 0 <= i < j < t.s_completions(b).len() ==> (#[trigger] t.s_completions(b)[i]).dot != (#[trigger] t.s_completions(b)[j]).dot,
        binary_first(t.s_completions(b)),
        b.id() < n ==> forall|j: int, u: bool| 0 <= j < g.list().len() && #[trigger] on(g.list(), j, b.id(), u) ==> exists|i: int| 0 <= i < t.s_completions(b).len() && (#[trigger] t.s_completions(b)[i]).dot == j,
{
    let L = g.list(); let c = chain(L, n); let k = L.len() as int; let x = b.id(); let s = t.s_completions(b); let d = t.of();
    if x < n {
        let a = lst(L, c, k, x, false); let e = lst(L, c, k, x, true);
        assert(v_sets(d.completions)[x] == listings(L, n, x)); assert(s == a + e);
        lemma_lst(L, c, k, x, false); lemma_lst(L, c, k, x, true);
        assert forall|i: int| 0 <= i < s.len() implies is_tr(L, c, k, x, (#[trigger] s[i]).is_unary, s[i]) by { if i < a.len() { assert(s[i] == a[i]); assert(is_tr(L, c, k, x, false, a[i])); } else { assert(s[i] == e[i - a.len()]); assert(is_tr(L, c, k, x, true, e[i - a.len()])); } }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).dot != (#[trigger] s[j]).dot by {
            if j < a.len() { assert(s[i] == a[i] && s[j] == a[j]); } else if i >= a.len() { assert(s[i] == e[i - a.len()] && s[j] == e[j - a.len()]); }
            else { assert(s[i] == a[i] && s[j] == e[j - a.len()]); assert(is_tr(L, c, k, x, false, a[i])); assert(is_tr(L, c, k, x, true, e[j - a.len()])); }
        }
        assert forall|i: int, j: int| 0 <= i <= j < s.len() implies ((#[trigger] s[i]).is_unary ==> (#[trigger] s[j]).is_unary) by {
            if i < a.len() { assert(s[i] == a[i]); assert(is_tr(L, c, k, x, false, a[i])); } else { assert(s[j] == e[j - a.len()]); assert(is_tr(L, c, k, x, true, e[j - a.len()])); }
        }
        assert forall|j: int, u: bool| 0 <= j < k && #[trigger] on(L, j, x, u) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).dot == j by {
            if u { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).dot == j; assert(s[a.len() + i] == e[i]); } else { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).dot == j; assert(s[i] == a[i]); }
        }
    }
}
pub proof fn lemma_slots(t: Table, g: Cfg, n: int, z: Shape, b: Symbol)
    requires of_rules(t, g, n), processed(g, n), formed(g, n, z)
    ensures t.s_gen_completion(b).len() == 2,
        forall|i: int| 0 <= i < 2 && (#[trigger] t.s_gen_completion(b)[i]) is Some ==> is_tr(g.list(), chain(g.list(), n), g.list().len() as int, b.id(), i == 1, t.s_gen_completion(b)[i]->0),
        b.id() >= n ==> forall|j: int, u: bool| 0 <= j < g.list().len() && #[trigger] on(g.list(), j, b.id(), u) ==> (t.s_gen_completion(b)[if u { 1 } else { 0 }] is Some && (t.s_gen_completion(b)[if u { 1 } else { 0 }]->0).dot == j),
{
    let L = g.list(); let c = chain(L, n); let k = L.len() as int; let x = b.id(); let d = t.of();
    if n <= x < g.s_num_syms() {
        let v = d.gen_completions@[x - n]@; let a = lst(L, c, k, x, false); let e = lst(L, c, k, x, true);
        assert(v[0] == slot(L, n, n + (x - n), false) && v[1] == slot(L, n, n + (x - n), true));
        assert(t.s_gen_completion(b) == v);
        lemma_lst(L, c, k, x, false); lemma_lst(L, c, k, x, true);
        if a.len() > 0 { assert(is_tr(L, c, k, x, false, a[a.len() - 1])); }
        if e.len() > 0 { assert(is_tr(L, c, k, x, true, e[e.len() - 1])); }
        assert forall|j: int, u: bool| 0 <= j < k && #[trigger] on(L, j, x, u) implies (v[if u { 1 } else { 0 }] is Some && (v[if u { 1 } else { 0 }]->0).dot == j) by {
            if u { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).dot == j; lemma_single(g, n, z, j, e[e.len() - 1].dot as int, x, true); }
            else { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).dot == j; lemma_single(g, n, z, j, a[a.len() - 1].dot as int, x, false); }
        }
    }
    assert forall|j: int, u: bool| 0 <= j < k && #[trigger] on(L, j, x, u) implies x < g.s_num_syms() by { assert(shape(L)); assert(L[j].rhs@[0].id() < g.s_num_syms()); }
}
pub proof fn lemma_starts(t: Table, g: Cfg, n: int, z: Shape)
    requires of_rules(t, g, n), processed(g, n), formed(g, n, z)
    ensures forall|b: Symbol, d: Dot, y: Symbol| #[trigger] starts_in(t, b, d, y) == begins(g, n, b, d, y), forall|b: Symbol, d: Dot| #[trigger] starts(t, b, d) == (d < g.list().len() && g.list()[d as int].rhs@[0] == b)
{
    let L = g.list(); let c = chain(L, n); let k = L.len() as int;
    assert forall|b: Symbol, d: Dot, y: Symbol| #[trigger] starts_in(t, b, d, y) == begins(g, n, b, d, y) by {
        lemma_comps(t, g, n, z, b); lemma_slots(t, g, n, z, b);
        assert(t.s_num_syms() == n);
        if b.id() >= n {
            if starts_in(t, b, d, y) { let i = choose|i: int| 0 <= i < 2 && (#[trigger] t.s_gen_completion(b)[i]) is Some && (t.s_gen_completion(b)[i]->0).dot == d && (t.s_gen_completion(b)[i]->0).symbol == y; assert(is_tr(L, c, k, b.id(), i == 1, t.s_gen_completion(b)[i]->0)); }
            if begins(g, n, b, d, y) { let u = L[d as int].rhs@.len() == 1; assert(on(L, d as int, b.id(), u)); let i = if u { 1int } else { 0 }; assert(t.s_gen_completion(b)[i] is Some); assert(is_tr(L, c, k, b.id(), i == 1, t.s_gen_completion(b)[i]->0)); }
        } else {
            let s = t.s_completions(b);
            if starts_in(t, b, d, y) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).dot == d && s[i].symbol == y; assert(is_tr(L, c, k, b.id(), s[i].is_unary, s[i])); }
            if begins(g, n, b, d, y) { let u = L[d as int].rhs@.len() == 1; assert(on(L, d as int, b.id(), u)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).dot == d; assert(is_tr(L, c, k, b.id(), s[i].is_unary, s[i])); }
        }
    }
    assert forall|b: Symbol, d: Dot| #[trigger] starts(t, b, d) == (d < g.list().len() && g.list()[d as int].rhs@[0] == b) by {
        if d < g.list().len() && g.list()[d as int].rhs@[0] == b { assert(starts_in(t, b, d, (c.vis)(L[d as int].lhs)) == begins(g, n, b, d, (c.vis)(L[d as int].lhs))); }
        if starts(t, b, d) { let y = choose|y: Symbol| #[trigger] starts_in(t, b, d, y); assert(begins(g, n, b, d, y)); }
    }
}
/// The rows are reflexive and transitive.
pub proof fn lemma_path_cat(e: spec_fn(int, int) -> bool, i: int, j: int, k: int)
    requires path(e, i, j), path(e, j, k)
    ensures path(e, i, k)
{
    let p = choose|p: Seq<int>| #[trigger] walk(e, p, i, j); let q = choose|q: Seq<int>| #[trigger] walk(e, q, j, k);
    let r = p + q.skip(1);
    assert(walk(e, r, i, k)) by {
        assert(r.last() == q.last());
        assert forall|m: int| 0 <= m < r.len() - 1 implies e(#[trigger] r[m], r[m + 1]) by { if m < p.len() - 1 { assert(e(p[m], p[m + 1])); } else { let x = m - p.len() + 1; assert(r[m] == q[x]); assert(r[m + 1] == q[x + 1]); assert(e(q[x], q[x + 1])); } }
    }
}
pub open spec fn edges(g: Cfg, n: int) -> spec_fn(int, int) -> bool { |a: int, b: int| edge(g.list(), n, g.list().len() as int, a, b) }
pub proof fn lemma_predicts(g: Cfg, n: int, i: int, j: int, k: int)
    requires predicts(g.list(), n, i, j), predicts(g.list(), n, j, k)
    ensures predicts(g.list(), n, i, k)
{ let e = edges(g, n); let f = |a: int, b: int| edge(g.list(), n, g.list().len() as int, a, b); if i != j && j != k && i != k { lemma_path_cat(f, i, j, k); } }
pub proof fn lemma_edge(g: Cfg, n: int, i: int, j: int)
    requires edge(g.list(), n, g.list().len() as int, i, j)
    ensures predicts(g.list(), n, i, j)
{ let f = |a: int, b: int| edge(g.list(), n, g.list().len() as int, a, b); assert(walk(f, seq![i, j], i, j)); }
/// The row that a query answers with, by symbol number.
pub open spec fn row_of(t: Table, s: Symbol) -> int { if s.id() < t.of().size.syms { s.id() } else { t.of().eof_sym.id() } }
pub proof fn lemma_rows(t: Table, g: Cfg, n: int, z: Shape)
    requires of_rules(t, g, n), processed(g, n), formed(g, n, z)
    ensures rows_ok(t), forall|s: Symbol, j: int| (#[trigger] t.s_prediction_row(s).has(j)) == predicts(g.list(), n, row_of(t, s), j), forall|s: Symbol| 0 <= #[trigger] row_of(t, s) < n
{
    let d = t.of(); let L = g.list(); lemma_root(g, n, z);
    assert(d.eof_sym == g.s_wrapped()[0].end_of_input);
    let m = d.prediction_matrix;
    assert forall|s: Symbol| (#[trigger] t.s_prediction_row(s)) == m.rows()[row_of(t, s)] && 0 <= row_of(t, s) < n && t.s_prediction_row(s).blocks@.len() == (n + 31) / 32 by { assert(m.wf()); }
    assert forall|s: Symbol, j: int| (#[trigger] t.s_prediction_row(s).has(j)) == predicts(L, n, row_of(t, s), j) by { assert(m.rows()[row_of(t, s)].has(j) == predicts(L, n, row_of(t, s), j)); }
    assert forall|s: Symbol, u: Symbol, b: int| #[trigger] t.s_prediction_row(s).has(u.id()) && #[trigger] t.s_prediction_row(u).has(b) implies t.s_prediction_row(s).has(b) by { assert(row_of(t, u) == u.id()); lemma_predicts(g, n, row_of(t, s), u.id(), b); }
}
pub proof fn lemma_linked(t: Table, g: Cfg, n: int, z: Shape)
    requires of_rules(t, g, n), processed(g, n), formed(g, n, z)
    ensures linked(t)
{
    let L = g.list(); let c = chain(L, n); assert(chain_ok(L, n, c)); let d = t.of();
    lemma_rows(t, g, n, z); lemma_starts(t, g, n, z); lemma_root(g, n, z);
    assert(t.s_num_syms() == n);
    // stepping from a visible left side to what its rule begins with
    assert forall|s: Symbol, b: Symbol, k: Dot, y: Symbol| #![trigger starts_in(t, b, k, y), t.s_prediction_row(s)] starts_in(t, b, k, y) && t.s_prediction_row(s).has(y.id()) implies pre(t, t.s_prediction_row(s), b) by {
        assert(begins(g, n, b, k, y));
        if b.id() < n { assert(predicts(L, n, row_of(t, s), y.id())); assert(edge(L, n, L.len() as int, y.id(), b.id())) by { assert(L[k as int].rhs@[0].id() == b.id()); } lemma_edge(g, n, y.id(), b.id()); lemma_predicts(g, n, row_of(t, s), y.id(), b.id()); assert(t.s_prediction_row(s).has(b.id())); }
    }
    assert forall|s: Symbol, b: Symbol, k: Dot| #![trigger starts(t, b, k), t.s_prediction_row(s)] starts(t, b, k) && pre(t, t.s_prediction_row(s), t.s_get_lhs(k)) implies pre(t, t.s_prediction_row(s), b) && exists|y: Symbol| #[trigger] starts_in(t, b, k, y) && t.s_prediction_row(s).has(y.id()) by {
        let q = L[k as int]; let l = q.lhs; let y = (c.vis)(l);
        assert(is_rule(d, k as int)); assert(t.s_get_lhs(k) == l);
        assert(begins(g, n, b, k, y)); assert(starts_in(t, b, k, y));
        if l.id() < n { assert(y == l); }
        else { let (e, x) = choose|e: Dot, x: Symbol| #[trigger] starts_in(t, l, e, x) && t.s_prediction_row(s).has(x.id()); assert(begins(g, n, l, e, x)); assert(L[e as int].rhs@[0].id() >= n); assert(x == y); }
        assert(t.s_prediction_row(s).has(y.id()));
    }
    assert forall|s: Symbol| s.id() < n implies (#[trigger] t.s_prediction_row(s)).has(s.id()) by { assert(row_of(t, s) == s.id()); assert(predicts(L, n, s.id(), s.id())); }
    assert forall|k: Dot| (#[trigger] post(t, k)) is Some implies (post(t, k)->0).id() < n by { assert(k < L.len()); assert(shape(L)); lemma_second(g, n, k as int); }
}
pub proof fn lemma_ends(t: Table, g: Cfg, n: int, z: Shape)
    requires of_rules(t, g, n), processed(g, n), formed(g, n, z)
    ensures eof_ok(t), t.s_dot_before_eof() == z.top
{
    let L = g.list(); let c = chain(L, n); assert(chain_ok(L, n, c)); let d = t.of(); let r = g.s_wrapped()[0].root; let e = g.s_wrapped()[0].end_of_input;
    lemma_rows(t, g, n, z); lemma_starts(t, g, n, z); lemma_root(g, n, z);
    let d0 = t.s_dot_before_eof(); assert(ends_input(g, d0 as int)); assert(d0 == z.top); assert(t.s_start_sym() == r);
    assert forall|b: Symbol, y: Symbol| #[trigger] starts_in(t, b, d0, y) implies y == r by { assert(begins(g, n, b, d0, y)); }
    assert forall|s: Symbol| (#[trigger] t.s_prediction_row(s)).has(r.id()) implies s == r by {
        let i = row_of(t, s); assert(predicts(L, n, i, r.id()));
        if i != r.id() {
            let f = |a: int, b: int| edge(L, n, L.len() as int, a, b); let p = choose|p: Seq<int>| #[trigger] walk(f, p, i, r.id()); let m = p.len() - 2; assert(f(p[m], p[m + 1]));
            let q = choose|q: int| 0 <= q < L.len() && (#[trigger] L[q]).rhs@[0].id() == r.id() && (c.vis)(L[q].lhs).id() == p[m]; assert(shape(L)); assert(L[q].rhs@[0] == r);
        }
    }
    assert forall|k: Dot| #[trigger] post(t, k) != Some(r) by { if post(t, k) is Some { assert(k < L.len()); assert(shape(L)); assert(L[k as int].rhs@[1] != r); } }
    assert(post(t, d0) == Some(e));
    assert forall|k: Dot| (#[trigger] post(t, k)) is Some implies (post(t, k)->0).id() >= e.id() && ((post(t, k)->0).id() == e.id() ==> k == d0) by { assert(k < L.len()); assert(shape(L)); if (post(t, k)->0).id() == e.id() { assert(ends_input(g, k as int)); } }
}
// ---- an order of the rules ----
/// Rule `j` comes before rule `k`.
pub open spec fn before(g: Rules, rank: spec_fn(Symbol) -> nat, j: int, k: int) -> bool { rank(g[j].lhs) < rank(g[k].lhs) || (rank(g[j].lhs) == rank(g[k].lhs) && j < k) }
/// How many of the first `m` rules come before rule `k`.
pub open spec fn ahead(g: Rules, rank: spec_fn(Symbol) -> nat, m: int, k: int) -> nat decreases m { if m <= 0 { 0 } else { ahead(g, rank, m - 1, k) + (if before(g, rank, m - 1, k) { 1nat } else { 0 }) } }
pub proof fn lemma_ahead(g: Rules, rank: spec_fn(Symbol) -> nat, m: int, j: int, k: int)
    requires 0 <= m, before(g, rank, j, k)
    ensures ahead(g, rank, m, j) + (if 0 <= j < m { 1int } else { 0 }) <= ahead(g, rank, m, k) <= m
    decreases m
{ if m > 0 { lemma_ahead(g, rank, m - 1, j, k); } }
pub proof fn lemma_ahead_le(g: Rules, rank: spec_fn(Symbol) -> nat, m: int, k: int)
    requires 0 <= m
    ensures ahead(g, rank, m, k) + (if 0 <= k < m { 1int } else { 0 }) <= m
    decreases m
{ if m > 0 { lemma_ahead_le(g, rank, m - 1, k); } }
pub open spec fn place(g: Rules, rank: spec_fn(Symbol) -> nat, d: Dot) -> nat { if d < g.len() { ahead(g, rank, g.len() as int, d as int) } else { d as nat } }
pub proof fn lemma_acyclic(t: Table, g: Cfg, n: int, z: Shape)
    requires of_rules(t, g, n), processed(g, n), formed(g, n, z)
    ensures acyclic(t)
{
    let L = g.list(); let c = chain(L, n); let m = L.len() as int; let pos = |d: Dot| place(L, z.rank, d); let r = g.s_wrapped()[0].root;
    assert forall|d: Dot| #[trigger] pos(d) < 0x1_0000_0000 && (d < m ==> pos(d) < m) by { if d < m { lemma_ahead_le(L, z.rank, m, d as int); } }
    assert forall|d: Dot, e: Dot| #[trigger] pos(d) == #[trigger] pos(e) implies d == e by {
        if d < m && e < m { if before(L, z.rank, d as int, e as int) { lemma_ahead(L, z.rank, m, d as int, e as int); } if before(L, z.rank, e as int, d as int) { lemma_ahead(L, z.rank, m, e as int, d as int); } }
        else if d < m { lemma_ahead_le(L, z.rank, m, d as int); } else if e < m { lemma_ahead_le(L, z.rank, m, e as int); }
    }
    // a rule that begins with what rule `d` makes
    assert forall|d: Dot, k: int| 0 <= k < m && #[trigger] on(L, k, t.s_get_lhs(d).id(), true) implies #[trigger] pos(k as u32) < pos(d) by {
        assert(shape(L)); assert(L[k].rhs@[0] == t.s_get_lhs(d));
        if d < m { assert(is_rule(t.of(), d as int)); assert((z.rank)(L[k].lhs) < (z.rank)(L[d as int].lhs)); lemma_ahead(L, z.rank, m, k, d as int); } else { assert(t.s_get_lhs(d) == r); }
    }
    assert forall|d: Dot, i: int| 0 <= i < t.s_completions(t.s_get_lhs(d)).len() && (#[trigger] t.s_completions(t.s_get_lhs(d))[i]).is_unary implies pos(t.s_completions(t.s_get_lhs(d))[i].dot) < pos(d) by {
        let b = t.s_get_lhs(d); lemma_comps(t, g, n, z, b); let e = t.s_completions(b)[i]; assert(is_tr(L, c, m, b.id(), e.is_unary, e)); assert(on(L, e.dot as int, b.id(), true)); assert((e.dot as int) as u32 == e.dot);
    }
    assert forall|d: Dot| (#[trigger] t.s_gen_completion(t.s_get_lhs(d)))[1] is Some implies pos((t.s_gen_completion(t.s_get_lhs(d))[1]->0).dot) < pos(d) by {
        let b = t.s_get_lhs(d); lemma_slots(t, g, n, z, b); let e = t.s_gen_completion(b)[1]->0; assert(is_tr(L, c, m, b.id(), true, e)); assert(on(L, e.dot as int, b.id(), true)); assert((e.dot as int) as u32 == e.dot);
    }
    assert(orders(t, pos));
}
/// A compiled grammar keeps every promise that the theorems on the recognizer ask for.
pub proof fn theorem_compiled(t: Table, g: Cfg, n: int, z: Shape)
    requires of_rules(t, g, n), processed(g, n), formed(g, n, z)
    ensures promises(t), lone(t), topped(t, g.list()[z.top].rhs@[0], t.s_sof())
{
    let L = g.list(); let c = chain(L, n); let b = L[z.top].rhs@[0]; let m = L.len() as int;
    lemma_rows(t, g, n, z); lemma_linked(t, g, n, z); lemma_ends(t, g, n, z); lemma_acyclic(t, g, n, z); lemma_starts(t, g, n, z); lemma_root(g, n, z);
    assert forall|s: Symbol| binary_first(#[trigger] t.s_completions(s)) by { lemma_comps(t, g, n, z, s); }
    assert forall|s: Symbol, i: int| 0 <= i < t.s_completions(s).len() implies (#[trigger] t.s_completions(s)[i]).is_unary == (post(t, t.s_completions(s)[i].dot) is None) by {
        lemma_comps(t, g, n, z, s); let e = t.s_completions(s)[i]; assert(is_tr(L, c, m, s.id(), e.is_unary, e)); assert(shape(L)); assert(L[e.dot as int].rhs@.len() >= 1);
    }
    assert forall|s: Symbol| (#[trigger] t.s_gen_completion(s)).len() == 2 && (t.s_gen_completion(s)[0] is Some ==> post(t, (t.s_gen_completion(s)[0]->0).dot) is Some) && (t.s_gen_completion(s)[1] is Some ==> post(t, (t.s_gen_completion(s)[1]->0).dot) is None) by {
        lemma_slots(t, g, n, z, s); assert(shape(L));
        if t.s_gen_completion(s)[0] is Some { let e = t.s_gen_completion(s)[0]->0; assert(is_tr(L, c, m, s.id(), false, e)); assert(L[e.dot as int].rhs@.len() >= 1); }
        if t.s_gen_completion(s)[1] is Some { let e = t.s_gen_completion(s)[1]->0; assert(is_tr(L, c, m, s.id(), true, e)); assert(L[e.dot as int].rhs@.len() >= 1); }
    }
    assert forall|s: Symbol, i: int, j: int| 0 <= i < j < t.s_completions(s).len() implies (#[trigger] t.s_completions(s)[i]).dot != (#[trigger] t.s_completions(s)[j]).dot by { lemma_comps(t, g, n, z, s); }
    assert forall|d: Dot| #[trigger] t.s_get_lhs(d) == (if d < m { L[d as int].lhs } else { g.s_wrapped()[0].root }) by { if d < m { assert(is_rule(t.of(), d as int)); } }
    assert(terminal(t, t.s_sof())) by { assert forall|d: Dot| #[trigger] t.s_get_lhs(d) != t.s_sof() by { assert(L[z.top].lhs != t.s_sof()); } }
    assert forall|d: Dot, e: Dot, f: Dot| d < e < f && #[trigger] t.s_get_lhs(d) == b && #[trigger] t.s_get_lhs(f) == b implies #[trigger] t.s_get_lhs(e) == b by { assert(f < m); assert(L[d as int].lhs == b && L[f as int].lhs == b); assert(L[e as int].lhs == b); }
    assert forall|x: Symbol, d: Dot| #[trigger] starts(t, x, d) && t.s_get_lhs(d) == b implies x == t.s_sof() by { }
}
/// What FIRST and FOLLOW, as the cfg crate computes them, are closed under.
pub open spec fn closure(g: Cfg, n: int) -> bool {
    let L = g.list();
    &&& forall|x: Symbol, t: Symbol| #[trigger] predicts(L, n, x.id(), t.id()) && (forall|k: int| 0 <= k < L.len() ==> (#[trigger] L[k]).lhs != t) && x != t ==> #[trigger] first(L, x, t)
    &&& forall|k: int, t: Symbol| 0 <= k < L.len() && #[trigger] L[k].rhs@.len() == 2 && #[trigger] predicts(L, n, L[k].rhs@[1].id(), t.id()) && (forall|j: int| 0 <= j < L.len() ==> (#[trigger] L[j]).lhs != t) ==> follow(L, L[k].rhs@[0], t)
    &&& forall|k: int, t: Symbol| 0 <= k < L.len() && #[trigger] follow(L, L[k].lhs, t) ==> follow(L, L[k].rhs@.last(), t)
}
pub open spec fn follows(g: Cfg, n: int) -> spec_fn(Symbol, Symbol) -> bool { |x: Symbol, t: Symbol| t.id() < n && follow(g.list(), x, t) }
pub proof fn theorem_look(t: Table, g: Cfg, n: int, z: Shape)
    requires of_rules(t, g, n), processed(g, n), formed(g, n, z), closure(g, n)
    ensures look_ok(t, follows(g, n))
{
    let L = g.list(); let m = L.len() as int; let d = t.of(); let fol = follows(g, n);
    lemma_rows(t, g, n, z); lemma_linked(t, g, n, z); lemma_starts(t, g, n, z); lemma_root(g, n, z);
    assert forall|k: Dot| #[trigger] t.s_get_lhs(k) == (if k < m { L[k as int].lhs } else { g.s_wrapped()[0].root }) by { if k < m { assert(is_rule(d, k as int)); } }
    assert forall|x: Symbol| terminal(t, x) implies forall|k: int| 0 <= k < m ==> (#[trigger] L[k]).lhs != x by { assert forall|k: int| 0 <= k < m implies (#[trigger] L[k]).lhs != x by { assert(t.s_get_lhs(k as u32) == L[k].lhs); } }
    assert forall|k: Dot| (#[trigger] post(t, k)) is Some implies k < m && L[k as int].rhs@.len() == 2 && post(t, k)->0 == L[k as int].rhs@[1] by { assert(shape(L)); }
    assert forall|x: Symbol, y: Symbol| x.id() < n && y.id() < n implies (#[trigger] d.lr_sets.rows()[x.id() * 2].has(y.id())) == (x == y || first(L, x, y)) && (#[trigger] d.lr_sets.rows()[x.id() * 2 + 1].has(y.id())) == follow(L, x, y) by {
        let r = x.id() * 2; assert(r / 2 == x.id() && r % 2 == 0 && (r + 1) / 2 == x.id() && (r + 1) % 2 == 1);
        assert(d.lr_sets.rows()[r].has(y.id()) == lr_row(L, n, r / 2, r % 2 == 1, y.id())); assert(d.lr_sets.rows()[r + 1].has(y.id()) == lr_row(L, n, (r + 1) / 2, (r + 1) % 2 == 1, y.id()));
        assert(sym(x.id()) == x && sym(y.id()) == y);
    }
    assert forall|k: Dot, x: Symbol| #![trigger t.s_lookahead_set(k), terminal(t, x)] terminal(t, x) && post(t, k) is Some && t.s_prediction_row(post(t, k)->0).has(x.id()) implies t.s_lookahead_set(k).has(x.id()) by {
        let c = post(t, k)->0; assert(predicts(L, n, row_of(t, c), x.id())); assert(row_of(t, c) == c.id()); assert(d.lr_sets.rows()[c.id() * 2].has(x.id()) == (c == x || first(L, c, x)));
    }
    assert forall|b: Symbol, k: Dot, x: Symbol| #![trigger starts(t, b, k), terminal(t, x)] starts(t, b, k) && terminal(t, x) && post(t, k) is Some && t.s_prediction_row(post(t, k)->0).has(x.id()) implies fol(b, x) by {
        let c = post(t, k)->0; assert(predicts(L, n, row_of(t, c), x.id())); assert(row_of(t, c) == c.id()); assert(L[k as int].rhs@.len() == 2);
    }
    assert forall|x: Symbol, y: Symbol| x.id() < n && #[trigger] fol(x, y) implies t.s_lhs_lr_set(x).has(y.id()) by { assert(d.lr_sets.rows()[x.id() * 2 + 1].has(y.id()) == follow(L, x, y)); }
    assert forall|k: Dot, y: Symbol| #![trigger t.s_lookahead_set(k), fol(t.s_get_lhs(k), y)] post(t, k) is None && t.s_get_lhs(k).id() < n && fol(t.s_get_lhs(k), y) implies t.s_lookahead_set(k).has(y.id()) by { let x = t.s_get_lhs(k); assert(d.lr_sets.rows()[x.id() * 2 + 1].has(y.id()) == follow(L, x, y)); }
    assert forall|b: Symbol, k: Dot, y: Symbol| #![trigger starts(t, b, k), fol(t.s_get_lhs(k), y)] starts(t, b, k) && fol(t.s_get_lhs(k), y) implies fol(match post(t, k) { Some(c) => c, None => b }, y) by { assert(shape(L)); assert(follow(L, L[k as int].lhs, y)); assert(L[k as int].rhs@.len() >= 1); }
}
/// Compiling: the object that a processed rule list yields, as the recognizer takes it.
pub fn compile_(grammar: Cfg, maps: Mapping, nulling: &Cfg, Ghost(n): Ghost<int>, Ghost(z): Ghost<Shape>) -> (r: Table)
    requires processed(grammar, n), formed(grammar, n, z), mapped(nulling.list(), maps)
    ensures of_rules(r, grammar, n), promises(r), lone(r), topped(r, grammar.list()[z.top].rhs@[0], r.s_sof())
{
    let ghost g = grammar; let ghost nul = nulling.list();
    let d = DefaultGrammar::from_processed_grammars(grammar, maps, nulling);
    proof { assert(compiled(d, g, n, maps, nul)); lemma_made(d, g, n, maps, nul); }
    let r = Table::new(d);
    proof { theorem_compiled(r, g, n, z); }
    r
}
/// A rule list that has the shape: `root -> top eof; top -> sof inner; inner -> tok` (so the theorems are not about nothing).
pub open spec fn ranked(s: Symbol) -> nat { if s.id() == 5 { 1 } else { 0 } }
pub proof fn lemma_example(g: Cfg)
    requires g.s_num_syms() == 6, g.s_roots().len() == 1, g.s_wrapped().len() == 1, g.s_wrapped()[0] == (WrappedRoot { start_of_input: sym(0), inner_root: sym(2), end_of_input: sym(1), root: sym(4) }),
        g.list().len() == 3, g.list()[0].lhs == sym(4), g.list()[0].rhs@ == seq![sym(3), sym(1)], g.list()[1].lhs == sym(3), g.list()[1].rhs@ == seq![sym(0), sym(2)], g.list()[2].lhs == sym(2), g.list()[2].rhs@ == seq![sym(5)],
        dotted(g.list()), forall|k: int| 0 <= k < 3 ==> !(#[trigger] g.list()[k]).history.s_origin().s_is_null()
    ensures processed(g, 6), formed(g, 6, Shape { top: 0, rank: |s: Symbol| ranked(s) })
{
    let L = g.list(); let c = Chain { vis: |s: Symbol| s, rank: |s: Symbol| 0nat };
    assert(chain_ok(L, 6, c));
    assert forall|x: int| 0 <= x < 6 implies #[trigger] is_gen(L, x) == (x >= 6) by { }
    assert(ends_input(g, 0)); assert(!ends_input(g, 1)); assert(!ends_input(g, 2));
    assert(shape(L)); assert(in_range(L, 6));
    let z = Shape { top: 0, rank: |s: Symbol| ranked(s) };
    let w = g.s_wrapped()[0];
    assert(forall|k: int, i: int| 0 <= k < L.len() && 0 <= i < L[k].rhs@.len() ==> #[trigger] L[k].rhs@[i] != w.root);
    assert forall|k: int| 0 <= k < L.len() && (#[trigger] L[k]).rhs@.len() == 1 implies (z.rank)(L[k].lhs) < (z.rank)(L[k].rhs@[0]) by { assert(k == 2); }
}
// ---- derivations by the rules themselves ----
/// `x` derives the tokens from `i` to `j` by the rules of the list, in a derivation of depth at most `m`.
pub open spec fn rder(g: Rules, tok: Tokens, m: nat, x: Symbol, i: int, j: int) -> bool decreases m, 1int {
    m > 0 && ((j == i + 1 && tok(i, x)) || exists|k: int| 0 <= k < g.len() && (#[trigger] g[k]).lhs == x && rule_der(g, tok, m, k, i, j))
}
pub open spec fn rule_der(g: Rules, tok: Tokens, m: nat, k: int, i: int, j: int) -> bool decreases m, 0int {
    m > 0 && if g[k].rhs@.len() == 1 { rder(g, tok, (m - 1) as nat, g[k].rhs@[0], i, j) } else { exists|p: int| #[trigger] mid(p) && rder(g, tok, (m - 1) as nat, g[k].rhs@[0], i, p) && rder(g, tok, (m - 1) as nat, g[k].rhs@[1], p, j) }
}
/// What the tables derive is what the rules derive.
pub proof fn lemma_rder(t: Table, g: Cfg, n: int, z: Shape, tok: Tokens, m: nat, x: Symbol, i: int, j: int)
    requires of_rules(t, g, n), processed(g, n), formed(g, n, z)
    ensures der(t, tok, m, x, i, j) == rder(g.list(), tok, m, x, i, j)
    decreases m, 1int
{
    let L = g.list();
    lemma_starts(t, g, n, z);
    if m > 0 {
        assert forall|k: int| 0 <= k < L.len() implies by_rule(t, tok, m, k as u32, i, j) == #[trigger] rule_der(L, tok, m, k, i, j) by { lemma_rule_der(t, g, n, z, tok, m, k, i, j); }
        if der(t, tok, m, x, i, j) && !(j == i + 1 && tok(i, x)) {
            let d = choose|d: Dot| #[trigger] t.s_get_lhs(d) == x && by_rule(t, tok, m, d, i, j);
            let b = choose|b: Symbol| #[trigger] starts(t, b, d); assert(d < L.len());
            assert(is_rule(t.of(), d as int)); assert(rule_der(L, tok, m, d as int, i, j)); assert(L[d as int].lhs == x);
        }
        if rder(L, tok, m, x, i, j) && !(j == i + 1 && tok(i, x)) {
            let k = choose|k: int| 0 <= k < L.len() && (#[trigger] L[k]).lhs == x && rule_der(L, tok, m, k, i, j);
            let d = k as u32; assert(is_rule(t.of(), k)); assert(t.s_get_lhs(d) == x); assert(by_rule(t, tok, m, d, i, j));
        }
    }
}
pub proof fn lemma_rule_der(t: Table, g: Cfg, n: int, z: Shape, tok: Tokens, m: nat, k: int, i: int, j: int)
    requires of_rules(t, g, n), processed(g, n), formed(g, n, z), 0 <= k < g.list().len()
    ensures by_rule(t, tok, m, k as u32, i, j) == rule_der(g.list(), tok, m, k, i, j)
    decreases m, 0int
{
    let L = g.list(); let d = k as u32;
    lemma_starts(t, g, n, z); assert(shape(L)); assert(L[k].rhs@.len() >= 1);
    if m > 0 {
        let b = L[k].rhs@[0]; let h = (m - 1) as nat;
        assert(starts(t, b, d));
        assert(t.of().columns@[1].syms@[k] == nth(L[k], 1)); assert(post(t, d) == nth(L[k], 1));
        assert forall|y: Symbol| #[trigger] starts(t, y, d) implies y == b by { }
        if L[k].rhs@.len() == 1 { lemma_rder(t, g, n, z, tok, h, b, i, j); }
        else {
            let c = L[k].rhs@[1];
            assert forall|p: int| #[trigger] mid(p) implies der(t, tok, h, b, i, p) == rder(L, tok, h, b, i, p) && der(t, tok, h, c, p, j) == rder(L, tok, h, c, p, j) by { lemma_rder(t, g, n, z, tok, h, b, i, p); lemma_rder(t, g, n, z, tok, h, c, p, j); }
        }
    }
}
/// The recognizer's verdict (P12) is over these: the tables accept what the rules derive from what the root begins with.
pub proof fn theorem_derives(t: Table, g: Cfg, n: int, z: Shape, tok: Tokens, k: int)
    requires of_rules(t, g, n), processed(g, n), formed(g, n, z)
    ensures accepts(t, tok, k) == exists|m: nat| #[trigger] rder(g.list(), tok, m, g.list()[z.top].rhs@[0], 0, k)
{
    let b = g.list()[z.top].rhs@[0];
    lemma_starts(t, g, n, z); lemma_ends(t, g, n, z);
    assert forall|m: nat| #![trigger rder(g.list(), tok, m, b, 0, k)] #![trigger der(t, tok, m, b, 0, k)] der(t, tok, m, b, 0, k) == rder(g.list(), tok, m, b, 0, k) by { lemma_rder(t, g, n, z, tok, m, b, 0, k); }
    assert(starts(t, b, t.s_dot_before_eof()));
}
