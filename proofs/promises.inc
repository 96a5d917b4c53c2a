// ---- what the tables of a grammar promise each other ----
pub open spec fn post<G: Grammar>(g: G, dot: Dot) -> Option<Symbol> { g.s_get_rhs1(dot) }
/// What the grammar's prediction rows promise: equal widths, transitive.
pub open spec fn rows_ok<G: Grammar>(g: G) -> bool {
    &&& forall|s: Symbol, t: Symbol| (#[trigger] g.s_prediction_row(s)).blocks@.len() == (#[trigger] g.s_prediction_row(t)).blocks@.len()
    &&& forall|s: Symbol, t: Symbol, b: int| #[trigger] g.s_prediction_row(s).has(t.id()) && #[trigger] g.s_prediction_row(t).has(b) ==> g.s_prediction_row(s).has(b)
    &&& forall|s: Symbol| (#[trigger] g.s_prediction_row(s)).blocks@.len() == (g.s_num_syms() + 31) / 32
}
pub open spec fn binary_first(tr: Seq<PredictionTransition>) -> bool { forall|i: int, j: int| 0 <= i <= j < tr.len() ==> ((#[trigger] tr[i]).is_unary ==> (#[trigger] tr[j]).is_unary) }
/// What the grammar's completion lists promise: binary rules first; a rule is unary iff nothing is expected after its first symbol.
pub open spec fn lists_ok<G: Grammar>(g: G) -> bool {
    &&& forall|s: Symbol| binary_first(#[trigger] g.s_completions(s))
    &&& forall|s: Symbol, i: int| 0 <= i < g.s_completions(s).len() ==> (#[trigger] g.s_completions(s)[i]).is_unary == (post(g, g.s_completions(s)[i].dot) is None)
    &&& forall|s: Symbol| (#[trigger] g.s_gen_completion(s)).len() == 2 && (g.s_gen_completion(s)[0] is Some ==> post(g, (g.s_gen_completion(s)[0]->0).dot) is Some) && (g.s_gen_completion(s)[1] is Some ==> post(g, (g.s_gen_completion(s)[1]->0).dot) is None)
}
/// The completion lists hold no rule twice.
pub open spec fn lone<G: Grammar>(g: G) -> bool { forall|b: Symbol, i: int, j: int| 0 <= i < j < g.s_completions(b).len() ==> (#[trigger] g.s_completions(b)[i]).dot != (#[trigger] g.s_completions(b)[j]).dot }
/// `pos` orders the rules so that a finished rule only ever finishes unary rules below it at its own origin.
pub open spec fn orders<G: Grammar>(g: G, pos: spec_fn(Dot) -> nat) -> bool {
    &&& forall|d: Dot| #[trigger] pos(d) < 0x1_0000_0000
    &&& forall|d: Dot, e: Dot| #[trigger] pos(d) == #[trigger] pos(e) ==> d == e
    &&& forall|d: Dot, i: int| 0 <= i < g.s_completions(g.s_get_lhs(d)).len() && (#[trigger] g.s_completions(g.s_get_lhs(d))[i]).is_unary ==> pos(g.s_completions(g.s_get_lhs(d))[i].dot) < pos(d)
    &&& forall|d: Dot| (#[trigger] g.s_gen_completion(g.s_get_lhs(d)))[1] is Some ==> pos((g.s_gen_completion(g.s_get_lhs(d))[1]->0).dot) < pos(d)
}
/// No symbol derives itself by unary rules: some order of the rules shows it.
pub open spec fn acyclic<G: Grammar>(g: G) -> bool { exists|pos: spec_fn(Dot) -> nat| #[trigger] orders(g, pos) }
/// Rule `d` begins with `b` and is reached from the user-visible symbol `x`.
pub open spec fn starts_in<G: Grammar>(g: G, b: Symbol, d: Dot, x: Symbol) -> bool {
    if b.id() >= g.s_num_syms() { exists|i: int| 0 <= i < 2 && (#[trigger] g.s_gen_completion(b)[i]) is Some && (g.s_gen_completion(b)[i]->0).dot == d && (g.s_gen_completion(b)[i]->0).symbol == x }
    else { exists|i: int| 0 <= i < g.s_completions(b).len() && (#[trigger] g.s_completions(b)[i]).dot == d && g.s_completions(b)[i].symbol == x }
}
pub open spec fn starts<G: Grammar>(g: G, b: Symbol, d: Dot) -> bool { exists|x: Symbol| #[trigger] starts_in(g, b, d, x) }
pub open spec fn terminal<G: Grammar>(g: G, t: Symbol) -> bool { forall|d: Dot| #[trigger] g.s_get_lhs(d) != t }
/// `x` can be consumed where `row` is predicted: a user-visible symbol if predicted, an internal one if a rule that begins with it belongs to a predicted left side.
pub open spec fn pre<G: Grammar>(g: G, row: BitSlice, x: Symbol) -> bool {
    if x.id() < g.s_num_syms() { row.has(x.id()) } else { exists|d: Dot, y: Symbol| #[trigger] starts_in(g, x, d, y) && row.has(y.id()) }
}
/// What the grammar's tables promise each other.
pub open spec fn linked<G: Grammar>(g: G) -> bool {
    // a row that allows `x` allows what the rules of `x` begin with, and knows those rules
    &&& forall|s: Symbol, b: Symbol, d: Dot| #![trigger starts(g, b, d), g.s_prediction_row(s)] starts(g, b, d) && pre(g, g.s_prediction_row(s), g.s_get_lhs(d)) ==> pre(g, g.s_prediction_row(s), b) && exists|y: Symbol| #[trigger] starts_in(g, b, d, y) && g.s_prediction_row(s).has(y.id())
    &&& forall|s: Symbol, b: Symbol, d: Dot, y: Symbol| #![trigger starts_in(g, b, d, y), g.s_prediction_row(s)] starts_in(g, b, d, y) && g.s_prediction_row(s).has(y.id()) ==> pre(g, g.s_prediction_row(s), b)
    // a symbol predicts itself; internal symbols are only ever the first of a rule
    &&& forall|s: Symbol| s.id() < g.s_num_syms() ==> (#[trigger] g.s_prediction_row(s)).has(s.id())
    &&& forall|d: Dot| (#[trigger] post(g, d)) is Some ==> (post(g, d)->0).id() < g.s_num_syms()
    &&& g.s_start_sym().id() < g.s_num_syms()
}
/// What the table of end-of-input promises.
pub open spec fn eof_ok<G: Grammar>(g: G) -> bool {
    let d0 = g.s_dot_before_eof();
    &&& forall|b: Symbol, y: Symbol| #[trigger] starts_in(g, b, d0, y) ==> y == g.s_start_sym()
    &&& forall|s: Symbol| (#[trigger] g.s_prediction_row(s)).has(g.s_start_sym().id()) ==> s == g.s_start_sym()
    &&& forall|d: Dot| #[trigger] post(g, d) != Some(g.s_start_sym())
    &&& post(g, d0) == Some(g.s_eof())
    &&& forall|d: Dot| (#[trigger] post(g, d)) is Some ==> (post(g, d)->0).id() >= g.s_eof().id() && ((post(g, d)->0).id() == g.s_eof().id() ==> d == d0)
}
pub open spec fn promises<G: Grammar>(g: G) -> bool { rows_ok(g) && lists_ok(g) && acyclic(g) && linked(g) && eof_ok(g) }
/// The rule before the end of input begins with `b` only; each of the rules of `b` (numbered one after another) begins with the terminal `s` only.
pub open spec fn topped<G: Grammar>(g: G, b: Symbol, s: Symbol) -> bool {
    &&& forall|x: Symbol| #[trigger] starts(g, x, g.s_dot_before_eof()) ==> x == b
    &&& terminal(g, s)
    &&& forall|x: Symbol, d: Dot| #[trigger] starts(g, x, d) && g.s_get_lhs(d) == b ==> x == s
    &&& forall|d: Dot, e: Dot, f: Dot| d < e < f && #[trigger] g.s_get_lhs(d) == b && #[trigger] g.s_get_lhs(f) == b ==> #[trigger] g.s_get_lhs(e) == b
}
// ---- what the grammar derives ----
/// `tok(i, s)`: the token between input positions `i` and `i + 1` can be read as `s`.
pub type Tokens = spec_fn(int, Symbol) -> bool;
/// `x` derives the tokens from `i` to `j` by a derivation of depth at most `n`.
pub open spec fn der<G: Grammar>(g: G, tok: Tokens, n: nat, x: Symbol, i: int, j: int) -> bool decreases n, 1int {
    n > 0 && ((j == i + 1 && tok(i, x)) || exists|d: Dot| #[trigger] g.s_get_lhs(d) == x && by_rule(g, tok, n, d, i, j))
}
pub open spec fn by_rule<G: Grammar>(g: G, tok: Tokens, n: nat, d: Dot, i: int, j: int) -> bool decreases n, 0int {
    n > 0 && exists|b: Symbol| #[trigger] starts(g, b, d) && match post(g, d) {
        None => der(g, tok, (n - 1) as nat, b, i, j),
        Some(c) => exists|m: int| #[trigger] mid(m) && der(g, tok, (n - 1) as nat, b, i, m) && der(g, tok, (n - 1) as nat, c, m, j),
    }
}
/// (a marker: the place where a match is split in two)
pub open spec fn mid(m: int) -> bool { true }
pub open spec fn derives<G: Grammar>(g: G, tok: Tokens, x: Symbol, i: int, j: int) -> bool { exists|n: nat| #[trigger] der(g, tok, n, x, i, j) }
/// The grammar derives the first `n` tokens (its start rule, the end of input excepted).
pub open spec fn accepts<G: Grammar>(g: G, tok: Tokens, n: int) -> bool { exists|b: Symbol| #[trigger] starts(g, b, g.s_dot_before_eof()) && derives(g, tok, b, 0, n) }
/// What the tables of following symbols promise (needed only where something is announced).
pub open spec fn look_ok<G: Grammar>(g: G, fol: spec_fn(Symbol, Symbol) -> bool) -> bool {
    &&& forall|d: Dot, t: Symbol| #![trigger g.s_lookahead_set(d), terminal(g, t)] terminal(g, t) && post(g, d) is Some && g.s_prediction_row(post(g, d)->0).has(t.id()) ==> g.s_lookahead_set(d).has(t.id())
    &&& forall|d: Dot, t: Symbol| #![trigger g.s_lookahead_set(d), fol(g.s_get_lhs(d), t)] post(g, d) is None && g.s_get_lhs(d).id() < g.s_num_syms() && fol(g.s_get_lhs(d), t) ==> g.s_lookahead_set(d).has(t.id())
    &&& forall|d: Dot| post(g, d) is None ==> #[trigger] g.s_rhs1_or_lhs(d) == g.s_get_lhs(d)
    &&& forall|x: Symbol, t: Symbol| x.id() < g.s_num_syms() && #[trigger] fol(x, t) ==> g.s_lhs_lr_set(x).has(t.id())
    &&& forall|b: Symbol, d: Dot, t: Symbol| #![trigger starts(g, b, d), terminal(g, t)] starts(g, b, d) && terminal(g, t) && post(g, d) is Some && g.s_prediction_row(post(g, d)->0).has(t.id()) ==> fol(b, t)
    &&& forall|b: Symbol, d: Dot, t: Symbol| #![trigger starts(g, b, d), fol(g.s_get_lhs(d), t)] starts(g, b, d) && fol(g.s_get_lhs(d), t) ==> fol(match post(g, d) { Some(c) => c, None => b }, t)
}
