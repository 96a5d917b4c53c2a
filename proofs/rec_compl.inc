// ---- completeness (P13) ----
/// What is announced to follow each position (if anything), and what the tables take to follow each symbol.
pub ghost struct Ann { pub hint: spec_fn(int) -> Option<Symbol>, pub fol: spec_fn(Symbol, Symbol) -> bool }
/// `x` may end at position `q`.
pub open spec fn ends(an: Ann, x: Symbol, q: int) -> bool { (an.hint)(q) is Some ==> (an.fol)(x, (an.hint)(q)->0) }
/// The second symbol of rule `d` may begin at position `q`.
pub open spec fn opens<G: Grammar>(g: G, an: Ann, d: Dot, q: int) -> bool { (an.hint)(q) is Some ==> g.s_prediction_row(post(g, d)->0).has(((an.hint)(q)->0).id()) }
/// What is announced is what follows.
pub open spec fn honest<G: Grammar>(g: G, tok: Tokens, an: Ann) -> bool {
    forall|q: int| (#[trigger] (an.hint)(q)) is Some ==> look_ok(g, an.fol) && terminal(g, (an.hint)(q)->0) && forall|s: Symbol| #[trigger] tok(q, s) ==> s == (an.hint)(q)->0
}
/// As `der`; every part may end where it ends.
pub open spec fn derl<G: Grammar>(g: G, tok: Tokens, an: Ann, n: nat, x: Symbol, i: int, j: int) -> bool decreases n, 1int {
    n > 0 && ends(an, x, j) && ((j == i + 1 && tok(i, x)) || exists|d: Dot| #[trigger] g.s_get_lhs(d) == x && by_rulel(g, tok, an, n, d, i, j))
}
pub open spec fn by_rulel<G: Grammar>(g: G, tok: Tokens, an: Ann, n: nat, d: Dot, i: int, j: int) -> bool decreases n, 0int {
    n > 0 && exists|b: Symbol| #[trigger] starts(g, b, d) && match post(g, d) {
        None => derl(g, tok, an, (n - 1) as nat, b, i, j),
        Some(c) => exists|m: int| #[trigger] mid(m) && derl(g, tok, an, (n - 1) as nat, b, i, m) && derl(g, tok, an, (n - 1) as nat, c, m, j),
    }
}
pub open spec fn derivesl<G: Grammar>(g: G, tok: Tokens, an: Ann, x: Symbol, i: int, j: int) -> bool { exists|n: nat| #[trigger] derl(g, tok, an, n, x, i, j) }
/// The rule a derivation begins with, its first symbol, and where that ends (if there is a second).
pub proof fn lemma_splitl<G: Grammar>(g: G, tok: Tokens, an: Ann, n: nat, x: Symbol, p: int, q: int) -> (r: (Dot, Symbol, int))
    requires derl(g, tok, an, n, x, p, q), !(q == p + 1 && tok(p, x))
    ensures n > 0, g.s_get_lhs(r.0) == x, starts(g, r.1, r.0),
        post(g, r.0) is None ==> derl(g, tok, an, (n - 1) as nat, r.1, p, q),
        post(g, r.0) is Some ==> derl(g, tok, an, (n - 1) as nat, r.1, p, r.2) && derl(g, tok, an, (n - 1) as nat, post(g, r.0)->0, r.2, q),
{
    let d = choose|r: Dot| #[trigger] g.s_get_lhs(r) == x && by_rulel(g, tok, an, n, r, p, q);
    let b = choose|s: Symbol| #[trigger] starts(g, s, d) && match post(g, d) {
        None => derl(g, tok, an, (n - 1) as nat, s, p, q),
        Some(c) => exists|m: int| #[trigger] mid(m) && derl(g, tok, an, (n - 1) as nat, s, p, m) && derl(g, tok, an, (n - 1) as nat, c, m, q),
    };
    let m = match post(g, d) { None => p, Some(c) => choose|m: int| #[trigger] mid(m) && derl(g, tok, an, (n - 1) as nat, b, p, m) && derl(g, tok, an, (n - 1) as nat, c, m, q) };
    (d, b, m)
}
pub proof fn lemma_derl_len<G: Grammar>(g: G, tok: Tokens, an: Ann, n: nat, x: Symbol, i: int, j: int)
    requires derl(g, tok, an, n, x, i, j)
    ensures i < j, n > 0, ends(an, x, j)
    decreases n
{
    if !(j == i + 1 && tok(i, x)) {
        let (d, b, m) = lemma_splitl(g, tok, an, n, x, i, j);
        if post(g, d) is None { lemma_derl_len(g, tok, an, (n - 1) as nat, b, i, j); }
        else { lemma_derl_len(g, tok, an, (n - 1) as nat, b, i, m); lemma_derl_len(g, tok, an, (n - 1) as nat, post(g, d)->0, m, j); }
    }
}
/// The rule a derivation begins with, its first symbol, and where that ends (if there is a second).
pub proof fn lemma_split<G: Grammar>(g: G, tok: Tokens, n: nat, x: Symbol, p: int, q: int) -> (r: (Dot, Symbol, int))
    requires der(g, tok, n, x, p, q), !(q == p + 1 && tok(p, x))
    ensures n > 0, g.s_get_lhs(r.0) == x, starts(g, r.1, r.0),
        post(g, r.0) is None ==> der(g, tok, (n - 1) as nat, r.1, p, q),
        post(g, r.0) is Some ==> der(g, tok, (n - 1) as nat, r.1, p, r.2) && der(g, tok, (n - 1) as nat, post(g, r.0)->0, r.2, q),
{
    let d = choose|r: Dot| #[trigger] g.s_get_lhs(r) == x && by_rule(g, tok, n, r, p, q);
    let b = choose|s: Symbol| #[trigger] starts(g, s, d) && match post(g, d) {
        None => der(g, tok, (n - 1) as nat, s, p, q),
        Some(c) => exists|m: int| #[trigger] mid(m) && der(g, tok, (n - 1) as nat, s, p, m) && der(g, tok, (n - 1) as nat, c, m, q),
    };
    let m = match post(g, d) { None => p, Some(c) => choose|m: int| #[trigger] mid(m) && der(g, tok, (n - 1) as nat, b, p, m) && der(g, tok, (n - 1) as nat, c, m, q) };
    (d, b, m)
}
/// The first token of what `x` derives is one that `x` predicts.
pub proof fn lemma_leftmost<G: Grammar>(g: G, tok: Tokens, n: nat, x: Symbol, i: int, j: int, row: BitSlice) -> (t: Symbol)
    requires linked(g), der(g, tok, n, x, i, j), pre(g, row, x), made_of_rows(g, row), forall|s: Symbol| #[trigger] tok(i, s) ==> s.id() < g.s_num_syms()
    ensures tok(i, t), row.has(t.id())
    decreases n
{
    hide(der); hide(by_rule); hide(starts_in);
    if j == i + 1 && tok(i, x) { x }
    else {
        let (d, b, m) = lemma_split(g, tok, n, x, i, j);
        lemma_descend(g, row, b, d);
        lemma_leftmost(g, tok, (n - 1) as nat, b, i, if post(g, d) is None { j } else { m }, row)
    }
}
pub proof fn lemma_own_row<G: Grammar>(g: G, s: Symbol)
    requires linked(g), s.id() < g.s_num_syms()
    ensures made_of_rows(g, g.s_prediction_row(s)), pre(g, g.s_prediction_row(s), s)
{
    let row = g.s_prediction_row(s);
    assert forall|b: int| #[trigger] row.has(b) implies exists|s: Symbol| (#[trigger] g.s_prediction_row(s)).has(b) && within(g.s_prediction_row(s), row) by { assert(within(g.s_prediction_row(s), row)); }
}
/// Where the second symbol of a rule is derived, it may begin.
pub proof fn lemma_opens<G: Grammar>(g: G, tok: Tokens, an: Ann, n: nat, d: Dot, i: int, j: int)
    requires linked(g), honest(g, tok, an), visible(g, tok), post(g, d) is Some, der(g, tok, n, post(g, d)->0, i, j)
    ensures opens(g, an, d, i)
{
    let c = post(g, d)->0; let row = g.s_prediction_row(c);
    lemma_own_row(g, c);
    let t = lemma_leftmost(g, tok, n, c, i, j, row);
    assert(tok(i, t));
}
pub open spec fn visible<G: Grammar>(g: G, tok: Tokens) -> bool { forall|i: int, s: Symbol| #[trigger] tok(i, s) ==> s.id() < g.s_num_syms() }
/// With honest announcements every derivation that may end where it ends is made of parts that may.
pub proof fn lemma_live<G: Grammar>(g: G, tok: Tokens, an: Ann, n: nat, x: Symbol, i: int, j: int)
    requires linked(g), honest(g, tok, an), visible(g, tok), der(g, tok, n, x, i, j), ends(an, x, j)
    ensures derl(g, tok, an, n, x, i, j)
    decreases n
{
    if !(j == i + 1 && tok(i, x)) {
        let (d, b, m) = lemma_split(g, tok, n, x, i, j); let k = (n - 1) as nat;
        if post(g, d) is None {
            if (an.hint)(j) is Some { assert((an.fol)(g.s_get_lhs(d), (an.hint)(j)->0)); }
            lemma_live(g, tok, an, k, b, i, j);
        } else {
            let c = post(g, d)->0;
            if (an.hint)(j) is Some { assert((an.fol)(g.s_get_lhs(d), (an.hint)(j)->0)); }
            lemma_live(g, tok, an, k, c, m, j);
            lemma_opens(g, tok, an, k, d, m, j);
            if (an.hint)(m) is Some { assert(terminal(g, (an.hint)(m)->0)); assert((an.fol)(b, (an.hint)(m)->0)); }
            lemma_live(g, tok, an, k, b, i, m);
            assert(mid(m));
        }
        assert(by_rulel(g, tok, an, n, d, i, j)); assert(g.s_get_lhs(d) == x);
    }
}
pub proof fn lemma_derl_der<G: Grammar>(g: G, tok: Tokens, an: Ann, n: nat, x: Symbol, i: int, j: int)
    requires derl(g, tok, an, n, x, i, j)
    ensures der(g, tok, n, x, i, j)
    decreases n
{
    if !(j == i + 1 && tok(i, x)) {
        let (d, b, m) = lemma_splitl(g, tok, an, n, x, i, j); let k = (n - 1) as nat;
        if post(g, d) is None { lemma_derl_der(g, tok, an, k, b, i, j); }
        else { lemma_derl_der(g, tok, an, k, b, i, m); lemma_derl_der(g, tok, an, k, post(g, d)->0, m, j); assert(mid(m)); }
        assert(by_rule(g, tok, n, d, i, j)); assert(g.s_get_lhs(d) == x);
    }
}
/// Everything a set of predictions holds, it holds as part of some symbol's row.
pub open spec fn made_of_rows<G: Grammar>(g: G, row: BitSlice) -> bool {
    forall|b: int| #[trigger] row.has(b) ==> exists|s: Symbol| (#[trigger] g.s_prediction_row(s)).has(b) && within(g.s_prediction_row(s), row)
}
pub open spec fn within(a: BitSlice, b: BitSlice) -> bool { forall|i: int| #[trigger] a.has(i) ==> b.has(i) }
pub proof fn lemma_pre_within<G: Grammar>(g: G, a: BitSlice, b: BitSlice, x: Symbol)
    requires within(a, b), pre(g, a, x)
    ensures pre(g, b, x)
{ if x.id() >= g.s_num_syms() { let (d, y) = choose|d: Dot, y: Symbol| #[trigger] starts_in(g, x, d, y) && a.has(y.id()); assert(starts_in(g, x, d, y) && b.has(y.id())); } }
/// Where the left side of a rule can be consumed, so can its first symbol.
pub proof fn lemma_descend<G: Grammar>(g: G, row: BitSlice, b: Symbol, d: Dot)
    requires linked(g), made_of_rows(g, row), starts(g, b, d), pre(g, row, g.s_get_lhs(d))
    ensures pre(g, row, b), exists|y: Symbol| #[trigger] starts_in(g, b, d, y) && row.has(y.id())
{
    let x = g.s_get_lhs(d);
    let bit = if x.id() < g.s_num_syms() { x.id() } else { let (e, y) = choose|e: Dot, y: Symbol| #[trigger] starts_in(g, x, e, y) && row.has(y.id()); y.id() };
    assert(row.has(bit));
    let s = choose|s: Symbol| (#[trigger] g.s_prediction_row(s)).has(bit) && within(g.s_prediction_row(s), row);
    let r = g.s_prediction_row(s);
    assert(pre(g, r, x));
    lemma_pre_within(g, r, row, b);
    let y = choose|y: Symbol| #[trigger] starts_in(g, b, d, y) && r.has(y.id());
    assert(row.has(y.id()));
}
pub proof fn lemma_enter<G: Grammar>(g: G, row: BitSlice, b: Symbol, d: Dot, y: Symbol)
    requires linked(g), made_of_rows(g, row), starts_in(g, b, d, y), row.has(y.id())
    ensures pre(g, row, b)
{
    let s = choose|s: Symbol| (#[trigger] g.s_prediction_row(s)).has(y.id()) && within(g.s_prediction_row(s), row);
    lemma_pre_within(g, g.s_prediction_row(s), row, b);
}
/// All that was ever found, by input position: partial matches (rule, where it began) and predictions.
pub ghost struct Hist { pub items: Seq<spec_fn(Dot, int) -> bool>, pub rows: Seq<BitSlice> }
/// The sets that are still there are those of the history.
pub open spec fn real<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, pos: Seq<int>, h: Hist) -> bool {
    let n = h.items.len() as int;
    &&& pos.len() >= 1 && pos[0] == 0 && pos.last() == n - 1 && h.rows.len() == n
    &&& forall|i: int, j: int| 0 <= i < j < pos.len() ==> #[trigger] pos[i] < #[trigger] pos[j]
    &&& forall|i: int, k: (u32, u32)| 0 <= i < pos.len() && #[trigger] has_key(all_sets(r.medial)[i], k) ==> k.0 < i && (h.items[pos[i]])(k.1, pos[k.0 as int])
    &&& forall|i: int, d: Dot, p: int| 0 <= i < pos.len() && #[trigger] (h.items[pos[i]])(d, p) ==> exists|o: u32| o < i && #[trigger] pos[o as int] == p && has_key(all_sets(r.medial)[i], (o, d))
    &&& forall|i: int| 0 <= i < pos.len() ==> h.rows[#[trigger] pos[i]] == r.predicted.rows()[i]
}
/// The history misses nothing: every partial match that the grammar derives is there, and its prediction.
pub open spec fn complete_hist<G: Grammar>(g: G, tok: Tokens, an: Ann, h: Hist) -> bool {
    &&& h.rows.len() == h.items.len() && h.items.len() >= 1
    &&& forall|p: int, q: int, b: Symbol, d: Dot, y: Symbol| #![trigger starts_in(g, b, d, y), h.rows[p], h.items[q]] 0 <= p < q < h.items.len() && starts_in(g, b, d, y) && h.rows[p].has(y.id()) && derivesl(g, tok, an, b, p, q) && post(g, d) is Some && opens(g, an, d, q) ==> (h.items[q])(d, p)
    &&& forall|q: int, d: Dot, p: int| 0 <= q < h.items.len() && #[trigger] (h.items[q])(d, p) ==> post(g, d) is Some && within(g.s_prediction_row(post(g, d)->0), h.rows[q])
    &&& forall|q: int| 0 <= q < h.items.len() ==> made_of_rows(g, #[trigger] h.rows[q])
    &&& within(g.s_prediction_row(g.s_start_sym()), h.rows[0])
}
/// The state between scanning and finishing position `pos.last() + 1`: the tokens after `pos.last()` were scanned, the announcement for it being made.
pub open spec fn read_in<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, a: Recognizer<G, F, P>, tok: Tokens, an: Ann, pos: Seq<int>) -> bool {
    &&& a0.lookahead.next_symbol == (an.hint)(pos.last() + 1) && grows(a0, a) && pos.len() == a0.medial.indices@.len() - 1
    &&& forall|s: Symbol, k: (u32, u32)| tok(pos.last(), s) && #[trigger] adv(a0, (pos.len() - 1) as u32, s, true, k) ==> has_key(a.complete.0@, k)
    &&& forall|s: Symbol, k: (u32, u32)| tok(pos.last(), s) && #[trigger] adv(a0, (pos.len() - 1) as u32, s, false, k) ==> has_key(v_cur(a.medial), k)
}
/// `x` was found between position `o` and the end.
pub open spec fn found<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, tok: Tokens, pos: Seq<int>, d: Seq<Group>, o: u32, x: Symbol) -> bool {
    d.contains((o, x)) || (o == pos.len() - 1 && tok(pos.last(), x))
}
pub proof fn lemma_adv_same<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, o: u32, x: Symbol, done: bool, k: (u32, u32))
    requires grows(a, b)
    ensures adv(a, o, x, done, k) == adv(b, o, x, done, k)
{}
/// What is found is advanced over.
pub proof fn lemma_found_adv<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, an: Ann, pos: Seq<int>, d: Seq<Group>, o: u32, x: Symbol, k: (u32, u32))
    requires read_in(a0, a, tok, an, pos), closure_(a, b, d), found(a, tok, pos, d, o, x), pos.len() < 0x7fff_ffff
    ensures adv(a0, o, x, true, k) ==> d.contains(grp(a.grammar, k)), adv(a0, o, x, false, k) ==> has_key(v_cur(b.medial), k)
{
    hide(adv);
    lemma_adv_same(a0, a, o, x, true, k); lemma_adv_same(a0, a, o, x, false, k);
    if o == pos.len() - 1 { assert((pos.len() - 1) as u32 == o); }
    if d.contains((o, x)) {
        let t = choose|t: int| 0 <= t < d.len() && d[t] == (o, x);
        if adv(a, o, x, true, k) { assert(adv(a, d[t].0, d[t].1, true, k)); }
        if adv(a, o, x, false, k) { assert(adv(a, d[t].0, d[t].1, false, k)); assert(waits(a, d, k)); }
    }
}
/// A rule whose first symbol was found at a position that predicts the rule goes on.
pub proof fn lemma_adv_first<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, o: u32, b: Symbol, d: Dot, y: Symbol)
    requires lists_ok(a.grammar), !P::LOOKAHEAD || useful_dot(a.grammar, a.lookahead.next_symbol, d), starts_in(a.grammar, b, d, y), a.predicted.rows()[o as int].has(y.id()), pre(a.grammar, a.predicted.rows()[o as int], b)
    ensures adv(a, o, b, post(a.grammar, d) is None, (o, d))
{
    let g = a.grammar; let row = a.predicted.rows()[o as int]; let done = post(g, d) is None;
    if b.id() >= g.s_num_syms() {
        let i = choose|i: int| 0 <= i < 2 && (#[trigger] g.s_gen_completion(b)[i]) is Some && (g.s_gen_completion(b)[i]->0).dot == d && (g.s_gen_completion(b)[i]->0).symbol == y;
        assert(adv_gen(g, row, o, b, done, (o, d)));
    } else {
        let i = choose|i: int| 0 <= i < g.s_completions(b).len() && (#[trigger] g.s_completions(b)[i]).dot == d && g.s_completions(b)[i].symbol == y;
        assert(taken(g, P::LOOKAHEAD, a.lookahead.next_symbol, row, g.s_completions(b)[i]));
        assert(adv_pred(g, P::LOOKAHEAD, a.lookahead.next_symbol, row, o, b, done, (o, d)));
    }
}
/// A partial match whose second symbol was found is finished.
pub proof fn lemma_adv_second<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, o: u32, c: Symbol, k: (u32, u32))
    requires !P::LOOKAHEAD || useful_lhs(a.grammar, a.lookahead.next_symbol, k.1), o < v_sets(a.medial).len(), has_key(v_sets(a.medial)[o as int], k), post(a.grammar, k.1) == Some(c), c.id() < a.grammar.s_num_syms(), a.predicted.rows()[o as int].has(c.id())
    ensures adv(a, o, c, true, k)
{
    let set = v_sets(a.medial)[o as int];
    let j = choose|j: int| 0 <= j < set.len() && key(#[trigger] set[j]) == k;
    assert(adv_medial(a.grammar, P::LOOKAHEAD, a.lookahead.next_symbol, set, c, k));
}
/// The situation in which a position is finished.
pub open spec fn finishing<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, a: Recognizer<G, F, P>, tok: Tokens, an: Ann, pos: Seq<int>, h: Hist) -> bool {
    &&& linked(a0.grammar) && lists_ok(a0.grammar) && complete_hist(a0.grammar, tok, an, h) && honest(a0.grammar, tok, an) && visible(a0.grammar, tok) && read_in(a0, a, tok, an, pos) && pos.len() < 0x7fff_ffff
    &&& v_wf(a0.medial) && pos.len() == v_sets(a0.medial).len() && before(a0, pos, h)
}
/// As `real`, for the finished positions only.
pub open spec fn before<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, pos: Seq<int>, h: Hist) -> bool {
    let n = h.items.len() as int;
    &&& pos.len() >= 1 && pos[0] == 0 && pos.last() == n - 1 && h.rows.len() == n
    &&& forall|i: int, j: int| 0 <= i < j < pos.len() ==> #[trigger] pos[i] < #[trigger] pos[j]
    &&& forall|i: int, k: (u32, u32)| 0 <= i < pos.len() && #[trigger] has_key(v_sets(r.medial)[i], k) ==> k.0 < i && (h.items[pos[i]])(k.1, pos[k.0 as int])
    &&& forall|i: int, d: Dot, p: int| 0 <= i < pos.len() && #[trigger] (h.items[pos[i]])(d, p) ==> exists|o: u32| o < i && #[trigger] pos[o as int] == p && has_key(v_sets(r.medial)[i], (o, d))
    &&& forall|i: int| 0 <= i < pos.len() ==> h.rows[#[trigger] pos[i]] == r.predicted.rows()[i]
}
/// (a marker for the place of a found symbol)
pub open spec fn at(o: u32) -> bool { true }
/// Where a left side may end, its rules are useful.
pub proof fn lemma_useful_done<G: Grammar>(g: G, tok: Tokens, an: Ann, d: Dot, q: int)
    requires honest(g, tok, an), ends(an, g.s_get_lhs(d), q)
    ensures useful_lhs(g, (an.hint)(q), d), post(g, d) is None ==> useful_dot(g, (an.hint)(q), d)
{ if (an.hint)(q) is Some { let t = (an.hint)(q)->0; assert((an.fol)(g.s_get_lhs(d), t)); } }
pub proof fn lemma_useful_open<G: Grammar>(g: G, tok: Tokens, an: Ann, d: Dot, q: int)
    requires honest(g, tok, an), post(g, d) is Some, opens(g, an, d, q)
    ensures useful_dot(g, (an.hint)(q), d)
{ if (an.hint)(q) is Some { assert(terminal(g, (an.hint)(q)->0)); } }
/// Every derivation that ends at the new position is found, at a position that is still there.
pub proof fn lemma_all_found<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, an: Ann, pos: Seq<int>, h: Hist, d: Seq<Group>, n: nat, x: Symbol, p: int)
    requires finishing(a0, a, tok, an, pos, h), closure_(a, b, d), 0 <= p <= pos.last(), derl(a0.grammar, tok, an, n, x, p, pos.last() + 1), pre(a0.grammar, h.rows[p], x)
    ensures exists|o: u32| #[trigger] at(o) && o < pos.len() && pos[o as int] == p && found(a, tok, pos, d, o, x)
    decreases n
{
    hide(adv); hide(der); hide(by_rule); hide(derl); hide(by_rulel); hide(honest); hide(starts_in); hide(closure_); hide(row_for); hide(lists_ok); 
    let g = a0.grammar; let q = pos.last() + 1; let row = h.rows[p];
    if q == p + 1 && tok(p, x) { let o = (pos.len() - 1) as u32; assert(at(o)); assert(found(a, tok, pos, d, o, x)); }
    else {
        let (r, s, m) = lemma_splitl(g, tok, an, n, x, p, q); lemma_derl_len(g, tok, an, n, x, p, q);
        lemma_descend(g, row, s, r);
        let y = choose|y: Symbol| #[trigger] starts_in(g, s, r, y) && row.has(y.id());
        match post(g, r) {
            None => {
                lemma_all_found(a0, a, b, tok, an, pos, h, d, (n - 1) as nat, s, p);
                let o = choose|o: u32| #[trigger] at(o) && o < pos.len() && pos[o as int] == p && found(a, tok, pos, d, o, s);
                assert(row == a0.predicted.rows()[o as int]);
                lemma_useful_done(g, tok, an, r, q);
                lemma_adv_first(a0, o, s, r, y);
                lemma_found_adv(a0, a, b, tok, an, pos, d, o, s, (o, r));
                assert(grp(a.grammar, (o, r)) == (o, x));
                assert(found(a, tok, pos, d, o, x));
            }
            Some(c) => {
                lemma_derl_len(g, tok, an, (n - 1) as nat, s, p, m); lemma_derl_len(g, tok, an, (n - 1) as nat, c, m, q);
                lemma_derl_der(g, tok, an, (n - 1) as nat, c, m, q); lemma_opens(g, tok, an, (n - 1) as nat, r, m, q);
                assert(derivesl(g, tok, an, s, p, m));
                assert(h.rows[p].has(y.id())); 
                assert((h.items[m])(r, p));
                assert(g.s_prediction_row(c).has(c.id()));
                assert(within(g.s_prediction_row(c), h.rows[m]));
                assert(pre(g, h.rows[m], c));
                lemma_all_found(a0, a, b, tok, an, pos, h, d, (n - 1) as nat, c, m);
                let om = choose|o: u32| #[trigger] at(o) && o < pos.len() && pos[o as int] == m && found(a, tok, pos, d, o, c);
                assert((h.items[pos[om as int]])(r, p));
                let o = choose|o: u32| o < om && #[trigger] pos[o as int] == p && has_key(v_sets(a0.medial)[om as int], (o, r));
                assert(h.rows[pos[om as int]] == a0.predicted.rows()[om as int]);
                lemma_useful_done(g, tok, an, r, q);
                lemma_adv_second(a0, om, c, (o, r));
                lemma_found_adv(a0, a, b, tok, an, pos, d, om, c, (o, r));
                assert(grp(a.grammar, (o, r)) == (o, x));
                assert(at(o)); assert(found(a, tok, pos, d, o, x));
            }
        }
    }
}
/// The history after finishing a position.
pub open spec fn next_hist<G: Grammar, F: Forest, P: PerfHint>(b: Recognizer<G, F, P>, pos: Seq<int>, h: Hist) -> Hist {
    Hist { items: h.items.push(|d: Dot, p: int| exists|o: u32| #[trigger] at(o) && o < pos.len() && pos[o as int] == p && has_key(v_cur(b.medial), (o, d))), rows: h.rows.push(b.predicted.rows()[b.medial.indices@.len() - 1]) }
}
pub proof fn lemma_row_made<G: Grammar, N>(g: G, s: Seq<Item<N>>, row: BitSlice)
    requires row_for(g, s, row)
    ensures made_of_rows(g, row), forall|k: (u32, u32)| #[trigger] has_key(s, k) ==> within(g.s_prediction_row(post(g, k.1)->0), row)
{
    assert forall|b: int| #[trigger] row.has(b) implies exists|s: Symbol| (#[trigger] g.s_prediction_row(s)).has(b) && within(g.s_prediction_row(s), row) by {
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] pred(g, s[k])).has(b);
        let x = post(g, s[k].dot)->0;
        assert forall|i: int| #[trigger] g.s_prediction_row(x).has(i) implies row.has(i) by { assert(pred(g, s[k]).has(i)); }
        assert(g.s_prediction_row(x).has(b) && within(g.s_prediction_row(x), row));
    }
    assert forall|k: (u32, u32)| #[trigger] has_key(s, k) implies within(g.s_prediction_row(post(g, k.1)->0), row) by {
        let j = choose|j: int| 0 <= j < s.len() && key(#[trigger] s[j]) == k;
        assert forall|i: int| #[trigger] g.s_prediction_row(post(g, k.1)->0).has(i) implies row.has(i) by { assert(pred(g, s[j]).has(i)); }
    }
}
/// Finishing a position misses nothing.
pub proof fn lemma_complete_hist<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, an: Ann, pos: Seq<int>, h: Hist, d: Seq<Group>, m: int)
    requires finishing(a0, a, tok, an, pos, h), open_(a), closure_(a, b, d), advanced(a, b, m), idle(b), same_top(v_cur(b.medial), a.medial.indices@.len() - 2, m)
    ensures complete_hist(b.grammar, tok, an, next_hist(b, pos, h))
{
    hide(adv); hide(der); hide(derl); hide(starts_in); hide(closure_); hide(linked); hide(lists_ok); hide(pre); hide(found); hide(honest); hide(opens);
    let g = a0.grammar; let h2 = next_hist(b, pos, h); let n = kept(a.medial, m); let q = pos.last() + 1; let cb = v_cur(b.medial);
    let pos1 = pos.push(q); let pos2 = pos_after(pos1, n);
    assert(all_sets(b.medial)[n] == cb); assert(b.medial.indices@.len() == n + 1);
    assert(a.medial.indices@.len() == pos.len() + 1);
    assert(row_for(g, cb, b.predicted.rows()[n])) by { assert(rows_for(b, n + 1)); }
    lemma_row_made(g, cb, b.predicted.rows()[n]);
    assert forall|i: int| 0 <= i < n implies pos2[i] == pos[i] by {}
    assert(pos2[n] == q && pos2.len() == n + 1);
    assert(forall|i: int| 0 <= i < h.items.len() ==> h2.items[i] == h.items[i] && h2.rows[i] == h.rows[i]);
    assert(q == h.items.len());
    assert forall|k: (u32, u32)| #[trigger] has_key(cb, k) implies k.0 < n && post(g, k.1) is Some by {
        let j = choose|j: int| 0 <= j < cb.len() && key(#[trigger] cb[j]) == k; assert(all_sets(b.medial)[n][j].origin < n);
        assert(waiting(g, all_sets(b.medial)[n]));
    }
    // nothing is missed
    assert forall|p: int, q2: int, s: Symbol, r: Dot, y: Symbol| #![trigger starts_in(g, s, r, y), h2.rows[p], h2.items[q2]] 0 <= p < q2 < h2.items.len() && starts_in(g, s, r, y) && h2.rows[p].has(y.id()) && derivesl(g, tok, an, s, p, q2) && post(g, r) is Some && opens(g, an, r, q2) implies (h2.items[q2])(r, p) by {
        assert(h2.rows[p] == h.rows[p]);
        if q2 == q {
            let e = choose|e: nat| #[trigger] derl(g, tok, an, e, s, p, q);
            lemma_enter(g, h.rows[p], s, r, y);
            lemma_all_found(a0, a, b, tok, an, pos, h, d, e, s, p);
            let o = choose|o: u32| #[trigger] at(o) && o < pos.len() && pos[o as int] == p && found(a, tok, pos, d, o, s);
            assert(h.rows[pos[o as int]] == a0.predicted.rows()[o as int]);
            lemma_useful_open(g, tok, an, r, q);
            lemma_adv_first(a0, o, s, r, y);
            lemma_found_adv(a0, a, b, tok, an, pos, d, o, s, (o, r));
            assert(at(o) && has_key(cb, (o, r)));
        } else { assert(h2.items[q2] == h.items[q2]); assert(h.rows[p].has(y.id())); assert((h.items[q2])(r, p)); }
    }
    assert forall|q2: int, r: Dot, p: int| 0 <= q2 < h2.items.len() && #[trigger] (h2.items[q2])(r, p) implies post(g, r) is Some && within(g.s_prediction_row(post(g, r)->0), h2.rows[q2]) by {
        if q2 == q { let o = choose|o: u32| #[trigger] at(o) && o < pos.len() && pos[o as int] == p && has_key(cb, (o, r)); assert(has_key(cb, (o, r))); }
        else { assert((h.items[q2])(r, p)); }
    }
    assert forall|q2: int| 0 <= q2 < h2.items.len() implies made_of_rows(g, #[trigger] h2.rows[q2]) by { if q2 < q { assert(h2.rows[q2] == h.rows[q2]); } }
}
/// What `real_end` has to show, in parts.
pub open spec fn what_stays<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, b: Recognizer<G, F, P>, n: int) -> bool {
    let s = all_sets(b.medial);
    0 <= n && s.len() == n + 1 && s[n] == v_cur(b.medial) && b.medial.indices@.len() == n + 1
    && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == v_sets(a0.medial)[i])
    && (forall|k: (u32, u32)| #[trigger] has_key(s[n], k) ==> k.0 < n)
    && (forall|i: int| 0 <= i < n ==> #[trigger] b.predicted.rows()[i] == a0.predicted.rows()[i])
    && b.predicted.rows().len() >= n + 1
}
pub proof fn lemma_what_stays<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, an: Ann, pos: Seq<int>, h: Hist, d: Seq<Group>, m: int)
    requires finishing(a0, a, tok, an, pos, h), open_(a), closure_(a, b, d), advanced(a, b, m), idle(b), same_top(v_cur(b.medial), a.medial.indices@.len() - 2, m)
    ensures what_stays(a0, b, kept(a.medial, m)), 0 < kept(a.medial, m) <= pos.len()
{
    hide(adv); hide(der); hide(derl); hide(starts_in); hide(closure_); hide(linked); hide(lists_ok); hide(pre); hide(found); hide(honest); hide(opens); hide(complete_hist); hide(rows_ok); hide(made_of_rows); hide(within);
    let g = a0.grammar; let n = kept(a.medial, m); let cb = v_cur(b.medial);
    assert(all_sets(b.medial)[n] == cb); assert(b.medial.indices@.len() == n + 1);
    assert(a.medial.indices@.len() == pos.len() + 1);
    assert forall|k: (u32, u32)| #[trigger] has_key(cb, k) implies k.0 < n by {
        let j = choose|j: int| 0 <= j < cb.len() && key(#[trigger] cb[j]) == k; assert(all_sets(b.medial)[n][j].origin < n);
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] all_sets(b.medial)[i] == v_sets(a0.medial)[i] by { assert(v_sets(b.medial)[i] == v_sets(a.medial)[i]); }
    assert forall|i: int| 0 <= i < n implies #[trigger] b.predicted.rows()[i] == a0.predicted.rows()[i] by { assert(b.predicted.rows()[i] == a.predicted.rows()[i]); }
}
pub proof fn lemma_pos_le(pos: Seq<int>, i: int)
    requires forall|i: int, j: int| 0 <= i < j < pos.len() ==> #[trigger] pos[i] < #[trigger] pos[j], 0 <= i < pos.len(), pos[0] == 0
    ensures 0 <= pos[i] <= pos.last()
{ if i < pos.len() - 1 { assert(pos[i] < pos[pos.len() - 1]); } if i > 0 { assert(pos[0] < pos[i]); } }
pub proof fn lemma_real_end_to<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, an: Ann, pos: Seq<int>, h: Hist, n: int, i: int, k: (u32, u32))
    requires before(a0, pos, h), what_stays(a0, b, n), n <= pos.len(), h.items.len() == pos.last() + 1, pos.len() > 0,
        0 <= i <= n, has_key(all_sets(b.medial)[i], k)
    ensures ({ let pos2 = pos_after(pos.push(pos.last() + 1), n); let h2 = next_hist(b, pos, h); k.0 < i && (h2.items[pos2[i]])(k.1, pos2[k.0 as int]) })
{
    let q = pos.last() + 1; let pos2 = pos_after(pos.push(q), n); let h2 = next_hist(b, pos, h);
    if i < n { lemma_pos_le(pos, i); }
    if i < n { assert(has_key(v_sets(a0.medial)[i], k)); assert((h.items[pos[i]])(k.1, pos[k.0 as int])); assert(pos2[i] == pos[i]); assert(pos2[k.0 as int] == pos[k.0 as int]); }
    else { assert(has_key(v_cur(b.medial), k)); assert(k == (k.0, k.1)); assert(pos2[k.0 as int] == pos[k.0 as int]); assert(at(k.0) && k.0 < pos.len()); assert(pos2[n] == q); }
}
pub proof fn lemma_real_end_from<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, an: Ann, pos: Seq<int>, h: Hist, n: int, i: int, r: Dot, p: int)
    requires before(a0, pos, h), what_stays(a0, b, n), n <= pos.len(), h.items.len() == pos.last() + 1, pos.len() > 0,
        0 <= i <= n, ({ let pos2 = pos_after(pos.push(pos.last() + 1), n); let h2 = next_hist(b, pos, h); (h2.items[pos2[i]])(r, p) })
    ensures ({ let pos2 = pos_after(pos.push(pos.last() + 1), n); exists|o: u32| o < i && #[trigger] pos2[o as int] == p && has_key(all_sets(b.medial)[i], (o, r)) })
{
    let q = pos.last() + 1; let pos2 = pos_after(pos.push(q), n); let h2 = next_hist(b, pos, h);
    if i < n { lemma_pos_le(pos, i); }
    if i < n {
        assert(pos2[i] == pos[i]); assert((h.items[pos[i]])(r, p));
        let o = choose|o: u32| o < i && #[trigger] pos[o as int] == p && has_key(v_sets(a0.medial)[i], (o, r));
        assert(pos2[o as int] == pos[o as int]);
        assert(pos2[o as int] == p && has_key(all_sets(b.medial)[i], (o, r)));
    } else {
        assert(pos2[n] == q);
        let o = choose|o: u32| #[trigger] at(o) && o < pos.len() && pos[o as int] == p && has_key(v_cur(b.medial), (o, r));
        assert(has_key(v_cur(b.medial), (o, r))); assert(o < n); assert(pos2[o as int] == pos[o as int]);
        assert(pos2[o as int] == p && has_key(all_sets(b.medial)[i], (o, r)));
    }
}
pub proof fn lemma_real_end_rows<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, b: Recognizer<G, F, P>, pos: Seq<int>, h: Hist, n: int)
    requires before(a0, pos, h), what_stays(a0, b, n), n <= pos.len(), h.items.len() == pos.last() + 1, pos.len() > 0
    ensures ({ let pos2 = pos_after(pos.push(pos.last() + 1), n); let h2 = next_hist(b, pos, h);
        pos2.len() == n + 1 && pos2.last() == h2.items.len() - 1 && h2.rows.len() == h2.items.len() && (n > 0 ==> pos2[0] == 0)
        && (forall|i: int| 0 <= i < pos2.len() ==> h2.rows[#[trigger] pos2[i]] == b.predicted.rows()[i])
        && (forall|i: int, j: int| 0 <= i < j < pos2.len() ==> #[trigger] pos2[i] < #[trigger] pos2[j]) })
{
    let q = pos.last() + 1; let pos2 = pos_after(pos.push(q), n); let h2 = next_hist(b, pos, h);
    assert forall|i: int| 0 <= i < n implies pos2[i] == pos[i] && 0 <= pos[i] < q by { lemma_pos_le(pos, i); }
    assert(pos2[n] == q && pos2.len() == n + 1);
    assert forall|i: int| 0 <= i < pos2.len() implies h2.rows[#[trigger] pos2[i]] == b.predicted.rows()[i] by {
        if i < n { assert(h.rows[pos[i]] == a0.predicted.rows()[i]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < pos2.len() implies #[trigger] pos2[i] < #[trigger] pos2[j] by { if j < n { assert(pos[i] < pos[j]); } }
}
/// What stays is what the history says.
pub proof fn lemma_real_end<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, an: Ann, pos: Seq<int>, h: Hist, d: Seq<Group>, m: int)
    requires finishing(a0, a, tok, an, pos, h), open_(a), closure_(a, b, d), advanced(a, b, m), idle(b), same_top(v_cur(b.medial), a.medial.indices@.len() - 2, m)
    ensures real(b, pos_after(pos.push(pos.last() + 1), kept(a.medial, m)), next_hist(b, pos, h))
{
    lemma_what_stays(a0, a, b, tok, an, pos, h, d, m);
    lemma_finishing_parts(a0, a, tok, an, pos, h);
    lemma_real_from_parts(a0, b, tok, an, pos, h, kept(a.medial, m));
}
pub proof fn lemma_finishing_parts<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, a: Recognizer<G, F, P>, tok: Tokens, an: Ann, pos: Seq<int>, h: Hist)
    requires finishing(a0, a, tok, an, pos, h)
    ensures before(a0, pos, h), h.items.len() == pos.last() + 1
{}
pub proof fn lemma_real_from_parts<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, an: Ann, pos: Seq<int>, h: Hist, n: int)
    requires before(a0, pos, h), what_stays(a0, b, n), 0 < n <= pos.len(), h.items.len() == pos.last() + 1
    ensures real(b, pos_after(pos.push(pos.last() + 1), n), next_hist(b, pos, h))
{
    hide(before); hide(what_stays);
    let pos2 = pos_after(pos.push(pos.last() + 1), n); let h2 = next_hist(b, pos, h);
    lemma_real_end_rows(a0, b, pos, h, n);
    assert forall|i: int, k: (u32, u32)| 0 <= i < pos2.len() && #[trigger] has_key(all_sets(b.medial)[i], k) implies k.0 < i && (h2.items[pos2[i]])(k.1, pos2[k.0 as int]) by { lemma_real_end_to(a0, b, tok, an, pos, h, n, i, k); }
    assert forall|i: int, r: Dot, p: int| 0 <= i < pos2.len() && #[trigger] (h2.items[pos2[i]])(r, p) implies exists|o: u32| o < i && #[trigger] pos2[o as int] == p && has_key(all_sets(b.medial)[i], (o, r)) by { lemma_real_end_from(a0, b, tok, an, pos, h, n, i, r, p); }
}
