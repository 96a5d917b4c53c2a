// ---- what the grammar derives ----

pub proof fn lemma_der_mono<G: Grammar>(g: G, tok: Tokens, n: nat, m: nat, x: Symbol, i: int, j: int)
    requires der(g, tok, n, x, i, j), n <= m
    ensures der(g, tok, m, x, i, j)
    decreases n
{
    if !(j == i + 1 && tok(i, x)) {
        let d = choose|d: Dot| #[trigger] g.s_get_lhs(d) == x && by_rule(g, tok, n, d, i, j);
        let b = choose|b: Symbol| #[trigger] starts(g, b, d) && match post(g, d) {
            None => der(g, tok, (n - 1) as nat, b, i, j),
            Some(c) => exists|m: int| #[trigger] mid(m) && der(g, tok, (n - 1) as nat, b, i, m) && der(g, tok, (n - 1) as nat, c, m, j),
        };
        match post(g, d) {
            None => { lemma_der_mono(g, tok, (n - 1) as nat, (m - 1) as nat, b, i, j); }
            Some(c) => {
                let q = choose|q: int| #[trigger] mid(q) && der(g, tok, (n - 1) as nat, b, i, q) && der(g, tok, (n - 1) as nat, c, q, j);
                lemma_der_mono(g, tok, (n - 1) as nat, (m - 1) as nat, b, i, q);
                lemma_der_mono(g, tok, (n - 1) as nat, (m - 1) as nat, c, q, j);
                assert(mid(q));
            }
        }
        assert(by_rule(g, tok, m, d, i, j));
        assert(g.s_get_lhs(d) == x);
    }
}
/// Every derivation reads at least one token (nulling rules are eliminated).
pub proof fn lemma_der_len<G: Grammar>(g: G, tok: Tokens, n: nat, x: Symbol, i: int, j: int)
    requires der(g, tok, n, x, i, j)
    ensures i < j
    decreases n
{
    if !(j == i + 1 && tok(i, x)) {
        let d = choose|d: Dot| #[trigger] g.s_get_lhs(d) == x && by_rule(g, tok, n, d, i, j);
        let b = choose|b: Symbol| #[trigger] starts(g, b, d) && match post(g, d) {
            None => der(g, tok, (n - 1) as nat, b, i, j),
            Some(c) => exists|m: int| #[trigger] mid(m) && der(g, tok, (n - 1) as nat, b, i, m) && der(g, tok, (n - 1) as nat, c, m, j),
        };
        match post(g, d) {
            None => { lemma_der_len(g, tok, (n - 1) as nat, b, i, j); }
            Some(c) => {
                let q = choose|q: int| #[trigger] mid(q) && der(g, tok, (n - 1) as nat, b, i, q) && der(g, tok, (n - 1) as nat, c, q, j);
                lemma_der_len(g, tok, (n - 1) as nat, b, i, q);
                lemma_der_len(g, tok, (n - 1) as nat, c, q, j);
            }
        }
    }
}
pub proof fn lemma_token<G: Grammar>(g: G, tok: Tokens, x: Symbol, i: int)
    requires tok(i, x)
    ensures derives(g, tok, x, i, i + 1)
{ assert(der(g, tok, 1, x, i, i + 1)); }
pub proof fn lemma_rule1<G: Grammar>(g: G, tok: Tokens, d: Dot, b: Symbol, i: int, j: int)
    requires starts(g, b, d), post(g, d) is None, derives(g, tok, b, i, j)
    ensures derives(g, tok, g.s_get_lhs(d), i, j)
{
    let n = choose|n: nat| #[trigger] der(g, tok, n, b, i, j);
    assert(by_rule(g, tok, n + 1, d, i, j));
    assert(der(g, tok, n + 1, g.s_get_lhs(d), i, j));
}
pub proof fn lemma_rule2<G: Grammar>(g: G, tok: Tokens, d: Dot, b: Symbol, c: Symbol, i: int, m: int, j: int)
    requires starts(g, b, d), post(g, d) == Some(c), derives(g, tok, b, i, m), derives(g, tok, c, m, j)
    ensures derives(g, tok, g.s_get_lhs(d), i, j)
{
    let n1 = choose|n: nat| #[trigger] der(g, tok, n, b, i, m); let n2 = choose|n: nat| #[trigger] der(g, tok, n, c, m, j);
    let n = if n1 > n2 { n1 } else { n2 };
    lemma_der_mono(g, tok, n1, n, b, i, m); lemma_der_mono(g, tok, n2, n, c, m, j);
    let n1 = n + 1; assert(n == (n1 - 1) as nat);
    assert(mid(m));
    assert(by_rule(g, tok, n1, d, i, j));
    assert(der(g, tok, n + 1, g.s_get_lhs(d), i, j));
}
// ---- soundness (P12) ----
/// The partial match `k` of set `i` is justified: its left side was predicted at an earlier position, and its
/// first part derives the tokens read in between. `pos` gives the input position of each set (sets are renumbered when some are discarded).
pub open spec fn held<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, tok: Tokens, pos: Seq<int>, k: (u32, u32), i: int) -> bool {
    &&& k.0 < i
    &&& exists|b: Symbol, x: Symbol| #[trigger] starts_in(r.grammar, b, k.1, x) && r.predicted.rows()[k.0 as int].has(x.id()) && derives(r.grammar, tok, b, pos[k.0 as int], pos[i])
}
pub open spec fn sound<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, tok: Tokens, pos: Seq<int>) -> bool {
    &&& pos.len() == r.medial.indices@.len()
    &&& forall|i: int, k: (u32, u32)| 0 <= i < pos.len() && #[trigger] has_key(all_sets(r.medial)[i], k) ==> held(r, tok, pos, k, i)
    &&& forall|k: (u32, u32)| #[trigger] has_key(r.complete.0@, k) ==> k.0 + 1 < pos.len() && derives(r.grammar, tok, r.grammar.s_get_lhs(k.1), pos[k.0 as int], pos.last())
}
/// A match of `sym` since position `o` makes only justified items.
pub proof fn lemma_sound_adv<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, tok: Tokens, pos: Seq<int>, o: u32, sym: Symbol, done: bool, k: (u32, u32))
    requires lists_ok(a.grammar), v_wf(a.medial), sound(a, tok, pos), o + 1 < pos.len(), derives(a.grammar, tok, sym, pos[o as int], pos.last()), adv(a, o, sym, done, k)
    ensures !done ==> held(a, tok, pos, k, pos.len() - 1), done ==> k.0 <= o && derives(a.grammar, tok, a.grammar.s_get_lhs(k.1), pos[k.0 as int], pos.last())
{
    let g = a.grammar; let row = a.predicted.rows()[o as int]; let hint = a.lookahead.next_symbol; let set = v_sets(a.medial)[o as int];
    if sym.id() >= g.s_num_syms() {
        let t = g.s_gen_completion(sym)[if done { 1 } else { 0 }]->0;
        assert(g.s_gen_completion(sym).len() == 2); assert(starts_in(g, sym, t.dot, t.symbol)); assert(starts(g, sym, t.dot)); assert(k == (o, t.dot)); assert(row.has(t.symbol.id()));
        if done { lemma_rule1(g, tok, t.dot, sym, pos[o as int], pos.last()); }
        else { assert(k.1 == t.dot && k.0 == o); assert(a.predicted.rows()[k.0 as int].has(t.symbol.id())); assert(derives(a.grammar, tok, sym, pos[k.0 as int], pos[pos.len() - 1])); assert(starts_in(g, sym, k.1, t.symbol)); assert(held(a, tok, pos, k, pos.len() - 1)); }
    } else if done && adv_medial(g, P::LOOKAHEAD, hint, set, sym, k) {
        let i = choose|i: int| 0 <= i < set.len() && post(g, (#[trigger] set[i]).dot) == Some(sym) && (!P::LOOKAHEAD || useful_lhs(g, hint, set[i].dot)) && key(set[i]) == k;
        assert(all_sets(a.medial)[o as int] == set) by { assert(v_sets(a.medial).len() == pos.len() - 1); }
        assert(has_key(all_sets(a.medial)[o as int], k));
        let (b, x) = choose|b: Symbol, x: Symbol| #[trigger] starts_in(g, b, k.1, x) && a.predicted.rows()[k.0 as int].has(x.id()) && derives(g, tok, b, pos[k.0 as int], pos[o as int]);
        assert(starts(g, b, k.1));
        lemma_rule2(g, tok, k.1, b, sym, pos[k.0 as int], pos[o as int], pos.last());
    } else {
        assert(adv_pred(g, P::LOOKAHEAD, hint, row, o, sym, done, k));
        let i = choose|i: int| 0 <= i < g.s_completions(sym).len() && (#[trigger] g.s_completions(sym)[i]).is_unary == done && taken(g, P::LOOKAHEAD, hint, row, g.s_completions(sym)[i]) && k == (o, g.s_completions(sym)[i].dot);
        let t = g.s_completions(sym)[i];
        assert(starts_in(g, sym, t.dot, t.symbol)); assert(starts(g, sym, t.dot));
        assert(a.predicted.rows()[k.0 as int].has(t.symbol.id())); assert(k.0 < pos.len() - 1); assert(k.1 == t.dot);
        if !done { assert(derives(a.grammar, tok, sym, pos[k.0 as int], pos[pos.len() - 1])); assert(held(a, tok, pos, k, pos.len() - 1)); }
        if done { lemma_rule1(g, tok, t.dot, sym, pos[o as int], pos.last()); }
    }
}
/// Every processed group is a derivation.
pub proof fn lemma_sound_group<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, tok: Tokens, pos: Seq<int>, d: Seq<Group>, t: int)
    requires lists_ok(a.grammar), v_wf(a.medial), sound(a, tok, pos), 0 <= t < d.len(), forall|t: int| 0 <= t < d.len() ==> caused(a, d, t)
    ensures d[t].0 + 1 < pos.len(), derives(a.grammar, tok, d[t].1, pos[d[t].0 as int], pos.last())
    decreases t
{
    assert(caused(a, d, t));
    let k = choose|k: (u32, u32)| #[trigger] grp(a.grammar, k) == d[t] && (has_key(a.complete.0@, k) || exists|u: int| 0 <= u < t && #[trigger] adv(a, d[u].0, d[u].1, true, k));
    if !has_key(a.complete.0@, k) {
        let u = choose|u: int| 0 <= u < t && #[trigger] adv(a, d[u].0, d[u].1, true, k);
        lemma_sound_group(a, tok, pos, d, u);
        lemma_sound_adv(a, tok, pos, d[u].0, d[u].1, true, k);
    }
}
/// The input positions of the sets that stay.
pub open spec fn pos_after(pos: Seq<int>, n: int) -> Seq<int> { pos.take(n).push(pos.last()) }
pub proof fn lemma_sound_end<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, pos: Seq<int>, d: Seq<Group>, m: int)
    requires open_(a), lists_ok(a.grammar), sound(a, tok, pos), closure_(a, b, d), advanced(a, b, m), idle(b), same_top(v_cur(b.medial), a.medial.indices@.len() - 2, m)
    ensures sound(b, tok, pos_after(pos, kept(a.medial, m)))
{
    let n = kept(a.medial, m); let pos2 = pos_after(pos, n); let g = a.grammar; let last = pos.len() - 1;
    assert forall|i: int, k: (u32, u32)| 0 <= i < pos2.len() && #[trigger] has_key(all_sets(b.medial)[i], k) implies held(b, tok, pos2, k, i) by {
        if i < n {
            assert(all_sets(b.medial)[i] == v_sets(b.medial)[i]); assert(v_sets(b.medial)[i] == v_sets(a.medial)[i]); assert(all_sets(a.medial)[i] == v_sets(a.medial)[i]);
            assert(has_key(all_sets(a.medial)[i], k)); assert(held(a, tok, pos, k, i));
            assert(b.predicted.rows()[k.0 as int] == a.predicted.rows()[k.0 as int]);
        } else {
            assert(all_sets(b.medial)[i] == v_cur(b.medial));
            assert(has_key(v_cur(b.medial), k));
            let j = choose|j: int| 0 <= j < v_cur(b.medial).len() && key(#[trigger] v_cur(b.medial)[j]) == k;
            assert(all_sets(b.medial)[i][j].origin < i);
            if has_key(v_cur(a.medial), k) { assert(has_key(all_sets(a.medial)[last], k)); }
            else {
                let t = choose|t: int| 0 <= t < d.len() && #[trigger] adv(a, d[t].0, d[t].1, false, k);
                lemma_sound_group(a, tok, pos, d, t);
                lemma_sound_adv(a, tok, pos, d[t].0, d[t].1, false, k);
            }
            assert(held(a, tok, pos, k, last));
            assert(b.predicted.rows()[k.0 as int] == a.predicted.rows()[k.0 as int]);
            assert(pos2[k.0 as int] == pos[k.0 as int]);
        }
    }
}
