// ---- whole runs (P12, P13) ----
pub proof fn lemma_sound_scan<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, pos: Seq<int>, sym: Symbol)
    requires open_(a), lists_ok(a.grammar), sound(a, tok, pos), grows(a, b), scanned(a, b, sym), tok(pos[pos.len() - 2], sym), pos.last() == pos[pos.len() - 2] + 1, a.medial.indices@.len() < 0x7fff_ffff,
    ensures sound(b, tok, pos)
{
    let o = (pos.len() - 2) as u32; let last = pos.len() - 1;
    lemma_token(a.grammar, tok, sym, pos[pos.len() - 2]);
    assert(o == pos.len() - 2);
    assert forall|k: (u32, u32)| #[trigger] adv(a, o, sym, true, k) implies k.0 + 1 < pos.len() && derives(b.grammar, tok, b.grammar.s_get_lhs(k.1), pos[k.0 as int], pos.last()) by { lemma_sound_adv(a, tok, pos, o, sym, true, k); }
    assert forall|i: int, k: (u32, u32)| 0 <= i < pos.len() && #[trigger] has_key(all_sets(b.medial)[i], k) implies held(b, tok, pos, k, i) by {
        if i < last { assert(all_sets(b.medial)[i] == v_sets(b.medial)[i]); assert(all_sets(a.medial)[i] == v_sets(a.medial)[i]); assert(has_key(all_sets(a.medial)[i], k)); }
        else {
            assert(has_key(v_cur(b.medial), k));
            if has_key(v_cur(a.medial), k) { assert(has_key(all_sets(a.medial)[i], k)); } else { lemma_sound_adv(a, tok, pos, o, sym, false, k); }
        }
        assert(held(a, tok, pos, k, i));
    }
    assert forall|k: (u32, u32)| #[trigger] has_key(b.complete.0@, k) implies k.0 + 1 < pos.len() && derives(b.grammar, tok, b.grammar.s_get_lhs(k.1), pos[k.0 as int], pos.last()) by {
        if has_key(a.complete.0@, k) {} else { assert(adv(a, o, sym, true, k)); }
    }
}
pub proof fn lemma_sound_begin<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, pos: Seq<int>, q: int)
    requires idle(a), open_(b), sound(a, tok, pos), v_sets(b.medial) == all_sets(a.medial), v_cur(b.medial).len() == 0, b.predicted == a.predicted, b.complete == a.complete, b.grammar == a.grammar
    ensures sound(b, tok, pos.push(q))
{
    let pos1 = pos.push(q);
    assert(v_sets(b.medial).len() == b.medial.indices@.len() - 1);
    assert forall|i: int, k: (u32, u32)| 0 <= i < pos1.len() && #[trigger] has_key(all_sets(b.medial)[i], k) implies held(b, tok, pos1, k, i) by {
        if i < pos.len() { assert(all_sets(b.medial)[i] == all_sets(a.medial)[i]); assert(has_key(all_sets(a.medial)[i], k)); assert(held(a, tok, pos, k, i)); }
        else { assert(all_sets(b.medial)[i] == v_cur(b.medial)); }
    }
}
/// A finished parse that is reported is one.
pub proof fn lemma_sound_finished<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, tok: Tokens, pos: Seq<int>)
    requires idle(r), sound(r, tok, pos), eof_ok(r.grammar), pos[0] == 0, v_cur(r.medial).len() > 0, v_cur(r.medial)[0].dot == r.grammar.s_dot_before_eof()
    ensures accepts(r.grammar, tok, pos.last())
{
    let g = r.grammar; let k = key(v_cur(r.medial)[0]); let n = pos.len() - 1;
    assert(has_key(v_cur(r.medial), k)); assert(has_key(all_sets(r.medial)[n], k)); assert(held(r, tok, pos, k, n));
    let (b, x) = choose|b: Symbol, x: Symbol| #[trigger] starts_in(g, b, k.1, x) && r.predicted.rows()[k.0 as int].has(x.id()) && derives(g, tok, b, pos[k.0 as int], pos[n]);
    if k.0 > 0 {
        let s = all_sets(r.medial)[k.0 as int];
        assert(row_for(g, s, r.predicted.rows()[k.0 as int]));
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] pred(g, s[j])).has(x.id());
        assert(waiting(g, s)); assert(post(g, s[j].dot) == Some(g.s_start_sym()));
    }
    assert(starts(g, b, k.1));
}
/// A derivation that begins before position `c` and ends after it has, at `c`, the end of the first symbol of some rule.
pub proof fn lemma_boundary<G: Grammar>(g: G, tok: Tokens, an: Ann, h: Hist, n: nat, x: Symbol, p: int, q: int, c: int) -> (r: (Dot, Symbol, int, nat, Symbol))
    requires linked(g), honest(g, tok, an), visible(g, tok), complete_hist(g, tok, an, h), c == h.items.len(), 0 <= p < c < q, derl(g, tok, an, n, x, p, q), pre(g, h.rows[p], x)
    ensures 0 <= r.2 < c, starts_in(g, r.1, r.0, r.4), h.rows[r.2].has(r.4.id()), post(g, r.0) is Some, opens(g, an, r.0, c), derl(g, tok, an, r.3, r.1, r.2, c), pre(g, h.rows[r.2], r.1)
    decreases n
{
    hide(der); hide(derl); hide(by_rule); hide(by_rulel); hide(starts_in); hide(honest);
    let (r, s, m) = lemma_splitl(g, tok, an, n, x, p, q); let row = h.rows[p]; let k = (n - 1) as nat;
    assert(made_of_rows(g, row));
    lemma_descend(g, row, s, r);
    let y = choose|y: Symbol| #[trigger] starts_in(g, s, r, y) && row.has(y.id());
    match post(g, r) {
        None => lemma_boundary(g, tok, an, h, k, s, p, q, c),
        Some(z) => {
            lemma_derl_len(g, tok, an, k, s, p, m); lemma_derl_len(g, tok, an, k, z, m, q);
            lemma_derl_der(g, tok, an, k, z, m, q); lemma_opens(g, tok, an, k, r, m, q);
            if c < m { lemma_boundary(g, tok, an, h, k, s, p, m, c) }
            else if c == m { (r, s, p, k, y) }
            else {
                assert(derivesl(g, tok, an, s, p, m)); assert(h.rows[p].has(y.id()));
                assert((h.items[m])(r, p)); assert(g.s_prediction_row(z).has(z.id()));
                assert(within(g.s_prediction_row(z), h.rows[m]));
                assert(pre(g, h.rows[m], z));
                lemma_boundary(g, tok, an, h, k, z, m, q, c)
            }
        }
    }
}
pub proof fn lemma_accept_pre<G: Grammar>(g: G, tok: Tokens, an: Ann, h: Hist, b: Symbol) -> (y: Symbol)
    requires linked(g), eof_ok(g), complete_hist(g, tok, an, h), starts(g, b, g.s_dot_before_eof())
    ensures pre(g, h.rows[0], b), starts_in(g, b, g.s_dot_before_eof(), y), h.rows[0].has(y.id())
{
    let d0 = g.s_dot_before_eof();
    let y = choose|y: Symbol| #[trigger] starts_in(g, b, d0, y);
    assert(g.s_prediction_row(g.s_start_sym()).has(g.s_start_sym().id()));
    assert(h.rows[0].has(y.id()));
    assert(made_of_rows(g, h.rows[0]));
    lemma_enter(g, h.rows[0], b, d0, y);
    y
}
pub proof fn lemma_empty_closure<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>)
    requires a.complete.0@.len() == 0
    ensures closure_(a, a, Seq::empty())
{ }
/// Where an accepted input goes on, something is made by the scans.
pub proof fn lemma_goes_on<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, a: Recognizer<G, F, P>, tok: Tokens, an: Ann, pos: Seq<int>, h: Hist, q: int)
    requires finishing(a0, a, tok, an, pos, h), eof_ok(a0.grammar), q > pos.last(), accepts(a0.grammar, tok, q), (an.hint)(q) is None
    ensures v_cur(a.medial).len() > 0 || a.complete.0@.len() > 0
{
    hide(adv); hide(closure_); hide(found); hide(starts_in); hide(linked); hide(honest); hide(der); hide(derl);
    let g = a0.grammar; let d0 = g.s_dot_before_eof(); let c = pos.last() + 1;
    let b = choose|b: Symbol| #[trigger] starts(g, b, d0) && derives(g, tok, b, 0, q);
    let n = choose|n: nat| #[trigger] der(g, tok, n, b, 0, q);
    assert(c >= 1) by { if pos.len() > 1 { assert(pos[0] < pos[pos.len() - 1]); } }
    lemma_live(g, tok, an, n, b, 0, q);
    let y0 = lemma_accept_pre(g, tok, an, h, b);
    let (r, s, p, k, y) = if q == c { (d0, b, 0, n, y0) } else { lemma_boundary(g, tok, an, h, n, b, 0, q, c) };
    if v_cur(a.medial).len() == 0 && a.complete.0@.len() == 0 {
        let d = Seq::<Group>::empty();
        lemma_empty_closure(a);
        lemma_all_found(a0, a, a, tok, an, pos, h, d, k, s, p);
        let o = choose|o: u32| #[trigger] at(o) && o < pos.len() && pos[o as int] == p && found(a, tok, pos, d, o, s);
        assert(h.rows[pos[o as int]] == a0.predicted.rows()[o as int]);
        lemma_useful_open(g, tok, an, r, c);
        lemma_adv_first(a0, o, s, r, y);
        lemma_found_adv(a0, a, a, tok, an, pos, d, o, s, (o, r));
        assert(has_key(v_cur(a.medial), (o, r)));
    }
}
/// An accepted input is reported.
pub proof fn lemma_complete_finished<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, tok: Tokens, an: Ann, pos: Seq<int>, h: Hist)
    requires idle(r), linked(r.grammar), eof_ok(r.grammar), complete_hist(r.grammar, tok, an, h), honest(r.grammar, tok, an), visible(r.grammar, tok), (an.hint)(pos.last()) is None, real(r, pos, h), pos.len() == r.medial.indices@.len(), pos.last() > 0, accepts(r.grammar, tok, pos.last())
    ensures v_cur(r.medial).len() > 0 && v_cur(r.medial)[0].dot == r.grammar.s_dot_before_eof()
{
    let g = r.grammar; let d0 = g.s_dot_before_eof(); let n = pos.len() - 1; let c = v_cur(r.medial);
    let b = choose|b: Symbol| #[trigger] starts(g, b, d0) && derives(g, tok, b, 0, pos.last());
    let y = lemma_accept_pre(g, tok, an, h, b);
    let e = choose|e: nat| #[trigger] der(g, tok, e, b, 0, pos.last());
    lemma_live(g, tok, an, e, b, 0, pos.last());
    assert(derivesl(g, tok, an, b, 0, pos.last()));
    assert((h.items[pos.last()])(d0, 0)); assert((h.items[pos[n]])(d0, 0));
    let o = choose|o: u32| o < n && #[trigger] pos[o as int] == 0 && has_key(all_sets(r.medial)[n], (o, d0));
    assert(all_sets(r.medial)[n] == c);
    let j = choose|j: int| 0 <= j < c.len() && key(#[trigger] c[j]) == (o, d0);
    assert(sorted(g, c) && waiting(g, c)) by { assert(sorted(g, all_sets(r.medial)[n])); assert(waiting(g, all_sets(r.medial)[n])); }
    assert(sle(skey(g, c[0]), skey(g, c[j])));
    assert(post(g, c[0].dot) is Some);
}
/// The tokens that may be read at one position, and what is announced to follow (if anything).
pub struct Step { pub tokens: Vec<(Symbol, u32)>, pub hint: Option<Symbol> }
pub open spec fn can_read(input: Seq<Step>, tok: Tokens) -> bool {
    forall|i: int, s: Symbol| 0 <= i < input.len() ==> (#[trigger] tok(i, s) == exists|j: int| 0 <= j < input[i].tokens@.len() && (#[trigger] input[i].tokens@[j]).0 == s)
}
/// The first `n` alternatives were scanned.
pub open spec fn read_some<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, a: Recognizer<G, F, P>, t: Seq<(Symbol, u32)>, n: int) -> bool {
    let o = (a0.medial.indices@.len() - 2) as u32;
    &&& forall|j: int, k: (u32, u32)| #![trigger adv(a0, o, t[j].0, true, k)] 0 <= j < n && adv(a0, o, t[j].0, true, k) ==> has_key(a.complete.0@, k)
    &&& forall|j: int, k: (u32, u32)| #![trigger adv(a0, o, t[j].0, false, k)] 0 <= j < n && adv(a0, o, t[j].0, false, k) ==> has_key(v_cur(a.medial), k)
}
pub proof fn lemma_read_more<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, b: Recognizer<G, F, P>, c: Recognizer<G, F, P>, t: Seq<(Symbol, u32)>, n: int)
    requires 0 <= n < t.len(), read_some(a0, b, t, n), grows(a0, b), scanned(b, c, t[n].0)
    ensures read_some(a0, c, t, n + 1)
{
    hide(adv);
    let o = (a0.medial.indices@.len() - 2) as u32;
    assert(o == (b.medial.indices@.len() - 2) as u32);
    assert forall|j: int, k: (u32, u32)| #![trigger adv(a0, o, t[j].0, true, k)] 0 <= j < n + 1 && adv(a0, o, t[j].0, true, k) implies has_key(c.complete.0@, k) by {
        if j == n { lemma_adv_same(a0, b, o, t[n].0, true, k); } else { assert(has_key(b.complete.0@, k)); }
    }
    assert forall|j: int, k: (u32, u32)| #![trigger adv(a0, o, t[j].0, false, k)] 0 <= j < n + 1 && adv(a0, o, t[j].0, false, k) implies has_key(v_cur(c.medial), k) by {
        if j == n { lemma_adv_same(a0, b, o, t[n].0, false, k); } else { assert(has_key(v_cur(b.medial), k)); }
    }
}
pub proof fn lemma_read_in<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, a: Recognizer<G, F, P>, tok: Tokens, an: Ann, pos: Seq<int>, input: Seq<Step>, i: int)
    requires 0 <= i < input.len(), can_read(input, tok), read_some(a0, a, input[i].tokens@, input[i].tokens@.len() as int), a0.lookahead.next_symbol == (an.hint)(i + 1), grows(a0, a), pos.len() == a0.medial.indices@.len() - 1, pos.last() == i
    ensures read_in(a0, a, tok, an, pos)
{
    hide(adv);
    let t = input[i].tokens@; let o = (a0.medial.indices@.len() - 2) as u32;
    assert(o == (pos.len() - 1) as u32);
    assert forall|s: Symbol, k: (u32, u32)| tok(pos.last(), s) && #[trigger] adv(a0, (pos.len() - 1) as u32, s, true, k) implies has_key(a.complete.0@, k) by { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == s; assert(adv(a0, o, t[j].0, true, k)); }
    assert forall|s: Symbol, k: (u32, u32)| tok(pos.last(), s) && #[trigger] adv(a0, (pos.len() - 1) as u32, s, false, k) implies has_key(v_cur(a.medial), k) by { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == s; assert(adv(a0, o, t[j].0, false, k)); }
}
/// What was announced to follow position `q`.
pub open spec fn hint_at(input: Seq<Step>, q: int) -> Option<Symbol> { if 0 < q <= input.len() { input[q - 1].hint } else { None } }
/// Nothing is announced, or else only the one token that does follow (and the tables of following symbols are right).
pub open spec fn told_truth<G: Grammar>(g: G, tok: Tokens, input: Seq<Step>) -> bool {
    &&& forall|i: int, s: Symbol| #[trigger] tok(i, s) ==> s.id() < g.s_num_syms()
    &&& input.len() > 0 && input.last().hint is None
    &&& forall|i: int| 0 <= i < input.len() && (#[trigger] input[i]).hint is Some ==> (exists|fol: spec_fn(Symbol, Symbol) -> bool| look_ok(g, fol)) && terminal(g, input[i].hint->0) && forall|s: Symbol| #[trigger] tok(i + 1, s) ==> s == input[i].hint->0
}
pub open spec fn announced<G: Grammar>(g: G, input: Seq<Step>) -> Ann { Ann { hint: |q: int| hint_at(input, q), fol: choose|fol: spec_fn(Symbol, Symbol) -> bool| look_ok(g, fol) } }
pub proof fn lemma_honest<G: Grammar>(g: G, tok: Tokens, input: Seq<Step>)
    requires told_truth(g, tok, input)
    ensures honest(g, tok, announced(g, input)), visible(g, tok)
{
    let an = announced(g, input);
    assert forall|q: int| (#[trigger] (an.hint)(q)) is Some implies look_ok(g, an.fol) && terminal(g, (an.hint)(q)->0) && forall|s: Symbol| #[trigger] tok(q, s) ==> s == (an.hint)(q)->0 by {
        let i = q - 1; assert(input[i].hint is Some);
        assert forall|s: Symbol| #[trigger] tok(q, s) implies s == (an.hint)(q)->0 by { assert(tok(i + 1, s)); }
    }
}
