// ---- whole runs with their forest (P09) ----
/// At most one item with the rule before the end of input, from the beginning on.
pub open spec fn is_whole<G: Grammar, N>(g: G, x: Item<N>) -> bool { x.dot == g.s_dot_before_eof() && x.origin == 0 }
pub open spec fn whole_once<G: Grammar, N>(g: G, s: Seq<Item<N>>) -> bool { forall|j: int, k: int| 0 <= j < k < s.len() ==> !(is_whole(g, #[trigger] s[j]) && is_whole(g, #[trigger] s[k])) }
pub proof fn lemma_n_top_end<G: Grammar, F: Forest, P: PerfHint>(a0: Recognizer<G, F, P>, e: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, val: Values, pos: Seq<int>, t: Seq<(Symbol, u32)>, bk: Book<F::NodeRef>, tb: Symbol, ts: Symbol)
    requires keeps_book(a0, e, tok, val, pos, t, bk), v_cur(b.medial).to_multiset() == v_cur(e.medial).to_multiset(), topped_for(e.grammar, tok, tb, ts)
    ensures whole_once(e.grammar, v_cur(b.medial))
{
    let g = e.grammar; let f = e.forest; let ce = v_cur(e.medial); let cb = v_cur(b.medial);
    let p = |x: Item<F::NodeRef>| is_whole(g, x);
    assert(topped(g, tb, ts)); assert(one_top(g, tb, bk, e.complete.0@));
    assert forall|j: int| 0 <= j < ce.len() && is_whole(g, #[trigger] ce[j]) implies is_top(bk.dn[bk.cu[j]], tb) by {
        let u = bk.cu[j]; let d = bk.dn[u]; assert(starts(g, d.sym, ce[j].dot)); assert(d.sym == tb);
        if d.sum.len() == 0 {
            assert(dn_node(f, bk.log, bk.dn[u])); let y = Tree::Leaf(d.sym, f.node(d.node)->Leaf_1);
            assert(good(g, f, tok, val, bk.dn[u].node, d.sym, pos[d.o as int], pos.last())); assert(ways(f, d.node, y) == 1); assert(fits(g, tok, val, y, d.sym, pos[d.o as int], pos.last()));
            assert(tok(pos[d.o as int], d.sym));
        }
    }
    assert forall|j: int, k: int| 0 <= j < k < ce.len() implies !(p(#[trigger] ce[j]) && p(#[trigger] ce[k])) by {
        if p(ce[j]) && p(ce[k]) { assert(is_top(bk.dn[bk.cu[j]], tb) && is_top(bk.dn[bk.cu[k]], tb)); assert(bk.cu[j] == bk.cu[k]); }
    }
    assert(at_most_one(ce, p));
    lemma_n_reordered(ce, cb, p);
    assert forall|j: int, k: int| 0 <= j < k < cb.len() implies !(is_whole(g, #[trigger] cb[j]) && is_whole(g, #[trigger] cb[k])) by { assert(!(p(cb[j]) && p(cb[k]))); }
}
/// What holds of the forest between positions.
pub open spec fn speaks<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, tok: Tokens, val: Values, an: Ann, h: Hist, pos: Seq<int>, quiet: bool) -> bool {
    r.forest.lawful() ==> told(r, tok, val, pos) && (quiet ==> full(r.grammar, r.forest, tok, val, an, h, pos, all_sets(r.medial)) && ((exists|b: Symbol, s: Symbol| #[trigger] topped_for(r.grammar, tok, b, s)) ==> whole_once(r.grammar, v_cur(r.medial))))
}
/// One position.
pub proof fn lemma_n_position<G: Grammar, F: Forest, P: PerfHint>(r0: Recognizer<G, F, P>, a0: Recognizer<G, F, P>, a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, tok: Tokens, val: Values, an: Ann, h: Hist, pos: Seq<int>, t: Seq<(Symbol, u32)>, bk: Book<F::NodeRef>, quiet: bool, d: Seq<Group>, m: int)
    requires speaks(r0, tok, val, an, h, pos, quiet), a0.forest == r0.forest, a0.grammar == r0.grammar, v_sets(a0.medial) == all_sets(r0.medial), grows(a0, a), open_(a), lists_ok(a.grammar), lone(a.grammar), pos.len() == v_sets(a0.medial).len(), pos.len() >= 1,
        a.forest.lawful() ==> a0.forest.lawful() && keeps_book(a0, a, tok, val, pos.push(pos.last() + 1), t, bk), forall|s: Symbol| #[trigger] tok(pos.last(), s) ==> exists|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == s,
        exists|e: Recognizer<G, F, P>, tr: Seq<Recognizer<G, F, P>>, sts: Seq<Move<G, F, P>>| #[trigger] chain(a, e, tr, sts) && closes(e, b) && grows_but_hint(a, e),
        closure_(a, b, d), advanced(a, b, m), same_top(v_cur(b.medial), a.medial.indices@.len() - 2, m), idle(b), quiet ==> finishing(a0, a, tok, an, pos, h),
    ensures speaks(b, tok, val, an, next_hist(b, pos, h), pos_after(pos.push(pos.last() + 1), kept(a.medial, m)), quiet)
{
    hide(adv); hide(lists_ok); hide(completing); hide(did); hide(closure_); hide(finishing); hide(full); hide(lone); hide(sets_ok); hide(rows_for); hide(rows_ok); hide(topped_for); hide(listed); hide(sets_good); hide(sets_apart); hide(counts_all); hide(one_tops); hide(whole_once); hide(honest);
    let g = a.grammar; let q = pos.last() + 1; let pos1 = pos.push(q); let n = kept(a.medial, m);
    if b.forest.lawful() {
        let (e, tr, sts) = choose|e: Recognizer<G, F, P>, tr: Seq<Recognizer<G, F, P>>, sts: Seq<Move<G, F, P>>| #[trigger] chain(a, e, tr, sts) && closes(e, b) && grows_but_hint(a, e);
        assert(tr.last() == tr[sts.len() as int]); assert(e.forest == tr.last().forest);
        let b2 = lemma_n_chain(a0, a, e, tr, sts, tok, val, pos1, t, bk, sts.len() as int);
        assert(keeps_book(a0, e, tok, val, pos1, t, b2));
        assert(e.complete.0@.len() == 0);
        assert(keeps(a0.forest, e.forest));
        assert(a0.forest.lawful());
        assert(n <= v_sets(e.medial).len());
        let cb = v_cur(b.medial);
        assert(all_sets(b.medial)[n] == cb);
        assert forall|k: int| 0 <= k < cb.len() implies (#[trigger] cb[k]).origin < n by { reveal(sets_ok); assert(all_sets(b.medial)[n][k].origin < n); }
        lemma_n_end(a0, e, b, tok, val, pos1, t, b2, n);
        if quiet {
            lemma_what_stays(a0, a, b, tok, an, pos, h, d, m);
            lemma_n_full_end(a0, a, e, b, tok, val, an, pos, h, q, t, b2, n);
            if exists|x: Symbol, s: Symbol| #[trigger] topped_for(g, tok, x, s) { let (x, s) = choose|x: Symbol, s: Symbol| #[trigger] topped_for(g, tok, x, s); lemma_n_top_end(a0, e, b, tok, val, pos1, t, b2, x, s); }
        }
    }
}
/// The reported node represents derivations of the whole input.
pub open spec fn all_good<G: Grammar, F: Forest>(g: G, f: F, tok: Tokens, val: Values, node: F::NodeRef, n: int) -> bool {
    exists|b: Symbol| #[trigger] starts(g, b, g.s_dot_before_eof()) && good(g, f, tok, val, node, b, 0, n)
}
/// A tree of the whole input (the end of input excepted).
pub open spec fn parses<G: Grammar>(g: G, tok: Tokens, val: Values, t: Tree, n: int) -> bool { starts(g, root(g, t), g.s_dot_before_eof()) && dtree(g, tok, val, t, 0) && width(t) == n }
pub proof fn lemma_n_from_start<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, tok: Tokens, pos: Seq<int>, j: int)
    requires idle(r), sound(r, tok, pos), eof_ok(r.grammar), 0 <= j < v_cur(r.medial).len(), v_cur(r.medial)[j].dot == r.grammar.s_dot_before_eof()
    ensures v_cur(r.medial)[j].origin == 0
{
    let g = r.grammar; let k = key(v_cur(r.medial)[j]); let n = pos.len() - 1;
    assert(has_key(v_cur(r.medial), k)); assert(has_key(all_sets(r.medial)[n], k)); assert(held(r, tok, pos, k, n));
    let (b, x) = choose|b: Symbol, x: Symbol| #[trigger] starts_in(g, b, k.1, x) && r.predicted.rows()[k.0 as int].has(x.id()) && derives(g, tok, b, pos[k.0 as int], pos[n]);
    if k.0 > 0 {
        let s = all_sets(r.medial)[k.0 as int];
        assert(row_for(g, s, r.predicted.rows()[k.0 as int]));
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] pred(g, s[j])).has(x.id());
        assert(waiting(g, s)); assert(post(g, s[j].dot) == Some(g.s_start_sym()));
    }
}
pub proof fn lemma_n_reported<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, tok: Tokens, val: Values, an: Ann, h: Hist, pos: Seq<int>, quiet: bool)
    requires idle(r), sound(r, tok, pos), eof_ok(r.grammar), pos.len() == r.medial.indices@.len(), pos[0] == 0, r.forest.lawful(), speaks(r, tok, val, an, h, pos, quiet), v_cur(r.medial).len() > 0, v_cur(r.medial)[0].dot == r.grammar.s_dot_before_eof()
    ensures all_good(r.grammar, r.forest, tok, val, v_cur(r.medial)[0].node, pos.last())
{
    let g = r.grammar; let n = pos.len() - 1; let c = v_cur(r.medial); let x = c[0];
    lemma_n_from_start(r, tok, pos, 0);
    assert(all_sets(r.medial)[n][0] == x); assert(set_item(g, r.forest, tok, val, pos, all_sets(r.medial)[n][0], n));
    let b = choose|b: Symbol| #[trigger] starts(g, b, x.dot) && good(g, r.forest, tok, val, x.node, b, pos[x.origin as int], pos[n]);
    assert(starts(g, b, g.s_dot_before_eof()));
}
pub proof fn lemma_n_all_reported<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, tok: Tokens, val: Values, an: Ann, h: Hist, pos: Seq<int>, t: Tree)
    requires idle(r), sound(r, tok, pos), promises(r.grammar), pos.len() == r.medial.indices@.len(), pos.last() > 0, real(r, pos, h), complete_hist(r.grammar, tok, an, h), honest(r.grammar, tok, an), visible(r.grammar, tok), (an.hint)(pos.last()) is None,
        r.forest.lawful(), speaks(r, tok, val, an, h, pos, true), exists|b: Symbol, s: Symbol| #[trigger] topped_for(r.grammar, tok, b, s), parses(r.grammar, tok, val, t, pos.last()),
    ensures v_cur(r.medial).len() > 0, v_cur(r.medial)[0].dot == r.grammar.s_dot_before_eof(), ways(r.forest, v_cur(r.medial)[0].node, t) == 1
{
    hide(adv); hide(lists_ok); hide(honest); hide(rows_ok);
    let g = r.grammar; let n = pos.len() - 1; let c = v_cur(r.medial); let d0 = g.s_dot_before_eof(); let s = root(g, t);
    lemma_n_derives(g, tok, val, t, 0);
    assert(accepts(g, tok, pos.last()));
    lemma_complete_finished(r, tok, an, pos, h);
    let y = lemma_accept_pre(g, tok, an, h, s);
    assert(due(g, tok, val, an, h, t, d0, 0, pos[n]));
    assert(all_sets(r.medial)[n] == c);
    assert(holds(r.forest, pos, all_sets(r.medial)[n], t, d0, 0));
    let k = choose|k: int| 0 <= k < c.len() && (#[trigger] c[k]).dot == d0 && pos[c[k].origin as int] == 0 && ways(r.forest, c[k].node, t) > 0;
    lemma_n_from_start(r, tok, pos, 0); lemma_n_from_start(r, tok, pos, k);
    if k > 0 { assert(!(is_whole(g, c[0]) && is_whole(g, c[k]))); }
    assert(set_item(g, r.forest, tok, val, pos, all_sets(r.medial)[n][0], n));
}
pub proof fn lemma_n_nothing_yet<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, tok: Tokens, val: Values, an: Ann, h: Hist, pos: Seq<int>, quiet: bool)
    requires all_sets(r.medial) == seq![Seq::<Item<F::NodeRef>>::empty()], pos.len() == 1, pos[0] == 0, v_cur(r.medial).len() == 0, r.forest.lawful() ==> r.forest.calm()
    ensures speaks(r, tok, val, an, h, pos, quiet)
{
    assert(all_sets(r.medial)[0].len() == 0);
    assert forall|i: int, a: Tree, d: Dot, p: int| #![trigger due(r.grammar, tok, val, an, h, a, d, p, pos[i]), all_sets(r.medial)[i]] 0 <= i < all_sets(r.medial).len() && due(r.grammar, tok, val, an, h, a, d, p, pos[i]) implies holds(r.forest, pos, all_sets(r.medial)[i], a, d, p) by { assert(i == 0); }
}
/// As `told_truth`, and the terminals read at one position are distinct, with the values `val`.
pub open spec fn reads_once(tok: Tokens, val: Values, input: Seq<Step>) -> bool {
    forall|i: int| 0 <= i < input.len() ==> once_each((#[trigger] input[i]).tokens@) && forall|j: int| 0 <= j < input[i].tokens@.len() ==> (#[trigger] input[i].tokens@[j]).1 == val(i, input[i].tokens@[j].0)
}
pub open spec fn once_each(t: Seq<(Symbol, u32)>) -> bool { forall|j: int, k: int| 0 <= j < k < t.len() ==> (#[trigger] t[j]).0 != (#[trigger] t[k]).0 }
/// Reads an input with the recognizer's own methods and takes the reported node: `Ok(None)` if no finished parse is reported, `Err(i)` if position `i` could not be advanced over.
pub fn parse_all<G: Grammar, F: Forest, P: PerfHint>(grammar: G, forest: F, policy: P, input: &Vec<Step>, Ghost(tok): Ghost<Tokens>, Ghost(val): Ghost<Values>) -> (res: (Recognizer<G, F, P>, Result<Option<F::NodeRef>, usize>))
    requires promises(grammar), lone(grammar), !P::LEO, input@.len() < 0x7fff_fff0, input@.len() > 0, can_read(input@, tok), reads_once(tok, val, input@), forest.lawful() ==> forest.calm()
    ensures
        // P09: what the reported node represents are derivations of the whole input, no tree twice
        res.0.forest.lawful() && res.1 is Ok && res.1->Ok_0 is Some ==> all_good(grammar, res.0.forest, tok, val, res.1->Ok_0->0, input@.len() as int),
        // P09: and every derivation of the whole input is represented
        res.0.forest.lawful() && res.1 is Ok && told_truth(grammar, tok, input@) && (exists|b: Symbol, s: Symbol| #[trigger] topped_for(grammar, tok, b, s)) ==>
            forall|t: Tree| #[trigger] parses(grammar, tok, val, t, input@.len() as int) ==> res.1->Ok_0 is Some && ways(res.0.forest, res.1->Ok_0->0, t) == 1,
{
    let ghost g = grammar; let ghost quiet = told_truth(g, tok, input@);
    let ghost an = announced(g, input@);
    proof { if quiet { lemma_honest(g, tok, input@); } }
    let mut r = Recognizer::with_forest_and_policy(grammar, forest, policy);
    let ghost mut pos = seq![0int]; let ghost mut h = Hist { items: seq![|d: Dot, p: int| false], rows: seq![r.predicted.rows()[0]] };
    proof {
        assert(all_sets(r.medial) =~= seq![Seq::empty()]);
        let row = r.predicted.rows()[0]; let sr = g.s_prediction_row(g.s_start_sym());
        assert(within(sr, row)); assert(made_of_rows(g, row));
        assert(sound(r, tok, pos)); assert(complete_hist(g, tok, an, h)); assert(real(r, pos, h));
        lemma_n_nothing_yet(r, tok, val, an, h, pos, quiet);
    }
    let mut i = 0;
    while i < input.len()
        invariant i <= input@.len(), input@.len() < 0x7fff_fff0, can_read(input@, tok), promises(g), lone(g), !P::LEO, r.grammar == g, idle(r), sound(r, tok, pos), pos[0] == 0, pos.last() == i, pos.len() <= i + 1,
            g == grammar, i > 0 ==> pos.len() >= 2, pos.len() >= 1, r.lookahead.next_symbol is None, reads_once(tok, val, input@), speaks(r, tok, val, an, h, pos, quiet),
            quiet ==> complete_hist(g, tok, an, h) && real(r, pos, h),
            quiet == told_truth(g, tok, input@), quiet ==> honest(g, tok, an) && visible(g, tok) && hint_at(input@, input@.len() as int) is None, an == announced(g, input@),
        decreases input@.len() - i
    {
        let ghost r0 = r; let step = &input[i];
        r.begin_earleme();
        let ghost pos1 = pos.push(i + 1);
        proof { lemma_sound_begin(r0, r, tok, pos, i + 1); }
        if let Some(hint) = step.hint { r.lookahead().set_hint(hint); }
        let ghost a0 = r; let ghost t = step.tokens@;
        let ghost mut bk = empty_book::<F::NodeRef>();
        proof {
            assert(all_sets(a0.medial) =~= all_sets(r0.medial).push(v_cur(a0.medial))); assert(open_(a0));
            assert(sound(a0, tok, pos1)) by { assert forall|i: int, k: (u32, u32)| 0 <= i < pos1.len() && #[trigger] has_key(all_sets(a0.medial)[i], k) implies held(a0, tok, pos1, k, i) by { } }
            assert(a0.forest == r0.forest && v_sets(a0.medial) == all_sets(r0.medial));
            if a0.forest.lawful() { lemma_n_begin(r0, a0, tok, val, pos, i + 1); }
            assert(t.take(0) =~= Seq::empty());
        }
        let mut j = 0;
        while j < step.tokens.len()
            invariant j <= step.tokens@.len(), *step == input@[i as int], i < input@.len(), input@.len() < 0x7fff_fff0, can_read(input@, tok), promises(g), lone(g), !P::LEO, r.grammar == g, a0.grammar == g, open_(r), sound(r, tok, pos1),
                pos1 == pos.push(i + 1), pos.last() == i, pos.len() <= i + 1, pos.len() >= 1, grows(a0, r), v_wf(a0.medial), pos.len() == a0.medial.indices@.len() - 1,
                read_some(a0, r, step.tokens@, j as int), t == step.tokens@, once_each(t), reads_once(tok, val, input@),
                r.forest.lawful() ==> a0.forest.lawful() && keeps_book(a0, r, tok, val, pos1, t.take(j as int), bk) && bk.dn.len() == j,
            decreases step.tokens@.len() - j
        {
            let ghost b = r; let (sym, value) = step.tokens[j];
            r.scan(sym, value);
            proof {
                assert(tok(i as int, sym)) by { assert(step.tokens@[j as int].0 == sym); }
                assert(pos1[pos1.len() - 2] == i);
                lemma_sound_scan(b, r, tok, pos1, sym);
                lemma_read_more(a0, b, r, step.tokens@, j as int);
                if r.forest.lawful() {
                    let (c, node, s, fr, m) = choose|c: Recognizer<G, F, P>, node: F::NodeRef, s: Seq<Item<F::NodeRef>>, fr: Seq<int>, m: Seq<Item<F::NodeRef>>| #[trigger] read_one(b, c, r, sym, value, node, s, fr, m);
                    bk = lemma_n_read(a0, b, c, r, tok, val, pos1, t, bk, j as int, node, s, fr, m);
                }
            }
            j = j + 1;
        }
        let ghost a = r;
        proof {
            assert(t.take(j as int) =~= t);
            assert forall|s: Symbol| #[trigger] tok(pos.last(), s) implies exists|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == s by { assert(tok(i as int, s)); }
            if quiet {
                assert(a0.lookahead.next_symbol == (an.hint)(i + 1));
                assert(read_in(a0, a, tok, an, pos)) by { lemma_read_in(a0, a, tok, an, pos, input@, i as int); }
                assert(finishing(a0, a, tok, an, pos, h)) by {
                    assert(v_sets(a0.medial) == all_sets(r0.medial));
                    assert(before(a0, pos, h));
                }
            }
        }
        if !r.end_earleme() { return (r, Err(i)); }
        proof {
            let (d, m) = choose|d: Seq<Group>, m: int| #![trigger closure_(a, r, d), advanced(a, r, m)] closure_(a, r, d) && advanced(a, r, m) && same_top(v_cur(r.medial), a.medial.indices@.len() - 2, m);
            lemma_sound_end(a, r, tok, pos1, d, m);
            let n = kept(a.medial, m); let pos2 = pos_after(pos1, n);
            lemma_n_position(r0, a0, a, r, tok, val, an, h, pos, t, bk, quiet, d, m);
            if quiet { lemma_complete_hist(a0, a, r, tok, an, pos, h, d, m); lemma_real_end(a0, a, r, tok, an, pos, h, d, m); }
            h = next_hist(r, pos, h);
            assert(pos2[0] == 0);
            pos = pos2;
        }
        i = i + 1;
    }
    let f = r.finished_node();
    proof {
        if r.forest.lawful() {
            if f is Some { lemma_n_reported(r, tok, val, an, h, pos, quiet); }
            if quiet && (exists|b: Symbol, s: Symbol| #[trigger] topped_for(g, tok, b, s)) {
                assert forall|t: Tree| #[trigger] parses(g, tok, val, t, i as int) implies f is Some && ways(r.forest, f->0, t) == 1 by { lemma_n_all_reported(r, tok, val, an, h, pos, t); }
            }
        }
    }
    (r, Ok(f))
}
