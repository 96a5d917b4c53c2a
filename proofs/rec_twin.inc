// ---- two recognizers in one state (P16): what they hold decides what they do ----
pub open spec fn twin<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, n: int) -> bool {
    &&& a.grammar == b.grammar && a.lookahead.next_symbol == b.lookahead.next_symbol && a.medial.indices@.len() == b.medial.indices@.len()
    &&& forall|i: int| 0 <= i < a.medial.indices@.len() ==> same_keys(#[trigger] all_sets(a.medial)[i], all_sets(b.medial)[i])
    &&& forall|i: int| 0 <= i < n ==> same_bits(#[trigger] a.predicted.rows()[i], b.predicted.rows()[i])
    &&& same_keys(a.complete.0@, b.complete.0@)
}
pub proof fn lemma_medial_key<G: Grammar, N>(g: G, look: bool, hint: Option<Symbol>, set: Seq<Item<N>>, sym: Symbol, k: (u32, u32))
    ensures adv_medial(g, look, hint, set, sym, k) == (has_key(set, k) && post(g, k.1) == Some(sym) && (!look || useful_lhs(g, hint, k.1)))
{
    if has_key(set, k) && post(g, k.1) == Some(sym) && (!look || useful_lhs(g, hint, k.1)) { let j = choose|j: int| 0 <= j < set.len() && key(#[trigger] set[j]) == k; assert(post(g, set[j].dot) == Some(sym)); }
    if adv_medial(g, look, hint, set, sym, k) { let i = choose|i: int| 0 <= i < set.len() && post(g, (#[trigger] set[i]).dot) == Some(sym) && (!look || useful_lhs(g, hint, set[i].dot)) && key(set[i]) == k; assert(has_key(set, k)); }
}
pub proof fn lemma_pred_bits<G: Grammar>(g: G, look: bool, hint: Option<Symbol>, ra: BitSlice, rb: BitSlice, o: u32, sym: Symbol, unary: bool, k: (u32, u32))
    requires same_bits(ra, rb), adv_pred(g, look, hint, ra, o, sym, unary, k)
    ensures adv_pred(g, look, hint, rb, o, sym, unary, k)
{
    let i = choose|i: int| 0 <= i < g.s_completions(sym).len() && (#[trigger] g.s_completions(sym)[i]).is_unary == unary && taken(g, look, hint, ra, g.s_completions(sym)[i]) && k == (o, g.s_completions(sym)[i].dot);
    assert(ra.has(g.s_completions(sym)[i].symbol.id()) == rb.has(g.s_completions(sym)[i].symbol.id()));
    assert(taken(g, look, hint, rb, g.s_completions(sym)[i]));
}
pub proof fn lemma_twin_adv<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, n: int, o: u32, sym: Symbol, done: bool, k: (u32, u32))
    requires twin(a, b, n), o < n, n < a.medial.indices@.len(), v_wf(a.medial), v_wf(b.medial)
    ensures adv(a, o, sym, done, k) == adv(b, o, sym, done, k)
{
    let g = a.grammar; let ra = a.predicted.rows()[o as int]; let rb = b.predicted.rows()[o as int]; let hint = a.lookahead.next_symbol;
    assert(same_bits(ra, rb)); assert(same_bits(rb, ra));
    assert(all_sets(a.medial)[o as int] == v_sets(a.medial)[o as int]); assert(all_sets(b.medial)[o as int] == v_sets(b.medial)[o as int]);
    if sym.id() >= g.s_num_syms() {
        let t = g.s_gen_completion(sym)[if done { 1 } else { 0 }];
        if t is Some { assert(ra.has((t->0).symbol.id()) == rb.has((t->0).symbol.id())); }
    } else {
        assert(ra.has(sym.id()) == rb.has(sym.id()));
        let sa = v_sets(a.medial)[o as int]; let sb = v_sets(b.medial)[o as int];
        lemma_medial_key(g, P::LOOKAHEAD, hint, sa, sym, k); lemma_medial_key(g, P::LOOKAHEAD, hint, sb, sym, k);
        assert(has_key(sa, k) == has_key(sb, k));
        if adv_pred(g, P::LOOKAHEAD, hint, ra, o, sym, done, k) { lemma_pred_bits(g, P::LOOKAHEAD, hint, ra, rb, o, sym, done, k); }
        if adv_pred(g, P::LOOKAHEAD, hint, rb, o, sym, done, k) { lemma_pred_bits(g, P::LOOKAHEAD, hint, rb, ra, o, sym, done, k); }
    }
}
pub proof fn lemma_twin_begin<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, a1: Recognizer<G, F, P>, b1: Recognizer<G, F, P>, n: int)
    requires twin(a, b, n), n == a.medial.indices@.len(), idle(a), idle(b), open_(a1), open_(b1),
        v_sets(a1.medial) == all_sets(a.medial), v_cur(a1.medial).len() == 0, a1.predicted == a.predicted, a1.complete == a.complete, a1.lookahead == a.lookahead, a1.grammar == a.grammar,
        v_sets(b1.medial) == all_sets(b.medial), v_cur(b1.medial).len() == 0, b1.predicted == b.predicted, b1.complete == b.complete, b1.lookahead == b.lookahead, b1.grammar == b.grammar,
    ensures twin(a1, b1, n), a1.medial.indices@.len() == n + 1
{
    assert(v_sets(a1.medial).len() == a1.medial.indices@.len() - 1); assert(v_sets(b1.medial).len() == b1.medial.indices@.len() - 1);
    assert forall|i: int| 0 <= i < n + 1 implies same_keys(#[trigger] all_sets(a1.medial)[i], all_sets(b1.medial)[i]) by {
        if i < n { assert(all_sets(a1.medial)[i] == all_sets(a.medial)[i]); assert(all_sets(b1.medial)[i] == all_sets(b.medial)[i]); }
    }
}
pub proof fn lemma_twin_scan<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, a1: Recognizer<G, F, P>, b1: Recognizer<G, F, P>, n: int, sym: Symbol)
    requires twin(a, b, n), n == a.medial.indices@.len() - 1, n < 0x7fff_ffff, open_(a), open_(b), grows(a, a1), scanned(a, a1, sym), grows(b, b1), scanned(b, b1, sym)
    ensures twin(a1, b1, n)
{
    hide(adv); hide(v_wf); hide(open_);
    let o = (n - 1) as u32;
    assert(v_wf(a.medial) && v_wf(b.medial) && a.medial.indices@.len() >= 2) by { reveal(open_); }
    assert(o < n);
    assert forall|k: (u32, u32)| #![trigger has_key(a1.complete.0@, k)] #![trigger has_key(b1.complete.0@, k)] has_key(a1.complete.0@, k) == has_key(b1.complete.0@, k) by { lemma_twin_adv(a, b, n, o, sym, true, k); assert(has_key(a.complete.0@, k) == has_key(b.complete.0@, k)); }
    let ca = v_cur(a1.medial); let cb = v_cur(b1.medial);
    assert(same_keys(all_sets(a.medial)[n], all_sets(b.medial)[n]));
    assert(v_sets(a.medial).len() == n && v_sets(b.medial).len() == n);
    assert(all_sets(a.medial)[n] == v_cur(a.medial) && all_sets(b.medial)[n] == v_cur(b.medial));
    assert forall|k: (u32, u32)| #![trigger has_key(ca, k)] #![trigger has_key(cb, k)] has_key(ca, k) == has_key(cb, k) by { lemma_twin_adv(a, b, n, o, sym, false, k); assert(has_key(v_cur(a.medial), k) == has_key(v_cur(b.medial), k)); }
    assert forall|i: int| 0 <= i < n + 1 implies same_keys(#[trigger] all_sets(a1.medial)[i], all_sets(b1.medial)[i]) by {
        if i < n { assert(all_sets(a1.medial)[i] == all_sets(a.medial)[i]); assert(all_sets(b1.medial)[i] == all_sets(b.medial)[i]); }
        else { assert(all_sets(a1.medial)[i] == ca && all_sets(b1.medial)[i] == cb); }
    }
}
pub proof fn lemma_twin_groups<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, a1: Recognizer<G, F, P>, b1: Recognizer<G, F, P>, n: int, da: Seq<Group>, db: Seq<Group>, t: int)
    requires twin(a, b, n), n == a.medial.indices@.len() - 1, n < 0x7fff_ffff, completing(a), v_wf(b.medial), closure_(a, a1, da), closure_(b, b1, db), 0 <= t < da.len()
    ensures db.contains(da[t])
    decreases t
{
    hide(adv); hide(v_wf); hide(waits);
    assert(v_wf(a.medial));
    assert(caused(a, da, t));
    let k = choose|k: (u32, u32)| #[trigger] grp(a.grammar, k) == da[t] && (has_key(a.complete.0@, k) || exists|u: int| 0 <= u < t && #[trigger] adv(a, da[u].0, da[u].1, true, k));
    if has_key(a.complete.0@, k) { assert(has_key(b.complete.0@, k)); }
    else {
        let u = choose|u: int| 0 <= u < t && #[trigger] adv(a, da[u].0, da[u].1, true, k);
        lemma_twin_groups(a, b, a1, b1, n, da, db, u);
        lemma_caused_origin(a, da, u);
        lemma_twin_adv(a, b, n, da[u].0, da[u].1, true, k);
        let v = choose|v: int| 0 <= v < db.len() && db[v] == da[u];
        assert(adv(b, db[v].0, db[v].1, true, k));
    }
}
pub proof fn lemma_twin_closure<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, a1: Recognizer<G, F, P>, b1: Recognizer<G, F, P>, n: int, da: Seq<Group>, db: Seq<Group>, k: (u32, u32))
    requires twin(a, b, n), n == a.medial.indices@.len() - 1, n < 0x7fff_ffff, completing(a), v_wf(b.medial), closure_(a, a1, da), closure_(b, b1, db), waits(a, da, k)
    ensures waits(b, db, k)
{
    hide(adv); hide(v_wf);
    let t = choose|t: int| 0 <= t < da.len() && #[trigger] adv(a, da[t].0, da[t].1, false, k);
    lemma_twin_groups(a, b, a1, b1, n, da, db, t);
    lemma_caused_origin(a, da, t);
    assert(v_wf(a.medial));
    lemma_twin_adv(a, b, n, da[t].0, da[t].1, false, k);
    let v = choose|v: int| 0 <= v < db.len() && db[v] == da[t];
    assert(adv(b, db[v].0, db[v].1, false, k));
}
pub proof fn lemma_twin_rows<G: Grammar, N>(g: G, sa: Seq<Item<N>>, sb: Seq<Item<N>>, ra: BitSlice, rb: BitSlice)
    requires same_keys(sa, sb), row_for(g, sa, ra), row_for(g, sb, rb)
    ensures same_bits(ra, rb)
{
    assert forall|i: int| #[trigger] ra.has(i) == rb.has(i) by {
        if ra.has(i) { let k = choose|k: int| 0 <= k < sa.len() && (#[trigger] pred(g, sa[k])).has(i); assert(has_key(sa, key(sa[k]))); assert(has_key(sb, key(sa[k]))); let j = choose|j: int| 0 <= j < sb.len() && key(#[trigger] sb[j]) == key(sa[k]); assert(pred(g, sb[j]).has(i)); }
        if rb.has(i) { let k = choose|k: int| 0 <= k < sb.len() && (#[trigger] pred(g, sb[k])).has(i); assert(has_key(sb, key(sb[k]))); assert(has_key(sa, key(sb[k]))); let j = choose|j: int| 0 <= j < sa.len() && key(#[trigger] sa[j]) == key(sb[k]); assert(pred(g, sa[j]).has(i)); }
    }
}
pub proof fn lemma_twin_top<N>(sa: Seq<Item<N>>, sb: Seq<Item<N>>, p: int, ma: int, mb: int)
    requires same_keys(sa, sb), same_top(sa, p, ma), same_top(sb, p, mb)
    ensures ma == mb
{
    lemma_twin_len(sa, sb);
    if sa.len() > 0 {
        let i = choose|k: int| 0 <= k < sa.len() && (#[trigger] sa[k]).origin == ma; let j = choose|k: int| 0 <= k < sb.len() && (#[trigger] sb[k]).origin == mb;
        assert(has_key(sa, key(sa[i]))); assert(has_key(sb, key(sa[i]))); assert(has_key(sb, key(sb[j]))); assert(has_key(sa, key(sb[j])));
        let i2 = choose|x: int| 0 <= x < sb.len() && key(#[trigger] sb[x]) == key(sa[i]); let j2 = choose|x: int| 0 <= x < sa.len() && key(#[trigger] sa[x]) == key(sb[j]);
        assert(sb[i2].origin <= mb); assert(sa[j2].origin <= ma);
    }
}
pub proof fn lemma_twin_len<N>(sa: Seq<Item<N>>, sb: Seq<Item<N>>)
    requires same_keys(sa, sb)
    ensures (sa.len() == 0) == (sb.len() == 0)
{ if sa.len() > 0 { assert(has_key(sa, key(sa[0]))); assert(has_key(sb, key(sa[0]))); } if sb.len() > 0 { assert(has_key(sb, key(sb[0]))); assert(has_key(sa, key(sb[0]))); } }
pub proof fn lemma_twin_end<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, a1: Recognizer<G, F, P>, b1: Recognizer<G, F, P>, n: int, da: Seq<Group>, db: Seq<Group>, ma: int, mb: int)
    requires twin(a, b, n), n == a.medial.indices@.len() - 1, n < 0x7fff_ffff, open_(a), open_(b), lists_ok(a.grammar), acyclic(a.grammar), idle(a1), idle(b1), a1.lookahead.next_symbol is None, b1.lookahead.next_symbol is None,
        closure_(a, a1, da), advanced(a, a1, ma), same_top(v_cur(a1.medial), n - 1, ma),
        closure_(b, b1, db), advanced(b, b1, mb), same_top(v_cur(b1.medial), n - 1, mb),
    ensures twin(a1, b1, a1.medial.indices@.len() as int), a1.medial.indices@.len() <= n + 1
{
    hide(adv); hide(closure_); hide(waits); hide(row_for); hide(rows_ok); hide(lists_ok); hide(acyclic);
    lemma_completing(a); lemma_completing(b);
    let ca = v_cur(a1.medial); let cb = v_cur(b1.medial);
    assert(all_sets(a.medial)[n] == v_cur(a.medial) && all_sets(b.medial)[n] == v_cur(b.medial));
    assert(same_keys(all_sets(a.medial)[n], all_sets(b.medial)[n]));
    assert(twin(b, a, n)) by {
        assert forall|i: int| 0 <= i < b.medial.indices@.len() implies same_keys(#[trigger] all_sets(b.medial)[i], all_sets(a.medial)[i]) by { assert(same_keys(all_sets(a.medial)[i], all_sets(b.medial)[i])); }
        assert forall|i: int| 0 <= i < n implies same_bits(#[trigger] b.predicted.rows()[i], a.predicted.rows()[i]) by { assert(same_bits(a.predicted.rows()[i], b.predicted.rows()[i])); }
    }
    assert forall|k: (u32, u32)| #![trigger has_key(ca, k)] #![trigger has_key(cb, k)] has_key(ca, k) == has_key(cb, k) by {
        assert(has_key(v_cur(a.medial), k) == has_key(v_cur(b.medial), k));
        assert(has_key(ca, k) == (has_key(v_cur(a.medial), k) || waits(a, da, k))) by { reveal(closure_); }
        assert(has_key(cb, k) == (has_key(v_cur(b.medial), k) || waits(b, db, k))) by { reveal(closure_); }
        if waits(a, da, k) { lemma_twin_closure(a, b, a1, b1, n, da, db, k); }
        if waits(b, db, k) { lemma_twin_closure(b, a, b1, a1, n, db, da, k); }
    }
    lemma_twin_top(ca, cb, n - 1, ma, mb);
    let m = kept(a.medial, ma);
    assert(a1.medial.indices@.len() == m + 1 && b1.medial.indices@.len() == m + 1);
    assert(all_sets(a1.medial)[m] == ca && all_sets(b1.medial)[m] == cb);
    assert forall|i: int| 0 <= i < m + 1 implies same_keys(#[trigger] all_sets(a1.medial)[i], all_sets(b1.medial)[i]) by {
        if i < m { assert(v_sets(a1.medial)[i] == v_sets(a.medial)[i]); assert(v_sets(b1.medial)[i] == v_sets(b.medial)[i]); assert(same_keys(all_sets(a.medial)[i], all_sets(b.medial)[i])); assert(all_sets(a.medial)[i] == v_sets(a.medial)[i]); assert(all_sets(b.medial)[i] == v_sets(b.medial)[i]); }
    }
    assert(row_for(a.grammar, ca, a1.predicted.rows()[m])); assert(row_for(a.grammar, cb, b1.predicted.rows()[m]));
    lemma_twin_rows(a.grammar, ca, cb, a1.predicted.rows()[m], b1.predicted.rows()[m]);
    assert forall|i: int| 0 <= i < m + 1 implies same_bits(#[trigger] a1.predicted.rows()[i], b1.predicted.rows()[i]) by {
        if i < m { assert(a1.predicted.rows()[i] == a.predicted.rows()[i]); assert(b1.predicted.rows()[i] == b.predicted.rows()[i]); assert(same_bits(a.predicted.rows()[i], b.predicted.rows()[i])); }
    }
}
pub proof fn lemma_twin_first<G: Grammar, N>(g: G, sa: Seq<Item<N>>, sb: Seq<Item<N>>)
    requires same_keys(sa, sb), sorted(g, sa), sorted(g, sb)
    ensures (sa.len() == 0) == (sb.len() == 0), sa.len() > 0 ==> sa[0].dot == sb[0].dot
{
    lemma_twin_len(sa, sb);
    if sa.len() > 0 {
        assert(has_key(sa, key(sa[0]))); assert(has_key(sb, key(sa[0]))); assert(has_key(sb, key(sb[0]))); assert(has_key(sa, key(sb[0])));
        let i = choose|x: int| 0 <= x < sb.len() && key(#[trigger] sb[x]) == key(sa[0]); let j = choose|x: int| 0 <= x < sa.len() && key(#[trigger] sa[x]) == key(sb[0]);
        assert(sle(skey(g, sb[0]), skey(g, sb[i]))); assert(sle(skey(g, sa[0]), skey(g, sa[j])));
    }
}
pub enum Op { Begin, Scan(Symbol, u32), Hint(Symbol), NoHint, End }
/// Uses two recognizers that hold the same with the same calls; `true` if every answer is the same.
/// (Calls that make no sense at that point are left out.)
pub fn both<G: Grammar, F: Forest, P: PerfHint>(a: &mut Recognizer<G, F, P>, b: &mut Recognizer<G, F, P>, ops: &Vec<Op>) -> (r: bool)
    requires idle(*old(a)), idle(*old(b)), twin(*old(a), *old(b), 1), old(a).medial.indices@.len() == 1, lists_ok(old(a).grammar), acyclic(old(a).grammar), !P::LEO, ops@.len() < 0x7fff_0000
    ensures r
{
    let mut open = false; let mut n: usize = 1; let mut i = 0; let mut same = true;
    while i < ops.len()
        invariant i <= ops@.len(), ops@.len() < 0x7fff_0000, n <= i + 1, same, lists_ok(a.grammar), acyclic(a.grammar), !P::LEO, twin(*a, *b, n as int),
            open ==> open_(*a) && open_(*b) && a.medial.indices@.len() == n + 1, !open ==> idle(*a) && idle(*b) && a.medial.indices@.len() == n,
        decreases ops@.len() - i
    {
        let ghost a0 = *a; let ghost b0 = *b;
        match &ops[i] {
            Op::Begin => if !open { a.begin_earleme(); b.begin_earleme(); open = true; proof { lemma_twin_begin(a0, b0, *a, *b, n as int); } },
            Op::Scan(s, v) => if open { a.scan(*s, *v); b.scan(*s, *v); proof { lemma_twin_scan(a0, b0, *a, *b, n as int, *s); } },
            Op::Hint(s) => { a.lookahead.set_hint(*s); b.lookahead.set_hint(*s); },
            Op::NoHint => { a.lookahead.clear_hint(); b.lookahead.clear_hint(); },
            Op::End => if open {
                let x = a.end_earleme(); let y = b.end_earleme();
                proof {
                    assert(same_keys(all_sets(a0.medial)[n as int], all_sets(b0.medial)[n as int])); assert(all_sets(a0.medial)[n as int] == v_cur(a0.medial) && all_sets(b0.medial)[n as int] == v_cur(b0.medial));
                    lemma_twin_len(v_cur(a0.medial), v_cur(b0.medial)); lemma_twin_len(a0.complete.0@, b0.complete.0@);
                }
                if x != y { same = false; }
                if x {
                    proof {
                        let (da, ma) = choose|d: Seq<Group>, m: int| #![trigger closure_(a0, *a, d), advanced(a0, *a, m)] closure_(a0, *a, d) && advanced(a0, *a, m) && same_top(v_cur(a.medial), a0.medial.indices@.len() - 2, m);
                        let (db, mb) = choose|d: Seq<Group>, m: int| #![trigger closure_(b0, *b, d), advanced(b0, *b, m)] closure_(b0, *b, d) && advanced(b0, *b, m) && same_top(v_cur(b.medial), b0.medial.indices@.len() - 2, m);
                        lemma_twin_end(a0, b0, *a, *b, n as int, da, db, ma, mb);
                    }
                    open = false; n = a.medial.indices.len();
                    proof {
                        let m = n - 1; assert(all_sets(a.medial)[m] == v_cur(a.medial) && all_sets(b.medial)[m] == v_cur(b.medial));
                        assert(same_keys(all_sets(a.medial)[m], all_sets(b.medial)[m]));
                        assert(sorted(a.grammar, all_sets(a.medial)[m]) && sorted(a.grammar, all_sets(b.medial)[m]));
                        lemma_twin_first(a.grammar, v_cur(a.medial), v_cur(b.medial));
                    }
                    if a.is_finished() != b.is_finished() { same = false; }
                }
            },
        }
        i = i + 1;
    }
    same
}
/// A recognizer that is reset at any point answers as a new one does.
pub fn after_reset<G: Grammar, F: Forest, P: PerfHint>(a: &mut Recognizer<G, F, P>, grammar: G, forest: F, policy: P, ops: &Vec<Op>) -> (r: bool)
    requires open_(*old(a)) || idle(*old(a)), grammar == old(a).grammar, lists_ok(grammar), acyclic(grammar), !P::LEO, ops@.len() < 0x7fff_0000
    ensures r
{
    a.reset();
    let mut b = Recognizer::with_forest_and_policy(grammar, forest, policy);
    proof {
        lemma_initial(*a);
        assert(all_sets(a.medial)[0] == v_cur(a.medial) && all_sets(b.medial)[0] == v_cur(b.medial)) by { assert(all_sets(a.medial) =~= seq![Seq::empty()]); assert(all_sets(b.medial) =~= seq![Seq::empty()]); }
        assert(same_bits(a.predicted.rows()[0], b.predicted.rows()[0]));
    }
    both(a, &mut b, ops)
}

/// Two recognizers that hold the same report the same: the same predicted symbols, in the same order, and the same items
/// (by rule and origin), so the same events, trace entries and expected symbols.
pub proof fn theorem_twin_reports<G: Grammar, F: Forest, P: PerfHint>(a: Recognizer<G, F, P>, b: Recognizer<G, F, P>, n: int)
    requires twin(a, b, n), n == a.medial.indices@.len() - 1, open_(a), open_(b), a.grammar.s_num_syms() <= 0x1_0000_0000
    ensures syms_at(a) == syms_at(b), same_keys(items_at(a), items_at(b)),
{
    theorem_reported(a); theorem_reported(b);
    let p = n - 1;
    assert(same_bits(a.predicted.rows()[p], b.predicted.rows()[p]));
    assert(columns(a.predicted.rows()[p], a.predicted.bits()) =~= columns(b.predicted.rows()[p], b.predicted.bits()));
    assert(same_keys(all_sets(a.medial)[p], all_sets(b.medial)[p]));
    assert(items_at(a) == all_sets(a.medial)[p] && items_at(b) == all_sets(b.medial)[p]);
}
