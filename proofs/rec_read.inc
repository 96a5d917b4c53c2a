/// Reads an input (any number of alternative tokens at each position) with the recognizer's own methods.
/// `Ok(f)`: read to the end, `f` tells whether a finished parse was reported. `Err(i)`: position `i` could not be advanced over.
pub fn read_all<G: Grammar, F: Forest, P: PerfHint>(grammar: G, forest: F, policy: P, input: &Vec<Step>, Ghost(tok): Ghost<Tokens>) -> (res: Result<bool, usize>)
    requires promises(grammar), !P::LEO, input@.len() < 0x7fff_fff0, input@.len() > 0, can_read(input@, tok)
    ensures
        // P12: what is reported is derived, whatever is announced
        res == Ok::<bool, usize>(true) ==> accepts(grammar, tok, input@.len() as int),
        // P13: what is derived is reported, and no position is refused
        told_truth(grammar, tok, input@) ==> match res {
            Ok(f) => f == accepts(grammar, tok, input@.len() as int),
            Err(i) => i < input@.len() && forall|q: int| q > i && hint_at(input@, q) is None ==> !#[trigger] accepts(grammar, tok, q),
        },
{
    let ghost g = grammar; let ghost quiet = told_truth(g, tok, input@);
    let ghost an = announced(g, input@);
    proof { if quiet { lemma_honest(g, tok, input@); } }
    let mut r = Recognizer::with_forest_and_policy(grammar, forest, policy);
    let ghost mut pos = seq![0int]; let ghost mut h = Hist { items: seq![|d: Dot, p: int| false], rows: seq![r.predicted.rows()[0]] };
    proof {
        assert(all_sets(r.medial) =~= seq![Seq::empty()]);
        let row = r.predicted.rows()[0]; let sr = g.s_prediction_row(g.s_start_sym());
        assert(within(sr, row)); assert(made_of_rows(g, row));
        assert(sound(r, tok, pos)); assert(complete_hist(g, tok, an, h)); assert(real(r, pos, h));
    }
    let mut i = 0;
    while i < input.len()
        invariant i <= input@.len(), input@.len() < 0x7fff_fff0, can_read(input@, tok), promises(g), !P::LEO, r.grammar == g, idle(r), sound(r, tok, pos), pos[0] == 0, pos.last() == i, pos.len() <= i + 1,
            g == grammar, i > 0 ==> pos.len() >= 2, pos.len() >= 1, r.lookahead.next_symbol is None,
            quiet ==> complete_hist(g, tok, an, h) && real(r, pos, h),
            quiet == told_truth(g, tok, input@), quiet ==> honest(g, tok, an) && visible(g, tok) && hint_at(input@, input@.len() as int) is None, an == announced(g, input@),
        decreases input@.len() - i
    {
        let ghost r0 = r; let step = &input[i];
        r.begin_earleme();
        let ghost pos1 = pos.push(i + 1);
        proof { lemma_sound_begin(r0, r, tok, pos, i + 1); }
        if let Some(hint) = step.hint { r.lookahead().set_hint(hint); }
        let ghost a0 = r;
        proof { assert(all_sets(a0.medial) =~= all_sets(r0.medial).push(v_cur(a0.medial))); assert(open_(a0)); assert(sound(a0, tok, pos1)) by { assert forall|i: int, k: (u32, u32)| 0 <= i < pos1.len() && #[trigger] has_key(all_sets(a0.medial)[i], k) implies held(a0, tok, pos1, k, i) by { } } }
        let mut j = 0;
        while j < step.tokens.len()
            invariant j <= step.tokens@.len(), *step == input@[i as int], i < input@.len(), input@.len() < 0x7fff_fff0, can_read(input@, tok), promises(g), !P::LEO, r.grammar == g, a0.grammar == g, open_(r), sound(r, tok, pos1),
                pos1 == pos.push(i + 1), pos.last() == i, pos.len() <= i + 1, pos.len() >= 1, grows(a0, r), v_wf(a0.medial), pos.len() == a0.medial.indices@.len() - 1,
                read_some(a0, r, step.tokens@, j as int),
            decreases step.tokens@.len() - j
        {
            let ghost b = r; let (sym, value) = step.tokens[j];
            r.scan(sym, value);
            proof {
                assert(tok(i as int, sym)) by { assert(step.tokens@[j as int].0 == sym); }
                assert(pos1[pos1.len() - 2] == i);
                lemma_sound_scan(b, r, tok, pos1, sym);
                lemma_read_more(a0, b, r, step.tokens@, j as int);
            }
            j = j + 1;
        }
        let ghost a = r;
        proof {
            if quiet {
                assert(a0.lookahead.next_symbol == (an.hint)(i + 1));
                assert(read_in(a0, a, tok, an, pos)) by { lemma_read_in(a0, a, tok, an, pos, input@, i as int); }
                assert(finishing(a0, a, tok, an, pos, h)) by {
                    assert(v_sets(a0.medial) == all_sets(r0.medial));
                    assert(before(a0, pos, h));
                }
            }
        }
        if !r.end_earleme() {
            proof {
                if quiet {
                    assert forall|q: int| q > i && hint_at(input@, q) is None implies !#[trigger] accepts(grammar, tok, q) by { assert(g == grammar); assert(v_cur(a.medial).len() == 0 && a.complete.0@.len() == 0); if accepts(g, tok, q) { assert((an.hint)(q) is None); assert(a0.grammar == g); assert(finishing(a0, a, tok, an, pos, h)); lemma_goes_on(a0, a, tok, an, pos, h, q); assert(false); } }
                }
            }
            return Err(i);
        }
        proof {
            let (d, m) = choose|d: Seq<Group>, m: int| #![trigger closure_(a, r, d), advanced(a, r, m)] closure_(a, r, d) && advanced(a, r, m) && same_top(v_cur(r.medial), a.medial.indices@.len() - 2, m);
            lemma_sound_end(a, r, tok, pos1, d, m);
            let n = kept(a.medial, m); let pos2 = pos_after(pos1, n);
            if quiet { lemma_complete_hist(a0, a, r, tok, an, pos, h, d, m); lemma_real_end(a0, a, r, tok, an, pos, h, d, m); h = next_hist(r, pos, h); }
            assert(pos2[0] == 0);
            pos = pos2;
        }
        i = i + 1;
    }
    let f = r.is_finished();
    proof {
        if f { lemma_sound_finished(r, tok, pos); }
        if quiet && accepts(g, tok, i as int) { lemma_complete_finished(r, tok, an, pos, h); }
    }
    Ok(f)
}
