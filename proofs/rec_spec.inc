// ---- the recognizer's state, abstractly ----
/// Sets 0.. of the chart: the finished ones and the one under construction (the last).
pub open spec fn all_sets<N>(m: Vec2d<Item<N>>) -> Seq<Seq<Item<N>>> { v_sets(m).push(v_cur(m)) }
/// Items that wait for a symbol.
pub open spec fn waiting<G: Grammar, N>(g: G, s: Seq<Item<N>>) -> bool { forall|k: int| 0 <= k < s.len() ==> post(g, (#[trigger] s[k]).dot) is Some }
pub open spec fn skey<G: Grammar, N>(g: G, i: Item<N>) -> (int, u32, u32) { ((post(g, i.dot)->0).id(), i.dot, i.origin) }
pub open spec fn sle(a: (int, u32, u32), b: (int, u32, u32)) -> bool { a.0 < b.0 || (a.0 == b.0 && (a.1 < b.1 || (a.1 == b.1 && a.2 <= b.2))) }
/// Sorted by (next expected symbol, rule, origin).
pub open spec fn sorted<G: Grammar, N>(g: G, s: Seq<Item<N>>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> sle(skey(g, #[trigger] s[i]), skey(g, #[trigger] s[j])) }
pub open spec fn pred<G: Grammar, N>(g: G, i: Item<N>) -> BitSlice { g.s_prediction_row(post(g, i.dot)->0) }
/// The row predicts exactly what the symbols expected next by the items predict.
pub open spec fn row_for<G: Grammar, N>(g: G, s: Seq<Item<N>>, row: BitSlice) -> bool {
    forall|b: int| #[trigger] row.has(b) <==> exists|k: int| 0 <= k < s.len() && (#[trigger] pred(g, s[k])).has(b)
}
pub open spec fn same_bits(a: BitSlice, b: BitSlice) -> bool { forall|i: int| #[trigger] a.has(i) == b.has(i) }
pub open spec fn no_bits(a: BitSlice) -> bool { forall|i: int| !(#[trigger] a.has(i)) }
/// Rows of positions 0..n are what the positions' items predict; the rows from n on are empty.
pub open spec fn rows_for<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, n: int) -> bool {
    &&& r.predicted.wf() && r.predicted.width() == r.grammar.s_prediction_row(r.grammar.s_start_sym()).blocks@.len() && r.predicted.bits() == r.grammar.s_num_syms()
    &&& 1 <= n <= r.predicted.rows().len()
    &&& same_bits(r.predicted.rows()[0], r.grammar.s_prediction_row(r.grammar.s_start_sym()))
    &&& forall|i: int| 1 <= i < n ==> row_for(r.grammar, all_sets(r.medial)[i], #[trigger] r.predicted.rows()[i])
    &&& forall|i: int| n <= i < r.predicted.rows().len() ==> no_bits(#[trigger] r.predicted.rows()[i])
}
pub open spec fn sets_ok<G: Grammar, N>(g: G, m: Vec2d<Item<N>>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> waiting(g, #[trigger] all_sets(m)[i]) && sorted(g, all_sets(m)[i])
    // a partial match starts at an earlier position
    &&& forall|i: int, k: int| 0 <= i < all_sets(m).len() && 0 <= k < all_sets(m)[i].len() ==> (#[trigger] all_sets(m)[i][k]).origin < i
}
pub open spec fn small<N>(m: Vec2d<Item<N>>) -> bool { m.indices@.len() < 0x7fff_ffff && 2 * m.chart@.len() < usize::MAX }
/// Between `begin_earleme` and `end_earleme`: position `len - 2` is read from, items of the next one are made.
pub open spec fn open_<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>) -> bool {
    &&& rows_ok(r.grammar) && v_wf(r.medial) && r.medial.indices@.len() >= 2 && heap_ok(r.complete.0@)
    &&& rows_for(r, r.medial.indices@.len() - 1)
    &&& sets_ok(r.grammar, r.medial, r.medial.indices@.len() - 1) && waiting(r.grammar, v_cur(r.medial))
    &&& forall|k: int| 0 <= k < r.complete.0@.len() ==> (#[trigger] r.complete.0@[k]).origin < r.medial.indices@.len() - 1
}
/// Before `begin_earleme`: position `len - 1` is complete.
pub open spec fn idle<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>) -> bool {
    &&& rows_ok(r.grammar) && v_wf(r.medial) && r.complete.0@.len() == 0
    &&& rows_for(r, r.medial.indices@.len() as int)
    &&& sets_ok(r.grammar, r.medial, r.medial.indices@.len() as int)
}
