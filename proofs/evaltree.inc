// ---- P23: what evaluating a tree is ----
/// A derivation as the forest records it, hidden (phantom) nulling symbols put back in: a rule application with the id of
/// the user's rule (none for an internal rule), the elements of a right-hand side (or the alternatives of an ambiguity) as a chain of pairs.
pub enum Tree { Nothing, Leaf(Symbol, u32), Null(Symbol), Pair(Box<Tree>, Box<Tree>), Act(Option<u32>, Box<Tree>) }
/// A call of the evaluator, with its answer.
pub enum Call<T> { Leaf(Symbol, u32, T), Product(u32, Seq<T>, T), Nulling(Symbol, Seq<T>) }
/// How many calls the evaluation of `t` makes.
pub open spec fn cnt(t: Tree) -> int decreases t {
    match t { Tree::Nothing => 0, Tree::Leaf(_, _) => 1, Tree::Null(_) => 1, Tree::Pair(a, b) => cnt(*a) + cnt(*b), Tree::Act(o, c) => cnt(*c) + (if o is Some { 1int } else { 0 }) }
}
/// The values `t` gives, when `n` calls were made before it: what a rule's evaluator call answers, given exactly its children's values in order; an internal rule passes its children's values on.
pub open spec fn val<E: Evaluate>(e: E, t: Tree, n: int) -> Seq<E::Elem> decreases t {
    match t {
        Tree::Nothing => Seq::empty(),
        Tree::Leaf(s, v) => seq![e.s_leaf(n, s, v)],
        Tree::Null(s) => seq![e.s_nulling(n, s)[0]],
        Tree::Pair(a, b) => val(e, *a, n) + val(e, *b, n + cnt(*a)),
        Tree::Act(o, c) => match o { Some(id) => seq![e.s_product(n + cnt(*c), id, val(e, *c, n))], None => val(e, *c, n) },
    }
}
/// The calls, in order: children before parents, left to right, one per leaf, nulling node and user-visible rule application.
pub open spec fn calls<E: Evaluate>(e: E, t: Tree, n: int) -> Seq<Call<E::Elem>> decreases t {
    match t {
        Tree::Nothing => Seq::empty(),
        Tree::Leaf(s, v) => seq![Call::Leaf(s, v, e.s_leaf(n, s, v))],
        Tree::Null(s) => seq![Call::Nulling(s, e.s_nulling(n, s))],
        Tree::Pair(a, b) => calls(e, *a, n) + calls(e, *b, n + cnt(*a)),
        Tree::Act(o, c) => match o { Some(id) => calls(e, *c, n).push(Call::Product(id, val(e, *c, n), e.s_product(n + cnt(*c), id, val(e, *c, n)))), None => calls(e, *c, n) },
    }
}
/// The results that the calls make.
pub open spec fn made<T>(log: Seq<Call<T>>) -> int decreases log.len() {
    if log.len() == 0 { 0 } else { made(log.drop_last()) + (match log.last() { Call::Nulling(_, r) => r.len() as int, _ => 1 }) }
}
/// Steps.
pub open spec fn sz(t: Tree) -> int decreases t {
    match t { Tree::Pair(a, b) => 1 + sz(*a) + sz(*b), Tree::Act(_, c) => 3 + sz(*c), _ => 1 }
}
// An evaluator is given by its answers: each a function of the number of calls made before and of the arguments (so nothing is assumed of it but that a symbol's nulling results are not empty).
//@ file EVAL gearley-forest/src/evaluate.rs
//@ trait EVAL Evaluate `pub trait Evaluate`
    type Elem: Default;
    spec fn s_leaf(&self, n: int, s: Symbol, v: u32) -> Self::Elem;
    spec fn s_product(&self, n: int, id: u32, args: Seq<Self::Elem>) -> Self::Elem;
    spec fn s_nulling(&self, n: int, s: Symbol) -> Seq<Self::Elem>;
//@ fn leaf
    ensures r == self.s_leaf(old(log)@.len() as int, terminal, values), final(log)@ == old(log)@.push(Call::Leaf(terminal, values, r))
//@ sig `( & self ,` => `( & self , log : & mut Ghost < Seq < Call < Self :: Elem > > > ,`
//@ endfn
//@ fn product
    ensures ({ let q = args@.map_values(|x: &'a Self::Elem| *x); r == self.s_product(old(log)@.len() as int, action, q) && final(log)@ == old(log)@.push(Call::Product(action, q, r)) })
//@ sig `( & self ,` => `( & self , log : & mut Ghost < Seq < Call < Self :: Elem > > > ,`
//@ sig `impl Iterator < Item = & 'a Self :: Elem >` => `SeqIter < & 'a Self :: Elem >`
//@ endfn
//@ fn nulling
    ensures ({ let q = self.s_nulling(old(log)@.len() as int, symbol); q.len() >= 1 && final(results)@ == old(results)@ + q && final(log)@ == old(log)@.push(Call::Nulling(symbol, q)) })
//@ sig `( & self ,` => `( & self , log : & mut Ghost < Seq < Call < Self :: Elem > > > ,`
//@ endfn
//@ endtrait

// ---- the work that a stack of frames still stands for ----
pub enum Fr { Eval { t: Tree, p: int }, Fin { id: Option<u32>, rest: Tree, p: int } }
pub open spec fn fparent(f: Fr) -> int { match f { Fr::Eval { p, .. } => p, Fr::Fin { p, .. } => p } }
pub open spec fn fsz(f: Fr) -> int { match f { Fr::Eval { t, .. } => sz(t), Fr::Fin { rest, .. } => 1 + sz(rest) } }
pub open spec fn frsz(fr: Seq<Fr>) -> int decreases fr.len() { if fr.len() <= 1 { 0 } else { frsz(fr.drop_last()) + fsz(fr.last()) } }
/// Finishing a rule application whose children's values are `acc`.
pub open spec fn finv<E: Evaluate>(e: E, id: Option<u32>, acc: Seq<E::Elem>, n: int) -> Seq<E::Elem> { match id { Some(x) => seq![e.s_product(n, x, acc)], None => acc } }
pub open spec fn finc<E: Evaluate>(e: E, id: Option<u32>, acc: Seq<E::Elem>, n: int) -> Seq<Call<E::Elem>> { match id { Some(x) => seq![Call::Product(x, acc, e.s_product(n, x, acc))], None => Seq::empty() } }
pub open spec fn outv<E: Evaluate>(e: E, f: Fr, acc: Seq<E::Elem>, n: int) -> Seq<E::Elem> {
    match f { Fr::Eval { t, .. } => val(e, t, n), Fr::Fin { id, rest, .. } => finv(e, id, acc, n) + val(e, rest, n + finc(e, id, acc, n).len()) }
}
pub open spec fn outc<E: Evaluate>(e: E, f: Fr, acc: Seq<E::Elem>, n: int) -> Seq<Call<E::Elem>> {
    match f { Fr::Eval { t, .. } => calls(e, t, n), Fr::Fin { id, rest, .. } => finc(e, id, acc, n) + calls(e, rest, n + finc(e, id, acc, n).len()) }
}
pub open spec fn run<E: Evaluate>(e: E, fr: Seq<Fr>, accs: Seq<Seq<E::Elem>>, log: Seq<Call<E::Elem>>) -> (Seq<E::Elem>, Seq<Call<E::Elem>>) decreases fr.len() {
    if fr.len() <= 1 { (accs[0], log) } else {
        let k = fr.len() - 1; let f = fr[k]; let p = fparent(f); let n = log.len() as int;
        run(e, fr.drop_last(), accs.drop_last().update(p, accs[p] + outv(e, f, accs[k], n)), log + outc(e, f, accs[k], n))
    }
}
/// Frames give their values to a rule application (or the base) below them.
pub open spec fn framed(fr: Seq<Fr>) -> bool { fr.len() > 0 && forall|i: int| 0 < i < fr.len() ==> 0 <= #[trigger] fparent(fr[i]) < i && (fparent(fr[i]) == 0 || fr[fparent(fr[i])] is Fin) }
pub proof fn calls_len<E: Evaluate>(e: E, t: Tree, n: int)
    ensures calls(e, t, n).len() == cnt(t), cnt(t) >= 0
    decreases t
{
    match t { Tree::Pair(a, b) => { calls_len(e, *a, n); calls_len(e, *b, n + cnt(*a)); } Tree::Act(o, c) => { calls_len(e, *c, n); } _ => {} }
}
pub proof fn sz_pos(t: Tree)
    ensures sz(t) >= 1
    decreases t
{
    match t { Tree::Pair(a, b) => { sz_pos(*a); sz_pos(*b); } Tree::Act(o, c) => { sz_pos(*c); } _ => {} }
}
pub proof fn frsz_pos(fr: Seq<Fr>)
    ensures frsz(fr) >= 0
    decreases fr.len()
{
    if fr.len() > 1 { frsz_pos(fr.drop_last()); match fr.last() { Fr::Eval { t, .. } => sz_pos(t), Fr::Fin { rest, .. } => sz_pos(rest) } }
}
pub proof fn made_add<T>(a: Seq<Call<T>>, b: Seq<Call<T>>)
    ensures made(a + b) == made(a) + made(b), made(b) >= 0
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); made_add(a, b.drop_last()); }
}
/// What was called stays called.
pub proof fn run_made<E: Evaluate>(e: E, fr: Seq<Fr>, accs: Seq<Seq<E::Elem>>, log: Seq<Call<E::Elem>>)
    ensures made(log) <= made(run(e, fr, accs, log).1)
    decreases fr.len()
{
    if fr.len() > 1 {
        let k = fr.len() - 1; let f = fr[k]; let p = fparent(f); let n = log.len() as int;
        made_add(log, outc(e, f, accs[k], n));
        run_made(e, fr.drop_last(), accs.drop_last().update(p, accs[p] + outv(e, f, accs[k], n)), log + outc(e, f, accs[k], n));
    }
}
/// A frame that evaluates nothing.
pub proof fn step_nothing<E: Evaluate>(e: E, fr: Seq<Fr>, accs: Seq<Seq<E::Elem>>, log: Seq<Call<E::Elem>>)
    requires framed(fr), fr.len() > 1, accs.len() == fr.len(), fr.last() matches Fr::Eval { t, .. } && t is Nothing
    ensures run(e, fr, accs, log) == run(e, fr.drop_last(), accs.drop_last(), log), framed(fr.drop_last()), frsz(fr.drop_last()) < frsz(fr)
{
    let k = fr.len() - 1; let p = fparent(fr[k]);
    assert(accs.drop_last().update(p, accs[p] + Seq::empty()) =~= accs.drop_last()) by { assert(accs[p] + Seq::empty() =~= accs[p]); }
    assert(log + Seq::empty() =~= log);
}
/// A leaf, a nulling symbol: the value goes to the parent.
pub open spec fn atom_new<E: Evaluate>(e: E, t: Tree, n: int) -> Seq<E::Elem> { match t { Tree::Leaf(s, v) => seq![e.s_leaf(n, s, v)], Tree::Null(s) => e.s_nulling(n, s), _ => Seq::empty() } }
pub open spec fn atom_call<E: Evaluate>(e: E, t: Tree, n: int) -> Call<E::Elem> { match t { Tree::Leaf(s, v) => Call::Leaf(s, v, e.s_leaf(n, s, v)), Tree::Null(s) => Call::Nulling(s, e.s_nulling(n, s)), _ => arbitrary() } }
pub proof fn step_atom<E: Evaluate>(e: E, fr: Seq<Fr>, accs: Seq<Seq<E::Elem>>, log: Seq<Call<E::Elem>>)
    requires framed(fr), fr.len() > 1, accs.len() == fr.len(), fr.last() matches Fr::Eval { t, .. } && (t is Leaf || t is Null)
    ensures ({
        let k = fr.len() - 1; let p = fparent(fr.last()); let n = log.len() as int; let t = fr.last()->Eval_t;
        &&& run(e, fr, accs, log) == run(e, fr.drop_last(), accs.drop_last().update(p, accs[p].push(atom_new(e, t, n)[0])), log.push(atom_call(e, t, n)))
        &&& framed(fr.drop_last()) && frsz(fr.drop_last()) < frsz(fr)
        &&& made(log.push(atom_call(e, t, n))) == made(log) + atom_new(e, t, n).len()
    })
{
    let k = fr.len() - 1; let f = fr[k]; let p = fparent(f); let n = log.len() as int; let t = f->Eval_t;
    assert(accs[p] + outv(e, f, accs[k], n) =~= accs[p].push(atom_new(e, t, n)[0]));
    assert(log + outc(e, f, accs[k], n) =~= log.push(atom_call(e, t, n)));
    assert(log.push(atom_call(e, t, n)).drop_last() =~= log);
}
pub proof fn run_start<E: Evaluate>(e: E, t: Tree)
    ensures ({ let fr = seq![Fr::Eval { t: Tree::Nothing, p: 0 }, Fr::Eval { t, p: 0 }]; let a: Seq<Seq<E::Elem>> = seq![Seq::empty(), Seq::empty()];
        run(e, fr, a, Seq::empty()) == (val(e, t, 0), calls(e, t, 0)) && framed(fr) && frsz(fr) == sz(t) && made(Seq::<Call<E::Elem>>::empty()) == 0 })
{
    let fr = seq![Fr::Eval { t: Tree::Nothing, p: 0 }, Fr::Eval { t, p: 0 }]; let a: Seq<Seq<E::Elem>> = seq![Seq::empty(), Seq::empty()]; let l: Seq<Call<E::Elem>> = Seq::empty();
    assert(fr.drop_last() =~= seq![fr[0]]); assert(frsz(fr.drop_last()) == 0);
    assert(run(e, fr, a, l) == run(e, fr.drop_last(), a.drop_last().update(0, a[0] + val(e, t, 0)), l + calls(e, t, 0)));
    assert(a[0] + val(e, t, 0) =~= val(e, t, 0)); assert(l + calls(e, t, 0) =~= calls(e, t, 0));
}
pub proof fn run_end<E: Evaluate>(e: E, fr: Seq<Fr>, accs: Seq<Seq<E::Elem>>, log: Seq<Call<E::Elem>>)
    requires fr.len() <= 1
    ensures run(e, fr, accs, log) == (accs[0], log)
{}
pub proof fn made_push<T>(log: Seq<Call<T>>, i: u32, a: Seq<T>, r: T)
    ensures made(log.push(Call::Product(i, a, r))) == made(log) + 1
{ assert(log.push(Call::Product(i, a, r)).drop_last() =~= log); }
/// A pair: the first, then the second.
pub proof fn step_pair<E: Evaluate>(e: E, fr: Seq<Fr>, accs: Seq<Seq<E::Elem>>, log: Seq<Call<E::Elem>>, a: Tree, b: Tree, acc: Seq<E::Elem>)
    requires framed(fr), fr.len() > 1, accs.len() == fr.len(), fr.last() == (Fr::Eval { t: Tree::Pair(Box::new(a), Box::new(b)), p: fparent(fr.last()) })
    ensures ({
        let p = fparent(fr.last()); let g = fr.drop_last().push(Fr::Eval { t: b, p }).push(Fr::Eval { t: a, p });
        run(e, fr, accs, log) == run(e, g, accs.push(acc), log) && framed(g) && frsz(g) < frsz(fr)
    })
{
    let k = fr.len() - 1; let f = fr[k]; let p = fparent(f); let n = log.len() as int;
    let g1 = fr.drop_last().push(Fr::Eval { t: b, p }); let g = g1.push(Fr::Eval { t: a, p });
    calls_len(e, a, n);
    assert(g.drop_last() =~= g1); assert(g1.drop_last() =~= fr.drop_last());
    assert(frsz(g1) == frsz(fr.drop_last()) + fsz(g1.last())); assert(frsz(g) == frsz(g1) + fsz(g.last())); assert(frsz(fr) == frsz(fr.drop_last()) + fsz(f));
    assert forall|i: int| 0 < i < g.len() implies 0 <= #[trigger] fparent(g[i]) < i && (fparent(g[i]) == 0 || g[fparent(g[i])] is Fin) by { if i <= k { assert(0 <= fparent(fr[i]) < i); } else { assert(0 <= fparent(fr[k]) < k); } }
    assert(framed(g));
    let a1 = accs.push(acc); let va = val(e, a, n); let vb = val(e, b, n + cnt(a));
    let a2 = a1.drop_last().update(p, a1[p] + va);
    assert(a2.drop_last().update(p, a2[p] + vb) =~= accs.drop_last().update(p, accs[p] + (va + vb))) by { assert((accs[p] + va) + vb =~= accs[p] + (va + vb)); }
    let ca = calls(e, a, n); let cb = calls(e, b, n + cnt(a));
    assert((log + ca) + cb =~= log + (ca + cb));
    assert(run(e, g, a1, log) == run(e, g1, a2, log + ca));
    assert((log + ca).len() == n + cnt(a));
    assert(run(e, g1, a2, log + ca) == run(e, fr.drop_last(), a2.drop_last().update(p, a2[p] + vb), (log + ca) + cb));
}
/// A rule application: its children into a new, empty list; then finishing.
pub proof fn step_act<E: Evaluate>(e: E, fr: Seq<Fr>, accs: Seq<Seq<E::Elem>>, log: Seq<Call<E::Elem>>, id: Option<u32>, c: Tree, acc: Seq<E::Elem>)
    requires framed(fr), fr.len() > 1, accs.len() == fr.len(), fr.last() == (Fr::Eval { t: Tree::Act(id, Box::new(c)), p: fparent(fr.last()) }), accs.last().len() == 0
    ensures ({
        let k = fr.len() - 1; let p = fparent(fr.last()); let g = fr.drop_last().push(Fr::Fin { id, rest: Tree::Nothing, p }).push(Fr::Eval { t: c, p: k });
        run(e, fr, accs, log) == run(e, g, accs.push(acc), log) && framed(g) && frsz(g) < frsz(fr)
    })
{
    let k = fr.len() - 1; let f = fr[k]; let p = fparent(f); let n = log.len() as int;
    let g1 = fr.drop_last().push(Fr::Fin { id, rest: Tree::Nothing, p }); let g = g1.push(Fr::Eval { t: c, p: k });
    calls_len(e, c, n);
    assert(g.drop_last() =~= g1); assert(g1.drop_last() =~= fr.drop_last());
    assert(frsz(g1) == frsz(fr.drop_last()) + fsz(g1.last())); assert(frsz(g) == frsz(g1) + fsz(g.last())); assert(frsz(fr) == frsz(fr.drop_last()) + fsz(f));
    assert forall|i: int| 0 < i < g.len() implies 0 <= #[trigger] fparent(g[i]) < i && (fparent(g[i]) == 0 || g[fparent(g[i])] is Fin) by { if i <= k { assert(0 <= fparent(fr[i]) < i); } else { assert(0 <= fparent(fr[k]) < k); } }
    assert(framed(g));
    let vc = val(e, c, n); let cc = calls(e, c, n);
    let a1 = accs.push(acc); let a2 = a1.drop_last().update(k, a1[k] + vc);
    assert(accs[k] + vc =~= vc);
    assert(run(e, g, a1, log) == run(e, g1, a2, log + cc));
    let n2 = n + cnt(c);
    assert((log + cc).len() == n2);
    let f1 = g1[k];
    assert(outv(e, f1, a2[k], n2) =~= finv(e, id, vc, n2));
    assert(outc(e, f1, a2[k], n2) =~= finc(e, id, vc, n2));
    assert(outv(e, f, accs[k], n) =~= finv(e, id, vc, n2));
    assert(a2.drop_last().update(p, a2[p] + finv(e, id, vc, n2)) =~= accs.drop_last().update(p, accs[p] + finv(e, id, vc, n2)));
    assert((log + cc) + finc(e, id, vc, n2) =~= log + outc(e, f, accs[k], n));
    assert(run(e, g1, a2, log + cc) == run(e, fr.drop_last(), a2.drop_last().update(p, a2[p] + outv(e, f1, a2[k], n2)), (log + cc) + outc(e, f1, a2[k], n2)));
}
/// A rule application followed by the other alternatives.
pub proof fn step_act_rest<E: Evaluate>(e: E, fr: Seq<Fr>, accs: Seq<Seq<E::Elem>>, log: Seq<Call<E::Elem>>, id: Option<u32>, c: Tree, rest: Tree, acc: Seq<E::Elem>)
    requires framed(fr), fr.len() > 1, accs.len() == fr.len(), accs.last().len() == 0,
        fr.last() == (Fr::Eval { t: Tree::Pair(Box::new(Tree::Act(id, Box::new(c))), Box::new(rest)), p: fparent(fr.last()) })
    ensures ({
        let k = fr.len() - 1; let p = fparent(fr.last()); let g = fr.drop_last().push(Fr::Fin { id, rest, p }).push(Fr::Eval { t: c, p: k });
        run(e, fr, accs, log) == run(e, g, accs.push(acc), log) && framed(g) && frsz(g) < frsz(fr)
    })
{
    let k = fr.len() - 1; let f = fr[k]; let p = fparent(f); let n = log.len() as int;
    let g1 = fr.drop_last().push(Fr::Fin { id, rest, p }); let g = g1.push(Fr::Eval { t: c, p: k });
    let act = Tree::Act(id, Box::new(c));
    calls_len(e, c, n); calls_len(e, act, n);
    assert(sz(act) == 3 + sz(c) && fsz(f) == 1 + sz(act) + sz(rest));
    assert(g.drop_last() =~= g1); assert(g1.drop_last() =~= fr.drop_last());
    assert(frsz(g1) == frsz(fr.drop_last()) + fsz(g1.last())); assert(frsz(g) == frsz(g1) + fsz(g.last())); assert(frsz(fr) == frsz(fr.drop_last()) + fsz(f));
    assert forall|i: int| 0 < i < g.len() implies 0 <= #[trigger] fparent(g[i]) < i && (fparent(g[i]) == 0 || g[fparent(g[i])] is Fin) by { if i <= k { assert(0 <= fparent(fr[i]) < i); } else { assert(0 <= fparent(fr[k]) < k); } }
    assert(framed(g));
    let vc = val(e, c, n); let cc = calls(e, c, n);
    let a1 = accs.push(acc); let a2 = a1.drop_last().update(k, a1[k] + vc);
    assert(accs[k] + vc =~= vc);
    assert(run(e, g, a1, log) == run(e, g1, a2, log + cc));
    let n2 = n + cnt(c);
    assert((log + cc).len() == n2);
    let f1 = g1[k];
    assert(val(e, act, n) =~= finv(e, id, vc, n2));
    assert(calls(e, act, n) =~= cc + finc(e, id, vc, n2));
    assert(outv(e, f, accs[k], n) == outv(e, f1, a2[k], n2));
    assert(a2.drop_last().update(p, a2[p] + outv(e, f1, a2[k], n2)) =~= accs.drop_last().update(p, accs[p] + outv(e, f, accs[k], n)));
    assert((log + cc) + outc(e, f1, a2[k], n2) =~= log + outc(e, f, accs[k], n));
    assert(run(e, g1, a2, log + cc) == run(e, fr.drop_last(), a2.drop_last().update(p, a2[p] + outv(e, f1, a2[k], n2)), (log + cc) + outc(e, f1, a2[k], n2)));
}
/// Finishing: the value (or the children's values) to the parent, then what follows.
pub proof fn step_fin<E: Evaluate>(e: E, fr: Seq<Fr>, accs: Seq<Seq<E::Elem>>, log: Seq<Call<E::Elem>>, id: Option<u32>, rest: Tree, acc: Seq<E::Elem>)
    requires framed(fr), fr.len() > 1, accs.len() == fr.len(), fr.last() == (Fr::Fin { id, rest, p: fparent(fr.last()) })
    ensures ({
        let k = fr.len() - 1; let p = fparent(fr.last()); let n = log.len() as int; let g = fr.drop_last().push(Fr::Eval { t: rest, p });
        run(e, fr, accs, log) == run(e, g, accs.drop_last().update(p, accs[p] + finv(e, id, accs[k], n)).push(acc), log + finc(e, id, accs[k], n)) && framed(g) && frsz(g) < frsz(fr)
    })
{
    let k = fr.len() - 1; let f = fr[k]; let p = fparent(f); let n = log.len() as int;
    let g = fr.drop_last().push(Fr::Eval { t: rest, p });
    assert(g.drop_last() =~= fr.drop_last());
    let a0 = accs.drop_last().update(p, accs[p] + finv(e, id, accs[k], n)); let a1 = a0.push(acc); let l1 = log + finc(e, id, accs[k], n);
    assert(a1.drop_last() =~= a0);
    let vr = val(e, rest, l1.len() as int); let cr = calls(e, rest, l1.len() as int);
    assert(a0.update(p, a0[p] + vr) =~= accs.drop_last().update(p, accs[p] + outv(e, f, accs[k], n))) by { assert((accs[p] + finv(e, id, accs[k], n)) + vr =~= accs[p] + (finv(e, id, accs[k], n) + vr)); }
    assert(l1 + cr =~= log + outc(e, f, accs[k], n));
    assert(run(e, g, a1, l1) == run(e, g.drop_last(), a1.drop_last().update(p, a1[p] + vr), l1 + cr));
}
/// There is room for the results that the last frame makes next.
pub proof fn room_next<E: Evaluate>(e: E, fr: Seq<Fr>, accs: Seq<Seq<E::Elem>>, log: Seq<Call<E::Elem>>)
    requires fr.len() > 1, accs.len() == fr.len()
    ensures made(log) <= made(run(e, fr, accs, log).1), fr.last() is Fin ==> (fr.last()->Fin_id is Some ==> made(log) + 1 <= made(run(e, fr, accs, log).1)),
        fr.last() matches Fr::Eval { t, .. } ==> (t is Leaf ==> made(log) + 1 <= made(run(e, fr, accs, log).1)) && (t matches Tree::Null(s) ==> made(log) + e.s_nulling(log.len() as int, s).len() <= made(run(e, fr, accs, log).1))
{
    let k = fr.len() - 1; let f = fr[k]; let p = fparent(f); let n = log.len() as int; let c = outc(e, f, accs[k], n);
    run_made(e, fr, accs, log);
    run_made(e, fr.drop_last(), accs.drop_last().update(p, accs[p] + outv(e, f, accs[k], n)), log + c);
    made_add(log, c);
    match f {
        Fr::Fin { id, rest, .. } => { if id is Some { let a = finc(e, id, accs[k], n); made_add(a, calls(e, rest, n + a.len())); assert(made(a) == 1) by { assert(made(a.drop_last()) == 0); } } }
        Fr::Eval { t, .. } => { if t is Leaf || t is Null { assert(made(c.drop_last()) == 0); } }
    }
}
