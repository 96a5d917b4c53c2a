//@ include prelude.inc
//@ include std_extra.inc
//@ file C gearley-utils/src/cartesian_product.rs

//@ struct C Factor public
//@ struct C CartesianProduct public

pub open spec fn f_wf<V>(f: Factor<V>) -> bool { f.pos < f.slice@.len() }
pub open spec fn f_len<V>(f: Factor<V>) -> nat { f.slice@.len() }
/// The element of its factor that a combination holds.
pub open spec fn f_cur<V>(f: Factor<V>) -> V { f.slice@[f.pos as int] }
pub open spec fn all_wf<V>(s: Seq<Factor<V>>) -> bool { forall|k: int| 0 <= k < s.len() ==> f_wf(#[trigger] s[k]) }
/// Number of combinations.
pub open spec fn total<V>(s: Seq<Factor<V>>) -> nat decreases s.len() { if s.len() == 0 { 1 } else { f_len(s[0]) * total(s.skip(1)) } }
/// Number of the current combination, the first factor counting fastest.
pub open spec fn rank<V>(s: Seq<Factor<V>>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0].pos as nat + f_len(s[0]) * rank(s.skip(1)) } }
pub open spec fn same_slices<V>(a: Seq<Factor<V>>, b: Seq<Factor<V>>) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).slice == b[k].slice }
pub open spec fn slices<V>(s: Seq<Factor<V>>) -> Seq<Seq<V>> { Seq::new(s.len(), |k: int| s[k].slice@) }
/// Representation: one element per factor, in the order of the factors, each the factor's current one.
pub open spec fn cp_wf<V>(c: CartesianProduct<V>) -> bool {
    &&& c.ptrs@.len() == c.ranges@.len()
    &&& all_wf(c.ranges@)
    &&& forall|k: int| 0 <= k < c.ranges@.len() ==> *(#[trigger] c.ptrs@[k]) == f_cur(c.ranges@[k])
}
pub open spec fn at_first<V>(s: Seq<Factor<V>>) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).pos == 0 }

pub proof fn lemma_bounds<V>(s: Seq<Factor<V>>)
    requires all_wf(s)
    ensures rank(s) < total(s), at_first(s) <==> rank(s) == 0
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.skip(1);
        assert forall|k: int| 0 <= k < t.len() implies f_wf(#[trigger] t[k]) by { assert(t[k] == s[k + 1]); }
        lemma_bounds(t);
        let l = f_len(s[0]); let p = s[0].pos as nat;
        assert(f_wf(s[0]));
        assert(p + l * rank(t) < l * total(t)) by (nonlinear_arith) requires p < l, rank(t) + 1 <= total(t);
        assert(p + l * rank(t) == 0 <==> p == 0 && rank(t) == 0) by (nonlinear_arith) requires l > 0, p >= 0, rank(t) >= 0;
        if at_first(s) { assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).pos == 0 by { assert(t[k] == s[k + 1]); } }
        if at_first(t) && p == 0 { assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).pos == 0 by { if k > 0 { assert(s[k] == t[k - 1]); } } }
    }
}
/// Two states over the same factors with the same number hold the same combination:
/// so distinct numbers 0..total are exactly the distinct combinations, each once.
pub proof fn lemma_injective<V>(a: Seq<Factor<V>>, b: Seq<Factor<V>>)
    requires all_wf(a), all_wf(b), same_slices(a, b), rank(a) == rank(b)
    ensures forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).pos == b[k].pos
    decreases a.len()
{
    if a.len() > 0 {
        let (s, t) = (a.skip(1), b.skip(1));
        assert forall|k: int| 0 <= k < s.len() implies f_wf(#[trigger] s[k]) && s[k].slice == t[k].slice by { assert(s[k] == a[k + 1]); assert(t[k] == b[k + 1]); assert(f_wf(a[k + 1])); }
        assert forall|k: int| 0 <= k < t.len() implies f_wf(#[trigger] t[k]) by { assert(t[k] == b[k + 1]); assert(f_wf(b[k + 1])); }
        assert(f_wf(a[0]) && f_wf(b[0]));
        let l = f_len(a[0]); let (p, q) = (a[0].pos as nat, b[0].pos as nat); let (x, y) = (rank(s), rank(t));
        assert(p == q && x == y) by (nonlinear_arith) requires p + l * x == q + l * y, p < l, q < l, x >= 0, y >= 0;
        lemma_injective(s, t);
        assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).pos == b[k].pos by { if k > 0 { assert(a[k] == s[k - 1]); assert(b[k] == t[k - 1]); } }
    }
}
/// Every number below the total is some combination.
pub proof fn lemma_surjective<V>(a: Seq<Factor<V>>, n: nat) -> (b: Seq<Factor<V>>)
    requires all_wf(a), n < total(a)
    ensures all_wf(b), same_slices(a, b), rank(b) == n
    decreases a.len()
{
    if a.len() == 0 { a } else {
        let s = a.skip(1); let l = f_len(a[0]);
        assert forall|k: int| 0 <= k < s.len() implies f_wf(#[trigger] s[k]) by { assert(s[k] == a[k + 1]); }
        assert(f_wf(a[0]));
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n as int, l as int);
        let (q, r) = (n / l, n % l);
        assert(q < total(s)) by (nonlinear_arith) requires n == l * q + r, r >= 0, n < l * total(s), l > 0;
        let t = lemma_surjective(s, q);
        assert(a[0].slice.len() == l);
        let f0 = Factor { slice: a[0].slice, pos: r as usize };
        let b = seq![f0] + t;
        assert(b.skip(1) =~= t);
        assert forall|k: int| 0 <= k < b.len() implies f_wf(#[trigger] b[k]) && a[k].slice == b[k].slice by { if k > 0 { assert(b[k] == t[k - 1]); assert(a[k] == s[k - 1]); } }
        b
    }
}
/// The factors before `i` wrapped around, factor `i` moved on, the rest is untouched.
pub open spec fn stepped<V>(a: Seq<Factor<V>>, b: Seq<Factor<V>>, i: int) -> bool {
    &&& same_slices(a, b)
    &&& forall|k: int| 0 <= k < i ==> (#[trigger] a[k]).pos + 1 == f_len(a[k]) && b[k].pos == 0
    &&& i < a.len() ==> b[i].pos == a[i].pos + 1
    &&& forall|k: int| i < k < a.len() ==> (#[trigger] a[k]).pos == b[k].pos
}
pub proof fn lemma_step<V>(a: Seq<Factor<V>>, b: Seq<Factor<V>>, i: int)
    requires all_wf(a), all_wf(b), 0 <= i <= a.len(), stepped(a, b, i)
    ensures i < a.len() ==> rank(b) == rank(a) + 1,
        i == a.len() ==> rank(b) == 0 && rank(a) + 1 == total(a),
        total(a) == total(b)
    decreases a.len()
{
    if a.len() > 0 {
        let (s, t) = (a.skip(1), b.skip(1));
        assert forall|k: int| 0 <= k < s.len() implies f_wf(#[trigger] s[k]) && s[k].slice == t[k].slice by { assert(s[k] == a[k + 1]); assert(t[k] == b[k + 1]); assert(f_wf(a[k + 1])); }
        assert forall|k: int| 0 <= k < t.len() implies f_wf(#[trigger] t[k]) by { assert(t[k] == b[k + 1]); assert(f_wf(b[k + 1])); }
        assert(f_wf(a[0]) && f_wf(b[0]));
        let l = f_len(a[0]);
        assert(f_len(b[0]) == l) by { assert(a[0].slice == b[0].slice); }
        if i == 0 {
            lemma_same(s, t);
        } else {
            assert(a[0].pos + 1 == l && b[0].pos == 0);
            assert forall|k: int| 0 <= k < i - 1 implies (#[trigger] s[k]).pos + 1 == f_len(s[k]) && t[k].pos == 0 by { assert(s[k] == a[k + 1]); assert(t[k] == b[k + 1]); }
            assert forall|k: int| i - 1 < k < s.len() implies (#[trigger] s[k]).pos == t[k].pos by { assert(s[k] == a[k + 1]); assert(t[k] == b[k + 1]); }
            if i < a.len() { assert(t[i - 1] == b[i] && s[i - 1] == a[i]); }
            lemma_step(s, t, i - 1);
            let (x, y, w) = (rank(s), rank(t), total(s));
            if i < a.len() { assert(0 + l * y == (l - 1) + l * x + 1) by (nonlinear_arith) requires y == x + 1; }
            else { assert((l - 1) + l * x + 1 == l * w) by (nonlinear_arith) requires x + 1 == w; assert(l * y == 0) by (nonlinear_arith) requires y == 0; }
        }
    }
}
pub proof fn lemma_same<V>(a: Seq<Factor<V>>, b: Seq<Factor<V>>)
    requires same_slices(a, b), forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).pos == b[k].pos
    ensures a == b
{
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] == b[k] by { assert(a[k].slice == b[k].slice); assert(a[k].pos == b[k].pos); }
    assert(a =~= b);
}
/// A run of `n` calls of `advance` (its contract below) from the first combination: `st[i]` is the state
/// after `i` calls and `res[i]` what call `i` returned.
pub open spec fn enumeration<V>(st: Seq<Seq<Factor<V>>>, res: Seq<bool>) -> bool {
    &&& st.len() == res.len() + 1
    &&& forall|i: int| 0 <= i < st.len() ==> all_wf(#[trigger] st[i]) && same_slices(st[0], st[i]) && total(st[i]) == total(st[0])
    &&& forall|i: int| 0 <= i < res.len() ==> {
        &&& #[trigger] res[i] ==> rank(st[i + 1]) == rank(st[i]) + 1
        &&& !res[i] ==> rank(st[i]) + 1 == total(st[i]) && rank(st[i + 1]) == 0
    }
}
/// Read-then-advance from the first combination until `advance` says false visits the combinations
/// 0, 1, .., total-1, each exactly once, and ends at combination 0.
pub proof fn theorem_enumeration<V>(st: Seq<Seq<Factor<V>>>, res: Seq<bool>)
    requires enumeration(st, res), at_first(st[0]), res.len() > 0, !res.last(), forall|i: int| 0 <= i < res.len() - 1 ==> #[trigger] res[i]
    ensures res.len() == total(st[0]), forall|i: int| 0 <= i < res.len() ==> rank(#[trigger] st[i]) == i, at_first(st.last())
{
    lemma_bounds(st[0]);
    assert forall|i: int| 0 <= i < res.len() implies rank(#[trigger] st[i]) == i by { lemma_count(st, res, i); }
    lemma_count(st, res, res.len() - 1);
    let n = res.len() - 1;
    assert(!res[n]);
    assert(total(st[n]) == total(st[0]));
    lemma_bounds(st[n + 1]);
}
pub proof fn lemma_count<V>(st: Seq<Seq<Factor<V>>>, res: Seq<bool>, i: int)
    requires enumeration(st, res), rank(st[0]) == 0, 0 <= i < res.len(), forall|k: int| 0 <= k < res.len() - 1 ==> #[trigger] res[k]
    ensures rank(st[i]) == i
    decreases i
{
    if i > 0 { lemma_count(st, res, i - 1); assert(res[i - 1]); assert(st[i - 1 + 1] == st[i]); }
}
pub proof fn lemma_first_append<V>(a: Seq<Factor<V>>, f: Seq<Factor<V>>)
    requires all_wf(a), all_wf(f), at_first(f)
    ensures all_wf(a + f), rank(a + f) == rank(a)
    decreases a.len()
{
    assert forall|k: int| 0 <= k < (a + f).len() implies f_wf(#[trigger] (a + f)[k]) by { if k >= a.len() { assert((a + f)[k] == f[k - a.len()]); } else { assert((a + f)[k] == a[k]); } }
    if a.len() == 0 { assert(a + f =~= f); lemma_bounds(f); } else {
        let s = a.skip(1);
        assert forall|k: int| 0 <= k < s.len() implies f_wf(#[trigger] s[k]) by { assert(s[k] == a[k + 1]); }
        assert((a + f).skip(1) =~= s + f);
        lemma_first_append(s, f);
    }
}

//@ impl C `impl<'a, V> Factor<'a, V>`
//@ fn new props=P03,P04
    requires slice@.len() > 0
    ensures r.slice == slice, r.pos == 0, f_wf(r)
//@ endfn
//@ fn advance props=P03,P04
    requires f_wf(*old(self))
    ensures f_wf(*final(self)), final(self).slice == old(self).slice,
        r == (old(self).pos + 1 == f_len(*old(self))),
        final(self).pos == (if r { 0int } else { old(self).pos + 1 }),
        **final(ptr) == f_cur(*final(self)),
//@ endfn
//@ endimpl

//@ impl C `impl<'a, V> CartesianProduct<'a, V>`
//@ fn new props=P03,P04
    ensures cp_wf(r), r.ranges@ == Seq::<Factor<'a, V>>::empty()
//@ endfn
//@ fn clear props=P03,P04
    ensures cp_wf(*final(self)), final(self).ranges@ == Seq::<Factor<'a, V>>::empty()
//@ endfn
//@ fn push props=P03,P04
    requires cp_wf(*old(self)), slice@.len() > 0
    ensures cp_wf(*final(self)), final(self).ranges@ == old(self).ranges@.push(Factor { slice, pos: 0 }),
        final(self).ptrs@.take(old(self).ptrs@.len() as int) == old(self).ptrs@,
        at_first(old(self).ranges@) ==> at_first(final(self).ranges@),
//@ entry
    let ghost old_ = *self;
//@ closure 0
    -> (r: &V) requires factor.slice@.len() > 0 ensures *r == factor.slice@[0]
//@ exit
    proof { assert(self.ptrs@.take(old_.ptrs@.len() as int) =~= old_.ptrs@); }
//@ endfn
//@ fn extend props=P03,P04
    requires cp_wf(*old(self)), product.obeys_prophetic_iter_laws(), forall|k: int| 0 <= k < product.remaining().len() ==> (#[trigger] product.remaining()[k])@.len() > 0
    ensures cp_wf(*final(self)), final(self).ranges@ == old(self).ranges@ + Seq::new(product.remaining().len(), |k: int| Factor { slice: product.remaining()[k], pos: 0 }),
        final(self).ptrs@.take(old(self).ptrs@.len() as int) == old(self).ptrs@,
        at_first(old(self).ranges@) ==> at_first(final(self).ranges@),
//@ entry
    let ghost old_ = *self;
//@ rewrite `. map (` => `.map_law_(`
//@ closure 0 params=`slice: &'a [V]`
    -> (r: Factor<'a, V>) requires slice@.len() > 0 ensures r.slice == slice, r.pos == 0
//@ closure 1
    -> (r: &V) requires factor.slice@.len() > 0 ensures *r == factor.slice@[0]
//@ exit
    proof {
        let f = Seq::new(product.remaining().len(), |k: int| Factor { slice: product.remaining()[k], pos: 0 });
        let n = old_.ranges@.len() as int;
        assert(self.ptrs@.take(old_.ptrs@.len() as int) =~= old_.ptrs@);
        assert(self.ranges@ =~= old_.ranges@ + f);
        assert forall|k: int| 0 <= k < self.ranges@.len() implies f_wf(#[trigger] self.ranges@[k]) by {
            if k >= n { assert(self.ranges@[k] == f[k - n]); assert(product.remaining()[k - n]@.len() > 0); } else { assert(self.ranges@[k] == old_.ranges@[k]); }
        }
        assert(self.ptrs@.len() == self.ranges@.len());
        assert forall|k: int| 0 <= k < self.ranges@.len() implies *(#[trigger] self.ptrs@[k]) == f_cur(self.ranges@[k]) by {
            if k < n { assert(self.ranges@[k] == old_.ranges@[k]); assert(self.ptrs@[k] == old_.ptrs@[k]); } else { assert(self.ranges@[k] == f[k - n]); }
        }
    }
//@ endfn
//@ fn as_slice props=P03,P04
    ensures r@ == self.ptrs@
//@ endfn
//@ fn advance props=P03,P04
    requires cp_wf(*old(self))
    ensures cp_wf(*final(self)), same_slices(old(self).ranges@, final(self).ranges@), total(final(self).ranges@) == total(old(self).ranges@),
        r == (rank(old(self).ranges@) + 1 < total(old(self).ranges@)),
        r ==> rank(final(self).ranges@) == rank(old(self).ranges@) + 1,
        !r ==> rank(final(self).ranges@) == 0,
//@ entry
    let ghost old_ = *self;
//@ desugar_zip_mut 0
    invariant
        zip_i_ <= old_.ranges@.len(), cp_wf(old_), old_ == *old(self),
        cp_wf(*self), same_slices(old_.ranges@, self.ranges@),
        forall|k: int| 0 <= k < zip_i_ ==> (#[trigger] old_.ranges@[k]).pos + 1 == f_len(old_.ranges@[k]) && self.ranges@[k].pos == 0,
        forall|k: int| zip_i_ <= k < old_.ranges@.len() ==> (#[trigger] old_.ranges@[k]).pos == self.ranges@[k].pos,
    decreases old_.ranges@.len() - zip_i_
//@ before `return true`
    proof {
        assert(stepped(old_.ranges@, self.ranges@, zip_i_ - 1));
        lemma_step(old_.ranges@, self.ranges@, zip_i_ - 1); lemma_bounds(self.ranges@); }
//@ exit
    proof {
        assert forall|k: int| 0 <= k < zip_i_ implies (#[trigger] self.ranges@[k]).pos == 0 by { let x = old_.ranges@[k]; assert(x.pos + 1 == f_len(x)); }
        assert(stepped(old_.ranges@, self.ranges@, zip_i_ as int));
        lemma_step(old_.ranges@, self.ranges@, zip_i_ as int); }
//@ endfn
//@ endimpl
} // verus!
