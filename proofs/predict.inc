//@ file PREDICT gearley-recognizer/src/predict.rs
pub proof fn lemma_or(a: u32, b: u32, i: int)
    requires 0 <= i < 32
    ensures bit_of(a | b, i) == (bit_of(a, i) || bit_of(b, i))
{
    let j = i as u32;
    assert(((a | b) >> j) & 1u32 == 1u32 <==> ((a >> j) & 1u32 == 1u32 || (b >> j) & 1u32 == 1u32)) by (bit_vector) requires j < 32;
}
pub proof fn lemma_zero(i: int)
    requires 0 <= i < 32
    ensures !bit_of(0u32, i)
{ let j = i as u32; assert((0u32 >> j) & 1u32 == 0u32) by (bit_vector) requires j < 32; }
pub open spec fn ored(a: Seq<u32>, b: Seq<u32>, n: int, r: Seq<u32>) -> bool {
    r.len() == a.len() && forall|k: int| 0 <= k < a.len() ==> #[trigger] r[k] == (if k < n { a[k] | b[k] } else { a[k] })
}
/// A row that holds the predicted symbols' rows is closed under prediction.
pub open spec fn union_of(a: BitSlice, b: BitSlice, r: BitSlice) -> bool {
    r.len() == a.len() && forall|i: int| #[trigger] r.has(i) == (a.has(i) || b.has(i))
}
//@ impl PREDICT `impl Predict for BitSlice` `impl BitSlice`
//@ fn predict props=P11
    requires source.len() == old(self).len(),
        // what the row already predicts, it predicts with the whole row of that symbol (rows are reflexive and transitive)
        old(self).has(sym.id()) ==> forall|i: int| #[trigger] source.has(i) ==> old(self).has(i),
    ensures union_of(*old(self), *source, *final(self))
//@ entry
    let ghost old_ = *self;
//@ desugar_zip_mut 0
    invariant zip_i_ <= self.blocks@.len(), self.blocks@.len() == source.blocks@.len(), old_ == *old(self),
        ored(old_.blocks@, source.blocks@, zip_i_ as int, self.blocks@)
    decreases self.blocks@.len() - zip_i_
//@ exit
    proof {
        assert forall|i: int| #[trigger] self.has(i) == (old_.has(i) || source.has(i)) by {
            if 0 <= i < self.len() {
                lemma_or(old_.blocks@[i / 32], source.blocks@[i / 32], i % 32);
                if old_.has(sym.id()) && source.has(i) { assert(old_.has(i)); }
            }
        }
    }
//@ endfn
//@ fn clear props=P11,P16
    ensures final(self).len() == old(self).len(), forall|i: int| !(#[trigger] final(self).has(i))
//@ desugar_zip_mut 0
    invariant zip_i_ <= self.blocks@.len(), self.blocks@.len() == old(self).blocks@.len(),
        forall|k: int| 0 <= k < zip_i_ ==> #[trigger] self.blocks@[k] == 0,
    decreases self.blocks@.len() - zip_i_
//@ exit
    proof { assert forall|i: int| !(#[trigger] self.has(i)) by { if 0 <= i < self.len() { lemma_zero(i % 32); } } }
//@ endfn
//@ endimpl
