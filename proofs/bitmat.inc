/// bit_matrix::BitMatrix: rows of bits (assumed contracts).
#[verifier::external_body]
pub struct BitMatrix { x: Vec<u32> }
impl BitMatrix {
    pub uninterp spec fn rows(&self) -> Seq<BitSlice>;
    /// Blocks per row.
    pub uninterp spec fn width(&self) -> nat;
    /// Columns.
    pub uninterp spec fn bits(&self) -> nat;
    pub open spec fn wf(&self) -> bool { forall|i: int| 0 <= i < self.rows().len() ==> (#[trigger] self.rows()[i]).blocks@.len() == self.width() }
    #[verifier::external_body]
    pub fn grow(&mut self, n: usize, value: bool)
        requires !value
        ensures final(self).width() == old(self).width(), final(self).bits() == old(self).bits(), final(self).rows().len() == old(self).rows().len() + n,
            forall|i: int| 0 <= i < old(self).rows().len() ==> final(self).rows()[i] == #[trigger] old(self).rows()[i],
            forall|i: int, b: int| old(self).rows().len() <= i < final(self).rows().len() ==> !(#[trigger] final(self).rows()[i].has(b)),
            old(self).wf() ==> final(self).wf(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize)
        ensures final(self).width() == old(self).width(), final(self).bits() == old(self).bits(), final(self).rows() == (if n <= old(self).rows().len() { old(self).rows().take(n as int) } else { old(self).rows() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new(rows: usize, bits: usize) -> (r: BitMatrix)
        ensures r.wf(), r.rows().len() == rows, r.width() == (bits + 31) / 32, r.bits() == bits, forall|i: int, b: int| 0 <= i < rows ==> !(#[trigger] r.rows()[i].has(b)),
    { unimplemented!() }
}
impl vstd::std_specs::core::IndexSpecImpl<usize> for BitMatrix { open spec fn index_req(&self, index: &usize) -> bool { true } }
impl ops::Index<usize> for BitMatrix {
    type Output = BitSlice;
    #[verifier::external_body]
    fn index(&self, i: usize) -> (r: &BitSlice) ensures i < self.rows().len(), *r == self.rows()[i as int] { unimplemented!() }
}
impl ops::IndexMut<usize> for BitMatrix {
    #[verifier::external_body]
    fn index_mut(&mut self, i: usize) -> (r: &mut BitSlice)
        ensures i < old(self).rows().len(), *r == old(self).rows()[i as int], final(self).width() == old(self).width(), final(self).bits() == old(self).bits(),
            final(self).rows() == old(self).rows().update(i as int, *final(r)),
    { unimplemented!() }
}
