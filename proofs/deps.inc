pub type Dot = u32;
pub type Origin = u32;
// ---- contracts assumed on the dependencies that are absent from this sandbox (cfg-symbol, bit-matrix, cfg-history) ----
/// cfg_symbol::Symbol: an opaque number, compared as that number.
#[derive(Clone, Copy)]
pub struct Symbol { pub n: u32 }
impl Symbol {
    pub open spec fn id(&self) -> int { self.n as int }
    pub fn usize(self) -> (r: usize) ensures r == self.n as usize, r == self.id() { self.n as usize }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Symbol {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialEq for Symbol { fn eq(&self, other: &Self) -> bool { self.n == other.n } }
impl Eq for Symbol {}
pub open spec fn ncmp(a: int, b: int) -> cmp::Ordering { if a < b { cmp::Ordering::Less } else if a == b { cmp::Ordering::Equal } else { cmp::Ordering::Greater } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Symbol {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<cmp::Ordering> { Some(ncmp(self.id(), other.id())) }
}
impl PartialOrd for Symbol { fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> { self.n.partial_cmp(&other.n) } }
impl vstd::std_specs::cmp::OrdSpecImpl for Symbol {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> cmp::Ordering { ncmp(self.id(), other.id()) }
}
impl Ord for Symbol { fn cmp(&self, other: &Self) -> cmp::Ordering { self.n.cmp(&other.n) } }

/// bit_matrix::row::BitSlice: a row of 32-bit blocks; bit `i` is bit `i % 32` of block `i / 32`.
pub struct BitSlice { pub blocks: Vec<u32> }
pub open spec fn bit_of(w: u32, i: int) -> bool { (w >> (i as u32)) & 1u32 == 1u32 }
impl BitSlice {
    pub open spec fn len(&self) -> nat { self.blocks@.len() * 32 }
    pub open spec fn has(&self, i: int) -> bool { 0 <= i < self.len() && bit_of(self.blocks@[i / 32], i % 32) }
    #[verifier::external_body]
    pub fn get(&self, bit: usize) -> (r: bool) ensures r == self.has(bit as int), bit < self.len() { unimplemented!() }
}
impl vstd::std_specs::core::IndexSpecImpl<usize> for BitSlice { open spec fn index_req(&self, index: &usize) -> bool { true } }
impl ops::Index<usize> for BitSlice {
    type Output = bool;
    #[verifier::external_body]
    fn index(&self, bit: usize) -> (r: &bool) ensures *r == self.has(bit as int), bit < self.len() { unimplemented!() }
}
