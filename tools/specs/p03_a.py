id='P03-advance-keep-carry'; prop='P03'; kind='cart'; file='gearley-utils/src/cartesian_product.rs'
edits=[("        for (ptr, factor) in self.ptrs.iter_mut().zip(&mut self.ranges) {","        for (ptr, factor) in self.ptrs.iter_mut().zip(&mut self.ranges).take(8) {")]
needs='a product of more than eight factors whose first eight all wrap around at once'
breaks='The carry stops at the ninth factor, so most combinations are never visited.'
demo='''#[path = "@REPO@/gearley-utils/src/cartesian_product.rs"]
mod cartesian_product;
fn main() {
    let two = [1u8, 2];
    let mut p = cartesian_product::CartesianProduct::new();
    for _ in 0..9 { p.push(&two[..]); }
    let mut n = 1;
    while p.advance() { n += 1; }
    assert_eq!(n, 512);
}
'''
