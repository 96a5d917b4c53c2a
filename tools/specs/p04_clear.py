id='P04-clear-keeps-old-elements'; prop='P04'; kind='cart'; file='gearley-utils/src/cartesian_product.rs'
edits=[("""        self.ranges.clear();
        self.ptrs.clear();
""","""        // one element per factor
        self.ptrs.truncate(self.ranges.len());
        self.ranges.clear();
""")]
needs='a product that is cleared and then used again'
breaks='After a clear, the current combination still starts with elements of the old factors, which are not those of the new ones.'
demo='''#[path = "@REPO@/gearley-utils/src/cartesian_product.rs"]
mod cartesian_product;
fn main() {
    let (a, b, c) = ([1u8, 2], [3u8, 4], [5u8]);
    let mut p = cartesian_product::CartesianProduct::new();
    p.clear();
    p.push(&a[..]); p.push(&b[..]);
    while p.advance() {}
    p.clear();
    assert!(p.as_slice().is_empty());
    p.push(&c[..]);
    assert!(p.as_slice().len() == 1 && std::ptr::eq(p.as_slice()[0], &c[0]));
}
'''
