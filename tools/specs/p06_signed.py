id='P06-partial-cmp-by-difference'; prop='P06'; kind='native'; file='gearley-forest/src/item.rs'
edits=[("""        Some((self.origin, self.dot).cmp(&(other.origin, other.dot)))
""","""        // one subtraction of the packed pair
        let left = (self.origin as u64) << 32 | self.dot as u64;
        let right = (other.origin as u64) << 32 | other.dot as u64;
        Some((left.wrapping_sub(right) as i64).cmp(&0))
""")]
needs='two origins that are 2^31 or more apart'
breaks='Partial comparison of distant origins is reversed and disagrees with the total order.'
demo='''use gearley_forest::item::Item;
fn main() {
    let v = [0u32, 1, 77, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff];
    for &a in &v { for &b in &v { for &c in &v { for &d in &v {
        let (x, y) = (Item { origin: a, dot: c, node: 1u8 }, Item { origin: b, dot: d, node: 2u8 });
        let w = (a, c).cmp(&(b, d));
        assert_eq!(x.cmp(&y), w); assert_eq!(x.partial_cmp(&y), Some(w)); assert_eq!(x == y, (a, c) == (b, d)); assert_eq!(x < y, (a, c) < (b, d));
    } } } }
}
'''
