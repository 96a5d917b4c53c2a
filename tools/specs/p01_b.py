id='P01-truncate-index-count'; prop='P01'; kind='vec2d'; file='gearley-vec2d/src/lib.rs'
edits=[("        self.indices.truncate(new_len + 1);","        let start = self.indices[new_len];\n        while self.indices.len() > 1 && *self.indices.last().unwrap() > start {\n            self.indices.pop();\n        }")]
needs='truncate where finished sets right after the kept ones are empty, so that several set starts coincide'
breaks='Set starts equal to the new in-progress start are kept, so empty finished sets survive a truncation that must drop them.'
demo='''use gearley_vec2d::Vec2d;
fn main() {
    let mut v: Vec2d<u32> = Vec2d::new();
    v.extend_with_set([1u32, 2].into_iter());
    v.next_set(); v.next_set();
    v.extend_with_set([3u32].into_iter());
    v.push_item(9);
    v.truncate(1);
    assert_eq!(v.len(), 2, "one finished set and the one in progress");
    assert_eq!(v.last(), &[9]);
}
'''
