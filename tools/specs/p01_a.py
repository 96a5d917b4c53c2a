id='P01-truncate-empty-progress'; prop='P01'; kind='vec2d'; file='gearley-vec2d/src/lib.rs'
edits=[("        self.chart\n            .copy_within(self.indices.last().unwrap().., new_medial_start as usize);\n",
"        if self.chart.len() - self.indices.last().unwrap() <= self.indices.last().unwrap() - new_medial_start {\n            self.chart\n                .copy_within(self.indices.last().unwrap().., new_medial_start as usize);\n        } else {\n            let end = 2 * self.indices.last().unwrap() - new_medial_start;\n            self.chart\n                .copy_within(*self.indices.last().unwrap()..end, new_medial_start as usize);\n        }\n")]
needs='truncate to a set such that the in-progress set has more items than are dropped (overlapping copy)'
breaks='In-progress items after the first few are not moved, so the in-progress set after truncate holds wrong items.'
demo='''use gearley_vec2d::Vec2d;
fn main() {
    let mut v: Vec2d<u32> = Vec2d::new();
    for set in [&[1u32, 2][..], &[3, 4], &[]] { v.extend_with_set(set.iter().copied()); }
    for i in 10..16 { v.push_item(i); }
    v.truncate(1);
    assert_eq!(v.last(), &[10, 11, 12, 13, 14, 15]);
    assert_eq!(&v[0], &[1, 2]);
    assert_eq!(v.len(), 2);
}
'''
