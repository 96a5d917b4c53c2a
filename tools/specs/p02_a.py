id='P02-extend-skips-empty'; prop='P02'; kind='vec2d'; file='gearley-vec2d/src/lib.rs'
edits=[("    pub fn extend_with_set(&mut self, set: impl Iterator<Item = I>) {\n        self.chart.extend(set);\n        self.next_set();","    pub fn extend_with_set(&mut self, set: impl Iterator<Item = I>) {\n        let before = self.chart.len();\n        self.chart.extend(set);\n        if self.chart.len() == before && before == 0 {\n            return;\n        }\n        self.next_set();")]
needs='collecting from an iterator whose first sets are empty'
breaks='Leading empty sets are not recorded, so every later set has a wrong number.'
demo='''use gearley_vec2d::Vec2d;
fn main() {
    let v: Vec2d<u8> = vec![vec![], vec![], vec![7u8, 8]].into_iter().collect();
    assert_eq!(v.len(), 4);
    assert_eq!(&v[0], &[] as &[u8]);
    assert_eq!(&v[2], &[7, 8]);
}
'''
