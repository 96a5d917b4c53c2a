id='P05-last-right-child-skipped'; prop='P05'; kind='native'; file='gearley-recognizer/src/binary_heap.rs'
edits=[("""    fn sift_down_range(&mut self, mut pos: usize, end: usize) {
        let element = self.complete.0[pos];
        let mut child = 2 * pos + 1;
        while child < end {
            let right = child + 1;
            // compare with the greater of the two children
            if right < end && !(""","""    fn sift_down_range(&mut self, mut pos: usize, end: usize) {
        let element = self.complete.0[pos];
        let last = end.saturating_sub(1);
        let mut child = 2 * pos + 1;
        while child < end {
            let right = child + 1;
            // compare with the greater of the two children
            if right < last && !(""")]
needs='a removal after which the last item of the queue is a right child that must move up'
breaks='The last item is never considered as a right child while sifting down, so removals come out in the wrong order.'
demo='''#![allow(dead_code, unused)]
include!("@REPO@/gearley-recognizer/src/lib.rs");
#[path = "../../common.rs"] mod common;
#[path = "../../shared/tg.rs"] mod tg;
fn main() {
    use gearley_forest::{item::Item, NullForest};
    let g = tg::compile(&tg::Cfg0 { nt: 1, tt: 1, prods: vec![(0, vec![1])] }, &mut common::Rng::new(1)).unwrap();
    let mut rng = common::Rng::new(5);
    for _ in 0..2000 {
        let mut r: Recognizer<&tg::TestGrammar, NullForest> = Recognizer::new(&g);
        let mut all: Vec<(u32, u32)> = (0..rng.below(12)).map(|_| (rng.below(6) as u32, rng.below(6) as u32)).collect();
        for &(origin, dot) in &all { r.complete.heap_push(Item { origin, dot, node: Default::default() }); }
        all.sort(); all.reverse();
        for x in all { let i = r.heap_pop().unwrap(); assert_eq!((i.origin, i.dot), x); }
        assert!(r.heap_pop().is_none());
    }
}
'''
