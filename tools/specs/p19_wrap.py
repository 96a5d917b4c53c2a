id='P19-limit-truncated'; prop='P19'; kind='native'; file='gearley-recognizer/src/perf_hint.rs'
edits=[("""        self.memory_limit as isize
            - self.forest_use() as isize
            - (self.indices_capacity() * mem::size_of::<usize>()) as isize
            - (self.completion_capacity() * mem::size_of::<Item<usize>>()) as isize
""","""        (self.memory_limit - self.forest_use()) as isize
            - ((self.indices_capacity() * mem::size_of::<usize>()) as u32
                + (self.completion_capacity() * mem::size_of::<Item<usize>>()) as u32) as isize
""")]
needs='a token count whose index bytes exceed 32 bits'
breaks='The bytes of the index table are cut to 32 bits, so for huge token counts the chart is sized as if there were no index table, or the sum overflows.'
demo='''use gearley_recognizer::perf_hint::{DefaultPerfHint, PerfHint};
fn main() {
    for &(limit, tokens) in &[(1usize << 20, 1000usize), (3 << 33, (1 << 29) - 1), (3 << 33, 1 << 29), (3 << 35, (1 << 29) + 5)] {
        let h = DefaultPerfHint::with_token_count_and_num_syms(limit, tokens, 128);
        let c = h.medial_capacity();
        let chart = limit as i128 - (limit as i128 * 2 / 3) - (tokens as i128 + 1) * 8 - h.completion_capacity() as i128 * std::mem::size_of::<gearley_forest::item::Item<usize>>() as i128;
        let per = (128 + 31) / 32 * 4 + 16 * std::mem::size_of::<gearley_forest::item::Item<()>>() as i128;
        let want = (chart / per).max(32);
        assert_eq!(c.indices_capacity as i128, want); assert_eq!(c.chart_capacity as i128, want * 16);
    }
}
'''
