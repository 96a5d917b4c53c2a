//! Stand-in for the absent `bit-matrix` crate: rows of 32-bit blocks.
pub mod row {
    use std::ops;
    #[repr(transparent)]
    #[derive(Debug, PartialEq, Eq)]
    pub struct BitSlice { slice: [u32] }
    impl BitSlice {
        pub fn new(s: &[u32]) -> &Self { unsafe { &*(s as *const [u32] as *const BitSlice) } }
        pub fn new_mut(s: &mut [u32]) -> &mut Self { unsafe { &mut *(s as *mut [u32] as *mut BitSlice) } }
        pub fn iter_blocks(&self) -> std::slice::Iter<'_, u32> { self.slice.iter() }
        pub fn iter_blocks_mut(&mut self) -> std::slice::IterMut<'_, u32> { self.slice.iter_mut() }
        pub fn get(&self, bit: usize) -> bool { self[bit] }
    }
    static TRUE: bool = true;
    static FALSE: bool = false;
    impl ops::Index<usize> for BitSlice {
        type Output = bool;
        fn index(&self, bit: usize) -> &bool {
            if (self.slice[bit / 32] >> (bit % 32)) & 1 != 0 { &TRUE } else { &FALSE }
        }
    }
}
use row::BitSlice;
use std::ops;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
#[cfg_attr(feature = "miniserde", derive(miniserde::Serialize, miniserde::Deserialize))]
pub struct BitMatrix { bits: usize, blocks: usize, rows: usize, data: Vec<u32> }

static TRUE: bool = true;
static FALSE: bool = false;

impl BitMatrix {
    pub fn new(rows: usize, bits: usize) -> Self {
        let blocks = (bits + 31) / 32;
        BitMatrix { bits, blocks, rows, data: vec![0; rows * blocks] }
    }
    pub fn size(&self) -> (usize, usize) { (self.rows, self.bits) }
    pub fn set(&mut self, row: usize, col: usize, enabled: bool) {
        assert!(row < self.rows && col < self.bits);
        let w = &mut self.data[row * self.blocks + col / 32];
        if enabled { *w |= 1 << (col % 32) } else { *w &= !(1 << (col % 32)) }
    }
    pub fn grow(&mut self, rows: usize, value: bool) {
        self.rows += rows;
        self.data.extend(std::iter::repeat(if value { !0 } else { 0 }).take(rows * self.blocks));
    }
    pub fn truncate(&mut self, rows: usize) {
        if rows < self.rows {
            self.rows = rows;
            self.data.truncate(rows * self.blocks);
        }
    }
    pub fn iter_row(&self, row: usize) -> IterRow<'_> { IterRow { m: self, row, col: 0 } }
    pub fn sub_matrix(&self, r: ops::Range<usize>) -> &[u32] {
        &self.data[r.start * self.blocks..r.end * self.blocks]
    }
    pub fn transitive_closure(&mut self) {
        for k in 0..self.rows.min(self.bits) {
            for i in 0..self.rows {
                if self[(i, k)] {
                    for b in 0..self.blocks {
                        let src = self.data[k * self.blocks + b];
                        self.data[i * self.blocks + b] |= src;
                    }
                }
            }
        }
    }
    pub fn reflexive_closure(&mut self) {
        for i in 0..self.rows.min(self.bits) { self.set(i, i, true); }
    }
}
pub struct IterRow<'a> { m: &'a BitMatrix, row: usize, col: usize }
impl<'a> Iterator for IterRow<'a> {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        if self.col < self.m.bits { self.col += 1; Some(self.m[(self.row, self.col - 1)]) } else { None }
    }
}
impl ops::Index<usize> for BitMatrix {
    type Output = BitSlice;
    fn index(&self, row: usize) -> &BitSlice {
        BitSlice::new(&self.data[row * self.blocks..(row + 1) * self.blocks])
    }
}
impl ops::IndexMut<usize> for BitMatrix {
    fn index_mut(&mut self, row: usize) -> &mut BitSlice {
        BitSlice::new_mut(&mut self.data[row * self.blocks..(row + 1) * self.blocks])
    }
}
impl ops::Index<(usize, usize)> for BitMatrix {
    type Output = bool;
    fn index(&self, (row, col): (usize, usize)) -> &bool {
        assert!(row < self.rows && col < self.bits);
        if (self.data[row * self.blocks + col / 32] >> (col % 32)) & 1 != 0 { &TRUE } else { &FALSE }
    }
}
