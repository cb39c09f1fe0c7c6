//! Offline stand-in for `bit-matrix` 0.9 (not in the local crate cache).
use std::fmt;
use std::ops::{Index, IndexMut, Range};

pub type Block = u32;
pub const BITS: usize = 32;
pub static TRUE: bool = true;
pub static FALSE: bool = false;

pub mod row {
    use super::{Block, BITS, FALSE, TRUE};
    use std::fmt;

    /// A row of bits.
    #[repr(transparent)]
    #[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct BitSlice {
        slice: [Block],
    }

    impl BitSlice {
        #[inline]
        pub fn new(slice: &[Block]) -> &Self {
            unsafe { &*(slice as *const [Block] as *const BitSlice) }
        }
        #[inline]
        pub fn new_mut(slice: &mut [Block]) -> &mut Self {
            unsafe { &mut *(slice as *mut [Block] as *mut BitSlice) }
        }
        pub fn iter_bits(&self, len: usize) -> impl Iterator<Item = bool> + '_ {
            (0..len).map(move |i| self[i])
        }
        pub fn iter_blocks(&self) -> std::slice::Iter<'_, Block> {
            self.slice.iter()
        }
        pub fn iter_blocks_mut(&mut self) -> std::slice::IterMut<'_, Block> {
            self.slice.iter_mut()
        }
        #[inline]
        pub fn get(&self, bit: usize) -> bool {
            self[bit]
        }
        pub fn set(&mut self, bit: usize, enabled: bool) {
            let mask = 1 << (bit % BITS);
            let block = &mut self.slice[bit / BITS];
            if enabled {
                *block |= mask
            } else {
                *block &= !mask
            }
        }
        pub fn len(&self) -> usize {
            self.slice.len() * BITS
        }
        pub fn is_empty(&self) -> bool {
            self.slice.is_empty()
        }
        pub fn any(&self) -> bool {
            self.slice.iter().any(|&b| b != 0)
        }
        pub fn none(&self) -> bool {
            !self.any()
        }
        pub fn count_ones(&self) -> usize {
            self.slice.iter().map(|b| b.count_ones() as usize).sum()
        }
        pub fn iter_ones(&self) -> impl Iterator<Item = usize> + '_ {
            (0..self.len()).filter(move |&i| self[i])
        }
        pub fn as_slice(&self) -> &[Block] {
            &self.slice
        }
    }

    impl std::ops::Index<usize> for BitSlice {
        type Output = bool;
        #[inline]
        fn index(&self, bit: usize) -> &bool {
            match self.slice.get(bit / BITS) {
                Some(block) if block & (1 << (bit % BITS)) != 0 => &TRUE,
                _ => &FALSE,
            }
        }
    }

    impl fmt::Debug for BitSlice {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            for i in 0..self.len() {
                f.write_str(if self[i] { "1" } else { "0" })?;
            }
            Ok(())
        }
    }
}

use row::BitSlice;

#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[cfg_attr(
    feature = "miniserde",
    derive(miniserde::Serialize, miniserde::Deserialize)
)]
#[derive(Clone, Default, PartialEq, Eq)]
pub struct BitMatrix {
    blocks: Vec<u32>,
    row_bits: usize,
    rows: usize,
}

#[inline]
fn row_blocks(bits: usize) -> usize {
    (bits + BITS - 1) / BITS
}

impl BitMatrix {
    pub fn new(rows: usize, row_bits: usize) -> Self {
        BitMatrix {
            blocks: vec![0; rows * row_blocks(row_bits)],
            row_bits,
            rows,
        }
    }
    #[inline]
    fn row_size(&self) -> usize {
        row_blocks(self.row_bits)
    }
    pub fn size(&self) -> (usize, usize) {
        (self.rows, self.row_bits)
    }
    pub fn num_rows(&self) -> usize {
        self.rows
    }
    pub fn set(&mut self, row: usize, col: usize, enabled: bool) {
        assert!(col < self.row_bits, "column out of range");
        self[row].set(col, enabled)
    }
    pub fn set_all(&mut self, enabled: bool) {
        for r in 0..self.rows {
            for c in 0..self.row_bits {
                self.set(r, c, enabled);
            }
        }
    }
    pub fn grow(&mut self, num_rows: usize, enabled: bool) {
        let first = self.rows;
        self.rows += num_rows;
        let len = self.rows * self.row_size();
        self.blocks.resize(len, 0);
        if enabled {
            for r in first..self.rows {
                for c in 0..self.row_bits {
                    self.set(r, c, true);
                }
            }
        }
    }
    pub fn truncate(&mut self, num_rows: usize) {
        if num_rows < self.rows {
            self.rows = num_rows;
            let len = num_rows * self.row_size();
            self.blocks.truncate(len);
        }
    }
    pub fn sub_matrix(&self, range: Range<usize>) -> BitSubMatrix<'_> {
        let size = self.row_size();
        BitSubMatrix {
            slice: &self.blocks[range.start * size..range.end * size],
            row_bits: self.row_bits,
        }
    }
    pub fn iter_row(&self, row: usize) -> impl Iterator<Item = bool> + Clone + '_ {
        let row = &self[row];
        (0..self.row_bits).map(move |i| row[i])
    }
    /// Computes the transitive closure of the binary relation.
    pub fn transitive_closure(&mut self) {
        assert_eq!(self.rows, self.row_bits);
        let size = self.row_size();
        for k in 0..self.rows {
            let src: Vec<u32> = self.blocks[k * size..(k + 1) * size].to_vec();
            for i in 0..self.rows {
                if self[i][k] {
                    for (dst, &s) in self.blocks[i * size..(i + 1) * size].iter_mut().zip(&src) {
                        *dst |= s;
                    }
                }
            }
        }
    }
    /// Computes the reflexive closure of the binary relation.
    pub fn reflexive_closure(&mut self) {
        for i in 0..self.rows.min(self.row_bits) {
            self.set(i, i, true);
        }
    }
}

impl Index<usize> for BitMatrix {
    type Output = BitSlice;
    #[inline]
    fn index(&self, row: usize) -> &BitSlice {
        assert!(row < self.rows, "row {} out of range {}", row, self.rows);
        let size = self.row_size();
        BitSlice::new(&self.blocks[row * size..(row + 1) * size])
    }
}

impl IndexMut<usize> for BitMatrix {
    #[inline]
    fn index_mut(&mut self, row: usize) -> &mut BitSlice {
        assert!(row < self.rows, "row {} out of range {}", row, self.rows);
        let size = self.row_size();
        BitSlice::new_mut(&mut self.blocks[row * size..(row + 1) * size])
    }
}

impl Index<(usize, usize)> for BitMatrix {
    type Output = bool;
    #[inline]
    fn index(&self, (row, col): (usize, usize)) -> &bool {
        assert!(col < self.row_bits, "column out of range");
        &self[row][col]
    }
}

impl fmt::Debug for BitMatrix {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        writeln!(f, "BitMatrix {{")?;
        for r in 0..self.rows {
            writeln!(f, "    {:?}", &self[r])?;
        }
        write!(f, "}}")
    }
}

#[derive(Clone, Copy)]
pub struct BitSubMatrix<'a> {
    slice: &'a [u32],
    row_bits: usize,
}

impl<'a> BitSubMatrix<'a> {
    pub fn iter(&self) -> impl Iterator<Item = &'a BitSlice> {
        self.slice
            .chunks(row_blocks(self.row_bits).max(1))
            .map(BitSlice::new)
    }
}

impl<'a> fmt::Debug for BitSubMatrix<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for row in self.iter() {
            writeln!(f, "{:?}", row)?;
        }
        Ok(())
    }
}
