//! A tape of integers from which cases are decoded by construction. Generators read the tape
//! only; reading past its end gives zeros, and zero always stands for the simplest choice.

pub struct Tape<'a> {
    data: &'a [u32],
    pos: usize,
}

impl<'a> Tape<'a> {
    pub fn new(data: &'a [u32]) -> Self {
        Tape { data, pos: 0 }
    }

    pub fn raw(&mut self) -> u32 {
        let v = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }

    /// Whether all values on the tape were read.
    pub fn at_end(&self) -> bool {
        self.pos >= self.data.len()
    }

    pub fn pos(&self) -> usize {
        self.pos
    }

    /// A number below `n`; monotone in the tape's value.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            self.raw();
            return 0;
        }
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }

    /// A number in the inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// True in `num` of `den` cases; false is the simpler choice.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'b, T>(&mut self, items: &'b [T]) -> &'b T {
        &items[self.below(items.len())]
    }

    /// An index chosen with the given weights.
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut v = self.below(total);
        for (i, &w) in weights.iter().enumerate() {
            if v < w {
                return i;
            }
            v -= w;
        }
        weights.len() - 1
    }

    /// A `u32` with a bias to small values and to values around powers of two.
    pub fn interesting_u32(&mut self) -> u32 {
        match self.below(6) {
            0 => self.below(4) as u32,
            1 => self.below(300) as u32,
            2 => {
                let bit = self.below(32) as u32;
                (1u32 << bit).wrapping_add(self.below(3) as u32).wrapping_sub(1)
            }
            3 => u32::MAX - self.below(4) as u32,
            _ => {
                let v = self.raw();
                let shift = self.below(32);
                v >> shift
            }
        }
    }
}
