//! The choice source. A case is decoded from a sequence of 32-bit choices that
//! proptest (or libFuzzer) generates; exhausted sequences read as zero, and
//! zero always decodes to the simplest alternative, so shrinking the sequence
//! shrinks the case.

pub struct Src<'a> {
    data: &'a [u32],
    pos: usize,
}

impl<'a> Src<'a> {
    pub fn new(data: &'a [u32]) -> Self {
        Src { data, pos: 0 }
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.data.len())
    }
    pub fn raw(&mut self) -> u32 {
        let v = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        debug_assert!(lo <= hi);
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `pct`/100; the zero choice decodes to false.
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) >= 100 - pct
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut r = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= *x;
        }
        w.len() - 1
    }
    /// In `[0,1)`, 32 bits.
    pub fn unit(&mut self) -> f64 {
        self.raw() as f64 / 4294967296.0
    }
    /// In `[0,1)`, full double precision.
    pub fn unit53(&mut self) -> f64 {
        let hi = self.raw() as u64;
        let lo = self.raw() as u64;
        (((hi << 32) | lo) >> 11) as f64 / 9007199254740992.0
    }
}
