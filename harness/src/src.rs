//! A choice sequence: every generator draws its decisions from a byte string,
//! so that shrinking the bytes shrinks the case. An exhausted source yields
//! zeros, and zero is always the simplest choice.

pub struct Src<'a> {
    d: &'a [u8],
    p: usize,
}

impl<'a> Src<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Self { d, p: 0 }
    }
    pub fn used(&self) -> usize {
        self.p.min(self.d.len())
    }
    pub fn left(&self) -> usize {
        self.d.len().saturating_sub(self.p)
    }
    pub fn u8(&mut self) -> u8 {
        let b = self.d.get(self.p).copied().unwrap_or(0);
        self.p += 1;
        b
    }
    pub fn u16(&mut self) -> u16 {
        (u16::from(self.u8()) << 8) | u16::from(self.u8())
    }
    pub fn u32(&mut self) -> u32 {
        (u32::from(self.u16()) << 16) | u32::from(self.u16())
    }
    pub fn u64(&mut self) -> u64 {
        (u64::from(self.u32()) << 32) | u64::from(self.u32())
    }
    /// Uniform-ish in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            0
        } else if n <= 256 {
            (usize::from(self.u8()) * n) >> 8
        } else if n <= 65536 {
            (usize::from(self.u16()) * n) >> 16
        } else {
            ((u64::from(self.u32()) * n as u64) >> 32) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    /// True with probability `n / 256`; false when exhausted.
    pub fn chance(&mut self, n: u32) -> bool {
        u32::from(self.u8()) >= 256 - n
    }
    pub fn bool(&mut self) -> bool {
        self.chance(128)
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }
    /// Index chosen by weight; index 0 when exhausted.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut x = self.below(total as usize) as u32;
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= *w;
        }
        ws.len() - 1
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
}
