//! A tape of choices drawn by proptest. Every random decision of every
//! generator reads from the tape, so that proptest can shrink a failing case
//! by shortening the tape and lowering its entries: 0 always means the simplest
//! choice. Past its end a tape goes on with numbers expanded from its tail seed
//! (drawn by proptest like the rest); the tail seed 0 goes on with zeros.

#[derive(Clone)]
pub struct Tape<'a> {
    data: &'a [u32],
    pos: usize,
    tail: u32,
}

impl<'a> Tape<'a> {
    pub fn new(data: &'a [u32]) -> Self {
        Tape { data, pos: 0, tail: 0 }
    }
    pub fn with_tail(data: &'a [u32], tail: u32) -> Self {
        Tape { data, pos: 0, tail: if tail % 4 == 0 { 0 } else { tail } }
    }
    pub fn raw(&mut self) -> u32 {
        let v = match self.data.get(self.pos) {
            Some(v) => *v,
            None if self.tail == 0 => 0,
            None => {
                let mut z = ((self.tail as u64) << 32 | self.pos as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                (z >> 32) as u32
            }
        };
        self.pos += 1;
        v
    }
    /// Entries read so far.
    pub fn used(&self) -> usize {
        self.pos
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            let _ = self.raw();
            return 0;
        }
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; the zero tape says false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'b, T>(&mut self, items: &'b [T]) -> &'b T {
        let i = self.below(items.len());
        &items[i]
    }
    /// Index drawn by weight.
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut k = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if k < *w {
                return i;
            }
            k -= *w;
        }
        0
    }
    /// A length whose logarithm is about uniform in 0..=max.
    pub fn log_len(&mut self, max: usize) -> usize {
        let bits = (usize::BITS - max.leading_zeros()) as usize;
        let b = self.below(bits + 1);
        let hi = if b >= bits { max } else { (1usize << b).min(max) };
        let lo = hi / 2;
        self.range(lo, hi)
    }
    /// In-place Fisher-Yates; the zero tape leaves the order alone.
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in 0..v.len().saturating_sub(1) {
            let j = i + self.below(v.len() - i);
            v.swap(i, j);
        }
    }
}
