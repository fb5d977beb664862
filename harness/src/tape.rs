//! A byte tape and its decoder. Every random choice of a case is read from the tape, so
//! proptest (or libFuzzer) owns all randomness, shrinks the tape, and a tape replays a case.

pub struct Tape<'a> {
    data: &'a [u8],
    pos: usize,
    /// Running hash of the decoded choices: identifies the decoded case.
    pub hash: u64,
}

impl<'a> Tape<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Tape { data, pos: 0, hash: 0xcbf29ce484222325 }
    }
    pub fn consumed(&self) -> usize {
        self.pos.min(self.data.len())
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.data.len()
    }
    fn raw(&mut self) -> u8 {
        let b = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        b
    }
    fn mix(&mut self, v: u64) {
        let mut h = self.hash ^ v.wrapping_add(0x9E3779B97F4A7C15);
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        self.hash = h ^ (h >> 31);
    }
    /// A value in 0..n; 0 when the tape has run out.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = if n <= 256 {
            self.raw() as usize % n
        } else if n <= 65536 {
            (self.raw() as usize | (self.raw() as usize) << 8) % n
        } else {
            (self.word() as usize) % n
        };
        self.mix(v as u64);
        v
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den (false when the tape has run out).
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    fn word(&mut self) -> u64 {
        let mut v = 0u64;
        for i in 0..8 {
            v |= (self.raw() as u64) << (8 * i);
        }
        v
    }
    pub fn u64(&mut self) -> u64 {
        let v = self.word();
        self.mix(v);
        v
    }
    pub fn u128(&mut self) -> u128 {
        self.u64() as u128 | (self.u64() as u128) << 64
    }
}
