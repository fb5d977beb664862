//! The two oracles.
//!
//! `Cells`: a window of n consecutive values is split into 2n+1 cells: one per value and
//! one per gap between neighbours (cell 0 and cell 2n are everything below / above). A
//! range is a run of cells, every operation is a bitwise one, `contains(v)` is the cell of
//! v and "empty" is "no cell" -- which is the documented notion of emptiness, where the
//! range strictly between two neighbouring values counts as non-empty.
//!
//! `Ivs`: sorted disjoint inclusive intervals in u128 offset space, for exact sizes.

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Cells {
    bits: Vec<u64>,
    n: usize,
}
impl Cells {
    pub fn none(n: usize) -> Self {
        Cells { bits: vec![0; (2 * n + 1).div_ceil(64)], n }
    }
    pub fn all(n: usize) -> Self {
        Self::none(n).not()
    }
    /// Bounds are (value index, excluded).
    pub fn interval(n: usize, lo: Option<(usize, bool)>, hi: Option<(usize, bool)>) -> Self {
        let mut c = Self::none(n);
        let a = lo.map_or(0, |(i, x)| 2 * i + 1 + x as usize);
        let b = hi.map_or(2 * n, |(i, x)| 2 * i + 1 - x as usize);
        for i in a..(b + 1).max(a) {
            c.bits[i / 64] |= 1 << (i % 64);
        }
        c
    }
    /// Adds a bounded interval.
    pub fn set(&mut self, lo: (usize, bool), hi: (usize, bool)) {
        let (a, b) = (2 * lo.0 + 1 + lo.1 as usize, 2 * hi.0 + 1 - hi.1 as usize);
        for i in a..(b + 1).max(a) {
            self.bits[i / 64] |= 1 << (i % 64);
        }
    }
    pub fn cell(&self, i: usize) -> bool {
        self.bits[i / 64] >> (i % 64) & 1 == 1
    }
    /// Is value number i contained?
    pub fn has(&self, i: usize) -> bool {
        self.cell(2 * i + 1)
    }
    pub fn below(&self) -> bool {
        self.cell(0)
    }
    pub fn above(&self) -> bool {
        self.cell(2 * self.n)
    }
    pub fn is_none(&self) -> bool {
        self.bits.iter().all(|w| *w == 0)
    }
    pub fn and(&self, o: &Self) -> Self {
        Cells { bits: self.bits.iter().zip(&o.bits).map(|(a, b)| a & b).collect(), n: self.n }
    }
    pub fn or(&self, o: &Self) -> Self {
        Cells { bits: self.bits.iter().zip(&o.bits).map(|(a, b)| a | b).collect(), n: self.n }
    }
    pub fn not(&self) -> Self {
        let mut c = Cells { bits: self.bits.iter().map(|a| !a).collect(), n: self.n };
        let total = 2 * self.n + 1;
        if total % 64 != 0 {
            let last = c.bits.len() - 1;
            c.bits[last] &= (1u64 << (total % 64)) - 1;
        }
        c
    }
    pub fn points(&self) -> Vec<usize> {
        (0..self.n).filter(|i| self.has(*i)).collect()
    }
    pub fn runs(&self) -> usize {
        let mut prev = false;
        let mut r = 0;
        for i in 0..2 * self.n + 1 {
            let b = self.cell(i);
            if b && !prev {
                r += 1;
            }
            prev = b;
        }
        r
    }
}

/// A sequence of values as disjoint ascending inclusive intervals of offsets.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Ivs {
    pub v: std::collections::VecDeque<(u128, u128)>,
}
impl Ivs {
    pub fn from(mut l: Vec<(u128, u128)>) -> Self {
        l.retain(|(a, b)| a <= b);
        l.sort();
        let mut v: std::collections::VecDeque<(u128, u128)> = Default::default();
        for (a, b) in l {
            match v.back_mut() {
                Some(last) if last.1 >= a || last.1 + 1 == a => last.1 = last.1.max(b),
                _ => v.push_back((a, b)),
            }
        }
        Ivs { v }
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub fn contains(&self, o: u128) -> bool {
        self.v.iter().any(|(a, b)| *a <= o && o <= *b)
    }
    /// Exact number of values; None when it does not fit u128.
    pub fn count(&self) -> Option<u128> {
        let mut n = 0u128;
        for (a, b) in &self.v {
            n = n.checked_add((b - a).checked_add(1)?)?;
        }
        Some(n)
    }
    pub fn count_usize(&self) -> Option<usize> {
        self.count().and_then(|c| usize::try_from(c).ok())
    }
    pub fn next(&mut self) -> Option<u128> {
        self.nth(0)
    }
    pub fn next_back(&mut self) -> Option<u128> {
        self.nth_back(0)
    }
    pub fn nth(&mut self, n: usize) -> Option<u128> {
        let mut n = n as u128;
        while let Some((a, b)) = self.v.pop_front() {
            if b - a < n {
                n -= b - a;
                n -= 1;
                continue;
            }
            let r = a + n;
            if r < b {
                self.v.push_front((r + 1, b));
            }
            return Some(r);
        }
        None
    }
    pub fn nth_back(&mut self, n: usize) -> Option<u128> {
        let mut n = n as u128;
        while let Some((a, b)) = self.v.pop_back() {
            if b - a < n {
                n -= b - a;
                n -= 1;
                continue;
            }
            let r = b - n;
            if r > a {
                self.v.push_back((a, r - 1));
            }
            return Some(r);
        }
        None
    }
    pub fn first(&self) -> Option<u128> {
        self.v.front().map(|x| x.0)
    }
    pub fn last(&self) -> Option<u128> {
        self.v.back().map(|x| x.1)
    }
    pub fn all(&self) -> Vec<u128> {
        self.v.iter().flat_map(|(a, b)| *a..=*b).collect()
    }
}
