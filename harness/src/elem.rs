//! Element types, and an embedding of each into u128 "offset space" (0 = smallest value)
//! that is computed without the library.

use rangetools::Step;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::Hash;
use std::ops::RangeInclusive;

pub trait Elem: Copy + Ord + Debug + Hash + Step + Send + 'static {
    const NAME: &'static str;
    /// Offset of the largest value.
    fn top() -> u128;
    fn to_off(self) -> u128;
    fn from_off(o: u128) -> Self;
    /// Offsets around which something special happens, besides both ends.
    fn landmarks() -> &'static [u128] {
        &[]
    }
    /// `lo..=hi` after taking `front` values from the front and `back` from the back, where
    /// std can iterate the type.
    fn iterated(_lo: Self, _hi: Self, _front: usize, _back: usize) -> Option<RangeInclusive<Self>> {
        None
    }
}

macro_rules! iterated {
    () => {
        fn iterated(lo: Self, hi: Self, front: usize, back: usize) -> Option<RangeInclusive<Self>> {
            let mut r = lo..=hi;
            for _ in 0..front {
                r.next();
            }
            for _ in 0..back {
                r.next_back();
            }
            Some(r)
        }
    };
}

macro_rules! unsigned {
    ($($t:ident)*) => {$(
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            fn top() -> u128 { $t::MAX as u128 }
            fn to_off(self) -> u128 { self as u128 }
            fn from_off(o: u128) -> Self { o as $t }
            fn landmarks() -> &'static [u128] { &[$t::MAX as u128 / 2] }
            iterated!();
        }
    )*};
}
macro_rules! signed {
    ($($t:ident)*) => {$(
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            fn top() -> u128 { ($t::MAX as i128).wrapping_sub($t::MIN as i128) as u128 }
            fn to_off(self) -> u128 { (self as i128).wrapping_sub($t::MIN as i128) as u128 }
            fn from_off(o: u128) -> Self { (o as i128).wrapping_add($t::MIN as i128) as $t }
            fn landmarks() -> &'static [u128] { const L: [u128; 1] = [($t::MIN as i128).wrapping_neg() as u128]; &L }
            iterated!();
        }
    )*};
}
unsigned!(u8 u16 u32 u64 usize u128);
signed!(i8 i16 i32 i64 isize i128);

impl Elem for char {
    const NAME: &'static str = "char";
    fn top() -> u128 {
        0x10FFFF - 0x800
    }
    fn to_off(self) -> u128 {
        let c = self as u128;
        if c >= 0xE000 {
            c - 0x800
        } else {
            c
        }
    }
    fn from_off(o: u128) -> Self {
        let c = if o >= 0xD800 { o + 0x800 } else { o };
        char::from_u32(c as u32).expect("harness: valid scalar")
    }
    fn landmarks() -> &'static [u128] {
        &[0xD800]
    }
    iterated!();
}

thread_local! {
    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
}
/// Comparisons and steps allowed in one case before it counts as not terminating. A
/// deterministic bound: no legal case comes within a factor of ten of it.
pub const CASE_FUEL: u64 = 3_000_000_000;
pub fn refuel(n: u64) {
    FUEL.with(|f| f.set(n));
}
fn burn() {
    FUEL.with(|f| {
        let v = f.get();
        if v == 0 {
            f.set(u64::MAX);
            panic!("operation does not terminate: comparison budget exhausted");
        }
        f.set(v - 1);
    })
}

/// A user-defined element type: supplies only the required methods of the step trait and
/// counts comparisons.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, Serialize, Deserialize)]
pub struct K(pub i32);
impl Debug for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl PartialOrd for K {
    #[inline]
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    #[inline]
    fn cmp(&self, o: &Self) -> Ordering {
        burn();
        self.0.cmp(&o.0)
    }
}
impl Step for K {
    fn steps_between(a: &Self, b: &Self) -> Option<usize> {
        if a.0 <= b.0 {
            usize::try_from(b.0 as i64 - a.0 as i64).ok()
        } else {
            None
        }
    }
    fn forward_checked(a: Self, n: usize) -> Option<Self> {
        burn();
        i32::try_from(a.0 as i128 + n as i128).ok().map(K)
    }
    fn backward_checked(a: Self, n: usize) -> Option<Self> {
        burn();
        i32::try_from(a.0 as i128 - n as i128).ok().map(K)
    }
}
impl Elem for K {
    const NAME: &'static str = "K(user i32)";
    fn top() -> u128 {
        u32::MAX as u128
    }
    fn to_off(self) -> u128 {
        (self.0 as i64 - i32::MIN as i64) as u128
    }
    fn from_off(o: u128) -> Self {
        K((o as i64 + i32::MIN as i64) as i32)
    }
    fn landmarks() -> &'static [u128] {
        &[1 << 31]
    }
}

/// A user-defined type with seven values, so that every range is near an end.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Day(u8);
impl Step for Day {
    fn steps_between(a: &Self, b: &Self) -> Option<usize> {
        b.0.checked_sub(a.0).map(usize::from)
    }
    fn forward_checked(a: Self, n: usize) -> Option<Self> {
        (a.0 as usize).checked_add(n).filter(|v| *v < 7).map(|v| Day(v as u8))
    }
    fn backward_checked(a: Self, n: usize) -> Option<Self> {
        (a.0 as usize).checked_sub(n).map(|v| Day(v as u8))
    }
}
impl Elem for Day {
    const NAME: &'static str = "Day(user, 7 values)";
    fn top() -> u128 {
        6
    }
    fn to_off(self) -> u128 {
        self.0 as u128
    }
    fn from_off(o: u128) -> Self {
        assert!(o < 7);
        Day(o as u8)
    }
}

pub const ELEM_TYPES: usize = 15;
/// Runs `$body` with `$T` bound to the element type number `$i`.
#[macro_export]
macro_rules! with_elem {
    ($i:expr, $T:ident => $body:expr) => {
        match $i {
            0 => { type $T = u8; $body }
            1 => { type $T = i8; $body }
            2 => { type $T = u32; $body }
            3 => { type $T = i32; $body }
            4 => { type $T = char; $body }
            5 => { type $T = u64; $body }
            6 => { type $T = i64; $body }
            7 => { type $T = usize; $body }
            8 => { type $T = isize; $body }
            9 => { type $T = u128; $body }
            10 => { type $T = i128; $body }
            11 => { type $T = u16; $body }
            12 => { type $T = i16; $body }
            13 => { type $T = $crate::elem::K; $body }
            _ => { type $T = $crate::elem::Day; $body }
        }
    };
}
