//! A value of any of the fifteen range/set types, with every operation dispatched to the
//! library's statically typed one.

use crate::elem::Elem;
use rangetools::{
    BoundedRange, BoundedSet, EmptyRange, LowerBoundedRange, LowerBoundedSet, Rangetools,
    UnboundedRange, UnboundedSet, UpperBoundedRange, UpperBoundedSet,
};
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Any<T> {
    Range(Range<T>),
    RangeInclusive(RangeInclusive<T>),
    RangeFrom(RangeFrom<T>),
    RangeTo(RangeTo<T>),
    RangeToInclusive(RangeToInclusive<T>),
    RangeFull(RangeFull),
    BoundedRange(BoundedRange<T>),
    LowerBoundedRange(LowerBoundedRange<T>),
    UpperBoundedRange(UpperBoundedRange<T>),
    UnboundedRange(UnboundedRange),
    EmptyRange(EmptyRange<T>),
    BoundedSet(BoundedSet<T>),
    LowerBoundedSet(LowerBoundedSet<T>),
    UpperBoundedSet(UpperBoundedSet<T>),
    UnboundedSet(UnboundedSet<T>),
}
pub const KINDS: [&str; 15] = [
    "Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeToInclusive", "RangeFull",
    "BoundedRange", "LowerBoundedRange", "UpperBoundedRange", "UnboundedRange", "EmptyRange",
    "BoundedSet", "LowerBoundedSet", "UpperBoundedSet", "UnboundedSet",
];

macro_rules! each {
    ($v:expr, $x:ident => $body:expr) => {
        match $v {
            Any::Range($x) => $body,
            Any::RangeInclusive($x) => $body,
            Any::RangeFrom($x) => $body,
            Any::RangeTo($x) => $body,
            Any::RangeToInclusive($x) => $body,
            Any::RangeFull($x) => $body,
            Any::BoundedRange($x) => $body,
            Any::LowerBoundedRange($x) => $body,
            Any::UpperBoundedRange($x) => $body,
            Any::UnboundedRange($x) => $body,
            Any::EmptyRange($x) => $body,
            Any::BoundedSet($x) => $body,
            Any::LowerBoundedSet($x) => $body,
            Any::UpperBoundedSet($x) => $body,
            Any::UnboundedSet($x) => $body,
        }
    };
}

macro_rules! froms {
    ($($v:ident: $t:ty),* $(,)?) => {$(
        impl<T> From<$t> for Any<T> {
            fn from(x: $t) -> Self { Any::$v(x) }
        }
    )*};
}
froms!(
    Range: Range<T>, RangeInclusive: RangeInclusive<T>, RangeFrom: RangeFrom<T>,
    RangeTo: RangeTo<T>, RangeToInclusive: RangeToInclusive<T>, RangeFull: RangeFull,
    BoundedRange: BoundedRange<T>, LowerBoundedRange: LowerBoundedRange<T>,
    UpperBoundedRange: UpperBoundedRange<T>, UnboundedRange: UnboundedRange,
    EmptyRange: EmptyRange<T>, BoundedSet: BoundedSet<T>, LowerBoundedSet: LowerBoundedSet<T>,
    UpperBoundedSet: UpperBoundedSet<T>, UnboundedSet: UnboundedSet<T>,
);

impl<T: Elem> Any<T> {
    pub fn kind(&self) -> usize {
        match self {
            Any::Range(_) => 0,
            Any::RangeInclusive(_) => 1,
            Any::RangeFrom(_) => 2,
            Any::RangeTo(_) => 3,
            Any::RangeToInclusive(_) => 4,
            Any::RangeFull(_) => 5,
            Any::BoundedRange(_) => 6,
            Any::LowerBoundedRange(_) => 7,
            Any::UpperBoundedRange(_) => 8,
            Any::UnboundedRange(_) => 9,
            Any::EmptyRange(_) => 10,
            Any::BoundedSet(_) => 11,
            Any::LowerBoundedSet(_) => 12,
            Any::UpperBoundedSet(_) => 13,
            Any::UnboundedSet(_) => 14,
        }
    }
    pub fn contains(&self, t: T) -> bool {
        match self {
            Any::Range(r) => r.contains(&t),
            Any::RangeInclusive(r) => r.contains(&t),
            Any::RangeFrom(r) => r.contains(&t),
            Any::RangeTo(r) => r.contains(&t),
            Any::RangeToInclusive(r) => r.contains(&t),
            Any::RangeFull(_) => true,
            Any::BoundedRange(r) => r.contains(t),
            Any::LowerBoundedRange(r) => r.contains(t),
            Any::UpperBoundedRange(r) => r.contains(t),
            Any::UnboundedRange(r) => r.contains(t),
            Any::EmptyRange(r) => r.contains(t),
            Any::BoundedSet(r) => r.contains(t),
            Any::LowerBoundedSet(r) => r.contains(t),
            Any::UpperBoundedSet(r) => r.contains(t),
            Any::UnboundedSet(r) => r.contains(t),
        }
    }
    pub fn is_empty(&self) -> bool {
        each!(self, x => Rangetools::is_empty(x))
    }
    pub fn intersection(self, o: Self) -> Self {
        each!(self, x => each!(o, y => Rangetools::intersection(x, y).into()))
    }
    pub fn union(self, o: Self) -> Self {
        each!(self, x => each!(o, y => Rangetools::union(x, y).into()))
    }
    pub fn disjoint(self, o: Self) -> bool {
        each!(self, x => each!(o, y => Rangetools::disjoint(x, y)))
    }
    pub fn intersects(self, o: Self) -> bool {
        each!(self, x => each!(o, y => Rangetools::intersects(x, y)))
    }
    pub fn to_inner(self) -> Self {
        each!(self, x => Rangetools::to_inner(x).into())
    }
    pub fn to_set(self) -> Self {
        each!(self, x => Rangetools::to_set(x).into())
    }
    pub fn complement(self) -> Self {
        match self {
            Any::RangeFull(x) => Any::EmptyRange(Rangetools::complement(x)),
            Any::UnboundedRange(x) => Any::EmptyRange(Rangetools::complement(x)),
            Any::Range(x) => Rangetools::complement(x).into(),
            Any::RangeInclusive(x) => Rangetools::complement(x).into(),
            Any::RangeFrom(x) => Rangetools::complement(x).into(),
            Any::RangeTo(x) => Rangetools::complement(x).into(),
            Any::RangeToInclusive(x) => Rangetools::complement(x).into(),
            Any::BoundedRange(x) => Rangetools::complement(x).into(),
            Any::LowerBoundedRange(x) => Rangetools::complement(x).into(),
            Any::UpperBoundedRange(x) => Rangetools::complement(x).into(),
            Any::EmptyRange(x) => Rangetools::complement(x).into(),
            Any::BoundedSet(x) => Rangetools::complement(x).into(),
            Any::LowerBoundedSet(x) => Rangetools::complement(x).into(),
            Any::UpperBoundedSet(x) => Rangetools::complement(x).into(),
            Any::UnboundedSet(x) => Rangetools::complement(x).into(),
        }
    }
    /// The first `limit` values by iteration; None if the type is not iterable.
    pub fn iterate(&self, limit: usize) -> Option<Vec<T>> {
        match self {
            Any::BoundedRange(r) => Some((*r).into_iter().take(limit).collect()),
            Any::LowerBoundedRange(r) => Some((*r).into_iter().take(limit).collect()),
            Any::EmptyRange(r) => Some((*r).into_iter().take(limit).collect()),
            Any::BoundedSet(r) => Some(r.clone().into_iter().take(limit).collect()),
            Any::LowerBoundedSet(r) => Some(r.clone().into_iter().take(limit).collect()),
            _ => None,
        }
    }
}
