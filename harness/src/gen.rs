//! Structured generation of operands together with their model.

use crate::any::{Any, KINDS};
use crate::ctx::{Ctx, Res};
use crate::elem::Elem;
use crate::model::Cells;
use crate::tape::Tape;
use crate::{ensure, note};
use rangetools::{
    BoundedRange, BoundedSet, EmptyRange, LowerBound, LowerBoundedRange, UnboundedRange,
    UnboundedSet, UpperBound, UpperBoundedRange,
};
use std::marker::PhantomData;

/// n consecutive values of T starting at offset `base`.
#[derive(Clone, Copy)]
pub struct Uni<T> {
    pub base: u128,
    pub n: usize,
    _t: PhantomData<T>,
}
impl<T: Elem> Uni<T> {
    pub fn at(&self, i: usize) -> T {
        T::from_off(self.base + i as u128)
    }
    pub fn touches_min(&self) -> bool {
        self.base == 0
    }
    pub fn touches_max(&self) -> bool {
        self.base + (self.n as u128 - 1) == T::top()
    }
    /// The value just below the window.
    pub fn before(&self) -> Option<T> {
        (!self.touches_min()).then(|| T::from_off(self.base - 1))
    }
    /// The value just above the window.
    pub fn after(&self) -> Option<T> {
        (!self.touches_max()).then(|| T::from_off(self.base + self.n as u128))
    }
    pub fn describe(&self) -> String {
        format!("{} values of {} from {:?} to {:?}", self.n, T::NAME, self.at(0), self.at(self.n - 1))
    }
    /// In the middle of the type: no end in reach.
    pub fn middle(n: usize) -> Self {
        let n = n.min(usize::try_from(T::top() / 3).unwrap_or(usize::MAX));
        Uni { base: T::top() / 2, n, _t: PhantomData }
    }
    /// Anywhere, with a strong preference for the ends of the type and its landmarks.
    pub fn anywhere(tape: &mut Tape, n: usize) -> Self {
        let n = n.min(usize::try_from(T::top()).unwrap_or(usize::MAX).saturating_add(1));
        let room = T::top() - (n as u128 - 1);
        let base = match tape.below(6) {
            0 => 0,
            1 => room,
            2 if !T::landmarks().is_empty() => {
                let l = T::landmarks()[tape.below(T::landmarks().len())];
                l.saturating_sub(tape.below(n + 1) as u128).min(room)
            }
            3 => (tape.below(4) as u128).min(room),
            4 => room - (tape.below(4) as u128).min(room),
            _ => {
                if room == u128::MAX {
                    tape.u128()
                } else {
                    tape.u128() % (room + 1)
                }
            }
        };
        Uni { base, n, _t: PhantomData }
    }
}

/// How big a case is.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Size {
    Small,
    Medium,
    Large,
    /// Rare: sets of 65 to 300 irregular pieces, now and then up to 1500.
    Huge,
}
const HUGE_ONE_IN: usize = 32;
pub fn gen_size(tape: &mut Tape) -> Size {
    match tape.below(32) {
        0..=19 => Size::Small,
        20..=28 => Size::Medium,
        31 if tape.chance(1, HUGE_ONE_IN) => Size::Huge,
        _ => Size::Large,
    }
}
/// As `gen_n`, now and then with room for more than a thousand pieces. Not where sets are
/// complemented: that takes time cubic in the number of pieces.
pub fn gen_big_n(tape: &mut Tape, size: Size) -> usize {
    if size == Size::Huge && tape.chance(1, 12) {
        return tape.range(2000, 6000);
    }
    gen_n(tape, size)
}
pub fn gen_n(tape: &mut Tape, size: Size) -> usize {
    match size {
        Size::Small => tape.range(2, 12),
        Size::Medium => tape.range(8, 40),
        Size::Large => tape.range(60, 250),
        Size::Huge => tape.range(600, 1600),
    }
}

pub type B = (usize, bool);
#[derive(Clone, Copy, Debug)]
pub struct Piece {
    pub lo: B,
    pub hi: B,
}

#[derive(Clone)]
pub struct Val<T> {
    pub any: Any<T>,
    pub cells: Cells,
}

pub fn lb<T: Elem>(u: &Uni<T>, b: B) -> LowerBound<T> {
    if b.1 {
        LowerBound::excluded(u.at(b.0))
    } else {
        LowerBound::included(u.at(b.0))
    }
}
pub fn ub<T: Elem>(u: &Uni<T>, b: B) -> UpperBound<T> {
    if b.1 {
        UpperBound::excluded(u.at(b.0))
    } else {
        UpperBound::included(u.at(b.0))
    }
}

fn gen_bound(tape: &mut Tape, n: usize) -> B {
    (tape.below(n), tape.bool())
}
/// Mostly proper, sometimes inverted or degenerate.
pub fn gen_piece(tape: &mut Tape, n: usize, short: bool) -> Piece {
    let lo = gen_bound(tape, n);
    let x = tape.bool();
    let hi = match tape.below(8) {
        0 => tape.below(n),
        1 => lo.0,
        2..=5 if short => (lo.0 + tape.below(4)).min(n - 1),
        _ => lo.0 + tape.below(n - lo.0),
    };
    Piece { lo, hi: (hi, x) }
}
/// The pieces of a set, possibly overlapping, touching, empty, in no particular order.
pub fn gen_pieces(tape: &mut Tape, n: usize, size: Size) -> Vec<Piece> {
    let mut v = vec![];
    let max = match size {
        Size::Small => 5,
        Size::Medium => 12,
        Size::Large => 8,
        Size::Huge => 4,
    };
    if size == Size::Huge {
        v = scattered(tape, n);
    } else if size != Size::Small && tape.chance(2, 3) {
        // a comb of evenly spaced pieces
        let period = tape.range(2, 6);
        let start = tape.below(n / 2);
        let count = tape.range(2, if size == Size::Large { 64 } else { 12 });
        let width = tape.below(period + 1);
        let (lx, hx) = (tape.bool(), tape.bool());
        let rev = tape.bool();
        for i in 0..count {
            let lo = start + i * period;
            if lo >= n {
                break;
            }
            v.push(Piece { lo: (lo, lx), hi: ((lo + width).min(n - 1), hx) });
        }
        if rev {
            v.reverse();
        }
    }
    if v.is_empty() && tape.bool() {
        // one after another: mostly apart, sometimes touching
        let mut at = tape.below(3.min(n));
        for _ in 0..tape.range(2, max) {
            let hi = at + tape.below(3);
            if hi >= n {
                break;
            }
            v.push(Piece { lo: (at, tape.bool()), hi: (hi, tape.bool()) });
            at = hi + tape.below(3);
            if at >= n {
                break;
            }
        }
        if tape.bool() {
            v.reverse();
        }
    }
    let extra = if v.is_empty() { tape.below(max + 1) } else { tape.below(3) };
    for _ in 0..extra {
        let p = gen_piece(tape, n, true);
        if v.is_empty() || tape.bool() {
            v.push(p);
        } else {
            let at = tape.below(v.len().min(250));
            v.insert(at, p);
        }
    }
    v
}

/// A stream of pseudo-random numbers whose seed is on the tape: for cases with more choices
/// than a tape has bytes.
pub struct Spread(u64);
impl Spread {
    pub fn new(tape: &mut Tape) -> Self {
        Spread(tape.u64())
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        ((z ^ (z >> 31)) % n as u64) as usize
    }
}
/// Many pieces of irregular width and distance, ascending, descending or shuffled.
fn scattered(tape: &mut Tape, n: usize) -> Vec<Piece> {
    let count = if n >= 2000 { tape.range(300, 1500) } else { tape.range(65, 300) };
    let (width, gap) = (tape.range(1, 4), tape.range(2, 5));
    let order = tape.below(3);
    let mut r = Spread::new(tape);
    let mut v = vec![];
    let mut at = r.below(4);
    for _ in 0..count {
        let hi = at + r.below(width);
        if hi >= n {
            break;
        }
        // in one case out of three the pieces may touch
        v.push(Piece { lo: (at, r.below(4) == 0), hi: (hi, r.below(4) == 0) });
        at = hi + if gap == 2 { r.below(3) } else { 1 + r.below(gap - 1) };
    }
    match order {
        0 => {}
        1 => v.reverse(),
        _ => {
            for i in (1..v.len()).rev() {
                v.swap(i, r.below(i + 1));
            }
        }
    }
    v
}

/// A `RangeInclusive`, sometimes one already iterated in part or to its end.
pub fn inclusive_val<T: Elem>(tape: &mut Tape, u: &Uni<T>, lo: usize, hi: usize) -> Val<T> {
    let n = u.n;
    if lo <= hi && T::iterated(u.at(lo), u.at(hi), 0, 0).is_some() && tape.bool() {
        // only at the end of the type does std leave the endpoints in order
        let (lo, hi) = match tape.below(3) {
            0 if u.touches_max() => (lo, n - 1),
            1 if u.touches_min() => (0, hi),
            _ => (lo, hi),
        };
        let (f, k) = (tape.below(4), if tape.bool() { 0 } else { tape.below(3) });
        let (f, k) = if tape.bool() { (f, k) } else { (k, f) };
        // often to its end exactly
        let f = if tape.bool() { (hi - lo + 1).saturating_sub(k) } else { f };
        let r = T::iterated(u.at(lo), u.at(hi), f, k).expect("harness: checked");
        let left = lo + f + k <= hi;
        let cells = if left { Cells::interval(n, Some((lo + f, false)), Some((hi - k, false))) } else { Cells::none(n) };
        return Val { any: Any::RangeInclusive(r), cells };
    }
    Val { any: Any::RangeInclusive(u.at(lo)..=u.at(hi)), cells: Cells::interval(n, Some((lo, false)), Some((hi, false))) }
}
/// A bounded range type holding the piece: a std one when its bounds allow.
pub fn piece_val<T: Elem>(tape: &mut Tape, u: &Uni<T>, p: Piece) -> Val<T> {
    let cells = Cells::interval(u.n, Some(p.lo), Some(p.hi));
    let any = if !p.lo.1 && tape.bool() {
        if p.hi.1 {
            Any::Range(u.at(p.lo.0)..u.at(p.hi.0))
        } else {
            return inclusive_val(tape, u, p.lo.0, p.hi.0);
        }
    } else {
        Any::BoundedRange(BoundedRange::new(lb(u, p.lo), ub(u, p.hi)))
    };
    Val { any, cells }
}
/// The unbounded tail of a set: anywhere, or near the far end so that it leaves the pieces
/// alone.
fn lower_val<T: Elem>(tape: &mut Tape, u: &Uni<T>) -> Val<T> {
    let mut b = gen_bound(tape, u.n);
    if tape.bool() {
        b.0 = u.n - 1 - b.0 % 3.min(u.n);
    }
    let cells = Cells::interval(u.n, Some(b), None);
    let any = if !b.1 && tape.bool() {
        Any::RangeFrom(u.at(b.0)..)
    } else {
        Any::LowerBoundedRange(LowerBoundedRange::new(lb(u, b)))
    };
    Val { any, cells }
}
fn upper_val<T: Elem>(tape: &mut Tape, u: &Uni<T>) -> Val<T> {
    let mut b = gen_bound(tape, u.n);
    if tape.bool() {
        b.0 %= 3.min(u.n);
    }
    let cells = Cells::interval(u.n, None, Some(b));
    let any = match (tape.bool(), b.1) {
        (true, true) => Any::RangeTo(..u.at(b.0)),
        (true, false) => Any::RangeToInclusive(..=u.at(b.0)),
        _ => Any::UpperBoundedRange(UpperBoundedRange::new(ub(u, b))),
    };
    Val { any, cells }
}

/// Union of the leaves in one of several associations.
pub fn combine<T: Elem>(style: usize, mut leaves: Vec<Any<T>>) -> Any<T> {
    match style {
        0 => {
            let mut it = leaves.into_iter();
            let first = it.next().unwrap();
            it.fold(first, |acc, x| acc.union(x))
        }
        1 => {
            let mut it = leaves.into_iter();
            let first = it.next().unwrap();
            it.fold(first, |acc, x| x.union(acc))
        }
        _ => {
            while leaves.len() > 1 {
                let mut next = vec![];
                let mut it = leaves.into_iter();
                while let Some(a) = it.next() {
                    next.push(match it.next() {
                        Some(b) => a.union(b),
                        None => a,
                    });
                }
                leaves = next;
            }
            leaves.pop().unwrap()
        }
    }
}

/// The type of an operand: any, with a preference for sets, more so when the case is about
/// many pieces.
pub fn gen_which(tape: &mut Tape, size: Size) -> usize {
    let k = tape.below(if size == Size::Huge { 60 } else { 24 });
    if k < 15 {
        k
    } else {
        11 + k % 4
    }
}

/// An operand of the given type.
pub fn gen_kind<T: Elem>(tape: &mut Tape, ctx: &mut Ctx, u: &Uni<T>, kind: usize, size: Size) -> Val<T> {
    let n = u.n;
    let v = match kind {
        0 => {
            let p = gen_piece(tape, n, false);
            let p = Piece { lo: (p.lo.0, false), hi: (p.hi.0, true) };
            Val { any: Any::Range(u.at(p.lo.0)..u.at(p.hi.0)), cells: Cells::interval(n, Some(p.lo), Some(p.hi)) }
        }
        1 => {
            let p = gen_piece(tape, n, false);
            inclusive_val(tape, u, p.lo.0, p.hi.0)
        }
        2 => {
            let i = tape.below(n);
            Val { any: Any::RangeFrom(u.at(i)..), cells: Cells::interval(n, Some((i, false)), None) }
        }
        3 => {
            let i = tape.below(n);
            Val { any: Any::RangeTo(..u.at(i)), cells: Cells::interval(n, None, Some((i, true))) }
        }
        4 => {
            let i = tape.below(n);
            Val { any: Any::RangeToInclusive(..=u.at(i)), cells: Cells::interval(n, None, Some((i, false))) }
        }
        5 => Val { any: Any::RangeFull(..), cells: Cells::all(n) },
        6 => {
            let p = gen_piece(tape, n, false);
            Val {
                any: Any::BoundedRange(BoundedRange::new(lb(u, p.lo), ub(u, p.hi))),
                cells: Cells::interval(n, Some(p.lo), Some(p.hi)),
            }
        }
        7 => {
            let b = gen_bound(tape, n);
            Val { any: LowerBoundedRange::new(lb(u, b)).into(), cells: Cells::interval(n, Some(b), None) }
        }
        8 => {
            let b = gen_bound(tape, n);
            Val { any: UpperBoundedRange::new(ub(u, b)).into(), cells: Cells::interval(n, None, Some(b)) }
        }
        9 => Val { any: Any::UnboundedRange(UnboundedRange::new()), cells: Cells::all(n) },
        10 => Val { any: Any::EmptyRange(EmptyRange::new()), cells: Cells::none(n) },
        _ => gen_set(tape, u, kind, size),
    };
    if let Any::RangeInclusive(r) = &v.any {
        ctx.label_if(r.is_empty() && r.start() <= r.end(), "a RangeInclusive iterated to its end");
    }
    note!(ctx, "  {} = {:?}", KINDS[kind], v.any);
    debug_assert_eq!(v.any.kind(), kind);
    v
}

fn gen_set<T: Elem>(tape: &mut Tape, u: &Uni<T>, kind: usize, size: Size) -> Val<T> {
    let n = u.n;
    if kind == 14 && tape.chance(1, 12) {
        let any = if tape.bool() { UnboundedSet::Full } else { UnboundedSet::from(UnboundedRange) };
        return Val { any: any.into(), cells: Cells::all(n) };
    }
    if kind == 11 && tape.chance(1, 24) {
        return Val { any: BoundedSet::empty().into(), cells: Cells::none(n) };
    }
    let pieces = gen_pieces(tape, n, size);
    let mut leaves: Vec<Val<T>> = Vec::with_capacity(pieces.len() + 2);
    for p in pieces {
        leaves.push(piece_val(tape, u, p));
    }
    if kind == 12 || kind == 14 {
        let v = lower_val(tape, u);
        let at = tape.below(leaves.len() + 1);
        leaves.insert(at, v);
    }
    if kind == 13 || kind == 14 {
        let v = upper_val(tape, u);
        let at = tape.below(leaves.len() + 1);
        leaves.insert(at, v);
    }
    if leaves.is_empty() {
        let p = gen_piece(tape, n, true);
        leaves.push(piece_val(tape, u, p));
    }
    let mut cells = Cells::none(n);
    for l in &leaves {
        cells = cells.or(&l.cells);
    }
    // Uniting one by one from the left costs the cube of the number of pieces.
    let style = if leaves.len() > 80 { 2 * tape.below(2) } else { tape.below(3) };
    let any = combine(style, leaves.into_iter().map(|l| l.any).collect()).to_set();
    Val { any, cells }
}

/// Does the value's membership and emptiness agree with its model?
pub fn agrees<T: Elem>(any: &Any<T>, cells: &Cells, u: &Uni<T>) -> bool {
    points("", any, u, |i| cells.has(i), cells.below(), cells.above()).is_ok()
        && any.is_empty() == cells.is_none()
}

/// Membership of every value of the window and of its two outer neighbours.
pub fn points<T: Elem>(
    what: &str,
    any: &Any<T>,
    u: &Uni<T>,
    want: impl Fn(usize) -> bool,
    below: bool,
    above: bool,
) -> Res {
    for i in 0..u.n {
        let want = want(i);
        let got = any.contains(u.at(i));
        ensure!(got == want, "{what}: contains({:?}) is {got}, should be {want}; value is {any:?}", u.at(i));
    }
    for (t, want) in [(u.before(), below), (u.after(), above)] {
        if let Some(t) = t {
            let got = any.contains(t);
            ensure!(got == want, "{what}: contains({t:?}) is {got}, should be {want}; value is {any:?}");
        }
    }
    Ok(())
}

/// Compares a value with its model in every observable way.
pub fn verify<T: Elem>(what: &str, any: &Any<T>, cells: &Cells, u: &Uni<T>) -> Res {
    points(what, any, u, |i| cells.has(i), cells.below(), cells.above())?;
    let empty = any.is_empty();
    ensure!(
        empty == cells.is_none(),
        "{what}: is_empty() is {empty}, should be {}; value is {any:?}", cells.is_none()
    );
    if let Any::UnboundedSet(UnboundedSet::Piecewise(p)) = any {
        for i in 0..u.n {
            ensure!(p.contains(u.at(i)) == cells.has(i), "{what}: piecewise contains({:?}) differs; value is {any:?}", u.at(i));
        }
    }
    // Iteration next to the ends of the type is another property's business.
    if u.touches_min() || u.touches_max() {
        return Ok(());
    }
    let want: Vec<T> = cells.points().into_iter().map(|i| u.at(i)).collect();
    let lower = matches!(any.kind(), 7 | 12);
    if let Some(got) = any.iterate(want.len() + !lower as usize) {
        ensure!(got == want, "{what}: iterates {got:?}, should be {want:?}; value is {any:?}");
    }
    Ok(())
}

/// What the library itself says each value's membership is.
pub struct Seen {
    pub at: Vec<bool>,
    pub below: bool,
    pub above: bool,
}
pub fn look<T: Elem>(any: &Any<T>, u: &Uni<T>) -> Seen {
    Seen {
        at: (0..u.n).map(|i| any.contains(u.at(i))).collect(),
        below: u.before().is_some_and(|t| any.contains(t)),
        above: u.after().is_some_and(|t| any.contains(t)),
    }
}
