//! C11: conversions to and from std ranges.
use super::stepping::gen_off;
use crate::attempt;
use crate::ctx::{Ctx, Res};
use crate::elem::Elem;
use crate::tape::Tape;
use crate::{ensure, last_panic, note, with_elem};
use rangetools::{
    BoundedRange, EmptyRange, LowerBound, LowerBoundedRange, UnboundedRange, UpperBound,
    UpperBoundedRange,
};
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

pub type OB = (u128, bool);
pub fn low<T: Elem>(b: OB) -> LowerBound<T> {
    if b.1 {
        LowerBound::excluded(T::from_off(b.0))
    } else {
        LowerBound::included(T::from_off(b.0))
    }
}
pub fn upp<T: Elem>(b: OB) -> UpperBound<T> {
    if b.1 {
        UpperBound::excluded(T::from_off(b.0))
    } else {
        UpperBound::included(T::from_off(b.0))
    }
}
/// Values worth asking about: around every bound and both ends.
pub fn probes<T: Elem>(bs: &[u128], extra: u128) -> Vec<u128> {
    let top = T::top();
    let mut v = vec![0, 1, 2, top, top - 1, top - 2, extra];
    for b in bs.iter().chain(T::landmarks()) {
        for d in 0..3u128 {
            v.push(b.saturating_add(d).min(top));
            v.push(b.saturating_sub(d));
        }
    }
    v.sort();
    v.dedup();
    v
}
pub fn within(o: u128, lo: Option<OB>, hi: Option<OB>) -> bool {
    lo.is_none_or(|(a, x)| if x { o > a } else { o >= a }) && hi.is_none_or(|(b, x)| if x { o < b } else { o <= b })
}
/// The smallest and largest value, if any.
pub fn extent(lo: OB, hi: OB) -> Option<(u128, u128)> {
    let a = lo.0.checked_add(lo.1 as u128)?;
    let b = hi.0.checked_sub(hi.1 as u128)?;
    (a <= b).then_some((a, b))
}

fn same<T: Elem>(what: &str, probes: &[u128], want: impl Fn(u128) -> bool, got: impl Fn(T) -> bool) -> Res {
    for &o in probes {
        let (w, g) = (want(o), got(T::from_off(o)));
        ensure!(w == g, "{what}: contains({:?}) is {g}, should be {w}", T::from_off(o));
    }
    Ok(())
}

/// `hi`, or a value near `lo`.
fn gen_pair<T: Elem>(tape: &mut Tape) -> (OB, OB) {
    let a = gen_off::<T>(tape);
    let b = match tape.below(4) {
        0 => a.saturating_add(tape.below(4) as u128).min(T::top()),
        1 => a.saturating_sub(tape.below(3) as u128),
        _ => gen_off::<T>(tape),
    };
    let (a, b) = if a > b && tape.bool() { (b, a) } else { (a, b) };
    ((a, tape.bool()), (b, tape.bool()))
}

fn c11t<T: Elem + Default>(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    ctx.label(T::NAME);
    let top = T::top();
    let (lo, hi) = gen_pair::<T>(tape);
    let extra = gen_off::<T>(tape);
    let ps = probes::<T>(&[lo.0, hi.0], extra);
    let ext = extent(lo, hi);
    let near = |o: u128| o <= 2 || top - o <= 2;
    ctx.nontrivial = near(lo.0) || near(hi.0) || ext.is_none_or(|(a, b)| a < b);
    ctx.label_if(ext.is_none(), "no values");
    let (a, b) = (T::from_off(lo.0), T::from_off(hi.0));
    match tape.below(10) {
        0 => {
            let std = a..b;
            note!(ctx, "{}: Range {std:?} to BoundedRange", T::NAME);
            let r: BoundedRange<T> = std.clone().into();
            same(&format!("BoundedRange from {std:?}"), &ps, |o| within(o, Some((lo.0, false)), Some((hi.0, true))), |t| r.contains(t))?;
            let back: Range<T> = attempt(|| r.into()).ok_or_else(|| format!("{std:?} does not convert back: {}", last_panic()))?;
            same(&format!("{std:?} there and back"), &ps, |o| std.contains(&T::from_off(o)), |t| back.contains(&t))?;
        }
        1 | 2 => {
            // as built, partly iterated, or exhausted
            let (f, k) = (tape.below(4), tape.below(3));
            let plain = a..=b;
            let std = match T::iterated(a, b, f, k) {
                Some(r) => r,
                None => plain,
            };
            note!(ctx, "{}: RangeInclusive {std:?} to BoundedRange", T::NAME);
            ctx.label_if(std.is_empty() && lo.0 <= hi.0, "exhausted RangeInclusive");
            let r: BoundedRange<T> = std.clone().into();
            same(&format!("BoundedRange from {std:?}"), &ps, |o| std.contains(&T::from_off(o)), |t| r.contains(t))?;
            let back: RangeInclusive<T> = attempt(|| r.into()).ok_or_else(|| format!("{std:?} does not convert back: {}", last_panic()))?;
            same(&format!("{std:?} there and back"), &ps, |o| std.contains(&T::from_off(o)), |t| back.contains(&t))?;
            ensure!(back.is_empty() == std.is_empty(), "{std:?} there and back is {back:?}");
        }
        3 => {
            let std = a..;
            note!(ctx, "{}: RangeFrom {std:?} to LowerBoundedRange", T::NAME);
            let r: LowerBoundedRange<T> = std.clone().into();
            same(&format!("LowerBoundedRange from {std:?}"), &ps, |o| o >= lo.0, |t| r.contains(t))?;
            let back: RangeFrom<T> = r.into();
            same(&format!("{std:?} there and back"), &ps, |o| o >= lo.0, |t| back.contains(&t))?;
        }
        4 => {
            let std = ..b;
            note!(ctx, "{}: RangeTo {std:?} to UpperBoundedRange", T::NAME);
            let r: UpperBoundedRange<T> = std.into();
            same(&format!("UpperBoundedRange from {std:?}"), &ps, |o| o < hi.0, |t| r.contains(t))?;
            let back: RangeTo<T> = r.into();
            same(&format!("{std:?} there and back"), &ps, |o| o < hi.0, |t| back.contains(&t))?;
            let std = ..=b;
            let r: UpperBoundedRange<T> = std.into();
            same(&format!("UpperBoundedRange from {std:?}"), &ps, |o| o <= hi.0, |t| r.contains(t))?;
            let back: RangeToInclusive<T> = r.into();
            same(&format!("{std:?} there and back"), &ps, |o| o <= hi.0, |t| back.contains(&t))?;
        }
        5 | 6 => {
            let r = BoundedRange::new(low::<T>(lo), upp::<T>(hi));
            note!(ctx, "{}: {r:?} to Range and RangeInclusive", T::NAME);
            let got: Option<Range<T>> = attempt(|| r.into());
            // a half-open range cannot hold the largest value
            let representable = ext.is_none_or(|(_, b)| b < top);
            match got {
                None => ensure!(!representable, "{r:?} to Range panics: {}", last_panic()),
                Some(g) => {
                    ensure!(representable, "{r:?} to Range gives {g:?}, but no Range has those values");
                    same(&format!("{r:?} to Range {g:?}"), &ps, |o| within(o, Some(lo), Some(hi)), |t| g.contains(&t))?;
                    ensure!(g.is_empty() == ext.is_none(), "{r:?} to Range gives {g:?}");
                }
            }
            ctx.label_if(!representable, "no such std range");
            let got: Option<RangeInclusive<T>> = attempt(|| r.into());
            match got {
                None => return Err(format!("{r:?} to RangeInclusive panics: {}", last_panic())),
                Some(g) => {
                    same(&format!("{r:?} to RangeInclusive {g:?}"), &ps, |o| within(o, Some(lo), Some(hi)), |t| g.contains(&t))?;
                    ensure!(g.is_empty() == ext.is_none(), "{r:?} to RangeInclusive gives {g:?}");
                }
            }
        }
        7 => {
            let r = LowerBoundedRange::new(low::<T>(lo));
            note!(ctx, "{}: {r:?} to RangeFrom", T::NAME);
            let representable = !(lo.1 && lo.0 == top);
            ctx.label_if(!representable, "no such std range");
            match attempt(|| RangeFrom::<T>::from(r)) {
                None => ensure!(!representable, "{r:?} to RangeFrom panics: {}", last_panic()),
                Some(g) => {
                    ensure!(representable, "{r:?} to RangeFrom gives {g:?}, but no RangeFrom has those values");
                    same(&format!("{r:?} to RangeFrom {g:?}"), &ps, |o| within(o, Some(lo), None), |t| g.contains(&t))?;
                }
            }
        }
        8 => {
            let r = UpperBoundedRange::new(upp::<T>(hi));
            note!(ctx, "{}: {r:?} to RangeTo and RangeToInclusive", T::NAME);
            let representable = hi.1 || hi.0 < top;
            ctx.label_if(!representable, "no such std range");
            match attempt(|| RangeTo::<T>::from(r)) {
                None => ensure!(!representable, "{r:?} to RangeTo panics: {}", last_panic()),
                Some(g) => {
                    ensure!(representable, "{r:?} to RangeTo gives {g:?}, but no RangeTo has those values");
                    same(&format!("{r:?} to RangeTo {g:?}"), &ps, |o| within(o, None, Some(hi)), |t| g.contains(&t))?;
                }
            }
            let representable = !hi.1 || hi.0 > 0;
            match attempt(|| RangeToInclusive::<T>::from(r)) {
                None => ensure!(!representable, "{r:?} to RangeToInclusive panics: {}", last_panic()),
                Some(g) => {
                    ensure!(representable, "{r:?} to RangeToInclusive gives {g:?}, but no RangeToInclusive has those values");
                    same(&format!("{r:?} to RangeToInclusive {g:?}"), &ps, |o| within(o, None, Some(hi)), |t| g.contains(&t))?;
                }
            }
        }
        _ => {
            note!(ctx, "{}: EmptyRange and UnboundedRange to std", T::NAME);
            let e = EmptyRange::<T>::new();
            let g = attempt(|| Range::<T>::from(e)).ok_or_else(|| format!("EmptyRange to Range panics: {}", last_panic()))?;
            ensure!(g.is_empty(), "EmptyRange to Range gives {g:?}");
            same("EmptyRange to Range", &ps, |_| false, |t| g.contains(&t))?;
            let g = attempt(|| RangeInclusive::<T>::from(e)).ok_or_else(|| format!("EmptyRange<{}> to RangeInclusive panics: {}", T::NAME, last_panic()))?;
            ensure!(g.is_empty(), "EmptyRange<{}> to RangeInclusive gives {g:?}", T::NAME);
            same("EmptyRange to RangeInclusive", &ps, |_| false, |t| g.contains(&t))?;
            let u: UnboundedRange = (..).into();
            let _: RangeFull = u.into();
            same("UnboundedRange", &ps, |_| true, |t: T| u.contains(t))?;
        }
    }
    Ok(())
}
pub fn c11(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    with_elem!(tape.below(15), T => c11t::<T>(tape, ctx))
}
