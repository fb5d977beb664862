//! C13: ordering and construction of bounds.
use crate::ctx::{Ctx, Res};
use crate::elem::K;
use crate::tape::Tape;
use crate::{ensure, note};
use rangetools::{Bound, BoundedRange, LowerBound, LowerBoundedRange, UpperBound, UpperBoundedRange};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

fn hash_of<H: Hash>(h: &H) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}
type Raw<T> = (T, bool);
fn bound<T>(r: Raw<T>) -> Bound<T> {
    if r.1 {
        Bound::Excluded(r.0)
    } else {
        Bound::Included(r.0)
    }
}
/// The order by what is admitted: for a lower bound inclusive comes first, for an upper
/// bound exclusive does.
fn want<T: PartialOrd>(a: Raw<T>, b: Raw<T>, lower: bool) -> Option<Ordering> {
    Some(match a.0.partial_cmp(&b.0)? {
        Ordering::Equal if lower => a.1.cmp(&b.1),
        Ordering::Equal => b.1.cmp(&a.1),
        o => o,
    })
}

macro_rules! partial {
    ($B:ident, $T:ty, $lower:expr, $raw:expr) => {{
        let raw: &[Raw<$T>] = $raw;
        for &a in raw {
            for &b in raw {
                let (x, y) = ($B::from(bound(a)), $B::from(bound(b)));
                let w = want(a, b, $lower);
                ensure!(x.partial_cmp(&y) == w, "{x:?} partial_cmp {y:?} is {:?}, should be {w:?}", x.partial_cmp(&y));
                ensure!((x < y) == (w == Some(Ordering::Less)), "{x:?} < {y:?} is {}", x < y);
                ensure!((x > y) == (w == Some(Ordering::Greater)), "{x:?} > {y:?} is {}", x > y);
                ensure!((x <= y) == matches!(w, Some(Ordering::Less | Ordering::Equal)), "{x:?} <= {y:?} is {}", x <= y);
                ensure!((x >= y) == matches!(w, Some(Ordering::Greater | Ordering::Equal)), "{x:?} >= {y:?} is {}", x >= y);
                ensure!((x == y) == (w == Some(Ordering::Equal)), "{x:?} == {y:?} is {}", x == y);
                ensure!((x != y) == (w != Some(Ordering::Equal)), "{x:?} != {y:?} is {}", x != y);
                ensure!((bound(a) == bound(b)) == (a.0 == b.0 && a.1 == b.1), "{:?} == {:?} is {}", bound(a), bound(b), bound(a) == bound(b));
            }
        }
        Ok::<(), String>(())
    }};
}
macro_rules! total {
    ($B:ident, $T:ty, $lower:expr, $raw:expr) => {{
        let raw: &[Raw<$T>] = $raw;
        for &a in raw {
            for &b in raw {
                let (x, y) = ($B::from(bound(a)), $B::from(bound(b)));
                let w = want(a, b, $lower).unwrap();
                ensure!(x.cmp(&y) == w, "{x:?} cmp {y:?} is {:?}, should be {w:?}", x.cmp(&y));
                let (lo, hi) = if w == Ordering::Greater { (y, x) } else { (x, y) };
                ensure!(x.min(y) == lo, "min of {x:?} and {y:?} is {:?}", x.min(y));
                ensure!(x.max(y) == hi, "max of {x:?} and {y:?} is {:?}", x.max(y));
                for &c in raw {
                    let z = $B::from(bound(c));
                    let (lo, hi) = (x.min(y), x.max(y));
                    let w = if want(c, a, $lower) == Some(Ordering::Less) && want(c, b, $lower) == Some(Ordering::Less) {
                        lo
                    } else if want(c, a, $lower) == Some(Ordering::Greater) && want(c, b, $lower) == Some(Ordering::Greater) {
                        hi
                    } else {
                        z
                    };
                    ensure!(z.clamp(lo, hi) == w, "{z:?} clamped to {lo:?} and {hi:?} is {:?}", z.clamp(lo, hi));
                }
                if w == Ordering::Equal {
                    ensure!(hash_of(&x) == hash_of(&y), "{x:?} and {y:?} are equal but hash differently");
                    ensure!(hash_of(&bound(a)) == hash_of(&bound(b)), "{:?} hashes differently", bound(a));
                } else {
                    ensure!(a.1 != b.1 || a.0 != b.0, "unreachable");
                }
            }
        }
        let mut v: Vec<_> = raw.iter().map(|r| $B::from(bound(*r))).collect();
        v.sort();
        let mut m = raw.to_vec();
        m.sort_by(|a, b| want(*a, *b, $lower).unwrap());
        let m: Vec<_> = m.into_iter().map(|r| $B::from(bound(r))).collect();
        ensure!(v == m, "sorted order is {v:?}, should be {m:?}");
        Ok::<(), String>(())
    }};
}

/// Construction, unwrapping, mapping and flipping.
fn shape<T: Copy + PartialEq + Debug>(r: Raw<T>) -> Res {
    let (t, x) = r;
    let b = bound(r);
    let f = |u: T| (7u8, u);
    let mb = if x { Bound::Excluded((7u8, t)) } else { Bound::Included((7u8, t)) };
    let fb = if x { Bound::Included(t) } else { Bound::Excluded(t) };
    ensure!(b.map(f) == mb, "map of {b:?} is {:?}", b.map(f));
    ensure!(b.flipped() == fb, "flipped {b:?} is {:?}", b.flipped());
    ensure!(b.flipped().flipped() == b, "{b:?} flipped twice is {:?}", b.flipped().flipped());
    let l = if x { LowerBound::excluded(t) } else { LowerBound::included(t) };
    let u = if x { UpperBound::excluded(t) } else { UpperBound::included(t) };
    ensure!(l == LowerBound::from(b), "LowerBound built two ways: {l:?} vs {:?}", LowerBound::from(b));
    ensure!(u == UpperBound::from(b), "UpperBound built two ways: {u:?} vs {:?}", UpperBound::from(b));
    ensure!(l.to_bound() == b, "{l:?} unwraps to {:?}", l.to_bound());
    ensure!(u.to_bound() == b, "{u:?} unwraps to {:?}", u.to_bound());
    ensure!(l.map(f).to_bound() == mb, "map of {l:?} is {:?}", l.map(f));
    ensure!(u.map(f).to_bound() == mb, "map of {u:?} is {:?}", u.map(f));
    Ok(())
}

/// The order against what is really admitted, value by value.
fn admits(raw: &[Raw<i8>]) -> Res {
    for &a in raw {
        for &b in raw {
            let set = |r: Raw<i8>| -> (Vec<bool>, Vec<bool>, Vec<bool>, Vec<bool>) {
                let all = || i8::MIN..=i8::MAX;
                let l = LowerBoundedRange::new(LowerBound::from(bound(r)));
                let u = UpperBoundedRange::new(UpperBound::from(bound(r)));
                let lb = BoundedRange::new(LowerBound::from(bound(r)), UpperBound::included(i8::MAX));
                let ub = BoundedRange::new(LowerBound::included(i8::MIN), UpperBound::from(bound(r)));
                (
                    all().map(|v| l.contains(v)).collect(),
                    all().map(|v| u.contains(v)).collect(),
                    all().map(|v| lb.contains(v)).collect(),
                    all().map(|v| ub.contains(v)).collect(),
                )
            };
            let more = |x: &[bool], y: &[bool]| x.iter().zip(y).all(|(p, q)| *p || !*q) && x != y;
            let (sa, sb) = (set(a), set(b));
            // x admits more: then it must be the smaller lower / larger upper bound
            if more(&sa.0, &sb.0) || more(&sa.2, &sb.2) {
                ensure!(LowerBound::from(bound(a)) < LowerBound::from(bound(b)), "lower {:?} admits more than {:?} but is not smaller", bound(a), bound(b));
            }
            if more(&sa.1, &sb.1) || more(&sa.3, &sb.3) {
                ensure!(UpperBound::from(bound(a)) > UpperBound::from(bound(b)), "upper {:?} admits more than {:?} but is not larger", bound(a), bound(b));
            }
        }
    }
    Ok(())
}

pub fn c13(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    let count = 3;
    match tape.below(4) {
        0 => {
            let base = tape.below(256) as u8 as i8;
            let mut v = vec![];
            for _ in 0..count {
                let t = if tape.chance(1, 6) { [i8::MIN, i8::MAX, 0][tape.below(3)] } else { base.saturating_add(tape.below(3) as i8) };
                v.push((t, tape.bool()));
            }
            note!(ctx, "i8 {v:?}");
            ctx.nontrivial = v[0].0.abs_diff(v[1].0) <= 1;
            v.iter().try_for_each(|r| shape(*r))?;
            partial!(LowerBound, i8, true, &v)?;
            partial!(UpperBound, i8, false, &v)?;
            total!(LowerBound, i8, true, &v)?;
            total!(UpperBound, i8, false, &v)?;
            if tape.chance(1, 16) {
                ctx.label("admission compared value by value");
                admits(&v)?;
            }
            Ok(())
        }
        1 => {
            let base = tape.u64() as i32 >> tape.below(32);
            let v: Vec<_> = (0..count).map(|_| (K(base.saturating_add(tape.below(3) as i32)), tape.bool())).collect();
            note!(ctx, "K {v:?}");
            ctx.nontrivial = v[0].0 .0.abs_diff(v[1].0 .0) <= 1;
            v.iter().try_for_each(|r| shape(*r))?;
            partial!(LowerBound, K, true, &v)?;
            partial!(UpperBound, K, false, &v)?;
            total!(LowerBound, K, true, &v)?;
            total!(UpperBound, K, false, &v)
        }
        2 => {
            const POOL: [char; 8] = ['\0', 'a', 'b', '\u{D7FF}', '\u{E000}', '\u{E001}', '\u{10FFFE}', '\u{10FFFF}'];
            let v: Vec<_> = (0..count).map(|_| (POOL[tape.below(8)], tape.bool())).collect();
            note!(ctx, "char {v:?}");
            ctx.nontrivial = (v[0].0 as u32).abs_diff(v[1].0 as u32) <= 1;
            v.iter().try_for_each(|r| shape(*r))?;
            partial!(LowerBound, char, true, &v)?;
            partial!(UpperBound, char, false, &v)?;
            total!(LowerBound, char, true, &v)?;
            total!(UpperBound, char, false, &v)
        }
        _ => {
            const POOL: [f64; 8] = [0.0, -0.0, 1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.5, f64::MIN_POSITIVE];
            let v: Vec<_> = (0..count).map(|_| (POOL[tape.below(8)], tape.bool())).collect();
            note!(ctx, "f64 {v:?}");
            ctx.nontrivial = v[0].0 == v[1].0 || v[0].0.is_nan() || v[1].0.is_nan();
            ctx.label_if(v.iter().any(|r| r.0.is_nan()), "incomparable values");
            for r in v.iter().filter(|r| !r.0.is_nan()) {
                shape(*r)?;
            }
            partial!(LowerBound, f64, true, &v)?;
            partial!(UpperBound, f64, false, &v)
        }
    }
}
