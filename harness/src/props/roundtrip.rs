//! C14: serialization.
use super::iterate::{bounded_set, ROUTES};
use super::stepping::gen_off;
use crate::any::{Any, KINDS};
use crate::ctx::{Ctx, Res};
use crate::elem::{Elem, K};
use crate::gen::*;
use crate::tape::Tape;
use crate::{ensure, note, with_elem};
use rangetools::{
    Bound, BoundedRange, BoundedSet, EmptyRange, LowerBound, LowerBoundedRange, LowerBoundedSet,
    Rangetools, UnboundedRange, UnboundedSet, UpperBound, UpperBoundedRange,
    UpperBoundedSet,
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;

const FORMATS: [&str; 5] = ["JSON", "JSON value", "CBOR", "bincode", "JSON from a reader"];
fn trip<V: Serialize + DeserializeOwned>(format: usize, v: &V) -> Result<V, String> {
    match format {
        0 => {
            let s = serde_json::to_string(v).map_err(|e| format!("is not written: {e}"))?;
            serde_json::from_str(&s).map_err(|e| format!("written as {s} is not read back: {e}"))
        }
        1 => {
            let j = serde_json::to_value(v).map_err(|e| format!("is not written: {e}"))?;
            serde_json::from_value(j).map_err(|e| format!("is not read back: {e}"))
        }
        2 => {
            let mut c = vec![];
            ciborium::into_writer(v, &mut c).map_err(|e| format!("is not written: {e}"))?;
            ciborium::from_reader(c.as_slice()).map_err(|e| format!("is not read back: {e}"))
        }
        4 => {
            // text that is not in memory as a whole, laid out for people
            let s = serde_json::to_vec_pretty(v).map_err(|e| format!("is not written: {e}"))?;
            serde_json::from_reader(s.as_slice()).map_err(|e| format!("is not read back: {e}"))
        }
        _ => {
            let b = bincode::serialize(v).map_err(|e| format!("is not written: {e}"))?;
            bincode::deserialize(&b).map_err(|e| format!("is not read back: {e}"))
        }
    }
}
/// The formats in which these element values round-trip on their own (serde_json's value
/// tree has no room for large 128-bit numbers, whatever holds them).
fn formats<T: Serialize + DeserializeOwned + PartialEq>(values: &[T]) -> [bool; 5] {
    std::array::from_fn(|f| values.iter().all(|v| trip(f, v).is_ok_and(|w| w == *v)))
}
const ALL: [bool; 5] = [true; 5];

/// What comes back from each format.
fn trips_in<V: Serialize + DeserializeOwned + PartialEq + Debug>(fs: [bool; 5], v: &V) -> Result<Vec<(&'static str, V)>, String> {
    let mut out = vec![];
    for f in (0..5).filter(|f| fs[*f]) {
        let w = trip(f, v).map_err(|e| format!("{v:?} in {}: {e}", FORMATS[f]))?;
        ensure!(w == *v, "{v:?} comes back from {} as {w:?}", FORMATS[f]);
        out.push((FORMATS[f], w));
    }
    Ok(out)
}
fn trips<V: Serialize + DeserializeOwned + PartialEq + Debug>(v: &V) -> Result<Vec<(&'static str, V)>, String> {
    trips_in(ALL, v)
}

fn any_trips(v: &Any<K>) -> Result<Vec<(&'static str, Any<K>)>, String> {
    fn lift<V: Into<Any<K>>>(l: Vec<(&'static str, V)>) -> Vec<(&'static str, Any<K>)> {
        l.into_iter().map(|(f, v)| (f, v.into())).collect()
    }
    Ok(match v {
        Any::BoundedRange(x) => lift(trips(x)?),
        Any::LowerBoundedRange(x) => lift(trips(x)?),
        Any::UpperBoundedRange(x) => lift(trips(x)?),
        Any::UnboundedRange(x) => lift(trips(x)?),
        Any::EmptyRange(x) => lift(trips(x)?),
        Any::BoundedSet(x) => lift(trips(x)?),
        Any::LowerBoundedSet(x) => lift(trips(x)?),
        Any::UpperBoundedSet(x) => lift(trips(x)?),
        Any::UnboundedSet(x) => {
            if let UnboundedSet::Piecewise(p) = x {
                trips(p)?;
            }
            lift(trips(x)?)
        }
        _ => vec![],
    })
}

fn bound<T>(t: T, excluded: bool) -> Bound<T> {
    if excluded {
        Bound::Excluded(t)
    } else {
        Bound::Included(t)
    }
}
fn gen_range<T: Copy + Ord>(tape: &mut Tape, pair: &impl Fn(&mut Tape) -> (T, T)) -> BoundedRange<T> {
    let (a, b) = pair(tape);
    BoundedRange::new(LowerBound::from(bound(a, tape.bool())), UpperBound::from(bound(b, tape.bool())))
}
/// Every serializable type over the element type T, whose values come from `pair`.
fn typed<T>(tape: &mut Tape, ctx: &mut Ctx, fs: [bool; 5], pair: impl Fn(&mut Tape) -> (T, T)) -> Res
where
    T: Copy + Ord + Debug + Serialize + DeserializeOwned,
{
    let trips = |fs, v: &BoundedSet<T>| trips_in(fs, v);
    let r = gen_range(tape, &pair);
    let BoundedRange { start, end } = r;
    note!(ctx, "  {r:?}");
    ctx.nontrivial = true;
    trips_in(fs, &start.to_bound())?;
    trips_in(fs, &start)?;
    trips_in(fs, &end)?;
    trips_in(fs, &r)?;
    let l = LowerBoundedRange::new(start);
    let u = UpperBoundedRange::new(end);
    trips_in(fs, &l)?;
    trips_in(fs, &u)?;
    trips_in(fs, &EmptyRange::<T>::new())?;
    trips_in(fs, &UnboundedRange::new())?;
    trips_in(fs, &LowerBoundedSet::from(l))?;
    trips_in(fs, &UpperBoundedSet::from(u))?;
    trips_in(fs, &UnboundedSet::<T>::Full)?;
    let w = UnboundedSet::new(u, l);
    if let UnboundedSet::Piecewise(p) = &w {
        trips_in(fs, p)?;
    }
    trips_in(fs, &w)?;
    // inside other values, as users store them
    trips_in(fs, &(Some(r), vec![w.clone()], Option::<LowerBoundedRange<T>>::None))?;
    let mut pieces = vec![r];
    for _ in 0..tape.below(4) {
        pieces.push(gen_range(tape, &pair));
    }
    let s = bounded_set(&pieces, tape.below(ROUTES));
    note!(ctx, "  set {s:?}");
    for (f, back) in trips(fs, &s)? {
        for p in &pieces {
            for t in [p.start.to_bound(), p.end.to_bound()] {
                let (Bound::Included(t) | Bound::Excluded(t)) = t;
                ensure!(back.contains(t) == s.contains(t), "{s:?} back from {f}: contains({t:?}) changed");
            }
        }
        ensure!(Rangetools::union(back, l) == Rangetools::union(s.clone(), l), "{s:?} back from {f} unites differently");
    }
    trips_in(fs, &Rangetools::union(s.clone(), l))?;
    trips_in(fs, &Rangetools::union(s.clone(), u))?;
    trips_in(fs, &Rangetools::union(s.clone(), w))?;
    trips_in(fs, &Rangetools::complement(s))?;
    Ok(())
}

fn elem<T: Elem + Serialize + DeserializeOwned>(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    ctx.label(T::NAME);
    let fs = formats(&[T::from_off(0), T::from_off(T::top())]);
    typed::<T>(tape, ctx, fs, |tape| {
        let p = gen_off::<T>(tape);
        let q = if tape.bool() { gen_off::<T>(tape) } else { p.saturating_add(tape.below(6) as u128).min(T::top()) };
        (T::from_off(p), T::from_off(q))
    })
}
/// An element type with variants of its own.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Serialize, Deserialize)]
enum E {
    Included,
    Excluded(i8),
    Both { start: u8, end: Option<bool> },
}
fn gen_e(tape: &mut Tape) -> E {
    match tape.below(3) {
        0 => E::Included,
        1 => E::Excluded(tape.below(5) as i8 - 2),
        _ => E::Both { start: tape.below(3) as u8, end: [None, Some(false), Some(true)][tape.below(3)] },
    }
}

pub fn c14(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    match tape.below(20) {
        0..=4 => return with_elem!(tape.below(15), T => elem::<T>(tape, ctx)),
        5 => {
            ctx.label("Option<i8>");
            let g = |tape: &mut Tape| if tape.chance(1, 3) { None } else { Some(tape.below(5) as i8 - 2) };
            return typed(tape, ctx, ALL, |tape| (g(tape), g(tape)));
        }
        6 => {
            ctx.label("(bool, char)");
            let g = |tape: &mut Tape| (tape.bool(), ['a', 'b', '\u{10FFFF}'][tape.below(3)]);
            return typed(tape, ctx, ALL, |tape| (g(tape), g(tape)));
        }
        7 => {
            ctx.label("an enum");
            return typed(tape, ctx, ALL, |tape| (gen_e(tape), gen_e(tape)));
        }
        8 => {
            ctx.label("()");
            return typed(tape, ctx, ALL, |_| ((), ()));
        }
        9 => {
            // not even ordered totally: the bounds and ranges only
            ctx.label("f64");
            const POOL: [f64; 6] = [0.0, 1.0, -1.5, 0.25, f64::MAX, f64::MIN_POSITIVE];
            let (a, b) = (POOL[tape.below(6)], POOL[tape.below(6)]);
            let fs = formats(&[a, b]);
            let start = LowerBound::from(bound(a, tape.bool()));
            let end = UpperBound::from(bound(b, tape.bool()));
            note!(ctx, "  {start:?} {end:?}");
            ctx.nontrivial = true;
            trips_in(fs, &start.to_bound())?;
            trips_in(fs, &start)?;
            trips_in(fs, &end)?;
            trips_in(fs, &BoundedRange { start, end })?;
            trips_in(fs, &LowerBoundedRange { start })?;
            trips_in(fs, &UpperBoundedRange { end })?;
            return Ok(());
        }
        _ => {}
    }
    let size = gen_size(tape);
    let n = gen_big_n(tape, size);
    let u: Uni<K> = if tape.bool() { Uni::middle(n) } else { Uni::anywhere(tape, n) };
    let kind = tape.range(6, 14);
    let mut v = gen_kind(tape, ctx, &u, kind, size).any;
    let giant = u.n >= 2000;
    ctx.label_if(giant && kind > 10, "room for 300+ pieces");
    for _ in 0..tape.below(3) {
        let k = tape.range(6, 14);
        let w = gen_kind(tape, ctx, &u, k, Size::Small).any;
        v = match tape.below(4) {
            0 if !giant => v.complement(),
            1 => v.union(w),
            2 => v.intersection(w),
            _ => v.to_set(),
        };
    }
    note!(ctx, "  serialized: {v:?}");
    let k = tape.below(15);
    let w = gen_kind(tape, ctx, &u, k, Size::Small).any;
    let seen = look(&v, &u);
    let some = seen.at.iter().any(|b| *b) && seen.at.iter().any(|b| !*b);
    ctx.nontrivial = some;
    ctx.pairs.push((v.kind() as u8, 0));
    for (f, back) in any_trips(&v)? {
        let what = format!("{} back from {f}", KINDS[v.kind()]);
        points(&what, &back, &u, |i| seen.at[i], seen.below, seen.above)?;
        ensure!(back.is_empty() == v.is_empty(), "{what}: is_empty changed: {v:?}");
        ensure!(back.clone().union(w.clone()) == v.clone().union(w.clone()), "{what}: unites differently with {w:?}: {v:?}");
        ensure!(back.clone().intersection(w.clone()) == v.clone().intersection(w.clone()), "{what}: intersects differently with {w:?}: {v:?}");
        if !giant {
            ensure!(back.clone().complement() == v.clone().complement(), "{what}: complements differently: {v:?}");
        }
    }
    Ok(())
}
