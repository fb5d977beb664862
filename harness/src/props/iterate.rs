//! C07..C09: iteration.
use super::stepping::gen_off;
use crate::ctx::{Ctx, Res};
use crate::elem::Elem;
use crate::gen::*;
use crate::model::{Cells, Ivs};
use crate::tape::Tape;
use super::algebra::{operand, window};
use crate::any::Any;
use crate::{ensure, note, with_algebra_elem, with_elem};
use rangetools::{
    BoundedRange, BoundedSet, EmptyRange, LowerBound, LowerBoundedRange, LowerBoundedSet,
    Rangetools, UpperBound,
};

/// How many ways `bounded_set` knows.
pub const ROUTES: usize = 6;
/// The union of the pieces, put together in one of several ways.
pub fn bounded_set<T: Copy + Ord>(pieces: &[BoundedRange<T>], route: usize) -> BoundedSet<T> {
    // Uniting one by one costs the cube of the number of pieces on one side.
    let route = if pieces.len() > 80 { [0, 2][route % 2] } else { route % ROUTES };
    let fold = |ps: &[BoundedRange<T>]| {
        let mut s: BoundedSet<T> = BoundedSet::empty();
        for p in ps {
            s = if route % 2 == 0 { Rangetools::union(s, *p) } else { Rangetools::union(*p, s) };
        }
        s
    };
    match route {
        0 | 1 => fold(pieces),
        2 | 3 if pieces.len() > 3 => {
            // halves, each put together on its own
            let (a, b) = pieces.split_at(pieces.len() / 2);
            Rangetools::union(bounded_set(a, route), bounded_set(b, route))
        }
        2 | 3 => fold(pieces),
        4 => {
            // the values missing from what lies outside
            let s = fold(pieces);
            Rangetools::intersection(Rangetools::complement(Rangetools::complement(s.clone())), s)
        }
        _ => {
            // two sets, one of every other piece
            let odd: Vec<_> = pieces.iter().skip(1).step_by(2).copied().collect();
            let even: Vec<_> = pieces.iter().step_by(2).copied().collect();
            Rangetools::union(fold(&odd), fold(&even))
        }
    }
}

/// A value put together by the algebra that is of one of the iterable types: bounded (kinds
/// 6, 10, 11) or, if `tail`, bounded from below only (7, 12).
fn expression<T: Elem>(tape: &mut Tape, ctx: &mut Ctx, tail: bool) -> (Uni<T>, Val<T>) {
    let size = gen_size(tape);
    let u = window::<T>(tape, ctx, size);
    let mut v = operand(tape, ctx, &u, size);
    for _ in 0..tape.range(1, 3) {
        let w = operand(tape, ctx, &u, size);
        let (x, y) = if tape.bool() { (v, w) } else { (w, v) };
        v = if tape.bool() {
            Val { cells: x.cells.or(&y.cells), any: x.any.union(y.any) }
        } else {
            Val { cells: x.cells.and(&y.cells), any: x.any.intersection(y.any) }
        };
        if tape.chance(1, 4) {
            v = Val { cells: v.cells.not(), any: v.any.complement() };
        }
    }
    // into the wanted kind
    if matches!(v.any.kind(), 5 | 8 | 9 | 13 | 14 | 3 | 4) || (!tail && matches!(v.any.kind(), 2 | 7 | 12)) {
        let kind = if tail { [7, 12][tape.below(2)] } else { [6, 11, 11][tape.below(3)] };
        let w = gen_kind(tape, ctx, &u, kind, size);
        v = Val { cells: v.cells.and(&w.cells), any: v.any.intersection(w.any) };
    }
    if tail && !matches!(v.any.kind(), 2 | 7 | 12) {
        let kind = [7, 12][tape.below(2)];
        let w = gen_kind(tape, ctx, &u, kind, size);
        let (x, y) = if tape.bool() { (v, w) } else { (w, v) };
        v = Val { cells: x.cells.or(&y.cells), any: x.any.union(y.any) };
    }
    if v.any.kind() < 6 {
        v = Val { cells: v.cells, any: v.any.to_inner() };
    }
    note!(ctx, "  together: {:?}", v.any);
    ctx.label("put together by the algebra");
    (u, v)
}
/// Does membership agree with the model? If not, that is another property's business.
fn members<T: Elem>(u: &Uni<T>, v: &Val<T>) -> bool {
    points("", &v.any, u, |i| v.cells.has(i), v.cells.below(), v.cells.above()).is_ok()
}
fn offsets<T: Elem>(u: &Uni<T>, v: &Val<T>) -> Vec<(u128, u128)> {
    v.cells.points().into_iter().map(|i| (u.base + i as u128, u.base + i as u128)).collect()
}

// ---------------------------------------------------------------- C07

fn compare<T: Elem>(what: &str, want: &[T], fwd: impl Iterator<Item = T>, back: Option<impl Iterator<Item = T>>) -> Res {
    let limit = want.len() + 3;
    let got: Vec<T> = fwd.take(limit).collect();
    ensure!(got == want, "{what}: iterates {got:?} (first {limit}), should be {want:?}");
    if let Some(b) = back {
        let mut got: Vec<T> = b.take(limit).collect();
        let shown = got.clone();
        got.reverse();
        ensure!(got == want, "{what}: reversed iterates {shown:?} (first {limit}), should be the reverse of {want:?}");
    }
    Ok(())
}

fn whole<T: Elem>(tape: &mut Tape, ctx: &mut Ctx, n: usize) -> Uni<T> {
    let u = Uni::<T>::anywhere(tape, n);
    note!(ctx, "window: {}", u.describe());
    u
}

fn c07t<T: Elem + Default>(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    ctx.label(T::NAME);
    let size = gen_size(tape);
    let n = match tape.below(64) {
        63 => 256,
        _ => gen_big_n(tape, size),
    };
    let u = whole::<T>(tape, ctx, n);
    let end = u.touches_min() || u.touches_max();
    ctx.label_if(end, "window at an end of the type");
    match tape.below(8) {
        0..=3 => {
            let mut p = gen_piece(tape, u.n, false);
            if tape.chance(1, 6) {
                // the whole window, the whole type if the window is
                p = Piece { lo: (0, false), hi: (u.n - 1, false) };
            }
            let r = BoundedRange::new(lb(&u, p.lo), ub(&u, p.hi));
            note!(ctx, "  {r:?}");
            let want: Vec<T> = (0..u.n).map(|i| u.at(i)).filter(|t| r.contains(*t)).collect();
            ctx.nontrivial = want.len() >= 2 || end;
            ctx.label_if(want.is_empty(), "empty or inverted range");
            compare("range", &want, r.into_iter(), Some(r.into_iter().rev()))?;
            let mut looped = vec![];
            for t in r {
                looped.push(t);
                if looped.len() > want.len() {
                    break;
                }
            }
            ensure!(looped == want, "range: a for loop sees {looped:?}, should be {want:?}");
        }
        4..=6 => {
            let pieces = gen_pieces(tape, u.n, if u.n < 8 { Size::Small } else { size });
            let pieces: Vec<_> = pieces.iter().map(|p| BoundedRange::new(lb(&u, p.lo), ub(&u, p.hi))).collect();
            let s = bounded_set(&pieces, tape.below(ROUTES));
            note!(ctx, "  set {s:?}");
            let want: Vec<T> = (0..u.n).map(|i| u.at(i)).filter(|t| s.contains(*t)).collect();
            ctx.nontrivial = want.len() >= 2 || end;
            compare("set", &want, s.clone().into_iter(), Some(s.into_iter().rev()))?;
        }
        _ => {
            let e = EmptyRange::<T>::new();
            compare("empty range", &[], e.into_iter(), Some(e.into_iter().rev()))?;
            let s = BoundedSet::<T>::empty();
            compare("empty set", &[], s.clone().into_iter(), Some(s.into_iter().rev()))?;
        }
    }
    Ok(())
}
pub fn c07(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    if tape.below(2000) == 1999 {
        // all of a 16-bit type
        ctx.nontrivial = true;
        ctx.label("whole 16-bit type");
        let full = BoundedRange::new(LowerBound::included(u16::MIN), UpperBound::included(u16::MAX));
        let want: Vec<u16> = (0..=u16::MAX).collect();
        compare("range", &want, full.into_iter(), Some(full.into_iter().rev()))?;
        let full = BoundedRange::new(LowerBound::included(i16::MIN), UpperBound::included(i16::MAX));
        let want: Vec<i16> = (i16::MIN..=i16::MAX).collect();
        return compare("range", &want, full.into_iter(), Some(full.into_iter().rev()));
    }
    if tape.chance(1, 5) {
        return with_algebra_elem!(tape, ctx, T => c07e::<T>(tape, ctx));
    }
    with_elem!(tape.below(15), T => c07t::<T>(tape, ctx))
}
fn c07e<T: Elem>(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    let (u, v) = expression::<T>(tape, ctx, false);
    if !members(&u, &v) {
        return Ok(());
    }
    let want: Vec<T> = v.cells.points().into_iter().map(|i| u.at(i)).collect();
    ctx.nontrivial = want.len() >= 2;
    match v.any {
        Any::BoundedRange(r) => compare("range", &want, r.into_iter(), Some(r.into_iter().rev())),
        Any::BoundedSet(s) => compare("set", &want, s.clone().into_iter(), Some(s.into_iter().rev())),
        Any::EmptyRange(r) => compare("empty range", &want, r.into_iter(), Some(r.into_iter().rev())),
        _ => Ok(()),
    }
}

// ---------------------------------------------------------------- C08

type Spec = ((u128, bool), (u128, bool));
fn ivs(specs: &[Spec]) -> Ivs {
    let mut v = vec![];
    for ((a, ax), (b, bx)) in specs {
        let (Some(a), Some(b)) = (a.checked_add(*ax as u128), b.checked_sub(*bx as u128)) else { continue };
        if a <= b {
            v.push((a, b));
        }
    }
    Ivs::from(v)
}
fn range_of<T: Elem>(s: &Spec) -> BoundedRange<T> {
    let l = |o: u128, x: bool| if x { LowerBound::excluded(T::from_off(o)) } else { LowerBound::included(T::from_off(o)) };
    let u = |o: u128, x: bool| if x { UpperBound::excluded(T::from_off(o)) } else { UpperBound::included(T::from_off(o)) };
    BoundedRange::new(l(s.0 .0, s.0 .1), u(s.1 .0, s.1 .1))
}
fn gen_spec<T: Elem>(tape: &mut Tape) -> Spec {
    let a = gen_off::<T>(tape);
    let b = match tape.below(8) {
        0..=2 => a.saturating_add(tape.below(6) as u128).min(T::top()),
        3 | 4 => a.saturating_add(tape.below(40) as u128).min(T::top()),
        5 => T::top(),
        6 => {
            let bits = tape.below(18);
            a.saturating_add((tape.u64() & ((1 << bits) - 1)) as u128).min(T::top())
        }
        _ => gen_off::<T>(tape),
    };
    let (a, b) = if a > b && !tape.chance(1, 6) { (b, a) } else { (a, b) };
    ((a, tape.bool()), (b, tape.bool()))
}
/// Up to 300 short pieces one after another, in ascending or shuffled order.
pub fn many_specs<T: Elem>(tape: &mut Tape) -> Vec<Spec> {
    let count = if tape.chance(1, 128) { tape.range(300, 2000) } else { tape.range(8, 300) };
    let mut at = gen_off::<T>(tape).min(T::top() - T::top().min(if count > 300 { 10_000 } else { 1500 }));
    let shuffled = tape.bool();
    let mut r = Spread::new(tape);
    let mut v = vec![];
    for _ in 0..count {
        let e = at.saturating_add(r.below(4) as u128);
        if e > T::top() {
            break;
        }
        v.push(((at, r.below(4) == 0), (e, r.below(4) == 0)));
        at = e.saturating_add(1 + r.below(3) as u128);
        if at > T::top() {
            break;
        }
    }
    if shuffled {
        for i in (1..v.len()).rev() {
            v.swap(i, r.below(i + 1));
        }
    }
    v
}
/// Does the set hold what the pieces say, near every bound?
fn built_right<T: Elem>(m: &Ivs, specs: &[Spec], contains: impl Fn(T) -> bool) -> bool {
    specs.iter().flat_map(|s| [s.0 .0, s.1 .0]).all(|o| {
        (o.saturating_sub(1)..=o.saturating_add(1).min(T::top())).all(|p| contains(T::from_off(p)) == m.contains(p))
    })
}
fn gen_skip(tape: &mut Tape, m: &Ivs) -> usize {
    let left = m.count_usize().unwrap_or(usize::MAX);
    let d = tape.below(3);
    match tape.below(10) {
        0 => 0,
        1..=3 => tape.below(5),
        4 => left.saturating_sub(d),
        5 => left.saturating_add(d),
        6 => m.v.front().map_or(0, |(a, b)| usize::try_from(b - a).unwrap_or(usize::MAX)).saturating_add(d),
        7 => m.v.back().map_or(0, |(a, b)| usize::try_from(b - a).unwrap_or(usize::MAX)).saturating_add(d),
        8 => usize::MAX - d,
        _ => (tape.u64() >> tape.below(64)) as usize,
    }
}
fn sizes<T: Elem, I: Iterator<Item = T> + ExactSizeIterator>(it: &I, m: &Ivs) -> Res {
    let got = it.size_hint();
    match m.count_usize() {
        Some(c) => {
            ensure!(got == (c, Some(c)), "size_hint is {got:?} with {c} values left");
            let len = it.len();
            ensure!(len == c, "len is {len} with {c} values left");
        }
        None => ensure!(got.1.is_none(), "size_hint is {got:?} though more values are left than a usize can count"),
    }
    Ok(())
}
fn off<T: Elem>(t: Option<T>) -> Option<u128> {
    t.map(|t| t.to_off())
}

fn drive<T, I>(tape: &mut Tape, ctx: &mut Ctx, mut it: I, mut m: Ivs) -> Res
where
    T: Elem,
    I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone,
{
    let val = |o: Option<u128>| o.map(T::from_off);
    sizes(&it, &m)?;
    let steps = tape.range(1, 24);
    let mut live = 0;
    for step in 0..steps {
        if step > 0 && tape.exhausted() {
            break;
        }
        if m.count().is_none_or(|c| c >= 2) {
            live += 1;
        }
        match tape.below(11) {
            9 => {
                let got = search(tape, ctx, &mut it, &mut m);
                got.map_err(|e| format!("step {step}: {e}"))?;
            }
            10 => {
                let k = tape.below(6);
                let back = tape.bool();
                let got: Vec<T> = if back { it.by_ref().rev().take(k).collect() } else { it.by_ref().take(k).collect() };
                let want: Vec<T> = (0..k).map_while(|_| if back { m.next_back() } else { m.next() }).map(T::from_off).collect();
                note!(ctx, "  by_ref(){}.take({k}) = {got:?}", if back { ".rev()" } else { "" });
                ensure!(got == want, "step {step}: taking {k} by reference (from the back: {back}) yields {got:?}, should be {want:?}");
            }
            0 | 1 => {
                let (got, want) = (it.next(), m.next());
                note!(ctx, "  next = {got:?}");
                ensure!(off(got) == want, "step {step}: next is {got:?}, should be {:?}", val(want));
            }
            2 | 3 => {
                let (got, want) = (it.next_back(), m.next_back());
                note!(ctx, "  next_back = {got:?}");
                ensure!(off(got) == want, "step {step}: next_back is {got:?}, should be {:?}", val(want));
            }
            4 => {
                let k = gen_skip(tape, &m);
                let (got, want) = (it.nth(k), m.nth(k));
                note!(ctx, "  nth({k}) = {got:?}");
                ensure!(off(got) == want, "step {step}: nth({k}) is {got:?}, should be {:?}", val(want));
            }
            5 => {
                let k = gen_skip(tape, &m);
                let (got, want) = (it.nth_back(k), m.nth_back(k));
                note!(ctx, "  nth_back({k}) = {got:?}");
                ensure!(off(got) == want, "step {step}: nth_back({k}) is {got:?}, should be {:?}", val(want));
            }
            6 => consume(tape, ctx, &it, &m)?,
            7 => {
                note!(ctx, "  continue with a clone");
                it = it.clone();
            }
            _ => adapt(tape, ctx, &it, &m)?,
        }
        sizes(&it, &m).map_err(|e| format!("step {step}: {e}"))?;
    }
    consume(tape, ctx, &it, &m)?;
    ctx.nontrivial = live >= 2;
    ctx.label_if(live >= 6, "6+ operations on a live iterator");
    ctx.label_if(m.is_empty(), "exhausted in the end");
    Ok(())
}
/// Methods that advance the iterator up to a value they look for.
fn search<T, I>(tape: &mut Tape, ctx: &mut Ctx, it: &mut I, m: &mut Ivs) -> Res
where
    T: Elem,
    I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator,
{
    let which = tape.below(6);
    let back = which >= 4;
    let mut k = tape.below(8);
    if tape.chance(1, 4) {
        // to a place near or past the end
        let Some(c) = m.count_usize().filter(|c| *c <= 400) else { return Ok(()) };
        k = (c + 2).saturating_sub(tape.below(5));
    }
    let target = if back { m.clone().nth_back(k) } else { m.clone().nth(k) };
    if target.is_none() && !m.count().is_some_and(|c| c <= 2000) {
        return Ok(());
    }
    let total = m.count_usize();
    // what the search consumes
    let found = if back { m.nth_back(k) } else { m.nth(k) };
    let want = found.map(T::from_off);
    let hit = |t: T| if back { found.is_some_and(|f| t.to_off() <= f) } else { found.is_some_and(|f| t.to_off() >= f) };
    note!(ctx, "  search {which} for {want:?}");
    match which {
        0 => {
            let got = it.find(|t| hit(*t));
            ensure!(got == want, "find gives {got:?}, should be {want:?}");
        }
        1 => {
            let got = it.position(hit);
            ensure!(got == found.map(|_| k), "position gives {got:?}, should be {:?}", found.map(|_| k));
        }
        2 => {
            let got = it.any(hit);
            ensure!(got == found.is_some(), "any gives {got}");
        }
        3 => {
            let got = it.all(|t| !hit(t));
            ensure!(got == found.is_none(), "all gives {got}");
        }
        4 => {
            let got = it.rfind(|t| hit(*t));
            ensure!(got == want, "rfind gives {got:?}, should be {want:?}");
        }
        _ => {
            let Some(c) = total else {
                // rposition needs a length
                it.nth_back(k);
                return Ok(());
            };
            let got = it.rposition(hit);
            let want = found.map(|_| c - 1 - k);
            ensure!(got == want, "rposition gives {got:?}, should be {want:?}");
        }
    }
    Ok(())
}
/// Consuming calls, on clones.
fn consume<T, I>(tape: &mut Tape, ctx: &mut Ctx, it: &I, m: &Ivs) -> Res
where
    T: Elem,
    I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone,
{
    match m.count() {
        Some(c) if c <= 300 || tape.chance(1, 8) && c <= 2000 || tape.chance(1, 256) && c <= 140_000 => {
            ctx.label_if(c > 5000, "5000+ values consumed");
        }
        _ => return Ok(()),
    }
    let all: Vec<T> = m.all().into_iter().map(T::from_off).collect();
    note!(ctx, "  consume {} remaining on clones", all.len());
    let rev: Vec<T> = all.iter().rev().copied().collect();
    let limit = all.len() + 3;
    let got: Vec<T> = it.clone().take(limit).collect();
    ensure!(got == all, "remaining values are {got:?}, should be {all:?}");
    let got: Vec<T> = it.clone().rev().take(limit).collect();
    ensure!(got == rev, "remaining values reversed are {got:?}, should be {rev:?}");
    // the iterator is now known to end: unbounded consumers are safe
    let got: Vec<T> = it.clone().collect();
    ensure!(got == all, "collect gives {got:?}, should be {all:?}");
    let got: Vec<T> = it.clone().rev().collect();
    ensure!(got == rev, "rev().collect() gives {got:?}, should be {rev:?}");
    let got = it.clone().count();
    ensure!(got == all.len(), "count is {got}, should be {}", all.len());
    let got = it.clone().rev().count();
    ensure!(got == all.len(), "rev().count() is {got}, should be {}", all.len());
    let (first, last) = (all.first().copied(), all.last().copied());
    let got = it.clone().last();
    ensure!(got == last, "last is {got:?}, should be {last:?}");
    let got = it.clone().rev().last();
    ensure!(got == first, "rev().last() is {got:?}, should be {first:?}");
    let got = it.clone().min();
    ensure!(got == first, "min is {got:?}, should be {first:?}");
    let got = it.clone().max();
    ensure!(got == last, "max is {got:?}, should be {last:?}");
    let got = it.clone().fold(vec![], |mut v, t| {
        v.push(t);
        v
    });
    ensure!(got == all, "fold visits {got:?}, should be {all:?}");
    let got = it.clone().rfold(vec![], |mut v, t| {
        v.push(t);
        v
    });
    ensure!(got == rev, "rfold visits {got:?}, should be {rev:?}");
    let mut got = vec![];
    it.clone().for_each(|t| got.push(t));
    ensure!(got == all, "for_each visits {got:?}, should be {all:?}");
    let got = it.clone().reduce(|a, b| if a <= b { b } else { a });
    ensure!(got == last, "reduce gives {got:?}, should be {last:?}");
    let (a, b) = (it.clone().min_by(|a, b| b.cmp(a)), it.clone().max_by(|a, b| b.cmp(a)));
    ensure!((a, b) == (last, first), "min_by / max_by of the reverse order give {a:?} / {b:?}, should be {last:?} / {first:?}");
    let (a, b) = (it.clone().min_by_key(|t| t.to_off()), it.clone().max_by_key(|t| t.to_off()));
    ensure!((a, b) == (first, last), "min_by_key / max_by_key give {a:?} / {b:?}, should be {first:?} / {last:?}");
    ensure!(it.clone().eq(all.iter().copied()), "eq with its own values is false");
    ensure!(!it.clone().ne(all.iter().copied()), "ne with its own values is true");
    ensure!(it.clone().cmp(all.iter().copied()).is_eq(), "cmp with its own values is not Equal");
    ensure!(!it.clone().lt(all.iter().copied()) && it.clone().le(all.iter().copied()), "lt / le with its own values are wrong");
    ensure!(it.clone().is_sorted(), "is_sorted is false");
    let half = all.len() / 2;
    let (a, b): (Vec<T>, Vec<T>) = it.clone().partition(|t| half > 0 && *t <= all[half - 1]);
    ensure!(a == all[..half] && b == all[half..], "partition gives {a:?} and {b:?}, should be the halves of {all:?}");
    let mut done = it.clone();
    done.by_ref().for_each(drop);
    for _ in 0..2 {
        let (a, b) = (done.next(), done.next_back());
        ensure!(a.is_none() && b.is_none(), "an exhausted iterator yields {a:?} / {b:?}");
        let (a, b) = (done.nth(0), done.nth_back(1));
        ensure!(a.is_none() && b.is_none(), "an exhausted iterator skips to {a:?} / {b:?}");
        ensure!(done.size_hint() == (0, Some(0)), "an exhausted iterator has size {:?}", done.size_hint());
    }
    Ok(())
}
/// Adaptors built on nth / nth_back, on clones.
fn adapt<T, I>(tape: &mut Tape, ctx: &mut Ctx, it: &I, m: &Ivs) -> Res
where
    T: Elem,
    I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone,
{
    let k = gen_skip(tape, m);
    let mut mm = m.clone();
    if k > 0 {
        mm.nth(k - 1);
    }
    let got: Vec<T> = it.clone().skip(k).take(4).collect();
    let mut mc = mm.clone();
    let want: Vec<T> = (0..4).map_while(|_| mc.next()).map(T::from_off).collect();
    note!(ctx, "  skip({k}).take(4) = {got:?}");
    ensure!(got == want, "skip({k}) yields {got:?}, should be {want:?}");
    let mut mr = m.clone();
    if k > 0 {
        mr.nth_back(k - 1);
    }
    let got: Vec<T> = it.clone().rev().skip(k).take(4).collect();
    let want: Vec<T> = (0..4).map_while(|_| mr.next_back()).map(T::from_off).collect();
    ensure!(got == want, "rev().skip({k}) yields {got:?}, should be {want:?}");
    let k = k.max(1);
    let got: Vec<T> = it.clone().step_by(k).take(4).collect();
    let mut ms = m.clone();
    let mut want = vec![];
    if let Some(f) = ms.next() {
        want.push(T::from_off(f));
        while want.len() < 4 {
            match ms.nth(k - 1) {
                Some(o) => want.push(T::from_off(o)),
                None => break,
            }
        }
    }
    ensure!(got == want, "step_by({k}) yields {got:?}, should be {want:?}");
    Ok(())
}

fn c08t<T: Elem>(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    ctx.label(T::NAME);
    if tape.bool() {
        let s = gen_spec::<T>(tape);
        let r = range_of::<T>(&s);
        let m = ivs(&[s]);
        note!(ctx, "range {r:?}");
        ctx.label_if(m.count_usize().is_none(), "more values than usize");
        if !built_right::<T>(&m, &[s], |t| r.contains(t)) {
            return Ok(());
        }
        drive(tape, ctx, r.into_iter(), m)
    } else {
        let count = tape.range(1, 7);
        let mut specs: Vec<Spec> = (0..count).map(|_| gen_spec::<T>(tape)).collect();
        if tape.chance(1, 256) {
            specs = many_specs::<T>(tape);
        }
        if tape.bool() {
            // neighbours of the first piece, so that several short pieces stay apart
            let mut at = specs[0].1 .0;
            for s in &mut specs[1..] {
                at = at.saturating_add(tape.below(5) as u128).min(T::top());
                let e = at.saturating_add(tape.below(5) as u128).min(T::top());
                *s = ((at, s.0 .1), (e, s.1 .1));
                at = e;
            }
        }
        let pieces: Vec<_> = specs.iter().map(range_of::<T>).collect();
        let set = bounded_set(&pieces, tape.below(ROUTES));
        let m = ivs(&specs);
        note!(ctx, "set {set:?}");
        ctx.label_if(m.count_usize().is_none(), "more values than usize");
        ctx.label_if(m.v.len() >= 3, "set with 3+ runs");
        ctx.label_if(m.v.len() > 64, "set with 65+ runs");
        if !built_right::<T>(&m, &specs, |t| set.contains(t)) {
            return Ok(());
        }
        drive(tape, ctx, set.into_iter(), m)
    }
}
pub fn c08(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    if tape.chance(1, 6) {
        return with_algebra_elem!(tape, ctx, T => c08e::<T>(tape, ctx));
    }
    with_elem!(tape.below(15), T => c08t::<T>(tape, ctx))
}
fn c08e<T: Elem>(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    let (u, v) = expression::<T>(tape, ctx, false);
    if !members(&u, &v) {
        return Ok(());
    }
    let m = Ivs::from(offsets(&u, &v));
    match v.any {
        Any::BoundedRange(r) => drive(tape, ctx, r.into_iter(), m),
        Any::BoundedSet(s) => drive(tape, ctx, s.into_iter(), m),
        _ => Ok(()),
    }
}

// ---------------------------------------------------------------- C09

fn drive_lower<T, I>(tape: &mut Tape, ctx: &mut Ctx, mut it: I, mut m: Ivs) -> Res
where
    T: Elem,
    I: Iterator<Item = T> + Clone,
{
    let val = |o: Option<u128>| o.map(T::from_off);
    let steps = tape.range(1, 24);
    let mut taken = 0;
    for step in 0..steps {
        if step > 0 && tape.exhausted() {
            break;
        }
        let hint = it.size_hint();
        ensure!(hint.1.is_none(), "step {step}: size_hint {hint:?} has an upper limit");
        match tape.below(9) {
            8 => {
                // methods that advance it up to a value they look for
                let mut k = tape.below(10);
                if tape.chance(1, 128) {
                    k = tape.below(20_000);
                }
                let Some(target) = m.nth(k) else { break };
                let hit = |t: T| t.to_off() >= target;
                let which = tape.below(5);
                note!(ctx, "  search {which} for the value {k} places on");
                match which {
                    0 => {
                        let got = it.find(|t| hit(*t));
                        ensure!(off(got) == Some(target), "step {step}: find gives {got:?}, should be {:?}", val(Some(target)));
                    }
                    1 => {
                        let got = it.position(hit);
                        ensure!(got == Some(k), "step {step}: position gives {got:?}, should be {k}");
                    }
                    2 => ensure!(it.any(hit), "step {step}: any gives false"),
                    3 => ensure!(!it.all(|t| !hit(t)), "step {step}: all gives true"),
                    _ => {
                        let got: Vec<T> = it.by_ref().take(k + 1).collect();
                        let ascending = got.windows(2).all(|w| w[0] < w[1]);
                        ensure!(ascending && got.len() == k + 1 && off(got.last().copied()) == Some(target), "step {step}: taking {} by reference yields {got:?}", k + 1);
                    }
                }
                taken += 1;
            }
            0..=2 => {
                if m.is_empty() {
                    continue;
                }
                let (got, want) = (it.next(), m.next());
                note!(ctx, "  next = {got:?}");
                ensure!(off(got) == want, "step {step}: next is {got:?}, should be {:?}", val(want));
                taken += 1;
            }
            3 | 4 => {
                let k = gen_skip(tape, &m);
                if m.clone().nth(k).is_none() {
                    continue;
                }
                let (got, want) = (it.nth(k), m.nth(k));
                note!(ctx, "  nth({k}) = {got:?}");
                ensure!(off(got) == want, "step {step}: nth({k}) is {got:?}, should be {:?}", val(want));
                taken += 1;
            }
            5 => {
                if m.is_empty() {
                    continue;
                }
                let got = it.clone().min();
                note!(ctx, "  min of a clone = {got:?}");
                ensure!(off(got) == m.first(), "step {step}: min is {got:?}, should be {:?}", val(m.first()));
            }
            6 => {
                let k = tape.below(12);
                let mut mc = m.clone();
                let want: Vec<T> = (0..k).map_while(|_| mc.next()).map(T::from_off).collect();
                let got: Vec<T> = it.clone().take(want.len()).collect();
                note!(ctx, "  take({}) of a clone = {got:?}", want.len());
                ensure!(got == want, "step {step}: take yields {got:?}, should be {want:?}");
            }
            _ => {
                // skip / step_by, built on nth
                let k = gen_skip(tape, &m).max(1);
                let mut mc = m.clone();
                let mut want = vec![];
                if let Some(f) = mc.next() {
                    want.push(T::from_off(f));
                    while want.len() < 4 {
                        match mc.nth(k - 1) {
                            Some(o) => want.push(T::from_off(o)),
                            None => break,
                        }
                    }
                }
                if !want.is_empty() {
                    let got: Vec<T> = it.clone().step_by(k).take(want.len()).collect();
                    note!(ctx, "  step_by({k}) of a clone = {got:?}");
                    ensure!(got == want, "step {step}: step_by({k}) yields {got:?}, should be {want:?}");
                }
                if want.len() >= 2 {
                    let got = it.clone().skip(k).next();
                    ensure!(got == Some(want[1]), "step {step}: skip({k}) starts at {got:?}, should be {:?}", want[1]);
                }
            }
        }
    }
    ctx.nontrivial = taken >= 2;
    ctx.label_if(taken >= 6, "6+ values taken");
    Ok(())
}

fn c09t<T: Elem>(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    ctx.label(T::NAME);
    let top = T::top();
    let tail = gen_off::<T>(tape);
    let tail_x = tape.bool();
    // The tail starts past the largest value: outside the property.
    if tail_x && tail == top {
        return Ok(());
    }
    let tail_spec: Spec = ((tail, tail_x), (top, true));
    let lower = LowerBoundedRange::new(if tail_x { LowerBound::excluded(T::from_off(tail)) } else { LowerBound::included(T::from_off(tail)) });
    if tape.below(3) == 0 {
        note!(ctx, "range {lower:?}");
        let m = ivs(&[tail_spec]);
        return drive_lower(tape, ctx, lower.into_iter(), m);
    }
    let count = tape.range(0, 6);
    let mut specs: Vec<Spec> = (0..count).map(|_| gen_spec::<T>(tape)).collect();
    if tape.chance(2, 3) {
        // short pieces just below the tail
        let mut at = tail;
        for s in specs.iter_mut().rev() {
            let e = at.saturating_sub(tape.below(4) as u128);
            let b = e.saturating_sub(tape.below(5) as u128);
            *s = ((b, s.0 .1), (e, s.1 .1));
            at = b;
        }
    }
    if tape.chance(1, 256) {
        specs = many_specs::<T>(tape);
    }
    let mut set: LowerBoundedSet<T> = Rangetools::to_set(lower);
    // some of the pieces as a set of their own, the others one by one
    let apart = if tape.bool() { tape.below(specs.len() + 1) } else { 0 };
    let first = tape.bool();
    for turn in [true, false] {
        if turn == first {
            for s in &specs[apart..] {
                let p = range_of::<T>(s);
                set = if tape.bool() { Rangetools::union(set, p) } else { Rangetools::union(p, set) };
            }
        } else if apart > 0 {
            let pieces: Vec<_> = specs[..apart].iter().map(range_of::<T>).collect();
            let s = bounded_set(&pieces, tape.below(ROUTES));
            set = match tape.below(4) {
                0 => Rangetools::union(set, s),
                1 => Rangetools::union(s, set),
                2 => Rangetools::union(set, Rangetools::union(s, lower)),
                _ => Rangetools::union(Rangetools::union(lower, s), set),
            };
        }
    }
    note!(ctx, "set {set:?}");
    specs.push(tail_spec);
    let mut m = ivs(&specs);
    // stop below the largest value
    if let Some(last) = m.v.back_mut() {
        if last.1 == top {
            if last.0 == top {
                m.v.pop_back();
            } else {
                last.1 = top - 1;
            }
        }
    }
    ctx.label_if(m.v.len() >= 3, "3+ runs");
    ctx.label_if(m.v.len() > 64, "65+ runs");
    let inside = |o: u128| {
        specs.iter().any(|((a, ax), (b, bx))| (*a < o || (*a == o && !ax)) && (o < *b || (o == *b && !bx)))
    };
    let right = specs.iter().flat_map(|s| [s.0 .0, s.1 .0]).all(|o| {
        (o.saturating_sub(1)..=o.saturating_add(1).min(top)).all(|p| p == top || set.contains(T::from_off(p)) == inside(p))
    });
    if !right {
        return Ok(());
    }
    drive_lower(tape, ctx, set.into_iter(), m)
}
pub fn c09(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    if tape.chance(1, 5) {
        return with_algebra_elem!(tape, ctx, T => c09e::<T>(tape, ctx));
    }
    with_elem!(tape.below(15), T => c09t::<T>(tape, ctx))
}
fn c09e<T: Elem>(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    let (u, mut v) = expression::<T>(tape, ctx, true);
    if u.touches_max() {
        // A tail that starts past the largest value is outside the property: not here.
        let i = u.n - 1;
        v = Val { any: v.any.union(Any::RangeFrom(u.at(i)..)), cells: v.cells.or(&Cells::interval(u.n, Some((i, false)), None)) };
    }
    if !members(&u, &v) {
        return Ok(());
    }
    let mut l = offsets(&u, &v);
    // from the window to the end of the type, but for the largest value
    l.retain(|(a, _)| *a != T::top());
    if !u.touches_max() {
        l.push((u.base + u.n as u128, T::top() - 1));
    }
    let m = Ivs::from(l);
    match v.any {
        Any::LowerBoundedRange(r) => drive_lower(tape, ctx, r.into_iter(), m),
        Any::LowerBoundedSet(s) => drive_lower(tape, ctx, s.into_iter(), m),
        _ => Ok(()),
    }
}
