//! C16: sets of very many pieces, on a small stack.
use crate::any::Any;
use crate::ctx::{Ctx, Res};
use crate::elem::{refuel, CASE_FUEL, K};
use crate::gen::*;
use crate::model::Cells;
use crate::tape::Tape;
use crate::{ensure, note};
use rangetools::{BoundedRange, BoundedSet, LowerBoundedRange, UpperBoundedRange};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub const STACK: usize = 192 << 10;

struct Comb {
    any: Any<K>,
    cells: Cells,
    pieces: usize,
}
/// `count` pieces, one every `period` values, added in some order.
fn comb(tape: &mut Tape, ctx: &mut Ctx, u: &Uni<K>, count: usize) -> Comb {
    let period = (u.n - 4) / count;
    let start = tape.below(period);
    let width = tape.below(period);
    let (lx, hx) = (tape.bool(), tape.bool());
    let order = tape.below(4);
    let mut idx: Vec<usize> = (0..count).collect();
    match order {
        0 => {}
        1 => idx.reverse(),
        2 => idx.rotate_left(count / 2),
        _ => idx.sort_by_key(|i| i.wrapping_mul(0x9E3779B1) % 4096),
    }
    let mut cells = Cells::none(u.n);
    let mut any: Option<Any<K>> = None;
    let mut pieces = 0;
    for i in idx {
        let lo = (start + i * period, lx);
        let hi = (start + i * period + width, hx);
        // room between the bounds?
        if 2 * lo.0 + lo.1 as usize + 1 > 2 * hi.0 + 1 - hi.1 as usize {
            continue;
        }
        pieces += 1;
        cells.set(lo, hi);
        let p = Any::BoundedRange(BoundedRange::new(lb(u, lo), ub(u, hi)));
        any = Some(match any {
            None => p.to_set(),
            Some(s) => s.union(p),
        });
    }
    let any = any.unwrap_or_else(|| Any::BoundedSet(BoundedSet::empty()));
    note!(ctx, "  {pieces} pieces of width {width} (exclusive {lx},{hx}) every {period} from {start}, order {order}");
    Comb { any, cells, pieces }
}

/// Backwards, skipping, counting.
fn other_ways(what: &str, want: &[K], s: &BoundedSet<K>) -> Res {
    let n = want.len();
    let it = || s.clone().into_iter();
    let mut got: Vec<K> = it().rev().take(n + 2).collect();
    got.reverse();
    ensure!(got == want, "{what}: reversed iterates {} values, should be {n}, or others", got.len());
    ensure!(it().size_hint() == (n, Some(n)) && it().count() == n, "{what}: size_hint {:?}, count {}, should be {n}", it().size_hint(), it().count());
    ensure!(it().last() == want.last().copied() && it().max() == want.last().copied(), "{what}: last {:?}, max {:?}, should be {:?}", it().last(), it().max(), want.last());
    ensure!(it().min() == want.first().copied(), "{what}: min {:?}, should be {:?}", it().min(), want.first());
    for k in [n / 3, n.saturating_sub(1), n] {
        let (mut f, mut b) = (it(), it());
        let (x, y) = (f.nth(k), b.nth_back(k));
        let (p, q) = (want.get(k).copied(), want.iter().rev().nth(k).copied());
        ensure!(x == p && y == q, "{what}: nth({k}) {x:?}, nth_back({k}) {y:?}, should be {p:?} and {q:?}");
        let left = n.saturating_sub(k + 1);
        ensure!(f.len() == left && b.len() == left, "{what}: {} and {} values left after skipping {k}, should be {left}", f.len(), b.len());
        let (x, y) = (f.next(), b.next_back());
        let (p, q) = (want.get(k + 1).copied(), want.iter().rev().nth(k + 1).copied());
        ensure!(x == p && y == q, "{what}: next after nth({k}) {x:?}, next_back after nth_back({k}) {y:?}, should be {p:?} and {q:?}");
    }
    let (mut sum, mut seen) = (0i64, 0);
    it().for_each(|k| {
        sum = sum.wrapping_add(k.0 as i64 * (seen + 1));
        seen += 1;
    });
    let total = want.iter().enumerate().fold(0i64, |s, (i, k)| s.wrapping_add(k.0 as i64 * (i as i64 + 1)));
    ensure!(seen as usize == n && sum == total, "{what}: for_each sees {seen} values, should be {n}, or others");
    Ok(())
}

/// All values, by iteration of the part inside the window, and some memberships.
fn verify_large(what: &str, any: &Any<K>, cells: &Cells, u: &Uni<K>) -> Res {
    let want: Vec<K> = cells.points().into_iter().map(|i| u.at(i)).collect();
    let inside = if matches!(any.kind(), 11 | 6 | 10) {
        any.clone()
    } else {
        any.clone().intersection(Any::RangeInclusive(u.at(0)..=u.at(u.n - 1)))
    };
    match &inside {
        Any::BoundedSet(s) => other_ways(what, &want, s)?,
        Any::BoundedRange(_) | Any::EmptyRange(_) => {}
        _ => return Err("harness: not bounded".into()),
    }
    let got = inside.iterate(want.len() + 2).ok_or("harness: not iterable")?;
    if got != want {
        let at = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "{what}: iterates {} values, should be {}; first difference at position {at}: {:?} vs {:?}",
            got.len(), want.len(), got.get(at), want.get(at)
        ));
    }
    let stride = (u.n / 97).max(1);
    for i in (0..u.n).step_by(stride).chain([1, 2, 3, u.n - 1, u.n - 2]) {
        let (g, w) = (any.contains(u.at(i)), cells.has(i));
        ensure!(g == w, "{what}: contains({:?}) is {g}, should be {w}", u.at(i));
    }
    let (g, w) = (any.contains(u.before().unwrap()), cells.below());
    ensure!(g == w, "{what}: contains a value below the window is {g}");
    let (g, w) = (any.contains(u.after().unwrap()), cells.above());
    ensure!(g == w, "{what}: contains a value above the window is {g}");
    ensure!(any.is_empty() == cells.is_none(), "{what}: is_empty is {}", any.is_empty());
    Ok(())
}

fn body(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    let op = tape.below(11);
    let count = match op {
        7 => tape.range(20, 400),
        3 | 6 | 10 => tape.range(500, 2500),
        _ => tape.range(500, if crate::PLAIN { 5000 } else { 9000 }),
    };
    let period = tape.range(2, 5);
    let u: Uni<K> = Uni::middle(count * period + 8);
    let a = comb(tape, ctx, &u, count);
    ctx.nontrivial = a.pieces >= if op == 7 { 100 } else { 500 };
    ctx.label_if(a.pieces >= 4000, "4000+ pieces");
    verify_large("comb", &a.any, &a.cells, &u)?;
    let n = u.n;
    match op {
        0 | 1 => {
            // one range across (most of) the pieces
            let lo = (tape.below(n / 4), tape.bool());
            let hi = (n - 1 - tape.below(n / 4), tape.bool());
            note!(ctx, "  united with one range over values {lo:?}..{hi:?} of {n}");
            ctx.label("merge across pieces");
            let r = Any::BoundedRange(BoundedRange::new(lb(&u, lo), ub(&u, hi)));
            let c = a.cells.or(&Cells::interval(n, Some(lo), Some(hi)));
            let x = if op == 0 { a.any.union(r) } else { r.union(a.any) };
            verify_large("comb union range", &x, &c, &u)
        }
        2 => {
            ctx.label("union of two large sets");
            let b = comb(tape, ctx, &u, count);
            let c = a.cells.or(&b.cells);
            verify_large("comb union comb", &a.any.union(b.any), &c, &u)
        }
        3 => {
            ctx.label("intersection of two large sets");
            let b = comb(tape, ctx, &u, count);
            let c = a.cells.and(&b.cells);
            let d = a.any.clone().disjoint(b.any.clone());
            ensure!(d == c.is_none(), "large sets: disjoint is {d}");
            verify_large("comb intersection comb", &a.any.intersection(b.any), &c, &u)
        }
        4 | 5 => {
            // an unbounded tail swallowing many pieces
            let mut at = (tape.below(n), tape.bool());
            if tape.bool() {
                // nearly all of them
                at.0 = if op == 4 { at.0 / 8 } else { n - 1 - at.0 / 8 };
            }
            let (r, c) = if op == 4 {
                (Any::LowerBoundedRange(LowerBoundedRange::new(lb(&u, at))), Cells::interval(n, Some(at), None))
            } else {
                (Any::UpperBoundedRange(UpperBoundedRange::new(ub(&u, at))), Cells::interval(n, None, Some(at)))
            };
            note!(ctx, "  united with {r:?}");
            ctx.label("merge into an unbounded tail");
            let keep_late = tape.bool();
            if keep_late {
                // first a tail far away, then the swallowing one
                let far = if op == 4 { Any::RangeFrom(u.at(n - 1)..) } else { Any::RangeTo(..u.at(0)) };
                let fc = if op == 4 { Cells::interval(n, Some((n - 1, false)), None) } else { Cells::interval(n, None, Some((0, true))) };
                let x = a.any.union(far).union(r);
                verify_large("comb union far tail union tail", &x, &a.cells.or(&fc).or(&c), &u)
            } else {
                verify_large("comb union tail", &a.any.union(r), &a.cells.or(&c), &u)
            }
        }
        6 => {
            // both tails, then each moved across the pieces
            ctx.label("merge into both tails");
            let far = a.any.union(Any::RangeTo(..u.at(0))).union(Any::RangeFrom(u.at(n - 1)..));
            let mut c = a.cells.or(&Cells::interval(n, None, Some((0, true)))).or(&Cells::interval(n, Some((n - 1, false)), None));
            verify_large("comb with two tails", &far, &c, &u)?;
            let mut i = tape.below(n);
            let mut j = tape.below(n);
            match tape.below(4) {
                0 => j /= 8,
                1 => i = n - 1 - i / 8,
                _ => {}
            }
            note!(ctx, "  with both tails, united with ..value {i} and value {j}..");
            c = c.or(&Cells::interval(n, None, Some((i, true)))).or(&Cells::interval(n, Some((j, false)), None));
            let x = far.union(Any::RangeTo(..u.at(i))).union(Any::RangeFrom(u.at(j)..));
            verify_large("comb with two moved tails", &x, &c, &u)
        }
        8 => {
            // cut by a range or a tail
            ctx.label("large set cut");
            let lo = tape.bool().then(|| (tape.below(n), tape.bool()));
            let hi = (lo.is_none() || tape.bool()).then(|| (tape.below(n), tape.bool()));
            let r = match (lo, hi) {
                (Some(lo), Some(hi)) => Any::BoundedRange(BoundedRange::new(lb(&u, lo), ub(&u, hi))),
                (Some(lo), None) => Any::LowerBoundedRange(LowerBoundedRange::new(lb(&u, lo))),
                (None, hi) => Any::UpperBoundedRange(UpperBoundedRange::new(ub(&u, hi.unwrap()))),
            };
            note!(ctx, "  cut by {r:?}");
            let c = a.cells.and(&Cells::interval(n, lo, hi));
            let d = a.any.clone().disjoint(r.clone());
            ensure!(d == c.is_none(), "large set and {r:?}: disjoint is {d}");
            let x = if tape.bool() { a.any.intersection(r) } else { r.intersection(a.any) };
            verify_large("comb cut", &x, &c, &u)
        }
        9 => {
            // pieces below a tail, iterated
            ctx.label("large lower-bounded set iterated");
            let x = a.any.union(Any::RangeFrom(u.at(n - 1)..));
            let Any::LowerBoundedSet(s) = &x else { return Err("harness: not lower-bounded".into()) };
            let c = a.cells.or(&Cells::interval(n, Some((n - 1, false)), None));
            let mut want: Vec<K> = c.points().into_iter().map(|i| u.at(i)).collect();
            let end = u.at(n - 1).0;
            want.extend((1..10).map(|i| K(end + i)));
            let got: Vec<K> = s.clone().into_iter().take(want.len()).collect();
            ensure!(got == want, "lower-bounded comb iterates {} values, {} wanted, or others", got.len(), want.len());
            let k = tape.below(want.len());
            let mut it = s.clone().into_iter();
            let (x, y) = (it.nth(k), it.next());
            note!(ctx, "  nth({k}) of {} values below the tail", want.len() - 10);
            ensure!(x == Some(want[k]), "lower-bounded comb: nth({k}) is {x:?}, should be {:?}", want[k]);
            let next = want.get(k + 1).copied().unwrap_or(K(end + 10));
            ensure!(y == Some(next), "lower-bounded comb: next after nth({k}) is {y:?}, should be {next:?}");
            Ok(())
        }
        10 => {
            // the same pieces united one by one in another order, and as two halves
            ctx.label("large set rebuilt");
            let lower = Any::UpperBoundedRange(UpperBoundedRange::new(ub(&u, (n / 2, true))));
            let mut same: Vec<Any<K>> = vec![];
            let Any::BoundedSet(s) = &a.any else { return Ok(()) };
            let whole = Any::BoundedRange(BoundedRange::new(lb(&u, (0, false)), ub(&u, (n - 1, false))));
            same.push(a.any.clone().union(a.any.clone()));
            same.push(a.any.clone().intersection(whole));
            same.push(a.any.clone().intersection(a.any.clone()));
            let part = a.any.clone().intersection(lower.clone());
            same.push(part.union(a.any.clone()));
            let h = |x: &Any<K>| {
                let mut h = DefaultHasher::new();
                x.hash(&mut h);
                h.finish()
            };
            for (i, x) in same.iter().enumerate() {
                ensure!(*x == a.any && h(x) == h(&a.any), "large set rebuilt in way {i} compares or hashes differently");
            }
            let text = serde_json::to_string(s).map_err(|e| e.to_string())?;
            let back: BoundedSet<K> = serde_json::from_str(&text).map_err(|e| e.to_string())?;
            ensure!(back == *s, "large set: not equal after JSON");
            if let Some(&i) = a.cells.points().get(tape.below(count)) {
                // one value less
                let hole = Any::RangeInclusive(u.at(i)..=u.at(i)).complement();
                let x = a.any.clone().intersection(hole);
                ensure!(x != a.any, "large set without {:?} compares equal", u.at(i));
            }
            Ok(())
        }
        _ => {
            ctx.label("complement of a large set");
            let c = a.any.clone().complement();
            verify_large("complement of comb", &c, &a.cells.not(), &u)?;
            let cc = c.complement();
            verify_large("double complement of comb", &cc, &a.cells, &u)
        }
    }
}

pub fn c16(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || {
            refuel(CASE_FUEL);
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(tape, ctx))) {
                Ok(r) => r,
                Err(_) => Err(format!("panicked: {}", crate::last_panic())),
            }
        });
        h.expect("harness: thread").join().unwrap_or_else(|_| Err("panicked".into()))
    })
}
