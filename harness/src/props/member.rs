//! C15: membership by the bounds, before and after widening.
use super::convert::{low, probes, upp, within, OB};
use super::iterate::{bounded_set, many_specs, ROUTES};
use super::stepping::gen_off;
use crate::ctx::{Ctx, Res};
use crate::elem::Elem;
use crate::tape::Tape;
use crate::{ensure, note, with_elem};
use rangetools::{
    BoundedRange, BoundedSet, EmptyRange, LowerBoundedRange, LowerBoundedSet, Rangetools,
    UnboundedRange, UnboundedSet, UpperBoundedRange, UpperBoundedSet,
};

fn show<T: Elem>(what: &str, form: &str, o: u128, got: bool) -> String {
    format!("{what}{form}: contains({:?}) is {got}, should be {}", T::from_off(o), !got)
}
/// One form of a value against the expectation.
macro_rules! form {
    ($T:ty, $what:expr, $form:expr, $x:expr, $ps:expr, $want:expr, $empty:expr) => {{
        let x = &$x;
        for &o in $ps.iter() {
            let got = x.contains(<$T>::from_off(o));
            if got != $want(o) {
                return Err(show::<$T>(&$what, $form, o, got));
            }
        }
        let e = Rangetools::is_empty(x);
        ensure!(e == $empty, "{}{}: is_empty() is {e}, should be {}", $what, $form, $empty);
    }};
}
/// A library range in its own, inner and set form.
macro_rules! forms {
    ($T:ty, $ctx:expr, $x:expr, $ps:expr, $want:expr, $empty:expr) => {{
        let x = $x;
        let what = format!("{}: {x:?}", <$T>::NAME);
        note!($ctx, "{what}");
        form!($T, what, "", x, $ps, $want, $empty);
        form!($T, what, " as inner", Rangetools::to_inner(x.clone()), $ps, $want, $empty);
        form!($T, what, " as set", Rangetools::to_set(x.clone()), $ps, $want, $empty);
        form!($T, what, " as inner as set", Rangetools::to_set(Rangetools::to_inner(x.clone())), $ps, $want, $empty);
        form!($T, what, " as set as inner", Rangetools::to_inner(Rangetools::to_set(x)), $ps, $want, $empty);
    }};
}
/// A std range: its own `contains` takes a reference, and is std's business.
macro_rules! std_forms {
    ($T:ty, $ctx:expr, $x:expr, $ps:expr, $want:expr, $empty:expr) => {{
        let x = $x;
        let what = format!("{}: {x:?}", <$T>::NAME);
        note!($ctx, "{what}");
        let e = Rangetools::is_empty(&x);
        ensure!(e == $empty, "{what}: is_empty() is {e}, should be {}", $empty);
        form!($T, what, " as inner", Rangetools::to_inner(x.clone()), $ps, $want, $empty);
        form!($T, what, " as set", Rangetools::to_set(x.clone()), $ps, $want, $empty);
        form!($T, what, " as inner as set", Rangetools::to_set(Rangetools::to_inner(x)), $ps, $want, $empty);
    }};
}
/// No room between the bounds (a gap between neighbours is room).
fn no_room(lo: OB, hi: OB) -> bool {
    if lo.1 || hi.1 {
        lo.0 >= hi.0
    } else {
        lo.0 > hi.0
    }
}

fn c15t<T: Elem>(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    ctx.label(T::NAME);
    let a = gen_off::<T>(tape);
    let b = match tape.below(4) {
        0 => a.saturating_add(tape.below(4) as u128).min(T::top()),
        1 => a.saturating_sub(tape.below(3) as u128),
        _ => gen_off::<T>(tape),
    };
    let (a, b) = if a > b && tape.bool() { (b, a) } else { (a, b) };
    let (lo, hi): (OB, OB) = ((a, tape.bool()), (b, tape.bool()));
    let extra = gen_off::<T>(tape);
    let ps = probes::<T>(&[a, b], extra);
    let (x, y) = (T::from_off(a), T::from_off(b));
    let kind = tape.below(18);
    let want: Box<dyn Fn(u128) -> bool>;
    match kind {
        0 => {
            let (l, h) = ((a, false), (b, true));
            want = Box::new(move |o| within(o, Some(l), Some(h)));
            std_forms!(T, ctx, x..y, ps, want, no_room(l, h));
        }
        1 | 2 => {
            let (f, k) = (tape.below(4), tape.below(3));
            let r = if kind == 1 { x..=y } else { T::iterated(x, y, f, k).unwrap_or(x..=y) };
            ctx.label_if(r.is_empty() && a <= b, "exhausted RangeInclusive");
            let (rr, e) = (r.clone(), r.is_empty());
            want = Box::new(move |o| rr.contains(&T::from_off(o)));
            std_forms!(T, ctx, r, ps, want, e);
        }
        3 => {
            want = Box::new(move |o| o >= a);
            std_forms!(T, ctx, x.., ps, want, false);
            forms!(T, ctx, LowerBoundedRange::from(x..), ps, want, false);
            form!(T, "LowerBoundedSet".to_string(), "", LowerBoundedSet::from(LowerBoundedRange::from(x..)), ps, want, false);
        }
        4 => {
            want = Box::new(move |o| o < b);
            std_forms!(T, ctx, ..y, ps, want, false);
            forms!(T, ctx, UpperBoundedRange::from(..y), ps, want, false);
            form!(T, "UpperBoundedSet".to_string(), "", UpperBoundedSet::from(UpperBoundedRange::from(..y)), ps, want, false);
        }
        5 => {
            want = Box::new(move |o| o <= b);
            std_forms!(T, ctx, ..=y, ps, want, false);
            forms!(T, ctx, UpperBoundedRange::from(..=y), ps, want, false);
        }
        6 => {
            want = Box::new(|_| true);
            std_forms!(T, ctx, .., ps, want, false);
            forms!(T, ctx, UnboundedRange::new(), ps, want, false);
            forms!(T, ctx, UnboundedSet::<T>::Full, ps, want, false);
            forms!(T, ctx, UnboundedSet::<T>::from(UnboundedRange::new()), ps, want, false);
        }
        7 => {
            want = Box::new(|_| false);
            forms!(T, ctx, EmptyRange::<T>::new(), ps, want, true);
            forms!(T, ctx, BoundedSet::<T>::empty(), ps, want, true);
        }
        8 | 9 => {
            want = Box::new(move |o| within(o, Some(lo), Some(hi)));
            let r = BoundedRange::new(low::<T>(lo), upp::<T>(hi));
            ensure!(r == BoundedRange { start: low::<T>(lo), end: upp::<T>(hi) }, "new() mixes up its bounds: {r:?}");
            forms!(T, ctx, r, ps, want, no_room(lo, hi));
            forms!(T, ctx, BoundedSet::from(r), ps, want, no_room(lo, hi));
        }
        10 => {
            want = Box::new(move |o| within(o, Some(lo), None));
            forms!(T, ctx, LowerBoundedRange::new(low::<T>(lo)), ps, want, false);
            forms!(T, ctx, LowerBoundedSet::from(LowerBoundedRange::new(low::<T>(lo))), ps, want, false);
        }
        11 => {
            want = Box::new(move |o| within(o, None, Some(hi)));
            forms!(T, ctx, UpperBoundedRange::new(upp::<T>(hi)), ps, want, false);
            forms!(T, ctx, UpperBoundedSet::from(UpperBoundedRange::new(upp::<T>(hi))), ps, want, false);
        }
        12 | 13 => {
            // the two tails in any relation to each other
            want = Box::new(move |o| within(o, None, Some(hi)) || within(o, Some(lo), None));
            let s = UnboundedSet::new(UpperBoundedRange::new(upp::<T>(hi)), LowerBoundedRange::new(low::<T>(lo)));
            forms!(T, ctx, s, ps, want, false);
        }
        _ => {
            // a set of pieces, alone or with unbounded tails
            let form = tape.below(5);
            let mut bs = vec![(lo, hi)];
            for _ in 0..tape.below(5) {
                let p = gen_off::<T>(tape);
                let q = p.saturating_add(tape.below(6) as u128).min(T::top());
                bs.push(((p, tape.bool()), (q, tape.bool())));
            }
            let many = tape.chance(1, 64);
            if many {
                bs = many_specs::<T>(tape);
            }
            let pieces: Vec<_> = bs.iter().map(|(l, h)| BoundedRange::new(low::<T>(*l), upp::<T>(*h))).collect();
            let empty = bs.iter().all(|(l, h)| no_room(*l, *h));
            let style = tape.below(2);
            let route = tape.below(ROUTES);
            // past most of the pieces, or anywhere
            let high = bs.iter().map(|p| p.1 .0).max().unwrap_or(0);
            let low_end = bs.iter().map(|p| p.0 .0).min().unwrap_or(0);
            let gap = tape.below(3) as u128;
            let far = tape.chance(3, 4);
            let (tl, tu) = if far {
                (high.saturating_add(gap).min(T::top()), low_end.saturating_sub(gap))
            } else {
                (gen_off::<T>(tape), gen_off::<T>(tape))
            };
            let (tl, tu): (OB, OB) = ((tl, tape.bool()), (tu, tape.bool()));
            let mut bounds: Vec<u128> = bs.iter().flat_map(|(l, h)| [l.0, h.0]).collect();
            bounds.extend([tl.0, tu.0]);
            let ps = probes::<T>(&bounds, extra);
            let s = bounded_set(&pieces, route);
            let lower = LowerBoundedRange::new(low::<T>(tl));
            let upper = UpperBoundedRange::new(upp::<T>(tu));
            let has_lower = matches!(form, 1 | 3);
            let has_upper = matches!(form, 2 | 3);
            let count = bs.len();
            want = Box::new(move |o| {
                bs.iter().any(|(l, h)| within(o, Some(*l), Some(*h)))
                    || (has_lower && within(o, Some(tl), None))
                    || (has_upper && within(o, None, Some(tu)))
            });
            ctx.label(["pieces", "pieces and a lower-bounded tail", "pieces and an upper-bounded tail", "pieces and both tails", "pieces"][form]);
            ctx.label_if(count > 64, "65+ pieces");
            match form {
                1 if style == 0 => forms!(T, ctx, Rangetools::union(s, lower), ps, want, false),
                1 => forms!(T, ctx, Rangetools::union(lower, s), ps, want, false),
                2 if style == 0 => forms!(T, ctx, Rangetools::union(s, upper), ps, want, false),
                2 => forms!(T, ctx, Rangetools::union(upper, s), ps, want, false),
                3 => {
                    let w = Rangetools::union(Rangetools::union(s, lower), upper);
                    if let UnboundedSet::Piecewise(p) = &w {
                        for &o in ps.iter() {
                            let got = p.contains(T::from_off(o));
                            ensure!(got == want(o), "{}", show::<T>(&format!("{p:?}"), " (piecewise)", o, got));
                        }
                    }
                    forms!(T, ctx, w, ps, want, false)
                }
                _ => forms!(T, ctx, s, ps, want, empty),
            }
        }
    }
    ctx.nontrivial = ps.iter().any(|o| want(*o)) && ps.iter().any(|o| !want(*o));
    Ok(())
}
pub fn c15(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    with_elem!(tape.below(15), T => c15t::<T>(tape, ctx))
}
