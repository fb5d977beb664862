//! C01..C04: single operations against the cell model.
use crate::any::{Any, KINDS};
use crate::ctx::{Ctx, Res};
use crate::elem::Elem;
use crate::gen::*;
use crate::model::Cells;
use crate::tape::Tape;
use crate::{ensure, note};
use rangetools::{EmptyRange, UnboundedRange, UnboundedSet};

pub fn window<T: Elem>(tape: &mut Tape, ctx: &mut Ctx, size: Size) -> Uni<T> {
    let n = gen_n(tape, size);
    placed(tape, ctx, n)
}
fn placed<T: Elem>(tape: &mut Tape, ctx: &mut Ctx, n: usize) -> Uni<T> {
    let u = if tape.bool() { Uni::middle(n) } else { Uni::anywhere(tape, n) };
    note!(ctx, "window: {}", u.describe());
    u
}

/// Sends a set through other operations that leave its values alone.
fn reroute<T: Elem>(tape: &mut Tape, ctx: &mut Ctx, v: Val<T>, u: &Uni<T>) -> Val<T> {
    if v.any.kind() < 11 || v.cells.runs() > 64 || !tape.chance(1, 4) {
        return v;
    }
    let Val { any, cells } = v;
    let (any, cells) = match tape.below(6) {
        0 => (any.complement().complement(), cells),
        1 => (any.intersection(Any::UnboundedRange(UnboundedRange)), cells),
        2 => (any.intersection(Any::UnboundedSet(UnboundedSet::Full)), cells),
        3 => (any.union(Any::EmptyRange(EmptyRange::new())), cells),
        4 => {
            // into two halves and back: leaves touching pieces behind
            let i = tape.below(u.n);
            let lo = any.clone().intersection(Any::RangeTo(..u.at(i)));
            let hi = any.intersection(Any::RangeFrom(u.at(i)..));
            (lo.union(hi), cells)
        }
        _ => {
            let p = gen_piece(tape, u.n, false);
            let w = piece_val(tape, u, p);
            let c = w.cells.not();
            (any.intersection(w.any.complement()), cells.and(&c))
        }
    };
    note!(ctx, "    rerouted: {any:?}");
    Val { any, cells }
}

pub fn operand<T: Elem>(tape: &mut Tape, ctx: &mut Ctx, u: &Uni<T>, size: Size) -> Val<T> {
    let kind = gen_which(tape, size);
    let v = gen_kind(tape, ctx, u, kind, size);
    reroute(tape, ctx, v, u)
}
/// The other operand: mostly independent, sometimes derived from the first, so that bounds
/// coincide all along both.
fn partner<T: Elem>(tape: &mut Tape, ctx: &mut Ctx, u: &Uni<T>, size: Size, a: &Val<T>) -> Val<T> {
    if !tape.chance(1, 6) {
        return operand(tape, ctx, u, size);
    }
    ctx.label("operands are related");
    let v = a.clone();
    let v = match tape.below(6) {
        0 => v,
        1 => Val { any: v.any.to_set(), cells: v.cells },
        2 if u.n < 2000 => Val { any: v.any.complement(), cells: v.cells.not() },
        3 | 4 => {
            // with a piece more
            let p = gen_piece(tape, u.n, true);
            let p = piece_val(tape, u, p);
            Val { any: v.any.union(p.any), cells: v.cells.or(&p.cells) }
        }
        _ => {
            // with a piece less
            let p = gen_piece(tape, u.n, true);
            let p = piece_val(tape, u, p);
            Val { any: v.any.intersection(p.any.complement()), cells: v.cells.and(&p.cells.not()) }
        }
    };
    note!(ctx, "  related: {:?}", v.any);
    v
}
fn proper(c: &Cells) -> bool {
    !c.is_none() && !c.not().is_none()
}
fn labels<T: Elem>(ctx: &mut Ctx, a: &Val<T>, b: &Val<T>, u: &Uni<T>) {
    ctx.pairs.push((a.any.kind() as u8, b.any.kind() as u8));
    ctx.label_if(a.cells.is_none() || b.cells.is_none(), "an operand is empty");
    ctx.label_if(a.cells.runs() >= 3 && b.cells.runs() >= 3, "both operands have 3+ runs");
    ctx.label_if(a.cells.runs() >= 16 || b.cells.runs() >= 16, "an operand has 16+ runs");
    ctx.label_if(a.cells.runs() > 64 || b.cells.runs() > 64, "an operand has 65+ runs");
    ctx.label_if(a.cells.runs() > 300 || b.cells.runs() > 300, "an operand has 301+ runs");
    ctx.label_if(u.touches_min() || u.touches_max(), "window at an end of the type");
    ctx.label_if(!a.cells.and(&b.cells).is_none(), "operands overlap");
}

fn binary<T: Elem>(tape: &mut Tape, ctx: &mut Ctx, and: bool) -> Res {
    let size = gen_size(tape);
    let n = gen_big_n(tape, size);
    let u = placed::<T>(tape, ctx, n);
    let a = operand(tape, ctx, &u, size);
    let b = partner(tape, ctx, &u, size, &a);
    labels(ctx, &a, &b, &u);
    ctx.nontrivial = proper(&a.cells) && proper(&b.cells);
    let cells = if and { a.cells.and(&b.cells) } else { a.cells.or(&b.cells) };
    let good = agrees(&a.any, &a.cells, &u) && agrees(&b.any, &b.cells, &u);
    if !and {
        // operands were themselves built by union
        for v in [&a, &b] {
            verify("operand built by union", &v.any, &v.cells, &u)?;
        }
    }
    let (sa, sb) = (look(&a.any, &u), look(&b.any, &u));
    let f = |x: bool, y: bool| if and { x && y } else { x || y };
    for (x, y) in [(&a, &b), (&b, &a)] {
        let op = if and { "intersection" } else { "union" };
        let what = format!("{} {op} {}", KINDS[x.any.kind()], KINDS[y.any.kind()]);
        let r = if and {
            x.any.clone().intersection(y.any.clone())
        } else {
            x.any.clone().union(y.any.clone())
        };
        note!(ctx, "  {what} = {r:?}");
        points(&what, &r, &u, |i| f(sa.at[i], sb.at[i]), f(sa.below, sb.below), f(sa.above, sb.above))?;
        if good {
            verify(&what, &r, &cells, &u)?;
        }
    }
    Ok(())
}
/// The user-defined type mostly, and u8: small enough for a window to be all of it, and std
/// iterates it, so that operands include partly and fully iterated `RangeInclusive`s.
#[macro_export]
macro_rules! with_algebra_elem {
    ($tape:expr, $ctx:expr, $T:ident => $body:expr) => {
        if $tape.chance(1, 5) {
            type $T = u8;
            $ctx.label("u8");
            $body
        } else {
            type $T = $crate::elem::K;
            $body
        }
    };
}
pub fn c01(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    with_algebra_elem!(tape, ctx, T => binary::<T>(tape, ctx, true))
}
pub fn c02(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    with_algebra_elem!(tape, ctx, T => binary::<T>(tape, ctx, false))
}
pub fn c03(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    with_algebra_elem!(tape, ctx, T => c03t::<T>(tape, ctx))
}
pub fn c04(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    with_algebra_elem!(tape, ctx, T => c04t::<T>(tape, ctx))
}

fn c03t<T: Elem>(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    let size = gen_size(tape);
    let u = window::<T>(tape, ctx, size);
    let a = operand(tape, ctx, &u, size);
    ctx.nontrivial = proper(&a.cells);
    ctx.pairs.push((a.any.kind() as u8, 0));
    ctx.label_if(a.cells.runs() >= 3, "3+ runs");
    ctx.label_if(a.cells.runs() >= 16, "16+ runs");
    ctx.label_if(a.cells.runs() > 64, "65+ runs");
    ctx.label_if(u.touches_min() || u.touches_max(), "window at an end of the type");
    let good = agrees(&a.any, &a.cells, &u);
    let s = look(&a.any, &u);
    let c = a.any.clone().complement();
    note!(ctx, "  complement = {c:?}");
    let what = format!("complement of {}", KINDS[a.any.kind()]);
    points(&what, &c, &u, |i| !s.at[i], !s.below, !s.above)?;
    if good {
        verify(&what, &c, &a.cells.not(), &u)?;
    }
    let cc = c.clone().complement();
    note!(ctx, "  twice = {cc:?}");
    let what = format!("double complement of {}", KINDS[a.any.kind()]);
    points(&what, &cc, &u, |i| s.at[i], s.below, s.above)?;
    if good {
        verify(&what, &cc, &a.cells, &u)?;
    }
    Ok(())
}

fn c04t<T: Elem>(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    let size = gen_size(tape);
    let n = gen_big_n(tape, size);
    let u = placed::<T>(tape, ctx, n);
    let a = operand(tape, ctx, &u, size);
    let b = partner(tape, ctx, &u, size, &a);
    labels(ctx, &a, &b, &u);
    ctx.nontrivial = (proper(&a.cells) && !b.cells.not().is_none()) || (proper(&b.cells) && !a.cells.not().is_none());
    let mut good = true;
    for v in [&a, &b] {
        let s = look(&v.any, &u);
        let e = v.any.is_empty();
        let some = s.at.iter().any(|x| *x) || s.below || s.above;
        ensure!(!(e && some), "{} reports itself empty but contains values: {:?}", KINDS[v.any.kind()], v.any);
        let ok = points("", &v.any, &u, |i| v.cells.has(i), v.cells.below(), v.cells.above()).is_ok();
        good &= ok;
        if ok {
            ensure!(
                e == v.cells.is_none(),
                "{}: is_empty() is {e}, should be {}; value is {:?}", KINDS[v.any.kind()], v.cells.is_none(), v.any
            );
        }
    }
    let both = a.cells.and(&b.cells);
    let (sa, sb) = (look(&a.any, &u), look(&b.any, &u));
    let shared = (0..u.n).any(|i| sa.at[i] && sb.at[i]) || (sa.below && sb.below) || (sa.above && sb.above);
    for (x, y) in [(&a, &b), (&b, &a)] {
        let what = format!("{} / {}", KINDS[x.any.kind()], KINDS[y.any.kind()]);
        let d = x.any.clone().disjoint(y.any.clone());
        let i = x.any.clone().intersects(y.any.clone());
        note!(ctx, "  {what}: disjoint={d} intersects={i}");
        ensure!(d != i, "{what}: disjoint and intersects are both {d}: {:?} / {:?}", x.any, y.any);
        ensure!(!(d && shared), "{what}: called disjoint but share a value: {:?} / {:?}", x.any, y.any);
        let e = x.any.clone().intersection(y.any.clone()).is_empty();
        ensure!(d == e, "{what}: disjoint is {d}, intersection().is_empty() is {e}: {:?} / {:?}", x.any, y.any);
        if good {
            ensure!(
                d == both.is_none(),
                "{what}: disjoint is {d}, should be {}: {:?} / {:?}", both.is_none(), x.any, y.any
            );
        }
    }
    Ok(())
}
