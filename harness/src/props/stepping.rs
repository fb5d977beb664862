//! C10: stepping arithmetic.
use crate::attempt;
use crate::ctx::{Ctx, Res};
use crate::elem::Elem;
use crate::tape::Tape;
use crate::{ensure, note, with_elem};
use rangetools::Step;

/// An offset, strongly biased to boundaries.
pub fn gen_off<T: Elem>(tape: &mut Tape) -> u128 {
    let top = T::top();
    let small = |tape: &mut Tape| match tape.below(4) {
        0 => tape.below(4) as u128,
        1 => tape.below(20) as u128,
        2 => tape.below(300) as u128,
        _ => tape.below(3000) as u128,
    };
    let o = match tape.below(8) {
        0 | 1 => small(tape),
        2 | 3 => top.saturating_sub(small(tape)),
        4 | 5 if !T::landmarks().is_empty() => {
            let l = T::landmarks()[tape.below(T::landmarks().len())];
            let d = small(tape);
            if tape.bool() { l.saturating_add(d) } else { l.saturating_sub(d) }
        }
        6 => {
            // around a power of two
            let b = tape.below(128);
            let d = small(tape);
            if tape.bool() { (1u128 << b).saturating_add(d) } else { (1u128 << b).saturating_sub(d) }
        }
        _ => tape.u128() >> tape.below(128),
    };
    if o > top {
        if top == u128::MAX { o } else { o % (top + 1) }
    } else {
        o
    }
}

fn one<T: Elem>(o: u128, n: usize) -> Res {
    let v = T::from_off(o);
    let top = T::top();
    let fwd = o.checked_add(n as u128).filter(|r| *r <= top);
    let got = <T as Step>::forward_checked(v, n).map(|r| r.to_off());
    ensure!(got == fwd, "{}: {v:?} forward {n} gives offset {got:?}, should be {fwd:?}", T::NAME);
    if let Some(f) = fwd {
        let got = attempt(|| <T as Step>::forward(v, n)).map(|r| r.to_off());
        ensure!(got == Some(f), "{}: unchecked {v:?} forward {n} gives offset {got:?}, should be {f} (None: panicked)", T::NAME);
    }
    let back = o.checked_sub(n as u128);
    let got = <T as Step>::backward_checked(v, n).map(|r| r.to_off());
    ensure!(got == back, "{}: {v:?} backward {n} gives offset {got:?}, should be {back:?}", T::NAME);
    if let Some(b) = back {
        let got = attempt(|| <T as Step>::backward(v, n)).map(|r| r.to_off());
        ensure!(got == Some(b), "{}: unchecked {v:?} backward {n} gives offset {got:?}, should be {b} (None: panicked)", T::NAME);
    }
    Ok(())
}
fn between<T: Elem>(a: u128, b: u128) -> Res {
    let (x, y) = (T::from_off(a), T::from_off(b));
    let want = b.checked_sub(a).and_then(|d| usize::try_from(d).ok());
    let got = <T as Step>::steps_between(&x, &y);
    ensure!(got == want, "{}: steps from {x:?} to {y:?} is {got:?}, should be {want:?}", T::NAME);
    Ok(())
}

fn gen_count<T: Elem>(tape: &mut Tape, o: u128) -> usize {
    let d = tape.below(5) as u128;
    let around = |tape: &mut Tape, c: u128| if tape.bool() { c.saturating_add(d) } else { c.saturating_sub(d) };
    let c = match tape.below(10) {
        0 => tape.below(4) as u128,
        1 => tape.below(400) as u128,
        2 => around(tape, T::top() - o),
        3 => around(tape, o),
        4 => around(tape, T::top()),
        5 => match T::landmarks().first() {
            Some(l) => around(tape, l.abs_diff(o)),
            None => d,
        },
        6 => around(tape, 0x800),
        7 => usize::MAX as u128 - d,
        8 => {
            let b = tape.below(64);
            around(tape, 1 << b)
        }
        _ => (tape.u64() >> tape.below(64)) as u128,
    };
    usize::try_from(c).unwrap_or(usize::MAX)
}

fn case<T: Elem>(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    let o = gen_off::<T>(tape);
    let n = gen_count::<T>(tape, o);
    note!(ctx, "{}: from {:?} by {n}", T::NAME, T::from_off(o));
    let n2 = gen_count::<T>(tape, o);
    let p = gen_off::<T>(tape);
    note!(ctx, "    also by {n2}; steps between it and {:?}", T::from_off(p));
    ctx.label(T::NAME);
    let top = T::top();
    let m = n as u128;
    let near = |a: u128, b: u128| a.abs_diff(b) <= 4;
    ctx.nontrivial = n != 0
        && (near(o.saturating_add(m), top)
            || near(o, m)
            || n >= usize::MAX - 4
            || o <= 4
            || top - o <= 4
            || T::landmarks().iter().any(|l| near(*l, o.saturating_add(m)) || near(*l, o.saturating_sub(m)) || near(*l, o)));
    one::<T>(o, n)?;
    one::<T>(o, n2)?;
    between::<T>(o, p)?;
    between::<T>(p, o)?;
    between::<T>(o, o)?;
    if let Some(q) = o.checked_add(m).filter(|q| *q <= top) {
        between::<T>(o, q)?;
        between::<T>(q, o)?;
        one::<T>(q, n)?;
        if q < top {
            between::<T>(o, q + 1)?;
        }
    }
    Ok(())
}

/// One start value against every count and every end value.
fn row<T: Elem>(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    let o = tape.below(256) as u128;
    note!(ctx, "{}: {:?} by every count up to 520 and to every value", T::NAME, T::from_off(o));
    ctx.nontrivial = true;
    ctx.label("whole row");
    for n in (0..=520).chain([65535, 65536, 65537, 1 << 32, usize::MAX - 1, usize::MAX]) {
        one::<T>(o, n)?;
    }
    for p in 0..=T::top() {
        between::<T>(o, p)?;
    }
    Ok(())
}

pub fn c10(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    if tape.below(250) == 249 {
        return if tape.bool() { row::<i8>(tape, ctx) } else { row::<u8>(tape, ctx) };
    }
    let i = tape.below(20);
    let i = if i >= 15 { 4 } else { i };
    with_elem!(i, T => case::<T>(tape, ctx))
}
