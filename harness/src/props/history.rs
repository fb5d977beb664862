//! C05: long histories over a pool of values of mixed types.
use crate::any::KINDS;
use crate::ctx::{Ctx, Res};
use super::algebra::window;
use crate::elem::Elem;
use crate::gen::*;
use crate::{note, with_algebra_elem};
use crate::tape::Tape;

pub fn c05(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    with_algebra_elem!(tape, ctx, T => c05t::<T>(tape, ctx))
}
fn c05t<T: Elem>(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    let size = gen_size(tape);
    let u = window::<T>(tape, ctx, size);
    let mut pool: Vec<Val<T>> = vec![];
    for _ in 0..tape.range(1, 4) {
        let kind = gen_which(tape, size);
        let v = gen_kind(tape, ctx, &u, kind, size);
        verify(&format!("leaf {}", KINDS[kind]), &v.any, &v.cells, &u)?;
        pool.push(v);
    }
    let steps = if tape.chance(1, 64) { tape.range(40, 250) } else { tape.range(1, 40) };
    let mut interesting = 0;
    let mut step = 0;
    while step < steps && !tape.exhausted() {
        step += 1;
        let i = tape.below(pool.len());
        let op = tape.below(10);
        let (what, v) = match op {
            0..=5 => {
                let j = tape.below(pool.len());
                let (x, y) = (pool[i].clone(), pool[j].clone());
                ctx.pairs.push((x.any.kind() as u8, y.any.kind() as u8));
                let (name, any, cells) = if op % 2 == 0 {
                    ("union", x.any.union(y.any), x.cells.or(&y.cells))
                } else {
                    ("intersection", x.any.intersection(y.any), x.cells.and(&y.cells))
                };
                (format!("#{i} {name} #{j}"), Val { any, cells })
            }
            6 | 7 => {
                let x = pool[i].clone();
                let c = x.cells.not();
                (format!("complement of #{i}"), Val { any: x.any.complement(), cells: c })
            }
            8 => {
                let x = pool[i].clone();
                if tape.bool() {
                    (format!("to_inner of #{i}"), Val { any: x.any.to_inner(), cells: x.cells })
                } else {
                    (format!("to_set of #{i}"), Val { any: x.any.to_set(), cells: x.cells })
                }
            }
            _ => {
                let kind = tape.below(15);
                ("leaf".to_string(), gen_kind(tape, ctx, &u, kind, Size::Small))
            }
        };
        let what = format!("step {step} ({what})");
        note!(ctx, "  {what} = {:?}", v.any);
        verify(&what, &v.any, &v.cells, &u)?;
        if !v.cells.is_none() && !v.cells.not().is_none() {
            interesting += 1;
        }
        if v.cells.runs() > if size == Size::Huge { 150 } else { 40 } {
            continue;
        }
        // Pieces that touch stay separate: keep unmerged histories from blowing up.
        if pool.len() < 6 {
            note!(ctx, "    -> #{}", pool.len());
            pool.push(v);
        } else {
            let k = tape.below(pool.len());
            note!(ctx, "    -> #{k}");
            pool[k] = v;
        }
    }
    ctx.label_if(step >= 10, "10+ steps");
    ctx.label_if(step >= 30, "30+ steps");
    ctx.label_if(step >= 100, "100+ steps");
    ctx.label_if(pool.iter().any(|v| v.cells.runs() > 64), "a value with 65+ runs");
    ctx.nontrivial = interesting >= 3;
    Ok(())
}
