//! C06: normal form, equality and hashing.
use crate::any::{Any, KINDS};
use crate::ctx::{Ctx, Res};
use super::algebra::window;
use crate::elem::Elem;
use crate::gen::*;
use crate::tape::Tape;
use crate::{ensure, note, with_algebra_elem};
use rangetools::{
    BoundedRange, BoundedSet, EmptyRange, LowerBound, LowerBoundedRange,
    UnboundedRange, UnboundedSet, UpperBound, UpperBoundedRange,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn hash_of<H: Hash>(h: &H) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

trait Serialized: Elem + Serialize + DeserializeOwned {}
impl<T: Elem + Serialize + DeserializeOwned> Serialized for T {}

/// The pieces a set is stored as, as far as its serialized form shows them.
struct Stored<T> {
    pieces: Vec<BoundedRange<T>>,
    lower: Vec<LowerBoundedRange<T>>,
    upper: Vec<UpperBoundedRange<T>>,
}
fn walk<T: Serialized>(v: &Value, out: &mut Stored<T>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| walk(x, out)),
        Value::Object(o) => {
            if let Ok(p) = serde_json::from_value::<BoundedRange<T>>(v.clone()) {
                out.pieces.push(p);
            } else if let Ok(p) = serde_json::from_value::<LowerBoundedRange<T>>(v.clone()) {
                out.lower.push(p);
            } else if let Ok(p) = serde_json::from_value::<UpperBoundedRange<T>>(v.clone()) {
                out.upper.push(p);
            } else {
                o.values().for_each(|x| walk(x, out));
            }
        }
        _ => {}
    }
}
/// (value, side of the value): a total order on cut points, computed here.
fn lower_cut<T: Elem>(b: LowerBound<T>) -> (u128, i8) {
    match b.to_bound() {
        rangetools::Bound::Included(v) => (v.to_off(), 0),
        rangetools::Bound::Excluded(v) => (v.to_off(), 1),
    }
}
fn upper_cut<T: Elem>(b: UpperBound<T>) -> (u128, i8) {
    match b.to_bound() {
        rangetools::Bound::Included(v) => (v.to_off(), 1),
        rangetools::Bound::Excluded(v) => (v.to_off(), 0),
    }
}
fn check_normal<T: Serialized>(what: &str, any: &Any<T>) -> Res {
    let value = match any {
        Any::BoundedSet(s) => serde_json::to_value(s),
        Any::LowerBoundedSet(s) => serde_json::to_value(s),
        Any::UpperBoundedSet(s) => serde_json::to_value(s),
        Any::UnboundedSet(s) => serde_json::to_value(s),
        _ => return Ok(()),
    };
    let Ok(value) = value else { return Ok(()) };
    let mut st = Stored::<T> { pieces: vec![], lower: vec![], upper: vec![] };
    walk(&value, &mut st);
    for p in &st.pieces {
        ensure!(lower_cut(p.start) < upper_cut(p.end), "{what}: stored piece {p:?} is empty; set is {any:?}");
    }
    for w in st.pieces.windows(2) {
        ensure!(
            upper_cut(w[0].end) <= lower_cut(w[1].start),
            "{what}: stored pieces {:?} and {:?} overlap or are out of order; set is {any:?}", w[0], w[1]
        );
    }
    for l in &st.lower {
        for p in &st.pieces {
            ensure!(
                upper_cut(p.end) <= lower_cut(l.start),
                "{what}: stored piece {p:?} overlaps the unbounded tail {l:?}; set is {any:?}"
            );
        }
        for h in &st.upper {
            ensure!(
                upper_cut(h.end) <= lower_cut(l.start),
                "{what}: the two unbounded tails overlap; set is {any:?}"
            );
        }
    }
    for h in &st.upper {
        for p in &st.pieces {
            ensure!(
                upper_cut(h.end) <= lower_cut(p.start),
                "{what}: stored piece {p:?} overlaps the unbounded tail {h:?}; set is {any:?}"
            );
        }
    }
    Ok(())
}

/// Combines the operands in a random order and grouping, some of them repeatedly.
fn evaluate<T: Serialized>(tape: &mut Tape, ctx: &mut Ctx, ops: &[Val<T>], and: bool) -> (Any<T>, Res) {
    let mut list: Vec<(String, Any<T>)> = ops.iter().enumerate().map(|(i, v)| (format!("#{i}"), v.any.clone())).collect();
    for _ in 0..tape.below(3) {
        let i = tape.below(ops.len());
        list.push((format!("#{i}"), ops[i].any.clone()));
    }
    for i in (1..list.len()).rev() {
        let j = tape.below(i + 1);
        list.swap(i, i - j);
    }
    let mut res = Ok(());
    while list.len() > 1 {
        let i = tape.below(list.len() - 1);
        let (nb, b) = list.remove(i + 1);
        let (na, a) = list.remove(i);
        let swap = tape.bool();
        let ((na, a), (nb, b)) = if swap { ((nb, b), (na, a)) } else { ((na, a), (nb, b)) };
        ctx.pairs.push((a.kind() as u8, b.kind() as u8));
        let r = if and { a.intersection(b) } else { a.union(b) };
        let name = format!("({na} {} {nb})", if and { "&" } else { "|" });
        if res.is_ok() {
            res = check_normal(&name, &r);
        }
        list.insert(i, (name, r));
    }
    let (name, r) = list.pop().unwrap();
    let r = r.to_set();
    note!(ctx, "  {name}\n    = {r:?}");
    (r, res)
}

fn same<T: Elem>(what: &str, a: &Any<T>, b: &Any<T>) -> Res {
    ensure!(a == b, "{what}: {a:?} != {b:?}");
    ensure!(b == a, "{what}: equality is not symmetric: {b:?} vs {a:?}");
    ensure!(hash_of(a) == hash_of(b), "{what}: equal but hash differently: {a:?}");
    Ok(())
}

/// Values that disagree about some member must not be equal.
fn told_apart<T: Elem>(what: &str, a: &Any<T>, b: &Any<T>, u: &Uni<T>) -> Res {
    let probes = (0..u.n).map(|i| u.at(i)).chain(u.before()).chain(u.after());
    for t in probes {
        if a.contains(t) != b.contains(t) {
            ensure!(a != b && b != a, "{what}: compare equal but only one contains {t:?}: {a:?} and {b:?}");
            break;
        }
    }
    Ok(())
}

pub fn c06(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    with_algebra_elem!(tape, ctx, T => c06t::<T>(tape, ctx))
}
fn c06t<T: Serialized>(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    const LEAVES: [usize; 12] = [11, 0, 6, 12, 13, 14, 1, 7, 8, 2, 3, 4];
    let size = gen_size(tape);
    let u = window::<T>(tape, ctx, size);
    let n = u.n;
    let and = tape.bool();
    let m = tape.range(1, 6);
    let only = tape.chance(1, 2).then(|| LEAVES[tape.below(6)]);
    let mut ops = vec![];
    for i in 0..m {
        let kind = match only {
            Some(k) if !tape.chance(1, 4) => k,
            _ => LEAVES[tape.below(LEAVES.len())],
        };
        note!(ctx, "#{i}:");
        let v = gen_kind(tape, ctx, &u, kind, size);
        check_normal(&format!("operand {}", KINDS[kind]), &v.any)?;
        ops.push(v);
    }
    let nonempty = ops.iter().filter(|v| !v.cells.is_none()).count();
    let (a, ra) = evaluate(tape, ctx, &ops, and);
    ra?;
    let (b, rb) = evaluate(tape, ctx, &ops, and);
    rb?;
    let op = if and { "intersection" } else { "union" };
    same(&format!("{op} of the same operands by two routes"), &a, &b)?;
    ensure!(a.clone() == a, "a clone is not equal: {a:?}");

    let s = a;
    let e = || Any::EmptyRange(EmptyRange::new());
    same("set union itself", &s.clone().union(s.clone()), &s)?;
    same("set intersection itself", &s.clone().intersection(s.clone()), &s)?;
    same("set union EmptyRange", &s.clone().union(e()), &s)?;
    same("EmptyRange union set", &e().union(s.clone()), &s)?;
    same("set union empty set", &s.clone().union(Any::BoundedSet(BoundedSet::empty())), &s)?;
    same("empty set union set", &Any::BoundedSet(BoundedSet::empty()).union(s.clone()), &s)?;
    if n >= 2 {
        let inv = || Any::Range(u.at(1)..u.at(0));
        same("set union inverted range", &s.clone().union(inv()), &s)?;
        same("inverted range union set", &inv().union(s.clone()), &s)?;
    }
    let all = [Any::UnboundedRange(UnboundedRange), Any::RangeFull(..), Any::UnboundedSet(UnboundedSet::Full)];
    for f in all {
        let what = format!("set intersection {}", KINDS[f.kind()]);
        same(&what, &s.clone().intersection(f.clone()), &s)?;
        let what = format!("{} intersection set", KINDS[f.kind()]);
        same(&what, &f.intersection(s.clone()), &s)?;
    }
    let comp = s.clone().complement();
    check_normal("complement", &comp)?;
    // near misses: one value more, one value less, another operand of the same type
    let p = u.at(tape.below(n));
    told_apart("set with and without one value added", &s, &s.clone().union(Any::RangeInclusive(p..=p)), &u)?;
    let rest = Any::RangeInclusive(p..=p).complement();
    told_apart("set with and without one value removed", &s, &s.clone().intersection(rest), &u)?;
    for i in 1..ops.len() {
        told_apart("two operands", &ops[i - 1].any, &ops[i].any, &u)?;
        told_apart("two operands as sets", &ops[i - 1].any.clone().to_set(), &ops[i].any.clone().to_set(), &u)?;
    }
    // ranges that differ in one bound only
    let (x, y) = (u.at(tape.below(n)), u.at(tape.below(n)));
    let lower = |e| if e { LowerBound::excluded(x) } else { LowerBound::included(x) };
    let upper = |e| if e { UpperBound::excluded(y) } else { UpperBound::included(y) };
    let bounded = |e, f| Any::BoundedRange(BoundedRange::new(lower(e), upper(f)));
    for e in [false, true] {
        for w in [
            [bounded(e, false), bounded(e, true)],
            [bounded(false, e), bounded(true, e)],
            [Any::LowerBoundedRange(LowerBoundedRange::new(lower(e))), Any::LowerBoundedRange(LowerBoundedRange::new(lower(!e)))],
            [Any::UpperBoundedRange(UpperBoundedRange::new(upper(e))), Any::UpperBoundedRange(UpperBoundedRange::new(upper(!e)))],
        ] {
            let [a, b] = w;
            told_apart("ranges with one bound flipped", &a, &b, &u)?;
            told_apart("sets of ranges with one bound flipped", &a.clone().to_set(), &b.clone().to_set(), &u)?;
            same("range and its copy", &a.clone(), &a)?;
        }
    }
    // two commuting operands given to the other operation as well
    if ops.len() >= 2 {
        let (x, y) = (&ops[0].any, &ops[1].any);
        let f = |p: &Any<T>, q: &Any<T>| if and { p.clone().union(q.clone()).to_set() } else { p.clone().intersection(q.clone()).to_set() };
        let (p, q) = (f(x, y), f(y, x));
        check_normal("pair", &p)?;
        same("two operands in either order", &p, &q)?;
    }
    let runs = if let Any::BoundedSet(_) = s { 2 } else { 1 };
    let mut cells = ops[0].cells.clone();
    for o in &ops[1..] {
        cells = if and { cells.and(&o.cells) } else { cells.or(&o.cells) };
    }
    ctx.nontrivial = nonempty >= 2 && cells.runs() >= runs;
    ctx.label_if(m >= 4, "4+ operands");
    ctx.label_if(cells.is_none(), "empty result");
    ctx.label_if(cells.runs() >= 8, "8+ runs in the result");
    Ok(())
}
