//! C12: indexing, differentially against std's own.
use crate::attempt;
use crate::ctx::{Ctx, Res};
use crate::tape::Tape;
use crate::{ensure, note};
use rangetools::{BoundedRange, EmptyRange, LowerBound, LowerBoundedRange, UnboundedRange, UpperBound, UpperBoundedRange};
use std::ffi::{CStr, CString, OsString};
use std::ops::Bound;

type B = (usize, bool);
fn std_bound(b: B) -> Bound<usize> {
    if b.1 {
        Bound::Excluded(b.0)
    } else {
        Bound::Included(b.0)
    }
}
fn low(b: B) -> LowerBound<usize> {
    if b.1 {
        LowerBound::excluded(b.0)
    } else {
        LowerBound::included(b.0)
    }
}
fn upp(b: B) -> UpperBound<usize> {
    if b.1 {
        UpperBound::excluded(b.0)
    } else {
        UpperBound::included(b.0)
    }
}
/// Address and length in bytes of the selected part; None if indexing panicked.
type Sel = Option<(usize, usize)>;
fn sel<T: ?Sized>(f: impl FnOnce() -> *const T) -> Sel
where
    *const T: Part,
{
    attempt(f).map(|p| p.part())
}
trait Part {
    fn part(self) -> (usize, usize);
}
impl Part for *const str {
    fn part(self) -> (usize, usize) {
        let b = self as *const [u8];
        (b as *const u8 as usize, b.len())
    }
}
impl<T> Part for *const [T] {
    fn part(self) -> (usize, usize) {
        (self as *const T as usize, self.len())
    }
}
fn eq(what: impl FnOnce() -> String, got: Sel, want: Sel) -> Res {
    let show = |s: Sel| s.map_or("a panic".to_string(), |(p, n)| format!("{n} elements at {p:#x}"));
    ensure!(got == want, "{} selects {}, std selects {}", what(), show(got), show(want));
    Ok(())
}

fn gen_index(tape: &mut Tape, len: usize) -> usize {
    match tape.below(12) {
        0 => len,
        1 => len + 1,
        2 => usize::MAX - tape.below(3),
        3 => len.saturating_sub(1),
        4 => 0,
        _ => tape.below(len + 3),
    }
}
const TEXT: [char; 6] = ['a', 'Z', 'é', '€', '𝄞', 'ß'];

/// Reads and writes through one of the library's ranges and through std's equivalent.
macro_rules! both {
    ($what:expr, $ctx:expr, $r:expr, $std:expr, $text:expr, $items:expr) => {{
        let r = $r;
        let std: (Bound<usize>, Bound<usize>) = $std;
        let text: &String = $text;
        let items: &Vec<u16> = $items;
        let what = $what;
        note!($ctx, "  {what} on {text:?} and on {items:?}");
        eq(|| format!("{what} on String {text:?}"), sel(|| &text[r] as *const str), sel(|| &text.as_str()[std] as *const str))?;
        eq(|| format!("{what} on str {text:?}"), sel(|| &text.as_str()[r] as *const str), sel(|| &text.as_str()[std] as *const str))?;
        eq(|| format!("{what} on Vec {items:?}"), sel(|| &items[r] as *const [u16]), sel(|| &items.as_slice()[std] as *const [u16]))?;
        eq(|| format!("{what} on slice {items:?}"), sel(|| &items.as_slice()[r] as *const [u16]), sel(|| &items.as_slice()[std] as *const [u16]))?;
        // writing
        let (mut a, mut b) = (text.clone(), text.clone());
        let ra = attempt(|| { let s: &mut str = &mut a[r]; s.make_ascii_uppercase(); s.len() });
        let rb = attempt(|| { let s: &mut str = &mut b.as_mut_str()[std]; s.make_ascii_uppercase(); s.len() });
        ensure!(ra == rb && a == b, "writing {what} on String {text:?}: {ra:?} gives {a:?}, std {rb:?} gives {b:?}");
        let (mut a, mut b) = (text.clone(), text.clone());
        let ra = attempt(|| { let s: &mut str = &mut a.as_mut_str()[r]; s.make_ascii_uppercase(); s.len() });
        let rb = attempt(|| { let s: &mut str = &mut b.as_mut_str()[std]; s.make_ascii_uppercase(); s.len() });
        ensure!(ra == rb && a == b, "writing {what} on str {text:?}: {ra:?} gives {a:?}, std {rb:?} gives {b:?}");
        let (mut a, mut b) = (items.clone(), items.clone());
        let ra = attempt(|| { let s: &mut [u16] = &mut a[r]; s.fill(999); s.len() });
        let rb = attempt(|| { let s: &mut [u16] = &mut b.as_mut_slice()[std]; s.fill(999); s.len() });
        ensure!(ra == rb && a == b, "writing {what} on Vec {items:?}: {ra:?} gives {a:?}, std {rb:?} gives {b:?}");
        let (mut a, mut b) = (items.clone(), items.clone());
        let ra = attempt(|| { let s: &mut [u16] = &mut a.as_mut_slice()[r]; s.fill(999); s.len() });
        let rb = attempt(|| { let s: &mut [u16] = &mut b.as_mut_slice()[std]; s.fill(999); s.len() });
        ensure!(ra == rb && a == b, "writing {what} on slice {items:?}: {ra:?} gives {a:?}, std {rb:?} gives {b:?}");
    }};
}

/// Elements of no size: the only containers long enough for bounds near usize::MAX to be in
/// range. Some length, up to usize::MAX, and bounds around it.
fn sizeless(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    let len = match tape.below(4) {
        0 => tape.below(20),
        1 => usize::MAX / 2 + tape.below(4) - 1,
        _ => usize::MAX - tape.below(3),
    };
    let index = |tape: &mut Tape| match tape.below(6) {
        0 => tape.below(3),
        1 => usize::MAX - tape.below(3),
        2 => usize::MAX / 2 + tape.below(4) - 1,
        _ => len.saturating_add(1).saturating_sub(tape.below(4)),
    };
    let (lo, hi) = ((index(tape), tape.bool()), (index(tape), tape.bool()));
    ctx.nontrivial = len > 0;
    ctx.label("elements of no size");
    let mut items: Vec<()> = vec![];
    // SAFETY: a Vec<()> has capacity usize::MAX, and () has one value
    unsafe { items.set_len(len) };
    macro_rules! compare {
        ($r:expr, $std:expr) => {{
            let (r, std): (_, (Bound<usize>, Bound<usize>)) = ($r, $std);
            note!(ctx, "  {r:?} on {len} elements of no size");
            let what = || format!("{r:?} on {len} elements of no size");
            let want = attempt(|| items.as_slice()[std].len());
            ensure!(attempt(|| items[r].len()) == want, "{}: Vec gives {:?}, std {want:?}", what(), attempt(|| items[r].len()));
            ensure!(attempt(|| items.as_slice()[r].len()) == want, "{}: slice gives {:?}, std {want:?}", what(), attempt(|| items.as_slice()[r].len()));
            let got = attempt(|| { let s: &mut [()] = &mut items[r]; s.len() });
            ensure!(got == want, "{}: Vec for writing gives {got:?}, std {want:?}", what());
            let got = attempt(|| { let s: &mut [()] = &mut items.as_mut_slice()[r]; s.len() });
            ensure!(got == want, "{}: slice for writing gives {got:?}, std {want:?}", what());
        }};
    }
    match tape.below(5) {
        0 | 1 => compare!(BoundedRange::new(low(lo), upp(hi)), (std_bound(lo), std_bound(hi))),
        2 => compare!(LowerBoundedRange::new(low(lo)), (std_bound(lo), Bound::Unbounded)),
        3 => compare!(UpperBoundedRange::new(upp(hi)), (Bound::Unbounded, std_bound(hi))),
        _ => compare!(UnboundedRange::new(), (Bound::Unbounded, Bound::Unbounded)),
    }
    Ok(())
}

pub fn c12(tape: &mut Tape, ctx: &mut Ctx) -> Res {
    if tape.chance(1, 12) {
        return sizeless(tape, ctx);
    }
    let chars = tape.below(9);
    let mut text: String = (0..chars).map(|_| TEXT[tape.below(TEXT.len())]).collect();
    let long = tape.chance(1, 32);
    if long {
        text = text.repeat(tape.range(1, 120));
    }
    let text = text;
    // the same number of elements as the text has bytes, or some other number
    let mut len = if tape.bool() { text.len() } else { tape.below(if long { 3000 } else { 20 }) };
    if long && tape.chance(1, 64) {
        len = tape.range(4000, 70_000);
    }
    let items: Vec<u16> = (0..len).map(|i| i as u16).collect();
    let around = if tape.bool() { text.len() } else { items.len() };
    let lo: B = (gen_index(tape, around), tape.bool());
    let hi: B = {
        let i = if tape.bool() { gen_index(tape, around) } else { lo.0.saturating_add(tape.below(5)) };
        (i, tape.bool())
    };
    let kind = tape.below(8);
    ctx.nontrivial = !text.is_empty() && !items.is_empty() && kind < 6;
    ctx.label(["BoundedRange", "BoundedRange", "BoundedRange", "LowerBoundedRange", "UpperBoundedRange", "LowerBoundedRange on CStr", "UnboundedRange", "EmptyRange"][kind]);
    ctx.label_if(text.len() > 256 || items.len() > 256, "a long container");
    ctx.label_if(lo.0 >= usize::MAX - 2 || hi.0 >= usize::MAX - 2, "a bound near usize::MAX");
    match kind {
        0..=2 => {
            let r = BoundedRange::new(low(lo), upp(hi));
            both!(format!("{r:?}"), ctx, r, (std_bound(lo), std_bound(hi)), &text, &items);
        }
        3 => {
            let r = LowerBoundedRange::new(low(lo));
            both!(format!("{r:?}"), ctx, r, (std_bound(lo), Bound::Unbounded), &text, &items);
        }
        4 => {
            let r = UpperBoundedRange::new(upp(hi));
            both!(format!("{r:?}"), ctx, r, (Bound::Unbounded, std_bound(hi)), &text, &items);
        }
        5 => {
            let c = CString::new(text.as_bytes()).unwrap();
            let c: &CStr = &c;
            let r = LowerBoundedRange::new(low(lo));
            note!(ctx, "  {r:?} on {c:?}");
            let part = |c: &CStr| (c.as_ptr() as usize, c.to_bytes_with_nul().len());
            let got = attempt(|| part(&c[r]));
            let want = match (lo.0).checked_add(lo.1 as usize) {
                Some(s) => attempt(|| part(&c[s..])),
                None => None,
            };
            eq(|| format!("{r:?} on CStr {c:?}"), got, want)?;
        }
        6 => {
            let r = UnboundedRange::new();
            both!("UnboundedRange".to_string(), ctx, r, (Bound::Unbounded, Bound::Unbounded), &text, &items);
            let c = CString::new(text.as_bytes()).unwrap();
            let part = |c: &CStr| (c.as_ptr() as usize, c.to_bytes_with_nul().len());
            eq(|| format!("UnboundedRange on CString {c:?}"), attempt(|| part(&c[r])), Some(part(&c[..])))?;
            let o = OsString::from(&text);
            let part = |o: &std::ffi::OsStr| (o.as_encoded_bytes().as_ptr() as usize, o.len());
            eq(|| format!("UnboundedRange on OsString {o:?}"), attempt(|| part(&o[r])), Some(part(&o[..])))?;
            let (mut a, mut b) = (o.clone(), o.clone());
            let ra = attempt(|| a[r].make_ascii_uppercase());
            b[..].make_ascii_uppercase();
            ensure!(ra.is_some() && a == b, "writing UnboundedRange on OsString {o:?} gives {a:?}, std gives {b:?}");
        }
        _ => {
            let r = EmptyRange::<usize>::new();
            note!(ctx, "  EmptyRange on {text:?} and on {items:?}");
            // an empty part, somewhere inside the container
            let inside = |what: &str, got: Sel, base: usize, bytes: usize| -> Res {
                match got {
                    Some((p, 0)) if p >= base && p <= base + bytes => Ok(()),
                    _ => Err(format!("EmptyRange on {what} selects {got:?}, should be an empty part of it")),
                }
            };
            inside("String", sel(|| &text[r] as *const str), text.as_ptr() as usize, text.len())?;
            inside("str", sel(|| &text.as_str()[r] as *const str), text.as_ptr() as usize, text.len())?;
            inside("Vec", sel(|| &items[r] as *const [u16]), items.as_ptr() as usize, 2 * items.len())?;
            inside("slice", sel(|| &items.as_slice()[r] as *const [u16]), items.as_ptr() as usize, 2 * items.len())?;
        }
    }
    Ok(())
}
