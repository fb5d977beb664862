mod algebra;
mod bounds;
mod convert;
mod equality;
mod history;
mod index;
mod iterate;
mod large;
mod member;
mod roundtrip;
mod stepping;

use crate::ctx::{Ctx, Res};
use crate::tape::Tape;

pub struct Prop {
    pub id: &'static str,
    /// Cases per profile in the quick and thorough tiers.
    pub quick: usize,
    pub thorough: usize,
    /// Longest tape of the small / medium / large phase.
    pub tapes: [usize; 3],
    pub rule: &'static str,
    check: fn(&mut Tape, &mut Ctx) -> Res,
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01", quick: 5_000_000, thorough: 65_000_000, tapes: [80, 200, 700],
        rule: "two operands of random types among the 15 (sets built from up to 64, rarely 300, overlapping/touching/empty pieces in random order and association, some re-routed through complement or intersection; one case in five over u8, with iterated RangeInclusives; the second operand one time in six derived from the first), intersected in both orders; non-trivial: both operands are non-empty and neither is everything; distinct by decoded choices",
        check: algebra::c01,
    },
    Prop {
        id: "C02", quick: 5_000_000, thorough: 55_000_000, tapes: [80, 200, 700],
        rule: "two operands of random types among the 15 (as for C01), united in both orders; non-trivial: both operands are non-empty and neither is everything; distinct by decoded choices",
        check: algebra::c02,
    },
    Prop {
        id: "C03", quick: 3_750_000, thorough: 27_000_000, tapes: [64, 160, 500],
        rule: "one operand of a random type among the 15, complemented once and twice; non-trivial: the operand is neither empty nor everything; distinct by decoded choices",
        check: algebra::c03,
    },
    Prop {
        id: "C04", quick: 5_000_000, thorough: 60_000_000, tapes: [80, 200, 700],
        rule: "two operands of random types among the 15, asked is_empty/disjoint/intersects in both orders; non-trivial: at least one of them is a non-empty bounded-on-some-side value and the other is not everything; distinct by decoded choices",
        check: algebra::c04,
    },
    Prop {
        id: "C05", quick: 4_000_000, thorough: 35_000_000, tapes: [64, 256, 900],
        rule: "a history of up to 40 (rarely 250) union/intersection/complement/to_inner/to_set steps over a pool of values of mixed types, every intermediate compared with the model; non-trivial: at least three steps produced a value that is neither empty nor everything; distinct by decoded choices",
        check: history::c05,
    },
    Prop {
        id: "C06", quick: 1_500_000, thorough: 13_000_000, tapes: [64, 200, 700],
        rule: "2..7 operands combined in two random orders/groupings/multiplicities, results compared with == and hash (equal results must be equal, different ones must not), and their serialized pieces inspected; non-trivial: at least two non-empty operands with at least two separate runs in the result; distinct by decoded choices",
        check: equality::c06,
    },
    Prop {
        id: "C07", quick: 12_000_000, thorough: 150_000_000, tapes: [40, 120, 500],
        rule: "a bounded range, bounded set or empty range over one of 15 element types, its window biased to the ends of the type, sets put together in six ways or (one case in five) by a random expression, iterated forwards and backwards; non-trivial: it contains at least two values, or touches an end of its type; distinct by decoded choices",
        check: iterate::c07,
    },
    Prop {
        id: "C08", quick: 8_000_000, thorough: 65_000_000, tapes: [60, 160, 500],
        rule: "an operation sequence (next, next_back, nth, nth_back, size_hint, len, clone, adaptors, consuming calls) on a bounded range/set iterator over one of 15 element types, up to the whole type, sets put together as for C07; non-trivial: at least two operations on an iterator with at least two values left; distinct by decoded choices",
        check: iterate::c08,
    },
    Prop {
        id: "C09", quick: 12_000_000, thorough: 160_000_000, tapes: [60, 160, 500],
        rule: "an operation sequence (next, nth, clone, min, size_hint, adaptors) on a lower-bounded range/set iterator over one of 15 element types, sets put together as for C07, the tail staying below the type's largest value; non-trivial: at least two values taken; distinct by decoded choices",
        check: iterate::c09,
    },
    Prop {
        id: "C10", quick: 24_000_000, thorough: 480_000_000, tapes: [24, 48, 64],
        rule: "a start value and a count biased to every boundary (ends of the type, surrogate gap, word sizes), for 13 built-in and 2 user-defined types; plus whole rows (one u8/i8 start value against all counts and all ends); non-trivial: the count is not 0 and not both far from every boundary; distinct by decoded choices",
        check: stepping::c10,
    },
    Prop {
        id: "C11", quick: 20_000_000, thorough: 230_000_000, tapes: [24, 48, 64],
        rule: "a std or library range over one of 15 element types, bounds biased to the ends of the type, in every inclusivity, inverted and (RangeInclusive) partly or fully iterated, converted both ways; non-trivial: a bound lies within 2 of an end or the range is empty, or it holds at least two values; distinct by decoded choices",
        check: convert::c11,
    },
    Prop {
        id: "C12", quick: 3_200_000, thorough: 30_000_000, tapes: [40, 80, 120],
        rule: "a container (String, str, slice, Vec, CStr, CString, OsString; multi-byte text; length 0..20, rarely up to 3000; slices of zero-sized elements up to usize::MAX long) indexed for reading and writing by a library range with bounds around the length, character boundaries and usize::MAX; non-trivial: the container is non-empty and the range is not unbounded; distinct by decoded choices",
        check: index::c12,
    },
    Prop {
        id: "C13", quick: 16_000_000, thorough: 190_000_000, tapes: [32, 48, 64],
        rule: "three bounds of one kind over i8, char, user type or f64 (with NaN and signed zeros) compared, hashed, mapped, flipped, sorted; non-trivial: two of the bounds share a value or differ by at most 1; distinct by decoded choices",
        check: bounds::c13,
    },
    Prop {
        id: "C14", quick: 800_000, thorough: 10_000_000, tapes: [48, 160, 500],
        rule: "a bound, range or set (sets via histories) over one of 20 element types, alone and nested in other values, serialized with JSON (text, value tree, reader), CBOR and bincode, read back, compared, and used further; non-trivial: the value is neither empty nor everything; distinct by decoded choices",
        check: roundtrip::c14,
    },
    Prop {
        id: "C15", quick: 10_000_000, thorough: 120_000_000, tapes: [32, 64, 160],
        rule: "a range of any of the 11 range types or a set (1..9, rarely many pieces; with or without unbounded tails) over one of 15 element types, bounds biased to the ends of the type, asked for membership of every value near a bound before and after to_inner/to_set/From; non-trivial: some asked value is inside and some is outside; distinct by decoded choices",
        check: member::c15,
    },
    Prop {
        id: "C16", quick: 250, thorough: 1_500, tapes: [48, 64, 96],
        rule: "a set of 500..9000 pieces (complement: up to 400) united, intersected, complemented, cut, iterated from both ends, rebuilt and compared, on a thread with a 192 KiB stack, also in an unoptimised build, every value compared; non-trivial: at least 500 pieces (complement: 100); distinct by decoded choices",
        check: large::c16,
    },
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
pub fn check(id: &str, tape: &mut Tape, ctx: &mut Ctx) -> Res {
    (find(id).expect("unknown property").check)(tape, ctx)
}
