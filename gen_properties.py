#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Intersection holds exactly the values common to both operands",
 "For any two ranges or sets of any of the fifteen supported range/set types, however they were built, their intersection never panics and contains a value if and only if both operands contain it. This holds in either operand order and for every result type, whether the result is observed by membership tests, by its emptiness or (where iterable) by iterating it.",
 ["inputs","programs"],
 "all 15x15 ordered type pairs; any endpoints (inclusive/exclusive, coincident, touching, inverted or empty operands); sets with any number of pieces in any arrangement; any Copy+Ord element type",
 "Each type pair is tested with one or two fixed operands of at most three pieces and at most seven probe values; coincident endpoints, exclusive lower bounds, empty or inverted operands, and sets with more than three pieces are essentially never combined.",
 ["src/implementations/intersection/*.rs","src/intersection.rs","src/lib.rs","src/bound.rs"],
 [("max of lower bounds / min of upper bounds","src/implementations/intersection/bounded_range.rs"),("piecewise intersection and retain of non-empty pieces","src/implementations/intersection/bounded_set.rs"),("distribution over the pieces of an unbounded set","src/implementations/intersection/unbounded_set.rs")],
 ["contains / is_empty / into_iter on the result"])
p("C02","Union holds exactly the values of either operand",
 "For any two ranges or sets of any of the fifteen supported range/set types, however they were built, their union never panics and contains a value if and only if at least one operand contains it. No value is lost when pieces overlap, touch, nest or are empty, and no value lying in a gap is ever invented, in either operand order.",
 ["inputs","programs"],
 "all 15x15 ordered type pairs; any endpoints (inclusive/exclusive, coincident, touching, inverted or empty operands); sets with any number of pieces inserted in any order; any Copy+Ord element type",
 "Tests union one or two fixed operands per type pair, with at most three pieces; merging one operand across several pieces, exact-touch with mixed inclusivity and insertion orders other than ascending are hardly sampled.",
 ["src/implementations/union/*.rs","src/union.rs","src/bounded_set.rs","src/lower_bounded_set.rs","src/upper_bounded_set.rs","src/unbounded_set.rs"],
 [("insertion with merge of overlapping pieces","src/bounded_set.rs add_range"),("absorbing pieces into the unbounded ends","defragment in src/{lower_bounded,upper_bounded,unbounded}_set.rs")],
 ["contains / is_empty / into_iter on the result"])
p("C03","Complement holds exactly the values not in the operand",
 "For any range or set of any of the fifteen supported types, however it was built, its complement never panics and contains a value if and only if the operand does not contain it. Complementing twice gives back exactly the original values, and a value is never in both an operand and its complement nor in neither.",
 ["inputs","programs"],
 "all 15 types; any endpoints and inclusivity, including empty and inverted ranges; sets with any number of pieces",
 "There is one fixed example per type, compared structurally; empty/inverted operands, exclusive lower bounds, touching pieces and sets of more than two pieces are not complemented at all.",
 ["src/implementations/complement/*.rs","src/complement.rs","src/bound.rs","src/unbounded_set.rs"],
 [("flipping each bound to the opposite side","src/bound.rs flipped; src/implementations/complement/{bounded,lower_bounded,upper_bounded}_range.rs"),("fold of intersections of piece complements","src/implementations/complement/{bounded,lower_bounded,upper_bounded,unbounded}_set.rs")],
 ["contains / is_empty on the result"])
p("C04","Emptiness, disjoint and intersects tell the truth",
 "A range or set reports itself empty exactly when its bounds leave no room for any value (ranges with a missing bound never do, and a range strictly between two neighbouring values counts as non-empty, as documented). Two ranges/sets are reported disjoint exactly when their intersection is empty in that sense and intersecting exactly otherwise, symmetrically in the operands; in particular operands sharing a value are never called disjoint and an 'empty' value never contains anything.",
 ["inputs"],
 "all 15 types for emptiness and all 15x15 ordered pairs for disjoint/intersects; any endpoints, inclusivity and number of pieces",
 "disjoint/intersects are exercised only by doc examples on two std range pairs; emptiness is asserted on a few fixed operands and never for coincident exclusive bounds or sets all of whose pieces vanish.",
 ["src/lib.rs","src/implementations/rangetools/*.rs","src/implementations/intersection/*.rs"],
 [("bound comparison in is_empty","src/implementations/rangetools/bounded_range.rs"),("disjoint = intersection is empty","src/lib.rs"),("removal of empty pieces","src/bounded_set.rs, src/implementations/intersection/*_set.rs")],
 ["is_empty, disjoint, intersects"])
p("C05","Any composition of operations matches set algebra",
 "After any sequence of unions, intersections, complements and conversions to inner or set form over any mix of range and set types, every intermediate value contains exactly the values that evaluating the same expression on mathematical sets gives. Equivalently the laws of set algebra (De Morgan, distributivity, absorption, associativity) hold between values reached by different routes, no matter how long the history is.",
 ["histories","inputs"],
 "operation sequences of any length over a pool of values of all 15 types, each result being fed back as an operand",
 "Tests apply a single operation to freshly built operands, at most three operations deep; states reached only through longer histories (pieces left behind by clipping, merging and complementing) are never operands.",
 ["src/bounded_set.rs","src/lower_bounded_set.rs","src/upper_bounded_set.rs","src/unbounded_set.rs","src/implementations/**"],
 [("sorted, non-empty, non-overlapping piece list maintained by every operation","src/bounded_set.rs ranges"),("defragmentation of the unbounded ends","src/{lower_bounded,upper_bounded,unbounded}_set.rs")],
 ["contains / is_empty / into_iter after every step"],
 [("pieces","bounded pieces of a set","src/bounded_set.rs BoundedSet.ranges"),("unbounded ends","tail range(s) of a set","src/{lower_bounded,upper_bounded,unbounded}_set.rs")])
p("C06","Sets stay normalised; equality and hash ignore build order",
 "Every set produced by the library keeps pieces that are non-empty, mutually non-overlapping and in ascending order. Consequently the union or intersection of the same operands compares equal and hashes equal whatever the operand order, grouping or repetition, and combining a set with itself, or uniting it with nothing, or intersecting it with everything, gives an equal set. Ranges or sets that hold different values never compare equal.",
 ["inputs","histories"],
 "all ways to order, group and repeat any list of ranges and sets in unions and intersections; all sets reachable by any history of operations",
 "Tests compare sets structurally only for a handful of complements and empty-range unions; no test permutes or regroups operands, and the invariant on the private pieces is never looked at.",
 ["src/bounded_set.rs","src/lower_bounded_set.rs","src/upper_bounded_set.rs","src/unbounded_set.rs"],
 [("ordered insertion and overlap merging","src/bounded_set.rs add_range/add_set"),("defragment","src/{lower_bounded,upper_bounded,unbounded}_set.rs"),("derived Eq and Hash over the pieces","the struct definitions")],
 ["==, Hash, and the pieces visible in the serialized form"])
p("C07","Bounded iteration yields each contained value once, in order",
 "Iterating a bounded range, a bounded set or an empty range, forwards or in reverse, terminates and yields exactly the values it contains, each once, in strictly ascending (reverse: descending) order. This holds for every supported element type right up to its smallest and largest value, for every combination of inclusive and exclusive bounds, and for empty or inverted ranges, without panicking and identically in debug and release builds.",
 ["inputs","configurations"],
 "every integer type, char and user types implementing the step trait; any endpoints including the type's extremes and the surrogate gap; any number of pieces; debug and release builds",
 "Iterator tests use i32 values near zero only, with ranges of at most six values and sets of two pieces; no test iterates an unsigned range from zero backwards, a range reaching a type's maximum, chars, or an exclusive-bounded or empty range at an extreme.",
 ["src/bounded_range.rs","src/bounded_set.rs","src/empty_range.rs","src/step.rs"],
 [("first/last value computed from the bounds","src/bounded_range.rs IntoIterator"),("stepping with exhaustion detection","src/bounded_range.rs next/next_back"),("piece-by-piece chaining","src/bounded_set.rs next/next_back")],
 ["values produced by into_iter() and into_iter().rev()"])
p("C08","Bounded iterators behave as an exact double-ended sequence",
 "Under any interleaving of taking from the front, taking from the back and skipping from either end, a bounded range or set iterator behaves exactly like the ordered sequence of its contained values: each call returns the right value, reported sizes are always exact (never a wrong bound when the count exceeds what a machine word can hold), skipping past the end gives nothing instead of panicking, and once exhausted it stays exhausted. Counting, last, minimum, maximum, folding, reversing and cloning at any point agree with that same remaining sequence.",
 ["histories","inputs","configurations"],
 "all call sequences over next, next_back, nth, nth_back, size_hint, len, clone and the consuming methods; all element types and extremes; ranges with more values than usize can count; debug and release builds",
 "Tests call each method once on a fresh i32 iterator; front and back calls are never interleaved, methods are never called after partial consumption, and sizes or skips that overflow are never tried.",
 ["src/bounded_range.rs","src/bounded_set.rs","src/step.rs"],
 [("nth/nth_back/size_hint/last/min/max/count overrides","src/bounded_range.rs, src/bounded_set.rs"),("dropping exhausted piece iterators from either end","src/bounded_set.rs")],
 ["return value of every call in the sequence"])
p("C09","Lower-bounded iteration enumerates values from the start, in order",
 "Iterating a lower-bounded range or set yields exactly its contained values in strictly ascending order starting from the smallest, first those of the bounded pieces and then the unbounded tail, for as long as the tail stays below the element type's largest value. Skipping ahead by any amount from any point lands on the same value as taking one by one, the minimum is the first value, and the reported size never has an upper limit.",
 ["histories","inputs"],
 "all call sequences over next, nth, min, size_hint and clone; sets with any number of bounded pieces; every element type, up to but excluding its largest value (where, as for std's open-ended ranges, stepping may panic or wrap)",
 "Tests take at most three steps on sets with at most one bounded piece; skips that cross several pieces or the boundary between pieces and tail after partial consumption are not tried.",
 ["src/lower_bounded_range.rs","src/lower_bounded_set.rs","src/bounded_set.rs"],
 [("chaining bounded part then tail","src/lower_bounded_set.rs next/nth"),("stepping","src/lower_bounded_range.rs next/nth")],
 ["return value of every call in the sequence"])
p("C10","Stepping arithmetic is exact for every element type",
 "For every integer type and for char, stepping n forward (backward) from a value gives exactly the n-th successor (predecessor) or reports that there is none, and the number of steps between two values is exact, or absent when the first exceeds the second or the count does not fit a machine word. Forward and backward steps invert each other, steps compose additively, chars never land on a surrogate, and the unchecked forms agree with the checked ones wherever a result exists.",
 ["inputs"],
 "all 12 integer types and char; all values including extremes; all step counts including 0, those exceeding the type's width, and usize::MAX; user types relying on the default methods",
 "There is no direct test of stepping at all; only small i32/i128 ranges exercise it indirectly.",
 ["src/step.rs"],
 [("per-width checked arithmetic","src/step.rs step_integer_impls"),("surrogate gap handling","src/step.rs impl Step for char"),("default forward/backward","src/step.rs trait Step")],
 ["steps_between, forward(_checked), backward(_checked)"])
p("C11","Conversions to and from std ranges preserve the values",
 "Converting a std range into the library's types, or a library range into any std range type it converts to, yields a range containing exactly the same values; an empty range always converts to an empty range. When no range of the target type has those values the conversion panics, in debug and release builds alike, and never yields a different range.",
 ["inputs","configurations"],
 "every conversion in both directions; every integer type, char and user step types; all bound combinations including the type's smallest and largest value; partly or fully iterated std ranges; debug and release builds",
 "One or two fixed i32 examples per conversion; exclusive lower bounds, unsigned zero, type extremes, empty ranges of unsigned type and exhausted inclusive ranges are not converted.",
 ["src/bounded_range.rs","src/lower_bounded_range.rs","src/upper_bounded_range.rs","src/unbounded_range.rs","src/empty_range.rs"],
 [("From impls adjusting exclusive/inclusive bounds by one step","src/{bounded,lower_bounded,upper_bounded,empty,unbounded}_range.rs")],
 ["contains / is_empty / iteration of the converted range"])
p("C12","Indexing by a range selects the same part as std indexing",
 "Indexing a string, slice, vector, C string or OS string with one of the library's ranges, for reading or for writing, selects exactly the same elements (the same memory) as std indexing with the equivalent std bounds, for every length and every bound. It panics exactly when the std indexing would (out of bounds, inverted, or not on a character boundary), in debug and release builds alike; an empty range selects an empty part of anything.",
 ["inputs","configurations"],
 "all container types and range types for which indexing is provided; any container length including 0; any bounds including far out of range and usize::MAX; multi-byte strings; debug and release builds",
 "Each impl is tested on one ASCII string or five-element vector with one or two in-range ranges; exclusive starts, out-of-range, inverted, non-boundary and extreme bounds are untested.",
 ["src/implementations/index/*.rs","src/bounded_range.rs","src/lower_bounded_range.rs","src/upper_bounded_range.rs"],
 [("conversion to the std range, then std indexing","src/implementations/index/*.rs")],
 ["address, length and contents of the selected part, or panic"])
p("C13","Bounds are ordered by what they admit",
 "Lower bounds are totally ordered so that one is smaller exactly when it admits strictly more values from below (inclusive before exclusive at the same point), upper bounds so that one is larger exactly when it admits strictly more values from above (exclusive before inclusive); the order agrees with equality and hashing and leaves incomparable values incomparable. Mapping, flipping, constructing and unwrapping a bound change only what they say: the value or the inclusivity, never both.",
 ["inputs"],
 "all pairs and triples of bounds over any ordered or partially ordered value type",
 "Doc examples compare two bounds of the same kind; mixed inclusive/exclusive comparisons, transitivity, min/max and partially ordered values are not tested.",
 ["src/bound.rs"],
 [("PartialOrd/Ord for LowerBound and UpperBound","src/bound.rs"),("map/flipped/to_bound/From","src/bound.rs")],
 ["<, ==, cmp, min, max, hash, map, flipped, to_bound"])
p("C14","Serialization round-trips every value",
 "With the serde feature on, every bound, range and set value that the public API can produce serializes without error and deserializes to an equal value that contains the same values and behaves the same in further operations. This holds in self-describing text, self-describing binary and non-self-describing binary formats alike.",
 ["inputs","configurations"],
 "all public data types; values reached by any history of operations; several element types; JSON, CBOR and bincode formats",
 "There is no serialization test at all.",
 ["src/bound.rs","src/bounded_range.rs","src/bounded_set.rs","src/empty_range.rs","src/lower_bounded_range.rs","src/lower_bounded_set.rs","src/unbounded_range.rs","src/unbounded_set.rs","src/upper_bounded_range.rs","src/upper_bounded_set.rs"],
 [("derived Serialize/Deserialize","cfg_attr(feature = \"serde\") on each type")],
 ["serialize, deserialize, ==, contains"])
p("C15","Membership follows the bounds and survives type widening",
 "A value is contained in a range exactly when it satisfies each present bound (strictly for an exclusive one), in a set exactly when some piece contains it, always in an unbounded range and never in an empty one. Building a range or set from bounds or from a std range, and converting any range to its inner or set form, changes neither membership nor emptiness.",
 ["inputs"],
 "all 15 types; all bounds and probe values of every element type including extremes; empty, inverted and exhausted ranges",
 "contains is checked at up to seven small integers per example; exclusive lower bounds and extremes are rare, and to_inner/to_set results are hardly compared with their source.",
 ["src/bounded_range.rs","src/lower_bounded_range.rs","src/upper_bounded_range.rs","src/unbounded_range.rs","src/empty_range.rs","src/*_set.rs","src/implementations/rangetools/*.rs"],
 [("contains","src/*_range.rs, src/*_set.rs"),("to_inner / to_set / From / new / empty","src/implementations/rangetools/*.rs")],
 ["contains, is_empty, to_inner, to_set"])
p("C16","Operations stay correct and total on sets with very many pieces",
 "Uniting, intersecting, complementing, querying and iterating sets of thousands of separate pieces gives exactly the right values and completes without crashing; in particular merging one range across arbitrarily many pieces does not exhaust the stack.",
 ["inputs"],
 "sets of thousands of bounded pieces of every set type, combined with covering, partially covering, interleaved and disjoint ranges and sets, inside an ordinary thread",
 "Tests never build a set of more than three pieces.",
 ["src/bounded_set.rs","src/unbounded_set.rs","src/lower_bounded_set.rs","src/upper_bounded_set.rs"],
 [("repeated merging in add_range and defragment","src/bounded_set.rs, src/unbounded_set.rs")],
 ["contains and iteration of the result; normal termination of the process"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
