#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the long JSON lines stay reviewable).
import json, os
I="src/implementations/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Union contains exactly the values of either operand",
"For every pair of operands drawn from the six std range types and the crate's nine range and set types, the union contains a value if and only if at least one of the operands contains it, and computing it never panics. This holds whatever the kind of each bound (included, excluded, absent), however many pieces an operand has, whether pieces overlap, nest, touch or are empty, and in either operand order.",
["inputs"],"all 15x15 operand type pairs, all bound kinds and values (including the least and greatest value of the element type), any number of pieces, all probe values, debug and release builds",
"The tests try one or two fixed small i32 operands per type pair; they never vary bound kinds, piece counts, element types or positions relative to each other.",
[I+"union/","src/union.rs","src/bounded_set.rs","src/lower_bounded_set.rs","src/upper_bounded_set.rs","src/unbounded_set.rs","src/bounded_range.rs","src/lib.rs"],
[("set insertion with merging of intersecting pieces","src/bounded_set.rs add_range/add_set, BoundedRange::combine"),("absorption of pieces into the unbounded part","defragment in src/lower_bounded_set.rs, src/upper_bounded_set.rs, src/unbounded_set.rs")],
["Rangetools::union","contains on operands and result"])

p("C02","Intersection contains exactly the values common to both operands",
"For every pair of operands drawn from the six std range types and the crate's nine range and set types, the intersection contains a value if and only if both operands contain it, and computing it never panics. This holds whatever the kind of each bound, however many pieces an operand has, however the pieces are placed relative to each other, and in either operand order.",
["inputs"],"all 15x15 operand type pairs, all bound kinds and values (including the least and greatest value of the element type), any number of pieces, all probe values, debug and release builds",
"The tests try a few fixed small i32 operands per type pair; LowerBoundedSet with LowerBoundedSet lost pieces in every build (fixed) while all tests passed.",
[I+"intersection/","src/intersection.rs","src/bound.rs","src/bounded_set.rs","src/lib.rs"],
[("max of lower bounds, min of upper bounds","src/implementations/intersection/bounded_range.rs and bound.rs Ord"),("piecewise intersection and re-insertion","src/implementations/intersection/*_set.rs")],
["Rangetools::intersection","contains on operands and result"])

p("C03","Complement contains exactly the values the operand lacks",
"For every range or set of every type, its complement contains a value if and only if the original does not, and complementing twice gives back exactly the original values. Complementing never panics, for empty operands, operands covering everything, touching pieces and bounds at the limits of the element type included.",
["inputs"],"all 15 operand types, all bound kinds and values, any number of pieces, all probe values, debug and release builds",
"There is one fixed i32 example per type; no empty, touching, excluded-start, many-piece or double-complement case is tested.",
[I+"complement/","src/complement.rs","src/bound.rs","src/unbounded_set.rs"],
[("bound flipping","src/bound.rs Bound::flipped"),("fold of piece complements with intersection","src/implementations/complement/*_set.rs")],
["Rangetools::complement","contains"])

p("C04","contains, is_empty and conversions to inner/set types agree with the bounds",
"For every range or set, however it was constructed, contains answers according to its bounds (an included bound belongs, an excluded one does not, every piece of a set counts), and converting it to its general range type or its set type leaves the contained values unchanged. is_empty is true exactly when no point of a densely ordered element type could lie within the bounds: start past end, or start equal to end unless both are included; sets are empty exactly when all their pieces are, and ranges or sets without a lower or an upper bound never are.",
["inputs","histories"],"all 15 types, every constructor (From, new, empty, struct literal, UnboundedSet::new, to_inner, to_set, unions of pieces), all bound kinds and values, all probe values; RangeInclusive values not yet advanced as iterators",
"Tests assert contains on a handful of points of fixed operands and is_empty on a few fixed ranges; equal and inverted bounds of all four kinds, extreme values and many-piece sets are not covered.",
["src/bounded_range.rs","src/lower_bounded_range.rs","src/upper_bounded_range.rs","src/unbounded_range.rs","src/empty_range.rs","src/bounded_set.rs","src/lower_bounded_set.rs","src/upper_bounded_set.rs","src/unbounded_set.rs",I+"rangetools/"],
[("contains per type","src/*_range.rs, src/*_set.rs"),("is_empty, to_inner, to_set per type","src/implementations/rangetools/")],
["contains","Rangetools::is_empty","Rangetools::to_inner","Rangetools::to_set","From/new constructors"])

p("C05","disjoint and intersects decide whether the operands overlap",
"For every pair of ranges or sets, disjoint is true exactly when their bounds leave no room for a common value (judged as for a densely ordered element type, the same way as is_empty), intersects is its negation, and both are symmetric and agree with whether the intersection is empty. In particular, disjoint operands never share a value, and operands sharing a value always intersect.",
["inputs"],"all 15x15 operand type pairs, all bound kinds and values, any number of pieces, both operand orders",
"Only the documentation examples exercise disjoint and intersects, on four fixed pairs.",
["src/lib.rs",I+"intersection/",I+"rangetools/"],
[("disjoint = intersection.is_empty, intersects = !disjoint","src/lib.rs Rangetools::disjoint/intersects")],
["Rangetools::disjoint","Rangetools::intersects"])

p("C06","Sets keep their pieces non-empty, ascending and non-overlapping",
"After any history of unions, intersections, complements and conversions, the pieces of every resulting set (as its serialised form shows them) are non-empty, in ascending order and pairwise non-overlapping, the unbounded parts included; an unbounded set whose two unbounded parts overlap is represented as full. Consequently iterating over the set visits strictly ascending values without duplicates.",
["histories","inputs"],"all operation histories over all types, all piece counts and bound kinds",
"Each test applies one or two operations to fixed operands; the invariant is about what survives arbitrarily long mixed histories.",
["src/bounded_set.rs","src/lower_bounded_set.rs","src/upper_bounded_set.rs","src/unbounded_set.rs",I+"union/",I+"intersection/",I+"complement/"],
[("private piece lists modified only through add_range/retain","src/bounded_set.rs"),("defragment","src/lower_bounded_set.rs, src/upper_bounded_set.rs, src/unbounded_set.rs")],
["serde serialisation of results","into_iter of results"],
[("ranges","ordered list of bounded pieces","src/bounded_set.rs"),("upper_bounded_range / lower_bounded_range","unbounded parts of a set","src/*_set.rs")])

p("C07","Equal sets from any operand order or grouping; equality and hashing are sound",
"Unions, and likewise intersections, of the same sets give equal results (by == and by hash) in every operand order and grouping, uniting or intersecting a set with itself and uniting it with the empty set change nothing, and a clone equals its original. Two values that compare equal contain the same values and have the same hash, and values that contain different values never compare equal.",
["histories","inputs"],"all multisets of set operands, all permutations and parenthesisations, all bound kinds and piece counts",
"Tests compare a few fixed results; no permutation, grouping or hash is ever checked.",
["src/bounded_set.rs","src/lower_bounded_set.rs","src/upper_bounded_set.rs","src/unbounded_set.rs","src/bound.rs",I+"union/",I+"intersection/"],
[("merging of all overlapping pieces into one","src/bounded_set.rs add_range"),("derived PartialEq/Eq/Hash","all type definitions")],
["==","Hash","Clone"])

p("C08","Iterating a bounded range or set yields exactly its values in ascending order",
"Iterating over a bounded range or set (or the empty range) yields each value it contains exactly once, in ascending order, and then ends; iterating in reverse yields the same values in descending order. This holds for every bound kind, for empty and inverted ranges, and for ranges touching the least or greatest value of the element type, in debug and release builds alike, without panicking.",
["inputs"],"every steppable element type (all integer types, char, user-defined Step types), all bound kinds and values including the limits of the type, any number of pieces",
"Tests iterate small i32 ranges in the middle of the type and only in debug builds; ranges touching the limits of the type panicked or ran away (fixed).",
["src/bounded_range.rs","src/bounded_set.rs","src/empty_range.rs","src/step.rs"],
[("BoundedRangeIter::next/next_back","src/bounded_range.rs"),("BoundedSetIter::next/next_back","src/bounded_set.rs")],
["IntoIterator / Iterator / DoubleEndedIterator of BoundedRange, BoundedSet, EmptyRange"])

p("C09","Every interleaving of iterator calls consumes the same sequence consistently",
"For every history of next, next_back, nth and nth_back calls on the iterator of a bounded range or set, each call returns what it would return on the list of the contained values in ascending order, consumes exactly what it skips and returns, and once a call has returned nothing because no value was left, all later ones return nothing. From any state, last, min, max, count, folds, reversed traversal and clones agree with the values still to come.",
["histories","inputs"],"all call histories of any length with all skip counts (0, around piece and total lengths, up to the largest usize), all steppable element types, all bound kinds, any number of pieces",
"Tests make one or two calls on a fresh small iterator; they never mix front and back calls, skip past a piece boundary and continue, or go on after exhaustion.",
["src/bounded_range.rs","src/bounded_set.rs"],
[("nth/nth_back/last/min/max","src/bounded_range.rs, src/bounded_set.rs"),("FusedIterator","src/bounded_range.rs, src/bounded_set.rs")],
["Iterator, DoubleEndedIterator, FusedIterator of BoundedRangeIter and BoundedSetIter"])

p("C10","Sizes reported by bounded iterators are exact at every moment",
"At every point of every history of iterator calls on a bounded range or set, size_hint, len and count equal the number of values still to come. When that number does not fit in usize, size_hint reports the largest usize as lower bound and no upper bound instead of a wrong number, and iteration still yields every value.",
["histories","inputs"],"all call histories, all steppable element types, all bound kinds, lengths from 0 to beyond usize::MAX",
"Tests check size_hint and count of fresh iterators over at most six i32 values.",
["src/bounded_range.rs","src/bounded_set.rs","src/step.rs"],
[("size_hint from Step::steps_between","src/bounded_range.rs"),("sum over pieces","src/bounded_set.rs")],
["Iterator::size_hint, ExactSizeIterator::len, Iterator::count"])

p("C11","Iterating a lower-bounded range or set ascends through exactly its values",
"Iterating over a range or set bounded only below yields its contained values in strictly ascending order without gaps, duplicates or foreign values, first the bounded pieces and then the unbounded part, up to and including the greatest value of the element type, after which no further value is ever yielded. nth(n) skips exactly n of those values at every point, across piece boundaries as well, min is the first remaining value, and the size hint has no upper bound.",
["histories","inputs"],"all histories of next and nth calls with all skip counts, all steppable element types, all bound kinds, any number of pieces, starting points up to the greatest value",
"Tests take at most a handful of i32 values from one- or two-piece sets far from the limits of the type.",
["src/lower_bounded_range.rs","src/lower_bounded_set.rs"],
[("LowerBoundedRangeIter::next/nth","src/lower_bounded_range.rs"),("LowerBoundedSetIter::next/nth","src/lower_bounded_set.rs")],
["Iterator of LowerBoundedRange and LowerBoundedSet"])

p("C12","Step counts, advances and retreats exactly for every built-in type",
"For all integer types and char, steps_between(a, b) is the number of values from a to b exclusive (nothing when a > b or the number exceeds usize), forward_checked(a, n) and backward_checked(a, n) are the n-th successor and predecessor of a or nothing when there is none, and forward/backward agree with them whenever a result exists (for user-defined Step types too, where these two are provided by the crate). For char, surrogate code points are never produced or counted. The same holds on targets whose usize is narrower than 64 bits.",
["inputs","configurations"],"all start values and counts of all 12 integer types and char; 64-bit and 32-bit targets; debug and release builds",
"No test calls Step directly; only steps by 1 on small i32 values are exercised through iterators, never wide types, signed wrap-around, char or 32-bit targets.",
["src/step.rs"],
[("step_integer_impls macro per pointer width","src/step.rs"),("surrogate gap handling","src/step.rs impl Step for char")],
["Step::steps_between, forward, forward_checked, backward, backward_checked"])

p("C13","Lower and upper bounds are totally ordered by what they admit",
"Lower bounds and upper bounds are each totally and consistently ordered (by comparison operators, min and max alike): a lower bound is less than another exactly when it admits more values above, so included t precedes excluded t; an upper bound is less exactly when it admits fewer values below, so excluded t precedes included t. Equality and hashing agree with this order, and map, flipped and the conversions to and from raw bounds keep the value and (except flipped, which toggles it, and is its own inverse) the kind.",
["inputs"],"all pairs and triples of bounds of both kinds over all ordered element types, incomparable values of partially ordered types included",
"Two documentation examples compare two excluded bounds; mixed kinds with equal values, transitivity and partially ordered types are untested.",
["src/bound.rs"],
[("PartialOrd/Ord for LowerBound and UpperBound","src/bound.rs")],
["PartialOrd, Ord, Eq, Hash of LowerBound/UpperBound; Bound::map, flipped; to_bound; From<Bound>"])

p("C14","Converting to and from std ranges never changes the contained values",
"Converting a std range to the crate's range type and back yields the same values, and converting any crate range to a std range type yields a range containing exactly the same values of the element type, empty ranges converting to empty ones. Where no such std range exists (an inclusive end at the greatest value as an exclusive end, for example) the conversion panics in every build; it never returns a range with different contents. (Std ranges as constructed: what a RangeInclusive holds after it was iterated to exhaustion is unspecified by std.)",
["inputs"],"all conversions between the crate's ranges and the six std range types, all steppable element types, all bound kinds and values including the limits of the type, debug and release builds",
"Six tests convert one i32 range per type; excluded starts, empty ranges and limits of the type are untested and were wrong (fixed).",
["src/bounded_range.rs","src/lower_bounded_range.rs","src/upper_bounded_range.rs","src/unbounded_range.rs","src/empty_range.rs"],
[("From impls","src/*_range.rs"),("Step::forward_checked/backward_checked","src/step.rs")],
["From<std range> for crate range, From<crate range> for std range"])

p("C15","Indexing with crate ranges selects exactly what the std range would",
"Indexing a slice, Vec, str, String, CStr, CString or OsString (for the combinations provided, shared and mutable) with a crate range of usize yields exactly the same subslice in place as the std range covering the same indices, for every kind of bound. It panics exactly when the std indexing would (out of bounds, start after end, not on a character boundary, no such std range), and writing through the mutable form changes exactly the selected elements.",
["inputs"],"all containers and contents (multi-byte text included), all five range types, all bound kinds, all index values up to usize::MAX, debug and release builds",
"Tests index one fixed ten-element container with a few fixed ranges and check no panicking or boundary case.",
[I+"index/","src/bounded_range.rs","src/lower_bounded_range.rs","src/upper_bounded_range.rs"],
[("Index/IndexMut impls delegating to std ranges","src/implementations/index/")],
["Index, IndexMut"])

p("C16","Serialising and deserialising gives back an equal value",
"With the serde feature, every bound, range and set value survives a serialise/deserialise round trip, in self-describing and in compact binary formats, as an equal value that behaves the same (same contained values, same results of further operations). Equal values serialise identically.",
["inputs","histories"],"all types, all bound kinds and values, sets arising from any history of operations",
"No test serialises anything.",
["src/bound.rs","src/bounded_range.rs","src/bounded_set.rs","src/lower_bounded_range.rs","src/lower_bounded_set.rs","src/upper_bounded_range.rs","src/upper_bounded_set.rs","src/unbounded_range.rs","src/unbounded_set.rs","src/empty_range.rs"],
[("derived Serialize/Deserialize","all type definitions under feature serde")],
["serde::Serialize / Deserialize of all types"])

p("C17","Operations complete on operands of any size and at the limits of the type",
"Unions, intersections, complements, queries, iteration and iterator skips return normally, without panicking, exhausting the stack or looping, on every valid operand: sets of very many pieces (tens of thousands merged, intersected with ranges, queried or iterated; thousands united or intersected with each other; hundreds complemented), ranges spanning the whole element type, degenerate and inverted ranges, and bounds at the least and greatest values. This holds in debug and release builds and on a default-sized thread stack.",
["inputs"],"all operand type pairs with degenerate and extreme bounds for every element type; piece counts up to tens of thousands",
"Tests use sets of at most a few pieces in the middle of the type; merging many pieces overflowed the stack (fixed).",
["src/bounded_set.rs","src/unbounded_set.rs","src/lower_bounded_set.rs","src/upper_bounded_set.rs","src/bounded_range.rs",I],
[("iterative merging","src/bounded_set.rs add_range, src/unbounded_set.rs defragment"),("assert in combine","src/bounded_range.rs combine")],
["all operations, watched for panics, aborts and unbounded work"])

p("C18","Composed expressions denote what set algebra says",
"The value of any expression built from ranges by any nesting of union, intersection, complement and conversions contains exactly the values that the same expression of set algebra over the original ranges contains, whatever the intermediate types. In particular De Morgan's laws, distributivity and absorption hold for the contained values.",
["histories","inputs"],"all expression trees and operation histories over all 15 types, all bound kinds and values",
"Tests apply at most three operations in a row; errors that need an operand produced by a particular earlier history are out of their reach.",
["src/lib.rs",I+"union/",I+"intersection/",I+"complement/","src/bounded_set.rs","src/unbounded_set.rs"],
[("Rangetools provided methods","src/lib.rs"),("all operation impls","src/implementations/")],
["results of operation histories, compared with a reference model"])

p("C19","No safe use of the crate causes undefined behaviour",
"No sequence of calls through the crate's safe interface causes undefined behaviour: in particular every char it produces is a valid Unicode scalar value, and indexing never reaches outside its container. This holds for every start value and step count, surrogate-gap crossings and huge counts included.",
["inputs","histories"],"all safe call sequences; all char values and counts; 64-bit and 32-bit targets",
"Tests never step chars (the only users of unsafe code) and run without any undefined-behaviour detector.",
["src/step.rs",I+"index/"],
[("unsafe char::from_u32_unchecked justified by gap handling","src/step.rs impl Step for char")],
["Miri and AddressSanitizer executions of the Step, iteration, indexing and set workloads"])

p("C20","Only lower-bounded results can be iterated over",
"A program that iterates over the result of an operation compiles exactly when that result's type has a lower bound (or is the empty range): unbounded-below results offer no iteration. Results that must be lower-bounded for every value of the operand types are iterable.",
["programs"],"all programs using the operations on all operand type pairs",
"One compile_fail documentation test covers one pair.",
["src/lib.rs","src/lower_bounded_range.rs","src/lower_bounded_set.rs","src/bounded_range.rs","src/bounded_set.rs"],
[("IntoIterator implemented for lower-bounded types only","src/*_range.rs, src/*_set.rs")],
["the type checker (no run-time event)"])
p("C21","An operand means the same in every form it can be given in",
"A range may be given as a std range, as the crate's range type or converted to a set: whatever forms the operands take, unions and intersections give equal results once converted to sets (by == and by hash), disjoint, intersects, contains and is_empty give the same answers, complements contain the same values, and iterable results yield the same values.",
["inputs"],"all pairs of the 15 operand types, all forms of each operand, all bound kinds and values",
"Every pair of types has an implementation of its own (over 400 of them); tests exercise each on one or two operands and never compare the implementations with each other.",
["src/lib.rs",I+"union/",I+"intersection/",I+"complement/","src/bounded_set.rs"],
[("forwarding implementations for std ranges, crate ranges and sets",I),("to_inner and to_set","src/lib.rs trait Rangetools")],
["results of all operations on all forms of the same operands"])

p("C22","Results depend on the operands only, on any thread and in any order of calls",
"Every operation, query and traversal gives the same result each time it is done with the same operands: whatever other calls were made before it, and while other threads use the same values at the same time. Values and their iterators can be shared by threads and moved to other threads (where the element type can), without data races, and an iterator moved to another thread continues where it was.",
["schedules","histories"],"all interleavings of calls by several threads on shared values, all histories of earlier calls",
"All tests are single-threaded and ask each value once.",
["src/bounded_set.rs","src/lower_bounded_set.rs","src/bounded_range.rs",I],
[("values without interior mutability, operations by value or shared reference","src/*_set.rs, src/*_range.rs"),("iterators own what they iterate","src/bounded_set.rs BoundedSetIter")],
["logs of calls by threads sharing values, compared with the same calls made alone; race detectors of Miri and ThreadSanitizer"])
p("C23","Results do not depend on build profile, serde feature or pointer width",
"The same calls with the same operands have the same outcomes in every configuration of the crate: built with or without optimisation, with or without debug assertions and overflow checks, with or without the serde feature, and on 32- and 64-bit targets (sizes that do not fit in a 32-bit usize aside). A call that returns normally in one configuration does so in all of them, with the same value (stepping past the last value of a type aside, where the documentation leaves the outcome open).",
["configurations","inputs"],"all configurations of profile, feature and pointer width; all histories of operations, iterator calls, steps, bound comparisons, conversions and indexing",
"The tests run in one configuration: debug, without serde, on the host.",
["src/step.rs","src/bounded_range.rs","src/bounded_set.rs","src/lib.rs","Cargo.toml",I],
[("arithmetic through checked or width-aware operations","src/step.rs"),("serde support by cfg_attr only","all type definitions")],
["recorded outcomes of identical call histories in six builds, compared with each other"])
p("C24","Set algebra depends on nothing of the element type but its order",
"Any copyable, totally ordered element type will do: strings, tuples, floats in total order, reversed orders, large arrays, bool or a type with a single value behave like integers. If the operands of an expression are carried over to another element type by an order-preserving map of the values at their bounds, results carry over too: same type, same pieces and bound kinds, same membership at those values, same emptiness, disjointness and equality.",
["inputs","histories"],"all pairs of ordered element types, all order-preserving placements of bounds, all expressions over all 15 operand types",
"Tests use i32 and a few other integers only.",
["src/lib.rs","src/bound.rs","src/bounded_set.rs","src/unbounded_set.rs",I],
[("bounds T: Copy + Ord on all operations","src/, src/implementations/")],
["observations of one script of operations on two element types, compared"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
