//! C17: operations on sets of very many pieces return, on a default-sized stack.

use rangetools::{
    BoundedRange, BoundedSet, LowerBound, LowerBoundedRange, LowerBoundedSet, Rangetools,
    UnboundedSet, UpperBound, UpperBoundedRange, UpperBoundedSet,
};
use rtmon::dynv::Dyn;
use rtmon::gen::assemble;
use rtmon::runner::*;
use rtmon::watch;

fn main() {
    rtmon::runner::main(&[Prop {
        id: "C17b",
        quick: SCENARIOS.len() as u64 * 2,
        thorough: SCENARIOS.len() as u64 * 60,
        case: c17b,
        small_stack: true, compared: false,
        rule: "scenarios over sets of up to 30,000 pieces: merging all pieces at once, absorbing them into unbounded parts, piecewise unions and intersections, queries, iteration and skips, complements of hundreds of pieces; each must return, on a default-sized stack, within the CPU limit. Non-trivial: always.",
    }]);
}

type S = BoundedSet<i64>;
const SCENARIOS: [(&str, fn(&mut Ctx, Sz) -> Verdict); 13] = [
    ("one range covers all pieces", cover),
    ("a chain of bridges merges all pieces", bridges),
    ("lower-bounded part absorbs all pieces", absorb_lower),
    ("upper-bounded part absorbs all pieces", absorb_upper),
    ("unbounded parts absorb all pieces", absorb_both),
    ("everything becomes full", to_full),
    ("pieces added one by one", one_by_one),
    ("union of two large sets", union_sets),
    ("intersection of large sets", inter_sets),
    ("intersection with ranges", inter_ranges),
    ("queries", queries),
    ("iteration and skips", iterate),
    ("complements", complements),
];

/// How large to make things: linear, quadratic and cubic scenarios.
#[derive(Clone, Copy)]
struct Sz {
    lin: i64,
    quad: i64,
    cube: i64,
}

fn c17b(cx: &mut Ctx) -> Verdict {
    let k = (cx.case % SCENARIOS.len() as u64) as usize;
    let round = cx.case / SCENARIOS.len() as u64;
    let j = |cx: &mut Ctx, n: u64| (n + cx.rng.below(n / 2 + 1)) as i64;
    let deep = cx.depth + 1;
    let z = if round == 0 {
        Sz { lin: 30_000, quad: 3000, cube: 60 }
    } else {
        Sz { lin: j(cx, 20_000 * deep), quad: j(cx, 1500 * deep), cube: j(cx, 60 * deep) }
    };
    let mut z = z;
    if assemble(&at(3, 0), None, None).is_none() {
        // sets have to be built by unions
        z.lin = z.lin.min(3000);
        z.quad = z.quad.min(1000);
    }
    let name = SCENARIOS[k].0;
    cx.label(name);
    cx.log(|| format!("{name}: sizes {} / {} / {}", z.lin, z.quad, z.cube));
    cx.sig(&(k, z.lin, z.quad, z.cube));
    cx.nontrivial = true;
    cx.calls += 1;
    (SCENARIOS[k].1)(cx, z)
}

fn br(a: i64, b: i64) -> BoundedRange<i64> {
    BoundedRange::new(LowerBound::included(a), UpperBound::excluded(b))
}
/// [4i, 4i+2) for 0 <= i < n.
fn at(n: i64, off: i64) -> Vec<BoundedRange<i64>> {
    (0..n).map(|i| br(4 * i + off, 4 * i + 2 + off)).collect()
}
/// A large set, spliced together from its serialised form; by unions (and smaller) if that fails.
fn made(cx: &mut Ctx, n: i64, off: i64, l: Option<i64>, u: Option<i64>) -> Dyn<i64> {
    let l = l.map(|t| LowerBoundedRange::new(LowerBound::included(t)));
    let u = u.map(|t| UpperBoundedRange::new(UpperBound::excluded(t)));
    if let Some(d) = assemble(&at(n, off), l, u) {
        return d;
    }
    cx.label("built by unions");
    let s = at(n, off).into_iter().fold(S::empty(), |s, p| s.union(p));
    match (l, u) {
        (None, None) => s.into(),
        (Some(l), None) => s.union(l).into(),
        (None, Some(u)) => s.union(u).into(),
        (Some(l), Some(u)) => s.union(l).union(u).into(),
    }
}
fn big(cx: &mut Ctx, n: i64, off: i64) -> S {
    match made(cx, n, off, None, None) {
        Dyn::BS(s) => s,
        _ => unreachable!(),
    }
}
fn low(cx: &mut Ctx, n: i64, off: i64, l: i64) -> LowerBoundedSet<i64> {
    match made(cx, n, off, Some(l), None) {
        Dyn::LBS(s) => s,
        _ => unreachable!(),
    }
}
fn upp(cx: &mut Ctx, n: i64, off: i64, u: i64) -> UpperBoundedSet<i64> {
    match made(cx, n, off, None, Some(u)) {
        Dyn::UBS(s) => s,
        _ => unreachable!(),
    }
}
fn both(cx: &mut Ctx, n: i64, off: i64, u: i64, l: i64) -> UnboundedSet<i64> {
    match made(cx, n, off, Some(l), Some(u)) {
        Dyn::US(s) => s,
        _ => unreachable!(),
    }
}

fn cover(cx: &mut Ctx, z: Sz) -> Verdict {
    let s = big(cx, z.lin, 0);
    let a = s.clone().union(br(-5, 4 * z.lin + 5));
    watch!(cx, a.contains(3) && a.contains(-5), "covered set lacks a value");
    let b = br(-5, 4 * z.lin + 5).union(s.clone());
    watch!(cx, b.contains(3), "covering range lacks a value");
    let c = s.union(0..=4 * z.lin);
    watch!(cx, c.contains(3), "covered set lacks a value");
    Ok(())
}
fn bridges(cx: &mut Ctx, z: Sz) -> Verdict {
    let s = big(cx, z.quad, 0);
    let t = big(cx, z.quad, 1);
    let u = s.union(t);
    watch!(cx, u.contains(2) && !u.contains(3), "bridged set is wrong at 2 or 3");
    let mut w = big(cx, z.quad, 0);
    let mut i = z.quad - 2;
    while i >= 0 {
        w = w.union(br(4 * i + 1, 4 * i + 5));
        i -= 1 + cx.rng.below(3) as i64;
    }
    watch!(cx, w.contains(0), "bridged set lacks 0");
    Ok(())
}
fn absorb_lower(cx: &mut Ctx, z: Sz) -> Verdict {
    let l = low(cx, z.lin, 0, 4 * z.lin + 10);
    let m = l.clone().union(-1..);
    watch!(cx, m.contains(3) && m.contains(-1), "lower-bounded set lacks a value");
    let m = Rangetools::union(-1.., l.clone());
    watch!(cx, m.contains(3), "lower-bounded set lacks a value");
    let m = l.union(br(-1, 4 * z.lin + 20));
    watch!(cx, m.contains(3), "lower-bounded set lacks a value");
    let m = big(cx, z.lin, 0).union(-1..);
    watch!(cx, m.contains(3), "lower-bounded set lacks a value");
    Ok(())
}
fn absorb_upper(cx: &mut Ctx, z: Sz) -> Verdict {
    let l = upp(cx, z.lin, 0, -10);
    let m = l.clone().union(..4 * z.lin + 3);
    watch!(cx, m.contains(3), "upper-bounded set lacks a value");
    let m = Rangetools::union(..=4 * z.lin + 3, l.clone());
    watch!(cx, m.contains(3), "upper-bounded set lacks a value");
    let m = l.union(br(-15, 4 * z.lin + 20));
    watch!(cx, m.contains(3), "upper-bounded set lacks a value");
    let m = big(cx, z.lin, 0).union(..4 * z.lin);
    watch!(cx, m.contains(3), "upper-bounded set lacks a value");
    Ok(())
}
fn absorb_both(cx: &mut Ctx, z: Sz) -> Verdict {
    let n = z.lin / 2;
    let s = both(cx, n, 0, -10, 4 * n + 10);
    let m = s.clone().union(..2 * n);
    watch!(cx, m.contains(3), "unbounded set lacks a value");
    let m = m.union(2 * n + 3..);
    watch!(cx, m.contains(4 * n), "unbounded set lacks a value");
    let m = s.union(br(-15, 4 * n));
    watch!(cx, m.contains(3), "unbounded set lacks a value");
    Ok(())
}
fn to_full(cx: &mut Ctx, z: Sz) -> Verdict {
    let n = z.lin / 4;
    let s = both(cx, n, 0, -10, 4 * n + 10);
    let m = s.clone().union(br(-15, 4 * n + 20));
    watch!(cx, m.contains(3), "unbounded set lacks a value");
    let m = s.clone().union(..4 * n + 20);
    watch!(cx, m.contains(3), "unbounded set lacks a value");
    let m = Rangetools::union(-20.., s);
    watch!(cx, m.contains(3), "unbounded set lacks a value");
    Ok(())
}
fn one_by_one(cx: &mut Ctx, z: Sz) -> Verdict {
    let mut s = S::empty();
    let mut idx: Vec<i64> = (0..z.quad).collect();
    cx.rng.shuffle(&mut idx);
    for (k, i) in idx.iter().enumerate() {
        // a range united with a set re-inserts every piece of the set
        s = if i % 2 == 0 || k as i64 > 5 * z.cube { s.union(br(4 * i, 4 * i + 2)) } else { br(4 * i, 4 * i + 2).union(s) };
    }
    watch!(cx, s.contains(4 * z.quad - 4), "set lacks a value");
    let mut l = LowerBoundedRange::new(LowerBound::included(4 * z.quad)).to_set();
    let mut u = UpperBoundedRange::new(UpperBound::excluded(-4)).to_set();
    let mut b = UnboundedSet::new(UpperBoundedRange::new(UpperBound::excluded(-4)), LowerBoundedRange::new(LowerBound::included(4 * z.quad)));
    // the defragmentation of these is quadratic per union
    for i in idx.iter().take(z.cube as usize * 5) {
        l = l.union(br(4 * i, 4 * i + 2));
        u = u.union(br(4 * i, 4 * i + 2));
        b = b.union(br(4 * i, 4 * i + 2));
    }
    watch!(cx, l.contains(4 * idx[0]) && u.contains(4 * idx[0]) && b.contains(4 * idx[0]), "set lacks a value");
    Ok(())
}
fn union_sets(cx: &mut Ctx, z: Sz) -> Verdict {
    let (s, t) = (big(cx, z.quad, 0), big(cx, z.quad, 2));
    let u = Rangetools::union(s.clone(), t.clone());
    watch!(cx, u.contains(3), "union lacks a value");
    let l = low(cx, z.quad, 0, 4 * z.quad + 9);
    let u = Rangetools::union(l, t.clone());
    watch!(cx, u.contains(3), "union lacks a value");
    let b = both(cx, z.quad, 0, -9, 4 * z.quad + 9);
    let u = Rangetools::union(b, upp(cx, z.quad, 2, -20));
    watch!(cx, u.contains(3), "union lacks a value");
    Ok(())
}
fn inter_sets(cx: &mut Ctx, z: Sz) -> Verdict {
    let (s, t) = (big(cx, z.quad, 0), big(cx, z.quad, 1));
    let i = Rangetools::intersection(s.clone(), t.clone());
    watch!(cx, i.contains(1) && !i.contains(0), "intersection is wrong at 0 or 1");
    let n = z.quad / 2;
    let t = big(cx, n, 1);
    let i = Rangetools::intersection(low(cx, n, 0, 4 * n + 9), t.clone());
    watch!(cx, i.contains(1), "intersection lacks a value");
    let i = Rangetools::intersection(low(cx, n, 0, 4 * n + 9), low(cx, n, 1, 4 * n + 15));
    watch!(cx, i.contains(1), "intersection lacks a value");
    let i = Rangetools::intersection(upp(cx, n, 0, -9), low(cx, n, 1, 4 * n + 15));
    watch!(cx, i.contains(1), "intersection lacks a value");
    let i = Rangetools::intersection(both(cx, n, 0, -9, 4 * n + 5), t);
    watch!(cx, i.contains(1), "intersection lacks a value");
    Ok(())
}
fn inter_ranges(cx: &mut Ctx, z: Sz) -> Verdict {
    let n = z.lin;
    let s = big(cx, n, 0);
    let n = n.min(4 * z.quad);
    let i = s.clone().intersection(10..=4 * n - 10);
    watch!(cx, i.contains(12) && !i.contains(8), "intersection is wrong at 8 or 12");
    let i = s.clone().intersection(10..);
    watch!(cx, i.contains(12), "intersection lacks a value");
    let i = s.clone().intersection(..=4 * n - 10);
    watch!(cx, i.contains(12), "intersection lacks a value");
    let i = low(cx, n, 0, 4 * n + 9).intersection(10..);
    watch!(cx, i.contains(12), "intersection lacks a value");
    let i = upp(cx, n, 0, -9).intersection(..4 * n - 7);
    watch!(cx, i.contains(12), "intersection lacks a value");
    Ok(())
}
fn queries(cx: &mut Ctx, z: Sz) -> Verdict {
    let s = big(cx, z.lin, 0);
    watch!(cx, s.contains(4 * z.quad) && !s.contains(2) && !s.is_empty(), "contains or is_empty is wrong");
    watch!(cx, s == s.clone(), "a clone differs");
    watch!(cx, s.clone().disjoint(2..4) && s.clone().intersects(2..5), "disjoint or intersects is wrong");
    #[cfg(feature = "ser")]
    if let Some(t) = serde_json::to_string(&s).ok().and_then(|t| serde_json::from_str::<S>(&t).ok()) {
        watch!(cx, s == t, "a round trip differs");
    }
    let l = low(cx, z.lin, 0, 4 * z.lin + 9);
    watch!(cx, l.contains(4) && !l.contains(6) && l.clone().disjoint(2..4), "queries on a lower-bounded set are wrong");
    let e = s.clone().union(S::empty());
    watch!(cx, e == s, "union with the empty set differs");
    Ok(())
}
fn iterate(cx: &mut Ctx, z: Sz) -> Verdict {
    let n = z.lin;
    let s = big(cx, n, 0);
    // the set may be smaller when built by unions
    let total = s.clone().into_iter().size_hint().0;
    watch!(cx, total % 2 == 0, "odd size");
    let (mut k, mut m) = (0usize, 0usize);
    let mut it = s.clone().into_iter();
    while it.next().is_some() && k <= total {
        k += 1;
    }
    let mut it = s.clone().into_iter();
    while it.next_back().is_some() && m <= total {
        m += 1;
    }
    watch!(cx, k == total && m == total, "yields {k} values forward and {m} backward of {total}");
    let mut it = s.clone().into_iter();
    let x = it.nth(total - 1);
    watch!(cx, x.is_some() && it.next().is_none(), "nth(last) gives {x:?}");
    let mut it = s.clone().into_iter();
    let x = it.nth_back(total - 1);
    watch!(cx, x == Some(0) && it.next().is_none(), "nth_back(last) gives {x:?}");
    let mut it = s.clone().into_iter();
    watch!(cx, it.nth(total).is_none() && it.nth_back(usize::MAX).is_none(), "nth past the end yields");
    watch!(cx, s.clone().into_iter().min() == Some(0) && s.clone().into_iter().max() == s.clone().into_iter().last(), "min, max or last is wrong");
    let l = low(cx, n, 0, 4 * n + 9);
    let mut it = l.clone().into_iter();
    let x = it.nth(total + 3);
    watch!(cx, x == Some(4 * n + 12), "nth into the unbounded part gives {x:?}");
    let mut k = 0;
    for v in l {
        k += 1;
        if v > 4 * n + 12 {
            break;
        }
    }
    watch!(cx, k == total + 5, "a loop over a lower-bounded set took {k} steps");
    // a few values from ranges of enormous length
    let whole = BoundedRange::new(LowerBound::included(i64::MIN), UpperBound::included(i64::MAX));
    let mut it = whole.into_iter();
    watch!(cx, it.nth(usize::MAX - 1) == Some(i64::MAX - 1) && it.next() == Some(i64::MAX) && it.next().is_none(), "skips over the whole type are wrong");
    watch!(cx, whole.to_set().into_iter().last() == Some(i64::MAX) && whole.into_iter().last() == Some(i64::MAX), "last over the whole type is wrong");
    watch!(cx, whole.to_set().into_iter().max() == Some(i64::MAX), "max over the whole type is wrong");
    Ok(())
}
fn complements(cx: &mut Ctx, z: Sz) -> Verdict {
    let n = z.cube;
    let c = big(cx, n, 0).complement();
    watch!(cx, c.contains(3) && !c.contains(0), "complement is wrong at 0 or 3");
    let d = c.complement();
    watch!(cx, d.contains(0) && !d.contains(3), "double complement is wrong at 0 or 3");
    let l = low(cx, n, 0, 4 * n + 9).complement();
    watch!(cx, l.contains(3) && !l.contains(4 * n + 9), "complement of a lower-bounded set is wrong");
    let u = upp(cx, n, 0, -9).complement();
    watch!(cx, u.contains(3) && !u.contains(-10), "complement of an upper-bounded set is wrong");
    Ok(())
}
