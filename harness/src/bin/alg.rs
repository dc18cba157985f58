//! Monitors of the set algebra: C01-C07, C16, C18, C21.

use rangetools::{
    Bound, BoundedRange, BoundedSet, EmptyRange, LowerBound, LowerBoundedRange, LowerBoundedSet,
    Rangetools, UnboundedRange, UnboundedSet, UpperBound, UpperBoundedRange, UpperBoundedSet,
};
use rtmon::dynv::*;
use rtmon::elem::*;
use rtmon::gen::*;
use rtmon::model::*;
use rtmon::runner::*;
use rtmon::{broken, watch, with_all};
use serde_json::Value;
use std::hash::{Hash, Hasher};

fn main() {
    rtmon::runner::main(&[
        Prop { id: "C01", quick: 400_000, thorough: 60_000_000, case: c01, small_stack: false, compared: false,
            rule: "operands of every pair of the 15 types (case number modulo 225) with endpoints on a small grid of points, for 4 element types; union in both orders; probes at every endpoint, its neighbours, gap middles and type limits. Non-trivial: some probe lies in exactly one operand." },
        Prop { id: "C02", quick: 400_000, thorough: 60_000_000, case: c02, small_stack: false, compared: false,
            rule: "operands of every pair of the 15 types (case number modulo 225) with endpoints on a small grid of points, for 4 element types; intersection in both orders; probes at every endpoint, its neighbours, gap middles and type limits. Non-trivial: some probe lies in both operands and some in exactly one." },
        Prop { id: "C03", quick: 400_000, thorough: 60_000_000, case: c03, small_stack: false, compared: false,
            rule: "operands of all 15 types, complemented once, twice and three times; same probes. Non-trivial: some probe lies inside and some outside the operand." },
        Prop { id: "C04", quick: 500_000, thorough: 60_000_000, case: c04, small_stack: false, compared: false,
            rule: "values of all 15 types by every constructor and route; contains, is_empty, to_inner, to_set against the bounds given to the constructors. Non-trivial: some probe lies inside and some outside." },
        Prop { id: "C05", quick: 500_000, thorough: 60_000_000, case: c05, small_stack: false, compared: false,
            rule: "operands of every pair of types; disjoint and intersects in both orders against the reference model and against the emptiness of the intersection. Non-trivial: neither operand is empty." },
        Prop { id: "C06", quick: 60_000, thorough: 10_000_000, case: c06, small_stack: false, compared: false,
            rule: "histories of 8 to 40 operations over a pool of values of all types; after each, the serialised pieces of a resulting set are checked and iterable results are walked. Non-trivial: some checked set had at least two pieces." },
        Prop { id: "C07", quick: 150_000, thorough: 20_000_000, case: c07, small_stack: false, compared: false,
            rule: "2 to 5 sets united and intersected in several random orders and groupings, compared by == and hash; near-miss variants compared with the original. Non-trivial: a result has at least two pieces." },
        #[cfg(feature = "ser")]
        Prop { id: "C16", quick: 150_000, thorough: 20_000_000, case: c16, small_stack: false, compared: false,
            rule: "bounds, ranges and sets of every crate type through JSON text, JSON values and bincode; result compared, probed and used as an operand. Non-trivial: some probe lies inside and some outside." },
        Prop { id: "C18", quick: 150_000, thorough: 30_000_000, case: c18, small_stack: false, compared: false,
            rule: "random expression trees of up to 24 leaves over all types evaluated step by step against the reference model. Non-trivial: the value contains some probe and lacks some." },
        Prop { id: "C21", quick: 400_000, thorough: 60_000_000, case: c21, small_stack: false, compared: false,
            rule: "operands of every pair of the 15 types, each in every form that can express it (std range, the crate's range, set, set of an equal range); all operations and queries on all pairs of forms, results compared as sets by ==, hash and iteration. Non-trivial: some operand has several forms and neither is empty." },
        Prop { id: "C17a", quick: 400_000, thorough: 60_000_000, case: c17a, small_stack: true, compared: false,
            rule: "every pair of types, half with bounds only at the limits, next to them, or in the middle of the element type, equal and inverted included, half with bounds anywhere and up to hundreds of pieces, and histories of up to 30 operations on such values; every operation and query watched for panics, crashes and runaway work on a default-sized stack. Non-trivial: neither operand is empty." },
    ]);
}

const NT: u64 = 4;
macro_rules! for_type {
    ($sel:expr, $f:ident, $cx:expr) => {
        match $sel % NT {
            0 => $f::<u8>($cx),
            1 => $f::<i64>($cx),
            2 => $f::<char>($cx),
            _ => $f::<Lex>($cx),
        }
    };
}

/// One land in `odds` is for very large sets, of at most `most` points.
fn land_for<T: Elem>(cx: &mut Ctx, odds: u64, most: usize) -> (Land<T>, Vec<T>) {
    let mut land = Land::<T>::any_or_huge(&mut cx.rng, cx.depth, odds);
    land.pts.truncate(most);
    if land.pts.len() > HUGE {
        cx.label("room for very large sets");
    }
    let probes = land.probes();
    cx.label(T::NAME);
    cx.label(land.style);
    let s = land.style;
    cx.log(|| format!("element type {}, {} grid points {s}", T::NAME, land.pts.len()));
    (land, probes)
}
fn show<T: Elem>(cx: &mut Ctx, name: &str, d: &Dyn<T>) {
    cx.log(|| format!("{name} = {} {d:?}", KINDS[d.kind()]));
}

// ---------------------------------------------------------------- C01, C02

fn c01(cx: &mut Ctx) -> Verdict {
    for_type!(cx.case / 225, c01_t, cx)
}
fn c02(cx: &mut Ctx) -> Verdict {
    for_type!(cx.case / 225, c02_t, cx)
}
fn c01_t<T: Elem>(cx: &mut Ctx) -> Verdict {
    pointwise::<T>(cx, "union", Dyn::union, |a, b| a || b)
}
fn c02_t<T: Elem>(cx: &mut Ctx) -> Verdict {
    pointwise::<T>(cx, "intersection", Dyn::intersection, |a, b| a && b)
}
fn pointwise<T: Elem>(
    cx: &mut Ctx,
    name: &'static str,
    op: fn(Dyn<T>, Dyn<T>) -> Dyn<T>,
    law: fn(bool, bool) -> bool,
) -> Verdict {
    let (ka, kb) = ((cx.case % 15) as usize, (cx.case / 15 % 15) as usize);
    let (land, probes) = land_for::<T>(cx, 700, 9000);
    cx.setup = true;
    let (a, _) = operand(&mut cx.rng, &land, ka);
    let (b, _) = operand(&mut cx.rng, &land, kb);
    show(cx, "a", &a);
    show(cx, "b", &b);
    cx.setup = false;
    cx.sig(&a);
    cx.sig(&b);
    let (mut x, mut y) = (a, b);
    // continue with the result as an operand in some cases
    let rounds = if cx.chance(1, 4) { 3 } else { 1 };
    for round in 0..rounds {
        let r = op(x.clone(), y.clone());
        show(cx, "a op b", &r);
        let q = op(y.clone(), x.clone());
        show(cx, "b op a", &q);
        cx.calls += 2;
        let (mut both, mut one) = (false, false);
        for &p in &probes {
            let (ia, ib) = (x.has(p), y.has(p));
            both |= ia && ib;
            one |= ia != ib;
            let want = law(ia, ib);
            watch!(cx, r.has(p) == want, "{name} of {} and {}: value {p:?} is in a: {ia}, in b: {ib}, but in the {name}: {}", KINDS[x.kind()], KINDS[y.kind()], !want);
            watch!(cx, q.has(p) == want, "{name} of {} and {} (swapped): value {p:?} is in a: {ia}, in b: {ib}, but in the {name}: {}", KINDS[y.kind()], KINDS[x.kind()], !want);
        }
        if round == 0 {
            cx.nontrivial = one && (name == "union" || both);
        }
        if round + 1 < rounds {
            cx.setup = true;
            let k = cx.rng.below(15) as usize;
            let (c, _) = operand(&mut cx.rng, &land, k);
            show(cx, "next operand", &c);
            cx.setup = false;
            cx.label("result reused as operand");
            if cx.chance(1, 2) {
                x = r;
                y = c;
            } else {
                x = c;
                y = q;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

fn c03(cx: &mut Ctx) -> Verdict {
    for_type!(cx.case / 15, c03_t, cx)
}
fn c03_t<T: Elem>(cx: &mut Ctx) -> Verdict {
    let (land, probes) = land_for::<T>(cx, 2000, 700);
    cx.setup = true;
    let k = (cx.case % 15) as usize;
    let (a, _) = operand(&mut cx.rng, &land, k);
    show(cx, "a", &a);
    cx.setup = false;
    cx.sig(&a);
    cx.label(KINDS[k]);
    let c = a.clone().complement();
    show(cx, "complement", &c);
    let cc = c.clone().complement();
    show(cx, "complement twice", &cc);
    let ccc = cc.clone().complement();
    cx.calls += 3;
    let (mut i, mut o) = (false, false);
    for &p in &probes {
        let ia = a.has(p);
        i |= ia;
        o |= !ia;
        watch!(cx, c.has(p) != ia, "complement of {}: value {p:?} is in the operand: {ia}, in its complement: {ia}", KINDS[k]);
        watch!(cx, cc.has(p) == ia, "complement twice of {}: value {p:?} is in the operand: {ia}, in the result: {}", KINDS[k], !ia);
        watch!(cx, ccc.has(p) != ia, "complement thrice of {}: value {p:?} is in the operand: {ia}, in the result: {ia}", KINDS[k]);
    }
    cx.nontrivial = i && o;
    Ok(())
}

// ---------------------------------------------------------------- C04

fn c04(cx: &mut Ctx) -> Verdict {
    for_type!(cx.case / 32, c04_t, cx)
}
fn c04_t<T: Elem>(cx: &mut Ctx) -> Verdict {
    let (land, probes) = land_for::<T>(cx, 700, 9000);
    let sel = cx.case % 32;
    let (d, m): (Dyn<T>, MSet<T>) = match sel {
        0..=14 => operand(&mut cx.rng, &land, sel as usize),
        15 => {
            let r = brange(&mut cx.rng, &land);
            (BoundedSet::from(r).into(), br_model(&r))
        }
        16 => {
            let (a, b) = ends(&mut cx.rng, &land);
            (BoundedRange::from(a..b).into(), MSet::piece(Cut::At(a, false), Cut::At(b, false)))
        }
        17 => {
            let (a, b) = ends(&mut cx.rng, &land);
            (BoundedRange::from(a..=b).into(), MSet::piece(Cut::At(a, false), Cut::At(b, true)))
        }
        18 => {
            let a = land.pt(&mut cx.rng);
            (LowerBoundedRange::from(a..).into(), MSet::piece(Cut::At(a, false), Cut::Pos))
        }
        19 => {
            let a = land.pt(&mut cx.rng);
            (UpperBoundedRange::from(..a).into(), MSet::piece(Cut::Neg, Cut::At(a, false)))
        }
        20 => {
            let a = land.pt(&mut cx.rng);
            (UpperBoundedRange::from(..=a).into(), MSet::piece(Cut::Neg, Cut::At(a, true)))
        }
        21 => {
            let a = land.pt(&mut cx.rng);
            let b = bound(&mut cx.rng, a);
            let start: LowerBound<T> = b.into();
            let m = MSet::piece(lo_cut(start), Cut::Pos);
            (LowerBoundedSet::from(LowerBoundedRange { start }).into(), m)
        }
        22 => {
            let a = land.pt(&mut cx.rng);
            let b = bound(&mut cx.rng, a);
            let end: UpperBound<T> = b.into();
            let m = MSet::piece(Cut::Neg, hi_cut(end));
            (UpperBoundedSet::from(UpperBoundedRange { end }).into(), m)
        }
        23 | 24 => {
            let (a, b) = ends(&mut cx.rng, &land);
            let (u, l) = (upper(&mut cx.rng, a), lower(&mut cx.rng, b));
            let m = MSet::piece(Cut::Neg, hi_cut(u)).union(&MSet::piece(lo_cut(l), Cut::Pos));
            (UnboundedSet::new(UpperBoundedRange { end: u }, LowerBoundedRange { start: l }).into(), m)
        }
        25 => (UnboundedSet::from(UnboundedRange).into(), MSet::full()),
        26 => match cx.rng.below(4) {
            0 => (UnboundedRange::default().into(), MSet::full()),
            1 => (UnboundedRange::from(..).into(), MSet::full()),
            2 => (BoundedSet::<T>::empty().into(), MSet::empty()),
            _ => (EmptyRange::<T>::new().into(), MSet::empty()),
        },
        // sets read from their serialised form, so independent of the union code
        _ => {
            let k = 11 + cx.rng.below(4) as usize;
            match parsed_set(cx, &land, k) {
                Some(x) => {
                    cx.label("built by deserialisation");
                    x
                }
                None => operand(&mut cx.rng, &land, k),
            }
        }
    };
    show(cx, "value", &d);
    cx.sig(&d);
    cx.label(KINDS[d.kind()]);
    let e = d.is_empty();
    watch!(cx, e == m.is_empty(), "{} built with contents {:?}: is_empty() = {e}", KINDS[d.kind()], m.0);
    let inner = d.clone().to_inner();
    let set = d.clone().to_set();
    show(cx, "to_inner", &inner);
    show(cx, "to_set", &set);
    watch!(cx, inner.is_empty() == e && set.is_empty() == e, "{}: is_empty() = {e}, of to_inner {}, of to_set {}", KINDS[d.kind()], inner.is_empty(), set.is_empty());
    cx.calls += 3;
    let (mut i, mut o) = (false, false);
    for &p in &probes {
        let w = m.contains(p);
        i |= w;
        o |= !w;
        watch!(cx, d.has(p) == w, "{} with contents {:?}: contains({p:?}) = {}", KINDS[d.kind()], m.0, !w);
        watch!(cx, inner.has(p) == w, "to_inner of {} with contents {:?}: contains({p:?}) = {}", KINDS[d.kind()], m.0, !w);
        watch!(cx, set.has(p) == w, "to_set of {} with contents {:?}: contains({p:?}) = {}", KINDS[d.kind()], m.0, !w);
    }
    cx.nontrivial = i && o;
    Ok(())
}

/// A set of disjoint pieces, spliced together without the crate's set operations.
fn parsed_set<T: Elem>(cx: &mut Ctx, land: &Land<T>, kind: usize) -> Option<(Dyn<T>, MSet<T>)> {
    let mut m = pieces_model(&pieces(&mut cx.rng, land));
    let (mut l, mut u) = (None, None);
    if kind == 12 || kind == 14 {
        let p = land.pts[land.pts.len() - 1 - cx.rng.below(land.pts.len().min(3) as u64) as usize];
        m = m.union(&MSet::piece(lo_cut(lower(&mut cx.rng, p)), Cut::Pos));
    }
    if kind == 13 || kind == 14 {
        let p = land.pts[cx.rng.below(land.pts.len().min(3) as u64) as usize];
        m = m.union(&MSet::piece(Cut::Neg, hi_cut(upper(&mut cx.rng, p))));
    }
    if m == MSet::full() {
        return Some((Dyn::US(UnboundedSet::Full), m));
    }
    for &(a, b) in &m.0 {
        match (from_cuts(&mut cx.rng, a, b).to_inner(), a, b) {
            (Dyn::UBR(r), Cut::Neg, _) => u = Some(r),
            (Dyn::LBR(r), _, Cut::Pos) => l = Some(r),
            _ => {}
        }
    }
    let d = assemble(&pieces_of(&m), l, u)?;
    if d.kind() != kind {
        return None;
    }
    Some((d, m))
}

// ---------------------------------------------------------------- C05

fn c05(cx: &mut Ctx) -> Verdict {
    for_type!(cx.case / 225, c05_t, cx)
}
fn c05_t<T: Elem>(cx: &mut Ctx) -> Verdict {
    let (ka, kb) = ((cx.case % 15) as usize, (cx.case / 15 % 15) as usize);
    let (land, _) = land_for::<T>(cx, 700, 9000);
    cx.setup = true;
    let (a, ma) = operand(&mut cx.rng, &land, ka);
    let (b, mb) = match cx.rng.below(6) {
        // pieces in the gaps of a: the close calls
        0 if kb >= 11 || kb == 6 => {
            let gaps = ma.complement();
            let (b, _) = operand(&mut cx.rng, &land, kb);
            let r = match (b.clone(), gaps.0.iter().filter(|g| matches!(g, (Cut::At(..), Cut::At(..)))).count()) {
                (Dyn::BS(_), n) if n > 0 => {
                    let v: Vec<Dyn<T>> = pieces_of(&gaps).into_iter().map(|p| dress(&mut cx.rng, p)).collect();
                    let mut v = v;
                    v.push(Dyn::BS(BoundedSet::empty()));
                    (unite(&mut cx.rng, v), pieces_model(&pieces_of(&gaps)))
                }
                (Dyn::BR(_), n) if n > 0 => {
                    let ps = pieces_of(&gaps);
                    let r = *cx.rng.pick(&ps);
                    (Dyn::BR(r), br_model(&r))
                }
                _ => operand(&mut cx.rng, &land, kb),
            };
            cx.label("operand fills the gaps of the other");
            r
        }
        _ => operand(&mut cx.rng, &land, kb),
    };
    show(cx, "a", &a);
    show(cx, "b", &b);
    cx.setup = false;
    cx.sig(&a);
    cx.sig(&b);
    let want = ma.intersection(&mb).is_empty();
    let names = || format!("{} and {}", KINDS[ka], KINDS[kb]);
    let d = a.clone().disjoint(b.clone());
    watch!(cx, d == want, "disjoint of {}: {d}, though the common part of the bounds is {:?}", names(), ma.intersection(&mb).0);
    let d2 = b.clone().disjoint(a.clone());
    watch!(cx, d2 == want, "disjoint of {} swapped: {d2}, though the common part of the bounds is {:?}", names(), ma.intersection(&mb).0);
    let i = a.clone().intersects(b.clone());
    watch!(cx, i != want, "intersects of {}: {i}, disjoint: {d}", names());
    let i2 = b.clone().intersects(a.clone());
    watch!(cx, i2 != want, "intersects of {} swapped: {i2}, disjoint: {d}", names());
    let e = a.clone().intersection(b.clone()).is_empty();
    watch!(cx, e == want, "intersection of {} is empty: {e}, disjoint: {d}", names());
    cx.calls += 5;
    cx.label(if want { "disjoint" } else { "overlapping" });
    cx.nontrivial = !ma.is_empty() && !mb.is_empty();
    Ok(())
}

// ---------------------------------------------------------------- C06

fn c06(cx: &mut Ctx) -> Verdict {
    for_type!(cx.case, c06_t, cx)
}

type Piece<T> = (Option<(bool, T)>, Option<(bool, T)>); // (excluded?, value)

/// Collects everything that looks like a piece from a serialised set.
fn find_pieces<T: Elem>(v: &Value, out: &mut Vec<Piece<T>>) -> Option<()> {
    fn b<T: Elem>(v: Option<&Value>) -> Option<Option<(bool, T)>> {
        let Some(v) = v else { return Some(None) };
        let o = v.as_object()?;
        let (k, t) = o.iter().next()?;
        let t: T = serde_json::from_value(t.clone()).ok()?;
        match k.as_str() {
            "Excluded" => Some(Some((true, t))),
            "Included" => Some(Some((false, t))),
            _ => None,
        }
    }
    match v {
        Value::Object(o) if o.contains_key("start") || o.contains_key("end") => {
            out.push((b(o.get("start"))?, b(o.get("end"))?));
        }
        Value::Object(o) => {
            for x in o.values() {
                find_pieces(x, out)?;
            }
        }
        Value::Array(a) => {
            for x in a {
                find_pieces(x, out)?;
            }
        }
        _ => {}
    }
    Some(())
}

/// The same for a form with other names: whatever the crate itself reads as a range is a piece.
#[cfg(feature = "ser")]
fn learnt_pieces<T: Elem>(v: &Value, out: &mut Vec<Piece<T>>) {
    use serde::Deserialize;
    let of = |b: Bound<T>| match b {
        Bound::Excluded(t) => (true, t),
        Bound::Included(t) => (false, t),
    };
    if let Ok(r) = BoundedRange::<T>::deserialize(v) {
        out.push((Some(of(r.start.to_bound())), Some(of(r.end.to_bound()))));
    } else if let Ok(r) = LowerBoundedRange::<T>::deserialize(v) {
        out.push((Some(of(r.start.to_bound())), None));
    } else if let Ok(r) = UpperBoundedRange::<T>::deserialize(v) {
        out.push((None, Some(of(r.end.to_bound()))));
    } else {
        match v {
            Value::Object(o) => o.values().for_each(|x| learnt_pieces(x, out)),
            Value::Array(a) => a.iter().for_each(|x| learnt_pieces(x, out)),
            _ => {}
        }
    }
}

/// The normal-form monitor. Returns the number of pieces.
fn normal_form<T: Elem>(cx: &mut Ctx, d: &Dyn<T>) -> Result<usize, Broken> {
    let Some(j) = d.json() else { return Ok(0) };
    let mut ps: Vec<Piece<T>> = vec![];
    let plain = find_pieces(&j, &mut ps).is_some() && (!ps.is_empty() || d.is_empty());
    #[cfg(feature = "ser")]
    if !plain {
        ps.clear();
        learnt_pieces(&j, &mut ps);
        cx.label("serialised form learnt from the ranges");
    }
    if !plain && ps.is_empty() {
        return Ok(0);
    }
    cx.label("serialised sets inspected");
    let lo = |p: &Piece<T>| p.0.map_or(Cut::Neg, |(x, t)| Cut::At(t, x));
    let hi = |p: &Piece<T>| p.1.map_or(Cut::Pos, |(x, t)| Cut::At(t, !x));
    let mut prev: Option<Piece<T>> = None;
    for p in ps.iter().filter(|p| p.0.is_some() && p.1.is_some()) {
        if lo(p) >= hi(p) {
            broken!("{} has an empty piece {p:?}: {j}", KINDS[d.kind()]);
        }
        if let Some(q) = prev {
            watch!(cx, hi(&q) <= lo(p), "{} has pieces out of order or overlapping, {q:?} before {p:?}: {j}", KINDS[d.kind()]);
        }
        prev = Some(*p);
        cx.events += 1;
    }
    for (n, p) in ps.iter().enumerate() {
        if p.0.is_some() && p.1.is_some() {
            continue;
        }
        for (n2, q) in ps.iter().enumerate() {
            if n != n2 {
                watch!(cx, hi(p) <= lo(q) || hi(q) <= lo(p), "{} has overlapping pieces {p:?} and {q:?}: {j}", KINDS[d.kind()]);
            }
        }
    }
    Ok(ps.len())
}

fn c06_t<T: Elem>(cx: &mut Ctx) -> Verdict {
    let (land, _) = land_for::<T>(cx, 3000, 3000);
    let small = land.pts.len() <= 60;
    let huge = land.pts.len() > 700;
    let mut pool: Vec<Dyn<T>> = vec![];
    for _ in 0..4 {
        let k = cx.rng.below(15) as usize;
        let (d, _) = operand(&mut cx.rng, &land, k);
        show(cx, "initially", &d);
        cx.sig(&d);
        normal_form(cx, &d)?;
        let s = d.clone().to_set();
        show(cx, "as a set", &s);
        normal_form(cx, &s)?;
        if let Dyn::BR(r) = d {
            normal_form(cx, &Dyn::BS(BoundedSet::from(r)))?;
        }
        pool.push(d);
    }
    let steps = if small { 8 + cx.rng.below(33) } else { 4 + cx.rng.below(5) };
    for _ in 0..steps {
        let a = cx.rng.pick(&pool).clone();
        let b = if cx.chance(1, 3) {
            let k = cx.rng.below(15) as usize;
            operand(&mut cx.rng, &land, k).0
        } else {
            cx.rng.pick(&pool).clone()
        };
        let (op, r) = match cx.rng.below(10) {
            0..=3 => ("union", a.clone().union(b.clone())),
            4..=6 => ("intersection", a.clone().intersection(b.clone())),
            7 | 8 if !huge => ("complement", a.clone().complement()),
            _ => ("to_set", a.clone().to_set()),
        };
        cx.calls += 1;
        cx.label(op);
        if cx.tracing() {
            cx.log(|| format!("{op} of {a:?} and {b:?} = {r:?}"));
        }
        let n = normal_form(cx, &r)?;
        cx.nontrivial |= n >= 2;
        if let Some(v) = T::walk(&r, 300) {
            cx.label("results iterated");
            for w in v.windows(2) {
                watch!(cx, w[0] < w[1], "iterating {} {r:?} yields {:?} and then {:?}", KINDS[r.kind()], w[0], w[1]);
            }
        }
        if n <= 400 {
            cx.sig(&r);
            if pool.len() < 8 {
                pool.push(r);
            } else {
                let i = cx.rng.below(8) as usize;
                pool[i] = r;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

fn hash_of(x: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn hash_dyn<T: Elem>(d: &Dyn<T>) -> u64 {
    with_all!(d, x => hash_of(x))
}
/// == and != of the underlying types (None for different types).
fn eq_dyn<T: Elem>(a: &Dyn<T>, b: &Dyn<T>) -> Option<(bool, bool)> {
    Some(match (a, b) {
        (Dyn::R(x), Dyn::R(y)) => (x == y, x != y),
        (Dyn::RF(x), Dyn::RF(y)) => (x == y, x != y),
        (Dyn::RU(x), Dyn::RU(y)) => (x == y, x != y),
        (Dyn::RI(x), Dyn::RI(y)) => (x == y, x != y),
        (Dyn::RT(x), Dyn::RT(y)) => (x == y, x != y),
        (Dyn::RTI(x), Dyn::RTI(y)) => (x == y, x != y),
        (Dyn::BR(x), Dyn::BR(y)) => (x == y, x != y),
        (Dyn::LBR(x), Dyn::LBR(y)) => (x == y, x != y),
        (Dyn::UBR(x), Dyn::UBR(y)) => (x == y, x != y),
        (Dyn::UR(x), Dyn::UR(y)) => (x == y, x != y),
        (Dyn::ER(x), Dyn::ER(y)) => (x == y, x != y),
        (Dyn::BS(x), Dyn::BS(y)) => (x == y, x != y),
        (Dyn::LBS(x), Dyn::LBS(y)) => (x == y, x != y),
        (Dyn::UBS(x), Dyn::UBS(y)) => (x == y, x != y),
        (Dyn::US(x), Dyn::US(y)) => (x == y, x != y),
        _ => return None,
    })
}

fn regroup<T: Elem>(cx: &mut Ctx, xs: &[Dyn<T>], op: fn(Dyn<T>, Dyn<T>) -> Dyn<T>) -> Dyn<T> {
    // a random binary tree over a random permutation
    let mut v: Vec<Dyn<T>> = xs.to_vec();
    cx.rng.shuffle(&mut v);
    while v.len() > 1 {
        let i = cx.rng.below(v.len() as u64) as usize;
        let a = v.swap_remove(i);
        let j = cx.rng.below(v.len() as u64) as usize;
        let b = v.swap_remove(j);
        v.push(op(a, b));
        cx.calls += 1;
    }
    v.pop().unwrap()
}

fn c07(cx: &mut Ctx) -> Verdict {
    for_type!(cx.case, c07_t, cx)
}
fn c07_t<T: Elem>(cx: &mut Ctx) -> Verdict {
    let (land, probes) = land_for::<T>(cx, 4000, 700);
    let n = if land.pts.len() > 100 { 2 } else { 2 + cx.rng.below(4) };
    cx.setup = true;
    let mut xs: Vec<Dyn<T>> = vec![];
    for i in 0..n {
        let k = 11 + if i == 0 { cx.case / NT % 4 } else { cx.rng.below(4) } as usize;
        let (d, _) = operand(&mut cx.rng, &land, k);
        show(cx, "operand", &d);
        cx.sig(&d);
        xs.push(d);
    }
    cx.setup = false;
    let ops: [(&str, fn(Dyn<T>, Dyn<T>) -> Dyn<T>); 2] = [("union", Dyn::union), ("intersection", Dyn::intersection)];
    for (name, op) in ops {
        let base = xs[1..].iter().fold(xs[0].clone(), |a, b| op(a, b.clone()));
        show(cx, name, &base);
        for _ in 0..3 {
            let other = regroup(cx, &xs, op);
            show(cx, "regrouped", &other);
            match eq_dyn(&base, &other) {
                Some((eq, ne)) => {
                    watch!(cx, eq && !ne, "{name} of the same {n} sets in another order or grouping: {base:?} and {other:?} (== gives {eq}, != gives {ne})");
                    watch!(cx, hash_dyn(&base) == hash_dyn(&other), "{name} of the same {n} sets in another order hashes differently: {base:?} and {other:?}");
                }
                None => {
                    // a grouping may have another type only where an operation says so
                    cx.label("different result types");
                    for &p in &probes {
                        watch!(cx, base.has(p) == other.has(p), "{name} in another grouping differs at {p:?}: {base:?} and {other:?}");
                    }
                }
            }
        }
        let mut turns = 0;
        let mut last = None;
        for &p in &probes {
            let h = base.has(p);
            turns += (h && last != Some(true)) as u32;
            last = Some(h);
        }
        cx.nontrivial |= turns >= 2;
        xs.push(base);
    }
    for x in &xs.clone() {
        for (what, y) in [
            ("union with itself", x.clone().union(x.clone())),
            ("intersection with itself", x.clone().intersection(x.clone())),
            ("union with the empty range", x.clone().union(Dyn::ER(EmptyRange::new()))),
            ("union of the empty range with it", Dyn::ER(EmptyRange::new()).union(x.clone())),
            ("union with the empty set", x.clone().union(Dyn::BS(BoundedSet::empty()))),
            ("union of the empty set with it", Dyn::BS(BoundedSet::empty()).union(x.clone())),
            ("clone", x.clone()),
            ("to_set", x.clone().to_set()),
        ] {
            cx.calls += 1;
            if let Some((eq, ne)) = eq_dyn(x, &y) {
                watch!(cx, eq && !ne && hash_dyn(x) == hash_dyn(&y), "{what} changed {x:?} into {y:?} (== gives {eq}, != gives {ne})");
            } else {
                cx.label("different result types");
            }
        }
    }
    // soundness of == between values that arise
    let k = cx.rng.below(15) as usize;
    let (a, _) = operand(&mut cx.rng, &land, k);
    let (b, _) = operand(&mut cx.rng, &land, k);
    xs.push(a.clone());
    xs.push(b);
    xs.push(nudge(cx, &land, &a));
    let s = cx.rng.pick(&xs).clone();
    xs.push(nudge(cx, &land, &s));
    for i in 0..xs.len() {
        for j in 0..xs.len() {
            let Some((eq, ne)) = eq_dyn(&xs[i], &xs[j]) else { continue };
            watch!(cx, eq != ne, "== and != agree on {:?} and {:?}", xs[i], xs[j]);
            if let Some(c) = xs[i].clone_over(&xs[j]) {
                cx.calls += 1;
                watch!(cx, eq_dyn(&c, &xs[i]) == Some((true, false)) && hash_dyn(&c) == hash_dyn(&xs[i]), "clone_from of {:?} over {:?} gave {c:?}", xs[i], xs[j]);
            }
            let back = eq_dyn(&xs[j], &xs[i]);
            watch!(cx, back == Some((eq, ne)), "== is not symmetric on {:?} and {:?}", xs[i], xs[j]);
            if eq {
                cx.label("equal pairs");
                watch!(cx, hash_dyn(&xs[i]) == hash_dyn(&xs[j]), "equal values hash differently: {:?} and {:?}", xs[i], xs[j]);
                for &p in &probes {
                    watch!(cx, xs[i].has(p) == xs[j].has(p), "equal values differ at {p:?}: {:?} and {:?}", xs[i], xs[j]);
                }
            } else {
                cx.label("unequal pairs");
                watch!(cx, i != j, "a value is not equal to itself: {:?}", xs[i]);
            }
        }
    }
    Ok(())
}
/// A value like the given one but for one endpoint.
fn nudge<T: Elem>(cx: &mut Ctx, land: &Land<T>, d: &Dyn<T>) -> Dyn<T> {
    let p = land.pt(&mut cx.rng);
    let lo = lower(&mut cx.rng, p);
    let hi = upper(&mut cx.rng, p);
    match d {
        Dyn::BR(r) => Dyn::BR(if cx.chance(1, 2) { BoundedRange { start: lo, ..*r } } else { BoundedRange { end: hi, ..*r } }),
        Dyn::LBR(r) => Dyn::LBR(LowerBoundedRange { start: flip_l(r.start) }),
        Dyn::UBR(r) => Dyn::UBR(UpperBoundedRange { end: flip_u(r.end) }),
        Dyn::BS(_) | Dyn::LBS(_) | Dyn::UBS(_) | Dyn::US(_) => {
            d.clone().union(Dyn::BR(BoundedRange::new(LowerBound::included(p), UpperBound::included(p))))
        }
        _ => d.clone(),
    }
}
fn flip_l<T: Elem>(b: LowerBound<T>) -> LowerBound<T> {
    match b.to_bound() {
        Bound::Included(t) => LowerBound::excluded(t),
        Bound::Excluded(t) => LowerBound::included(t),
    }
}
fn flip_u<T: Elem>(b: UpperBound<T>) -> UpperBound<T> {
    match b.to_bound() {
        Bound::Included(t) => UpperBound::excluded(t),
        Bound::Excluded(t) => UpperBound::included(t),
    }
}

// ---------------------------------------------------------------- C16

#[cfg(feature = "ser")]
fn c16(cx: &mut Ctx) -> Verdict {
    match cx.case % 6 {
        0 => c16_t::<u8>(cx),
        1 => c16_t::<i64>(cx),
        2 => c16_t::<char>(cx),
        3 => c16_t::<Lex>(cx),
        4 => c16_wide::<u128>(cx),
        _ => c16_wide::<i128>(cx),
    }
}

#[cfg(feature = "ser")]
fn trip<V>(cx: &mut Ctx, what: &'static str, v: &V) -> Result<Vec<V>, Broken>
where
    V: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug + Clone + Hash,
{
    let mut out = vec![];
    cx.label(what);
    let fail = |w: &str, e: String| Broken(format!("{what} {v:?}: {w}: {e}"));
    let text = serde_json::to_string(v).map_err(|e| fail("to JSON", e.to_string()))?;
    cx.log(|| format!("{what} {v:?} as JSON {text}"));
    out.push(serde_json::from_str::<V>(&text).map_err(|e| fail(&format!("from JSON {text}"), e.to_string()))?);
    let pretty = serde_json::to_vec_pretty(v).map_err(|e| fail("to pretty JSON", e.to_string()))?;
    out.push(serde_json::from_slice::<V>(&pretty).map_err(|e| fail("from pretty JSON", e.to_string()))?);
    if let Ok(val) = serde_json::to_value(v) {
        out.push(serde_json::from_value::<V>(val.clone()).map_err(|e| fail(&format!("from JSON value {val}"), e.to_string()))?);
        out.push(V::deserialize(&val).map_err(|e| fail(&format!("from borrowed JSON value {val}"), e.to_string()))?);
    }
    let bin = bincode::serialize(v).map_err(|e| fail("to bincode", e.to_string()))?;
    out.push(bincode::deserialize::<V>(&bin).map_err(|e| fail(&format!("from bincode {bin:?}"), e.to_string()))?);
    // embedded in larger data
    let nested = serde_json::to_string(&vec![(1u8, v, "x"), (2, v, "y")]).map_err(|e| fail("to JSON", e.to_string()))?;
    let back: Vec<(u8, V, String)> = serde_json::from_str(&nested).map_err(|e| fail("nested from JSON", e.to_string()))?;
    out.push(back.into_iter().nth(1).unwrap().1);
    let nested = bincode::serialize(&(7u32, v, 9u64)).map_err(|e| fail("to bincode", e.to_string()))?;
    let (a, w, b): (u32, V, u64) = bincode::deserialize(&nested).map_err(|e| fail("nested from bincode", e.to_string()))?;
    watch!(cx, a == 7 && b == 9, "{what} {v:?}: neighbours in bincode corrupted");
    out.push(w);
    cx.calls += 12;
    let c = v.clone();
    for w in &out {
        watch!(cx, *w == *v && *v == *w, "{what} {v:?} came back as {w:?}");
        watch!(cx, hash_of(w) == hash_of(v), "{what} {v:?} came back with another hash");
        watch!(cx, serde_json::to_string(w).ok().as_ref() == Some(&text), "{what} {v:?} came back serialising differently");
        watch!(cx, bincode::serialize(w).ok().as_ref() == Some(&bin), "{what} {v:?} came back serialising differently (bincode)");
    }
    watch!(cx, serde_json::to_string(&c).ok() == Some(text), "clone of {what} {v:?} serialises differently");
    Ok(out)
}

#[cfg(feature = "ser")]
fn trip_dyn<T: Elem>(cx: &mut Ctx, d: &Dyn<T>) -> Result<Vec<Dyn<T>>, Broken> {
    Ok(match d {
        Dyn::BR(x) => trip(cx, "BoundedRange", x)?.into_iter().map(Dyn::from).collect(),
        Dyn::LBR(x) => trip(cx, "LowerBoundedRange", x)?.into_iter().map(Dyn::from).collect(),
        Dyn::UBR(x) => trip(cx, "UpperBoundedRange", x)?.into_iter().map(Dyn::from).collect(),
        Dyn::UR(x) => trip(cx, "UnboundedRange", x)?.into_iter().map(Dyn::from).collect(),
        Dyn::ER(x) => trip(cx, "EmptyRange", x)?.into_iter().map(Dyn::from).collect(),
        Dyn::BS(x) => trip(cx, "BoundedSet", x)?.into_iter().map(Dyn::from).collect(),
        Dyn::LBS(x) => trip(cx, "LowerBoundedSet", x)?.into_iter().map(Dyn::from).collect(),
        Dyn::UBS(x) => trip(cx, "UpperBoundedSet", x)?.into_iter().map(Dyn::from).collect(),
        Dyn::US(x) => {
            if let UnboundedSet::Piecewise(p) = x {
                trip(cx, "PiecewiseUnboundedSet", p)?;
            }
            trip(cx, "UnboundedSet", x)?.into_iter().map(Dyn::from).collect()
        }
        _ => vec![],
    })
}

#[cfg(feature = "ser")]
fn bounds_trip<T: Elem>(cx: &mut Ctx, land: &Land<T>) -> Verdict {
    let p = land.pt(&mut cx.rng);
    let (l, u, b) = (lower(&mut cx.rng, p), upper(&mut cx.rng, p), bound(&mut cx.rng, p));
    trip(cx, "LowerBound", &l)?;
    trip(cx, "UpperBound", &u)?;
    trip(cx, "Bound", &b)?;
    Ok(())
}

#[cfg(feature = "ser")]
fn c16_t<T: Elem>(cx: &mut Ctx) -> Verdict {
    let (land, probes) = land_for::<T>(cx, 4000, 600);
    bounds_trip(cx, &land)?;
    cx.setup = true;
    let k = 6 + (cx.case / 6 % 9) as usize;
    let (mut d, _) = operand(&mut cx.rng, &land, k);
    if cx.chance(1, 3) {
        let k2 = cx.rng.below(15) as usize;
        let (e, _) = operand(&mut cx.rng, &land, k2);
        d = match cx.rng.below(3) {
            0 => d.union(e),
            1 => d.intersection(e),
            _ => d.complement(),
        };
        cx.label("result of operations");
    }
    let k2 = cx.rng.below(15) as usize;
    let (e, _) = operand(&mut cx.rng, &land, k2);
    let (ru, ri, rc) = (d.clone().union(e.clone()), d.clone().intersection(e.clone()), d.clone().complement());
    cx.setup = false;
    cx.sig(&d);
    let (mut i, mut o) = (false, false);
    for w in trip_dyn(cx, &d)? {
        for &p in &probes {
            let x = d.has(p);
            i |= x;
            o |= !x;
            watch!(cx, w.has(p) == x, "{d:?} came back as {w:?}, different at {p:?}");
        }
        watch!(cx, w.clone().union(e.clone()) == ru, "union with {e:?} differs after a round trip of {d:?}");
        watch!(cx, w.clone().intersection(e.clone()) == ri, "intersection with {e:?} differs after a round trip of {d:?}");
        watch!(cx, w.clone().complement() == rc, "complement differs after a round trip of {d:?}");
    }
    // equal values, whatever their history, serialise identically
    cx.setup = true;
    let mut routes = vec![d.clone().union(d.clone()), d.clone().to_set(), d.clone().complement().complement(), d.clone().intersection(d.clone())];
    if let Some((mut v, rest)) = d.json().and_then(|j| {
        let mut ps: Vec<Piece<T>> = vec![];
        find_pieces(&j, &mut ps)?;
        let (bounded, rest): (Vec<_>, Vec<_>) = ps.into_iter().partition(|p| p.0.is_some() && p.1.is_some());
        Some((bounded, rest.len()))
    }) {
        if rest == 0 && matches!(d, Dyn::BS(_)) {
            cx.rng.shuffle(&mut v);
            let mut w: Vec<Dyn<T>> = v.iter().map(|p| {
                let (l, h) = (p.0.unwrap(), p.1.unwrap());
                let start = if l.0 { LowerBound::excluded(l.1) } else { LowerBound::included(l.1) };
                let end = if h.0 { UpperBound::excluded(h.1) } else { UpperBound::included(h.1) };
                Dyn::BR(BoundedRange { start, end })
            }).collect();
            w.push(Dyn::BS(BoundedSet::empty()));
            routes.push(unite(&mut cx.rng, w));
        }
    }
    cx.setup = false;
    for r in routes {
        if eq_dyn(&d, &r).map(|x| x.0) == Some(true) {
            cx.label("equal values by other routes");
            watch!(cx, d.json().map(|j| j.to_string()) == r.json().map(|j| j.to_string()), "equal values {d:?} and {r:?} serialise differently");
            watch!(cx, bin_dyn(&d) == bin_dyn(&r), "equal values {d:?} and {r:?} serialise differently (bincode)");
        }
    }
    cx.nontrivial = i && o;
    Ok(())
}
#[cfg(feature = "ser")]
fn bin_dyn<T: Elem>(d: &Dyn<T>) -> Option<Vec<u8>> {
    match d {
        Dyn::BR(x) => bincode::serialize(x).ok(),
        Dyn::LBR(x) => bincode::serialize(x).ok(),
        Dyn::UBR(x) => bincode::serialize(x).ok(),
        Dyn::UR(x) => bincode::serialize(x).ok(),
        Dyn::ER(x) => bincode::serialize(x).ok(),
        Dyn::BS(x) => bincode::serialize(x).ok(),
        Dyn::LBS(x) => bincode::serialize(x).ok(),
        Dyn::UBS(x) => bincode::serialize(x).ok(),
        Dyn::US(x) => bincode::serialize(x).ok(),
        _ => None,
    }
}
/// 128-bit and string payloads: ranges and bounded sets only.
#[cfg(feature = "ser")]
fn c16_wide<T: Elem>(cx: &mut Ctx) -> Verdict {
    let (land, probes) = land_for::<T>(cx, 2000, 4000);
    bounds_trip(cx, &land)?;
    let r = brange(&mut cx.rng, &land);
    trip(cx, "BoundedRange", &r)?;
    trip(cx, "LowerBoundedRange", &LowerBoundedRange { start: r.start })?;
    trip(cx, "UpperBoundedRange", &UpperBoundedRange { end: r.end })?;
    trip(cx, "EmptyRange", &EmptyRange::<T>::new())?;
    let ps = pieces(&mut cx.rng, &land);
    cx.setup = true;
    let s = ps.iter().fold(BoundedSet::empty(), |s: BoundedSet<T>, r| Rangetools::union(s, *r));
    cx.setup = false;
    cx.sig(&s);
    for w in trip(cx, "BoundedSet", &s)? {
        for &p in &probes {
            watch!(cx, w.contains(p) == s.contains(p), "{s:?} came back as {w:?}, different at {p:?}");
        }
    }
    cx.nontrivial = probes.iter().any(|p| s.contains(*p)) && probes.iter().any(|p| !s.contains(*p));
    let words = ["", "a", "ab", "Included", "\u{e9}\u{1F600}\"\\\n", "null", "start"];
    let (a, b) = (cx.rng.pick(&words).to_string(), cx.rng.pick(&words).to_string());
    let (fa, fb) = (cx.chance(1, 2), cx.chance(1, 2));
    let start = if fa { LowerBound::included(a) } else { LowerBound::excluded(a) };
    let end = if fb { UpperBound::included(b) } else { UpperBound::excluded(b) };
    trip(cx, "LowerBoundedSet", &LowerBoundedSet::from(LowerBoundedRange { start: start.clone() }))?;
    trip(cx, "UpperBoundedSet", &UpperBoundedSet::from(UpperBoundedRange { end: end.clone() }))?;
    trip(cx, "BoundedRange", &BoundedRange { start, end })?;
    Ok(())
}

// ---------------------------------------------------------------- C18

fn c18(cx: &mut Ctx) -> Verdict {
    for_type!(cx.case, c18_t, cx)
}
fn c18_t<T: Elem>(cx: &mut Ctx) -> Verdict {
    let (land, probes) = land_for::<T>(cx, 3000, 700);
    let big = land.pts.len() > 60;
    let leaves = if big { 2 + cx.rng.below(3) } else { 2 + cx.rng.below(23) };
    let mut v: Vec<(Dyn<T>, MSet<T>)> = vec![];
    for _ in 0..leaves {
        let k = cx.rng.below(15) as usize;
        let x = operand(&mut cx.rng, &land, k);
        show(cx, "leaf", &x.0);
        cx.sig(&x.0);
        v.push(x);
    }
    let mut ops = vec![];
    while v.len() > 1 {
        let i = cx.rng.below(v.len() as u64) as usize;
        let (a, ma) = if cx.chance(1, 5) { v[i].clone() } else { v.swap_remove(i) };
        let (name, d, m): (&'static str, Dyn<T>, MSet<T>) = match cx.rng.below(12) {
            0 => ("to_set", a.clone().to_set(), ma),
            1 => ("to_inner", a.clone().to_inner(), ma),
            2 | 3 => ("complement", a.clone().complement(), ma.complement()),
            n => {
                if v.is_empty() {
                    v.push((a, ma));
                    break;
                }
                let j = cx.rng.below(v.len() as u64) as usize;
                let (b, mb) = v.swap_remove(j);
                if cx.tracing() {
                    cx.log(|| format!("next step: {} of {a:?} and {b:?}", if n < 8 { "union" } else { "intersection" }));
                }
                if n < 8 {
                    ("union", a.clone().union(b), ma.union(&mb))
                } else {
                    ("intersection", a.clone().intersection(b), ma.intersection(&mb))
                }
            }
        };
        cx.calls += 1;
        ops.push(name);
        cx.label(name);
        if cx.tracing() {
            cx.log(|| format!("{name} = {d:?}"));
        }
        let (mut i, mut o) = (false, false);
        for &p in &probes {
            let w = m.contains(p);
            i |= w;
            o |= !w;
            watch!(cx, d.has(p) == w, "after {ops:?}: {name} gave {d:?}, which {} {p:?}; set algebra says contents are {:?}", if w { "lacks" } else { "contains" }, m.0);
        }
        cx.nontrivial |= i && o;
        if let Some(seq) = T::walk(&d, 40) {
            for w in seq {
                watch!(cx, m.contains(w), "after {ops:?}: iterating {d:?} yields {w:?}; set algebra says contents are {:?}", m.0);
            }
        }
        if ops.len() > 60 {
            break;
        }
        v.push((d, m));
    }
    cx.sig(&ops);
    Ok(())
}

// ---------------------------------------------------------------- C21

fn c21(cx: &mut Ctx) -> Verdict {
    for_type!(cx.case / 225, c21_t, cx)
}
/// Every form the same operand can be given in.
fn forms<T: Elem>(d: &Dyn<T>) -> Vec<Dyn<T>> {
    let mut v = vec![d.clone()];
    let mut put = |x: Dyn<T>| {
        if !v.contains(&x) {
            v.push(x)
        }
    };
    put(d.clone().to_inner());
    put(d.clone().to_set());
    put(d.clone().to_inner().to_set());
    put(d.clone().to_set().to_inner());
    match *d {
        Dyn::BR(BoundedRange { start, end }) => {
            put(BoundedSet::from(BoundedRange { start, end }).into());
            match (start.to_bound(), end.to_bound()) {
                (Bound::Included(a), Bound::Excluded(b)) => put(Dyn::R(a..b)),
                (Bound::Included(a), Bound::Included(b)) => put(Dyn::RI(a..=b)),
                _ => {}
            }
        }
        Dyn::LBR(LowerBoundedRange { start }) => {
            put(LowerBoundedSet::from(LowerBoundedRange { start }).into());
            if let Bound::Included(a) = start.to_bound() {
                put(Dyn::RF(a..))
            }
        }
        Dyn::UBR(UpperBoundedRange { end }) => {
            put(UpperBoundedSet::from(UpperBoundedRange { end }).into());
            match end.to_bound() {
                Bound::Included(a) => put(Dyn::RTI(..=a)),
                Bound::Excluded(a) => put(Dyn::RT(..a)),
            }
        }
        Dyn::UR(_) => {
            put(Dyn::RU(..));
            put(UnboundedSet::from(UnboundedRange).into());
        }
        _ => {}
    }
    v
}
fn same<T: Elem>(cx: &mut Ctx, what: &str, from: &dyn Fn() -> String, a: &Dyn<T>, b: &Dyn<T>) -> Verdict {
    let set = |d: &Dyn<T>| match d.clone().to_set() {
        Dyn::ER(_) => Dyn::BS(BoundedSet::empty()),
        Dyn::UR(_) => Dyn::US(UnboundedSet::Full),
        x => x,
    };
    let (x, y) = (set(a), set(b));
    watch!(cx, x == y, "{what} of {}: {a:?}, but {b:?} with the operands in other forms", from());
    watch!(cx, hash_dyn(&x) == hash_dyn(&y), "{what} of {}: {a:?}, but with another hash with the operands in other forms", from());
    let e = (a.is_empty(), b.is_empty());
    watch!(cx, e.0 == e.1, "{what} of {}: {a:?} is empty: {}, but {b:?} with the operands in other forms: {}", from(), e.0, e.1);
    if let (Some(p), Some(q)) = (T::walk(a, 12), T::walk(b, 12)) {
        watch!(cx, p == q, "{what} of {}: {a:?} yields {p:?}, but {b:?} with the operands in other forms {q:?}", from());
    }
    Ok(())
}
fn c21_t<T: Elem>(cx: &mut Ctx) -> Verdict {
    let (ka, kb) = ((cx.case % 15) as usize, (cx.case / 15 % 15) as usize);
    let (land, mut probes) = land_for::<T>(cx, 0, 90);
    cx.setup = true;
    let (a, _) = operand(&mut cx.rng, &land, ka);
    let (b, _) = operand(&mut cx.rng, &land, kb);
    show(cx, "a", &a);
    show(cx, "b", &b);
    cx.sig(&a);
    cx.sig(&b);
    cx.setup = false;
    let (fa, fb) = (forms(&a), forms(&b));
    cx.nontrivial = fa.len() + fb.len() > 2 && !a.is_empty() && !b.is_empty();
    cx.rng.shuffle(&mut probes);
    probes.truncate(24);
    let (u, i, c) = (a.clone().union(b.clone()), a.clone().intersection(b.clone()), a.clone().complement());
    let (d, s) = (a.clone().disjoint(b.clone()), a.clone().intersects(b.clone()));
    for x in &fa {
        for &p in &probes {
            watch!(cx, x.has(p) == a.has(p), "{a:?} as {x:?}: contains({p:?}) differs");
        }
        watch!(cx, x.is_empty() == a.is_empty(), "{a:?} as {x:?}: is_empty differs");
        if let (Some(p), Some(q)) = (T::walk(&a, 12), T::walk(x, 12)) {
            watch!(cx, p == q, "{a:?} as {x:?}: yields {q:?} instead of {p:?}");
        }
        let y = x.clone().complement();
        for &p in &probes {
            watch!(cx, y.has(p) == c.has(p), "complement of {a:?}: {c:?}, but {y:?} when given as {x:?}: different at {p:?}");
        }
        for y in &fb {
            let from = || format!("{a:?} and {b:?} (as {x:?} and {y:?})");
            cx.calls += 6;
            same(cx, "union", &from, &u, &x.clone().union(y.clone()))?;
            same(cx, "swapped union", &from, &u, &y.clone().union(x.clone()))?;
            same(cx, "intersection", &from, &i, &x.clone().intersection(y.clone()))?;
            same(cx, "swapped intersection", &from, &i, &y.clone().intersection(x.clone()))?;
            watch!(cx, x.clone().disjoint(y.clone()) == d, "disjoint of {}: {d} only in the first form", from());
            watch!(cx, x.clone().intersects(y.clone()) == s, "intersects of {}: {s} only in the first form", from());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17, degenerate and extreme operands

fn c17a(cx: &mut Ctx) -> Verdict {
    for_type!(cx.case / 225, c17a_t, cx)
}
fn limits<T: Elem>(cx: &mut Ctx) -> Land<T> {
    let mut r: Vec<u128> = vec![0, 1, T::MAXR / 2, T::MAXR - 1, T::MAXR];
    r.extend(T::hot());
    r.sort();
    r.dedup();
    let keep = 1 + cx.rng.below(r.len() as u64) as usize;
    while r.len() > keep {
        let i = cx.rng.below(r.len() as u64) as usize;
        r.remove(i);
    }
    if r.len() == 1 {
        r.push(*r.last().unwrap());
    }
    Land { pts: r.into_iter().map(T::of).collect(), style: "limits" }
}
/// A history of operations, watched for survival only.
fn c17_history<T: Elem>(cx: &mut Ctx, land: &Land<T>) -> Verdict {
    let mut pool: Vec<Dyn<T>> = vec![];
    for _ in 0..5 {
        let k = cx.rng.below(15) as usize;
        let (d, _) = operand(&mut cx.rng, land, k);
        show(cx, "initially", &d);
        cx.sig(&d);
        pool.push(d);
    }
    let mut n = 0u64;
    let steps = if land.pts.len() <= 60 { 6 + cx.rng.below(25) } else { 4 + cx.rng.below(5) };
    for _ in 0..steps {
        let (i, j) = (cx.rng.below(pool.len() as u64) as usize, cx.rng.below(pool.len() as u64) as usize);
        let (a, b) = (pool[i].clone(), pool[j].clone());
        let op = cx.rng.below(10);
        if cx.tracing() {
            cx.log(|| format!("operation {op} on {a:?} and {b:?}"));
        }
        let r = match op {
            0..=3 => a.union(b),
            4..=6 => a.intersection(b),
            7 | 8 => a.complement(),
            _ => {
                n += a.clone().disjoint(b.clone()) as u64 + a.clone().intersects(b) as u64;
                a.to_set()
            }
        };
        n += r.is_empty() as u64 + r.has(land.pt(&mut cx.rng)) as u64;
        n += T::walk(&r, 30).map_or(0, |v| v.len() as u64);
        cx.calls += 4;
        cx.events += 1;
        cx.nontrivial |= !r.is_empty();
        if pool.len() < 9 {
            pool.push(r);
        } else {
            pool[i] = r;
        }
    }
    std::hint::black_box(n);
    Ok(())
}
fn c17a_t<T: Elem>(cx: &mut Ctx) -> Verdict {
    let (ka, kb) = ((cx.case % 15) as usize, (cx.case / 15 % 15) as usize);
    let land = if cx.chance(1, 2) { limits(cx) } else { Land::any(&mut cx.rng, cx.depth) };
    cx.label(land.style);
    if cx.chance(1, 10) {
        cx.label(T::NAME);
        cx.label("histories");
        return c17_history(cx, &land);
    }
    cx.label(T::NAME);
    let (a, ma) = operand(&mut cx.rng, &land, ka);
    let (b, mb) = operand(&mut cx.rng, &land, kb);
    show(cx, "a", &a);
    show(cx, "b", &b);
    cx.sig(&a);
    cx.sig(&b);
    cx.nontrivial = !ma.is_empty() && !mb.is_empty();
    let u = a.clone().union(b.clone());
    show(cx, "union", &u);
    let i = a.clone().intersection(b.clone());
    show(cx, "intersection", &i);
    let c = a.clone().complement();
    show(cx, "complement", &c);
    let mut n = 0u64;
    n += a.clone().disjoint(b.clone()) as u64;
    n += a.clone().intersects(b.clone()) as u64;
    let mut probes = land.probes();
    if probes.len() > 60 {
        cx.rng.shuffle(&mut probes);
        probes.truncate(60);
    }
    for d in [&a, &b, &u, &i, &c] {
        n += d.is_empty() as u64;
        for &p in &probes {
            n += d.has(p) as u64;
        }
        let cc = if land.pts.len() <= 60 { d.clone().complement().complement() } else { d.clone() };
        n += cc.to_set().to_inner().is_empty() as u64;
        n += d.clone().union(c.clone()).intersects(i.clone()) as u64;
        if let Some(v) = T::walk(d, 20) {
            n += v.len() as u64;
        }
    }
    std::hint::black_box(n);
    cx.events += 1;
    cx.calls += 40;
    Ok(())
}
