//! C23: the same calls in every configuration. The monitor records outcomes as numbers that mean
//! the same everywhere; check.py compares the records of the builds (debug without the serde
//! feature, debug and release with it, unoptimised, and a 32-bit target under Miri).

use rangetools::{
    BoundedRange, BoundedSet, LowerBoundedRange, Rangetools, UpperBoundedRange,
};
use rtmon::dynv::*;
use rtmon::elem::*;
use rtmon::gen::*;
use rtmon::runner::*;
use std::ops::{Range, RangeFrom, RangeInclusive, RangeTo, RangeToInclusive};

fn main() {
    rtmon::runner::main(&[Prop {
        id: "C23",
        quick: 400_000,
        thorough: 40_000_000,
        case: c23,
        small_stack: false,
        compared: true,
        rule: "histories of operations over all types (contents, emptiness, equality and first values of each result recorded), iterator histories, steps, bound comparisons, conversions and indexing (panic or not included); one record per 16 cases, compared between builds. Non-trivial: the history produced a value that is neither empty nor everything.",
    }]);
}

fn put<T: Elem>(cx: &mut Ctx, t: T) {
    let r = t.rank();
    cx.out(r as u64 ^ (r >> 64) as u64);
}
fn put_opt<T: Elem>(cx: &mut Ctx, t: Option<T>) {
    match t {
        Some(t) => put(cx, t),
        None => cx.out(u64::MAX - 1),
    }
}
/// Numbers that do not fit in 32 bits are the same to a 32-bit target: too many.
fn put_size(cx: &mut Ctx, n: Option<usize>) {
    cx.out(match n {
        Some(n) if n < u32::MAX as usize => n as u64,
        _ => u64::MAX - 2,
    });
}

fn c23(cx: &mut Ctx) -> Verdict {
    // a panic here is recorded as an outcome
    let ty = cx.case / 4 % 5;
    match cx.case % 4 {
        0 | 1 => match ty {
            0 => algebra::<u8>(cx),
            1 => algebra::<i64>(cx),
            2 => algebra::<char>(cx),
            3 => algebra::<Lex>(cx),
            _ => algebra::<u128>(cx),
        },
        2 => match ty {
            0 => iteration::<u8>(cx),
            1 => iteration::<i64>(cx),
            2 => iteration::<char>(cx),
            3 => iteration::<u32>(cx),
            _ => iteration::<i128>(cx),
        },
        _ => match ty {
            0 => small::<u8>(cx),
            1 => small::<i64>(cx),
            2 => small::<char>(cx),
            3 => small::<u32>(cx),
            _ => small::<i128>(cx),
        },
    }
    Ok(())
}

fn record<T: Elem>(cx: &mut Ctx, d: &Dyn<T>, probes: &[T]) {
    cx.out(d.kind() as u64);
    cx.out(d.is_empty() as u64);
    let (mut i, mut o) = (false, false);
    let mut bits = 0u64;
    for (n, &p) in probes.iter().enumerate() {
        let x = d.has(p);
        i |= x;
        o |= !x;
        bits |= (x as u64) << (n % 64);
        if n % 64 == 63 {
            cx.out(bits);
            bits = 0;
        }
    }
    cx.out(bits);
    cx.nontrivial |= i && o;
    for t in T::walk(d, 6).unwrap_or_default() {
        put(cx, t);
    }
}

fn algebra<T: Elem>(cx: &mut Ctx) {
    cx.label(T::NAME);
    let k = 2 + cx.rng.below(9) as usize;
    let land = Land::<T>::new(&mut cx.rng, k);
    let probes = land.probes();
    let mut pool: Vec<Dyn<T>> = vec![];
    for _ in 0..3 {
        let k = cx.rng.below(15) as usize;
        match attempt(|| operand(&mut cx.rng, &land, k).0) {
            Ok(d) => {
                cx.log(|| format!("initially {d:?}"));
                cx.sig(&d);
                pool.push(d)
            }
            Err(_) => return cx.out(u64::MAX - 3),
        }
    }
    for _ in 0..8 {
        let (i, j) = (cx.rng.below(pool.len() as u64) as usize, cx.rng.below(pool.len() as u64) as usize);
        let op = cx.rng.below(8);
        let (a, b) = (pool[i].clone(), pool[j].clone());
        cx.log(|| format!("operation {op} on {a:?} and {b:?}"));
        cx.calls += 1;
        let r = attempt(|| match op {
            0..=2 => a.clone().union(b.clone()),
            3..=5 => a.clone().intersection(b.clone()),
            6 => a.clone().complement(),
            _ => a.clone().to_set(),
        });
        match r {
            Ok(r) => {
                cx.out((a == b) as u64 | (r == a) as u64 * 2 | (r == b) as u64 * 4);
                match attempt(|| a.clone().disjoint(b.clone())) {
                    Ok(x) => cx.out(x as u64),
                    Err(_) => cx.out(u64::MAX - 3),
                }
                record(cx, &r, &probes);
                if pool.len() < 6 {
                    pool.push(r);
                } else {
                    pool[i] = r;
                }
            }
            Err(_) => cx.out(u64::MAX - 3),
        }
    }
}

fn walk<T: SElem>(cx: &mut Ctx, mut it: impl DoubleEndedIterator<Item = T> + Clone) {
    for _ in 0..10 {
        let n = cx.rng.below(12) as usize;
        let op = cx.rng.below(5);
        cx.calls += 1;
        let r = attempt(|| match op {
            0 => it.next(),
            1 => it.next_back(),
            2 => it.nth(n),
            3 => it.nth_back(n),
            _ => it.clone().min(),
        });
        match r {
            Ok(t) => {
                cx.nontrivial |= t.is_some();
                put_opt(cx, t)
            }
            Err(_) => return cx.out(u64::MAX - 3),
        }
        let h = it.size_hint();
        put_size(cx, h.1);
        put_size(cx, Some(h.0));
    }
    match attempt(|| it.last()) {
        Ok(t) => put_opt(cx, t),
        Err(_) => cx.out(u64::MAX - 3),
    }
}
fn iteration<T: SElem>(cx: &mut Ctx) {
    cx.label(T::NAME);
    let k = 2 + cx.rng.below(9) as usize;
    let land = Land::<T>::new(&mut cx.rng, k);
    let r = brange(&mut cx.rng, &land);
    let ps = pieces(&mut cx.rng, &land);
    cx.log(|| format!("range {r:?}, pieces {ps:?}"));
    cx.sig(&ps);
    cx.sig(&r);
    walk(cx, r.into_iter());
    let Ok(s) = attempt(|| ps.iter().fold(BoundedSet::empty(), |s: BoundedSet<T>, r| Rangetools::union(s, *r))) else {
        return cx.out(u64::MAX - 3);
    };
    walk(cx, s.clone().into_iter());
    let from = lower(&mut cx.rng, land.pts[land.pts.len() - 1]);
    let mut l = Rangetools::union(s, LowerBoundedRange { start: from }).into_iter();
    for _ in 0..8 {
        let n = cx.rng.below(8) as usize;
        match attempt(|| if n == 0 { l.next() } else { l.nth(n) }) {
            Ok(t) => put_opt(cx, t),
            Err(_) => return cx.out(u64::MAX - 3),
        }
    }
}

fn small<T: SElem>(cx: &mut Ctx) {
    cx.label(T::NAME);
    let k = 2 + cx.rng.below(6) as usize;
    let land = Land::<T>::new(&mut cx.rng, k);
    // steps
    for _ in 0..6 {
        let (a, b) = (land.pt(&mut cx.rng), land.pt(&mut cx.rng));
        cx.log(|| format!("steps from {a:?} to {b:?}"));
        cx.sig(&(a, b));
        let n = match cx.rng.below(4) {
            0 => cx.rng.below(4),
            1 => cx.rng.below(300),
            2 => (u32::MAX as u64) - cx.rng.below(3),
            _ => cx.rng.below(1 << 32),
        } as usize;
        put_size(cx, T::steps_between(&a, &b));
        cx.out((a <= b) as u64);
        let (f, g) = (T::forward_checked(a, n), T::backward_checked(a, n));
        cx.nontrivial |= f.is_some() || g.is_some();
        put_opt(cx, f);
        put_opt(cx, g);
        if f.is_some() {
            put(cx, T::forward(a, n));
        }
        if g.is_some() {
            put(cx, T::backward(a, n));
        }
        // bounds
        let (x, y) = (lower(&mut cx.rng, a), lower(&mut cx.rng, b));
        let (p, q) = (upper(&mut cx.rng, a), upper(&mut cx.rng, b));
        cx.out(x.cmp(&y) as i8 as u8 as u64 | ((x < y) as u64) << 8 | ((x <= y) as u64) << 9 | ((x.min(y) == x) as u64) << 10 | ((x.max(y) == x) as u64) << 11);
        cx.out(p.cmp(&q) as i8 as u8 as u64 | ((p < q) as u64) << 8 | ((p <= q) as u64) << 9 | ((p.min(q) == p) as u64) << 10 | ((p.max(q) == p) as u64) << 11);
        cx.calls += 10;
        // conversions
        let r = BoundedRange { start: x, end: q };
        let two = |cx: &mut Ctx, r: Result<(T, T), String>| match r {
            Ok((a, b)) => {
                put(cx, a);
                put(cx, b);
            }
            Err(_) => cx.out(u64::MAX - 3),
        };
        let e = r.is_empty();
        cx.out(e as u64);
        if !e {
            two(cx, attempt(|| Range::from(r)).map(|r| (r.start, r.end)));
            two(cx, attempt(|| RangeInclusive::from(r)).map(|r| (*r.start(), *r.end())));
        }
        two(cx, attempt(|| RangeFrom::from(LowerBoundedRange { start: x })).map(|r| (r.start, r.start)));
        two(cx, attempt(|| RangeTo::from(UpperBoundedRange { end: p })).map(|r| (r.end, r.end)));
        two(cx, attempt(|| RangeToInclusive::from(UpperBoundedRange { end: p })).map(|r| (r.end, r.end)));
    }
    // indexing
    let v: Vec<u16> = (0..10).collect();
    for _ in 0..4 {
        let (a, b) = (cx.rng.below(13) as usize, cx.rng.below(13) as usize);
        let r = BoundedRange { start: lower(&mut cx.rng, a), end: upper(&mut cx.rng, b) };
        for x in [attempt(|| v[r].iter().map(|x| *x as u64 + 1).sum::<u64>()), attempt(|| v[LowerBoundedRange { start: r.start }].len() as u64), attempt(|| v[UpperBoundedRange { end: r.end }].len() as u64)] {
            cx.out(x.unwrap_or(u64::MAX - 3));
        }
    }
}
