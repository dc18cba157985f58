//! Monitors of iteration: C08-C11, and the iteration half of C17.

use rangetools::{BoundedSet, EmptyRange, LowerBoundedRange, LowerBoundedSet, Rangetools};
use rtmon::elem::*;
use rtmon::gen::*;
use rtmon::model::*;
use rtmon::runner::*;
use rtmon::watch;
use std::collections::VecDeque;

fn main() {
    rtmon::runner::main(&[
        Prop { id: "C08", quick: 600_000, thorough: 100_000_000, case: c08, small_stack: false, compared: false,
            rule: "bounded ranges, bounded sets and empty ranges over 15 element types, traversed from both ends to exhaustion (up to 3000 values; the first and last 300 of longer ones) against the contained values computed in 128-bit arithmetic. Non-trivial: at least two values." },
        Prop { id: "C09", quick: 400_000, thorough: 60_000_000, case: c09, small_stack: false, compared: false,
            rule: "histories of up to 60 next/next_back/nth/nth_back calls with skip counts aimed at piece and total lengths and at the limits of usize, against a deque of the remaining values; terminal operations and adapters on clones at random states. Non-trivial: at least two values and at least three calls." },
        Prop { id: "C10", quick: 400_000, thorough: 60_000_000, case: c10, small_stack: false, compared: false,
            rule: "the same histories with size_hint, len and count checked after every call, lengths from 0 to beyond usize::MAX. Non-trivial: at least two values and at least three calls." },
        Prop { id: "C11", quick: 500_000, thorough: 60_000_000, case: c11, small_stack: false, compared: false,
            rule: "histories of up to 60 next/nth calls on lower-bounded ranges and sets, many close to the greatest value, against a deque of the remaining values; min, size_hint and adapters on clones. Non-trivial: at least three calls." },
        Prop { id: "C17i", quick: 200_000, thorough: 30_000_000, case: c17i, small_stack: false, compared: false,
            rule: "the iteration histories of C08-C11 at the limits of all element types, watched for panics, crashes and runaway work only. Non-trivial: at least one value." },
    ]);
}

macro_rules! for_type {
    ($sel:expr, $f:ident $(, $a:expr)*) => {
        match $sel % 15 {
            0 => $f::<u8>($($a),*),
            1 => $f::<i8>($($a),*),
            2 => $f::<u16>($($a),*),
            3 => $f::<i16>($($a),*),
            4 => $f::<u32>($($a),*),
            5 => $f::<i32>($($a),*),
            6 => $f::<u64>($($a),*),
            7 => $f::<i64>($($a),*),
            8 => $f::<usize>($($a),*),
            9 => $f::<isize>($($a),*),
            10 => $f::<u128>($($a),*),
            11 => $f::<i128>($($a),*),
            12 => $f::<char>($($a),*),
            13 => $f::<Tri>($($a),*),
            _ => $f::<One>($($a),*),
        }
    };
}

/// The values still to come, as segments of ranks.
#[derive(Clone, Debug)]
struct Rest {
    segs: VecDeque<(u128, u128)>,
}
impl Rest {
    fn new<T: Elem>(m: &MSet<T>) -> Self {
        let mut segs = VecDeque::new();
        for &(a, b) in &m.0 {
            let lo = match a {
                Cut::Neg => 0,
                Cut::At(t, false) => t.rank(),
                Cut::At(t, true) => match t.rank().checked_add(1) {
                    Some(r) => r,
                    None => continue,
                },
                Cut::Pos => continue,
            };
            let hi = match b {
                Cut::Pos => T::MAXR,
                Cut::At(t, true) => t.rank(),
                Cut::At(t, false) => match t.rank().checked_sub(1) {
                    Some(r) => r,
                    None => continue,
                },
                Cut::Neg => continue,
            };
            if lo <= hi && lo <= T::MAXR {
                segs.push_back((lo, hi));
            }
        }
        Rest { segs }
    }
    /// Number of values, saturating.
    fn len(&self) -> u128 {
        self.segs.iter().fold(0u128, |n, s| n.saturating_add((s.1 - s.0).saturating_add(1)))
    }
    fn front_len(&self) -> u128 {
        self.segs.front().map_or(0, |s| (s.1 - s.0).saturating_add(1))
    }
    fn back_len(&self) -> u128 {
        self.segs.back().map_or(0, |s| (s.1 - s.0).saturating_add(1))
    }
    fn nth<T: Elem>(&mut self, n: usize) -> Option<T> {
        let mut n = n as u128;
        while let Some(s) = self.segs.front_mut() {
            if s.1 - s.0 < n {
                n -= s.1 - s.0 + 1;
                self.segs.pop_front();
                continue;
            }
            let r = s.0 + n;
            if r == s.1 {
                self.segs.pop_front();
            } else {
                s.0 = r + 1;
            }
            return Some(T::of(r));
        }
        None
    }
    fn nth_back<T: Elem>(&mut self, n: usize) -> Option<T> {
        let mut n = n as u128;
        while let Some(s) = self.segs.back_mut() {
            if s.1 - s.0 < n {
                n -= s.1 - s.0 + 1;
                self.segs.pop_back();
                continue;
            }
            let r = s.1 - n;
            if r == s.0 {
                self.segs.pop_back();
            } else {
                s.1 = r - 1;
            }
            return Some(T::of(r));
        }
        None
    }
    fn all<T: Elem>(&self) -> Vec<T> {
        self.segs.iter().flat_map(|s| (s.0..=s.1).map(T::of)).collect()
    }
    fn first<T: Elem>(&self) -> Option<T> {
        self.segs.front().map(|s| T::of(s.0))
    }
    fn final_<T: Elem>(&self) -> Option<T> {
        self.segs.back().map(|s| T::of(s.1))
    }
}

enum Src<T> {
    Range(rangetools::BoundedRange<T>),
    Set(BoundedSet<T>),
}

/// A bounded range or set, and what it should contain.
fn source<T: SElem>(cx: &mut Ctx) -> (Src<T>, Rest) {
    cx.label(T::NAME);
    let land = Land::<T>::any_or_huge(&mut cx.rng, cx.depth, 1500);
    cx.label(land.style);
    let s = land.style;
    cx.log(|| format!("element type {}, {} grid points {s}", T::NAME, land.pts.len()));
    if cx.case / 15 % 2 == 0 {
        let r = brange(&mut cx.rng, &land);
        cx.log(|| format!("range {r:?}"));
        cx.sig(&r);
        let rest = Rest::new(&br_model(&r));
        (Src::Range(r), rest)
    } else {
        let ps = pieces(&mut cx.rng, &land);
        cx.log(|| format!("set of the pieces {ps:?}"));
        cx.sig(&ps);
        let rest = Rest::new(&pieces_model(&ps));
        cx.setup = true;
        let s = set_of(cx, &ps);
        cx.setup = false;
        cx.log(|| format!("set {s:?}"));
        (Src::Set(s), rest)
    }
}
fn set_of<T: SElem>(cx: &mut Ctx, ps: &[rangetools::BoundedRange<T>]) -> BoundedSet<T> {
    if ps.len() > 150 || cx.chance(1, 2) {
        // in the given order
        ps.iter().fold(BoundedSet::empty(), |s: BoundedSet<T>, p| Rangetools::union(s, *p))
    } else {
        let mut v = ps.to_vec();
        cx.rng.shuffle(&mut v);
        v.iter().fold(BoundedSet::empty(), |s: BoundedSet<T>, p| Rangetools::union(*p, s))
    }
}

trait BothEnds<T>: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone {}
impl<T, I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone> BothEnds<T> for I {}

// ---------------------------------------------------------------- C08

fn c08(cx: &mut Ctx) -> Verdict {
    for_type!(cx.case, c08_t, cx)
}
fn c08_t<T: SElem>(cx: &mut Ctx) -> Verdict {
    if cx.chance(1, 50) {
        let mut e = EmptyRange::<T>::new().into_iter();
        watch!(cx, e.next().is_none() && e.next_back().is_none() && e.next().is_none(), "EmptyRange yields a value");
        cx.label("EmptyRange");
    }
    match source::<T>(cx) {
        (Src::Range(r), rest) => {
            cx.label("ranges");
            traverse(cx, || r.into_iter(), rest)
        }
        (Src::Set(s), rest) => {
            cx.label("sets");
            traverse(cx, || s.clone().into_iter(), rest)
        }
    }
}
fn traverse<T: SElem, I: BothEnds<T>>(cx: &mut Ctx, mk: impl Fn() -> I, rest: Rest) -> Verdict {
    let n = rest.len();
    cx.nontrivial = n >= 2;
    cx.label(match n {
        0 => "0 values",
        1 => "1 value",
        2..=3000 => "2 to 3000 values",
        _ => "more values",
    });
    let limit = if n <= 3000 || (n <= 70_000 && cx.chance(1, 30)) || (cx.depth > 0 && n <= 1_200_000 && cx.chance(1, 2000)) {
        u128::MAX
    } else {
        300
    };
    // forward, by next()
    let mut it = mk();
    let mut model = rest.clone();
    let mut k = 0u128;
    loop {
        let (got, want) = (it.next(), model.nth::<T>(0));
        watch!(cx, got == want, "forward iteration: value number {k} is {got:?}, should be {want:?}");
        k += 1;
        if want.is_none() {
            for _ in 0..3 {
                let got = it.next();
                watch!(cx, got.is_none(), "forward iteration goes on with {got:?} after its end");
                let got = it.next_back();
                watch!(cx, got.is_none(), "backward iteration yields {got:?} after forward iteration has ended");
            }
            break;
        }
        if k >= limit {
            break;
        }
    }
    // backward
    let mut it = mk();
    let mut model = rest.clone();
    let mut k = 0u128;
    loop {
        let (got, want) = (it.next_back(), model.nth_back::<T>(0));
        watch!(cx, got == want, "backward iteration: value number {k} from the end is {got:?}, should be {want:?}");
        k += 1;
        if want.is_none() {
            for _ in 0..3 {
                let got = it.next_back();
                watch!(cx, got.is_none(), "backward iteration goes on with {got:?} after its end");
                let got = it.next();
                watch!(cx, got.is_none(), "forward iteration yields {got:?} after backward iteration has ended");
            }
            break;
        }
        if k >= limit {
            break;
        }
    }
    cx.calls += 2 * k as u64;
    // the ways a user writes it
    if n <= 3000 {
        let all = rest.all::<T>();
        let mut v = vec![];
        for t in mk() {
            v.push(t);
            if v.len() > all.len() {
                break;
            }
        }
        watch!(cx, v == all, "a for loop sees {v:?}, should see {all:?}");
        let v: Vec<T> = mk().take(all.len() + 1).collect();
        watch!(cx, v == all, "collecting gives {v:?}, should give {all:?}");
        let mut v: Vec<T> = mk().rev().take(all.len() + 1).collect();
        v.reverse();
        watch!(cx, v == all, "collecting in reverse gives (reversed) {v:?}, should give {all:?}");
        let v: Vec<T> = mk().collect();
        watch!(cx, v == all, "collecting gives {v:?}, should give {all:?}");
    } else {
        let v: Vec<T> = mk().take(50).collect();
        let w: Vec<T> = (0..50).map_while({ let mut m = rest.clone(); move |_| m.nth::<T>(0) }).collect();
        watch!(cx, v == w, "take(50) gives {v:?}, should give {w:?}");
        let v: Vec<T> = mk().rev().take(50).collect();
        let w: Vec<T> = (0..50).map_while({ let mut m = rest.clone(); move |_| m.nth_back::<T>(0) }).collect();
        watch!(cx, v == w, "rev().take(50) gives {v:?}, should give {w:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- C09, C10

#[derive(Clone, Copy, PartialEq)]
enum Watch {
    Values,
    Sizes,
    Survival,
}

fn c09(cx: &mut Ctx) -> Verdict {
    for_type!(cx.case, hist_t, cx, Watch::Values)
}
fn c10(cx: &mut Ctx) -> Verdict {
    for_type!(cx.case, hist_t, cx, Watch::Sizes)
}
fn hist_t<T: SElem>(cx: &mut Ctx, w: Watch) -> Verdict {
    match source::<T>(cx) {
        (Src::Range(r), rest) => {
            cx.label("ranges");
            history(cx, r.into_iter(), rest, w)
        }
        (Src::Set(s), rest) => {
            cx.label("sets");
            history(cx, s.into_iter(), rest, w)
        }
    }
}

fn clamp(n: u128) -> usize {
    usize::try_from(n).unwrap_or(usize::MAX)
}
fn skip_count(cx: &mut Ctx, rest: &Rest, back: bool) -> usize {
    let piece = if back { rest.back_len() } else { rest.front_len() };
    let total = rest.len();
    match cx.rng.below(16) {
        0..=2 => 0,
        3..=5 => 1 + cx.rng.below(3) as usize,
        6 => clamp(piece.saturating_sub(1)),
        7 => clamp(piece),
        8 => clamp(piece.saturating_add(cx.rng.below(4) as u128)),
        9 => clamp(piece.saturating_sub(cx.rng.below(4) as u128)),
        10 => clamp(total.saturating_sub(1 + cx.rng.below(3) as u128)),
        11 => clamp(total.saturating_add(cx.rng.below(2) as u128)),
        12 => {
            if total == 0 { cx.rng.below(9) as usize } else { clamp(cx.rng.below128(total)) }
        }
        13 => {
            if piece == 0 { 0 } else { clamp(cx.rng.below128(piece)) }
        }
        14 => cx.rng.below(300) as usize,
        _ => match cx.rng.below(12) {
            0 => usize::MAX,
            1 => usize::MAX - 1,
            2 => usize::MAX / 2,
            3 => usize::MAX / 2 + 1,
            4 => 1 << cx.rng.below(usize::BITS as u64),
            5 => 255 + cx.rng.below(3) as usize,
            6 => 65535 + cx.rng.below(3) as usize,
            7 => (u32::MAX as usize).wrapping_add(cx.rng.below(3) as usize),
            8 => 0xD800 - cx.rng.below(3) as usize,
            9 => 0x10FFFF + cx.rng.below(3) as usize,
            _ => cx.rng.next() as usize,
        },
    }
}

fn history<T: SElem, I: BothEnds<T>>(cx: &mut Ctx, mut it: I, mut rest: Rest, w: Watch) -> Verdict {
    let steps = 3 + cx.rng.below(58);
    cx.nontrivial = rest.len() >= 2;
    cx.label(if rest.len() > usize::MAX as u128 { "longer than usize::MAX" } else if rest.len() > 3000 { "more than 3000 values" } else { "up to 3000 values" });
    let mut ended = 0;
    let mut old = it.clone();
    // favour one end or mix
    let back_bias = [0, 1, 5, 9, 10][cx.rng.below(5) as usize];
    let small_bias = cx.chance(1, 2);
    for step in 0..steps {
        let back = cx.rng.below(10) < back_bias;
        let plain = cx.chance(if small_bias { 3 } else { 1 }, 4);
        let n = if plain { 0 } else { skip_count(cx, &rest, back) };
        let before = rest.len();
        let want: Option<T> = if back { rest.nth_back(n) } else { rest.nth(n) };
        let name = match (back, plain) {
            (false, true) => "next",
            (true, true) => "next_back",
            (false, false) => "nth",
            (true, false) => "nth_back",
        };
        cx.log(|| format!("step {step}: {name}({n}), {before} values to come"));
        let got = match (back, plain) {
            (false, true) => it.next(),
            (true, true) => it.next_back(),
            (false, false) => it.nth(n),
            (true, false) => it.nth_back(n),
        };
        cx.calls += 1;
        cx.sig(&(back, plain, n));
        match w {
            Watch::Survival => {
                cx.events += 1;
                if cx.chance(1, 4) {
                    let m = it.size_hint();
                    std::hint::black_box((it.clone().last(), it.clone().min(), it.clone().max(), m));
                    if m.1.is_some() {
                        std::hint::black_box((it.clone().count(), it.len()));
                    }
                    std::hint::black_box(it.clone().rev().step_by(1 + n % 5).take(10).collect::<Vec<T>>());
                    std::hint::black_box(it.clone().skip(n).step_by(1 + n % 3).take(10).collect::<Vec<T>>());
                    cx.calls += 7;
                    if rest.len() <= 300 {
                        std::hint::black_box((it.clone().fold(0u32, |c, _| c + 1), it.clone().rev().collect::<Vec<T>>(), it.clone().collect::<Vec<T>>()));
                    }
                }
            }
            Watch::Values => {
                watch!(cx, got == want, "step {step}: {name}({n}) gave {got:?}, should give {want:?} ({before} values were to come)");
                // go on with a copy: it has to be where the original is
                if cx.chance(1, 16) {
                    let c = it.clone();
                    old.clone_from(&c);
                    std::mem::swap(&mut it, &mut old);
                }
                if cx.chance(1, 4) {
                    terminal(cx, &it, &rest)?;
                }
            }
            Watch::Sizes => {
                // a wrong value is another property's business: compare sizes with what the
                // iterator itself still yields when that is short, else with the model
                sizes(cx, &it, &rest)?;
            }
        }
        if want.is_none() {
            cx.label("went past the end");
            ended += 1;
            if ended > 4 {
                break;
            }
        }
    }
    Ok(())
}

fn sizes<T: SElem, I: BothEnds<T>>(cx: &mut Ctx, it: &I, rest: &Rest) -> Verdict {
    let n = rest.len();
    let hint = it.size_hint();
    if let Ok(m) = usize::try_from(n) {
        watch!(cx, hint == (m, Some(m)), "size_hint is {hint:?} with {n} values to come");
        let l = it.len();
        watch!(cx, l == m, "len is {l} with {n} values to come");
        let c = it.clone().count();
        watch!(cx, c == m, "count is {c} with {n} values to come");
        let r = it.clone().rev();
        watch!(cx, r.len() == m && r.size_hint() == (m, Some(m)), "len in reverse is {} with {n} values to come", r.len());
        if m < 200 {
            // what the iterator really yields
            let mut k = 0;
            let mut i = it.clone();
            while k <= m + 2 && i.next().is_some() {
                k += 1;
            }
            watch!(cx, k == m, "the iterator reports {l} but yields {k} values");
        }
    } else {
        cx.label("sizes beyond usize::MAX");
        watch!(cx, hint == (usize::MAX, None), "size_hint is {hint:?} with {n} values to come");
        // iteration still yields values
        let mut i = it.clone();
        let got = (i.next(), i.next_back());
        let mut m = rest.clone();
        let want = (m.nth::<T>(0), m.nth_back::<T>(0));
        watch!(cx, got == want, "with more than usize::MAX values to come the ends are {got:?}, should be {want:?}");
    }
    Ok(())
}

/// Terminal operations and adapters on clones.
fn terminal<T: SElem, I: BothEnds<T>>(cx: &mut Ctx, it: &I, rest: &Rest) -> Verdict {
    let n = rest.len();
    let (first, last): (Option<T>, Option<T>) = (rest.first(), rest.final_());
    let got = it.clone().last();
    watch!(cx, got == last, "last() gave {got:?}, should give {last:?}");
    let got = it.clone().min();
    watch!(cx, got == first, "min() gave {got:?}, should give {first:?}");
    let got = it.clone().max();
    watch!(cx, got == last, "max() gave {got:?}, should give {last:?}");
    if n <= 3000 {
        let got = it.clone().rev().last();
        watch!(cx, got == first, "rev().last() gave {got:?}, should give {first:?}");
    }
    if let Ok(m) = usize::try_from(n) {
        let c = it.clone().count();
        watch!(cx, c == m, "count() gave {c}, should give {m}");
    }
    let k = cx.rng.below(12);
    let s = skip_count(cx, rest, false);
    let sb = skip_count(cx, rest, true);
    // adapters that jump
    let (got, want) = (it.clone().skip(s).next(), rest.clone().nth::<T>(s));
    watch!(cx, got == want, "skip({s}).next() gave {got:?}, should give {want:?}");
    let (got, want) = (it.clone().rev().nth(sb), rest.clone().nth_back::<T>(sb));
    watch!(cx, got == want, "rev().nth({sb}) gave {got:?}, should give {want:?}");
    let st = 1 + s % 7;
    let got: Vec<T> = it.clone().step_by(st).take(20).collect();
    let mut m = rest.clone();
    let mut want: Vec<T> = m.nth(0).into_iter().collect();
    while let (true, Some(t)) = (want.len() < 20 && !want.is_empty(), m.nth(st - 1)) {
        want.push(t);
    }
    watch!(cx, got == want, "step_by({st}) gave {got:?}, should give {want:?}");
    if n > 400 {
        return Ok(());
    }
    let all: Vec<T> = rest.all();
    cx.label("full content compared");
    match k {
        0 => {
            let v = it.clone().fold(vec![], |mut v, t| { v.push(t); v });
            watch!(cx, v == all, "fold saw {v:?}, should see {all:?}");
        }
        1 => {
            let mut v = it.clone().rfold(vec![], |mut v, t| { v.push(t); v });
            v.reverse();
            watch!(cx, v == all, "rfold saw (reversed) {v:?}, should see {all:?}");
        }
        2 => {
            let mut v: Vec<T> = it.clone().rev().collect();
            v.reverse();
            watch!(cx, v == all, "rev().collect() gave (reversed) {v:?}, should give {all:?}");
        }
        3 => {
            let mut i = it.clone();
            let mut v = vec![];
            let stop = all.len() / 2;
            let r = i.try_fold(0usize, |c, t| { if c == stop { Err(t) } else { v.push(t); Ok(c + 1) } });
            let rest: Vec<T> = i.collect();
            match r {
                Ok(c) => { watch!(cx, c == all.len() && rest.is_empty() && v == all, "try_fold saw {v:?} of {all:?}"); }
                Err(t) => { watch!(cx, all[..stop] == v[..] && all[stop] == t && all[stop + 1..] == rest[..], "try_fold saw {v:?}, stopped at {t:?}, left {rest:?} of {all:?}"); }
            }
        }
        4 => {
            if let Some(&x) = all.get(all.len() / 3) {
                let mut i = it.clone();
                let f = i.find(|t| *t == x);
                let rest: Vec<T> = i.collect();
                watch!(cx, f == Some(x) && rest[..] == all[all.len() / 3 + 1..], "find({x:?}) gave {f:?} and left {rest:?} of {all:?}");
                let p = it.clone().position(|t| t == x);
                watch!(cx, p == Some(all.len() / 3), "position of {x:?} is {p:?} in {all:?}");
                let p = it.clone().rposition(|t| t == x);
                watch!(cx, p == Some(all.len() / 3), "rposition of {x:?} is {p:?} in {all:?}");
                let mut i = it.clone();
                let f = i.rfind(|t| *t == x);
                let rest: Vec<T> = i.collect();
                watch!(cx, f == Some(x) && rest[..] == all[..all.len() / 3], "rfind({x:?}) gave {f:?} and left {rest:?} of {all:?}");
            }
        }
        5 => {
            let a = it.clone().all(|t| all.contains(&t));
            watch!(cx, a, "all() met a value outside {all:?}");
            let b = it.clone().any(|t| !all.contains(&t));
            watch!(cx, !b, "any() met a value outside {all:?}");
        }
        6 => {
            watch!(cx, it.clone().eq(all.iter().copied()), "eq() with its own values {all:?} is false");
            watch!(cx, it.clone().cmp(all.iter().copied()).is_eq(), "cmp() with its own values {all:?} is not Equal");
            watch!(cx, it.clone().is_sorted(), "is_sorted() is false for {all:?}");
        }
        7 => {
            let mut i = it.clone();
            let mut v = vec![];
            let mut flip = cx.rng.clone();
            let mut tail = vec![];
            for _ in 0..=all.len() + 1 {
                if flip.chance(1, 2) {
                    v.extend(i.next());
                } else {
                    tail.extend(i.next_back());
                }
            }
            tail.reverse();
            v.extend(tail);
            watch!(cx, v == all, "taking from both ends gave {v:?}, should give {all:?}");
        }
        8 => {
            let mut i = it.clone();
            let h: Vec<T> = i.by_ref().take(all.len() / 2).collect();
            let t: Vec<T> = i.collect();
            watch!(cx, h[..] == all[..all.len() / 2] && t[..] == all[all.len() / 2..], "by_ref().take() gave {h:?}, then {t:?} of {all:?}");
        }
        9 => {
            let v: Vec<(T, T)> = it.clone().zip(it.clone().skip(1)).collect();
            let w: Vec<(T, T)> = all.windows(2).map(|w| (w[0], w[1])).collect();
            watch!(cx, v == w, "zip with itself shifted gave {v:?}, should give {w:?}");
        }
        10 => {
            let g = it.clone().reduce(|a, b| a.max(b));
            watch!(cx, g == all.last().copied(), "reduce(max) gave {g:?} of {all:?}");
            let g = it.clone().min_by(|a, b| b.cmp(a));
            watch!(cx, g == all.last().copied(), "min_by(reversed) gave {g:?} of {all:?}");
            let g = it.clone().max_by_key(|a| std::cmp::Reverse(*a));
            watch!(cx, g == all.first().copied(), "max_by_key(reversed) gave {g:?} of {all:?}");
        }
        _ => {
            let mut pk = it.clone().chain(it.clone()).peekable();
            let p = pk.peek().copied();
            let c: Vec<T> = pk.collect();
            let w: Vec<T> = all.iter().chain(all.iter()).copied().collect();
            watch!(cx, p == all.first().copied() && c == w, "chained with itself it gave {c:?}, should give {w:?}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

fn c11(cx: &mut Ctx) -> Verdict {
    for_type!(cx.case, lower_t, cx, true)
}
fn lower_t<T: SElem>(cx: &mut Ctx, values: bool) -> Verdict {
    cx.label(T::NAME);
    let land = Land::<T>::any_or_huge(&mut cx.rng, cx.depth, 1500);
    cx.label(land.style);
    let k = land.pts.len() as u64;
    let i = if cx.chance(3, 4) { k - 1 - cx.rng.below(k.min(4)) } else { cx.rng.below(k) };
    let l = LowerBoundedRange::new(lower(&mut cx.rng, land.pts[i as usize]));
    let mut m = MSet::piece(lo_cut(l.start), Cut::Pos);
    if cx.case / 15 % 2 == 0 {
        cx.log(|| format!("{} range {l:?}", T::NAME));
        cx.sig(&l);
        cx.label("ranges");
        lower_history(cx, l.into_iter(), Rest::new(&m), values)
    } else {
        let ps = pieces(&mut cx.rng, &land);
        m = m.union(&pieces_model(&ps));
        cx.setup = true;
        let s: LowerBoundedSet<T> = if cx.chance(1, 2) {
            ps.iter().fold(l.to_set(), |s, p| Rangetools::union(s, *p))
        } else {
            Rangetools::union(set_of(cx, &ps), l)
        };
        cx.setup = false;
        cx.log(|| format!("{} set {s:?}", T::NAME));
        cx.sig(&s);
        cx.label("sets");
        lower_history(cx, s.into_iter(), Rest::new(&m), values)
    }
}
fn lower_history<T: SElem, I: Iterator<Item = T> + Clone>(cx: &mut Ctx, mut it: I, mut rest: Rest, values: bool) -> Verdict {
    let steps = 3 + cx.rng.below(58);
    cx.nontrivial = true;
    let small_bias = cx.chance(2, 3);
    let mut past = 0u32;
    for step in 0..steps {
        let plain = cx.chance(if small_bias { 3 } else { 1 }, 4);
        let n = if plain { 0 } else { skip_count(cx, &rest, false) };
        let before = rest.len();
        let want: Option<T> = rest.nth(n);
        cx.sig(&(plain, n));
        cx.log(|| format!("step {step}: {}({n}), {before} values up to the greatest", if plain { "next" } else { "nth" }));
        let got = if want.is_some() || !values {
            // C17 wants every call to return normally, those past the greatest value included
            past += want.is_none() as u32;
            if plain { it.next() } else { it.nth(n) }
        } else {
            // past the greatest value: it may end or panic, not yield
            past += 1;
            cx.label("past the greatest value");
            match attempt(|| if plain { it.next() } else { it.nth(n) }) {
                Ok(g) => g,
                Err(_) => {
                    cx.label("panicked past the greatest value");
                    return Ok(());
                }
            }
        };
        cx.calls += 1;
        if !values {
            cx.events += 1;
            std::hint::black_box(it.size_hint());
            if want.is_some() && !rest.segs.is_empty() && cx.chance(1, 4) {
                std::hint::black_box((it.clone().min(), it.clone().take(20).collect::<Vec<T>>()));
                if rest.len() <= 300 {
                    std::hint::black_box((it.clone().fold(0u32, |c, _| c + 1), it.clone().last(), it.clone().max(), it.clone().count()));
                }
            }
            if past > 3 {
                return Ok(());
            }
            continue;
        }
        watch!(cx, got == want, "step {step}: {}({n}) gave {got:?}, should give {want:?} ({before} values up to the greatest)", if plain { "next" } else { "nth" });
        let h = it.size_hint();
        watch!(cx, h.1.is_none(), "size_hint of an iterator without upper bound is {h:?}");
        if past > 3 {
            return Ok(());
        }
        if want.is_none() {
            continue;
        }
        if rest.len() <= 300 && cx.chance(1, 4) {
            to_the_end(cx, &it, &rest)?;
        }
        if cx.chance(1, 3) {
            if let Some(f) = rest.first::<T>() {
                let g = it.clone().min();
                watch!(cx, g == Some(f), "min() gave {g:?}, should give {f:?}");
                let mut m = rest.clone();
                let w: Vec<T> = (0..12).map_while(|_| m.nth::<T>(0)).collect();
                let g: Vec<T> = it.clone().take(w.len()).collect();
                watch!(cx, g == w, "take({}) gave {g:?}, should give {w:?}", w.len());
                let st = 1 + cx.rng.below(6) as usize;
                let mut m = rest.clone();
                let mut w: Vec<T> = m.nth(0).into_iter().collect();
                while let (true, Some(t)) = (w.len() < 8, m.nth(st - 1)) {
                    w.push(t);
                }
                let g: Vec<T> = it.clone().step_by(st).take(w.len()).collect();
                watch!(cx, g == w, "step_by({st}) gave {g:?}, should give {w:?}");
                let s = skip_count(cx, &rest, false);
                if let Some(t) = rest.clone().nth::<T>(s) {
                    let g = it.clone().skip(s).next();
                    watch!(cx, g == Some(t), "skip({s}).next() gave {g:?}, should give {t:?}");
                    if s < 500 {
                        let g = it.clone().find(|x| *x == t);
                        watch!(cx, g == Some(t), "find({t:?}) gave {g:?}");
                    }
                }
            }
        }
    }
    Ok(())
}

/// Terminal operations on an iterator without upper bound that is close to the greatest value.
/// They may panic at the end, but not see other values.
fn to_the_end<T: SElem, I: Iterator<Item = T> + Clone>(cx: &mut Ctx, it: &I, rest: &Rest) -> Verdict {
    let all: Vec<T> = rest.all();
    cx.label("run to the greatest value");
    let mut seen: Vec<T> = vec![];
    let limit = all.len() + 2;
    let push = |v: &mut Vec<T>, t: T| {
        v.push(t);
        assert!(v.len() <= limit, "RUNAWAY");
    };
    let what = cx.rng.below(7);
    let r = attempt(|| match what {
        0 => it.clone().for_each(|t| push(&mut seen, t)),
        1 => it.clone().fold((), |_, t| push(&mut seen, t)),
        2 => {
            for t in it.clone() {
                push(&mut seen, t);
            }
        }
        3 => {
            let _ = it.clone().try_fold((), |_, t| {
                push(&mut seen, t);
                Some(())
            });
        }
        4 => it.clone().inspect(|t| push(&mut seen, *t)).last().into_iter().for_each(drop),
        5 => {
            it.clone().inspect(|t| push(&mut seen, *t)).count();
        }
        _ => it.clone().inspect(|t| push(&mut seen, *t)).max().into_iter().for_each(drop),
    });
    watch!(cx, seen == all, "operation {what} run to the end saw {seen:?}, should see {all:?} ({r:?})");
    if r.is_ok() {
        let g = attempt(|| (it.clone().last(), it.clone().max(), it.clone().count()));
        if let Ok(g) = g {
            let w = (all.last().copied(), all.last().copied(), all.len());
            watch!(cx, g == w, "last, max and count gave {g:?}, should give {w:?}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17, iteration

fn c17i(cx: &mut Ctx) -> Verdict {
    if cx.case / 30 % 2 == 0 {
        for_type!(cx.case, hist_t, cx, Watch::Survival)
    } else {
        for_type!(cx.case, lower_t, cx, false)
    }
}
