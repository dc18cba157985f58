//! Monitors of Step (C12), bounds (C13), std conversions (C14) and indexing (C15).

use rangetools::{
    Bound, BoundedRange, EmptyRange, LowerBound, LowerBoundedRange, UnboundedRange,
    UpperBound, UpperBoundedRange,
};
use rtmon::elem::*;
use rtmon::gen::*;
use rtmon::runner::*;
use rtmon::{broken, watch};
use std::cmp::Ordering;
use std::ffi::{CStr, CString, OsString};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

fn main() {
    rtmon::runner::main(&[
        Prop { id: "C12", quick: 60_000, thorough: 40_000_000, case: c12, small_stack: false, compared: false,
            rule: "cases 0-5367: every value of u8, i8, u16, i16 and char as start, with every end (8-bit types) or boundary ends, and counts at 0..600 (8-bit), around the distance to the limits, the surrogate gap, powers of two and the wrap-around points of narrower integers; then random values of all types. Against 128-bit arithmetic on ranks. Non-trivial: always." },
        Prop { id: "C13", quick: 100_000, thorough: 20_000_000, case: c13, small_stack: false, compared: false,
            rule: "up to 14 bounds over 7 element types (two only partially ordered), every pair compared by every operator, min, max, clamp and sorting; constructors and maps of each. Non-trivial: two bounds share their value." },
        Prop { id: "C14", quick: 1_000_000, thorough: 100_000_000, case: c14, small_stack: false, compared: false,
            rule: "all conversions in both directions of ranges over 15 element types, most at the limits of the type; contents computed in 128-bit arithmetic. Non-trivial: the range is neither empty nor everything." },
        Prop { id: "C15", quick: 400_000, thorough: 50_000_000, case: c15, small_stack: false, compared: false,
            rule: "containers of 0 to 24 elements (and slices of usize::MAX units) indexed by ranges of every type with indices around 0, the length, character boundaries and usize::MAX, shared and mutable, against std indexing: same address and length or both panic; writes compared. Non-trivial: the selection is neither empty nor everything." },
    ]);
}

macro_rules! for_type {
    ($sel:expr, $f:ident $(, $a:expr)*) => {
        match $sel % 15 {
            0 => $f::<u8>($($a),*),
            1 => $f::<i8>($($a),*),
            2 => $f::<u16>($($a),*),
            3 => $f::<i16>($($a),*),
            4 => $f::<u32>($($a),*),
            5 => $f::<i32>($($a),*),
            6 => $f::<u64>($($a),*),
            7 => $f::<i64>($($a),*),
            8 => $f::<usize>($($a),*),
            9 => $f::<isize>($($a),*),
            10 => $f::<u128>($($a),*),
            11 => $f::<i128>($($a),*),
            12 => $f::<char>($($a),*),
            13 => $f::<Tri>($($a),*),
            _ => $f::<One>($($a),*),
        }
    };
}

// ---------------------------------------------------------------- C12

/// The Step laws for one start, one count.
fn step_count<T: SElem>(cx: &mut Ctx, a: T, n: usize) -> Verdict {
    let r = a.rank();
    let up = r.checked_add(n as u128).filter(|x| *x <= T::MAXR).map(T::of);
    let down = r.checked_sub(n as u128).map(T::of);
    let f = T::forward_checked(a, n);
    // rank() also rejects invalid chars
    watch!(cx, f.map(|x| x.rank()) == up.map(|x| x.rank()), "{}: forward_checked({a:?}, {n}) = {f:?}, should be {up:?}", T::NAME);
    let b = T::backward_checked(a, n);
    watch!(cx, b.map(|x| x.rank()) == down.map(|x| x.rank()), "{}: backward_checked({a:?}, {n}) = {b:?}, should be {down:?}", T::NAME);
    if let Some(up) = up {
        let f = T::forward(a, n);
        watch!(cx, f == up, "{}: forward({a:?}, {n}) = {f:?}, should be {up:?}", T::NAME);
    }
    if let Some(down) = down {
        let b = T::backward(a, n);
        watch!(cx, b == down, "{}: backward({a:?}, {n}) = {b:?}, should be {down:?}", T::NAME);
    }
    cx.calls += 4;
    Ok(())
}
fn step_between<T: SElem>(cx: &mut Ctx, a: T, b: T) -> Verdict {
    let want = b.rank().checked_sub(a.rank()).and_then(|d| usize::try_from(d).ok());
    let got = T::steps_between(&a, &b);
    watch!(cx, got == want, "{}: steps_between({a:?}, {b:?}) = {got:?}, should be {want:?}", T::NAME);
    cx.calls += 1;
    Ok(())
}
fn near(v: &mut Vec<u128>, x: u128) {
    for d in [0u128, 1, 2] {
        v.push(x.saturating_add(d));
        v.push(x.saturating_sub(d));
    }
}
fn counts<T: SElem>(a: T) -> Vec<usize> {
    let r = a.rank();
    let mut v = vec![0u128, 1, 2, 3];
    near(&mut v, r);
    near(&mut v, T::MAXR - r);
    near(&mut v, T::MAXR);
    near(&mut v, T::MAXR / 2);
    for h in T::hot() {
        near(&mut v, h.abs_diff(r));
    }
    for b in [8u32, 16, 32, 64] {
        near(&mut v, 1u128 << b);
        near(&mut v, 1u128 << (b - 1));
        // what a truncated count would look like
        v.push((1u128 << b) + (T::MAXR - r) / 2);
        v.push((1u128 << b) + r / 2);
    }
    near(&mut v, 0x800);
    near(&mut v, 0x110000);
    near(&mut v, 0x10F800);
    near(&mut v, usize::MAX as u128);
    let mut v: Vec<usize> = v.into_iter().filter_map(|x| usize::try_from(x).ok()).collect();
    v.sort();
    v.dedup();
    v
}
fn ends_for<T: SElem>(a: T) -> Vec<T> {
    let r = a.rank();
    let mut v = vec![];
    near(&mut v, 0);
    near(&mut v, T::MAXR);
    near(&mut v, r);
    for h in T::hot() {
        near(&mut v, h);
    }
    for b in [7u32, 8, 15, 16, 31, 32, 63, 64, 127] {
        near(&mut v, r.saturating_add(1u128 << b));
        near(&mut v, r.saturating_sub(1u128 << b));
    }
    near(&mut v, r.saturating_add(usize::MAX as u128));
    near(&mut v, r.saturating_sub(usize::MAX as u128));
    v.retain(|x| *x <= T::MAXR);
    v.sort();
    v.dedup();
    v.into_iter().map(T::of).collect()
}
fn start_at<T: SElem>(cx: &mut Ctx, a: T) -> Verdict {
    let (mut ns, mut bs) = (counts(a), ends_for(a));
    if cfg!(miri) {
        // a sample: the interpreter is slow
        cx.rng.shuffle(&mut ns);
        cx.rng.shuffle(&mut bs);
        ns.truncate(40);
        bs.truncate(25);
    }
    for n in ns {
        step_count(cx, a, n)?;
    }
    for b in bs {
        step_between(cx, a, b)?;
        step_between(cx, b, a)?;
    }
    Ok(())
}
fn eight<T: SElem>(cx: &mut Ctx, r: u64) -> Verdict {
    let a = T::of(r as u128);
    for b in 0..=T::MAXR {
        step_between(cx, a, T::of(b))?;
    }
    for n in 0..600 {
        step_count(cx, a, n)?;
    }
    start_at(cx, a)
}
fn block<T: SElem>(cx: &mut Ctx, k: u64, size: u64) -> Verdict {
    cx.label(T::NAME);
    for r in k * size..((k + 1) * size).min(T::MAXR as u64 + 1) {
        start_at(cx, T::of(r as u128))?;
    }
    Ok(())
}
fn random_step<T: SElem>(cx: &mut Ctx) -> Verdict {
    cx.label(T::NAME);
    let land = Land::<T>::any(&mut cx.rng, 0);
    for _ in 0..if cfg!(miri) { 2 } else { 8 } {
        let mut a = land.pt(&mut cx.rng);
        if cx.chance(1, 4) {
            let r = if T::MAXR == u128::MAX { cx.rng.u128() } else { cx.rng.below128(T::MAXR + 1) };
            a = T::of(r);
        }
        cx.sig(&a);
        cx.log(|| format!("{} start {a:?}", T::NAME));
        start_at(cx, a)?;
        for _ in 0..16 {
            let n = cx.rng.next() as usize >> cx.rng.below(usize::BITS as u64);
            step_count(cx, a, n)?;
            let b = land.pt(&mut cx.rng);
            step_between(cx, a, b)?;
        }
    }
    Ok(())
}
fn c12(cx: &mut Ctx) -> Verdict {
    cx.nontrivial = true;
    let i = cx.case;
    match i {
        0..=255 => {
            cx.sig(&("u8", i));
            cx.log(|| format!("u8 start {i}: all ends, all counts below 600, boundary counts"));
            eight::<u8>(cx, i)
        }
        256..=511 => {
            cx.sig(&("i8", i));
            cx.log(|| format!("i8 start number {}: all ends, all counts below 600, boundary counts", i - 256));
            eight::<i8>(cx, i - 256)
        }
        512..=767 => {
            cx.sig(&("u16", i));
            block::<u16>(cx, i - 512, 256)
        }
        768..=1023 => {
            cx.sig(&("i16", i));
            block::<i16>(cx, i - 768, 256)
        }
        1024..=5367 => {
            cx.sig(&("char", i));
            block::<char>(cx, i - 1024, 256)
        }
        _ => for_type!(i, random_step, cx),
    }
}

// ---------------------------------------------------------------- C13

fn hash_of(x: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// (value, excluded): what the order of bounds should be.
fn want_lower<T: PartialOrd>(a: &(T, bool), b: &(T, bool)) -> Option<Ordering> {
    Some(a.0.partial_cmp(&b.0)?.then(a.1.cmp(&b.1)))
}
fn want_upper<T: PartialOrd>(a: &(T, bool), b: &(T, bool)) -> Option<Ordering> {
    Some(a.0.partial_cmp(&b.0)?.then(b.1.cmp(&a.1)))
}

fn raw<T>(cx: &mut Ctx, t: T, excl: bool) -> Bound<T> {
    let _ = cx;
    if excl {
        Bound::Excluded(t)
    } else {
        Bound::Included(t)
    }
}
fn mk_lower<T: Clone>(cx: &mut Ctx, x: &(T, bool)) -> LowerBound<T> {
    if cx.chance(1, 2) {
        raw(cx, x.0.clone(), x.1).into()
    } else if x.1 {
        LowerBound::excluded(x.0.clone())
    } else {
        LowerBound::included(x.0.clone())
    }
}
fn mk_upper<T: Clone>(cx: &mut Ctx, x: &(T, bool)) -> UpperBound<T> {
    if cx.chance(1, 2) {
        raw(cx, x.0.clone(), x.1).into()
    } else if x.1 {
        UpperBound::excluded(x.0.clone())
    } else {
        UpperBound::included(x.0.clone())
    }
}

fn compare<B: PartialOrd + Debug>(cx: &mut Ctx, a: &B, b: &B, want: Option<Ordering>) -> Verdict {
    let got = a.partial_cmp(b);
    watch!(cx, got == want, "{a:?} compared with {b:?} gives {got:?}, should give {want:?}");
    let ops = (a < b, a <= b, a > b, a >= b, a == b, a != b);
    let w = (
        want == Some(Ordering::Less),
        matches!(want, Some(Ordering::Less | Ordering::Equal)),
        want == Some(Ordering::Greater),
        matches!(want, Some(Ordering::Greater | Ordering::Equal)),
        want == Some(Ordering::Equal),
        want != Some(Ordering::Equal),
    );
    watch!(cx, ops == w, "operators (<, <=, >, >=, ==, !=) on {a:?} and {b:?} give {ops:?}, should give {w:?}");
    cx.calls += 7;
    Ok(())
}
fn compare_total<B: Ord + Hash + Clone + Debug>(cx: &mut Ctx, a: &B, b: &B, want: Ordering) -> Verdict {
    let got = a.cmp(b);
    watch!(cx, got == want, "{a:?}.cmp({b:?}) gives {got:?}, should give {want:?}");
    let (mx, mn) = (a.clone().max(b.clone()), a.clone().min(b.clone()));
    let (wx, wn) = if want == Ordering::Greater { (a, b) } else { (b, a) };
    watch!(cx, mx == *wx && mn == *wn, "max of {a:?} and {b:?} is {mx:?}, min is {mn:?}");
    let c = a.clone().clamp(wn.clone(), wx.clone());
    watch!(cx, c == *a, "clamp of {a:?} between {wn:?} and {wx:?} is {c:?}");
    if want == Ordering::Equal {
        watch!(cx, hash_of(a) == hash_of(b), "equal bounds {a:?} and {b:?} hash differently");
    }
    cx.calls += 4;
    Ok(())
}

fn maps<T: PartialOrd + Clone + Debug>(cx: &mut Ctx, x: &(T, bool)) -> Verdict {
    let b = raw(cx, x.0.clone(), x.1);
    let mut n = 0;
    let m = b.clone().map(|t| {
        n += 1;
        (t, 7u8)
    });
    let ok = match (&m, x.1) {
        (Bound::Included((_, 7)), false) | (Bound::Excluded((_, 7)), true) => true,
        _ => false,
    };
    watch!(cx, ok && n == 1, "Bound::map of {b:?} gives {m:?} after {n} calls");
    let f = b.clone().flipped();
    let ok = matches!((&f, x.1), (Bound::Included(_), true) | (Bound::Excluded(_), false));
    watch!(cx, ok, "{b:?}.flipped() is {f:?}");
    let ff = f.clone().flipped();
    let same = |p: &Bound<T>, q: &Bound<T>| match (p, q) {
        (Bound::Included(s), Bound::Included(t)) | (Bound::Excluded(s), Bound::Excluded(t)) => {
            // incomparable with itself (NaN): compare by text
            s == t || format!("{s:?}") == format!("{t:?}")
        }
        _ => false,
    };
    let val = |p: &Bound<T>| match p {
        Bound::Included(t) | Bound::Excluded(t) => format!("{t:?}"),
    };
    watch!(cx, same(&ff, &b) && val(&f) == format!("{:?}", x.0), "{b:?}.flipped() is {f:?}, flipped again {ff:?}");
    let mut n = 0;
    let l = LowerBound::from(b.clone()).map(|t| {
        n += 1;
        t
    });
    let u = UpperBound::from(b.clone()).map(|t| {
        n += 1;
        t
    });
    let (wl, wu) = (mk_lower(cx, x), mk_upper(cx, x));
    watch!(cx, n == 2 && format!("{l:?}") == format!("{wl:?}") && format!("{u:?}") == format!("{wu:?}"), "mapping the bounds of {b:?} gives {l:?} and {u:?}");
    cx.calls += 6;
    Ok(())
}
fn raw_back<T: Copy + Debug + PartialEq>(cx: &mut Ctx, x: &(T, bool)) -> Verdict {
    let (l, u) = (mk_lower(cx, x).to_bound(), mk_upper(cx, x).to_bound());
    for b in [l, u] {
        let got = match b {
            Bound::Included(t) => (t, false),
            Bound::Excluded(t) => (t, true),
        };
        watch!(cx, got == *x || format!("{got:?}") == format!("{x:?}"), "to_bound of a bound made from {x:?} (value, excluded) is {b:?}");
    }
    Ok(())
}

fn all_pairs<T: PartialOrd + Clone + Debug>(cx: &mut Ctx, xs: &[(T, bool)]) -> Verdict {
    for a in xs {
        maps(cx, a)?;
        for b in xs {
            let (p, q) = (mk_lower(cx, a), mk_lower(cx, b));
            compare(cx, &p, &q, want_lower(a, b))?;
            let (p, q) = (mk_upper(cx, a), mk_upper(cx, b));
            compare(cx, &p, &q, want_upper(a, b))?;
            cx.nontrivial |= a.0 == b.0 && a.1 != b.1;
        }
    }
    Ok(())
}
fn all_pairs_total<T: Ord + Hash + Clone + Debug>(cx: &mut Ctx, xs: &[(T, bool)]) -> Verdict {
    for x in xs {
        cx.sig(x);
    }
    all_pairs(cx, xs)?;
    let (mut ls, mut us) = (vec![], vec![]);
    for a in xs {
        for b in xs {
            let (p, q) = (mk_lower(cx, a), mk_lower(cx, b));
            compare_total(cx, &p, &q, want_lower(a, b).unwrap())?;
            let (p, q) = (mk_upper(cx, a), mk_upper(cx, b));
            compare_total(cx, &p, &q, want_upper(a, b).unwrap())?;
        }
        ls.push(mk_lower(cx, a));
        us.push(mk_upper(cx, a));
    }
    let mut xl = xs.to_vec();
    xl.sort_by(|a, b| want_lower(a, b).unwrap());
    ls.sort();
    let wl: Vec<LowerBound<T>> = xl.iter().map(|a| mk_lower(cx, a)).collect();
    watch!(cx, ls == wl, "sorting lower bounds gives {ls:?}, should give {wl:?}");
    let mut xu = xs.to_vec();
    xu.sort_by(|a, b| want_upper(a, b).unwrap());
    us.sort();
    let wu: Vec<UpperBound<T>> = xu.iter().map(|a| mk_upper(cx, a)).collect();
    watch!(cx, us == wu, "sorting upper bounds gives {us:?}, should give {wu:?}");
    watch!(cx, ls.iter().max() == wl.last() && us.iter().min() == wu.first(), "max of lower bounds or min of upper bounds is wrong");
    Ok(())
}

/// Ordered componentwise, so only partially.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Grid(i8, i8);
impl PartialOrd for Grid {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        match (self.0.cmp(&o.0), self.1.cmp(&o.1)) {
            (a, b) if a == b => Some(a),
            (Ordering::Equal, b) => Some(b),
            (a, Ordering::Equal) => Some(a),
            _ => None,
        }
    }
}

fn c13_t<T: Elem>(cx: &mut Ctx) -> Verdict {
    cx.label(T::NAME);
    let land = Land::<T>::new(&mut cx.rng, 5);
    let n = 4 + cx.rng.below(9);
    let xs: Vec<(T, bool)> = (0..n).map(|_| (land.pt(&mut cx.rng), cx.rng.chance(1, 2))).collect();
    cx.log(|| format!("bounds (value, excluded): {xs:?}"));
    all_pairs_total(cx, &xs)?;
    for x in &xs {
        raw_back(cx, x)?;
    }
    // what a bound admits: the order must be the order of what they let in
    let probes = land.probes();
    for a in &xs {
        for b in &xs {
            let adm = |x: &(T, bool), p: T| if x.1 { p > x.0 } else { p >= x.0 };
            let (la, lb) = (mk_lower(cx, a), mk_lower(cx, b));
            if la <= lb {
                watch!(cx, probes.iter().all(|p| !adm(b, *p) || adm(a, *p)), "{la:?} <= {lb:?} but admits less above");
            }
            let (ra, rb) = (LowerBoundedRange::new(la), LowerBoundedRange::new(lb));
            if la <= lb {
                watch!(cx, probes.iter().all(|p| !rb.contains(*p) || ra.contains(*p)), "{la:?} <= {lb:?} but its range contains less");
            }
            let (ua, ub) = (mk_upper(cx, a), mk_upper(cx, b));
            let (ra, rb) = (UpperBoundedRange::new(ua), UpperBoundedRange::new(ub));
            if ua <= ub {
                watch!(cx, probes.iter().all(|p| !ra.contains(*p) || rb.contains(*p)), "{ua:?} <= {ub:?} but its range contains more");
            }
        }
    }
    Ok(())
}
fn c13(cx: &mut Ctx) -> Verdict {
    match cx.case % 8 {
        0 => c13_t::<u8>(cx),
        1 => c13_t::<i32>(cx),
        2 => c13_t::<char>(cx),
        3 => c13_t::<Lex>(cx),
        4 => c13_t::<i128>(cx),
        5 => {
            cx.label("f64");
            let vs = [f64::NAN, -0.0, 0.0, 1.0, 1.5, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, -1.0];
            let xs: Vec<(f64, bool)> = (0..10).map(|_| (*cx.rng.pick(&vs), cx.rng.chance(1, 2))).collect();
            for x in &xs {
                cx.sig(&(x.0.to_bits(), x.1));
                raw_back(cx, x)?;
            }
            all_pairs(cx, &xs)
        }
        6 => {
            cx.label("partially ordered pair");
            let xs: Vec<(Grid, bool)> = (0..10).map(|_| (Grid(cx.rng.below(3) as i8, cx.rng.below(3) as i8), cx.rng.chance(1, 2))).collect();
            for x in &xs {
                cx.sig(&(x.0 .0, x.0 .1, x.1));
                raw_back(cx, x)?;
            }
            all_pairs(cx, &xs)
        }
        _ => {
            cx.label("String");
            let vs = ["", "a", "A", "b", "ab", "aa", "\u{e9}", "z"];
            let xs: Vec<(String, bool)> = (0..8).map(|_| (cx.rng.pick(&vs).to_string(), cx.rng.chance(1, 2))).collect();
            all_pairs_total(cx, &xs)
        }
    }
}

// ---------------------------------------------------------------- C14

/// Contents as a segment of ranks.
type Seg = Option<(u128, u128)>;
fn seg(lo: Option<u128>, hi: Option<u128>) -> Seg {
    match (lo, hi) {
        (Some(a), Some(b)) if a <= b => Some((a, b)),
        _ => None,
    }
}
fn lo_rank<T: Elem>(b: LowerBound<T>) -> Option<u128> {
    match b.to_bound() {
        Bound::Included(t) => Some(t.rank()),
        Bound::Excluded(t) => t.rank().checked_add(1).filter(|r| *r <= T::MAXR),
    }
}
fn hi_rank<T: Elem>(b: UpperBound<T>) -> Option<u128> {
    match b.to_bound() {
        Bound::Included(t) => Some(t.rank()),
        Bound::Excluded(t) => t.rank().checked_sub(1),
    }
}

fn verdict<R: Debug>(cx: &mut Ctx, what: &str, src: &dyn Debug, want: Result<Seg, ()>, got: Result<R, String>, contents: impl Fn(&R) -> Seg) -> Verdict {
    cx.calls += 1;
    match (want, got) {
        (Ok(w), Ok(r)) => {
            let g = contents(&r);
            watch!(cx, g == w, "{what}: {src:?} became {r:?}, contents (ranks) {g:?}, should be {w:?}");
        }
        (Ok(w), Err(m)) => broken!("{what}: {src:?} with contents (ranks) {w:?}: {m}"),
        (Err(()), Ok(r)) => broken!("{what}: {src:?} cannot be expressed, but became {r:?}"),
        (Err(()), Err(_)) => {
            cx.events += 1;
            cx.label("inexpressible, panicked");
        }
    }
    Ok(())
}

fn c14(cx: &mut Ctx) -> Verdict {
    for_type!(cx.case, c14_t, cx)
}
fn c14_t<T: SElem>(cx: &mut Ctx) -> Verdict {
    cx.label(T::NAME);
    let k = 2 + cx.rng.below(5) as usize;
    let land = Land::<T>::new(&mut cx.rng, k);
    let many = T::MAXR > 0;
    let r_seg = |r: &Range<T>| if r.start < r.end { Some((r.start.rank(), r.end.rank() - 1)) } else { None };
    let ri_seg = |r: &RangeInclusive<T>| if r.is_empty() { None } else { Some((r.start().rank(), r.end().rank())) };
    let rf_seg = |r: &RangeFrom<T>| Some((r.start.rank(), T::MAXR));
    let rt_seg = |r: &RangeTo<T>| seg(Some(0), r.end.rank().checked_sub(1));
    let rti_seg = |r: &RangeToInclusive<T>| Some((0, r.end.rank()));
    let br_seg = |r: &BoundedRange<T>| seg(lo_rank(r.start), hi_rank(r.end));

    let mut b = brange(&mut cx.rng, &land);
    if cx.chance(1, 4) {
        // the very limits
        let e = [T::of(0), T::of(T::MAXR)];
        let (s, t) = (*cx.rng.pick(&e), *cx.rng.pick(&e));
        if cx.chance(1, 2) {
            b.start = lower(&mut cx.rng, s);
        }
        if cx.chance(1, 2) {
            b.end = upper(&mut cx.rng, t);
        }
    }
    cx.log(|| format!("{} {b:?}", T::NAME));
    cx.sig(&b);
    let w = br_seg(&b);
    cx.nontrivial = w.is_some() && w != Some((0, T::MAXR));
    if w.is_none() {
        cx.label("empty");
    }
    let want = match w {
        Some((_, hi)) if hi == T::MAXR => Err(()),
        w => Ok(w),
    };
    verdict(cx, "BoundedRange to Range", &b, want, attempt(|| Range::from(b)), r_seg)?;
    if many || w.is_some() {
        verdict(cx, "BoundedRange to RangeInclusive", &b, Ok(w), attempt(|| RangeInclusive::from(b)), ri_seg)?;
    }
    let l = LowerBoundedRange { start: b.start };
    let want = lo_rank(b.start).map(|lo| Some((lo, T::MAXR))).ok_or(());
    verdict(cx, "LowerBoundedRange to RangeFrom", &l, want, attempt(|| RangeFrom::from(l)), rf_seg)?;
    let u = UpperBoundedRange { end: b.end };
    let hi = hi_rank(b.end);
    let want = if hi == Some(T::MAXR) { Err(()) } else { Ok(seg(Some(0), hi)) };
    verdict(cx, "UpperBoundedRange to RangeTo", &u, want, attempt(|| RangeTo::from(u)), rt_seg)?;
    let want = hi.map(|hi| Some((0, hi))).ok_or(());
    verdict(cx, "UpperBoundedRange to RangeToInclusive", &u, want, attempt(|| RangeToInclusive::from(u)), rti_seg)?;

    // from std and back
    let (s, e) = ends(&mut cx.rng, &land);
    cx.log(|| format!("std ranges from {s:?} to {e:?}"));
    cx.sig(&(s, e));
    let r = s..e;
    let w = r_seg(&r);
    verdict(cx, "Range to BoundedRange", &r, Ok(w), attempt(|| BoundedRange::from(r.clone())), br_seg)?;
    verdict(cx, "Range to BoundedRange and back", &r, Ok(w), attempt(|| Range::from(BoundedRange::from(r.clone()))), r_seg)?;
    if many || w.is_some() {
        verdict(cx, "Range to BoundedRange to RangeInclusive", &r, Ok(w), attempt(|| RangeInclusive::from(BoundedRange::from(r.clone()))), ri_seg)?;
    }
    let r = s..=e;
    let w = ri_seg(&r);
    verdict(cx, "RangeInclusive to BoundedRange", &r, Ok(w), attempt(|| BoundedRange::from(r.clone())), br_seg)?;
    verdict(cx, "RangeInclusive to BoundedRange and back", &r, Ok(w), attempt(|| RangeInclusive::from(BoundedRange::from(r.clone()))), ri_seg)?;
    let r = s..;
    let w = rf_seg(&r);
    verdict(cx, "RangeFrom to LowerBoundedRange", &r, Ok(w), attempt(|| LowerBoundedRange::from(r.clone())), |l| seg(lo_rank(l.start), Some(T::MAXR)))?;
    verdict(cx, "RangeFrom to LowerBoundedRange and back", &r, Ok(w), attempt(|| RangeFrom::from(LowerBoundedRange::from(r.clone()))), rf_seg)?;
    let r = ..e;
    let w = rt_seg(&r);
    verdict(cx, "RangeTo to UpperBoundedRange", &r, Ok(w), attempt(|| UpperBoundedRange::from(r)), |l| seg(Some(0), hi_rank(l.end)))?;
    verdict(cx, "RangeTo to UpperBoundedRange and back", &r, Ok(w), attempt(|| RangeTo::from(UpperBoundedRange::from(r))), rt_seg)?;
    let r = ..=e;
    let w = rti_seg(&r);
    verdict(cx, "RangeToInclusive to UpperBoundedRange", &r, Ok(w), attempt(|| UpperBoundedRange::from(r)), |l| seg(Some(0), hi_rank(l.end)))?;
    verdict(cx, "RangeToInclusive to UpperBoundedRange and back", &r, Ok(w), attempt(|| RangeToInclusive::from(UpperBoundedRange::from(r))), rti_seg)?;
    let full: RangeFull = UnboundedRange::from(..).into();
    watch!(cx, full == .., "RangeFull to UnboundedRange and back");
    // empty ranges
    let er = EmptyRange::<T>::new();
    verdict(cx, "EmptyRange to Range", &er, Ok(None), attempt(|| Range::from(er)), r_seg)?;
    if many {
        verdict(cx, "EmptyRange to RangeInclusive", &er, Ok(None), attempt(|| RangeInclusive::from(er)), ri_seg)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

/// Where a selection lies.
trait Place {
    fn place(&self) -> (usize, usize);
}
impl<T> Place for [T] {
    fn place(&self) -> (usize, usize) {
        (self.as_ptr() as usize, self.len())
    }
}
impl Place for str {
    fn place(&self) -> (usize, usize) {
        (self.as_ptr() as usize, self.len())
    }
}
impl Place for CStr {
    fn place(&self) -> (usize, usize) {
        (self.as_ptr() as usize, self.to_bytes_with_nul().len())
    }
}
impl Place for std::ffi::OsStr {
    fn place(&self) -> (usize, usize) {
        (self.as_encoded_bytes().as_ptr() as usize, self.as_encoded_bytes().len())
    }
}

fn same(cx: &mut Ctx, what: &str, idx: &dyn Debug, len: usize, got: Result<(usize, usize), String>, want: Option<(usize, usize)>) -> Verdict {
    cx.calls += 1;
    match (got, want) {
        (Ok(g), Some(w)) => {
            watch!(cx, g == w, "{what} of length {len} indexed by {idx:?}: selection (address, length) is {g:?}, std selects {w:?}");
            cx.label("selections compared");
            cx.nontrivial |= w.1 > 0 && w.1 < len;
        }
        (Err(m), Some(w)) => broken!("{what} of length {len} indexed by {idx:?} panics ({m}); std selects {w:?}"),
        (Ok(g), None) => broken!("{what} of length {len} indexed by {idx:?} selects {g:?}; std panics"),
        (Err(_), None) => {
            cx.events += 1;
            cx.label("both panic");
        }
    }
    Ok(())
}

macro_rules! shared {
    ($cx:expr, $what:expr, $c:expr, $len:expr, $idx:expr, $std:expr) => {{
        let want = match &$std {
            Some(s) => attempt(|| $c[s.clone()].place()).ok(),
            None => None,
        };
        let got = attempt(|| $c[$idx].place());
        same($cx, $what, &$idx, $len, got, want)?;
    }};
}
/// Mutable indexing: same place, and a write reaches exactly the selected elements.
macro_rules! mutable {
    ($cx:expr, $what:expr, $c:expr, $len:expr, $idx:expr, $std:expr, $write:expr) => {{
        let mut expect = $c.clone();
        let mut actual = $c.clone();
        let base_e = expect[..].place().0;
        let base_a = actual[..].place().0;
        let want = match &$std {
            Some(s) => attempt(|| {
                let sel = &mut expect[s.clone()];
                let p = sel.place();
                $write(sel);
                (p.0.wrapping_sub(base_e), p.1)
            })
            .ok(),
            None => None,
        };
        let got = attempt(|| {
            let sel = &mut actual[$idx];
            let p = sel.place();
            $write(sel);
            (p.0.wrapping_sub(base_a), p.1)
        });
        same($cx, $what, &$idx, $len, got, want)?;
        watch!($cx, actual == expect, "{} of length {} written through {:?} became {:?}, should be {:?}", $what, $len, $idx, actual, expect);
    }};
}

fn index(cx: &mut Ctx, len: usize) -> usize {
    match cx.rng.below(16) {
        0 => usize::MAX - cx.rng.below(3) as usize,
        1 => len.wrapping_add(cx.rng.below(3) as usize),
        2 => len.wrapping_sub(cx.rng.below(2) as usize),
        3 => isize::MAX as usize - 1 + cx.rng.below(3) as usize,
        _ => cx.rng.below(len.min(1000) as u64 + 2) as usize,
    }
}

fn c15(cx: &mut Ctx) -> Verdict {
    let len = match cx.rng.below(6) {
        0 => cx.rng.below(3) as usize,
        _ => cx.rng.below(24) as usize,
    };
    let (mut a, mut b) = (index(cx, len), index(cx, len));
    if cx.chance(4, 5) && a > b {
        std::mem::swap(&mut a, &mut b);
    }
    let br = BoundedRange { start: lower(&mut cx.rng, a), end: upper(&mut cx.rng, b) };
    let lr = LowerBoundedRange { start: br.start };
    let ur = UpperBoundedRange { end: br.end };
    let full = UnboundedRange::new();
    let er = EmptyRange::<usize>::new();
    let s = match br.start.to_bound() {
        Bound::Included(t) => Some(t),
        Bound::Excluded(t) => t.checked_add(1),
    };
    let e = match br.end.to_bound() {
        Bound::Included(t) => t.checked_add(1),
        Bound::Excluded(t) => Some(t),
    };
    let sbr: Option<Range<usize>> = s.zip(e).map(|(s, e)| s..e);
    let slr: Option<RangeFrom<usize>> = s.map(|s| s..);
    let sur: Option<RangeTo<usize>> = e.map(|e| ..e);
    let sfull: Option<RangeFull> = Some(..);
    cx.sig(&(len, a, b, &br));
    cx.log(|| format!("container length {len}, indexed by {br:?} and its halves"));

    let v: Vec<u32> = (0..len as u32).map(|x| x * 3 + 1).collect();
    let vs: Vec<String> = (0..len).map(|x| format!("#{x}")).collect();
    match cx.case % 8 {
        0 => {
            cx.label("Vec");
            shared!(cx, "Vec<u32>", v, len, br, sbr);
            shared!(cx, "Vec<u32>", v, len, lr, slr);
            shared!(cx, "Vec<u32>", v, len, ur, sur);
            shared!(cx, "Vec<u32>", v, len, full, sfull);
            let g = attempt(|| v[er].len());
            watch!(cx, g == Ok(0), "Vec<u32> indexed by EmptyRange: {g:?}");
        }
        1 => {
            cx.label("slice");
            let sl = &v[..];
            shared!(cx, "[u32]", sl, len, br, sbr);
            shared!(cx, "[u32]", sl, len, lr, slr);
            shared!(cx, "[u32]", sl, len, ur, sur);
            shared!(cx, "[u32]", sl, len, full, sfull);
            let g = attempt(|| sl[er].len());
            watch!(cx, g == Ok(0), "[u32] indexed by EmptyRange: {g:?}");
            // a slice that starts inside an allocation
            let h = len / 2;
            let sub = &vs[h..];
            shared!(cx, "[String]", sub, len - h, br, sbr);
            shared!(cx, "[String]", sub, len - h, lr, slr);
            shared!(cx, "[String]", sub, len - h, ur, sur);
        }
        2 => {
            cx.label("Vec, mutable");
            fn w(x: &mut [u32]) {
                for y in x {
                    *y = *y * 1000 + 5;
                }
            }
            mutable!(cx, "Vec<u32>", v, len, br, sbr, w);
            mutable!(cx, "Vec<u32>", v, len, lr, slr, w);
            mutable!(cx, "Vec<u32>", v, len, ur, sur, w);
            mutable!(cx, "Vec<u32>", v, len, full, sfull, w);
            fn ws(x: &mut [String]) {
                for y in x {
                    y.push_str("+++++++++++++++++++++++++");
                }
            }
            mutable!(cx, "Vec<String>", vs, len, br, sbr, ws);
        }
        3 => {
            cx.label("slice, mutable");
            fn w(x: &mut [u32]) {
                for y in x {
                    *y = !*y;
                }
            }
            // boxed slices index as slices
            let bx: Box<[u32]> = v.clone().into_boxed_slice();
            mutable!(cx, "[u32]", bx, len, br, sbr, w);
            mutable!(cx, "[u32]", bx, len, lr, slr, w);
            mutable!(cx, "[u32]", bx, len, ur, sur, w);
            mutable!(cx, "[u32]", bx, len, full, sfull, w);
        }
        4 | 5 => {
            cx.label("String and str");
            let cs = ['a', 'z', '\u{e9}', '\u{20ac}', '\u{1F600}', '0', '\u{10FFFF}', '\u{0}'];
            let mut t = String::new();
            let n = cx.rng.below(12);
            for _ in 0..n {
                t.push(*cx.rng.pick(&cs));
            }
            let len = t.len();
            cx.sig(&t);
            cx.log(|| format!("text {t:?}"));
            shared!(cx, "String", t, len, br, sbr);
            shared!(cx, "String", t, len, lr, slr);
            shared!(cx, "String", t, len, ur, sur);
            shared!(cx, "String", t, len, full, sfull);
            let g = attempt(|| t[er].len());
            watch!(cx, g == Ok(0), "String indexed by EmptyRange: {g:?}");
            let st = &t[..];
            shared!(cx, "str", st, len, br, sbr);
            shared!(cx, "str", st, len, lr, slr);
            shared!(cx, "str", st, len, ur, sur);
            shared!(cx, "str", st, len, full, sfull);
            let g = attempt(|| st[er].len());
            watch!(cx, g == Ok(0), "str indexed by EmptyRange: {g:?}");
            fn w(x: &mut str) {
                x.make_ascii_uppercase();
            }
            mutable!(cx, "String", t, len, br, sbr, w);
            mutable!(cx, "String", t, len, lr, slr, w);
            mutable!(cx, "String", t, len, ur, sur, w);
            mutable!(cx, "String", t, len, full, sfull, w);
            let bs: Box<str> = t.clone().into_boxed_str();
            mutable!(cx, "str", bs, len, br, sbr, w);
            mutable!(cx, "str", bs, len, lr, slr, w);
            mutable!(cx, "str", bs, len, ur, sur, w);
            mutable!(cx, "str", bs, len, full, sfull, w);
        }
        6 => {
            cx.label("CStr, CString, OsString");
            let bytes: Vec<u8> = (0..len as u8).map(|x| x + 1).collect();
            let c = CString::new(bytes).expect("no NUL");
            let cs: &CStr = &c;
            shared!(cx, "CStr", cs, len + 1, lr, slr);
            shared!(cx, "CString", c, len + 1, full, sfull);
            let os = OsString::from("x\u{e9}".repeat(len));
            let n = os.len();
            shared!(cx, "OsString", os, n, full, sfull);
            fn w(x: &mut std::ffi::OsStr) {
                x.make_ascii_uppercase();
            }
            mutable!(cx, "OsString", os, n, full, sfull, w);
        }
        _ => {
            cx.label("slice of usize::MAX units");
            let z: Vec<()> = vec![(); usize::MAX];
            let len = usize::MAX;
            // an excluded start at usize::MAX has no one std counterpart here
            if s.is_some() {
                shared!(cx, "Vec<()>", z, len, br, sbr);
                shared!(cx, "Vec<()>", z, len, lr, slr);
                shared!(cx, "[()]", (&z[..]), len, br, sbr);
            }
            shared!(cx, "Vec<()>", z, len, ur, sur);
            shared!(cx, "Vec<()>", z, len, full, sfull);
            shared!(cx, "[()]", (&z[..]), len, ur, sur);
        }
    }
    Ok(())
}
