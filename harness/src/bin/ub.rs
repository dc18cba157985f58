//! C19: workloads over the whole safe interface for undefined-behaviour detectors. They run under
//! Miri (64- and 32-bit), AddressSanitizer, and natively with the standard library's checks of
//! unsafe preconditions. Only undefined behaviour decides: a report of a detector, a char with
//! invalid bits, or a selection outside its container. Panics and wrong values do not.

use rangetools::{
    Bound, BoundedRange, BoundedSet, EmptyRange, LowerBound, LowerBoundedRange, Rangetools, Step,
    UnboundedRange, UpperBound, UpperBoundedRange,
};
use rtmon::dynv::*;
use rtmon::elem::*;
use rtmon::gen::*;
use rtmon::runner::*;
use rtmon::watch;
use std::ffi::{CStr, CString, OsStr, OsString};

fn main() {
    rtmon::runner::main(&[Prop {
        id: "C19",
        quick: 300_000,
        thorough: 40_000_000,
        case: c19,
        small_stack: false, compared: false,
        rule: "char stepping from starts around the surrogate gap, the limits and everywhere, with counts aimed at the gap, the limits and narrower integer widths up to usize::MAX; char and integer iteration histories from both ends; indexing of every container by every range type at valid and invalid positions; set operations, conversions and serialisation; sets deserialised from untrusted data with empty, overlapping and descending pieces; all of these on an element type whose order and steps are inconsistent, lie or panic at any call; panics are caught. Non-trivial: the case completed at least one call without panicking.",
    }]);
}

const SMALL: bool = cfg!(miri);

/// The bits of a char, read so that the optimiser cannot assume them valid.
fn bits(c: char) -> u32 {
    let m = std::mem::MaybeUninit::new(c);
    let m = std::hint::black_box(m);
    unsafe { std::ptr::read_volatile(m.as_ptr().cast::<u32>()) }
}
fn valid(cx: &mut Ctx, c: char, from: impl Fn() -> String) -> Verdict {
    let b = bits(c);
    watch!(cx, b < 0xD800 || (0xE000..0x110000).contains(&b), "{} produced a char with the bits {b:#x}, which is undefined behaviour", from());
    cx.nontrivial = true;
    Ok(())
}
fn valid_opt(cx: &mut Ctx, c: Result<Option<char>, String>, from: impl Fn() -> String) -> Verdict {
    match c {
        Ok(Some(c)) => valid(cx, c, from),
        Ok(None) => {
            cx.nontrivial = true;
            cx.events += 1;
            Ok(())
        }
        Err(_) => {
            cx.label("panics");
            Ok(())
        }
    }
}

fn c19(cx: &mut Ctx) -> Verdict {
    // a stray panic is not undefined behaviour: it only skips the case
    cx.setup = true;
    match cx.case % 8 {
        _ if cx.case % 48 == 45 || cx.case % 48 == 12 => hostile(cx),
        _ if cx.case % 48 == 20 || cx.case % 48 == 29 => match cx.case / 48 % 3 {
            0 => forged::<u8>(cx),
            1 => forged::<char>(cx),
            _ => forged::<i64>(cx),
        },
        0..=2 => steps(cx),
        3 => char_iter(cx),
        4 => match cx.case / 8 % 5 {
            0 => int_iter::<u8>(cx),
            1 => int_iter::<i64>(cx),
            2 => int_iter::<usize>(cx),
            3 => int_iter::<i128>(cx),
            _ => int_iter::<Tri>(cx),
        },
        5 | 6 => index(cx),
        _ => match cx.case / 8 % 2 {
            0 => algebra::<char>(cx),
            _ => algebra::<u8>(cx),
        },
    }
}

// Every block of 64 chars is visited once in order by the first cases, then starts are random.
fn steps(cx: &mut Ctx) -> Verdict {
    cx.label("char steps");
    let k = cx.case / 8 * 3 + cx.case % 8;
    let total = (char::MAXR + 1) as u64;
    let mut starts: Vec<char> = vec![];
    if !SMALL && k * 64 < total {
        cx.label("char blocks enumerated");
        starts.extend((k * 64..(k * 64 + 64).min(total)).map(|r| char::of(r as u128)));
    } else {
        let hot = [0u128, 1, 0xD7FF, 0xD800, 0xD7FE, 0xD801, 0xD000, 0xE000, 0xFFFF, 0x10000, char::MAXR, char::MAXR - 1];
        for _ in 0..if SMALL { 2 } else { 8 } {
            let r = if cx.chance(2, 3) { *cx.rng.pick(&hot) } else { cx.rng.below128(char::MAXR + 1) };
            starts.push(char::of(r));
        }
    }
    for a in starts {
        let r = a.rank();
        let code = bits(a) as u128;
        let mut v: Vec<u128> = vec![0, 1, 2, 3];
        for t in [r, char::MAXR - r, r.abs_diff(0xD800), code.abs_diff(0xD800), code.abs_diff(0xE000), code, 0x10FFFF - code, 0x800, 0x110000, 0x10F800] {
            for d in 0..3 {
                v.push(t + d);
                v.push(t.saturating_sub(d));
            }
        }
        for b in [8, 16, 31, 32, 63, 64] {
            let p = 1u128 << b;
            v.extend([p - 1, p, p + 1, p.wrapping_sub(code), p.wrapping_add(0xD800).wrapping_sub(code), p.wrapping_add(0xDFFF).wrapping_sub(code)]);
        }
        v.push(usize::MAX as u128);
        v.push(usize::MAX as u128 - code);
        for _ in 0..8 {
            v.push((cx.rng.next() >> cx.rng.below(64)) as u128);
            v.push(cx.rng.below(0x1000) as u128);
        }
        if SMALL {
            // a sample, the interpreter is slow
            cx.rng.shuffle(&mut v);
            v.truncate(40);
        }
        cx.sig(&a);
        cx.log(|| format!("steps from {a:?}"));
        for n in v.into_iter().filter_map(|n| usize::try_from(n).ok()) {
            cx.calls += 4;
            let x = attempt(|| char::forward_checked(a, n));
            valid_opt(cx, x, || format!("char::forward_checked({a:?}, {n})"))?;
            let x = attempt(|| char::backward_checked(a, n));
            valid_opt(cx, x, || format!("char::backward_checked({a:?}, {n})"))?;
            if SMALL || n <= 0x110000 || cx.chance(1, 40) {
                // these panic where no result exists; panics are slow
                let far = n as u128 > char::MAXR - r;
                if !far || cx.chance(1, 10) {
                    let x = attempt(|| Some(char::forward(a, n)));
                    valid_opt(cx, x, || format!("char::forward({a:?}, {n})"))?;
                }
                if n as u128 <= r || cx.chance(1, 10) {
                    let x = attempt(|| Some(char::backward(a, n)));
                    valid_opt(cx, x, || format!("char::backward({a:?}, {n})"))?;
                }
            }
        }
    }
    Ok(())
}

fn skip(cx: &mut Ctx) -> usize {
    match cx.rng.below(12) {
        0..=5 => cx.rng.below(4) as usize,
        6 => cx.rng.below(40) as usize,
        7 => 0x7F0 + cx.rng.below(0x20) as usize,
        8 => 0xD7F0 + cx.rng.below(0x20) as usize,
        9 => cx.rng.below(0x110000) as usize,
        10 => usize::MAX - cx.rng.below(4) as usize,
        _ => cx.rng.next() as usize >> cx.rng.below(usize::BITS as u64),
    }
}

/// Drives an iterator from both ends; panics end the case.
fn drive<T: SElem, I: Iterator<Item = T> + DoubleEndedIterator + Clone>(
    cx: &mut Ctx,
    mut it: I,
    look: impl Fn(&mut Ctx, T) -> Verdict,
) -> Verdict {
    let n = if SMALL { 3 + cx.rng.below(8) } else { 3 + cx.rng.below(40) };
    for _ in 0..n {
        let s = skip(cx);
        let what = cx.rng.below(8);
        cx.sig(&(what, s));
        cx.log(|| format!("call {what} skip {s}"));
        cx.calls += 1;
        let r = attempt(|| match what {
            0 | 1 => it.next(),
            2 | 3 => it.next_back(),
            4 => it.nth(s),
            5 => it.nth_back(s),
            6 => it.clone().max(),
            _ => it.clone().last(),
        });
        match r {
            Ok(Some(t)) => look(cx, t)?,
            Ok(None) => cx.events += 1,
            Err(_) => {
                cx.label("panics");
                return Ok(());
            }
        }
        cx.nontrivial = true;
    }
    Ok(())
}
fn drive_fwd<T: SElem>(cx: &mut Ctx, mut it: impl Iterator<Item = T> + Clone, look: impl Fn(&mut Ctx, T) -> Verdict) -> Verdict {
    let n = if SMALL { 3 + cx.rng.below(8) } else { 3 + cx.rng.below(40) };
    for _ in 0..n {
        let s = skip(cx);
        let plain = cx.chance(1, 2);
        cx.sig(&(plain, s));
        cx.calls += 1;
        match attempt(|| if plain { it.next() } else { it.nth(s) }) {
            Ok(Some(t)) => look(cx, t)?,
            Ok(None) => cx.events += 1,
            Err(_) => {
                cx.label("panics");
                return Ok(());
            }
        }
        cx.nontrivial = true;
    }
    Ok(())
}
fn iterate<T: SElem>(cx: &mut Ctx, look: impl Fn(&mut Ctx, T) -> Verdict) -> Verdict {
    let land = if SMALL { Land::<T>::new(&mut cx.rng, 6) } else { Land::<T>::any(&mut cx.rng, 0) };
    let r = brange(&mut cx.rng, &land);
    let ps = pieces(&mut cx.rng, &land);
    cx.log(|| format!("{} range {r:?}, pieces {ps:?}", T::NAME));
    cx.sig(&r);
    cx.sig(&ps);
    let which = cx.rng.below(4);
    let made = attempt(|| {
        let s = ps.iter().fold(BoundedSet::empty(), |s: BoundedSet<T>, p| Rangetools::union(s, *p));
        let l = LowerBoundedRange { start: r.start };
        let ls = Rangetools::union(s.clone(), l);
        (s, l, ls)
    });
    let Ok((s, l, ls)) = made else {
        cx.label("panics");
        return Ok(());
    };
    match which {
        0 => drive(cx, r.into_iter(), look),
        1 => drive(cx, s.into_iter(), look),
        2 => drive_fwd(cx, l.into_iter(), look),
        _ => drive_fwd(cx, ls.into_iter(), look),
    }
}
fn char_iter(cx: &mut Ctx) -> Verdict {
    cx.label("char iteration");
    iterate::<char>(cx, |cx, c| valid(cx, c, || "iteration".into()))
}
fn int_iter<T: SElem>(cx: &mut Ctx) -> Verdict {
    cx.label("integer iteration");
    iterate::<T>(cx, |cx, t| {
        std::hint::black_box(t);
        cx.events += 1;
        Ok(())
    })
}

/// First byte and one past the last byte.
trait Extent {
    fn extent(&self) -> (usize, usize);
    /// Touches every byte.
    fn touch(&self) -> u64;
}
fn sum(b: &[u8]) -> u64 {
    std::hint::black_box(b.iter().fold(0u64, |s, x| s.wrapping_mul(31).wrapping_add(*x as u64)))
}
impl Extent for [u16] {
    fn extent(&self) -> (usize, usize) {
        let r = self.as_ptr_range();
        (r.start as usize, r.end as usize)
    }
    fn touch(&self) -> u64 {
        std::hint::black_box(self.iter().map(|x| *x as u64).sum())
    }
}
impl Extent for str {
    fn extent(&self) -> (usize, usize) {
        let r = self.as_bytes().as_ptr_range();
        (r.start as usize, r.end as usize)
    }
    fn touch(&self) -> u64 {
        sum(self.as_bytes()) + self.chars().count() as u64
    }
}
impl Extent for CStr {
    fn extent(&self) -> (usize, usize) {
        let r = self.to_bytes_with_nul().as_ptr_range();
        (r.start as usize, r.end as usize)
    }
    fn touch(&self) -> u64 {
        sum(self.to_bytes_with_nul())
    }
}
impl Extent for OsStr {
    fn extent(&self) -> (usize, usize) {
        let r = self.as_encoded_bytes().as_ptr_range();
        (r.start as usize, r.end as usize)
    }
    fn touch(&self) -> u64 {
        sum(self.as_encoded_bytes())
    }
}

fn inside(cx: &mut Ctx, what: &str, idx: &dyn std::fmt::Debug, whole: (usize, usize), got: Result<(usize, usize), String>) -> Verdict {
    cx.calls += 1;
    match got {
        Err(_) => cx.label("panics"),
        Ok(g) => {
            // an empty selection may have any address
            watch!(cx, g.0 == g.1 || (g.0 <= g.1 && whole.0 <= g.0 && g.1 <= whole.1), "{what} indexed by {idx:?} selects bytes {:#x}..{:#x}, outside its {:#x}..{:#x}", g.0, g.1, whole.0, whole.1);
            cx.nontrivial = true;
        }
    }
    Ok(())
}
macro_rules! look {
    ($cx:expr, $what:expr, $c:expr, $i:expr) => {{
        let whole = $c[..].extent();
        // where first, touch only what is inside (or let the interpreter judge)
        let at = attempt(|| $c[$i].extent());
        inside($cx, $what, &$i, whole, at)?;
        let _ = attempt(|| $c[$i].touch());
    }};
}
macro_rules! write {
    ($cx:expr, $what:expr, $c:expr, $i:expr, $w:expr) => {{
        let whole = $c[..].extent();
        let at = attempt(|| (&mut $c[$i]).extent());
        inside($cx, $what, &$i, whole, at)?;
        let _ = attempt(|| $w(&mut $c[$i]));
        let _ = $c[..].touch();
    }};
}

fn position(cx: &mut Ctx, len: usize) -> usize {
    match cx.rng.below(14) {
        0 => usize::MAX - cx.rng.below(3) as usize,
        1 | 2 => len + cx.rng.below(3) as usize,
        3 => len.wrapping_sub(cx.rng.below(2) as usize),
        4 => isize::MAX as usize - 1 + cx.rng.below(3) as usize,
        5 => len * 2 + 8,
        _ => cx.rng.below(len as u64 + 2) as usize,
    }
}
fn index(cx: &mut Ctx) -> Verdict {
    cx.label("indexing");
    let len = cx.rng.below(20) as usize;
    let v: Vec<u16> = (0..len as u16).map(|x| x * 257).collect();
    let cs = ['a', '\u{e9}', '\u{20ac}', '\u{1F600}', '\u{10FFFF}'];
    let t: String = (0..cx.rng.below(9)).map(|_| *cx.rng.pick(&cs)).collect();
    let (a, b) = (position(cx, len), position(cx, len));
    let br = BoundedRange { start: lower(&mut cx.rng, a), end: upper(&mut cx.rng, b) };
    let lr = LowerBoundedRange { start: br.start };
    let ur = UpperBoundedRange { end: br.end };
    let (full, er) = (UnboundedRange::new(), EmptyRange::<usize>::new());
    cx.sig(&(len, &br, &t));
    cx.log(|| format!("length {len}, text {t:?}, indexed by {br:?} and its halves"));
    match cx.rng.below(6) {
        0 => {
            look!(cx, "Vec", v, br);
            look!(cx, "Vec", v, lr);
            look!(cx, "Vec", v, ur);
            look!(cx, "Vec", v, full);
            look!(cx, "Vec", v, er);
        }
        1 => {
            // exactly sized, and in the middle of an allocation
            let bx = v.clone().into_boxed_slice();
            look!(cx, "slice", bx, br);
            look!(cx, "slice", bx, lr);
            look!(cx, "slice", bx, ur);
            look!(cx, "slice", bx, full);
            look!(cx, "slice", bx, er);
            let mid = &v[len / 3..len - len / 3];
            look!(cx, "subslice", mid, br);
            look!(cx, "subslice", mid, lr);
            look!(cx, "subslice", mid, ur);
        }
        2 => {
            fn w(x: &mut [u16]) {
                for y in x {
                    *y ^= 0x5A5A;
                }
            }
            let mut m = v.clone();
            write!(cx, "Vec", m, br, w);
            write!(cx, "Vec", m, lr, w);
            write!(cx, "Vec", m, ur, w);
            write!(cx, "Vec", m, full, w);
            let mut m = v.clone().into_boxed_slice();
            write!(cx, "slice", m, br, w);
            write!(cx, "slice", m, lr, w);
            write!(cx, "slice", m, ur, w);
            write!(cx, "slice", m, full, w);
        }
        3 => {
            look!(cx, "String", t, br);
            look!(cx, "String", t, lr);
            look!(cx, "String", t, ur);
            look!(cx, "String", t, full);
            look!(cx, "String", t, er);
            let bs: Box<str> = t.clone().into_boxed_str();
            look!(cx, "str", bs, br);
            look!(cx, "str", bs, lr);
            look!(cx, "str", bs, ur);
            look!(cx, "str", bs, full);
            look!(cx, "str", bs, er);
            // a str that is not cut at character boundaries is invalid
            for sel in [attempt(|| t[br].as_bytes().to_vec()), attempt(|| t[lr].as_bytes().to_vec()), attempt(|| t[ur].as_bytes().to_vec())] {
                if let Ok(b) = sel {
                    watch!(cx, std::str::from_utf8(&b).is_ok(), "{t:?} indexed by {br:?} or its halves gives a str that is not UTF-8: {b:?}");
                }
            }
        }
        4 => {
            fn w(x: &mut str) {
                x.make_ascii_uppercase();
            }
            let mut m = t.clone();
            write!(cx, "String", m, br, w);
            write!(cx, "String", m, lr, w);
            write!(cx, "String", m, ur, w);
            write!(cx, "String", m, full, w);
            let mut m = t.into_boxed_str();
            write!(cx, "str", m, br, w);
            write!(cx, "str", m, lr, w);
            write!(cx, "str", m, ur, w);
            write!(cx, "str", m, full, w);
        }
        _ => {
            let bytes: Vec<u8> = (0..len as u8).map(|x| x + 1).collect();
            let c = CString::new(bytes).expect("no NUL");
            let cs: &CStr = &c;
            let whole = cs.extent();
            let at = attempt(|| cs[lr].extent());
            inside(cx, "CStr", &lr, whole, at)?;
            let _ = attempt(|| cs[lr].touch());
            let at = attempt(|| c[full].extent());
            inside(cx, "CString", &full, whole, at)?;
            let _ = attempt(|| c[full].touch());
            let mut os = OsString::from(t);
            let whole = os.as_os_str().extent();
            let at = attempt(|| os[full].extent());
            inside(cx, "OsString", &full, whole, at)?;
            let _ = attempt(|| os[full].make_ascii_uppercase());
            os.as_os_str().touch();
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- hostile element types

thread_local! {
    /// (mode, random state, calls left before the next call panics)
    static MOOD: std::cell::Cell<(u8, u64, u32)> = const { std::cell::Cell::new((0, 0, 0)) };
}
fn mood() -> (u8, u64) {
    let (m, r, left) = MOOD.with(|c| c.get());
    if m == 0 {
        return (0, 0);
    }
    if left == 0 {
        // from now on well-behaved, so that what unwinds can clean up
        MOOD.with(|c| c.set((0, 0, 0)));
        panic!("a hostile element type panics");
    }
    let x = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    MOOD.with(|c| c.set((m, x, left - 1)));
    (m, x >> 33)
}
/// An element type whose order and steps may be inconsistent, lie, or panic at any call:
/// everything safe code can do.
#[derive(Clone, Copy, Default, Debug, Hash, serde::Serialize, serde::Deserialize)]
struct Wild(u16);
impl PartialEq for Wild {
    fn eq(&self, o: &Self) -> bool {
        match mood() {
            (2 | 4, x) if x % 3 == 0 => x % 2 == 0,
            _ => self.0 == o.0,
        }
    }
}
impl Eq for Wild {}
impl PartialOrd for Wild {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        match mood() {
            (4, x) if x % 5 == 0 => None,
            (2 | 4, x) if x % 3 == 0 => Some([std::cmp::Ordering::Less, std::cmp::Ordering::Equal, std::cmp::Ordering::Greater][(x / 3 % 3) as usize]),
            (3, _) => Some(o.0.cmp(&self.0)),
            _ => Some(self.0.cmp(&o.0)),
        }
    }
}
impl Ord for Wild {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        match mood() {
            (2 | 4, x) if x % 3 == 0 => [std::cmp::Ordering::Less, std::cmp::Ordering::Equal, std::cmp::Ordering::Greater][(x / 3 % 3) as usize],
            _ => self.0.cmp(&o.0),
        }
    }
}
impl Elem for Wild {
    const NAME: &'static str = "Wild";
    const MAXR: u128 = 0xFFFF;
    fn of(r: u128) -> Self {
        Wild(r as u16)
    }
    fn rank(self) -> u128 {
        self.0 as u128
    }
}
impl Step for Wild {
    fn steps_between(a: &Self, b: &Self) -> Option<usize> {
        let (m, x) = mood();
        match x % 7 {
            0 if m > 1 => None,
            1 if m > 1 => Some(0),
            2 if m > 1 => Some(usize::MAX - (x / 7 % 3) as usize),
            3 if m > 1 => Some((x / 7) as usize),
            _ => (b.0 as usize).checked_sub(a.0 as usize),
        }
    }
    fn forward_checked(a: Self, n: usize) -> Option<Self> {
        let (m, x) = mood();
        match x % 7 {
            0 if m > 1 => None,
            1 if m > 1 => Some(Wild(x as u16)),
            2 if m > 1 => Some(a),
            _ => (a.0 as usize).checked_add(n).filter(|r| *r <= 0xFFFF).map(|r| Wild(r as u16)),
        }
    }
    fn backward_checked(a: Self, n: usize) -> Option<Self> {
        let (m, x) = mood();
        match x % 7 {
            0 if m > 1 => None,
            1 if m > 1 => Some(Wild(x as u16)),
            2 if m > 1 => Some(a),
            _ => (a.0 as usize).checked_sub(n).map(|r| Wild(r as u16)),
        }
    }
}
impl SElem for Wild {}

fn hostile(cx: &mut Ctx) -> Verdict {
    cx.label("hostile element types");
    MOOD.with(|c| c.set((0, 0, 0)));
    let land = Land::<Wild>::new(&mut cx.rng, if SMALL { 5 } else { 14 });
    let (ka, kb) = (cx.rng.below(15) as usize, cx.rng.below(15) as usize);
    let (a, b) = (operand(&mut cx.rng, &land, ka).0, operand(&mut cx.rng, &land, kb).0);
    let r = brange(&mut cx.rng, &land);
    let ps = pieces(&mut cx.rng, &land);
    cx.sig(&ka);
    cx.sig(&kb);
    cx.sig(&r);
    cx.log(|| format!("{a:?} and {b:?}, range {r:?}, pieces {ps:?}"));
    for _ in 0..if SMALL { 3 } else { 12 } {
        let mode = 1 + cx.rng.below(4) as u8;
        // mode 1 only panics, at some call
        let left = if mode == 1 || cx.chance(1, 3) { cx.rng.below(60) as u32 } else if SMALL { 400 } else { 6000 };
        let rnd = cx.rng.next();
        let what = cx.rng.below(9);
        cx.sig(&(mode, left, rnd, what));
        cx.log(|| format!("operation {what} in mood {mode}, {left} calls, random state {rnd}"));
        let mut g = cx.rng.clone();
        cx.calls += 1;
        MOOD.with(|c| c.set((mode, rnd, left)));
        let out = attempt(|| match what {
            0 => {
                let u = a.clone().union(b.clone());
                land.pts.iter().filter(|p| u.has(**p)).count()
            }
            1 => {
                let u = a.clone().intersection(b.clone());
                land.pts.iter().filter(|p| u.has(**p)).count()
            }
            2 => {
                let u = a.clone().complement().complement();
                land.pts.iter().filter(|p| u.has(**p)).count()
            }
            3 => a.clone().disjoint(b.clone()) as usize + a.clone().intersects(b.clone()) as usize,
            4 => {
                let s = ps.iter().fold(BoundedSet::empty(), |s: BoundedSet<Wild>, p| Rangetools::union(s, *p));
                wander(&mut g, s.into_iter())
            }
            5 => wander(&mut g, r.into_iter()),
            6 => {
                let s = ps.iter().fold(BoundedSet::empty(), |s: BoundedSet<Wild>, p| Rangetools::union(s, *p));
                let l = Rangetools::union(s, LowerBoundedRange { start: r.start });
                l.into_iter().skip(3).step_by(2).take(30).count()
            }
            7 => {
                let x = std::ops::Range::from(r);
                let y = std::ops::RangeInclusive::from(r);
                x.start.0 as usize + y.end().0 as usize
            }
            _ => {
                let u = a.clone().union(b.clone()).to_set().complement().intersection(a.clone()).union(b.clone());
                u.is_empty() as usize + (u == a) as usize
            }
        });
        MOOD.with(|c| c.set((0, 0, 0)));
        cx.events += 1;
        match out {
            Ok(n) => {
                std::hint::black_box(n);
                cx.nontrivial = true;
            }
            Err(_) => cx.label("panics under a hostile element type"),
        }
    }
    Ok(())
}
/// Sets out of untrusted data: deserialising checks nothing, so safe code can have pieces that are
/// empty, overlap, descend or lie within the unbounded parts.
fn forged<T: SElem>(cx: &mut Ctx) -> Verdict {
    cx.label("forged sets");
    let land = Land::<T>::new(&mut cx.rng, 6);
    if land.pts.len() < 6 {
        return Ok(());
    }
    let p = &land.pts;
    let at = |a: T, b: T| BoundedRange { start: LowerBound::included(a), end: UpperBound::excluded(b) };
    let make = |cx: &mut Ctx| {
        // two proper pieces to learn the format from, then any
        let mut ps = vec![at(p[1], p[2]), at(p[3], p[4])];
        for _ in 0..cx.rng.below(if SMALL { 4 } else { 12 }) {
            let (a, b) = (land.pt(&mut cx.rng), land.pt(&mut cx.rng));
            ps.push(BoundedRange { start: lower(&mut cx.rng, a), end: upper(&mut cx.rng, b) });
        }
        let l = cx.chance(1, 3).then(|| LowerBoundedRange { start: lower(&mut cx.rng, p[5]) });
        let u = cx.chance(1, 3).then(|| UpperBoundedRange { end: UpperBound::excluded(p[0]) });
        attempt(|| assemble(&ps, l, u)).ok().flatten()
    };
    let (Some(a), Some(b)) = (make(cx), make(cx)) else {
        return Ok(());
    };
    cx.sig(&a);
    cx.sig(&b);
    cx.log(|| format!("{a:?} and {b:?}"));
    cx.label("forged sets built");
    let mut g = cx.rng.clone();
    for what in 0..8 {
        cx.calls += 1;
        let out = attempt(|| match what {
            0 => a.clone().union(b.clone()).is_empty() as usize,
            1 => a.clone().intersection(b.clone()).is_empty() as usize,
            2 => a.clone().complement().complement().is_empty() as usize,
            3 => a.clone().disjoint(b.clone()) as usize + (a == b) as usize,
            4 => land.probes().iter().filter(|t| a.has(**t)).count(),
            5 => match &a {
                Dyn::BS(s) => wander(&mut g, s.clone().into_iter()),
                Dyn::LBS(s) => {
                    let mut it = s.clone().into_iter();
                    (0..12).filter(|_| if g.chance(1, 2) { it.next() } else { it.nth(g.below(9) as usize) }.is_some()).count()
                }
                _ => 0,
            },
            6 => T::walk(&a, 9).map_or(0, |v| v.len()),
            _ => b.clone().to_set().union(a.clone()).to_inner().intersection(b.clone()).json().is_some() as usize,
        });
        cx.events += 1;
        match out {
            Ok(n) => {
                std::hint::black_box(n);
                cx.nontrivial = true;
            }
            Err(_) => cx.label("panics on forged sets"),
        }
    }
    Ok(())
}
fn wander<T, I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone>(g: &mut rtmon::rng::Rng, mut it: I) -> usize {
    let mut n = 0;
    for _ in 0..20 {
        let k = g.below(5) as usize;
        n += match g.below(8) {
            0 | 1 => it.next().is_some() as usize,
            2 | 3 => it.next_back().is_some() as usize,
            4 => it.nth(k).is_some() as usize,
            5 => it.nth_back(k).is_some() as usize,
            6 => it.size_hint().0 & 1,
            // no collect: a lying size hint asks for any amount of memory
            _ => it.clone().take(40).fold(0, |n, _| n + 1),
        };
    }
    n
}

fn algebra<T: SElem>(cx: &mut Ctx) -> Verdict {
    cx.label("set operations");
    let land = Land::<T>::new(&mut cx.rng, if SMALL { 6 } else { 12 });
    let (ka, kb) = (cx.rng.below(15) as usize, cx.rng.below(15) as usize);
    let made = {
        let mut g = cx.rng.clone();
        attempt(|| (operand(&mut g, &land, ka).0, operand(&mut g, &land, kb).0))
    };
    let Ok((a, b)) = made else {
        cx.label("panics");
        return Ok(());
    };
    cx.sig(&a);
    cx.sig(&b);
    cx.log(|| format!("{a:?} and {b:?}"));
    let r = attempt(|| {
        let u = a.clone().union(b.clone());
        let i = a.clone().intersection(b.clone());
        let c = a.clone().complement();
        let d = u.clone().intersection(c.clone()).union(i.clone());
        let mut n = a.clone().disjoint(b.clone()) as u64;
        for x in [&u, &i, &c, &d] {
            for p in land.probes() {
                n += x.has(p) as u64;
            }
            n += x.is_empty() as u64;
            if let Some(v) = T::walk(x, 5) {
                n += v.len() as u64;
            }
            #[cfg(feature = "ser")]
            let j = x.json().map(|j| j.to_string());
            #[cfg(feature = "ser")]
            if let (Dyn::BS(_), Some(j)) = (x, &j) {
                n += serde_json::from_str::<BoundedSet<T>>(j).is_ok() as u64;
            }
        }
        n += (u == d) as u64;
        std::hint::black_box(n)
    });
    cx.calls += 20;
    match r {
        Ok(_) => {
            cx.nontrivial = true;
            cx.events += 1;
        }
        Err(_) => cx.label("panics"),
    }
    // conversions
    let r = brange(&mut cx.rng, &land);
    for k in 0..5 {
        let x = attempt(|| match k {
            0 => drop(std::hint::black_box(std::ops::Range::from(r))),
            1 => drop(std::hint::black_box(std::ops::RangeInclusive::from(r))),
            2 => drop(std::hint::black_box(std::ops::RangeFrom::from(LowerBoundedRange { start: r.start }))),
            3 => drop(std::hint::black_box(std::ops::RangeTo::from(UpperBoundedRange { end: r.end }))),
            _ => drop(std::hint::black_box(std::ops::RangeToInclusive::from(UpperBoundedRange { end: r.end }))),
        });
        cx.events += x.is_ok() as u64;
    }
    match r.start.to_bound() {
        Bound::Included(t) | Bound::Excluded(t) => std::hint::black_box(t),
    };
    Ok(())
}
