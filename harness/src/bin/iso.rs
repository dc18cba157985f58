//! C24: set algebra depends on the order of the elements only. The same script of operations is run
//! on element types that have nothing in common but an order, at corresponding points; every
//! observation has to correspond.

use rangetools::{
    BoundedRange, BoundedSet, EmptyRange, LowerBound, LowerBoundedRange, LowerBoundedSet,
    UnboundedRange, UnboundedSet, UpperBound, UpperBoundedRange, UpperBoundedSet,
};
use rtmon::broken;
use rtmon::dynv::*;
use rtmon::elem::*;
use rtmon::rng::Rng;
use rtmon::runner::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::fmt::{Debug, Formatter};
use std::hash::{Hash, Hasher};

fn main() {
    rtmon::runner::main(&[Prop {
        id: "C24",
        quick: 1_000_000,
        thorough: 200_000_000,
        case: c24,
        small_stack: false,
        compared: false,
        rule: "a script (operands of all 15 types over up to 40 abstract points, then operations) run on i64 and on an element type of another kind (reversed order, strings, 48-byte arrays, floats in total order, tuples, bool, a type with one value); kinds, emptiness, membership at every point, equalities, hashes, disjointness, bound comparisons and pieces (by debug output in terms of the points) after each operation correspond. Non-trivial: a result that contains some of the points and not others.",
    }]);
}

thread_local! {
    /// Ranks of the points of the script being run.
    static POINTS: RefCell<Vec<u128>> = const { RefCell::new(vec![]) };
}
/// Elements show as the number of their point.
fn show<T: Elem>(t: T, f: &mut Formatter) -> std::fmt::Result {
    POINTS.with(|p| match p.borrow().binary_search(&t.rank()) {
        Ok(i) => write!(f, "p{i}"),
        Err(_) => write!(f, "(no point)"),
    })
}

macro_rules! element {
    ($($t:ident $name:literal $max:expr, $of:expr, $rank:expr;)*) => {$(
        impl Elem for $t {
            const NAME: &'static str = $name;
            const MAXR: u128 = $max;
            fn of(r: u128) -> Self { assert!(r <= Self::MAXR); ($of)(r) }
            fn rank(self) -> u128 { ($rank)(self) }
        }
        impl Debug for $t {
            fn fmt(&self, f: &mut Formatter) -> std::fmt::Result { show(*self, f) }
        }
        impl Serialize for $t {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.rank().serialize(s) }
        }
        impl<'de> Deserialize<'de> for $t {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(Self::of(u128::deserialize(d)?)) }
        }
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
        }
    )*};
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Ord)]
struct Plain(i64);
/// Descending numbers.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Ord)]
struct Rev(std::cmp::Reverse<u32>);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Ord)]
struct Word(&'static str);
/// Large elements, equal but for one of the words.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Ord)]
struct Wide([u64; 6]);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Ord)]
struct Pair((char, bool));
#[derive(Clone, Copy, PartialEq, Eq, Hash, Ord)]
struct Truth(bool);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Ord)]
struct Unit(());
/// Floats in total order, infinities, zeros of both signs and NaNs included.
#[derive(Clone, Copy)]
struct Fl(f32);
impl PartialEq for Fl {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Fl {}
impl Ord for Fl {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.total_cmp(&o.0)
    }
}
impl Hash for Fl {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.to_bits().hash(h)
    }
}

const WORDS: [&str; 56] = [
    "", " ", "!", "!!", "0", "00", "1", "10", "2", "A", "AA", "AAA", "Aa", "B", "Z", "ZZ", "Za", "a", "aA", "aa", "aaa", "aaaa", "aaab", "aab", "ab", "abc", "b",
    "ba", "bb", "c", "d", "e", "f", "g", "h", "i", "ii", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "x", "y", "z", "zz", "ä", "ö",
];

fn float_of(r: u128) -> Fl {
    let k = r as u32;
    Fl(f32::from_bits(if k < 1 << 31 { !k } else { k ^ (1 << 31) }))
}
fn float_rank(f: Fl) -> u128 {
    let b = f.0.to_bits();
    (if b >> 31 == 1 { !b } else { b ^ (1 << 31) }) as u128
}
element! {
    Plain "i64" u64::MAX as u128, |r: u128| Plain(i64::of(r)), |t: Plain| t.0.rank();
    Rev "Reverse" u32::MAX as u128, |r: u128| Rev(std::cmp::Reverse(u32::MAX - r as u32)), |t: Rev| (u32::MAX - t.0.0) as u128;
    Word "str" 55, |r: u128| Word(WORDS[r as usize]), |t: Word| WORDS.iter().position(|w| *w == t.0).expect("a word") as u128;
    Wide "[u64; 6]" u128::MAX, |r: u128| Wide([7, 7, (r >> 64) as u64, 7, 7, r as u64]), |t: Wide| (t.0[2] as u128) << 64 | t.0[5] as u128;
    Pair "(char, bool)" char::MAXR * 2 + 1, |r: u128| Pair((char::of(r / 2), r % 2 == 1)), |t: Pair| t.0.0.rank() * 2 + t.0.1 as u128;
    Truth "bool" 1, |r: u128| Truth(r == 1), |t: Truth| t.0 as u128;
    Unit "()" 0, |_| Unit(()), |_| 0;
    Fl "f32" u32::MAX as u128, float_of, float_rank;
}

type End = (usize, bool);
/// An operand in terms of points: which type, its unbounded parts and its pieces, as far as the type has them.
#[derive(Clone, Debug)]
struct Abs {
    kind: usize,
    lower: End,
    upper: End,
    pieces: Vec<(End, End)>,
}
#[derive(Debug)]
struct Script {
    operands: Vec<Abs>,
    /// operation, left, right, where the result goes
    ops: Vec<(u8, usize, usize, usize)>,
}

fn script(rng: &mut Rng, k: usize) -> Script {
    let end = |rng: &mut Rng| (rng.below(k as u64) as usize, rng.chance(1, 2));
    let operands = (0..4)
        .map(|_| {
            let n = match rng.below(4) {
                0 => 0,
                1 => 1,
                2 => 2 + rng.below(3) as usize,
                _ => rng.below(k as u64 / 2 + 1) as usize,
            };
            let pieces = (0..n)
                .map(|_| {
                    let a = end(rng);
                    // mostly short, sometimes any
                    let b = if rng.chance(3, 4) { ((a.0 + rng.below(3) as usize).min(k - 1), rng.chance(1, 2)) } else { end(rng) };
                    (a, b)
                })
                .collect();
            Abs { kind: rng.below(15) as usize, lower: end(rng), upper: end(rng), pieces }
        })
        .collect();
    let ops = (0..10).map(|_| (rng.below(9) as u8, rng.below(4) as usize, rng.below(4) as usize, rng.below(4) as usize)).collect();
    Script { operands, ops }
}

fn lo<T>((i, inc): End, p: &[T]) -> LowerBound<T>
where
    T: Copy,
{
    if inc { LowerBound::included(p[i]) } else { LowerBound::excluded(p[i]) }
}
fn up<T>((i, inc): End, p: &[T]) -> UpperBound<T>
where
    T: Copy,
{
    if inc { UpperBound::included(p[i]) } else { UpperBound::excluded(p[i]) }
}

fn build<T: Elem>(a: &Abs, p: &[T]) -> Dyn<T> {
    let (l, u) = (a.lower.0, a.upper.0);
    let below = UpperBoundedRange { end: up(a.upper, p) };
    let above = LowerBoundedRange { start: lo(a.lower, p) };
    let piece = |(x, y): (End, End)| Dyn::BR(BoundedRange { start: lo(x, p), end: up(y, p) });
    let all = |s: Dyn<T>| a.pieces.iter().fold(s, |s, x| if a.lower.1 { s.union(piece(*x)) } else { piece(*x).union(s) });
    match a.kind {
        0 => Dyn::R(p[l]..p[u]),
        1 => Dyn::RF(p[l]..),
        2 => Dyn::RU(..),
        3 => Dyn::RI(p[l]..=p[u]),
        4 => Dyn::RT(..p[u]),
        5 => Dyn::RTI(..=p[u]),
        6 => Dyn::BR(BoundedRange { start: lo(a.lower, p), end: up(a.upper, p) }),
        7 => Dyn::LBR(above),
        8 => Dyn::UBR(below),
        9 => Dyn::UR(UnboundedRange),
        10 => Dyn::ER(EmptyRange::new()),
        11 => all(Dyn::BS(BoundedSet::empty())),
        12 => all(Dyn::LBS(LowerBoundedSet::from(above))),
        13 => all(Dyn::UBS(UpperBoundedSet::from(below))),
        _ => all(Dyn::US(UnboundedSet::new(below, above))),
    }
}

fn hash(x: &impl Hash) -> u64 {
    let mut h = Sig::default();
    x.hash(&mut h);
    h.finish()
}

/// What is observed of the script; panics included.
fn observe<T: Elem>(s: &Script, points: &[u128], both: &mut bool) -> Vec<String> {
    POINTS.with(|p| *p.borrow_mut() = points.to_vec());
    let p: Vec<T> = points.iter().map(|&r| T::of(r)).collect();
    let mut log = vec![];
    let see = |d: &Dyn<T>, both: &mut bool| {
        let m: String = p.iter().map(|&t| if d.has(t) { '#' } else { '.' }).collect();
        *both |= m.contains('#') && m.contains('.');
        let text = format!("{d:?}").replace(std::any::type_name::<T>(), "T");
        format!("{m} {} {text}", if d.is_empty() { "empty" } else { "" })
    };
    let mut pool: Vec<Dyn<T>> = vec![];
    for a in &s.operands {
        match attempt(|| build(a, &p)) {
            Ok(d) => {
                log.push(see(&d, both));
                pool.push(d);
            }
            Err(_) => {
                log.push("panic".into());
                return log;
            }
        }
    }
    for &(op, i, j, to) in &s.ops {
        let (a, b) = (pool[i].clone(), pool[j].clone());
        let r = attempt(|| match op {
            0..=2 => a.clone().union(b.clone()),
            3..=5 => a.clone().intersection(b.clone()),
            6 => a.clone().complement(),
            7 => a.clone().to_set(),
            _ => a.clone().to_inner(),
        });
        let Ok(r) = r else {
            log.push("panic".into());
            return log;
        };
        let dis = attempt(|| (a.clone().disjoint(b.clone()), a.clone().intersects(b.clone()))).ok();
        let eq: Vec<(bool, bool)> = pool.iter().map(|x| (*x == r, *x != r || hash(x) == hash(&r))).collect();
        log.push(format!("operation {op} on {i} and {j}: {dis:?} {eq:?} {}", see(&r, both)));
        pool[to] = r;
    }
    // bounds at the first points
    for &x in p.iter().take(3) {
        for &y in p.iter().take(3) {
            let q = [x, y];
            for (c, d) in [(true, true), (true, false), (false, true), (false, false)] {
                let (l, m) = (lo((0, c), &q), lo((1, d), &q));
                let (u, v) = (up((0, c), &q), up((1, d), &q));
                log.push(format!("bounds {:?} {:?} {:?} {:?} {} {}", l.cmp(&m), u.cmp(&v), l.min(m), u.max(v), l == m, u <= v));
            }
        }
    }
    log
}

/// k ascending ranks of a type.
fn ranks<T: Elem>(rng: &mut Rng, k: usize) -> Vec<u128> {
    let most = T::MAXR;
    let mut v: Vec<u128> = match rng.below(4) {
        // the first, the last, or some consecutive values
        0 => (0..k as u128).collect(),
        1 => (0..k as u128).map(|i| most - i).collect(),
        2 => {
            let room = most - (k as u128 - 1);
            let b = if room == u128::MAX { rng.u128() } else { rng.below128(room + 1) };
            (0..k as u128).map(|i| b + i).collect()
        }
        _ => {
            let mut v = vec![];
            for _ in 0..8 * k {
                let r = if most == u128::MAX { rng.u128() } else { rng.below128(most + 1) };
                if !v.contains(&r) {
                    v.push(r);
                }
                if v.len() == k {
                    break;
                }
            }
            let mut i = 0;
            while v.len() < k {
                if !v.contains(&i) {
                    v.push(i);
                }
                i += 1;
            }
            v
        }
    };
    v.sort_unstable();
    v
}

fn compare<T: Elem>(cx: &mut Ctx, s: &Script, k: usize) -> Verdict {
    cx.label(T::NAME);
    let (x, y) = (ranks::<Plain>(&mut cx.rng, k), ranks::<T>(&mut cx.rng, k));
    cx.log(|| format!("{k} points of i64 (ranks {x:?}) and of {} (ranks {y:?})", T::NAME));
    cx.log(|| format!("{s:?}"));
    let mut both = false;
    let a = observe::<Plain>(s, &x, &mut both);
    let b = observe::<T>(s, &y, &mut both);
    cx.nontrivial = both;
    cx.sig(&a);
    cx.calls += 2 * s.ops.len() as u64 * 4;
    for (i, (p, q)) in a.iter().zip(&b).enumerate() {
        cx.events += 1;
        if p != q {
            cx.log(|| format!("i64: {p}"));
            cx.log(|| format!("{}: {q}", T::NAME));
            broken!("observation {i} of the script is {p:?} on i64 and {q:?} on {}, at corresponding points", T::NAME);
        }
    }
    if a.len() != b.len() {
        broken!("the script has {} observations on i64 and {} on {}", a.len(), b.len(), T::NAME);
    }
    Ok(())
}

fn c24(cx: &mut Ctx) -> Verdict {
    let few = cx.case % 16;
    let k = match few {
        0 => 1,
        1 => 2,
        _ => match cx.rng.below(8) {
            0..=4 => 2 + cx.rng.below(6),
            5 | 6 => 6 + cx.rng.below(10),
            _ => 12 + cx.rng.below(29),
        },
    } as usize;
    let s = script(&mut cx.rng, k);
    match few {
        0 => compare::<Unit>(cx, &s, k),
        1 => compare::<Truth>(cx, &s, k),
        n => match n % 5 {
            0 => compare::<Rev>(cx, &s, k),
            1 => compare::<Word>(cx, &s, k),
            2 => compare::<Wide>(cx, &s, k),
            3 => compare::<Pair>(cx, &s, k),
            _ => compare::<Fl>(cx, &s, k),
        },
    }
}
