//! Workload generators: a "land" of interesting points, and operands with endpoints on them.

use crate::dynv::Dyn;
use crate::elem::Elem;
use crate::model::*;
use crate::rng::Rng;
#[cfg(feature = "ser")]
use serde_json::Value;
use rangetools::{
    Bound, BoundedRange, BoundedSet, EmptyRange, LowerBound, LowerBoundedRange,
    UnboundedRange, UnboundedSet, UpperBound, UpperBoundedRange,
};

pub struct Land<T> {
    /// Endpoints are drawn from these, in ascending order.
    pub pts: Vec<T>,
    pub style: &'static str,
}

impl<T: Elem> Land<T> {
    pub fn new(rng: &mut Rng, want: usize) -> Self {
        let max = T::MAXR;
        let want = want.max(2) as u128;
        let most = (max / (want + 1)).max(1);
        let g = match rng.below(10) {
            0..=2 => 1,
            3 => 2,
            4 => 3,
            5 => 1 + rng.below(9) as u128,
            6 => most,
            7 => 1 + rng.below128(most),
            8 => word_size(rng).min(most),
            // distances of all sizes: see below
            _ => 0,
        };
        if g == 0 {
            return Self::irregular(rng, want, most);
        }
        let span = g.saturating_mul(want - 1);
        let (base, style) = match rng.below(8) {
            0 | 1 => (0, "at the least value"),
            2 | 3 => (max.saturating_sub(span), "at the greatest value"),
            4 => {
                let hot = T::hot();
                let h = *rng.pick(&hot);
                (h.saturating_sub(rng.below128(span.min(1 << 64) + 1)), "around a special value")
            }
            _ => {
                let room = max.saturating_sub(span);
                let b = if room == u128::MAX { rng.u128() } else { rng.below128(room + 1) };
                (b, "anywhere")
            }
        };
        let mut pts = vec![];
        for i in 0..want {
            match g.checked_mul(i).and_then(|d| base.checked_add(d)) {
                Some(r) if r <= max => pts.push(T::of(r)),
                _ => break,
            }
        }
        if pts.is_empty() {
            pts.push(T::of(max));
        }
        if rng.chance(1, 8) {
            pts.push(T::of(0));
            pts.push(T::of(max));
            pts.sort();
            pts.dedup();
        }
        Land { pts, style }
    }
    /// Points at distances that are each of another size.
    fn irregular(rng: &mut Rng, want: u128, most: u128) -> Self {
        let gaps: Vec<u128> = (1..want)
            .map(|_| match rng.below(4) {
                0 => 1 + rng.below(3) as u128,
                1 => 1 + rng.below128(most),
                _ => word_size(rng),
            })
            .map(|g| g.min(most))
            .collect();
        let span = gaps.iter().fold(0u128, |a, g| a.saturating_add(*g));
        let room = T::MAXR.saturating_sub(span);
        let mut r = match rng.below(4) {
            0 => 0,
            1 => room,
            _ => if room == u128::MAX { rng.u128() } else { rng.below128(room + 1) },
        };
        let mut pts = vec![T::of(r.min(T::MAXR))];
        for g in gaps {
            match r.checked_add(g) {
                Some(x) if x <= T::MAXR => r = x,
                _ => break,
            }
            pts.push(T::of(r));
        }
        if rng.chance(1, 4) {
            pts.push(T::of(0));
            pts.push(T::of(T::MAXR));
            pts.sort();
            pts.dedup();
        }
        Land { pts, style: "at distances of all sizes" }
    }
    /// Land sized for an operand of a random size class.
    pub fn any(rng: &mut Rng, depth: u64) -> Self {
        let k = match rng.below(40) {
            0..=13 => 2 + rng.below(4),
            14..=29 => 4 + rng.below(10),
            30..=37 => 12 + rng.below(30),
            38 => 40 + rng.below(80),
            _ => 40 + rng.below(if depth > 0 { 600 } else { 250 }),
        };
        Self::new(rng, k as usize)
    }
    /// Now and then (once in `odds`) a land for sets of hundreds to thousands of pieces.
    pub fn any_or_huge(rng: &mut Rng, depth: u64, odds: u64) -> Self {
        if odds == 0 || !rng.chance(1, odds) {
            return Self::any(rng, depth);
        }
        let k = match rng.below(4) {
            0 | 1 => 280 + rng.below(800),
            2 => 1000 + rng.below(1300),
            _ => 2000 + rng.below(if depth > 0 { 6000 } else { 2500 }),
        };
        Self::new(rng, k as usize)
    }
    pub fn pt(&self, rng: &mut Rng) -> T {
        *rng.pick(&self.pts)
    }
    /// Every endpoint, its neighbours, the middles of gaps, and the limits of the type.
    pub fn probes(&self) -> Vec<T> {
        let mut v = vec![0u128, T::MAXR];
        for (i, p) in self.pts.iter().enumerate() {
            let r = p.rank();
            v.push(r);
            if r > 0 {
                v.push(r - 1);
            }
            if r < T::MAXR {
                v.push(r + 1);
            }
            if i > 0 {
                let q = self.pts[i - 1].rank();
                v.push(q + (r - q) / 2);
            }
        }
        v.sort();
        v.dedup();
        v.into_iter().map(T::of).collect()
    }
}

pub fn bound<T: Elem>(rng: &mut Rng, t: T) -> Bound<T> {
    if rng.chance(1, 2) {
        Bound::Included(t)
    } else {
        Bound::Excluded(t)
    }
}
pub fn lower<T: Elem>(rng: &mut Rng, t: T) -> LowerBound<T> {
    match rng.below(4) {
        0 => LowerBound::included(t),
        1 => LowerBound::excluded(t),
        _ => bound(rng, t).into(),
    }
}
pub fn upper<T: Elem>(rng: &mut Rng, t: T) -> UpperBound<T> {
    match rng.below(4) {
        0 => UpperBound::included(t),
        1 => UpperBound::excluded(t),
        _ => bound(rng, t).into(),
    }
}

/// Two endpoints: mostly ordered, sometimes equal, sometimes inverted.
pub fn ends<T: Elem>(rng: &mut Rng, land: &Land<T>) -> (T, T) {
    let (a, b) = (land.pt(rng), land.pt(rng));
    match rng.below(20) {
        0 => (a, a),
        1 | 2 => (a, b),
        3..=6 => {
            // short
            let i = rng.below(land.pts.len() as u64) as usize;
            let j = (i + 1 + rng.below(2) as usize).min(land.pts.len() - 1);
            (land.pts[i], land.pts[j])
        }
        _ => (a.min(b), a.max(b)),
    }
}

pub fn brange<T: Elem>(rng: &mut Rng, land: &Land<T>) -> BoundedRange<T> {
    let (a, b) = ends(rng, land);
    let (start, end) = (lower(rng, a), upper(rng, b));
    if rng.chance(1, 2) {
        BoundedRange::new(start, end)
    } else {
        BoundedRange { start, end }
    }
}

/// A number at or next to a power of two, word sizes favoured.
fn word_size(rng: &mut Rng) -> u128 {
    let k = if rng.chance(1, 2) { *rng.pick(&[7u32, 8, 15, 16, 31, 32, 53, 63, 63, 64, 64, 127]) } else { rng.below(128) as u32 };
    let p = 1u128 << k;
    match rng.below(4) {
        0 => p,
        1 => p.saturating_sub(1 + rng.below(3) as u128),
        2 => p + rng.below(4) as u128,
        _ => p + rng.below128(p),
    }
    .max(1)
}

/// Lands of more points than this are for very large sets.
pub const HUGE: usize = 270;

/// A list of pieces in one of several arrangements.
pub fn pieces<T: Elem>(rng: &mut Rng, land: &Land<T>) -> Vec<BoundedRange<T>> {
    let k = land.pts.len();
    let n = match rng.below(16) {
        _ if k > HUGE && rng.chance(3, 4) => k / 2,
        0 => 0,
        1..=3 => 1,
        4..=9 => 2 + rng.below(3) as usize,
        10..=13 => 1 + rng.below((k as u64 / 2).max(1)) as usize,
        _ => k / 2,
    };
    let mut v: Vec<BoundedRange<T>> = vec![];
    match rng.below(6) {
        // tiles: touching without a gap, as far as they go
        5 => {
            let (mut i, e) = if rng.chance(1, 2) { (0, k - 1) } else { (rng.below(k as u64) as usize, (k - 1).min(n + rng.below(3) as usize)) };
            let mut start = lower(rng, land.pts[i]);
            while i < e {
                let j = if n < 6 && rng.chance(1, 2) { e } else { (i + 1 + rng.below(2) as usize).min(e) };
                let end = upper(rng, land.pts[j]);
                v.push(BoundedRange::new(start, end));
                start = match end.to_bound() {
                    Bound::Included(t) => LowerBound::excluded(t),
                    Bound::Excluded(t) => LowerBound::included(t),
                };
                i = j;
            }
        }
        // overlapping at random
        0 => {
            for _ in 0..n {
                v.push(brange(rng, land));
            }
        }
        // disjoint, gaps between
        1 | 2 => {
            let mut idx: Vec<usize> = (0..k).collect();
            rng.shuffle(&mut idx);
            idx.truncate(2 * n);
            idx.sort();
            for c in idx.chunks(2).filter(|c| c.len() == 2) {
                v.push(BoundedRange::new(lower(rng, land.pts[c[0]]), upper(rng, land.pts[c[1]])));
            }
        }
        // chain: every piece ends where the next may start
        3 => {
            let s = rng.below((k - n.min(k - 1)).max(1) as u64) as usize;
            for i in s..(s + n).min(k - 1) {
                if !rng.chance(1, 6) {
                    v.push(BoundedRange::new(lower(rng, land.pts[i]), upper(rng, land.pts[i + 1])));
                }
            }
        }
        // single points and short pieces
        _ => {
            for _ in 0..n {
                let i = rng.below(k as u64) as usize;
                let j = (i + rng.below(2) as usize).min(k - 1);
                v.push(BoundedRange::new(lower(rng, land.pts[i]), upper(rng, land.pts[j])));
            }
        }
    }
    v
}

pub fn br_model<T: Elem>(r: &BoundedRange<T>) -> MSet<T> {
    MSet::piece(lo_cut(r.start), hi_cut(r.end))
}
pub fn pieces_model<T: Elem>(v: &[BoundedRange<T>]) -> MSet<T> {
    MSet::union_all(v.iter().map(|r| (lo_cut(r.start), hi_cut(r.end))).collect())
}

/// A bounded range as one of the types that can express it.
pub fn dress<T: Elem>(rng: &mut Rng, r: BoundedRange<T>) -> Dyn<T> {
    match (r.start.to_bound(), r.end.to_bound()) {
        (Bound::Included(a), Bound::Excluded(b)) if rng.chance(1, 2) => Dyn::R(a..b),
        (Bound::Included(a), Bound::Included(b)) if rng.chance(1, 2) => Dyn::RI(a..=b),
        _ => Dyn::BR(r),
    }
}
pub fn dress_l<T: Elem>(rng: &mut Rng, r: LowerBoundedRange<T>) -> Dyn<T> {
    match r.start.to_bound() {
        Bound::Included(a) if rng.chance(1, 2) => Dyn::RF(a..),
        _ => Dyn::LBR(r),
    }
}
pub fn dress_u<T: Elem>(rng: &mut Rng, r: UpperBoundedRange<T>) -> Dyn<T> {
    match r.end.to_bound() {
        Bound::Included(a) if rng.chance(1, 2) => Dyn::RTI(..=a),
        Bound::Excluded(a) if rng.chance(1, 2) => Dyn::RT(..a),
        _ => Dyn::UBR(r),
    }
}

/// Union of a list of operands in random order and grouping.
pub fn unite<T: Elem>(rng: &mut Rng, mut v: Vec<Dyn<T>>) -> Dyn<T> {
    rng.shuffle(&mut v);
    let how = if v.len() > HUGE / 2 { 1 + rng.below(2) } else { rng.below(4) };
    match how {
        0 => v.into_iter().rev().reduce(|a, b| b.union(a)).unwrap(),
        1 => {
            while v.len() > 1 {
                let mut w = vec![];
                let mut it = v.into_iter();
                while let Some(a) = it.next() {
                    w.push(match it.next() {
                        Some(b) => a.union(b),
                        None => a,
                    });
                }
                v = w;
            }
            v.pop().unwrap()
        }
        _ => v.into_iter().reduce(|a, b| a.union(b)).unwrap(),
    }
}

/// A value of the given kind (index into KINDS) with the contents its construction intends.
pub fn operand<T: Elem>(rng: &mut Rng, land: &Land<T>, kind: usize) -> (Dyn<T>, MSet<T>) {
    let p = land.pt(rng);
    let d: Dyn<T> = match kind {
        0 => {
            let (a, b) = ends(rng, land);
            Dyn::R(a..b)
        }
        1 => Dyn::RF(p..),
        2 => Dyn::RU(..),
        3 => {
            let (a, b) = ends(rng, land);
            Dyn::RI(a..=b)
        }
        4 => Dyn::RT(..p),
        5 => Dyn::RTI(..=p),
        6 => Dyn::BR(brange(rng, land)),
        7 => Dyn::LBR(LowerBoundedRange::new(lower(rng, p))),
        8 => Dyn::UBR(UpperBoundedRange::new(upper(rng, p))),
        9 => Dyn::UR(UnboundedRange::new()),
        10 => Dyn::ER(EmptyRange::new()),
        11..=14 => return set_operand(rng, land, kind),
        _ => unreachable!(),
    };
    let m = d.range_model().unwrap();
    (d, m)
}

fn set_operand<T: Elem>(rng: &mut Rng, land: &Land<T>, kind: usize) -> (Dyn<T>, MSet<T>) {
    let ps = pieces(rng, land);
    let bounded = pieces_model(&ps);
    let (l, u) = match kind {
        11 => (None, None),
        12 => (Some(LowerBoundedRange::new({ let p = hi_pt(rng, land); lower(rng, p) })), None),
        13 => (None, Some(UpperBoundedRange::new({ let p = lo_pt(rng, land); upper(rng, p) }))),
        _ => (
            Some(LowerBoundedRange::new({ let p = hi_pt(rng, land); lower(rng, p) })),
            Some(UpperBoundedRange::new({ let p = lo_pt(rng, land); upper(rng, p) })),
        ),
    };
    let mut model = bounded;
    if let Some(l) = l {
        model = model.union(&MSet::piece(lo_cut(l.start), Cut::Pos));
    }
    if let Some(u) = u {
        model = model.union(&MSet::piece(Cut::Neg, hi_cut(u.end)));
    }
    if kind == 14 && rng.chance(1, 24) {
        let full = if rng.chance(1, 2) { UnboundedSet::Full } else { UnboundedRange::new().into() };
        return (Dyn::US(full), MSet::full());
    }
    let d = match rng.below(8) {
        // as the complement of the complementary pieces
        0 if ps.len() <= 40 => {
            let co = model.complement();
            let mut v: Vec<Dyn<T>> = vec![];
            for &(a, b) in &co.0 {
                let d = from_cuts(rng, a, b);
                let unbounded = matches!(a, Cut::Neg) || matches!(b, Cut::Pos);
                v.push(if unbounded { d.to_set() } else { d });
            }
            match kind {
                14 => v.push(Dyn::BS(BoundedSet::empty())),
                11 if co.0.len() == 1 => v = vec![Dyn::US(UnboundedSet::Full)],
                _ => {}
            }
            unite(rng, v).complement()
        }
        // as its intersection with something that contains it
        1 => {
            let d = set_direct(rng, ps, l, u);
            let extra = brange(rng, land);
            let big = d.clone().union(dress(rng, extra));
            if rng.chance(1, 2) {
                d.intersection(big)
            } else {
                big.intersection(d)
            }
        }
        _ => set_direct(rng, ps, l, u),
    };
    assert!(d.kind() == kind, "route led to another type");
    (d, model)
}

struct End<T>(Cut<T>);
impl<T: Elem> End<T> {
    fn upper(&self) -> UpperBound<T> {
        match self.0 {
            Cut::At(t, true) => UpperBound::included(t),
            Cut::At(t, false) => UpperBound::excluded(t),
            _ => UpperBound::excluded(T::of(0)),
        }
    }
    fn lower(&self) -> LowerBound<T> {
        match self.0 {
            Cut::At(t, true) => LowerBound::excluded(t),
            Cut::At(t, false) => LowerBound::included(t),
            _ => LowerBound::excluded(T::of(T::MAXR)),
        }
    }
}

pub fn pieces_of<T: Elem>(m: &MSet<T>) -> Vec<BoundedRange<T>> {
    m.0.iter()
        .filter_map(|&(a, b)| match (a, b) {
            (Cut::At(..), Cut::At(..)) => Some(BoundedRange::new(End(a).lower(), End(b).upper())),
            _ => None,
        })
        .collect()
}

pub fn from_cuts<T: Elem>(rng: &mut Rng, a: Cut<T>, b: Cut<T>) -> Dyn<T> {
    match (a, b) {
        (Cut::Neg, Cut::Pos) => if rng.chance(1, 2) { Dyn::RU(..) } else { Dyn::UR(UnboundedRange::new()) },
        (Cut::Neg, _) => { let r = UpperBoundedRange::new(End(b).upper()); dress_u(rng, r) }
        (_, Cut::Pos) => { let r = LowerBoundedRange::new(End(a).lower()); dress_l(rng, r) }
        _ => { let r = BoundedRange::new(End(a).lower(), End(b).upper()); dress(rng, r) }
    }
}

/// Point favouring the upper (lower) end, so that unbounded parts leave room for pieces.
fn hi_pt<T: Elem>(rng: &mut Rng, land: &Land<T>) -> T {
    let k = land.pts.len() as u64;
    let i = if rng.chance(3, 4) { k - 1 - rng.below(k.min(4)) } else { rng.below(k) };
    land.pts[i as usize]
}
fn lo_pt<T: Elem>(rng: &mut Rng, land: &Land<T>) -> T {
    let k = land.pts.len() as u64;
    let i = if rng.chance(3, 4) { rng.below(k.min(4)) } else { rng.below(k) };
    land.pts[i as usize]
}

fn set_direct<T: Elem>(
    rng: &mut Rng,
    ps: Vec<BoundedRange<T>>,
    l: Option<LowerBoundedRange<T>>,
    u: Option<UpperBoundedRange<T>>,
) -> Dyn<T> {
    let mut v: Vec<Dyn<T>> = ps.into_iter().map(|p| dress(rng, p)).collect();
    match (l, u) {
        (None, None) => v.push(Dyn::BS(BoundedSet::empty())),
        (Some(l), None) => {
            let d = dress_l(rng, l);
            v.push(d.to_set())
        }
        (None, Some(u)) => {
            let d = dress_u(rng, u);
            v.push(d.to_set())
        }
        (Some(l), Some(u)) => {
            if rng.chance(1, 2) {
                v.push(Dyn::US(UnboundedSet::new(u, l)))
            } else {
                v.push(dress_l(rng, l));
                v.push(dress_u(rng, u));
            }
        }
    }
    unite(rng, v)
}

/// The first array of one element found, outermost first.
#[cfg(feature = "ser")]
fn single<'a>(v: &'a mut Value, want: Option<&Value>) -> Option<&'a mut Vec<Value>> {
    let hit = matches!(v, Value::Array(a) if a.len() == 1 && want.map_or(true, |w| a[0] == *w));
    match v {
        Value::Array(a) => {
            if hit {
                return Some(a);
            }
            a.iter_mut().find_map(|x| single(x, want))
        }
        Value::Object(o) => o.values_mut().find_map(|x| single(x, want)),
        _ => None,
    }
}
/// A set of the given pieces (ascending, non-empty, apart), made by splicing them into the
/// serialised form of a small set, hence without the crate's set operations. Whatever that form
/// is, it is learnt from the crate, and tried on two pieces first; `None` if that fails.
#[cfg(feature = "ser")]
pub fn assemble<T: Elem>(ps: &[BoundedRange<T>], l: Option<LowerBoundedRange<T>>, u: Option<UpperBoundedRange<T>>) -> Option<Dyn<T>> {
    let join = |ps: &[BoundedRange<T>]| -> Dyn<T> {
        let mut d = Dyn::BS(BoundedSet::empty());
        for p in ps {
            d = d.union(Dyn::BR(*p));
        }
        if let Some(u) = u {
            d = d.union(Dyn::UBR(u));
        }
        if let Some(l) = l {
            d = d.union(Dyn::LBR(l));
        }
        d
    };
    if ps.len() < 2 {
        return None;
    }
    let item = |p: &BoundedRange<T>| -> Option<Value> {
        let mut v = serde_json::to_value(BoundedSet::from(*p)).ok()?;
        single(&mut v, None)?.pop()
    };
    let first = item(&ps[0])?;
    // an empty piece, which no set of the crate's own making has
    let alike = serde_json::to_value(ps[0]).is_ok_and(|v| v == first);
    let item = |p: &BoundedRange<T>| item(p).or_else(|| serde_json::to_value(p).ok().filter(|_| alike));
    let build = |ps: &[BoundedRange<T>]| -> Option<(Value, Dyn<T>)> {
        let small = join(&ps[..1]);
        let mut v = small.json()?;
        *single(&mut v, Some(&first))? = ps.iter().map(|p| item(p)).collect::<Option<Vec<Value>>>()?;
        let d = match small.kind() {
            11 => Dyn::BS(serde_json::from_value(v.clone()).ok()?),
            12 => Dyn::LBS(serde_json::from_value(v.clone()).ok()?),
            13 => Dyn::UBS(serde_json::from_value(v.clone()).ok()?),
            14 => Dyn::US(serde_json::from_value(v.clone()).ok()?),
            _ => return None,
        };
        Some((v, d))
    };
    let (v, d) = build(&ps[..2])?;
    let real = join(&ps[..2]);
    if real != d || real.json()? != v {
        return None;
    }
    Some(build(ps)?.1)
}
#[cfg(not(feature = "ser"))]
pub fn assemble<T: Elem>(_: &[BoundedRange<T>], _: Option<LowerBoundedRange<T>>, _: Option<UpperBoundedRange<T>>) -> Option<Dyn<T>> {
    None
}
