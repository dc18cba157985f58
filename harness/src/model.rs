//! Reference model: a set of points of a densely ordered line, as a sorted list of disjoint,
//! non-touching, non-empty intervals between cuts. Written independently of the crate.

use rangetools::{Bound, LowerBound, UpperBound};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Cut<T> {
    Neg,
    /// At(t, false): just before t; At(t, true): just after t.
    At(T, bool),
    Pos,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct MSet<T>(pub Vec<(Cut<T>, Cut<T>)>);

pub fn lo_cut<T: Copy>(b: LowerBound<T>) -> Cut<T> {
    match b.to_bound() {
        Bound::Included(t) => Cut::At(t, false),
        Bound::Excluded(t) => Cut::At(t, true),
    }
}
pub fn hi_cut<T: Copy>(b: UpperBound<T>) -> Cut<T> {
    match b.to_bound() {
        Bound::Included(t) => Cut::At(t, true),
        Bound::Excluded(t) => Cut::At(t, false),
    }
}

impl<T: Copy + Ord> MSet<T> {
    pub fn empty() -> Self {
        MSet(vec![])
    }
    pub fn full() -> Self {
        MSet(vec![(Cut::Neg, Cut::Pos)])
    }
    pub fn piece(lo: Cut<T>, hi: Cut<T>) -> Self {
        if lo < hi {
            MSet(vec![(lo, hi)])
        } else {
            MSet(vec![])
        }
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn contains(&self, t: T) -> bool {
        // binary search: last piece starting at or before "just before t"
        let i = self.0.partition_point(|p| p.0 <= Cut::At(t, false));
        i > 0 && self.0[i - 1].1 >= Cut::At(t, true)
    }
    pub fn union(&self, o: &Self) -> Self {
        Self::union_all(self.0.iter().chain(o.0.iter()).copied().collect())
    }
    pub fn union_all(mut v: Vec<(Cut<T>, Cut<T>)>) -> Self {
        v.retain(|p| p.0 < p.1);
        v.sort();
        let mut out: Vec<(Cut<T>, Cut<T>)> = vec![];
        for (lo, hi) in v {
            match out.last_mut() {
                Some(last) if lo <= last.1 => last.1 = last.1.max(hi),
                _ => out.push((lo, hi)),
            }
        }
        MSet(out)
    }
    pub fn complement(&self) -> Self {
        let mut out = vec![];
        let mut at = Cut::Neg;
        for &(lo, hi) in &self.0 {
            if at < lo {
                out.push((at, lo));
            }
            at = hi;
        }
        if at < Cut::Pos {
            out.push((at, Cut::Pos));
        }
        MSet(out)
    }
    pub fn intersection(&self, o: &Self) -> Self {
        let (mut i, mut j, mut out) = (0, 0, vec![]);
        while i < self.0.len() && j < o.0.len() {
            let (a, b) = (self.0[i], o.0[j]);
            let (lo, hi) = (a.0.max(b.0), a.1.min(b.1));
            if lo < hi {
                out.push((lo, hi));
            }
            if a.1 < b.1 {
                i += 1;
            } else {
                j += 1;
            }
        }
        // pieces of an intersection can touch only if they touched in an operand; they cannot
        MSet(out)
    }
}
