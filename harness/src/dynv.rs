//! One enum over all fifteen operand types, and all operations on all pairs of them.

use crate::elem::Elem;
use crate::model::*;
use rangetools::{
    BoundedRange, BoundedSet, EmptyRange, LowerBoundedRange, LowerBoundedSet, Rangetools,
    UnboundedRange, UnboundedSet, UpperBoundedRange, UpperBoundedSet,
};
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Dyn<T> {
    R(Range<T>),
    RF(RangeFrom<T>),
    RU(RangeFull),
    RI(RangeInclusive<T>),
    RT(RangeTo<T>),
    RTI(RangeToInclusive<T>),
    BR(BoundedRange<T>),
    LBR(LowerBoundedRange<T>),
    UBR(UpperBoundedRange<T>),
    UR(UnboundedRange),
    ER(EmptyRange<T>),
    BS(BoundedSet<T>),
    LBS(LowerBoundedSet<T>),
    UBS(UpperBoundedSet<T>),
    US(UnboundedSet<T>),
}

pub const KINDS: [&str; 15] = [
    "Range", "RangeFrom", "RangeFull", "RangeInclusive", "RangeTo", "RangeToInclusive",
    "BoundedRange", "LowerBoundedRange", "UpperBoundedRange", "UnboundedRange", "EmptyRange",
    "BoundedSet", "LowerBoundedSet", "UpperBoundedSet", "UnboundedSet",
];

macro_rules! froms {
    ($($v:ident $t:ty),*) => {$(
        impl<T> From<$t> for Dyn<T> { fn from(x: $t) -> Self { Dyn::$v(x) } }
    )*};
}
froms!(R Range<T>, RF RangeFrom<T>, RU RangeFull, RI RangeInclusive<T>, RT RangeTo<T>,
    RTI RangeToInclusive<T>, BR BoundedRange<T>, LBR LowerBoundedRange<T>,
    UBR UpperBoundedRange<T>, UR UnboundedRange, ER EmptyRange<T>, BS BoundedSet<T>,
    LBS LowerBoundedSet<T>, UBS UpperBoundedSet<T>, US UnboundedSet<T>);

#[macro_export]
macro_rules! with_all {
    ($v:expr, $x:ident => $body:expr) => {
        match $v {
            Dyn::R($x) => $body,
            Dyn::RF($x) => $body,
            Dyn::RU($x) => $body,
            Dyn::RI($x) => $body,
            Dyn::RT($x) => $body,
            Dyn::RTI($x) => $body,
            Dyn::BR($x) => $body,
            Dyn::LBR($x) => $body,
            Dyn::UBR($x) => $body,
            Dyn::UR($x) => $body,
            Dyn::ER($x) => $body,
            Dyn::BS($x) => $body,
            Dyn::LBS($x) => $body,
            Dyn::UBS($x) => $body,
            Dyn::US($x) => $body,
        }
    };
}

/// A call as users write it: by path in debug builds, as a method in the others.
macro_rules! call {
    ($m:ident $x:ident $($y:ident)?) => {{
        #[cfg(debug_assertions)]
        let r = Rangetools::$m($x $(, $y)?);
        #[cfg(not(debug_assertions))]
        let r = $x.$m($($y)?);
        r
    }};
}

impl<T: Elem> Dyn<T> {
    pub fn kind(&self) -> usize {
        match self {
            Dyn::R(_) => 0,
            Dyn::RF(_) => 1,
            Dyn::RU(_) => 2,
            Dyn::RI(_) => 3,
            Dyn::RT(_) => 4,
            Dyn::RTI(_) => 5,
            Dyn::BR(_) => 6,
            Dyn::LBR(_) => 7,
            Dyn::UBR(_) => 8,
            Dyn::UR(_) => 9,
            Dyn::ER(_) => 10,
            Dyn::BS(_) => 11,
            Dyn::LBS(_) => 12,
            Dyn::UBS(_) => 13,
            Dyn::US(_) => 14,
        }
    }
    pub fn has(&self, t: T) -> bool {
        match self {
            Dyn::R(r) => r.contains(&t),
            Dyn::RF(r) => r.contains(&t),
            Dyn::RU(_) => true,
            Dyn::RI(r) => r.contains(&t),
            Dyn::RT(r) => r.contains(&t),
            Dyn::RTI(r) => r.contains(&t),
            Dyn::BR(r) => r.contains(t),
            Dyn::LBR(r) => r.contains(t),
            Dyn::UBR(r) => r.contains(t),
            Dyn::UR(r) => r.contains(t),
            Dyn::ER(r) => r.contains(t),
            Dyn::BS(r) => r.contains(t),
            Dyn::LBS(r) => r.contains(t),
            Dyn::UBS(r) => r.contains(t),
            Dyn::US(r) => match r {
                // both ways in: through the enum, and through its public payload
                UnboundedSet::Piecewise(p) => {
                    let (a, b) = (r.contains(t), p.contains(t));
                    assert!(a == b, "UnboundedSet and its payload disagree about {t:?}");
                    a
                }
                UnboundedSet::Full => r.contains(t),
            },
        }
    }
    pub fn is_empty(&self) -> bool {
        #[cfg(not(debug_assertions))]
        match self {
            Dyn::BR(x) => return x.is_empty(),
            Dyn::LBR(x) => return x.is_empty(),
            Dyn::UBR(x) => return x.is_empty(),
            Dyn::UR(x) => return x.is_empty(),
            Dyn::ER(x) => return x.is_empty(),
            Dyn::BS(x) => return x.is_empty(),
            Dyn::LBS(x) => return x.is_empty(),
            Dyn::UBS(x) => return x.is_empty(),
            Dyn::US(x) => return x.is_empty(),
            _ => {}
        }
        with_all!(self, x => Rangetools::is_empty(x))
    }
    pub fn to_inner(self) -> Dyn<T> {
        with_all!(self, x => Dyn::from(call!(to_inner x)))
    }
    pub fn to_set(self) -> Dyn<T> {
        with_all!(self, x => Dyn::from(call!(to_set x)))
    }
    #[inline(never)]
    pub fn union(self, o: Dyn<T>) -> Dyn<T> {
        with_all!(self, x => with_all!(o, y => Dyn::from(call!(union x y))))
    }
    #[inline(never)]
    pub fn intersection(self, o: Dyn<T>) -> Dyn<T> {
        with_all!(self, x => with_all!(o, y => Dyn::from(call!(intersection x y))))
    }
    #[inline(never)]
    pub fn disjoint(self, o: Dyn<T>) -> bool {
        with_all!(self, x => with_all!(o, y => call!(disjoint x y)))
    }
    #[inline(never)]
    pub fn intersects(self, o: Dyn<T>) -> bool {
        with_all!(self, x => with_all!(o, y => call!(intersects x y)))
    }
    pub fn complement(self) -> Dyn<T> {
        match self {
            Dyn::R(r) => call!(complement r).into(),
            Dyn::RF(r) => call!(complement r).into(),
            Dyn::RU(r) => Rangetools::complement::<EmptyRange<T>>(r).into(),
            Dyn::RI(r) => call!(complement r).into(),
            Dyn::RT(r) => call!(complement r).into(),
            Dyn::RTI(r) => call!(complement r).into(),
            Dyn::BR(r) => call!(complement r).into(),
            Dyn::LBR(r) => call!(complement r).into(),
            Dyn::UBR(r) => call!(complement r).into(),
            Dyn::UR(r) => Rangetools::complement::<EmptyRange<T>>(r).into(),
            Dyn::ER(r) => call!(complement r).into(),
            Dyn::BS(r) => call!(complement r).into(),
            Dyn::LBS(r) => call!(complement r).into(),
            Dyn::UBS(r) => call!(complement r).into(),
            Dyn::US(r) => call!(complement r).into(),
        }
    }
    /// `clone_from` of this over another value of the same type.
    pub fn clone_over(&self, other: &Dyn<T>) -> Option<Dyn<T>> {
        fn over<X: Clone>(x: &X, y: &X) -> X {
            let mut y = y.clone();
            y.clone_from(x);
            y
        }
        Some(match (self, other) {
            (Dyn::BR(x), Dyn::BR(y)) => Dyn::BR(over(x, y)),
            (Dyn::LBR(x), Dyn::LBR(y)) => Dyn::LBR(over(x, y)),
            (Dyn::UBR(x), Dyn::UBR(y)) => Dyn::UBR(over(x, y)),
            (Dyn::BS(x), Dyn::BS(y)) => Dyn::BS(over(x, y)),
            (Dyn::LBS(x), Dyn::LBS(y)) => Dyn::LBS(over(x, y)),
            (Dyn::UBS(x), Dyn::UBS(y)) => Dyn::UBS(over(x, y)),
            (Dyn::US(x), Dyn::US(y)) => Dyn::US(over(x, y)),
            _ => return None,
        })
    }
    #[cfg(not(feature = "ser"))]
    pub fn json(&self) -> Option<serde_json::Value> {
        None
    }
    #[cfg(feature = "ser")]
    pub fn json(&self) -> Option<serde_json::Value> {
        match self {
            Dyn::BS(s) => serde_json::to_value(s).ok(),
            Dyn::LBS(s) => serde_json::to_value(s).ok(),
            Dyn::UBS(s) => serde_json::to_value(s).ok(),
            Dyn::US(s) => serde_json::to_value(s).ok(),
            _ => None,
        }
    }
    /// What the bounds of a (non-set) range say, read from its public fields.
    pub fn range_model(&self) -> Option<MSet<T>> {
        Some(match self {
            Dyn::R(r) => MSet::piece(Cut::At(r.start, false), Cut::At(r.end, false)),
            Dyn::RF(r) => MSet::piece(Cut::At(r.start, false), Cut::Pos),
            Dyn::RU(_) => MSet::full(),
            Dyn::RI(r) => MSet::piece(Cut::At(*r.start(), false), Cut::At(*r.end(), true)),
            Dyn::RT(r) => MSet::piece(Cut::Neg, Cut::At(r.end, false)),
            Dyn::RTI(r) => MSet::piece(Cut::Neg, Cut::At(r.end, true)),
            Dyn::BR(r) => MSet::piece(lo_cut(r.start), hi_cut(r.end)),
            Dyn::LBR(r) => MSet::piece(lo_cut(r.start), Cut::Pos),
            Dyn::UBR(r) => MSet::piece(Cut::Neg, hi_cut(r.end)),
            Dyn::UR(_) => MSet::full(),
            Dyn::ER(_) => MSet::empty(),
            _ => return None,
        })
    }
}
