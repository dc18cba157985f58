//! Element types under test. Every type is identified with an initial segment of the naturals
//! ("rank"), in its own order, so that oracles can compute in wide arithmetic.

use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;
use std::hash::Hash;
use std::panic::{RefUnwindSafe, UnwindSafe};

pub trait Elem:
    Copy
    + Ord
    + Debug
    + Hash
    + Serialize
    + DeserializeOwned
    + UnwindSafe
    + RefUnwindSafe
    + Send
    + Sync
    + 'static
{
    const NAME: &'static str;
    /// Rank of the greatest value.
    const MAXR: u128;
    /// Ranks worth aiming at besides the two ends.
    fn hot() -> Vec<u128> {
        vec![Self::MAXR / 2, Self::MAXR / 2 + 1]
    }
    fn of(rank: u128) -> Self;
    fn rank(self) -> u128;
    /// The first values an iterable set yields; nothing for types without successors.
    fn walk(_: &crate::dynv::Dyn<Self>, _: usize) -> Option<Vec<Self>> {
        None
    }
}

fn walk_steps<T: SElem>(d: &crate::dynv::Dyn<T>, n: usize) -> Option<Vec<T>> {
    use crate::dynv::Dyn;
    let mut v = vec![];
    let mut put = |t: T| v.push(t);
    match d {
        Dyn::BR(r) => r.into_iter().take(n).for_each(&mut put),
        Dyn::LBR(r) => r.into_iter().take(n).for_each(&mut put),
        Dyn::ER(r) => r.into_iter().take(n).for_each(&mut put),
        Dyn::BS(s) => s.clone().into_iter().take(n).for_each(&mut put),
        Dyn::LBS(s) => s.clone().into_iter().take(n).for_each(&mut put),
        _ => return None,
    }
    Some(v)
}
macro_rules! walks {
    () => {
        fn walk(d: &crate::dynv::Dyn<Self>, n: usize) -> Option<Vec<Self>> {
            walk_steps(d, n)
        }
    };
}

pub trait SElem: Elem + rangetools::Step + Default {}

macro_rules! unsigned {
    ($($t:ident)*) => {$(
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            const MAXR: u128 = $t::MAX as u128;
            fn of(r: u128) -> Self { assert!(r <= Self::MAXR); r as $t }
            fn rank(self) -> u128 { self as u128 }
            walks!();
        }
        impl SElem for $t {}
    )*};
}
macro_rules! signed {
    ($($t:ident $u:ident)*) => {$(
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            const MAXR: u128 = $u::MAX as u128;
            fn of(r: u128) -> Self { assert!(r <= Self::MAXR); ((r as $u) ^ (1 << ($u::BITS - 1))) as $t }
            fn rank(self) -> u128 { ((self as $u) ^ (1 << ($u::BITS - 1))) as u128 }
            walks!();
        }
        impl SElem for $t {}
    )*};
}
unsigned!(u8 u16 u32 u64 usize u128);
signed!(i8 u8 i16 u16 i32 u32 i64 u64 isize usize i128 u128);

impl Elem for char {
    const NAME: &'static str = "char";
    const MAXR: u128 = 0x10FFFF - 0x800;
    fn hot() -> Vec<u128> {
        // the surrogate gap
        vec![0xD7FF, 0xD800, 0xD7F0, 0xD810]
    }
    fn of(r: u128) -> Self {
        let c = if r < 0xD800 { r as u32 } else { r as u32 + 0x800 };
        char::from_u32(c).expect("rank of a char")
    }
    fn rank(self) -> u128 {
        let c = self as u32;
        assert!(
            !(0xD800..0xE000).contains(&c) && c <= 0x10FFFF,
            "invalid char {c:#x} observed"
        );
        if c < 0xD800 {
            c as u128
        } else {
            (c - 0x800) as u128
        }
    }
    walks!();
}
impl SElem for char {}

/// A type without successors whose order is not the order of its representation.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct Lex {
    pub lo: u8,
    pub hi: i8,
}
impl Ord for Lex {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        // descending in hi, then ascending in lo
        o.hi.cmp(&self.hi).then(self.lo.cmp(&o.lo))
    }
}
impl PartialOrd for Lex {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Elem for Lex {
    const NAME: &'static str = "Lex";
    const MAXR: u128 = 0xFFFF;
    fn of(r: u128) -> Self {
        assert!(r <= Self::MAXR);
        Lex {
            lo: r as u8,
            hi: (127 - (r >> 8) as i32) as i8,
        }
    }
    fn rank(self) -> u128 {
        (((127 - self.hi as i32) as u128) << 8) | self.lo as u128
    }
}

/// A user-defined steppable type: multiples of 3 up to 3000, only the required Step methods.
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Serialize, Deserialize)]
pub struct Tri(pub i16);
impl Elem for Tri {
    const NAME: &'static str = "Tri";
    const MAXR: u128 = 1000;
    fn of(r: u128) -> Self {
        assert!(r <= Self::MAXR);
        Tri(r as i16 * 3 - 1500)
    }
    fn rank(self) -> u128 {
        assert!((self.0 + 1500) % 3 == 0 && (-1500..=1500).contains(&self.0));
        ((self.0 + 1500) / 3) as u128
    }
}
impl rangetools::Step for Tri {
    fn steps_between(a: &Self, b: &Self) -> Option<usize> {
        b.rank().checked_sub(a.rank()).map(|d| d as usize)
    }
    fn forward_checked(a: Self, n: usize) -> Option<Self> {
        let r = a.rank() + n as u128;
        (r <= Self::MAXR).then(|| Self::of(r))
    }
    fn backward_checked(a: Self, n: usize) -> Option<Self> {
        a.rank().checked_sub(n as u128).map(Self::of)
    }
}
impl SElem for Tri {}

/// A steppable type with a single value.
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Serialize, Deserialize)]
pub struct One;
impl Elem for One {
    const NAME: &'static str = "One";
    const MAXR: u128 = 0;
    fn hot() -> Vec<u128> {
        vec![0]
    }
    fn of(_: u128) -> Self {
        One
    }
    fn rank(self) -> u128 {
        0
    }
}
impl rangetools::Step for One {
    fn steps_between(_: &Self, _: &Self) -> Option<usize> {
        Some(0)
    }
    fn forward_checked(_: Self, n: usize) -> Option<Self> {
        (n == 0).then_some(One)
    }
    fn backward_checked(_: Self, n: usize) -> Option<Self> {
        (n == 0).then_some(One)
    }
}
impl SElem for One {}
