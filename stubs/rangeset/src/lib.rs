//! Stand-in for the `rangeset` crate (sets of disjoint, sorted, non-empty,
//! non-adjacent ranges).
pub mod set;
pub mod iter;
pub mod ops;
pub mod prelude {
    pub use crate::iter::{FromRangeIterator, IntoRangeIterator, RangeIterator};
    pub use crate::ops::{Cover, Index, Set};
    pub use crate::set::{RangeSet, ToRangeSet};
}

/// Integer-like values.
pub trait Step: Copy + Ord {
    fn succ(self, n: usize) -> Option<Self>;
    fn dist(self, to: Self) -> usize;
}
macro_rules! step { ($($t:ty)*) => { $(impl Step for $t {
    fn succ(self, n: usize) -> Option<Self> { <$t>::try_from(n).ok().and_then(|n| self.checked_add(n)) }
    fn dist(self, to: Self) -> usize { (to - self) as usize }
})* } }
step!(usize u8 u16 u32 u64 i32 i64 isize);
