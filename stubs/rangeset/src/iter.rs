use crate::{set::RangeSet, Step};
use std::ops::{Range, RangeInclusive};

/// An iterator over ranges.
pub trait RangeIterator<T: Step>: Iterator<Item = Range<T>> {
    fn into_set(self) -> RangeSet<T> where Self: Sized { self.collect() }
}
impl<T: Step, I: Iterator<Item = Range<T>>> RangeIterator<T> for I {}

pub trait IntoRangeIterator<T: Step> {
    type IntoIter: Iterator<Item = Range<T>>;
    fn into_range_iter(self) -> Self::IntoIter;
}
type One<T> = std::iter::Once<Range<T>>;
impl<T: Step> IntoRangeIterator<T> for Range<T> { type IntoIter = One<T>; fn into_range_iter(self) -> One<T> { std::iter::once(self) } }
impl<T: Step> IntoRangeIterator<T> for &Range<T> { type IntoIter = One<T>; fn into_range_iter(self) -> One<T> { std::iter::once(self.clone()) } }
fn inc<T: Step>(r: &RangeInclusive<T>) -> Range<T> { *r.start()..r.end().succ(1).expect("range end overflows") }
impl<T: Step> IntoRangeIterator<T> for RangeInclusive<T> { type IntoIter = One<T>; fn into_range_iter(self) -> One<T> { std::iter::once(inc(&self)) } }
impl<T: Step> IntoRangeIterator<T> for &RangeInclusive<T> { type IntoIter = One<T>; fn into_range_iter(self) -> One<T> { std::iter::once(inc(self)) } }
impl<T: Step> IntoRangeIterator<T> for RangeSet<T> { type IntoIter = std::vec::IntoIter<Range<T>>; fn into_range_iter(self) -> Self::IntoIter { self.ranges.into_iter() } }
impl<'a, T: Step> IntoRangeIterator<T> for &'a RangeSet<T> { type IntoIter = crate::set::Iter<'a, T>; fn into_range_iter(self) -> Self::IntoIter { self.iter() } }
impl<T: Step> IntoRangeIterator<T> for Vec<Range<T>> { type IntoIter = std::vec::IntoIter<Range<T>>; fn into_range_iter(self) -> Self::IntoIter { self.into_iter() } }
impl<T: Step> IntoRangeIterator<T> for &Vec<Range<T>> { type IntoIter = std::vec::IntoIter<Range<T>>; fn into_range_iter(self) -> Self::IntoIter { self.clone().into_iter() } }
impl<T: Step> IntoRangeIterator<T> for &[Range<T>] { type IntoIter = std::vec::IntoIter<Range<T>>; fn into_range_iter(self) -> Self::IntoIter { self.to_vec().into_iter() } }
impl<T: Step, const N: usize> IntoRangeIterator<T> for [Range<T>; N] { type IntoIter = std::array::IntoIter<Range<T>, N>; fn into_range_iter(self) -> Self::IntoIter { self.into_iter() } }
impl<T: Step, const N: usize> IntoRangeIterator<T> for &[Range<T>; N] { type IntoIter = std::array::IntoIter<Range<T>, N>; fn into_range_iter(self) -> Self::IntoIter { self.clone().into_iter() } }

pub trait FromRangeIterator<T: Step>: Sized {
    fn from_range_iter(i: impl IntoRangeIterator<T>) -> Self;
}
impl<T: Step> FromRangeIterator<T> for RangeSet<T> {
    fn from_range_iter(i: impl IntoRangeIterator<T>) -> Self { i.into_range_iter().collect() }
}
