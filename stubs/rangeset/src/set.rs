use crate::{iter::IntoRangeIterator, Step};
use std::ops::Range;

#[derive(Clone, PartialEq, Eq, Hash)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[cfg_attr(
    feature = "serde",
    serde(
        into = "Vec<Range<T>>",
        from = "Vec<Range<T>>",
        bound(serialize = "T: serde::Serialize + Clone", deserialize = "T: serde::Deserialize<'de> + Step")
    )
)]
pub struct RangeSet<T> {
    pub(crate) ranges: Vec<Range<T>>,
}

impl<T: std::fmt::Debug> std::fmt::Debug for RangeSet<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("RangeSet").field("ranges", &self.ranges).finish()
    }
}
impl<T> Default for RangeSet<T> { fn default() -> Self { RangeSet { ranges: Vec::new() } } }
impl<T> From<RangeSet<T>> for Vec<Range<T>> { fn from(s: RangeSet<T>) -> Self { s.ranges } }

fn normalize<T: Step>(mut v: Vec<Range<T>>) -> Vec<Range<T>> {
    v.retain(|r| r.start < r.end);
    v.sort_by(|a, b| a.start.cmp(&b.start));
    let mut o: Vec<Range<T>> = Vec::with_capacity(v.len());
    for r in v {
        match o.last_mut() {
            Some(l) if l.end >= r.start => { if r.end > l.end { l.end = r.end } }
            _ => o.push(r),
        }
    }
    o
}

impl<T: Step> From<Vec<Range<T>>> for RangeSet<T> { fn from(v: Vec<Range<T>>) -> Self { RangeSet { ranges: normalize(v) } } }
impl<T: Step> From<&[Range<T>]> for RangeSet<T> { fn from(v: &[Range<T>]) -> Self { v.to_vec().into() } }
impl<T: Step, const N: usize> From<[Range<T>; N]> for RangeSet<T> { fn from(v: [Range<T>; N]) -> Self { v.to_vec().into() } }
impl<T: Step, const N: usize> From<&[Range<T>; N]> for RangeSet<T> { fn from(v: &[Range<T>; N]) -> Self { v.to_vec().into() } }
impl<T: Step> From<Range<T>> for RangeSet<T> { fn from(v: Range<T>) -> Self { vec![v].into() } }
impl<T: Step> From<&RangeSet<T>> for RangeSet<T> { fn from(v: &RangeSet<T>) -> Self { v.clone() } }
impl<T: Step> FromIterator<Range<T>> for RangeSet<T> { fn from_iter<I: IntoIterator<Item = Range<T>>>(i: I) -> Self { i.into_iter().collect::<Vec<_>>().into() } }
impl<T: Step> PartialEq<Range<T>> for &RangeSet<T> { fn eq(&self, o: &Range<T>) -> bool { **self == RangeSet::from(o.clone()) } }
impl<T: Step> PartialEq<Range<T>> for RangeSet<T> { fn eq(&self, o: &Range<T>) -> bool { *self == RangeSet::from(o.clone()) } }

impl<T> RangeSet<T> {
    pub fn is_empty(&self) -> bool { self.ranges.is_empty() }
    pub fn len_ranges(&self) -> usize { self.ranges.len() }
    pub fn into_inner(self) -> Vec<Range<T>> { self.ranges }
    pub fn as_slice(&self) -> &[Range<T>] { &self.ranges }
    pub fn clear(&mut self) { self.ranges.clear() }
}

impl<T: Step> RangeSet<T> {
    pub fn new(r: &[Range<T>]) -> Self { r.into() }
    pub fn iter(&self) -> Iter<'_, T> { Iter(self.ranges.iter()) }
    pub fn iter_ranges(&self) -> Iter<'_, T> { self.iter() }
    pub fn iter_values(&self) -> Values<'_, T> { Values { it: self.ranges.iter(), cur: None } }
    /// Number of values.
    pub fn len(&self) -> usize { self.ranges.iter().map(|r| r.start.dist(r.end)).sum() }
    pub fn min(&self) -> Option<T> { self.ranges.first().map(|r| r.start) }
    pub fn start(&self) -> Option<T> { self.min() }
    pub fn end(&self) -> Option<T> { self.ranges.last().map(|r| r.end) }
    pub fn contains(&self, v: &T) -> bool { self.ranges.iter().any(|r| r.start <= *v && *v < r.end) }
    fn of(o: impl IntoRangeIterator<T>) -> Self { o.into_range_iter().collect() }
    pub fn union_mut(&mut self, o: impl IntoRangeIterator<T>) {
        let mut v = std::mem::take(&mut self.ranges);
        v.extend(o.into_range_iter());
        self.ranges = normalize(v);
    }
    pub fn difference_mut(&mut self, o: impl IntoRangeIterator<T>) {
        let o = Self::of(o);
        self.ranges = difference(&self.ranges, &o.ranges);
    }
    pub fn intersection_mut(&mut self, o: impl IntoRangeIterator<T>) {
        let o = Self::of(o);
        self.ranges = intersection(&self.ranges, &o.ranges);
    }
}
pub(crate) fn difference<T: Step>(a: &[Range<T>], b: &[Range<T>]) -> Vec<Range<T>> {
    let mut out = Vec::new();
    for r in a {
        let mut cur = r.start;
        for s in b {
            if s.end <= cur { continue; }
            if s.start >= r.end { break; }
            if s.start > cur { out.push(cur..s.start); }
            cur = cur.max(s.end);
        }
        if cur < r.end { out.push(cur..r.end); }
    }
    out
}
pub(crate) fn intersection<T: Step>(a: &[Range<T>], b: &[Range<T>]) -> Vec<Range<T>> {
    let mut out = Vec::new();
    for r in a {
        for s in b {
            let (x, y) = (r.start.max(s.start), r.end.min(s.end));
            if x < y { out.push(x..y); }
        }
    }
    out
}

#[derive(Clone)]
pub struct Iter<'a, T>(std::slice::Iter<'a, Range<T>>);
impl<T: Step> Iterator for Iter<'_, T> {
    type Item = Range<T>;
    fn next(&mut self) -> Option<Range<T>> { self.0.next().cloned() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
impl<T: Step> DoubleEndedIterator for Iter<'_, T> { fn next_back(&mut self) -> Option<Range<T>> { self.0.next_back().cloned() } }
impl<T: Step> ExactSizeIterator for Iter<'_, T> {}
#[derive(Clone)]
pub struct Values<'a, T> { it: std::slice::Iter<'a, Range<T>>, cur: Option<Range<T>> }
impl<T: Step> Iterator for Values<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        loop {
            if let Some(r) = &mut self.cur {
                if r.start < r.end {
                    let v = r.start;
                    r.start = v.succ(1)?;
                    return Some(v);
                }
            }
            self.cur = Some(self.it.next()?.clone());
        }
    }
}
impl<'a, T: Step> IntoIterator for &'a RangeSet<T> { type Item = Range<T>; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
impl<T: Step> IntoIterator for RangeSet<T> { type Item = Range<T>; type IntoIter = std::vec::IntoIter<Range<T>>; fn into_iter(self) -> Self::IntoIter { self.ranges.into_iter() } }

/// Conversion into a set.
pub trait ToRangeSet<T> { fn to_range_set(&self) -> RangeSet<T>; }
impl<T: Step> ToRangeSet<T> for RangeSet<T> { fn to_range_set(&self) -> RangeSet<T> { self.clone() } }
impl<T: Step> ToRangeSet<T> for Range<T> { fn to_range_set(&self) -> RangeSet<T> { self.clone().into() } }
