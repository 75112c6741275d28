use crate::{iter::IntoRangeIterator, set::{difference, intersection, RangeSet}, Step};
use std::ops::Range;

type It<T> = std::vec::IntoIter<Range<T>>;

/// Set operations; results are iterators over ranges.
pub trait Set<T: Step> {
    fn set_of(&self) -> RangeSet<T>;
    fn union(&self, o: impl IntoRangeIterator<T>) -> It<T> {
        let mut s = self.set_of();
        s.union_mut(o);
        s.into_iter()
    }
    fn difference(&self, o: impl IntoRangeIterator<T>) -> It<T> {
        let o: RangeSet<T> = o.into_range_iter().collect();
        difference(&self.set_of().ranges, &o.ranges).into_iter()
    }
    fn intersection(&self, o: impl IntoRangeIterator<T>) -> It<T> {
        let o: RangeSet<T> = o.into_range_iter().collect();
        intersection(&self.set_of().ranges, &o.ranges).into_iter()
    }
    fn symmetric_difference(&self, o: impl IntoRangeIterator<T>) -> It<T> {
        let o: RangeSet<T> = o.into_range_iter().collect();
        let a = self.set_of();
        let mut s: RangeSet<T> = difference(&a.ranges, &o.ranges).into();
        s.union_mut(difference(&o.ranges, &a.ranges));
        s.into_iter()
    }
    fn is_subset(&self, o: impl IntoRangeIterator<T>) -> bool { self.difference(o).next().is_none() }
    fn is_superset(&self, o: impl IntoRangeIterator<T>) -> bool {
        let o: RangeSet<T> = o.into_range_iter().collect();
        difference(&o.ranges, &self.set_of().ranges).is_empty()
    }
    fn is_disjoint(&self, o: impl IntoRangeIterator<T>) -> bool { self.intersection(o).next().is_none() }
}
impl<T: Step> Set<T> for RangeSet<T> { fn set_of(&self) -> RangeSet<T> { self.clone() } }
impl<T: Step> Set<T> for Range<T> { fn set_of(&self) -> RangeSet<T> { self.clone().into() } }

/// Set cover.
pub trait Cover<T: Step> {
    /// Greedily covers `self` with candidate sets which are subsets of it.
    /// Returns the chosen items and what stays uncovered.
    fn cover_by<I, F>(&self, items: impl IntoIterator<Item = I>, f: F) -> (Vec<I>, RangeSet<T>)
    where
        F: Fn(&I) -> &RangeSet<T>;
}
impl<T: Step> Cover<T> for RangeSet<T> {
    fn cover_by<I, F>(&self, items: impl IntoIterator<Item = I>, f: F) -> (Vec<I>, RangeSet<T>)
    where
        F: Fn(&I) -> &RangeSet<T>,
    {
        let mut cand: Vec<I> = items.into_iter().filter(|i| difference(&f(i).ranges, &self.ranges).is_empty()).collect();
        let mut left = self.clone();
        let mut out = Vec::new();
        while !left.is_empty() {
            let best = cand
                .iter()
                .enumerate()
                .map(|(k, i)| (RangeSet { ranges: intersection(&f(i).ranges, &left.ranges) }.len(), std::cmp::Reverse(k)))
                .max();
            match best {
                Some((n, std::cmp::Reverse(k))) if n > 0 => {
                    let i = cand.remove(k);
                    left.ranges = difference(&left.ranges, &f(&i).ranges);
                    out.push(i);
                }
                _ => break,
            }
        }
        (out, left)
    }
}

/// Indexing with a set.
pub trait Index<T> {
    type Output: ?Sized;
    fn index<'a>(&'a self, set: &'a RangeSet<T>) -> Box<dyn Iterator<Item = &'a Self::Output> + 'a>;
}
impl<V> Index<usize> for [V] {
    type Output = [V];
    fn index<'a>(&'a self, set: &'a RangeSet<usize>) -> Box<dyn Iterator<Item = &'a [V]> + 'a> {
        Box::new(set.iter().map(move |r| &self[r]))
    }
}
impl<V> Index<usize> for Vec<V> {
    type Output = [V];
    fn index<'a>(&'a self, set: &'a RangeSet<usize>) -> Box<dyn Iterator<Item = &'a [V]> + 'a> {
        Box::new(set.iter().map(move |r| &self[r]))
    }
}
