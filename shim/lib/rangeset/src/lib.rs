//! Stand-in for the `rangeset` crate: sets of integers kept as sorted,
//! disjoint, non-adjacent, non-empty half-open ranges.

pub mod set {
    use std::ops::Range;

    /// A set of integers.
    #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct RangeSet<T> {
        pub(crate) ranges: Vec<Range2<T>>,
    }

    /// A range which is ordered and hashable.
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub(crate) struct Range2<T> {
        pub start: T,
        pub end: T,
    }

    impl<T> Default for RangeSet<T> {
        fn default() -> Self {
            RangeSet { ranges: Vec::new() }
        }
    }

    impl PartialEq<Range<usize>> for RangeSet<usize> {
        fn eq(&self, o: &Range<usize>) -> bool {
            self.ranges.len() == 1 && self.ranges[0].start == o.start && self.ranges[0].end == o.end
        }
    }
    impl PartialEq<Range<usize>> for &RangeSet<usize> {
        fn eq(&self, o: &Range<usize>) -> bool {
            **self == *o
        }
    }

    impl RangeSet<usize> {
        pub(crate) fn normalized(mut v: Vec<Range<usize>>) -> Self {
            v.retain(|r| r.start < r.end);
            v.sort_by_key(|r| (r.start, r.end));
            let mut out: Vec<Range2<usize>> = Vec::with_capacity(v.len());
            for r in v {
                match out.last_mut() {
                    Some(l) if r.start <= l.end => l.end = l.end.max(r.end),
                    _ => out.push(Range2 { start: r.start, end: r.end }),
                }
            }
            RangeSet { ranges: out }
        }

        /// Iterator over the ranges.
        pub fn iter(&self) -> crate::iter::RangeSetIter<'_> {
            crate::iter::RangeSetIter { inner: self.ranges.iter() }
        }

        /// Iterator over the values.
        pub fn iter_values(&self) -> impl Iterator<Item = usize> + '_ {
            self.ranges.iter().flat_map(|r| r.start..r.end)
        }

        /// Number of values.
        pub fn len(&self) -> usize {
            self.ranges.iter().map(|r| r.end - r.start).sum()
        }

        /// Number of ranges.
        pub fn len_ranges(&self) -> usize {
            self.ranges.len()
        }

        /// Whether the set has no values.
        pub fn is_empty(&self) -> bool {
            self.ranges.is_empty()
        }

        /// Lowest value.
        pub fn min(&self) -> Option<usize> {
            self.ranges.first().map(|r| r.start)
        }

        /// Highest value.
        pub fn max(&self) -> Option<usize> {
            self.ranges.last().map(|r| r.end - 1)
        }

        /// Exclusive end of the set.
        pub fn end(&self) -> Option<usize> {
            self.ranges.last().map(|r| r.end)
        }

        /// Whether the value is in the set.
        pub fn contains(&self, v: &usize) -> bool {
            self.ranges.iter().any(|r| r.start <= *v && *v < r.end)
        }

        /// Removes everything.
        pub fn clear(&mut self) {
            self.ranges.clear()
        }

        /// Adds the values of `other`.
        pub fn union_mut(&mut self, other: impl crate::iter::IntoRangeIterator<usize>) {
            let mut v: Vec<Range<usize>> = self.iter().collect();
            v.extend(other.into_range_iter());
            *self = Self::normalized(v);
        }

        /// Removes the values of `other`.
        pub fn difference_mut(&mut self, other: impl crate::iter::IntoRangeIterator<usize>) {
            let o = Self::normalized(other.into_range_iter().collect());
            *self = Self::normalized(crate::ops::diff(&self.ranges, &o.ranges));
        }

        /// Keeps the values which are also in `other`.
        pub fn intersection_mut(&mut self, other: impl crate::iter::IntoRangeIterator<usize>) {
            *self = crate::ops::Set::intersection(&*self, other).collect();
        }

        /// Keeps the values which are in one of both only.
        pub fn symmetric_difference_mut(
            &mut self,
            other: impl crate::iter::IntoRangeIterator<usize>,
        ) {
            let o = Self::normalized(other.into_range_iter().collect());
            let mut v = crate::ops::diff(&self.ranges, &o.ranges);
            v.extend(crate::ops::diff(&o.ranges, &self.ranges));
            *self = Self::normalized(v);
        }

        /// Lowest range.
        pub fn first(&self) -> Option<Range<usize>> {
            self.iter().next()
        }

        /// Highest range.
        pub fn last(&self) -> Option<Range<usize>> {
            self.iter().next_back()
        }

        /// Splits the set at `at`, keeping what is below.
        pub fn split_off(&mut self, at: &usize) -> Self {
            let all = [Range2 { start: 0, end: *at }];
            let high = crate::ops::diff(&self.ranges, &all);
            let high = Self::normalized(high);
            *self = Self::normalized(crate::ops::diff(&self.ranges, &high.ranges));
            high
        }

        /// Moves every range by `n` up.
        pub fn shift_right(&mut self, n: &usize) {
            for r in &mut self.ranges {
                r.start += n;
                r.end += n;
            }
        }

        /// Moves every range by `n` down.
        pub fn shift_left(&mut self, n: &usize) {
            for r in &mut self.ranges {
                r.start -= n;
                r.end -= n;
            }
        }

        /// The ranges as a vector.
        pub fn into_inner(self) -> Vec<Range<usize>> {
            self.iter().collect()
        }
    }

    impl<'a> IntoIterator for &'a RangeSet<usize> {
        type Item = Range<usize>;
        type IntoIter = crate::iter::RangeSetIter<'a>;
        fn into_iter(self) -> Self::IntoIter {
            self.iter()
        }
    }
    impl IntoIterator for RangeSet<usize> {
        type Item = Range<usize>;
        type IntoIter = std::vec::IntoIter<Range<usize>>;
        fn into_iter(self) -> Self::IntoIter {
            self.iter().collect::<Vec<_>>().into_iter()
        }
    }
    impl Extend<Range<usize>> for RangeSet<usize> {
        fn extend<I: IntoIterator<Item = Range<usize>>>(&mut self, it: I) {
            self.union_mut(it.into_iter().collect::<Vec<_>>());
        }
    }
    impl From<RangeSet<usize>> for Vec<Range<usize>> {
        fn from(s: RangeSet<usize>) -> Self {
            s.into_inner()
        }
    }
    impl From<Range<usize>> for RangeSet<usize> {
        fn from(r: Range<usize>) -> Self {
            Self::normalized(vec![r])
        }
    }
    impl From<&Range<usize>> for RangeSet<usize> {
        fn from(r: &Range<usize>) -> Self {
            Self::normalized(vec![r.clone()])
        }
    }
    impl<const N: usize> From<[Range<usize>; N]> for RangeSet<usize> {
        fn from(r: [Range<usize>; N]) -> Self {
            Self::normalized(r.into_iter().collect())
        }
    }
    impl From<Vec<Range<usize>>> for RangeSet<usize> {
        fn from(r: Vec<Range<usize>>) -> Self {
            Self::normalized(r)
        }
    }
    impl From<&[Range<usize>]> for RangeSet<usize> {
        fn from(r: &[Range<usize>]) -> Self {
            Self::normalized(r.to_vec())
        }
    }
    impl FromIterator<Range<usize>> for RangeSet<usize> {
        fn from_iter<I: IntoIterator<Item = Range<usize>>>(it: I) -> Self {
            Self::normalized(it.into_iter().collect())
        }
    }

    #[cfg(feature = "serde")]
    mod ser {
        use super::*;
        use serde::{Deserialize, Deserializer, Serialize, Serializer};

        impl Serialize for RangeSet<usize> {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                let v: Vec<Range<usize>> = self.iter().collect();
                v.serialize(s)
            }
        }

        impl<'de> Deserialize<'de> for RangeSet<usize> {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let v = Vec::<Range<usize>>::deserialize(d)?;
                let bad = v.iter().any(|r| r.start >= r.end)
                    || v.windows(2).any(|w| w[0].end >= w[1].start);
                if bad {
                    return Err(serde::de::Error::custom("ranges are not sorted and disjoint"));
                }
                Ok(RangeSet::from(v))
            }
        }
    }
}

pub mod iter {
    use crate::set::{Range2, RangeSet};
    use std::ops::Range;

    /// Iterator over the ranges of a set.
    #[derive(Debug, Clone)]
    pub struct RangeSetIter<'a> {
        pub(crate) inner: std::slice::Iter<'a, Range2<usize>>,
    }

    impl Iterator for RangeSetIter<'_> {
        type Item = Range<usize>;
        fn next(&mut self) -> Option<Range<usize>> {
            self.inner.next().map(|r| r.start..r.end)
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.inner.size_hint()
        }
    }
    impl DoubleEndedIterator for RangeSetIter<'_> {
        fn next_back(&mut self) -> Option<Range<usize>> {
            self.inner.next_back().map(|r| r.start..r.end)
        }
    }
    impl ExactSizeIterator for RangeSetIter<'_> {}

    /// An owned run of ranges.
    #[derive(Debug, Clone)]
    pub struct OwnedRanges(pub(crate) std::vec::IntoIter<Range<usize>>);

    impl Iterator for OwnedRanges {
        type Item = Range<usize>;
        fn next(&mut self) -> Option<Range<usize>> {
            self.0.next()
        }
    }

    /// An iterator over ranges which can be collected into a set.
    pub trait RangeIterator<T>: Iterator<Item = Range<T>> {
        /// Collects into a set.
        fn into_set(self) -> RangeSet<T>
        where
            Self: Sized,
            RangeSet<T>: FromIterator<Range<T>>,
        {
            self.collect()
        }
    }
    impl<T, I: Iterator<Item = Range<T>>> RangeIterator<T> for I {}

    /// Something which can be iterated as ranges.
    pub trait IntoRangeIterator<T> {
        /// The iterator.
        type IntoIter: Iterator<Item = Range<T>>;
        /// Converts.
        fn into_range_iter(self) -> Self::IntoIter;
    }

    impl IntoRangeIterator<usize> for Range<usize> {
        type IntoIter = OwnedRanges;
        fn into_range_iter(self) -> OwnedRanges {
            OwnedRanges(vec![self].into_iter())
        }
    }
    impl IntoRangeIterator<usize> for &Range<usize> {
        type IntoIter = OwnedRanges;
        fn into_range_iter(self) -> OwnedRanges {
            OwnedRanges(vec![self.clone()].into_iter())
        }
    }
    impl IntoRangeIterator<usize> for RangeSet<usize> {
        type IntoIter = OwnedRanges;
        fn into_range_iter(self) -> OwnedRanges {
            OwnedRanges(self.iter().collect::<Vec<_>>().into_iter())
        }
    }
    impl IntoRangeIterator<usize> for &RangeSet<usize> {
        type IntoIter = OwnedRanges;
        fn into_range_iter(self) -> OwnedRanges {
            OwnedRanges(self.iter().collect::<Vec<_>>().into_iter())
        }
    }
    impl IntoRangeIterator<usize> for Vec<Range<usize>> {
        type IntoIter = OwnedRanges;
        fn into_range_iter(self) -> OwnedRanges {
            OwnedRanges(self.into_iter())
        }
    }
    impl IntoRangeIterator<usize> for &Vec<Range<usize>> {
        type IntoIter = OwnedRanges;
        fn into_range_iter(self) -> OwnedRanges {
            OwnedRanges(self.clone().into_iter())
        }
    }
    impl IntoRangeIterator<usize> for &[Range<usize>] {
        type IntoIter = OwnedRanges;
        fn into_range_iter(self) -> OwnedRanges {
            OwnedRanges(self.to_vec().into_iter())
        }
    }
    impl<const N: usize> IntoRangeIterator<usize> for [Range<usize>; N] {
        type IntoIter = OwnedRanges;
        fn into_range_iter(self) -> OwnedRanges {
            OwnedRanges(self.to_vec().into_iter())
        }
    }

    /// Collects ranges.
    pub trait FromRangeIterator<T> {
        /// Collects.
        fn from_range_iter<I: IntoRangeIterator<T>>(it: I) -> Self;
    }
    impl FromRangeIterator<usize> for RangeSet<usize> {
        fn from_range_iter<I: IntoRangeIterator<usize>>(it: I) -> Self {
            it.into_range_iter().collect()
        }
    }
}

pub mod ops {
    use crate::{
        iter::{IntoRangeIterator, OwnedRanges},
        set::{Range2, RangeSet},
    };
    use std::ops::Range;

    pub(crate) fn diff(a: &[Range2<usize>], b: &[Range2<usize>]) -> Vec<Range<usize>> {
        let mut out = Vec::new();
        for r in a {
            let mut s = r.start;
            for o in b {
                if o.end <= s {
                    continue;
                }
                if o.start >= r.end {
                    break;
                }
                if o.start > s {
                    out.push(s..o.start);
                }
                s = s.max(o.end);
                if s >= r.end {
                    break;
                }
            }
            if s < r.end {
                out.push(s..r.end);
            }
        }
        out
    }

    fn inter(a: &[Range2<usize>], b: &[Range2<usize>]) -> Vec<Range<usize>> {
        let mut out = Vec::new();
        for x in a {
            for y in b {
                let (s, e) = (x.start.max(y.start), x.end.min(y.end));
                if s < e {
                    out.push(s..e);
                }
            }
        }
        out
    }

    /// Set operations.
    pub trait Set<T> {
        #[doc(hidden)]
        fn as_set(&self) -> RangeSet<usize>;

        /// Values here which are not in `other`.
        fn difference(&self, other: impl IntoRangeIterator<usize>) -> OwnedRanges {
            let o: RangeSet<usize> = other.into_range_iter().collect();
            OwnedRanges(diff(&self.as_set().ranges, &o.ranges).into_iter())
        }
        /// Values in either.
        fn union(&self, other: impl IntoRangeIterator<usize>) -> OwnedRanges {
            let mut s = self.as_set();
            s.union_mut(other);
            OwnedRanges(s.iter().collect::<Vec<_>>().into_iter())
        }
        /// Values in both.
        fn intersection(&self, other: impl IntoRangeIterator<usize>) -> OwnedRanges {
            let o: RangeSet<usize> = other.into_range_iter().collect();
            OwnedRanges(inter(&self.as_set().ranges, &o.ranges).into_iter())
        }
        /// Values in one of both only.
        fn symmetric_difference(&self, other: impl IntoRangeIterator<usize>) -> OwnedRanges {
            let mut s = self.as_set();
            s.symmetric_difference_mut(other);
            OwnedRanges(s.iter().collect::<Vec<_>>().into_iter())
        }
        /// Whether every value of `other` is here.
        fn is_superset(&self, other: impl IntoRangeIterator<usize>) -> bool {
            let o: RangeSet<usize> = other.into_range_iter().collect();
            o.is_subset(self.as_set())
        }
        /// Whether every value here is in `other`.
        fn is_subset(&self, other: impl IntoRangeIterator<usize>) -> bool {
            self.difference(other).next().is_none()
        }
        /// Whether no value is in both.
        fn is_disjoint(&self, other: impl IntoRangeIterator<usize>) -> bool {
            self.intersection(other).next().is_none()
        }
    }
    impl Set<usize> for RangeSet<usize> {
        fn as_set(&self) -> RangeSet<usize> {
            self.clone()
        }
    }
    impl Set<usize> for Range<usize> {
        fn as_set(&self) -> RangeSet<usize> {
            self.clone().into()
        }
    }

    /// Slices of the data at the ranges of a set.
    pub trait Index<S> {
        /// The slices.
        type Output<'a>
        where
            Self: 'a;
        /// Iterates over the slices.
        fn index<'a>(&'a self, idx: &S) -> std::vec::IntoIter<Self::Output<'a>>;
    }
    impl<T> Index<RangeSet<usize>> for Vec<T> {
        type Output<'a> = &'a [T] where T: 'a;
        fn index<'a>(&'a self, idx: &RangeSet<usize>) -> std::vec::IntoIter<&'a [T]> {
            idx.iter().map(|r| &self[r]).collect::<Vec<_>>().into_iter()
        }
    }
    impl<T> Index<RangeSet<usize>> for [T] {
        type Output<'a> = &'a [T] where T: 'a;
        fn index<'a>(&'a self, idx: &RangeSet<usize>) -> std::vec::IntoIter<&'a [T]> {
            idx.iter().map(|r| &self[r]).collect::<Vec<_>>().into_iter()
        }
    }

    /// Set cover.
    pub trait Cover {
        /// Greedily covers this set with sets which are contained in it;
        /// returns the chosen ones and what stays uncovered.
        fn cover_by<I: IntoIterator>(
            &self,
            sets: I,
            f: impl Fn(&I::Item) -> &RangeSet<usize>,
        ) -> (Vec<I::Item>, RangeSet<usize>);
    }
    impl Cover for RangeSet<usize> {
        fn cover_by<I: IntoIterator>(
            &self,
            sets: I,
            f: impl Fn(&I::Item) -> &RangeSet<usize>,
        ) -> (Vec<I::Item>, RangeSet<usize>) {
            let mut cands: Vec<I::Item> = sets
                .into_iter()
                .filter(|s| f(s).is_subset(self))
                .collect();
            let mut left = self.clone();
            let mut out = Vec::new();
            while !left.is_empty() && !cands.is_empty() {
                let gain =
                    |s: &I::Item| f(s).intersection(&left).map(|r| r.len()).sum::<usize>();
                let (mut best, mut most) = (0, 0);
                for (i, c) in cands.iter().enumerate() {
                    let g = gain(c);
                    if g > most {
                        (best, most) = (i, g);
                    }
                }
                if most == 0 {
                    break;
                }
                let c = cands.remove(best);
                left.difference_mut(f(&c));
                out.push(c);
            }
            (out, left)
        }
    }
}

pub mod prelude {
    pub use crate::{
        iter::{FromRangeIterator, IntoRangeIterator, RangeIterator},
        ops::{Cover, Index, Set},
        set::RangeSet,
    };
}
