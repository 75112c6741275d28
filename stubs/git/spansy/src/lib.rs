//! Simulation stand-in for `spansy`: HTTP/1.1 and JSON with the positions of
//! every part.  Written from its use in tlsn-formats and tlsn-sdk-core.
pub mod http;
pub mod json;

use rangeset::{iter::IntoRangeIterator, set::RangeSet};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseError(pub String);
impl std::fmt::Display for ParseError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "parsing error: {}", self.0) } }
impl std::error::Error for ParseError {}
pub(crate) fn bad<T>(s: &str) -> Result<T, ParseError> { Err(ParseError(s.into())) }

/// What the messages are kept in.
pub trait Store: Clone + AsRef<[u8]> + std::fmt::Debug {}
impl<T: Clone + AsRef<[u8]> + std::fmt::Debug> Store for T {}

/// A part of a message.
#[derive(Debug, Clone)]
pub struct View<S = bytes::Bytes> { pub(crate) src: S, pub(crate) idx: RangeSet<usize> }
impl<S: Store> View<S> {
    pub(crate) fn new(src: &S, idx: impl Into<RangeSet<usize>>) -> Self { View { src: src.clone(), idx: idx.into() } }
    pub(crate) fn without(&self, o: &RangeSet<usize>) -> Self { let mut idx = self.idx.clone(); idx.difference_mut(o); View { src: self.src.clone(), idx } }
    pub fn indices(&self) -> &RangeSet<usize> { &self.idx }
    pub fn is_empty(&self) -> bool { self.idx.is_empty() }
    pub fn len(&self) -> usize { self.idx.len() }
    pub fn to_vec(&self) -> Vec<u8> { self.idx.iter().flat_map(|r| self.src.as_ref()[r].to_vec()).collect() }
    pub fn view(&self) -> &View<S> { self }
}
impl<S> IntoRangeIterator<usize> for View<S> {
    type IntoIter = std::vec::IntoIter<std::ops::Range<usize>>;
    fn into_range_iter(self) -> Self::IntoIter { self.idx.into_range_iter() }
}
impl<S> IntoRangeIterator<usize> for &View<S> {
    type IntoIter = std::vec::IntoIter<std::ops::Range<usize>>;
    fn into_range_iter(self) -> Self::IntoIter { self.idx.clone().into_range_iter() }
}
macro_rules! spanned { ($($t:ident)*) => { $(
    impl<S: crate::Store> $t<S> {
        pub fn view(&self) -> &crate::View<S> { &self.view }
        pub fn indices(&self) -> &rangeset::set::RangeSet<usize> { self.view.indices() }
    }
    impl<S: crate::Store> rangeset::iter::IntoRangeIterator<usize> for &$t<S> {
        type IntoIter = std::vec::IntoIter<std::ops::Range<usize>>;
        fn into_range_iter(self) -> Self::IntoIter { self.view.idx.clone().into_range_iter() }
    }
)* } }
pub(crate) use spanned;
