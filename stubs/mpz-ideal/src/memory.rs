//! Memory references, clear values and decode futures.
use crate::bitvec::BitVec;
use std::future::Future;
use std::marker::PhantomData;
use std::ops::Range;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

/// Bits, least significant first within each byte.
pub fn to_bits(b: &[u8]) -> Vec<bool> {
    let mut v = Vec::with_capacity(b.len() * 8);
    for x in b {
        for i in 0..8 { v.push(x >> i & 1 == 1) }
    }
    v
}
pub fn to_bytes(b: &[bool]) -> Vec<u8> {
    b.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, x)| a | (*x as u8) << i)).collect()
}
pub(crate) fn bitvec(b: &[bool]) -> BitVec { b.iter().copied().collect() }
pub(crate) fn bools(b: &BitVec) -> Vec<bool> { b.iter().map(|x| *x).collect() }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Slice { ptr: usize, len: usize }
impl Slice {
    pub fn from_range_unchecked(r: Range<usize>) -> Self { Slice { ptr: r.start, len: r.end - r.start } }
    pub fn to_range(&self) -> Range<usize> { self.ptr..self.ptr + self.len }
    pub fn len(&self) -> usize { self.len }
    pub fn is_empty(&self) -> bool { self.len == 0 }
    pub(crate) fn ptr(&self) -> usize { self.ptr }
}
impl std::fmt::Display for Slice {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}..{}", self.ptr, self.ptr + self.len)
    }
}

pub trait MemoryType { type Raw: Clone; }
pub trait ToRaw { fn to_raw(&self) -> Slice; }
impl ToRaw for Slice { fn to_raw(&self) -> Slice { *self } }
pub trait FromRaw<M: MemoryType> { fn from_raw(s: Slice) -> Self; }
pub trait ClearValue<M: MemoryType>: Sized {
    fn into_clear(self) -> M::Raw;
    fn from_clear(raw: M::Raw) -> Self;
}
pub trait Repr<M: MemoryType>: ToRaw + FromRaw<M> {
    type Clear: ClearValue<M>;
}
pub trait StaticSize<M: MemoryType> { const SIZE: usize; }

/// Scalar types in memory.
pub trait Scalar: Copy + Send + Sync + 'static {
    type Clear: Copy + Send + Sync + std::fmt::Debug + PartialEq + 'static;
    const BYTES: usize;
    fn to_le(c: Self::Clear) -> Vec<u8>;
    fn from_le(b: &[u8]) -> Self::Clear;
}

pub mod binary {
    pub use super::{Binary, U32, U8};
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Binary;
impl MemoryType for Binary { type Raw = BitVec; }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct U8(Slice);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct U32(Slice);
impl Scalar for U8 {
    type Clear = u8;
    const BYTES: usize = 1;
    fn to_le(c: u8) -> Vec<u8> { vec![c] }
    fn from_le(b: &[u8]) -> u8 { b[0] }
}
impl Scalar for U32 {
    type Clear = u32;
    const BYTES: usize = 4;
    fn to_le(c: u32) -> Vec<u8> { c.to_le_bytes().to_vec() }
    fn from_le(b: &[u8]) -> u32 { u32::from_le_bytes(b[..4].try_into().unwrap()) }
}

macro_rules! conv {
    ($t:ty, $s:ty) => {
        impl<const N: usize> ClearValue<Binary> for [$t; N] {
            fn into_clear(self) -> BitVec { bitvec(&to_bits(&self.iter().flat_map(|c| <$s>::to_le(*c)).collect::<Vec<u8>>())) }
            fn from_clear(raw: BitVec) -> Self {
                let b = to_bytes(&bools(&raw));
                std::array::from_fn(|i| <$s>::from_le(&b[i * <$s>::BYTES..]))
            }
        }
        impl ClearValue<Binary> for Vec<$t> {
            fn into_clear(self) -> BitVec { bitvec(&to_bits(&self.iter().flat_map(|c| <$s>::to_le(*c)).collect::<Vec<u8>>())) }
            fn from_clear(raw: BitVec) -> Self {
                to_bytes(&bools(&raw)).chunks(<$s>::BYTES).map(|c| <$s>::from_le(c)).collect()
            }
        }
        impl<const N: usize> Repr<Binary> for Array<$s, N> { type Clear = [$t; N]; }
        impl Repr<Binary> for Vector<$s> { type Clear = Vec<$t>; }
    };
}
conv!(u8, U8);
conv!(u32, U32);

pub struct Array<T, const N: usize> { ptr: usize, _pd: PhantomData<fn() -> T> }
impl<T, const N: usize> Clone for Array<T, N> { fn clone(&self) -> Self { *self } }
impl<T, const N: usize> Copy for Array<T, N> {}
impl<T, const N: usize> PartialEq for Array<T, N> { fn eq(&self, o: &Self) -> bool { self.ptr == o.ptr } }
impl<T, const N: usize> Eq for Array<T, N> {}
impl<T, const N: usize> std::fmt::Debug for Array<T, N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Array({}; {N})", self.ptr) }
}
impl<T: Scalar, const N: usize> ToRaw for Array<T, N> {
    fn to_raw(&self) -> Slice { Slice { ptr: self.ptr, len: N * T::BYTES * 8 } }
}
impl<T: Scalar, const N: usize> FromRaw<Binary> for Array<T, N> {
    fn from_raw(s: Slice) -> Self {
        assert_eq!(s.len, N * T::BYTES * 8, "slice length mismatch");
        Array { ptr: s.ptr, _pd: PhantomData }
    }
}
impl<T: Scalar, const N: usize> StaticSize<Binary> for Array<T, N> { const SIZE: usize = N * T::BYTES * 8; }

pub struct Vector<T> { ptr: usize, len: usize, _pd: PhantomData<fn() -> T> }
impl<T> Clone for Vector<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for Vector<T> {}
impl<T> PartialEq for Vector<T> { fn eq(&self, o: &Self) -> bool { self.ptr == o.ptr && self.len == o.len } }
impl<T> Eq for Vector<T> {}
impl<T> std::fmt::Debug for Vector<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Vector({}; {})", self.ptr, self.len) }
}
impl<T: Scalar> ToRaw for Vector<T> {
    fn to_raw(&self) -> Slice { Slice { ptr: self.ptr, len: self.len * T::BYTES * 8 } }
}
impl<T: Scalar> FromRaw<Binary> for Vector<T> {
    fn from_raw(s: Slice) -> Self { Vector { ptr: s.ptr, len: s.len / (T::BYTES * 8), _pd: PhantomData } }
}
impl<T: Scalar> Vector<T> {
    pub fn len(&self) -> usize { self.len }
    pub fn is_empty(&self) -> bool { self.len == 0 }
    pub fn get(&self, r: Range<usize>) -> Option<Vector<T>> {
        if r.start <= r.end && r.end <= self.len {
            Some(Vector { ptr: self.ptr + r.start * T::BYTES * 8, len: r.end - r.start, _pd: PhantomData })
        } else { None }
    }
    pub fn truncate(&mut self, len: usize) { if len < self.len { self.len = len } }
    pub fn split_off(&mut self, at: usize) -> Self {
        assert!(at <= self.len, "split out of range");
        let tail = Vector { ptr: self.ptr + at * T::BYTES * 8, len: self.len - at, _pd: PhantomData };
        self.len = at;
        tail
    }
}
impl<T: Scalar, const N: usize> Array<T, N> {
    pub fn get(&self, r: Range<usize>) -> Option<Vector<T>> { Vector::from(*self).get(r) }
    pub fn len(&self) -> usize { N }
}
impl<T: Scalar, const N: usize> From<Array<T, N>> for Vector<T> {
    fn from(a: Array<T, N>) -> Self { Vector { ptr: a.ptr, len: N, _pd: PhantomData } }
}
#[derive(Debug, thiserror::Error)]
#[error("slice length mismatch")]
pub struct LengthError;
impl<T: Scalar, const N: usize> TryFrom<Vector<T>> for Array<T, N> {
    type Error = LengthError;
    fn try_from(v: Vector<T>) -> Result<Self, LengthError> {
        if v.len == N { Ok(Array { ptr: v.ptr, _pd: PhantomData }) } else { Err(LengthError) }
    }
}

macro_rules! tuple {
    ($($n:ident $i:tt),*) => {
        impl<$($n: StaticSize<Binary> + FromRaw<Binary>),*> FromRaw<Binary> for ($($n,)*) {
            #[allow(unused_assignments)]
            fn from_raw(s: Slice) -> Self {
                let mut p = s.ptr;
                ($({ let r = $n::from_raw(Slice { ptr: p, len: $n::SIZE }); p += $n::SIZE; r },)*)
            }
        }
        impl<$($n: StaticSize<Binary>),*> StaticSize<Binary> for ($($n,)*) { const SIZE: usize = 0 $(+ $n::SIZE)*; }
    };
}
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);

#[derive(Debug, thiserror::Error)]
#[error("decode error: value was dropped")]
pub struct DecodeError;

#[derive(Debug, Default)]
pub(crate) struct Slot { value: Option<BitVec>, dead: bool, waker: Option<Waker> }
#[derive(Debug, Clone)]
pub struct DecodeFuture<R> { slot: Arc<Mutex<Slot>>, _pd: PhantomData<fn() -> R> }
#[derive(Debug)]
pub(crate) struct DecodeOp(Arc<Mutex<Slot>>);
impl DecodeOp {
    pub(crate) fn send(self, v: BitVec) {
        let mut s = self.0.lock().unwrap();
        s.value = Some(v);
        if let Some(w) = s.waker.take() { w.wake() }
    }
}
impl Drop for DecodeOp {
    fn drop(&mut self) {
        let mut s = self.0.lock().unwrap();
        s.dead = true;
        if let Some(w) = s.waker.take() { w.wake() }
    }
}
pub(crate) fn decode_pair() -> (DecodeOp, DecodeFuture<BitVec>) {
    let slot = Arc::new(Mutex::new(Slot::default()));
    (DecodeOp(slot.clone()), DecodeFuture { slot, _pd: PhantomData })
}
impl DecodeFuture<BitVec> {
    pub fn try_recv(&mut self) -> Result<Option<BitVec>, DecodeError> {
        let s = self.slot.lock().unwrap();
        match &s.value {
            Some(v) => Ok(Some(v.clone())),
            None if s.dead => Err(DecodeError),
            None => Ok(None),
        }
    }
}
impl Future for DecodeFuture<BitVec> {
    type Output = Result<BitVec, DecodeError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.slot.lock().unwrap();
        if let Some(v) = &s.value { return Poll::Ready(Ok(v.clone())) }
        if s.dead { return Poll::Ready(Err(DecodeError)) }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
#[derive(Debug)]
pub struct DecodeFutureTyped<R, T> { fut: DecodeFuture<R>, _pd: PhantomData<fn() -> T> }
impl<T: ClearValue<Binary>> DecodeFutureTyped<BitVec, T> {
    pub(crate) fn new(fut: DecodeFuture<BitVec>) -> Self { Self { fut, _pd: PhantomData } }
    pub fn try_recv(&mut self) -> Result<Option<T>, DecodeError> { Ok(self.fut.try_recv()?.map(T::from_clear)) }
}
impl<T: ClearValue<Binary>> Future for DecodeFutureTyped<BitVec, T> {
    type Output = Result<T, DecodeError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut self.fut).poll(cx).map(|r| r.map(T::from_clear))
    }
}

pub trait Memory<M: MemoryType> {
    type Error: std::error::Error + Send + Sync + 'static;
    fn is_alloc_raw(&self, slice: Slice) -> bool;
    fn alloc_raw(&mut self, size: usize) -> Result<Slice, Self::Error>;
    fn is_assigned_raw(&self, slice: Slice) -> bool;
    fn assign_raw(&mut self, slice: Slice, data: M::Raw) -> Result<(), Self::Error>;
    fn is_committed_raw(&self, slice: Slice) -> bool;
    fn commit_raw(&mut self, slice: Slice) -> Result<(), Self::Error>;
    fn get_raw(&self, slice: Slice) -> Result<Option<M::Raw>, Self::Error>;
    fn decode_raw(&mut self, slice: Slice) -> Result<DecodeFuture<M::Raw>, Self::Error>;
}
pub trait View<M: MemoryType> {
    type Error: std::error::Error + Send + Sync + 'static;
    fn mark_public_raw(&mut self, slice: Slice) -> Result<(), Self::Error>;
    fn mark_private_raw(&mut self, slice: Slice) -> Result<(), Self::Error>;
    fn mark_blind_raw(&mut self, slice: Slice) -> Result<(), Self::Error>;
}
pub trait MemoryExt: Memory<Binary> {
    fn alloc<R: Repr<Binary> + StaticSize<Binary>>(&mut self) -> Result<R, Self::Error> {
        Ok(R::from_raw(self.alloc_raw(R::SIZE)?))
    }
    fn alloc_vec<T: Scalar>(&mut self, len: usize) -> Result<Vector<T>, Self::Error> {
        Ok(Vector::from_raw(self.alloc_raw(len * T::BYTES * 8)?))
    }
    fn assign<R: Repr<Binary>>(&mut self, value: R, clear: R::Clear) -> Result<(), Self::Error> {
        self.assign_raw(value.to_raw(), clear.into_clear())
    }
    fn commit<R: Repr<Binary>>(&mut self, value: R) -> Result<(), Self::Error> { self.commit_raw(value.to_raw()) }
    fn get<R: Repr<Binary>>(&self, value: R) -> Result<Option<R::Clear>, Self::Error> {
        Ok(self.get_raw(value.to_raw())?.map(R::Clear::from_clear))
    }
    fn decode<R: Repr<Binary>>(&mut self, value: R) -> Result<DecodeFutureTyped<BitVec, R::Clear>, Self::Error> {
        Ok(DecodeFutureTyped::new(self.decode_raw(value.to_raw())?))
    }
}
impl<T: Memory<Binary> + ?Sized> MemoryExt for T {}
pub trait ViewExt: View<Binary> {
    fn mark_public<R: Repr<Binary>>(&mut self, value: R) -> Result<(), Self::Error> { self.mark_public_raw(value.to_raw()) }
    fn mark_private<R: Repr<Binary>>(&mut self, value: R) -> Result<(), Self::Error> { self.mark_private_raw(value.to_raw()) }
    fn mark_blind<R: Repr<Binary>>(&mut self, value: R) -> Result<(), Self::Error> { self.mark_blind_raw(value.to_raw()) }
}
impl<T: View<Binary> + ?Sized> ViewExt for T {}
