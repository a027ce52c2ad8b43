//! `mpz-memory-core`.
use crate::core::bitvec::BitVec;
use std::{
    future::Future,
    marker::PhantomData,
    ops::Range,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};

/// A region of memory, in bits.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Slice {
    pub(crate) ptr: usize,
    pub(crate) size: usize,
}
impl Slice {
    /// As a range.
    pub fn to_range(self) -> Range<usize> {
        self.ptr..self.ptr + self.size
    }
    /// From a range.
    pub fn from_range_unchecked(r: Range<usize>) -> Self {
        Slice { ptr: r.start, size: r.end - r.start }
    }
    /// Size in bits.
    pub fn len(&self) -> usize {
        self.size
    }
    /// Whether it has no bits.
    pub fn is_empty(&self) -> bool {
        self.size == 0
    }
    /// Size in bits.
    pub fn size(&self) -> usize {
        self.size
    }
}
impl std::fmt::Display for Slice {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.to_range())
    }
}

/// A kind of memory.
pub trait MemoryType: 'static {}
/// As a region.
pub trait ToRaw {
    /// The region.
    fn to_raw(&self) -> Slice;
}
impl ToRaw for Slice {
    fn to_raw(&self) -> Slice {
        *self
    }
}
/// Values with a representation in memory.
pub trait Repr<M>: ToRaw + FromRaw<M> {
    /// The value in the clear.
    type Clear: ClearValue;
}
/// From a region.
pub trait FromRaw<M> {
    /// From a region.
    fn from_raw(s: Slice) -> Self;
}
/// Values of fixed size.
pub trait StaticSize<M> {
    /// Bits.
    const SIZE: usize;
}
/// Values which are bits.
pub trait ClearValue: Sized + Send + 'static {
    /// To bits, least significant first.
    fn to_bits(&self, out: &mut Vec<bool>);
    /// From bits.
    fn from_bits(b: &[bool]) -> Self;
}
macro_rules! int {
    ($($t:ty),*) => {$(
        impl ClearValue for $t {
            fn to_bits(&self, out: &mut Vec<bool>) {
                out.extend((0..<$t>::BITS).map(|i| self >> i & 1 == 1))
            }
            fn from_bits(b: &[bool]) -> Self {
                b.iter().enumerate().fold(0, |a, (i, x)| a | (*x as $t) << i)
            }
        }
    )*};
}
int!(u8, u16, u32, u64, u128);
impl<T: ClearValue, const N: usize> ClearValue for [T; N] {
    fn to_bits(&self, out: &mut Vec<bool>) {
        self.iter().for_each(|x| x.to_bits(out))
    }
    fn from_bits(b: &[bool]) -> Self {
        let w = b.len() / N.max(1);
        std::array::from_fn(|i| T::from_bits(&b[i * w..(i + 1) * w]))
    }
}
/// Bits of bytes.
pub fn bits_of(b: &[u8]) -> Vec<bool> {
    let mut v = Vec::with_capacity(b.len() * 8);
    b.iter().for_each(|x| x.to_bits(&mut v));
    v
}
/// Bytes of bits.
pub fn bytes_of(b: &[bool]) -> Vec<u8> {
    b.chunks(8).map(u8::from_bits).collect()
}

/// Binary memory.
pub mod binary {
    use super::*;
    /// Binary memory.
    #[derive(Debug, Clone, Copy)]
    pub struct Binary;
    impl MemoryType for Binary {}
    macro_rules! prim {
        ($($n:ident $t:ty),*) => {$(
            /// An integer.
            #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
            pub struct $n(pub(crate) usize);
            impl ToRaw for $n {
                fn to_raw(&self) -> Slice {
                    Slice { ptr: self.0, size: <$t>::BITS as usize }
                }
            }
            impl FromRaw<Binary> for $n {
                fn from_raw(s: Slice) -> Self {
                    assert_eq!(s.size, <$t>::BITS as usize, "size of a value");
                    $n(s.ptr)
                }
            }
            impl Repr<Binary> for $n {
                type Clear = $t;
            }
            impl StaticSize<Binary> for $n {
                const SIZE: usize = <$t>::BITS as usize;
            }
            impl Elem for $n {
                type Int = $t;
            }
        )*};
    }
    prim!(U8 u8, U16 u16, U32 u32, U64 u64);
    /// Elements of arrays.
    pub trait Elem: Repr<Binary, Clear = Self::Int> + StaticSize<Binary> + Copy {
        /// The integer.
        type Int: ClearValue;
    }
}
use binary::{Binary, Elem};

/// A fixed number of values.
pub struct Array<T, const N: usize> {
    ptr: usize,
    p: PhantomData<fn() -> T>,
}
impl<T, const N: usize> Clone for Array<T, N> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T, const N: usize> Copy for Array<T, N> {}
impl<T, const N: usize> PartialEq for Array<T, N> {
    fn eq(&self, o: &Self) -> bool {
        self.ptr == o.ptr
    }
}
impl<T, const N: usize> std::fmt::Debug for Array<T, N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Array<{N}>@{}", self.ptr)
    }
}
impl<T: Elem, const N: usize> ToRaw for Array<T, N> {
    fn to_raw(&self) -> Slice {
        Slice { ptr: self.ptr, size: N * T::SIZE }
    }
}
impl<T: Elem, const N: usize> FromRaw<Binary> for Array<T, N> {
    fn from_raw(s: Slice) -> Self {
        assert_eq!(s.size, N * T::SIZE, "size of an array");
        Array { ptr: s.ptr, p: PhantomData }
    }
}
impl<T: Elem, const N: usize> Repr<Binary> for Array<T, N> {
    type Clear = [T::Clear; N];
}
impl<T: Elem, const N: usize> StaticSize<Binary> for Array<T, N> {
    const SIZE: usize = N * T::SIZE;
}
impl<T: Elem, const N: usize> Array<T, N> {
    /// An element.
    pub fn get(&self, i: usize) -> Option<T> {
        (i < N).then(|| T::from_raw(Slice { ptr: self.ptr + i * T::SIZE, size: T::SIZE }))
    }
}
/// Lengths differ.
#[derive(Debug, Clone, Copy)]
pub struct LengthError;
impl std::fmt::Display for LengthError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("length")
    }
}
impl std::error::Error for LengthError {}
impl<T: Elem, const N: usize> TryFrom<Vector<T>> for Array<T, N> {
    type Error = LengthError;
    fn try_from(v: Vector<T>) -> Result<Self, LengthError> {
        if v.len == N { Ok(Array { ptr: v.ptr, p: PhantomData }) } else { Err(LengthError) }
    }
}

/// A run of values.
pub struct Vector<T> {
    ptr: usize,
    len: usize,
    p: PhantomData<fn() -> T>,
}
impl<T> Clone for Vector<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Vector<T> {}
impl<T> PartialEq for Vector<T> {
    fn eq(&self, o: &Self) -> bool {
        self.ptr == o.ptr && self.len == o.len
    }
}
impl<T> std::fmt::Debug for Vector<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Vector<{}>@{}", self.len, self.ptr)
    }
}
impl<T: Elem> ToRaw for Vector<T> {
    fn to_raw(&self) -> Slice {
        Slice { ptr: self.ptr, size: self.len * T::SIZE }
    }
}
impl<T: Elem> FromRaw<Binary> for Vector<T> {
    fn from_raw(s: Slice) -> Self {
        assert_eq!(s.size % T::SIZE, 0, "size of a vector");
        Vector { ptr: s.ptr, len: s.size / T::SIZE, p: PhantomData }
    }
}
impl<T: Elem> ClearVec for Vector<T> {}
/// Vectors have vectors in the clear.
pub trait ClearVec {}
impl<T: ClearValue> ClearValue for Vec<T> {
    fn to_bits(&self, out: &mut Vec<bool>) {
        self.iter().for_each(|x| x.to_bits(out))
    }
    fn from_bits(b: &[bool]) -> Self {
        let w = std::mem::size_of::<T>() * 8;
        b.chunks(w).map(T::from_bits).collect()
    }
}
impl<T: Elem> Repr<Binary> for Vector<T> {
    type Clear = Vec<T::Clear>;
}
impl<T: Elem, const N: usize> From<Array<T, N>> for Vector<T> {
    fn from(a: Array<T, N>) -> Self {
        Vector { ptr: a.ptr, len: N, p: PhantomData }
    }
}
impl<T: Elem> Vector<T> {
    /// Number of values.
    pub fn len(&self) -> usize {
        self.len
    }
    /// Whether there are none.
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    /// A part.
    pub fn get(&self, r: Range<usize>) -> Option<Self> {
        (r.start <= r.end && r.end <= self.len).then(|| Vector { ptr: self.ptr + r.start * T::SIZE, len: r.end - r.start, p: PhantomData })
    }
    /// Shortens.
    pub fn truncate(&mut self, len: usize) {
        self.len = self.len.min(len)
    }
    /// Splits.
    pub fn split_off(&mut self, at: usize) -> Self {
        assert!(at <= self.len, "split out of bounds");
        let r = Vector { ptr: self.ptr + at * T::SIZE, len: self.len - at, p: PhantomData };
        self.len = at;
        r
    }
}
impl<M, A: FromRaw<M>, B: FromRaw<M>, C: FromRaw<M>> FromRaw<M> for (A, B, C)
where
    A: StaticSize<M>,
    B: StaticSize<M>,
    C: StaticSize<M>,
{
    fn from_raw(s: Slice) -> Self {
        assert_eq!(s.size, A::SIZE + B::SIZE + C::SIZE, "size of a tuple");
        let at = |o, size| Slice { ptr: s.ptr + o, size };
        (A::from_raw(at(0, A::SIZE)), B::from_raw(at(A::SIZE, B::SIZE)), C::from_raw(at(A::SIZE + B::SIZE, C::SIZE)))
    }
}

/// Memory.
pub trait Memory<M> {
    /// Error.
    type Error: std::error::Error + Send + Sync + 'static;
    /// Whether all of it is allocated.
    fn is_alloc_raw(&self, s: Slice) -> bool;
    /// Allocates.
    fn alloc_raw(&mut self, size: usize) -> Result<Slice, Self::Error>;
    /// Whether assigned.
    fn is_assigned_raw(&self, s: Slice) -> bool;
    /// Assigns.
    fn assign_raw(&mut self, s: Slice, data: BitVec) -> Result<(), Self::Error>;
    /// Whether committed.
    fn is_committed_raw(&self, s: Slice) -> bool;
    /// Commits.
    fn commit_raw(&mut self, s: Slice) -> Result<(), Self::Error>;
    /// Reads what this party may know.
    fn get_raw(&self, s: Slice) -> Result<Option<BitVec>, Self::Error>;
    /// Decodes.
    fn decode_raw(&mut self, s: Slice) -> Result<DecodeFuture<BitVec>, Self::Error>;
}
/// Visibility.
pub trait View<M> {
    /// Error.
    type Error: std::error::Error + Send + Sync + 'static;
    /// Known to both.
    fn mark_public_raw(&mut self, s: Slice) -> Result<(), Self::Error>;
    /// Known to this party.
    fn mark_private_raw(&mut self, s: Slice) -> Result<(), Self::Error>;
    /// Known to the other party.
    fn mark_blind_raw(&mut self, s: Slice) -> Result<(), Self::Error>;
}
/// Typed access.
pub trait MemoryExt<M>: Memory<M> {
    /// Whether assigned.
    fn is_assigned<T: Repr<M>>(&self, v: &T) -> bool {
        self.is_assigned_raw(v.to_raw())
    }
    /// Allocates a value.
    fn alloc<T: Repr<M> + StaticSize<M>>(&mut self) -> Result<T, Self::Error> {
        Ok(T::from_raw(self.alloc_raw(T::SIZE)?))
    }
    /// Allocates values.
    fn alloc_vec<T>(&mut self, len: usize) -> Result<Vector<T>, Self::Error>
    where
        T: StaticSize<M>,
        Vector<T>: FromRaw<M>,
    {
        Ok(Vector::<T>::from_raw(self.alloc_raw(len * T::SIZE)?))
    }
    /// Assigns.
    fn assign<T: Repr<M>>(&mut self, v: T, clear: T::Clear) -> Result<(), Self::Error> {
        let mut b = vec![];
        clear.to_bits(&mut b);
        self.assign_raw(v.to_raw(), BitVec(b))
    }
    /// Commits.
    fn commit<T: Repr<M>>(&mut self, v: T) -> Result<(), Self::Error> {
        self.commit_raw(v.to_raw())
    }
    /// Reads.
    fn get<T: Repr<M>>(&self, v: T) -> Result<Option<T::Clear>, Self::Error> {
        Ok(self.get_raw(v.to_raw())?.map(|b| T::Clear::from_bits(&b.0)))
    }
    /// Decodes.
    fn decode<T: Repr<M>>(&mut self, v: T) -> Result<DecodeFutureTyped<BitVec, T::Clear>, Self::Error> {
        Ok(DecodeFutureTyped { f: self.decode_raw(v.to_raw())?, p: PhantomData })
    }
}
impl<M, V: Memory<M> + ?Sized> MemoryExt<M> for V {}
/// Typed visibility.
pub trait ViewExt<M>: View<M> {
    /// Known to both.
    fn mark_public<T: Repr<M>>(&mut self, v: T) -> Result<(), Self::Error> {
        self.mark_public_raw(v.to_raw())
    }
    /// Known to this party.
    fn mark_private<T: Repr<M>>(&mut self, v: T) -> Result<(), Self::Error> {
        self.mark_private_raw(v.to_raw())
    }
    /// Known to the other party.
    fn mark_blind<T: Repr<M>>(&mut self, v: T) -> Result<(), Self::Error> {
        self.mark_blind_raw(v.to_raw())
    }
}
impl<M, V: View<M> + ?Sized> ViewExt<M> for V {}

/// The value will not come.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct DecodeError;
impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("decode: the machine is gone")
    }
}
impl std::error::Error for DecodeError {}
#[derive(Debug, Default)]
struct Slot<T> {
    v: Option<T>,
    gone: bool,
    taken: bool,
    w: Option<Waker>,
}
/// A value being decoded.
#[derive(Debug)]
pub struct DecodeFuture<T>(Arc<Mutex<Slot<T>>>);
#[derive(Debug)]
pub(crate) struct DecodeOp<T>(Arc<Mutex<Slot<T>>>);
impl<T> DecodeOp<T> {
    pub(crate) fn new() -> (Self, DecodeFuture<T>) {
        let s = Arc::new(Mutex::new(Slot { v: None, gone: false, taken: false, w: None }));
        (DecodeOp(s.clone()), DecodeFuture(s))
    }
    pub(crate) fn set(&self, v: T) {
        let mut s = self.0.lock().unwrap();
        s.v = Some(v);
        if let Some(w) = s.w.take() {
            w.wake()
        }
    }
}
impl<T> Drop for DecodeOp<T> {
    fn drop(&mut self) {
        let mut s = self.0.lock().unwrap();
        s.gone = true;
        if let Some(w) = s.w.take() {
            w.wake()
        }
    }
}
impl<T> DecodeFuture<T> {
    /// The value if it is there.
    pub fn try_recv(&mut self) -> Result<Option<T>, DecodeError> {
        let mut s = self.0.lock().unwrap();
        match s.v.take() {
            Some(v) => {
                s.taken = true;
                Ok(Some(v))
            }
            None if s.gone || s.taken => Err(DecodeError),
            None => Ok(None),
        }
    }
}
impl<T> Future for DecodeFuture<T> {
    type Output = Result<T, DecodeError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.try_recv() {
            Ok(Some(v)) => Poll::Ready(Ok(v)),
            Err(e) => Poll::Ready(Err(e)),
            Ok(None) => {
                self.0.lock().unwrap().w = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
/// A typed value being decoded.
pub struct DecodeFutureTyped<B, T> {
    f: DecodeFuture<B>,
    p: PhantomData<fn() -> T>,
}
impl<B, T> std::fmt::Debug for DecodeFutureTyped<B, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("DecodeFutureTyped")
    }
}
impl<T: ClearValue> DecodeFutureTyped<BitVec, T> {
    /// The value if it is there.
    pub fn try_recv(&mut self) -> Result<Option<T>, DecodeError> {
        Ok(self.f.try_recv()?.map(|b| T::from_bits(&b.0)))
    }
}
impl<T: ClearValue> Future for DecodeFutureTyped<BitVec, T> {
    type Output = Result<T, DecodeError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut self.f).poll(cx).map(|r| r.map(|b| T::from_bits(&b.0)))
    }
}
