//! `mpz-share-conversion`.
use crate::{
    common::{Context, Flush, future::Output},
    fields::Field,
    memory::{DecodeError, DecodeFuture, DecodeOp},
    vm::{put, take},
    watch,
};
use async_trait::async_trait;
use std::{
    future::Future,
    marker::PhantomData,
    pin::Pin,
    task::{Context as Cx, Poll},
};

/// Error of a conversion.
#[derive(Debug, thiserror::Error)]
#[error("share conversion: {0}")]
pub struct ShareError(String);
macro_rules! conv {
    ($t:ident $alloc:ident $q:ident $o:ident $f:ident) => {
        /// A result.
        #[derive(Debug)]
        pub struct $o<F> {
            /// The shares.
            pub shares: Vec<F>,
        }
        /// A result to come.
        #[derive(Debug)]
        pub struct $f<F>(DecodeFuture<Vec<F>>);
        impl<F: Field> Future for $f<F> {
            type Output = Result<$o<F>, DecodeError>;
            fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Self::Output> {
                Pin::new(&mut self.0).poll(cx).map(|r| r.map(|shares| $o { shares }))
            }
        }
        impl<F: Field> Output for $f<F> {
            type Ok = $o<F>;
            type Err = DecodeError;
            fn try_recv(&mut self) -> Result<Option<$o<F>>, DecodeError> {
                Ok(self.0.try_recv()?.map(|shares| $o { shares }))
            }
        }
        /// A conversion.
        pub trait $t<F> {
            /// Error.
            type Error: std::error::Error + Send + Sync + 'static;
            /// Result.
            type Future: Output<Ok = $o<F>, Err: std::error::Error + Send + Sync + 'static> + Send;
            /// Reserves.
            fn alloc(&mut self, count: usize) -> Result<(), Self::Error>;
            /// Queues.
            fn $q(&mut self, shares: &[F]) -> Result<Self::Future, Self::Error>;
        }
        impl<S, T, F: Field> $t<F> for Conv<S, T, F> {
            type Error = ShareError;
            type Future = $f<F>;
            fn alloc(&mut self, count: usize) -> Result<(), ShareError> {
                self.$alloc += count;
                Ok(())
            }
            fn $q(&mut self, shares: &[F]) -> Result<$f<F>, ShareError> {
                if self.$alloc < shares.len() {
                    return Err(ShareError(format!("{} conversions were not allocated", shares.len())));
                }
                self.$alloc -= shares.len();
                let (op, f) = DecodeOp::new();
                self.queue.push((stringify!($t) == "AdditiveToMultiplicative", shares.to_vec(), op));
                Ok($f(f))
            }
        }
    };
}
conv!(AdditiveToMultiplicative a2m queue_to_multiplicative A2MOutput A2MFuture);
conv!(MultiplicativeToAdditive m2a queue_to_additive M2AOutput M2AFuture);
/// Both conversions.
pub trait ShareConvert<F>: AdditiveToMultiplicative<F> + MultiplicativeToAdditive<F> {}
impl<F, T: AdditiveToMultiplicative<F> + MultiplicativeToAdditive<F>> ShareConvert<F> for T {}

/// The side which chooses.
#[derive(Debug)]
pub struct SenderSide;
/// The side which follows.
#[derive(Debug)]
pub struct ReceiverSide;
/// A converter.
pub struct Conv<S, T, F> {
    a2m: usize,
    m2a: usize,
    queue: Vec<(bool, Vec<F>, DecodeOp<Vec<F>>)>,
    done: usize,
    p: PhantomData<fn() -> (S, T)>,
}
impl<S, T, F> std::fmt::Debug for Conv<S, T, F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ShareConversion")
    }
}
impl<S, T, F> Conv<S, T, F> {
    /// Over an oblivious evaluation.
    pub fn new(_: T) -> Self {
        Conv { a2m: 0, m2a: 0, queue: vec![], done: 0, p: PhantomData }
    }
}
/// The side which chooses.
pub type ShareConversionSender<T, F> = Conv<SenderSide, T, F>;
/// The side which follows.
pub type ShareConversionReceiver<T, F> = Conv<ReceiverSide, T, F>;

type Msg<F> = Vec<(bool, Vec<(F, F)>)>;
#[async_trait]
impl<T, F: Field> Flush for Conv<SenderSide, T, F> {
    type Error = ShareError;
    fn wants_flush(&self) -> bool {
        !self.queue.is_empty()
    }
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), ShareError> {
        let queue = std::mem::take(&mut self.queue);
        let mut msg: Msg<F> = vec![];
        let mut mine = vec![];
        {
            let mut rng = rand::rng();
            for (a2m, v, _) in &queue {
                let mut row = vec![];
                for x in v {
                    let r = loop {
                        let r = F::random(&mut rng);
                        if r != F::zero() {
                            break r;
                        }
                    };
                    row.push((*x, r));
                }
                mine.push(row.iter().map(|(_, r)| *r).collect::<Vec<_>>());
                msg.push((*a2m, row));
            }
        }
        put(ctx, &msg).await.map_err(|e| ShareError(e.to_string()))?;
        let n: u32 = take(ctx).await.map_err(|e| ShareError(e.to_string()))?;
        if n as usize != queue.len() {
            return Err(ShareError("the parties do not convert the same number".into()));
        }
        for ((_, _, op), v) in queue.into_iter().zip(mine) {
            op.set(v)
        }
        Ok(())
    }
}
#[async_trait]
impl<T, F: Field> Flush for Conv<ReceiverSide, T, F> {
    type Error = ShareError;
    fn wants_flush(&self) -> bool {
        !self.queue.is_empty()
    }
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), ShareError> {
        let queue = std::mem::take(&mut self.queue);
        let msg: Msg<F> = take(ctx).await.map_err(|e| ShareError(e.to_string()))?;
        put(ctx, &(queue.len() as u32)).await.map_err(|e| ShareError(e.to_string()))?;
        if msg.len() != queue.len() || msg.iter().zip(&queue).any(|(m, q)| m.0 != q.0 || m.1.len() != q.1.len()) {
            return Err(ShareError("the parties do not convert the same".into()));
        }
        for ((a2m, v, op), (_, theirs)) in queue.into_iter().zip(msg) {
            let mut out = vec![];
            for (b, (a, r)) in v.into_iter().zip(theirs) {
                let inv = r.inverse().ok_or_else(|| ShareError("zero".into()))?;
                let mut x = if a2m { (a + b) * inv } else { a * b - r };
                if watch::share_fault(self.done) {
                    x = x + F::one();
                }
                if watch::share_zero(self.done) {
                    x = F::zero();
                }
                self.done += 1;
                out.push(x);
            }
            op.set(out)
        }
        Ok(())
    }
}
/// Connected converters.
pub mod ideal {
    use super::*;
    /// The side which chooses.
    pub type IdealShareConvertSender<F> = ShareConversionSender<(), F>;
    /// The side which follows.
    pub type IdealShareConvertReceiver<F> = ShareConversionReceiver<(), F>;
    /// A pair.
    pub fn ideal_share_convert<F>(_: crate::core::Block) -> (IdealShareConvertSender<F>, IdealShareConvertReceiver<F>) {
        // not limited by allocation
        let new = |_: ()| (usize::MAX / 2, usize::MAX / 2);
        let ((a2m, m2a), (c, d)) = (new(()), new(()));
        (Conv { a2m, m2a, queue: vec![], done: 0, p: PhantomData }, Conv { a2m: c, m2a: d, queue: vec![], done: 0, p: PhantomData })
    }
}
