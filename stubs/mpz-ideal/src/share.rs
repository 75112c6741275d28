//! Ideal share conversion between additive and multiplicative shares.
use crate::common::{Context, Flush, Output};
use crate::fields::Field;
use async_trait::async_trait;
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};

#[derive(Debug, thiserror::Error)]
pub enum ShareConversionError {
    #[error("io error: {0}")]
    Io(#[from] std::io::Error),
    #[error("{0}")]
    Other(&'static str),
}
#[derive(Debug, Clone)]
pub struct Shares<F> { pub shares: Vec<F> }
#[derive(Debug)]
struct Slot<F> { value: Option<Vec<F>>, dead: bool, waker: Option<Waker> }
#[derive(Debug)]
pub struct ShareFuture<F>(Arc<Mutex<Slot<F>>>);
struct Op<F>(Arc<Mutex<Slot<F>>>);
impl<F> std::fmt::Debug for Op<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Op") }
}
impl<F> Drop for Op<F> {
    fn drop(&mut self) {
        let mut s = self.0.lock().unwrap();
        s.dead = true;
        if let Some(w) = s.waker.take() { w.wake() }
    }
}
impl<F: Field> Future for ShareFuture<F> {
    type Output = Result<Shares<F>, ShareConversionError>;
    fn poll(self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Self::Output> {
        let mut s = self.0.lock().unwrap();
        if let Some(v) = s.value.take() { return Poll::Ready(Ok(Shares { shares: v })) }
        if s.dead { return Poll::Ready(Err(ShareConversionError::Other("cancelled"))) }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl<F: Field> Output for ShareFuture<F> {
    type Ok = Shares<F>;
    type Error = ShareConversionError;
    fn try_recv(&mut self) -> Result<Option<Shares<F>>, ShareConversionError> {
        let mut s = self.0.lock().unwrap();
        if let Some(v) = s.value.take() { return Ok(Some(Shares { shares: v })) }
        if s.dead { return Err(ShareConversionError::Other("cancelled")) }
        Ok(None)
    }
}

pub trait AdditiveToMultiplicative<F> {
    type Error: std::error::Error + Send + Sync + 'static;
    type Future: Output<Ok = Shares<F>, Error = ShareConversionError> + Unpin + Send + 'static;
    fn alloc(&mut self, n: usize) -> Result<(), Self::Error>;
    fn queue_to_multiplicative(&mut self, inputs: &[F]) -> Result<Self::Future, Self::Error>;
}
pub trait MultiplicativeToAdditive<F> {
    type Error: std::error::Error + Send + Sync + 'static;
    type Future: Output<Ok = Shares<F>, Error = ShareConversionError> + Unpin + Send + 'static;
    fn alloc(&mut self, n: usize) -> Result<(), Self::Error>;
    fn queue_to_additive(&mut self, inputs: &[F]) -> Result<Self::Future, Self::Error>;
}
pub trait ShareConvert<F>: AdditiveToMultiplicative<F> + MultiplicativeToAdditive<F> {}
impl<F, T: AdditiveToMultiplicative<F> + MultiplicativeToAdditive<F>> ShareConvert<F> for T {}

#[derive(Debug)]
struct Core<F> { a2m: usize, m2a: usize, queue: Vec<(bool, Vec<F>, Op<F>)> }
impl<F: Field> Core<F> {
    fn new() -> Self { Core { a2m: 0, m2a: 0, queue: vec![] } }
    fn queue(&mut self, to_mult: bool, inputs: &[F]) -> Result<ShareFuture<F>, ShareConversionError> {
        let left = if to_mult { &mut self.a2m } else { &mut self.m2a };
        if *left < inputs.len() { return Err(ShareConversionError::Other("insufficient allocation")) }
        *left -= inputs.len();
        let slot = Arc::new(Mutex::new(Slot { value: None, dead: false, waker: None }));
        self.queue.push((to_mult, inputs.to_vec(), Op(slot.clone())));
        Ok(ShareFuture(slot))
    }
}
fn done<F>(op: Op<F>, v: Vec<F>) { op.0.lock().unwrap().value = Some(v) }

/// What the sending side hands to the functionality.
#[derive(Debug, serde::Serialize, serde::Deserialize)]
pub struct ConvertMsg<F>(pub Vec<(bool, Vec<(F, F)>)>);

macro_rules! converter {
    ($name:ident, $sender:expr, [$($g:ident),*]) => {
        #[derive(Debug)]
        pub struct $name<$($g,)* F> { core: Core<F>, _pd: PhantomData<fn() -> ($($g,)*)> }
        impl<$($g,)* F: Field> $name<$($g,)* F> {
            fn make() -> Self { Self { core: Core::new(), _pd: PhantomData } }
        }
        impl<$($g,)* F: Field> AdditiveToMultiplicative<F> for $name<$($g,)* F> {
            type Error = ShareConversionError;
            type Future = ShareFuture<F>;
            fn alloc(&mut self, n: usize) -> Result<(), ShareConversionError> { self.core.a2m += n; Ok(()) }
            fn queue_to_multiplicative(&mut self, i: &[F]) -> Result<ShareFuture<F>, ShareConversionError> { self.core.queue(true, i) }
        }
        impl<$($g,)* F: Field> MultiplicativeToAdditive<F> for $name<$($g,)* F> {
            type Error = ShareConversionError;
            type Future = ShareFuture<F>;
            fn alloc(&mut self, n: usize) -> Result<(), ShareConversionError> { self.core.m2a += n; Ok(()) }
            fn queue_to_additive(&mut self, i: &[F]) -> Result<ShareFuture<F>, ShareConversionError> { self.core.queue(false, i) }
        }
        #[async_trait]
        impl<$($g,)* F: Field> Flush for $name<$($g,)* F> {
            type Error = ShareConversionError;
            fn wants_flush(&self) -> bool { !self.core.queue.is_empty() }
            async fn flush(&mut self, ctx: &mut Context) -> Result<(), ShareConversionError> {
                if self.core.queue.is_empty() { return Ok(()) }
                let queue = std::mem::take(&mut self.core.queue);
                if $sender { send(queue, ctx).await } else { recv(queue, ctx).await }
            }
        }
    };
}
async fn send<F: Field>(queue: Vec<(bool, Vec<F>, Op<F>)>, ctx: &mut Context) -> Result<(), ShareConversionError> {
    use serio::SinkExt;
    let (mut msg, mut outs) = (vec![], vec![]);
    for (to_mult, inputs, op) in queue {
        let mut rng = rand::rng();
        let out: Vec<F> = inputs.iter().map(|_| loop {
            let r = F::rand(&mut rng);
            if r != F::zero() { break r }
        }).collect();
        msg.push((to_mult, inputs.into_iter().zip(out.iter().copied()).collect()));
        outs.push((op, out));
    }
    ctx.io_mut().send(ConvertMsg(msg)).await?;
    for (op, out) in outs { done(op, out) }
    Ok(())
}
async fn recv<F: Field>(queue: Vec<(bool, Vec<F>, Op<F>)>, ctx: &mut Context) -> Result<(), ShareConversionError> {
    use serio::stream::IoStreamExt;
    let ConvertMsg::<F>(msg) = ctx.io_mut().expect_next().await?;
    if msg.len() != queue.len() { return Err(ShareConversionError::Other("queue length mismatch")) }
    for ((to_mult, inputs, op), (peer_mult, peer)) in queue.into_iter().zip(msg) {
        if to_mult != peer_mult || inputs.len() != peer.len() { return Err(ShareConversionError::Other("queue mismatch")) }
        let out = inputs.into_iter().zip(peer).map(|(x, (px, po))| {
            if to_mult { (x + px) * po.inverse().unwrap_or_else(F::zero) } else { x * px - po }
        }).collect();
        done(op, out);
    }
    Ok(())
}
converter!(ShareConversionSender, true, [T]);
converter!(ShareConversionReceiver, false, [T]);
impl<T, F: Field> ShareConversionSender<T, F> { pub fn new(_ole: T) -> Self { Self::make() } }
impl<T, F: Field> ShareConversionReceiver<T, F> { pub fn new(_ole: T) -> Self { Self::make() } }

pub mod ideal {
    use super::*;
    converter!(IdealShareConvertSender, true, []);
    converter!(IdealShareConvertReceiver, false, []);
    pub fn ideal_share_convert<F: Field>(_seed: crate::Block) -> (IdealShareConvertSender<F>, IdealShareConvertReceiver<F>) {
        (IdealShareConvertSender::make(), IdealShareConvertReceiver::make())
    }
}
