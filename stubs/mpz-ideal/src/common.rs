//! Execution contexts over multiplexed, framed byte streams.
use async_trait::async_trait;
use futures::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use serde::{de::DeserializeOwned, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::Poll;

pub mod io {
    pub use super::Io;
}
pub mod mux {
    pub use super::Mux;
}
pub mod future {
    pub use super::Output;
}
pub mod context {
    pub use super::test_st_context;
}

trait Stream: AsyncRead + AsyncWrite + Send + Unpin {}
impl<T: AsyncRead + AsyncWrite + Send + Unpin> Stream for T {}

/// Length-prefixed bincode messages over a byte stream.
pub struct Io { stream: Box<dyn Stream> }
impl std::fmt::Debug for Io {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Io") }
}
const MAX_FRAME: usize = 1 << 28;
impl Io {
    pub fn from_io<T: AsyncRead + AsyncWrite + Send + Unpin + 'static>(io: T) -> Self { Io { stream: Box::new(io) } }
}
fn invalid(e: impl Into<Box<dyn std::error::Error + Send + Sync>>) -> std::io::Error {
    std::io::Error::new(std::io::ErrorKind::InvalidData, e)
}
// The stream is only reached through `&mut self`.
unsafe impl Sync for Io {}
impl serio::Channel for Io {
    fn send_msg<'a, T: Serialize + Send + 'a>(&'a mut self, item: T) -> Pin<Box<dyn Future<Output = std::io::Result<()>> + Send + 'a>> {
        let bytes = bincode::serialize(&item).map_err(invalid);
        drop(item);
        Box::pin(async move {
            for f in crate::hooks::on_send(std::any::type_name::<T>(), bytes?) {
                self.stream.write_all(&(f.len() as u32).to_le_bytes()).await?;
                self.stream.write_all(&f).await?;
            }
            self.stream.flush().await
        })
    }
    fn recv_msg<'a, T: DeserializeOwned + Send + 'a>(&'a mut self) -> Pin<Box<dyn Future<Output = std::io::Result<T>> + Send + 'a>> {
        Box::pin(async move {
            let mut len = [0u8; 4];
            self.stream.read_exact(&mut len).await?;
            let len = u32::from_le_bytes(len) as usize;
            if len > MAX_FRAME { return Err(invalid("frame too large")) }
            let mut buf = vec![0u8; len];
            self.stream.read_exact(&mut buf).await?;
            bincode::deserialize(&buf).map_err(invalid)
        })
    }
}

pub trait Mux: std::fmt::Debug {
    fn open(&self, id: &[u8]) -> Result<Io, std::io::Error>;
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct ContextId(Vec<u8>);
impl ContextId {
    pub fn as_bytes(&self) -> &[u8] { &self.0 }
}

#[derive(Debug, thiserror::Error)]
#[error("context error: {0}")]
pub struct ContextError(#[from] std::io::Error);

#[derive(Debug)]
pub struct Context {
    id: ContextId,
    io: Io,
    mux: Option<Arc<dyn Mux + Send + Sync>>,
    children: Vec<Context>,
}
type Fut<'a, R, E> = Pin<Box<dyn Future<Output = Result<R, E>> + Send + 'a>>;

impl Context {
    pub fn id(&self) -> &ContextId { &self.id }
    pub fn io_mut(&mut self) -> &mut Io { &mut self.io }
    fn fork(&mut self, n: usize) -> Result<Vec<&mut Context>, ContextError> {
        while self.children.len() < n {
            let mut id = self.id.0.clone();
            id.push(self.children.len() as u8);
            let mux = self.mux.clone().ok_or_else(|| invalid("context has no multiplexer"))?;
            let io = mux.open(&id)?;
            self.children.push(Context { id: ContextId(id), io, mux: Some(mux), children: vec![] });
        }
        Ok(self.children.iter_mut().take(n).collect())
    }
    pub async fn try_join<A, B, RA, RB, E>(&mut self, a: A, b: B) -> Result<Result<(RA, RB), E>, ContextError>
    where
        A: for<'a> FnOnce(&'a mut Context) -> Fut<'a, RA, E> + Send,
        B: for<'a> FnOnce(&'a mut Context) -> Fut<'a, RB, E> + Send,
        RA: Send, RB: Send, E: Send,
    {
        let mut c = self.fork(2)?.into_iter();
        let (ca, cb) = (c.next().unwrap(), c.next().unwrap());
        let (fa, fb) = (a(ca), b(cb));
        Ok(join3(fa, fb, Box::pin(async { Ok(()) })).await.map(|(a, b, _)| (a, b)))
    }
    pub async fn try_join3<A, B, C, RA, RB, RC, E>(&mut self, a: A, b: B, c: C) -> Result<Result<(RA, RB, RC), E>, ContextError>
    where
        A: for<'a> FnOnce(&'a mut Context) -> Fut<'a, RA, E> + Send,
        B: for<'a> FnOnce(&'a mut Context) -> Fut<'a, RB, E> + Send,
        C: for<'a> FnOnce(&'a mut Context) -> Fut<'a, RC, E> + Send,
        RA: Send, RB: Send, RC: Send, E: Send,
    {
        let mut k = self.fork(3)?.into_iter();
        let (ca, cb, cc) = (k.next().unwrap(), k.next().unwrap(), k.next().unwrap());
        Ok(join3(a(ca), b(cb), c(cc)).await)
    }
}

/// Polls the branches in an order the simulator picks, as worker threads
/// would run them in any order.
async fn join3<RA, RB, RC, E>(mut a: Fut<'_, RA, E>, mut b: Fut<'_, RB, E>, mut c: Fut<'_, RC, E>) -> Result<(RA, RB, RC), E> {
    let (mut ra, mut rb, mut rc) = (None, None, None);
    std::future::poll_fn(move |cx| {
        let first = crate::hooks::choose(3);
        let rev = crate::hooks::choose(2) == 1;
        for k in 0..3 {
            match (first + if rev { 3 - k } else { k }) % 3 {
                0 => if ra.is_none() { if let Poll::Ready(r) = a.as_mut().poll(cx) { match r { Ok(r) => ra = Some(r), Err(e) => return Poll::Ready(Err(e)) } } },
                1 => if rb.is_none() { if let Poll::Ready(r) = b.as_mut().poll(cx) { match r { Ok(r) => rb = Some(r), Err(e) => return Poll::Ready(Err(e)) } } },
                _ => if rc.is_none() { if let Poll::Ready(r) = c.as_mut().poll(cx) { match r { Ok(r) => rc = Some(r), Err(e) => return Poll::Ready(Err(e)) } } },
            }
        }
        if ra.is_some() && rb.is_some() && rc.is_some() {
            Poll::Ready(Ok((ra.take().unwrap(), rb.take().unwrap(), rc.take().unwrap())))
        } else { Poll::Pending }
    })
    .await
}

#[derive(Debug)]
pub struct Executor { mux: Arc<dyn Mux + Send + Sync>, next: u32 }
#[derive(Debug, Default)]
pub struct ExecutorBuilder;
impl Executor {
    pub fn builder() -> ExecutorBuilder { ExecutorBuilder }
    pub fn new_context(&mut self) -> Result<Context, ContextError> {
        let id = self.next.to_be_bytes().to_vec();
        self.next += 1;
        let io = self.mux.open(&id)?;
        Ok(Context { id: ContextId(id), io, mux: Some(self.mux.clone()), children: vec![] })
    }
}
impl ExecutorBuilder {
    pub fn num_threads(self, _n: usize) -> Self { self }
    pub fn spawn<F>(self, _f: F) -> Self { self }
    pub fn build<M: Mux + Send + Sync + 'static>(self, mux: M) -> Executor { Executor { mux: Arc::new(mux), next: 0 } }
}

#[async_trait]
pub trait Flush {
    type Error: std::error::Error + Send + Sync + 'static;
    fn wants_flush(&self) -> bool;
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), Self::Error>;
}
#[async_trait]
pub trait Task {
    type Output;
    async fn run(self, ctx: &mut Context) -> Self::Output;
    async fn run_boxed(self: Box<Self>, ctx: &mut Context) -> Self::Output;
}

/// A future whose value may be taken as soon as it is there.
pub trait Output: Future<Output = Result<Self::Ok, Self::Error>> {
    type Ok;
    type Error;
    fn try_recv(&mut self) -> Result<Option<Self::Ok>, Self::Error>;
}

/// A pair of connected contexts over in-memory streams.
pub fn test_st_context(_buf: usize) -> (Context, Context) {
    #[derive(Debug)]
    struct Pairs(Arc<std::sync::Mutex<std::collections::BTreeMap<Vec<u8>, Pipe>>>);
    impl Mux for Pairs {
        fn open(&self, id: &[u8]) -> Result<Io, std::io::Error> {
            let mut m = self.0.lock().unwrap();
            Ok(Io::from_io(match m.remove(id) {
                Some(p) => p,
                None => {
                    let (a, b) = pipe();
                    m.insert(id.to_vec(), b);
                    a
                }
            }))
        }
    }
    let map = Arc::new(std::sync::Mutex::new(Default::default()));
    let mut a = Executor::builder().build(Pairs(map.clone()));
    let mut b = Executor::builder().build(Pairs(map));
    (a.new_context().unwrap(), b.new_context().unwrap())
}
#[derive(Debug, Default)]
struct Half { buf: std::collections::VecDeque<u8>, closed: bool, waker: Option<std::task::Waker> }
#[derive(Debug)]
struct Pipe { rx: Arc<std::sync::Mutex<Half>>, tx: Arc<std::sync::Mutex<Half>> }
fn pipe() -> (Pipe, Pipe) {
    let (x, y) = (Arc::new(std::sync::Mutex::new(Half::default())), Arc::new(std::sync::Mutex::new(Half::default())));
    (Pipe { rx: x.clone(), tx: y.clone() }, Pipe { rx: y, tx: x })
}
impl Drop for Pipe {
    fn drop(&mut self) {
        let mut t = self.tx.lock().unwrap();
        t.closed = true;
        if let Some(w) = t.waker.take() { w.wake() }
    }
}
impl AsyncRead for Pipe {
    fn poll_read(self: Pin<&mut Self>, cx: &mut std::task::Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let mut r = self.rx.lock().unwrap();
        if r.buf.is_empty() {
            if r.closed { return Poll::Ready(Ok(0)) }
            r.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.len().min(r.buf.len());
        for b in buf[..n].iter_mut() { *b = r.buf.pop_front().unwrap() }
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Pipe {
    fn poll_write(self: Pin<&mut Self>, _cx: &mut std::task::Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        let mut t = self.tx.lock().unwrap();
        t.buf.extend(buf);
        if let Some(w) = t.waker.take() { w.wake() }
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut std::task::Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut std::task::Context<'_>) -> Poll<std::io::Result<()>> {
        let mut t = self.tx.lock().unwrap();
        t.closed = true;
        if let Some(w) = t.waker.take() { w.wake() }
        Poll::Ready(Ok(()))
    }
}
