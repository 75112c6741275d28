//! In-memory duplex streams with direct buffer access, as `futures-plex`
//! provides them.  A simulation stand-in, see /verif/DESIGN.md.
use futures::{AsyncRead, AsyncWrite};
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Waker};

const CHUNK: usize = 256 * 1024;

#[derive(Debug)]
struct Plex {
    buf: Vec<u8>,
    start: usize,
    end: usize,
    cap: usize,
    write_closed: bool,
    read_closed: bool,
    reader: Option<Waker>,
    writer: Option<Waker>,
}
impl Plex {
    fn new(cap: usize) -> Self {
        Plex { buf: vec![], start: 0, end: 0, cap, write_closed: false, read_closed: false, reader: None, writer: None }
    }
    fn len(&self) -> usize { self.end - self.start }
    fn consume(&mut self, n: usize) {
        assert!(n <= self.len(), "advanced past the end of the buffer");
        self.start += n;
        if self.start == self.end { self.start = 0; self.end = 0 }
        if n > 0 { if let Some(w) = self.writer.take() { w.wake() } }
    }
    fn spare(&mut self) -> &mut [u8] {
        if self.start > 0 {
            self.buf.copy_within(self.start..self.end, 0);
            self.end -= self.start;
            self.start = 0;
        }
        let want = (self.cap - self.end).min(CHUNK);
        if self.buf.len() < self.end + want { self.buf.resize(self.end + want, 0) }
        let e = self.end;
        &mut self.buf[e..e + want]
    }
    fn produce(&mut self, n: usize) {
        self.end += n;
        assert!(self.end <= self.cap && self.end <= self.buf.len(), "advanced past the capacity of the buffer");
        if n > 0 { if let Some(w) = self.reader.take() { w.wake() } }
    }
    fn poll_data(&mut self, cx: &mut Context<'_>) -> Poll<bool> {
        if self.len() == 0 && !self.write_closed {
            self.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(self.len() > 0)
    }
    fn poll_room(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.read_closed || self.write_closed {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if self.len() >= self.cap {
            self.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn close_write(&mut self) {
        self.write_closed = true;
        if let Some(w) = self.reader.take() { w.wake() }
    }
}

#[derive(Debug)]
pub struct DuplexStream { rx: Arc<Mutex<Plex>>, tx: Arc<Mutex<Plex>> }

pub fn duplex(cap: usize) -> (DuplexStream, DuplexStream) {
    let (a, b) = (Arc::new(Mutex::new(Plex::new(cap))), Arc::new(Mutex::new(Plex::new(cap))));
    (DuplexStream { rx: a.clone(), tx: b.clone() }, DuplexStream { rx: b, tx: a })
}
impl Drop for DuplexStream {
    fn drop(&mut self) {
        self.tx.lock().unwrap().close_write();
        let mut r = self.rx.lock().unwrap();
        r.read_closed = true;
        if let Some(w) = r.writer.take() { w.wake() }
    }
}

pub struct ReadGuard<'a>(MutexGuard<'a, Plex>);
impl ReadGuard<'_> {
    /// The buffered bytes; empty once the writer has closed.
    pub fn poll_get(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        match self.0.poll_data(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(_) => Poll::Ready(Ok(&self.0.buf[self.0.start..self.0.end])),
        }
    }
    pub fn advance(&mut self, n: usize) { self.0.consume(n) }
}
pub struct WriteGuard<'a>(MutexGuard<'a, Plex>);
impl WriteGuard<'_> {
    pub fn poll_mut(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&mut [u8]>> {
        match self.0.poll_room(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(())) => Poll::Ready(Ok(self.0.spare())),
        }
    }
    pub fn advance_mut(&mut self, n: usize) { self.0.produce(n) }
}
impl DuplexStream {
    pub fn poll_lock_read<'a>(self: Pin<&'a mut Self>, _cx: &mut Context<'_>) -> Poll<ReadGuard<'a>> {
        Poll::Ready(ReadGuard(self.get_mut().rx.lock().unwrap()))
    }
    pub fn poll_lock_write<'a>(self: Pin<&'a mut Self>, _cx: &mut Context<'_>) -> Poll<WriteGuard<'a>> {
        Poll::Ready(WriteGuard(self.get_mut().tx.lock().unwrap()))
    }
    /// Reads from `reader` into this stream's write half.
    pub fn poll_write_from<R: AsyncRead + ?Sized>(&mut self, cx: &mut Context<'_>, reader: Pin<&mut R>) -> Poll<io::Result<usize>> {
        let mut t = self.tx.lock().unwrap();
        match t.poll_room(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(r) => r?,
        }
        let n = match reader.poll_read(cx, t.spare()) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(r) => r?,
        };
        t.produce(n);
        Poll::Ready(Ok(n))
    }
    /// Writes what this stream's read half holds to `writer`.
    pub fn poll_read_to<W: AsyncWrite + ?Sized>(&mut self, cx: &mut Context<'_>, mut writer: Pin<&mut W>) -> Poll<io::Result<usize>> {
        let mut r = self.rx.lock().unwrap();
        match r.poll_data(cx) {
            Poll::Pending => {
                if let Poll::Ready(Err(e)) = writer.poll_flush(cx) { return Poll::Ready(Err(e)) }
                return Poll::Pending;
            }
            Poll::Ready(false) => return Poll::Ready(Ok(0)),
            Poll::Ready(true) => {}
        }
        let (s, e) = (r.start, r.end);
        let mut total = 0;
        let mut at = s;
        while at < e {
            match writer.as_mut().poll_write(cx, &r.buf[at..e]) {
                Poll::Pending => break,
                Poll::Ready(Err(err)) => { r.consume(total); return Poll::Ready(Err(err)) }
                Poll::Ready(Ok(0)) => { r.consume(total); return Poll::Ready(Err(io::ErrorKind::WriteZero.into())) }
                Poll::Ready(Ok(n)) => { at += n; total += n }
            }
        }
        r.consume(total);
        if let Poll::Ready(Err(e)) = writer.as_mut().poll_flush(cx) { return Poll::Ready(Err(e)) }
        if r.len() == 0 { let _ = r.poll_data(cx); }
        if total == 0 { Poll::Pending } else { Poll::Ready(Ok(total)) }
    }
}
impl AsyncRead for DuplexStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut r = self.rx.lock().unwrap();
        if let Poll::Pending = r.poll_data(cx) { return Poll::Pending }
        let n = buf.len().min(r.len());
        let s = r.start;
        buf[..n].copy_from_slice(&r.buf[s..s + n]);
        r.consume(n);
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for DuplexStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut t = self.tx.lock().unwrap();
        match t.poll_room(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(r) => r?,
        }
        let s = t.spare();
        let n = buf.len().min(s.len());
        s[..n].copy_from_slice(&buf[..n]);
        t.produce(n);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.tx.lock().unwrap().close_write();
        Poll::Ready(Ok(()))
    }
}
