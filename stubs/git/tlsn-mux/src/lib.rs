//! Streams multiplexed over one connection, matched by identifier.  A
//! simulation stand-in for `tlsn-mux`, see /verif/DESIGN.md.
use futures::{AsyncRead, AsyncWrite};
use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

const OUT_CAP: usize = 1 << 20;
const FRAME: usize = 32 * 1024;
const DATA: u8 = 0;
const FIN: u8 = 1;
const GOAWAY: u8 = 2;

#[derive(Debug, Default, Clone)]
pub struct Config { keep_alive: bool, close_sync: bool }
impl Config {
    pub fn set_keep_alive(&mut self, v: bool) -> &mut Self { self.keep_alive = v; self }
    pub fn set_close_sync(&mut self, v: bool) -> &mut Self { self.close_sync = v; self }
}

#[derive(Debug, Clone)]
pub enum ConnectionError {
    Closed,
    DuplicateStream,
    Protocol(&'static str),
    Io(io::ErrorKind),
}
impl std::fmt::Display for ConnectionError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            ConnectionError::Closed => f.write_str("connection is closed"),
            ConnectionError::DuplicateStream => f.write_str("stream id is in use"),
            ConnectionError::Protocol(m) => write!(f, "protocol error: {m}"),
            ConnectionError::Io(k) => write!(f, "i/o error: {k}"),
        }
    }
}
impl std::error::Error for ConnectionError {}

#[derive(Debug, Default)]
struct Chan { rx: VecDeque<u8>, rx_closed: bool, tx_closed: bool, opened: bool, reader: Option<Waker> }
#[derive(Debug, Default)]
struct Shared {
    chans: BTreeMap<Vec<u8>, Chan>,
    out: VecDeque<u8>,
    conn: Option<Waker>,
    writers: Vec<Waker>,
    want_close: bool,
    goaway_sent: bool,
    goaway_rcvd: bool,
    dead: bool,
}
impl Shared {
    fn frame(&mut self, ty: u8, id: &[u8], data: &[u8]) {
        self.out.push_back(ty);
        self.out.push_back(id.len() as u8);
        self.out.extend(id);
        self.out.extend((data.len() as u32).to_le_bytes());
        self.out.extend(data);
        self.kick();
    }
    fn kick(&mut self) { if let Some(w) = self.conn.take() { w.wake() } }
    fn wake_all(&mut self) {
        for c in self.chans.values_mut() { if let Some(w) = c.reader.take() { w.wake() } }
        for w in self.writers.drain(..) { w.wake() }
    }
    fn end_reads(&mut self) {
        for c in self.chans.values_mut() { c.rx_closed = true }
        self.wake_all();
    }
}
type Sh = Arc<Mutex<Shared>>;

pub struct Connection<T> { io: T, inbuf: Vec<u8>, sh: Sh, eof: bool }
#[derive(Clone, Debug)]
pub struct Handle { sh: Sh }
#[derive(Debug)]
pub struct Stream { id: Vec<u8>, sh: Sh }

impl<T> std::fmt::Debug for Connection<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Connection") }
}
impl<T> Connection<T> {
    pub fn new(io: T, _cfg: Config) -> Self { Connection { io, inbuf: vec![], sh: Default::default(), eof: false } }
    pub fn handle(&self) -> Result<Handle, ConnectionError> { Ok(Handle { sh: self.sh.clone() }) }
    pub fn close(&mut self) {
        let mut s = self.sh.lock().unwrap();
        s.want_close = true;
        s.kick();
    }
    pub fn is_complete(&self) -> bool {
        let s = self.sh.lock().unwrap();
        s.goaway_sent && s.goaway_rcvd && s.out.is_empty()
    }
    pub fn try_into_io(self) -> Result<T, Self> {
        if !self.is_complete() { return Err(self) }
        // `Connection` implements `Drop`: move the stream out by hand.
        let this = std::mem::ManuallyDrop::new(self);
        unsafe {
            let io = std::ptr::read(&this.io);
            std::ptr::drop_in_place(&this.inbuf as *const _ as *mut Vec<u8>);
            let sh = std::ptr::read(&this.sh);
            sh.lock().unwrap().dead = true;
            sh.lock().unwrap().end_reads();
            Ok(io)
        }
    }
}
impl<T> Drop for Connection<T> {
    fn drop(&mut self) {
        let mut s = self.sh.lock().unwrap();
        s.dead = true;
        s.end_reads();
    }
}
impl<T: AsyncRead + AsyncWrite + Unpin> Connection<T> {
    pub fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), ConnectionError>> {
        match self.step(cx) {
            Poll::Ready(Err(e)) => {
                let mut s = self.sh.lock().unwrap();
                s.dead = true;
                s.end_reads();
                Poll::Ready(Err(e))
            }
            p => p,
        }
    }
    fn step(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), ConnectionError>> {
        loop {
            if self.is_complete() { return Poll::Ready(Ok(())) }
            let mut progress = false;
            {
                let mut s = self.sh.lock().unwrap();
                if s.dead { return Poll::Ready(Err(ConnectionError::Closed)) }
                s.conn = Some(cx.waker().clone());
                if (s.want_close || s.goaway_rcvd) && !s.goaway_sent {
                    s.goaway_sent = true;
                    s.frame(GOAWAY, &[], &[]);
                    s.conn = Some(cx.waker().clone());
                }
                while !s.out.is_empty() {
                    let n = match Pin::new(&mut self.io).poll_write(cx, s.out.as_slices().0) {
                        Poll::Pending => break,
                        Poll::Ready(Err(e)) => return Poll::Ready(Err(ConnectionError::Io(e.kind()))),
                        Poll::Ready(Ok(0)) => return Poll::Ready(Err(ConnectionError::Closed)),
                        Poll::Ready(Ok(n)) => n,
                    };
                    s.out.drain(..n);
                    progress = true;
                }
                if s.out.len() < OUT_CAP { for w in s.writers.drain(..) { w.wake() } }
            }
            if let Poll::Ready(Err(e)) = Pin::new(&mut self.io).poll_flush(cx) {
                return Poll::Ready(Err(ConnectionError::Io(e.kind())));
            }
            // Never beyond the frame being read: what follows the last one
            // belongs to whoever takes the stream back.
            while !self.eof && !self.sh.lock().unwrap().goaway_rcvd {
                let mut buf = [0u8; 16 * 1024];
                let n = self.missing()?.min(buf.len());
                match Pin::new(&mut self.io).poll_read(cx, &mut buf[..n]) {
                    Poll::Pending => break,
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(ConnectionError::Io(e.kind()))),
                    Poll::Ready(Ok(0)) => { self.eof = true; progress = true }
                    Poll::Ready(Ok(n)) => { self.inbuf.extend_from_slice(&buf[..n]); progress = true }
                }
                self.parse()?;
            }
            if self.eof && !self.sh.lock().unwrap().goaway_rcvd {
                return Poll::Ready(Err(ConnectionError::Closed));
            }
            if !progress { return if self.is_complete() { Poll::Ready(Ok(())) } else { Poll::Pending } }
        }
    }
    /// How many bytes the frame being read still needs.
    fn missing(&self) -> Result<usize, ConnectionError> {
        let b = &self.inbuf;
        if b.len() < 2 { return Ok(2 - b.len()) }
        let head = 6 + b[1] as usize;
        if b.len() < head { return Ok(head - b.len()) }
        let len = u32::from_le_bytes(b[head - 4..head].try_into().unwrap()) as usize;
        if len > FRAME { return Err(ConnectionError::Protocol("frame too large")) }
        Ok(head + len - b.len())
    }
    fn parse(&mut self) -> Result<(), ConnectionError> {
        let mut at = 0;
        let mut s = self.sh.lock().unwrap();
        loop {
            let b = &self.inbuf[at..];
            if b.len() < 2 { break }
            let idl = b[1] as usize;
            if b.len() < 6 + idl { break }
            let id = b[2..2 + idl].to_vec();
            let len = u32::from_le_bytes(b[2 + idl..6 + idl].try_into().unwrap()) as usize;
            if len > FRAME { return Err(ConnectionError::Protocol("frame too large")) }
            if b.len() < 6 + idl + len { break }
            let data = &b[6 + idl..6 + idl + len];
            match b[0] {
                DATA => {
                    let mut data = data.to_vec();
                    mpz_ideal::hooks::on_wire(&id, &mut data);
                    let c = s.chans.entry(id).or_default();
                    c.rx.extend(data);
                    if let Some(w) = c.reader.take() { w.wake() }
                }
                FIN => {
                    // Closing a stream is synchronised with the peer: it
                    // answers with its own FIN behind what it has sent.
                    let stop = s.dead || s.goaway_sent;
                    let c = s.chans.entry(id.clone()).or_default();
                    c.rx_closed = true;
                    if let Some(w) = c.reader.take() { w.wake() }
                    if !c.tx_closed {
                        c.tx_closed = true;
                        if !stop { s.frame(FIN, &id, &[]) }
                    }
                }
                GOAWAY => {
                    s.goaway_rcvd = true;
                    s.end_reads();
                }
                _ => return Err(ConnectionError::Protocol("unknown frame")),
            }
            at += 6 + idl + len;
        }
        drop(s);
        self.inbuf.drain(..at);
        Ok(())
    }
}
impl Handle {
    pub fn new_stream(&self, id: &[u8]) -> Result<Stream, ConnectionError> {
        let mut s = self.sh.lock().unwrap();
        if s.dead || s.goaway_rcvd || s.goaway_sent { return Err(ConnectionError::Closed) }
        let c = s.chans.entry(id.to_vec()).or_default();
        if c.opened { return Err(ConnectionError::DuplicateStream) }
        c.opened = true;
        Ok(Stream { id: id.to_vec(), sh: self.sh.clone() })
    }
}
impl AsyncRead for Stream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut s = self.sh.lock().unwrap();
        let c = s.chans.get_mut(&self.id).expect("stream is registered");
        if c.rx.is_empty() {
            if c.rx_closed { return Poll::Ready(Ok(0)) }
            c.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.len().min(c.rx.len());
        for b in buf[..n].iter_mut() { *b = c.rx.pop_front().unwrap() }
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Stream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.sh.lock().unwrap();
        let closed = s.chans[&self.id].tx_closed;
        if closed || s.dead || s.goaway_sent { return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())) }
        if s.out.len() >= OUT_CAP {
            s.writers.push(cx.waker().clone());
            s.kick();
            return Poll::Pending;
        }
        let n = buf.len().min(FRAME);
        s.frame(DATA, &self.id, &buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.fin();
        Poll::Ready(Ok(()))
    }
}
impl Stream {
    fn fin(&self) {
        let mut s = self.sh.lock().unwrap();
        let stop = s.dead || s.goaway_sent;
        let c = s.chans.get_mut(&self.id).expect("stream is registered");
        if !c.tx_closed {
            c.tx_closed = true;
            if !stop { s.frame(FIN, &self.id, &[]) }
        }
    }
}
impl Drop for Stream {
    fn drop(&mut self) { self.fin() }
}
