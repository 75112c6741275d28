//! Simulated reliable byte streams (TCP-like) between nodes: latency,
//! reordering across links, short reads and writes, back-pressure, stalls
//! (partition and heal), half-close, and connection loss at any byte.
use crate::exec::Exec;
use crate::{ev, seam, Sim};
use futures_io::{AsyncRead, AsyncWrite};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Debug)]
pub struct LinkCfg {
    pub name: &'static str,
    /// Receive-window capacity in bytes (sent but unread).
    pub cap: usize,
    /// Latency bounds in ns.
    pub lat: (u64, u64),
    /// Percent chance that a write accepts only part of the buffer.
    pub short_write: u64,
    /// Percent chance that a read returns only part of what is there.
    pub short_read: u64,
    /// Percent chance that a ready read/write returns Pending once.
    pub hiccup: u64,
    /// Percent chance per segment of a long stall.
    pub stall: u64,
}
impl LinkCfg {
    /// Draws a configuration; choice 0 everywhere is a fast, quiet link.
    pub fn draw(sim: &Sim, name: &'static str) -> Self {
        let lat = [(0, 0), (1_000, 50_000), (100_000, 5_000_000), (1_000_000, 200_000_000)][sim.index(4)];
        LinkCfg {
            name,
            cap: [1 << 20, 1 << 14, 512, 37][sim.weighted(&[4, 3, 2, 1])],
            lat,
            short_write: [0, 20, 60][sim.weighted(&[3, 2, 1])],
            short_read: [0, 20, 60][sim.weighted(&[3, 2, 1])],
            hiccup: [0, 10, 40][sim.weighted(&[3, 2, 1])],
            stall: [0, 2][sim.weighted(&[3, 1])],
        }
    }
    pub fn quiet(name: &'static str) -> Self {
        LinkCfg { name, cap: 1 << 20, lat: (0, 0), short_write: 0, short_read: 0, hiccup: 0, stall: 0 }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cut { Open, Eof, Reset }

struct Pipe {
    sim: Sim,
    ex: Rc<Exec>,
    cfg: LinkCfg,
    rx: VecDeque<u8>,
    /// In flight (bytes not yet arrived).
    flying: usize,
    last_arrival: u64,
    held_until: u64,
    /// Total bytes accepted from the writer / handed to the reader.
    sent: u64,
    read: u64,
    /// Writer closed its half (arrives in order).
    fin_sent: bool,
    fin: bool,
    cut: Cut,
    /// Cut the link after this many bytes were accepted.
    cut_at: Option<(u64, Cut)>,
    reader: Option<Waker>,
    writer: Option<Waker>,
    reader_gone: bool,
    record: Option<Vec<u8>>,
}
impl Pipe {
    fn wake_r(&mut self) { if let Some(w) = self.reader.take() { w.wake() } }
    fn wake_w(&mut self) { if let Some(w) = self.writer.take() { w.wake() } }
    fn do_cut(&mut self, c: Cut) {
        if self.cut == Cut::Open { self.cut = c; }
        self.wake_r();
        self.wake_w();
    }
}
type P = Rc<RefCell<Pipe>>;

fn arrival(p: &mut Pipe) -> u64 {
    let (lo, hi) = p.cfg.lat;
    let mut d = if hi > lo { p.sim.range(lo, hi) } else { lo };
    if p.cfg.stall > 0 && p.sim.chance(p.cfg.stall, 100) {
        let s = p.sim.range(1, 20) * 1_000_000_000;
        d += s;
        p.sim.fault("net_stall");
    }
    if d > 0 { p.sim.fault("net_delay"); }
    let now = seam::now_ns();
    let t = (now + d).max(p.last_arrival).max(p.held_until);
    p.last_arrival = t;
    t - now
}

/// One end of a duplex link.
pub struct End {
    rx: P,
    tx: P,
    closed: bool,
}
/// Control handle used by the fault injector.
#[derive(Clone)]
pub struct Ctl { a2b: P, b2a: P }

pub fn pair(ex: &Rc<Exec>, cfg: LinkCfg) -> (End, End, Ctl) {
    let mk = || {
        Rc::new(RefCell::new(Pipe {
            sim: ex.sim().clone(), ex: ex.clone(), cfg: cfg.clone(), rx: VecDeque::new(), flying: 0, last_arrival: 0, held_until: 0,
            sent: 0, read: 0, fin_sent: false, fin: false, cut: Cut::Open, cut_at: None, reader: None, writer: None, reader_gone: false, record: None,
        }))
    };
    let (a2b, b2a) = (mk(), mk());
    (End { rx: b2a.clone(), tx: a2b.clone(), closed: false }, End { rx: a2b.clone(), tx: b2a.clone(), closed: false }, Ctl { a2b, b2a })
}

impl Ctl {
    /// Connection lost in both directions.
    pub fn cut(&self, c: Cut) {
        self.a2b.borrow_mut().do_cut(c);
        self.b2a.borrow_mut().do_cut(c);
    }
    /// Nothing arrives in either direction for `ns` (partition, then heal).
    pub fn stall(&self, ns: u64) {
        for p in [&self.a2b, &self.b2a] {
            let mut p = p.borrow_mut();
            p.held_until = p.held_until.max(seam::now_ns() + ns);
        }
    }
    /// Lose the connection once `n` bytes crossed in a direction.
    pub fn cut_after(&self, a_to_b: bool, n: u64, c: Cut) {
        (if a_to_b { &self.a2b } else { &self.b2a }).borrow_mut().cut_at = Some((n, c));
    }
    pub fn is_cut(&self) -> bool { self.a2b.borrow().cut != Cut::Open || self.b2a.borrow().cut != Cut::Open }
    pub fn sent(&self) -> (u64, u64) { (self.a2b.borrow().sent, self.b2a.borrow().sent) }
    pub fn record(&self) {
        self.a2b.borrow_mut().record = Some(vec![]);
        self.b2a.borrow_mut().record = Some(vec![]);
    }
    /// Bytes accepted so far (a to b, b to a), if recording.
    pub fn recorded(&self) -> (Vec<u8>, Vec<u8>) {
        (self.a2b.borrow().record.clone().unwrap_or_default(), self.b2a.borrow().record.clone().unwrap_or_default())
    }
}

fn gone(c: Cut) -> io::Error {
    io::Error::from(if c == Cut::Reset { io::ErrorKind::ConnectionReset } else { io::ErrorKind::BrokenPipe })
}

impl AsyncRead for End {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut p = self.rx.borrow_mut();
        if p.cut == Cut::Reset { return Poll::Ready(Err(gone(Cut::Reset))); }
        if buf.is_empty() { return Poll::Ready(Ok(0)); }
        if p.rx.is_empty() {
            if p.fin || p.cut == Cut::Eof { return Poll::Ready(Ok(0)); }
            p.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let h = p.cfg.hiccup;
        if h > 0 && p.sim.chance(h, 100) {
            p.sim.fault("read_hiccup");
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let max = buf.len().min(p.rx.len());
        let sr = p.cfg.short_read;
        let n = if sr > 0 && max > 1 && p.sim.chance(sr, 100) {
            p.sim.fault("short_read");
            p.sim.range(1, max as u64 - 1) as usize
        } else { max };
        for b in buf[..n].iter_mut() { *b = p.rx.pop_front().unwrap(); }
        p.read += n as u64;
        p.wake_w();
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for End {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let rc = self.tx.clone();
        let mut p = rc.borrow_mut();
        if p.cut != Cut::Open || p.reader_gone { return Poll::Ready(Err(gone(p.cut))); }
        if self.closed { return Poll::Ready(Err(gone(Cut::Eof))); }
        if buf.is_empty() { return Poll::Ready(Ok(0)); }
        let used = p.rx.len() + p.flying;
        if used >= p.cfg.cap {
            p.sim.fault("backpressure");
            p.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let h = p.cfg.hiccup;
        if h > 0 && p.sim.chance(h, 100) {
            p.sim.fault("write_hiccup");
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let max = buf.len().min(p.cfg.cap - used);
        let sw = p.cfg.short_write;
        let mut n = if sw > 0 && max > 1 && p.sim.chance(sw, 100) {
            p.sim.fault("short_write");
            p.sim.range(1, max as u64 - 1) as usize
        } else { max };
        let mut cut = None;
        if let Some((at, c)) = p.cut_at {
            if p.sent + n as u64 >= at { n = (at - p.sent) as usize; cut = Some(c); }
        }
        p.sent += n as u64;
        let data = buf[..n].to_vec();
        if let Some(r) = &mut p.record { r.extend_from_slice(&data); }
        if n > 0 {
            p.flying += n;
            let d = arrival(&mut p);
            let r2 = rc.clone();
            let name = p.cfg.name;
            let ex = p.ex.clone();
            ex.at(d, move || {
                let mut p = r2.borrow_mut();
                p.flying -= data.len();
                if p.cut == Cut::Reset { return; }
                ev!(p.sim, "net {name}: {} bytes arrive", data.len());
                p.rx.extend(data);
                p.wake_r();
            });
        }
        if let Some(c) = cut {
            p.sim.fault("connection_lost");
            ev!(p.sim, "net {}: connection lost ({c:?}) after {} bytes", p.cfg.name, p.sent);
            p.cut_at = None;
            // bytes in flight before a clean EOF still arrive; a reset drops them
            p.do_cut(c);
            drop(p);
            self.rx.borrow_mut().do_cut(c);
            if n == 0 { return Poll::Ready(Err(gone(c))); }
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let p = self.tx.borrow();
        if p.cut != Cut::Open { return Poll::Ready(Err(gone(p.cut))); }
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.closed = true;
        send_fin(&self.tx);
        Poll::Ready(Ok(()))
    }
}
fn send_fin(rc: &P) {
    let mut p = rc.borrow_mut();
    if p.fin_sent || p.cut != Cut::Open { return; }
    p.fin_sent = true;
    let d = arrival(&mut p);
    let r2 = rc.clone();
    let ex = p.ex.clone();
    ex.at(d, move || {
        let mut p = r2.borrow_mut();
        p.fin = true;
        p.wake_r();
    });
}
impl Drop for End {
    fn drop(&mut self) {
        if self.rx.try_borrow().is_err() || self.tx.try_borrow().is_err() { return; }
        send_fin(&self.tx);
        let mut p = self.rx.borrow_mut();
        p.reader_gone = true;
        p.wake_w();
    }
}
