//! A TLS record stream crossing a simulated, faulty byte link, received by the
//! real deframer (sync and async), joined and decoded by the real code.
use crate::wire::*;
use futures::io::AsyncRead;
use simkit::exec::Exec;
use simkit::{ensure, ev, violate, RunResult, Sim, Violation};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use tls_core::msgs::base::Payload;
use tls_core::msgs::codec::Codec;
use tls_core::msgs::deframer::MessageDeframer;
use tls_core::msgs::enums::{ContentType, ProtocolVersion};
use tls_core::msgs::fragmenter::MessageFragmenter;
use tls_core::msgs::handshake::*;
use tls_core::msgs::hsjoiner::HandshakeJoiner;
use tls_core::msgs::message::{Message, MessagePayload, OpaqueMessage, PlainMessage};

pub fn ct(t: u8) -> ContentType { ContentType::from(t) }
pub fn pv(v: u16) -> ProtocolVersion { ProtocolVersion::from(v) }
pub fn to_rec(m: &OpaqueMessage) -> Rec {
    Rec { typ: m.typ.get_u8(), ver: m.version.get_u16(), payload: m.payload.0.clone() }
}

/// What one read attempt of the receiver meets.
#[derive(Clone, Copy, Debug)]
enum Step {
    Give(usize),
    Err(io::ErrorKind),
    Eof,
}

/// The receiving end of the link.
pub struct Link {
    sim: Sim,
    data: Vec<u8>,
    pos: usize,
    bounds: Vec<usize>,
    p_err: u64,
    p_pend: u64,
    mode: u64,
    last_offer: usize,
    reads: u64,
    /// The error the transport's last answer was, if it was one.
    last_err: Option<io::ErrorKind>,
}
impl Link {
    pub fn new(sim: &Sim, data: Vec<u8>, bounds: Vec<usize>) -> Self {
        let p_err = [0, 10, 25][sim.index(3)];
        let p_pend = [0, 10, 40][sim.index(3)];
        let mode = sim.pick(5);
        Link { sim: sim.clone(), data, pos: 0, bounds, p_err, p_pend, mode, last_offer: usize::MAX, reads: 0, last_err: None }
    }
    fn next(&mut self, room: usize) -> Step {
        self.reads += 1;
        self.last_offer = room;
        self.last_err = None;
        let left = self.data.len() - self.pos;
        if left == 0 { return Step::Eof; }
        if room == 0 { return Step::Give(0); }
        if self.sim.chance(self.p_err, 100) {
            let k = [io::ErrorKind::Interrupted, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut][self.sim.index(3)];
            self.sim.fault(match k { io::ErrorKind::Interrupted => "read_interrupted", io::ErrorKind::WouldBlock => "read_would_block", _ => "read_timed_out" });
            self.last_err = Some(k);
            return Step::Err(k);
        }
        let max = room.min(left);
        let n = match self.mode {
            0 => max,
            1 => 1 + self.sim.pick(8.min(max as u64)) as usize,
            2 => self.sim.range(1, max as u64) as usize,
            3 => {
                // land near a record boundary
                let next = self.bounds.iter().copied().find(|b| *b > self.pos).unwrap_or(self.data.len());
                let t = next + 2 - self.sim.index(5);
                t.saturating_sub(self.pos).clamp(1, max)
            }
            _ => match self.sim.pick(4) {
                0 => max,
                1 => 1,
                2 => (self.sim.size(max as u64) as usize).max(1),
                _ => 5.min(max),
            },
        };
        if n < max { self.sim.fault("short_read"); }
        Step::Give(n)
    }
    fn take(&mut self, n: usize, buf: &mut [u8]) {
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
    }
}
impl io::Read for Link {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.next(buf.len()) {
            Step::Give(n) => {
                self.take(n, buf);
                Ok(n)
            }
            Step::Err(k) => {
                // A failed read may leave junk in the buffer.
                for b in buf.iter_mut().take(16) { *b = 0xEE; }
                Err(io::Error::from(k))
            }
            Step::Eof => Ok(0),
        }
    }
}
struct AsyncLink {
    link: Rc<RefCell<Link>>,
    pend: Option<Waker>,
    ex: Rc<Exec>,
}
impl AsyncRead for AsyncLink {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let link = self.link.clone();
        let mut l = link.borrow_mut();
        let pp = l.p_pend;
        let left = l.data.len() - l.pos;
        if left > 0 && l.sim.chance(pp, 100) {
            l.sim.fault("delivery_delayed");
            let w = cx.waker().clone();
            self.pend = Some(w.clone());
            let d = l.sim.range(1, 5_000_000);
            self.ex.at(d, move || w.wake());
            return Poll::Pending;
        }
        match l.next(buf.len()) {
            Step::Give(n) => {
                l.take(n, buf);
                Poll::Ready(Ok(n))
            }
            Step::Err(k) => Poll::Ready(Err(io::Error::from(k))),
            Step::Eof => Poll::Ready(Ok(0)),
        }
    }
}

/// Checks the receiver's state against the reference parse of what was
/// delivered so far.
struct Oracle {
    taken: Vec<Rec>,
}
impl Oracle {
    fn check(&mut self, d: &MessageDeframer, delivered: &[u8]) -> RunResult {
        let (exp, tail) = parse(delivered);
        let have = self.taken.len() + d.frames.len();
        ensure!(have == exp.len(), "frames-count", "after {} delivered bytes the receiver produced {} records, the stream holds {}", delivered.len(), have, exp.len());
        for (i, f) in d.frames.iter().enumerate() {
            let e = &exp[self.taken.len() + i];
            let g = to_rec(f);
            ensure!(&g == e, "frame-content", "record {} differs: got type {} version {:04x} len {}, sent type {} version {:04x} len {}", self.taken.len() + i, g.typ, g.ver, g.payload.len(), e.typ, e.ver, e.payload.len());
        }
        let bad = matches!(tail, Tail::Bad(_));
        ensure!(d.desynced == bad, "desync-flag", "desynced={} but the delivered stream is {} at record {}", d.desynced, if bad { "malformed" } else { "well formed" }, exp.len());
        let leftover = match tail { Tail::Partial(n) | Tail::Bad(n) => n };
        let pend = !d.frames.is_empty() || leftover > 0;
        ensure!(d.has_pending() == pend, "pending-flag", "has_pending()={} with {} untaken records and {} buffered bytes", d.has_pending(), d.frames.len(), leftover);
        Ok(())
    }
    fn pop(&mut self, d: &mut MessageDeframer) -> Option<OpaqueMessage> {
        let m = d.frames.pop_front()?;
        self.taken.push(to_rec(&m));
        Some(m)
    }
}

/// Delivers `stream` to a real deframer; returns the records taken.
pub fn deliver(sim: &Sim, stream: Vec<u8>, bounds: Vec<usize>) -> Result<(Vec<OpaqueMessage>, bool), Violation> {
    let asynch = sim.chance(1, 2);
    let p_pop = [100u64, 50, 0][sim.index(3)];
    let total = stream.len();
    let mut got = vec![];
    let mut d = MessageDeframer::new();
    let mut o = Oracle { taken: vec![] };
    let mut link = Link::new(sim, stream.clone(), bounds);
    let mut idle = 0u32;
    let mut budget = 40_000u64 + total as u64 * 2;
    if !asynch {
        ev!(sim, "sync receiver, {} bytes on the wire", total);
        loop {
            budget -= 1;
            ensure!(budget > 0, "no-progress", "receiver did not drain {} bytes", total);
            let before = link.pos;
            let r = d.read(&mut link);
            sim.step();
            let adv = link.pos - before;
            sim.fp(adv as u64 + 2);
            match r {
                Ok(n) => {
                    ensure!(n == adv, "read-count", "read reported {n} bytes, transport gave {adv}");
                    ensure!(n > 0 || link.last_err.is_none(), "read-swallowed", "read reported the end of the stream, the transport answered {:?}", link.last_err);
                }
                Err(e) => {
                    sim.fp(1);
                    ensure!(link.last_err == Some(e.kind()), "read-error", "read failed with {:?}, the transport answered {:?}", e.kind(), link.last_err);
                    ensure!(adv == 0, "read-count", "failed read consumed {adv} bytes ({e})");
                }
            }
            ev!(sim, "read -> +{adv} (total {}), {} frames queued, desynced={}", link.pos, d.frames.len(), d.desynced);
            o.check(&d, &stream[..link.pos])?;
            while !d.frames.is_empty() && sim.chance(p_pop, 100) {
                got.push(o.pop(&mut d).unwrap());
                o.check(&d, &stream[..link.pos])?;
            }
            if adv == 0 && link.pos < total && !d.desynced {
                ensure!(link.last_offer > 0, "no-progress", "receiver offers no room although {} bytes are undelivered and the stream is well formed", total - link.pos);
            }
            if adv == 0 && (link.pos == total || (d.desynced && link.last_offer == 0)) {
                idle += 1;
                if idle > 2 { break; }
            }
        }
    } else {
        ev!(sim, "async receiver, {} bytes on the wire", total);
        let ex = Exec::new(sim);
        let link = Rc::new(RefCell::new(link));
        let mut al = AsyncLink { link: link.clone(), pend: None, ex: ex.clone() };
        let cancel = sim.chance(1, 3);
        loop {
            budget -= 1;
            ensure!(budget > 0, "no-progress", "receiver did not drain {} bytes", total);
            let before = link.borrow().pos;
            // Drive one read future by hand so that it can be cancelled at
            // any suspension point.
            let w = Waker::noop();
            let mut cx = Context::from_waker(w);
            let mut r = None;
            {
                let mut fut = Box::pin(d.read_async(&mut al));
                let mut spins = 0;
                loop {
                    sim.step();
                    match fut.as_mut().poll(&mut cx) {
                        Poll::Ready(x) => { r = Some(x); break; }
                        Poll::Pending => {
                            simkit::seam::advance_ns(5_000_000);
                            sim.add_sim_ns(5_000_000);
                            spins += 1;
                            if cancel && sim.chance(1, 3) { sim.fault("read_cancelled"); break; }
                            ensure!(spins < 10_000, "no-progress", "async read never completes");
                        }
                    }
                }
            }
            let adv = link.borrow().pos - before;
            sim.fp(adv as u64 + 2);
            match r {
                Some(Ok(n)) => {
                    ensure!(n == adv, "read-count", "read reported {n} bytes, transport gave {adv}");
                    let le = link.borrow().last_err;
                    ensure!(n > 0 || le.is_none(), "read-swallowed", "read reported the end of the stream, the transport answered {le:?}");
                }
                Some(Err(e)) => {
                    ensure!(adv == 0, "read-count", "failed read consumed {adv} bytes ({e})");
                    let le = link.borrow().last_err;
                    ensure!(le == Some(e.kind()), "read-error", "read failed with {:?}, the transport answered {le:?}", e.kind());
                }
                None => ensure!(adv == 0, "read-count", "cancelled read consumed {adv} bytes"),
            }
            let pos = link.borrow().pos;
            ev!(sim, "async read -> +{adv} (total {pos}), {} frames queued, desynced={}", d.frames.len(), d.desynced);
            o.check(&d, &stream[..pos])?;
            while !d.frames.is_empty() && sim.chance(p_pop, 100) {
                got.push(o.pop(&mut d).unwrap());
                o.check(&d, &stream[..pos])?;
            }
            if adv == 0 && pos < total && !d.desynced && r_is_ok(&link) {
                ensure!(link.borrow().last_offer > 0, "no-progress", "receiver offers no room although {} bytes are undelivered and the stream is well formed", total - pos);
            }
            if adv == 0 && (pos == total || (d.desynced && link.borrow().last_offer == 0)) {
                idle += 1;
                if idle > 2 { break; }
            }
        }
        ex.shutdown();
    }
    while let Some(m) = o.pop(&mut d) { got.push(m); }
    if d.desynced { sim.probe("desynced"); }
    sim.state(simkit::rng::mix(got.len() as u64, d.desynced as u64));
    sim.observe(got.len() as u64);
    Ok((got, d.desynced))
}
fn r_is_ok(_l: &Rc<RefCell<Link>>) -> bool { true }

fn gen_rec(sim: &Sim) -> Rec {
    let typ = [23u8, 22, 21, 20, 24][sim.weighted(&[6, 4, 2, 1, 1])];
    let ver = [0x0303u16, 0x0301, 0x0302, 0x0304, 0x0300, 0x03ff, 0x0300 | sim.pick(256) as u16][sim.weighted(&[8, 2, 1, 1, 1, 1, 1])];
    let max = (MAX_REC_PAYLOAD - 1) as u64;
    let len = match sim.pick(8) {
        0 => sim.pick(4),
        1 | 2 | 3 => sim.size(600),
        4 | 5 => sim.size(max),
        6 => max - sim.pick(3),
        _ => [16384, 16385, 16383, 16384 + 29][sim.index(4)],
    };
    let len = if typ != 23 { len.max(1) } else { len };
    Rec { typ, ver, payload: sim.bytes(len as usize) }
}

fn gen_stream(sim: &Sim) -> (Vec<u8>, Vec<usize>, usize) {
    let mut b = vec![];
    let mut bounds = vec![];
    // A peer may flush hundreds of tiny records at once.
    let burst = sim.chance(1, 16);
    let n = if burst { sim.probe("burst_of_tiny_records"); 1 + sim.size(600) } else { sim.range(1, 12) };
    for _ in 0..n {
        let r = if burst { let l = 1 + sim.pick(3) as usize; Rec { typ: 23, ver: 0x0303, payload: vec![l as u8; l] } } else { gen_rec(sim) };
        ev!(sim, "send record type {} version {:04x} len {}", r.typ, r.ver, r.payload.len());
        // The real encoder must produce exactly this wire image.
        b.extend(OpaqueMessage { typ: ct(r.typ), version: pv(r.ver), payload: Payload::new(r.payload.clone()) }.encode());
        bounds.push(b.len());
        if b.len() > 120_000 { break; }
    }
    let n = bounds.len();
    (b, bounds, n)
}

/// R01: benign delivery only.
pub fn r01_benign(sim: &Sim) -> RunResult {
    let (b, bounds, n) = gen_stream(sim);
    sim.stat_nontrivial();
    let (got, des) = deliver(sim, b, bounds)?;
    ensure!(!des && got.len() == n, "frames-count", "{} records sent, {} received, desynced={}", n, got.len(), des);
    Ok(())
}

/// R01: the peer dies at an arbitrary byte.
pub fn r01_truncated(sim: &Sim) -> RunResult {
    let (mut b, bounds, _) = gen_stream(sim);
    let cut = match sim.pick(3) {
        0 => sim.index(b.len() + 1),
        1 => (bounds[sim.index(bounds.len())] + sim.index(6)).min(b.len()),
        _ => bounds[sim.index(bounds.len())].saturating_sub(sim.index(6)),
    };
    sim.fault("peer_crash_mid_stream");
    b.truncate(cut);
    let whole = bounds.iter().filter(|x| **x <= cut).count();
    let (got, des) = deliver(sim, b, bounds)?;
    ensure!(!des && got.len() == whole, "frames-count", "{whole} whole records before the crash, {} received, desynced={des}", got.len());
    Ok(())
}

pub fn corrupt(sim: &Sim, b: &mut Vec<u8>, bounds: &[usize]) {
    let k = sim.range(1, 3);
    for _ in 0..k {
        if b.is_empty() { return; }
        // Prefer headers: a fault inside a payload changes no framing.
        let at = if sim.chance(3, 4) {
            let mut starts = vec![0];
            starts.extend(bounds.iter().copied());
            (starts[sim.index(starts.len())] + sim.index(5)).min(b.len() - 1)
        } else {
            sim.index(b.len())
        };
        match sim.pick(6) {
            0 => { let bit = sim.index(8); b[at] ^= 1 << bit; sim.fault("bit_flip"); }
            1 => { b[at] = sim.pick(256) as u8; sim.fault("byte_overwrite"); }
            2 => { let e = (at + 1 + sim.size(40) as usize).min(b.len()); b.drain(at..e); sim.fault("segment_lost"); }
            3 => { let e = (at + 1 + sim.size(400) as usize).min(b.len()); let s = b[at..e].to_vec(); b.splice(at..at, s); sim.fault("segment_duplicated"); }
            4 => {
                let e = (at + 1 + sim.size(200) as usize).min(b.len());
                let f = (e + 1 + sim.size(200) as usize).min(b.len());
                if e < f { let mut s = b[e..f].to_vec(); s.extend_from_slice(&b[at..e]); b.splice(at..f, s); sim.fault("segments_reordered"); }
            }
            _ => { let l = sim.size(64) as usize + 1; let j = sim.bytes(l); b.splice(at..at, j); sim.fault("garbage_injected"); }
        }
    }
}

/// R02: corruption anywhere in the stream.
pub fn r02_corrupt(sim: &Sim) -> RunResult {
    let (mut b, bounds, _) = gen_stream(sim);
    corrupt(sim, &mut b, &bounds);
    deliver(sim, b, bounds)?;
    Ok(())
}

/// R02: one precisely malformed header between good records.
pub fn r02_malformed(sim: &Sim) -> RunResult {
    let (b, bounds, _) = gen_stream(sim);
    let cut = if sim.chance(1, 4) { 0 } else { bounds[sim.index(bounds.len())] };
    let mut s = b[..cut].to_vec();
    let k = sim.pick(4);
    let minor = [3, 1, 4, sim.pick(256)][sim.weighted(&[3, 1, 1, 1])] as u8;
    let hdr: Vec<u8> = match k {
        0 => { let t = [0u8, 19, 25, 128, 255, sim.pick(256) as u8][sim.index(6)]; let t = if (20..=24).contains(&t) { 25 } else { t }; vec![t, 3, 3, 0, 1 + sim.pick(9) as u8] }
        1 => { let v = [2u8, 4, 0, 255, 0x13, sim.pick(256) as u8][sim.index(6)]; let v = if v == 3 { 7 } else { v }; vec![20 + sim.pick(5) as u8, v, [sim.pick(6), sim.pick(256)][sim.index(2)] as u8, 0, 4] }
        2 => { let l = match sim.pick(4) { 0 => 18432u16, 1 => 18433, 2 => 65535, _ => 18432 + sim.pick(65536 - 18432) as u16 }; let mut v = vec![20 + sim.pick(5) as u8, 3, minor]; v.extend(l.to_be_bytes()); v }
        _ => vec![[22u8, 21, 20, 24][sim.index(4)], 3, minor, 0, 0],
    };
    sim.fault(["header_bad_type", "header_bad_version", "header_oversize", "header_zero_length"][k as usize]);
    let good = bounds.iter().filter(|x| **x <= cut).count();
    s.extend(hdr);
    // Followed by what would be perfectly good records.
    let tail = sim.size(400) as usize;
    s.extend(sim.bytes(tail));
    s.extend(&b[cut..]);
    let (got, des) = deliver(sim, s, bounds)?;
    ensure!(des, "desync-flag", "a malformed record (kind {k}) was not detected");
    ensure!(got.len() == good, "frames-count", "{good} records precede the malformed one, {} were delivered", got.len());
    Ok(())
}

/// Reads the first record of `b` with the real parser, without the deframer.
/// R03: fragmentation of messages of any size under any limit, across the link.
pub fn r03_fragment(sim: &Sim) -> RunResult {
    let mut limit: usize; // payload bytes per fragment now in force
    let pick_limit = |sim: &Sim| -> Option<usize> {
        match sim.pick(6) {
            0 => None,
            1 => Some(32 + sim.index(40)),
            2 => Some(16389 - sim.index(4)),
            3 => Some(sim.range(32, 16389) as usize),
            4 => Some([31, 0, 1, 5, 16390, 16391, 20000, 65535, usize::MAX][sim.index(9)]),
            _ => Some(512 + sim.index(5)),
        }
    };
    let first = loop {
        let l = pick_limit(sim);
        match MessageFragmenter::new(l) {
            Ok(f) => {
                ensure!(l.is_none_or(|x| (32..=16389).contains(&x)), "limit-accepted", "limit {l:?} is out of range but was accepted");
                limit = l.map_or(16384, |x| x - 5);
                break f;
            }
            Err(_) => {
                ensure!(l.is_some_and(|x| !(32..=16389).contains(&x)), "limit-refused", "limit {l:?} is in range but was refused");
                sim.probe("limit_refused");
            }
        }
    };
    let mut fr = first;
    let n = sim.range(1, 6);
    let mut stream = vec![];
    let mut bounds = vec![];
    let mut sent: Vec<(u8, u16, Vec<u8>, usize)> = vec![];
    for _ in 0..n {
        if sim.chance(1, 3) {
            // Renegotiate the limit mid-stream.
            let l = pick_limit(sim);
            let ok = l.is_none_or(|x| (32..=16389).contains(&x));
            let r = fr.set_max_fragment_size(l);
            ensure!(r.is_ok() == ok, "limit-accepted", "changing the limit to {l:?} gave ok={}", r.is_ok());
            if ok { limit = l.map_or(16384, |x| x - 5); } else { sim.probe("limit_change_refused"); }
            sim.fault("limit_changed_mid_stream");
        }
        let typ = [23u8, 22, 21][sim.index(3)];
        let ver = [0x0303u16, 0x0301][sim.index(2)];
        let len = match sim.pick(6) {
            0 => sim.size(64),
            1 => limit as u64 * sim.range(1, 4) + sim.pick(3) - 1,
            2 => sim.size(4 * limit as u64),
            3 => sim.size(70_000),
            4 => limit as u64 + sim.pick(3) - 1,
            _ => sim.size(3000),
        };
        let len = if typ == 23 { len } else { len.max(1) };
        let payload = sim.bytes((len as usize).min(limit * 2500));
        ev!(sim, "send message type {typ} len {} under limit {limit}", payload.len());
        let mut out: VecDeque<PlainMessage> = VecDeque::new();
        fr.fragment(PlainMessage { typ: ct(typ), version: pv(ver), payload: Payload::new(payload.clone()) }, &mut out);
        let mut bor = VecDeque::new();
        fr.fragment_borrow(ct(typ), pv(ver), &payload, &mut bor);
        let cat: Vec<u8> = out.iter().flat_map(|m| m.payload.0.iter().copied()).collect();
        ensure!(cat == payload, "fragment-content", "fragments do not concatenate to the message (len {} vs {})", cat.len(), payload.len());
        let catb: Vec<u8> = bor.iter().flat_map(|m| m.payload.iter().copied()).collect();
        ensure!(catb == payload, "fragment-content", "borrowed fragments do not concatenate to the message");
        let want = payload.len().div_ceil(limit);
        ensure!(bor.len() == want && out.len() == want.max(1), "fragment-count", "{} bytes under limit {} became {}/{} fragments", payload.len(), limit, out.len(), bor.len());
        for m in bor.iter() {
            ensure!(m.typ == ct(typ) && m.version == pv(ver) && m.payload.len() <= limit && !m.payload.is_empty(), "fragment-shape", "borrowed fragment: type {:?} version {:?} len {} under limit {limit}", m.typ, m.version, m.payload.len());
        }
        let cnt = out.len();
        for m in out {
            ensure!(m.typ == ct(typ) && m.version == pv(ver), "fragment-shape", "fragment has type {:?} version {:?}", m.typ, m.version);
            let w = m.into_unencrypted_opaque().encode();
            ensure!(w.len() <= limit + 5, "fragment-size", "fragment of {} wire bytes under limit {}", w.len(), limit + 5);
            stream.extend(w);
            bounds.push(stream.len());
        }
        sent.push((typ, ver, payload, cnt));
        if stream.len() > 150_000 { break; }
    }
    sim.stat_nontrivial();
    let (got, des) = deliver(sim, stream, bounds)?;
    ensure!(!des, "desync-flag", "the receiver desynchronised on fragments made by the sender");
    let mut it = got.into_iter();
    for (i, (typ, ver, payload, cnt)) in sent.iter().enumerate() {
        let mut acc = vec![];
        for _ in 0..*cnt {
            let Some(m) = it.next() else { violate!("message-lost", "message {i} incomplete at the receiver") };
            ensure!(m.typ.get_u8() == *typ && m.version.get_u16() == *ver, "message-meta", "message {i}: fragment arrived with type {:?} version {:?}", m.typ, m.version);
            acc.extend(m.payload.0);
        }
        ensure!(&acc == payload, "message-content", "message {i} differs at the receiver");
    }
    ensure!(it.next().is_none(), "message-extra", "more records arrived than were sent");
    Ok(())
}

/// Checks a decoded handshake message against the values that were encoded.
pub fn check_vals(m: &Message, h: &Hs) -> RunResult {
    let MessagePayload::Handshake(hp) = &m.payload else { violate!("hs-kind", "not a handshake message") };
    let enc = hp.get_encoding();
    ensure!(enc == h.raw, "hs-reencode", "a received handshake message of type {} re-encodes to different bytes ({} vs {} bytes)", h.raw[0], enc.len(), h.raw.len());
    ensure!(hp.typ.get_u8() == h.raw[0], "hs-type", "type {:?} for wire type {}", hp.typ, h.raw[0]);
    let p = &hp.payload;
    macro_rules! want { ($c:expr, $what:expr) => { ensure!($c, "hs-field", "decoded {} differs from what was sent: {:?}", $what, h.vals) } }
    match (&h.vals, p) {
        (Vals::HelloRequest, HandshakePayload::HelloRequest) | (Vals::Done, HandshakePayload::ServerHelloDone) => {}
        (Vals::Finished(d), HandshakePayload::Finished(x)) => want!(&x.0 == d, "Finished"),
        (Vals::Cke(d), HandshakePayload::ClientKeyExchange(x)) => want!(&x.0 == d, "ClientKeyExchange"),
        (Vals::Unknown(_, d), HandshakePayload::Unknown(x)) => want!(&x.0 == d, "unknown payload"),
        (Vals::Ocsp(d), HandshakePayload::CertificateStatus(x)) => want!(&x.ocsp_response.0 == d, "OCSP response"),
        (Vals::Ticket { lifetime, ticket }, HandshakePayload::NewSessionTicket(x)) => want!(x.lifetime_hint == *lifetime && &x.ticket.0 == ticket, "session ticket"),
        (Vals::CertVerify { scheme, sig }, HandshakePayload::CertificateVerify(x)) => want!(x.scheme.get_u16() == *scheme && &x.sig.0 == sig, "CertificateVerify"),
        (Vals::Certificate(v), HandshakePayload::Certificate(x)) => want!(x.len() == v.len() && x.iter().zip(v).all(|(a, b)| &a.0 == b), "certificate chain"),
        (Vals::CertReq { types, schemes, names }, HandshakePayload::CertificateRequest(x)) => {
            want!(x.certtypes.iter().map(|t| t.get_u8()).collect::<Vec<_>>() == *types, "certificate types");
            want!(x.sigschemes.iter().map(|t| t.get_u16()).collect::<Vec<_>>() == *schemes, "signature schemes");
            want!(x.canames.len() == names.len() && x.canames.iter().zip(names).all(|(a, b)| &a.0 == b), "CA names");
        }
        (Vals::Ske { group, public, scheme, sig }, HandshakePayload::ServerKeyExchange(x)) => {
            let Some(e) = x.unwrap_given_kxa(&KeyExchangeAlgorithm::ECDHE) else { violate!("hs-field", "ServerKeyExchange not decodable: {:?}", h.vals) };
            want!(e.params.curve_params.named_group.get_u16() == *group && &e.params.public.0 == public, "ECDH parameters");
            want!(e.dss.scheme.get_u16() == *scheme && &e.dss.sig.0 == sig, "key exchange signature");
            let mut pb = vec![];
            e.params.encode(&mut pb);
            want!(pb == h.raw[4..4 + pb.len()], "ECDH parameter bytes");
            let dec: Option<ServerECDHParams> = tls_core::suites::tls12::decode_ecdh_params(&pb);
            want!(dec.is_some_and(|d| &d.public.0 == public), "re-decoded ECDH parameters");
        }
        (Vals::ClientHello(c), HandshakePayload::ClientHello(x)) => {
            want!(x.client_version.get_u16() == c.version && x.random.0 == c.random, "ClientHello version/random");
            want!({ let mut e = vec![]; x.session_id.encode(&mut e); e[1..] == c.session[..] && x.session_id.len() == c.session.len() && x.session_id.is_empty() == c.session.is_empty() }, "session id");
            want!(x.cipher_suites.iter().map(|t| t.get_u16()).collect::<Vec<_>>() == c.suites, "cipher suites");
            want!(x.compression_methods.iter().map(|t| t.get_u8()).collect::<Vec<_>>() == c.comp, "compression methods");
            want!(x.extensions.iter().map(|t| t.get_type().get_u16()).collect::<Vec<_>>() == c.ext_types, "extension types");
            want!(!x.has_duplicate_extension(), "duplicate extension flag");
            want!(x.get_sni_extension().map(|s| s.get_single_hostname().map(|d| d.as_ref().to_string())) == c.sni.clone().map(Some), "server name");
            want!(x.get_sigalgs_extension().map(|s| s.iter().map(|t| t.get_u16()).collect::<Vec<_>>()) == c.sigalgs, "signature algorithms");
            want!(x.get_namedgroups_extension().map(|s| s.iter().map(|t| t.get_u16()).collect::<Vec<_>>()) == c.groups, "named groups");
            want!(x.get_alpn_extension().map(|s| s.to_slices().iter().map(|b| b.to_vec()).collect::<Vec<_>>()) == c.alpn, "ALPN list");
            want!(x.ems_support_offered() == c.ext_types.contains(&23), "extended master secret");
            want!(match x.get_ticket_extension() { Some(ClientExtension::SessionTicket(ClientSessionTicket::Request)) => c.ticket == Some(vec![]), Some(ClientExtension::SessionTicket(ClientSessionTicket::Offer(p))) => c.ticket.as_ref() == Some(&p.0), None => c.ticket.is_none(), _ => false }, "ticket");
        }
        (Vals::ServerHello(c), HandshakePayload::ServerHello(x)) => {
            want!(x.legacy_version.get_u16() == c.version && x.random.0 == c.random, "ServerHello version/random");
            want!({ let mut e = vec![]; x.session_id.encode(&mut e); e[1..] == c.session[..] }, "session id");
            want!(x.cipher_suite.get_u16() == c.suite && x.compression_method.get_u8() == c.comp, "selected suite");
            want!(x.extensions.iter().map(|t| t.get_type().get_u16()).collect::<Vec<_>>() == c.ext_types, "extension types");
            want!(!x.has_duplicate_extension(), "duplicate extension flag");
            want!(x.get_alpn_protocol().map(|b| b.to_vec()) == c.alpn, "ALPN choice");
            want!(x.ems_support_acked() == c.ems, "extended master secret");
            want!(x.get_sct_list().map(|l| l.iter().map(|s| s.0.clone()).collect::<Vec<_>>()) == c.scts, "SCT list");
        }
        (v, p) => violate!("hs-kind", "sent {v:?}, decoded as {p:?}"),
    }
    Ok(())
}

/// Splits `bytes` into handshake records in an arbitrary way and encodes them.
pub fn records_of(sim: &Sim, bytes: &[u8], ends: &[usize], ver: u16) -> (Vec<u8>, Vec<usize>) {
    records_cut(sim, bytes, ends, ver, sim.pick(5))
}
fn records_cut(sim: &Sim, bytes: &[u8], ends: &[usize], ver: u16, style: u64) -> (Vec<u8>, Vec<usize>) {
    let mut s = vec![];
    let mut bounds = vec![];
    let mut p = 0;
    while p < bytes.len() {
        let left = bytes.len() - p;
        let n = match style {
            0 => left.min(16384),
            1 => { let e = ends.iter().copied().find(|e| *e > p).unwrap(); (e - p).min(16384).min(left) }
            2 => 1 + sim.index(6.min(left)),
            3 => { let e = ends.iter().copied().find(|e| *e > p).unwrap(); (e + 2).saturating_sub(sim.index(5)).saturating_sub(p).clamp(1, left.min(16384)) }
            // records larger than a peer should send, among tiny ones
            5 => [1 + sim.index(5), left, MAX_REC_PAYLOAD - 1 - sim.index(2000), { let e = ends.iter().copied().find(|e| *e > p).unwrap(); e - p + sim.index(4) }][sim.index(4)].clamp(1, left.min(MAX_REC_PAYLOAD - 1)),
            _ => sim.size(left.min(16384) as u64).max(1) as usize,
        };
        // one byte at a time over a large message would only cost time
        let n = if style == 2 && bytes.len() > 3000 && p > 40 && left > 40 { (left - 20).min(16384) } else { n };
        let m = PlainMessage { typ: ct(22), version: pv(ver), payload: Payload::new(bytes[p..p + n].to_vec()) };
        s.extend(m.into_unencrypted_opaque().encode());
        bounds.push(s.len());
        p += n;
    }
    (s, bounds)
}

/// R04/R05 core: handshake flights over the link, however they are cut.
pub fn r04_flight(sim: &Sim) -> RunResult {
    let n = sim.range(1, 8);
    let big = sim.chance(1, 5);
    let mut hs: Vec<Hs> = (0..n).map(|_| gen_hs(sim, if big { 60_000 } else { 900 })).filter(|h| h.raw.len() - 4 <= 0xffff).collect();
    if sim.chance(1, 40) {
        // hundreds of the smallest messages, many to a record
        sim.probe("burst_of_tiny_messages");
        for _ in 0..sim.range(100, 600) {
            let at = if sim.chance(1, 20) { sim.index(hs.len() + 1) } else { hs.len() };
            let (t, vals) = match sim.pick(3) { 0 => (0, Vals::HelloRequest), 1 => (14, Vals::Done), _ => (20, Vals::Finished(vec![])) };
            hs.insert(at, Hs { raw: vec![t, 0, 0, 0], vals });
        }
    }
    if hs.is_empty() { return Ok(()); }
    let mut bytes = vec![];
    let mut ends = vec![];
    for h in &hs {
        ev!(sim, "send handshake type {} body {}", h.raw[0], h.raw.len() - 4);
        bytes.extend(&h.raw);
        ends.push(bytes.len());
    }
    let ver = 0x0303;
    // Crash of the sender at some byte of the flight.
    let cut = if sim.chance(1, 4) { sim.fault("peer_crash_mid_flight"); sim.index(bytes.len() + 1) } else { bytes.len() };
    let jumbo = big && sim.chance(1, 3);
    let (stream, bounds) = if jumbo { sim.probe("jumbo_records"); records_cut(sim, &bytes[..cut], &ends, ver, 5) } else { records_of(sim, &bytes[..cut], &ends, ver) };
    sim.stat_nontrivial();
    let (recs, des) = deliver(sim, stream, bounds)?;
    ensure!(!des, "desync-flag", "receiver desynchronised on a valid flight");
    let mut j = HandshakeJoiner::new();
    ensure!(j.is_empty(), "joiner-empty", "a fresh joiner is not empty");
    let mut fed = 0usize;
    let mut out = 0usize;
    let lazy = sim.chance(1, 3);
    for r in recs {
        let m = r.into_plain_message();
        ensure!(j.want_message(&m), "joiner-want", "handshake record not wanted");
        fed += m.payload.0.len();
        let before = ends.iter().filter(|e| **e <= fed - m.payload.0.len()).count();
        let now = ends.iter().filter(|e| **e <= fed).count();
        let too_big = m.payload.0.len() > 16384;
        let c = j.take_message(m);
        sim.step();
        sim.fp(c.map_or(99, |c| c as u64));
        // A receiver may refuse a record of more than 2^14 bytes; if it takes
        // it, it must take it right.
        if c.is_none() && too_big { return Ok(()); }
        ensure!(c == Some(now - before), "joiner-count", "after {fed} flight bytes the joiner reports {c:?} new messages, expected {}", now - before);
        let at_boundary = fed == 0 || ends.contains(&fed);
        ensure!(j.is_empty() == at_boundary, "joiner-empty", "is_empty()={} {} a message boundary", j.is_empty(), if at_boundary { "at" } else { "off" });
        if !lazy {
            while let Some(m) = j.frames.pop_front() {
                ensure!(m.version == pv(ver), "joiner-version", "version {:?}", m.version);
                check_vals(&m, &hs[out])?;
                out += 1;
            }
        }
    }
    while let Some(m) = j.frames.pop_front() {
        check_vals(&m, &hs[out])?;
        out += 1;
    }
    let want = ends.iter().filter(|e| **e <= cut).count();
    ensure!(out == want, "joiner-lost", "{want} whole messages crossed the link, {out} came out");
    // The joiner takes handshake records only.
    let foreign = PlainMessage { typ: ct([23u8, 21, 20][sim.index(3)]), version: pv(ver), payload: Payload::new(vec![1, 2]) };
    ensure!(!j.want_message(&foreign), "joiner-want", "a record of another type is wanted");
    Ok(())
}

/// R04: a message announcing more than 64 KiB is refused, as soon as its
/// header is complete, and without waiting for the body.
pub fn r04_oversize(sim: &Sim) -> RunResult {
    let n = sim.range(0, 3);
    let hs: Vec<Hs> = (0..n).map(|_| gen_hs(sim, 500)).collect();
    let mut bytes: Vec<u8> = hs.iter().flat_map(|h| h.raw.clone()).collect();
    let start = bytes.len();
    let over = sim.chance(2, 3);
    let len: u32 = if over { match sim.pick(3) { 0 => 0x10000, 1 => 0xff_ffff, _ => 0x10000 + sim.pick(0xfe_ffff) as u32 } } else { 0xffff - sim.pick(3) as u32 };
    bytes.push([16u8, 11, 99, 20][sim.index(4)]);
    // The limit holds for whatever type is announced.
    if over && sim.chance(3, 4) { *bytes.last_mut().unwrap() = sim.pick(256) as u8; }
    let opaque = *bytes.last().unwrap() != 11;
    bytes.extend(&len.to_be_bytes()[1..]);
    let body = if over { sim.size(20_000) as usize } else { len as usize };
    let mut b = sim.bytes(body);
    if !opaque && !over { let inner = (len - 3).to_be_bytes(); b[..3].copy_from_slice(&inner[1..]); let one = (len - 6).to_be_bytes(); b[3..6].copy_from_slice(&one[1..]); }
    bytes.extend(b);
    if over { sim.fault("oversize_handshake_announced"); } else { sim.probe("max_size_handshake"); sim.stat_nontrivial(); }
    let ends = vec![bytes.len()];
    let (stream, bounds) = records_of(sim, &bytes, &ends, 0x0303);
    let (recs, _) = deliver(sim, stream, bounds)?;
    let mut j = HandshakeJoiner::new();
    let mut fed = 0;
    let mut refused = false;
    for r in recs {
        let m = r.into_plain_message();
        fed += m.payload.0.len();
        let c = j.take_message(m);
        if over && fed >= start + 4 {
            ensure!(c.is_none(), "oversize-accepted", "a handshake message of announced length {len} was not refused once its header was complete");
            refused = true;
            break;
        }
        ensure!(c.is_some(), "oversize-refused", "refused at {fed} bytes although nothing exceeds the limit (announced {len})");
    }
    if over {
        ensure!(refused, "oversize-accepted", "an oversized message was never refused");
    } else {
        ensure!(j.is_empty() && j.frames.len() == hs.len() + 1, "joiner-lost", "a maximal handshake message was not delivered");
    }
    Ok(())
}

/// R05: corrupted flights: rejected, or decoded to exactly the delivered bytes.
pub fn r05_corrupt_flight(sim: &Sim) -> RunResult {
    let n = sim.range(1, 5);
    let mut hs: Vec<Hs> = (0..n).map(|_| gen_hs(sim, 600)).collect();
    // A peer that pads or shortens inner structures, with all enclosing
    // lengths consistent.
    let structured = sim.chance(1, 2);
    if structured {
        let i = sim.index(hs.len());
        resize_inside(sim, &mut hs[i].raw);
    }
    let mut bytes = vec![];
    let mut ends = vec![];
    for h in &hs { bytes.extend(&h.raw); ends.push(bytes.len()); }
    // Corrupt handshake bytes (framing of records stays intact).
    let k = if structured { sim.pick(2) } else { sim.range(1, 4) };
    for _ in 0..k {
        if bytes.is_empty() { break; }
        let base = [0usize].iter().chain(ends.iter()).copied().collect::<Vec<_>>();
        let at = if sim.chance(2, 3) { (base[sim.index(base.len())] + sim.size(60) as usize).min(bytes.len() - 1) } else { sim.index(bytes.len()) };
        match sim.pick(5) {
            0 => { bytes[at] ^= 1 << sim.index(8); sim.fault("bit_flip"); }
            1 => { bytes[at] = sim.pick(256) as u8; sim.fault("byte_overwrite"); }
            2 => { bytes[at] = bytes[at].wrapping_add([1u8, 255, 2][sim.index(3)]); sim.fault("length_nudged"); }
            3 => { let e = (at + 1 + sim.size(8) as usize).min(bytes.len()); bytes.drain(at..e); sim.fault("segment_lost"); }
            _ => { let e = (at + 1 + sim.size(30) as usize).min(bytes.len()); let s = bytes[at..e].to_vec(); bytes.splice(at..at, s); sim.fault("segment_duplicated"); }
        }
    }
    if bytes.is_empty() { return Ok(()); }
    let ends = vec![bytes.len()];
    let ver = [0x0303u16, 0x0301, 0x0304][sim.weighted(&[6, 1, 1])];
    let (stream, bounds) = records_of(sim, &bytes, &ends, ver);
    let (recs, _) = deliver(sim, stream, bounds)?;
    let mut j = HandshakeJoiner::new();
    let mut consumed = 0usize;
    let mut dead = false;
    for r in recs {
        let m = r.into_plain_message();
        match j.take_message(m) {
            None => { sim.probe("flight_rejected"); dead = true; }
            Some(_) => {}
        }
        while let Some(m) = j.frames.pop_front() {
            let MessagePayload::Handshake(hp) = &m.payload else { violate!("hs-kind", "not a handshake message") };
            let e = hp.get_encoding();
            // Extent on the wire, by the announced length.
            let l = u32::from_be_bytes([0, bytes[consumed + 1], bytes[consumed + 2], bytes[consumed + 3]]) as usize;
            let raw = &bytes[consumed..consumed + 4 + l];
            ensure!(e == raw || noncanonical_ok(raw, ver), "hs-reencode", "an accepted handshake message of type {} and {} bytes re-encodes to {} different bytes: {} / {}", raw[0], raw.len(), e.len(), hex(raw), hex(&e));
            consumed += 4 + l;
            sim.probe("corrupt_but_wellformed");
        }
        if dead { break; }
    }
    // The same bytes through the one-message decoder must not panic either.
    let t = [20u8, 21, 22, 23][sim.index(4)];
    let _ = Message::try_from(PlainMessage { typ: ct(t), version: pv(ver), payload: Payload::new(bytes.clone()) });
    Ok(())
}
/// Resizes one element of a handshake message and fixes the lengths around it.
fn resize_inside(sim: &Sim, m: &mut Vec<u8>) {
    let u16at = |m: &[u8], i: usize| u16::from_be_bytes([m[i], m[i + 1]]) as usize;
    // (offset, width) of every length field enclosing the edit
    let mut lens: Vec<(usize, usize)> = vec![(1, 3)];
    let mut end = m.len();
    if matches!(m[0], 1 | 2) && m.len() > 42 {
        let mut p = 4 + 2 + 32;
        p += 1 + m[p] as usize;
        if m[0] == 1 { p += 2 + u16at(m, p); p += 1 + m[p] as usize; } else { p += 3; }
        if p + 2 < m.len() {
            let block = p;
            p += 2;
            let mut exts = vec![];
            while p + 4 <= m.len() { exts.push(p); p += 4 + u16at(m, p + 2); }
            match sim.pick(4) {
                0 => {}
                1 => { lens.push((block, 2)); }
                _ => {
                    if exts.is_empty() { return; }
                    let e = exts[sim.index(exts.len())];
                    lens.push((block, 2));
                    lens.push((e + 2, 2));
                    end = e + 4 + u16at(m, e + 2);
                    // one list inside the extension, too
                    if end - e > 6 && u16at(m, e + 4) == end - e - 6 && sim.chance(1, 2) { lens.push((e + 4, 2)); }
                    else if end - e > 5 && m[e + 4] as usize == end - e - 5 && sim.chance(1, 2) { lens.push((e + 4, 1)); }
                }
            }
        }
    } else if m[0] == 11 && m.len() > 7 && sim.chance(1, 2) {
        lens.push((4, 3));
    }
    let low = lens.iter().map(|(o, w)| o + w).max().unwrap();
    let grow = sim.chance(1, 2);
    let d: i64 = if grow {
        let k = 1 + sim.size(6) as usize;
        let b = sim.bytes(k);
        m.splice(end..end, b);
        sim.fault("inner_structure_padded");
        k as i64
    } else {
        let k = 1 + sim.index(4);
        if end < low + k { return; }
        m.drain(end - k..end);
        sim.fault("inner_structure_shortened");
        -(k as i64)
    };
    for (o, w) in lens {
        let mut v: i64 = 0;
        for x in &m[o..o + w] { v = v << 8 | *x as i64; }
        v += d;
        for i in 0..w { m[o + i] = (v >> (8 * (w - 1 - i))) as u8; }
    }
}
fn noncanonical_ok(_raw: &[u8], _ver: u16) -> bool { false }
pub fn hex(b: &[u8]) -> String { b.iter().take(80).map(|x| format!("{x:02x}")).collect() }
