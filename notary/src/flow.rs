//! A01: provers, a notary and verifiers as nodes of one simulation, talking
//! over a lossy datagram network, with crashes and restarts around durable
//! storage and unrelated clocks.
use crate::must;
use crate::world::*;
use simkit::exec::{Exec, Stop};
use simkit::{ensure, ev, violate, RunResult, Sim, Violation};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use tlsn_attestation::presentation::{Presentation, PresentationOutput};
use tlsn_attestation::request::Request;
use tlsn_attestation::signing::VerifyingKey;
use tlsn_attestation::{Attestation, CryptoProvider, Secrets};
use tlsn_core::transcript::{Direction, TranscriptCommitment};

// ---- network -------------------------------------------------------------
#[derive(Clone)]
pub struct Msg { pub from: usize, pub kind: u8, pub tag: u64, pub body: Vec<u8> }
#[derive(Default)]
struct Mbox { q: VecDeque<Msg>, w: Option<Waker> }
pub struct Net {
    sim: Sim,
    ex: Rc<Exec>,
    boxes: RefCell<Vec<Mbox>>,
    /// After this instant the network is reliable.
    calm_at: u64,
}
impl Net {
    fn deliver(self: &Rc<Self>, to: usize, m: Msg, delay: u64) {
        let n = self.clone();
        self.ex.at(delay, move || {
            let mut b = n.boxes.borrow_mut();
            b[to].q.push_back(m);
            if let Some(w) = b[to].w.take() { w.wake() }
        });
    }
    pub fn send(self: &Rc<Self>, to: usize, m: Msg) {
        let s = &self.sim;
        let calm = simkit::seam::now_ns() >= self.calm_at;
        if !calm && s.chance(1, 6) { s.fault("message_lost"); return; }
        let delay = |s: &Sim| match s.weighted(&[4, 3, 1]) { 0 => 1_000_000, 1 => s.range(1, 900) * 1_000_000, _ => { s.fault("message_delayed"); s.range(1, 20) * 1_000_000_000 } };
        if !calm && s.chance(1, 8) { s.fault("message_duplicated"); self.deliver(to, m.clone(), delay(s)); }
        let d = if calm { 1_000_000 } else { delay(s) };
        self.deliver(to, m, d);
    }
    pub fn clear(&self, node: usize) { self.boxes.borrow_mut()[node].q.clear() }
}
struct Recv { net: Rc<Net>, node: usize, t: simkit::exec::Sleep }
impl Future for Recv {
    type Output = Option<Msg>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Msg>> {
        {
            let mut b = self.net.boxes.borrow_mut();
            let m = &mut b[self.node];
            if let Some(x) = m.q.pop_front() { return Poll::Ready(Some(x)); }
            m.w = Some(cx.waker().clone());
        }
        match Pin::new(&mut self.t).poll(cx) { Poll::Ready(()) => Poll::Ready(None), Poll::Pending => Poll::Pending }
    }
}
fn recv(net: &Rc<Net>, node: usize, timeout_s: u64) -> Recv { Recv { net: net.clone(), node, t: net.ex.sleep(timeout_s * 1_000_000_000) } }

// ---- storage -------------------------------------------------------------
#[derive(Default)]
pub struct Disk { f: BTreeMap<String, Vec<u8>>, torn: bool }
pub type D = Rc<RefCell<Disk>>;

/// Both encodings applications use.
pub fn enc<T: serde::Serialize>(json: bool, v: &T) -> Vec<u8> {
    if json { serde_json::to_vec(v).expect("HARNESS-ERROR: json") } else { bincode::serialize(v).expect("HARNESS-ERROR: bincode") }
}
pub fn dec<T: serde::de::DeserializeOwned>(json: bool, b: &[u8]) -> Result<T, String> {
    if json { serde_json::from_slice(b).map_err(|e| e.to_string()) } else { bincode::deserialize(b).map_err(|e| e.to_string()) }
}

// ---- what a verifier must learn -------------------------------------------
#[derive(Clone, Default)]
pub struct Reveal { pub sent: Vec<bool>, pub recv: Vec<bool>, pub proof: bool, pub name: bool }

/// Draws what the prover reveals: a union of committed ranges that were
/// committed with one algorithm.
pub fn draw_reveal(sim: &Sim, s: &Session) -> Reveal {
    let alg = ALGS[sim.index(3)];
    let mut r = Reveal { sent: vec![false; s.sent.len()], recv: vec![false; s.recv.len()], proof: sim.weighted(&[6, 1]) == 0, name: sim.weighted(&[3, 1]) == 0 };
    if r.proof {
        for (d, i, a) in &s.commits {
            if *a != alg || sim.chance(1, 3) { continue; }
            let m = if *d == Direction::Sent { &mut r.sent } else { &mut r.recv };
            for k in idx_of(i) { m[k] = true }
        }
    }
    r
}

pub fn present(sim: &Sim, sec: &Secrets, att: &Attestation, r: &Reveal, p: &CryptoProvider) -> Result<Presentation, Violation> {
    let mut b = att.presentation_builder(p);
    if r.name { b.identity_proof(sec.identity_proof()); }
    if r.proof {
        let mut t = sec.transcript_proof_builder();
        for (d, m) in [(Direction::Sent, &r.sent), (Direction::Received, &r.recv)] {
            let set = from_mask(m);
            if sim.pick(2) == 0 { must!(t.reveal(&set, d), "reveal of committed data"); }
            else {
                for x in set.into_inner() {
                    if d == Direction::Sent { must!(t.reveal_sent(&rs(&[x])), "reveal of committed data"); } else { must!(t.reveal_recv(&rs(&[x])), "reveal of committed data"); }
                }
            }
        }
        b.transcript_proof(must!(t.build(), "transcript proof of committed data"));
    }
    Ok(must!(b.build(), "presentation"))
}

/// The verifier's output must be exactly the truth.
pub fn exact(out: &PresentationOutput, s: &Session, r: &Reveal, key: &VerifyingKey) -> RunResult {
    ensure!(out.connection_info == s.info, "connection-info", "verified connection info {:?}, the connection was {:?}", out.connection_info, s.info);
    ensure!(out.server_name == r.name.then(|| s.name.clone()), "server-name", "verified server name {:?} (server {:?}, proven: {})", out.server_name, s.name, r.name);
    let mut want: Vec<_> = s.req_ext.iter().chain(&s.notary_ext).map(|e| (e.id.clone(), e.value.clone())).collect();
    let mut got: Vec<_> = out.extensions.iter().map(|e| (e.id.clone(), e.value.clone())).collect();
    want.sort();
    got.sort();
    ensure!(want == got, "extensions", "verified extensions {got:?}, attested {want:?}");
    ensure!(out.attestation.body.verifying_key() == key, "verifying-key", "verified with {:?}, the notary's key is {key:?}", out.attestation.body.verifying_key());
    match &out.transcript {
        None => ensure!(!r.proof, "transcript-missing", "the presentation reveals a transcript but none was verified"),
        Some(t) => {
            ensure!(r.proof, "transcript-invented", "no transcript proof was presented, yet one was verified");
            for (n, m, data, auth, shown) in [("sent", &r.sent, &s.sent, t.sent_authed(), t.sent_unsafe()), ("received", &r.recv, &s.recv, t.received_authed(), t.received_unsafe())] {
                ensure!(shown.len() == data.len(), "transcript-length", "verified {n} length {} is not {}", shown.len(), data.len());
                ensure!(auth == &from_mask(m), "revealed-ranges", "authenticated {n} ranges {auth:?} are not the revealed {:?}", from_mask(m));
                for i in 0..data.len() {
                    let e = if m[i] { data[i] } else { 0 };
                    ensure!(shown[i] == e, if m[i] { "revealed-byte" } else { "unrevealed-byte" }, "{n} byte {i} verified as {:#04x}, expected {e:#04x} (revealed: {})", shown[i], m[i]);
                }
            }
        }
    }
    Ok(())
}

type Fail = Rc<RefCell<Option<Violation>>>;
fn fail(f: &Fail, v: Violation) { f.borrow_mut().get_or_insert(v); }

const REQ: u8 = 1;
const ATT: u8 = 2;
const PRES: u8 = 3;
const ACK: u8 = 4;

struct Shared {
    sim: Sim,
    sites: Rc<Vec<Site>>,
    sessions: Vec<Session>,
    notary_key: [Vec<u8>; 3],
    net: Rc<Net>,
    fail: Fail,
    json: bool,
    /// session -> disclosures
    reveals: Vec<Vec<Reveal>>,
    cfg: tlsn_attestation::AttestationConfig,
    calm_at: u64,
}
const NOTARY: usize = 0;
const VERIFIER: usize = 1;

/// What the notary witnessed of a session, as it stores it.
type Witness = (tlsn_core::connection::ConnectionInfo, tlsn_core::connection::ServerEphemKey, Vec<TranscriptCommitment>, Vec<(Vec<u8>, Vec<u8>)>);

async fn notary(c: Rc<Shared>, disk: D) {
    let p = provider(&c.sites, Some(&c.notary_key));
    loop {
        let Some(m) = recv(&c.net, NOTARY, 3600).await else { continue };
        if m.kind != REQ { continue; }
        let r: Result<(), Violation> = (|| {
            let req: Request = must!(dec(c.json, &m.body), "notary decodes an honest request");
            let w: Witness = { let d = disk.borrow(); must!(dec(c.json, &d.f[&format!("session{}", m.tag)]), "notary reloads its session record") };
            let mut b = must!(Attestation::builder(&c.cfg).accept_request(req), "notary accepts an honest request");
            b.connection_info(w.0).server_ephemeral_key(w.1).transcript_commitments(w.2);
            for (id, value) in w.3 { b.extension(tlsn_attestation::Extension { id, value }); }
            let a = must!(b.build(&p), "notary attests");
            ev!(c.sim, "notary attests session {} as {:?}", m.tag, a.header.id);
            c.net.send(m.from, Msg { from: NOTARY, kind: ATT, tag: m.tag, body: enc(c.json, &a) });
            Ok(())
        })();
        if let Err(v) = r { fail(&c.fail, v); }
    }
}

async fn verifier(c: Rc<Shared>) {
    let p = provider(&c.sites, None);
    let keys = notary_keys(&c.notary_key);
    loop {
        let Some(m) = recv(&c.net, VERIFIER, 3600).await else { continue };
        if m.kind != PRES { continue; }
        let (i, k) = ((m.tag >> 8) as usize, (m.tag & 0xff) as usize);
        let s = &c.sessions[i];
        let r: RunResult = (|| {
            let pr: Presentation = must!(dec(c.json, &m.body), "verifier decodes an honest presentation");
            let key = &keys[SIGS.iter().position(|a| *a == s.sig_alg).unwrap()];
            ensure!(pr.verifying_key() == key, "verifying-key", "the presentation names key {:?}, the notary's is {key:?}", pr.verifying_key());
            let out = must!(pr.verify(&p), "an honest presentation verifies");
            exact(&out, s, &c.reveals[i][k], key)?;
            c.sim.probe("presentation_verified");
            Ok(())
        })();
        if let Err(v) = r { fail(&c.fail, v); }
        c.net.send(m.from, Msg { from: VERIFIER, kind: ACK, tag: m.tag, body: vec![] });
    }
}

/// A prover. Everything it needs after a crash comes from its disk.
async fn prover(c: Rc<Shared>, node: usize, i: usize, disk: D) {
    let p = provider(&c.sites, None);
    let s = &c.sessions[i];
    let write = |name: &str, b: Vec<u8>| {
        let mut d = disk.borrow_mut();
        if simkit::seam::now_ns() < c.calm_at && c.sim.chance(1, 10) {
            c.sim.fault("torn_write");
            let n = c.sim.index(b.len());
            d.f.insert(name.into(), b[..n].to_vec());
            d.torn = true;
        } else { d.f.insert(name.into(), b); }
    };
    let load = |name: &str| disk.borrow().f.get(name).cloned();
    let r: RunResult = async {
        // Secrets are on disk since the session ended.
        let sec: Secrets = must!(dec(c.json, &load("secrets").expect("HARNESS-ERROR: secrets")), "prover reloads its secrets");
        let req: Request = must!(dec(c.json, &load("request").expect("HARNESS-ERROR: request")), "prover reloads its request");
        ensure!(sec.server_name() == &s.name && sec.transcript().sent() == s.sent && sec.transcript().received() == s.recv, "secrets-reload", "reloaded secrets differ from the session");
        let att: Attestation = loop {
            if let Some(b) = load("attestation") {
                match dec(c.json, &b) {
                    Ok(a) => break a,
                    Err(_) => { c.sim.probe("damaged_attestation_refetched"); disk.borrow_mut().f.remove("attestation"); }
                }
            }
            c.net.send(NOTARY, Msg { from: node, kind: REQ, tag: i as u64, body: load("request").unwrap() });
            let Some(m) = recv(&c.net, node, 3).await else { continue };
            if m.kind != ATT { continue; }
            let a: Attestation = must!(dec(c.json, &m.body), "prover decodes the attestation");
            must!(req.validate(&a, &p), "prover validates an honest attestation");
            write("attestation", m.body);
            if disk.borrow().torn { disk.borrow_mut().torn = false; continue; }
            break a;
        };
        for (k, r) in c.reveals[i].iter().enumerate() {
            let done = format!("done{k}");
            if load(&done).is_some() { continue; }
            let pr = present(&c.sim, &sec, &att, r, &p)?;
            loop {
                c.net.send(VERIFIER, Msg { from: node, kind: PRES, tag: (i as u64) << 8 | k as u64, body: enc(c.json, &pr) });
                match recv(&c.net, node, 5).await {
                    Some(m) if m.kind == ACK && m.tag == ((i as u64) << 8 | k as u64) => break,
                    _ => {}
                }
            }
            disk.borrow_mut().f.insert(done, vec![]);
        }
        Ok(())
    }.await;
    if let Err(v) = r { fail(&c.fail, v); }
}

pub fn a01(sim: &Sim) -> RunResult {
    let now = 1_750_000_000 + sim.pick(1_000_000);
    simkit::seam::set_epoch_s(now);
    let nsites = 1 + sim.weighted(&[3, 1]);
    let sites: Rc<Vec<Site>> = Rc::new((0..nsites).map(|_| Site::gen(sim, now)).collect());
    let nsess = 1 + sim.weighted(&[4, 2, 1]);
    let json = sim.chance(1, 3);
    let ex = Exec::new(sim);
    let calm_at = [0u64, 20, 60][sim.weighted(&[1, 3, 1])] * 1_000_000_000;
    let net = Rc::new(Net { sim: sim.clone(), ex: ex.clone(), boxes: RefCell::new((0..2 + nsess).map(|_| Mbox::default()).collect()), calm_at });
    let notary_disk: D = Default::default();
    let mut disks = vec![];
    let (mut sessions, mut reveals) = (vec![], vec![]);
    let plain = provider(&sites, None);
    for i in 0..nsess {
        let s = session(sim, &sites, sim.index(nsites), now + sim.pick(3600), true)?;
        let (req, sec) = request(&s, &plain)?;
        let d: D = Default::default();
        d.borrow_mut().f.insert("secrets".into(), enc(json, &sec));
        d.borrow_mut().f.insert("request".into(), enc(json, &req));
        disks.push(d);
        let w: Witness = (s.info.clone(), ephem(&s.hs), s.commitments.clone(), s.notary_ext.iter().map(|e| (e.id.clone(), e.value.clone())).collect());
        notary_disk.borrow_mut().f.insert(format!("session{i}"), enc(json, &w));
        reveals.push((0..1 + sim.pick(3)).map(|_| draw_reveal(sim, &s)).collect::<Vec<_>>());
        sim.fp(s.commits.len() as u64 + ((s.sig_alg.as_u8() as u64) << 8));
        sessions.push(s);
    }
    let c = Rc::new(Shared { sim: sim.clone(), sites, sessions, notary_key: keys(sim), net: net.clone(), fail: Default::default(), json, reveals, cfg: notary_config(true), calm_at });
    // Clocks: nobody agrees about the time.
    for n in 0..2 + nsess {
        if sim.chance(1, 3) {
            sim.fault("clock_skew");
            let y = sim.range(0, 40) as i64 - 20;
            ex.set_skew(n, (y * 365 * 86_400 + sim.pick(86_400) as i64) * 1_000_000_000);
        }
    }
    let mut tasks = vec![ex.spawn("notary", NOTARY, notary(c.clone(), notary_disk.clone())), ex.spawn("verifier", VERIFIER, verifier(c.clone()))];
    for i in 0..nsess { tasks.push(ex.spawn("prover", 2 + i, prover(c.clone(), 2 + i, i, disks[i].clone()))); }
    // Crashes happen while faults are on; each node restarts from its disk.
    let ids: RefCell<Vec<usize>> = RefCell::new(tasks.iter().map(|t| t.id()).collect());
    let crashes = if calm_at > 0 { sim.weighted(&[3, 2, 1, 1]) } else { 0 };
    let mut when: Vec<(u64, usize)> = (0..crashes).map(|_| (sim.pick(calm_at / 1_000_000) * 1_000_000, sim.index(2 + nsess))).collect();
    when.sort();
    let mut live = vec![];
    for (t, node) in when {
        // Run up to the crash.
        let flag = ex.spawn("crash", usize::MAX - 1, { let ex = ex.clone(); async move { let n = simkit::seam::now_ns(); ex.sleep(t.saturating_sub(n)).await } });
        ex.run(&[flag.id()], 100_000);
        let old = ids.borrow()[node];
        ex.kill(old);
        net.clear(node);
        sim.fault("crash_restart");
        ev!(sim, "node {node} crashes and restarts");
        let h = match node {
            NOTARY => ex.spawn("notary", NOTARY, notary(c.clone(), notary_disk.clone())),
            VERIFIER => ex.spawn("verifier", VERIFIER, verifier(c.clone())),
            n => ex.spawn("prover", n, prover(c.clone(), n, n - 2, disks[n - 2].clone())),
        };
        ids.borrow_mut()[node] = h.id();
        live.push(h);
    }
    let wait: Vec<usize> = ids.borrow()[2..].to_vec();
    let stop = ex.run(&wait, 50_000);
    let t = simkit::seam::now_ns();
    let f = c.fail.borrow_mut().take();
    ex.shutdown();
    if let Some(v) = f { return Err(v); }
    if stop != Stop::Done { violate!("no-progress", "the protocol did not finish ({stop:?}) although the network was reliable since {} s (now {} s)", calm_at / 1_000_000_000, t / 1_000_000_000); }
    sim.observe(t);
    sim.state(sim.fault_count().min(20) << 8 | nsess as u64);
    Ok(())
}
