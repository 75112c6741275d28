//! A prover, a verifier and a TLS server in one simulated world: the real
//! `tlsn` parties over simulated links.
use crate::certs::{self, CertSpec, Key, Kt};
use crate::server::{self, Act};
use futures::io::{AsyncReadExt, AsyncWriteExt};
use futures::{AsyncRead, AsyncWrite};
use mpz_ideal::hooks;
use rangeset::set::RangeSet;
use simkit::exec::{Exec, Stop};
use simkit::net::{pair, Ctl, End, LinkCfg};
use simkit::{ev, Sim};
use std::cell::{Cell, RefCell};
use std::future::IntoFuture;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use tlsn::config::prove::ProveConfig;
use tlsn::config::prover::ProverConfig;
use tlsn::config::tls::TlsClientConfig;
use tlsn::config::tls_commit::mpc::{MpcTlsConfig, NetworkSetting};
use tlsn::config::tls_commit::proxy::ProxyTlsConfig;
use tlsn::config::verifier::VerifierConfig;
use tlsn::connection::ServerName;
use tlsn::hash::HashAlgId;
use tlsn::prover::Prover;
use tlsn::transcript::{Direction, TlsTranscript, Transcript, TranscriptCommitConfig, TranscriptCommitmentKind};
use tlsn::verifier::{Verifier, VerifierCommitStart};
use tlsn::webpki::{CertificateDer, PrivateKeyDer, RootCertStore};
use tlsn::{Session, SessionHandle};
use tlsn_core::{ProverOutput, VerifierOutput};

pub const PROVER: usize = 0;
pub const VERIFIER: usize = 1;
pub const SERVER: usize = 2;

/// The executor is single threaded, so an `End` never changes thread.
pub struct SendEnd(pub End);
unsafe impl Send for SendEnd {}
impl AsyncRead for SendEnd {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<std::io::Result<usize>> { Pin::new(&mut self.0).poll_read(cx, b) }
}
impl AsyncWrite for SendEnd {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> { Pin::new(&mut self.0).poll_write(cx, b) }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> { Pin::new(&mut self.0).poll_flush(cx) }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> { Pin::new(&mut self.0).poll_close(cx) }
}

/// What the prover's application does with its TLS connection.
#[derive(Clone, Debug)]
pub enum PAct { Write(Vec<u8>), ReadExact(usize), Close, ReadToEnd, Decrypt(bool), Sleep(u64) }

#[derive(Clone, Debug)]
pub struct MpcParams {
    pub max_sent: usize,
    pub max_sent_records: Option<usize>,
    pub max_recv: usize,
    pub max_recv_online: Option<usize>,
    pub max_recv_records_online: Option<usize>,
    pub defer: bool,
    pub latency: bool,
}

#[derive(Clone)]
pub struct Plan {
    pub proxy: bool,
    pub mpc: MpcParams,
    pub host: String,
    pub roots: Vec<Vec<u8>>,
    pub vroots: Vec<Vec<u8>>,
    pub client_auth: Option<(Vec<Vec<u8>>, Vec<u8>)>,
    pub server: server::Cfg,
    pub app: Vec<PAct>,
    pub pv: LinkCfg,
    pub ps: LinkCfg,
    pub proves: usize,
    pub reject_commit: bool,
    pub reject_prove: bool,
    /// Virtual step budget.
    pub steps: u64,
    pub leaf: (Vec<Vec<u8>>, Vec<u8>),
    pub hello_requests: usize,
    pub warnings: usize,
    /// The node that does not follow the protocol: it may panic.
    pub evil: Option<usize>,
}

pub struct Pki { pub chain: Vec<Vec<u8>>, pub root: Vec<u8>, pub key: Rc<Key>, pub scheme: u16, pub suite: u16, pub leaf_pkcs8: Vec<u8> }
const DAY: u64 = 86_400;
pub fn pki(sim: &Sim, host: &str, rsa: bool, now: u64) -> Pki {
    let ca = Key::gen(Kt::P256);
    let (leaf, leaf_pkcs8) = Key::gen_pkcs8(if rsa { Kt::Rsa } else { Kt::P256 });
    let spec = |subject: &str, issuer: &str, sans: Vec<String>, ca| CertSpec {
        subject: subject.into(), issuer: issuer.into(), nb: now - 10 * DAY, na: now + 90 * DAY, sans, ca, eku: None, serial: 7, extra: 0, nc: None,
    };
    let root = certs::build(&spec("Root", "Root", vec![], Some((true, None))), &ca, &ca);
    let mut chain = vec![];
    if sim.chance(1, 3) {
        let sub = Key::gen(Kt::P256);
        chain.push(certs::build(&spec(host, "Sub", vec![host.into()], None), &leaf, &sub));
        chain.push(certs::build(&spec("Sub", "Root", vec![], Some((true, None))), &sub, &ca));
    } else {
        chain.push(certs::build(&spec(host, "Root", vec![host.into()], None), &leaf, &ca));
    }
    let scheme = if rsa { [0x0804, 0x0401, 0x0601][sim.index(3)] } else { 0x0403 };
    Pki { chain, root, key: Rc::new(leaf), scheme, suite: if rsa { 0xc02f } else { 0xc02b }, leaf_pkcs8 }
}
pub fn now_s() -> u64 { simkit::seam::wall_ns() / 1_000_000_000 }

pub fn server_cfg(sim: &Sim, p: &Pki, script: Vec<Act>) -> server::Cfg {
    server::Cfg {
        chain: p.chain.clone(), key: p.key.clone(), scheme: p.scheme, suite: p.suite, script,
        hs_frag: [16384, 700, 90][sim.weighted(&[4, 1, 1])], coalesce: sim.chance(1, 3), ticket: false, client_auth: false, random_nonce: sim.chance(1, 3),
        odd: None, ems: sim.chance(1, 2), corrupt_finished: false, bad_finished: false, bad_sig: false, bad_point: None, curve: 23, version: 0x0303,
    }
}

/// One disclosure as the prover asked for it.
#[derive(Clone)]
pub struct Asked {
    pub identity: bool,
    pub reveal: Option<(RangeSet<usize>, RangeSet<usize>)>,
    pub commits: Vec<(Direction, RangeSet<usize>, HashAlgId)>,
}
pub struct ProverDone {
    pub transcript: Transcript,
    pub tls: TlsTranscript,
    pub asked: Vec<Asked>,
    pub outputs: Vec<Result<ProverOutput, String>>,
}
pub struct VerifierDone {
    pub tls: TlsTranscript,
    pub outputs: Vec<Result<VerifierOutput, String>>,
    pub rejected: usize,
}
#[derive(Default)]
pub struct AppLog { pub read: Vec<u8>, pub written: Vec<u8>, pub eof: bool, pub read_error: Option<String>, pub write_error: Option<String>, pub finished: bool, /** Virtual time at the end of each action. */ pub done_at: Vec<u64> }

pub struct World {
    pub ex: Rc<Exec>,
    pub pv: Ctl,
    pub ps: Ctl,
    pub slog: Rc<RefCell<server::Log>>,
    pub app: Rc<RefCell<AppLog>>,
    pub pstage: Rc<Cell<&'static str>>,
    pub vstage: Rc<Cell<&'static str>>,
    pub prover: Rc<RefCell<Option<Result<ProverDone, String>>>>,
    pub verifier: Rc<RefCell<Option<Result<VerifierDone, String>>>>,
    /// Result of the prover's connection future, before any disclosure.
    pub committed: Rc<RefCell<Option<Result<(), String>>>>,
    pub vcommitted: Rc<RefCell<Option<Result<(), String>>>>,
    pub apptask: Rc<Cell<Option<usize>>>,
    pub handles: [Rc<SessionHandle>; 2],
    pub drivers: [usize; 2],
    pub ptask: usize,
    pub vtask: usize,
    pub stask: usize,
}

pub fn err(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut c = e.source();
    while let Some(x) = c {
        s.push_str(": ");
        s.push_str(&x.to_string());
        c = x.source();
    }
    s
}
fn roots(v: &[Vec<u8>]) -> RootCertStore { RootCertStore { roots: v.iter().map(|d| CertificateDer(d.clone())).collect() } }

pub fn mpc_config(m: &MpcParams) -> MpcTlsConfig {
    let mut b = MpcTlsConfig::builder().max_sent_data(m.max_sent).max_recv_data(m.max_recv).defer_decryption_from_start(m.defer)
        .network(if m.latency { NetworkSetting::Latency } else { NetworkSetting::Bandwidth });
    if let Some(x) = m.max_sent_records { b = b.max_sent_records(x) }
    if let Some(x) = m.max_recv_online { b = b.max_recv_data_online(x) }
    if let Some(x) = m.max_recv_records_online { b = b.max_recv_records_online(x) }
    b.build().unwrap()
}

pub fn client_config(plan: &Plan) -> TlsClientConfig {
    let mut b = TlsClientConfig::builder().server_name(ServerName::Dns(plan.host.as_str().try_into().unwrap())).root_store(roots(&plan.roots));
    if let Some((c, k)) = &plan.client_auth { b = b.client_auth((c.iter().map(|d| CertificateDer(d.clone())).collect(), PrivateKeyDer(k.clone()))) }
    b.build().unwrap()
}

/// Random ranges within `0..n`, possibly empty, possibly everything.
pub fn ranges(sim: &Sim, n: usize) -> RangeSet<usize> {
    if n == 0 { return RangeSet::default() }
    match sim.index(5) {
        0 => RangeSet::from(0..n),
        1 => RangeSet::default(),
        _ => {
            let mut r = RangeSet::default();
            for _ in 0..sim.range(1, 4) {
                let a = sim.index(n);
                let b = a + 1 + sim.size((n - a - 1) as u64) as usize;
                r.union_mut(a..b);
            }
            r
        }
    }
}

pub fn draw_prove(sim: &Sim, t: &Transcript, algs: &[HashAlgId]) -> Result<(ProveConfig, Asked), String> {
    let mut b = ProveConfig::builder(t);
    let mut a = Asked { identity: sim.chance(1, 2), reveal: None, commits: vec![] };
    if a.identity { b.server_identity(); }
    if sim.chance(3, 4) {
        let (s, r) = (ranges(sim, t.sent().len()), ranges(sim, t.received().len()));
        b.reveal_sent(&s).map_err(|e| err(&e))?;
        b.reveal_recv(&r).map_err(|e| err(&e))?;
        if !(s.is_empty() && r.is_empty()) || true { a.reveal = Some((s, r)) }
    }
    if sim.chance(2, 3) {
        let mut c = TranscriptCommitConfig::builder(t);
        for _ in 0..sim.range(1, 4) {
            let (d, n) = if sim.chance(1, 2) { (Direction::Sent, t.sent().len()) } else { (Direction::Received, t.received().len()) };
            let r = ranges(sim, n);
            if r.is_empty() { continue }
            let alg = algs[sim.index(algs.len())];
            c.commit_with_kind(&r, d, TranscriptCommitmentKind::Hash { alg }).map_err(|e| err(&e))?;
            if !a.commits.contains(&(d, r.clone(), alg)) { a.commits.push((d, r, alg)) }
        }
        b.transcript_commit(c.build().map_err(|e| err(&e))?);
    }
    Ok((b.build().map_err(|e| err(&e))?, a))
}

pub async fn app_run(ex: Rc<Exec>, mut c: tlsn::prover::TlsConnection, acts: Vec<PAct>, ctl: tlsn::prover::ProverControl, log: Rc<RefCell<AppLog>>) {
    for a in acts {
        match a {
            PAct::Write(d) => match c.write_all(&d).await {
                Ok(()) => log.borrow_mut().written.extend(d),
                Err(e) => { log.borrow_mut().write_error.get_or_insert(e.to_string()); }
            },
            PAct::ReadExact(n) => {
                let mut b = [0u8; 512];
                while log.borrow().read.len() < n && log.borrow().read_error.is_none() && !log.borrow().eof {
                    let want = (n - log.borrow().read.len()).min(512);
                    match c.read(&mut b[..want]).await {
                        Ok(0) => log.borrow_mut().eof = true,
                        Ok(k) => log.borrow_mut().read.extend_from_slice(&b[..k]),
                        Err(e) => log.borrow_mut().read_error = Some(e.to_string()),
                    }
                }
            }
            PAct::Close => if let Err(e) = c.close().await { log.borrow_mut().write_error.get_or_insert(e.to_string()); },
            PAct::ReadToEnd => {
                let mut b = [0u8; 512];
                while log.borrow().read_error.is_none() && !log.borrow().eof {
                    match c.read(&mut b).await {
                        Ok(0) => log.borrow_mut().eof = true,
                        Ok(k) => log.borrow_mut().read.extend_from_slice(&b[..k]),
                        Err(e) => log.borrow_mut().read_error = Some(e.to_string()),
                    }
                }
            }
            PAct::Decrypt(x) => ctl.enable_decryption(x),
            PAct::Sleep(ns) => ex.sleep(ns).await,
        }
        log.borrow_mut().done_at.push(simkit::seam::now_ns());
    }
    log.borrow_mut().finished = true;
}

pub struct PCtx {
    pub ex: Rc<Exec>,
    pub plan: Plan,
    pub node: usize,
    pub stage: Rc<Cell<&'static str>>,
    pub app: Rc<RefCell<AppLog>>,
    pub committed: Rc<RefCell<Option<Result<(), String>>>>,
    pub apptask: Rc<Cell<Option<usize>>>,
}

async fn prove_all(c: &PCtx, mut prover: Prover<tlsn::prover::state::Committed>) -> Result<ProverDone, String> {
    let sim = c.ex.sim().clone();
    let mut d = ProverDone { transcript: prover.transcript().clone(), tls: prover.tls_transcript().clone(), asked: vec![], outputs: vec![] };
    for _ in 0..c.plan.proves {
        c.stage.set("prove");
        let (cfg, asked) = draw_prove(&sim, &d.transcript, &[HashAlgId::SHA256, HashAlgId::BLAKE3, HashAlgId::KECCAK256])?;
        d.asked.push(asked);
        let r = prover.prove(&cfg).await.map_err(|e| err(&e));
        ev!(sim, "prover: disclosure {}", match &r { Ok(_) => "done".to_string(), Err(e) => format!("failed: {e}") });
        let stop = r.is_err() && !c.plan.reject_prove;
        d.outputs.push(r);
        if stop { break }
    }
    prover.close().await.map_err(|e| err(&e))?;
    c.stage.set("done");
    Ok(d)
}

pub async fn prover_main(c: PCtx, prover: Prover, sock: Option<End>) -> Result<ProverDone, String> {
    let plan = c.plan.clone();
    let ex = c.ex.clone();
    c.stage.set("commit");
    macro_rules! drive { ($conn:expr, $p:expr) => {{
        c.stage.set("connected");
        let ctl = $p.control();
        let aj = ex.spawn("prover-app", c.node, app_run(ex.clone(), $conn, plan.app.clone(), ctl, c.app.clone()));
        c.apptask.set(Some(aj.id()));
        let r = $p.into_future().await.map_err(|e| err(&e));
        *c.committed.borrow_mut() = Some(r.as_ref().map(|_| ()).map_err(|e| e.clone()));
        r?
    }} }
    if plan.proxy {
        let p = prover.commit(ProxyTlsConfig::builder().server_name(plan.host.as_str().try_into().unwrap()).build().unwrap()).await.map_err(|e| err(&e))?;
        let (conn, p) = p.connect(client_config(&plan)).map_err(|e| err(&e))?;
        let p = drive!(conn, p);
        prove_all(&c, p).await
    } else {
        let p = prover.commit(mpc_config(&plan.mpc)).await.map_err(|e| err(&e))?;
        let (conn, p) = p.connect(client_config(&plan), SendEnd(sock.expect("HARNESS-ERROR: no server socket"))).map_err(|e| err(&e))?;
        let p = drive!(conn, p);
        prove_all(&c, p).await
    }
}

pub async fn verifier_main(sim: Sim, plan: Plan, stage: Rc<Cell<&'static str>>, vcommitted: Rc<RefCell<Option<Result<(), String>>>>, v: Verifier, sock: Option<End>) -> Result<VerifierDone, String> {
    stage.set("commit");
    let e2 = |e: tlsn::Error| err(&e);
    let start = v.commit().await.map_err(e2)?;
    let r = async {
        Ok::<_, tlsn::Error>(Some(match start {
            VerifierCommitStart::Mpc(v) => {
                // What a verifier's application does: it refuses requests it
                // cannot afford.
                let c = v.config();
                let sizes = [Some(c.max_sent_data()), Some(c.max_recv_data()), Some(c.max_recv_data_online())];
                let counts = [c.max_sent_records(), c.max_recv_records_online()];
                let big = sizes.into_iter().flatten().any(|n| n > 1 << 16) || counts.into_iter().flatten().any(|n| n > 1 << 9);
                if big { sim.probe("request_too_big"); }
                if plan.reject_commit || big { v.reject(Some("not today")).await?; return Ok(None) }
                let v = v.accept().await?;
                stage.set("run");
                v.run().await?
            }
            VerifierCommitStart::Proxy(v) => {
                if plan.reject_commit { v.reject(Some("not today")).await?; return Ok(None) }
                let v = v.accept().await?;
                stage.set("run");
                v.run(SendEnd(sock.expect("HARNESS-ERROR: no server socket"))).await?
            }
        }))
    }.await;
    *vcommitted.borrow_mut() = Some(r.as_ref().map(|_| ()).map_err(|e| err(e)));
    let Some(mut v) = r.map_err(e2)? else { return Err("rejected the request".into()) };
    let mut d = VerifierDone { tls: v.tls_transcript().clone(), outputs: vec![], rejected: 0 };
    for _ in 0..plan.proves {
        stage.set("verify");
        let s = match v.verify().await {
            Ok(s) => s,
            Err(e) => { d.outputs.push(Err(err(&e))); return Ok(d) }
        };
        if plan.reject_prove && sim.chance(1, 2) {
            d.rejected += 1;
            d.outputs.push(Err("rejected".into()));
            v = match s.reject(Some("no")).await { Ok(v) => v, Err(e) => return Err(err(&e)) };
            continue;
        }
        match s.accept().await {
            Ok((o, n)) => { d.outputs.push(Ok(o)); v = n }
            Err(e) => { d.outputs.push(Err(err(&e))); return Ok(d) }
        }
    }
    v.close().await.map_err(e2)?;
    stage.set("done");
    Ok(d)
}

pub fn install(sim: &Sim) {
    let s = sim.clone();
    hooks::install(hooks::Hooks { choose: Some(Box::new(move |n| if std::thread::panicking() { 0 } else { s.index(n) })), ..Default::default() });
}

/// A party that cheats and trips over itself is as good as crashed.
async fn guard<T>(evil: bool, f: impl std::future::Future<Output = T>) -> Option<T> {
    use futures::FutureExt;
    if !evil { return Some(f.await) }
    match std::panic::AssertUnwindSafe(f).catch_unwind().await {
        Ok(v) => Some(v),
        Err(p) if p.is::<simkit::sim::ChoiceOverflow>() => std::panic::resume_unwind(p),
        Err(_) => None,
    }
}

/// The two ends of a session, shared by the parties that use it.
pub struct Shared {
    pub handles: [Rc<SessionHandle>; 2],
    pub drivers: [usize; 2],
    /// Parties of each end that have not returned yet; the last one closes.
    left: [Rc<Cell<usize>>; 2],
    pv: Ctl,
}

/// Builds the world; nothing runs until `World::run`.
pub fn build(sim: &Sim, plan: &Plan) -> World {
    let ex = Exec::new(sim);
    build_many(sim, &ex, &[(plan.clone(), false)], plan.pv.clone()).pop().unwrap()
}

/// Several provers and verifiers in one session; where the flag is set, the
/// prover is at the verifier's end and the verifier at the prover's.
pub fn build_many(sim: &Sim, ex: &Rc<Exec>, plans: &[(Plan, bool)], pv: LinkCfg) -> Vec<World> {
    let (pa, va, pv) = pair(ex, pv);
    let mut ends = [Session::new(pa), Session::new(va)];
    let mut parties = vec![];
    for (plan, swap) in plans {
        let (a, b) = (*swap as usize, 1 - *swap as usize);
        let p = ends[a].new_prover(ProverConfig::builder().build().unwrap()).unwrap();
        let v = ends[b].new_verifier(VerifierConfig::builder().root_store(roots(&plan.vroots)).build().unwrap()).unwrap();
        parties.push((p, v));
    }
    let [sp, sv] = ends;
    let (dp, hp) = sp.split();
    let (dv, hv) = sv.split();
    let dp = ex.spawn("prover-session", PROVER, async move { dp.await.map(|_| ()).map_err(|e| err(&e)) }).id();
    let dv = ex.spawn("verifier-session", VERIFIER, async move { dv.await.map(|_| ()).map_err(|e| err(&e)) }).id();
    let n = || Rc::new(Cell::new(plans.len()));
    let shared = Shared { handles: [Rc::new(hp), Rc::new(hv)], drivers: [dp, dv], left: [n(), n()], pv };
    plans.iter().zip(parties).enumerate().map(|(k, ((plan, swap), (p, v)))| wire(sim, ex, plan, *swap, k, p, v, &shared)).collect()
}

fn wire(sim: &Sim, ex: &Rc<Exec>, plan: &Plan, swap: bool, k: usize, prover: Prover, verifier: Verifier, shared: &Shared) -> World {
    let name = |n: &str| if k == 0 { n.to_string() } else { format!("{n}#{k}") };
    let (pnode, vnode) = if swap { (VERIFIER, PROVER) } else { (PROVER, VERIFIER) };
    let (ca, sa, ps) = pair(ex, plan.ps.clone());
    let slog = Rc::new(RefCell::new(server::Log::default()));
    let app = Rc::new(RefCell::new(AppLog::default()));
    let st = ex.spawn(&name("server"), SERVER, server::serve(ex.clone(), sa, plan.server.clone(), slog.clone()));
    let (pstage, vstage) = (Rc::new(Cell::new("init")), Rc::new(Cell::new("init")));
    let committed = Rc::new(RefCell::new(None));
    let vcommitted = Rc::new(RefCell::new(None));
    let (cs, vs) = if plan.proxy { (None, Some(ca)) } else { (Some(ca), None) };
    let pslot = Rc::new(RefCell::new(None));
    let vslot = Rc::new(RefCell::new(None));
    let apptask = Rc::new(Cell::new(None));
    let c = PCtx { apptask: apptask.clone(), ex: ex.clone(), plan: plan.clone(), node: pnode, stage: pstage.clone(), app: app.clone(), committed: committed.clone() };
    let leave = |node: usize| {
        let (h, left) = (shared.handles[node].clone(), shared.left[node].clone());
        move || { left.set(left.get() - 1); if left.get() == 0 { h.close() } }
    };
    let slot = pslot.clone();
    let evil = plan.evil;
    let (e2, at, di, bye) = (ex.clone(), apptask.clone(), shared.drivers[pnode], leave(pnode));
    let ptask = ex.spawn(&name("prover"), pnode, async move {
        match guard(evil == Some(PROVER), prover_main(c, prover, cs)).await {
            Some(r) => { *slot.borrow_mut() = Some(r); bye() }
            None => { e2.kill(di); if let Some(a) = at.get() { e2.kill(a) } }
        }
    });
    let slot = vslot.clone();
    let (s2, p2, g2, vc2) = (sim.clone(), plan.clone(), vstage.clone(), vcommitted.clone());
    let (e2, di, bye) = (ex.clone(), shared.drivers[vnode], leave(vnode));
    let vtask = ex.spawn(&name("verifier"), vnode, async move {
        match guard(evil == Some(VERIFIER), verifier_main(s2, p2, g2, vc2, verifier, vs)).await {
            Some(r) => { *slot.borrow_mut() = Some(r); bye() }
            None => e2.kill(di),
        }
    });
    World { handles: shared.handles.clone(), drivers: shared.drivers, pv: shared.pv.clone(), apptask, ex: ex.clone(), ps, slog, app, pstage, vstage, prover: pslot, verifier: vslot, committed, vcommitted, ptask: ptask.id(), vtask: vtask.id(), stask: st.id() }
}
impl World {
    /// Runs until both parties returned; then lets the application, which may
    /// still be reading what was buffered for it, finish.
    pub fn run(&self, steps: u64) -> Stop {
        let s = self.ex.run(&[self.ptask, self.vtask], steps);
        if s == Stop::Done { if let Some(a) = self.apptask.get() { return self.ex.run(&[a], steps) } }
        s
    }
    /// Kills everything that runs on a node.
    pub fn crash(&self, node: usize) {
        match node {
            PROVER => { self.ex.kill(self.ptask); self.ex.kill(self.drivers[0]); if let Some(a) = self.apptask.get() { self.ex.kill(a) } }
            VERIFIER => { self.ex.kill(self.vtask); self.ex.kill(self.drivers[1]) }
            _ => self.ex.kill(self.stask),
        }
    }
    pub fn describe(&self) -> String {
        let show = |r: &Option<Result<(), String>>| match r { None => "pending".to_string(), Some(Ok(())) => "ok".into(), Some(Err(e)) => format!("error({e})") };
        format!("prover at {} commit {} | verifier at {} commit {} | server {:?}", self.pstage.get(), show(&self.committed.borrow()), self.vstage.get(), show(&self.vcommitted.borrow()), self.slog.borrow().error)
    }
    pub fn finish(&self) {
        hooks::clear();
        self.ex.shutdown();
    }
    pub fn close(self) { self.finish() }
}
