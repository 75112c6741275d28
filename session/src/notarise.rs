//! The documented flow of a notarised HTTP conversation: committed to part by
//! part, attested over the session's own socket, stored, presented in parts.
use crate::rig::*;
use crate::sdk::{answer, compose, json, set, token, trim, Msg, J, K};
use crate::server::{self, Act};
use crate::truth::{base, links};
use futures::{AsyncReadExt, AsyncWriteExt};
use mpz_ideal::hooks;
use rangeset::set::RangeSet;
use simkit::exec::{Exec, Stop};
use simkit::net::{pair, Ctl, Cut};
use simkit::{ensure, ev, violate, RunResult, Sim};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::future::IntoFuture;
use std::ops::Range;
use std::rc::Rc;
use tlsn::config::prove::ProveConfig;
use tlsn::config::prover::ProverConfig;
use tlsn::config::tls_commit::proxy::ProxyTlsConfig;
use tlsn::config::verifier::VerifierConfig;
use tlsn::hash::HashAlgId;
use tlsn::transcript::{ContentType, Direction, TranscriptCommitConfig, TranscriptCommitmentKind};
use tlsn::verifier::VerifierCommitStart;
use tlsn::webpki::{CertificateDer, RootCertStore, ServerCertVerifier};
use tlsn::Session;
use tlsn_attestation::presentation::Presentation;
use tlsn_attestation::request::{Request, RequestConfig};
use tlsn_attestation::signing::SignatureAlgId;
use tlsn_attestation::{Attestation, AttestationConfig, CryptoProvider, Secrets};
use tlsn_core::connection::{CertBinding, ConnectionInfo, HandshakeData, ServerName, TranscriptLength};
use tlsn_formats::http::{DefaultHttpCommitter, HttpCommit, HttpTranscript};

type Rs = RangeSet<usize>;
type Key = (bool, Vec<(usize, usize)>);
fn key(sent: bool, r: &Rs) -> Key { (sent, r.iter().map(|x| (x.start, x.end)).collect()) }

fn request(sim: &Sim, host: &str) -> Msg {
    let mut m = Msg::default();
    let put = |m: &mut Msg, b: &[u8]| { let s = m.raw.len(); m.raw.extend(b); s..m.raw.len() };
    m.first = put(&mut m, [&b"GET"[..], b"POST", b"PATCH"][sim.index(3)]);
    put(&mut m, b" ");
    let t = format!("/{}", String::from_utf8(token(sim, 20)).unwrap().replace([' ', '"'], "%"));
    m.second = put(&mut m, t.as_bytes());
    put(&mut m, b" HTTP/1.1\r\n");
    m.line = 0..m.raw.len();
    let (mut body, mut hs) = (vec![], vec![]);
    if !sim.chance(1, 10) { hs.push(("Host".to_string(), host.as_bytes().to_vec())) }
    for n in ["authorization", "X-One", "Cookie"] { if sim.chance(1, 2) { hs.push((n.into(), trim(&token(sim, 30)))) } }
    match sim.index(4) {
        0 => { let j = json(sim, 2, &mut body); m.json = Some(j); hs.push(("Content-Type".into(), b"application/json".to_vec())) }
        1 => body = token(sim, 60),
        _ => {}
    }
    let chunked = !body.is_empty() && sim.chance(1, 4);
    if chunked { hs.push(("transfer-encoding".into(), b"chunked".to_vec())) } else if !body.is_empty() || sim.chance(1, 4) { hs.push(("content-length".into(), body.len().to_string().into_bytes())) }
    for i in (1..hs.len()).rev() { hs.swap(i, sim.index(i + 1)) }
    compose(sim, &mut m, &hs, &body, chunked);
    m
}

/// The parts of a JSON value that are committed to, relative to the body.
fn json_units(j: &J, out: &mut Vec<Rs>) {
    match &j.kind {
        K::Leaf => if !j.at.is_empty() { out.push(set(&j.at)) },
        K::Arr(v, inner) => {
            out.push(set(&j.at));
            if !v.is_empty() { let mut s = set(&j.at); s.difference_mut(inner.clone()); out.push(s) }
        }
        K::Obj(v) => {
            let mut s = set(&j.at);
            for (_, kv, x) in v {
                s.difference_mut(kv.clone());
                let mut k = set(kv);
                k.difference_mut(x.at.clone());
                out.push(k);
                json_units(x, out);
            }
            out.push(s);
        }
    }
}
/// All parts of a message at `o` that are committed to.
fn units(m: &Msg, sent: bool, o: usize) -> Vec<Rs> {
    let mut out = vec![set(&(0..m.raw.len()))];
    if !m.headers.is_empty() || !m.body.is_empty() {
        let mut s = set(&(0..m.raw.len()));
        for h in &m.headers { s.difference_mut(h.1.clone()) }
        s.difference_mut(&m.whole_body());
        if sent { s.difference_mut(m.second.clone()) }
        out.push(s);
    }
    if sent { out.push(set(&m.second)) }
    for (_, line, _, value) in &m.headers {
        out.push(set(line));
        if !value.is_empty() { let mut s = set(line); s.difference_mut(value.clone()); out.push(s) }
    }
    if !m.body.is_empty() {
        match &m.json {
            Some(j) => { let mut v = vec![]; json_units(j, &mut v); for s in v { let mut t = Rs::default(); for r in s.iter() { t.union_mut(&m.of(&r)) } out.push(t) } }
            None => out.push(m.whole_body()),
        }
    }
    out.into_iter().map(|s| s.iter().map(|r| r.start + o..r.end + o).collect::<Vec<Range<usize>>>().into()).collect()
}

struct Kept { attestation: Vec<u8>, secrets: Vec<u8> }

fn provider(roots: &[Vec<u8>]) -> CryptoProvider {
    let roots = RootCertStore { roots: roots.iter().map(|d| CertificateDer(d.clone())).collect() };
    CryptoProvider { hash: Default::default(), cert: ServerCertVerifier::new(&roots).expect("HARNESS-ERROR: roots"), signer: Default::default(), signature: Default::default() }
}
fn lengths(t: &tlsn::transcript::TlsTranscript) -> TranscriptLength {
    let n = |r: &[tlsn::transcript::Record]| r.iter().filter(|r| r.typ == ContentType::ApplicationData).map(|r| r.ciphertext.len() as u32).sum();
    TranscriptLength { sent: n(t.sent()), received: n(t.recv()) }
}

fn run(sim: &Sim, proxy: bool) -> RunResult {
    let mut plan = base(sim, proxy);
    links(sim, &mut plan);
    install(sim);
    let n = 1 + sim.weighted(&[4, 2, 1]);
    plan.mpc.defer = !proxy && sim.chance(1, 2);
    let closes = sim.chance(1, 2);
    let (mut sent, mut recv) = (vec![], vec![]);
    let (mut want, mut records) = (vec![], 0);
    let mut script = vec![];
    for i in 0..n {
        let q = request(sim, &plan.host);
        let a = answer(sim, closes && i + 1 == n);
        want.extend(units(&q, true, sent.len()).into_iter().map(|r| (Direction::Sent, r)));
        want.extend(units(&a.msg, false, recv.len()).into_iter().map(|r| (Direction::Received, r)));
        sent.extend(&q.raw);
        recv.extend(&a.msg.raw);
        plan.app.push(PAct::Write(q.raw));
        if !plan.mpc.defer && (proxy || sim.chance(3, 4)) { plan.app.push(PAct::ReadExact(recv.len())) }
        script.push(Act::Recv(sent.len()));
        let frag = if sim.chance(1, 2) { a.msg.raw.len() } else { a.msg.raw.len().div_ceil(1 + sim.index(3)) };
        records += a.msg.raw.len().div_ceil(frag);
        script.push(Act::Send(a.msg.raw, frag));
    }
    if closes { script.push(Act::CloseNotify) } else { script.push(Act::WaitClose); script.push(Act::CloseNotify); plan.app.push(PAct::Close) }
    plan.app.push(PAct::ReadToEnd);
    plan.server.script = script;
    plan.mpc.max_sent = sent.len() + sim.size(200) as usize;
    plan.mpc.max_recv = (recv.len() + sim.size(200) as usize).max(32);
    plan.mpc.max_recv_online = if plan.mpc.defer { None } else { Some(recv.len()) };
    plan.mpc.max_recv_records_online = Some(records + 2);
    let cut = match sim.index(8) { 0 => 1, 1 => 2, _ => 0 };
    let alg = [HashAlgId::BLAKE3, HashAlgId::SHA256, HashAlgId::KECCAK256][sim.index(3)];
    let hash_alg = [HashAlgId::BLAKE3, HashAlgId::SHA256, HashAlgId::KECCAK256][sim.index(3)];
    let sig_alg = [SignatureAlgId::SECP256K1, SignatureAlgId::SECP256R1, SignatureAlgId::SECP256K1ETH][sim.index(3)];
    ev!(sim, "plan: {n} exchanges, cut {cut}, server closes {closes}, sent {:?} received {:?}", String::from_utf8_lossy(&sent), String::from_utf8_lossy(&recv));

    let ex = Exec::new(sim);
    let (pa, va, pv) = pair(&ex, plan.pv.clone());
    let (ca, sa, ps) = pair(&ex, plan.ps.clone());
    let slog = Rc::new(RefCell::new(server::Log::default()));
    ex.spawn("server", SERVER, server::serve(ex.clone(), sa, plan.server.clone(), slog.clone()));
    let (cs, vs) = if proxy { (None, Some(ca)) } else { (Some(ca), None) };
    let (sp, sv) = (Session::new(SendEnd(pa)), Session::new(SendEnd(va)));
    let ((dp, mut hp), (dv, mut hv)) = (sp.split(), sv.split());
    let (ptx, prx) = futures::channel::oneshot::channel();
    let (vtx, vrx) = futures::channel::oneshot::channel();
    ex.spawn("prover-session", PROVER, async move { let _ = ptx.send(dp.await.map_err(|e| err(&e))); });
    ex.spawn("notary-session", VERIFIER, async move { let _ = vtx.send(dv.await.map_err(|e| err(&e))); });
    let app = Rc::new(RefCell::new(AppLog::default()));
    let wrong: Rc<RefCell<Option<(String, String)>>> = Rc::default();
    let kept: Rc<RefCell<Option<Kept>>> = Rc::default();
    let (pdone, vdone): (Rc<RefCell<Option<Result<(), String>>>>, Rc<RefCell<Option<Result<(), String>>>>) = Default::default();
    let (pstage, vstage) = (Rc::new(Cell::new("start")), Rc::new(Cell::new("start")));
    let unit_keys: BTreeSet<Key> = want.iter().map(|(d, r)| key(*d == Direction::Sent, r)).collect();

    let (p2, e2, a2, w2, k2, slot, stage, uk) = (plan.clone(), ex.clone(), app.clone(), wrong.clone(), kept.clone(), pdone.clone(), pstage.clone(), unit_keys.clone());
    let ptask = ex.spawn("prover", PROVER, async move {
        let bad = |c: &str, x: String| { w2.borrow_mut().get_or_insert((c.into(), x)); };
        macro_rules! go { ($e:expr) => { $e.map_err(|e| err(&e))? } }
        let r: Result<(), String> = async {
            let prover = go!(hp.new_prover(ProverConfig::builder().build().unwrap()));
            stage.set("commit");
            macro_rules! drive { ($x:expr) => {{
                let (conn, p) = $x;
                stage.set("connected");
                let ctl = p.control();
                e2.spawn("prover-app", PROVER, app_run(e2.clone(), conn, p2.app.clone(), ctl, a2.clone()));
                go!(p.into_future().await)
            }} }
            let mut p = if p2.proxy {
                let p = go!(prover.commit(ProxyTlsConfig::builder().server_name(p2.host.as_str().try_into().unwrap()).build().unwrap()).await);
                drive!(go!(p.connect(client_config(&p2))))
            } else {
                let p = go!(prover.commit(mpc_config(&p2.mpc)).await);
                drive!(go!(p.connect(client_config(&p2), SendEnd(cs.unwrap()))))
            };
            stage.set("prove");
            let t = p.transcript().clone();
            if cut != 0 && (t.sent() != sent || t.received() != recv) { return Err("the conversation was cut".into()) }
            if t.sent() != sent || t.received() != recv { bad("transcript", "the transcript is not the conversation".into()); return Err("stop".into()) }
            let http = match HttpTranscript::parse(&t) { Ok(h) => h, Err(e) => { bad("formats", format!("HTTP is not parsed: {e}")); return Err("stop".into()) } };
            if http.requests.len() != n || http.responses.len() != n { bad("formats", format!("{n} exchanges became {} requests and {} responses", http.requests.len(), http.responses.len())) }
            let mut cb = TranscriptCommitConfig::builder(&t);
            cb.default_kind(TranscriptCommitmentKind::Hash { alg });
            if let Err(e) = DefaultHttpCommitter::default().commit_transcript(&mut cb, &http) { bad("formats", format!("committing fails: {}", err(&e))); return Err("stop".into()) }
            let cc = go!(cb.build());
            let got: BTreeSet<Key> = cc.iter_hash().map(|((d, r), _)| key(*d == Direction::Sent, r)).collect();
            if got != uk || cc.iter_hash().any(|(_, a)| *a != alg) {
                bad("formats", format!("committed beyond the parts: {:?}; parts not committed to: {:?}", got.difference(&uk).collect::<Vec<_>>(), uk.difference(&got).collect::<Vec<_>>()));
            }
            let mut b = RequestConfig::builder();
            b.signature_alg(sig_alg).hash_alg(hash_alg).transcript_commit(cc);
            let rc = go!(b.build());
            let mut b = ProveConfig::builder(&t);
            if let Some(c) = rc.transcript_commit() { b.transcript_commit(c.clone()); }
            let cfg = go!(b.build());
            let out = go!(p.prove(&cfg).await);
            let tls = p.tls_transcript().clone();
            go!(p.close().await);
            let mut b = Request::builder(&rc);
            b.server_name(ServerName::Dns(p2.host.as_str().try_into().unwrap()))
                .handshake_data(HandshakeData { certs: tls.server_cert_chain().expect("chain").to_vec(), sig: tls.server_signature().expect("signature").clone(), binding: tls.certificate_binding().clone() })
                .transcript(t).transcript_commitments(out.transcript_secrets, out.transcript_commitments);
            let own = provider(&p2.roots);
            let (req, sec) = match b.build(&own) { Ok(x) => x, Err(e) => { bad("attestation", format!("no request can be built: {}", err(&e))); return Err("stop".into()) } };
            stage.set("request");
            hp.close();
            let mut io = prx.await.map_err(|_| "driver gone".to_string())??;
            go!(io.write_all(&bincode::serialize(&req).unwrap()).await);
            go!(io.close().await);
            stage.set("wait");
            let mut v = vec![];
            go!(io.read_to_end(&mut v).await);
            let att: Attestation = go!(bincode::deserialize(&v));
            if let Err(e) = req.validate(&att, &own) { bad("attestation", format!("the notary's attestation is refused: {}", err(&e))); return Err("stop".into()) }
            *k2.borrow_mut() = Some(Kept { attestation: bincode::serialize(&att).unwrap(), secrets: bincode::serialize(&sec).unwrap() });
            Ok(())
        }.await;
        *slot.borrow_mut() = Some(r);
    }).id();

    let nkey = { let mut k = sim.bytes(32); k[0] = 1; k };
    let (p2, w2, slot, stage, nk, s2) = (plan.clone(), wrong.clone(), vdone.clone(), vstage.clone(), nkey.clone(), slog.clone());
    let vtask = ex.spawn("notary", VERIFIER, async move {
        let bad = |c: &str, x: String| { w2.borrow_mut().get_or_insert((c.into(), x)); };
        macro_rules! go { ($e:expr) => { $e.map_err(|e| err(&e))? } }
        let r: Result<(), String> = async {
            let roots = RootCertStore { roots: p2.vroots.iter().map(|d| CertificateDer(d.clone())).collect() };
            let v = go!(hv.new_verifier(VerifierConfig::builder().root_store(roots).build().unwrap()));
            stage.set("commit");
            let mut v = match go!(v.commit().await) {
                VerifierCommitStart::Mpc(v) => { let v = go!(v.accept().await); stage.set("run"); go!(v.run().await) }
                VerifierCommitStart::Proxy(v) => { let v = go!(v.accept().await); stage.set("run"); go!(v.run(SendEnd(vs.unwrap())).await) }
            };
            stage.set("verify");
            let (out, v2) = go!(go!(v.verify().await).accept().await);
            v = v2;
            if out.server_name.is_some() || out.transcript.is_some() { bad("secrecy", "the notary learned what was not disclosed".into()) }
            let tls = v.tls_transcript().clone();
            go!(v.close().await);
            stage.set("wait");
            hv.close();
            let mut io = vrx.await.map_err(|_| "driver gone".to_string())??;
            let mut b = vec![];
            go!(io.read_to_end(&mut b).await);
            let req: Request = go!(bincode::deserialize(&b));
            let mut pr = CryptoProvider::default();
            match sig_alg {
                SignatureAlgId::SECP256K1 => { go!(pr.signer.set_secp256k1(&nk)); }
                SignatureAlgId::SECP256R1 => { go!(pr.signer.set_secp256r1(&nk)); }
                _ => { go!(pr.signer.set_secp256k1eth(&nk)); }
            }
            let mut c = AttestationConfig::builder();
            c.supported_signature_algs(Vec::from_iter(pr.signer.supported_algs()));
            let c = go!(c.build());
            let mut b = match Attestation::builder(&c).accept_request(req) { Ok(b) => b, Err(e) => { bad("attestation", format!("the notary refuses the request: {}", err(&e))); return Err("stop".into()) } };
            let CertBinding::V1_2(binding) = tls.certificate_binding() else { return Err("binding".into()) };
            if tls.time().abs_diff(s2.borrow().time) > 60 { bad("connection", format!("the notary attests time {}, the server was asked at {}", tls.time(), s2.borrow().time)) }
            b.connection_info(ConnectionInfo { time: tls.time(), version: tls.version(), transcript_length: lengths(&tls) })
                .server_ephemeral_key(binding.server_ephemeral_key.clone()).transcript_commitments(out.transcript_commitments);
            let att = go!(b.build(&pr));
            stage.set("answer");
            go!(io.write_all(&bincode::serialize(&att).unwrap()).await);
            go!(io.close().await);
            Ok(())
        }.await;
        *slot.borrow_mut() = Some(r);
    }).id();
    if cut != 0 {
        let l: Ctl = if cut == 1 { pv.clone() } else { ps.clone() };
        let (s2, how) = (sim.clone(), if sim.chance(1, 2) { Cut::Eof } else { Cut::Reset });
        ex.at_step(sim.size(8000), move || { s2.fault(if cut == 1 { "cut_parties" } else { "cut_server" }); l.cut(how) });
    }
    let stop = ex.run(&[ptask, vtask], plan.steps);
    let (pr, vr) = (pdone.borrow().clone(), vdone.borrow().clone());
    let about = format!("prover at {} {pr:?} | notary at {} {vr:?} | server {:?}", pstage.get(), vstage.get(), slog.borrow().error);
    hooks::clear();
    ex.shutdown();
    ensure!(stop == Stop::Done, "hang", "{stop:?}: {about}");
    if let Some((c, w)) = wrong.borrow().as_ref() { violate!(c, "{w}") }
    let (pr, vr) = (pr.unwrap(), vr.unwrap());
    if cut == 0 { ensure!(pr.is_ok() && vr.is_ok(), "completeness", "{about}") }
    let kept = kept.borrow_mut().take();
    ensure!(kept.is_some() == pr.is_ok(), "completeness", "{about}");
    let Some(k) = kept else { sim.probe("not_attested"); return Ok(()) };
    sim.probe(if proxy { "attested_proxy" } else { "attested_mpc" });
    if n > 1 { sim.probe("several_exchanges") }
    let log = slog.borrow();
    present(sim, &plan, &want, &k, &nkey, sig_alg, &log)
}

/// What a holder of the stored artefacts can show to whom.
fn present(sim: &Sim, plan: &Plan, want: &[(Direction, Rs)], k: &Kept, nkey: &[u8], sig: SignatureAlgId, log: &server::Log) -> RunResult {
    let att: Attestation = match bincode::deserialize(&k.attestation) { Ok(x) => x, Err(e) => violate!("storage", "attestation: {e}") };
    let sec: Secrets = match bincode::deserialize(&k.secrets) { Ok(x) => x, Err(e) => violate!("storage", "secrets: {e}") };
    let own = provider(&plan.roots);
    for _ in 0..sim.range(1, 4) {
        let mut show = [Rs::default(), Rs::default()];
        let some = 1 + sim.index(6);
        for (d, r) in want { if sim.chance(1, some as u64) { show[(*d == Direction::Received) as usize].union_mut(r) } }
        // Part of something, which may be no union of parts.
        let mut whole = true;
        if sim.chance(1, 4) {
            let (d, all) = if sim.chance(1, 2) { (0, log.recv.len()) } else { (1, log.sent.len()) };
            if all > 0 { let a = sim.index(all); show[d].union_mut(a..a + 1 + sim.size((all - a - 1) as u64) as usize) }
            let mut cover = [Rs::default(), Rs::default()];
            for (d, r) in want { let i = (*d == Direction::Received) as usize; let mut x = r.clone(); x.difference_mut(&show[i]); if x.is_empty() { cover[i].union_mut(r) } }
            whole = cover == show;
        }
        let mut t = sec.transcript_proof_builder();
        let r = t.reveal(&show[0], Direction::Sent).and_then(|t| t.reveal(&show[1], Direction::Received)).map(|_| ());
        if let Err(e) = &r { ensure!(!whole, "presentation", "parts {show:?} cannot be shown: {}", err(e)) }
        let proof = match r.map_err(|_| ()).and_then(|_| t.build().map_err(|e| { sim.observe_bytes(err(&e).as_bytes()); })) { Ok(p) => p, Err(()) => { ensure!(!whole, "presentation", "parts {show:?} cannot be shown"); sim.probe("not_a_union"); continue } };
        ensure!(whole, "presentation", "{show:?} is no union of parts, yet shown");
        let identity = sim.chance(3, 4);
        let mut b = att.presentation_builder(&own);
        if identity { b.identity_proof(sec.identity_proof()); }
        b.transcript_proof(proof);
        let pres = match b.build() { Ok(p) => p, Err(e) => violate!("presentation", "cannot be built: {}", err(&e)) };
        let bytes = bincode::serialize(&pres).unwrap();
        let pres: Presentation = match bincode::deserialize(&bytes) { Ok(x) => x, Err(e) => violate!("storage", "presentation: {e}") };
        let key = match sig {
            SignatureAlgId::SECP256R1 => p256::ecdsa::SigningKey::from_slice(nkey).unwrap().verifying_key().to_sec1_bytes().to_vec(),
            _ => k256::ecdsa::SigningKey::from_slice(nkey).unwrap().verifying_key().to_sec1_bytes().to_vec(),
        };
        ensure!(pres.verifying_key().data == key, "presentation", "names another key");
        let o = match pres.verify(&provider(&plan.vroots)) { Ok(o) => o, Err(e) => violate!("presentation", "is refused: {}", err(&e)) };
        ensure!(o.server_name.as_ref().map(|n| n.to_string()) == identity.then(|| plan.host.clone()), "identity", "shown {identity}, verified {:?}", o.server_name);
        ensure!(o.connection_info.time.abs_diff(log.time) <= 60 && o.connection_info.transcript_length.sent as usize == log.recv.len() && o.connection_info.transcript_length.received as usize == log.sent.len(), "connection", "{:?}", o.connection_info);
        let Some(t) = o.transcript else { violate!("presentation", "no transcript") };
        for (i, (have, authed, all)) in [(t.sent_unsafe(), t.sent_authed(), &log.recv), (t.received_unsafe(), t.received_authed(), &log.sent)].into_iter().enumerate() {
            ensure!(authed == &show[i], "disclosure", "direction {i}: shown {:?}, verified {authed:?}", show[i]);
            ensure!(have.len() == all.len(), "disclosure", "direction {i}: {} bytes of {}", have.len(), all.len());
            for (j, b) in have.iter().enumerate() { ensure!(*b == if show[i].contains(&j) { all[j] } else { 0 }, "disclosure", "direction {i}: byte {j}") }
        }
        sim.probe("presented");
    }
    Ok(())
}
pub fn s13_mpc(sim: &Sim) -> RunResult { run(sim, false) }
pub fn s13_proxy(sim: &Sim) -> RunResult { run(sim, true) }
