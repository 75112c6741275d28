//! What the parties of a session end up with, against what the server saw.
use crate::rig::*;
use crate::server::{Act, Cipher};
use simkit::net::LinkCfg;
use simkit::{ensure, violate, RunResult, Sim};
use tlsn::transcript::{ContentType, Direction, Record, TlsTranscript, TranscriptCommitment, TranscriptSecret};
use tlsn_core::{ProverOutput, VerifierOutput};
use rangeset::set::RangeSet;
use tlsn::hash::HashAlgId;

pub fn text(sim: &Sim, n: usize) -> Vec<u8> { sim.bytes(n).into_iter().map(|b| b' ' + b % 90).collect() }

pub fn base(sim: &Sim, proxy: bool) -> Plan { base_for(sim, proxy, "example.com") }
pub fn base_for(sim: &Sim, proxy: bool, host: &str) -> Plan {
    let p = pki(sim, host, sim.chance(1, 4), now_s());
    let server = server_cfg(sim, &p, vec![]);
    Plan {
        proxy,
        mpc: MpcParams { max_sent: 256, max_sent_records: None, max_recv: 512, max_recv_online: None, max_recv_records_online: None, defer: true, latency: sim.chance(1, 2) },
        host: host.into(), roots: vec![p.root.clone()], vroots: vec![p.root.clone()], client_auth: None, server, app: vec![],
        pv: LinkCfg::quiet("pv"), ps: LinkCfg::quiet("ps"), proves: 1, reject_commit: false, reject_prove: false, steps: 2_000_000,
        leaf: (p.chain.clone(), p.leaf_pkcs8.clone()), hello_requests: 0, warnings: 0, evil: None,
    }
}

/// Slow and fragmenting, but always far below the handshake's time tolerance.
pub fn links(sim: &Sim, plan: &mut Plan) {
    let one = |name| if sim.chance(1, 4) { LinkCfg::quiet(name) } else { let mut l = LinkCfg::draw(sim, name); l.stall = 0; l.cap = l.cap.max(900); l.lat = (l.lat.0.min(2_000_000), l.lat.1.min(5_000_000)); l };
    plan.pv = one("pv");
    plan.ps = one("ps");
}

/// A conversation that fits the negotiated limits and that both sides close.
pub fn honest(sim: &Sim, plan: &mut Plan) {
    let big = sim.chance(1, 12);
    let cap = if big { 5000 } else { 200 };
    let (mut sent, mut app_sent, mut recv, mut srec, mut rrec) = (0usize, 0usize, 0usize, 0usize, 0usize);
    let mut script = vec![];
    let mut app = vec![];
    let mut decrypting = plan.proxy;
    let mut online_bytes = 0usize;
        plan.mpc.defer = sim.chance(1, 2);
    if !plan.proxy && !plan.mpc.defer { decrypting = true }
    let ever_on_from_start = decrypting;
    let mut ever_off = !decrypting;
    let n = sim.range(0, 4);
    for _ in 0..n {
        if !plan.proxy && sim.chance(1, 5) {
            // The toggle is seen by the client at its next step; whatever is
            // in flight may or may not be decrypted online.
            decrypting = !decrypting;
            if !decrypting { ever_off = true }
            app.push(PAct::Decrypt(decrypting));
        }
        for _ in 0..sim.range(0, 3) {
            let d = text(sim, 1 + sim.size(cap) as usize);
            sent += d.len();
            app_sent += d.len();
            srec += 1;
            app.push(PAct::Write(d));
        }
        script.push(Act::Recv(app_sent));
        // The client answers with a warning; the data behind it shows that
        // it has been dealt with.
        let hello = decrypting && !ever_off && sim.chance(1, 8) && rrec + srec < 12;
        if hello { script.push(Act::HelloRequest); online_bytes += 4; recv += 4; rrec += 1; sent += 2; srec += 1; plan.hello_requests += 1 }
        if sim.chance(1, 8) { script.push(Act::Empty); rrec += 1 }
        // A warning that asks for nothing.
        if decrypting && !ever_off && sim.chance(1, 8) && rrec + srec < 12 { script.push(Act::Alert(1, [90, 112][sim.index(2)])); online_bytes += 2; recv += 2; rrec += 1; plan.warnings += 1 }
        if hello || sim.chance(5, 6) {
            let d = text(sim, 1 + sim.size(cap) as usize);
            let k = if sim.chance(1, 2) { d.len() } else { d.len().div_ceil(1 + sim.index(3)) };
            recv += d.len();
            rrec += d.len().div_ceil(k);
            online_bytes += d.len();
            script.push(Act::Send(d, k));
            if decrypting && !ever_off && (hello || sim.chance(3, 4)) { app.push(PAct::ReadExact(script.iter().map(|a| if let Act::Send(d, _) = a { d.len() } else { 0 }).sum())) }
        }
        if sim.chance(1, 6) { script.push(Act::Sleep(sim.range(1, 50_000_000))) }
        if sim.chance(1, 6) { app.push(PAct::Sleep(sim.range(1, 50_000_000))) }
    }
    // The client's last record has to be application data or a close_notify,
    // see S04: with nothing sent, or with a warning sent, it closes first.
    let must = sent == 0 || plan.hello_requests > 0;
    let app_closes = must || sim.chance(1, 2);
    // A proxied server that is gone before the client's close_notify arrives
    // breaks the forwarding: a race the parties cannot win, see S04.
    match if must { 2 } else if plan.proxy && app_closes { 1 + sim.index(2) } else { sim.index(4) } {
        0 => script.push(Act::CloseNotify),
        1 => { script.push(Act::CloseNotify); script.push(if app_closes { Act::WaitClose } else { Act::Sleep(1_000_000) }) }
        2 if app_closes => { script.push(Act::WaitClose); script.push(Act::CloseNotify) }
        _ => script.push(Act::CloseNotify),
    }
    if app_closes { app.push(PAct::Close) }
    app.push(PAct::ReadToEnd);
    let slack = |v: usize| if sim.chance(1, 3) { v } else { v + sim.size(600) as usize };
    plan.mpc.max_sent = slack(sent);
    let online = if ever_on_from_start || app.iter().any(|a| matches!(a, PAct::Decrypt(true))) { slack(online_bytes) } else { sim.size(64) as usize };
    plan.mpc.max_recv = slack(recv).max(online).max(32);
    plan.mpc.max_recv_online = if online <= 32 && sim.chance(1, 2) { None } else { Some(online) };
    // Protocol records (Finished, alerts) come on top.
    plan.mpc.max_sent_records = if srec > 8 || sim.chance(1, 4) { Some(srec + sim.size(4) as usize) } else { None };
    plan.mpc.max_recv_records_online = if rrec > 8 || sim.chance(1, 4) { Some(rrec + sim.size(4) as usize) } else { None };
    plan.server.script = script;
    plan.app = app;
    plan.proves = sim.index(4);
    plan.reject_prove = sim.chance(1, 8);
    plan.server.ticket = sim.chance(1, 6);
    if sim.chance(1, 6) {
        plan.server.client_auth = true;
        if sim.chance(1, 2) { plan.client_auth = Some(plan.leaf.clone()) }
    }
}

fn typ(t: ContentType) -> u8 {
    match t { ContentType::ChangeCipherSpec => 20, ContentType::Alert => 21, ContentType::Handshake => 22, ContentType::ApplicationData => 23, ContentType::Heartbeat => 24, ContentType::Unknown(x) => x }
}

/// The records a party holds, against what the server sealed or opened.
/// `exact` also demands that none is missing at the end.
fn records(who: &str, dir: Direction, got: &[Record], truth: &[(u8, Vec<u8>)], key: &[u8], iv: &[u8], sees_plain: bool, exact: bool, any_tail: bool) -> RunResult {
    ensure!(!got.is_empty(), "records", "{who} holds no {dir} record although the handshake completed");
    if exact { ensure!(got.len() == truth.len(), "records", "{who} holds {} {dir} records, the server {}", got.len(), truth.len()) }
    let mut c = Cipher::new(key, iv);
    for (i, r) in got.iter().enumerate() {
        ensure!(r.seq == i as u64, "records", "{who}: {dir} record {i} carries sequence number {}", r.seq);
        let Some((t, p)) = truth.get(i) else {
            // Sent, but the server was gone before reading it.
            ensure!(dir == Direction::Sent && any_tail, "records", "{who} holds a {dir} record {i} the server never produced");
            continue;
        };
        ensure!(typ(r.typ) == *t, "records", "{who}: {dir} record {i} has type {:?}, the server's was {t}", r.typ);
        let n: [u8; 8] = match r.explicit_nonce.as_slice().try_into() { Ok(n) => n, Err(_) => violate!("records", "{who}: {dir} record {i} has a nonce of {} bytes", r.explicit_nonce.len()) };
        c.seq = i as u64;
        let sealed = c.seal(*t, n, p);
        let body = &sealed[8..];
        ensure!(r.ciphertext == body[..p.len()], "records", "{who}: {dir} record {i} is not the ciphertext on the wire");
        if let Some(tag) = &r.tag { ensure!(tag[..] == body[p.len()..], "records", "{who}: {dir} record {i} holds a tag that was not on the wire") }
        match &r.plaintext {
            Some(x) => {
                ensure!(x == p, "records", "{who}: {dir} record {i} has a plaintext the server does not know");
                ensure!(sees_plain || *t != 23, "secrecy", "{who} holds the plaintext of {dir} application record {i}");
            }
            None => ensure!(!sees_plain || *t != 23, "records", "{who}: {dir} record {i} lacks its plaintext"),
        }
    }
    Ok(())
}

fn chash(c: &TranscriptCommitment) -> tlsn::transcript::hash::PlaintextHash { let TranscriptCommitment::Hash(c) = c else { panic!("HARNESS-ERROR: commitment kind") }; c.clone() }
fn pos(r: &RangeSet<usize>) -> Vec<usize> { r.iter().flat_map(|x| x).collect() }

pub fn digest(alg: HashAlgId, data: &[u8]) -> Vec<u8> {
    match alg {
        HashAlgId::SHA256 => { use sha2::Digest; sha2::Sha256::digest(data).to_vec() }
        HashAlgId::BLAKE3 => blake3::hash(data).as_bytes().to_vec(),
        HashAlgId::KECCAK256 => { use tiny_keccak::Hasher; let mut k = tiny_keccak::Keccak::v256(); k.update(data); let mut o = [0; 32]; k.finalize(&mut o); o.to_vec() }
        _ => panic!("HARNESS-ERROR: algorithm"),
    }
}

/// One verified disclosure, against the truth and, when the prover is honest,
/// against what it asked for.
/// `sent` may be a prefix of the `sent_len` bytes the records hold.
pub fn disclosure(host: &str, sent: &[u8], sent_len: usize, recv: &[u8], asked: Option<&Asked>, p: Option<&ProverOutput>, v: &VerifierOutput) -> RunResult {
    if let Some(n) = &v.server_name { ensure!(n.to_string() == host, "identity", "the verifier accepted the identity {n}, the server is {host}") }
    if let Some(t) = &v.transcript {
        ensure!(t.len_sent() == sent_len && t.len_received() == recv.len(), "disclosure", "disclosed lengths {}/{} differ from the real {}/{}", t.len_sent(), t.len_received(), sent_len, recv.len());
        for (d, all, bytes, idx) in [("sent", sent, t.sent_unsafe(), t.sent_authed()), ("received", recv, t.received_unsafe(), t.received_authed())] {
            for i in pos(idx) { ensure!(i < all.len() && bytes[i] == all[i] || d == "sent" && i >= sent.len() && i < sent_len, "disclosure", "the verifier authenticated a {d} byte at {i} that was never exchanged") }
        }
    }
    if let Some(a) = asked {
        ensure!(v.server_name.is_some() == a.identity, "disclosure", "identity requested: {}, verified: {}", a.identity, v.server_name.is_some());
        ensure!(v.transcript.is_some() == a.reveal.is_some(), "disclosure", "transcript disclosure requested: {}, verified: {}", a.reveal.is_some(), v.transcript.is_some());
        if let (Some(t), Some((s, r))) = (&v.transcript, &a.reveal) {
            for (d, bytes, idx, want) in [("sent", t.sent_unsafe(), t.sent_authed(), s), ("received", t.received_unsafe(), t.received_authed(), r)] {
                ensure!(idx == want, "disclosure", "{d}: authenticated {idx:?}, the prover asked for {want:?}");
                for (i, b) in bytes.iter().enumerate() {
                    ensure!(*b == 0 || want.contains(&i), "secrecy", "{d} byte {i} reached the verifier without being disclosed")
                }
            }
        }
        ensure!(v.transcript_commitments.len() == a.commits.len(), "commitment", "{} commitments requested, the verifier holds {}", a.commits.len(), v.transcript_commitments.len());
    }
    if let Some(p) = p {
        ensure!(p.transcript_commitments.iter().map(chash).eq(v.transcript_commitments.iter().map(chash)), "commitment", "prover and verifier hold different commitments");
        ensure!(p.transcript_secrets.len() == p.transcript_commitments.len(), "commitment", "{} secrets for {} commitments", p.transcript_secrets.len(), p.transcript_commitments.len());
        let mut left = asked.map(|a| a.commits.clone()).unwrap_or_default();
        for (c, s) in p.transcript_commitments.iter().zip(&p.transcript_secrets) {
            let (TranscriptCommitment::Hash(c), TranscriptSecret::Hash(s)) = (c, s) else { violate!("commitment", "unexpected commitment kind") };
            ensure!(c.direction == s.direction && c.idx == s.idx && c.hash.alg == s.alg, "commitment", "a commitment and its secret describe different data");
            let all = if c.direction == Direction::Sent { sent } else { recv };
            let mut data: Vec<u8> = pos(&c.idx).into_iter().map(|i| all.get(i).copied().unwrap_or(0)).collect();
            data.extend_from_slice(s.blinder.as_bytes());
            ensure!(c.hash.value.as_bytes() == &digest(c.hash.alg, &data)[..], "commitment", "a {} commitment over {:?} does not open to the real data", c.direction, c.idx);
            if let Some(a) = asked {
                let k = (c.direction, c.idx.clone(), c.hash.alg);
                let Some(i) = left.iter().position(|x| *x == k) else { violate!("commitment", "a commitment over {:?} nobody asked for", k.1) };
                left.remove(i);
                let _ = a;
            }
        }
    }
    Ok(())
}

pub struct Expect {
    /// Everything completed: the conversation, both commitments and every
    /// disclosure.
    pub complete: bool,
    /// Both parties followed the protocol.
    pub honest_prover: bool,
}

/// The truth a verifier may rely on, checked for whatever was produced.
pub fn check(w: &World, plan: &Plan, e: &Expect) -> RunResult {
    let log = w.slog.borrow().clone();
    let app = w.app.borrow();
    let p = w.prover.borrow();
    let v = w.verifier.borrow();
    ensure!(log.sent.starts_with(&app.read), "delivery", "the application read bytes the server did not send");
    ensure!(app.written.starts_with(&log.recv) || app.write_error.is_some(), "delivery", "the server received bytes the application did not write");
    if e.complete {
        for (who, r) in [("prover", p.as_ref().map(|r| r.as_ref().err())), ("verifier", v.as_ref().map(|r| r.as_ref().err()))] {
            match r { Some(None) => {} Some(Some(x)) => violate!("completeness", "the {who} failed: {x}"), None => violate!("completeness", "the {who} did not finish") }
        }
        ensure!(app.finished && app.read_error.is_none() && app.write_error.is_none(), "delivery", "the application failed: read {:?} write {:?}", app.read_error, app.write_error);
        ensure!(app.read == log.sent, "delivery", "the application read {} of the {} bytes the server sent before closing cleanly", app.read.len(), log.sent.len());
        ensure!(app.written == log.recv, "delivery", "the server received {} of the {} bytes written", log.recv.len(), app.written.len());
    }
    if matches!(&*v, Some(Ok(_))) { ensure!(log.handshake_done, "binding", "the verifier accepted a connection whose handshake the server did not complete") }
    if log.key_block.is_empty() { return Ok(()) }
    let kb = &log.key_block;
    let one = |who: &str, t: &TlsTranscript, sees: bool| -> RunResult {
        records(who, Direction::Sent, t.sent(), &log.recv_records, &kb[..16], &kb[32..36], sees, false, true)?;
        records(who, Direction::Received, t.recv(), &log.sent_records, &kb[16..32], &kb[36..40], sees, e.complete, false)?;
        let tlsn::connection::CertBinding::V1_2(b) = t.certificate_binding() else { violate!("binding", "unexpected binding version") };
        ensure!(b.client_random[..] == log.client_random[..] && b.server_random[..] == log.server_random[..], "binding", "{who} holds hello randoms of another connection");
        let point = |k: &[u8]| p256::PublicKey::from_sec1_bytes(k).ok();
        ensure!(b.server_ephemeral_key.key == log.spoint || !e.honest_prover && point(&b.server_ephemeral_key.key).is_some() && point(&b.server_ephemeral_key.key) == point(&log.spoint), "binding", "{who} is bound to another server key");
        Ok(())
    };
    if let Some(Ok(p)) = &*p {
        if e.honest_prover {
            one("prover", &p.tls, true)?;
            // What the prover proves about is the application data, all of it.
            ensure!(p.transcript.sent().starts_with(&log.recv), "transcript", "the prover's sent transcript is not what the server received");
            ensure!(log.sent.starts_with(p.transcript.received()), "transcript", "the prover's received transcript is not what the server sent");
            if e.complete { ensure!(p.transcript.sent() == log.recv && p.transcript.received() == log.sent, "transcript", "the prover's transcript is incomplete: {}/{} of {}/{}", p.transcript.sent().len(), p.transcript.received().len(), log.recv.len(), log.sent.len()) }
            ensure!(p.tls.server_cert_chain().is_some_and(|c| c.iter().map(|x| &x.0).eq(plan.server.chain.iter())), "binding", "the prover holds another certificate chain");
        }
    }
    let Some(Ok(v)) = &*v else {
        if e.complete { violate!("completeness", "the verifier did not finish: {}", w.describe()) }
        return Ok(());
    };
    one("verifier", &v.tls, false)?;
    let app_of = |r: &[Record], truth: &[(u8, Vec<u8>)]| -> Vec<u8> { r.iter().zip(truth).filter(|(r, _)| r.typ == ContentType::ApplicationData).flat_map(|(_, t)| t.1.clone()).collect() };
    let (mut sent, recv) = (app_of(v.tls.sent(), &log.recv_records), app_of(v.tls.recv(), &log.sent_records));
    let mut sent_len = sent.len();
    // Records the server never read: known from the honest prover only.
    if v.tls.sent().len() > log.recv_records.len() {
        match &*p {
            Some(Ok(p)) if e.honest_prover => { sent = p.transcript.sent().to_vec(); sent_len = sent.len() }
            _ => sent_len = v.tls.sent().iter().filter(|r| r.typ == ContentType::ApplicationData).map(|r| r.ciphertext.len()).sum(),
        }
    }
    for (i, o) in v.outputs.iter().enumerate() {
        let Ok(o) = o else { continue };
        let (asked, po) = match &*p { Some(Ok(p)) if e.honest_prover => (p.asked.get(i), p.outputs.get(i).and_then(|r| r.as_ref().ok())), _ => (None, None) };
        disclosure(&plan.host, &sent, sent_len, &recv, asked, po, o)?;
    }
    if e.complete {
        let Some(Ok(p)) = &*p else { violate!("completeness", "the prover did not finish: {}", w.describe()) };
        ensure!(p.outputs.len() == plan.proves && v.outputs.len() == plan.proves, "completeness", "{} disclosures planned, prover did {}, verifier {}", plan.proves, p.outputs.len(), v.outputs.len());
        for (i, (a, b)) in p.outputs.iter().zip(&v.outputs).enumerate() {
            match (a, b) {
                (Ok(_), Ok(_)) => {}
                (Err(_), Err(r)) if r == "rejected" => {}
                (a, b) => violate!("completeness", "disclosure {i}: prover {:?}, verifier {:?}", a.as_ref().err(), b.as_ref().err()),
            }
        }
        let dt = p.tls.time().abs_diff(v.tls.time());
        ensure!(if plan.proxy { dt <= 60 } else { dt == 0 }, "binding", "prover and verifier disagree on the connection time by {dt} s");
        ensure!(v.tls.time().abs_diff(log.time) <= 60, "binding", "the connection time is {} s off", v.tls.time().abs_diff(log.time));
    }
    Ok(())
}

fn session(sim: &Sim, proxy: bool) -> RunResult {
    let mut plan = base(sim, proxy);
    honest(sim, &mut plan);
    links(sim, &mut plan);
    install(sim);
    simkit::ev!(sim, "plan: mpc {:?} app {:?} server {:?} proves {}", plan.mpc, plan.app, plan.server.script, plan.proves);
    let w = build(sim, &plan);
    let stop = w.run(plan.steps);
    if stop != simkit::exec::Stop::Done { violate!("completeness", "the session stopped with {stop:?}: {} | waiting: {:?}", w.describe(), w.ex.pending_names()) }
    let r = check(&w, &plan, &Expect { complete: true, honest_prover: true });
    let stop = w.ex.run(&w.drivers, plan.steps);
    ensure!(stop == simkit::exec::Stop::Done, "completeness", "a session driver does not end: {stop:?}: {:?}", w.ex.pending_names());
    if r.is_ok() && plan.server.client_auth {
        let (had, got) = (plan.client_auth.as_ref().map_or(&[][..], |c| &c.0[..]), w.slog.borrow().client_chain.clone());
        ensure!(had == got, "client-authentication", "a chain of {} client certificates was configured, {} others presented", had.len(), got.len());
    }
    if r.is_ok() {
        sim.probe(if proxy { "session_proxy" } else { "session_mpc" });
        if plan.proves > 1 { sim.probe("several_disclosures") }
        if plan.client_auth.is_some() { sim.probe("client_authentication") }
        if plan.server.ticket { sim.probe("session_ticket") }
        if plan.warnings > 0 { sim.probe("warning") }
        if w.slog.borrow().ems { sim.probe("extended_master_secret") }
    }
    w.close();
    r
}
pub fn s01_mpc(sim: &Sim) -> RunResult { session(sim, false) }
pub fn s01_proxy(sim: &Sim) -> RunResult { session(sim, true) }
