//! A08–A11: the core crate's own guarantees: certificate acceptance, the TLS
//! transcript parsed from recorded traffic, partial disclosure, Merkle proofs.
use crate::certs::{self, chain_ok, faulted, name_matches, signed_msg, Faulted, Kt};
use crate::flow::{dec, enc};
use crate::must;
use crate::mutate;
use crate::world::*;
use sha2::{Digest, Sha256};
use simkit::{ensure, ev, violate, RunResult, Sim};
use std::collections::BTreeMap;
use tlsn_core::config::prove::ProveConfig;
use tlsn_core::connection::*;
use tlsn_core::hash::{Hash, HashAlgId, HashProvider, TypedHash};
use tlsn_core::merkle::{MerkleProof, MerkleTree};
use tlsn_core::transcript::*;
use tlsn_core::webpki::{CertificateDer, RootCertStore, ServerCertVerifier, ServerCertVerifierError};

const ALL_SIGS: [SignatureAlgorithm; 11] = {
    use SignatureAlgorithm::*;
    [ECDSA_NISTP256_SHA256, ECDSA_NISTP256_SHA384, ECDSA_NISTP384_SHA256, ECDSA_NISTP384_SHA384, ED25519, RSA_PKCS1_2048_8192_SHA256, RSA_PKCS1_2048_8192_SHA384,
     RSA_PKCS1_2048_8192_SHA512, RSA_PSS_2048_8192_SHA256_LEGACY_KEY, RSA_PSS_2048_8192_SHA384_LEGACY_KEY, RSA_PSS_2048_8192_SHA512_LEGACY_KEY]
};

/// A node that stores a handshake and verifies it later, against the time of
/// the connection, while its own clock is anything at all.
pub fn a08(sim: &Sim) -> RunResult {
    let f = faulted(sim, true);
    let Faulted { certs, leaf, inter, anchors, mut name, now_s, cr, sr, params, scheme, sig, genuine, signer_ok, signed_scheme, sign_tamper, keys, .. } = f;
    let leaf_kt: Kt = keys[certs[leaf].key].kt();
    let Some(mut alg) = sig_alg(leaf_kt, scheme) else { sim.probe("scheme_not_representable"); return Ok(()) };
    // Schemes are ambiguous across key types; the label is not.
    let truth = sig_alg(leaf_kt, signed_scheme);
    let label_fits = |a: SignatureAlgorithm| {
        use SignatureAlgorithm::*;
        match leaf_kt {
            Kt::P256 => matches!(a, ECDSA_NISTP256_SHA256 | ECDSA_NISTP256_SHA384),
            Kt::P384 => matches!(a, ECDSA_NISTP384_SHA256 | ECDSA_NISTP384_SHA384),
            Kt::Ed => a == ED25519,
            Kt::Rsa => !matches!(a, ECDSA_NISTP256_SHA256 | ECDSA_NISTP256_SHA384 | ECDSA_NISTP384_SHA256 | ECDSA_NISTP384_SHA384 | ED25519),
        }
    };
    if sim.chance(1, 8) { alg = ALL_SIGS[sim.index(11)]; sim.fault("algorithm_relabelled"); }
    let mut key = ServerEphemKey { typ: KeyType::SECP256R1, key: params[4..].to_vec() };
    let mut chain: Vec<Vec<u8>> = std::iter::once(leaf).chain(inter.iter().copied()).map(|i| certs[i].der.clone()).collect();
    let mut junk = false;
    let mut broken_leaf = false;
    match sim.weighted(&[12, 1, 1, 1]) {
        0 => {}
        1 => { chain.clear(); sim.fault("no_certificates"); }
        2 => { let n = sim.index(chain[0].len()); chain[0].truncate(n); broken_leaf = true; sim.fault("leaf_truncated"); }
        _ => { let n = sim.size(200) as usize; chain.push(sim.bytes(n)); junk = true; sim.fault("garbage_intermediate"); }
    }
    let mut store = RootCertStore { roots: anchors.iter().map(|a| CertificateDer(certs[*a].der.clone())).collect() };
    if sim.chance(1, 20) {
        let at = sim.index(store.roots.len() + 1);
        let n = sim.size(100) as usize;
        store.roots.insert(at, CertificateDer(sim.bytes(n)));
        sim.fault("garbage_root");
        ensure!(ServerCertVerifier::new(&store).is_err(), "garbage-root", "a trust store with an unparsable root was accepted");
        store.roots.remove(at);
    }
    let verifier = must!(ServerCertVerifier::new(&store), "trust store");
    let mut time = now_s;
    let mut hd = HandshakeData { certs: chain.iter().cloned().map(CertificateDer).collect(), sig: ServerSignature { alg, sig }, binding: CertBinding::V1_2(CertBindingV1_2 { client_random: cr, server_random: sr, server_ephemeral_key: key.clone() }) };
    for round in 0..1 + sim.weighted(&[5, 2, 1]) {
        if round > 0 {
            match sim.pick(5) {
                0 => {}
                1 => { name = certs::HOSTS[sim.index(certs::HOSTS.len())].into(); sim.fault("reverify_other_name"); }
                2 => {
                    let c = &certs[sim.index(certs.len())].spec;
                    time = [c.nb, c.na][sim.index(2)].saturating_add([1, 0, 2][sim.index(3)]).saturating_sub(1);
                    sim.fault("other_connection_time");
                }
                3 => { let i = sim.index(key.key.len()); key.key[i] ^= 1 << sim.index(8); sim.fault("other_ephemeral_key"); }
                _ => {
                    // through storage
                    let json = sim.chance(1, 2);
                    hd = must!(dec(json, &enc(json, &hd)), "stored handshake");
                    sim.fault("restart_from_storage");
                }
            }
        }
        // The node's own clock must not matter.
        simkit::seam::set_epoch_s([time, 0, time + 1_000_000_000, 4_000_000_000][sim.index(4)]);
        let CertBinding::V1_2(b) = &hd.binding else { unreachable!() };
        let sig_ok = signer_ok && Some(alg) == truth && label_fits(alg)
            && genuine == (signed_msg(&b.client_random, &b.server_random, &kx_params(&b.server_ephemeral_key.key)), hd.sig.sig.clone());
        let key_match = key == b.server_ephemeral_key;
        let c_ok = !chain.is_empty() && !broken_leaf && chain_ok(&certs, &inter, leaf, &anchors, time);
        let n_ok = name_matches(&certs[leaf].spec.sans, &name);
        let Ok(dns) = DnsName::try_from(name.as_str()) else { sim.probe("name_not_representable"); return Ok(()) };
        let sn = ServerName::Dns(dns);
        let got = hd.verify(&verifier, time, &key, &sn);
        sim.step();
        sim.add_sim_ns(time.abs_diff(now_s).saturating_mul(1_000_000_000).min(1 << 60));
        let all = [key_match, c_ok, n_ok, sig_ok];
        let expect = all.iter().all(|x| *x);
        ev!(sim, "verify {round}: t={time} name={name} key={key_match} chain={c_ok} name_ok={n_ok} sig={sig_ok} alg={alg} -> {got:?}");
        sim.probe(if expect { "expect_accept" } else { "expect_reject" });
        if got.is_ok() && !expect { violate!("accepted-invalid", "accepted at t={time} for {name}: ephemeral key matches={key_match} chain valid={c_ok} name valid={n_ok} signature valid={sig_ok}"); }
        if let (Err(e), true, false) = (&got, expect, junk) { violate!("rejected-valid", "rejected a valid handshake at t={time} for {name}: {e}"); }
        if all.iter().filter(|x| !**x).count() == 1 && !junk && !broken_leaf && !chain.is_empty() {
            // The stated reason is the actual one.
            use tlsn_core::connection::HandshakeVerificationError as E;
            let (ok, pr) = match &got {
                Err(E::InvalidServerEphemeralKey) => (!key_match, "only_key_bad"),
                Err(E::ServerCert(ServerCertVerifierError::InvalidPath)) => (!c_ok, "only_chain_bad"),
                Err(E::ServerCert(ServerCertVerifierError::InvalidServerName)) => (!n_ok, "only_name_bad"),
                Err(E::InvalidServerSignature) => (!sig_ok, "only_signature_bad"),
                _ => (false, "x"),
            };
            ensure!(ok, "reason", "verdict {got:?}, but key matches={key_match} chain valid={c_ok} name valid={n_ok} signature valid={sig_ok}");
            sim.probe(pr);
        }
        if !hd.certs.is_empty() {
            let v = verifier.verify_server_cert(&hd.certs[0], &hd.certs[1..], &sn, time);
            ensure!(!(v.is_ok() && !(c_ok && n_ok)) && (v.is_ok() || junk || !(c_ok && n_ok)), "certificate", "verify_server_cert said {v:?}, chain valid={c_ok} name valid={n_ok}");
        }
        sim.state(((c_ok as u64) << 3) | ((n_ok as u64) << 2) | ((sig_ok as u64) << 1) | key_match as u64 | ((inter.len() as u64) << 8) | ((alg as u64) << 16) | (sign_tamper << 40) | ((round as u64) << 48));
        sim.observe_bytes(&hd.sig.sig);
        sim.observe_bytes(format!("{got:?}").as_bytes());
        sim.fp(simkit::rng::hash_bytes(3, format!("{time}{name}{alg}{sign_tamper}{}{}", inter.len(), certs.len()).as_bytes()));
    }
    sim.stat_nontrivial();
    Ok(())
}

// ---- A09: recorded traffic -------------------------------------------------

type Rec = (u8, u16, Vec<u8>);
fn raw(recs: &[Rec]) -> Vec<u8> {
    let mut v = vec![];
    for (t, ver, p) in recs { v.push(*t); v.extend(ver.to_be_bytes()); v.extend((p.len() as u16).to_be_bytes()); v.extend(p); }
    v
}
fn u24(n: usize) -> Vec<u8> { (n as u32).to_be_bytes()[1..].to_vec() }
fn hs(t: u8, body: Vec<u8>) -> (u8, Vec<u8>) { (t, [vec![t], u24(body.len()), body].concat()) }
fn v8(b: &[u8]) -> Vec<u8> { [vec![b.len() as u8], b.to_vec()].concat() }
fn v16(b: &[u8]) -> Vec<u8> { [(b.len() as u16).to_be_bytes().to_vec(), b.to_vec()].concat() }
fn ext(t: u16, b: &[u8]) -> Vec<u8> { [t.to_be_bytes().to_vec(), v16(b)].concat() }

/// Cuts a byte stream into records.
fn cut(sim: &Sim, ver: u16, b: &[u8], out: &mut Vec<Rec>) {
    let mut i = 0;
    let style = sim.weighted(&[3, 3, 1]);
    while i < b.len() {
        let left = b.len() - i;
        let n = match style { 0 => left.min(16384), 1 => (1 + sim.size(2000) as usize).min(left), _ => (1 + sim.pick(40) as usize).min(left) };
        out.push((22, ver, b[i..i + n].to_vec()));
        i += n;
        if sim.chance(1, 20) { out.push((21, 0x0303, vec![1, 90])); sim.probe("warning_alert_in_handshake"); }
    }
}
/// Messages in order to records, some sharing records, some cut.
fn flight(sim: &Sim, ver: u16, msgs: &[(u8, Vec<u8>)], out: &mut Vec<Rec>) {
    let mut buf: Vec<u8> = vec![];
    for (_, m) in msgs {
        buf.extend(m);
        if !sim.chance(1, 2) { continue; }
        cut(sim, ver, &buf, out);
        buf.clear();
    }
    cut(sim, ver, &buf, out);
}
struct Traffic { sent_msgs: Vec<(u8, Vec<u8>)>, recv_msgs: Vec<(u8, Vec<u8>)>, sent_tail: Vec<Rec>, recv_tail: Vec<Rec>, app: [Vec<u8>; 2] }

/// An independent reading of a recorded stream.
struct Parsed { hs: Vec<u8>, msgs: Vec<(u8, usize, usize)>, tail: Option<Vec<Rec>> }
fn reference(b: &[u8]) -> Option<Parsed> {
    let mut recs: Vec<Rec> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b.len() - i < 5 { return None; }
        let n = u16::from_be_bytes([b[i + 3], b[i + 4]]) as usize;
        if b.len() - i - 5 < n { return None; }
        recs.push((b[i], u16::from_be_bytes([b[i + 1], b[i + 2]]), b[i + 5..i + 5 + n].to_vec()));
        i += 5 + n;
    }
    let ccs = recs.iter().position(|r| r.0 == 20);
    let hs: Vec<u8> = recs[..ccs.unwrap_or(recs.len())].iter().filter(|r| r.0 == 22).flat_map(|r| r.2.clone()).collect();
    let mut msgs = vec![];
    let mut p = 0;
    while p < hs.len() {
        if hs.len() - p < 4 { return None; }
        let l = u32::from_be_bytes([0, hs[p + 1], hs[p + 2], hs[p + 3]]) as usize;
        if hs.len() - p - 4 < l { return None; }
        msgs.push((hs[p], p, p + 4 + l));
        p += 4 + l;
    }
    Some(Parsed { hs, msgs, tail: ccs.map(|c| recs[c + 1..].to_vec()) })
}
fn h(parts: &[&[u8]]) -> [u8; 32] { let mut d = Sha256::new(); for p in parts { d.update(p) } d.finalize().into() }
fn ctype(t: u8) -> ContentType {
    match t { 20 => ContentType::ChangeCipherSpec, 21 => ContentType::Alert, 22 => ContentType::Handshake, 23 => ContentType::ApplicationData, 24 => ContentType::Heartbeat, x => ContentType::Unknown(x) }
}

/// Everything the built transcript says about one direction's records.
fn check_records(dir: &str, tail: &Option<Vec<Rec>>, got: &[Record], app: Option<&[u8]>) -> Result<usize, simkit::Violation> {
    let Some(tail) = tail else { return Err(simkit::Violation::new("records", format!("{dir}: built although no ChangeCipherSpec was recorded"))) };
    ensure!(got.len() == tail.len(), "records", "{dir}: {} records recorded after ChangeCipherSpec, {} in the transcript", tail.len(), got.len());
    let mut used = 0;
    for (i, (r, t)) in got.iter().zip(tail).enumerate() {
        ensure!(t.2.len() >= 24, "records", "{dir}: record {i} of {} bytes cannot be an encrypted record", t.2.len());
        let n = t.2.len();
        ensure!(i != 0 || t.0 == 22, "records", "{dir}: the first protected record is {:?}, not Finished", ctype(t.0));
        ensure!(r.seq == i as u64 && r.typ == ctype(t.0), "records", "{dir}: record {i} has seq {} type {:?}, recorded type {:?}", r.seq, r.typ, ctype(t.0));
        ensure!(r.explicit_nonce == t.2[..8] && r.ciphertext == t.2[8..n - 16] && r.tag.as_deref() == Some(&t.2[n - 16..]), "records", "{dir}: record {i} is not split into nonce, ciphertext and tag as sent");
        match (&r.plaintext, app) {
            (None, None) => {}
            (None, Some(_)) => ensure!(t.0 != 23, "plaintext", "{dir}: application record {i} has no plaintext"),
            (Some(_), None) => violate!("plaintext", "{dir}: record {i} has plaintext from nowhere"),
            (Some(p), Some(a)) => {
                ensure!(t.0 == 23, "plaintext", "{dir}: record {i} of type {:?} has plaintext", ctype(t.0));
                ensure!(a.len() >= used + n - 24 && p[..] == a[used..used + n - 24], "plaintext", "{dir}: record {i} carries the wrong slice of the application data");
                used += n - 24;
            }
        }
    }
    Ok(used)
}

fn generate(sim: &Sim, site: &Site, hd: &HandshakeData, scheme: u16) -> Traffic {
    let CertBinding::V1_2(b) = &hd.binding else { unreachable!() };
    let sid = if sim.chance(1, 2) { sim.bytes(32) } else { vec![] };
    let ems = !sim.chance(1, 4);
    let suites = v16(&[0xc0, 0x2b, 0xc0, 0x2f]);
    let mut cx = vec![];
    if !sim.chance(1, 8) { let n = site.w.host.as_bytes(); cx.extend(ext(0, &v16(&[vec![0], v16(n)].concat()))); }
    cx.extend(ext(10, &v16(&[0, 23])));
    cx.extend(ext(11, &v8(&[0])));
    cx.extend(ext(13, &v16(&[4, 3, 8, 4, 4, 1, 8, 7])));
    if ems { cx.extend(ext(23, &[])); }
    if sim.chance(1, 3) { let n = sim.size(300) as usize; cx.extend(ext(0x4a4a, &sim.bytes(n))); }
    let ch = hs(1, [vec![3, 3], b.client_random.to_vec(), v8(&sid), suites, v8(&[0]), v16(&cx)].concat());
    let mut sx = vec![];
    if ems { sx.extend(ext(23, &[])); }
    sx.extend(ext(0xff01, &[0]));
    if sim.chance(1, 3) { let n = sim.size(30) as usize; sx.extend(ext(0x5a5a, &sim.bytes(n))); }
    let suite = if matches!(site.kt, Kt::Rsa) { [0xc0, 0x2f] } else { [0xc0, 0x2b] };
    let sh = hs(2, [vec![3, 3], b.server_random.to_vec(), v8(&sid), suite.to_vec(), vec![0], v16(&sx)].concat());
    let list: Vec<u8> = hd.certs.iter().flat_map(|c| [u24(c.0.len()), c.0.clone()].concat()).collect();
    let mut recv_msgs = vec![sh, hs(11, [u24(list.len()), list].concat())];
    if sim.chance(1, 5) { let n = 1 + sim.size(300) as usize; let o = sim.bytes(n); recv_msgs.push(hs(22, [vec![1], u24(n), o].concat())); sim.probe("stapled_status"); }
    recv_msgs.push(hs(12, [kx_params(&b.server_ephemeral_key.key), scheme.to_be_bytes().to_vec(), v16(&hd.sig.sig)].concat()));
    let client_auth = sim.chance(1, 4);
    if client_auth { recv_msgs.push(hs(13, [v8(&[1, 64]), v16(&[4, 3]), v16(&[])].concat())); sim.probe("client_auth"); }
    recv_msgs.push(hs(14, vec![]));
    if sim.chance(1, 4) { let n = 1 + sim.size(200) as usize; let t = sim.bytes(n); recv_msgs.push(hs(4, [vec![0, 0, 1, 44], v16(&t)].concat())); sim.probe("session_ticket"); }
    let mut sent_msgs = vec![ch];
    let with_cert = client_auth && sim.chance(1, 2);
    if client_auth { let l = if with_cert { let c = sim.bytes(60); [u24(60), c].concat() } else { vec![] }; sent_msgs.push(hs(11, [u24(l.len()), l].concat())); }
    let mut pt = sim.bytes(65);
    pt[0] = 4;
    sent_msgs.push(hs(16, v8(&pt)));
    if with_cert { let s = sim.bytes(70); sent_msgs.push(hs(15, [vec![4, 3], v16(&s)].concat())); }
    let mut app = [vec![], vec![]];
    let mut tails = vec![];
    for a in &mut app {
        let mut t: Vec<Rec> = vec![(22, 0x0303, sim.bytes(40))];
        for _ in 0..sim.pick(5) {
            match sim.weighted(&[8, 1, 1]) {
                0 => { let n = sim.size(1500) as usize; t.push((23, 0x0303, sim.bytes(24 + n))); a.extend(sim.bytes(n)); }
                1 => t.push((21, 0x0303, sim.bytes(26))),
                _ => { t.push((22, 0x0303, sim.bytes(28))); sim.probe("handshake_record_after_finished"); }
            }
        }
        if sim.chance(1, 2) { t.push((21, 0x0303, sim.bytes(26))); }
        tails.push(t);
    }
    let recv_tail = tails.pop().unwrap();
    Traffic { sent_msgs, recv_msgs, sent_tail: tails.pop().unwrap(), recv_tail, app }
}

/// A prover and a proxying verifier each record the traffic of one TLS 1.2
/// connection; recorders crash mid-stream and storage damages the recordings.
pub fn a09(sim: &Sim) -> RunResult {
    let now = 1_750_000_000 + sim.pick(1_000_000);
    let site = Site::gen(sim, now);
    let (mut hd, scheme) = handshake_scheme(sim, &site);
    let mut scheme = scheme;
    let mut must_fail: Option<&'static str> = None;
    if sim.chance(1, 12) {
        // A scheme the transcript cannot represent.
        scheme = [0x0201, 0x0603, 0x0808, 0x1234, 0x0203][sim.index(5)];
        sim.fault("unsupported_scheme");
        must_fail = Some("unsupported scheme");
    } else if sim.chance(1, 16) && matches!(site.kt, Kt::Ed | Kt::Rsa) {
        scheme = 0x0403;
        sim.fault("ecdsa_scheme_for_other_key");
        must_fail = Some("ECDSA scheme for a key without a curve");
    }
    let mut t = generate(sim, &site, &hd, scheme);
    let ver1 = [0x0301, 0x0303][sim.index(2)];
    // structural faults: a message or record the recorder never saw
    if must_fail.is_none() {
        match sim.weighted(&[14, 1, 1, 1, 1, 1, 1, 1, 1]) {
            0 => {}
            7 => { let k = t.recv_msgs.iter().position(|m| m.0 == 2).unwrap(); t.recv_msgs[k].1[5] = 4; sim.probe("version_1_3_label"); }
            8 => {
                // The leaf's key is on a curve the signature algorithms cannot name.
                let k = t.recv_msgs.iter().position(|m| m.0 == 11).unwrap();
                let m = &mut t.recv_msgs[k].1;
                let oid: Option<&[u8]> = match site.kt { Kt::P256 => Some(&[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7]), Kt::P384 => Some(&[0x2b, 0x81, 4, 0, 0x22]), _ => None };
                let leaf_end = 10 + hd.certs[0].0.len();
                if let Some(p) = oid.and_then(|o| m[..leaf_end].windows(o.len()).position(|w| w == o).map(|p| p + o.len() - 1)) {
                    m[p] = if site.kt == Kt::P256 { [1, 6][sim.index(2)] } else { [0x23, 0x21, 0x0a][sim.index(3)] };
                    sim.fault("unsupported_curve");
                    must_fail = Some("the server's key is on an unsupported curve");
                }
            }
            1 => { let i = sim.index(t.recv_msgs.len()); let (ty, _) = t.recv_msgs.remove(i); sim.fault("server_message_missing"); if matches!(ty, 2 | 11 | 12 | 14) { must_fail = Some("a server message is missing") } }
            2 => { let i = sim.index(t.sent_msgs.len()); let (ty, _) = t.sent_msgs.remove(i); sim.fault("client_message_missing"); if matches!(ty, 1 | 16) { must_fail = Some("a client message is missing") } }
            3 => { t.sent_msgs.swap(0, 1); sim.fault("client_hello_not_first"); must_fail = Some("ClientHello is not first") }
            4 => { let k = t.recv_msgs.iter().position(|m| m.0 == 2).unwrap(); t.recv_msgs[k].1[5] = [2, 1, 0][sim.index(3)]; sim.fault("old_version_negotiated"); must_fail = Some("version below 1.2") }
            5 => { let k = t.recv_msgs.iter().position(|m| m.0 == 12).unwrap(); t.recv_msgs[k].1[6] = [24, 29, 25][sim.index(3)]; sim.fault("other_group"); must_fail = Some("unsupported group") }
            _ => {
                sim.fault("bad_protected_record");
                let tail = if sim.chance(1, 2) { &mut t.sent_tail } else { &mut t.recv_tail };
                match sim.pick(3) {
                    0 => { tail.clear(); must_fail = Some("Finished is missing") }
                    1 => { let i = sim.index(tail.len()); tail[i].2.truncate(1 + sim.pick(23) as usize); must_fail = Some("protected record too short") }
                    _ => { tail[0].0 = [23, 21][sim.index(2)]; must_fail = Some("Finished has another type") }
                }
            }
        }
    }
    let build_raw = |msgs: &[(u8, Vec<u8>)], tail: &[Rec], ver: u16| {
        let mut r = vec![];
        flight(sim, ver, msgs, &mut r);
        r.push((20, 0x0303, vec![1]));
        r.extend(tail.iter().cloned());
        raw(&r)
    };
    let no_ccs = sim.chance(1, 40);
    let (mut sent, mut recv) = (build_raw(&t.sent_msgs, &t.sent_tail, ver1), build_raw(&t.recv_msgs, &t.recv_tail, 0x0303));
    if no_ccs && must_fail.is_none() {
        // recorder stopped before ChangeCipherSpec
        let mut r = vec![];
        flight(sim, ver1, &t.sent_msgs, &mut r);
        sent = raw(&r);
        sim.fault("recorder_stopped_before_ccs");
        must_fail = Some("no ChangeCipherSpec");
    }
    let clean = must_fail.is_none();
    let mut damaged = false;
    if sim.chance(1, 3) {
        damaged = true;
        let b = if sim.chance(1, 2) { &mut sent } else { &mut recv };
        if sim.chance(1, 2) { let n = sim.index(b.len()); b.truncate(n); sim.fault("recorder_crashed"); }
        else { let donor = b.clone(); mutate::bytes(sim, b, &[donor]); }
    }
    // What the application says it exchanged.
    let mut app = [Some(t.app[0].clone()), Some(t.app[1].clone())];
    let mut short = false;
    for a in &mut app {
        match sim.weighted(&[10, 2, 1, 1]) {
            0 => {}
            1 => *a = None,
            2 => { let v = a.as_mut().unwrap(); if !v.is_empty() { let n = sim.index(v.len()); v.truncate(n); short = true; sim.fault("application_data_truncated"); } }
            _ => { a.as_mut().unwrap().extend(sim.bytes(5)); sim.probe("surplus_application_data"); }
        }
    }
    let build = |full: bool| {
        let mut b = TlsTranscript::builder().time(now).tls_sent(&sent).tls_recv(&recv);
        if full {
            if let Some(a) = &app[0] { b = b.app_sent(a); }
            if let Some(a) = &app[1] { b = b.app_recv(a); }
        }
        b.build()
    };
    let explicit = sim.chance(1, 10);
    let got = if explicit {
        // Explicit values take precedence over parsed ones.
        sim.probe("explicit_fields");
        let CertBinding::V1_2(b) = &mut hd.binding else { unreachable!() };
        b.client_random = certs::arr32(sim);
        let n = sim.size(60) as usize;
        hd.sig.sig = sim.bytes(n);
        hd.certs.truncate(1);
        let mut tb = TlsTranscript::builder().time(now).version(TlsVersion::V1_3).tls_sent(&sent).tls_recv(&recv).server_signature(hd.sig.clone()).server_cert_chain(hd.certs.clone()).certificate_binding(hd.binding.clone());
        if let Some(a) = &app[0] { tb = tb.app_sent(a); }
        if let Some(a) = &app[1] { tb = tb.app_recv(a); }
        tb.build()
    } else { build(true) };
    sim.step();
    ev!(sim, "build: clean={clean} ({must_fail:?}) damaged={damaged} short={short} -> {}", match &got { Ok(_) => "ok".to_string(), Err(e) => e.to_string() });
    sim.observe_bytes(&sent);
    sim.observe_bytes(&recv);
    sim.observe(got.is_ok() as u64);
    sim.fp(simkit::rng::hash_bytes(5, &[&sent[..], &recv[..]].concat()));
    sim.state(sim.fault_count() << 8 | got.is_ok() as u64 | (t.recv_msgs.len() as u64) << 4 | (t.sent_tail.len() as u64) << 16 | (t.recv_tail.len() as u64) << 20);
    if sim.fault_count() > 0 { sim.stat_nontrivial(); }
    let tr = match got {
        Err(e) => {
            ensure!(!clean || damaged || short, "rejected-valid", "a complete recording of a valid connection was refused: {e}");
            sim.probe("refused");
            return Ok(());
        }
        Ok(t) => t,
    };
    sim.probe("built");
    if !damaged { if let Some(m) = must_fail { violate!("accepted-invalid", "a transcript was built although {m}"); } }
    if !damaged && short { violate!("accepted-invalid", "a transcript was built although application data is missing"); }
    // Whatever was built says what the recording says.
    let (Some(s), Some(r)) = (reference(&sent), reference(&recv)) else { violate!("accepted-invalid", "a transcript was built from streams that are not whole records and messages") };
    ensure!(tr.time() == now, "time", "time {} is not {now}", tr.time());
    let pos = |p: &Parsed, ty: u8| p.msgs.iter().find(|m| m.0 == ty).copied();
    let body = |p: &Parsed, m: (u8, usize, usize)| p.hs[m.1 + 4..m.2].to_vec();
    let (Some(ch), Some(ckx)) = (pos(&s, 1), pos(&s, 16)) else { violate!("accepted-invalid", "a transcript was built without ClientHello or ClientKeyExchange") };
    let (Some(sh), Some(ce), Some(ske), Some(shd)) = (pos(&r, 2), pos(&r, 11), pos(&r, 12), pos(&r, 14)) else { violate!("accepted-invalid", "a transcript was built without some server message") };
    ensure!(s.msgs[0].0 == 1, "accepted-invalid", "a transcript was built although ClientHello is not first");
    let (hs_s, hs_r) = (&s.hs, &r.hs);
    ensure!(tr.cf_hash() == Some(h(&[&hs_s[..ch.2], &hs_r[..shd.2], &hs_s[ch.2..]])), "cf-hash", "client-finished hash is not the hash of the handshake up to ClientFinished");
    ensure!(tr.session_hash() == Some(h(&[&hs_s[..ch.2], &hs_r[..shd.2], &hs_s[ch.2..ckx.2]])), "session-hash", "session hash is not the hash of the handshake up to ClientKeyExchange (RFC 7627)");
    let vd: [u8; 12] = sim.bytes(12).try_into().unwrap();
    ensure!(tr.sf_hash(&vd) == Some(h(&[&hs_s[..ch.2], &hs_r[..shd.2], &hs_s[ch.2..], &[0x14, 0, 0, 12], &vd, &hs_r[shd.2..]])), "sf-hash", "server-finished hash is not the hash of the handshake up to ServerFinished");
    let us = check_records("sent", &s.tail, tr.sent(), app[0].as_deref())?;
    let ur = check_records("received", &r.tail, tr.recv(), app[1].as_deref())?;
    ensure!(tr.client_finished().seq == 0 && tr.server_finished().seq == 0, "finished", "finished records are not the first");
    let CertBinding::V1_2(b) = tr.certificate_binding() else { unreachable!() };
    let sig = tr.server_signature().map(|s| (s.alg, s.sig.clone()));
    let chain: Option<Vec<Vec<u8>>> = tr.server_cert_chain().map(|c| c.iter().map(|c| c.0.clone()).collect());
    if explicit {
        let CertBinding::V1_2(x) = &hd.binding else { unreachable!() };
        ensure!(b.client_random == x.client_random && b.server_random == x.server_random && b.server_ephemeral_key == x.server_ephemeral_key, "explicit", "an explicitly given certificate binding was replaced");
        ensure!(tr.version() == TlsVersion::V1_3 && sig == Some((hd.sig.alg, hd.sig.sig.clone())) && chain == Some(hd.certs.iter().map(|c| c.0.clone()).collect()), "explicit", "an explicitly given field was replaced");
    } else {
        let (chb, shb, skb) = (body(&s, ch), body(&r, sh), body(&r, ske));
        ensure!(b.client_random[..] == chb[2..34] && b.server_random[..] == shb[2..34], "randoms", "the randoms are not those of the hellos");
        ensure!(tr.version() == if shb[..2] == [3, 4] { TlsVersion::V1_3 } else { TlsVersion::V1_2 } && matches!(shb[..2], [3, 3] | [3, 4]), "version", "version {:?} for a ServerHello with {:?}", tr.version(), &shb[..2]);
        let n = skb[3] as usize;
        ensure!(skb[..3] == [3, 0, 23] && b.server_ephemeral_key.key == skb[4..4 + n], "key-share", "the ephemeral key is not the server's");
        let sc = u16::from_be_bytes([skb[4 + n], skb[5 + n]]);
        let sl = u16::from_be_bytes([skb[6 + n], skb[7 + n]]) as usize;
        let cb = body(&r, ce);
        let mut want = vec![];
        let mut i = 3;
        while i < cb.len() { let l = u32::from_be_bytes([0, cb[i], cb[i + 1], cb[i + 2]]) as usize; want.push(cb[i + 3..i + 3 + l].to_vec()); i += 3 + l; }
        ensure!(chain.as_ref() == Some(&want), "chain", "the certificate chain is not the one presented");
        let (ga, gs) = sig.clone().unwrap();
        ensure!(gs == skb[8 + n..8 + n + sl], "signature", "the signature is not the server's");
        let leaf_same = want.first() == Some(&site.w.leaf_der());
        // (for a damaged leaf only the scheme's family can be told)
        if leaf_same { ensure!(Some(ga) == sig_alg(site.kt, sc), "algorithm", "algorithm {ga} for scheme {sc:#06x} with a {:?} key", site.kt); }
        if !damaged {
            // The recorded handshake verifies.
            let out = HandshakeData { certs: want.into_iter().map(CertificateDer).collect(), sig: tr.server_signature().unwrap().clone(), binding: tr.certificate_binding().clone() };
            let name = ServerName::Dns(DnsName::try_from(site.w.host.as_str()).unwrap());
            must!(out.verify(&cert_verifier(std::slice::from_ref(&site)), now, &b.server_ephemeral_key, &name), "verification of the recorded handshake");
        }
    }
    // The application's view.
    let need = [tr.sent(), tr.recv()].map(|v| v.iter().any(|r| r.typ == ContentType::ApplicationData));
    let incomplete = (need[0] && app[0].is_none()) || (need[1] && app[1].is_none());
    match tr.to_transcript() {
        Ok(x) => {
            ensure!(!incomplete, "incomplete", "a transcript was made although plaintext is missing");
            let z = [app[0].as_ref().map_or(&[][..], |a| &a[..us]), app[1].as_ref().map_or(&[][..], |a| &a[..ur])];
            ensure!(x.sent() == z[0] && x.received() == z[1], "transcript", "the transcript is not the application data in order");
        }
        Err(e) => ensure!(incomplete, "transcript", "no transcript although all plaintext is known: {e}"),
    }
    // The same traffic without plaintext (the verifier's copy), and the
    // record-level path used after decryption.
    let bare = must!(build(false), "the verifier's copy");
    ensure!(bare.cf_hash() == tr.cf_hash() && bare.sent().len() == tr.sent().len() && bare.recv().len() == tr.recv().len(), "copies-differ", "prover and verifier disagree on the same recording");
    record_path(sim, &tr, now)
}

fn handshake_scheme(sim: &Sim, site: &Site) -> (HandshakeData, u16) {
    let hd = site.handshake(sim);
    for s in certs::SCHEMES { if sig_alg(site.kt, *s) == Some(hd.sig.alg) { return (hd, *s); } }
    panic!("HARNESS-ERROR: no scheme for {}", hd.sig.alg)
}

/// Rebuilding from records: accepted exactly when the sequence is sound.
fn record_path(sim: &Sim, tr: &TlsTranscript, now: u64) -> RunResult {
    let (mut s, mut r) = (tr.sent().to_vec(), tr.recv().to_vec());
    let fin = |b: &[u8]| [&[0x14, 0, 0, 12][..], b].concat();
    let (cv, sv) = (sim.bytes(12), sim.bytes(12));
    let with_vd = sim.chance(1, 2);
    if with_vd { s[0].plaintext = Some(fin(&cv)); r[0].plaintext = Some(fin(&sv)); }
    let mut bad = None;
    let v = if sim.chance(1, 2) { &mut s } else { &mut r };
    match sim.weighted(&[6, 1, 1, 1, 1, 1, 1]) {
        0 => {}
        1 => { v[0].typ = [ContentType::ApplicationData, ContentType::Alert][sim.index(2)]; bad = Some("first record is not a handshake record"); sim.fault("first_record_type"); }
        2 => { v[0].seq = 1 + sim.pick(3); bad = Some("first record has a non-zero sequence number"); sim.fault("first_record_seq"); }
        3 => { let n = sim.size(20) as usize; let mut p = if sim.chance(1, 3) { [&[14u8, 0, 0, 0][..], &[0, 0, 0, 0], &[16, 0, 0, 3, 2, 9, 9]][sim.index(3)].to_vec() } else { sim.bytes(n) }; if n > 0 && p.len() == n { p[0] = [1, 2, 16, 15][sim.index(4)]; } v[0].plaintext = Some(p); bad = Some("first record is not Finished"); sim.fault("first_record_not_finished"); }
        4 if v.len() > 1 => { let i = 1 + sim.index(v.len() - 1); v[i].seq = v[i - 1].seq; bad = Some("duplicate sequence number"); sim.fault("duplicate_seq"); }
        5 if v.len() > 2 => { let i = 1 + sim.index(v.len() - 2); v.swap(i, i + 1); bad = Some("records out of order"); sim.fault("records_reordered"); }
        6 if v.len() > 1 => {
            // gaps are allowed: other records can be missing
            let i = 1 + sim.index(v.len() - 1);
            for x in &mut v[i..] { x.seq += 2; }
            sim.probe("sequence_gap");
        }
        _ => {}
    }
    let got = TlsTranscript::builder().time(now).version(tr.version()).certificate_binding(tr.certificate_binding().clone()).records_sent(s.clone()).records_recv(r.clone()).build();
    match (got, bad) {
        (Ok(_), Some(b)) => violate!("records-accepted", "a transcript was built although {b}"),
        (Err(e), None) => violate!("records-rejected", "sound records refused: {e}"),
        (Err(_), Some(_)) => {}
        (Ok(t), None) => {
            let eq = |a: &[Record], b: &[Record]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x.seq, x.typ, &x.plaintext, &x.explicit_nonce, &x.ciphertext, &x.tag) == (y.seq, y.typ, &y.plaintext, &y.explicit_nonce, &y.ciphertext, &y.tag));
            ensure!(eq(t.sent(), &s) && eq(t.recv(), &r), "records-altered", "records changed on the way through the builder");
            ensure!(t.cf_hash().is_none() && t.sf_hash(&[0; 12]).is_none() && t.session_hash().is_none(), "hash-from-nowhere", "handshake hashes without a recorded handshake");
            if with_vd { ensure!(t.cf_vd() == Some(&cv[..]) && t.sf_vd() == Some(&sv[..]), "verify-data", "verify data is not that of the Finished records"); }
            else { ensure!(t.cf_vd().is_none() && t.sf_vd().is_none(), "verify-data", "verify data from nowhere"); }
        }
    }
    Ok(())
}

// ---- A10: partial disclosure ------------------------------------------------

struct Model { data: [Vec<u8>; 2], auth: [Vec<bool>; 2] }
impl Model {
    fn same(&self, what: &str, p: &PartialTranscript) -> RunResult {
        ensure!(p.len_sent() == self.data[0].len() && p.len_received() == self.data[1].len(), "length", "{what}: lengths {} and {}", p.len_sent(), p.len_received());
        for (i, (b, a, u, d)) in [(p.sent_unsafe(), p.sent_authed(), p.sent_unauthed(), Direction::Sent), (p.received_unsafe(), p.received_authed(), p.received_unauthed(), Direction::Received)].into_iter().enumerate() {
            let n = self.data[i].len();
            ensure!(idx_of(a).iter().all(|k| *k < n) && mask(a, n) == self.auth[i], "authed", "{what}: authenticated {d} {a:?}, disclosed {:?}", from_mask(&self.auth[i]));
            ensure!(mask(&u, n).iter().zip(&self.auth[i]).all(|(x, y)| x != y), "unauthed", "{what}: unauthenticated {d} {u:?} is not the complement of {a:?}");
            ensure!(b == &self.data[i][..], "data", "{what}: {d} data differs from what was disclosed");
            let it: Vec<u8> = p.iter(d).collect();
            let want: Vec<u8> = (0..n).filter(|k| self.auth[i][*k]).map(|k| self.data[i][k]).collect();
            ensure!(it == want, "iter", "{what}: iterating the authenticated {d} data gives other bytes");
        }
        ensure!(p.is_complete() == self.auth.iter().all(|v| v.iter().all(|x| *x)), "complete", "{what}: is_complete() is {}", p.is_complete());
        Ok(())
    }
}
fn di(d: Direction) -> usize { match d { Direction::Sent => 0, Direction::Received => 1 } }
const DIRS: [Direction; 2] = [Direction::Sent, Direction::Received];

/// A prover discloses pieces of a transcript to replicas, over a network that
/// loses, duplicates and reorders them; replicas crash and come back from
/// storage, merge with each other, and must end with exactly what arrived.
pub fn a10(sim: &Sim) -> RunResult {
    let (a, b) = (sim.size(400) as usize, sim.size(400) as usize);
    let t = Transcript::new(sim.bytes(a), sim.bytes(b));
    let src = [t.sent().to_vec(), t.received().to_vec()];
    ensure!(t.len() == (a, b) && t.length() == TranscriptLength { sent: a as u32, received: b as u32 }, "length", "transcript lengths {:?}", t.len());
    let n = 1 + sim.pick(3) as usize;
    let fresh = || Model { data: [vec![0; a], vec![0; b]], auth: [vec![false; a], vec![false; b]] };
    let mut nodes: Vec<(PartialTranscript, Model)> = (0..n).map(|_| (PartialTranscript::new(a, b), fresh())).collect();
    let mut disk: Vec<Option<(bool, Vec<u8>, [Vec<u8>; 2], [Vec<bool>; 2])>> = vec![None; n];
    let mut wire: Vec<(usize, Direction, Vec<u8>)> = vec![];
    for _ in 0..sim.range(1, 25) {
        let k = sim.index(n);
        match sim.weighted(&[6, 6, 2, 2, 2, 1, 1, 1, 2]) {
            0 => {
                // disclose a piece
                let d = DIRS[sim.index(2)];
                let r = ranges(sim, src[di(d)].len());
                let Some(s) = t.get(d, &r) else { violate!("get", "{d} {r:?} is in bounds of {} bytes but get() returned nothing", src[di(d)].len()) };
                let want: Vec<u8> = idx_of(&r).into_iter().map(|i| src[di(d)][i]).collect();
                ensure!(s.index() == &r && s.data() == &want[..] && s.len() == want.len(), "get", "get({d}, {r:?}) returned {:?} {:?}", s.index(), s.data());
                let json = sim.chance(1, 2);
                let m = enc(json, &s);
                if sim.chance(1, 6) { sim.fault("message_lost"); continue; }
                if sim.chance(1, 6) { sim.fault("message_duplicated"); wire.push((k, d, [vec![json as u8], m.clone()].concat())); }
                wire.push((k, d, [vec![json as u8], m].concat()));
            }
            1 => {
                if wire.is_empty() { continue; }
                let i = if sim.chance(1, 2) { 0 } else { let i = sim.index(wire.len()); if i > 0 { sim.fault("message_reordered"); } i };
                let (k, d, mut m) = wire.remove(i);
                let intact = !sim.chance(1, 8);
                if !intact { let don = m.clone(); let mut b = m.split_off(1); mutate::bytes(sim, &mut b, &[don]); m.extend(b); }
                let Ok(s) = dec::<Subsequence>(m[0] == 1, &m[1..]) else { ensure!(!intact, "decode", "an intact disclosure failed to decode"); continue };
                let (p, md) = &mut nodes[k];
                // A subsequence is always consistent; whether it fits is checked by the receiver.
                ensure!(s.len() == s.index().len() && s.data().len() == idx_of(s.index()).len(), "inconsistent-subsequence", "a subsequence of {} bytes for {:?} was accepted", s.data().len(), s.index());
                let fits = idx_of(s.index()).iter().all(|i| *i < src[di(d)].len());
                ensure!(p.contains(d, s.index()) == fits, "contains", "contains({d}, {:?}) is {}", s.index(), !fits);
                if !fits { continue; }
                p.union_subsequence(d, &s);
                for (i, x) in idx_of(s.index()).into_iter().zip(s.data()) { md.data[di(d)][i] = *x; md.auth[di(d)][i] = true; }
            }
            2 => {
                // replicas merge
                let j = sim.index(n);
                if j == k { continue; }
                let (o, om) = (nodes[j].0.clone(), (nodes[j].1.data.clone(), nodes[j].1.auth.clone()));
                let (p, md) = &mut nodes[k];
                p.union_transcript(&o);
                for d in 0..2 { for i in 0..md.data[d].len() { if om.1[d][i] && !md.auth[d][i] { md.data[d][i] = om.0[d][i]; md.auth[d][i] = true; } } }
                sim.probe("merged");
            }
            3 => { let (p, m) = &nodes[k]; let json = sim.chance(1, 2); disk[k] = Some((json, enc(json, p), m.data.clone(), m.auth.clone())); }
            4 => {
                // crash: only what was stored survives; the rest reads as undisclosed
                sim.fault("crash_restart");
                match disk[k].take() {
                    None => nodes[k] = (PartialTranscript::new(a, b), fresh()),
                    Some((json, mut bytes, data, auth)) => {
                        let torn = sim.chance(1, 4);
                        let mut broken = None;
                        if torn && json && sim.chance(1, 2) {
                            // Damage that leaves the format readable but its parts at odds.
                            let mut v: serde_json::Value = serde_json::from_slice(&bytes).unwrap();
                            let side = sim.index(2);
                            let (k, i, t) = [("sent_authed", "sent_idx", "sent_total"), ("received_authed", "recv_idx", "recv_total")][side];
                            match sim.pick(3) {
                                0 => { v[k].as_array_mut().unwrap().push(7.into()); broken = Some("more data than its index"); }
                                1 => { if v[k].as_array_mut().unwrap().pop().is_some() { broken = Some("less data than its index"); } }
                                _ => { if let Some(e) = v[i].as_array().and_then(|a| a.last()).and_then(|r| r["end"].as_u64()) { if e > 0 { v[t] = (e - 1).into(); broken = Some("an index beyond its length"); } } }
                            }
                            bytes = serde_json::to_vec(&v).unwrap();
                            sim.fault("stored_parts_disagree");
                        } else if torn { let don = bytes.clone(); mutate::bytes(sim, &mut bytes, &[don]); }
                        match dec::<PartialTranscript>(json, &bytes) {
                            Ok(_) if broken.is_some() => violate!("stored-inconsistent", "a stored transcript with {} was loaded", broken.unwrap()),
                            Ok(p) if torn => {
                                // Damage cannot be told from data here, but the result is consistent.
                                let (x, y) = (idx_of(p.sent_authed()), idx_of(p.received_authed()));
                                ensure!(x.iter().all(|i| *i < p.len_sent()) && y.iter().all(|i| *i < p.len_received()), "stored-out-of-bounds", "a stored transcript with authenticated data outside its bounds was loaded");
                                if (p.len_sent(), p.len_received()) != (a, b) { nodes[k] = (PartialTranscript::new(a, b), fresh()); continue; }
                                let m = Model { data: [p.sent_unsafe().to_vec(), p.received_unsafe().to_vec()], auth: [mask(p.sent_authed(), a), mask(p.received_authed(), b)] };
                                nodes[k] = (p, m);
                            }
                            Ok(p) => {
                                let mut m = Model { data, auth };
                                for d in 0..2 { for i in 0..m.data[d].len() { if !m.auth[d][i] { m.data[d][i] = 0 } } }
                                nodes[k] = (p, m);
                            }
                            Err(e) => { ensure!(torn, "stored", "a stored partial transcript failed to load: {e}"); nodes[k] = (PartialTranscript::new(a, b), fresh()); }
                        }
                    }
                }
            }
            5 => {
                let v = sim.pick(256) as u8;
                let (p, m) = &mut nodes[k];
                p.set_unauthed(v);
                for d in 0..2 { for i in 0..m.data[d].len() { if !m.auth[d][i] { m.data[d][i] = v } } }
            }
            6 => {
                let v = sim.pick(256) as u8;
                let d = DIRS[sim.index(2)];
                let len = src[di(d)].len();
                let x = sim.index(len + 1);
                let y = x + sim.index(len - x + 1);
                let (p, m) = &mut nodes[k];
                p.set_unauthed_range(v, d, x..y);
                for i in x..y { if !m.auth[di(d)][i] { m.data[di(d)][i] = v } }
            }
            7 => {
                // a fresh disclosure of several ranges at once
                let (x, y) = (ranges(sim, a), ranges(sim, b));
                let p = t.to_partial(x.clone(), y.clone());
                let mut m = fresh();
                for (d, r) in [(0, &x), (1, &y)] { for i in idx_of(r) { m.data[d][i] = src[d][i]; m.auth[d][i] = true; } }
                m.same("to_partial", &p)?;
                nodes[k] = (p, m);
            }
            _ => {
                // out of bounds is refused
                let d = DIRS[sim.index(2)];
                let len = src[di(d)].len();
                let r = len.saturating_sub(sim.index(3))..len + 1 + sim.index(3);
                ensure!(t.get(d, &rs(&[r.clone()])).is_none(), "out-of-bounds", "get({d}, {r:?}) of {len} bytes");
                ensure!(!nodes[k].0.contains(d, &rs(&[r.clone()])), "out-of-bounds", "contains({d}, {r:?}) of {len} bytes");
                let n = r.len() + 1 + sim.index(2);
                ensure!(Subsequence::new(rs(&[r]), vec![0; n]).is_err(), "inconsistent-subsequence", "a subsequence with {n} bytes too many was made");
            }
        }
        sim.step();
        let (p, m) = &nodes[k];
        m.same("replica", p)?;
        sim.state(simkit::rng::hash_bytes(1, format!("{:?}{:?}", p.sent_authed(), p.received_authed()).as_bytes()));
    }
    // Reliable delivery of everything disclosed so far, in any order, to all:
    // replicas that hold only true bytes converge.
    let mut all = fresh();
    let mut pieces: Vec<(Direction, Rs)> = (0..sim.pick(5)).map(|_| { let d = DIRS[sim.index(2)]; (d, ranges(sim, src[di(d)].len())) }).collect();
    for (d, r) in &pieces { for i in idx_of(r) { all.data[di(*d)][i] = src[di(*d)][i]; all.auth[di(*d)][i] = true; } }
    for _ in 0..2 {
        let mut p = PartialTranscript::new(a, b);
        for i in (1..pieces.len()).rev() { let j = sim.index(i + 1); pieces.swap(i, j); }
        for (d, r) in &pieces { p.union_subsequence(*d, &t.get(*d, r).expect("in bounds")); }
        all.same("converged replica", &p)?;
    }
    prove_config(sim, &t)?;
    sim.observe_bytes(format!("{:?}", nodes.iter().map(|n| (n.0.sent_authed(), n.0.received_authed())).collect::<Vec<_>>()).as_bytes());
    sim.fp(simkit::rng::hash_bytes(2, format!("{a} {b} {:?}", nodes.iter().map(|n| (n.0.sent_authed(), n.0.received_authed())).collect::<Vec<_>>()).as_bytes()));
    if sim.fault_count() > 0 { sim.stat_nontrivial(); }
    Ok(())
}

/// The proof request is exactly what was configured; refused ranges leave no trace.
fn prove_config(sim: &Sim, t: &Transcript) -> RunResult {
    let (a, b) = t.len();
    let mut cb = ProveConfig::builder(t);
    let mut want: Option<[Vec<bool>; 2]> = None;
    let mut id = false;
    let lens = [a, b];
    for _ in 0..sim.pick(7) {
        let d = DIRS[sim.index(2)];
        let len = lens[di(d)];
        match sim.pick(5) {
            0 => { cb.server_identity(); id = true; }
            1 => {
                if d == Direction::Sent { must!(cb.reveal_sent_all(), "reveal all"); } else { must!(cb.reveal_recv_all(), "reveal all"); }
                want.get_or_insert_with(|| [vec![false; a], vec![false; b]])[di(d)].fill(true);
            }
            2 => {
                let r = rs(&[len.saturating_sub(sim.index(4))..len + 1 + sim.index(3)]);
                let refused = match sim.pick(2) { 0 => cb.reveal(d, &r).is_err(), _ if d == Direction::Sent => cb.reveal_sent(&r).is_err(), _ => cb.reveal_recv(&r).is_err() };
                ensure!(refused, "out-of-bounds", "revealing {d} {r:?} of {len} bytes was allowed");
                sim.fault("out_of_bounds_request");
            }
            _ => {
                let r = ranges(sim, len);
                match sim.pick(2) { 0 => { must!(cb.reveal(d, &r), "reveal in bounds"); } _ if d == Direction::Sent => { must!(cb.reveal_sent(&r), "reveal in bounds"); } _ => { must!(cb.reveal_recv(&r), "reveal in bounds"); } }
                let w = want.get_or_insert_with(|| [vec![false; a], vec![false; b]]);
                for i in idx_of(&r) { w[di(d)][i] = true; }
            }
        }
    }
    let commit = if sim.chance(1, 3) {
        let mut c = TranscriptCommitConfig::builder(t);
        let d = DIRS[sim.index(2)];
        let len = lens[di(d)];
        let r = ranges(sim, len);
        must!(c.commit(&r, d), "commit in bounds");
        ensure!(c.commit(&rs(&[len..len + 1]), d).is_err(), "out-of-bounds", "committing {d} byte {len} of {len} was allowed");
        let c = must!(c.build(), "commit config");
        cb.transcript_commit(c);
        Some((d, r, HashAlgId::BLAKE3))
    } else { None };
    let cfg = must!(cb.build(), "prove config");
    let json = sim.chance(1, 2);
    let cfg: ProveConfig = must!(dec(json, &enc(json, &cfg)), "stored prove config");
    let req = cfg.to_request();
    let req: tlsn_core::config::prove::ProveRequest = must!(dec(json, &enc(json, &req)), "sent prove request");
    for (what, i, r) in [("config", cfg.server_identity(), cfg.reveal()), ("request", req.server_identity(), req.reveal())] {
        ensure!(i == id, "identity", "{what}: server_identity is {i}, configured {id}");
        let none = want.is_none();
        ensure!(r.is_none() == none, "reveal", "{what}: reveal is {r:?}");
        if let (Some((s, v)), Some(w)) = (r, &want) { ensure!(mask(s, a) == w[0] && mask(v, b) == w[1] && subset(s, s, a) && subset(v, v, b), "reveal", "{what}: reveals {r:?}, configured {:?} {:?}", from_mask(&w[0]), from_mask(&w[1])); }
    }
    let got: Option<Vec<_>> = req.transcript_commit().map(|c| c.iter_hash().cloned().collect());
    ensure!(got == commit.map(|c| vec![c]), "commit-request", "requested commitments {got:?}");
    Ok(())
}

// ---- A11: Merkle --------------------------------------------------------------

/// The root by definition: pairs are hashed, a node without a sibling moves up.
fn root_of(hasher: &dyn tlsn_core::hash::HashAlgorithm, leaves: &[Hash]) -> Hash {
    let mut l = leaves.to_vec();
    while l.len() > 1 { l = l.chunks(2).map(|c| if c.len() == 2 { hasher.hash(&[c[0].as_bytes(), c[1].as_bytes()].concat()) } else { c[0] }).collect(); }
    l[0]
}

/// A notary grows trees in batches; proofs travel to a verifier and are damaged.
pub fn a11(sim: &Sim) -> RunResult {
    let prov = HashProvider::default();
    let alg = ALGS[sim.index(3)];
    let hasher = must!(prov.get(&alg), "hash algorithm");
    let mut tree = MerkleTree::new(alg);
    let mut leaves: Vec<Hash> = vec![];
    let batches = 1 + sim.pick(3);
    for _ in 0..batches {
        let k = 1 + [sim.pick(6), sim.pick(40)][sim.weighted(&[5, 1])] as usize;
        let new: Vec<Hash> = (0..k).map(|_| hasher.hash(&sim.bytes(9))).collect();
        leaves.extend(&new);
        tree.insert(hasher, new);
        if sim.chance(1, 4) { let json = sim.chance(1, 2); tree = must!(dec(json, &enc(json, &tree)), "stored tree"); sim.fault("restart_from_storage"); }
        let want = TypedHash { alg, value: root_of(hasher, &leaves) };
        ensure!(tree.root() == want && tree.algorithm() == alg, "root", "root over {} leaves is not the Merkle root of the leaves", leaves.len());
    }
    let n = leaves.len();
    let root = tree.root();
    for _ in 0..4 {
        let m: Vec<usize> = (0..n).filter(|_| sim.chance(1, 3)).collect();
        let idx = if m.is_empty() { vec![sim.index(n)] } else { m };
        let mut proof = tree.proof(&idx);
        let mut claim: Vec<(usize, Hash)> = idx.iter().map(|i| (*i, leaves[*i])).collect();
        for i in (1..claim.len()).rev() { let j = sim.index(i + 1); claim.swap(i, j); }
        let json = sim.chance(1, 2);
        let mut bytes = enc(json, &proof);
        let mut r = root.clone();
        let mut bad = true;
        let mut count_changed = false;
        match sim.pick(9) {
            0 => { bad = false; }
            1 => { let k = sim.index(claim.len()); claim[k].1 = hasher.hash(b"another leaf"); sim.fault("leaf_replaced"); }
            2 => { let k = sim.index(claim.len()); claim.remove(k); sim.fault("leaf_withheld"); }
            3 => {
                let free: Vec<usize> = (0..n).filter(|i| !idx.contains(i)).collect();
                if free.is_empty() { bad = false } else { let f = free[sim.index(free.len())]; claim.push((f, hasher.hash(b"extra"))); sim.fault("leaf_added"); }
            }
            4 => { let k = sim.index(claim.len()); let d = claim[k]; claim.push(d); sim.fault("leaf_duplicated"); }
            5 => {
                // the right leaves at the wrong places
                if claim.len() < 2 { bad = false } else {
                    let (x, y) = (claim[0].0, claim[1].0);
                    claim[0].0 = y; claim[1].0 = x;
                    bad = claim[0].1 != claim[1].1;
                    sim.fault("leaves_exchanged");
                }
            }
            6 => { r.value = hasher.hash(b"another root"); sim.fault("other_root"); }
            7 => {
                let mut v: serde_json::Value = serde_json::to_value(&proof).unwrap();
                let Some(hs) = v["proof"]["proof_hashes"].as_array_mut() else { continue };
                if hs.is_empty() { bad = false } else {
                    let k = sim.index(hs.len());
                    match sim.pick(3) {
                        0 => { let b = hs[k].as_array_mut().unwrap(); let i = sim.index(b.len()); b[i] = (b[i].as_u64().unwrap() as u8 ^ (1 << sim.pick(8))).into(); sim.fault("proof_hash_altered"); }
                        1 => { hs.remove(k); sim.fault("proof_hash_lost"); }
                        _ => { let d = hs[k].clone(); hs.push(d); count_changed = true; sim.probe("surplus_proof_hash"); } // ignored by rs_merkle
                    }
                    match serde_json::from_value::<MerkleProof>(v) { Ok(p) => proof = p, Err(_) => continue }
                }
            }
            _ => {
                let don = bytes.clone();
                mutate::bytes(sim, &mut bytes, &[don.clone()]);
                bad = bytes != don;
                match dec::<MerkleProof>(json, &bytes) { Ok(p) => proof = p, Err(_) => continue }
                let (v, w) = (serde_json::to_value(&proof).unwrap(), serde_json::to_value(tree.proof(&idx)).unwrap());
                // The algorithm label is the caller's to check; the count can
                // change without moving any leaf.
                count_changed = v["proof"] == w["proof"];
            }
        }
        let got = proof.verify(hasher, &r, claim.iter().copied());
        sim.step();
        ensure!(bad || got.is_ok(), "rejected-valid", "a genuine proof for {idx:?} of {n} leaves was refused");
        ensure!(!bad || count_changed || got.is_err(), "accepted-invalid", "a damaged proof for {idx:?} of {n} leaves verified with {:?}", claim.iter().map(|c| c.0).collect::<Vec<_>>());
        sim.probe(if got.is_ok() { "proof_ok" } else { "proof_refused" });
        sim.observe_bytes(&bytes);
        sim.observe(got.is_ok() as u64);
    }
    let mut by: BTreeMap<u64, u64> = BTreeMap::new();
    *by.entry(n as u64).or_default() += 1;
    sim.fp(simkit::rng::hash_bytes(2, root.value.as_bytes()));
    sim.state(n as u64);
    sim.stat_nontrivial();
    Ok(())
}
