//! A02–A07: what a verifier accepts, what a presentation gives away, what the
//! builders promise, and what damaged artefacts lead to.
use crate::flow::{dec, draw_reveal, enc, exact, present, Reveal};
use crate::world::*;
use crate::{certs, must, mutate};
use serde_json::{json, Value};
use simkit::{ensure, violate, RunResult, Sim};
use tlsn_attestation::presentation::{Presentation, PresentationOutput};
use tlsn_attestation::request::{Request, RequestConfig};
use tlsn_attestation::signing::{SignatureAlgId, VerifyingKey};
use tlsn_attestation::{Attestation, AttestationConfig, CryptoProvider, Extension, InvalidExtension, Secrets};
use tlsn_core::connection::{CertBinding, DnsName, ServerName};
use tlsn_core::hash::HashAlgId;
use tlsn_core::transcript::{Direction, TranscriptCommitmentKind, TranscriptSecret};

/// Sessions attested by one trusted notary.
struct Case {
    now: u64,
    sites: Vec<Site>,
    sessions: Vec<Session>,
    keys: [Vec<u8>; 3],
    trusted: Vec<VerifyingKey>,
    reqs: Vec<Request>,
    secs: Vec<Secrets>,
    atts: Vec<Attestation>,
    verifier: CryptoProvider,
}
fn case(sim: &Sim, max_sessions: u64) -> Result<Case, simkit::Violation> {
    let now = 1_750_000_000 + sim.pick(1_000_000);
    simkit::seam::set_epoch_s(now);
    let sites: Vec<Site> = (0..1 + sim.weighted(&[2, 1])).map(|_| Site::gen(sim, now)).collect();
    let keys = keys(sim);
    let (np, pp, cfg) = (provider(&sites, Some(&keys)), provider(&sites, None), notary_config(true));
    let mut c = Case { now, trusted: notary_keys(&keys), keys, sessions: vec![], reqs: vec![], secs: vec![], atts: vec![], verifier: pp, sites };
    for _ in 0..1 + sim.pick(max_sessions) {
        let s = session_max(sim, &c.sites, sim.index(c.sites.len()), now + sim.pick(3600), true, 300)?;
        let (req, sec) = request(&s, &c.verifier)?;
        c.atts.push(must!(attest(&s, req.clone(), &cfg, &np), "attestation"));
        c.reqs.push(req);
        c.secs.push(sec);
        c.sessions.push(s);
    }
    Ok(c)
}
impl Case {
    fn key_of(&self, i: usize) -> &VerifyingKey { &self.trusted[SIGS.iter().position(|a| *a == self.sessions[i].sig_alg).unwrap()] }
    /// Everything in a verified output must be true of the session whose
    /// attestation it is. `shown` limits what a relay could know.
    fn genuine(&self, out: &PresentationOutput, shown: Option<&[Vec<Reveal>]>) -> RunResult {
        let Some(i) = self.atts.iter().position(|a| a.header == out.attestation.header) else {
            violate!("forged-header", "verified an attestation header the notary never signed: {:?}", out.attestation.header);
        };
        let s = &self.sessions[i];
        ensure!(out.connection_info == s.info, "connection-info", "verified connection info {:?}, the connection was {:?}", out.connection_info, s.info);
        let all: Vec<&Extension> = s.req_ext.iter().chain(&s.notary_ext).collect();
        let mut left: Vec<(&Vec<u8>, &Vec<u8>)> = all.iter().map(|e| (&e.id, &e.value)).collect();
        for e in &out.extensions {
            let k = left.iter().position(|x| *x == (&e.id, &e.value));
            ensure!(k.is_some(), "extension", "verified extension {e:?} is not in the attestation");
            left.remove(k.unwrap());
        }
        ensure!(out.attestation.body.verifying_key() == self.key_of(i), "verifying-key", "verified with key {:?}", out.attestation.body.verifying_key());
        // The attestation handed out is the attested one (fields may be withheld).
        let (got, want) = (serde_json::to_value(&out.attestation.body).unwrap(), serde_json::to_value(&self.atts[i].body).unwrap());
        for f in ["verifying_key", "connection_info", "server_ephemeral_key", "cert_commitment"] {
            ensure!(got[f]["data"] == want[f]["data"], "field", "verified {f} is {} and was attested as {}", got[f]["data"], want[f]["data"]);
        }
        for f in ["extensions", "transcript_commitments"] {
            let mut w: Vec<&Value> = want[f].as_array().unwrap().iter().map(|x| &x["data"]).collect();
            for x in got[f].as_array().unwrap() {
                let k = w.iter().position(|y| *y == &x["data"]);
                ensure!(k.is_some(), "field", "verified {f} entry {x} was not attested");
                w.remove(k.unwrap());
            }
        }
        if let Some(ServerName::Dns(n)) = &out.server_name {
            let sans = self.sites[s.site].sans();
            ensure!(certs::name_matches(sans, n.as_str()), "server-name", "verified server name {n:?}, the server's certificate is for {sans:?}");
            ensure!(shown.is_none_or(|v| v[i].iter().any(|r| r.name)), "server-name-unrevealed", "server name {n:?} verified although the prover never revealed it");
        }
        if let Some(t) = &out.transcript {
            for (d, auth, bytes) in [(Direction::Sent, t.sent_authed(), t.sent_unsafe()), (Direction::Received, t.received_authed(), t.received_unsafe())] {
                let data = s.data(d);
                ensure!(bytes.len() == data.len(), "transcript-length", "verified {d} length {} is not {}", bytes.len(), data.len());
                let com = s.committed(d);
                let m = mask(auth, data.len());
                ensure!(idx_of(auth).iter().all(|i| *i < data.len()), "authed-range", "authenticated {d} ranges {auth:?} exceed the transcript");
                for k in 0..data.len() {
                    if !m[k] {
                        ensure!(bytes[k] == 0, "unrevealed-byte", "{d} byte {k} is not authenticated but shown as {:#04x}", bytes[k]);
                        continue;
                    }
                    ensure!(bytes[k] == data[k], "forged-byte", "{d} byte {k} verified as {:#04x}, the transcript has {:#04x}", bytes[k], data[k]);
                    ensure!(com[k], "uncommitted-byte", "{d} byte {k} verified although nothing commits to it");
                    if let Some(v) = shown {
                        ensure!(v[i].iter().any(|r| r.proof && (if d == Direction::Sent { &r.sent } else { &r.recv })[k]), "unrevealed-byte", "{d} byte {k} verified although the prover never revealed it");
                    }
                }
            }
        }
        Ok(())
    }
    /// A verifier's steps, as documented: check the key, then verify.
    fn verify(&self, sim: &Sim, p: Presentation, shown: Option<&[Vec<Reveal>]>) -> RunResult {
        if !self.trusted.contains(p.verifying_key()) { sim.probe("untrusted_key"); return Ok(()); }
        match p.verify(&self.verifier) {
            Ok(out) => { sim.probe("accepted"); self.genuine(&out, shown) }
            Err(_) => { sim.probe("rejected"); Ok(()) }
        }
    }
}

fn num(v: &[u8]) -> Value { Value::from(v.to_vec()) }
fn jranges(m: &[bool]) -> Value {
    Value::Array(from_mask(m).into_inner().into_iter().map(|r| json!({"start": r.start, "end": r.end})).collect())
}

/// Attacks a relay (or a prover) with knowledge of the format would try.
fn targeted(sim: &Sim, c: &Case, v: &mut Value, donors: &[Value]) {
    let d = donors[sim.index(donors.len())].clone();
    let t = &mut v["transcript"];
    match sim.pick(12) {
        0 => {
            sim.fault("claim_more_bytes_authenticated");
            let side = ["sent", "recv"][sim.index(2)];
            let data = if side == "sent" { "sent_authed" } else { "received_authed" };
            if let (Some(total), Some(_)) = (t["transcript"][format!("{side}_total")].as_u64(), t["transcript"][data].as_array()) {
                let total = total as usize;
                let mut m = vec![false; total];
                let old: Vec<(usize, usize)> = t["transcript"][format!("{side}_idx")].as_array().unwrap().iter().map(|r| (r["start"].as_u64().unwrap_or(0) as usize, r["end"].as_u64().unwrap_or(0) as usize)).collect();
                let mut full = vec![0u8; total];
                let mut k = 0;
                for (a, b) in old { for i in a..b.min(total) { m[i] = true; full[i] = t["transcript"][data][k].as_u64().unwrap_or(0) as u8; k += 1; } }
                for i in idx_of(&ranges(sim, total)) { if !m[i] { m[i] = true; full[i] = sim.pick(256) as u8; } }
                t["transcript"][format!("{side}_idx")] = jranges(&m);
                t["transcript"][data] = num(&(0..total).filter(|i| m[*i]).map(|i| full[i]).collect::<Vec<_>>());
            }
        }
        1 => {
            sim.fault("transcript_byte_altered");
            let side = ["sent_authed", "received_authed"][sim.index(2)];
            if let Some(a) = t["transcript"][side].as_array_mut() { if !a.is_empty() { let i = sim.index(a.len()); let b = a[i].as_u64().unwrap_or(0) ^ (1 << sim.pick(8)); a[i] = b.into(); } }
        }
        2 => {
            sim.fault("transcript_shifted");
            for (i, s) in [("sent_idx", "sent_total"), ("recv_idx", "recv_total")] {
                let by = [1i64, -1][sim.index(2)];
                if let Some(a) = t["transcript"][i].as_array_mut() { for r in a { for e in ["start", "end"] { r[e] = (r[e].as_i64().unwrap_or(0) + by).max(0).into(); } } }
                if sim.pick(2) == 1 { let n = t["transcript"][s].as_i64().unwrap_or(0) + by; t["transcript"][s] = n.max(0).into(); }
            }
            if sim.pick(2) == 1 {
                // ... and the openings with it.
                if let Some(h) = t["hash_secrets"].as_array_mut() { for x in h { if let Some(a) = x["idx"].as_array_mut() { for r in a { for e in ["start", "end"] { r[e] = (r[e].as_i64().unwrap_or(0) + 1).into(); } } } } }
            }
        }
        3 => {
            sim.fault("directions_swapped");
            let old = t["transcript"].clone();
            for (a, b) in [("sent_authed", "received_authed"), ("sent_idx", "recv_idx"), ("sent_total", "recv_total")] { t["transcript"][a] = old[b].clone(); t["transcript"][b] = old[a].clone(); }
            if let Some(h) = t["hash_secrets"].as_array_mut() { for x in h { x["direction"] = if x["direction"] == "Sent" { "Received".into() } else { "Sent".into() }; } }
        }
        4 => { sim.fault("proof_from_other_session"); v["transcript"] = d["transcript"].clone(); }
        5 => { sim.fault("identity_from_other_session"); v["identity"] = d["identity"].clone(); }
        6 => {
            sim.fault("server_name_changed");
            let n = certs::HOSTS[sim.index(certs::HOSTS.len())];
            if !v["identity"].is_null() { v["identity"]["name"] = json!({"Dns": n}); }
        }
        7 => {
            sim.fault("attested_field_changed");
            let b = &mut v["attestation"]["body"]["body"];
            match sim.pick(5) {
                0 => b["connection_info"]["data"]["time"] = (c.now + sim.pick(100_000)).into(),
                1 => { let f = ["sent", "received"][sim.index(2)]; let n = b["connection_info"]["data"]["transcript_length"][f].as_u64().unwrap_or(0); b["connection_info"]["data"]["transcript_length"][f] = (n + 1).into(); v["transcript"]["transcript"][["sent_total", "recv_total"][(f == "received") as usize]] = (n + 1).into(); }
                2 => b["transcript_commitments"] = d["attestation"]["body"]["body"]["transcript_commitments"].clone(),
                3 => b["extensions"] = d["attestation"]["body"]["body"]["extensions"].clone(),
                _ => b["server_ephemeral_key"] = d["attestation"]["body"]["body"]["server_ephemeral_key"].clone(),
            }
            if sim.pick(2) == 1 { v["attestation"]["body"]["proof"] = d["attestation"]["body"]["proof"].clone(); }
        }
        8 => { sim.fault("signature_from_other_session"); v["attestation"]["signature"] = d["attestation"]["signature"].clone(); if sim.pick(2) == 1 { v["attestation"]["body"]["body"]["verifying_key"] = d["attestation"]["body"]["body"]["verifying_key"].clone(); } }
        9 => { sim.fault("body_from_other_session"); v["attestation"]["body"] = d["attestation"]["body"].clone(); }
        10 => { sim.fault("header_from_other_session"); v["attestation"]["header"] = d["attestation"]["header"].clone(); if sim.pick(2) == 1 { v["attestation"]["signature"] = d["attestation"]["signature"].clone(); } }
        _ => {
            sim.fault("opening_ranges_changed");
            if let Some(h) = t["hash_secrets"].as_array_mut() {
                if !h.is_empty() {
                    let k = sim.index(h.len());
                    match sim.pick(4) {
                        0 => h[k]["idx"] = d["transcript"]["transcript"]["sent_idx"].clone(),
                        1 => { let e = h[k].clone(); h.push(e); }
                        2 => { let a = 1 + sim.pick(4); h[k]["alg"] = a.into(); }
                        _ => { h.remove(k); }
                    }
                }
            }
        }
    }
}

/// A02: a relay on the path alters presentations.
pub fn a02_relay(sim: &Sim) -> RunResult {
    let c = case(sim, 2)?;
    let mut shown: Vec<Vec<Reveal>> = c.sessions.iter().map(|_| vec![]).collect();
    let mut pool = vec![];
    for i in 0..c.sessions.len() {
        for _ in 0..1 + sim.pick(2) {
            let mut r = draw_reveal(sim, &c.sessions[i]);
            if i == 0 && shown[0].is_empty() { r.proof = true; }
            pool.push(present(sim, &c.secs[i], &c.atts[i], &r, &c.verifier)?);
            shown[i].push(r);
        }
    }
    // The relay also runs a notary nobody trusts, for its own sessions.
    let mut vals: Vec<Value> = pool.iter().map(|p| serde_json::to_value(p).unwrap()).collect();
    let honest = vals.len();
    if sim.chance(1, 2) {
        let ek = keys(sim);
        let s = session_max(sim, &c.sites, 0, c.now, true, 300)?;
        let (req, sec) = request(&s, &c.verifier)?;
        let a = must!(attest(&s, req, &notary_config(true), &provider(&c.sites, Some(&ek))), "attestation");
        let r = draw_reveal(sim, &s);
        vals.push(serde_json::to_value(present(sim, &sec, &a, &r, &c.verifier)?).unwrap());
        sim.fault("rogue_notary");
    }
    for _ in 0..1 + sim.pick(12) {
        if sim.pick(3) == 0 {
            let donors: Vec<Vec<u8>> = pool.iter().map(|p| enc(false, p)).collect();
            let mut b = donors[sim.index(donors.len())].clone();
            mutate::bytes(sim, &mut b, &donors);
            match dec::<Presentation>(false, &b) { Ok(p) => c.verify(sim, p, Some(&shown))?, Err(_) => sim.probe("undecodable") }
        } else {
            let mut v = vals[if sim.chance(1, 6) { sim.index(vals.len()) } else { sim.index(honest) }].clone();
            // Format-aware attacks first: they need the structure intact.
            let (a, b) = [(1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (0, 3)][sim.weighted(&[5, 5, 2, 2, 2, 1])];
            for _ in 0..a { targeted(sim, &c, &mut v, &vals) }
            for _ in 0..b { mutate::json(sim, &mut v, &vals) }
            match serde_json::from_value::<Presentation>(v) { Ok(p) => c.verify(sim, p, Some(&shown))?, Err(_) => sim.probe("undecodable") }
        }
        sim.step();
    }
    sim.fp(sim.fault_count());
    Ok(())
}

/// A02: the prover itself lies, with full knowledge of its secrets.
pub fn a02_prover(sim: &Sim) -> RunResult {
    let c = case(sim, 2)?;
    for _ in 0..1 + sim.pick(6) {
        let i = sim.index(c.sessions.len());
        let j = sim.index(c.sessions.len());
        let s = &c.sessions[i];
        // The lie, in the prover's own records.
        let secs: Vec<Value> = c.secs.iter().map(|x| serde_json::to_value(x).unwrap()).collect();
        let atts: Vec<Value> = c.atts.iter().map(|x| serde_json::to_value(x).unwrap()).collect();
        let (mut sv, mut av) = (secs[i].clone(), atts[i].clone());
        match sim.pick(7) {
            6 => {
                // The prover owns a genuine certificate of another trusted
                // authority and signs the very same key exchange with it.
                let Some(o) = (0..c.sites.len()).find(|k| *k != s.site) else { continue };
                sim.fault("impersonating_certificate");
                let CertBinding::V1_2(b) = s.hs.binding.clone() else { continue };
                sv["server_cert_opening"]["data"] = serde_json::to_value(c.sites[o].sign_over(sim, b)).unwrap();
                sv["server_name"] = json!({"Dns": c.sites[o].w.host});
            }
            0 => {
                sim.fault("prover_edits_transcript");
                let d = ["sent", "received"][sim.index(2)];
                if let Some(a) = sv["transcript"][d].as_array_mut() { if !a.is_empty() { for _ in 0..1 + sim.pick(3) { let k = sim.index(a.len()); a[k] = sim.pick(256).into(); } } }
            }
            1 => { sim.fault("prover_swaps_sessions"); for k in ["transcript", "server_cert_opening", "server_name", "transcript_commitment_secrets"] { if sim.pick(2) == 1 { sv[k] = secs[j][k].clone(); } } }
            2 => { sim.fault("prover_renames_server"); sv["server_name"] = json!({"Dns": certs::HOSTS[sim.index(certs::HOSTS.len())]}); }
            3 => {
                sim.fault("prover_widens_commitment");
                if let Some(a) = sv["transcript_commitment_secrets"].as_array_mut() {
                    if !a.is_empty() {
                        let k = sim.index(a.len());
                        let d = if a[k]["Hash"]["direction"] == "Sent" { Direction::Sent } else { Direction::Received };
                        let r = ranges(sim, s.data(d).len());
                        a[k]["Hash"]["idx"] = jranges(&mask(&r, s.data(d).len()));
                    }
                }
            }
            4 => { for _ in 0..1 + sim.pick(3) { mutate::json(sim, &mut av, &atts) } }
            _ => { for _ in 0..1 + sim.pick(3) { mutate::json(sim, &mut sv, &secs) } }
        }
        let (Ok(sec), Ok(att)) = (serde_json::from_value::<Secrets>(sv), serde_json::from_value::<Attestation>(av)) else { sim.probe("undecodable"); continue };
        let mut b = att.presentation_builder(&c.verifier);
        if sim.pick(2) == 0 { b.identity_proof(sec.identity_proof()); }
        let mut t = sec.transcript_proof_builder();
        for d in [Direction::Sent, Direction::Received] {
            // Reveal whatever the records now claim to be committed.
            let sets: Vec<Rs> = serde_json::to_value(&sec).unwrap()["transcript_commitment_secrets"].as_array().unwrap().iter()
                .filter(|x| (x["Hash"]["direction"] == "Sent") == (d == Direction::Sent))
                .filter_map(|x| serde_json::from_value(x["Hash"]["idx"].clone()).ok()).collect();
            for r in sets { if sim.pick(2) == 0 { let _ = t.reveal(&r, d); } }
        }
        match t.build() { Ok(p) => { b.transcript_proof(p); } Err(_) => { sim.probe("builder_refused"); } }
        let Ok(p) = b.build() else { sim.probe("builder_refused"); continue };
        let mut v = serde_json::to_value(&p).unwrap();
        if sim.chance(1, 3) { let d = [v.clone()]; targeted(sim, &c, &mut v, &d); }
        if let Ok(p) = serde_json::from_value::<Presentation>(v) { c.verify(sim, p, None)?; }
        sim.step();
    }
    sim.fp(sim.fault_count());
    Ok(())
}

// ---- A03 -----------------------------------------------------------------
fn contains(h: &[u8], n: &[u8]) -> bool { n.len() <= h.len() && h.windows(n.len()).any(|w| w == n) }
const W: usize = 12;
fn windows_hidden(what: &str, b: &[u8], data: &[u8], shown: &[bool]) -> RunResult {
    // Hidden windows that also occur in shown data prove nothing.
    let mut seen = std::collections::HashSet::new();
    for w in b.windows(W) { seen.insert(w); }
    for i in 0..data.len().saturating_sub(W - 1) {
        if shown[i..i + W].iter().any(|x| *x) { continue; }
        ensure!(!seen.contains(&data[i..i + W]), "leaked-transcript", "{what} contains transcript bytes {i}..{} which were not revealed", i + W);
    }
    Ok(())
}
/// A03: nothing that was not revealed leaves the prover.
pub fn a03(sim: &Sim) -> RunResult {
    let c = case(sim, 2)?;
    for i in 0..c.sessions.len() {
        let s = &c.sessions[i];
        let none = |d| vec![false; s.data(d).len()];
        let ders: Vec<Vec<u8>> = s.hs.certs.iter().map(|x| x.0.clone()).collect();
        let leaf_key = &s.hs.sig.sig;
        let no_identity = |what: &str, b: &[u8]| -> RunResult {
            for d in &ders { for w in d.chunks_exact(24) { ensure!(!contains(b, w) , "leaked-certificate", "{what} contains part of the server's certificate"); } }
            ensure!(!contains(b, leaf_key), "leaked-certificate", "{what} contains the server's handshake signature");
            let ServerName::Dns(n) = &s.name;
            ensure!(!contains(b, n.as_str().as_bytes()), "leaked-name", "{what} contains the server's name");
            Ok(())
        };
        let sec_v = serde_json::to_value(&c.secs[i]).unwrap();
        let cert_blinder: Vec<u8> = serde_json::from_value(sec_v["server_cert_opening"]["blinder"].clone()).unwrap();
        let r1 = enc(false, &c.reqs[i]);
        let a1 = enc(false, &c.atts[i]);
        for (what, b) in [("the attestation request", &r1), ("the attestation", &a1)] {
            windows_hidden(what, b, &s.sent, &none(Direction::Sent))?;
            windows_hidden(what, b, &s.recv, &none(Direction::Received))?;
            no_identity(what, b)?;
            ensure!(!contains(b, &cert_blinder), "leaked-blinder", "{what} contains the certificate blinder");
            for x in &s.secrets { let TranscriptSecret::Hash(h) = x else { continue }; ensure!(!contains(b, &enc(false, &h.blinder)), "leaked-blinder", "{what} contains a commitment blinder"); }
        }
        // Commitments to the same certificate are unlinkable between sessions.
        let (again, _) = request(s, &c.verifier)?;
        let cc = |r: &Request| serde_json::to_value(r).unwrap()["server_cert_commitment"].clone();
        ensure!(cc(&again) != cc(&c.reqs[i]), "linkable", "two requests commit to the server certificate with the same value");
        for _ in 0..1 + sim.pick(3) {
            let r = draw_reveal(sim, s);
            let p = present(sim, &c.secs[i], &c.atts[i], &r, &c.verifier)?;
            let b = enc(false, &p);
            let show = |m: &Vec<bool>| if r.proof { m.clone() } else { vec![false; m.len()] };
            windows_hidden("the presentation", &b, &s.sent, &show(&r.sent))?;
            windows_hidden("the presentation", &b, &s.recv, &show(&r.recv))?;
            if !r.name {
                no_identity("the presentation", &b)?;
                ensure!(!contains(&b, &cert_blinder), "leaked-blinder", "the presentation contains the certificate blinder");
                sim.probe("identity_withheld");
            }
            for x in &s.secrets {
                let TranscriptSecret::Hash(h) = x else { continue };
                let m = if h.direction == Direction::Sent { &r.sent } else { &r.recv };
                let within = r.proof && !h.idx.is_empty() && idx_of(&h.idx).iter().all(|k| m[*k]);
                if !within {
                    ensure!(!contains(&b, &enc(false, &h.blinder)), "leaked-blinder", "the presentation opens the commitment to {} {:?} which was not revealed", h.direction, h.idx);
                    sim.probe("commitment_kept_closed");
                }
            }
            sim.step();
            sim.fp(b.len() as u64);
        }
    }
    sim.stat_nontrivial();
    Ok(())
}

// ---- A04 -----------------------------------------------------------------
pub fn a04(sim: &Sim) -> RunResult {
    let c = case(sim, 1)?;
    let s = &c.sessions[0];
    let t = s.transcript();
    let mut b = c.secs[0].transcript_proof_builder();
    // Preferred kinds.
    let mut kinds: Vec<HashAlgId> = ALGS.to_vec();
    if sim.pick(2) == 1 {
        let n = sim.pick(5);
        let k: Vec<HashAlgId> = (0..n).map(|_| ALGS[sim.index(3)]).collect();
        b.commitment_kinds(&k.iter().map(|a| TranscriptCommitmentKind::Hash { alg: *a }).collect::<Vec<_>>());
        if !k.is_empty() { kinds = k; }
    }
    let mut q = [vec![false; s.sent.len()], vec![false; s.recv.len()]];
    for _ in 0..sim.pick(6) {
        let d = [Direction::Sent, Direction::Received][sim.index(2)];
        let di = (d == Direction::Received) as usize;
        let n = s.data(d).len();
        // Committed sets, pieces of them, unions, out of bounds.
        let mine: Vec<&Rs> = s.commits.iter().filter(|(x, _, _)| *x == d).map(|(_, r, _)| r).collect();
        let r: Rs = match sim.weighted(&[6, 2, 2, 1]) {
            0 if !mine.is_empty() => mine[sim.index(mine.len())].clone(),
            1 if !mine.is_empty() => { let x = mine[sim.index(mine.len())]; let m: Vec<bool> = mask(x, n).iter().map(|y| *y && sim.pick(3) != 0).collect(); from_mask(&m) }
            3 => { sim.probe("out_of_bounds_query"); let a = n.saturating_sub(sim.size(20) as usize); rs(&[a..n + 1 + sim.size(1 << 40) as usize]) }
            _ => ranges(sim, n),
        };
        let ok = idx_of_bounded(&r, n).is_some_and(|v| { let com = s.committed(d); v.iter().all(|i| com[*i]) });
        let got = match sim.pick(2) { 0 => b.reveal(&r, d).is_ok(), _ if d == Direction::Sent => b.reveal_sent(&r).is_ok(), _ => b.reveal_recv(&r).is_ok() };
        ensure!(got == ok, "reveal-verdict", "revealing {d} {r:?} was {} (committed: {:?}, length {n})", if got { "accepted" } else { "refused" }, from_mask(&s.committed(d)));
        sim.probe(if ok { "reveal_accepted" } else { "reveal_refused" });
        if ok { for i in idx_of(&r) { q[di][i] = true } }
        sim.step();
    }
    let coverable = [Direction::Sent, Direction::Received].iter().enumerate().all(|(di, d)| {
        let mut m = vec![false; q[di].len()];
        for (x, r, a) in &s.commits {
            let v = idx_of(r);
            if x == d && kinds.contains(a) && v.iter().all(|i| q[di][*i]) { for i in v { m[i] = true } }
        }
        m == q[di]
    });
    match b.build() {
        Err(e) => { ensure!(!coverable, "cover-refused", "a disclosure that the commitments cover exactly was refused: {e}; query {:?} {:?}, committed {:?}", from_mask(&q[0]), from_mask(&q[1]), s.commits); sim.probe("not_coverable"); }
        Ok(p) => {
            ensure!(coverable, "cover-invented", "a proof was built although commitments {:?} cannot cover {:?} {:?}", s.commits, from_mask(&q[0]), from_mask(&q[1]));
            let out = must!(p.clone().verify_with_provider(&c.verifier.hash, &t.length(), &s.commitments), "a built proof verifies");
            for (di, (auth, bytes, data)) in [(out.sent_authed(), out.sent_unsafe(), &s.sent), (out.received_authed(), out.received_unsafe(), &s.recv)].into_iter().enumerate() {
                ensure!(auth == &from_mask(&q[di]), "cover-exact", "the proof reveals {auth:?}, asked for {:?}", from_mask(&q[di]));
                ensure!((0..data.len()).all(|i| bytes[i] == if q[di][i] { data[i] } else { 0 }), "cover-bytes", "the proof's bytes differ from the transcript");
            }
            // Every condition of verification matters.
            if q.iter().flatten().any(|x| *x) {
                let mut l = t.length();
                if sim.pick(2) == 0 { l.sent += 1 } else { l.received = l.received.wrapping_sub(1) }
                ensure!(p.clone().verify_with_provider(&c.verifier.hash, &l, &s.commitments).is_err(), "length-unchecked", "a proof verified against the wrong transcript length");
                ensure!(p.clone().verify_with_provider(&c.verifier.hash, &t.length(), &[]).is_err(), "commitments-unchecked", "a proof verified without any commitment");
                sim.probe("proof_verified");
            }
        }
    }
    sim.fp(s.commits.len() as u64);
    sim.stat_nontrivial();
    Ok(())
}
fn idx_of_bounded(r: &Rs, n: usize) -> Option<Vec<usize>> {
    let v: Vec<std::ops::Range<usize>> = r.clone().into_inner();
    if v.iter().any(|x| x.end > n) { None } else { Some(v.into_iter().flatten().collect()) }
}

// ---- A05 -----------------------------------------------------------------
/// A05: the prover accepts an attestation only if it is what it asked for and
/// usable.
pub fn a05(sim: &Sim) -> RunResult {
    let c = case(sim, 2)?;
    let i = 0;
    let s = &c.sessions[i];
    let (req, sec) = (&c.reqs[i], &c.secs[i]);
    must!(req.validate(&c.atts[i], &c.verifier), "an honest attestation validates");
    for _ in 0..1 + sim.pick(6) {
        // What a faulty, hostile or impersonated notary sends back.
        let vals: Vec<Value> = c.atts.iter().map(|a| serde_json::to_value(a).unwrap()).collect();
        let mut v = vals[i].clone();
        match sim.pick(7) {
            0 => { sim.fault("attestation_of_other_session"); v = vals[sim.index(vals.len())].clone(); }
            1 => {
                // Honestly signed, for an altered request.
                sim.fault("notary_alters_request");
                let mut r = serde_json::to_value(req).unwrap();
                match sim.pick(4) {
                    0 => { let e = r["extensions"].as_array_mut().unwrap(); if !e.is_empty() { let k = sim.index(e.len()); e.remove(k); } }
                    1 => { let e = r["extensions"].as_array_mut().unwrap(); if !e.is_empty() { let k = sim.index(e.len()); e[k]["value"] = num(&sim.bytes(3)); } }
                    2 => r["server_cert_commitment"]["value"] = num(&sim.bytes(32)),
                    _ => { let a = 1 + sim.pick(3); r["hash_alg"] = a.into(); }
                }
                if sim.chance(1, 4) { r["signature_alg"] = serde_json::to_value(SIGS[sim.index(3)]).unwrap(); }
                let r: Request = must!(serde_json::from_value(r), "altered request decodes");
                v = serde_json::to_value(must!(attest(s, r, &notary_config(true), &provider(&c.sites, Some(&c.keys))), "attestation")).unwrap();
            }
            2 => { sim.fault("signature_altered"); let a = v["signature"]["data"].as_array_mut().unwrap(); let k = sim.index(a.len()); let b = a[k].as_u64().unwrap() ^ (1 << sim.pick(8)); a[k] = b.into(); }
            3 => {
                sim.fault("body_altered");
                let b = &mut v["body"];
                match sim.pick(4) {
                    0 => { let t = b["connection_info"]["data"]["time"].as_u64().unwrap(); b["connection_info"]["data"]["time"] = (t + 1).into(); }
                    1 => { let a = b["transcript_commitments"].as_array_mut().unwrap(); a.pop(); }
                    2 => { let k = b["server_ephemeral_key"]["data"]["key"].as_array_mut().unwrap(); let n = sim.index(k.len()); k[n] = sim.pick(256).into(); }
                    _ => { let a = b["extensions"].as_array_mut().unwrap(); a.push(json!({"id": 4, "data": {"id": [1, 2], "value": [3]}})); }
                }
            }
            4 => { sim.fault("field_ids_altered"); let n = 1 + sim.pick(9); let k = ["verifying_key", "connection_info", "server_ephemeral_key", "cert_commitment"][sim.index(4)]; v["body"][k]["id"] = n.into(); }
            _ => { for _ in 0..1 + sim.pick(2) { mutate::json(sim, &mut v, &vals) } }
        }
        let Ok(a) = serde_json::from_value::<Attestation>(v) else { sim.probe("undecodable"); continue };
        if req.validate(&a, &c.verifier).is_err() { sim.probe("rejected"); continue; }
        sim.probe("validated");
        let (av, rv) = (serde_json::to_value(&a).unwrap(), serde_json::to_value(req).unwrap());
        ensure!(a.signature.alg == s.sig_alg && a.header.root.alg == s.hash_alg, "validated-alg", "validated {:?}/{:?}, asked for {:?}/{:?}", a.signature.alg, a.header.root.alg, s.sig_alg, s.hash_alg);
        ensure!(av["body"]["cert_commitment"]["data"] == rv["server_cert_commitment"], "validated-certificate", "validated an attestation for another server certificate");
        for e in &s.req_ext { ensure!(a.body.extensions().any(|x| x == e), "validated-extension", "validated an attestation without the requested {e:?}"); }
        // It must be usable: what it says has to survive verification.
        let mut b = a.presentation_builder(&c.verifier);
        b.identity_proof(sec.identity_proof());
        let p = match b.build() { Ok(p) => p, Err(e) => violate!("validated-unusable", "a validated attestation yields no presentation: {e}") };
        match p.verify(&c.verifier) {
            Ok(out) => ensure!(serde_json::to_value(&out.attestation.body).unwrap() == av["body"], "validated-differs", "verification yields another body than was validated"),
            Err(e) => violate!("validated-unusable", "presentation of a validated attestation does not verify: {e}"),
        }
    }
    sim.fp(sim.fault_count());
    Ok(())
}

// ---- A06 -----------------------------------------------------------------
/// A06: damaged files lead to errors or to the truth.
pub fn a06(sim: &Sim) -> RunResult {
    let c = case(sim, 2)?;
    let n = c.sessions.len();
    let json = sim.chance(1, 3);
    let mut shown: Vec<Vec<Reveal>> = vec![];
    let mut pres = vec![];
    for i in 0..n {
        let r = draw_reveal(sim, &c.sessions[i]);
        pres.push(present(sim, &c.secs[i], &c.atts[i], &r, &c.verifier)?);
        shown.push(vec![r]);
    }
    let mut files: Vec<Vec<u8>> = vec![];
    for i in 0..n { files.extend([enc(json, &c.secs[i]), enc(json, &c.reqs[i]), enc(json, &c.atts[i]), enc(json, &pres[i])]); }
    // Undamaged files reload to the same artefacts.
    for (k, f) in files.iter().enumerate() {
        let again = match k % 4 {
            0 => dec::<Secrets>(json, f).map(|x| enc(json, &x)),
            1 => dec::<Request>(json, f).map(|x| enc(json, &x)),
            2 => dec::<Attestation>(json, f).map(|x| enc(json, &x)),
            _ => dec::<Presentation>(json, f).map(|x| enc(json, &x)),
        };
        ensure!(must!(again, "an undamaged file reloads") == *f, "reload", "file {k} changes by being reloaded");
    }
    for _ in 0..1 + sim.pick(10) {
        let k = sim.index(files.len());
        let i = k / 4;
        let mut f = files[k].clone();
        for _ in 0..1 + sim.weighted(&[5, 1]) { mutate::bytes(sim, &mut f, &files); }
        if f == files[k] { continue; }
        sim.step();
        let full = |sec: &Secrets, att: &Attestation| -> RunResult {
            let mut b = att.presentation_builder(&c.verifier);
            b.identity_proof(sec.identity_proof());
            let mut t = sec.transcript_proof_builder();
            for (d, r, _) in &c.sessions[i].commits { let _ = t.reveal(r, *d); }
            if let Ok(p) = t.build() { b.transcript_proof(p); }
            match b.build() { Ok(p) => c.verify(sim, p, None), Err(_) => { sim.probe("builder_refused"); Ok(()) } }
        };
        match k % 4 {
            0 => match dec::<Secrets>(json, &f) { Ok(x) => { sim.probe("damaged_secrets_loaded"); full(&x, &c.atts[i])? } Err(_) => sim.probe("unreadable") },
            1 => match dec::<Request>(json, &f) {
                Ok(x) => {
                    sim.probe("damaged_request_loaded");
                    // The notary attests what it was sent; the prover must notice.
                    if let Ok(a) = attest(&c.sessions[i], x.clone(), &notary_config(true), &provider(&c.sites, Some(&c.keys))) {
                        if c.reqs[i].validate(&a, &c.verifier).is_ok() {
                            let (x, r) = (serde_json::to_value(&x).unwrap(), serde_json::to_value(&c.reqs[i]).unwrap());
                            for f in ["signature_alg", "hash_alg", "server_cert_commitment"] { ensure!(x[f] == r[f], "request-damage-unnoticed", "{f} of the request was damaged, attested and validated"); }
                            for e in r["extensions"].as_array().unwrap() { ensure!(x["extensions"].as_array().unwrap().contains(e), "request-damage-unnoticed", "extension {e} of the request was lost and the result validated"); }
                        }
                    }
                }
                Err(_) => sim.probe("unreadable"),
            },
            2 => match dec::<Attestation>(json, &f) {
                Ok(x) => { sim.probe("damaged_attestation_loaded"); let _ = c.reqs[i].validate(&x, &c.verifier); full(&c.secs[i], &x)? }
                Err(_) => sim.probe("unreadable"),
            },
            _ => match dec::<Presentation>(json, &f) { Ok(p) => c.verify(sim, p, Some(&shown))?, Err(_) => sim.probe("unreadable") },
        }
    }
    sim.fp(sim.fault_count());
    Ok(())
}

// ---- A07 -----------------------------------------------------------------
/// A07: a notary attests only what its configuration allows, and exactly what
/// it witnessed.
pub fn a07(sim: &Sim) -> RunResult {
    let now = 1_750_000_000 + sim.pick(1_000_000);
    simkit::seam::set_epoch_s(now);
    let sites = vec![Site::gen(sim, now)];
    let s = session_max(sim, &sites, 0, now, true, 200)?;
    let k = keys(sim);
    let pp = provider(&sites, None);
    let (req, _) = request(&s, &pp)?;
    // Configuration.
    let mut b = AttestationConfig::builder();
    let sub = |sim: &Sim| -> [bool; 3] { [sim.weighted(&[3, 1]) == 0, sim.weighted(&[3, 1]) == 0, sim.weighted(&[3, 1]) == 0] };
    let sigs = sub(sim);
    let sig_set: Vec<SignatureAlgId> = (0..3).filter(|i| sigs[*i]).map(|i| SIGS[i]).collect();
    b.supported_signature_algs(sig_set.clone());
    let hash_set: Vec<HashAlgId> = if sim.pick(2) == 0 { ALGS.to_vec() } else { let m = sub(sim); let v: Vec<_> = (0..3).filter(|i| m[*i]).map(|i| ALGS[i]).collect(); b.supported_hash_algs(v.clone()); v };
    let policy = sim.pick(4);
    match policy {
        0 => {}
        1 => { b.extension_validator(|_| Ok(())); }
        2 => { b.extension_validator(|_| Err(InvalidExtension::new("no"))); }
        _ => { b.extension_validator(|e| if e.len() <= 1 { Ok(()) } else { Err(InvalidExtension::new("too many")) }); }
    }
    let cfg = must!(b.build(), "config");
    // A provider which may lack the key.
    let mut np = provider(&sites, None);
    let have = [sim.weighted(&[4, 1]) == 0, sim.weighted(&[4, 1]) == 0, sim.weighted(&[4, 1]) == 0];
    if have[0] { must!(np.signer.set_secp256k1(&k[0]), "key"); }
    if have[1] { must!(np.signer.set_secp256r1(&k[1]), "key"); }
    if have[2] { must!(np.signer.set_secp256k1eth(&k[2]), "key"); }
    let si = SIGS.iter().position(|x| *x == s.sig_alg).unwrap();
    let (skip_info, skip_key) = (sim.chance(1, 10), sim.chance(1, 10));
    let ext_ok = match policy { 0 => s.req_ext.is_empty(), 1 => true, 2 => false, _ => s.req_ext.len() <= 1 };
    let accept_ok = sig_set.contains(&s.sig_alg) && hash_set.contains(&s.hash_alg) && ext_ok;
    let accepted = Attestation::builder(&cfg).accept_request(req.clone());
    ensure!(accepted.is_ok() == accept_ok, "accept-verdict", "request ({}, {}, {} extensions) was {} by a notary supporting {sig_set:?} {hash_set:?} with extension policy {policy}", s.sig_alg, s.hash_alg, s.req_ext.len(), if accepted.is_ok() { "accepted" } else { "refused" });
    sim.fp(sigs.iter().fold(policy, |a, x| a * 2 + *x as u64));
    let mut b = match accepted { Ok(b) => b, Err(_) => { sim.fault("request_refused"); return Ok(()) } };
    if !skip_info { b.connection_info(s.info.clone()); } else { sim.fault("connection_info_missing"); }
    if !skip_key { b.server_ephemeral_key(ephem(&s.hs)); } else { sim.fault("ephemeral_key_missing"); }
    b.transcript_commitments(s.commitments.clone());
    for e in &s.notary_ext { b.extension(e.clone()); }
    let built = b.build(&np);
    let build_ok = have[si] && !skip_info && !skip_key;
    ensure!(built.is_ok() == build_ok, "build-verdict", "attestation was {} (signer present: {}, connection info: {}, ephemeral key: {})", if built.is_ok() { "issued" } else { "refused" }, have[si], !skip_info, !skip_key);
    let Ok(a) = built else { sim.fault("issue_refused"); return Ok(()) };
    must!(req.validate(&a, &pp), "validates");
    let v = serde_json::to_value(&a).unwrap();
    let j = |x: &Value| x["data"].clone();
    ensure!(j(&v["body"]["connection_info"]) == serde_json::to_value(&s.info).unwrap(), "attested-info", "attested {} for {:?}", v["body"]["connection_info"], s.info);
    ensure!(j(&v["body"]["server_ephemeral_key"]) == serde_json::to_value(ephem(&s.hs)).unwrap(), "attested-key", "attested another ephemeral key");
    ensure!(j(&v["body"]["cert_commitment"]) == serde_json::to_value(&req).unwrap()["server_cert_commitment"], "attested-certificate", "attested another certificate commitment");
    let list = |f: &str| -> Vec<Value> { v["body"][f].as_array().unwrap().iter().map(j).collect() };
    let want: Vec<Value> = s.req_ext.iter().chain(&s.notary_ext).map(|e| serde_json::to_value(e).unwrap()).collect();
    ensure!(list("extensions") == want, "attested-extensions", "attested extensions {:?}, expected {want:?}", list("extensions"));
    let want: Vec<Value> = s.commitments.iter().map(|e| serde_json::to_value(e).unwrap()).collect();
    ensure!(list("transcript_commitments") == want, "attested-commitments", "attested other transcript commitments");
    ensure!(a.body.verifying_key() == &notary_keys(&k)[si], "attested-with", "attested under {:?}", a.body.verifying_key());
    // The same request attested twice yields distinguishable attestations.
    let b2 = must!(attest(&s, req, &cfg, &np), "attested again");
    ensure!(b2.header.id != a.header.id, "uid-reused", "two attestations share the id {:?}", a.header.id);
    sim.probe("issued");
    sim.stat_nontrivial();
    Ok(())
}
#[allow(unused)]
fn _u(_: &RequestConfig, _: DnsName) { let _ = exact; }
