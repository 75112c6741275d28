//! A12: signatures are bound to their key, scheme and message, and algorithms
//! an application adds are used wherever (and only where) it configured them.
use crate::flow::{dec, enc};
use crate::must;
use crate::world::*;
use ec256::{Fe, Point};
use sha2::{Digest, Sha256};
use simkit::{ensure, ev, violate, RunResult, Sim};
use tiny_keccak::{Hasher, Keccak};
use tlsn_attestation::presentation::Presentation;
use tlsn_attestation::request::{Request, RequestConfig};
use tlsn_attestation::signing::*;
use tlsn_attestation::{Attestation, AttestationConfig};
use tlsn_core::hash::{Hash, HashAlgId, HashAlgorithm};

type C = ec256::Secp256k1;
type N = <C as ec256::Curve>::N;
type P = <C as ec256::Curve>::P;

/// What Solidity's `ecrecover` computes for `r || s || v`.
fn ecrecover(z: &[u8; 32], sig: &[u8]) -> Option<Vec<u8>> {
    if sig.len() != 65 || !matches!(sig[64], 27 | 28) { return None; }
    let rb: [u8; 32] = sig[..32].try_into().unwrap();
    let r = Fe::<N>::from_be_checked(&rb)?;
    let s = Fe::<N>::from_be_checked(sig[32..64].try_into().unwrap())?;
    let p = Point::<C>::lift_x(Fe::<P>::from_be_checked(&rb)?, sig[64] == 28)?;
    let ri = r.inv()?;
    let z = Fe::<N>::from_be_reduced(z);
    // Q = (s R - z G) / r
    let a = p.mul(&(s * ri));
    let b = Point::<C>::generator().mul(&(-(z * ri)));
    Some(a.add(&b).to_sec1(true))
}
fn keccak(m: &[u8]) -> [u8; 32] {
    let mut k = Keccak::v256();
    let mut o = [0; 32];
    k.update(m);
    k.finalize(&mut o);
    o
}

fn signer(alg: SignatureAlgId, key: &[u8]) -> Box<dyn Signer + Send + Sync> {
    match alg {
        SignatureAlgId::SECP256K1 => Box::new(Secp256k1Signer::new(key).expect("HARNESS-ERROR: key")),
        SignatureAlgId::SECP256R1 => Box::new(Secp256r1Signer::new(key).expect("HARNESS-ERROR: key")),
        _ => Box::new(Secp256k1EthSigner::new(key).expect("HARNESS-ERROR: key")),
    }
}
fn verifier(alg: SignatureAlgId) -> Box<dyn SignatureVerifier> {
    match alg {
        SignatureAlgId::SECP256K1 => Box::new(Secp256k1Verifier),
        SignatureAlgId::SECP256R1 => Box::new(Secp256r1Verifier),
        _ => Box::new(Secp256k1EthVerifier),
    }
}

struct Made { alg: SignatureAlgId, key: VerifyingKey, msg: Vec<u8>, sig: Vec<u8> }

/// Notaries sign; a channel delivers what they signed altered, relabelled or
/// recombined.
pub fn signatures(sim: &Sim) -> RunResult {
    let nk = 1 + sim.pick(2) as usize;
    let raw: Vec<[Vec<u8>; 3]> = (0..nk).map(|_| {
        let mut k = keys(sim);
        // One secret used under both secp256k1 schemes.
        if sim.chance(1, 2) { k[2] = k[0].clone(); sim.probe("key_shared_between_schemes"); }
        k
    }).collect();
    let mut made: Vec<Made> = vec![];
    for _ in 0..1 + sim.pick(4) {
        let (n, a) = (sim.index(nk), sim.index(3));
        let len = sim.size(200) as usize;
        let msg = if !made.is_empty() && sim.chance(1, 3) { made[sim.index(made.len())].msg.clone() } else { sim.bytes(len) };
        let s = signer(SIGS[a], &raw[n][a]);
        ensure!(s.alg_id() == SIGS[a], "signer-alg", "a {} signer calls itself {}", SIGS[a], s.alg_id());
        let key = s.verifying_key();
        let want = &notary_keys(&raw[n])[a];
        ensure!(key == *want, "verifying-key", "the verifying key of {} is {key:?} instead of {want:?}", SIGS[a]);
        let sig = must!(s.sign(&msg), "signing");
        ensure!(sig.alg == SIGS[a], "signature-alg", "a {} signature is labelled {}", SIGS[a], sig.alg);
        if a == 2 {
            ensure!(ecrecover(&keccak(&msg), &sig.data).as_deref() == Some(&key.data[..]), "ecrecover", "an Ethereum signature (v = {:?}) does not recover the notary's key", sig.data.last());
            sim.probe("recovered");
        }
        made.push(Made { alg: SIGS[a], key, msg, sig: sig.data });
    }
    for m in &made {
        must!(verifier(m.alg).verify(&m.key, &m.msg, &m.sig), "verification of a genuine signature");
        sim.probe("genuine_accepted");
    }
    for _ in 0..1 + sim.pick(12) {
        let m = &made[sim.index(made.len())];
        let o = &made[sim.index(made.len())];
        let (mut alg, mut key, mut msg, mut sig) = (m.alg, m.key.clone(), m.msg.clone(), m.sig.clone());
        for _ in 0..1 + sim.weighted(&[3, 1]) {
            match sim.pick(10) {
                0 => { sim.fault("signature_bit"); let k = sim.index(sig.len().max(1)); if let Some(b) = sig.get_mut(k) { *b ^= 1 << sim.pick(8) } }
                1 => { sim.fault("message_altered"); if msg.is_empty() { msg.push(0) } else { let k = sim.index(msg.len()); msg[k] ^= 1 << sim.pick(8) } }
                2 => { sim.fault("message_truncated"); let n = sim.index(msg.len() + 1); msg.truncate(n) }
                3 => { sim.fault("scheme_relabelled"); alg = SIGS[sim.index(3)] }
                4 => { sim.fault("key_relabelled"); key.alg = [KeyAlgId::K256, KeyAlgId::P256, KeyAlgId::new(128 + sim.pick(128) as u8)][sim.index(3)] }
                5 => { sim.fault("other_key"); key = o.key.clone() }
                6 => { sim.fault("other_signature"); sig = o.sig.clone() }
                7 => { sim.fault("other_message"); msg = o.msg.clone() }
                8 => {
                    sim.fault("signature_length");
                    match sim.pick(3) { 0 => { let n = sim.index(sig.len() + 1); sig.truncate(n) } 1 => sig.push(sim.pick(256) as u8), _ => { sig.insert(0, 0) } }
                }
                _ => { sim.fault("key_damaged"); match sim.pick(3) { 0 => { key.data.pop(); } 1 => { if let Some(b) = key.data.first_mut() { *b ^= 1 } } _ => { let k = sim.index(key.data.len().max(1)); if let Some(b) = key.data.get_mut(k) { *b ^= 1 << sim.pick(8) } } } }
            }
        }
        let got = verifier(alg).verify(&key, &msg, &sig).is_ok();
        sim.step();
        ev!(sim, "{alg} {key:?} msg {} bytes sig {} bytes -> {got}", msg.len(), sig.len());
        sim.observe(got as u64);
        // The message must have been signed by that key under that scheme, and
        // a signature has one length and one (r, s) up to the sign of s. The
        // Ethereum recovery byte is not part of what is verified.
        let by: Vec<&Made> = made.iter().filter(|x| x.alg == alg && x.key == key && x.msg == msg).collect();
        let want_len = if alg == SignatureAlgId::SECP256K1ETH { 65 } else { 64 };
        if got {
            ensure!(!by.is_empty(), "accepted-forged", "a {alg} signature was accepted for a key and message which were never signed");
            ensure!(sig.len() == want_len && by.iter().any(|x| x.sig[..32] == sig[..32]), "accepted-altered", "an altered {alg} signature of {} bytes was accepted", sig.len());
            sim.probe("accepted");
        } else {
            ensure!(!by.iter().any(|x| x.sig == sig), "rejected-genuine", "a genuine {alg} signature was refused");
            sim.probe("rejected");
        }
        sim.fp(simkit::rng::hash_bytes(3, &[&[alg.as_u8()][..], &key.data, &msg, &sig].concat()));
    }
    sim.stat_nontrivial();
    Ok(())
}

// ---- an application's own algorithms -------------------------------------
const OWN_SIG: SignatureAlgId = SignatureAlgId::new(200);
const OWN_HASH: HashAlgId = HashAlgId::new(177);
/// A keyed hash as a "signature": good enough to tell who made it in a test.
struct Own(Vec<u8>);
fn tag(k: &[u8], m: &[u8]) -> Vec<u8> { Sha256::digest([k, m].concat()).to_vec() }
impl Signer for Own {
    fn alg_id(&self) -> SignatureAlgId { OWN_SIG }
    fn sign(&self, msg: &[u8]) -> Result<Signature, SignatureError> { Ok(Signature { alg: OWN_SIG, data: tag(&self.0, msg) }) }
    fn verifying_key(&self) -> VerifyingKey { VerifyingKey { alg: KeyAlgId::new(201), data: self.0.clone() } }
}
impl SignatureVerifier for Own {
    fn alg_id(&self) -> SignatureAlgId { OWN_SIG }
    fn verify(&self, key: &VerifyingKey, msg: &[u8], sig: &[u8]) -> Result<(), SignatureError> {
        if key.data == self.0 && sig == tag(&self.0, msg) { Ok(()) } else { Err(SignatureError::from_str("no")) }
    }
}
/// A 48-byte hash.
struct OwnHash;
impl HashAlgorithm for OwnHash {
    fn id(&self) -> HashAlgId { OWN_HASH }
    fn hash(&self, d: &[u8]) -> Hash { self.hash_prefixed(b"", d) }
    fn hash_prefixed(&self, p: &[u8], d: &[u8]) -> Hash {
        let a = Sha256::digest([b"own", p, d].concat());
        let b = Sha256::digest(a);
        Hash::try_from([&a[..], &b[..16]].concat()).expect("HARNESS-ERROR: hash length")
    }
}

/// One attestation with algorithms the application brought, by nodes of which
/// some lack them.
pub fn own_algorithms(sim: &Sim) -> RunResult {
    let now = 1_750_000_000 + sim.pick(1_000_000);
    simkit::seam::set_epoch_s(now);
    let sites = vec![Site::gen(sim, now)];
    let s = session_max(sim, &sites, 0, now, true, 200)?;
    let k = keys(sim);
    let secret = sim.bytes(32);
    let sig_alg = if sim.weighted(&[3, 1]) == 0 { OWN_SIG } else { s.sig_alg };
    let hash_alg = if sim.weighted(&[3, 1]) == 0 { OWN_HASH } else { s.hash_alg };
    let node = |sim: &Sim, signs: bool| {
        let mut p = provider(&sites, signs.then_some(&k));
        let (a, b) = (sim.weighted(&[5, 1]) == 0, sim.weighted(&[5, 1]) == 0);
        if a { if signs { p.signer.set_signer(Box::new(Own(secret.clone()))); } p.signature.set_verifier(Box::new(Own(secret.clone()))); }
        if b { p.hash.set_algorithm(OWN_HASH, Box::new(OwnHash)); }
        if !a || !b { sim.fault("node_lacks_algorithm"); }
        (p, (a || sig_alg != OWN_SIG), (b || hash_alg != OWN_HASH))
    };
    let (prover, ps, ph) = node(sim, false);
    let (notary, ns, nh) = node(sim, true);
    let (ver, vs, vh) = node(sim, false);
    let mut b = RequestConfig::builder();
    b.signature_alg(sig_alg).hash_alg(hash_alg);
    for e in &s.req_ext { b.extension(e.clone()); }
    let cfg = must!(b.build(), "request config");
    let mut b = Request::builder(&cfg);
    b.server_name(s.name.clone()).handshake_data(s.hs.clone()).transcript(s.transcript()).transcript_commitments(s.secrets.clone(), s.commitments.clone());
    let got = b.build(&prover);
    ensure!(got.is_ok() == ph, "request-verdict", "a request with hash {hash_alg} was {} by a prover which {} it", if got.is_ok() { "built" } else { "refused" }, if ph { "has" } else { "lacks" });
    let Ok((req, sec)) = got else { return Ok(()) };
    let json = sim.chance(1, 2);
    let req: Request = must!(dec(json, &enc(json, &req)), "request travels");
    // The notary is willing, or not.
    let mut b = AttestationConfig::builder();
    let (mut sigs, mut hashes) = (SIGS.to_vec(), ALGS.to_vec());
    if sim.weighted(&[5, 1]) == 0 { sigs.push(OWN_SIG); }
    if sim.weighted(&[5, 1]) == 0 { hashes.push(OWN_HASH); }
    b.supported_signature_algs(sigs.clone()).supported_hash_algs(hashes.clone()).extension_validator(|_| Ok(()));
    let acfg = must!(b.build(), "attestation config");
    let willing = sigs.contains(&sig_alg) && hashes.contains(&hash_alg);
    let got = attest(&s, req.clone(), &acfg, &notary);
    ensure!(got.is_ok() == (willing && ns && nh), "attest-verdict", "{sig_alg} over {hash_alg}: willing {willing}, signer {ns}, hash {nh}, result {:?}", got.as_ref().err());
    sim.fp(((ps as u64) << 5 | (ph as u64) << 4 | (ns as u64) << 3 | (nh as u64) << 2 | (vs as u64) << 1 | vh as u64) + (willing as u64 + 2 * (sig_alg == OWN_SIG) as u64 + 4 * (hash_alg == OWN_HASH) as u64) * 64);
    let Ok(att) = got else { sim.fault("notary_refused"); return Ok(()) };
    let att: Attestation = must!(dec(json, &enc(json, &att)), "attestation travels");
    ensure!(att.signature.alg == sig_alg && att.header.root.alg == hash_alg, "wrong-algorithm", "asked for {sig_alg} over {hash_alg}, attested with {} over {}", att.signature.alg, att.header.root.alg);
    if sig_alg == OWN_SIG { ensure!(att.body.verifying_key() == &VerifyingKey { alg: KeyAlgId::new(201), data: secret.clone() }, "verifying-key", "attested under {:?}", att.body.verifying_key()); }
    let got = req.validate(&att, &prover);
    ensure!(got.is_ok() == (ps && ph), "validate-verdict", "{sig_alg} over {hash_alg} by a prover with signature {ps}, hash {ph}: {:?}", got.err().map(|e| e.to_string()));
    let mut b = att.presentation_builder(&prover);
    b.identity_proof(sec.identity_proof());
    let Ok(p) = b.build() else { violate!("presentation-refused", "no presentation of an attestation with {sig_alg} over {hash_alg}") };
    let mut bytes = enc(json, &p);
    let forged = sim.chance(1, 3);
    if forged {
        let mut v: serde_json::Value = serde_json::to_value(&p).unwrap();
        let a = v["attestation"]["signature"]["data"].as_array_mut().unwrap();
        // (not the Ethereum recovery byte, which is not verified)
        let i = sim.index(a.len().min(64));
        a[i] = (a[i].as_u64().unwrap() as u8 ^ (1 << sim.pick(8))).into();
        sim.fault("signature_altered");
        bytes = enc(json, &must!(serde_json::from_value::<Presentation>(v), "altered presentation decodes"));
    }
    let p: Presentation = must!(dec(json, &bytes), "presentation travels");
    let got = p.verify(&ver);
    sim.step();
    sim.observe(got.is_ok() as u64);
    ensure!(got.is_ok() == (vs && vh && !forged), "verify-verdict", "{sig_alg} over {hash_alg} by a verifier with signature {vs}, hash {vh}, forged {forged}: {:?}", got.err().map(|e| e.to_string()));
    if let Ok(o) = got {
        ensure!(o.server_name.as_ref() == Some(&s.name) && o.connection_info == s.info, "verified-differs", "verified {:?} {:?}", o.server_name, o.connection_info);
        if sig_alg == OWN_SIG { sim.probe("own_signature_verified"); }
        if hash_alg == OWN_HASH { sim.probe("own_hash_verified"); }
    }
    sim.stat_nontrivial();
    Ok(())
}
