//! Sessions witnessed by a notary: the servers (generated PKI), what was
//! exchanged, what the prover committed to, and the artefacts produced by the
//! real core and attestation crates.
use crate::certs::{self, Kt, World};
use rangeset::set::RangeSet;
use simkit::Sim;
use std::ops::Range;
use tlsn_attestation::request::{Request, RequestConfig};
use tlsn_attestation::signing::{SignatureAlgId, VerifyingKey};
use tlsn_attestation::{Attestation, AttestationConfig, CryptoProvider, Extension, Secrets};
use tlsn_core::connection::*;
use tlsn_core::hash::{Blinder, HashAlgId, HashProvider};
use tlsn_core::transcript::hash::{hash_plaintext, PlaintextHash, PlaintextHashSecret};
use tlsn_core::transcript::*;
use tlsn_core::webpki::{CertificateDer, RootCertStore, ServerCertVerifier};

pub type Rs = RangeSet<usize>;
pub const ALGS: [HashAlgId; 3] = [HashAlgId::SHA256, HashAlgId::BLAKE3, HashAlgId::KECCAK256];
pub const SIGS: [SignatureAlgId; 3] = [SignatureAlgId::SECP256K1, SignatureAlgId::SECP256R1, SignatureAlgId::SECP256K1ETH];

/// Unwraps what the harness itself set up.
#[macro_export]
macro_rules! must {
    ($e:expr, $w:expr) => {
        match $e {
            Ok(v) => v,
            Err(e) => return Err(simkit::Violation::new("honest-step-failed", format!("{}: {e}", $w))),
        }
    };
}

pub fn rs(v: &[Range<usize>]) -> Rs { RangeSet::from(v.to_vec()) }
/// The indices of a set, independently of the set's own algebra.
pub fn idx_of(r: &Rs) -> Vec<usize> {
    let v: Vec<Range<usize>> = r.clone().into_inner();
    v.into_iter().flatten().collect()
}
pub fn mask(r: &Rs, n: usize) -> Vec<bool> {
    let mut m = vec![false; n];
    for i in idx_of(r) { if i < n { m[i] = true } }
    m
}
pub fn from_mask(m: &[bool]) -> Rs {
    let mut v = vec![];
    let mut i = 0;
    while i < m.len() {
        if m[i] {
            let s = i;
            while i < m.len() && m[i] { i += 1 }
            v.push(s..i);
        } else { i += 1 }
    }
    RangeSet::from(v)
}
pub fn subset(a: &Rs, b: &Rs, n: usize) -> bool {
    let (x, y) = (mask(a, n), mask(b, n));
    idx_of(a).iter().all(|i| *i < n) && x.iter().zip(&y).all(|(p, q)| !*p || *q)
}

/// A random range set over `0..n`, simplest = empty.
pub fn ranges(sim: &Sim, n: usize) -> Rs {
    if n == 0 { return Rs::default(); }
    let k = [1, 0, 2, 3, 5][sim.weighted(&[5, 1, 3, 2, 1])];
    let mut v = vec![];
    for _ in 0..k {
        let a = sim.index(n);
        let l = 1 + sim.size((n - a - 1) as u64) as usize;
        v.push(a..(a + l).min(n));
    }
    if sim.chance(1, 8) { v = vec![0..n]; }
    rs(&v)
}

pub fn sig_alg(kt: Kt, scheme: u16) -> Option<SignatureAlgorithm> {
    use SignatureAlgorithm::*;
    Some(match (scheme, kt) {
        (0x0403, Kt::P384) => ECDSA_NISTP384_SHA256,
        (0x0403, _) => ECDSA_NISTP256_SHA256,
        (0x0503, Kt::P256) => ECDSA_NISTP256_SHA384,
        (0x0503, _) => ECDSA_NISTP384_SHA384,
        (0x0807, _) => ED25519,
        (0x0401, _) => RSA_PKCS1_2048_8192_SHA256,
        (0x0501, _) => RSA_PKCS1_2048_8192_SHA384,
        (0x0601, _) => RSA_PKCS1_2048_8192_SHA512,
        (0x0804, _) => RSA_PSS_2048_8192_SHA256_LEGACY_KEY,
        (0x0805, _) => RSA_PSS_2048_8192_SHA384_LEGACY_KEY,
        (0x0806, _) => RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
        _ => return None,
    })
}

pub fn kx_params(point: &[u8]) -> Vec<u8> {
    let mut v = vec![3, 0, 23, point.len() as u8];
    v.extend_from_slice(point);
    v
}

/// A server with its PKI.
pub struct Site {
    pub w: World,
    pub kt: Kt,
}
impl Site {
    pub fn gen(sim: &Sim, now: u64) -> Site {
        let w = certs::build_world(sim, now);
        let kt = w.keys[w.certs[w.leaf].key].kt();
        Site { w, kt }
    }
    pub fn sans(&self) -> &[String] { &self.w.certs[self.w.leaf].spec.sans }
    pub fn roots(&self) -> Vec<CertificateDer> { vec![CertificateDer(self.w.root_der())] }
    /// One TLS 1.2 handshake by this server.
    pub fn handshake(&self, sim: &Sim) -> HandshakeData {
        let mut point = sim.bytes(65);
        point[0] = 4;
        let (cr, sr) = (certs::arr32(sim), certs::arr32(sim));
        self.sign_over(sim, CertBindingV1_2 { client_random: cr, server_random: sr, server_ephemeral_key: ServerEphemKey { typ: KeyType::SECP256R1, key: point } })
    }
    /// This server's certificates and a valid signature of its key over `b`.
    pub fn sign_over(&self, sim: &Sim, b: CertBindingV1_2) -> HandshakeData {
        let scheme = certs::native(self.kt, sim);
        let sig = self.w.keys[self.w.certs[self.w.leaf].key].sign(&certs::signed_msg(&b.client_random, &b.server_random, &kx_params(&b.server_ephemeral_key.key)), scheme);
        HandshakeData {
            certs: self.w.chain().into_iter().map(CertificateDer).collect(),
            sig: ServerSignature { alg: sig_alg(self.kt, scheme).expect("HARNESS-ERROR: scheme"), sig },
            binding: CertBinding::V1_2(b),
        }
    }
}
pub fn ephem(h: &HandshakeData) -> ServerEphemKey {
    match &h.binding { CertBinding::V1_2(b) => b.server_ephemeral_key.clone(), _ => unreachable!() }
}

/// What happened in one TLS session, as the simulator knows it.
pub struct Session {
    pub site: usize,
    pub name: ServerName,
    pub hs: HandshakeData,
    pub sent: Vec<u8>,
    pub recv: Vec<u8>,
    pub info: ConnectionInfo,
    pub commits: Vec<(Direction, Rs, HashAlgId)>,
    pub commitments: Vec<TranscriptCommitment>,
    pub secrets: Vec<TranscriptSecret>,
    pub req_ext: Vec<Extension>,
    pub notary_ext: Vec<Extension>,
    pub sig_alg: SignatureAlgId,
    pub hash_alg: HashAlgId,
}
impl Session {
    pub fn data(&self, d: Direction) -> &[u8] { match d { Direction::Sent => &self.sent, Direction::Received => &self.recv } }
    pub fn transcript(&self) -> Transcript { Transcript::new(self.sent.clone(), self.recv.clone()) }
    /// Everything committed in one direction.
    pub fn committed(&self, d: Direction) -> Vec<bool> {
        let n = self.data(d).len();
        let mut m = vec![false; n];
        for (x, r, _) in &self.commits { if *x == d { for i in idx_of(r) { m[i] = true } } }
        m
    }
}

fn ext(sim: &Sim) -> Extension {
    let (a, b) = (sim.range(1, 12) as usize, sim.size(60) as usize);
    Extension { id: sim.bytes(a), value: sim.bytes(b) }
}

/// Draws a session with a server, including what the prover commits to. The
/// joint hashing of committed plaintext (a two-party computation in
/// production) is done by the simulator.
pub fn session(sim: &Sim, sites: &[Site], site: usize, now: u64, multi_alg: bool) -> Result<Session, simkit::Violation> { session_max(sim, sites, site, now, multi_alg, 20_000) }
pub fn session_max(sim: &Sim, sites: &[Site], site: usize, now: u64, multi_alg: bool, max: u64) -> Result<Session, simkit::Violation> {
    let s = &sites[site];
    let hs = s.handshake(sim);
    let len = |sim: &Sim| match sim.weighted(&[8, 1, 1]) { 0 => sim.range(16, max.min(400)) as usize, 1 => sim.pick(16) as usize, _ => sim.size(max) as usize };
    let (a, b) = (len(sim), len(sim));
    let (sent, recv) = (sim.bytes(a), sim.bytes(b));
    let t = Transcript::new(sent.clone(), recv.clone());
    // The prover's choice, through the real configuration builder.
    let mut cb = TranscriptCommitConfig::builder(&t);
    let default_alg = ALGS[sim.index(3)];
    if multi_alg { cb.default_kind(TranscriptCommitmentKind::Hash { alg: default_alg }); }
    let mut want: Vec<(Direction, Rs, HashAlgId)> = vec![];
    for _ in 0..1 + sim.pick(6) {
        let d = [Direction::Received, Direction::Sent][sim.index(2)];
        let r = ranges(sim, if d == Direction::Sent { a } else { b });
        if r.is_empty() { continue; }
        let alg = if multi_alg && sim.chance(1, 3) {
            let alg = ALGS[sim.index(3)];
            must!(cb.commit_with_kind(&r, d, TranscriptCommitmentKind::Hash { alg }), "commit_with_kind in bounds");
            alg
        } else {
            match sim.pick(2) {
                0 => { must!(cb.commit(&r, d), "commit in bounds"); }
                _ if d == Direction::Sent => { must!(cb.commit_sent(&r), "commit in bounds"); }
                _ => { must!(cb.commit_recv(&r), "commit in bounds"); }
            }
            if multi_alg { default_alg } else { HashAlgId::BLAKE3 }
        };
        if !want.contains(&(d, r.clone(), alg)) { want.push((d, r, alg)); }
    }
    let cfg = must!(cb.build(), "commit config");
    let req = cfg.to_request();
    // The request the notary acts on asks for exactly what was configured.
    let got: Vec<(Direction, Rs, HashAlgId)> = req.iter_hash().cloned().collect();
    simkit::ensure!(got.len() == want.len() && want.iter().all(|w| got.contains(w)), "commit-request", "the commitment request {got:?} is not what was configured {want:?}");
    simkit::ensure!(req.has_hash() != want.is_empty() && cfg.has_hash() != want.is_empty(), "commit-request", "has_hash is wrong for {} commitments", want.len());
    sim.fp(simkit::rng::hash_bytes(9, format!("{a} {b} {got:?}").as_bytes()));
    let prov = HashProvider::default();
    let (mut commitments, mut secrets) = (vec![], vec![]);
    for (d, r, alg) in &got {
        let blinder: Blinder = rand::random();
        let src = if *d == Direction::Sent { &sent } else { &recv };
        let plain: Vec<u8> = idx_of(r).into_iter().map(|i| src[i]).collect();
        let hasher = must!(prov.get(alg), "hash algorithm");
        let hash = hash_plaintext(hasher, &plain, &blinder);
        simkit::ensure!(hash.alg == *alg, "hash-alg", "hash of {plain:?} labelled {} instead of {alg}", hash.alg);
        commitments.push(TranscriptCommitment::Hash(PlaintextHash { direction: *d, idx: r.clone(), hash }));
        secrets.push(TranscriptSecret::Hash(PlaintextHashSecret { direction: *d, idx: r.clone(), alg: *alg, blinder }));
    }
    let req_ext = (0..sim.weighted(&[3, 1, 1])).map(|_| ext(sim)).collect();
    let notary_ext = (0..sim.weighted(&[3, 1, 1])).map(|_| ext(sim)).collect();
    Ok(Session {
        site,
        name: ServerName::Dns(DnsName::try_from(s.w.host.as_str()).expect("HARNESS-ERROR: name")),
        hs,
        info: ConnectionInfo { time: now, version: TlsVersion::V1_2, transcript_length: TranscriptLength { sent: a as u32, received: b as u32 } },
        sent, recv,
        commits: got, commitments, secrets, req_ext, notary_ext,
        sig_alg: SIGS[sim.index(3)],
        hash_alg: ALGS[[1, 0, 2][sim.index(3)]],
    })
}

pub fn keys(sim: &Sim) -> [Vec<u8>; 3] { [sim.bytes(32), sim.bytes(32), sim.bytes(32)].map(|mut k| { k[0] = 1; k }) }

pub fn cert_verifier(sites: &[Site]) -> ServerCertVerifier {
    let roots = sites.iter().flat_map(|s| s.roots()).collect();
    ServerCertVerifier::new(&RootCertStore { roots }).expect("HARNESS-ERROR: roots")
}
/// A node's crypto provider; only the notary holds signing keys.
pub fn provider(sites: &[Site], signing: Option<&[Vec<u8>; 3]>) -> CryptoProvider {
    let mut p = CryptoProvider { hash: Default::default(), cert: cert_verifier(sites), signer: Default::default(), signature: Default::default() };
    if let Some(k) = signing {
        p.signer.set_secp256k1(&k[0]).expect("HARNESS-ERROR: key");
        p.signer.set_secp256r1(&k[1]).expect("HARNESS-ERROR: key");
        p.signer.set_secp256k1eth(&k[2]).expect("HARNESS-ERROR: key");
    }
    p
}
/// The notary's verifying keys, derived independently of the attestation crate.
pub fn notary_keys(k: &[Vec<u8>; 3]) -> Vec<VerifyingKey> {
    use tlsn_attestation::signing::KeyAlgId;
    let k1 = |b: &[u8]| k256::ecdsa::SigningKey::from_slice(b).unwrap().verifying_key().to_sec1_bytes().to_vec();
    let r1 = |b: &[u8]| p256::ecdsa::SigningKey::from_slice(b).unwrap().verifying_key().to_sec1_bytes().to_vec();
    vec![
        VerifyingKey { alg: KeyAlgId::K256, data: k1(&k[0]) },
        VerifyingKey { alg: KeyAlgId::P256, data: r1(&k[1]) },
        VerifyingKey { alg: KeyAlgId::K256, data: k1(&k[2]) },
    ]
}

pub fn request(s: &Session, p: &CryptoProvider) -> Result<(Request, Secrets), simkit::Violation> {
    let mut b = RequestConfig::builder();
    b.signature_alg(s.sig_alg).hash_alg(s.hash_alg);
    for e in &s.req_ext { b.extension(e.clone()); }
    let cfg = must!(b.build(), "request config");
    let mut b = Request::builder(&cfg);
    b.server_name(s.name.clone()).handshake_data(s.hs.clone()).transcript(s.transcript()).transcript_commitments(s.secrets.clone(), s.commitments.clone());
    Ok(must!(b.build(p), "request"))
}
pub fn notary_config(allow_ext: bool) -> AttestationConfig {
    let mut b = AttestationConfig::builder();
    b.supported_signature_algs(SIGS);
    if allow_ext { b.extension_validator(|_| Ok(())); }
    b.build().expect("HARNESS-ERROR: attestation config")
}
pub fn attest(s: &Session, req: Request, cfg: &AttestationConfig, p: &CryptoProvider) -> Result<Attestation, String> {
    let mut b = Attestation::builder(cfg).accept_request(req).map_err(|e| e.to_string())?;
    b.connection_info(s.info.clone()).server_ephemeral_key(ephem(&s.hs)).transcript_commitments(s.commitments.clone());
    for e in &s.notary_ext { b.extension(e.clone()); }
    b.build(p).map_err(|e| e.to_string())
}
