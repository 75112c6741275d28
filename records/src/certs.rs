//! Certificate acceptance: a generated PKI, a server presenting a handshake
//! over wire messages, a client whose clock is skewed or jumps, and the real
//! `HandshakeData::verify` judged against an independent model.
use crate::link::hex;
use ring::digest;
use ring::rand::SystemRandom;
use ring::signature::{self as rsig, EcdsaKeyPair, Ed25519KeyPair, KeyPair, RsaKeyPair};
use simkit::{ensure, ev, seam, violate, RunResult, Sim, Violation};
use std::time::Duration;
use tls_core::anchors::RootCertStore;
use tls_core::cert::ServerCertDetails;
use tls_core::dns::ServerName;
use tls_core::handshake::HandshakeData;
use tls_core::ke::ServerKxDetails;
use tls_core::msgs::codec::{Codec, Reader};
use tls_core::msgs::enums::SignatureScheme;
use tls_core::msgs::handshake::*;
use tls_core::verify::{CertificateTransparencyPolicy, ServerCertVerifier, WebPkiVerifier};
use web_time::SystemTime;

// ---- DER ----
pub fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    let n = body.len();
    if n < 128 { v.push(n as u8) }
    else if n < 256 { v.extend([0x81, n as u8]) }
    else { v.extend([0x82, (n >> 8) as u8, n as u8]) }
    v.extend_from_slice(body);
    v
}
fn seq(parts: &[Vec<u8>]) -> Vec<u8> { tlv(0x30, &parts.concat()) }
fn oid(b: &[u8]) -> Vec<u8> { tlv(6, b) }
fn octet(b: &[u8]) -> Vec<u8> { tlv(4, b) }
fn boolean(x: bool) -> Vec<u8> { tlv(1, &[if x { 0xff } else { 0 }]) }
fn bits(b: &[u8]) -> Vec<u8> { let mut v = vec![0]; v.extend_from_slice(b); tlv(3, &v) }
fn uint(x: u64) -> Vec<u8> {
    let mut b: Vec<u8> = x.to_be_bytes().to_vec();
    while b.len() > 1 && b[0] == 0 && b[1] < 0x80 { b.remove(0); }
    if b[0] >= 0x80 { b.insert(0, 0); }
    tlv(2, &b)
}
/// Civil date from seconds since the epoch.
fn civil(t: u64) -> (i64, u64, u64, u64, u64, u64) {
    let (days, s) = ((t / 86400) as i64, t % 86400);
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + i64::from(m <= 2);
    (y, m as u64, d as u64, s / 3600, s % 3600 / 60, s % 60)
}
fn time(t: u64) -> Vec<u8> {
    let (y, mo, d, h, mi, s) = civil(t);
    if y < 2050 { tlv(0x17, format!("{:02}{mo:02}{d:02}{h:02}{mi:02}{s:02}Z", y % 100).as_bytes()) }
    else { tlv(0x18, format!("{y:04}{mo:02}{d:02}{h:02}{mi:02}{s:02}Z").as_bytes()) }
}
fn cn(s: &str) -> Vec<u8> { seq(&[tlv(0x31, &seq(&[oid(&[0x55, 4, 3]), tlv(0x0c, s.as_bytes())]))]) }

// ---- keys ----
pub enum Key { P256(EcdsaKeyPair, Vec<u8>), P384(EcdsaKeyPair, Vec<u8>), Ed(Ed25519KeyPair), Rsa(RsaKeyPair) }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kt { P256, P384, Ed, Rsa }
const RSA_KEY: &[u8] = include_bytes!("rsa_test_key.der");
impl Key {
    pub fn gen(kt: Kt) -> Key { Self::gen_pkcs8(kt).0 }
    pub fn gen_pkcs8(kt: Kt) -> (Key, Vec<u8>) {
        let r = SystemRandom::new();
        let ec = |a| {
            let d = EcdsaKeyPair::generate_pkcs8(a, &r).unwrap();
            (EcdsaKeyPair::from_pkcs8(a, d.as_ref(), &r).unwrap(), d.as_ref().to_vec())
        };
        match kt {
            Kt::P256 => { let (k, d) = ec(&rsig::ECDSA_P256_SHA256_ASN1_SIGNING); (Key::P256(k, crate::ecdsa::scalar(&d, 32)), d) }
            Kt::P384 => { let (k, d) = ec(&rsig::ECDSA_P384_SHA384_ASN1_SIGNING); (Key::P384(k, crate::ecdsa::scalar(&d, 48)), d) }
            Kt::Ed => {
                let d = Ed25519KeyPair::generate_pkcs8(&r).unwrap();
                (Key::Ed(Ed25519KeyPair::from_pkcs8(d.as_ref()).unwrap()), d.as_ref().to_vec())
            }
            Kt::Rsa => (Key::Rsa(RsaKeyPair::from_pkcs8(RSA_KEY).unwrap()), RSA_KEY.to_vec()),
        }
    }
    pub fn kt(&self) -> Kt { match self { Key::P256(..) => Kt::P256, Key::P384(..) => Kt::P384, Key::Ed(_) => Kt::Ed, Key::Rsa(_) => Kt::Rsa } }
    pub fn public(&self) -> Vec<u8> {
        match self {
            Key::P256(k, _) | Key::P384(k, _) => k.public_key().as_ref().to_vec(),
            Key::Ed(k) => k.public_key().as_ref().to_vec(),
            Key::Rsa(k) => k.public_key().as_ref().to_vec(),
        }
    }
    fn spki(&self) -> Vec<u8> {
        let ecpk = [0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1];
        let alg = match self {
            Key::P256(..) => seq(&[oid(&ecpk), oid(&[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7])]),
            Key::P384(..) => seq(&[oid(&ecpk), oid(&[0x2b, 0x81, 4, 0, 0x22])]),
            Key::Ed(_) => seq(&[oid(&[0x2b, 0x65, 0x70])]),
            Key::Rsa(_) => seq(&[oid(&[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1]), vec![5, 0]]),
        };
        seq(&[alg, bits(&self.public())])
    }
    /// The scheme under which this key issues the certificate of this serial.
    fn issues_with(&self, serial: u64) -> u16 {
        match (self, serial % 4) {
            (Key::P256(..), 3) | (Key::P384(..), 0..=2) => 0x0503,
            (Key::P256(..), _) | (Key::P384(..), _) => 0x0403,
            (Key::Ed(_), _) => 0x0807,
            (Key::Rsa(_), _) => [0x0401, 0x0401, 0x0501, 0x0601, 0x0804, 0x0805, 0x0806][(serial % 7) as usize],
        }
    }
    fn sig_alg(&self, scheme: u16) -> Vec<u8> {
        let rsa = |n| seq(&[oid(&[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, n]), vec![5, 0]]);
        match scheme {
            0x0403 => seq(&[oid(&[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2])]),
            0x0503 => seq(&[oid(&[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 3])]),
            0x0807 => seq(&[oid(&[0x2b, 0x65, 0x70])]),
            0x0401 => rsa(11),
            0x0501 => rsa(12),
            0x0601 => rsa(13),
            0x0804 => seq(&[rustls_pki_types::alg_id::RSA_PSS_SHA256.as_ref().to_vec()]),
            0x0805 => seq(&[rustls_pki_types::alg_id::RSA_PSS_SHA384.as_ref().to_vec()]),
            _ => seq(&[rustls_pki_types::alg_id::RSA_PSS_SHA512.as_ref().to_vec()]),
        }
    }
    /// Signs under a TLS scheme this key supports (0: its usual one).
    pub fn sign(&self, m: &[u8], scheme: u16) -> Vec<u8> {
        let r = SystemRandom::new();
        match self {
            Key::P256(_, d) if scheme == 0x0503 => crate::ecdsa::sign_p256_sha384(d, m),
            Key::P384(_, d) if scheme == 0x0403 => crate::ecdsa::sign_p384_sha256(d, m),
            Key::P256(k, _) | Key::P384(k, _) => k.sign(&r, m).unwrap().as_ref().to_vec(),
            Key::Ed(k) => k.sign(m).as_ref().to_vec(),
            Key::Rsa(k) => {
                let alg: &dyn rsig::RsaEncoding = match scheme {
                    0x0401 => &rsig::RSA_PKCS1_SHA256,
                    0x0501 => &rsig::RSA_PKCS1_SHA384,
                    0x0601 => &rsig::RSA_PKCS1_SHA512,
                    0x0804 => &rsig::RSA_PSS_SHA256,
                    0x0805 => &rsig::RSA_PSS_SHA384,
                    _ => &rsig::RSA_PSS_SHA512,
                };
                let mut s = vec![0; k.public().modulus_len()];
                k.sign(alg, &r, m, &mut s).unwrap();
                s
            }
        }
    }
}

// ---- certificates ----
pub struct CertSpec {
    pub subject: String,
    pub issuer: String,
    pub nb: u64,
    pub na: u64,
    pub sans: Vec<String>,
    pub ca: Option<(bool, Option<u64>)>,
    pub eku: Option<Vec<u8>>, // last arcs of id-kp
    pub serial: u64,
    pub extra: usize,
    /// The domains an authority may certify (true), or may not (false).
    pub nc: Option<(bool, Vec<String>)>,
}
pub fn build(c: &CertSpec, subject_key: &Key, issuer_key: &Key) -> Vec<u8> {
    let mut exts = vec![];
    let ext = |o: &[u8], crit: bool, v: Vec<u8>| {
        let mut p = vec![oid(o)];
        if crit { p.push(boolean(true)); }
        p.push(octet(&v));
        seq(&p)
    };
    if let Some((ca, pl)) = c.ca {
        let mut p = vec![];
        if ca { p.push(boolean(true)); }
        if let Some(n) = pl { p.push(uint(n)); }
        exts.push(ext(&[0x55, 0x1d, 0x13], true, seq(&p)));
    }
    if let Some(e) = &c.eku {
        let l: Vec<Vec<u8>> = e.iter().map(|a| oid(&[0x2b, 6, 1, 5, 5, 7, 3, *a])).collect();
        exts.push(ext(&[0x55, 0x1d, 0x25], false, seq(&l)));
    }
    if !c.sans.is_empty() {
        let l: Vec<Vec<u8>> = c.sans.iter().map(|n| tlv(0x82, n.as_bytes())).collect();
        exts.push(ext(&[0x55, 0x1d, 0x11], false, seq(&l)));
    }
    if let Some((permit, l)) = &c.nc {
        let l: Vec<u8> = l.iter().flat_map(|d| seq(&[tlv(0x82, d.as_bytes())])).collect();
        exts.push(ext(&[0x55, 0x1d, 0x1e], true, seq(&[tlv(if *permit { 0xa0 } else { 0xa1 }, &l)])));
    }
    if c.extra > 0 {
        // an unknown non-critical extension, padding the certificate
        exts.push(ext(&[0x2a, 3, 4, 5], false, octet(&vec![0x5a; c.extra])));
    }
    let scheme = issuer_key.issues_with(c.serial);
    let mut tbs = vec![tlv(0xa0, &uint(2)), uint(c.serial), issuer_key.sig_alg(scheme), cn(&c.issuer), seq(&[time(c.nb), time(c.na)]), cn(&c.subject), subject_key.spki()];
    if !exts.is_empty() { tbs.push(tlv(0xa3, &seq(&exts))); }
    let tbs = seq(&tbs);
    let sig = issuer_key.sign(&tbs, scheme);
    seq(&[tbs, issuer_key.sig_alg(scheme), bits(&sig)])
}

/// A certificate as the model sees it.
pub struct MCert {
    pub der: Vec<u8>,
    pub spec: CertSpec,
    pub key: usize,
    pub signer: usize,
}

/// Path search over the model.
pub fn chain_ok(certs: &[MCert], chain_inter: &[usize], leaf: usize, roots: &[usize], t: u64) -> bool {
    /// Whether this authority may certify these names.
    fn may(ca: &MCert, names: &[String]) -> bool {
        let under = |n: &String, d: &String| { let n = n.strip_prefix("*.").unwrap_or(n).to_ascii_lowercase(); n == *d || n.ends_with(&format!(".{d}")) };
        match &ca.spec.nc { None => true, Some((permit, l)) => names.iter().all(|n| l.iter().any(|d| under(n, d)) == *permit) }
    }
    fn node_ok(c: &MCert, t: u64, is_leaf: bool, sub_cas: u64) -> bool {
        let s = &c.spec;
        if t < s.nb || t > s.na || s.nb > s.na { return false; }
        let ca = matches!(s.ca, Some((true, _)));
        if is_leaf == ca { return false; }
        if !is_leaf {
            if let Some((_, Some(pl))) = s.ca { if sub_cas > pl { return false; } }
        }
        if let Some(e) = &s.eku { if !e.contains(&1) { return false; } }
        true
    }
    fn go(certs: &[MCert], inter: &[usize], cur: usize, used: &mut Vec<usize>, roots: &[usize], t: u64, depth: u64, names: &[String]) -> bool {
        let c = &certs[cur];
        // `depth` = number of CA certificates below this one (0 for the leaf's issuer)
        if !node_ok(c, t, used.is_empty(), depth.saturating_sub(1)) { return false; }
        if !used.is_empty() && !may(c, names) { return false; }
        if roots.iter().any(|a| certs[*a].spec.subject == c.spec.issuer && certs[*a].key == c.signer && may(&certs[*a], names)) { return true; }
        if used.len() > 6 { return false; }
        for &i in inter {
            let p = &certs[i];
            if p.spec.subject != c.spec.issuer || p.key != c.signer { continue; }
            if i == cur || used.iter().any(|u| certs[*u].spec.subject == p.spec.subject && certs[*u].key == p.key) || (p.spec.subject == c.spec.subject && p.key == c.key) { continue; }
            used.push(cur);
            let ok = go(certs, inter, i, used, roots, t, depth + 1, names);
            used.pop();
            if ok { return true; }
        }
        false
    }
    go(certs, chain_inter, leaf, &mut vec![], roots, t, 0, &certs[leaf].spec.sans)
}

pub fn name_matches(sans: &[String], name: &str) -> bool {
    let n = name.trim_end_matches('.').to_ascii_lowercase();
    sans.iter().any(|s| {
        let s = s.to_ascii_lowercase();
        if let Some(suffix) = s.strip_prefix("*.") {
            match n.split_once('.') { Some((l, rest)) => !l.is_empty() && rest == suffix, None => false }
        } else { s == n }
    })
}

pub const HOSTS: &[&str] = &["server.test", "api.server.test", "a.b.server.test", "other.example", "xn--nxasmq6b.example", "bank.example"];
/// A name of any shape and length a server may have.
fn host_name(sim: &Sim) -> String {
    if sim.chance(4, 5) { return HOSTS[sim.index(HOSTS.len())].into(); }
    sim.probe("generated_name");
    let room = [30, 63, 64, 65, 127, 128, 200, 252, 253, 10 + sim.pick(243)][sim.index(10)] as usize;
    let label = |n: usize| -> String { (0..n).map(|i| if i == 0 || i + 1 == n { b"abcxyz"[sim.index(6)] } else { b"abz019-"[sim.index(7)] } as char).collect() };
    let mut name = ["test", "example", "io"][sim.index(3)].to_string();
    loop {
        let left = room.saturating_sub(name.len() + 1).min(63);
        if left == 0 { break }
        let n = if sim.chance(1, 2) { left } else { 1 + sim.index(left.min(12)) };
        let l = if n >= 3 && sim.chance(1, 4) { "www".into() } else { label(n) };
        name = format!("{l}.{name}");
        if room < 60 && sim.chance(1, 3) { break }
    }
    name
}
/// The library's form of a name, which keeps all of it.
pub fn named(name: &str) -> Result<ServerName, Violation> {
    let n = ServerName::try_from(name).map_err(|_| Violation::new("server-name", format!("the name {name} was refused")))?;
    let sni = n.for_sni().map(|d| AsRef::<str>::as_ref(&d).to_string());
    ensure!(sni.as_deref() == Some(name), "server-name", "{name} is indicated to the server as {sni:?}");
    ensure!(n.encode() == [&[1, name.len() as u8], name.as_bytes()].concat(), "server-name", "{name} is encoded as {:?}", n.encode());
    let pki = n.clone().into_pki_server_name();
    ensure!(pki.to_str() == name, "server-name", "{name} is verified as {pki:?}");
    Ok(n)
}
pub const SCHEMES: &[u16] = &[0x0403, 0x0503, 0x0807, 0x0804, 0x0805, 0x0806, 0x0401, 0x0501, 0x0601, 0x0603, 0x0203, 0x0201, 0x0808, 0x1234];

pub fn native(kt: Kt, sim: &Sim) -> u16 {
    match kt {
        // TLS 1.2 does not tie the curve to the hash
        Kt::P256 => [0x0403, 0x0503][sim.weighted(&[15, 1])],
        Kt::P384 => [0x0503, 0x0403][sim.weighted(&[7, 1])],
        Kt::Ed => 0x0807,
        Kt::Rsa => [0x0804, 0x0401, 0x0805, 0x0806, 0x0501, 0x0601][sim.index(6)],
    }
}
pub fn kt(sim: &Sim) -> Kt { [Kt::P256, Kt::Ed, Kt::P256, Kt::P384, Kt::Rsa][sim.index(5)] }
fn ca_kt(sim: &Sim) -> Kt { [Kt::P256, Kt::Ed, Kt::P384][sim.weighted(&[4, 3, 1])] }

fn sct(sim: &Sim, log: Option<&Key>, id: [u8; 32], ts: u64, cert: &[u8], f: &mut SctTruth) -> Vec<u8> {
    let exts = if sim.chance(1, 4) { let n = sim.range(1, 9) as usize; sim.bytes(n) } else { vec![] };
    let mut data = vec![0, 0];
    data.extend(ts.to_be_bytes());
    data.extend([0, 0]);
    data.extend(&(cert.len() as u32).to_be_bytes()[1..]);
    data.extend(cert);
    data.extend((exts.len() as u16).to_be_bytes());
    data.extend(&exts);
    let mut sig = match log { Some(k) => k.sign(&data, 0), None => { let n = 64; sim.bytes(n) } };
    if log.is_some() && sim.chance(1, 6) {
        sim.fault("sct_signature_corrupted");
        let i = sim.index(sig.len());
        sig[i] ^= 1 << sim.index(8);
        *f = SctTruth::BadSig;
    }
    let mut v = vec![0];
    if sim.chance(1, 10) { v[0] = sim.range(1, 255) as u8; sim.fault("sct_unknown_version"); *f = SctTruth::Version; }
    v.extend(id);
    v.extend(ts.to_be_bytes());
    v.extend((exts.len() as u16).to_be_bytes());
    v.extend(&exts);
    v.extend([4, 3]);
    v.extend((sig.len() as u16).to_be_bytes());
    v.extend(sig);
    if v[0] == 0 && sim.chance(1, 10) {
        sim.fault("sct_truncated");
        let n = sim.index(v.len() - 1) + 1;
        v.truncate(n);
        *f = SctTruth::Malformed;
    }
    v
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum SctTruth { Good, BadSig, Version, Malformed, Unknown, Future }

/// The presented handshake.
pub struct Presented {
    pub chain: Vec<Vec<u8>>,
    pub kx_params: Vec<u8>,
    pub scheme: u16,
    pub sig: Vec<u8>,
    pub cr: [u8; 32],
    pub sr: [u8; 32],
    pub scts: Option<Vec<Vec<u8>>>,
    pub ocsp: Vec<u8>,
}
impl Presented {
    /// Through the wire encodings the client would have received.
    pub fn decode(&self) -> Result<HandshakeData, simkit::Violation> {
        let u24 = |b: &[u8]| { let mut v = (b.len() as u32).to_be_bytes()[1..].to_vec(); v.extend_from_slice(b); v };
        let list: Vec<u8> = self.chain.iter().flat_map(|c| u24(c)).collect();
        let wire = u24(&list);
        let bad = |w: &str| simkit::Violation::new("decode", format!("well-formed {w} failed to decode"));
        let chain = CertificatePayload::read(&mut Reader::init(&wire)).ok_or_else(|| bad("certificate list"))?;
        let mut w = self.scheme.to_be_bytes().to_vec();
        w.extend((self.sig.len() as u16).to_be_bytes());
        w.extend(&self.sig);
        let dss = DigitallySignedStruct::read(&mut Reader::init(&w)).ok_or_else(|| bad("signature"))?;
        let scts = match &self.scts {
            None => None,
            Some(l) => {
                let b: Vec<u8> = l.iter().flat_map(|s| { let mut v = (s.len() as u16).to_be_bytes().to_vec(); v.extend(s); v }).collect();
                let mut w = (b.len() as u16).to_be_bytes().to_vec();
                w.extend(b);
                Some(SCTList::read(&mut Reader::init(&w)).ok_or_else(|| bad("SCT list"))?)
            }
        };
        let cr = Random::read(&mut Reader::init(&self.cr)).ok_or_else(|| bad("random"))?;
        let sr = Random::read(&mut Reader::init(&self.sr)).ok_or_else(|| bad("random"))?;
        Ok(HandshakeData::new(ServerCertDetails::new(chain, self.ocsp.clone(), scts), ServerKxDetails::new(self.kx_params.clone(), dss), cr, sr))
    }
}
pub fn anchor(der: &[u8]) -> rustls_pki_types::TrustAnchor<'static> {
    let c = rustls_pki_types::CertificateDer::from(der.to_vec());
    webpki::anchor_from_trusted_cert(&c).unwrap().to_owned()
}

pub const DAY: u64 = 86400;

/// A benign PKI: root, `n` intermediates, leaf.
pub struct World {
    pub keys: Vec<Key>,
    pub certs: Vec<MCert>, // 0 = root (as a self-signed cert), then intermediates, then leaf
    pub leaf: usize,
    pub host: String,
    pub leaf_pkcs8: Vec<u8>,
}
impl World {
    /// As a server sends it: leaf first.
    pub fn chain(&self) -> Vec<Vec<u8>> { (1..=self.leaf).rev().map(|i| self.certs[i].der.clone()).collect() }
    pub fn leaf_key(&self) -> &Key { &self.keys[self.certs[self.leaf].key] }
    pub fn root_der(&self) -> Vec<u8> { self.certs[0].der.clone() }
    pub fn leaf_der(&self) -> Vec<u8> { self.certs[self.leaf].der.clone() }
}
fn world(sim: &Sim, now: u64) -> World { build_world(sim, now) }
pub fn build_world(sim: &Sim, now: u64) -> World {
    // Verification follows at most six intermediates.
    let depth = sim.weighted(&[40, 80, 60, 5, 3, 2, 2]);
    if depth > 3 { sim.probe("long_chain"); }
    // One RSA authority at most: there is one RSA key.
    let rsa_ca = sim.weighted(&[12, 1, 1]);
    let since_epoch = sim.chance(1, 12);
    let host = host_name(sim);
    let mut sans = vec![];
    for _ in 0..if sim.chance(1, 30) { sim.probe("many_names"); sim.range(20, 200) } else { sim.pick(3) } { sans.push(HOSTS[sim.index(HOSTS.len())].to_string()); }
    let wild = host.splitn(2, '.').nth(1).filter(|r| r.contains('.')).map(|r| format!("*.{r}"));
    let want = match wild { Some(w) if sim.chance(1, 3) => { sim.probe("wildcard_san"); w } _ => host.clone() };
    let p = sim.index(sans.len() + 1);
    sans.insert(p, want);
    let mut keys = vec![];
    let mut certs: Vec<MCert> = vec![];
    let mut names = vec!["Root".to_string()];
    for i in 0..depth { names.push(format!("Sub{i}")); }
    for (i, n) in names.iter().enumerate() {
        keys.push(Key::gen(if i + 1 == rsa_ca { sim.probe("rsa_authority"); Kt::Rsa } else { ca_kt(sim) }));
        let signer = i.saturating_sub(1);
        let spec = CertSpec {
            subject: n.clone(),
            issuer: names[signer].clone(),
            nb: if since_epoch { 0 } else { now.saturating_sub(sim.range(1, 1000) * DAY) },
            na: now + sim.range(1, 3000) * DAY,
            sans: vec![],
            ca: Some((true, if i > 0 && sim.chance(1, 3) { Some((depth - i) as u64 + sim.pick(2)) } else { None })),
            eku: if i > 0 && sim.chance(1, 4) { Some([vec![1], vec![1, 2], vec![2, 1]][sim.index(3)].clone()) } else { None },
            serial: 1 + sim.pick(1 << 32),
            extra: if sim.chance(1, 20) { sim.probe("bulky_authority_certificate"); sim.size(4500) as usize } else { 0 },
            nc: if !sim.chance(1, 6) { None } else {
                sim.probe("authority_bound_to_names");
                // the zones of all the names, or any zone none of them is in
                let mut zones: Vec<String> = sans.iter().map(|n| { let n = n.trim_start_matches("*."); if sim.chance(1, 2) { n.rsplit('.').next().unwrap().to_string() } else { n.splitn(n.split('.').count() - 1, '.').last().unwrap().to_string() } }).collect();
                let permit = sim.chance(1, 2);
                if !permit { zones = vec!["unrelated.zone".into(), "st".into()]; } else if sim.chance(1, 3) { zones.push("unrelated.zone".into()); }
                Some((permit, zones))
            },
        };
        let der = build(&spec, &keys[i], &keys[signer]);
        certs.push(MCert { der, spec, key: i, signer });
    }
    let leaf = certs.len();
    let (k, leaf_pkcs8) = Key::gen_pkcs8(kt(sim));
    keys.push(k);
    let spec = CertSpec {
        subject: host.clone(),
        issuer: names[leaf - 1].clone(),
        nb: if since_epoch { 0 } else { now.saturating_sub(sim.range(0, 300) * DAY) },
        na: now + sim.range(1, 300) * DAY,
        sans,
        ca: [None, Some((false, None))][sim.index(2)],
        eku: [None, Some(vec![1]), Some(vec![1, 2]), Some(vec![2, 1])][sim.index(4)].clone(),
        serial: 1 + sim.pick(1 << 32),
        extra: if sim.chance(1, 6) { sim.size(if sim.chance(1, 6) { 20_000 } else { 3000 }) as usize } else { 0 },
        nc: None,
    };
    let der = build(&spec, &keys[leaf], &keys[leaf - 1]);
    certs.push(MCert { der, spec, key: leaf, signer: leaf - 1 });
    World { keys, certs, leaf, host, leaf_pkcs8 }
}

fn kx(sim: &Sim) -> Vec<u8> {
    // named_curve, group, point
    let (g, n) = [(23u16, 65usize), (29, 32), (24, 97)][sim.index(3)];
    let mut v = vec![3];
    v.extend(g.to_be_bytes());
    v.push(n as u8);
    v.extend(sim.bytes(n));
    v
}
pub fn arr32(sim: &Sim) -> [u8; 32] { sim.bytes(32).try_into().unwrap() }
/// The random of a hello, sometimes one that carries a meaning.
pub fn hello_random(sim: &Sim) -> [u8; 32] {
    let mut r = arr32(sim);
    match sim.weighted(&[16, 2, 1, 1]) {
        0 => {}
        // a server that could have spoken TLS 1.3 (or 1.1) says so in its random
        1 => { r[24..].copy_from_slice(b"DOWNGRD\x01"); r[31] = sim.pick(2) as u8; sim.probe("random_with_downgrade_marker"); }
        2 => r = [[0; 32], [0xff; 32]][sim.index(2)],
        _ => { r[..4].copy_from_slice(&1_750_000_000u32.to_be_bytes()); }
    }
    r
}
pub fn signed_msg(cr: &[u8], sr: &[u8], p: &[u8]) -> Vec<u8> { [cr, sr, p].concat() }

/// Exact acceptance: the real verdict equals the model's verdict.
/// A handshake as presented to a verifier, after faults.
pub struct Faulted {
    pub keys: Vec<Key>,
    pub certs: Vec<MCert>,
    pub leaf: usize,
    pub inter: Vec<usize>,
    pub anchors: Vec<usize>,
    pub name: String,
    pub now0: u64,
    pub now_s: u64,
    pub now_frac: u64,
    pub cr: [u8; 32],
    pub sr: [u8; 32],
    pub params: Vec<u8>,
    pub scheme: u16,
    pub sig: Vec<u8>,
    /// What was signed, and the signature over it.
    pub genuine: (Vec<u8>, Vec<u8>),
    /// The signer is the leaf's key and the scheme is the one used.
    pub key_ok: bool,
    /// The signer is the leaf's key; what it signed with.
    pub signer_ok: bool,
    pub signed_scheme: u16,
    pub sign_tamper: u64,
}
/// `core`: the key share is a P-256 point and stays well-framed.
pub fn faulted(sim: &Sim, core: bool) -> Faulted {
    let now0: u64 = [1_750_000_000, 1_400_000_000, 2_524_607_990, 4_102_444_800, 4_294_967_000, 7_000_000_000][sim.weighted(&[4, 4, 4, 4, 1, 1])] + sim.pick(86400);
    let w = world(sim, now0);
    let World { mut keys, mut certs, leaf, host, .. } = w;
    // What the server presents: root cert is normally not sent.
    let mut inter: Vec<usize> = (1..leaf).rev().collect();
    let mut leaf = leaf;
    let mut name = host.clone();
    let mut anchors: Vec<usize> = vec![0];
    let n_faults = sim.weighted(&[4, 5, 2, 1]);
    let mut now_s = now0;
    let mut now_frac = sim.pick(1_000_000_000);
    let (mut cr, mut sr, mut params) = (hello_random(sim), hello_random(sim), if core { let mut v = vec![3, 0, 23, 65]; v.extend(sim.bytes(65)); v } else { kx(sim) });
    let leaf_kt = keys[certs[leaf].key].kt();
    let mut scheme = native(leaf_kt, sim);
    let (scheme0, mut signed_scheme) = (scheme, scheme);
    let mut signer = certs[leaf].key;
    let mut sign_tamper = 0u64;
    let mut rebuilt = false;
    for _ in 0..n_faults {
        match sim.pick(17) {
            // --- clocks ---
            0 | 1 => {
                // clock skew to (near) a validity boundary of some certificate
                let c = &certs[sim.index(certs.len())].spec;
                let b = [c.nb, c.na][sim.index(2)];
                now_s = b.saturating_add([1, 0, 2][sim.index(3)]).saturating_sub(1);
                now_frac = [0, 999_999_999, now_frac][sim.index(3)];
                sim.fault("clock_skew_to_validity_boundary");
            }
            2 => {
                let d = sim.range(1, 4000) * DAY;
                now_s = if sim.chance(1, 2) { now_s + d } else { now_s.saturating_sub(d) };
                sim.fault("clock_jump");
            }
            3 => { now_s = sim.pick(100); sim.fault("clock_reset_to_epoch"); }
            // --- chain ---
            4 => { if !inter.is_empty() { let i = sim.index(inter.len()); inter.remove(i); sim.fault("intermediate_lost"); } }
            5 => { if inter.len() > 1 { inter.reverse(); sim.fault("intermediates_reordered"); } }
            6 => { if !inter.is_empty() { let d = inter[sim.index(inter.len())]; inter.push(d); sim.fault("intermediate_duplicated"); } }
            7 => { inter.push(0); sim.fault("root_included"); }
            8 => {
                // attacker CA with the same name as the genuine issuer
                let (k, s) = (keys.len(), certs[leaf].spec.issuer.clone());
                keys.push(Key::gen(Kt::P256));
                let spec = CertSpec { subject: s.clone(), issuer: s, nb: now0 - DAY, na: now0 + DAY, sans: vec![], ca: Some((true, None)), eku: None, serial: 7, extra: 0, nc: None };
                let der = build(&spec, &keys[k], &keys[k]);
                certs.push(MCert { der, spec, key: k, signer: k });
                let at = sim.index(inter.len() + 1);
                inter.insert(at, certs.len() - 1);
                sim.fault("impostor_ca_presented");
                if sim.chance(1, 2) && !rebuilt {
                    // and the leaf is signed by it
                    let ls = &certs[leaf];
                    let spec = CertSpec { subject: ls.spec.subject.clone(), issuer: ls.spec.issuer.clone(), nb: ls.spec.nb, na: ls.spec.na, sans: ls.spec.sans.clone(), ca: ls.spec.ca, eku: ls.spec.eku.clone(), serial: 9, extra: 0, nc: None };
                    let lk = ls.key;
                    let der = build(&spec, &keys[lk], &keys[k]);
                    certs.push(MCert { der, spec, key: lk, signer: k });
                    leaf = certs.len() - 1;
                    rebuilt = true;
                    sim.fault("leaf_signed_by_impostor");
                }
            }
            9 => {
                // re-issue some certificate with a defect (signed by the genuine issuer)
                if rebuilt { continue; }
                let pos = 1 + sim.index(leaf.min(certs.len() - 1));
                let pos = if sim.chance(1, 5) { 0 } else { pos };
                let is_leaf = pos == leaf;
                let c = &certs[pos];
                let mut spec = CertSpec { subject: c.spec.subject.clone(), issuer: c.spec.issuer.clone(), nb: c.spec.nb, na: c.spec.na, sans: c.spec.sans.clone(), ca: c.spec.ca, eku: c.spec.eku.clone(), serial: 11, extra: 0, nc: None };
                match if pos == 0 { 4 } else { sim.pick(if is_leaf { 4 } else { 5 }) } {
                    4 => {
                        let n = &certs[leaf].spec.sans;
                        let zone = if n.is_empty() { "test".into() } else { n[sim.index(n.len())].rsplit('.').next().unwrap().to_string() };
                        spec.nc = Some(if sim.chance(1, 2) { (true, vec!["unrelated.zone".into()]) } else { (false, vec!["unrelated.zone".into(), zone]) });
                        sim.fault("names_forbidden_to_authority");
                    }
                    0 => { spec.eku = Some([vec![2], vec![3, 4], vec![9]][sim.index(3)].clone()); sim.fault("eku_without_server_auth"); }
                    1 if is_leaf => { spec.ca = Some((true, None)); sim.fault("ca_certificate_as_leaf"); }
                    1 => { spec.ca = [None, Some((false, None))][sim.index(2)]; sim.fault("non_ca_certificate_as_issuer"); }
                    2 if !is_leaf => { spec.ca = Some((true, Some(0))); sim.fault("path_len_zero"); }
                    2 => { spec.sans = vec![]; sim.fault("leaf_without_names"); }
                    _ => { spec.na = spec.nb.saturating_sub(1); sim.fault("inverted_validity"); }
                }
                let (k, s) = (certs[pos].key, certs[pos].signer);
                let der = build(&spec, &keys[k], &keys[s]);
                certs[pos] = MCert { der, spec, key: k, signer: s };
            }
            10 => { anchors.clear(); sim.fault("trust_store_without_root"); if sim.chance(1, 2) {
                let k = keys.len();
                keys.push(Key::gen(Kt::P256));
                let same = sim.chance(1, 2);
                let n = if same { "Root" } else { "OtherRoot" };
                let spec = CertSpec { subject: n.into(), issuer: n.into(), nb: 0, na: now0 + DAY, sans: vec![], ca: Some((true, None)), eku: None, serial: 3, extra: 0, nc: None };
                let der = build(&spec, &keys[k], &keys[k]);
                certs.push(MCert { der, spec, key: k, signer: k });
                anchors.push(certs.len() - 1);
            } }
            // --- name ---
            11 => { name = HOSTS[sim.index(HOSTS.len())].into(); sim.fault("different_server_name_asked"); }
            12 => { name = name.to_ascii_uppercase(); sim.probe("name_case_differs"); if sim.chance(1, 2) && !name.ends_with('.') && name.len() < 253 { name.push('.'); sim.probe("absolute_name"); } }
            // --- handshake signature ---
            13 => { signer = keys.len(); let k = kt(sim); keys.push(Key::gen(k)); signed_scheme = if k == leaf_kt { scheme0 } else { native(k, sim) }; sim.fault("signed_by_another_key"); }
            14 => {
                let s2 = SCHEMES[sim.index(SCHEMES.len())];
                if s2 != scheme { scheme = s2; sim.fault("scheme_mislabelled"); }
            }
            _ => { sign_tamper = 1 + sim.pick(6); }
        }
    }
    if sim.chance(1, 8) {
        // A trust store holds other authorities too, some of the same name.
        sim.probe("other_anchors");
        let k = keys.len();
        keys.push(Key::gen(Kt::Ed));
        for i in 0..if sim.chance(1, 8) { sim.range(40, 200) } else { sim.range(1, 6) } {
            // (few enough of the same name for the verifier's own limit on the
            // signatures it is willing to check)
            let n = match if i < 5 { sim.pick(4) } else { 9 } { 0 => "Root".to_string(), 1 => certs[leaf].spec.issuer.clone(), _ => format!("Anchor{i}") };
            let spec = CertSpec { subject: n.clone(), issuer: n, nb: 0, na: now0 + DAY, sans: vec![], ca: Some((true, None)), eku: None, serial: 1 + i, extra: 0, nc: None };
            let der = build(&spec, &keys[k], &keys[k]);
            certs.push(MCert { der, spec, key: k, signer: k });
            let at = sim.index(anchors.len() + 1);
            anchors.insert(at, certs.len() - 1);
        }
    }
    if sim.chance(1, 10) {
        // Certificates that have nothing to do with the chain, in any order.
        for i in 0..sim.range(1, 8) {
            let (k, n) = (keys.len(), format!("Unrelated{i}"));
            keys.push(Key::gen(Kt::Ed));
            let spec = CertSpec { subject: n.clone(), issuer: n, nb: 0, na: now0 + DAY, sans: vec![], ca: [None, Some((true, None))][sim.index(2)], eku: None, serial: 5, extra: 0, nc: None };
            let der = build(&spec, &keys[k], &keys[k]);
            certs.push(MCert { der, spec, key: k, signer: k });
            let at = sim.index(inter.len() + 1);
            inter.insert(at, certs.len() - 1);
        }
        sim.fault("unrelated_certificates_presented");
    }
    if inter.len() > 2 && sim.chance(1, 4) {
        for i in (1..inter.len()).rev() { let j = sim.index(i + 1); inter.swap(i, j); }
        sim.fault("intermediates_shuffled");
    }
    // The server signs, then the network / a peer substitutes parts.
    let both_rsa = keys[signer].kt() == Kt::Rsa && leaf_kt == Kt::Rsa; // one fixed RSA key
    let signer_ok = signer == certs[leaf].key || both_rsa;
    let key_ok = signer_ok && signed_scheme == scheme;
    let mut sig = keys[signer].sign(&signed_msg(&cr, &sr, &params), signed_scheme);
    let genuine = (signed_msg(&cr, &sr, &params), sig.clone());
    match sign_tamper {
        0 => {}
        1 => { let i = sim.index(32); cr[i] ^= 1 << sim.index(8); sim.fault("client_random_replaced"); }
        2 => { let i = sim.index(32); sr[i] ^= 1 << sim.index(8); sim.fault("server_random_replaced"); }
        3 => { let i = if core { 4 + sim.index(params.len() - 4) } else { sim.index(params.len()) }; params[i] ^= 1 << sim.index(8); sim.fault("key_share_altered"); }
        4 => { if cr != sr { std::mem::swap(&mut cr, &mut sr); sim.fault("randoms_swapped"); } }
        5 => { let i = sim.index(sig.len()); sig[i] ^= 1 << sim.index(8); sim.fault("signature_altered"); }
        _ => {
            if core { if sim.chance(1, 2) { params.push(0) } else { params.pop(); } params[3] = (params.len() - 4) as u8; }
            else { match sim.pick(3) { 0 => { params.push(0) } 1 => { params.pop(); } _ => { let b = params.remove(0); sr[31] = sr[31].wrapping_add(0); let _ = b; } } }
            sim.fault("key_share_resized");
        }
    }
    Faulted { keys, certs, leaf, inter, anchors, name, now0, now_s, now_frac, cr, sr, params, scheme, sig, genuine, key_ok, signer_ok, signed_scheme, sign_tamper }
}

pub fn r06_exact(sim: &Sim) -> RunResult {
    let Faulted { keys: _, certs, leaf, inter, anchors, mut name, now0, mut now_s, now_frac, cr, sr, params, scheme, sig, genuine, key_ok, sign_tamper, .. } = faulted(sim, false);
    // Certificate transparency
    let now = Duration::new(now_s, now_frac as u32);
    let leaf_der = certs[leaf].der.clone();
    let mut policy = None;
    let mut ct: Option<(usize, Duration, Vec<(SctTruth, u64)>)> = None;
    let mut scts = None;
    if sim.chance(2, 5) {
        sim.probe("ct_policy");
        let nlogs = if sim.chance(1, 10) { sim.range(3, 30) } else { sim.pick(3) } as usize;
        let logs: Vec<(Key, [u8; 32])> = (0..nlogs).map(|i| { let mut id = arr32(sim); id[0] = i as u8; (Key::gen(Kt::P256), id) }).collect();
        let refs: Vec<&'static sct::Log<'static>> = logs
            .iter()
            .map(|(k, id)| &*Box::leak(Box::new(sct::Log { description: "", url: "", operated_by: "", key: Box::leak(k.public().into_boxed_slice()), id: *id, max_merge_delay: 0 })))
            .collect();
        let deadline = match sim.pick(4) {
            0 => now + Duration::from_secs(sim.range(1, 1000) * DAY),
            1 => { sim.fault("ct_policy_deadline_boundary"); now }
            2 => { sim.fault("ct_policy_expired"); now.saturating_sub(Duration::new(0, 1)) }
            _ => { sim.fault("ct_policy_expired"); now.saturating_sub(Duration::from_secs(DAY)) }
        };
        policy = Some(CertificateTransparencyPolicy::new(Box::leak(refs.into_boxed_slice()), SystemTime::UNIX_EPOCH + deadline));
        let mut list = vec![];
        let mut truths = vec![];
        if sim.chance(4, 5) {
            for _ in 0..if sim.chance(1, 10) { sim.range(4, 20) } else { sim.pick(4) } {
                let mut t = SctTruth::Good;
                let now_ms = now_s * 1000;
                let ts = match sim.pick(5) {
                    0 => { now_ms }
                    1 => { sim.fault("sct_from_the_future"); now_ms + 1 + sim.size(100_000_000) }
                    _ => now_ms.saturating_sub(sim.size(10_000_000_000)),
                };
                let known = !logs.is_empty() && !sim.chance(1, 5);
                let v = if known {
                    let l = &logs[sim.index(logs.len())];
                    let mut wrong = leaf_der.clone();
                    let other = sim.chance(1, 8);
                    if other { wrong.push(0); sim.fault("sct_for_another_certificate"); t = SctTruth::BadSig; }
                    sct(sim, Some(&l.0), l.1, ts, if other { &wrong } else { &leaf_der }, &mut t)
                } else {
                    sim.fault("sct_from_unknown_log");
                    t = SctTruth::Unknown;
                    let mut id = arr32(sim);
                    id[0] = 0xff;
                    let mut u = SctTruth::Good;
                    let v = sct(sim, None, id, ts, &leaf_der, &mut u);
                    if u != SctTruth::Good { t = u; }
                    v
                };
                list.push(v);
                truths.push((t, ts));
            }
            if !list.is_empty() { scts = Some(list); }
        }
        ev!(sim, "ct: {truths:?} deadline-now={:?} nlogs={nlogs}", deadline.checked_sub(now));
        ct = Some((nlogs, deadline, truths));
    }

    let mut p = Presented {
        chain: std::iter::once(leaf).chain(inter.iter().copied()).map(|i| certs[i].der.clone()).collect(),
        kx_params: params, scheme, sig, cr, sr, scts,
        ocsp: if sim.chance(1, 4) { sim.bytes(5) } else { vec![] },
    };
    let roots = RootCertStore { roots: anchors.iter().map(|a| anchor(&certs[*a].der)).collect() };
    let subjects: Vec<Vec<u8>> = roots.subjects().into_iter().map(|n| n.0).collect();
    ensure!(roots.len() == anchors.len() && roots.is_empty() == anchors.is_empty() && subjects == anchors.iter().map(|a| cn(&certs[*a].spec.subject)).collect::<Vec<_>>(), "anchors", "a store of {} anchors names {} of them, or others", anchors.len(), subjects.len());
    let many: Vec<usize> = (0..sim.size(40)).map(|_| sim.index(certs.len())).collect();
    let store = RootCertStore { roots: many.iter().map(|a| anchor(&certs[*a].der)).collect() };
    ensure!(store.len() == many.len() && store.subjects().into_iter().map(|n| n.0).eq(many.iter().map(|a| cn(&certs[*a].spec.subject))), "anchors", "a store of {} anchors names others", many.len());
    let verifier = WebPkiVerifier::new(roots, policy);
    seam::set_epoch_s(0);
    seam::set_skew_ns(0);
    // A verifier is used more than once: what it concluded earlier must not
    // leak into later verdicts.
    let rounds = 1 + sim.weighted(&[5, 2, 1]);
    for round in 0..rounds {
        if round > 0 {
            match sim.pick(5) {
                0 => {}
                1 => { name = HOSTS[sim.index(HOSTS.len())].into(); sim.fault("reverify_other_name"); }
                2 => {
                    let c = &certs[sim.index(certs.len())].spec;
                    now_s = [c.nb, c.na][sim.index(2)].saturating_add([1, 0, 2][sim.index(3)]).saturating_sub(1);
                    sim.fault("clock_moved_between_verifications");
                }
                3 => { let i = sim.index(32); p.cr[i] ^= 1 << sim.index(8); sim.fault("reverify_other_random"); }
                _ => { let i = sim.index(p.sig.len()); p.sig[i] ^= 1 << sim.index(8); sim.fault("reverify_other_signature"); }
            }
        }
        let now = Duration::new(now_s, now_frac as u32);
        let sig_ok = key_ok && genuine == (signed_msg(&p.cr, &p.sr, &p.kx_params), p.sig.clone());
        let mut ct_ok = true;
        if let Some((nlogs, deadline, truths)) = &ct {
            if *nlogs > 0 && now <= *deadline && !truths.is_empty() {
                ct_ok = false;
                // The clock may be read with a resolution of one second.
                if truths.iter().any(|(_, ts)| *ts > now_s * 1000 && *ts < now_s * 1000 + 1000) { break; }
                for (t, ts) in truths {
                    let t = if *t == SctTruth::Good && *ts > now_s * 1000 { SctTruth::Future } else { *t };
                    match t {
                        SctTruth::Good => { ct_ok = true; break; }
                        SctTruth::Unknown | SctTruth::Version => {}
                        _ => break,
                    }
                }
            }
        }
        let c_ok = chain_ok(&certs, &inter, leaf, &anchors, now_s);
        let n_ok = name_matches(&certs[leaf].spec.sans, &name);
        let expect = c_ok && n_ok && sig_ok && ct_ok;
        let hd = p.decode()?;
        // The verifying node's clock.
        seam::set_now_ns(now_s * 1_000_000_000 + now_frac);
        sim.add_sim_ns(now_s.abs_diff(now0).saturating_mul(1_000_000_000).min(1 << 60));
        let t = SystemTime::now();
        let sn = named(&name)?;
        let got = hd.verify(&verifier, t, &sn);
        sim.step();
        ev!(sim, "verification {round}: now={now_s}.{now_frac:09} name={name} chain={c_ok} name_ok={n_ok} sig={sig_ok} ct={ct_ok} -> {got:?}");
        sim.probe(if expect { "expect_accept" } else { "expect_reject" });
        for (ok, pr) in [(c_ok, "only_chain_bad"), (n_ok, "only_name_bad"), (sig_ok, "only_signature_bad"), (ct_ok, "only_ct_bad")] {
            if !ok && [c_ok, n_ok, sig_ok, ct_ok].iter().filter(|x| !**x).count() == 1 { sim.probe(pr); }
        }
        sim.state(((c_ok as u64) << 3) | ((n_ok as u64) << 2) | ((sig_ok as u64) << 1) | ct_ok as u64 | ((inter.len() as u64) << 8) | ((scheme as u64) << 16) | ((sign_tamper) << 40) | ((round as u64) << 48));
        sim.observe_bytes(&p.sig);
        sim.observe_bytes(&p.chain.concat());
        sim.observe_bytes(format!("{got:?}").as_bytes());
        sim.fp(simkit::rng::hash_bytes(3, format!("{now_s}{name}{scheme}{sign_tamper}{}{}", inter.len(), certs.len()).as_bytes()));
        match (&got, expect) {
            (Ok(()), false) => violate!("accepted-invalid", "verification accepted at t={now_s}.{now_frac:09} for {name}, but chain valid={c_ok} name valid={n_ok} signature valid={sig_ok} ct valid={ct_ok}"),
            (Err(e), true) => violate!("rejected-valid", "verification rejected a valid handshake at t={now_s} for {name}: {e:?}"),
            _ => {}
        }
        if round == 0 && sim.chance(1, 20) {
            // A server that presents no certificate at all.
            sim.fault("no_certificate_presented");
            let chain = std::mem::take(&mut p.chain);
            let bare = p.decode()?;
            p.chain = chain;
            ensure!(bare.verify(&verifier, t, &sn).is_err(), "accepted-invalid", "verification accepted a handshake without a certificate");
        }
        let tls12 = verifier.verify_tls12_signature(&signed_msg(&p.cr, &p.sr, &p.kx_params), &hd.server_cert_details().cert_chain()[0], hd.server_kx_details().kx_sig());
        ensure!(tls12.is_ok() == sig_ok, "tls12-signature", "the handshake signature check said {} but the signature is valid={sig_ok}", tls12.is_ok());
    }
    if sim.chance(1, 4) {
        // A clock that was never set, or set back before 1970.
        sim.fault("clock_before_1970");
        let d = match sim.pick(3) { 0 => Duration::from_nanos(1), 1 => Duration::from_millis(1 + sim.pick(2000)), _ => Duration::from_secs(sim.range(1, 20000) * DAY) };
        let r = p.decode()?.verify(&verifier, SystemTime::UNIX_EPOCH - d, &named(&name)?);
        ensure!(r.is_err(), "accepted-invalid", "verification accepted {d:?} before 1970, when no certificate is valid");
    }
    sim.stat_nontrivial();
    Ok(())
}

/// Everything observable of a handshake, read through its accessors.
fn parts(h: &HandshakeData) -> Vec<Vec<u8>> {
    let c = h.server_cert_details();
    let mut v: Vec<Vec<u8>> = vec![h.client_random().0.to_vec(), h.server_random().0.to_vec(), h.server_kx_details().kx_params().to_vec(), h.server_kx_details().kx_sig().get_encoding(), c.ocsp_response().to_vec(), vec![c.scts().is_some() as u8]];
    v.extend(c.scts().into_iter().flatten().map(|s| s.0.clone()));
    v.push(vec![]);
    v.extend(c.cert_chain().iter().map(|c| c.0.clone()));
    v
}

/// A valid handshake record is written to storage or relayed, and comes back
/// torn, corrupted or spliced with another session's: whatever verifies has
/// the genuine certificate, randoms and key share.
pub fn r07_stored(sim: &Sim) -> RunResult {
    let now0 = 1_750_000_000 + sim.pick(86400);
    let w = world(sim, now0);
    seam::set_epoch_s(0);
    seam::set_now_ns(now0 * 1_000_000_000);
    let mk = |sim: &Sim, w: &World| {
        let (cr, sr, params) = (hello_random(sim), hello_random(sim), kx(sim));
        let k = &w.keys[w.certs[w.leaf].key];
        let scheme = native(k.kt(), sim);
        let sig = k.sign(&signed_msg(&cr, &sr, &params), scheme);
        Presented { chain: (1..=w.leaf).rev().map(|i| w.certs[i].der.clone()).collect(), kx_params: params, scheme, sig, cr, sr, scts: if sim.chance(1, 3) { Some(vec![sim.bytes(9)]) } else { None }, ocsp: if sim.chance(1, 3) { sim.bytes(7) } else { vec![] } }
    };
    let a = mk(sim, &w);
    let b = mk(sim, &w); // another session with the same server
    let ver = WebPkiVerifier::new(RootCertStore { roots: vec![anchor(&w.certs[0].der)] }, None);
    let sn = named(&w.host)?;
    let now = SystemTime::now();
    let (ha, hb) = (a.decode()?, b.decode()?);
    if let Err(e) = ha.verify(&ver, now, &sn) { violate!("rejected-valid", "freshly built handshake rejected: {e:?}"); }
    let enc = |h: &HandshakeData| bincode::serialize(h).expect("HARNESS-ERROR: bincode");
    let (ba, bb) = (enc(&ha), enc(&hb));
    // crash-free storage: the reload is the same handshake
    let back: HandshakeData = match bincode::deserialize(&ba) { Ok(h) => h, Err(e) => violate!("reload", "stored handshake does not load: {e}") };
    ensure!(enc(&back) == ba, "reload", "reloaded handshake serialises differently");
    if let Err(e) = back.verify(&ver, now, &sn) { violate!("reload", "reloaded handshake no longer verifies: {e:?}"); }
    ensure!(parts(&back) == parts(&ha), "reload", "reloaded handshake evidence differs from what was stored");
    let j = serde_json::to_vec(&ha).expect("HARNESS-ERROR: json");
    let jb: HandshakeData = match serde_json::from_slice(&j) { Ok(h) => h, Err(e) => violate!("reload", "JSON form does not load: {e}") };
    ensure!(enc(&jb) == ba && parts(&jb) == parts(&ha), "reload", "JSON round trip altered the handshake");
    // faults
    let mut f = ba.clone();
    let n = 1 + sim.pick(3);
    for _ in 0..n {
        match sim.pick(5) {
            0 => { let i = sim.index(f.len()); f[i] ^= 1 << sim.index(8); sim.fault("bit_flip"); }
            1 => { let i = sim.index(f.len()); f[i] = sim.pick(256) as u8; sim.fault("byte_overwritten"); }
            2 => { let i = sim.index(f.len()); f.truncate(i); if f.is_empty() { f.push(0) } sim.fault("torn_write"); }
            3 => {
                // splice: a block from the other session's file
                let l = f.len().min(bb.len());
                let i = sim.index(l);
                let e = i + sim.size((l - i) as u64) as usize;
                f[i..e].copy_from_slice(&bb[i..e]);
                sim.fault("block_from_other_file");
            }
            _ => { let i = sim.index(f.len()); let k = sim.size(16) as usize; let e = (i + k).min(f.len()); for x in &mut f[i..e] { *x = 0; } sim.fault("block_zeroed"); }
        }
    }
    sim.step();
    sim.stat_nontrivial();
    sim.fp(simkit::rng::hash_bytes(5, &f));
    sim.observe_bytes(&f);
    let r: Result<HandshakeData, _> = bincode::deserialize(&f);
    let Ok(h) = r else { sim.probe("unreadable"); return Ok(()); };
    match h.verify(&ver, now, &sn) {
        Err(e) => { sim.probe("rejected"); ev!(sim, "rejected: {e:?}"); }
        Ok(()) => {
            let core = |h: &HandshakeData| (h.server_cert_details().cert_chain()[0].0.clone(), h.client_random().0, h.server_random().0, h.server_kx_details().kx_params().to_vec());
            let c = core(&h);
            let hit = if c == core(&ha) { "same" } else if c == core(&hb) { "other_session_whole" } else { "" };
            ensure!(!hit.is_empty(), "forged", "a damaged handshake verified with altered content: cr={} sr={} kx={} (genuine cr={} sr={})", hex(&c.1), hex(&c.2), hex(&c.3), hex(&a.cr), hex(&a.sr));
            sim.probe(if hit == "same" { "still_verifies_unaltered" } else { "verifies_as_other_session" });
        }
    }
    Ok(())
}

/// The algorithm a client records for a handshake signature is the one the
/// server used, whatever label, key or bytes the network delivers, and an
/// auditor re-checking the stored evidence under that algorithm agrees.
pub fn r08_algorithm(sim: &Sim) -> RunResult {
    use tls_core::verify::SignatureAlgorithm as A;
    let now0 = 1_750_000_000;
    seam::set_epoch_s(0);
    seam::set_now_ns(now0 * 1_000_000_000);
    let k = kt(sim);
    let (key, _) = Key::gen_pkcs8(k);
    let spec = CertSpec { subject: "s".into(), issuer: "s".into(), nb: 0, na: now0 + DAY, sans: vec!["server.test".into()], ca: None, eku: None, serial: 1, extra: 0, nc: None };
    let der = build(&spec, &key, &key);
    let (cr, sr, params) = (hello_random(sim), hello_random(sim), kx(sim));
    let scheme = native(k, sim);
    let msg = signed_msg(&cr, &sr, &params);
    let sig0 = key.sign(&msg, scheme);
    let mut p = Presented { chain: vec![der.clone()], kx_params: params, scheme, sig: sig0.clone(), cr, sr, scts: None, ocsp: vec![] };
    for _ in 0..sim.weighted(&[3, 4, 1]) {
        match sim.pick(5) {
            0 => { let s2 = SCHEMES[sim.index(SCHEMES.len())]; if s2 != p.scheme { p.scheme = s2; sim.fault("scheme_mislabelled"); } }
            1 if !p.sig.is_empty() => { let i = sim.index(p.sig.len()); p.sig[i] ^= 1 << sim.index(8); sim.fault("signature_altered"); }
            2 => { let i = sim.index(32); p.sr[i] ^= 1 << sim.index(8); sim.fault("server_random_replaced"); }
            3 => {
                // another key of another type behind the same name
                let k2 = kt(sim);
                if k2 == Kt::Rsa && k == Kt::Rsa { continue; }
                let (o, _) = Key::gen_pkcs8(k2);
                p.chain = vec![build(&spec, &o, &o)];
               
                sim.fault("certificate_replaced");
            }
            _ => { let n = sim.index(p.sig.len().max(1)); p.sig.truncate(n); sim.fault("signature_truncated"); }
        }
    }
    let valid = p.scheme == scheme && p.sig == sig0 && p.sr == sr && p.chain[0] == der;
    let hd = p.decode()?;
    let m = signed_msg(&p.cr, &p.sr, &p.kx_params);
    let cert = &hd.server_cert_details().cert_chain()[0];
    let offered: Vec<u16> = WebPkiVerifier::verification_schemes().iter().map(|s| s.get_u16()).collect();
    ensure!(offered.contains(&scheme) && offered.iter().collect::<std::collections::HashSet<_>>().len() == offered.len(), "offer", "scheme {scheme:04x} is verifiable, but the verifier's list of schemes is {offered:04x?}");
    let got = tls_core::verify::verify_sig_determine_alg(cert, &m, hd.server_kx_details().kx_sig());
    sim.step();
    sim.stat_nontrivial();
    sim.observe_bytes(format!("{got:?}").as_bytes());
    sim.fp(simkit::rng::hash_bytes(9, &p.sig));
    sim.state((k as u64) | (p.scheme as u64) << 8 | (valid as u64) << 32);
    ev!(sim, "key {k:?} scheme {scheme:04x} labelled {:04x} valid={valid} -> {got:?}", p.scheme);
    match got {
        Err(e) => { ensure!(!valid, "rejected-valid", "a genuine {k:?} signature under scheme {scheme:04x} was rejected: {e:?}"); sim.probe("rejected"); }
        Ok(a) => {
            ensure!(valid, "accepted-invalid", "an altered handshake signature (key {k:?}, signed as {scheme:04x}, labelled {:04x}) was accepted as {a:?}", p.scheme);
            let want = match (k, scheme) {
                (Kt::P256, 0x0403) => A::ECDSA_NISTP256_SHA256,
                (Kt::P256, _) => A::ECDSA_NISTP256_SHA384,
                (Kt::P384, 0x0403) => A::ECDSA_NISTP384_SHA256,
                (Kt::P384, _) => A::ECDSA_NISTP384_SHA384,
                (Kt::Ed, _) => A::ED25519,
                (Kt::Rsa, 0x0401) => A::RSA_PKCS1_2048_8192_SHA256,
                (Kt::Rsa, 0x0501) => A::RSA_PKCS1_2048_8192_SHA384,
                (Kt::Rsa, 0x0601) => A::RSA_PKCS1_2048_8192_SHA512,
                (Kt::Rsa, 0x0804) => A::RSA_PSS_2048_8192_SHA256_LEGACY_KEY,
                (Kt::Rsa, 0x0805) => A::RSA_PSS_2048_8192_SHA384_LEGACY_KEY,
                (Kt::Rsa, _) => A::RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
            };
            ensure!(a == want, "wrong-algorithm", "recorded {a:?} for a signature made with {want:?}");
            // The auditor: independent verification under the recorded algorithm.
            let alg: &dyn rustls_pki_types::SignatureVerificationAlgorithm = match a {
                A::ECDSA_NISTP256_SHA256 => webpki::ring::ECDSA_P256_SHA256,
                A::ECDSA_NISTP256_SHA384 => webpki::ring::ECDSA_P256_SHA384,
                A::ECDSA_NISTP384_SHA256 => webpki::ring::ECDSA_P384_SHA256,
                A::ECDSA_NISTP384_SHA384 => webpki::ring::ECDSA_P384_SHA384,
                A::ED25519 => webpki::ring::ED25519,
                A::RSA_PKCS1_2048_8192_SHA256 => webpki::ring::RSA_PKCS1_2048_8192_SHA256,
                A::RSA_PKCS1_2048_8192_SHA384 => webpki::ring::RSA_PKCS1_2048_8192_SHA384,
                A::RSA_PKCS1_2048_8192_SHA512 => webpki::ring::RSA_PKCS1_2048_8192_SHA512,
                A::RSA_PSS_2048_8192_SHA256_LEGACY_KEY => webpki::ring::RSA_PSS_2048_8192_SHA256_LEGACY_KEY,
                A::RSA_PSS_2048_8192_SHA384_LEGACY_KEY => webpki::ring::RSA_PSS_2048_8192_SHA384_LEGACY_KEY,
                A::RSA_PSS_2048_8192_SHA512_LEGACY_KEY => webpki::ring::RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
            };
            let ee = rustls_pki_types::CertificateDer::from(p.chain[0].clone());
            let ee = webpki::EndEntityCert::try_from(&ee).expect("HARNESS-ERROR: leaf");
            ensure!(ee.verify_signature(alg, &m, &p.sig).is_ok(), "wrong-algorithm", "the stored signature does not verify under the recorded {a:?}");
            sim.probe("recorded");
        }
    }
    Ok(())
}

/// TLS 1.3: a CertificateVerify is accepted exactly when the key of the
/// certificate signed this transcript, in this role, under a scheme TLS 1.3
/// allows and that fits the key's curve.
pub fn r08_tls13(sim: &Sim) -> RunResult {
    use tls_core::verify::{construct_tls13_client_verify_message as cmsg, construct_tls13_server_verify_message as smsg};
    let now0 = 1_750_000_000;
    seam::set_epoch_s(0);
    seam::set_now_ns(now0 * 1_000_000_000);
    let k = kt(sim);
    let (key, _) = Key::gen_pkcs8(k);
    let spec = CertSpec { subject: "s".into(), issuer: "s".into(), nb: 0, na: now0 + DAY, sans: vec!["server.test".into()], ca: None, eku: None, serial: 1, extra: 0, nc: None };
    let mut der = build(&spec, &key, &key);
    let scheme = native(k, sim);
    let allowed13 = matches!((k, scheme), (Kt::P256, 0x0403) | (Kt::P384, 0x0503) | (Kt::Ed, 0x0807) | (Kt::Rsa, 0x0804..=0x0806));
    let n = sim.size(300) as usize;
    let mut transcript = sim.bytes(n);
    let dalg = if sim.chance(1, 2) { &digest::SHA256 } else { &digest::SHA384 };
    let d0 = digest::digest(dalg, &transcript);
    let server = sim.chance(1, 2);
    // what RFC 8446 4.4.3 says is signed
    let content = |server: bool, d: &[u8]| [&[0x20u8; 64][..], if server { b"TLS 1.3, server CertificateVerify" } else { b"TLS 1.3, client CertificateVerify" }, &[0], d].concat();
    let sig0 = key.sign(&content(server, d0.as_ref()), scheme);
    let (mut label, mut sig, mut role, mut same_key) = (scheme, sig0.clone(), server, true);
    let mut same_log = true;
    for _ in 0..sim.weighted(&[3, 4, 1]) {
        match sim.pick(6) {
            0 => { let s2 = SCHEMES[sim.index(SCHEMES.len())]; if s2 != label { label = s2; sim.fault("scheme_mislabelled"); } }
            1 if !sig.is_empty() => { let i = sim.index(sig.len()); sig[i] ^= 1 << sim.index(8); sim.fault("signature_altered"); }
            2 => { role = !role; sim.fault("role_reflected"); }
            3 => {
                let k2 = kt(sim);
                if k2 == Kt::Rsa && k == Kt::Rsa { continue; }
                let (o, _) = Key::gen_pkcs8(k2);
                der = build(&spec, &o, &o);
                same_key = false;
                sim.fault("certificate_replaced");
            }
            4 => { if transcript.is_empty() { transcript.push(1) } else { let i = sim.index(transcript.len()); transcript[i] ^= 1 << sim.index(8); } same_log = false; sim.fault("transcript_altered"); }
            _ => { let n = sim.index(sig.len().max(1)); sig.truncate(n); sim.fault("signature_truncated"); }
        }
    }
    let d = digest::digest(dalg, &transcript);
    if !same_log && d.as_ref() == d0.as_ref() { same_log = true; }
    let msg = if role { smsg(&d) } else { cmsg(&d) };
    ensure!(msg == content(role, d.as_ref()), "signed-content", "the content covered by a TLS 1.3 signature is not the one of the standard (server={role})");
    let valid = allowed13 && label == scheme && sig == sig0 && role == server && same_key && same_log;
    let ver = WebPkiVerifier::new(RootCertStore::empty(), None);
    let dss = DigitallySignedStruct::new(SignatureScheme::from(label), sig);
    let got = ver.verify_tls13_signature(&msg, &tls_core::key::Certificate(der), &dss);
    sim.step();
    sim.stat_nontrivial();
    sim.fp(simkit::rng::hash_bytes(10, &sig0) ^ label as u64);
    sim.state((k as u64) | (label as u64) << 8 | (valid as u64) << 32 | (role as u64) << 33);
    sim.probe(if valid { "tls13_accept" } else { "tls13_refuse" });
    ev!(sim, "tls13 key {k:?} scheme {scheme:04x} labelled {label:04x} server={server} shown as server={role} valid={valid} -> {got:?}");
    sim.observe_bytes(format!("{got:?}").as_bytes());
    match (got, valid) {
        (Ok(_), false) => violate!("accepted-invalid", "TLS 1.3 signature accepted: key {k:?}, signed as {scheme:04x} (allowed {allowed13}), labelled {label:04x}, same key {same_key}, same transcript {same_log}, same role {}", role == server),
        (Err(e), true) => violate!("rejected-valid", "a genuine TLS 1.3 signature of a {k:?} key under {scheme:04x} was rejected: {e:?}"),
        _ => Ok(()),
    }
}
