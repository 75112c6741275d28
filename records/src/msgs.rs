//! R05, typed part: handshake messages of TLS 1.2 and TLS 1.3, alerts and
//! change-cipher-spec, built twice - as the library's own value and, by an
//! encoder that shares nothing with the library, as bytes - and carried over
//! the simulated link. What arrives must be that value; a message in which one
//! structure is a byte too long or too short (all enclosing lengths
//! consistent) must be refused.
use crate::link::{deliver, hex, records_of};
use crate::names::*;
use simkit::{ensure, ev, violate, RunResult, Sim};
use std::rc::Rc;
use tls_core::key::Certificate;
use tls_core::msgs::alert::AlertMessagePayload;
use tls_core::msgs::base::*;
use tls_core::msgs::ccs::ChangeCipherSpecPayload;
use tls_core::msgs::codec::{Codec, Reader};
use tls_core::msgs::enums::*;
use tls_core::msgs::handshake::*;
use tls_core::msgs::hsjoiner::HandshakeJoiner;
use tls_core::msgs::message::{Message, MessagePayload, PlainMessage};

/// Wire structure.
#[derive(Clone, Debug)]
enum N {
    B(Vec<u8>),
    /// length-prefixed: width, refuses a trailing 0xff, refuses losing its last byte
    V { w: usize, pad: bool, cut: bool, kids: Vec<N> },
}
fn b(x: impl Into<Vec<u8>>) -> N { N::B(x.into()) }
fn u16n(x: u16) -> N { b(x.to_be_bytes().to_vec()) }
fn u32n(x: u32) -> N { b(x.to_be_bytes().to_vec()) }
fn v(w: usize, kids: Vec<N>) -> N { N::V { w, pad: true, cut: true, kids } }
/// opaque content: any length is fine
fn o(w: usize, x: &[u8]) -> N { N::V { w, pad: false, cut: false, kids: vec![b(x.to_vec())] } }
impl N {
    fn wire(&self, out: &mut Vec<u8>) {
        match self {
            N::B(x) => out.extend(x),
            N::V { w, kids, .. } => {
                let mut c = vec![];
                for k in kids { k.wire(&mut c); }
                out.extend(&(c.len() as u32).to_be_bytes()[4 - w..]);
                out.extend(c);
            }
        }
    }
    fn strict(&self, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if let N::V { pad, cut, kids, .. } = self {
            if *pad || *cut { out.push(path.clone()); }
            for (i, k) in kids.iter().enumerate() { path.push(i); k.strict(path, out); path.pop(); }
        }
    }
    fn at(&mut self, path: &[usize]) -> &mut N {
        match (path.split_first(), self) {
            (None, s) => s,
            (Some((i, rest)), N::V { kids, .. }) => kids[*i].at(rest),
            _ => unreachable!(),
        }
    }
}
type G<T> = (N, T);

fn pick<T: Copy, X: Copy>(s: &Sim, t: &[(T, X)]) -> (T, X) { t[s.index(t.len())] }
macro_rules! code {
    ($f:ident, $t:ty, $x:ty, $table:expr) => {
        fn $f(s: &Sim) -> ($t, $x) {
            if s.chance(5, 6) { return pick(s, $table); }
            let x = bits(s) as $x;
            $table.iter().find(|e| e.1 == x).copied().unwrap_or((<$t>::Unknown(x), x))
        }
    };
}
code!(group, NamedGroup, u16, NAMED_GROUP);
code!(scheme, SignatureScheme, u16, SIGNATURE_SCHEME);
code!(suite, CipherSuite, u16, CIPHER_SUITE);
code!(version, ProtocolVersion, u16, PROTOCOL_VERSION);
code!(comp, Compression, u8, COMPRESSION);
code!(point, ECPointFormat, u8, ECPOINT_FORMAT);
code!(pskmode, PSKKeyExchangeMode, u8, PSKKEY_EXCHANGE_MODE);
code!(certtype, ClientCertificateType, u8, CLIENT_CERTIFICATE_TYPE);

fn bits(s: &Sim) -> u64 { s.pick(1 << 32) << 32 | s.pick(1 << 32) }
fn size(s: &Sim, max: u64) -> usize { if s.chance(1, 30) { max as usize } else { s.size(max.min(40)) as usize } }
fn opaque(s: &Sim, max: u64) -> Vec<u8> { let n = size(s, max); s.bytes(n) }
fn op8(s: &Sim) -> G<PayloadU8> { let x = opaque(s, 255); (o(1, &x), PayloadU8::new(x)) }
fn op16(s: &Sim) -> G<PayloadU16> { let x = opaque(s, 3000); (o(2, &x), PayloadU16::new(x)) }
fn many<T>(s: &Sim, lo: u64, hi: u64, f: impl Fn(&Sim) -> G<T>) -> (Vec<N>, Vec<T>) {
    let n = count(s, lo, hi);
    let (mut k, mut t, mut size) = (vec![], vec![], 0);
    for _ in 0..n {
        let (a, b) = f(s);
        size += wire_len(&a);
        if size > 20_000 { break; }
        k.push(a);
        t.push(b);
    }
    (k, t)
}
fn wire_len(n: &N) -> usize { let mut w = vec![]; n.wire(&mut w); w.len() }
/// How many entries a list has: mostly a few, now and then far more.
fn count(s: &Sim, lo: u64, hi: u64) -> u64 {
    if hi > 1 && s.chance(1, 60) { s.probe("long_list"); return s.range(hi, hi * 60); }
    s.range(lo, hi)
}
fn list16<T>(s: &Sim, lo: u64, hi: u64, f: impl Fn(&Sim) -> G<T>) -> G<Vec<T>> {
    let (k, t) = many(s, lo, hi, f);
    // (a list that ends with an empty byte string is still a list without it)
    let cut = !matches!(k.last(), Some(N::V { w: 1, kids, .. }) if matches!(&kids[..], [N::B(x)] if x.is_empty()));
    (N::V { w: 2, pad: true, cut, kids: k }, t)
}
fn list8<T>(s: &Sim, lo: u64, hi: u64, f: impl Fn(&Sim) -> G<T>) -> G<Vec<T>> { let n = s.range(lo, hi); let (k, t): (Vec<N>, Vec<T>) = (0..n).map(|_| f(s)).unzip(); (v(1, k), t) }
/// a list of single bytes: every length is a valid list
fn bytes8<T>(s: &Sim, f: impl Fn(&Sim) -> (T, u8)) -> G<Vec<T>> {
    let n = s.range(1, 4);
    let (t, x): (Vec<T>, Vec<u8>) = (0..n).map(|_| f(s)).unzip();
    (o(1, &x), t)
}
fn c16<T>(f: impl Fn(&Sim) -> (T, u16)) -> impl Fn(&Sim) -> G<T> { move |s| { let (t, x) = f(s); (u16n(x), t) } }
fn rnd(s: &Sim) -> Random { Random(s.bytes(32).try_into().unwrap()) }
fn sid(s: &Sim) -> G<SessionID> {
    let n = [0, 32, s.pick(33) as usize][s.index(3)];
    let x = s.bytes(n);
    let mut w = vec![n as u8];
    w.extend(&x);
    (o(1, &x), SessionID::read_bytes(&w).expect("session id of legal length"))
}
fn host(s: &Sim) -> String {
    let n = s.range(1, 4);
    let upper = s.chance(1, 6);
    let label = |i: u64| {
        let l = if s.chance(1, 12) { 63 } else { s.range(1, 9) } as usize;
        let t: String = s.bytes(l).iter().enumerate().map(|(j, c)| if upper && c & 32 == 0 { (b'A' + c % 26) as char } else if j > 0 && c >= &250 { (b'0' + c % 10) as char } else { (b'a' + c % 26) as char }).collect();
        if i % 2 == 1 && l < 60 { t + "-x" } else { t }
    };
    let mut ls: Vec<String> = (0..n).map(label).collect();
    // a name may be a single label
    if !(n == 1 && s.chance(1, 2)) { ls.push("test".into()); }
    while ls.join(".").len() > 240 { ls.remove(0); }
    ls.join(".")
}
fn unknown(s: &Sim, typed: &[u16]) -> (u16, N, UnknownExtension) {
    loop {
        let (t, x) = if s.chance(1, 2) { pick(s, EXTENSION_TYPE) } else { let x = bits(s) as u16; EXTENSION_TYPE.iter().find(|e| e.1 == x).copied().unwrap_or((ExtensionType::Unknown(x), x)) };
        if typed.contains(&x) { continue; }
        let p = opaque(s, 600);
        return (x, o(2, &p), UnknownExtension { typ: t, payload: Payload::new(p) });
    }
}
fn ext(typ: u16, content: Vec<N>) -> (u16, N) { (typ, v(2, content)) }

/// What a list of extensions says, by the model.
#[derive(Clone, Debug, Default)]
struct Seen { types: Vec<u16> }
impl Seen {
    fn dup(&self) -> bool { let mut t = self.types.clone(); t.sort(); t.windows(2).any(|w| w[0] == w[1]) }
    fn has(&self, t: u16) -> bool { self.types.contains(&t) }
    fn first(&self, t: u16) -> Option<usize> { self.types.iter().position(|x| *x == t) }
}
fn exts<T>(s: &Sim, lo: u64, hi: u64, f: impl Fn(&Sim) -> ((u16, N), T)) -> (N, Vec<T>, Seen) {
    let n = count(s, lo, hi);
    let mut kids = vec![];
    let mut vals = vec![];
    let mut seen = Seen::default();
    let mut size = 0;
    for _ in 0..n {
        let ((t, c), x) = f(s);
        size += 2 + wire_len(&c);
        if size > 20_000 && !vals.is_empty() { break; }
        kids.push(u16n(t));
        kids.push(c);
        vals.push(x);
        seen.types.push(t);
    }
    (v(2, kids), vals, seen)
}

const CLIENT_TYPED: &[u16] = &[11, 10, 13, 0, 35, 16, 43, 51, 45, 41, 44, 23, 5, 18, 0x39, 0xffa5, 42];
fn client_ext(s: &Sim) -> ((u16, N), ClientExtension) {
    use ClientExtension as C;
    match s.pick(18) {
        0 => { let (n, t) = bytes8(s, point); (ext(11, vec![n]), C::ECPointFormats(t)) }
        1 => { let (n, t) = list16(s, 0, 5, c16(group)); (ext(10, vec![n]), C::NamedGroups(t)) }
        2 => { let (n, t) = list16(s, 0, 5, c16(scheme)); (ext(13, vec![n]), C::SignatureAlgorithms(t)) }
        3 => {
            let k = s.range(1, 3);
            let mut kids = vec![];
            let mut names = vec![];
            for i in 0..k {
                if i + 1 == k && s.chance(1, 5) {
                    let p = opaque(s, 60);
                    let typ = 1 + s.pick(254) as u8;
                    kids.push(b([vec![typ], p.clone()].concat()));
                    names.push(ServerName { typ: ServerNameType::Unknown(typ), payload: ServerNamePayload::Unknown(Payload::new(p)) });
                    let l = N::V { w: 2, pad: false, cut: false, kids };
                    return ((0, N::V { w: 2, pad: true, cut: true, kids: vec![l] }), C::ServerName(names));
                }
                let h = host(s);
                kids.push(b(vec![0]));
                kids.push(o(2, h.as_bytes()));
                names.push(ServerName { typ: ServerNameType::HostName, payload: ServerNamePayload::new_hostname(rustls_pki_types::DnsName::try_from(h.as_str()).expect("host name").to_owned()) });
            }
            // a trailing byte would be a name of unknown type
            (ext(0, vec![N::V { w: 2, pad: false, cut: true, kids }]), C::ServerName(names))
        }
        4 => { let p = opaque(s, 300); let t = if p.is_empty() { ClientSessionTicket::Request } else { ClientSessionTicket::Offer(Payload::new(p.clone())) }; ((35, o(2, &p)), C::SessionTicket(t)) }
        5 => { let (n, t) = list16(s, 0, 4, op8); (ext(16, vec![n]), C::Protocols(t)) }
        6 => { let (n, t) = list8(s, 0, 4, c16(version)); (ext(43, vec![n]), C::SupportedVersions(t)) }
        7 => { let (n, t) = list16(s, 0, 4, keyshare); (ext(51, vec![n]), C::KeyShare(t)) }
        8 => { let (n, t) = bytes8(s, pskmode); (ext(45, vec![n]), C::PresharedKeyModes(t)) }
        9 => psk(s),
        10 => { let (n, t) = op16(s); (ext(44, vec![n]), C::Cookie(t)) }
        11 => ((23, o(2, &[])), C::ExtendedMasterSecretRequest),
        12 => {
            if s.chance(1, 4) {
                let typ = 2 + s.pick(250) as u8;
                let p = opaque(s, 90);
                ((5, N::V { w: 2, pad: false, cut: false, kids: vec![b([vec![typ], p.clone()].concat())] }), C::CertificateStatusRequest(CertificateStatusRequest::Unknown((CertificateStatusType::Unknown(typ), Payload::new(p)))))
            } else {
                let (n, responder_ids) = list16(s, 0, 3, op16);
                let (m, extensions) = op16(s);
                (ext(5, vec![b(vec![1]), n, m]), C::CertificateStatusRequest(CertificateStatusRequest::OCSP(OCSPCertificateStatusRequest { responder_ids, extensions })))
            }
        }
        13 => ((18, o(2, &[])), C::SignedCertificateTimestampRequest),
        14 => { let p = opaque(s, 300); ((0x39, o(2, &p)), C::TransportParameters(p)) }
        15 => { let p = opaque(s, 300); ((0xffa5, o(2, &p)), C::TransportParametersDraft(p)) }
        16 => ((42, o(2, &[])), C::EarlyData),
        _ => { let (t, n, u) = unknown(s, CLIENT_TYPED); ((t, n), C::Unknown(u)) }
    }
}
fn keyshare(s: &Sim) -> G<KeyShareEntry> {
    let (g, x) = group(s);
    let (n, p) = op16(s);
    (b([x.to_be_bytes().to_vec(), { let mut w = vec![]; n.wire(&mut w); w }].concat()), KeyShareEntry::new(g, &p.0))
}
fn psk(s: &Sim) -> ((u16, N), ClientExtension) {
    let k = s.range(1, 3);
    let (mut a, mut c, mut ids, mut bs) = (vec![], vec![], vec![], vec![]);
    for _ in 0..k {
        let (n, id) = op16(s);
        let age = bits(s) as u32;
        a.push(n);
        a.push(u32n(age));
        ids.push(PresharedKeyIdentity::new(id.0, age));
        let (n, x) = op8(s);
        c.push(n);
        bs.push(x);
    }
    let cut = !bs.last().unwrap().0.is_empty();
    (ext(41, vec![v(2, a), N::V { w: 2, pad: true, cut, kids: c }]), ClientExtension::PresharedKey(PresharedKeyOffer { identities: ids, binders: bs }))
}
const SERVER_TYPED: &[u16] = &[11, 0, 35, 5, 0xff01, 16, 51, 41, 23, 18, 43, 0x39, 0xffa5, 42];
fn server_ext(s: &Sim) -> ((u16, N), ServerExtension) {
    use ServerExtension as S;
    match s.pick(15) {
        0 => { let (n, t) = bytes8(s, point); (ext(11, vec![n]), S::ECPointFormats(t)) }
        1 => (ext(0, vec![]), S::ServerNameAck),
        2 => (ext(35, vec![]), S::SessionTicketAck),
        3 => { let (n, t) = op8(s); (ext(0xff01, vec![n]), S::RenegotiationInfo(t)) }
        4 => { let (n, t) = list16(s, 0, 3, op8); (ext(16, vec![n]), S::Protocols(t)) }
        5 => { let (n, t) = keyshare(s); (ext(51, vec![n]), S::KeyShare(t)) }
        6 => { let x = bits(s) as u16; (ext(41, vec![u16n(x)]), S::PresharedKey(x)) }
        7 => (ext(23, vec![]), S::ExtendedMasterSecretAck),
        8 => (ext(5, vec![]), S::CertificateStatusAck),
        9 => { let (n, t) = list16(s, 0, 3, op16); (ext(18, vec![n]), S::SignedCertificateTimestamp(t)) }
        10 => { let (t, x) = version(s); (ext(43, vec![u16n(x)]), S::SupportedVersions(t)) }
        11 => { let p = opaque(s, 300); ((0x39, o(2, &p)), S::TransportParameters(p)) }
        12 => { let p = opaque(s, 300); ((0xffa5, o(2, &p)), S::TransportParametersDraft(p)) }
        13 => (ext(42, vec![]), S::EarlyData),
        _ => { let (t, n, u) = unknown(s, SERVER_TYPED); ((t, n), S::Unknown(u)) }
    }
}
fn cert_ext(s: &Sim) -> ((u16, N), CertificateExtension) {
    use CertificateExtension as C;
    match s.pick(3) {
        0 => { let p = opaque(s, 900); (ext(5, vec![b(vec![1]), o(3, &p)]), C::CertificateStatus(CertificateStatus::new(p))) }
        1 => { let (n, t) = list16(s, 0, 3, op16); (ext(18, vec![n]), C::SignedCertificateTimestamp(t)) }
        _ => { let (t, n, u) = unknown(s, &[5, 18]); ((t, n), C::Unknown(u)) }
    }
}
fn creq_ext(s: &Sim) -> ((u16, N), CertReqExtension) {
    use CertReqExtension as C;
    match s.pick(3) {
        0 => { let (n, t) = list16(s, 1, 5, c16(scheme)); (ext(13, vec![n]), C::SignatureAlgorithms(t)) }
        1 => { let (n, t) = list16(s, 0, 3, op16); (ext(47, vec![n]), C::AuthorityNames(t)) }
        _ => { let (t, n, u) = unknown(s, &[13, 47]); ((t, n), C::Unknown(u)) }
    }
}
fn nst_ext(s: &Sim) -> ((u16, N), NewSessionTicketExtension) {
    if s.chance(1, 2) { let x = bits(s) as u32; (ext(42, vec![u32n(x)]), NewSessionTicketExtension::EarlyData(x)) }
    else { let (t, n, u) = unknown(s, &[42]); ((t, n), NewSessionTicketExtension::Unknown(u)) }
}
fn hrr_ext(s: &Sim) -> ((u16, N), HelloRetryExtension) {
    use HelloRetryExtension as H;
    match s.pick(4) {
        0 => { let (t, x) = group(s); (ext(51, vec![u16n(x)]), H::KeyShare(t)) }
        1 => { let (n, t) = op16(s); (ext(44, vec![n]), H::Cookie(t)) }
        2 => { let (t, x) = version(s); (ext(43, vec![u16n(x)]), H::SupportedVersions(t)) }
        _ => { let (t, n, u) = unknown(s, &[51, 44, 43]); ((t, n), H::Unknown(u)) }
    }
}

type Query = (&'static str, Rc<dyn Fn(&HandshakePayload) -> bool>);
struct Case { typ: u8, body: N, value: HandshakeMessagePayload, queries: Vec<Query>, refused: bool, what: &'static str }
fn dbg<T: std::fmt::Debug>(x: T) -> String { format!("{x:?}") }

/// Queries over something with server extensions.
macro_rules! queries { ($q:ident, $pat:pat => $x:expr, { $($name:expr => $got:expr, $want:expr;)* }) => { $( { let want = $want; $q.push(($name, Rc::new(move |p: &HandshakePayload| { let $pat = p else { return false }; let x = $x; let _ = &x; ($got)(x) == want }))); } )* } }

fn client_hello(s: &Sim) -> Case {
    let (vt, vx) = version(s);
    let r = rnd(s);
    let (sn, sv) = sid(s);
    let (cn, cs) = list16(s, 0, 6, c16(suite));
    let (mn, ms) = bytes8(s, comp);
    let (mut en, mut es, mut seen) = exts(s, 1, 7, client_ext);
    let last_psk = s.chance(1, 4);
    if last_psk {
        let ((t, c), e) = psk(s);
        if let N::V { kids, .. } = &mut en { kids.push(u16n(t)); kids.push(c); }
        es.push(e);
        seen.types.push(t);
    }
    let body = v(3, vec![u16n(vx), b(r.0.to_vec()), sn, cn, mn, en]);
    let mut q: Vec<Query> = vec![];
    let at = |t: u16| seen.first(t).map(|i| &es[i]);
    use ClientExtension as C;
    let d = |x: Option<String>| x;
    let sni = d(at(0).map(|e| match e { C::ServerName(x) => dbg(x), _ => unreachable!() }));
    let sni_dup = at(0).map(|e| match e { C::ServerName(x) => x.len() > 1 && { let hosts = x.iter().filter(|n| matches!(n.payload, ServerNamePayload::HostName(_))).count(); hosts > 1 }, _ => unreachable!() });
    let sni_host = at(0).map(|e| match e { C::ServerName(x) => x.iter().find_map(|n| match &n.payload { ServerNamePayload::HostName((_, h)) => Some(h.as_ref().to_string()), _ => None }), _ => unreachable!() });
    let ks_dup = at(51).is_some_and(|e| match e { C::KeyShare(x) => { let mut g: Vec<u16> = x.iter().map(|k| k.group.get_u16()).collect(); g.sort(); g.windows(2).any(|w| w[0] == w[1]) } _ => unreachable!() });
    let modes: Option<Vec<u8>> = at(45).map(|e| match e { C::PresharedKeyModes(x) => x.iter().map(|m| m.get_u8()).collect(), _ => unreachable!() });
    let modes2 = modes.clone();
    let psk_last = seen.types.last() == Some(&41);
    queries!(q, HandshakePayload::ClientHello(x) => x, {
        "duplicate extensions" => |x: &ClientHelloPayload| x.has_duplicate_extension(), seen.dup();
        "server name" => |x: &ClientHelloPayload| x.get_sni_extension().map(dbg), sni;
        "duplicate server names" => |x: &ClientHelloPayload| x.get_sni_extension().map(|l| l.has_duplicate_names_for_type()), sni_dup;
        "single host name" => |x: &ClientHelloPayload| x.get_sni_extension().map(|l| l.get_single_hostname().map(|h| h.as_ref().to_string())), sni_host;
        "signature algorithms" => |x: &ClientHelloPayload| x.get_sigalgs_extension().map(dbg), at(13).map(|e| match e { C::SignatureAlgorithms(x) => dbg(x), _ => unreachable!() });
        "groups" => |x: &ClientHelloPayload| x.get_namedgroups_extension().map(dbg), at(10).map(|e| match e { C::NamedGroups(x) => dbg(x), _ => unreachable!() });
        "point formats" => |x: &ClientHelloPayload| x.get_ecpoints_extension().map(dbg), at(11).map(|e| match e { C::ECPointFormats(x) => dbg(x), _ => unreachable!() });
        "alpn" => |x: &ClientHelloPayload| x.get_alpn_extension().map(dbg), at(16).map(|e| match e { C::Protocols(x) => dbg(x), _ => unreachable!() });
        "ticket" => |x: &ClientHelloPayload| x.get_ticket_extension().map(dbg), at(35).map(dbg);
        "versions" => |x: &ClientHelloPayload| x.get_versions_extension().map(dbg), at(43).map(|e| match e { C::SupportedVersions(x) => dbg(x), _ => unreachable!() });
        "key shares" => |x: &ClientHelloPayload| x.get_keyshare_extension().map(dbg), at(51).map(|e| match e { C::KeyShare(x) => dbg(x), _ => unreachable!() });
        "duplicate key shares" => |x: &ClientHelloPayload| x.has_keyshare_extension_with_duplicates(), ks_dup;
        "psk" => |x: &ClientHelloPayload| x.get_psk().map(dbg), at(41).map(|e| match e { C::PresharedKey(x) => dbg(x), _ => unreachable!() });
        "psk is last" => |x: &ClientHelloPayload| x.check_psk_ext_is_last(), psk_last;
        "psk modes" => |x: &ClientHelloPayload| x.get_psk_modes().map(|m| m.iter().map(|m| m.get_u8()).collect::<Vec<_>>()), modes;
        "psk_ke offered" => |x: &ClientHelloPayload| x.psk_mode_offered(PSKKeyExchangeMode::PSK_KE), modes2.as_ref().is_some_and(|m| m.contains(&0));
        "psk_dhe_ke offered" => |x: &ClientHelloPayload| x.psk_mode_offered(PSKKeyExchangeMode::PSK_DHE_KE), modes2.as_ref().is_some_and(|m| m.contains(&1));
        "ems offered" => |x: &ClientHelloPayload| x.ems_support_offered(), seen.has(23);
        "early data offered" => |x: &ClientHelloPayload| x.early_data_extension_offered(), seen.has(42);
        "extension types" => |x: &ClientHelloPayload| x.extensions.iter().map(|e| e.get_type().get_u16()).collect::<Vec<_>>(), seen.types.clone();
    });
    Case { typ: 1, body, value: HandshakeMessagePayload { typ: HandshakeType::ClientHello, payload: HandshakePayload::ClientHello(ClientHelloPayload { client_version: vt, random: r, session_id: sv, cipher_suites: cs, compression_methods: ms, extensions: es }) }, queries: q, refused: false, what: "ClientHello" }
}
fn server_queries(es: &[ServerExtension], seen: &Seen) -> (Option<Vec<u8>>, Option<String>, Option<String>, Option<u16>, Option<String>, Option<String>) {
    use ServerExtension as S;
    let at = |t: u16| seen.first(t).map(|i| &es[i]);
    (
        at(16).and_then(|e| match e { S::Protocols(x) if x.len() == 1 => Some(x[0].0.clone()), S::Protocols(_) => None, _ => unreachable!() }),
        at(51).map(|e| match e { S::KeyShare(x) => dbg(x), _ => unreachable!() }),
        at(11).map(|e| match e { S::ECPointFormats(x) => dbg(x), _ => unreachable!() }),
        at(41).map(|e| match e { S::PresharedKey(x) => *x, _ => unreachable!() }),
        at(18).map(|e| match e { S::SignedCertificateTimestamp(x) => dbg(x), _ => unreachable!() }),
        at(43).map(|e| match e { S::SupportedVersions(x) => dbg(x), _ => unreachable!() }),
    )
}
fn server_hello(s: &Sim) -> Case {
    let (vt, vx) = version(s);
    let r = rnd(s);
    let (sn, sv) = sid(s);
    let (st, sx) = suite(s);
    let (ct, cx) = comp(s);
    let (en, es, seen) = exts(s, 0, 6, server_ext);
    let (alpn, ks, ecp, psk, sct, ver) = server_queries(&es, &seen);
    let mut q: Vec<Query> = vec![];
    queries!(q, HandshakePayload::ServerHello(x) => x, {
        "duplicate extensions" => |x: &ServerHelloPayload| x.has_duplicate_extension(), seen.dup();
        "alpn" => |x: &ServerHelloPayload| x.get_alpn_protocol().map(|a| a.to_vec()), alpn;
        "key share" => |x: &ServerHelloPayload| x.get_key_share().map(dbg), ks;
        "psk index" => |x: &ServerHelloPayload| x.get_psk_index(), psk;
        "point formats" => |x: &ServerHelloPayload| x.get_ecpoints_extension().map(dbg), ecp;
        "ems acked" => |x: &ServerHelloPayload| x.ems_support_acked(), seen.has(23);
        "scts" => |x: &ServerHelloPayload| x.get_sct_list().map(dbg), sct;
        "version" => |x: &ServerHelloPayload| x.get_supported_versions().map(dbg), ver;
        "early data" => |x: &ServerHelloPayload| x.early_data_extension_offered(), seen.has(42);
        "extension types" => |x: &ServerHelloPayload| x.extensions.iter().map(|e| e.get_type().get_u16()).collect::<Vec<_>>(), seen.types.clone();
    });
    let body = v(3, vec![u16n(vx), b(r.0.to_vec()), sn, u16n(sx), b(vec![cx]), en]);
    Case { typ: 2, body, value: HandshakeMessagePayload { typ: HandshakeType::ServerHello, payload: HandshakePayload::ServerHello(ServerHelloPayload { legacy_version: vt, random: r, session_id: sv, cipher_suite: st, compression_method: ct, extensions: es }) }, queries: q, refused: false, what: "ServerHello" }
}
const HRR: [u8; 32] = [
    0xcf, 0x21, 0xad, 0x74, 0xe5, 0x9a, 0x61, 0x11, 0xbe, 0x1d, 0x8c, 0x02, 0x1e, 0x65, 0xb8, 0x91, 0xc2, 0xa2, 0x11, 0x16, 0x7a, 0xbb, 0x8c, 0x5e, 0x07, 0x9e, 0x09, 0xe2, 0xc8, 0xa8, 0x33, 0x9c,
];
fn hello_retry(s: &Sim) -> Case {
    let (vt, vx) = version(s);
    let (sn, sv) = sid(s);
    let (st, sx) = suite(s);
    let bad = s.chance(1, 8);
    let (en, es, seen) = exts(s, 0, 4, hrr_ext);
    use HelloRetryExtension as H;
    let at = |t: u16| seen.first(t).map(|i| &es[i]);
    let mut q: Vec<Query> = vec![];
    queries!(q, HandshakePayload::HelloRetryRequest(x) => x, {
        "duplicate extensions" => |x: &HelloRetryRequest| x.has_duplicate_extension(), seen.dup();
        "unknown extensions" => |x: &HelloRetryRequest| x.has_unknown_extension(), seen.types.iter().any(|t| ![51, 44, 43].contains(t));
        "group" => |x: &HelloRetryRequest| x.get_requested_key_share_group().map(dbg), at(51).map(|e| match e { H::KeyShare(g) => dbg(g), _ => unreachable!() });
        "cookie" => |x: &HelloRetryRequest| x.get_cookie().map(dbg), at(44).map(|e| match e { H::Cookie(g) => dbg(g), _ => unreachable!() });
        "version" => |x: &HelloRetryRequest| x.get_supported_versions().map(dbg), at(43).map(|e| match e { H::SupportedVersions(g) => dbg(g), _ => unreachable!() });
    });
    let body = v(3, vec![u16n(vx), b(HRR.to_vec()), sn, u16n(sx), b(vec![if bad { 1 + s.pick(255) as u8 } else { 0 }]), en]);
    Case { typ: 2, body, value: HandshakeMessagePayload { typ: HandshakeType::HelloRetryRequest, payload: HandshakePayload::HelloRetryRequest(HelloRetryRequest { legacy_version: vt, session_id: sv, cipher_suite: st, extensions: es }) }, queries: q, refused: bad, what: "HelloRetryRequest" }
}
fn cert13(s: &Sim) -> Case {
    let (cn, cv) = op8(s);
    let k = s.range(0, 3);
    let mut kids = vec![];
    let mut entries = vec![];
    let mut all: Vec<Seen> = vec![];
    for _ in 0..k {
        let d = opaque(s, 1200);
        let (en, es, seen) = exts(s, 0, 3, cert_ext);
        kids.push(o(3, &d));
        kids.push(en);
        entries.push(CertificateEntry { cert: Certificate(d), exts: es });
        all.push(seen);
    }
    let first = entries.first().zip(all.first());
    let ocsp: Vec<u8> = first.and_then(|(e, sn)| sn.first(5).map(|i| match &e.exts[i] { CertificateExtension::CertificateStatus(c) => c.ocsp_response.0.clone(), _ => unreachable!() })).unwrap_or_default();
    let scts: Option<String> = first.and_then(|(e, sn)| sn.first(18).map(|i| match &e.exts[i] { CertificateExtension::SignedCertificateTimestamp(c) => dbg(c), _ => unreachable!() }));
    let ders: Vec<Vec<u8>> = entries.iter().map(|e| e.cert.0.clone()).collect();
    let mut q: Vec<Query> = vec![];
    type P = CertificatePayloadTLS13;
    queries!(q, HandshakePayload::CertificateTLS13(x) => x, {
        "duplicate extensions" => |x: &P| x.any_entry_has_duplicate_extension(), all.iter().any(|s| s.dup());
        "unknown extensions" => |x: &P| x.any_entry_has_unknown_extension(), all.iter().any(|s| s.types.iter().any(|t| ![5, 18].contains(t)));
        "any extensions" => |x: &P| x.any_entry_has_extension(), all.iter().any(|s| !s.types.is_empty());
        "ocsp" => |x: &P| x.get_end_entity_ocsp(), ocsp;
        "scts" => |x: &P| x.get_end_entity_scts().map(dbg), scts;
        "chain" => |x: &P| x.convert().into_iter().map(|c| c.0).collect::<Vec<_>>(), ders;
    });
    Case { typ: 11, body: v(3, vec![cn, v(3, kids)]), value: HandshakeMessagePayload { typ: HandshakeType::Certificate, payload: HandshakePayload::CertificateTLS13(P { context: cv, entries }) }, queries: q, refused: false, what: "CertificateTLS13" }
}
fn simple(typ: u8, t: HandshakeType, body: N, p: HandshakePayload, what: &'static str) -> Case {
    Case { typ, body, value: HandshakeMessagePayload { typ: t, payload: p }, queries: vec![], refused: false, what }
}
fn loose(x: &[u8]) -> N { N::V { w: 3, pad: false, cut: false, kids: vec![b(x.to_vec())] } }
fn case(s: &Sim, v13: bool) -> Case {
    use HandshakePayload as H;
    use HandshakeType as T;
    match s.pick(20) {
        0 | 1 | 2 => client_hello(s),
        3 | 4 => server_hello(s),
        5 => hello_retry(s),
        6 if v13 => cert13(s),
        6 => { let (k, c) = many(s, 0, 4, |s| { let d = opaque(s, 1500); (o(3, &d), Certificate(d)) }); simple(11, T::Certificate, v(3, vec![v(3, k)]), H::Certificate(c), "Certificate") }
        7 => {
            // fully parsed on demand only
            let (g, gx) = group(s);
            let p = opaque(s, 255);
            let (sc, sx) = scheme(s);
            let (sn, sg) = op16(s);
            let curve = if s.chance(5, 6) { 3u8 } else { bits(s) as u8 };
            let tail = if s.chance(1, 5) { vec![0xff] } else { vec![] };
            let mut raw = vec![curve];
            raw.extend(gx.to_be_bytes());
            o(1, &p).wire(&mut raw);
            raw.extend(sx.to_be_bytes());
            sn.wire(&mut raw);
            raw.extend(&tail);
            let good = curve == 3 && tail.is_empty();
            let want = good.then(|| dbg(ECDHEServerKeyExchange { params: ServerECDHParams::new(g, &p), dss: DigitallySignedStruct::new(sc, sg.0) }));
            if !good { s.probe("ske_refused_on_demand"); }
            let mut q: Vec<Query> = vec![];
            queries!(q, H::ServerKeyExchange(x) => x, {
                "ecdhe" => |x: &ServerKeyExchangePayload| x.unwrap_given_kxa(&KeyExchangeAlgorithm::ECDHE).map(dbg), want;
                "other kx" => |x: &ServerKeyExchangePayload| x.unwrap_given_kxa(&KeyExchangeAlgorithm::DHE).is_none(), true;
            });
            Case { typ: 12, body: loose(&raw), value: HandshakeMessagePayload { typ: T::ServerKeyExchange, payload: H::ServerKeyExchange(ServerKeyExchangePayload::Unknown(Payload::new(raw))) }, queries: q, refused: false, what: "ServerKeyExchange" }
        }
        8 if v13 => {
            let (cn, context) = op8(s);
            let (en, extensions, seen) = exts(s, 0, 4, creq_ext);
            let at = |t: u16| seen.first(t).map(|i| &extensions[i]);
            let mut q: Vec<Query> = vec![];
            type P = CertificateRequestPayloadTLS13;
            queries!(q, H::CertificateRequestTLS13(x) => x, {
                "signature algorithms" => |x: &P| x.get_sigalgs_extension().map(dbg), at(13).map(|e| match e { CertReqExtension::SignatureAlgorithms(x) => dbg(x), _ => unreachable!() });
                "authorities" => |x: &P| x.get_authorities_extension().map(dbg), at(47).map(|e| match e { CertReqExtension::AuthorityNames(x) => dbg(x), _ => unreachable!() });
            });
            Case { typ: 13, body: v(3, vec![cn, en]), value: HandshakeMessagePayload { typ: T::CertificateRequest, payload: H::CertificateRequestTLS13(P { context, extensions }) }, queries: q, refused: false, what: "CertificateRequestTLS13" }
        }
        8 => {
            let (a, certtypes) = bytes8(s, certtype);
            let (c, sigschemes) = list16(s, 0, 5, c16(scheme));
            let (d, canames) = list16(s, 0, 3, op16);
            let refused = sigschemes.is_empty();
            Case { refused, ..simple(13, T::CertificateRequest, v(3, vec![a, c, d]), H::CertificateRequest(CertificateRequestPayload { certtypes, sigschemes, canames }), "CertificateRequest") }
        }
        9 => { let (sc, x) = scheme(s); let (n, g) = op16(s); simple(15, T::CertificateVerify, v(3, vec![u16n(x), n]), H::CertificateVerify(DigitallySignedStruct::new(sc, g.0)), "CertificateVerify") }
        10 => match s.pick(3) { 0 => simple(14, T::ServerHelloDone, v(3, vec![]), H::ServerHelloDone, "ServerHelloDone"), 1 => simple(5, T::EndOfEarlyData, v(3, vec![]), H::EndOfEarlyData, "EndOfEarlyData"), _ => simple(0, T::HelloRequest, N::V { w: 3, pad: false, cut: false, kids: vec![] }, H::HelloRequest, "HelloRequest") },
        11 => { let x = opaque(s, 900); simple(16, T::ClientKeyExchange, loose(&x), H::ClientKeyExchange(Payload::new(x)), "ClientKeyExchange") }
        12 if v13 => {
            let (l, a) = (bits(s) as u32, bits(s) as u32);
            let (n, nonce) = op8(s);
            let (t, ticket) = op16(s);
            let (en, es, seen) = exts(s, 0, 4, nst_ext);
            let max = seen.first(42).map(|i| match &es[i] { NewSessionTicketExtension::EarlyData(x) => *x, _ => unreachable!() });
            let mut q: Vec<Query> = vec![];
            type P = NewSessionTicketPayloadTLS13;
            queries!(q, H::NewSessionTicketTLS13(x) => x, {
                "duplicate extensions" => |x: &P| x.has_duplicate_extension(), seen.dup();
                "early data limit" => |x: &P| x.get_max_early_data_size(), max;
            });
            let mut p = P::new(l, a, nonce.0, ticket.0);
            p.exts = es;
            Case { typ: 4, body: v(3, vec![u32n(l), u32n(a), n, t, en]), value: HandshakeMessagePayload { typ: T::NewSessionTicket, payload: H::NewSessionTicketTLS13(p) }, queries: q, refused: false, what: "NewSessionTicketTLS13" }
        }
        12 => { let l = bits(s) as u32; let (n, t) = op16(s); simple(4, T::NewSessionTicket, v(3, vec![u32n(l), n]), H::NewSessionTicket(NewSessionTicketPayload::new(l, t.0)), "NewSessionTicket") }
        13 | 14 => {
            let (en, es, seen) = exts(s, 0, 6, server_ext);
            let (alpn, ..) = server_queries(&es, &seen);
            let mut q: Vec<Query> = vec![];
            queries!(q, H::EncryptedExtensions(x) => x, {
                "duplicate extensions" => |x: &EncryptedExtensions| x.has_duplicate_extension(), seen.dup();
                "alpn" => |x: &EncryptedExtensions| x.get_alpn_protocol().map(|a| a.to_vec()), alpn;
                "early data" => |x: &EncryptedExtensions| x.early_data_extension_offered(), seen.has(42);
            });
            Case { typ: 8, body: v(3, vec![en]), value: HandshakeMessagePayload { typ: T::EncryptedExtensions, payload: H::EncryptedExtensions(es) }, queries: q, refused: false, what: "EncryptedExtensions" }
        }
        15 => { let (t, x) = pick(s, KEY_UPDATE_REQUEST); simple(24, T::KeyUpdate, v(3, vec![b(vec![x])]), H::KeyUpdate(t), "KeyUpdate") }
        16 => { let x = opaque(s, 900); simple(20, T::Finished, loose(&x), H::Finished(Payload::new(x)), "Finished") }
        17 => { let x = opaque(s, 900); let bad = s.chance(1, 6); let t = if bad { [0u8, 2, 255][s.index(3)] } else { 1 }; Case { refused: bad, ..simple(22, T::CertificateStatus, v(3, vec![b(vec![t]), o(3, &x)]), H::CertificateStatus(CertificateStatus::new(x)), "CertificateStatus") } }
        18 => {
            // not legal on the wire
            let (t, x) = if s.chance(1, 2) { (T::MessageHash, 254u8) } else { (T::HelloRetryRequest, 6) };
            let p = opaque(s, 64);
            Case { refused: true, ..simple(x, t, loose(&p), H::Unknown(Payload::new(p)), "message illegal on the wire") }
        }
        _ => {
            let x = [3u8, 21, 23, 7, 9, 10, 17, 25, 100, 253, 255][s.index(11)];
            let t = HANDSHAKE_TYPE.iter().find(|e| e.1 == x).map(|e| e.0).unwrap_or(T::Unknown(x));
            let p = opaque(s, 900);
            simple(x, t, loose(&p), H::Unknown(Payload::new(p)), "unknown handshake message")
        }
    }
}
fn check(c: &Case, raw: &[u8], m: &Message, ver: ProtocolVersion) -> RunResult {
    let MessagePayload::Handshake(h) = &m.payload else { violate!("hs-kind", "not a handshake message") };
    ensure!(m.version == ver && m.payload.content_type() == ContentType::Handshake, "hs-kind", "version {:?} type {:?}", m.version, m.payload.content_type());
    ensure!(dbg(h) == dbg(&c.value), "hs-field", "a {} arrived as a different value: sent {:?}, got {:?}", c.what, c.value, h);
    let e = h.get_encoding();
    ensure!(e == raw, "hs-reencode", "a received {} re-encodes to different bytes: {} / {}", c.what, hex(raw), hex(&e));
    for (n, f) in &c.queries { ensure!(f(&h.payload), "hs-query", "the answer to \"{n}\" on a {} is not what the message says: {:?}", c.what, h); }
    ensure!(m.is_handshake_type(c.value.typ) && !m.is_handshake_type(HandshakeType::Unknown(77)), "hs-type", "a {} does not know its own type", c.what);
    if let HandshakePayload::ClientHello(ch) = &h.payload {
        // what binders sign: everything before the list of binders
        let binders = match ch.extensions.last() { Some(ClientExtension::PresharedKey(p)) => 2 + p.binders.iter().map(|b| 1 + b.0.len()).sum::<usize>(), _ => 0 };
        ensure!(h.get_encoding_for_binder_signing() == raw[..raw.len() - binders], "hs-binder", "the bytes a binder signs are not the hello up to its binders");
    } else {
        ensure!(h.get_encoding_for_binder_signing() == raw, "hs-binder", "the encoding for binder signing of a {} was cut", c.what);
    }
    Ok(())
}

pub fn r05_typed(sim: &Sim) -> RunResult {
    if sim.chance(1, 6) { return small(sim); }
    let v13 = sim.chance(1, 2);
    let ver = if v13 { ProtocolVersion::TLSv1_3 } else { ProtocolVersion::TLSv1_2 };
    let n = sim.range(1, 4) as usize;
    let mut cases: Vec<Case> = (0..n).map(|_| case(sim, v13)).collect();
    if sim.chance(2, 5) {
        // a peer that makes one structure a byte too long or too short
        let i = sim.index(n);
        let c = &mut cases[i];
        let mut paths = vec![];
        c.body.strict(&mut vec![], &mut paths);
        if !paths.is_empty() {
            let p = paths[sim.index(paths.len())].clone();
            if let N::V { pad, cut, kids, .. } = c.body.at(&p) {
                let mut inner = vec![];
                for k in kids.iter() { k.wire(&mut inner); }
                if *pad && (inner.is_empty() || !*cut || sim.chance(1, 2)) {
                    sim.fault("inner_structure_padded");
                    kids.push(b(vec![0xff]));
                    c.refused = true;
                } else if *cut && !inner.is_empty() {
                    sim.fault("inner_structure_shortened");
                    inner.pop();
                    *kids = vec![b(inner)];
                    c.refused = true;
                }
            }
        }
    } else if sim.chance(1, 10) {
        // oversized session id or an illegal host name
        let c = &mut cases[0];
        if c.typ <= 2 && c.typ > 0 {
            let N::V { kids, .. } = &mut c.body else { unreachable!() };
            let k = sim.range(33, 255) as usize;
            let x = sim.bytes(k);
            kids[2] = o(1, &x);
            c.refused = true;
            sim.fault("oversized_session_id");
        }
    }
    let mut raws: Vec<Vec<u8>> = vec![];
    for c in &cases {
        let mut r = vec![c.typ];
        c.body.wire(&mut r);
        raws.push(r);
    }
    let cases: Vec<(Case, Vec<u8>)> = cases.into_iter().zip(raws).filter(|(_, r)| r.len() < 65_000).collect();
    if cases.is_empty() { return Ok(()); }
    for (c, r) in &cases { ev!(sim, "send {} of {} bytes{}", c.what, r.len(), if c.refused { " (malformed)" } else { "" }); sim.state(simkit::rng::hash_bytes(c.refused as u64, c.what.as_bytes())); }
    // the library as sender
    for (c, r) in &cases {
        if c.refused { continue; }
        let e = c.value.get_encoding();
        ensure!(&e == r, "hs-encode", "a {} is sent as different bytes: expected {} got {}", c.what, hex(r), hex(&e));
    }
    let mut bytes = vec![];
    let mut ends = vec![];
    for (_, r) in &cases { bytes.extend(r); ends.push(bytes.len()); }
    let (stream, bounds) = records_of(sim, &bytes, &ends, ver.get_u16());
    sim.stat_nontrivial();
    let (recs, _) = deliver(sim, stream, bounds)?;
    let good = cases.iter().position(|(c, _)| c.refused).unwrap_or(cases.len());
    let mut j = HandshakeJoiner::new();
    let mut out = 0;
    let mut dead = false;
    for r in recs {
        dead = j.take_message(r.into_plain_message()).is_none();
        while let Some(m) = j.frames.pop_front() {
            ensure!(out < good, "malformed-accepted", "a malformed {} was accepted: {} as {:?}", cases[out].0.what, hex(&cases[out].1), m.payload);
            check(&cases[out].0, &cases[out].1, &m, ver)?;
            out += 1;
        }
        if dead { break; }
    }
    ensure!(out == good, "refused-valid", "a well-formed {} was refused: {:?}", cases[out].0.what, cases[out].0.value);
    ensure!(dead == (good < cases.len()), "malformed-accepted", "the flight was {} although it is {}", if dead { "refused" } else { "accepted" }, if dead { "well-formed" } else { "malformed" });
    if dead { sim.probe("flight_rejected"); } else { sim.probe("flight_typed"); }
    // the same through the one-message decoder
    let (c, r) = &cases[sim.index(cases.len())];
    let mut body = r.clone();
    let extra = sim.chance(1, 3);
    if extra { body.push(0); sim.fault("trailing_byte_after_message"); }
    let m = Message::try_from(PlainMessage { typ: ContentType::Handshake, version: ver, payload: Payload::new(body) });
    // (the version a record claims decides between the two layouts)
    match m {
        Ok(m) => {
            ensure!(!c.refused && !extra, "malformed-accepted", "a {} {} was accepted", c.what, if extra { "followed by a stray byte" } else { "that is malformed" });
            check(c, r, &m, ver)?;
        }
        Err(e) => ensure!(c.refused || extra, "refused-valid", "a well-formed {} was refused alone: {e:?}", c.what),
    }
    Ok(())
}

/// Alerts, change-cipher-spec, application data, and values around the codec.
fn small(sim: &Sim) -> RunResult {
    sim.stat_nontrivial();
    let ver = [ProtocolVersion::TLSv1_2, ProtocolVersion::TLSv1_3][sim.index(2)];
    let read = |typ, body: &[u8]| Message::try_from(PlainMessage { typ, version: ver, payload: Payload::new(body.to_vec()) });
    match sim.pick(8) {
        0 => {
            let (l, lx) = pick(sim, ALERT_LEVEL);
            let (d, dx) = pick(sim, ALERT_DESCRIPTION);
            let m = Message::build_alert(l, d);
            let p = PlainMessage::from(m);
            ensure!(p.typ == ContentType::Alert && p.payload.0 == [lx, dx], "alert-encode", "alert {l:?}/{d:?} sent as {:?}", p);
            match read(ContentType::Alert, &[lx, dx]) {
                Ok(Message { payload: MessagePayload::Alert(AlertMessagePayload { level, description }), .. }) => ensure!(level == l && description == d, "alert-decode", "alert {lx}/{dx} read as {level:?}/{description:?}"),
                x => violate!("alert-decode", "alert {lx}/{dx} read as {x:?}"),
            }
            sim.fault("trailing_byte_after_message");
            for bad in [vec![], vec![lx], vec![lx, dx, 0]] { ensure!(read(ContentType::Alert, &bad).is_err(), "malformed-accepted", "an alert of {} bytes was accepted", bad.len()); }
        }
        1 => {
            let p = PlainMessage::from(Message { version: ver, payload: MessagePayload::ChangeCipherSpec(ChangeCipherSpecPayload {}) });
            ensure!(p.typ == ContentType::ChangeCipherSpec && p.payload.0 == [1], "ccs-encode", "change_cipher_spec sent as {p:?}");
            let ok = read(ContentType::ChangeCipherSpec, &[1]);
            ensure!(matches!(&ok, Ok(m) if m.payload.content_type() == ContentType::ChangeCipherSpec), "ccs-decode", "change_cipher_spec read as {ok:?}");
            let x = bits(sim) as u8;
            for bad in [vec![], vec![1, x], vec![x], vec![x, 1]] {
                if bad == [1] { continue; }
                ensure!(read(ContentType::ChangeCipherSpec, &bad).is_err(), "malformed-accepted", "{bad:?} was accepted as change_cipher_spec");
            }
        }
        2 => {
            let x = opaque(sim, 3000);
            let m = read(ContentType::ApplicationData, &x);
            ensure!(matches!(&m, Ok(Message { payload: MessagePayload::ApplicationData(p), .. }) if p.0 == x), "appdata", "application data altered by the decoder");
            let m = m.unwrap();
            ensure!(m.payload.content_type() == ContentType::ApplicationData && !m.is_handshake_type(HandshakeType::Finished), "appdata", "application data takes itself for {:?}", m.payload.content_type());
            let mut e = vec![];
            m.payload.encode(&mut e);
            ensure!(e == x && PlainMessage::from(m).payload.0 == x, "appdata", "application data altered by the encoder");
            ensure!(read(ContentType::Heartbeat, &x).is_err(), "malformed-accepted", "a heartbeat was decoded");
        }
        3 => {
            // a certificate list of at most 64 KiB
            let over = sim.chance(1, 2);
            let total = 0x10000 + over as usize;
            let mut r = vec![11u8];
            let der = sim.bytes(300);
            let mut d = vec![0u8; total - 3];
            d[..300].copy_from_slice(&der);
            v(3, vec![v(3, vec![o(3, &d)])]).wire(&mut r);
            let h = HandshakeMessagePayload::read_version(&mut Reader::init(&r), ProtocolVersion::TLSv1_2);
            if over { sim.fault("certificate_list_too_long"); ensure!(h.is_none(), "oversize-accepted", "a certificate list of {total} bytes was accepted"); }
            else { ensure!(h.is_some_and(|h| h.get_encoding() == r), "refused-valid", "a certificate list of {total} bytes was refused"); }
        }
        4 => {
            let (_, k) = keyshare(sim);
            let (g, p) = (k.group, k.payload.0.clone());
            let pk = tls_core::key::PublicKey::from(k);
            ensure!(pk.group == g && pk.key == p && pk == tls_core::key::PublicKey::new(g, &p), "key-share", "a key share of {} bytes of {g:?} became {} bytes of {:?}", p.len(), pk.key.len(), pk.group);
            let x = bits(sim);
            let mut e = vec![];
            x.encode(&mut e);
            ensure!(e == x.to_be_bytes() && u64::read_bytes(&e) == Some(x) && u64::read_bytes(&e[..7]).is_none(), "codec", "64-bit integer {x} coded as {e:?}");
            let h = opaque(sim, 64);
            let m = HandshakeMessagePayload::build_handshake_hash(&h);
            let mut w = vec![254u8];
            loose(&h).wire(&mut w);
            ensure!(m.get_encoding() == w, "hs-encode", "the synthetic hash message is {}", hex(&m.get_encoding()));
            let k = HandshakeMessagePayload::build_key_update_notify().get_encoding();
            ensure!(k == [24, 0, 0, 1, 0], "hs-encode", "key update notification is {}", hex(&k));
        }
        5 => {
            // two session ids are equal exactly when their bytes are
            let (_, a) = sid(sim);
            let ea = a.get_encoding();
            let mut eb = ea.clone();
            if sim.chance(2, 3) {
                if eb.len() > 1 && sim.chance(2, 3) { let i = 1 + sim.index(eb.len() - 1); eb[i] ^= 1 << sim.index(8); }
                else if eb[0] < 32 { eb[0] += 1; eb.push(0); } else { eb[0] -= 1; eb.pop(); }
            }
            let c = SessionID::read_bytes(&eb).expect("session id");
            ensure!((a == c) == (ea == eb), "session-id", "ids {} and {} compare as equal={}", hex(&ea), hex(&eb), a == c);
            ensure!(SessionID::empty().is_empty() && SessionID::empty().get_encoding() == [0], "session-id", "empty id");
        }
        6 => {
            // a name with a trailing dot is sent without it; names are encoded whole
            let h = host(sim);
            let dot = sim.chance(1, 2);
            let q = if dot { format!("{h}.") } else { h.clone() };
            let sn = tls_core::dns::ServerName::try_from(q.as_str()).expect("host name");
            let e = sn.encode();
            ensure!(e[0] == 1 && e[1] as usize == q.len() && e[2..] == *q.as_bytes(), "name-encode", "{q} encoded as {}", hex(&e));
            let ClientExtension::ServerName(l) = ClientExtension::make_sni(sn.for_sni().expect("dns name")) else { violate!("sni", "not a server name extension") };
            ensure!(l.len() == 1 && l.get_single_hostname().is_some_and(|x| x.as_ref() == h) && l[0].typ == ServerNameType::HostName, "sni", "{q} is requested as {l:?}");
            let bad = h.clone() + ["!", " ", "\u{e9}", "..", "_@"][sim.index(5)] + "x";
            ensure!(tls_core::dns::ServerName::try_from(bad.as_str()).is_err(), "name-accepted", "{bad:?} was accepted as a host name");
            // and on the wire
            sim.fault("illegal_host_name");
            let mut r = vec![];
            u16n(0).wire(&mut r);
            v(2, vec![v(2, vec![b(vec![0]), o(2, bad.as_bytes())])]).wire(&mut r);
            ensure!(ClientExtension::read_bytes(&r).is_none(), "malformed-accepted", "the server name {bad:?} was accepted from the wire");
        }
        _ => {
            let names: Vec<Vec<u8>> = (0..sim.pick(4)).map(|_| opaque(sim, 60)).collect();
            let r: Vec<&[u8]> = names.iter().map(|x| x.as_slice()).collect();
            let ServerExtension::Protocols(l) = ServerExtension::make_alpn(&r) else { violate!("alpn", "not an alpn extension") };
            ensure!(l.to_slices() == r && l.as_single_slice() == if r.len() == 1 { Some(r[0]) } else { None }, "alpn", "protocols {r:?} became {l:?}");
            let e = ServerExtension::make_empty_renegotiation_info().get_encoding();
            ensure!(e == [0xff, 1, 0, 1, 0], "renegotiation-info", "empty renegotiation info is {}", hex(&e));
            let (n, t) = list16(sim, 0, 4, op16);
            let mut raw = vec![];
            n.wire(&mut raw);
            ensure!(dbg(ServerExtension::make_sct(raw.clone())) == dbg(ServerExtension::SignedCertificateTimestamp(t.clone())), "sct", "stapled timestamps altered");
            let CertificateExtension::SignedCertificateTimestamp(x) = CertificateExtension::make_sct(raw) else { violate!("sct", "not a timestamp list") };
            ensure!(dbg(x) == dbg(t), "sct", "stapled timestamps altered");
            let rr = rnd(sim);
            let mut o32 = [0u8; 32];
            rr.write_slice(&mut o32);
            ensure!(o32 == rr.0, "random", "write_slice altered a random");
        }
    }
    Ok(())
}
