//! Independent description of the TLS wire format: a generator of handshake
//! messages as raw bytes together with the values they carry, and a reference
//! record parser.  Shares no code with /repo.
use simkit::Sim;

pub const MAX_REC_PAYLOAD: usize = 16384 + 2048; // exclusive upper bound
pub const MAX_WIRE: usize = MAX_REC_PAYLOAD + 5;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rec {
    pub typ: u8,
    pub ver: u16,
    pub payload: Vec<u8>,
}
impl Rec {
    pub fn wire(&self) -> Vec<u8> {
        let mut v = vec![self.typ, (self.ver >> 8) as u8, self.ver as u8, (self.payload.len() >> 8) as u8, self.payload.len() as u8];
        v.extend_from_slice(&self.payload);
        v
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tail {
    /// Bytes left that do not yet form a record.
    Partial(usize),
    /// A malformed record starts here.
    Bad(usize),
}

/// Reference parser: the records at the front of `b`, and what follows.
pub fn parse(b: &[u8]) -> (Vec<Rec>, Tail) {
    let mut out = vec![];
    let mut p = 0;
    loop {
        if b.len() - p < 5 {
            return (out, Tail::Partial(b.len() - p));
        }
        let typ = b[p];
        let ver = u16::from_be_bytes([b[p + 1], b[p + 2]]);
        let len = u16::from_be_bytes([b[p + 3], b[p + 4]]) as usize;
        let known = (20..=24).contains(&typ);
        if !known || (ver >> 8) != 3 || len >= MAX_REC_PAYLOAD || (len == 0 && typ != 23) {
            return (out, Tail::Bad(b.len() - p));
        }
        if b.len() - p - 5 < len {
            return (out, Tail::Partial(b.len() - p));
        }
        out.push(Rec { typ, ver, payload: b[p + 5..p + 5 + len].to_vec() });
        p += 5 + len;
    }
}

fn u8v(b: &[u8]) -> Vec<u8> { let mut v = vec![b.len() as u8]; v.extend_from_slice(b); v }
fn u16v(b: &[u8]) -> Vec<u8> { let mut v = (b.len() as u16).to_be_bytes().to_vec(); v.extend_from_slice(b); v }
fn u24v(b: &[u8]) -> Vec<u8> { let mut v = (b.len() as u32).to_be_bytes()[1..].to_vec(); v.extend_from_slice(b); v }
fn be16(x: u16) -> [u8; 2] { x.to_be_bytes() }

#[derive(Clone, Debug, Default)]
pub struct ChVals {
    pub version: u16,
    pub random: [u8; 32],
    pub session: Vec<u8>,
    pub suites: Vec<u16>,
    pub comp: Vec<u8>,
    pub ext_types: Vec<u16>,
    pub sni: Option<String>,
    pub sigalgs: Option<Vec<u16>>,
    pub groups: Option<Vec<u16>>,
    pub alpn: Option<Vec<Vec<u8>>>,
    pub ticket: Option<Vec<u8>>,
}
#[derive(Clone, Debug, Default)]
pub struct ShVals {
    pub version: u16,
    pub random: [u8; 32],
    pub session: Vec<u8>,
    pub suite: u16,
    pub comp: u8,
    pub ext_types: Vec<u16>,
    pub alpn: Option<Vec<u8>>,
    pub scts: Option<Vec<Vec<u8>>>,
    pub ems: bool,
}
/// What a handshake message carries.
#[derive(Clone, Debug)]
pub enum Vals {
    HelloRequest,
    ClientHello(Box<ChVals>),
    ServerHello(Box<ShVals>),
    Certificate(Vec<Vec<u8>>),
    Ske { group: u16, public: Vec<u8>, scheme: u16, sig: Vec<u8> },
    CertReq { types: Vec<u8>, schemes: Vec<u16>, names: Vec<Vec<u8>> },
    Done,
    CertVerify { scheme: u16, sig: Vec<u8> },
    Cke(Vec<u8>),
    Finished(Vec<u8>),
    Ocsp(Vec<u8>),
    Ticket { lifetime: u32, ticket: Vec<u8> },
    Unknown(u8, Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct Hs {
    pub raw: Vec<u8>,
    pub vals: Vals,
}

fn rnd32(s: &Sim) -> [u8; 32] { s.bytes(32).try_into().unwrap() }
fn host(s: &Sim) -> String {
    let n = s.range(1, 4);
    let mut parts = vec![];
    for _ in 0..n {
        let l = s.range(1, 12);
        let b = s.bytes(l as usize);
        parts.push(b.iter().map(|c| (b'a' + c % 26) as char).collect::<String>());
    }
    parts.push("test".into());
    parts.join(".")
}
/// How many entries a list has: mostly a few, now and then far more.
fn count(s: &Sim, lo: u64, hi: u64) -> u64 { if lo < hi && s.chance(1, 40) { s.probe("long_list"); s.range(hi, hi * 40) } else { s.range(lo, hi) } }
fn u16list(s: &Sim, lo: u64, hi: u64) -> Vec<u16> {
    let n = count(s, lo, hi);
    let b = s.bytes(n as usize * 2);
    b.chunks(2).map(|c| {
        let v = u16::from_be_bytes([c[0], c[1]]);
        // A mix of registered and unregistered values.
        if c[0] & 1 == 0 { [0x0403, 0x0804, 0x0401, 0xc02f, 0xc02b, 0x0017, 0x001d, 0x0018, 0x0807, 0x0503][(v % 10) as usize] } else { v }
    }).collect()
}
fn cat16(v: &[u16]) -> Vec<u8> { v.iter().flat_map(|x| be16(*x)).collect() }

pub fn gen_hs(s: &Sim, max: u64) -> Hs {
    let k = s.weighted(&[4, 2, 3, 4, 3, 2, 2, 2, 3, 3, 2, 2, 2]);
    let (typ, body, vals) = match k {
        0 => { let l = s.size(max.min(64)); let d = s.bytes(l as usize); (20u8, d.clone(), Vals::Finished(d)) }
        1 => (0, vec![], Vals::HelloRequest),
        2 => {
            let mut c = ChVals { version: [0x0303, 0x0301][s.index(2)], random: rnd32(s), ..Default::default() };
            let sl = [0u64, 32, s.pick(33)][s.index(3)];
            c.session = s.bytes(sl as usize);
            c.suites = u16list(s, 1, 12);
            c.comp = { let n = count(s, 1, 3); let mut v = vec![0u8]; v.extend(s.bytes(n as usize - 1)); v };
            let mut exts: Vec<u8> = vec![];
            let n = s.range(1, 7);
            let mut seen = vec![];
            for _ in 0..n {
                let (t, body): (u16, Vec<u8>) = match s.pick(12) {
                    0 => { let h = host(s); c.sni = Some(h.clone()); let mut e = vec![0u8]; e.extend(u16v(h.as_bytes())); (0, u16v(&e)) }
                    1 => { let v = u16list(s, 1, 8); let b = u16v(&cat16(&v)); c.sigalgs = Some(v); (13, b) }
                    2 => { let v = u16list(s, 1, 8); let b = u16v(&cat16(&v)); c.groups = Some(v); (10, b) }
                    3 => { let m = count(s, 1, 3); let mut v = vec![]; let mut b = vec![]; for _ in 0..m { let l = s.range(1, 8); let x = s.bytes(l as usize); b.extend(u8v(&x)); v.push(x); } c.alpn = Some(v); (16, u16v(&b)) }
                    4 => (23, vec![]),
                    5 => (18, vec![]),
                    6 => { let mut b = vec![1u8]; b.extend(u16v(&[])); b.extend(u16v(&[])); (5, b) }
                    7 => (11, u8v(&[0])),
                    8 => { let l = s.size(max.min(600)); let x = s.bytes(l as usize); c.ticket = Some(x.clone()); (35, x) }
                    9 => { let m = s.range(1, 3); let v: Vec<u16> = u16list(s, m, m); (43, u8v(&cat16(&v))) }
                    10 => { let l = s.size(max.min(300)); let t = 0x4000 + s.pick(0x100) as u16; (t, s.bytes(l as usize)) }
                    _ => { let l = s.size(200); (0xff01, { let x = s.bytes(l as usize); u8v(&x) }) }
                };
                if seen.contains(&t) {
                    // keep extension types distinct: undo nothing, just skip
                    // (values of a skipped duplicate must not be expected)
                    match t { 0 => c.sni = None, 13 => c.sigalgs = None, 10 => c.groups = None, 16 => c.alpn = None, 35 => c.ticket = None, _ => {} }
                    let first = find_ext(&exts, t);
                    restore(&mut c, t, &first);
                    continue;
                }
                seen.push(t);
                exts.extend(be16(t));
                exts.extend(u16v(&body));
            }
            if s.chance(1, 20) {
                s.probe("long_list");
                for i in 0..s.range(20, 500) as u16 {
                    seen.push(0x4100 + i);
                    exts.extend(be16(0x4100 + i));
                    let l = s.pick(4);
                    exts.extend(u16v(&s.bytes(l as usize)));
                }
            }
            c.ext_types = seen;
            let mut b = be16(c.version).to_vec();
            b.extend(c.random);
            b.extend(u8v(&c.session));
            b.extend(u16v(&cat16(&c.suites)));
            b.extend(u8v(&c.comp));
            b.extend(u16v(&exts));
            (1, b, Vals::ClientHello(Box::new(c)))
        }
        3 => {
            let mut c = ShVals { version: 0x0303, random: rnd32(s), ..Default::default() };
            let sl = [0u64, 32, s.pick(33)][s.index(3)];
            c.session = s.bytes(sl as usize);
            c.suite = u16list(s, 1, 1)[0];
            c.comp = 0;
            let mut exts = vec![];
            let n = s.range(0, 5);
            let mut seen = vec![];
            for _ in 0..n {
                let t: u16 = [0xff01, 16, 18, 23, 35, 5, 11, 0, 0x5a5a][s.index(9)];
                if seen.contains(&t) { continue; }
                let body = match t {
                    0xff01 => u8v(&[]),
                    16 => { let l = s.range(1, 10); let x = s.bytes(l as usize); let b = u16v(&u8v(&x)); c.alpn = Some(x); b }
                    18 => { let m = s.range(1, 4); let mut v = vec![]; let mut b = vec![]; for _ in 0..m { let l = s.range(1, 120); let x = s.bytes(l as usize); b.extend(u16v(&x)); v.push(x); } c.scts = Some(v); u16v(&b) }
                    23 => { c.ems = true; vec![] }
                    11 => u8v(&[0]),
                    0x5a5a => { let l = s.size(64); s.bytes(l as usize) }
                    _ => vec![],
                };
                seen.push(t);
                exts.extend(be16(t));
                exts.extend(u16v(&body));
            }
            c.ext_types = seen;
            let mut b = be16(c.version).to_vec();
            b.extend(c.random);
            b.extend(u8v(&c.session));
            b.extend(be16(c.suite));
            b.push(c.comp);
            b.extend(u16v(&exts));
            (2, b, Vals::ServerHello(Box::new(c)))
        }
        4 => {
            let n = count(s, 0, 4);
            let mut v = vec![];
            let mut b = vec![];
            for _ in 0..n {
                let l = s.size(max.min(if n > 4 { 200 } else { 12_000 }));
                let x = s.bytes(l as usize);
                b.extend(u24v(&x));
                v.push(x);
            }
            (11, u24v(&b), Vals::Certificate(v))
        }
        5 => {
            let group = [0x0017u16, 0x001d, 0x0018, 0x0100][s.index(4)];
            let l = [65u64, 32, s.pick(256)][s.index(3)];
            let public = s.bytes(l as usize);
            let scheme = u16list(s, 1, 1)[0];
            let sl = s.size(600);
            let sig = s.bytes(sl as usize);
            let mut b = vec![3u8];
            b.extend(be16(group));
            b.extend(u8v(&public));
            b.extend(be16(scheme));
            b.extend(u16v(&sig));
            (12, b, Vals::Ske { group, public, scheme, sig })
        }
        6 => {
            let n = count(s, 1, 3);
            let types = s.bytes(n as usize);
            let schemes = u16list(s, 1, 6);
            let n = count(s, 0, 3);
            let mut names = vec![];
            let mut nb = vec![];
            for _ in 0..n { let l = s.range(1, 90); let x = s.bytes(l as usize); nb.extend(u16v(&x)); names.push(x); }
            let mut b = u8v(&types);
            b.extend(u16v(&cat16(&schemes)));
            b.extend(u16v(&nb));
            (13, b, Vals::CertReq { types, schemes, names })
        }
        7 => (14, vec![], Vals::Done),
        8 => { let scheme = u16list(s, 1, 1)[0]; let l = s.size(600); let sig = s.bytes(l as usize); let mut b = be16(scheme).to_vec(); b.extend(u16v(&sig)); (15, b, Vals::CertVerify { scheme, sig }) }
        9 => { let l = s.size(max.min(300)); let d = s.bytes(l as usize); (16, d.clone(), Vals::Cke(d)) }
        10 => { let l = s.size(max.min(5000)); let d = s.bytes(l as usize); let mut b = vec![1u8]; b.extend(u24v(&d)); (22, b, Vals::Ocsp(d)) }
        11 => { let lifetime = s.pick(1 << 32) as u32; let l = s.size(max.min(2000)); let t = s.bytes(l as usize); let mut b = lifetime.to_be_bytes().to_vec(); b.extend(u16v(&t)); (4, b, Vals::Ticket { lifetime, ticket: t }) }
        _ => { let typ = [99u8, 3, 21, 23, 67, 200][s.index(6)]; let l = s.size(max); let d = s.bytes(l as usize); (typ, d.clone(), Vals::Unknown(typ, d)) }
    };
    let mut raw = vec![typ];
    raw.extend(u24v(&body));
    Hs { raw, vals }
}

fn find_ext(exts: &[u8], t: u16) -> Vec<u8> {
    let mut p = 0;
    while p + 4 <= exts.len() {
        let et = u16::from_be_bytes([exts[p], exts[p + 1]]);
        let l = u16::from_be_bytes([exts[p + 2], exts[p + 3]]) as usize;
        if et == t { return exts[p + 4..p + 4 + l].to_vec(); }
        p += 4 + l;
    }
    vec![]
}
fn restore(c: &mut ChVals, t: u16, b: &[u8]) {
    let list16 = |b: &[u8]| b[2..].chunks(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect::<Vec<_>>();
    match t {
        0 => c.sni = Some(String::from_utf8(b[5..].to_vec()).unwrap()),
        13 => c.sigalgs = Some(list16(b)),
        10 => c.groups = Some(list16(b)),
        16 => {
            let mut v = vec![];
            let mut p = 2;
            while p < b.len() { let l = b[p] as usize; v.push(b[p + 1..p + 1 + l].to_vec()); p += 1 + l; }
            c.alpn = Some(v);
        }
        35 => c.ticket = Some(b.to_vec()),
        _ => {}
    }
}
