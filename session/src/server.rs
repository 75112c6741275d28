//! A TLS 1.2 server (ECDHE over P-256, AES-128-GCM) written against the RFCs,
//! driven by a script, and keeping the ground truth of what was exchanged.
use crate::certs::{Key, Kt};
use futures::io::{AsyncReadExt, AsyncWriteExt};
use ring::{aead, agreement, digest, hmac};
use simkit::exec::Exec;
use simkit::net::End;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Act {
    /// Wait until this many application bytes arrived in total.
    Recv(usize),
    /// Wait for a whole HTTP request.
    Request,
    /// Application data, split into records of at most this size.
    Send(Vec<u8>, usize),
    /// Flip a bit of the next protected record after sealing it.
    Corrupt,
    /// An empty application record.
    Empty,
    CloseNotify,
    Alert(u8, u8),
    HelloRequest,
    /// A protected record of any type and content.
    Record(u8, Vec<u8>),
    /// A record nobody sealed.
    Garbage(Vec<u8>),
    Sleep(u64),
    /// Read until the client says goodbye.
    WaitClose,
    /// Read until the client closes its socket.
    WaitEof,
    /// The first part of a record carrying this data, and no more.
    Truncated(Vec<u8>),
    /// Close the write half only.
    HalfClose,
}

/// One way in which the server departs from the usual handshake.  Positions
/// count the messages of its first flight (hello, certificate, key exchange,
/// [certificate request], done).
#[derive(Clone, Debug, PartialEq)]
pub enum Odd {
    Drop(usize),
    Double(usize),
    /// Message i and the one behind it change places.
    Swap(usize),
    /// Another handshake message before message i.
    Insert(usize, u8),
    /// A byte too many inside message i.
    Slack(usize),
    /// A byte too few inside message i.
    Short(usize),
    Compression(u8),
    /// Extra extensions of the server hello.
    Exts(Vec<(u16, Vec<u8>)>),
    /// A record of this type and content before message i.
    Record(usize, u8, Vec<u8>),
    /// A record of this type and content right before the final
    /// change of cipher, and right behind it.
    BeforeCcs(u8, Vec<u8>),
    BehindCcs(u8, Vec<u8>),
    NoCcs,
    Ccs(Vec<u8>),
    /// The first bytes of Finished travel in the clear.
    Misaligned(usize),
    /// Signed by another key.
    OtherKey,
    /// Signed for other hello randoms.
    Stale,
    /// The signature claims another scheme.
    Label(u16),
    SessionId(usize),
    /// Answers the status request and staples this.
    Staple(Vec<u8>),
    /// The random says that the server could do TLS 1.3.
    Downgrade,
    /// Finished protected under the wrong sequence number.
    FinishedSeq,
    /// Finished with this many bytes of verify data.
    FinishedLen(usize),
    /// The client's own Finished sent back.
    FinishedEcho,
}

#[derive(Clone)]
pub struct Cfg {
    pub odd: Option<Odd>,
    pub ems: bool,
    /// Damage the Finished record on its way.
    pub corrupt_finished: bool,
    pub chain: Vec<Vec<u8>>,
    pub key: Rc<Key>,
    pub scheme: u16,
    pub suite: u16,
    pub script: Vec<Act>,
    /// Largest fragment of a handshake record.
    pub hs_frag: usize,
    /// All messages of a flight in one record, when they fit.
    pub coalesce: bool,
    pub ticket: bool,
    pub client_auth: bool,
    pub random_nonce: bool,
    pub bad_finished: bool,
    pub bad_sig: bool,
    /// Ephemeral key bytes sent instead of a real one.
    pub bad_point: Option<Vec<u8>>,
    pub curve: u16,
    pub version: u16,
}

/// The certificates of a Certificate message.
fn certificates(mut b: &[u8]) -> Option<Vec<Vec<u8>>> {
    fn take<'a>(b: &mut &'a [u8]) -> Option<&'a [u8]> {
        let n = u32::from_be_bytes([0, *b.first()?, *b.get(1)?, *b.get(2)?]) as usize;
        let r = b.get(3..3 + n)?;
        *b = &b[3 + n..];
        Some(r)
    }
    let mut l = take(&mut b)?;
    let mut out = vec![];
    while !l.is_empty() { out.push(take(&mut l)?.to_vec()) }
    b.is_empty().then_some(out)
}
/// Whether a CertificateVerify message proves the possession of the key.
fn proves(cert: &[u8], b: &[u8], signed: &[u8]) -> bool {
    let der = rustls_pki_types::CertificateDer::from(cert);
    let (Ok(cert), [s1, s2, n1, n2, sig @ ..]) = (webpki::EndEntityCert::try_from(&der), b) else { return false };
    let alg = match u16::from_be_bytes([*s1, *s2]) {
        0x0403 => webpki::ring::ECDSA_P256_SHA256,
        0x0804 => webpki::ring::RSA_PSS_2048_8192_SHA256_LEGACY_KEY,
        0x0401 => webpki::ring::RSA_PKCS1_2048_8192_SHA256,
        0x0807 => webpki::ring::ED25519,
        _ => return false,
    };
    usize::from(u16::from_be_bytes([*n1, *n2])) == sig.len() && cert.verify_signature(alg, signed, sig).is_ok()
}

#[derive(Default, Debug, Clone)]
pub struct Log {
    pub client_random: Vec<u8>,
    pub server_random: Vec<u8>,
    pub offered: Vec<u16>,
    pub sni: Vec<u8>,
    pub spoint: Vec<u8>,
    pub handshake_done: bool,
    pub client_finished_ok: bool,
    pub recv: Vec<u8>,
    pub sent: Vec<u8>,
    /// Protected records as opened or sealed by the server, Finished first.
    pub recv_records: Vec<(u8, Vec<u8>)>,
    pub sent_records: Vec<(u8, Vec<u8>)>,
    pub close_notify: bool,
    pub alert: Option<(u8, u8)>,
    pub eof: bool,
    pub script_done: bool,
    /// Virtual time at the end of each action.
    pub script_at: Vec<u64>,
    pub error: Option<String>,
    pub time: u64,
    pub key_block: Vec<u8>,
    pub ms: Vec<u8>,
    pub client_cert: bool,
    /// The chain the client presented.
    pub client_chain: Vec<Vec<u8>>,
    pub corrupted: bool,
    /// Where in the stream, and which bit.
    pub damage: Option<(usize, u8)>,
    pub ems: bool,
    /// The extensions the client offered.
    pub exts: Vec<u16>,
    /// The planned oddity was possible.
    pub odd_done: bool,
}

pub fn prf(secret: &[u8], label: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    let k = hmac::Key::new(hmac::HMAC_SHA256, secret);
    let ls = [label, seed].concat();
    let mut a = hmac::sign(&k, &ls).as_ref().to_vec();
    let mut out = vec![];
    while out.len() < n {
        out.extend_from_slice(hmac::sign(&k, &[&a[..], &ls].concat()).as_ref());
        a = hmac::sign(&k, &a).as_ref().to_vec();
    }
    out.truncate(n);
    out
}
pub fn sha256(b: &[u8]) -> Vec<u8> { digest::digest(&digest::SHA256, b).as_ref().to_vec() }

pub struct Cipher { key: aead::LessSafeKey, iv: [u8; 4], pub seq: u64 }
impl Cipher {
    pub fn new(key: &[u8], iv: &[u8]) -> Self {
        Cipher { key: aead::LessSafeKey::new(aead::UnboundKey::new(&aead::AES_128_GCM, key).unwrap()), iv: iv.try_into().unwrap(), seq: 0 }
    }
    fn parts(&self, nonce: &[u8], ty: u8, len: usize) -> (aead::Nonce, aead::Aad<Vec<u8>>) {
        let n: [u8; 12] = [&self.iv[..], nonce].concat().try_into().unwrap();
        let mut aad = self.seq.to_be_bytes().to_vec();
        aad.extend([ty, 3, 3]);
        aad.extend((len as u16).to_be_bytes());
        (aead::Nonce::assume_unique_for_key(n), aead::Aad::from(aad))
    }
    pub fn seal(&mut self, ty: u8, nonce: [u8; 8], data: &[u8]) -> Vec<u8> {
        let (n, aad) = self.parts(&nonce, ty, data.len());
        let mut b = data.to_vec();
        self.key.seal_in_place_append_tag(n, aad, &mut b).unwrap();
        self.seq += 1;
        [&nonce[..], &b].concat()
    }
    pub fn open(&mut self, ty: u8, body: &[u8]) -> Option<Vec<u8>> {
        if body.len() < 24 { return None }
        let (n, aad) = self.parts(&body[..8], ty, body.len() - 24);
        let mut b = body[8..].to_vec();
        let l = self.key.open_in_place(n, aad, &mut b).ok()?.len();
        b.truncate(l);
        self.seq += 1;
        Some(b)
    }
}

struct Conn {
    io: End,
    tx: Option<Cipher>,
    rx: Option<Cipher>,
    cfg: Cfg,
    sim: simkit::Sim,
    transcript: Vec<u8>,
    hs_in: Vec<u8>,
    corrupt: bool,
    /// Bytes written so far.
    off: usize,
    log: Rc<RefCell<Log>>,
}
type R<T> = Result<T, String>;
fn s<E: std::fmt::Display>(e: E) -> String { e.to_string() }

impl Conn {
    async fn put(&mut self, ty: u8, data: &[u8]) -> R<()> {
        let body = match &mut self.tx {
            None => data.to_vec(),
            Some(c) => {
                let nonce = if self.cfg.random_nonce { self.sim.bytes(8).try_into().unwrap() } else { c.seq.to_be_bytes() };
                self.log.borrow_mut().sent_records.push((ty, data.to_vec()));
                let mut b = c.seal(ty, nonce, data);
                if self.corrupt {
                    self.corrupt = false;
                    let i = self.sim.index(b.len());
                    let mask = 1 << self.sim.pick(8);
                    b[i] ^= mask;
                    self.sim.fault("server_record_damaged");
                    let mut l = self.log.borrow_mut();
                    l.corrupted = true;
                    l.damage = Some((self.off + 5 + i, mask));
                }
                b
            }
        };
        let mut r = vec![ty];
        r.extend([3, 3]);
        r.extend((body.len() as u16).to_be_bytes());
        r.extend(body);
        self.off += r.len();
        self.io.write_all(&r).await.map_err(s)?;
        self.io.flush().await.map_err(s)
    }
    async fn record(&mut self) -> R<Option<(u8, Vec<u8>)>> {
        let mut h = [0u8; 5];
        let mut at = 0;
        while at < 5 {
            let n = self.io.read(&mut h[at..]).await.map_err(s)?;
            if n == 0 {
                self.log.borrow_mut().eof = true;
                return if at == 0 { Ok(None) } else { Err("eof within a record".into()) };
            }
            at += n;
        }
        let len = u16::from_be_bytes([h[3], h[4]]) as usize;
        let mut b = vec![0; len];
        self.io.read_exact(&mut b).await.map_err(s)?;
        if let (Some(c), true) = (&mut self.rx, h[0] != 20) {
            b = c.open(h[0], &b).ok_or("client record does not authenticate")?;
            self.log.borrow_mut().recv_records.push((h[0], b.clone()));
        }
        Ok(Some((h[0], b)))
    }
    async fn hs_msg(&mut self) -> R<(u8, Vec<u8>)> {
        loop {
            if self.hs_in.len() >= 4 {
                let l = u32::from_be_bytes([0, self.hs_in[1], self.hs_in[2], self.hs_in[3]]) as usize;
                if self.hs_in.len() >= 4 + l {
                    let m: Vec<u8> = self.hs_in.drain(..4 + l).collect();
                    if m[0] != 20 { self.transcript.extend_from_slice(&m) }
                    return Ok((m[0], m[4..].to_vec()));
                }
            }
            match self.record().await? {
                Some((22, b)) => self.hs_in.extend(b),
                Some((21, b)) if b.len() == 2 => {
                    self.log.borrow_mut().alert = Some((b[0], b[1]));
                    return Err(format!("client alert {b:?}"));
                }
                Some((t, _)) => return Err(format!("unexpected record type {t}")),
                None => return Err("eof in handshake".into()),
            }
        }
    }
    async fn flight(&mut self, msgs: &[Vec<u8>]) -> R<()> {
        for m in msgs { self.transcript.extend_from_slice(m) }
        let parts: Vec<Vec<u8>> = if self.cfg.coalesce { vec![msgs.concat()] } else { msgs.to_vec() };
        for p in parts { for c in p.chunks(self.cfg.hs_frag) { self.put(22, c).await? } }
        Ok(())
    }
    /// Application phase input; false at EOF.
    async fn app(&mut self) -> R<bool> {
        match self.record().await? {
            None => return Ok(false),
            Some((23, b)) => self.log.borrow_mut().recv.extend(b),
            Some((21, b)) if b.len() == 2 => {
                if b == [1, 0] { self.log.borrow_mut().close_notify = true } else { self.log.borrow_mut().alert = Some((b[0], b[1])) }
            }
            Some((22, _)) => {}
            Some((t, _)) => return Err(format!("unexpected record type {t}")),
        }
        Ok(true)
    }
}
fn msg(ty: u8, body: &[u8]) -> Vec<u8> {
    let l = (body.len() as u32).to_be_bytes();
    [&[ty, l[1], l[2], l[3]], body].concat()
}
fn v24(b: &[u8]) -> Vec<u8> { let l = (b.len() as u32).to_be_bytes(); [&l[1..], b].concat() }

pub async fn serve(ex: Rc<Exec>, io: End, cfg: Cfg, log: Rc<RefCell<Log>>) {
    let r = run(ex, io, cfg, log.clone()).await;
    if let Err(e) = r { log.borrow_mut().error = Some(e) } else { log.borrow_mut().script_done = true }
}

async fn run(ex: Rc<Exec>, io: End, cfg: Cfg, log: Rc<RefCell<Log>>) -> R<()> {
    let sim = ex.sim().clone();
    let mut c = Conn { io, tx: None, rx: None, cfg: cfg.clone(), sim: sim.clone(), transcript: vec![], hs_in: vec![], corrupt: false, off: 0, log: log.clone() };
    let (t, ch) = c.hs_msg().await?;
    if t != 1 || ch.len() < 40 { return Err("expected a client hello".into()) }
    let cr = ch[2..34].to_vec();
    let mut at = 34 + 1 + ch[34] as usize;
    let n = u16::from_be_bytes([ch[at], ch[at + 1]]) as usize;
    let offered: Vec<u16> = ch[at + 2..at + 2 + n].chunks(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect();
    at += 2 + n;
    at += 1 + ch[at] as usize;
    let mut reneg = offered.contains(&0xff);
    let mut tickets = false;
    let (mut ems, mut exts_offered) = (false, vec![]);
    if at + 2 <= ch.len() {
        at += 2;
        while at + 4 <= ch.len() {
            let (ty, l) = (u16::from_be_bytes([ch[at], ch[at + 1]]), u16::from_be_bytes([ch[at + 2], ch[at + 3]]) as usize);
            if ty == 0 && l > 5 { log.borrow_mut().sni = ch[at + 9..at + 4 + l].to_vec() }
            if ty == 0xff01 { reneg = true }
            if ty == 35 { tickets = true }
            if ty == 23 { ems = true }
            exts_offered.push(ty);
            at += 4 + l;
        }
    }
    let ems = ems && cfg.ems;
    let odd = cfg.odd.clone();
    let mut sr = sim.bytes(32);
    if odd == Some(Odd::Downgrade) { sr[24..].copy_from_slice(b"DOWNGRD\x01") }
    log.borrow_mut().odd_done = odd.is_some();
    log.borrow_mut().ems = ems;
    log.borrow_mut().exts = exts_offered;
    let rng = ring::rand::SystemRandom::new();
    let eph = agreement::EphemeralPrivateKey::generate(&agreement::ECDH_P256, &rng).map_err(s)?;
    let point = eph.compute_public_key().map_err(s)?.as_ref().to_vec();
    let sent_point = cfg.bad_point.clone().unwrap_or(point);
    {
        let mut l = log.borrow_mut();
        l.client_random = cr.clone();
        l.server_random = sr.clone();
        l.offered = offered.clone();
        l.spoint = sent_point.clone();
    }
    if !offered.contains(&cfg.suite) {
        c.put(21, &[2, 40]).await?;
        return Err("no common cipher suite".into());
    }
    let mut sh = cfg.version.to_be_bytes().to_vec();
    sh.extend(&sr);
    let sid = if let Some(Odd::SessionId(n)) = odd { n } else { 0 };
    sh.push(sid as u8);
    sh.extend(sim.bytes(sid));
    sh.extend(cfg.suite.to_be_bytes());
    sh.push(if let Some(Odd::Compression(c)) = odd { c } else { 0 });
    let mut exts: Vec<(u16, Vec<u8>)> = vec![];
    if reneg { exts.push((0xff01, vec![0])) }
    if ems { exts.push((23, vec![])) }
    match &odd {
        Some(Odd::Exts(e)) => exts.extend(e.clone()),
        Some(Odd::Staple(_)) => exts.push((5, vec![])),
        _ => {}
    }
    let exts: Vec<u8> = exts.into_iter().flat_map(|(t, d)| [&t.to_be_bytes()[..], &(d.len() as u16).to_be_bytes(), &d].concat()).collect();
    if !exts.is_empty() {
        sh.extend((exts.len() as u16).to_be_bytes());
        sh.extend(exts);
    }
    let mut certs = vec![];
    for d in &cfg.chain { certs.extend(v24(d)) }
    let mut params = vec![3];
    params.extend(cfg.curve.to_be_bytes());
    params.push(sent_point.len() as u8);
    params.extend(&sent_point);
    let signed = if odd == Some(Odd::Stale) { [&sim.bytes(32)[..], &sr, &params].concat() } else { [&cr[..], &sr, &params].concat() };
    let mut sig = if odd == Some(Odd::OtherKey) { Key::gen(Kt::P256).sign(&signed, 0x0403) } else { cfg.key.sign(&signed, cfg.scheme) };
    if cfg.bad_sig { let i = sig.len() - 1 - sim.index(8); sig[i] ^= 1 << sim.pick(8); sim.fault("server_signature_damaged") }
    let mut ske = params.clone();
    ske.extend(if let Some(Odd::Label(l)) = odd { l } else { cfg.scheme }.to_be_bytes());
    ske.extend((sig.len() as u16).to_be_bytes());
    ske.extend(&sig);
    let mut fl = vec![msg(2, &sh), msg(11, &v24(&certs))];
    if let Some(Odd::Staple(d)) = &odd { fl.push(msg(22, &[&[1][..], &v24(d)].concat())) }
    fl.push(msg(12, &ske));
    // certificate types, schemes, no named authorities
    if cfg.client_auth { fl.push(msg(13, &[2, 1, 64, 0, 8, 4, 3, 8, 4, 4, 1, 8, 7, 0, 0])) }
    fl.push(msg(14, &[]));
    let mut between = None;
    match &odd {
        Some(Odd::Drop(i)) => { fl.remove(i % fl.len()); }
        Some(Odd::Double(i)) => { let i = i % fl.len(); let m = fl[i].clone(); fl.insert(i, m) }
        Some(Odd::Swap(i)) => { let i = i % (fl.len() - 1); fl.swap(i, i + 1) }
        Some(Odd::Insert(i, t)) => { let i = i % (fl.len() + 1); fl.insert(i, msg(*t, &match t { 0 => vec![], 11 => vec![0; 3], 20 => vec![9; 12], _ => vec![0; 40] })) }
        Some(Odd::Slack(i)) => { let i = i % fl.len(); let t = fl[i][0]; let m = [&fl[i][4..], &[0]].concat(); fl[i] = msg(t, &m) }
        Some(Odd::Short(i)) => { let i = i % (fl.len() - 1); let t = fl[i][0]; let n = fl[i].len(); let m = fl[i][4..n - 1].to_vec(); fl[i] = msg(t, &m) }
        Some(Odd::Record(i, t, d)) => between = Some((i % (fl.len() + 1), *t, d.clone())),
        _ => {}
    }
    match between {
        Some((i, t, d)) => {
            c.flight(&fl[..i]).await?;
            c.put(t, &d).await?;
            c.flight(&fl[i..]).await?;
        }
        None => c.flight(&fl).await?,
    }
    if matches!(odd, Some(Odd::Drop(_) | Odd::Short(_))) {
        // The client may wait for more: there is none.
        ex.sleep(3_000_000_000).await;
        if c.hs_in.is_empty() { c.io.close().await.map_err(s)? }
    }
    // client's answer
    let (mut t, mut b) = c.hs_msg().await?;
    let mut client_cert = false;
    if cfg.client_auth {
        if t != 11 { return Err("expected a certificate".into()) }
        client_cert = b.len() > 3;
        log.borrow_mut().client_cert = client_cert;
        log.borrow_mut().client_chain = certificates(&b).ok_or("malformed client certificates")?;
        (t, b) = c.hs_msg().await?;
    }
    if t != 16 || b.is_empty() { return Err("expected a key exchange".into()) }
    let peer = agreement::UnparsedPublicKey::new(&agreement::ECDH_P256, &b[1..]);
    let pms = agreement::agree_ephemeral(eph, &peer, |k| k.to_vec()).map_err(|_| "bad client key")?;
    let session = sha256(&c.transcript);
    let signed = c.transcript.clone();
    if client_cert {
        let (t, b) = c.hs_msg().await?;
        if t != 15 { return Err("expected a certificate verify".into()) }
        if !proves(&log.borrow().client_chain[0], &b, &signed) {
            c.put(21, &[2, 51]).await?;
            return Err("the client's signature does not verify".into());
        }
    }
    let ms = if ems { prf(&pms, b"extended master secret", &session, 48) } else { prf(&pms, b"master secret", &[&cr[..], &sr].concat(), 48) };
    let kb = prf(&ms, b"key expansion", &[&sr[..], &cr].concat(), 40);
    log.borrow_mut().key_block = kb.clone();
    log.borrow_mut().ms = ms.clone();
    match c.record().await? {
        Some((20, b)) if b == [1] => {}
        o => return Err(format!("expected a change of cipher, got {:?}", o.map(|x| x.0))),
    }
    c.rx = Some(Cipher::new(&kb[..16], &kb[32..36]));
    let want = prf(&ms, b"client finished", &sha256(&c.transcript), 12);
    let (t, b) = c.hs_msg().await?;
    if t != 20 { return Err("expected finished".into()) }
    if b != want {
        c.put(21, &[2, 51]).await?;
        return Err("client finished does not verify".into());
    }
    log.borrow_mut().client_finished_ok = true;
    c.transcript.extend(msg(20, &b));
    if cfg.ticket && tickets {
        let m = msg(4, &[&[0, 0, 14, 16, 0, 32][..], &sim.bytes(32)].concat());
        c.flight(&[m]).await?;
    }
    let client_vd = b;
    let mut vd = prf(&ms, b"server finished", &sha256(&c.transcript), 12);
    if cfg.bad_finished { let i = sim.index(12); vd[i] ^= 1 << sim.pick(8); sim.fault("server_finished_damaged") }
    match &odd {
        Some(Odd::FinishedLen(n)) => vd = prf(&ms, b"server finished", &sha256(&c.transcript), *n),
        Some(Odd::FinishedEcho) => vd = client_vd,
        Some(Odd::BeforeCcs(t, d)) => c.put(*t, d).await?,
        _ => {}
    }
    let fin = msg(20, &vd);
    let mut early = 0;
    if let Some(Odd::Misaligned(n)) = &odd { early = 1 + n % (fin.len() - 1); c.put(22, &fin[..early]).await? }
    match &odd {
        Some(Odd::NoCcs) => {}
        Some(Odd::Ccs(d)) => c.put(20, d).await?,
        _ => c.put(20, &[1]).await?,
    }
    if let Some(Odd::BehindCcs(t, d)) = &odd { c.put(*t, d).await? }
    c.tx = Some(Cipher::new(&kb[16..32], &kb[36..40]));
    if odd == Some(Odd::FinishedSeq) { c.tx.as_mut().unwrap().seq = 1 + sim.pick(3) }
    if cfg.corrupt_finished { c.corrupt = true }
    c.put(22, &fin[early..]).await?;
    log.borrow_mut().handshake_done = true;
    log.borrow_mut().time = simkit::seam::wall_ns() / 1_000_000_000;
    for a in cfg.script.clone() {
        match a {
            Act::Recv(n) => while log.borrow().recv.len() < n && !log.borrow().close_notify { if !c.app().await? { return Err("eof".into()) } },
            Act::Request => while !whole_request(&log.borrow().recv) && !log.borrow().close_notify { if !c.app().await? { return Err("eof".into()) } },
            Act::Send(d, k) => for p in d.chunks(k.max(1)) {
                c.put(23, p).await?;
                log.borrow_mut().sent.extend_from_slice(p);
            },
            Act::Empty => c.put(23, &[]).await?,
            Act::Corrupt => c.corrupt = true,
            Act::CloseNotify => c.put(21, &[1, 0]).await?,
            Act::Alert(x, y) => c.put(21, &[x, y]).await?,
            Act::Record(t, d) => c.put(t, &d).await?,
            Act::HelloRequest => c.put(22, &[0, 0, 0, 0]).await?,
            Act::Garbage(d) => { let t = c.tx.take(); c.put(23, &d).await?; c.tx = t }
            Act::Truncated(d) => {
                let nonce = c.tx.as_ref().unwrap().seq.to_be_bytes();
                let b = c.tx.as_mut().unwrap().seal(23, nonce, &d);
                let r = [&[23, 3, 3][..], &(b.len() as u16).to_be_bytes(), &b].concat();
                let n = 1 + sim.index(r.len() - 1);
                sim.fault("record_torn");
                c.io.write_all(&r[..n]).await.map_err(s)?;
            }
            Act::Sleep(ns) => ex.sleep(ns).await,
            Act::WaitClose => while !log.borrow().close_notify { if !c.app().await? { break } },
            Act::WaitEof => while c.app().await? {},
            Act::HalfClose => c.io.close().await.map_err(s)?,
        }
        log.borrow_mut().script_at.push(simkit::seam::now_ns());
    }
    Ok(())
}

fn whole_request(b: &[u8]) -> bool {
    let Some(i) = b.windows(4).position(|w| w == b"\r\n\r\n") else { return false };
    let head = String::from_utf8_lossy(&b[..i]).to_ascii_lowercase();
    let n = head.lines().find_map(|l| l.strip_prefix("content-length:")).and_then(|v| v.trim().parse::<usize>().ok()).unwrap_or(0);
    b.len() >= i + 4 + n
}
