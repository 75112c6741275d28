//! A TLS 1.2 connection: a client assembled from the library's real record,
//! codec, suite, PRF and verification code, talking over a simulated network
//! to a real rustls server, optionally through a hostile relay.
use crate::certs::{hello_random, anchor, build, build_world, signed_msg, CertSpec, Key, Kt, World};
use futures::io::{AsyncReadExt, AsyncWriteExt};
use ring::{aead, agreement, digest};
use rustls::pki_types::{CertificateDer, PrivateKeyDer, PrivatePkcs8KeyDer};
use simkit::exec::{Exec, Stop};
use simkit::net::{pair, Cut, End, LinkCfg};
use simkit::{ensure, ev, seam, RunResult, Sim, Violation};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::rc::Rc;
use std::sync::Arc;
use tls_core::anchors::RootCertStore;
use tls_core::cert::ServerCertDetails;
use tls_core::cipher::make_tls12_aad;
use tls_core::handshake::HandshakeData;
use tls_core::ke::ServerKxDetails;
use tls_core::msgs::alert::AlertMessagePayload;
use tls_core::msgs::base::{Payload, PayloadU8};
use tls_core::msgs::ccs::ChangeCipherSpecPayload;
use tls_core::msgs::codec::Codec;
use tls_core::msgs::deframer::MessageDeframer;
use tls_core::msgs::enums::*;
use tls_core::msgs::fragmenter::MessageFragmenter;
use tls_core::msgs::handshake::*;
use tls_core::msgs::hsjoiner::HandshakeJoiner;
use tls_core::msgs::message::{Message, MessagePayload, OpaqueMessage, PlainMessage};
use tls_core::prf::prf;
use tls_core::suites::{self, tls12::decode_ecdh_params, AEADAlgorithm, SupportedCipherSuite, Tls12CipherSuite, ALL_CIPHER_SUITES};
use tls_core::versions::{EnabledVersions, ALL_VERSIONS};
use tls_core::verify::{ServerCertVerifier, WebPkiVerifier};
use web_time::SystemTime;

#[derive(Clone, Default)]
struct ClientOut {
    handshake_done: bool,
    received: Vec<u8>,
    clean_close: bool,
    cr: Vec<u8>,
    sr: Vec<u8>,
    master: Vec<u8>,
    leaf: Vec<u8>,
    kx_params: Vec<u8>,
    suite: u16,
    alpn: Option<Vec<u8>>,
    ocsp: Vec<u8>,
    asked: Option<(Vec<Vec<u8>>, usize, usize)>,
    scheme: u16,
    ticket: Vec<u8>,
    err: Option<String>,
}
#[derive(Clone, Default)]
struct ServerOut {
    handshake_done: bool,
    received: Vec<u8>,
    clean_close: bool,
    exporter: Vec<u8>,
    sni: Option<String>,
    alpn: Option<Vec<u8>>,
    suite: u16,
    err: Option<String>,
}

/// Record protection as the suite's table entry describes it.
struct Keys {
    key: aead::LessSafeKey,
    iv: Vec<u8>,
    explicit: usize,
    seq: u64,
}
fn aead_of(a: &AEADAlgorithm) -> &'static aead::Algorithm {
    match a {
        AEADAlgorithm::AES_128_GCM => &aead::AES_128_GCM,
        AEADAlgorithm::AES_256_GCM => &aead::AES_256_GCM,
        AEADAlgorithm::CHACHA20_POLY1305 => &aead::CHACHA20_POLY1305,
    }
}
impl Keys {
    fn new(s: &Tls12CipherSuite, k: &[u8], iv: &[u8]) -> Self {
        Keys { key: aead::LessSafeKey::new(aead::UnboundKey::new(aead_of(s.common.aead_algorithm), k).unwrap()), iv: iv.to_vec(), explicit: s.explicit_nonce_len, seq: 0 }
    }
    fn nonce(&self, explicit: &[u8]) -> R<aead::Nonce> {
        let mut n = [self.iv.clone(), explicit.to_vec()].concat();
        if explicit.is_empty() {
            for (a, b) in n.iter_mut().rev().zip(self.seq.to_be_bytes().iter().rev()) { *a ^= b; }
        }
        aead::Nonce::try_assume_unique_for_key(&n).map_err(|_| format!("nonce of {} bytes", n.len()))
    }
    fn seal(&mut self, m: PlainMessage) -> R<OpaqueMessage> {
        let explicit = self.seq.to_be_bytes()[8 - self.explicit..].to_vec();
        let aad = make_tls12_aad(self.seq, m.typ, m.version, m.payload.0.len());
        let mut b = m.payload.0;
        self.key.seal_in_place_append_tag(self.nonce(&explicit)?, aead::Aad::from(aad), &mut b).unwrap();
        self.seq += 1;
        Ok(OpaqueMessage { typ: m.typ, version: m.version, payload: Payload([explicit, b].concat()) })
    }
    fn open(&mut self, m: OpaqueMessage) -> R<PlainMessage> {
        let b = &m.payload.0;
        let over = self.explicit + 16;
        if b.len() < over { return Err("short ciphertext".into()); }
        let aad = make_tls12_aad(self.seq, m.typ, m.version, b.len() - over);
        let n = self.nonce(&b[..self.explicit])?;
        let mut c = b[self.explicit..].to_vec();
        let l = self.key.open_in_place(n, aead::Aad::from(aad), &mut c).map_err(|_| "bad mac".to_string())?.len();
        c.truncate(l);
        self.seq += 1;
        Ok(PlainMessage { typ: m.typ, version: m.version, payload: Payload(c) })
    }
}

struct Client {
    sim: Sim,
    io: End,
    df: MessageDeframer,
    hj: HandshakeJoiner,
    frag: MessageFragmenter,
    tx: Option<Keys>,
    rx: Option<Keys>,
    transcript: Vec<u8>,
    pending_rx: Option<Keys>,
}
type R<T> = Result<T, String>;
fn e<E: std::fmt::Debug>(w: &str) -> impl FnOnce(E) -> String + '_ { move |x| format!("{w}: {x:?}") }

impl Client {
    async fn send(&mut self, m: Message) -> R<()> {
        if let MessagePayload::Handshake(h) = &m.payload { self.transcript.extend(h.get_encoding()); }
        let mut q = VecDeque::new();
        self.frag.fragment(PlainMessage::from(m), &mut q);
        let mut out = vec![];
        for p in q {
            let o = match &mut self.tx { Some(k) => k.seal(p)?, None => p.into_unencrypted_opaque() };
            out.extend(o.encode());
        }
        self.io.write_all(&out).await.map_err(e("write"))?;
        self.io.flush().await.map_err(e("flush"))
    }
    /// Next message; `None` on end of stream.
    async fn recv(&mut self) -> R<Option<Message>> {
        loop {
            if let Some(m) = self.hj.frames.pop_front() { return Ok(Some(m)); }
            if let Some(f) = self.df.frames.pop_front() {
                let p = match (&mut self.rx, f.typ) {
                    (None, _) => f.into_plain_message(),
                    (Some(k), _) => k.open(f)?,
                };
                if p.typ == ContentType::Handshake {
                    self.hj.take_message(p).ok_or("corrupt handshake message")?;
                    continue;
                }
                if !self.hj.is_empty() { return Err("handshake message interrupted".into()); }
                let m = Message::try_from(p).map_err(e("payload"))?;
                if let MessagePayload::ChangeCipherSpec(_) = m.payload {
                    match self.pending_rx.take() { Some(k) => self.rx = Some(k), None => return Err("unexpected ccs".into()) }
                }
                return Ok(Some(m));
            }
            if self.df.desynced { return Err("desynced".into()); }
            let n = self.df.read_async(&mut self.io).await.map_err(e("read"))?;
            if n == 0 {
                if self.df.has_pending() { return Err("eof inside a record".into()); }
                return Ok(None);
            }
        }
    }
    async fn hs(&mut self) -> R<HandshakePayload> {
        loop {
            let m = self.recv().await?.ok_or("eof in handshake")?;
            match m.payload {
                MessagePayload::Handshake(h) => {
                    self.transcript.extend(h.get_encoding());
                    return Ok(h.payload);
                }
                MessagePayload::Alert(a) => return Err(format!("alert {:?}", a.description)),
                _ => return Err("unexpected message".into()),
            }
        }
    }
}

struct Plan {
    name: String,
    roots: RootCertStore,
    /// Protocols offered; none without the extension.
    alpn: Vec<Vec<u8>>,
    ocsp: bool,
    ems: bool,
    ticket: bool,
    suites: Vec<SupportedCipherSuite>,
    schemes: Vec<SignatureScheme>,
    frag: Option<usize>,
    /// A client random of the client's own choice.
    random: Option<[u8; 32]>,
    requests: Vec<Vec<u8>>,
    reply_len: usize,
}
fn xform(i: usize, b: u8) -> u8 { b ^ 0xA5 ^ (i as u8) }

fn th(c: &Client) -> Vec<u8> { digest::digest(&digest::SHA256, &c.transcript).as_ref().to_vec() }

async fn client(sim: Sim, io: End, plan: Rc<Plan>, out: Rc<RefCell<ClientOut>>) -> R<()> {
    let mut c = Client { sim: sim.clone(), io, df: MessageDeframer::new(), hj: HandshakeJoiner::new(), frag: MessageFragmenter::new(plan.frag).map_err(e("fragmenter"))?, tx: None, rx: None, transcript: vec![], pending_rx: None };
    let verifier = WebPkiVerifier::new(plan.roots.clone(), None);
    let sn = crate::certs::named(&plan.name).map_err(|v| format!("name: {}", v.msg))?;
    let random = match plan.random { Some(r) => Random(r), None => Random::new().map_err(e("random"))? };
    let mut exts = vec![
        ClientExtension::SupportedVersions(ALL_VERSIONS.iter().map(|v| v.version).collect()),
        ClientExtension::ECPointFormats(ECPointFormatList::supported()),
        ClientExtension::NamedGroups(vec![NamedGroup::secp256r1]),
        ClientExtension::SignatureAlgorithms(plan.schemes.clone()),
        ClientExtension::make_sni(sn.for_sni().ok_or("sni")?),
    ];
    if plan.ocsp { exts.push(ClientExtension::CertificateStatusRequest(CertificateStatusRequest::build_ocsp())); }
    if plan.ems { exts.push(ClientExtension::ExtendedMasterSecretRequest); }
    if !plan.alpn.is_empty() { exts.push(ClientExtension::Protocols(ProtocolNameList::from_slices(&plan.alpn.iter().map(|p| p.as_slice()).collect::<Vec<_>>()))); }
    if plan.ticket { exts.push(ClientExtension::SessionTicket(ClientSessionTicket::Request)); }
    exts.push(ClientExtension::SignedCertificateTimestampRequest);
    let mut suites: Vec<CipherSuite> = plan.suites.iter().map(|s| s.suite()).collect();
    suites.push(CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV);
    let ch = HandshakeMessagePayload {
        typ: HandshakeType::ClientHello,
        payload: HandshakePayload::ClientHello(ClientHelloPayload {
            client_version: ProtocolVersion::TLSv1_2, random, session_id: SessionID::empty(), cipher_suites: suites,
            compression_methods: vec![Compression::Null], extensions: exts,
        }),
    };
    c.send(Message { version: ProtocolVersion::TLSv1_0, payload: MessagePayload::Handshake(ch) }).await?;
    let HandshakePayload::ServerHello(sh) = c.hs().await? else { return Err("expected ServerHello".into()) };
    if !EnabledVersions::new(ALL_VERSIONS).contains(sh.legacy_version) || sh.legacy_version != ProtocolVersion::TLSv1_2 || sh.get_supported_versions().is_some() { return Err("version".into()); }
    if sh.compression_method != Compression::Null || sh.has_duplicate_extension() { return Err("bad hello".into()); }
    let Some(SupportedCipherSuite::Tls12(suite)) = plan.suites.iter().find(|s| s.suite() == sh.cipher_suite).copied() else { return Err("suite".into()) };
    let ems = sh.ems_support_acked();
    if ems != plan.ems && ems { return Err("unsolicited ems".into()); }
    out.borrow_mut().alpn = sh.get_alpn_protocol().map(|p| p.to_vec());
    out.borrow_mut().suite = sh.cipher_suite.get_u16();
    let HandshakePayload::Certificate(chain) = c.hs().await? else { return Err("expected Certificate".into()) };
    let mut next = c.hs().await?;
    let mut ocsp = vec![];
    if let HandshakePayload::CertificateStatus(s) = next {
        ocsp = s.into_inner();
        next = c.hs().await?;
    }
    let HandshakePayload::ServerKeyExchange(ske) = next else { return Err("expected ServerKeyExchange".into()) };
    let kx = ske.unwrap_given_kxa(&suite.kx).ok_or("bad ServerKeyExchange")?;
    let mut next = c.hs().await?;
    let mut asked = None;
    if let HandshakePayload::CertificateRequest(r) = next {
        asked = Some((r.canames.iter().map(|n| n.0.clone()).collect::<Vec<_>>(), r.sigschemes.len(), r.certtypes.len()));
        next = c.hs().await?;
    }
    let HandshakePayload::ServerHelloDone = next else { return Err("expected ServerHelloDone".into()) };
    let mut kx_params = vec![];
    kx.params.encode(&mut kx_params);
    if !suite.sign.contains(&kx.dss.scheme) { return Err("signature scheme does not fit the suite".into()); }
    let kx_scheme = kx.dss.scheme.get_u16();
    let leaf = chain.first().ok_or("no certificate")?.0.clone();
    let hd = HandshakeData::new(ServerCertDetails::new(chain, ocsp.clone(), sh.get_sct_list().cloned()), ServerKxDetails::new(kx_params.clone(), kx.dss), random, sh.random);
    hd.verify(&verifier, SystemTime::now(), &sn).map_err(e("verify"))?;
    let params: ServerECDHParams = decode_ecdh_params(&kx_params).ok_or("ecdh params")?;
    if params.curve_params.named_group != NamedGroup::secp256r1 { return Err("group".into()); }
    let rng = ring::rand::SystemRandom::new();
    let sk = agreement::EphemeralPrivateKey::generate(&agreement::ECDH_P256, &rng).unwrap();
    let pk = sk.compute_public_key().unwrap();
    let peer = agreement::UnparsedPublicKey::new(&agreement::ECDH_P256, params.public.0.clone());
    let pms = agreement::agree_ephemeral(sk, &peer, |s| s.to_vec()).map_err(e("ecdh"))?;
    if asked.is_some() {
        c.send(Message { version: ProtocolVersion::TLSv1_2, payload: MessagePayload::Handshake(HandshakeMessagePayload { typ: HandshakeType::Certificate, payload: HandshakePayload::Certificate(vec![]) }) }).await?;
    }
    out.borrow_mut().asked = asked;
    out.borrow_mut().scheme = kx_scheme;
    let mut cke = vec![];
    ClientECDHParams { public: PayloadU8::new(pk.as_ref().to_vec()) }.encode(&mut cke);
    c.send(Message { version: ProtocolVersion::TLSv1_2, payload: MessagePayload::Handshake(HandshakeMessagePayload { typ: HandshakeType::ClientKeyExchange, payload: HandshakePayload::ClientKeyExchange(Payload(cke)) }) }).await?;
    let mut ms = [0u8; 48];
    if ems { let h = th(&c); prf(&mut ms, &pms, b"extended master secret", &h).map_err(e("prf"))?; }
    else { prf(&mut ms, &pms, b"master secret", &[random.0, sh.random.0].concat()).map_err(e("prf"))?; }
    let (kl, il) = (aead_of(suite.common.aead_algorithm).key_len(), suite.fixed_iv_len);
    let mut kb = vec![0u8; 2 * kl + 2 * il];
    prf(&mut kb, &ms, b"key expansion", &tls_core::suites::tls12::join_randoms(&sh.random.0, &random.0)).map_err(e("prf"))?;
    c.send(Message { version: ProtocolVersion::TLSv1_2, payload: MessagePayload::ChangeCipherSpec(ChangeCipherSpecPayload {}) }).await?;
    c.tx = Some(Keys::new(suite, &kb[..kl], &kb[2 * kl..2 * kl + il]));
    c.pending_rx = Some(Keys::new(suite, &kb[kl..2 * kl], &kb[2 * kl + il..]));
    let mut vd = [0u8; 12];
    prf(&mut vd, &ms, b"client finished", &th(&c)).map_err(e("prf"))?;
    c.send(Message { version: ProtocolVersion::TLSv1_2, payload: MessagePayload::Handshake(HandshakeMessagePayload { typ: HandshakeType::Finished, payload: HandshakePayload::Finished(Payload(vd.to_vec())) }) }).await?;
    let mut m = c.recv().await?.ok_or("eof before ccs")?;
    if let (true, MessagePayload::Handshake(HandshakeMessagePayload { payload: HandshakePayload::NewSessionTicket(t), .. })) = (sh.find_extension(ExtensionType::SessionTicket).is_some(), &m.payload) {
        if let MessagePayload::Handshake(h) = &m.payload { c.transcript.extend(h.get_encoding()); }
        out.borrow_mut().ticket = t.ticket.0.clone();
        m = c.recv().await?.ok_or("eof before ccs")?;
    }
    match m.payload {
        MessagePayload::ChangeCipherSpec(_) => {}
        MessagePayload::Alert(a) => return Err(format!("alert {:?}", a.description)),
        _ => return Err("expected CCS".into()),
    }
    let mut want = [0u8; 12];
    prf(&mut want, &ms, b"server finished", &th(&c)).map_err(e("prf"))?;
    let HandshakePayload::Finished(f) = c.hs().await? else { return Err("expected Finished".into()) };
    if f.0 != want { return Err("server Finished mismatch".into()); }
    {
        let mut o = out.borrow_mut();
        o.handshake_done = true;
        o.cr = random.0.to_vec();
        o.sr = sh.random.0.to_vec();
        o.master = ms.to_vec();
        o.leaf = leaf;
        o.kx_params = kx_params;
        o.ocsp = ocsp;
    }
    // application phase: send all requests, read the reply
    for r in &plan.requests {
        c.send(Message { version: ProtocolVersion::TLSv1_2, payload: MessagePayload::ApplicationData(Payload(r.clone())) }).await?;
        c.sim.step();
    }
    let mut closed = false;
    loop {
        if !closed && out.borrow().received.len() >= plan.reply_len {
            c.send(Message::build_alert(AlertLevel::Warning, AlertDescription::CloseNotify)).await?;
            closed = true;
        }
        match c.recv().await? {
            None => return Err("eof without close_notify".into()),
            Some(m) => match m.payload {
                MessagePayload::ApplicationData(p) => out.borrow_mut().received.extend(p.0),
                MessagePayload::Alert(AlertMessagePayload { description: AlertDescription::CloseNotify, .. }) => {
                    out.borrow_mut().clean_close = true;
                    return Ok(());
                }
                MessagePayload::Alert(a) => return Err(format!("alert {:?}", a.description)),
                _ => return Err("unexpected message in traffic".into()),
            },
        }
    }
}

fn finished(conn: &rustls::ServerConnection, out: &RefCell<ServerOut>) -> R<()> {
    let mut o = out.borrow_mut();
    if o.handshake_done { return Ok(()); }
    o.handshake_done = true;
    let mut k = vec![0u8; 77];
    // (rustls refuses to export after a fatal error)
    if conn.export_keying_material(&mut k, b"EXPORTER-sim", None).is_ok() { o.exporter = k; }
    o.sni = conn.server_name().map(|s| s.to_string());
    o.alpn = conn.alpn_protocol().map(|s| s.to_vec());
    o.suite = conn.negotiated_cipher_suite().map(|s| s.suite().get_u16()).unwrap_or(0);
    Ok(())
}

async fn server(mut io: End, cfg: Arc<rustls::ServerConfig>, req_len: usize, reply: Vec<u8>, out: Rc<RefCell<ServerOut>>) -> R<()> {
    let mut conn = rustls::ServerConnection::new(cfg).map_err(e("server"))?;
    let mut buf = vec![0u8; 4096];
    let mut replied = false;
    loop {
        let mut w = vec![];
        while conn.wants_write() { conn.write_tls(&mut w).map_err(e("write_tls"))?; }
        if !w.is_empty() { io.write_all(&w).await.map_err(e("write"))?; io.flush().await.map_err(e("flush"))?; }
        if out.borrow().clean_close { return Ok(()); }
        let n = io.read(&mut buf).await.map_err(e("read"))?;
        if n == 0 { return Err("eof without close_notify".into()); }
        let mut rd = &buf[..n];
        while !rd.is_empty() {
            conn.read_tls(&mut rd).map_err(e("read_tls"))?;
            match conn.process_new_packets() {
                Ok(st) => {
                    if st.plaintext_bytes_to_read() > 0 {
                        let mut b = vec![0u8; st.plaintext_bytes_to_read()];
                        conn.reader().read_exact(&mut b).map_err(e("plaintext"))?;
                        out.borrow_mut().received.extend(b);
                    }
                    if st.peer_has_closed() { out.borrow_mut().clean_close = true; conn.send_close_notify(); }
                }
                Err(er) => {
                    let mut w = vec![];
                    while conn.wants_write() { let _ = conn.write_tls(&mut w); }
                    let _ = io.write_all(&w).await;
                    if !conn.is_handshaking() { let _ = finished(&conn, &out); }
                    return Err(format!("server tls: {er:?}"));
                }
            }
        }
        if !conn.is_handshaking() && !out.borrow().handshake_done {
            finished(&conn, &out)?;
        }
        if !replied && out.borrow().received.len() >= req_len && out.borrow().handshake_done {
            replied = true;
            conn.writer().write_all(&reply).map_err(e("reply"))?;
        }
    }
}

/// A relay between client and server that handles whole records.
async fn relay(sim: Sim, from: futures::io::ReadHalf<End>, mut to: futures::io::WriteHalf<End>, c2s: bool, hits: Rc<RefCell<Vec<(u64, u64)>>>, n_hit: Rc<RefCell<u64>>) {
    let mut from = from;
    let mut idx = 0u64;
    let mut held: Option<Vec<u8>> = None;
    let mut prev: Vec<u8> = vec![];
    loop {
        let mut h = [0u8; 5];
        let mut got = 0;
        while got < 5 {
            match from.read(&mut h[got..]).await { Ok(0) | Err(_) => break, Ok(n) => got += n }
        }
        if got < 5 {
            if let Some(x) = held.take() { let _ = to.write_all(&x).await; }
            let _ = to.write_all(&h[..got]).await;
            let _ = to.close().await;
            return;
        }
        let len = u16::from_be_bytes([h[3], h[4]]) as usize;
        let mut rec = h.to_vec();
        rec.resize(5 + len, 0);
        let mut g = 5;
        while g < rec.len() {
            match from.read(&mut rec[g..]).await { Ok(0) | Err(_) => break, Ok(n) => g += n }
        }
        rec.truncate(g);
        let kind = hits.borrow().iter().find(|(i, _)| *i == idx * 2 + c2s as u64).map(|x| x.1);
        idx += 1;
        let mut outv = vec![];
        if let Some(k) = kind {
            *n_hit.borrow_mut() += 1;
            ev!(sim, "relay c2s={c2s} record {} type {} len {len}: fault {k}", idx - 1, rec[0]);
            match k {
                0 => { if rec.len() > 5 { let i = 5 + sim.index(rec.len() - 5); rec[i] ^= 1 << sim.index(8); } sim.fault("record_payload_bit_flipped"); outv = rec.clone(); }
                1 => { sim.fault("record_dropped"); }
                2 => { sim.fault("record_duplicated"); outv = [rec.clone(), rec.clone()].concat(); }
                3 => { sim.fault("record_reordered"); if held.is_none() { held = Some(rec.clone()); continue; } }
                4 => { sim.fault("record_type_changed"); let mut r = rec.clone(); r[0] = 20 + sim.index(5) as u8; outv = r; }
                5 => { sim.fault("record_truncated"); let n = (rec.len() - 5).saturating_sub(1 + sim.size(20) as usize).max(1); let mut r = rec.clone(); r.truncate(5 + n); let l = (n as u16).to_be_bytes(); r[3] = l[0]; r[4] = l[1]; outv = r; }
                6 => { sim.fault("record_injected"); let n = sim.range(1, 64) as usize; let b = sim.bytes(n); outv = vec![20 + sim.index(4) as u8, 3, 3, 0, n as u8]; outv.extend(b); outv.extend(&rec); }
                7 => { sim.fault("record_replayed"); outv = [rec.clone(), prev.clone()].concat(); }
                _ => {
                    // split one record into two (legitimate only before encryption)
                    sim.fault("record_resegmented");
                    if rec.len() > 6 {
                        let cut = 1 + sim.index(rec.len() - 6);
                        for part in [&rec[5..5 + cut], &rec[5 + cut..]] {
                            outv.extend([rec[0], rec[1], rec[2]]);
                            outv.extend((part.len() as u16).to_be_bytes());
                            outv.extend(part);
                        }
                    } else { outv = rec.clone(); }
                }
            }
        } else { outv = rec.clone(); }
        prev = rec;
        if let Some(x) = held.take() { outv.extend(x); }
        if to.write_all(&outv).await.is_err() || to.flush().await.is_err() { return; }
    }
}

struct Setup { w: World, plan: Rc<Plan>, cfg: Arc<rustls::ServerConfig>, reply: Vec<u8>, req: Vec<u8>, ocsp: Vec<u8>, server_suites: Vec<SupportedCipherSuite>, client_roots: Option<RootCertStore>, ticketer: bool }
fn shuffle<T>(sim: &Sim, v: &mut Vec<T>) { for i in (1..v.len()).rev() { let j = sim.index(i + 1); v.swap(i, j); } }
/// A non-empty part of `v`, in any order.
fn some_of<T: Clone>(sim: &Sim, v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    shuffle(sim, &mut v);
    let n = 1 + sim.index(v.len());
    v.truncate(n);
    v
}
/// Every suite the library knows, by code.
fn all_suites() -> Vec<SupportedCipherSuite> {
    use suites::*;
    vec![TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256, TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256,
        TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384, TLS13_AES_128_GCM_SHA256, TLS13_AES_256_GCM_SHA384, TLS13_CHACHA20_POLY1305_SHA256]
}
/// The first four of them have a key schedule the library implements.
const USABLE: usize = 4;
const PROTOS: &[&[u8]] = &[b"h2", b"http/1.1", b"http/1.0", b"x", b"a-protocol-name-that-is-quite-a-bit-longer-than-any-other-one"];

fn setup(sim: &Sim, picky: bool) -> Result<Setup, Violation> {
    let herr = |x: String| Violation::new("harness", format!("HARNESS-ERROR: {x}"));
    seam::set_epoch_s(1_750_000_000);
    let w = build_world(sim, 1_750_000_000);
    let certs: Vec<CertificateDer<'static>> = w.chain().into_iter().map(CertificateDer::from).collect();
    let key = PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(w.leaf_pkcs8.clone()));
    let mut prov = rustls::crypto::ring::default_provider();
    prov.kx_groups = vec![rustls::crypto::ring::kx_group::SECP256R1];
    if sim.chance(1, 2) { prov.kx_groups.insert(0, rustls::crypto::ring::kx_group::X25519); }
    let mut schemes = WebPkiVerifier::verification_schemes();
    let mut client_suites = ALL_CIPHER_SUITES.to_vec();
    let mut server_suites: Vec<SupportedCipherSuite> = all_suites();
    if picky {
        if sim.chance(1, 4) { schemes = some_of(sim, &schemes); } else if sim.chance(1, 2) { shuffle(sim, &mut schemes); }
        if sim.chance(1, 2) { client_suites = some_of(sim, &all_suites()[..USABLE]); }
        if sim.chance(1, 3) { server_suites = some_of(sim, &server_suites); }
        if !server_suites.iter().any(|s| s.tls13().is_none()) { server_suites.push(all_suites()[sim.index(USABLE)]); }
    }
    let table = prov.cipher_suites.clone();
    prov.cipher_suites = server_suites.iter().map(|s| *table.iter().find(|r| r.suite().get_u16() == s.suite().get_u16()).expect("HARNESS-ERROR: suite")).collect();
    let prov = Arc::new(prov);
    let ocsp = if sim.chance(1, 3) { let n = sim.range(1, 300) as usize; sim.bytes(n) } else { vec![] };
    // a server that could do better says so in its random
    let modern = sim.chance(1, 3);
    let versions = [&rustls::version::TLS12, &rustls::version::TLS13];
    let b = rustls::ServerConfig::builder_with_provider(prov.clone())
        .with_protocol_versions(&versions[..if modern { 2 } else { 1 }])
        .map_err(|x| herr(x.to_string()))?;
    // a server that asks for a client certificate but does without one
    let mut client_roots = None;
    let b = if picky && sim.chance(1, 3) {
        let (mut roots, mut lib) = (rustls::RootCertStore::empty(), RootCertStore::empty());
        for _ in 0..1 + sim.pick(3) {
            let (k, _) = Key::gen_pkcs8(Kt::Ed);
            let n = [1usize, 40, 100, 110 + sim.index(30), 236 + sim.index(30), 600][sim.index(6)];
            let spec = CertSpec { subject: "n".repeat(n), issuer: "n".repeat(n), nb: 0, na: 2_000_000_000, sans: vec![], ca: Some((true, None)), eku: None, serial: 1, extra: 0, nc: None };
            let der = build(&spec, &k, &k);
            roots.add(CertificateDer::from(der.clone())).map_err(|x| herr(x.to_string()))?;
            lib.roots.push(anchor(&der));
        }
        client_roots = Some(lib);
        b.with_client_cert_verifier(rustls::server::WebPkiClientVerifier::builder_with_provider(Arc::new(roots), prov).allow_unauthenticated().build().map_err(|x| herr(x.to_string()))?)
    } else { b.with_no_client_auth() };
    let mut cfg = b.with_single_cert_with_ocsp(certs, key, ocsp.clone()).map_err(|x| herr(x.to_string()))?;
    cfg.max_fragment_size = [None, Some(64), Some(333), Some(4096)][sim.index(4)];
    cfg.ignore_client_order = sim.chance(1, 2);
    let mut alpn = vec![];
    if picky {
        if sim.chance(1, 2) { cfg.alpn_protocols = some_of(sim, PROTOS).into_iter().map(|p| p.to_vec()).collect(); }
        if sim.chance(1, 2) {
            alpn = some_of(sim, PROTOS).into_iter().map(|p| p.to_vec()).collect();
            if sim.chance(2, 3) { if let Some(p) = cfg.alpn_protocols.last() { if !alpn.contains(p) { alpn.push(p.clone()); } } }
        }
    } else {
        if sim.chance(1, 2) { cfg.alpn_protocols = vec![b"http/1.1".to_vec()]; }
        if sim.chance(1, 2) { alpn = vec![b"h2".to_vec(), b"http/1.1".to_vec()]; }
    }
    let ticketer = picky && sim.chance(1, 3);
    if ticketer { cfg.ticketer = rustls::crypto::ring::Ticketer::new().map_err(|x| herr(x.to_string()))?; }
    cfg.session_storage = Arc::new(rustls::server::NoServerSessionStorage {});
    let mut requests = vec![];
    for _ in 0..sim.pick(4) { let n = 1 + sim.size(20_000) as usize; requests.push(sim.bytes(n)); }
    let req: Vec<u8> = requests.concat();
    let n = sim.size(40_000) as usize;
    let reply: Vec<u8> = (0..n).map(|i| xform(i, req.get(i % req.len().max(1)).copied().unwrap_or(7))).collect();
    let plan = Rc::new(Plan {
        name: w.host.clone(),
        roots: RootCertStore { roots: vec![anchor(&w.root_der())] },
        alpn, ocsp: sim.chance(1, 2), ems: sim.chance(1, 2), ticket: picky && sim.chance(1, 2), suites: client_suites, schemes,
        frag: [None, Some(32), Some(100), Some(1024), Some(16389)][sim.index(5)],
        random: if sim.chance(1, 3) { Some(hello_random(sim)) } else { None },
        requests, reply_len: reply.len(),
    });
    Ok(Setup { w, plan, cfg: Arc::new(cfg), reply, req, ocsp, server_suites, client_roots, ticketer })
}

/// What a TLS 1.2 server with the library's suite tables would negotiate.
fn predict(s: &Setup) -> Result<(u16, Vec<u16>, Option<Vec<u8>>), &'static str> {
    let alpn = if s.cfg.alpn_protocols.is_empty() || s.plan.alpn.is_empty() { None } else {
        Some(s.cfg.alpn_protocols.iter().find(|p| s.plan.alpn.contains(p)).ok_or("alpn")?.clone())
    };
    let k = s.w.leaf_key().kt();
    let key_alg = match k { Kt::Rsa => SignatureAlgorithm::RSA, Kt::Ed => SignatureScheme::ED25519.sign(), _ => SignatureAlgorithm::ECDSA };
    let common = suites::reduce_given_version(&suites::reduce_given_sigalg(&s.server_suites, key_alg), ProtocolVersion::TLSv1_2);
    let offer: Vec<CipherSuite> = s.plan.suites.iter().map(|x| x.suite()).collect();
    let chosen = if s.cfg.ignore_client_order { suites::choose_ciphersuite_preferring_server(&offer, &common) } else { suites::choose_ciphersuite_preferring_client(&offer, &common) };
    let Some(SupportedCipherSuite::Tls12(suite)) = chosen else { return Err("suite") };
    let offered: Vec<SignatureScheme> = s.plan.schemes.iter().copied().filter(|x| suites::compatible_sigscheme_for_suites(*x, &s.plan.suites)).collect();
    let resolved = suite.resolve_sig_schemes(&offered);
    // every scheme of the suite that was offered, most preferred first
    if resolved != suite.sign.iter().copied().filter(|x| offered.contains(x)).collect::<Vec<_>>() { return Err("resolve"); }
    let able: &[u16] = match k { Kt::P256 => &[0x0403], Kt::P384 => &[0x0503], Kt::Ed => &[0x0807], Kt::Rsa => &[0x0804, 0x0805, 0x0806, 0x0401, 0x0501, 0x0601] };
    let schemes: Vec<u16> = resolved.iter().map(|x| x.get_u16()).filter(|x| able.contains(x)).collect();
    if schemes.is_empty() { return Err("signature scheme"); }
    Ok((suite.common.suite.get_u16(), schemes, alpn))
}

/// The suite tables agree with the registry and with each other.
fn suite_tables() -> RunResult {
    for (x, c) in crate::names::SIGNATURE_SCHEME {
        let n = format!("{x:?}");
        let want = if n.starts_with("RSA") { SignatureAlgorithm::RSA } else if n.starts_with("ECDSA_NIST") { SignatureAlgorithm::ECDSA } else { continue };
        ensure!(x.sign() == want, "suite-table", "{n} takes keys for {:?}", x.sign());
        let h = match c >> 8 { 2 => HashAlgorithm::SHA1, 4 => HashAlgorithm::SHA256, 5 => HashAlgorithm::SHA384, 6 => HashAlgorithm::SHA512, _ => continue };
        ensure!(SignatureScheme::make(want, h) == *x, "suite-table", "{want:?} with {h:?} makes {:?}", SignatureScheme::make(want, h));
    }
    for set in 0..4 {
        let of: Vec<_> = [&tls_core::versions::TLS13, &tls_core::versions::TLS12].into_iter().enumerate().filter(|x| set >> x.0 & 1 == 1).map(|x| x.1).collect();
        for of in [of.clone(), of.into_iter().rev().collect()] {
            let e = EnabledVersions::new(&of);
            for (v, _) in crate::names::PROTOCOL_VERSION { ensure!(e.contains(*v) == of.iter().any(|o| o.version == *v), "versions", "{v:?} is enabled or not by {of:?}"); }
        }
    }
    ensure!(tls_core::suites::tls12::DOWNGRADE_SENTINEL == *b"DOWNGRD\x01", "downgrade-marker", "a server's marker of a downgrade is looked for as {:?}", tls_core::suites::tls12::DOWNGRADE_SENTINEL);
    for s in all_suites() {
        let n = format!("{:?}", s.suite());
        let h = if n.ends_with("SHA384") { 48 } else { 32 };
        ensure!(s.hash_algorithm().output_len() == h, "suite-table", "{n}: hash of {} bytes", s.hash_algorithm().output_len());
        {
            use tls_core::msgs::enums::SignatureAlgorithm as G;
            for g in [G::RSA, G::ECDSA, G::DSA, G::Anonymous, G::Unknown(9), G::Unknown(200)] {
                let want = s.tls13().is_some() || match g { G::RSA => n.contains("RSA") && !n.contains("ECDSA"), G::ECDSA => n.contains("ECDSA"), _ => false };
                ensure!(s.usable_for_signature_algorithm(g) == want, "suite-table", "{n}: usable for {g:?} keys: {}", !want);
                let left = tls_core::suites::reduce_given_sigalg(&all_suites(), g);
                ensure!(left.contains(&s) == want, "suite-table", "{n}: left for {g:?} keys: {}", !want);
            }
        }
        match s {
            SupportedCipherSuite::Tls12(t) => {
                let a = match t.common.aead_algorithm { AEADAlgorithm::AES_128_GCM => "AES_128_GCM", AEADAlgorithm::AES_256_GCM => "AES_256_GCM", AEADAlgorithm::CHACHA20_POLY1305 => "CHACHA20_POLY1305" };
                ensure!(n.contains(a) && t.fixed_iv_len + t.explicit_nonce_len == 12 && s.version().version == ProtocolVersion::TLSv1_2 && s.tls13().is_none(), "suite-table", "{n}: {a}, nonce {}+{}", t.fixed_iv_len, t.explicit_nonce_len);
            }
            SupportedCipherSuite::Tls13(t) => {
                ensure!(s.version().version == ProtocolVersion::TLSv1_3 && s.tls13() == Some(t), "suite-table", "{n}: version {:?}", s.version());
                for o in all_suites() {
                    if let Some(o) = o.tls13() { ensure!(t.can_resume_from(o).is_some() == (t.hash_algorithm() == o.hash_algorithm()), "suite-table", "{n}: resumption from {:?}", o.common.suite); }
                }
            }
        }
    }
    Ok(())
}

/// The key schedule and the record header authenticated with each record,
/// against their definitions, for inputs no single session brings together.
fn derivations(sim: &Sim) -> RunResult {
    use ring::hmac;
    let part = |n: u64| { let l = [sim.pick(n), 48, 32, 64, 0][sim.weighted(&[4, 1, 1, 1, 1])]; let mut x = sim.bytes(l as usize); if sim.chance(1, 6) { let z = sim.index(x.len() + 1); x[..z].fill(0); } x };
    let (secret, label, seed) = (part(200), part(40), part(200));
    let n = [sim.pick(1200), 12, 48, 40, 104, 32 * sim.range(1, 20)][sim.index(6)] as usize;
    let k = hmac::Key::new(hmac::HMAC_SHA256, &secret);
    let ls = [&label[..], &seed].concat();
    let (mut a, mut want): (_, Vec<u8>) = (hmac::sign(&k, &ls), vec![]);
    while want.len() < n {
        want.extend(hmac::sign(&k, &[a.as_ref(), &ls].concat()).as_ref());
        a = hmac::sign(&k, a.as_ref());
    }
    want.truncate(n);
    let mut got = sim.bytes(n);
    prf(&mut got, &secret, &label, &seed).map_err(|x| Violation::new("prf", format!("refused a secret of {} bytes: {x:?}", secret.len())))?;
    ensure!(got == want, "prf", "{n} bytes derived from a secret of {}, a label of {} and a seed of {} differ from the definition", secret.len(), label.len(), seed.len());
    let seq = [0, sim.pick(70_000), 1 << sim.pick(63), u64::MAX, sim.pick(1 << 62)][sim.index(5)];
    let (t, v, l) = ([23u8, 22, 21, 20][sim.index(4)], [0x0303u16, 0x0302, 0x0301][sim.weighted(&[4, 1, 1])], [sim.pick(16385), 255, 256, 16384][sim.index(4)] as usize);
    let want = [&seq.to_be_bytes()[..], &[t], &v.to_be_bytes(), &(l as u16).to_be_bytes()].concat();
    ensure!(make_tls12_aad(seq, ContentType::from(t), ProtocolVersion::from(v), l)[..] == want[..], "aad", "the authenticated header of record {seq} differs from the definition");
    let (x, y) = (hello_random(sim), hello_random(sim));
    ensure!(tls_core::suites::tls12::join_randoms(&x, &y)[..] == [x, y].concat()[..], "join", "joined randoms differ from the two");
    Ok(())
}

pub fn r09_benign(sim: &Sim) -> RunResult {
    suite_tables()?;
    derivations(sim)?;
    let s = setup(sim, true)?;
    let want = predict(&s);
    ensure!(want.as_ref().err() != Some(&"resolve"), "scheme-preference", "the signature schemes resolved from {:?} are not those of the suite, most preferred first", s.plan.schemes);
    let ex = Exec::new(sim);
    let lc = LinkCfg::draw(sim, "tcp");
    let (a, b, _ctl) = pair(&ex, lc);
    let (co, so) = (Rc::new(RefCell::new(ClientOut::default())), Rc::new(RefCell::new(ServerOut::default())));
    let hc = ex.spawn("client", 0, client(sim.clone(), a, s.plan.clone(), co.clone()));
    let hs = ex.spawn("server", 1, server(b, s.cfg.clone(), s.req.len(), s.reply.clone(), so.clone()));
    let stop = ex.run(&[hc.id(), hs.id()], 2_000_000);
    let pend = ex.pending_names();
    let (rc, rs) = (hc.take(), hs.take());
    ex.shutdown();
    let (c, sv) = (co.borrow().clone(), so.borrow().clone());
    ensure!(stop == Stop::Done, "stuck", "connection made no progress ({stop:?}), waiting: {pend:?}");
    ev!(sim, "offers: client {:04x?} {:04x?} server {:04x?} own order {} key {:?} -> {want:04x?}", s.plan.suites.iter().map(|x| x.suite().get_u16()).collect::<Vec<_>>(), s.plan.schemes.iter().map(|x| x.get_u16()).collect::<Vec<_>>(), s.server_suites.iter().map(|x| x.suite().get_u16()).collect::<Vec<_>>(), s.cfg.ignore_client_order, s.w.leaf_key().kt());
    let (suite, schemes, alpn) = match want {
        Ok(w) => w,
        Err(why) => {
            ensure!(!c.handshake_done && !sv.handshake_done, "negotiation", "a session completed although the offers have no {why} in common: {c:?}", c = c.suite);
            ensure!(!matches!(rc, Some(Ok(()))) && !matches!(rs, Some(Ok(()))), "negotiation", "an end saw success: {rc:?} {rs:?}");
            sim.probe("offers_incompatible");
            return Ok(());
        }
    };
    ensure!(matches!(rc, Some(Ok(()))), "client-failed", "client failed on a benign network: {rc:?} (server: {rs:?})");
    ensure!(matches!(rs, Some(Ok(()))), "server-failed", "server failed on a benign network: {rs:?}");
    ensure!(sv.received == s.req, "data", "server received {} bytes, client sent {}", sv.received.len(), s.req.len());
    ensure!(c.received == s.reply, "data", "client received {} bytes, server sent {}", c.received.len(), s.reply.len());
    ensure!(sv.sni.as_deref() == Some(&s.plan.name.to_ascii_lowercase()), "hello", "server saw name {:?}, client asked {}", sv.sni, s.plan.name);
    ensure!(sv.alpn == c.alpn, "hello", "alpn differs: server {:?} client {:?}", sv.alpn, c.alpn);
    ensure!(c.alpn == alpn, "hello", "application protocol {:?} instead of {alpn:?}", c.alpn);
    ensure!(c.suite == suite, "negotiation", "the server chose {:04x}, the library's tables say {suite:04x}", c.suite);
    ensure!(schemes.contains(&c.scheme), "negotiation", "the server signed with {:04x}, the library's tables allow {schemes:04x?}", c.scheme);
    match (&c.asked, &s.client_roots) {
        (None, None) => {}
        (Some((names, nschemes, ntypes)), Some(r)) => {
            let want: Vec<Vec<u8>> = r.subjects().iter().map(|n| n.0.clone()).collect();
            ensure!(*names == want, "subjects", "the server asked for certificates of {names:02x?}, the same trust anchors give {want:02x?}");
            ensure!(*nschemes > 0 && *ntypes > 0, "subjects", "empty certificate request");
            ensure!(r.len() == names.len() && r.is_empty() == names.is_empty(), "subjects", "{} anchors counted, {} names", r.len(), names.len());
            sim.probe("client_certificate_requested");
            if names.iter().any(|n| n.len() > 131) { sim.probe("long_authority_name"); }
        }
        _ => ensure!(false, "subjects", "a certificate request appeared or disappeared"),
    }
    ensure!(c.ticket.is_empty() != (s.plan.ticket && s.ticketer), "ticket", "session ticket of {} bytes, asked {} offered {}", c.ticket.len(), s.plan.ticket, s.ticketer);
    if !c.ticket.is_empty() { sim.probe("session_ticket"); }
    sim.state(suite as u64 | (c.scheme as u64) << 16 | (c.asked.is_some() as u64) << 32 | (!c.ticket.is_empty() as u64) << 33 | (alpn.is_some() as u64) << 34);
    ensure!(sv.suite == c.suite, "hello", "suite differs: server {:04x} client {:04x}", sv.suite, c.suite);
    ensure!(c.ocsp == if s.plan.ocsp { s.ocsp.clone() } else { vec![] }, "ocsp", "stapled response altered");
    agree(&c, &sv, &s)?;
    sim.probe("completed");
    if s.plan.ems { sim.probe("extended_master_secret"); }
    if !c.ocsp.is_empty() { sim.probe("ocsp_stapled"); }
    sim.stat_nontrivial();
    sim.observe_bytes(&c.master);
    Ok(())
}
fn agree(c: &ClientOut, sv: &ServerOut, s: &Setup) -> RunResult {
    let mut k = vec![0u8; 77];
    prf(&mut k, &c.master, b"EXPORTER-sim", &signed_msg(&c.cr, &c.sr, &[])).map_err(|x| Violation::new("prf", format!("{x:?}")))?;
    ensure!(sv.exporter.is_empty() || k == sv.exporter, "keys-differ", "client and server completed the handshake with different keys");
    ensure!(c.leaf == s.w.leaf_der(), "identity", "client completed with a certificate the server never sent");
    Ok(())
}

pub fn r10_hostile(sim: &Sim) -> RunResult {
    let s = setup(sim, false)?;
    let ex = Exec::new(sim);
    let lc = LinkCfg::draw(sim, "tcp");
    let (a, m1, c1) = pair(&ex, lc.clone());
    let (m2, b, c2) = pair(&ex, LinkCfg { name: "tcp2", ..lc });
    let (co, so) = (Rc::new(RefCell::new(ClientOut::default())), Rc::new(RefCell::new(ServerOut::default())));
    let n = sim.pick(3);
    let mut hits = vec![];
    for _ in 0..n {
        let early = sim.chance(3, 4);
        let i = sim.pick(if early { 10 } else { 60 });
        hits.push((i * 2 + sim.pick(2), sim.pick(9)));
    }
    if sim.chance(1, 4) {
        // connection lost at an arbitrary byte
        let kind = [Cut::Eof, Cut::Reset][sim.index(2)];
        let at = sim.size(12_000);
        let c = if sim.chance(1, 2) { &c1 } else { &c2 };
        c.cut_after(sim.chance(1, 2), at, kind);
    }
    let hits = Rc::new(RefCell::new(hits));
    let n_hit = Rc::new(RefCell::new(0u64));
    let hc = ex.spawn("client", 0, { let (sim, plan, co) = (sim.clone(), s.plan.clone(), co.clone()); async move { let r = client(sim, a, plan, co.clone()).await; if let Err(x) = &r { co.borrow_mut().err = Some(x.clone()); } } });
    let hs = ex.spawn("server", 1, { let (cfg, so, rep, l) = (s.cfg.clone(), so.clone(), s.reply.clone(), s.req.len()); async move { let r = server(b, cfg, l, rep, so.clone()).await; if let Err(x) = &r { so.borrow_mut().err = Some(x.clone()); } } });
    let (m1r, m1w) = m1.split();
    let (m2r, m2w) = m2.split();
    ex.spawn("relay_c2s", 2, relay(sim.clone(), m1r, m2w, true, hits.clone(), n_hit.clone()));
    ex.spawn("relay_s2c", 2, relay(sim.clone(), m2r, m1w, false, hits.clone(), n_hit.clone()));
    let mut stop = ex.run(&[hc.id(), hs.id()], 2_000_000);
    let stalled = stop == Stop::Deadlock;
    if stalled {
        // what a transport timeout does
        sim.fault("transport_timeout");
        c1.cut(Cut::Eof);
        c2.cut(Cut::Eof);
        stop = ex.run(&[hc.id(), hs.id()], 2_000_000);
    }
    let pend = ex.pending_names();
    ex.shutdown();
    let (c, sv) = (co.borrow().clone(), so.borrow().clone());
    ev!(sim, "client err={:?} done={} recv={} | server err={:?} done={} recv={}", c.err, c.handshake_done, c.received.len(), sv.err, sv.handshake_done, sv.received.len());
    ensure!(stop == Stop::Done, "stuck", "an end never noticed that the connection was gone ({stop:?}): {pend:?}");
    ensure!(s.req.starts_with(&sv.received), "data", "server accepted bytes the client did not send");
    ensure!(s.reply.starts_with(&c.received), "data", "client accepted bytes the server did not send");
    ensure!(!c.clean_close || c.received == s.reply, "truncation", "client saw an orderly close after {} of {} bytes", c.received.len(), s.reply.len());
    ensure!(!sv.clean_close || sv.received == s.req, "truncation", "server saw an orderly close after {} of {} bytes", sv.received.len(), s.req.len());
    if c.handshake_done {
        ensure!(sv.handshake_done, "half-open", "client finished a handshake that the server did not finish");
        agree(&c, &sv, &s)?;
        sim.probe("handshake_completed");
    } else { sim.probe("handshake_refused"); }
    if *n_hit.borrow() == 0 && !c1.is_cut() && !c2.is_cut() && !stalled {
        ensure!(c.err.is_none() && sv.err.is_none(), "client-failed", "undisturbed connection failed: {:?} / {:?}", c.err, sv.err);
    }
    if *n_hit.borrow() > 0 || c1.is_cut() || c2.is_cut() { sim.stat_nontrivial(); }
    sim.state((c.handshake_done as u64) | (sv.handshake_done as u64) << 1 | (c.clean_close as u64) << 2 | (sv.clean_close as u64) << 3 | simkit::rng::hash_bytes(1, format!("{:?}{:?}", c.err, sv.err).as_bytes()) << 8);
    Ok(())
}
