import sys; sys.path.insert(0,'/verif/tools')
from plant import plant
T='tls-core/src/'
DF='''use std::io;
use tls_core::msgs::deframer::MessageDeframer;
struct R(Vec<Vec<u8>>);
impl io::Read for R { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
    if self.0.is_empty() { return Ok(0); }
    let mut c = self.0.remove(0);
    let n = c.len().min(b.len()); b[..n].copy_from_slice(&c[..n]);
    if n < c.len() { self.0.insert(0, c.split_off(n)); }
    Ok(n) } }
fn rec(t: u8, n: usize) -> Vec<u8> { let mut v = vec![t, 3, 3, (n >> 8) as u8, n as u8]; v.extend(vec![7; n]); v }
'''
plant('b01-deframer-compact','R01','a full-size record followed by another record in the same read','records that follow a maximal record in one delivery lose bytes',
 [(T+'msgs/deframer.rs','''            self.buf.copy_within(taken..self.used, 0);
            self.used -= taken;''','''            // Never move more than one record payload worth of pending data.
            let pending = (self.used - taken).min(1 << 14);
            self.buf.copy_within(taken..taken + pending, 0);
            self.used = pending;''')],
 DF+'''fn main() {
    let mut w = rec(23, 3); w.extend(rec(23, 17000));
    let mut d = MessageDeframer::new();
    let mut r = R(vec![w]);
    while d.read(&mut r).unwrap() > 0 {}
    assert_eq!(d.frames.iter().map(|f| f.payload.0.len()).collect::<Vec<_>>(), [3, 17000]);
}
''')
plant('b03-resync','R02','a malformed record in the stream followed by well-formed bytes in a later read','after a malformed record the receiver resynchronises and delivers later bytes as records',
 [(T+'msgs/deframer.rs','''        let new_bytes = rd.read(&mut self.buf[self.used..]).await?;
''','''        if self.desynced {
            // Nothing buffered is usable any more, release it.
            self.used = 0;
        }
        let new_bytes = rd.read(&mut self.buf[self.used..]).await?;
''')],
 '''use tls_core::msgs::deframer::MessageDeframer;
fn main() {
    let mut d = MessageDeframer::new();
    let bad: &[u8] = &[99, 3, 3, 0, 1, 5];
    let good: &[u8] = &[23, 3, 3, 0, 2, 1, 2];
    futures::executor::block_on(async {
        let mut b = futures::io::Cursor::new(bad);
        d.read_async(&mut b).await.unwrap();
        assert!(d.desynced);
        let mut b = futures::io::Cursor::new(good);
        d.read_async(&mut b).await.unwrap();
    });
    assert!(d.frames.is_empty());
}
''','futures = "0.3"\n')
plant('b05-limit-leak','R03','a refused limit change on a fragmenter, then further messages','a refused fragment limit stays in force',
 [(T+'msgs/fragmenter.rs','''        self.max_frag = match new {
            Some(sz @ 32..=MAX_FRAGMENT_SIZE) => sz - PACKET_OVERHEAD,
            None => MAX_FRAGMENT_LEN,
            _ => return Err(Error::BadMaxFragmentSize),
        };
        Ok(())''','''        self.max_frag = match new {
            Some(sz) => sz.clamp(PACKET_OVERHEAD + 1, MAX_FRAGMENT_SIZE) - PACKET_OVERHEAD,
            None => MAX_FRAGMENT_LEN,
        };
        match new {
            Some(32..=MAX_FRAGMENT_SIZE) | None => Ok(()),
            _ => Err(Error::BadMaxFragmentSize),
        }''')],
 '''use tls_core::msgs::{base::Payload, enums::*, fragmenter::MessageFragmenter, message::PlainMessage};
fn main() {
    let mut f = MessageFragmenter::new(Some(1000)).unwrap();
    assert!(f.set_max_fragment_size(Some(8)).is_err());
    let mut q = Default::default();
    f.fragment(PlainMessage { typ: ContentType::ApplicationData, version: ProtocolVersion::TLSv1_2, payload: Payload::new(vec![1; 900]) }, &mut q);
    assert_eq!(q.len(), 1);
}
''')
plant('b06-joiner-residue','R04','one record carrying the end of a message, and the start of the next one split again later','handshake bytes left over after a completed message are dropped when they are shorter than a header',
 [(T+'msgs/hsjoiner.rs','''                BufferState::NeedsMoreData => break,
                BufferState::OneMessage => {''','''                BufferState::NeedsMoreData => {
                    if count > 1 && self.buf.len() < HEADER_SIZE {
                        // Trailing padding of a coalesced flight.
                        self.buf.clear();
                    }
                    break;
                }
                BufferState::OneMessage => {''')],
 '''use tls_core::msgs::{base::Payload, enums::*, hsjoiner::HandshakeJoiner, message::PlainMessage};
fn main() {
    let m = |b: &[u8]| PlainMessage { typ: ContentType::Handshake, version: ProtocolVersion::TLSv1_2, payload: Payload::new(b.to_vec()) };
    let mut j = HandshakeJoiner::new();
    let all = [14u8, 0, 0, 0, 14, 0, 0, 0, 20, 0, 0, 2, 9, 9];
    assert_eq!(j.take_message(m(&all[..10])), Some(2));
    assert!(!j.is_empty());
    assert_eq!(j.take_message(m(&all[10..])), Some(1));
}
''')
plant('b07-extension-slack','R05','a ServerHello extension with bytes after its value, as a hostile or odd server may send','trailing bytes of known empty extensions are accepted and dropped, so the re-encoded transcript differs from what was received',
 [(T+'msgs/handshake.rs','''            ExtensionType::EarlyData => Self::EarlyData,
            _ => Self::Unknown(UnknownExtension::read(typ, &mut sub)),
        };

        if sub.any_left() {
            None
        } else {
            Some(ext)
        }
    }
}

impl ServerExtension {''','''            ExtensionType::EarlyData => Self::EarlyData,
            _ => Self::Unknown(UnknownExtension::read(typ, &mut sub)),
        };

        let acknowledgement = matches!(ext, Self::ServerNameAck | Self::SessionTicketAck);
        if sub.any_left() && !acknowledgement {
            None
        } else {
            Some(ext)
        }
    }
}

impl ServerExtension {''')],
 '''use tls_core::msgs::{codec::{Codec, Reader}, handshake::ServerExtension};
fn main() {
    let b = [0u8, 0, 0, 2, 1, 2];
    if let Some(e) = ServerExtension::read(&mut Reader::init(&b)) { assert_eq!(e.get_encoding(), b); }
}
''')
plant('b09-any-alg','R08','a server whose key is not the first candidate for the scheme','the recorded algorithm is the first candidate of the scheme instead of the one that verified',
 [(T+'verify.rs','            Ok(_) => return Ok(SignatureAlgorithm::from_alg(*alg)),','            Ok(_) => return Ok(SignatureAlgorithm::from_alg(algs[0])),')],
 '''use ring::signature::{EcdsaKeyPair, KeyPair, ECDSA_P384_SHA384_ASN1_SIGNING as A};
use tls_core::{key::Certificate, msgs::{codec::{Codec, Reader}, handshake::DigitallySignedStruct}, verify::*};
fn tlv(t: u8, b: &[u8]) -> Vec<u8> { let mut v = vec![t]; if b.len() < 128 { v.push(b.len() as u8) } else if b.len() < 256 { v.extend([0x81, b.len() as u8]) } else { v.extend([0x82, (b.len() >> 8) as u8, b.len() as u8]) } v.extend(b); v }
fn main() {
    let r = ring::rand::SystemRandom::new();
    let k = EcdsaKeyPair::generate_pkcs8(&A, &r).unwrap();
    let k = EcdsaKeyPair::from_pkcs8(&A, k.as_ref(), &r).unwrap();
    let alg = tlv(0x30, &tlv(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 3]));
    let name = tlv(0x30, &[]);
    let t = tlv(0x17, b"200101000000Z");
    let spki = tlv(0x30, &[tlv(0x30, &[tlv(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1]), tlv(6, &[0x2b, 0x81, 4, 0, 0x22])].concat()), tlv(3, &[&[0][..], k.public_key().as_ref()].concat())].concat());
    let tbs = tlv(0x30, &[tlv(0xa0, &tlv(2, &[2])), tlv(2, &[1]), alg.clone(), name.clone(), tlv(0x30, &[t.clone(), t].concat()), name, spki].concat());
    let sig = k.sign(&r, &tbs).unwrap();
    let cert = tlv(0x30, &[tbs, alg, tlv(3, &[&[0][..], sig.as_ref()].concat())].concat());
    let s = k.sign(&r, b"msg").unwrap();
    let mut w = vec![5, 3, 0, s.as_ref().len() as u8];
    w.extend(s.as_ref());
    let dss = DigitallySignedStruct::read(&mut Reader::init(&w)).unwrap();
    let got = verify_sig_determine_alg(&Certificate(cert), b"msg", &dss).unwrap();
    assert_eq!(got, SignatureAlgorithm::ECDSA_NISTP384_SHA384);
}
''','ring = "0.17"\n')
plant('b10-serde-random','R07','a stored handshake of a server that sent signed certificate timestamps','the timestamps are lost when handshake evidence is stored and reloaded, so the reloaded evidence differs and transparency policy is bypassed',
 [(T+'cert.rs','    scts: Option<SCTList>,\n}\n\nimpl ServerCertDetails','    #[cfg_attr(feature = "serde", serde(skip))]\n    scts: Option<SCTList>,\n}\n\nimpl ServerCertDetails')],
 '''use tls_core::{cert::ServerCertDetails, msgs::{base::PayloadU16, handshake::CertificatePayload}};
fn main() {
    let d = ServerCertDetails::new(CertificatePayload::default(), vec![1], Some(vec![PayloadU16::new(vec![9, 9])]));
    let b = serde_json::to_vec(&d).unwrap();
    let r: ServerCertDetails = serde_json::from_slice(&b).unwrap();
    assert_eq!(r.scts().map(|s| s.len()), Some(1));
}
''','serde_json = "1"\n')
plant('b11-prf-tail','R09','a derived key whose output length is not a multiple of the hash size and spans several blocks','the last partial block of key material is taken from the wrong end of the hash output',
 [(T+'prf.rs','        chunk.copy_from_slice(&p_term.finalize().into_bytes()[..chunk.len()]);','        let block = p_term.finalize().into_bytes();\n        let skip = if chunk.len() < 12 { 32 - chunk.len() } else { 0 };\n        chunk.copy_from_slice(&block[skip..skip + chunk.len()]);')],
 '''fn main() {
    let mut a = [0u8; 40];
    let mut b = [0u8; 64];
    tls_core::prf::prf(&mut a, &[1; 48], b"key expansion", &[2; 64]).unwrap();
    tls_core::prf::prf(&mut b, &[1; 48], b"key expansion", &[2; 64]).unwrap();
    assert_eq!(a[..], b[..40]);
}
''')
plant('b02-deframe-burst','R01','more than 64 complete records in one delivery, after which nothing more arrives','records beyond the 64th in one delivery stay undelivered until more bytes arrive',
 [(T+'msgs/deframer.rs',"""        let new_bytes = rd.read(&mut self.buf[self.used..]).await?;

        self.used += new_bytes;

        loop {
            match self.try_deframe_one() {""","""        let new_bytes = rd.read(&mut self.buf[self.used..]).await?;

        self.used += new_bytes;

        let queued = self.frames.len();
        loop {
            // Bound the work done per wakeup.
            if self.frames.len() - queued >= 64 {
                break;
            }
            match self.try_deframe_one() {""")],
 DF.replace('struct R','#[allow(dead_code)] struct R')+"""fn main() {
    let w: Vec<u8> = (0..100).flat_map(|_| rec(23, 1)).collect();
    let mut d = MessageDeframer::new();
    futures::executor::block_on(async {
        let mut r = futures::io::Cursor::new(&w[..]);
        while d.read_async(&mut r).await.unwrap() > 0 {
            if futures::AsyncReadExt::read(&mut r.clone(), &mut [0; 1]).await.unwrap() == 0 { break; }
        }
    });
    assert_eq!(d.frames.len(), 100);
}
""",'futures = "0.3"\n')
plant('b04-empty-alert','R02','an empty record of a type other than application data and handshake','an empty alert or change-cipher-spec record is delivered instead of being reported as malformed',
 [(T+'msgs/message.rs','        if typ != ContentType::ApplicationData && len == 0 {','        if matches!(typ, ContentType::Handshake | ContentType::Heartbeat) && len == 0 {')],
 DF+"""fn main() {
    for t in [20, 21, 22] {
        let mut d = MessageDeframer::new();
        d.read(&mut R(vec![rec(t, 0)])).unwrap();
        assert!(d.desynced && d.frames.is_empty());
    }
}
""")
CERT=open('/verif/tools/demo_cert.rs').read()
plant('b08-clock-minute','R06','a clock within the minute of a certificate becoming valid or expiring','validity is judged at the start of the current minute, so a certificate is accepted for up to a minute after it expired',
 [(T+'verify.rs','        let time = pki_types::UnixTime::since_unix_epoch(now.duration_since(UNIX_EPOCH)?);','        let since_epoch = now.duration_since(UNIX_EPOCH)?;\n        // Certificates are issued with minute granularity.\n        let minute = std::time::Duration::from_secs(since_epoch.as_secs() / 60 * 60);\n        let time = pki_types::UnixTime::since_unix_epoch(minute);')],
 CERT+"""fn main() {
    let (v, leaf) = world();
    assert!(check(&v, &leaf, "server.test", 1_600_000_010));
    assert!(!check(&v, &leaf, "server.test", 1_893_456_031));
}
""",'ring = "0.17"\nweb-time = "0.2"\nrustls-pki-types = "1"\nwebpki = { package = "rustls-webpki", version = "0.103", features = ["ring"] }\n')
plant('b12-path-memo','R06','the same chain verified again by the same process at a later time','a chain that was accepted once is accepted again later without looking at the clock',
 [(T+'verify.rs',"""        cert.verify_for_usage(
            webpki::ALL_VERIFICATION_ALGS,
            &self.roots.roots,
            &intermediates,
            time,
            webpki::KeyUsage::server_auth(),
            None,
            None,
        )
        .map(|_| ())
        .map_err(pki_error)?;
""","""        // Path building dominates the cost of a re-verification, remember the last success.
        let key = (end_entity.0.clone(), self.roots.roots.len());
        if self.last_path.lock().unwrap().as_ref() != Some(&key) {
            cert.verify_for_usage(
                webpki::ALL_VERIFICATION_ALGS,
                &self.roots.roots,
                &intermediates,
                time,
                webpki::KeyUsage::server_auth(),
                None,
                None,
            )
            .map(|_| ())
            .map_err(pki_error)?;
            *self.last_path.lock().unwrap() = Some(key);
        }
"""),
 (T+'verify.rs',"""    roots: RootCertStore,
    ct_policy: Option<CertificateTransparencyPolicy>,
}
""","""    roots: RootCertStore,
    ct_policy: Option<CertificateTransparencyPolicy>,
    last_path: std::sync::Arc<std::sync::Mutex<Option<(Vec<u8>, usize)>>>,
}
"""),
 (T+'verify.rs','        Self { roots, ct_policy }','        Self { roots, ct_policy, last_path: Default::default() }')],
 CERT+"""fn main() {
    let (v, leaf) = world();
    assert!(check(&v, &leaf, "server.test", 1_600_000_010));
    assert!(!check(&v, &leaf, "server.test", 1_993_456_031));
}
""",'ring = "0.17"\nweb-time = "0.2"\nrustls-pki-types = "1"\nwebpki = { package = "rustls-webpki", version = "0.103", features = ["ring"] }\n')
plant('b13-large-unknown','R04','a handshake message of one particular unknown type that announces more than the size limit','the size limit on handshake messages is not applied to an unknown message type, whose data is buffered without end',
 [(T+'msgs/hsjoiner.rs','            Some(len) if len.0 > MAX_HANDSHAKE_SIZE => BufferState::MessageTooLarge,','            // Certificate URLs may point at bundles, never refuse them here.\n            Some(len) if len.0 > MAX_HANDSHAKE_SIZE && header[0] != 21 => {\n                BufferState::MessageTooLarge\n            }')],
 '''use tls_core::msgs::{enums::*, hsjoiner::HandshakeJoiner, message::PlainMessage, base::Payload};
fn main() {
    for t in 0..=255u8 {
        let mut j = HandshakeJoiner::new();
        let m = PlainMessage { typ: ContentType::Handshake, version: ProtocolVersion::TLSv1_2, payload: Payload::new(vec![t, 1, 0, 0, 9]) };
        assert!(j.take_message(m).is_none(), "type {t}");
    }
}
''')
plant('b14-read-interrupted','R01','a read that is interrupted while part of a record is buffered','an interrupted read is reported as the end of the stream, so the rest of the connection is lost',
 [(T+'msgs/deframer.rs','        let new_bytes = rd.read(&mut self.buf[self.used..])?;','        let new_bytes = match rd.read(&mut self.buf[self.used..]) {\n            // Keep what arrived so far, the caller tries again.\n            Err(e) if e.kind() == io::ErrorKind::Interrupted && self.used > 0 => 0,\n            other => other?,\n        };')],
 DF.replace('struct R','#[allow(dead_code)] struct R')+'''struct S(usize, Vec<u8>);
impl io::Read for S { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
    self.0 += 1;
    if self.0 == 2 { return Err(io::ErrorKind::Interrupted.into()); }
    let n = self.1.len().min(b.len()).min(9);
    b[..n].copy_from_slice(&self.1[..n]); self.1.drain(..n); Ok(n) } }
fn main() {
    let mut s = S(0, rec(23, 100));
    let mut d = MessageDeframer::new();
    loop {
        match d.read(&mut s) {
            Ok(0) => break,
            Ok(_) => {}
            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(e) => panic!("{e}"),
        }
    }
    assert_eq!(d.frames.len(), 1);
}
''')
plant('b15-many-extensions','R05','a client hello with more than 64 extensions','a well-formed client hello with many extensions is refused',
 [(T+'msgs/handshake.rs','''            ret.extensions = codec::read_vec_u16::<ClientExtension>(r)?;
        }

        if r.any_left() || ret.extensions.is_empty() {''','''            ret.extensions = codec::read_vec_u16::<ClientExtension>(r)?;
        }

        // Duplicates are searched for in quadratic time, bound the work.
        let unreasonable = ret.extensions.len() > 64;
        if r.any_left() || ret.extensions.is_empty() || unreasonable {''')],
 '''use tls_core::msgs::{codec::*, enums::*, handshake::*, base::Payload};
fn main() {
    let h = ClientHelloPayload {
        client_version: ProtocolVersion::TLSv1_2,
        random: Random([5; 32]),
        session_id: SessionID::empty(),
        cipher_suites: vec![CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256],
        compression_methods: vec![Compression::Null],
        extensions: (0..80u16).map(|i| ClientExtension::Unknown(UnknownExtension { typ: ExtensionType::Unknown(0x5000 + i), payload: Payload::new(vec![i as u8]) })).collect(),
    };
    let mut b = vec![];
    h.encode(&mut b);
    assert_eq!(ClientHelloPayload::read_bytes(&b).expect("decodes").extensions.len(), 80);
}
''')
plant('b16-queued-length','R02','a record of illegal length that arrives behind complete records not yet taken','a record with an illegal length is waited for instead of being reported when other records are queued',
 [(T+'msgs/deframer.rs','''            Err(_) => BufferContents::Invalid,''','''            // Let the caller take the complete records before looking at this one.
            Err(MessageError::IllegalLength) if !self.frames.is_empty() => BufferContents::Partial,
            Err(_) => BufferContents::Invalid,''')],
 DF+'''fn main() {
    let mut w = rec(23, 3);
    w.extend([22, 3, 3, 0, 0]);
    w.extend(rec(23, 4));
    let mut d = MessageDeframer::new();
    let mut r = R(vec![w]);
    while !d.desynced && d.read(&mut r).unwrap() > 0 {}
    assert!(d.desynced);
    assert_eq!(d.frames.len(), 1);
}
''')
