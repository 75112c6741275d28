use ring::signature::{EcdsaKeyPair, KeyPair, ECDSA_P256_SHA256_ASN1_SIGNING as A};
use tls_core::{anchors::RootCertStore, dns::ServerName, key::Certificate, verify::*};
use web_time::{Duration, SystemTime, UNIX_EPOCH};
fn tlv(t: u8, b: &[u8]) -> Vec<u8> { let mut v = vec![t]; if b.len() < 128 { v.push(b.len() as u8) } else if b.len() < 256 { v.extend([0x81, b.len() as u8]) } else { v.extend([0x82, (b.len() >> 8) as u8, b.len() as u8]) } v.extend(b); v }
fn key() -> EcdsaKeyPair {
    let r = ring::rand::SystemRandom::new();
    EcdsaKeyPair::from_pkcs8(&A, EcdsaKeyPair::generate_pkcs8(&A, &r).unwrap().as_ref(), &r).unwrap()
}
fn cn(n: &str) -> Vec<u8> { tlv(0x30, &tlv(0x31, &tlv(0x30, &[tlv(6, &[0x55, 4, 3]), tlv(0x0c, n.as_bytes())].concat()))) }
// valid from 2001-01-01 to 2030-01-01
fn cert(subject: &str, k: &EcdsaKeyPair, by: &EcdsaKeyPair, ext: Vec<u8>) -> Vec<u8> {
    let alg = tlv(0x30, &tlv(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2]));
    let spki = tlv(0x30, &[tlv(0x30, &[tlv(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1]), tlv(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7])].concat()), tlv(3, &[&[0][..], k.public_key().as_ref()].concat())].concat());
    let time = tlv(0x30, &[tlv(0x17, b"010101000000Z"), tlv(0x17, b"300101000000Z")].concat());
    let tbs = tlv(0x30, &[tlv(0xa0, &tlv(2, &[2])), tlv(2, &[1]), alg.clone(), cn("Root"), time, cn(subject), spki, tlv(0xa3, &tlv(0x30, &ext))].concat());
    let sig = by.sign(&ring::rand::SystemRandom::new(), &tbs).unwrap();
    tlv(0x30, &[tbs, alg, tlv(3, &[&[0][..], sig.as_ref()].concat())].concat())
}
fn world() -> (WebPkiVerifier, Vec<u8>) {
    let (root, leaf) = (key(), key());
    let ca = cert("Root", &root, &root, tlv(0x30, &[tlv(6, &[0x55, 0x1d, 0x13]), tlv(1, &[0xff]), tlv(4, &tlv(0x30, &tlv(1, &[0xff])))].concat()));
    let l = cert("leaf", &leaf, &root, tlv(0x30, &[tlv(6, &[0x55, 0x1d, 0x11]), tlv(4, &tlv(0x30, &tlv(0x82, b"server.test")))].concat()));
    let roots = RootCertStore { roots: vec![webpki::anchor_from_trusted_cert(&rustls_pki_types::CertificateDer::from(ca)).unwrap().to_owned()] };
    (WebPkiVerifier::new(roots, None), l)
}
fn check(v: &WebPkiVerifier, leaf: &[u8], name: &str, t: u64) -> bool {
    let now: SystemTime = UNIX_EPOCH + Duration::from_secs(t);
    v.verify_server_cert(&Certificate(leaf.to_vec()), &[], &ServerName::try_from(name).unwrap(), &mut std::iter::empty(), &[], now).is_ok()
}
