//! Stand-in for the RustCrypto curve crate, over `ec256`.
use ec256::{Fe, Point};
use generic_array::GenericArray;
use rand_core::CryptoRngCore;

type C = ec256::NistP256;
type N = <C as ec256::Curve>::N;
pub type FieldBytes = GenericArray<u8, typenum::U32>;

fn rand_scalar<R: CryptoRngCore + ?Sized>(rng: &mut R) -> Fe<N> {
    loop {
        let mut b = [0u8; 32];
        rng.fill_bytes(&mut b);
        if let Some(v) = Fe::from_be_checked(&b) {
            if !v.is_zero() { return v; }
        }
    }
}

pub mod elliptic_curve {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("crypto error") }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
    pub mod sec1 {
        use crate::*;
        pub trait ToEncodedPoint { fn to_encoded_point(&self, compress: bool) -> EncodedPoint; }
        impl ToEncodedPoint for PublicKey {
            fn to_encoded_point(&self, compress: bool) -> EncodedPoint { EncodedPoint::of(&self.0, compress) }
        }
        impl ToEncodedPoint for AffinePoint {
            fn to_encoded_point(&self, compress: bool) -> EncodedPoint { EncodedPoint::of(&self.0, compress) }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Scalar(Fe<N>);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct NonZeroScalar(Scalar);
impl NonZeroScalar {
    pub fn random(mut rng: impl CryptoRngCore) -> Self { NonZeroScalar(Scalar(rand_scalar(&mut rng))) }
}
impl AsRef<Scalar> for NonZeroScalar { fn as_ref(&self) -> &Scalar { &self.0 } }
impl std::ops::Deref for NonZeroScalar { type Target = Scalar; fn deref(&self) -> &Scalar { &self.0 } }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct AffinePoint(Point<C>);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ProjectivePoint(Point<C>);
impl ProjectivePoint {
    pub fn to_affine(&self) -> AffinePoint { AffinePoint(self.0) }
}
impl std::ops::Add for ProjectivePoint { type Output = Self; fn add(self, o: Self) -> Self { ProjectivePoint(self.0.add(&o.0)) } }
impl std::ops::Mul<&Scalar> for ProjectivePoint { type Output = Self; fn mul(self, k: &Scalar) -> Self { ProjectivePoint(self.0.mul(&k.0)) } }
impl std::ops::Mul<Scalar> for ProjectivePoint { type Output = Self; fn mul(self, k: Scalar) -> Self { ProjectivePoint(self.0.mul(&k.0)) } }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct PublicKey(Point<C>);
impl PublicKey {
    pub fn from_affine(a: AffinePoint) -> Result<Self, elliptic_curve::Error> {
        if a.0.is_identity() { Err(elliptic_curve::Error) } else { Ok(PublicKey(a.0)) }
    }
    pub fn to_projective(&self) -> ProjectivePoint { ProjectivePoint(self.0) }
    pub fn as_affine(&self) -> AffinePoint { AffinePoint(self.0) }
    pub fn from_sec1_bytes(b: &[u8]) -> Result<Self, elliptic_curve::Error> {
        Point::from_sec1(b).map(PublicKey).ok_or(elliptic_curve::Error)
    }
    pub fn to_sec1_bytes(&self) -> Box<[u8]> { self.0.to_sec1(false).into() }
    pub fn from_secret_scalar(s: &NonZeroScalar) -> Self { PublicKey(Point::generator().mul(&s.0.0)) }
}
impl From<PublicKey> for EncodedPoint { fn from(p: PublicKey) -> Self { EncodedPoint::of(&p.0, false) } }
impl From<&PublicKey> for EncodedPoint { fn from(p: &PublicKey) -> Self { EncodedPoint::of(&p.0, false) } }

#[cfg(feature = "serde")]
impl serde::Serialize for PublicKey {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        serde::Serialize::serialize(&self.0.to_sec1(false), s)
    }
}
#[cfg(feature = "serde")]
impl<'de> serde::Deserialize<'de> for PublicKey {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = <Vec<u8> as serde::Deserialize>::deserialize(d)?;
        PublicKey::from_sec1_bytes(&v).map_err(|_| serde::de::Error::custom("invalid point"))
    }
}

#[derive(Clone)]
pub struct SecretKey(Fe<N>);
impl std::fmt::Debug for SecretKey {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SecretKey(..)") }
}
impl SecretKey {
    pub fn random(rng: &mut impl CryptoRngCore) -> Self { SecretKey(rand_scalar(rng)) }
    pub fn from_slice(b: &[u8]) -> Result<Self, elliptic_curve::Error> {
        let b: &[u8; 32] = b.try_into().map_err(|_| elliptic_curve::Error)?;
        match Fe::from_be_checked(b) {
            Some(v) if !v.is_zero() => Ok(SecretKey(v)),
            _ => Err(elliptic_curve::Error),
        }
    }
    pub fn public_key(&self) -> PublicKey { PublicKey(Point::generator().mul(&self.0)) }
    pub fn to_nonzero_scalar(&self) -> NonZeroScalar { NonZeroScalar(Scalar(self.0)) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct EncodedPoint {
    x: Option<FieldBytes>,
    y: Option<FieldBytes>,
    odd: bool,
}
impl EncodedPoint {
    fn of(p: &Point<C>, compress: bool) -> Self {
        match p.affine() {
            None => EncodedPoint { x: None, y: None, odd: false },
            Some((x, y)) => EncodedPoint {
                x: Some(x.to_be().into()),
                y: (!compress).then(|| y.to_be().into()),
                odd: y.is_odd(),
            },
        }
    }
    pub fn x(&self) -> Option<&FieldBytes> { self.x.as_ref() }
    pub fn y(&self) -> Option<&FieldBytes> { self.y.as_ref() }
    pub fn to_bytes(&self) -> Box<[u8]> {
        match (&self.x, &self.y) {
            (Some(x), Some(y)) => [&[4u8][..], x, y].concat().into(),
            (Some(x), None) => [&[2 + self.odd as u8][..], x].concat().into(),
            _ => vec![0].into(),
        }
    }
}

pub mod ecdh {
    use super::*;
    pub struct SharedSecret(FieldBytes);
    impl SharedSecret { pub fn raw_secret_bytes(&self) -> &FieldBytes { &self.0 } }
    pub fn diffie_hellman(s: impl std::borrow::Borrow<NonZeroScalar>, p: AffinePoint) -> SharedSecret {
        SharedSecret(p.0.mul(&s.borrow().0.0).affine().expect("not identity").0.to_be().into())
    }
}

pub mod ecdsa {
    use super::*;
    use sha2::{Digest, Sha256};

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("signature error") }
    }
    impl std::error::Error for Error {}

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Signature { r: Fe<N>, s: Fe<N> }
    impl Signature {
        pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
            if b.len() != 64 { return Err(Error); }
            let r = Fe::from_be_checked(b[..32].try_into().unwrap()).ok_or(Error)?;
            let s = Fe::from_be_checked(b[32..].try_into().unwrap()).ok_or(Error)?;
            if r.is_zero() || s.is_zero() { return Err(Error); }
            Ok(Signature { r, s })
        }
        pub fn to_vec(&self) -> Vec<u8> { [self.r.to_be(), self.s.to_be()].concat() }
        pub fn to_bytes(&self) -> GenericArray<u8, typenum::U64> { GenericArray::clone_from_slice(&self.to_vec()) }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct RecoveryId(u8);
    impl RecoveryId { pub fn to_byte(self) -> u8 { self.0 } pub fn is_y_odd(self) -> bool { self.0 & 1 == 1 } }

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct VerifyingKey(Point<C>);
    impl VerifyingKey {
        pub fn from_sec1_bytes(b: &[u8]) -> Result<Self, Error> { Point::from_sec1(b).map(VerifyingKey).ok_or(Error) }
        pub fn to_sec1_bytes(&self) -> Box<[u8]> { self.0.to_sec1(true).into() }
    }
    #[derive(Clone)]
    pub struct SigningKey { d: Fe<N>, q: VerifyingKey }
    impl std::fmt::Debug for SigningKey {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SigningKey(..)") }
    }
    impl SigningKey {
        pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
            let k = SecretKey::from_slice(b).map_err(|_| Error)?;
            Ok(SigningKey { d: k.0, q: VerifyingKey(k.public_key().0) })
        }
        pub fn random(rng: &mut impl CryptoRngCore) -> Self {
            let k = SecretKey::random(rng);
            SigningKey { d: k.0, q: VerifyingKey(k.public_key().0) }
        }
        pub fn to_bytes(&self) -> FieldBytes { self.d.to_be().into() }
        pub fn verifying_key(&self) -> &VerifyingKey { &self.q }
        pub fn sign_prehash_recoverable(&self, z: &[u8]) -> Result<(Signature, RecoveryId), Error> {
            if z.len() < 16 { return Err(Error); }
            let (r, s, v) = ec256::ecdsa::sign::<C>(&self.d, &pad(z));
            Ok((Signature { r, s }, RecoveryId(v)))
        }
    }
    fn pad(z: &[u8]) -> [u8; 32] {
        let mut o = [0u8; 32];
        if z.len() >= 32 { o.copy_from_slice(&z[..32]); } else { o[32 - z.len()..].copy_from_slice(z); }
        o
    }
    pub mod signature {
        pub use super::Error;
        pub trait Signer<S> {
            fn try_sign(&self, msg: &[u8]) -> Result<S, Error>;
            fn sign(&self, msg: &[u8]) -> S { self.try_sign(msg).expect("signature operation failed") }
        }
        pub trait SignerMut<S> {
            fn try_sign(&mut self, msg: &[u8]) -> Result<S, Error>;
            fn sign(&mut self, msg: &[u8]) -> S { self.try_sign(msg).expect("signature operation failed") }
        }
        impl<S, T: Signer<S>> SignerMut<S> for T {
            fn try_sign(&mut self, msg: &[u8]) -> Result<S, Error> { Signer::try_sign(self, msg) }
        }
        pub trait Verifier<S> { fn verify(&self, msg: &[u8], sig: &S) -> Result<(), Error>; }
        pub mod hazmat {
            use super::Error;
            pub trait PrehashVerifier<S> { fn verify_prehash(&self, prehash: &[u8], sig: &S) -> Result<(), Error>; }
            pub trait PrehashSigner<S> { fn sign_prehash(&self, prehash: &[u8]) -> Result<S, Error>; }
        }
    }
    impl signature::Signer<Signature> for SigningKey {
        fn try_sign(&self, msg: &[u8]) -> Result<Signature, Error> {
            let (r, s, _) = ec256::ecdsa::sign::<C>(&self.d, &Sha256::digest(msg).into());
            Ok(Signature { r, s })
        }
    }
    impl signature::hazmat::PrehashSigner<Signature> for SigningKey {
        fn sign_prehash(&self, z: &[u8]) -> Result<Signature, Error> { self.sign_prehash_recoverable(z).map(|s| s.0) }
    }
    impl signature::Verifier<Signature> for VerifyingKey {
        fn verify(&self, msg: &[u8], sig: &Signature) -> Result<(), Error> {
            signature::hazmat::PrehashVerifier::verify_prehash(self, &Sha256::digest(msg), sig)
        }
    }
    impl signature::hazmat::PrehashVerifier<Signature> for VerifyingKey {
        fn verify_prehash(&self, z: &[u8], sig: &Signature) -> Result<(), Error> {
            if z.len() < 16 { return Err(Error); }
            if ec256::ecdsa::verify::<C>(&self.0, &pad(z), &sig.r, &sig.s) { Ok(()) } else { Err(Error) }
        }
    }
}
