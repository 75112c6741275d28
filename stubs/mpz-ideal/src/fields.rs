//! Finite fields.
use rand::Rng;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::ops::{Add, Mul, Neg, Sub};

pub trait UniformRand: Sized {
    fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self;
}
pub trait Field:
    UniformRand + Copy + Clone + std::fmt::Debug + PartialEq + Eq + Send + Sync + Unpin + 'static
    + Add<Output = Self> + Mul<Output = Self> + Sub<Output = Self> + Neg<Output = Self> + Serialize + DeserializeOwned
{
    fn zero() -> Self;
    fn one() -> Self;
    fn inverse(self) -> Option<Self>;
    fn to_be_bytes(&self) -> Vec<u8>;
    fn to_le_bytes(&self) -> Vec<u8> { let mut v = self.to_be_bytes(); v.reverse(); v }
}

pub mod gf2_128 {
    use super::*;
    /// GF(2^128) with the GCM polynomial, least significant coefficient first.
    #[derive(Copy, Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Default)]
    pub struct Gf2_128(u128);
    impl Gf2_128 {
        pub fn new(v: u128) -> Self { Gf2_128(v) }
        pub fn to_inner(self) -> u128 { self.0 }
    }
    impl From<crate::Block> for Gf2_128 { fn from(b: crate::Block) -> Self { Gf2_128(u128::from_be_bytes(b.to_bytes())) } }
    impl From<Gf2_128> for crate::Block { fn from(f: Gf2_128) -> Self { f.0.to_be_bytes().into() } }
    impl Add for Gf2_128 { type Output = Self; fn add(self, o: Self) -> Self { Gf2_128(self.0 ^ o.0) } }
    impl Sub for Gf2_128 { type Output = Self; fn sub(self, o: Self) -> Self { Gf2_128(self.0 ^ o.0) } }
    impl Neg for Gf2_128 { type Output = Self; fn neg(self) -> Self { self } }
    impl Mul for Gf2_128 {
        type Output = Self;
        fn mul(self, o: Self) -> Self {
            let (mut z, mut v) = (0u128, self.0);
            for i in 0..128 {
                if o.0 >> i & 1 == 1 { z ^= v }
                let c = v >> 127;
                v <<= 1;
                if c == 1 { v ^= 0x87 }
            }
            Gf2_128(z)
        }
    }
    impl UniformRand for Gf2_128 { fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self { Gf2_128(rng.random()) } }
    impl Field for Gf2_128 {
        fn zero() -> Self { Gf2_128(0) }
        fn one() -> Self { Gf2_128(1) }
        fn inverse(self) -> Option<Self> {
            if self.0 == 0 { return None }
            // a^(2^128 - 2)
            let (mut r, mut s) = (Self::one(), self);
            for _ in 1..128 { s = s * s; r = r * s }
            Some(r)
        }
        fn to_be_bytes(&self) -> Vec<u8> { self.0.to_be_bytes().to_vec() }
    }
}

pub mod p256 {
    use super::*;
    type Fe = ec256::Fe<ec256::P256P>;
    /// The base field of P-256.
    #[derive(Copy, Clone, PartialEq, Eq)]
    pub struct P256(Fe);
    impl std::fmt::Debug for P256 {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "P256({:02x?})", self.0.to_be()) }
    }
    #[derive(Debug, thiserror::Error)]
    #[error("invalid field element")]
    pub struct FieldError;
    impl TryFrom<[u8; 32]> for P256 {
        type Error = FieldError;
        /// Little endian.
        fn try_from(mut b: [u8; 32]) -> Result<Self, FieldError> {
            b.reverse();
            Fe::from_be_checked(&b).map(P256).ok_or(FieldError)
        }
    }
    impl Add for P256 { type Output = Self; fn add(self, o: Self) -> Self { P256(self.0 + o.0) } }
    impl Sub for P256 { type Output = Self; fn sub(self, o: Self) -> Self { P256(self.0 - o.0) } }
    impl Mul for P256 { type Output = Self; fn mul(self, o: Self) -> Self { P256(self.0 * o.0) } }
    impl Neg for P256 { type Output = Self; fn neg(self) -> Self { P256(-self.0) } }
    impl Serialize for P256 {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.to_be().serialize(s) }
    }
    impl<'de> Deserialize<'de> for P256 {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let b = <[u8; 32]>::deserialize(d)?;
            Fe::from_be_checked(&b).map(P256).ok_or_else(|| serde::de::Error::custom("invalid field element"))
        }
    }
    impl UniformRand for P256 {
        fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self {
            loop {
                let b: [u8; 32] = rng.random();
                if let Some(f) = Fe::from_be_checked(&b) { return P256(f) }
            }
        }
    }
    impl Field for P256 {
        fn zero() -> Self { P256(Fe::from_be_checked(&[0; 32]).unwrap()) }
        fn one() -> Self { let mut b = [0; 32]; b[31] = 1; P256(Fe::from_be_checked(&b).unwrap()) }
        fn inverse(self) -> Option<Self> { if self == Self::zero() { None } else { self.0.inv().map(P256) } }
        fn to_be_bytes(&self) -> Vec<u8> { self.0.to_be().to_vec() }
    }
}
