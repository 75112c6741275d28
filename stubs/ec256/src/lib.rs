//! Small 256-bit short-Weierstrass arithmetic (Montgomery form), shared by the
//! p256 / k256 / mpz-fields stand-ins. Not constant time; simulation only.
use std::marker::PhantomData;

pub type L = [u64; 4];

pub trait Modulus: Copy + Clone + Eq + PartialEq + std::fmt::Debug + std::hash::Hash + Send + Sync + 'static {
    const M: L;
    const R: L = pow2_mod(256, Self::M);
    const R2: L = pow2_mod(512, Self::M);
    const N0: u64 = n0(Self::M[0]);
}

const fn geq(a: &L, b: &L) -> bool {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        if a[i] > b[i] { return true; }
        if a[i] < b[i] { return false; }
    }
    true
}
const fn sub_raw(a: &L, b: &L) -> (L, bool) {
    let mut o = [0u64; 4];
    let mut br = 0u128;
    let mut i = 0;
    while i < 4 {
        let t = (a[i] as u128).wrapping_sub(b[i] as u128).wrapping_sub(br);
        o[i] = t as u64;
        br = (t >> 64) & 1;
        i += 1;
    }
    (o, br == 1)
}
const fn add_raw(a: &L, b: &L) -> (L, bool) {
    let mut o = [0u64; 4];
    let mut c = 0u128;
    let mut i = 0;
    while i < 4 {
        let t = a[i] as u128 + b[i] as u128 + c;
        o[i] = t as u64;
        c = t >> 64;
        i += 1;
    }
    (o, c == 1)
}
const fn add_mod(a: &L, b: &L, m: &L) -> L {
    let (s, c) = add_raw(a, b);
    if c || geq(&s, m) { sub_raw(&s, m).0 } else { s }
}
const fn pow2_mod(n: usize, m: L) -> L {
    let mut x: L = [1, 0, 0, 0];
    let mut i = 0;
    while i < n {
        x = add_mod(&x, &x, &m);
        i += 1;
    }
    x
}
const fn n0(m0: u64) -> u64 {
    let mut inv = 1u64;
    let mut i = 0;
    while i < 63 {
        inv = inv.wrapping_mul(2u64.wrapping_sub(m0.wrapping_mul(inv)));
        i += 1;
    }
    inv.wrapping_neg()
}

/// Element of Z/M, kept in Montgomery form.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Fe<M>(L, PhantomData<M>);

impl<M: Modulus> std::fmt::Debug for Fe<M> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Fe(..)")
    }
}
impl<M: Modulus> Default for Fe<M> { fn default() -> Self { Self::ZERO } }

impl<M: Modulus> Fe<M> {
    pub const ZERO: Self = Fe([0; 4], PhantomData);
    pub const ONE: Self = Fe(M::R, PhantomData);

    fn mont(a: &L, b: &L) -> L {
        let m = &M::M;
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let v = t[j] as u128 + (a[j] as u128) * (b[i] as u128) + c;
                t[j] = v as u64;
                c = v >> 64;
            }
            let v = t[4] as u128 + c;
            t[4] = v as u64;
            t[5] = (v >> 64) as u64;
            let q = t[0].wrapping_mul(M::N0);
            let v = t[0] as u128 + (q as u128) * (m[0] as u128);
            let mut c = v >> 64;
            for j in 1..4 {
                let v = t[j] as u128 + (q as u128) * (m[j] as u128) + c;
                t[j - 1] = v as u64;
                c = v >> 64;
            }
            let v = t[4] as u128 + c;
            t[3] = v as u64;
            t[4] = t[5] + (v >> 64) as u64;
        }
        let o = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || geq(&o, m) { sub_raw(&o, m).0 } else { o }
    }

    /// Reduces any 256-bit value.
    pub fn from_limbs_reduced(mut l: L) -> Self {
        while geq(&l, &M::M) {
            l = sub_raw(&l, &M::M).0;
        }
        Fe(Self::mont(&l, &M::R2), PhantomData)
    }
    pub fn from_be_checked(b: &[u8; 32]) -> Option<Self> {
        let l = limbs_be(b);
        if geq(&l, &M::M) { None } else { Some(Self::from_limbs_reduced(l)) }
    }
    pub fn from_be_reduced(b: &[u8; 32]) -> Self { Self::from_limbs_reduced(limbs_be(b)) }
    pub fn from_u64(v: u64) -> Self { Self::from_limbs_reduced([v, 0, 0, 0]) }
    pub fn limbs(&self) -> L { Self::mont(&self.0, &[1, 0, 0, 0]) }
    pub fn to_be(&self) -> [u8; 32] {
        let l = self.limbs();
        let mut o = [0u8; 32];
        for i in 0..4 {
            o[(3 - i) * 8..(4 - i) * 8].copy_from_slice(&l[i].to_be_bytes());
        }
        o
    }
    pub fn is_zero(&self) -> bool { self.0 == [0; 4] }
    pub fn is_odd(&self) -> bool { self.limbs()[0] & 1 == 1 }
    pub fn pow(&self, e: &L) -> Self {
        let mut r = Self::ONE;
        for i in (0..256).rev() {
            r = r * r;
            if (e[i / 64] >> (i % 64)) & 1 == 1 {
                r = r * *self;
            }
        }
        r
    }
    pub fn inv(&self) -> Option<Self> {
        if self.is_zero() { return None; }
        Some(self.pow(&sub_raw(&M::M, &[2, 0, 0, 0]).0))
    }
    /// Square root, for moduli that are 3 mod 4.
    pub fn sqrt(&self) -> Option<Self> {
        let (p1, _) = add_raw(&M::M, &[1, 0, 0, 0]);
        let carry = geq(&[0; 4], &p1);
        debug_assert!(!carry);
        let mut e = p1;
        for _ in 0..2 {
            for i in 0..4 {
                e[i] = (e[i] >> 1) | if i < 3 { e[i + 1] << 63 } else { 0 };
            }
        }
        let r = self.pow(&e);
        if r * r == *self { Some(r) } else { None }
    }
    pub fn random<R: rand_core::RngCore + ?Sized>(rng: &mut R) -> Self {
        loop {
            let mut b = [0u8; 32];
            rng.fill_bytes(&mut b);
            if let Some(v) = Self::from_be_checked(&b) {
                return v;
            }
        }
    }
}

pub fn limbs_be(b: &[u8; 32]) -> L {
    let mut l = [0u64; 4];
    for i in 0..4 {
        l[i] = u64::from_be_bytes(b[(3 - i) * 8..(4 - i) * 8].try_into().unwrap());
    }
    l
}

impl<M: Modulus> std::ops::Add for Fe<M> {
    type Output = Self;
    fn add(self, o: Self) -> Self { Fe(add_mod(&self.0, &o.0, &M::M), PhantomData) }
}
impl<M: Modulus> std::ops::Neg for Fe<M> {
    type Output = Self;
    fn neg(self) -> Self { if self.is_zero() { self } else { Fe(sub_raw(&M::M, &self.0).0, PhantomData) } }
}
impl<M: Modulus> std::ops::Sub for Fe<M> {
    type Output = Self;
    fn sub(self, o: Self) -> Self { self + (-o) }
}
impl<M: Modulus> std::ops::Mul for Fe<M> {
    type Output = Self;
    fn mul(self, o: Self) -> Self { Fe(Self::mont(&self.0, &o.0), PhantomData) }
}

/// A curve y^2 = x^3 + a x + b.
pub trait Curve: Copy + Clone + Eq + PartialEq + std::fmt::Debug + Send + Sync + 'static {
    type P: Modulus;
    type N: Modulus;
    const A_MINUS_3: bool;
    const B: L;
    const GX: L;
    const GY: L;
    /// Whether ECDSA signatures must have a low s.
    const LOW_S: bool;
    fn a() -> Fe<Self::P> {
        if Self::A_MINUS_3 { -Fe::from_u64(3) } else { Fe::ZERO }
    }
    fn b() -> Fe<Self::P> { Fe::from_limbs_reduced(Self::B) }
}

#[derive(Clone, Copy, Debug)]
pub struct Point<C: Curve> {
    x: Fe<C::P>,
    y: Fe<C::P>,
    z: Fe<C::P>,
}

impl<C: Curve> Point<C> {
    pub fn identity() -> Self { Point { x: Fe::ONE, y: Fe::ONE, z: Fe::ZERO } }
    pub fn generator() -> Self {
        Point { x: Fe::from_limbs_reduced(C::GX), y: Fe::from_limbs_reduced(C::GY), z: Fe::ONE }
    }
    pub fn is_identity(&self) -> bool { self.z.is_zero() }
    pub fn from_affine(x: Fe<C::P>, y: Fe<C::P>) -> Option<Self> {
        if y * y == x * x * x + C::a() * x + C::b() { Some(Point { x, y, z: Fe::ONE }) } else { None }
    }
    pub fn lift_x(x: Fe<C::P>, odd: bool) -> Option<Self> {
        let y = (x * x * x + C::a() * x + C::b()).sqrt()?;
        let y = if y.is_odd() == odd { y } else { -y };
        Some(Point { x, y, z: Fe::ONE })
    }
    pub fn affine(&self) -> Option<(Fe<C::P>, Fe<C::P>)> {
        let zi = self.z.inv()?;
        let z2 = zi * zi;
        Some((self.x * z2, self.y * z2 * zi))
    }
    pub fn double(&self) -> Self {
        if self.is_identity() || self.y.is_zero() { return Self::identity(); }
        let yy = self.y * self.y;
        let s = self.x * yy;
        let s = s + s;
        let s = s + s;
        let xx = self.x * self.x;
        let mut m = xx + xx + xx;
        if C::A_MINUS_3 {
            let z2 = self.z * self.z;
            m = m + C::a() * z2 * z2;
        }
        let x = m * m - s - s;
        let y4 = yy * yy;
        let y8 = { let t = y4 + y4; let t = t + t; t + t };
        let y = m * (s - x) - y8;
        let yz = self.y * self.z;
        Point { x, y, z: yz + yz }
    }
    pub fn add(&self, o: &Self) -> Self {
        if self.is_identity() { return *o; }
        if o.is_identity() { return *self; }
        let z1 = self.z * self.z;
        let z2 = o.z * o.z;
        let u1 = self.x * z2;
        let u2 = o.x * z1;
        let s1 = self.y * z2 * o.z;
        let s2 = o.y * z1 * self.z;
        let h = u2 - u1;
        let r = s2 - s1;
        if h.is_zero() {
            return if r.is_zero() { self.double() } else { Self::identity() };
        }
        let h2 = h * h;
        let h3 = h2 * h;
        let v = u1 * h2;
        let x = r * r - h3 - v - v;
        let y = r * (v - x) - s1 * h3;
        Point { x, y, z: self.z * o.z * h }
    }
    pub fn mul(&self, k: &Fe<C::N>) -> Self {
        let k = k.limbs();
        let mut tbl = [Self::identity(); 16];
        for i in 1..16 {
            tbl[i] = tbl[i - 1].add(self);
        }
        let mut r = Self::identity();
        for i in (0..64).rev() {
            for _ in 0..4 { r = r.double(); }
            let d = (k[i / 16] >> ((i % 16) * 4)) & 15;
            if d != 0 { r = r.add(&tbl[d as usize]); }
        }
        r
    }
    pub fn to_sec1(&self, compressed: bool) -> Vec<u8> {
        match self.affine() {
            None => vec![0],
            Some((x, y)) => {
                let mut o = Vec::new();
                if compressed {
                    o.push(2 + y.is_odd() as u8);
                    o.extend_from_slice(&x.to_be());
                } else {
                    o.push(4);
                    o.extend_from_slice(&x.to_be());
                    o.extend_from_slice(&y.to_be());
                }
                o
            }
        }
    }
    /// Parses a SEC1 point; the identity is rejected.
    pub fn from_sec1(b: &[u8]) -> Option<Self> {
        match (b.first()?, b.len()) {
            (4, 65) => Self::from_affine(
                Fe::from_be_checked(b[1..33].try_into().unwrap())?,
                Fe::from_be_checked(b[33..65].try_into().unwrap())?,
            ),
            (t @ (2 | 3), 33) => Self::lift_x(Fe::from_be_checked(b[1..33].try_into().unwrap())?, *t == 3),
            _ => None,
        }
    }
}

impl<C: Curve> PartialEq for Point<C> {
    fn eq(&self, o: &Self) -> bool {
        match (self.is_identity(), o.is_identity()) {
            (true, true) => true,
            (false, false) => {
                let (z1, z2) = (self.z * self.z, o.z * o.z);
                self.x * z2 == o.x * z1 && self.y * z2 * o.z == o.y * z1 * self.z
            }
            _ => false,
        }
    }
}
impl<C: Curve> Eq for Point<C> {}

pub mod ecdsa {
    use super::*;
    use sha2::{Digest, Sha256};

    pub fn is_high<C: Curve>(s: &Fe<C::N>) -> bool {
        let l = s.limbs();
        let neg = (-*s).limbs();
        !geq(&neg, &l)
    }

    /// Signs a prehash; returns (r, s, recovery id). The nonce is derived from
    /// key and message.
    pub fn sign<C: Curve>(d: &Fe<C::N>, z: &[u8; 32]) -> (Fe<C::N>, Fe<C::N>, u8) {
        let zf = Fe::<C::N>::from_be_reduced(z);
        for ctr in 0u32.. {
            let mut h = Sha256::new();
            h.update(b"nonce");
            h.update(d.to_be());
            h.update(z);
            h.update(ctr.to_be_bytes());
            let k = Fe::<C::N>::from_be_reduced(&h.finalize().into());
            let Some(ki) = k.inv() else { continue };
            let (x, y) = Point::<C>::generator().mul(&k).affine().unwrap();
            let xb = x.to_be();
            let over = Fe::<C::N>::from_be_checked(&xb).is_none();
            let r = Fe::<C::N>::from_be_reduced(&xb);
            if r.is_zero() { continue; }
            let s = ki * (zf + r * *d);
            if s.is_zero() { continue; }
            let mut rec = y.is_odd() as u8 | (over as u8) << 1;
            if C::LOW_S && is_high::<C>(&s) {
                rec ^= 1;
                return (r, -s, rec);
            }
            return (r, s, rec);
        }
        unreachable!()
    }

    pub fn verify<C: Curve>(q: &Point<C>, z: &[u8; 32], r: &Fe<C::N>, s: &Fe<C::N>) -> bool {
        if r.is_zero() || s.is_zero() || (C::LOW_S && is_high::<C>(s)) { return false; }
        let w = s.inv().unwrap();
        let zf = Fe::<C::N>::from_be_reduced(z);
        let p = Point::<C>::generator().mul(&(zf * w)).add(&q.mul(&(*r * w)));
        match p.affine() {
            None => false,
            Some((x, _)) => Fe::<C::N>::from_be_reduced(&x.to_be()) == *r,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct P256P;
impl Modulus for P256P {
    const M: L = [0xffffffffffffffff, 0x00000000ffffffff, 0, 0xffffffff00000001];
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct P256N;
impl Modulus for P256N {
    const M: L = [0xf3b9cac2fc632551, 0xbce6faada7179e84, 0xffffffffffffffff, 0xffffffff00000000];
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct NistP256;
impl Curve for NistP256 {
    type P = P256P;
    type N = P256N;
    const A_MINUS_3: bool = true;
    const B: L = [0x3bce3c3e27d2604b, 0x651d06b0cc53b0f6, 0xb3ebbd55769886bc, 0x5ac635d8aa3a93e7];
    const GX: L = [0xf4a13945d898c296, 0x77037d812deb33a0, 0xf8bce6e563a440f2, 0x6b17d1f2e12c4247];
    const GY: L = [0xcbb6406837bf51f5, 0x2bce33576b315ece, 0x8ee7eb4a7c0f9e16, 0x4fe342e2fe1a7f9b];
    const LOW_S: bool = false;
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct K256P;
impl Modulus for K256P {
    const M: L = [0xfffffffefffffc2f, 0xffffffffffffffff, 0xffffffffffffffff, 0xffffffffffffffff];
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct K256N;
impl Modulus for K256N {
    const M: L = [0xbfd25e8cd0364141, 0xbaaedce6af48a03b, 0xfffffffffffffffe, 0xffffffffffffffff];
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Secp256k1;
impl Curve for Secp256k1 {
    type P = K256P;
    type N = K256N;
    const A_MINUS_3: bool = false;
    const B: L = [7, 0, 0, 0];
    const GX: L = [0x59f2815b16f81798, 0x029bfcdb2dce28d9, 0x55a06295ce870b07, 0x79be667ef9dcbbac];
    const GY: L = [0x9c47d08ffb10d4b8, 0xfd17b448a6855419, 0x5da4fbfc0e1108a8, 0x483ada7726a3c465];
    const LOW_S: bool = true;
}

#[cfg(test)]
mod tests {
    use super::*;
    fn t<C: Curve>() {
        let g = Point::<C>::generator();
        let (x, y) = g.affine().unwrap();
        assert!(Point::<C>::from_affine(x, y).is_some());
        let k = Fe::<C::N>::from_u64(123456789) * Fe::from_u64(987654321987) * Fe::from_u64(0x1234567812345678);
        let k = k * k * k;
        assert_eq!(g.mul(&k).add(&g.mul(&-k)), Point::identity());
        assert!(g.mul(&(-Fe::<C::N>::ONE)).add(&g).is_identity());
        let q = g.mul(&k);
        assert_eq!(Point::<C>::from_sec1(&q.to_sec1(true)).unwrap(), q);
        assert_eq!(Point::<C>::from_sec1(&q.to_sec1(false)).unwrap(), q);
        let z = [7u8; 32];
        let (r, s, _) = ecdsa::sign::<C>(&k, &z);
        assert!(ecdsa::verify::<C>(&q, &z, &r, &s));
        assert!(!ecdsa::verify::<C>(&q, &[8u8; 32], &r, &s));
        assert_eq!(k * k.inv().unwrap(), Fe::ONE);
    }
    #[test]
    fn p() { t::<NistP256>() }
    #[test]
    fn k() { t::<Secp256k1>() }
}
