//! ECDSA with the hash/curve pairs ring cannot sign (it can verify them).
use num_bigint::BigUint;
use ring::digest;
use ring::rand::{SecureRandom, SystemRandom};

struct Curve { p: BigUint, n: BigUint, gx: BigUint, gy: BigUint, len: usize }
fn h(s: &str) -> BigUint { BigUint::parse_bytes(s.as_bytes(), 16).unwrap() }
fn p256() -> Curve {
    Curve {
        p: h("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
        n: h("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
        gx: h("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
        gy: h("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
        len: 32,
    }
}
fn p384() -> Curve {
    Curve {
        p: h("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff"),
        n: h("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"),
        gx: h("aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7"),
        gy: h("3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"),
        len: 48,
    }
}
type J = (BigUint, BigUint, BigUint);
impl Curve {
    fn sub(&self, a: &BigUint, b: &BigUint) -> BigUint { ((a + &self.p) - b) % &self.p }
    fn dbl(&self, (x, y, z): &J) -> J {
        let p = &self.p;
        let zz = z * z % p;
        // a = -3
        let m = BigUint::from(3u8) * self.sub(x, &zz) * (x + &zz) % p;
        let yy = y * y % p;
        let s = BigUint::from(4u8) * x * &yy % p;
        let x3 = self.sub(&(&m * &m % p), &(&s * 2u8 % p));
        let y3 = self.sub(&(&m * self.sub(&s, &x3) % p), &(BigUint::from(8u8) * &yy * &yy % p));
        let z3 = y * z * 2u8 % p;
        (x3, y3, z3)
    }
    fn add_g(&self, (x, y, z): &J) -> J {
        let p = &self.p;
        let zz = z * z % p;
        let u2 = &self.gx * &zz % p;
        let s2 = &self.gy * &zz % p * z % p;
        let hh = self.sub(&u2, x);
        let r = self.sub(&s2, y);
        let h2 = &hh * &hh % p;
        let h3 = &h2 * &hh % p;
        let v = x * &h2 % p;
        let x3 = self.sub(&self.sub(&(&r * &r % p), &h3), &(&v * 2u8 % p));
        let y3 = self.sub(&(&r * self.sub(&v, &x3) % p), &(y * &h3 % p));
        (x3, y3, &hh * z % p)
    }
    /// x coordinate of k*G (k > 1).
    fn mul_x(&self, k: &BigUint) -> BigUint {
        let mut q: J = (self.gx.clone(), self.gy.clone(), 1u8.into());
        for i in (0..k.bits() - 1).rev() {
            q = self.dbl(&q);
            if k.bit(i) { q = self.add_g(&q); }
        }
        let zi = q.2.modpow(&(&self.p - 2u8), &self.p);
        q.0 * &zi % &self.p * zi % &self.p
    }
    fn sign(&self, d: &[u8], digest: &[u8]) -> Vec<u8> {
        let d = BigUint::from_bytes_be(d);
        let z = BigUint::from_bytes_be(&digest[..digest.len().min(self.len)]);
        let mut kb = vec![0u8; self.len];
        SystemRandom::new().fill(&mut kb).unwrap();
        let k = BigUint::from_bytes_be(&kb) % (&self.n - 2u8) + 2u8;
        let r = self.mul_x(&k) % &self.n;
        let ki = k.modpow(&(&self.n - 2u8), &self.n);
        let s = ki * (z + &r * d) % &self.n;
        let int = |v: &BigUint| {
            let mut b = v.to_bytes_be();
            if b[0] >= 0x80 { b.insert(0, 0); }
            crate::certs::tlv(2, &b)
        };
        crate::certs::tlv(0x30, &[int(&r), int(&s)].concat())
    }
}
/// The private scalar inside a PKCS#8 key made by ring.
pub fn scalar(pkcs8: &[u8], len: usize) -> Vec<u8> {
    // INTEGER 1, OCTET STRING <len>
    let pat = [2, 1, 1, 4, len as u8];
    let i = pkcs8.windows(5).position(|w| w == pat).expect("HARNESS-ERROR: pkcs8") + 5;
    pkcs8[i..i + len].to_vec()
}
pub fn sign_p256_sha384(d: &[u8], m: &[u8]) -> Vec<u8> { p256().sign(d, digest::digest(&digest::SHA384, m).as_ref()) }
pub fn sign_p384_sha256(d: &[u8], m: &[u8]) -> Vec<u8> { p384().sign(d, digest::digest(&digest::SHA256, m).as_ref()) }
