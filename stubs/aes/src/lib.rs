//! Plain AES-128 block function (simulation stand-in for the `aes` crate).
//!
//! Not constant time.  Also hosts GHASH and AES-GCM so that the `ghash`,
//! `ctr` and `aes-gcm` stand-ins share one implementation.

const fn build_sbox() -> [u8; 256] {
    let mut s = [0u8; 256];
    let mut p: u8 = 1;
    let mut q: u8 = 1;
    loop {
        p = p ^ (p << 1) ^ (if p & 0x80 != 0 { 0x1b } else { 0 });
        q ^= q << 1;
        q ^= q << 2;
        q ^= q << 4;
        if q & 0x80 != 0 {
            q ^= 0x09;
        }
        let x = q ^ q.rotate_left(1) ^ q.rotate_left(2) ^ q.rotate_left(3) ^ q.rotate_left(4);
        s[p as usize] = x ^ 0x63;
        if p == 1 {
            break;
        }
    }
    s[0] = 0x63;
    s
}
static SBOX: [u8; 256] = build_sbox();

fn xt(x: u8) -> u8 { (x << 1) ^ (((x >> 7) & 1) * 0x1b) }

/// Key schedule: 11 round keys of 16 bytes.
pub fn key_schedule(key: &[u8; 16]) -> [u8; 176] {
    let mut w = [0u8; 176];
    w[..16].copy_from_slice(key);
    let mut rcon = 1u8;
    let mut i = 16;
    while i < 176 {
        let mut t = [w[i - 4], w[i - 3], w[i - 2], w[i - 1]];
        if i % 16 == 0 {
            t = [SBOX[t[1] as usize] ^ rcon, SBOX[t[2] as usize], SBOX[t[3] as usize], SBOX[t[0] as usize]];
            rcon = xt(rcon);
        }
        for k in 0..4 {
            w[i + k] = w[i + k - 16] ^ t[k];
        }
        i += 4;
    }
    w
}

/// Encrypts one block with an expanded key.
pub fn encrypt_with_schedule(ks: &[u8; 176], block: &[u8; 16]) -> [u8; 16] {
    let mut s = *block;
    for i in 0..16 { s[i] ^= ks[i]; }
    for r in 1..=10 {
        let mut t = [0u8; 16];
        for c in 0..4 {
            for row in 0..4 {
                t[c * 4 + row] = SBOX[s[((c + row) % 4) * 4 + row] as usize];
            }
        }
        if r != 10 {
            for c in 0..4 {
                let a = [t[c * 4], t[c * 4 + 1], t[c * 4 + 2], t[c * 4 + 3]];
                let all = a[0] ^ a[1] ^ a[2] ^ a[3];
                for row in 0..4 {
                    t[c * 4 + row] = a[row] ^ all ^ xt(a[row] ^ a[(row + 1) % 4]);
                }
            }
        }
        for i in 0..16 { s[i] = t[i] ^ ks[r * 16 + i]; }
    }
    s
}

#[derive(Clone)]
pub struct Aes128(pub [u8; 176]);
impl Aes128 {
    pub fn from_key(key: &[u8; 16]) -> Self { Aes128(key_schedule(key)) }
    pub fn encrypt(&self, b: &[u8; 16]) -> [u8; 16] { encrypt_with_schedule(&self.0, b) }
}

/// GHASH over already padded blocks.
pub fn ghash_blocks(key: &[u8; 16], data: &[u8]) -> [u8; 16] {
    let h = u128::from_be_bytes(*key);
    let mut y = 0u128;
    for c in data.chunks(16) {
        let mut b = [0u8; 16];
        b[..c.len()].copy_from_slice(c);
        y = gf_mul(y ^ u128::from_be_bytes(b), h);
    }
    y.to_be_bytes()
}
fn gf_mul(x: u128, y: u128) -> u128 {
    let mut z = 0u128;
    let mut v = y;
    for i in 0..128 {
        if (x >> (127 - i)) & 1 == 1 { z ^= v; }
        let lsb = v & 1;
        v >>= 1;
        if lsb == 1 { v ^= 0xe1u128 << 120; }
    }
    z
}

pub fn gcm_tag(aes: &Aes128, iv: &[u8; 12], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let h = aes.encrypt(&[0; 16]);
    let mut d = aad.to_vec();
    d.resize(aad.len().div_ceil(16) * 16, 0);
    let n = d.len();
    d.extend_from_slice(ct);
    d.resize(n + ct.len().div_ceil(16) * 16, 0);
    d.extend_from_slice(&((aad.len() as u64) * 8).to_be_bytes());
    d.extend_from_slice(&((ct.len() as u64) * 8).to_be_bytes());
    let mut t = ghash_blocks(&h, &d);
    let mut j0 = [0u8; 16];
    j0[..12].copy_from_slice(iv);
    j0[15] = 1;
    let e = aes.encrypt(&j0);
    for i in 0..16 { t[i] ^= e[i]; }
    t
}
pub fn gcm_ctr(aes: &Aes128, iv: &[u8; 12], data: &mut [u8]) {
    for (i, c) in data.chunks_mut(16).enumerate() {
        let mut b = [0u8; 16];
        b[..12].copy_from_slice(iv);
        b[12..].copy_from_slice(&(i as u32 + 2).to_be_bytes());
        let k = aes.encrypt(&b);
        for (x, y) in c.iter_mut().zip(k) { *x ^= y; }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn fips197() {
        let key: [u8; 16] = core::array::from_fn(|i| i as u8);
        let pt: [u8; 16] = core::array::from_fn(|i| (i * 0x11) as u8);
        assert_eq!(
            Aes128::from_key(&key).encrypt(&pt),
            [0x69, 0xc4, 0xe0, 0xd8, 0x6a, 0x7b, 0x04, 0x30, 0xd8, 0xcd, 0xb7, 0x80, 0x70, 0xb4, 0xc5, 0x5a]
        );
    }
}
