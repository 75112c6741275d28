//! Keccak-256 (original padding).
pub trait Hasher {
    fn update(&mut self, input: &[u8]);
    fn finalize(self, output: &mut [u8]);
}
#[derive(Clone)]
pub struct Keccak { st: [u64; 25], buf: Vec<u8>, rate: usize }
const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001,
    0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
    0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
    0x000000000000800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];
const RHO: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
const PI: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
fn f(a: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 { for y in 0..5 { c[x] ^= a[x + 5 * y]; } }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 { a[x + 5 * y] ^= d; }
        }
        let mut last = a[1];
        for i in 0..24 {
            let t = a[PI[i]];
            a[PI[i]] = last.rotate_left(RHO[i]);
            last = t;
        }
        for y in 0..5 {
            let r: [u64; 5] = a[5 * y..5 * y + 5].try_into().unwrap();
            for x in 0..5 { a[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]); }
        }
        a[0] ^= rc;
    }
}
impl Keccak {
    pub fn v256() -> Keccak { Keccak { st: [0; 25], buf: Vec::new(), rate: 136 } }
    fn absorb(&mut self, block: &[u8]) {
        for (i, w) in block.chunks(8).enumerate() { self.st[i] ^= u64::from_le_bytes(w.try_into().unwrap()); }
        f(&mut self.st);
    }
}
impl Hasher for Keccak {
    fn update(&mut self, input: &[u8]) {
        self.buf.extend_from_slice(input);
        let buf = std::mem::take(&mut self.buf);
        let mut c = buf.chunks_exact(self.rate);
        for b in &mut c { self.absorb(b); }
        self.buf = c.remainder().to_vec();
    }
    fn finalize(mut self, out: &mut [u8]) {
        let mut b = std::mem::take(&mut self.buf);
        let n = b.len();
        b.resize(self.rate, 0);
        b[n] ^= 1;
        b[self.rate - 1] ^= 0x80;
        self.absorb(&b);
        for (i, o) in out.iter_mut().enumerate() { *o = (self.st[i / 8] >> (8 * (i % 8))) as u8; }
    }
}
#[test]
fn empty() {
    let mut o = [0u8; 32];
    Keccak::v256().finalize(&mut o);
    assert_eq!(o[..4], [0xc5, 0xd2, 0x46, 0x01]);
}
