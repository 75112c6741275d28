//! BLAKE3 hash mode, written from the specification.
const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
const PERM: [usize; 16] = [2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8];
const CHUNK_START: u32 = 1;
const CHUNK_END: u32 = 2;
const PARENT: u32 = 4;
const ROOT: u32 = 8;

fn g(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(x);
    s[d] = (s[d] ^ s[a]).rotate_right(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_right(12);
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(y);
    s[d] = (s[d] ^ s[a]).rotate_right(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_right(7);
}
/// The compression function.
pub fn compress(cv: &[u32; 8], block: &[u32; 16], counter: u64, len: u32, flags: u32) -> [u32; 16] {
    let mut s = [0u32; 16];
    s[..8].copy_from_slice(cv);
    s[8..12].copy_from_slice(&IV[..4]);
    s[12] = counter as u32;
    s[13] = (counter >> 32) as u32;
    s[14] = len;
    s[15] = flags;
    let mut m = *block;
    for r in 0..7 {
        g(&mut s, 0, 4, 8, 12, m[0], m[1]);
        g(&mut s, 1, 5, 9, 13, m[2], m[3]);
        g(&mut s, 2, 6, 10, 14, m[4], m[5]);
        g(&mut s, 3, 7, 11, 15, m[6], m[7]);
        g(&mut s, 0, 5, 10, 15, m[8], m[9]);
        g(&mut s, 1, 6, 11, 12, m[10], m[11]);
        g(&mut s, 2, 7, 8, 13, m[12], m[13]);
        g(&mut s, 3, 4, 9, 14, m[14], m[15]);
        if r < 6 {
            let old = m;
            for i in 0..16 { m[i] = old[PERM[i]]; }
        }
    }
    for i in 0..8 {
        s[i] ^= s[i + 8];
        s[i + 8] ^= cv[i];
    }
    s
}
fn words(b: &[u8]) -> [u32; 16] {
    let mut p = [0u8; 64];
    p[..b.len()].copy_from_slice(b);
    std::array::from_fn(|i| u32::from_le_bytes(p[4 * i..4 * i + 4].try_into().unwrap()))
}
fn cv8(s: [u32; 16]) -> [u32; 8] { s[..8].try_into().unwrap() }
fn chunk(data: &[u8], idx: u64, root: u32) -> [u32; 8] {
    let mut cv = IV;
    let blocks: Vec<&[u8]> = if data.is_empty() { vec![data] } else { data.chunks(64).collect() };
    let n = blocks.len();
    for (i, b) in blocks.into_iter().enumerate() {
        let mut fl = 0;
        if i == 0 { fl |= CHUNK_START }
        if i == n - 1 { fl |= CHUNK_END | root }
        cv = cv8(compress(&cv, &words(b), idx, b.len() as u32, fl));
    }
    cv
}
fn tree(data: &[u8], idx: u64, root: u32) -> [u32; 8] {
    if data.len() <= 1024 { return chunk(data, idx, root); }
    let full = (data.len() - 1) / 1024;
    let left = (1usize << (usize::BITS - 1 - full.leading_zeros())) * 1024;
    let l = tree(&data[..left], idx, 0);
    let r = tree(&data[left..], idx + (left / 1024) as u64, 0);
    let mut b = [0u32; 16];
    b[..8].copy_from_slice(&l);
    b[8..].copy_from_slice(&r);
    cv8(compress(&IV, &b, 0, 64, PARENT | root))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Hash([u8; 32]);
impl Hash { pub fn as_bytes(&self) -> &[u8; 32] { &self.0 } }
impl From<Hash> for [u8; 32] { fn from(h: Hash) -> Self { h.0 } }
pub fn hash(data: &[u8]) -> Hash {
    let w = tree(data, 0, ROOT);
    let mut o = [0u8; 32];
    for i in 0..8 { o[4 * i..4 * i + 4].copy_from_slice(&w[i].to_le_bytes()); }
    Hash(o)
}
#[derive(Clone, Default)]
pub struct Hasher(Vec<u8>);
impl Hasher {
    pub fn new() -> Self { Self::default() }
    pub fn update(&mut self, d: &[u8]) -> &mut Self { self.0.extend_from_slice(d); self }
    pub fn finalize(&self) -> Hash { hash(&self.0) }
}
#[test]
fn kat() {
    assert_eq!(hash(b"").0[..4], [0xaf, 0x13, 0x49, 0xb9]);
    assert_eq!(hash(b"abc").0[..4], [0x64, 0x37, 0xb3, 0xac]);
}
