//! AES-128 in 32-bit big-endian counter mode.
use aes::Aes128;
pub mod cipher {
    use generic_array::{typenum::U16, GenericArray};
    pub trait KeyIvInit: Sized {
        fn new(key: &GenericArray<u8, U16>, iv: &GenericArray<u8, U16>) -> Self;
    }
    pub trait StreamCipher {
        fn apply_keystream(&mut self, buf: &mut [u8]);
    }
    #[derive(Debug)]
    pub struct StreamCipherError;
    pub trait SeekNum { fn pos(self) -> u64; }
    impl SeekNum for u64 { fn pos(self) -> u64 { self } }
    impl SeekNum for u32 { fn pos(self) -> u64 { self as u64 } }
    impl SeekNum for usize { fn pos(self) -> u64 { self as u64 } }
    impl SeekNum for i32 { fn pos(self) -> u64 { self as u64 } }
    pub trait StreamCipherSeek {
        fn try_seek<T: SeekNum>(&mut self, pos: T) -> Result<(), StreamCipherError>;
        fn seek<T: SeekNum>(&mut self, pos: T) { self.try_seek(pos).unwrap() }
    }
}
use cipher::*;
pub struct Ctr32BE<C> { c: C, iv: [u8; 16], pos: u64 }
impl KeyIvInit for Ctr32BE<Aes128> {
    fn new(key: &generic_array::GenericArray<u8, generic_array::typenum::U16>, iv: &generic_array::GenericArray<u8, generic_array::typenum::U16>) -> Self {
        let k: [u8; 16] = key.as_slice().try_into().unwrap();
        Ctr32BE { c: Aes128::from_key(&k), iv: iv.as_slice().try_into().unwrap(), pos: 0 }
    }
}
impl StreamCipher for Ctr32BE<Aes128> {
    fn apply_keystream(&mut self, buf: &mut [u8]) {
        let start = u32::from_be_bytes(self.iv[12..].try_into().unwrap());
        let mut at = 0;
        while at < buf.len() {
            let (blk, off) = (self.pos / 16, (self.pos % 16) as usize);
            let mut ctr = self.iv;
            ctr[12..].copy_from_slice(&start.wrapping_add(blk as u32).to_be_bytes());
            let ks = self.c.encrypt(&ctr);
            let n = (16 - off).min(buf.len() - at);
            for i in 0..n { buf[at + i] ^= ks[off + i] }
            at += n;
            self.pos += n as u64;
        }
    }
}
impl StreamCipherSeek for Ctr32BE<Aes128> {
    fn try_seek<T: SeekNum>(&mut self, pos: T) -> Result<(), StreamCipherError> {
        let p = pos.pos();
        if p / 16 > u32::MAX as u64 { return Err(StreamCipherError) }
        self.pos = p;
        Ok(())
    }
}
