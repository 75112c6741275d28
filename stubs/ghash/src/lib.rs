//! GHASH as the `ghash` crate exposes it.
use generic_array::{typenum::U16, GenericArray};
pub mod universal_hash {
    use super::*;
    pub trait KeyInit: Sized { fn new(key: &GenericArray<u8, U16>) -> Self; }
    pub trait UniversalHash {
        fn update_padded(&mut self, data: &[u8]);
        fn finalize(self) -> GenericArray<u8, U16>;
    }
}
use universal_hash::*;
#[derive(Clone)]
pub struct GHash { key: [u8; 16], data: Vec<u8> }
impl KeyInit for GHash {
    fn new(key: &GenericArray<u8, U16>) -> Self { GHash { key: key.as_slice().try_into().unwrap(), data: vec![] } }
}
impl UniversalHash for GHash {
    fn update_padded(&mut self, data: &[u8]) {
        self.data.extend_from_slice(data);
        let n = self.data.len().div_ceil(16) * 16;
        self.data.resize(n, 0);
    }
    fn finalize(self) -> GenericArray<u8, U16> { aes::ghash_blocks(&self.key, &self.data).into() }
}
