//! AES-128-GCM as version 0.9 of the `aes-gcm` crate exposes it.
use generic_array::{typenum::{U12, U16}, GenericArray};
use subtle::ConstantTimeEq;

pub mod aead {
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Error;
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("aead::Error") } }
    impl std::error::Error for Error {}
    pub struct Payload<'m, 'a> { pub msg: &'m [u8], pub aad: &'a [u8] }
    impl<'m> From<&'m [u8]> for Payload<'m, '_> { fn from(msg: &'m [u8]) -> Self { Payload { msg, aad: b"" } } }
    pub trait NewAead: Sized {
        fn new(key: &GenericArray<u8, U16>) -> Self;
        fn new_from_slice(key: &[u8]) -> Result<Self, Error>;
    }
    pub trait AeadMutInPlace {
        fn encrypt_in_place_detached(&mut self, nonce: &GenericArray<u8, U12>, aad: &[u8], buf: &mut [u8]) -> Result<GenericArray<u8, U16>, Error>;
        fn decrypt_in_place_detached(&mut self, nonce: &GenericArray<u8, U12>, aad: &[u8], buf: &mut [u8], tag: &GenericArray<u8, U16>) -> Result<(), Error>;
    }
    pub trait Aead {
        fn encrypt<'m, 'a>(&self, nonce: &GenericArray<u8, U12>, p: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>, Error>;
        fn decrypt<'m, 'a>(&self, nonce: &GenericArray<u8, U12>, p: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>, Error>;
    }
}
pub use aead::NewAead;
use aead::*;
#[derive(Clone)]
pub struct Aes128Gcm(aes::Aes128);
fn n12(n: &GenericArray<u8, U12>) -> [u8; 12] { n.as_slice().try_into().unwrap() }
impl NewAead for Aes128Gcm {
    fn new(key: &GenericArray<u8, U16>) -> Self { Aes128Gcm(aes::Aes128::from_key(&key.as_slice().try_into().unwrap())) }
    fn new_from_slice(key: &[u8]) -> Result<Self, Error> {
        let k: [u8; 16] = key.try_into().map_err(|_| Error)?;
        Ok(Aes128Gcm(aes::Aes128::from_key(&k)))
    }
}
impl Aes128Gcm {
    fn enc(&self, nonce: &[u8; 12], aad: &[u8], buf: &mut [u8]) -> [u8; 16] {
        aes::gcm_ctr(&self.0, nonce, buf);
        aes::gcm_tag(&self.0, nonce, aad, buf)
    }
    fn dec(&self, nonce: &[u8; 12], aad: &[u8], buf: &mut [u8], tag: &[u8]) -> Result<(), Error> {
        if !bool::from(aes::gcm_tag(&self.0, nonce, aad, buf).ct_eq(tag)) { return Err(Error) }
        aes::gcm_ctr(&self.0, nonce, buf);
        Ok(())
    }
}
impl AeadMutInPlace for Aes128Gcm {
    fn encrypt_in_place_detached(&mut self, nonce: &GenericArray<u8, U12>, aad: &[u8], buf: &mut [u8]) -> Result<GenericArray<u8, U16>, Error> {
        Ok(self.enc(&n12(nonce), aad, buf).into())
    }
    fn decrypt_in_place_detached(&mut self, nonce: &GenericArray<u8, U12>, aad: &[u8], buf: &mut [u8], tag: &GenericArray<u8, U16>) -> Result<(), Error> {
        self.dec(&n12(nonce), aad, buf, tag)
    }
}
impl Aead for Aes128Gcm {
    fn encrypt<'m, 'a>(&self, nonce: &GenericArray<u8, U12>, p: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>, Error> {
        let p = p.into();
        let mut v = p.msg.to_vec();
        let t = self.enc(&n12(nonce), p.aad, &mut v);
        v.extend_from_slice(&t);
        Ok(v)
    }
    fn decrypt<'m, 'a>(&self, nonce: &GenericArray<u8, U12>, p: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>, Error> {
        let p = p.into();
        let n = p.msg.len().checked_sub(16).ok_or(Error)?;
        let mut v = p.msg[..n].to_vec();
        self.dec(&n12(nonce), p.aad, &mut v, &p.msg[n..])?;
        Ok(v)
    }
}
