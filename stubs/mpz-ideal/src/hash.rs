//! Hash functions over VM values.
use crate::circuits::Circuit;
use crate::memory::{binary::*, Array, FromRaw, Slice, ToRaw, Vector};
use crate::vm::{Call, Callable, Vm, VmError};
use std::sync::Arc;

fn run(vm: &mut dyn Vm<Binary>, args: &[Slice], out_bytes: usize, f: impl Fn(&[u8]) -> Vec<u8> + Send + Sync + 'static) -> Result<Slice, VmError> {
    let n: usize = args.iter().map(|s| s.len()).sum();
    let mut b = Call::builder(Arc::new(Circuit::closure(n / 8, out_bytes, f)));
    for a in args { b = b.arg(*a) }
    Callable::call_raw(vm, b.build().map_err(VmError::execute)?)
}

pub mod sha256 {
    use super::*;
    #[derive(Debug, thiserror::Error)]
    #[error("sha256 error: {0}")]
    pub struct Sha256Error(#[from] VmError);
    const IV: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];

    #[derive(Debug, Clone)]
    pub struct Sha256 { state: Option<Array<U32, 8>>, blocks: usize, buf: Vec<Vector<U8>> }
    fn compress(state: &[u8], data: &[u8]) -> [u32; 8] {
        let mut s: [u32; 8] = if state.is_empty() { IV } else { std::array::from_fn(|i| u32::from_le_bytes(state[4 * i..4 * i + 4].try_into().unwrap())) };
        for b in data.chunks(64) {
            sha2::compress256(&mut s, &[sha2::digest::generic_array::GenericArray::clone_from_slice(b)]);
        }
        s
    }
    impl Sha256 {
        pub fn new() -> Self { Sha256 { state: None, blocks: 0, buf: vec![] } }
        pub fn new_with_init(_vm: &mut dyn Vm<Binary>) -> Result<Self, Sha256Error> { Ok(Self::new()) }
        pub fn new_from_state(state: Array<U32, 8>, blocks: usize) -> Self { Sha256 { state: Some(state), blocks, buf: vec![] } }
        pub fn update(&mut self, data: &Vector<U8>) {
            if data.len() > 0 { self.buf.push(*data) }
        }
        fn buffered(&self) -> usize { self.buf.iter().map(|v| v.len()).sum() }
        fn args(&self, v: &[Vector<U8>]) -> Vec<Slice> {
            self.state.iter().map(|s| s.to_raw()).chain(v.iter().map(|v| v.to_raw())).collect()
        }
        /// Compresses every complete block.
        pub fn compress(&mut self, vm: &mut dyn Vm<Binary>) -> Result<&mut Self, Sha256Error> {
            let n = self.buffered() / 64;
            if n == 0 { return Ok(self) }
            let mut take = n * 64;
            let mut now = vec![];
            let mut rest = vec![];
            for mut v in std::mem::take(&mut self.buf) {
                if take == 0 { rest.push(v); continue }
                if v.len() > take { rest.push(v.split_off(take)) }
                take -= v.len();
                now.push(v);
            }
            let head = if self.state.is_some() { 32 } else { 0 };
            let out = run(vm, &self.args(&now), 32, move |i| compress(&i[..head], &i[head..]).iter().flat_map(|w| w.to_le_bytes()).collect())?;
            self.state = Some(Array::from_raw(out));
            self.blocks += n;
            self.buf = rest;
            Ok(self)
        }
        pub fn state(&self) -> Option<(Array<U32, 8>, usize)> { self.state.map(|s| (s, self.blocks)) }
        pub fn finalize(mut self, vm: &mut dyn Vm<Binary>) -> Result<Array<U8, 32>, Sha256Error> {
            self.compress(vm)?;
            let head = if self.state.is_some() { 32 } else { 0 };
            let done = self.blocks * 64;
            if self.buf.is_empty() && self.state.is_none() {
                // A circuit needs an input; nothing in the callers hashes nothing.
                return Err(Sha256Error(VmError::execute("empty message")));
            }
            let out = run(vm, &self.args(&self.buf), 32, move |i| {
                let mut d = i[head..].to_vec();
                let bits = ((done + d.len()) * 8) as u64;
                d.push(0x80);
                while d.len() % 64 != 56 { d.push(0) }
                d.extend(bits.to_be_bytes());
                compress(&i[..head], &d).iter().flat_map(|w| w.to_be_bytes()).collect()
            })?;
            Ok(Array::from_raw(out))
        }
    }
}

macro_rules! whole {
    ($m:ident, $name:ident, $ctor:ident, $err:ident, $f:expr) => {
        pub mod $m {
            use super::*;
            #[derive(Debug, thiserror::Error)]
            #[error("hash error: {0}")]
            pub struct $err(#[from] VmError);
            #[derive(Debug, Clone)]
            pub struct $name { buf: Vec<Vector<U8>> }
            impl $name {
                pub fn $ctor(_vm: &mut dyn Vm<Binary>) -> Result<Self, $err> { Ok($name { buf: vec![] }) }
                pub fn update(&mut self, _vm: &mut dyn Vm<Binary>, data: &Vector<U8>) -> Result<&mut Self, $err> {
                    if data.len() > 0 { self.buf.push(*data) }
                    Ok(self)
                }
                pub fn finalize(self, vm: &mut dyn Vm<Binary>) -> Result<Array<U8, 32>, $err> {
                    let args: Vec<Slice> = self.buf.iter().map(|v| v.to_raw()).collect();
                    let f: fn(&[u8]) -> Vec<u8> = $f;
                    Ok(Array::from_raw(run(vm, &args, 32, f)?))
                }
            }
        }
    };
}
whole!(blake3, Blake3, new, Blake3Error, |i| ::blake3::hash(i).as_bytes().to_vec());
whole!(keccak256, Keccak256, new_with_init, Keccak256Error, |i| {
    use tiny_keccak::Hasher;
    let mut k = tiny_keccak::Keccak::v256();
    k.update(i);
    let mut o = [0u8; 32];
    k.finalize(&mut o);
    o.to_vec()
});
