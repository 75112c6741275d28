//! Ideal-functionality stand-ins for the `mpz-*` crates.
//!
//! The cryptographic protocols of mpz (garbled circuits, QuickSilver-style
//! ZK, oblivious transfer, OLE-based share conversion) are replaced by the
//! functionality they realise: a VM whose private inputs are handed to the
//! functionality over the parties' own simulated connection, whose outputs
//! are computed in the clear, and whose values a party can read only once
//! both parties decoded them.  The control flow of the callers, every message
//! they exchange, and every check they make are the real ones.
pub mod circuits;
pub mod common;
pub mod fields;
pub mod hash;
pub mod hooks;
pub mod memory;
pub mod ot;
pub mod share;
pub mod vm;

use rand::Rng;

/// 128-bit block.
#[derive(Clone, Copy, PartialEq, Eq, Default, Debug, serde::Serialize, serde::Deserialize)]
pub struct Block([u8; 16]);
impl Block {
    pub const ZERO: Block = Block([0; 16]);
    pub fn random<R: Rng + ?Sized>(rng: &mut R) -> Self { Block(rng.random()) }
    pub fn reverse_bits(self) -> Self { Block(u128::from_le_bytes(self.0).reverse_bits().to_le_bytes()) }
    pub fn to_bytes(self) -> [u8; 16] { self.0 }
}
impl From<[u8; 16]> for Block { fn from(b: [u8; 16]) -> Self { Block(b) } }
impl From<Block> for [u8; 16] { fn from(b: Block) -> Self { b.0 } }
impl rand::distr::Distribution<Block> for rand::distr::StandardUniform {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Block { Block(rng.random()) }
}

/// Correlation of the oblivious transfers.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Delta(Block);
impl Delta {
    pub fn new(b: Block) -> Self { Delta(b) }
    pub fn random<R: Rng + ?Sized>(rng: &mut R) -> Self { Delta(Block::random(rng)) }
    pub fn into_inner(self) -> Block { self.0 }
}

pub mod bitvec {
    pub type BitVec<T = u32, O = ::bitvec::order::Lsb0> = ::bitvec::vec::BitVec<T, O>;
    pub type BitSlice<T = u32, O = ::bitvec::order::Lsb0> = ::bitvec::slice::BitSlice<T, O>;
}
