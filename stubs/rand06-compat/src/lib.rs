//! rand_core 0.9 -> 0.6 adapter.
pub struct Rand0_6Compat<R>(R);
pub trait Rand0_6CompatExt: rand_core::RngCore {
    fn compat(self) -> Rand0_6Compat<Self> where Self: Sized { Rand0_6Compat(self) }
    fn compat_by_ref(&mut self) -> Rand0_6Compat<&mut Self> where Self: Sized { Rand0_6Compat(self) }
}
impl<R: rand_core::RngCore> Rand0_6CompatExt for R {}
impl<R: rand_core::RngCore> rand_core06::RngCore for Rand0_6Compat<R> {
    fn next_u32(&mut self) -> u32 { self.0.next_u32() }
    fn next_u64(&mut self) -> u64 { self.0.next_u64() }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.0.fill_bytes(d) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core06::Error> { self.0.fill_bytes(d); Ok(()) }
}
impl<R: rand_core::CryptoRng> rand_core06::CryptoRng for Rand0_6Compat<R> {}
