pub use mpz_ideal::memory::*;
