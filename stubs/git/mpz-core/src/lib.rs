pub use mpz_ideal::{bitvec, Block};
