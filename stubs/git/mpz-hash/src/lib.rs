pub use mpz_ideal::hash::*;
