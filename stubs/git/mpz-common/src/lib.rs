pub use mpz_ideal::common::*;
