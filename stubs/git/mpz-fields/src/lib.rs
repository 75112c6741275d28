pub use mpz_ideal::fields::*;
