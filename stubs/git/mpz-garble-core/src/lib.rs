pub use mpz_ideal::Delta;
