pub use mpz_ideal::share::*;
