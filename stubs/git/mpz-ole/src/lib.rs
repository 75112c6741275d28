pub use mpz_ideal::ot::ole::*;
