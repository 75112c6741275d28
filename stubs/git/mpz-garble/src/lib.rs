pub mod protocol { pub mod semihonest { pub use mpz_ideal::vm::{Evaluator, Garbler}; } }
