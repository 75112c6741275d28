pub use mpz_ideal::vm::{Prover, ProverConfig, Verifier, VerifierConfig};
