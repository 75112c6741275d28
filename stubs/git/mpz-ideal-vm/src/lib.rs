pub use mpz_ideal::vm::IdealVm;
