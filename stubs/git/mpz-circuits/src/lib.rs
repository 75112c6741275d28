pub use mpz_ideal::circuits::{
    circuits, ops, BuilderError, Circuit, CircuitBuilder, Feed, Node, AES128, AES128_KS, AES128_POST_KS,
};
