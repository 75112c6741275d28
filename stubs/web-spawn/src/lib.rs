//! Only used on wasm.
