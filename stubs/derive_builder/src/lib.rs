//! The cached 0.20 under the required version.
pub use real::*;
