//! The cached 0.22 under the required version.
pub use real::*;
