//! unused
