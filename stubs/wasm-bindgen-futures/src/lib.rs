//! Never built.
