//! No roots are available offline; the harness brings its own.
pub const TLS_SERVER_ROOTS: &[pki_types::TrustAnchor<'static>] = &[];
