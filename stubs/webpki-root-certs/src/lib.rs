//! No roots are available offline; the harness brings its own.
pub const TLS_SERVER_ROOT_CERTS: &[pki_types::CertificateDer<'static>] = &[];
