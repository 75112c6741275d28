//! Object identifiers, kept in DER content form.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ObjectIdentifier { bytes: [u8; 39], len: u8 }
impl ObjectIdentifier {
    pub const fn raw(b: &[u8]) -> Self {
        let mut bytes = [0u8; 39];
        let mut i = 0;
        while i < b.len() { bytes[i] = b[i]; i += 1; }
        ObjectIdentifier { bytes, len: b.len() as u8 }
    }
    pub fn as_bytes(&self) -> &[u8] { &self.bytes[..self.len as usize] }
}
impl std::fmt::Display for ObjectIdentifier {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let b = self.as_bytes();
        let mut v = 0u64;
        let mut first = true;
        for x in b {
            v = (v << 7) | (*x & 0x7f) as u64;
            if x & 0x80 == 0 {
                if first {
                    let a = (v / 40).min(2);
                    write!(f, "{}.{}", a, v - a * 40)?;
                    first = false;
                } else { write!(f, ".{v}")?; }
                v = 0;
            }
        }
        Ok(())
    }
}
impl std::fmt::Debug for ObjectIdentifier { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "ObjectIdentifier({self})") } }
#[cfg(feature = "db")]
pub mod db {
    pub mod rfc5912 {
        use crate::ObjectIdentifier;
        pub const SECP_256_R_1: ObjectIdentifier = ObjectIdentifier::raw(&[0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07]);
        pub const SECP_384_R_1: ObjectIdentifier = ObjectIdentifier::raw(&[0x2b, 0x81, 0x04, 0x00, 0x22]);
        pub const SECP_521_R_1: ObjectIdentifier = ObjectIdentifier::raw(&[0x2b, 0x81, 0x04, 0x00, 0x23]);
    }
}
