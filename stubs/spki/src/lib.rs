//! SubjectPublicKeyInfo parsing.
pub use const_oid::ObjectIdentifier;
pub mod der {
    pub mod oid { pub use const_oid::ObjectIdentifier; }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Error(pub &'static str);
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
    impl std::error::Error for Error {}
    /// Decodes one value, rejecting trailing data.
    pub trait Decode<'a>: Sized {
        type Error;
        fn from_der(b: &'a [u8]) -> Result<Self, Self::Error>;
    }
    /// (tag, content, rest)
    pub(crate) fn tlv(b: &[u8]) -> Result<(u8, &[u8], &[u8]), Error> {
        let e = Error("malformed DER");
        let (&t, r) = b.split_first().ok_or(e)?;
        let (&l, r) = r.split_first().ok_or(e)?;
        let (n, r) = if l < 0x80 { (l as usize, r) } else {
            let k = (l & 0x7f) as usize;
            if k == 0 || k > 4 || r.len() < k { return Err(e); }
            (r[..k].iter().fold(0usize, |a, b| a << 8 | *b as usize), &r[k..])
        };
        if r.len() < n { return Err(e); }
        Ok((t, &r[..n], &r[n..]))
    }
    /// Any value.
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct AnyRef<'a> { pub(crate) tag: u8, pub(crate) value: &'a [u8] }
    pub trait FromAny<'a>: Sized { fn from_any(a: &AnyRef<'a>) -> Result<Self, Error>; }
    impl<'a> FromAny<'a> for const_oid::ObjectIdentifier {
        fn from_any(a: &AnyRef<'a>) -> Result<Self, Error> {
            if a.tag != 6 || a.value.is_empty() || a.value.len() > 39 { return Err(Error("not an OID")); }
            Ok(const_oid::ObjectIdentifier::raw(a.value))
        }
    }
    impl<'a> AnyRef<'a> {
        pub fn decode_as<T: FromAny<'a>>(self) -> Result<T, Error> { T::from_any(&self) }
    }
}
#[derive(Clone, Debug)]
pub struct AlgorithmIdentifier<P> { pub oid: ObjectIdentifier, pub parameters: Option<P> }
pub type AlgorithmIdentifierRef<'a> = AlgorithmIdentifier<der::AnyRef<'a>>;
#[derive(Clone, Debug)]
pub struct SubjectPublicKeyInfoRef<'a> { pub algorithm: AlgorithmIdentifierRef<'a>, pub subject_public_key: &'a [u8] }
impl<'a> der::Decode<'a> for SubjectPublicKeyInfoRef<'a> {
    type Error = der::Error;
    fn from_der(b: &'a [u8]) -> Result<Self, der::Error> {
        use der::{tlv, AnyRef, Error, FromAny};
        let (t, c, rest) = tlv(b)?;
        if t != 0x30 || !rest.is_empty() { return Err(Error("not a sequence")); }
        let (t, alg, rest) = tlv(c)?;
        if t != 0x30 { return Err(Error("no algorithm")); }
        let (kt, key, rest) = tlv(rest)?;
        if kt != 3 || !rest.is_empty() { return Err(Error("no key")); }
        let (ot, oid, par) = tlv(alg)?;
        let oid = ObjectIdentifier::from_any(&AnyRef { tag: ot, value: oid })?;
        let parameters = if par.is_empty() { None } else {
            let (tag, value, rest) = tlv(par)?;
            if !rest.is_empty() { return Err(Error("trailing data")); }
            Some(AnyRef { tag, value })
        };
        Ok(SubjectPublicKeyInfoRef { algorithm: AlgorithmIdentifier { oid, parameters }, subject_public_key: key })
    }
}
