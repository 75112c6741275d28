//! Binary Canonical Serialization, serializer half.
use serde::ser::{self, Serialize};

#[derive(Debug, thiserror::Error)]
#[error("bcs: {0}")]
pub struct Error(String);
impl ser::Error for Error { fn custom<T: std::fmt::Display>(m: T) -> Self { Error(m.to_string()) } }
pub type Result<T> = std::result::Result<T, Error>;

pub fn to_bytes<T: ?Sized + Serialize>(v: &T) -> Result<Vec<u8>> {
    let mut s = Ser(Vec::new());
    v.serialize(&mut s)?;
    Ok(s.0)
}
struct Ser(Vec<u8>);
impl Ser {
    fn uleb(&mut self, mut v: u32) {
        while v >= 0x80 {
            self.0.push((v as u8 & 0x7f) | 0x80);
            v >>= 7;
        }
        self.0.push(v as u8);
    }
    fn len(&mut self, n: usize) -> Result<()> {
        if n > (1 << 31) - 1 { return Err(Error("too long".into())); }
        self.uleb(n as u32);
        Ok(())
    }
}
macro_rules! int { ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<()> { self.0.extend_from_slice(&v.to_le_bytes()); Ok(()) })* } }
impl<'a> ser::Serializer for &'a mut Ser {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = MapSer<'a>;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    int!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128,
         serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128);
    fn serialize_bool(self, v: bool) -> Result<()> { self.0.push(v as u8); Ok(()) }
    fn serialize_f32(self, _: f32) -> Result<()> { Err(Error("float".into())) }
    fn serialize_f64(self, _: f64) -> Result<()> { Err(Error("float".into())) }
    fn serialize_char(self, _: char) -> Result<()> { Err(Error("char".into())) }
    fn serialize_str(self, v: &str) -> Result<()> { self.serialize_bytes(v.as_bytes()) }
    fn serialize_bytes(self, v: &[u8]) -> Result<()> { self.len(v.len())?; self.0.extend_from_slice(v); Ok(()) }
    fn serialize_none(self) -> Result<()> { self.0.push(0); Ok(()) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<()> { self.0.push(1); v.serialize(self) }
    fn serialize_unit(self) -> Result<()> { Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<()> { Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<()> { self.uleb(i); Ok(()) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<()> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<()> { self.uleb(i); v.serialize(self) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self> { self.len(n.ok_or_else(|| Error("unknown length".into()))?)?; Ok(self) }
    fn serialize_tuple(self, _: usize) -> Result<Self> { Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self> { Ok(self) }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self> { self.uleb(i); Ok(self) }
    fn serialize_map(self, _: Option<usize>) -> Result<MapSer<'a>> { Ok(MapSer { s: self, e: vec![], k: None }) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self> { Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self> { self.uleb(i); Ok(self) }
    fn is_human_readable(&self) -> bool { false }
}
macro_rules! comp { ($($tr:ident $f:ident),*) => { $(impl ser::$tr for &mut Ser {
    type Ok = (); type Error = Error;
    fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> { v.serialize(&mut **self) }
    fn end(self) -> Result<()> { Ok(()) }
})* } }
comp!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! st { ($($tr:ident),*) => { $(impl ser::$tr for &mut Ser {
    type Ok = (); type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<()> { v.serialize(&mut **self) }
    fn end(self) -> Result<()> { Ok(()) }
})* } }
st!(SerializeStruct, SerializeStructVariant);
pub struct MapSer<'a> { s: &'a mut Ser, e: Vec<(Vec<u8>, Vec<u8>)>, k: Option<Vec<u8>> }
impl ser::SerializeMap for MapSer<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<()> { self.k = Some(to_bytes(k)?); Ok(()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> { let k = self.k.take().unwrap(); self.e.push((k, to_bytes(v)?)); Ok(()) }
    fn end(mut self) -> Result<()> {
        self.e.sort();
        self.e.dedup_by(|a, b| a.0 == b.0);
        self.s.len(self.e.len())?;
        for (k, v) in self.e { self.s.0.extend(k); self.s.0.extend(v); }
        Ok(())
    }
}
