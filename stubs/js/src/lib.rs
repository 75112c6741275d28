//! What wasm-bindgen, js-sys, wasm-bindgen-futures, serde-wasm-bindgen and
//! tsify-next give the bindings, outside a browser: values, promises, arrays.
pub use js_macro::{wasm_bindgen, Tsify};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

pub mod prelude { pub use super::{wasm_bindgen, JsError, JsValue, UnwrapThrowExt}; }
pub trait UnwrapThrowExt<T> { fn unwrap_throw(self) -> T; }
impl<T> UnwrapThrowExt<T> for Option<T> { fn unwrap_throw(self) -> T { self.unwrap() } }
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> { fn unwrap_throw(self) -> T { self.unwrap() } }

#[derive(Clone)]
pub enum JsValue {
    Undefined,
    Null,
    Num(f64),
    Str(String),
    Bytes(Rc<Vec<u8>>),
    Map(Rc<RefCell<BTreeMap<String, JsValue>>>),
    Json(Rc<serde_json::Value>),
}
impl JsValue {
    pub const NULL: JsValue = JsValue::Null;
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub fn from_str(s: &str) -> Self { JsValue::Str(s.into()) }
    pub fn is_null(&self) -> bool { matches!(self, JsValue::Null) }
    pub fn is_undefined(&self) -> bool { matches!(self, JsValue::Undefined) }
    pub fn as_string(&self) -> Option<String> { match self { JsValue::Str(s) => Some(s.clone()), _ => None } }
    pub fn as_f64(&self) -> Option<f64> { match self { JsValue::Num(n) => Some(*n), _ => None } }
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self { JsValue::Str(s) => write!(f, "JsValue({s:?})"), JsValue::Num(n) => write!(f, "JsValue({n})"), JsValue::Null => f.write_str("JsValue(null)"), JsValue::Undefined => f.write_str("JsValue(undefined)"), _ => f.write_str("JsValue(Object)") }
    }
}
impl From<&str> for JsValue { fn from(s: &str) -> Self { JsValue::Str(s.into()) } }
impl From<&String> for JsValue { fn from(s: &String) -> Self { JsValue::Str(s.clone()) } }
impl From<String> for JsValue { fn from(s: String) -> Self { JsValue::Str(s) } }
impl From<f64> for JsValue { fn from(n: f64) -> Self { JsValue::Num(n) } }

#[derive(Clone, Debug)]
pub struct JsError(pub String);
impl JsError { pub fn new(s: &str) -> Self { JsError(s.into()) } }
impl From<JsError> for JsValue { fn from(e: JsError) -> Self { JsValue::Str(e.0) } }

pub struct Object(JsValue);
impl Object { #[allow(clippy::new_without_default)] pub fn new() -> Self { Object(JsValue::Map(Default::default())) } }
impl std::ops::Deref for Object { type Target = JsValue; fn deref(&self) -> &JsValue { &self.0 } }
impl From<Object> for JsValue { fn from(o: Object) -> Self { o.0 } }
pub struct Reflect;
impl Reflect {
    pub fn set(o: &JsValue, k: &JsValue, v: &JsValue) -> Result<bool, JsValue> {
        let (JsValue::Map(m), Some(k)) = (o, k.as_string()) else { return Err("not an object".into()) };
        m.borrow_mut().insert(k, v.clone());
        Ok(true)
    }
    pub fn get(o: &JsValue, k: &JsValue) -> Result<JsValue, JsValue> {
        let (JsValue::Map(m), Some(k)) = (o, k.as_string()) else { return Err("not an object".into()) };
        Ok(m.borrow().get(&k).cloned().unwrap_or(JsValue::Undefined))
    }
}
#[derive(Clone)]
pub struct Function(pub Rc<dyn Fn(&JsValue) -> Result<JsValue, JsValue>>);
impl Function { pub fn call1(&self, _this: &JsValue, a: &JsValue) -> Result<JsValue, JsValue> { (self.0)(a) } }

#[derive(Clone)]
pub struct Uint8Array(Rc<Vec<u8>>);
impl Uint8Array {
    pub fn new(v: &JsValue) -> Self { match v { JsValue::Bytes(b) => Uint8Array(b.clone()), _ => Uint8Array(Rc::new(vec![])) } }
    pub fn to_vec(&self) -> Vec<u8> { self.0.to_vec() }
    pub fn length(&self) -> u32 { self.0.len() as u32 }
    pub fn copy_to(&self, to: &mut [u8]) { to.copy_from_slice(&self.0) }
    pub fn subarray(&self, a: u32, b: u32) -> Self { Uint8Array(Rc::new(self.0[a as usize..b as usize].to_vec())) }
}
impl From<&[u8]> for Uint8Array { fn from(b: &[u8]) -> Self { Uint8Array(Rc::new(b.to_vec())) } }
impl From<Uint8Array> for JsValue { fn from(a: Uint8Array) -> Self { JsValue::Bytes(a.0) } }

#[derive(Default)]
struct State { result: Option<Result<JsValue, JsValue>>, wakers: Vec<Waker> }
#[derive(Clone)]
pub struct Promise(Rc<RefCell<State>>);
/// The side of a promise that settles it.
pub struct Settle(Rc<RefCell<State>>);
impl Promise {
    pub fn pair() -> (Promise, Settle) { let s: Rc<RefCell<State>> = Default::default(); (Promise(s.clone()), Settle(s)) }
    pub fn resolve(v: &JsValue) -> Promise { let (p, s) = Self::pair(); s.settle(Ok(v.clone())); p }
}
impl Settle {
    pub fn settle(self, r: Result<JsValue, JsValue>) {
        let w = { let mut s = self.0.borrow_mut(); s.result = Some(r); std::mem::take(&mut s.wakers) };
        for w in w { w.wake() }
    }
}
pub struct JsFuture(Promise);
impl From<Promise> for JsFuture { fn from(p: Promise) -> Self { JsFuture(p) } }
impl Future for JsFuture {
    type Output = Result<JsValue, JsValue>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.0 .0.borrow_mut();
        match &s.result { Some(r) => Poll::Ready(r.clone()), None => { s.wakers.push(cx.waker().clone()); Poll::Pending } }
    }
}

/// An `IoChannel` of the application.
pub trait Channel {
    fn read(&self) -> Result<Promise, JsValue>;
    fn write(&self, data: &Uint8Array) -> Result<Promise, JsValue>;
    fn close(&self) -> Result<Promise, JsValue>;
}

pub fn from_value<T: serde::de::DeserializeOwned>(v: JsValue) -> Result<T, serde_json::Error> {
    serde_json::from_value(match v { JsValue::Json(j) => (*j).clone(), _ => serde_json::Value::Null })
}
pub struct Serializer;
impl Serializer { pub fn json_compatible() -> Self { Serializer } pub fn new() -> Self { Serializer } }
impl Default for Serializer { fn default() -> Self { Serializer } }
macro_rules! values { ($($n:ident: $t:ty),*) => { $(fn $n(self, v: $t) -> Result<JsValue, serde_json::Error> { to(&v) })* } }
pub fn to<T: serde::Serialize + ?Sized>(v: &T) -> Result<JsValue, serde_json::Error> { Ok(JsValue::Json(Rc::new(serde_json::to_value(v)?))) }
pub fn to_value<T: serde::Serialize + ?Sized>(v: &T) -> Result<JsValue, serde_json::Error> { to(v) }
pub struct Wrap<C>(C);
macro_rules! compound { ($($tr:ident $f:ident),*) => { $(impl<C: serde::ser::$tr<Ok = serde_json::Value, Error = serde_json::Error>> serde::ser::$tr for Wrap<C> {
    type Ok = JsValue; type Error = serde_json::Error;
    fn $f<T: serde::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Self::Error> { self.0.$f(v) }
    fn end(self) -> Result<JsValue, Self::Error> { Ok(JsValue::Json(Rc::new(self.0.end()?))) }
})* } }
compound!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! fields { ($($tr:ident),*) => { $(impl<C: serde::ser::$tr<Ok = serde_json::Value, Error = serde_json::Error>> serde::ser::$tr for Wrap<C> {
    type Ok = JsValue; type Error = serde_json::Error;
    fn serialize_field<T: serde::Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Self::Error> { self.0.serialize_field(k, v) }
    fn end(self) -> Result<JsValue, Self::Error> { Ok(JsValue::Json(Rc::new(self.0.end()?))) }
})* } }
fields!(SerializeStruct, SerializeStructVariant);
impl<C: serde::ser::SerializeMap<Ok = serde_json::Value, Error = serde_json::Error>> serde::ser::SerializeMap for Wrap<C> {
    type Ok = JsValue; type Error = serde_json::Error;
    fn serialize_key<T: serde::Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Self::Error> { self.0.serialize_key(k) }
    fn serialize_value<T: serde::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Self::Error> { self.0.serialize_value(v) }
    fn end(self) -> Result<JsValue, Self::Error> { Ok(JsValue::Json(Rc::new(self.0.end()?))) }
}
type Js = serde_json::value::Serializer;
const JS: Js = Js {};
impl serde::Serializer for &Serializer {
    type Ok = JsValue;
    type Error = serde_json::Error;
    type SerializeSeq = Wrap<<Js as serde::Serializer>::SerializeSeq>;
    type SerializeTuple = Wrap<<Js as serde::Serializer>::SerializeTuple>;
    type SerializeTupleStruct = Wrap<<Js as serde::Serializer>::SerializeTupleStruct>;
    type SerializeTupleVariant = Wrap<<Js as serde::Serializer>::SerializeTupleVariant>;
    type SerializeMap = Wrap<<Js as serde::Serializer>::SerializeMap>;
    type SerializeStruct = Wrap<<Js as serde::Serializer>::SerializeStruct>;
    type SerializeStructVariant = Wrap<<Js as serde::Serializer>::SerializeStructVariant>;
    values!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_f64: f64, serialize_char: char, serialize_str: &str, serialize_bytes: &[u8]);
    fn serialize_none(self) -> Result<JsValue, Self::Error> { Ok(JsValue::Null) }
    fn serialize_some<T: serde::Serialize + ?Sized>(self, v: &T) -> Result<JsValue, Self::Error> { to(v) }
    fn serialize_unit(self) -> Result<JsValue, Self::Error> { Ok(JsValue::Null) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<JsValue, Self::Error> { Ok(JsValue::Null) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<JsValue, Self::Error> { to(v) }
    fn serialize_newtype_struct<T: serde::Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<JsValue, Self::Error> { to(v) }
    fn serialize_newtype_variant<T: serde::Serialize + ?Sized>(self, n: &'static str, i: u32, k: &'static str, v: &T) -> Result<JsValue, Self::Error> { Ok(JsValue::Json(Rc::new(JS.serialize_newtype_variant(n, i, k, v)?))) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> { Ok(Wrap(JS.serialize_seq(n)?)) }
    fn serialize_tuple(self, n: usize) -> Result<Self::SerializeTuple, Self::Error> { Ok(Wrap(JS.serialize_tuple(n)?)) }
    fn serialize_tuple_struct(self, s: &'static str, n: usize) -> Result<Self::SerializeTupleStruct, Self::Error> { Ok(Wrap(JS.serialize_tuple_struct(s, n)?)) }
    fn serialize_tuple_variant(self, s: &'static str, i: u32, v: &'static str, n: usize) -> Result<Self::SerializeTupleVariant, Self::Error> { Ok(Wrap(JS.serialize_tuple_variant(s, i, v, n)?)) }
    fn serialize_map(self, n: Option<usize>) -> Result<Self::SerializeMap, Self::Error> { Ok(Wrap(JS.serialize_map(n)?)) }
    fn serialize_struct(self, s: &'static str, n: usize) -> Result<Self::SerializeStruct, Self::Error> { Ok(Wrap(JS.serialize_struct(s, n)?)) }
    fn serialize_struct_variant(self, s: &'static str, i: u32, v: &'static str, n: usize) -> Result<Self::SerializeStructVariant, Self::Error> { Ok(Wrap(JS.serialize_struct_variant(s, i, v, n)?)) }
}
