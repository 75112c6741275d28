use crate::{bad, spanned, ParseError, Store, View};
use bytes::Bytes;
use rangeset::set::RangeSet;

#[derive(Debug, Clone)] pub struct Null<S = Bytes> { pub(crate) view: View<S> }
#[derive(Debug, Clone)] pub struct Bool<S = Bytes> { pub(crate) view: View<S> }
#[derive(Debug, Clone)] pub struct Number<S = Bytes> { pub(crate) view: View<S> }
/// Without the quotes.
#[derive(Debug, Clone)] pub struct String<S = Bytes> { pub(crate) view: View<S> }
#[derive(Debug, Clone)] pub struct JsonKey<S = Bytes> { pub(crate) view: View<S> }
#[derive(Debug, Clone)] pub struct KeyValue<S = Bytes> { pub(crate) view: View<S>, pub key: JsonKey<S>, pub value: JsonValue<S> }
#[derive(Debug, Clone)] pub struct Array<S = Bytes> { pub(crate) view: View<S>, inner: RangeSet<usize>, pub elems: Vec<JsonValue<S>> }
#[derive(Debug, Clone)] pub struct Object<S = Bytes> { pub(crate) view: View<S>, pub elems: Vec<KeyValue<S>> }
spanned!(Null Bool Number String JsonKey KeyValue Array Object);

#[derive(Debug, Clone)]
pub enum JsonValue<S = Bytes> { Null(Null<S>), Bool(Bool<S>), Number(Number<S>), String(String<S>), Array(Array<S>), Object(Object<S>) }
pub trait JsonVisit {}

/// A document.
#[derive(Debug, Clone)]
pub struct Json<S = Bytes> { pub root: JsonValue<S> }
impl<S: Store> Json<S> { pub fn get(&self, path: &str) -> Option<&JsonValue<S>> { self.root.get(path) } }

impl<S: Store> JsonValue<S> {
    pub fn view(&self) -> &View<S> {
        match self { Self::Null(x) => &x.view, Self::Bool(x) => &x.view, Self::Number(x) => &x.view, Self::String(x) => &x.view, Self::Array(x) => &x.view, Self::Object(x) => &x.view }
    }
    pub fn indices(&self) -> &RangeSet<usize> { self.view().indices() }
    pub fn get(&self, path: &str) -> Option<&JsonValue<S>> {
        let (head, rest) = match path.split_once('.') { Some((h, r)) => (h, Some(r)), None => (path, None) };
        let v = match self {
            Self::Object(o) => &o.elems.iter().find(|kv| kv.key == head)?.value,
            Self::Array(a) => a.elems.get(head.parse::<usize>().ok()?)?,
            _ => return None,
        };
        match rest { Some(r) => v.get(r), None => Some(v) }
    }
}
impl<S: Store> PartialEq<str> for JsonKey<S> { fn eq(&self, o: &str) -> bool { self.view.to_vec() == o.as_bytes() } }
impl<S: Store> PartialEq<&str> for JsonKey<S> { fn eq(&self, o: &&str) -> bool { self == *o } }
impl<S: Store> KeyValue<S> { pub fn without_value(&self) -> View<S> { self.view.without(self.value.indices()) } }
impl<S: Store> Object<S> {
    pub fn get(&self, path: &str) -> Option<&JsonValue<S>> { let (h, r) = path.split_once('.').map_or((path, None), |(h, r)| (h, Some(r))); let v = &self.elems.iter().find(|kv| kv.key == h)?.value; match r { Some(r) => v.get(r), None => Some(v) } }
    pub fn without_pairs(&self) -> View<S> { self.elems.iter().fold(self.view.clone(), |v, kv| v.without(kv.indices())) }
}
impl<S: Store> Array<S> {
    /// Without the values and the separators between them.
    pub fn without_values(&self) -> View<S> { self.view.without(&self.inner) }
}

struct P<'a, S> { src: &'a S, text: &'a [u8], at: &'a [usize], i: usize }
impl<S: Store> P<'_, S> {
    fn span(&self, a: usize, b: usize) -> View<S> { View::new(self.src, self.at[a..b].iter().map(|&p| p..p + 1).collect::<Vec<_>>()) }
    fn ws(&mut self) { while matches!(self.text.get(self.i), Some(b' ' | b'\n' | b'\r' | b'\t')) { self.i += 1 } }
    fn eat(&mut self, c: u8) -> Result<(), ParseError> { if self.text.get(self.i) == Some(&c) { self.i += 1; Ok(()) } else { bad("unexpected character in JSON") } }
    fn quoted(&mut self) -> Result<View<S>, ParseError> {
        self.eat(b'"')?;
        let a = self.i;
        loop {
            match self.text.get(self.i) {
                Some(b'"') => break,
                Some(b'\\') => self.i += 2,
                Some(_) => self.i += 1,
                None => return bad("unterminated string"),
            }
        }
        self.i += 1;
        Ok(self.span(a, self.i - 1))
    }
    fn value(&mut self) -> Result<JsonValue<S>, ParseError> {
        let a = self.i;
        match self.text.get(self.i) {
            Some(b'{') => {
                let mut elems = vec![];
                self.i += 1;
                self.ws();
                if self.text.get(self.i) == Some(&b'}') { self.i += 1; return Ok(JsonValue::Object(Object { view: self.span(a, self.i), elems })) }
                loop {
                    self.ws();
                    let k = self.i;
                    let key = JsonKey { view: self.quoted()? };
                    self.ws();
                    self.eat(b':')?;
                    self.ws();
                    let value = self.value()?;
                    elems.push(KeyValue { view: self.span(k, self.i), key, value });
                    self.ws();
                    if self.text.get(self.i) == Some(&b',') { self.i += 1 } else { self.eat(b'}')?; break }
                }
                Ok(JsonValue::Object(Object { view: self.span(a, self.i), elems }))
            }
            Some(b'[') => {
                let mut elems = vec![];
                self.i += 1;
                self.ws();
                if self.text.get(self.i) == Some(&b']') { self.i += 1; return Ok(JsonValue::Array(Array { view: self.span(a, self.i), inner: RangeSet::default(), elems })) }
                let (s, mut e): (usize, usize);
                self.ws();
                s = self.i;
                loop {
                    self.ws();
                    elems.push(self.value()?);
                    e = self.i;
                    self.ws();
                    if self.text.get(self.i) == Some(&b',') { self.i += 1 } else { self.eat(b']')?; break }
                }
                Ok(JsonValue::Array(Array { view: self.span(a, self.i), inner: self.span(s, e).idx, elems }))
            }
            Some(b'"') => Ok(JsonValue::String(String { view: self.quoted()? })),
            _ => {
                while self.text.get(self.i).is_some_and(|c| c.is_ascii_alphanumeric() || b"+-.".contains(c)) { self.i += 1 }
                let view = self.span(a, self.i);
                match &self.text[a..self.i] {
                    b"null" => Ok(JsonValue::Null(Null { view })),
                    b"true" | b"false" => Ok(JsonValue::Bool(Bool { view })),
                    t if t.first().is_some_and(|c| *c == b'-' || c.is_ascii_digit()) && std::str::from_utf8(t).unwrap().parse::<f64>().is_ok() => Ok(JsonValue::Number(Number { view })),
                    _ => bad("not a JSON value"),
                }
            }
        }
    }
}
/// `at` has the position of every byte of `text` in the message.
pub(crate) fn parse<S: Store>(src: &S, text: &[u8], at: &[usize]) -> Result<Json<S>, ParseError> {
    let mut p = P { src, text, at, i: 0 };
    p.ws();
    let root = p.value()?;
    p.ws();
    if p.i != text.len() { return bad("trailing characters after JSON") }
    Ok(Json { root })
}
pub fn parse_str(s: &str) -> Result<JsonValue<Bytes>, ParseError> {
    let src = Bytes::copy_from_slice(s.as_bytes());
    parse(&src, s.as_bytes(), &(0..s.len()).collect::<Vec<_>>()).map(|d| d.root)
}
