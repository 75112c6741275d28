use crate::{bad, json, spanned, ParseError, Store, View};
use bytes::Bytes;
use rangeset::set::RangeSet;

#[derive(Debug, Clone)] pub struct Method<S = Bytes> { pub(crate) view: View<S> }
#[derive(Debug, Clone)] pub struct Target<S = Bytes> { pub(crate) view: View<S> }
#[derive(Debug, Clone)] pub struct Code<S = Bytes> { pub(crate) view: View<S> }
#[derive(Debug, Clone)] pub struct Reason<S = Bytes> { pub(crate) view: View<S> }
#[derive(Debug, Clone)] pub struct HeaderName<S = Bytes> { pub(crate) view: View<S>, text: String }
#[derive(Debug, Clone)] pub struct HeaderValue<S = Bytes> { pub(crate) view: View<S> }
/// With the end of the line.
#[derive(Debug, Clone)] pub struct Header<S = Bytes> { pub(crate) view: View<S>, pub name: HeaderName<S>, pub value: HeaderValue<S> }
/// With the end of the line.
#[derive(Debug, Clone)] pub struct RequestLine<S = Bytes> { pub(crate) view: View<S>, pub method: Method<S>, pub target: Target<S> }
/// With the end of the line.
#[derive(Debug, Clone)] pub struct Status<S = Bytes> { pub(crate) view: View<S>, pub code: Code<S>, pub reason: Reason<S> }
#[derive(Debug, Clone)] pub struct Body<S = Bytes> { pub(crate) view: View<S>, pub content: BodyContent<S> }
#[derive(Debug, Clone)] #[non_exhaustive] pub enum BodyContent<S = Bytes> { Json(json::Json<S>), Unknown(View<S>) }
#[derive(Debug, Clone)] pub struct Request<S = Bytes> { pub(crate) view: View<S>, pub request: RequestLine<S>, pub headers: Vec<Header<S>>, pub body: Option<Body<S>> }
#[derive(Debug, Clone)] pub struct Response<S = Bytes> { pub(crate) view: View<S>, pub status: Status<S>, pub headers: Vec<Header<S>>, pub body: Option<Body<S>> }
spanned!(Method Target Code Reason HeaderName HeaderValue Header RequestLine Status Body Request Response);

impl<S: Store> HeaderName<S> { pub fn as_str(&self) -> &str { &self.text } }
impl<S: Store> HeaderValue<S> { pub fn as_bytes(&self) -> Vec<u8> { self.view.to_vec() } }
impl<S: Store> Header<S> { pub fn without_value(&self) -> View<S> { self.view.without(self.value.indices()) } }
fn without<S: Store>(v: &View<S>, headers: &[Header<S>], body: &Option<Body<S>>) -> View<S> {
    let v = headers.iter().fold(v.clone(), |v, h| v.without(h.indices()));
    match body { Some(b) => v.without(b.indices()), None => v }
}
impl<S: Store> Request<S> {
    pub fn headers_with_name<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Header<S>> + 'a { self.headers.iter().filter(move |h| h.name.text.eq_ignore_ascii_case(name)) }
    /// Without the target, the headers and the body.
    pub fn without_data(&self) -> View<S> { without(&self.view, &self.headers, &self.body).without(self.request.target.indices()) }
}
impl<S: Store> Response<S> {
    pub fn headers_with_name<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Header<S>> + 'a { self.headers.iter().filter(move |h| h.name.text.eq_ignore_ascii_case(name)) }
    /// Without the headers and the body.
    pub fn without_data(&self) -> View<S> { without(&self.view, &self.headers, &self.body) }
}

/// The line that starts at `i`, and where the next one does.
fn line(b: &[u8], i: usize) -> Result<(usize, usize), ParseError> {
    match b[i..].windows(2).position(|w| w == b"\r\n") { Some(n) => Ok((i + n, i + n + 2)), None => bad("unterminated line") }
}
type Head<S> = (Vec<Header<S>>, usize);
fn headers<S: Store>(src: &S, mut i: usize) -> Result<Head<S>, ParseError> {
    let b = src.as_ref();
    let mut v = vec![];
    loop {
        let (e, n) = line(b, i)?;
        if e == i { return Ok((v, n)) }
        let Some(c) = b[i..e].iter().position(|c| *c == b':') else { return bad("header without a colon") };
        let Ok(text) = std::str::from_utf8(&b[i..i + c]) else { return bad("header name") };
        let sp = |c: &u8| *c == b' ' || *c == b'\t';
        let (mut s, mut t) = (i + c + 1, e);
        while s < t && sp(&b[s]) { s += 1 }
        while t > s && sp(&b[t - 1]) { t -= 1 }
        v.push(Header { view: View::new(src, i..n), name: HeaderName { view: View::new(src, i..i + c), text: text.into() }, value: HeaderValue { view: View::new(src, s..t) } });
        i = n;
    }
}
fn body<S: Store>(src: &S, hs: &[Header<S>], mut i: usize, to_end: bool) -> Result<(Option<Body<S>>, usize), ParseError> {
    let b = src.as_ref();
    let field = |n: &str| hs.iter().find(|h| h.name.text.eq_ignore_ascii_case(n)).map(|h| String::from_utf8_lossy(&h.value.as_bytes()).to_ascii_lowercase());
    let mut idx = RangeSet::default();
    if field("transfer-encoding").is_some_and(|v| v.contains("chunked")) {
        loop {
            let (e, n) = line(b, i)?;
            let size = std::str::from_utf8(&b[i..e]).ok().and_then(|s| usize::from_str_radix(s.split(';').next().unwrap().trim(), 16).ok());
            let Some(size) = size else { return bad("chunk size") };
            if n + size + 2 > b.len() { return bad("chunk is cut") }
            if &b[n + size..n + size + 2] != b"\r\n" { return bad("chunk end") }
            i = n + size + 2;
            if size == 0 { break }
            idx.union_mut(n..n + size);
        }
    } else if let Some(v) = field("content-length") {
        let Ok(n) = v.trim().parse::<usize>() else { return bad("content length") };
        if i + n > b.len() { return bad("body is cut") }
        if n > 0 { idx.union_mut(i..i + n) }
        i += n;
    } else if to_end {
        if i < b.len() { idx.union_mut(i..b.len()) }
        i = b.len();
    }
    if idx.is_empty() { return Ok((None, i)) }
    let at: Vec<usize> = idx.iter().flatten().collect();
    let text: Vec<u8> = at.iter().map(|&p| b[p]).collect();
    let view = View::new(src, idx);
    let content = if field("content-type").is_some_and(|v| v.starts_with("application/json")) { BodyContent::Json(json::parse(src, &text, &at)?) } else { BodyContent::Unknown(view.clone()) };
    Ok((Some(Body { view, content }), i))
}
fn request_at<S: Store>(src: &S, i: usize) -> Result<(Request<S>, usize), ParseError> {
    let b = src.as_ref();
    let (e, n) = line(b, i)?;
    let mut sp = (i..e).filter(|&k| b[k] == b' ');
    let (Some(x), Some(y), None) = (sp.next(), sp.next(), sp.next()) else { return bad("request line") };
    if !b[y + 1..e].starts_with(b"HTTP/1.") { return bad("version") }
    let v = |a: usize, z: usize| View::new(src, a..z);
    let request = RequestLine { view: v(i, n), method: Method { view: v(i, x) }, target: Target { view: v(x + 1, y) } };
    let (headers, at) = headers(src, n)?;
    let (body, end) = body(src, &headers, at, false)?;
    Ok((Request { view: v(i, end), request, headers, body }, end))
}
fn response_at<S: Store>(src: &S, i: usize) -> Result<(Response<S>, usize), ParseError> {
    let b = src.as_ref();
    let (e, n) = line(b, i)?;
    if !b[i..e].starts_with(b"HTTP/1.") { return bad("version") }
    let Some(x) = (i..e).find(|&k| b[k] == b' ') else { return bad("status line") };
    let y = (x + 1..e).find(|&k| b[k] == b' ').unwrap_or(e);
    let v = |a: usize, z: usize| View::new(src, a..z);
    let status = Status { view: v(i, n), code: Code { view: v(x + 1, y) }, reason: Reason { view: v((y + 1).min(e), e) } };
    let code = &b[x + 1..y];
    let none = code.first() == Some(&b'1') || code == b"204" || code == b"304";
    let (headers, at) = headers(src, n)?;
    let (body, end) = if none { (None, at) } else { body(src, &headers, at, true)? };
    Ok((Response { view: v(i, end), status, headers, body }, end))
}
pub fn parse_request<S: Store>(src: S) -> Result<Request<S>, ParseError> { request_at(&src, 0).map(|x| x.0) }
pub fn parse_response<S: Store>(src: S) -> Result<Response<S>, ParseError> { response_at(&src, 0).map(|x| x.0) }

macro_rules! many { ($n:ident $t:ident $f:ident) => {
    #[derive(Debug)] pub struct $n { src: Bytes, i: usize }
    impl $n {
        pub fn new(src: Bytes) -> Self { $n { src, i: 0 } }
        pub fn new_from_slice(src: &[u8]) -> Self { Self::new(Bytes::copy_from_slice(src)) }
    }
    impl Iterator for $n {
        type Item = Result<$t, ParseError>;
        fn next(&mut self) -> Option<Self::Item> {
            if self.i >= self.src.len() { return None }
            match $f(&self.src, self.i) {
                Ok((m, e)) => { self.i = e; Some(Ok(m)) }
                Err(e) => { self.i = self.src.len(); Some(Err(e)) }
            }
        }
    }
} }
many!(Requests Request request_at);
many!(Responses Response response_at);
