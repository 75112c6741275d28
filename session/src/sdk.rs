//! The SDK on top of the parties: HTTP requests, handlers, limits, results.
use crate::rig::*;
use crate::server::{self, Act};
use crate::truth::{base, digest, links};
use mpz_ideal::hooks;
use rangeset::set::RangeSet;
use simkit::exec::{Exec, Stop};
use simkit::net::{pair, Ctl, Cut, End};
use simkit::{ensure, ev, violate, RunResult, Sim};
use std::cell::{Cell, RefCell};
use std::ops::Range;
use std::rc::Rc;
use tlsn::hash::HashAlgId;
use tlsn_sdk_core as sdk;
use tlsn_sdk_core::{Commit, CommitRange, Handler, HandlerAction, HandlerParams, HandlerPart, HandlerType, HashAlgorithm, HttpRequest, HttpResponse, Method, Reveal, RevealOutput, SdkProver, SdkVerifier, VerifierOutput};

/// A JSON value and where its parts are in the text it was written to; the
/// content of strings is without its quotes.
#[derive(Clone, Debug)]
pub struct J { pub at: Range<usize>, pub kind: K }
#[derive(Clone, Debug)]
pub enum K { Leaf, Arr(Vec<J>, Range<usize>), Obj(Vec<(String, Range<usize>, J)>) }

pub fn json(sim: &Sim, depth: usize, out: &mut Vec<u8>) -> J {
    let ws = |out: &mut Vec<u8>| if sim.chance(1, 6) { out.extend(b" \n\t\r".iter().take(1 + sim.index(4))) };
    let start = out.len();
    match if depth == 0 { 2 + sim.index(4) } else { sim.weighted(&[4, 2, 2, 1, 1, 1]) } {
        0 => {
            out.push(b'{');
            ws(out);
            let n = sim.index(4);
            let mut v = vec![];
            for i in 0..n {
                let key = match sim.index(6) { 0 => format!("{i}"), 1 => format!("a b{i}"), 2 => format!("x\\\"{i}"), 3 => format!("é{i}"), _ => format!("key_{i}") };
                let s = out.len();
                out.extend(format!("\"{key}\"").bytes());
                ws(out);
                out.push(b':');
                ws(out);
                let j = json(sim, depth - 1, out);
                v.push((key, s..out.len(), j));
                ws(out);
                if i + 1 < n { out.push(b','); ws(out) }
            }
            out.push(b'}');
            J { at: start..out.len(), kind: K::Obj(v) }
        }
        1 => {
            out.push(b'[');
            ws(out);
            let n = sim.index(4);
            let s = out.len();
            let mut e = s;
            let mut v = vec![];
            for i in 0..n {
                v.push(json(sim, depth - 1, out));
                e = out.len();
                ws(out);
                if i + 1 < n { out.push(b','); ws(out) }
            }
            out.push(b']');
            J { at: start..out.len(), kind: K::Arr(v, s..e) }
        }
        2 => {
            out.push(b'"');
            for _ in 0..sim.size(20) { out.extend([&b"a"[..], b"Z", b" ", b"\\\"", b"\\n", "ü".as_bytes(), b"{", b"]", b",", b":"][sim.index(10)]) }
            out.push(b'"');
            J { at: start + 1..out.len() - 1, kind: K::Leaf }
        }
        k => {
            let t = match k { 3 => format!("{}", sim.range(0, 100_000) as i64 - 500), 4 => ["true", "false"][sim.index(2)].into(), _ => "null".to_string() };
            out.extend(t.bytes());
            J { at: start..out.len(), kind: K::Leaf }
        }
    }
}

/// A message and where its parts are.
#[derive(Clone, Debug, Default)]
pub struct Msg {
    pub raw: Vec<u8>,
    pub line: Range<usize>,
    /// Method and target, or code and reason.
    pub first: Range<usize>,
    pub second: Range<usize>,
    /// Name; the whole line, the name in it, the value in it.
    pub headers: Vec<(String, Range<usize>, Range<usize>, Range<usize>)>,
    /// The positions of the bytes of the body.
    pub body: Vec<usize>,
    pub json: Option<J>,
}
pub fn set(r: &Range<usize>) -> RangeSet<usize> { if r.is_empty() { RangeSet::default() } else { RangeSet::from(r.clone()) } }
impl Msg {
    pub fn of(&self, r: &Range<usize>) -> RangeSet<usize> { self.body[r.clone()].iter().map(|&p| p..p + 1).collect::<Vec<_>>().into() }
    pub fn whole_body(&self) -> RangeSet<usize> { self.of(&(0..self.body.len())) }
    /// Splits what the client sent, whose writer was the HTTP client.
    pub fn request(raw: &[u8], json: Option<J>) -> Result<Msg, String> {
        let mut m = Msg { raw: raw.to_vec(), json, ..Default::default() };
        let mut i = 0;
        let mut length = 0;
        loop {
            let Some(n) = raw[i..].windows(2).position(|w| w == b"\r\n") else { return Err("no end of line".into()) };
            let l = &raw[i..i + n];
            if i == 0 {
                m.line = 0..n + 2;
                let a = l.iter().position(|c| *c == b' ').ok_or("request line")?;
                let b = a + 1 + l[a + 1..].iter().position(|c| *c == b' ').ok_or("request line")?;
                m.first = 0..a;
                m.second = a + 1..b;
                if &l[b..] != b" HTTP/1.1" { return Err("version".into()) }
            } else if n == 0 {
                i += 2;
                break;
            } else {
                let c = l.iter().position(|c| *c == b':').ok_or("header")?;
                let name = String::from_utf8_lossy(&l[..c]).to_ascii_lowercase();
                let mut s = c + 1;
                while s < n && l[s] == b' ' { s += 1 }
                let mut e = n;
                while e > s && l[e - 1] == b' ' { e -= 1 }
                if name == "content-length" { length = String::from_utf8_lossy(&l[s..e]).parse().map_err(|_| "length")? }
                m.headers.push((name, i..i + n + 2, i..i + c, i + s..i + e));
            }
            i += n + 2;
        }
        if raw.len() != i + length { return Err(format!("{} bytes of body, {length} announced", raw.len() - i)) }
        m.body = (i..raw.len()).collect();
        Ok(m)
    }
}

pub struct Answer { pub msg: Msg, status: u16, headers: Vec<(String, Vec<u8>)>, body: Vec<u8>, pub until_close: bool }

pub fn token(sim: &Sim, n: u64) -> Vec<u8> { (0..sim.size(n)).map(|_| b"abcXYZ019-_/=;, \""[sim.index(17)]).collect::<Vec<_>>() }
pub fn trim(v: &[u8]) -> Vec<u8> { let s = v.iter().position(|c| *c != b' ').unwrap_or(v.len()); let e = v.iter().rposition(|c| *c != b' ').map_or(s, |e| e + 1); v[s..e].to_vec() }

/// Writes headers and body behind the start line.
pub fn compose(sim: &Sim, m: &mut Msg, hs: &[(String, Vec<u8>)], body: &[u8], chunked: bool) {
    let put = |m: &mut Msg, b: &[u8]| { let s = m.raw.len(); m.raw.extend(b); s..m.raw.len() };
    for (n, v) in hs {
        let s = m.raw.len();
        let nr = put(m, n.as_bytes());
        put(m, b":");
        if sim.chance(5, 6) { put(m, b" "); }
        let vr = put(m, v);
        if sim.chance(1, 10) { put(m, b" "); }
        put(m, b"\r\n");
        let e = m.raw.len();
        m.headers.push((n.clone(), s..e, nr, vr));
    }
    put(m, b"\r\n");
    if chunked {
        let mut i = 0;
        while i < body.len() {
            let n = 1 + sim.size((body.len() - i - 1) as u64) as usize;
            put(m, format!("{n:x}\r\n").as_bytes());
            let r = put(m, &body[i..i + n]);
            m.body.extend(r);
            put(m, b"\r\n");
            i += n;
        }
        put(m, b"0\r\n\r\n");
    } else {
        let r = put(m, body);
        m.body.extend(r);
    }
}

pub fn answer(sim: &Sim, may_close: bool) -> Answer {
    let mut m = Msg::default();
    let (status, reason) = [(200u16, "OK"), (201, "Created"), (404, "Not Found"), (500, ""), (204, "No Content"), (200, "Everything is fine")][sim.weighted(&[8, 1, 1, 1, 1, 1])];
    let put = |m: &mut Msg, b: &[u8]| { let s = m.raw.len(); m.raw.extend(b); s..m.raw.len() };
    put(&mut m, b"HTTP/1.1 ");
    m.first = put(&mut m, status.to_string().as_bytes());
    put(&mut m, b" ");
    m.second = put(&mut m, reason.as_bytes());
    put(&mut m, b"\r\n");
    m.line = 0..m.raw.len();
    // The body first: the headers announce it.
    let mut body = vec![];
    let is_json = sim.chance(2, 3);
    if is_json { let j = json(sim, 3, &mut body); m.json = Some(j) } else if sim.chance(4, 5) { body = token(sim, 150) }
    if status == 204 { body.clear(); m.json = None }
    let framing = if status == 204 { 3 } else if may_close { sim.index(3) } else { sim.index(2) };
    let mut hs: Vec<(String, Vec<u8>)> = vec![];
    if m.json.is_some() || is_json && status != 204 { hs.push((["Content-Type", "content-type"][sim.index(2)].into(), if sim.chance(1, 2) { b"application/json".to_vec() } else { b"application/json; charset=utf-8".to_vec() })) }
    for i in 0..sim.index(5) {
        let n = match sim.index(4) { 0 => "Set-Cookie".to_string(), 1 => "set-cookie".into(), 2 => "X-Repeated".into(), _ => format!("X-Header-{i}") };
        hs.push((n, trim(&token(sim, 30))));
    }
    match framing {
        0 => hs.push(("Content-Length".into(), body.len().to_string().into_bytes())),
        1 => hs.push(("Transfer-Encoding".into(), b"chunked".to_vec())),
        _ => {}
    }
    for i in (1..hs.len()).rev() { hs.swap(i, sim.index(i + 1)) }
    compose(sim, &mut m, &hs, &body, framing == 1);
    Answer { msg: m, status, headers: hs, body, until_close: framing == 2 }
}

/// Paths to all values of a document with what contains them.
fn paths<'a>(j: &'a J, path: &str, parent: Option<(&'a J, usize)>, out: &mut Vec<(String, Option<(&'a J, usize)>, &'a J)>) {
    if !path.is_empty() { out.push((path.into(), parent, j)) }
    let join = |s: &str| if path.is_empty() { s.to_string() } else { format!("{path}.{s}") };
    match &j.kind {
        K::Leaf => {}
        K::Arr(v, _) => for (i, x) in v.iter().enumerate() { paths(x, &join(&i.to_string()), Some((j, i)), out) },
        K::Obj(v) => for (i, (k, _, x)) in v.iter().enumerate() { paths(x, &join(k), Some((j, i)), out) },
    }
}

/// A handler for a message, and the ranges it names; nothing where it has to
/// be refused.
fn handler(sim: &Sim, sent: bool, m: &Msg) -> (Handler, Option<Vec<Range<usize>>>) {
    let v = |s: RangeSet<usize>| Some(s.iter().collect::<Vec<_>>());
    let mut p = HandlerParams::default();
    let hide = sim.weighted(&[3, 2, 2, 1]);
    let hides = |p: &mut HandlerParams| { if hide & 1 != 0 { p.hide_key = Some(true) } else if sim.chance(1, 4) { p.hide_key = Some(false) } if hide & 2 != 0 { p.hide_value = Some(true) } };
    let minus = |a: &Range<usize>, b: &Range<usize>, c: &Range<usize>| { let mut s = set(a); s.difference_mut(b.clone()); s.difference_mut(c.clone()); s };
    let (part, want) = match sim.index(10) {
        0 => (HandlerPart::StartLine, v(set(&m.line))),
        1 => (HandlerPart::Protocol, v(minus(&m.line, &m.first, &m.second))),
        2 => (HandlerPart::Method, if sent { v(set(&m.first)) } else { None }),
        3 => (HandlerPart::RequestTarget, if sent { v(set(&m.second)) } else { None }),
        4 => (HandlerPart::StatusCode, if sent { None } else { v(set(&m.first)) }),
        5 | 6 => {
            hides(&mut p);
            let key = if sim.chance(3, 4) { Some(if m.headers.is_empty() || sim.chance(1, 8) { "x-missing".into() } else { let n = m.headers[sim.index(m.headers.len())].0.clone(); if sim.chance(1, 2) { n.to_ascii_uppercase() } else { n } }) } else { None };
            let mut out = vec![];
            for (_, line, _, value) in m.headers.iter().filter(|h| key.as_ref().is_none_or(|k: &String| k.eq_ignore_ascii_case(&h.0))) {
                out.extend(match hide { 1 => set(value), 2 => minus(line, value, &(0..0)), _ => set(line) }.iter());
            }
            p.key = key;
            (HandlerPart::Headers, if hide == 3 { None } else { Some(out) })
        }
        7 | 8 => {
            let mut all = vec![];
            if let Some(j) = &m.json { paths(j, "", None, &mut all) }
            if !m.body.is_empty() && (all.is_empty() || sim.chance(1, 4)) {
                if m.json.is_none() && sim.chance(1, 3) { p.content_type = Some("json".into()); p.path = Some("x".into()); (HandlerPart::Body, None) }
                else if m.json.is_some() && sim.chance(1, 3) { p.content_type = Some("json".into()); p.path = Some("nothing.here".into()); (HandlerPart::Body, None) }
                else { (HandlerPart::Body, v(m.whole_body())) }
            } else if m.body.is_empty() {
                p.content_type = sim.chance(1, 2).then(|| "json".into());
                p.path = Some("x".into());
                (HandlerPart::Body, Some(vec![]))
            } else {
                let (path, parent, j) = all[sim.index(all.len())].clone();
                p.content_type = Some("json".into());
                p.path = Some(path);
                let want = match parent {
                    Some((J { kind: K::Obj(kvs), .. }, i)) => {
                        hides(&mut p);
                        let kv = m.of(&kvs[i].1);
                        match hide { 0 => v(kv), 1 => v(m.of(&j.at)), 2 => { let mut s = kv; s.difference_mut(&m.of(&j.at)); v(s) } _ => None }
                    }
                    _ => v(m.of(&j.at)),
                };
                (HandlerPart::Body, want)
            }
        }
        _ => if sim.chance(1, 2) || m.raw.is_empty() { (HandlerPart::All, Some(vec![0..m.raw.len()])) } else {
            // A piece of the message wherever it occurs: literally or with a
            // wildcard in it, anywhere or at the start, as the flags say.
            let a = sim.index(m.raw.len());
            let piece: Vec<u8> = m.raw[a..].iter().copied().take(1 + sim.index(6)).take_while(u8::is_ascii).collect();
            if piece.is_empty() { (HandlerPart::All, Some(vec![0..m.raw.len()])) } else {
                let flags: String = "imsgu".chars().filter(|_| sim.chance(1, 4)).collect();
                let on = |c| flags.contains(c);
                let hole = (m.raw.is_ascii() && sim.chance(1, 3)).then(|| sim.index(piece.len()));
                let start = sim.chance(1, 5);
                let mut re = String::from(if start { "^" } else { "" });
                for (i, c) in piece.iter().enumerate() {
                    let c = if !on('i') { *c } else if sim.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                    if hole == Some(i) { re.push('.') } else if c.is_ascii_alphanumeric() { re.push(c as char) } else { re += &format!("\\x{c:02x}") }
                }
                p.content_type = Some("regex".into());
                p.regex = Some(re);
                let unknown = sim.chance(1, 16);
                if !flags.is_empty() || sim.chance(1, 4) || unknown { p.flags = Some(if unknown { format!("{flags}{}", ["x", "y", "U", " "][sim.index(4)]) } else { flags.clone() }) }
                let same = |i: usize, w: u8| match hole { Some(h) if h == i => on('s') || w != b'\n', _ => w == piece[i] || on('i') && w.eq_ignore_ascii_case(&piece[i]) };
                let (mut out, mut i) = (vec![], 0);
                while i + piece.len() <= m.raw.len() {
                    let here = !start || i == 0 || on('m') && m.raw[i - 1] == b'\n';
                    if here && m.raw[i..i + piece.len()].iter().enumerate().all(|(j, w)| same(j, *w)) { out.push(i..i + piece.len()); i += piece.len() } else { i += 1 }
                }
                (HandlerPart::All, if unknown { None } else { Some(out) })
            }
        }
    };
    let action = if sim.chance(1, 3) { HandlerAction::Hash { algorithm: alg(sim) } } else { HandlerAction::Reveal };
    let params = if p == HandlerParams::default() && sim.chance(2, 3) { None } else { Some(p) };
    (Handler { handler_type: if sent { HandlerType::Sent } else { HandlerType::Recv }, part, action, params }, want)
}
fn alg(sim: &Sim) -> HashAlgorithm { [HashAlgorithm::Blake3, HashAlgorithm::Sha256, HashAlgorithm::Keccak256][sim.index(3)] }
fn alg_id(a: HashAlgorithm) -> HashAlgId { match a { HashAlgorithm::Blake3 => HashAlgId::BLAKE3, HashAlgorithm::Sha256 => HashAlgId::SHA256, HashAlgorithm::Keccak256 => HashAlgId::KECCAK256 } }

fn pem(der: &[u8]) -> Vec<u8> {
    let mut o = b"-----BEGIN CERTIFICATE-----\n".to_vec();
    let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let b: Vec<u8> = der.chunks(3).flat_map(|c| {
        let n = (0..3).fold(0usize, |a, i| a << 8 | *c.get(i).unwrap_or(&0) as usize);
        (0..4).map(move |i| if i <= c.len() { t[n >> (18 - 6 * i) & 63] } else { b'=' }).collect::<Vec<_>>()
    }).collect();
    for l in b.chunks(64) { o.extend(l); o.push(b'\n') }
    o.extend(b"-----END CERTIFICATE-----\n");
    o
}

/// What the prover's application ends up with.
#[derive(Default)]
struct Got {
    response: Option<HttpResponse>,
    transcript: Option<sdk::Transcript>,
    reveal: Option<Reveal>,
    commit: Option<Commit>,
    output: Option<RevealOutput>,
    name: Option<Option<String>>,
    verdict: Option<VerifierOutput>,
    /// The first thing that was not right.
    wrong: Option<String>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fate { Good, Refused, CutParties, CutServer, ServerAlert, BadServer, Range, Channel }

/// The SDK as it is, or behind its browser bindings.
enum Prv { Core(Box<SdkProver>), #[cfg(feature = "browser")] Js(Box<crate::browser::Prv>) }
enum Vrf { Core(Box<SdkVerifier>), #[cfg(feature = "browser")] Js(Box<crate::browser::Vrf>) }
macro_rules! on { ($me:expr, $p:ident => $core:expr, $q:ident => $js:expr) => { match $me { Self::Core($p) => $core, #[cfg(feature = "browser")] Self::Js($q) => $js } } }
impl Prv {
    fn complete(&self) -> Option<bool> { on!(self, p => Some(p.is_complete()), _p => None) }
    fn transcript(&self) -> Result<sdk::Transcript, String> { on!(self, p => p.transcript().map_err(|e| e.to_string()), p => p.transcript()) }
    async fn setup(&mut self, io: End) -> Result<(), String> { on!(self, p => p.setup(SendEnd(io)).await.map_err(|e| e.to_string()), p => p.setup(io).await) }
    async fn send(&mut self, io: Option<End>, r: HttpRequest, _spare: End) -> Result<HttpResponse, String> {
        on!(self, p => match io { Some(c) => p.send_request_mpc(SendEnd(c), r).await, None => p.send_request_proxy(r).await }.map_err(|e| e.to_string()), p => p.send(io, r, _spare).await)
    }
    fn compute(&self, sent: &[u8], recv: &[u8], h: &[Handler]) -> Result<sdk::handler::ComputeRevealOutput, String> { on!(self, _p => sdk::compute_reveal(sent, recv, h).map_err(|e| e.to_string()), _p => crate::browser::compute_reveal(sent, recv, h)) }
    async fn reveal(&mut self, r: Reveal, c: Option<Commit>) -> Result<RevealOutput, String> { on!(self, p => p.reveal(r, c).await.map_err(|e| e.to_string()), p => p.reveal(r, c).await) }
    fn finish(&self, _ok: bool) { on!(self, _p => (), p => p.finish(_ok)) }
}
impl Vrf {
    fn complete(&self) -> Option<bool> { on!(self, v => Some(v.is_complete()), _v => None) }
    async fn connect(&mut self, io: End) -> Result<(), String> { on!(self, v => v.connect(SendEnd(io)).await.map_err(|e| e.to_string()), v => v.connect(io).await) }
    async fn setup(&mut self) -> Result<Option<String>, String> { on!(self, v => v.setup().await.map_err(|e| e.to_string()), v => v.setup().await) }
    fn socket(&mut self, io: End) -> Result<(), String> { on!(self, v => v.set_server_socket(SendEnd(io)).map_err(|e| e.to_string()), v => v.socket(io)) }
    async fn run(&mut self) -> Result<(), String> { on!(self, v => v.run().await.map_err(|e| e.to_string()), v => v.run().await) }
    async fn verify(&mut self) -> Result<VerifierOutput, String> { on!(self, v => v.verify().await.map_err(|e| e.to_string()), v => v.verify().await) }
    fn finish(&self, _ok: bool) { on!(self, _v => (), v => v.finish(_ok)) }
}

fn sdk_run(sim: &Sim, proxy: bool, js: bool) -> RunResult {
    let mut plan = base(sim, proxy);
    links(sim, &mut plan);
    install(sim);
    let fate = match sim.index(16) { 0 if !proxy => Fate::Refused, 1 | 2 => Fate::CutParties, 3 => Fate::CutServer, 4 => Fate::ServerAlert, 5 => Fate::BadServer, 6 => Fate::Range, 7 | 8 if js => Fate::Channel, _ => Fate::Good };
    // MPC-TLS decrypts behind the end of the connection by default.
    let defer = if proxy { false } else { sim.chance(1, 2) };
    let server_closes = defer || sim.chance(1, 2);
    let a = answer(sim, server_closes);
    let method = [Method::GET, Method::POST, Method::PUT, Method::DELETE][sim.index(4)];
    let mut request = HttpRequest::new(method, format!("/{}", String::from_utf8(token(sim, 20)).unwrap().replace([' ', '"'], "%")));
    let mut want_headers: Vec<(String, Vec<u8>)> = vec![];
    for (i, n) in ["Host", "Authorization", "X-One", "accept", "Cookie"].into_iter().enumerate() {
        if i > 0 && sim.chance(1, 2) { continue }
        let v = if i == 0 { plan.host.clone().into_bytes() } else { trim(&token(sim, 30)) };
        request = request.header(n, v.clone());
        want_headers.push((n.to_ascii_lowercase(), v));
    }
    let mut body = vec![];
    let mut rjson = None;
    // A body is a JSON value to JavaScript.
    match sim.index(4) {
        0 if js => {}
        0 => { let j = json(sim, 2, &mut body); rjson = Some(j); request = request.header("Content-Type", "application/json").body(sdk::Body::Raw(body.clone())); want_headers.push(("content-type".into(), b"application/json".to_vec())) }
        1 => { body = token(sim, 60); let t = String::from_utf8(body.clone()).unwrap(); request = request.body(sdk::Body::Json(serde_json::Value::String(t))) }
        2 => { let v = serde_json::json!({ "a": sim.index(1000), "b": [true, null, "x"] }); body = serde_json::to_vec(&v).unwrap(); request = request.json(v).map_err(|e| simkit::Violation::new("sdk", format!("a JSON body was refused: {e}")))? }
        _ => {}
    }
    let up: usize = 100 + 40 + want_headers.iter().map(|h| h.0.len() + h.1.len() + 4).sum::<usize>() + body.len() + 64;
    let down = a.msg.raw.len();
    let frag = if sim.chance(1, 2) { down } else { down.div_ceil(1 + sim.index(4)) };
    let mut script = vec![Act::Request];
    if sim.chance(1, 8) { script.push(Act::Sleep(sim.range(1, 50_000_000))) }
    script.push(Act::Send(a.msg.raw.clone(), frag));
    // What is decrypted at the end waits for the socket to end, and so does a
    // body that ends with it.
    if server_closes { script.push(Act::CloseNotify); if !defer && !a.until_close { script.push(Act::WaitClose) } } else { script.push(Act::WaitClose); script.push(Act::CloseNotify) }
    if fate == Fate::ServerAlert { let end = script.iter().position(|a| matches!(a, Act::CloseNotify | Act::WaitClose)).unwrap(); script.insert(sim.index(end + 1), Act::Alert(2, 80)) }
    if fate == Fate::BadServer { plan.server.bad_sig = true }
    plan.server.script = script;
    let slack = |n: usize| n + sim.size(300) as usize;
    let (ms, mr) = (slack(up), slack(down).max(32));
    let records = down.div_ceil(frag) + 2;
    let network = sim.chance(1, 2);
    let mut pc = sdk::ProverConfig::builder(&plan.host).root_certs(plan.roots.clone()).mode(if proxy { sdk::ProverMode::Proxy } else { sdk::ProverMode::Mpc })
        .max_sent_data(ms).max_recv_data(mr).network(if network { sdk::NetworkSetting::Latency } else { sdk::NetworkSetting::Bandwidth });
    let (vs, vr) = (slack(ms), slack(mr));
    let mut vc = sdk::VerifierConfig::builder().root_certs(plan.vroots.clone()).max_sent_data(vs).max_recv_data(vr);
    let mut jp = serde_json::json!({ "server_name": plan.host, "mode": if proxy { "Proxy" } else { "Mpc" }, "max_sent_data": ms, "max_recv_data": mr, "network": if network { "Latency" } else { "Bandwidth" }, "root_certs": plan.roots });
    let mut jv = serde_json::json!({ "max_sent_data": vs, "max_recv_data": vr, "root_certs": plan.vroots });
    let mut over = None;
    let (mut srec, mut rrec) = (None, None);
    if sim.chance(1, 3) { srec = Some(16 + sim.index(4)) }
    if records > 8 || sim.chance(1, 3) { rrec = Some(records + sim.index(4)) }
    if let Some(n) = srec { let v = n + sim.index(3); pc = pc.max_sent_records(n); vc = vc.max_sent_records(v); jp["max_sent_records"] = n.into(); jv["max_sent_records"] = v.into() }
    if let Some(n) = rrec { let v = n + sim.index(3); pc = pc.max_recv_records_online(n); vc = vc.max_recv_records_online(v); jp["max_recv_records_online"] = n.into(); jv["max_recv_records_online"] = v.into() }
    if !defer { let n = down + sim.index(mr - down + 1); pc = pc.defer_decryption_from_start(false).max_recv_data_online(n); jp["defer_decryption_from_start"] = false.into(); jp["max_recv_data_online"] = n.into() } else if sim.chance(1, 2) { pc = pc.defer_decryption_from_start(true); jp["defer_decryption_from_start"] = true.into() }
    if fate == Fate::Refused {
        match sim.index(4) {
            0 => { let v = ms - 1 - sim.index(ms); vc = vc.max_sent_data(v); jv["max_sent_data"] = v.into(); over = Some("data sent") }
            1 => { let v = mr - 1 - sim.index(mr); vc = vc.max_recv_data(v); jv["max_recv_data"] = v.into(); over = Some("data received") }
            2 => { let n = srec.unwrap_or(20); let v = n - 1 - sim.index(n); pc = pc.max_sent_records(n); vc = vc.max_sent_records(v); jp["max_sent_records"] = n.into(); jv["max_sent_records"] = v.into(); over = Some("records sent") }
            _ => { let n = rrec.unwrap_or(20); let v = n - 1 - sim.index(n); pc = pc.max_recv_records_online(n); vc = vc.max_recv_records_online(v); jp["max_recv_records_online"] = n.into(); jv["max_recv_records_online"] = v.into(); over = Some("records received") }
        }
    }
    if sim.chance(1, 6) {
        plan.server.client_auth = true;
        if sim.chance(2, 3) {
            let (mut certs, key) = plan.leaf.clone();
            // A certificate may be PEM-encoded as well.
            for c in certs.iter_mut() { if sim.chance(1, 2) { *c = pem(c) } }
            jp["client_auth"] = serde_json::json!([certs, key]);
            pc = pc.client_auth(certs, key);
            plan.client_auth = Some(plan.leaf.clone());
        }
    }
    if sim.chance(1, 10) {
        // What cannot work is refused at once.
        sim.probe("bad_config");
        let bad = match sim.index(if proxy { 3 } else { 5 }) {
            0 => sdk::ProverConfig::builder("").root_certs(plan.roots.clone()).build(),
            1 => { let mut r = plan.roots.clone(); let i = sim.index(r.len() + 1); r.insert(i, sim.bytes(sim.index(40))); sdk::ProverConfig::builder(&plan.host).root_certs(r).build() }
            2 => { let mut r = plan.vroots.clone(); let i = sim.index(r.len() + 1); r.insert(i, sim.bytes(sim.index(40))); ensure!(sdk::VerifierConfig::builder().root_certs(r).build().is_err(), "config", "a root that is no certificate was accepted"); sdk::ProverConfig::builder("").build() }
            3 => sdk::ProverConfig::builder(&plan.host).root_certs(plan.roots.clone()).max_sent_data(0).build(),
            _ => sdk::ProverConfig::builder(&plan.host).root_certs(plan.roots.clone()).max_recv_data(0).build(),
        };
        if let Ok(c) = bad { ensure!(SdkProver::new(c).is_err(), "config", "a configuration that cannot work was accepted") }
    }
    let (pc, vc) = (pc.build().expect("HARNESS-ERROR: prover configuration"), vc.build().expect("HARNESS-ERROR: verifier configuration"));
    ev!(sim, "plan: {fate:?} {over:?} defer {defer} server closes {server_closes} until close {} request {request:?} answer {:?} in {frag}", a.until_close, String::from_utf8_lossy(&a.msg.raw));

    let ex = Exec::new(sim);
    let e2 = ex.clone();
    let spawned: Rc<RefCell<Vec<(usize, usize)>>> = Rc::default();
    let s2 = spawned.clone();
    sdk::sim::set_spawner(Some(Box::new(move |f| {
        let node = e2.current_node().unwrap_or(PROVER);
        let id = e2.spawn("sdk-task", node, f).id();
        s2.borrow_mut().push((node, id));
    })));
    let (pa, va, pv) = pair(&ex, plan.pv.clone());
    let (ca, sa, ps) = pair(&ex, plan.ps.clone());
    let slog = Rc::new(RefCell::new(server::Log::default()));
    let st = ex.spawn("server", SERVER, server::serve(ex.clone(), sa, plan.server.clone(), slog.clone())).id();
    let (mut cs, mut vs) = if proxy { (None, Some(ca)) } else { (Some(ca), None) };
    let (spare, _spare_peer, _) = pair(&ex, plan.ps.clone());
    let js_wrong: Rc<RefCell<Option<String>>> = Rc::default();
    #[cfg(feature = "browser")]
    let apps = {
        let at = (fate == Fate::Channel).then(|| crate::browser::Broken { at: sim.size(400) as usize, rejects: sim.chance(1, 2) });
        let which = sim.index(3);
        let app = |on_parties: bool, on_server: bool| crate::browser::App { ex: ex.clone(), sim: sim.clone(), wrong: js_wrong.clone(), parties: at.filter(|_| on_parties), server: at.filter(|_| on_server) };
        [app(which == 0, which == 2), app(which == 1, which == 2)]
    };
    #[cfg(feature = "browser")]
    let [papp, vapp] = apps;
    let _ = (&jp, &jv);
    let got = Rc::new(RefCell::new(Got::default()));
    let (pdone, vdone): (Rc<RefCell<Option<Result<(), String>>>>, Rc<RefCell<Option<Result<(), String>>>>) = Default::default();
    let (pstage, vstage) = (Rc::new(Cell::new("start")), Rc::new(Cell::new("start")));
    let (g, s, slot, stage) = (got.clone(), sim.clone(), pdone.clone(), pstage.clone());
    let with_handlers = sim.chance(2, 3);
    let rj = rjson.clone();
    let answer_msg = a.msg.clone();
    let js_body = a.body.clone();
    let drop_after = sim.chance(1, 2);
    let ptask = ex.spawn("prover", PROVER, async move {
        let wrong = |x: String| { g.borrow_mut().wrong.get_or_insert(x); };
        #[cfg(feature = "browser")]
        let p = if js { crate::browser::Prv::new(jp, papp).map(|p| Prv::Js(Box::new(p))) } else { SdkProver::new(pc).map(|p| Prv::Core(Box::new(p))).map_err(|e| e.to_string()) };
        #[cfg(not(feature = "browser"))]
        let p = SdkProver::new(pc).map(|p| Prv::Core(Box::new(p)));
        let mut p = match p { Ok(p) => p, Err(e) => { *slot.borrow_mut() = Some(Err(format!("new: {e}"))); return } };
        let r: Result<(), String> = async {
            if p.transcript().is_ok() || p.complete() == Some(true) { wrong("a prover that has not started claims a transcript".into()) }
            stage.set("setup");
            p.setup(pa).await.map_err(|e| format!("setup: {e}"))?;
            if p.transcript().is_ok() || p.complete() == Some(true) { wrong("a prover without a connection claims a transcript".into()) }
            stage.set("request");
            let mut resp = p.send(cs.take(), request, spare).await.map_err(|e| format!("request: {e}"))?;
            // The bindings keep the body to the transcript.
            if js { resp.body = Some(js_body) }
            g.borrow_mut().response = Some(resp);
            let t = p.transcript().map_err(|e| format!("transcript: {e}"))?;
            g.borrow_mut().transcript = Some(t.clone());
            let name = s.chance(1, 2);
            let (mut reveal, mut commit) = (Reveal::new().server_identity(name), None);
            if reveal.server_identity != name || !reveal.sent.is_empty() || !reveal.recv.is_empty() { wrong(format!("a disclosure of the name only ({name}) is {reveal:?}")) }
            if with_handlers {
                if t.recv != answer_msg.raw { wrong("the transcript is not what the server sent".into()); return Err("stop".into()) }
                let m = [Msg::request(&t.sent, rj.clone()).map_err(|e| format!("request on the wire: {e}"))?, answer_msg];
                let mut hs: Vec<(Handler, Option<Vec<Range<usize>>>)> = (0..s.range(0, 5)).map(|_| { let sent = s.chance(1, 2); handler(&s, sent, &m[!sent as usize]) }).collect();
                let list = |hs: &[(Handler, Option<Vec<Range<usize>>>)]| hs.iter().map(|h| h.0.clone()).collect::<Vec<_>>();
                if let Some(i) = hs.iter().position(|h| h.1.is_none()) {
                    s.probe("handler_refused");
                    if p.compute(&t.sent, &t.recv, &list(&hs)).is_ok() { wrong(format!("a handler that names nothing was accepted: {:?}", hs[i].0)) }
                    hs.retain(|h| h.1.is_some());
                }
                match p.compute(&t.sent, &t.recv, &list(&hs)) {
                    Err(e) => wrong(format!("handlers {:?} were refused: {e}", list(&hs))),
                    Ok(o) => {
                        let mut want = [(vec![], vec![], vec![]), (vec![], vec![], vec![])];
                        for (h, r) in &hs {
                            let w = &mut want[(h.handler_type == HandlerType::Recv) as usize];
                            for r in r.clone().unwrap() {
                                w.2.push((r.start, r.end, h.clone()));
                                match h.action { HandlerAction::Hash { algorithm } => w.1.push(CommitRange { start: r.start, end: r.end, algorithm }), _ => w.0.push(r) }
                            }
                        }
                        let c = o.commit.clone().unwrap_or(Commit { sent: vec![], recv: vec![] });
                        for (d, w, r, c, a) in [("sent", &want[0], &o.reveal.sent, &c.sent, &o.sent_ranges_with_handlers), ("received", &want[1], &o.reveal.recv, &c.recv, &o.recv_ranges_with_handlers)] {
                            if &w.0 != r { wrong(format!("handlers {hs:?} disclose the {d} ranges {r:?}")) }
                            if &w.1 != c { wrong(format!("handlers {hs:?} commit to the {d} ranges {c:?}")) }
                            if !w.2.iter().map(|x| (x.0, x.1, &x.2)).eq(a.iter().map(|x| (x.start, x.end, &x.handler))) { wrong(format!("handlers {hs:?} are reported with the {d} ranges {a:?}")) }
                        }
                        if !hs.is_empty() { s.probe("handlers") }
                        reveal = o.reveal;
                        commit = o.commit;
                    }
                }
            } else {
                let pick = |n: usize| { let mut v = vec![]; if n > 0 { for _ in 0..s.index(4) { let a = s.index(n); v.push(a..a + 1 + s.size((n - a - 1) as u64) as usize) } } v };
                reveal.sent = pick(t.sent.len());
                reveal.recv = pick(t.recv.len());
                if s.chance(2, 3) {
                    let c = |n: usize| -> Vec<CommitRange> { let mut v: Vec<CommitRange> = pick(n).into_iter().map(|r| CommitRange { start: r.start, end: r.end, algorithm: alg(&s) }).collect(); if s.chance(1, 8) { v.extend(v.first().cloned()) } v };
                    commit = Some(Commit { sent: c(t.sent.len()), recv: c(t.recv.len()) });
                }
            }
            if fate == Fate::Range {
                let n = t.recv.len();
                match s.index(3) { 0 => reveal.recv.push(0..n + 1), 1 => reveal.sent.push(t.sent.len()..t.sent.len() + 5), _ => { let c = commit.get_or_insert(Commit { sent: vec![], recv: vec![] }); c.recv.push(CommitRange { start: n, end: n + 1, algorithm: alg(&s) }) } }
            }
            g.borrow_mut().reveal = Some(reveal.clone());
            g.borrow_mut().commit = commit.clone();
            stage.set("reveal");
            let out = p.reveal(reveal, commit).await.map_err(|e| format!("reveal: {e}"))?;
            g.borrow_mut().output = Some(out);
            Ok(())
        }.await;
        if p.complete().is_some_and(|c| c != r.is_ok()) { wrong(format!("a prover whose result is {r:?} says it is {}complete", if p.complete() == Some(true) { "" } else { "not " })) }
        if r.is_err() && p.transcript().is_ok() && fate != Fate::Good { wrong("a failed prover holds a transcript".into()) }
        p.finish(r.is_ok());
        *slot.borrow_mut() = Some(r);
        if !drop_after { std::future::pending::<()>().await }
    }).id();
    let (g, slot, stage) = (got.clone(), vdone.clone(), vstage.clone());
    let vtask = ex.spawn("verifier", VERIFIER, async move {
        let wrong = |x: String| { g.borrow_mut().wrong.get_or_insert(x); };
        #[cfg(feature = "browser")]
        let v = if js { crate::browser::Vrf::new(jv, vapp).map(|v| Vrf::Js(Box::new(v))) } else { Ok(Vrf::Core(Box::new(SdkVerifier::new(vc)))) };
        #[cfg(not(feature = "browser"))]
        let v = Ok::<_, String>(Vrf::Core(Box::new(SdkVerifier::new(vc))));
        let mut v = match v { Ok(v) => v, Err(e) => { *slot.borrow_mut() = Some(Err(format!("new: {e}"))); return } };
        let r: Result<(), String> = async {
            stage.set("connect");
            v.connect(va).await.map_err(|e| format!("connect: {e}"))?;
            stage.set("setup");
            let name = v.setup().await.map_err(|e| format!("setup: {e}"))?;
            g.borrow_mut().name = Some(name.clone());
            if let Some(s) = vs.take() { v.socket(s).map_err(|e| format!("socket: {e}"))? }
            stage.set("run");
            v.run().await.map_err(|e| format!("run: {e}"))?;
            stage.set("verify");
            let o = v.verify().await.map_err(|e| format!("verify: {e}"))?;
            g.borrow_mut().verdict = Some(o);
            Ok(())
        }.await;
        if v.complete().is_some_and(|c| c != r.is_ok()) { wrong(format!("a verifier whose result is {r:?} says it is {}complete", if v.complete() == Some(true) { "" } else { "not " })) }
        v.finish(r.is_ok());
        *slot.borrow_mut() = Some(r);
        if !drop_after { std::future::pending::<()>().await }
    }).id();
    match fate {
        Fate::CutParties | Fate::CutServer => {
            let l: Ctl = if fate == Fate::CutParties { pv.clone() } else { ps.clone() };
            let (s2, cut) = (sim.clone(), if sim.chance(1, 2) { Cut::Eof } else { Cut::Reset });
            let name = if fate == Fate::CutParties { "cut_parties" } else { "cut_server" };
            ex.at_step(sim.size(6000), move || { s2.fault(name); l.cut(cut) });
        }
        Fate::ServerAlert => sim.fault("server_alert"),
        Fate::BadServer => sim.fault("server_signature"),
        _ => {}
    }
    // Both applications get an answer, whatever happens.
    let done = { let (p, v) = (pdone.clone(), vdone.clone()); move || p.borrow().is_some() && v.borrow().is_some() };
    let watch = { let ex2 = ex.clone(); ex.spawn("watch", 9, async move { while !done() { ex2.sleep(1_000_000).await } }).id() };
    let stop = ex.run(&[watch], plan.steps);
    let describe = || format!("prover at {} {:?} | verifier at {} {:?} | server {:?}", pstage.get(), pdone.borrow(), vstage.get(), vdone.borrow(), slog.borrow().error);
    let _ = (ptask, vtask, st);
    let clear = || { sdk::sim::set_spawner(None); hooks::clear(); ex.shutdown() };
    if stop != Stop::Done { let d = format!("{fate:?}: {stop:?}: {} | waiting: {:?}", describe(), ex.pending_names()); clear(); violate!("hang", "{d}") }
    if let Some(w) = js_wrong.borrow().as_ref() { let w = w.clone(); clear(); violate!("channel", "{w}") }
    let r = verdict(sim, &plan, fate, over, &a, &want_headers, method, &body, &got.borrow(), &slog.borrow(), &pdone.borrow(), &vdone.borrow());
    let r = r.and_then(|()| {
        if fate != Fate::Good { return Ok(()) }
        // So do the sessions.
        let left: Vec<usize> = spawned.borrow().iter().map(|x| x.1).collect();
        let stop = ex.run(&left, plan.steps);
        ensure!(stop == Stop::Done, "hang", "a task of the SDK does not end: {stop:?}: {:?}", ex.pending_names());
        Ok(())
    });
    clear();
    r
}

#[allow(clippy::too_many_arguments)]
fn verdict(sim: &Sim, plan: &Plan, fate: Fate, over: Option<&str>, a: &Answer, want_headers: &[(String, Vec<u8>)], method: Method, body: &[u8], g: &Got, log: &server::Log, p: &Option<Result<(), String>>, v: &Option<Result<(), String>>) -> RunResult {
    let (p, v) = (p.as_ref().unwrap(), v.as_ref().unwrap());
    if let Some(w) = &g.wrong { violate!("sdk", "{w}") }
    match fate {
        Fate::Good => {
            ensure!(p.is_ok() && v.is_ok(), "completeness", "prover {p:?}, verifier {v:?}, server {:?}", log.error);
            ensure!(log.client_cert == plan.client_auth.is_some(), "identity", "the client's certificate: configured {}, presented {}", plan.client_auth.is_some(), log.client_cert);
            if let Some((chain, _)) = &plan.client_auth { ensure!(log.client_chain == *chain, "identity", "a chain of {} client certificates was configured, {} others presented", chain.len(), log.client_chain.len()) }
            if log.client_cert { sim.probe("client_authentication") }
            sim.probe(if plan.proxy { "sdk_proxy" } else { "sdk_mpc" });
        }
        Fate::Refused => {
            ensure!(p.is_err() && v.is_err(), "limits", "the prover asked for more {} than the verifier allows: prover {p:?}, verifier {v:?}", over.unwrap());
            ensure!(log.client_random.is_empty() || !log.handshake_done, "limits", "a refused prover connected");
            sim.probe("limit_refused");
        }
        Fate::ServerAlert | Fate::BadServer => {
            ensure!(p.is_err() && v.is_err(), "completeness", "{fate:?}: prover {p:?}, verifier {v:?}");
            sim.probe("server_refused");
        }
        Fate::Range => { ensure!(p.is_err() && v.is_err(), "sdk", "a disclosure beyond the transcript: prover {p:?}, verifier {v:?}"); sim.probe("range_refused") }
        _ => sim.probe(match (p, v) { (Ok(_), Ok(_)) => "cut_both", (Err(_), Err(_)) => "cut_neither", _ => "cut_one" }),
    }
    if let Some(n) = &g.name { ensure!(n.as_deref() == plan.proxy.then_some(plan.host.as_str()), "sdk", "the verifier was asked to connect to {n:?}") }
    if let Some(r) = &g.response {
        let m = Msg::request(&log.recv, None).map_err(|e| simkit::Violation::new("request", format!("the server received a malformed request ({e}): {:?}", String::from_utf8_lossy(&log.recv))))?;
        ensure!(m.raw[m.first.clone()] == *format!("{method:?}").as_bytes(), "request", "the server received another method: {:?}", String::from_utf8_lossy(&m.raw));
        for h in want_headers { ensure!(m.headers.iter().filter(|x| x.0 == h.0 && m.raw[x.3.clone()] == h.1).count() == 1, "request", "the server did not receive the header {:?}: {:?}", h, String::from_utf8_lossy(&m.raw)) }
        ensure!(m.headers.iter().all(|h| h.0 == "content-length" || want_headers.iter().any(|w| w.0 == h.0)), "request", "the server received headers nobody set: {:?}", String::from_utf8_lossy(&m.raw));
        ensure!(m.body.iter().map(|&i| m.raw[i]).eq(body.iter().copied()), "request", "the server received another body: {:?}", String::from_utf8_lossy(&m.raw));
        ensure!(r.status == a.status, "response", "status {} became {}", a.status, r.status);
        let sorted = |i: &[(String, Vec<u8>)]| { let mut x: Vec<(String, Vec<u8>)> = i.iter().map(|h| (h.0.to_ascii_lowercase(), h.1.clone())).collect(); x.sort(); x };
        ensure!(sorted(&r.headers) == sorted(&a.headers), "response", "the headers {:?} became {:?}", a.headers, r.headers);
        // A body that ends with the connection may be cut with it.
        let whole = fate == Fate::Good || !a.until_close;
        let b = r.body.clone().unwrap_or_default();
        ensure!(if whole { b == a.body } else { a.body.starts_with(&b) }, "response", "a body of {} bytes became one of {}", a.body.len(), b.len());
    }
    if let Some(t) = &g.transcript {
        ensure!(log.recv.starts_with(&t.sent) || t.sent.starts_with(&log.recv), "transcript", "the prover's sent transcript is not what the server received");
        ensure!(log.sent.starts_with(&t.recv), "transcript", "the prover's received transcript is not what the server sent");
        if fate == Fate::Good { ensure!(t.sent == log.recv && t.recv == log.sent, "transcript", "the transcript is incomplete") }
    }
    let (Some(t), Some(reveal)) = (&g.transcript, &g.reveal) else {
        ensure!(g.verdict.is_none() && g.output.is_none(), "sdk", "a result without a disclosure");
        return Ok(());
    };
    if let Some(o) = &g.verdict {
        ensure!(o.server_name.as_deref() == reveal.server_identity.then_some(plan.host.as_str()), "identity", "identity asked for: {}, verified: {:?}", reveal.server_identity, o.server_name);
        let c = &o.connection_info;
        ensure!(c.version == sdk::TlsVersion::V1_2 && c.time.abs_diff(log.time) <= 60, "connection", "the verifier reports {c:?}, the server was asked at {}", log.time);
        ensure!(c.transcript_length.sent == t.sent.len() && c.transcript_length.recv == t.recv.len(), "connection", "the verifier reports lengths {:?} of {}/{}", c.transcript_length, t.sent.len(), t.recv.len());
        let union = |r: &[Range<usize>]| RangeSet::<usize>::from(r.to_vec());
        let none = (vec![], vec![]);
        for (d, all, want, (bytes, authed)) in [
            ("sent", &t.sent, union(&reveal.sent), o.transcript.as_ref().map_or(none.clone(), |x| (x.sent.clone(), x.sent_authed.clone()))),
            ("received", &t.recv, union(&reveal.recv), o.transcript.as_ref().map_or(none.clone(), |x| (x.recv.clone(), x.recv_authed.clone()))),
        ] {
            ensure!(union(&authed) == want && authed.len() == want.len_ranges(), "disclosure", "{d}: the verifier authenticated {authed:?}, the prover disclosed {want:?}");
            if o.transcript.is_some() { ensure!(bytes.len() == all.len(), "disclosure", "{d}: a transcript of {} bytes became one of {}", all.len(), bytes.len()) }
            for (i, b) in bytes.iter().enumerate() {
                if want.contains(&i) { ensure!(*b == all[i], "disclosure", "{d}: byte {i} was changed") } else { ensure!(*b == 0, "secrecy", "{d}: byte {i} reached the verifier undisclosed") }
            }
        }
        sim.probe("sdk_verified");
    }
    if let Some(o) = &g.output {
        let c = g.commit.clone().unwrap_or(Commit { sent: vec![], recv: vec![] });
        for (d, all, want, have) in [("sent", &t.sent, &c.sent, &o.sent), ("received", &t.recv, &c.recv, &o.recv)] {
            ensure!(want.len() == have.len(), "opening", "{d}: {} ranges were committed to, {} openings came back", want.len(), have.len());
            for (i, (w, h)) in want.iter().zip(have).enumerate() {
                let mut data = all[w.range()].to_vec();
                data.extend(&h.blinder);
                ensure!(h.blinder.len() == 16 && digest(alg_id(w.algorithm), &data) == h.hash, "opening", "{d}: opening {i} does not open the commitment {w:?}");
            }
            if want.len() > 1 { sim.probe("several_openings") }
        }
    }
    Ok(())
}
pub fn s12_mpc(sim: &Sim) -> RunResult { sdk_run(sim, false, false) }
pub fn s12_proxy(sim: &Sim) -> RunResult { sdk_run(sim, true, false) }
#[cfg(feature = "browser")]
pub fn s14_mpc(sim: &Sim) -> RunResult { sdk_run(sim, false, true) }
#[cfg(feature = "browser")]
pub fn s14_proxy(sim: &Sim) -> RunResult { sdk_run(sim, true, true) }
