//! The SDK behind its browser bindings: an application of JavaScript values,
//! channels of promises, and both on simulated connections.
use crate::rig::{PROVER, VERIFIER};
use bindings::io::JsIo;
use bindings::js::{from_value, Channel, Function, JsError, JsValue, Promise, Reflect, Settle, Uint8Array};
use bindings::{prover::JsProver, verifier::JsVerifier};
use futures::io::{ReadHalf, WriteHalf};
use futures::{AsyncReadExt, AsyncWriteExt};
use serde_json::{json, Value};
use simkit::exec::Exec;
use simkit::net::End;
use simkit::Sim;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::ops::Range;
use std::rc::Rc;
use std::task::{Poll, Waker};
use tlsn_sdk_core as sdk;

type Wrong = Rc<RefCell<Option<String>>>;
/// What goes wrong with a channel, from which operation on.
#[derive(Clone, Copy, Debug)]
pub struct Broken { pub at: usize, pub rejects: bool }
/// An `IoChannel` of the application.
pub struct Chan {
    ex: Rc<Exec>,
    sim: Sim,
    node: usize,
    queue: RefCell<VecDeque<Vec<u8>>>,
    pump: RefCell<Option<Waker>>,
    reader: RefCell<Option<ReadHalf<End>>>,
    reading: Cell<bool>,
    closed: Cell<bool>,
    ended: Cell<bool>,
    finished: Cell<bool>,
    ops: Cell<usize>,
    broken: Option<Broken>,
    wrong: Wrong,
}
#[derive(Clone)]
struct Handle(Rc<Chan>);
impl Chan {
    fn open(ex: &Rc<Exec>, sim: &Sim, node: usize, end: End, broken: Option<Broken>, wrong: Wrong) -> Rc<Chan> {
        let (r, w) = end.split();
        let c = Rc::new(Chan { ex: ex.clone(), sim: sim.clone(), node, queue: Default::default(), pump: Default::default(), reader: RefCell::new(Some(r)), reading: Cell::new(false), closed: Cell::new(false), ended: Cell::new(false), finished: Cell::new(false), ops: Cell::new(0), broken, wrong });
        ex.spawn("js-write", node, pump(c.clone(), w));
        c
    }
    fn wake(&self) { if let Some(w) = self.pump.borrow_mut().take() { w.wake() } }
    /// The application is done with it.
    fn finish(&self) { self.finished.set(true); self.wake() }
    fn complain(&self, what: &str) { self.wrong.borrow_mut().get_or_insert(what.into()); }
    fn breaks(&self) -> bool {
        self.ops.set(self.ops.get() + 1);
        let b = self.broken.is_some_and(|b| self.ops.get() > b.at);
        if b { self.sim.fault("channel_breaks") }
        b
    }
}
async fn pump(c: Rc<Chan>, mut w: WriteHalf<End>) {
    loop {
        let next = c.queue.borrow_mut().pop_front();
        match next {
            Some(b) => if w.write_all(&b).await.is_err() { return },
            None if c.closed.get() || c.finished.get() => { let _ = w.close().await; return }
            None => {
                let _ = w.flush().await;
                futures::future::poll_fn(|cx| if c.queue.borrow().is_empty() && !c.closed.get() && !c.finished.get() { *c.pump.borrow_mut() = Some(cx.waker().clone()); Poll::Pending } else { Poll::Ready(()) }).await
            }
        }
    }
}
async fn read(c: Rc<Chan>, s: Settle) {
    let Some(mut r) = c.reader.borrow_mut().take() else { c.complain("a second read was started before the first one ended"); return };
    let mut b = vec![0; 1 + c.sim.size(20_000) as usize];
    let n = r.read(&mut b).await;
    *c.reader.borrow_mut() = Some(r);
    c.reading.set(false);
    if matches!(n, Ok(0)) { c.ended.set(true) }
    s.settle(match n {
        Ok(0) => Ok(match c.sim.index(3) { 0 => JsValue::Null, 1 => JsValue::Undefined, _ => Uint8Array::from(&b[..0]).into() }),
        Ok(n) => Ok(Uint8Array::from(&b[..n]).into()),
        Err(e) => Err(JsValue::from_str(&format!("{e}"))),
    });
}
impl Channel for Handle {
    fn read(&self) -> Result<Promise, JsValue> {
        let c = &self.0;
        let (p, s) = Promise::pair();
        if c.breaks() {
            if c.broken.unwrap().rejects { s.settle(Err("the channel broke".into())); return Ok(p) }
            return Err("the channel broke".into());
        }
        if c.ended.get() { c.complain("the bindings read behind the end") }
        if c.reading.replace(true) { c.complain("a second read was started before the first one ended") }
        c.ex.spawn("js-read", c.node, read(c.clone(), s));
        Ok(p)
    }
    fn write(&self, data: &Uint8Array) -> Result<Promise, JsValue> {
        let c = &self.0;
        if c.breaks() { return Err("the channel broke".into()) }
        if c.closed.get() { c.complain("the bindings write behind their close") }
        c.queue.borrow_mut().push_back(data.to_vec());
        c.wake();
        Ok(Promise::resolve(&JsValue::Undefined))
    }
    fn close(&self) -> Result<Promise, JsValue> {
        let c = &self.0;
        if c.closed.replace(true) { c.complain("the bindings close twice") }
        c.wake();
        Ok(Promise::resolve(&JsValue::Undefined))
    }
}

fn e(e: JsError) -> String { e.0 }
fn de<T: serde::de::DeserializeOwned>(v: Value) -> Result<T, String> { from_value(JsValue::Json(Rc::new(v))).map_err(|e| format!("HARNESS-ERROR: the bindings do not take {e}")) }
fn ser<T: serde::Serialize>(v: &T) -> Value { serde_json::to_value(v).unwrap() }
fn bytes(v: &Value) -> Option<Vec<u8>> { v.as_array()?.iter().map(|b| b.as_u64().and_then(|b| u8::try_from(b).ok())).collect() }
fn ranges(v: &Value) -> Option<Vec<Range<usize>>> { v.as_array()?.iter().map(|r| Some(r["start"].as_u64()? as usize..r["end"].as_u64()? as usize)).collect() }
fn pairs(v: &Value) -> Option<Vec<(String, Vec<u8>)>> { v.as_array()?.iter().map(|h| Some((h[0].as_str()?.to_string(), bytes(&h[1])?))).collect() }
fn shape<T>(v: Option<T>, what: &Value) -> Result<T, String> { v.ok_or_else(|| format!("HARNESS-ERROR: the bindings return {what}")) }
fn alg(a: sdk::HashAlgorithm) -> &'static str { match a { sdk::HashAlgorithm::Blake3 => "BLAKE3", sdk::HashAlgorithm::Sha256 => "SHA256", sdk::HashAlgorithm::Keccak256 => "KECCAK256" } }

const STEPS: [&str; 6] = ["MPC_SETUP", "CONNECTING_TO_SERVER", "SENDING_REQUEST", "REQUEST_COMPLETE", "REVEAL", "FINALIZED"];

/// The application and what it knows.
pub struct App { pub ex: Rc<Exec>, pub sim: Sim, pub wrong: Wrong, pub parties: Option<Broken>, pub server: Option<Broken> }
pub struct Prv { p: JsProver, app: App, chans: Vec<Rc<Chan>>, progress: Rc<RefCell<Vec<(String, f64)>>>, proxy: bool }
impl Prv {
    pub fn new(config: Value, app: App) -> Result<Prv, String> {
        let proxy = config["mode"] == "Proxy";
        let mut p = JsProver::new(de(config)?).map_err(e)?;
        let progress: Rc<RefCell<Vec<(String, f64)>>> = Default::default();
        if app.sim.chance(3, 4) {
            let (log, throws) = (progress.clone(), app.sim.chance(1, 4));
            p.set_progress_callback(Function(Rc::new(move |o| {
                let get = |k: &str| Reflect::get(o, &k.into()).unwrap_or(JsValue::Undefined);
                log.borrow_mut().push((get("step").as_string().unwrap_or_default(), get("progress").as_f64().unwrap_or(f64::NAN)));
                if throws { Err("an exception of the callback".into()) } else { Ok(JsValue::Undefined) }
            })));
        }
        Ok(Prv { p, app, chans: vec![], progress, proxy })
    }
    fn chan(&mut self, end: End, broken: Option<Broken>) -> JsIo {
        let c = Chan::open(&self.app.ex, &self.app.sim, PROVER, end, broken, self.app.wrong.clone());
        self.chans.push(c.clone());
        JsIo(Rc::new(Handle(c)))
    }
    pub async fn setup(&mut self, end: End) -> Result<(), String> { let c = self.chan(end, self.app.parties); self.p.setup(c).await.map_err(e) }
    pub async fn send(&mut self, end: Option<End>, r: sdk::HttpRequest, spare: End) -> Result<sdk::HttpResponse, String> {
        let js = || de(json!({ "uri": r.uri, "method": format!("{:?}", r.method), "headers": r.headers, "body": match &r.body { Some(sdk::Body::Json(v)) => Some(v.clone()), _ => None } }));
        if self.app.sim.chance(1, 4) {
            // A channel where none belongs, or none where one does.
            let before = self.progress.borrow().len();
            let c = if self.proxy { Some(JsIo(Rc::new(Handle(Chan::open(&self.app.ex, &self.app.sim, PROVER, spare, None, self.app.wrong.clone()))))) } else { None };
            if self.p.send_request(c, js()?).await.is_ok() { return Err("HARNESS-ERROR: sent without a server".into()) }
            self.progress.borrow_mut().truncate(before);
            self.app.sim.probe("wrong_channel");
        }
        let c = end.map(|x| { let b = self.app.server; self.chan(x, b) });
        let o = ser(&self.p.send_request(c, js()?).await.map_err(e)?);
        shape(o["status"].as_u64().zip(pairs(&o["headers"])), &o).map(|(s, headers)| sdk::HttpResponse { status: s as u16, headers, body: None })
    }
    pub fn transcript(&self) -> Result<sdk::Transcript, String> {
        let o = ser(&self.p.transcript().map_err(e)?);
        shape(bytes(&o["sent"]).zip(bytes(&o["recv"])), &o).map(|(sent, recv)| sdk::Transcript { sent, recv })
    }
    pub async fn reveal(&mut self, r: sdk::Reveal, c: Option<sdk::Commit>) -> Result<sdk::RevealOutput, String> {
        let c = match c {
            Some(c) => { let l = |v: &[sdk::CommitRange]| v.iter().map(|r| json!({ "start": r.start, "end": r.end, "algorithm": alg(r.algorithm) })).collect::<Vec<_>>(); Some(de(json!({ "sent": l(&c.sent), "recv": l(&c.recv) }))?) }
            None => None,
        };
        let o = ser(&self.p.reveal(de(json!({ "sent": r.sent, "recv": r.recv, "server_identity": r.server_identity }))?, c).await.map_err(e)?);
        let l = |v: &Value| v.as_array().and_then(|v| v.iter().map(|h| Some(sdk::HashOpening { hash: bytes(&h["hash"])?, blinder: bytes(&h["blinder"])? })).collect::<Option<Vec<_>>>());
        shape(l(&o["sent"]).zip(l(&o["recv"])), &o).map(|(sent, recv)| sdk::RevealOutput { sent, recv })
    }
    /// The application's end of it.
    pub fn finish(&self, ok: bool) {
        if !ok { for c in &self.chans { c.finish() } }
        let log = self.progress.borrow();
        let mut steps: Vec<&str> = log.iter().map(|x| x.0.as_str()).collect();
        steps.dedup();
        let right = if ok { log.is_empty() || steps == STEPS } else { STEPS.starts_with(&steps) };
        if !right || log.windows(2).any(|w| w[1].1 < w[0].1) || log.iter().any(|x| !(0.0..=1.0).contains(&x.1)) { self.app.wrong.borrow_mut().get_or_insert(format!("progress of a prover that {}: {:?}", if ok { "succeeded" } else { "failed" }, *log)); }
        if !log.is_empty() { self.app.sim.probe("progress") }
    }
}
pub fn compute_reveal(sent: &[u8], recv: &[u8], h: &[sdk::Handler]) -> Result<sdk::handler::ComputeRevealOutput, String> {
    match bindings::handler::compute_reveal(sent, recv, JsValue::Json(Rc::new(ser(&h)))).map_err(e)? { v @ JsValue::Json(_) => from_value(v).map_err(|e| format!("HARNESS-ERROR: {e}")), v => Err(format!("HARNESS-ERROR: {v:?}")) }
}
pub struct Vrf { v: JsVerifier, app: App, chans: Vec<Rc<Chan>> }
impl Vrf {
    pub fn new(config: Value, app: App) -> Result<Vrf, String> { Ok(Vrf { v: JsVerifier::new(de(config)?).map_err(e)?, app, chans: vec![] }) }
    fn chan(&mut self, end: End, broken: Option<Broken>) -> JsIo {
        let c = Chan::open(&self.app.ex, &self.app.sim, VERIFIER, end, broken, self.app.wrong.clone());
        self.chans.push(c.clone());
        JsIo(Rc::new(Handle(c)))
    }
    pub async fn connect(&mut self, end: End) -> Result<(), String> { let c = self.chan(end, self.app.parties); self.v.connect(c).await.map_err(e) }
    pub async fn setup(&mut self) -> Result<Option<String>, String> { self.v.setup().await.map_err(e) }
    pub fn socket(&mut self, end: End) -> Result<(), String> { let c = self.chan(end, self.app.server); self.v.set_server_socket(c).map_err(e) }
    pub async fn run(&mut self) -> Result<(), String> { self.v.run().await.map_err(e) }
    pub async fn verify(&mut self) -> Result<sdk::VerifierOutput, String> {
        let o = ser(&self.v.verify().await.map_err(e)?);
        let f = || {
            let c = &o["connection_info"];
            let l = &c["transcript_length"];
            let t = &o["transcript"];
            Some(sdk::VerifierOutput {
                server_name: if o["server_name"].is_null() { None } else { Some(o["server_name"].as_str()?.into()) },
                connection_info: sdk::ConnectionInfo { time: c["time"].as_u64()?, version: match c["version"].as_str()? { "V1_2" => sdk::TlsVersion::V1_2, "V1_3" => sdk::TlsVersion::V1_3, _ => return None }, transcript_length: sdk::TranscriptLength { sent: l["sent"].as_u64()? as usize, recv: l["recv"].as_u64()? as usize } },
                transcript: if t.is_null() { None } else { Some(sdk::PartialTranscript { sent: bytes(&t["sent"])?, sent_authed: ranges(&t["sent_authed"])?, recv: bytes(&t["recv"])?, recv_authed: ranges(&t["recv_authed"])? }) },
            })
        };
        shape(f(), &o)
    }
    pub fn finish(&self, ok: bool) { if !ok { for c in &self.chans { c.finish() } } }
}
