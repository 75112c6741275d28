//! The ideal two-party virtual machine.
//!
//! * A private input is handed to the functionality when its owner commits it
//!   and the next `flush` carries it to the peer's replica of the
//!   functionality; neither party's API ever returns it to the other.
//! * Outputs are computed in the clear inside the replica and can be read
//!   only after both parties requested their decoding.
//! * `Evaluator` takes the garbler's word for a decoded value, as the
//!   evaluator of a semi-honest garbled circuit does; a ZK verifier computes
//!   it from its own call graph, and fails if the prover committed a
//!   different public value.
use crate::bitvec::BitVec;
use crate::circuits::Circuit;
use crate::common::Context;
use crate::hooks::{self, Event, Kind};
use crate::memory::*;
use async_trait::async_trait;
use std::sync::Arc;

#[derive(Debug, thiserror::Error)]
pub enum VmError {
    #[error("memory error: {0}")]
    Memory(#[source] Box<dyn std::error::Error + Send + Sync>),
    #[error("execute error: {0}")]
    Execute(#[source] Box<dyn std::error::Error + Send + Sync>),
}
impl VmError {
    pub fn memory<E: Into<Box<dyn std::error::Error + Send + Sync>>>(e: E) -> Self { VmError::Memory(e.into()) }
    pub fn execute<E: Into<Box<dyn std::error::Error + Send + Sync>>>(e: E) -> Self { VmError::Execute(e.into()) }
    pub fn view<E: Into<Box<dyn std::error::Error + Send + Sync>>>(e: E) -> Self { VmError::Memory(e.into()) }
}

#[derive(Debug, thiserror::Error)]
#[error("invalid call: circuit has {expected} inputs, got {actual}")]
pub struct CallError { expected: usize, actual: usize }

#[derive(Debug, Clone)]
pub struct Call { circ: Arc<Circuit>, inputs: Vec<Slice> }
impl Call {
    pub fn builder(circ: Arc<Circuit>) -> CallBuilder { CallBuilder::new(circ) }
    pub fn into_parts(self) -> (Arc<Circuit>, Vec<Slice>) { (self.circ, self.inputs) }
}
#[derive(Debug, Clone)]
pub struct CallBuilder { circ: Arc<Circuit>, inputs: Vec<Slice> }
impl CallBuilder {
    pub fn new(circ: Arc<Circuit>) -> Self { CallBuilder { circ, inputs: vec![] } }
    pub fn arg(mut self, v: impl ToRaw) -> Self { self.inputs.push(v.to_raw()); self }
    pub fn build(self) -> Result<Call, CallError> {
        let actual = self.inputs.iter().map(|s| s.len()).sum();
        let expected = self.circ.input_len();
        if actual != expected { return Err(CallError { expected, actual }) }
        Ok(Call { circ: self.circ, inputs: self.inputs })
    }
}

pub trait Callable<M: MemoryType> {
    fn call_raw(&mut self, call: Call) -> Result<Slice, VmError>;
}
pub trait CallableExt: Callable<Binary> {
    fn call<R: FromRaw<Binary>>(&mut self, call: Call) -> Result<R, VmError> { Ok(R::from_raw(self.call_raw(call)?)) }
}
impl<T: Callable<Binary> + ?Sized> CallableExt for T {}

#[async_trait]
pub trait Execute: Send {
    fn wants_flush(&self) -> bool;
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    fn wants_preprocess(&self) -> bool;
    async fn preprocess(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    fn wants_execute(&self) -> bool;
    async fn execute(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    async fn execute_all(&mut self, ctx: &mut Context) -> Result<(), VmError> {
        while self.wants_flush() || self.wants_preprocess() || self.wants_execute() {
            if self.wants_flush() { self.flush(ctx).await? }
            if self.wants_preprocess() { self.preprocess(ctx).await? }
            if self.wants_execute() { self.execute(ctx).await? }
        }
        Ok(())
    }
}

pub trait Vm<M: MemoryType>: Callable<M> + Memory<M, Error = VmError> + View<M, Error = VmError> + Execute {}
impl<M: MemoryType, T: ?Sized> Vm<M> for T where T: Callable<M> + Memory<M, Error = VmError> + View<M, Error = VmError> + Execute {}

pub trait VmExt: Vm<Binary> {
    /// XORs a value with a one-time pad only the caller knows.
    fn mask_private<R>(&mut self, value: R, otp: R::Clear) -> Result<R, VmError>
    where R: Repr<Binary> + StaticSize<Binary> + Copy {
        let pad: R = self.alloc()?;
        self.mark_private(pad)?;
        self.assign(pad, otp)?;
        self.commit(pad)?;
        xor_values(self, value, pad)
    }
    /// XORs a value with a one-time pad only the peer knows.
    fn mask_blind<R>(&mut self, value: R) -> Result<R, VmError>
    where R: Repr<Binary> + StaticSize<Binary> + Copy {
        let pad: R = self.alloc()?;
        self.mark_blind(pad)?;
        self.commit(pad)?;
        xor_values(self, value, pad)
    }
}
impl<T: Vm<Binary> + ?Sized> VmExt for T {}
fn xor_values<V: Vm<Binary> + ?Sized, R: Repr<Binary> + StaticSize<Binary> + Copy>(vm: &mut V, a: R, b: R) -> Result<R, VmError> {
    let call = Call::builder(Arc::new(crate::circuits::circuits::xor(R::SIZE))).arg(a).arg(b).build().map_err(VmError::memory)?;
    Ok(R::from_raw(vm.call_raw(call)?))
}

const VAL: u16 = 1;
const KNOWN: u16 = 2;
const VISIBLE: u16 = 4;
const ASSIGNED: u16 = 8;
const PUBLIC: u16 = 16;
const PRIVATE: u16 = 32;
const BLIND: u16 = 64;
const COMMITTED: u16 = 128;
// what the peer told us
const PEER: u16 = 256;
const PEER_VAL: u16 = 512;
const PEER_READY: u16 = 1024;
const PEER_OUT: u16 = 2048;
const PEER_OUT_VAL: u16 = 4096;
const OUTPUT: u16 = 8192;
const PEER_PUB: u16 = 16384;
const PEER_PUB_VAL: u16 = 32768;

#[derive(Debug)]
struct Pending { circ: Arc<Circuit>, inputs: Vec<Slice>, out: Slice, wait: std::cell::Cell<usize> }
// The cell is a memo only, and a VM is never used from two threads at once.
unsafe impl Sync for Pending {}
#[derive(Debug)]
struct Decode { slice: Slice, op: DecodeOp }

/// What a flush sends.
#[derive(Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct FlushMsg {
    /// Newly committed private inputs: address, length, bits.
    pub private: Vec<(u64, u64, Vec<u8>)>,
    /// Newly committed public inputs.
    pub public: Vec<(u64, u64, Vec<u8>)>,
    /// Outputs ready to be decoded, with their values if the sender garbles.
    pub decode: Vec<(u64, u64, Vec<u8>)>,
    /// How many calls the sender has made and which.
    pub program: (u64, u64),
}

#[derive(Debug)]
pub struct IdealVm {
    kind: Kind,
    cells: Vec<u16>,
    end: usize,
    calls: Vec<Pending>,
    decodes: Vec<Decode>,
    new_private: Vec<Slice>,
    new_public: Vec<Slice>,
    new_blind: bool,
    executed: usize,
    stalled: usize,
    /// Digests of the calls made so far, by their number.
    program: Vec<u64>,
    peer_program: (u64, u64),
}
const MAX_CELLS: usize = 1 << 28;

impl Default for IdealVm { fn default() -> Self { Self::new() } }
impl IdealVm {
    pub fn new() -> Self { Self::of(Kind::Ideal) }
    pub(crate) fn of(kind: Kind) -> Self {
        IdealVm { kind, cells: vec![], end: 0, calls: vec![], decodes: vec![], new_private: vec![], new_public: vec![], new_blind: false, executed: 0, stalled: 0, program: vec![0], peer_program: (0, 0) }
    }
    fn check(&self, s: Slice) -> Result<(), VmError> {
        if s.to_range().end > self.end { return Err(VmError::memory(format!("slice {s} is not allocated"))) }
        Ok(())
    }
    fn c(&self, s: Slice) -> &[u16] { &self.cells[s.to_range()] }
    fn cm(&mut self, s: Slice) -> &mut [u16] { &mut self.cells[s.to_range()] }
    fn all(&self, s: Slice, f: u16) -> bool { self.c(s).iter().all(|c| c & f == f) }
    fn any(&self, s: Slice, f: u16) -> bool { self.c(s).iter().any(|c| c & f != 0) }
    fn values(&self, s: Slice) -> Vec<bool> { self.c(s).iter().map(|c| c & VAL != 0).collect() }
    fn grow(&mut self, size: usize) -> Slice {
        let s = Slice::from_range_unchecked(self.end..self.end + size);
        self.end += size;
        if self.cells.len() < self.end { self.cells.resize(self.end, 0) }
        s
    }
    fn known(&self, p: &Pending) -> bool {
        let n = p.inputs.len();
        for k in 0..n {
            let i = (p.wait.get() + k) % n;
            if !self.all(p.inputs[i], KNOWN) { p.wait.set(i); return false }
        }
        true
    }
    /// A blind input becomes known when its owner sent it and it is committed here.
    fn settle(&mut self, s: Slice) {
        for c in self.cm(s) {
            if *c & (BLIND | COMMITTED | PEER) == BLIND | COMMITTED | PEER && *c & KNOWN == 0 {
                *c |= KNOWN;
                if *c & PEER_VAL != 0 { *c |= VAL }
            }
        }
    }
    fn peer_range(&mut self, ptr: u64, len: u64) -> Result<Slice, VmError> {
        let (p, l) = (ptr as usize, len as usize);
        if p > MAX_CELLS || l > MAX_CELLS { return Err(VmError::execute("peer sent an invalid address")) }
        if self.cells.len() < p + l { self.cells.resize(p + l, 0) }
        Ok(Slice::from_range_unchecked(p..p + l))
    }
    fn decode_ready(&self, s: Slice) -> bool { self.all(s, KNOWN) }
}

impl Memory<Binary> for IdealVm {
    type Error = VmError;
    fn is_alloc_raw(&self, s: Slice) -> bool { s.to_range().end <= self.end }
    fn alloc_raw(&mut self, size: usize) -> Result<Slice, VmError> {
        if size > MAX_CELLS || self.end + size > MAX_CELLS { return Err(VmError::memory("out of memory")) }
        Ok(self.grow(size))
    }
    fn is_assigned_raw(&self, s: Slice) -> bool { self.check(s).is_ok() && self.all(s, ASSIGNED) }
    fn assign_raw(&mut self, s: Slice, data: BitVec) -> Result<(), VmError> {
        self.check(s)?;
        if data.len() != s.len() { return Err(VmError::memory(format!("assigning {} bits to {} bits", data.len(), s.len()))) }
        if self.any(s, BLIND) { return Err(VmError::memory(format!("slice {s} is blind"))) }
        if self.any(s, COMMITTED) { return Err(VmError::memory(format!("slice {s} is already committed"))) }
        if self.any(s, OUTPUT) { return Err(VmError::memory(format!("slice {s} is an output"))) }
        for (c, b) in self.cm(s).iter_mut().zip(data.iter()) {
            *c = (*c & !VAL) | ASSIGNED | VISIBLE | (*b as u16 * VAL);
        }
        Ok(())
    }
    fn is_committed_raw(&self, s: Slice) -> bool { self.check(s).is_ok() && self.all(s, COMMITTED) }
    fn commit_raw(&mut self, s: Slice) -> Result<(), VmError> {
        self.check(s)?;
        for r in self.runs(s, |c| c & COMMITTED == 0) {
            if self.all(r, BLIND) {
                self.cm(r).iter_mut().for_each(|c| *c |= COMMITTED);
                self.new_blind = true;
                self.settle(r);
            } else if self.all(r, PUBLIC) || self.all(r, PRIVATE) {
                if !self.all(r, ASSIGNED) { return Err(VmError::memory(format!("slice {r} is committed but not assigned"))) }
                self.cm(r).iter_mut().for_each(|c| *c |= COMMITTED | KNOWN);
                if self.all(r, PUBLIC) { self.new_public.push(r) } else {
                    self.new_private.push(r);
                    let (kind, value) = (self.kind, to_bytes(&self.values(r)));
                    hooks::event(|| Event::Private { kind, ptr: r.ptr(), value });
                }
            } else {
                return Err(VmError::memory(format!("slice {r} has no consistent visibility")));
            }
        }
        Ok(())
    }
    fn get_raw(&self, s: Slice) -> Result<Option<BitVec>, VmError> {
        self.check(s)?;
        if !self.all(s, VISIBLE) { return Ok(None) }
        Ok(Some(bitvec(&self.values(s))))
    }
    fn decode_raw(&mut self, s: Slice) -> Result<DecodeFuture<BitVec>, VmError> {
        self.check(s)?;
        let (op, fut) = decode_pair();
        self.decodes.push(Decode { slice: s, op });
        Ok(fut)
    }
}
impl IdealVm {
    /// Maximal runs of cells that satisfy `f` and share one visibility.
    fn runs(&self, s: Slice, f: impl Fn(u16) -> bool) -> Vec<Slice> {
        let mut v = vec![];
        let r = s.to_range();
        let mut i = r.start;
        while i < r.end {
            if !f(self.cells[i]) { i += 1; continue }
            let vis = self.cells[i] & (PUBLIC | PRIVATE | BLIND);
            let j = (i..r.end).find(|&k| !f(self.cells[k]) || self.cells[k] & (PUBLIC | PRIVATE | BLIND) != vis).unwrap_or(r.end);
            v.push(Slice::from_range_unchecked(i..j));
            i = j;
        }
        v
    }
    fn mark(&mut self, s: Slice, f: u16) -> Result<(), VmError> {
        self.check(s)?;
        if self.any(s, OUTPUT) { return Err(VmError::view(format!("slice {s} is an output"))) }
        if self.c(s).iter().any(|c| c & (PUBLIC | PRIVATE | BLIND) & !f != 0) {
            return Err(VmError::view(format!("slice {s} already has another visibility")));
        }
        self.cm(s).iter_mut().for_each(|c| *c |= f);
        Ok(())
    }
}
impl View<Binary> for IdealVm {
    type Error = VmError;
    fn mark_public_raw(&mut self, s: Slice) -> Result<(), VmError> { self.mark(s, PUBLIC) }
    fn mark_private_raw(&mut self, s: Slice) -> Result<(), VmError> {
        if self.kind == Kind::ZkVerifier { return Err(VmError::view("the ZK verifier has no private inputs")) }
        self.mark(s, PRIVATE)
    }
    fn mark_blind_raw(&mut self, s: Slice) -> Result<(), VmError> {
        if self.kind == Kind::ZkProver { return Err(VmError::view("the ZK verifier has no private inputs")) }
        self.mark(s, BLIND)
    }
}
impl Callable<Binary> for IdealVm {
    fn call_raw(&mut self, call: Call) -> Result<Slice, VmError> {
        for s in &call.inputs { self.check(*s)? }
        let out = self.grow(call.circ.output_len());
        self.cm(out).iter_mut().for_each(|c| *c |= OUTPUT);
        let mut h = *self.program.last().unwrap();
        for x in call.inputs.iter().flat_map(|s| [s.ptr(), s.len()]).chain([out.ptr(), out.len()]) {
            h = (h ^ x as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
        }
        self.program.push(h);
        self.calls.push(Pending { circ: call.circ, inputs: call.inputs, out, wait: Default::default() });
        Ok(out)
    }
}
#[async_trait]
impl Execute for IdealVm {
    fn wants_flush(&self) -> bool {
        !self.new_private.is_empty() || self.new_blind || self.decodes.iter().any(|d| self.decode_ready(d.slice))
    }
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), VmError> {
        use serio::{stream::IoStreamExt, SinkExt};
        let mut msg = FlushMsg::default();
        let enc = |vm: &Self, s: Slice| (s.ptr() as u64, s.len() as u64, to_bytes(&vm.values(s)));
        for s in std::mem::take(&mut self.new_private) { msg.private.push(enc(self, s)) }
        for s in std::mem::take(&mut self.new_public) { msg.public.push(enc(self, s)) }
        self.new_blind = false;
        let garbles = matches!(self.kind, Kind::Garbler | Kind::Ideal);
        for d in &self.decodes {
            if self.decode_ready(d.slice) {
                msg.decode.push((d.slice.ptr() as u64, d.slice.len() as u64, if garbles { to_bytes(&self.values(d.slice)) } else { vec![] }));
            }
        }
        // Two parties whose call graphs differ would exchange empty messages
        // for ever; the protocols this stands for fail instead.
        let mut news = !msg.private.is_empty() || !msg.public.is_empty();
        let waiting = self.decodes.len();
        let ready: Vec<bool> = self.decodes.iter().map(|d| self.decode_ready(d.slice)).collect();
        msg.program = (self.program.len() as u64 - 1, *self.program.last().unwrap());
        ctx.io_mut().send(msg).await.map_err(VmError::execute)?;
        let peer: FlushMsg = ctx.io_mut().expect_next().await.map_err(VmError::execute)?;
        // Protocols whose parties evaluate different programs fail.
        if peer.program.0 >= self.peer_program.0 { self.peer_program = peer.program }
        if self.program.get(self.peer_program.0 as usize).is_some_and(|h| *h != self.peer_program.1) {
            return Err(VmError::execute("the parties run different programs"));
        }
        news |= !peer.private.is_empty() || !peer.public.is_empty();
        for (p, l, b) in peer.private {
            let s = self.peer_range(p, l)?;
            let bits = to_bits(&b);
            for (c, b) in self.cm(s).iter_mut().zip(bits) {
                if *c & PEER == 0 { *c |= PEER | b as u16 * PEER_VAL }
            }
            self.settle(s);
        }
        for (p, l, b) in peer.public {
            let s = self.peer_range(p, l)?;
            let bits = to_bits(&b);
            for (c, b) in self.cm(s).iter_mut().zip(bits) { *c |= PEER_PUB | b as u16 * PEER_PUB_VAL }
        }
        for (p, l, b) in peer.decode {
            let s = self.peer_range(p, l)?;
            self.cm(s).iter_mut().for_each(|c| *c |= PEER_READY);
            let bits = to_bits(&b);
            for (c, b) in self.cm(s).iter_mut().zip(bits) {
                if *c & PEER_OUT == 0 { *c |= PEER_OUT | b as u16 * PEER_OUT_VAL }
            }
        }
        if self.kind == Kind::ZkVerifier {
            let bad = self.cells[..self.end].iter().any(|c| {
                c & (PUBLIC | COMMITTED | PEER_PUB) == PUBLIC | COMMITTED | PEER_PUB && (c & VAL != 0) != (c & PEER_PUB_VAL != 0)
            });
            if bad { return Err(VmError::execute("zk proof is invalid")) }
        }
        let mut i = 0;
        let mut k = 0;
        while i < self.decodes.len() {
            let s = self.decodes[i].slice;
            let was_ready = ready[k];
            k += 1;
            if !(was_ready && self.all(s, PEER_READY)) { i += 1; continue }
            let d = self.decodes.remove(i);
            let mut bits = if self.kind == Kind::Evaluator && self.all(s, PEER_OUT) {
                self.c(s).iter().map(|c| c & PEER_OUT_VAL != 0).collect()
            } else { self.values(s) };
            let mut bytes = to_bytes(&bits);
            hooks::on_tamper(self.kind, s.ptr(), &mut bytes);
            bits = to_bits(&bytes);
            bits.truncate(s.len());
            let kind = self.kind;
            hooks::event(|| Event::Decoded { kind, ptr: s.ptr(), bits: s.len(), value: bytes });
            for (c, b) in self.cm(s).iter_mut().zip(&bits) { *c = (*c & !VAL) | VISIBLE | (*b as u16 * VAL) }
            d.op.send(bitvec(&bits));
        }
        if news || self.decodes.len() < waiting || !self.wants_flush() { self.stalled = 0 } else { self.stalled += 1 }
        if self.stalled > 16 { return Err(VmError::execute("the parties run different programs")) }
        Ok(())
    }
    fn wants_preprocess(&self) -> bool { false }
    async fn preprocess(&mut self, _ctx: &mut Context) -> Result<(), VmError> { Ok(()) }
    fn wants_execute(&self) -> bool { self.calls.iter().any(|p| self.known(p)) }
    async fn execute(&mut self, _ctx: &mut Context) -> Result<(), VmError> {
        let calls = std::mem::take(&mut self.calls);
        let mut rest = Vec::with_capacity(calls.len());
        for p in calls {
            if !self.known(&p) { rest.push(p); continue }
            let mut input = Vec::with_capacity(p.circ.input_len());
            for s in &p.inputs { input.extend(self.c(*s).iter().map(|c| c & VAL != 0)) }
            let out = p.circ.eval(&input);
            let vis = if self.kind == Kind::ZkProver { VISIBLE } else { 0 };
            for (c, b) in self.cm(p.out).iter_mut().zip(out) { *c = (*c & !VAL) | KNOWN | vis | (b as u16 * VAL) }
            self.executed += 1;
        }
        self.calls = rest;
        Ok(())
    }
}

/// Wraps the ideal VM under a protocol's name.
macro_rules! vm_type {
    ($name:ident, $kind:expr) => {
        #[derive(Debug)]
        pub struct $name<T> { vm: IdealVm, _ot: std::marker::PhantomData<fn() -> T> }
        impl<T> $name<T> {
            fn make() -> Self { Self { vm: IdealVm::of($kind), _ot: std::marker::PhantomData } }
        }
        impl<T> Memory<Binary> for $name<T> {
            type Error = VmError;
            fn is_alloc_raw(&self, s: Slice) -> bool { self.vm.is_alloc_raw(s) }
            fn alloc_raw(&mut self, n: usize) -> Result<Slice, VmError> { self.vm.alloc_raw(n) }
            fn is_assigned_raw(&self, s: Slice) -> bool { self.vm.is_assigned_raw(s) }
            fn assign_raw(&mut self, s: Slice, d: BitVec) -> Result<(), VmError> { self.vm.assign_raw(s, d) }
            fn is_committed_raw(&self, s: Slice) -> bool { self.vm.is_committed_raw(s) }
            fn commit_raw(&mut self, s: Slice) -> Result<(), VmError> { self.vm.commit_raw(s) }
            fn get_raw(&self, s: Slice) -> Result<Option<BitVec>, VmError> { self.vm.get_raw(s) }
            fn decode_raw(&mut self, s: Slice) -> Result<DecodeFuture<BitVec>, VmError> { self.vm.decode_raw(s) }
        }
        impl<T> View<Binary> for $name<T> {
            type Error = VmError;
            fn mark_public_raw(&mut self, s: Slice) -> Result<(), VmError> { self.vm.mark_public_raw(s) }
            fn mark_private_raw(&mut self, s: Slice) -> Result<(), VmError> { self.vm.mark_private_raw(s) }
            fn mark_blind_raw(&mut self, s: Slice) -> Result<(), VmError> { self.vm.mark_blind_raw(s) }
        }
        impl<T> Callable<Binary> for $name<T> {
            fn call_raw(&mut self, c: Call) -> Result<Slice, VmError> { self.vm.call_raw(c) }
        }
        #[async_trait]
        impl<T> Execute for $name<T> {
            fn wants_flush(&self) -> bool { self.vm.wants_flush() }
            async fn flush(&mut self, ctx: &mut Context) -> Result<(), VmError> { self.vm.flush(ctx).await }
            fn wants_preprocess(&self) -> bool { self.vm.wants_preprocess() }
            async fn preprocess(&mut self, ctx: &mut Context) -> Result<(), VmError> { self.vm.preprocess(ctx).await }
            fn wants_execute(&self) -> bool { self.vm.wants_execute() }
            async fn execute(&mut self, ctx: &mut Context) -> Result<(), VmError> { self.vm.execute(ctx).await }
        }
    };
}
vm_type!(Garbler, Kind::Garbler);
vm_type!(Evaluator, Kind::Evaluator);
vm_type!(Prover, Kind::ZkProver);
vm_type!(Verifier, Kind::ZkVerifier);
impl<T> Garbler<T> {
    pub fn new(_ot: T, _seed: [u8; 16], _delta: crate::Delta) -> Self { Self::make() }
}
impl<T> Evaluator<T> {
    pub fn new(_ot: T) -> Self { Self::make() }
}
#[derive(Debug, Default, Clone)]
pub struct ProverConfig;
#[derive(Debug, Default, Clone)]
pub struct VerifierConfig;
impl<T> Prover<T> {
    pub fn new(_config: ProverConfig, _ot: T) -> Self { Self::make() }
}
impl<T> Verifier<T> {
    pub fn new(_config: VerifierConfig, _delta: crate::Delta, _ot: T) -> Self { Self::make() }
}
