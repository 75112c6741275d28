//! Simulation hooks.  All are thread local and off by default; one simulated
//! run owns one thread.
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind { Ideal, Garbler, Evaluator, ZkProver, ZkVerifier }

/// What a VM did, as seen by its owner.
#[derive(Clone, Debug)]
pub enum Event {
    /// The owner learned the value of `ptr..ptr+bits`.
    Decoded { kind: Kind, ptr: usize, bits: usize, value: Vec<u8> },
    /// The owner fed a private value to the functionality.
    Private { kind: Kind, ptr: usize, value: Vec<u8> },
}

type SendHook = Box<dyn FnMut(&'static str, Vec<u8>) -> Vec<Vec<u8>>>;
type TamperHook = Box<dyn FnMut(Kind, usize, &mut Vec<u8>)>;
type EventHook = Box<dyn FnMut(Event)>;
type WireHook = Box<dyn FnMut(&[u8], &mut Vec<u8>)>;
type ChoiceHook = Box<dyn FnMut(usize) -> usize>;

#[derive(Default)]
pub struct Hooks {
    pub send: Option<SendHook>,
    pub tamper: Option<TamperHook>,
    pub event: Option<EventHook>,
    pub choose: Option<ChoiceHook>,
    pub wire: Option<WireHook>,
}
thread_local! { static HOOKS: RefCell<Hooks> = RefCell::new(Hooks::default()); }

pub fn install(h: Hooks) { HOOKS.with(|x| *x.borrow_mut() = h); }
pub fn clear() { HOOKS.with(|x| *x.borrow_mut() = Hooks::default()); }

/// A message of type `ty` leaves a party: the hook returns the frames that
/// are actually sent (none drops it, two duplicate it).
pub fn on_send(ty: &'static str, bytes: Vec<u8>) -> Vec<Vec<u8>> {
    HOOKS.with(|x| match x.borrow_mut().send.as_mut() {
        Some(f) => f(ty, bytes),
        None => vec![bytes],
    })
}
/// The owner of a VM of kind `kind` is about to learn a decoded value.
pub fn on_tamper(kind: Kind, ptr: usize, v: &mut Vec<u8>) {
    HOOKS.with(|x| if let Some(f) = x.borrow_mut().tamper.as_mut() { f(kind, ptr, v) })
}
pub fn event(e: impl FnOnce() -> Event) {
    HOOKS.with(|x| if let Some(f) = x.borrow_mut().event.as_mut() { f(e()) })
}
/// Scheduling choice among `n` (0 by default).
pub fn choose(n: usize) -> usize {
    HOOKS.with(|x| match x.borrow_mut().choose.as_mut() { Some(f) => f(n), None => 0 })
}
/// Bytes arrive on the stream `id` of a multiplexed connection.
pub fn on_wire(id: &[u8], b: &mut Vec<u8>) {
    HOOKS.with(|x| if let Some(f) = x.borrow_mut().wire.as_mut() { f(id, b) })
}
