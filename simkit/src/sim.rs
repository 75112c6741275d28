//! The per-run simulator handle: choice tape, statistics, event log.
use crate::ev;
use crate::rng::{mix, Rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Violation {
    /// Short stable label: minimisation keeps the class constant.
    pub class: String,
    pub msg: String,
}
impl Violation {
    pub fn new(class: impl Into<String>, msg: impl Into<String>) -> Self {
        Self { class: class.into(), msg: msg.into() }
    }
}

/// Where choices come from.
pub enum Source {
    Seed(u64),
    Tape(Vec<u64>),
}

/// Tape shared with the watchdog so that a hanging run can still be reported.
pub type SharedTape = Arc<Mutex<Vec<u64>>>;

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub steps: u64,
    pub sim_ns: u64,
    pub nontrivial: bool,
    pub fingerprint: u64,
    pub states: BTreeSet<u64>,
    pub digest: u64,
}

pub struct Inner {
    rng: RefCell<Option<Rng>>,
    pre: Vec<u64>,
    pos: Cell<usize>,
    tape: SharedTape,
    trace: bool,
    log: RefCell<Vec<String>>,
    stats: RefCell<Stats>,
    fp: Cell<u64>,
    digest: Cell<u64>,
    max_choices: usize,
    quiet: Cell<bool>,
    last: Cell<u64>,
}

#[derive(Clone)]
pub struct Sim(Rc<Inner>);

/// Panic payload used to abandon a run that draws too many choices.
pub struct ChoiceOverflow;

impl Sim {
    pub fn new(src: Source, trace: bool, tape: SharedTape) -> Self {
        let (rng, pre) = match src {
            Source::Seed(s) => (Some(Rng::new(s)), vec![]),
            Source::Tape(t) => (None, t),
        };
        Sim(Rc::new(Inner {
            rng: RefCell::new(rng),
            pre,
            pos: Cell::new(0),
            tape,
            trace,
            log: RefCell::new(vec![]),
            stats: RefCell::new(Stats::default()),
            fp: Cell::new(0),
            digest: Cell::new(0),
            max_choices: 4_000_000,
            quiet: Cell::new(false),
            last: Cell::new(0),
        }))
    }

    /// The only source of choices. Returns a value in `0..n`; 0 is, by
    /// convention, the simplest / fault-free alternative.
    pub fn pick(&self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let i = &self.0;
        let v = match i.rng.borrow_mut().as_mut() {
            Some(r) => r.below(n),
            None => {
                let p = i.pos.get();
                i.pos.set(p + 1);
                i.pre.get(p).copied().unwrap_or(0).min(n - 1)
            }
        };
        self.record(v);
        v
    }
    fn record(&self, v: u64) {
        let i = &self.0;
        let mut t = i.tape.lock().unwrap();
        t.push(v);
        let l = t.len();
        drop(t);
        i.digest.set(mix(i.digest.get(), v));
        if l > i.max_choices && !std::thread::panicking() {
            std::panic::panic_any(ChoiceOverflow);
        }
    }
    /// Inclusive range, simplest = lo.
    pub fn range(&self, lo: u64, hi: u64) -> u64 {
        lo + self.pick(hi - lo + 1)
    }
    pub fn index(&self, n: usize) -> usize {
        self.pick(n as u64) as usize
    }
    /// True with probability num/den; false is the simple alternative.
    pub fn chance(&self, num: u64, den: u64) -> bool {
        if num == 0 { return false; }
        // Reserve 0 for "no".
        let i = &self.0;
        let v = match i.rng.borrow_mut().as_mut() {
            Some(r) => (r.below(den) < num) as u64,
            None => {
                let p = i.pos.get();
                i.pos.set(p + 1);
                i.pre.get(p).copied().unwrap_or(0).min(1)
            }
        };
        self.record(v);
        v == 1
    }
    /// Weighted choice: index into `w`. Earlier = simpler.
    pub fn weighted(&self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let i = &self.0;
        let v = match i.rng.borrow_mut().as_mut() {
            Some(r) => {
                let mut x = r.below(total.max(1));
                let mut k = 0;
                for (j, wj) in w.iter().enumerate() {
                    if x < *wj { k = j; break; }
                    x -= *wj;
                }
                k as u64
            }
            None => {
                let p = i.pos.get();
                i.pos.set(p + 1);
                i.pre.get(p).copied().unwrap_or(0).min(w.len() as u64 - 1)
            }
        };
        self.record(v);
        v as usize
    }
    /// A size, biased to small values but reaching `max` (log-uniform).
    pub fn size(&self, max: u64) -> u64 {
        if max == 0 { return 0; }
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.pick(bits + 1);
        if b == 0 { return 0; }
        let hi = if b >= 63 { u64::MAX } else { (1u64 << b) - 1 };
        self.range((1u64 << (b - 1)).min(max), hi.min(max))
    }
    /// Bytes determined by one choice (so that tapes stay short).
    pub fn bytes(&self, len: usize) -> Vec<u8> {
        let s = self.pick(1 << 32);
        let mut r = Rng::new(s ^ 0xB17E5);
        let mut v = vec![0u8; len];
        r.fill(&mut v);
        v
    }
    pub fn seed32(&self) -> u64 { self.pick(1 << 32) }

    pub fn fault(&self, kind: &'static str) {
        self.stat_nontrivial();
        let h = crate::rng::hash_bytes(3, kind.as_bytes());
        self.fp(h);
        self.pair(h);
        *self.0.stats.borrow_mut().faults.entry(kind).or_default() += 1;
        ev!(self, "FAULT {kind}");
    }
    fn pair(&self, h: u64) { self.state(mix(self.0.last.replace(h), h)); }
    pub fn probe(&self, name: &'static str) {
        self.pair(crate::rng::hash_bytes(4, name.as_bytes()));
        *self.0.stats.borrow_mut().probes.entry(name).or_default() += 1;
    }
    pub fn fault_count(&self) -> u64 { self.0.stats.borrow().faults.values().sum() }
    pub fn stat_nontrivial(&self) { self.0.stats.borrow_mut().nontrivial = true; }
    pub fn step(&self) -> u64 {
        let mut s = self.0.stats.borrow_mut();
        s.steps += 1;
        s.steps
    }
    pub fn add_sim_ns(&self, v: u64) { self.0.stats.borrow_mut().sim_ns += v; }
    /// Contributes to the fingerprint of the interleaving of this run.
    pub fn fp(&self, v: u64) { self.0.fp.set(mix(self.0.fp.get(), v)); }
    /// Contributes to the determinism digest (observable results).
    pub fn observe(&self, v: u64) { self.0.digest.set(mix(self.0.digest.get(), v)); }
    pub fn observe_bytes(&self, b: &[u8]) { self.observe(crate::rng::hash_bytes(7, b)); }
    /// Records a reached abstract state.
    pub fn state(&self, v: u64) { self.0.stats.borrow_mut().states.insert(v); }
    pub fn tracing(&self) -> bool { self.0.trace && !self.0.quiet.get() }
    pub fn set_quiet(&self, q: bool) { self.0.quiet.set(q) }
    pub fn log(&self, s: String) {
        if self.0.trace {
            let mut l = self.0.log.borrow_mut();
            if l.len() < 200_000 {
                l.push(format!("[{:>12.6}s] {}", crate::seam::now_ns() as f64 / 1e9, s));
            }
        }
    }
    pub fn take_log(&self) -> Vec<String> { std::mem::take(&mut *self.0.log.borrow_mut()) }
    pub fn finish(&self) -> Stats {
        let mut s = self.0.stats.borrow().clone();
        s.fingerprint = self.0.fp.get();
        s.digest = self.0.digest.get();
        s
    }
}
