//! Single-threaded seeded executor over simulated time.
//!
//! The scheduler decides at every step which ready task is polled; timers and
//! network deliveries are discrete events ordered by (time, sequence).  When
//! nothing is ready the clock jumps to the next event.
use crate::{ev, seam, Sim};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag {
    ready: AtomicBool,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) { self.ready.store(true, Ordering::SeqCst); }
    fn wake_by_ref(self: &Arc<Self>) { self.ready.store(true, Ordering::SeqCst); }
}

type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

struct Task {
    name: String,
    node: usize,
    fut: Option<BoxFut>,
    flag: Arc<Flag>,
    done: bool,
    /// Steps spent ready without being chosen.
    waits: u32,
}
/// Longest a ready task is passed over.
const FAIR: u32 = 256;
/// A task that is the only ready one for this many steps in a row is waiting
/// busily: time passes until something else happens.
const SPIN: u32 = 64;
/// And if nothing else can happen for this many steps, it waits in vain.
const VAIN: u32 = 20_000;

type EventFn = Box<dyn FnOnce()>;

pub struct Exec {
    sim: Sim,
    tasks: RefCell<Vec<Task>>,
    spawned: RefCell<Vec<Task>>,
    events: RefCell<BTreeMap<(u64, u64), EventFn>>,
    seq: Cell<u64>,
    /// Actions bound to a number of scheduling steps.
    steps: RefCell<BTreeMap<(u64, u64), EventFn>>,
    step: Cell<u64>,
    ntasks: Cell<usize>,
    skews: RefCell<Vec<i64>>,
    cur: Cell<usize>,
    /// Tasks polled last, newest at the end.
    recent: RefCell<std::collections::VecDeque<usize>>,
    /// Per-step extra virtual time in ns (upper bound, drawn per poll).
    pub poll_cost_ns: Cell<u64>,
    pub spurious: Cell<u64>,
}

/// Outcome of driving the executor.
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Stop {
    /// All awaited tasks finished.
    Done,
    /// Nothing can make progress and at least one awaited task is pending.
    Deadlock,
    /// Step budget exhausted.
    Budget,
}

pub struct JoinHandle<T> {
    slot: Rc<RefCell<Option<T>>>,
    id: usize,
}
impl<T> JoinHandle<T> {
    pub fn id(&self) -> usize { self.id }
    pub fn is_done(&self) -> bool { self.slot.borrow().is_some() }
    pub fn take(&self) -> Option<T> { self.slot.borrow_mut().take() }
}

impl Exec {
    pub fn new(sim: &Sim) -> Rc<Self> {
        Rc::new(Exec {
            sim: sim.clone(),
            tasks: Default::default(),
            spawned: Default::default(),
            events: Default::default(),
            seq: Cell::new(0),
            steps: Default::default(),
            step: Cell::new(0),
            ntasks: Cell::new(0),
            skews: Default::default(),
            cur: Cell::new(usize::MAX),
            recent: Default::default(),
            poll_cost_ns: Cell::new(2_000),
            spurious: Cell::new(0),
        })
    }
    pub fn sim(&self) -> &Sim { &self.sim }
    /// Sets the wall clock skew of a node.
    pub fn set_skew(&self, node: usize, ns: i64) {
        let mut s = self.skews.borrow_mut();
        if s.len() <= node { s.resize(node + 1, 0); }
        s[node] = ns;
        drop(s);
        if self.current_node() == Some(node) { seam::set_skew_ns(ns); }
    }
    fn skew(&self, node: usize) -> i64 { self.skews.borrow().get(node).copied().unwrap_or(0) }
    /// The node whose task is being polled.
    pub fn current_node(&self) -> Option<usize> {
        let c = self.cur.get();
        if c == usize::MAX { None } else { Some(c) }
    }
    /// The task being polled.
    pub fn current_task(&self) -> Option<usize> {
        self.current_node()?;
        self.recent.borrow().back().copied()
    }
    pub fn spawn<T: 'static>(&self, name: &str, node: usize, f: impl Future<Output = T> + 'static) -> JoinHandle<T> {
        let slot = Rc::new(RefCell::new(None));
        let s2 = slot.clone();
        let id = self.ntasks.get();
        self.ntasks.set(id + 1);
        self.spawned.borrow_mut().push(Task {
            name: name.to_string(),
            node,
            fut: Some(Box::pin(async move {
                let v = f.await;
                *s2.borrow_mut() = Some(v);
            })),
            flag: Arc::new(Flag { ready: AtomicBool::new(true) }),
            done: false,
            waits: 0,
        });
        JoinHandle { slot, id }
    }
    /// Drops a task at an arbitrary point (crash / cancellation).
    pub fn kill(&self, id: usize) {
        self.absorb();
        let fut = {
            let mut t = self.tasks.borrow_mut();
            t[id].done = true;
            t[id].fut.take()
        };
        drop(fut);
    }
    fn absorb(&self) {
        let mut s = self.spawned.borrow_mut();
        self.tasks.borrow_mut().append(&mut s);
    }
    pub fn at(&self, delay_ns: u64, f: impl FnOnce() + 'static) {
        let q = self.seq.get();
        self.seq.set(q + 1);
        self.events.borrow_mut().insert((seam::now_ns() + delay_ns, q), Box::new(f));
    }
    /// Runs `f` after this many more scheduling steps.
    pub fn at_step(&self, n: u64, f: impl FnOnce() + 'static) {
        let q = self.seq.get();
        self.seq.set(q + 1);
        self.steps.borrow_mut().insert((self.step.get() + n, q), Box::new(f));
    }
    pub fn sleep(self: &Rc<Self>, ns: u64) -> Sleep {
        let st = Rc::new(RefCell::new((false, None::<Waker>)));
        let s2 = st.clone();
        self.at(ns, move || {
            let mut s = s2.borrow_mut();
            s.0 = true;
            if let Some(w) = s.1.take() { w.wake(); }
        });
        Sleep(st)
    }
    /// Runs until every task in `wait` finished, deadlock, or budget.
    pub fn run(&self, wait: &[usize], max_steps: u64) -> Stop {
        let mut steps = 0u64;
        let mut spin = (usize::MAX, 0u32);
        let mut vain = 0u32;
        loop {
            self.absorb();
            if wait.iter().all(|w| self.tasks.borrow()[*w].done) {
                return Stop::Done;
            }
            // Fire events that are due.
            loop {
                let due = {
                    let mut e = self.events.borrow_mut();
                    match e.first_key_value() {
                        Some((k, _)) if k.0 <= seam::now_ns() => e.pop_first(),
                        _ => None,
                    }
                };
                match due {
                    Some((_, f)) => f(),
                    None => break,
                }
            }
            self.absorb();
            let ready: Vec<usize> = self
                .tasks
                .borrow()
                .iter()
                .enumerate()
                .filter(|(_, t)| !t.done && t.flag.ready.load(Ordering::SeqCst))
                .map(|(i, _)| i)
                .collect();
            if ready.is_empty() {
                let next = self.events.borrow().first_key_value().map(|(k, _)| k.0);
                match next {
                    Some(t) => {
                        let now = seam::now_ns();
                        if t > now {
                            self.sim.add_sim_ns(t - now);
                            seam::set_now_ns(t);
                        }
                        continue;
                    }
                    None => return Stop::Deadlock,
                }
            }
            if ready.len() == 1 && spin.0 == ready[0] { spin.1 += 1 } else { spin = (ready[0], 0); vain = 0 }
            if spin.1 >= SPIN {
                spin.1 = 0;
                let next = self.events.borrow().first_key_value().map(|(k, _)| k.0);
                if next.is_none() {
                    vain += SPIN;
                    if vain >= VAIN { return Stop::Deadlock }
                }
                if let Some(t) = next {
                    vain = 0;
                    let now = seam::now_ns();
                    if t > now {
                        self.sim.add_sim_ns(t - now);
                        seam::set_now_ns(t);
                    }
                    continue;
                }
            }
            self.step.set(self.step.get() + 1);
            loop {
                let due = {
                    let mut e = self.steps.borrow_mut();
                    match e.first_key_value() {
                        Some((k, _)) if k.0 < self.step.get() => e.pop_first(),
                        _ => None,
                    }
                };
                match due { Some((_, f)) => f(), None => break }
            }
            steps += 1;
            if steps > max_steps {
                return Stop::Budget;
            }
            self.sim.step();
            // Any order, but fair: nobody stays ready for long without a turn.
            let starved = ready.iter().copied().find(|i| self.tasks.borrow()[*i].waits >= FAIR);
            let id = match starved {
                Some(i) => i,
                None => ready[if ready.len() == 1 { 0 } else { self.sim.index(ready.len()) }],
            };
            {
                let mut ts = self.tasks.borrow_mut();
                for i in &ready { ts[*i].waits += 1 }
                ts[id].waits = 0;
            }
            self.sim.fp(id as u64 + 1);
            { let mut r = self.recent.borrow_mut(); if r.len() == 8192 { r.pop_front(); } r.push_back(id); }
            let (mut fut, flag, node) = {
                let mut ts = self.tasks.borrow_mut();
                let t = &mut ts[id];
                t.flag.ready.store(false, Ordering::SeqCst);
                (t.fut.take(), t.flag.clone(), t.node)
            };
            let Some(f) = fut.as_mut() else { continue };
            seam::set_skew_ns(self.skew(node));
            self.cur.set(node);
            let waker = Waker::from(flag);
            let mut cx = Context::from_waker(&waker);
            let r = f.as_mut().poll(&mut cx);
            self.cur.set(usize::MAX);
            seam::set_skew_ns(0);
            let cost = self.poll_cost_ns.get();
            if cost > 0 {
                seam::advance_ns(cost);
                self.sim.add_sim_ns(cost);
            }
            match r {
                Poll::Ready(()) => {
                    {
                        let mut ts = self.tasks.borrow_mut();
                        ts[id].done = true;
                        ev!(self.sim, "task {} finished", ts[id].name);
                    }
                    drop(fut);
                }
                Poll::Pending => {
                    let mut ts = self.tasks.borrow_mut();
                    if !ts[id].done { ts[id].fut = fut; } else { drop(ts); drop(fut); }
                }
            }
        }
    }
    /// How often each task ran among the last steps.
    pub fn busy(&self) -> Vec<(String, usize, usize)> {
        let mut n = BTreeMap::<usize, usize>::new();
        for i in self.recent.borrow().iter() { *n.entry(*i).or_default() += 1 }
        let t = self.tasks.borrow();
        let mut v: Vec<_> = n.into_iter().map(|(i, n)| (t[i].name.clone(), t[i].node, n)).collect();
        v.sort_by_key(|(_, _, n)| usize::MAX - n);
        v
    }
    pub fn pending_names(&self) -> Vec<String> {
        self.tasks.borrow().iter().filter(|t| !t.done).map(|t| t.name.clone()).collect()
    }
    /// Drops every task and event (breaks Rc cycles at the end of a run).
    pub fn shutdown(&self) {
        self.absorb();
        let ts = std::mem::take(&mut *self.tasks.borrow_mut());
        drop(ts);
        let e = std::mem::take(&mut *self.events.borrow_mut());
        drop(e);
        let e = std::mem::take(&mut *self.steps.borrow_mut());
        drop(e);
    }
}

pub struct Sleep(Rc<RefCell<(bool, Option<Waker>)>>);
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut s = self.0.borrow_mut();
        if s.0 { Poll::Ready(()) } else { s.1 = Some(cx.waker().clone()); Poll::Pending }
    }
}
