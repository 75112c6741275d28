//! What the prover did not disclose stays with the prover, and the keys of a
//! connection that is still open stay shared.
use crate::evil::meaning;
use crate::rig::*;
use crate::truth::{base, check, honest, links, Expect};
use mpz_ideal::hooks::{self, Event};
use simkit::exec::Stop;
use simkit::{ensure, ev, violate, RunResult, Sim};
use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;
use tlsn::transcript::{Direction, TranscriptSecret};

/// Shorter runs may coincide by chance.
const W: usize = 8;

#[derive(Default)]
struct Seen {
    /// What reached the verifier: where it was seen and the bytes.
    verifier: Vec<(String, Vec<u8>)>,
    /// What the prover learned before it ended the connection.
    early: Vec<Vec<u8>>,
    closed: bool,
    flushes: u64,
    done: Option<String>,
}

fn leak(sim: &Sim, proxy: bool) -> RunResult {
    let mut plan = base(sim, proxy);
    honest(sim, &mut plan);
    links(sim, &mut plan);
    plan.proves = 1 + sim.index(3);
    // A verifier that opens other values than it should, to make the prover
    // say more than it wants.
    let attack = sim.chance(1, 2).then(|| sim.index(60) as u64);
    if attack.is_some() { plan.evil = Some(VERIFIER); plan.reject_prove = false; plan.steps = 300_000 }
    ev!(sim, "plan: verifier cheats {attack:?}; mpc {:?} app {:?} server {:?} proves {}", plan.mpc, plan.app, plan.server.script, plan.proves);
    let w = build(sim, &plan);
    let seen = Rc::new(RefCell::new(Seen::default()));
    {
        let (s, s2, ex, ex2, a, b) = (sim.clone(), sim.clone(), w.ex.clone(), w.ex.clone(), seen.clone(), seen.clone());
        hooks::install(hooks::Hooks {
            choose: Some(Box::new(move |n| if std::thread::panicking() { 0 } else { s.index(n) })),
            event: Some(Box::new(move |e| if let Event::Decoded { value, kind, .. } = e {
                let mut st = a.borrow_mut();
                match ex.current_node() {
                    Some(VERIFIER) => st.verifier.push((format!("opened to the verifier by {kind:?}"), value)),
                    Some(PROVER) if !st.closed => st.early.push(value),
                    _ => {}
                }
            })),
            send: Some(Box::new(move |ty, bytes| {
                let mut st = b.borrow_mut();
                let flush = |b: &[u8]| bincode::deserialize::<mpz_ideal::vm::FlushMsg>(b).expect("HARNESS-ERROR: flush");
                if ex2.current_node() == Some(PROVER) {
                    if ty.ends_with("FlushMsg") {
                        // Private inputs travel only because the VM is ideal.
                        let m = flush(&bytes);
                        for (_, _, v) in m.public.into_iter() { st.verifier.push(("a public input".into(), v)) }
                        for (_, _, v) in m.decode.into_iter() { st.verifier.push(("an opened value".into(), v)) }
                    } else {
                        if ty.ends_with("mpc_tls::msg::Message") && bytes[..4] == 8u32.to_le_bytes() { st.closed = true }
                        st.verifier.push((format!("a message {ty}"), bytes.clone()));
                    }
                } else if ty.ends_with("FlushMsg") {
                    st.flushes += 1;
                    if attack == Some(st.flushes - 1) {
                        s2.fault("message_forged");
                        st.done = Some(format!("forging flush {}", st.flushes - 1));
                        return meaning(&s2, ty, bytes, &None);
                    }
                }
                vec![bytes]
            })),
            ..Default::default()
        });
    }
    let mut stop = w.run(plan.steps);
    if stop != Stop::Done && seen.borrow().done.is_some() {
        w.crash(VERIFIER);
        stop = w.ex.run(&[w.ptask], plan.steps);
    }
    let st = seen.borrow();
    let why = st.done.clone().map(|d| format!("after {d}: ")).unwrap_or_default();
    if stop != Stop::Done { violate!("hang", "{why}{stop:?}: {} | waiting: {:?}", w.describe(), w.ex.pending_names()) }
    check(&w, &plan, &Expect { complete: st.done.is_none(), honest_prover: true })?;

    let log = w.slog.borrow();
    let p = w.prover.borrow();
    let app = w.app.borrow();
    // What the prover asked to disclose, whether or not it came to that.
    let (mut shown, mut name) = ([HashSet::new(), HashSet::new()], plan.proxy);
    let mut whole = [false, false];
    let mut blinders: Vec<Vec<u8>> = vec![];
    let lens = [app.written.len(), log.sent.len()];
    match &*p {
        Some(Ok(p)) => {
            for a in &p.asked {
                name |= a.identity;
                let (s, r) = a.reveal.clone().unwrap_or_default();
                for (i, x) in [s, r].into_iter().enumerate() {
                    whole[i] |= x.len() == [p.transcript.sent().len(), p.transcript.received().len()][i];
                    shown[i].extend(x.iter().flatten());
                }
            }
            for o in p.outputs.iter().flatten() {
                for s in &o.transcript_secrets { let TranscriptSecret::Hash(s) = s else { violate!("commitment", "unexpected secret") }; blinders.push(s.blinder.as_bytes().to_vec()); sim.probe(if s.direction == Direction::Sent { "commitment_sent" } else { "commitment_received" }) }
            }
        }
        // Before the first disclosure nothing may have been shown; after it
        // the harness does not know what was.
        Some(Err(_)) | None => if matches!(&*w.committed.borrow(), Some(Ok(()))) { w.finish(); return Ok(()) },
    }
    {
        let mut b = blinders.clone();
        b.sort();
        b.dedup();
        ensure!(b.len() == blinders.len(), "secrecy", "two commitments share a blinder");
        ensure!(blinders.iter().all(|b| b.len() >= 16 && b.iter().any(|x| *x != b[0])), "secrecy", "a blinder that can be guessed");
    }
    let mut secrets: Vec<(String, Vec<u8>)> = vec![];
    for (i, data) in [&app.written, &log.sent].into_iter().enumerate() {
        let d = ["sent", "received"][i];
        for k in 0..(data.len() + 1).saturating_sub(W) {
            if (k..k + W).all(|j| !shown[i].contains(&j)) { secrets.push((format!("bytes {k}..{} {d}", k + W), data[k..k + W].to_vec())) }
        }
    }
    if !secrets.is_empty() { sim.probe("undisclosed_data") }
    for b in &blinders { secrets.push(("the blinder of a commitment".into(), b[..W].to_vec())) }
    if !log.key_block.is_empty() {
        secrets.push(("the master secret".into(), log.ms[..W].to_vec()));
        // A direction shown in full is shown with its key.
        if !whole[0] && lens[0] > 0 { secrets.push(("the client's write key".into(), log.key_block[..W].to_vec())) }
        if !whole[1] && lens[1] > 0 { secrets.push(("the server's write key".into(), log.key_block[16..16 + W].to_vec())) }
        if !proxy {
            for v in &st.early {
                for (n, r) in [("client's write key", 0..16), ("server's write key", 16..32)] {
                    ensure!(!v.windows(16).any(|x| *x == log.key_block[r.clone()]), "secrecy", "{why}the prover learned the {n} while the connection was open");
                }
                ensure!(!v.windows(16).any(|x| *x == log.ms[..16]), "secrecy", "{why}the prover learned the master secret while the connection was open");
            }
            if !st.early.is_empty() { sim.probe("opened_to_the_prover") }
        }
    }
    if !name {
        sim.probe("identity_withheld");
        secrets.push(("the server's name".into(), plan.host.as_bytes()[..W].to_vec()));
        for c in &plan.server.chain { for x in c.chunks_exact(W) { secrets.push(("the server's certificate".into(), x.to_vec())) } }
    }
    let set: std::collections::HashMap<&[u8], &str> = secrets.iter().map(|(n, b)| (&b[..], &n[..])).collect();
    for (place, v) in &st.verifier {
        for x in v.windows(W) { if let Some(n) = set.get(x) { violate!("secrecy", "{why}{n} reached the verifier in {place}, undisclosed") } }
    }
    if st.done.is_some() { sim.probe("verifier_cheated") }
    drop((st, log, p, app));
    w.finish();
    Ok(())
}
pub fn s08_mpc(sim: &Sim) -> RunResult { leak(sim, false) }
pub fn s08_proxy(sim: &Sim) -> RunResult { leak(sim, true) }
