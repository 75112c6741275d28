//! Clocks that disagree: the time of a connection is the verifier's own, or
//! very close to it, and decides which certificates are valid.
use crate::certs::{self, CertSpec, Key, Kt};
use crate::rig::*;
use crate::truth::{base, check, honest, links, Expect};
use simkit::exec::Stop;
use simkit::{ensure, ev, violate, RunResult, Sim};
use std::rc::Rc;

const S: i64 = 1_000_000_000;
const DAY: i64 = 86_400;

fn skewed(sim: &Sim, proxy: bool) -> RunResult {
    let mut plan = base(sim, proxy);
    honest(sim, &mut plan);
    links(sim, &mut plan);
    plan.proves = 1 + sim.index(2);
    plan.reject_prove = false;
    install(sim);
    let draw = |sim: &Sim| -> i64 {
        match sim.index(6) {
            0 | 1 => 0,
            2 => sim.range(0, 3000) as i64 * 1_000_000,
            3 => sim.range(6_500, 20_000) as i64 * 1_000_000,
            4 => sim.range(60, 86_400) as i64 * S,
            _ => sim.range(1, 400) as i64 * DAY * S,
        }.wrapping_mul(if sim.chance(1, 2) { -1 } else { 1 })
    };
    // Usually one of the two is right.
    let (dp, dv) = match sim.index(4) { 0 => (draw(sim), draw(sim)), 1 => (0, draw(sim)), 2 => { let d = draw(sim); (d, d) } _ => (draw(sim), 0) };
    let start = now_s() as i64;
    let (tp, tv) = (start + dp / S, start + dv / S);
    // The certificate is valid around someone's clock, or just not.
    let around = if sim.chance(1, 2) { tp } else { tv };
    let (nb, na) = match sim.index(4) {
        0 => (around + sim.range(60, 7200) as i64, around + 90 * DAY),
        1 => (around - 90 * DAY, around - sim.range(60, 7200) as i64),
        _ => (around - sim.range(3600, 20 * DAY as u64) as i64, around + sim.range(3600, 20 * DAY as u64) as i64),
    };
    let (ca, leaf) = (Key::gen(Kt::P256), Key::gen(Kt::P256));
    let spec = |subject: &str, nb: i64, na: i64, sans: Vec<String>, ca| CertSpec { subject: subject.into(), issuer: "Root".into(), nb: nb as u64, na: na as u64, sans, ca, eku: None, serial: 7, extra: 0, nc: None };
    let root = certs::build(&spec("Root", start - 3000 * DAY, start + 3000 * DAY, vec![], Some((true, None))), &ca, &ca);
    plan.server.chain = vec![certs::build(&spec(&plan.host, nb, na, vec![plan.host.clone()], None), &leaf, &ca)];
    plan.server.key = Rc::new(leaf);
    (plan.server.scheme, plan.server.suite) = (0x0403, 0xc02b);
    plan.roots = vec![root.clone()];
    plan.vroots = vec![root];
    ev!(sim, "plan: prover's clock {dp} ns, verifier's {dv} ns off; certificate valid {}..{} s from now; mpc {:?} app {:?} server {:?} proves {}", nb - start, na - start, plan.mpc, plan.app, plan.server.script, plan.proves);
    let w = build(sim, &plan);
    w.ex.set_skew(PROVER, dp);
    w.ex.set_skew(VERIFIER, dv);
    if dp != 0 || dv != 0 { sim.fault("clock_skew") }
    // Once the connection is under way, the clocks no longer matter.
    let jump = sim.chance(1, 4).then(|| (sim.index(2), draw(sim)));
    if let Some((n, d)) = jump {
        let (e, a, s, slog) = (w.ex.clone(), w.apptask.clone(), sim.clone(), w.slog.clone());
        fn wait(e: Rc<simkit::exec::Exec>, a: Rc<std::cell::Cell<Option<usize>>>, slog: Rc<std::cell::RefCell<crate::server::Log>>, s: Sim, n: usize, d: i64, left: u32) {
            let e2 = e.clone();
            e.at_step(50, move || {
                if slog.borrow().handshake_done { s.fault("clock_jump"); e2.set_skew(n, d) } else if left > 0 { wait(e2, a, slog, s, n, d, left - 1) }
            })
        }
        wait(w.ex.clone(), a, slog, s, n, d, 400);
        let _ = e;
    }
    let stop = w.run(plan.steps);
    if stop != Stop::Done { violate!("hang", "{stop:?}: {} | waiting: {:?}", w.describe(), w.ex.pending_names()) }
    let apart = (tp - tv).abs();
    let valid = |t: i64, slack: i64| (nb + slack..=na - slack).contains(&t);
    let surely_invalid = |t: i64| !(nb - 30..=na + 30).contains(&t);
    // Whose time the connection carries.
    let close = apart <= 3;
    let far = apart >= 7;
    let complete = valid(tp, 30) && (proxy || close) && (valid(tv, 30) || close);
    let (pr, vr) = (w.prover.borrow(), w.verifier.borrow());
    let anyone_named = pr.as_ref().is_some_and(|p| p.as_ref().is_ok_and(|p| p.asked.iter().any(|a| a.identity)));
    let _ = anyone_named;
    drop((pr, vr));
    check_run(sim, &w, &plan, proxy, complete, surely_invalid(tp), surely_invalid(tv), far, tv)?;
    w.finish();
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn check_run(sim: &Sim, w: &World, plan: &Plan, proxy: bool, complete: bool, bad_p: bool, bad_v: bool, far: bool, tv: i64) -> RunResult {
    // `check` compares times with the server's clock, which is right; here
    // it is the verifier's clock that counts.
    check(w, plan, &Expect { complete: false, honest_prover: true })?;
    let (p, v) = (w.prover.borrow(), w.verifier.borrow());
    if let Some(Ok(v)) = &*v {
        let dt = (v.tls.time() as i64 - tv).abs();
        ensure!(dt <= 60, "time", "the verifier accepted a connection time {dt} s off its own clock");
        for o in v.outputs.iter().flatten() { if o.server_name.is_some() {
            ensure!(!bad_v, "time", "the verifier accepted the identity from a certificate that is not valid by its clock");
            sim.probe("identity_accepted");
        } }
    }
    let committed = matches!(&*w.committed.borrow(), Some(Ok(())));
    let vcommitted = matches!(&*w.vcommitted.borrow(), Some(Ok(())));
    ensure!(!bad_p || !committed, "time", "the prover connected to a server whose certificate is not valid by its clock");
    if !proxy && far {
        ensure!(!committed && !vcommitted, "time", "the parties committed although their clocks are far apart: prover {committed}, verifier {vcommitted}");
        sim.probe("clocks_refused");
    }
    if bad_p { sim.probe("prover_refused_certificate") }
    if complete {
        for (who, ok) in [("prover", matches!(&*p, Some(Ok(_)))), ("verifier", matches!(&*v, Some(Ok(_))))] { ensure!(ok, "completeness", "the {who} failed: {}", w.describe()) }
        let (Some(Ok(p)), Some(Ok(v))) = (&*p, &*v) else { unreachable!() };
        ensure!(p.outputs.iter().all(|o| o.is_ok()) && v.outputs.iter().all(|o| o.is_ok()), "completeness", "a disclosure failed: prover {:?} verifier {:?}", p.outputs.iter().map(|o| o.as_ref().err()).collect::<Vec<_>>(), v.outputs.iter().map(|o| o.as_ref().err()).collect::<Vec<_>>());
        sim.probe("complete");
    } else if let Some(Ok(v)) = &*v {
        if bad_v && v.outputs.iter().any(|o| o.is_err()) { sim.probe("identity_refused") }
    }
    Ok(())
}
pub fn s06_mpc(sim: &Sim) -> RunResult { skewed(sim, false) }
pub fn s06_proxy(sim: &Sim) -> RunResult { skewed(sim, true) }
