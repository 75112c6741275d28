//! Crashes, cancellations and lost connections at any point: whoever is left
//! comes to an end, and believes nothing false.
use crate::rig::*;
use crate::truth::{base, check, honest, links, Expect};
use simkit::exec::Stop;
use simkit::net::Cut;
use simkit::{ensure, ev, violate, RunResult, Sim};
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
enum Blow { Crash(usize), Cancel(usize), Cut(bool, Cut), CutOneWay(bool, bool, Cut), DropApp }

fn blow(sim: &Sim) -> Blow {
    let cut = if sim.chance(1, 2) { Cut::Eof } else { Cut::Reset };
    match sim.index(8) {
        0 => Blow::Crash(PROVER),
        1 => Blow::Crash(VERIFIER),
        2 => Blow::Crash(SERVER),
        3 => Blow::Cancel(PROVER),
        4 => Blow::Cancel(VERIFIER),
        5 => Blow::Cut(sim.chance(2, 3), cut),
        6 => Blow::CutOneWay(sim.chance(2, 3), sim.chance(1, 2), cut),
        _ => Blow::DropApp,
    }
}

fn crash(sim: &Sim, proxy: bool) -> RunResult {
    let mut plan = base(sim, proxy);
    honest(sim, &mut plan);
    links(sim, &mut plan);
    install(sim);
    let b = blow(sim);
    let at = sim.size(6000);
    ev!(sim, "plan: {b:?} at step {at}; mpc {:?} app {:?} server {:?} proves {}", plan.mpc, plan.app, plan.server.script, plan.proves);
    let w = Rc::new(build(sim, &plan));
    match b {
        Blow::CutOneWay(pv, dir, cut) => {
            let l = if pv { &w.pv } else { &w.ps };
            l.cut_after(dir, sim.size(if pv { 200_000 } else { 6000 }), cut);
        }
        _ => {
            let (w2, s2) = (w.clone(), sim.clone());
            w.ex.at_step(at, move || {
                ev!(s2, "blow: {b:?}");
                match b {
                    Blow::Crash(n) => { s2.fault(["crash_prover", "crash_verifier", "crash_server"][n]); w2.crash(n) }
                    Blow::Cancel(PROVER) => { s2.fault("cancel_prover"); w2.ex.kill(w2.ptask); w2.handles[0].close() }
                    Blow::Cancel(_) => { s2.fault("cancel_verifier"); w2.ex.kill(w2.vtask); w2.handles[1].close() }
                    Blow::Cut(pv, c) => { s2.fault(if pv { "cut_parties" } else { "cut_server" }); (if pv { &w2.pv } else { &w2.ps }).cut(c) }
                    Blow::DropApp => if let Some(a) = w2.apptask.get() { s2.fault("application_dropped"); w2.ex.kill(a) },
                    Blow::CutOneWay(..) => {}
                }
            });
        }
    }
    let stop = w.run(plan.steps);
    if stop != Stop::Done { violate!("hang", "{b:?} at {at}: {stop:?}: {} | waiting: {:?}", w.describe(), w.ex.pending_names()) }
    check(&w, &plan, &Expect { complete: false, honest_prover: true })?;
    // So do the session drivers that are still there.
    let left: Vec<usize> = [PROVER, VERIFIER].into_iter().filter(|n| !matches!(b, Blow::Crash(x) if x == *n)).map(|n| w.drivers[n]).collect();
    let stop = w.ex.run(&left, plan.steps);
    ensure!(stop == Stop::Done, "hang", "{b:?} at {at}: a session driver does not end: {stop:?}: {:?}", w.ex.pending_names());
    let both = matches!(&*w.committed.borrow(), Some(Ok(()))) as usize + matches!(&*w.vcommitted.borrow(), Some(Ok(()))) as usize;
    sim.probe(match both { 0 => "neither_committed", 1 => "one_committed", _ => "both_committed" });
    w.finish();
    Ok(())
}
pub fn s03_mpc(sim: &Sim) -> RunResult { crash(sim, false) }
pub fn s03_proxy(sim: &Sim) -> RunResult { crash(sim, true) }
