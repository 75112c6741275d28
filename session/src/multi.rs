//! Several provers and verifiers share one session: what becomes of one does
//! not touch the others, and all of them end.
use crate::rig::*;
use crate::truth::{base_for, check, honest, links, Expect};
use mpz_ideal::hooks;
use simkit::exec::{Exec, Stop};
use simkit::{ensure, ev, violate, RunResult, Sim};
use std::collections::HashSet;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fate { Honest, Rejected, Version, Untrusted, ServerGone, AppGone, Cancelled(usize) }

fn multi(sim: &Sim) -> RunResult {
    let n = 1 + sim.weighted(&[1, 4, 2]);
    let mut plans = vec![];
    let mut fates = vec![];
    for k in 0..n {
        let proxy = sim.chance(1, 3);
        let mut p = base_for(sim, proxy, ["example.com", "bank.com", "news.example.org"][k]);
        honest(sim, &mut p);
        links(sim, &mut p);
        p.proves = p.proves.min(2);
        let f = match sim.index(10) { 0 => Fate::Rejected, 1 => Fate::Version, 2 => Fate::Untrusted, 3 => Fate::ServerGone, 4 => Fate::AppGone, 5 => Fate::Cancelled(sim.index(2)), _ => Fate::Honest };
        match f {
            Fate::Rejected => p.reject_commit = true,
            Fate::Untrusted => p.roots = vec![pki(sim, "example.com", false, now_s()).root],
            _ => {}
        }
        plans.push((p, sim.chance(1, 4)));
        fates.push(f);
    }
    ev!(sim, "plan: {fates:?} swapped {:?} proxy {:?}", plans.iter().map(|p| p.1).collect::<Vec<_>>(), plans.iter().map(|p| p.0.proxy).collect::<Vec<_>>());
    for (i, p) in plans.iter().enumerate() { ev!(sim, "party {i}: mpc {:?} app {:?} server {:?} proves {}", p.0.mpc, p.0.app, p.0.server.script, p.0.proves) }
    let ex = Exec::new(sim);
    let mut pv = plans[0].0.pv.clone();
    pv.cap = pv.cap.max(2000);
    let ws = build_many(sim, &ex, &plans, pv);
    {
        let old: HashSet<usize> = ws.iter().zip(&fates).filter(|(_, f)| **f == Fate::Version).map(|(w, _)| w.ptask).collect();
        let (s, s2, e) = (sim.clone(), sim.clone(), ex.clone());
        hooks::install(hooks::Hooks {
            choose: Some(Box::new(move |n| if std::thread::panicking() { 0 } else { s.index(n) })),
            send: Some(Box::new(move |ty, mut b| {
                if ty.ends_with("TlsCommitRequestMsg") && e.current_task().is_some_and(|t| old.contains(&t)) {
                    // Another release: the version is the last field.
                    s2.fault("version_mismatch");
                    let l = b.len() - 1;
                    b[l] = b'0' + (b[l] - b'0' + 1 + s2.index(8) as u8) % 10;
                }
                vec![b]
            })),
            ..Default::default()
        });
    }
    for (w, f) in ws.iter().zip(&fates) {
        let (e, s, st, at, f2) = (ex.clone(), sim.clone(), w.stask, w.apptask.clone(), *f);
        let (pt, vt) = (w.ptask, w.vtask);
        match f {
            Fate::ServerGone | Fate::AppGone | Fate::Cancelled(_) => ex.at_step(sim.size(6000), move || match f2 {
                Fate::ServerGone => { s.fault("crash_server"); e.kill(st) }
                Fate::AppGone => if let Some(a) = at.get() { s.fault("application_dropped"); e.kill(a) },
                Fate::Cancelled(0) => { s.fault("cancel_prover"); e.kill(pt) }
                _ => { s.fault("cancel_verifier"); e.kill(vt) }
            }),
            _ => {}
        }
    }
    let tell = || ws.iter().map(|w| w.describe()).collect::<Vec<_>>().join(" || ");
    // A party whose peer was cancelled within a session that lives on may
    // wait: its application has to give up. The others may not.
    let live = || ws.iter().zip(&fates).filter(|(_, f)| !matches!(f, Fate::Cancelled(_)));
    let all: Vec<usize> = live().flat_map(|(w, _)| [w.ptask, w.vtask]).collect();
    let mut stop = ex.run(&all, 2_000_000);
    if stop == Stop::Done { let a: Vec<usize> = live().filter_map(|(w, _)| w.apptask.get()).collect(); stop = ex.run(&a, 500_000) }
    if stop != Stop::Done { violate!("hang", "{fates:?}: {stop:?}: {} | waiting: {:?}", tell(), ex.pending_names()) }
    for (k, ((w, (plan, swap)), f)) in ws.iter().zip(&plans).zip(&fates).enumerate() {
        check(w, plan, &Expect { complete: *f == Fate::Honest, honest_prover: true }).map_err(|mut v| { v.msg = format!("party {k} of {fates:?}: {}", v.msg); v })?;
        let (p, v) = (w.prover.borrow(), w.verifier.borrow());
        let refused = |what: &str| -> RunResult {
            let (pe, ve) = (p.as_ref().and_then(|r| r.as_ref().err()), v.as_ref().and_then(|r| r.as_ref().err()));
            ensure!(pe.is_some() && ve.is_some(), "refusal", "party {k}, {what}: prover failed {pe:?}, verifier {ve:?}");
            Ok(())
        };
        match f {
            Fate::Rejected => {
                refused("the request was rejected")?;
                ensure!(p.as_ref().is_some_and(|r| r.as_ref().err().is_some_and(|e| e.contains("not today"))), "refusal", "party {k}: the prover does not learn why it was rejected: {:?}", p.as_ref().map(|r| r.as_ref().err()));
                sim.probe("request_rejected");
            }
            Fate::Version => {
                refused("the versions differ")?;
                ensure!(v.as_ref().is_some_and(|r| r.as_ref().err().is_some_and(|e| e.contains("version"))), "refusal", "party {k}: the verifier ran with a prover of another version");
                sim.probe("version_refused");
            }
            Fate::Untrusted => { refused("the server is not trusted")?; sim.probe("server_untrusted") }
            Fate::Honest => { sim.probe(if fates.iter().any(|f| *f != Fate::Honest) { "unaffected" } else { "all_complete" }); if *swap { sim.probe("both_roles") } }
            _ => {}
        }
    }
    if !fates.iter().any(|f| matches!(f, Fate::Cancelled(_))) {
        let stop = ex.run(&ws[0].drivers, 500_000);
        ensure!(stop == Stop::Done, "hang", "a session driver does not end: {stop:?}: {:?}", ex.pending_names());
    }
    hooks::clear();
    ex.shutdown();
    Ok(())
}
pub fn s11_shared(sim: &Sim) -> RunResult { multi(sim) }
