//! Progress while the connection is open: whatever either end sends reaches
//! the other without waiting for unrelated traffic.
use crate::rig::*;
use crate::server::Act;
use crate::truth::{base, check, links, text, Expect};
use simkit::exec::Stop;
use simkit::{ensure, ev, violate, RunResult, Sim};

const QUIET: u64 = 100_000_000_000;

fn live(sim: &Sim, proxy: bool) -> RunResult {
    let mut plan = base(sim, proxy);
    links(sim, &mut plan);
    plan.mpc.defer = sim.chance(1, 2);
    let mut on = proxy || !plan.mpc.defer;
    let (mut app, mut script) = (vec![], vec![]);
    let (mut sent, mut recv, mut srec, mut rrec) = (0usize, 0usize, 0usize, 0usize);
    let mut closed = false;
    let mut owed = false;
    for _ in 0..sim.range(1, 6) {
        match sim.index(6) {
            0 | 1 if !closed => {
                let d = text(sim, 1 + sim.size(100) as usize);
                sent += d.len();
                srec += 1;
                app.push(PAct::Write(d));
                script.push(Act::Recv(sent));
            }
            2 | 3 => {
                let d = text(sim, 1 + sim.size(100) as usize);
                let k = 1 + sim.index(d.len());
                recv += d.len();
                rrec += d.len().div_ceil(k);
                script.push(Act::Send(d, k));
                owed = true;
                if on && sim.chance(2, 3) { app.push(PAct::ReadExact(recv)); owed = false }
            }
            4 if !proxy => { on = !on; app.push(PAct::Decrypt(on)) }
            5 if !closed && sim.chance(1, 2) => { closed = true; app.push(PAct::Close); script.push(Act::WaitClose) }
            _ => app.push(PAct::Sleep(sim.range(1, 3_000_000_000))),
        }
        if sim.chance(1, 3) { app.push(PAct::Sleep(sim.range(1, 3_000_000_000))) }
    }
    if owed {
        if !on { if sim.chance(1, 2) { app.push(PAct::Sleep(1_000_000_000)) } app.push(PAct::Decrypt(true)) }
        app.push(PAct::ReadExact(recv));
        sim.probe("read_after_wait");
    }
    let acts = app.len();
    if sent == 0 && !closed { app.push(PAct::Close) }
    app.push(PAct::ReadToEnd);
    script.push(Act::Sleep(QUIET));
    script.push(Act::CloseNotify);
    plan.mpc.max_sent = sent;
    plan.mpc.max_sent_records = Some(srec);
    plan.mpc.max_recv = recv.max(32);
    plan.mpc.max_recv_online = Some(recv);
    plan.mpc.max_recv_records_online = Some(rrec);
    plan.app = app;
    plan.server.script = script;
    plan.proves = 0;
    install(sim);
    ev!(sim, "plan: defer {} app {:?} server {:?}", plan.mpc.defer, plan.app, plan.server.script);
    let w = build(sim, &plan);
    let stop = w.run(plan.steps);
    if stop != Stop::Done { violate!("hang", "{stop:?}: {} | application after {} of {acts} actions", w.describe(), w.app.borrow().done_at.len()) }
    check(&w, &plan, &Expect { complete: true, honest_prover: true })?;
    // The server went quiet once it had received everything, for long.
    let quiet = w.slog.borrow().script_at.get(plan.server.script.len() - 2).copied().unwrap_or(0);
    let app = w.app.borrow();
    let last = if acts == 0 { 0 } else { app.done_at[acts - 1] };
    ensure!(last < quiet, "progress", "the application got stuck until the server closed: action {} of {:?}", app.done_at.iter().position(|t| *t >= quiet).unwrap_or(0), plan.app);
    if closed { sim.probe("half_closed") }
    drop(app);
    w.close();
    Ok(())
}
pub fn s10_mpc(sim: &Sim) -> RunResult { live(sim, false) }
pub fn s10_proxy(sim: &Sim) -> RunResult { live(sim, true) }
