//! How connections end: every way a server (or the network) can end the
//! conversation has to end both parties, with the right verdict.
use crate::rig::*;
use crate::server::Act;
use crate::truth::{base, check, links, text, Expect};
use simkit::exec::Stop;
use simkit::net::Cut;
use simkit::{ensure, ev, violate, RunResult, Sim};

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    /// close_notify, then the socket closes.
    Clean,
    /// The socket closes after the last response, no close_notify.
    Abrupt,
    /// The connection is reset after the last response.
    Reset,
    /// A fatal alert, then the socket closes.
    Fatal,
    /// A fatal alert between two responses that an orderly end follows.
    Alarm,
    /// The same with an empty alert record, or one of unknown meaning.
    Nonsense,
    /// The socket closes before any application data.
    Silent,
    /// The socket closes in the middle of the handshake.
    Handshake,
    /// The same, at the very end of it.
    Late,
    /// A record that does not authenticate.
    Damaged,
    /// A record cut in half.
    Torn,
}
const ENDS: [End; 10] = [End::Alarm, End::Nonsense, End::Clean, End::Abrupt, End::Reset, End::Fatal, End::Silent, End::Handshake, End::Damaged, End::Torn];

fn closure(sim: &Sim, proxy: bool) -> RunResult {
    let mut plan = base(sim, proxy);
    links(sim, &mut plan);
    let end = ENDS[sim.index(ENDS.len())];
    plan.mpc.max_sent = 300;
    plan.mpc.max_recv = 500;
    plan.mpc.max_recv_online = Some(500);
    plan.mpc.defer = sim.chance(1, 2);
    plan.proves = 1;
    let req = text(sim, 1 + sim.size(200) as usize);
    let resp = text(sim, 1 + sim.size(200) as usize);
    let mut script = vec![Act::Recv(req.len())];
    let frag = 1 + sim.index(resp.len());
    plan.mpc.max_recv_records_online = Some(resp.len().div_ceil(frag) + 4);
    let app_first = end == End::Clean && sim.chance(1, 2);
    let mut app = vec![PAct::Write(req.clone())];
    if app_first { app.push(PAct::Close) }
    app.push(PAct::ReadToEnd);
    match end {
        End::Silent | End::Handshake => {}
        _ => script.push(Act::Send(resp.clone(), frag)),
    }
    match end {
        End::Clean => { if app_first { script.push(Act::WaitClose) } script.push(Act::CloseNotify) }
        End::Fatal => script.push(Act::Alert(2, [20, 40, 47, 80, 10][sim.index(5)])),
        End::Alarm => {
            script.push(Act::Alert(2, [10, 20, 40, 47, 50, 80, 90, 100, 255][sim.index(9)]));
            if sim.chance(1, 2) { script.push(Act::Send(text(sim, 1 + sim.size(50) as usize), 100)) }
            script.push(Act::CloseNotify);
        }
        End::Nonsense => {
            script.push(match sim.index(4) {
                0 => Act::Record(21, vec![]),
                1 => Act::Record(21, vec![2]),
                2 => Act::Record(22, vec![20, 0, 0, 12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]),
                _ => Act::Record([24, 99, 0][sim.index(3)], text(sim, 5)),
            });
            script.push(Act::Send(text(sim, 1 + sim.size(50) as usize), 100));
            script.push(Act::CloseNotify);
        }
        End::Damaged => { script.insert(1, Act::Corrupt) }
        End::Torn => script.push(Act::Truncated(text(sim, 20 + sim.size(100) as usize))),
        _ => {}
    }
    plan.server.script = script;
    plan.app = app;
    install(sim);
    ev!(sim, "plan: end {end:?} app_first {app_first} request {} response {} in {frag}", req.len(), resp.len());
    let w = build(sim, &plan);
    if end == End::Handshake {
        sim.fault("server_gone_in_handshake");
        // Ends within the server's part of the handshake, wherever.
        let at = sim.range(0, 1500);
        w.ps.cut_after(false, at, Cut::Eof);
    }
    if end == End::Reset {
        let ps = w.ps.clone();
        let (s2, at) = (sim.clone(), sim.size(60_000_000));
        w.ex.at(at, move || { s2.fault("server_reset"); ps.cut(Cut::Reset) });
    }
    let stop = w.run(plan.steps);
    if stop != Stop::Done { violate!("hang", "{end:?}: {stop:?}: {} | waiting: {:?}", w.describe(), w.ex.pending_names()) }
    check(&w, &plan, &Expect { complete: false, honest_prover: true })?;
    let pok = matches!(&*w.committed.borrow(), Some(Ok(())));
    let vok = matches!(&*w.vcommitted.borrow(), Some(Ok(())));
    // Cut after the server's last message: the same as a silent close.
    let end = if end == End::Handshake && w.slog.borrow().handshake_done { End::Late } else { end };
    let app_done = w.app.borrow().finished;
    ensure!(app_done, "hang", "{end:?}: the application is still waiting");
    match end {
        End::Clean | End::Abrupt => {
            ensure!(pok && vok, "closure", "{end:?} close: {}", w.describe());
            ensure!(w.app.borrow().read == resp, "delivery", "{end:?}: the application read {} of {} bytes", w.app.borrow().read.len(), resp.len());
            sim.probe(if end == End::Clean { "close_notify_close" } else { "close_without_notify" });
        }
        // Only MPC-TLS insists on data or a close_notify.
        End::Silent if proxy => { ensure!(pok == vok, "closure", "{end:?}: the parties disagree: {}", w.describe()); sim.probe("close_before_data") }
        End::Silent | End::Handshake | End::Fatal | End::Alarm | End::Nonsense | End::Damaged => {
            ensure!(!vok, "closure", "{end:?}: the verifier accepted the connection: {}", w.describe());
            ensure!(!pok, "closure", "{end:?}: the prover accepted the connection: {}", w.describe());
            sim.probe(match end { End::Silent => "close_before_data", End::Handshake => "close_in_handshake", End::Fatal => "fatal_alert", End::Alarm => "fatal_alert_in_passing", End::Nonsense => "record_out_of_place", _ => "damaged_record" });
        }
        // The truncation is not authenticated: either verdict, but the same
        // for both, and never about data that was not sent.
        End::Late | End::Reset | End::Torn => { ensure!(pok == vok, "closure", "{end:?}: the parties disagree: {}", w.describe()); sim.probe(if end == End::Torn { "torn_record" } else { "reset" }) }
    }
    w.close();
    Ok(())
}
pub fn s04_mpc(sim: &Sim) -> RunResult { closure(sim, false) }
pub fn s04_proxy(sim: &Sim) -> RunResult { closure(sim, true) }
