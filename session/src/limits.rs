//! The sizes both parties agreed on bind both of them.
use crate::rig::*;
use crate::server::Act;
use crate::truth::{base, check, links, text, Expect};
use simkit::exec::Stop;
use simkit::{ensure, ev, violate, RunResult, Sim};
use tlsn::transcript::{ContentType, Record};

/// Protocol records come on top of what was agreed.
const SLACK: usize = 32;

fn fits(m: &MpcParams, sent: usize, recv: usize, srec: usize, rrec: usize) -> bool {
    let records = |n: Option<usize>, need: usize| n.map_or(need <= 8, |n| need <= n);
    sent <= m.max_sent && recv <= m.max_recv && records(m.max_sent_records, srec) && (m.defer || recv <= m.max_recv_online.unwrap_or(32) && records(m.max_recv_records_online, rrec))
}

/// Settings that contradict each other are refused, from the prover's
/// application and from the wire; all others arrive as they were set.
fn settings(sim: &Sim) -> RunResult {
    use tlsn::config::tls_commit::mpc::{MpcTlsConfig, NetworkSetting};
    let n = || if sim.chance(1, 8) { usize::MAX - sim.index(3) } else { sim.size(1 << 20) as usize };
    let (sent, recv) = (n(), n());
    let online = match sim.index(4) { 0 => recv, 1 => recv.saturating_add(1), 2 => recv.saturating_sub(1), _ => n() };
    let (rs, rr) = (sim.chance(1, 2).then(n), sim.chance(1, 2).then(n));
    let (defer, net) = (sim.chance(1, 2), sim.chance(1, 2));
    let mut b = MpcTlsConfig::builder().max_sent_data(sent).max_recv_data(recv).max_recv_data_online(online).defer_decryption_from_start(defer).network(if net { NetworkSetting::Bandwidth } else { NetworkSetting::Latency });
    if let Some(x) = rs { b = b.max_sent_records(x) }
    if let Some(x) = rr { b = b.max_recv_records_online(x) }
    let got = b.build();
    ensure!(got.is_ok() == (online <= recv), "settings", "{online} bytes decrypted online of {recv} received: {}", if got.is_ok() { "accepted" } else { "refused" });
    let same = |c: &MpcTlsConfig, online: usize, recv: usize| c.max_sent_data() == sent && c.max_recv_data() == recv && c.max_recv_data_online() == online && c.max_sent_records() == rs && c.max_recv_records_online() == rr && c.defer_decryption_from_start() == defer && matches!(c.network(), NetworkSetting::Bandwidth) == net;
    let Ok(c) = got else { sim.probe("contradicting_settings"); return Ok(()) };
    ensure!(same(&c, online, recv), "settings", "settings changed while they were built: {c:?}");
    let wire = bincode::serialize(&c).expect("HARNESS-ERROR: settings");
    let back: MpcTlsConfig = bincode::deserialize(&wire).map_err(|e| simkit::Violation::new("settings", format!("settings {c:?} did not arrive: {e}")))?;
    ensure!(same(&back, online, recv), "settings", "settings {c:?} arrived as {back:?}");
    // A peer that sends contradicting ones.
    let mut j = serde_json::to_value(&c).expect("HARNESS-ERROR: settings");
    let low = sim.size(1 << 16) as usize;
    sim.fault("settings_altered_on_the_wire");
    j["max_recv_data"] = low.into();
    match serde_json::from_value::<MpcTlsConfig>(j) {
        Ok(c) => ensure!(online <= low && same(&c, online, low), "settings", "contradicting settings were accepted from the wire: {c:?}"),
        Err(e) => ensure!(online > low, "settings", "good settings were refused: {e}"),
    }
    Ok(())
}

fn limits(sim: &Sim) -> RunResult {
    for _ in 0..4 { settings(sim)?; }
    let mut plan = base(sim, false);
    links(sim, &mut plan);
    plan.mpc.defer = sim.chance(1, 2);
    plan.proves = sim.index(2);
    let cap = if sim.chance(1, 8) { 3000 } else { 120 };
    let (mut app, mut script) = (vec![], vec![]);
    let (mut sent, mut recv, mut srec, mut rrec) = (0usize, 0usize, 0usize, 0usize);
    for _ in 0..sim.range(1, 5) {
        for _ in 0..sim.range(0, 3) {
            let d = text(sim, 1 + sim.size(cap) as usize);
            sent += d.len();
            srec += 1;
            app.push(PAct::Write(d));
        }
        script.push(Act::Recv(sent));
        let d = text(sim, 1 + sim.size(cap) as usize);
        let k = d.len().div_ceil(1 + sim.index(3));
        recv += d.len();
        rrec += d.len().div_ceil(k);
        script.push(Act::Send(d, k));
        if !plan.mpc.defer && sim.chance(1, 2) { app.push(PAct::ReadExact(recv)) }
    }
    script.push(Act::CloseNotify);
    app.push(PAct::Close);
    app.push(PAct::ReadToEnd);
    // Around what is needed, on either side.
    let near = |n: usize| match sim.index(6) {
        0 => n,
        1 => n.saturating_sub(1 + sim.size(SLACK as u64) as usize),
        2 => n.saturating_sub(SLACK + 1 + sim.size(100) as usize),
        3 => n / 2,
        _ => n + sim.size(200) as usize,
    };
    plan.mpc.max_sent = near(sent).max(1);
    plan.mpc.max_recv = near(recv).max(32);
    plan.mpc.max_sent_records = if sim.chance(1, 2) { Some(near(srec + 1).max(1)) } else { None };
    let online = if plan.mpc.defer { sim.size(plan.mpc.max_recv as u64) as usize } else { near(recv).min(plan.mpc.max_recv) };
    plan.mpc.max_recv_online = if online >= 1 { Some(online) } else { None };
    plan.mpc.max_recv_records_online = if sim.chance(1, 2) { Some(near(rrec + 1).max(1)) } else { None };
    plan.app = app;
    // The close_notify of a client that used up its room may not fit.
    if fits(&plan.mpc, sent, recv, srec, rrec) { script.push(Act::WaitClose) }
    plan.server.script = script;
    install(sim);
    ev!(sim, "plan: sends {sent} in {srec} records, receives {recv} in {rrec}; mpc {:?} app {:?} server {:?} proves {}", plan.mpc, plan.app, plan.server.script, plan.proves);
    let w = build(sim, &plan);
    let stop = w.run(plan.steps);
    if stop != Stop::Done { violate!("hang", "{stop:?}: {} | waiting: {:?} | busy {:?}", w.describe(), w.ex.pending_names(), w.ex.busy()) }
    let m = &plan.mpc;
    let fits = fits(m, sent, recv, srec, rrec);
    let over = sent > m.max_sent + SLACK || recv > m.max_recv + SLACK;
    check(&w, &plan, &Expect { complete: fits, honest_prover: true })?;
    let (pok, vok) = (matches!(&*w.prover.borrow(), Some(Ok(_))), matches!(&*w.verifier.borrow(), Some(Ok(_))));
    if over {
        ensure!(!pok && !vok, "limits", "{sent} bytes sent and {recv} received exceed the agreed {}/{}: prover {}, verifier {}", m.max_sent, m.max_recv, if pok { "accepted" } else { "refused" }, if vok { "accepted" } else { "refused" });
        sim.probe(if sent > m.max_sent + SLACK { "too_much_sent" } else { "too_much_received" });
    }
    ensure!(pok == vok, "limits", "one party accepted what the other refused: {}", w.describe());
    if let Some(Ok(v)) = &*w.verifier.borrow() {
        let size = |r: &[Record]| r.iter().filter(|r| r.typ == ContentType::ApplicationData).map(|r| r.ciphertext.len()).sum::<usize>();
        ensure!(size(v.tls.sent()) <= m.max_sent + SLACK && size(v.tls.recv()) <= m.max_recv + SLACK, "limits", "the verifier accepted {}/{} bytes, agreed were {}/{}", size(v.tls.sent()), size(v.tls.recv()), m.max_sent, m.max_recv);
    }
    sim.probe(if fits { "fits" } else if pok { "within_slack" } else { "refused" });
    w.finish();
    Ok(())
}
pub fn s05_limits(sim: &Sim) -> RunResult { limits(sim) }
