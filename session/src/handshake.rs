//! Servers that depart from the usual handshake: what TLS 1.2 forbids is
//! committed to by neither party, what it permits by both.
use crate::rig::*;
use crate::server::{Act, Odd};
use crate::truth::{base, check, links, text, Expect};
use simkit::exec::Stop;
use simkit::{ensure, ev, violate, RunResult, Sim};

fn filler(sim: &Sim) -> Vec<u8> { let n = sim.size(40) as usize; sim.bytes(n) }

/// A departure the client has to refuse.
fn forbidden(sim: &Sim, plan: &mut Plan) -> (&'static str, Option<Odd>) {
    let i = sim.index(5);
    match sim.index(24) {
        0 => { plan.server.bad_finished = true; ("finished", None) }
        1 => { plan.server.bad_sig = true; ("signature", None) }
        2 => {
            let mut p = sim.bytes(65);
            p[0] = [4, 4, 4, 2, 0, 6][sim.index(6)];
            let n = [65, 65, 65, 64, 33, 1, 66][sim.index(7)];
            p.resize(n, 7);
            plan.server.bad_point = Some(p);
            ("point", None)
        }
        3 => { plan.server.curve = [24, 25, 22, 0, 0xffff][sim.index(5)]; ("curve", None) }
        4 => { plan.server.version = [0x0302, 0x0301, 0x0300, 0x0304, 0x0305, 0x1234][sim.index(6)]; ("version", None) }
        5 => ("missing_message", Some(Odd::Drop(i))),
        // Two server hellos, or anything else twice.
        6 => ("repeated_message", Some(Odd::Double(i))),
        7 => ("swapped_messages", Some(Odd::Swap(i))),
        8 => ("unexpected_message", Some(Odd::Insert(i, [1, 2, 4, 11, 12, 14, 15, 16, 20, 23, 99][sim.index(11)]))),
        9 => ("overlong_message", Some(Odd::Slack(i))),
        10 => ("short_message", Some(Odd::Short(i))),
        11 => ("compression", Some(Odd::Compression([1, 64, 255][sim.index(3)]))),
        12 => ("extensions", Some(Odd::Exts(match sim.index(5) {
            // Twice the same; or never offered.
            0 => vec![(11, vec![1, 0]), (11, vec![1, 0])],
            1 => vec![(0x1234, filler(sim))],
            2 => vec![(16, vec![0, 3, 2, b'h', b'2'])],
            3 => vec![(11, vec![1, 1])],
            _ => vec![(51, vec![0, 23])],
        }))),
        13 => ("record_in_flight", Some({
            let (t, d) = match sim.index(6) {
                0 => (23, filler(sim)),
                1 => (20, vec![1]),
                2 => (21, vec![2, [10, 40, 80][sim.index(3)]]),
                3 => ([24, 0, 99, 255][sim.index(4)], filler(sim)),
                4 => (22, vec![]),
                _ => (21, vec![1]),
            };
            Odd::Record(i, t, d)
        })),
        14 => ("before_key_change", Some(match sim.index(4) { 0 => Odd::BeforeCcs(23, text(sim, 5)), 1 => Odd::BeforeCcs(22, vec![14, 0, 0, 0]), 2 => Odd::BeforeCcs(21, vec![2, 40]), _ => Odd::BeforeCcs(20, vec![1]) })),
        15 => ("behind_key_change", Some(match sim.index(4) { 0 => Odd::BehindCcs(23, text(sim, 30)), 1 => Odd::BehindCcs(22, vec![20, 0, 0, 12, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]), 2 => Odd::BehindCcs(21, vec![1, 90]), _ => Odd::BehindCcs(20, vec![1]) })),
        16 => ("no_key_change", Some(Odd::NoCcs)),
        17 => ("key_change_content", Some(Odd::Ccs([vec![2], vec![1, 1], vec![0], vec![]][sim.index(4)].clone()))),
        18 => ("split_key_change", Some(Odd::Misaligned(sim.index(15)))),
        19 => ("other_key", Some(Odd::OtherKey)),
        20 => ("stale_signature", Some(Odd::Stale)),
        21 => ("scheme_label", Some(Odd::Label({
            let other: Vec<u16> = [0x0807, 0x0503, 0x0804, 0x0401, 0x0501, 0x0203, 0x0201, 0x1234, 0x0403].into_iter().filter(|x| *x != plan.server.scheme).collect();
            other[sim.index(other.len())]
        }))),
        22 => ("finished_sequence", Some(Odd::FinishedSeq)),
        _ => ("finished_content", Some(match sim.index(3) { 0 => Odd::FinishedLen([0, 11, 13, 32][sim.index(4)]), 1 => Odd::FinishedEcho, _ => { plan.server.corrupt_finished = true; return ("finished_damaged", None) } })),
    }
}
fn permitted(sim: &Sim) -> (&'static str, Option<Odd>) {
    match sim.index(8) {
        0 => ("usual", None),
        1 => ("session_id", Some(Odd::SessionId([1, 16, 32][sim.index(3)]))),
        2 => ("server_name_ack", Some(Odd::Exts(vec![(0, vec![])]))),
        3 => ("point_formats", Some(Odd::Exts(vec![(11, vec![vec![1, 0], vec![3, 0, 1, 2], vec![2, 1, 0]][sim.index(3)].clone())]))),
        4 => ("stapled", Some(Odd::Staple({ let n = 1 + sim.size(300) as usize; sim.bytes(n) }))),
        5 => ("warning_in_flight", Some(Odd::Record(sim.index(5), 21, vec![1, [90, 112][sim.index(2)]]))),
        6 => ("downgrade_marker", Some(Odd::Downgrade)),
        _ => ("warning_before_key_change", Some(Odd::BeforeCcs(21, vec![1, [90, 112][sim.index(2)]]))),
    }
}

fn handshake(sim: &Sim, proxy: bool) -> RunResult {
    let mut plan = base(sim, proxy);
    links(sim, &mut plan);
    let bad = sim.chance(2, 3);
    let (name, odd) = if bad { forbidden(sim, &mut plan) } else { permitted(sim) };
    plan.server.odd = odd.clone();
    plan.server.hs_frag = [16384, 16384, 700, 90, 33, 1][sim.index(6)];
    plan.server.ticket = sim.chance(1, 4);
    if sim.chance(1, 5) {
        plan.server.client_auth = true;
        if sim.chance(1, 2) { plan.client_auth = Some(plan.leaf.clone()) }
    }
    plan.mpc.max_sent = 300;
    plan.mpc.max_recv = 500;
    plan.mpc.max_recv_online = Some(500);
    plan.mpc.defer = sim.chance(1, 2);
    plan.proves = 1;
    let req = text(sim, 1 + sim.size(100) as usize);
    let resp = text(sim, 1 + sim.size(100) as usize);
    plan.server.script = vec![Act::Recv(req.len()), Act::Send(resp.clone(), resp.len()), Act::CloseNotify];
    plan.app = vec![PAct::Write(req.clone()), PAct::ReadToEnd];
    install(sim);
    if bad { sim.fault("server_deviates") }
    ev!(sim, "plan: {name} bad {bad} odd {odd:?} frag {} server version {:x} curve {} ems {}", plan.server.hs_frag, plan.server.version, plan.server.curve, plan.server.ems);
    let w = build(sim, &plan);
    let mut stop = w.run(plan.steps);
    if stop == Stop::Deadlock {
        // Client and server wait for each other: the server gives up.
        sim.probe("server_gave_up");
        w.ps.cut(simkit::net::Cut::Eof);
        stop = w.run(plan.steps);
    }
    if stop != Stop::Done { violate!("hang", "{name}: {stop:?}: {} | waiting: {:?}", w.describe(), w.ex.pending_names()) }
    let pok = matches!(&*w.committed.borrow(), Some(Ok(())));
    let vok = matches!(&*w.vcommitted.borrow(), Some(Ok(())));
    let log = w.slog.borrow().clone();
    if bad {
        ensure!(!vok, "handshake", "{name} ({odd:?}): the verifier committed to the connection: {}", w.describe());
        ensure!(!pok, "handshake", "{name} ({odd:?}): the prover committed to the connection: {}", w.describe());
        ensure!(w.app.borrow().read.is_empty(), "handshake", "{name} ({odd:?}): data was delivered to the application: {}", w.describe());
        ensure!(log.recv.is_empty(), "handshake", "{name} ({odd:?}): application data was sent to the server: {}", w.describe());
        sim.probe(name);
    } else {
        ensure!(pok && vok, "completeness", "{name} ({odd:?}): {}", w.describe());
        ensure!(w.app.borrow().read == resp, "delivery", "{name}: the application read {} of {} bytes", w.app.borrow().read.len(), resp.len());
        check(&w, &plan, &Expect { complete: true, honest_prover: true })?;
        sim.probe(name);
        if log.ems { sim.probe("extended_master_secret") }
    }
    w.close();
    Ok(())
}
pub fn s07_mpc(sim: &Sim) -> RunResult { handshake(sim, false) }
pub fn s07_proxy(sim: &Sim) -> RunResult { handshake(sim, true) }
