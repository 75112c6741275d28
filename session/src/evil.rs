//! A party that does not follow the protocol: whatever it sends, and in
//! whatever order, the other one ends, without panicking, and believes
//! nothing false.
use crate::rig::*;
use crate::server::Act;
use crate::truth::{base, check, honest, links, text, Expect};
use mpz_ideal::hooks;
use rangeset::set::RangeSet;
use serde::{Deserialize, Serialize};
use simkit::exec::Stop;
use simkit::{ensure, ev, violate, RunResult, Sim};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use tls_core::key::PublicKey;
use tls_core::msgs::enums::{ContentType, ProtocolVersion};
use tlsn::connection::{CertBinding, HandshakeData, ServerName};
use tlsn::hash::HashAlgId;
use tlsn::transcript::Direction;

// The messages as they are on the wire.
#[derive(Serialize, Deserialize, Clone)]
enum Msg {
    SetClientRandom([u8; 32]),
    ServerHello(Hello),
    ClientFinishedVd([u8; 32]),
    ServerFinishedVd([u8; 32]),
    Encrypt(Encrypt),
    Decrypt(Decrypt),
    StartTraffic,
    Flush { is_decrypting: bool },
    CloseConnection,
}
#[derive(Serialize, Deserialize, Clone)]
struct Hello { time: u64, random: [u8; 32], key: PublicKey }
#[derive(Serialize, Deserialize, Clone)]
struct Decrypt { typ: ContentType, version: ProtocolVersion, explicit_nonce: Vec<u8>, ciphertext: Vec<u8>, tag: Vec<u8> }
#[derive(Serialize, Deserialize, Clone)]
struct Encrypt { typ: ContentType, version: ProtocolVersion, len: usize, plaintext: Option<Vec<u8>> }

type Ranges = RangeSet<usize>;
#[derive(Serialize, Deserialize, Clone)]
struct Req { identity: bool, reveal: Option<(Ranges, Ranges)>, commit: Option<Vec<(Direction, Ranges, HashAlgId)>> }
#[derive(Serialize, Deserialize, Clone)]
struct Partial { sent_authed: Vec<u8>, received_authed: Vec<u8>, sent_idx: Ranges, recv_idx: Ranges, sent_total: usize, recv_total: usize }
#[derive(Serialize, Deserialize, Clone)]
struct Prove { request: Req, handshake: Option<(ServerName, HandshakeData)>, transcript: Option<Partial> }

const KINDS: [&str; 5] = ["TlsCommitRequestMsg", "mpc_tls::msg::Message", "ProveRequestMsg", "FlushMsg", "Response"];

#[derive(Clone, Debug)]
struct Attack { ty: &'static str, nth: u64, how: How }
#[derive(Clone, Copy, Debug, PartialEq)]
enum How { Bits, Truncate, Append, Drop, Double, Swap, Replay, Meaning }

fn flip(sim: &Sim, b: &mut [u8]) {
    if b.is_empty() { return }
    for _ in 0..sim.range(1, 3) { let i = sim.index(b.len()); b[i] ^= 1 << sim.index(8) }
}
fn num(sim: &Sim, n: usize) -> usize {
    match sim.index(7) { 0 => 0, 1 => n.saturating_sub(1), 2 => n + 1, 3 => n * 2, 4 => usize::MAX, 5 => 1 << 31, _ => sim.index(n + 20) }
}
fn ctype(sim: &Sim) -> ContentType { ContentType::from([20u8, 21, 22, 23, 24, 99][sim.index(6)]) }
fn version(sim: &Sim) -> ProtocolVersion { ProtocolVersion::from([0x0300u16, 0x0301, 0x0302, 0x0303, 0x0304, 0x1234][sim.index(6)]) }

fn message(sim: &Sim, m: Msg) -> Vec<Msg> {
    let mut out = vec![];
    // Something extra, first or last.
    let extra = |sim: &Sim| match sim.index(6) {
        0 => Msg::StartTraffic,
        1 => Msg::Flush { is_decrypting: sim.chance(1, 2) },
        2 => Msg::CloseConnection,
        3 => Msg::Decrypt(Decrypt { typ: ctype(sim), version: version(sim), explicit_nonce: sim.bytes(8), ciphertext: { let n = sim.size(60) as usize; sim.bytes(n) }, tag: sim.bytes(16) }),
        4 => { let n = sim.size(60) as usize; Msg::Encrypt(Encrypt { typ: ctype(sim), version: version(sim), len: n, plaintext: if sim.chance(1, 2) { Some(sim.bytes(n)) } else { None } }) }
        _ => Msg::ClientFinishedVd(sim.bytes(32).try_into().unwrap()),
    };
    if sim.chance(1, 4) {
        let e = extra(sim);
        if sim.chance(1, 2) { out.extend([e, m]) } else { out.extend([m, e]) }
        return out;
    }
    let mut m = m;
    match &mut m {
        Msg::SetClientRandom(r) | Msg::ClientFinishedVd(r) | Msg::ServerFinishedVd(r) => flip(sim, r),
        Msg::ServerHello(h) => match sim.index(4) {
            0 => h.time = match sim.index(4) { 0 => 0, 1 => u64::MAX, 2 => h.time.wrapping_add(sim.range(1, 100)), _ => h.time.wrapping_sub(sim.range(1, 100)) },
            1 => flip(sim, &mut h.random),
            2 => { let n = [0, 1, 33, 64, 65][sim.index(5)]; h.key.key = sim.bytes(n) }
            _ => {
                // A point the prover chose itself, or the same one compressed.
                if sim.chance(1, 2) && h.key.key.len() == 65 {
                    let last = h.key.key[64];
                    h.key.key.truncate(33);
                    h.key.key[0] = 2 + (last & 1);
                } else {
                    use ring::agreement::*;
                    let k = EphemeralPrivateKey::generate(&ECDH_P256, &ring::rand::SystemRandom::new()).unwrap();
                    h.key.key = k.compute_public_key().unwrap().as_ref().to_vec();
                }
            }
        },
        Msg::Encrypt(e) => match sim.index(5) {
            0 => e.typ = ctype(sim),
            1 => e.version = version(sim),
            2 => e.len = num(sim, e.len),
            3 => e.plaintext = match e.plaintext.take() { Some(_) => None, None => Some(sim.bytes(e.len.min(1000))) },
            _ => match &mut e.plaintext { Some(p) => if sim.chance(1, 3) { p.push(7) } else { flip(sim, p) }, None => e.len += 1 },
        },
        Msg::Decrypt(d) => match sim.index(7) {
            0 => d.typ = ctype(sim),
            1 => d.version = version(sim),
            2 => flip(sim, &mut d.explicit_nonce),
            3 => flip(sim, &mut d.ciphertext),
            4 => flip(sim, &mut d.tag),
            5 => { let n = sim.size(70) as usize; d.ciphertext = sim.bytes(n) }
            _ => { let n = sim.size(30) as usize; if sim.chance(1, 2) { d.tag = sim.bytes(n) } else { d.explicit_nonce = sim.bytes(n) } }
        },
        Msg::Flush { is_decrypting } => *is_decrypting = !*is_decrypting,
        Msg::StartTraffic | Msg::CloseConnection => return vec![],
    }
    out.push(m);
    out
}

fn bad_ranges(sim: &Sim, n: usize) -> Ranges {
    match sim.index(5) {
        0 => RangeSet::from(0..n + 1),
        1 => RangeSet::from(n..n + 1 + sim.size(40) as usize),
        2 => RangeSet::from(usize::MAX - 3..usize::MAX),
        3 => RangeSet::default(),
        _ => ranges(sim, n),
    }
}

fn lie(sim: &Sim, m: &mut Prove, other: &Option<(ServerName, HandshakeData)>) {
    for _ in 0..sim.range(1, 3) {
        let (ns, nr) = m.transcript.as_ref().map(|t| (t.sent_total, t.recv_total)).unwrap_or((50, 50));
        match sim.index(12) {
            // Claims other data, as revealed.
            0 | 1 => if let Some(t) = &mut m.transcript {
                let b = if sim.chance(1, 2) { &mut t.sent_authed } else { &mut t.received_authed };
                flip(sim, b)
            },
            // Claims more data.
            2 => if let (Some(t), Some((s, r))) = (&mut m.transcript, &mut m.request.reveal) {
                let (idx, all, n, req) = if sim.chance(1, 2) { (&mut t.sent_idx, &mut t.sent_authed, t.sent_total, s) } else { (&mut t.recv_idx, &mut t.received_authed, t.recv_total, r) };
                let more = ranges(sim, n);
                idx.union_mut(&more);
                *all = text(sim, idx.len());
                *req = idx.clone();
            },
            // Claims another length.
            3 => if let Some(t) = &mut m.transcript {
                let n = if sim.chance(1, 2) { &mut t.sent_total } else { &mut t.recv_total };
                *n = (*n + sim.size(20) as usize).saturating_sub(sim.size(20) as usize)
            },
            // Asks for ranges that make no sense.
            4 | 5 => {
                let d = if sim.chance(1, 2) { Direction::Sent } else { Direction::Received };
                let r = bad_ranges(sim, if d == Direction::Sent { ns } else { nr });
                let a = [HashAlgId::SHA256, HashAlgId::BLAKE3, HashAlgId::KECCAK256][sim.index(3)];
                m.request.commit.get_or_insert_with(Vec::new).push((d, r, a));
            }
            6 => m.request.reveal = Some((bad_ranges(sim, ns), bad_ranges(sim, nr))),
            7 => { let r = (bad_ranges(sim, ns), bad_ranges(sim, nr)); if let Some(t) = &mut m.transcript {
                t.sent_authed = text(sim, r.0.len().min(3000));
                t.received_authed = text(sim, r.1.len().min(3000));
                t.sent_idx = r.0.clone();
                t.recv_idx = r.1.clone();
                m.request.reveal = Some(r);
            } }
            8 => m.transcript = None,
            9 => if sim.chance(1, 2) { m.request.reveal = None } else { m.request.identity = !m.request.identity },
            // Names somebody else.
            10 => if let Some((n, _)) = &mut m.handshake { *n = ServerName::Dns(["bank.com", "www.example.com", "example.co"][sim.index(3)].try_into().unwrap()) },
            _ => match &mut m.handshake {
                Some((_, h)) => match sim.index(5) {
                    0 => if let Some((_, o)) = other { h.certs = o.certs.clone() },
                    1 => if let Some((_, o)) = other { h.sig = o.sig.clone() },
                    2 => if let Some((_, o)) = other { *h = o.clone() },
                    3 => flip(sim, &mut h.sig.sig),
                    _ => { let CertBinding::V1_2(b) = &mut h.binding else { return }; match sim.index(3) { 0 => flip(sim, &mut b.client_random), 1 => flip(sim, &mut b.server_random), _ => flip(sim, &mut b.server_ephemeral_key.key) } }
                },
                None => m.handshake = other.clone(),
            },
        }
    }
}

pub fn meaning(sim: &Sim, ty: &str, b: Vec<u8>, other: &Option<(ServerName, HandshakeData)>) -> Vec<Vec<u8>> {
    let ser = |m: &Msg| bincode::serialize(m).unwrap();
    if ty.ends_with("mpc_tls::msg::Message") {
        let m: Msg = bincode::deserialize(&b).expect("HARNESS-ERROR: message");
        return message(sim, m).iter().map(ser).collect();
    }
    if ty.ends_with("ProveRequestMsg") {
        let mut m: Prove = bincode::deserialize(&b).expect("HARNESS-ERROR: prove request");
        assert_eq!(bincode::serialize(&m).unwrap(), b, "HARNESS-ERROR: prove request");
        lie(sim, &mut m, other);
        return vec![bincode::serialize(&m).unwrap()];
    }
    if ty.ends_with("FlushMsg") {
        let mut m: mpz_ideal::vm::FlushMsg = bincode::deserialize(&b).expect("HARNESS-ERROR: flush");
        let l = match sim.index(3) { 0 => &mut m.private, 1 => &mut m.public, _ => &mut m.decode };
        if l.is_empty() { return vec![b] }
        let i = sim.index(l.len());
        flip(sim, &mut l[i].2);
        return vec![bincode::serialize(&m).unwrap()];
    }
    let mut b = b;
    flip(sim, &mut b);
    vec![b]
}

#[derive(Default)]
struct State { seen: BTreeMap<&'static str, u64>, held: Option<(&'static str, Vec<u8>)>, last: BTreeMap<&'static str, Vec<u8>>, done: Vec<String> }

fn evil(sim: &Sim, proxy: bool, who: usize) -> RunResult {
    let mut plan = base(sim, proxy);
    honest(sim, &mut plan);
    links(sim, &mut plan);
    plan.evil = Some(who);
    plan.proves = 1 + sim.index(2);
    plan.reject_prove = false;
    plan.steps = 300_000;
    let attacks: Vec<Attack> = (0..sim.weighted(&[1, 8, 2])).map(|_| {
        let ty = KINDS[if who == PROVER { sim.weighted(&[1, 6, 8, 5, 1]) } else { 3 + sim.weighted(&[6, 1]) }];
        let nth = match ty { "mpc_tls::msg::Message" => sim.index(24) as u64, "FlushMsg" => sim.index(40) as u64, "ProveRequestMsg" => sim.index(plan.proves) as u64, _ => sim.index(2) as u64 };
        // The ideal functionality's own messages stand for protocols that fail
        // when they are cut short; only what they carry is chosen.
        let how = if ty == "FlushMsg" || sim.chance(3, 4) { How::Meaning } else { [How::Bits, How::Truncate, How::Append, How::Drop, How::Double, How::Swap, How::Replay][sim.index(7)] };
        Attack { ty, nth, how }
    }).collect();
    // A prover whose public inputs follow what it claims.
    let adaptive = who == PROVER && sim.chance(1, 2);
    let other = { let p = pki(sim, "bank.com", false, now_s()); plan.vroots.push(p.root.clone()); foreign(sim, &p) };
    ev!(sim, "plan: node {who} is evil: {attacks:?} adaptive {adaptive}; mpc {:?} app {:?} server {:?} proves {}", plan.mpc, plan.app, plan.server.script, plan.proves);
    // A prover that overlooks a record that was damaged on its way: it sees
    // the original, the verifier what was transmitted.
    let restore = proxy && who == PROVER && sim.chance(1, 4);
    if restore {
        if sim.chance(1, 4) { plan.server.corrupt_finished = true } else { let n = plan.server.script.len(); plan.server.script.insert(sim.index(n), Act::Corrupt) }
    }
    let w = build(sim, &plan);
    let st = Rc::new(RefCell::new(State::default()));
    let own: Rc<RefCell<BTreeSet<(usize, usize)>>> = Default::default();
    // What the verifier learned from the garbled computation, and what was
    // proven to it afterwards.
    let learned: Rc<RefCell<[BTreeMap<(usize, usize), Vec<u8>>; 2]>> = Default::default();
    {
        let (learned, ex3, own2) = (learned.clone(), w.ex.clone(), own.clone());
        let (s, ex, st, a) = (sim.clone(), w.ex.clone(), st.clone(), attacks.clone());
        let s3 = sim.clone();
        let (ex4, log4, s4, mut at) = (w.ex.clone(), w.slog.clone(), sim.clone(), 0);
        hooks::install(hooks::Hooks {
            wire: if !restore { None } else { Some(Box::new(move |id, b| {
                if ex4.current_node() != Some(PROVER) || !id.starts_with(b"proxy_stream") { return }
                if let Some((i, mask)) = log4.borrow().damage {
                    if i >= at && i < at + b.len() { b[i - at] ^= mask; s4.fault("damage_overlooked") }
                }
                at += b.len();
            })) },
            choose: Some(Box::new(move |n| if std::thread::panicking() { 0 } else { s3.index(n) })),
            event: Some(Box::new(move |e| {
                if ex3.current_node() != Some(VERIFIER) { return }
                let (kind, ptr, bits, value) = match e {
                    hooks::Event::Decoded { kind, ptr, bits, value } => (kind, ptr, bits, value),
                    // Its own input, opened at the end.
                    hooks::Event::Private { kind: hooks::Kind::Evaluator, ptr, value } => { own2.borrow_mut().insert((ptr, value.len() * 8)); return }
                    _ => return,
                };
                let i = match kind { hooks::Kind::Evaluator => 0, hooks::Kind::ZkVerifier => 1, _ => return };
                learned.borrow_mut()[i].entry((ptr, bits)).or_insert(value);
            })),
            send: Some(Box::new(move |ty, b| {
                if ex.current_node() != Some(who) { return vec![b] }
                let Some(k) = KINDS.iter().copied().find(|k| ty.ends_with(k)) else { return vec![b] };
                let mut st = st.borrow_mut();
                let n = { let e = st.seen.entry(k).or_default(); *e += 1; *e - 1 };
                let mut b = b;
                if adaptive && k == "FlushMsg" {
                    let mut m: mpz_ideal::vm::FlushMsg = bincode::deserialize(&b).expect("HARNESS-ERROR: flush");
                    m.public.clear();
                    b = bincode::serialize(&m).unwrap();
                }
                let mut out = vec![b.clone()];
                for x in a.iter().filter(|x| x.ty == k && x.nth == n) {
                    s.fault(match x.how { How::Bits => "bits_flipped", How::Truncate => "message_truncated", How::Append => "message_extended", How::Drop => "message_dropped", How::Double => "message_duplicated", How::Swap => "messages_swapped", How::Replay => "message_replayed", How::Meaning => "message_forged" });
                    ev!(s, "attack: {x:?}");
                    st.done.push(format!("{x:?}"));
                    let mut o = b.clone();
                    out = match x.how {
                        How::Bits => { flip(&s, &mut o); vec![o] }
                        How::Truncate => { o.truncate(s.index(b.len().max(1))); vec![o] }
                        How::Append => { let n = 1 + s.size(50) as usize; o.extend(s.bytes(n)); vec![o] }
                        How::Drop => vec![],
                        How::Double => vec![b.clone(), b.clone()],
                        How::Swap => { st.held = Some((k, o)); vec![] }
                        How::Replay => { let l = st.last.get(k).cloned(); let mut v = vec![b.clone()]; v.extend(l); v }
                        How::Meaning => meaning(&s, ty, b.clone(), &other),
                    };
                }
                if !out.is_empty() { if let Some((hk, _)) = &st.held { if *hk == k { let (_, h) = st.held.take().unwrap(); out.push(h) } } }
                st.last.insert(k, b);
                out
            })),
            ..Default::default()
        });
    }
    let mut stop = w.run(plan.steps);
    if stop == Stop::Deadlock || stop == Stop::Budget && w.ex.busy().iter().filter(|(_, n, _)| *n != who).map(|x| x.2).sum::<usize>() < 512 {
        // Both wait: the cheat's message never came. It gives up.
        sim.probe("stuck_until_peer_left");
        w.crash(who);
        let left = if who == PROVER { w.vtask } else { w.ptask };
        stop = w.ex.run(&[left], plan.steps);
        if stop == Stop::Done && who == VERIFIER { if let Some(a) = w.apptask.get() { stop = w.ex.run(&[a], plan.steps) } }
    }
    let done = st.borrow().done.join(", ");
    if stop != Stop::Done { violate!("hang", "after {done}: {stop:?}: {} | waiting: {:?} | busy: {:?}", w.describe(), w.ex.pending_names(), w.ex.busy()) }
    check(&w, &plan, &Expect { complete: st.borrow().done.is_empty() && !adaptive && !w.slog.borrow().corrupted, honest_prover: who != PROVER }).map_err(|mut v| { v.msg = format!("after {done}: {}", v.msg); v })?;
    let vok = matches!(&*w.verifier.borrow(), Some(Ok(v)) if v.outputs.iter().all(|o| o.is_ok()) && !v.outputs.is_empty());
    let pok = matches!(&*w.prover.borrow(), Some(Ok(_)));
    if matches!(&*w.vcommitted.borrow(), Some(Ok(()))) && who == PROVER && !proxy {
        let l = learned.borrow();
        for (k, v) in l[0].iter().filter(|x| !own.borrow().contains(x.0)) {
            let Some(z) = l[1].get(k) else { violate!("dual-execution", "after {done}: the verifier committed although the value {k:?} it learned was never proven") };
            ensure!(v == z, "dual-execution", "after {done}: the verifier committed although it learned {v:02x?} where {z:02x?} was proven");
        }
        sim.probe("learned_values_proven");
    }
    sim.probe(match (who, vok, pok) { (PROVER, true, _) => "verifier_accepted", (PROVER, false, _) => "verifier_refused", (_, _, true) => "prover_completed", _ => "prover_refused" });
    ensure!(!attacks.is_empty() || adaptive || w.slog.borrow().corrupted || (vok && pok), "completeness", "without an attack: {}", w.describe());
    w.finish();
    Ok(())
}

/// Somebody else's handshake, genuine in itself.
fn foreign(sim: &Sim, p: &Pki) -> Option<(ServerName, HandshakeData)> {
    use tlsn::connection::*;
    use tlsn::webpki::CertificateDer;
    let (cr, sr): ([u8; 32], [u8; 32]) = (sim.bytes(32).try_into().unwrap(), sim.bytes(32).try_into().unwrap());
    let k = ring::agreement::EphemeralPrivateKey::generate(&ring::agreement::ECDH_P256, &ring::rand::SystemRandom::new()).unwrap();
    let point = k.compute_public_key().unwrap().as_ref().to_vec();
    let binding = CertBinding::V1_2(CertBindingV1_2 { client_random: cr, server_random: sr, server_ephemeral_key: ServerEphemKey { typ: KeyType::SECP256R1, key: point.clone() } });
    let mut msg = [&cr[..], &sr[..], &[3, 0, 23, point.len() as u8]].concat();
    msg.extend(&point);
    let sig = p.key.sign(&msg, 0x0403);
    Some((ServerName::Dns("bank.com".try_into().unwrap()), HandshakeData { certs: p.chain.iter().map(|c| CertificateDer(c.clone())).collect(), sig: ServerSignature { alg: SignatureAlgorithm::ECDSA_NISTP256_SHA256, sig }, binding }))
}

pub fn s02_mpc(sim: &Sim) -> RunResult { evil(sim, false, PROVER) }
pub fn s02_proxy(sim: &Sim) -> RunResult { evil(sim, true, PROVER) }
pub fn s09_mpc(sim: &Sim) -> RunResult { evil(sim, false, VERIFIER) }
pub fn s09_proxy(sim: &Sim) -> RunResult { evil(sim, true, VERIFIER) }
