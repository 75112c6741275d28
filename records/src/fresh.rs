//! R11: what the library draws for a handshake is fresh, whole and taken from
//! the operating system's entropy, across processes that restart.
use simkit::{ensure, ev, seam, RunResult, Sim};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use tls_core::msgs::codec::Codec;
use tls_core::msgs::handshake::{Random, SessionID};

const DRAWS: usize = 64;
fn draw(op: u64, len: usize) -> Option<Vec<u8>> {
    catch_unwind(AssertUnwindSafe(|| match op {
        0 => Random::new().ok().map(|r| r.0.to_vec()),
        1 => SessionID::random().ok().map(|s| { let mut e = s.get_encoding(); let l = e.remove(0) as usize; assert_eq!(l, s.len()); e }),
        2 => tls_core::rand::random_vec(len).ok(),
        3 => tls_core::rand::random_u32().ok().map(|x| x.to_be_bytes().to_vec()),
        _ => { let mut b = vec![0u8; len]; tls_core::rand::fill_random(&mut b).ok().map(|_| b) }
    }))
    .unwrap_or(None)
}

pub fn r11_fresh(sim: &Sim) -> RunResult {
    let procs = sim.range(2, 4);
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let epoch = seam::wall_ns() / 1_000_000_000;
    let op = sim.pick(5);
    let len = [16usize, 32, 33 + sim.size(3000) as usize, 8][sim.index(4)];
    let want = match op { 0 | 1 => 32, 3 => 4, _ => len };
    sim.stat_nontrivial();
    for p in 0..procs {
        // each process has entropy of its own; clock, pid and address space may well repeat
        let (s, fs) = (sim.seed32() << 32 | sim.seed32(), sim.seed32());
        let den = [0u64, 1, 2, 4][sim.index(4)].max(1) + 1;
        let flaky = sim.chance(1, 2);
        let dead = sim.chance(1, 8);
        if p > 0 { sim.fault("process_restarted"); }
        if dead { sim.fault("entropy_source_failed"); }
        let n = if op == 3 { DRAWS * 2 } else { DRAWS };
        let (out, hit) = std::thread::spawn(move || {
            seam::activate(s);
            seam::set_epoch_s(epoch);
            if flaky { seam::set_entropy_faults(fs, den); }
            seam::set_entropy_dead(dead);
            simkit::driver::quiet_thread();
            let v: Vec<Option<Vec<u8>>> = (0..n).map(|_| draw(op, len)).collect();
            let hit = seam::entropy_faulted();
            seam::deactivate();
            (v, hit)
        })
        .join()
        .map_err(|_| simkit::Violation::new("panic", "a process died while drawing randomness"))?;
        if flaky && !dead { for _ in 0..hit { sim.fault("entropy_request_short_or_interrupted"); } }
        ev!(sim, "process {p}: {n} draws of kind {op}, {want} bytes, flaky={flaky} dead={dead}: {} served", out.iter().flatten().count());
        sim.fp(s ^ fs << 7);
        sim.state(op | (len as u64) << 3 | (dead as u64) << 20 | (flaky as u64) << 21);
        if dead {
            ensure!(out.iter().all(|x| x.is_none()), "weak-random", "a value was produced although the entropy source fails");
            continue;
        }
        ensure!(out.iter().all(|x| x.is_some()), "no-random", "no randomness although the entropy source works");
        let out: Vec<Vec<u8>> = out.into_iter().flatten().collect();
        let (mut ones, mut zeros) = (vec![0u8; want], vec![0u8; want]);
        for x in out {
            ensure!(x.len() == want, "short-random", "{} bytes drawn instead of {want}", x.len());
            sim.observe_bytes(&x);
            for (i, b) in x.iter().enumerate() { ones[i] |= b; zeros[i] |= !b; }
            if want >= 8 { ensure!(seen.insert(x), "repeated-random", "a value drawn earlier came again (process {p} of {procs})"); }
        }
        for i in 0..want { ensure!(ones[i] == 0xff && zeros[i] == 0xff, "stuck-random", "byte {i} of {want} has bits that never change over {n} draws"); }
    }
    Ok(())
}
